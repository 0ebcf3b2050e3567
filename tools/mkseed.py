import sys,os,json,subprocess
# mkseed.py spec.py : spec defines ID, PROP, EDITS=[(file,old,new)], NEEDS, BREAKS, DEMO, LIB(bool)
ns={}
exec(open(sys.argv[1]).read(),ns)
for S in ns['SEEDS']:
    d='/verif/seeded/'+S['id']; os.makedirs(d,exist_ok=True)
    subprocess.run('cd /tmp/sr && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD',shell=True,check=True)
    for f,o,n in S['edits']:
        p='/tmp/sr/'+f; s=open(p).read(); assert s.count(o)>=1,(S['id'],f,o); 
        assert s.count(o)==1 or S.get('multi'),(S['id'],'ambiguous',s.count(o))
        open(p,'w').write(s.replace(o,n,1))
    open(d+'/patch.diff','w').write(subprocess.run('cd /tmp/sr && git diff',shell=True,capture_output=True,text=True).stdout)
    subprocess.run('cd /tmp/sr && git checkout -q -- .',shell=True)
    open(d+'/demo.cpp','w').write(S['demo'])
    lib=S.get('lib',True)
    srcs='src/*.cpp src/arrow_interface/*.cpp' if lib else ''
    open(d+'/demo.sh','w').write('''#!/bin/bash
# run with cwd = the repository; builds and runs the demonstration against its sources
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
%s
timeout 120 "$T/demo"
''' % ( ('''for f in "$D/demo.cpp" %s; do
  g++ -std=c++20 -O0 -g -w %s -DSPARROW_USE_DATE_POLYFILL -DSPARROW_STATIC_LIB -Iinclude -c "$f" -o "$T/$(basename "$f").o" &
  P="$P $!"
done
for p in $P; do wait "$p"; done
g++ %s "$T"/*.o -o "$T/demo" $(ls /usr/lib/x86_64-linux-gnu/libdate-tz.so 2>/dev/null)''' % (srcs, S.get('san','-fsanitize=address,undefined'), S.get('san','-fsanitize=address,undefined')))))
    json.dump({"property":S['prop'],"needs":S['needs'],"what_it_breaks":S['breaks']},open(d+'/meta.json','w'),indent=1)
    print('==',S['id'])
    sys.stdout.flush()
    subprocess.run(['bash','/tmp/seedchk.sh',S['id']])
