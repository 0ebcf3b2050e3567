# seedchk.sh ID : validates patch of seeded/ID in /tmp/sr
D=/verif/seeded/$1
cd /tmp/sr && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
( bash $D/demo.sh ) >/tmp/seed.$1.base 2>&1 && echo "demo base ok" || { echo "demo fails on base"; tail -5 /tmp/seed.$1.base; exit 1; }
git apply $D/patch.diff || exit 1
bash /tmp/srbuild.sh >/tmp/seed.$1.build 2>&1 || { echo BUILD FAILED; tail -20 /tmp/seed.$1.build; git checkout -q -- .; exit 1; }
cd /tmp/sr/_build && python3 /opt/vp/run_doctest.py ./bin/Debug/test_sparrow_lib /tmp/sr/_build/vp-reports /tmp/seed.out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); st=set(b['stable']) if isinstance(b['stable'],list) else set(b['stable'])
o=json.load(open('/tmp/seed.out.json')); 
bad=st-set(o['passed'])
print("tests", len(o['passed']), "broken:", list(bad)[:5])
P
cd /tmp/sr
( bash $D/demo.sh ) >/tmp/seed.$1.bug 2>&1 && echo "DEMO DID NOT FAIL" || { echo "demo fails with patch: OK"; tail -2 /tmp/seed.$1.bug; }
git checkout -q -- .
