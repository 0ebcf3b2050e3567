#!/usr/bin/env python3
"""claim.py ID NOTE [DESIGN]: record a claim and regenerate MANIFEST.json and DESIGN.md"""
import json, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(R + "/tools/claims.json"))
c[sys.argv[1]] = {"note": sys.argv[2]}
if len(sys.argv) > 3:
    c[sys.argv[1]]["design"] = sys.argv[3]
json.dump(c, open(R + "/tools/claims.json", "w"), indent=1, sort_keys=True)
for t in ("mkmanifest", "mkdesign"):
    subprocess.run([sys.executable, R + "/tools/%s.py" % t], check=True)
