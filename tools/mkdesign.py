#!/usr/bin/env python3
"""Rewrites the property table of DESIGN.md from properties.jsonl and tools/claims.json."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims = json.load(open(R + "/tools/claims.json"))
rows = ["<!-- table -->", "## Properties", ""]
for l in open(R + "/properties.jsonl"):
    p = json.loads(l)
    c = claims[p["id"]]
    rows.append("### %s %s" % (p["id"], p["title"]))
    rows.append(("Not claimed: " + c["na"]) if c.get("na") else "Check: `bin/check %s` over harness/%s_*.cpp. %s" % (p["id"], p["id"], c.get("design", c["note"])))
    rows.append("")
rows.append("<!-- /table -->")
t = "\n".join(rows)
s = open(R + "/DESIGN.md").read()
s = s.replace("@@TABLE@@", t) if "@@TABLE@@" in s else re.sub(r"<!-- table -->.*<!-- /table -->", lambda m: t, s, flags=re.S)
open(R + "/DESIGN.md", "w").write(s)
