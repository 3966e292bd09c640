#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + the properties (design_props.py, bounds from the quick evidence) + tools/design_tail.md"""
import json, os
H = os.path.dirname(os.path.abspath(__file__)); V = H + "/.."
import sys; sys.path.insert(0, H)
from design_props import D
o = open(H + "/design_head.md").read()
o += "\n## The properties\n\nOracle, enumerated space (quick; thorough goes deeper), and why tests cannot settle it.\n\n"
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; e = json.load(open(V + "/evidence/%s.json" % i)); c = e["coverage"]
    o += "### %s %s\n\n* Oracle: %s\n* Enumerated: %s.\n* Beyond the tests: %s\n\n" % (i, p["title"], D[i][0], "; ".join(c["bounds"]), D[i][1])
import glob
by = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")): by.setdefault(json.load(open(f))["property"], []).append(os.path.basename(os.path.dirname(f)))
catch = "".join("* %s catches %s\n" % (k, ", ".join("`%s`" % b for b in by[k])) for k in sorted(by))
o += open(H + "/design_tail.md").read().replace("@CATCH@", catch)
open(V + "/DESIGN.md", "w").write(o)
