#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a driver."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
special = {"C22": "exhaustive bounded enumeration of inputs on the real code under AddressSanitizer with termination watch",
           "C23": "exhaustive enumeration of injected I/O failures (every operation, every byte position) on the real code",
           "C24": "exhaustive bounded enumeration of programs on the real code, repeated under every memory fill and prior-output state"}
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(here + "/mc/p_%s.cpp" % i):
        na.append(dict(property=i, reason="no check built yet")); continue
    checks.append(dict(property=i, quick_cmd="./check.py %s quick" % i, thorough_cmd="./check.py %s thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique=special.get(i, "stateless model checking: exhaustive bounded enumeration of programs on the real code, judged against an executable reference model"),
        level="fault_enumeration" if i == "C23" else "model_checking",
        level_note="Every program of the bounded spaces listed in the evidence (bounds) is executed on crasm's own object code; nothing outside those spaces is claimed. Trusts the reference assembler in mc/ref.cpp (written from the manual and the instruction sets), the in-process executor (a fixed selection of the cases is replayed in a fresh process and must agree byte for byte; violations are confirmed there), gcc and libc."))
m = dict(version=1, setup_cmd="./check.py --build", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the seams (main, exit, fopen, fclose, malloc) are interposed at link time. Repairs of genuine defects are 'fix:' commits, listed in known-findings.txt.")
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
