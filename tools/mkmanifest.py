#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with tests is claimed."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(here))
import check
T = check.tests()
notes = {}
exec(open(os.path.join(here, "notes.py")).read())
checks, na = [], []
for l in open(os.path.join(here, "../properties.jsonl")):
    p = json.loads(l)["id"]
    if p in T:
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": "property-based testing: " + notes.get(p, "generated inputs against a reference model"),
                       "level": "exploration", "level_note": "generated cases, counted in the evidence; no claim beyond them"})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --list", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "../MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not:", [x["property"] for x in na])
