#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(HERE, "tools", "checks.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    if p not in T:
        continue
    checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": T[p]["technique"], "level": "exploration",
                   "level_note": T[p]["note"]})
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks,
     "not_applicable": [{"property": p, "reason": "no check yet"} for p in props if p not in T],
     "notes": "Every check rebuilds the monitors against /repo's working tree through the exported API; no hook is needed in /repo. "
              "Repaired defects: known_findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
