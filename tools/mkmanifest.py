#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
# id: (technique, level, note)
C = json.load(open(os.path.join(ROOT, "tools", "checks.json")))
checks = []
for id in sorted(C["checks"]):
    t, level, note = C["checks"][id]
    checks.append({"property": id, "quick_cmd": f"VERIF_TIER=quick ./check.sh {id}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {id}",
                   "evidence_file": f"evidence/{id}.json", "technique": t, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(C["not_applicable"].items())],
     "notes": C["notes"]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
