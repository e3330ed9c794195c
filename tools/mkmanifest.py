#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
table = json.load(open(os.path.join(here, "tools", "claims.json")))
checks, na = [], []
for p in props:
    c = table[p["id"]]
    if "reason" in c:
        na.append({"property": p["id"], "reason": c["reason"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
                       "technique": c["technique"], "level": "other", "level_note": c["note"]})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks are static analyses of /repo's current source by /verif/checker; see DESIGN.md."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
