#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties and reasons for the rest."""
import json, sys
CLAIM = json.load(open('/verif/tools/claims.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    c = CLAIM['claims'].get(i)
    if c:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": "other", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": CLAIM['na'].get(i, "No check yet.")})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
