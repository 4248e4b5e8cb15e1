#!/usr/bin/env python3
"""Writes MANIFEST.json from the claims below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(root, 'tools', 'claims.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
checks = [{"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
           "technique": CLAIMS[i][0], "level": "other", "level_note": CLAIMS[i][1]} for i in ids if i in CLAIMS]
na = [{"property": i, "reason": NA.get(i, "not claimed yet: its check is still being built")} for i in ids if i not in CLAIMS]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Every check type-checks /repo's working tree, builds its SSA form and decides the property's obligations on it; nothing of the repository is executed. known_findings.txt lists repaired and recorded defects."},
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not")
