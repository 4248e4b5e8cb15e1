#!/bin/bash
# all.sh: runs every claimed check once and prints one line each.
cd /verif && ./setup.sh > /dev/null 2>&1
for p in $(python3 -c "import json;print(*[c.get('property') or c.get('id') for c in json.load(open('/verif/MANIFEST.json'))['checks']])"); do ./check.sh $p > /tmp/all_$p.txt 2>&1; echo "$p rc=$? $(grep -a 'obligations' /tmp/all_$p.txt | cut -c1-120)"; done
