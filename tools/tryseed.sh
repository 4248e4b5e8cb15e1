#!/bin/bash
# tryseed.sh ID...: applies a seeded change to a scratch copy and runs its property's check (or CHECKS=...) on it.
. /opt/vp/env.sh
t=/tmp/seedwork; [ -d $t ] || cp -a /repo $t
for id in "$@"; do
git -C $t fetch -q /repo HEAD && git -C $t reset -q --hard FETCH_HEAD
git -C $t apply /verif/seeded/$id/patch.diff || continue
p=${CHECKS:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
for q in $p; do
mkdir -p /tmp/seedev; cp /verif/known_findings.txt /tmp/seedev/ 2>/dev/null
GOOSLI_REPO=$t VERIF_DIR=/tmp/seedev /verif/bin/az check $q > /tmp/seed_out.txt 2>&1; rc=$?
echo "$id $q rc=$rc $(grep -m1 'rule' /tmp/seed_out.txt | cut -c1-150)"
done
git -C $t reset -q --hard
done
