#!/bin/bash
# refrun.sh "CHECKS" VARIANT...: behaviour-preserving rewrites of the repository must leave the checks quiet.
. /opt/vp/env.sh
t=/tmp/refwork; [ -d $t ] || cp -a /repo $t
ck=$1; shift
(cd /verif/analyzer && go build -o ../bin/az .) || exit 1
for v in "${@:-/verif/tools/refactor/*.py}"; do for f in $v; do
git -C $t fetch -q /repo HEAD && git -C $t reset -q --hard FETCH_HEAD
( cd $t && python3 $f && go build ./... ) || { echo "$f does not build"; continue; }
/verif/tools/teststable.sh $t >/dev/null || echo "$f: tests fail"
mkdir -p /tmp/seedev; cp /verif/known_findings.txt /tmp/seedev/
for q in $ck; do
GOOSLI_REPO=$t VERIF_DIR=/tmp/seedev /verif/bin/az check $q > /tmp/ref_out_$q.txt 2>&1; rc=$?
[ $rc = 0 ] && echo "$(basename $f) $q quiet $(tail -1 /tmp/ref_out_$q.txt | cut -c1-100)" || { echo "$(basename $f) $q rc=$rc FALSE ALARM"; grep -m3 -A3 rule /tmp/ref_out_$q.txt | cut -c1-300; cp /tmp/ref_out_$q.txt /tmp/ref_$(basename $f .py)_$q.txt; }
done
done; done
git -C $t reset -q --hard
