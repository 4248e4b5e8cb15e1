#!/bin/bash
# mut.sh "CHECKS": reads edits (sub(file, old, new)) from stdin, applies them to a scratch copy and runs the checks on it.
. /opt/vp/env.sh
t=/tmp/mutwork; [ -d $t ] || cp -a /repo $t
git -C $t fetch -q /repo HEAD && git -C $t reset -q --hard FETCH_HEAD
cat > /tmp/mut_edit.py
( cd $t && python3 - <<'P'
def sub(f, old, new, n=1):
    s=open(f).read()
    assert s.count(old)>=1, (f, old, s.count(old))
    assert n==0 or s.count(old)==n, (f, old, s.count(old))
    open(f,'w').write(s.replace(old,new))
exec(open('/tmp/mut_edit.py').read())
P
) || exit 1
( cd $t && go build ./... ) || exit 1
[ -z "$TESTS" ] || /verif/tools/teststable.sh $t || echo "tests fail"
(cd /verif/analyzer && go build -o ../bin/az .) || exit 1
mkdir -p /tmp/mutev; cp /verif/known_findings.txt /tmp/mutev/
for q in $1; do
GOOSLI_REPO=$t VERIF_DIR=/tmp/mutev /verif/bin/az check $q > /tmp/mut_out_$q.txt 2>&1; rc=$?
echo "$q rc=$rc $(grep -m1 -A1 ': rule' /tmp/mut_out_$q.txt | tr '\n' ' ' | cut -c1-${W:-260})"
done
git -C $t reset -q --hard
