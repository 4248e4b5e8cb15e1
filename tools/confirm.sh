#!/bin/bash
# confirm.sh: re-confirms every seeded change (applies, builds, passes tests, demo discriminates).
. /opt/vp/env.sh
t=/tmp/seedwork; [ -d $t ] || cp -a /repo $t
for d in /verif/seeded/*/; do
id=$(basename $d); [ $# -gt 0 ] && [[ " $* " != *" $id "* ]] && continue
git -C $t fetch -q /repo HEAD && git -C $t reset -q --hard FETCH_HEAD
cd $t; $d/demo.sh >/dev/null 2>&1 || { echo "$id: demo fails unpatched"; continue; }
git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
go build ./... || { echo "$id: no build"; continue; }
/verif/tools/teststable.sh $t || { echo "$id: tests fail"; continue; }
$d/demo.sh >/dev/null 2>&1 && { echo "$id: demo passes patched"; continue; }
echo "$id ok"
done
git -C $t reset -q --hard
