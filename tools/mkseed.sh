#!/bin/bash
# mkseed.sh ID PROP NEEDS BREAKS  — reads edits from stdin as python: calls sub(file, old, new); demo.go must be in seeded/ID.
# Confirms: applies, builds, tests pass, demo passes without and fails with the change.
set -e
. /opt/vp/env.sh
id=$1; d=/verif/seeded/$1; mkdir -p $d
t=/tmp/seedwork; [ -d $t ] || cp -a /repo $t
git -C $t fetch -q /repo HEAD && git -C $t reset -q --hard FETCH_HEAD
cat > /tmp/seed_edit.py
( cd $t && python3 - <<'P'
def sub(f, old, new, n=1):
    s=open(f).read()
    assert s.count(old)>=1, (f, old, s.count(old))
    assert n==0 or s.count(old)==n, (f, old, s.count(old))
    open(f,'w').write(s.replace(old,new))
exec(open('/tmp/seed_edit.py').read())
P
)
git -C $t diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "empty patch"; exit 1; }
[ -f $d/demo.sh ] || cat > $d/demo.sh <<'S'
#!/bin/bash
# Runs demo.go against the repository in the current directory (placed there by an overlay only).
. /opt/vp/env.sh 2>/dev/null
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
echo "{\"Replace\":{\"$PWD/zz_demo/main.go\":\"$d/demo.go\"}}" > "$t/o.json"
go build -overlay "$t/o.json" -o "$t/demo" ./zz_demo || { rm -f "$t/o.json"; rmdir "$t"; exit 3; }
mkdir "$t/w"
( cd "$t/w" && timeout 120 "$t/demo" )
rc=$?
rm -rf "$t"
exit $rc
S
chmod +x $d/demo.sh
python3 - "$2" "$3" "$4" > $d/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
( cd /repo && $d/demo.sh > /tmp/demo_ok.txt 2>&1 ) || { echo "demo fails on the unchanged tree"; tail -5 /tmp/demo_ok.txt; exit 1; }
cd $t
git -C /repo apply --check $d/patch.diff
go build ./... || exit 1
/verif/tools/teststable.sh $t || { echo "tests fail"; exit 1; }
if $d/demo.sh > /tmp/demo_bad.txt 2>&1; then echo "demo passes with the change"; exit 1; fi
grep -q "zz_demo\|cannot\|undefined" /tmp/demo_bad.txt && tail -5 /tmp/demo_bad.txt
tail -2 /tmp/demo_bad.txt
git -C $t reset -q --hard
echo "seed $id confirmed"
