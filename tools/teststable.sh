#!/bin/bash
# teststable.sh DIR: exit 0 if every stable test passes in a scratch copy.
. /opt/vp/env.sh
cd $1; sed "s#/repo/#$1/#g" /opt/vp/overlay.json > /tmp/seed_ov.json
ov="-overlay /tmp/seed_ov.json"
go test $ov -json -vet=off -count=1 ./... > /tmp/seed_test.log 2>/dev/null
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; ok=set()
for l in open('/tmp/seed_test.log'):
    try: d=json.loads(l)
    except: continue
    if d.get('Action')=='pass' and 'Test' in d: ok.add(d['Package']+'::'+d['Test']); ok.add(d['Package']+'/'+d['Test']); ok.add(d['Package']+'.'+d['Test']); ok.add(d['Package']+' '+d['Test'])
m=[x for x in b if x not in ok]
if m: print('missing',len(m),m[:3]); sys.exit(1)
P
