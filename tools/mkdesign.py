#!/usr/bin/env python3
import json,os,re,sys
sys.path.insert(0,'/verif/tools')
from design_text import T
from claims import CLAIMS, NA
out=[open('/verif/tools/design_head.md').read()]
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
out.append("## Properties\n")
for p in props:
    i=p['id']
    if i in CLAIMS:
        how,b=T[i]
        out.append(f"### {i} {p['title']}\n\n{how}\n\nReach: {b}\n\nWhy tests cannot: {p['why_tests_cant']}\n")
out.append("## Not applicable or not claimed\n")
for p in props:
    i=p['id']
    if i not in CLAIMS:
        out.append(f"- {i} {p['title']}: {NA.get(i,'not claimed yet')}")
out.append("")
ev=open('/verif/tools/design_tail.md').read() if os.path.exists('/verif/tools/design_tail.md') else ''
out.append(ev)
out.append("## Genuine defects\n\nRepaired (one commit each in /repo) and recorded ones are listed in `known_findings.txt`:\n")
for l in open('/verif/known_findings.txt'):
    if l.startswith('fixed:'):
        m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l); out.append(f"- {m[1]}, repaired in {m[2]}: {m[3]}")
    elif l.startswith('finding:'):
        m=re.match(r'finding: property=(\S+) key=(.*?) :: (.*)',l); out.append(f"- {m[1]}, recorded ({m[2]}): {m[3]}")
out.append("\n## Planted changes and the checks that catch them\n\nEach was written from the property's text; all are caught by the check of the property they name.\n\n| change | property | breaks | needs |\n|---|---|---|---|")
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    out.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
open('/verif/DESIGN.md','w').write('\n'.join(out)+'\n')
