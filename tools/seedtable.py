#!/usr/bin/env python3
"""Rewrite the planted-bugs table at the end of DESIGN.md from seeded/*/meta.json and tools/caught.txt."""
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| id | property | manifests with | caught by |","|---|---|---|---|"]
caught={}
p=os.path.join(root,'tools','caught.txt')
if os.path.exists(p):
    for l in open(p):
        a=l.split()
        if len(a)>=2: caught[a[0]]=' '.join(a[1:])
for d in sorted(os.listdir(root+'/seeded')):
    m=json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {caught.get(d,m['property'])} |")
f=root+'/DESIGN.md'
t=open(f).read()
i=t.index('## Planted bugs')
j=t.find('\n## ',i+5)
tail=t[j:] if j>=0 else ''
t=t[:i]+"## Planted bugs\nEach is in seeded/; none is committed in /repo.  \"caught by\" names the checks that report it.\n\n"+'\n'.join(rows)+'\n'+tail
open(f,'w').write(t)
