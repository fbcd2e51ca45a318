#!/usr/bin/env python3
"""seedtable.py FILE: put the table of planted bugs (from the output of
'seed.py check' in FILE) between the marks in DESIGN.md."""
import sys,re,json
rows=[]
for l in open(sys.argv[1]):
    m=re.match(r'(\S+) (CAUGHT|MISSED)\S* (C\d\d) hits=(\S*) ?(.*)',l)
    if not m: continue
    id,st,p,h,_=m.groups();j=json.load(open(f'/verif/seeded/{id}/meta.json'))
    rows.append(f"| {p} | {id} | {j['what_it_breaks']} | {h if st=='CAUGHT' else 'missed; hits '+h} |")
s=open('/verif/DESIGN.md').read()
t='<!-- seeds -->\n| breaks | id | what it does | reported by |\n|---|---|---|---|\n'+'\n'.join(rows)+'\n<!-- /seeds -->'
if '@SEEDS@' in s: s=s.replace('@SEEDS@',t)
else: s=re.sub(r'<!-- seeds -->.*?<!-- /seeds -->',lambda m:t,s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
print(len(rows))
