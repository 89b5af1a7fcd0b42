#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for d in sorted(os.listdir(root+'/seeded')):
    m=json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks'].rstrip('.')} |")
p=root+'/DESIGN.md'; s=open(p).read()
a=s.index('| planted change |'); b=s.index('\nMissed when planted')
head='\n'.join(s[a:].split('\n')[:2])
open(p,'w').write(s[:a]+head+'\n'+'\n'.join(rows)+'\n'+s[b:])
