#!/usr/bin/env python3
"""Appends the table of planted bugs to DESIGN.md (from seeded/*/meta.json, by.txt)."""
import glob,json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=open(V+'/DESIGN.md').read()
M='\n## 5. Planted bugs'
if M in s: s=s[:s.index(M)]
s=s.rstrip()+'\n'+M+'\n\nEach in `seeded/<id>/`; "proof" = failed obligation, "search" = failing input replayed on the real code (both usually).\n\n| id | property | what it breaks | needs | caught by (its property\'s check) |\n|---|---|---|---|---|\n'
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    b=json.load(open(V+'/tools/caught.json')).get(i,'') if os.path.exists(V+'/tools/caught.json') else ''
    s+='| %s | %s | %s | %s | %s |\n'%(i,m['property'],m['what_it_breaks'].replace('|','/'),m['needs'].replace('|','/'),b)
open(V+'/DESIGN.md','w').write(s)
