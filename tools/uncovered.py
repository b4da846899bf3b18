#!/usr/bin/env python3
"""Functions of /repo that are not under contract in any unit."""
import json,glob,re,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have=set()
for f in glob.glob(V+'/units/*.base.json'):
    for k in json.load(open(f)):
        if not k.startswith('item:'):
            p=k.split('::'); have.add((p[0],p[-1].split('/')[-1]))
for root,_,fs in os.walk('/repo/src'):
    for f in sorted(fs):
        p=os.path.join(root,f); rel=p[len('/repo/'):]
        src=open(p).read()
        cut=re.search(r'^#\[cfg\(test\)\]',src,re.M)
        lines=src.split('\n'); 
        imp=''; miss=[]; n=0; intest=False
        for l in lines:
            if l.startswith('#[cfg(test)]') or l.startswith('#[test]'): intest=True
            if re.match(r'\s*(unsafe )?impl\b',l): imp=l.strip()[:70]
            m=re.match(r'\s*(pub )?(unsafe )?fn (\w+)',l)
            if m and not intest and not l.strip().startswith('//'):
                n+=1
                if (rel,m.group(3)) not in have: miss.append((m.group(3),imp))
            if intest and l.startswith('}'): intest=False
        print(rel,n,'missing',len(miss))
        for m in miss: print('     ',m[0],' | ',m[1])
