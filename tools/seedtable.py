#!/usr/bin/env python3
# seedtable.py LOG: puts the results of tryseeds.sh (in LOG) into DESIGN.md
import json,re,sys,glob,os
res={}
for l in open(sys.argv[1]):
    m=re.match(r'(\S+): (caught by|MISSED by) (\S+)',l)
    if m: res[m[1]]=('caught by ' if 'caught' in m[2] else 'missed by ')+m[3]
out=['| bug | needs | result |','|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(d)); m=json.load(open(d))
    out.append('| %s | %s | %s |'%(i,m['needs'].replace('|','/'),res.get(i,'not run')))
p='/verif/DESIGN.md'; s=open(p).read()
s=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda _:'<!-- seeds -->\n'+'\n'.join(out)+'\n<!-- /seeds -->',s,flags=re.S)
open(p,'w').write(s)
