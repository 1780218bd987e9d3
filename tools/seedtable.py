#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=['| planted bug | caught by | needs |','|---|---|---|']
for f in sorted(glob.glob(d+'/seeded/*/meta.json')):
    m=json.load(open(f)); n=os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s |'%(n,m['property'],' '.join(m['needs'].split()).replace('|','\\|')))
t='<!-- seeds -->\n'+'\n'.join(rows)+'\n<!-- /seeds -->'
p=d+'/DESIGN.md'; s=open(p).read()
s=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda _:t,s,flags=re.S)
open(p,'w').write(s)
