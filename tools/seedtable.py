#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json,glob,os,re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows=["| planted bug | needs | caught by |","|---|---|---|"]
for d in sorted(glob.glob('seeded/*')):
    m=json.load(open(d+'/meta.json'))
    rows.append(f"| {os.path.basename(d)} | {m['needs']} | {m['property']} |")
t=open('DESIGN.md').read()
t=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda _:'<!-- seeds -->\n'+'\n'.join(rows)+'\n<!-- /seeds -->',t,flags=re.S)
open('DESIGN.md','w').write(t)
