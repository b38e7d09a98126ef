#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md, the spaces of every check (from evidence/), the planted bugs (from seeded/)."""
import json,glob,os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
out=open('tools/design_head.md').read().rstrip()+"\n"
out+="\n## Spaces explored (quick tier, unchanged tree)\n\n| check | spaces | executions | states | steps compared |\n|---|---|---|---|---|\n"
for f in sorted(glob.glob('evidence/C*.json')):
    e=json.load(open(f)); c=e.get('coverage') or e
    sp=c.get('spaces') or e.get('spaces') or []
    if isinstance(sp,dict): sp=[dict(name=k,**v) for k,v in sp.items()]
    out+="| %s | %s | %s | %s | %s |\n"%(os.path.basename(f)[:-5],"; ".join(s['name'].replace('|','/') for s in sp),sum(s['executions'] for s in sp),sum(s.get('states',0) for s in sp),sum(s.get('steps',0) for s in sp))
out+="\n## Planted bugs\n\nEvery one was written from the property and the code, compiles, passes the tests and has a demonstration; `tools/tryseed.sh NAME` runs the check of its property on it.\n\n| bug | property | what it needs to manifest | caught by |\n|---|---|---|---|\n"
miss=json.load(open('tools/seed_notes.json')) if os.path.exists('tools/seed_notes.json') else {}
for d in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(d)); n=d.split('/')[1]
    out+="| %s | %s | %s | %s |\n"%(n,m['property'],m['needs'].replace('|','/').replace('\n',' '),miss.get(n,m['property']))
open('DESIGN.md','w').write(out)
