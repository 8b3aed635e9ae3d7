#!/usr/bin/env python3
# DESIGN.md = design_head + design_props + design_tail with the table of seeded bugs (caught.json: id -> checks that catch it)
import json,os,glob
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
r=lambda n: open(f'{here}/{n}').read()
caught=json.load(open(f'{here}/caught.json')) if os.path.exists(f'{here}/caught.json') else {}
rows=['| id | property | needs | breaks | caught by |','|---|---|---|---|---|']
for d in sorted(glob.glob(f'{root}/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(d)); m=json.load(open(d))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(i,m['property'])} |")
open(f'{root}/DESIGN.md','w').write(r('design_head.md')+r('design_props.md')+r('design_tail.md').replace('@TABLE@','\n'.join(rows)))
