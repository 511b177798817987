#!/usr/bin/env python3
"""writes DESIGN.md from DESIGN.in.md, design_table.json and seeded/"""
import json
import os
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
text = open(H + '/DESIGN.in.md', encoding='utf-8').read()
T = json.load(open(H + '/design_table.json'))
rows = [f'| {k} | {v[0]} | {v[1]} | {v[2]} |' for k, v in sorted(T['properties'].items())]
text = text.replace('@@TABLE@@', '\n'.join(rows))
text = text.replace('@@SCOPE@@', '\n'.join('* ' + s for s in T['scope']))
rows = ['| bug | property | needs | first | now |', '|--|--|--|--|--|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    f, n = T['caught'].get(d, ['?', '?'])
    rows.append(f'| {d} | {m["property"]} | {m["needs"]} | {f} | {n} |')
text = text.replace('@@SEEDED@@', '\n'.join(rows))
open(V + '/DESIGN.md', 'w', encoding='utf-8').write(text)
