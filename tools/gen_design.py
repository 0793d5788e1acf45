#!/usr/bin/env python3
"""Writes DESIGN.md from its two texts and the results of tools/trybugs.sh."""
import json, os
os.chdir('/verif')
res = {}
if os.path.exists('tools/bugs/results.txt'):
    for l in open('tools/bugs/results.txt'):
        f = l.split(None, 3)
        res[f[0]] = (f[2], f[3].strip() if len(f) > 3 else '')
notes = {}
for l in open('tools/bugs/notes.txt'):
    k, _, v = l.strip().partition(' ')
    notes[k] = v
out = open('tools/design_head.md').read() + open('tools/design_props.md').read()
out += '| bug | property | needs | result |\n|---|---|---|---|\n'
for d in sorted(os.listdir('seeded'), key=lambda d: (json.load(open(f'seeded/{d}/meta.json'))['property'], d)):
    m = json.load(open(f'seeded/{d}/meta.json'))
    r = res.get(d, ('not run', ''))[0]
    r = {'caught': f"caught by {m['property']}", 'MISSED': 'missed'}.get(r, r)
    if d in notes:
        r += '; ' + notes[d]
    needs = m['needs'].replace('|', '\\|').replace('\n', ' ')
    out += f"| {d} | {m['property']} | {needs} | {r} |\n"
open('DESIGN.md', 'w').write(out)
