#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks the explorer has."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
out = subprocess.run(['./run.sh', 'list'], stdout=subprocess.PIPE, text=True, check=True).stdout
level = {}
for l in out.splitlines():
    f = l.split()
    level[f[0]] = f[1] if len(f) > 1 else 'model_checking'
props = [json.loads(l) for l in open('properties.jsonl')]
src = {}
exec(open('tools/manifest_notes.py').read(), src)
checks, na = [], []
for p in props:
    i = p['id']
    if i in level:
        t, note = src['NOTES'].get(i, src['DEFAULT'])
        checks.append({'property': i, 'quick_cmd': './run.sh %s quick' % i, 'thorough_cmd': './run.sh %s thorough' % i,
            'technique': t, 'level': level[i], 'level_note': note})
    else:
        na.append({'property': i, 'reason': src['NA'].get(i, 'its check is not built yet')})
m = {'version': 1, 'setup_cmd': './run.sh build', 'checks': checks, 'not_applicable': na,
    'notes': 'No hooks in /repo. Every check builds the explorer (harness/) against /repo and runs the real code.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
