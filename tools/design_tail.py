"""Writes sections 2 and following of DESIGN.md, from properties.jsonl, registry.py, known_findings.json and seeded/."""
import glob
import json
import os
import sys

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from registry import PROPS                              # noqa: E402
from tools.design_notes import HOW, AFTER               # noqa: E402

out = ['## 2. How each property is decided', '',
       'All claimed properties are decided by discharged obligations (level `proof`); the companion harness is bounded, finds',
       'inputs for violations, and stands in where the last column says so.', '']
for l in open(f'{R}/properties.jsonl'):
    p = json.loads(l)
    r = PROPS.get(p['id'])
    if r is None:
        continue
    out.append(f'**{p["id"]} {p["title"]}.** Tasks: {", ".join("/".join(t) for t in r["tasks"])}. '
               f'Companion: {", ".join(r["harness"])}.')
    out.append(HOW.get(p['id'], ''))
    if r.get('trusted'):
        out.append('Contracts assumed: ' + '; '.join(r['trusted']) + '.')
    out.append('')
out.append(AFTER)
out += ['## 4. Defects found', '',
        'Repaired by `fix:` commits in /repo (F…), or listed as known findings (K…, known_findings.json):', '']
for x in json.load(open(f'{R}/known_findings.json'))['findings']:
    w = x['what']
    if x['status'] == 'fixed':
        w = w.split(' ', 3)[3]
        out.append(f'* {x["id"]} {x["property"]} `{x["commit"]}` {w}')
    else:
        out.append(f'* {x["id"]} {x["property"]} **known**: {w}')
out += ['', '## 5. Planted bugs', '',
        'Every one passes the existing tests and is caught by the check of its property; "proof" means that no failing input was '
        'found by the companion.', '',
        '| seed | property | needs |', '|---|---|---|']
for m in sorted(glob.glob(f'{R}/seeded/*/meta.json')):
    d = json.load(open(m))
    out.append(f'| {m.split("/")[-2]} | {d["property"]} | {d["needs"]} |')
p = f'{R}/DESIGN.md'
s = open(p).read()
i = s.find('## 2. How')
s = (s if i < 0 else s[:i]).rstrip() + '\n\n' + '\n'.join(out) + '\n'
open(p, 'w').write(s)
