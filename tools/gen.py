#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props_def.py and registry.py"""
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, HERE + '/tools']
sys.dont_write_bytecode = True
import props_def
import registry

lines, checks, na = [], [], []
for p in props_def.PROPS:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
    st = re.sub(r'\s+', ' ', p['statement']).strip()
    n = len(re.findall(r'[.;](?:\s|$)', st.replace('...', '')))
    rec = {'id': p['id'], 'title': p['title'], 'statement': st,
           'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
           'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
    if p['observe']:
        rec['anchors']['observe_at'] = p['observe']
    lines.append(json.dumps(rec))
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    spec = registry.PROPS[p['id']]
    level = spec['level']
    tech = {'proof': 'contract-based deductive verification of the real source (pyvc VCs, SMT)',
            'other': 'contract-based deductive verification of the real source, with a bounded stand-in where stated'}[level]
    checks.append({'property': p['id'], 'quick_cmd': f'./check.py {p["id"]} --tier quick',
                   'thorough_cmd': f'./check.py {p["id"]} --tier thorough', 'technique': tech, 'level': level,
                   'level_note': (p['note'] + ' ' if p['note'] else '') + props_def.STD})
ids = [p['id'] for p in props_def.PROPS]
assert len(set(ids)) == len(ids)
assert set(registry.PROPS) == {c['property'] for c in checks}, set(registry.PROPS) ^ {c['property'] for c in checks}
with open(HERE + '/properties.jsonl', 'w') as f:
    f.write('\n'.join(lines) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'no hooks: the checks read the source of /repo and drive the real code from outside'}
with open(HERE + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
