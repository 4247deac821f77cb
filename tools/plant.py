"""Writes /verif/seeded/<id>/ from tools/seeds_def.py (old/new text in one source file, a demonstration in Python)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = '/verif'
DEMO_SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
H=$(mktemp -d)
cd "$H"
HOME=$H PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:$D timeout 200 /opt/venv/bin/python "$D/demo.py"
RC=$?
rm -rf "$H"
exit $RC
'''


def main():
    sys.path.insert(0, os.path.join(V, 'tools'))
    import seeds_def
    want = sys.argv[1:]
    for s in seeds_def.SEEDS:
        if want and s['id'] not in want:
            continue
        d = f'{V}/seeded/{s["id"]}'
        if os.path.exists(d):
            shutil.rmtree(d)
        os.makedirs(d)
        tmp = tempfile.mkdtemp()
        diff = ''
        for f, old, new in s['edits']:
            src = open(f'/repo/{f}').read()
            assert src.count(old) == 1, (s['id'], f, src.count(old))
            for side, text in (('a', src), ('b', src.replace(old, new))):
                p = f'{tmp}/{side}/{f}'
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'w').write(text)
        r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=tmp, capture_output=True, text=True)
        open(f'{d}/patch.diff', 'w').write(r.stdout)
        shutil.rmtree(tmp)
        open(f'{d}/demo.sh', 'w').write(DEMO_SH)
        os.chmod(f'{d}/demo.sh', 0o755)
        open(f'{d}/demo.py', 'w').write('from lib import *\nensure_storage()\n' + s['demo'].strip() + '\n')
        shutil.copy(f'{V}/harness/lib.py', f'{d}/lib.py')
        if 'h_ns' in s['demo']:
            shutil.copy(f'{V}/harness/h_ns.py', f'{d}/h_ns.py')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(f'{d}/meta.json', 'w'), indent=1)
        print('planted', s['id'])


main()
