"""Runs one property's concrete harness under the interpreter that runs marcel; prints a JSON report on the last line.

usage: run.py <module> --seconds N [--hints JSON] [--case REPR] [--tier quick|thorough]
"""
import argparse
import ast
import importlib
import json
import os
import pathlib
import random
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('module')
    ap.add_argument('--seconds', type=float, default=20)
    ap.add_argument('--hints', default='[]')
    ap.add_argument('--case', default=None)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--out', required=True)
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    random.seed(a.seed)
    report = {'cases': 0, 'distinct': 0, 'failures': [], 'samples': [], 'exhausted': True, 'error': None,
              'bounds': None}
    t0 = time.time()
    try:
        import lib
        modname, _, func = a.module.partition(':')
        m = importlib.import_module(modname)
        h = getattr(m, func) if func else m
        report['bounds'] = getattr(h, 'BOUNDS', None)
        lib.ensure_storage()
        seen = set()

        def one(case):
            rep = repr(case)
            report['cases'] += 1
            seen.add(rep)
            if len(report['samples']) < 3 or (report['cases'] % 997 == 0 and len(report['samples']) < 8):
                report['samples'].append(rep[:300])
            try:
                with lib.limit(getattr(h, 'LIMIT', 10)):
                    f = h.check(case)
            except lib.Hang:
                f = lib.fail('termination', f'still running after {getattr(h, "LIMIT", 10)} s')
            except Exception:
                f = lib.fail('the code under test to return', traceback.format_exc()[-1500:])
            if f is not None:
                f['case'] = rep
                report['failures'].append(f)

        if a.case is not None:
            one(ast.literal_eval(a.case))
        else:
            hints = json.loads(a.hints)
            for case in h.cases(hints, a.tier):
                one(case)
                if len(report['failures']) >= 40:
                    report['exhausted'] = False
                    break
                if time.time() - t0 > a.seconds:
                    report['exhausted'] = False
                    break
        report['distinct'] = len(seen)
    except BaseException as e:
        report['error'] = traceback.format_exc()[-3000:]
    report['wall_s'] = round(time.time() - t0, 2)
    with open(a.out, 'w') as f:
        json.dump(report, f)
    os._exit(0)


main()
