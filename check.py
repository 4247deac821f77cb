#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--replay FILE]

1. Generates and discharges the proof obligations of the property from the current source of /repo.
2. Runs the property's concrete harness against the real code (replays counterexamples; stands in, with a stated
   bound, for what the verifier cannot reach).
Exit 0: held.  Exit 1: VIOLATION line printed."""
import argparse
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def _run_task(a):
    modname, name = a
    import importlib
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    box = {}

    def go():
        try:
            from contracts import common
            m = importlib.import_module('contracts.' + modname)
            t = [t for t in m.TASKS if t.name == name][0]
            box['r'] = common.run_task(t)
        except BaseException as e:
            box['r'] = {'task': name, 'obligations': [], 'status': 'out-of-reach',
                        'reason': f'engine error: {type(e).__name__}: {e}', 'trace': traceback.format_exc(),
                        'functions': [], 'stats': {}, 'wall_s': 0}
    th = threading.Thread(target=go)
    th.start()
    th.join()
    return box['r']


def run_tasks(tasks, pool):
    return [pool.apply_async(_run_task, (t,)) for t in tasks]


def harness(spec, seconds, tier, seed, hints=(), case=None):
    """run the concrete harness in a scratch home, as a child process"""
    d = tempfile.mkdtemp(prefix='verif_h_')
    try:
        home = os.path.join(d, 'home')
        os.mkdir(home)
        out = os.path.join(d, 'out.json')
        env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': home, 'PYTHONPATH': REPO, 'TERM': 'dumb',
               'PYTHONDONTWRITEBYTECODE': '1', 'LANG': 'C.UTF-8', 'USER': 'root', 'PYTHONHASHSEED': str(seed),
               'VERIF_SCRATCH': d, 'TMPDIR': d}
        cmd = [PY, os.path.join(HERE, 'harness', 'run.py'), spec, '--seconds', str(seconds), '--tier', tier,
               '--seed', str(seed), '--hints', json.dumps(list(hints)), '--out', out]
        if case is not None:
            cmd += ['--case', case]
        p = subprocess.Popen(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, start_new_session=True)
        try:
            o, _ = p.communicate(timeout=seconds * 2 + 120)
        except subprocess.TimeoutExpired:
            o = b'timeout'
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.wait()
        try:
            with open(out) as f:
                return json.load(f)
        except Exception:
            return {'cases': 0, 'distinct': 0, 'failures': [], 'samples': [], 'exhausted': False,
                    'error': 'harness died: ' + o.decode(errors='replace')[-2000:], 'wall_s': seconds}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def known_findings(pid):
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        kf = json.load(f)
    return [k for k in kf['findings'] if k['property'] == pid and k['status'] == 'known']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--no-harness', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    import registry
    spec = registry.PROPS[a.property]
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        if r.get('case') is None:
            print('no failing input was recorded; the failed obligations were:')
            print(json.dumps(r.get('failed_obligations'), indent=1))
            return 1
        rep = harness(r['harness'], 60, 'quick', seed, case=r['case'])
        print(json.dumps(rep, indent=1))
        return 1 if rep['failures'] else 0

    quick = a.tier == 'quick'
    tasks = spec['tasks']
    hs = [] if a.no_harness else spec['harness']
    hsecs = spec.get('harness_s', 20) * (1 if quick else 8)
    ctx = multiprocessing.get_context('fork')
    results, reports = [], []
    with ctx.Pool(max(1, min(7, len(tasks) or 1)), maxtasksperchild=1) as pool:
        pend = run_tasks(tasks, pool)
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(max(1, len(hs))) as ex:
            futs = [(h, ex.submit(harness, h, hsecs, a.tier, seed)) for h in hs]
            for h, f in futs:
                reports.append((h, f.result()))
        # with a failing input found already, the obligations are only of interest for the report
        keys = [f.get('key') for _, rep in reports for f in rep['failures']]
        known_keys = [x for k in known_findings(a.property) for x in k.get('keys') or ()]
        found = any(k not in known_keys for k in keys)
        for t, p in zip(tasks, pend):
            limit = spec.get('task_s', 420)
            if found:
                limit = max(1, t0 + min(limit, 200) - time.time())
            try:
                results.append(p.get(timeout=limit))
            except multiprocessing.TimeoutError:
                results.append({'task': t[1], 'obligations': [], 'status': 'out-of-reach',
                                'reason': 'timeout' + (' (a failing input was found meanwhile)' if found else ''),
                                'functions': [], 'stats': {}, 'wall_s': round(time.time() - t0, 1)})
        pool.terminate()

    known = known_findings(a.property)
    failed = [r for r in results if r['status'] == 'failed']
    vac = [r for r in results if r['status'] == 'vacuous']
    oor = [r for r in results if r['status'] == 'out-of-reach']

    def is_known(kind, key):
        for k in known:
            if k.get(kind) and key is not None and key in k[kind]:
                return k
        return None

    seen_known = {}
    bad_obs = []
    for r in failed:
        for o in r['obligations']:
            if o['status'] != 'proved':
                k = is_known('obligations', f'{r["task"]}: {o["label"]}')
                if k:
                    seen_known[k['id']] = k
                else:
                    bad_obs.append((r, o))
    fails = []

    def sift(h, rep):
        for f in rep['failures']:
            k = is_known('keys', f.get('key'))
            if k:
                seen_known[k['id']] = k
            else:
                fails.append((h, f))
    for h, rep in reports:
        sift(h, rep)

    # counterexample search guided by the solver's models
    hints = []
    if (bad_obs or oor) and not fails:
        for r, o in bad_obs:
            m = (o.get('detail') or {}).get('model') or {}
            for v in m.values():
                try:
                    hints.append(int(v))
                except ValueError:
                    pass
        hints = sorted(set(h for h in hints if abs(h) < 100000))[:40]
        for h in hs:
            rep = harness(h, min(120, hsecs * 4), 'thorough', seed + 1, hints)
            reports.append((h + ' (guided)', rep))
            sift(h, rep)
            if fails:
                break

    # ---- verdict
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    nviol = 0
    lines = []
    for k in seen_known.values():
        lines.append(f'KNOWN-FINDING: property={a.property} {k["what"]}')
    rp = os.path.join(HERE, 'evidence', 'replay', f'{a.property}.json')
    fob = [{'task': r['task'], 'obligation': o['label'], 'status': o['status'], 'detail': o['detail']}
           for r, o in bad_obs]
    for r in vac:
        fob.append({'task': r['task'], 'obligation': '(non-vacuity)', 'status': 'vacuous', 'detail': r['reason']})
    for r in oor:
        fob.append({'task': r['task'], 'obligation': '(all: none could be generated from this source)',
                    'status': 'out of reach', 'detail': r['reason']})
    herr = [(h, rep) for h, rep in reports if rep.get('error')]
    if fails:
        h, f = fails[0]
        with open(rp, 'w') as fo:
            json.dump({'property': a.property, 'harness': h, 'case': f['case'], 'expected': f['expected'],
                       'actual': f['actual'], 'failed_obligations': fob, 'other_failures': len(fails) - 1,
                       'how': f'{HERE}/check.py {a.property} --replay {rp}'}, fo, indent=1)
        nviol = len(fails)
        lines.append(f'failing input ({h}): {f["case"][:600]}\n  expected {f["expected"][:600]}\n'
                     f'  actual   {f["actual"][:600]}')
        for o in fob:
            lines.append(f'failed obligation: {o["task"]}: {o["obligation"]} ({o["status"]})')
        lines.append(f'VIOLATION property={a.property} replay={rp}')
    elif fob:
        with open(rp, 'w') as fo:
            json.dump({'property': a.property, 'harness': None, 'case': None, 'failed_obligations': fob,
                       'note': 'the verifier refused these obligations; no failing input was found by the harness'},
                      fo, indent=1)
        nviol = len(fob)
        for o in fob:
            lines.append(f'failed obligation: {o["task"]}: {o["obligation"]} ({o["status"]})')
        lines.append(f'VIOLATION property={a.property} replay={rp} no-failing-input-found')
    elif herr and (oor or not tasks or True):
        # the concrete side could not run at all: the code does not even import / initialise
        with open(rp, 'w') as fo:
            json.dump({'property': a.property, 'harness': herr[0][0], 'case': None,
                       'failed_obligations': [{'task': 'harness', 'obligation': 'the real code can be driven',
                                               'status': 'failed', 'detail': herr[0][1]['error']}]}, fo, indent=1)
        nviol = 1
        lines.append(herr[0][1]['error'])
        lines.append(f'VIOLATION property={a.property} replay={rp} no-failing-input-found')

    # ---- evidence
    obligations = sum(o['n'] for r in results for o in r['obligations'])
    discharged = sum(o['proved'] for r in results for o in r['obligations'])
    backends = {}
    for r in results:
        for o in r['obligations']:
            for b in o['backends']:
                backends[b] = backends.get(b, 0) + o['proved']
    funcs = sorted(set(f for r in results for f in r['functions']))
    cases = sum(rep['cases'] for _, rep in reports)
    level = spec['level']
    if level == 'proof' and (oor or not tasks or nviol):
        level = 'other'
    cov = {
        'obligations': obligations,
        'discharged': discharged,
        'checker_cmd': f'python3-vt {HERE}/check.py {a.property} --tier {a.tier}',
        'trusted_base': registry.TRUSTED_BASE + spec.get('trusted', []),
        'functions_under_contract': funcs,
        'backends': backends,
        'solver_s': round(sum(r['stats'].get('solver_s', 0) for r in results), 2),
        'solver_queries': sum(r['stats'].get('queries', 0) for r in results),
        'tasks': [{'task': r['task'], 'status': r['status'], 'reason': r.get('reason'), 'wall_s': r['wall_s'],
                   'paths': r.get('completed_paths'), 'covers': r.get('covers'),
                   'obligations': [{'label': o['label'], 'paths': o['n'], 'discharged': o['proved'],
                                    'status': o['status'], 'ms': o['ms']} for o in r['obligations']]}
                  for r in results],
        'bounded': [{'harness': h, 'cases': rep['cases'], 'distinct': rep['distinct'], 'bound': rep.get('bounds'),
                     'complete': rep['exhausted'], 'samples': rep['samples'][:3], 'wall_s': rep.get('wall_s')}
                    for h, rep in reports],
        'evaluations': cases,
        'distinct_nontrivial': sum(rep['distinct'] for _, rep in reports),
        'rule': 'bounded companion of the proof: distinct harness inputs run on the real code and compared with the '
                'oracle (never counted as proved)',
        'samples': [s for _, rep in reports for s in rep['samples'][:2]][:6] or ['(no concrete companion)'],
        'explanation': 'deductive verification of the real source, function by function, plus a bounded companion'
                       + ('' if not oor else '; OUT OF REACH on this tree, bounded stand-in only: '
                          + ', '.join(f'{r["task"]} ({r["reason"]})' for r in oor)),
    }
    ev = {'property': a.property, 'tier': 'quick' if quick else 'thorough', 'seed': seed, 'level': level,
          'coverage': cov, 'assumptions': registry.ASSUMPTIONS + spec.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    with open(os.path.join(HERE, 'evidence', f'{a.property}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for r in results:
        print(f'{r["task"]}: {r["status"]} ({len(r["obligations"])} obligations, {r["wall_s"]} s)'
              + (f' {r["reason"]}' if r['status'] != 'proved' else ''))
    for h, rep in reports:
        print(f'harness {h}: {rep["cases"]} cases, {len(rep["failures"])} failures, {rep.get("wall_s")} s'
              + ('' if rep['exhausted'] else ' (time limit)'))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if nviol else 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 0 if False else 1
        print('check.py failed internally')
    sys.exit(rc)
