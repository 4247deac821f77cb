"""map, select, expand on the real code."""
import lib
from lib import run_mode, judge_rows, fail, wrap, streams, modes


def judge_log(r, want_log, key=None):
    """exact sequence of outputs and errors (errors are compared only by position), one end of stream, at the end"""
    got = [e if e[0] == 'out' else (e[0],) for e in r.log]
    want = want_log + [('flush',)]
    if got != want or r.exc is not None or repr(got) != repr(want):
        return fail(want, (got, r.exc), key)
    return None


FNS = {
    'id': 'lambda *a: a', 'first': 'lambda *a: a[0]', 'inv': 'lambda *a: 6 // a[0]', 'none': 'lambda *a: None',
    'list': 'lambda *a: list(a)', 'len': 'lambda *a: len(a)', 'pos': 'lambda *a: a[0] > 0',
    'const': 'lambda *a: 5', 'empty': 'lambda *a: []', 'str': 'lambda *a: ""', 'dict': 'lambda *a: {1: a}', 'key': 'lambda *a: {1: 7, 2: 0}[a[0]]', 'attr': 'lambda *a: a[0].upper()',
    'stop': 'lambda *a: next(iter(a))', 'val': 'lambda *a: int(a[-1])', 'exit': 'lambda *a: a[0] or int("x" * len(a))',
    'sum': 'lambda *a: a[0] + a[-1]', 'kill': 'lambda *a: (_ for _ in ()).throw(OSError(a)) if len(a) > 1 else a',
    'rec': 'lambda *a: [].pop(len(a)) if len(a) % 3 == 0 else len(a)'}
ALPHA = [(1,), (0,), 2, (-1, 'x'), [3, 4], ('s',), (), None, (1, 0, 3, 4, 5), tuple(range(9)), [1, 2, 3]]


def fn_cases(tier):
    seq = []
    for s in streams(ALPHA, 2 if tier == 'quick' else 3, nrandom=40):
        for f in FNS:
            seq.append((f, s))
    return modes(seq)


class map:
    BOUNDS = '19 functions (some failing on some rows, with various exceptions) x streams of length <= 2 over 11 rows, 40 random up to 40, 2 long'

    @staticmethod
    def cases(hints, tier):
        return fn_cases(tier)

    @staticmethod
    def check(case):
        import marcel.api as api
        mode, fn, rows = case
        f = eval(FNS[fn])
        r = run_mode(mode, rows, lambda: api.map(f), f'map ({FNS[fn]})')
        want = []
        for x in rows:
            try:
                want.append(('out', wrap(f(*wrap(x)))))
            except Exception:
                want.append(('err',))
        return judge_log(r, want)


class select:
    BOUNDS = map.BOUNDS

    @staticmethod
    def cases(hints, tier):
        return fn_cases(tier)

    @staticmethod
    def check(case):
        import marcel.api as api
        mode, fn, rows = case
        f = eval(FNS[fn])
        r = run_mode(mode, rows, lambda: api.select(f), f'select ({FNS[fn]})')
        want = []
        for x in rows:
            try:
                if f(*wrap(x)):
                    want.append(('out', wrap(x)))
            except Exception:
                want.append(('err',))
        return judge_log(r, want)


class expand:
    BOUNDS = ('streams of length <= 2 over 15 rows (tuples, lists, dicts, empty and nested sequences, one-component '
              'rows), no position and positions 0..3, 5, 7; API, command line, re-run')
    ALPHA = [(1,), ((1, 2),), ([],), ((),), ([1, [2]], 5), (7, (8, 9), [10]), [11, [12, 13]], [[14], 15], 16,
             ({1: 2, 3: 4},), ('x', {5: 6}), (), ((20, 21), (22,), ((23,),)),
             (0, 1, 2, 3, 4, [5, 6], 7), [0, 1, 2, 3, 4, 5, (6,), [7], 8]]

    @staticmethod
    def cases(hints, tier):
        seq = []
        for s in streams(expand.ALPHA, 2, nrandom=40):
            for p in (None, 0, 1, 2, 3, 5, 7):
                seq.append((p, s))
        yield from modes(seq)

    @staticmethod
    def check(case):
        import marcel.api as api
        mode, p, rows = case
        r = run_mode(mode, rows, lambda: api.expand(p) if p is not None else api.expand(),
                     f'expand {p}' if p is not None else 'expand')

        def parts(c):
            if isinstance(c, (list, tuple)):
                return list(c)
            if isinstance(c, dict):
                return list(c.items())
            return None
        want = []
        for x in [wrap(x) for x in rows]:
            if p is None:
                if len(x) == 1:
                    e = parts(x[0])
                    want.extend(x if e is None else e)
                else:
                    want.extend(x)
            elif p >= len(x):
                want.append(x)
            else:
                e = parts(x[p])
                for y in ([x[p]] if e is None else e):
                    want.append(x[:p] + type(x)([y]) + x[p + 1:])
        return judge_rows(r, [wrap(x) for x in want])
