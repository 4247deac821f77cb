"""red (plain, grouping, incremental) and squish on the real code, against folds."""
from lib import run_mode, fail, wrap, streams, modes
from h_rows import judge_log
import operator

FN = {'+': (lambda a, x: x if a is None else a + x), 'max': (lambda a, x: x if a is None else max(a, x)),
      'min': (lambda a, x: x if a is None else min(a, x)), 'count': (lambda a, x: 1 if a is None else a + 1),
      '*': (lambda a, x: x if a is None else a * x), 'f': (lambda a, x: ((0, 7)[a is None] + (a or 0) * 31 + x) % 1009), 'g': (lambda a, x: x if a is None else a - x),
      '^': (lambda a, x: x if a is None else a ^ x), 'first': (lambda a, x: x if a is None else a), 'lst': (lambda a, x: (a or ()) + (x,))}
SRC = {'lst': '(lambda a, x: (a or ()) + (x,))', 'f': '(lambda a, x: ((0, 7)[a is None] + (a or 0) * 31 + x) % 1009)', 'g': '(lambda a, x: x if a is None else a - x)',
       'first': '(lambda a, x: x if a is None else a)'}


def api_fn(name):
    import marcel.reduction as r
    return {'+': r.r_plus, 'max': r.r_max, 'min': r.r_min, 'count': r.r_count, '*': r.r_times, '^': r.r_xor,
            '.': None}.get(name, FN.get(name))


def oracle(fns, rows, inc):
    """the log of red"""
    log = []
    n = len(fns)
    gpos = [i for i, f in enumerate(fns) if f == '.']
    groups = {}
    if not gpos:
        groups[()] = [0 if f == 'count' else None for f in fns]
    for x in map(wrap, rows):
        if len(x) < n:
            log.append(('err',))
            continue
        g = tuple(x[i] for i in gpos)
        acc = groups.setdefault(g, [None] * n)
        for i, f in enumerate(fns):
            acc[i] = x[i] if f == '.' else FN[f](acc[i], x[i])
        if inc:
            log.append(('out', tuple(x) + tuple(a for i, a in enumerate(acc) if i not in gpos)))
    if not inc:
        log += [('out', tuple(a)) for a in groups.values()]
    return log


class _Red:
    def __init__(self, inc, fns):
        self.inc, self.fns = inc, fns
        self.BOUNDS = (f'{len(fns)} function lists ({"; ".join(" ".join(f) for f in fns)}), streams of length <= 3 over 8 rows of 0..4 components or 13 of mixed types (too '
                       'short ones included), random ones up to 40, two long ones; API, command line, re-run, killed run')

    ALPHA = [(1, 2, 3), (4, 2, 1), [1, 3, 5], (1, 2), 7, (), (9, 3, 2, 1), (0, 0, 0)]

    # values that a careless comparison, truth test or conversion could confuse
    MIXED = [(1, 2), ('1', 2), (None, 3), (3, None), ('', 0), ((), 4), ((1,), '2'), (0, 0), ('None', 1), (0,), None, (-1, -2), (1, 'b', 'c')]

    def cases(self, hints, tier):
        seq = []
        for i, s in enumerate(streams(self.ALPHA, 2 if tier == 'quick' else 3, nrandom=60)):
            for f in self.fns:
                if not (set(f) <= {'lst', 'first', 'count', '.'}):
                    seq.append((f, s))
        for i, s in enumerate(streams(self.MIXED, 2, nrandom=60)):
            for f in self.fns:
                if set(f) <= {'lst', 'first', 'count', '.'}:
                    seq.append((f, s))
        return modes(seq)

    def check(self, case):
        import marcel.api as api
        mode, fns, rows = case
        text = 'red ' + ('-i ' if self.inc else '') + ' '.join(SRC.get(f, f) for f in fns)
        r = run_mode(mode, rows, lambda: api.red(*[api_fn(f) for f in fns], incremental=self.inc), text,
                     earlier=((1, 2, 3), (8, 8, 8), (1, 7)))
        return judge_log(r, oracle(fns, rows, self.inc))


red = _Red(False, [('+',), ('count',), ('+', 'max', 'count'), ('f', 'f'), ('g', '^', 'min'), ('.', '+'), ('.', '+', '.'),
                   ('f', '.', 'f'), ('.', '.', 'count'), ('first', '.', 'g'), ('.',), ('lst', 'count'), ('.', 'lst'), ('lst', '.')])
red_inc = _Red(True, [('+',), ('count',), ('+', 'max', 'count'), ('f', 'f'), ('g', '^', 'min'), ('lst', 'count')])
red_inc_group = _Red(True, [('.', '+'), ('.', '+', '.'), ('f', '.', 'f'), ('.', '.', 'count'), ('.',), ('.', 'lst'), ('lst', '.')])


class squish:
    BOUNDS = ('5 functions (one failing on some rows, with and without the default +) x streams of length <= 2 over 9 '
              'rows of 0..9 components, 60 random, 2 long; API, command line, re-run, killed run')
    F = {'+': None, 'f': SRC['f'], 'g': SRC['g'], 'div': 'lambda a, x: x if a is None else a // x',
         'none': 'lambda a, x: None', 'list': 'lambda a, x: (a or []) + [x]'}
    ALPHA = [(1, 2, 3), (4, 0), [1, 3, 5], 7, (), (0, 0, 0), tuple(range(9)), (5, 1, 0, 2), (2,)]

    @staticmethod
    def cases(hints, tier):
        seq = []
        for s in streams(squish.ALPHA, 2, nrandom=60):
            for f in squish.F:
                seq.append((f, s))
        return modes(seq)

    @staticmethod
    def check(case):
        import marcel.api as api
        mode, fn, rows = case
        src = squish.F[fn]
        f = eval(src) if src else FN['+']
        r = run_mode(mode, rows, lambda: api.squish(f) if src else api.squish(), f'squish ({src})' if src else 'squish')
        want = []
        for x in map(wrap, rows):
            acc = None
            try:
                for y in x:
                    acc = f(acc, y)
                want.append(('out', wrap(acc)))
            except Exception:
                want.append(('err',))
        return judge_log(r, want)
