from lib import run_mode, judge_rows, fail, exc_class


def rows_of(k):
    """k distinguishable rows: tuples, lists, bare values, empty tuple, None"""
    base = [(0,), [1], 2, (), (None,), 'x', (3, 4), [[5]], None, (0,), ('a', 'b', 'c'), [], True, 0.5]
    return [base[i] if i < len(base) else (i,) for i in range(k)]


def wrap(x):
    return x if type(x) in (tuple, list) else (x,)


def ns(hints):
    r = list(range(-14, 15))
    for h in hints:
        for d in (h, -h):
            if abs(d) < 3000 and d not in r:
                r.append(d)
    return r


class _HT:
    BOUNDS = 'n in -14..14 (given as int and as function; from Python, from the command line, and in a second run of the same operator), 0..16 inputs of mixed shape; plus n, k from counter-models'

    def __init__(self, name):
        self.name = name

    def cases(self, hints, tier):
        ks = list(range(0, 17)) + [h for h in hints if 16 < h < 3000] + [64, 129, 1000, 1025]
        for k in ks:
            for n in ns(hints) + ([50, -50, 100, -100, 128, -128, 999, -999, 1000, -1000, 1024] if k > 16 or tier == 'thorough' else []):
                yield (self.name, n, k, False)
                yield (self.name, n, k, 'again')
                if k < 6:
                    yield (self.name, n, k, 'cli')
        for n in (-3, 2, 0):
            yield (self.name, n, 5, True)

    def check(self, case):
        import marcel.api as api
        name, n, k, fn = case
        rows = rows_of(k)
        mode = fn if type(fn) is str else 'api'
        r = run_mode(mode, rows, lambda: getattr(api, name)((lambda: n) if fn is True else n), f'{name} {n}')
        if n == 0:
            if exc_class(r) != 'KillCommandException':
                return fail('n = 0 is rejected', r.brief())
            return None
        w = [wrap(x) for x in rows]
        if name == 'head':
            want = w[:n] if n > 0 else w[-n:]
        else:
            want = w[-n:] if n > 0 else w[:n]
        return judge_rows(r, want)


head = _HT('head')
tail = _HT('tail')
