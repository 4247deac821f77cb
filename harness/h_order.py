"""reverse, sort, unique, window on the real code, against list oracles."""
import lib
from lib import run_mode, judge_rows, fail, wrap, streams, modes


class reverse:
    BOUNDS = 'all streams of length <= 3 over 6 row shapes, random streams up to 40; API, command line, re-run'

    @staticmethod
    def cases(hints, tier):
        yield from modes((('reverse', s) for s in streams([0, (1, 2), [3], (), None, tuple(range(9))], 3)))

    @staticmethod
    def check(case):
        import marcel.api as api
        mode, _, rows = case
        r = run_mode(mode, rows, api.reverse, 'reverse')
        return judge_rows(r, [wrap(x) for x in rows][::-1])


class sort:
    BOUNDS = ('streams of length <= 4 over rows (0..2, tag) with and without key, up to 40 random; nearly sorted, '
              'reversed and duplicate-heavy streams; API, command line, re-run')
    KEYS = {'none': None, 'first': 'lambda *a: a[0]', 'neg': 'lambda *a: -a[0]', 'const': 'lambda *a: 0',
            'len': 'lambda *a: len(a)', 'pair': 'lambda *a: (a[-1], a[0])', 'last': 'lambda *a: a[-1]'}

    @staticmethod
    def cases(hints, tier):
        alpha = [(0, 1), (1, 0), (0, 2), (2, 1)]
        extra = [[(i,) for i in range(30)], [(i,) for i in reversed(range(30))],
                 [(i % 3, i) for i in range(50)], [(i % 3, -i) for i in range(50)],
                 [((i * 7919) % 101, i) for i in range(200)], [i for i in (3, 1, 2)], [0.5, 1, True, -1],
                 ['b', 'a', 'ab', ''],
                 [(1, 2, 3), (1, 2), (0, 5), (1, 2, 2, 2), (1,), (0, 5, 1)], [(i % 2,) + (i,) * (i % 5) for i in range(40)]]
        seq = []
        for i, s in enumerate(streams(alpha, 4 if tier != 'quick' else 3, extra)):
            for k in sort.KEYS:
                if (len(s) > 0 and not isinstance(s[0], tuple) or s and len(s[0]) == 1) and k in ('neg', 'pair', 'last'):
                    continue
                seq.append((k, s))
        yield from modes(seq)

    @staticmethod
    def check(case):
        import marcel.api as api
        mode, k, rows = case
        src = sort.KEYS[k]
        f = eval(src) if src else None
        r = run_mode(mode, rows, lambda: api.sort(f) if f else api.sort(),
                     f'sort ({src})' if src else 'sort', earlier=((7, 7), (8, 1), (9, 0)))
        w = [wrap(x) for x in rows]
        want = sorted(w, key=lambda t: f(*t)) if f else sorted(w)
        return judge_rows(r, want)


class unique:
    BOUNDS = ('streams of length <= 4 over 5 hashable rows (values that compare equal but differ included), random up '
              'to 40; with and without --consecutive; API, command line, re-run')

    @staticmethod
    def cases(hints, tier):
        seq = []
        for s in streams([1, (2, 3), (2, 3.5), 'x', (None,)], 4, [[tuple(range(9)), tuple(range(8)) + (99,), tuple(range(8)), tuple(range(8)) + (99,)], [1, 1.0, True, 1], [None, None], [(), (), 1, ()]]):
            for c in (False, True):
                seq.append((c, s))
        yield from modes(seq)

    @staticmethod
    def check(case):
        import marcel.api as api
        mode, c, rows = case
        r = run_mode(mode, rows, lambda: api.unique(consecutive=c), 'unique' + (' --consecutive' if c else ''))
        w = [wrap(x) for x in rows]
        if c:
            want = [x for i, x in enumerate(w) if i == 0 or w[i - 1] != x]
        else:
            want = [x for i, x in enumerate(w) if x not in w[:i]]
        return judge_rows(r, want)


class window:
    BOUNDS = ('overlap / disjoint sizes 1..7 (and around the stream length), streams of 0..12 rows of mixed shape plus '
              '50; predicate windows over every boolean stream of length <= 6; API, command line, re-run')

    @staticmethod
    def cases(hints, tier):
        seq = []
        for n in list(range(0, 13)) + [50]:
            for w in list(range(1, 8)) + [max(1, n - 1), max(1, n), n + 1, n + 3]:
                seq.append(('overlap', w, n))
                seq.append(('disjoint', w, n))
        for s in streams([0, 1], 6, nrandom=40):
            seq.append(('pred', None, s))
        yield from modes(seq)

    @staticmethod
    def check(case):
        import marcel.api as api
        mode, kind, w, n = case
        if kind == 'pred':
            rows = [(b, i) for i, b in enumerate(n)]
            f = lambda b, i: b
            r = run_mode(mode, rows, lambda: api.window(f), 'window (lambda b, i: b)', earlier=((1, 7), (0, 8)))
            want = []
            for i, x in enumerate(rows):
                if i == 0 or x[0]:
                    want.append([x])
                else:
                    want[-1].append(x)
            return judge_rows(r, [tuple(unw(x)) for x in want])
        base = [0, (1, 2), 3, 'four', (5, None), None, 7]
        rows = [base[i] if i < len(base) else i for i in range(n)]
        kw = {kind: w}
        r = run_mode(mode, rows, lambda: api.window(**kw), f'window --{kind} {w}')
        u = unw([wrap(x) for x in rows])
        if kind == 'overlap':
            want = [tuple((u + [None] * w)[i:i + w]) for i in range(n)]
        else:
            want = [tuple((u + [None] * w)[i:i + w]) for i in range(0, n, w)]
        return judge_rows(r, want)


def unw(rows):
    return [x[0] if len(x) == 1 else x for x in rows]
