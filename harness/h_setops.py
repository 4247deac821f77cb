"""difference, intersect, union, filter and join on the real code, against multiset oracles."""
import itertools
import random
from collections import Counter

from lib import run_mode, fail, wrap, modes, exc_class, freeze

ROWS = [(1,), 2, (1, 2), ('a', 1), (2,), None, (), (1, 2, 3), ((1, 2),), (3, 1), 'a', (2, 5), 1.5]
JROWS = [(1,), 2, (1, 2), ('a', 1), (2,), None, (1, 2, 3), (3, 1), 'a', (2, 5), (2, 6, 7), (1, 9), (3,), ((1, 2), 4)]
BAD = ([1, 2], ([1],), ({},))


def api_rows(rows):
    import marcel.api as api
    n = len(rows)
    return api.gen(n + 1) | api.select(lambda i: i < n) | api.map(lambda i: rows[i])


def cli_rows(rows):
    n = len(rows)
    return f'(| gen {n + 1} | select (lambda i: i < {n}) | map (lambda i: {rows!r}[i]) |)'


def pairs(alpha, rights, small, nrandom, bad=()):
    """(stream, one list per pipeline)"""
    few = alpha[:small]
    short = [list(t) for n in range(3) for t in itertools.product(few, repeat=n)]
    for s in short:
        for r in short[:1 + len(few) + 4]:
            yield s, [r] * rights[0] if rights[0] < 2 else [r] + [s + r] * (rights[0] - 1)
    rnd = random.Random(7)
    for j in range(nrandom):
        k = rnd.choice(rights)
        m = rnd.choice([3, 5, len(alpha)])
        one = lambda n: [rnd.choice(alpha[:m]) for _ in range(rnd.randint(0, n))]
        s, rs = one(25), [one(18) for _ in range(k)]
        if j % 9 == 4 and bad and s:
            s.insert(rnd.randrange(len(s)), rnd.choice(bad))
        yield s, rs
    yield [alpha[i * i % len(alpha)] for i in range(600)], [[alpha[i % 3] for i in range(130)]] * rights[0]
    yield [alpha[0]] * (1300 if alpha is ROWS else 30), [[alpha[0]] * 1200] * rights[0]


class Killed(Exception):
    pass


def hashed(x):
    try:
        hash(x)
    except TypeError:
        raise Killed()
    return x


def judge(r, gen):
    """gen yields log entries and may raise Killed"""
    want, killed = [], False
    try:
        for e in gen:
            want.append(e)
    except Killed:
        killed = True
    got = [e if e[0] == 'out' else (e[0],) for e in r.log]
    if killed:
        if got != want or repr(got) != repr(want) or exc_class(r) != 'KillCommandException':
            return fail((want, 'killed'), (got, r.exc))
        return None
    want.append(('flush',))
    if got != want or r.exc is not None or repr(got) != repr(want):
        return fail(want, (got, r.exc))
    return None


class SetOp:
    alpha, rights, bad, extra = ROWS, (1,), BAD, ((),)

    @property
    def BOUNDS(self):
        return (f'{self.name}: every stream of length <= 2 over 3 rows with every right side of length <= 1 (some of 2), 150 random '
                f'streams up to 25 rows with {self.rights} pipelines up to 18 rows over {len(self.alpha)} rows, unhashable rows, '
                'two long ones (1,200 equal rows); API, command line, re-run, killed run')

    def cases(self, hints, tier):
        return modes([(f, s, rs) for s, rs in pairs(self.alpha, self.rights, 3, 150 if tier == 'quick' else 900, self.bad)
                      for f in self.extra])

    def check(self, case):
        import marcel.api as api
        mode, flags, rows, rs = case
        text = ' '.join([self.name] + [self.text(f) for f in flags] + [cli_rows(r) for r in rs])
        r = run_mode(mode, rows, lambda: self.make(api, flags, [api_rows(r) for r in rs]), text,
                     earlier=[('a', 1), 2, 2, (1,), (3, 1)])
        return judge(r, self.oracle(flags, [wrap(x) for x in rows], [[wrap(x) for x in r] for r in rs]))

    @staticmethod
    def text(f):
        return f


class Difference(SetOp):
    name = 'difference'

    def make(self, api, flags, rs):
        return api.difference(*rs)

    def oracle(self, flags, rows, rs):
        right = Counter(rs[0])
        for x in rows:
            if right[hashed(x)] > 0:
                right[x] -= 1
            else:
                yield 'out', x


class Intersect(SetOp):
    name, rights = 'intersect', (1, 1, 2, 3)

    def make(self, api, flags, rs):
        return api.intersect(*rs)

    def oracle(self, flags, rows, rs):
        common = Counter(rs[0])
        for r in rs[1:]:
            common &= Counter(r)
        for x in rows:
            if common[hashed(x)] > 0:
                common[x] -= 1
                yield 'out', x


class Union(SetOp):
    name, rights, bad = 'union', (1, 1, 2, 3), ()

    def make(self, api, flags, rs):
        return api.union(*rs)

    def oracle(self, flags, rows, rs):
        for r in [rows] + rs:
            for x in r:
                yield 'out', x


CMP = {'first': (lambda *a: a[0], 'lambda *a: a[0]'), 'pair': (lambda *a: a[:2], 'lambda *a: a[:2]'),
       'div': (lambda *a: 6 // (a[0] - 1), 'lambda *a: 6 // (a[0] - 1)')}


class Filter(SetOp):
    name = 'filter'
    extra = ((), ('-k',), ('-d',), ('-c first',), ('-d', '-c first'), ('-k', '-c pair'), ('-c div',), ('-d', '-c div'))

    @staticmethod
    def text(f):
        return f'-c ({CMP[f[3:]][1]})' if f.startswith('-c') else f

    def make(self, api, flags, rs):
        c = [CMP[f[3:]][0] for f in flags if f.startswith('-c')]
        return api.filt(rs[0], compare=c[0] if c else None, keep='-k' in flags, discard='-d' in flags)

    def oracle(self, flags, rows, rs):
        right = set(rs[0])
        c = [CMP[f[3:]][0] for f in flags if f.startswith('-c')]
        for x in rows:
            try:
                y = c[0](*x) if c else tuple(x)
                y = None if y is None else wrap(y)     # the key None equals no row
            except Exception:
                yield 'err',
                continue
            if (hashed(y) in right) != ('-d' in flags):
                yield 'out', x


class Join(SetOp):
    name, alpha, extra = 'join', JROWS, ((), ('-k',))
    bad = (([1],), ([1], 2))

    def make(self, api, flags, rs):
        return api.join(rs[0], keep='-k' in flags)

    def oracle(self, flags, rows, rs):
        for x in rows:
            hashed(x[0])
            m = [r for r in rs[0] if r[0] == x[0]]
            for r in m:
                yield 'out', tuple(x) + r[1:]
            if not m and '-k' in flags:
                yield 'out', tuple(x)


difference, intersect, union, filt, join = Difference(), Intersect(), Union(), Filter(), Join()
