"""Functions run by CPython and by pyvc on the same arguments (pyvc/selftest.py)."""


class Base:
    count = 0

    def __init__(self, x=1, *, y=2):
        self.x = x
        self.y = y

    def who(self):
        return 'base'

    def both(self):
        return (self.who(), self.x, self.y)

    @staticmethod
    def twice(n):
        return n + n

    @property
    def total(self):
        return self.x + self.y


class Derived(Base):
    def __init__(self, x):
        super().__init__(x, y=5)
        self.z = None

    def who(self):
        return 'derived'

    def both(self):
        return super().both() + (Base.twice(self.x),)


class Fault(Exception):
    def __init__(self, n):
        super().__init__(n)
        self.n = n


def arith(a, b):
    return a + b * 2 - (a - 1), -a, a // 3, a % 3, a == b, a < b <= 10, abs(a), min(a, b), max(a, b)


def divide(a, b):
    return a // b if b > 0 else None, a % b if b > 0 else None


def logic(a, b):
    return (a or b), (a and b), not a, a if b else 0, a is None


def loops(n):
    out = []
    for i in range(n):
        if i == 2:
            continue
        if i == 5:
            break
        out.append(i)
    else:
        out.append(-1)
    k = 0
    while k < n:
        k += 2
    else:
        out.append(k)
    return out


def index(xs, i):
    return xs[i]


def slices(xs, i, j):
    return xs[i:j], xs[:j], xs[i:], xs[-2:], xs[:-1], xs[:]


def step(xs):
    return xs[::-1]


def mutate(xs, i):
    ys = list(xs)
    ys.append(i)
    ys.insert(0, 9)
    last = ys.pop()
    ys[0] = 7
    ys.extend([1, 2])
    ys += [3]
    return ys, last, len(ys)


def swap(xs):
    ys = list(xs)
    ys[-2:] = [ys[-1], ys[-2]]
    return ys


def pops(xs):
    ys = list(xs)
    a = ys.pop(0)
    b = ys.pop()
    return a, b, ys


def clear(xs):
    ys = list(xs)
    zs = ys
    ys.clear()
    ys.append(4)
    return zs


def alias(xs):
    ys = xs
    ys = ys + [1]
    zs = xs
    zs.append(2)
    return xs, ys, zs


def membership(xs, v):
    return v in xs, v not in xs


def summing(xs):
    t = 0
    for x in xs:
        t += x
    return t


def enum(xs):
    out = []
    for i, x in enumerate(xs):
        out.append((i, x))
    return out


def zipped(xs, ys):
    return [(a, b) for a, b in zip(xs, ys)]


def comp(xs):
    return [x + 1 for x in xs if x > 0]


def rev(xs):
    ys = list(xs)
    ys.reverse()
    return ys, list(reversed(xs))


def quantify(xs):
    return any(x > 1 for x in xs), all(x > 1 for x in xs)


def unpack(xs):
    a, *rest = xs
    return a, list(rest)


def tuples(a, b):
    t = (a, b)
    t += (3,)
    (x, y, z) = t
    return t, x, y, z, len(t), t[1:], t == (a, b, 3), t + t


def dicts(a, b):
    d = {a: 1}
    d[b] = 2
    had = a in d
    got = d.get(a, None), d.get('none', 0)
    gone = d.pop(b)
    d.setdefault('k', []).append(a)
    return had, got, gone, len(d), [k for k in d], d['k']


def missing(a, b):
    d = {a: 1}
    return d[b]


def merged(a, b):
    d = {a: 1, 'x': 2}
    d.update({b: 5})
    out = []
    for k, v in d.items():
        out.append((k, v))
    return out


def deleted(a, b):
    d = {a: 1, b: 2}
    del d[a]
    return list(d.keys())


def sets(a, b):
    s = {a}
    s.add(b)
    n = len(s)
    s.discard(a)
    return a in s, b in s, n, {1, 2} - {2} == {1}


def closure(a):
    n = a

    def inc(k):
        nonlocal n
        n += k
        return n
    inc(1)
    f = lambda x, y=2: x + y + n
    return f(1), f(1, 5), inc(0)


def defaults(a, b=4, *rest, k=6, **kw):
    return a, b, rest, k, sorted(kw)


def calls(a):
    args = [a, 2]
    return defaults(a), defaults(*args), defaults(a, b=3, k=1), defaults(1, 2, 3, 4, q=5), defaults(**{'a': a})


def raising(a):
    log = []
    try:
        log.append(1)
        if a > 1:
            raise Fault(a)
        elif a == 1:
            raise KeyError('x')
        log.append(2)
    except Fault as e:
        log.append(e.n)
    except (KeyError, ValueError):
        log.append('key')
    else:
        log.append('else')
    finally:
        log.append('finally')
    return log


def early(a):
    log = []
    for i in range(3):
        try:
            if i == a:
                return i, log
            log.append(i)
        finally:
            log.append('f')
    return log


def cleanup(a):
    log = []
    try:
        try:
            raise Fault(a)
        finally:
            log.append('inner')
    except Exception as e:
        log.append(type(e) is Fault)
    return log


def reraise(a):
    try:
        raise Fault(a)
    except Fault as e:
        if e.n > 1:
            raise
        return e.n


def asserting(a):
    assert a > 1, 'small'
    return a


def nothing(a):
    return a.x


def call_none(a):
    f = None
    return f(a)


def objects(a):
    b, d = Base(a), Derived(a)
    d.z = a
    b.count += 1
    return (b.both(), d.both(), Base.count, b.count, d.count, isinstance(d, Base), isinstance(b, Derived),
            type(d) is Derived, d.total, d.z, hasattr(d, 'z'), hasattr(b, 'z'), getattr(b, 'q', 3))


def none(a, b):
    return None == a, a is None, b is not None, [] == [], () == (), [1] == [1, 2], None or b


def strings(a):
    return 'abc'.startswith('ab'), 'a' + 'b', a in ('p', 'q'), 'x' == a, len('abc'), 'abc'[1]


def walrus(xs):
    if (n := len(xs)) > 1:
        return n
    return -n


def nested(xs):
    out = []
    for x in xs:
        for y in xs:
            if x < y:
                out.append((x, y))
    return out


def moving(xs, n):
    """a ring buffer"""
    buf, k = [None] * n, 0
    for x in xs:
        buf[k] = x
        k = (k + 1) % n
    return buf, k


def truth(xs, a):
    return bool(xs), bool(a), (1 if xs else 2), (not xs)


def chained(a):
    x = y = a
    x += 1
    return x, y


def count(xs):
    d = {}
    for x in xs:
        if x in d:
            d[x] += 1
        else:
            d[x] = 1
    return [(k, d[k]) for k in d]


def maxmin(xs):
    m = None
    for x in xs:
        if m is None or x > m:
            m = x
    return m


def gen(xs):
    def g():
        for x in xs:
            yield x + 1
    return list(g())


def iterating(xs):
    it = iter(xs)
    out = [next(it)]
    try:
        while True:
            out.append(next(it))
    except StopIteration:
        out.append('end')
    return out
