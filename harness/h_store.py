"""store and load, in sessions of the command line and in the API, against lists of rows."""
import itertools
import random

from lib import fail, Hang
from h_ns import Session

# (command text producing rows, the rows)
SOURCES = [
    ('gen 3', [(0,), (1,), (2,)]),
    ('gen 1 | select (i: False)', []),
    ("gen 3 5 | map (i: ('abc', i))", [('abc', 5), ('abc', 6), ('abc', 7)]),
    ("gen 3 | map (i: (str(i) * 2, 'k', [str(i)]))", [('00', 'k', ['0']), ('11', 'k', ['1']), ('22', 'k', ['2'])]),
    ("gen 2 | map (i: (lambda s: (s, [s], s))('v' * 3))", [('vvv', ['vvv'], 'vvv')] * 2),
    ('gen 4 | map (i: (None, (i, (i,)), {i: i}))', [(None, (i, (i,)), {i: i}) for i in range(4)]),
    ("gen 3 | map (i: [i, 'abc'])", [[i, 'abc'] for i in range(3)]),
    ('gen 4 | map (i: [(), (0,), (None,), (False,)][i])', [(), (0,), (None,), (False,)]),
    # the same list, changed between rows
    ('gen 3 | map (i: (acc.append(i) or len(acc), acc))', None),
]
BAD = 'gen 3 5 | map (i: (i, (j for j in [1])) if i == %d else (i,))'       # the row of i cannot be stored


def step(rng):
    k = rng.random()
    v, w = rng.sample('xyz', 2)
    if k < 0.45:
        return ('store', rng.randrange(len(SOURCES)), rng.random() < 0.6, v)
    if k < 0.6:
        return ('copy', v, rng.random() < 0.5, w)
    if k < 0.75:
        return ('head', v, rng.randrange(1, 4))
    if k < 0.82:
        return ('bad', rng.randrange(5, 8), rng.random() < 0.5, v)
    if k < 0.9:
        return ('failing', v)
    return ('scalar', v)


# commands using the variable twice; (commands, then: how x, first holding 0 1 2, reads afterwards)
CONFLICTS = [
    (['x <$ >$ x'], 3), (['x <$ >>$ x'], 3), (['x <$ map (i: i) >$ x', 'gen 2 >$ x'], 2),
    (['x <$ args (| i: gen 1 >$ x |)'], 3), (['gen 2 | args (| i: x <$ |) >$ x'], 3), (['gen 2 | join (| x <$ |) >$ x'], 3),
    (['x <$ union (| x <$ |) >$ y', 'gen 1 >$ x'], 1), (['x <$ join (| x <$ |) >$ y', 'gen 1 >$ x'], 1),
    (['x <$ args (| i: x <$ |) >$ y', 'gen 1 >$ x'], 1), (['x <$ args (| i: x <$ head 1 |) >$ y', 'gen 1 >$ x'], 1),
    (['x <$ intersect (| x <$ |)', 'gen 1 >$ x'], 1), (['x <$ case (i: i > 0) (| args (| j: x <$ |) |)', 'gen 2 >>$ x'], 5),
    (['x <$ case (a: a == 0) (| args (| j: x <$ select (b: False) |) |) (| args (| j: gen 5 >$ x |) |)'], 3),
    (['x <$ map (i: 1 / 0)', 'gen 1 >$ x'], 1), (['x <$ select (i: undefined)', 'gen 1 >$ x'], 1), (['x <$ head 0', 'gen 1 >$ x'], 1),
]


class _Store:
    BOUNDS = ('sequences of up to 8 commands over 3 variables (store, append, load, copy, load in part, rows that cannot be '
              'stored, failing loads, scalars), 8 sources; 15 commands which use a variable twice; the same from the API')
    LIMIT = 30

    def cases(self, hints, tier):
        for i in range(len(CONFLICTS)):
            yield ('conflict', i)
        for i in range(len(SOURCES)):
            for j in range(len(SOURCES)):
                for m in ('cli', 'api'):
                    yield (m, (('store', i, False, 'x'), ('store', j, True, 'x')))
        rng = random.Random(7)
        for n in range(400 if tier == 'quick' else 4000):
            yield (('cli', 'cli', 'api')[n % 3], tuple(step(rng) for _ in range(rng.randrange(2, 9))))

    def check(self, case):
        if case[0] == 'conflict':
            return self.conflict(case[1])
        return self.cli(case[1]) if case[0] == 'cli' else self.api(case[1])

    def conflict(self, i):
        cmds, n = CONFLICTS[i]
        s = Session()
        s.run('gen 3 >$ x')
        for c in cmds:
            s.run(c)
        want = [(j,) for j in (range(n) if n < 5 else (0, 1, 2, 0, 1))]
        for t in range(2):
            r = s.run('x <$')
            if r.out != want or r.exc:
                return fail(f'gen 3 >$ x; {"; ".join(cmds)}; x <$ -> {want}', r.brief(), 'conflict: ' + '; '.join(cmds))
        return None

    def source(self, i, acc):
        text, rows = SOURCES[i]
        if rows is None:
            rows = []
            for j in range(3):
                acc.append(j)
                rows.append((len(acc), list(acc)))
        return text, rows

    def cli(self, steps):
        s = Session()
        model, acc, done = {}, [], []
        s.run('acc = ([])')

        def read(v):
            r = s.run(f'{v} <$')
            want = model.get(v)
            if type(want) is list:
                return None if r.out == want and not r.exc and not r.errs and r.flushes == 1 else \
                    fail(f'{"; ".join(done)}; {v} <$ -> {want}', r.brief())
            return None if r.out == [] and r.exc else fail(f'{"; ".join(done)}; {v} <$ refused', r.brief())
        for st in steps:
            if st[0] == 'store':
                text, rows = self.source(st[1], acc) if not (st[2] and type(model.get(st[3])) is int) else (SOURCES[st[1]][0], [])
                text += f' {">>" if st[2] else ">"}$ {st[3]}'
                app, v = st[2], st[3]
            elif st[0] == 'copy':
                rows = model.get(st[1])
                if type(rows) is not list:
                    rows = []
                    if not (st[2] and type(model.get(st[3])) is int):
                        continue
                text = f'{st[1]} <$ {">>" if st[2] else ">"}$ {st[3]}'
                app, v = st[2], st[3]
            elif st[0] == 'bad':
                text = BAD % st[1] + f' {">>" if st[2] else ">"}$ {st[3]}'
                rows = [(i,) for i in range(5, st[1])]
                app, v = st[2], st[3]
            elif st[0] == 'scalar':
                text, rows = f'{st[1]} = (5)', None
                model[st[1]] = 5
            elif st[0] == 'head':
                text, rows = f'{st[1]} <$ head {st[2]}', None
            else:
                text, rows = f'{st[1]} <$ map (*a: 1 / 0)', None
            r = s.run(text)
            done.append(text)
            if rows is not None:
                cur = model.get(v)
                if app and type(cur) is int:
                    if not r.exc:
                        return fail(f'{"; ".join(done)}: refused', r.brief())
                else:
                    if r.exc and st[0] != 'bad':
                        return fail(f'{"; ".join(done)}: stored', r.brief())
                    model[v] = (cur if app and cur is not None else []) + list(rows)
            elif st[0] == 'head' and type(model.get(st[1])) is list:
                if r.out != model[st[1]][:st[2]] or r.exc:
                    return fail(f'{"; ".join(done)} -> {model[st[1]][:st[2]]}', r.brief())
            for v in 'xyz':
                f = read(v)
                if f:
                    return f
        return None

    def api(self, steps):
        import marcel.api as api
        res = {v: api.reservoir(v) for v in 'xyz'}
        model, acc, done = {v: [] for v in 'xyz'}, [], []

        def rows(p):
            out = []
            for r in p:
                out.append(r)
            return [r if type(r) in (tuple, list) else (r,) for r in out]
        for st in steps:
            if st[0] == 'store':
                text, rs = self.source(st[1], acc)
                it = iter(rs)
                p = api.gen(len(rs)) | api.map(lambda i: next(it)) if rs else api.gen(-1)
                api.run(p | api.store(res[st[3]], append=st[2]))
                model[st[3]] = (model[st[3]] if st[2] else []) + list(rs)
            elif st[0] == 'copy':
                api.run(api.load(res[st[1]]) | api.store(res[st[3]], append=st[2]))
                model[st[3]] = (model[st[3]] if st[2] else []) + list(model[st[1]])
            else:
                continue
            done.append(st)
            for v in 'xyz':
                got = rows(api.load(res[v]))
                want = [r if len(r) != 1 else (r[0] if type(r[0]) in (tuple, list) else (r[0],)) for r in model[v]]
                if got != want:
                    return fail(f'{done}: {v} = {want}', got)
        for r in res.values():
            r.ensure_deleted()
        return None


store = _Store()
