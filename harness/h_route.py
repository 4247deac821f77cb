"""case, args and gen on the real code."""
import itertools
import random

from lib import run_mode, fail, wrap, streams, modes, run, run_cli, run_twice, cli_probe, parse_cli, exc_class, execute, Result, api_env, Probe, cli
from h_rows import judge_log


# pipelines: name -> (API thunk, command text, oracle class)
class Stage:
    def one(self, x):
        return [x]

    def end(self):
        return []


class M(Stage):
    def one(self, x):
        return [('m',) + tuple(x)]


class Sel(Stage):
    def one(self, x):
        return [x] if len(x) > 1 else []


class H(Stage):
    n = 0

    def one(self, x):
        self.n += 1
        return [x] if self.n <= 2 else []


class R(Stage):
    s = None

    def one(self, x):
        self.s = (self.s or 0) + len(x)
        return []

    def end(self):
        return [(self.s,)]


class T(Stage):
    def __init__(self):
        self.x = []

    def one(self, x):
        self.x.append(x)
        return []

    def end(self):
        return self.x[-2:]


class X(Stage):
    def one(self, x):
        return [(y,) if type(y) not in (tuple, list) else y for y in x]


class HM(H):
    def one(self, x):
        return [('m',) + tuple(y) for y in super().one(x)]


def pipes(api):
    return {
        'm': (lambda: api.map(lambda *a: ('m',) + a), "map (lambda *a: ('m',) + a)", M),
        's': (lambda: api.select(lambda *a: len(a) > 1), 'select (lambda *a: len(a) > 1)', Sel),
        'h': (lambda: api.head(2), 'head 2', H),
        'hm': (lambda: api.head(2) | api.map(lambda *a: ('m',) + a), "head 2 | map (lambda *a: ('m',) + a)", HM),
        'r': (lambda: api.map(lambda *a: len(a)) | api.red(lambda a, x: x if a is None else a + x),
              'map (lambda *a: len(a)) | red (lambda a, x: x if a is None else a + x)', R),
        't': (lambda: api.tail(2), 'tail 2', T),
    }


PREDS = {'pos': 'lambda *a: a[0] > 0', 'len': 'lambda *a: len(a) == 1', 'no': 'lambda *a: False', 'yes': 'lambda *a: 1',
         'inv': 'lambda *a: 6 // a[0] > 2', 'mod': 'lambda *a: a[-1] % 3', 'lst': 'lambda *a: a[1:]'}
ALPHA = [1, 2, (0, 5), (3, 1), [4, 4], 0, (-2,), (6, 0, 1), ('s',), ()]


class case:
    BOUNDS = ('40 combinations of 1 to 4 predicates and pipelines (stateless, stateful, emitting at end of stream) with and without a '
              'default, streams of length <= 2 over 10 rows, 40 random, 2 long; API, command line, re-run, killed run')

    @staticmethod
    def cases(hints, tier):
        rnd = random.Random(3)
        shapes = []
        for n in (1, 2, 3, 4):
            for _ in range(10):
                shapes.append(([(rnd.choice(list(PREDS)), rnd.choice('m s h r t hm'.split())) for _ in range(n)],
                               rnd.choice([None, 'm', 'r', 'h', 't'])))
        seq = []
        ss = list(streams(ALPHA, 2, nrandom=40))
        for i, s in enumerate(ss):
            for sh in (shapes if i > 110 else shapes[i % 4::4]):
                seq.append((sh, s))
        return modes(seq)

    @staticmethod
    def check(c):
        import marcel.api as api
        mode, (branches, default), rows = c
        P = pipes(api)
        text = 'case ' + ' '.join(f'({PREDS[p]}) (| {P[q][1]} |)' for p, q in branches) + (f' (| {P[default][1]} |)' if default else '')

        def mk():
            args = []
            for p, q in branches:
                args += [eval(PREDS[p]), P[q][0]()]
            return api.case(*args + ([P[default][0]()] if default else []))
        r = run_mode(mode, rows, mk, text)
        st = [P[q][2]() for _, q in branches] + ([P[default][2]()] if default else [])
        want = []
        for x in map(wrap, rows):
            try:
                to = len(branches) if default else None
                for i, (p, _) in enumerate(branches):
                    if eval(PREDS[p])(*x):
                        to = i
                        break
            except Exception:
                want.append(('err',))
                continue
            if to is not None:
                want += [('out', y) for y in st[to].one(x)]
        for s in st:
            want += [('out', y) for y in s.end()]
        return judge_log(r, want)


class args:
    BOUNDS = ('pipelines of 1 to 4 parameters and --all, two bodies, streams of length <= 2 over 8 rows, 40 random ones, 2 long; '
              'API, command line, re-run, killed run')
    ALPHA = [1, (2,), (1, 2), 'a', None, (), [5, 6], ((1,),)]

    @staticmethod
    def cases(hints, tier):
        seq = []
        for s in streams(args.ALPHA, 2, nrandom=40):
            for n in (0, 1, 2, 3, 4):
                for body in ('pack', 'gen'):
                    seq.append((n, body, s))
        return modes(seq)

    @staticmethod
    def check(c):
        import marcel.api as api
        mode, n, body, rows = c
        ps = ', '.join('abcd'[:max(n, 1)])
        if body == 'pack':
            api_body, cli_body = f'api.gen(1) | api.map(lambda _: [{ps}])', f'gen 1 | map (lambda _: [{ps}])'
        else:
            api_body = f'api.gen(3) | api.select(lambda i: i != 1) | api.map(lambda i: (i, str(a)))'
            cli_body = f'gen 3 | select (lambda i: i != 1) | map (lambda i: (i, str(a)))'
        f = eval(f'lambda {ps}: {api_body}', {'api': api})
        r = run_mode(mode, rows, lambda: api.args(f, all=n == 0), f'args {"--all " * (n == 0)}(| {ps}: {cli_body} |)')
        vals = [x[0] if len(x) == 1 else x for x in map(wrap, rows)]
        if n == 0:
            batches = [[vals]] if vals else []
        else:
            batches = [vals[i:i + n] for i in range(0, len(vals), n)]
            if batches:
                batches[-1] += [None] * (n - len(batches[-1]))
        want = []
        for b in batches:
            want += [('out', b)] if body == 'pack' else [('out', (i, str(b[0]))) for i in (0, 2)]
        return judge_log(r, want)


class gen:
    BOUNDS = 'counts -2..12 and 1000, starts -3..11 and large, no padding or padding 1..6; API and command line; gen 0 read up to 500 rows; run twice'

    @staticmethod
    def cases(hints, tier):
        for count in list(range(-2, 13)) + [1000]:
            for start in list(range(-3, 12)) + [95, 10 ** 20]:
                for pad in (None, 1, 2, 3, 6):
                    for mode in ('api', 'cli', 'again'):
                        if mode == 'api' or (count + start) % 3 == 0 and (mode != 'cli' or count >= 0 and start >= 0):
                            yield mode, count, start, pad

    @staticmethod
    def check(c):
        import marcel.api as api
        import marcel.exception
        import marcel.pipeline
        mode, count, start, pad = c
        if count == 0 and pad is None:
            # unbounded: read a part of it
            log = []

            class Stop(Probe):
                def receive(self, env, x):
                    if len(log) == 500:
                        raise marcel.exception.KillCommandException('enough')
                    super().receive(env, x)
            ops = parse_cli(f'gen 0 {start}').executable.ops if mode == 'cli' else [api.gen(0, start).op]
            pe = marcel.pipeline.PipelineExecutable()
            for op in ops:
                pe.append(op)
            pe.append(Stop(log))
            r = Result(log, execute(pe, api_env()))
            if r.log != [('out', (x,)) for x in range(start, start + 500)] or exc_class(r) != 'KillCommandException':
                return fail('500 rows', r.brief())
            return None
        if mode == 'cli':
            r = cli_probe(f'gen {f"-p {pad}" if pad else ""} {count} {start}')
        else:
            log = []
            op = api.gen(count, start, pad)
            pe = marcel.pipeline.PipelineExecutable()
            pe.append(op.op)
            pe.append(Probe(log))
            if mode == 'again':
                execute(pe, api_env())
                del log[:]
            r = Result(log, execute(pe, api_env()))
        if pad is not None and (count == 0 or start < 0 or len(str(start + count - 1)) > pad):
            if exc_class(r) != 'KillCommandException' or r.log:
                return fail('KillCommandException', r.brief())
            return None
        rows = range(start, start + count)
        return judge_log(r, [('out', (x if pad is None else str(x).rjust(pad, '0'),)) for x in rows])
