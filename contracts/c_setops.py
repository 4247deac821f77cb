"""difference, intersect, union, filter, join: contracts over an arbitrary input stream and arbitrary pipeline arguments.

A pipeline argument is represented by what it delivers: rin(p, 0), ..., rin(p, NR(p) - 1) are the rows that pipeline p
passes, each time it is run, to the op appended to it, followed by end of stream (contract of the pipeline protocol;
the deciding code, from receive_input of the appended op on, is the real code)."""
from .common import *

rin = z3.Function('rin', I, I, V)       # the j-th row delivered by the p-th pipeline
NR = z3.Function('n_right', I, I)       # number of rows it delivers
X = z3.Const('xg', V)
JA = z3.Int('ja')


def rt(p, j):
    """the tuple of the components of a row"""
    return v_tup(v_arr(rin(p, j)), vlen(rin(p, j)))


class Pipe(NObj):
    def __init__(self, E, p, ops=()):
        m = E.get_module('marcel.pipeline')
        super().__init__(f'pipeline {p}', {
            'append_immutable': lambda E, a, k: Pipe(E, p, tuple(ops) + (a[0],)),
            'route_output': lambda E, a, k: self.route(E, a[0]),
            'setup': lambda E, a, k: None,
            'cleanup': lambda E, a, k: None,
            'parameters': lambda E, a, k: (),
            'run_pipeline': lambda E, a, k: self.run(E, a[0]),
        }, {'type': E.module_attr(m, 'PipelineMarcel')})
        self.p = p
        self.ops = tuple(ops)
        self.out = None

    def route(self, E, receiver):
        if self.ops:
            E.set_field(self.ops[-1], 'receiver', receiver)
        else:
            raise Unsupported('output of a pipeline routed')

    def run(self, E, env):
        if not self.ops:
            raise Unsupported('a pipeline argument is run without anything to receive its rows')
        for a, b in zip(self.ops, self.ops[1:]):
            E.set_field(a, 'receiver', b)
        for o in self.ops:
            call_method(E, o, 'setup', env)
        p = self.p

        def body(it):
            E.rcur = it
            call_method(E, self.ops[0], 'receive_input', env, rin(p, it))
            E.rcur = None
        E.pcur = p
        E.rcur = None
        E.cut_loop('pipeline', lambda it: E.branch(it < NR(p)), body, it_name='r')
        E.pcur = None
        call_method(E, self.ops[0], 'flush', env)
        for o in self.ops:
            call_method(E, o, 'cleanup')


def create_op(E, a, k):
    """marcel.opmodule.create_op(env, 'map', f): a Map op with function f"""
    if a[1] != 'map' or len(a) != 3:
        raise Unsupported(f'create_op({a[1]})')
    f = a[2]
    fn = NObj('function', {'__call__': lambda E, b, k: E.call(f, b, k), 'snippet': lambda E, b, k: 'snippet'})
    fn.target = f
    return new_op(E, 'marcel.op.map', 'Map', function=fn)


CONTRACTS = {'marcel.opmodule.create_op': create_op}


def right_facts(E, pipes):
    for p in pipes:
        E.assume(NR(p) >= 0)
        E.assume(z3.ForAll([J], z3.And(is_row(rin(p, J)), vlen(rin(p, J)) >= 0), patterns=[rin(p, J)]))
        # rows have to be hashable
        E.assume(z3.ForAll([J], z3.And(hashable(rt(p, J)), ty(rt(p, J)) == TAGS['tuple']), patterns=[rt(p, J)]))


def setup_op(E, op):
    """Op.setup and then customize_pipelines, as PipelineExecutable.setup does"""
    w = E.world
    E.gset('loader', None)
    call_method(E, op, 'setup', w.env)
    call_method(E, op, 'customize_pipelines', w.env)


def cntR(E, p):
    return RecFnN(E, f'cntR{p}', [V], I, lambda x: z3.IntVal(0), lambda x, j, f: f + z3.If(rt(p, j) == x, 1, 0))


def cntI(E):
    return RecFnN(E, 'cntI', [V], I, lambda x: z3.IntVal(0), lambda x, j, f: f + z3.If(inp(j) == x, 1, 0))


def run_stream(E, w, op, what, bad=lambda i: z3.Not(hashable(inp(i)))):
    """feed op; None if it was stopped by KillCommandException, which only an unhashable input may cause"""
    E.stuck = None
    box = []

    def go():
        def body(it):
            E.stuck = it
            E.kcur = it
            call_method(E, op, 'receive_input', w.env, inp(it))
            E.stuck = None
            E.kcur = None
        E.kcur = None
        box.append(E.cut_loop('stream', lambda it: E.choose(2) == 0, body, it_name='k'))
    r = expect_kill(E, go)
    if r != 'ok':
        E.check(z3.BoolVal(r == 'KillCommandException'), f'{what} fails only by killing the command ({r})')
        E.check(bad(E.stuck), f'{what} fails only on an input that is not hashable')
        E.cover('killed')
        return None
    return box[0]


# --- difference

class Diff:
    def __init__(self):
        self.name = 'difference'

    def left(self, E, x, k):
        """copies of x on the right not yet matched, after k inputs"""
        return E.cR(x, NR(0)) - E.cI(x, k)

    def sel(self, E, i):
        return E.cI(inp(i), i) >= E.cR(inp(i), NR(0))

    def spec(self, E, w, k):
        F = E.F
        return [('len', w.n_out() == F(k)),
                ('at', forall_in(k, lambda j: z3.Implies(self.sel(E, j), z3.And(
                    F(j) >= 0, F(j) < w.n_out(), w.out_at(F(j)) == inp(j)))))]

    def dict_is(self, c, count):
        """the dict maps every x with count(x) > 0 to count(x)"""
        val = z3.Select(c.val, X)
        return [('dom', z3.ForAll([X], z3.Select(c.dom, X) == (count(X) > 0), patterns=[z3.Select(c.dom, X), count(X)])),
                ('val', z3.ForAll([X], z3.Implies(z3.Select(c.dom, X), val == v_int(count(X))),
                                  patterns=[val, count(X)]))]

    def cands(self, E, ctx):
        w = E.world
        out = []
        it = ctx.it
        if ctx.where == 'pipeline':
            E.cR.unroll(it)
            out.append(('r<=n', it <= NR(E.pcur)))
            out.append(('counts', z3.ForAll([X], E.cR(X, it) >= 0, patterns=[E.cR(X, it)])))
            for loc, e, c in ctx.dicts():
                c = E.dict_sym(c) if c.conc is not None else c
                out += [(f'{E.locname(loc)} {a}', f) for a, f in self.dict_is(c, lambda x: E.cR(x, it))]
            return out
        if ctx.where != 'stream':
            return []
        E.F.unroll(it)
        E.cI.unroll(it)
        out += [('out.' + a, f) for a, f in self.spec(E, w, it)]
        for loc, e, c in ctx.dicts():
            c = E.dict_sym(c) if c.conc is not None else c
            L = lambda x: self.left(E, x, it)
            val = z3.Select(c.val, X)
            pats = lambda f: z3.ForAll([X], f, patterns=[z3.Select(c.dom, X), E.cI(X, it)])
            out += [(f'{E.locname(loc)} left dom', z3.Implies(it > 0, pats(z3.Select(c.dom, X) == (L(X) > 0)))),
                    (f'{E.locname(loc)} left val', z3.Implies(it > 0, z3.ForAll(
                        [X], z3.Implies(z3.Select(c.dom, X), val == v_int(L(X))), patterns=[val, E.cI(X, it)])))]
            # exhausted rows may be kept, as zero
            L0 = lambda x: z3.If(L(x) > 0, L(x), z3.IntVal(0))
            out += [(f'{E.locname(loc)} left or zero dom', z3.Implies(it > 0, pats(z3.Implies(L(X) > 0, z3.Select(c.dom, X))))),
                    (f'{E.locname(loc)} left or zero val', z3.Implies(it > 0, z3.ForAll(
                        [X], z3.Implies(z3.Select(c.dom, X), val == v_int(L0(X))), patterns=[val, E.cI(X, it)])))]
            out.append((f'{E.locname(loc)} empty at first', z3.Implies(it == 0, z3.And(c.n == 0, z3.ForAll(
                [X], z3.Not(z3.Select(c.dom, X)), patterns=[z3.Select(c.dom, X)])))))
        for loc, e, c in ctx.bools():
            out.append((f'{E.locname(loc)} == first', zb(c) == (it == 0)))
        return out

    def ghosts(self, E):
        E.cR, E.cI = cntR(E, 0), cntI(E)
        E.cR.unroll(0)
        E.cI.unroll(0)
        E.F = RecFn(E, 'nsel', I, z3.IntVal(0), lambda i, f: f + z3.If(self.sel(E, i), 1, 0))
        E.assume(z3.ForAll([J], z3.And(i_val(v_int(J)) == J, ty(v_int(J)) == TAGS['int']), patterns=[v_int(J)]))

    def drv(self, E):
        w = E.world = World(E)
        self.ghosts(E)
        right_facts(E, [0])
        op = new_op(E, 'marcel.op.difference', 'Difference', pipeline=Pipe(E, 0))
        E.earlier_candidates = no_candidates
        earlier_session(E, w, op, setup_op)
        E.set_field(op, 'receiver', w.sink)
        setup_op(E, op)
        k = run_stream(E, w, op, 'difference')
        if k is None:
            return
        E.F.unroll(k)
        call_method(E, op, 'flush', w.env)
        E.check(w.n_out() == E.F(k), 'difference outputs each unmatched row once')
        E.check(self.spec(E, w, k)[1][1], 'difference outputs unmatched rows, in order')
        E.check(w.flushes() == 1, 'difference passes end of stream on exactly once')
        E.cover('end')


# --- intersect: any number of pipelines

pipe = z3.Function('pipe', I, V)
NP = z3.Int('n_pipelines')
mk = z3.Function('mk', V, B)             # true of everything: guides instantiation


def pipes_init(E):
    """the pipelines of an op that has any number of them, as opaque values"""
    def append_immutable(E, v):
        def f(E, a, k):
            # every pipeline gets an op of its own, but all of these apply the same function
            f = a[0].fields['function'].target
            old = E.ghosts.get('loader')
            if old is not None and old is not f:
                raise Unsupported('pipelines extended by different functions')
            E.gset('loader', f)
            return v
        return Native('append_immutable', f)

    def run_pipeline(E, v):
        def f(E, a, k):
            f, p = E.ghosts.get('loader'), z3.simplify(i_val(v))
            if f is None:
                raise Unsupported('a pipeline argument is run without anything to receive its rows')
            if not isinstance(f, FuncVal):
                raise Unsupported('the function applied to the rows of a pipeline')
            m = create_op(E, [a[0], 'map', f], {})
            call_method(E, m, 'setup', a[0])

            def body(it):
                call_method(E, m, 'receive_input', a[0], rin(p, it))
            E.pcur = p
            E.cut_loop('pipeline', lambda it: E.branch(it < NR(p)), body, it_name='r')
            E.pcur = None
            call_method(E, m, 'flush', a[0])
            call_method(E, m, 'cleanup')
        return Native('run_pipeline', f)
    E.vmethods['append_immutable'] = append_immutable
    E.vmethods['run_pipeline'] = run_pipeline
    E.vmethods['setup'] = lambda E, v: Native('setup', lambda E, a, k: None)
    E.vmethods['route_output'] = lambda E, v: Native('route_output', lambda E, a, k: None)
    E.pcur = None


class Inter:
    def __init__(self, again):
        self.again = again

    def sel(self, E, i):
        return E.cI(inp(i), i) < E.MC(inp(i), NP)

    def left(self, E, x, k):
        d = E.MC(x, NP) - E.cI(x, k)
        return z3.If(d > 0, d, 0)

    spec = lambda self, E, w, k: Diff.spec(self, E, w, k)

    def dict_is(self, c, count):
        """the dict maps x to count(x), and has every x with count(x) > 0"""
        val = z3.Select(c.val, X)
        return [('dom', z3.ForAll([X], z3.Implies(count(X) > 0, z3.Select(c.dom, X)), patterns=[z3.Select(c.dom, X), count(X)])),
                ('val', z3.ForAll([X], z3.Implies(z3.Select(c.dom, X), val == v_int(count(X))),
                                  patterns=[val, count(X)]))]

    def cands(self, E, ctx):
        w = E.world
        out = []
        it = ctx.it
        dicts = [(E.locname(loc), E.dict_sym(c) if c.conc is not None else c) for loc, e, c in ctx.dicts()]
        if ctx.where == 'pipeline':
            p = E.pcur
            E.cnt.unroll(it)
            out.append(('r<=n', it <= NR(p)))
            out.append(('counts', z3.ForAll([X], E.cnt(p, X, it) >= 0, patterns=[E.cnt(p, X, it)])))
            for nm, c in dicts:
                val = z3.Select(c.val, X)
                out += [(f'{nm} input {a}', f) for a, f in self.dict_is(c, lambda x: E.cnt(p, x, it))]
                out.append((f'{nm} input exact', z3.ForAll([X], z3.Implies(z3.Select(c.dom, X), E.cnt(p, X, it) > 0),
                                                           patterns=[z3.Select(c.dom, X)])))
            return out
        if ctx.where == 'stream':
            E.F.unroll(it)
            E.cI.unroll(it)
            out += [('out.' + a, f) for a, f in self.spec(E, w, it)]
            out.append(('counts', z3.ForAll([X], E.MC(X, NP) >= 0, patterns=[E.MC(X, NP)])))
            for nm, c in dicts:
                out += [(f'{nm} left {a}', f) for a, f in self.dict_is(c, lambda x: self.left(E, x, it))]
            return out
        if ctx.where.startswith('marcel.op.') and not dicts:
            # a list of the pipelines, or of what they were extended to
            for loc, e, c in ctx.seqs():
                c = E.sym(c)
                a = z3.Select(c.arr, J)
                out.append((f'{E.locname(loc)} pipelines', z3.ForAll(
                    [J], z3.Implies(z3.And(J >= 0, J < c.n), a == pipe(J)), patterns=[a])))
        if not ctx.where.endswith('Intersect.ensure_args_consumed'):
            return out
        if ctx.key not in E.keys:
            E.keys.append(ctx.key)
        if ctx.key != E.keys[0]:
            return self.merge(E, ctx)
        E.MC.unroll(it)
        for nm, c in dicts:
            # after pipelines 0, ..., it - 1
            out += [(f'{nm} min {a}', z3.Implies(it > 0, f)) for a, f in self.dict_is(c, lambda x: E.MC(x, it))]
            val = z3.Select(c.val, X)
            out.append((f'{nm} min exact', z3.Implies(it > 0, z3.ForAll(
                [X], z3.Implies(z3.Select(c.dom, X), E.MC(X, it) > 0), patterns=[z3.Select(c.dom, X)]))))
        return out

    def merge(self, E, ctx):
        """the loops which combine the common rows with those of one more pipeline: mark what is missing, delete it"""
        it, out = ctx.it, []
        op = E.op
        inp_ = E.dict_sym(op.fields['input'])
        more = lambda x: z3.If(z3.Select(inp_.dom, x), i_val(z3.Select(inp_.val, x)), z3.IntVal(0))
        ds = [d for d in ctx.dicts() if d[1] is not None]
        if ds:
            e, c = [E.dict_sym(d) for d in ds[0][1:]]
        elif isinstance(op.fields['common'], DObj):
            e = c = E.dict_sym(op.fields['common'])
        else:
            return []
        src = E.loop_src[-1] if E.loop_src else None
        if src is not None and (E.merge1 is None or ctx.key == E.merge1):
            e = src
        if E.merge1 is None:
            E.merge1 = ctx.key
            E.karr = e.karr
            E.pos = z3.Function(f'pos_{e.karr}', V, I)
            E.DN = RecFn(E, 'ndel', I, z3.IntVal(0), lambda i, f: f + z3.If(more(z3.Select(E.karr, i)) == 0, 1, 0))
            E.assume(z3.ForAll([X], mk(X), patterns=[mk(X)]))
        pos, DN = E.pos, E.DN
        DN.unroll(it)
        if ctx.key == E.merge1:
            for loc, d0, d in ctx.dicts():
                # what is common, built anew
                d = E.dict_sym(d)
                v, old = z3.Select(d.val, X), i_val(z3.Select(e.val, X))
                out.append((f'{E.locname(loc)} built', z3.ForAll([X], z3.Select(d.dom, X) == z3.And(
                    z3.Select(e.dom, X), pos(X) < it, more(X) > 0), patterns=[z3.Select(d.dom, X)])))
                out.append((f'{E.locname(loc)} built of', z3.ForAll([X], z3.Implies(z3.Select(d.dom, X), v == v_int(
                    z3.If(more(X) < old, more(X), old))), patterns=[v])))
            val = z3.Select(c.val, X)
            low = z3.And(pos(X) < it, more(X) > 0, more(X) < i_val(z3.Select(e.val, X)))
            out.append(('merged', z3.ForAll([X], z3.Implies(z3.Select(e.dom, X), val == z3.If(
                low, v_int(more(X)), z3.Select(e.val, X))), patterns=[val])))
            for loc, e_, s in ctx.seqs():
                s = E.sym(s)
                out.append((f'{E.locname(loc)} n', s.n == DN(it)))
                out.append((f'{E.locname(loc)} all', z3.ForAll([X], z3.Implies(
                    z3.And(mk(X), z3.Select(e.dom, X), pos(X) < it, more(X) == 0),
                    z3.And(DN(pos(X)) >= 0, DN(pos(X)) < s.n, z3.Select(s.arr, DN(pos(X))) == X)), patterns=[mk(X)])))
                d = z3.Select(s.arr, J)
                out.append((f'{E.locname(loc)} only', z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < s.n), z3.And(
                    z3.Select(e.dom, d), pos(d) >= 0, pos(d) < it, more(d) == 0, DN(pos(d)) == J)), patterns=[d])))
        else:
            out.append(('deleted', z3.ForAll([X], z3.Select(c.dom, X) == z3.And(
                z3.Select(e.dom, X), z3.Not(z3.And(mk(X), more(X) == 0, DN(pos(X)) < it))), patterns=[z3.Select(c.dom, X), z3.Select(e.dom, X)])))
        return out

    def ghosts(self, E):
        E.merge1, E.keys = None, []
        E.cnt = RecFnN(E, 'cnt', [I, V], I, lambda p, x: z3.IntVal(0), lambda p, x, j, f: f + z3.If(rt(p, j) == x, 1, 0))
        E.cI = cntI(E)
        mn = lambda a, b: z3.If(a < b, a, b)
        E.MC = RecFnN(E, 'mincount', [V], I, lambda x: E.cnt(z3.IntVal(0), x, NR(0)),
                      lambda x, p, f: mn(f, E.cnt(p, x, NR(p))))
        for f in (E.cnt, E.cI, E.MC):
            f.unroll(0)
        E.F = RecFn(E, 'nsel', I, z3.IntVal(0), lambda i, f: f + z3.If(self.sel(E, i), 1, 0))
        E.assume(z3.ForAll([J], z3.And(i_val(v_int(J)) == J, ty(v_int(J)) == TAGS['int']), patterns=[v_int(J)]))
        E.assume(NP >= 1)
        E.assume(z3.ForAll([J], NR(J) >= 0, patterns=[NR(J)]))
        P_ = z3.Int('pp')
        E.assume(z3.ForAll([P_, J], z3.And(is_row(rin(P_, J)), vlen(rin(P_, J)) >= 0), patterns=[rin(P_, J)]))
        E.assume(z3.ForAll([P_, J], z3.And(hashable(rt(P_, J)), ty(rt(P_, J)) == TAGS['tuple']), patterns=[rt(P_, J)]))
        E.assume(z3.ForAll([J], z3.And(i_val(pipe(J)) == J, ty(pipe(J)) == tag_of('marcel.pipeline.Pipeline')),
                           patterns=[pipe(J)]))

    def pipelines(self, E):
        ps = E.new_list(seq=Seq(arr=E.fresh('pipelines', AIV), n=NP))
        E.assume(z3.ForAll([J], z3.Select(ps.seq.arr, J) == pipe(J), patterns=[z3.Select(ps.seq.arr, J)]))
        return ps

    def drv(self, E):
        w = E.world = World(E)
        self.ghosts(E)
        E.gset('loader', None)
        op = E.op = new_op(E, 'marcel.op.intersect', 'Intersect', pipelines=self.pipelines(E))
        if self.again:
            arbitrary_state(E, op)
        E.set_field(op, 'receiver', w.sink)
        setup_op(E, op)
        k = run_stream(E, w, op, 'intersect')
        if k is None:
            return
        E.F.unroll(k)
        call_method(E, op, 'flush', w.env)
        E.check(w.n_out() == E.F(k), 'intersect outputs each matched row once')
        E.check(self.spec(E, w, k)[1][1], 'intersect outputs matched rows, in order')
        E.check(w.flushes() == 1, 'intersect passes end of stream on exactly once')
        E.cover('end')


# --- filter

CMP = z3.Const('compare', V)


class Filt:
    """Row i is passed on if its key is among the rows of the pipeline (--discard: if it is not)."""
    def __init__(self, compare):
        self.compare = compare

    def fails(self, i):
        return raises_(CMP, tuple_pack(inp(i))) if self.compare else z3.BoolVal(False)

    def key(self, E, i):
        if not self.compare:
            return tuple_pack(inp(i))
        v = apply_(CMP, tuple_pack(inp(i)))
        return z3.If(z3.Or(v == VNone, is_row(v)), v, v_tup(z3.Store(z3.K(I, VNone), 0, v), 1))

    def ok(self, E, i):
        k = self.key(E, i)
        hit = E.cR(k, NR(0)) > 0
        return z3.And(z3.Not(self.fails(i)), hit == z3.Not(E.discard))

    def spec(self, E, w, k):
        F, G, ok = E.F, E.G, self.ok
        return [
            ('number of outputs', w.n_out() == F(k)),
            ('number of errors', w.n_errs() == G(k)),
            ('outputs', forall_in(k, lambda j: z3.Implies(ok(E, j), z3.And(
                F(j) >= 0, F(j) < w.n_out(), w.out_at(F(j)) == inp(j))))),
            ('errors', forall_in(k, lambda j: z3.Implies(self.fails(j), z3.And(
                G(j) >= 0, G(j) < w.n_errs(), w.err_at(G(j)) == v_int(F(j)))))),
        ]

    def cands(self, E, ctx):
        it = ctx.it
        out = []
        if ctx.where == 'pipeline':
            E.cR.unroll(it)
            out.append(('r<=n', it <= NR(E.pcur)))
            out.append(('counts', z3.ForAll([X], E.cR(X, it) >= 0, patterns=[E.cR(X, it)])))
            n = it
        elif ctx.where == 'stream':
            E.F.unroll(it)
            E.G.unroll(it)
            out += self.spec(E, E.world, it)
            n = NR(0)
        else:
            return []
        for loc, e, c in ctx.sets():
            dom = E.set_dom(c)
            out.append((f'{E.locname(loc)} right', z3.ForAll([X], z3.Select(dom, X) == (E.cR(X, n) > 0),
                                                             patterns=[z3.Select(dom, X), E.cR(X, n)])))
        return out

    def drv(self, E):
        w = E.world = World(E)
        E.discard = z3.Bool('discard')
        E.cR = cntR(E, 0)
        E.cR.unroll(0)
        E.F = RecFn(E, 'nout', I, z3.IntVal(0), lambda i, f: f + z3.If(self.ok(E, i), 1, 0))
        E.G = RecFn(E, 'nerr', I, z3.IntVal(0), lambda i, f: f + z3.If(self.fails(i), 1, 0))
        right_facts(E, [0])
        E.assume(z3.And(truthy(CMP), ty(CMP) == TAGS['function']))
        op = new_op(E, 'marcel.op.filter', 'Filter', pipeline=Pipe(E, 0), discard=E.discard,
                    keep=E.fresh_bool('keep'), compare=CMP if self.compare else None)
        earlier_session(E, w, op, setup_op)
        E.set_field(op, 'receiver', w.sink)
        setup_op(E, op)
        E.stuck = None
        k = run_stream(E, w, op, 'filter', lambda i: z3.Not(hashable(
            apply_(CMP, tuple_pack(inp(i))) if self.compare else self.key(E, i))))
        if k is None:
            return
        E.F.unroll(k)
        E.G.unroll(k)
        call_method(E, op, 'flush', w.env)
        for a, f in self.spec(E, w, k):
            E.check(f, f'filter: {a}')
        E.check(w.flushes() == 1, 'filter passes end of stream on exactly once')
        E.cover('end')


# --- union

P_, Q_ = z3.Ints('pp qq')


def union_init(E):
    """the pipelines as opaque values; what each was extended by (class of op, receiver) is the same for all"""
    def append_immutable(E, v):
        def f(E, a, k):
            if not isinstance(a[0], HObj):
                raise Unsupported('pipeline extended by something other than an op')
            E.gset('ext', a[0].cls)
            E.gset('routed', False)
            return v
        return Native('append_immutable', f)

    def route_output(E, v):
        def f(E, a, k):
            E.gset('routed', a[0] is E.world.sink)
        return Native('route_output', f)

    def run_pipeline(E, v):
        def f(E, a, k):
            ext, to, p = E.ghosts.get('ext'), E.ghosts.get('routed'), z3.simplify(i_val(v))
            if ext is None:
                raise Unsupported('a pipeline argument is run with its output not routed')
            m = E.call(ext, [])
            E.check(zb(to), 'the output of every pipeline goes where the output of union goes')
            E.set_field(m, 'receiver', E.world.sink)
            call_method(E, m, 'setup', a[0])
            E.pcur = p
            E.cut_loop('pipeline', lambda it: E.branch(it < NR(p)),
                       lambda it: call_method(E, m, 'receive_input', a[0], rin(p, it)), it_name='r')
            E.pcur = None
            call_method(E, m, 'flush', a[0])
            call_method(E, m, 'cleanup')
        return Native('run_pipeline', f)
    E.vmethods['append_immutable'] = append_immutable
    E.vmethods['route_output'] = route_output
    E.vmethods['run_pipeline'] = run_pipeline
    E.vmethods['setup'] = lambda E, v: Native('setup', lambda E, a, k: None)
    E.pcur = None


class Union:
    def spec(self, E, w, p, extra):
        """after k inputs, the rows of pipelines before p, and extra rows of pipeline p"""
        OFF = E.OFF
        at = lambda q, j: w.out_at(OFF(q) + j) == rin(q, j)
        return [('len', w.n_out() == OFF(p) + extra),
                ('inputs', forall_in(E.k, lambda j: w.out_at(j) == inp(j))),
                ('k', OFF(p) >= E.k),
                ('offsets', z3.ForAll([P_], z3.Implies(z3.And(P_ >= 0, P_ < p), z3.And(
                    OFF(P_) >= E.k, OFF(P_) + NR(P_) <= OFF(p))), patterns=[OFF(P_)])),
                ('rows', z3.ForAll([P_, J], z3.Implies(z3.And(P_ >= 0, P_ < p, J >= 0, J < NR(P_)), z3.And(
                    OFF(P_) + NR(P_) <= OFF(p), at(P_, J))), patterns=[rin(P_, J)])),
                ('current', z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < extra), at(p, J)), patterns=[rin(p, J)]))]

    def cands(self, E, ctx):
        w = E.world
        it, out = ctx.it, []
        if ctx.where == 'pipeline':
            E.OFF.unroll(E.pcur)
            out.append(('r<=n', it <= NR(E.pcur)))
            if E.k is not None:
                out += self.spec(E, w, E.pcur, it)
        elif ctx.where == 'stream':
            out += [('len', w.n_out() == it), ('inputs', forall_in(it, lambda j: w.out_at(j) == inp(j)))]
        else:
            for loc, e, c in ctx.seqs():
                if loc != ('C', w.out.oid):
                    c = E.sym(c)
                    a = z3.Select(c.arr, J)
                    out.append((f'{E.locname(loc)} pipelines', z3.ForAll(
                        [J], z3.Implies(z3.And(J >= 0, J < c.n), a == pipe(J)), patterns=[a])))
            for loc, e, c in ctx.bools():
                if loc == ('G', 'routed'):
                    out.append(('routed', z3.Implies(it > 0, zb(c))))
            if E.k is not None:
                E.OFF.unroll(it)
                out += self.spec(E, w, it, z3.IntVal(0))
        return out

    def drv(self, E):
        w = E.world = World(E)
        E.k = None
        kk = E.fresh_int('kk')
        E.OFF = RecFn(E, 'offset', I, kk, lambda p, f: f + NR(p))
        E.assume(NP >= 1)
        E.assume(z3.ForAll([J], NR(J) >= 0, patterns=[NR(J)]))
        E.assume(z3.ForAll([P_, J], z3.And(is_row(rin(P_, J)), vlen(rin(P_, J)) >= 0), patterns=[rin(P_, J)]))
        E.assume(z3.ForAll([J], z3.And(i_val(pipe(J)) == J, ty(pipe(J)) == tag_of('marcel.pipeline.Pipeline')),
                           patterns=[pipe(J)]))
        E.gset('ext', None)
        E.gset('routed', False)
        op = new_op(E, 'marcel.op.union', 'Union', pipelines=Inter.pipelines(self, E))
        if E.choose(2):
            # an earlier run, with output to somewhere else
            E.set_field(op, 'receiver', null_sink())
            saved, E.candidates = E.candidates, lambda E, ctx: [x for x in saved(E, ctx) if x[0].endswith('pipelines')]
            try:
                setup_op(E, op)
            finally:
                E.candidates = saved
        E.set_field(op, 'receiver', w.sink)
        setup_op(E, op)
        k = run_stream(E, w, op, 'union')
        if k is None:
            return
        E.assume(k == kk)
        E.k = kk
        E.OFF.unroll(0)
        call_method(E, op, 'flush', w.env)
        for a, f in self.spec(E, w, NP, z3.IntVal(0)):
            if a in ('len', 'inputs', 'rows'):
                E.check(f, {'len': 'union outputs as many rows as its inputs have together',
                            'inputs': 'union outputs its input first, in order',
                            'rows': 'union then outputs the rows of each pipeline, in order'}[a])
        E.check(w.flushes() == 1, 'union passes end of stream on exactly once')
        E.cover('end')


# --- join: each input with each row of the pipeline that has the same first component

nth = z3.Function('nth', V, I, I)


JOINED = z3.Function('joined', V, V, V, B)


def joined(o, x, r):
    """o is row x followed by row r without its first component"""
    return JOINED(o, x, r)


def define_joined(E):
    p = z3.Int('jp')
    o, x, r = z3.Consts('jo jx jr', V)
    n = vlen(x)
    E.assume(z3.ForAll([o, x, r], JOINED(o, x, r) == z3.And(
        ty(o) == TAGS['tuple'], vlen(o) == n + vlen(r) - 1,
        z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < n + vlen(r) - 1),
                                  vget(o, p) == z3.If(p < n, vget(x, p), vget(r, p - n + 1))),
                  patterns=[vget(o, p)])), patterns=[JOINED(o, x, r)]))


class Join:
    def key(self, i):
        return vget(inp(i), 0)

    def n(self, E, i):
        m = E.M(self.key(i), NR(0))
        return z3.If(m > 0, m, z3.If(E.keepflag, z3.IntVal(1), z3.IntVal(0)))

    def row(self, x, p):
        """the p-th row of the pipeline that has key x"""
        return rt(0, nth(x, p))

    def spec(self, E, w, k):
        O, M = E.O, E.M
        i, p = z3.Ints('ji jj')
        key = self.key(i)
        return [
            ('len', w.n_out() == O(k)),
            ('offsets', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), z3.And(
                O(i) >= 0, O(i) + self.n(E, i) <= O(k))), patterns=[O(i)])),
            ('matches', z3.ForAll([i, p], z3.Implies(
                z3.And(i >= 0, i < k, p >= 0, p < M(key, NR(0))), z3.And(
                    O(i) >= 0, O(i) + M(key, NR(0)) <= O(k),
                    joined(w.out_at(O(i) + p), inp(i), self.row(key, p)))),
                patterns=[z3.MultiPattern(O(i), nth(key, p))])),
            ('unmatched', z3.ForAll([i], z3.Implies(
                z3.And(i >= 0, i < k, M(key, NR(0)) <= 0, E.keepflag), z3.And(
                    O(i) >= 0, O(i) + 1 <= O(k), w.out_at(O(i)) == tuple_pack(inp(i)))), patterns=[O(i)]))]

    def table(self, E, c, it):
        M = E.M
        v = z3.Select(c.val, X)
        return [('counts', z3.ForAll([X], M(X, it) >= 0, patterns=[M(X, it)])),
                ('dom', z3.ForAll([X], z3.Select(c.dom, X) == (M(X, it) > 0), patterns=[z3.Select(c.dom, X), M(X, it)])),
                ('type', z3.ForAll([X], z3.Implies(z3.Select(c.dom, X), z3.And(
                    ty(v) == z3.If(M(X, it) == 1, TAGS['tuple'], TAGS['list']),
                    z3.Implies(M(X, it) != 1, vlen(v) == M(X, it)))), patterns=[v])),
                ('one', z3.ForAll([X], z3.Implies(z3.And(z3.Select(c.dom, X), M(X, it) == 1), v == self.row(X, 0)),
                                  patterns=[v])),
                ('many', z3.ForAll([X, J], z3.Implies(z3.And(z3.Select(c.dom, X), J >= 0, J < M(X, it), M(X, it) > 1),
                                                      vget(v, J) == self.row(X, J)), patterns=[vget(v, J)])),
                # other representations: a list even for one row
                ('lists', z3.ForAll([X], z3.Implies(z3.Select(c.dom, X), z3.And(
                    ty(v) == TAGS['list'], vlen(v) == M(X, it))), patterns=[v])),
                ('items', z3.ForAll([X, J], z3.Implies(z3.And(z3.Select(c.dom, X), J >= 0, J < M(X, it)),
                                                       vget(v, J) == self.row(X, J)), patterns=[vget(v, J)]))]

    def cands(self, E, ctx):
        w = E.world
        it, out = ctx.it, []
        if ctx.where == 'pipeline':
            E.M.unroll(it)
            out.append(('r<=n', it <= NR(0)))
            for loc, e, c in ctx.dicts():
                c = E.dict_sym(c) if c.conc is not None else c
                out += [(f'{E.locname(loc)} {a}', f) for a, f in self.table(E, c, it)]
        elif ctx.where == 'stream':
            E.O.unroll(it)
            out += self.spec(E, w, it)
            for loc, e, c in ctx.dicts():
                c = E.dict_sym(c) if c.conc is not None else c
                out += [(f'{E.locname(loc)} {a}', z3.Implies(it > 0, f)) for a, f in self.table(E, c, NR(0))]
                out.append((f'{E.locname(loc)} empty at first', z3.Implies(it == 0, z3.And(c.n == 0, z3.ForAll(
                    [X], z3.Not(z3.Select(c.dom, X)), patterns=[z3.Select(c.dom, X)])))))
            for loc, e, c in ctx.bools():
                out.append((f'{E.locname(loc)} == first', zb(c) == (it == 0)))
        elif ctx.where.endswith('Join.receive'):
            # the matches of one input
            i = E.kcur
            E.O.unroll(i)
            key = self.key(i)
            p = z3.Int('jj')
            out.append(('sent', w.n_out() == E.O(i) + it))
            out.append(('this', z3.ForAll([p], z3.Implies(
                z3.And(p >= 0, p < it), joined(w.out_at(E.O(i) + p), inp(i), self.row(key, p))), patterns=[nth(key, p)])))
            out += [('before ' + a, f) for a, f in self.spec(E, w, i)[1:]]
        return out

    def drv(self, E):
        w = E.world = World(E)
        E.keepflag = z3.Bool('keep')
        E.M = RecFnN(E, 'nmatch', [V], I, lambda x: z3.IntVal(0),
                     lambda x, j, f: f + z3.If(vget(rt(0, j), 0) == x, 1, 0))
        E.O = RecFn(E, 'offset', I, z3.IntVal(0), lambda i, f: f + self.n(E, i))
        E.M.unroll(0)
        right_facts(E, [0])
        define_joined(E)
        # nth(x, p) is the index of the p-th row with key x (definition)
        kj, M = vget(rin(0, J), 0), E.M
        E.assume(z3.ForAll([J], z3.Implies(J >= 0, nth(kj, M(kj, J)) == J), patterns=[M(kj, J)]))
        E.assume(z3.ForAll([X, P_, J], z3.Implies(z3.And(P_ >= 0, P_ < M(X, J), J >= 0), z3.And(
            nth(X, P_) >= 0, nth(X, P_) < J, vget(rin(0, nth(X, P_)), 0) == X)), patterns=[z3.MultiPattern(nth(X, P_), M(X, J))]))
        E.assume(z3.ForAll([J], z3.And(vlen(rin(0, J)) >= 1, vget(rt(0, J), 0) == vget(rin(0, J), 0),
                                       vlen(rt(0, J)) == vlen(rin(0, J)), hashable(vget(rin(0, J), 0))),
                           patterns=[rin(0, J)]))
        E.assume(z3.ForAll([J], z3.And(vlen(inp(J)) >= 1, z3.Implies(ty(inp(J)) == TAGS['tuple'],
                                                                     tuple_pack(inp(J)) == inp(J))), patterns=[inp(J)]))
        op = new_op(E, 'marcel.op.join', 'Join', pipeline=Pipe(E, 0), keep=E.keepflag)
        if self.again:
            arbitrary_state(E, op)
        E.set_field(op, 'receiver', w.sink)
        setup_op(E, op)
        k = run_stream(E, w, op, 'join', lambda i: z3.Not(hashable(self.key(i))))
        if k is None:
            return
        E.O.unroll(k)
        call_method(E, op, 'flush', w.env)
        lab = {'len': 'join outputs one row per match',
               'matches': 'join outputs every input with each of its matches, in order',
               'unmatched': 'join --keep outputs an input without matches as it is'}
        for a, f in self.spec(E, w, k):
            if a in lab:
                E.check(f, lab[a])
        E.check(w.flushes() == 1, 'join passes end of stream on exactly once')
        E.cover('end')

    def __init__(self, again):
        self.again = again


diff = Diff()
TASKS = [Task('difference', diff.drv, CONTRACTS, diff.cands)]
for again in (False, True):
    t = Inter(again)
    TASKS.append(Task('intersect' + again * '-again', t.drv, CONTRACTS, t.cands, init=pipes_init, max_seconds=300))
for name, c in ('filter', False), ('filter-compare', True):
    t = Filt(c)
    TASKS.append(Task(name, t.drv, CONTRACTS, t.cands, init=fn_init))

union = Union()
TASKS.append(Task('union', union.drv, CONTRACTS, union.cands, init=union_init))
for again in (False, True):
    t = Join(again)
    TASKS.append(Task('join' + again * '-again', t.drv, CONTRACTS, t.cands, max_seconds=300, cand_ms=2500))
