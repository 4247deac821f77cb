"""map, select, expand, squish: row by row operators, with error isolation."""
from .common import *

FN = z3.Const('fn', V)


def fails(i):
    return raises_(FN, tuple_pack(inp(i)))


def value(i):
    return apply_(FN, tuple_pack(inp(i)))


class Rowwise:
    """Every input either fails (one error, nothing else) or is selected or not (at most one output)."""

    def __init__(self, name, module, cls, field, sel, out_ok):
        self.name, self.module, self.cls, self.field, self.sel, self.out_ok = name, module, cls, field, sel, out_ok

    def fails(self, i):
        return fails(i)

    def ghosts(self, E):
        ok = lambda i: z3.And(z3.Not(self.fails(i)), self.sel(i))
        F = RecFn(E, 'nout', I, z3.IntVal(0), lambda i, f: f + z3.If(ok(i), 1, 0))
        G = RecFn(E, 'nerr', I, z3.IntVal(0), lambda i, f: f + z3.If(self.fails(i), 1, 0))
        return ok, F, G

    def spec(self, E, w, k):
        ok, F, G = E.gh
        return [
            ('number of outputs', w.n_out() == F(k)),
            ('number of errors', w.n_errs() == G(k)),
            ('outputs', forall_in(k, lambda j: z3.Implies(ok(j), z3.And(
                F(j) >= 0, F(j) < w.n_out(), self.out_ok(w.out_at(F(j)), j))))),
            ('errors', forall_in(k, lambda j: z3.Implies(self.fails(j), z3.And(
                G(j) >= 0, G(j) < w.n_errs(), w.err_at(G(j)) == v_int(F(j)))))),
        ]

    def cands(self, E, ctx):
        if ctx.where != 'stream':
            return []
        ok, F, G = E.gh
        F.unroll(ctx.it)
        G.unroll(ctx.it)
        return self.spec(E, E.world, ctx.it)

    def drv(self, E):
        w = E.world = World(E)
        E.gh = self.ghosts(E)
        ok, F, G = E.gh
        E.assume(truthy(FN))
        E.assume(ty(FN) == TAGS['function'])
        op = new_op(E, self.module, self.cls, **{self.field: FN})
        earlier_session(E, w, op)
        E.set_field(op, 'receiver', w.sink)
        call_method(E, op, 'setup', w.env)
        k = feed(E, w, op)
        F.unroll(k)
        G.unroll(k)
        call_method(E, op, 'flush', w.env)
        lab = {'number of outputs': f'{self.name}: one output per input that qualifies',
               'number of errors': f'{self.name}: one error per failing input',
               'outputs': f'{self.name}: output values and order',
               'errors': f'{self.name}: each error is reported in the position of its input'}
        for a, f in self.spec(E, w, k):
            E.check(f, lab[a])
        E.check(w.flushes() == 1, f'{self.name} passes end of stream on exactly once')
        E.cover('end')


map_ = Rowwise('map', 'marcel.op.map', 'Map', 'function', lambda i: z3.BoolVal(True),
               lambda o, j: is_wrap(o, value(j)))
select_ = Rowwise('select', 'marcel.op.select', 'Select', 'function', lambda i: truthy(value(i)),
                  lambda o, j: o == inp(j))

TASKS = [
    Task('map', map_.drv, candidates=map_.cands, init=fn_init),
    Task('select', select_.drv, candidates=select_.cands, init=fn_init),
]


# --- expand

items_of = z3.Function('items_of', V, V)
iterable = z3.Function('iterable', V, B)
is_gen = z3.Function('has_next', V, B)
P = z3.Int('p')


def expansion(x):
    """the sequence a row expands to (x: a row), as a value whose elements are given by vlen/vget"""
    o = vget(x, 0)
    seq = z3.Or(ty(o) == TAGS['tuple'], ty(o) == TAGS['list'], is_gen(o), ty(o) == TAGS['set'])
    mp = z3.Or(ty(o) == TAGS['dict'], ty(o) == tag_of('marcel.structish.Struct'))
    return z3.If(vlen(x) != 1, x, z3.If(seq, o, z3.If(mp, items_of(o), x)))


def cexp_len(x):
    """number of rows that row x becomes when its component p is expanded"""
    o = vget(x, P)
    seq = z3.Or(ty(o) == TAGS['tuple'], ty(o) == TAGS['list'], is_gen(o), ty(o) == TAGS['set'])
    mp = z3.Or(ty(o) == TAGS['dict'], ty(o) == tag_of('marcel.structish.Struct'))
    n = z3.If(seq, vlen(o), z3.If(mp, vlen(items_of(o)), z3.IntVal(1)))
    return z3.If(P >= vlen(x), z3.IntVal(1), n), seq, mp, o


def expand_init(E):
    E.vhas = {'__next__': lambda E, v: is_gen(v)}
    E.viter = lambda x: z3.Or(is_gen(x), ty(x) == TAGS['set'], iterable(x))
    E.vmethods['items'] = lambda E, v: Native('items', lambda E, a, k: items_of(v))


class Expand:
    def __init__(self, positional):
        self.pos = positional

    def n(self, i):
        x = inp(i)
        return cexp_len(x)[0] if self.pos else vlen(expansion(x))

    def elem_parts(self, o, i, j):
        """[(name, formula, extra bound variable?)]: what output o must be, as the j-th output of input i"""
        x = inp(i)
        if not self.pos:
            return [('row', is_wrap(o, vget(expansion(x), j)), False)]
        n, seq, mp, c = cexp_len(x)
        comp = z3.If(seq, vget(c, j), z3.If(mp, vget(items_of(c), j), c))
        out = P >= vlen(x)
        return [('unexpanded', z3.Implies(out, o == x), False),
                ('shape', z3.And(ty(o) == ty(x), vlen(o) == vlen(x)), False),
                ('component', z3.Implies(z3.Not(out), vget(o, P) == comp), False),
                ('others', z3.Implies(z3.And(Q >= 0, Q < vlen(x), Q != P), vget(o, Q) == vget(x, Q)), True)]

    def spec(self, E, w, k, cur=None):
        """outputs of the first k inputs, and of input k up to (excluding) offset cur"""
        T = E.T
        i = w.src_at(J)
        top = T(k) if cur is None else T(k) + cur
        r = [
            ('bounds', forall_in(k, lambda j: z3.And(T(j) >= 0, T(j) <= T(k)))),
            ('bounds0', z3.And(T(k) >= 0, w.n_src() == w.n_out())),
            ('total', w.n_out() == top),
            ('src', forall_in(w.n_out(), lambda j: z3.And(
                i >= 0, i < k if cur is None else i <= k, T(i) <= j, j < T(i) + self.n(i))))]
        o = w.out_at(J)
        rng = z3.And(J >= 0, J < w.n_out())
        for nm, f, more in self.elem_parts(o, i, J - T(i)):
            r.append((nm, z3.ForAll([J, Q] if more else [J], z3.Implies(rng, f))))
        return r

    def cands(self, E, ctx):
        w = E.world
        T = E.T
        stream = ctx.where == 'stream'
        k = ctx.it if stream else E.kcur
        if k is None:
            return []
        T.unroll(k)
        return self.spec(E, w, k, None if stream else ctx.it)

    def drv(self, E):
        w = E.world = World(E, track=True)
        x = z3.Const('x', V)
        E.assume(z3.ForAll([x], vlen(x) >= 0, patterns=[vlen(x)]))
        E.assume(z3.ForAll([x], iterable(items_of(x)), patterns=[items_of(x)]))
        E.T = RecFn(E, 'total', I, z3.IntVal(0), lambda i, f: f + self.n(i))
        E.kcur = None
        kw = {'position_arg': P} if self.pos else {}
        if self.pos:
            E.assume(P >= 0)
        op = new_op(E, 'marcel.op.expand', 'Expand', **kw)
        earlier_session(E, w, op)
        E.set_field(op, 'receiver', w.sink)
        call_method(E, op, 'setup', w.env)
        k = feed(E, w, op)
        E.T.unroll(k)
        call_method(E, op, 'flush', w.env)
        E.check(w.n_out() == E.T(k), 'expand: number of outputs')
        for nm, f in self.spec(E, w, k)[3:]:
            E.check(f, f'expand: output values and order ({nm})')
        E.check(w.flushes() == 1, 'expand passes end of stream on exactly once')
        E.cover('end')



ex0, ex1 = Expand(False), Expand(True)
TASKS += [
    Task('expand', ex0.drv, candidates=ex0.cands, init=expand_init),
    Task('expand-position', ex1.drv, candidates=ex1.cands, init=expand_init),
]


# --- squish: the fold of the components of a row

failing = z3.Function('failing', I, B)
fold = z3.Function('fold', V, I, V)     # fold(x, j): the first j components of x, folded from None


class Squish(Rowwise):
    def step_fails(self, i, j):
        x = inp(i)
        return raises_(FN, rawpack2(fold(x, j), vget(x, j)))

    def drv(self, E):
        x, j = z3.Const('x', V), z3.Int('jf')
        at = z3.Int('jw')
        wit = z3.Function('fails_at', I, I)
        E.assume(z3.ForAll([x], vlen(x) >= 0, patterns=[vlen(x)]))
        E.assume(z3.ForAll([x], fold(x, 0) == VNone, patterns=[fold(x, 0)]))
        self.rec = lambda x, j: fold(x, zi(j) + 1) == apply_(FN, rawpack2(fold(x, zi(j)), vget(x, zi(j))))
        # failing(i): some step of the fold of input i fails
        E.assume(z3.ForAll([J], z3.Implies(failing(J), z3.And(wit(J) >= 0, wit(J) < vlen(inp(J)),
                                                              self.step_fails(J, wit(J)))), patterns=[failing(J)]))
        E.assume(z3.ForAll([J, at], z3.Implies(z3.And(at >= 0, at < vlen(inp(J)), self.step_fails(J, at)), failing(J)),
                           patterns=[fold(inp(J), at)]))
        super().drv(E)

    def fails(self, i):
        return failing(i)

    def cands(self, E, ctx):
        if ctx.where == 'stream':
            return super().cands(E, ctx)
        k, it = E.kcur, zi(ctx.it)
        if k is None:
            return []
        x = inp(k)
        for d in (-1, 0):
            E.fact(z3.Implies(it + d >= 0, self.rec(x, z3.simplify(it + d))))
        out = [('no step has failed', forall_in(it, lambda j: z3.Not(self.step_fails(k, j))))]
        for loc, e, c in ctx.vals():
            out.append((f'{E.locname(loc)}==fold', (VNone if c is None else c) == fold(x, it)))
        return out


squish_ = Squish('squish', 'marcel.op.squish', 'Squish', 'function', lambda i: z3.BoolVal(True),
                 lambda o, j: is_wrap(o, fold(inp(j), vlen(inp(j)))))
TASKS.append(Task('squish', squish_.drv, candidates=squish_.cands, init=fn_init))
