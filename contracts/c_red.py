"""red: folds by position, grouping by position, incremental.  squish: fold of the components of a row."""
from .common import *

NF = z3.Int('n_functions')
fnv = z3.Function('fnv', I, V)              # the i-th reduction function
grouping = z3.Function('grouping', V, B)    # f.is_grouping()
counting = z3.Function('counting', V, B)    # f.is_count()
X = z3.Const('xg', V)
JA = z3.Int('ja')


def red_init(E):
    E.vmethods['is_grouping'] = lambda E, v: Native('is_grouping', lambda E, a, k: grouping(v))
    E.vmethods['is_count'] = lambda E, v: Native('is_count', lambda E, a, k: counting(v))
    E.vmethods['snippet'] = lambda E, v: Native('snippet', lambda E, a, k: 'snippet')


def short(i):
    return vlen(inp(i)) < NF


def common_setup(E, incremental):
    w = E.world = World(E)
    E.kcur = None
    E.G = RecFn(E, 'nerr', I, z3.IntVal(0), lambda i, f: f + z3.If(short(i), 1, 0))
    E.assume(NF >= 1)
    fns = E.new_list(seq=Seq(arr=E.fresh('functions', AIV), n=NF))
    E.assume(z3.ForAll([J], z3.Select(fns.seq.arr, J) == fnv(J), patterns=[z3.Select(fns.seq.arr, J)]))
    f, p = z3.Consts('f p', V)
    E.assume(z3.ForAll([f, p], z3.Not(raises_(f, p)), patterns=[raises_(f, p)]))
    E.assume(z3.ForAll([J], ty(fnv(J)) == TAGS['function'], patterns=[fnv(J)]))
    E.assume(z3.ForAll([X], vlen(X) >= 0, patterns=[vlen(X)]))
    E.assume(z3.ForAll([J], z3.And(i_val(v_int(J)) == J, ty(v_int(J)) == TAGS['int']), patterns=[v_int(J)]))
    # the counting function is not the grouping marker
    E.assume(z3.ForAll([X], z3.Implies(counting(X), z3.Not(grouping(X))), patterns=[counting(X)]))
    op = new_op(E, 'marcel.op.red', 'Red', functions=fns, incremental=incremental)
    return w, op


def err_spec(E, w, k, nout):
    G = E.G
    return [('number of errors', w.n_errs() == G(k)),
            ('errors', forall_in(k, lambda j: z3.Implies(short(j), z3.And(
                G(j) >= 0, G(j) < w.n_errs(), w.err_at(G(j)) == v_int(nout(j))))))]


# --- without grouping

class Plain:
    def __init__(self, incremental):
        self.inc = incremental

    def ghosts(self, E):
        E.assume(forall_in(NF, lambda j: z3.Not(grouping(fnv(j)))))
        # A(j, k): accumulator of function j after k inputs
        E.A = RecFnN(E, 'acc', [I], V,
                     lambda j: z3.If(counting(fnv(j)), v_int(0), VNone),
                     lambda j, k, f: z3.If(short(k), f, apply_(fnv(j), rawpack2(f, vget(inp(k), j)))))
        E.F = RecFn(E, 'nout', I, z3.IntVal(0), lambda i, f: f + z3.If(short(i), 0, 1))

    def row(self, E, o, j):
        """incremental output for input j"""
        x = inp(j)
        return [('shape', z3.And(ty(o) == TAGS['tuple'], vlen(o) == vlen(x) + NF), False),
                ('input part', z3.Implies(z3.And(JA >= 0, JA < vlen(x)), vget(o, JA) == vget(x, JA)), True),
                ('accumulators', z3.Implies(z3.And(JA >= 0, JA < NF), vget(o, vlen(x) + JA) == E.A(JA, j + 1)), True)]

    def spec(self, E, w, k):
        if not self.inc:
            return [('no output yet', w.n_out() == 0)] + err_spec(E, w, k, lambda j: z3.IntVal(0))
        F = E.F
        r = [('number of outputs', w.n_out() == F(k))] + err_spec(E, w, k, F)
        rng = z3.And(J >= 0, J < k, z3.Not(short(J)))
        r.append(('range', z3.ForAll([J], z3.Implies(rng, z3.And(F(J) >= 0, F(J) < F(k))))))
        return r + self.rows(E, w, k)

    def rows(self, E, w, k):
        F = E.F
        rng = z3.And(J >= 0, J < k, z3.Not(short(J)))
        return [(nm, z3.ForAll([J, JA] if more else [J], z3.Implies(rng, f)))
                for nm, f, more in self.row(E, w.out_at(F(J)), J)]

    def unroll(self, E, k):
        E.A.unroll(k)
        E.G.unroll(k)
        E.F.unroll(k)

    def cands(self, E, ctx):
        w = E.world
        out = []
        A = E.A
        if ctx.where == 'stream':
            k = ctx.it
            self.unroll(E, k)
            out += self.spec(E, w, k)
        else:
            k = E.kcur
            if k is not None:
                self.unroll(E, k)
        for loc, e, c in ctx.seqs():
            nm, n, arr = E.locname(loc), zi(E.seq_n(c)), E.seq_arr(c)
            out.append((f'{nm}.len==NF', n == NF))
            at = lambda j: z3.Select(arr, j)
            it = ctx.it
            if ctx.where == 'stream':
                out.append((f'{nm}==A(j,k)', forall_in(NF, lambda j: at(j) == A(j, k))))
            elif k is not None:
                out.append((f'{nm}==A mixed', forall_in(NF, lambda j: at(j) == z3.If(j < it, A(j, k + 1), A(j, k)))))
            else:
                out.append((f'{nm}==init', forall_in(it, lambda j: at(j) == A(j, 0))))
                out.append((f'{nm}==None after', forall_in(NF, lambda j: at(j) == VNone, lo=it)))
        return out

    def drv(self, E):
        w, op = common_setup(E, self.inc)
        self.ghosts(E)
        self.unroll(E, 0)
        earlier_session(E, w, op)
        E.kcur = None
        E.set_field(op, 'receiver', w.sink)
        call_method(E, op, 'setup', w.env)
        k = feed(E, w, op)
        self.unroll(E, k)
        A = E.A
        nm = 'red' if not self.inc else 'red incremental'
        for a, f in err_spec(E, w, k, E.F if self.inc else (lambda j: z3.IntVal(0))):
            E.check(f, f'{nm}: one error per short row, in place ({a})')
        if self.inc:
            E.check(w.n_out() == E.F(k), f'{nm}: one output per row')
            for a, f in self.rows(E, w, k):
                E.check(f, f'{nm}: output is the row and the accumulated values ({a})')
        else:
            E.check(w.n_out() == 0, f'{nm} outputs nothing before end of stream')
        n0 = w.n_out()
        call_method(E, op, 'flush', w.env)
        if self.inc:
            E.check(w.n_out() == n0, f'{nm}: nothing more at end of stream')
        else:
            E.check(w.n_out() == 1, f'{nm}: exactly one output')
            o = w.out_at(0)
            E.check(z3.And(ty(o) == TAGS['tuple'], vlen(o) == NF), f'{nm}: output is a tuple of as many values')
            E.check(forall_in(NF, lambda j: vget(o, j) == A(j, k)), f'{nm}: each value is the fold of its column')
        E.check(w.flushes() == 1, f'{nm} passes end of stream on exactly once')
        E.cover('end')


# --- with grouping

class Grouped(Plain):
    """Rows are grouped by gk(i), the tuple of their components at grouping positions."""

    def ghosts(self, E):
        gk = E.gk = z3.Function('gk', I, V)
        gp = lambda p: grouping(fnv(p))
        C = E.C = RecFn(E, 'ngroup', I, z3.IntVal(0), lambda i, f: f + z3.If(gp(i), 1, 0))
        D = E.D = RecFn(E, 'ndata', I, z3.IntVal(0), lambda i, f: f + z3.If(gp(i), 0, 1))
        E.assume(C(NF) >= 1)    # there is a grouping function
        E.assume(z3.ForAll([J, JA], z3.Implies(z3.And(JA >= 0, JA < NF, gp(JA)),
                                               vget(gk(J), C(JA)) == vget(inp(J), JA)),
                           patterns=[z3.MultiPattern(gk(J), C(JA))]))
        E.assume(z3.ForAll([J], z3.And(ty(gk(J)) == TAGS['tuple'], vlen(gk(J)) == C(NF), hashable(gk(J))),
                           patterns=[gk(J)]))
        ok = lambda k: z3.Not(short(k))
        E.A = RecFnN(E, 'gacc', [V, I], V, lambda g, j: VNone,
                     lambda g, j, k, f: z3.If(z3.And(ok(k), gk(k) == g),
                                              z3.If(gp(j), vget(inp(k), j), apply_(fnv(j), rawpack2(f, vget(inp(k), j)))),
                                              f))
        E.S = RecFnN(E, 'seen', [V], B, lambda g: z3.BoolVal(False),
                     lambda g, k, f: z3.Or(f, z3.And(ok(k), gk(k) == g)))
        E.first = lambda k: z3.And(ok(k), z3.Not(E.S(gk(k), k)))
        E.M = RecFn(E, 'ngroups', I, z3.IntVal(0), lambda k, f: f + z3.If(E.first(k), 1, 0))
        E.F = RecFn(E, 'nout', I, z3.IntVal(0), lambda i, f: f + z3.If(short(i), 0, 1))
        E.dict_keys = lambda: [gk(E.kcur)] if E.kcur is not None else []
        E.ext_terms = lambda: [gk(E.kcur)] if E.kcur is not None else []

    def row(self, E, o, j):
        x = inp(j)
        gp = grouping(fnv(JA))
        return [('shape', z3.And(ty(o) == TAGS['tuple'], vlen(o) == vlen(x) + E.D(NF)), False),
                ('input part', z3.Implies(z3.And(JA >= 0, JA < vlen(x)), vget(o, JA) == vget(x, JA)), True),
                ('accumulators', z3.Implies(z3.And(JA >= 0, JA < NF, z3.Not(gp)),
                                            vget(o, vlen(x) + E.D(JA)) == E.A(E.gk(j), JA, j + 1)), True)]

    def unroll(self, E, k):
        for r in (E.A, E.S, E.M, E.F, E.G):
            r.unroll(k)

    def dict_spec(self, E, c, k):
        """the dict after k inputs"""
        M, S, A, gk = E.M, E.S, E.A, E.gk
        val = z3.Select(c.val, X)
        return [
            ('groups', z3.ForAll([X], z3.Select(c.dom, X) == S(X, k), patterns=[z3.Select(c.dom, X), S(X, k)])),
            ('count', zi(c.n) == M(k)),
            ('order', forall_in(k, lambda j: z3.Implies(E.first(j), z3.And(
                M(j) >= 0, M(j) < M(k), z3.Select(c.karr, M(j)) == gk(j))))),
            ('shape', z3.ForAll([X], z3.Implies(S(X, k), z3.And(ty(val) == TAGS['list'], vlen(val) == NF)),
                                patterns=[S(X, k), z3.Select(c.val, X)])),
            ('content', z3.ForAll([X, JA], z3.Implies(z3.And(S(X, k), JA >= 0, JA < NF), vget(val, JA) == A(X, JA, k)),
                                  patterns=[z3.MultiPattern(S(X, k), vget(val, JA)), A(X, JA, k)]))]

    def cands(self, E, ctx):
        w = E.world
        out = []
        it = ctx.it
        A, gk = E.A, E.gk
        k = it if ctx.where == 'stream' else E.kcur
        if k is not None:
            self.unroll(E, k)
        if ctx.where == 'stream':
            out.append(('new groups start from None', z3.ForAll(
                [X, JA], z3.Implies(z3.Not(E.S(X, k)), A(X, JA, k) == VNone), patterns=[A(X, JA, k)])))
            out += self.spec(E, w, k)
            for loc, e, c in ctx.dicts():
                if c.conc is None:
                    out += [(f'{E.locname(loc)} {a}', f) for a, f in self.dict_spec(E, c, k)]
                else:
                    out += [(f'{E.locname(loc)} {a}', f) for a, f in self.dict_spec(E, E.dict_sym(c), k)]
            return out
        E.C.unroll(it)
        E.D.unroll(it)
        gp = lambda p: grouping(fnv(p))
        for loc, e, c in ctx.seqs():
            nm, n, arr = E.locname(loc), zi(E.seq_n(c)), E.seq_arr(c)
            at = lambda j: z3.Select(arr, j)
            p = i_val(at(J))
            for cnt, sel, t in ((E.C, gp, 'C'), (E.D, lambda p: z3.Not(gp(p)), 'D')):
                out.append((f'{nm}.len=={t}(it)', n == cnt(it)))
                # a list of positions.  (What is needed of the grouping positions and of the data positions differs;
                # both directions for both lists would make the solver instantiate them forever.)
                out.append((f'{nm} positions', forall_in(n, lambda j: z3.And(at(j) == v_int(p), p >= 0, p < it))))
                if t == 'C':
                    out.append((f'{nm} positions C', forall_in(n, lambda j: z3.And(sel(p), cnt(p) == j))))
                else:
                    out.append((f'{nm} all positions D', z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < it, sel(J)), z3.And(
                        cnt(J) >= 0, cnt(J) < n, at(cnt(J)) == v_int(J))), patterns=[cnt(J)])))
                if k is not None:
                    # components at positions
                    pos = [E.op.fields.get('reducer')]
                    for nm2, l in self.pos_lists(E):
                        if l.seq.items is None:
                            q = i_val(z3.Select(l.seq.arr, J))
                            out.append((f'{nm} components of input at {nm2}', forall_in(n, lambda j: at(j) == vget(inp(k), q))))
                            out.append((f'{nm} components of acc at {nm2}', forall_in(n, lambda j: at(j) == A(gk(k), q, k + 1))))
        for loc, e, c in ctx.dicts():
            nm = E.locname(loc)
            if k is not None and c.conc is None:
                v = z3.Select(c.val, gk(k))
                out.append((f'{nm} cell shape', z3.And(ty(v) == TAGS['list'], vlen(v) == NF)))
                out.append((f'{nm} cell', forall_in(NF, lambda j: vget(v, j) == z3.If(
                    j < it, A(gk(k), j, k + 1), A(gk(k), j, k)))))
        if k is None and getattr(E, 'k_end', None) is not None:
            # flush
            out += self.flush_spec(E, w, E.k_end, it)
        return out

    def earlier_cands(self, E, ctx):
        out = []
        for loc, e, c in ctx.dicts():
            c = c if c.conc is None else E.dict_sym(c)
            val = z3.Select(c.val, X)
            out.append((f'{E.locname(loc)} lists', z3.ForAll([X], z3.Implies(z3.Select(c.dom, X), z3.And(
                ty(val) == TAGS['list'], vlen(val) == NF)), patterns=[val])))
        return out + ([] if ctx.where == 'earlier stream' else self.cands(E, ctx))

    def pos_lists(self, E):
        r = E.op.fields.get('reducer')
        if isinstance(r, HObj):
            return [(n, l) for n, l in r.fields.items() if isinstance(l, LObj)]
        return []

    def flush_spec(self, E, w, k, m):
        """the first m groups have been output"""
        o = w.out_at(E.M(J))
        rng = z3.And(J >= 0, J < k, E.first(J), E.M(J) < m)
        return [('flushed', w.n_out() == m),
                ('flushed shape', z3.ForAll([J], z3.Implies(rng, z3.And(ty(o) == TAGS['tuple'], vlen(o) == NF)))),
                ('flushed content', z3.ForAll([J, JA], z3.Implies(z3.And(rng, JA >= 0, JA < NF),
                                                                  vget(o, JA) == E.A(E.gk(J), JA, k))))]

    def drv(self, E):
        w, op = common_setup(E, self.inc)
        E.op = op
        E.k_end = None
        self.ghosts(E)
        self.unroll(E, 0)
        for r in (E.C, E.D):
            r.unroll(0)
        saved, E.ext_terms = E.ext_terms, None
        E.earlier_candidates = self.earlier_cands
        earlier_session(E, w, op)
        E.ext_terms = saved
        E.kcur = None
        E.set_field(op, 'receiver', w.sink)
        call_method(E, op, 'setup', w.env)
        k = feed(E, w, op)
        self.unroll(E, k)
        nm = 'red grouping' if not self.inc else 'red grouping incremental'
        for a, f in err_spec(E, w, k, E.F if self.inc else (lambda j: z3.IntVal(0))):
            E.check(f, f'{nm}: one error per short row, in place ({a})')
        if self.inc:
            E.check(w.n_out() == E.F(k), f'{nm}: one output per row')
            for a, f in self.rows(E, w, k):
                E.check(f, f'{nm}: output is the row and the values accumulated for its group ({a})')
        else:
            E.check(w.n_out() == 0, f'{nm} outputs nothing before end of stream')
        n0 = w.n_out()
        E.k_end = k
        call_method(E, op, 'flush', w.env)
        if self.inc:
            E.check(w.n_out() == n0, f'{nm}: nothing more at end of stream')
        else:
            E.check(w.n_out() == E.M(k), f'{nm}: one output per group')
            for a, f in self.flush_spec(E, w, k, E.M(k))[1:]:
                E.check(f, f'{nm}: groups in order of first appearance, folded by column ({a})')
        E.check(w.flushes() == 1, f'{nm} passes end of stream on exactly once')
        E.cover('end')


pl, pli, gr, gri = Plain(False), Plain(True), Grouped(False), Grouped(True)
TASKS = [
    Task('red', pl.drv, candidates=pl.cands, init=red_init),
    Task('red-incremental', pli.drv, candidates=pli.cands, init=red_init),
    Task('red-group', gr.drv, candidates=gr.cands, init=red_init, max_seconds=400),
]
