"""reverse, sort, unique: contracts over arbitrary streams."""
from .common import *

K = z3.Const('keyfn', V)


# --- reverse

def cands_reverse(E, ctx):
    w = E.world
    if ctx.where == 'stream':
        return cand_seq(E, ctx, lambda j: inp(j), 'inp(j)')
    k = E.k_inputs
    return cand_seq(E, ctx, lambda j: inp(k - 1 - j), 'inp(k-1-j)')


def drv_reverse(E):
    w = E.world = World(E)
    op = new_op(E, 'marcel.op.reverse', 'Reverse')
    earlier_session(E, w, op)
    E.set_field(op, 'receiver', w.sink)
    call_method(E, op, 'setup', w.env)
    k = E.k_inputs = feed(E, w, op)
    E.check(w.n_out() == 0, 'reverse outputs nothing before end of stream')
    call_method(E, op, 'flush', w.env)
    E.check(w.n_out() == k, 'reverse output length')
    E.check(forall_in(w.n_out(), lambda j: w.out_at(j) == inp(k - 1 - j)), 'reverse output is the reversed input')
    E.check(w.flushes() == 1, 'reverse passes end of stream on exactly once')
    E.cover('end')


# --- sort

def spec_key(E, x):
    return apply_(K, v_tup(v_arr(x), vlen(x)))


def cands_sort(E, ctx):
    if ctx.where == 'stream':
        return cand_seq(E, ctx, lambda j: inp(j), 'inp(j)')
    perm = getattr(E, 'perm', None)
    if perm is None:
        return []
    return cand_seq(E, ctx, lambda j: inp(perm(j)), 'inp(perm(j))')


def drv_sort(keyed):
    def drv(E):
        w = E.world = World(E)
        E.perm = None
        E.sort_contract = sort_contract
        op = new_op(E, 'marcel.op.sort', 'Sort')
        if keyed:
            E.assume(truthy(K))
            E.assume(ty(K) == TAGS['function'])
            E.set_field(op, 'key', K)
        earlier_session(E, w, op)
        E.perm = None
        E.set_field(op, 'receiver', w.sink)
        call_method(E, op, 'setup', w.env)
        k = E.k_inputs = feed(E, w, op)
        E.check(w.n_out() == 0, 'sort outputs nothing before end of stream')
        r = expect_kill(E, lambda: call_method(E, op, 'flush', w.env))
        if r != 'ok':
            E.check(z3.BoolVal(r in ('KillCommandException', 'KillAndResumeException')),
                    'sort fails only by killing the command')
            E.check(w.n_out() == 0, 'a failing sort outputs nothing')
            E.cover('killed')
            return
        n = w.n_out()
        perm = E.perm
        E.check(n == k, 'sort output length')
        if perm is None:
            E.check(False, 'sort output is a sorted permutation of the input')
            return
        E.check(forall_in(n, lambda j: z3.And(w.out_at(j) == inp(perm(j)), perm(j) >= 0, perm(j) < k)),
                'sort output consists of inputs')
        E.check(z3.ForAll([P1, P2], z3.Implies(z3.And(P1 >= 0, P1 < P2, P2 < n), perm(P1) != perm(P2))),
                'sort outputs every input once')
        key = (lambda x: spec_key(E, x)) if keyed else (lambda x: x)
        E.check(z3.ForAll([P1, P2], z3.Implies(z3.And(P1 >= 0, P1 < P2, P2 < n),
                                               z3.Not(klt(key(inp(perm(P2))), key(inp(perm(P1))))))),
                'sort output is in ascending order')
        E.check(z3.ForAll([P1, P2], z3.Implies(
            z3.And(P1 >= 0, P1 < P2, P2 < n, z3.Not(klt(key(inp(perm(P1))), key(inp(perm(P2)))))),
            perm(P1) < perm(P2))), 'sort keeps the order of inputs with equal keys')
        E.check(w.flushes() == 1, 'sort passes end of stream on exactly once')
        E.cover('end')
    return drv


TASKS = [
    Task('reverse', drv_reverse, candidates=cands_reverse),
    Task('sort', drv_sort(False), candidates=cands_sort, max_seconds=40, ob_ms=3000),
    Task('sort-key', drv_sort(True), candidates=cands_sort, max_seconds=40, ob_ms=3000),
]


# --- unique

def unique_ghosts(E, consecutive):
    if consecutive:
        sel = lambda i: z3.Or(i == 0, inp(i) != inp(i - 1))
        seen = None
    else:
        seen = RecFn2(E, 'seen', B, lambda x: z3.BoolVal(False), lambda x, i, b: z3.Or(b, inp(i) == x))
        sel = lambda i: z3.Not(seen(inp(i), i))
    F = RecFn(E, 'nsel', I, z3.IntVal(0), lambda i, f: f + z3.If(sel(i), 1, 0))
    return seen, sel, F


def filter_spec(w, sel, F, k):
    return [('len', w.n_out() == F(k)),
            ('at', forall_in(k, lambda j: z3.Implies(sel(j), z3.And(F(j) >= 0, F(j) < w.n_out(),
                                                                    w.out_at(F(j)) == inp(j)))))]


def cands_unique(consecutive):
    def cands(E, ctx):
        if ctx.where != 'stream':
            return []
        w = E.world
        k = ctx.it
        seen, sel, F = E.ug
        F.unroll(k)
        out = [('out.' + a, f) for a, f in filter_spec(w, sel, F, k)]
        if seen:
            seen.unroll(k)
            x = z3.Const('x', V)
            for loc, e, c in ctx.sets():
                out.append((f'{E.locname(loc)}==seen', z3.ForAll([x], z3.Select(c.dom, x) == seen(x, k)))
                           if c.dom is not None else
                           (f'{E.locname(loc)}==seen', z3.And(k == 0, z3.BoolVal(c.conc == []))))
        else:
            for loc, e, c in ctx.vals():
                cv = VNone if c is None else c
                out.append((f'{E.locname(loc)}==last', z3.And(z3.Implies(k > 0, cv == inp(k - 1)),
                                                              z3.Implies(k == 0, cv == VNone))))
        return out
    return cands


def drv_unique(consecutive):
    def drv(E):
        w = E.world = World(E)
        E.ug = unique_ghosts(E, consecutive)
        seen, sel, F = E.ug
        op = new_op(E, 'marcel.op.unique', 'Unique', consecutive=True if consecutive else None)
        earlier_session(E, w, op)
        E.set_field(op, 'receiver', w.sink)
        call_method(E, op, 'setup', w.env)
        E.stuck = None
        box = []

        def go():
            def body(it):
                E.stuck = it
                call_method(E, op, 'receive_input', w.env, inp(it))
                E.stuck = None
            box.append(E.cut_loop('stream', lambda it: E.choose(2) == 0, body, it_name='k'))
        r = expect_kill(E, go)
        if r != 'ok':
            E.check(z3.BoolVal(r == 'KillCommandException'), 'unique fails only by killing the command')
            E.check(z3.Not(hashable(inp(E.stuck))), 'unique fails only on an input that is not hashable')
            E.cover('killed')
            return
        k = box[0]
        F.unroll(k)
        if seen:
            seen.unroll(k)
        call_method(E, op, 'flush', w.env)
        E.check(w.n_out() == F(k), 'unique outputs each first occurrence once')
        E.check(filter_spec(w, sel, F, k)[1][1], 'unique outputs first occurrences, in order')
        E.check(w.flushes() == 1, 'unique passes end of stream on exactly once')
        E.cover('end')
    return drv


TASKS += [
    Task('unique', drv_unique(False), candidates=cands_unique(False)),
    Task('unique-consecutive', drv_unique(True), candidates=cands_unique(True)),
]
