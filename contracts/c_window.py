"""window: overlapping, disjoint, predicate."""
from .common import *

N = z3.Int('n')
PR = z3.Const('predicate', V)
tup_of = z3.Function('tup_of', I, I, I, V)       # ghost name, see wdef


def welem(lo, k):
    """element j of a window that starts at input lo, k inputs in total"""
    return lambda j: z3.If(lo + j < k, unw(inp(lo + j)), VNone)


J2 = z3.Int('j2')


def is_window(x, lo, n, k):
    """x is the tuple of the n unwrapped inputs from lo on, padded with None after input k"""
    return z3.And(ty(x) == TAGS['tuple'], vlen(x) == n,
                  z3.ForAll([J2], z3.Implies(z3.And(J2 >= 0, J2 < n), vget(x, J2) == welem(lo, k)(J2))))


def windows_ok(w, lo_of, n, k, m):
    """the first m outputs are windows"""
    j = J
    x = w.out_at(j)
    lo = lo_of(j)
    return z3.And(
        z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < m), z3.And(ty(x) == TAGS['tuple'], vlen(x) == n)),
                  patterns=[x]),
        z3.ForAll([J, J2], z3.Implies(z3.And(J >= 0, J < m, J2 >= 0, J2 < n),
                                      vget(x, J2) == z3.If(lo + J2 < k, unw(inp(lo + J2)), VNone)),
                  patterns=[vget(x, J2)]))


def zmin(a, b):
    return z3.If(a < b, a, b)


def zmax(a, b):
    return z3.If(a > b, a, b)


def cands_overlap(E, ctx):
    w = E.world
    out = []
    if ctx.where == 'stream':
        k = ctx.it
        m = zmax(z3.IntVal(0), k - N + 1)
        out.append(('out.len==k-n+1', w.n_out() == m))
        out.append(('out windows', windows_ok(w, lambda j: j, N, k, w.n_out())))
        for loc, e, c in ctx.seqs():
            if loc == ('C', w.out.oid):
                continue
            nm, n, arr = E.locname(loc), zi(E.seq_n(c)), E.seq_arr(c)
            for L, t in ((N, 'n'), (N - 1, 'n-1')):
                out.append((f'{nm}.len==min(k,{t})', n == zmin(k, L)))
            out.append((f'{nm}==last', forall_in(n, lambda j: z3.Select(arr, j) == unw(inp(k - n + j)))))
    elif getattr(E, 'k_inputs', None) is not None:
        k = E.k_inputs
        out.append(('out windows', windows_ok(w, lambda j: j, N, k, w.n_out())))
        n0 = E.n_out0
        out.append(('out.len==n0+it', w.n_out() == n0 + ctx.it))
        out.append(('out.len<=k', w.n_out() <= k))
        seqs = [(E.locname(loc), zi(E.seq_n(c)), E.seq_arr(c)) for loc, e, c in ctx.seqs() if loc != ('C', w.out.oid)]
        for t, p in (('p', w.n_out()), ('p-1', w.n_out() - 1)):
            for nm, n, arr in seqs:
                out.append((f'{nm}.len==k-{t}', n == k - p))
                out.append((f'{nm}.len>=k-{t}', n >= k - p))
                out.append((f'{nm}.len<=n', n <= N))
                out.append((f'{nm}.len==n', n == N))
                out.append((f'{nm}=={t}..', forall_in(n, lambda j: z3.Select(arr, j) ==
                                                      z3.If(p + j < k, unw(inp(p + j)), VNone))))
    return out


def drv_overlap(E):
    w = E.world = World(E)
    op = new_op(E, 'marcel.op.window', 'Window', overlap_arg=N)
    E.k_inputs = None
    earlier_session(E, w, op)
    E.set_field(op, 'receiver', w.sink)
    r = expect_kill(E, lambda: call_method(E, op, 'setup', w.env))
    if r != 'ok':
        E.check(z3.And(N <= 0, z3.BoolVal(r == 'KillCommandException')), 'window rejects only sizes below 1')
        E.cover('rejected')
        return
    E.check(N >= 1, 'window sizes below 1 are rejected')
    k = feed(E, w, op)
    E.k_inputs = k
    E.n_out0 = w.n_out()
    call_method(E, op, 'flush', w.env)
    E.check(w.n_out() == k, 'every input starts exactly one overlapping window')
    E.check(windows_ok(w, lambda j: j, N, k, w.n_out()),
            'overlapping window j holds inputs j to j+n-1, padded with None')
    E.check(w.flushes() == 1, 'window passes end of stream on exactly once')
    E.cover('end')


# --- disjoint.  Input i belongs to window dw(i), at position dp(i); window j starts at input j * n.

def cands_disjoint(E, ctx):
    w = E.world
    out = []
    wq, ps = E.dq
    if ctx.where == 'stream':
        k = ctx.it
    elif E.k_inputs is not None:
        k = E.k_inputs
    else:
        return out
    wq.unroll(k)
    ps.unroll(k)
    if ctx.where == 'stream':
        out.append(('pos in range', z3.And(ps(k) >= 0, ps(k) < N, wq(k) >= 0)))
        out.append(('out.len==windows', w.n_out() == wq(k)))
        out.append(('monotone', forall_in(k, lambda j: z3.And(wq(j) <= wq(k), wq(j) >= 0, ps(j) >= 0, ps(j) < N,
                                                              z3.Implies(wq(j) == wq(k), ps(j) < ps(k))))))
        out.append(('out elements', z3.ForAll([J], z3.Implies(
            z3.And(J >= 0, J < k, wq(J) < wq(k)),
            z3.And(ty(w.out_at(wq(J))) == TAGS['tuple'], vlen(w.out_at(wq(J))) == N,
                   vget(w.out_at(wq(J)), ps(J)) == unw(inp(J)))), patterns=[wq(J), ps(J)])))
        for loc, e, c in ctx.seqs():
            if loc == ('C', w.out.oid):
                continue
            nm, n, arr = E.locname(loc), zi(E.seq_n(c)), E.seq_arr(c)
            out.append((f'{nm}.len==pos', n == ps(k)))
            out.append((f'{nm}==last', z3.ForAll([J], z3.Implies(
                z3.And(J >= 0, J < k, wq(J) == wq(k)), z3.Select(arr, ps(J)) == unw(inp(J))),
                patterns=[wq(J), ps(J)])))
    else:
        for loc, e, c in ctx.seqs():
            if loc == ('C', w.out.oid):
                continue
            nm, n, arr = E.locname(loc), zi(E.seq_n(c)), E.seq_arr(c)
            out.append((f'{nm}.len<=n', n <= N))
            out.append((f'{nm}.len>0', n > 0))
            out.append((f'{nm}.len==pos+it', n == ps(k) + ctx.it))
            out.append((f'{nm}==last', z3.ForAll([J], z3.Implies(
                z3.And(J >= 0, J < k, wq(J) == wq(k)), z3.Select(arr, ps(J)) == unw(inp(J))),
                patterns=[wq(J), ps(J)])))
            out.append((f'{nm} padded', z3.ForAll([J], z3.Implies(
                z3.And(J >= ps(k), J < n), z3.Select(arr, J) == VNone))))
    return out


def drv_disjoint(E):
    w = E.world = World(E)
    E.dq = (RecFn(E, 'dwin', I, z3.IntVal(0), lambda i, f: z3.If(ps(i) + 1 == N, f + 1, f)),
            RecFn(E, 'dpos', I, z3.IntVal(0), lambda i, f: z3.If(f + 1 == N, z3.IntVal(0), f + 1)))
    wq, ps = E.dq
    op = new_op(E, 'marcel.op.window', 'Window', disjoint_arg=N)
    E.assume(N >= 1)
    E.k_inputs = None
    earlier_session(E, w, op)
    E.set_field(op, 'receiver', w.sink)
    call_method(E, op, 'setup', w.env)
    k = feed(E, w, op)
    E.k_inputs = k
    wq.unroll(k)
    ps.unroll(k)
    call_method(E, op, 'flush', w.env)
    E.check(w.n_out() == wq(k) + z3.If(ps(k) > 0, 1, 0), 'number of disjoint windows')
    E.check(z3.ForAll([J], z3.Implies(
        z3.And(J >= 0, J < k),
        z3.And(vlen(w.out_at(wq(J))) == N, ty(w.out_at(wq(J))) == TAGS['tuple'], wq(J) >= 0, wq(J) < w.n_out(),
               vget(w.out_at(wq(J)), ps(J)) == unw(inp(J))))),
        'input i is at position i mod n of disjoint window i div n')
    last = w.out_at(wq(k))
    E.check(z3.Implies(ps(k) > 0, z3.And(vlen(last) == N,
                                         z3.ForAll([J], z3.Implies(z3.And(J >= ps(k), J < N),
                                                                   vget(last, J) == VNone)))),
            'the last disjoint window is padded with None')
    E.check(w.flushes() == 1, 'window passes end of stream on exactly once')
    E.cover('end')


# --- predicate

def starts(i):
    x = inp(i)
    return z3.Or(i == 0, truthy(apply_(PR, v_tup(v_arr(x), vlen(x)))))


def cands_predicate(E, ctx):
    w = E.world
    if ctx.where != 'stream':
        return []
    k = ctx.it
    wq, st = E.dq
    wq.unroll(k)
    st.unroll(k)
    out = []
    # wq(i): number of windows started by inputs 0 .. i-1;  st(i): the start of the window input i-1 belongs to
    out.append(('ghost range', z3.And(wq(k) >= 0, st(k) >= 0, z3.Implies(k > 0, z3.And(wq(k) >= 1, st(k) < k)))))
    out.append(('out.len', w.n_out() == z3.If(k > 0, wq(k) - 1, z3.IntVal(0))))
    out.append(('ghost monotone', z3.ForAll([J], z3.Implies(z3.And(J > 0, J <= k), z3.And(
        wq(J) >= 1, wq(J) <= wq(k), st(J) >= 0, st(J) < J, st(J) <= st(k),
        z3.Implies(wq(J) == wq(k), st(J) == st(k)), z3.Implies(wq(J) < wq(k), st(J) < st(k)))),
        patterns=[wq(J), st(J)])))
    o = w.out_at(wq(J) - 1)
    out.append(('out elements', z3.ForAll([J], z3.Implies(
        z3.And(J > 0, J <= k, wq(J) < wq(k)),
        z3.And(ty(o) == TAGS['tuple'], vlen(o) > J - 1 - st(J), vget(o, J - 1 - st(J)) == unw(inp(J - 1)))),
        patterns=[wq(J), st(J)])))
    out.append(('out lengths', z3.ForAll([J], z3.Implies(
        z3.And(J > 0, J <= k, wq(J) < wq(k), wq(J + 1) > wq(J)), vlen(o) == J - st(J)),
        patterns=[wq(J), st(J)])))
    for loc, e, c in ctx.seqs():
        if loc == ('C', w.out.oid):
            continue
        nm, n, arr = E.locname(loc), zi(E.seq_n(c)), E.seq_arr(c)
        out.append((f'{nm}.len', n == k - st(k)))
        out.append((f'{nm}==last', z3.ForAll([J], z3.Implies(
            z3.And(J >= 0, J < n), z3.Select(arr, J) == unw(inp(st(k) + J))))))
        out.append((f'{nm}==last2', z3.ForAll([J], z3.Implies(
            z3.And(J > 0, J <= k, wq(J) == wq(k)), z3.Select(arr, J - 1 - st(J)) == unw(inp(J - 1))),
            patterns=[wq(J), st(J)])))
    return out


def drv_predicate(E):
    w = E.world = World(E)
    E.total_functions = True
    E.dq = (RecFn(E, 'pwin', I, z3.IntVal(0), lambda i, f: f + z3.If(starts(i), 1, 0)),
            RecFn(E, 'pstart', I, z3.IntVal(0), lambda i, f: z3.If(starts(i), i, f)))
    wq, st = E.dq
    E.assume(truthy(PR))
    E.assume(ty(PR) == TAGS['function'])
    op = new_op(E, 'marcel.op.window', 'Window', predicate=PR)
    earlier_session(E, w, op)
    E.set_field(op, 'receiver', w.sink)
    call_method(E, op, 'setup', w.env)
    k = feed(E, w, op)
    wq.unroll(k)
    st.unroll(k)
    call_method(E, op, 'flush', w.env)
    E.check(w.n_out() == wq(k), 'number of predicate windows')
    o = w.out_at(wq(J) - 1)
    E.check(z3.ForAll([J], z3.Implies(
        z3.And(J > 0, J <= k),
        z3.And(wq(J) >= 1, wq(J) <= w.n_out(), ty(o) == TAGS['tuple'], vlen(o) > J - 1 - st(J),
               vget(o, J - 1 - st(J)) == unw(inp(J - 1))))),
        'every input is in the window started by the latest input satisfying the predicate, in order')
    E.check(z3.ForAll([J], z3.Implies(
        z3.And(J > 0, J <= k, z3.Or(J == k, wq(J + 1) > wq(J))), vlen(o) == J - st(J))),
        'a predicate window ends where the next one starts')
    E.check(w.flushes() == 1, 'window passes end of stream on exactly once')
    E.cover('end')


TASKS = [
    Task('window-overlap', drv_overlap, candidates=cands_overlap),
    Task('window-disjoint', drv_disjoint, candidates=cands_disjoint),
    Task('window-predicate', drv_predicate, candidates=cands_predicate),
]
