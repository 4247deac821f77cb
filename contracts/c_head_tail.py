"""head and tail: contracts over arbitrary streams and arbitrary n."""
from .common import *


def zmin(a, b):
    return z3.If(a < b, a, b)


def zmax(a, b):
    return z3.If(a > b, a, b)


N = z3.Int('n')


def head_spec_len(k):
    return z3.If(N > 0, zmin(N, k), zmax(z3.IntVal(0), k + N))


def head_spec_at(j):
    return z3.If(N > 0, inp(j), inp(j - N))


def cands_head(E, ctx):
    out = []
    k = ctx.it
    for loc, e, c in ctx.ints():
        nm = E.locname(loc)
        out.append((f'{nm}==min(k,n)', c == zmin(k, N)))
        out.append((f'{nm}==n-k', c == N - k))
        out.append((f'{nm}==max(n-k,0)', c == zmax(N - k, z3.IntVal(0))))
        out.append((f'{nm}==max(-n-k,0)', c == zmax(-N - k, z3.IntVal(0))))
        out.append((f'{nm}==min(k,-n)', c == zmin(k, -N)))
    w = E.world
    out.append(('out.len==spec', w.n_out() == head_spec_len(k)))
    out.append(('out.at==spec', z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < w.n_out()),
                                                          w.out_at(J) == head_spec_at(J)))))
    return out


def drv_head(E):
    w = E.world = World(E)
    op = new_op(E, 'marcel.op.head', 'Head', n_arg=N)
    earlier_session(E, w, op)
    E.set_field(op, 'receiver', w.sink)
    r = expect_kill(E, lambda: call_method(E, op, 'setup', w.env))
    if r != 'ok':
        E.check(z3.And(N == 0, z3.BoolVal(r == 'KillCommandException')), 'head rejects only n == 0')
        E.cover('rejected')
        return
    E.check(N != 0, 'head 0 is rejected')
    k = feed(E, w, op)
    E.check(w.n_out() == head_spec_len(k), 'head output length, before end of stream')
    call_method(E, op, 'flush', w.env)
    E.check(w.n_out() == head_spec_len(k), 'head output length')
    E.check(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < w.n_out()), w.out_at(J) == head_spec_at(J))),
            'head output content and order')
    E.check(w.flushes() == 1, 'head passes end of stream on exactly once')
    E.cover('end')




# --- tail

def tail_final_len(k):
    return z3.If(N > 0, zmin(N, k), zmax(z3.IntVal(0), k + N))


def tail_final_at(k, j):
    return z3.If(N > 0, inp(z3.If(k > N, k - N, z3.IntVal(0)) + j), inp(j))


def cands_tail(E, ctx):
    out = []
    w = E.world
    stream = ctx.where == 'stream'
    k = ctx.it if stream else E.k_inputs
    A = z3.If(N > 0, N, -N)
    ints = ctx.ints()
    seqs = [(l, e, c) for l, e, c in ctx.seqs() if l != ('C', w.out.oid)]
    if stream:
        for loc, e, c in ints:
            nm = E.locname(loc)
            out.append((f'{nm}<|n|', zi(c) < A))
            out.append((f'{nm}==0|k<=|n|', z3.Implies(k <= A, zi(c) == 0)))
        for loc, e, c in seqs:
            nm = E.locname(loc)
            n = zi(E.seq_n(c))
            arr = E.seq_arr(c)
            out.append((f'{nm}.len==min(k,|n|)', n == zmin(k, A)))
            # the last n inputs, in order
            out.append((f'{nm}==last', z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < n),
                                                                 z3.Select(arr, J) == inp(k - n + J)))))
            # the last n inputs, rotated
            for loc2, e2, c2 in ints:
                p = zi(c2)
                out.append((f'{nm}==last rotated by {E.locname(loc2)}', z3.ForAll([J], z3.Implies(
                    z3.And(J >= 0, J < n),
                    z3.Select(arr, J) == inp(k - n + z3.If(J >= p, J - p, J - p + n))))))
        out.append(('out.len==skip spec', w.n_out() == z3.If(N > 0, z3.IntVal(0), zmax(z3.IntVal(0), k + N))))
        out.append(('out.at', z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < w.n_out()), w.out_at(J) == inp(J)))))
    else:
        n0 = E.n_out0
        out.append(('out.len grows', w.n_out() == n0 + ctx.it))
        out.append(('out is a prefix', z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < w.n_out()),
                                                                w.out_at(J) == tail_final_at(k, J)))))
        for loc, e, c in ints:
            nm = E.locname(loc)
            L = zmin(k, A)
            t = zi(e) + ctx.it
            out.append((f'{nm} cyc L', zi(c) == z3.If(t >= L, t - L, t)))
            out.append((f'{nm} cyc n', zi(c) == z3.If(t >= A, t - A, t)))
    return out


def drv_tail(E):
    w = E.world = World(E)
    op = new_op(E, 'marcel.op.tail', 'Tail', n_arg=N)
    earlier_session(E, w, op)
    E.set_field(op, 'receiver', w.sink)
    r = expect_kill(E, lambda: call_method(E, op, 'setup', w.env))
    if r != 'ok':
        E.check(z3.And(N == 0, z3.BoolVal(r == 'KillCommandException')), 'tail rejects only n == 0')
        E.cover('rejected')
        return
    E.check(N != 0, 'tail 0 is rejected')
    k = E.k_inputs = feed(E, w, op)
    E.n_out0 = w.n_out()
    call_method(E, op, 'flush', w.env)
    E.check(w.n_out() == tail_final_len(k), 'tail output length')
    E.check(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < w.n_out()), w.out_at(J) == tail_final_at(k, J))),
            'tail output content and order')
    E.check(w.flushes() == 1, 'tail passes end of stream on exactly once')
    E.cover('end')


TASKS = [Task('head', drv_head, candidates=cands_head), Task('tail', drv_tail, candidates=cands_tail)]
