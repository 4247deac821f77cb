"""case, args, gen: contracts over an arbitrary input stream.

case: the pipelines are observers which turn each row x they receive into the row po(p, x) and output pe(p) at their end,
po and pe being arbitrary, so that what case outputs shows which pipeline received which row, and when.
args: the pipeline, run with values b bound to its parameters, outputs the rows ro(b, 0), ..., ro(b, NO(b) - 1)."""
from .common import *
from .c_rows import apply_, raises_

po = z3.Function('po', I, V, V)
pe = z3.Function('pe', I, V)


class Stage(NObj):
    def __init__(self, E, p, ops=()):
        m = E.get_module('marcel.pipeline')
        super().__init__(f'pipeline {p}', {
            'append_immutable': lambda E, a, k: Stage(E, p, tuple(ops) + (a[0],)),
            'setup': lambda E, a, k: [call_method(E, o, 'setup', a[0]) for o in ops] and None,
            'cleanup': lambda E, a, k: [call_method(E, o, 'cleanup') for o in ops] and None,
            'parameters': lambda E, a, k: (),
            'ensure_functions_compiled': lambda E, a, k: None,
            'receive': lambda E, a, k: self.receive(E, a[0], a[1]),
            'flush': lambda E, a, k: self.flush(E, a[0]),
        }, {'type': E.module_attr(m, 'PipelineMarcel')})
        self.p, self.ops = p, tuple(ops)

    def receive(self, E, env, x):
        if not self.ops:
            raise Unsupported('the output of a pipeline goes nowhere')
        call_method(E, self.ops[0], 'receive_input', env, po(z3.IntVal(self.p), E.toV(x)))

    def flush(self, E, env):
        if not self.ops:
            raise Unsupported('the output of a pipeline goes nowhere')
        call_method(E, self.ops[0], 'receive_input', env, pe(z3.IntVal(self.p)))
        call_method(E, self.ops[0], 'flush', env)


class Case:
    """n predicates, with or without a default"""

    def pred(self, q, i):
        return truthy(apply_(self.f[q], tuple_pack(inp(i))))

    def bad(self, q, i):
        return raises_(self.f[q], tuple_pack(inp(i)))

    def fails(self, i):
        r = z3.BoolVal(False)
        for q in reversed(range(self.n)):
            r = z3.Or(self.bad(q, i), z3.And(z3.Not(self.pred(q, i)), r))
        return r

    def ok(self, i):
        return z3.And(z3.Not(self.fails(i)), z3.BoolVal(True) if self.default else z3.Or(
            *[self.pred(q, i) for q in range(self.n)]))

    def row(self, i):
        r = po(z3.IntVal(self.n), inp(i))
        for q in reversed(range(self.n)):
            r = z3.If(self.pred(q, i), po(z3.IntVal(q), inp(i)), r)
        return r

    def spec(self, E, w, k):
        F, G = E.F, E.G
        return [
            ('number of outputs', w.n_out() == F(k)),
            ('number of errors', w.n_errs() == G(k)),
            ('outputs', forall_in(k, lambda j: z3.Implies(self.ok(j), z3.And(
                F(j) >= 0, F(j) < F(k), w.out_at(F(j)) == self.row(j))))),
            ('errors', forall_in(k, lambda j: z3.Implies(self.fails(j), z3.And(
                G(j) >= 0, G(j) < w.n_errs(), w.err_at(G(j)) == v_int(F(j)))))),
        ]

    def cands(self, E, ctx):
        if ctx.where != 'stream':
            return []
        E.F.unroll(ctx.it)
        E.G.unroll(ctx.it)
        return self.spec(E, E.world, ctx.it) + [('some', E.F(ctx.it) >= 0)]

    def __init__(self, n, default):
        self.n, self.default = n, default
        self.f = [user_fn(f'pred{q}') for q in range(n)]

    def drv(self, E):
        w = E.world = World(E)
        E.F = RecFn(E, 'routed', I, z3.IntVal(0), lambda i, f: f + z3.If(self.ok(i), 1, 0))
        E.G = RecFn(E, 'failed', I, z3.IntVal(0), lambda i, f: f + z3.If(self.fails(i), 1, 0))
        x, p = z3.Const('x', V), z3.Int('p')
        E.assume(z3.ForAll([p, x], is_row(po(p, x)), patterns=[po(p, x)]))
        E.assume(z3.ForAll([p], is_row(pe(p)), patterns=[pe(p)]))
        args = []
        for q in range(self.n):
            E.assume(truthy(self.f[q]))
            E.assume(ty(self.f[q]) == TAGS['function'])
            args += [self.f[q], Stage(E, q)]
        if self.default:
            args.append(Stage(E, self.n))
        op = new_op(E, 'marcel.op.case', 'Case', args=E.new_list(args))

        def setup(E, op):
            call_method(E, op, 'ensure_functions_compiled', w.env)
            call_method(E, op, 'setup', w.env)
            call_method(E, op, 'customize_pipelines', w.env)
        earlier_session(E, w, op, setup)
        E.set_field(op, 'receiver', w.sink)
        setup(E, op)
        k = feed(E, w, op)
        E.F.unroll(k)
        E.G.unroll(k)
        n = w.n_out()
        call_method(E, op, 'flush', w.env)
        lab = {'number of errors': 'case: one error per row on which a predicate fails',
               'outputs': 'case: each row goes to the pipeline of the first true predicate, else to the default',
               'errors': 'case: each error is reported in the position of its row'}
        for a, f in self.spec(E, w, k):
            if a in lab:
                E.check(f, lab[a])
        E.check(n == E.F(k), 'case: a row goes to one pipeline at most')
        np = self.n + self.default
        E.check(w.n_out() == n + np, 'case: each pipeline receives end of stream once')
        E.check(z3.And(*[w.out_at(n + q) == pe(z3.IntVal(q)) for q in range(np)]), 'case: output of the pipelines at end of stream')
        E.check(w.flushes() == 1, 'case passes end of stream on exactly once')
        call_method(E, op, 'cleanup')
        E.cover('end')


TASKS = []
for n in (1, 2, 3):
    for d in (False, True):
        t = Case(n, d)
        TASKS.append(Task(f'case-{n}{"-default" * d}', t.drv, candidates=t.cands, init=fn_init))


# --- args

po1 = z3.Function('po1', V, V)          # what the pipeline outputs when run with these values


def packn(vs):
    a = z3.K(I, VNone)
    for j, v in enumerate(vs):
        a = z3.Store(a, j, v)
    return v_tup(a, z3.IntVal(len(vs)))


class Runner(NObj):
    """the pipeline of args: has n parameters"""

    def __init__(self, E, n, ops=()):
        m = E.get_module('marcel.pipeline')
        names = tuple(f'p{j}' for j in range(n))

        def run(E, a, k):
            if not ops:
                raise Unsupported('the output of a pipeline goes nowhere')
            b = a[1]
            if not isinstance(b, DObj):
                raise Unsupported('bindings')
            vs = []
            for p in names:
                found, v = E.dict_get(b, p)
                E.check(z3.BoolVal(found), 'args: every parameter of the pipeline is bound')
                vs.append(snapshot(E, v) if isinstance(v, LObj) else E.toV(v))
            E.bound = vs
            call_method(E, ops[0], 'setup', a[0])
            call_method(E, ops[0], 'receive_input', a[0], po1(packn(vs)))
            call_method(E, ops[0], 'flush', a[0])
            call_method(E, ops[0], 'cleanup')
        super().__init__('pipeline', {
            'append_immutable': lambda E, a, k: Runner(E, n, tuple(ops) + (a[0],)),
            'setup': lambda E, a, k: None,
            'cleanup': lambda E, a, k: None,
            'parameters': lambda E, a, k: names,
            'run_pipeline': run,
        }, {'type': E.module_attr(m, 'PipelineMarcel')})


class Args:
    def __init__(self, n, all=False):
        self.n, self.all = n, all

    def batch(self, b, k):
        """the values of batch b when there are k inputs"""
        n = self.n
        return packn([z3.If(b * n + j < k, unw(inp(b * n + j)), VNone) for j in range(n)])

    def spec(self, E, w, k):
        if self.all:
            return [('no output', w.n_out() == 0)]
        b = k / self.n
        return [('number', w.n_out() == b),
                ('rows', forall_in(b, lambda j: w.out_at(j) == po1(packn(
                    [unw(inp(j * self.n + q)) for q in range(self.n)]))))]

    def cands(self, E, ctx):
        it, n = ctx.it, self.n
        out = []
        if ctx.where == 'stream':
            out += self.spec(E, E.world, it)
            for loc, e, c in ctx.seqs():
                m, a = zi(E.seq_n(c)), E.seq_arr(c)
                name = E.locname(loc)
                if self.all:
                    out.append((f'{name}.len', m == it))
                    out.append((f'{name}[j]', forall_in(it, lambda j: z3.Select(a, j) == unw(inp(j)))))
                else:
                    r = it % n
                    out.append((f'{name}.len', m == r))
                    out += [(f'{name}[{q}]', z3.Implies(q < r, z3.Select(a, q) == unw(inp(it - r + q)))) for q in range(n)]
        elif ctx.where.endswith('Args.flush'):
            for loc, e, c in ctx.seqs():
                m, a = zi(E.seq_n(c)), E.seq_arr(c)
                m0, a0 = zi(E.seq_n(e)), E.seq_arr(e)
                out.append((f'{E.locname(loc)}.len', z3.And(m == m0 + it, m <= n)))
                out += [(f'{E.locname(loc)}[{q}]', z3.Implies(q < m, z3.Select(a, q) == z3.If(
                    q < m0, z3.Select(a0, q), VNone))) for q in range(n)]
        return out

    def drv(self, E):
        w = E.world = World(E)
        E.bound = None
        x = z3.Const('x', V)
        E.assume(z3.ForAll([x], is_row(po1(x)), patterns=[po1(x)]))
        op = new_op(E, 'marcel.op.args', 'Args', pipeline=Runner(E, self.n), all=self.all)

        def setup(E, op):
            call_method(E, op, 'setup', w.env)
            call_method(E, op, 'customize_pipelines', w.env)
        setup(E, op)
        arbitrary_state(E, op)
        E.set_field(op, 'pipeline', Runner(E, self.n))
        E.set_field(op, 'receiver', w.sink)
        setup(E, op)
        k = feed(E, w, op)
        call_method(E, op, 'flush', w.env)
        if self.all:
            E.check(w.n_out() == z3.If(k > 0, z3.IntVal(1), z3.IntVal(0)), 'args --all runs the pipeline once, if there is input')
            if E.bound is None:
                E.check(k == 0, 'args --all runs the pipeline unless there is no input')
            else:
                v = E.bound[0]
                E.check(w.out_at(0) == po1(packn([v])), 'args --all passes on the output of the pipeline')
                E.check(z3.And(k > 0, ty(v) == TAGS['list'], vlen(v) == k, forall_in(k, lambda j: vget(v, j) == unw(inp(j)))),
                        'args --all binds the list of all inputs, in order')
        else:
            b = k / self.n
            for a, f in self.spec(E, w, k)[1:]:
                E.check(f, 'args runs the pipeline on each n consecutive inputs, in order')
            E.check(w.n_out() == z3.If(k % self.n == 0, b, b + 1), 'args runs the pipeline once per n inputs, and for the rest')
            E.check(z3.Implies(k % self.n != 0, w.out_at(b) == po1(self.batch(b, k))),
                    'args binds None to the parameters for which there is no input left')
        E.check(w.flushes() == 1, 'args passes end of stream on exactly once')
        E.cover('end')


for n in (1, 2, 3):
    t = Args(n)
    TASKS.append(Task(f'args-{n}', t.drv, candidates=t.cands))
t = Args(1, True)
TASKS.append(Task('args-all', t.drv, candidates=t.cands))


# --- gen

N, S = z3.Ints('n s')


def drv_gen(E):
    w = E.world = World(E, inputs=False)
    op = new_op(E, 'marcel.op.gen', 'Gen', count_arg=N, start_arg=S)
    if E.choose(2):
        # run before
        E.set_field(op, 'receiver', null_sink())
        call_method(E, op, 'setup', w.env)
        arbitrary_state(E, op)
        E.set_field(op, 'format', None)

    def receive_input(E, a, k):
        n = w.n_out()
        E.check(z3.And(z3.Or(N == 0, n < N)), 'gen: no more than COUNT rows, unless COUNT is 0')
        x = wrapV(E, a[1])
        E.check(z3.And(ty(x) == TAGS['tuple'], vlen(x) == 1, vget(x, 0) == E.toV(S + n)), 'gen: row i is START + i')
        E.set_seq(w.out, E.seq_append(E.sym(w.out.seq), x))
        E.cover('row')
    sink = NObj('downstream', {'receive_input': receive_input, 'flush': w.sink.methods['flush']})
    E.set_field(op, 'receiver', sink)
    call_method(E, op, 'setup', w.env)
    call_method(E, op, 'run', w.env)
    E.check(N != 0, 'gen 0 does not end')
    E.check(w.n_out() == z3.If(N > 0, N, z3.IntVal(0)), 'gen outputs COUNT rows')
    E.check(w.flushes() == 0, 'gen leaves end of stream to the pipeline')
    call_method(E, op, 'flush', w.env)
    E.check(w.flushes() == 1, 'gen passes end of stream on exactly once')
    E.cover('end')


def cands_gen(E, ctx):
    w = E.world
    out = [('out', w.n_out() == ctx.it)]
    for loc, e, c in ctx.ints():
        out.append((f'{E.locname(loc)} == start + it', zi(c) == S + ctx.it))
    for loc, e, c in ctx.vals():
        out.append((f'{E.locname(loc)} == start + it', c == v_int(S + ctx.it)))
    return out


TASKS.append(Task('gen', drv_gen, candidates=cands_gen))
