"""Shared contract vocabulary: the ghost environment, the downstream receiver, the input stream."""
import z3

from pyvc.core import *
from pyvc.engine import zi, zb, is_V, is_z3, is_int
from pyvc.interp import Interp

PROGRAM = None


def program():
    global PROGRAM
    if PROGRAM is None:
        import os
        PROGRAM = Program(os.environ.get('VERIF_REPO', '/repo'))
    return PROGRAM


inp = z3.Function('inp', I, V)         # the k-th input of the operator: a tuple or list
J = z3.Int('j')
Q = z3.Int('q')


def tup1(E, v):
    return E.tupV(Seq(items=[v]))


def is_row(v):
    return z3.Or(ty(v) == TAGS['tuple'], ty(v) == TAGS['list'])


def wrapV(E, x):
    """what receive_input does to a value: tuples and lists pass, anything else becomes a 1-tuple"""
    x = E.fromV(x) if is_V(x) else x
    if is_V(x):
        t = tup1(E, x)
        return z3.If(is_row(x), x, t)
    if isinstance(x, LObj):
        return snapshot(E, x)
    if isinstance(x, (tuple, TupSym)):
        return E.toV(x)
    return tup1(E, x)


def snapshot(E, l):
    """the list value with the present content of l"""
    s = E.sym(l.seq)
    n = zi(s.n)
    t = v_list(s.arr, n)
    E.fact(v_arr(t) == s.arr)
    E.fact(vlen(t) == n)
    E.fact(ty(t) == TAGS['list'])
    E.fact(truthy(t) == (n > 0))
    return t


class World:
    """Ghost environment + ghost downstream receiver."""

    def __init__(self, E, inputs=True, track=False):
        self.E = E
        self.src = None
        if track:
            self.src = E.new_list([])
            E.gset('src', self.src)
            E.assume(z3.ForAll([J], i_val(v_int(J)) == J, patterns=[v_int(J)]))
        E.gset('flushes', 0)
        self.out = E.new_list([])
        self.errs = E.new_list([])
        E.gset('out', self.out)
        E.gset('errs', self.errs)
        if inputs:
            E.assume(z3.ForAll([J], is_row(inp(J)), patterns=[inp(J)]))
            E.assume(ty(VNone) == 0)
        w = self

        def receive_input(E, a, k):
            E.check(zi(E.gget('flushes')) == 0, 'no output after end of stream')
            E.set_seq(w.out, E.seq_append(E.sym(w.out.seq), wrapV(E, a[1])))
            if w.src is not None:
                cur = E.kcur if getattr(E, 'kcur', None) is not None else z3.IntVal(-1)
                E.set_seq(w.src, E.seq_append(E.sym(w.src.seq), v_int(cur)))

        def receive_error(E, a, k):
            E.check(zi(E.gget('flushes')) == 0, 'no error after end of stream')
            E.set_seq(w.errs, E.seq_append(E.sym(w.errs.seq), v_int(zi(E.seq_n(w.out.seq)))))

        def flush(E, a, k):
            E.gset('flushes', E.gget('flushes') + 1)

        self.sink = NObj('downstream', {'receive_input': receive_input, 'receive_error': receive_error, 'flush': flush})
        self.env = self.make_env(E)

    def make_env(self, E):
        trace = NObj('trace', {'is_enabled': lambda E, a, k: False, 'write': lambda E, a, k: None})
        env = NObj('env', {
            'set_function_globals': lambda E, a, k: None,
            'setattr': lambda E, a, k: None,
            'api_usage': lambda E, a, k: E.fresh_bool('api'),
        }, {'trace': trace, 'workspace': NObj('workspace', {}, {'namespace': NObj('namespace', {})})})
        return env

    def src_at(self, j):
        """index of the input during which output j was sent"""
        return i_val(z3.Select(self.E.seq_arr(self.src.seq), j))

    def n_src(self):
        return zi(self.E.seq_n(self.src.seq))

    def n_errs(self):
        return zi(self.E.seq_n(self.errs.seq))

    def err_at(self, j):
        """v_int of the number of outputs that preceded error j"""
        return z3.Select(self.E.seq_arr(self.errs.seq), j)

    def n_out(self):
        return zi(self.E.seq_n(self.out.seq))

    def out_at(self, j):
        return z3.Select(self.E.seq_arr(self.out.seq), j)

    def flushes(self):
        return zi(self.E.gget('flushes'))


def new_op(E, module, cls, **fields):
    m = E.get_module(module)
    c = E.module_attr(m, cls)
    op = E.call(c, [])
    for f, v in fields.items():
        if f not in op.fields:
            raise Unsupported(f'{cls} has no attribute {f}')
        E.set_field(op, f, v)
    op.given = set(fields)
    return op


def fn_init(E):
    # the display string of a function: no effect
    E.vmethods['snippet'] = lambda E, v: Native('snippet', lambda E, a, k: 'snippet')
    E.vmethods['source'] = lambda E, v: 'source'


def user_fn(name):
    """an arbitrary user function, as an opaque callable value"""
    return z3.Const(name, V)


def call_method(E, o, name, *args):
    return E.call(E.getattr(o, name), list(args))


def feed(E, w, op, where='stream'):
    """while more input: op.receive_input(env, inp(k)).  Returns the number of inputs (arbitrary)."""
    def cond(it):
        return E.choose(2) == 0

    def body(it):
        E.kcur = it
        E.n_out_k = w.n_out()
        call_method(E, op, 'receive_input', w.env, inp(it))
        E.kcur = None
    E.kcur = None
    return E.cut_loop(where, cond, body, it_name='k')


def is_wrap(o, x):
    """o is the row made of the value x"""
    return z3.If(is_row(x), o == x, z3.And(ty(o) == TAGS['tuple'], vlen(o) == 1, vget(o, 0) == x))


def tuple_pack(x):
    """the argument pack of f(*x)"""
    return v_tup(v_arr(x), vlen(x))


def expect_kill(E, f):
    """run f; returns 'ok' or the name of the exception class raised"""
    try:
        f()
        return 'ok'
    except PyRaise as e:
        return e.exc.cls.name if isinstance(e.exc, HObj) else '?'


class Task:
    def __init__(self, name, driver, contracts=None, candidates=None, min_obligations=1, **kw):
        self.name = name
        self.driver = driver
        self.contracts = contracts or {}
        self.candidates = candidates
        self.min_obligations = min_obligations
        self.kw = kw


def run_task(task):
    """-> dict with status and details.  If the first attempt is undecided, a second one also puts every undecided
    query to a solver of its own."""
    r = run_task_once(task, task.kw.get('use_fresh', False))
    undecided = r['status'] == 'out-of-reach' and 'gave up' in r['reason'] or r['status'] == 'failed' and \
        not any(o['status'] == 'refuted' for o in r['obligations'])
    if undecided and not task.kw.get('use_fresh', False):
        r2 = run_task_once(task, True)
        r2['wall_s'] = round(r2['wall_s'] + r['wall_s'], 2)
        if r2['status'] == 'proved' or r['status'] == 'out-of-reach':
            r = r2
    return r


def run_task_once(task, use_fresh):
    import time
    t0 = time.time()
    kw = dict(task.kw)
    kw['use_fresh'] = use_fresh
    init = kw.pop('init', None)
    E = Interp(program(), contracts=task.contracts, candidates=task.candidates, name=task.name, **kw)
    if init:
        init(E)
    r = {'task': task.name, 'obligations': [], 'status': None, 'reason': None}
    try:
        obs = E.explore(task.driver)
        byl = {}
        for o in obs:
            d = byl.setdefault(o.label, {'label': o.label, 'n': 0, 'proved': 0, 'status': 'proved', 'detail': None,
                                         'ms': 0, 'backends': set()})
            d['n'] += 1
            d['ms'] += o.ms
            if o.status == 'proved':
                d['proved'] += 1
                d['backends'].add(o.backend)
            else:
                if d['status'] == 'proved' or o.status == 'refuted':
                    d['status'] = o.status
                    d['detail'] = o.detail
        for d in byl.values():
            d['backends'] = sorted(d['backends'])
            r['obligations'].append(d)
        bad = [d for d in r['obligations'] if d['status'] != 'proved']
        covers = E.labels_reached
        if len(r['obligations']) < task.min_obligations or E.completed == 0:
            r['status'], r['reason'] = 'vacuous', f'{len(r["obligations"])} obligations, {E.completed} complete paths'
        elif not covers:
            r['status'], r['reason'] = 'vacuous', 'no reachable end of a path'
        elif bad:
            r['status'] = 'failed'
            r['reason'] = '; '.join(f'{d["label"]}: {d["status"]}' for d in bad)
        else:
            r['status'] = 'proved'
        r['covers'] = dict(covers)
        r['completed_paths'] = E.completed
        r['invariants'] = sum(1 for _ in E.loops)
    except Unsupported as e:
        r['status'], r['reason'] = 'out-of-reach', f'unsupported: {e}'
    except GaveUp as e:
        r['status'], r['reason'] = 'out-of-reach', f'gave up: {e}'
    except RecursionError as e:
        r['status'], r['reason'] = 'out-of-reach', 'recursion'
    except Exception as e:
        import traceback
        r['status'], r['reason'] = 'out-of-reach', f'engine error: {type(e).__name__}: {e}'
        r['trace'] = traceback.format_exc()
    r['functions'] = sorted(E.functions)
    r['stats'] = {k: (round(v, 3) if isinstance(v, float) else v) for k, v in E.stats.items()}
    r['wall_s'] = round(time.time() - t0, 2)
    return r


# ----------------------------------------------------------------------------------------- reusable pieces

def forall_in(n, body, lo=0):
    """forall j in [lo, n): body(j)"""
    return z3.ForAll([J], z3.Implies(z3.And(J >= lo, J < n), body(J)))


def cand_seq(E, ctx, spec_at, tag, only=None, off=None):
    """for every modified list: its elements are spec_at(0), spec_at(1), ..."""
    out = []
    for loc, e, c in ctx.seqs():
        if only is not None and not only(loc):
            continue
        n, arr = zi(E.seq_n(c)), E.seq_arr(c)
        out.append((f'{E.locname(loc)}[j]=={tag}', forall_in(n, lambda j: z3.Select(arr, j) == spec_at(j))))
    return out


def cand_len(E, ctx, n_spec, tag):
    out = []
    for loc, e, c in ctx.seqs():
        out.append((f'{E.locname(loc)}.len=={tag}', zi(E.seq_n(c)) == n_spec))
    return out


def no_candidates(E, ctx):
    return []


inp0 = z3.Function('inp0', I, V)        # inputs of an earlier run of the same operator object


def null_sink():
    nop = lambda E, a, k: None
    return NObj('earlier downstream', {'receive_input': nop, 'receive_error': nop, 'flush': nop})


def earlier_session(E, w, op, setup=None, n=None):
    """Optionally (n: 0 no, 1 completed, 2 abandoned; None any of these), an earlier run of the same operator object with arbitrary input, completed or abandoned at an
    arbitrary point.  Its output is irrelevant; what it leaves in the operator must not affect the run under proof."""
    n = E.choose(3) if n is None else n
    if n == 0:
        return
    E.assume(z3.ForAll([J], is_row(inp0(J)), patterns=[inp0(J)]))
    saved, E.candidates = E.candidates, getattr(E, 'earlier_candidates', None) or no_candidates
    E.set_field(op, 'receiver', null_sink())
    try:
        try:
            if setup:
                setup(E, op)
            else:
                call_method(E, op, 'setup', w.env)

            def body(it):
                call_method(E, op, 'receive_input', w.env, inp0(it))
            E.cut_loop('earlier stream', lambda it: E.choose(2) == 0, body, it_name='k0')
            if n == 1:
                call_method(E, op, 'flush', w.env)
        except PyRaise:
            pass
        try:
            call_method(E, op, 'cleanup')
        except PyRaise:
            pass
    finally:
        E.candidates = saved
    E.gset('flushes', 0)
    E.set_seq(w.out, Seq(items=[]))
    E.set_seq(w.errs, Seq(items=[]))
    if w.src is not None:
        E.set_seq(w.src, Seq(items=[]))


def arbitrary_state(E, op):
    """As after earlier runs, over-approximated: every attribute of op that its class assigns outside __init__ (directly,
    augmented or through a container) has an arbitrary value.  Only an operator which gives these values before it uses
    them satisfies its contract from here."""
    import ast
    names = set()

    def targets(t):
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
            names.add(t.attr)
        for x in getattr(t, 'elts', []):
            targets(x)
    for f in op.cls.node.body:
        if isinstance(f, ast.FunctionDef) and f.name != '__init__':
            for n in ast.walk(f):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(
                        n, (ast.AugAssign, ast.AnnAssign, ast.For)) else []:
                    targets(t)
    for f, v in list(op.fields.items()):
        if f in names:
            E.set_field(op, f, E.fresh_V(f))
        elif isinstance(v, (LObj, DObj, SObj, HObj)) and f not in op.given:
            raise Unsupported(f'{f} is created by __init__ and never replaced')


# --- sorting: list.sort / sorted are trusted to be what the language reference says: a stable sort

klt = z3.Function('lt', V, V, B)        # the < of key values
P1, P2 = z3.Ints('p1 p2')


def key_array(E, f, n, getter):
    """the values of f on getter(0), ..., getter(n - 1), as an array; f must not branch or have effects"""
    j = E.fresh_int('j')
    before, npc = len(E.taken), len(E.pc)
    rec = {'hmark': E.noid, 'writes': {}}
    E.recorders.append(rec)
    E.solver.push()
    try:
        E.assume(z3.And(j >= 0, j < n))
        v = E.toV(E.call(f, [getter(j)]))
    finally:
        E.recorders.remove(rec)
    if len(E.taken) != before or [x for x in rec['writes'] if x[0] != 'L']:
        raise Unsupported('effects or case splits in a key function')
    hyp = E.pc[npc + 1:]
    E.solver.pop()
    del E.pc[npc:]
    del E.pcids[npc:]
    for h in hyp:
        E.known.discard(h.get_id())
        if z3.is_quantifier(h):
            E.assume(h)
    i = z3.Int('i')
    arr = E.fresh('keys', AIV)
    body = z3.And(z3.Select(arr, i) == z3.substitute(v, (j, i)),
                  *[z3.substitute(h, (j, i)) for h in hyp if not z3.is_quantifier(h)])
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), body), patterns=[z3.Select(arr, i)]))
    return arr


def sort_contract(E, l, key, reverse):
    s = E.sym(l.seq)
    how = E.choose(3)
    if how == 1:
        # incomparable elements
        E.raise_py(TypeError, 'not comparable')
    if key is not None and how == 2:
        m = E.fresh_int('m')
        E.assume(z3.And(m >= 0, m < s.n))
        E.call(key, [E.seq_get(s, m)])      # only the paths on which this raises continue
        raise PathEnd()
    if how == 2:
        raise PathEnd()
    if isinstance(reverse, bool) and reverse:
        less = lambda a, b: klt(b, a)
    elif reverse is False:
        less = klt
    else:
        raise Unsupported('sort with a computed reverse flag')
    if key is None:
        keys = s.arr
    else:
        saved, E.total_functions = getattr(E, 'total_functions', False), True
        try:
            keys = key_array(E, key, s.n, lambda j: E.fromV(z3.Select(s.arr, j)))
        finally:
            E.total_functions = saved
    E.nperm = getattr(E, 'nperm', 0) + 1
    perm = z3.Function(f'perm{E.noid}', I, I)
    r = E.fresh('sorted', AIV)
    n = zi(s.n)
    E.assume(z3.ForAll([P1], z3.Implies(z3.And(P1 >= 0, P1 < n),
                                        z3.And(perm(P1) >= 0, perm(P1) < n,
                                               z3.Select(r, P1) == z3.Select(s.arr, perm(P1)))),
                       patterns=[z3.Select(r, P1), perm(P1)]))
    E.assume(z3.ForAll([P1, P2], z3.Implies(z3.And(P1 >= 0, P1 < P2, P2 < n), z3.And(
        perm(P1) != perm(P2),
        z3.Not(less(z3.Select(keys, perm(P2)), z3.Select(keys, perm(P1)))),
        z3.Or(less(z3.Select(keys, perm(P1)), z3.Select(keys, perm(P2))), perm(P1) < perm(P2)))),
        patterns=[z3.MultiPattern(perm(P1), perm(P2))]))
    E.set_seq(l, Seq(arr=r, n=n))
    E.perm = perm


def unw(x):
    """unwrap_op_output of a row"""
    return z3.If(vlen(x) == 1, z3.Select(v_arr(x), 0), x)


class RecFn:
    """A ghost function defined by recursion over the naturals: f(0) = base, f(i + 1) = step(i, f(i)).
    Instances of the recursion are provided on demand (they are true by definition)."""
    n = 0

    def __init__(self, E, name, sort, base, step):
        RecFn.n += 1
        self.E, self.base, self.step = E, base, step
        self.f = z3.Function(name, I, sort)

    def __call__(self, i):
        return self.f(zi(i))

    def unroll(self, i, around=1):
        E = self.E
        E.fact(self.f(z3.IntVal(0)) == self.base)
        i = zi(i)
        for d in range(-around, around + 1):
            a = z3.simplify(i + d)
            E.fact(z3.Implies(a >= 0, self.f(z3.simplify(a + 1)) == self.step(a, self.f(a))))
        E.fact(self.f(z3.simplify(i)) == self.f(i))


class RecFn2(RecFn):
    """as RecFn, with a parameter: f(x, 0) = base(x), f(x, i + 1) = step(x, i, f(x, i)), for all x (of sort V)"""

    def __init__(self, E, name, sort, base, step):
        self.E, self.base, self.step = E, base, step
        self.f = z3.Function(name, V, I, sort)

    def __call__(self, x, i):
        return self.f(x, zi(i))

    def unroll(self, i, around=1):
        E = self.E
        x = z3.Const('x', V)
        E.fact(z3.ForAll([x], self.f(x, 0) == self.base(x), patterns=[self.f(x, 0)]))
        i = zi(i)
        for d in range(-around, around + 1):
            a = z3.simplify(i + d)
            b = z3.simplify(a + 1)
            E.fact(z3.ForAll([x], z3.Implies(a >= 0, self.f(x, b) == self.step(x, a, self.f(x, a))),
                             patterns=[self.f(x, a), self.f(x, b)]))


class RecFnN:
    """A ghost function with parameters, defined by recursion over its last argument: f(xs, 0) = base(*xs),
    f(xs, i + 1) = step(*xs, i, f(xs, i)), for all xs."""

    def __init__(self, E, name, sorts, sort, base, step):
        self.E, self.base, self.step, self.sorts = E, base, step, sorts
        self.f = z3.Function(name, *sorts, I, sort)

    def __call__(self, *a):
        return self.f(*[zi(x) if s == I else x for x, s in zip(a, self.sorts + [I])])

    def unroll(self, i, around=1):
        E = self.E
        xs = [z3.Const(f'x{n}', s) for n, s in enumerate(self.sorts)]
        z = z3.IntVal(0)
        E.fact(z3.ForAll(xs, self.f(*xs, z) == self.base(*xs), patterns=[self.f(*xs, z)]))
        i = zi(i)
        for d in range(-around, around + 1):
            a = z3.simplify(i + d)
            b = z3.simplify(a + 1)
            E.fact(z3.ForAll(xs, z3.Implies(a >= 0, self.f(*xs, b) == self.step(*xs, a, self.f(*xs, a))),
                             patterns=[self.f(*xs, a), self.f(*xs, b)]))


def pack2(E, a, b):
    """the argument pack of f(a, b)"""
    return E.tupV(Seq(items=[a, b]))


def rawpack2(a, b):
    """the argument pack of f(a, b), as a term"""
    return v_tup(z3.Store(z3.Store(z3.K(I, VNone), 0, a), 1, b), z3.IntVal(2))
