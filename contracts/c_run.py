"""Running a pipeline: marcel.pipeline.PipelineMarcel, PipelineExecutable and the operator which runs the pipeline held by
a variable, marcel.op.runpipeline.RunPipeline.

The operators of the pipeline are probes: instances of marcel.core.Op whose setup, run, receive, flush and cleanup record
the call and the variables they find, and may fail at any of these points."""
from pyvc.engine import SetContent, DictContent
from .common import *
from . import c_ns
from .c_ns import NSWorld, View, same, ns_init, assume_free, X

OP = 'marcel.core.Op'
callable_ = z3.Function('callable', V, B)
FAILURES = ('KillAndResumeException', 'KillCommandException', 'ValueError')


class Fail:
    """at most one failure, at one point"""


class Probes:
    def __init__(self, E, w):
        self.E, self.w = E, w
        self.log = []
        self.failed = None          # (event, tag, class)
        self.can_fail = ()          # the events at which a probe may fail
        self.views = None           # at each event: check what the probe finds

    def new(self, E, tag):
        m = E.get_module('marcel.core')
        op = E.call(E.module_attr(m, 'Op'), [])
        op.fields['tag'] = tag
        return op

    def event(self, E, what, op, x=None):
        tag = op.fields['tag']
        self.log.append((what, tag, op, x))
        if self.views:
            self.views(E, what, tag, op, x)
        if self.failed is None and what in self.can_fail:
            c = E.choose(len(FAILURES) + 1)
            if c:
                self.failed = (what, tag, FAILURES[c - 1])
                self.fail(E, FAILURES[c - 1])

    def fail(self, E, name):
        if name == 'ValueError':
            E.raise_py(ValueError, 'failed')
        cls = E.module_attr(E.get_module('marcel.exception'), name)
        raise PyRaise(E.call(cls, ['failed']))

    def contracts(self):
        return {}

    def names(self):
        return [(e, t) for e, t, op, x in self.log]


def P(E):
    return E.probes


def probe_contracts():
    def m(what):
        def f(E, a, k):
            op = a[0]
            E.probes.event(E, what, op, a[2] if len(a) > 2 else None)
            if what == 'flush':
                call_method(E, op, 'propagate_flush', a[1])
            if what == 'run' or what == 'receive':
                call_method(E, op, 'send', a[1], E.probes.out(op))
        return f
    return {f'{OP}.__repr__': lambda E, a, k: 'probe', **{f'{OP}.{what}': m(what) for what in ('setup', 'run', 'receive', 'flush', 'cleanup')}}


def pipeline(E, probes, n, params):
    m = E.get_module('marcel.pipeline')
    ex = E.call(E.module_attr(m, 'PipelineExecutable'), [])
    for i in range(n):
        call_method(E, ex, 'append', probes.new(E, i))
    call_method(E, ex, 'set_parameters', tuple(params))
    return E.call(E.module_attr(m, 'PipelineMarcel'), [ex, 'source'])


def make(E, n, params):
    w = NSWorld(E)
    assume_free(w, E)
    p = E.probes = Probes(E, w)
    p.outv = {}

    def out(op):
        return E.fresh_V('out')
    p.out = out
    return w, p, pipeline(E, p, n, params)


def run_pipeline(E):
    """PipelineMarcel.run_pipeline, with any bindings; any operator may fail at any point"""
    n = 1 + E.choose(2)
    params = [[], ['p'], ['p', 'q']][E.choose(3)]
    w, p, pl = make(E, n, params)
    b = E.new_dict()
    inside = w.base
    for name in params:
        v = w.value(name)
        E.dict_set(b, name, v)
        inside = inside.with_(name, v)
    if E.choose(2):
        # set up before, as part of a containing pipeline
        call_method(E, pl, 'setup', w.env)
        p.log = []
        early = True
    else:
        early = False
    p.can_fail = ('setup', 'run', 'receive', 'flush', 'cleanup')
    p.views = lambda E, what, tag, op, x: same(
        E, 'while the pipeline runs: parameters bound, other variables as outside', w.d(), inside)
    result = expect_kill(E, lambda: call_method(E, pl, 'run_pipeline', w.env, b))
    seen = p.names()
    E.check(call_method(E, w.ns, 'n_scopes') == 1, 'the scope of the pipeline is gone afterwards, however it ended')
    same(E, 'variables afterwards as before, however it ended', w.d(), w.base)
    same(E, 'parameters are never saved', w.d0(), w.base0)
    setups = [t for e, t in seen if e == 'setup']
    runs = [t for e, t in seen if e == 'run']
    flushes = [t for e, t in seen if e == 'flush']
    cleanups = [t for e, t in seen if e == 'cleanup']
    if p.failed is None:
        E.check(result == 'ok', 'no failure of its own')
        E.check(setups == ([] if early else list(range(n))), 'each operator set up once, in order')
        E.check(flushes == list(range(n)), 'each operator learns of the end of input once, in order')
        E.check(cleanups == list(range(n)), 'each operator cleaned up once')
        E.check(seen.index(('run', 0)) < seen.index(('flush', 0)) < seen.index(('cleanup', 0)), 'run, end of input, cleanup')
    else:
        what, tag, cls = p.failed
        if what in ('setup',):
            E.check(result == ('KillCommandException' if cls == 'KillAndResumeException' else cls),
                    'a failure in setup ends the command')
            E.check(runs == [] and flushes == [], 'nothing runs when setup has failed')
            E.check(cleanups == [t for t in setups if t != tag], 'those set up before the failure are cleaned up')
        elif what == 'receive' and cls == 'KillAndResumeException':
            # skips one row only
            E.check(result == 'ok', 'a failure on one row is not a failure of the pipeline')
            E.check(flushes == list(range(n)), 'the rest of the pipeline goes on')
            E.check(cleanups == list(range(n)), 'each operator cleaned up once')
        else:
            E.check(result == cls, 'a failure is passed on')
            E.check(len(flushes) == len(set(flushes)), 'end of input at most once')
            E.check(what != 'run' or flushes == [], 'no end of input after a failed run')
            E.check(what == 'cleanup' or cleanups == list(range(n)), 'each operator is cleaned up after a failure')
    # and again
    if E.choose(2) and p.failed is not None:
        p.log, p.can_fail = [], ()
        result = expect_kill(E, lambda: call_method(E, pl, 'run_pipeline', w.env, b))
        E.check(result == 'ok', 'the pipeline can be run again after a failure')
        E.check([t for e, t in p.names() if e == 'flush'] == list(range(n)), 'run again: end of input once')
        same(E, 'variables after the second run', w.d(), w.base)
    E.cover('end')


SHAPES = [  # parameters, positional arguments, named arguments
    ('', 0, ''), ('', 1, ''), ('', 0, 'z'), ('p', 0, ''), ('p', 1, ''), ('p', 0, 'p'), ('p', 1, 'p'), ('p', 2, ''),
    ('p', 0, 'z'), ('pq', 0, ''), ('pq', 1, ''), ('pq', 2, ''), ('pq', 1, 'q'), ('pq', 1, 'p'), ('pq', 0, 'q'),
    ('pq', 0, 'qp'), ('pq', 1, 'z'), ('pq', 3, '')]


class Sink:
    def __init__(self, E):
        self.log = []
        self.obj = NObj('receiver', {
            'receive_input': lambda E, a, k: self.log.append(('row', a[1])),
            'receive_error': lambda E, a, k: self.log.append(('error', None)),
            'flush': lambda E, a, k: self.log.append(('flush', None))})


def runner(E, shapes=SHAPES):
    """the operator running variable f, with arguments; -> None if it refuses the arguments"""
    n = 1 + E.choose(2)
    params, nargs, kw = shapes[E.choose(len(shapes))]
    w, p, pl = make(E, n, params)
    w.env.methods['getvar'] = lambda E, a, k: pl
    op = new_op(E, 'marcel.op.runpipeline', 'RunPipeline', var='f')
    args = [w.value(f'arg{i}') for i in range(nargs)]
    kwargs = E.new_dict()
    kwv = {}
    for n_ in kw:
        kwv[n_] = w.value(n_)
        E.dict_set(kwargs, n_, kwv[n_])
    for v in args + list(kwv.values()):
        # functions, which are evaluated first, are the business of another contract
        E.assume(z3.Not(callable_(v)))
    call_method(E, op, 'set_pipeline_args', E.new_list(list(args)), kwargs)
    sink = Sink(E)
    E.set_field(op, 'receiver', sink.obj)
    good = nargs <= len(params) and all(x in params[nargs:] for x in kw)
    result = expect_kill(E, lambda: call_method(E, op, 'setup', w.env))
    if not good:
        E.check(result == 'KillCommandException', 'arguments which do not fit the parameters are refused')
        E.check(p.names() == [], 'nothing runs')
        E.check(call_method(E, w.ns, 'n_scopes') == 1, 'no scope is left')
        same(E, 'refused: variables as before', w.d(), w.base)
        E.cover('refused')
        return None
    if p.failed is None:
        E.check(result == 'ok', 'arguments which fit are accepted')
    inside = w.base
    for i, x in enumerate(params):
        inside = inside.with_(x, args[i] if i < nargs else kwv[x] if x in kwv else E.toV(None))
    p.views = lambda E, what, tag, op, x: same(E, 'the parameters are bound to the arguments', w.d(), inside) \
        if what != 'cleanup' else None
    return w, p, pl, op, sink, n, params


def shared(E, p, pl):
    """the operators of the variable's pipeline are not those which run"""
    ops = E.as_seq(E.getattr(E.getattr(pl, 'executable'), 'ops'))
    mine = [E.seq_get(ops, i) for i in range(E.seq_n(ops))]
    E.check(not any(op is m for e, t, op, x in p.log for m in mine), 'the variable\'s own operators do not run')
    E.check(E.getattr(mine[-1], 'receiver') is None, 'the variable\'s pipeline is not connected')


def run_var(E):
    """a pipeline variable at the head of a pipeline"""
    r = runner(E)
    if r is None:
        return
    w, p, pl, op, sink, n, params = r
    E.check([t for e, t in p.names()] == list(range(n)), 'each operator set up once')
    same(E, 'after setup: variables as before', w.d(), w.base)
    p.log, p.can_fail = [], ('run', 'flush')
    result = expect_kill(E, lambda: (call_method(E, op, 'run', w.env), call_method(E, op, 'flush', w.env)))
    shared(E, p, pl)
    E.check(call_method(E, w.ns, 'n_scopes') == 1, 'no scope is left, however it ended')
    same(E, 'variables afterwards as before, however it ended', w.d(), w.base)
    flushes = [t for e, t in p.names() if e == 'flush']
    if p.failed is None:
        E.check(result == 'ok', 'no failure of its own')
        E.check(flushes == list(range(n)), 'end of input once for each operator')
        E.check([e for e, x in sink.log] == ['row', 'flush'], 'output, then the end, once')
    else:
        E.check(result == p.failed[2], 'a failure is passed on')
        E.check(len(flushes) == len(set(flushes)), 'end of input at most once')
    E.cover('end')


def receive_var(E):
    """a pipeline variable receiving rows"""
    r = runner(E, [('', 0, ''), ('p', 1, ''), ('pq', 1, 'q'), ('p', 0, 'z'), ('p', 2, '')])
    if r is None:
        return
    w, p, pl, op, sink, n, params = r
    p.log, p.can_fail = [], ('receive', 'flush')
    rows = 0
    rec = []

    def row():
        x = z3.Select(z3.Const('rows', AIV), rows)
        E.assume(is_row(x))
        call_method(E, op, 'receive_input', w.env, x)
        rec.append(x)

    def go():
        nonlocal rows
        for i in range(E.choose(3)):
            row()
            rows += 1
        call_method(E, op, 'flush', w.env)
    result = expect_kill(E, go)
    shared(E, p, pl)
    E.check(call_method(E, w.ns, 'n_scopes') == 1, 'no scope is left, however it ended')
    same(E, 'variables afterwards as before, however it ended', w.d(), w.base)
    flushes = [t for e, t in p.names() if e == 'flush']
    first = [x for e, t, o, x in p.log if e == 'receive' and t == 0]
    E.check(all(a is b or (is_z3(a) and a.eq(b)) for a, b in zip(first, rec)), 'the rows arrive, in order')
    if p.failed is None or (p.failed[0] == 'receive' and p.failed[2] == 'KillAndResumeException'):
        E.check(result == 'ok', 'no failure of its own')
        E.check(len(first) == rows, 'every row arrives, also after one has failed')
        E.check(flushes == list(range(n)), 'end of input once for each operator')
        E.check([e for e, x in sink.log] == ['row'] * (rows - (p.failed is not None)) + ['flush'],
                'output for each row, then the end, once')
    else:
        E.check(result == p.failed[2], 'a failure is passed on')
    E.cover('end')


CONTRACTS = {**c_ns.CONTRACTS, **probe_contracts()}
TASKS = [
    Task('run_pipeline', run_pipeline, CONTRACTS, no_candidates, init=ns_init),
    Task('run_var', run_var, CONTRACTS, no_candidates, init=ns_init),
    Task('receive_var', receive_var, CONTRACTS, no_candidates, init=ns_init),
]
