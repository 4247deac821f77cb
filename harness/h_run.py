"""Pipelines of recording operators, which may fail at any point, run by the real PipelineMarcel and RunPipeline."""
import itertools

import marcel.core
import marcel.exception
import marcel.pipeline
from h_ns import new_env
from lib import fail

CLASSES = {'resume': marcel.exception.KillAndResumeException, 'kill': marcel.exception.KillCommandException,
           'value': ValueError}
EVENTS = ('setup', 'run', 'receive', 'flush', 'cleanup')


class Log:
    """shared by copies of an operator"""

    def __init__(self):
        self.items = []

    def append(self, x):
        self.items.append(x)

    def pop(self):
        return self.items.pop()

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def clear(self):
        del self.items[:]

    def __repr__(self):
        return repr(self.items)


def times(k):
    t = Log()
    for _ in range(k):
        t.append(0)
    return t


class Boom(marcel.core.Op):

    def __init__(self, tag=None, log=None, boom=None, rows=3):
        super().__init__()
        self.tag, self.log, self.boom, self.rows = tag, log, boom, rows

    def __repr__(self):
        return f'boom({self.tag})'

    def event(self, env, what):
        self.log.append((what, self.tag, None if env is None else (env.getvar('p'), env.getvar('q'), env.getvar('x'))))
        if self.boom and self.boom[0] == what and self.boom[1] == self.tag and self.boom[3]:
            self.boom[3].pop()
            if not self.boom[3]:
                raise CLASSES[self.boom[2]]('boom')

    def setup(self, env):
        self.event(env, 'setup')

    def run(self, env):
        self.event(env, 'run')
        for i in range(self.rows):
            self.send(env, i)

    def receive(self, env, x):
        self.event(env, 'receive')
        self.send(env, x)

    def flush(self, env):
        self.event(env, 'flush')
        self.propagate_flush(env)

    def cleanup(self):
        self.event(None, 'cleanup')


def pipeline(n, params, log, boom):
    pe = marcel.pipeline.PipelineExecutable()
    for i in range(n):
        pe.append(Boom(i, log, boom))
    pe.set_parameters(tuple(params))
    return marcel.pipeline.PipelineMarcel(pe, 'source')


class _Run:
    BOUNDS = '1..3 operators, 0..2 parameters, one failure: any operator, any event, 3 classes, 1st to 3rd time; run again afterwards'

    def cases(self, hints, tier):
        for n in (1, 2, 3):
            for params in ('', 'p', 'pq'):
                for early in (False, True):
                    yield ('run', n, params, early, None)
                    for tag in range(n):
                        for e in EVENTS:
                            for c in CLASSES:
                                for nth in ((1, 2, 3) if e == 'receive' else (1,)):
                                    yield ('run', n, params, early, (e, tag, c, nth))

    def check(self, case):
        _, n, params, early, boom = case
        env = new_env()
        env.setvar('p', 'P')
        env.setvar('x', 'X')
        log = Log()
        boom_ = boom and [boom[0], boom[1], boom[2], times(boom[3])]
        pl = pipeline(n, params, log, boom_)
        b = {x: x + '1' for x in params}
        inside = (b.get('p', 'P'), b.get('q'), 'X')
        if early and not (boom and boom[0] == 'setup'):
            pl.setup(env)
            log.clear()
            # (the setup made here saw the variables outside)
        else:
            early = False
        for attempt in (1, 2):
            failing = attempt == 1 and boom_ and bool(boom_[3])
            try:
                pl.run_pipeline(env, dict(b))
                r = 'ok'
            except BaseException as e:
                r = type(e).__name__
            fired = failing and not boom_[3]
            what = f'{case}, run {attempt}: '
            if env.vars().n_scopes() != 1:
                return fail(what + '1 scope left', env.vars().n_scopes())
            if (env.getvar('p'), env.hasvar('q'), env.getvar('x')) != ('P', False, 'X'):
                return fail(what + 'variables as before', (env.getvar('p'), env.hasvar('q'), env.getvar('x')))
            for e, t, v in log:
                if v is not None and v != inside:
                    return fail(what + f'{e} of operator {t} finds {inside}', v)
            ev = [(e, t) for e, t, v in log]
            flushes = [t for e, t in ev if e == 'flush']
            cleanups = [t for e, t in ev if e == 'cleanup']
            receives = [t for e, t in ev if e == 'receive']
            if len(flushes) != len(set(flushes)):
                return fail(what + 'end of input at most once', ev)
            if not fired or (boom[0] == 'receive' and boom[2] == 'resume'):
                if r != 'ok' or flushes != list(range(n)) or cleanups != list(range(n)):
                    return fail(what + 'ok; every operator is told of the end of input and cleaned up', (r, ev))
                lost = [t for t in range(1, n) for _ in range(1) if fired and t > boom[1]]
                for t in range(1, n):
                    if receives.count(t) != 3 - (t in lost):
                        return fail(what + f'operator {t} receives every row but the failed one', ev)
            elif boom[0] == 'setup':
                want = 'KillCommandException' if boom[2] in ('resume', 'kill') else 'ValueError'
                if r != want or [e for e, t in ev if e not in ('setup', 'cleanup')] or cleanups != list(range(boom[1])):
                    return fail(what + f'{want}, nothing runs, operators set up before are cleaned up', (r, ev))
            else:
                if r != CLASSES[boom[2]].__name__:
                    return fail(what + f'{CLASSES[boom[2]].__name__} is passed on', (r, ev))
                if boom[0] != 'cleanup' and cleanups != list(range(n)):
                    return fail(what + 'cleanup of every operator', ev)
                if boom[0] in ('run', 'receive') and flushes:
                    return fail(what + 'no end of input after the failure', ev)
            log.clear()
        return None


run = _Run()


class _Var:
    BOUNDS = 'the operator running a pipeline variable, first and later in a pipeline; 2 uses of the variable in one command; failures as for run'

    def cases(self, hints, tier):
        for params, args, kw in (('', 0, ''), ('p', 1, ''), ('pq', 1, 'q'), ('pq', 0, 'q'), ('pq', 2, ''), ('p', 0, 'z'),
                                 ('p', 2, ''), ('pq', 1, 'p')):
            for first in (True, False):
                yield ('var', 2, params, args, kw, first, None)
                for tag in range(2):
                    for e in EVENTS:
                        for c in CLASSES:
                            yield ('var', 2, params, args, kw, first, (e, tag, c, 1))

    def check(self, case):
        import marcel.op.runpipeline
        _, n, params, args, kw, first, boom = case
        env = new_env()
        env.setvar('p', 'P')
        env.setvar('x', 'X')
        log = Log()
        pl = pipeline(n, params, log, boom and [boom[0], boom[1], boom[2], times(boom[3])])
        env.setvar_with_source('f', pl, 'source')
        pe = marcel.pipeline.PipelineExecutable()
        if not first:
            pe.append(Boom('src', Log(), None))
        for use in (1, 2):
            op = marcel.op.runpipeline.RunPipeline()
            op.var = 'f'
            op.set_pipeline_args([f'a{use}{i}' for i in range(args)], {k: f'k{use}{k}' for k in kw})
            pe.append(op)
            if first:
                break
        out = Log()
        pe.append(Boom('end', out, None))
        good = args <= len(params) and all(k in params[args:] for k in kw)
        try:
            marcel.pipeline.PipelineMarcel(pe, 's').run_pipeline(env, {})
            r = 'ok'
        except BaseException as e:
            r = type(e).__name__
        if env.vars().n_scopes() != 1 or (env.getvar('p'), env.hasvar('q'), env.getvar('x'), env.hasvar('z')) != \
                ('P', False, 'X', False):
            return fail(f'{case}: no scope left, variables as before',
                        (env.vars().n_scopes(), env.getvar('p'), env.hasvar('q'), env.getvar('x')))
        if not good:
            if r != 'KillCommandException' or log:
                return fail(f'{case}: refused', (r, log))
            return None
        views = []
        for use in (1, 2):
            b = {x: f'a{use}{i}' for i, x in enumerate(params[:args])}
            b.update({k: f'k{use}{k}' for k in kw})
            b = {x: b.get(x) for x in params}
            views.append((b.get('p', 'P'), b.get('q'), 'X'))
        for e, t, v in log:
            if v is not None and v not in views[:1 if first else 2]:
                return fail(f'{case}: {e} of operator {t} finds one of {views}', v)
        for op in pl.executable.ops[-1:]:
            if op.receiver is not None:
                return fail(f'{case}: the variable\'s pipeline is not connected', op.receiver)
        ends = [e for e, t, v in out]
        if boom is None:
            want = ['setup', 'receive', 'receive', 'receive', 'flush', 'cleanup']
            if r != 'ok' or ends != want:
                return fail(f'{case}: {want}', (r, out))
            if not first:
                for t in range(n):
                    if [v for e, u, v in log if e == 'receive' and u == t] != views * 3:
                        return fail(f'{case}: each row goes through both uses, each with its arguments', log)
        elif ends.count('flush') > 1:
            return fail(f'{case}: end of input at most once', out)
        return None


var = _Var()
