"""Concrete side of the checks: drives the real marcel (imported from /repo) and compares with an oracle.

Everything happens under a scratch HOME (created by harness/run.py, which also removes it)."""
import contextlib
import io
import os
import signal
import sys

import marcel.core
import marcel.exception
import marcel.pipeline
import marcel.object.error

Error = marcel.object.error.Error


class Hang(BaseException):
    pass


class Source(marcel.core.Op):
    """First operator: sends the given rows; a row that is an ErrorRow sends an error instead."""

    def __init__(self, rows=()):
        super().__init__()
        self.rows = rows

    def __repr__(self):
        return 'source()'

    def run(self, env):
        for r in self.rows:
            if isinstance(r, ErrorRow):
                self.send_error(env, Error(r.message))
            else:
                self.send(env, r)


class ErrorRow:
    def __init__(self, message):
        self.message = message


class Probe(marcel.core.Op):
    """Last operator: records what reaches the end of the pipeline, in order."""

    def __init__(self, log=None):
        super().__init__()
        self.log = log if log is not None else []

    def __repr__(self):
        return 'probe()'

    def receive(self, env, x):
        self.log.append(('out', freeze(x)))

    def receive_error(self, env, error):
        self.log.append(('err', str(error)))

    def flush(self, env):
        self.log.append(('flush',))


def freeze(x):
    """a copy of a row, so that later mutation by the code under test is visible as a difference"""
    if type(x) is tuple:
        return tuple(freeze(y) for y in x)
    if type(x) is list:
        return [freeze(y) for y in x]
    return x


_env = None
_storage = False


def ensure_storage():
    global _storage
    if not _storage:
        import marcel.persistence.storagelayout
        marcel.persistence.storagelayout.ensure_current(testing=True, initial_config='')
        _storage = True


def api_env():
    global _env
    if _env is None:
        ensure_storage()
        import marcel.api
        marcel.api.INITIALIZATION.ensure_initialized()
        _env = marcel.api._ENV
    return _env


class Result:
    def __init__(self, log, exc):
        self.log = log
        self.out = [e[1] for e in log if e[0] == 'out']
        self.errs = [e[1] for e in log if e[0] == 'err']
        self.flushes = sum(1 for e in log if e[0] == 'flush')
        self.exc = exc
        self.after_flush = any(e[0] != 'flush' for e in log[[e[0] for e in log].index('flush'):]) \
            if self.flushes else False

    def brief(self):
        return f'out={self.out!r} errs={self.errs!r} flushes={self.flushes} exc={self.exc}'


def ops_of(oplist):
    return [oplist.op] if oplist.op is not None else list(oplist.ops)


def pipeline_of(rows, oplist, log):
    p = marcel.pipeline.PipelineExecutable()
    if rows is not None:
        p.append(Source(rows))
    for op in ops_of(oplist):
        p.append(op)
    p.append(Probe(log))
    return p


def execute(pe, env=None):
    env = env or api_env()
    try:
        marcel.core.Command(None, marcel.pipeline.PipelineOpList(pe)).execute(env)
        return None
    except Hang:
        raise
    except BaseException as e:
        return f'{type(e).__name__}: {e}'


def run(rows, oplist):
    """rows | oplist | probe, through the real pipeline machinery.  oplist comes from marcel.api."""
    env = api_env()
    log = []
    pe = pipeline_of(rows, oplist, log)
    return Result(log, execute(pe, env))


def rerun(pe, n, logs, env=None):
    pass


@contextlib.contextmanager
def limit(seconds):
    def h(sig, frm):
        raise Hang()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# --- command line usage: a script main, with captured output

_main = None


def script_main():
    global _main
    if _main is None:
        import marcel.env
        import marcel.main
        import marcel.object.workspace
        ensure_storage()
        ws = marcel.object.workspace.Workspace.default()
        env = marcel.env.Environment.create(workspace=ws)
        _main = marcel.main.MainScript(env)
    return _main


def cli(text):
    """run a command line; returns (stdout, stderr, exception)"""
    m = script_main()
    out, err = io.StringIO(), io.StringIO()
    exc = None
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            m.parse_and_run_command(text)
        except Hang:
            raise
        except BaseException as e:
            exc = f'{type(e).__name__}: {e}'
    return out.getvalue(), err.getvalue(), exc


def parse_cli(text):
    import marcel.parser
    m = script_main()
    m.env.workspace.namespace.set_env(m.env)
    return marcel.parser.Parser(text, m.env).parse()


def cli_probe(text):
    """parse a command line and run it with a Probe at the end"""
    import marcel.exception
    m = script_main()
    log = []
    exc = None
    try:
        pl = parse_cli(text)
        pl = pl.append_immutable(Probe(log))
        marcel.core.Command(text, pl).execute(m.env)
    except Hang:
        raise
    except BaseException as e:
        exc = f'{type(e).__name__}: {e}'
    return Result(log, exc)


def fail(expected, actual, key=None):
    return {'expected': repr(expected)[:3000], 'actual': repr(actual)[:3000], 'key': key}


def judge_rows(r, want, flushes=1, errs=0, exc=None, key=None):
    """the usual comparison: exact rows in exact order, one end of stream, error count, no exception"""
    got = (r.out, len(r.errs), r.flushes, r.after_flush, r.exc)
    exp = (want, errs, flushes, False, exc)
    if got != exp:
        return fail({'rows': want, 'errors': errs, 'ends of stream': flushes, 'exception': exc}, r.brief(), key)
    # == identifies 1, 1.0 and True; types must agree as well
    if [[type(c) for c in row] if isinstance(row, (list, tuple)) else type(row) for row in r.out] != \
       [[type(c) for c in row] if isinstance(row, (list, tuple)) else type(row) for row in want]:
        return fail(want, r.brief(), key)
    return None


def exc_class(r):
    return r.exc.split(':')[0] if r.exc else None


# --- both front ends on the same rows

def run_cli(rows, text, source=None):
    """rows | <text> | probe, where text is parsed as a command line; returns a Result"""
    m = script_main()
    log = []
    exc = None
    try:
        pl = parse_cli(text)
        pe = marcel.pipeline.PipelineExecutable()
        if rows is not None:
            pe.append(Source(rows))
        for op in pl.executable.ops:
            pe.append(op)
        pe.append(Probe(log))
        marcel.core.Command(text, marcel.pipeline.PipelineMarcel(pe, text)).execute(m.env)
    except Hang:
        raise
    except BaseException as e:
        exc = f'{type(e).__name__}: {e}'
    return Result(log, exc)


class KilledSource(Source):
    killed = True

    def run(self, env):
        super().run(env)
        if self.killed:
            self.killed = False
            raise marcel.exception.KillCommandException('killed by the harness')


def run_twice(rows1, rows, oplist, killed=False):
    """the same operator objects, run on rows1 (killed before end of stream, if so asked) and then on rows; the
    result of the second run"""
    env = api_env()
    src = (KilledSource if killed else Source)(rows1)
    log = []
    pe = marcel.pipeline.PipelineExecutable()
    pe.append(src)
    for op in ops_of(oplist):
        pe.append(op)
    pe.append(Probe(log))
    execute(pe, env)
    src.rows = rows
    del log[:]
    return Result(log, execute(pe, env))


def wrap(x):
    return x if type(x) in (tuple, list) else (x,)


def streams(alphabet, maxlen, extra=(), seed=0, nrandom=60, randlen=40):
    """every stream over the alphabet up to maxlen, then the extra ones, then random longer ones"""
    import itertools
    import random
    for n in range(maxlen + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield list(t)
    for e in extra:
        yield list(e)
    for n in (300, 1100):
        yield [alphabet[i * i % len(alphabet)] for i in range(n)]
    rnd = random.Random(seed)
    for _ in range(nrandom):
        yield [rnd.choice(alphabet) for _ in range(rnd.randint(maxlen + 1, randlen))]


def modes(seq):
    """each element of seq with each way of running it"""
    for i, x in enumerate(seq):
        yield ('api',) + x
        if i % 3 == 0:
            yield ('cli',) + x
        if i % 4 == 1:
            yield ('again',) + x
        if i % 4 == 3:
            yield ('killed',) + x


def run_mode(mode, rows, api_op, cli_text, earlier=((7, 7), (8,), 9, (9,), 7)):
    """api_op: thunk making the operator; cli_text: the same operator as a command"""
    if mode == 'cli':
        return run_cli(rows, cli_text)
    if mode in ('again', 'killed'):
        return run_twice(list(earlier), rows, api_op(), mode == 'killed')
    return run(rows, api_op())
