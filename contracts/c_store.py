"""store and load: marcel.op.store, marcel.op.load, marcel.reservoir, marcel.picklefile.

The file of the variable under proof is a list of rows (ghost 'content'); opening it, pickling to it and unpickling from
it are contracts:
  open(path, 'rb'): a handle at row 0; FileNotFoundError if there is no file
  open(path, 'wb'): empties the file; open(path, 'ab'): keeps what it holds; both create it
  Pickler(file).dump(x): appends x, or fails and appends nothing
  Unpickler(file).load(): the next row, or EOFError after the last
Pickle refers to what was pickled before (memo).  The obligations 'pickled on its own' demand that no row depends on
another one: rows are pickled with an empty memo, and unpickled by an Unpickler which finds them whatever it has read before."""
from pyvc.engine import is_V
from .common import *

PF = 'marcel.picklefile'
cont0 = z3.Const('content0', AIV)
rows0 = z3.Int('rows0')
N = z3.Int('n_rows')


class FS:
    def __init__(self, E):
        self.E = E
        self.content = E.new_list(seq=Seq(n=rows0, arr=cont0))
        E.assume(rows0 >= 0)
        E.assume(z3.ForAll([J], is_row(z3.Select(cont0, J)), patterns=[z3.Select(cont0, J)]))
        E.gset('content', self.content)
        E.gset('exists', E.fresh_bool('exists'))
        E.assume(z3.Implies(z3.Not(E.gget('exists')), rows0 == 0))
        self.handles = []
        self.explicit = None        # pickles do not depend on how much the Unpickler has read
        self.path = NObj('path', {'touch': self.touch, 'unlink': self.unlink, 'exists': lambda E, a, k: E.gget('exists'),
                                  'open': lambda E, a, k: self.open(E, [self.path] + list(a), k)})
        self.can_fail = False

    def n(self):
        return zi(self.E.seq_n(self.content.seq))

    def arr(self):
        return self.E.seq_arr(self.content.seq)

    def touch(self, E, a, k):
        E.gset('exists', True)

    def unlink(self, E, a, k):
        E.set_seq(self.content, Seq(items=[]))
        E.gset('exists', False)

    def is_open(self, i):
        return self.E.gget(f'open{i}')

    def open_handles(self, mode=None):
        return [i for i, m in self.handles if self.is_open(i) is True and (mode is None or (m == 'rb') == (mode == 'r'))]

    def open(self, E, a, k):
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        if a[0] is not self.path or mode not in ('rb', 'wb', 'ab'):
            raise Unsupported('open of something else')
        if mode == 'rb':
            E.check(not self.open_handles('w'), 'no reading while it is being written')
            if not E.branch(E.gget('exists')):
                E.raise_py(FileNotFoundError)
        else:
            E.check(not self.open_handles(), 'no writing while it is being read or written')
            if mode == 'wb':
                E.set_seq(self.content, E.sym(Seq(items=[])))
            E.gset('exists', True)
        i = len(self.handles)
        self.handles.append((i, mode))
        E.gset(f'open{i}', True)
        E.gset(f'pos{i}', z3.IntVal(0))
        return NObj(f'file{i}', {'close': lambda E, a, k: E.gset(f'open{i}', False), 'flush': lambda E, a, k: None,
                                 '__enter__': lambda E, a, k: None}, {'handle': i, 'mode': mode})

    def pickler(self, E, a, k):
        f = a[0].attrs
        p = a[1] if len(a) > 1 else k.get('protocol')
        self.explicit = isinstance(p, int) and 0 < p < 4
        i = f['handle']
        E.gset(f'memo{i}', False)
        def dump(E, a, k):
            E.check(self.is_open(i) is True, 'written while open')
            E.check(E.gget(f'memo{i}') is False, 'pickled on its own')
            E.gset(f'memo{i}', True)
            if self.can_fail and E.choose(2):
                E.raise_py(TypeError, 'cannot pickle')
            E.set_seq(self.content, E.seq_append(E.sym(self.content.seq), snap(E, a[0])))
        return NObj('pickler', {'dump': dump, 'clear_memo': lambda E, a, k: E.gset(f'memo{i}', False)})

    def unpickler(self, E, a, k):
        i = a[0].attrs['handle']
        E.gset(f'read{i}', False)
        def load(E, a, k):
            if self.is_open(i) is not True:
                E.raise_py(ValueError, 'closed file')
            p = zi(E.gget(f'pos{i}'))
            if not E.branch(p < self.n()):
                E.raise_py(EOFError)
            E.check(self.explicit or E.gget(f'read{i}') is False, 'unpickled on its own')
            E.gset(f'read{i}', True)
            x = z3.Select(self.arr(), p)
            E.gset(f'pos{i}', p + 1)
            return x
        return NObj('unpickler', {'load': load})


def snap(E, x):
    return snapshot(E, x) if isinstance(x, LObj) else E.toV(x)


def fs(E):
    return E.fs


CONTRACTS = {
    PF + '.open': lambda E, a, k: E.fs.open(E, a, k),
    'dill.Pickler': lambda E, a, k: E.fs.pickler(E, a, k),
    'dill.Unpickler': lambda E, a, k: E.fs.unpickler(E, a, k),
    'dill.dump': lambda E, a, k: call_method(E, E.fs.pickler(E, [a[1]], {}), 'dump', a[0]),
    'dill.load': lambda E, a, k: call_method(E, E.fs.unpickler(E, [a[0]], {}), 'load'),
    'pathlib.Path': lambda E, a, k: a[0],
    'os.unlink': lambda E, a, k: E.fs.unlink(E, a, k),
    'time.time': lambda E, a, k: E.fresh_int('time'),
}


def world(E):
    w = E.world = World(E)
    f = E.fs = FS(E)
    f.res = E.call(E.module_attr(E.get_module('marcel.reservoir'), 'Reservoir'), ['x', f.path])
    w.env.methods['mark_possibly_changed'] = lambda E, a, k: None
    return w, f


def usable(E, f, label):
    """the variable can be read and written again"""
    n, arr = f.n(), f.arr()
    E.check(not f.open_handles(), f'{label}: no file left open')
    r = expect_kill(E, lambda: call_method(E, call_method(E, f.res, 'writer', True), 'close'))
    E.check(r == 'ok', f'{label}: can be stored into')
    E.check(z3.And(f.n() == n, f.arr() == arr), f'{label}: appending nothing changes nothing')
    r = expect_kill(E, lambda: call_method(E, call_method(E, f.res, 'reader'), 'close'))
    E.check(r == 'ok', f'{label}: can be loaded')


def an_earlier_command(E, w, f):
    """the variable has been used before"""
    c = E.choose(4)
    if c == 0:
        return
    n, arr = f.n(), f.arr()
    if c in (1, 2):
        op = new_op(E, 'marcel.op.store', 'Store', var=f.res, append=[None, True][c - 1])
        E.set_field(op, 'receiver', null_sink())
        call_method(E, op, 'setup', w.env)
        x = E.fresh_V('earlier')
        E.assume(is_row(x))
        call_method(E, op, 'receive', w.env, x)
        call_method(E, op, 'cleanup')
        E.check(f.n() == (n if c == 2 else 0) + 1, 'one more row')
        E.check(z3.Select(f.arr(), f.n() - 1) == x, 'it is the row')
    else:
        op = new_op(E, 'marcel.op.load', 'Load', var=f.res)
        E.set_field(op, 'receiver', null_sink())
        if expect_kill(E, lambda: call_method(E, op, 'setup', w.env)) != 'ok':
            return
        E.assume(f.n() == 0)
        call_method(E, op, 'run', w.env)
        call_method(E, op, 'cleanup')
    usable(E, f, 'afterwards')


def variable(E, w, f, op):
    """the command names a variable; -> whether it is a stream already"""
    state = E.choose(4)
    other = E.fresh_V('other')
    E.assume(z3.And(other != VNone, ty(other) != tag_of('marcel.reservoir.Reservoir')))
    bound = [None, other, f.res, f.res][state]
    E.gset('bound', bound)
    w.env.methods['getvar'] = lambda E, a, k: E.gget('bound')

    def setvar(E, a, k):
        E.check(a[0] == 'x', 'only the variable is assigned')
        E.gset('bound', a[1])
    w.env.methods['setvar'] = setvar
    w.env.attrs['workspace'] = NObj('workspace')
    w.env.attrs['locations'] = NObj('locations', {'data_ws_res': lambda E, a, k: f.path})
    E.set_field(op, 'var', f.res if state == 3 else 'x')
    return ['undefined', 'other', 'stream', 'api'][state]


def store(E):
    w, f = world(E)
    an_earlier_command(E, w, f)
    append = [None, True][E.choose(2)]
    op = new_op(E, 'marcel.op.store', 'Store', append=append)
    kind = variable(E, w, f, op)
    E.set_field(op, 'receiver', w.sink)
    n, arr = f.n(), f.arr()
    before = E.gget('bound')
    result = expect_kill(E, lambda: call_method(E, op, 'setup', w.env))
    if kind == 'other' and append:
        E.check(result == 'KillCommandException', 'appending to what is no stream is refused')
        E.check(E.gget('bound') is before, 'refused: the variable is as before')
        E.check(z3.And(f.n() == n, f.arr() == arr), 'refused: nothing is stored')
        E.cover('refused')
        return
    E.check(result == 'ok', 'not refused')
    v = E.gget('bound')
    E.check(isinstance(v, HObj) and v.cls.name == 'Reservoir' and E.getattr(v, 'path') is f.path, 'the variable is a stream')
    if kind in ('stream', 'api'):
        E.check(v is before, 'the same stream')
    f.res = v
    E.base = (n if append and kind in ('stream', 'api') else z3.IntVal(0)), arr
    f.can_fail = True
    E.stream = True
    failed = []
    ended = E.choose(2)

    def go():
        E.stored_n = feed(E, w, op)
        if ended:
            call_method(E, op, 'flush', w.env)
    E.kcur = None
    try:
        go()
    except PyRaise:
        # a row that cannot be pickled ends the command: the rows before it are kept
        failed.append(True)
    call_method(E, op, 'cleanup')
    b = E.base[0]
    if not failed:
        k = zi(E.stored_n)
        E.check(f.n() == b + k, 'as many rows as arrived, after those which were there')
        E.check(w.flushes() == (1 if ended else 0), 'end of input passed on once')
    else:
        k = zi(E.kcur)
        E.check(f.n() == b + k, 'the rows before the failing one are stored')
    a = f.arr()
    E.check(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < b), z3.Select(a, J) == z3.Select(arr, J)), patterns=[z3.Select(a, J)]),
            'what was there is still there')
    E.check(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < k), z3.Select(a, b + J) == inp(J)), patterns=[inp(J)]),
            'the rows are stored, in order')
    E.check(w.n_out() == 0, 'no output')
    usable(E, f, 'afterwards')
    E.cover('end')


def store_cands(E, ctx):
    out = []
    if not hasattr(E, 'base'):
        return out
    b, arr = E.base
    for loc, e, c in ctx.seqs():
        n, a = zi(E.seq_n(c)), E.seq_arr(c)
        nm = E.locname(loc)
        out.append((f'{nm}.len', n == b + ctx.it))
        out.append((f'{nm}: old', z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < b), z3.Select(a, J) == z3.Select(arr, J)),
                                            patterns=[z3.Select(a, J)])))
        out.append((f'{nm}: new', z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < ctx.it), z3.Select(a, b + J) == inp(J)),
                                            patterns=[inp(J)])))
        out.append((f'{nm}: new2', z3.ForAll([J], z3.Implies(z3.And(J >= b, J < b + ctx.it), z3.Select(a, J) == inp(J - b)),
                                             patterns=[z3.Select(a, J)])))
    return out


def load(E):
    w, f = world(E)
    # learn how rows are pickled
    probe = call_method(E, f.res, 'writer', True)
    call_method(E, probe, 'close')
    E.gset('exists', True)
    an_earlier_command(E, w, f)
    op = new_op(E, 'marcel.op.load', 'Load')
    kind = variable(E, w, f, op)
    n, arr = f.n(), f.arr()
    E.whole = arr
    fail = E.choose(2)

    def receive_input(E, a, k):
        if fail and E.choose(2):
            E.gset('failed', True)
            raise PyRaise(E.call(E.module_attr(E.get_module('marcel.exception'), 'KillCommandException'), ['failed']))
        return w.sink.methods['receive_input'](E, a, k)
    E.gset('failed', False)
    E.set_field(op, 'receiver', NObj('downstream', {**w.sink.methods, 'receive_input': receive_input}))
    result = expect_kill(E, lambda: call_method(E, op, 'setup', w.env))
    if kind in ('undefined', 'other'):
        E.check(result == 'KillCommandException', 'only a stream can be loaded')
        E.check(not f.open_handles(), 'refused: no file left open')
        return
    E.check(result == 'ok', 'not refused')
    result = expect_kill(E, lambda: call_method(E, op, 'run', w.env))
    E.check(z3.And(f.n() == n, f.arr() == arr), 'loading changes nothing')
    if E.gget('failed') is True:
        E.check(result == 'KillCommandException', 'a failure downstream is passed on')
    else:
        E.check(result == 'ok', 'no failure of its own')
        E.check(w.n_out() == n, 'as many rows as are stored')
        call_method(E, op, 'flush', w.env)
        E.check(w.flushes() == 1, 'one end of stream')
    E.check(forall_in(w.n_out(), lambda j: w.out_at(j) == z3.Select(arr, j)), 'the stored rows, in order')
    call_method(E, op, 'cleanup')
    usable(E, f, 'afterwards')
    E.cover('end')


def load_cands(E, ctx):
    out = []
    if not hasattr(E, 'whole'):
        return out
    for loc, e, c in ctx.seqs():
        n, a = zi(E.seq_n(c)), E.seq_arr(c)
        out.append((f'{E.locname(loc)}.len', n == ctx.it))
        out.append((f'{E.locname(loc)}: rows', forall_in(n, lambda j: z3.Select(a, j) == z3.Select(E.whole, j))))
    for loc, e, c in ctx.ints():
        out.append((f'{E.locname(loc)} == it', zi(c) == ctx.it))
        out.append((f'{E.locname(loc)} <= n', zi(c) <= E.fs.n()))
    return out


def conflict(E):
    """a variable is not loaded while it is being stored, and not stored while it is being loaded or stored"""
    w, f = world(E)
    busy = E.choose(2)
    E.gset('exists', True)
    h = call_method(E, f.res, 'reader') if busy == 0 else call_method(E, f.res, 'writer', [None, True][E.choose(2)])
    first = 0
    if busy == 0 and E.choose(2):
        # loaded twice, one is finished
        h2 = call_method(E, f.res, 'reader')
        h, h2, first = [(h, h2, 0), (h2, h, 1)][E.choose(2)]
        for i in range(1 + E.choose(2)):
            call_method(E, h2, 'close')
    n, arr = f.n(), f.arr()
    which = E.choose(3)
    if which < 2:
        op = new_op(E, 'marcel.op.store', 'Store', append=[None, True][which])
    elif busy:
        op = new_op(E, 'marcel.op.load', 'Load')
    else:
        return
    kind = variable(E, w, f, op)
    if kind not in ('stream', 'api'):
        return
    E.set_field(op, 'receiver', w.sink)
    result = expect_kill(E, lambda: call_method(E, op, 'setup', w.env))
    E.check(result == 'KillCommandException', 'refused')
    E.check(z3.And(f.n() == n, f.arr() == arr), 'the stored rows are as before')
    E.check(f.open_handles() == [first], 'no other file is open')
    call_method(E, h, 'close')
    usable(E, f, 'afterwards')
    E.cover('end')


def init(E):
    fn_init(E)


TASKS = [
    Task('store', store, CONTRACTS, store_cands, init=init),
    Task('load', load, CONTRACTS, load_cands, init=init),
    Task('conflict', conflict, CONTRACTS, no_candidates, init=init),
]
