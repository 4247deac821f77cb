"""The directory stack: marcel.directorystate, marcel.op.cd, pushd, popd, dirs.

Paths are opaque values: a path has a text; joining, expanding and resolving are uninterpreted, except that a resolved
absolute path is not changed by any of them.  What exists, is a directory and may be entered is arbitrary.  os.chdir fails
for whatever is not a directory that may be entered."""
from .common import *

PP = tag_of('pathlib.PosixPath')
path = z3.Function('path', V, V)
text = z3.Function('text', V, V)
join = z3.Function('join', V, V, V)
expand = z3.Function('expand', V, V)
norm = z3.Function('norm', V, V)
exists = z3.Function('fs_exists', V, B)
isdir = z3.Function('fs_isdir', V, B)
access = z3.Function('fs_access', V, B)
filev = z3.Function('filev', V, V)
HOME = z3.Const('HOME_', V)
stack0 = z3.Const('stack0', AIV)
depth0 = z3.Int('depth0')
cnt = z3.Function('accessible_before', I, I)        # accessible directories among the first so many
src = z3.Function('accessible_at', I, I)            # where the j-th of them is
depth = cnt(depth0)
X, Y = z3.Consts('x y', V)


def tx(v):
    return z3.If(ty(v) == PP, text(v), v)


def topath(v):
    return z3.If(ty(v) == PP, v, path(v))


def usable(x):
    return z3.And(exists(x), access(x))


def canonical(x):
    """x is the text of a resolved absolute path"""
    return z3.And(ty(x) == TAGS['str'], z3.ForAll([Y], norm(join(Y, expand(x))) == x, patterns=[join(Y, expand(x))]))


def method(f):
    return lambda E, v: Native('path method', lambda E, a, k: f(E, v, *a))


def init(E):
    fn_init(E)
    E.vmethods.update({
        'expanduser': method(lambda E, p: path(expand(tx(p)))),
        'resolve': method(lambda E, p, *a: path(norm(tx(p)))),
        'absolute': method(lambda E, p, *a: p),
        'exists': method(lambda E, p, *a: exists(tx(p))),
        'is_dir': method(lambda E, p, *a: isdir(tx(p))),
        'as_posix': method(lambda E, p: tx(p)),
        '__truediv__': method(lambda E, p, q: path(join(tx(p), tx(E.toV(q))))),
    })


def is_path(E, x):
    return ty(x) == PP if is_z3(x) else False


FILE = tag_of('marcel.object.file.File')


def make_path(E, a, k):
    x = E.toV(a[0])
    if E.branch(z3.Or(ty(x) == TAGS['str'], ty(x) == PP)):
        return topath(x)
    E.raise_py(TypeError, 'argument should be a str or an os.PathLike object')


PATH = NObj('pathlib.Path', {
    '__call__': make_path,
    'home': lambda E, a, k: path(HOME),
    'cwd': lambda E, a, k: path(E.toV(E.gget('cwd'))),
}, {'instance': is_path})


def chdir(E, a, k):
    d = tx(E.toV(a[0]))
    if not E.branch(exists(d)):
        E.raise_py(FileNotFoundError, 'no such directory')
    if not E.branch(isdir(d)):
        E.raise_py(NotADirectoryError, 'not a directory')
    if not E.branch(access(d)):
        E.raise_py(PermissionError, 'not permitted')
    E.gset('cwd', d)


def normalize(E, a, k):
    return E.new_list([path(E.toV(x)) for x in E.found])


CONTRACTS = {
    'pathlib.Path': PATH, 'pathlib.PosixPath': PATH,
    'os.chdir': chdir, 'os.getcwd': lambda E, a, k: E.gget('cwd'),
    'os.path.exists': lambda E, a, k: exists(tx(E.toV(a[0]))),
    'os.path.isdir': lambda E, a, k: isdir(tx(E.toV(a[0]))),
    'os.access': lambda E, a, k: access(tx(E.toV(a[0]))),
    'os.X_OK': 1,
    'marcel.util.print_to_stderr': lambda E, a, k: None,
    'marcel.op.filenames.Filenames.normalize': normalize,
    'marcel.object.file.File': lambda E, a, k: filev(tx(E.toV(a[0]))),
    'marcel.op.filenames.File': lambda E, a, k: filev(tx(E.toV(a[0]))),
}


class Dirs:
    def __init__(self, E):
        self.E = E
        w = self.w = World(E, inputs=False)
        E.world = w
        E.assume(z3.ForAll([X], z3.And(ty(path(X)) == PP, text(path(X)) == X), patterns=[path(X)]))
        E.assume(z3.ForAll([X], z3.Implies(ty(X) == PP, path(text(X)) == X), patterns=[text(X)]))
        E.assume(z3.ForAll([X], z3.And(ty(norm(X)) == TAGS['str'], norm(norm(X)) == norm(X), z3.ForAll([Y], norm(join(
            Y, expand(norm(X)))) == norm(X), patterns=[join(Y, expand(norm(X)))])), patterns=[norm(X)]))
        E.assume(z3.ForAll([X], ty(filev(X)) == FILE, patterns=[filev(X)]))
        # The stack.  Some of its directories may be gone, or have become inaccessible: not the current one.
        at = lambda j: z3.Select(stack0, j)
        E.assume(depth0 >= 1)
        E.assume(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < depth0), z3.And(
            canonical(at(J)), z3.Implies(usable(at(J)), isdir(at(J))))), patterns=[at(J)]))
        E.assume(usable(at(depth0 - 1)))
        E.assume(cnt(0) == 0)
        E.assume(z3.ForAll([J], z3.Implies(J >= 0, z3.And(
            cnt(J + 1) == cnt(J) + z3.If(usable(at(J)), 1, 0), cnt(J) >= 0, cnt(J) <= J)), patterns=[at(J)]))
        E.assume(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < depth0, usable(at(J))), src(cnt(J)) == J), patterns=[at(J)]))
        E.assume(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < depth), z3.And(
            src(J) >= 0, src(J) < depth0, usable(at(src(J))))), patterns=[src(J)]))
        E.assume(canonical(HOME))
        E.gset('DIRS', E.new_list(seq=Seq(n=depth0, arr=stack0)))
        E.gset('PWD', at(depth0 - 1))
        E.gset('cwd', at(depth0 - 1))
        names = ('PWD', 'DIRS')

        def getvar(E, a, k):
            if a[0] not in names:
                raise Unsupported(f'variable {a[0]}')
            return E.gget(a[0])

        def assign(E, a, k):
            if a[0] not in names:
                raise Unsupported(f'variable {a[0]}')
            E.gset(a[0], a[1])
        m = E.get_module('marcel.directorystate')
        w.env.methods.update({'getvar': getvar, 'assign_permanent': assign, 'dir_state': lambda E, a, k: self.ds})
        self.ds = E.call(E.module_attr(m, 'DirectoryState'), [w.env])
        E.found = []

    def stack(self):
        d = self.E.gget('DIRS')
        s = self.E.as_seq(d)
        return zi(self.E.seq_n(s)), self.E.seq_arr(self.E.sym(s))


def judge(E, d, n, at, what):
    """the stack has n entries, entry j is at(j); PWD and the current directory are its top"""
    m, arr = d.stack()
    E.check(m == n, f'{what}: depth of the stack')
    E.check(z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < n), tx(z3.Select(arr, J)) == at(J)), patterns=[z3.Select(arr, J)]),
            f'{what}: the stack')
    E.check(tx(E.toV(E.gget('PWD'))) == at(n - 1), f'{what}: PWD is the top of the stack')
    E.check(tx(E.toV(E.gget('cwd'))) == at(n - 1), f'{what}: the current directory is the top of the stack')


old = lambda j: z3.Select(stack0, src(j))


def output(E, d, n, at, what):
    w = d.w
    E.check(w.n_out() == n, f'{what}: a row per directory')
    E.check(forall_in(n, lambda j: is_wrap(w.out_at(j), filev(at(n - 1 - j)))), f'{what}: the stack is output, top first')
    E.check(w.flushes() == 0, f'{what}: end of stream is left to the pipeline')


def command(E, d, op):
    E.set_field(op, 'receiver', d.w.sink)
    return expect_kill(E, lambda: (call_method(E, op, 'setup', d.w.env), call_method(E, op, 'run', d.w.env)))


def given(E, d, op):
    """an argument; the paths it stands for"""
    arg = E.fresh_V('arg')
    E.assume(z3.Or(ty(arg) == TAGS['str'], ty(arg) == PP, ty(arg) == FILE))
    E.assume(z3.Not(callable_v(arg)))
    k = E.choose(3)
    E.found = [E.fresh_V(f'found{i}') for i in range(k)]
    for x in E.found:
        E.assume(ty(x) == TAGS['str'])
        # a path found: absolute, hence not changed by joining; it exists, and is what its resolution is
        E.assume(z3.ForAll([Y], join(Y, expand(x)) == x, patterns=[join(Y, expand(x))]))
        E.assume(z3.And(exists(x), exists(norm(x)), isdir(norm(x)) == isdir(x), access(norm(x)) == access(x)))
    E.set_field(op, 'directory_arg', arg)
    return k


callable_v = z3.Function('callable', V, B)


def good(E, k):
    if k != 1:
        return z3.BoolVal(False)
    return z3.And(isdir(E.found[0]), access(E.found[0]))


def expected(E, r, ok, what):
    if r == 'ok':
        E.check(ok, f'{what}: succeeds for a directory that may be entered only')
    else:
        E.check(r == 'KillCommandException', f'{what}: a failure ends the command')
        E.check(z3.Not(ok), f'{what}: succeeds for a directory that may be entered')
    return r == 'ok'


def cd(E):
    d = Dirs(E)
    op = new_op(E, 'marcel.op.cd', 'Cd')
    k = given(E, d, op)
    r = command(E, d, op)
    if expected(E, r, good(E, k), 'cd'):
        t = norm(E.found[0])
        judge(E, d, depth, lambda j: z3.If(j == depth - 1, t, old(j)), 'cd')
        E.cover('done')
    else:
        judge(E, d, depth, old, 'cd refused')
    E.check(d.w.n_out() == 0, 'cd: no output')
    E.cover('end')


def pushd(E):
    d = Dirs(E)
    op = new_op(E, 'marcel.op.pushd', 'Pushd')
    if E.choose(2):
        k = given(E, d, op)
        r = command(E, d, op)
        if expected(E, r, good(E, k), 'pushd'):
            t = norm(E.found[0])
            at = lambda j: z3.If(j == depth, t, old(j))
            judge(E, d, depth + 1, at, 'pushd')
            output(E, d, depth + 1, at, 'pushd')
            E.cover('done')
        else:
            judge(E, d, depth, old, 'pushd refused')
            E.check(d.w.n_out() == 0, 'pushd refused: no output')
    else:
        r = command(E, d, op)
        E.check(r == 'ok', 'swap: no failure')
        at = lambda j: z3.If(depth < 2, old(j), z3.If(j == depth - 1, old(depth - 2), z3.If(j == depth - 2, old(depth - 1), old(j))))
        judge(E, d, depth, at, 'swap')
        output(E, d, depth, at, 'swap')
    E.cover('end')


def popd(E):
    d = Dirs(E)
    op = new_op(E, 'marcel.op.popd', 'Popd')
    r = command(E, d, op)
    E.check(r == 'ok', 'popd: no failure')
    n = z3.If(depth > 1, depth - 1, depth)
    judge(E, d, n, old, 'popd')
    output(E, d, n, old, 'popd')
    E.cover('end')


def dirs(E):
    d = Dirs(E)
    clear = [None, True][E.choose(2)]
    op = new_op(E, 'marcel.op.dirs', 'Dirs', clear=clear)
    r = command(E, d, op)
    E.check(r == 'ok', 'dirs: no failure')
    n, at = (z3.IntVal(1), lambda j: old(depth - 1)) if clear else (depth, old)
    judge(E, d, n, at, 'dirs')
    output(E, d, n, at, 'dirs')
    E.cover('end')


def candidates(E, ctx):
    out = []
    seqs = [(E.locname(loc), zi(E.seq_n(c)), E.seq_arr(c)) for loc, e, c in ctx.seqs()]
    if E.loop_get:
        nn, get = E.loop_get[-1]
        clean = z3.ForAll([J], z3.Implies(z3.And(J >= 0, J <= ctx.it), cnt(J) == J), patterns=[cnt(J)])
        for nm, n, arr in seqs:
            out.append((f'{nm}.len: directories that are usable', n == cnt(ctx.it)))
            out.append((f'{nm}.len: directories that are not', n == ctx.it - cnt(ctx.it)))
            out.append((f'{nm}.len: all usable if empty', z3.Implies(n == 0, clean)))
            out.append((f'{nm} holds the usable directories', z3.ForAll([J], z3.Implies(
                z3.And(J >= 0, J < cnt(ctx.it)), z3.Select(arr, J) == old(J)), patterns=[z3.Select(arr, J)])))
            out.append((f'{nm}.len == 0', n == 0))
            out.append((f'{nm}.len == it', n == ctx.it))
            out.append((f'{nm} holds what came before', z3.ForAll([J], z3.Implies(
                z3.And(J >= 0, J < ctx.it), z3.Select(arr, J) == E.toV(get(J))), patterns=[z3.Select(arr, J)])))
            out.append((f'{nm} holds files of what came before', z3.ForAll([J], z3.Implies(
                z3.And(J >= 0, J < ctx.it), is_wrap(z3.Select(arr, J), filev(tx(E.toV(get(J)))))), patterns=[z3.Select(arr, J)])))
    return out


TASKS = [Task(f.__name__, f, CONTRACTS, candidates, init=init) for f in (cd, pushd, popd, dirs)]
