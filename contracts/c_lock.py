"""The lock of a workspace: marcel.object.workspace.Workspace and Marker, WorkspaceValidater.

A workspace has a marker file, whose name says who owns it: ghost 'owner', 0 if no process does.  What one process does is
proved against any interleaving with others (rely / guarantee).  Between any two accesses to the file system, others may
change the owner as they like, except that they do not take the marker of a process that exists (rely).  Every step proved here
renames the marker from unowned, from a process seen not to exist, or from this process, to this process or unowned
(guarantee), which is what the others rely on.  A listing of a directory is a snapshot."""
from .common import *

WS = 'marcel.object.workspace'
LOC = 'marcel.locations.Locations'
me, parent = z3.Ints('me parent')
gone = z3.Function('gone', I, B)            # the process does not exist, and never will again
ROOT = '.WORKSPACE'


def others(E):
    """anything may happen between two steps of this process"""
    m, w = E.gget('owner'), E.fresh_int('owner')
    E.assume(z3.And(w >= 0, z3.Implies(m == me, w == me), z3.Implies(m != me, w != me)))
    E.gset('quiet', z3.And(E.gget('quiet'), w == m))
    E.gset('owner', w)
    if not E.sees_parent:
        E.assume(w != parent)
    E.gset('parent', z3.Or(E.gget('parent'), w == parent))


def process_exists(E, a, k):
    if E.branch(E.fresh_bool('process_exists')):
        E.lives.append(zi(a[0]))
        return True
    E.assume(gone(zi(a[0])))
    return False


def change(E, src, dst):
    """rename the marker; one step"""
    others(E)
    m = E.gget('owner')
    src, dst = zi(src), zi(dst)
    if not E.branch(m == src):
        E.raise_py(FileNotFoundError, 'no such file')
    E.check(z3.Or(src == 0, src == me, gone(src)), 'only the marker of this process, of none, or of one that is gone, is renamed')
    E.check(z3.Or(dst == 0, dst == me), 'the marker is renamed for this process or for none')
    E.gset('owner', dst)


def marker_path(E, pid):
    def exists(E, a, k):
        others(E)
        return E.gget('owner') == zi(pid)

    def rename(E, a, k):
        if not isinstance(a[0], NObj) or 'pid' not in a[0].attrs:
            raise Unsupported('rename to something else')
        change(E, pid, a[0].attrs['pid'])
        return a[0]

    def unlink(E, a, k):
        others(E)
        if not E.branch(E.gget('owner') == zi(pid)):
            if k.get('missing_ok', False):
                return
            E.raise_py(FileNotFoundError, 'no such file')
        E.check(z3.And(zi(pid) == me, z3.BoolVal(E.deleting)), 'the marker is not removed')
        E.removed = True

    def touch(E, a, k):
        others(E)
        E.check(E.gget('owner') == zi(pid), 'no second marker')

    name = ROOT if isinstance(pid, int) and pid == 0 else NObj('name of a marker', {
        'startswith': lambda E, a, k: a[0] == ROOT, '__len__': lambda E, a, k: len(ROOT) + 2}, {'pid': pid, 'eq': lambda E, a, b: False})
    return NObj('marker', {'exists': exists, 'rename': rename, 'unlink': unlink, 'touch': touch}, {'pid': pid, 'name': name})


def listing(E):
    others(E)
    m = E.gget('owner')
    marker = marker_path(E, 0 if E.branch(m == 0) else m)
    startup = NObj('startup', {}, {'name': 'startup.py'})
    return E.new_list([startup, marker] if E.choose(2) else [marker, startup])


def filename_pid(E, a, k):
    if isinstance(a[0], str):
        E.raise_py(ValueError, 'invalid literal for int()')
    return a[0].attrs['pid']


def modify(E, a, k):
    """a file of the workspace is written or removed"""
    E.check(z3.Or(E.gget('owner') == me, z3.BoolVal(E.removed)), 'the workspace is written only while this process has the lock')
    E.wrote.append(1)


def other_path(E):
    yes = lambda E, a, k: True
    return NObj('path', {'exists': yes, 'is_dir': yes, 'iterdir': lambda E, a, k: E.new_list([]), 'unlink': modify,
                         'rmdir': modify, '__truediv__': lambda E, a, k: other_path(E)}, {'name': 'x'})


def config_ws(E, a, k):
    p = other_path(E)
    p.methods['iterdir'] = lambda E, a, k: listing(E)
    return p


CONTRACTS = {
    LOC + '.__init__': lambda E, a, k: (E.set_field(a[0], 'pid', me), E.set_field(a[0], 'ppid', parent), None)[2],
    LOC + '.config_ws': config_ws,
    WS + '.Marker.owned': lambda E, a, k: marker_path(E, a[1] if len(a) > 1 and a[1] is not None else me),
    WS + '.Marker.unowned': lambda E, a, k: marker_path(E, 0),
    WS + '.Workspace.marker_filename_pid': filename_pid,
    'marcel.util.process_exists': process_exists,
    'marcel.configscript.ConfigScript': lambda E, a, k: NObj('config', {'run': lambda E, a, k: E.new_dict()}),
    WS + '.Workspace.read_properties': lambda E, a, k: None, WS + '.Workspace.read_environment': lambda E, a, k: E.new_dict(),
    WS + '.Workspace.write_properties': modify, WS + '.Workspace.write_environment': modify,
}
for _f in ('config_ws_startup', 'data_ws', 'data_ws_prop', 'data_ws_env', 'data_ws_hist', 'data_ws_res'):
    CONTRACTS[f'{LOC}.{_f}'] = lambda E, a, k: other_path(E)


def workspace(E):
    E.lives, E.wrote, E.removed, E.deleting = [], [], False, False
    E.sees_parent = True
    E.assume(z3.And(me > 0, parent > 0, me != parent, z3.Not(gone(me)), z3.Not(gone(parent))))
    m = E.fresh_int('owner')
    E.assume(m >= 0)
    E.gset('owner', m)
    E.gset('quiet', z3.BoolVal(True))
    E.gset('parent', m == parent)
    E.m0 = m
    mod = E.get_module(WS)
    return E.call(E.module_attr(mod, 'Workspace'), ['w'])


def granted(E):
    """what being granted the lock means; what being refused it means"""
    has = z3.Or(E.gget('owner') == me, E.gget('parent'))
    busy = z3.Or(z3.Not(E.gget('quiet')), *[z3.And(E.m0 == p, p != me, p != parent) for p in E.lives])
    return has, busy


def lock(E):
    ws = workspace(E)
    r = zb(E.truth(call_method(E, ws, 'lock_workspace')))
    has, busy = granted(E)
    E.check(z3.Implies(r, has), 'locked: the marker is owned by this process, or its parent')
    E.check(z3.Implies(z3.Not(r), busy), 'refused: another process that exists has the lock, or just changed it')
    E.check(z3.Implies(z3.Not(r), E.gget('owner') != me), 'refused: this process does not own the marker')
    E.cover('end')


def session(E):
    """open, then close"""
    ws = workspace(E)
    E.gset('initial', True)
    mine = E.m0 == me
    r = expect_kill(E, lambda: call_method(E, ws, 'open', NObj('env', {})))
    has, busy = granted(E)
    if r == 'ok':
        E.check(has, 'opened: this process, or its parent, owns the marker')
        E.check(z3.BoolVal(not E.wrote), 'opening changes no file')
        E.cover('opened')
        if not E.branch(E.gget('owner') == me):
            return                              # a job, which does not close the workspace
        call_method(E, ws, 'close', NObj('env', {}), False)
        E.check(z3.BoolVal(bool(E.wrote)), 'closed: the workspace is saved')
        E.check(E.gget('owner') != me, 'closed: the lock is given up')
        E.cover('closed')
    else:
        E.check(r == 'KillCommandException', 'an open that is refused ends the command')
        E.check(busy, 'refused: another process that exists has the lock, or just changed it')
        E.check(E.gget('owner') != me, 'refused: this process does not own the marker')
        E.check(z3.BoolVal(not E.wrote), 'refused: no file is changed')
        E.cover('refused')


def delete(E):
    ws = workspace(E)
    E.deleting = True
    E.sees_parent = False                       # ws -d is not run by a job
    r = expect_kill(E, lambda: call_method(E, ws, 'delete', NObj('env', {})))
    has, busy = granted(E)
    if r == 'ok':
        E.check(z3.BoolVal(E.removed), 'the marker is removed')
        E.cover('deleted')
    else:
        E.check(r == 'KillCommandException', 'a delete that is refused ends the command')
        E.check(busy, 'refused: another process that exists has the lock, or just changed it')
        E.check(z3.BoolVal(not E.wrote and not E.removed), 'refused: no file is removed')
        E.cover('refused')


def validate(E):
    """validation, which every session does when it starts"""
    ws = workspace(E)
    errors = call_method(E, ws, 'validate')
    m, q = E.gget('owner'), E.gget('quiet')
    E.check(E.truth(errors) is False, 'a complete workspace is valid')
    E.check(z3.Implies(q, z3.Or(m == E.m0, m == 0)), 'an abandoned marker is given up')
    E.check(z3.Implies(z3.And(q, E.m0 > 0, z3.And(*[E.m0 != p for p in E.lives])), m == 0),
            'the marker of a process that is gone is given up')
    E.cover('end')


TASKS = [Task(f.__name__, f, CONTRACTS, None) for f in (lock, session, delete, validate)]
