"""The lock of a workspace on real files, with other processes interfering between any two accesses to the file system."""
import itertools
import os
import pathlib
import subprocess

import marcel.exception
import marcel.locations
import marcel.object.workspace
from lib import fail, ensure_storage, Hang
from h_ns import new_env

Workspace = marcel.object.workspace.Workspace
ROOT = '.WORKSPACE'
LIVE = 1                            # a process that exists
_dead = None


def dead():
    """the pid of a process which does not exist any more"""
    global _dead
    if _dead is None:
        p = subprocess.Popen(['true'])
        p.wait()
        _dead = p.pid
    return _dead


def pid_of(x):
    return {'none': '', 'me': f'.{os.getpid()}', 'live': f'.{LIVE}', 'dead': f'.{dead()}'}[x]


class Others:
    """other processes: at the given accesses to the file system, just before or after it, they do what they are told"""

    def __init__(self, dir, files, script):
        self.files, self.taken = files, None
        self.dir, self.script, self.k = dir, dict(script), 0
        self.saved, self.acted = {}, False

    def act(self):
        for src, dst in self.script.pop(self.k, ()):
            a, b = self.dir / (ROOT + pid_of(src)), self.dir / (ROOT + pid_of(dst))
            if os.path.exists(a):
                os.rename(a, b)
                self.acted = True
                self.taken = self.files() if dst == 'live' else None
        self.k += 1

    def __enter__(self):
        for name in ('exists', 'rename', 'unlink', 'touch', 'iterdir'):
            f = self.saved[name] = getattr(pathlib.Path, name)

            def call(path, *a, f=f, name=name, **k):
                if path.parent != self.dir and path != self.dir:
                    return f(path, *a, **k)
                self.act()
                try:
                    r = f(path, *a, **k)
                    return iter(list(r)) if name == 'iterdir' else r
                finally:
                    self.act()
            setattr(pathlib.Path, name, call)
        return self

    def __exit__(self, *a):
        for name, f in self.saved.items():
            setattr(pathlib.Path, name, f)


STATES = ('none', 'me', 'live', 'dead')
# what others may do
ACTS = ((('none', 'live'),), (('live', 'none'),), (('dead', 'live'),), (('dead', 'none'),),
        (('none', 'live'), ('live', 'none')), (('live', 'none'), ('none', 'live')))


class _Lock:
    BOUNDS = ('open, open and close, delete, validate, from every owner of the workspace (none, this process, another, one that '
              'is gone), with one or two interferences of other processes around any of the first accesses to the file system')
    LIMIT = 30

    def cases(self, hints, tier):
        for op in ('open', 'close', 'delete', 'validate', 'lock'):
            for st in STATES:
                yield (op, st, ())
        for op in ('lock', 'open', 'close', 'delete', 'validate'):
            for st in STATES:
                for k in range(36 if op == 'close' else 18):
                    for a in range(len(ACTS)):
                        yield (op, st, ((k, a),))
        if tier != 'quick':
            for op in ('lock', 'open', 'close', 'validate'):
                for st in STATES:
                    for k, l in itertools.combinations(range(14), 2):
                        for a, b in itertools.product(range(len(ACTS)), repeat=2):
                            yield (op, st, ((k, a), (l, b)))

    def check(self, case):
        op, st, script = case
        ensure_storage()
        w = Workspace('w')
        dir = w.locations.config_ws(w)
        for d in (dir, w.locations.data_ws(w)):
            if d.exists():
                subprocess.run(['rm', '-rf', str(d)], check=True)
        w.create()
        env = new_env()
        (dir / ROOT).rename(dir / (ROOT + pid_of(st)))
        exc = r = None

        def files():
            d = w.locations.data_ws(w)
            return {str(p): p.read_bytes() for p in sorted(d.rglob('*')) if p.is_file()} if d.exists() else None
        before = files()
        opened = False
        with Others(dir, files, [(k, ACTS[a]) for k, a in script]) as o:
            try:
                if op == 'lock':
                    r = w.lock_workspace()
                elif op in ('open', 'close'):
                    w.open(env)
                    r = opened = True
                    if op == 'close':
                        w.setvar('x', 1)
                        w.close(env, False)
                elif op == 'delete':
                    w.delete(env)
                    r = True
                else:
                    r = w.validate()
            except Hang:
                raise
            except marcel.exception.KillCommandException:
                r = False
            except BaseException as e:
                exc = f'{type(e).__name__}: {e}'
        if exc:
            return fail('no exception but KillCommandException', (op, st, script, exc))
        markers = sorted(x for x in os.listdir(dir) if x.startswith(ROOT)) if dir.exists() else None
        mine = markers == [ROOT + pid_of('me')]
        if op == 'delete' and r:
            ok = markers is None
        elif op == 'validate':
            ok = r == [] and len(markers) == 1 and (o.acted or markers == [ROOT + pid_of('none' if st == 'dead' else st)])
        elif op == 'close' and opened:
            ok = markers in ([ROOT], [ROOT + pid_of('live')]) and (o.acted or markers == [ROOT])
        else:
            ok = len(markers) == 1 and mine == bool(r)
        if op != 'validate' and not o.acted:
            ok = ok and bool(r) == (st != 'live')
        if ok and r is False and files() != before:
            return fail((op, st, script, 'refused: no file changes'), sorted(set(before) ^ set(files() or ())) or 'contents')
        if ok and o.taken and markers == [ROOT + pid_of('live')] and files() != o.taken:
            return fail((op, st, script, 'no file changes after another process has locked the workspace'), 'changed')
        return None if ok else fail((op, st, script, 'a single marker: of this process if and only if it has the lock'), (r, markers))


lock = _Lock()
