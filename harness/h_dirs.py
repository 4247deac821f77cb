"""cd, pushd, popd and dirs in sessions, on real directories, against a list."""
import os
import random
import shutil
import tempfile

from lib import fail
from h_ns import Session

# what is there, relative to the scratch directory
TREE = ('a', 'a/b', 'a/b/c', 'd', 'd e', 'top', 'top/a', 'home')
# arguments: (text, is it a directory), relative to the scratch directory
GOOD = ('.', 'a', 'a/b', 'a/b/c', 'd', 'link', 'top', 'top/a', 'link/c')
BAD = ('f', 'a/g', 'missing', 'a/missing', 'f/x')


def step(rng):
    k = rng.random()
    if k < 0.3:
        return (rng.choice(('cd', 'pushd')), rng.choice(('abs', 'rel', 'expr')), rng.choice(GOOD))
    if k < 0.55:
        return ('pushd', rng.choice(('abs', 'rel', 'expr')), rng.choice(GOOD))
    if k < 0.65:
        return (rng.choice(('cd', 'pushd')), rng.choice(('abs', 'rel', 'expr')), rng.choice(BAD))
    if k < 0.7:
        return (rng.choice(('cd', 'pushd')), 'text', rng.choice(('~', '..', '.', '*', '~/..')))
    if k < 0.75:
        return (rng.choice(('cd', 'pushd')), 'denied', rng.choice(('a', 'd', 'a/b')))
    return (rng.choice(('pushd', 'popd', 'popd', 'pushd', 'dirs', 'dirs -c', 'cd', 'gone')),)


def refuse(x):
    """stands in for os.chdir, to a directory without permission (root has them all)"""
    raise PermissionError(x)


class _Dirs:
    BOUNDS = ('sessions of up to 10 commands cd, pushd, popd, dirs over 9 directories, a link and files, with absolute, '
              'relative and computed arguments, missing directories, files, patterns; directories without permission; directories removed while on the stack')
    LIMIT = 30

    def cases(self, hints, tier):
        rng = random.Random(11)
        base = [('pushd', 'abs', 'a'), ('pushd', 'rel', 'a/b'), ('pushd', 'expr', 'd')]
        for s in (('pushd',), ('popd',), ('dirs',), ('dirs -c',), ('cd',), ('cd', 'rel', 'top'), ('pushd', 'rel', 'top'),
                  ('pushd', 'rel', 'f'), ('cd', 'rel', 'f'), ('pushd', 'abs', 'missing'), ('cd', 'abs', 'missing'),
                  ('cd', 'denied', 'd'), ('pushd', 'denied', 'd')):
            for n in range(4):
                for t in (('popd',), ('pushd',), ('dirs',), ('cd', 'rel', 'a/b/c')):
                    yield tuple(base[:n]) + (s, t)
        for n in range(600 if tier == 'quick' else 6000):
            yield tuple(step(rng) for _ in range(rng.randrange(1, 11)))

    def check(self, case):
        start = os.getcwd()
        home = os.environ['HOME']
        d = os.path.realpath(tempfile.mkdtemp(dir=home))
        try:
            for x in TREE:
                os.mkdir(os.path.join(d, x))
            os.symlink('a/b', os.path.join(d, 'link'))
            for x in ('f', 'a/g'):
                open(os.path.join(d, x), 'w').close()
            os.chdir(d)
            return self.play(case, d, os.path.realpath(home))
        finally:
            os.chdir(start)
            shutil.rmtree(d)

    def play(self, case, d, home):
        s = Session()
        stack = [d]
        for i, c in enumerate(case):
            stack = [x for x in stack if os.path.isdir(x)]
            if c[0] == 'gone':
                x = os.path.join(d, 'top')
                if os.path.isdir(x) and not stack[-1].startswith(x):
                    shutil.rmtree(x)
                continue
            text, ok, shows = c[0], True, c[0] != 'cd'
            to = None
            if len(c) > 1:
                here = stack[-1]
                if c[1] == 'text':
                    arg = c[2]
                    to = {'~': home, '..': os.path.dirname(here), '.': here, '~/..': os.path.dirname(home)}.get(arg)
                    if arg == '*':
                        found = [x for x in os.listdir(here)]
                        to = os.path.join(here, found[0]) if len(found) == 1 else None
                    text = f'{c[0]} {arg}'
                else:
                    to = os.path.join(d, c[2])
                    rel = os.path.relpath(to, here)
                    text = f'{c[0]} ' + {'abs': to, 'denied': to, 'rel': rel, 'expr': f"(File({rel!r}))"}[c[1]]
                ok = to is not None and os.path.isdir(to) and c[1] != 'denied'
            elif c[0] == 'cd':
                to = home
            new = list(stack)
            if to is not None and ok:
                to = os.path.realpath(to)
                if c[0] == 'cd':
                    new[-1] = to
                else:
                    new.append(to)
            elif c[0] == 'pushd' and len(c) == 1 and len(new) > 1:
                new[-2:] = [new[-1], new[-2]]
            elif c[0] == 'popd' and len(new) > 1:
                new.pop()
            elif c[0] == 'dirs -c':
                new = new[-1:]
            chdir = os.chdir
            try:
                if c[1:2] == ('denied',):
                    os.chdir = refuse
                r = s.run(text)
            finally:
                os.chdir = chdir
            got = {'failed': r.exc.split(':')[0] if r.exc else None, 'rows': [str(x[0].path) for x in r.out],
                   'errors': r.errs, 'ends': r.flushes, 'PWD': str(s.env.getvar('PWD')), 'cwd': os.getcwd(),
                   'DIRS': [str(x) for x in s.env.getvar('DIRS') if os.path.isdir(x)],
                   'dirs': [str(x[0].path) for x in s.run('dirs').out]}
            want = {'failed': None if ok else 'KillCommandException', 'rows': new[::-1] if ok and shows else [],
                    'errors': [], 'ends': 1 if ok else 0, 'PWD': new[-1], 'cwd': new[-1], 'DIRS': new, 'dirs': new[::-1]}
            if got != want:
                k = [x for x in want if want[x] != got[x]]
                return fail((" ; ".join(" ".join(x) for x in case[:i]), text, k[0], want[k[0]]), got[k[0]])
            stack = new
        return None


dirs = _Dirs()
