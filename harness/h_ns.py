"""Variables: operation sequences on the real namespace against a model; command sessions; saving and restoring."""
import math
import itertools
import random

import marcel.builtin
import marcel.env
import marcel.exception
import marcel.main
import marcel.nestednamespace
import marcel.object.workspace
from lib import fail, ensure_storage, Probe, Result, Hang
import marcel.core
import marcel.parser

IMMUTABLE = ('BOLD', 'COLOR_SCHEME', 'Color', 'DIRS', 'HOME', 'HOST', 'ITALIC', 'MARCEL_VERSION', 'pos', 'PROMPT', 'PWD',
             'USER')


def new_env():
    ensure_storage()
    marcel.object.workspace.Workspace.DEFAULT = None
    ws = marcel.object.workspace.Workspace.default()
    return marcel.env.Environment.create(workspace=ws)


class Session:
    """a command-line session"""

    def __init__(self):
        self.env = new_env()

    def run(self, text):
        log = []
        exc = None
        try:
            self.env.workspace.namespace.set_env(self.env)
            pl = marcel.parser.Parser(text, self.env).parse()
            assign = pl.executable.first_op().op_name() == 'assign'
            if not assign:
                pl = pl.append_immutable(Probe(log))
            marcel.core.Command(text, pl).execute(self.env)
        except Hang:
            raise
        except BaseException as e:
            exc = f'{type(e).__name__}: {e}'
        return Result(log, exc)


MISSING = '(none)'


class Model:
    def __init__(self):
        self.base, self.frames = {}, []

    def frame(self, x):
        for f, params in reversed(self.frames):
            if x in params:
                return f
        return self.base

    def set(self, x, v):
        self.frame(x)[x] = v

    def delete(self, x):
        return self.frame(x).pop(x, MISSING)

    def get(self, x):
        return self.frame(x).get(x, MISSING)

    def view(self, names):
        return {x: self.get(x) for x in names}


NAMES = ('p', 'q', 'x')


def play(ops):
    """-> None or failure"""
    env = new_env()
    vars_ = env.vars()
    m = Model()
    for i, op in enumerate(ops):
        k = op[0]
        if k == 'push':
            b = dict(op[1])
            m.frames.append((dict(b), set(b)))
            vars_.push_scope(b)
        elif k == 'pop':
            if m.frames:
                m.frames.pop()
                vars_.pop_scope()
        elif k == 'set':
            m.set(op[1], op[2])
            env.setvar(op[1], op[2])
        elif k == 'del':
            want = m.delete(op[1])
            try:
                got = env.delvar(op[1])
            except KeyError:
                got = MISSING
            if got != want:
                return fail(f'{ops[:i + 1]}: deletion returns {want!r}', got)
        got = {x: (vars_[x] if x in vars_ else MISSING) for x in NAMES}
        want = m.view(NAMES)
        if got != want:
            return fail(f'after {ops[:i + 1]}: {want}', got)
        got = {x: (env.getvar(x) if env.hasvar(x) else MISSING) for x in NAMES}
        if got != want:
            return fail(f'after {ops[:i + 1]}: getvar: {want}', got)
    while m.frames:
        m.frames.pop()
        vars_.pop_scope()
        got = {x: (vars_[x] if x in vars_ else MISSING) for x in NAMES}
        if got != m.view(NAMES):
            return fail(f'{ops}, and leaving the pipelines: {m.view(NAMES)}', got)
    saved = {k: v for k, v in env.workspace.persistent_state().items() if k in NAMES}
    new = marcel.nestednamespace.NestedNamespace(env)
    new.from_persistent_state(env, saved)
    got = {x: (new[x] if x in new else MISSING) for x in NAMES}
    if got != m.view(NAMES):
        return fail(f'{ops}, saved and restored: {m.view(NAMES)}', got)
    return None


ALPHABET = [('push', (('p', 1),)), ('push', (('q', 2),)), ('push', (('p', 3), ('q', None))), ('push', ()), ('pop',),
            ('set', 'p', 10), ('set', 'q', 11), ('set', 'x', 12), ('set', 'x', None), ('del', 'p'), ('del', 'q'), ('del', 'x')]


class _Scopes:
    BOUNDS = 'every sequence of at most 4 operations out of 12 (enter/leave a pipeline, assign, delete; 3 names), random longer ones'

    def cases(self, hints, tier):
        for n in range(1, 4):
            for t in itertools.product(range(len(ALPHABET)), repeat=n):
                yield ('ops', list(t))
        r = random.Random(7)
        for _ in range(300):
            yield ('ops', [r.randrange(len(ALPHABET)) for _ in range(r.randint(5, 14))])
        for t in itertools.product(range(len(ALPHABET)), repeat=4):
            yield ('ops', list(t))

    def check(self, case):
        return play([ALPHABET[i] for i in case[1]])


scopes = _Scopes()

# (commands, expected rows of the last one or the class of its exception)
SESSIONS = [
    (['p = (7)', 'f = (| p: (p + 1) |)', 'f (1)', '(p)'], [(7,)]),
    (['f = (| p: (p + 1) |)', 'f (1)', '(p)'], 'NameError'),
    (['p = (7)', 'f = (| p: (p + 1) |)', 'f (1)'], [(2,)]),
    (['p = (7)', 'q = (8)', 'f = (| p: ((p, q)) |)', 'f (1)'], [(1, 8)]),
    (['p = (7)', 'q = (8)', 'f = (| q: ((p, q)) |)', 'g = (| p: f (p + 1) |)', 'g (1)'], [(1, 2)]),
    (['p = (7)', 'q = (8)', 'f = (| q: ((p, q)) |)', 'g = (| p: f (p + 1) |)', 'g (1)', '((p, q))'], [(7, 8)]),
    (['p = (7)', 'f = (| p: (p) | map (p: 1 // p) |)', 'f (0)', '(p)'], [(7,)]),
    (['p = (7)', 'f = (| p: (1 // p) |)', 'f (0)', '(p)'], [(7,)]),
    (['p = (7)', 'f = (| p: env -d p |)', 'f (0)', '(p)'], [(7,)]),
    (['p = (7)', 'f = (| q: env -d p |)', 'f (0)', '(p)'], 'NameError'),
    (['fact = (| n, a: ifelse (n <= 1) (| (a) |) (| fact (n - 1) (a * n) |) |)', 'fact (5) (1)'], None),
    (['f = (| a: args (| b: ((a, b)) |) |)', 'gen 3 | f (9)'], [(9, 0), (9, 1), (9, 2)]),
    (['a = (5)', 'f = (| a: args (| b: ((a, b)) |) |)', 'gen 3 | f (9)', '(a)'], [(5,)]),
    (['f = (| a, b: ((a, b)) |)', 'f (1)'], [(1, None)]),
    (['f = (| a, b: ((a, b)) |)', 'f --b (1)'], [(None, 1)]),
    (['f = (| a, b: ((a, b)) |)', 'f --b (1) --a (2)'], [(2, 1)]),
    (['f = (| a, b: ((a, b)) |)', 'f --b (1) (2)'], [(2, 1)]),
    (['f = (| a, b: ((a, b)) |)', 'f --a (1) (2)'], 'KillCommandException'),
    (['f = (| a, b: ((a, b)) |)', 'f --c (1)'], 'KillCommandException'),
    (['f = (| a, b: map (x: (x, a, b)) |)', 'gen 2 | f --c (1)'], 'KillCommandException'),
    (['f = (| a, b: ((a, b)) |)', 'f --a'], 'ArgsError'),
    (['f = (| a, b: ((a, b)) |)', 'f --a (1) --a (2)'], 'ArgsError'),
    (['f = (| a, b: ((a, b)) |)', 'f (1) (2) (3)'], 'KillCommandException'),
    (['f = (| a, b: ((a, b)) |)', 'f (1) (2)', 'f (3)'], [(3, None)]),
    (['f = (| a: map (*x: (a,) + x) |)', 'gen 2 | f (1) | f (2)'], [(2, 1, 0), (2, 1, 1)]),
    (['p = (7)', 'f = (| p: gen 2 |)', 'f (1) | map (x: (x, p))'], [(0, 7), (1, 7)], [(0, 1), (1, 1)]),
    (['p = (7)', 'f = (| p: map (x: x + p) |)', 'gen 1 | f (1) | map (x: (x, p))'], [(1, 7)], [(1, 1)]),
    (['p = (7)', 'gen 1 | args (| p: (p + 1) |) | map (x: (x, p))'], [(1, 7)], [(1, 0)]),
    (['p = (7)', 'f = (| p: gen 2 |)', 'f (1)', 'gen 2 | map (x: (x, p))'], [(0, 7), (1, 7)]),
    (['f = (| a: map (x: x + a) |)', 'gen 3 | f (10) | f (100)'], [(110,), (111,), (112,)]),
    (['f = (| a: gen (a) |)', 'f (2) | union (| f (3) |)'], [(0,), (1,), (0,), (1,), (2,)]),
    (['f = (| a: gen (a) | map (x: (x, a)) |)', 'f (3) | join (| f (2) |)'], [(0, 3, 2), (1, 3, 2)]),
    (['f = (| n: head (n) |)', 'gen 10 | f (3)', 'gen 10 | f (2)'], [(0,), (1,)]),
    (['f = (| n: head (n) |)', 'gen 10 | f (3) | f (2)'], [(0,), (1,)]),
    (['f = (| select (x: x % 2 == 0) | red + |)', 'gen 5 | f'], [(6,)]),
    (['f = (| select (x: x % 2 == 0) | red + |)', 'gen 5 | f', 'gen 3 | f'], [(2,)]),
    (['f = (| sort |)', 'gen 3 | map (x: -x) | f', 'gen 2 | f'], [(0,), (1,)]),
    (['f = (| sort | head 2 |)', 'gen 5 | f | map (x: x + 1)'], [(1,), (2,)]),
    (['x = (1)', 'env -d x', 'x = (2)', '(x)'], [(2,)]),
    (['x = (1)', 'y = (x + 1)', 'x = (10)', '((x, y))'], [(10, 2)]),
    (['x = abc', '(x)'], [('abc',)]),
    (['x = (0)', 'env x'], [('x', 0)]),
    (['f = (lambda x: x + 1)', '(f(3))'], [(4,)]),
    (['f = (lambda x: x + 1)', 'gen 2 | map (x: f(f(x)))'], [(2,), (3,)]),
    (['x = (1)', 'f = (| (x) |)', 'x = (2)', 'f'], [(2,)]),
    (['f = (| gen 2 |)', 'g = (| f | map (x: x + 1) |)', 'f = (| gen 3 |)', 'g'], [(1,), (2,), (3,)]),
    (['nosuch = (| (1) |)', 'env -d nosuch', 'nosuch'], None),
    (['(HOME)', 'HOME = (1)'], None),
    (['import math', '(math.floor(2.5))'], [(2,)]),
    (['import math floor', '(floor(2.5))'], [(2,)]),
    (['import math floor as fl', '(fl(2.5))'], None),
]


class _Sessions:
    BOUNDS = f'{len(SESSIONS)} sessions of commands with known results; each also with an unrelated variable and twice over'

    def cases(self, hints, tier):
        for i in range(len(SESSIONS)):
            for v in ('plain', 'twice', 'save'):
                yield ('session', i, v)

    def check(self, case):
        _, i, variant = case
        cmds, want = SESSIONS[i][:2]
        wrong = SESSIONS[i][2] if len(SESSIONS[i]) > 2 else None
        if want is None:
            return None
        s = Session()
        s.run('unrelated = (99)')
        last = None
        if variant == 'twice':
            cmds = cmds + cmds[-1:]
            if any(c.startswith('env -d') for c in cmds[-1:]):
                return None
        for j, c in enumerate(cmds):
            if variant == 'save' and j == len(cmds) - 1:
                # save the variables, and go on in a new session which restores them
                state = s.env.workspace.persistent_state()
                import dill
                state = dill.loads(dill.dumps(state))
                t = Session()
                t.env.vars().from_persistent_state(t.env, state)
                s = t
            last = s.run(c)
        if isinstance(want, str):
            ok = last.exc is not None and (want in last.exc or any(want in e for e in last.errs)) or \
                any(want in e for e in last.errs)
            if not ok:
                return fail(f'{cmds}: {want}', last.brief())
        else:
            if (last.out, last.errs, last.exc) != (want, [], None):
                key = 'downstream: ' + cmds[-1] if last.out == wrong and last.exc is None else None
                return fail(f'{cmds}: {want}', last.brief(), key)
        u = s.run('(unrelated)')
        if u.out != [(99,)]:
            return fail(f'{cmds}: another variable keeps its value', u.brief())
        if s.env.vars().n_scopes() != 1:
            return fail(f'{cmds}: one scope', s.env.vars().n_scopes())
        return None


sessions = _Sessions()


class _Immutable:
    BOUNDS = 'every documented immutable variable x (assign, delete, import), enforced and not; changes()'

    def cases(self, hints, tier):
        for x in IMMUTABLE:
            for how in ('assign', 'delete', 'import'):
                yield ('immutable', x, how, True)
        for x in ('zzz', 'PROMPT_DIR', 'o', 'DB_DEFAULT'):
            for how in ('assign', 'delete', 'import'):
                yield ('immutable', x, how, False)
        for x in ('abc', 'r_sum', 'parse_args'):
            yield ('startup', x)
        yield ('builtins',)
        for src in ('None', '0', "''", '[]', '5', "'x'", 'False', 'lambda x: x', '{}', 'print', 'str'):
            for how in ('assign', 'delete', 'import'):
                yield ('script', src, how)
        for x in sorted(marcel.env.Environment.never_mutable()):
            yield ('never', x)
        for seq in itertools.product((('set', 'a', 1), ('set', 'b', 2), ('set', 'a', 3), ('del', 'a'), ('clear',),
                                      ('written', 'b')), repeat=3):
            yield ('changes', seq)

    def check(self, case):
        env = new_env()
        if case[0] == 'builtins':
            pass
            for k, v in vars(marcel.builtin).items():
                if not k.startswith('_') and env.getvar(k) is not v:
                    return fail(f'{k} is bound to {v!r}', env.getvar(k))
            return None
        if case[0] in ('script', 'never'):
            ws = env.workspace
            startup = ws.locations.config_ws_startup(ws)
            text = startup.read_text()
            try:
                startup.write_text(text + (f'\nMine = {case[1]}\nother = 1\n' if case[0] == 'script' else
                                           f'\n{case[1]} = "x"\n'))
                try:
                    env = new_env()
                except marcel.exception.KillCommandException:
                    return None if case[0] == 'never' else fail('startup script accepted', 'refused')
                if case[0] == 'never':
                    return fail(f'startup script that changes {case[1]} refused', env.getvar(case[1]))
                if not env.hasvar('Mine') or not env.hasvar('other') or env.getvar('other') != 1:
                    return fail('variables of the startup script', 'missing')
                env.enforce_var_immutability()
                return self.attempt(env, 'Mine', case[2], True)
            finally:
                startup.write_text(text)
        if case[0] == 'changes':
            model, written = {}, set()
            env.clear_changes()
            for op in case[1]:
                if op[0] == 'set':
                    env.setvar(op[1], op[2])
                    model[op[1]] = op[2]
                    written.add(op[1])
                elif op[0] == 'del':
                    try:
                        env.delvar(op[1])
                    except KeyError:
                        pass
                    model.pop(op[1], None)
                    written.discard(op[1])
                elif op[0] == 'written':
                    env.mark_possibly_changed(op[1])
                    written.add(op[1])
                else:
                    env.clear_changes()
                    written.clear()
            want = {x: model[x] for x in written if x in model}
            return None if env.changes() == want else fail(f'{case[1]}: changes {want}', env.changes())
        if case[0] == 'startup':
            env.workspace.add_immutable_vars([case[1]])
            env.setvar(case[1], 1)      # not enforced yet
            env.enforce_var_immutability()
            return self.attempt(env, case[1], 'assign', True)
        env.enforce_var_immutability()
        return self.attempt(env, *case[1:])

    def attempt(self, env, x, how, protected):
        before = env.getvar(x)
        has = env.hasvar(x)
        saved = dict(env.workspace.persistent_state())
        new = object()
        try:
            if how == 'assign':
                env.setvar(x, 5)
            elif how == 'delete':
                env.delvar(x)
            else:
                env.workspace.setvar_import(x, 'math', 'floor', 5)
            r = 'accepted'
        except marcel.exception.KillCommandException:
            r = 'refused'
        except KeyError:
            r = 'missing'
        after = env.getvar(x)
        if protected:
            if r != 'refused' or after is not before or env.hasvar(x) != has or \
                    set(env.workspace.persistent_state()) != set(saved):
                return fail(f'{how} {x}: refused, {before!r} kept', (r, after))
        elif how == 'delete':
            if r != ('accepted' if has else 'missing') or env.hasvar(x):
                return fail(f'{how} {x}: accepted', (r, after))
        elif r != 'accepted' or after != 5:
            return fail(f'{how} {x}: accepted, 5', (r, after))
        return None


immutable = _Immutable()


SAVED = [
    # commands; then (expression, rows) to be evaluated before saving, after opening again, and once more
    (['a = 5', 'b = (7)', 'c = ([1, 2])', 'd = ({"x": (1, 2)})', 'n = (None)', 'e = ("")'],
     [('(a)', [('5',)]), ('(b)', [(7,)]), ('(c)', [[1, 2]]), ('(d)', [({'x': (1, 2)},)]), ('(n)', [(None,)]), ('(e)', [('',)])]),
    (['f = (lambda x: x + 1)', 'g = (x, y: (y, x))', 'h = (f)'], [('(f(1))', [(2,)]), ('(g(1, 2))', [(2, 1)]), ('(h(2))', [(3,)])]),
    (['p = (| n, m: gen (n) | map (x: x + m) |)', 'q = (| gen 2 |)'], [('p (2) (5)', [(5,), (6,)]), ('q', [(0,), (1,)])]),
    (['import math', 'import math sqrt', 'import os path', 'import --as j json'],
     [('(math.floor(2.5))', [(2,)]), ('(sqrt(4))', [(2.0,)]), ('(path.join("a", "b"))', [('a/b',)]), ('(j.dumps(1))', [('1',)])]),
    (['s = (len)', 't = (print)', 'u = (int)', 'w = (sorted)'], [('(s([1]))', [(1,)]), ('(u("5"))', [(5,)]), ('(w([2, 1]))', [[1, 2]])]),
    (['up = ("abc".upper)', 'get = ({1: 2}.get)', 'fk = (dict.fromkeys)'], [('(up())', [('ABC',)]), ('(get(1))', [(2,)])]),
    (['gen 3 >$ r', 'gen 2 >>$ r'], [('r <$', [(0,), (1,), (2,), (0,), (1,)])]),
    (['a = 1', 'a = 2', 'b = (3)', 'env -d b'], [('(a)', [('2',)]), ('(b)', None)]),
    (['n = 1', 'p = (| n: gen (n) |)', 'p (2)'], [('(n)', [('1',)])]),
    (['x = (1)', 'f = (y: y + x)', 'x = (10)'], [('(f(1))', [(11,)])]),
    (['f = (x: x + 1)', 'g = (f)', 'env -d f'], [('(g(1))', [(2,)])]),
    (['f = (x: x + 1)', 'g = (f)', 'f = (x: x + 100)'], [('(g(1))', [(2,)])]),
]


class _Saved:
    BOUNDS = 'sessions that set variables of all kinds, saved and opened again twice, named and default workspace; 300 random sequences of assignments for what a command reports'

    def cases(self, hints, tier):
        for i, (cmds, reads) in enumerate(SAVED):
            for named in (True, False):
                yield ('saved', i, named)
        rng = random.Random(5)
        for n in range(300 if tier == 'quick' else 3000):
            yield ('changes', tuple((rng.choice(('set', 'set', 'del', 'import', 'mark', 'clear', 'get')), rng.choice('abc'),
                                     rng.choice((None, 0, '', 5, False, (), 'v'))) for _ in range(rng.randrange(1, 7))))

    def changes(self, ops):
        """what a command reports as changed: the variables it wrote that still exist, with their values"""
        env = new_env()
        env.clear_changes()
        model, written = {}, set()
        for op, x, v in ops:
            if op == 'set':
                env.setvar(x, v)
                model[x] = v
                written.add(x)
            elif op == 'del':
                if x in model:
                    env.delvar(x)
                    del model[x]
            elif op == 'import':
                env.workspace.setvar_import(x, 'math', 'pi', math.pi)
                model[x] = math.pi
                # whether an import counts as a change is not tested
                written.discard(x)
            elif op == 'mark':
                env.mark_possibly_changed(x)
                written.add(x)
            elif op == 'clear':
                env.clear_changes()
                written.clear()
            else:
                if env.getvar(x) != model.get(x):
                    return fail(f'{ops}: {x} = {model.get(x)}', env.getvar(x))
        got = env.changes()
        want = {x: model[x] for x in written if x in model}
        imported = {x for op, x, v in ops if op == 'import'}
        if {x: v for x, v in got.items() if x not in imported} != {x: v for x, v in want.items() if x not in imported}:
            return fail(f'{ops}: {want}', got)
        return None

    def check(self, case):
        if case[0] == 'changes':
            return self.changes(case[1])
        cmds, reads = SAVED[case[1]]
        W = marcel.object.workspace
        ensure_storage()
        W.Workspace.DEFAULT = None
        default = W.Workspace.default()
        name = f'w{case[1]}'
        if case[2]:
            ws = W.Workspace(name)
            if not ws.exists():
                ws.create()
        else:
            ws = default
        s = Session.__new__(Session)
        s.env = marcel.env.Environment.create(workspace=ws)
        mine = set(s.env.workspace.persistent_state())
        for x in mine:
            s.env.delvar(x)
        for t in cmds:
            s.run(t)
        key = 'reopen: ' + '; '.join(cmds)
        for again in range(3):
            before = set(s.env.workspace.persistent_state())
            for t, want in reads:
                r = s.run(t)
                if want is None:
                    ok = r.out == [] and r.exc is not None or r.out == [(None,)]
                else:
                    ok = r.out == want and r.exc is None and r.errs == []
                if not ok:
                    return fail(f'{cmds}, opened {again} times again: {t} -> {want}', r.brief(), key if again else None)
            try:
                s.env.workspace.close(s.env, True)
                ws = W.Workspace(name) if case[2] else W.WorkspaceDefault()
                s.env = marcel.env.Environment.create(workspace=ws)
            except BaseException as e:
                if isinstance(e, Hang):
                    raise
                try:
                    W.Workspace(name).locations.data_ws_env(ws).unlink()
                except OSError:
                    pass
                return fail(f'{cmds}: opened again', f'{type(e).__name__}: {e}', key)
            after = set(s.env.workspace.persistent_state())
            if after != before:
                return fail(f'{cmds}: the same variables saved', sorted(before ^ after), key)
        s.env.workspace.close(s.env, True)
        return None


saved = _Saved()
