"""Planted bugs: small changes to marcel that pass its tests and break one property (see tools/plant.py)."""

SEEDS = []


def S(id, property, edits, needs, breaks, demo):
    if isinstance(edits, tuple):
        edits = [edits]
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


S('tail-cursor-kept', 'C02', ('marcel/op/tail.py', '''        self.impl = TailKeepN(self, n) if n > 0 else TailSkipN(self, -n)
''', '''        if self.impl is None or self.impl.n != abs(n) or isinstance(self.impl, TailKeepN) != (n > 0):
            self.impl = TailKeepN(self, n) if n > 0 else TailSkipN(self, -n)
'''), 'the same operator run twice, the first run seeing more than N rows, and not a multiple of N',
  'the cursor of the circular queue survives from the first run, so the second run outputs rows out of order',
  '''
import marcel.api as api
r = run_twice([1, 2, 3, 4], [5, 6, 7, 8], api.tail(3))
assert r.out == [(6,), (7,), (8,)], r.brief()
''')

S('head-received-kept', 'C01', ('marcel/op/head.py', '''        self.impl = HeadKeepN(self, n) if n > 0 else HeadSkipN(self, -n)
''', '''        if self.impl is None or self.impl.received > self.impl.n:
            self.impl = HeadKeepN(self, n) if n > 0 else HeadSkipN(self, -n)
'''), 'the same operator run twice, the first run seeing between 1 and N rows',
  'the count of rows received carries over from an earlier short run',
  '''
import marcel.api as api
r = run_twice([1, 2], [1, 2, 3, 4, 5], api.head(3))
assert r.out == [(1,), (2,), (3,)], r.brief()
''')

S('sort-unstable-desc', 'C03', ('marcel/op/sort.py', '''                    self.contents.sort(key=(lambda t: self.call(env, self.key, *t)))
''', '''                    self.contents.sort(key=(lambda t: (self.call(env, self.key, *t), len(t))))
'''), 'a sort by key, with rows of different lengths and equal keys, the longer first',
  'rows with equal keys are reordered by length', '''
import marcel.api as api
rows = [(1, 2, 3), (1, 2), (0, 5)]
r = run(rows, api.sort(lambda *t: t[0]))
assert r.out == [(0, 5), (1, 2, 3), (1, 2)], r.brief()
''')

S('reverse-pairs', 'C03', ('marcel/op/reverse.py', '''    def receive(self, env, x):
        self.contents.append(x)
''', '''    def receive(self, env, x):
        if x is not None and (len(x) > 0 or len(self.contents) == 0):
            self.contents.append(x)
'''), 'an empty row that is not the first', 'reverse drops empty rows', '''
import marcel.api as api
r = run([(1,), (), (2,)], api.reverse())
assert r.out == [(2,), (), (1,)], r.brief()
''')

S('unique-none', 'C04', ('marcel/op/unique.py', '''        if self.current != x:
            self.op.send(env, x)
            self.current = x
''', '''        if self.current is None or self.current[:8] != x[:8]:
            self.op.send(env, x)
            self.current = x
'''), 'unique -c on rows that first differ beyond the eighth component',
  'adjacent rows that share their first eight components are taken for equal', '''
import marcel.api as api
a, b = tuple(range(9)), tuple(range(8)) + (99,)
r = run([a, b], api.unique(consecutive=True))
assert r.out == [a, b], r.brief()
''')

S('window-pred-shared', 'C05', ('marcel/op/window.py', '''            self.window_generator = PredicateWindow(self)
''', '''            self.window_generator = self.window_generator or PredicateWindow(self)
'''), 'a predicate window run again after a run that was killed before its end of stream',
  'rows of the killed run show up in the first window of the next run', '''
import marcel.api as api
import marcel.exception
class Killed(Source):
    def run(self, env):
        super().run(env)
        if self.rows[0] == -1:
            raise marcel.exception.KillCommandException('killed')
log = []
src = Killed([-1, -2])
pe = marcel.pipeline.PipelineExecutable()
env = api_env()
for op in [src] + ops_of(api.window(lambda x: x > 2)) + [Probe(log)]:
    pe.append(op)
execute(pe, env)
del log[:]
src.rows = [1, 2, 3, 4]
r = Result(log, execute(pe, env))
assert r.out == [(1, 2), (3,), (4,)], r.brief()
''')

S('call-args-resume', 'C06', ('marcel/core.py', '''            args_description = None if len(function_input) == 0 else ', '.join(function_input)
''', '''            args_description = None if len(function_input) == 0 else ', '.join(function_input)
            if args and len(args) > 3:
                self.non_fatal_error(env, args_description, f'{type(e)}: {e}')
                return None
'''), 'a function that fails on a row of four or more components', 'the failing row yields an error and also an output row', '''
import marcel.api as api
r = run([(1, 2, 3, 4), (1, 0, 3, 0), (2, 1, 1, 1)], api.map(lambda a, b, c, d: a // b))
assert r.out == [(0,), (2,)] and len(r.errs) == 1, r.brief()
''')

S('select-direct', 'C06', ('marcel/op/select.py', '''        fx = self.call(env, self.function, *x)
        if fx:
''', '''        try:
            fx = self.function(*x)
        except KeyError:
            fx = False
        except Exception as e:
            self.fatal_error(env, x, str(e))
        if fx:
'''), 'a select function that raises KeyError', 'the failing row is dropped without an error', '''
import marcel.api as api
d = {1: True}
r = run([(1,), (2,), (1,)], api.select(lambda x: d[x]))
assert r.out == [(1,), (1,)] and len(r.errs) == 1, r.brief()
''')

S('expand-list-rows', 'C07', ('marcel/op/expand.py', '''            pre = sequence[:self.position]
''', '''            pre = sequence[:min(self.position, 4)]
'''), 'expand at a position greater than four', 'components between the fifth and the expanded one are lost', '''
import marcel.api as api
r = run([(0, 1, 2, 3, 4, [5, 6])], api.expand(5))
assert r.out == [(0, 1, 2, 3, 4, 5), (0, 1, 2, 3, 4, 6)], r.brief()
''')

S('red-group-str', 'C08', ('marcel/op/red.py', '''        for p in self.grouping_positions:
            group.append(x[p])
''', '''        for p in self.grouping_positions:
            group.append(str(x[p]))
'''), 'two different group values with the same text, such as 1 and "1"', 'rows of different groups are folded together', '''
import marcel.api as api
r = run([(1, 5), ('1', 6), (1, 7)], api.red(None, lambda a, x: x if a is None else a + x))
assert r.out == [(1, 12), ('1', 6)], r.brief()
''')

S('red-inc-skips-none', 'C09', ('marcel/op/red.py', '''            assert x is not None
            accumulator[i] = op.call(env, functions[i], accumulator[i], x[i])
''', '''            assert x is not None
            if x[i] is not None:
                accumulator[i] = op.call(env, functions[i], accumulator[i], x[i])
'''), 'a None among the values reduced, and a function that is not indifferent to it', 'None values are not passed to the function', '''
import marcel.api as api
f = lambda a, x: (a or 0) + (100 if x is None else x)
r = run([(1,), (None,), (2,)], api.red(f, incremental=True))
assert r.out == [(1, 1), (None, 101), (2, 103)], r.brief()
''')

S('squish-single', 'C10', ('marcel/op/squish.py', '''        self.send(env, functools.reduce(lambda *args, **kwargs: self.call(env, self.function, *args, **kwargs),
                                        x,
                                        None))
''', '''        if len(x) == 1:
            self.send(env, x[0])
            return
        self.send(env, functools.reduce(lambda *args, **kwargs: self.call(env, self.function, *args, **kwargs),
                                        x,
                                        None))
'''), 'a row of one component and a function with f(None, x) != x', 'rows of one component are passed on without calling the function', '''
import marcel.api as api
r = run([(1, 2), (3,)], api.squish(lambda a, x: (a or []) + [x]))
assert r.out == [[1, 2], [3]], r.brief()
''')

S('difference-cap', 'C11', ('marcel/op/difference.py', '''                self.right[x] = 1 if count is None else count + 1
''', '''                self.right[x] = 1 if count is None else min(count + 1, 200)
'''), 'more than 200 equal rows in the pipeline', 'occurrences beyond 200 are not counted', '''
import marcel.api as api
r = run([(7,)] * 260, api.difference(api.gen(250) | api.map(lambda i: 7)))
assert r.out == [(7,)] * 10, len(r.out)
''')

S('union-none', 'C11', ('marcel/op/union.py', '''        for pipeline in self.pipelines:
            pipeline.run_pipeline(env, {})
        self.propagate_flush(env)
''', '''        for pipeline in dict.fromkeys(self.pipelines):
            pipeline.run_pipeline(env, {})
            if getattr(pipeline, 'error', None):
                break
        self.pipelines = self.pipelines[:1]
        self.propagate_flush(env)
'''), 'union with several pipelines, run again', 'only the first pipeline contributes when the operator is run again', '''
import marcel.api as api
r = run_twice([1], [2], api.union(api.gen(1), api.gen(2)))
assert r.out == [(2,), (0,), (0,), (1,)], r.brief()
''')

S('filter-empty', 'C12', ('marcel/op/filter.py', '''            if (c in self.right) == self.keep:
''', '''            if (c in self.right if self.right else True) == self.keep:
'''), 'a pipeline that delivers nothing', 'filter passes everything (with --discard nothing) when the pipeline is empty', '''
import marcel.api as api
r = run([1, 2], api.filt(api.gen(3) | api.select(lambda x: False)))
assert r.out == [], r.brief()
''')

S('join-dedup', 'C13', ('marcel/op/join.py', '''                elif type(match) is list:
                    match.append(x)
''', '''                elif type(match) is list:
                    if x not in match:
                        match.append(x)
'''), 'a third row of the pipeline equal to one of the first two with the same join value', 'repeated rows of the pipeline are joined once', '''
import marcel.api as api
r = run([(1, 'a')], api.join(api.gen(3) | api.map(lambda i: (1, 'x'))))
assert r.out == [(1, 'a', 'x')] * 3, r.brief()
''')


S('case-truth', 'C14', ('marcel/op/case.py', '''            if px:
''', '''            if px is True or (px and type(px) is not int):
'''), 'a predicate returning a number other than 0 and 1, as if: x % 2', 'predicates returning integers never select their pipeline', '''
import marcel.api as api
r = run([1, 2, 3], api.case(lambda x: x % 2, api.map(lambda x: (x, 'odd')), api.map(lambda x: (x, 'even'))))
assert r.out == [(1, 'odd'), (2, 'even'), (3, 'odd')], r.brief()
''')

S('case-error-default', 'C14', ('marcel/op/case.py', '''                pipeline = branch.pipeline
                break
''', '''                pipeline = branch.pipeline
                if pipeline is not self.branches[0].pipeline or len(self.branches) < 3:
                    break
'''), 'at least three predicates, of which the first and a later one are true', 'the last true predicate wins over the first', '''
import marcel.api as api
r = run([1, 30], api.case(lambda x: x > 10, api.map(lambda x: 'a'), lambda x: x > 20, api.map(lambda x: 'b'),
                          lambda x: x > 40, api.map(lambda x: 'c')))
assert r.out == [('a',)], r.brief()
''')

S('args-falsy', 'C15', ('marcel/op/args.py', '''        if len(self.args) > 0:
''', '''        if any(self.args):
'''), 'a last, incomplete group (or all of the input, with --all) of values which are all false, as 0',
  'the last group is dropped', '''
import marcel.api as api
r = run([5, 6, 0], api.args(lambda a, b: api.gen(1) | api.map(lambda x: (a, b))))
assert r.out == [(5, 6), (0, None)], r.brief()
''')

S('gen-negative', 'C16', ('marcel/op/gen.py', '''        if self.count is None or self.count == 0:
''', '''        if not self.count or self.count < 0:
'''), 'a negative COUNT (typically computed)', 'numbers for ever instead of none', '''
import marcel.api as api
class Enough(Exception):
    pass
seen = []
def note(x):
    seen.append(x)
    if len(seen) > 3:
        raise KeyboardInterrupt()
try:
    for r in api.gen(-2, 5) | api.map(note):
        pass
except BaseException as e:
    pass
assert seen == [], seen
''')

S('scope-root', 'C17', ('marcel/nestednamespace.py', '''        else:
            self.parent.store_item(var, value)
''', '''        else:
            scope = self.parent
            while scope.parent is not None and not any(p.params for p in (scope, scope.parent) if var in scope.params):
                scope = scope.parent if scope.parent.parent is None else scope.parent.parent
            scope.store_item(var, value)
'''), 'an assignment three pipelines deep to a parameter of the second', 'the assignment goes to the variable everybody sees', '''
import h_ns
env = h_ns.new_env()
ns = env.vars()
env.setvar('x', 1)
ns.push_scope({'a': 0})
ns.push_scope({'x': 2})
ns.push_scope({'b': 0})
ns.push_scope({'c': 0})
env.setvar('x', 3)
for _ in range(4):
    ns.pop_scope()
assert env.getvar('x') == 1 and ns.scopes[0]['x'].unwrap() == 1, (env.getvar('x'), ns.scopes[0]['x'].unwrap())
''')

S('startup-upper', 'C18', ('marcel/object/workspace.py', '''                self.add_immutable_vars(config_dict.keys())
''', '''                self.add_immutable_vars(var for var, value in config_dict.items() if value is not None)
'''), 'a variable set to None by the startup script', 'such a variable can be changed and deleted by commands', '''
import h_ns, pathlib
import marcel.locations
env = h_ns.new_env()
ws = env.workspace
startup = ws.locations.config_ws_startup(ws)
startup.write_text(startup.read_text() + "\\nnothing = None\\n")
env = h_ns.new_env()
env.enforce_var_immutability()
assert env.hasvar('nothing')
try:
    env.setvar('nothing', 5)
    assert False, 'changed'
except h_ns.marcel.exception.KillCommandException:
    pass
assert env.getvar('nothing') is None
''')

S('run-cleanup-exc', 'C19', ('marcel/pipeline.py', '''                try:
                    self.state = PipelineMarcel.State.RUNNING
                    self.executable.run(env)
                    self.executable.flush(env)
                finally:
                    self.executable.cleanup()
''', '''                self.state = PipelineMarcel.State.RUNNING
                try:
                    self.executable.run(env)
                    self.executable.flush(env)
                except marcel.exception.KillCommandException:
                    self.executable.cleanup()
                    raise
                self.executable.cleanup()
'''), 'a failure other than KillCommandException while the pipeline runs', 'the operators are not cleaned up', '''
import marcel.pipeline
import h_ns
env = h_ns.new_env()
class Bad(marcel.core.Op):
    cleaned = 0
    def run(self, env):
        raise OSError('disk')
    def cleanup(self):
        Bad.cleaned += 1
pe = marcel.pipeline.PipelineExecutable()
pe.append(Bad())
try:
    marcel.pipeline.PipelineMarcel(pe, '').run_pipeline(env, {})
    assert False
except OSError:
    pass
assert Bad.cleaned == 1, Bad.cleaned
''')

S('runvar-receive-leak', 'C20', ('marcel/op/runpipeline.py', '''        try:
            self.pipeline.receive(env, x)
        finally:
            env.vars().pop_scope()
''', '''        try:
            self.pipeline.receive(env, x)
        except marcel.exception.KillAndResumeException:
            env.vars().pop_scope()
            raise
        env.vars().pop_scope()
'''), 'a pipeline variable with a parameter, receiving rows, ended by a failure', 'the parameter stays bound after the command', '''
import h_ns
s = h_ns.Session()
s.run('x = 7')
s.run('n = (: None)')
s.run('f = (| x: args (| y: n (x) |) |)')
r = s.run('gen 3 | f 5')
assert r.exc is not None, r.brief()
assert s.env.getvar('x') == '7' and s.env.vars().n_scopes() == 1, (s.env.getvar('x'), s.env.vars().n_scopes())
''')

S('import-alias', 'C21', ('marcel/nestednamespace.py', """        return {'module': self.module, 'symbol': self.symbol}
""", """        return {'module': self.module, 'symbol': self.name if self.symbol else None}
"""), 'import of a symbol under another name, the workspace saved and opened again', 'the variable is looked up by the wrong name', '''
import marcel.nestednamespace as N
import h_ns
env = h_ns.new_env()
import math
a = N.Import.new(env, 'math', 'floor', 'down', math.floor)
b = N.EnvValue.restore(env, 'Import', a.to_persistent_state())
assert b.unwrap() is math.floor
''')

S('changes-none', 'C21', ('marcel/object/workspace.py', """            value = self.namespace.get(var, VarHandler.MISSING_VAR)
            if value is not VarHandler.MISSING_VAR:
""", """            value = self.namespace.get(var)
            if value is not None:
"""), 'a variable assigned None by a command run in a child process', 'the assignment is lost', '''
import h_ns
env = h_ns.new_env()
env.setvar('x', 1)
env.clear_changes()
env.setvar('x', None)
c = env.changes()
assert 'x' in c and c['x'] is None, c
''')

S('load-empty-row', 'C22', ('marcel/op/load.py', """            while True:
                self.send(env, next(self.reader))
""", """            while row := next(self.reader):
                self.send(env, row)
            self.reader.close()
"""), 'an empty row among those stored', 'the rows after it are not loaded', '''
import h_ns
s = h_ns.Session()
s.run('gen 3 | map (i: () if i == 1 else (i,)) >$ x')
r = s.run('x <$')
assert r.out == [(0,), (), (2,)], r.brief()
''')

S('append-while-read', 'C22', ('marcel/picklefile.py', """    def writer(self, append):
        self.check_availability(len(self._readers) == 0 and self._writer is None)
""", """    def writer(self, append):
        # Appending doesn't disturb readers
        self.check_availability((append or len(self._readers) == 0) and self._writer is None)
"""), 'a command which appends to the variable that it loads', 'it is not refused, and the variable grows', '''
import h_ns
s = h_ns.Session()
s.run('gen 3 >$ x')
s.run('x <$ >>$ x')
r = s.run('x <$')
assert r.out == [(0,), (1,), (2,)], r.brief()
''')

S('dirs-keep-dead', 'C23', ('marcel/directorystate.py', """    def push_dir(self, directory):
        self._clean_dir_stack()
        # Operate""", """    def push_dir(self, directory):
        # Operate"""), 'pushd with no argument, after the directory below the top was removed',
  'it goes to the home directory, and leaves the stack with the directory that is gone', '''
import os, tempfile
import h_ns
d = os.path.realpath(tempfile.mkdtemp(dir=os.environ['HOME']))
os.chdir(d)
s = h_ns.Session()
for x in 'abc':
    os.mkdir(x)
for x in 'abc':
    s.run(f'pushd {d}/{x}')
os.rmdir(f'{d}/b')
r = s.run('pushd')
assert r.exc is None and [str(x[0].path) for x in r.out] == [f'{d}/a', f'{d}/c', d], r.brief()
assert os.getcwd() == f'{d}/a'
''')

S('push-refused', 'C23', [('marcel/directorystate.py', """        dir_stack = list(self._dir_stack())
        if directory is None:""", """        dir_stack = self._dir_stack()
        if directory is None:""")], 'pushd to a directory that may not be entered, or swapping',
  'the directory stack changes although the current directory does not', '''
import os, tempfile
import h_ns
d = os.path.realpath(tempfile.mkdtemp(dir=os.environ['HOME']))
os.chdir(d)
s = h_ns.Session()
os.mkdir('a')
chdir = os.chdir
def refuse(x):
    raise PermissionError(x)
os.chdir = refuse
r = s.run(f'pushd {d}/a')
os.chdir = chdir
assert r.exc.startswith('KillCommandException'), r.brief()
r = s.run('dirs')
assert [str(x[0].path) for x in r.out] == [d], r.brief()
''')

LOCK = '''
import os, subprocess
import marcel.object.workspace, marcel.exception
import lib, h_ns
lib.ensure_storage()
env = h_ns.new_env()
w = marcel.object.workspace.Workspace('w')
w.create()
d = w.locations.config_ws(w)
mine = d / f'.WORKSPACE.{os.getpid()}'
'''

S('close-unlocks-first', 'C24', ('marcel/object/workspace.py', """            # Environment
            self.write_environment(self.persistent_state())
            # Mark this workspace object as closed
            self.properties = None
            # Discard workspace
            self.namespace = None
            # Unlock
            self.unlock_workspace()
""", """            # Unlock
            state = self.persistent_state()
            self.unlock_workspace()
            # Environment
            self.write_environment(state)
            # Mark this workspace object as closed
            self.properties = None
            # Discard workspace
            self.namespace = None
"""), 'another session opens the workspace while this one is closing it',
  'the other session starts without the variables saved, and both write the environment', LOCK + '''
w.open(env)
seen = []
write = type(w).write_environment
def write_environment(self, state):
    seen.append(mine.exists())
    write(self, state)
type(w).write_environment = write_environment
w.close(env, False)
assert seen == [True]
''')

S('lock-unchecked', 'C24', ('marcel/object/workspace.py', """        elif owner == self.locations.ppid:
            # Locked by parent. This process must be owned by a job executing on behalf of the parent.
            return True
""", """        elif owner == self.locations.ppid or self.properties is not None:
            # Locked by parent, or still open. This process must be owned by a job executing on behalf of the parent.
            return True
"""), 'a workspace object just created, or whose properties have been read, of a workspace that another process has opened',
  'it is locked by both', LOCK + '''
os.rename(d / '.WORKSPACE', d / '.WORKSPACE.1')
w.read_properties()
try:
    w.open(env)
except marcel.exception.KillCommandException:
    pass
else:
    raise Exception('opened twice')
''')

S('delete-first', 'C24', ('marcel/object/workspace.py', """            if self.lock_workspace():
                locations = self.locations
                # config directory
                owned_marker_path""", """            # Start with the files that are of no use to anybody else
            self.locations.data_ws_hist(self).unlink(missing_ok=True)
            if self.lock_workspace():
                locations = self.locations
                # config directory
                owned_marker_path"""), 'ws -d of a workspace that another process has opened',
  'the delete is refused, but the history is gone', LOCK + '''
os.rename(d / '.WORKSPACE', d / '.WORKSPACE.1')
try:
    w.delete(env)
except marcel.exception.KillCommandException:
    assert w.locations.data_ws_hist(w).exists()
else:
    raise Exception('deleted')
''')
