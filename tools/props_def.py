"""Single source of properties.jsonl and MANIFEST.json (written by tools/gen.py)."""

PIPE = ['marcel/core.py', 'marcel/pipeline.py']
TESTS_OP = 'The existing tests run this operator on a handful of fixed streams of a few rows each, once per operator object.'


def prop(id, title, statement, over, qtext, why, files, mech, level='proof', note='', na=None, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                level=level, note=note, na=na, observe=observe)


STD = ('Every obligation generated from the current source is discharged by an SMT solver, for every stream length and '
       'content; loops are cut by inductive invariants. Trusts the verification-condition generator pyvc (self-checked '
       'against CPython), the solver, and the assumptions listed in the evidence. A bounded concrete companion runs '
       'the real operator through both front ends and is not counted as proof.')

PROPS = [
    prop('C01', 'head N keeps exactly the first N rows; head -N drops exactly those',
         'For N > 0, head N outputs exactly the first N input rows (all of them if there are fewer), and head -N outputs '
         'exactly all rows but the first N, each unchanged, in input order, followed by one end of stream. head 0 is rejected. '
         'This holds again when the same operator is run again.',
         ['inputs'], 'every integer N other than 0, every stream length and content, N given as a value or a function',
         TESTS_OP, ['marcel/op/head.py'], [('Head strategies', 'marcel/op/head.py')]),
    prop('C02', 'tail N keeps exactly the last N rows; tail -N drops exactly those',
         'For N > 0, tail N outputs exactly the last N input rows (all of them if there are fewer), and tail -N outputs '
         'exactly all rows but the last N, each unchanged, in input order, followed by one end of stream. tail 0 is rejected. '
         'This holds again when the same operator is run again.',
         ['inputs'], 'every integer N other than 0, every stream length and content, N given as a value or a function',
         TESTS_OP, ['marcel/op/tail.py'], [('Tail strategies, circular buffer', 'marcel/op/tail.py')]),
    prop('C03', 'sort is a stable permutation ordered by key; reverse is exact reversal',
         'sort outputs a permutation of its input rows, in non-decreasing order of the key function (of the row itself when '
         'no key is given), rows with equal keys in input order. reverse outputs exactly the input rows, last first. '
         'This holds again when the same operator is run again, whatever the earlier run did.',
         ['inputs', 'histories'], 'every stream of mutually comparable keys (sort), every stream (reverse), every earlier run of the same operator',
         TESTS_OP, ['marcel/op/sort.py', 'marcel/op/reverse.py'],
         [('Sort.flush', 'marcel/op/sort.py'), ('Reverse.flush', 'marcel/op/reverse.py')]),
    prop('C04', 'unique outputs the first of each set of equal rows, in order',
         'unique outputs exactly those input rows that equal no earlier input row, in input order; unique --consecutive '
         'outputs exactly those that differ from the row just before. This holds again when the same operator is run again.',
         ['inputs', 'histories'], 'every stream of hashable rows (any rows for --consecutive), every earlier run of the same operator',
         TESTS_OP, ['marcel/op/unique.py'], [('GeneralUniquer, ConsecutiveUniquer', 'marcel/op/unique.py')]),
    prop('C05', 'window covers its input exactly: overlapping, disjoint, by predicate',
         'On K input rows (one-component rows standing for their component), window -o N outputs K tuples of N, the i-th holding rows '
         'i..i+N-1; window -d N outputs ceil(K/N) tuples of N holding consecutive rows; both pad with None past the end. window with a '
         'predicate starts a new window at the first row and at every row that satisfies it, so the windows concatenate to the input. '
         'This holds again when the same operator is run again.',
         ['inputs', 'histories'], 'every N >= 1, every stream, every predicate that does not fail, every earlier run',
         TESTS_OP, ['marcel/op/window.py'], [('window strategies', 'marcel/op/window.py')]),
    prop('C06', 'map and select handle each row by itself; a failing row is one error in place',
         'map outputs, for each input row in order, the value of the function on the components of the row; select outputs exactly '
         'the rows on which the function is true, unchanged. A row on which the function fails yields exactly one error, passed on in '
         'the position of the row, and does not affect any other row.',
         ['inputs'], 'every stream, every function, every set of failing rows, every earlier run of the same operator',
         TESTS_OP + ' Errors are tested for single failures.', ['marcel/op/map.py', 'marcel/op/select.py', 'marcel/core.py'],
         [('Op.call, Op.receive_input, Op.fatal_error', 'marcel/core.py'), ('Map.receive', 'marcel/op/map.py'),
          ('Select.receive', 'marcel/op/select.py')]),
    prop('C07', 'expand replaces a row by exactly the items of the expanded sequence',
         'Without a position, expand outputs the components of each row of several components and, for a row of one component, the '
         'items of that component if it is a sequence, set, generator or mapping, or else the row. With position P >= 0 it outputs one '
         'copy of the row per item of component P, that component replaced by the item and all else unchanged, or the row itself if it '
         'has no component P or it is not expandable. Order is input order.',
         ['inputs'], 'every stream of tuples and lists, every P >= 0',
         TESTS_OP, ['marcel/op/expand.py'], [('SequenceExpander, ComponentExpander', 'marcel/op/expand.py')]),
    prop('C08', 'red folds each column, overall or per group',
         'red with N functions and no grouping outputs one row at end of stream: component i is the fold of function i, from None '
         '(0 for count), over component i of all input rows in order. With grouping columns it outputs one row per distinct group of values in those columns, '
         'in order of first appearance, each function folded over the rows of the group only. A row with too few components yields one '
         'error in its place and takes no part. This holds again when the same operator is run again.',
         ['inputs', 'histories'], 'every stream, every list of functions that do not fail and positions of grouping columns (hashable group values), every earlier run',
         TESTS_OP, ['marcel/op/red.py', 'marcel/reduction.py'],
         [('NonGroupingReducer, GroupingReducer', 'marcel/op/red.py')]),
    prop('C09', 'red -i outputs, for every input row, the row and the folds so far',
         'Without grouping, red -i outputs, for each input row with enough components, one row: the input row followed by the fold of '
         'each function over the rows up to this one, and nothing more at end of stream. A row with too few components yields one error in its place '
         'and takes no part in any fold. This holds again when the same operator is run again.',
         ['inputs', 'histories'], 'every stream of tuples and lists, every list of functions that do not fail, every earlier run',
         TESTS_OP, ['marcel/op/red.py'], [('NonGroupingReducer.receive', 'marcel/op/red.py')]),
    prop('C10', 'squish folds the components of each row into one value',
         'squish outputs, for each input row in order, the fold of its function (+ by default) from None over the components of that row '
         'alone. A row on which the function fails yields exactly one error in the position of the row and does not affect any other row.',
         ['inputs'], 'every stream, every function, every set of failing rows, every earlier run of the same operator',
         TESTS_OP, ['marcel/op/squish.py'], [('Squish.receive', 'marcel/op/squish.py')]),
    prop('C11', 'difference, intersect and union compute bag difference, intersection and sum',
         'difference outputs each input row except that, for each value, as many of its first occurrences are dropped as the pipeline delivers '
         'rows equal to it. intersect outputs, for each value, its first occurrences in the input, as many as the least number any of its pipelines delivers. '
         'union outputs its input and then the rows of each pipeline, in order. Each ends with exactly one end of stream; a row that is not hashable '
         'stops difference and intersect with an error. This holds again when the same operator is run again.',
         ['inputs', 'histories'], 'every stream, every number and content of pipeline arguments, every earlier run',
         TESTS_OP, ['marcel/op/difference.py', 'marcel/op/intersect.py', 'marcel/op/union.py'],
         [('Difference.receive', 'marcel/op/difference.py'), ('Intersect.ensure_args_consumed', 'marcel/op/intersect.py'),
          ('Union.flush, customize_pipelines', 'marcel/op/union.py')]),
    prop('C12', 'filter keeps (or discards) exactly the rows whose key is in the pipeline',
         'filter outputs, unchanged and in order, exactly the input rows that equal a row delivered by its pipeline; with --discard exactly those that equal none; '
         'with --compare F, the value of F on the components of the row (as a row) is looked up instead. A row on which F fails yields one error in its place '
         'and affects nothing else. This holds again when the same operator is run again.',
         ['inputs', 'histories'], 'every stream, every pipeline content, every compare function and set of failing rows, every earlier run',
         TESTS_OP, ['marcel/op/filter.py'], [('Filter.receive, load_right', 'marcel/op/filter.py')]),
    prop('C13', 'join pairs each row with every row of the pipeline with the same first value',
         'For each input row in order, join outputs one row per row of the pipeline with the same first component, in the order of the pipeline: the '
         'input row followed by the pipeline row without its first component. With --keep, an input row without matches is output as it is; without, it is dropped. '
         'This holds again when the same operator is run again.',
         ['inputs', 'histories'], 'every stream and pipeline of rows with at least one component and hashable first components, every earlier run',
         TESTS_OP, ['marcel/op/join.py'], [('Join.receive, load_inner', 'marcel/op/join.py')]),
    prop('C14', 'case sends each row to the pipeline of its first true predicate, and only there',
         'For each input row in order, case runs the predicates in turn and gives the row to the pipeline after the first one that is true, else to the default '
         'pipeline if there is one, else nowhere. All output of these pipelines, including what they output at end of stream, goes on in the order it is '
         'produced; each pipeline receives end of stream once, then one end of stream is passed on. A row on which a predicate fails yields one error in its place.',
         ['inputs', 'histories'], 'every stream, every predicate and set of failing rows, every earlier run; 1 to 3 predicates with and without default in the proof',
         TESTS_OP, ['marcel/op/case.py', 'marcel/op/redirect.py'], [('Case.receive, flush', 'marcel/op/case.py')],
         note='The number of branches is fixed (1 to 3) per proof task; streams, predicates and earlier runs are arbitrary.'),
    prop('C15', 'args runs its pipeline on each group of n inputs',
         'With a pipeline of n parameters, args runs the pipeline once for each n consecutive inputs, in order, with the parameters bound to these inputs '
         '(a row of one component standing for the component), and once for the rest, if any, the missing ones bound to None. args --all runs it once, the parameter '
         'bound to the list of all inputs, and not at all without input. The output of the runs is passed on in order, followed by one end of stream.',
         ['inputs', 'histories'], 'every stream, every earlier run; 1 to 3 parameters in the proof',
         TESTS_OP, ['marcel/op/args.py', 'marcel/op/redirect.py'], [('Args.receive, flush, bindings', 'marcel/op/args.py')],
         note='The number of parameters is fixed (1 to 3) per proof task.'),
    prop('C16', 'gen outputs exactly the integers START, START+1, ..., COUNT of them',
         'gen COUNT START outputs the COUNT integers from START, in order, then end of stream; with COUNT 0 it goes on for ever, row i being START + i; '
         'a negative COUNT gives none. With padding, each is its decimal text padded with zeros on the left to the given width, and gen refuses an '
         'unbounded stream, a negative START and a width too small for the last number.',
         ['inputs', 'histories'], 'every COUNT and START (padding: see note)',
         TESTS_OP, ['marcel/op/gen.py'], [('Gen.setup, run', 'marcel/op/gen.py')],
         note='The part about padding is only checked by the bounded companion.'),
    prop('C17', 'The parameters of a pipeline are local to it; its other variables are not',
         'While a pipeline runs, its parameters are bound to the given values and every other variable has the value it has outside. Assigning or '
         'deleting a variable inside affects the innermost enclosing pipeline which has it as a parameter, or the variable everybody sees. When the pipeline ends, '
         'each variable has the value it had before, except those which are not its parameters and were changed inside; parameters are never saved with the workspace.',
         ['inputs', 'histories'], 'every content of the namespace, every name and value; nesting up to 3 in the proof',
         'tests run a few commands with one parameter whose name is not that of another variable.',
         ['marcel/nestednamespace.py', 'marcel/object/workspace.py'],
         [('NestedNamespace.push_scope, pop_scope, assign, __delitem__; Scope', 'marcel/nestednamespace.py'),
          ('VarHandler.setvar, delvar', 'marcel/object/workspace.py')],
         note='Proof: stacks of up to three scopes with parameters among two names, content otherwise arbitrary.'),
    prop('C18', 'Variables defined by marcel or the startup script cannot be changed once it runs',
         'After startup, assigning, importing or deleting an immutable variable (HOME, USER, HOST, PWD, DIRS, PROMPT, colours, pos, MARCEL_VERSION and the variables of the '
         'startup script) ends the command with an error and changes nothing, neither in the session nor in what will be saved. Any other variable can be assigned, read '
         'back and deleted; a deleted variable is gone also from what will be saved; every name of marcel.builtin has its own value.',
         ['inputs', 'histories'], 'every content of the namespace, every set of immutable variables, every name and value',
         'tests try two or three of the variables.',
         ['marcel/object/workspace.py', 'marcel/env.py', 'marcel/nestednamespace.py'],
         [('VarHandler.check_mutability, setvar, setvar_import, delvar', 'marcel/object/workspace.py'),
          ('Environment.__init__, initial_namespace', 'marcel/env.py')],
         note='The list of immutable variables and of builtin names is checked by the companion.'),
    prop('C19', 'A pipeline is set up, run, told the end of input and cleaned up, come what may',
         'Running a pipeline sets up each of its operators once, runs the first, tells each of the end of input exactly once, in order, and cleans each up. If an operator fails '
         'on one row, the other rows and the end of input still go through. Any other failure, at any point, is passed on, with each operator that was set up cleaned up, and at most one end of input; a '
         'failure in setup means that nothing runs. In each case the variables are afterwards as before, no scope of the pipeline is left, and the pipeline can be run again.',
         ['inputs', 'histories', 'fault_sequences'], 'any one failure, of any operator at any point, of three classes; up to 2 operators and 2 parameters in the proof',
         'tests have hardly any failure besides an exception in a function of map.',
         ['marcel/pipeline.py', 'marcel/core.py', 'marcel/nestednamespace.py'],
         [('PipelineMarcel.run_pipeline, setup; PipelineExecutable', 'marcel/pipeline.py'), ('Op.receive_input, send', 'marcel/core.py')],
         note='Pipelines of at most 2 operators (loops over the operators unrolled).'),
    prop('C20', 'Each use of a pipeline variable runs its own copy, with its own arguments',
         'Running a pipeline held by a variable, at the head of a pipeline or on rows it receives, binds positional arguments to the first parameters, named arguments to theirs and '
         'the rest to None, for each of its operators at each step; arguments which do not fit the parameters are refused before anything runs. Rows, output and end of input pass through once, '
         'in order. The operators of the variable itself are never run or connected, so that several uses, in one command or later, do not disturb each other; variables are afterwards as before, also after a failure.',
         ['inputs', 'histories', 'fault_sequences'], 'any values, any rows; 18 shapes of parameters and arguments, at most 2 operators and 2 rows in the proof',
         'tests use a pipeline variable once per command, with correct arguments.',
         ['marcel/op/runpipeline.py', 'marcel/pipeline.py', 'marcel/core.py'],
         [('RunPipeline.setup, run, receive, flush, bindings', 'marcel/op/runpipeline.py'), ('Op.copy', 'marcel/core.py'),
          ('PipelineMarcel.copy, route_output', 'marcel/pipeline.py')],
         note='Rows: at most 2 per run; the state between rows is the same as before the first (RunPipeline keeps none).'),
    prop('C21', 'A workspace opened again has the variables it was saved with',
         'After a workspace is closed and opened again, any number of times, exactly the variables assigned or imported in its sessions and not deleted since exist, besides '
         'those of marcel and of the startup script, and each has the value it had: data is equal, modules and imported symbols are the same objects, and functions and pipelines do the same. '
         'Saving changes nothing. What a command reports as changed is exactly the variables it wrote that still exist, with their values.',
         ['inputs', 'histories'], 'every content of the namespace, the startup script and the saved state; every value, by kind',
         'tests save and restore a handful of values.',
         ['marcel/nestednamespace.py', 'marcel/object/workspace.py', 'marcel/configscript.py'],
         [('NestedNamespace.to_persistent_state, from_persistent_state; EnvValue.wrap, restore and the subclasses', 'marcel/nestednamespace.py'),
          ('Workspace.open, VarHandler.changes', 'marcel/object/workspace.py'), ('ConfigScript.run', 'marcel/configscript.py')],
         note='Pickling of data and parsing of source text are contracts in the proof, exercised by the companion.'),
    prop('C22', 'Loading a variable delivers exactly the rows that were stored in it',
         'Loading a variable outputs exactly the rows of the last store into it and of each append since, in order, each equal to what it was when it was stored, '
         'then one end of stream; also if commands ended early, in which case the rows stored so far count. Loading changes nothing. A command which would store into the variable it is '
         'loading, or append to what is no stream, is refused; the rows are as before and the variable can be used again.',
         ['inputs', 'histories', 'fault_sequences'], 'every content, every rows, every earlier use of the variable, each row failing or not',
         'tests store and append a few integers, which hides what pickling shares between rows.',
         ['marcel/op/store.py', 'marcel/op/load.py', 'marcel/picklefile.py', 'marcel/reservoir.py'],
         [('Store.setup, receive, cleanup', 'marcel/op/store.py'), ('Load.setup, run', 'marcel/op/load.py'),
          ('PickleFile, Reader, Writer', 'marcel/picklefile.py')],
         note='The file, open, and pickling a row with an empty memo are contracts; the companion uses real files.'),
    prop('C23', 'The directory stack: cd, pushd, popd and dirs',
         'cd replaces the top of the directory stack, pushd adds to it or swaps the two on top, popd removes the top, if it is not the last, dirs -c leaves the top only. Afterwards PWD and '
         'the current directory are the top; pushd, popd and dirs output the stack, top first. Directories which cannot be entered any more are dropped. cd and pushd with an argument that is '
         'not exactly one directory that may be entered are refused, and change nothing.',
         ['inputs', 'histories', 'configurations'], 'every stack, every argument, every state of the file system',
         'tests move between three directories.',
         ['marcel/directorystate.py', 'marcel/op/cd.py', 'marcel/op/pushd.py', 'marcel/op/popd.py', 'marcel/op/dirs.py'],
         [('DirectoryState', 'marcel/directorystate.py'), ('Cd.setup, run', 'marcel/op/cd.py'), ('Pushd.setup, run', 'marcel/op/pushd.py'),
          ('Popd.run', 'marcel/op/popd.py'), ('Dirs.run', 'marcel/op/dirs.py')],
         note='Paths and the file system are contracts; the companion uses real directories.'),
    prop('C24', 'A named workspace is open in at most one session at a time',
         'For every interleaving of sessions: at most one process (with its jobs) has a workspace open; its marker file is renamed, never removed or duplicated. Opening or deleting a workspace '
         'is refused, as a failed command which changes no file, only if another process that exists has it, or changed the marker at the same time; a workspace abandoned by a killed process can be used again. '
         'A workspace is written only while locked, and closing gives up the lock after saving.',
         ['schedules', 'crash_points', 'histories'], 'every schedule of other processes, every owner alive or gone',
         'tests open workspaces in one process.',
         ['marcel/object/workspace.py'],
         [('Workspace.lock_workspace, unlock_workspace, owner, open, close, delete', 'marcel/object/workspace.py'), ('Marker', 'marcel/object/workspace.py'),
          ('WorkspaceValidater.validate', 'marcel/object/workspace.py')],
         note='Rely / guarantee: file operations are contracts; the companion uses real files with interferences.'),
]
