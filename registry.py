"""Which proof tasks and which concrete harnesses decide each property."""

TRUSTED_BASE = [
    'z3 (python3-vt z3-solver)',
    'pyvc: the verification condition generator in /verif/pyvc (semantics of the Python subset; cross-checked '
    'against CPython by pyvc/selftest.py, run by setup.sh)',
    'CPython ast module (parses the real source on every run)',
]

ASSUMPTIONS = [
    'values are identified up to ==; == is an equivalence consistent with hash and type',
    'user functions are deterministic and free of side effects on the operator state',
    'operators interact only through receive_input / receive_error / flush of their receiver (frame assumption)',
    'tracing is off; string formatting, repr and logging have no effect on operator state',
    'integers are mathematical (true of Python), no memory exhaustion, no signals or interrupts',
]


def P(tasks, harness, level='proof', **kw):
    return dict(tasks=[tuple(t.split('/')) for t in tasks], harness=harness, level=level, **kw)


PROPS = {
    'C01': P(['c_head_tail/head'], ['h_head_tail:head']),
    'C02': P(['c_head_tail/tail'], ['h_head_tail:tail']),
    'C03': P(['c_order/reverse', 'c_order/sort', 'c_order/sort-key'], ['h_order:reverse', 'h_order:sort'],
             trusted=['list.sort is a stable sort by < of the keys']),
    'C04': P(['c_order/unique', 'c_order/unique-consecutive'], ['h_order:unique']),
    'C05': P(['c_window/window-overlap', 'c_window/window-disjoint', 'c_window/window-predicate'], ['h_order:window']),
    'C06': P(['c_rows/map', 'c_rows/select'], ['h_rows:map', 'h_rows:select']),
    'C07': P(['c_rows/expand', 'c_rows/expand-position'], ['h_rows:expand']),
    'C08': P(['c_red/red', 'c_red/red-group'], ['h_red:red'], task_s=500),
    'C09': P(['c_red/red-incremental'], ['h_red:red_inc', 'h_red:red_inc_group'], task_s=500),
    'C10': P(['c_rows/squish'], ['h_red:squish']),
    'C11': P(['c_setops/difference', 'c_setops/intersect', 'c_setops/intersect-again', 'c_setops/union'],
             ['h_setops:difference', 'h_setops:intersect', 'h_setops:union'], task_s=500),
    'C12': P(['c_setops/filter', 'c_setops/filter-compare'], ['h_setops:filt']),
    'C13': P(['c_setops/join', 'c_setops/join-again'], ['h_setops:join']),
    'C14': P([f'c_route/case-{n}{d}' for n in (1, 2, 3) for d in ('', '-default')], ['h_route:case'], harness_s=60),
    'C15': P(['c_route/args-1', 'c_route/args-2', 'c_route/args-3', 'c_route/args-all'], ['h_route:args']),
    'C16': P(['c_route/gen'], ['h_route:gen']),
    'C17': P(['c_ns/scoping-assign', 'c_ns/scoping-delete'], ['h_ns:scopes', 'h_ns:sessions'], harness_s=40,
             trusted=['EnvValue.wrap / unwrap are inverse (contract; checked by the companion only)']),
    'C18': P(['c_ns/protection', 'c_save/opening'], ['h_ns:immutable'],
             trusted=['EnvValue.wrap / unwrap are inverse (contract; checked by the companion only)']),
    'C19': P(['c_run/run_pipeline'], ['h_run:run']),
    'C20': P(['c_run/run_var', 'c_run/receive_var'], ['h_run:var', 'h_ns:sessions']),
    'C21': P(['c_save/saving', 'c_save/values', 'c_save/opening', 'c_save/changes'], ['h_ns:saved'],
             trusted=['dill restores data equal to what it stored; parsing the source of a function or pipeline again gives the same',
                      'modules and builtin functions are found by importing their names',
                      'reading the startup script, locking and files of a workspace (contracts)']),
    'C22': P(['c_store/store', 'c_store/load', 'c_store/conflict'], ['h_store:store'],
             trusted=['files: open, close, append and read in the order written; dill restores a row pickled with an empty memo (contracts)']),
    'C23': P(['c_dirs/cd', 'c_dirs/pushd', 'c_dirs/popd', 'c_dirs/dirs'], ['h_dirs:dirs'],
             trusted=['joining, expanding and resolving paths; os.chdir changes to an existing directory that may be entered, and fails otherwise',
                      'Filenames.normalize finds absolute paths of what exists (contract; the companion uses real files)']),
    'C24': P(['c_lock/lock', 'c_lock/session', 'c_lock/delete', 'c_lock/validate'], ['h_lock:lock'],
             trusted=['rename is atomic; a listing of a directory is a snapshot; pids are not reused (contracts)'],
             assumptions=['every other process does to the marker only what the guarantee proved here permits (rely / guarantee)']),
}
