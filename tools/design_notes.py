"""Text of DESIGN.md that is not derived from other files."""
HOW = {
    'C01': 'Arbitrary n, stream of arbitrary length and contents, after an arbitrary earlier run (complete or abandoned). The output is compared '
           'with the input position by position; end of stream is passed exactly once.',
    'C02': 'As C01. The ring buffer is a symbolic array; its invariant (slot k mod n holds input k) is found among the candidates.',
    'C03': 'reverse: output i is input n-1-i. sort: list.sort is a contract (a stable sort by < of the keys); what is proved is that the rows and keys given to it are those '
           'of the input, and that all of them are output once. Key functions may fail.',
    'C04': 'Sets and dictionaries are arrays from values to booleans, so rows are identified up to ==. Consecutive and general variants.',
    'C05': 'Three modes, arbitrary n >= 1 and predicate. The windows are compared with slices of the input by index arithmetic.',
    'C06': 'Arbitrary functions (also failing) on arbitrary rows; calls with a row as arguments, with one value, and curried.',
    'C07': 'The items come from sequences, files and iterators of arbitrary length; positions beyond the row.',
    'C08': 'Arbitrary number of columns and rows; a fold is an uninterpreted function of the prefix, related by its recursion equation. Grouping columns: arbitrary subset, groups as '
           'a map from tuples of values.',
    'C09': 'As C08, with output per row.',
    'C10': 'A row of arbitrary length; the fold as in C08.',
    'C11': 'Bags are counting functions; the counters kept by the operators are related to the counts of the prefix processed. 1 to 3 pipelines for union.',
    'C12': 'keep and discard, with and without --compare; the set of the pipeline is arbitrary.',
    'C13': 'The pairs are compared in order, with the position of each in the lists kept per first value; inner and outer, keys arbitrary.',
    'C14': '1 to 3 branches, with and without default (the number of branches is bounded; rows are not).',
    'C15': '1 to 3 parameters and --all (bounded in the number of parameters; rows are not).',
    'C16': 'Unpadded: arbitrary START and COUNT, also negative. Padding (strings of digits) is decided by the companion only, bounded: the '
           'text of an integer is out of reach.',
    'C17': 'Three nested scopes with arbitrary contents, arbitrary names; assignment and deletion in the innermost (bounded in depth; the companion has more depths).',
    'C18': 'Arbitrary protected set, arbitrary variable; each of the ways a command can assign or delete, and the construction of the protected set when a workspace is opened.',
    'C19': 'A pipeline of 1 or 2 operators, each of whose operations may fail with any exception; rows arbitrary.',
    'C20': 'Up to two rows and uses; arguments positional and by name, arbitrary.',
    'C21': 'to_persistent_state and from_persistent_state over arbitrary namespaces; every class of EnvValue; changes made by jobs. dill and parsing are contracts.',
    'C22': 'The file is a list of rows with open handles as ghost state; store, append, load in arbitrary states of the file; rows must be pickled with an empty memo.',
    'C23': 'A stack of arbitrary depth, any of whose directories may be gone, an arbitrary file system; paths are uninterpreted, except that resolved absolute paths are not '
           'changed by joining and resolving.',
    'C24': 'Rely / guarantee over a ghost "owner of the marker": before every access to the file system others may do whatever the guarantee permits them. The companion '
           'interferes at each access, on real files.',
}
AFTER = '''## 3. Limits

* Bounded in the number of: operators of a pipeline (C19), nested scopes (C17), uses (C20), branches and parameters (C14, C15), pipelines of a union (C11).
  Rows, values, histories of earlier runs, functions and faults are not bounded there.
* Strings are opaque: text of integers (padding in gen), formatting, parsing, quoting, file names and patterns are out of reach of the proofs.
* Not claimed, because nothing in this family decides them here: jobs and fork (processes and pickling across them), external programs, remote execution and databases
  (the behaviour is the other party's), the prompt and history (terminal), lexing and parsing of the command language (strings), reading
  and writing CSV / JSON (strings, foreign parsers).
* `unknown` from the solver, a loop which needs an invariant that is not among the candidates, or a construct outside the subset makes a check report
  `no-failing-input-found`: it never passes silently.
* The semantics of the subset is compared with CPython's by `pyvc/selftest.py` (47 functions on constants, and on unknowns; 399 runs).

'''
