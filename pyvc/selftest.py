"""Compares pyvc's semantics with CPython's: the functions of st/src.py are run by both on the same arguments.  pyvc gets each
argument as constants, and then as unknowns (ints, lists of unknown length) which are assumed to have the values.

With constants, pyvc must prove what CPython computes; with unknowns, where loops are cut, it must not exclude it.  Prints a summary; exits with 1 if they disagree."""
import copy
import multiprocessing
import os
import random
import sys

import z3

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(ROOT))
from pyvc.core import Program, Seq, I, TAGS, Unsupported, GaveUp, ty, LObj, DObj, SObj, TupSym  # noqa: E402
from pyvc.engine import is_V  # noqa: E402
from pyvc.interp import Interp, PyRaise  # noqa: E402
sys.path.insert(0, ROOT)
from st import src  # noqa: E402

INT, LIST, VAL, SMALL = 'int', 'list', 'val', 'small'
SPECS = {
    'arith': (INT, INT), 'divide': (INT, SMALL), 'logic': (INT, INT), 'loops': (SMALL,), 'index': (LIST, INT),
    'slices': (LIST, INT, INT), 'step': (LIST,), 'mutate': (LIST, INT), 'swap': (LIST,), 'pops': (LIST,), 'clear': (LIST,),
    'alias': (LIST,), 'membership': (LIST, INT), 'summing': (LIST,), 'enum': (LIST,), 'zipped': (LIST, LIST),
    'comp': (LIST,), 'rev': (LIST,), 'quantify': (LIST,), 'unpack': (LIST,), 'tuples': (INT, INT), 'dicts': (INT, INT),
    'missing': (INT, INT), 'merged': (INT, INT), 'deleted': (INT, INT), 'sets': (INT, INT), 'closure': (INT,),
    'calls': (INT,), 'raising': (INT,), 'early': (INT,), 'cleanup': (INT,), 'reraise': (INT,), 'asserting': (INT,),
    'nothing': (INT,), 'call_none': (INT,), 'objects': (INT,), 'none': (INT, INT), 'strings': (INT,), 'walrus': (LIST,),
    'nested': (LIST,), 'moving': (LIST, SMALL), 'truth': (LIST, INT), 'chained': (INT,), 'count': (LIST,),
    'maxmin': (LIST,), 'gen': (LIST,), 'iterating': (LIST,),
}


def value(rng, kind):
    return rng.randrange(1, 4) if kind == SMALL else rng.randrange(-2, 5) if kind == INT else \
        [rng.randrange(-1, 4) for _ in range(rng.choice((0, 1, 2, 3, 3)))]


def symbolic(E, v, kind):
    if kind == LIST:
        n, arr = E.fresh_int('n'), E.fresh('arr', z3.ArraySort(I, E.toV(0).sort()))
        E.assume(n == len(v))
        for i, x in enumerate(v):
            E.assume(z3.Select(arr, i) == E.toV(x))
        return E.new_list(seq=Seq(n=n, arr=arr))
    x = E.fresh_int('x')
    E.assume(x == v)
    return x


def same(E, r, want):
    """formula or bool: the engine's value r is the Python value want"""
    if isinstance(want, (list, tuple)):
        r = E.fromV(r)
        if is_V(r):
            return r == E.toV(E.new_list([lift(E, x) for x in want]) if isinstance(want, list) else tuple(lift(E, x) for x in want))
        if isinstance(r, LObj) != isinstance(want, list) or not isinstance(r, (LObj, tuple, TupSym)):
            return False
        s = E.as_seq(r)
        n = E.eq(E.seq_n(s), len(want))
        if n is False:
            return False
        out = [as_formula(n)]
        out += [as_formula(same(E, E.seq_get(s, i), x)) for i, x in enumerate(want)]
        return z3.And(*out)
    if want is None or isinstance(want, str):
        return E.eq(r, want)
    if isinstance(want, bool):
        t = E.fromV(r)
        if is_V(t):
            return t == E.toV(want)
        return as_formula(E.truth(t)) == z3.BoolVal(want) if not isinstance(t, int) or isinstance(t, bool) else False
    return E.eq(r, want)


def lift(E, x):
    return tuple(lift(E, y) for y in x) if isinstance(x, tuple) else E.new_list([lift(E, y) for y in x]) if isinstance(x, list) else x


def as_formula(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def candidates(E, ctx):
    """enough to unroll: the number of iterations is known to be small"""
    return []


def run(name, args, kinds, mode):
    try:
        want = ('value', getattr(src, name)(*copy.deepcopy(args)))
    except Exception as e:
        want = ('raise', type(e).__name__)
    seen = []

    def driver(E):
        f = E.module_attr(E.get_module('st.src'), name)
        a = [symbolic(E, v, k) if mode == 'symbolic' else lift(E, v) for v, k in zip(args, kinds)]
        if mode == 'symbolic':
            # unknown, but of a length that is known on each path: loops can be unrolled
            for x, k, v in zip(a, kinds, args):
                if k == LIST:
                    E.set_seq(x, Seq(items=[z3.Select(E.seq_arr(x.seq), i) for i in range(len(v))]) if UNROLL else x.seq)
        try:
            r = ('value', E.call(f, a))
        except PyRaise as e:
            r = ('raise', getattr(e.exc.cls, 'name', '?') if hasattr(e.exc, 'cls') else '?')
        if r[0] != want[0]:
            ok = False
        elif r[0] == 'raise':
            ok = r[1].split('.')[-1] == want[1]
        else:
            ok = same(E, r[1], want[1])
        ok = as_formula(ok)
        if not z3.is_true(z3.simplify(ok)):
            seen.append(r)
        if mode == 'constant':
            E.check(ok, 'agree')
        E.check(z3.Not(ok), 'contradict')
    E = Interp(Program(ROOT, 'st'), contracts={}, candidates=candidates, name=name, max_seconds=60)
    try:
        obs = E.explore(driver)
    except Unsupported as e:
        return 'outside', str(e)
    except GaveUp as e:
        return 'outside', str(e)
    agree = [o for o in obs if o.label == 'agree']
    contra = [o for o in obs if o.label == 'contradict']
    if not contra or all(o.status == 'proved' for o in contra):
        return 'mismatch', f'{name}{tuple(args)}: CPython {want}, pyvc {str(seen)[:300]}'
    if any(o.status != 'proved' for o in agree):
        return 'outside', 'imprecise'
    return 'agree', ''


UNROLL = True


def one(job):
    global UNROLL
    name, args, kinds, mode = job
    UNROLL = mode != 'unknown length'
    try:
        return (name, mode) + run(name, args, kinds, 'constant' if mode == 'constant' else 'symbolic')
    except Exception as e:
        return name, mode, 'mismatch', f'{name}{tuple(args)}: {type(e).__name__}: {e}'


def main():
    rng = random.Random(3)
    jobs = []
    for name, kinds in SPECS.items():
        for i in range(4):
            args = [value(rng, k) for k in kinds]
            jobs += [(name, args, kinds, mode) for mode in ('constant', 'symbolic', 'unknown length')
                     if mode != 'unknown length' or LIST in kinds and i < 2]
    n = {'agree': 0, 'outside': 0, 'mismatch': 0}
    why = set()
    with multiprocessing.Pool(8) as pool:
        for name, mode, st, text in pool.imap(one, jobs):
            n[st] += 1
            if st == 'mismatch':
                print('MISMATCH', mode, text)
            elif st == 'outside':
                why.add(f'{name}: {text}')
    if '-v' in sys.argv:
        print('outside:', sorted(why))
    print(f'selftest: {n["agree"]} runs agree with CPython, {n["outside"]} are outside the subset, {n["mismatch"]} disagree')
    return 1 if n['mismatch'] else 0


if __name__ == '__main__':
    sys.exit(main())
