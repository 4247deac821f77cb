"""The symbolic executor / VC generator."""
import ast
import builtins as _bi
import importlib
import threading
import time

import z3

from .core import *
from .core import _Return, _Break, _Continue
from . import core

_MAX_UNROLL = 80


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (is_z3(x) and x.sort() == I)


def is_bool(x):
    return isinstance(x, bool) or (is_z3(x) and x.sort() == B)


def is_V(x):
    return is_z3(x) and x.sort() == V


def is_conc_scalar(x):
    return x is None or isinstance(x, (int, str, float, bool, bytes))


class EntryList:
    def __init__(self, obj, seq):
        self.obj = obj
        self.seq = seq


class _ConstBox:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, _ConstBox) and (o.v is self.v or
                                             (isinstance(self.v, EnumVal) and o.v == self.v))

    def __hash__(self):
        return hash(self.v) if isinstance(self.v, EnumVal) else id(self.v)

    def __str__(self):
        return str(self.v)

    __repr__ = __str__


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class LoopInfo:
    def __init__(self):
        self.foot = {}       # loc -> set of alternative kinds
        self.dead = set()
        self.generic = set()


class LoopCtx:
    """What candidate generators see."""
    def __init__(self, E, key, where, it, foot, entry):
        self.E = E
        self.key = key
        self.where = where     # qualname of function containing the loop
        self.it = it
        self.foot = foot
        self._entry = entry

    def name(self, loc):
        return loc[-1] if loc[0] in ('L', 'A', 'G') else f'content'

    def ints(self):
        r = []
        for loc in self.foot:
            if loc[0] in ('L', 'A', 'G'):
                e = self._entry.get(loc)
                c = self.E.get_loc(loc)
                if is_int(e) and is_int(c):
                    r.append((loc, e, c))
        return r

    def seqs(self):
        """(loc, entry Seq or None, current Seq) of modified lists/tuples"""
        r = []
        for loc in self.foot:
            c = self.E.get_loc(loc)
            e = self._entry.get(loc)
            es = e.seq if isinstance(e, (EntryList, TupSym)) else e if isinstance(e, Seq) else None
            if loc[0] == 'C' and isinstance(c, Seq):
                r.append((loc, es, c))
            elif loc[0] in ('L', 'A', 'G') and isinstance(c, (LObj, TupSym)):
                r.append((loc, es, c.seq))
        return r

    def vals(self):
        r = []
        for loc in self.foot:
            if loc[0] in ('L', 'A', 'G'):
                c = self.E.get_loc(loc)
                if is_V(c) or c is None:
                    r.append((loc, self._entry.get(loc), c))
        return r

    def bools(self):
        r = []
        for loc in self.foot:
            if loc[0] in ('L', 'A', 'G'):
                c = self.E.get_loc(loc)
                e = self._entry.get(loc)
                if is_bool(c) and is_bool(e):
                    r.append((loc, e, c))
        return r

    def sets(self):
        return [(loc, self._entry.get(loc), self.E.get_loc(loc)) for loc in self.foot
                if loc[0] == 'C' and isinstance(self.E.get_loc(loc), SetContent)] + \
               [(loc, None, self.E.get_loc(loc)) for loc in self.foot
                if loc[0] in ('L', 'A', 'G') and isinstance(self.E.get_loc(loc), SObj)]

    def dicts(self):
        return [(loc, self._entry.get(loc), self.E.get_loc(loc)) for loc in self.foot
                if loc[0] == 'C' and isinstance(self.E.get_loc(loc), DictContent)] + \
               [(loc, None, self.E.get_loc(loc)) for loc in self.foot
                if loc[0] in ('L', 'A', 'G') and isinstance(self.E.get_loc(loc), DObj)]

    def entry(self, loc):
        return self._entry.get(loc)

    def cur(self, loc):
        return self.E.get_loc(loc)


class SetContent:
    def __init__(self, dom, conc):
        self.dom = dom
        self.conc = conc


class DictContent:
    def __init__(self, conc, dom, val, karr, n, pure=True):
        self.conc, self.dom, self.val, self.karr, self.n, self.pure = conc, dom, val, karr, n, pure


class Obligation:
    __slots__ = ('label', 'status', 'detail', 'ms', 'backend')

    def __init__(self, label, status, detail, ms, backend):
        self.label, self.status, self.detail, self.ms, self.backend = label, status, detail, ms, backend


class Engine:

    def __init__(self, program, contracts=None, candidates=None, max_paths=4000, max_seconds=150, cand_ms=1500, use_fresh=False,
                 ob_ms=12000, name='task'):
        self.program = program
        self.contracts = contracts or {}          # qualname -> handler(E, args, kwargs)
        self.candidates = candidates              # fn(E, ctx) -> [(name, formula)]
        self.max_paths = max_paths
        self.max_seconds = max_seconds
        self.cand_ms = cand_ms
        self.use_fresh = use_fresh
        self.ob_ms = ob_ms
        self.name = name
        self.ext_terms = None                     # contract: tuple values that computed tuples are compared with
        self.vmethods = {}                        # attribute of opaque values -> handler(E, v) -> value
        self.prove_cache = {}
        self.keep = []
        self.functions = set()                    # functions executed (under contract)
        self.stats = {'queries': 0, 'solver_s': 0.0, 'cache': 0, 'paths': 0, 'restarts': 0}
        self.pyclass_attrs = {}
        self.native_modules = {}
        self.max_foot = 60

    # ---------------------------------------------------------------------------------------------- exploration

    def explore(self, driver):
        """Run driver(E) over all paths. Returns list of Obligations of the final (stable) pass."""
        self.loops = {}
        self.comp_loops = set()
        self.t0 = time.time()
        self.feas = {}
        self.notes = []
        work = [[]]
        done = []                  # (decisions, obligations, covers, completed)
        npaths = 0
        while work:
            prefix = work.pop()
            npaths += 1
            self.stats['paths'] += 1
            if npaths > self.max_paths:
                raise GaveUp(f'more than {self.max_paths} paths')
            if time.time() - self.t0 > self.max_seconds:
                raise GaveUp(f'more than {self.max_seconds}s')
            self._reset(prefix)
            self._work = work
            self.obligations = []
            self.path_covers = []
            completed = 0
            try:
                driver(self)
                completed = 1
            except PathEnd:
                pass
            except Restart as r:
                self.stats['restarts'] += 1
                t = list(r.key[1])
                n = len(t)
                work[:] = [p for p in work if p[:n] != t]
                done = [d for d in done if d[0][:n] != t]
                for k in [k for k in self.feas if list(k[1][:n]) == t and k[0] > r.nbranch]:
                    del self.feas[k]
                if r.reset:
                    # the state at the head of inner loops has changed: what was refuted there may hold now
                    g = r.reset
                    for k in [k for k in self.loops if k[0] > g[0] and k[1][:len(g[1])] == g[1]]:
                        del self.loops[k]
                work.append(t)
                continue
            except PyRaise as e:
                # uncaught exception in driver: an obligation failure
                self._record('no uncaught exception', 'refuted' if self._path_feasible() else 'proved',
                             f'uncaught {self.exc_str(e.exc)}', 0, '')
            done.append((list(self.taken), self.obligations, self.path_covers, completed))
        self.obligations = [o for d in done for o in d[1]]
        self.labels_reached = {}
        for d in done:
            for l in d[2]:
                self.labels_reached[l] = self.labels_reached.get(l, 0) + 1
        self.completed = sum(d[3] for d in done)
        return self.obligations

    def _reset(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.nbranch = 0
        self.loopseq = 0
        self.setenums = {}
        self.loop_get = []           # (length, element) of what the loops being executed run over
        self.loop_src = []           # what the loops being executed run over, if dicts or sets
        self.enclosing = []
        self.nfresh = 0
        self.noid = 0
        self.objs = {}
        self.frames = {}
        self.modvars = {}
        self.classattrs = {}
        self.ghosts = {}
        self.recorders = []
        self.pc = []
        self.pcids = []
        self.known = set()
        self.solver = z3.Solver()
        self.solver.set('smt.mbqi', False)
        self.mbqi = False
        self.frame = None
        self.depth = 0
        self.curexc = None
        self.path_labels = []

    def choose(self, n, label=''):
        if n == 1:
            return 0
        k = len(self.taken)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            d = 0
            for a in range(n - 1, 0, -1):
                self._work.append(self.taken + [a])
        self.taken.append(d)
        if len(self.taken) > 400:
            raise GaveUp('path too long')
        return d

    def fresh(self, name, sort):
        self.nfresh += 1
        return z3.Const(f'{name}!{self.nfresh}', sort)

    def fresh_int(self, name='i'):
        return self.fresh(name, I)

    def fresh_V(self, name='v'):
        return self.fresh(name, V)

    def fresh_bool(self, name='b'):
        return self.fresh(name, B)

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathEnd()
            return
        self.pc.append(f)
        self.pcids.append(f.get_id())
        self.keep.append(f)
        self.solver.add(f)

    def fact(self, f):
        """axiom instance (always true)"""
        i = f.get_id()
        if i not in self.known:
            self.known.add(i)
            self.assume(f)

    def _run(self, s, ms):
        """the solver does not always observe its time limit"""
        timer = threading.Timer(ms / 1000 * 2 + 2, s.ctx.interrupt)
        timer.start()
        try:
            return s.check()
        finally:
            timer.cancel()

    def _check(self, extra, ms, mbqi=False):
        key = (tuple(self.pcids), extra.get_id() if extra is not None else None, mbqi)
        if key in self.prove_cache:
            st, old_ms, model = self.prove_cache[key]
            if st != 'unknown' or old_ms >= ms:
                self.stats['cache'] += 1
                return st, model
        t = time.time()
        s = self.solver
        s.set('timeout', ms)
        if mbqi != self.mbqi:
            s.set('smt.mbqi', mbqi)
            self.mbqi = mbqi
        s.push()
        if extra is not None:
            s.add(extra)
            self.keep.append(extra)
        r = self._run(s, ms)
        model = None
        if r == z3.sat:
            try:
                model = self._model_str(s.model())
            except Exception:
                model = None
        s.pop()
        dt = time.time() - t
        self.stats['queries'] += 1
        self.stats['solver_s'] += dt
        st = 'unsat' if r == z3.unsat else 'sat' if r == z3.sat else 'unknown'
        self.prove_cache[key] = (st, ms, model)
        return st, model

    def _fresh_check(self, extra, ms):
        """the same query in a solver of its own: preprocessing that is off in incremental mode often decides it"""
        key = (tuple(self.pcids), extra.get_id() if extra is not None else None, 'fresh')
        if key in self.prove_cache:
            return self.prove_cache[key]
        t = time.time()
        s = z3.Solver()
        s.set('timeout', ms)
        s.set('smt.mbqi', False)
        s.add(*self.pc)
        if extra is not None:
            s.add(extra)
            self.keep.append(extra)
        r = self._run(s, ms)
        self.stats['fresh'] = self.stats.get('fresh', 0) + 1
        self.stats['solver_s'] += time.time() - t
        st = 'unsat' if r == z3.unsat else 'unknown'
        self.prove_cache[key] = st
        return st

    def _model_str(self, m):
        out = {}
        for d in m.decls():
            if d.arity() == 0 and d.range() in (I, B):
                out[d.name()] = str(m[d])
        return out

    def prove(self, f, ms=None, full=False):
        """'proved' | 'refuted' | 'unknown'.  full: also try model based quantifier instantiation"""
        if isinstance(f, bool):
            if f:
                return 'proved', None
            g = None
        else:
            g = z3.Not(f)
        ms = ms or (self.ob_ms if full else self.cand_ms)
        st, m = self._check(g, ms)
        if st == 'unknown' and self.use_fresh:
            st = self._fresh_check(g, ms if full else min(ms, 500))
        if st == 'unknown' and full:
            st, m2 = self._check(g, ms, mbqi=True)
            m = m2 or m
        return ('proved' if st == 'unsat' else 'refuted' if st == 'sat' else 'unknown'), m

    def _path_feasible(self):
        st, _ = self._check(None, 2000)
        return st != 'unsat'

    def branch(self, cond):
        """Decide a condition; returns a python bool."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.nbranch += 1
        key = (self.nbranch, tuple(self.taken))
        f = self.feas.get(key)
        if f is None:
            t, _ = self._check(cond, 400)
            e, _ = self._check(z3.Not(cond), 400)
            if t == 'unsat' and e == 'unsat':
                f = 'N'
            elif t == 'unsat':
                f = 'F'
            elif e == 'unsat':
                f = 'T'
            else:
                f = 'B'
            self.feas[key] = f
        if f == 'N':
            raise PathEnd()
        if f == 'T':
            self.assume(cond)
            return True
        if f == 'F':
            self.assume(z3.Not(cond))
            return False
        d = self.choose(2)
        if d == 0:
            self.assume(cond)
            return True
        self.assume(z3.Not(cond))
        return False

    # ------------------------------------------------------------------------------------------------ obligations

    def _record(self, label, status, detail, ms, backend):
        self.obligations.append(Obligation(label, status, detail, ms, backend))

    def check(self, f, label):
        """proof obligation"""
        if time.time() - self.t0 > self.max_seconds:
            raise GaveUp(f'more than {self.max_seconds}s')
        t = time.time()
        st, m = self.prove(f, full=True)
        backend = 'z3'
        detail = None
        if st != 'proved':
            detail = {'model': m, 'goal': str(f)[:2000], 'decisions': list(self.taken)}
        self._record(label, st, detail, int(1000 * (time.time() - t)), backend)
        self.path_labels.append(label)
        if st != 'proved':
            try:
                self.assume(f)
            except PathEnd:
                raise

    def cover(self, label):
        """Non-vacuity: this point must be reachable (path condition not refutable)."""
        st, m = self._check(None, 3000)
        if st != 'unsat':
            self.path_covers.append(label)

    # ---------------------------------------------------------------------------------------------------- heap

    def new_oid(self):
        self.noid += 1
        return self.noid

    def new_list(self, items=None, seq=None, kind='list'):
        oid = self.new_oid()
        o = LObj(oid, seq if seq is not None else Seq(items=list(items or [])), kind)
        self.objs[oid] = o
        return o

    def sym_seq(self, name='s', n=None):
        arr = self.fresh(name, AIV)
        if n is None:
            n = self.fresh_int(name + '_len')
            self.assume(n >= 0)
        return Seq(arr=arr, n=n)

    def sym_list(self, name='l', n=None):
        return self.new_list(seq=self.sym_seq(name, n))

    def new_dict(self):
        oid = self.new_oid()
        o = DObj(oid)
        self.objs[oid] = o
        return o

    def new_set(self):
        oid = self.new_oid()
        o = SObj(oid)
        self.objs[oid] = o
        return o

    def new_obj(self, cls):
        oid = self.new_oid()
        o = HObj(oid, cls)
        self.objs[oid] = o
        return o

    def new_exc(self, pycls, *args):
        o = self.new_obj(PyClass(pycls))
        o.fields['args'] = tuple(args)
        return o

    def raise_py(self, pycls, *args):
        raise PyRaise(self.new_exc(pycls, *args))

    def exc_str(self, exc):
        if isinstance(exc, HObj):
            try:
                return f'{exc.cls}({exc.fields.get("cause", exc.fields.get("args"))})'
            except Exception:
                return str(exc.cls)
        return str(exc)

    # locations

    def note_write(self, loc, owner, old):
        for rec in self.recorders:
            if owner <= rec['hmark'] and loc not in rec['writes']:
                rec['writes'][loc] = old

    def get_loc(self, loc):
        k = loc[0]
        if k == 'L':
            return self.frames[loc[1]].locals.get(loc[2], UNDEF)
        if k == 'A':
            return self.objs[loc[1]].fields.get(loc[2], UNDEF)
        if k == 'C':
            return self.get_content(self.objs[loc[1]])
        if k == 'G':
            return self.ghosts.get(loc[1], UNDEF)
        if k == 'M':
            return self.modvars.get((loc[1], loc[2]), UNDEF)
        raise Unsupported(f'location {loc}')

    def get_content(self, o):
        if isinstance(o, LObj):
            return o.seq
        if isinstance(o, DObj):
            return DictContent(o.conc, o.dom, o.val, o.karr, o.n, o.pure)
        if isinstance(o, SObj):
            return SetContent(o.dom, o.conc)
        if isinstance(o, IterVal):
            return o.pos
        raise Unsupported(f'content of {o}')

    def set_content(self, o, v):
        if isinstance(o, LObj) and o.cell is not None:
            d, k = o.cell
            c = self.get_content(d)
            self.set_content(d, DictContent(None, c.dom, z3.Store(c.val, k, self.list_value(v)), c.karr, c.n, c.pure))
            return
        self.note_write(('C', o.oid), o.oid, self.get_content(o))
        if isinstance(o, LObj):
            o.seq = v
        elif isinstance(o, DObj):
            o.conc, o.dom, o.val, o.karr, o.n, o.pure = v.conc, v.dom, v.val, v.karr, v.n, v.pure
        elif isinstance(o, SObj):
            o.dom, o.conc = v.dom, v.conc
        elif isinstance(o, IterVal):
            o.pos = v

    def set_loc(self, loc, v):
        k = loc[0]
        if k == 'L':
            self.set_local(self.frames[loc[1]], loc[2], v)
        elif k == 'A':
            self.set_field(self.objs[loc[1]], loc[2], v)
        elif k == 'G':
            self.gset(loc[1], v)
        elif k == 'M':
            self.set_modvar(loc[1], loc[2], v)
        elif k == 'C':
            self.set_content(self.objs[loc[1]], v)
        else:
            raise Unsupported(f'location {loc}')

    def set_local(self, frame, name, v):
        self.note_write(('L', frame.fid, name), frame.fid, frame.locals.get(name, UNDEF))
        if v is UNDEF:
            frame.locals.pop(name, None)
        else:
            frame.locals[name] = v

    def set_field(self, obj, name, v):
        self.note_write(('A', obj.oid, name), obj.oid, obj.fields.get(name, UNDEF))
        if v is UNDEF:
            obj.fields.pop(name, None)
        else:
            obj.fields[name] = v

    def set_seq(self, lobj, seq):
        self.set_content(lobj, seq)

    def gset(self, name, v):
        self.note_write(('G', name), 0, self.ghosts.get(name, UNDEF))
        self.ghosts[name] = v

    def set_modvar(self, mod, name, v):
        self.note_write(('M', mod, name), 0, self.modvars.get((mod, name), UNDEF))
        self.modvars[(mod, name)] = v

    def gget(self, name):
        return self.ghosts[name]

    # kinds, for generalisation at loop heads

    def kind_of(self, v, mark):
        if v is UNDEF:
            return 'undef'
        if v is None:
            return 'none'
        if is_bool(v):
            return 'bool'
        if is_int(v):
            return 'int'
        if is_V(v) or isinstance(v, (str, float, bytes)):
            return 'V'
        if isinstance(v, TupSym):
            return 'tup'
        if isinstance(v, tuple):
            return ('ctup', tuple(self.kind_of(x, mark) for x in v))
        if isinstance(v, (LObj, DObj, SObj, HObj, IterVal)):
            if v.oid <= mark:
                return ('ref', v.oid)
            if isinstance(v, LObj) and v.cell is not None:
                return 'undef'
            if isinstance(v, LObj):
                return 'list'
            if isinstance(v, DObj):
                return 'dict'
            if isinstance(v, SObj):
                return 'set'
            if isinstance(v, HObj):
                return ('obj', v.cls, tuple(sorted((k, self.kind_of(x, mark)) for k, x in v.fields.items())))
            raise Unsupported('iterator in loop state')
        if isinstance(v, FuncVal) and v.closure is not None:
            if v.oid <= mark:
                return ('ref', v.oid)
            raise Unsupported('a function created in a loop is kept')
        if isinstance(v, BoundMethod) and isinstance(v.self_, HObj):
            if v.self_.oid <= mark and isinstance(v.func, FuncVal) and v.func.closure is None:
                return ('bound', _ConstBox(v.func), v.self_.oid)
            raise Unsupported('a bound method of an object created in a loop is kept')
        if isinstance(v, NObj) and 'sentinel' in v.attrs:
            return 'undef'
        if isinstance(v, (FuncVal, ClassVal, PyClass, Native, NObj, EnumVal, Module, PyModule, BoundMethod, TypeOf)):
            return ('const', _ConstBox(v))
        if isinstance(v, Seq):
            return 'seqcontent'
        if isinstance(v, SetContent):
            return 'setcontent'
        if isinstance(v, DictContent):
            return 'emptydict' if v.conc == {} else 'dictcontent' if v.pure else 'idictcontent'
        raise Unsupported(f'cannot generalise {v!r} at a loop head')

    def havoc_value(self, kinds, name):
        ks = sorted(kinds, key=str)
        if 'undef' in ks:
            return UNDEF     # poison: reading it makes the path unsupported
        if 'V' in ks:
            ks = [k for k in ks if k != 'none' and k != 'tup' and not (isinstance(k, tuple) and k[0] == 'ctup')]
        if 'idictcontent' in ks:
            ks = ['idictcontent']
        elif 'dictcontent' in ks or 'emptydict' in ks:
            ks = ['dictcontent']
        if len(ks) > 1 and all(isinstance(k, tuple) and k[0] == 'ctup' for k in ks):
            ks = ['V']
        k = ks[self.choose(len(ks))] if len(ks) > 1 else ks[0]
        return self.make_kind(k, name)

    def dict_order(self, d):
        """the insertion order of a dict (true of every dict): the keys are distinct and are exactly the domain"""
        i = z3.Int('i')
        v = z3.Const('v', V)
        pos = z3.Function(f'pos_{d.karr}', V, I)
        self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < d.n), z3.And(
            z3.Select(d.dom, z3.Select(d.karr, i)), pos(z3.Select(d.karr, i)) == i)), patterns=[z3.Select(d.karr, i)]))
        self.assume(z3.ForAll([v], z3.Implies(z3.Select(d.dom, v), z3.And(
            pos(v) >= 0, pos(v) < d.n, z3.Select(d.karr, pos(v)) == v, hashable(v))), patterns=[z3.Select(d.dom, v)]))

    def list_value(self, s):
        """the list value with the content s"""
        s = self.sym(s)
        n = zi(s.n)
        t = v_list(s.arr, n)
        self.fact(v_arr(t) == s.arr)
        self.fact(vlen(t) == n)
        self.fact(ty(t) == TAGS['list'])
        self.fact(truthy(t) == (n > 0))
        return t

    def make_kind(self, k, name):
        if k == 'undef':
            return UNDEF
        if k == 'none':
            return None
        if k == 'bool':
            return self.fresh_bool(name)
        if k == 'int':
            return self.fresh_int(name)
        if k == 'V':
            return self.fresh_V(name)
        if k == 'tup':
            return TupSym(self.sym_seq(name))
        if k == 'list':
            return self.sym_list(name)
        if k == 'seqcontent':
            return self.sym_seq(name)
        if k == 'setcontent':
            return SetContent(self.fresh(name, AVB), None)
        if k in ('dictcontent', 'idictcontent'):
            n = self.fresh_int(name + '_n')
            self.assume(n >= 0)
            c = DictContent(None, self.fresh(name + '_dom', AVB), self.fresh(name + '_val', AVV),
                            self.fresh(name + '_keys', AIV), n, k == 'dictcontent')
            self.dict_order(c)
            return c
        if k == 'set':
            o = self.new_set()
            o.conc, o.dom = None, self.fresh(name, AVB)
            return o
        if k == 'dict':
            o = self.new_dict()
            c = self.make_kind('dictcontent', name)
            o.conc, o.dom, o.val, o.karr, o.n, o.pure = c.conc, c.dom, c.val, c.karr, c.n, c.pure
            return o
        if isinstance(k, tuple):
            if k[0] == 'ctup':
                return tuple(self.make_kind(x, name) for x in k[1])
            if k[0] == 'ref':
                return self.objs[k[1]]
            if k[0] == 'const':
                return k[1].v
            if k[0] == 'bound':
                return BoundMethod(k[1].v, self.objs[k[2]])
            if k[0] == 'obj':
                o = self.new_obj(k[1])
                for f, fk in k[2]:
                    o.fields[f] = self.make_kind(fk, f)
                return o
        raise Unsupported(f'havoc {k}')

    # ------------------------------------------------------------------------------------------------ cut loops

    def refs_in(self, v, acc):
        if isinstance(v, (LObj, DObj, SObj, HObj)):
            acc.append(v.oid)
        elif isinstance(v, tuple):
            for x in v:
                self.refs_in(x, acc)
        elif isinstance(v, BoundMethod):
            self.refs_in(v.self_, acc)

    def all_refs(self):
        acc = []
        for f in self.frames.values():
            if not getattr(f, 'live', True):
                continue
            for v in f.locals.values():
                self.refs_in(v, acc)
        for o in self.objs.values():
            if isinstance(o, HObj):
                for v in o.fields.values():
                    self.refs_in(v, acc)
            elif isinstance(o, LObj) and o.seq.items is not None:
                for v in o.seq.items:
                    self.refs_in(v, acc)
            elif isinstance(o, DObj) and o.conc is not None:
                for v in o.conc.values():
                    self.refs_in(v, acc)
        for v in self.ghosts.values():
            self.refs_in(v, acc)
        return acc

    def cut_loop(self, where, cond, body, it_name='it', extra=None):
        """A loop handled by an inductive invariant (the conjunction of the candidates that survive).
        cond(it) -> python bool (may branch); body(it) executes one iteration."""
        self.loopseq += 1
        key = (self.loopseq, tuple(self.taken))
        restart = Restart(key, self.nbranch)
        info = self.loops.get(key)
        if info is None:
            info = self.loops[key] = LoopInfo()
        mark = self.noid
        entry = {}
        for loc, kinds in info.foot.items():
            v = self.get_loc(loc)
            kinds.add(self.kind_of(v, mark))
            entry[loc] = v
            if isinstance(v, LObj):
                entry[loc] = EntryList(v, v.seq)
        ctx = LoopCtx(self, key, where, z3.IntVal(0), list(info.foot), entry)
        ctx.extra = extra
        died = False
        for name, f in self._cands(ctx, info):
            if self.prove(f, self.cand_ms)[0] != 'proved':
                info.dead.add(name)
                died = True
        if died:
            raise restart
        # generalise: arbitrary iteration
        refs = None
        aliases = []
        for loc, kinds in info.foot.items():
            nm = str(loc[-1]) if loc[0] in ('L', 'A', 'G') else 'content'
            ks = set(kinds)
            if 'list' in ks:
                for k in list(ks):
                    if isinstance(k, tuple) and k[0] == 'ref' and isinstance(self.objs.get(k[1]), LObj):
                        if refs is None:
                            refs = self.all_refs()
                        if refs.count(k[1]) <= 1:
                            ks.discard(k)
            al = [k for k in sorted(ks, key=str) if isinstance(k, tuple) and k[0] == 'alias']
            if al:
                rest = ks - set(al)
                c = self.choose(len(al) + 1 if rest else len(al))
                if c < len(al):
                    aliases.append((loc, al[c][1]))
                    continue
                ks = rest
            self.set_loc(loc, self.havoc_value(ks, nm))
        for loc, rep in aliases:
            v = self.get_loc(rep)
            if not (isinstance(v, (LObj, DObj, SObj)) and v.oid > mark):
                raise PathEnd()      # not a state of the program: the aliased location holds no such object
            self.set_loc(loc, v)
        it = self.fresh_int(it_name)
        self.assume(it >= 0)
        hmark = self.noid
        ctx.it = it
        for name, f in self._cands(ctx, info):
            self.assume(f)
        rec = {'hmark': hmark, 'writes': {}}
        self.recorders.append(rec)
        self.enclosing.append((restart, info))
        try:
            if not cond(it):
                return it
            try:
                body(it)
            except _Continue:
                pass
        finally:
            self.recorders.remove(rec)
            self.enclosing.pop()
        # loop back
        changed = False
        reps, alias = {}, {}
        for loc in list(info.foot) + [l for l in rec['writes'] if l not in info.foot]:
            if loc[0] in ('A', 'C', 'L') and loc[1] > mark:
                continue
            v = self.get_loc(loc)
            if isinstance(v, (LObj, DObj, SObj)) and v.oid > mark:
                if v.oid in reps:
                    alias[loc] = ('alias', reps[v.oid])
                else:
                    reps[v.oid] = loc
        for loc, old in rec['writes'].items():
            if loc[0] in ('A', 'C', 'L') and loc[1] > mark:
                continue   # part of an object created by the generalisation
            v = self.get_loc(loc)
            k = alias.get(loc) or self.kind_of(v, mark)
            if loc not in info.foot:
                info.foot[loc] = {k, self.kind_of(old, mark)}
                changed = True
            elif k not in info.foot[loc] and not (k == 'none' and 'V' in info.foot[loc]):
                info.foot[loc].add(k)
                if len(info.foot[loc]) > 6:
                    raise Unsupported(f'loop state of {loc} does not stabilise')
                changed = True
        if len(info.foot) > self.max_foot:
            raise Unsupported('loop footprint too large')
        if changed:
            # what was refuted at the head of an enclosing loop, with this loop not fully explored, may hold now
            outer = [r for r, i in self.enclosing if i.dead - i.generic]
            for r, i in self.enclosing:
                i.dead &= i.generic
            grown = restart.key
            if outer:
                restart = outer[0]
            restart.reset = grown
            raise restart
        # ownership: objects created by the generalisation or the body may be held by one location only
        seen = {}
        for r in self.all_refs():
            if r > mark and isinstance(self.objs.get(r), (LObj, DObj, SObj)):
                seen[r] = seen.get(r, 0) + 1
        held = []
        for loc in info.foot:
            v = self.get_loc(loc)
            if loc in alias and alias[loc] not in info.foot[loc]:
                info.foot[loc].add(alias[loc])
                raise restart
            if isinstance(v, (LObj, DObj, SObj)) and v.oid > mark and loc not in alias:
                held.append(v.oid)
        for o in held:
            if held.count(o) > 1:
                raise Unsupported('aliased mutable state at a loop head')
        ctx.it = it + 1
        died = False
        for name, f in self._cands(ctx, info):
            if self.prove(f, self.cand_ms)[0] != 'proved':
                info.dead.add(name)
                died = True
        if died:
            raise restart
        self.stats['loopbacks'] = self.stats.get('loopbacks', 0) + 1
        raise PathEnd()

    def locname(self, loc):
        if loc[0] == 'L':
            return f'L{loc[1]}.{loc[2]}'
        if loc[0] == 'A':
            return f'#{loc[1]}.{loc[2]}'
        return '.'.join(str(x) for x in loc)

    def _cands(self, ctx, info):
        out = []
        gen = []
        for loc, e, c in ctx.ints():
            nm = self.locname(loc)
            d, cc = zi(e), zi(c)
            gen.append((f'{nm}==e+it', cc == d + ctx.it))
            gen.append((f'{nm}==e-it', cc == d - ctx.it))
            gen.append((f'{nm}>=e', cc >= d))
            gen.append((f'{nm}<=e', cc <= d))
            gen.append((f'{nm}>=0', cc >= 0))
        for loc, e, c in ctx.bools():
            gen.append((f'{self.locname(loc)}==e', zb(c) == zb(e)))
        for loc, e, c in ctx.dicts():
            if e is not None and e.conc is None and c.conc is None:
                nm = self.locname(loc)
                gen.append((f'{nm}.dom==e', c.dom == e.dom))
                gen.append((f'{nm}.order==e', z3.And(c.karr == e.karr, zi(c.n) == zi(e.n))))
                gen.append((f'{nm}.val==e', c.val == e.val))
                for k in getattr(self, 'dict_keys', lambda: [])():
                    gen.append((f'{nm}.val=={k}-only', c.val == z3.Store(e.val, k, z3.Select(c.val, k))))
        for loc, e, c in ctx.seqs():
            if e is not None:
                ne, nc = zi(self.seq_n(e)), zi(self.seq_n(c))
                gen.append((f'{self.locname(loc)}.len==e+it', nc == ne + ctx.it))
                gen.append((f'{self.locname(loc)}.len==e', nc == ne))
                nm = self.locname(loc)
                gen.append((f'{nm}.len==e-it', nc == ne - ctx.it))
                if f'{nm}.len==e-it' not in info.dead and e.items is None:
                    # items taken from one end
                    i = z3.Int('i')
                    ae, ac = self.seq_arr(e), self.seq_arr(c)
                    for t, at in (('prefix', i), ('suffix', i + ctx.it)):
                        gen.append((f'{nm}=={t} of e', z3.ForAll([i], z3.Implies(
                            z3.And(i >= 0, i < nc), z3.Select(ac, i) == z3.Select(ae, at)), patterns=[z3.Select(ac, i)])))
            gen.append((f'{self.locname(loc)}.len>=0', zi(self.seq_n(c)) >= 0))
        for loc in ctx.foot:
            if loc[0] in ('L', 'A', 'G') and ctx.entry(loc) is None:
                v = self.get_loc(loc)
                if v is None or isinstance(v, (DObj, SObj, LObj, HObj)):
                    gen.append((f'{self.locname(loc)} None at first only', (ctx.it == 0) == (v is None)))
        info.generic.update(n for n, _ in gen)
        if ctx.extra:
            gen.extend(ctx.extra(ctx.it))
        if self.candidates:
            gen.extend(self.candidates(self, ctx))
        for name, f in gen:
            if name in info.dead:
                continue
            if isinstance(f, bool):
                f = z3.BoolVal(f)
            out.append((name, f))
        return out

    def seq_n(self, s):
        return len(s.items) if s.items is not None else s.n
