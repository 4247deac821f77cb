"""pyvc: a small deductive verifier for Python.

Verification conditions are generated by symbolic execution of the *real* source of /repo (parsed with `ast` on
every run, nothing is rewritten), cut at loops by inferred-then-checked inductive invariants, and discharged by z3.

Execution is replay based: a path is identified by its vector of decisions; the interpreter is written in direct
style and is re-run once per path.  See DESIGN.md ("Engine") for the semantics, and for what is assumed.
"""
import ast
import os
import sys
import time

import z3

_forall = z3.ForAll


def _has_ite(t, seen=None):
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return True
        todo.extend(x.children())
    return False


def _safe_forall(vs, body, *a, patterns=(), **kw):
    """z3.ForAll, without the patterns the solver would refuse (it then chooses its own)"""
    ok = [p for p in patterns if not (_has_ite(p) if z3.is_expr(p) else
                                      any(_has_ite(p.arg(i)) for i in range(p.num_args())))]
    try:
        return _forall(vs, body, *a, patterns=ok, **kw)
    except z3.Z3Exception:
        return _forall(vs, body, *a, **kw)


z3.ForAll = _safe_forall

z3.set_param('smt.random_seed', 1)

# --------------------------------------------------------------------------------------------------------------
# Sorts and uninterpreted symbols

V = z3.DeclareSort('V')                      # any Python value, identified up to ==
I = z3.IntSort()
B = z3.BoolSort()
AIV = z3.ArraySort(I, V)
AVB = z3.ArraySort(V, B)
AVV = z3.ArraySort(V, V)

ty = z3.Function('ty', V, I)                 # type tag
v_int = z3.Function('v_int', I, V)
i_val = z3.Function('i_val', V, I)
v_str = z3.Function('v_str', I, V)           # interned string constants
s_id = z3.Function('s_id', V, I)
v_ref = z3.Function('v_ref', I, V)           # heap references
r_id = z3.Function('r_id', V, I)
v_tup = z3.Function('v_tup', AIV, I, V)
v_list = z3.Function('v_list', AIV, I, V)
vlen = z3.Function('vlen', V, I)
v_arr = z3.Function('v_arr', V, AIV)


def vget(x, i):
    return z3.Select(v_arr(x), i)


shift_ = z3.Function('shift', AIV, I, AIV)           # shift(a, k)[i] == a[k + i]
cat_ = z3.Function('cat', AIV, I, AIV, AIV)          # cat(a, n, b)[i] == a[i] (i < n), b[i - n] (i >= n)
rev_ = z3.Function('rev', AIV, I, AIV)               # rev(a, n)[i] == a[n - 1 - i]  (0 <= i < n)
sort_ = z3.Function('sorted', AIV, I, V, B, AIV)     # sorted(a, n, key, reverse)
truthy = z3.Function('truthy', V, B)
hashable = z3.Function('hashable', V, B)
apply_ = z3.Function('apply', V, V, V)       # result of calling a user function on an argument pack
raises_ = z3.Function('raises', V, V, B)     # does that call raise an Exception?
VNone = z3.Const('None', V)
VTrue = z3.Const('True', V)
VFalse = z3.Const('False', V)

TAGS = {'NoneType': 0, 'bool': 1, 'int': 2, 'float': 3, 'str': 4, 'tuple': 5, 'list': 6, 'dict': 7, 'set': 8,
        'function': 9, 'bytes': 10}
_next_tag = [100]


def tag_of(name):
    if name not in TAGS:
        TAGS[name] = _next_tag[0]
        _next_tag[0] += 1
    return TAGS[name]


class Unsupported(Exception):
    """The code under verification is outside the subset the engine understands."""


class PathEnd(Exception):
    pass


class Restart(Exception):
    """The invariant of a loop was weakened: every path through that loop has to be explored again."""
    def __init__(self, key=None, nbranch=0):
        self.key = key
        self.nbranch = nbranch
        self.reset = False


class GaveUp(Exception):
    """Resource limit."""


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


# --------------------------------------------------------------------------------------------------------------
# Values

class HObj:
    """Instance of a class (interpreted or builtin)."""
    def __init__(self, oid, cls):
        self.oid = oid
        self.cls = cls
        self.fields = {}

    def __repr__(self):
        return f'<{self.cls}#{self.oid}>'


class NObj:
    """Object provided by the contract (a ghost object): methods are python functions handler(E, args, kwargs)."""
    def __init__(self, name, methods=None, attrs=None):
        self.name = name
        self.methods = methods or {}
        self.attrs = attrs or {}

    def __repr__(self):
        return f'<ghost {self.name}>'


class Seq:
    """Content of a list or tuple: concrete (items) or symbolic (arr, n)."""
    __slots__ = ('items', 'arr', 'n')

    def __init__(self, items=None, arr=None, n=None):
        self.items = items
        self.arr = arr
        self.n = n

    def copy(self):
        return Seq(list(self.items) if self.items is not None else None, self.arr, self.n)

    def is_conc(self):
        return self.items is not None


class LObj:
    def __init__(self, oid, seq, kind='list'):
        self.oid = oid
        self._seq = seq
        self.kind = kind  # list or deque
        self.cell = None  # (dict, key): the list is held by a dict of symbolic content, under this key only

    @property
    def seq(self):
        if self.cell is not None:
            d, k = self.cell
            v = z3.simplify(z3.Select(d.val, k))
            return Seq(arr=v_arr(v), n=vlen(v))
        return self._seq

    @seq.setter
    def seq(self, v):
        assert self.cell is None
        self._seq = v

    def __repr__(self):
        return f'<list#{self.oid}>'


class TupSym:
    """Immutable tuple of symbolic length."""
    def __init__(self, seq):
        self.seq = seq


class DObj:
    def __init__(self, oid):
        self.oid = oid
        self.conc = {}        # concrete keys -> value (insertion order), or None if symbolic
        self.dom = None       # Array V Bool
        self.val = None       # Array V V
        self.karr = None      # insertion order: Array Int V
        self.n = None
        self.pure = True      # every list among the (symbolic) values is held by this dict only

    def __repr__(self):
        return f'<dict#{self.oid}>'


class SObj:
    def __init__(self, oid):
        self.oid = oid
        self.dom = None       # Array V Bool
        self.conc = []        # python list of concrete values or None

    def __repr__(self):
        return f'<set#{self.oid}>'


class FuncVal:
    def __init__(self, node, module, closure, owner, defaults, kwdefaults, name):
        self.node = node
        self.module = module
        self.closure = closure
        self.owner = owner
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name
        self.fields = {}

    def qualname(self):
        return f'{self.module.name}.{self.owner.name + "." if self.owner else ""}{self.name}'

    def __repr__(self):
        return f'<function {self.qualname()}>'


class BoundMethod:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_


class Native:
    """python implemented callable: fn(E, args, kwargs)"""
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f'<native {self.name}>'


class ClassVal:
    def __init__(self, node, module, outer=None):
        self.node = node
        self.module = module
        self.name = (outer.name + '.' if outer else '') + node.name
        self.outer = outer
        self._mro = None

    def qualname(self):
        return f'{self.module.name}.{self.name}'

    def __repr__(self):
        return f'{self.qualname()}'


class PyClass:
    """A class of the python runtime (builtins, stdlib)."""
    _cache = {}

    def __new__(cls, py):
        o = PyClass._cache.get(py)
        if o is None:
            o = object.__new__(cls)
            o.py = py
            o.name = py.__name__
            PyClass._cache[py] = o
        return o

    def qualname(self):
        return self.py.__name__

    def __repr__(self):
        return self.py.__name__


class EnumVal:
    def __init__(self, cls, name):
        self.cls = cls
        self.name = name

    def __eq__(self, other):
        return isinstance(other, EnumVal) and other.cls is self.cls and other.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f'{self.cls.name}.{self.name}'


class PyModule:
    """external module"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<external module {self.name}>'


class TypeOf:
    """type(v) of an opaque value."""
    def __init__(self, v):
        self.v = v


class StarPack:
    def __init__(self, v):
        self.v = v


class SuperVal:
    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


class RangeVal:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class IterVal:
    """iterator over a sequence"""
    def __init__(self, oid, getter, n):
        self.oid = oid
        self.getter = getter   # python function: index -> value
        self.n = n             # int or z3 Int
        self.pos = 0


class DView(tuple):
    """keys, values or items of a dict with concrete keys"""
    def __new__(cls, items, d):
        t = super().__new__(cls, items)
        t.d = d
        return t


class Module:
    """A module of /repo, parsed from its current source."""
    def __init__(self, name, path, source):
        self.name = name
        self.path = path
        self.source = source
        self.tree = ast.parse(source, path)
        self.is_pkg = path.endswith('__init__.py')
        self.defs = {}        # name -> list of nodes that bind it, at module level
        self._index(self.tree.body)

    def _index(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.defs[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.defs[n.id] = s
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.defs[s.target.id] = s
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.defs[a.asname] = ('import', a.name)
                    else:
                        self.defs[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.defs[a.asname or a.name] = ('from', s.module, a.name, s.level)
            elif isinstance(s, (ast.If, ast.Try)):
                self._index(s.body)
            elif isinstance(s, ast.For):
                pass

    def __repr__(self):
        return f'<module {self.name}>'


class Program:
    """The source tree under verification."""
    def __init__(self, root='/repo', package='marcel'):
        self.root = root
        self.package = package
        self.modules = {}

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        m = None
        if name == self.package or name.startswith(self.package + '.'):
            base = os.path.join(self.root, *name.split('.'))
            for p in (base + '.py', os.path.join(base, '__init__.py')):
                if os.path.exists(p):
                    with open(p, encoding='utf-8') as f:
                        m = Module(name, p, f.read())
                    break
        self.modules[name] = m
        return m


class Frame:
    def __init__(self, fid, module, func, closure, localnames, globalnames, nonlocalnames):
        self.fid = fid
        self.module = module
        self.func = func
        self.closure = closure
        self.localnames = localnames
        self.globalnames = globalnames
        self.nonlocalnames = nonlocalnames
        self.locals = {}
        self.cls = None


_scope_cache = {}


def scope_info(node):
    """names assigned in a function body (its locals), its global and nonlocal declarations."""
    r = _scope_cache.get(node)
    if r is not None:
        return r
    loc, glo, non = set(), set(), set()

    def targets(t):
        if isinstance(t, ast.Name):
            loc.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # own scope; only walrus targets leak (unsupported)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                targets(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
            targets(n.target)
        elif isinstance(n, ast.NamedExpr):
            targets(n.target)
        elif isinstance(n, ast.With):
            for it in n.items:
                if it.optional_vars is not None:
                    targets(it.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                loc.add(n.name)
        elif isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            non.update(n.names)
        elif isinstance(n, ast.Import):
            for a in n.names:
                loc.add((a.asname or a.name.split('.')[0]))
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                loc.add(a.asname or a.name)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                targets(t)
        for c in ast.iter_child_nodes(n):
            visit(c)

    if isinstance(node, ast.Lambda):
        visit(node.body)
        a = node.args
    else:
        for s in node.body:
            visit(s)
        a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)
    loc -= glo
    loc -= non
    r = (loc, glo, non)
    _scope_cache[node] = r
    return r


def has_yield(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False
