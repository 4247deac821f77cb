"""Expressions, statements, calls: the Python subset."""
import ast
import builtins as _bi

import z3

from .core import *
from .core import _Return, _Break, _Continue
from .engine import (Engine, Unsupported, SetContent, DictContent, is_z3, is_int, is_bool, is_V, is_conc_scalar, zi, zb)

_EXC_NAMES = {n: getattr(_bi, n) for n in dir(_bi)
              if isinstance(getattr(_bi, n), type) and issubclass(getattr(_bi, n), BaseException)}
_TYPE_NAMES = {n: getattr(_bi, n) for n in ('int', 'str', 'float', 'bool', 'list', 'tuple', 'dict', 'set', 'object',
                                            'bytes', 'type', 'frozenset', 'complex', 'property')}

_strs = {}
_strs_rev = {}


def intern_str(s):
    if s not in _strs:
        _strs[s] = len(_strs) + 1
        _strs_rev[_strs[s]] = s
    return _strs[s]


class GenVal:
    def __init__(self, func, frame):
        self.func, self.frame = func, frame


class Interp(Engine):

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        from . import builtin
        self.bi = builtin.TABLE
        self.lib = dict(builtin.LIB)
        self.max_depth = 60
        self.yield_cb = []
        self.total_ops = True
        self.int_vals = False

    # ------------------------------------------------------------------------------------------- V conversions

    def toV(self, x):
        if is_V(x):
            return x
        if x is None:
            return VNone
        if isinstance(x, bool):
            return VTrue if x else VFalse
        if is_z3(x) and x.sort() == B:
            return z3.If(x, VTrue, VFalse)
        if is_int(x):
            t = v_int(zi(x))
            self.fact(i_val(t) == zi(x))
            self.fact(ty(t) == TAGS['int'])
            self.fact(truthy(t) == (zi(x) != 0))
            return t
        if isinstance(x, str):
            t = v_str(z3.IntVal(intern_str(x)))
            self.fact(s_id(t) == intern_str(x))
            self.fact(ty(t) == TAGS['str'])
            self.fact(truthy(t) == (len(x) > 0))
            self.fact(vlen(t) == len(x))
            return t
        if isinstance(x, float):
            return z3.Const(f'float_{x}', V)
        if isinstance(x, tuple):
            return self.tupV(Seq(items=list(x)))
        if isinstance(x, TupSym):
            return self.tupV(x.seq)
        if isinstance(x, (LObj, HObj, DObj, SObj)):
            t = v_ref(z3.IntVal(x.oid))
            self.fact(r_id(t) == x.oid)
            cls = ('list' if isinstance(x, LObj) else 'dict' if isinstance(x, DObj) else 'set' if isinstance(x, SObj)
                   else x.cls.qualname())
            self.fact(ty(t) == tag_of(cls))
            return t
        if isinstance(x, NObj) and 'V' in x.attrs:
            return x.attrs['V']
        if isinstance(x, NObj) and 'sentinel' in x.attrs:
            raise Unsupported('an object() in a symbolic container')
        if isinstance(x, (FuncVal, Native, BoundMethod, ClassVal, PyClass, NObj, EnumVal)):
            if isinstance(x, BoundMethod):
                nm = f'bm_{x.func}_{id(x.self_)}'
            elif isinstance(x, FuncVal):
                nm = f'fn_{x.qualname()}_{x.node.lineno}'
            else:
                nm = f'c_{x}'
            key = ('const', nm)
            t = z3.Const(nm, V)
            self.vconsts = getattr(self, 'vconsts', {})
            self.vconsts[nm] = x
            return t
        if isinstance(x, TypeOf):
            return z3.Function('type_of', V, V)(x.v)
        raise Unsupported(f'value {x!r} as an element of a symbolic collection')

    def fromV(self, v):
        """normalise a V term to a structured value when its head is known"""
        if not is_V(v):
            return v
        if z3.is_app(v):
            d = v.decl()
            n = d.name()
            if n == 'None' and v.num_args() == 0:
                return None
            if n == 'True' and v.num_args() == 0:
                return True
            if n == 'False' and v.num_args() == 0:
                return False
            if n == 'v_int':
                a = v.arg(0)
                return a.as_long() if z3.is_int_value(a) else a
            if n == 'v_str' and z3.is_int_value(v.arg(0)):
                return _strs_rev[v.arg(0).as_long()]
            if n == 'v_ref' and z3.is_int_value(v.arg(0)):
                o = self.objs.get(v.arg(0).as_long())
                if o is not None:
                    return o
            if n == 'v_tup' and z3.is_int_value(v.arg(1)) and v.arg(1).as_long() <= 8:
                k = v.arg(1).as_long()
                return tuple(self.fromV(z3.simplify(z3.Select(v.arg(0), i))) for i in range(k))
            if v.num_args() == 0 and n in getattr(self, 'vconsts', {}):
                return self.vconsts[n]
        return v

    def seq_arr(self, s):
        if s.items is None:
            return s.arr
        arr = z3.K(I, VNone)
        for i, x in enumerate(s.items):
            arr = z3.Store(arr, i, self.toV(x))
        return arr

    def tupV(self, s):
        arr, n = self.seq_arr(s), zi(self.seq_n(s))
        t = v_tup(arr, n)
        self.fact(v_arr(t) == arr)
        self.fact(vlen(t) == n)
        self.fact(ty(t) == TAGS['tuple'])
        self.fact(truthy(t) == (n > 0))
        if s.items is None and self.ext_terms is not None:
            i = z3.Int('i')
            for u in self.ext_terms():
                if not t.eq(u) and self.prove(z3.And(n == vlen(u), z3.ForAll([i], z3.Implies(
                        z3.And(i >= 0, i < n), z3.Select(arr, i) == vget(u, i)))))[0] == 'proved':
                    self.assume(t == u)         # equal tuples are identified
        return t

    def sym(self, s):
        """symbolic form of a Seq"""
        if s.items is None:
            return s
        return Seq(arr=self.seq_arr(s), n=z3.IntVal(len(s.items)))

    def v_seq(self, x):
        """sequence content of an opaque value"""
        self.fact(vlen(x) >= 0)
        return Seq(arr=v_arr(x), n=vlen(x))

    def pack(self, args):
        """argument pack of a call on an opaque function, as V"""
        if len(args) == 1 and isinstance(args[0], StarPack):
            p = args[0].v
            if is_V(p):
                s = self.v_seq(p)
                t = self.tupV(s)
                self.fact(z3.Implies(ty(p) == TAGS['tuple'], t == p))
                return t
            return self.tupV(self.as_seq(p))
        items = []
        for a in args:
            if isinstance(a, StarPack):
                s = self.as_seq(a.v)
                if not s.is_conc():
                    raise Unsupported('mixed star arguments')
                items.extend(s.items)
            else:
                items.append(a)
        return self.tupV(Seq(items=items))

    def as_seq(self, x):
        if isinstance(x, LObj):
            return x.seq
        if isinstance(x, TupSym):
            return x.seq
        if isinstance(x, tuple):
            return Seq(items=list(x))
        if is_V(x):
            if self.branch(z3.Or(ty(x) == TAGS['tuple'], ty(x) == TAGS['list'])):
                return self.v_seq(x)
            h = getattr(self, 'viter', None)       # contract: which other opaque values are iterable
            if h is not None and self.branch(h(x)):
                return self.v_seq(x)
            raise Unsupported('iteration over an opaque non-sequence')
        if isinstance(x, str):
            return Seq(items=list(x))
        if isinstance(x, DObj):
            if x.conc is not None:
                return Seq(items=list(x.conc.keys()))
            return Seq(arr=x.karr, n=x.n)
        if isinstance(x, SObj):
            if x.dom is None:
                return Seq(items=list(x.conc))
            return self.set_enum(x)
        if isinstance(x, RangeVal):
            lo, hi, st = x.lo, x.hi, x.step
            if all(isinstance(y, int) for y in (lo, hi, st)):
                return Seq(items=list(range(lo, hi, st)))
            if st == 1:
                n = self.fresh_int('rangelen')
                self.assume(n == z3.If(zi(hi) > zi(lo), zi(hi) - zi(lo), 0))
                arr = self.fresh('range', AIV)
                i = z3.Int('i')
                self.assume(z3.ForAll([i], z3.Select(arr, i) == v_int(zi(lo) + i)))
                return Seq(arr=arr, n=n)
            raise Unsupported('range step')
        if isinstance(x, GenVal):
            out = self.new_list([])             # a list of the engine: loops of the generator may be cut
            self.consume(x, lambda v: self.set_seq(out, self.seq_append(out.seq, v)))
            return out.seq
        if isinstance(x, IterVal):
            if isinstance(x.n, int) and isinstance(x.pos, int):
                r = [x.getter(i) for i in range(x.pos, x.n)]
                self.set_content(x, x.n)
                return Seq(items=r)
        if isinstance(x, HObj):
            m = self.find_method(x, '__iter__')
            if m is not None:
                return self.as_seq(self.call(m, []))
            if '<dict>' in x.fields:
                return self.as_seq(x.fields['<dict>'])
        if isinstance(x, NObj) and 'seq' in x.attrs:
            return x.attrs['seq']
        raise Unsupported(f'sequence view of {x!r}')

    def seq_get(self, s, i):
        """element i (no bounds check)"""
        if s.items is not None and isinstance(i, int):
            return s.items[i]
        if s.items is not None:
            if all(is_int(x) for x in s.items) and s.items:
                r = zi(s.items[-1])
                for k in range(len(s.items) - 2, -1, -1):
                    r = z3.If(zi(i) == k, zi(s.items[k]), r)
                return r
            for k in range(len(s.items)):
                if self.branch(zi(i) == k):
                    return s.items[k]
            raise PathEnd()
        t = z3.simplify(z3.Select(s.arr, zi(i)))
        return self.fromV(t)

    def seq_index(self, s, i):
        n = self.seq_n(s)
        if isinstance(i, int) and isinstance(n, int):
            if i < -n or i >= n:
                self.raise_py(IndexError, 'index out of range')
            return i % n if n else 0
        if isinstance(i, int) and i < 0:
            if not self.branch(zi(n) >= -i):
                self.raise_py(IndexError, 'index out of range')
            return z3.simplify(zi(n) + i)
        if self.branch(z3.And(zi(i) >= 0, zi(i) < zi(n))):
            return i
        if isinstance(i, int):
            self.raise_py(IndexError, 'index out of range')
        if self.branch(z3.And(zi(i) < 0, zi(i) >= -zi(n))):
            return zi(i) + zi(n)
        self.raise_py(IndexError, 'index out of range')

    def seq_set(self, s, i, v):
        if s.items is not None and isinstance(i, int):
            items = list(s.items)
            items[i] = v
            return Seq(items=items)
        s = self.sym(s)
        return Seq(arr=z3.Store(s.arr, zi(i), self.toV(v)), n=s.n)

    def seq_append(self, s, v):
        if s.items is not None:
            return Seq(items=s.items + [v])
        return Seq(arr=z3.Store(s.arr, s.n, self.toV(v)), n=s.n + 1)

    def arr_shift(self, arr, k):
        if isinstance(k, int) and k == 0:
            return arr
        t = shift_(arr, zi(k))
        i = z3.Int('i')
        self.fact(z3.ForAll([i], z3.Select(t, i) == z3.Select(arr, zi(k) + i), patterns=[z3.Select(t, i)]))
        return t

    def arr_cat(self, a, n, b):
        t = cat_(a, zi(n), b)
        i = z3.Int('i')
        self.fact(z3.ForAll([i], z3.Select(t, i) == z3.If(i < zi(n), z3.Select(a, i), z3.Select(b, i - zi(n))),
                            patterns=[z3.Select(t, i)]))
        return t

    def seq_cat(self, a, b):
        if a.items is not None and b.items is not None:
            return Seq(items=a.items + b.items)
        if b.items is not None and len(b.items) <= 4:
            r = a
            for x in b.items:
                r = self.seq_append(r, x)
            return r
        a, b = self.sym(a), self.sym(b)
        return Seq(arr=self.arr_cat(a.arr, a.n, b.arr), n=a.n + b.n)

    def clamp(self, i, n, default):
        if i is None:
            return default
        if isinstance(i, int) and isinstance(n, int):
            return max(0, i + n) if i < 0 else min(i, n)
        i, n = zi(i), zi(n)
        if self.branch(i < 0):
            i = i + n
            return i if self.branch(i >= 0) else 0
        return i if self.branch(i <= n) else n

    def seq_slice(self, s, lo, hi, step=None):
        if step is not None and step != 1:
            if s.items is not None and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
                return Seq(items=s.items[lo:hi:step])
            if step == -1 and lo is None and hi is None:
                return self.seq_reversed(s)
            raise Unsupported('slice step')
        if s.items is not None and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return Seq(items=s.items[lo:hi])
        s = self.sym(s)
        lo2 = self.clamp(lo, s.n, 0)
        hi2 = self.clamp(hi, s.n, s.n)
        n = z3.simplify(zi(hi2) - zi(lo2))
        if z3.is_int_value(n):
            n = z3.IntVal(max(0, n.as_long()))
        elif not self.branch(n >= 0):
            n = z3.IntVal(0)
        return Seq(arr=self.arr_shift(s.arr, lo2), n=n)

    def seq_reversed(self, s):
        if s.items is not None:
            return Seq(items=list(reversed(s.items)))
        t = rev_(s.arr, s.n)
        i = z3.Int('i')
        self.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.n),
                                            z3.Select(t, i) == z3.Select(s.arr, s.n - 1 - i)),
                            patterns=[z3.Select(t, i)]))
        return Seq(arr=t, n=s.n)

    # ----------------------------------------------------------------------------------------------- truth, eq

    def truth(self, x):
        """python bool or z3 Bool"""
        if isinstance(x, bool):
            return x
        if is_z3(x):
            if x.sort() == B:
                return x
            if x.sort() == I:
                return x != 0
            if x.sort() == V:
                x2 = self.fromV(x)
                if x2 is not x:
                    return self.truth(x2)
                self.fact(z3.Not(truthy(VNone)))
                self.fact(z3.Not(truthy(VFalse)))
                self.fact(truthy(VTrue))
                self.fact(z3.Implies(z3.Or(ty(x) == TAGS['tuple'], ty(x) == TAGS['list'], ty(x) == TAGS['str']),
                                     truthy(x) == (vlen(x) > 0)))
                self.fact(z3.Implies(ty(x) == TAGS['function'], truthy(x)))
                return truthy(x)
        if is_conc_scalar(x):
            return bool(x)
        if isinstance(x, tuple):
            return len(x) > 0
        if isinstance(x, (LObj, TupSym)):
            n = self.seq_n(x.seq)
            return n > 0
        if isinstance(x, DObj):
            return len(x.conc) > 0 if x.conc is not None else x.n > 0
        if isinstance(x, SObj):
            if x.dom is None:
                return len(x.conc) > 0
            return self.set_dom(x) != z3.K(V, z3.BoolVal(False))
        if isinstance(x, HObj):
            m = self.find_method(x, '__bool__')
            if m:
                return self.truth(self.call(m, []))
            m = self.find_method(x, '__len__')
            if m:
                return self.truth(self.call(m, []))
            if '<dict>' in x.fields:
                return self.truth(x.fields['<dict>'])
            return True
        if isinstance(x, NObj):
            if 'truth' in x.attrs:
                return x.attrs['truth']
            return True
        return True

    def eq(self, a, b):
        a, b = self.fromV(a), self.fromV(b)
        if is_conc_scalar(a) and is_conc_scalar(b):
            return a == b
        if is_int(a) and is_int(b):
            return zi(a) == zi(b)
        if is_bool(a) and is_bool(b):
            return zb(a) == zb(b)
        if isinstance(a, HObj) and isinstance(b, (HObj,)):
            m = self.find_method(a, '__eq__')
            if m:
                return self.truth(self.call(m, [b]))
            return a is b
        if isinstance(a, NObj) and 'eq' in a.attrs:
            return a.attrs['eq'](self, a, b)
        if isinstance(b, NObj) and 'eq' in b.attrs:
            return b.attrs['eq'](self, b, a)
        if is_V(a) or is_V(b):
            if a is None or b is None or is_V(a) or is_V(b):
                ta, tb = self.toV(a), self.toV(b)
                # None is distinct from everything with another type
                self.fact(ty(VNone) == 0)
                self.fact(ty(VTrue) == 1)
                self.fact(ty(VFalse) == 1)
                return ta == tb
        sa = a.seq if isinstance(a, TupSym) else Seq(items=list(a)) if isinstance(a, tuple) else \
            a.seq if isinstance(a, LObj) else None
        sb = b.seq if isinstance(b, TupSym) else Seq(items=list(b)) if isinstance(b, tuple) else \
            b.seq if isinstance(b, LObj) else None
        if sa is not None and sb is not None:
            if isinstance(a, LObj) != isinstance(b, LObj):
                return False
            if a is b:
                return True
            if sa.is_conc() and sb.is_conc():
                if len(sa.items) != len(sb.items):
                    return False
                r = True
                for x, y in zip(sa.items, sb.items):
                    e = self.eq(x, y)
                    if e is False:
                        return False
                    if e is not True:
                        r = e if r is True else z3.And(r, e)
                return r
            xa, xb = self.sym(sa), self.sym(sb)
            if isinstance(a, LObj):
                i = z3.Int('i')
                return z3.And(zi(xa.n) == zi(xb.n), z3.ForAll([i], z3.Implies(
                    z3.And(i >= 0, i < zi(xa.n)), z3.Select(xa.arr, i) == z3.Select(xb.arr, i))))
            return self.tupV(xa) == self.tupV(xb)
        if sa is not None or sb is not None:
            return False
        if isinstance(a, DObj) and isinstance(b, DObj) and a.conc is not None and b.conc is not None:
            if set(a.conc) != set(b.conc):
                return False
            r = True
            for k in a.conc:
                e = self.eq(a.conc[k], b.conc[k])
                r = e if r is True else z3.And(zb(r), zb(e))
            return r
        if isinstance(a, SObj) and isinstance(b, SObj):
            if a.dom is None and b.dom is None and all(is_conc_scalar(x) for x in a.conc + b.conc):
                return set(a.conc) == set(b.conc)
            return self.set_dom(a) == self.set_dom(b)
        if isinstance(a, (HObj, DObj, SObj)) or isinstance(b, (HObj, DObj, SObj)):
            return a is b
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            return self.is_(a, b)
        if is_conc_scalar(a) != is_conc_scalar(b) or (is_int(a) != is_int(b)):
            if is_z3(a) or is_z3(b):
                # different sorts: int vs str etc
                if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
                    return False
                if is_bool(a) and is_int(b):
                    return z3.If(zb(a), 1, 0) == zi(b)
                if is_bool(b) and is_int(a):
                    return z3.If(zb(b), 1, 0) == zi(a)
            return False
        if isinstance(a, EnumVal) or isinstance(b, EnumVal):
            return isinstance(a, EnumVal) and a == b
        return a is b

    def is_(self, a, b):
        a, b = self.fromV(a), self.fromV(b)
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            if isinstance(a, TypeOf) and isinstance(b, TypeOf):
                return ty(a.v) == ty(b.v)
            t, c = (a, b) if isinstance(a, TypeOf) else (b, a)
            if isinstance(c, PyClass):
                if c.py is type(None):
                    return t.v == VNone
                return ty(t.v) == tag_of(c.name)
            if isinstance(c, ClassVal):
                return ty(t.v) == tag_of(c.qualname())
            return False
        if (isinstance(a, NObj) and 'sentinel' in a.attrs) or (isinstance(b, NObj) and 'sentinel' in b.attrs):
            return a is b       # such an object is never in a symbolic container or an input
        if a is None or b is None:
            x = b if a is None else a
            if x is None:
                return True
            if is_V(x):
                self.fact(ty(VNone) == 0)
                self.fact(z3.Implies(ty(x) == 0, x == VNone))
                return x == VNone
            if isinstance(x, NObj) and 'isnone' in x.attrs:
                return x.attrs['isnone']
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            if is_V(a) or is_V(b):
                return self.toV(a) == self.toV(b)
            if is_bool(a) and is_bool(b):
                return zb(a) == zb(b) if not (isinstance(a, bool) and isinstance(b, bool)) else a == b
            return False
        if isinstance(a, EnumVal) or isinstance(b, EnumVal):
            if is_V(a) or is_V(b):
                return self.toV(a) == self.toV(b)
            return a == b
        if is_V(a) and is_V(b):
            return a == b
        if isinstance(a, PyClass) or isinstance(a, ClassVal):
            return a is b
        if isinstance(a, (HObj, LObj, DObj, SObj, NObj, FuncVal, Native)) and not is_z3(b):
            return a is b
        if is_z3(a) or is_z3(b):
            if is_V(a) or is_V(b):
                return self.toV(a) == self.toV(b)
        if is_conc_scalar(a) and is_conc_scalar(b):
            return type(a) is type(b) and a == b
        if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
            return False
        return a is b

    def contains(self, c, x):
        if isinstance(c, (tuple, LObj, TupSym)):
            s = self.as_seq(c)
            if s.is_conc():
                r = False
                for y in s.items:
                    e = self.is_(x, y) if isinstance(x, TypeOf) or isinstance(y, TypeOf) else self.eq(x, y)
                    if e is True:
                        return True
                    if e is not False:
                        r = e if r is False else z3.Or(r, e)
                return r
            i = z3.Int('i')
            xv = self.toV(x)
            return z3.Exists([i], z3.And(i >= 0, i < zi(s.n), z3.Select(s.arr, i) == xv))
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, SObj):
            if c.dom is None and all(is_conc_scalar(y) for y in c.conc) and is_conc_scalar(x):
                return x in c.conc
            self.need_hashable(x)
            return z3.Select(self.set_dom(c), self.toV(x))
        if isinstance(c, DObj):
            if c.conc is not None:
                if is_conc_scalar(x) or isinstance(x, EnumVal):
                    return x in c.conc
                r = False
                for k in c.conc:
                    e = self.eq(k, x)
                    if e is True:
                        return True
                    if e is not False:
                        r = e if r is False else z3.Or(r, e)
                return r
            self.need_hashable(x)
            return z3.Select(c.dom, self.toV(x))
        if isinstance(c, HObj):
            m = self.find_method(c, '__contains__')
            if m:
                return self.truth(self.call(m, [x]))
            if '<dict>' in c.fields:
                return self.contains(c.fields['<dict>'], x)
        if isinstance(c, NObj) and 'contains' in c.attrs:
            return c.attrs['contains'](self, x)
        if is_V(c):
            return z3.Function('v_in', V, V, B)(self.toV(x), c)
        raise Unsupported(f'in {c!r}')

    def need_hashable(self, x):
        """opaque values may be unhashable (e.g. lists): the operation then raises TypeError"""
        x = self.fromV(x)
        if is_V(x):
            self.fact(z3.Implies(ty(x) == TAGS['list'], z3.Not(hashable(x))))
            if not self.branch(hashable(x)):
                self.raise_py(TypeError, 'unhashable')
        elif isinstance(x, (LObj, DObj, SObj)):
            self.raise_py(TypeError, 'unhashable')
        elif isinstance(x, TupSym):
            v = self.toV(x)
            if not self.branch(hashable(v)):
                self.raise_py(TypeError, 'unhashable')
        elif isinstance(x, tuple):
            for y in x:
                self.need_hashable(y)

    def set_dom(self, s):
        if s.dom is None:
            d = z3.K(V, False)
            for y in s.conc:
                d = z3.Store(d, self.toV(y), True)
            return d
        return s.dom

    def set_enum(self, s):
        """the elements of a set in the (arbitrary) order of iteration"""
        k = s.dom.get_id()
        if k not in self.setenums:
            n = self.fresh_int('set_n')
            self.assume(n >= 0)
            c = DictContent(None, s.dom, None, self.fresh('set_elems', AIV), n, True)
            self.dict_order(c)
            self.setenums[k] = c
        return Seq(arr=self.setenums[k].karr, n=self.setenums[k].n)

    def dict_sym(self, d):
        """symbolic content of a dict"""
        if d.conc is None:
            return DictContent(None, d.dom, d.val, d.karr, d.n, d.pure)
        for k, v in d.conc.items():
            if isinstance(v, (LObj, DObj, SObj, HObj)):
                raise Unsupported('symbolic key in a dict of mutable objects')
        dom, val, karr = z3.K(V, False), z3.K(V, VNone), z3.K(I, VNone)
        for i, (k, v) in enumerate(d.conc.items()):
            kv = self.toV(k)
            dom, val, karr = z3.Store(dom, kv, True), z3.Store(val, kv, self.toV(v)), z3.Store(karr, i, kv)
        return DictContent(None, dom, val, karr, z3.IntVal(len(d.conc)),
                           not any(is_V(v) and not self.not_a_list(v) for v in d.conc.values()))

    def not_a_list(self, v):
        return self.prove(ty(v) != TAGS['list'])[0] == 'proved'

    def dict_get(self, d, k):
        """-> (found: bool (branched), value)"""
        if d.conc is not None:
            if is_conc_scalar(k) or isinstance(k, (EnumVal,)):
                if k in d.conc:
                    return True, d.conc[k]
                if all(is_conc_scalar(y) or isinstance(y, EnumVal) for y in d.conc):
                    return False, None
            if isinstance(k, (HObj, ClassVal, PyClass)) and not is_z3(k):
                for y, v in d.conc.items():
                    if y is k:
                        return True, v
                if all(not is_z3(y) for y in d.conc):
                    return False, None
            for y, v in d.conc.items():
                if self.branch(self.eq(y, k)):
                    return True, v
            self.need_hashable(k)
            return False, None
        self.need_hashable(k)
        kv = self.toV(k)
        if self.branch(z3.Select(d.dom, kv)):
            v = z3.simplify(z3.Select(d.val, kv))
            if d.pure and not self.prove(ty(v) != TAGS['list'])[0] == 'proved' and self.branch(ty(v) == TAGS['list']):
                return True, self.held_list(d, kv)
            return True, self.fromV(v)
        return False, None

    def held_list(self, d, kv):
        """the list that dict d holds under key kv: reads and writes go to the content of d"""
        l = self.new_list([])
        l.cell = (d, kv)
        self.fact(vlen(z3.simplify(z3.Select(d.val, kv))) >= 0)
        return l

    def dict_set(self, d, k, v):
        if d.conc is not None:
            if (is_conc_scalar(k) or isinstance(k, (EnumVal, HObj, ClassVal, PyClass))) and \
                    all(not is_z3(y) for y in d.conc):
                c = dict(d.conc)
                c[k] = v
                self.set_content(d, DictContent(c, None, None, None, None))
                return
        self.need_hashable(k)
        c = self.dict_sym(d)
        kv = self.toV(k)
        new = z3.Not(z3.Select(c.dom, kv))
        karr = z3.If(new, z3.Store(c.karr, zi(c.n), kv), c.karr)
        n = z3.If(new, zi(c.n) + 1, zi(c.n))
        if self.branch(new):
            karr, n = z3.Store(c.karr, zi(c.n), kv), zi(c.n) + 1
        else:
            karr, n = c.karr, c.n
            for o in self.objs.values():
                if isinstance(o, LObj) and o.cell is not None and o.cell[0] is d and \
                        self.prove(kv != o.cell[1])[0] != 'proved':
                    if isinstance(v, LObj) and v is o:
                        return
                    raise Unsupported('a dict entry is replaced while the list it held is in use')
        pure = c.pure
        if isinstance(v, LObj):
            if not pure or v.cell is not None or any(v.oid <= rec['hmark'] for rec in self.recorders):
                raise Unsupported('list shared between a dict and something else')
            if v.kind != 'list':
                raise Unsupported('deque in a dict')
            t = self.list_value(v.seq)
        elif isinstance(v, (DObj, SObj)):
            raise Unsupported('mutable object in a dict with symbolic keys')
        else:
            t = self.toV(v)
            if is_V(v) and pure and not self.not_a_list(v):
                pure = False
        self.set_content(d, DictContent(None, z3.Store(c.dom, kv, True), z3.Store(c.val, kv, t), karr, n, pure))
        if isinstance(v, LObj):
            v._seq = None
            v.cell = (d, kv)

    def dict_del(self, d, k, default=UNDEF):
        found, v = self.dict_get(d, k)
        if not found:
            if default is not UNDEF:
                return default
            self.raise_py(KeyError, k)
        if d.conc is not None:
            c = {y: w for y, w in d.conc.items()}
            if k in c and not is_z3(k):
                del c[k]
            else:
                for y in list(c):
                    if y is k or (is_z3(y) and is_z3(k) and y.eq(k)):
                        del c[y]
                        break
                else:
                    raise Unsupported('deletion of a symbolic key')
            self.set_content(d, DictContent(c, None, None, None, None))
            return v
        c = self.dict_sym(d)
        kv = self.toV(k)
        for o in list(self.objs.values()):
            if isinstance(o, LObj) and o.cell is not None and o.cell[0] is d and self.branch(kv == o.cell[1]):
                if any(o.oid <= rec['hmark'] for rec in self.recorders):
                    raise Unsupported('deletion from a dict of a list in use')
                s = o.seq
                o.cell = None
                o.seq = s
        # the insertion order after a deletion is not tracked, only that it is one
        c = DictContent(None, z3.Store(c.dom, kv, False), c.val, self.fresh('keys', AIV), zi(c.n) - 1, c.pure)
        self.set_content(d, c)
        if getattr(self, 'order_after_del', False):
            self.dict_order(c)
        return v

    def set_add(self, s, x):
        self.need_hashable(x)
        if s.dom is None and all(is_conc_scalar(y) for y in s.conc) and is_conc_scalar(x):
            if x not in s.conc:
                self.set_content(s, SetContent(None, s.conc + [x]))
            return
        self.set_content(s, SetContent(z3.Store(self.set_dom(s), self.toV(x), True), None))

    # ------------------------------------------------------------------------------------------------ modules

    def get_module(self, name):
        m = self.program.module(name)
        if m is not None:
            return m
        return PyModule(name)

    def module_attr(self, m, name):
        if isinstance(m, PyModule):
            return self.ext_attr(m, name)
        key = (m.name, name)
        if key in self.modvars:
            return self.modvars[key]
        d = m.defs.get(name)
        if d is None:
            if name == '__name__':
                return m.name
            sub = self.program.module(m.name + '.' + name)
            if sub is not None:
                return sub
            # names bound by a submodule
            raise Unsupported(f'{m.name}.{name} is not defined at module level')
        if isinstance(d, tuple):
            if d[0] == 'import':
                v = self.get_module(d[1])
            else:
                base = d[1]
                if d[3]:
                    parts = m.name.split('.')
                    parts = parts[:len(parts) - d[3] + (1 if m.is_pkg else 0)]
                    base = '.'.join(parts + ([d[1]] if d[1] else []))
                sub = self.program.module(f'{base}.{d[2]}')
                if sub is not None:
                    v = sub
                else:
                    v = self.module_attr(self.get_module(base), d[2])
        elif isinstance(d, ast.FunctionDef):
            v = self.in_module(m, lambda: self.make_function(d, None))
        elif isinstance(d, ast.ClassDef):
            v = self.class_val(d, m)
        else:
            v = None
            self.in_module(m, lambda: self.exec_module_assign(m, d))
            return self.modvars[key]
        self.modvars[key] = v
        return v

    def class_val(self, node, module, outer=None):
        c = self.classes.get(node) if hasattr(self, 'classes') else None
        if c is None:
            if not hasattr(self, 'classes'):
                self.classes = {}
            c = self.classes[node] = ClassVal(node, module, outer)
        return c

    def in_module(self, m, f):
        saved = self.frame
        fr = Frame(0, m, None, None, set(), set(), set())
        self.frame = fr
        fr.module_level = True
        try:
            return f()
        finally:
            self.frame = saved

    def exec_module_assign(self, m, d):
        v = self.ev(d.value) if d.value is not None else None
        targets = d.targets if isinstance(d, ast.Assign) else [d.target]
        for t in targets:
            if isinstance(t, ast.Name):
                self.modvars[(m.name, t.id)] = v
            elif isinstance(t, (ast.Tuple, ast.List)):
                s = self.as_seq(v)
                for i, e in enumerate(t.elts):
                    self.modvars[(m.name, e.id)] = self.seq_get(s, i)
            else:
                raise Unsupported('module level assignment')

    def ext_attr(self, m, name):
        q = f'{m.name}.{name}'
        if q in self.contracts:
            h = self.contracts[q]
            return h if not callable(h) or isinstance(h, (Native, NObj)) else Native(q, h)
        if q in self.lib:
            h = self.lib[q]
            return Native(q, h) if callable(h) and not isinstance(h, Native) else h
        import importlib
        try:
            pm = importlib.import_module(m.name)
            o = getattr(pm, name)
        except Exception:
            raise Unsupported(f'external {q}')
        import types
        if isinstance(o, types.ModuleType):
            return PyModule(q)
        if isinstance(o, type):
            return PyClass(o)
        if isinstance(o, (int, str, float, bool, bytes, type(None))):
            return o
        return Native(q, self._no_contract(q))

    def _no_contract(self, q):
        def f(E, args, kwargs):
            raise Unsupported(f'call of external function {q} (no contract)')
        return f

    # --------------------------------------------------------------------------------------------- classes

    def mro(self, c):
        if isinstance(c, PyClass):
            return [PyClass(x) for x in c.py.__mro__]
        if c._mro is None:
            bases = [self.in_module(c.module, lambda b=b: self.ev(b)) for b in c.node.bases]
            lin = [c]
            seen = {c}
            rest = []
            for b in bases:
                for x in self.mro(b):
                    if x not in rest:
                        rest.append(x)
            # crude linearisation: object/PyClass last
            rest = [x for x in rest if isinstance(x, ClassVal)] + [x for x in rest if isinstance(x, PyClass)]
            c._mro = lin + rest + ([] if any(isinstance(x, PyClass) and x.py is object for x in rest)
                                   else [PyClass(object)])
        return c._mro

    def subclass(self, c, d):
        return d in self.mro(c)

    def class_lookup(self, c, name):
        """raw class attribute through the MRO -> (value, owner) or None"""
        for k in self.mro(c):
            if isinstance(k, ClassVal):
                v = self.class_own(k, name)
                if v is not UNDEF:
                    return v, k
        return None

    def class_own(self, k, name):
        key = (k, name)
        if key in self.classattrs:
            return self.classattrs[key]
        found = UNDEF
        for s in k.node.body:
            if isinstance(s, ast.FunctionDef) and s.name == name:
                found = self.in_class(k, lambda: self.make_function(s, k))
            elif isinstance(s, ast.ClassDef) and s.name == name:
                found = self.class_val(s, k.module, k)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                targets = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        if self.is_enum(k):
                            found = EnumVal(k, name)
                        else:
                            found = self.in_class(k, lambda: self.ev(s.value))
        if found is not UNDEF:
            self.classattrs[key] = found
        return found

    def is_enum(self, k):
        import enum
        return any(isinstance(x, PyClass) and x.py is enum.Enum for x in self.mro(k))

    def in_class(self, k, f):
        saved = self.frame
        fr = Frame(0, k.module, None, None, set(), set(), set())
        fr.cls = k
        self.frame = fr
        try:
            return f()
        finally:
            self.frame = saved

    def find_method(self, obj, name):
        if isinstance(obj, HObj) and isinstance(obj.cls, ClassVal):
            r = self.class_lookup(obj.cls, name)
            if r is not None:
                return self.bind(r[0], obj)
        return None

    def bind(self, v, obj):
        if isinstance(v, FuncVal):
            decs = getattr(v, 'decs', ())
            if 'staticmethod' in decs:
                return v
            if 'classmethod' in decs:
                return BoundMethod(v, obj.cls if isinstance(obj, HObj) else obj)
            if 'property' in decs:
                return self.call(BoundMethod(v, obj), [])
            return BoundMethod(v, obj)
        return v

    def getattr(self, o, name, default=UNDEF):
        o = self.fromV(o)
        if isinstance(o, HObj):
            if name in o.fields:
                return o.fields[name]
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                d = NObj('__dict__ view', attrs={'of': o})
                d.methods = _dict_view_methods(o)
                return d
            if isinstance(o.cls, ClassVal):
                r = self.class_lookup(o.cls, name)
                if r is not None:
                    q = self.contract_for(r[0], r[1], name)
                    if q is not None:
                        return Native(q, lambda E, a, k, q=q, o=o: E.contracts[q](E, [o] + a, k))
                    return self.bind(r[0], o)
            for c in self.mro(o.cls):
                q = f'{c.name}.{name}'
                if q in self.lib and (not isinstance(c, ClassVal)):
                    return Native(q, lambda E, a, k, q=q, o=o: E.lib[q](E, [o] + a, k))
            if name == 'op_name':
                pass
            if default is not UNDEF:
                return default
            if isinstance(o.cls, PyClass) and name == 'args':
                return ()
            self.raise_py(AttributeError, f'{o.cls.name}.{name}')
        if isinstance(o, NObj):
            if name in o.attrs and name not in ('truth', 'eq', 'contains', 'V', 'isnone', 'seq'):
                v = o.attrs[name]
                return v(self) if callable(v) and not isinstance(v, (Native, HObj, NObj)) and getattr(v, '_getter', 0) else v
            if name in o.methods:
                return Native(f'{o.name}.{name}', o.methods[name])
            if default is not UNDEF:
                return default
            raise Unsupported(f'{o.name} has no contract for .{name}')
        if isinstance(o, Module):
            q = f'{o.name}.{name}'
            if q in self.contracts:
                return Native(q, self.contracts[q])
            return self.module_attr(o, name)
        if isinstance(o, PyModule):
            return self.ext_attr(o, name)
        if isinstance(o, ClassVal):
            if name == '__name__':
                return o.node.name
            if name == '__module__':
                return o.module.name
            if name == '__qualname__':
                return o.qualname()[len(o.module.name) + 1:]
            if name == '__init__' or True:
                r = self.class_lookup(o, name)
                if r is not None:
                    q = self.contract_for(r[0], r[1], name)
                    if q is not None:
                        return Native(q, self.contracts[q])
                    if isinstance(r[0], FuncVal):
                        if 'classmethod' in getattr(r[0], 'decs', ()):
                            return BoundMethod(r[0], o)
                        return r[0]
                    return r[0]
            if default is not UNDEF:
                return default
            self.raise_py(AttributeError, name)
        if isinstance(o, PyClass):
            if name == '__name__':
                return o.name
            q = f'{o.name}.{name}'
            if q in self.lib:
                return Native(q, self.lib[q])
            raise Unsupported(f'{o.name}.{name}')
        if isinstance(o, SuperVal):
            mro = self.mro(o.self_.cls if isinstance(o.self_, HObj) else o.self_)
            i = mro.index(o.cls)
            for k in mro[i + 1:]:
                if isinstance(k, ClassVal):
                    v = self.class_own(k, name)
                    if v is not UNDEF:
                        q = self.contract_for(v, k, name)
                        if q is not None:
                            s = o.self_
                            return Native(q, lambda E, a, kw, q=q, s=s: E.contracts[q](E, [s] + a, kw))
                        return self.bind(v, o.self_)
            q = None
            for k in mro[i + 1:]:
                q = f'{k.name}.{name}'
                if q in self.lib:
                    s = o.self_
                    return Native(q, lambda E, a, kw, q=q, s=s: E.lib[q](E, [s] + a, kw))
            if name == '__init__':
                s = o.self_
                def _init(E, a, kw):
                    if isinstance(s, HObj):
                        E.set_field(s, 'args', tuple(a))
                return Native('object.__init__', _init)
            raise Unsupported(f'super().{name}')
        if isinstance(o, EnumVal):
            if name == 'name':
                return o.name
            raise Unsupported(f'enum .{name}')
        if isinstance(o, FuncVal):
            if name in o.fields:
                return o.fields[name]
            if name == '__name__':
                return o.name
            if default is not UNDEF:
                return default
            raise Unsupported(f'function attribute {name}')
        if isinstance(o, Native):
            raise Unsupported(f'attribute {name} of {o.name}')
        if isinstance(o, TypeOf) or isinstance(o, PyClass):
            if name == '__name__' and isinstance(o, TypeOf) and '__class__' in self.vmethods:
                return self.getattr(self.vmethods['__class__'](self, o.v), name)
            if name == '__name__':
                return self.opaque_str()
            if isinstance(o, PyClass) and name == '__module__':
                return 'builtins'
            if isinstance(o, TypeOf) and name in ('__module__', '__qualname__'):
                return z3.Function('type' + name, I, V)(ty(o.v))
        if is_V(o):
            h = self.vmethods.get(name)
            if h is not None:
                return h(self, o)
            if self.branch(ty(o) == TAGS['list']):
                pass
            raise Unsupported(f'attribute .{name} of an opaque value')
        # methods of builtin values
        tn = ('list' if isinstance(o, LObj) else 'dict' if isinstance(o, DObj) else 'set' if isinstance(o, SObj) else
              'tuple' if isinstance(o, (tuple, TupSym)) else 'str' if isinstance(o, str) else
              'NoneType' if o is None else 'int' if is_int(o) else 'bool' if is_bool(o) else
              'bytes' if isinstance(o, bytes) else 'float' if isinstance(o, float) else None)
        if isinstance(o, LObj) and o.kind == 'deque' and f'deque.{name}' in self.lib:
            return Native(f'deque.{name}', lambda E, a, k: E.lib[f'deque.{name}'](E, [o] + a, k))
        q = f'{tn}.{name}'
        if q in self.lib:
            return Native(q, lambda E, a, k: E.lib[q](E, [o] + a, k))
        if tn == 'str' and hasattr(str, name):
            def f(E, a, k):
                if all(is_conc_scalar(x) or (isinstance(x, tuple) and all(is_conc_scalar(y) for y in x)) for x in a):
                    r = getattr(o, name)(*a, **k)
                    return E.new_list(r) if isinstance(r, list) else r
                if name in ('join', 'format'):
                    return E.opaque_str()
                raise Unsupported(f'str.{name} on symbolic arguments')
            return Native(q, f)
        if default is not UNDEF:
            return default
        if o is None:
            self.raise_py(AttributeError, f"'NoneType' object has no attribute '{name}'")
        raise Unsupported(f'attribute .{name} of {o!r}')

    def contract_for(self, v, owner, name):
        q = f'{owner.qualname()}.{name}'
        return q if q in self.contracts else None

    def opaque_str(self):
        v = self.fresh_V('str')
        self.fact(ty(v) == TAGS['str'])
        return v

    # ----------------------------------------------------------------------------------------------- frames

    def new_frame(self, module, func, closure, loc, glo, non):
        fid = self.new_oid()
        fr = Frame(fid, module, func, closure, loc, glo, non)
        self.frames[fid] = fr
        return fr

    def lookup(self, name):
        fr = self.frame
        if name in fr.localnames:
            if name in fr.locals:
                return fr.locals[name]
            if getattr(fr, 'comp', False):
                pass
            else:
                raise Unsupported(f'local variable {name} read before assignment (or not generalised)')
        if name not in fr.globalnames:
            f = fr.closure
            while f is not None:
                if name in f.locals:
                    return f.locals[name]
                if name in f.localnames and not getattr(f, 'comp', False):
                    raise Unsupported(f'free variable {name} unset')
                f = f.closure
        if fr.cls is not None:
            v = self.class_own(fr.cls, name)
            if v is not UNDEF:
                return v
        m = fr.module
        q = f'{m.name}.{name}'
        if q in self.contracts:
            h = self.contracts[q]
            return h if isinstance(h, (Native, NObj)) else Native(q, h)
        if (m.name, name) in self.modvars or name in m.defs:
            return self.module_attr(m, name)
        if name in _TYPE_NAMES:
            return PyClass(_TYPE_NAMES[name])
        if name in _EXC_NAMES:
            return PyClass(_EXC_NAMES[name])
        if name in self.bi:
            return Native(name, self.bi[name])
        if name == '__name__':
            return m.name
        if name == 'NotImplemented':
            return Native('NotImplemented', None)
        raise Unsupported(f'name {name} in {m.name}')

    def assign_name(self, name, v):
        fr = self.frame
        if name in fr.globalnames:
            self.set_modvar(fr.module.name, name, v)
            return
        if name in fr.nonlocalnames:
            f = fr.closure
            while f is not None:
                if name in f.localnames:
                    self.set_local(f, name, v)
                    return
                f = f.closure
            raise Unsupported('nonlocal')
        self.set_local(fr, name, v)

    # ------------------------------------------------------------------------------------------------ calls

    def make_function(self, node, owner):
        fr = self.frame
        defaults = [self.ev(d) for d in node.args.defaults]
        kwd = [self.ev(d) if d is not None else UNDEF for d in node.args.kw_defaults]
        closure = fr if (fr is not None and (fr.func is not None or getattr(fr, 'comp', False))) else None
        if closure is not None:
            c = closure
            while c is not None:
                c.captured = True
                c = c.closure
        name = node.name if isinstance(node, ast.FunctionDef) else '<lambda>'
        f = FuncVal(node, fr.module, closure, owner, defaults, kwd, name)
        if closure is not None:
            # numbered like an object: a loop head refers to the function of the path at hand
            f.oid = self.new_oid()
            self.objs[f.oid] = f
        decs = []
        if isinstance(node, ast.FunctionDef):
            for d in node.decorator_list:
                dn = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else '?'
                decs.append(dn)
                if dn not in ('staticmethod', 'classmethod', 'property', 'contextmanager', 'abstractmethod', 'setter'):
                    raise Unsupported(f'decorator {dn}')
        f.decs = tuple(decs)
        if closure is not None and owner is None:
            f.owner = closure.func.owner if closure.func is not None else None
        return f

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        f = self.fromV(f)
        if isinstance(f, Native):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, FuncVal):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, ClassVal):
            q = f.qualname()
            if q in self.contracts:
                return self.contracts[q](self, list(args), kwargs)
            if self.is_enum(f):
                raise Unsupported('enum construction')
            o = self.new_obj(f)
            if any(isinstance(c, PyClass) and c.py is dict for c in self.mro(f)):
                o.fields['<dict>'] = self.new_dict()
            r = self.class_lookup(f, '__init__')
            if r is not None:
                self.call(self.bind(r[0], o), args, kwargs)
            elif args or kwargs:
                o.fields['args'] = tuple(args)
            return o
        if isinstance(f, PyClass):
            q = f.name
            if q in self.bi:
                return self.bi[q](self, list(args), kwargs)
            if issubclass(f.py, BaseException):
                return self.new_exc(f.py, *args)
            if q in self.lib:
                return self.lib[q](self, list(args), kwargs)
            if f'{f.py.__module__}.{q}' in self.lib:
                return self.lib[f'{f.py.__module__}.{q}'](self, list(args), kwargs)
            if f'{f.py.__module__}.{q}' in self.contracts:
                return self.contracts[f'{f.py.__module__}.{q}'](self, list(args), kwargs)
            if f.py is object and not args:
                return NObj('object()', {}, {'sentinel': True})
            raise Unsupported(f'construction of {f.py}')
        if isinstance(f, TypeOf):
            for t in (tuple, list):
                if self.branch(ty(f.v) == TAGS[t.__name__]):
                    return self.call(PyClass(t), args, kwargs)
        if isinstance(f, HObj):
            m = self.find_method(f, '__call__')
            if m is None:
                self.raise_py(TypeError, 'not callable')
            return self.call(m, args, kwargs)
        if isinstance(f, NObj):
            if '__call__' in f.methods:
                return f.methods['__call__'](self, list(args), kwargs)
            raise Unsupported(f'call of {f}')
        if is_V(f):
            return self.call_opaque(f, args, kwargs)
        if f is None or is_conc_scalar(f):
            self.raise_py(TypeError, 'not callable')
        raise Unsupported(f'call of {f!r}')

    def call_opaque(self, f, args, kwargs):
        if kwargs:
            raise Unsupported('keyword call of an opaque function')
        p = self.pack(args)
        if not getattr(self, 'total_functions', False):
            if self.branch(raises_(f, p)):
                self.raise_user_exception(f, p)
        else:
            pass
        return apply_(f, p)

    def call_func(self, f, args, kwargs):
        q = f.qualname()
        if q in self.contracts:
            return self.contracts[q](self, args, kwargs)
        self.functions.add(q)
        self.depth += 1
        if self.depth > self.max_depth:
            raise Unsupported(f'recursion too deep at {q}')
        node = f.node
        loc, glo, non = scope_info(node)
        fr = self.new_frame(f.module, f, f.closure, loc, glo, non)
        if isinstance(node, ast.FunctionDef) and f.owner is not None:
            fr.owner = f.owner
        self.bind_args(f, fr, args, kwargs)
        if isinstance(node, ast.FunctionDef) and has_own_yield(node):
            self.depth -= 1
            return GenVal(f, fr)
        saved = self.frame
        self.frame = fr
        fr.live = True
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body)
            self.exec_block(node.body)
            return None
        except _Return as r:
            return r.v
        finally:
            self.frame = saved
            self.depth -= 1
            fr.live = getattr(fr, 'captured', False)

    def bind_args(self, f, fr, args, kwargs):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        # expand star packs
        out = []
        for i, x in enumerate(args):
            if isinstance(x, StarPack):
                s = self.as_seq(x.v) if not is_V(x.v) else self.v_seq(x.v)
                if s.is_conc():
                    out.extend(s.items)
                    continue
                if a.vararg and len(out) == len(params) and i == len(args) - 1:
                    fr.locals[a.vararg.arg] = TupSym(s)
                    self.bind_rest(f, fr, out, kwargs, params, skip_vararg=True)
                    return
                # fixed arity: the number of values must match
                need = len(params) - len(out)
                if i == len(args) - 1 and not a.vararg and not f.defaults:
                    if not self.branch(zi(s.n) == need):
                        self.raise_py(TypeError, 'wrong number of arguments')
                    for k in range(need):
                        out.append(self.seq_get(s, k))
                    continue
                raise Unsupported('star arguments of unknown length')
            else:
                out.append(x)
        self.bind_rest(f, fr, out, kwargs, params, False)

    def bind_rest(self, f, fr, args, kwargs, params, skip_vararg):
        a = f.node.args
        loc = fr.locals
        if len(args) > len(params):
            if not a.vararg:
                self.raise_py(TypeError, f'{f.name}() takes {len(params)} arguments')
            loc[a.vararg.arg] = tuple(args[len(params):])
        elif a.vararg and not skip_vararg:
            loc[a.vararg.arg] = ()
        for p, v in zip(params, args):
            loc[p] = v
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in params or k in konly:
                if k in loc:
                    self.raise_py(TypeError, f'multiple values for {k}')
                loc[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            d = self.new_dict()
            d.conc = dict(extra)
            loc[a.kwarg.arg] = d
        elif extra:
            self.raise_py(TypeError, f'unexpected keyword arguments {list(extra)}')
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if p not in loc:
                j = i - (len(params) - nd)
                if j >= 0:
                    loc[p] = f.defaults[j]
                else:
                    self.raise_py(TypeError, f'{f.name}() missing argument {p}')
        for p, d in zip(konly, f.kwdefaults):
            if p not in loc:
                if d is UNDEF:
                    self.raise_py(TypeError, f'missing keyword argument {p}')
                loc[p] = d

    def consume(self, gen, cb):
        """run a generator function, pushing its values to cb"""
        caller = self.frame
        def on_yield(v):
            inner = self.frame
            self.frame = caller
            cbs = self.yield_cb
            self.yield_cb = cbs[:-1]
            try:
                cb(v)
            finally:
                self.frame = inner
                self.yield_cb = cbs
            return None
        self.yield_cb = self.yield_cb + [on_yield]
        saved = self.frame
        self.frame = gen.frame
        self.depth += 1
        try:
            self.exec_block(gen.func.node.body)
        except _Return:
            pass
        finally:
            self.frame = saved
            self.depth -= 1
            self.yield_cb = self.yield_cb[:-1]

    # ------------------------------------------------------------------------------------------- statements

    def exec_block(self, body):
        for s in body:
            self.st(s)

    def st(self, s):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__} at line {s.lineno}')
        m(s)

    def st_Pass(self, s):
        pass

    def st_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def st_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.fromV(self.ev(t.value))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.fromV(self.ev(t.value))
            self.setitem(o, t.slice, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            s = self.as_seq(v)
            n = self.seq_n(s)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported('starred assignment')
            if isinstance(n, int):
                if n != len(t.elts):
                    self.raise_py(ValueError, 'unpack')
            elif not self.branch(n == len(t.elts)):
                self.raise_py(ValueError, 'unpack')
            for i, e in enumerate(t.elts):
                self.assign(e, self.seq_get(s, i))
        else:
            raise Unsupported('assignment target')

    def setattr(self, o, name, v):
        if isinstance(o, HObj):
            r = self.class_lookup(o.cls, name) if isinstance(o.cls, ClassVal) else None
            if r is not None and isinstance(r[0], FuncVal) and 'property' in getattr(r[0], 'decs', ()):
                raise Unsupported('property setter')
            self.set_field(o, name, v)
        elif isinstance(o, Module):
            self.set_modvar(o.name, name, v)
        elif isinstance(o, NObj) and 'setattr' in o.methods:
            o.methods['setattr'](self, [name, v], {})
        elif isinstance(o, ClassVal):
            self.classattrs[(o, name)] = v
        elif isinstance(o, FuncVal):
            o.fields[name] = v
        elif o is None:
            self.raise_py(AttributeError, name)
        else:
            raise Unsupported(f'setattr on {o!r}')

    def setitem(self, o, sl, v):
        if isinstance(o, LObj):
            if isinstance(sl, ast.Slice):
                lo = self.ev(sl.lower) if sl.lower else None
                hi = self.ev(sl.upper) if sl.upper else None
                if sl.step:
                    raise Unsupported('slice step assignment')
                new = self.as_seq(v)
                s = o.seq
                n = self.seq_n(s)
                if s.is_conc() and new.is_conc() and all(x is None or isinstance(x, int) for x in (lo, hi)):
                    items = list(s.items)
                    items[lo:hi] = new.items
                    self.set_seq(o, Seq(items=items))
                    return
                a = self.seq_slice(s, None, self.clamp(lo, n, 0))
                b = self.seq_slice(s, self.clamp(hi, n, n), None)
                self.set_seq(o, self.seq_cat(self.seq_cat(a, new), b))
                return
            i = self.ev(sl)
            if not is_int(i):
                if is_V(i):
                    i = self.as_int(i)
                else:
                    raise Unsupported('list index')
            i = self.seq_index(o.seq, i)
            self.set_seq(o, self.seq_set(o.seq, i, v))
        elif isinstance(o, DObj):
            self.dict_set(o, self.ev(sl), v)
        elif isinstance(o, HObj):
            m = self.find_method(o, '__setitem__')
            k = self.ev(sl)
            if m is None:
                q = None
                for c in self.mro(o.cls):
                    if f'{c.name}.__setitem__' in self.lib:
                        self.lib[f'{c.name}.__setitem__'](self, [o, k, v], {})
                        return
                raise Unsupported('setitem')
            self.call(m, [k, v])
        elif isinstance(o, NObj) and '__setitem__' in o.methods:
            o.methods['__setitem__'](self, [self.ev(sl), v], {})
        elif is_V(o):
            if self.branch(ty(o) == TAGS['tuple']):
                self.raise_py(TypeError, 'tuple does not support item assignment')
            raise Unsupported('item assignment on an opaque value')
        elif isinstance(o, (tuple, TupSym)) or o is None:
            self.raise_py(TypeError, 'does not support item assignment')
        else:
            raise Unsupported(f'setitem on {o!r}')

    def as_int(self, v):
        if is_int(v):
            return v
        if is_V(v):
            if self.branch(ty(v) == TAGS['int']):
                self.fact(z3.Implies(ty(v) == TAGS['int'], v_int(i_val(v)) == v))
                self.fact(z3.Implies(ty(v) == TAGS['int'], truthy(v) == (i_val(v) != 0)))
                return i_val(v)
        raise Unsupported(f'int expected: {v!r}')

    def st_AugAssign(self, s):
        load = ast.copy_location(_as_load(s.target), s.target)
        if isinstance(s.target, ast.Name):
            cur = self.ev(load)
            v = self.ev(s.value)
            self.assign(s.target, self.augop(s.op, cur, v))
        elif isinstance(s.target, ast.Attribute):
            o = self.fromV(self.ev(s.target.value))
            cur = self.getattr(o, s.target.attr)
            v = self.ev(s.value)
            self.setattr(o, s.target.attr, self.augop(s.op, cur, v))
        elif isinstance(s.target, ast.Subscript):
            o = self.fromV(self.ev(s.target.value))
            k = self.ev(s.target.slice)
            cur = self.getitem(o, k)
            v = self.ev(s.value)
            r = self.augop(s.op, cur, v)
            if isinstance(o, LObj):
                i = self.seq_index(o.seq, k)
                self.set_seq(o, self.seq_set(o.seq, i, r))
            elif isinstance(o, DObj):
                self.dict_set(o, k, r)
            elif isinstance(o, HObj):
                self.call(self.getattr(o, '__setitem__'), [k, r])
            else:
                raise Unsupported('augmented item assignment')
        else:
            raise Unsupported('augassign')

    def augop(self, op, cur, v):
        cur = self.fromV(cur)
        if isinstance(cur, LObj) and isinstance(op, ast.Add):
            self.lib['list.extend'](self, [cur, v], {})
            return cur
        if isinstance(cur, HObj):
            nm = {ast.Add: '__iadd__', ast.Sub: '__isub__'}.get(type(op))
            m = self.find_method(cur, nm) if nm else None
            if m:
                return self.call(m, [v])
        if isinstance(cur, SObj) and isinstance(op, (ast.BitOr, ast.Sub)):
            r = self.binop(op, cur, v)
            self.set_content(cur, SetContent(r.dom, r.conc))
            return cur
        return self.binop(op, cur, v)

    def st_If(self, s):
        if self.branch(self.truth(self.ev(s.test))):
            self.exec_block(s.body)
        else:
            self.exec_block(s.orelse)

    def st_Return(self, s):
        raise _Return(self.ev(s.value) if s.value is not None else None)

    def st_Break(self, s):
        raise _Break()

    def st_Continue(self, s):
        raise _Continue()

    def st_Raise(self, s):
        if s.exc is None:
            if self.curexc is None:
                raise Unsupported('bare raise')
            raise PyRaise(self.curexc)
        e = self.ev(s.exc)
        if isinstance(e, (ClassVal, PyClass)):
            e = self.call(e, [])
        if s.cause is not None:
            self.ev(s.cause)
        raise PyRaise(e)

    def st_Assert(self, s):
        c = self.truth(self.ev(s.test))
        if not self.branch(c):
            self.raise_py(AssertionError)

    def st_FunctionDef(self, s):
        self.assign_name(s.name, self.make_function(s, None))

    def st_ClassDef(self, s):
        raise Unsupported('nested class statement')

    def st_Import(self, s):
        for a in s.names:
            if a.asname:
                self.assign_name(a.asname, self.get_module(a.name))
            else:
                n = a.name.split('.')[0]
                self.assign_name(n, self.get_module(n))

    def st_ImportFrom(self, s):
        for a in s.names:
            sub = self.program.module(f'{s.module}.{a.name}')
            self.assign_name(a.asname or a.name,
                             sub if sub is not None else self.getattr(self.get_module(s.module), a.name))

    def st_Global(self, s):
        pass

    def st_Nonlocal(self, s):
        pass

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.set_local(self.frame, t.id, UNDEF)
            elif isinstance(t, ast.Subscript):
                o = self.fromV(self.ev(t.value))
                if isinstance(o, DObj):
                    self.dict_del(o, self.ev(t.slice))
                elif isinstance(o, LObj):
                    if isinstance(t.slice, ast.Slice):
                        lo = self.ev(t.slice.lower) if t.slice.lower else None
                        hi = self.ev(t.slice.upper) if t.slice.upper else None
                        n = self.seq_n(o.seq)
                        a = self.seq_slice(o.seq, None, self.clamp(lo, n, 0))
                        b = self.seq_slice(o.seq, self.clamp(hi, n, n), None)
                        self.set_seq(o, self.seq_cat(a, b))
                    else:
                        self.lib['list.pop'](self, [o, self.ev(t.slice)], {})
                elif isinstance(o, HObj):
                    m = self.find_method(o, '__delitem__')
                    k = self.ev(t.slice)
                    if m:
                        self.call(m, [k])
                        continue
                    for c in self.mro(o.cls):
                        if f'{c.name}.__delitem__' in self.lib:
                            self.lib[f'{c.name}.__delitem__'](self, [o, k], {})
                            break
                    else:
                        raise Unsupported('del item')
                elif isinstance(o, NObj) and '__delitem__' in o.methods:
                    o.methods['__delitem__'](self, [self.ev(t.slice)], {})
                else:
                    raise Unsupported('del')
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                if isinstance(o, HObj):
                    self.set_field(o, t.attr, UNDEF)
                else:
                    raise Unsupported('del attr')
            else:
                raise Unsupported('del')

    def raise_user_exception(self, f, p):
        try:
            self.raise_py(Exception, 'raised by a user function')
        except PyRaise as e:
            # its class is any subclass of Exception
            e.exc.user_exc = (f, p)
            raise

    def match_exc(self, exc, typ):
        if isinstance(typ, tuple):
            return any(self.match_exc(exc, t) for t in typ)
        if isinstance(exc, HObj):
            if self.subclass(exc.cls, typ):
                return True
            u = getattr(exc, 'user_exc', None)
            if u is not None and self.subclass(typ, exc.cls):
                nm = getattr(typ, 'name', None) or getattr(typ, '__name__', str(typ))
                if nm in ('KillAndResumeException', 'KillCommandException', 'KillShellException'):
                    return False    # user functions do not raise marcel's own control exceptions (assumption)
                return self.branch(z3.Function(f'raises_{nm}', V, V, B)(*u))
            return False
        raise Unsupported('exception match')

    def st_Try(self, s):
        if s.finalbody:
            try:
                self._try_body(s)
            except (Unsupported, PathEnd, Restart, GaveUp):
                raise
            except (PyRaise, _Return, _Break, _Continue, _GenBreak):
                # the finally block may itself raise/return, which replaces the pending outcome
                saved = self.curexc
                self.exec_block(s.finalbody)
                self.curexc = saved
                raise
            self.exec_block(s.finalbody)
        else:
            self._try_body(s)

    def _try_body(self, s):
        try:
            self.exec_block(s.body)
        except PyRaise as e:
            for h in s.handlers:
                if h.type is None or self.match_exc(e.exc, self.ev(h.type)):
                    saved = self.curexc
                    self.curexc = e.exc
                    if h.name:
                        self.assign_name(h.name, e.exc)
                    try:
                        self.exec_block(h.body)
                    finally:
                        self.curexc = saved
                    return
            raise
        self.exec_block(s.orelse)

    def st_With(self, s):
        self._with(s.items, s.body)

    def _with(self, items, body):
        if not items:
            self.exec_block(body)
            return
        it = items[0]
        cm = self.fromV(self.ev(it.context_expr))
        if isinstance(cm, GenVal):
            ran = [False]

            def cb(v):
                ran[0] = True
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v)
                self._with(items[1:], body)
            self.consume(cm, cb)
            if not ran[0]:
                self.raise_py(RuntimeError, "generator didn't yield")
            return
        enter = self.getattr(cm, '__enter__')
        exit_ = self.getattr(cm, '__exit__')
        v = self.call(enter, [])
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v)
        try:
            self._with(items[1:], body)
        except PyRaise as e:
            r = self.call(exit_, [e.exc.cls if isinstance(e.exc, HObj) else None, e.exc, None])
            if self.branch(self.truth(r)):
                return
            raise
        except (_Return, _Break, _Continue):
            self.call(exit_, [None, None, None])
            raise
        self.call(exit_, [None, None, None])

    # loops

    def where(self):
        f = self.frame.func
        return f.qualname() if f is not None else '<module>'

    def st_While(self, s):
        infinite = isinstance(s.test, ast.Constant) and bool(s.test.value)
        pure = not any(isinstance(n, (ast.Call, ast.NamedExpr)) and
                       not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and
                            n.func.id in ('len', 'isinstance', 'type'))
                       for n in ast.walk(s.test))
        unrolled = 0
        while pure and not infinite:
            ntaken = len(self.taken)
            c = self.truth(self.ev(s.test))
            if is_z3(c):
                c = z3.simplify(c)
                if z3.is_true(c):
                    c = True
                elif z3.is_false(c):
                    c = False
                else:
                    break
            if len(self.taken) != ntaken:
                break
            if not c:
                self.exec_block(s.orelse)
                return
            unrolled += 1
            if unrolled > _MAX_UNROLL_W:
                raise GaveUp('concrete loop does not terminate')
            try:
                self.exec_block(s.body)
            except _Break:
                return
            except _Continue:
                pass
        frame = self.frame

        def cond(it):
            if infinite:
                return True
            return self.branch(self.truth(self.ev(s.test)))

        def body(it):
            self.exec_block(s.body)
        try:
            self.cut_loop(self.where(), cond, body, extra=lambda it: self.test_bounds(s.test, it))
        except _Break:
            return
        self.exec_block(s.orelse)

    def test_bounds(self, test, it):
        """candidates from the test of a while loop that compares integers: once it has been true, the bound is met"""
        def simple(e):
            if isinstance(e, ast.Name):
                return e.id in self.frame.locals
            if isinstance(e, ast.Attribute):
                return simple(e.value) and isinstance(self.ev(e.value), HObj) and e.attr in self.ev(e.value).fields
            if isinstance(e, ast.BinOp):
                return isinstance(e.op, (ast.Add, ast.Sub)) and simple(e.left) and simple(e.right)
            if isinstance(e, ast.Call):
                return isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1 and simple(e.args[0]) \
                    and isinstance(self.ev(e.args[0]), (LObj, TupSym))
            return isinstance(e, ast.Constant) and type(e.value) is int
        out = []
        for n, t in enumerate(test.values if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) else [test]):
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and simple(t.left) and simple(t.comparators[0])):
                continue
            a, b = self.ev(t.left), self.ev(t.comparators[0])
            if not (is_int(a) and is_int(b)) or isinstance(a, bool) or isinstance(b, bool):
                continue
            a, b, o = zi(a), zi(b), t.ops[0]
            fs = [a <= b] if isinstance(o, ast.Lt) else [a >= b] if isinstance(o, ast.Gt) else \
                [a <= b + 1] if isinstance(o, ast.LtE) else [a >= b - 1] if isinstance(o, ast.GtE) else \
                [a <= b, a >= b] if isinstance(o, ast.NotEq) else []
            for m, f in enumerate(fs):
                out.append((f'bound {n}.{m}', f))
                out.append((f'bound {n}.{m} later', z3.Implies(it > 0, f)))
        return out

    def st_For(self, s):
        x = self.fromV(self.ev(s.iter))
        self.for_each(x, lambda v: self.assign(s.target, v), lambda: self.exec_block(s.body),
                      lambda: self.exec_block(s.orelse))

    def for_each(self, x, bind, body, orelse=lambda: None):
        if isinstance(x, GenVal):
            class Stop(Exception):
                pass
            stopped = []

            def cb(v):
                bind(v)
                try:
                    body()
                except _Continue:
                    pass
                except _Break:
                    raise _GenBreak(cb)
            try:
                self.consume(x, cb)
            except _GenBreak as g:
                if g.tok is not cb:
                    raise
                return
            orelse()
            return
        live = isinstance(x, LObj)
        d = x if isinstance(x, DObj) else getattr(x, 'd', None)
        if d is not None:
            size = lambda: len(d.conc) if d.conc is not None else d.n
            size0 = size()

            def grown():
                m = size()
                if m is size0 or (is_z3(m) and is_z3(size0) and m.eq(size0)) or \
                        (isinstance(m, int) and isinstance(size0, int) and m == size0):
                    return
                if self.branch(zi(m) != zi(size0)):
                    self.raise_py(RuntimeError, 'dictionary changed size during iteration')
        else:
            grown = lambda: None
        if isinstance(x, IterVal):
            getter, n0, base = x.getter, x.n, x.pos
            if isinstance(n0, int) and isinstance(base, int):
                for i in range(base, n0):
                    self.set_content(x, i + 1)
                    bind(getter(i))
                    try:
                        body()
                    except _Continue:
                        pass
                    except _Break:
                        return
                orelse()
                return
            getn = lambda: n0
            get = lambda i: getter(zi(base) + i if not (isinstance(base, int) and base == 0) else i)
            nn = (lambda: zi(n0) - zi(base))
        elif live:
            nn = lambda: self.seq_n(x.seq)
            get = lambda i: self.seq_get(x.seq, i)
        elif isinstance(x, RangeVal):
            if not all(isinstance(y, int) for y in (x.lo, x.hi, x.step)):
                if isinstance(x.step, int) and x.step == 1:
                    n = z3.If(zi(x.hi) > zi(x.lo), zi(x.hi) - zi(x.lo), z3.IntVal(0))
                    get = lambda i: zi(x.lo) + zi(i)
                elif isinstance(x.step, int) and x.step == -1:
                    n = z3.If(zi(x.lo) > zi(x.hi), zi(x.lo) - zi(x.hi), z3.IntVal(0))
                    get = lambda i: zi(x.lo) - zi(i)
                else:
                    raise Unsupported('range step')
                nn = lambda: n
            else:
                r = range(x.lo, x.hi, x.step)
                nn = lambda: len(r)
                get = lambda i: r[i]
        else:
            s = self.as_seq(x)
            nn = lambda: self.seq_n(s)
            get = lambda i: self.seq_get(s, i)
        n = nn()
        if isinstance(n, int) and n <= _MAX_UNROLL:
            i = 0
            while i < (nn() if isinstance(nn(), int) else n):
                bind(get(i))
                try:
                    body()
                except _Continue:
                    pass
                except _Break:
                    return
                i += 1
                grown()
            orelse()
            return

        def cond(it):
            grown()
            return self.branch(zi(it) < zi(nn()))

        def bd(it):
            bind(get(it))
            body()
        e = (x if isinstance(x, DObj) else getattr(x, 'd', None)) if not isinstance(x, SObj) else \
            self.setenums.get(x.dom.get_id()) if x.dom is not None else None
        self.loop_src.append(DictContent(None, e.dom, e.val, e.karr, e.n, True) if e is not None else None)
        self.loop_get.append((nn, get))
        try:
            self.cut_loop(self.where(), cond, bd, extra=lambda it: [('it<=n', zi(it) <= zi(nn()))])
        except _Break:
            return
        finally:
            self.loop_src.pop()
            self.loop_get.pop()
        orelse()

    # ------------------------------------------------------------------------------------------ expressions

    def ev(self, e):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e)

    def ev_Constant(self, e):
        return e.value

    def ev_Name(self, e):
        return self.lookup(e.id)

    def ev_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def display(self, e):
        out = Seq(items=[])
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out = self.seq_cat(out, self.as_seq(self.ev(x.value)))
            else:
                out = self.seq_append(out, self.ev(x))
        return out

    def ev_Tuple(self, e):
        s = self.display(e)
        return tuple(s.items) if s.is_conc() else TupSym(s)

    def ev_List(self, e):
        return self.new_list(seq=self.display(e))

    def ev_Set(self, e):
        s = self.new_set()
        for x in e.elts:
            self.set_add(s, self.ev(x))
        return s

    def ev_Dict(self, e):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v)
                if not isinstance(o, DObj) or o.conc is None:
                    raise Unsupported('dict display **')
                for a, b in o.conc.items():
                    self.dict_set(d, a, b)
            else:
                kk = self.ev(k)
                self.dict_set(d, kk, self.ev(v))
        return d

    def ev_Lambda(self, e):
        return self.make_function(e, None)

    def ev_IfExp(self, e):
        return self.ev(e.body) if self.branch(self.truth(self.ev(e.test))) else self.ev(e.orelse)

    def ev_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand:
                if not self.branch(t):
                    return v if not is_bool(v) else False
            else:
                if self.branch(t):
                    return v if not is_bool(v) else True
        return v

    def ev_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        v = self.fromV(v)
        if isinstance(e.op, ast.USub):
            if is_int(v) or isinstance(v, float):
                return -v
            if is_V(v):
                return -self.as_int(v)
        if isinstance(e.op, ast.Invert):
            if isinstance(v, int):
                return ~v
        raise Unsupported('unary op')

    def ev_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        a, b = self.fromV(a), self.fromV(b)
        if is_conc_scalar(a) and is_conc_scalar(b) and a is not None and b is not None:
            import operator as o
            fn = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.FloorDiv: o.floordiv, ast.Mod: o.mod,
                  ast.Div: o.truediv, ast.BitAnd: o.and_, ast.BitOr: o.or_, ast.BitXor: o.xor, ast.Pow: o.pow,
                  ast.LShift: o.lshift, ast.RShift: o.rshift}[type(op)]
            try:
                return fn(a, b)
            except Exception as ex:
                self.raise_py(type(ex), str(ex))
        sa, sb = self.seqlike(a), self.seqlike(b)
        if sa and not sb and is_V(b):
            sb = 'V'
        elif sb and not sa and is_V(a):
            sa = 'V'
        if isinstance(op, ast.Add) and (sa or sb):
            if not sa or not sb:
                self.raise_py(TypeError, 'can only concatenate')
            ka, kb = sa, sb
            if ka == 'V':
                ka = kb
                if not self.branch(ty(a) == TAGS[kb]):
                    self.raise_py(TypeError, 'can only concatenate')
                x, y = self.v_seq(a), self.seq_of(b)
            elif kb == 'V':
                kb = ka
                if not self.branch(ty(b) == TAGS[ka]):
                    self.raise_py(TypeError, 'can only concatenate')
                x, y = self.seq_of(a), self.v_seq(b)
            elif ka != kb:
                self.raise_py(TypeError, 'can only concatenate')
            else:
                x, y = self.seq_of(a), self.seq_of(b)
            r = self.seq_cat(x, y)
            if ka == 'list':
                return self.new_list(seq=r)
            return tuple(r.items) if r.is_conc() else TupSym(r)
        if isinstance(op, ast.Mult) and (isinstance(a, (LObj, tuple)) or isinstance(b, (LObj, tuple))):
            if not isinstance(a, (LObj, tuple)):
                a, b = b, a
            s = self.seq_of(a)
            b = self.as_int(b)
            if isinstance(b, int) and s.is_conc():
                r = Seq(items=s.items * b)
            elif s.is_conc() and len(s.items) == 1:
                n = self.fresh_int('replen')
                self.assume(n == z3.If(zi(b) > 0, zi(b), 0))
                r = Seq(arr=z3.K(I, self.toV(s.items[0])), n=n)
            else:
                raise Unsupported('sequence repetition')
            return self.new_list(seq=r) if isinstance(a, LObj) else (tuple(r.items) if r.is_conc() else TupSym(r))
        if is_int(a) and is_int(b):
            x, y = zi(a), zi(b)
            if isinstance(op, ast.Add):
                return x + y
            if isinstance(op, ast.Sub):
                return x - y
            if isinstance(op, ast.Mult):
                return x * y
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                if self.branch(y > 0):
                    q, m = self.divmod_pos(x, y)
                    return q if isinstance(op, ast.FloorDiv) else m
                if self.branch(y == 0):
                    self.raise_py(ZeroDivisionError, 'integer modulo by zero')
                raise Unsupported('division by a negative symbolic number')
            if isinstance(op, ast.BitAnd):
                for p, q in ((x, b), (y, a)):
                    if isinstance(q, int) and q == 1:
                        return p % 2
                    if isinstance(q, int) and q == ~1:
                        return p - p % 2
            raise Unsupported('integer operation')
        if is_bool(a) and is_bool(b) and isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            x, y = zb(a), zb(b)
            return z3.And(x, y) if isinstance(op, ast.BitAnd) else z3.Or(x, y) if isinstance(op, ast.BitOr) else \
                z3.Xor(x, y)
        if isinstance(a, SObj) and isinstance(b, SObj):
            r = self.new_set()
            if a.dom is None and b.dom is None and all(is_conc_scalar(x) for x in a.conc + b.conc):
                sa, sb = list(a.conc), list(b.conc)
                if isinstance(op, ast.Sub):
                    r.conc = [x for x in sa if x not in sb]
                elif isinstance(op, ast.BitOr):
                    r.conc = sa + [x for x in sb if x not in sa]
                elif isinstance(op, ast.BitAnd):
                    r.conc = [x for x in sa if x in sb]
                else:
                    raise Unsupported('set op')
                return r
            d1, d2 = self.set_dom(a), self.set_dom(b)
            dd = self.fresh('setop', AVB)
            v = z3.Const('v', V)
            i1, i2 = z3.Select(d1, v), z3.Select(d2, v)
            f = {ast.Sub: z3.And(i1, z3.Not(i2)), ast.BitOr: z3.Or(i1, i2), ast.BitAnd: z3.And(i1, i2)}[type(op)]
            self.assume(z3.ForAll([v], z3.Select(dd, v) == f, patterns=[z3.Select(dd, v)]))
            r.conc, r.dom = None, dd
            return r
        if isinstance(a, (HObj, NObj)) or isinstance(b, (HObj, NObj)):
            nm = {ast.Add: '__add__', ast.BitOr: '__or__', ast.Div: '__truediv__', ast.Sub: '__sub__'}.get(type(op))
            if isinstance(a, HObj) and nm:
                m = self.find_method(a, nm)
                if m:
                    return self.call(m, [b])
            if isinstance(a, NObj) and nm in a.methods:
                return a.methods[nm](self, [b], {})
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return self.opaque_str()
        if is_V(a) and is_int(b) and not isinstance(b, bool) and self.branch(ty(a) == TAGS['int']):
            return self.binop(op, self.as_int(a), b)
        if is_V(b) and is_int(a) and not isinstance(a, bool) and self.branch(ty(b) == TAGS['int']):
            return self.binop(op, a, self.as_int(b))
        if is_V(a) and isinstance(op, ast.Div) and '__truediv__' in self.vmethods:
            return self.call(self.vmethods['__truediv__'](self, a), [b])
        if is_V(a) or is_V(b):
            f = z3.Function('py_' + type(op).__name__, V, V, V)
            return f(self.toV(a), self.toV(b))
        if isinstance(op, ast.Add) and isinstance(a, str) and isinstance(b, str):
            return a + b
        if a is None or b is None or (self.seqlike(a) and is_int(b)) or (self.seqlike(b) and is_int(a)):
            self.raise_py(TypeError, 'unsupported operand')
        raise Unsupported(f'binary operation {type(op).__name__} on {a!r}, {b!r}')

    def divmod_pos(self, x, y):
        if isinstance(y, z3.IntNumRef):
            return x / y, x % y
        q = z3.Function('py_div', I, I, I)(x, y)
        m = z3.Function('py_mod', I, I, I)(x, y)
        self.fact(z3.Implies(y > 0, z3.And(m >= 0, m < y)))
        self.fact(z3.Implies(z3.And(y > 0, x >= 0, x < y), z3.And(m == x, q == 0)))
        self.fact(z3.Implies(z3.And(y > 0, x >= y, x < 2 * y), z3.And(m == x - y, q == 1)))
        self.fact(z3.Implies(z3.And(y > 0, x < 0, x >= -y), z3.And(m == x + y, q == -1)))
        return q, m

    def seqlike(self, a):
        if isinstance(a, LObj):
            return 'list'
        if isinstance(a, (tuple, TupSym)):
            return 'tuple'
        return None

    def ev_Compare(self, e):
        left = self.ev(e.left)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            if not self.branch(c if isinstance(c, bool) else c):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            r = self.eq(a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            r = self.is_(a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(op, ast.In):
            return self.contains(self.fromV(b), a)
        if isinstance(op, ast.NotIn):
            r = self.contains(self.fromV(b), a)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        a, b = self.fromV(a), self.fromV(b)
        if is_V(a) and is_int(b):
            a = self.as_int_opt(a)
        if is_V(b) and is_int(a):
            b = self.as_int_opt(b)
        if is_conc_scalar(a) and is_conc_scalar(b) and a is not None and b is not None:
            try:
                return {ast.Lt: a.__lt__, ast.LtE: a.__le__, ast.Gt: a.__gt__, ast.GtE: a.__ge__}[type(op)](b)
            except TypeError as ex:
                self.raise_py(TypeError, str(ex))
        if is_int(a) and is_int(b):
            x, y = zi(a), zi(b)
            return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
        if a is None or b is None:
            self.raise_py(TypeError, 'unorderable')
        if isinstance(a, SObj) and isinstance(b, SObj) and isinstance(op, ast.LtE):
            v = z3.Const('v', V)
            return z3.ForAll([v], z3.Implies(z3.Select(self.set_dom(a), v), z3.Select(self.set_dom(b), v)))
        lt = z3.Function('py_lt', V, V, B)
        x, y = self.toV(a), self.toV(b)
        self.fact(z3.Implies(z3.And(ty(x) == TAGS['int'], ty(y) == TAGS['int']), z3.And(
            lt(x, y) == (i_val(x) < i_val(y)), lt(y, x) == (i_val(y) < i_val(x)))))
        return {ast.Lt: lt(x, y), ast.Gt: lt(y, x), ast.LtE: z3.Not(lt(y, x)), ast.GtE: z3.Not(lt(x, y))}[type(op)]

    def as_int_opt(self, v):
        try:
            return self.as_int(v)
        except Unsupported:
            return v

    def ev_Subscript(self, e):
        o = self.fromV(self.ev(e.value))
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower) if e.slice.lower else None
            hi = self.ev(e.slice.upper) if e.slice.upper else None
            step = self.ev(e.slice.step) if e.slice.step else None
            if isinstance(step, ast.UnaryOp):
                raise Unsupported('step')
            if isinstance(o, str):
                if all(x is None or isinstance(x, int) for x in (lo, hi, step)):
                    return o[lo:hi:step]
                raise Unsupported('symbolic slice of a string')
            if is_V(o):
                if self.branch(ty(o) == TAGS['tuple']):
                    r = self.seq_slice(self.v_seq(o), lo, hi, step)
                    return tuple(r.items) if r.is_conc() else TupSym(r)
                if self.branch(ty(o) == TAGS['list']):
                    return self.new_list(seq=self.seq_slice(self.v_seq(o), lo, hi, step))
                raise Unsupported('slice of opaque')
            if isinstance(o, (LObj, TupSym, tuple)):
                r = self.seq_slice(self.as_seq(o), lo, hi, step)
                if isinstance(o, LObj):
                    return self.new_list(seq=r)
                return tuple(r.items) if r.is_conc() else TupSym(r)
            raise Unsupported(f'slice of {o!r}')
        return self.getitem(o, self.ev(e.slice))

    def getitem(self, o, k):
        o = self.fromV(o)
        if isinstance(o, (LObj, TupSym, tuple)):
            if not is_int(k):
                k = self.as_int(k)
            s = self.as_seq(o)
            i = self.seq_index(s, k)
            return self.seq_get(s, i)
        if isinstance(o, DObj):
            found, v = self.dict_get(o, k)
            if not found:
                self.raise_py(KeyError, k)
            return v
        if isinstance(o, str) and isinstance(k, int):
            if k >= len(o) or k < -len(o):
                self.raise_py(IndexError, 'string index out of range')
            return o[k]
        if is_V(o):
            if self.branch(z3.Or(ty(o) == TAGS['tuple'], ty(o) == TAGS['list'])):
                if not is_int(k):
                    k = self.as_int(k)
                s = self.v_seq(o)
                i = self.seq_index(s, k)
                return self.seq_get(s, i)
            raise Unsupported('subscript of an opaque value')
        if isinstance(o, HObj):
            m = self.find_method(o, '__getitem__')
            if m is not None:
                return self.call(m, [k])
            for c in self.mro(o.cls):
                if f'{c.name}.__getitem__' in self.lib:
                    return self.lib[f'{c.name}.__getitem__'](self, [o, k], {})
        if isinstance(o, NObj) and '__getitem__' in o.methods:
            return o.methods['__getitem__'](self, [k], {})
        if o is None:
            self.raise_py(TypeError, "'NoneType' object is not subscriptable")
        raise Unsupported(f'subscript of {o!r}')

    def ev_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            fr = self.frame
            owner = fr.func.owner
            selfname = fr.func.node.args.args[0].arg
            return SuperVal(owner, fr.locals[selfname])
        if isinstance(e.func, ast.Name) and e.func.id == 'locals' and not e.args:
            raise Unsupported('locals()')
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.fromV(self.ev(a.value))
                if is_V(v) or isinstance(v, TupSym) or (isinstance(v, LObj) and not v.seq.is_conc()):
                    if isinstance(v, LObj):
                        v = TupSym(v.seq)
                    args.append(StarPack(v))
                else:
                    s = self.as_seq(v)
                    if not s.is_conc():
                        args.append(StarPack(TupSym(s)))
                    else:
                        args.extend(s.items)
            else:
                args.append(self.ev(a))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if isinstance(v, DObj) and v.conc is not None:
                    kwargs.update(v.conc)
                else:
                    raise Unsupported('** with symbolic dict')
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs)

    def ev_JoinedStr(self, e):
        conc = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                conc.append(v.value)
            else:
                x = self.fromV(self.ev(v.value))
                if v.conversion == -1 and v.format_spec is None and isinstance(x, (str, int)) and \
                        not isinstance(x, bool) and conc is not None:
                    conc.append(str(x))
                else:
                    self.stringify(x)
                    conc = None
                    conc2 = None
            if conc is None:
                # evaluate the remaining pieces for their effects
                rest = e.values[e.values.index(v) + 1:]
                for w in rest:
                    if not isinstance(w, ast.Constant):
                        self.stringify(self.fromV(self.ev(w.value)))
                return self.opaque_str()
        return ''.join(conc)

    def stringify(self, x):
        """str(x), for its effects and exceptions"""
        if isinstance(x, str):
            return x
        if is_conc_scalar(x):
            return str(x)
        if isinstance(x, HObj) and isinstance(x.cls, ClassVal) and getattr(self, 'run_repr', True):
            for nm in ('__str__', '__repr__'):
                m = self.find_method(x, nm)
                if m is not None:
                    r = self.call(m, [])
                    return r if isinstance(r, str) else self.opaque_str()
        return self.opaque_str()

    def ev_FormattedValue(self, e):
        return self.stringify(self.ev(e.value))

    def ev_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def ev_Starred(self, e):
        raise Unsupported('starred')

    def ev_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else None
        if not self.yield_cb:
            raise Unsupported('yield')
        return self.yield_cb[-1](v)

    def ev_YieldFrom(self, e):
        x = self.ev(e.value)
        self.for_each(x, lambda v: self.yield_cb[-1](v), lambda: None)
        return None

    # comprehensions

    def comp_frame(self):
        saved = self.frame
        fr = self.new_frame(saved.module, saved.func, saved, set(), set(), set())
        fr.comp = True
        fr.cls = saved.cls
        return fr

    def run_comp(self, gens, emit):
        saved = self.frame
        if not gens:
            emit()
            return
        g = gens[0]
        src = self.fromV(self.ev(g.iter))

        def bind(v):
            self.comp_assign(g.target, v)

        def body():
            for c in g.ifs:
                if not self.branch(self.truth(self.ev(c))):
                    return
            self.run_comp(gens[1:], emit)
        self.for_each(src, bind, body)

    def comp_assign(self, t, v):
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                self.frame.localnames = self.frame.localnames | {n.id}
        self.assign(t, v)

    def comp(self, e, emit_to):
        fr = self.comp_frame()
        saved = self.frame
        # the first iterable is evaluated in the enclosing scope
        self.frame = fr
        try:
            self.run_comp(e.generators, emit_to)
        finally:
            self.frame = saved

    def sym_map(self, e, elt):
        """[elt for x in <symbolic sequence>]: element-wise definition"""
        if len(e.generators) != 1 or e.generators[0].ifs:
            return None
        g = e.generators[0]
        key, nb0 = (id(e), tuple(self.taken)), self.nbranch
        if key in self.comp_loops:
            return None
        fr = self.comp_frame()
        saved = self.frame
        self.frame = fr
        try:
            src = self.fromV(self.ev(g.iter))
            if isinstance(src, GenVal) or isinstance(src, IterVal):
                if not (isinstance(src, IterVal) and not isinstance(src.n, int)):
                    return ('src', src)
            if isinstance(src, IterVal):
                n, getter = src.n, src.getter
            elif isinstance(src, RangeVal) and not all(isinstance(y, int) for y in (src.lo, src.hi, src.step)):
                s = self.as_seq(src)
                n = s.n
                getter = lambda i, lo=src.lo: zi(lo) + i
            else:
                s = self.as_seq(src) if not isinstance(src, RangeVal) else None
                if s is None or s.is_conc():
                    return ('src', src)
                n = s.n
                getter = lambda i: self.seq_get(s, i)
            j = self.fresh_int('j')
            before = len(self.taken)
            npc = len(self.pc)
            self.comp_assign(g.target, getter(j))
            rec = {'hmark': self.noid, 'writes': {}}
            self.recorders.append(rec)
            self.solver.push()
            try:
                self.assume(z3.And(j >= 0, j < n))
                v = self.toV(self.ev(elt))
            finally:
                self.recorders.remove(rec)
            if len(self.taken) != before or [w for w in rec['writes'] if w[0] != 'L']:
                # effects or case splits: a loop (start again from this comprehension)
                self.comp_loops.add(key)
                raise Restart((0, key[1]), nb0)
            i = z3.Int('i')
            arr = self.fresh('comp', AIV)
            hyp = [f for f in self.pc[npc + 1:]]
            # facts established for the generic element hold for every index in range
            bodyf = z3.Select(arr, i) == z3.substitute(v, (j, i))
            if hyp:
                bodyf = z3.And(bodyf, *[z3.substitute(h, (j, i)) for h in hyp if not z3.is_quantifier(h)])
            self.solver.pop()
            quants = [h for h in hyp if z3.is_quantifier(h)]
            del self.pc[npc:]
            del self.pcids[npc:]
            for h in hyp:
                self.known.discard(h.get_id())
            for h in quants:
                self.assume(h)
            self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), bodyf), patterns=[z3.Select(arr, i)]))
            return Seq(arr=arr, n=n)
        finally:
            self.frame = saved

    def ev_ListComp(self, e):
        r = self.sym_map(e, e.elt)
        if isinstance(r, Seq):
            return self.new_list(seq=r)
        out = self.new_list([])
        self.comp(e, lambda: self.set_seq(out, self.seq_append(out.seq, self.ev(e.elt))))
        return out

    def ev_GeneratorExp(self, e):
        # evaluated eagerly
        return self.ev_ListComp(e)

    def ev_SetComp(self, e):
        out = self.new_set()
        self.comp(e, lambda: self.set_add(out, self.ev(e.elt)))
        return out

    def ev_DictComp(self, e):
        out = self.new_dict()

        def emit():
            k = self.ev(e.key)
            self.dict_set(out, k, self.ev(e.value))
        self.comp(e, emit)
        return out

    def seq_of(self, x):
        return self.as_seq(x)


class _GenBreak(Exception):
    def __init__(self, tok):
        self.tok = tok


_MAX_UNROLL = 80
_MAX_UNROLL_W = 300


def _as_load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


_hy = {}


def has_own_yield(node):
    r = _hy.get(node)
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            stack.extend(ast.iter_child_nodes(n))
        _hy[node] = r
    return r


def _dict_view_methods(o):
    def get(E, a, k):
        key = a[0]
        if not isinstance(key, str):
            raise Unsupported('__dict__.get with symbolic key')
        return o.fields.get(key, a[1] if len(a) > 1 else None)

    def getitem(E, a, k):
        return o.fields[a[0]]

    def update(E, a, k):
        src = a[0]
        of = src.attrs.get('of') if isinstance(src, NObj) else None
        if of is None:
            raise Unsupported('__dict__.update')
        for f, v in of.fields.items():
            E.set_field(o, f, v)

    def setitem(E, a, k):
        E.set_field(o, a[0], a[1])

    def items(E, a, k):
        return E.new_list([(f, v) for f, v in o.fields.items()])
    return {'get': get, '__getitem__': getitem, 'update': update, '__setitem__': setitem, 'items': items}
