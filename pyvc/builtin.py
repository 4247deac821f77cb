"""Contracts of the builtins and of the library functions that /repo's functions use (part of the trusted base)."""
import ast

import z3

from .core import *
from .engine import is_z3, is_int, is_bool, is_V, is_conc_scalar, zi, zb, SetContent, DictContent

TABLE = {}
LIB = {}


def bi(name):
    def d(f):
        TABLE[name] = f
        return f
    return d


def lib(name):
    def d(f):
        LIB[name] = f
        return f
    return d


@bi('len')
def _len(E, a, k):
    x = E.fromV(a[0])
    if isinstance(x, (LObj, TupSym)):
        return E.seq_n(x.seq)
    if isinstance(x, tuple) or isinstance(x, (str, bytes)):
        return len(x)
    if isinstance(x, HObj) and '<dict>' in x.fields and E.find_method(x, '__len__') is None:
        x = x.fields['<dict>']
    if isinstance(x, DObj):
        return len(x.conc) if x.conc is not None else x.n
    if isinstance(x, SObj):
        if x.dom is None and all(is_conc_scalar(y) for y in x.conc):
            return len(x.conc)
        card = z3.Function('card', AVB, I)
        d = E.set_dom(x)
        n = card(d)
        none = z3.K(V, z3.BoolVal(False))
        while True:
            E.fact(card(d) >= 0)
            E.fact((card(d) == 0) == (d == none))
            if not (z3.is_app(d) and d.decl().kind() == z3.Z3_OP_STORE and z3.is_true(d.arg(2))):
                return n
            E.fact(card(d) == card(d.arg(0)) + z3.If(z3.Select(d.arg(0), d.arg(1)), 0, 1))
            d = d.arg(0)
    if isinstance(x, RangeVal):
        return E.seq_n(E.as_seq(x))
    if is_V(x):
        E.fact(vlen(x) >= 0)
        if E.branch(z3.Or(ty(x) == TAGS['tuple'], ty(x) == TAGS['list'], ty(x) == TAGS['str'])):
            return vlen(x)
        raise Unsupported('len of an opaque value')
    if isinstance(x, HObj):
        m = E.find_method(x, '__len__')
        if m:
            return E.call(m, [])
    if isinstance(x, NObj) and '__len__' in x.methods:
        return x.methods['__len__'](E, [], {})
    if isinstance(x, NObj) and 'of' in x.attrs:
        return len(x.attrs['of'].fields)
    if x is None or is_int(x):
        E.raise_py(TypeError, 'object has no len()')
    raise Unsupported(f'len of {x!r}')


@bi('range')
def _range(E, a, k):
    a = [E.as_int(x) for x in a]
    if len(a) == 1:
        return RangeVal(0, a[0], 1)
    return RangeVal(a[0], a[1], a[2] if len(a) > 2 else 1)


def _minmax(E, a, k, mx):
    if len(a) == 1:
        s = E.as_seq(a[0])
        if not s.is_conc():
            raise Unsupported('min/max of a symbolic sequence')
        a = s.items
        if not a:
            if 'default' in k:
                return k['default']
            E.raise_py(ValueError, 'empty sequence')
    if 'key' in k and k['key'] is not None:
        raise Unsupported('min/max key')
    a = [E.fromV(x) for x in a]
    if all(is_conc_scalar(x) for x in a):
        return (max if mx else min)(a)
    if all(is_int(x) for x in a):
        r = zi(a[0])
        for x in a[1:]:
            x = zi(x)
            r = z3.If(x > r, x, r) if mx else z3.If(x < r, x, r)
        return r
    if len(a) == 2:
        return z3.Function('py_max' if mx else 'py_min', V, V, V)(E.toV(a[0]), E.toV(a[1]))
    raise Unsupported('min/max')


@bi('min')
def _min(E, a, k):
    return _minmax(E, a, k, False)


@bi('max')
def _max(E, a, k):
    return _minmax(E, a, k, True)


@bi('abs')
def _abs(E, a, k):
    x = E.as_int(a[0])
    return abs(x) if isinstance(x, int) else z3.If(x >= 0, x, -x)


@bi('isinstance')
def _isinstance(E, a, k):
    x, c = E.fromV(a[0]), a[1]
    cs = list(c) if isinstance(c, tuple) else [c]
    r = False
    for c in cs:
        e = _isinst1(E, x, c)
        if e is True:
            return True
        if e is not False:
            r = e if r is False else z3.Or(r, e)
    return r


def _isinst1(E, x, c):
    if isinstance(c, PyClass) and c.py is object:
        return True
    if isinstance(c, NObj):
        if 'instance' not in c.attrs:
            raise Unsupported(f'isinstance of {c.name}')
        return c.attrs['instance'](E, x)
    if isinstance(x, HObj):
        return E.subclass(x.cls, c)
    if is_V(x):
        if isinstance(c, PyClass):
            if c.py is int:
                return z3.Or(ty(x) == TAGS['int'], ty(x) == TAGS['bool'])
            return ty(x) == tag_of(c.name)
        return ty(x) == tag_of(c.qualname())
    if isinstance(x, NObj):
        if 'isinstance' in x.attrs:
            return x.attrs['isinstance'](E, c)
        if isinstance(x.attrs.get('type'), ClassVal):
            return E.subclass(x.attrs['type'], c)
        return False
    if not isinstance(c, PyClass):
        return isinstance(x, EnumVal) and x.cls is c
    py = c.py
    if is_conc_scalar(x):
        return isinstance(x, py)
    if is_bool(x):
        return py in (bool, int)
    if is_int(x):
        return py is int
    if isinstance(x, (tuple, TupSym)):
        return issubclass(tuple, py)
    if isinstance(x, LObj):
        return issubclass(list, py)
    if isinstance(x, DObj):
        return issubclass(dict, py)
    if isinstance(x, SObj):
        return issubclass(set, py)
    return False


@bi('issubclass')
def _issubclass(E, a, k):
    return E.subclass(a[0], a[1])


@bi('type')
def _type(E, a, k):
    x = E.fromV(a[0])
    if isinstance(x, HObj):
        return x.cls
    if is_V(x):
        return TypeOf(x)
    if isinstance(x, (tuple, TupSym)):
        return PyClass(tuple)
    if isinstance(x, LObj):
        return PyClass(list)
    if isinstance(x, DObj):
        return PyClass(dict)
    if isinstance(x, SObj):
        return PyClass(set)
    if is_conc_scalar(x):
        return PyClass(type(x))
    if is_bool(x):
        return PyClass(bool)
    if is_int(x):
        return PyClass(int)
    if isinstance(x, NObj) and 'type' in x.attrs:
        return x.attrs['type']
    if isinstance(x, (FuncVal, Native, BoundMethod)):
        import types
        return PyClass(types.FunctionType)
    if isinstance(x, EnumVal):
        return x.cls
    raise Unsupported(f'type of {x!r}')


@bi('callable')
def _callable(E, a, k):
    x = E.fromV(a[0])
    if isinstance(x, (FuncVal, Native, BoundMethod, ClassVal, PyClass)):
        return True
    if isinstance(x, HObj):
        return E.find_method(x, '__call__') is not None
    if isinstance(x, NObj):
        return '__call__' in x.methods
    if is_V(x):
        f = z3.Function('callable', V, B)(x)
        E.fact(z3.Implies(z3.Or(ty(x) <= 6), z3.Not(f)))
        E.fact(z3.Implies(ty(x) == TAGS['function'], f))
        return f
    return False


@bi('str')
def _str(E, a, k):
    if not a:
        return ''
    return E.stringify(E.fromV(a[0]))


@bi('repr')
def _repr(E, a, k):
    E.stringify(E.fromV(a[0]))
    return E.opaque_str()


@bi('print')
def _print(E, a, k):
    return None


@bi('id')
def _id(E, a, k):
    if isinstance(a[0], HObj):
        return 1000000 + a[0].oid       # the same for the same object only
    return E.fresh_int('id')


@bi('bool')
def _bool(E, a, k):
    return E.truth(a[0]) if a else False


@bi('int')
def _int(E, a, k):
    x = E.fromV(a[0]) if a else 0
    if isinstance(x, (int, float)):
        return int(x)
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError as e:
            E.raise_py(ValueError, str(e))
    if is_int(x):
        return x
    if is_V(x):
        ok = z3.Function('int_ok', V, B)(x)
        if not E.branch(ok):
            E.raise_py(ValueError, 'invalid literal for int()')
        return z3.Function('int_of', V, I)(x)
    raise Unsupported('int()')


@bi('tuple')
def _tuple(E, a, k):
    if not a:
        return ()
    x = E.fromV(a[0])
    if isinstance(x, (tuple, TupSym)):
        return x
    if is_V(x):
        if E.branch(ty(x) == TAGS['tuple']):
            return x
    s = E.as_seq(x)
    return tuple(s.items) if s.is_conc() else TupSym(s)


@bi('list')
def _list(E, a, k):
    if not a:
        return E.new_list([])
    return E.new_list(seq=E.as_seq(E.fromV(a[0])).copy())


@bi('set')
def _set(E, a, k):
    s = E.new_set()
    if a:
        x = E.fromV(a[0])
        if isinstance(x, SObj):
            s.conc, s.dom = (list(x.conc) if x.conc is not None else None), x.dom
            return s
        kd = x if isinstance(x, DObj) else getattr(x, 'keys_of', None)
        if kd is not None and kd.conc is None:
            s.conc, s.dom = None, kd.dom
            return s
        q = E.as_seq(x)
        if q.is_conc():
            for y in q.items:
                E.set_add(s, y)
        else:
            d = E.fresh('setof', AVB)
            v = z3.Const('v', V)
            i = z3.Int('i')
            E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < q.n), z3.Select(d, z3.Select(q.arr, i))),
                               patterns=[z3.Select(q.arr, i)]))
            w = E.fresh('wit', z3.ArraySort(V, I))
            E.assume(z3.ForAll([v], z3.Implies(z3.Select(d, v), z3.And(
                z3.Select(w, v) >= 0, z3.Select(w, v) < q.n, z3.Select(q.arr, z3.Select(w, v)) == v)),
                patterns=[z3.Select(d, v)]))
            s.conc, s.dom = None, d
    return s


@bi('frozenset')
def _frozenset(E, a, k):
    return _set(E, a, k)


@bi('dict')
def _dict(E, a, k):
    d = E.new_dict()
    if a:
        x = a[0]
        if isinstance(x, HObj) and '<dict>' in x.fields:
            x = x.fields['<dict>']
        if isinstance(x, DObj):
            E.set_content(d, E.get_content(x))
            if x.conc is not None:
                d.conc = dict(x.conc)
        elif isinstance(x, HObj) and any(f'{c.name}.items' in E.lib for c in E.mro(x.cls)):
            raise Unsupported('dict(HObj)')
        elif isinstance(x, NObj) and 'asdict' in x.attrs:
            return x.attrs['asdict'](E)
        else:
            s = E.as_seq(x)
            if s.is_conc():
                for y in s.items:
                    p = E.as_seq(y)
                    E.dict_set(d, E.seq_get(p, 0), E.seq_get(p, 1))
            elif getattr(x, 'zip_of', None) is not None:
                raise Unsupported('dict of a symbolic zip')
            else:
                raise Unsupported('dict of a symbolic sequence')
    for n, v in k.items():
        E.dict_set(d, n, v)
    return d


@bi('enumerate')
def _enumerate(E, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    s = E.as_seq(E.fromV(a[0]))
    n = E.seq_n(s)
    it = IterVal(E.new_oid(), lambda i: (zi(start) + zi(i) if is_z3(i) or is_z3(start) else start + i,
                                         E.seq_get(s, i)), n)
    E.objs[it.oid] = it
    return it


@bi('zip')
def _zip(E, a, k):
    ss = [E.as_seq(E.fromV(x)) for x in a]
    ns = [E.seq_n(s) for s in ss]
    if all(isinstance(n, int) for n in ns):
        n = min(ns) if ns else 0
    elif any(isinstance(n, int) and n <= 8 for n in ns):
        # as short as the shortest: settled by cases
        n = min(n for n in ns if isinstance(n, int))
        for m in ns:
            if not isinstance(m, int):
                t = 0
                while t < n and E.branch(zi(m) > t):
                    t += 1
                n = t
    else:
        n = zi(ns[0])
        for m in ns[1:]:
            n = z3.If(zi(m) < n, zi(m), n)
    it = IterVal(E.new_oid(), lambda i: tuple(E.seq_get(s, i) for s in ss), n)
    E.objs[it.oid] = it
    return it


@bi('map')
def _map(E, a, k):
    s = E.as_seq(E.fromV(a[1]))
    if len(a) != 2 or not s.is_conc():
        raise Unsupported('map()')
    return E.new_list([E.call(a[0], [x]) for x in s.items])


@bi('filter')
def _filter(E, a, k):
    s = E.as_seq(E.fromV(a[1]))
    if not s.is_conc():
        raise Unsupported('filter()')
    return E.new_list([x for x in s.items if E.branch(E.truth(E.call(a[0], [x]) if a[0] is not None else x))])


@bi('reversed')
def _reversed(E, a, k):
    return E.new_list(seq=E.seq_reversed(E.as_seq(a[0])))


@bi('iter')
def _iter(E, a, k):
    x = E.fromV(a[0])
    if isinstance(x, IterVal):
        return x
    if isinstance(x, (HObj, NObj)):
        m = E.getattr(x, '__iter__')
        return E.call(m, [])
    s = E.as_seq(x)
    it = IterVal(E.new_oid(), lambda i: E.seq_get(s, i), E.seq_n(s))
    E.objs[it.oid] = it
    return it


@bi('next')
def _next(E, a, k):
    x = a[0]
    if isinstance(x, IterVal):
        if E.branch(zi(x.pos) < zi(x.n) if is_z3(x.pos) or is_z3(x.n) else x.pos < x.n):
            v = x.getter(x.pos)
            E.set_content(x, x.pos + 1)
            return v
        if len(a) > 1:
            return a[1]
        E.raise_py(StopIteration)
    m = E.getattr(x, '__next__')
    try:
        return E.call(m, [])
    except PyRaise as e:
        if len(a) > 1 and E.match_exc(e.exc, PyClass(StopIteration)):
            return a[1]
        raise


def _anyall(E, a, isany):
    s = E.as_seq(E.fromV(a[0]))
    if s.is_conc():
        for x in s.items:
            if E.branch(E.truth(x)) == isany:
                return isany
        return not isany
    i = z3.Int('i')
    t = truthy(z3.Select(s.arr, i))
    E.fact(truthy(VTrue))
    E.fact(z3.Not(truthy(VFalse)))
    E.fact(z3.Not(truthy(VNone)))
    r = z3.And(i >= 0, i < s.n)
    return z3.Exists([i], z3.And(r, t)) if isany else z3.ForAll([i], z3.Implies(r, t))


@bi('any')
def _any(E, a, k):
    return _anyall(E, a, True)


@bi('all')
def _all(E, a, k):
    return _anyall(E, a, False)


@bi('sum')
def _sum(E, a, k):
    s = E.as_seq(a[0])
    if not s.is_conc():
        raise Unsupported('sum of a symbolic sequence')
    import ast
    r = a[1] if len(a) > 1 else 0
    for x in s.items:
        r = E.binop(ast.Add(), r, x)
    return r


@bi('sorted')
def _sorted(E, a, k):
    l = _list(E, [a[0]], {})
    LIB['list.sort'](E, [l], k)
    return l


@bi('getattr')
def _getattr(E, a, k):
    return E.getattr(a[0], a[1], a[2] if len(a) > 2 else UNDEF)


@bi('setattr')
def _setattr(E, a, k):
    E.setattr(a[0], a[1], a[2])


@bi('hasattr')
def _hasattr(E, a, k):
    h = getattr(E, 'vhas', {}).get(a[1]) if isinstance(a[1], str) else None
    if h is not None and is_V(E.fromV(a[0])):
        return h(E, E.fromV(a[0]))
    try:
        E.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if E.match_exc(e.exc, PyClass(AttributeError)):
            return False
        raise


@bi('hash')
def _hash(E, a, k):
    E.need_hashable(a[0])
    return E.fresh_int('hash')


@bi('chr')
def _chr(E, a, k):
    if isinstance(a[0], int):
        return chr(a[0])
    raise Unsupported('chr')


@bi('ord')
def _ord(E, a, k):
    if isinstance(a[0], str):
        return ord(a[0])
    raise Unsupported('ord')


# -------------------------------------------------------------------------------------------------- list

@lib('list.append')
def _l_append(E, a, k):
    E.set_seq(a[0], E.seq_append(a[0].seq, a[1]))


@lib('list.extend')
def _l_extend(E, a, k):
    x = E.fromV(a[1])
    E.set_seq(a[0], E.seq_cat(a[0].seq, E.as_seq(x)))


@lib('list.pop')
def _l_pop(E, a, k):
    l = a[0]
    s = l.seq
    i = a[1] if len(a) > 1 else -1
    n = E.seq_n(s)
    if s.is_conc() and isinstance(i, int):
        items = list(s.items)
        if i >= len(items) or i < -len(items):
            E.raise_py(IndexError, 'pop')
        v = items.pop(i)
        E.set_seq(l, Seq(items=items))
        return v
    if isinstance(i, int) and i == -1:
        if not E.branch(zi(n) > 0):
            E.raise_py(IndexError, 'pop from empty list')
        v = E.seq_get(s, zi(n) - 1)
        E.set_seq(l, Seq(arr=s.arr, n=zi(n) - 1))
        return v
    if isinstance(i, int) and i == 0:
        if not E.branch(zi(n) > 0):
            E.raise_py(IndexError, 'pop from empty list')
        s = E.sym(s)
        v = E.seq_get(s, 0)
        E.set_seq(l, Seq(arr=E.arr_shift(s.arr, 1), n=zi(n) - 1))
        return v
    j = E.seq_index(s, i)
    s = E.sym(s)
    v = E.seq_get(s, j)
    E.set_seq(l, Seq(arr=E.arr_cat(s.arr, j, E.arr_shift(s.arr, zi(j) + 1)), n=zi(n) - 1))
    return v


@lib('list.insert')
def _l_insert(E, a, k):
    l, i, v = a
    s = l.seq
    if s.is_conc() and isinstance(i, int):
        items = list(s.items)
        items.insert(i, v)
        E.set_seq(l, Seq(items=items))
        return
    if isinstance(i, int) and i == 0:
        s = E.sym(s)
        E.set_seq(l, E.seq_cat(E.sym(Seq(items=[v])), s))
        return
    if isinstance(i, int) or is_int(i):
        i = i if isinstance(i, int) else zi(i)
        s = E.sym(s)
        E.set_seq(l, E.seq_cat(E.seq_append(E.seq_slice(s, None, i), v), E.seq_slice(s, i, None)))
        return
    raise Unsupported('list.insert')


@lib('list.clear')
def _l_clear(E, a, k):
    E.set_seq(a[0], Seq(items=[]))


@lib('list.reverse')
def _l_reverse(E, a, k):
    E.set_seq(a[0], E.seq_reversed(a[0].seq))


@lib('list.copy')
def _l_copy(E, a, k):
    return E.new_list(seq=a[0].seq.copy())


@lib('list.remove')
def _l_remove(E, a, k):
    l, x = a
    if not l.seq.is_conc():
        raise Unsupported('list.remove')
    for i, y in enumerate(l.seq.items):
        if E.branch(E.eq(y, x)):
            E.set_seq(l, Seq(items=l.seq.items[:i] + l.seq.items[i + 1:]))
            return
    E.raise_py(ValueError, 'list.remove')


@lib('list.index')
def _l_index(E, a, k):
    l, x = a[0], a[1]
    s = E.as_seq(l)
    if s.is_conc():
        for i, y in enumerate(s.items):
            if E.branch(E.eq(y, x)):
                return i
        E.raise_py(ValueError, 'index')
    raise Unsupported('list.index')


LIB['tuple.index'] = _l_index


@lib('list.count')
def _l_count(E, a, k):
    raise Unsupported('list.count')


@lib('list.sort')
def _l_sort(E, a, k):
    l = a[0]
    key = k.get('key')
    rev = k.get('reverse', False)
    s = l.seq
    if s.is_conc() and key is None and all(is_conc_scalar(x) for x in s.items):
        try:
            E.set_seq(l, Seq(items=sorted(s.items, reverse=bool(rev))))
        except TypeError as e:
            E.raise_py(TypeError, str(e))
        return
    h = getattr(E, 'sort_contract', None)
    if h is None:
        raise Unsupported('list.sort of symbolic content')
    h(E, l, key, rev)


# ------------------------------------------------------------------------------------------------- deque

@lib('collections.deque')
def _deque(E, a, k):
    if k.get('maxlen') is not None or len(a) > 1:
        m = k.get('maxlen', a[1] if len(a) > 1 else None)
        l = E.new_list([], kind='deque')
        l.maxlen = m
        if a and E.as_seq(a[0]).items != []:
            raise Unsupported('deque initialiser')
        return l
    l = E.new_list(seq=E.as_seq(a[0]).copy() if a else Seq(items=[]), kind='deque')
    l.maxlen = None
    return l


LIB['deque'] = _deque


@lib('deque.append')
def _dq_append(E, a, k):
    l = a[0]
    m = getattr(l, 'maxlen', None)
    if m is not None:
        n = E.seq_n(l.seq)
        if not E.branch(zi(n) < zi(m)):
            if E.branch(zi(m) == 0):
                return
            LIB['list.pop'](E, [l, 0], {})
    _l_append(E, a, k)


@lib('deque.popleft')
def _dq_popleft(E, a, k):
    return _l_pop(E, [a[0], 0], {})


@lib('deque.appendleft')
def _dq_appendleft(E, a, k):
    return _l_insert(E, [a[0], 0, a[1]], {})


# -------------------------------------------------------------------------------------------------- dict

@lib('dict.__init__')
def _d_init(E, a, k):
    if len(a) > 1 or k:
        E.set_content(a[0], E.get_content(_dict(E, a[1:], k)))


@lib('dict.__getitem__')
def _d_getitem(E, a, k):
    return E.getitem(a[0], a[1])


@lib('dict.__setitem__')
def _d_setitem(E, a, k):
    E.dict_set(a[0], a[1], a[2])


@lib('dict.__delitem__')
def _d_delitem(E, a, k):
    E.dict_del(a[0], a[1])


@lib('dict.__contains__')
def _d_contains(E, a, k):
    return E.contains(a[0], a[1])


@lib('dict.get')
def _d_get(E, a, k):
    found, v = E.dict_get(a[0], a[1])
    return v if found else (a[2] if len(a) > 2 else None)


@lib('dict.setdefault')
def _d_setdefault(E, a, k):
    found, v = E.dict_get(a[0], a[1])
    if found:
        return v
    v = a[2] if len(a) > 2 else None
    E.dict_set(a[0], a[1], v)
    return v


@lib('dict.pop')
def _d_pop(E, a, k):
    return E.dict_del(a[0], a[1], a[2] if len(a) > 2 else UNDEF)


@lib('dict.keys')
def _d_keys(E, a, k):
    d = a[0]
    if d.conc is not None:
        return DView(d.conc.keys(), d)
    t = TupSym(Seq(arr=d.karr, n=d.n))
    t.d = t.keys_of = d
    return t


@lib('dict.values')
def _d_values(E, a, k):
    d = a[0]
    if d.conc is not None:
        return DView(d.conc.values(), d)
    arr = E.fresh('values', AIV)
    i = z3.Int('i')
    E.assume(z3.ForAll([i], z3.Select(arr, i) == z3.Select(d.val, z3.Select(d.karr, i)), patterns=[z3.Select(arr, i)]))
    t = TupSym(Seq(arr=arr, n=d.n))
    t.d = d
    return t


@lib('dict.items')
def _d_items(E, a, k):
    d = a[0]
    if d.conc is not None:
        return DView(d.conc.items(), d)
    # a view: reads the present content
    it = IterVal(E.new_oid(), lambda i: (E.fromV(z3.simplify(z3.Select(d.karr, zi(i)))),
                                         E.fromV(z3.simplify(z3.Select(d.val, z3.Select(d.karr, zi(i)))))), d.n)
    it.d = d
    E.objs[it.oid] = it
    return it


@lib('dict.clear')
def _d_clear(E, a, k):
    E.set_content(a[0], DictContent({}, None, None, None, None))


@lib('dict.copy')
def _d_copy(E, a, k):
    return _dict(E, [a[0]], {})


@lib('dict.update')
def _d_update(E, a, k):
    d = a[0]
    if len(a) > 1:
        x = a[1]
        if isinstance(x, DObj) and x.conc is not None:
            for n, v in list(x.conc.items()):
                E.dict_set(d, n, v)
        elif isinstance(x, NObj) and 'of' in x.attrs:
            raise Unsupported('update from __dict__')
        else:
            s = E.as_seq(x)
            if not s.is_conc():
                raise Unsupported('dict.update with symbolic content')
            for y in s.items:
                p = E.as_seq(y)
                E.dict_set(d, E.seq_get(p, 0), E.seq_get(p, 1))
    for n, v in k.items():
        E.dict_set(d, n, v)


# --------------------------------------------------------------------------------------------------- set

@lib('set.add')
def _s_add(E, a, k):
    E.set_add(a[0], a[1])


@lib('set.clear')
def _s_clear(E, a, k):
    E.set_content(a[0], SetContent(None, []))


@lib('set.update')
def _s_update(E, a, k):
    for x in a[1:]:
        kd = x if isinstance(x, (DObj, SObj)) else getattr(x, 'keys_of', None)
        if isinstance(kd, DObj) and kd.conc is None or isinstance(kd, SObj) and kd.dom is not None:
            s = a[0]
        else:
            q = E.as_seq(x)
            if q.is_conc():
                for y in q.items:
                    E.set_add(a[0], y)
                continue
            kd = _set(E, [x], {})
        d = E.fresh('union', AVB)
        v = z3.Const('v', V)
        d0 = E.set_dom(a[0])
        E.assume(z3.ForAll([v], z3.Select(d, v) == z3.Or(z3.Select(d0, v), z3.Select(kd.dom, v)),
                           patterns=[z3.Select(d, v), z3.Select(d0, v), z3.Select(kd.dom, v)]))
        E.set_content(a[0], SetContent(d, None))


def _s_remove_(E, s, x, must):
    if s.dom is None and all(is_conc_scalar(y) for y in s.conc) and is_conc_scalar(x):
        if x in s.conc:
            E.set_content(s, SetContent(None, [y for y in s.conc if y != x]))
        elif must:
            E.raise_py(KeyError, x)
        return
    E.need_hashable(x)
    d = E.set_dom(s)
    if must and not E.branch(z3.Select(d, E.toV(x))):
        E.raise_py(KeyError, x)
    E.set_content(s, SetContent(z3.Store(d, E.toV(x), False), None))


@lib('set.discard')
def _s_discard(E, a, k):
    _s_remove_(E, a[0], a[1], False)


@lib('set.remove')
def _s_remove(E, a, k):
    _s_remove_(E, a[0], a[1], True)


def _set_binop(name, op):
    def f(E, a, k):
        r = a[0]
        for x in a[1:]:
            r = E.binop(op(), r, x if isinstance(x, SObj) else _set(E, [x], {}))
        return r if len(a) > 1 else _set(E, [r], {})
    LIB[f'set.{name}'] = f


_set_binop('intersection', ast.BitAnd)
_set_binop('difference', ast.Sub)
_set_binop('union', ast.BitOr)


@lib('set.issubset')
def _s_issubset(E, a, k):
    return E.eq(E.binop(ast.Sub(), a[0], a[1] if isinstance(a[1], SObj) else _set(E, [a[1]], {})), E.new_set())


@lib('set.issuperset')
def _s_issuperset(E, a, k):
    x = a[1] if isinstance(a[1], SObj) else _set(E, [a[1]], {})
    return E.eq(E.binop(ast.Sub(), x, a[0]), E.new_set())


@lib('set.isdisjoint')
def _s_isdisjoint(E, a, k):
    return E.eq(E.binop(ast.BitAnd(), a[0], a[1] if isinstance(a[1], SObj) else _set(E, [a[1]], {})), E.new_set())


@lib('set.copy')
def _s_copy(E, a, k):
    return _set(E, [a[0]], {})


@lib('functools.reduce')
def _reduce(E, a, k):
    f, x = a[0], E.fromV(a[1])
    s = E.v_seq(x) if is_V(x) else E.as_seq(x)
    if s.is_conc():
        it = list(s.items)
        if len(a) > 2:
            acc = a[2]
        else:
            if not it:
                E.raise_py(TypeError, 'reduce of empty sequence')
            acc = it.pop(0)
        for y in it:
            acc = E.call(f, [acc, y])
        return acc
    if len(a) < 3:
        raise Unsupported('reduce without an initial value over a symbolic sequence')
    # semantics: a left-to-right loop; verified with an invariant like any other loop
    E.gset('reduce.acc', a[2])

    def cond(it):
        return E.branch(zi(it) < zi(s.n))

    def body(it):
        E.gset('reduce.acc', E.call(f, [E.gget('reduce.acc'), E.seq_get(s, it)]))
    E.cut_loop('functools.reduce', cond, body, extra=lambda it: [('it<=n', zi(it) <= zi(s.n))])
    return E.gget('reduce.acc')


# ------------------------------------------------------------------------------------------- miscellaneous

@lib('os.getpid')
def _getpid(E, a, k):
    return z3.Int('mypid')


@lib('time.time')
def _time(E, a, k):
    return E.fresh_V('time')


def _of_subclass(f):
    """methods of dict, called on an instance of a subclass"""
    def g(E, a, k):
        return f(E, [x.fields['<dict>'] if isinstance(x, HObj) and '<dict>' in x.fields else x for x in a[:1]] + list(a[1:]), k)
    return g


for _n in list(LIB):
    if _n.startswith('dict.'):
        LIB[_n] = _of_subclass(LIB[_n])
