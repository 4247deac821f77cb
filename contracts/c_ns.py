"""Variables: marcel.nestednamespace (NestedNamespace, Scope) and marcel.object.workspace.VarHandler.

The namespace starts with arbitrary content, consistent with what its outermost scope records (CONSISTENT).  Names of
parameters are the constants p and q (names are interchangeable); every other name, and every value, is arbitrary."""
from pyvc.engine import SetContent, DictContent
from .common import *

ev = z3.Function('ev', V, V)            # the EnvValue made of a value
uw = z3.Function('uw', V, V)            # the value of an EnvValue
X = z3.Const('x', V)
NS = 'marcel.nestednamespace'
WS = 'marcel.object.workspace'


RES = tag_of('marcel.reservoir.Reservoir')


def is_ev(x):
    return ty(x) == tag_of(NS + '.EnvValue')


def wrap(E, a, k):
    v = E.toV(a[1])
    t = ev(v)
    E.fact(is_ev(t))
    E.fact(uw(t) == v)
    return t


def ns_init(E):
    fn_init(E)
    E.vmethods['unwrap'] = lambda E, v: Native('unwrap', lambda E, a, k: uw(v))

    def ensure_deleted(E, v):
        def f(E, a, k):
            E.dict_set(E.gget('deleted'), v, True)
        return Native('ensure_deleted', f)
    E.vmethods['ensure_deleted'] = ensure_deleted


def content(d):
    """dom, val of a symbolic or concrete dict"""
    return d


class View:
    """what the names are bound to: base (arbitrary names) overridden by constant names"""

    def __init__(self, dom, val, over=()):
        self.dom, self.val, self.over = dom, val, dict(over)

    def with_(self, name, v):
        return View(self.dom, self.val, {**self.over, name: v})

    def set_(self, E, x, v):
        """x any V"""
        d, w = self.arrays(E)
        return View(z3.Store(d, x, True), z3.Store(w, x, v))

    def del_(self, E, x):
        d, w = self.arrays(E)
        return View(z3.Store(d, x, False), w)

    def arrays(self, E):
        d, w = self.dom, self.val
        for n, v in self.over.items():
            nv = E.toV(n)
            if v is None:
                d = z3.Store(d, nv, False)
            else:
                d, w = z3.Store(d, nv, True), z3.Store(w, nv, v)
        return d, w


def same(E, label, dobj, view):
    """the dict dobj is exactly view"""
    c = E.dict_sym(dobj)
    d, w = view.arrays(E)
    E.check(z3.ForAll([X], z3.And(z3.Select(c.dom, X) == z3.Select(d, X), z3.Implies(
        z3.Select(d, X), z3.Select(c.val, X) == z3.Select(w, X)))), label)


class NSWorld:
    """a VarHandler (a workspace's variables) in an arbitrary state, outside every pipeline"""

    def __init__(self, E, reservoirs=False):
        E.gset('deleted', E.new_dict())
        self.E = E
        m = E.get_module(WS)
        self.vh = E.call(E.module_attr(m, 'VarHandler'), [])
        self.env = NObj('env', {
            'vars': lambda E, a, k: call_method(E, self.vh, 'vars'),
            'check_nesting': lambda E, a, k: self.check_nesting(E),
            'api_usage': lambda E, a, k: False,
            'setattr': lambda E, a, k: None,
        }, {'trace': NObj('trace', {'is_enabled': lambda E, a, k: False}), 'workspace': self.vh})
        self.ns = E.call(E.module_attr(E.get_module(NS), 'NestedNamespace'), [self.env])
        E.set_field(self.vh, 'namespace', self.ns)
        d0 = self.d0()
        c = E.make_kind('dictcontent', 'ns')
        c.pure = False
        E.set_content(self.d(), c)
        c0 = E.make_kind('dictcontent', 'scope0')
        c0.pure = False
        E.set_content(d0, c0)
        E.assume(z3.ForAll([X], z3.Implies(z3.Select(c0.dom, X), z3.And(
            z3.Select(c.dom, X), z3.Select(c.val, X) == uw(z3.Select(c0.val, X)), is_ev(z3.Select(c0.val, X)))),
            patterns=[z3.Select(c0.dom, X)]))
        E.assume(z3.ForAll([X], z3.Implies(z3.Select(c.dom, X), z3.And(
            ty(X) == TAGS['str'], z3.Not(is_ev(z3.Select(c.val, X))))), patterns=[z3.Select(c.dom, X)]))
        if not reservoirs:
            E.assume(z3.ForAll([X], z3.Implies(z3.Select(c.dom, X), ty(z3.Select(c.val, X)) != RES), patterns=[z3.Select(c.val, X)]))
        self.base = View(c.dom, c.val)
        self.base0 = View(c0.dom, c0.val)
        # variables written so far, immutable variables: arbitrary
        self.written = E.fresh('written', AVB)
        self.immutable = E.fresh('immutable', AVB)
        E.set_content(self.vh.fields['vars_written'], SetContent(self.written, None))
        E.set_content(self.vh.fields['immutable_vars'], SetContent(self.immutable, None))
        self.enforced = E.fresh_bool('enforced')
        E.set_field(self.vh, '_enforce_immutability', self.enforced)

    def check_nesting(self, E):
        depth = E.call(E.getattr(self.ns, 'n_scopes'), [])

        def exit(E, a, k):
            E.check(zi(E.call(E.getattr(self.ns, 'n_scopes'), [])) == zi(depth), 'as many scopes as on entry')
        return NObj('nesting', {'__enter__': lambda E, a, k: None, '__exit__': exit})

    def d(self):
        return self.ns.fields['<dict>']

    def d0(self):
        s = self.ns.fields['scopes']
        return self.E.seq_get(s.seq, 0).fields['<dict>']

    def value(self, name):
        E = self.E
        v = E.fresh_V(name)
        E.assume(z3.Not(is_ev(v)))
        E.assume(ty(v) != RES)
        return v


def push(w, E, view, params):
    """enter a pipeline with these parameters: -> the view inside"""
    b = E.new_dict()
    for n in params:
        v = w.value(n)
        E.dict_set(b, n, v)
        view = view.with_(n, v)
    call_method(E, w.ns, 'push_scope', b)
    return view


STACKS = [[], [''], ['p'], ['pq'], ['p', 'p'], ['p', 'q'], ['pq', 'p'], ['p', 'pq'], ['p', ''], ['p', 'p', 'q'], ['p', 'q', 'p'],
          ['p', 'q', 'pq']]


def stack(w, E):
    """enter up to three pipelines -> [(params, view)], outermost first; a parameter may have been deleted inside"""
    views = [([], w.base)]
    gone = False
    for params in STACKS[E.choose(len(STACKS))]:
        view = push(w, E, views[-1][1], params)
        for n in params:
            if not gone and E.choose(2):
                gone = True
                call_method(E, w.vh, 'delvar', n)
                view = view.with_(n, None)
        views.append((list(params), view))
    return views


def leave(w, E, views):
    """leave the pipelines, one by one"""
    while len(views) > 1:
        views.pop()
        call_method(E, w.ns, 'pop_scope')
        same(E, 'after a pipeline ends: its parameters hide nothing, other variables are as it left them', w.d(), views[-1][1])


def assume_free(w, E, names=('p', 'q')):
    """p and q are not protected (otherwise the bindings cannot be made through setvar)"""
    for n in names:
        E.assume(z3.Not(z3.And(w.enforced, z3.Select(w.immutable, E.toV(n)))))


def any_name(E, params):
    """an arbitrary name: one of the parameters, or some other name"""
    i = E.choose(3)
    if i < 2:
        return 'pq'[i]
    x = E.fresh_V('x')
    E.assume(z3.And(ty(x) == TAGS['str'], hashable(x)))
    for n in 'pq':
        E.assume(x != E.toV(n))
    return x


def change(views, E, x, f, keep=None):
    """x is changed by f in the innermost scope which has it as a parameter, or for all"""
    owner = max([i for i, (params, v) in enumerate(views) if isinstance(x, str) and x in params] or [0])
    out = []
    for i, (params, v) in enumerate(views):
        out.append((params, f(v) if i >= owner else v))
    return owner, out


def scoping(E, assign):
    """enter pipelines; the innermost one assigns or deletes an arbitrary variable; leave them"""
    w = NSWorld(E)
    assume_free(w, E)
    views = stack(w, E)
    same(E, 'inside a pipeline: its parameters are bound, other variables as outside', w.d(), views[-1][1])
    x = any_name(E, None)
    xv = E.toV(x)
    E.assume(z3.Not(z3.And(w.enforced, z3.Select(w.immutable, xv))))
    d, _ = views[-1][1].arrays(E)
    if assign:
        v = w.value('new')
        call_method(E, w.vh, 'setvar', x, v)
        owner, views = change(views, E, x, lambda view: view.set_(E, xv, v) if is_z3(x) else view.with_(x, v))
        base0 = w.base0.set_(E, xv, ev(v)) if owner == 0 else w.base0
    else:
        E.assume(z3.Select(d, xv))
        call_method(E, w.vh, 'delvar', x)
        owner, views = change(views, E, x, lambda view: view.del_(E, xv) if is_z3(x) else view.with_(x, None))
        base0 = w.base0.del_(E, xv) if owner == 0 else w.base0
    same(E, 'after the change: the variable, and no other, has changed', w.d(), views[-1][1])
    leave(w, E, views)
    same(E, 'what will be saved: the variables as changed, no parameters', w.d0(), base0)
    E.cover('end')


def protection(E):
    """an assignment to, or deletion of, an immutable variable is refused, changing nothing"""
    w = NSWorld(E)
    x = E.fresh_V('x')
    E.assume(z3.And(ty(x) == TAGS['str'], hashable(x)))
    E.assume(z3.Or(w.enforced, z3.Not(w.enforced)))
    protected = z3.And(w.enforced, z3.Select(w.immutable, x))
    how = E.choose(3)
    v = w.value('new')
    d, val = w.base.arrays(E)
    if how == 0:
        r = expect_kill(E, lambda: call_method(E, w.vh, 'setvar', x, v))
    elif how == 1:
        r = expect_kill(E, lambda: call_method(E, w.vh, 'delvar', x))
        if r == 'KeyError':
            E.check(z3.And(z3.Not(protected), z3.Not(z3.Select(d, x))), 'KeyError only for a variable which does not exist')
            E.cover('missing')
            return
    else:
        E.dict_set(E.gget('deleted'), 'x', True)
        r = expect_kill(E, lambda: call_method(E, w.vh, 'setvar_import', x, 'module', 'symbol', v))
    E.check(protected == (r == 'KillCommandException'), 'refused exactly when protected')
    E.check(r in ('ok', 'KillCommandException'), 'no other failure')
    if r != 'ok':
        same(E, 'refused: nothing changes', w.d(), w.base)
        same(E, 'refused: nothing to save changes', w.d0(), w.base0)
        E.cover('refused')
        return
    if how == 1:
        same(E, 'deleted', w.d(), w.base.del_(E, x))
        same(E, 'deleted: not saved', w.d0(), w.base0.del_(E, x))
    else:
        same(E, 'assigned', w.d(), w.base.set_(E, x, v))
    got = call_method(E, w.vh, 'getvar', x)
    has = call_method(E, w.vh, 'hasvar', x)
    if how == 1:
        E.check(zb(z3.Not(E.zbool(has))) if hasattr(E, 'zbool') else True, 'hasvar')
        E.check(got is None, 'a deleted variable has no value')
    else:
        E.check(E.eq(got, v), 'the value read is the value assigned')
    E.cover('accepted')


CONTRACTS = {NS + '.EnvValue.wrap': wrap}
TASKS = [
    Task('scoping-assign', lambda E: scoping(E, True), CONTRACTS, no_candidates, init=ns_init),
    Task('scoping-delete', lambda E: scoping(E, False), CONTRACTS, no_candidates, init=ns_init),
    Task('protection', protection, CONTRACTS, no_candidates, init=ns_init),
]
