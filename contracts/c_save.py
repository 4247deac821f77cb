"""Variables which are saved with the workspace and restored: NestedNamespace.to_persistent_state / from_persistent_state,
Workspace.open, VarHandler.changes, and the classes of EnvValue."""
from pyvc.engine import SetContent, DictContent
from .common import *
from .c_ns import NSWorld, View, same, ns_init, wrap, uw, ev, is_ev, NS, WS, X, RES

cls = z3.Function('cls', V, V)          # name of the class of an EnvValue
st = z3.Function('st', V, V)            # what to_persistent_state returns
rs = z3.Function('rs', V, V, V)         # EnvValue.restore(env, classname, state)


def pk(e):
    return rawpack2(cls(e), st(e))


def back(v):
    return rs(vget(v, 0), vget(v, 1))


def restore(E, a, k):
    t = rs(E.toV(a[1]), E.toV(a[2]))
    return t


def save_init(E):
    ns_init(E)
    E.vmethods['to_persistent_state'] = lambda E, v: Native('to_persistent_state', lambda E, a, k: st(v))
    E.vmethods['__class__'] = lambda E, v: NObj('class', {}, {'__name__': cls(v)})


def axioms(E):
    e = z3.Const('e', V)
    a, b = z3.Const('a', V), z3.Const('b', V)
    E.assume(z3.ForAll([e], z3.And(ty(pk(e)) == TAGS['tuple'], vlen(pk(e)) == 2, vget(pk(e), 0) == cls(e),
                                   vget(pk(e), 1) == st(e)), patterns=[st(e)]))
    E.assume(z3.ForAll([a, b], is_ev(rs(a, b)), patterns=[rs(a, b)]))
    # proved for each class by the task 'values'
    E.assume(z3.ForAll([e], z3.Implies(is_ev(e), uw(rs(cls(e), st(e))) == uw(e)), patterns=[st(e)]))


def candidates(E, ctx):
    """a loop over a dict or set: after it iterations, its first it keys have been stored, with some function (of
    E.stored) of their values"""
    out = []
    s = E.loop_src[-1] if E.loop_src else None
    if s is None:
        return out
    pos = z3.Function(f'pos_{s.karr}', V, I)
    seen = lambda x: z3.And(z3.Select(s.dom, x), pos(x) < ctx.it)
    for n, f in getattr(E, 'filters', ()):
        for loc, e, c in ctx.dicts():
            if c.conc is None:
                nm = E.locname(loc)
                out.append((f'{nm}: dom, {n}', z3.ForAll([X], z3.Select(c.dom, X) == z3.And(seen(X), f(X)),
                                                         patterns=[z3.Select(c.dom, X)])))
    for loc, e, c in ctx.dicts():
        if e is None or c.conc is not None or e.conc:
            continue
        ed, evl = (e.dom, e.val) if e.conc is None else (z3.K(V, False), z3.K(V, VNone))
        nm = E.locname(loc)
        out.append((f'{nm}: dom', z3.ForAll([X], z3.Select(c.dom, X) == z3.Or(z3.Select(ed, X), seen(X)),
                                            patterns=[z3.Select(c.dom, X)])))
        out.append((f'{nm}: dom, some', z3.ForAll([X], z3.Implies(z3.Select(c.dom, X), seen(X)),
                                                  patterns=[z3.Select(c.dom, X)])))
        fs = [(n, (lambda x, f=f: f(z3.Select(s.val, x)))) for n, f in E.stored] if s.val is not None else []
        fs += [(f'of {n}', (lambda x, d=d: z3.Select(d, x))) for n, d in getattr(E, 'sources', ())]
        for fn, f in fs:
            out.append((f'{nm}: {fn}', z3.ForAll([X], z3.Implies(z3.Select(c.dom, X), z3.Select(c.val, X) == z3.If(
                seen(X), f(X), z3.Select(evl, X))), patterns=[z3.Select(c.val, X)])))
    return out


def over(E, view, dom, val):
    """view overridden by dom / val (z3 arrays, or functions)"""
    d, w = view.arrays(E)
    d2, w2 = E.fresh('over_dom', AVB), E.fresh('over_val', AVV)
    E.assume(z3.ForAll([X], z3.And(
        z3.Select(d2, X) == z3.Or(z3.Select(d, X), dom(X)),
        z3.Select(w2, X) == z3.If(dom(X), val(X), z3.Select(w, X))), patterns=[z3.Select(d2, X), z3.Select(w2, X)]))
    return View(d2, w2)


def saving(E):
    """save the variables, restore them in a new namespace: same variables, same values"""
    axioms(E)
    w = NSWorld(E)
    c0 = E.dict_sym(w.d0())
    E.assume(z3.Not(z3.Select(c0.dom, E.toV('__builtins__'))))      # nobody assigns __builtins__
    E.stored = [('saved', pk), ('restored', back), ('value', lambda v: uw(back(v)))]
    state = call_method(E, w.ns, 'to_persistent_state')
    sc = E.dict_sym(state)
    E.check(z3.ForAll([X], z3.And(
        z3.Select(sc.dom, X) == z3.Select(w.base0.dom, X),
        z3.Implies(z3.Select(sc.dom, X), z3.Select(sc.val, X) == pk(z3.Select(w.base0.val, X))))),
        'each variable of the session, and no other, is saved')
    same(E, 'saving changes nothing', w.d(), w.base)
    same(E, 'saving changes nothing that will be saved', w.d0(), w.base0)
    # another session: marcel's and the startup script's variables are there already
    m = E.get_module(NS)
    new = E.call(E.module_attr(m, 'NestedNamespace'), [w.env])
    c = E.make_kind('dictcontent', 'permanent')
    c.pure = False
    E.set_content(new.fields['<dict>'], c)
    before = View(c.dom, c.val)
    call_method(E, new, 'from_persistent_state', w.env, state)
    n0 = E.dict_sym(E.seq_get(new.fields['scopes'].seq, 0).fields['<dict>'])
    d0, w0 = w.base0.dom, w.base0.val
    E.check(z3.ForAll([X], z3.And(z3.Select(n0.dom, X) == z3.Select(d0, X), z3.Implies(z3.Select(d0, X), uw(
        z3.Select(n0.val, X)) == uw(z3.Select(w0, X))))), 'what would be saved again is the same')
    want = over(E, before, lambda x: z3.Select(d0, x), lambda x: uw(z3.Select(w0, x)))
    same(E, 'restored: the saved variables have the saved values, others are as before', new.fields['<dict>'], want)
    E.cover('end')


KINDS = ('builtin', 'module', 'function', 'pipeline', 'other')
kind = z3.Function('kind', V, I)
modname = z3.Function('modname', V, V)
fname = z3.Function('fname', V, V)
importm = z3.Function('import_module', V, V)
importsym = z3.Function('import_symbol', V, V, V)


def values(E):
    """the value of a variable is the same after saving and restoring it"""
    i = E.choose(len(KINDS))
    v = E.fresh_V('value')
    E.assume(kind(v) == i)
    E.assume(z3.Function('type__module__', I, V)(ty(v)) != E.toV(NS))     # not an internal object of the namespace
    E.assume(z3.Not(is_ev(v)))
    E.kinded = v
    # Python: modules and builtin functions can be imported by their names
    E.assume(z3.Implies(kind(v) == 1, importm(fname(v)) == v))
    E.assume(z3.Implies(z3.And(kind(v) == 0, modname(v) != VNone), importsym(modname(v), fname(v)) == v))
    E.assume(z3.Implies(kind(v) == 1, fname(v) != VNone))
    E.assume(z3.Function('callable', V, B)(v) == z3.Or(kind(v) == 0, kind(v) == 2))
    env = NObj('env', {})
    m = E.get_module(NS)
    EnvValue = E.module_attr(m, 'EnvValue')
    if E.choose(2) == 0:
        x = E.call(E.getattr(EnvValue, 'wrap'), [env, v, 'SRC'])
        name = None
    else:
        # import MODULE SYMBOL NAME
        mod = E.fresh_V('module')
        E.assume(ty(mod) == TAGS['str'])
        sym = [None, E.fresh_V('symbol')][E.choose(2)]
        if sym is not None:
            E.assume(ty(sym) == TAGS['str'])
            E.assume(importsym(mod, sym) == v)
        else:
            E.assume(importm(mod) == v)
        x = E.call(E.getattr(E.module_attr(m, 'Import'), 'new'), [env, mod, sym, 'name', v])
    E.check(E.eq(call_method(E, x, 'unwrap'), v), 'the value of the variable')
    state = call_method(E, x, 'to_persistent_state')
    cname = E.getattr(E.getattr(x, '__class__'), '__name__')
    y = E.call(E.getattr(EnvValue, 'restore'), [env, cname, state])
    E.check(E.eq(call_method(E, y, 'unwrap'), v), 'restored: the same value')
    E.check(E.eq(call_method(E, y, 'unwrap'), v), 'and again')
    state2 = call_method(E, y, 'to_persistent_state')
    z = E.call(E.getattr(EnvValue, 'restore'), [env, E.getattr(E.getattr(y, '__class__'), '__name__'), state2])
    E.check(E.eq(call_method(E, z, 'unwrap'), v), 'saved and restored once more: the same value')
    E.cover('end')


def values_init(E):
    fn_init(E)
    E.vmethods['__module__'] = lambda E, v: modname(v)
    E.vmethods['__name__'] = lambda E, v: fname(v)
    E.vmethods['isidentifier'] = lambda E, v: Native('isidentifier', lambda E, a, k: True)


def is_kind(*ks):
    return lambda E, a, k: z3.Or(*[kind(E.toV(a[0])) == KINDS.index(x) for x in ks])


def parse(want, call):
    def f(E, a, k):
        ok = a[0].fields['text'] == want
        v = E.kinded if ok else E.fresh_V('something_else')
        return Native('parsed', lambda E, a, k: v) if call else v
    return f


VALUES = {
    'inspect.isbuiltin': is_kind('builtin'), 'inspect.ismodule': is_kind('module'),
    'marcel.parser.Parser.__init__': lambda E, a, k: E.set_field(a[0], 'text', a[1]),
    'marcel.parser.Parser.parse_function': parse('(SRC)', True),
    'marcel.parser.Parser.parse_pipeline': parse('SRC', False),
    'marcel.util.import_module': lambda E, a, k: importm(E.toV(a[0])),
    'marcel.util.import_symbol': lambda E, a, k: importsym(E.toV(a[0]), E.toV(a[1])),
}

def symdict(E, name):
    """a dict with arbitrary content, its keys being strings"""
    d = E.new_dict()
    c = E.make_kind('dictcontent', name)
    c.pure = False
    E.set_content(d, c)
    E.assume(z3.ForAll([X], z3.Implies(z3.Select(c.dom, X), z3.And(ty(X) == TAGS['str'], z3.Not(is_ev(z3.Select(c.val, X))))),
                       patterns=[z3.Select(c.dom, X)]))
    return d


def opening(E):
    """opening a workspace: the variables are marcel's, those of the startup script, and the saved ones; marcel's
    and the startup script's are protected, and none of them will be saved"""
    axioms(E)
    m = E.get_module(WS)
    ws = E.call(E.module_attr(m, 'Workspace'), ['w'])
    E.ws = ws
    immutable = E.fresh('immutable', AVB)
    E.set_content(ws.fields['immutable_vars'], SetContent(immutable, None))
    env = NObj('env', {})
    initial = lambda f: apply_(f, E.envp)
    perm = E.call(E.module_attr(E.get_module('marcel.env'), 'PermanentNamespace'), [])
    pc = E.make_kind('dictcontent', 'initial')
    pc.pure = False
    E.set_content(perm.fields['<dict>'], pc)
    config = symdict(E, 'config')
    cc = E.dict_sym(config)
    E.gset('config', config)
    saved = E.new_dict()
    sc = E.make_kind('dictcontent', 'saved')
    sc.pure = False
    E.set_content(saved, sc)
    E.assume(z3.Not(z3.Select(sc.dom, E.toV('__builtins__'))))
    E.assume(z3.ForAll([X], z3.Implies(z3.Select(sc.dom, X), z3.And(
        ty(z3.Select(sc.val, X)) == TAGS['tuple'], vlen(z3.Select(sc.val, X)) == 2)), patterns=[z3.Select(sc.val, X)]))
    E.gset('saved', saved)
    E.exists, E.locked = E.choose(2), E.choose(2)
    E.total_functions = True
    E.stored = [('initial', initial), ('same', lambda v: v), ('restored', back), ('value', lambda v: uw(back(v)))]
    E.sources = [('config', cc.val)]
    E.envp = E.pack([env])
    r = expect_kill(E, lambda: call_method(E, ws, 'open', env, perm))
    bad = z3.Or(*[z3.Select(cc.dom, E.toV(n)) for n in ('MARCEL_VERSION', 'HOME', 'USER', 'HOST', 'WORKSPACE')])
    if not E.exists or not E.locked:
        E.check(r == 'KillCommandException', 'refused: no such workspace, or in use')
        E.cover('refused')
        return
    E.check((bad if r == 'KillCommandException' else z3.Not(bad)) if r in ('ok', 'KillCommandException') else False,
            'refused if the startup script changes a variable that is never mutable')
    if r != 'ok':
        return
    ns = ws.fields['namespace']
    got = E.dict_sym(ns.fields['<dict>'])
    p, c, s = (lambda x: z3.Select(pc.dom, x)), (lambda x: z3.Select(cc.dom, x)), (lambda x: z3.Select(sc.dom, x))
    E.check(z3.ForAll([X], z3.Select(got.dom, X) == z3.Or(p(X), c(X), s(X))), 'the variables: marcel, startup, saved')
    E.check(z3.ForAll([X], z3.Implies(z3.Select(got.dom, X), z3.Select(got.val, X) == z3.If(
        s(X), uw(back(z3.Select(sc.val, X))), z3.If(c(X), z3.Select(cc.val, X), initial(z3.Select(pc.val, X)))))),
        'their values')
    n0 = E.dict_sym(E.seq_get(ns.fields['scopes'].seq, 0).fields['<dict>'])
    E.check(z3.ForAll([X], z3.And(z3.Select(n0.dom, X) == s(X), z3.Implies(s(X), z3.Select(n0.val, X) == back(
        z3.Select(sc.val, X))))), 'what will be saved: the saved variables')
    im = E.set_dom(ws.fields['immutable_vars'])
    E.check(z3.ForAll([X], z3.Select(im, X) == z3.Or(z3.Select(immutable, X), c(X))), "protected: marcel's and startup's")
    E.check(ws.fields['_enforce_immutability'] is False, 'protection not yet enforced')
    E.cover('open')


def changes(E):
    """what a command run in a child process reports: the variables written, with their values, if they still exist"""
    w = NSWorld(E)
    E.stored = []
    E.filters = [('that exist', lambda x: z3.Select(w.base.dom, x))]
    E.sources = [('namespace', w.base.val)]
    r = call_method(E, w.vh, 'changes')
    c = E.dict_sym(r)
    d, v = w.base.arrays(E)
    E.check(z3.ForAll([X], z3.Select(c.dom, X) == z3.And(z3.Select(w.written, X), z3.Select(d, X))),
            'reported: the variables written that still exist')
    E.check(z3.ForAll([X], z3.Implies(z3.Select(c.dom, X), z3.Select(c.val, X) == z3.Select(v, X))), 'with their values')
    same(E, 'reporting changes nothing', w.d(), w.base)
    x = E.fresh_V('x')
    E.assume(z3.And(ty(x) == TAGS['str'], hashable(x), z3.Not(z3.And(w.enforced, z3.Select(w.immutable, x)))))
    how = E.choose(4)
    wr = lambda: E.set_dom(w.vh.fields['vars_written'])
    if how == 0:
        call_method(E, w.vh, 'clear_changes')
        E.check(z3.ForAll([X], z3.Not(z3.Select(wr(), X))), 'nothing written after clear_changes')
    elif how == 1:
        call_method(E, w.vh, 'setvar', x, w.value('new'))
        E.check(z3.ForAll([X], z3.Select(wr(), X) == z3.Or(X == x, z3.Select(w.written, X))), 'assignment: written')
    elif how == 2:
        call_method(E, w.vh, 'add_changed_var', x)
        E.check(z3.ForAll([X], z3.Select(wr(), X) == z3.Or(X == x, z3.Select(w.written, X))), 'possibly changed: written')
    else:
        E.assume(z3.Select(d, x))
        call_method(E, w.vh, 'delvar', x)
        E.check(z3.ForAll([X], z3.Implies(X != x, z3.Select(wr(), X) == z3.Select(w.written, X))),
                'deletion: other variables written as before')
    E.cover('end')


OPEN = {
    NS + '.EnvValue.wrap': wrap, NS + '.EnvValue.restore': restore,
    'marcel.locations.Locations.__init__': lambda E, a, k: None,
    WS + '.Workspace.exists': lambda E, a, k: bool(E.exists),
    WS + '.Workspace.lock_workspace': lambda E, a, k: bool(E.locked),
    WS + '.Workspace.read_properties': lambda E, a, k: None,
    WS + '.Workspace.read_environment': lambda E, a, k: E.gget('saved'),
    'marcel.configscript.ConfigScript.read_config': lambda E, a, k: E.gget('config'),
}

CONTRACTS = {NS + '.EnvValue.wrap': wrap, NS + '.EnvValue.restore': restore}
TASKS = [
    Task('saving', saving, CONTRACTS, candidates, init=save_init),
    Task('changes', changes, CONTRACTS, candidates, init=save_init),
    Task('opening', opening, OPEN, candidates, init=save_init),
    Task('values', values, VALUES, no_candidates, init=values_init),
]
