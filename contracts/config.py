"""Configuration: registration, circular dependencies and the order of initialisation.

A type index is a number.  REACH(deps, c, x): following dependencies from c, one or more steps, leads to x (the transitive closure).
A configuration's virtual methods are calls to code of the user: $stage counts the phases an object went through."""
from cppvc.api import *
NAME = 'config'
DRIVER = 'drivers/config.cpp'
N = 'Euclid::Configuration::'
MG = N + 'ConfigManager::'
CF = N + 'Configuration::'
REC = N + 'Configuration'
EX = 'Elements::Exception'
P = ['C18']
GHOSTS = {r'Euclid::Configuration::Configuration$': [('$stage', lambda E: I)]}
FOLDS = []


def FA(vs, body, patterns=None):
    """a pattern holding a conditional (in goals only) is left out"""
    if patterns:
        patterns = [p for p in patterns if 'If(' not in str(p)]
    return ForAll(vs, body, patterns=patterns) if patterns else ForAll(vs, body)
TI = I


def rec(E, pat):
    return [t for t in E.tu.types if t['k'] == 'rec' and re.search(pat, t['s']) and not t.get('const')]


def setsort(E):
    return E.S.of(rec(E, r'^std::set<std::type_index')[0])


def fn_reach(vs):
    return z3.Function('REACH', vs, I, I, B)


def key(E):
    return E.heapkey(rec(E, r'^Euclid::Configuration::Configuration$')[0])


def fld(E, h, r, f):
    return core.rget(E.S, Select(h, r), f)


class G:
    """a dependency map and its graph"""

    def __init__(self, E, m):
        self.E = E
        m = unwrap(m)
        self.m, self.dom, self.val = m, core.rget(E.S, m, 'dom'), core.rget(E.S, m, 'val')
        self.R = fn_reach(self.val.sort())

    def dep(self, c, d):
        return Select(core.rget(self.E.S, Select(self.val, c), 'dom'), d)

    def reach(self, c, x):
        return self.R(self.val, c, x)

    def closed(self):
        k, d = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'd')
        return FA([k, d], Implies(And(Select(self.dom, k), self.dep(k, d)), Select(self.dom, d)), patterns=[self.dep(k, d)])

    def acyclic(self):
        k = z3.FreshConst(I, 'k')
        return FA([k], Implies(Select(self.dom, k), Not(self.reach(k, k))), patterns=[self.reach(k, k)])

    def facts(self):
        c, d, x = [z3.FreshConst(I, n) for n in 'cdx']
        return [FA([c, x], Implies(self.dep(c, x), self.reach(c, x)), patterns=[self.dep(c, x)]),
                FA([c, d, x], Implies(And(self.dep(c, d), self.reach(d, x)), self.reach(c, x)), patterns=[z3.MultiPattern(self.dep(c, d), self.reach(d, x))])]

    def shut(self, V, root, but=None, old=None):
        """whoever is in V (not in old, not `but`) does not depend on root and depends on members of V only"""
        v, d = z3.FreshConst(I, 'v'), z3.FreshConst(I, 'd')
        skip = lambda v: Or(*([Select(old, v)] if old is not None else []), *([v == but] if but is not None else []))
        return [('not-the-root', FA([v], Implies(And(Select(V, v), Not(skip(v))), Not(self.dep(v, root))), patterns=[Select(V, v)])),
                ('followed', FA([v, d], Implies(And(Select(V, v), Not(skip(v)), self.dep(v, d)), Select(V, d)), patterns=[z3.MultiPattern(Select(V, v), self.dep(v, d))]))]

    def least(self, V, root):
        """the closure is the least one: a set closed under dependencies and without an edge to root does not lead to root"""
        v = z3.FreshConst(I, 'v')
        return Implies(And(*[f for n, f in self.shut(V, root)]), FA([v], Implies(Select(V, v), Not(self.reach(v, root))), patterns=[self.reach(v, root)]))


def ax(name, term):
    l = Lemma(name, [], lambda: z3.BoolVal(True))
    l.axiom = True
    return LemmaInst(l, term)


CLOSURE = 'transitive closure of the dependencies'


def subset(a, b):
    v = z3.FreshConst(I, 'v')
    return FA([v], Implies(Select(a, v), Select(b, v)), patterns=[Select(a, v)])


def entry(s, i):
    """the key and the value of an entry of the map, however it is passed"""
    c = s[i]
    if isinstance(c, tuple) and c[0] == 'mapent':
        return c[1], s.E.load(s.pre, c[2])
    return unwrap(c.first), unwrap(c.second)


def circ(s):
    """(graph, root, configuration, visited before, visited after)"""
    return G(s.E, s[0]), unwrap(s[1]), entry(s, 2)[0], unwrap(s[3].dom), unwrap(s.out(3).dom)


def circ_post(s):
    g, root, c, v0, v1 = circ(s)
    none = s.result.len == 0
    return [('a-circle-reported-is-one', Or(none, g.reach(c, root))), ('visited-kept', subset(v0, v1)), ('visited', Select(v1, c))] + \
           [(n, Implies(none, f)) for n, f in g.shut(v1, root, old=v0)] + [('no-circle-without-a-report', Implies(And(none, empty(v0)), Not(g.reach(c, root))))]


def empty(V):
    v = z3.FreshConst(I, 'v')
    return FA([v], Not(Select(V, v)), patterns=[Select(V, v)])


def circ_hints(s):
    g, root, c, v0, v1 = circ(s)
    return [ax(CLOSURE, g.least(v1, root)).at('no-circle-without-a-report')]


def pos(m, k):
    m = unwrap(m)
    return z3.Function('keypos_' + re.sub(r'\W+', '_', str(m.sort())), m.sort(), I, I)(m, k)


def argnow(v, i):
    return wrap(v.E, v.E.load(v.st, v.ctx.args[v.ctx.fn['params'][i]['id']]))


def inv_circ(v):
    s = v.ctx
    if len(v.ctx.args) < 4 or v.modified(None, lambda t: v.E.S.is_vec(t.sort())):
        return
    g, root, (c, deps) = G(s.E, s[0]), unwrap(s[1]), entry(s, 2)
    deps = wrap(v.E, deps)
    v0, V = unwrap(s[3].dom), unwrap(argnow(v, 3).dom)
    yield 'visited kept', subset(v0, V)
    yield 'visited', Select(V, c)
    for n, f in g.shut(V, root, but=c, old=v0):
        yield n, f
    for ni, i in v.idxs():
        yield '%s<=deps' % ni, And(0 <= i, i <= deps.n)
        d = z3.FreshConst(I, 'd')
        yield 'followed before ' + ni, FA([d], Implies(And(Select(unwrap(deps.dom), d), pos(deps, d) < i), Select(V, d)), patterns=[Select(unwrap(deps.dom), d)])


def circ_pre(s):
    g = G(s.E, s[0])
    c, deps = entry(s, 2)
    return [('all-known', g.closed()), ('one-of-them', And(Select(g.dom, c), deps == Select(g.val, c)))]


# ------------------------------------------------------------------ initialisation
class D:
    """the configurations of a manager, and the phases they went through"""

    def __init__(self, E, d, st):
        self.E, self.st = E, st
        d = unwrap(d)
        self.m, self.dom, self.val, self.n = d, core.rget(E.S, d, 'dom'), core.rget(E.S, d, 'val'), core.rget(E.S, d, 'n')
        self.H = E.heap(st, key(E))

    def of(self, k, f):
        return fld(self.E, self.H, Select(self.val, k), f)

    def stage(self, k):
        return self.of(k, '$stage')

    def each(self, f):
        k = z3.FreshConst(I, 'k')
        return FA([k], Implies(Select(self.dom, k), f(k)), patterns=[Select(self.dom, k)])

    def owned(self):
        a, b = z3.FreshConst(I, 'a'), z3.FreshConst(I, 'b')
        return [('one-object-each', FA([a, b], Implies(And(Select(self.dom, a), Select(self.dom, b), Select(self.val, a) == Select(self.val, b)), a == b), patterns=[z3.MultiPattern(Select(self.dom, a), Select(self.dom, b))])),
                ('objects', self.each(lambda k: And(Select(self.val, k) > 0, Select(self.val, k) < self.st.nref)))]

    def states(self, lo, hi):
        return [('state-is-the-phase', self.each(lambda k: self.of(k, 'm_state') == self.stage(k))), ('phases', self.each(lambda k: And(lo <= self.stage(k), self.stage(k) <= hi)))]

    def same_keys(self, g):
        k = z3.FreshConst(I, 'k')
        return [('dependencies-of-each', FA([k], Select(self.dom, k) == Select(g.dom, k), patterns=[Select(self.dom, k)])), ('dependencies-of-each.', FA([k], Select(self.dom, k) == Select(g.dom, k), patterns=[Select(g.dom, k)]))]

    def deps_done(self, g):
        k, d = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'd')
        return [('after-its-dependencies', FA([k, d], Implies(And(Select(self.dom, k), self.stage(k) >= 2, g.dep(k, d)), self.stage(d) >= 2), patterns=[g.dep(k, d)]))]

    def ready(self, g):
        return self.owned() + self.same_keys(g) + [('all-known', g.closed()), ('no-circle', g.acyclic())]


def manager(E, st, fr=None):
    """the configurations and the dependencies the function under proof works on"""
    c = E.fnctx
    maps = [a for a in (c.args if False else [])]
    if c.fn['q'].startswith(MG):
        return D(E, c.this.m_config_dictionary, st), G(E, c.this.m_dependency_map)
    return D(E, c[0], st), G(E, c[1])


def phase(n, name):
    """one phase of a configuration: code of the user, which leaves the manager and the states alone"""
    def h(E, s, fr, e, o, args):
        E.assumed.add('the phases of a configuration (code of the user) leave the states of the manager and of the configurations alone')
        lv = E.canon(s, o)
        r = E.term(s, lv.root[2]) if not z3.is_expr(lv.root[2]) else lv.root[2]
        d, g = manager(E, s)
        obj = E.load(s, lv)
        loc = e.get('l', '')
        E.oblige(s, 'precondition', core.rget(E.S, obj, '$stage') == n - 1, loc, '%s-once-and-in-its-turn' % name)
        E.oblige(s, 'precondition', d.each(lambda k: d.stage(k) >= n - 1), loc, '%s-when-all-have-done-the-phase-before' % name)
        if n == 2:
            k, x = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'x')
            E.oblige(s, 'precondition', FA([k, x], Implies(And(Select(d.dom, k), Select(d.val, k) == r, g.dep(k, x)), d.stage(x) == 2)), loc, 'initialized-after-its-dependencies')
        t = s.copy()
        E.throws.append((t, 'user'))
        E.store(s, lv, core.rset(E.S, obj, '$stage', z3.IntVal(n)))
        return [(s, None)]
    return h


def rec_args(s):
    return D(s.E, s[0], s.pre), D(s.E, s[0], s.post), G(s.E, s[1]), unwrap(s[3])


def rec_pre(s):
    d, _, g, c = rec_args(s)
    return d.ready(g) + d.states(1, 2) + d.deps_done(g) + [('registered', Select(d.dom, c))]


def changes(d0, d1, f):
    """phases only go on, and only those of f change"""
    k = z3.FreshConst(I, 'k')
    return [('phases-go-on', d1.each(lambda k: d1.stage(k) >= d0.stage(k))), ('only-what-is-needed', FA([k], Implies(And(Select(d1.dom, k), Not(f(k))), d1.stage(k) == d0.stage(k)), patterns=[d1.stage(k)]))]


def rec_post(s):
    d0, d1, g, c = rec_args(s)
    return [('initialized', d1.stage(c) == 2)] + d1.states(1, 2) + d1.deps_done(g) + changes(d0, d1, lambda k: Or(k == c, g.reach(c, k)))


def inv_rec(v):
    s = v.ctx
    d0, d, g, c = D(v.E, s[0], s.pre), D(v.E, s[0], v.st), G(v.E, s[1]), unwrap(s[3])
    deps = wrap(v.E, Select(g.val, c))
    for n, f in d.states(1, 2) + d.deps_done(g) + changes(d0, d, lambda k: g.reach(c, k)):
        yield n, f
    for ni, i in v.idxs():
        x = z3.FreshConst(I, 'x')
        yield '%s<=deps' % ni, And(0 <= i, i <= deps.n)
        yield 'done before ' + ni, FA([x], Implies(And(Select(unwrap(deps.dom), x), pos(deps, x) < i), d.stage(x) == 2), patterns=[Select(unwrap(deps.dom), x)])


def mine(s, st):
    return D(s.E, s.this.m_config_dictionary, st), G(s.E, s.this.m_dependency_map)


def inv_init(v):
    s = v.ctx
    d, g = D(v.E, s.this.m_config_dictionary, v.st), G(v.E, s.this.m_dependency_map)
    yield 'same configurations', unwrap(v.this.m_config_dictionary) == d.m
    yield 'same dependencies', unwrap(v.this.m_dependency_map) == g.m
    yield 'state', d.each(lambda k: d.of(k, 'm_state') == d.stage(k))
    for n, f in d.deps_done(g):
        yield n, f
    for ni, i in v.idxs():
        yield '%s<=all' % ni, And(0 <= i, i <= d.n)
        for lo in (0, 1, 2):
            yield '?phases of loop %d' % (lo + 1), d.each(lambda k: And(lo <= d.stage(k), d.stage(k) <= lo + 1))
            yield '?phase %d up to %s' % (lo + 1, ni), d.each(lambda k: Implies(pos(d.m, k) < i, d.stage(k) == lo + 1))
            yield '?phase %d from %s' % (lo, ni), d.each(lambda k: Implies(pos(d.m, k) >= i, d.stage(k) == lo))


def init_pre(s):
    d, g = mine(s, s.pre)
    return d.ready(g) + d.states(0, 0)


def init_post(s):
    d, g = mine(s, s.post)
    return [('all-final', d.each(lambda k: And(d.stage(k) == 3, d.of(k, 'm_state') == 3))), ('initialized', s.this1.m_state == 2), ('same-configurations', unwrap(s.this1.m_config_dictionary) == d.m), ('same-dependencies', unwrap(s.this1.m_dependency_map) == g.m)]


# ------------------------------------------------------------------ registration
def clean(d, g0, g1):
    """g1 is g0 without whatever is not registered"""
    k, x = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'x')
    return [('registered-kept', FA([k], Select(g1.dom, k) == And(Select(g0.dom, k), Select(d.dom, k)), patterns=[Select(g1.dom, k)])),
            ('registered-kept.', FA([k], Implies(And(Select(g0.dom, k), Select(d.dom, k)), Select(g1.dom, k)), patterns=[Select(g0.dom, k)])),
            ('dependencies-on-registered-kept', FA([k, x], Implies(Select(g1.dom, k), g1.dep(k, x) == And(g0.dep(k, x), Select(d.dom, x))), patterns=[g1.dep(k, x)])),
            ('dependencies-on-registered-kept.', FA([k, x], Implies(And(Select(g1.dom, k), g0.dep(k, x), Select(d.dom, x)), g1.dep(k, x)), patterns=[g0.dep(k, x)]))]


def declared(d, k, x):
    return Select(core.rget(d.E.S, d.of(k, 'm_dependencies'), 'dom'), x)


def all_edges(s, upto=None):
    """every dependency, declared by the configuration or registered, between registered configurations"""
    return lambda d, g0, k, x: Or(declared(d, k, x), And(Select(g0.dom, k), g0.dep(k, x)))


def close_post(s, g1):
    d, g0 = mine(s, s.pre)
    k, x = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'x')
    e = all_edges(s)
    return [('waits-for-initialization', s.this1.m_state == 1), ('same-configurations', unwrap(s.this1.m_config_dictionary) == d.m),
            ('every-dependency', FA([k, x], Implies(Select(d.dom, k), g1.dep(k, x) == And(Select(d.dom, x), e(d, g0, k, x))), patterns=[g1.dep(k, x)]))] + D(s.E, s.this.m_config_dictionary, s.pre).same_keys(g1) + [('all-known', g1.closed())]


def inv_close(v):
    s = v.ctx
    d, g0 = mine(s, s.pre)
    g1 = G(v.E, v.this.m_dependency_map)
    if not v.idxs():
        return
    k, x = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'x')
    e = all_edges(s)
    changed = any(k[0] == 'env' and v.E.varinfo.get(k[1], ('',))[0] == 'this' for k in v.mods)
    if changed:
        yield 'same configurations', unwrap(v.this.m_config_dictionary) == d.m
    elif len(v.mods) > 1 or v.modified(None, lambda t: t.sort() != I):
        return
    for ni, i in v.idxs():
        yield '?%s<=all' % ni, And(0 <= i, i <= d.n)
        if not changed:
            yield '?no circle before ' + ni, FA([k], Implies(And(Select(d.dom, k), pos(d.m, k) < i), Not(g1.reach(k, k))), patterns=[Select(d.dom, k)])
        if not changed:
            continue
        done = lambda k: And(Select(d.dom, k), pos(d.m, k) < i)
        yield 'keys before ' + ni, FA([k], Select(g1.dom, k) == Or(Select(g0.dom, k), done(k)), patterns=[Select(g1.dom, k)])
        yield 'keys before. ' + ni, FA([k], Implies(Or(Select(g0.dom, k), done(k)), Select(g1.dom, k)), patterns=[Select(g0.dom, k), Select(d.dom, k)])
        yield 'dependencies before ' + ni, FA([k, x], Implies(done(k), g1.dep(k, x) == e(d, g0, k, x)), patterns=[g1.dep(k, x)])
        k2 = z3.FreshConst(I, 'k')
        yield 'others before ' + ni, FA([k2], Implies(And(Select(g0.dom, k2), Not(done(k2))), Select(g1.val, k2) == Select(g0.val, k2)), patterns=[Select(g1.val, k2)])


def type_of(E, name):
    return z3.Int('typeid_' + name)


def h_tindex(E, s, fr, e, o, args):
    a = args[0]
    v = E.val(s, a) if not (isinstance(a, tuple) and a and a[0] == 'typeid') else a
    return [(s, z3.Int('typeid_' + v[1]) if isinstance(v, tuple) and v and v[0] == 'typeid' else E.term(s, v))]


def closure(m):
    return lambda s: [ax(CLOSURE, f) for f in G(s.E, m(s)).facts()]


def any_value(t):
    def h(E, s, fr, e, o, args):
        E.assumed.add('boost::program_options and getProgramOptions do not throw and leave the manager alone')
        return [(s, E.fresh('any', E.sort(t(E, e))))]
    return h


def h_add(E, s, fr, e, o, args):
    return [(s, o)]


T1, T2 = z3.Int('typeid_Driver::First'), z3.Int('typeid_Driver::Second')


def kept(E, m0, m1, but=None):
    k = z3.FreshConst(I, 'k')
    d0, v0, d1, v1 = [core.rget(E.S, unwrap(m), f) for m in (m0, m1) for f in ('dom', 'val')]
    return FA([k], Implies(And(Select(d0, k), *([k != but] if but is not None else [])), And(Select(d1, k), Select(v1, k) == Select(v0, k))), patterns=[Select(d1, k), Select(d0, k)])


def h_user(E, s, fr, e, o, args):
    """the constructor of a configuration: code of the user, which may register more configurations"""
    E.assumed.add('the constructor of a configuration may register more configurations (registerConfiguration), nothing else')
    t = E.load(s, fr.this)
    m = core.rget(E.S, t, 'm_config_dictionary')
    m2 = E.fresh('registered', m.sort())
    s.assume(kept(E, m, m2))
    E.store(s, fr.this, core.rset(E.S, t, 'm_config_dictionary', m2))
    E.throws.append((s.copy(), 'user'))
    return [(s, E.fresh('config', E.sort(E.ty(e['t']))))]


def post_register(s, thrown=False):
    m0, m1 = s.this.m_config_dictionary, s.this1.m_config_dictionary
    d0, d1, v1 = unwrap(m0.dom), unwrap(m1.dom), unwrap(m1.val)
    r = [('others-stay', kept(s.E, m0, m1)), ('state', s.this1.m_state == s.this.m_state), ('same-dependencies', unwrap(s.this1.m_dependency_map) == unwrap(s.this.m_dependency_map))]
    if thrown:
        return r + [('not-registered', Implies(Not(Select(d0, T1)), Not(Select(d1, T1))))]
    return r + [('only-while-open', s.this.m_state == 0), ('registered', Select(d1, T1)), ('a-new-object', Implies(Not(Select(d0, T1)), Select(v1, T1) > 0)), ('once', Implies(Select(d0, T1), unwrap(m0) == unwrap(m1)))]


def post_dependency(s):
    g0, g1 = G(s.E, s.this.m_dependency_map), G(s.E, s.this1.m_dependency_map)
    k, x = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'x')
    return [('recorded', And(Select(g1.dom, T1), g1.dep(T1, T2))), ('others-stay', kept(s.E, g0.m, g1.m, T1)), ('nothing-else', FA([k], Implies(Select(g1.dom, k), Or(k == T1, Select(g0.dom, k))), patterns=[Select(g1.dom, k)])),
            ('its-others-stay', FA([x], g1.dep(T1, x) == Or(x == T2, And(Select(g0.dom, T1), g0.dep(T1, x))), patterns=[g1.dep(T1, x)])),
            ('same-configurations', unwrap(s.this1.m_config_dictionary) == unwrap(s.this.m_config_dictionary))]


CONFIG = {'sorts': {'std::type_index': I, 'boost::program_options::variable_value': z3.DeclareSort('Value'), 'boost::program_options::options_description': z3.DeclareSort('Options'), 'boost::program_options::option_description': z3.DeclareSort('Option')}, 'ignore': ['Elements::Logging'],
          'models': {CF + 'preInitialize': phase(1, 'pre-initialized'), CF + 'initialize': phase(2, 'initialized'), CF + 'postInitialize': phase(3, 'post-initialized'), 'std::type_index::{ctor}': h_tindex, 'Driver::First::{ctor}': h_user,
                     **{n + '::{ctor}': any_value(lambda E, e: E.ty(e['t'])) for n in ('boost::program_options::options_description', 'boost::program_options::option_description', 'boost::shared_ptr')},
                     'boost::program_options::options_description::add': h_add, CF + 'getProgramOptions': any_value(lambda E, e: E.ty(e['t']))}}
LEMMAS = []
CONTRACTS = [
    Contract(N + 'hasCircularDependencies', props=P, requires=circ_pre, inv=inv_circ, lemmas=closure(lambda s: s[0]), ensures=circ_post, hints=circ_hints),
    Contract(N + 'recursiveInitialization', props=P, may_throw=True, requires=rec_pre, inv=inv_rec, heap_mod=[r'Configuration::Configuration$'], lemmas=closure(lambda s: s[1]), ensures=rec_post),
    Contract(MG + 'initialize', props=P, may_throw=True, requires=init_pre, inv=inv_init, lemmas=closure(lambda s: s.this.m_dependency_map), ensures=init_post),
    Contract(N + 'cleanupNonRegisteredDependencies', trusted='removes what is not registered', modifies={'dep_map': True}, ensures=lambda s: clean(D(s.E, s[1], s.pre), G(s.E, s[0]), G(s.E, s.out(0)))),
    Contract(MG + 'closeRegistration', props=P, may_throw=True, requires=lambda s: mine(s, s.pre)[0].owned(), inv=inv_close,
             ensures=lambda s: close_post(s, G(s.E, s.this1.m_dependency_map)) + [('no-circle', G(s.E, s.this1.m_dependency_map).acyclic())],
             on_throw=lambda s: close_post(s, G(s.E, s.this1.m_dependency_map)) + [('a-circle', z3.Exists([z3.Const('kk', I)], And(Select(unwrap(s.this.m_config_dictionary.dom), z3.Const('kk', I)), G(s.E, s.this1.m_dependency_map).reach(z3.Const('kk', I), z3.Const('kk', I)))))]),
    Contract(MG + 'registerDependency', props=P, throws=lambda s: [(EX, s.this.m_state != 0)], ensures=post_dependency),
    Contract(MG + 'getConfiguration', props=P, throws=lambda s: [(EX, Or(s.this.m_state != 2, Not(Select(unwrap(s.this.m_config_dictionary.dom), T1))))],
             ensures=lambda s: [('same-manager', unwrap(s.this1) == unwrap(s.this))]),
    Contract(MG + 'registerConfiguration', props=P, may_throw=True, ensures=post_register, on_throw=lambda s: post_register(s, True)),
]
