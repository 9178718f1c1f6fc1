"""XYDataset: qualified names, data sets and the caching provider.

Text is an SMT string; HASH is the standard string hash (uninterpreted, so collisions are allowed).  boost::split is assumed
to cut a text at every slash.  What the provider behind the cache answers is an uninterpreted function of its arguments."""
from cppvc.api import *
NAME = 'xyd'
DRIVER = 'drivers/xyd.cpp'
X = 'Euclid::XYDataset::'
Q = X + 'QualifiedName::'
GHOSTS = {}
FOLDS = []
STR = z3.StringSort()
AS = ArraySort(I, STR)
SL = z3.StringVal('/')
HASH = z3.Function('HASH', STR, I)
JOIN = specfn('join', [AS, I], STR, lambda g, n: If(n <= 0, z3.StringVal(''), z3.Concat(z3.Concat(JOIN(g, n - 1), Select(g, n - 1)), SL)))
SPLIT_ARR = z3.Function('SPLIT_ARR', STR, AS)
SPLIT_LEN = z3.Function('SPLIT_LEN', STR, I)
LEMMAS = []


def bad(t):
    return Or(z3.Length(t) == 0, z3.Contains(t, SL))


L_joinext = Lemma('join-of-equal-groups', [('a', AS), ('b', AS), ('n', I)], lambda a, b, n: JOIN(a, n) == JOIN(b, n),
                  hyp=lambda a, b, n: forall_in(0, n, lambda i: Select(a, i) == Select(b, i)), induct=2)
LEMMAS = [L_joinext]


def split_facts(t):
    n, a = SPLIT_LEN(t), SPLIT_ARR(t)
    return And(n >= 1, forall_in(0, n, lambda i: z3.Not(z3.Contains(Select(a, i), SL))), z3.Concat(JOIN(a, n - 1), Select(a, n - 1)) == t)


def h_split(E, s, fr, e, args):
    t = E.term(s, E.val(s, args[1]))
    v = E.load(s, E.canon(s, args[0]))
    s.assume(split_facts(t))
    E.assumed.add('boost::split cuts the text at every slash')
    a = E.fresh('parts', AS)
    s.assume(arr_eq(a, SPLIT_ARR(t), 0, SPLIT_LEN(t)))
    E.store(s, E.canon(s, args[0]), mkvec(v.sort(), SPLIT_LEN(t), SPLIT_ARR(t)))
    return [(s, args[0])]


def h_hash(E, s, fr, o, args, e):
    t = E.val(s, args[0])
    if z3.is_expr(t) and t.sort() == STR:
        h = HASH(t)
        s.assume(And(h >= 0, h < 2 ** 64))
        return [(s, h)]
    return None


def inv_ctor(v):
    g = v.ctx[0]
    for ni, i in v.idxs():
        yield '%s<=n' % ni, And(0 <= i, i <= g.len)
        yield 'good groups before %s' % ni, forall_in(0, i, lambda q: z3.Not(bad(Select(g.arr, q))))
        try:
            yield 'text of the first %s' % ni, v.this.m_qualified_name == JOIN(g.arr, i)
            yield 'groups kept', v.this.m_groups == g
            yield 'name kept', v.this.m_dataset_name == v.ctx[1]
        except (AttributeError, KeyError):
            pass


def hash_ok(q):
    return Or(q.m_hash == 0, q.m_hash == HASH(unwrap(q.m_qualified_name)))


def wf(q):
    g = q.m_groups
    return [('hash-cache', hash_ok(q)), ('text', unwrap(q.m_qualified_name) == z3.Concat(JOIN(g.arr, g.len), unwrap(q.m_dataset_name)))]


def ctor_bad(s):
    g = s[0]
    i = z3.FreshConst(I, 'i')
    return Or(Exists([i], And(0 <= i, i < g.len, bad(Select(g.arr, i)))), bad(unwrap(s[1])))


def text_bad(s):
    t = unwrap(s[0])
    i = z3.FreshConst(I, 'i')
    return Exists([i], And(0 <= i, i < SPLIT_LEN(t), z3.Length(Select(SPLIT_ARR(t), i)) == 0))


def belongs(s):
    a, g = s.this.m_groups, s[0].m_groups
    return And(a.len >= g.len + 1, forall_in(0, g.len, lambda q: Select(a.arr, q) == Select(g.arr, q)), Select(a.arr, g.len) == unwrap(s[0].m_dataset_name))


qn = lambda q: unwrap(q.m_qualified_name)
PR = ['C17']
PROV = X + 'XYDatasetProvider'


def mk_data(E):
    t = [t for t in E.tu.types if t['k'] == 'rec' and t['name'] == 'Euclid::XYDataset::XYDataset'][0]
    return E.S.of([ft for f, ft in E.S.user_fields(t['full']) if f == 'm_values'][0])


XYK = 'Euclid::XYDataset::XYDataset'
HAS = z3.Function('HAS', STR, B)
NGET = 'gets'


def DATA(E, key):
    return z3.Function('DATA', STR, mk_data(E))(key)


def LIST(E, key):
    t = [t for t in E.tu.types if t['k'] == 'rec' and t['name'] == 'std::vector' and 'QualifiedName' in t['s']][0]
    return z3.Function('LIST', STR, E.S.of(t))(key)


PARAM = z3.Function('PARAM', STR, STR, STR)


def h_provider_get(E, s, fr, e, this, args):
    q = wrap(E, E.val(s, args[0]))
    t = [t for t in E.tu.types if t['k'] == 'rec' and t['name'] == XYK and not t.get('const')][0]
    o = core.rset(E.S, E.fresh('provided', E.S.of(t)), 'm_values', DATA(E, qn(q)))
    E.oblige(s, 'precondition', z3.Not(Select(unwrap(E.fnctx.this.m_dataset.dom), qn(q))), e.get('l', ''), 'asked-only-for-a-name-not-in-the-cache')
    r = E.alloc(s, t, o)
    return [(s, If(HAS(qn(q)), unwrap(r), 0))]


def cache_ok(c, heap, st):
    """everything in the cache is what the provider answers"""
    E = c.E
    d, l = c.m_dataset, c.m_list_cache
    k = z3.FreshConst(STR, 'k')
    dom, val = unwrap(d.dom), unwrap(d.val)
    ld, lv = unwrap(l.dom), unwrap(l.val)
    ref = Select(val, k)
    return [('cached-data', ForAll([k], Implies(Select(dom, k), And(ref >= 0, ref < st.nref, (ref != 0) == HAS(k), Implies(ref != 0, unwrap(heap(XYK, ref).m_values) == DATA(E, k)))), patterns=[Select(dom, k)])),
            ('cached-lists', ForAll([k], Implies(Select(ld, k), Select(lv, k) == LIST(E, k)), patterns=[Select(ld, k)]))]


CONFIG = {
    'free_hooks': {'boost::algorithm::split': h_split, 'boost::split': h_split},
    'callable_hook': h_hash,
    'keyproj': {'Euclid::XYDataset::QualifiedName': (STR, lambda E, k: core.rget(E.S, k, 'm_qualified_name'))},
}
CONTRACTS = [
    Contract(Q + '{ctor}', sig=['vector<std::basic_string', 'basic_string'], props=PR, name=Q + 'QualifiedName(groups, name)', inv=inv_ctor,
             throws=lambda s: [('Elements::Exception', ctor_bad(s))],
             ensures=lambda s: [('groups', unwrap(s.this1.m_groups) == unwrap(s[0])), ('name', s.this1.m_dataset_name == s[1]),
                                ('text-joins-the-parts', qn(s.this1) == z3.Concat(JOIN(s[0].arr, s[0].len), unwrap(s[1]))), ('hash-cache', hash_ok(s.this1))]),
    Contract(X + 'getGroups', props=PR, ensures=lambda s: [('all-but-the-last-part', And(s.result.len == SPLIT_LEN(unwrap(s[0])) - 1, forall_in(0, s.result.len, lambda q: Select(s.result.arr, q) == Select(SPLIT_ARR(unwrap(s[0])), q)))), split_facts(unwrap(s[0]))]),
    Contract(X + 'getName', props=PR, ensures=lambda s: [('the-last-part', unwrap(s.result) == Select(SPLIT_ARR(unwrap(s[0])), SPLIT_LEN(unwrap(s[0])) - 1)), split_facts(unwrap(s[0]))]),
    Contract(Q + '{ctor}', sig=['const std::basic_string'], props=PR, name=Q + 'QualifiedName(text)',
             throws=lambda s: [('Elements::Exception', text_bad(s))],
             ensures=lambda s: [('text', qn(s.this1) == unwrap(s[0])), ('no-slash-in-the-name', z3.Not(bad(unwrap(s.this1.m_dataset_name)))),
                                ('no-slash-in-a-group', forall_in(0, s.this1.m_groups.len, lambda q: z3.Not(bad(Select(s.this1.m_groups.arr, q)))))] + wf(s.this1),
             hints=lambda s: [L_joinext(s.this1.m_groups.arr, SPLIT_ARR(unwrap(s[0])), s.this1.m_groups.len)]),
    Contract(Q + 'groups', props=PR, ensures=lambda s: [('value', unwrap(s.result) == unwrap(s.this.m_groups))]),
    Contract(Q + 'datasetName', props=PR, ensures=lambda s: [('value', unwrap(s.result) == unwrap(s.this.m_dataset_name))]),
    Contract(Q + 'qualifiedName', props=PR, ensures=lambda s: [('value', unwrap(s.result) == qn(s.this))]),
    Contract(Q + 'belongsInGroup', props=PR, ensures=lambda s: [('the-group-and-its-parents-are-a-prefix', unwrap(s.result) == belongs(s))]),
    Contract(Q + 'hash', props=PR, requires=lambda s: [('hash-cache', hash_ok(s.this))], modifies={'this': ['m_hash']},
             ensures=lambda s: [('hash-of-the-text', s.result == HASH(qn(s.this))), ('hash-cache', hash_ok(s.this1))]),
    Contract(Q + 'operator==', props=PR, requires=lambda s: [('l', hash_ok(s.this)), ('r', hash_ok(s[0]))], modifies={'this': ['m_hash']}, ensures=lambda s: [('hash-cache', hash_ok(s.this1)), ('equal-texts', unwrap(s.result) == (qn(s.this) == qn(s[0])))]),
    Contract(Q + 'operator!=', props=PR, requires=lambda s: [('l', hash_ok(s.this)), ('r', hash_ok(s[0]))], modifies={'this': ['m_hash']}, ensures=lambda s: [('hash-cache', hash_ok(s.this1)), ('different-texts', unwrap(s.result) == (qn(s.this) != qn(s[0])))]),
    Contract(Q + 'operator<', props=PR, requires=lambda s: [('l', hash_ok(s.this)), ('r', hash_ok(s[0]))], modifies={'this': ['m_hash']},
             ensures=lambda s: [('hash-cache', hash_ok(s.this1)), ('order-by-hash-then-text', unwrap(s.result) == Or(HASH(qn(s.this)) < HASH(qn(s[0])), And(HASH(qn(s.this)) == HASH(qn(s[0])), qn(s.this) < qn(s[0]))))]),
    Contract(Q + 'AlphabeticalComparator::operator()', props=PR, ensures=lambda s: [('order-of-the-texts', unwrap(s.result) == (qn(s[0]) < qn(s[1])))]),
    Contract(X + 'XYDataset::{ctor}', sig=['^std::vector'], props=PR, name=X + 'XYDataset(pairs)', ensures=lambda s: [('pairs', unwrap(s.this1.m_values) == unwrap(s[0]))]),
    Contract(X + 'XYDataset::factory', sig=['^std::vector'], props=PR, name=X + 'factory(pairs)', ensures=lambda s: [('pairs', unwrap(s.result.m_values) == unwrap(s[0]))]),
    Contract(X + 'XYDataset::factory', sig=['vector<double', 'vector<double'], props=PR, name=X + 'factory(x, y)', throws=lambda s: [('Elements::Exception', s[0].len != s[1].len)],
             ensures=lambda s: [('size', s.result.m_values.len == s[0].len),
                                ('x', forall_in(0, s[0].len, lambda q: wrap(s.E, Select(s.result.m_values.arr, q)).first == Select(s[0].arr, q))),
                                ('y', forall_in(0, s[0].len, lambda q: wrap(s.E, Select(s.result.m_values.arr, q)).second == Select(s[1].arr, q)))]),
    Contract(X + 'XYDataset::size', props=PR, ensures=lambda s: [('size', s.result == s.this.m_values.len)]),
    Contract(X + 'XYDataset::front', props=PR, requires=lambda s: [('some', s.this.m_values.len > 0)], ensures=lambda s: [('first', unwrap(s.result) == Select(s.this.m_values.arr, 0))]),
    Contract(X + 'XYDataset::back', props=PR, requires=lambda s: [('some', s.this.m_values.len > 0)], ensures=lambda s: [('last', unwrap(s.result) == Select(s.this.m_values.arr, s.this.m_values.len - 1))]),
    Contract(PROV + '::listContents', trusted='the listing is a function of the group', requires=lambda s: [('asked-only-for-a-group-not-in-the-cache', z3.Not(Select(unwrap(s.E.fnctx.this.m_list_cache.dom), unwrap(s[0]))))], ensures=lambda s: [unwrap(s.result) == LIST(s.E, unwrap(s[0]))], modifies={}),
    Contract(PROV + '::getDataset', trusted='the data set is a new object, its pairs a function of the name', handler=h_provider_get),
    Contract(PROV + '::getParameter', trusted='a parameter is a function of the name and keyword', ensures=lambda s: [unwrap(s.result) == PARAM(qn(s[0]), unwrap(s[1]))], modifies={}),
    Contract(X + 'CachedProvider::listContents', props=PR, requires=lambda s: cache_ok(s.this, s.heap0, s.pre), ensures=lambda s: [('what-the-provider-lists', unwrap(s.result) == LIST(s.E, unwrap(s[0]))), ('remembered', unwrap(s.this1.m_list_cache.dom) == z3.Store(unwrap(s.this.m_list_cache.dom), unwrap(s[0]), True))] + cache_ok(s.this1, s.heap1, s.post)),
    Contract(X + 'CachedProvider::getDataset', props=PR, requires=lambda s: cache_ok(s.this, s.heap0, s.pre),
             ensures=lambda s: [('found-exactly-when-the-provider-has-it', (s.result != 0) == HAS(qn(s[0]))),
                                ('same-data', Implies(s.result != 0, unwrap(s.heap1(XYK, s.result).m_values) == DATA(s.E, qn(s[0])))), ('remembered', unwrap(s.this1.m_dataset.dom) == z3.Store(unwrap(s.this.m_dataset.dom), qn(s[0]), True))] + cache_ok(s.this1, s.heap1, s.post)),
    Contract(X + 'CachedProvider::getParameter', props=PR, ensures=lambda s: [('what-the-provider-answers', unwrap(s.result) == PARAM(qn(s[0]), unwrap(s[1])))]),
]
