"""Configuration: wildcard options.

An option value is opaque; only the names of the entries matter."""
from cppvc.api import *
NAME = 'wild'
DRIVER = 'drivers/wild.cpp'
Q = 'Euclid::Configuration::ProgramOptionsHelper::'
GHOSTS = {}
FOLDS = []
STR = z3.StringSort()
VAL = z3.DeclareSort('Value')
P = ['C24']


EMPTY = z3.StringVal('')
# texts are reasoned about through these definitions (unfolded in the lemmas, opaque in the loops)
LEN = specfn('tlen', [STR], I, lambda t: z3.Length(t))
STARTS = specfn('starts', [STR, STR], B, lambda t, o: z3.PrefixOf(o, t))
TAIL = specfn('tail', [STR, I], STR, lambda t, n: z3.SubString(t, n, z3.Length(t) - n))
CODE = specfn('code', [STR, I], I, lambda t, i: z3.StrToCode(z3.SubString(t, i, 1)))
KEY = specfn('key', [STR, STR], STR, lambda o, x: z3.Concat(o, z3.StringVal('-'), x))
DASH = ord('-')


def h_starts(E, s, fr, e, args):
    a, b = E.term(s, E.val(s, args[0])), E.term(s, E.val(s, args[1]))
    return [(s, STARTS(a, b))]


def text_hook(name):
    def h(E, s, fr, e, o, args):
        if E.fnctx is None or E.fnctx.fn['q'] != Q + 'findWildcardNames':
            return None
        v = E.val(s, o)
        a = [E.val(s, x) for x in args]
        if name == 'size':
            return [(s, LEN(v))]
        if name == 'empty':
            return [(s, LEN(v) == 0)]
        if name == 'operator[]':
            E.oblige(s, 'safety', And(a[0] >= 0, a[0] <= LEN(v)), e['l'], 'string-index-in-bounds')
            return [(s, CODE(v, a[0]))]
        if len(a) == 1 or z3.is_int_value(a[1]) and a[1].as_long() == 2 ** 64 - 1:
            E.oblige(s, 'safety', And(a[0] >= 0, a[0] <= LEN(v)), e['l'], 'substr-start-in-range')
            return [(s, TAIL(v, a[0]))]
        return None
    return h


Sv = lambda *n: [(x, STR) for x in n]
L_inst = Lemma('an entry of the option with a dash', Sv('k', 'o'), lambda k, o: And(KEY(o, TAIL(TAIL(k, LEN(o)), IntVal(1))) == k, TAIL(k, LEN(o)) != EMPTY),
               hyp=lambda k, o: And(STARTS(k, o), LEN(TAIL(k, LEN(o))) > 0, CODE(TAIL(k, LEN(o)), IntVal(0)) == DASH))
L_self = Lemma('an entry that is the option', Sv('k', 'o'), lambda k, o: And(LEN(o) <= LEN(k), (LEN(TAIL(k, LEN(o))) == 0) == (k == o), (LEN(TAIL(k, LEN(o))) == 0) == (TAIL(k, LEN(o)) == EMPTY)), hyp=lambda k, o: STARTS(k, o))
L_key = Lemma('the entry of an instance', Sv('o', 'x'), lambda o, x: And(STARTS(KEY(o, x), o), LEN(TAIL(KEY(o, x), LEN(o))) > 0, CODE(TAIL(KEY(o, x), LEN(o)), IntVal(0)) == DASH, TAIL(TAIL(KEY(o, x), LEN(o)), IntVal(1)) == x, KEY(o, x) != o))
L_own = Lemma('an option starts with itself', Sv('k', 'o'), lambda k, o: STARTS(k, o), hyp=lambda k, o: k == o)
L_len = Lemma('lengths', Sv('k'), lambda k: LEN(k) >= 0)
LEMMAS = [L_inst, L_self, L_key, L_own, L_len]


def facts(s):
    return [L_inst.forall(lambda k, o: STARTS(k, o), None, None), L_self.forall(lambda k, o: STARTS(k, o), None, None), L_key.forall(lambda o, x: KEY(o, x), None, None),
            L_own.forall(lambda k, o: STARTS(k, o), None, None), L_len.forall(lambda k: LEN(k), None)]


CONFIG = {'sorts': {'boost::program_options::variable_value': VAL}, 'free_hooks': {'boost::starts_with': h_starts, 'boost::algorithm::starts_with': h_starts},
          'method_hooks': {('std::basic_string', n): text_hook(n) for n in ('size', 'empty', 'operator[]', 'substr')}}


def opts(s):
    return unwrap(s[1].dom)


def has(s, o, x):
    """some entry is option o with instance x"""
    d = opts(s)
    return Or(Select(d, KEY(o, x)), And(x == EMPTY, Select(d, o)))


def pos(m, k):
    m = unwrap(m)
    return z3.Function('keypos_' + re.sub(r'\W+', '_', str(m.sort())), m.sort(), STR, I)(m, k)


def passed(s, o, x, j):
    """... among the first j entries"""
    d, k = opts(s), KEY(o, x)
    return Or(And(Select(d, k), pos(s[1], k) < j), And(x == EMPTY, Select(d, o), pos(s[1], o) < j))


def FA(vs, body, *pats):
    if 'If(' in str(pats):  # a goal whose set is an if-then-else
        return ForAll(vs, body)
    return ForAll(vs, body, patterns=list(pats))


def exactly(s, dom, upto, more=None):
    """dom = the instances of the options before upto (and those of more)"""
    x = z3.FreshConst(STR, 'x')
    q = z3.FreshConst(STR, 'y')
    l = s[0]
    w = lambda x: exists_in(0, upto, lambda q: has(s, Select(l.arr, q), x))
    e1 = w(x) if more is None else Or(w(x), more(x))
    i = z3.FreshConst(I, 'i')
    r = [('only-instances', FA([x], Implies(Select(dom, x), e1), Select(dom, x))),
         ('every-instance', FA([i, q], Implies(And(0 <= i, i < upto, has(s, Select(l.arr, i), q)), Select(dom, q)), z3.MultiPattern(Select(l.arr, i), Select(dom, q))))]
    if more is not None:
        y = z3.FreshConst(STR, 'z')
        r.append(('every-instance-passed', FA([y], Implies(more(y), Select(dom, y)), Select(dom, y))))
    return r


def inv_find(v):
    s = v.ctx
    sets = v.modified(None, lambda t: 'Set_' in t.sort().name())
    ix = v.idxs()
    # inside: an outer counter is one this loop leaves alone
    outer = [x for key, x in v.st.env.items() for info in [v.E.varinfo.get(key)] if info and info[0] == '$idx' and not any(x is y or x.eq(y) for _, y in ix)]
    for ni, i in ix:
        yield '%s<=%s' % (ni, 'entries' if outer else 'names'), And(0 <= i, i <= (s[1].n if outer else s[0].len))
        for n, t in sets:
            if not outer:
                for a, f in exactly(s, unwrap(t.dom), i):
                    yield '%s %s before %s' % (n, a, ni), f
            for c in outer:
                o = Select(s[0].arr, c)
                for a, f in exactly(s, unwrap(t.dom), c, lambda x: passed(s, o, x, i)):
                    yield '%s %s of the entries before %s' % (n, a, ni), f


CONTRACTS = [
    Contract(Q + 'wildcard', props=P, ensures=lambda s: [('name-dash-instance', unwrap(s.result) == z3.Concat(unwrap(s[0]), z3.StringVal('-'), unwrap(s[1])))]),
    Contract(Q + 'findWildcardNames', props=P, conf={'fuel': 0}, lemmas=facts, inv=inv_find, ensures=lambda s: exactly(s, unwrap(s.result.dom), s[0].len)),
]
