"""KdTree: radius queries.

A point is an opaque value, C(p, i) its coordinate i (the user's traits).  X is an arbitrary but fixed point: the contracts count how
often X is in a list or below a node (HELD, a constant of a node since nodes never change), so together they say that a query
returns every point as often as it was put in, if it is within the radius, and no other.  Three dimensions, four points per leaf."""
from cppvc.api import *
NAME = 'kdtree'
DRIVER = 'drivers/kdtree.cpp'
K = 'KdTree::KdTree::'
GHOSTS = {}
PT = z3.DeclareSort('Point')
AP = z3.ArraySort(I, PT)
C = z3.Function('COORD', PT, I, R)
HELD = z3.Function('HELD', I, I)
X = z3.Const('X', PT)
CNT = folds.count(PT)
FOLDS = [CNT]
DIM, LEAF = 3, 4
P = ['C05']


def within(c, r):
    d = [C(X, IntVal(i)) - unwrap(Select(unwrap(c.coord).sort().accessor(0, 1)(unwrap(c.coord)), i)) for i in range(DIM)]
    return sum(x * x for x in d[1:]) + d[0] * d[0] < unwrap(r) * unwrap(r)


def cnt(l):
    return CNT(l.arr, X, IntVal(0), l.len)


def arg(s):
    return [('radius-not-negative', s[1] >= 0)] + coordlen(s)


def coordlen(s):
    return []


def found(s, n):
    return [('each-as-often-as-held-within-the-radius', cnt(s.result) == If(within(s[0], s[1]), n, IntVal(0)))]


def inv_leaf(v):
    for ni, i in v.idxs():
        d = v.ctx.this.m_data
        yield '%s<=n' % ni, And(0 <= i, i <= d.len)
        for n, l in v.modified(None, lambda t: v.E.S.is_vec(t.sort()) and varr(t).sort() == AP):
            yield '%s has those before %s' % (n, ni), cnt(l) == If(within(v.ctx[0], v.ctx[1]), CNT(d.arr, X, IntVal(0), icast(i)), IntVal(0))


def split_wf(o):
    l, r, a, v = unwrap(o.m_left_child), unwrap(o.m_right_child), unwrap(o.m_axis), unwrap(o.m_split_value)
    return [('axis', And(0 <= a, a < DIM)), ('children', And(l > 0, r > 0)), ('left-not-above', Implies(HELD(l) > 0, C(X, a) <= v)), ('right-not-below', Implies(HELD(r) > 0, C(X, a) >= v)),
            ('counts', And(HELD(l) >= 0, HELD(r) >= 0))]


def bound_lemma(name, cmp):
    return Lemma(name, [('a', AP), ('x', PT), ('lo', I), ('hi', I), ('ax', I), ('v', R)],
                 lambda a, x, lo, hi, ax, v: Implies(And(0 <= lo, forall_in(lo, hi, lambda q: cmp(C(Select(a, q), ax), v))), And(CNT(a, x, lo, hi) >= 0, Implies(CNT(a, x, lo, hi) > 0, cmp(C(x, ax), v)))), induct=3)


L_low = bound_lemma('all-below', lambda a, b: a <= b)
L_high = bound_lemma('all-above', lambda a, b: a >= b)
L_pos = Lemma('count-not-negative', [('a', AP), ('x', PT), ('lo', I), ('hi', I)], lambda a, x, lo, hi: Implies(0 <= lo, CNT(a, x, lo, hi) >= 0), induct=3)
LEMMAS = [L_low, L_high, L_pos]


def split_hints(s):
    """the points in order, cut in the middle"""
    v, ax = unwrap(s.this1.m_split_value), unwrap(s[1])
    for k, d in s.post.env.items():
        if z3.is_expr(d) and s.E.S.is_vec(d.sort()) and varr(d).sort() == AP:
            yield touch(cnt(wrap(s.E, d)))
        if k[1] == s.fn['params'][0]['id'] and z3.is_expr(d):
            d = wrap(s.E, d)
            n, h = icast(d.len), icast(d.len) / 2
            yield CNT.split_at(d.arr, X, IntVal(0), h, n).at('keeps-its-points')
            yield L_low(d.arr, X, IntVal(0), h, ax, v).at('left-not-above')
            yield L_high(d.arr, X, h, n, ax, v).at('right-not-below')
            yield L_pos(d.arr, X, IntVal(0), h).at('counts')
            yield L_pos(d.arr, X, h, n).at('counts')


L_prune = Lemma('far-along-one-axis', [('d', R), ('e', R), ('f', R), ('r', R)], lambda d, e, f, r: Implies(And(r >= 0, Or(d > r, -d > r)), And(d * d + e * e + f * f > r * r, e * e + d * d + f * f > r * r, e * e + f * f + d * d > r * r)))
LEMMAS.append(L_prune)


def prune(s):
    d = [C(X, IntVal(i)) - unwrap(Select(unwrap(s[0].coord).sort().accessor(0, 1)(unwrap(s[0].coord)), i)) for i in range(DIM)]
    for d_ in [wrap(s.E, x) for x in s.post.env.values() if z3.is_expr(x) and s.E.S.is_vec(x.sort()) and varr(x).sort() == AP]:
        yield touch(cnt(d_))
    a = s.result
    for x in s.post.env.values():
        x = x if z3.is_expr(x) and s.E.S.is_vec(x.sort()) and varr(x).sort() == AP else None
        if x is not None:
            x = wrap(s.E, x)
            yield CNT.split_at(a.arr, X, IntVal(0), x.len, a.len)
    for i in range(DIM):
        yield L_prune(d[i], d[(i + 1) % 3], d[(i + 2) % 3], unwrap(s[1]))
        yield L_prune(d[i], d[(i + 2) % 3], d[(i + 1) % 3], unwrap(s[1]))


def h_coord(E, s, fr, e, args):
    E.assumed.add('the coordinates of a point depend on the point alone')
    return [(s, C(E.term(s, E.val(s, args[0])), unwrap(E.val(s, args[1]))))]


CONFIG = {'sorts': {'Point': PT}, 'free_hooks': {'KdTree::KdTreeTraits::getCoord': h_coord}, 'ghost_elems': lambda E, es: [X] if es == PT else [],
          'on_new': {r'::Leaf$': lambda E, s, r, o: [HELD(r) == cnt(o.m_data)], r'::Split$': lambda E, s, r, o: [HELD(r) == HELD(unwrap(o.m_left_child)) + HELD(unwrap(o.m_right_child))]}}
CONTRACTS = [
    Contract(K + 'Node::findPointsWithinRadius', trusted=True, setup='heapthis', requires=arg, ensures=lambda s: found(s, HELD(s.thisref))),
    Contract(K + 'Leaf::{ctor}', props=P, ensures=lambda s: [('keeps-its-points', unwrap(s.this1.m_data) == unwrap(s[0]))]),
    Contract(K + 'Leaf::findPointsWithinRadius', props=P, requires=arg, inv=inv_leaf, ensures=lambda s: found(s, cnt(s.this.m_data))),
    Contract(K + 'Split::{ctor}', props=P, hints=split_hints, requires=lambda s: [('more-than-a-leaf', s[0].len > LEAF), ('axis', And(0 <= unwrap(s[1]), unwrap(s[1]) < DIM))],
             ensures=lambda s: split_wf(s.this1) + [('keeps-its-points', HELD(unwrap(s.this1.m_left_child)) + HELD(unwrap(s.this1.m_right_child)) == cnt(s[0]))]),
    Contract(K + 'Split::findPointsWithinRadius', props=P, hints=prune, requires=lambda s: arg(s) + split_wf(s.this), ensures=lambda s: found(s, HELD(unwrap(s.this.m_left_child)) + HELD(unwrap(s.this.m_right_child)))),
    Contract(K + '{ctor}', props=P, ensures=lambda s: [('root', unwrap(s.this1.m_root) > 0), ('keeps-its-points', HELD(unwrap(s.this1.m_root)) == cnt(s[0]))]),
    Contract(K + 'findPointsWithinRadius', props=P, requires=lambda s: arg(s) + [('root', unwrap(s.this.m_root) > 0)], ensures=lambda s: found(s, HELD(unwrap(s.this.m_root)))),
]
