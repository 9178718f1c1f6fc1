"""GridContainer: axes, index arithmetic, cell access, slices and iteration, instantiated with three axes and a cell manager whose
iterator is a position.

A coordinate (c0, c1, c2) of a grid with n0 x n1 x n2 cells has position c0 + n0*c1 + n0*n1*c2."""
from cppvc.api import *
NAME = 'grid'
DRIVER = 'drivers/grid.cpp'
G = 'Euclid::GridContainer::'
GHOSTS = {}
FOLDS = []
AXIS = G + 'GridAxis::'
IH = G + 'GridIndexHelper::'
GC = G + 'GridContainer::'
IT = GC + 'iter::'
CELLS = 'cppvc_driver::Cells'

L_mult = Lemma('no-multiple-strictly-between', [('a', I), ('d', I)], lambda a, d: d == 0, hyp=lambda a, d: And(a > 0, a * d < a, a * d > -a))
# a number p = a*x + r with 0 <= r < a has quotient x and remainder r
L_div = Lemma('division-is-unique', [('p', I), ('a', I), ('x', I), ('r', I)], lambda p, a, x, r: And(p / a == x, p % a == r),
              hyp=lambda p, a, x, r: And(a > 0, 0 <= r, r < a, p == a * x + r), using=lambda p, a, x, r: [L_mult(a, p / a - x)])
L_below = Lemma('digit-below', [('a', I), ('b', I), ('R', I), ('r', I)], lambda a, b, R, r: And(0 <= a * R + r, a * R + r < a * b), hyp=lambda a, b, R, r: And(a > 0, 0 <= r, r < a, 0 <= R, R < b))
L_modmul = Lemma('remainder-then-quotient', [('p', I), ('a', I), ('b', I)], lambda p, a, b: And((p % (a * b)) / a == (p / a) % b, (p % (a * b)) % a == p % a, p / (a * b) == (p / a) / b),
                 hyp=lambda p, a, b: And(a > 0, b > 0, p >= 0),
                 using=lambda p, a, b: [L_below(a, b, (p / a) % b, p % a), L_div(p, a * b, (p / a) / b, a * ((p / a) % b) + p % a), L_div(a * ((p / a) % b) + p % a, a, (p / a) % b, p % a)])


def co(n, p):
    return [p % n[0], (p / n[0]) % n[1], (p / (n[1] * n[0])) % n[2]]


def pos(n, c):
    return c[0] + n[0] * c[1] + n[0] * n[1] * c[2]


def size3(n):
    return n[2] * (n[1] * n[0])


V3 = [('n0', I), ('n1', I), ('n2', I)]
C3 = [('c0', I), ('c1', I), ('c2', I)]


def in3(n, c):
    return And(*[And(0 <= c[i], c[i] < n[i]) for i in range(3)])


# the coordinates of the position of (c0, c1, c2) are c0, c1, c2, and the position is below the number of cells
L_there = Lemma('coordinates-of-a-position', V3 + C3, lambda n0, n1, n2, c0, c1, c2: And(0 <= pos([n0, n1, n2], [c0, c1, c2]), pos([n0, n1, n2], [c0, c1, c2]) < size3([n0, n1, n2]),
                *[co([n0, n1, n2], pos([n0, n1, n2], [c0, c1, c2]))[i] == [c0, c1, c2][i] for i in range(3)]), hyp=lambda n0, n1, n2, c0, c1, c2: in3([n0, n1, n2], [c0, c1, c2]),
                using=lambda n0, n1, n2, c0, c1, c2: [L_below(n0, n1, c1, c0), L_below(n1 * n0, n2, c2, c0 + n0 * c1), L_div(pos([n0, n1, n2], [c0, c1, c2]), n0, c1 + n1 * c2, c0), L_div(c1 + n1 * c2, n1, c2, c1),
                                                        L_div(pos([n0, n1, n2], [c0, c1, c2]), n1 * n0, c2, c0 + n0 * c1), L_div(c2, n2, IntVal(0), c2)])
# the position of the coordinates of p is p
L_back = Lemma('position-of-the-coordinates', V3 + [('p', I)], lambda n0, n1, n2, p: And(pos([n0, n1, n2], co([n0, n1, n2], p)) == p, in3([n0, n1, n2], co([n0, n1, n2], p))),
               hyp=lambda n0, n1, n2, p: And(n0 > 0, n1 > 0, n2 > 0, 0 <= p, p < size3([n0, n1, n2])),
               using=lambda n0, n1, n2, p: [L_modmul(p, n0, n1), L_modmul(p, n1 * n0, n2), L_div(p, size3([n0, n1, n2]), IntVal(0), p)])


def odo3(n, c, b):
    """the next cell with the fixed coordinates: the free coordinates count up like an odometer, the first one fastest"""
    r0 = If(b[0], c[0], 0)
    r1 = If(b[1], c[1], 0)
    return If(And(Not(b[0]), c[0] + 1 < n[0]), pos(n, [c[0] + 1, c[1], c[2]]), If(And(Not(b[1]), c[1] + 1 < n[1]), pos(n, [r0, c[1] + 1, c[2]]), If(And(Not(b[2]), c[2] + 1 < n[2]), pos(n, [r0, r1, c[2] + 1]), size3(n))))


def lex(c, d):
    return Or(c[2] < d[2], And(c[2] == d[2], Or(c[1] < d[1], And(c[1] == d[1], c[0] < d[0]))))


N9 = V3 + C3 + [('d0', I), ('d1', I), ('d2', I)]
B3 = [('b0', B), ('b1', B), ('b2', B)]
L_row = Lemma('a-later-row-is-further', [('a', I), ('x', I), ('y', I), ('r', I), ('t', I)], lambda a, x, y, r, t: a * x + r < a * y + t, hyp=lambda a, x, y, r, t: And(a > 0, x < y, 0 <= r, r < a, 0 <= t))


def lexpos(a, n, c, d):
    return Implies(lex(c, d), pos(n, c) < pos(n, d))


def lex_using(n0, n1, n2, c0, c1, c2, d0, d1, d2):
    out = []
    for c, d in (((c0, c1, c2), (d0, d1, d2)), ((d0, d1, d2), (c0, c1, c2))):
        out += [L_row(n0 * n1, c[2], d[2], c[0] + n0 * c[1], d[0] + n0 * d[1]), L_row(n0, c[1], d[1], c[0], d[0]), L_below(n0, n1, c[1], c[0])]
    return out


# positions are ordered like the coordinates read from the last axis to the first
L_lex = Lemma('positions-are-ordered-by-coordinates', N9, lambda n0, n1, n2, c0, c1, c2, d0, d1, d2: (pos([n0, n1, n2], [c0, c1, c2]) < pos([n0, n1, n2], [d0, d1, d2])) == lex([c0, c1, c2], [d0, d1, d2]),
              hyp=lambda n0, n1, n2, c0, c1, c2, d0, d1, d2: And(in3([n0, n1, n2], [c0, c1, c2]), in3([n0, n1, n2], [d0, d1, d2])), using=lex_using)


def next_using(n0, n1, n2, c0, c1, c2, d0, d1, d2, b0, b1, b2):
    r0, r1 = If(b0, c0, 0), If(b1, c1, 0)
    z = (d0, d1, d2)
    return [L_lex(n0, n1, n2, c0, c1, c2, *z), L_lex(n0, n1, n2, d0, d1, d2, c0 + 1, c1, c2), L_lex(n0, n1, n2, d0, d1, d2, r0, c1 + 1, c2), L_lex(n0, n1, n2, d0, d1, d2, r0, r1, c2 + 1)]


# no cell with the fixed coordinates lies between a cell and the one the iterator moves on to
L_next = Lemma('the-next-cell-is-the-closest', N9 + B3, lambda n0, n1, n2, c0, c1, c2, d0, d1, d2, b0, b1, b2: pos([n0, n1, n2], [d0, d1, d2]) >= odo3([n0, n1, n2], [c0, c1, c2], [b0, b1, b2]),
               hyp=lambda n0, n1, n2, c0, c1, c2, d0, d1, d2, b0, b1, b2: And(in3([n0, n1, n2], [c0, c1, c2]), in3([n0, n1, n2], [d0, d1, d2]), Implies(b0, c0 == d0), Implies(b1, c1 == d1), Implies(b2, c2 == d2),
                                                                                    pos([n0, n1, n2], [c0, c1, c2]) < pos([n0, n1, n2], [d0, d1, d2])), using=next_using)
# it is later, and has the fixed coordinates unless it is the end
L_odo = Lemma('the-next-cell-keeps-the-fixed-coordinates', V3 + C3 + B3, lambda n0, n1, n2, c0, c1, c2, b0, b1, b2: And(odo3([n0, n1, n2], [c0, c1, c2], [b0, b1, b2]) > pos([n0, n1, n2], [c0, c1, c2]), Or(odo3([n0, n1, n2], [c0, c1, c2], [b0, b1, b2]) == size3([n0, n1, n2]),
              And(*[Implies([b0, b1, b2][i], co([n0, n1, n2], odo3([n0, n1, n2], [c0, c1, c2], [b0, b1, b2]))[i] == [c0, c1, c2][i]) for i in range(3)]))),
              hyp=lambda n0, n1, n2, c0, c1, c2, b0, b1, b2: in3([n0, n1, n2], [c0, c1, c2]),
              using=lambda n0, n1, n2, c0, c1, c2, b0, b1, b2: [L_there(n0, n1, n2, c0, c1, c2), L_there(n0, n1, n2, c0 + 1, c1, c2), L_there(n0, n1, n2, If(b0, c0, 0), c1 + 1, c2), L_there(n0, n1, n2, If(b0, c0, 0), If(b1, c1, 0), c2 + 1),
                                                                L_lex(n0, n1, n2, c0, c1, c2, c0 + 1, c1, c2), L_lex(n0, n1, n2, c0, c1, c2, If(b0, c0, 0), c1 + 1, c2), L_lex(n0, n1, n2, c0, c1, c2, If(b0, c0, 0), If(b1, c1, 0), c2 + 1)])
LEMMAS = [L_mult, L_div, L_below, L_modmul, L_there, L_back, L_row, L_lex, L_next, L_odo]



def ax(t, i):
    return getattr(t, 'e%d' % i)


def sizes(t):
    return [ax(t, i).m_values.len for i in range(3)]


def helper_ok(h, t):
    n = sizes(t)
    f, z, m = h.m_axes_index_factors, h.m_axes_sizes, h.m_axes_names
    fac = [IntVal(1), n[0], n[1] * n[0], n[2] * (n[1] * n[0])]
    return And(f.len == 4, z.len == 3, m.len == 3, *([Select(f.arr, i) == fac[i] for i in range(4)] + [Select(z.arr, i) == n[i] for i in range(3)]
               + [Select(m.arr, i) == unwrap(ax(t, i).m_name) for i in range(3)]))


def helper_facts(s):
    h = s.this
    f, z = h.m_axes_index_factors, h.m_axes_sizes
    n = [Select(z.arr, i) for i in range(3)]
    return n, And(f.len == 4, z.len == 3, h.m_axes_names.len == 3, Select(f.arr, 0) == 1, Select(f.arr, 1) == n[0], Select(f.arr, 2) == n[1] * n[0], Select(f.arr, 3) == n[2] * (n[1] * n[0]))


P6 = ['C06']
P7 = ['C07']


def tot(s):
    n, ok = helper_facts(s)
    return pos(n, [s[0], s[1], s[2]])


def out_of(s):
    n, ok = helper_facts(s)
    return Or(*[s[i] >= n[i] for i in range(3)])


def h_axisindex(s):
    n, ok = helper_facts(s)
    p = s[1]
    return If(s[0] == 0, p % n[0], If(s[0] == 1, (p / n[0]) % n[1], (p / (n[1] * n[0])) % n[2]))


def cells_len(heap, g):
    return heap(CELLS, unwrap(g.m_cell_manager)).m_values.len


def fixed(g, a):
    return Select(unwrap(g.m_fixed_indices.dom), a)


def fix_at(g, a):
    return Select(unwrap(g.m_fixed_indices.val), a)


def fixed_keys(m):
    k = z3.FreshConst(I, 'k')
    d = unwrap(m.dom)
    some = Or(*[Select(d, IntVal(i)) for i in range(3)])
    return And(ForAll([k], Implies(Select(d, k), Or(k == 0, k == 1, k == 2)), patterns=[Select(d, k)]), m.n >= 0, (m.n == 0) == Not(some))


def axis_of_slice(g, i):
    o, f = ax(g.m_axes, i), ax(g.m_axes_fixed, i)
    one = And(f.m_values.len == 1, Select(f.m_values.arr, 0) == Select(o.m_values.arr, fix_at(g, i)), fix_at(g, i) < o.m_values.len, fix_at(g, i) >= 0)
    return And(unwrap(f.m_name) == unwrap(o.m_name), If(fixed(g, i), one, unwrap(f.m_values) == unwrap(o.m_values)))


def wf(g, heap, st, positive=True):
    r = unwrap(g.m_cell_manager)
    n = sizes(g.m_axes)
    return [('index-helper', helper_ok(g.m_index_helper, g.m_axes)), ('fixed-keys', fixed_keys(g.m_fixed_indices)),
            ('axes-of-the-slice', And(*[axis_of_slice(g, i) for i in range(3)])), ('index-helper-of-the-slice', helper_ok(g.m_index_helper_fixed, g.m_axes_fixed)),
            ('cells', And(r > 0, r < st.nref, cells_len(heap, g) == size3(n)))]


def wf0(s):
    return wf(s.this, s.heap0, s.pre)


def full(g, c):
    """coordinates in the whole grid of the coordinates c of the slice"""
    return [If(fixed(g, i), fix_at(g, i), c[i]) for i in range(3)]


def in_slice(g, c):
    return And(*[And(0 <= c[i], c[i] < If(fixed(g, i), 1, sizes(g.m_axes)[i])) for i in range(3)])


def cell_ref(s):
    g = s.this
    dt = [t for t in s.E.tu.types if t['k'] == 'float' and t['bits'] == 64 and not t.get('const')][0]
    return LVal(('h', CELLS, unwrap(g.m_cell_manager)), (('f', 'm_values'), ('i', pos(sizes(g.m_axes), full(g, [s[0], s[1], s[2]])))), dt)


def h_there(g, c):
    return [L_there(*(sizes(g.m_axes) + full(g, c)))]


def slice_of(g1, g, a, idx):
    """g1 is g with axis a fixed at index idx: same axes and cells, one more fixed axis"""
    return [('same-axes', And(*[unwrap(ax(g1.m_axes, i)) == unwrap(ax(g.m_axes, i)) for i in range(3)])), ('same-cells', g1.m_cell_manager == g.m_cell_manager),
            ('one-more-fixed', And(*[And(fixed(g1, i) == Or(fixed(g, i), a == i), Implies(fixed(g1, i), fix_at(g1, i) == If(a == i, idx, fix_at(g, i)))) for i in range(3)]))]


def tidx(f):
    m = re.search(r'ILi(\d)E', f['m'])
    return int(m.group(1)) if m else None


def T(i):
    return lambda ps, f: tidx(f) == i


def first_knot(g, i, v, j):
    o = ax(g.m_axes, i).m_values
    return And(0 <= j, j < o.len, Select(o.arr, j) == v, forall_in(0, j, lambda q: Select(o.arr, q) != v))


def no_knot(g, i, v):
    o = ax(g.m_axes, i).m_values
    return forall_in(0, o.len, lambda q: Select(o.arr, q) != v)


def value_slice(s, i):
    g1, g = s.result, s.this
    j = fix_at(g1, i)
    return [('the-knot-with-the-value', first_knot(g, i, s[0], j))] + slice_of(g1, g, IntVal(i), j) + wf(g1, s.heap1, s.post)


# ------------------------------------------------------------------ iterator
def own(it):
    return it.m_owner


def nn(it):
    return sizes(own(it).m_axes)


def factor(n, a):
    return [IntVal(1), n[0], n[1] * n[0], n[2] * (n[1] * n[0])][a]


def quo(p, n, a):
    return p if a == 0 else p / factor(n, a)


def it_pos(it):
    return it.m_data_iter.m_pos


def it_wf(it, heap, st):
    n = nn(it)
    return wf(own(it), heap, st) + [('no-empty-axis', And(*[x > 0 for x in n])), ('cells-of-the-grid', it.m_data_iter.m_cells == own(it).m_cell_manager), ('fixed-keys-of-the-iterator', fixed_keys(it.m_fixed_indices)),
                                    ('fixed-indices-in-range', And(*[Implies(fixed(it, i), And(0 <= fix_at(it, i), fix_at(it, i) < n[i])) for i in range(3)]))]


def matches(it, p):
    n = nn(it)
    c = co(n, p)
    return And(*[Implies(fixed(it, i), c[i] == fix_at(it, i)) for i in range(3)])


def at_cell(it):
    """the iterator points at a cell with the fixed coordinates, or at the end"""
    p = it_pos(it)
    N = size3(nn(it))
    return And(0 <= p, p <= N, Or(p == N, matches(it, p)))


def it_frame(a, b):
    return [('same-grid', unwrap(own(a)) == unwrap(own(b))), ('same-cells', a.m_data_iter.m_cells == b.m_data_iter.m_cells)]


def fwd_spec(it0, it1, a, fi):
    n = nn(it0)
    p, p1 = it_pos(it0), it_pos(it1)
    q = quo(p, n, a)
    cur = q % n[a]
    d = If(cur == fi, 0, If(fi > cur, fi - cur, n[a] + fi - cur))
    q1 = quo(p1, n, a)
    r = [p1 == p + d * factor(n, a), q1 == q + d, q1 % n[a] == fi, q1 / n[a] == q / n[a] + If(cur > fi, 1, 0)]
    if a > 0:
        r.append(p1 % factor(n, a) == p % factor(n, a))
    return And(*r)


def fwd(s):
    return [('steps-along-axis-%d' % a, Implies(s[0] == a, fwd_spec(s.this, s.this1, a, s[1]))) for a in range(3)]


def fwd_hints(s):
    out = []
    n = nn(s.this)
    p = it_pos(s.this)
    for a in range(3):
        f = factor(n, a)
        q = quo(p, n, a)
        cur = q % n[a]
        d = If(cur == s[1], 0, If(s[1] > cur, s[1] - cur, n[a] + s[1] - cur))
        if a > 0:
            out.append(L_div(p + d * f, f, q + d, p % f))
        out.append(L_div(q + d, n[a], q / n[a] + If(cur > s[1], 1, 0), s[1]))
    return out


def odo(it):
    return odo3(nn(it), co(nn(it), it_pos(it)), [fixed(it, i) for i in range(3)])


def inc_hints(s):
    it = s.this
    n = nn(it)
    p = it_pos(it)
    c = co(n, p)
    u = p / n[0]
    out = [L_back(*(n + [p])), L_modmul(p, n[0], n[1]), L_modmul(p, n[1] * n[0], n[2])]
    p1 = p + 1
    out += [L_div(p1, n[0], u, c[0] + 1), L_div(p1, n[0], u + 1, IntVal(0)), L_modmul(p1, n[0], n[1])]
    out += [L_div(u + 1, n[1], c[2], c[1] + 1), L_div(u + 1, n[1], c[2] + 1, IntVal(0)), L_div(u, n[1], c[2], c[1])]
    out += [L_div(c[2] + 1, n[2], IntVal(0), c[2] + 1), L_div(c[2] + 1, n[2], IntVal(1), IntVal(0)), L_div(c[2], n[2], IntVal(0), c[2])]
    p2 = it_pos(s.this1)
    return out


def fixi(s, i):
    """fixing axis i at an index moves on to the next position with that index on the axis"""
    a, b = s.this1, s.this
    return [('position', fwd_spec(b, a, i, s[0])), ('one-more-fixed', And(*[And(fixed(a, j) == (True if j == i else fixed(b, j)), Implies(fixed(a, j), fix_at(a, j) == (s[0] if i == j else fix_at(b, j)))) for j in range(3)])),
            ('fixed-keys', fixed_keys(a.m_fixed_indices))] + it_frame(a, b)


def begin_pos(g, n):
    return pos(n, [If(fixed(g, i), fix_at(g, i), 0) for i in range(3)])


def begin_spec(s):
    it, g = s.result, s.this
    n = sizes(g.m_axes)
    return [('first-cell-of-the-slice', it_pos(it) == begin_pos(g, n)), ('grid', unwrap(own(it)) == unwrap(g)), ('cells', it.m_data_iter.m_cells == g.m_cell_manager),
            ('fixed-as-in-the-slice', And(*[And(fixed(it, i) == fixed(g, i), Implies(fixed(g, i), fix_at(it, i) == fix_at(g, i))) for i in range(3)]))]


def begin_hints(s):
    g = s.this
    n = sizes(g.m_axes)
    F = [If(fixed(g, i), fix_at(g, i), 0) for i in range(3)]
    return [L_there(*(n + F)), L_there(*(n + [F[0], F[1], IntVal(0)])), L_there(*(n + [F[0], IntVal(0), IntVal(0)])), L_there(*(n + [IntVal(0), IntVal(0), IntVal(0)]))]


def val_fix(s, i):
    a = s.this1
    b = s.this
    j = fix_at(a, i)
    return [('the-knot-with-the-value', first_knot(own(b), i, s[0], j)), ('position', fwd_spec(b, a, i, j)), ('one-more-fixed', And(*[And(fixed(a, q) == (True if q == i else fixed(b, q)), Implies(fixed(a, q), fix_at(a, q) == (j if i == q else fix_at(b, q)))) for q in range(3)]))] + it_frame(a, b)


def val_clash(s, i):
    o = ax(own(s.this).m_axes, i).m_values
    j = fix_at(s.this, i)
    return And(fixed(s.this, i), Not(first_knot(own(s.this), i, s[0], j)))


def sorted_axis(a):
    v = a.m_values
    q, t = z3.FreshConst(I, 'q'), z3.FreshConst(I, 't')
    return And(v.len > 0, ForAll([q, t], Implies(And(0 <= q, q <= t, t < v.len), Select(v.arr, q) <= Select(v.arr, t)), patterns=[z3.MultiPattern(Select(v.arr, q), Select(v.arr, t))]))


def infimum_of(a, v, r):
    """r is the last knot not above v, or the first knot"""
    k = a.m_values
    return And(0 <= r, r < k.len, Or(Select(k.arr, r) <= v, r == 0), forall_in(0, k.len, lambda q: Implies(q > r, Select(k.arr, q) > v)))


def cell_of(s):
    dt = [t for t in s.E.tu.types if t['k'] == 'float' and t['bits'] == 64 and not t.get('const')][0]
    return LVal(('h', CELLS, unwrap(s.this.m_data_iter.m_cells)), (('f', 'm_values'), ('i', unwrap(it_pos(s.this)))), dt)


IT_CONTRACTS = [
    Contract(AXIS + 'infimum', props=P7, inline=True, requires=lambda s: [('sorted', sorted_axis(s.this))], ensures=lambda s: [('last-knot-not-above', infimum_of(s.this, s[0], s.result.idx))]),
    Contract(GC + 'infimum', sig=['tuple'], props=P7, name=GC + 'infimum(tuple)', requires=lambda s: [('sorted', And(*[sorted_axis(ax(s.this.m_axes, i)) for i in range(3)]))], ensures=lambda s: [('axis-%d' % i, infimum_of(ax(s.this.m_axes, i), getattr(s[0], 'e%d' % i), getattr(s.result, 'e%d' % i))) for i in range(3)]),
    Contract(GC + 'infimum', sig=['double', 'double', 'double'], props=P7, name=GC + 'infimum(values)', requires=lambda s: [('sorted', And(*[sorted_axis(ax(s.this.m_axes, i)) for i in range(3)]))], ensures=lambda s: [('axis-%d' % i, infimum_of(ax(s.this.m_axes, i), s[i], getattr(s.result, 'e%d' % i))) for i in range(3)]),
    Contract(IT + 'operator==', props=P6, ensures=lambda s: [('same-position', unwrap(s.result) == (it_pos(s.this) == it_pos(s[0])))]),
    Contract(IT + 'operator!=', props=P6, ensures=lambda s: [('other-position', unwrap(s.result) == (it_pos(s.this) != it_pos(s[0])))]),
    Contract(IT + 'operator=', props=P6, ref=lambda s: s.this_lv, ensures=lambda s: [('position', unwrap(s.this1.m_data_iter) == unwrap(s[0].m_data_iter)), ('fixed', unwrap(s.this1.m_fixed_indices) == unwrap(s[0].m_fixed_indices))]),
    Contract(IT + 'operator*', props=P6, requires=lambda s: it_wf(s.this, s.heap0, s.pre) + [('at-a-cell', And(0 <= it_pos(s.this), it_pos(s.this) < size3(nn(s.this))))], modifies={}, ref=cell_of),
    Contract(IT + '{ctor}', sig=['GridContainer', 'Cells::iterator'], props=P6, name=IT + 'iter(grid, position)', ensures=lambda s: [('grid', unwrap(own(s.this1)) == unwrap(s[0])), ('position', unwrap(s.this1.m_data_iter) == unwrap(s[1])), ('nothing-fixed', And(s.this1.m_fixed_indices.n == 0, *[Not(fixed(s.this1, i)) for i in range(3)])), ('fixed-keys', fixed_keys(s.this1.m_fixed_indices))]),
    Contract(IT + 'forwardToIndex', props=P6, requires=lambda s: it_wf(s.this, s.heap0, s.pre) + [('axis', s[0] < 3), ('index', And(*[Implies(s[0] == i, s[1] < nn(s.this)[i]) for i in range(3)]))],
             ensures=lambda s: fwd(s) + it_frame(s.this1, s.this) + [('fixed', unwrap(s.this1.m_fixed_indices) == unwrap(s.this.m_fixed_indices))], hints=fwd_hints),
    Contract(IT + 'operator++', props=P6, ref=lambda s: s.this_lv, requires=lambda s: it_wf(s.this, s.heap0, s.pre) + [('at-a-cell', And(at_cell(s.this), it_pos(s.this) < size3(nn(s.this))))],
             ensures=lambda s: [('next-cell', it_pos(s.this1) == odo(s.this)), ('fixed', unwrap(s.this1.m_fixed_indices) == unwrap(s.this.m_fixed_indices))] + it_frame(s.this1, s.this), hints=inc_hints),
    Contract(GC + 'begin', props=P6, name=GC + 'begin', requires=lambda s: wf0(s) + [('no-empty-axis', And(*[x > 0 for x in sizes(s.this.m_axes)]))], ensures=begin_spec, hints=begin_hints),
    Contract(GC + 'cbegin', props=P6, name=GC + 'cbegin', requires=lambda s: wf0(s) + [('no-empty-axis', And(*[x > 0 for x in sizes(s.this.m_axes)]))], ensures=begin_spec, hints=begin_hints),
] + [Contract(GC + nm, props=P6, name=GC + nm, requires=wf0, ensures=lambda s: [('end', it_pos(s.result) == size3(sizes(s.this.m_axes)))]) for nm in ('end', 'cend')
] + [Contract(IT + 'axisIndex', sig=T(i), props=P6, name=IT + 'axisIndex<%d>' % i, requires=lambda s: it_wf(s.this, s.heap0, s.pre), ensures=lambda s, i=i: [('coordinate', s.result == co(nn(s.this), it_pos(s.this))[i])]) for i in range(3)
] + [Contract(IT + 'axisValue', sig=T(i), props=P6, name=IT + 'axisValue<%d>' % i, requires=lambda s: it_wf(s.this, s.heap0, s.pre), ensures=lambda s, i=i: [('knot', unwrap(s.result) == Select(ax(own(s.this).m_axes, i).m_values.arr, co(nn(s.this), it_pos(s.this))[i]))]) for i in range(3)
] + [Contract(IT + 'fixAxisByIndex', sig=T(i), props=P6, name=IT + 'fixAxisByIndex<%d>' % i, ref=lambda s: s.this_lv, requires=lambda s: it_wf(s.this, s.heap0, s.pre),
              throws=lambda s, i=i: [('Elements::Exception', Or(And(fixed(s.this, i), fix_at(s.this, i) != s[0]), s[0] >= nn(s.this)[i]))], ensures=lambda s, i=i: fixi(s, i)) for i in range(3)
]
CONFIG = {'small_keys': [0, 1, 2]}
CONTRACTS = [
    Contract(AXIS + '{ctor}', sig=['basic_string', 'vector'], props=P7, ensures=lambda s: [('name', unwrap(s.this1.m_name) == unwrap(s[0])), ('knots', unwrap(s.this1.m_values) == unwrap(s[1]))]),
    Contract(AXIS + 'size', props=P7, ensures=lambda s: [('number-of-knots', s.result == s.this.m_values.len)]),
    Contract(AXIS + 'name', props=P7, ensures=lambda s: [('name', unwrap(s.result) == unwrap(s.this.m_name))]),
    Contract(AXIS + 'operator[]', props=P7, requires=lambda s: [('in-range', s[0] < s.this.m_values.len)], ensures=lambda s: [('knot', unwrap(s.result) == Select(s.this.m_values.arr, s[0]))]),
    Contract(AXIS + 'operator==', props=P7, ensures=lambda s: [('same-knots', unwrap(s.result) == And(s.this.m_values.len == s[0].m_values.len, forall_in(0, s.this.m_values.len, lambda q: Select(s.this.m_values.arr, q) == Select(s[0].m_values.arr, q))))]),
    Contract(AXIS + 'operator!=', props=P7, ensures=lambda s: [('other-knots', unwrap(s.result) == Not(And(s.this.m_values.len == s[0].m_values.len, forall_in(0, s.this.m_values.len, lambda q: Select(s.this.m_values.arr, q) == Select(s[0].m_values.arr, q)))))]),
    Contract(IH + '{ctor}', sig=['const std::tuple'], props=P6, ensures=lambda s: [('sizes-factors-names', helper_ok(s.this1, s[0]))]),
    Contract(IH + 'totalIndex', props=P6, requires=lambda s: [('helper', helper_facts(s)[1])], ensures=lambda s: [('position', s.result == tot(s))]),
    Contract(IH + 'totalIndexChecked', props=P6, requires=lambda s: [('helper', helper_facts(s)[1])], throws=lambda s: [('Elements::Exception', out_of(s))], ensures=lambda s: [('position', s.result == tot(s))]),
    Contract(IH + 'axisIndex', props=P6, requires=lambda s: [('helper', helper_facts(s)[1]), ('axis', s[0] < 3), ('cells', And(*[n > 0 for n in helper_facts(s)[0]]))], ensures=lambda s: [('coordinate', s.result == h_axisindex(s))],
             hints=lambda s: [L_modmul(s[1], helper_facts(s)[0][0], helper_facts(s)[0][1]), L_modmul(s[1], helper_facts(s)[0][1] * helper_facts(s)[0][0], helper_facts(s)[0][2])]),
    Contract(GC + '{ctor}', sig=['GridAxis', 'GridAxis', 'GridAxis'], props=P6, name=GC + 'GridContainer(axes)',
             ensures=lambda s: [('axes', And(*[unwrap(ax(s.this1.m_axes, i)) == unwrap(s[i]) for i in range(3)])), ('nothing-fixed', s.this1.m_fixed_indices.n == 0)] + wf(s.this1, s.heap1, s.post)),
    Contract(GC + '{ctor}', sig=['tuple'], props=P6, name=GC + 'GridContainer(tuple)',
             ensures=lambda s: [('axes', And(*[unwrap(ax(s.this1.m_axes, i)) == unwrap(ax(s[0], i)) for i in range(3)])), ('nothing-fixed', s.this1.m_fixed_indices.n == 0)] + wf(s.this1, s.heap1, s.post)),
    Contract(GC + '{ctor}', sig=['const Euclid::GridContainer::GridContainer', 'long', 'long'], props=P7, name=GC + 'GridContainer(grid, axis, index)',
             requires=lambda s: wf(s[0], s.heap0, s.pre) + [('axis', s[1] < 3), ('index', And(*[Implies(s[1] == i, s[2] < sizes(s[0].m_axes)[i]) for i in range(3)]))],
             throws=lambda s: [('Elements::Exception', fixed(s[0], s[1]))], ensures=lambda s: slice_of(s.this1, s[0], s[1], s[2]) + wf(s.this1, s.heap1, s.post)),
    Contract(GC + 'size', props=P6, requires=wf0, ensures=lambda s: [('number-of-cells', s.result == If(fixed(s.this, 2), 1, sizes(s.this.m_axes)[2]) * (If(fixed(s.this, 1), 1, sizes(s.this.m_axes)[1]) * If(fixed(s.this, 0), 1, sizes(s.this.m_axes)[0])))]),
    Contract(GC + 'operator()', const=True, props=P6, name=GC + 'operator() const', requires=lambda s: wf0(s) + [('in-range', in_slice(s.this, [s[0], s[1], s[2]]))], ref=cell_ref, modifies={}, hints=lambda s: h_there(s.this, [s[0], s[1], s[2]])),
    Contract(GC + 'operator()', const=False, props=P6, requires=lambda s: wf0(s) + [('in-range', in_slice(s.this, [s[0], s[1], s[2]]))], ref=cell_ref, modifies={}, hints=lambda s: h_there(s.this, [s[0], s[1], s[2]])),
    Contract(GC + 'at', const=True, props=P6, name=GC + 'at const', requires=wf0, throws=lambda s: [('Elements::Exception', Not(in_slice(s.this, [s[0], s[1], s[2]])))], ref=cell_ref, modifies={}, hints=lambda s: h_there(s.this, [s[0], s[1], s[2]])),
    Contract(GC + 'at', const=False, props=P6, requires=wf0, throws=lambda s: [('Elements::Exception', Not(in_slice(s.this, [s[0], s[1], s[2]])))], ref=cell_ref, modifies={}, hints=lambda s: h_there(s.this, [s[0], s[1], s[2]])),
] + [Contract(GC + 'fixAxisByIndex', const=False, sig=T(i), props=P7, name=GC + 'fixAxisByIndex<%d>' % i, requires=wf0,
              throws=lambda s, i=i: [('Elements::Exception', Or(s[0] >= sizes(s.this.m_axes)[i], fixed(s.this, i)))],
              ensures=lambda s, i=i: slice_of(s.result, s.this, IntVal(i), s[0]) + wf(s.result, s.heap1, s.post)) for i in range(3)
] + [Contract(GC + 'fixAxisByValue', const=False, sig=T(i), props=P7, name=GC + 'fixAxisByValue<%d>' % i, requires=wf0,
              throws=lambda s, i=i: [('Elements::Exception', Or(no_knot(s.this, i, s[0]), fixed(s.this, i)))],
              ensures=lambda s, i=i: value_slice(s, i)) for i in range(3)
] + [Contract(GC + 'getAxis', sig=T(i), props=P7, name=GC + 'getAxis<%d>' % i, requires=wf0, ensures=lambda s, i=i: [('axis-of-the-slice', And(unwrap(s.result.m_name) == unwrap(ax(s.this.m_axes, i).m_name),
              If(fixed(s.this, i), And(s.result.m_values.len == 1, Select(s.result.m_values.arr, 0) == Select(ax(s.this.m_axes, i).m_values.arr, fix_at(s.this, i))), unwrap(s.result.m_values) == unwrap(ax(s.this.m_axes, i).m_values))))]) for i in range(3)] + IT_CONTRACTS + [Contract(IT + 'fixAxisByValue', sig=T(i), props=P6, name=IT + 'fixAxisByValue<%d>' % i, ref=lambda s: s.this_lv, requires=lambda s: it_wf(s.this, s.heap0, s.pre),
              throws=lambda s, i=i: [('Elements::Exception', Or(no_knot(own(s.this), i, s[0]), val_clash(s, i)))], ensures=lambda s, i=i: val_fix(s, i)) for i in range(3)]
