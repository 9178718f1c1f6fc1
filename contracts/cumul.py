"""MathUtils: cumulative distributions."""
from cppvc.api import *
NAME = 'cumul'
DRIVER = 'drivers/cumul.cpp'
M = 'Euclid::MathUtils::Cumulative::'
GHOSTS = {}
SUMR = sumr()
FOLDS = [SUMR]
LEMMAS = []
CONFIG = {'quot': True}


def sorted_(k, n, strict=False):
    i, j = z3.FreshConst(I, 'q'), z3.FreshConst(I, 'q')
    return ForAll([i, j], Implies(And(0 <= i, i < j, j < n), Select(k, i) < Select(k, j) if strict else Select(k, i) <= Select(k, j)), patterns=[z3.MultiPattern(Select(k, i), Select(k, j))])


def same(c, x, y):
    return [('x', unwrap(c.m_x_sampling) == unwrap(x)), ('y', unwrap(c.m_y_sampling) == unwrap(y))]


def inv_prefix(v):
    """running sums of the density"""
    p = v.ctx[1]
    its = v.idxs()
    for ni, i in its:
        yield '%s<=n' % ni, And(0 <= i, i <= p.len)
        for nr, r in v.reals():
            yield '%s=sum of the first %s' % (nr, ni), unwrap(r) == SUMR(p.arr, IntVal(0), i)
        for nv, w in v.modified(None, lambda t: v.E.S.is_vec(t.sort()) and varr(t).sort() == AR):
            yield 'len(%s)=%s' % (nv, ni), w.len == i
            yield '%s holds the running sums' % nv, forall_in(0, w.len, lambda q: Select(w.arr, q) == SUMR(p.arr, IntVal(0), q + 1))


def inv_pairs(v):
    d = v.ctx[0].m_values
    its = v.idxs()
    for ni, i in its:
        yield '%s<=n' % ni, And(0 <= i, i <= d.len)
        for nv, w in vecs(v):
            yield 'len(%s)=%s' % (nv, ni), w.len == i
            for o in ('first', 'second'):
                yield '%s holds the %s' % (nv, o), forall_in(0, w.len, lambda q: Select(w.arr, q) == getattr(wrap(v.E, Select(d.arr, q)), o))


def vecs(v):
    out = list(v.modified(None, lambda t: v.E.S.is_vec(t.sort()) and varr(t).sort() == AR))
    try:
        t = v.this
        for f in ('m_x_sampling', 'm_y_sampling'):
            out.append(('this.' + f, getattr(t, f)))
    except Exception:
        pass
    return out


def inv_norm(v):
    y = v.ctx.this.m_y_sampling
    tot = Select(y.arr, y.len - 1)
    for ni, i in v.idxs():
        yield '%s<=n' % ni, And(0 <= i, i <= y.len)
        for nv, w in v.modified(None, lambda t: v.E.S.is_vec(t.sort()) and varr(t).sort() == AR):
            yield 'len(%s)=%s' % (nv, ni), w.len == i
            yield '%s holds the quotients' % nv, forall_in(0, w.len, lambda q: Select(w.arr, q) == QUOT(Select(y.arr, q), tot))


def wf(c):
    return [('same-size', c.m_x_sampling.len == c.m_y_sampling.len), ('some', c.m_x_sampling.len >= 1)]


def dist(c):
    """a cumulative of a non-negative density"""
    x, y = c.m_x_sampling, c.m_y_sampling
    return wf(c) + [('x-increases', sorted_(x.arr, x.len)), ('y-does-not-decrease', sorted_(y.arr, y.len)), ('y>=0', Select(y.arr, 0) >= 0)]


B, E_, B2, E2 = [z3.Const('tray_' + a, I) for a in ('b', 'e', 'b2', 'e2')]


def tray(c, ratio, B=B, E_=E_):
    """B is the first sample that reaches the fraction, E_ the last one with the same height"""
    y = c.m_y_sampling
    q = z3.FreshConst(I, 'q')
    return And(0 <= B, B <= E_, E_ < y.len, Select(y.arr, B) >= ratio * Select(y.arr, y.len - 1),
               forall_in(0, B, lambda q: Select(y.arr, q) < ratio * Select(y.arr, y.len - 1)),
               Select(y.arr, E_) == Select(y.arr, B), Implies(E_ + 1 < y.len, Select(y.arr, E_ + 1) > Select(y.arr, B)))


def inv_find(v):
    y, x = v.ctx.this.m_y_sampling, v.ctx.this.m_x_sampling
    ratio = unwrap(v.ctx[0])
    val = Select(y.arr, y.len - 1) * ratio
    its = v.idxs()
    for ni, i in its:
        yield '%s<=n' % ni, And(0 <= i, i <= y.len)
        yield '%s<n' % ni, And(0 <= i, i < y.len)
        yield 'below the fraction before %s' % ni, forall_in(0, i, lambda q: Select(y.arr, q) < val)
        for nj, j in its:
            if nj < ni:
                yield '%s=%s' % (ni, nj), i == j
        i0 = i - v.k
        yield 'level from the entry to %s' % ni, forall_in(i0, i, lambda q: Select(y.arr, q) == Select(y.arr, i0))
        yield 'entry of %s in range' % ni, And(0 <= i0, i0 < y.len)


def fv_post(s):
    c, ratio, pos, r = s.this, unwrap(s[0]), unwrap(s[1]), unwrap(s.result)
    x = c.m_x_sampling
    b, e = z3.FreshConst(I, 'tb'), z3.FreshConst(I, 'te')
    pat = lambda: [z3.MultiPattern(Select(c.m_y_sampling.arr, b), Select(c.m_y_sampling.arr, e))]
    t = tray(c, ratio, b, e)
    return [('first-sample-of-the-tray', Implies(pos == 0, ForAll([b, e], Implies(t, r == Select(x.arr, b)), patterns=pat()))),
            ('last-sample-of-the-tray', Implies(pos == 2, ForAll([b, e], Implies(t, r == Select(x.arr, e)), patterns=pat()))),
            ('middle-of-the-tray', Implies(pos == 1, ForAll([b, e], Implies(t, 2 * r == Select(x.arr, b) + Select(x.arr, e)), patterns=pat())))]


def fv_throws(s):
    return [('Elements::Exception', Or(unwrap(s[0]) > 1, unwrap(s[0]) < 0))]


def mass(y, i, j):
    return Select(y, j) - Select(y, i) + If(i == 0, Select(y, 0), 0)


def inv_min(v):
    c = v.ctx.this
    x, y = c.m_x_sampling, c.m_y_sampling
    n = x.len
    rate = unwrap(v.ctx[0]) * Select(y.arr, n - 1)

    def it(name):
        w = v.var(name)
        return icast(w.idx) if isinstance(w, core.PyIter) else None
    i, iy, j, jy, m, Mx = [it(a) for a in ('iter_1_x', 'iter_1_y', 'iter_2_x', 'iter_2_y', 'min_x', 'max_x')]
    if any(a is None for a in (i, iy, j, jy, m, Mx)) or v.var('first_correction') is None:
        return
    yield 'rate', unwrap(v.var('rate')) == rate
    yield 'i', And(i == iy, 0 <= i, i <= n)
    yield 'i<n', i < n
    yield 'j', And(j == jy, 1 <= j, j <= n)
    yield 'correction', unwrap(v.var('first_correction')) == If(i == 0, Select(y.arr, 0), 0)
    yield 'best', And(0 <= m, m <= Mx, Mx < n)
    yield 'best-mass', mass(y.arr, m, Mx) >= rate
    q, p = z3.FreshConst(I, 'q'), z3.FreshConst(I, 'p')
    yield 'smaller ends fail', ForAll([q], Implies(And(1 <= q, q < j, i < n), mass(y.arr, i, q) < rate), patterns=[Select(y.arr, q)])
    yield 'best so far', ForAll([p, q], Implies(And(0 <= p, p < i, p < q, q < n, mass(y.arr, p, q) >= rate), Select(x.arr, q) - Select(x.arr, p) >= Select(x.arr, Mx) - Select(x.arr, m)),
                                patterns=[z3.MultiPattern(Select(y.arr, p), Select(x.arr, q))])


def min_post(s):
    c = s.this
    x, y = c.m_x_sampling, c.m_y_sampling
    n = x.len
    rate = unwrap(s[0]) * Select(y.arr, n - 1)
    a, b = s.result.first, s.result.second
    i, j = z3.FreshConst(I, 'i'), z3.FreshConst(I, 'j')
    p, q = z3.Const('any_p', I), z3.Const('any_q', I)
    return [('holds-the-fraction', Exists([i, j], And(0 <= i, i <= j, j < n, a == Select(x.arr, i), b == Select(x.arr, j), mass(y.arr, i, j) >= rate))),
            ('smallest', Implies(And(0 <= p, p < q, q < n, mass(y.arr, p, q) >= rate), Select(x.arr, q) - Select(x.arr, p) >= b - a))]


def cen_post(s):
    c, rate, r = s.this, unwrap(s[0]), s.result
    x = c.m_x_sampling
    return [('leaves-half-the-rest-below', Implies(tray(c, (1 - rate) / 2), r.first == Select(x.arr, E_))),
            ('leaves-half-the-rest-above', Implies(tray(c, (1 + rate) / 2, B2, E2), r.second == Select(x.arr, B2)))]


PR = ['C12']
CONTRACTS = [
    Contract(M + '{ctor}', sig=['vector<double', 'vector<double'], props=PR, name=M + 'Cumulative(x, y)', throws=lambda s: [('Elements::Exception', s[0].len != s[1].len)], ensures=lambda s: same(s.this1, s[0], s[1])),
    Contract(M + '{ctor}', sig=['XYDataset'], props=PR, name=M + 'Cumulative(dataset)', inv=inv_pairs,
             ensures=lambda s: [('sizes', And(s.this1.m_x_sampling.len == s[0].m_values.len, s.this1.m_y_sampling.len == s[0].m_values.len)),
                                ('x', forall_in(0, s[0].m_values.len, lambda q: Select(s.this1.m_x_sampling.arr, q) == wrap(s.E, Select(s[0].m_values.arr, q)).first)),
                                ('y', forall_in(0, s[0].m_values.len, lambda q: Select(s.this1.m_y_sampling.arr, q) == wrap(s.E, Select(s[0].m_values.arr, q)).second))]),
    Contract(M + '{ctor}', sig=['const Euclid::MathUtils::Cumulative &'], props=PR, name=M + 'Cumulative(copy)', ensures=lambda s: same(s.this1, s[0].m_x_sampling, s[0].m_y_sampling)),
    Contract(M + '{ctor}', sig=['Cumulative &&'], props=PR, name=M + 'Cumulative(move)', ensures=lambda s: same(s.this1, s[0].m_x_sampling, s[0].m_y_sampling)),
    Contract(M + 'operator=', sig=['const Euclid::MathUtils::Cumulative &'], props=PR, name=M + 'operator=(copy)', ensures=lambda s: same(s.this1, s[0].m_x_sampling, s[0].m_y_sampling)),
    Contract(M + 'operator=', sig=['Cumulative &&'], props=PR, name=M + 'operator=(move)', ensures=lambda s: same(s.this1, s[0].m_x_sampling, s[0].m_y_sampling)),
    Contract(M + 'fromPdf', sig=['vector<double', 'vector<double'], props=PR, name=M + 'fromPdf(x, pdf)', inv=inv_prefix, throws=lambda s: [('Elements::Exception', s[0].len != s[1].len)],
             ensures=lambda s: [('x', unwrap(s.result.m_x_sampling) == unwrap(s[0])), ('size', s.result.m_y_sampling.len == s[1].len),
                                ('running-sums', forall_in(0, s[1].len, lambda q: Select(s.result.m_y_sampling.arr, q) == SUMR(s[1].arr, IntVal(0), q + 1)))]),
    Contract(M + 'fromPdf', sig=['XYDataset'], props=PR, name=M + 'fromPdf(dataset)', inv=inv_pairs,
             ensures=lambda s: [('sizes', And(s.result.m_x_sampling.len == s[0].m_values.len, s.result.m_y_sampling.len == s[0].m_values.len)),
                                ('x', forall_in(0, s[0].m_values.len, lambda q: Select(s.result.m_x_sampling.arr, q) == wrap(s.E, Select(s[0].m_values.arr, q)).first))]),
    Contract(M + 'normalize', props=PR, inv=inv_norm, requires=lambda s: wf(s.this),
             ensures=lambda s: [('x', unwrap(s.this1.m_x_sampling) == unwrap(s.this.m_x_sampling)), ('size', s.this1.m_y_sampling.len == s.this.m_y_sampling.len),
                                ('quotients', forall_in(0, s.this.m_y_sampling.len, lambda q: Select(s.this1.m_y_sampling.arr, q) == QUOT(Select(s.this.m_y_sampling.arr, q), Select(s.this.m_y_sampling.arr, s.this.m_y_sampling.len - 1)))),
                                ('ends-at-one', Implies(Select(s.this.m_y_sampling.arr, s.this.m_y_sampling.len - 1) != 0, Select(s.this1.m_y_sampling.arr, s.this.m_y_sampling.len - 1) == 1))],
             hints=lambda s: [L_QUOT(Select(s.this.m_y_sampling.arr, s.this.m_y_sampling.len - 1), Select(s.this.m_y_sampling.arr, s.this.m_y_sampling.len - 1))]),
    Contract(M + 'findValue', props=PR, inv=inv_find, requires=lambda s: dist(s.this) + [('position', And(s[1] >= 0, s[1] <= 2))], throws=fv_throws, ensures=fv_post),
    Contract(M + 'findMinInterval', props=PR, inv=inv_min, requires=lambda s: dist(s.this) + [('some-mass', Select(s.this.m_y_sampling.arr, s.this.m_y_sampling.len - 1) > 0)], throws=lambda s: [('Elements::Exception', Or(unwrap(s[0]) > 1, unwrap(s[0]) <= 0))], ensures=min_post),
    Contract(M + 'findCenteredInterval', props=PR, requires=lambda s: dist(s.this), throws=lambda s: [('Elements::Exception', Or(unwrap(s[0]) > 1, unwrap(s[0]) <= 0))], ensures=cen_post),
]
