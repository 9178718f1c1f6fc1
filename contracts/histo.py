"""Histogram: bins and their edges, counting, clipping and statistics, for the three binning rules over real numbers."""
from cppvc.api import *
NAME = 'histo'
DRIVER = 'drivers/histo.cpp'
H = 'Euclid::Histogram::'
BN = H + 'Binning::'
BST = H + 'BinStrategy::'
CI = H + 'Histogram::ComputationImpl::'
GHOSTS = {}
SUMR = sumr()
FOLDS = [SUMR]
SE = specfn('step_edge', [R, R, I], R, lambda start, step, b: start + z3.ToReal(b) * step)


def kind(E, o):
    """edges of a binning object: (edge(b), number of bins, kind)"""
    n = o.m_nbins
    if has(o, 'm_edges'):
        v = o.m_edges
        return lambda b: Select(v.arr, icast(b)), n
    return lambda b: SE(unwrap(o.m_start), unwrap(o.m_step), icast(b)), n


def has(o, f):
    return f in o.E.S.fields.get(unwrap(o).sort().name(), ())


def wfbin(o):
    if has(o, 'm_edges'):
        v = o.m_edges
        i, j = z3.FreshConst(I, 'q'), z3.FreshConst(I, 'q')
        return [('bins', And(o.m_nbins >= 1, o.m_nbins == v.len - 1)),
                ('edges-increase', ForAll([i, j], Implies(And(0 <= i, i < j, j < v.len), Select(v.arr, i) < Select(v.arr, j)), patterns=[z3.MultiPattern(Select(v.arr, i), Select(v.arr, j))]))]
    else:
        return [('bins', And(o.m_nbins >= 1, o.m_nbins < 2 ** 62)), ('step', o.m_step >= 0), ('end', unwrap(o.m_end) == SE(unwrap(o.m_start), unwrap(o.m_step), unwrap(o.m_nbins)))]


def inbin(E, o, v, b):
    """the edges of bin b hold v: closed below and open above, the last one also closed above"""
    e, n = kind(E, o)
    return And(e(b) <= v, Or(v < e(b + 1), And(b == n - 1, v == e(n))))


def same_bin(E, o, p):
    return unwrap(o) == unwrap(p)


# q = (v - start) / step: the edge b is at most v exactly when b <= q
L_step = Lemma('edges-below', [('start', R), ('step', R), ('v', R), ('q', R), ('b', I)],
               lambda start, step, v, q, b: (SE(start, step, b) <= v) == (z3.ToReal(b) <= q), hyp=lambda start, step, v, q, b: And(step > 0, q * step == v - start))
L_mono = Lemma('edges-increase', [('start', R), ('step', R), ('a', I), ('b', I)], lambda start, step, a, b: Or(a >= b, SE(start, step, a) < SE(start, step, b)), hyp=lambda start, step, a, b: step > 0)
# the width rule: a standard deviation of at least range / sqrt(2n) leaves fewer than n^2 bins
L_width = Lemma('width-positive', [('sg', R), ('p', R), ('h', R)], lambda sg, p, h: h > 0, hyp=lambda sg, p, h: And(sg > 0, p > 0, h * p == 3.5 * sg))
L_qpos = Lemma('quotient-positive', [('rg', R), ('h', R), ('q', R)], lambda rg, h, q: q > 0, hyp=lambda rg, h, q: And(rg > 0, h > 0, q * h == rg))
L_le = Lemma('products-ordered', [('a', R), ('b', R), ('c', R)], lambda a, b, c: a * c <= b * c, hyp=lambda a, b, c: And(a <= b, c >= 0))
L_cancel = Lemma('factor-removed', [('a', R), ('b', R), ('c', R)], lambda a, b, c: a <= b, hyp=lambda a, b, c: And(a * c <= b * c, c > 0))
L_sqle = Lemma('squares-ordered', [('a', R), ('b', R)], lambda a, b: a <= b, hyp=lambda a, b: And(a * a <= b * b, a >= 0, b >= 0))
L_ident = Lemma('width-identity', [('rg', R), ('sg', R), ('p', R), ('h', R), ('q', R)], lambda rg, sg, p, h, q: q * q * (sg * sg * 12.25) == rg * rg * (p * p),
                hyp=lambda rg, sg, p, h, q: And(h * p == 3.5 * sg, q * h == rg))
L_cube = Lemma('cube', [('n', R), ('p', R)], lambda n, p: n * (p * p) <= z3.RealVal(2) ** 120, hyp=lambda n, p: And(n >= 0, n <= 2 ** 40, p >= 0, p * p <= z3.RealVal(2) ** 80))
L_sq = Lemma('square', [('n', R), ('p', R)], lambda n, p: p * p <= z3.RealVal(2) ** 80, hyp=lambda n, p: And(n <= 2 ** 40, p >= 0, p <= n))
L_root = Lemma('root', [('q', R)], lambda q: q <= z3.RealVal(2) ** 60, hyp=lambda q: And(q >= 0, q * q <= z3.RealVal(2) ** 120))
L_rpos = Lemma('root-positive', [('r', R), ('n', R)], lambda r, n: r > 0, hyp=lambda r, n: And(r >= 0, r * r == n, n >= 1))
L_ceil = Lemma('root-rounded-up', [('r', R), ('n', R), ('k', I)], lambda r, n, k: And((z3.ToReal(k) - 1) * (z3.ToReal(k) - 1) < n, n <= z3.ToReal(k) * z3.ToReal(k)), hyp=lambda r, n, k: And(r > 0, r * r == n, r <= z3.ToReal(k), z3.ToReal(k) < r + 1))
L_sgpos = Lemma('deviation-positive', [('n', R), ('rg', R), ('sg', R), ('var', R)], lambda n, rg, sg, var: sg > 0, hyp=lambda n, rg, sg, var: And(rg > 0, n >= 0, 2 * n * var >= rg * rg, sg >= 0, sg * sg == var))
LEMMAS = [L_rpos, L_ceil, L_sgpos, L_cube, L_sq, L_root, L_step, L_mono, L_width, L_qpos, L_le, L_cancel, L_sqle, L_ident]


def all_steps(s):
    o = s.this
    if has(o, 'm_edges'):
        return []
    st, sp, v = unwrap(o.m_start), unwrap(o.m_step), unwrap(s[0])
    b, q = z3.FreshConst(I, 'b'), QUOT(v - st, sp)
    return [L_QUOT(v - st, sp), LemmaInst(L_step, ForAll([b], Implies(And(sp > 0, q * sp == v - st), (SE(st, sp, b) <= v) == (z3.ToReal(b) <= q)), patterns=[SE(st, sp, b)])),
            LemmaInst(L_step, SE(st, sp, 0) == st)]


def post_index(s):
    E, o, v, r = s.E, s.this, unwrap(s[0]), unwrap(s.result)
    e, n = kind(E, o)
    b = z3.FreshConst(I, 'b')
    return [('the-bin-whose-edges-hold-it', Implies(r >= 0, And(r < n, inbin(E, o, v, r)))),
            ('no-other-bin', ForAll([b], Implies(And(0 <= b, b < n, inbin(E, o, v, b)), b == r), patterns=[e(b)])),
            ('refused-outside', (r < 0) == Or(v < e(IntVal(0)), v > e(n)))]


def inv_find(v):
    for ni, i in v.idxs():
        yield 'range ' + ni, And(0 <= i, i <= v.ctx.this.m_edges.len)


def h_iter(E, st, p, tt):
    """begin and end (wbegin and wend) are positions in one vector"""
    n = p['name']
    g = {'begin': 'data', 'end': 'data', 'wbegin': 'weights', 'wend': 'weights'}.get(n)
    if g is None:
        raise Unsupported('iterator parameter ' + n)
    vt = [t for t in E.tu.types if t['k'] == 'rec' and re.match(r'std::vector<double(, std::allocator<double>)?>$', t['s']) and not t.get('const')][0]
    key = (0, 'rng_' + g)
    if key not in st.env:
        st.env[key] = z3.Const(g, E.sort(vt))
        E.varinfo[key] = (g, vt)
        E.range_fact(st, st.env[key], vt)
    return core.PyIter(core.LVal(('v', key), (), vt), z3.Int(n), E.tu.targ(vt, 0))


def rng(s, i, j):
    a, b = s[i], s[j]
    a, b = getattr(a, 'v', a), getattr(b, 'v', b)
    v = s.E.load(s.pre, a.cont)
    return varr(v), a.idx, b.idx, vlen(v)


def data_ok(s, i, j):
    d, lo, hi, n = rng(s, i, j)
    return [('a-range', And(0 <= lo, lo < hi, hi <= n, n < 2 ** 40))]


def post_bins(s):
    d, lo, hi, n = rng(s, 0, 1)
    o = s.this1
    q = z3.FreshConst(I, 'q')
    return wfbin(o) + [('every-value-within', ForAll([q], Implies(And(lo <= q, q < hi), And(unwrap(o.m_start) <= Select(d, q), Select(d, q) <= unwrap(o.m_end))), patterns=[Select(d, q)]))]


def post_sqrt(s):
    d, lo, hi, n = rng(s, 0, 1)
    k, n = unwrap(s.this1.m_nbins), hi - lo
    return post_bins(s) + [('root-of-the-number-of-values', And((z3.ToReal(k) - 1) * (z3.ToReal(k) - 1) < z3.ToReal(n), z3.ToReal(n) <= z3.ToReal(k) * z3.ToReal(k)))]


def post_scott(s):
    d, lo, hi, n = rng(s, 0, 1)
    k, N = z3.ToReal(unwrap(s.this1.m_nbins)), z3.ToReal(hi - lo)
    mn, mx, var = [z3.Real('acc_' + t) for t in ('min', 'max', 'variance')]
    q = QUOT(mx - mn, QUOT(z3.RealVal('3.5') * z3.Function('sqrt', R, R)(var), POWR(N, z3.RealVal(1) / 3)))
    return post_bins(s) + [('width-rule', Implies(mx > mn, And(q <= k, k < q + 1))), ('one-bin-for-equal-values', Implies(mx == mn, k == 1))]


def bins_hints(s):
    o = s.this1
    n = z3.ToReal(unwrap(o.m_nbins))
    d, lo, hi, _ = rng(s, 0, 1)
    N = z3.ToReal(hi - lo)
    return [L_QUOT(unwrap(o.m_end) - unwrap(o.m_start), n).at('bins', 'step', 'end', 'every-value-within'), L_ceil(z3.Function('sqrt', R, R)(N), N, unwrap(o.m_nbins)).at('root-of-the-number-of-values'), L_rpos(z3.Function('sqrt', R, R)(N), N).at('root-of-the-number-of-values')]


def scott_hints(s):
    o = s.this1
    n = z3.ToReal(unwrap(o.m_nbins))
    d, lo, hi, _ = rng(s, 0, 1)
    N = z3.ToReal(hi - lo)
    mn, mx, var = [z3.Real('acc_' + t) for t in ('min', 'max', 'variance')]
    sg = z3.Function('sqrt', R, R)(var)
    p = POWR(N, z3.RealVal(1) / 3)
    h = QUOT(z3.RealVal('3.5') * sg, p)
    rg = mx - mn
    q = QUOT(rg, h)
    basic = lambda: [L_QUOT(z3.RealVal('3.5') * sg, p), L_QUOT(rg, h), L_width(sg, p, h), L_qpos(rg, h, q)]
    return [L_QUOT(unwrap(o.m_end) - unwrap(o.m_start), n).at('bins', 'step', 'end', 'every-value-within')] + [x.at('bins', 'step', 'end', 'every-value-within', 'width-rule') for x in basic() + [L_ident(rg, sg, p, h, q), L_le(rg * rg, 2 * N * (sg * sg), p * p),
            L_cancel(q * q, 2 * N * (p * p) / z3.RealVal('12.25'), sg * sg * z3.RealVal('12.25')), L_sq(N, p), L_cube(N, p), L_root(q)]] + \
        [x.at('width-rule') for x in [L_sgpos(N, rg, sg, var)]]


PR = ['C13']
CONTRACTS = []
for k in ('EdgeVector', 'Sqrt', 'Scott'):
    CONTRACTS += [
        Contract(BN + k + '::getBinIndex', props=PR, requires=lambda s: wfbin(s.this), ensures=post_index, hints=all_steps),
        Contract(BN + k + '::getEdge', props=PR, requires=lambda s: wfbin(s.this) + [('an-edge', s[0] <= s.this.m_nbins)], ensures=lambda s: [('edge', unwrap(s.result) == kind(s.E, s.this)[0](unwrap(s[0])))]),
        Contract(BN + k + '::getBinEdges', props=PR, requires=lambda s: wfbin(s.this) + [('a-bin', s[0] < s.this.m_nbins)],
                 ensures=lambda s: [('lower', unwrap(s.result.first) == kind(s.E, s.this)[0](unwrap(s[0]))), ('upper', unwrap(s.result.second) == kind(s.E, s.this)[0](unwrap(s[0]) + 1))]),
    ]
CONTRACTS += [
    Contract(BN + 'EdgeVector::{ctor}', sig=['vector<double'], props=PR, requires=lambda s: [('edges', s[0].len >= 2)], ensures=lambda s: [('edges', unwrap(s.this1.m_edges) == unwrap(s[0])), ('bins', s.this1.m_nbins == s[0].len - 1)]),
    Contract(H + 'BinStrategy::getBinCount', props=PR, ensures=lambda s: [('bins', s.result == s.this.m_nbins)]),
]
for k in ('Sqrt', 'Scott'):
    CONTRACTS.append(Contract(BN + k + '::computeBins', props=PR, requires=lambda s: data_ok(s, 0, 1), ensures=post_sqrt if k == 'Sqrt' else post_scott, hints=bins_hints if k == 'Sqrt' else scott_hints))


# ---- counting: the weights of the values that the edges of bin b hold, over the first k values
def rec_(f, base=z3.RealVal(0)):
    return f


AE = {'m_edges': [AR, I], 'm_start': [R, R, R, I]}     # what defines the edges: edge array and number of bins, or start, step, end and number of bins


def edge_of(x, b):
    return Select(x[0], b) if x[0].sort() == AR else SE(x[0], x[1], b)


def inbin_of(x, v, b):
    n = x[-1]
    return And(edge_of(x, b) <= v, Or(v < edge_of(x, b + 1), And(b == n - 1, v == edge_of(x, n))))


def bindef(o):
    return [o.m_edges.arr, unwrap(o.m_nbins)] if has(o, 'm_edges') else [unwrap(o.m_start), unwrap(o.m_step), unwrap(o.m_end), unwrap(o.m_nbins)]


CNT, WSF, VARF = {}, {}, {}


def mk(k, w):
    sorts = AE[k]
    nm = k[2:] + ('w' if w else '1')

    def defn(*a):
        x, d = list(a[:len(sorts)]), a[len(sorts)]
        rest = a[len(sorts) + 1:]
        W, wlo = (rest[0], rest[1]) if w else (None, None)
        lo, b, n = rest[-3:]
        wt = Select(W, wlo + n - 1) if w else z3.RealVal(1)
        prev = CNT[k, w](*a[:-1], n - 1)
        return If(n <= 0, z3.RealVal(0), prev + If(inbin_of(x, Select(d, lo + n - 1), b), wt, 0))
    CNT[k, w] = specfn('count_' + nm, sorts + [AR] + ([AR, I] if w else []) + [I, I, I], R, defn)


def centre(x, b):
    return (edge_of(x, b + 1) + edge_of(x, b)) / 2


def mkw(k):
    sorts = AE[k]
    nx = len(sorts)

    def d1(*a):
        x, c, lo, hi = list(a[:nx]), a[nx], a[-2], a[-1]
        return If(hi <= lo, z3.RealVal(0), WSF[k](*a[:-1], hi - 1) + Select(c, hi - 1) * centre(x, hi - 1))

    def d2(*a):
        x, c, mu, lo, hi = list(a[:nx]), a[nx], a[nx + 1], a[-2], a[-1]
        return If(hi <= lo, z3.RealVal(0), VARF[k](*a[:-1], hi - 1) + Select(c, hi - 1) * ((centre(x, hi - 1) - mu) * (centre(x, hi - 1) - mu)))
    WSF[k] = specfn('wsum' + k[1:], sorts + [AR, I, I], R, d1)
    VARF[k] = specfn('spread' + k[1:], sorts + [AR, R, I, I], R, d2)


for k in AE:
    mk(k, True)
    mk(k, False)
    mkw(k)


def knd(o):
    return 'm_edges' if has(o, 'm_edges') else 'm_start'


VK = None


def counts(s, o, post=True):
    """the vector of counts of a computation"""
    r = unwrap(o.m_counts)
    h = s.heap1 if post else s.heap0
    return h(CKEY(s.E), r)


def CKEY(E):
    vt = [t for t in E.tu.types if t['k'] == 'rec' and re.match(r'std::vector<double(, std::allocator<double>)?>$', t['s']) and not t.get('const')][0]
    return E.heapkey(vt)


def vcounts(v, o):
    r = unwrap(o.m_counts)
    return wrap(v.E, Select(v.st.heap[CKEY(v.E)], r))


def rdef(s):
    """the data and the weights of the call"""
    d, lo, hi, n = rng(s, 0, 1)
    w = s[2]
    w = w if isinstance(w, (core.PyIter, SV)) else getattr(w, 'v', w)
    if isinstance(w, core.PyIter):
        wv = s.E.load(s.pre, w.cont)
        return d, lo, hi, [varr(wv), w.idx], vlen(wv)
    return d, lo, hi, [], None


def cnt(o, d, lo, W, b, k):
    return CNT[knd(o), bool(W)](*bindef(o), d, *W, lo, b, k)


def inv_count(v):
    o = v.this
    d, lo, hi, W, _ = rdef(v.ctx)
    c = vcounts(v, o)
    for ni, i in v.idxs():
        for l, h_ in ((lo, hi),) + (((W[1], W[1] + hi - lo),) if W else ()):
            yield '%s in %s..' % (ni, l), And(l <= i, i <= h_)
            yield '%s-%s=steps' % (ni, l), i - l == v.k
    yield 'a bin for each count', c.len == o.m_binning.m_nbins
    yield 'same counts object', unwrap(o.m_counts) == unwrap(v.ctx.this.m_counts)
    b = z3.FreshConst(I, 'b')
    yield 'counts so far', ForAll([b], Implies(And(0 <= b, b < c.len), Select(c.arr, b) == cnt(o.m_binning, d, lo, W, b, v.k)), patterns=[Select(c.arr, b)])


def req_count(s):
    d, lo, hi, W, wl = rdef(s)
    o = s.this
    out = data_ok(s, 0, 1) + [('counts', And(unwrap(o.m_counts) > 0, counts(s, o, False).len == 0))]
    if W:
        out.append(('a-weight-for-each', And(0 <= W[1], W[1] + hi - lo <= wl)))
    if has(o.m_binning, 'm_edges'):
        out += wfbin(o.m_binning)
    return out


def post_count(s):
    d, lo, hi, W, wl = rdef(s)
    o = s.this1
    c = counts(s, o)
    b = z3.FreshConst(I, 'b')
    return wfbin(o.m_binning) + [('one-count-per-bin', c.len == o.m_binning.m_nbins), ('whole-range', And(o.m_clip_left == 0, o.m_clip_right == o.m_binning.m_nbins - 1)),
            ('weights-of-the-values-in-each-bin', ForAll([b], Implies(And(0 <= b, b < c.len), Select(c.arr, b) == cnt(o.m_binning, d, lo, W, b, hi - lo)), patterns=[Select(c.arr, b)]))]


def wfc(s, o, post=False):
    c = counts(s, o, post)
    return wfbin(o.m_binning) + [('counts', And(unwrap(o.m_counts) > 0, c.len == o.m_binning.m_nbins)), ('range', And(0 <= o.m_clip_left, o.m_clip_left <= o.m_clip_right, o.m_clip_right < c.len))]


def post_clip(s):
    o, o1 = s.this, s.this1
    x = bindef(o.m_binning)
    lo, hi = unwrap(s[0]), unwrap(s[1])
    b = z3.FreshConst(I, 'b')
    L0, R0, L1, R1 = [unwrap(t) for t in (o.m_clip_left, o.m_clip_right, o1.m_clip_left, o1.m_clip_right)]
    inside = lambda v, b: And(L0 <= b, b <= R0, inbin_of(x, v, b))
    q = z3.FreshConst(I, 'q')
    return wfc(s, o1, True) + [
        ('starts-at-the-bin-of-the-minimum', ForAll([b], Implies(inside(lo, b), L1 == b), patterns=[edge_of(x, b)])),
        ('ends-at-the-bin-of-the-maximum', ForAll([b], Implies(inside(hi, b), R1 == b), patterns=[edge_of(x, b)])),
        ('never-grows', And(L0 <= L1, L1 <= R1, R1 <= R0)),
        ('edges-kept', unwrap(o1.m_binning) == unwrap(o.m_binning)), ('counts-kept', And(unwrap(o1.m_counts) == unwrap(o.m_counts), unwrap(counts(s, o1)) == unwrap(counts(s, o, False))))]


SQ = z3.Function('sqrt', R, R)


def stat_terms(s):
    o = s.this
    c = counts(s, o, False)
    x = bindef(o.m_binning)
    L0, R1 = unwrap(o.m_clip_left), unwrap(o.m_clip_right) + 1
    return o, c, x, L0, R1


def req_stats(s):
    o, c, x, L0, R1 = stat_terms(s)
    q = z3.FreshConst(I, 'q')
    return wfc(s, o) + [('weights>=0', ForAll([q], Implies(And(0 <= q, q < c.len), Select(c.arr, q) >= 0), patterns=[Select(c.arr, q)])), ('some-weight', SUMR(c.arr, L0, R1) > 0)]


def inv_stats(v):
    o = v.ctx.this
    c = wrap(v.E, Select(v.ctx.pre.heap[CKEY(v.E)], unwrap(o.m_counts)))
    x = bindef(o.m_binning)
    L0, R0 = unwrap(o.m_clip_left), unwrap(o.m_clip_right)
    W = WSF[knd(o.m_binning)]
    V = VARF[knd(o.m_binning)]
    ints, reals = list(v.ints()), list(v.reals())
    cl = lambda t: Select(c.arr, t)
    for ni, i in ints:
        i = unwrap(i)
        one = len(ints) == 1
        yield '%s in range' % ni, And(L0 <= i, i <= R0 + 1)
        yield '%s in range from below' % ni, And(L0 - 1 <= i, i <= R0)
        for nr, r in reals:
            r = unwrap(r)
            if one:
                yield '%s sums centres to %s' % (nr, ni), r == W(*x, c.arr, L0, i)
                yield '%s sums squares to %s' % (nr, ni), r == V(*x, c.arr, z3.RealVal(0), L0, i)
            yield '%s sums counts to %s' % (nr, ni), r == SUMR(c.arr, L0, i)
            if not one:
                yield '%s sums counts from %s' % (nr, ni), r == SUMR(c.arr, i + 1, R0 + 1)
    for ni, i in ints:
        for nj, j in ints:
            if ni != nj:
                i_, j_ = unwrap(i), unwrap(j)
                yield '%s<=%s+1' % (ni, nj), i_ <= j_ + 1
                for na, a in reals:
                    for nb, b in reals:
                        if na != nb:
                            a_, b_ = unwrap(a), unwrap(b)
                            yield '%s>%s: %s last' % (na, nb, nj), Implies(a_ > b_, And(j_ < R0, a_ - cl(j_ + 1) <= b_))
                            yield '%s>=%s: %s last' % (na, nb, ni), Implies(And(a_ >= b_, i_ > L0), a_ - cl(i_ - 1) < b_)


TOUCHED = z3.Function('TOUCH_Int', I, z3.BoolSort())


def post_stats(s):
    o, c, x, L0, R1 = stat_terms(s)
    k = knd(o.m_binning)
    T, WS = SUMR(c.arr, L0, R1), WSF[k](*x, c.arr, L0, R1)
    mean, median, sigma = [unwrap(getattr(s.result, 'e%d' % i)) for i in range(3)]
    b = z3.FreshConst(I, 'b')
    F = lambda b: SUMR(c.arr, L0, b)
    return [('mean', mean * T == WS), ('deviation', And(sigma >= 0, sigma * sigma * T == VARF[k](*x, c.arr, mean, L0, R1))),
            ('median', Exists([b], And(L0 <= b, b < R1, Select(c.arr, b) > 0, 2 * F(b) <= T, T <= 2 * F(b + 1),
                                       2 * (median - edge_of(x, b)) * Select(c.arr, b) == (edge_of(x, b + 1) - edge_of(x, b)) * (T - 2 * F(b))), patterns=[TOUCHED(b)]))]


def quotients():
    a, b = z3.FreshConst(R, 'a'), z3.FreshConst(R, 'b')
    return LemmaInst(L_QUOT, ForAll([a, b], Implies(b != 0, QUOT(a, b) * b == a), patterns=[QUOT(a, b)]))


L_VAR, L_POS = {}, {}
for k in AE:
    nx = len(AE[k])
    vs = [('x%d' % i, t) for i, t in enumerate(AE[k])] + [('c', AR), ('mu', R), ('lo', I), ('d', I)]

    def c_var(*a, k=k, nx=nx):
        x, c, mu, lo, d = list(a[:nx]), *a[nx:]
        V, W, S = VARF[k](*x, c, z3.RealVal(0), lo, lo + d), WSF[k](*x, c, lo, lo + d), SUMR(c, lo, lo + d)
        return VARF[k](*x, c, mu, lo, lo + d) == V - 2 * mu * W + mu * mu * S

    def c_pos(*a, k=k, nx=nx):
        x, c, mu, lo, d = list(a[:nx]), *a[nx:]
        return VARF[k](*x, c, mu, lo, lo + d) >= 0

    def h_pos(*a, nx=nx):
        c, mu, lo, d = a[nx:]
        q = z3.FreshConst(I, 'q')
        return ForAll([q], Implies(And(lo <= q, q < lo + d), Select(c, q) >= 0), patterns=[Select(c, q)])
    L_VAR[k] = Lemma('spread-about' + k[1:], vs, c_var, induct=nx + 3)
    L_POS[k] = Lemma('spread-positive' + k[1:], vs, c_pos, hyp=h_pos, induct=nx + 3)
    LEMMAS += [L_VAR[k], L_POS[k]]
L_alg = Lemma('mean-of-squares', [('V0', R), ('W', R), ('S', R), ('mu', R), ('qv', R)], lambda V0, W, S, mu, qv: (qv - mu * mu) * S == V0 - 2 * mu * W + mu * mu * S,
              hyp=lambda V0, W, S, mu, qv: And(mu * S == W, qv * S == V0))
L_sign = Lemma('quotient-sign', [('s0', R), ('S', R), ('V', R)], lambda s0, S, V: s0 >= 0, hyp=lambda s0, S, V: And(S > 0, s0 * S == V, V >= 0))
# the same with every sum under a name of its own, as the code has them
L_dev = Lemma('deviation', [('V0', R), ('W', R), ('S', R), ('T', R), ('mu', R), ('qv', R), ('V', R), ('s0', R)], lambda V0, W, S, T, mu, qv, V, s0: And(s0 >= 0, s0 * T == V),
              hyp=lambda V0, W, S, T, mu, qv, V, s0: And(mu * S == W, qv * S == V0, S > 0, T == S, V == V0 - 2 * mu * W + mu * mu * S, V >= 0, s0 == qv - mu * mu))
L_root2 = Lemma('deviation-root', [('sg', R), ('s0', R), ('T', R), ('V', R)], lambda sg, s0, T, V: sg * sg * T == V, hyp=lambda sg, s0, T, V: And(sg * sg == s0, s0 * T == V))
L_mean = Lemma('mean', [('mu', R), ('S', R), ('T', R), ('W', R)], lambda mu, S, T, W: mu * T == W, hyp=lambda mu, S, T, W: And(mu * S == W, T == S))
L_med = Lemma('median', [('md', R), ('e0', R), ('e1', R), ('c', R), ('Q', R), ('h', R), ('l', R), ('T', R), ('F', R)], lambda md, e0, e1, c, Q, h, l, T, F: 2 * (md - e0) * c == (e1 - e0) * (T - 2 * F),
              hyp=lambda md, e0, e1, c, Q, h, l, T, F: And(Q * (2 * c) == (e1 - e0) * (h - l), T == l + h, Or(And(F == l, md == e0 + Q), And(F == l - c, md == e1 + Q))))
L_VARN = {}
for k in AE:
    nx = len(AE[k])
    def c_varn(*a, k=k, nx=nx):
        x, c, mu, lo, d, V0, W, S = list(a[:nx]), *a[nx:]
        return VARF[k](*x, c, mu, lo, lo + d) == V0 - 2 * mu * W + mu * mu * S

    def h_varn(*a, k=k, nx=nx):
        x, c, mu, lo, d, V0, W, S = list(a[:nx]), *a[nx:]
        return And(d >= 0, V0 == VARF[k](*x, c, z3.RealVal(0), lo, lo + d), W == WSF[k](*x, c, lo, lo + d), S == SUMR(c, lo, lo + d))
    vs = [('x%d' % i, t) for i, t in enumerate(AE[k])] + [('c', AR), ('mu', R), ('lo', I), ('d', I), ('V0', R), ('W', R), ('S', R)]
    L_VARN[k] = Lemma('spread-named' + k[1:], vs, c_varn, hyp=h_varn, using=(lambda k, nx: lambda *a: [L_VAR[k](*a[:nx + 4])])(k, nx))
LEMMAS += list(L_VARN.values())
L_med1 = Lemma('median-in-the-first-bin', [('md', R), ('e0', R), ('e1', R), ('c', R), ('T', R), ('F', R)], lambda md, e0, e1, c, T, F: 2 * (md - e0) * c == (e1 - e0) * (T - 2 * F),
               hyp=lambda md, e0, e1, c, T, F: And(2 * md == e0 + e1, T == c, F == 0))
L_spos = Lemma('counts-positive', [('c', AR), ('lo', I), ('d', I)], lambda c, lo, d: SUMR(c, lo, lo + d) >= 0, hyp=lambda c, lo, d: h_pos(c, 0, lo, d, nx=0), induct=2)
LEMMAS += [L_alg, L_sign, L_dev, L_root2, L_mean, L_med, L_med1, L_spos]


def apps(t, pred):
    """the subterms of t that satisfy pred"""
    seen, out, todo = set(), [], [unwrap(t)]
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if pred(x):
            out.append(x)
        todo += x.children()
    return out


def quots(t):
    return apps(t, lambda x: x.decl().name() == 'QUOT')


def stats_hints(s):
    o, c, x, L0, R1 = stat_terms(s)
    k = knd(o.m_binning)
    T, W, V0 = SUMR(c.arr, L0, R1), WSF[k](*x, c.arr, L0, R1), VARF[k](*x, c.arr, z3.RealVal(0), L0, R1)
    mean, median, sigma = [unwrap(getattr(s.result, 'e%d' % i)) for i in range(3)]
    out = []
    V = VARF[k](*x, c.arr, mean, L0, R1)
    out += [L_POS[k](*x, c.arr, mean, L0, R1 - L0).at('deviation')]
    qs = quots(sigma) or quots(And(*s.post.pc))
    for mu in quots(mean):
        out += [L_QUOT(mu.arg(0), mu.arg(1)).at('mean', 'deviation'), L_mean(mu, mu.arg(1), T, W).at('mean')]
        for sq in apps(sigma, lambda t: t.decl().name() == 'sqrt') + [None]:
            for qv in qs:
                if not qv.eq(mu) and qv.arg(1).eq(mu.arg(1)):
                    s0 = sq.arg(0) if sq is not None else qv - mean * mean
                    out += [L_QUOT(qv.arg(0), qv.arg(1)).at('deviation')]
                    out += [h.at('deviation') for h in (L_VARN[k](*x, c.arr, mean, L0, R1 - L0, qv.arg(0), mu.arg(0), mu.arg(1)), L_dev(qv.arg(0), mu.arg(0), mu.arg(1), T, mean, qv, V, s0), L_root2(sigma, s0, T, V))]
    out += [touch(L0).at('median'), SUMR.split_at(c.arr, L0, L0 + 1, R1).at('median'), L_spos(c.arr, L0 + 1, R1 - L0 - 1).at('median'), touch(SUMR(c.arr, L0, L0)).at('median'), touch(SUMR(c.arr, L0, L0 + 1)).at('median')]
    if not quots(median):
        out.append(L_med1(median, edge_of(x, L0), edge_of(x, L0 + 1), Select(c.arr, L0), T, SUMR(c.arr, L0, L0)).at('median'))
    hl = apps(median, lambda t: t.num_args() == 0 and t.sort() == R and t.decl().kind() == z3.Z3_OP_UNINTERPRETED)
    for q in quots(median):
        out.append(L_QUOT(q.arg(0), q.arg(1)).at('median'))
        for b in {t.arg(1).get_id(): t.arg(1) for t in apps(median, lambda t: t.decl().kind() == z3.Z3_OP_SELECT and t.arg(0).eq(unwrap(c.arr)))}.values():
            out.append(SUMR.split_at(c.arr, L0, b, R1).at('median'))
            out.append(SUMR.split_at(c.arr, L0, b + 1, R1).at('median'))
            out.append(touch(SUMR(c.arr, L0, b + 1)).at('median'))
            out.append(touch(b).at('median'))
            for h in hl:
                for l in hl:
                    if not h.eq(l):
                        out.append(L_med(median, edge_of(x, b), edge_of(x, b + 1), Select(c.arr, b), q, h, l, T, SUMR(c.arr, L0, b)).at('median'))
    return out


def h_none(E, s, fr, e, args):
    return [(s, core.Opaque('bound'))]


def h_foreach(E, s, fr, e, args):
    E.assumed.add('boost accumulators: smallest and largest value and population variance of the values given, with 2 n variance >= range^2')
    a, b = E.val(s, args[0]), E.val(s, args[1])
    s.ghost['acc'] = (varr(E.load(s, a.cont)), a.idx, b.idx)
    return [(s, core.Opaque('fn'))]


def h_stat(E, s, fr, e, o, args):
    d, lo, hi = s.ghost['acc']
    tag = re.search(r'tag\d+(variance|min|max)E', e['m']).group(1)
    q = z3.FreshConst(I, 'q')
    mn, mx, var = [z3.Real('acc_' + t) for t in ('min', 'max', 'variance')]
    for r, f in ((mn, lambda q: mn <= Select(d, q)), (mx, lambda q: mx >= Select(d, q))):
        s.assume(And(ForAll([q], Implies(And(lo <= q, q < hi), f(q)), patterns=[Select(d, q)]), Exists([q], And(lo <= q, q < hi, Select(d, q) == r))))
    s.assume(And(mn <= mx, var >= 0, 2 * z3.ToReal(hi - lo) * var >= (mx - mn) * (mx - mn), Implies(mn == mx, var == 0)))
    return [(s, {'min': mn, 'max': mx, 'variance': var}[tag])]


POWR = z3.Function('pow', R, R, R)


for k in ('EdgeVector', 'Sqrt', 'Scott'):
    me = dict(this_type=r'ComputationImpl<Euclid::Histogram::Binning::%s<' % k, cls=None)
    own = (lambda k: lambda ps, f: k in f['m'])(k)
    CONTRACTS += [
        Contract(CI + 'computeBins', sig=own, name=CI + 'computeBins<%s>' % k, props=PR, requires=req_count, inv=inv_count, ensures=post_count),
        Contract(CI + 'clip', sig=own, name=CI + 'clip<%s>' % k, props=PR, requires=lambda s: wfc(s, s.this), throws=lambda s: [('Elements::Exception', unwrap(s[0]) > unwrap(s[1]))], ensures=post_clip),
        Contract(CI + 'getStats', sig=own, name=CI + 'getStats<%s>' % k, props=PR, requires=req_stats, inv=inv_stats, ensures=post_stats, hints=stats_hints),
    ]


def redirect(name):
    def h(E, s, fr, e, o, args):
        v = E.load(s, o)
        k = [k for k in ('EdgeVector', 'Sqrt', 'Scott') if k in v.sort().name()]
        if not k:
            return None
        f = [f for f in E.tu.functions.values() if f['q'] == BN + k[0] + '::' + name][0]
        return E.call_fn(s, fr, f, o, args, e)
    return h


def h_pow(E, s, fr, e, args):
    E.assumed.add('pow(x, y) for x >= 1 and 0 < y < 1 lies between 1 and x')
    x, y = [E.toreal(E.val(s, a)) for a in args]
    s.assume(Implies(And(x >= 1, y > 0, y < 1), And(POWR(x, y) >= 1, POWR(x, y) <= x)))
    return [(s, POWR(x, y))]


CONFIG = {'free_hooks': {'std::pow': h_pow, 'std::for_each': h_foreach, 'std::bind': h_none, 'std::ref': h_none}, 'models': {BST + 'getBinEdges': redirect('getBinEdges'), BST + 'getEdge': redirect('getEdge'), 'boost::accumulators::extractor::operator()': h_stat},
          'opaque_types': ['boost::accumulators', 'std::_Bind', 'std::_Placeholder'], 'param_models': {'__gnu_cxx::__normal_iterator': h_iter}, 'quot': True}
