"""MathUtils: polynomials, piecewise functions, integration, interpolation.

A Function object is known by its reference; EVAL(ref, x) is its value at x and INTEG(ref, a, b) its integral.  The abstract
operator() returns EVAL (the interface contract); what EVAL is for a Polynomial or a Piecewise is what their own
operator() is proved to compute (on_new repeats the proved postconditions for new objects)."""
from cppvc.api import *
NAME = 'mathfn'
DRIVER = 'drivers/mathfn.cpp'
M = 'Euclid::MathUtils::'
GHOSTS = {}
FOLDS = []

EVAL = z3.Function('EVAL', I, R, R)
INTEG = z3.Function('INTEG', I, R, R, R)
ANTI = z3.Function('ANTI', I, R, R)
INTEGRABLE = z3.Function('INTEGRABLE', I, B)
DBLMAX = None

POW = specfn('pow', [R, I], R, lambda x, n: If(n <= 0, RealVal(1), POW(x, n - 1) * x))
POLY = specfn('poly', [AR, R, I], R, lambda c, x, n: If(n <= 0, RealVal(0), POLY(c, x, n - 1) + Select(c, n - 1) * POW(x, n - 1)))
DPOLY = specfn('dpoly', [AR, R, I], R, lambda c, x, n: If(n <= 1, RealVal(0), DPOLY(c, x, n - 1) + z3.ToReal(n - 1) * Select(c, n - 1) * POW(x, n - 2)))
IPOLY = specfn('ipoly', [AR, R, I], R, lambda c, x, n: If(n <= 0, RealVal(0), IPOLY(c, x, n - 1) + QUOT(Select(c, n - 1), z3.ToReal(n)) * POW(x, n)))


def allx(f, pat, name='x'):
    x = z3.FreshConst(R, name)
    return ForAll([x], f(x), patterns=[pat(x)])


L_der = Lemma('derivative-coefficients', [('d', AR), ('c', AR), ('n', I)],
              lambda d, c, n: allx(lambda x: POLY(d, x, If(n > 1, n - 1, 0)) == DPOLY(c, x, n), lambda x: DPOLY(c, x, n)),
              hyp=lambda d, c, n: forall_in(0, n - 1, lambda i: Select(d, i) == z3.ToReal(i + 1) * Select(c, i + 1)), induct=2, base=0)
L_int = Lemma('antiderivative-coefficients', [('a', AR), ('c', AR), ('n', I)],
              lambda a, c, n: allx(lambda x: POLY(a, x, n + 1) == IPOLY(c, x, n), lambda x: POLY(a, x, n + 1)),
              hyp=lambda a, c, n: And(Select(a, 0) == 0, forall_in(0, n, lambda i: Select(a, i + 1) == QUOT(Select(c, i), z3.ToReal(i + 1)))), induct=2)
L_polyext = Lemma('equal-coefficients', [('a', AR), ('b', AR), ('n', I)],
                  lambda a, b, n: allx(lambda x: POLY(a, x, n) == POLY(b, x, n), lambda x: POLY(a, x, n)),
                  hyp=lambda a, b, n: forall_in(0, n, lambda i: Select(a, i) == Select(b, i)), induct=2)
LEMMAS = [L_der, L_int, L_polyext]


# ------------------------------------------------------------------- polynomials
def inv_poly(v):
    c, x = v.ctx.this.m_coef, v.ctx[0]
    for n1, r in v.reals():
        yield '%s=x^k' % n1, r == POW(unwrap(x), v.k)
        yield '%s=sum of the first k terms' % n1, r == POLY(c.arr, unwrap(x), v.k)
    for ni, i in v.idxs():
        yield '%s=k' % ni, i == v.k


def poly_inv(p):
    c = p.m_coef
    return [('cached-derivative', Or(p.m_derivative == 0, And(p.m_derivative > 0, allx(lambda x: EVAL(unwrap(p.m_derivative), x) == DPOLY(c.arr, x, c.len), lambda x: EVAL(unwrap(p.m_derivative), x))))),
            ('cached-integral', Or(p.m_indefIntegral == 0, And(p.m_indefIntegral > 0, allx(lambda x: EVAL(unwrap(p.m_indefIntegral), x) == IPOLY(c.arr, x, c.len), lambda x: EVAL(unwrap(p.m_indefIntegral), x)))))]


def inv_coefs(f):
    """the vector under construction holds f(i) at i"""
    def inv(v):
        c = v.ctx.this.m_coef
        for nv, w in v.modified(None, lambda t: v.E.S.is_vec(t.sort()) and varr(t).sort() == AR):
            for ni, i in v.idxs():
                yield from f(c, w, i, nv, ni)
    return inv


def der_inv(c, w, i, nv, ni):
    yield 'len(%s)=%s-1' % (nv, ni), w.len == i - 1
    yield '%s<=n' % ni, Or(i <= c.len, i == 1)
    yield '%s holds the derivative of the first terms' % nv, forall_in(0, w.len, lambda q: Select(w.arr, q) == z3.ToReal(q + 1) * Select(c.arr, q + 1))
    yield 'len(%s)=%s' % (nv, ni), w.len == i


def int_inv(c, w, i, nv, ni):
    yield 'len(%s)=%s+1' % (nv, ni), w.len == i + 1
    yield '%s[0]=0' % nv, And(w.len >= 1, Select(w.arr, 0) == 0)
    yield '%s<=n' % ni, i <= c.len
    yield '%s holds the integral of the first terms' % nv, forall_in(0, w.len - 1, lambda q: Select(w.arr, q + 1) == QUOT(Select(c.arr, q), z3.ToReal(q + 1)))


def newest_poly(s, n):
    """coefficient array of the polynomial the result refers to"""
    return s.heap1('Euclid::MathUtils::Polynomial', unwrap(s.result)).m_coef.arr


CONTRACTS = [
    Contract(M + 'Polynomial::operator()', props=['C10', 'C11'], ensures=lambda s: [('sum-of-terms', s.result == POLY(s.this.m_coef.arr, unwrap(s[0]), s.this.m_coef.len))],
             inv=inv_poly),
    Contract(M + 'Polynomial::{ctor}', sig=['vector'], props=['C10'],
             ensures=lambda s: [('coefficients', unwrap(s.this1.m_coef) == unwrap(s[0])), ('no-cache', And(s.this1.m_derivative == 0, s.this1.m_indefIntegral == 0))]),
    Contract(M + 'Polynomial::getCoefficients', props=['C10'], ensures=lambda s: [('coefficients', unwrap(s.result) == unwrap(s.this.m_coef))]),
    Contract(M + 'Polynomial::clone', props=['C10'],
             ensures=lambda s: [('same-values', allx(lambda x: EVAL(unwrap(s.result), x) == POLY(s.this.m_coef.arr, x, s.this.m_coef.len), lambda x: EVAL(unwrap(s.result), x))),
                                ('not-null', s.result > 0)]),
    Contract(M + 'Polynomial::derivative', props=['C10'], modifies={'this': ['m_derivative']}, requires=lambda s: poly_inv(s.this),
             ensures=lambda s: [('derivative', allx(lambda x: EVAL(unwrap(s.result), x) == DPOLY(s.this.m_coef.arr, x, s.this.m_coef.len), lambda x: EVAL(unwrap(s.result), x))),
                                ('not-null', s.result > 0)] + poly_inv(s.this1),
             hints=lambda s: [L_der(newest_poly(s, 0), s.this.m_coef.arr, s.this.m_coef.len)], inv=inv_coefs(der_inv)),
    Contract(M + 'Polynomial::indefiniteIntegral', props=['C10'], modifies={'this': ['m_indefIntegral']}, requires=lambda s: poly_inv(s.this),
             ensures=lambda s: [('integral', allx(lambda x: EVAL(unwrap(s.result), x) == IPOLY(s.this.m_coef.arr, x, s.this.m_coef.len), lambda x: EVAL(unwrap(s.result), x))),
                                ('not-null', s.result > 0)] + poly_inv(s.this1),
             hints=lambda s: [L_int(newest_poly(s, 0), s.this.m_coef.arr, s.this.m_coef.len)], inv=inv_coefs(int_inv)),
    Contract(M + 'NAryFunctionImpl::operator()', trusted='a Function evaluates to EVAL of its identity; each implementation is verified against its own EVAL',
             ensures=lambda s: [s.result == EVAL(s.thisref, unwrap(s[0]))]),
    Contract(M + 'NAryFunction::clone', trusted='a clone is a new object with the same values',
             ensures=lambda s: [s.result > 0, allx(lambda x: EVAL(unwrap(s.result), x) == EVAL(s.thisref, x), lambda x: EVAL(unwrap(s.result), x)),
                                INTEGRABLE(unwrap(s.result)) == INTEGRABLE(s.thisref)]),
    Contract(M + 'Integrable::integrate', trusted='an Integrable integrates to INTEG of its identity; implementations are verified separately',
             ensures=lambda s: [s.result == INTEG(s.thisref, unwrap(s[0]), unwrap(s[1]))]),
    Contract(M + 'Differentiable::indefiniteIntegral', trusted='antiderivative of the identity; Polynomial::indefiniteIntegral is verified separately',
             ensures=lambda s: [s.result > 0, allx(lambda x: EVAL(unwrap(s.result), x) == ANTI(s.thisref, x), lambda x: EVAL(unwrap(s.result), x))]),
    Contract(M + 'Differentiable::integrate', props=['C10'], setup='heapthis',
             ensures=lambda s: [('fundamental-theorem', s.result == ANTI(s.thisref, unwrap(s[1])) - ANTI(s.thisref, unwrap(s[0])))]),
]


# --------------------------------------------------------------------- piecewise
def sorted_(k, n, strict=False):
    i, j = z3.FreshConst(I, 'q'), z3.FreshConst(I, 'q')
    return ForAll([i, j], Implies(And(0 <= i, i < j, j < n), Select(k, i) < Select(k, j) if strict else Select(k, i) <= Select(k, j)), patterns=[z3.MultiPattern(Select(k, i), Select(k, j))])


def pw_wf(p):
    return [('sizes', p.m_knots.len == p.m_functions.len + 1), ('increasing', sorted_(p.m_knots.arr, p.m_knots.len))]


def pw_val(k, fs, n, x, v):
    i = z3.FreshConst(I, 'q')
    return [('zero-below', Implies(x < Select(k, 0), v == 0)),
            ('first-knot', Implies(And(n >= 2, x == Select(k, 0)), v == EVAL(Select(fs, 0), x))),
            ('piece', ForAll([i], Implies(And(1 <= i, i < n, Select(k, i - 1) < x, x <= Select(k, i)), v == EVAL(Select(fs, i - 1), x)), patterns=[Select(k, i)])),
            ('zero-above', Implies(x > Select(k, n - 1), v == 0))]


def seg(k0, k1, f, a, b):
    return If(And(a < k1, b > k0), INTEG(f, If(a > k0, a, k0), If(b < k1, b, k1)), RealVal(0))


# integral over the pieces between the first n knots, clipped to [a,b]
PINT = specfn('pint', [AR, AI, R, R, I], R, lambda k, fs, a, b, n: If(n <= 1, RealVal(0), PINT(k, fs, a, b, n - 1) + seg(Select(k, n - 2), Select(k, n - 1), Select(fs, n - 2), a, b)))
# (d, n): the first/last knots below/above the interval; stated with sortedness so that one comparison is enough
L_pint_lo = Lemma('pieces-below-the-interval', [('k', AR), ('fs', AI), ('a', R), ('b', R), ('n', I)], lambda k, fs, a, b, n: PINT(k, fs, a, b, n) == 0,
                  hyp=lambda k, fs, a, b, n: And(sorted_(k, n), Select(k, n - 1) <= a), induct=4, base=1)
L_pint_hi = Lemma('pieces-above-the-interval', [('k', AR), ('fs', AI), ('a', R), ('b', R), ('m', I), ('d', I)], lambda k, fs, a, b, m, d: PINT(k, fs, a, b, m + d) == PINT(k, fs, a, b, m),
                  hyp=lambda k, fs, a, b, m, d: And(m >= 1, sorted_(k, m + d), Select(k, m - 1) >= b), induct=5)
LEMMAS += [L_pint_lo, L_pint_hi]


def pint(p, x1, x2):
    k, fs, n = p.m_knots.arr, p.m_functions.arr, p.m_knots.len
    return If(x1 == x2, RealVal(0), If(x1 < x2, PINT(k, fs, x1, x2, n), -PINT(k, fs, x2, x1, n)))


def pint_lemmas(s):
    p, x1, x2 = s.this, unwrap(s[0]), unwrap(s[1])
    k, fs, n = p.m_knots.arr, p.m_functions.arr, p.m_knots.len
    out = []
    for lo, hi in ((x1, x2), (x2, x1)):
        out.append(L_pint_lo.forall(lambda k, fs, a, b, n: PINT(k, fs, a, b, n), k, fs, lo, hi, None))
        m = z3.FreshConst(I, 'm')
        out.append(LemmaInst(L_pint_hi, ForAll([m], Implies(And(sorted_(k, n), 1 <= m, m <= n, Select(k, m - 1) >= hi), PINT(k, fs, lo, hi, n) == PINT(k, fs, lo, hi, m)), patterns=[PINT(k, fs, lo, hi, m)])))
    return out


def bad_knots(k, nk, nf):
    i = z3.FreshConst(I, 'q')
    return Or(nk != nf + 1, Exists([i], And(1 <= i, i < nk, Select(k, i) < Select(k, i - 1))))


def inv_sorted(v):
    k = v.this.m_knots
    for ni, i in v.idxs():
        for o, m in (('up to', i + 1), ('below', i)):
            yield 'increasing %s %s' % (o, ni), sorted_(k.arr, If(m < k.len, m, k.len))
        yield '%s<n' % ni, And(0 <= i, i < k.len)
        yield '%s<=n' % ni, And(0 <= i, i <= k.len)


def inv_pint(v):
    p = v.ctx.this
    x1, x2 = unwrap(v.ctx[0]), unwrap(v.ctx[1])
    lo, hi = If(x1 < x2, x1, x2), If(x1 < x2, x2, x1)
    k, fs, n = p.m_knots.arr, p.m_functions.arr, p.m_knots.len
    its = v.idxs()
    for ni, i in its:
        yield '%s in range' % ni, And(0 <= i, i < n)
        yield '%s<=n' % ni, And(0 <= i, i <= n)
        for nr, r in v.reals():
            yield '%s=pieces up to %s' % (nr, ni), unwrap(r) == PINT(k, fs, lo, hi, i + 1)
            yield '%s=pieces below %s' % (nr, ni), unwrap(r) == PINT(k, fs, lo, hi, i)
        for nj, j in its:
            if nj < ni:
                yield '%s=%s' % (ni, nj), i == j


def clone_inv(v):
    fs = v.ctx.this.m_functions
    for nv, w in v.modified(None, lambda t: v.E.S.is_vec(t.sort()) and varr(t).sort() == AI):
        yield 'len(%s)' % nv, w.len == v.k
        q, x = z3.FreshConst(I, 'q'), z3.FreshConst(R, 'x')
        yield '%s cloned' % nv, ForAll([q, x], Implies(And(0 <= q, q < w.len), EVAL(Select(w.arr, q), x) == EVAL(Select(fs.arr, q), x)), patterns=[EVAL(Select(w.arr, q), x)])


def pw_meaning(r, k, fs, n):
    x, i = z3.FreshConst(R, 'x'), z3.FreshConst(I, 'q')
    a, b = z3.FreshConst(R, 'a'), z3.FreshConst(R, 'b')
    v = EVAL(r, x)
    return [ForAll([x], And(Implies(x < Select(k, 0), v == 0), Implies(And(n >= 2, x == Select(k, 0)), v == EVAL(Select(fs, 0), x)), Implies(x > Select(k, n - 1), v == 0)), patterns=[v]),
            ForAll([x, i], Implies(And(1 <= i, i < n, Select(k, i - 1) < x, x <= Select(k, i)), v == EVAL(Select(fs, i - 1), x)), patterns=[z3.MultiPattern(v, Select(k, i))]),
            INTEGRABLE(r)]


def small_poly(c, x, n):
    """a polynomial of up to four coefficients, written out"""
    a = [Select(c, IntVal(i)) for i in range(4)]
    return And(Implies(n == 1, POLY(c, x, n) == a[0]), Implies(n == 2, POLY(c, x, n) == a[0] + a[1] * x), Implies(n == 3, POLY(c, x, n) == a[0] + a[1] * x + a[2] * x * x),
               Implies(n == 4, POLY(c, x, n) == a[0] + a[1] * x + a[2] * x * x + a[3] * x * x * x))


L_small = [Lemma('written-out-%d' % k, [('c', AR), ('x', R)], lambda c, x, k=k: small_poly(c, x, IntVal(k)), fuel=6) for k in (1, 2, 3, 4)]
LEMMAS += L_small


def new_poly(E, s, r, p):
    x = z3.FreshConst(R, 'x')
    return [ForAll([x], And(EVAL(r, x) == POLY(p.m_coef.arr, x, p.m_coef.len), small_poly(p.m_coef.arr, x, p.m_coef.len)), patterns=[EVAL(r, x)]), INTEGRABLE(r)]


def new_pw(E, s, r, p):
    return pw_meaning(r, p.m_knots.arr, p.m_functions.arr, p.m_knots.len)


def m_adapter(E, s, fr, e, this, args):
    """FunctionAdapter(f) evaluates to f"""
    f = E.val(s, args[0])
    fn = stdlib.pure_fn(E, s, fr, f, [dbl(E)], [R], e)
    r = E.alloc(s, E.ty(e['t']), E.fresh('adapter', E.sort(E.ty(e['t']))))
    x = z3.FreshConst(R, 'x')
    s.assume(ForAll([x], EVAL(r, x) == fn(x), patterns=[EVAL(r, x)]))
    return [(s, ('newref', r))]


def dbl(E):
    return [t for t in E.tu.types if t['k'] == 'float' and t['bits'] == 64 and not t.get('const')][0]


def dyncast(E, s, v, e):
    """a cast to Integrable gives the object itself or null; a cast to a known class gives that object"""
    to = E.ty(e['t'])
    s_ = to['s']
    if 'Integrable' in s_ and to['k'] == 'ptr':
        r = E.val(s, v)
        r = r.lv.root[2] if isinstance(r, PyPtr) and r.lv.root[0] == 'h' and not r.lv.path else unwrap(r)
        return If(INTEGRABLE(r), r, IntVal(0))
    raise Unsupported('dynamic_cast to %s' % s_)


CONFIG = {'ref_params': [r'MathUtils::NAryFunction<'], 'on_new': {r'MathUtils::Polynomial$': new_poly, r'MathUtils::Piecewise$': new_pw},
          'models': {M + 'FunctionAdapter::{ctor}': m_adapter}, 'dyncast': dyncast, 'ignore': ['Elements::Logging'], 'quot': True}
CONTRACTS += [
    Contract(M + 'Piecewise::{ctor}', sig=['vector<double', 'unique_ptr'], props=['C10'], name=M + 'Piecewise::Piecewise(knots, unique_ptrs)',
             throws=lambda s: [('Elements::Exception', bad_knots(s[0].arr, s[0].len, s[1].len))],
             ensures=lambda s: [('knots', unwrap(s.this1.m_knots) == unwrap(s[0])), ('functions', unwrap(s.this1.m_functions) == unwrap(s[1]))] + pw_wf(s.this1), inv=inv_sorted),
    Contract(M + 'Piecewise::{ctor}', sig=['vector<double', 'shared_ptr'], props=['C10'], name=M + 'Piecewise::Piecewise(knots, shared_ptrs)',
             throws=lambda s: [('Elements::Exception', bad_knots(s[0].arr, s[0].len, s[1].len))],
             ensures=lambda s: [('knots', unwrap(s.this1.m_knots) == unwrap(s[0])), ('functions.len', s.this1.m_functions.len == s[1].len)] + pw_wf(s.this1), inv=inv_sorted),
    Contract(M + 'Piecewise::operator()', props=['C10', 'C11'], requires=lambda s: pw_wf(s.this),
             ensures=lambda s: pw_val(s.this.m_knots.arr, s.this.m_functions.arr, s.this.m_knots.len, unwrap(s[0]), unwrap(s.result))),
    Contract(M + 'Piecewise::integrate', props=['C10'], requires=lambda s: pw_wf(s.this) + [('pieces-integrable', forall_in(0, s.this.m_functions.len, lambda i: INTEGRABLE(Select(s.this.m_functions.arr, i))))],
             ensures=lambda s: [('sum-over-pieces', s.result == pint(s.this, unwrap(s[0]), unwrap(s[1])))], inv=inv_pint, lemmas=pint_lemmas),
    Contract(M + 'integrate', sig=['NAryFunction', 'double', 'double', 'unique_ptr'], props=['C10'], setup='refs',
             throws=lambda s: [('Elements::Exception', And(Not(INTEGRABLE(s.ref(0))), s[3] == 0))],
             ensures=lambda s: [('own-integral', Implies(INTEGRABLE(s.ref(0)), s.result == INTEG(s.ref(0), unwrap(s[1]), unwrap(s[2]))))]),
    Contract(M + 'Piecewise::clone', props=['C10'], requires=lambda s: pw_wf(s.this), inv=clone_inv,
             ensures=lambda s: [('not-null', s.result > 0)]),
]
CONTRACTS += [
    Contract(M + 'NumericalIntegrationScheme::operator()', trusted='any value: what a numerical scheme returns is its own business', ensures=lambda s: []),
]


# ----------------------------------------------------------------- interpolation
def line(x, y, i, v):
    """value at v of the straight line through points i and i+1"""
    return Select(y, i) + QUOT(Select(y, i + 1) - Select(y, i), Select(x, i + 1) - Select(x, i)) * (v - Select(x, i))


def lin_inv(v):
    x, y = v.ctx[0], v.ctx[1]
    for nv, w in v.modified(None, lambda t: v.E.S.is_vec(t.sort()) and varr(t).sort() == AI):
        for ni, i in v.idxs():
            yield 'len(%s)=%s' % (nv, ni), w.len == i
            yield '%s<=n-1' % ni, i <= x.len - 1
        q, u = z3.FreshConst(I, 'q'), z3.FreshConst(R, 'x')
        yield '%s holds the segments' % nv, ForAll([q, u], Implies(And(0 <= q, q < w.len), EVAL(Select(w.arr, q), u) == line(x.arr, y.arr, q, u)), patterns=[EVAL(Select(w.arr, q), u)])


def lin_val(x, y, n, ex, v, r):
    """r is the value at v of the interpolant"""
    i = z3.Const('knot_i', I)
    up = lambda j: Select(x, j) < Select(x, j + 1)
    return [('first-knot', Implies(And(up(IntVal(0)), v == Select(x, 0)), r == Select(y, 0))),
            ('knots', Implies(And(0 <= i, i + 1 < n, up(i), v == Select(x, i + 1)), r == Select(y, i + 1))),
            ('segments', Implies(And(0 <= i, i + 1 < n, Select(x, i) < v, v <= Select(x, i + 1)), r == line(x, y, i, v))),
            ('zero-below', Implies(And(Not(ex), v < Select(x, 0)), r == 0)), ('zero-above', Implies(And(Not(ex), v > Select(x, n - 1)), r == 0)),
            ('continues-below', Implies(And(ex, up(IntVal(0)), v < Select(x, 0)), r == line(x, y, IntVal(0), v))),
            ('continues-above', Implies(And(ex, up(n - 2), v > Select(x, n - 1)), r == line(x, y, n - 2, v)))]


HUGE = stdlib.DBLMAX


def lin_post(s):
    x, y, ex = s[0], s[1], unwrap(s[2])
    v = z3.Const('v_arg', R)
    return lin_all(x, y, ex, v, unwrap(s.result)) + [('not-null', s.result > 0)]


def lin_all(x, y, ex, v, r, cond=True):
    inb = And(cond, v >= -HUGE, v <= HUGE)
    return [(n, Implies(inb, f)) for n, f in lin_val(x.arr, y.arr, x.len, ex, v, EVAL(r, v))]


CONTRACTS += [
    Contract(M + 'linearInterpolation', props=['C11'], inv=lin_inv, requires=lambda s: [('two-or-more', s[0].len >= 2), ('same-size', s[0].len == s[1].len), ('increasing', sorted_(s[0].arr, s[0].len)),
                                                                                       ('finite', forall_in(0, s[0].len, lambda i: And(Select(s[0].arr, i) > -HUGE, Select(s[0].arr, i) < HUGE)))],
             ensures=lin_post, conf={"fuel": 4}, hints=lambda s: [L_QUOT.forall(lambda a, b: QUOT(a, b), None, None)] + [touch(Select(s.heap1(M + 'Piecewise', unwrap(s.result)).m_knots.arr, j)) for j in (z3.Const('knot_i', I), z3.Const('knot_i', I) + 1, s[0].len - 1, IntVal(1))]),
]


def strict(x):
    return sorted_(x.arr, x.len, True)


def itp_inv(v):
    x, y = v.ctx[0], v.ctx[1]
    for ni, i in v.idxs():
        yield '%s in range' % ni, And(1 <= i, i <= x.len)
        yield 'increasing below %s' % ni, sorted_(x.arr, i)
    vs = v.modified(None, lambda t: v.E.S.is_vec(t.sort()) and varr(t).sort() == AR)
    for nv, w in vs:
        yield 'len(%s)>0' % nv, w.len >= 1
        for ni, i in v.idxs():
            yield 'len(%s)<=%s' % (nv, ni), w.len <= i
            for o, u in (('x', x), ('y', y)):
                q = z3.FreshConst(I, 'q')
                yield '%s=%s below %s unless it repeats' % (nv, o, ni), Implies(strict(x), And(w.len == i, forall_in(0, i, lambda q: Select(w.arr, q) == Select(u.arr, q))))
                yield '%s begins as %s' % (nv, o), Select(w.arr, 0) == Select(u.arr, 0)
            yield '%s ends with x[%s-1] and increases' % (nv, ni), And(sorted_(w.arr, w.len), Select(w.arr, w.len - 1) == Select(x.arr, i - 1))
        for nw, u in vs:
            if nw < nv:
                yield 'len(%s)=len(%s)' % (nv, nw), w.len == u.len


def itp_post(s):
    x, y, lin, ex = s[0], s[1], s[2] == 0, unwrap(s[3])
    v, r = z3.Const('v_arg', R), unwrap(s.result)
    c = And(strict(x), lin, x.len >= 2, forall_in(0, x.len, lambda i: And(Select(x.arr, i) > -HUGE, Select(x.arr, i) < HUGE)))
    return lin_all(x, y, ex, v, r, c) + [('one-point', Implies(x.len == 1, EVAL(r, v) == If(Or(ex, v == Select(x.arr, 0)), Select(y.arr, 0), 0)))]


def decreasing(x):
    i = z3.FreshConst(I, 'q')
    return Exists([i], And(1 <= i, i < x.len, Select(x.arr, i) < Select(x.arr, i - 1)))


CONTRACTS += [
    Contract(M + 'interpolate', sig=['vector<double', 'vector<double', 'Type', 'bool'], props=['C11'], name=M + 'interpolate(x, y)', inv=itp_inv,
             requires=lambda s: [('int-sized', s[0].len < 2 ** 31), ('finite', forall_in(0, s[0].len, lambda i: And(Select(s[0].arr, i) > -HUGE, Select(s[0].arr, i) < HUGE)))],
             throws=lambda s: [(M + 'InterpolationException', Or(s[0].len != s[1].len, s[0].len == 0, decreasing(s[0])))], ensures=itp_post),
]


def spl_inv(v):
    n = v.ctx[0].len - 1
    for ni, i in v.idxs():
        yield '%s<=n' % ni, i <= n
        yield '%s>=-1' % ni, And(i >= -1, i < n)
    for nv, w in v.modified(None, lambda t: v.E.S.is_vec(t.sort())):
        yield 'len(%s)=n' % nv, w.len == n
        yield 'len(%s)=n+1' % nv, w.len == n + 1
        yield 'len(%s)=k' % nv, w.len == v.k


CONTRACTS += [
    Contract(M + 'splineInterpolation', props=['C11'], inv=spl_inv, requires=lambda s: [('two-or-more', s[0].len >= 2), ('int-sized', s[0].len < 2 ** 31), ('same-size', s[0].len == s[1].len), ('increasing', sorted_(s[0].arr, s[0].len)),
                                                                                       ('finite', forall_in(0, s[0].len, lambda i: And(Select(s[0].arr, i) > -HUGE, Select(s[0].arr, i) < HUGE)))],
             ensures=lambda s: [('not-null', s.result > 0)]),
]


def simple_post(s):
    x, y, ex = s[1], s[2], unwrap(s[3])
    i, v, r = z3.Const('knot_i', I), unwrap(s[0]), unwrap(s.result)
    return [(n, Implies(x.len >= 2, f)) for n, f in lin_val(x.arr, y.arr, x.len, ex, v, r) if n != 'first-knot'] + \
        [('one-point', Implies(x.len == 1, r == If(Or(ex, v == Select(x.arr, 0)), Select(y.arr, 0), 0))), ('first-knot', Implies(And(x.len >= 2, v == Select(x.arr, 0)), r == Select(y.arr, 0)))]


CONTRACTS += [
    Contract(M + 'simple_interpolation', props=['C11'], requires=lambda s: [('increasing', strict(s[1]))], conf={'fuel': 3},
             throws=lambda s: [(M + 'InterpolationException', Or(s[1].len == 0, s[1].len != s[2].len))], ensures=simple_post,
             hints=lambda s: [L_QUOT.forall(lambda a, b: QUOT(a, b), None, None), touch(Select(s[1].arr, z3.Const('knot_i', I))), touch(Select(s[1].arr, z3.Const('knot_i', I) + 1)), touch(Select(s[1].arr, s[1].len - 2))]),
    Contract(M + 'DefaultMultiplication::operator()', props=['C10'], ensures=lambda s: [('product', s.result == EVAL(unwrap(s.this.m_f1), unwrap(s[0])) * EVAL(unwrap(s.this.m_f2), unwrap(s[0])))],
             requires=lambda s: [('both', And(s.this.m_f1 > 0, s.this.m_f2 > 0))]),
    Contract(M + 'DefaultMultiplication::{ctor}', sig=['NAryFunction', 'NAryFunction'], props=['C10'],
             ensures=lambda s: [('same-factors', And(allx(lambda x: EVAL(unwrap(s.this1.m_f1), x) == EVAL(s.ref(0), x), lambda x: EVAL(unwrap(s.this1.m_f1), x)),
                                                     allx(lambda x: EVAL(unwrap(s.this1.m_f2), x) == EVAL(s.ref(1), x), lambda x: EVAL(unwrap(s.this1.m_f2), x)))),
                                ('both', And(s.this1.m_f1 > 0, s.this1.m_f2 > 0))]),
]
