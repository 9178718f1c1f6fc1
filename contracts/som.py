"""SOM: distances, the best matching cell, learning rates and training, instantiated with two weights per cell.

The cells of a map are a ghost list $cells; an iterator over a map is a position in it, and the coordinates of a position are those of
a grid with two axes (C06 and C07).  NF and LF are the neighbourhood and the learning function of a trainer."""
from cppvc.api import *
NAME = 'som'
DRIVER = 'drivers/som.cpp'
N = 'Euclid::SOM::'
FOLDS = []
P = ['C19']
ND = 2
SQRT = z3.Function('sqrt', R, R)
EXP = z3.Function('m_exp', R, R)
INPUT = z3.DeclareSort('Input')
FUNCT = z3.DeclareSort('Callable')
GRID = z3.DeclareSort('Grid')
AT = z3.Function('INPUT_AT', I, INPUT)
START = z3.Function('START', I, I, I)
NEXT = z3.Function('NEXT', I, I)
AX = [z3.Function('AXIS%d' % i, I, I) for i in range(2)]
POS = z3.Function('POSITION', I, I, I)
W = z3.Function('WEIGHTS', INPUT, AR)
NF = z3.Function('NF', I, I, I, I, I, I, R)
LF = z3.Function('LF', I, I, R)
MAX = z3.Real('DBL_MAX')


def celltype(E):
    return [t for t in E.tu.types if t['k'] == 'rec' and t['s'] == 'std::array<double, 2>' and not t.get('const')][0]


def cells_sort(E):
    return E.S.vec_of(E.sort(celltype(E)))


GHOSTS = {r'Euclid::SOM::SOM<': [('$cells', cells_sort), ('$before', cells_sort), ('$bx', lambda E: I), ('$by', lambda E: I), ('$at', lambda E: I), ('$turn', lambda E: I), ('$started', lambda E: I)]}


def arr(c):
    """the numbers of an array"""
    return varr(unwrap(c))


SQ = specfn('sumsq', [AR, AR, I], R, lambda a, b, n: If(n <= 0, RealVal(0), SQ(a, b, n - 1) + (Select(a, n - 1) - Select(b, n - 1)) * (Select(a, n - 1) - Select(b, n - 1))))
SU = specfn('sumsq_u', [AR, AR, AR, I], R, lambda a, b, u, n: If(n <= 0, RealVal(0), SU(a, b, u, n - 1) + QUOT((Select(a, n - 1) - Select(b, n - 1)) * (Select(a, n - 1) - Select(b, n - 1)), Select(u, n - 1) * Select(u, n - 1))))


def inv_dist(v):
    a = [arr(v.ctx[i]) for i in range(len(v.ctx.fn['params']))]
    f = SQ if len(a) == 2 else SU
    for ni, i in v.idxs():
        yield '%s<=n' % ni, And(0 <= i, i <= ND)
        for nr, r in v.reals():
            yield '%s=sum before %s' % (nr, ni), r == f(*a, i)


def len2(*a):
    return [('two-numbers', And(*[unwrap(x.len) == ND for x in a]))]


# ------------------------------------------------------------------ the map
def somlv(E, s):
    """the map the function under proof works on"""
    c = E.fnctx
    if c.fn['q'].startswith(N + 'SOM::'):
        return c.this_lv
    return c.args[c.fn['params'][0]['id']]


def somval(E, st):
    return wrap(E, E.load(st, E.canon(st, somlv(E, st))))


class Cells:
    def __init__(self, E, c):
        self.E, c = E, unwrap(c)
        self.v, self.n, self.a = c, vlen(c), varr(c)

    def at(self, k):
        return varr(Select(self.a, k))

    def wf(self):
        k = z3.FreshConst(I, 'k')
        return [('cells', self.n > 0), ('two-numbers-each', ForAll([k], vlen(Select(self.a, k)) == ND, patterns=[Select(self.a, k)]))]

    def finite(self, d):
        return [('distances-below-the-largest-number', forall_in(0, self.n, lambda k: d(k) < MAX))]


def dist(c, x, u=None):
    return (lambda k: SQRT(SQ(c.at(k), x, IntVal(ND)))) if u is None else (lambda k: SQRT(SU(c.at(k), x, u, IntVal(ND))))


def nearest(c, d, x, y, dd):
    p = POS(x, y)
    return [('a-cell', And(0 <= p, p < c.n, AX[0](p) == x, AX[1](p) == y)), ('its-distance', dd == d(p)), ('the-smallest', forall_in(0, c.n, lambda k: d(k) >= dd))]


def axis_facts(n):
    k = z3.FreshConst(I, 'k')
    return ForAll([k], Implies(And(0 <= k, k < n), POS(AX[0](k), AX[1](k)) == k), patterns=[AX[0](k), AX[1](k)])


def bmu_args(s):
    c = Cells(s.E, getattr(s.this, '$cells'))
    return c, dist(c, *[arr(s[i]) for i in range(len(s.fn['params']))])


def inv_bmu(v):
    c = Cells(v.E, getattr(somval(v.E, v.st), '$cells'))
    x = [arr(v.ctx[i]) for i in range(len(v.ctx.fn['params']))]
    d = dist(c, *x)
    for ni, i in v.idxs():
        yield '%s<=cells' % ni, And(0 <= i, i <= c.n)
        for nr, r in v.reals():
            for na, a in v.accs():
                yield '%s in cells' % na, And(0 <= a, a < c.n)
                yield 'first of all', Or(And(i == 0, r == MAX), And(i > 0, r == d(a)))
                yield 'smallest before ' + ni, forall_in(0, i, lambda k: d(k) >= r)


def m_pos(f):
    return lambda E, s, fr, e, o, args: [(s, f(E, s))]


def m_step(E, s, fr, e, o, args):
    v = E.term(s, E.val(s, o))
    E.oblige(s, 'safety', And(0 <= v, v < Cells(E, getattr(somval(E, s), '$cells')).n), e['l'], 'iterator-before-the-end')
    E.store(s, o, v + 1)
    return [(s, o if not args else v)]


def m_cell(E, s, fr, e, o, args):
    v = E.term(s, E.val(s, o))
    E.oblige(s, 'safety', And(0 <= v, v < Cells(E, getattr(somval(E, s), '$cells')).n), e['l'], 'iterator-before-the-end')
    lv = E.canon(s, somlv(E, s))
    return [(s, LVal(lv.root, tuple(lv.path) + (('f', '$cells'), ('i', v)), celltype(E)))]


def m_axis(E, s, fr, e, o, args):
    v = E.term(s, E.val(s, o))
    E.assumed.add('a position of a grid with two axes has its own pair of coordinates (C06, proved for three axes)')
    s.assume(axis_facts(Cells(E, getattr(somval(E, s), '$cells')).n))
    i = int(re.search(r'ILi(\d)E|ILm(\d)E', e['m']).group(1) or 0)
    return [(s, AX[i](v))]


def m_set(E, s, fr, e, o, args):
    E.store(s, o, E.term(s, E.val(s, args[0])))
    return [(s, o)]


def m_cmp(neg):
    def h(E, s, fr, e, o, args):
        a, b = E.term(s, E.val(s, o)), E.term(s, E.val(s, args[0]))
        return [(s, Not(a == b) if neg else a == b)]
    return h


def m_weights(E, s, fr, e, o, args):
    """the weights of an input: code of the user"""
    so = E.sort(E.ty(e['ret']) if 'ret' in e else celltype(E))
    return [(s, mkvec(so, IntVal(ND), W(E.term(s, E.val(s, args[0])))))]


def m_tie(E, s, fr, e, o, args):
    return [(s, ('tie', [E.canon(s, a) for a in args]))]


def m_untie(E, s, fr, e, o, args):
    if not (isinstance(o, tuple) and o and o[0] == 'tie'):
        return None
    v = E.term(s, E.val(s, args[0]))
    for i, lv in enumerate(o[1]):
        E.store(s, lv, core.rget(E.S, v, 'e%d' % i))
    return [(s, o)]


# ------------------------------------------------------------------ training
class T:
    """the map under training: its ghost fields tell how far the training has come"""

    def __init__(self, E, st):
        self.E, self.lv, c = E, E.canon(st, somlv(E, st)), E.fnctx
        self.v = E.load(st, self.lv)
        self.iters, self.begin, self.end = [unwrap(c[i]) for i in (1, 2, 3)]

    def __getattr__(self, n):
        return core.rget(self.E.S, self.v, '$' + n)

    def set(self, st, **kw):
        for n, x in kw.items():
            self.v = core.rset(self.E.S, self.v, '$' + n, x)
        self.E.store(st, self.lv, self.v)

    def done(self):
        """the iterations before this turn are over"""
        return Or(self.turn == 0, LF(self.turn - 1, self.iters) == 0, And(self.started == self.turn, self.at == self.end))

    def new(self, k, w):
        b = Cells(self.E, self.before)
        old = Select(b.at(k), IntVal(w))
        return old + NF(self.bx, self.by, AX[0](k), AX[1](k), self.turn - 1, self.iters) * LF(self.turn - 1, self.iters) * (Select(W(AT(self.at)), IntVal(w)) - old)

    def stepped(self):
        """all cells have moved towards the input"""
        c, b = Cells(self.E, self.cells), Cells(self.E, self.before)
        k = z3.FreshConst(I, 'k')
        r = And(*[Select(c.at(k), IntVal(w)) == self.new(k, w) for w in range(ND)])
        return And(c.n == b.n, ForAll([k], Implies(And(0 <= k, k < c.n), r), patterns=[Select(c.a, k)]))

    def moved(self, upto, w):
        c = Cells(self.E, self.cells)
        k = z3.FreshConst(I, 'k')
        return ForAll([k], Implies(And(0 <= k, k < upto), Select(c.at(k), IntVal(w)) == self.new(k, w)), patterns=[Select(c.a, k)])

    def others(self, upto):
        c, b = Cells(self.E, self.cells), Cells(self.E, self.before)
        k = z3.FreshConst(I, 'k')
        return ForAll([k], Implies(And(upto <= k, k < c.n), Select(c.a, k) == Select(b.a, k)), patterns=[Select(c.a, k)])

    def still(self):
        c, b = Cells(self.E, self.cells), Cells(self.E, self.before)
        k = z3.FreshConst(I, 'k')
        return And(c.n == b.n, ForAll([k], Implies(And(0 <= k, k < c.n), Select(c.a, k) == Select(b.a, k)), patterns=[Select(c.a, k)]))


def training(E):
    return E.fnctx is not None and E.fnctx.fn['q'] == N + 'SOMTrainer::train'


def h_call(E, s, fr, e, o, args):
    """the neighbourhood and the learning function of the trainer"""
    if not training(E) or len(args) not in (2, 4):
        return None
    a = [E.term(s, E.val(s, x)) for x in args]
    t = T(E, s)
    loc = e.get('l', '')
    if len(a) == 2:
        E.oblige(s, 'precondition', And(a[0] == t.turn, a[1] == t.iters), loc, 'each-iteration-in-its-turn')
        E.oblige(s, 'precondition', t.done(), loc, 'the-iteration-before-is-over')
        t.set(s, turn=t.turn + 1)
        return [(s, LF(a[0], a[1]))]
    p = [core.rget(E.S, x, n) for x in a[:2] for n in ('first', 'second')]
    return [(s, NF(*p, a[2], a[3]))]


def m_start(E, s, fr, e, o, args):
    if not training(E):
        return None
    b, en = [E.term(s, E.val(s, x)) for x in args]
    t = T(E, s)
    E.oblige(s, 'precondition', And(b == t.begin, en == t.end), e['l'], 'the-whole-sample')
    E.oblige(s, 'precondition', t.still(), e['l'], 'changes-only-by-inputs')
    t.set(s, started=t.turn, at=START(b, en))
    return [(s, START(b, en))]


def m_next(E, s, fr, e, o, args):
    if not training(E):
        return None
    it = E.term(s, E.val(s, args[0]))
    t = T(E, s)
    E.oblige(s, 'precondition', And(it == t.at, it != t.end), e['l'], 'each-input-in-its-turn')
    E.oblige(s, 'precondition', t.stepped(), e['l'], 'each-cell-moved-towards-the-input')
    t.set(s, before=t.cells, at=NEXT(it))
    return [(s, NEXT(it))]


def m_findbmu(E, s, fr, e, o, args):
    """the contract of findBMU for an input and its weights"""
    if not training(E) or len(args) != 2:
        return None
    t = T(E, s)
    c = Cells(E, t.cells)
    x = E.term(s, E.val(s, args[0]))
    d = dist(c, W(x))
    E.oblige(s, 'precondition', x == AT(t.at), e['l'], 'the-cell-of-this-input')
    E.oblige(s, 'precondition', t.still(), e['l'], 'before-any-cell-moves')
    for n, f in c.wf():
        E.oblige(s, 'precondition', f, e['l'], n)
    E.assumed.add('the distances of the cells to the inputs stay below the largest number during the training')
    s.assume(And(*[f for n, f in c.finite(d)]))
    r = E.fresh('bmu', E.sort(E.ty(e['ret']) if 'ret' in e else E.ty(e['t'])))
    g = [core.rget(E.S, r, 'e%d' % i) for i in range(3)]
    s.assume(And(*[f for n, f in nearest(c, d, *g)]))
    t.set(s, bx=g[0], by=g[1])
    return [(s, r)]


def train_pre(s):
    t = T(s.E, s.pre)
    return Cells(s.E, t.cells).wf() + [('not-begun', And(t.turn == 0, t.started == 0, t.cells == t.before))]


def train_post(s):
    t = T(s.E, s.post)
    return [('all-iterations', t.turn == t.iters), ('the-last-is-over', t.done()), ('changes-only-by-inputs', t.still())]


def inv_train(v):
    E = v.E
    t, t0, tp = T(E, v.st), T(E, v.entry.st), T(E, v.ctx.pre)
    for n, f in Cells(E, t.cells).wf():
        yield n, f
    yield 'same number of cells', vlen(t.cells) == vlen(tp.cells)
    # what a loop does is told by the ghost fields it changes: the cells only, the sample, or the turn
    p = {q[0] for ps in v.mods.values() for q in ps if isinstance(q, tuple) and q}
    if '$turn' in p:
        yield 'no cell moved', t.still()
        yield 'iterations over', t.done()
        for ni, i in v.idxs():
            yield 'turn is ' + ni, And(t.turn == i, i <= t.iters)
    elif '$at' in p:
        yield 'no cell moved', t.still()
        for ni, i in v.ints():
            yield 'at ' + ni, t.at == i
    else:
        for ni, i in v.idxs():
            yield ni + '<=cells', And(0 <= i, i <= vlen(t.cells))
            for w in range(ND):
                yield 'weight %d before %s' % (w, ni), t.moved(i, w)
            yield 'others from ' + ni, t.others(i)


# ------------------------------------------------------------------ rates
def at_any(s, sorts, f):
    """the value of the function returned, for any arguments: [(path condition, value)]"""
    E = s.E
    xs = [E.fresh('any', so) for so in sorts]
    st = s.post.copy()
    st.assume(And(*[f(x) for x in xs]))
    return xs, st


def rate_post(spec, pairs):
    def post(s):
        E = s.E
        c = E.val(s.post, s.result_raw) if hasattr(s, 'result_raw') else unwrap(s.result)
        st = s.post.copy()
        i, n = E.fresh('iteration', I), E.fresh('total', I)
        st.assume(And(0 <= i, i < n, n < 2 ** 63))
        args = [i, n]
        co = []
        if pairs:
            pt = E.ty(c.node['params'][0]['t'])
            so = E.sort(pt)
            co = [E.fresh(x, I) for x in ('bx', 'by', 'cx', 'cy')]
            st.assume(And(*[And(0 <= x, x < 2 ** 31) for x in co]))
            args = [so.constructor(0)(co[0], co[1]), so.constructor(0)(co[2], co[3])] + args
        for s2, v in E.call_closure(st, c, args):
            E.oblige(s2, 'post', E.toreal(E.val(s2, v)) == spec(s, i, n, *co), '', 'the-rate-for-any-iteration')
        return []
    return post


def fade(i, n):
    return QUOT(z3.ToReal(n - i), z3.ToReal(n))


def disk(s, i, n, bx, by, cx, cy):
    x, y = z3.ToReal(bx) - z3.ToReal(cx), z3.ToReal(by) - z3.ToReal(cy)
    return If(x * x + y * y < s[0] * s[0] * (fade(i, n) * fade(i, n)), RealVal(1), RealVal(0))


ITER = 'Euclid::GridContainer::GridContainer::iter'
ncells = lambda E, s: Cells(E, getattr(somval(E, s), '$cells')).n
CONFIG = {'quot': True, 'sorts': {ITER: I, 'Euclid::GridContainer::GridContainer': GRID, 'Driver::Input': INPUT, 'Driver::Iter': I},
          'method_hooks': {('std::function', 'operator()'): h_call}, 'models': {'Driver::Weights::operator()': m_weights, 'Driver::Iter::operator*': lambda E, s, fr, e, o, args: [(s, AT(E.term(s, E.val(s, o))))], 'Driver::Iter::operator!=': m_cmp(True), 'Driver::Iter::operator==': m_cmp(False),
                     'std::tie': m_tie, 'std::tuple::operator=': m_untie, N + 'SamplingPolicy::Interface::start': m_start, N + 'SamplingPolicy::Interface::next': m_next, N + 'SOM::findBMU': m_findbmu,
                     **{N + 'SOM::' + n: m_pos(lambda E, s: IntVal(0)) for n in ('begin', 'cbegin')}, **{N + 'SOM::' + n: m_pos(ncells) for n in ('end', 'cend')},
                     ITER + '::operator++': m_step, ITER + '::operator*': m_cell, ITER + '::axisValue': m_axis, ITER + '::operator=': m_set, ITER + '::operator!=': m_cmp(True), ITER + '::operator==': m_cmp(False),
                     'std::numeric_limits::max': lambda E, s, fr, e, o, args: [(s, MAX)] if E.ty(e['t'])['k'] == 'float' else None}}
L_ratio = Lemma('square-of-a-ratio', [('a', R), ('u', R), ('q', R), ('r', R)], lambda a, u, q, r: r == q * q, hyp=lambda a, u, q, r: And(u != 0, q * u == a, r * (u * u) == a * a))
LEMMAS = [L_ratio]


def ratios(s):
    """a squared deviation in units of the uncertainty may be computed as a ratio of squares or as the square of a ratio"""
    l, r, u = [arr(s[i]) for i in range(3)]
    out = []
    for k in range(ND):
        d, v = Select(l, k) - Select(r, k), Select(u, k)
        out += [L_QUOT(d, v), L_QUOT(d * d, v * v), L_ratio(d, v, QUOT(d, v), QUOT(d * d, v * v))]
    return out


def nonzero(u):
    return [('uncertainties-not-zero', And(*[Select(u, k) != 0 for k in range(ND)]))]


def bmu_contract(sig, nm):
    return Contract(N + 'SOM::findBMU', sig=sig, props=P, name=N + 'SOM::findBMU' + nm, inv=inv_bmu,
                    requires=lambda s: len2(*[s[i] for i in range(len(s.fn['params']))]) + (nonzero(arr(s[1])) if len(s.fn['params']) > 1 else []) + bmu_args(s)[0].wf() + bmu_args(s)[0].finite(bmu_args(s)[1]),
                    ensures=lambda s: nearest(*bmu_args(s), s.result.e0, s.result.e1, s.result.e2))


def in_args(s):
    c = Cells(s.E, getattr(s.this, '$cells'))
    return c, dist(c, W(unwrap(s[0])))


CONTRACTS = [
    Contract(N + 'Distance::L2::distance', sig=['array', 'array'], fuel=5, props=P, name=N + 'Distance::L2::distance', inv=inv_dist, requires=lambda s: len2(s[0], s[1]), ensures=lambda s: [('root-of-the-sum-of-squares', s.result == SQRT(SQ(arr(s[0]), arr(s[1]), IntVal(ND))))]),
    Contract(N + 'Distance::L2::distance', sig=['array', 'array', 'array'], fuel=5, props=P, name=N + 'Distance::L2::distance(uncertainties)', inv=inv_dist, lemmas=ratios, requires=lambda s: len2(s[0], s[1], s[2]) + nonzero(arr(s[2])), ensures=lambda s: [('root-of-the-sum-of-squares', s.result == SQRT(SU(arr(s[0]), arr(s[1]), arr(s[2]), IntVal(ND))))]),
    bmu_contract(['array<double'], ''), bmu_contract(['array<double', 'array<double'], '(uncertainties)'),
    Contract(N + 'SOM::findBMU', sig=['Driver::Input', 'Driver::Weights'], props=P, name=N + 'SOM::findBMU(input)', requires=lambda s: in_args(s)[0].wf() + in_args(s)[0].finite(in_args(s)[1]), ensures=lambda s: nearest(*in_args(s), s.result.e0, s.result.e1, s.result.e2)),
    Contract(N + 'SOMTrainer::train', conf={'no_nra': True, 'light': True}, props=P, requires=train_pre, inv=inv_train, ensures=train_post),
    Contract(N + 'LearningRestraintFunc::linear', props=P, ensures=rate_post(lambda s, i, n: fade(i, n), False)),
    Contract(N + 'LearningRestraintFunc::exponentialDecay', props=P, ensures=rate_post(lambda s, i, n: s[0] * EXP(QUOT(-z3.ToReal(i), z3.ToReal(n))), False)),
    Contract(N + 'NeighborhoodFunc::linearUnitDisk', props=P, ensures=rate_post(disk, True)),
]
