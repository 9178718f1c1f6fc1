"""NdArray: addressing, views, iteration, unravel_index."""
from cppvc.api import *

NAME = 'ndarray'
DRIVER = 'drivers/ndarray.cpp'
ND = 'Euclid::NdArray::NdArray'
CK = 'Euclid::NdArray::NdArray<double>::ContainerInterface'

GHOSTS = {r'NdArray<double>::ContainerInterface$': [('$data', lambda E: E.S.vec_of(R))]}

PROD, DOT = prod(), dot()

# row-major index of the first n coordinates (Horner form)
RM = specfn('rm', [AI, AI, I], I, lambda sh, c, n: If(n <= 0, IntVal(0), RM(sh, c, n - 1) * Select(sh, n - 1) + Select(c, n - 1)))


def chain(st, sh, n, lo=0):
    """every stride is the product of the next stride and the next extent"""
    i, j = z3.FreshConst(I, 'q'), z3.FreshConst(I, 'q')
    return ForAll([i, j], Implies(And(lo <= i, j == i + 1, j < n), Select(st, i) == Select(st, j) * Select(sh, j)),
                  patterns=[z3.MultiPattern(Select(st, i), Select(st, j)), z3.MultiPattern(Select(st, i), Select(sh, j))])


def inb(c, sh, n):
    i = z3.FreshConst(I, 'q')
    return ForAll([i], Implies(And(0 <= i, i < n), And(0 <= Select(c, i), Select(c, i) < Select(sh, i))), patterns=[Select(c, i)])


L_dot_rm = Lemma('strides-are-row-major', [('st', AI), ('sh', AI), ('c', AI), ('n', I)],
                 lambda st, sh, c, n: DOT(c, st, 0, n) == Select(st, n - 1) * RM(sh, c, n),
                 hyp=lambda st, sh, c, n: chain(st, sh, n), induct=3, base=1)
L_rm_bound = Lemma('row-major-index-in-range', [('sh', AI), ('c', AI), ('n', I)],
                   lambda sh, c, n: And(0 <= RM(sh, c, n), RM(sh, c, n) < PROD(sh, 0, n)),
                   hyp=lambda sh, c, n: inb(c, sh, n), induct=2)
L_rm_inj = Lemma('row-major-index-is-injective', [('sh', AI), ('c', AI), ('d', AI), ('n', I)],
                 lambda sh, c, d, n: Implies(RM(sh, c, n) == RM(sh, d, n), arr_eq(c, d, 0, n)),
                 hyp=lambda sh, c, d, n: And(inb(c, sh, n), inb(d, sh, n)), induct=3)
# st[0] = step * prod(sh, 1, n)
L_st0 = Lemma('outer-stride', [('st', AI), ('sh', AI), ('n', I)],
              lambda st, sh, n: Select(st, 0) == Select(st, n - 1) * PROD(sh, 1, n),
              hyp=lambda st, sh, n: chain(st, sh, n), induct=2, base=1)
LEMMAS = [L_dot_rm, L_rm_bound, L_rm_inj, L_st0]
FOLDS = [PROD, DOT]


def data0(s, nd):
    return s.heap0(CK, unwrap(nd.m_container)).__getattr__('$data')


def data1(s, nd):
    return s.heap1(CK, unwrap(nd.m_container)).__getattr__('$data')


def wf(nd, data, nref=None, named=True):
    n = nd.m_shape.len
    st, sh = nd.m_stride_size.arr, nd.m_shape.arr
    step = Select(st, n - 1)
    r = [('axes', n >= 1), ('strides.len', nd.m_stride_size.len == n), ('strides', chain(st, sh, n)), ('step', step >= 1),
         ('size', nd.m_size == PROD(sh, 0, n)),
         ('inside-the-data', Implies(nd.m_size > 0, nd.m_offset + step * (nd.m_size - 1) < data.len)),
         ('container', nd.m_container > 0),
         ('names', Or(nd.m_attr_names.len == 0, nd.m_attr_names.len == Select(sh, n - 1)))]
    if nref is not None:
        r.append(('container-known', nd.m_container < nref))
    return r


def wf0(s, nd=None):
    nd = s.this if nd is None else nd
    return wf(nd, data0(s, nd), s.pre.nref)


def geom_hints(nd, c=None):
    n = nd.m_shape.len
    st, sh = nd.m_stride_size.arr, nd.m_shape.arr
    h = [L_st0(st, sh, n)]
    if c is not None:
        h += [L_dot_rm(st, sh, c, n), L_rm_bound(sh, c, n)]
    return h


# ---------------------------------------------------------------- update_strides
def inv_strides(v):
    st, sh = v.this.m_stride_size.arr, v.this.m_shape.arr
    n = v.this.m_shape.len
    for nx, x in v.idxs():
        yield 'chain above %s' % nx, chain(st, sh, n, x)
        yield 'innermost[%s]' % nx, Implies(x < n, Select(st, n - 1) == 1)
        yield '%s<=n' % nx, x <= n
        for ny, y in v.accs():
            if ny != nx:
                yield '%s accumulates from %s' % (ny, nx), And(Implies(x < n, y == Select(st, x) * Select(sh, x)), Implies(x == n, y == 1))


def idx(shape_or, i):
    return i


CONTRACTS = [
    Contract(ND + '::update_strides', props=['C01', 'C02'], modifies={'this': ['m_stride_size']},
             ensures=lambda s: [('strides.len', s.this1.m_stride_size.len == s.this.m_shape.len),
                                ('row-major', chain(s.this1.m_stride_size.arr, s.this.m_shape.arr, s.this.m_shape.len)),
                                ('innermost', Implies(s.this.m_shape.len > 0, s.this1.m_stride_size[s.this.m_shape.len - 1] == 1)),
                                ] + same(s, 'm_offset', 'm_shape', 'm_attr_names', 'm_size', 'm_container'),
             inv=inv_strides),
]


def same(s, *fs):
    return [('keeps-' + f, unwrap(getattr(s.this1, f)) == unwrap(getattr(s.this, f))) for f in fs]


# -------------------------------------------------------------------- get_offset
def off_spec(nd, c):
    return nd.m_offset + DOT(c, nd.m_stride_size.arr, 0, nd.m_shape.len)


def bad_coords(nd, c):
    return Or(c.len != nd.m_shape.len, Not(inb(c.arr, nd.m_shape.arr, nd.m_shape.len)))


def inv_offset(v):
    nd, c = v.ctx.this, v.ctx[0]
    st, sh, n = nd.m_stride_size.arr, nd.m_shape.arr, nd.m_shape.len
    for nx, x in v.idxs():
        i = z3.FreshConst(I, 'q')
        yield 'coords checked below %s' % nx, ForAll([i], Implies(And(0 <= i, i < x), Select(c.arr, i) < Select(sh, i)), patterns=[Select(c.arr, i)])
        for ny, y in v.accs():
            if nx != ny:
                yield '%s=offset+dot[0,%s)' % (ny, nx), y == nd.m_offset + DOT(c.arr, st, 0, x)
                yield '%s=dot[0,%s)' % (ny, nx), y == DOT(c.arr, st, 0, x)
                yield '%s=offset+dot[%s,n)' % (ny, nx), y == nd.m_offset + DOT(c.arr, st, x, n)


CONTRACTS += [
    Contract(ND + '::get_offset', sig=['vector<unsigned long'], props=['C01'], name=ND + '::get_offset(coords)',
             requires=lambda s: wf0(s),
             throws=lambda s: [('std::out_of_range', bad_coords(s.this, s[0]))],
             ensures=lambda s: [('offset', s.result == off_spec(s.this, s[0].arr)),
                                ('in-the-data', s.result < data0(s, s.this).len),
                                ('row-major', s.result == s.this.m_offset + s.this.m_stride_size[s.this.m_shape.len - 1] *
                                 RM(s.this.m_shape.arr, s[0].arr, s.this.m_shape.len))],
             hints=lambda s: geom_hints(s.this, s[0].arr), inv=inv_offset),
]

# ------------------------------------------------------------ the data container
# ContainerInterface owns one flat sequence of elements, `$data`; m_data_ptr points to its first element.
def hook_data_ptr(E, s, lv):
    dt = {'k': 'ghost', 's': 'ghost:data', 'mk': lambda E: E.S.vec_of(R)}
    return PyIter(lv.f('$data', dt), IntVal(0), [t for t in E.tu.types if t['k'] == 'float' and t['bits'] == 64 and not t.get('const')][0])


def dvec(E, s, ref, st=None):
    return wrap(E, Select(E.heap(st or s, CK), ref)).__getattr__('$data')


def new_container(E, s, vec):
    t = [t for t in E.tu.types if t['k'] == 'rec' and unconst(t['s']) == CK][0]
    o = E.fresh('container', E.sort(t))
    o = rset(E.S, o, '$data', mkvec(E.S.vec_of(R), vlen(vec), varr(vec)))
    return E.alloc(s, t, o)


def h_wrapper_ctor(E, s, fr, e, this, args):
    """ContainerWrapper(args...) holds a std::vector built from the same arguments"""
    vt = [t for t in E.tu.types if t['k'] == 'rec' and t['name'] == 'std::vector' and unconst(t['s']).startswith('std::vector<double')][0]
    out = []
    for s2, v in E.std.construct(E, s, fr, vt, dict(e, pt=e['pt']), args):
        out.append((s2, ('newref', new_container(E, s2, v))))
    return out


def h_copy(E, s, fr, e, this, args):
    return [(s, new_container(E, s, unwrap(dvec(E, s, this.root[2]))))]


def h_resize(E, s, fr, e, this, args):
    sh = wrap(E, E.val(s, args[0]))
    old = dvec(E, s, this.root[2])
    n = PROD(sh.arr, 0, sh.len)
    a = E.fresh('data', AR)
    s.assume(arr_eq(a, old.arr, 0, If(n < old.len, n, old.len)))
    cur = Select(E.heap(s, CK), this.root[2])
    E.store(s, this, rset(E.S, cur, '$data', mkvec(E.S.vec_of(R), n, a)))
    return [(s, None)]


def h_memcmp(E, s, fr, e, this, args):
    a, b = [E.val(s, x) for x in args[:2]]
    if isinstance(a, PyPtr) and isinstance(b, PyPtr):
        x, y = E.load(s, a.lv), E.load(s, b.lv)
        if x.sort() == y.sort():
            r = E.fresh('memcmp', I)
            s.assume((r == 0) == (x == y))
            E.assumed.add('memcmp of two objects without padding compares their fields')
            return [(s, r)]
    raise Unsupported('memcmp')


CI = ND + '::ContainerInterface'
CONFIG = {
    'field_hook': {CI + '::m_data_ptr': hook_data_ptr},
    'models': {'memcmp': h_memcmp, 'std::memcmp': h_memcmp},
}
CONTRACTS += [
    Contract(CI + '::size', trusted='a ContainerWrapper reports the length of the vector it owns',
             ensures=lambda s: [s.result == s.heap0(CK, s.this_lv.root[2]).__getattr__('$data').len]),
    Contract(CI + '::resize', trusted='resizing keeps the prefix; the length is what resizeImpl (verified) computes', handler=h_resize),
    Contract(CI + '::copy', trusted='a ContainerWrapper copies the vector it owns', handler=h_copy),
    Contract(ND + '::ContainerWrapper::{ctor}', trusted='a ContainerWrapper owns a std::vector built from its arguments', handler=h_wrapper_ctor),
    Contract(ND + '::ContainerWrapper::resizeImpl', props=['C03'],
             ensures=lambda s: [('length', s.this1.m_container.len == PROD(s[0].arr, 0, s[0].len)),
                                ('keeps-prefix', arr_eq(s.this1.m_container.arr, s.this.m_container.arr, 0,
                                                        If(s.this.m_container.len < s.this1.m_container.len, s.this.m_container.len, s.this1.m_container.len)))]),
]


# --------------------------------------------------------------------------- at
def elem_ref(s, off):
    ref = unwrap(s.this.m_container)
    dt = [t for t in s.E.tu.types if t['k'] == 'float' and t['bits'] == 64 and not t.get('const')][0]
    return LVal(('h', CK, ref), (('f', '$data'), ('i', off)), dt)


def first_name(nd, a, j):
    """j is the position of the first attribute called a"""
    q = z3.FreshConst(I, 'q')
    return And(0 <= j, j < nd.m_attr_names.len, nd.m_attr_names[j] == a,
               ForAll([q], Implies(And(0 <= q, q < j), nd.m_attr_names[q] != a)))


def has_name(nd, a):
    q = z3.FreshConst(I, 'q')
    return Exists([q], And(0 <= q, q < nd.m_attr_names.len, nd.m_attr_names[q] == a))


def bad_coords_attr(nd, c, a):
    n = nd.m_shape.len
    return Or(Not(has_name(nd, a)), c.len + 1 != n, Not(inb(c.arr, nd.m_shape.arr, n - 1)))


def attr_offset(s):
    """offset of coords extended with the attribute's position (position: Skolem term of the contract)"""
    nd, c, a = s.this, s[0], s[1]
    j = APOS(nd.m_attr_names.arr, nd.m_attr_names.len, a)
    n = nd.m_shape.len
    return nd.m_offset + DOT(c.arr, nd.m_stride_size.arr, 0, n - 1) + j * nd.m_stride_size[n - 1]


# position of the first name equal to a (only meaningful when there is one): least index by recursion from the left
AS = ArraySort(I, STR)
APOS_F = specfn('apos', [AS, I, STR], I, lambda arr, n, a: If(n <= 0, IntVal(0), If(APOS_F(arr, n - 1, a) < n - 1, APOS_F(arr, n - 1, a),
                                                                                     If(Select(arr, n - 1) == a, n - 1, n))))


def APOS(arr, n, a):
    return APOS_F(arr, n, a)


L_apos = Lemma('first-position', [('arr', AS), ('a', STR), ('j', I), ('n', I)],
               lambda arr, a, j, n: And(0 <= APOS_F(arr, n, a), APOS_F(arr, n, a) <= n,
                                        Implies(And(0 <= j, j < n, Select(arr, j) == a, forall_in(0, j, lambda q: Select(arr, q) != a)),
                                                APOS_F(arr, n, a) == j),
                                        forall_in(0, APOS_F(arr, n, a), lambda q: Select(arr, q) != a),
                                        Implies(APOS_F(arr, n, a) < n, Select(arr, APOS_F(arr, n, a)) == a)),
               induct=3)
LEMMAS.append(L_apos)


def attr_hints(s):
    nd, c, a = s.this, s[0], s[1]
    n = nd.m_shape.len
    p = APOS(nd.m_attr_names.arr, nd.m_attr_names.len, a)
    ext = Store(c.arr, n - 1, p)
    return [L_apos(nd.m_attr_names.arr, a, p, nd.m_attr_names.len)] + geom_hints(nd, ext)


CONTRACTS += [
    Contract(ND + '::get_offset', sig=['vector<unsigned long', 'string'], props=['C01'], name=ND + '::get_offset(coords, attribute)',
             requires=lambda s: wf0(s),
             throws=lambda s: [('std::out_of_range', bad_coords_attr(s.this, s[0], s[1]))],
             ensures=lambda s: [('offset', s.result == attr_offset(s)), ('in-the-data', s.result < data0(s, s.this).len)],
             hints=attr_hints, hints_on_throw=True),
]
for cst in (False, True):
    CONTRACTS += [
        Contract(ND + '::at', sig=['vector<unsigned long'], const=cst, props=['C01'], name=ND + '::at(coords)' + (' const' if cst else ''),
                 requires=lambda s: wf0(s),
                 throws=lambda s: [('std::out_of_range', bad_coords(s.this, s[0]))],
                 modifies={}, ref=lambda s: elem_ref(s, off_spec(s.this, s[0].arr))),
        Contract(ND + '::at', sig=['vector<unsigned long', 'string'], const=cst, props=['C01'],
                 name=ND + '::at(coords, attribute)' + (' const' if cst else ''),
                 requires=lambda s: wf0(s),
                 throws=lambda s: [('std::out_of_range', bad_coords_attr(s.this, s[0], s[1]))],
                 modifies={}, ref=lambda s: elem_ref(s, attr_offset(s))),
    ]


# ------------------------------------------------------------------------- views
def is_view(s, r, off, sh, st, names, n):
    """r addresses the same container with the given geometry; sh/st/names: functions of the index"""
    q = z3.FreshConst(I, 'q')
    return [('same-data', r.m_container == s.this.m_container), ('offset', r.m_offset == off), ('axes', r.m_shape.len == n),
            ('strides.len', r.m_stride_size.len == n),
            ('extents', ForAll([q], Implies(And(0 <= q, q < n), r.m_shape[q] == sh(q)))),
            ('strides', ForAll([q], Implies(And(0 <= q, q < n), r.m_stride_size[q] == st(q))))] + names


def slice_post(s):
    t, r, n = s.this, s.result, s.this.m_shape.len
    return is_view(s, r, t.m_offset + s[0] * t.m_stride_size[0], lambda q: t.m_shape[q + 1], lambda q: t.m_stride_size[q + 1],
                   [('attribute-names', veq(r.m_attr_names, t.m_attr_names))], n - 1) + wf(r, data1(s, r))


def rslice_post(s):
    t, r, n = s.this, s.result, s.this.m_shape.len
    return is_view(s, r, t.m_offset + s[0] * t.m_stride_size[n - 1], lambda q: t.m_shape[q], lambda q: t.m_stride_size[q],
                   [('no-attribute-names', r.m_attr_names.len == 0)], n - 1) + wf(r, data1(s, r))


def slice_hints(s):
    t = s.this
    n, sh, st = t.m_shape.len, t.m_shape.arr, t.m_stride_size.arr
    r = s.result
    return geom_hints(t) + [L_in_slice(s[0], Select(sh, 0), PROD(sh, 1, n), Select(st, 0), Select(st, n - 1), t.m_offset, data0(s, t).len),
                            PROD.shift(r.m_shape.arr, sh, 1, 0, n - 1)]


def rslice_hints(s):
    t, r = s.this, s.result
    n, sh, st = t.m_shape.len, t.m_shape.arr, t.m_stride_size.arr
    return [L_in_rslice(s[0], Select(sh, n - 1), PROD(sh, 0, n - 1), Select(st, n - 2), Select(st, n - 1), t.m_offset, data0(s, t).len),
            PROD.ext(r.m_shape.arr, sh, 0, n - 1)]


L_lt_mul = Lemma('scaled-bound', [('i', I), ('m', I), ('p', I)], lambda i, m, p: i * p + p <= m * p, hyp=lambda i, m, p: And(i < m, p >= 0))
# the last element of the i-th slice lies in the data when the last element of the array does
L_in_slice = Lemma('slice-inside', [(x, I) for x in ('i', 'm', 'p', 'st0', 'step', 'off', 'len')],
                   lambda i, m, p, st0, step, off, ln: Implies(p > 0, off + i * st0 + step * (p - 1) < ln),
                   hyp=lambda i, m, p, st0, step, off, ln: And(0 <= i, i < m, p >= 0, step >= 1, st0 == step * p, Implies(m * p > 0, off + step * (m * p - 1) < ln)),
                   using=lambda i, m, p, st0, step, off, ln: [L_lt_mul(i, m, p), L_lt_mul(i * p + p, m * p + 1, step)])
L_in_rslice = Lemma('rslice-inside', [(x, I) for x in ('i', 'm', 'p', 'sp', 'step', 'off', 'len')],
                    lambda i, m, p, sp, step, off, ln: Implies(p > 0, off + i * step + sp * (p - 1) < ln),
                    hyp=lambda i, m, p, sp, step, off, ln: And(0 <= i, i < m, p >= 0, step >= 1, sp == step * m, Implies(p * m > 0, off + step * (p * m - 1) < ln)),
                    using=lambda i, m, p, sp, step, off, ln: [L_lt_mul(i, m, step)])
LEMMAS += [L_lt_mul, L_in_slice, L_in_rslice]
for cst in (False, True):
    CONTRACTS += [
        Contract(ND + '::slice', const=cst, props=['C02'], name=ND + '::slice' + (' const' if cst else ''), modifies={},
                 requires=lambda s: wf0(s),
                 throws=lambda s: [('std::out_of_range', Or(s.this.m_shape.len <= 1, s[0] >= s.this.m_shape[0]))],
                 ensures=slice_post, hints=slice_hints),
        Contract(ND + '::rslice', const=cst, props=['C02'], name=ND + '::rslice' + (' const' if cst else ''), modifies={},
                 requires=lambda s: wf0(s),
                 throws=lambda s: [('std::out_of_range', Or(s.this.m_shape.len <= 1, s[0] >= s.this.m_shape[s.this.m_shape.len - 1]))],
                 ensures=rslice_post, hints=rslice_hints),
    ]


# ------------------------------------------------------------------ construction
def fresh_nd(s, shape, n=None):
    """a new array over its own data: offset 0, row-major strides with step 1"""
    t = s.this1
    return [('extents', veq(t.m_shape, shape))] + wf(t, data1(s, t), s.post.nref) + \
        [('starts-at-0', t.m_offset == 0), ('dense', t.m_stride_size[t.m_shape.len - 1] == 1)]


def need_shape(s):
    return [('at-least-one-axis', s[0].len >= 1)]


def own_data(s, v):
    d = data1(s, s.this1)
    return [('data', And(d.len == v.len, arr_eq(d.arr, v.arr, 0, v.len))), ('own-container', s.this1.m_container >= s.pre.nref)]


def shape_mismatch(s, n):
    return [('std::invalid_argument', n != PROD(s[0].arr, 0, s[0].len))]


def ctor_hints(s):
    t = s.this1
    return [PROD.ext(t.m_shape.arr, s[0].arr, 0, s[0].len)]


VD, VS, VN = r'std::vector<double', r'std::vector<unsigned long', r'std::vector<std::basic_string'
CONTRACTS += [
    Contract(ND + '::{ctor}', sig=[r'^const ' + VS], props=['C01'], name=ND + '(shape)', requires=need_shape, heap_mod=[re.escape(CK)],
             ensures=lambda s: fresh_nd(s, s[0]) + [('no-names', s.this1.m_attr_names.len == 0),
                                                     ('length', data1(s, s.this1).len == PROD(s[0].arr, 0, s[0].len)),
                                                     ('zero', forall_in(0, data1(s, s.this1).len, lambda q: data1(s, s.this1)[q] == 0))] + old_data(s),
             hints=ctor_hints),
    Contract(ND + '::{ctor}', sig=[r'^const ' + VS, r'^const ' + VD + '.*&$'], props=['C01'], name=ND + '(shape, data)', requires=need_shape,
             throws=lambda s: shape_mismatch(s, s[1].len), heap_mod=[re.escape(CK)],
             ensures=lambda s: fresh_nd(s, s[0]) + own_data(s, s[1]) + [('no-names', s.this1.m_attr_names.len == 0)] + old_data(s), hints=ctor_hints),
    Contract(ND + '::{ctor}', sig=[r'^const ' + VS, r'^' + VD + '.*&&$'], props=['C01'], name=ND + '(shape, data&&)', requires=need_shape,
             throws=lambda s: shape_mismatch(s, s[1].len), heap_mod=[re.escape(CK)],
             ensures=lambda s: fresh_nd(s, s[0]) + own_data(s, s[1]) + [('no-names', s.this1.m_attr_names.len == 0)] + old_data(s), hints=ctor_hints),
    Contract(ND + '::{ctor}', sig=lambda ps, f: len(ps) == 5 and 'shared_ptr' in ps[0], props=['C02'], name=ND + '(view)',
             ensures=lambda s: [('container', s.this1.m_container == s[0]), ('offset', s.this1.m_offset == s[1]), ('shape', veq(s.this1.m_shape, s[2])),
                                ('strides', veq(s.this1.m_stride_size, s[3])), ('names', veq(s.this1.m_attr_names, s[4])),
                                ('size', s.this1.m_size == PROD(s.this1.m_shape.arr, 0, s.this1.m_shape.len))]),
]


def old_data(s):
    r = z3.FreshConst(I, 'ref')
    return [('other-data-untouched', ForAll([r], Implies(r < s.pre.nref, Select(s.heap1(CK), r) == Select(s.heap0(CK), r))))]


def append_shape(s):
    """shape extended with the number of names"""
    return s[0], s[1].len


def with_names(s, extra):
    t, n = s.this1, s[0].len
    named = s[1].len > 0
    return wf(t, data1(s, t), s.post.nref) + \
        [('axes', t.m_shape.len == n + If(named, 1, 0)), ('extents', arr_eq(t.m_shape.arr, s[0].arr, 0, n)),
         ('name-axis', Implies(named, t.m_shape[n] == s[1].len)), ('names', veq(t.m_attr_names, s[1])),
         ('starts-at-0', t.m_offset == 0), ('dense', t.m_stride_size[t.m_shape.len - 1] == 1)] + extra


def total(s):
    return PROD(s[0].arr, 0, s[0].len) * If(s[1].len > 0, s[1].len, 1)


CONTRACTS += [
    Contract('Euclid::NdArray::appendAttrShape', props=['C01'],
             ensures=lambda s: [('len', s.result.len == s[0].len + If(s[1] != 0, 1, 0)), ('prefix', arr_eq(s.result.arr, s[0].arr, 0, s[0].len)),
                                ('last', Implies(s[1] != 0, s.result[s[0].len] == s[1]))]),
    Contract(ND + '::{ctor}', sig=[r'^const ' + VS, r'^const ' + VN], props=['C01'], name=ND + '(shape, names)', requires=need_shape,
             heap_mod=[re.escape(CK)], ensures=lambda s: with_names(s, [('length', data1(s, s.this1).len == total(s))]),
             hints=lambda s: [PROD.ext(s.this1.m_shape.arr, s[0].arr, 0, s[0].len)]),
    Contract(ND + '::{ctor}', sig=[r'^const ' + VS, r'^const ' + VN, VD], props=['C01'], name=ND + '(shape, names, data)', requires=need_shape,
             heap_mod=[re.escape(CK)], throws=lambda s: [('std::invalid_argument', s[2].len != total(s))],
             ensures=lambda s: with_names(s, own_data(s, s[2])),
             hints=lambda s: [PROD.ext(s.this1.m_shape.arr, s[0].arr, 0, s[0].len)]),
]


# -------------------------------------------------------------------- reshape, copy
def inv_reshape(v):
    """the second loop scales every stride by the step of the view"""
    e = v.entry.this.m_stride_size.arr
    cur, sh, n = v.this.m_stride_size.arr, v.this.m_shape.arr, v.this.m_shape.len
    step = v.ctx.this.m_stride_size[v.ctx.this.m_stride_size.len - 1]
    for nx, x in v.idxs():
        q = z3.FreshConst(I, 'q')
        yield 'scaled below %s' % nx, ForAll([q], Implies(And(0 <= q, q < x), Select(cur, q) == Select(e, q) * step), patterns=[Select(cur, q)])
        yield 'untouched from %s' % nx, ForAll([q], Implies(x <= q, Select(cur, q) == Select(e, q)), patterns=[Select(cur, q)])


CONTRACTS += [
    Contract(ND + '::reshape', sig=[VS], props=['C02'], name=ND + '::reshape(shape)',
             requires=lambda s: wf0(s) + [('at-least-one-axis', s[0].len >= 1)],
             throws=lambda s: [('std::invalid_argument', s.this.m_attr_names.len > 0),
                               ('std::range_error', And(s.this.m_attr_names.len == 0, PROD(s[0].arr, 0, s[0].len) != s.this.m_size))],
             ref=lambda s: s.this_lv,
             ensures=lambda s: [('extents', veq(s.this1.m_shape, s[0])),
                                ('same-step', s.this1.m_stride_size[s[0].len - 1] == s.this.m_stride_size[s.this.m_shape.len - 1])] +
             same(s, 'm_offset', 'm_size', 'm_container') + wf(s.this1, data1(s, s.this1)),
             inv=inv_reshape),
    Contract(ND + '::{ctor}', sig=lambda ps, f: len(ps) == 1 and ps[0].endswith('NdArray<double> *'), props=['C03'], name=ND + '(deep copy)',
             setup=lambda E, st, fr, f: None, heap_mod=[re.escape(CK)],
             requires=lambda s: [('not-null', s[0] > 0)] + wf0(s, nd_at(s, 0)),
             ensures=lambda s: copied(s, nd_at(s, 0), s.this1)),
    Contract(ND + '::copy', props=['C03'], setup='heapthis', heap_mod=[re.escape(CK)], requires=lambda s: wf0(s),
             ensures=lambda s: copied(s, s.this, s.result)),
]
NDK = 'Euclid::NdArray::NdArray<double>'


def nd_at(s, i):
    return s.heap0(NDK, unwrap(s[i]))


def copied(s, o, t):
    n, step = o.m_shape.len, o.m_stride_size[o.m_shape.len - 1]
    a, b = data0(s, o), data1(s, t)
    q = z3.FreshConst(I, 'q')
    step1 = t.m_stride_size[t.m_shape.len - 1]
    return [('extents', veq(t.m_shape, o.m_shape)), ('names', veq(t.m_attr_names, o.m_attr_names)),
            ('own-data', t.m_container >= s.pre.nref),
            ('same-elements', ForAll([q], Implies(And(0 <= q, q < o.m_size),
                                                  Select(b.arr, t.m_offset + q * step1) == Select(a.arr, o.m_offset + q * step))))] + \
        wf(t, b, s.post.nref) + old_data(s)


# ---------------------------------------------------------------------- iterators
IT = ND + '::Iterator'


def it_val(s, it, k):
    return it.m_offset + (it.m_i + k) * it.m_stride


def it_ok(s, it, k):
    d = s.heap0(CK, unwrap(it.m_container_ptr)).__getattr__('$data')
    return [('valid', And(it.m_container_ptr > 0, 0 <= it_val(s, it, k), it_val(s, it, k) < d.len))]


def it_ref(s, k):
    dt = [t for t in s.E.tu.types if t['k'] == 'float' and t['bits'] == 64 and not t.get('const')][0]
    return LVal(('h', CK, unwrap(s.this.m_container_ptr)), (('f', '$data'), ('i', it_val(s, s.this, k))), dt)


def it_same(a, b, i):
    return [('container', a.m_container_ptr == b.m_container_ptr), ('offset', a.m_offset == b.m_offset), ('stride', a.m_stride == b.m_stride),
            ('row-size', a.m_row_size == b.m_row_size), ('position', a.m_i == i)]


def it_begin(s, i):
    r, t = s.result, s.this
    return [('container', r.m_container_ptr == t.m_container), ('offset', r.m_offset == t.m_offset),
            ('stride', r.m_stride == t.m_stride_size[t.m_shape.len - 1]), ('row-size', r.m_row_size == PROD(t.m_shape.arr, 0, t.m_shape.len)),
            ('position', r.m_i == i)]


CONTRACTS += [
    Contract(IT + '::{ctor}', sig=lambda ps, f: len(ps) == 5 and 'vector' in ps[2], props=['C03'], name=IT + '(shape)',
             requires=lambda s: [('strides', s[3].len >= 1)],
             ensures=lambda s: [s.this1.m_container_ptr == s[0], s.this1.m_offset == s[1], s.this1.m_row_size == PROD(s[2].arr, 0, s[2].len),
                                s.this1.m_stride == s[3][s[3].len - 1], s.this1.m_i == s[4]]),
    Contract(IT + '::{ctor}', sig=lambda ps, f: len(ps) == 5 and 'vector' not in ps[2], props=['C03'], name=IT + '(position)',
             ensures=lambda s: [s.this1.m_container_ptr == s[0], s.this1.m_offset == s[1], s.this1.m_row_size == s[2],
                                s.this1.m_stride == s[3], s.this1.m_i == s[4]]),
    Contract(IT + '::{ctor}', sig=lambda ps, f: len(ps) == 1 and not f.get('defaulted'), props=['C03'], name=IT + '(iterator)',
             ensures=lambda s: it_same(s.this1, s[0], s[0].m_i)),
    Contract(IT + '::operator++', sig=[], props=['C03'], name=IT + '::operator++', ref=lambda s: s.this_lv,
             ensures=lambda s: it_same(s.this1, s.this, s.this.m_i + 1)),
    Contract(IT + '::operator++', sig=['int'], props=['C03'], name=IT + '::operator++(int)',
             ensures=lambda s: it_same(s.this1, s.this, s.this.m_i + 1) + [('returns-' + a, b) for a, b in it_same(s.result, s.this, s.this.m_i)]),
    Contract(IT + '::operator==', props=['C03'], ensures=lambda s: [s.result == And(*[c for _, c in it_same(s.this, s[0], s[0].m_i)])]),
    Contract(IT + '::operator!=', props=['C03'], ensures=lambda s: [s.result == Not(And(*[c for _, c in it_same(s.this, s[0], s[0].m_i)]))]),
    Contract(IT + '::operator*', const=False, props=['C03'], name=IT + '::operator*', requires=lambda s: it_ok(s, s.this, 0), modifies={},
             ref=lambda s: it_ref(s, 0)),
    Contract(IT + '::operator*', const=True, props=['C03'], name=IT + '::operator* const', requires=lambda s: it_ok(s, s.this, 0),
             ensures=lambda s: [s.result == elem0(s, s.this, 0)]),
    Contract(IT + '::operator[]', const=False, props=['C03'], name=IT + '::operator[]', requires=lambda s: it_ok(s, s.this, s[0]), modifies={},
             ref=lambda s: it_ref(s, s[0])),
    Contract(IT + '::operator[]', const=True, props=['C03'], name=IT + '::operator[] const', requires=lambda s: it_ok(s, s.this, s[0]),
             ensures=lambda s: [s.result == elem0(s, s.this, s[0])]),
    Contract(IT + '::operator+=', props=['C03'], ref=lambda s: s.this_lv, ensures=lambda s: it_same(s.this1, s.this, s.this.m_i + s[0])),
    Contract(IT + '::operator+', props=['C03'], modifies={}, ensures=lambda s: it_same(s.result, s.this, s.this.m_i + s[0])),
    Contract(IT + '::operator-=', props=['C03'], requires=lambda s: [('not-before-begin', s[0] <= s.this.m_i)], ref=lambda s: s.this_lv,
             ensures=lambda s: it_same(s.this1, s.this, s.this.m_i - s[0])),
    Contract(IT + '::operator-', sig=['unsigned long'], props=['C03'], name=IT + '::operator-(n)', modifies={},
             requires=lambda s: [('not-before-begin', s[0] <= s.this.m_i)], ensures=lambda s: it_same(s.result, s.this, s.this.m_i - s[0])),
    Contract(IT + '::operator-', sig=['Iterator'], props=['C03'], name=IT + '::operator-(iterator)', modifies={},
             requires=lambda s: [('small', And(s.this.m_i < 2 ** 62, s[0].m_i < 2 ** 62))], ensures=lambda s: [s.result == s.this.m_i - s[0].m_i]),
    Contract(IT + '::operator<', props=['C03'], modifies={}, ensures=lambda s: [s.result == (s.this.m_i < s[0].m_i)]),
    Contract(IT + '::operator>', props=['C03'], modifies={}, ensures=lambda s: [s.result == (s.this.m_i > s[0].m_i)]),
]


def elem0(s, it, k):
    return NTH(unwrap(s.heap0(CK, unwrap(it.m_container_ptr)).__getattr__('$data').arr), unwrap(it.m_offset), unwrap(it.m_stride), unwrap(it.m_i + k))


for cst in (False, True):
    CONTRACTS += [
        Contract(ND + '::begin', const=cst, props=['C03'], name=ND + '::begin' + (' const' if cst else ''), modifies={}, requires=lambda s: wf0(s),
                 ensures=lambda s: it_begin(s, 0)),
        Contract(ND + '::end', const=cst, props=['C03'], name=ND + '::end' + (' const' if cst else ''), modifies={}, requires=lambda s: wf0(s),
                 ensures=lambda s: it_begin(s, s.this.m_size)),
    ]
CONTRACTS += [
    Contract(ND + '::size', props=['C03'], requires=lambda s: wf0(s), ensures=lambda s: [s.result == PROD(s.this.m_shape.arr, 0, s.this.m_shape.len)]),
    Contract(ND + '::shape', props=['C03'], ensures=lambda s: [veq(s.result, s.this.m_shape)]),
    Contract(ND + '::attributes', props=['C03'], ensures=lambda s: [veq(s.result, s.this.m_attr_names)]),
]


# ------------------------------------------------------------------------ equality
def nth(s, nd, k, d=None):
    d = d or data0(s, nd)
    return NTH(unwrap(d.arr), unwrap(nd.m_offset), unwrap(nd.m_stride_size[nd.m_shape.len - 1]), unwrap(k))


# the k-th element in iteration order
NTH = specfn('nth', [AR, I, I, I], R, lambda a, off, step, k: Select(a, off + k * step))


def inv_eq(v):
    a, b = v.ctx.this, v.ctx[0]
    q = z3.FreshConst(I, 'q')
    yield 'equal so far', ForAll([q], Implies(And(0 <= q, q < v.k), nth(v.ctx, a, q) == nth(v.ctx, b, q)), patterns=[nth(v.ctx, a, q), nth(v.ctx, b, q)])
    yield 'k in range', And(v.k <= a.m_size, v.k <= b.m_size)
    for x in (a, b):
        yield 'here', nth(v.ctx, x, v.k) == Select(data0(v.ctx, x).arr, x.m_offset + v.k * x.m_stride_size[x.m_shape.len - 1])
        yield 'inside', Implies(v.k < x.m_size, x.m_offset + v.k * x.m_stride_size[x.m_shape.len - 1] < data0(v.ctx, x).len)


def equal_nd(s):
    a, b = s.this, s[0]
    return And(veq(a.m_shape, b.m_shape), forall_in(0, a.m_size, lambda q: nth(s, a, q) == nth(s, b, q)))


CONTRACTS += [
    Contract(ND + '::operator==', props=['C03'], requires=lambda s: wf0(s) + wf0(s, s[0]), ensures=lambda s: [('equal', s.result == equal_nd(s))],
             inv=inv_eq, hints=lambda s: [PROD.ext(s.this.m_shape.arr, s[0].m_shape.arr, 0, s.this.m_shape.len)]),
    Contract(ND + '::operator!=', props=['C03'], requires=lambda s: wf0(s) + wf0(s, s[0]), ensures=lambda s: [('differ', s.result == Not(equal_nd(s)))]),
]


# ----------------------------------------------------------------- unravel_index
def inv_unravel(v):
    sh, n = v.ctx[1].arr, v.ctx[1].len
    idx0 = v.ctx[0]
    for nc, c in v.modified(pred=lambda x: v.E.S.is_vec(x.sort()) and x.sort().accessor(0, 1).range().range() == I):
        for nx, x in v.idxs():
            q = z3.FreshConst(I, 'q')
            yield '%s in bounds from %s' % (nc, nx), ForAll([q], Implies(And(x <= q, q < n), And(0 <= c[q], c[q] < Select(sh, q))), patterns=[c[q]])
            for ny, y in v.accs():
                yield '%s quotient above %s' % (ny, nx), idx0 == y * PROD(sh, x, n) + VAL(sh, c.arr, x, n)
                yield 'quotient nonneg', y >= 0
            yield 'remainder', And(0 <= VAL(sh, c.arr, x, n), VAL(sh, c.arr, x, n) < PROD(sh, x, n))


# value of digits lo..hi-1 in mixed radix sh (left recursion, as the loop runs downwards)
VAL = specfn('val', [AI, AI, I, I], I, lambda sh, c, lo, hi: [
    VAL(sh, c, lo, hi) == If(lo >= hi, IntVal(0), Select(c, lo) * PROD(sh, lo + 1, hi) + VAL(sh, c, lo + 1, hi))] + (
        [Implies(c.arg(1) < lo, VAL(sh, c, lo, hi) == VAL(sh, c.arg(0), lo, hi))] if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_STORE and not folds.PRIMARY_ONLY[0] else []))
L_val_store = Lemma('digits-frame', [('sh', AI), ('c', AI), ('i', I), ('e', I), ('hi', I), ('d', I)],
                    lambda sh, c, i, e, hi, d: VAL(sh, Store(c, i, e), hi - d, hi) == VAL(sh, c, hi - d, hi),
                    hyp=lambda sh, c, i, e, hi, d: i < hi - d, induct=5)
# rm(n) = rm(lo) * prod(lo,n) + val(lo,n)
L_val_rm = Lemma('digits-are-row-major', [('sh', AI), ('c', AI), ('n', I), ('d', I)],
                 lambda sh, c, n, d: RM(sh, c, n) == RM(sh, c, n - d) * PROD(sh, n - d, n) + VAL(sh, c, n - d, n),
                 hyp=lambda sh, c, n, d: n >= d, induct=3,
                 using=lambda sh, c, n, d: [PROD_left(sh, n - d, d - 1)])
PROD_left = [l for l in PROD.lemmas() if l.name == 'prod.left'][0]
LEMMAS += [L_val_store, L_val_rm]

L_zero = Lemma('zero-extent', [('sh', AI), ('i', I), ('d', I)], lambda sh, i, d: PROD(sh, 0, i + 1 + d) == 0,
               hyp=lambda sh, i, d: And(0 <= i, Select(sh, i) == 0), induct=2)
LEMMAS.append(L_zero)


def unravel_hints(s):
    sh, n = s[1].arr, s[1].len
    if s.result is not None:
        return [L_val_rm(sh, s.result.arr, n, n)]
    i = z3.FreshConst(I, 'q')
    return [LemmaInst(L_zero, ForAll([i], Implies(And(0 <= i, i < n, Select(sh, i) == 0), PROD(sh, 0, n) == 0), patterns=[Select(sh, i)]))]


CONTRACTS += [
    Contract('Euclid::NdArray::unravel_index', props=['C04'],
             throws=lambda s: [('std::out_of_range', s[0] >= PROD(s[1].arr, 0, s[1].len))],
             ensures=lambda s: [('axes', s.result.len == s[1].len), ('in-bounds', inb(s.result.arr, s[1].arr, s[1].len)),
                                ('inverse-of-row-major', RM(s[1].arr, s.result.arr, s[1].len) == s[0])],
             inv=inv_unravel, hints=unravel_hints, hints_on_throw=True),
]
