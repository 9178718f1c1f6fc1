"""SourceCatalog: catalogues, sources, photometries and their construction from table rows.

An identifier, a cell and a table row are opaque values; NUM(cell) is the number a cell converts to and CAN(cell) whether it does;
ISEQ is Elements::isEqual, NAN and INF the tests of <cmath> (all uninterpreted: proofs hold whatever they answer)."""
from cppvc.api import *
NAME = 'srccat'
DRIVER = 'drivers/srccat.cpp'
T = 'Euclid::SourceCatalog::'
GHOSTS = {}
FOLDS = []
LEMMAS = []
STR = z3.StringSort()
ID = z3.DeclareSort('Id')
CELL = ID
NUM = z3.Function('NUM', CELL, R)
CAN = z3.Function('CAN', CELL, B)
ISEQ = z3.Function('ISEQ', R, R, B)
NAN = z3.Function('NAN', R, B)
INF = z3.Function('INF', R, B)
IDCAN = z3.Function('IDCAN', CELL, B)
IDOF = z3.Function('IDOFCELL', CELL, ID)
HASCOL = z3.Function('HASCOL', I, STR, B)
COLAT = z3.Function('COLAT', I, STR, I)
EX = 'Elements::Exception'
P = ['C16']


def ISA(name):
    return z3.Function('ISA_' + name.split('::')[-1], I, B)


def h_cast(E, s, fr, e, args):
    r = E.term(s, E.val(s, args[0]))
    return [(s, If(ISA('Photometry')(r), r, IntVal(0)))]


def h2(f):
    return lambda E, s, fr, e, args: [(s, f(*[E.toreal(E.val(s, a)) for a in args]))]


def fork_throw(E, s, ok):
    t = s.copy()
    t.assume(Not(ok))
    E.throws.append((t, EX))
    s.assume(ok)


def h_visit(E, s, fr, e, args):
    c = E.val(s, args[1])
    v = E.load(s, E.canon(s, args[0])) if not z3.is_expr(args[0]) else args[0]
    kind = v.sort().name()
    if 'CastSourceId' in kind:
        fork_throw(E, s, IDCAN(c))
        return [(s, IDOF(c))]
    E.assumed.add('a cell converts to a number by the CastVisitor (its own conversion is a harness check)')
    fork_throw(E, s, CAN(c))
    return [(s, NUM(c))]


def h_row(E, s, fr, e, o, args):
    v = wrap(E, E.load(s, o)).m_values
    i = unwrap(E.val(s, args[0]))
    fork_throw(E, s, And(0 <= i, i < v.len))
    return [(s, Select(v.arr, i))]


def h_column(E, s, fr, e, o, args):
    """ColumnInfo::find: C14 proves what it answers"""
    o = E.canon(s, o)
    ref = o.root[2] if o.root[0] == 'h' else None
    E.assumed.add('ColumnInfo::find answers with a position that depends on the columns and the name only (proved as C14)')
    t = [t for t in E.tu.types if t['k'] == 'int' and t['s'] == 'unsigned long' and not t.get('const')][0]
    name = E.term(s, E.val(s, args[0]))
    out = []
    for s2, yes in E.split(s, HASCOL(ref, name)):
        if not yes:
            out.append((s2, IntVal(0)))
            continue
        i = COLAT(ref, name)
        s2.assume(And(i >= 0, i < 2 ** 64))
        r = E.alloc(s2, t, i)
        out.append((s2, r))
    return out


# ---- catalogue
def srcs(s, l):
    return lambda i: unwrap(wrap(s.E, Select(l.arr, i)).m_source_id)


def dup(s, l):
    n = srcs(s, l)
    i, j = z3.FreshConst(I, 'i'), z3.FreshConst(I, 'j')
    return Exists([i, j], And(0 <= i, i < j, j < l.len, n(i) == n(j)))


def index_ok(E, l, m, upto):
    n = lambda i: unwrap(wrap(E, Select(l.arr, i)).m_source_id)
    q = z3.FreshConst(I, 'q')
    k = z3.FreshConst(ID, 'id')
    dom, val = unwrap(m.dom), unwrap(m.val)
    return [('every-source-is-indexed', ForAll([q], Implies(And(0 <= q, q < upto), And(Select(dom, n(q)), Select(val, n(q)) == q)), patterns=[Select(l.arr, q)])),
            ('every-index-is-of-its-source', ForAll([k], Implies(Select(dom, k), And(0 <= Select(val, k), Select(val, k) < upto, n(Select(val, k)) == k)), patterns=[Select(dom, k)]))]


def inv_cat(v):
    t = v.this
    l = t.m_source_vector
    for ni, i in v.idxs():
        yield '%s<=n' % ni, And(0 <= i, i <= l.len)
        for n, f in index_ok(v.E, l, t.m_source_index_map, i):
            yield n + ' before ' + ni, f


def wfcat(s, t):
    return index_ok(s.E, t.m_source_vector, t.m_source_index_map, t.m_source_vector.len)


def has(s, l, k):
    return exists_in(0, l.len, lambda q: srcs(s, l)(q) == unwrap(k))


def REC(s, name):
    return s.E.heapkey([t for t in s.E.tu.types if t['k'] == 'rec' and t['s'] == name and not t.get('const')][0])


def same_src(s):
    l = s.this.m_source_vector
    r = s.heap1(REC(s, T + 'Source'), unwrap(s.result))
    return exists_in(0, l.len, lambda q: And(Select(l.arr, q) == unwrap(r), srcs(s, l)(q) == unwrap(s[0])))


def h_create(E, s, fr, e, o, args):
    o = E.canon(s, o)
    row = E.load(s, E.canon(s, args[0])) if not z3.is_expr(args[0]) else args[0]
    fork_throw(E, s, z3.Function('CREATES', I, row.sort(), B)(o.root[2], row))
    a = z3.Function('ATTR', I, row.sort(), I)(o.root[2], row)
    s.assume(a > 0)
    return [(s, a)]


CONFIG = {'sorts': {'boost::variant': ID}, 'free_hooks': {'Elements::isEqual': h2(ISEQ), 'std::isnan': h2(NAN), 'std::isinf': h2(INF), 'boost::apply_visitor': h_visit, 'std::dynamic_pointer_cast': h_cast},
          'models': {'Euclid::Table::Row::operator[]': h_row, 'Euclid::Table::ColumnInfo::find': h_column, T + 'AttributeFromRow::createAttribute': h_create}, 'quot': True}
C, F, PH = T + 'Catalog::', T + 'FluxErrorPair::', T + 'Photometry::'


def names_at(s, t):
    return s.heap0(s.E.heapkey([x for x in s.E.tu.types if x['k'] == 'rec' and x['name'] == 'std::vector' and x['s'].startswith('std::vector<std::basic_string') and not x.get('const')][0]), unwrap(t.m_filter_name_vector_ptr))


def wfph(s):
    return [('names', unwrap(s.this.m_filter_name_vector_ptr) > 0), ('as-many-fluxes', names_at(s, s.this).len == s.this.m_value_vector.len)]


def flux_of(s):
    l, v = names_at(s, s.this), s.this.m_value_vector
    r = s.heap1(REC(s, T + 'FluxErrorPair'), unwrap(s.result))
    return exists_in(0, l.len, lambda q: And(Select(l.arr, q) == unwrap(s[0]), Select(v.arr, q) == unwrap(r), forall_in(0, q, lambda p: Select(l.arr, p) != unwrap(s[0]))))


def inv_find(v):
    l = names_at(v.ctx, v.ctx.this)
    for ni, i in v.idxs():
        yield '%s<=n' % ni, And(0 <= i, i <= l.len)
        yield 'not before %s' % ni, forall_in(0, i, lambda q: Select(l.arr, q) != unwrap(v.ctx[0]))


def inv_attr(v):
    l = v.ctx.this.m_attribute_vector
    for ni, i in v.idxs():
        yield '%s<=n' % ni, And(0 <= i, i <= l.len)
        yield 'no such attribute before %s' % ni, forall_in(0, i, lambda q: Not(isattr(Select(l.arr, q))))


def isattr(r):
    return And(r != 0, ISA('Photometry')(r))


CONTRACTS = [
    Contract(C + '{ctor}', sig=['vector<Euclid::SourceCatalog::Source'], props=P, inv=inv_cat, throws=lambda s: [(EX, dup(s, s[0]))],
             ensures=lambda s: [('sources', unwrap(s.this1.m_source_vector) == unwrap(s[0]))] + wfcat(s, s.this1)),
    Contract(C + 'find', props=P, requires=lambda s: wfcat(s, s.this),
             ensures=lambda s: [('found-when-there', (unwrap(s.result) != 0) == has(s, s.this.m_source_vector, s[0])), ('that-source', Implies(unwrap(s.result) != 0, same_src(s)))]),
    Contract(C + 'size', props=P, ensures=lambda s: [('number', s.result == s.this.m_source_vector.len)]),
    Contract(C + 'begin', props=P, ensures=lambda s: [('first', s.result.idx == 0)]),
    Contract(C + 'end', props=P, ensures=lambda s: [('past-the-last', s.result.idx == s.this.m_source_vector.len)]),
    Contract(T + 'Source::{ctor}', sig=['boost::variant', 'vector'], props=P, ensures=lambda s: [('id', s.this1.m_source_id == s[0]), ('attributes', unwrap(s.this1.m_attribute_vector) == unwrap(s[1]))]),
    Contract(T + 'Source::getId', props=P, ensures=lambda s: [('id', s.result == s.this.m_source_id)]),
    Contract(T + 'Source::getAttribute', props=P, inv=inv_attr,
             ensures=lambda s: [('none-when-none', (unwrap(s.result) != 0) == exists_in(0, s.this.m_attribute_vector.len, lambda q: isattr(Select(s.this.m_attribute_vector.arr, q)))),
                                ('the-first-of-that-type', Implies(unwrap(s.result) != 0, exists_in(0, s.this.m_attribute_vector.len, lambda q: And(Select(s.this.m_attribute_vector.arr, q) == unwrap(s.result), isattr(unwrap(s.result)), forall_in(0, q, lambda p: Not(isattr(Select(s.this.m_attribute_vector.arr, p))))))))]),
    Contract(F + '{ctor}', sig=['double', 'double', 'bool', 'bool'], props=P, ensures=lambda s: [('flux', s.this1.flux == s[0]), ('error', s.this1.error == s[1]), ('missing', s.this1.missing_photometry_flag == s[2]), ('upper-limit', s.this1.upper_limit_flag == s[3])]),
    Contract(PH + '{ctor}', sig=['shared_ptr', 'vector'], props=P, throws=lambda s: [(EX, Or(unwrap(s[0]) == 0, names_at(s, wrapptr(s)).len != s[1].len))], requires=lambda s: [('pointer', unwrap(s[0]) >= 0)],
             ensures=lambda s: [('filters', s.this1.m_filter_name_vector_ptr == s[0]), ('fluxes', unwrap(s.this1.m_value_vector) == unwrap(s[1]))]),
    Contract(PH + 'size', props=P, requires=wfph, ensures=lambda s: [('number', s.result == s.this.m_value_vector.len)]),
    Contract(PH + 'getFilterNames', props=P, ensures=lambda s: [('filters', s.result == s.this.m_filter_name_vector_ptr)]),
    Contract(PH + 'find', props=P, requires=wfph, inv=inv_find,
             ensures=lambda s: [('found-when-there', (unwrap(s.result) != 0) == exists_in(0, names_at(s, s.this).len, lambda q: Select(names_at(s, s.this).arr, q) == unwrap(s[0]))), ('flux-of-that-filter', Implies(unwrap(s.result) != 0, flux_of(s)))]),
]


class wrapptr:
    def __init__(self, s):
        self.m_filter_name_vector_ptr = s[0]


# ---- photometry from a row
PA = T + 'PhotometryAttributeFromRow::'
MAGK = z3.RealVal('3631000000')


def K4(x):
    """the double nearest to the decimal, as the code has it"""
    return z3.RealVal('%.40f' % x)


def m1(n):
    return z3.Function('m_' + n, R, R)


POW = z3.Function('pow', R, R, R)


def mag_missing(t, m):
    return Or(ISEQ(m, unwrap(t.m_missing_photometry_flag)), NAN(m))


def mag_flux(m):
    return MAGF(m)


MAGF = specfn('magflux', [R], R, lambda m: MAGK * POW(z3.RealVal(10), K4(-0.4) * m))
MAGE = specfn('magerror', [R, R], R, lambda m, me: K4(0.4) * MAGF(m) * me * m1('log')(z3.RealVal(10)))


def conv(t, m, me):
    ul = unwrap(t.m_n_upper_limit_flag)
    return (If(mag_missing(t, m), unwrap(t.m_missing_photometry_flag), mag_flux(m)),
            If(mag_missing(t, m), RealVal(0), If(ISEQ(me, ul), ul, MAGE(m, me))))


def entry(s, t, row, i):
    """(refused, flux, error, missing, upper) of the entry i"""
    E = s.E
    cells = row.m_values
    pr = wrap(E, Select(t.m_table_index_vector.arr, i))
    fi, ei = unwrap(pr.first), unwrap(pr.second)
    cf, ce = Select(cells.arr, fi), Select(cells.arr, ei)
    nc = Or(fi >= cells.len, ei >= cells.len, Not(CAN(cf)), Not(CAN(ce)))
    isconv = unwrap(wrap(E, Select(t.m_convert_from_mag.arr, i)).second)
    k = conv(t, NUM(cf), NUM(ce))
    f, e = If(isconv, k[0], NUM(cf)), If(isconv, k[1], NUM(ce))
    miss_on, up_on = unwrap(t.m_missing_photometry_enabled), unwrap(t.m_upper_limit_enabled)
    missing = And(miss_on, mag_missing(t, f))
    thr = unwrap(wrap(E, Select(t.m_n_map.arr, i)).second)
    upper = And(Not(missing), up_on, e < 0)
    e2 = If(ISEQ(e, unwrap(t.m_n_upper_limit_flag)), QUOT(f, thr), e)
    err = If(missing, RealVal(0), If(upper, If(e2 < 0, -e2, e2), e))
    refused = Or(nc, INF(f), And(Not(miss_on), NAN(f)), And(Not(missing), Or(And(up_on, e == 0), And(Not(up_on), e <= 0), And(upper, f <= 0))))
    return refused, f, err, missing, upper


def is_entry(s, t, row, i, v):
    x = entry(s, t, row, i)
    v = wrap(s.E, v)
    return And(unwrap(v.flux) == x[1], unwrap(v.error) == x[2], unwrap(v.missing_photometry_flag) == x[3], unwrap(v.upper_limit_flag) == x[4])


def wfpa(s, t, pre=True):
    n = t.m_table_index_vector.len
    q = z3.FreshConst(I, 'q')
    return [('a-limit-for-each-filter', t.m_n_map.len >= n), ('a-choice-for-each-filter', t.m_convert_from_mag.len >= n), ('filters', And(unwrap(t.m_filter_name_vector_ptr) > 0, names_of(s, t, pre).len == n)),
            ('usable-limits', forall_in(0, n, lambda q: unwrap(wrap(s.E, Select(t.m_n_map.arr, q)).second) != 0))]


def names_of(s, t, pre):
    k = s.E.heapkey([x for x in s.E.tu.types if x['k'] == 'rec' and x['name'] == 'std::vector' and x['s'].startswith('std::vector<std::basic_string') and not x.get('const')][0])
    return (s.heap0 if pre else s.heap1)(k, unwrap(t.m_filter_name_vector_ptr))


def inv_entries(v):
    t = v.ctx.this
    n = t.m_table_index_vector.len
    for ni, i in v.idxs():
        yield '%s<=n' % ni, And(0 <= i, i <= n)
        yield 'no refusal before %s' % ni, forall_in(0, i, lambda q: Not(entry(v.ctx, t, v.ctx[0], q)[0]))
        for nm, a in v.modified(None, lambda t: 'Vec_R_' in t.sort().name()):
            yield '%s length' % nm, a.len == i
            if 'FluxErrorPair' in unwrap(a).sort().name():
                yield '%s entries' % nm, forall_in(0, i, lambda q: is_entry(v.ctx, t, v.ctx[0], q, Select(a.arr, q)))


def made(s):
    t = s.this
    p = s.heap1(REC(s, T + 'SourceAttributes::Photometry') if False else REC(s, T + 'Photometry'), unwrap(s.result))
    n = t.m_table_index_vector.len
    return [('of-its-filters', p.m_filter_name_vector_ptr == t.m_filter_name_vector_ptr), ('as-many', p.m_value_vector.len == n), ('the-fluxes', forall_in(0, n, lambda q: is_entry(s, t, s[0], q, Select(p.m_value_vector.arr, q))))]


CONTRACTS += [
    Contract(PA + 'convertFromMag', props=P, ensures=lambda s: [('flux', unwrap(s.result.first) == conv(s.this, unwrap(s[0]), unwrap(s[1]))[0]), ('error', unwrap(s.result.second) == conv(s.this, unwrap(s[0]), unwrap(s[1]))[1])]),
    Contract(PA + 'createAttribute', props=P, fuel=0, requires=lambda s: wfpa(s, s.this), inv=inv_entries,
             throws=lambda s: [(EX, exists_in(0, s.this.m_table_index_vector.len, lambda q: entry(s, s.this, s[0], q)[0]))], ensures=made),
]


def colref(s):
    return unwrap(s[0])


def map_inv(v):
    c, m = unwrap(v.ctx[0]), v.ctx[1]
    for ni, i in v.idxs():
        yield '%s<=n' % ni, And(0 <= i, i <= m.len)
        yield 'columns there before %s' % ni, forall_in(0, i, lambda q: both(v.E, m, q, c))
        lens = v.modified(None, lambda t: t.sort().name().startswith('Vec_'))
        for nm, a in lens:
            if 'unsigned_long' in unwrap(a).sort().name():
                yield '%s indices' % nm, And(a.len == i, forall_in(0, i, lambda q: at_cols(v.E, m, q, c, Select(a.arr, q))))


def fnames(E, m, q):
    x = wrap(E, Select(m.arr, q))
    return unwrap(x.first), unwrap(x.second.first), unwrap(x.second.second)


def both(E, m, q, c):
    n = fnames(E, m, q)
    return And(HASCOL(c, n[1]), HASCOL(c, n[2]))


def at_cols(E, m, q, c, p):
    n, p = fnames(E, m, q), wrap(E, p)
    return And(unwrap(p.first) == COLAT(c, n[1]), unwrap(p.second) == COLAT(c, n[2]))


def inv_pactor(v):
    c, m, t = unwrap(v.ctx[0]), v.ctx[1], v.this
    loops_on_names = v.modified(None, lambda x: 'String' in x.sort().name() or 'basic_string' in x.sort().name())
    nl = v.ctx[5]
    for ni, i in v.idxs():
        yield '%s>=0' % ni, 0 <= i
        yield '%s<=filters' % ni, i <= m.len
        yield '%s<=limits' % ni, i <= nl.len
        yield 'columns there before %s' % ni, forall_in(0, i, lambda q: both(v.E, m, q, c))
        yield 'indices length %s' % ni, t.m_table_index_vector.len == i
        yield 'indices before %s' % ni, forall_in(0, i, lambda q: at_cols(v.E, m, q, c, Select(t.m_table_index_vector.arr, q)))
        nm = names_st(v, t)
        if nm is not None:
            yield 'names length %s' % ni, nm.len == i
            yield 'names before %s' % ni, forall_in(0, i, lambda q: Select(nm.arr, q) == fnames(v.E, m, q)[0])
        yield 'choices length %s' % ni, t.m_convert_from_mag.len == i
        yield 'choices before %s' % ni, forall_in(0, i, lambda q: unwrap(wrap(v.E, Select(t.m_convert_from_mag.arr, q)).second) == False)


def names_st(v, t):
    k = v.E.heapkey([x for x in v.E.tu.types if x['k'] == 'rec' and x['name'] == 'std::vector' and x['s'].startswith('std::vector<std::basic_string') and not x.get('const')][0])
    if k not in v.st.heap:
        return None
    return wrap(v.E, Select(v.st.heap[k], unwrap(t.m_filter_name_vector_ptr)))


def pa_built(s):
    E, t, c, m = s.E, s.this1, unwrap(s[0]), s[1]
    nm = names_of(s, t, False)
    q = z3.FreshConst(I, 'q')
    return [('flags', And(t.m_missing_photometry_enabled == s[2], t.m_missing_photometry_flag == s[3], t.m_upper_limit_enabled == s[4], unwrap(t.m_n_map) == unwrap(s[5]), t.m_n_upper_limit_flag == s[6])),
            ('columns-of-each-filter', And(t.m_table_index_vector.len == m.len, forall_in(0, m.len, lambda q: at_cols(E, m, q, c, Select(t.m_table_index_vector.arr, q))))),
            ('names-of-the-filters', And(unwrap(t.m_filter_name_vector_ptr) > 0, nm.len == m.len, forall_in(0, m.len, lambda q: Select(nm.arr, q) == fnames(E, m, q)[0]))),
            ('conversions-given', Implies(s[7].len == s[5].len, unwrap(t.m_convert_from_mag) == unwrap(s[7]))),
            ('no-conversion-otherwise', Implies(s[7].len != s[5].len, And(t.m_convert_from_mag.len == s[5].len, forall_in(0, s[5].len, lambda q: unwrap(wrap(E, Select(t.m_convert_from_mag.arr, q)).second) == False))))]


# ---- catalogue from a table
CT, SZ, IT = T + 'CatalogFromTable::', T + 'SpectroscopicRedshiftAttributeFromRow::', PH + 'PhotometryIterator::'


def trows(s):
    return s[0].m_row_list


def row_refused(s, t, row):
    l = t.m_attribute_from_row_ptr_vector
    cells = wrap(s.E, row).m_values
    ix = unwrap(t.m_source_id_index)
    CR = z3.Function('CREATES', I, row.sort(), B)
    return Or(ix >= cells.len, Not(IDCAN(Select(cells.arr, ix))), exists_in(0, l.len, lambda q: Not(CR(Select(l.arr, q), row))))


def source_of(s, t, row, src):
    l = t.m_attribute_from_row_ptr_vector
    cells = wrap(s.E, row).m_values
    src = wrap(s.E, src)
    A = z3.Function('ATTR', I, row.sort(), I)
    a = src.m_attribute_vector
    return And(unwrap(src.m_source_id) == IDOF(Select(cells.arr, unwrap(t.m_source_id_index))), a.len == l.len, forall_in(0, l.len, lambda q: Select(a.arr, q) == A(Select(l.arr, q), row)))


def rowid(s, q):
    cells = wrap(s.E, Select(trows(s).arr, q)).m_values
    return IDOF(Select(cells.arr, unwrap(s.this.m_source_id_index)))


def cat_refused(s):
    n = trows(s).len
    i, j = z3.FreshConst(I, 'i'), z3.FreshConst(I, 'j')
    return Or(exists_in(0, n, lambda q: row_refused(s, s.this, Select(trows(s).arr, q))), Exists([i, j], And(0 <= i, i < j, j < n, rowid(s, i) == rowid(s, j))))


def inv_rows(v):
    s = v.ctx
    t, rows = s.this, trows(s)
    l = t.m_attribute_from_row_ptr_vector
    done = v.modified(None, lambda x: x.sort().name().startswith('Vec_') and 'Source' in x.sort().name())
    attrs = v.modified(None, lambda x: x.sort().name() == 'Vec_Int')
    for ni, i in v.idxs():
        yield '%s<=rows' % ni, And(0 <= i, i <= rows.len)
        yield '%s<=attributes' % ni, And(0 <= i, i <= l.len)
        yield 'rows fine before %s' % ni, forall_in(0, i, lambda q: Not(row_refused(s, t, Select(rows.arr, q))))
        for nm, a in done:
            yield '%s length %s' % (nm, ni), a.len == i
            yield '%s sources %s' % (nm, ni), forall_in(0, i, lambda q: source_of(s, t, Select(rows.arr, q), Select(a.arr, q)))
        for nm, a in attrs:
            yield '%s length %s' % (nm, ni), a.len == i
            for rn, row in [(k, x) for k, x in v.st.env.items() if z3.is_expr(x) and x.sort().name() == 'R_Euclid_Table_Row' and not x.eq(unwrap(s[0]))]:
                A = z3.Function('ATTR', I, unwrap(row).sort(), I)
                yield '%s made %s' % (nm, ni), forall_in(0, i, lambda q: And(Select(a.arr, q) == A(Select(l.arr, q), unwrap(row)), z3.Function('CREATES', I, unwrap(row).sort(), B)(Select(l.arr, q), unwrap(row))))


def cat_made(s):
    n = trows(s).len
    r = s.result.m_source_vector
    return [('a-source-for-each-row', r.len == n), ('the-sources', forall_in(0, n, lambda q: source_of(s, s.this, Select(trows(s).arr, q), Select(r.arr, q))))] + wfcat(s, s.result)


def speccells(s):
    return s[0].m_values


def spec_refused(s):
    c, t = speccells(s), s.this
    vi, ei, he = unwrap(t.m_value_column_index), unwrap(t.m_error_column_index), unwrap(t.m_has_error_column)
    return Or(vi >= c.len, Not(CAN(Select(c.arr, vi))), And(he, Or(ei >= c.len, Not(CAN(Select(c.arr, ei))))))


def spec_made(s):
    c, t = speccells(s), s.this
    p = s.heap1(REC(s, T + 'SpectroscopicRedshift'), unwrap(s.result))
    return [('value', p.m_value == NUM(Select(c.arr, unwrap(t.m_value_column_index)))), ('error', unwrap(p.m_error) == If(unwrap(t.m_has_error_column), NUM(Select(c.arr, unwrap(t.m_error_column_index))), RealVal(0)))]


def itv(s, name, pre=True):
    return (s.this if pre else s.this1)


CONTRACTS += [
    Contract(PA + '{ctor}', props=P, inv=inv_pactor, requires=lambda s: [('columns', unwrap(s[0]) > 0)], throws=lambda s: [(EX, exists_in(0, s[1].len, lambda q: Not(both(s.E, s[1], q, unwrap(s[0])))))], ensures=pa_built),
    Contract(CT + '{ctor}', props=P, requires=lambda s: [('columns', unwrap(s[0]) > 0)], throws=lambda s: [(EX, Not(HASCOL(unwrap(s[0]), unwrap(s[1]))))],
             ensures=lambda s: [('column-of-the-id', unwrap(s.this1.m_source_id_index) == COLAT(unwrap(s[0]), unwrap(s[1]))), ('attributes', unwrap(s.this1.m_attribute_from_row_ptr_vector) == unwrap(s[2]))]),
    Contract(CT + 'createCatalog', props=P, inv=inv_rows, requires=lambda s: [('makers', forall_in(0, s.this.m_attribute_from_row_ptr_vector.len, lambda q: Select(s.this.m_attribute_from_row_ptr_vector.arr, q) > 0))], throws=lambda s: [(EX, cat_refused(s))], ensures=cat_made),
    Contract(SZ + '{ctor}', sig=['shared_ptr', 'basic_string', 'basic_string'], props=P, name=SZ + '{ctor}(value, error)', requires=lambda s: [('columns', unwrap(s[0]) > 0)], throws=lambda s: [(EX, Or(Not(HASCOL(unwrap(s[0]), unwrap(s[1]))), Not(HASCOL(unwrap(s[0]), unwrap(s[2])))))],
             ensures=lambda s: [('value-column', unwrap(s.this1.m_value_column_index) == COLAT(unwrap(s[0]), unwrap(s[1]))), ('error-column', And(unwrap(s.this1.m_has_error_column), unwrap(s.this1.m_error_column_index) == COLAT(unwrap(s[0]), unwrap(s[2]))))]),
    Contract(SZ + '{ctor}', sig=['shared_ptr', 'basic_string'], props=P, name=SZ + '{ctor}(value)', requires=lambda s: [('columns', unwrap(s[0]) > 0)], throws=lambda s: [(EX, Not(HASCOL(unwrap(s[0]), unwrap(s[1]))))],
             ensures=lambda s: [('value-column', unwrap(s.this1.m_value_column_index) == COLAT(unwrap(s[0]), unwrap(s[1]))), ('no-error-column', Not(unwrap(s.this1.m_has_error_column)))]),
    Contract(SZ + 'createAttribute', props=P, throws=lambda s: [(EX, spec_refused(s))], ensures=spec_made),
    Contract(T + 'SpectroscopicRedshift::{ctor}', sig=['double', 'double'], props=P, ensures=lambda s: [('value', s.this1.m_value == s[0]), ('error', s.this1.m_error == s[1])]),
    Contract(T + 'SpectroscopicRedshift::getValue', props=P, ensures=lambda s: [('value', s.result == s.this.m_value)]),
    Contract(T + 'SpectroscopicRedshift::getError', props=P, ensures=lambda s: [('error', s.result == s.this.m_error)]),
    Contract(T + 'Coordinates::{ctor}', sig=['double', 'double'], props=P, ensures=lambda s: [('ra', s.this1.m_ra == s[0]), ('dec', s.this1.m_dec == s[1])]),
    Contract(T + 'Coordinates::getRa', props=P, ensures=lambda s: [('ra', s.result == s.this.m_ra)]),
    Contract(T + 'Coordinates::getDec', props=P, ensures=lambda s: [('dec', s.result == s.this.m_dec)]),
    Contract(F + 'operator==', props=P, ensures=lambda s: [('both-missing', Implies(And(unwrap(s.this.missing_photometry_flag), unwrap(s[0].missing_photometry_flag)), unwrap(s.result))),
                                                         ('both-present', Implies(And(Not(unwrap(s.this.missing_photometry_flag)), Not(unwrap(s[0].missing_photometry_flag))), unwrap(s.result) == And(s.this.flux == s[0].flux, s.this.error == s[0].error, s.this.upper_limit_flag == s[0].upper_limit_flag)))]),
]
