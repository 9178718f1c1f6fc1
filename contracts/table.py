"""Table: column descriptions, columns, rows and tables.

A cell is an opaque value with a type (TYPEOF) and, when it is text, the text itself (TEXT); regex_match(t, \".*\\\\v.*\") is the
uninterpreted predicate VERT (the text has vertical white space)."""
from cppvc.api import *
NAME = 'table'
DRIVER = 'drivers/table.cpp'
T = 'Euclid::Table::'
GHOSTS = {}
FOLDS = []
LEMMAS = []
STR = z3.StringSort()
CELL = z3.DeclareSort('Cell')
TYPEOF = z3.Function('TYPEOF', CELL, I)
TEXT = z3.Function('TEXT', CELL, STR)
VERT = z3.Function('VERT', STR, B)
TEXT_TYPE = z3.Int('typeid_std_string')


def h_match(E, s, fr, e, args):
    E.assumed.add('regex_match against .*\\v.* says whether a text has vertical white space')
    return [(s, VERT(E.val(s, args[0])))]


def h_get(E, s, fr, e, args):
    c = E.val(s, args[0])
    E.oblige(s, 'precondition', TYPEOF(c) == TEXT_TYPE, e.get('l', ''), 'get-of-the-type-it-holds')
    return [(s, TEXT(c))]


def h_type(E, s, fr, e, o, args):
    return [(s, TYPEOF(E.val(s, o)))]


def h_tindex(E, s, fr, e, o, args):
    return [(s, E.val(s, args[0]))]


def tid(E, s, x):
    v = E.val(s, x) if not (isinstance(x, tuple) and x and x[0] == 'typeid') else x
    if isinstance(v, tuple) and v and v[0] == 'typeid':
        return TEXT_TYPE if 'string' in v[1] else z3.Int('typeid_' + v[1])
    return unwrap(v)


def bad_text(t):
    return Or(z3.Length(t) == 0, VERT(t))


def names(s, l):
    return lambda i: wrap(s.E, Select(l.arr, i)).name


def dup(s, l):
    i, j = z3.FreshConst(I, 'i'), z3.FreshConst(I, 'j')
    n = lambda i: unwrap(wrap(s.E, Select(l.arr, i)).name)
    return Exists([i, j], And(0 <= i, i < j, j < l.len, n(i) == n(j)))


def uniq(E, l):
    i, j = z3.FreshConst(I, 'i'), z3.FreshConst(I, 'j')
    n = lambda i: unwrap(wrap(E, Select(l.arr, i)).name)
    return [('some-column', l.len >= 1), ('names-differ', ForAll([i, j], Implies(And(0 <= i, i < j, j < l.len), n(i) != n(j)), patterns=[z3.MultiPattern(Select(l.arr, i), Select(l.arr, j))]))]


def inv_names(v):
    l = v.ctx[0]
    n = lambda i: unwrap(wrap(v.E, Select(l.arr, i)).name)
    for ni, i in v.idxs():
        yield '%s<=n' % ni, And(0 <= i, i <= l.len)
        a, b = z3.FreshConst(I, 'i'), z3.FreshConst(I, 'j')
        yield 'different before %s' % ni, ForAll([a, b], Implies(And(0 <= a, a < b, b < i), n(a) != n(b)), patterns=[z3.MultiPattern(Select(l.arr, a), Select(l.arr, b))])
        for ns, st in v.modified(None, lambda t: 'Set_' in t.sort().name()):
            t = z3.FreshConst(STR, 't')
            q = z3.FreshConst(I, 'q')
            yield '%s has the names before %s' % (ns, ni), forall_in(0, i, lambda q: Select(unwrap(st.dom), n(q)))
            yield '%s has no other' % ns, ForAll([t], Implies(Select(unwrap(st.dom), t), Exists([q], And(0 <= q, q < i, n(q) == t))), patterns=[Select(unwrap(st.dom), t)])


def CIKEY(E):
    return E.heapkey([t for t in E.tu.types if t['k'] == 'rec' and t['s'] == 'Euclid::Table::ColumnInfo' and not t.get('const')][0])


def info(s, r, pre=True):
    return (s.heap0 if pre else s.heap1)(CIKEY(s.E), unwrap(r)).m_info_list


def same_col(E, a, b):
    a, b = wrap(E, a), wrap(E, b)
    return And(a.name == b.name, a.type == b.type, a.unit == b.unit)


def same_cols(E, l, m):
    q = z3.FreshConst(I, 'q')
    return And(l.len == m.len, ForAll([q], Implies(And(0 <= q, q < l.len), same_col(E, Select(l.arr, q), Select(m.arr, q))), patterns=[Select(l.arr, q), Select(m.arr, q)]))


def cell_bad(c):
    return And(TYPEOF(c) == TEXT_TYPE, bad_text(TEXT(c)))


def row_bad(s):
    v, r = s[0], unwrap(s[1])
    l = info(s, r)
    q = z3.FreshConst(I, 'q')
    return Or(r == 0, v.len != l.len, exists_in(0, v.len, lambda q: TYPEOF(Select(v.arr, q)) != unwrap(wrap(s.E, Select(l.arr, q)).type)), exists_in(0, v.len, lambda q: cell_bad(Select(v.arr, q))))


def inv_row(v):
    c, l = v.ctx[0], info(v.ctx, v.ctx[1])
    for ni, i in v.idxs():
        yield '%s<=n' % ni, And(0 <= i, i <= c.len)
        yield 'right types before %s' % ni, forall_in(0, i, lambda q: TYPEOF(Select(c.arr, q)) == unwrap(wrap(v.E, Select(l.arr, q)).type))
        yield 'good texts before %s' % ni, forall_in(0, i, lambda q: Not(cell_bad(Select(c.arr, q))))


def wfrow(s, o, pre=True):
    l = info(s, o.m_column_info, pre)
    return [('columns', unwrap(o.m_column_info) > 0), ('a-cell-for-each-column', o.m_values.len == l.len),
            ('of-its-type', forall_in(0, l.len, lambda q: TYPEOF(Select(o.m_values.arr, q)) == unwrap(wrap(s.E, Select(l.arr, q)).type)))]


def row_info(s, l, q, pre=True):
    return info(s, wrap(s.E, Select(l.arr, q)).m_column_info, pre)


def table_bad(s):
    l = s[0]
    return Or(l.len == 0, exists_in(0, l.len, lambda q: Not(same_cols(s.E, row_info(s, l, q), row_info(s, l, IntVal(0))))))


def inv_table(v):
    l = v.ctx[0]
    for ni, i in v.idxs():
        yield '%s<=n' % ni, And(0 <= i, i <= l.len)
        yield 'same columns before %s' % ni, forall_in(0, i, lambda q: same_cols(v.E, row_info(v.ctx, l, q), row_info(v.ctx, l, IntVal(0))))


def has_name(s, l, t):
    return exists_in(0, l.len, lambda q: unwrap(wrap(s.E, Select(l.arr, q)).name) == unwrap(t))


def inv_search(v):
    return []


def found_at(s):
    l = s.this.m_info_list
    t = [t for t in s.E.tu.types if t['k'] == 'int' and t['s'] == 'unsigned long' and not t.get('const')][0]
    i = unwrap(s.heap1(s.E.heapkey(t), unwrap(s.result)))
    return And(0 <= i, i < l.len, names(s, l)(i) == s[0])


CONFIG = {'sorts': {'boost::variant': CELL, 'std::type_index': I, 'std::type_info': I}, 'free_hooks': {'boost::regex_match': h_match, 'boost::get': h_get, 'boost::relaxed_get': h_get, 'boost::strict_get': h_get},
          'models': {'boost::variant::type': h_type, 'std::type_index::{ctor}': h_tindex, 'std::type_info::operator==': lambda E, s, fr, e, o, a: [(s, tid(E, s, o) == tid(E, s, a[0]))], 'std::type_info::operator!=': lambda E, s, fr, e, o, a: [(s, tid(E, s, o) != tid(E, s, a[0]))],
                     'std::type_index::operator==': lambda E, s, fr, e, o, a: [(s, E.val(s, o) == E.val(s, a[0]))], 'std::type_index::operator!=': lambda E, s, fr, e, o, a: [(s, E.val(s, o) != E.val(s, a[0]))]},
          'elem_eq': {'Euclid::Table::ColumnDescription::operator==': same_col}, 'opaque_types': ['boost::basic_regex', 'boost::re_detail']}
P = ['C14']
EX = 'Elements::Exception'
CI, RW, TB, CD = T + 'ColumnInfo::', T + 'Row::', T + 'Table::', T + 'ColumnDescription::'
CONTRACTS = [
    Contract(CD + '{ctor}', sig=['basic_string', 'type_index', 'basic_string', 'basic_string'], props=P, throws=lambda s: [(EX, bad_text(unwrap(s[0])))],
             ensures=lambda s: [('name', s.this1.name == s[0]), ('type', s.this1.type == s[1]), ('unit', s.this1.unit == s[2]), ('description', s.this1.description == s[3])]),
    Contract(CD + 'operator==', props=P, ensures=lambda s: [('name-type-and-unit', unwrap(s.result) == same_col(s.E, unwrap(s.this), unwrap(s[0])))]),
    Contract(CD + 'operator!=', props=P, ensures=lambda s: [('name-type-and-unit', unwrap(s.result) == Not(same_col(s.E, unwrap(s.this), unwrap(s[0]))))]),
    Contract(CI + '{ctor}', sig=['vector<Euclid::Table::ColumnDescription'], props=P, inv=inv_names, throws=lambda s: [(EX, Or(s[0].len == 0, dup(s, s[0])))],
             ensures=lambda s: [('columns', unwrap(s.this1.m_info_list) == unwrap(s[0]))] + uniq(s.E, s.this1.m_info_list)),
    Contract(CI + 'size', props=P, ensures=lambda s: [('number', s.result == s.this.m_info_list.len)]),
    Contract(CI + 'operator==', props=P, ensures=lambda s: [('same-columns', unwrap(s.result) == same_cols(s.E, s.this.m_info_list, s[0].m_info_list))]),
    Contract(CI + 'operator!=', props=P, ensures=lambda s: [('same-columns', unwrap(s.result) == Not(same_cols(s.E, s.this.m_info_list, s[0].m_info_list)))]),
    Contract(CI + 'getDescription', sig=['unsigned long'], props=P, name=CI + 'getDescription(index)', throws=lambda s: [(EX, s[0] >= s.this.m_info_list.len)],
             ensures=lambda s: [('the-column-there', unwrap(s.result) == Select(s.this.m_info_list.arr, unwrap(s[0])))]),
    Contract(CI + 'getDescription', sig=['basic_string'], props=P, name=CI + 'getDescription(name)', requires=lambda s: uniq(s.E, s.this.m_info_list), throws=lambda s: [(EX, Not(has_name(s, s.this.m_info_list, s[0])))],
             ensures=lambda s: [('the-column-of-that-name', exists_in(0, s.this.m_info_list.len, lambda q: And(unwrap(s.result) == Select(s.this.m_info_list.arr, q), s.result.name == s[0])))]),
    Contract(CI + 'find', props=P, requires=lambda s: uniq(s.E, s.this.m_info_list),
             ensures=lambda s: [('found-when-there', (unwrap(s.result) != 0) == has_name(s, s.this.m_info_list, s[0])), ('at-its-place', Implies(unwrap(s.result) != 0, found_at(s)))]),
    Contract(RW + '{ctor}', sig=['vector<boost::variant', 'shared_ptr'], props=P, inv=inv_row, requires=lambda s: [('pointer', unwrap(s[1]) >= 0)], throws=lambda s: [(EX, row_bad(s))],
             ensures=lambda s: [('cells', unwrap(s.this1.m_values) == unwrap(s[0])), ('columns', s.this1.m_column_info == s[1])] + wfrow(s, s.this1)),
    Contract(RW + 'getColumnInfo', props=P, ensures=lambda s: [('columns', s.result == s.this.m_column_info)]),
    Contract(RW + 'size', props=P, ensures=lambda s: [('number', s.result == s.this.m_values.len)]),
    Contract(RW + 'operator[]', sig=['unsigned long'], props=P, name=RW + 'operator[](index)', throws=lambda s: [(EX, s[0] >= s.this.m_values.len)], ensures=lambda s: [('the-cell-there', unwrap(s.result) == Select(s.this.m_values.arr, unwrap(s[0])))]),
    Contract(RW + 'operator[]', sig=['basic_string'], props=P, name=RW + 'operator[](name)', requires=lambda s: wfrow(s, s.this) + uniq(s.E, info(s, s.this.m_column_info)), throws=lambda s: [(EX, Not(has_name(s, info(s, s.this.m_column_info), s[0])))],
             ensures=lambda s: [('the-cell-of-that-column', exists_in(0, s.this.m_values.len, lambda q: And(unwrap(s.result) == Select(s.this.m_values.arr, q), names(s, info(s, s.this.m_column_info))(q) == s[0])))]),
    Contract(TB + '{ctor}', sig=['vector<Euclid::Table::Row'], props=P, inv=inv_table, requires=lambda s: [('rows-with-columns', forall_in(0, s[0].len, lambda q: unwrap(wrap(s.E, Select(s[0].arr, q)).m_column_info) > 0))], throws=lambda s: [(EX, table_bad(s))],
             ensures=lambda s: [('rows', unwrap(s.this1.m_row_list) == unwrap(s[0])), ('its-columns', same_cols(s.E, info(s, s.this1.m_column_info, False), row_info(s, s[0], IntVal(0)))),
                                ('rows-of-its-columns', forall_in(0, s[0].len, lambda q: same_cols(s.E, row_info(s, s[0], q), info(s, s.this1.m_column_info))))]),
    Contract(TB + 'getColumnInfo', props=P, ensures=lambda s: [('columns', s.result == s.this.m_column_info)]),
    Contract(TB + 'size', props=P, ensures=lambda s: [('number', s.result == s.this.m_row_list.len)]),
    Contract(TB + 'operator[]', props=P, throws=lambda s: [(EX, s[0] >= s.this.m_row_list.len)], ensures=lambda s: [('the-row-there', unwrap(s.result) == Select(s.this.m_row_list.arr, unwrap(s[0])))]),
]
