"""Table: reading text.

A stream is its sequence of lines with a position, an end-of-file mark and a failure mark; positions are those of line starts.
TRIM is boost::trim; the tokens of a line are an uninterpreted function of its text (TOK, NTOK): proofs hold whatever the quoting
rules are, as long as reading the k-th token of the same text gives the same token.  CONV(text, type) is the value of a cell."""
from cppvc.api import *
NAME = 'ascii'
DRIVER = 'drivers/ascii.cpp'
T = 'Euclid::Table::'
FOLDS = []
LEMMAS = []
STR = z3.StringSort()
AS = z3.ArraySort(I, STR)
_d = z3.Datatype('Stream')
_d.declare('mk', ('lines', AS), ('n', I), ('pos', I), ('eof', B), ('fail', B), ('nl', B))
STREAM = _d.create()
_d = z3.Datatype('Tokens')
_d.declare('mk', ('text', STR), ('i', I), ('fail', B))
TOKENS = _d.create()
TRIM = z3.Function('TRIM', STR, STR)
TOK = z3.Function('TOK', STR, I, STR)
NTOK = z3.Function('NTOK', STR, I)
CELL = z3.DeclareSort('Cell')
CONV = z3.Function('CONV', STR, I, CELL)
CANCONV = z3.Function('CANCONV', STR, I, B)
GHOSTS = {r'InstOrRefHolder<std::basic_istream': [('$stream', lambda E: STREAM)]}
EX = 'Elements::Exception'
P = ['C15']


def CUT(l, c):
    """the line without its comment"""
    i = z3.IndexOf(l, c, IntVal(0))
    return TRIM(If(i < 0, l, z3.SubString(l, IntVal(0), i)))


CUTF = specfn('cut', [STR, STR], STR, lambda l, c: CUT(l, c))
DATA = lambda l, c: z3.Length(CUT(l, c)) != 0
CNT = specfn('datalines', [AS, STR, I, I], I, lambda a, c, lo, hi: If(hi <= lo, IntVal(0), CNT(a, c, lo, hi - 1) + If(DATA(Select(a, hi - 1), c), IntVal(1), IntVal(0))))


def upd(st, **k):
    f = {n: k.get(n, getattr(STREAM, n)(st)) for n in ('lines', 'n', 'pos', 'eof', 'fail', 'nl')}
    return STREAM.mk(*[f[n] if z3.is_expr(f[n]) else (z3.BoolVal(f[n]) if isinstance(f[n], bool) else IntVal(f[n])) for n in ('lines', 'n', 'pos', 'eof', 'fail', 'nl')])


F = lambda n: getattr(STREAM, n)


def h_getline(E, s, fr, e, args):
    st = E.load(s, args[0])
    E.assumed.add('a stream is its sequence of lines; std::getline gives them in order and marks failure after the last')
    if st.sort() == TOKENS:
        E.store(s, args[1], E.fresh('rest', STR))
        return [(s, args[0])]
    out = []
    n, p = F('n')(st), F('pos')(st)
    for s2, ok in E.split(s, And(Not(F('fail')(st)), Not(F('eof')(st)), p < n)):
        if ok:
            E.store(s2, args[1], Select(F('lines')(st), p))
            E.store(s2, args[0], upd(st, pos=p + 1, eof=And(p + 1 == n, Not(F('nl')(st)))))
        else:
            # nothing left: the text is emptied, unless the stream had already failed
            old = E.load(s2, args[1])
            E.store(s2, args[1], If(Or(F('fail')(st), F('eof')(st)), old, z3.StringVal('')))
            E.store(s2, args[0], upd(st, eof=Or(F('eof')(st), Not(F('fail')(st))), fail=True))
        out.append((s2, args[0]))
    return out


def m_bool(E, s, fr, e, o, args):
    st = E.load(s, o)
    return [(s, Not(TOKENS.fail(st) if st.sort() == TOKENS else F('fail')(st)))]


def m_not(E, s, fr, e, o, args):
    st = E.load(s, o)
    return [(s, TOKENS.fail(st) if st.sort() == TOKENS else F('fail')(st))]


def m_tellg(E, s, fr, e, o, args):
    st = E.load(s, o)
    bad = Or(F('fail')(st), F('eof')(st))
    E.store(s, o, upd(st, fail=bad))
    return [(s, If(bad, IntVal(-1), F('pos')(st)))]


def m_seekg(E, s, fr, e, o, args):
    st = E.load(s, o)
    p = unwrap(E.val(s, args[0]))
    good = And(Not(F('fail')(st)), 0 <= p, p <= F('n')(st))
    E.store(s, o, upd(st, pos=If(good, p, F('pos')(st)), eof=z3.BoolVal(False), fail=Or(F('fail')(st), Not(good))))
    return [(s, o)]


def m_clear(E, s, fr, e, o, args):
    st = E.load(s, o)
    E.store(s, o, upd(st, eof=False, fail=False))
    return [(s, None)]


def m_setstate(E, s, fr, e, o, args):
    return [(s, None)]   # the mask of a stream without exceptions is empty


def m_exceptions(E, s, fr, e, o, args):
    E.assumed.add('the stream throws no exceptions of its own (empty exception mask)')
    return [(s, IntVal(0))]


def h_trim(E, s, fr, e, args):
    s.assume(TRIM(z3.StringVal('')) == z3.StringVal(''))
    E.assumed.add('trimming an empty text leaves it empty')
    E.store(s, args[0], TRIM(E.term(s, E.val(s, args[0]))))
    return [(s, None)]


def m_sstream(E, s, fr, e, o, args):
    if not args:
        return [(s, TOKENS.mk(E.fresh('text', STR), IntVal(0), z3.BoolVal(False)))]
    return [(s, TOKENS.mk(E.term(s, E.val(s, args[0])), IntVal(0), z3.BoolVal(False)))]


class Quoted:
    def __init__(self, lv):
        self.lv = lv


def h_quoted(E, s, fr, e, args):
    return [(s, Quoted(args[0]))]


def h_extract(E, s, fr, e, args):
    st = E.load(s, args[0])
    x = args[1]
    lv = x.lv if isinstance(x, Quoted) else x
    if st.sort() != TOKENS:
        raise Unsupported('extraction from a stream of lines')
    t, i = TOKENS.text(st), TOKENS.i(st)
    more = And(Not(TOKENS.fail(st)), i < NTOK(t))
    s.assume(NTOK(t) >= 0)
    E.assumed.add('the tokens of a line are a function of its text')
    old = E.load(s, lv)
    tok = TOK(t, i) if isinstance(x, Quoted) else z3.Function('WORD', STR, I, STR)(t, i)
    E.store(s, lv, If(more, tok, E.fresh('tok', STR)))
    E.store(s, args[0], TOKENS.mk(t, If(more, i + 1, i), Not(more)))
    return [(s, args[0])]


def m_ref(E, s, fr, e, o, args):
    t = [t for t in E.tu.types if t['k'] == 'rec' and t['name'] == 'std::basic_istream' and not t.get('const')][0]
    E.assumed.add('the holder of a stream always gives the same stream')
    return [(s, o.f('$stream', t))]


def wf(st):
    return And(0 <= F('pos')(st), F('pos')(st) <= F('n')(st), Implies(Or(F('fail')(st), F('eof')(st)), F('pos')(st) == F('n')(st)))


def same_lines(a, b):
    return And(F('lines')(a) == F('lines')(b), F('n')(a) == F('n')(b), F('nl')(a) == F('nl')(b))


def back(a, b):
    """the stream is where it was"""
    return [('same-text', same_lines(a, b)), ('same-position', F('pos')(b) == F('pos')(a)), ('readable-as-before', F('fail')(b) == Or(F('fail')(a), F('eof')(a))),
            ('still-well-formed', wf(b))]


def left(st, c):
    return CNT(F('lines')(st), c, F('pos')(st), F('n')(st))


def cur(v, i):
    x = v.ctx.args[v.ctx.fn['params'][i]['id']]
    return v.E.load(v.st, x)


def stv(v):
    """the stream now and at the start of the function"""
    if v.ctx.fn['q'].startswith(T + 'AsciiReader::'):
        return stream_of(v.E, v.st, v.this), stream_of(v.E, v.ctx.pre, v.ctx.this), unwrap(v.ctx.this.m_comment)
    return cur(v, 0), unwrap(v.ctx[0]), unwrap(v.ctx[1])


def HK(E):
    return E.heapkey([t for t in E.tu.types if t['k'] == 'rec' and t['s'].startswith('Euclid::InstOrRefHolder<std::basic_istream') and not t.get('const')][0])


def stream_of(E, st, this):
    return unwrap(wrap(E, Select(E.heap(st, HK(E)), unwrap(this.m_stream_holder))).__getattr__('$stream'))


def base_inv(v):
    st, st0, c = stv(v)
    yield 'same text', same_lines(st, st0)
    yield 'well formed', wf(st)
    yield 'forward', F('pos')(st) >= F('pos')(st0)


def inv_count(v):
    st, st0, c = stv(v)
    yield from base_inv(v)
    n = CNT(F('lines')(st), c, F('pos')(st0), F('pos')(st))
    yield 'no data lines so far', n == 0
    for nm, x in v.ints():
        yield '%s data lines so far' % nm, x == n


STM = lambda s: unwrap(s[0])
CM = lambda s: unwrap(s[1])
pre = lambda s: [('well-formed', wf(STM(s))), ('comment-mark', z3.Length(CM(s)) > 0)]
L_mono = Lemma('data-lines-grow', [('a', AS), ('c', STR), ('lo', I), ('mid', I), ('hi', I)], lambda a, c, lo, mid, hi: And(Implies(And(0 <= lo, lo <= mid, mid <= hi), CNT(a, c, lo, hi) >= CNT(a, c, lo, mid)),
    Implies(And(0 <= lo, lo <= mid, mid < hi, DATA(Select(a, mid), c)), CNT(a, c, lo, hi) > CNT(a, c, lo, mid))), induct=4)
LEMMAS = [L_mono]


def mono(s):
    st, st1 = STM(s), unwrap(s.out(0))
    a, c = F('lines')(st), CM(s)
    yield L_mono.forall(lambda a, c, lo, mid, hi: z3.MultiPattern(CNT(a, c, lo, mid), CNT(a, c, lo, hi)), a, c, F('pos')(st), None, F('n')(st))


def mono2(s):
    st = STM(s)
    yield L_mono.forall(lambda a, c, lo, mid, hi: z3.MultiPattern(CNT(a, c, lo, mid), CNT(a, c, lo, hi)), F('lines')(st), CM(s), F('pos')(st), None, None)


CONFIG = {'scoped_dtors': (T + 'StreamRewinder',), 'ref_members': (T + 'StreamRewinder::m_stream',), 'sorts': {'boost::variant': CELL, 'std::type_index': I, 'std::type_info': I, 'std::basic_istream': STREAM,  'std::basic_stringstream': TOKENS, 'std::fpos': I},
          'free_hooks': {'std::operator|': lambda E, s, fr, e, args: [(s, E.fresh('mode', I))], 'std::getline': h_getline, 'boost::trim': h_trim, 'boost::algorithm::trim': h_trim, 'boost::io::quoted': h_quoted, 'boost::io::operator>>': h_extract, 'std::operator>>': h_extract,
                         'boost::io::detail::operator>>': h_extract},
          'models': {'std::basic_ios::{conv}': m_bool, 'std::basic_ios::operator!': m_not, 'std::basic_ios::fail': m_not, 'std::basic_istream::tellg': m_tellg, 'std::basic_istream::seekg': m_seekg, 'std::basic_ios::clear': m_clear, 'std::basic_ios::setstate': m_setstate,
                     'std::basic_ios::exceptions': m_exceptions, 'std::basic_stringstream::{ctor}': m_sstream, 'Euclid::InstOrRefHolder::ref': m_ref}}
# ------------------------------------------------------------------ the reader
def CIKEY(E):
    return E.heapkey([t for t in E.tu.types if t['k'] == 'rec' and t['s'] == 'Euclid::Table::ColumnInfo' and not t.get('const')][0])


def S0(s, this=None):
    return stream_of(s.E, s.pre, this or s.this)


def S1(s):
    return stream_of(s.E, s.post, s.this1)


def rdpre(s):
    return [('holder', unwrap(s.this.m_stream_holder) > 0), ('well-formed', wf(S0(s))), ('comment-mark', z3.Length(unwrap(s.this.m_comment)) > 0), ('short', F('n')(S0(s)) < 2 ** 62)]


def taken(c, st, p1, rows):
    """the stream has passed the lines before p1, so many data lines being asked for: the fewest lines that have them"""
    p0, n, L = F('pos')(st), F('n')(st), F('lines')(st)
    k = CNT(L, c, p0, p1)
    return And(p0 <= p1, p1 <= n, Implies(rows >= 0, k <= rows), Implies(And(rows >= 0, k < rows), p1 == n), Implies(rows < 0, p1 == n),
               Implies(rows >= 0, Or(p1 == p0, p1 == n, DATA(Select(L, p1 - 1), c))))


def unchanged(s):
    return [('same-holder', s.this1.m_stream_holder == s.this.m_stream_holder), ('same-comment-mark', s.this1.m_comment == s.this.m_comment), ('the-columns-stay', Implies(unwrap(s.this.m_column_info) != 0, s.this1.m_column_info == s.this.m_column_info)), ('columns-known', unwrap(s.this1.m_column_info) != 0)]


def inv_skip(v):
    yield from base_inv(v)
    st, st0, c = stv(v)
    rows = unwrap(v.ctx[0])
    left = [x for k, x in v.st.env.items() if v.E.varinfo.get(k, ('',))[0] == 'rows']
    for r in left:
        r = unwrap(r)
        k = CNT(F('lines')(st), c, F('pos')(st0), F('pos')(st))
        yield 'rows still wanted', r == rows - k
        yield 'no more than asked', Implies(rows >= 0, r >= 0)
        yield 'some lines', k >= 0
        yield 'as many lines at most', k <= F('pos')(st) - F('pos')(st0)
        yield 'the last line passed had data', Implies(rows >= 0, Or(F('pos')(st) == F('pos')(st0), r > 0, DATA(Select(F('lines')(st), F('pos')(st) - 1), c)))


def first_line(s):
    st, c = STM(s), CM(s)
    L, p0 = F('lines')(st), F('pos')(st)
    i = z3.FreshConst(I, 'line')
    return And(ForAll([i], Implies(And(p0 <= i, i < F('n')(st), CNT(L, c, p0, i) == 0, DATA(Select(L, i), c)), unwrap(s.result) == NTOK(CUT(Select(L, i), c))), patterns=[CNT(L, c, p0, i)]), left(st, c) > 0)


def no_cells(s):
    st, c = STM(s), CM(s)
    L, p0 = F('lines')(st), F('pos')(st)
    i = z3.FreshConst(I, 'line')
    return Or(left(st, c) == 0, F('fail')(st), Exists([i], And(p0 <= i, i < F('n')(st), CNT(L, c, p0, i) == 0, DATA(Select(L, i), c), NTOK(CUT(Select(L, i), c)) == 0)))


def inv_columns(v):
    inner = [unwrap(x) for n, x in v.modified(None, lambda t: t.sort() == TOKENS)]
    if not inner:
        yield from base_inv(v)
        st, st0, c = stv(v)
        yield 'no data lines so far', CNT(F('lines')(st), c, F('pos')(st0), F('pos')(st)) == 0
        for n, x in v.ints():
            yield '%s none so far' % n, x == 0
        return
    for t in inner:
        for n, x in v.ints():
            yield '%s one token ahead' % n, If(TOKENS.fail(t), And(TOKENS.i(t) == x, x == NTOK(TOKENS.text(t))), And(TOKENS.i(t) == x + 1, x + 1 <= NTOK(TOKENS.text(t))))
        for e in [unwrap(v.entry.st.env[k]) for k in v.st.env if k in v.entry.st.env and z3.is_expr(v.st.env[k]) and v.st.env[k].sort() == TOKENS]:
            yield 'same line', TOKENS.text(t) == TOKENS.text(e)


def rowat(E, l, k):
    return wrap(E, Select(l.arr, k))


def typ(E, info, j):
    return unwrap(wrap(E, Select(info.arr, j)).type)


def row_of(E, r, line, info, ci):
    """the row of a line: every token of it, read as the type of its column"""
    v = r.m_values
    return And(unwrap(r.m_column_info) == ci, v.len == NTOK(line), v.len == info.len, forall_in(0, v.len, lambda j: Select(v.arr, j) == CONV(TOK(line, j), typ(E, info, j))))


def rows_of(E, l, st0, p1, c, info, ci):
    L, p0 = F('lines')(st0), F('pos')(st0)
    i = z3.FreshConst(I, 'line')
    k = CNT(L, c, p0, i)
    return ForAll([i], Implies(And(p0 <= i, i < p1, DATA(Select(L, i), c)), And(0 <= k, k < l.len, row_of(E, rowat(E, l, k), CUT(Select(L, i), c), info, ci))), patterns=[Select(L, i)])


def info_now(v):
    ci = unwrap(v.this.m_column_info)
    return ci, wrap(v.E, Select(v.E.heap(v.st, CIKEY(v.E)), ci)).m_info_list


def inv_read(v):
    E = v.E
    rk = v.ctx.fn['params'][0]['id']
    rows0 = unwrap(v.ctx[0])
    toks = [x for x in v.st.env.values() if z3.is_expr(x) and x.sort() == TOKENS]
    inner = [x for n, x in v.modified(None, lambda t: t.sort() == TOKENS)]
    st, st0, c = stv(v)
    ci, info = info_now(v)
    vecs = v.modified(None, lambda t: E.S.is_vec(t.sort()))
    if not inner:
        yield from base_inv(v)
        k = CNT(F('lines')(st), c, F('pos')(st0), F('pos')(st))
        for key, r in v.st.env.items():
            if key[1] == rk and z3.is_expr(r):
                yield 'rows still wanted', r == rows0 - k
                yield 'no more than asked', Implies(rows0 >= 0, r >= 0)
        yield 'some lines', k >= 0
        yield 'as many lines at most', k <= F('pos')(st) - F('pos')(st0)
        yield 'the last line passed had data', Implies(rows0 >= 0, Or(F('pos')(st) == F('pos')(st0), k < rows0, DATA(Select(F('lines')(st), F('pos')(st) - 1), c)))
        for n, l in vecs:
            if 'Row' in str(unwrap(l).sort()):
                yield '%s has a row for each' % n, l.len == k
                yield '%s has their cells' % n, rows_of(E, l, st0, F('pos')(st), c, info, ci)
        return
    for t in inner:
        t = unwrap(t)
        text, i, fail = TOKENS.text(t), TOKENS.i(t), TOKENS.fail(t)
        et = [unwrap(x) for x in [v.entry.st.env.get(k) for k in v.st.env if z3.is_expr(v.st.env[k]) and v.st.env[k].sort() == TOKENS] if x is not None] if hasattr(v.entry, 'st') else []
        for e in et:
            yield 'same line', text == TOKENS.text(e)
        for n, l in vecs:
            if unwrap(l).sort() == E.S.vec_of(CELL):
                yield '%s have what was read' % n, forall_in(0, l.len, lambda j: Select(l.arr, j) == CONV(TOK(text, j), typ(E, info, j)))
                yield '%s fit the columns' % n, Implies(info.len >= 0, l.len <= info.len)
                yield '%s one token ahead' % n, If(fail, And(i == l.len, l.len == NTOK(text)), And(i == l.len + 1, i <= NTOK(text)))
                for nc, x in v.ints():
                    yield '%s counts %s' % (nc, n), x == l.len
                for nt, x in v.modified(None, lambda y: y.sort() == STR):
                    yield '%s is the next of %s' % (nt, n), Implies(Not(fail), unwrap(x) == TOK(text, l.len))


CONTRACTS = [
    Contract(T + 'Row::{ctor}', sig=['vector<boost::variant', 'shared_ptr'], trusted=True, may_throw=EX, ensures=lambda s: [('cells', unwrap(s.this1.m_values) == unwrap(s[0])), ('columns', s.this1.m_column_info == s[1]), ('a-cell-for-each-column', s[0].len == wrap(s.E, Select(s.E.heap(s.pre, CIKEY(s.E)), unwrap(s[1]))).m_info_list.len)]),
    Contract(T + 'Table::{ctor}', sig=['vector<Euclid::Table::Row'], trusted=True, may_throw=EX, ensures=lambda s: [('rows', unwrap(s.this1.m_row_list) == unwrap(s[0]))]),
    Contract(T + 'ColumnInfo::size', trusted=True, ensures=lambda s: [('number', s.result == s.this.m_info_list.len)]),
    Contract(T + 'ColumnInfo::getDescription', sig=['unsigned long'], trusted=True, throws=lambda s: [(EX, s[0] >= s.this.m_info_list.len)], ensures=lambda s: [('the-column-there', unwrap(s.result) == Select(s.this.m_info_list.arr, unwrap(s[0])))]),
    Contract(T + 'convertToCellType', trusted=True, throws=lambda s: [(EX, Not(CANCONV(unwrap(s[0]), unwrap(s[1]))))], ensures=lambda s: [('the-cell-of-the-text', unwrap(s.result) == CONV(unwrap(s[0]), unwrap(s[1])))]),
    Contract(T + 'AsciiReader::readImpl', props=P, requires=rdpre, may_throw=EX, heap_mod=[r'Euclid::InstOrRefHolder<std::basic_istream.*'], inv=inv_read, ensures=lambda s: [('same-text', same_lines(S0(s), S1(s))), ('well-formed', wf(S1(s))),
        ('reads-the-rows', taken(unwrap(s.this.m_comment), S0(s), F('pos')(S1(s)), unwrap(s[0]))), ('at-least-one', s.result.m_row_list.len >= 1),
        ('a-row-for-each-line', s.result.m_row_list.len == CNT(F('lines')(S0(s)), unwrap(s.this.m_comment), F('pos')(S0(s)), F('pos')(S1(s)))),
        ('with-its-cells', rows_of(s.E, s.result.m_row_list, S0(s), F('pos')(S1(s)), unwrap(s.this.m_comment), wrap(s.E, Select(s.E.heap(s.post, CIKEY(s.E)), unwrap(s.this1.m_column_info))).m_info_list, unwrap(s.this1.m_column_info)))] + unchanged(s)),
    Contract(T + 'hasNextRow', props=P, hints=mono, requires=pre, inv=inv_count, ensures=lambda s: [('a-data-line-is-left', unwrap(s.result) == (left(STM(s), CM(s)) > 0))] + back(STM(s), unwrap(s.out(0)))),
    Contract(T + 'countRemainingRows', props=P, requires=pre, inv=inv_count, ensures=lambda s: [('the-data-lines-left', s.result == left(STM(s), CM(s)))] + back(STM(s), unwrap(s.out(0)))),
    Contract(T + 'countColumns', props=P, requires=pre, inv=inv_columns, hints=mono2, hints_on_throw=mono2, may_throw=EX, on_throw=lambda s: [('no-cells', no_cells(s))], ensures=lambda s: [('some-cells', s.result >= 1), ('the-cells-of-the-first-data-line', first_line(s))] + back(STM(s), unwrap(s.out(0)))),
    Contract(T + 'AsciiReader::hasMoreRows', props=P, requires=rdpre, heap_mod=[r'Euclid::InstOrRefHolder<std::basic_istream.*'], ensures=lambda s: [('rows-are-left', unwrap(s.result) == (left(S0(s), unwrap(s.this.m_comment)) > 0))] + back(S0(s), S1(s))),
    Contract(T + 'AsciiReader::rowsLeft', props=P, requires=rdpre, heap_mod=[r'Euclid::InstOrRefHolder<std::basic_istream.*'], ensures=lambda s: [('number-of-rows-left', s.result == left(S0(s), unwrap(s.this.m_comment)))] + back(S0(s), S1(s))),
    Contract(T + 'AsciiReader::skip', props=P, requires=rdpre, may_throw=EX, heap_mod=[r'Euclid::InstOrRefHolder<std::basic_istream.*'], inv=inv_skip, ensures=lambda s: [('same-text', same_lines(S0(s), S1(s))), ('well-formed', wf(S1(s))),
        ('passes-the-rows', taken(unwrap(s.this.m_comment), S0(s), F('pos')(S1(s)), unwrap(s[0])))] + unchanged(s)),
]
HEAD = (AS, I, I, STR)   # the text from a position on, and the comment mark
NAMES = z3.Function('COLUMN_NAME', *HEAD, I, I, STR)
DESCR = z3.Function('DESCRIBED', *HEAD, STR, B)
DTYPE = z3.Function('DESCRIBED_TYPE', *HEAD, STR, I)
DUNIT = z3.Function('DESCRIBED_UNIT', *HEAD, STR, STR)
DTEXT = z3.Function('DESCRIBED_TEXT', *HEAD, STR, STR)


def vget_(l, i):
    return unwrap(Select(l.arr, i))


def same_columns(s, l):
    return And(l.len == s[0].len, forall_in(0, l.len, lambda q: And(unwrap(wrap(s.E, Select(l.arr, q)).name) == vget_(s[0], q), unwrap(wrap(s.E, Select(l.arr, q)).type) == vget_(s[1], q),
               unwrap(wrap(s.E, Select(l.arr, q)).unit) == vget_(s[2], q), unwrap(wrap(s.E, Select(l.arr, q)).description) == vget_(s[3], q))))


def inv_create(v):
    for ni, i in v.idxs():
        yield '%s<=n' % ni, And(0 <= i, i <= v.ctx[0].len)
        for n, l in v.modified(None, lambda t: v.E.S.is_vec(t.sort())):
            yield '%s before %s' % (n, ni), And(l.len == i, forall_in(0, i, lambda q: And(unwrap(wrap(v.E, Select(l.arr, q)).name) == vget_(v.ctx[0], q), unwrap(wrap(v.E, Select(l.arr, q)).type) == vget_(v.ctx[1], q),
               unwrap(wrap(v.E, Select(l.arr, q)).unit) == vget_(v.ctx[2], q), unwrap(wrap(v.E, Select(l.arr, q)).description) == vget_(v.ctx[3], q))))


CDN = T + 'ColumnDescription::{ctor}'
CONTRACTS += [
    Contract(CDN, sig=['basic_string', 'type_index', 'basic_string', 'basic_string'], trusted=True, may_throw=EX, ensures=lambda s: [('name', s.this1.name == s[0]), ('type', s.this1.type == s[1]), ('unit', s.this1.unit == s[2]), ('description', s.this1.description == s[3])]),
    Contract(T + 'ColumnInfo::{ctor}', sig=['vector<Euclid::Table::ColumnDescription'], trusted=True, may_throw=EX, ensures=lambda s: [('columns', unwrap(s.this1.m_info_list) == unwrap(s[0]))]),
    Contract(T + 'createColumnInfo', props=P, inv=inv_create, may_throw=EX, heap_mod=['Euclid::Table::ColumnInfo'], requires=lambda s: [('an-entry-each', And(s[0].len == s[1].len, s[0].len == s[2].len, s[0].len == s[3].len))],
             ensures=lambda s: [('exists', unwrap(s.result) > 0), ('each-column-as-given', same_columns(s, wrap(s.E, Select(s.E.heap(s.post, CIKEY(s.E)), unwrap(s.result))).m_info_list))]),
]


def head(st, c):
    return F('lines')(st), F('pos')(st), F('n')(st), c


def described(s):
    h = head(STM(s), CM(s))
    n = z3.FreshConst(STR, 'name')
    m = s.result
    d = lambda f: unwrap(getattr(wrap(s.E, Select(unwrap(m.val), n)), f))
    return ForAll([n], And(Select(unwrap(m.dom), n) == DESCR(*h, n), d('type') == DTYPE(*h, n), d('unit') == DUNIT(*h, n), d('description') == DTEXT(*h, n)), patterns=[Select(unwrap(m.dom), n)])


def column(E, h, cols, fixed_names, fixed_types, k, i):
    """name, type, unit and description of column i of k"""
    auto = NAMES(*h, k, i)
    has = DESCR(*h, auto)
    return {'name': If(fixed_names.len == 0, auto, vget_(fixed_names, i)),
            'type': If(fixed_types.len > 0, vget_(fixed_types, i), If(has, DTYPE(*h, auto), z3.Int('typeid_std_string'))),
            'unit': If(has, DUNIT(*h, auto), z3.StringVal('')), 'description': If(has, DTEXT(*h, auto), z3.StringVal(''))}


def columns_are(s):
    ci = unwrap(s.this1.m_column_info)
    l = wrap(s.E, Select(s.E.heap(s.post, CIKEY(s.E)), ci)).m_info_list
    h = head(S0(s), unwrap(s.this.m_comment))
    def one(q):
        w = column(s.E, h, l, s.this.m_column_names, s.this.m_column_types, l.len, q)
        return And(*[unwrap(getattr(wrap(s.E, Select(l.arr, q)), f)) == x for f, x in w.items()])
    i = z3.FreshConst(I, 'line')
    L, p0, n, c = h
    new = unwrap(s.this.m_column_info) == 0
    return [('a-column-for-each-cell', Implies(new, And(l.len >= 1, ForAll([i], Implies(And(p0 <= i, i < n, CNT(L, c, p0, i) == 0, DATA(Select(L, i), c)), l.len == NTOK(CUT(Select(L, i), c))), patterns=[CNT(L, c, p0, i)])))),
            ('as-many-as-fixed', Implies(new, And(Or(s.this.m_column_names.len == 0, s.this.m_column_names.len == l.len), Or(s.this.m_column_types.len == 0, s.this.m_column_types.len == l.len)))),
            ('fixed-or-found-in-the-comments', Implies(new, forall_in(0, l.len, one)))]


def inv_info(v):
    st, st0, c = stv(v)
    h = head(st0, c)
    th = v.this
    autos = [wrap(v.E, x) for k, x in v.st.env.items() if z3.is_expr(x) and x.sort() == v.E.S.vec_of(STR)]
    mods = v.modified(None, lambda t: v.E.S.is_vec(t.sort()))
    autos = [a for a in autos if not any(unwrap(a).eq(unwrap(m)) for _, m in mods)]
    for ni, i in v.idxs():
        for n, l in mods:
            yield '%s one for each of %s' % (n, ni), l.len == i
            for a in autos:
                for f in ('name', 'type', 'unit', 'description'):
                    w = lambda q: column(v.E, h, None, th.m_column_names, th.m_column_types, a.len, q)[f]
                    if unwrap(l).sort() == v.E.S.vec_of(w(IntVal(0)).sort()):
                        yield '%s are the %ss' % (n, f), forall_in(0, i, lambda q: vget_(l, q) == w(q))


def back_info(s):
    a, b = S0(s), S1(s)
    return [x for x in back(a, b) if x[0] != 'readable-as-before'] + [('readable-as-before', F('fail')(b) == Or(F('fail')(a), And(unwrap(s.this.m_column_info) == 0, F('eof')(a))))]


H2 = [r'Euclid::InstOrRefHolder<std::basic_istream.*', 'Euclid::Table::ColumnInfo']
CONTRACTS += [
    Contract(T + 'autoDetectColumnNames', trusted=True, requires=pre, may_throw=EX, ensures=lambda s: [('one-for-each', s.result.len == s[2]), ('the-names-in-the-comments', forall_in(0, s.result.len, lambda q: vget_(s.result, q) == NAMES(*head(STM(s), CM(s)), unwrap(s[2]), q)))] + back(STM(s), unwrap(s.out(0)))),
    Contract(T + 'autoDetectColumnDescriptions', trusted=True, requires=pre, may_throw=EX, ensures=lambda s: [('the-descriptions-in-the-comments', described(s))] + back(STM(s), unwrap(s.out(0)))),
    Contract(T + 'AsciiReader::readColumnInfo', props=P, requires=rdpre, may_throw=EX, heap_mod=H2, inv=inv_info, ensures=lambda s: back_info(s) + unchanged(s) + columns_are(s)),
]
CONTRACTS += [Contract(T + 'AsciiReader::getInfo', props=P, requires=rdpre, may_throw=EX, heap_mod=H2, ensures=lambda s: back_info(s) + unchanged(s) + columns_are(s))]
