"""FilePool: the bookkeeping of the least-recently-used manager, and opening and closing files.

Operations follow one another (locks are not modelled).  A file asked to close either refuses, and the pool stays as it was, or
closes itself through FileManager::close: BUSY(id) is which of the two."""
from cppvc.api import *
NAME = 'filepool'
DRIVER = 'drivers/filepool.cpp'
FP = 'Euclid::FilePool::'
L = FP + 'LRUFileManager::'
M = FP + 'FileManager::'
GHOSTS = {}
FOLDS = []
LEMMAS = []
BUSY = z3.Function('BUSY', I, B)
LIMIT = z3.Int('LIMIT')
META = 'Euclid::FilePool::FileManager::FileMetadata'
DESC_PATH = None


def fnsort(E):
    return E.S.of([t for t in E.tu.types if t['k'] == 'rec' and t['name'] == 'std::function' and re.search(r'<bool \((void)?\)>', t['s'])][0])


def IDOF(E, f):
    return z3.Function('IDOF', fnsort(E), I)(f)


def q_int(f, pats):
    x = z3.FreshConst(I, 'x')
    try:
        return ForAll([x], f(x), patterns=pats(x))
    except z3.Z3Exception:   # the pattern would hold a conditional
        return ForAll([x], f(x))


def order_ok(t):
    """the list and the positions stored for it agree"""
    l, c = t.m_sorted_ids, t.m_current_pos
    ld, lv, cd, cv = unwrap(l.dom), unwrap(l.val), unwrap(c.dom), unwrap(c.val)
    return [('every-listed-file-has-its-position', q_int(lambda x: Implies(Select(ld, x), And(0 <= x, x < l.next, Select(cd, Select(lv, x)), Select(cv, Select(lv, x)) == x)), lambda x: [Select(ld, x)])),
            ('every-position-is-of-its-file', q_int(lambda i: Implies(Select(cd, i), And(Select(ld, Select(cv, i)), Select(lv, Select(cv, i)) == i)), lambda i: [Select(cd, i)])),
            ('as-many', And(l.n == c.n, l.n >= 0, l.next >= 0))]


def files_ok(t, heap=None):
    f, c = t.m_files, t.m_current_pos
    fd, cd = unwrap(f.dom), unwrap(c.dom)
    return [('files-are-the-listed-ones', q_int(lambda i: Select(fd, i) == Select(cd, i), lambda i: [Select(fd, i)])),
            ('files-are-the-listed-ones.', q_int(lambda i: Select(fd, i) == Select(cd, i), lambda i: [Select(cd, i)])), ('number-of-files', f.n == c.n)] + meta_ok(t, heap)


def meta_ok(t, heap):
    f = t.m_files
    fd, fv = unwrap(f.dom), unwrap(f.val)
    E = t.E
    return [('each-file-closes-itself', q_int(lambda i: Implies(Select(fd, i), And(i != 0, Select(fv, i) == i, IDOF(E, unwrap(heap(META, i).m_request_close)) == i)), lambda i: [Select(fd, i)]))]


def h_request(E, s, fr, e, o, args):
    f = E.val(s, o)
    if not z3.is_expr(f) or f.sort() != fnsort(E):
        return None
    i = IDOF(E, f)
    E.assumed.add('a file asked to close refuses (and the pool stays as it was) or closes itself through FileManager::close')
    this = fr.this
    t = E.load(s, this)
    S = E.S
    fl = core.rget(S, t, 'm_files')
    E.oblige(s, 'precondition', Select(core.rget(S, fl, 'dom'), i), e.get('l', ''), 'asked-to-close-is-open')
    if E.cur.endswith('notifyIntentToOpen'):
        E.oblige(s, 'precondition', core.rget(S, fl, 'n') >= core.rget(S, t, 'm_limit'), e.get('l', ''), 'asked-to-close-only-when-room-is-needed')
    out = []
    for s2, busy in E.split(s, BUSY(i)):
        if busy:
            out.append((s2, z3.BoolVal(False)))
            continue
        for m in ('m_files', 'm_current_pos'):
            v = core.rget(S, t, m)
            v2 = core.rset(S, core.rset(S, v, 'dom', z3.Store(core.rget(S, v, 'dom'), i, False)), 'n', core.rget(S, v, 'n') - 1)
            t2 = core.rset(S, E.load(s2, this), m, v2)
            E.store(s2, this, t2)
        l = core.rget(S, t, 'm_sorted_ids')
        node = Select(core.rget(S, core.rget(S, t, 'm_current_pos'), 'val'), i)
        l2 = core.rset(S, core.rset(S, l, 'dom', z3.Store(core.rget(S, l, 'dom'), node, False)), 'n', core.rget(S, l, 'n') - 1)
        E.store(s2, this, core.rset(S, E.load(s2, this), 'm_sorted_ids', l2))
        out.append((s2, z3.BoolVal(True)))
    return out


def home(E, s, fr):
    t = E.tu.strip(fr.this.ty)
    for f, ft in E.S.user_fields(t['full']):
        if f == 'm_sorted_ids':
            return E.canon(s, fr.this).f('m_sorted_ids', ft)
    raise Unsupported('list iterator outside the manager')


def oldest(t0, t1):
    """what was closed between the states t0 and t1 was not in use and was older than everything else not in use"""
    f0, f1 = unwrap(t0.m_files.dom), unwrap(t1.m_files.dom)
    pos = unwrap(t0.m_current_pos.val)
    x, r = z3.FreshConst(I, 'x'), z3.FreshConst(I, 'r')
    return [('only-files-not-in-use-closed', ForAll([r], Implies(And(Select(f0, r), Not(Select(f1, r))), Not(BUSY(r))), patterns=[Select(f1, r)])),
            ('only-files-not-in-use-closed.', ForAll([r], Implies(And(Select(f0, r), Not(Select(f1, r))), Not(BUSY(r))), patterns=[Select(f0, r)])),
            ('nothing-new', ForAll([r], Implies(Select(f1, r), Select(f0, r)), patterns=[Select(f1, r)])),
            ('the-oldest-goes-first', ForAll([x, r], Implies(And(Select(f0, r), Not(Select(f1, r)), Select(f1, x), Select(pos, x) < Select(pos, r)), BUSY(x)), patterns=[z3.MultiPattern(Select(f1, x), Select(f0, r))]))]


def same_positions(t0, t1):
    return And(unwrap(t0.m_current_pos.val) == unwrap(t1.m_current_pos.val), unwrap(t0.m_sorted_ids.val) == unwrap(t1.m_sorted_ids.val),
               unwrap(t0.m_files.val) == unwrap(t1.m_files.val), t0.m_sorted_ids.next == t1.m_sorted_ids.next, t0.m_limit == t1.m_limit)


def inv_intent(v):
    t, t0 = v.this, v.ctx.this
    hp = v.ctx.heap0
    yield 'same positions', same_positions(t0, t)
    for n, f in order_ok(t) + files_ok(t, hp):
        yield n, unwrap(f)
    for n, f in oldest(t0, t):
        yield n, f
    yield 'room', Or(t.m_files.n == t0.m_files.n, t.m_files.n >= t.m_limit - 1)
    yield 'full', t.m_files.n >= t.m_limit
    f0, f1 = unwrap(t0.m_files.dom), unwrap(t.m_files.dom)
    r = z3.FreshConst(I, 'r')
    yield 'untouched or some closed', Or(And(t.m_files.n == t0.m_files.n, f0 == f1), And(t.m_files.n < t0.m_files.n, Exists([r], And(Select(f0, r), Not(Select(f1, r))))))
    yield 'not more', t.m_files.n <= t0.m_files.n
    ld, lv = unwrap(t.m_sorted_ids.dom), unwrap(t.m_sorted_ids.val)
    for n, c in v.ints():
        yield 'valid ' + n, Or(c == -1, And(c >= 0, Select(ld, c)))
        yield 'in use before ' + n, q_int(lambda x: Implies(And(Select(ld, x), Or(c == -1, x < c)), BUSY(Select(lv, x))), lambda x: [Select(ld, x)])
    for n, c in v.modified(B):
        yield 'closed ' + n, Not(unwrap(c))


PATHOF = lambda E, n: z3.Function('PATHOF', I, E.S.of([t for t in E.tu.types if t['k'] == 'rec' and t['s'].endswith('boost::filesystem::path') and not t.get('const')][0]))(n)
WRITE = z3.Function('WRITE', I, B)


def h_assign(E, s, fr, e, o, args):
    cl = E.val(s, args[0])
    if not isinstance(cl, core.Closure):
        return None
    f = E.fresh('request', fnsort(E))
    probe = s.copy()
    rs = E.call_closure(probe, cl, [])
    if len(rs) != 1 or not z3.is_expr(rs[0][1]) or not z3.is_app(rs[0][1]) or not rs[0][1].decl().name().startswith('apply_'):
        raise Unsupported('close request that is not a single call')
    s.assume(IDOF(E, f) == rs[0][1].arg(1))
    E.store(s, o, f)
    return [(s, o)]


def derived(name):
    def h(E, s, fr, e, o, args):
        if not isinstance(o, core.LVal) or 'LRUFileManager' not in E.tu.strip(o.ty)['s']:
            return None
        f = [f for f in E.tu.functions.values() if f['q'] == L + name][0]
        return E.call_fn(s, fr, f, o, args, e)
    return h


def h_trait_open(E, s, fr, e, this, args):
    t = wrap(E, E.load(s, fr.this))
    E.oblige(s, 'precondition', t.m_files.n < t.m_limit, e.get('l', ''), 'opened-only-when-there-is-room')
    E.throws.append((s.copy(), 'Elements::Exception'))
    dt = E.tu.strip(E.ty(e['ret']))
    d = E.fresh('desc', E.S.of(dt))
    n = core.rget(E.S, d, 'n')
    s.assume(And(n >= 0, PATHOF(E, n) == E.term(s, args[0]), WRITE(n) == E.term(s, args[1])))
    return [(s, d)]


def h_trait_close(E, s, fr, e, this, args):
    d = E.load(s, args[0])
    E.oblige(s, 'precondition', core.rget(E.S, d, 'n') >= 0, e.get('l', ''), 'an-open-descriptor-is-closed')
    E.store(s, args[0], core.rset(E.S, d, 'n', z3.IntVal(-1)))
    return [(s, None)]


def newest(t0, t1, i):
    c0, c1 = t0.m_current_pos, t1.m_current_pos
    d1, v1, v0 = unwrap(c1.dom), unwrap(c1.val), unwrap(c0.val)
    return [('newest', q_int(lambda x: Implies(And(Select(d1, x), x != i), Select(v1, x) < Select(v1, i)), lambda x: [Select(d1, x)])),
            ('order-of-the-others', q_int(lambda x: Implies(x != i, Select(v1, x) == Select(v0, x)), lambda x: [Select(v1, x)]))]


def listed(t0, t1, i, add):
    return ('added' if add else 'removed', And(unwrap(t1.m_current_pos.dom) == z3.Store(unwrap(t0.m_current_pos.dom), i, add), t1.m_current_pos.n == t0.m_current_pos.n + (1 if add else -1)))


def rest(t0, t1):
    return ('rest', And(unwrap(t1.m_files) == unwrap(t0.m_files), t1.m_limit == t0.m_limit))


def refs(t, st):
    f = unwrap(t.m_files.dom)
    return ('files-are-objects', q_int(lambda i: Implies(Select(f, i), And(0 < i, i < st.nref)), lambda i: [Select(f, i)]))


def h_rlimit(E, s, fr, e, args):
    E.assumed.add('getrlimit')
    return [(s, z3.IntVal(0))]


def ign(E, s, fr, e, o, args):
    return [(s, None)]


# ------------------------------------------------------------------ handlers
HK = FP + 'FileHandler::'
W = 'TypedFdWrapper<drv::Desc>$'
TYPED = z3.Function('TYPED', I, B)
FREE = z3.Bool('the_file_lock_is_free')


def wkey(E):
    return E.heapkey([t for t in E.tu.types if t['k'] == 'rec' and re.search(W, t['s']) and not t.get('const')][0])


def wheap(E, st):
    return E.heap(st, wkey(E))


def wfd(E, st, r):
    return core.rget(E.S, core.rget(E.S, Select(wheap(E, st), r), 'm_fd'), 'n')


def handler_ok(t, st):
    """every idle descriptor is open, for this file, in the handler's mode, and kept under its own id"""
    E = t.E
    a = t.m_available_fd
    d, v = unwrap(a.dom), unwrap(a.val)

    def one(x):
        w = Select(v, x)
        n = wfd(E, st, w)
        return Implies(Select(d, x), And(w > 0, w < st.nref, core.rget(E.S, Select(wheap(E, st), w), 'm_id') == x, n >= 0, PATHOF(E, n) == unwrap(t.m_path), WRITE(n) == Not(unwrap(t.m_is_readonly))))
    return [('idle-descriptors-fit', q_int(one, lambda x: [Select(d, x)])), ('one-writer', Implies(Not(unwrap(t.m_is_readonly)), a.n <= 1)), ('count', a.n >= 0)]


def inv_close_all(v):
    E = v.E
    a, a0 = v.this.m_available_fd, v.ctx.this.m_available_fd
    m = unwrap(a)
    d, val = unwrap(a.dom), unwrap(a.val)
    pos = z3.Function('keypos_' + re.sub(r'\W+', '_', str(m.sort())), m.sort(), I, I)
    H, H0 = wheap(E, v.st), wheap(E, v.entry.st)
    for ni, i in v.idxs():
        yield 'range ' + ni, And(0 <= i, i <= a.n)
        yield 'closed before ' + ni, q_int(lambda x: Implies(And(Select(d, x), pos(m, x) < i), wfd(E, v.st, Select(val, x)) == -1), lambda x: [Select(d, x)])
        yield 'untouched from ' + ni, q_int(lambda x: Implies(And(Select(d, x), pos(m, x) >= i), Select(H, Select(val, x)) == Select(H0, Select(val, x))), lambda x: [Select(d, x)])
        yield 'ids', q_int(lambda x: Implies(Select(d, x), core.rget(E.S, Select(H, Select(val, x)), 'm_id') == x), lambda x: [Select(d, x)])
    for it in [x for k, x in v.st.env.items() if isinstance(x, core.PyMapIter) and k[0] == v.fr.id]:
        yield 'in the map', Implies(it.valid, Select(d, it.key))
        yield 'of another type before', q_int(lambda x: Implies(And(Select(d, x), Or(Not(it.valid), x < it.key)), Not(TYPED(Select(val, x)))), lambda x: [Select(d, x)])
        for n, k in v.ints():
            yield 'found ' + n, Implies(k != 0, And(it.valid, k == Select(val, it.key), TYPED(k)))


def h_wclose(E, s, fr, e, this, args):
    o = E.load(s, this)
    d = core.rget(E.S, o, 'm_fd')
    E.oblige(s, 'precondition', core.rget(E.S, d, 'n') >= 0, e.get('l', ''), 'closed-once')
    E.store(s, this, core.rset(E.S, o, 'm_fd', core.rset(E.S, d, 'n', z3.IntVal(-1))))
    return [(s, None)]


def h_dyncast(E, s, v, e):
    r = E.term(s, v)
    return If(TYPED(r), r, IntVal(0))


def h_weak(E, s, fr, e, o, args):
    r = E.fresh('manager', I)
    s.assume(r > 0)
    return [(s, r)]


def lk_ctor(E, s, fr, e, o, args):
    return [(s, BoolVal(len(args) == 1))]


def lk_lock(E, s, fr, e, o, args):
    E.oblige(s, 'precondition', Not(E.load(s, o)), e.get('l', ''), 'not-locked-twice')
    E.store(s, o, BoolVal(True))
    return [(s, None)]


def lk_try(E, s, fr, e, o, args):
    E.oblige(s, 'precondition', Not(E.load(s, o)), e.get('l', ''), 'not-locked-twice')
    E.store(s, o, FREE)
    return [(s, FREE)]


def lk_unlock(E, s, fr, e, o, args):
    E.oblige(s, 'precondition', E.load(s, o), e.get('l', ''), 'unlocks-what-it-holds')
    E.store(s, o, BoolVal(False))
    return [(s, None)]


def h_manager_open(E, s, fr, e, o, args):
    """FileManager::open seen from a handler: a new file, or an exception; idle descriptors may be closed to make room"""
    for k, v in s.env.items():
        t = E.varinfo.get(k, (None, None))[1]
        if k[0] == fr.id and t is not None and t.get('name') == 'std::unique_lock':
            E.oblige(s, 'precondition', Not(v), e.get('l', ''), 'handler-not-locked-while-opening')
    cl = E.val(s, args[2])
    this = fr.this
    t = wrap(E, E.load(s, this))
    a = t.m_available_fd
    am = unwrap(a)
    d, v = unwrap(a.dom), unwrap(a.val)
    d2 = E.fresh('idle', d.sort())
    n2 = E.fresh('idle_n', I)
    H = wheap(E, s)
    H2 = E.fresh('wrappers', H.sort())
    x = z3.FreshConst(I, 'x')
    s.assume(ForAll([x], Implies(Select(d2, x), Select(d, x)), patterns=[Select(d2, x)]))
    s.assume(ForAll([x], Implies(And(Select(d, x), Not(Select(d2, x))), core.rget(E.S, core.rget(E.S, Select(H2, Select(v, x)), 'm_fd'), 'n') == -1), patterns=[Select(d, x)]))
    s.assume(ForAll([x], Implies(Select(d2, x), Select(H2, Select(v, x)) == Select(H, Select(v, x))), patterns=[Select(d2, x)]))
    s.assume(And(n2 >= 0, n2 <= a.n, Implies(a.n == 0, ForAll([x], Not(Select(d2, x)), patterns=[Select(d2, x)]))))
    s.assume(ForAll([x], Or(Select(H2, x) == Select(H, x), core.rget(E.S, core.rget(E.S, Select(H2, x), 'm_fd'), 'n') == -1), patterns=[Select(H2, x)]))
    s.heap[wkey(E)] = H2
    E.store(s, this, core.rset(E.S, E.load(s, this), 'm_available_fd', core.rset(E.S, core.rset(E.S, am, 'dom', d2), 'n', n2)))
    E.throws.append((s.copy(), 'Elements::Exception'))
    rt = E.tu.strip(E.ty(e['ret']))
    r = wrap(E, E.fresh('opened', E.S.of(rt)))
    s.assume(And(r.first > 0, Not(Select(d, r.first)), r.second.n >= 0, PATHOF(E, r.second.n) == E.term(s, args[0]), WRITE(r.second.n) == E.term(s, args[1])))
    s.assume(OPENED(r.second.n))
    s.ghost['opens'] = s.ghost.get('opens', 0) + 1
    E.assumed.add('FileManager::open as proved for the LRU manager; while it runs, idle descriptors of the handler may be closed to make room')
    return [(s, unwrap(r))]


OPENED = z3.Function('OPENED', I, B)   # descriptors opened during this call
RET = z3.Int('returned_desc')


def h_accessor(E, s, fr, e, this, args):
    """the callback given to an accessor puts the descriptor back under its own id"""
    cl = E.val(s, args[1])
    if isinstance(cl, core.Closure):
        probe = s.copy()
        fdv = E.term(s, args[0])
        tmp = E.tmp(probe, fdv, E.tu.strip(E.ty(e['pt'][0])))
        n = core.rget(E.S, fdv, 'n')
        idt = s.ghost.get('$noid')
        for p2, _ in E.call_closure(probe, cl, [tmp]):
            a0 = wrap(E, E.load(s, fr.this)).m_available_fd
            a1 = wrap(E, E.load(p2, fr.this)).m_available_fd
            x = z3.FreshConst(I, 'x')
            E.oblige(p2, 'postcondition', Exists([x], And(unwrap(a1.dom) == z3.Store(unwrap(a0.dom), x, True), wfd(E, p2, Select(unwrap(a1.val), x)) == n, core.rget(E.S, Select(wheap(E, p2), Select(unwrap(a1.val), x)), 'm_id') == x)), e.get('l', ''), 'released-descriptor-becomes-idle')
    return None


def acc(s, kind):
    t = [t for t in s.E.tu.types if t['k'] == 'rec' and t['s'].endswith('File%sAccessor<drv::Desc>' % kind) and not t.get('const')][0]
    return s.heap1(core.unconst(t['s']), s.result)


def post_get(s, kind):
    E = s.E
    w = kind == 'Write'
    o = acc(s, kind)
    a0, a1 = s.this.m_available_fd, s.this1.m_available_fd
    d0, v0, d1 = unwrap(a0.dom), unwrap(a0.val), unwrap(a1.dom)
    n = unwrap(o.m_fd.n)
    got = s.result != 0
    x = z3.FreshConst(I, 'x')
    samemode = unwrap(s.this.m_is_readonly) == (not w)
    return [('refused-only-when-the-lock-is-taken', (s.result == 0) == And(unwrap(s[0]), Not(FREE))),
            ('refusing-changes-nothing', Implies(s.result == 0, And(unwrap(s.this1) == unwrap(s.this), wheap(E, s.pre) == wheap(E, s.post)))),
            ('holds-the-lock', Implies(got, unwrap(o.m_unique_lock if w else o.m_shared_lock))),
            ('descriptor-of-this-file', Implies(got, And(n >= 0, PATHOF(E, n) == unwrap(s.this.m_path)))),
            ('descriptor-in-this-mode', Implies(got, WRITE(n) == BoolVal(w))),
            ('mode', Implies(got, unwrap(s.this1.m_is_readonly) == BoolVal(not w))),
            ('idle-descriptors-closed-or-handed-out', Implies(got, q_int(lambda x: Implies(And(Select(d0, x), Not(Select(d1, x))), Or(wfd(E, s.post, Select(v0, x)) == -1, And(samemode, n == wfd(E, s.pre, Select(v0, x))))), lambda x: [Select(d0, x)]))),
            ('reuses-an-idle-descriptor', Implies(And(got, samemode, Exists([x], And(Select(d0, x), TYPED(Select(v0, x))))), Exists([x], And(Select(d0, x), Not(Select(d1, x)), n == wfd(E, s.pre, Select(v0, x)))))),
            ] + ([('nothing-left-idle', Implies(got, a1.n == 0))] if w else [('others-stay-idle', Implies(And(got, samemode), q_int(lambda x: Implies(Select(d1, x), Select(d0, x)), lambda x: [Select(d1, x)])))])


PH = ['C09']
HANDLER = [
    Contract(HK + 'FdWrapper::close', trusted='closing a wrapper closes its descriptor through the manager', handler=h_wclose),
    Contract(HK + 'isReadOnly', props=PH, ensures=lambda s: [('mode', unwrap(s.result) == unwrap(s.this.m_is_readonly))]),
    Contract(HK + 'close', props=PH, requires=lambda s: handler_ok(s.this, s.pre),
             ensures=lambda s: [('refuses-what-is-not-idle', unwrap(s.result) == Select(unwrap(s.this.m_available_fd.dom), s[0])),
                                ('closed', Implies(unwrap(s.result), wfd(s.E, s.post, Select(unwrap(s.this.m_available_fd.val), s[0])) == -1)),
                                ('no-longer-idle', unwrap(s.this1.m_available_fd.dom) == z3.Store(unwrap(s.this.m_available_fd.dom), s[0], False))] + handler_ok(s.this1, s.post)),
    Contract(HK + '{dtor}', props=PH, inv=inv_close_all, requires=lambda s: handler_ok(s.this, s.pre),
             ensures=lambda s: [('every-idle-descriptor-closed', q_int(lambda x: Implies(Select(unwrap(s.this.m_available_fd.dom), x), wfd(s.E, s.post, Select(unwrap(s.this.m_available_fd.val), x)) == -1), lambda x: [Select(unwrap(s.this.m_available_fd.dom), x)]))]),
    Contract(FP + 'FileReadAccessor::{ctor}', props=PH, handler=h_accessor, modifies={'this': ['m_fd', 'm_shared_lock']}, ensures=lambda s: [('descriptor', unwrap(s.this1.m_fd) == unwrap(s[0])), ('lock', unwrap(s.this1.m_shared_lock) == unwrap(s[2]))]),
    Contract(FP + 'FileWriteAccessor::{ctor}', props=PH, handler=h_accessor, modifies={'this': ['m_fd', 'm_unique_lock']}, ensures=lambda s: [('descriptor', unwrap(s.this1.m_fd) == unwrap(s[0])), ('lock', unwrap(s.this1.m_unique_lock) == unwrap(s[2]))]),
    Contract(FP + 'FileReadAccessor::isReadOnly', props=PH, ensures=lambda s: [('reads', unwrap(s.result))]),
    Contract(FP + 'FileWriteAccessor::isReadOnly', props=PH, ensures=lambda s: [('writes', Not(unwrap(s.result)))]),
    Contract(HK + 'getWriteAccessor', props=PH, inv=inv_close_all, may_throw=True, requires=lambda s: handler_ok(s.this, s.pre), ensures=lambda s: post_get(s, 'Write') + handler_ok(s.this1, s.post), on_throw=lambda s: handler_ok(s.this1, s.post)),
    Contract(HK + 'getReadAccessor', props=PH, inv=inv_close_all, may_throw=True, requires=lambda s: handler_ok(s.this, s.pre), ensures=lambda s: post_get(s, 'Read') + handler_ok(s.this1, s.post), on_throw=lambda s: handler_ok(s.this1, s.post)),
    Contract(HK + 'getAccessor', props=PH, may_throw=True, requires=lambda s: handler_ok(s.this, s.pre), ensures=lambda s: [('gives-up-only-when-asked-to-try', Implies(s.result == 0, unwrap(s[0]) / 2 % 2 == 1)), ('writes-when-asked', Implies(s.result != 0, unwrap(s.this1.m_is_readonly) == (unwrap(s[0]) % 2 == 0)))] + handler_ok(s.this1, s.post), on_throw=lambda s: handler_ok(s.this1, s.post)),
]
LOCKS = {}
for c_ in ('boost::unique_lock', 'boost::shared_lock', 'std::unique_lock'):
    LOCKS.update({(c_, 'lock'): lk_lock, (c_, 'unlock'): lk_unlock, (c_, 'try_lock'): lk_try})
CONFIG = {
    'sorts': {'boost::unique_lock': B, 'boost::shared_lock': B, 'std::unique_lock': B}, 'heap_alias': {'FdWrapper$': W}, 'dyncast': h_dyncast,
    'on_new': {'FdWrapper': lambda E, s, r, o: [TYPED(r)]},
    'models': dict([(c_ + '::{ctor}', lk_ctor) for c_ in ('boost::unique_lock', 'boost::shared_lock', 'std::unique_lock')] + [(M + 'open', h_manager_open), (M + 'notifyUsed', lambda E, s, fr, e, o, args: [(s, None)])] + [(M + n, derived(n)) for n in ('notifyIntentToOpen', 'notifyOpenedFile', 'notifyClosedFile')]), 'free_hooks': {'getrlimit': h_rlimit},
    'list_home': home, 'map_index_check': True,
    'method_hooks': {('std::function', 'operator()'): h_request, ('std::function', 'operator='): h_assign, ('std::weak_ptr', 'lock'): h_weak, **LOCKS},
    'ignore': ['std::chrono::'], 'opaque_types': ['std::lock_guard', 'std::mutex'],
}
PR = ['C08']
CONTRACTS = [
    Contract(L + 'notifyIntentToOpen', props=PR, inv=inv_intent, requires=lambda s: [('within-the-limit', And(s.this.m_files.n <= s.this.m_limit, s.this.m_limit >= 1))] + order_ok(s.this) + files_ok(s.this, s.heap0),
             throws=lambda s: [('Elements::Exception', And(s.this.m_files.n >= s.this.m_limit, q_int(lambda i: Implies(Select(unwrap(s.this.m_files.dom), i), BUSY(i)), lambda i: [Select(unwrap(s.this.m_files.dom), i)])))],
             ensures=lambda s: [('room', s.this1.m_files.n < s.this.m_limit), ('closes-no-more-than-needed', Or(s.this1.m_files.n == s.this.m_files.n, s.this1.m_files.n == s.this.m_limit - 1)),
                                ('same-positions', same_positions(s.this, s.this1))] + oldest(s.this, s.this1) + order_ok(s.this1) + files_ok(s.this1, s.heap1)),
    Contract(L + 'notifyOpenedFile', props=PR, requires=lambda s: [('not-yet-listed', Not(Select(unwrap(s.this.m_current_pos.dom), s[0])))] + order_ok(s.this),
             ensures=lambda s: [listed(s.this, s.this1, s[0], True), rest(s.this, s.this1)] + newest(s.this, s.this1, s[0]) + order_ok(s.this1)),
    Contract(L + 'notifyClosedFile', props=PR, requires=lambda s: [('listed', Select(unwrap(s.this.m_current_pos.dom), s[0])), ('some', s.this.m_current_pos.n > 0)] + order_ok(s.this),
             ensures=lambda s: [listed(s.this, s.this1, s[0], False), rest(s.this, s.this1), ('order-of-the-others', unwrap(s.this1.m_current_pos.val) == unwrap(s.this.m_current_pos.val))] + order_ok(s.this1)),
    Contract(L + 'notifyUsed', props=PR, requires=lambda s: [('a-file', s[0] != 0), ('listed', Select(unwrap(s.this.m_current_pos.dom), s[0]))] + order_ok(s.this),
             ensures=lambda s: [('same-files', And(unwrap(s.this1.m_current_pos.dom) == unwrap(s.this.m_current_pos.dom), s.this1.m_current_pos.n == s.this.m_current_pos.n)), rest(s.this, s.this1)] + newest(s.this, s.this1, s[0]) + order_ok(s.this1)),
    Contract(L + '{ctor}', props=PR, requires=lambda s: [('a-limit-is-given', s[0] > 0)], ensures=lambda s: [('limit', s.this1.m_limit == s[0]), ('empty', And(s.this1.m_files.n == 0, s.this1.m_current_pos.n == 0))] + order_ok(s.this1)),
    Contract(L + 'getLimit', props=PR, ensures=lambda s: [('limit', s.result == s.this.m_limit)]),
    Contract(L + 'getUsed', props=PR, requires=lambda s: order_ok(s.this) + [('machine', s.this.m_current_pos.n < 2 ** 32)], ensures=lambda s: [('open-files', s.result == s.this.m_current_pos.n)]),
    Contract(L + 'getAvailable', props=PR, requires=lambda s: order_ok(s.this) + [('within', s.this.m_current_pos.n <= s.this.m_limit)], ensures=lambda s: [('room-left', s.result == s.this.m_limit - s.this.m_current_pos.n)]),
    Contract(FP + 'OpenCloseTrait::open', trusted='the descriptor type opens the file or throws', handler=h_trait_open),
    Contract(FP + 'OpenCloseTrait::close', trusted='the descriptor type closes the descriptor', handler=h_trait_close),
    Contract(M + 'open', props=PR, this_type='LRUFileManager$', may_throw=True,
             requires=lambda s: [('within-the-limit', And(s.this.m_files.n <= s.this.m_limit, s.this.m_limit >= 1)), refs(s.this, s.pre)] + order_ok(s.this) + files_ok(s.this, s.heap0),
             ensures=lambda s: [('never-more-than-the-limit', s.this1.m_files.n <= s.this.m_limit), ('a-new-file', Not(Select(unwrap(s.this.m_files.dom), s.result.first))), ('is-open', Select(unwrap(s.this1.m_files.dom), s.result.first)),
                                ('descriptor-of-that-file', And(PATHOF(s.E, s.result.second.n) == unwrap(s[0]), WRITE(s.result.second.n) == unwrap(s[1]), s.result.second.n >= 0)), refs(s.this1, s.post)] + newest(s.this, s.this1, s.result.first) + order_ok(s.this1) + files_ok(s.this1, s.heap1),
             on_throw=lambda s: [refs(s.this1, s.post), ('never-more-than-the-limit', s.this1.m_files.n <= s.this.m_limit)] + oldest(s.this, s.this1) + order_ok(s.this1) + files_ok(s.this1, s.heap1)),
    Contract(M + 'close', props=PR, this_type='LRUFileManager$',
             requires=lambda s: [('open-file', Select(unwrap(s.this.m_files.dom), s[0])), ('some', s.this.m_files.n > 0), ('open-descriptor', s[1].n >= 0)] + order_ok(s.this) + files_ok(s.this, s.heap0),
             ensures=lambda s: [('no-longer-open', And(unwrap(s.this1.m_files.dom) == z3.Store(unwrap(s.this.m_files.dom), s[0], False), s.this1.m_files.n == s.this.m_files.n - 1)), ('descriptor-closed-once', s.out(1).n == -1),
                                ('order-of-the-others', unwrap(s.this1.m_current_pos.val) == unwrap(s.this.m_current_pos.val))] + order_ok(s.this1) + files_ok(s.this1, s.heap1)),
] + HANDLER
