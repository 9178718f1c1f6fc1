"""cppvc core: sorts, values, lvalues, symbolic states, obligations, solver access.

The verifier works on the JSON that tool/extract.cpp prints for the *current* /repo
sources.  It executes every function under contract symbolically, once per path, with
loops cut at invariants and callees replaced by their contracts (or, when they have none,
by their own extracted body).  Every obligation is an SMT query.
"""
import itertools, re, time, json, os, subprocess, tempfile
import z3

I, B, R, STR = z3.IntSort(), z3.BoolSort(), z3.RealSort(), z3.StringSort()


class Unsupported(Exception):
    """the construct is outside the verifier's reach (never a violation)"""


class MissingAnchor(Exception):
    """a contract names a function, field or parameter that the code no longer has"""


# --------------------------------------------------------------------------- TU
class TU:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.records = d['records']
        self.functions = d['functions']
        for i, t in enumerate(self.types):
            t['id'] = i

    def ty(self, i):
        return self.types[i] if i is not None and i >= 0 else None

    def strip(self, t):
        """strip references"""
        while t['k'] == 'ref':
            t = self.types[t['to']]
        return t

    def targ(self, t, n):
        a = t['targs'][n]
        if 't' in a:
            return self.types[a['t']]
        return a

    def find(self, q, pred=None):
        r = [f for f in self.functions.values() if f['q'] == q and (pred is None or pred(f))]
        return r


def unconst(s):
    return s[6:] if s.startswith('const ') else s


# ------------------------------------------------------------------------ sorts
VECLIKE = {'std::vector', 'std::array', 'std::initializer_list', 'std::deque'}
PTRLIKE = {'std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::__shared_ptr'}
MAPLIKE = {'std::map', 'std::unordered_map'}
SETLIKE = {'std::set', 'std::unordered_set'}


class Sorts:
    _uid = itertools.count()

    def __init__(self, tu):
        self.tu = tu
        self.cache = {}
        self.vec = {}
        self.dt = {}
        self.fields = {}

    keyproj = {}
    refmembers = ()
    extra = {}

    def keysort(self, t):
        kt = self.tu.targ(t, 0)
        p = self.keyproj.get(kt.get('name'))
        return p[0] if p else self.of(kt)

    def vec_of(self, elem):
        key = elem.sexpr() if hasattr(elem, 'sexpr') else str(elem)
        if key not in self.vec:
            n = 'Vec_%s' % re.sub(r'\W+', '_', str(elem))
            d = z3.Datatype(n)
            d.declare('mk' + n, ('len_' + n, I), ('arr_' + n, z3.ArraySort(I, elem)))
            self.vec[key] = d.create()
        return self.vec[key]

    def is_vec(self, sort):
        return isinstance(sort, z3.DatatypeSortRef) and sort.name().startswith('Vec_')

    def record(self, name, fields):
        """fields: [(fname, sort)]"""
        n = re.sub(r'\W+', '_', name)
        d = z3.Datatype('R_' + n)
        if fields:
            d.declare('mk_' + n, *[('%s.%s' % (n, f), s) for f, s in fields])
        else:
            d.declare('mk_' + n, ('%s._e' % n, I))
        s = d.create()
        self.fields[s.name()] = [f for f, _ in fields]
        return s

    def user_fields(self, full):
        """flattened [(fieldname, type)] of a user record, bases first"""
        r = self.tu.records.get(full)
        if r is None or not r.get('user'):
            return None
        out = []
        for b in r['bases']:
            bt = self.tu.types[b]
            bf = self.user_fields(bt.get('full', ''))
            if bf:
                out += bf
        for f in r['fields']:
            out.append((f['name'], self.tu.types[f['t']]))
        return out

    def of(self, t):
        key = unconst(t['s'])
        if key in self.cache:
            return self.cache[key]
        s = self._of(t, key)
        self.cache[key] = s
        return s

    def _of(self, t, key):
        k = t['k']
        if k in ('int', 'enum'):
            return I
        if k == 'bool':
            return B
        if k == 'float':
            return R
        if k in ('ptr', 'nullptr'):
            return I
        if k == 'ref':
            return self.of(self.tu.types[t['to']])
        if k == 'array':
            return self.vec_of(self.of(self.tu.types[t['el']]))
        if k == 'rec':
            n = t['name']
            if n in self.extra:
                return self.extra[n]
            if n in VECLIKE:
                return self.vec_of(self.of(self.tu.targ(t, 0)))
            if n == 'std::basic_string':
                return STR
            if n in PTRLIKE:
                return I
            if n == 'std::pair':
                return self.record(key, [('first', self.of(self.tu.targ(t, 0))), ('second', self.of(self.tu.targ(t, 1)))])
            if n == 'std::tuple':
                return self.record(key, [('e%d' % i, self.of(self.tu.targ(t, i))) for i in range(len(t['targs']))])
            if n in MAPLIKE:
                ks, vs = self.keysort(t), self.of(self.tu.targ(t, 1))
                return self.record('Map_' + key, [('dom', z3.ArraySort(ks, B)), ('val', z3.ArraySort(ks, vs)), ('n', I)])
            if n in SETLIKE:
                ks = self.keysort(t)
                return self.record('Set_' + key, [('dom', z3.ArraySort(ks, B)), ('n', I)])
            if n == 'std::list':   # nodes are numbered in list order; -1 is end()
                es = self.of(self.tu.targ(t, 0))
                return self.record('Map_' + key, [('dom', z3.ArraySort(I, B)), ('val', z3.ArraySort(I, es)), ('n', I), ('next', I)])
            if n in ('std::_List_iterator', 'std::_List_const_iterator'):
                return I
            uf = self.user_fields(t['full'])
            if uf is not None:
                return self.record(key, [(f, I if '%s::%s' % (n, f) in self.refmembers else self.of(ft)) for f, ft in uf])
        return z3.DeclareSort('O_' + re.sub(r'\W+', '_', key))


# ------------------------------------------------------------- vector/record ops
def vlen(v):
    s = v.sort()
    return z3.simplify(s.accessor(0, 0)(v)) if z3.is_app(v) and v.decl() == s.constructor(0) else s.accessor(0, 0)(v)


def varr(v):
    s = v.sort()
    if z3.is_app(v) and v.decl().eq(s.constructor(0)):
        return v.arg(1)
    return s.accessor(0, 1)(v)


def mkvec(sort, n, arr):
    return sort.constructor(0)(n, arr)


def vget(v, i):
    return z3.Select(varr(v), i)


def vset(v, i, x):
    return mkvec(v.sort(), vlen_(v), z3.Store(varr(v), i, x))


def vlen_(v):
    s = v.sort()
    if z3.is_app(v) and v.decl().eq(s.constructor(0)):
        return v.arg(0)
    return s.accessor(0, 0)(v)


vlen = vlen_


def ifind(sort, fields, f):
    if f not in fields:
        raise MissingAnchor('field %s of %s' % (f, sort))
    return fields.index(f)


def rget(S, v, f):
    s = v.sort()
    fs = S.fields[s.name()]
    i = ifind(s, fs, f)
    if z3.is_app(v) and v.decl().eq(s.constructor(0)):
        return v.arg(i)
    return s.accessor(0, i)(v)


def rset(S, v, f, x):
    s = v.sort()
    fs = S.fields[s.name()]
    i = ifind(s, fs, f)
    return s.constructor(0)(*[x if j == i else rget(S, v, g) for j, g in enumerate(fs)])


def icast(x):
    return z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else x


# ---------------------------------------------------------------- python values
class LVal:
    """root: ('v', key) | ('h', heapkey, ref);  path: tuple of ('f',name)|('i',term)|('k',term)"""
    __slots__ = ('root', 'path', 'ty')

    def __init__(self, root, path, ty):
        self.root, self.path, self.ty = root, tuple(path), ty

    def f(self, name, ty):
        return LVal(self.root, self.path + (('f', name),), ty)

    def i(self, idx, ty):
        return LVal(self.root, self.path + (('i', idx),), ty)

    def k(self, key, ty):
        return LVal(self.root, self.path + (('k', key),), ty)

    def __repr__(self):
        return 'LVal(%r,%r)' % (self.root, self.path)


class PyIter:
    """iterator/pointer into a vector-like object: cont is an LVal (or a term), idx an Int term"""
    __slots__ = ('cont', 'idx', 'elty', 'rev')

    def __init__(self, cont, idx, elty, rev=False):
        self.cont, self.idx, self.elty, self.rev = cont, idx, elty, rev


class PyMapIter:
    """iterator into a map/set: valid (Bool term) tells it is not end(); key its key.
    pos: position in the key order (only for loops)"""
    __slots__ = ('cont', 'key', 'valid', 'pos', 'first')

    def __init__(self, cont, key, valid, pos=None):
        self.cont, self.key, self.valid, self.pos = cont, key, valid, pos


class PyPtr:
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


class Closure:
    def __init__(self, node, env, this, frame):
        self.node, self.env, self.this, self.frame = node, env, this, frame


class FuncVal:
    def __init__(self, node):
        self.node = node


class Opaque:
    """a value nothing is known about and nothing is stored of (streams, log messages...)"""
    def __init__(self, what=''):
        self.what = what


class RefBind:
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


class St:
    __slots__ = ('env', 'heap', 'pc', 'nref', 'ghost', 'trace')

    def __init__(self):
        self.env, self.heap, self.pc, self.nref = {}, {}, [], None
        self.ghost = {}
        self.trace = []

    def copy(self):
        s = St()
        s.env, s.heap, s.pc, s.nref = dict(self.env), dict(self.heap), list(self.pc), self.nref
        s.ghost = dict(self.ghost)
        s.trace = list(self.trace)
        return s

    def assume(self, c):
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if not z3.is_true(c):
            self.pc.append(c)


class Obligation:
    __slots__ = ('name', 'kind', 'loc', 'pc', 'goal', 'status', 'backend', 'time', 'model', 'detail', 'func')

    def __init__(self, name, kind, loc, pc, goal):
        self.name, self.kind, self.loc, self.pc, self.goal = name, kind, loc, list(pc), goal
        self.status = self.backend = self.model = self.detail = self.func = None
        self.time = 0.0


# ------------------------------------------------------------- spec functions
class SpecFn:
    """recursive spec function with controlled (ground) unfolding of its definition"""
    registry = {}

    def __init__(self, name, sorts, ret, defn):
        self.name = name
        self.decl = z3.Function(name, *sorts, ret)
        self.defn = defn
        SpecFn.registry[self.decl.name()] = self

    def __call__(self, *args):
        return self.decl(*[icast(a) for a in args])


_specfns = {}


def specfn(name, sorts, ret, defn):
    key = (name, tuple(str(s) for s in sorts))
    if key not in _specfns:
        _specfns[key] = SpecFn(name if len([k for k in _specfns if k[0] == name]) == 0 else
                               '%s_%d' % (name, len(_specfns)), sorts, ret, defn)
    return _specfns[key]


def collect_apps(exprs, seen, out):
    stack = list(exprs)
    while stack:
        e = stack.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen[k] = e
        if z3.is_quantifier(e):
            collect_quant(e.body(), out, seen)
            continue
        if z3.is_app(e):
            if e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in SpecFn.registry:
                out.append(e)
            stack.extend(e.children())


def has_bound(e, memo={}):
    stack = [e]
    while stack:
        x = stack.pop()
        if z3.is_var(x):
            return True
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


def collect_quant(body, out, seen):
    stack = [body]
    loc = set()
    while stack:
        x = stack.pop()
        if x.get_id() in loc:
            continue
        loc.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in SpecFn.registry \
                    and not has_bound(x):
                out.append(x)
            stack.extend(x.children())


def unfold(exprs, fuel=2):
    """definition instances for every ground spec-function application, `fuel` levels deep"""
    defs, seen, done = [], {}, set()
    frontier = list(exprs)
    for _ in range(fuel):
        apps = []
        collect_apps(frontier, seen, apps)
        frontier = []
        for a in apps:
            if a.get_id() in done:
                continue
            done.add(a.get_id())
            sf = SpecFn.registry[a.decl().name()]
            d = sf.defn(*a.children())
            for eq in (d if isinstance(d, list) else [a == d]):
                defs.append(eq)
                frontier.append(eq)
        if not frontier:
            break
    return defs


# --------------------------------------------------------------------- solving
STATS = {'queries': 0, 'z3': 0.0, 'cvc5': 0.0}


LAST_REASON = ['']


def _z3_check(fs, timeout_ms, seed=0, want_model=False, mbqi=False):
    """mbqi=False: E-matching only, as usual for deductive verifiers: satisfiable queries end in a quick
    'unknown (incomplete quantifiers)' instead of a timeout"""
    s = z3.SimpleSolver() if False else z3.Solver()
    s.set('timeout', int(timeout_ms))
    if not mbqi:
        s.set('auto_config', False)
        s.set('mbqi', False)
    if seed:
        s.set('random_seed', seed)
    if CONF.get('no_nra'):
        s.set('arith.nl.nra', False)
        s.set('arith.solver', 2)
    s.add(*fs)
    t = time.time()
    r = s.check()
    STATS['z3'] += time.time() - t
    STATS['queries'] += 1
    LAST_REASON[0] = s.reason_unknown() if r == z3.unknown else ''
    m = None
    if want_model and r != z3.unsat:
        try:
            m = s.model()
        except z3.Z3Exception:
            m = None
    return r, m


def _cvc5_check(fs, timeout_ms):
    s = z3.Solver()
    s.add(*fs)
    txt = '(set-logic ALL)\n' + re.sub(r'\(set-info[^)]*\)', '', s.to_smt2())
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    t = time.time()
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout_ms), '--nl-ext-tplanes', '--enum-inst', f.name],
                           capture_output=True, text=True, timeout=timeout_ms / 1000.0 + 10)
        out = p.stdout.strip().splitlines()
        r = out[0] if out else 'unknown'
    except subprocess.TimeoutExpired:
        r = 'unknown'
    finally:
        os.unlink(f.name)
    STATS['cvc5'] += time.time() - t
    return r


def neg_goal(g):
    """negation of a goal, skolemised, with reads over writes expanded"""
    return expand_ros(_neg(g)) if not _has_quant(g) else _neg(g, True)


def expand_ros(e):
    """select(store(a,i,v), j) -> ite(i=j, v, select(a,j)), on quantifier-free terms"""
    e = z3.simplify(e, expand_select_store=True)
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k][1]
        r = x
        if z3.is_quantifier(x):
            r = x
        elif x.num_args():
            ch = x.children()
            nc = [go(c) for c in ch]
            if any(not a.eq(b) for a, b in zip(ch, nc)):
                r = x.decl()(*nc) if x.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT) else _nary(x, nc)
            if z3.is_select(r) and r.num_args() == 2:
                r = _sel(r.arg(0), r.arg(1))
        memo[k] = (x, r)
        return r
    try:
        return go(e)
    except z3.Z3Exception:
        return e


def _nary(x, nc):
    k = x.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*nc)
    if k == z3.Z3_OP_OR:
        return z3.Or(*nc)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(nc)
    if k == z3.Z3_OP_MUL:
        r = nc[0]
        for c in nc[1:]:
            r = r * c
        return r
    return z3.Distinct(*nc)


def _sel(a, j):
    if z3.is_store(a) and a.num_args() == 3:
        i, v = a.arg(1), a.arg(2)
        c = z3.simplify(i == j)
        if z3.is_true(c):
            return v
        if z3.is_false(c):
            return _sel(a.arg(0), j)
        return z3.If(c, v, _sel(a.arg(0), j))
    return z3.Select(a, j)


def _has_quant(g):
    stack, seen = [g], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


def _leaf(x):
    if _has_quant(x):
        return x
    return expand_ros(x)


def _neg(g, leaf=False):
    f = _leaf if leaf else (lambda x: x)
    if z3.is_quantifier(g) and g.is_forall():
        vs = [z3.FreshConst(g.var_sort(i), 'sk') for i in range(g.num_vars())]
        return _neg(z3.substitute_vars(g.body(), *reversed(vs)), True)
    if z3.is_and(g):
        return z3.Or(*[_neg(c, leaf) for c in g.children()])
    if z3.is_implies(g):
        return z3.And(f(g.arg(0)), _neg(g.arg(1), leaf))
    if z3.is_not(g):
        return f(g.arg(0))
    if z3.is_or(g):
        return z3.And(*[_neg(c, leaf) for c in g.children()])
    return z3.Not(f(g))


CONF = {'z3_ms': 4000, 'cvc5_ms': 15000, 'z3_long_ms': 20000, 'prune_ms': 400, 'fuel': 2}


def feasible(pc, extra=()):
    fs = list(pc) + list(extra)
    for f in extra:
        if z3.is_false(f):
            return False
    fs += unfold(fs, min(1, CONF['fuel']))
    r, _ = _z3_check(fs, CONF['prune_ms'])
    return r != z3.unsat


def quick_valid(pc, goal, ms=None):
    if z3.is_true(goal):
        return True
    fs = list(pc) + [neg_goal(goal)]
    fs += unfold(fs, min(1, CONF['fuel']))
    r, _ = _z3_check(fs, ms or CONF['prune_ms'])
    return r == z3.unsat


def ground_unsat(pc, neg, fuel, ms=2000):
    """quantifiers of the hypotheses replaced by their instances at the indices the negated goal (then those
    instances) mention: weaker hypotheses, so unsat here is unsat there"""
    qs, gr = [], []

    def split(f):
        if z3.is_and(f):
            for c in f.children():
                split(c)
        elif z3.is_quantifier(f) and f.is_forall():
            qs.append(f)
        elif not _has_quant(f):
            gr.append(f)
    for f in pc:
        split(f)
    if not qs or _has_quant(neg):
        return False
    done, facts, terms = set(), [], {}
    cur = [neg]
    for _ in range(2):
        seen = set()
        stack = list(cur)
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_select(x) and x.num_args() == 2 and not z3.is_var(x.arg(1)):
                terms.setdefault(x.arg(1).sexpr(), x.arg(1))
            stack.extend(x.children())
        if len(terms) > 12:
            break
        cur = []
        for i, q in enumerate(qs):
            n = q.num_vars()
            ts = [[t for t in terms.values() if t.sort() == q.var_sort(j)] for j in range(n)]
            tot = 1
            for t in ts:
                tot *= len(t)
            if not tot or tot > 40:
                continue
            for combo in itertools.product(*ts):
                key = (i,) + tuple(c.get_id() for c in combo)
                if key in done:
                    continue
                done.add(key)
                b = z3.substitute_vars(q.body(), *reversed(combo))
                if not _has_quant(b):
                    cur.append(expand_ros(b))
        facts += cur
        if len(facts) > 400:
            break
    if not facts:
        return False
    fs = gr + facts + [neg]
    r, _ = _z3_check(fs, ms)
    if r == z3.unsat:
        return True
    if r == z3.unknown:
        fs += unfold(fs, fuel)
        r, _ = _z3_check(fs, ms)
    return r == z3.unsat


def valid(pc, goal, fuel=None, ms=None):
    """full-strength validity; returns (status, backend, model) with status proved/refuted/unknown"""
    fuel = fuel or CONF['fuel']
    goal = z3.BoolVal(goal) if isinstance(goal, bool) else goal
    if z3.is_true(z3.simplify(goal)):
        return 'proved', 'simplify', None
    fs = list(pc) + [neg_goal(goal)]
    fs += unfold(fs, fuel)
    r, m = _z3_check(fs, ms or CONF['z3_ms'], want_model=True)
    ver = 'z3 ' + z3.get_version_string()
    if r == z3.unsat:
        return 'proved', ver, None
    if r == z3.sat:
        return 'refuted', ver, m
    saturated = 'incomplete' in LAST_REASON[0]
    cand = m
    if ground_unsat(pc, neg_goal(goal), fuel):
        return 'proved', ver + ' ground instances', None
    r, m = _z3_check(fs, ms or CONF['z3_ms'], want_model=True, mbqi=True)
    if r == z3.unsat:
        return 'proved', ver + ' mbqi', None
    if r == z3.sat:
        return 'refuted', ver + ' mbqi', m
    c = _cvc5_check(fs, CONF['cvc5_ms'])
    if c == 'unsat':
        return 'proved', 'cvc5', None
    for seed in (7, 23):
        r, m = _z3_check(fs, CONF['z3_long_ms'], seed=seed, want_model=True, mbqi=seed == 23)
        if r == z3.unsat:
            return 'proved', ver, None
        if r == z3.sat:
            return 'refuted', ver, m
        saturated = saturated or 'incomplete' in LAST_REASON[0]
    if c == 'sat':
        return 'refuted', 'cvc5', None
    if saturated:
        return 'not-proved', ver + ' (instantiation saturated without a proof)', cand
    return 'unknown', None, None
