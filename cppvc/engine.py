"""cppvc engine: path-wise symbolic execution of extracted C++ with contracts."""
import itertools, re, time
import z3
from .core import *
from . import core

M64 = 2 ** 64


class Frame:
    _n = itertools.count(1)

    def __init__(self, fn, this, parent=None):
        self.id = next(Frame._n)
        self.fn, self.this, self.parent = fn, this, parent
        self.depth = 0 if parent is None else parent.depth + 1
        self.retty = None
        self.tu = None


class SV:
    """spec-level view of a term: attribute access for fields, indexing for vectors"""

    def __init__(self, E, t):
        object.__setattr__(self, 'E', E)
        object.__setattr__(self, 't', t)

    def __getattr__(self, n):
        t, S = self.t, self.E.S
        if S.is_vec(t.sort()):
            if n == 'len':
                return vlen(t)
            if n == 'arr':
                return varr(t)
        if t.sort().name() in S.fields:
            return wrap(self.E, rget(S, t, n))
        raise MissingAnchor('member %s of %s' % (n, t.sort()))

    def __getitem__(self, i):
        return wrap(self.E, vget(self.t, icast(i)))

    def __eq__(self, o):
        return self.t == (o.t if isinstance(o, SV) else o)

    def __ne__(self, o):
        return self.t != (o.t if isinstance(o, SV) else o)

    def __hash__(self):
        return hash(self.t)


def wrap(E, t):
    if E.S.is_vec(t.sort()) or t.sort().name() in E.S.fields:
        return SV(E, t)
    return t


def unwrap(x):
    return x.t if isinstance(x, SV) else x


def veq(a, b):
    """C++ equality of two vectors"""
    a, b = unwrap(a), unwrap(b)
    i = z3.FreshConst(I, 'q')
    f = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < vlen(a)), vget(a, i) == vget(b, i)), patterns=[vget(a, i), vget(b, i)])
    note_rel(varr(a), varr(b), z3.IntVal(0), vlen(a), 0, f)
    return z3.And(vlen(a) == vlen(b), f)


RELS = {}


def note_rel(a, b, lo, hi, d, f):
    """f says a[i] == b[i+d] for lo<=i<hi; folds over a and b may be related under f"""
    if a.eq(b):
        return
    for x, y, l, h, dd in ((a, b, lo, hi, d), (b, a, lo + d, hi + d, -d)):
        L = RELS.setdefault(x.get_id(), [])
        if len(L) < 12:
            L.append((x, y, l, h, dd, f))


def forall_in(lo, hi, f, name='q'):
    i = z3.FreshConst(I, name)
    return z3.ForAll([i], z3.Implies(z3.And(icast(lo) <= i, i < icast(hi)), f(i)))


def exists_in(lo, hi, f, name='q'):
    i = z3.FreshConst(I, name)
    return z3.Exists([i], z3.And(icast(lo) <= i, i < icast(hi), f(i)))


class Contract:
    def __init__(self, q, sig=None, requires=None, ensures=None, throws=None, inv=None, ref=None, modifies=None,
                 heap_mod=(), hints=None, trusted=False, handler=None, const=None, tparam=None, ghost_ret=None, noinline=False,
                 assume_pre=None, unroll=True, name=None, pure=False, fuel=None, prove=True, cls=None, may_throw=False,
                 setup=None, props=None, conf=None, inline=False, hints_on_throw=False, note=None, lemmas=None, this_type=None, on_throw=None):
        self.__dict__.update(locals())
        del self.__dict__['self']
        self.used = False

    def matches(self, tu, f):
        if f['q'] != self.q:
            return False
        if self.sig is not None:
            ps = [tu.types[i]['s'] for i in f['pt']]
            if callable(self.sig):
                if not self.sig(ps, f):
                    return False
            elif len(ps) != len(self.sig) or any(not re.search(p, s) for p, s in zip(self.sig, ps)):
                return False
        if self.const is not None and bool(f.get('cm')) != self.const:
            return False
        if self.cls is not None:
            if 'cls' not in f or not re.search(self.cls, tu.types[f['cls']]['s']):
                return False
        return True

    @property
    def label(self):
        return self.name or self.q


class Ctx:
    """what a contract clause sees"""

    def __init__(self, E, fn, pre, post, frame, result=None, this_lv=None, args=None, result_lv=None):
        self.E, self.fn, self.pre, self.post, self.fr = E, fn, pre, post, frame
        self._res, self.this_lv, self.args, self.result_lv = result, this_lv, args, result_lv

    def _arg(self, name, st):
        if isinstance(name, int):
            if name >= len(self.fn['params']):
                raise MissingAnchor('parameter %d' % name)
            name = self.fn['params'][name]['id']
        else:
            for p in self.fn['params']:
                if p['name'] == name:
                    name = p['id']
                    break
            else:
                raise MissingAnchor('parameter %s of %s' % (name, self.fn['q']))
        v = self.args[name]
        if isinstance(v, LVal):
            v = self.E.load(st, v)
        return wrap(self.E, v) if z3.is_expr(v) else v

    def __getitem__(self, name):
        return self._arg(name, self.pre)

    def out(self, name):
        return self._arg(name, self.post)

    def ref(self, i):
        """heap reference of the object bound to reference parameter i"""
        v = self.args[self.fn['params'][i]['id']]
        if isinstance(v, LVal):
            v = self.E.canon(self.pre, v)
            if v.root[0] == 'h' and not v.path:
                return v.root[2]
        raise Unsupported('parameter %d is not a heap object' % i)

    @property
    def thisref(self):
        v = self.E.canon(self.pre, self.this_lv)
        if v.root[0] == 'h' and not v.path:
            return v.root[2]
        raise Unsupported('this is not a heap object')

    @property
    def this(self):
        return wrap(self.E, self.E.load(self.pre, self.this_lv))

    @property
    def this1(self):
        return wrap(self.E, self.E.load(self.post, self.this_lv))

    @property
    def result(self):
        v = self._res
        if isinstance(v, LVal):
            v = self.E.load(self.post, v)
        return wrap(self.E, v) if z3.is_expr(v) else v

    def heap0(self, key, ref=None):
        h = self.E.heap(self.pre, key)
        return h if ref is None else wrap(self.E, z3.Select(h, ref))

    def heap1(self, key, ref=None):
        h = self.E.heap(self.post, key)
        return h if ref is None else wrap(self.E, z3.Select(h, ref))


class View:
    """state as seen by loop-invariant templates"""

    def __init__(self, E, st, fr, k, entry=None, fnctx=None, mods=None):
        self.E, self.st, self.fr, self.k, self.entry, self.ctx, self.mods = E, st, fr, k, entry, fnctx, mods

    def _chain(self):
        f = self.fr
        while f is not None:
            yield f.id
            f = f.parent if f.this is not None or True else None

    def has(self, name):
        return self._find(name) is not None

    def _find(self, name):
        best = None
        for key in self.st.env:
            info = self.E.varinfo.get(key)
            if info and info[0] == name and key[0] == self.fr.id:
                best = key
        return best

    def var(self, name):
        k = self._find(name)
        if k is None:
            return None
        v = self.st.env[k]
        if isinstance(v, RefBind):
            v = self.E.load(self.st, v.lv)
        return wrap(self.E, v) if z3.is_expr(v) else v

    @property
    def this(self):
        return wrap(self.E, self.E.load(self.st, self.fr.this))

    def vars(self):
        """[(name, key, value)] of this frame (values only)"""
        r = []
        for key, v in self.st.env.items():
            info = self.E.varinfo.get(key)
            if info is None or key[0] != self.fr.id:
                continue
            if isinstance(v, RefBind):
                continue
            if z3.is_expr(v):
                r.append((info[0], key, v))
        return r

    def ints(self):
        """[(name, term)] integer variables (and iterator positions) the loop modifies"""
        r = []
        for key in (self.mods or {}):
            if key[0] != 'env':
                continue
            v = self.st.env.get(key[1])
            n = str(self.E.varinfo.get(key[1], ('?',))[0])
            if z3.is_expr(v) and v.sort() == I:
                r.append((n, v))
            elif isinstance(v, PyIter):
                r.append((n, icast(v.idx)))
        return r

    def idxs(self):
        """loop counters: integer variables known to move by one per iteration; [(name, term)]"""
        return [(n, v) for n, v, lin in self._ints() if lin]

    def accs(self):
        return [(n, v) for n, v, lin in self._ints() if not lin]

    def _ints(self):
        r = []
        for key in (self.mods or {}):
            if key[0] != 'env':
                continue
            v = self.st.env.get(key[1])
            n = str(self.E.varinfo.get(key[1], ('?',))[0])
            lin = key[1] in self.E.loop_linear
            if z3.is_expr(v) and v.sort() == I:
                r.append((n, v, lin))
            elif isinstance(v, PyIter):
                r.append((n, icast(v.idx), lin))
        return r

    def reals(self):
        return [(n, v) for n, v in self.modified(R)]

    def modified(self, sort=None, pred=None):
        """values of variables the loop modifies, optionally of a given sort"""
        r = []
        for key in (self.mods or {}):
            if key[0] != 'env':
                continue
            v = self.st.env.get(key[1])
            if z3.is_expr(v) and (sort is None or v.sort() == sort) and (pred is None or pred(v)):
                r.append((self.E.varinfo.get(key[1], ('?',))[0], wrap(self.E, v)))
        return r


class Engine:
    def __init__(self, tu, contracts, ghost_fields=None, config=None):
        self.tu = tu
        self.config = config or {}
        self.S = Sorts(tu)
        self.S.keyproj = (config or {}).get('keyproj', {})
        self.S.refmembers = (config or {}).get('ref_members', ())
        self.S.extra = (config or {}).get('sorts', {})
        self.ghost_fields = ghost_fields or {}
        if ghost_fields:
            orig = self.S.user_fields

            def uf(full, orig=orig):
                r = orig(full)
                if r is not None:
                    for pat, extra in self.ghost_fields.items():
                        if re.search(pat, full):
                            have = {f for f, _ in r}
                            for f, tf in extra:
                                if f not in have:
                                    r = r + [(f, {'k': 'ghost', 's': 'ghost:' + pat + f, 'mk': tf})]
                return r
            self.S.user_fields = uf
            of0 = self.S._of

            def of1(t, key, of0=of0):
                if t['k'] == 'ghost':
                    return t['mk'](self)
                return of0(t, key)
            self.S._of = of1
        self.contracts = contracts
        self.cmap = {}
        for m, f in tu.functions.items():
            for c in contracts:
                if c.matches(tu, f):
                    self.cmap[m] = c
                    break
        self.overridden = {}
        for m, f in tu.functions.items():
            for o in f.get('overrides', []):
                self.overridden.setdefault(o, []).append(m)
        self.obls = []
        self.dry = 0
        self.varinfo = {}
        self.throws = None
        self.reftab = []
        self.rets = None
        self.cur = None
        self.cur_contract = None
        self.loopinfo = []
        self.assumed = set()
        self.inlined = set()
        self.fnctx = None
        self.deadline = None
        self.called_contracts = set()
        self.globals = {}
        self.unfold_loops = True
        from . import stdlib
        self.std = stdlib

    # ------------------------------------------------------------------ helpers
    def fresh(self, name, sort):
        return z3.FreshConst(sort, re.sub(r'\W+', '_', name))

    def ty(self, i):
        return self.tu.types[i]

    def sort(self, t):
        return self.S.of(t)

    def oblige(self, st, kind, goal, loc='', name=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        goal_s = z3.simplify(goal)
        if not self.dry:
            if z3.is_true(goal_s) and kind == 'safety':
                pass
            else:
                o = Obligation('%s/%s%s' % (self.cur, name or kind, ''), kind, loc, st.pc, goal)
                o.func = self.cur
                o.detail = None
                self.obls.append(o)
        if not z3.is_true(goal_s):
            st.assume(goal)

    def heap(self, st, key):
        if key not in st.heap:
            t = self.heap_types.get(key)
            if t is None:
                for tt in self.tu.types:
                    if tt['k'] == 'rec' and unconst(tt['s']) == key:
                        t = self.heap_types[key] = tt
                        break
                else:
                    raise MissingAnchor('type %s' % key)
            c = z3.Const('heap0_' + re.sub(r'\W+', '_', key), z3.ArraySort(I, self.sort(t)))
            st.heap[key] = c
        return st.heap[key]

    heap_types = {}

    def heapkey(self, t):
        """heap key for objects of record type t (aliases map derived classes to the base that carries the model)"""
        s = unconst(t['s'])
        for pat, target in self.config.get('heap_alias', {}).items():
            if re.search(pat, s):
                for tt in self.tu.types:
                    if re.search(target, unconst(tt['s'])) and tt['k'] == 'rec':
                        self.heap_types[unconst(tt['s'])] = tt
                        return unconst(tt['s'])
        self.heap_types[s] = t
        return s

    def alloc(self, st, t, value):
        r = st.nref
        st.nref = r + 1
        key = self.heapkey(t)
        st.heap[key] = z3.Store(self.heap(st, key), r, value)
        return r

    # ------------------------------------------------------------------- lvalues
    def load(self, st, lv):
        if lv.root[0] == 'v':
            v = st.env[lv.root[1]]
            if isinstance(v, RefBind):
                return self.load(st, LVal(v.lv.root, v.lv.path + lv.path, lv.ty))
        elif lv.root[0] == 't':
            v = lv.root[1]
        else:
            v = z3.Select(self.heap(st, lv.root[1]), lv.root[2])
        for step in lv.path:
            if not z3.is_expr(v):
                raise Unsupported('path into python value %r' % (v,))
            v = self.step_get(st, v, step)
        if z3.is_expr(v) and not self.nonarith(v):
            pass
        self.range_fact(st, v, lv.ty)
        return v

    def nonarith(self, v):
        return True

    def step_get(self, st, v, step):
        if step[0] == 'f':
            return rget(self.S, v, step[1])
        if step[0] == 'i':
            return vget(v, step[1])
        if step[0] == 'k':
            return z3.Select(rget(self.S, v, 'val'), step[1])
        raise Unsupported('step')

    def range_fact(self, st, v, ty, depth=0):
        if ty is None or not z3.is_expr(v):
            return
        t = self.tu.strip(ty) if ty['k'] == 'ref' else ty
        if t['k'] in ('int', 'enum') and v.sort() == I and not z3.is_int_value(v):
            bits = t.get('bits', 32)
            k = v.decl().kind() if z3.is_app(v) else None
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_ITE, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_UMINUS):
                return
            if t['k'] == 'enum':
                return
            seen = st.ghost.get('$rng')
            if seen is None:
                seen = frozenset()
            if v.get_id() in seen:
                return
            st.ghost['$rng'] = seen | {v.get_id()}
            st.ghost.setdefault('$rngkeep', []).append(v)
            if t.get('signed'):
                st.assume(z3.And(v >= -2 ** (bits - 1), v < 2 ** (bits - 1)))
            else:
                st.assume(z3.And(v >= 0, v < 2 ** bits))
        elif self.S.is_vec(v.sort()):
            seen = st.ghost.get('$rng') or frozenset()
            if v.get_id() not in seen:
                st.ghost['$rng'] = seen | {v.get_id()}
                st.ghost.setdefault('$rngkeep', []).append(v)
                l = vlen(v)
                if not z3.is_int_value(l):
                    st.assume(l >= 0)
                    st.assume(l < 2 ** 60)
                a = varr(v)
                if a.sort().range() == I and t['k'] in ('rec', 'array') and self.symbolic(a):
                    et = self.std.elty(self, t)
                    if et['k'] == 'int':
                        q = z3.FreshConst(I, 'q')
                        lo, hi = (-2 ** (et['bits'] - 1), 2 ** (et['bits'] - 1)) if et['signed'] else (0, 2 ** et['bits'])
                        st.assume(z3.ForAll([q], z3.And(lo <= z3.Select(a, q), z3.Select(a, q) < hi), patterns=[z3.Select(a, q)]))
        elif t['k'] == 'rec' and depth < 2 and v.sort().name() in self.S.fields and self.symbolic(v):
            for fn, ft in self.S.user_fields(t.get('full', '')) or ():
                if ft['k'] in ('int', 'rec') and fn in self.S.fields[v.sort().name()]:
                    self.range_fact(st, rget(self.S, v, fn), ft, depth + 1)

    def symbolic(self, a):
        while z3.is_app(a) and a.num_args() == 1 and a.decl().kind() == z3.Z3_OP_DT_ACCESSOR:
            a = a.arg(0)
        return z3.is_app(a) and (a.num_args() == 0 or a.decl().kind() == z3.Z3_OP_SELECT) and not z3.is_int_value(a)

    def store(self, st, lv, val):
        if lv.root[0] == 'v':
            key = lv.root[1]
            cur = st.env.get(key)
            if isinstance(cur, RefBind):
                return self.store(st, LVal(cur.lv.root, cur.lv.path + lv.path, lv.ty), val)
            if not lv.path:
                st.env[key] = val
                return
            st.env[key] = self.upd(st, cur, lv.path, self.term(st, val))
        elif lv.root[0] == 'h':
            h = self.heap(st, lv.root[1])
            cur = z3.Select(h, lv.root[2])
            st.heap[lv.root[1]] = z3.Store(h, lv.root[2], self.upd(st, cur, lv.path, self.term(st, val)) if lv.path else self.term(st, val))
        else:
            raise Unsupported('store to temporary')

    def upd(self, st, cur, path, val):
        if not path:
            return val
        step = path[0]
        if not z3.is_expr(cur):
            raise Unsupported('update of python value')
        sub = self.step_get(st, cur, step)
        new = self.upd(st, sub, path[1:], val)
        if step[0] == 'f':
            return rset(self.S, cur, step[1], new)
        if step[0] == 'i':
            return vset(cur, step[1], new)
        if step[0] == 'k':
            return rset(self.S, cur, 'val', z3.Store(rget(self.S, cur, 'val'), step[1], new))

    def val(self, st, v):
        """rvalue of an expression result"""
        if isinstance(v, LVal):
            return self.load(st, v)
        return v

    def term(self, st, v):
        v = self.val(st, v)
        if z3.is_expr(v):
            return v
        if isinstance(v, PyPtr):
            lv = v.lv
            if lv.root[0] == 'v' and isinstance(st.env.get(lv.root[1]), RefBind):
                b = st.env[lv.root[1]].lv
                lv = LVal(b.root, b.path + lv.path, lv.ty)
            if lv.root[0] == 'h' and not lv.path:
                return lv.root[2]
            raise Unsupported('address of a local object stored as data')
        if isinstance(v, tuple) and v and v[0] == 'typeid':
            return z3.Int('typeid_std_string' if v[1].startswith('std::basic_string<') else 'typeid_' + v[1])
        raise Unsupported('value %s has no term' % type(v).__name__)

    def tmp(self, st, v, ty, name='$tmp'):
        """materialise a temporary"""
        if isinstance(v, LVal):
            return v
        key = (0, 'tmp%d' % next(Frame._n))
        st.env[key] = v
        self.varinfo[key] = (name, ty)
        return LVal(('v', key), (), ty)

    def lv(self, st, v, ty):
        return v if isinstance(v, LVal) else self.tmp(st, v, ty)

    def zero(self, t):
        t = self.tu.strip(t)
        s = self.sort(t)
        return self.zero_sort(s, t)

    def zero_sort(self, s, t=None):
        if s == I:
            return z3.IntVal(0)
        if s == B:
            return z3.BoolVal(False)
        if s == R:
            return z3.RealVal(0)
        if s == STR:
            return z3.StringVal('')
        if self.S.is_vec(s):
            es = s.accessor(0, 1).range().range()
            n = t['n'] if t and t['k'] == 'array' else 0
            if t and t['k'] == 'rec' and t['name'] == 'std::array':
                n = int(t['targs'][1]['i'])
            return mkvec(s, z3.IntVal(n), z3.K(I, self.zero_sort(es)))
        if s.name() in self.S.fields:
            fs = self.S.fields[s.name()]
            if s.name().startswith('R_Map_') or s.name().startswith('R_Set_'):
                args = []
                for i, f in enumerate(fs):
                    rs = s.accessor(0, i).range()
                    if f == 'dom':
                        args.append(z3.K(rs.domain(), z3.BoolVal(False)))
                    elif f in ('n', 'next'):
                        args.append(z3.IntVal(0))
                    else:
                        args.append(self.fresh('map0', rs))
                return s.constructor(0)(*args)
            if not fs:
                return s.constructor(0)(z3.IntVal(0))
            return s.constructor(0)(*[self.zero_sort(s.accessor(0, i).range()) for i in range(len(fs))])
        if isinstance(s, z3.ArraySortRef):
            return self.fresh('arr0', s)
        return self.fresh('opaque0', s)

    # --------------------------------------------------------------- arithmetic
    def wrap_int(self, st, v, t):
        """value v converted to integer type t"""
        if t['k'] == 'enum':
            return v
        bits, signed = t['bits'], t['signed']
        lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1)) if signed else (0, 2 ** bits)
        v = z3.simplify(v) if z3.is_int_value(z3.simplify(v)) else v
        if z3.is_int_value(v):
            x = v.as_long()
            x = (x - lo) % 2 ** bits + lo
            return z3.IntVal(x)
        if quick_valid(st.pc, z3.And(v >= lo, v < hi)):
            return v
        m = 2 ** bits
        if signed:
            r = v % m
            return z3.If(r >= 2 ** (bits - 1), r - m, r)
        return v % m

    def arith(self, st, op, a, b, t, loc):
        """a op b computed in type t"""
        k = t['k']
        if k == 'float':
            a, b = self.toreal(a), self.toreal(b)
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                self.oblige_div(st, b, loc, real=True)
                if self.config.get('quot') and not z3.is_rational_value(z3.simplify(b)):
                    return QUOT(a, b)
                return a / b
            raise Unsupported('float op ' + op)
        if k in ('int', 'bool', 'enum'):
            a, b = self.toint(a), self.toint(b)
            unsigned = k == 'int' and not t.get('signed') and t.get('bits', 64) >= 32
            if op == '+':
                if unsigned and ((z3.is_int_value(a) and a.as_long() >= 2 ** 62) or (z3.is_int_value(b) and b.as_long() >= 2 ** 62)):
                    return (a + b) % (2 ** t['bits'])
                return a + b
            if op == '-':
                if unsigned:
                    if z3.is_int_value(z3.simplify(a - b)) and z3.simplify(a - b).as_long() >= 0:
                        return z3.simplify(a - b)
                    if quick_valid(st.pc, a >= b):
                        return a - b
                    return z3.If(a >= b, a - b, a - b + 2 ** t['bits'])
                return a - b
            if op == '*':
                return a * b
            if op in ('/', '%'):
                self.oblige_div(st, b, loc)
                if unsigned or (quick_valid(st.pc, z3.And(a >= 0, b > 0))):
                    return a / b if op == '/' else a % b
                q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -(-a / b), (-a) / (-b)))
                return q if op == '/' else a - q * b
            if op == '<<' and z3.is_int_value(z3.simplify(b)):
                return a * (2 ** z3.simplify(b).as_long())
            if op == '>>' and z3.is_int_value(z3.simplify(b)):
                return a / (2 ** z3.simplify(b).as_long())
            if op in ('&', '|', '^'):
                ca, cb = z3.simplify(a), z3.simplify(b)
                ca, cb = ca.as_long() if z3.is_int_value(ca) else None, cb.as_long() if z3.is_int_value(cb) else None
                if ca is not None and cb is not None and ca >= 0 and cb >= 0:
                    return z3.IntVal({'&': ca & cb, '|': ca | cb, '^': ca ^ cb}[op])
                if op == '&':
                    x, c = (b, ca) if ca is not None else (a, cb)
                    if c is not None and c > 0 and c & (c - 1) == 0:      # one bit
                        return (x / c) % 2 * c
                    if c is not None and c >= 0 and c & (c + 1) == 0:     # a mask of low bits
                        return x % (c + 1)
                f = z3.Function('bit' + {'&': 'and', '|': 'or', '^': 'xor'}[op], I, I, I)
                return f(a, b)
        raise Unsupported('arith %s on %s' % (op, k))

    def oblige_div(self, st, b, loc, real=False):
        if real:
            # IEEE division by zero is defined (inf/nan); over the reals it is left unspecified
            return
        self.oblige(st, 'safety', b != 0, loc, 'no-division-by-zero')

    def toreal(self, a):
        if a.sort() == I:
            return z3.ToReal(a)
        if a.sort() == B:
            return z3.If(a, z3.RealVal(1), z3.RealVal(0))
        return a

    def toint(self, a):
        if a.sort() == B:
            return z3.If(a, z3.IntVal(1), z3.IntVal(0))
        return a

    def tobool(self, st, v):
        v = self.val(st, v)
        if isinstance(v, (PyPtr,)):
            return z3.BoolVal(True)
        if isinstance(v, Closure):
            return z3.BoolVal(True)
        if not z3.is_expr(v):
            raise Unsupported('bool of %s' % type(v).__name__)
        if v.sort() == B:
            return v
        if v.sort() in (I, R):
            return v != 0
        raise Unsupported('bool of sort %s' % v.sort())

    def convert(self, st, v, to):
        """implicit conversion of rvalue v to type `to` (numeric only)"""
        to = self.tu.strip(to)
        v = self.val(st, v)
        if not z3.is_expr(v):
            return v
        if to['k'] == 'float' and v.sort() != R:
            return self.toreal(v)
        if to['k'] in ('int', 'enum') and v.sort() == B:
            return self.toint(v)
        if to['k'] == 'bool' and v.sort() != B:
            return self.tobool(st, v)
        if to['k'] == 'int' and v.sort() == R:
            return self.real2int(st, v, to)
        return v

    def real2int(self, st, v, to):
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
            return self.wrap_int(st, v.arg(0), to)
        r = self.fresh('trunc', I)
        st.assume(z3.Implies(v >= 0, z3.And(z3.ToReal(r) <= v, v < z3.ToReal(r) + 1)))
        st.assume(z3.Implies(v <= 0, z3.And(z3.ToReal(r) >= v, v > z3.ToReal(r) - 1)))
        return self.wrap_int(st, r, to)

    # --------------------------------------------------------------- expressions
    def ev(self, e, st, fr):
        if e is None:
            return [(st, None)]
        k = e['k']
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            raise Unsupported('%s %s at %s' % (k, e.get('what', ''), e.get('l')))
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        return m(e, st, fr)

    def rv(self, e, st, fr):
        return [(s, self.val(s, v)) for s, v in self.ev(e, st, fr)]

    def evs(self, es, st, fr):
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(e, s, fr):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def ev_Int(self, e, st, fr):
        t = self.ty(e['t'])
        if t['k'] == 'bool':
            return [(st, z3.BoolVal(int(e['v']) != 0))]
        return [(st, z3.IntVal(int(e['v'])))]

    def ev_Float(self, e, st, fr):
        return [(st, z3.RealVal(self.decimal(e['v'])))]

    def decimal(self, s):
        from fractions import Fraction
        return str(Fraction(s.replace('E', 'e').replace('e+', 'e')))

    def ev_Bool(self, e, st, fr):
        return [(st, z3.BoolVal(e['v']))]

    def ev_Str(self, e, st, fr):
        return [(st, z3.StringVal(e['v']))]

    def ev_Null(self, e, st, fr):
        return [(st, z3.IntVal(0))]

    def ev_ZeroInit(self, e, st, fr):
        return [(st, self.zero(self.ty(e['t'])))]

    def ev_This(self, e, st, fr):
        if fr.this is None:
            raise Unsupported('this')
        return [(st, PyPtr(fr.this))]

    def ev_Ref(self, e, st, fr):
        f = fr
        key = (fr.id, e['id'])
        while key not in st.env and f is not None:
            f = f.parent_scope if hasattr(f, 'parent_scope') else None
            if f is not None:
                key = (f.id, e['id'])
        if key not in st.env:
            if e.get('global') or e.get('static'):
                if 'init' in e:
                    return self.ev(e['init'], st, fr)
                g = self.config.get('globals', {}).get(e.get('q'))
                if g is not None:
                    return [(st, g(self, st))]
                t = self.tu.strip(self.ty(e['t']))
                if self.config.get('opaque_globals', True) and t['k'] in ('float', 'int'):
                    kk = e.get('q')
                    if kk not in self.globals:
                        self.globals[kk] = z3.Const('global_' + re.sub(r'\W+', '_', kk), self.sort(t))
                    return [(st, self.globals[kk])]
                return [(st, Opaque('global ' + e.get('q', '')))]
            raise Unsupported('unbound variable %s at %s' % (e['name'], e.get('l')))
        v = st.env[key]
        if isinstance(v, RefBind):
            return [(st, v.lv)]
        if isinstance(v, tuple) and v and v[0] == 'mapent':
            return [(st, v)]
        return [(st, LVal(('v', key), (), self.varinfo[key][1]))]

    def ev_FuncRef(self, e, st, fr):
        return [(st, FuncVal(e))]

    def ev_Member(self, e, st, fr):
        out = []
        for s, b in self.ev(e['c'][0], st, fr):
            lv = self.deref(s, b, e['c'][0], fr) if e['arrow'] else b
            out.append((s, self.member(s, lv, e)))
        return out

    def member(self, s, lv, e):
        ty = self.ty(e['t'])
        if isinstance(lv, Opaque):
            return lv
        if isinstance(lv, LVal):
            hook = self.config.get('field_hook', {}).get(e['q'])
            if hook:
                return hook(self, s, lv)
            if e['q'] in self.config.get('ref_members', ()):
                k = z3.simplify(self.load(s, lv.f(e['name'], ty)))
                if not z3.is_int_value(k):
                    raise Unsupported('reference member %s of an unknown object' % e['name'])
                return self.reftab[k.as_long()]
            # reference-typed and python-valued fields
            if lv.root[0] == 'v' and not lv.path:
                pv = s.env.get(lv.root[1])
                if isinstance(pv, tuple) and pv and pv[0] in ('mapent', 'inserted'):
                    return pv[1] if e['name'] == 'first' else pv[2]
            return lv.f(e['name'], ty)
        if isinstance(lv, tuple) and lv[0] in ('mapent', 'inserted'):
            return lv[1] if e['name'] == 'first' else lv[2]
        if z3.is_expr(lv):
            v = rget(self.S, lv, e['name'])
            self.range_fact(s, v, ty)
            return v
        raise Unsupported('member of %s' % type(lv).__name__)

    def deref(self, s, v, node=None, fr=None):
        """the lvalue a pointer-like value designates"""
        v0 = v
        t = None
        if isinstance(v, LVal):
            t = v.ty
            v = self.load(s, v)
        if isinstance(v, PyPtr):
            return v.lv
        if isinstance(v, PyIter):
            return self.std.iter_deref(self, s, v, node)
        if isinstance(v, PyMapIter):
            return self.std.mapiter_deref(self, s, v, node)
        if isinstance(v, Opaque):
            return v
        if z3.is_expr(v) and v.sort() == I:
            if t is None and node is not None:
                t = self.ty(node['t'])
            t = self.tu.strip(t)
            if t['k'] == 'ptr':
                pt = self.ty(t['to'])
            elif t['k'] == 'rec' and t['name'] in PTRLIKE:
                pt = self.tu.targ(t, 0)
            else:
                raise Unsupported('deref of %s' % t['s'])
            if pt['k'] not in ('rec', 'int', 'float', 'bool'):
                raise Unsupported('deref of pointer to %s' % pt['s'])
            self.oblige(s, 'safety', v != 0, node.get('l', '') if node else '', 'no-null-dereference')
            return LVal(('h', self.heapkey(pt), v), (), pt)
        raise Unsupported('deref of %s' % (v,))

    def ev_Un(self, e, st, fr):
        op = e['op']
        out = []
        for s, v in self.ev(e['c'][0], st, fr):
            if op in ('++', '--'):
                t = self.tu.strip(self.ty(e['t']))
                cur = self.val(s, v)
                if isinstance(cur, PyIter):
                    new = self.std.iter_add(self, cur, 1 if op == '++' else -1)
                elif t['k'] == 'ptr':
                    raise Unsupported('pointer arithmetic')
                else:
                    one = z3.RealVal(1) if t['k'] == 'float' else z3.IntVal(1)
                    new = self.arith(s, '+' if op == '++' else '-', cur, one, t, e['l'])
                if not isinstance(v, LVal):
                    raise Unsupported('++ of rvalue')
                self.store(s, v, new)
                out.append((s, cur if e['post'] else v))
            elif op == '*':
                out.append((s, self.deref(s, v, e['c'][0], fr)))
            elif op == '&':
                if not isinstance(v, LVal):
                    if isinstance(v, (FuncVal, Opaque)):
                        out.append((s, v))
                        continue
                    raise Unsupported('& of rvalue')
                out.append((s, PyPtr(v)))
            elif op == '!':
                out.append((s, z3.Not(self.tobool(s, v))))
            elif op == '-':
                v = self.val(s, v)
                if v.sort() == B:
                    v = self.toint(v)
                t = self.ty(e['t'])
                if t['k'] == 'int' and not t['signed']:
                    out.append((s, self.arith(s, '-', z3.IntVal(0), v, t, e['l'])))
                else:
                    out.append((s, -v))
            elif op == '+':
                out.append((s, self.val(s, v)))
            else:
                raise Unsupported('unary ' + op)
        return out

    def assign(self, st, lv, v, ty):
        if not isinstance(lv, LVal):
            if isinstance(lv, Opaque):
                return
            raise Unsupported('assignment to rvalue')
        v = self.val(st, v)
        self.store(st, lv, self.convert(st, v, ty) if z3.is_expr(v) else v)

    def ev_Bin(self, e, st, fr):
        op = e['op']
        if op == ',':
            out = []
            for s, _ in self.ev(e['c'][0], st, fr):
                out += self.ev(e['c'][1], s, fr)
            return out
        if op in ('&&', '||'):
            return self.shortcircuit(e, st, fr, op)
        if op == '=':
            out = []
            # C++17 evaluates the right operand first; the extracted code has no order dependence we track
            for s, rvv in self.rv(e['c'][1], st, fr):
                for s2, l in self.ev(e['c'][0], s, fr):
                    self.assign(s2, l, rvv, self.ty(e['t']))
                    out.append((s2, l))
            return out
        out = []
        for s, (a, b) in self.evs(e['c'], st, fr):
            out.append((s, self.binop(s, op, self.val(s, a), self.val(s, b), e)))
        return out

    def binop(self, s, op, a, b, e):
        t = self.ty(e['t'])
        if isinstance(a, PyIter) or isinstance(b, PyIter):
            return self.std.iter_binop(self, s, op, a, b, e)
        if isinstance(a, PyPtr) or isinstance(b, PyPtr):
            return self.ptrcmp(s, op, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return self.fresh('opq', B)
            return Opaque('binop')
        if not (z3.is_expr(a) and z3.is_expr(b)):
            raise Unsupported('binop %s on %s,%s' % (op, type(a).__name__, type(b).__name__))
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if a.sort() != b.sort():
                if R in (a.sort(), b.sort()):
                    a, b = self.toreal(a), self.toreal(b)
                else:
                    a, b = self.toint(a), self.toint(b)
            if a.sort() == B and op not in ('==', '!='):
                a, b = self.toint(a), self.toint(b)
            return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '>': lambda: a > b,
                    '<=': lambda: a <= b, '>=': lambda: a >= b}[op]()
        return self.arith(s, op, a, b, t, e.get('l', ''))

    def ptrcmp(self, s, op, a, b):
        def canon(x):
            if isinstance(x, PyPtr):
                lv = x.lv
                if lv.root[0] == 'v' and isinstance(s.env.get(lv.root[1]), RefBind):
                    bb = s.env[lv.root[1]].lv
                    lv = LVal(bb.root, bb.path + lv.path, lv.ty)
                return lv
            return x
        a, b = canon(a), canon(b)
        if isinstance(a, LVal) and isinstance(b, LVal):
            if a.root[0] == 'v' and b.root[0] == 'v':
                eq = a.root == b.root and str(a.path) == str(b.path)
                r = z3.BoolVal(eq)
            elif a.root[0] == 'h' and b.root[0] == 'h' and not a.path and not b.path:
                r = a.root[2] == b.root[2]
            else:
                r = z3.BoolVal(False)
        else:
            lv, other = (a, b) if isinstance(a, LVal) else (b, a)
            if lv.root[0] == 'h' and not lv.path:
                r = lv.root[2] == other
            elif z3.is_int_value(other):
                r = z3.BoolVal(False)
            else:
                raise Unsupported('pointer comparison')
        return r if op == '==' else z3.Not(r)

    def same_state(self, a, b):
        if len(a.env) != len(b.env) and not set(a.env) <= set(b.env):
            return False
        for k, v in a.env.items():
            w = b.env.get(k)
            if v is w:
                continue
            if z3.is_expr(v) and z3.is_expr(w) and v.eq(w):
                continue
            return False
        for k in set(a.heap) | set(b.heap):
            v, w = a.heap.get(k), b.heap.get(k)
            if v is None or w is None:
                continue
            if not v.eq(w):
                return False
        return a.nref is b.nref or (a.nref is not None and a.nref.eq(b.nref))

    def shortcircuit(self, e, st, fr, op):
        out = []
        for s, a in self.ev(e['c'][0], st, fr):
            a = self.tobool(s, a)
            go = a if op == '&&' else z3.Not(a)
            s1 = s.copy()
            s1.assume(go)
            if z3.is_false(z3.simplify(go)) or not feasible(s1.pc):
                out.append((s, z3.BoolVal(op == '||')))
                continue
            before = s.copy()
            res = self.ev(e['c'][1], s1, fr)
            if len(res) == 1 and self.same_state(before, res[0][0]):
                s2, b = res[0]
                b = self.tobool(s2, b)
                # facts learnt on the right side hold under `go`
                for c in s2.pc[len(before.pc) + 1:]:
                    s.assume(z3.Implies(go, c))
                out.append((s, z3.And(a, b) if op == '&&' else z3.Or(a, b)))
            else:
                for s2, b in res:
                    out.append((s2, self.tobool(s2, b)))
                s0 = s
                s0.assume(z3.Not(go))
                if feasible(s0.pc):
                    out.append((s0, z3.BoolVal(op == '||')))
        return out

    def ev_Cond(self, e, st, fr):
        out = []
        for s, c in self.ev(e['c'][0], st, fr):
            c = self.tobool(s, c)
            branches = []
            base = s
            for cond, sub in ((c, e['c'][1]), (z3.Not(c), e['c'][2])):
                if z3.is_false(z3.simplify(cond)):
                    continue
                s1 = base.copy()
                s1.assume(cond)
                if not feasible(s1.pc):
                    continue
                branches.append((cond, self.ev(sub, s1, fr)))
            if len(branches) == 2 and all(len(b[1]) == 1 for b in branches):
                (s1, v1), (s2, v2) = branches[0][1][0], branches[1][1][0]
                x1 = self.val(s1, v1) if isinstance(v1, LVal) and not e.get('lv') else v1
                x2 = self.val(s2, v2) if isinstance(v2, LVal) and not e.get('lv') else v2
                if self.same_state(base, s1) and self.same_state(base, s2) and z3.is_expr(x1) and z3.is_expr(x2):
                    if x1.sort() != x2.sort():
                        x1, x2 = self.toreal(x1), self.toreal(x2)
                    for cond, ss in ((c, s1), (z3.Not(c), s2)):
                        for f in ss.pc[len(base.pc) + 1:]:
                            base.assume(z3.Implies(cond, f))
                    out.append((base, z3.If(c, x1, x2)))
                    continue
            for _, r in branches:
                out += r
        return out

    def ev_CompAssign(self, e, st, fr):
        out = []
        op = e['op'][:-1]
        for s, rvv in self.rv(e['c'][1], st, fr):
            for s2, l in self.ev(e['c'][0], s, fr):
                cur = self.val(s2, l)
                if isinstance(cur, PyIter):
                    new = self.std.iter_add(self, cur, rvv if op == '+' else -rvv)
                elif isinstance(cur, Opaque):
                    out.append((s2, cur))
                    continue
                else:
                    ct = self.ty(e['ct'])
                    new = self.arith(s2, op, self.convert(s2, cur, ct), self.convert(s2, rvv, ct), ct, e['l'])
                    lt = self.tu.strip(self.ty(e['t']))
                    if lt['k'] == 'int' and ct['k'] == 'float':
                        new = self.real2int(s2, new, lt)
                    elif lt['k'] == 'int' and ct['k'] == 'int' and lt['bits'] < ct['bits']:
                        new = self.wrap_int(s2, new, lt)
                self.store(s2, l, new)
                out.append((s2, l))
        return out

    def ev_Index(self, e, st, fr):
        out = []
        for s, (b, i) in self.evs(e['c'], st, fr):
            bt = self.ty(e['c'][0]['t'])
            i = self.val(s, i)
            if isinstance(b, LVal) and self.tu.strip(b.ty)['k'] == 'array':
                t = self.tu.strip(b.ty)
                self.oblige(s, 'safety', z3.And(i >= 0, i < t['n']), e['l'], 'array-index-in-bounds')
                out.append((s, b.i(i, self.ty(t['el']))))
                continue
            v = self.val(s, b)
            if isinstance(v, PyIter):
                out.append((s, self.std.iter_deref(self, s, self.std.iter_add(self, v, i), e)))
                continue
            if z3.is_expr(v) and self.S.is_vec(v.sort()):
                self.oblige(s, 'safety', z3.And(i >= 0, i < vlen(v)), e['l'], 'array-index-in-bounds')
                out.append((s, vget(v, i)))
                continue
            raise Unsupported('index of %s' % (v,))
        return out

    def ev_Cast(self, e, st, fr):
        ck = e['ck']
        to = self.ty(e['t'])
        out = []
        for s, v in self.ev(e['c'][0], st, fr):
            if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'NullToPointer', 'ToVoid',
                      'FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
                if ck == 'NullToPointer':
                    v = z3.IntVal(0)
                if e.get('dyn'):
                    v = self.std.dyncast(self, s, v, e)
                out.append((s, v))
                continue
            if ck == 'Dynamic':
                out.append((s, self.std.dyncast(self, s, v, e)))
                continue
            v = self.val(s, v)
            if isinstance(v, Opaque):
                out.append((s, v))
                continue
            if ck == 'IntegralCast':
                v = self.toint(v) if z3.is_expr(v) else v
                tt = to
                if tt['k'] == 'enum':
                    out.append((s, v))
                elif tt['k'] == 'bool':
                    out.append((s, self.tobool(s, v)))
                else:
                    ft = self.tu.strip(self.ty(e['from']))
                    if ft['k'] == 'int' and ft['bits'] <= tt['bits'] and (ft['signed'] == tt['signed'] or (not ft['signed'] and ft['bits'] < tt['bits'])):
                        out.append((s, v))
                    else:
                        out.append((s, self.wrap_int(s, v, tt)))
            elif ck in ('IntegralToFloating', 'FloatingCast'):
                if ck == 'FloatingCast' and to.get('bits') == 32:
                    # rounding to float is not modelled: real arithmetic
                    self.assumed.add('double->float rounding ignored (reals)')
                out.append((s, self.toreal(v)))
            elif ck == 'FloatingToIntegral':
                out.append((s, self.real2int(s, v, to)))
            elif ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
                out.append((s, self.tobool(s, v)))
            else:
                raise Unsupported('cast %s at %s' % (ck, e['l']))
        return out

    def ev_InitList(self, e, st, fr):
        t = self.tu.strip(self.ty(e['t']))
        out = []
        for s, vs in self.evs(e['c'], st, fr):
            out.append((s, self.mkagg(s, t, vs, e, fr)))
        return out

    def mkagg(self, s, t, vs, e, fr):
        if t['k'] == 'array' or (t['k'] == 'rec' and t['name'] in ('std::initializer_list',)):
            el = self.ty(t['el']) if t['k'] == 'array' else self.tu.targ(t, 0)
            es = self.sort(el)
            n = t['n'] if t['k'] == 'array' else len(vs)
            a = z3.K(I, self.zero_sort(es))
            for i, v in enumerate(vs):
                a = z3.Store(a, i, self.term(s, self.convert(s, v, el)))
            return mkvec(self.sort(t), z3.IntVal(n), a)
        if t['k'] == 'rec' and t['name'] == 'std::array':
            v = vs[0]
            v = self.term(s, v)
            return mkvec(self.sort(t), vlen(v), varr(v))
        if t['k'] == 'rec':
            so = self.sort(t)
            fs = self.S.user_fields(t['full'])
            if fs is None:
                if len(vs) == 1:
                    return self.val(s, vs[0])
                raise Unsupported('aggregate %s' % t['s'])
            args = []
            for i, (f, ft) in enumerate(fs):
                args.append(self.term(s, self.convert(s, vs[i], ft)) if i < len(vs) and vs[i] is not None else self.zero(ft))
            if not args and so.constructor(0).arity() == 1:
                args = [z3.IntVal(0)]
            return so.constructor(0)(*args)
        if len(vs) == 1:
            return self.convert(s, self.val(s, vs[0]), t)
        if not vs:
            return self.zero(t)
        raise Unsupported('init list %s' % t['s'])

    def ev_StdInitList(self, e, st, fr):
        out = []
        for s, v in self.rv(e['c'][0], st, fr):
            out.append((s, mkvec(self.sort(self.ty(e['t'])), vlen(v), varr(v))))
        return out

    def ev_ArrayCopy(self, e, st, fr):
        return self.rv(e['c'][0], st, fr)

    def ev_Lambda(self, e, st, fr):
        env = {}
        res = [(st, {})]
        cl = Closure(e, {}, None, fr)
        for c in e['caps']:
            if c.get('this'):
                cl.this = fr.this
                continue
            if 'id' not in c:
                raise Unsupported('lambda capture')
            if c['byref']:
                v = self.ev_Ref({'id': c['id'], 'name': c['name'], 'l': e['l']}, st, fr)[0][1]
                cl.env[c['id']] = RefBind(v) if isinstance(v, LVal) else v
            else:
                (st, v), = self.ev(c['init'], st, fr)
                v = self.val(st, v)
                cl.env[c['id']] = v
        cl.cids = {c['id']: c for c in e['caps'] if 'id' in c}
        return [(st, cl)]

    def call_closure(self, st, cl, args):
        """args: list of values/LVals"""
        fr = Frame({'q': 'lambda', 'params': cl.node['params'], 'pt': []}, cl.this, None)
        fr.depth = cl.frame.depth + 1
        fr.parent_scope = cl.frame
        for i, v in cl.env.items():
            key = (fr.id, i)
            st.env[key] = v
            base = (cl.frame.id, i)
            ty = self.varinfo.get(base, (None, None))[1]
            if ty is None and isinstance(v, RefBind):
                ty = v.lv.ty
            self.varinfo[key] = (cl.cids[i]['name'], ty)
        self.bind_params(st, fr, cl.node['params'], args)
        return self.run_body(st, fr, cl.node['body'], self.ty(cl.node['ret']))

    def bind_params(self, st, fr, params, args):
        for p, a in zip(params, args):
            t = self.ty(p['t'])
            key = (fr.id, p['id'])
            if t['k'] == 'ref':
                if isinstance(a, LVal):
                    st.env[key] = RefBind(self.canon(st, a))
                    self.varinfo[key] = (p['name'], self.ty(t['to']))
                else:
                    if not z3.is_expr(a):
                        st.env[key] = a
                    else:
                        st.env[key] = self.convert(st, a, self.ty(t['to']))
                    self.varinfo[key] = (p['name'], self.ty(t['to']))
            else:
                v = self.val(st, a)
                st.env[key] = self.convert(st, v, t) if z3.is_expr(v) else v
                self.varinfo[key] = (p['name'], t)

    def canon(self, st, lv):
        while lv.root[0] == 'v' and isinstance(st.env.get(lv.root[1]), RefBind):
            b = st.env[lv.root[1]].lv
            lv = LVal(b.root, b.path + lv.path, lv.ty)
        return lv

    def run_body(self, st, fr, body, retty):
        """execute a body; returns [(state, result)]"""
        out = []
        for s, oc in self.ex(body, st, fr):
            if oc is None:
                out.append((s, None))
            elif oc[0] == 'ret':
                v = oc[1]
                if retty is not None and retty['k'] != 'ref' and v is not None:
                    v = self.val(s, v)
                    if z3.is_expr(v) and retty['k'] not in ('void',):
                        v = self.convert(s, v, retty)
                elif isinstance(v, LVal):
                    v = self.canon(s, v)
                out.append((s, v))
            else:
                raise Unsupported('stray ' + oc[0])
        return out

    def ev_Throw(self, e, st, fr):
        if e['c'][0] is None:
            self.throws.append((st, st.ghost.get('$rethrow', '?')))
            return []
        t = self.ty(e['et'])
        name = t.get('name', t['s'])
        sub = self.collect_exc_value(e, st, fr)
        for s in sub:
            s.trace.append('throw %s @%s' % (name, e['l'].split('/')[-1]))
            self.throws.append((s, name))
        return []

    def collect_exc_value(self, e, st, fr):
        """the message is not tracked, but building it must be safe"""
        try:
            n = len(self.obls)
            r = self.ev(e['c'][0], st.copy(), fr)
            return [s for s, _ in r] or [st]
        except Unsupported:
            del self.obls[n:]
            return [st]

    def ev_Delete(self, e, st, fr):
        return [(s, None) for s, _ in self.ev(e['c'][0], st, fr)]

    def ev_Typeid(self, e, st, fr):
        if 'of' in e:
            return [(st, ('typeid', unconst(self.ty(e['of'])['s'])))]
        raise Unsupported('typeid of expression')

    def ev_New(self, e, st, fr):
        t = self.ty(e['at'])
        out = []
        for s, v in self.ev(e['c'][0], st, fr) if e['c'][0] else [(st, self.zero(t))]:
            v = self.val(s, v)
            if isinstance(v, tuple) and v[0] == 'newref':
                out.append((s, v[1]))
            else:
                r = self.alloc(s, t, self.term(s, v))
                self.on_new(s, t, r)
                out.append((s, r))
        return out

    def on_new(self, s, t, r):
        """what a new object means as an instance of its base class (stated by the contract module)"""
        for pat, fn in self.config.get('on_new', {}).items():
            if re.search(pat, unconst(t['s'])):
                for c in fn(self, s, r, wrap(self, self.load(s, LVal(('h', self.heapkey(t), r), (), t)))):
                    s.assume(c)

    def ev_Construct(self, e, st, fr):
        t = self.ty(e['t'])
        out = []
        for s, args in self.evs(e['c'], st, fr):
            out += self.construct(s, fr, t, e, args)
        return out

    def construct(self, s, fr, t, e, args):
        c = self.cmap.get(e['m'])
        user = e['m'] in self.tu.functions
        if (e['copy'] or e['move']) and not (user and not self.tu.functions[e['m']].get('defaulted')):
            v = self.val(s, args[0])
            if e['move'] and isinstance(args[0], LVal) and z3.is_expr(v):
                self.moved_from(s, args[0], v)
            if isinstance(v, PyPtr) or isinstance(v, Closure) or isinstance(v, PyIter):
                return [(s, v)]
            return [(s, v)]
        h = self.config.get('models', {}).get(e['q'])
        if h:
            r = h(self, s, fr, e, None, args)
            if r is not None:
                return r
        if user:
            f = self.tu.functions[e['m']]
            so = self.sort(t)
            key = (0, 'obj%d' % next(Frame._n))
            self.varinfo[key] = ('$obj', t)
            s.env[key] = self.fresh('obj', so)
            this = LVal(('v', key), (), t)
            res = self.call_fn(s, fr, f, this, args, e)
            return [(s2, v if isinstance(v, tuple) and v[0] == 'newref' else self.load(s2, this)) for s2, v in res]
        return self.std.construct(self, s, fr, t, e, args)

    def moved_from(self, s, lv, v):
        t = self.tu.strip(lv.ty)
        if lv.root[0] == 't':
            return
        if self.S.is_vec(v.sort()) and t.get('name') != 'std::array' and t['k'] != 'array':
            self.store(s, lv, mkvec(v.sort(), z3.IntVal(0), varr(v)))
        elif t['k'] == 'rec' and t['name'] in ('std::unique_ptr', 'std::shared_ptr'):
            self.store(s, lv, z3.IntVal(0))
        elif v.sort() in (I, B, R):
            pass
        else:
            self.store(s, lv, self.fresh('moved', v.sort()))

    # --------------------------------------------------------------------- calls
    def ev_Call(self, e, st, fr):
        if 'indirect' in e:
            out = []
            for s, f in self.rv(e['indirect'], st, fr):
                for s2, args in self.evs(e['c'], s, fr):
                    out += self.call_value(s2, fr, f, args, e)
            return out
        q = e['q']
        ig = self.config.get('ignore', [])
        if any(q.startswith(p) for p in ig):
            return [(st, Opaque(q))]
        out = []
        if 'obj' in e:
            for s, o in self.ev(e['obj'], st, fr):
                for s2, args in self.evs(e['c'], s, fr):
                    out += self.method(s2, fr, e, o, args)
            return out
        for s, args in self.evs(e['c'], st, fr):
            out += self.freecall(s, fr, e, args)
        return out

    def call_value(self, s, fr, f, args, e):
        if isinstance(f, Closure):
            return self.call_closure(s, f, args)
        if isinstance(f, FuncVal):
            return self.freecall(s, fr, f.node, args)
        if isinstance(f, Opaque):
            raise Unsupported('call of unknown function')
        if z3.is_expr(f):
            return self.std.call_stdfunction(self, s, fr, f, args, e)
        raise Unsupported('call of %s' % type(f).__name__)

    def method(self, s, fr, e, o, args):
        q = e['q']
        h = self.config.get('models', {}).get(q)
        if isinstance(o, Opaque):
            return (h and h(self, s, fr, e, o, args)) or [(s, Opaque(q))]
        if h:
            if e.get('arrow'):
                o1 = self.deref(s, o, e['obj'], fr)
            else:
                o1 = o
            r = h(self, s, fr, e, o1, args)
            if r is not None:
                return r
        m = e['m']
        # user iterators etc: pointer deref first
        if e.get('arrow'):
            o = self.deref(s, o, e['obj'], fr)
            if isinstance(o, Opaque):
                return [(s, Opaque(q))]
        if isinstance(o, Closure) or (isinstance(o, LVal) and isinstance(self.val_or_none(s, o), Closure)):
            return self.call_closure(s, self.val(s, o), args)
        if m in self.tu.functions or self.virtual_contract(e):
            f = self.tu.functions.get(m) or self.decl_fn(e)
            return self.call_fn(s, fr, f, self.lv(s, o, self.ty(e['cls'])), args, e)
        if e.get('defaulted') and q.endswith('::operator='):
            v = self.val(s, args[0])
            self.store(s, o, v)
            return [(s, o)]
        return self.std.method(self, s, fr, e, o, args)

    def val_or_none(self, s, lv):
        try:
            return self.load(s, lv)
        except Exception:
            return None

    def virtual_contract(self, e):
        """contracts on pure virtual / external functions"""
        if e['m'] in self.cmap:
            return True
        for c in self.contracts:
            if c.matches(self.tu, e):
                self.cmap[e['m']] = c
                return True
        return False

    def decl_fn(self, e):
        ps = [{'id': -100 - i, 'name': 'arg%d' % i, 't': t} for i, t in enumerate(e['pt'])]
        return {'q': e['q'], 'm': e['m'], 'params': ps, 'pt': e['pt'], 'ret': e['ret'], 'cm': e.get('cm'), 'cls': e.get('cls'),
                'virtual': True, 'static': e.get('static'), 'decl': True}

    def freecall(self, s, fr, e, args):
        q = e['q']
        h = self.config.get('models', {}).get(q)
        if h:
            r = h(self, s, fr, e, None, args)
            if r is not None:
                return r
        m = e['m']
        if m in self.tu.functions:
            return self.call_fn(s, fr, self.tu.functions[m], None, args, e)
        if self.virtual_contract(e):
            return self.call_fn(s, fr, self.decl_fn(e), None, args, e)
        return self.std.free(self, s, fr, e, args)

    def call_fn(self, s, fr, f, this, args, e):
        m = f['m']
        c = self.cmap.get(m)
        if this is not None and isinstance(this, LVal):
            this = self.canon(s, this)
        if c is not None and not c.inline and not (c.handler is None and c.ensures is None and c.ref is None and c.requires is None and c.throws is None):
            return self.apply_contract(s, fr, f, c, this, args, e)
        if f.get('virtual') and e.get('virtual') and (m in self.overridden):
            raise Unsupported('virtual call to %s without a contract' % f['q'])
        if 'body' not in f:
            raise Unsupported('no body for %s' % f['q'])
        return self.inline(s, fr, f, this, args)

    def inline(self, s, fr, f, this, args):
        if fr is not None and fr.depth > 14:
            raise Unsupported('call depth at %s' % f['q'])
        x = fr
        while x is not None:
            if x.fn is f:
                raise Unsupported('recursion without a contract: %s' % f['q'])
            x = x.parent
        self.inlined.add(f['q'])
        nf = Frame(f, this, fr)
        self.bind_params(s, nf, f['params'], args)
        return self.exec_fn(s, nf, f)

    def exec_fn(self, s, nf, f):
        sts = [s]
        if f.get('ctor'):
            sts = self.run_inits(s, nf, f)
        out = []
        for s1 in sts:
            out += self.run_body(s1, nf, f['body'], self.ty(f['ret']))
        return out

    def run_inits(self, s, nf, f):
        sts = [s]
        t = self.tu.strip(nf.this.ty)
        # members without initialiser keep an arbitrary value
        for i in f['inits']:
            nxt = []
            for s1 in sts:
                if i.get('deleg') or 'base' in i:
                    ie = i['e']
                    if ie is None:
                        nxt.append(s1)
                        continue
                    if ie['k'] == 'Construct' and ie['m'] in self.tu.functions:
                        for s2, args in self.evs(ie['c'], s1, nf):
                            for s3, _ in self.call_fn(s2, nf, self.tu.functions[ie['m']], nf.this, args, ie):
                                nxt.append(s3)
                    elif 'base' in i:
                        # trivial base: zero/opaque fields
                        if ie['k'] == 'Construct' and (ie.get('copy') or ie.get('move')):
                            for s2, args in self.evs(ie['c'], s1, nf):
                                bt = self.ty(i['base'])
                                bf = self.S.user_fields(bt.get('full', ''))
                                src = self.val(s2, args[0])
                                if bf:
                                    for fn_, ft in bf:
                                        self.store(s2, nf.this.f(fn_, ft), rget(self.S, src, fn_))
                                nxt.append(s2)
                        else:
                            nxt.append(s1)
                    else:
                        raise Unsupported('delegating constructor')
                    continue
                name = i['field']
                ft = dict(self.S.user_fields(t['full'])).get(name)
                if ft is None:
                    raise Unsupported('init of %s' % name)
                for s2, v in self.ev(i['e'], s1, nf):
                    lvf = nf.this.f(name, ft)
                    if ft['k'] == 'ref':
                        if '%s::%s' % (t['name'], name) in self.config.get('ref_members', ()) and isinstance(v, LVal):
                            # the member is an alias of the object it was bound to
                            self.reftab.append(self.canon(s2, v))
                            self.store(s2, lvf, z3.IntVal(len(self.reftab) - 1))
                            nxt.append(s2)
                            continue
                        v = self.val(s2, v)
                    else:
                        v = self.val(s2, v)
                    if isinstance(v, tuple) and v[0] == 'newref':
                        v = v[1]
                    if not z3.is_expr(v):
                        try:
                            v = self.term(s2, v)
                        except Unsupported:
                            v = self.fresh('opq_' + name, self.sort(ft))
                            self.assumed.add('field %s holds an untracked value' % name)
                    self.store(s2, lvf, self.convert(s2, v, ft))
                    nxt.append(s2)
            sts = nxt
        return sts

    # ------------------------------------------------------------ contract calls
    def mkctx(self, f, pre, post, fr, this, args, result=None):
        am = {}
        for p, a in zip(f['params'], args):
            am[p['id']] = a
        c = Ctx(self, f, pre, post, fr, result, this, am)
        return c

    def clauses(self, x, ctx):
        if x is None:
            return []
        r = x(ctx)
        out = []
        for i, c in enumerate(r if isinstance(r, (list, tuple)) and not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], str)) else [r]):
            if isinstance(c, tuple):
                out.append((c[0], unwrap(c[1])))
            else:
                out.append(('%d' % i, unwrap(c)))
        return out

    def apply_contract(self, s, fr, f, c, this, args, e):
        self.called_contracts.add(c.label)
        if c.trusted:
            self.assumed.add('assumed contract: ' + c.label + (' (%s)' % c.trusted if isinstance(c.trusted, str) else ''))
        if c.handler:
            r = c.handler(self, s, fr, e, this, args)
            if r is not None:
                return r
        # materialise arguments
        mats = []
        for p, a in zip(f['params'], args):
            t = self.ty(p['t'])
            if t['k'] == 'ref':
                a = self.canon(s, a) if isinstance(a, LVal) else a
                if z3.is_expr(a):
                    a = self.convert(s, a, self.ty(t['to']))
                mats.append(a)
            else:
                v = self.val(s, a)
                if isinstance(v, PyPtr):
                    lvp = self.canon(s, v.lv)
                    if lvp.root[0] == 'h' and not lvp.path:
                        v = icast(lvp.root[2])
                mats.append(self.convert(s, v, t) if z3.is_expr(v) else v)
        pre = s.copy()
        ctx = self.mkctx(f, pre, s, fr, this, mats)
        for n, cond in self.clauses(c.requires, ctx):
            self.oblige(s, 'precondition', cond, e.get('l', '') if e else '', 'pre(%s).%s' % (c.label.split('::')[-1], n))
        out = []
        normal = s
        conds = []
        for exc, cond in (c.throws(ctx) if c.throws else []):
            cond = unwrap(cond)
            ts = s.copy()
            ts.assume(cond)
            if feasible(ts.pc):
                ts.trace.append('%s throws %s' % (f['q'], exc))
                self.throws.append((ts, exc))
            conds.append(cond)
        if c.may_throw:
            self.throws.append((s.copy(), c.may_throw if isinstance(c.may_throw, str) else '?'))
        for cond in conds:
            normal.assume(z3.Not(cond))
        if conds and not feasible(normal.pc):
            return out
        # effects
        rt = self.ty(f['ret'])
        modthis = this is not None and not f.get('cm') and not f.get('static')
        if c.modifies is not None:
            modthis = 'this' in c.modifies
        if modthis:
            fs = c.modifies.get('this') if isinstance(c.modifies, dict) else None
            cur = self.load(normal, this)
            if fs is None or fs is True:
                self.store(normal, this, self.fresh('this', cur.sort()))
            else:
                for fn_ in fs:
                    v = rget(self.S, cur, fn_)
                    cur = rset(self.S, cur, fn_, self.fresh('this_' + fn_, v.sort()))
                self.store(normal, this, cur)
        for p, a in zip(f['params'], mats):
            t = self.ty(p['t'])
            if t['k'] == 'ref' and not self.ty(t['to']).get('const') and isinstance(a, LVal):
                if c.modifies is not None and p['name'] not in c.modifies:
                    continue
                if t.get('rv'):
                    continue
                cur = self.load(normal, a)
                if z3.is_expr(cur):
                    self.store(normal, a, self.fresh(p['name'], cur.sort()))
        for hk in c.heap_mod:
            for tt in self.tu.types:
                if tt['k'] == 'rec' and re.fullmatch(hk, unconst(tt['s'])) and unconst(tt['s']) not in normal.heap:
                    self.heap(normal, unconst(tt['s']))
                    self.heap(pre, unconst(tt['s']))
            for key in list(normal.heap):
                if re.search(hk, key):
                    normal.heap[key] = self.fresh('heap', normal.heap[key].sort())
        if c.heap_mod:
            nr = self.fresh('nref', I)
            normal.assume(nr >= normal.nref)
            normal.nref = nr
        ctx.post = normal
        res = None
        if c.ref:
            res = c.ref(ctx)
        elif rt['k'] == 'void' or f.get('ctor'):
            res = None
        elif rt['k'] == 'ref':
            v = self.fresh('ret', self.sort(rt))
            res = self.tmp(normal, v, self.ty(rt['to']))
        else:
            res = self.fresh('ret_' + f['q'].split('::')[-1], self.sort(rt))
            self.range_fact(normal, res, rt)
        ctx._res = res
        for n, cond in self.clauses(c.ensures, ctx):
            normal.assume(cond)
        out.append((normal, res))
        return out

    # ---------------------------------------------------------------- statements
    def ex(self, n, st, fr):
        """-> [(state, outcome)], outcome None|('ret',v)|('break',)|('continue',)"""
        if n is None:
            return [(st, None)]
        m = getattr(self, 'ex_' + n['k'], None)
        if m is None:
            raise Unsupported('%s %s at %s' % (n['k'], n.get('what', ''), n.get('l')))
        return m(n, st, fr)

    def ex_Block(self, n, st, fr):
        live, done = [st], []
        nthr = len(self.throws or [])
        for c in n['c']:
            nxt = []
            for s in live:
                for s2, oc in self.ex(c, s, fr):
                    if oc is None:
                        nxt.append(s2)
                    else:
                        done.append((s2, oc))
            live = self.merge_states(nxt)
        out = [(s, None) for s in live] + done
        cls = self.config.get('scoped_dtors')
        if cls:
            out = self.run_dtors(n, out, nthr, fr, cls)
        return out

    def run_dtors(self, n, out, nthr, fr, cls):
        """the destructors of the block's own objects, in reverse order, on every way out of it"""
        vs = [(v['id'], self.ty(v['t'])) for c in n['c'] if c and c['k'] == 'Decl' for v in c['vars'] if 'unsupported' not in v and self.ty(v['t']).get('name') in cls]
        for vid, t in reversed(vs):
            key = (fr.id, vid)
            ds = [f for f in self.tu.functions.values() if f['q'] == t['name'] + '::{dtor}' and 'body' in f]
            if not ds:
                raise Unsupported('no destructor of %s' % t['name'])

            def run(s):
                v = s.env.get(key)
                if v is None:
                    return [s]
                r = [s2 for s2, _ in self.inline(s, fr, ds[0], LVal(('v', key), (), t), [])]
                for x in r:
                    x.env.pop(key, None)
                return r
            o2 = []
            for s, oc in out:
                if oc and oc[0] == 'ret' and isinstance(oc[1], LVal) and fr.fn and self.ty(fr.fn['ret'])['k'] != 'ref':
                    oc = ('ret', self.val(s, oc[1]))
                o2 += [(s2, oc) for s2 in run(s)]
            out = o2
            thr = self.throws[nthr:]
            del self.throws[nthr:]
            self.throws += [(s2, x) for s, x in thr for s2 in run(s)]
        return out

    def merge_states(self, sts):
        return sts

    def ex_Nop(self, n, st, fr):
        return [(st, None)]

    def ex_Expr(self, n, st, fr):
        return [(s, None) for s, _ in self.ev(n['e'], st, fr)]

    def ex_Decl(self, n, st, fr):
        sts = [st]
        for v in n['vars']:
            if 'unsupported' in v:
                raise Unsupported('declaration ' + v['unsupported'])
            nxt = []
            t = self.ty(v['t'])
            key = (fr.id, v['id'])
            for s in sts:
                if v.get('static'):
                    self.varinfo[key] = (v['name'], t)
                    mk = self.config.get('static_locals', {}).get(v['name'])
                    if mk:
                        s.env[key] = mk(self, s)
                    else:
                        s.env[key] = Opaque('static ' + v['name'])
                    nxt.append(s)
                    continue
                if 'init' not in v:
                    self.varinfo[key] = (v['name'], t)
                    s.env[key] = self.fresh('uninit_' + v['name'], self.sort(t))
                    nxt.append(s)
                    continue
                for s2, x in self.ev(v['init'], s, fr):
                    self.bind_var(s2, key, v['name'], t, x)
                    nxt.append(s2)
            sts = nxt
        return [(s, None) for s in sts]

    def bind_var(self, s, key, name, t, x):
        if t['k'] == 'ref':
            if isinstance(x, LVal):
                s.env[key] = RefBind(self.canon(s, x))
                self.varinfo[key] = (name, self.ty(t['to']))
                return
            self.varinfo[key] = (name, self.ty(t['to']))
            s.env[key] = x
            return
        self.varinfo[key] = (name, t)
        v = self.val(s, x)
        if isinstance(v, tuple) and v[0] == 'newref':
            v = v[1]
        s.env[key] = self.convert(s, v, t) if z3.is_expr(v) else v

    def split(self, s, cond):
        """-> [(state, bool)] feasible outcomes"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(s, True)]
        if z3.is_false(c):
            return [(s, False)]
        out = []
        s1 = s.copy()
        s1.assume(cond)
        f1 = feasible(s1.pc)
        s.assume(z3.Not(cond))
        f0 = feasible(s.pc)
        if f1:
            out.append((s1, True))
        if f0:
            out.append((s, False))
        return out

    def ex_If(self, n, st, fr):
        out = []
        sts = [st]
        if n.get('init'):
            sts = [s for s, _ in self.ex(n['init'], st, fr)]
        if n.get('cv'):
            sts = [s2 for s in sts for s2, _ in self.ex(n['cv'], s, fr)]
        for s0 in sts:
            for s, c in self.ev(n['cond'], s0, fr):
                c = self.tobool(s, c)
                for s1, b in self.split(s, c):
                    out += self.ex(n['then'] if b else n['else'], s1, fr)
        return out

    def ex_Return(self, n, st, fr):
        if n['e'] is None:
            return [(st, ('ret', None))]
        return [(s, ('ret', v)) for s, v in self.ev(n['e'], st, fr)]

    def ex_Break(self, n, st, fr):
        return [(st, ('break',))]

    def ex_Continue(self, n, st, fr):
        return [(st, ('continue',))]

    def ex_Switch(self, n, st, fr):
        items = []
        body = n['body']['c'] if n['body']['k'] == 'Block' else [n['body']]
        flat = []
        for c in body:
            labels = []
            while c is not None and c['k'] in ('Case', 'Default'):
                labels.append(c['v'] if c['k'] == 'Case' else None)
                c = c['sub']
            flat.append((labels, c))
        out = []
        for s, v in self.rv(n['cond'], st, fr):
            rest = s
            starts = []
            default = None
            for idx, (labels, c) in enumerate(flat):
                for l in labels:
                    if l is None:
                        default = idx
                        continue
                    (s_, lv), = self.rv(l, rest, fr)
                    starts.append((idx, v == lv))
            neg = []
            for idx, cond in starts:
                s1 = rest.copy()
                for x in neg:
                    s1.assume(z3.Not(x))
                s1.assume(cond)
                neg.append(cond)
                if feasible(s1.pc):
                    out += self.run_switch(flat, idx, s1, fr)
            s1 = rest
            for x in neg:
                s1.assume(z3.Not(x))
            if feasible(s1.pc):
                if default is not None:
                    out += self.run_switch(flat, default, s1, fr)
                else:
                    out.append((s1, None))
        return out

    def run_switch(self, flat, idx, s, fr):
        live, done = [s], []
        for labels, c in flat[idx:]:
            nxt = []
            for x in live:
                for s2, oc in self.ex(c, x, fr):
                    if oc is None:
                        nxt.append(s2)
                    elif oc[0] == 'break':
                        done.append((s2, None))
                    else:
                        done.append((s2, oc))
            live = nxt
        return [(x, None) for x in live] + done

    def ex_Try(self, n, st, fr):
        saved = self.throws
        self.throws = []
        try:
            out = self.ex(n['body'], st, fr)
            thrown = self.throws
        finally:
            self.throws = saved
        for s, exc in thrown:
            handled = False
            for h in n['handlers']:
                if 'var' in h:
                    ht = self.tu.strip(self.ty(h['var']['t']))
                    if not self.exc_matches(exc, ht.get('name', ht['s'])):
                        continue
                    key = (fr.id, h['var']['id'])
                    s.env[key] = Opaque('exception')
                    self.varinfo[key] = (h['var']['name'], ht)
                s.ghost['$rethrow'] = exc
                out += self.ex(h['body'], s, fr)
                handled = True
                break
            if not handled:
                self.throws.append((s, exc))
        return out

    HIER = {'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error', 'std::length_error': 'std::logic_error',
            'std::domain_error': 'std::logic_error', 'std::logic_error': 'std::exception', 'std::range_error': 'std::runtime_error',
            'std::runtime_error': 'std::exception', 'std::bad_alloc': 'std::exception', 'std::bad_function_call': 'std::exception',
            'Elements::Exception': 'std::exception', 'std::system_error': 'std::runtime_error', 'boost::bad_get': 'std::exception',
            'std::overflow_error': 'std::runtime_error', 'std::underflow_error': 'std::runtime_error'}

    def exc_matches(self, exc, handler):
        x = exc
        while x:
            if x == handler:
                return True
            if x in self.HIER:
                x = self.HIER[x]
            else:
                b = [self.ty(i)['name'] for r in self.tu.records.values() if r.get('name') == x for i in r.get('bases', [])]
                x = b[0] if b else None
        return False

    # -------------------------------------------------------------------- loops
    def ex_While(self, n, st, fr):
        return self.loop(n, st, fr, lambda s: self.ev(n['cond'], s, fr), lambda s: self.ex(n['body'], s, fr), lambda s: [s])

    def ex_For(self, n, st, fr):
        out = []
        for s, oc in self.ex(n['init'], st, fr):
            cond = (lambda s: self.ev(n['cond'], s, fr)) if n['cond'] else (lambda s: [(s, z3.BoolVal(True))])
            inc = (lambda s: [x for x, _ in self.ev(n['inc'], s, fr)]) if n['inc'] else (lambda s: [s])
            out += self.loop(n, s, fr, cond, lambda s: self.ex(n['body'], s, fr), inc)
        return out

    def ex_Do(self, n, st, fr):
        # body; while(cond) body
        out = []
        for s, oc in self.ex(n['body'], st, fr):
            if oc is None or oc[0] == 'continue':
                out += self.loop(n, s, fr, lambda s: self.ev(n['cond'], s, fr), lambda s: self.ex(n['body'], s, fr), lambda s: [s])
            elif oc[0] == 'break':
                out.append((s, None))
            else:
                out.append((s, oc))
        return out

    def ex_RangeFor(self, n, st, fr):
        out = []
        rt = self.tu.strip(self.ty(n['rt']))
        if (rt['k'] == 'rec' and rt['name'] in VECLIKE) or rt['k'] == 'array':
            for s, r in self.ev(n['range'], st, fr):
                if isinstance(r, Opaque):
                    raise Unsupported('range over unknown')
                cont = self.canon(s, self.lv(s, r, rt))
                el = self.ty(rt['el']) if rt['k'] == 'array' else self.tu.targ(rt, 0)
                key = (fr.id, 'rf%s_%d' % (n['var']['id'], next(Frame._n)))
                self.varinfo[key] = ('$idx', self.size_t())
                s.env[key] = z3.IntVal(0)

                def cond(s, key=key, cont=cont):
                    return [(s, s.env[key] < vlen(self.load(s, cont)))]

                def body(s, key=key, cont=cont, el=el):
                    vk = (fr.id, n['var']['id'])
                    elv = cont.i(s.env[key], el)
                    vt = self.ty(n['var']['t'])
                    if vt['k'] == 'ref' and unconst(self.tu.strip(vt)['s']) == unconst(el['s']):
                        self.bind_var(s, vk, n['var']['name'], vt, elv)
                    else:
                        v = self.load(s, elv)
                        t2 = self.tu.strip(vt)
                        s.env[vk] = self.convert(s, v, t2)
                        self.varinfo[vk] = (n['var']['name'], t2)
                    return self.ex(n['body'], s, fr)

                def inc(s, key=key):
                    s.env[key] = s.env[key] + 1
                    return [s]
                out += self.loop(n, s, fr, cond, body, inc)
            return out
        if rt['k'] == 'rec' and (rt['name'] in MAPLIKE or rt['name'] in SETLIKE):
            return self.std.rangefor_map(self, n, st, fr, rt)
        # user-defined range: use clang's desugaring
        sts = [s for s, _ in self.ex(n['rangestmt'], st, fr)]
        sts = [s2 for s in sts for s2, _ in self.ex(n['begin'], s, fr)]
        sts = [s2 for s in sts for s2, _ in self.ex(n['end'], s, fr)]
        for s in sts:
            def body(s):
                res = []
                for s2, oc in self.ex({'k': 'Decl', 'vars': [n['var']]}, s, fr):
                    res += self.ex(n['body'], s2, fr)
                return res
            out += self.loop(n, s, fr, lambda s: self.ev(n['cond'], s, fr), body, lambda s: [x for x, _ in self.ev(n['inc'], s, fr)])
        return out

    def size_t(self):
        for t in self.tu.types:
            if t['k'] == 'int' and t['bits'] == 64 and not t['signed'] and not t.get('const'):
                return t
        return {'k': 'int', 'bits': 64, 'signed': False, 's': 'unsigned long'}

    def loop(self, n, st, fr, condf, bodyf, incf):
        r = self.try_unroll(n, st, fr, condf, bodyf, incf)
        if r is not None:
            return r
        return self.inv_loop(n, st, fr, condf, bodyf, incf)

    def try_unroll(self, n, st, fr, condf, bodyf, incf, limit=10):
        """complete unrolling when every condition is decided"""
        nob = len(self.obls)
        nthr = len(self.throws)
        ninv = self.ninvloops
        out = []
        live = [st.copy()]
        for it in range(limit):
            nxt = []
            for s in live:
                for s1, c in condf(s):
                    c = self.tobool(s1, c)
                    cs = z3.simplify(c)
                    if z3.is_true(cs) or (not z3.is_false(cs) and quick_valid(s1.pc, c)):
                        for s2, oc in bodyf(s1):
                            if oc is None or oc[0] == 'continue':
                                nxt += incf(s2)
                            elif oc[0] == 'break':
                                out.append((s2, None))
                            else:
                                out.append((s2, oc))
                    elif z3.is_false(cs) or quick_valid(s1.pc, z3.Not(c)):
                        out.append((s1, None))
                    else:
                        del self.obls[nob:]
                        del self.throws[nthr:]
                        return None
            live = nxt
            if not live:
                return out
            if len(live) > 12 or (it >= 2 and len(live) > 1 and self.ninvloops > ninv):
                break
        del self.obls[nob:]
        del self.throws[nthr:]
        return None

    def diffpaths(self, a, b, prefix=()):
        if a.eq(b):
            return []
        s = a.sort()
        if s.name() in self.S.fields and self.S.fields[s.name()]:
            out = []
            for f in self.S.fields[s.name()]:
                out += self.diffpaths(z3.simplify(rget(self.S, a, f)), z3.simplify(rget(self.S, b, f)), prefix + (f,))
            return out
        if self.S.is_vec(s):
            out = []
            if not z3.simplify(vlen(a)).eq(z3.simplify(vlen(b))):
                out.append(prefix + ('#len',))
            if not z3.simplify(varr(a)).eq(z3.simplify(varr(b))):
                out.append(prefix + ('#arr',))
            return out
        if z3.simplify(a).eq(z3.simplify(b)):
            return []
        return [prefix]

    def havoc(self, t, paths, name):
        for p in paths:
            t = self.havoc1(t, p, name)
        return t

    def havoc1(self, t, p, name):
        if not p:
            return self.fresh(name, t.sort())
        if p[0] == '#len':
            return mkvec(t.sort(), self.fresh(name + '_len', I), varr(t))
        if p[0] == '#arr':
            return mkvec(t.sort(), vlen(t), self.fresh(name + '_arr', varr(t).sort()))
        return rset(self.S, t, p[0], self.havoc1(rget(self.S, t, p[0]), p[1:], name + '_' + p[0]))

    def peel(self, base, new):
        """stores on top of base: list of refs, or None"""
        refs = []
        x = new
        while not x.eq(base):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE:
                refs.append(x.arg(1))
                x = x.arg(0)
            else:
                return None
        return refs

    def symbols(self, e):
        out, stack, seen = set(), [e], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                stack.extend(x.children())
            elif z3.is_quantifier(x):
                stack.append(x.body())
        return out

    def state_diff(self, h, b, mods, headsyms):
        """accumulate into mods what changed from head state h to back-edge state b"""
        changed = False
        for key, v in h.env.items():
            w = b.env.get(key)
            if w is v:
                continue
            mk = ('env', key)
            if z3.is_expr(v) and z3.is_expr(w):
                for p in self.diffpaths(v, w):
                    if p not in mods.setdefault(mk, []):
                        mods[mk].append(p)
                        changed = True
            elif isinstance(v, PyIter) and isinstance(w, PyIter):
                if not z3.simplify(icast(v.idx)).eq(z3.simplify(icast(w.idx))):
                    if ('#idx',) not in mods.setdefault(mk, []):
                        mods[mk].append(('#idx',))
                        changed = True
            elif isinstance(v, PyMapIter) and isinstance(w, PyMapIter):
                if not (v.key.eq(w.key) and v.valid.eq(w.valid)):
                    if ('#mi',) not in mods.setdefault(mk, []):
                        mods[mk].append(('#mi',))
                        changed = True
            elif isinstance(v, RefBind) and isinstance(w, RefBind):
                if v.lv.root != w.lv.root or str(v.lv.path) != str(w.lv.path):
                    # a reference declared inside the body is rebound each iteration; outside it cannot be
                    if ('#ref',) not in mods.setdefault(mk, []):
                        mods[mk].append(('#ref',))
                        changed = True
            elif type(v) is type(w):
                pass
            else:
                if ('#ref',) not in mods.setdefault(mk, []):
                    mods[mk].append(('#ref',))
                    changed = True
        for key in b.heap:
            w = b.heap[key]
            v = h.heap.get(key)
            if v is None:
                v = z3.Const('heap0_' + re.sub(r'\W+', '_', key), w.sort())
            if v.eq(w):
                continue
            refs = self.peel(v, w)
            mk = ('heap', key)
            cur = mods.setdefault(mk, [])
            if '*' in cur:
                continue
            if refs is None or any(not (self.symbols(r) <= headsyms) for r in refs):
                mods[mk] = ['*']
                changed = True
                continue
            for r in refs:
                pr = self.diffpaths(z3.simplify(z3.Select(v, r)), z3.simplify(z3.Select(w, r)))
                for p in pr:
                    if not any(r.eq(r2) and p == p2 for r2, p2 in cur):
                        cur.append((r, p))
                        changed = True
        if h.nref is not None and not h.nref.eq(b.nref):
            if ('nref',) not in mods:
                mods[('nref',)] = True
                changed = True
        return changed

    def havoc_state(self, st, mods):
        h = st.copy()
        for mk, ps in mods.items():
            if mk[0] == 'env':
                key = mk[1]
                v = h.env[key]
                name = str(self.varinfo.get(key, ('v',))[0])
                if ('#ref',) in ps:
                    del h.env[key]
                    continue
                if z3.is_expr(v):
                    h.env[key] = self.havoc(v, ps, name)
                    t = self.varinfo.get(key, (None, None))[1]
                    self.range_fact(h, h.env[key], t)
                elif isinstance(v, PyIter):
                    h.env[key] = PyIter(v.cont, self.fresh(name + '_idx', I), v.elty, v.rev)
                elif isinstance(v, PyMapIter):
                    h.env[key] = PyMapIter(v.cont, self.fresh(name + '_key', v.key.sort()), self.fresh(name + '_valid', B),
                                           self.fresh(name + '_pos', I) if v.pos is not None else None)
            elif mk[0] == 'heap':
                key = mk[1]
                cur = self.heap(h, key)
                if '*' in ps:
                    h.heap[key] = self.fresh('heap', cur.sort())
                else:
                    byref = []
                    for r, p in ps:
                        for e in byref:
                            if e[0].eq(r):
                                e[1].append(p)
                                break
                        else:
                            byref.append((r, [p]))
                    for r, pp in byref:
                        h.heap[key] = z3.Store(h.heap[key], r, self.havoc(z3.Select(h.heap[key], r), pp, 'heapobj'))
            elif mk[0] == 'nref':
                nr = self.fresh('nref', I)
                h.assume(nr >= h.nref)
                h.nref = nr
        return h

    def backedges(self, s0, condf, bodyf, incf, want_exits=False):
        back, exits, outs = [], [], []
        for s, c in condf(s0.copy()):
            c = self.tobool(s, c)
            for s1, b in self.split(s, c):
                if not b:
                    exits.append(s1)
                    continue
                for s2, oc in bodyf(s1):
                    if oc is None or oc[0] == 'continue':
                        back += incf(s2)
                    elif oc[0] == 'break':
                        outs.append((s2, None))
                    else:
                        outs.append((s2, oc))
        return back, exits, outs

    ninvloops = 0
    light = 0   # conf 'light': loops inside the loop whose frame or built-in candidates are being found go without invariants (weaker, so sound)

    def inv_loop(self, n, st, fr, condf, bodyf, incf):
        outer = self.loop_linear   # a loop within this one sets its own
        try:
            return self.inv_loop_(n, st, fr, condf, bodyf, incf)
        finally:
            self.loop_linear = outer

    def inv_loop_(self, n, st, fr, condf, bodyf, incf):
        self.ninvloops += 1
        # 1. what does the loop modify?
        mods = {}
        self.dry += 1
        saved_throws = self.throws
        self.throws = []
        try:
            conf_light = bool(core.CONF.get('light'))
            self.light += conf_light
            for _ in range(8):
                H = self.havoc_state(st, mods)
                headsyms = set()
                for v in list(st.env.values()):
                    if z3.is_expr(v):
                        headsyms |= self.symbols(v)
                for v in st.heap.values():
                    headsyms |= self.symbols(v)
                for v in st.env.values():
                    if isinstance(v, RefBind) and v.lv.root[0] == 'h':
                        headsyms |= self.symbols(v.lv.root[2])
                if fr.this is not None and fr.this.root[0] == 'h':
                    headsyms |= self.symbols(fr.this.root[2])
                back, _, _ = self.backedges(H, condf, bodyf, incf)
                ch = False
                for b in back:
                    ch |= self.state_diff(H, b, mods, headsyms)
                if not ch:
                    break
            else:
                self.light -= conf_light
                raise Unsupported('modified set does not stabilise')
            self.light -= conf_light
            if self.light:
                H = self.havoc_state(st, mods)
                back, exits, outs = self.backedges(H, condf, bodyf, incf)
                return [(s, None) for s in exits] + outs
            # 2. candidate invariants
            k = self.fresh('iter', I)
            entry = st.copy()
            H0 = self.havoc_state(st, mods)
            H0.assume(k >= 0)
            self.loop_linear = set()
            self.light += conf_light
            keep, names = self.houdini(n, entry, H0, fr, k, mods, condf, bodyf, incf, None)
            self.light -= conf_light
            lin = set()
            for mk in mods:
                if mk[0] == 'env':
                    nm = self.varinfo.get(mk[1], ('v',))[0]
                    if any(('%s#%s=entry%sk' % (nm, i, sg)) in keep for i in ('', 'idx') for sg in '+-'):
                        lin.add(mk[1])
            self.loop_linear = lin
            keep, names = self.houdini(n, entry, H0, fr, k, mods, condf, bodyf, incf, keep)
        finally:
            self.dry -= 1
            self.throws = saved_throws
        # 3. final pass, recording obligations
        for nm, t, req in names:
            if nm in keep and not self.dry:
                o = Obligation('%s/loop-invariant.%s.entry' % (self.cur, nm), 'invariant', n.get('l', ''), [], z3.BoolVal(True))
                o.func, o.status, o.backend = self.cur, 'proved', 'z3 (houdini)'
                o2 = Obligation('%s/loop-invariant.%s.preserved' % (self.cur, nm), 'invariant', n.get('l', ''), [], z3.BoolVal(True))
                o2.func, o2.status, o2.backend = self.cur, 'proved', 'z3 (houdini)'
                self.obls += [o, o2]
        dropped = [nm for nm, t, req in names if nm not in keep and req is True]
        self.loopinfo.append({'loc': n.get('l', '').split('/')[-1], 'kept': keep, 'dropped_required': dropped,
                              'kept_required': sum(1 for nm, t, req in names if req and nm in keep)})
        H = H0.copy()
        cur = {nm: t for nm, t, _ in self.candidates(n, entry, H0, H, fr, k, mods, condf)}
        for nm in keep:
            if cur.get(nm) is not None:
                H.assume(cur[nm])
        for h in self.loop_hints(n, entry, H0, H, fr, k, mods):
            H.assume(h)
        back, exits, outs = self.backedges(H, condf, bodyf, incf)
        return [(s, None) for s in exits] + outs

    loop_linear = frozenset()

    def houdini(self, n, entry, H0, fr, k, mods, condf, bodyf, incf, generic):
        """largest inductive subset of the candidates; generic=None: only the built-in ones"""
        stage = generic is None

        def cands(st, kk):
            return self.candidates(n, entry, H0, st, fr, kk, mods, condf, stage)
        names = cands(entry, z3.IntVal(0))
        keep = list(generic or [])
        for nm, t, req in names:
            if t is None or nm in keep or (not stage and not req):
                continue
            if self.hvalid(entry.pc, t, req):
                keep.append(nm)
        rounds = 0
        while True:
            rounds += 1
            if rounds > 25:
                raise Unsupported('invariant inference does not converge')
            H = H0.copy()
            cur = {nm: t for nm, t, _ in cands(H, k)}
            for nm in keep:
                if cur.get(nm) is not None:
                    H.assume(cur[nm])
            self.throws = []
            back, _, _ = self.backedges(H, condf, bodyf, incf)
            drop = set()
            for b in back:
                for nm, t, req in cands(b, k + 1):
                    if nm in keep and nm not in drop and not (generic and nm in generic):
                        if t is None or not self.hvalid(b.pc, t, req):
                            drop.add(nm)
            if not drop:
                return keep, names
            keep = [x for x in keep if x not in drop]

    def loop_hints(self, n, entry, H0, st, fr, k, mods):
        c = self.cur_contract
        f = getattr(c, 'loop_hints', None) if c else None
        return []

    def hvalid(self, pc, t, req):
        if isinstance(t, bool):
            return t
        ts = z3.simplify(t)
        if z3.is_true(ts):
            return True
        if z3.is_false(ts):
            return False
        fs = list(pc) + [core.neg_goal(t)]
        fs += unfold(fs, core.CONF['fuel'])
        r, _ = core._z3_check(fs, 3000 if req else 1000)
        if r == z3.unsat:
            return True
        if req == 'weak':
            return False
        why = core.LAST_REASON[0]
        if r == z3.unknown and req and core.ground_unsat(pc, core.neg_goal(t), core.CONF['fuel']):
            return True
        core.LAST_REASON[0] = why
        if r == z3.unknown and req and 'incomplete' not in core.LAST_REASON[0]:
            return core._cvc5_check(fs, 6000) == 'unsat'
        if r == z3.unknown and req:
            r, _ = core._z3_check(fs, 2000, mbqi=True)
            if r == z3.unknown and 'incomplete' not in core.LAST_REASON[0]:
                return core._cvc5_check(fs, 4000) == 'unsat'
            return r == z3.unsat
        return False

    def candidates(self, n, entry, H0, st, fr, k, mods, condf, generic_only=False):
        """[(name, term, required)] evaluated in state st with iteration count k"""
        out = []
        st = st.copy()
        ve = View(self, entry, fr, z3.IntVal(0), None, self.fnctx, mods)
        v = View(self, st, fr, k, ve, self.fnctx, mods)
        # generic: linear counters, bounds from the loop condition
        for mk, ps in mods.items():
            if mk[0] != 'env' or mk[1] not in st.env:
                continue
            nm = '%s' % (self.varinfo.get(mk[1], ('v',))[0])
            cur, e0 = st.env[mk[1]], entry.env.get(mk[1])
            if z3.is_expr(cur) and cur.sort() == I and z3.is_expr(e0):
                out.append(('%s#=entry+k' % nm, cur == e0 + k, False))
                out.append(('%s#=entry-k' % nm, cur == e0 - k, False))
                out.append(('%s#>=0' % nm, cur >= 0, False))
                out.append(('%s#>=entry' % nm, cur >= e0, False))
                out.append(('%s#<=entry' % nm, cur <= e0, False))
            elif isinstance(cur, PyIter):
                out.append(('%s#idx=entry+k' % nm, cur.idx == e0.idx + k, False))
                out.append(('%s#idx=entry-k' % nm, cur.idx == e0.idx - k, False))
                out.append(('%s#idx>=0' % nm, cur.idx >= 0, False))
                try:
                    ln = vlen(self.val(st, cur.cont))
                    out.append(('%s#idx<=len' % nm, cur.idx <= ln, False))
                except Exception:
                    pass
            elif z3.is_expr(cur) and self.S.is_vec(cur.sort()):
                if ('#len',) in ps:
                    out.append(('%s#len=entry+k' % nm, vlen(cur) == vlen(e0) + k, False))
                    out.append(('%s#len>=0' % nm, vlen(cur) >= 0, False))
            elif z3.is_expr(cur) and cur.sort() == B:
                out.append(('%s#true' % nm, cur, False))
                out.append(('%s#false' % nm, z3.Not(cur), False))
            elif z3.is_expr(cur) and cur.sort().name() in self.S.fields:
                whole = () in ps
                for p in (list(ps) + [(g,) for g in self.S.fields[cur.sort().name()]] if whole else ps):
                    if len(p) == 1 and p[0] in self.S.fields[cur.sort().name()]:
                        a, b = rget(self.S, cur, p[0]), rget(self.S, e0, p[0])
                        out.append(('%s.%s#=entry' % (nm, p[0]), a == b, False))
                        if a.sort() == I:
                            out.append(('%s.%s#=entry+k' % (nm, p[0]), a == b + k, False))
                            out.append(('%s.%s#=entry-k' % (nm, p[0]), a == b - k, False))
                            out.append(('%s.%s#>=0' % (nm, p[0]), a >= 0, False))
                    elif len(p) == 2 and p[1] == '#len':
                        a, b = rget(self.S, cur, p[0]), rget(self.S, e0, p[0])
                        out.append(('%s.%s#len=entry+k' % (nm, p[0]), vlen(a) == vlen(b) + k, False))
        for i, (a, b, op) in enumerate(self.cond_bounds(n, st, fr)):
            if op in ('<', '!='):
                out.append(('cond%d#<=' % i, a <= b, False))
            if op in ('>', '!='):
                out.append(('cond%d#>=' % i, a >= b, False))
            if op == '<=':
                out.append(('cond%d#<=+1' % i, a <= b + 1, False))
            if op == '>=':
                out.append(('cond%d#>=-1' % i, a >= b - 1, False))
        if n['k'] == 'RangeFor':
            for nm, key, val in v.vars():
                pass
        c = self.cur_contract
        if c is not None and c.inv is not None and not generic_only:
            try:
                for nm, t in c.inv(v):   # '?...': one of several alternatives, given up quickly
                    out.append((nm, unwrap(t), 'weak' if nm[:1] == '?' else True))
            except MissingAnchor:
                raise
        for f in self.config.get('inv_templates', []) if not generic_only else []:
            for nm, t in f(v):
                out.append((nm, unwrap(t), True))
        # k-range for RangeFor hidden index
        for mk in mods:
            if mk[0] == 'env' and mk[1] in st.env and self.varinfo.get(mk[1], ('',))[0] == '$idx':
                rng = self.hidden_len(n, st, fr)
                if rng is not None:
                    out.append(('$idx#<=len', st.env[mk[1]] <= rng, False))
        seen, uniq = {}, []
        for nm, t, req in out:
            seen[nm] = seen.get(nm, 0) + 1
            uniq.append((nm if seen[nm] == 1 else '%s (%d)' % (nm, seen[nm]), t, req))
        return uniq

    def hidden_len(self, n, st, fr):
        try:
            self.dry += 1
            sv = self.throws
            self.throws = []
            r = self.ev(n['range'], st.copy(), fr)
            if len(r) == 1:
                v = self.val(*r[0])
                if z3.is_expr(v) and self.S.is_vec(v.sort()):
                    return vlen(v)
        except (Unsupported, KeyError, AttributeError):
            return None
        finally:
            self.dry -= 1
            self.throws = sv
        return None

    def cond_bounds(self, n, st, fr):
        """[(lhs, rhs, op)] integer comparisons that are conjuncts of the loop condition"""
        out = []

        def walk(c):
            if c is None:
                return
            if c['k'] == 'Bin' and c['op'] == '&&':
                walk(c['c'][0])
                walk(c['c'][1])
            elif c['k'] == 'Bin' and c['op'] in ('<', '>', '!=', '<=', '>='):
                self.dry += 1
                sv = self.throws
                self.throws = []
                try:
                    r = self.evs(c['c'], st.copy(), fr)
                    if len(r) == 1:
                        s, (a, b) = r[0]
                        a, b = self.val(s, a), self.val(s, b)
                        if isinstance(a, PyIter) and isinstance(b, PyIter):
                            out.append((icast(a.idx), icast(b.idx), c['op']))
                        elif z3.is_expr(a) and z3.is_expr(b) and a.sort() == I and b.sort() == I:
                            out.append((a, b, c['op']))
                except (Unsupported, KeyError, z3.Z3Exception):
                    pass
                finally:
                    self.dry -= 1
                    self.throws = sv
            elif c['k'] == 'Call' and c.get('oper') in ('!=', '<', '>') and c.get('c') is not None:
                ops = ([c['obj']] if 'obj' in c else []) + c['c']
                self.dry += 1
                sv = self.throws
                self.throws = []
                try:
                    r = self.evs(ops, st.copy(), fr)
                    if len(r) == 1 and len(ops) == 2:
                        s, (a, b) = r[0]
                        a, b = self.val(s, a), self.val(s, b)
                        if isinstance(a, PyIter) and isinstance(b, PyIter) and not a.rev:
                            out.append((icast(a.idx), icast(b.idx), c['oper']))
                except (Unsupported, KeyError, z3.Z3Exception):
                    pass
                finally:
                    self.dry -= 1
                    self.throws = sv
        walk(n.get('cond') if n['k'] != 'RangeFor' else None)
        return out

    # ------------------------------------------------------------ verify a function
    def verify(self, f, c, budget=None):
        """generate and discharge all obligations of function f against contract c"""
        self.cur = c.label
        self.light = 0
        self.cur_contract = c
        self.obls = []
        self.throws = []
        self.inlined = set()
        self.loopinfo = []
        self.deadline = time.time() + (budget or 240)
        st = St()
        st.nref = z3.Int('nref0')
        st.assume(st.nref > 0)
        fr = Frame(f, None)
        args = []
        params = []
        for p in f['params']:
            t = self.ty(p['t'])
            key = (fr.id, p['id'])
            tt = self.tu.strip(t)
            if t['k'] == 'ref' and tt['k'] == 'rec' and any(re.search(x, unconst(tt['s'])) for x in self.config.get('ref_params', ())):
                # a reference to an object of a polymorphic class: an arbitrary live heap object
                r = z3.Int('%s_ref' % (p['name'] or 'arg'))
                st.assume(r > 0)
                st.assume(r < st.nref)
                lvp = LVal(('h', self.heapkey(tt), r), (), tt)
                st.env[key] = RefBind(lvp)
                self.varinfo[key] = (p['name'], tt)
                args.append(lvp)
                continue
            v = self.param_value(st, p, tt)
            st.env[key] = v
            self.varinfo[key] = (p['name'], tt)
            if z3.is_expr(v):
                self.range_fact(st, v, tt)
            if t['k'] == 'ref' and z3.is_expr(v):
                args.append(LVal(('v', key), (), tt))
            else:
                args.append(v)
        this = None
        if 'cls' in f and not f.get('static'):
            t = self.ty(f['cls'])
            if c.this_type:   # a base-class method run on an object of this derived class
                t = [x for x in self.tu.types if x['k'] == 'rec' and re.search(c.this_type, x['s']) and not x.get('const')][0]
            if c.setup == 'heapthis':
                r = z3.Int('this_ref')
                st.assume(r > 0)
                st.assume(r < st.nref)
                this = LVal(('h', self.heapkey(t), r), (), t)
            else:
                key = (fr.id, 'this')
                st.env[key] = z3.Const('this', self.sort(t))
                if not f.get('ctor'):
                    self.range_fact(st, st.env[key], t)
                self.varinfo[key] = ('this', t)
                this = LVal(('v', key), (), t)
            fr.this = this
        if callable(c.setup):
            c.setup(self, st, fr, f)
        pre = st.copy()
        ctx = self.mkctx(f, pre, pre, fr, this, args)
        self.fnctx = ctx
        for nm, cond in self.clauses(c.requires, ctx):
            st.assume(cond)
        for nm, cond in self.clauses(c.assume_pre, ctx):
            st.assume(cond)
        for h in (c.lemmas(ctx) if c.lemmas else []):
            if not isinstance(h, LemmaInst):
                raise TypeError('hint is not a lemma instance')
            st.assume(h.term)
        # facts the precondition evaluation may have added (ranges)
        st.pc += [x for x in pre.pc if not any(x.eq(y) for y in st.pc)]
        pre.pc = list(st.pc)
        self.pre_pc = list(st.pc)
        r, _ = core._z3_check(st.pc + unfold(st.pc, 2), 5000)
        if r == z3.unsat:
            o = Obligation('%s/precondition-satisfiable' % self.cur, 'vacuity', f.get('l', ''), [], z3.BoolVal(False))
            o.status, o.func = 'refuted', self.cur
            self.obls.append(o)
            return self.obls
        self.cover = 0
        outs = self.exec_fn(st, fr, f)
        thr = self.throws
        hints = []
        tcl = [(e, unwrap(cd)) for e, cd in (c.throws(ctx) if c.throws else [])]
        for s, v in outs:
            ctx2 = self.mkctx(f, pre, s, fr, this, args, v)
            loc = f.get('l', '')
            hs = [h for h in (c.hints(ctx2) if c.hints else [])]
            for h in hs:
                if not isinstance(h, LemmaInst):
                    raise TypeError('hint is not a lemma instance')
                if not h.only:
                    s.pc.append(h.term)
            s.pc += [x for x in pre.pc if not any(x is y or x.eq(y) for y in s.pc)]
            if not c.may_throw:
                for e, cd in tcl:
                    self.oblige(s, 'postcondition', z3.Not(cd), loc, 'post.throws-%s-when-required' % e.split('::')[-1])
            if c.ref:
                want = c.ref(ctx2)
                if not isinstance(v, LVal):
                    raise Unsupported('reference result expected')
                self.same_lv(s, v, want, loc)
            for nm, cond in self.clauses(c.ensures, ctx2):
                n0 = len(s.pc)
                s.pc += [h.term for h in hs if h.only and nm in h.only]
                self.oblige(s, 'postcondition', cond, loc, 'post.' + nm)
                del s.pc[n0:]
            # frame: const this is untouched
            if this is not None and f.get('cm'):
                a, b = self.load(pre, this), self.load(s, this)
                mf = c.modifies.get('this') if isinstance(c.modifies, dict) else None
                if mf:   # mutable members the contract allows to change
                    for fn_ in self.S.fields.get(a.sort().name(), []):
                        if fn_ not in mf:
                            x, y = rget(self.S, a, fn_), rget(self.S, b, fn_)
                            if not x.eq(y):
                                self.oblige(s, 'frame', x == y, loc, 'frame.this.' + fn_)
                elif not a.eq(b):
                    self.oblige(s, 'frame', a == b, loc, 'frame.this')
        for s, exc in thr:
            s.pc += [x for x in pre.pc if not any(x is y or x.eq(y) for y in s.pc)]
            if c.on_throw:
                for nm, cond in self.clauses(c.on_throw, self.mkctx(f, pre, s, fr, this, args, None)):
                    n0 = len(s.pc)
                    self.oblige(s, 'postcondition', cond, f.get('l', ''), 'post-on-throw.' + nm)
                    del s.pc[n0:]
            if c.may_throw:
                continue
            ok = [cd for e, cd in tcl if e == exc or self.exc_matches(exc, e)]
            for h in (c.hints(self.mkctx(f, pre, s, fr, this, args, None)) if c.hints and getattr(c, 'hints_on_throw', False) else []):
                s.pc.append(h.term)
            self.oblige(s, 'postcondition', z3.Or(*ok) if ok else z3.BoolVal(False), f.get('l', ''),
                        'post.throws-%s-only-when-allowed' % str(exc).split('::')[-1])
        self.nreturn, self.nthrow = len(outs), len(thr)
        return self.obls

    def param_value(self, st, p, tt):
        if tt['k'] == 'rec' and tt['name'] in ('std::function',):
            return z3.Const(p['name'] or 'fn', self.sort(tt))
        mk = self.config.get('param_models', {}).get(tt.get('name'))
        if mk:
            return mk(self, st, p, tt)
        if tt['k'] == 'rec' and tt['name'] == '__gnu_cxx::__normal_iterator':
            raise Unsupported('iterator parameter')
        return z3.Const(p['name'] or ('arg%d' % p['id']), self.sort(tt))

    def same_lv(self, s, v, want, loc):
        v, want = self.canon(s, v), self.canon(s, want)
        if v.root[0] != want.root[0] or len(v.path) != len(want.path) or (v.root[0] == 'v' and v.root[1] != want.root[1]) or \
                (v.root[0] == 'h' and v.root[1] != want.root[1]):
            self.oblige(s, 'postcondition', z3.BoolVal(False), loc, 'post.refers-to-the-specified-element')
            return
        goals = []
        if v.root[0] == 'h':
            goals.append(v.root[2] == want.root[2])
        for a, b in zip(v.path, want.path):
            if a[0] != b[0]:
                goals.append(z3.BoolVal(False))
            elif a[0] == 'f':
                goals.append(z3.BoolVal(a[1] == b[1]))
            else:
                goals.append(icast(a[1]) == icast(b[1]))
        self.oblige(s, 'postcondition', z3.And(*goals) if goals else z3.BoolVal(True), loc, 'post.refers-to-the-specified-element')


QUOT = z3.Function('QUOT', R, R, R)   # real division where the contract module keeps it abstract (config quot)


class LemmaInst:
    def __init__(self, lemma, term):
        self.lemma, self.term = lemma, term
        self.only = None

    def at(self, *names):
        """for the postconditions of these names alone"""
        self.only = names
        return self


class Lemma:
    """A statement over spec functions, proved once (optionally by induction) and then instantiated.

    vars: [(name, sort)], hyp/concl: functions of the vars; induct: index of the Int variable
    (hyp must not constrain it except through `ih_hyp`)."""

    def __init__(self, name, vars, concl, hyp=None, induct=None, base=0, using=None, down=False, fuel=None):
        self.fuel = fuel
        self.name, self.vars, self.concl, self.hyp, self.induct, self.base = name, vars, concl, hyp, induct, base
        self.using = using

    def stmt(self, *a):
        h = self.hyp(*a) if self.hyp else z3.BoolVal(True)
        return z3.Implies(h, self.concl(*a))

    def __call__(self, *a):
        a = [icast(unwrap(x)) for x in a]
        if self.induct is not None:
            return LemmaInst(self, z3.Implies(a[self.induct] >= self.base, self.stmt(*a)))
        return LemmaInst(self, self.stmt(*a))

    def forall(self, pat, *a):
        """the lemma for every value of the variables given as None; pat: pattern term(s) from the arguments"""
        qs = []
        for i, (n, so) in enumerate(self.vars):
            if a[i] is None:
                qs.append(z3.FreshConst(so, n))
                a = a[:i] + (qs[-1],) + a[i + 1:]
        a = [icast(unwrap(x)) for x in a]
        body = self(*a).term
        p = pat(*a)
        return LemmaInst(self, z3.ForAll(qs, body, patterns=[p]))

    axiom = False

    def obligations(self):
        if self.axiom:
            return []
        cs = [z3.Const('l_' + n, s) for n, s in self.vars]
        using = lambda *a: [x.term for x in (self.using(*a) if self.using else [])]
        if self.induct is None:
            return [Obligation('lemma.%s' % self.name, 'lemma', '', using(*cs), self.stmt(*cs))]
        i = self.induct
        b = list(cs)
        b[i] = z3.IntVal(self.base)
        nx = list(cs)
        nx[i] = cs[i] + 1
        return [Obligation('lemma.%s.base' % self.name, 'lemma', '', using(*b), self.stmt(*b)),
                Obligation('lemma.%s.step' % self.name, 'lemma', '', [cs[i] >= self.base, self.stmt(*cs)] + using(*nx), self.stmt(*nx))]


# the definition of division; available to contract modules as a lemma
L_QUOT = Lemma('quotient', [('a', R), ('b', R)], lambda a, b: QUOT(a, b) * b == a, hyp=lambda a, b: b != 0)
L_QUOT.axiom = True


def touch(t):
    """puts a term before the solver (the predicate is true of everything)"""
    t = unwrap(t)
    return LemmaInst(None, z3.Function('TOUCH_%s' % re.sub(r'\W', '_', str(t.sort())), t.sort(), z3.BoolSort())(t))
