"""Assumed contracts (models) of the C++ standard library, and of nothing else.

Every entry here is part of the trusted base and is listed as such in the evidence."""
import re
import z3
from .core import *
from . import core
from . import folds

USED = set()


# ----------------------------------------------------------------- array helpers
def fresh_arr(E, s, arr_sort, f, name='arr'):
    """array a with a[i] == f(i) for all i"""
    a = E.fresh(name, arr_sort)
    i = z3.FreshConst(I, 'i')
    s.assume(z3.ForAll([i], z3.Select(a, i) == f(i), patterns=[z3.Select(a, i)]))
    return a


def subvec(E, s, v, lo, hi):
    lo, hi = z3.simplify(icast(lo)), icast(hi)
    if z3.is_int_value(lo) and lo.as_long() == 0:
        return mkvec(v.sort(), hi, varr(v))
    old = varr(v)
    a = fresh_arr(E, s, old.sort(), lambda i: z3.Select(old, i + lo), 'sub')
    folds.ARR_REL[a.get_id()] = (a, old, lo, z3.IntVal(0), hi - lo)
    return mkvec(v.sort(), hi - lo, a)


def elty(E, t):
    t = E.tu.strip(t)
    if t['k'] == 'array':
        return E.ty(t['el'])
    return E.tu.targ(t, 0)


def objty(E, e):
    return E.tu.strip(E.ty(e['cls']))


# ------------------------------------------------------------------- iterators
def cont_val(E, s, it):
    return E.val(s, it.cont)


def iter_pos(E, s, it):
    if it.rev:
        return vlen(cont_val(E, s, it)) - 1 - it.idx
    return it.idx


def iter_deref(E, s, it, node=None):
    v = cont_val(E, s, it)
    i = iter_pos(E, s, it)
    E.oblige(s, 'safety', z3.And(i >= 0, i < vlen(v)), node.get('l', '') if node else '', 'iterator-in-range')
    if isinstance(it.cont, LVal):
        return it.cont.i(i, it.elty)
    r = vget(v, i)
    E.range_fact(s, r, it.elty)
    return r


def iter_add(E, it, n):
    return PyIter(it.cont, z3.simplify(it.idx + n) if z3.is_int_value(z3.simplify(icast(it.idx + n))) else it.idx + n, it.elty, it.rev)


def iter_binop(E, s, op, a, b, e):
    if isinstance(a, PyIter) and isinstance(b, PyIter):
        if op == '-':
            return a.idx - b.idx
        if op in ('==', '!=', '<', '>', '<=', '>='):
            x, y = icast(a.idx), icast(b.idx)
            return {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
    if isinstance(a, PyIter) and op in ('+', '-'):
        b = E.val(s, b)
        return iter_add(E, a, b if op == '+' else -b)
    if isinstance(b, PyIter) and op == '+':
        return iter_add(E, b, E.val(s, a))
    if op in ('==', '!='):
        r = z3.BoolVal(False)
        return r if op == '==' else z3.Not(r)
    raise Unsupported('iterator op ' + op)


def as_range(E, s, b, e):
    """(vec term, lo, hi) of an iterator pair; user iterators via config['iter_view']"""
    b, e = E.val(s, b), E.val(s, e)
    if isinstance(b, PyIter) and isinstance(e, PyIter):
        if b.rev:
            v = cont_val(E, s, b)
            n = vlen(v)
            a = fresh_arr(E, s, varr(v).sort(), lambda i: z3.Select(varr(v), n - 1 - i), 'rev')
            return mkvec(v.sort(), n, a), b.idx, e.idx
        return cont_val(E, s, b), b.idx, e.idx
    if z3.is_expr(b):
        for pat, f in E.config.get('iter_view', {}).items():
            if re.search(pat, b.sort().name()):
                return f(E, s, b, e)
    raise Unsupported('iterator range')


def range_ok(E, s, v, lo, hi, node):
    E.oblige(s, 'safety', z3.And(icast(lo) >= 0, icast(lo) <= icast(hi), icast(hi) <= vlen(v)), node.get('l', ''), 'valid-iterator-range')


# --------------------------------------------------------------------- closures
def apply_fn(E, s, fr, f, args, e):
    """call a callable value; -> [(state, value)]"""
    hook = E.config.get('callable_hook')
    if hook:
        r = hook(E, s, fr, f, args, e)
        if r is not None:
            return r
    f = E.val(s, f)
    if isinstance(f, Closure):
        return E.call_closure(s, f, args)
    if isinstance(f, FuncVal):
        return E.freecall(s, fr, f.node, args)
    if z3.is_expr(f):
        n = f.sort().name()
        a = [E.term(s, x) for x in args]
        if 'std_multiplies' in n:
            return [(s, a[0] * a[1])]
        if 'std_plus' in n:
            return [(s, a[0] + a[1])]
        if 'std_minus' in n:
            return [(s, a[0] - a[1])]
        if 'std_less' in n:
            return [(s, a[0] < a[1])]
        if 'std_greater' in n:
            return [(s, a[0] > a[1])]
        if 'std_function' in n:
            return call_stdfunction(E, s, fr, f, args, e)
    raise Unsupported('callable %s' % (f,))


def call_stdfunction(E, s, fr, f, args, e):
    ts = [E.term(s, a) for a in args]
    ret = E.tu.strip(E.ty(e['ret'])) if 'ret' in e else E.tu.strip(E.ty(e['t']))
    if ret['k'] == 'void':
        return [(s, None)]
    g = z3.Function('apply_' + f.sort().name(), f.sort(), *[t.sort() for t in ts], E.sort(ret))
    return [(s, g(f, *ts))]


def pure_fn(E, s, fr, f, tys, sorts, e):
    """turn a pure callable into a python function on terms"""
    xs = [E.fresh('x', so) for so in sorts]
    s1 = s.copy()
    n0 = len(s1.pc)
    lvs = [E.tmp(s1, x, t) for x, t in zip(xs, tys)]
    E.dry += 1
    sv, E.throws = E.throws, []
    try:
        res = apply_fn(E, s1, fr, f, lvs, e)
        thr = E.throws
    finally:
        E.dry -= 1
        E.throws = sv
    if thr:
        raise Unsupported('throwing callable in algorithm')
    conds = []
    for s2, v in res:
        v = E.val(s2, v)
        conds.append((z3.And(*s2.pc[n0:]) if s2.pc[n0:] else z3.BoolVal(True), v))
    t = conds[-1][1]
    for c, v in reversed(conds[:-1]):
        t = z3.If(c, v, t)

    def fn(*a):
        return z3.substitute(t, *[(x, icast(y)) for x, y in zip(xs, a)])
    return fn


def default_less(E, sort):
    if sort in (I, R):
        return lambda a, b: a < b
    if sort == STR:
        return lambda a, b: a < b
    n = 'less_' + sort.name()
    f = z3.Function(n, sort, sort, B)
    return lambda a, b: f(a, b)


# ------------------------------------------------------------------- construct
def construct(E, s, fr, t, e, args):
    t = E.tu.strip(t)
    n = t.get('name', '')
    USED.add(n + '::{ctor}')
    so = E.sort(t)
    vals = [E.val(s, a) for a in args]
    if n in VECLIKE:
        el = E.tu.targ(t, 0)
        es = E.sort(el)
        pt = [E.tu.strip(E.ty(x)) for x in e['pt']]
        # drop allocator argument
        if pt and pt[-1].get('name') == 'std::allocator':
            vals = vals[:-1]
            pt = pt[:-1]
        if not vals:
            return [(s, E.zero(t))]
        if len(vals) == 1 and pt[0]['k'] == 'int':
            return [(s, mkvec(so, vals[0], z3.K(I, E.zero(el))))]
        if len(vals) == 1:
            v = vals[0]
            if z3.is_expr(v) and E.S.is_vec(v.sort()):
                return [(s, mkvec(so, vlen(v), varr(v)))]
        if len(vals) == 2 and z3.is_expr(vals[0]) and vals[0].sort() == I and pt[0]['k'] == 'int':
            x = E.convert(s, vals[1], el)
            return [(s, mkvec(so, vals[0], z3.K(I, E.term(s, x))))]
        if len(vals) == 2:
            v, lo, hi = as_range(E, s, vals[0], vals[1])
            range_ok(E, s, v, lo, hi, e)
            r = subvec(E, s, v, lo, hi)
            if varr(r).sort().range() != es:
                old = varr(r)
                a = fresh_arr(E, s, z3.ArraySort(I, es), lambda i: conv_elem(E, z3.Select(old, i), es))
                return [(s, mkvec(so, vlen(r), a))]
            return [(s, mkvec(so, vlen(r), varr(r)))]
        raise Unsupported('vector constructor at %s' % e['l'])
    if n == 'std::basic_string':
        if not vals:
            return [(s, z3.StringVal(''))]
        if z3.is_expr(vals[0]) and vals[0].sort() == STR:
            return [(s, vals[0])]
        return [(s, E.fresh('str', STR))]
    if n in PTRLIKE:
        if not vals:
            return [(s, z3.IntVal(0))]
        v = vals[0]
        if isinstance(v, tuple) and v[0] == 'newref':
            return [(s, v[1])]
        if isinstance(v, PyPtr):
            return [(s, E.term(s, v))]
        if z3.is_expr(v) and v.sort() == I:
            if isinstance(args[0], LVal) and e['pt'] and E.ty(e['pt'][0])['k'] == 'ref' and E.ty(e['pt'][0]).get('rv'):
                E.store(s, args[0], z3.IntVal(0))
            return [(s, v)]
    if n == 'std::pair' or n == 'std::tuple':
        fs = E.S.fields[so.name()]
        if len(vals) == len(fs):
            return [(s, so.constructor(0)(*[E.term(s, E.convert(s, v, E.tu.targ(t, i))) for i, v in enumerate(vals)]))]
        if len(vals) == 1 and z3.is_expr(vals[0]) and vals[0].sort().name() in E.S.fields:
            v = vals[0]
            vf = E.S.fields[v.sort().name()]
            return [(s, so.constructor(0)(*[E.convert(s, rget(E.S, v, g), E.tu.targ(t, i)) for i, g in enumerate(vf)]))]
        if not vals:
            return [(s, E.zero(t))]
    if n in MAPLIKE or n in SETLIKE:
        if not vals or all(isinstance(v, Opaque) or (z3.is_expr(v) and 'allocator' in v.sort().name()) for v in vals):
            return [(s, E.zero(t))]
    if n == '__gnu_cxx::__normal_iterator':
        if vals and isinstance(vals[0], PyIter):
            return [(s, vals[0])]
    if n == 'std::reverse_iterator':
        if vals and isinstance(vals[0], PyIter):
            return [(s, vals[0])]
    if n == 'std::list' and not vals:
        return [(s, E.zero(t))]
    if n in ('std::_List_iterator', 'std::_List_const_iterator') and vals:
        return [(s, E.term(s, vals[0]))]
    if n.startswith('std::_Rb_tree') or 'iterator' in n:
        if vals and isinstance(vals[0], (PyMapIter, PyIter)):
            return [(s, vals[0])]
    if n == 'std::function':
        if vals and isinstance(vals[0], (Closure, FuncVal)):
            return [(s, vals[0])]
        if vals and z3.is_expr(vals[0]) and vals[0].sort() == so:
            return [(s, vals[0])]
    if n in ('std::multiplies', 'std::plus', 'std::minus', 'std::less', 'std::greater') or n.startswith('std::') and not vals:
        return [(s, E.fresh('o', so))]
    if t.get('name', '').startswith('std::') and ('exception' in n or 'error' in n or n in E.HIER or 'out_of_range' in n or 'argument' in n):
        return [(s, Opaque(n))]
    if n in E.HIER:
        return [(s, Opaque(n))]
    if any(n.startswith(p) for p in E.config.get('opaque_types', [])):
        return [(s, Opaque(n))]
    if e.get('default') and e.get('trivial') and t['k'] == 'rec':
        uf = E.S.user_fields(t['full'])
        if uf is not None:
            return [(s, E.zero(t) if e.get('zero') else default_member(E, s, t))]
    raise Unsupported('constructor of %s at %s' % (t['s'], e['l']))


def default_member(E, s, t):
    """defaulted default constructor of a user type: class members value-initialised, scalars arbitrary"""
    so = E.sort(t)
    out = []
    for f, ft in E.S.user_fields(t['full']):
        if ft['k'] in ('int', 'float', 'bool', 'ptr', 'enum'):
            out.append(E.fresh('uninit_' + f, E.sort(ft)))
        elif ft['k'] == 'ghost':
            out.append(E.fresh('ghost_' + f, E.sort(ft)))
        else:
            out.append(E.zero(ft))
    return so.constructor(0)(*out) if out else E.fresh('obj', so)


def conv_elem(E, x, es):
    if x.sort() == es:
        return x
    if es == R:
        return E.toreal(x)
    if es == I and x.sort() == B:
        return E.toint(x)
    raise Unsupported('element conversion')


# --------------------------------------------------------------------- methods
def method(E, s, fr, e, o, args):
    cls = E.tu.strip(E.ty(e['cls']))
    n = cls.get('name', '')
    name = e['q'].split('::')[-1]
    USED.add(n + '::' + name)
    hooks = E.config.get('method_hooks', {})
    if (n, name) in hooks:
        r = hooks[(n, name)](E, s, fr, e, o, args)
        if r is not None:
            return r
    ov = E.val(s, o)
    if isinstance(ov, Opaque):
        return [(s, Opaque(name))]
    if isinstance(ov, PyIter):
        return iter_method(E, s, fr, e, o, ov, name, args)
    if isinstance(ov, PyMapIter):
        return mapiter_method(E, s, fr, e, o, ov, name, args)
    if n in VECLIKE:
        return vec_method(E, s, fr, e, o, cls, name, args)
    if n in MAPLIKE or n in SETLIKE:
        return map_method(E, s, fr, e, o, cls, name, args)
    if n == 'std::list':
        return list_method(E, s, fr, e, o, cls, name, args)
    if n in ('std::_List_iterator', 'std::_List_const_iterator'):
        return list_iter_method(E, s, fr, e, o, ov, name, args)
    if n in PTRLIKE or n.startswith('std::__shared_ptr'):
        return ptr_method(E, s, fr, e, o, ov, name, args, cls)
    if n == 'std::basic_string':
        return str_method(E, s, fr, e, o, name, args)
    if n == 'std::function':
        if isinstance(ov, (Closure, FuncVal)):
            return apply_fn(E, s, fr, ov, args, e)
        if name == 'operator()':
            return call_stdfunction(E, s, fr, ov, args, e)
        if name == '{conv}':
            return [(s, E.fresh('fnset', B))]
    if n in ('std::pair', 'std::tuple') and name == 'operator=':
        E.store(s, o, E.val(s, args[0]))
        return [(s, o)]
    if name == 'operator()':
        return apply_fn(E, s, fr, ov, args, e)
    if any(n.startswith(p) for p in E.config.get('opaque_types', [])) or n in E.HIER:
        return [(s, Opaque(name))]
    if n.startswith('std::basic_') and 'stream' in n:
        return [(s, Opaque(name))]
    raise Unsupported('method %s at %s' % (e['q'], e['l']))


def iter_method(E, s, fr, e, o, it, name, args):
    a = [E.val(s, x) for x in args]
    if name == 'operator*':
        return [(s, iter_deref(E, s, it, e))]
    if name == 'operator->':
        return [(s, PyPtr(E.lv(s, iter_deref(E, s, it, e), it.elty)))]
    if name == 'operator[]':
        return [(s, iter_deref(E, s, iter_add(E, it, a[0]), e))]
    if name in ('operator++', 'operator--'):
        new = iter_add(E, it, 1 if name == 'operator++' else -1)
        if isinstance(o, LVal):
            E.store(s, o, new)
        return [(s, it if args else (o if isinstance(o, LVal) else new))]
    if name in ('operator+', 'operator-'):
        if a and isinstance(a[0], PyIter):
            return [(s, it.idx - a[0].idx)]
        return [(s, iter_add(E, it, a[0] if name == 'operator+' else -a[0]))]
    if name in ('operator+=', 'operator-='):
        E.store(s, o, iter_add(E, it, a[0] if name == 'operator+=' else -a[0]))
        return [(s, o)]
    if name == 'operator=':
        E.store(s, o, a[0])
        return [(s, o)]
    if name == 'base':
        return [(s, it)]
    if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
        return [(s, iter_binop(E, s, name[8:], it, a[0], e))]
    raise Unsupported('iterator method ' + name)


def mapiter_deref(E, s, it, node):
    E.oblige(s, 'safety', it.valid, node.get('l', '') if node else '', 'map-iterator-not-end')
    t = E.tu.strip(it.cont.ty)
    if t['name'] in SETLIKE:
        return it.key
    return ('mapent', it.key, it.cont.k(it.key, E.tu.targ(t, 1)))


def mapiter_method(E, s, fr, e, o, it, name, args):
    a = [E.val(s, x) for x in args]
    if name == 'operator*':
        return [(s, mapiter_deref(E, s, it, e))]
    if name == 'operator->':
        E.oblige(s, 'safety', it.valid, e.get('l', ''), 'map-iterator-not-end')
        return [(s, it)]
    if name in ('operator==', 'operator!='):
        return [(s, mapiter_cmp(E, s, name[8:], it, a[0]))]
    if name == 'operator++' and it.key.sort() == I and E.tu.strip(it.cont.ty)['name'] in ('std::map', 'std::set'):
        E.oblige(s, 'safety', it.valid, e.get('l', ''), 'map-iterator-not-end')
        dom = rget(E.S, E.load(s, it.cont), 'dom')
        r, v = E.fresh('next', I), E.fresh('next_valid', B)
        kx = z3.FreshConst(I, 'kx')
        s.assume(z3.Implies(v, z3.And(z3.Select(dom, r), r > it.key, z3.ForAll([kx], z3.Implies(z3.And(z3.Select(dom, kx), kx > it.key), r <= kx), patterns=[z3.Select(dom, kx)]))))
        s.assume(z3.Implies(z3.Not(v), z3.ForAll([kx], z3.Implies(z3.Select(dom, kx), kx <= it.key), patterns=[z3.Select(dom, kx)])))
        new = PyMapIter(it.cont, r, v)
        E.store(s, o, new)
        return [(s, it if args else o)]
    raise Unsupported('map iterator ' + name)


def mapiter_cmp(E, s, op, a, b):
    eq = z3.Or(z3.And(z3.Not(a.valid), z3.Not(b.valid)), z3.And(a.valid, b.valid, a.key == b.key))
    return eq if op == '==' else z3.Not(eq)


def vec_method(E, s, fr, e, o, cls, name, args):
    el = E.tu.targ(cls, 0)
    o = E.canon(s, E.lv(s, o, cls))
    v = E.load(s, o)
    n = vlen(v)
    arr = varr(v)
    loc = e.get('l', '')
    vals = [E.val(s, a) for a in args]

    def elem(i):
        return o.i(i, el)
    if name == 'size':
        return [(s, n)]
    if name == 'empty':
        return [(s, n == 0)]
    if name in ('begin', 'cbegin', 'data'):
        return [(s, PyIter(o, z3.IntVal(0), el))]
    if name in ('end', 'cend'):
        return [(s, PyIter(o, n, el))]
    if name in ('rbegin', 'crbegin'):
        return [(s, PyIter(o, z3.IntVal(0), el, True))]
    if name in ('rend', 'crend'):
        return [(s, PyIter(o, n, el, True))]
    if name == 'operator[]':
        E.oblige(s, 'safety', z3.And(vals[0] >= 0, vals[0] < n), loc, 'vector-index-in-bounds')
        return [(s, elem(vals[0]))]
    if name == 'at':
        t = s.copy()
        t.assume(z3.Not(z3.And(vals[0] >= 0, vals[0] < n)))
        if core.feasible(t.pc):
            t.trace.append('vector::at throws @%s' % loc.split('/')[-1])
            E.throws.append((t, 'std::out_of_range'))
        s.assume(z3.And(vals[0] >= 0, vals[0] < n))
        if not core.feasible(s.pc):
            return []
        return [(s, elem(vals[0]))]
    if name == 'front':
        E.oblige(s, 'safety', n > 0, loc, 'front-of-non-empty')
        return [(s, elem(z3.IntVal(0)))]
    if name == 'back':
        E.oblige(s, 'safety', n > 0, loc, 'back-of-non-empty')
        return [(s, elem(n - 1))]
    if name in ('push_back', 'emplace_back'):
        if name == 'emplace_back' and (len(vals) != 1 or not z3.is_expr(vals[0]) or (z3.is_expr(vals[0]) and conv_fail(E, vals[0], E.sort(el)))):
            x = emplace_value(E, s, fr, el, args, e)
        else:
            x = vals[0]
            if isinstance(args[0], LVal) and E.ty(e['pt'][0]).get('rv') and z3.is_expr(x) and name == 'push_back' and not args[0].root[0] == 't':
                E.moved_from(s, args[0], x)
        x = E.term(s, E.convert(s, x, el)) if z3.is_expr(x) else E.term(s, x)
        if E.sort(el) == I and el['k'] == 'int' and e['pt'] and name == 'emplace_back':
            x = E.wrap_int(s, x, el)
        E.store(s, o, mkvec(v.sort(), n + 1, z3.Store(arr, n, x)))
        return [(s, o.i(n, el))]
    if name == 'pop_back':
        E.oblige(s, 'safety', n > 0, loc, 'pop_back-of-non-empty')
        E.store(s, o, mkvec(v.sort(), n - 1, arr))
        return [(s, None)]
    if name == 'clear':
        E.store(s, o, mkvec(v.sort(), z3.IntVal(0), arr))
        return [(s, None)]
    if name in ('reserve', 'shrink_to_fit'):
        return [(s, None)]
    if name == 'resize':
        m = vals[0]
        fill = E.term(s, vals[1]) if len(vals) > 1 else E.zero(el)
        if z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 0:
            na = z3.K(I, fill)
        elif core.quick_valid(s.pc, m <= n):
            na = arr
        else:
            na = fresh_arr(E, s, arr.sort(), lambda i: z3.If(i < n, z3.Select(arr, i), fill), 'resized')
            folds.ARR_REL[na.get_id()] = (na, arr, z3.IntVal(0), z3.IntVal(0), n)
        E.store(s, o, mkvec(v.sort(), m, na))
        return [(s, None)]
    if name == 'assign':
        if len(vals) == 2 and z3.is_expr(vals[0]) and vals[0].sort() == I:
            E.store(s, o, mkvec(v.sort(), vals[0], z3.K(I, E.term(s, vals[1]))))
            return [(s, None)]
        if len(vals) == 2:
            w, lo, hi = as_range(E, s, vals[0], vals[1])
            range_ok(E, s, w, lo, hi, e)
            r = subvec(E, s, w, lo, hi)
            E.store(s, o, mkvec(v.sort(), vlen(r), varr(r)))
            return [(s, None)]
    if name == 'operator=':
        x = vals[0]
        if z3.is_expr(x) and E.S.is_vec(x.sort()):
            if isinstance(args[0], LVal) and E.ty(e['pt'][0]).get('rv'):
                E.moved_from(s, args[0], x)
            E.store(s, o, x if x.sort() == v.sort() else mkvec(v.sort(), vlen(x), varr(x)))
            return [(s, o)]
    if name == 'swap':
        w = E.load(s, args[0])
        E.store(s, args[0], v)
        E.store(s, o, w)
        return [(s, None)]
    if name == 'fill':
        E.store(s, o, mkvec(v.sort(), n, z3.K(I, E.term(s, vals[0]))))
        return [(s, None)]
    if name == 'erase':
        p = vals[0].idx
        if len(vals) == 1:
            q = p + 1
            E.oblige(s, 'safety', z3.And(p >= 0, p < n), loc, 'erase-in-range')
        else:
            q = vals[1].idx
            E.oblige(s, 'safety', z3.And(p >= 0, p <= q, q <= n), loc, 'erase-in-range')
        d = q - p
        na = fresh_arr(E, s, arr.sort(), lambda i: z3.If(i < p, z3.Select(arr, i), z3.Select(arr, i + d)), 'erased')
        E.store(s, o, mkvec(v.sort(), n - d, na))
        return [(s, PyIter(o, p, el))]
    if name in ('insert', 'emplace'):
        p = vals[0].idx
        E.oblige(s, 'safety', z3.And(icast(p) >= 0, icast(p) <= n), loc, 'insert-in-range')
        if len(vals) == 2:
            x = E.term(s, E.convert(s, vals[1], el)) if z3.is_expr(vals[1]) else None
            if x is None:
                raise Unsupported('insert')
            if x.sort() == arr.sort().range():
                na = fresh_arr(E, s, arr.sort(), lambda i: z3.If(i < p, z3.Select(arr, i), z3.If(i == p, x, z3.Select(arr, i - 1))), 'inserted')
                E.store(s, o, mkvec(v.sort(), n + 1, na))
                return [(s, PyIter(o, p, el))]
        if len(vals) == 3 and not (z3.is_expr(vals[1]) and vals[1].sort() == I and E.tu.strip(E.ty(e['pt'][1]))['k'] == 'int'):
            w, lo, hi = as_range(E, s, vals[1], vals[2])
            range_ok(E, s, w, lo, hi, e)
            d = icast(hi) - icast(lo)
            wa = varr(w)
            if z3.simplify(icast(p)).eq(z3.simplify(n)):
                na = fresh_arr(E, s, arr.sort(), lambda i: z3.If(i < n, z3.Select(arr, i), z3.Select(wa, i - n + lo)), 'appended')
                APPENDED[na.get_id()] = (na, arr, n, wa, lo, hi)
                T_ = z3.BoolVal(True)
                from . import engine
                engine.RELS.setdefault(na.get_id(), []).append((na, arr, z3.IntVal(0), n, z3.IntVal(0), T_))
                engine.RELS[na.get_id()].append((na, wa, n, n + d, icast(lo) - n, T_))
            else:
                na = fresh_arr(E, s, arr.sort(), lambda i: z3.If(i < p, z3.Select(arr, i), z3.If(i < p + d, z3.Select(wa, i - p + lo), z3.Select(arr, i - d))), 'inserted')
            E.store(s, o, mkvec(v.sort(), n + d, na))
            return [(s, PyIter(o, p, el))]
    raise Unsupported('vector::%s at %s' % (name, loc))


APPENDED = {}


def conv_fail(E, x, es):
    return not (x.sort() == es or (es in (I, R, B) and x.sort() in (I, R, B)))


def emplace_value(E, s, fr, el, args, e):
    """value of an element constructed in place"""
    vals = [E.val(s, a) for a in args]
    if el['k'] == 'rec':
        so = E.sort(el)
        n = el['name']
        if n == 'std::type_index' and len(vals) == 1 and isinstance(vals[0], tuple) and vals[0][0] == 'typeid':
            return z3.Int('typeid_std_string' if vals[0][1].startswith('std::basic_string<') else 'typeid_' + vals[0][1])
        if n in ('std::pair', 'std::tuple') and len(vals) == len(el['targs']):
            return so.constructor(0)(*[E.term(s, E.convert(s, v, E.tu.targ(el, i))) for i, v in enumerate(vals)])
        cands = [f for f in E.tu.functions.values() if f.get('ctor') and E.ty(f['cls'])['s'] == unconst(el['s']) and len(f['params']) == len(vals)]
        if len(vals) == 1 and z3.is_expr(vals[0]) and vals[0].sort() == so:
            return vals[0]
        if n in VECLIKE and len(vals) == 1:
            pass
        if len(cands) == 1:
            key = (0, 'obj%d' % next(__import__('itertools').count(10 ** 6 + E.fresh('n', I).get_id())))
            E.varinfo[key] = ('$obj', el)
            s.env[key] = E.fresh('obj', so)
            this = LVal(('v', key), (), el)
            res = E.call_fn(s, fr, cands[0], this, args, {'l': e['l']})
            if len(res) == 1:
                return E.load(res[0][0], this)
    raise Unsupported('emplace of %s at %s' % (el['s'], e['l']))


def ptr_method(E, s, fr, e, o, ov, name, args, cls):
    if name in ('operator->', 'get'):
        return [(s, ov if not isinstance(o, LVal) else o) if False else (s, RefPtr(E, s, o, ov, cls))]
    if name == 'operator*':
        return [(s, E.deref(s, RefPtr(E, s, o, ov, cls), e['obj']))]
    if name == '{conv}':
        return [(s, ov != 0)]
    if name == 'operator=':
        v = E.val(s, args[0])
        if isinstance(v, tuple) and v[0] == 'newref':
            v = v[1]
        v = E.term(s, v)
        if isinstance(args[0], LVal) and E.ty(e['pt'][0]).get('rv'):
            E.store(s, args[0], z3.IntVal(0))
        E.store(s, o, v)
        return [(s, o)]
    if name == 'reset':
        v = E.val(s, args[0]) if args else z3.IntVal(0)
        if isinstance(v, tuple) and v[0] == 'newref':
            v = v[1]
        E.store(s, o, E.term(s, v) if z3.is_expr(v) or isinstance(v, PyPtr) else z3.IntVal(0))
        return [(s, None)]
    if name == 'release':
        E.store(s, o, z3.IntVal(0))
        return [(s, RefPtr(E, s, o, ov, cls))]
    if name in ('use_count',):
        r = E.fresh('use_count', I)
        s.assume(r >= 0)
        return [(s, r)]
    raise Unsupported('smart pointer %s' % name)


def RefPtr(E, s, o, ov, cls):
    """raw pointer with the same reference number"""
    t = E.tu.strip(cls)
    # std::__shared_ptr_access<T,...>::operator-> : element type is targ 0
    pt = E.tu.targ(t, 0)
    if pt.get('k') == 'rec' and z3.is_expr(ov):
        E.oblige(s, 'safety', ov != 0, '', 'no-null-dereference') if False else None
        return PyHeapRef(E, ov, pt)
    return ov


def PyHeapRef(E, ref, pt):
    return PyPtr(LVal(('h', E.heapkey(pt), ref), (), pt))


def str_method(E, s, fr, e, o, name, args):
    v = E.val(s, o)
    if isinstance(v, Opaque):
        return [(s, Opaque('str'))]
    a = [E.val(s, x) for x in args]
    if name in ('size', 'length'):
        return [(s, z3.Length(v))]
    if name == 'empty':
        return [(s, z3.Length(v) == 0)]
    if name == 'c_str' or name == 'data':
        return [(s, v)]
    if name in ('operator[]', 'at'):
        i = a[0]
        if name == 'at':
            t = s.copy()
            t.assume(z3.Not(z3.And(i >= 0, i < z3.Length(v))))
            if core.feasible(t.pc):
                E.throws.append((t, 'std::out_of_range'))
            s.assume(z3.And(i >= 0, i < z3.Length(v)))
        else:
            E.oblige(s, 'safety', z3.And(i >= 0, i <= z3.Length(v)), e['l'], 'string-index-in-bounds')
        return [(s, z3.StrToCode(z3.SubString(v, i, 1)))]
    if name == 'back':
        return [(s, z3.StrToCode(z3.SubString(v, z3.Length(v) - 1, 1)))]
    if name == 'front':
        return [(s, z3.StrToCode(z3.SubString(v, 0, 1)))]
    if name == 'operator=':
        x = a[0]
        E.store(s, o, E.term(s, x) if z3.is_expr(x) and x.sort() == STR else E.fresh('str', STR))
        return [(s, o)]
    if name in ('operator+=', 'append', 'push_back'):
        x = a[0]
        if isinstance(x, Opaque):
            x = E.fresh('str', STR)
        if x.sort() == I:
            x = z3.StrFromCode(x)
        E.store(s, o, z3.Concat(v, x))
        return [(s, o)]
    if name == 'substr':
        p = a[0] if a else z3.IntVal(0)
        l = a[1] if len(a) > 1 else z3.IntVal(2 ** 64 - 1)
        n = z3.Length(v)
        t = s.copy()
        t.assume(p > n)
        if core.feasible(t.pc):
            E.throws.append((t, 'std::out_of_range'))
        s.assume(p <= n)
        if not core.feasible(s.pc):
            return []
        return [(s, z3.SubString(v, p, z3.If(l > n - p, n - p, l)))]
    if name in ('find',):
        x = a[0]
        if x.sort() == I:
            x = z3.StrFromCode(x)
        p = a[1] if len(a) > 1 else z3.IntVal(0)
        r = z3.IndexOf(v, x, p)
        s.assume(z3.Length(v) < 2 ** 63)
        return [(s, z3.If(r < 0, z3.IntVal(2 ** 64 - 1), r))]
    NPOS = z3.IntVal(2 ** 64 - 1)
    if name == 'clear':
        E.store(s, o, z3.StringVal(''))
        return [(s, None)]
    if name == 'pop_back':
        E.oblige(s, 'safety', z3.Length(v) > 0, e['l'], 'string-not-empty')
        E.store(s, o, z3.SubString(v, 0, z3.Length(v) - 1))
        return [(s, None)]
    if name == 'compare' and len(a) == 1:
        r = E.fresh('cmp', I)
        s.assume(z3.And((r == 0) == (v == a[0]), (r < 0) == (v < a[0])))
        return [(s, r)]
    if name == 'rfind' and len(a) == 1:
        x = z3.StrFromCode(a[0]) if a[0].sort() == I else a[0]
        r = E.fresh('rfind', I)
        n, m = z3.Length(v), z3.Length(x)
        i = z3.FreshConst(I, 'i')
        at = lambda p: z3.SubString(v, p, m) == x
        s.assume(z3.Or(z3.And(r == NPOS, z3.Not(z3.Contains(v, x))), z3.And(0 <= r, r + m <= n, at(r), z3.ForAll([i], z3.Implies(z3.And(r < i, i + m <= n), z3.Not(at(i))), patterns=[z3.SubString(v, i, m)]))))
        return [(s, r)]
    if name in ('find_first_not_of', 'find_last_not_of', 'find_first_of', 'find_last_of') and len(a) == 1:
        x = z3.StrFromCode(a[0]) if a[0].sort() == I else a[0]
        r = E.fresh(name, I)
        n = z3.Length(v)
        i = z3.FreshConst(I, 'i')
        ch = lambda p: z3.SubString(v, p, 1)
        hit = (lambda p: z3.Not(z3.Contains(x, ch(p)))) if '_not_' in name else (lambda p: z3.Contains(x, ch(p)))
        rest = (lambda i: z3.And(0 <= i, i < r)) if 'first' in name else (lambda i: z3.And(r < i, i < n))
        s.assume(z3.Or(z3.And(r == NPOS, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Not(hit(i))), patterns=[ch(i)])),
                       z3.And(0 <= r, r < n, hit(r), z3.ForAll([i], z3.Implies(rest(i), z3.Not(hit(i))), patterns=[ch(i)]))))
        return [(s, r)]
    raise Unsupported('string::%s at %s' % (name, e['l']))


# ------------------------------------------------------------------------- maps
def map_method(E, s, fr, e, o, cls, name, args):
    o = E.canon(s, E.lv(s, o, cls))
    m = E.load(s, o)
    S = E.S
    isset = cls['name'] in SETLIKE
    dom = rget(S, m, 'dom')
    n = rget(S, m, 'n')
    kt = E.tu.targ(cls, 0)
    vt = None if isset else E.tu.targ(cls, 1)
    vals = [E.val(s, a) for a in args]
    s.assume(n >= 0)
    def proj(k):
        p = E.S.keyproj.get(kt.get('name'))
        return p[1](E, k) if p and k.sort() != p[0] else k
    if name == 'size':
        return [(s, n)]
    kx = z3.FreshConst(dom.sort().domain(), 'kx')
    if name == 'empty':
        s.assume(z3.Implies(n == 0, z3.ForAll([kx], z3.Not(z3.Select(dom, kx)), patterns=[z3.Select(dom, kx)])))
        return [(s, n == 0)]
    if name in ('begin', 'cbegin') and cls['name'] in ('std::map', 'std::set') and dom.sort().domain() == I:
        r = E.fresh('first', I)
        s.assume(z3.Implies(n == 0, z3.ForAll([kx], z3.Not(z3.Select(dom, kx)), patterns=[z3.Select(dom, kx)])))
        s.assume(z3.Implies(n > 0, z3.And(z3.Select(dom, r), z3.ForAll([kx], z3.Implies(z3.Select(dom, kx), r <= kx), patterns=[z3.Select(dom, kx)]))))
        s.assume(z3.Implies(n == 1, z3.ForAll([kx], z3.Implies(z3.Select(dom, kx), kx == r), patterns=[z3.Select(dom, kx)])))
        it = PyMapIter(o, r, n > 0)
        it.first = m
        return [(s, it)]
    if name in ('end', 'cend'):
        return [(s, PyMapIter(o, E.fresh('k', dom.sort().domain()), z3.BoolVal(False)))]
    if name in ('find', 'count', 'at', 'operator[]'):
        k = proj(E.term(s, vals[0]))
        has = z3.Select(dom, k)
        s.assume(z3.Implies(has, n >= 1))   # cardinality
        if name == 'find':
            return [(s, PyMapIter(o, k, has))]
        if name == 'count':
            return [(s, z3.If(has, z3.IntVal(1), z3.IntVal(0)))]
        if name == 'at':
            t = s.copy()
            t.assume(z3.Not(has))
            if core.feasible(t.pc):
                t.trace.append('map::at throws @%s' % e['l'].split('/')[-1])
                E.throws.append((t, 'std::out_of_range'))
            s.assume(has)
            if not core.feasible(s.pc):
                return []
            return [(s, o.k(k, vt))]
        # operator[] inserts a value-initialised element
        if z3.is_true(z3.simplify(has)) or (E.config.get('map_index_check') and core.quick_valid(s.pc, has)):
            return [(s, o.k(k, vt))]
        nv = z3.If(has, z3.Select(rget(S, m, 'val'), k), E.zero(vt))
        m2 = rset(S, rset(S, rset(S, m, 'dom', z3.Store(dom, k, True)), 'val', z3.Store(rget(S, m, 'val'), k, nv)), 'n', z3.If(has, n, n + 1))
        E.store(s, o, m2)
        return [(s, o.k(k, vt))]
    if isset and name == 'insert' and len(vals) == 2 and getattr(vals[0], 'first', None) is not None and isinstance(vals[1], PyMapIter) and z3.is_false(vals[1].valid):
        # all the elements of another set
        src = vals[0].first
        if not src.eq(E.load(s, vals[1].cont)) or not src.eq(E.load(s, vals[0].cont)):
            raise Unsupported('range of another container')
        sd = rget(S, src, 'dom')
        d2, n2 = E.fresh('joined', dom.sort()), E.fresh('joined_n', I)
        d0, s0 = E.fresh('to_join', dom.sort()), E.fresh('to_join', dom.sort())
        s.assume(z3.And(d0 == dom, s0 == sd))
        dom, sd = d0, s0
        s.assume(z3.ForAll([kx], z3.Select(d2, kx) == z3.Or(z3.Select(dom, kx), z3.Select(sd, kx)), patterns=[z3.Select(d2, kx)]))
        s.assume(z3.ForAll([kx], z3.Implies(z3.Or(z3.Select(dom, kx), z3.Select(sd, kx)), z3.Select(d2, kx)), patterns=[z3.Select(sd, kx), z3.Select(dom, kx)]))
        s.assume(z3.And(n2 >= n, n2 >= rget(S, src, 'n')))
        E.store(s, o, rset(S, rset(S, m, 'dom', d2), 'n', n2))
        return [(s, None)]
    if name in ('emplace', 'insert', 'try_emplace'):
        if isset:
            k = proj(E.term(s, vals[-1]))
            v = None
        else:
            if len(vals) == 1:
                p = vals[0]
                if not z3.is_expr(p):
                    raise Unsupported('map insert')
                k, v = proj(rget(S, p, 'first')), rget(S, p, 'second')
            else:
                k = proj(E.term(s, vals[0]))
                x = vals[1]
                v = E.term(s, E.convert(s, x, vt)) if z3.is_expr(x) else E.term(s, x)
        has = z3.Select(dom, k)
        m2 = rset(S, m, 'dom', z3.Store(dom, k, True))
        m2 = rset(S, m2, 'n', z3.If(has, n, n + 1))
        if not isset:
            m2 = rset(S, m2, 'val', z3.If(has, rget(S, m, 'val'), z3.Store(rget(S, m, 'val'), k, v)))
        E.store(s, o, m2)
        return [(s, ('inserted', PyMapIter(o, k, z3.BoolVal(True)), z3.Not(has)))]
    if name == 'erase':
        x = vals[0]
        if isinstance(x, PyMapIter):
            k = x.key
            E.oblige(s, 'safety', x.valid, e['l'], 'erase-valid-iterator')
        else:
            k = proj(E.term(s, x))
        has = z3.Select(dom, k)
        m2 = rset(S, m, 'dom', z3.Store(dom, k, False))
        m2 = rset(S, m2, 'n', z3.If(has, n - 1, n))
        E.store(s, o, m2)
        return [(s, z3.If(has, z3.IntVal(1), z3.IntVal(0)))]
    if name == 'clear':
        E.store(s, o, E.zero(cls))
        return [(s, None)]
    if name == 'operator=':
        E.store(s, o, vals[0])
        return [(s, o)]
    raise Unsupported('map::%s at %s' % (name, e['l']))


def list_home(E, s, fr):
    h = E.config.get('list_home')
    if h is None:
        raise Unsupported('list iterator of an unknown list')
    return h(E, s, fr)


def list_step(E, s, dom, it, fwd):
    """the neighbouring node (-1: end); stepping forward from -1 is begin(), backward from -1 the last node"""
    r = E.fresh('node', I)
    x = z3.FreshConst(I, 'x')
    if fwd:
        s.assume(z3.Or(z3.And(r == -1, z3.ForAll([x], z3.Implies(z3.And(z3.Select(dom, x), x >= 0), x <= it), patterns=[z3.Select(dom, x)])),
                       z3.And(r >= 0, z3.Select(dom, r), r > it, z3.ForAll([x], z3.Implies(z3.And(z3.Select(dom, x), x > it), x >= r), patterns=[z3.Select(dom, x)]))))
    else:
        s.assume(z3.And(r >= 0, z3.Select(dom, r), z3.Or(it == -1, r < it), z3.ForAll([x], z3.Implies(z3.And(z3.Select(dom, x), z3.Or(it == -1, x < it)), x <= r), patterns=[z3.Select(dom, x)])))
    return r


def list_method(E, s, fr, e, o, cls, name, args):
    o = E.canon(s, E.lv(s, o, cls))
    m = E.load(s, o)
    S = E.S
    dom, n, nxt = rget(S, m, 'dom'), rget(S, m, 'n'), rget(S, m, 'next')
    s.assume(n >= 0)
    if name == 'size':
        return [(s, n)]
    if name == 'empty':
        return [(s, n == 0)]
    if name in ('end', 'cend'):
        return [(s, z3.IntVal(-1))]
    if name in ('begin', 'cbegin'):
        return [(s, list_step(E, s, dom, z3.IntVal(-1), True))]
    if name in ('emplace_back', 'push_back'):
        v = E.term(s, args[0])
        m = rset(S, rset(S, m, 'dom', z3.Store(dom, nxt, True)), 'val', z3.Store(rget(S, m, 'val'), nxt, v))
        E.store(s, o, rset(S, rset(S, m, 'n', n + 1), 'next', nxt + 1))
        return [(s, None)]
    if name == 'erase' and len(args) == 1:
        it = E.term(s, args[0])
        E.oblige(s, 'safety', z3.And(it >= 0, z3.Select(dom, it)), e['l'], 'erase-valid-iterator')
        r = list_step(E, s, dom, it, True)
        E.store(s, o, rset(S, rset(S, m, 'dom', z3.Store(dom, it, False)), 'n', n - 1))
        return [(s, r)]
    if name == 'clear':
        E.store(s, o, rset(S, rset(S, m, 'dom', z3.K(I, z3.BoolVal(False))), 'n', z3.IntVal(0)))
        return [(s, None)]
    if name in ('front', 'back'):
        E.oblige(s, 'safety', n > 0, e['l'], 'list-not-empty')
        r = list_step(E, s, dom, z3.IntVal(-1), name == 'front')
        s.assume(r >= 0)
        return [(s, o.k(r, E.tu.targ(cls, 0)))]
    raise Unsupported('list::%s at %s' % (name, e['l']))


def list_iter_method(E, s, fr, e, o, ov, name, args):
    lst = list_home(E, s, fr)
    m = E.load(s, lst)
    dom = rget(E.S, m, 'dom')
    if name == 'operator*':
        E.oblige(s, 'safety', z3.And(ov >= 0, z3.Select(dom, ov)), e['l'], 'list-iterator-valid')
        return [(s, lst.k(ov, E.tu.targ(E.tu.strip(lst.ty), 0)))]
    if name in ('operator++', 'operator--'):
        fwd = name == 'operator++'
        E.oblige(s, 'safety', z3.And(ov >= 0, z3.Select(dom, ov)) if fwd else z3.Or(ov == -1, z3.Select(dom, ov)), e['l'], 'list-iterator-valid')
        E.store(s, o, list_step(E, s, dom, ov, fwd))
        return [(s, ov if args else o)]
    if name in ('operator==', 'operator!='):
        b = E.term(s, args[0])
        return [(s, ov == b if name == 'operator==' else ov != b)]
    if name == 'operator=':
        E.store(s, o, E.term(s, args[0]))
        return [(s, o)]
    raise Unsupported('list iterator ' + name)


def rangefor_map(E, n, st, fr, rt):
    """iteration over a map/set: keys in some fixed order without repetition, covering exactly the domain"""
    out = []
    S = E.S
    for s, r in E.ev(n['range'], st, fr):
        cont = E.canon(s, E.lv(s, r, rt))
        m = E.load(s, cont)
        dom, cnt = rget(S, m, 'dom'), rget(S, m, 'n')
        ks = dom.sort().domain()
        keyf = z3.Function('keyseq_' + re.sub(r'\W+', '_', str(m.sort())), m.sort(), I, ks)
        posf = z3.Function('keypos_' + re.sub(r'\W+', '_', str(m.sort())), m.sort(), ks, I)
        i = z3.FreshConst(I, 'i')
        kx = z3.FreshConst(ks, 'kx')
        s.assume(cnt >= 0)
        s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < cnt), z3.And(z3.Select(dom, keyf(m, i)), posf(m, keyf(m, i)) == i)), patterns=[keyf(m, i)]))
        s.assume(z3.ForAll([kx], z3.Implies(z3.Select(dom, kx), z3.And(0 <= posf(m, kx), posf(m, kx) < cnt, keyf(m, posf(m, kx)) == kx)), patterns=[z3.Select(dom, kx), posf(m, kx)]))
        small = E.config.get('small_keys')
        if small and ks == I and rt['name'] in ('std::map', 'std::set'):
            # an ordered map whose keys are known to lie in a short list: the body runs once for each present key, in order
            E.oblige(s, 'safety', z3.ForAll([kx], z3.Implies(z3.Select(dom, kx), z3.Or(*[kx == q for q in small])), patterns=[z3.Select(dom, kx)]), n.get('l', ''), 'keys-in-range')
            cur = [s]
            for q in small:
                nxt = []
                for c in cur:
                    for c1, yes in E.split(c, z3.Select(dom, z3.IntVal(q))):
                        if not yes:
                            nxt.append(c1)
                            continue
                        vk = (fr.id, n['var']['id'])
                        E.varinfo[vk] = (n['var']['name'], E.tu.strip(E.ty(n['var']['t'])))
                        c1.env[vk] = z3.IntVal(q) if rt['name'] in SETLIKE else ('mapent', z3.IntVal(q), cont.k(z3.IntVal(q), E.tu.targ(rt, 1)))
                        for b, oc in E.ex(n['body'], c1, fr):
                            if oc is None or oc[0] == 'continue':
                                nxt.append(b)
                            else:
                                out.append((b, None if oc[0] == 'break' else oc))
                cur = nxt
            out += [(c, None) for c in cur]
            continue
        key = (fr.id, 'rf%s_%d' % (n['var']['id'], E.fresh('u', I).get_id()))
        E.varinfo[key] = ('$idx', E.size_t())
        s.env[key] = z3.IntVal(0)

        def cond(s, key=key):
            return [(s, s.env[key] < cnt)]

        def body(s, key=key):
            vk = (fr.id, n['var']['id'])
            k = keyf(m, s.env[key])
            E.varinfo[vk] = (n['var']['name'], E.tu.strip(E.ty(n['var']['t'])))
            if rt['name'] in SETLIKE:
                s.env[vk] = k
            else:
                s.env[vk] = ('mapent', k, cont.k(k, E.tu.targ(rt, 1)))
            return E.ex(n['body'], s, fr)

        def inc(s, key=key):
            s.env[key] = s.env[key] + 1
            return [s]
        out += E.loop(n, s, fr, cond, body, inc)
    return out


def dyncast(E, s, v, e):
    f = E.config.get('dyncast')
    if f:
        return f(E, s, v, e)
    raise Unsupported('dynamic_cast')


# ------------------------------------------------------------------ free functions
MATH1 = {'exp', 'log', 'log10', 'sin', 'cos', 'tan', 'atan', 'erf', 'tgamma', 'asin', 'acos', 'sinh', 'cosh', 'tanh', 'log2', 'cbrt'}


def free(E, s, fr, e, args):
    q = e['q']
    name = q.split('::')[-1]
    USED.add(q)
    loc = e.get('l', '')
    if name in ('is_any_of', 'is_space'):
        return [(s, Opaque(name))]
    hooks = E.config.get('free_hooks', {})
    if q in hooks:
        r = hooks[q](E, s, fr, e, args)
        if r is not None:
            return r
    vals = None
    if name in ('move', 'forward', 'ref', 'cref', 'as_const') and len(args) == 1:
        return [(s, args[0])]
    if name in ('operator<<', 'operator>>', 'endl', 'flush', 'getline'):
        return [(s, Opaque('stream'))]
    if name == '__throw_out_of_range_fmt':
        E.throws.append((s, 'std::out_of_range'))
        return []
    vals = [E.val(s, a) for a in args]
    a = vals
    if name in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'data', 'rbegin', 'rend') and len(args) == 1:
        o = args[0]
        t = E.tu.strip(o.ty) if isinstance(o, LVal) else None
        if t is not None and t['k'] == 'array':
            return [(s, PyIter(o, z3.IntVal(0) if 'begin' in name else z3.IntVal(t['n']), E.ty(t['el'])))]
        if z3.is_expr(a[0]) and E.S.is_vec(a[0].sort()):
            tt = t or E.tu.strip(E.ty(e['pt'][0]))
            return vec_method(E, s, fr, dict(e, cls=tt['id']), o, tt, name, [])
        # user container: call its begin()/end()
        for f in E.tu.functions.values():
            if f['q'].endswith('::' + name.lstrip('c')) and not f['params'] and 'cls' in f and t is not None and \
                    unconst(E.ty(f['cls'])['s']) == unconst(t['s']) and bool(f.get('cm')) == bool(E.ty(E.ty(e['pt'][0])['to']).get('const') if E.ty(e['pt'][0])['k'] == 'ref' else False):
                return E.call_fn(s, fr, f, o, [], dict(e, virtual=False))
    if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
        op = name[8:]
        x, y = a
        if isinstance(x, PyIter) or isinstance(y, PyIter):
            return [(s, iter_binop(E, s, op, x, y, e))]
        if isinstance(x, PyMapIter) and isinstance(y, PyMapIter):
            return [(s, mapiter_cmp(E, s, op, x, y))]
        if isinstance(x, PyPtr) or isinstance(y, PyPtr):
            return [(s, E.ptrcmp(s, op, x, y))]
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            return [(s, E.fresh('cmp', B))]
        if z3.is_expr(x) and z3.is_expr(y):
            if E.S.is_vec(x.sort()) and x.sort() == y.sort():
                if op in ('==', '!='):
                    from .engine import veq
                    q = elem_eq(E, varr(x).sort().range())
                    j = z3.FreshConst(I, 'i')
                    if q(vget(x, j), vget(y, j)).eq(vget(x, j) == vget(y, j)):
                        r = veq(x, y)
                    else:
                        r = z3.And(vlen(x) == vlen(y), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < vlen(x)), q(vget(x, j), vget(y, j)))))
                    return [(s, r if op == '==' else z3.Not(r))]
            elif x.sort() == y.sort():
                if op in ('==', '!='):
                    return [(s, x == y if op == '==' else x != y)]
                if x.sort() == STR:
                    return [(s, {'<': x < y, '<=': x <= y, '>': y < x, '>=': y <= x}[op])]
                if x.sort() in (I, R):
                    return [(s, {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])]
    if name in ('operator-', 'operator+') and len(a) == 2:
        if isinstance(a[0], PyIter) or isinstance(a[1], PyIter):
            return [(s, iter_binop(E, s, name[8:], a[0], a[1], e))]
    if name == 'operator+' and len(a) == 2:
        xs = []
        for x in a:
            if isinstance(x, Opaque):
                x = E.fresh('str', STR)
            if z3.is_expr(x) and x.sort() == I:
                x = z3.StrFromCode(x)
            xs.append(x)
        if all(z3.is_expr(x) and x.sort() == STR for x in xs):
            return [(s, z3.Concat(*xs))]
    if name == 'to_string':
        f = z3.Function('to_string_' + str(a[0].sort()), a[0].sort(), STR)
        return [(s, f(a[0]))]
    if name in ('min', 'max') and len(a) == 2 and z3.is_expr(a[0]) and a[0].sort() in (I, R):
        x, y = a
        return [(s, z3.If(y < x, y, x) if name == 'min' else z3.If(x < y, y, x))]
    if name in ('abs', 'fabs') and len(a) == 1 and z3.is_expr(a[0]):
        return [(s, z3.If(a[0] >= 0, a[0], -a[0]))]
    if name == 'sqrt':
        f = z3.Function('sqrt', R, R)
        x = E.toreal(a[0])
        r = f(x)
        s.assume(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
        return [(s, r)]
    if name in ('floor', 'ceil') and z3.is_expr(a[0]):
        x = E.toreal(a[0])
        n = E.fresh(name, I)
        r = z3.ToReal(n)
        s.assume(z3.And(r <= x, x < r + 1) if name == 'floor' else z3.And(x <= r, r < x + 1))
        return [(s, r)]
    if name == 'pow':
        f = z3.Function('pow', R, R, R)
        x, y = E.toreal(a[0]), E.toreal(a[1])
        ys = z3.simplify(y)
        if z3.is_rational_value(ys) and ys.denominator_as_long() == 1 and 0 <= ys.numerator_as_long() <= 4:
            r = z3.RealVal(1)
            for _ in range(ys.numerator_as_long()):
                r = r * x
            return [(s, r)]
        return [(s, f(x, y))]
    if name in MATH1 and len(a) == 1:
        return [(s, z3.Function('m_' + name, R, R)(E.toreal(a[0])))]
    if name in ('isnan', 'isinf'):
        E.assumed.add('no NaN/infinity (reals)')
        return [(s, z3.BoolVal(False))]
    if name == 'isfinite':
        return [(s, z3.BoolVal(True))]
    if name == 'swap' and len(args) == 2:
        E.store(s, args[0], a[1])
        E.store(s, args[1], a[0])
        return [(s, None)]
    if name == 'make_pair' or name == 'make_tuple':
        rt = E.ty(e['ret'])
        so = E.sort(rt)
        return [(s, so.constructor(0)(*[E.term(s, x) for x in a]))]
    if name == 'get' and q == 'std::get':
        i = int(e['targs'][0]['i']) if 'i' in e['targs'][0] else None
        if i is None:
            raise Unsupported('std::get by type')
        o = args[0]
        t = E.tu.strip(o.ty) if isinstance(o, LVal) else None
        if t is not None and t['name'] in ('std::tuple', 'std::pair'):
            fn = 'e%d' % i if t['name'] == 'std::tuple' else ('first', 'second')[i]
            return [(s, o.f(fn, E.tu.targ(t, i)))]
        if t is not None and t['name'] == 'std::array':
            return [(s, o.i(z3.IntVal(i), E.tu.targ(t, 0)))]
        v = a[0]
        return [(s, rget(E.S, v, E.S.fields[v.sort().name()][i]))]
    if name == 'distance':
        return [(s, iter_binop(E, s, '-', a[1], a[0], e))]
    if name in ('next', 'prev') and isinstance(a[0], PyIter):
        d = a[1] if len(a) > 1 else z3.IntVal(1)
        return [(s, iter_add(E, a[0], d if name == 'next' else -d))]
    if name == 'advance' and isinstance(a[0], PyIter):
        E.store(s, args[0], iter_add(E, a[0], a[1]))
        return [(s, None)]
    if name in ('make_shared', 'make_unique'):
        return make_ptr(E, s, fr, e, args)
    if name in ('static_pointer_cast', 'const_pointer_cast'):
        return [(s, a[0])]
    if q in ALG:
        return ALG[q](E, s, fr, e, args, a)
    if q.startswith('std::numeric_limits::'):
        return limits(E, s, e, name)
    if name == 'addressof' and isinstance(args[0], LVal):
        return [(s, PyPtr(args[0]))]
    raise Unsupported('function %s at %s' % (q, loc))


DBLMAX = z3.Real('DBL_MAX')


def limits(E, s, e, name):
    t = E.tu.strip(E.ty(e['ret']))
    if t['k'] == 'int':
        b = t['bits']
        if name == 'max':
            return [(s, z3.IntVal(2 ** (b - 1) - 1 if t['signed'] else 2 ** b - 1))]
        if name in ('min', 'lowest'):
            return [(s, z3.IntVal(-2 ** (b - 1) if t['signed'] else 0))]
    if t['k'] == 'float':
        if name == 'max':
            s.assume(DBLMAX > 10 ** 308)
            return [(s, DBLMAX)]
        if name == 'lowest':
            s.assume(DBLMAX > 10 ** 308)
            return [(s, -DBLMAX)]
        if name == 'min':
            return [(s, z3.RealVal('1/100000000000000000000000000000000000000000000000000'))]
        if name == 'epsilon':
            return [(s, z3.RealVal('1/4503599627370496'))]
        if name == 'infinity':
            c = z3.Real('INFINITY')
            return [(s, c)]
    raise Unsupported('numeric_limits::' + name)


def make_ptr(E, s, fr, e, args):
    t = E.ty(e['targs'][0]['t'])
    so = E.sort(t)
    vals = [E.val(s, a) for a in args]
    if t['k'] != 'rec':
        raise Unsupported('make_shared of %s' % t['s'])
    if len(vals) == 1 and z3.is_expr(vals[0]) and vals[0].sort() == so:
        return [(s, E.alloc(s, t, vals[0]))]
    if t['name'] in VECLIKE:
        x = construct(E, s, fr, t, dict(e, pt=e['pt'], copy=False, move=False), args)
        return [(s2, E.alloc(s2, t, v)) for s2, v in x]
    # find the unique user constructor that fits
    from .engine import Frame
    cands = []
    for f in E.tu.functions.values():
        if f.get('ctor') and unconst(E.ty(f['cls'])['s']) == unconst(t['s']) and len(f['params']) == len(vals):
            ok = True
            for p, v in zip(f['params'], vals):
                pt = E.tu.strip(E.ty(p['t']))
                if z3.is_expr(v) and E.sort(pt) != v.sort() and conv_fail(E, v, E.sort(pt)):
                    ok = False
            if ok and not f.get('iscopy'):
                cands.append(f)
    if len(cands) > 1:
        ex = [f for f in cands if all(not z3.is_expr(v) or E.sort(E.tu.strip(E.ty(p['t']))) == v.sort() for p, v in zip(f['params'], vals))]
        cands = ex or cands
    if not cands:
        raise Unsupported('constructor for make_shared<%s>' % t['s'])
    f = cands[0]
    m = E.config.get('models', {}).get(f['q'])
    if m:
        r = m(E, s, fr, dict(e, t=t['id'], m=f['m'], q=f['q'], pt=f['pt']), None, args)
        if r is not None:
            return [(s2, v[1] if isinstance(v, tuple) else E.alloc(s2, t, v)) for s2, v in r]
    key = (0, 'mk%d' % next(Frame._n))
    E.varinfo[key] = ('$obj', t)
    s.env[key] = E.fresh('obj', so)
    this = LVal(('v', key), (), t)
    margs = []
    for p, a0, v in zip(f['params'], args, vals):
        margs.append(a0)
        if E.ty(p['t'])['k'] != 'ref' and isinstance(a0, LVal) and z3.is_expr(v):
            # forwarded rvalue reference moves into a by-value parameter
            pass
    res = E.call_fn(s, fr, f, this, margs, {'l': e['l'], 'virtual': False})
    out = []
    for s2, _ in res:
        r = E.alloc(s2, t, E.load(s2, this))
        E.on_new(s2, t, r)
        out.append((s2, r))
    return out


# -------------------------------------------------------------------- algorithms
def alg_accumulate(E, s, fr, e, args, a):
    v, lo, hi = as_range(E, s, a[0], a[1])
    range_ok(E, s, v, lo, hi, e)
    T = E.tu.strip(E.ty(e['pt'][2]))
    init = E.convert(s, a[2], T)
    es = varr(v).sort().range()
    op = None
    if len(a) == 3:
        op = '+'
    elif z3.is_expr(a[3]) and 'std_multiplies' in a[3].sort().name():
        op = '*'
    elif z3.is_expr(a[3]) and 'std_plus' in a[3].sort().name():
        op = '+'
    if op and es in (I, R) and init.sort() in (I, R):
        if init.sort() == I and es == I:
            f = folds.prod() if op == '*' else folds.sumi()
            r = f(varr(v), lo, hi)
            i0 = z3.simplify(init)
            if op == '*':
                r = r if z3.is_int_value(i0) and i0.as_long() == 1 else init * r
            else:
                r = r if z3.is_int_value(i0) and i0.as_long() == 0 else init + r
            if T['k'] == 'int' and T['bits'] < 64:
                # every partial result is truncated to T; truncation commutes with + and *
                r = E.wrap_int(s, r, T)
            return [(s, r)]
        if init.sort() == R:
            f = folds.prodr() if op == '*' else folds.sumr()
            if es == I:
                arr0 = varr(v)
                arr = fresh_arr(E, s, z3.ArraySort(I, R), lambda i: z3.ToReal(z3.Select(arr0, i)))
            else:
                arr = varr(v)
            r = f(arr, lo, hi)
            return [(s, init * r if op == '*' else init + r)]
    # general fold: a loop
    return fold_loop(E, s, fr, e, v, lo, hi, init, T, (lambda s, acc, x: apply_fn(E, s, fr, a[3], [acc, x], e)) if len(a) > 3 else None)


def fold_loop(E, s, fr, e, v, lo, hi, init, T, step):
    if step is None:
        raise Unsupported('accumulate')
    from .engine import Frame
    ak, ik = (fr.id, 'acc%d' % next(Frame._n)), (fr.id, 'it%d' % next(Frame._n))
    el = None
    E.varinfo[ak] = ('$acc', T)
    E.varinfo[ik] = ('$idx', E.size_t())
    s.env[ak], s.env[ik] = init, icast(lo)
    out = []

    def body(s):
        res = []
        x = vget(v, s.env[ik])
        for s2, r in step(s, s.env[ak], x):
            s2.env[ak] = E.convert(s2, E.val(s2, r), T)
            res.append((s2, None))
        return res

    def inc(s):
        s.env[ik] = s.env[ik] + 1
        return [s]
    n = {'k': 'Alg', 'l': e['l']}
    for s2, oc in E.loop(n, s, fr, lambda s: [(s, s.env[ik] < icast(hi))], body, inc):
        out.append((s2, s2.env[ak]))
    return out


def alg_copy(E, s, fr, e, args, a):
    v, lo, hi = as_range(E, s, a[0], a[1])
    range_ok(E, s, v, lo, hi, e)
    d = a[2]
    n = icast(hi) - icast(lo)
    src = varr(v)
    if isinstance(d, PyIter) and isinstance(d.cont, LVal) and not d.rev:
        w = E.load(s, d.cont)
        E.oblige(s, 'safety', z3.And(d.idx >= 0, d.idx + n <= vlen(w)), e['l'], 'copy-destination-in-range')
        old = varr(w)
        di = d.idx
        na = fresh_arr(E, s, old.sort(), lambda i: z3.If(z3.And(i >= di, i < di + n), z3.Select(src, i - di + lo), z3.Select(old, i)), 'copied')
        E.store(s, d.cont, mkvec(w.sort(), vlen(w), na))
        return [(s, iter_add(E, d, n))]
    if isinstance(d, tuple) and d[0] == 'back_inserter':
        w = E.load(s, d[1])
        old, m = varr(w), vlen(w)
        na = fresh_arr(E, s, old.sort(), lambda i: z3.If(i < m, z3.Select(old, i), z3.Select(src, i - m + lo)), 'copied')
        E.store(s, d[1], mkvec(w.sort(), m + n, na))
        return [(s, d)]
    raise Unsupported('std::copy destination')


def alg_find(E, s, fr, e, args, a):
    v, lo, hi = as_range(E, s, a[0], a[1])
    range_ok(E, s, v, lo, hi, e)
    if e['q'] == 'std::find':
        x = E.term(s, a[2])
        es = varr(v).sort().range()
        if x.sort() != es and es in (I, R) and x.sort() in (I, R):
            P = lambda t: E.toreal(t) == E.toreal(x)
        else:
            P = lambda t: t == x
    else:
        p = pure_fn(E, s, fr, a[2], [E.val(s, a[0]).elty], [varr(v).sort().range()], e)
        P = (lambda t: p(t)) if e['q'] == 'std::find_if' else (lambda t: z3.Not(p(t)))
    r = E.fresh('found', I)
    lo, hi = icast(lo), icast(hi)
    i = z3.FreshConst(I, 'i')
    s.assume(z3.And(r >= lo, r <= hi))
    s.assume(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < r), z3.Not(P(vget(v, i))))))
    s.assume(z3.Implies(r < hi, P(vget(v, r))))
    it = E.val(s, a[0])
    return [(s, PyIter(it.cont, r, it.elty))]


def alg_quant(E, s, fr, e, args, a):
    v, lo, hi = as_range(E, s, a[0], a[1])
    range_ok(E, s, v, lo, hi, e)
    p = pure_fn(E, s, fr, a[2], [E.val(s, a[0]).elty], [varr(v).sort().range()], e)
    i = z3.FreshConst(I, 'i')
    rng = z3.And(icast(lo) <= i, i < icast(hi))
    n = e['q'].split('::')[-1]
    if n == 'all_of':
        return [(s, z3.ForAll([i], z3.Implies(rng, p(vget(v, i)))))]
    if n == 'any_of':
        return [(s, z3.Exists([i], z3.And(rng, p(vget(v, i)))))]
    return [(s, z3.Not(z3.Exists([i], z3.And(rng, p(vget(v, i))))))]


def alg_bound(E, s, fr, e, args, a):
    v, lo, hi = as_range(E, s, a[0], a[1])
    range_ok(E, s, v, lo, hi, e)
    lo, hi = icast(lo), icast(hi)
    upper = e['q'] == 'std::upper_bound'
    es = varr(v).sort().range()
    x = E.term(s, a[2])
    if len(a) > 3:
        et = E.val(s, a[0]).elty
        vt = E.tu.strip(E.ty(e['pt'][2]))
        if upper:
            f = pure_fn(E, s, fr, a[3], [vt, et], [x.sort(), es], e)
            goesleft = lambda t: z3.Not(f(x, t))
        else:
            f = pure_fn(E, s, fr, a[3], [et, vt], [es, x.sort()], e)
            goesleft = lambda t: f(t, x)
    else:
        cv = (lambda t: E.toreal(t)) if R in (es, x.sort()) and es in (I, R) else (lambda t: t)
        less = default_less(E, cv(x).sort())
        goesleft = (lambda t: z3.Not(less(cv(x), cv(t)))) if upper else (lambda t: less(cv(t), cv(x)))
    i, j = z3.FreshConst(I, 'i'), z3.FreshConst(I, 'j')
    E.oblige(s, 'safety', z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi, goesleft(vget(v, j))), goesleft(vget(v, i)))),
             e['l'], 'binary-search-on-a-partitioned-range')
    r = E.fresh('bound', I)
    s.assume(z3.And(r >= lo, r <= hi))
    s.assume(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < r), goesleft(vget(v, i)))))
    s.assume(z3.ForAll([i], z3.Implies(z3.And(r <= i, i < hi), z3.Not(goesleft(vget(v, i))))))
    # the two instances callers always need
    s.assume(z3.Implies(r > lo, goesleft(vget(v, r - 1))))
    s.assume(z3.Implies(r < hi, z3.Not(goesleft(vget(v, r)))))
    it = E.val(s, a[0])
    return [(s, PyIter(it.cont, r, it.elty))]


def alg_sort(E, s, fr, e, args, a):
    v, lo, hi = as_range(E, s, a[0], a[1])
    range_ok(E, s, v, lo, hi, e)
    lo, hi = icast(lo), icast(hi)
    it = E.val(s, a[0])
    es = varr(v).sort().range()
    if len(a) > 2:
        less = pure_fn(E, s, fr, a[2], [it.elty, it.elty], [es, es], e)
    else:
        less = default_less(E, es)
    old = varr(v)
    na = E.fresh('sorted', old.sort())
    perm = z3.Function('perm%d' % na.get_id(), I, I)
    inv = z3.Function('permi%d' % na.get_id(), I, I)
    i, j = z3.FreshConst(I, 'i'), z3.FreshConst(I, 'j')
    s.assume(z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi), z3.Not(less(z3.Select(na, j), z3.Select(na, i))))))
    s.assume(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), z3.And(lo <= perm(i), perm(i) < hi, z3.Select(na, i) == z3.Select(old, perm(i)), inv(perm(i)) == i)), patterns=[z3.Select(na, i)]))
    s.assume(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), z3.And(lo <= inv(i), inv(i) < hi, z3.Select(old, i) == z3.Select(na, inv(i)), perm(inv(i)) == i)), patterns=[z3.Select(old, i)]))
    s.assume(z3.ForAll([i], z3.Implies(z3.Or(i < lo, i >= hi), z3.Select(na, i) == z3.Select(old, i)), patterns=[z3.Select(na, i)]))
    # permutation, as equality of multiplicities, for the fold the contracts use
    c = folds.count(es)
    for x in E.config.get('ghost_elems', lambda E, es: [])(E, es):
        s.assume(c(na, x, lo, hi) == c(old, x, lo, hi))
    E.store(s, it.cont, mkvec(v.sort(), vlen(v), na))
    return [(s, None)]


def alg_extreme(E, s, fr, e, args, a):
    v, lo, hi = as_range(E, s, a[0], a[1])
    range_ok(E, s, v, lo, hi, e)
    lo, hi = icast(lo), icast(hi)
    es = varr(v).sort().range()
    if len(a) > 2:
        it0 = E.val(s, a[0])
        less = pure_fn(E, s, fr, a[2], [it0.elty, it0.elty], [es, es], e)
    else:
        less = default_less(E, es)
    if e['q'] == 'std::max_element':
        worse = lambda x, y: less(x, y)      # y better than x
    else:
        worse = lambda x, y: less(y, x)
    r = E.fresh('ext', I)
    i = z3.FreshConst(I, 'i')
    s.assume(z3.And(r >= lo, z3.Or(r < hi, z3.And(lo == hi, r == hi))))
    s.assume(z3.Implies(lo < hi, z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), z3.Not(worse(vget(v, r), vget(v, i)))))))
    s.assume(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < r), worse(vget(v, i), vget(v, r)))))
    it = E.val(s, a[0])
    if isinstance(it, PyIter):
        return [(s, PyIter(it.cont, r, it.elty))]
    mk = E.config.get('iter_at')
    if mk:
        return [(s, mk(E, s, it, r - lo))]
    raise Unsupported('extreme of user iterator')


def alg_transform(E, s, fr, e, args, a):
    v, lo, hi = as_range(E, s, a[0], a[1])
    range_ok(E, s, v, lo, hi, e)
    lo, hi = icast(lo), icast(hi)
    n = hi - lo
    et = E.val(s, a[0]).elty
    es = varr(v).sort().range()
    src = varr(v)
    if len(a) == 4:
        f = pure_fn(E, s, fr, a[3], [et], [es], e)
        g = lambda i: f(z3.Select(src, i))
        d = a[2]
    else:
        b2 = E.val(s, a[2])
        v2 = cont_val(E, s, b2)
        E.oblige(s, 'safety', z3.And(b2.idx >= 0, b2.idx + n <= vlen(v2)), e['l'], 'second-range-in-bounds')
        f = pure_fn(E, s, fr, a[4], [et, b2.elty], [es, varr(v2).sort().range()], e)
        g = lambda i: f(z3.Select(src, i), z3.Select(varr(v2), i - lo + b2.idx))
        d = a[3]
    if isinstance(d, PyIter) and isinstance(d.cont, LVal):
        w = E.load(s, d.cont)
        E.oblige(s, 'safety', z3.And(d.idx >= 0, d.idx + n <= vlen(w)), e['l'], 'transform-destination-in-range')
        old, di = varr(w), icast(d.idx)
        dst_s = old.sort().range()
        na = fresh_arr(E, s, old.sort(), lambda i: z3.If(z3.And(i >= di, i < di + n), conv_elem(E, g(i - di + lo), dst_s), z3.Select(old, i)), 'transformed')
        E.store(s, d.cont, mkvec(w.sort(), vlen(w), na))
        return [(s, iter_add(E, d, n))]
    if isinstance(d, tuple) and d[0] == 'back_inserter':
        w = E.load(s, d[1])
        old, m = varr(w), vlen(w)
        na = fresh_arr(E, s, old.sort(), lambda i: z3.If(i < m, z3.Select(old, i), g(i - m + lo)), 'transformed')
        E.store(s, d[1], mkvec(w.sort(), m + n, na))
        return [(s, d)]
    raise Unsupported('transform destination')


def alg_fill(E, s, fr, e, args, a):
    b, t = a[0], a[1]
    w = E.load(s, b.cont)
    range_ok(E, s, w, b.idx, t.idx, e)
    old = varr(w)
    x = E.convert(s, a[2], b.elty)
    na = fresh_arr(E, s, old.sort(), lambda i: z3.If(z3.And(i >= b.idx, i < t.idx), x, z3.Select(old, i)), 'filled')
    E.store(s, b.cont, mkvec(w.sort(), vlen(w), na))
    return [(s, None)]


def elem_eq(E, sort):
    """C++ equality of two elements of this sort; a class with an operator== of its own needs the meaning its contract states (config elem_eq)"""
    if sort.kind() != z3.Z3_DATATYPE_SORT:
        return lambda x, y: x == y
    for key, so in E.S.cache.items():
        if so == sort:
            for f in E.tu.functions.values():
                if f['q'] == key.split('<')[0] + '::operator==':
                    d = E.config.get('elem_eq', {}).get(f['q'])
                    if d is None:
                        raise Unsupported('elements compared by ' + f['q'])
                    return lambda x, y: d(E, x, y)
    return lambda x, y: x == y


def alg_equal(E, s, fr, e, args, a):
    v, lo, hi = as_range(E, s, a[0], a[1])
    range_ok(E, s, v, lo, hi, e)
    b2 = E.val(s, a[2])
    if len(a) >= 4 and isinstance(E.val(s, a[3]), PyIter):
        w, lo2, hi2 = as_range(E, s, a[2], a[3])
        n = icast(hi) - icast(lo)
        i = z3.FreshConst(I, 'i')
        q = elem_eq(E, varr(v).sort().range())
        return [(s, z3.And(n == icast(hi2) - icast(lo2), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), q(vget(v, i + lo), vget(w, i + lo2))))))]
    if len(a) == 3 and isinstance(b2, PyIter):
        w = cont_val(E, s, b2)
        n = icast(hi) - icast(lo)
        E.oblige(s, 'safety', z3.And(b2.idx >= 0, b2.idx + n <= vlen(w)), e['l'], 'second-range-in-bounds')
        i = z3.FreshConst(I, 'i')
        q = elem_eq(E, varr(v).sort().range())
        return [(s, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), q(vget(v, i + lo), vget(w, i + b2.idx)))))]
    raise Unsupported('std::equal')


def alg_back_inserter(E, s, fr, e, args, a):
    return [(s, ('back_inserter', E.canon(s, args[0])))]


def alg_minmax(E, s, fr, e, args, a):
    r = alg_extreme(E, s, fr, dict(e, q='std::min_element'), args, a)
    out = []
    for s2, lo in r:
        for s3, hi in alg_extreme(E, s2, fr, dict(e, q='std::max_element'), args, a):
            if len(a) == 2:   # minmax_element gives the last of the largest
                v, _, h = as_range(E, s3, a[0], a[1])
                j, i = E.fresh('last', I), z3.FreshConst(I, 'i')
                s3.assume(z3.And(j >= hi.idx, z3.Or(hi.idx == icast(h), z3.And(j < icast(h), vget(v, j) == vget(v, hi.idx)))))
                s3.assume(z3.ForAll([i], z3.Implies(z3.And(j < i, i < icast(h)), vget(v, i) != vget(v, j))))
                hi = PyIter(hi.cont, z3.If(hi.idx == icast(h), hi.idx, j), hi.elty)
            out.append((s3, ('inserted', lo, hi)))
    return out


def alg_for_each(E, s, fr, e, args, a):
    b, t = a[0], a[1]
    if not isinstance(b, PyIter):
        raise Unsupported('for_each')
    from .engine import Frame
    ik = (fr.id, 'it%d' % next(Frame._n))
    E.varinfo[ik] = ('$idx', E.size_t())
    s.env[ik] = icast(b.idx)

    def body(s):
        x = iter_deref(E, s, PyIter(b.cont, s.env[ik], b.elty), e)
        return [(s2, None) for s2, _ in apply_fn(E, s, fr, a[2], [x], e)]

    def inc(s):
        s.env[ik] = s.env[ik] + 1
        return [s]
    return [(s2, None) for s2, oc in E.loop({'k': 'Alg', 'l': e['l']}, s, fr, lambda s: [(s, s.env[ik] < icast(t.idx))], body, inc)]


def alg_iota(E, s, fr, e, args, a):
    b, t = a[0], a[1]
    w = E.load(s, b.cont)
    range_ok(E, s, w, b.idx, t.idx, e)
    old = varr(w)
    x = a[2]
    na = fresh_arr(E, s, old.sort(), lambda i: z3.If(z3.And(i >= b.idx, i < t.idx), x + i - b.idx, z3.Select(old, i)), 'iota')
    E.store(s, b.cont, mkvec(w.sort(), vlen(w), na))
    return [(s, None)]


def alg_is_sorted(E, s, fr, e, args, a):
    v, lo, hi = as_range(E, s, a[0], a[1])
    range_ok(E, s, v, lo, hi, e)
    es = varr(v).sort().range()
    less = default_less(E, es) if len(a) == 2 else pure_fn(E, s, fr, a[2], [a[0].elty] * 2, [es, es], e)
    i, j = z3.FreshConst(I, 'i'), z3.FreshConst(I, 'j')
    return [(s, z3.ForAll([i, j], z3.Implies(z3.And(icast(lo) <= i, i < j, j < icast(hi)), z3.Not(less(vget(v, j), vget(v, i))))))]


ALG = {
    'std::minmax_element': alg_minmax, 'std::accumulate': alg_accumulate, 'std::copy': alg_copy, 'std::find': alg_find, 'std::find_if': alg_find, 'std::find_if_not': alg_find,
    'std::all_of': alg_quant, 'std::any_of': alg_quant, 'std::none_of': alg_quant, 'std::lower_bound': alg_bound, 'std::upper_bound': alg_bound,
    'std::sort': alg_sort, 'std::stable_sort': alg_sort, 'std::max_element': alg_extreme, 'std::min_element': alg_extreme,
    'std::transform': alg_transform, 'std::fill': alg_fill, 'std::equal': alg_equal, 'std::back_inserter': alg_back_inserter,
    'std::for_each': alg_for_each, 'std::iota': alg_iota, 'std::is_sorted': alg_is_sorted,
}
