"""Folds over array ranges: f(arrs..., extras..., lo, hi) = (+|*)_{lo<=i<hi} g(arrs[i]..., extras...).

The only definitional fact is the right unfolding.  Left unfolding, the frame under a store
outside the range, the shift between an array and its sub-range copy, and splitting are
*lemmas*, each proved by induction on every run (Fold.lemmas()), then instantiated."""
import z3
from .core import *
from . import core, engine
from .engine import Lemma, LemmaInst, unwrap

ALL_FOLDS = {}
ARR_REL = {}     # id of array term -> (new, old, delta, lo, hi): new[i] == old[i+delta] for lo<=i<hi
PRIMARY_ONLY = [False]


class Fold:
    def __init__(self, name, arr_sorts, extra_sorts, ret, op, g):
        self.name, self.arr_sorts, self.extra_sorts, self.ret, self.op, self.g = name, arr_sorts, extra_sorts, ret, op, g
        self.na, self.ne = len(arr_sorts), len(extra_sorts)
        self.unit = {('+', 'Int'): z3.IntVal(0), ('+', 'Real'): z3.RealVal(0), ('*', 'Int'): z3.IntVal(1),
                     ('*', 'Real'): z3.RealVal(1)}[(op, str(ret))]
        self.fn = specfn(name, [z3.ArraySort(I, s) for s in arr_sorts] + list(extra_sorts) + [I, I], ret, self.defn)
        self.used_shift = False
        ALL_FOLDS[name] = self

    def comb(self, a, b):
        return a + b if self.op == '+' else a * b

    def elem(self, arrs, extras, i):
        return self.g(*[z3.Select(a, i) for a in arrs], *extras)

    def __call__(self, *args):
        return self.fn(*[icast(unwrap(a)) for a in args])

    def parts(self, args):
        return args[:self.na], args[self.na:self.na + self.ne], args[-2], args[-1]

    def defn(self, *args):
        arrs, extras, lo, hi = self.parts(list(args))
        me = self.fn(*args)
        out = [me == z3.If(hi <= lo, self.unit, self.comb(self.fn(*arrs, *extras, lo, hi - 1), self.elem(arrs, extras, hi - 1)))]
        if PRIMARY_ONLY[0]:
            return out
        out.append(me == z3.If(hi <= lo, self.unit, self.comb(self.elem(arrs, extras, lo), self.fn(*arrs, *extras, lo + 1, hi))))
        for j, a in enumerate(arrs):
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
                b, i = a.arg(0), a.arg(1)
                na = list(arrs)
                na[j] = b
                out.append(z3.Implies(z3.Or(i < lo, i >= hi), me == self.fn(*na, *extras, lo, hi)))
            for x, y, l, h, d, f in engine.RELS.get(a.get_id(), ()) if self.na == 1 else ():
                if x.eq(a):
                    out.append(z3.Implies(z3.And(f, lo >= l, hi <= h, lo <= hi), me == self.fn(y, *extras, lo + d, hi + d)))
            r = ARR_REL.get(a.get_id())
            if r is not None and self.na == 1:
                _, old, d, l, h = r
                out.append(z3.Implies(z3.And(lo >= l, hi <= h, lo <= hi), me == self.fn(old, *extras, lo + d, hi + d)))
        return out

    # -- lemmas
    def _vars(self):
        return [('a%d' % i, z3.ArraySort(I, s)) for i, s in enumerate(self.arr_sorts)] + [('x%d' % i, s) for i, s in enumerate(self.extra_sorts)]

    def lemmas(self):
        v = self._vars()
        n = len(v)
        f = self.fn
        na, ne = self.na, self.ne
        L = []
        # left unfolding: forall d>=0: f(lo, lo+d+1) = g(a[lo]) (+) f(lo+1, lo+d+1)
        L.append(Lemma(self.name + '.left', v + [('lo', I), ('d', I)],
                       lambda *a: f(*a[:n], a[n], a[n] + a[n + 1] + 1) == self.comb(self.elem(a[:na], a[na:n], a[n]),
                                                                                     f(*a[:n], a[n] + 1, a[n] + a[n + 1] + 1)), induct=n + 1))
        for j in range(na):
            def concl(*a, j=j):
                b = list(a[:n])
                b[j] = z3.Store(b[j], a[n + 2], a[n + 3])
                return f(*b, a[n], a[n] + a[n + 1]) == f(*a[:n], a[n], a[n] + a[n + 1])
            L.append(Lemma(self.name + '.store%d' % j, v + [('lo', I), ('d', I), ('i', I), ('e', self.arr_sorts[j])], concl,
                           hyp=lambda *a: z3.Or(a[n + 2] < a[n], a[n + 2] >= a[n] + a[n + 1]), induct=n + 1))
        if na == 1:
            q = z3.Int('qshift')
            L.append(Lemma(self.name + '.shift', v + [('b', z3.ArraySort(I, self.arr_sorts[0])), ('s', I), ('lo', I), ('d', I)],
                           lambda *a: f(*a[:n], a[n + 2], a[n + 2] + a[n + 3]) == f(a[n], *a[na:n], a[n + 2] + a[n + 1], a[n + 2] + a[n + 3] + a[n + 1]),
                           hyp=lambda *a: z3.ForAll([q], z3.Implies(z3.And(a[n + 2] <= q, q < a[n + 2] + a[n + 3]),
                                                                     z3.Select(a[0], q) == z3.Select(a[n], q + a[n + 1]))), induct=n + 3))
        self.split = Lemma(self.name + '.split', v + [('lo', I), ('mid', I), ('d', I)],
                           lambda *a: f(*a[:n], a[n], a[n + 1] + a[n + 2]) == self.comb(f(*a[:n], a[n], a[n + 1]), f(*a[:n], a[n + 1], a[n + 1] + a[n + 2])),
                           hyp=lambda *a: a[n] <= a[n + 1], induct=n + 2)
        L.append(self.split)
        return L

    def split_at(self, *args):
        """hint: f(lo,hi) = f(lo,mid) (+) f(mid,hi); args = arrs, extras, lo, mid, hi"""
        args = [icast(unwrap(a)) for a in args]
        lo, mid, hi = args[-3:]
        b = args[:-3]
        t = z3.Implies(z3.And(lo <= mid, mid <= hi), self.fn(*b, lo, hi) == self.comb(self.fn(*b, lo, mid), self.fn(*b, mid, hi)))
        return LemmaInst(self, t)

    def shift(self, a, b, s, lo, hi, *extras):
        """instance of the shift lemma: a[q]==b[q+s] on [lo,hi) => equal folds"""
        q = z3.FreshConst(I, 'q')
        a, b, s, lo, hi = [icast(unwrap(x)) for x in (a, b, s, lo, hi)]
        h = z3.ForAll([q], z3.Implies(z3.And(lo <= q, q < hi), z3.Select(a, q) == z3.Select(b, q + s)))
        return LemmaInst(self, z3.Implies(z3.And(lo <= hi, h), self.fn(a, *extras, lo, hi) == self.fn(b, *extras, lo + s, hi + s)))

    def ext(self, a, b, lo, hi, *extras):
        """hint: pointwise equal on [lo,hi) => equal folds (shift lemma with s=0)"""
        q = z3.FreshConst(I, 'q')
        a, b, lo, hi = [icast(unwrap(x)) for x in (a, b, lo, hi)]
        h = z3.ForAll([q], z3.Implies(z3.And(lo <= q, q < hi), z3.Select(a, q) == z3.Select(b, q)))
        return LemmaInst(self, z3.Implies(h, self.fn(a, *extras, lo, hi) == self.fn(b, *extras, lo, hi)))


_memo = {}


def fold(name, arr_sorts, extra_sorts, ret, op, g):
    if name not in _memo:
        _memo[name] = Fold(name, arr_sorts, extra_sorts, ret, op, g)
    return _memo[name]


def prod():
    return fold('prod', [I], [], I, '*', lambda e: e)


def sumi():
    return fold('sumi', [I], [], I, '+', lambda e: e)


def sumr():
    return fold('sumr', [R], [], R, '+', lambda e: e)


def prodr():
    return fold('prodr', [R], [], R, '*', lambda e: e)


def dot():
    return fold('dot', [I, I], [], I, '+', lambda a, b: a * b)


def count(sort):
    return fold('count_' + re.sub(r'\W+', '_', str(sort)), [sort], [sort], I, '+', lambda e, x: z3.If(e == x, z3.IntVal(1), z3.IntVal(0)))


def prove_lemmas(lemmas):
    """discharge lemma obligations using definitions only"""
    out = []
    PRIMARY_ONLY[0] = True
    try:
        for l in lemmas:
            for o in l.obligations():
                o.status, o.backend, o.model = core.valid(o.pc, o.goal, fuel=getattr(l, 'fuel', None) or 2, ms=8000)
                o.func = 'lemma ' + l.name
                out.append(o)
    finally:
        PRIMARY_ONLY[0] = False
    return out
