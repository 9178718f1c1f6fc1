"""names a contract module needs"""
import re
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Exists, IntVal, RealVal, BoolVal, Select, Store, ArraySort
from .core import *
from .engine import (Contract, Lemma, LemmaInst, QUOT, L_QUOT, touch, SV, wrap, unwrap, veq, forall_in, exists_in, View, Ctx)
from .folds import fold, prod, sumi, sumr, prodr, dot, count
from . import core, engine, folds, stdlib

AI = ArraySort(I, I)
AR = ArraySort(I, R)


def arr_eq(a, b, lo, hi, da=0, db=0):
    """a[i+da] == b[i+db] for lo<=i<hi"""
    i = z3.FreshConst(I, 'q')
    a, b, lo, hi = unwrap(a), unwrap(b), icast(lo), icast(hi)
    f = ForAll([i], Implies(And(lo <= i, i < hi), Select(a, i + da) == Select(b, i + db)), patterns=[Select(a, i + da), Select(b, i + db)])
    engine.note_rel(a, b, lo + da, hi + da, db - da, f)
    return f
