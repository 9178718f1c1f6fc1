"""PhysicsUtils: cosmological parameters and distances.

sqrt, sin, sinh and log10 are uninterpreted functions (sqrt with its defining square); the numerical integral of 1/E between
two limits is the uninterpreted value INT_E of the cosmology and the limits, returned by the library's integrate() for an
integrand that is shown to be 1/E at every argument."""
from cppvc.api import *
NAME = 'cosmo'
DRIVER = 'drivers/cosmo.cpp'
P = 'Euclid::PhysicsUtils::'
D = P + 'CosmologicalDistances::'
GHOSTS = {}
FOLDS = []
LEMMAS = []
SQRT, SIN, SINH, LOG10 = [z3.Function(n, R, R) for n in ('sqrt', 'm_sin', 'm_sinh', 'm_log10')]
INT_E = z3.Function('INT_E', R, R, R, R, R, R)
TINY = RealVal('1/1000000000000000000000000000000000000000000000000000000000000')


def h_isequal(E, s, fr, e, args):
    a, b = [E.toreal(E.val(s, x)) for x in args]
    r = z3.Function('ISEQ', R, R, B)(a, b)
    s.assume(Implies(a == b, r))
    s.assume(Implies(And(a == 0, r), And(b <= TINY, -b <= TINY)))
    s.assume(Implies(And(b == 0, r), And(a <= TINY, -a <= TINY)))
    return [(s, r)]


def E_of(p, z):
    return SQRT(p.m_omega_m * (1 + z) * (1 + z) * (1 + z) + p.m_omega_k * (1 + z) * (1 + z) + p.m_omega_lambda)


def ok(p):
    return [('omegas-add-up-to-one', p.m_omega_m + p.m_omega_k + p.m_omega_lambda == 1), ('H0>0', p.m_H_0 > 0)]


def h_adapter(E, s, fr, e, this, args):
    """FunctionAdapter holds the function it is given: which must be 1/E of the cosmology in hand at every argument"""
    f = E.val(s, args[0])
    x = E.fresh('any_x', R)
    p = E.fnctx[1]
    p = p if hasattr(p, 'm_omega_m') else E.fnctx[0]
    for s2, v in E.std.apply_fn(E, s.copy(), fr, f, [x], e):
        E.oblige(s2, 'precondition', QUOT(RealVal(1), E_of(p, x)) == E.toreal(E.val(s2, v)), e.get('l', ''), 'the integrand is 1/E(z)')
    return [(s, None)]


def h_integrate(E, s, fr, e, this, args):
    a, b = [E.toreal(E.val(s, x)) for x in args[1:3]]
    p = E.fnctx[1]
    return [(s, INT_E(unwrap(p.m_omega_m), unwrap(p.m_omega_k), unwrap(p.m_omega_lambda), a, b))]


CLIGHT = RealVal(299792458)
HD = lambda p: QUOT(CLIGHT * 1000, unwrap(p.m_H_0))
COM = lambda p, z: HD(p) * INT_E(unwrap(p.m_omega_m), unwrap(p.m_omega_k), unwrap(p.m_omega_lambda), RealVal(0), z)
TM = z3.Function('TM', R, R, R, R, R, R)


def dc(p, z):
    return If(z == 0, RealVal(0), COM(p, z))


def away(z):
    return Or(z == 0, z > TINY, z < -TINY)


def scale(p):
    k = unwrap(p.m_omega_k)
    return QUOT(HD(p), SQRT(If(k >= 0, k, -k)))


def dm(p, z):
    k = unwrap(p.m_omega_k)
    r = scale(p)
    return If(k == 0, dc(p, z), If(k > 0, r * SINH(QUOT(dc(p, z), r)), r * SIN(QUOT(dc(p, z), r))))


def dl(p, z):
    return If(z == 0, RealVal(10), (1 + z) * dm(p, z))


z0 = lambda s: unwrap(s[0])
def cond(s):
    return And(away(z0(s)), away(unwrap(s[1].m_omega_k)))


CONFIG = {'quot': True, 'models': {}, 'free_hooks': {'Elements::isEqual': h_isequal}}
PR = ['C20']
CONTRACTS = [
    Contract(P + 'CosmologicalParameters::{ctor}', sig=['double', 'double', 'double'], props=PR,
             ensures=lambda s: [('omega-m', s.this1.m_omega_m == s[0]), ('omega-lambda', s.this1.m_omega_lambda == s[1]), ('H0', s.this1.m_H_0 == s[2]),
                                ('omegas-add-up-to-one', s.this1.m_omega_m + s.this1.m_omega_k + s.this1.m_omega_lambda == 1)]),
    Contract(P + 'CosmologicalParameters::getOmegaM', props=PR, ensures=lambda s: [('value', s.result == s.this.m_omega_m)]),
    Contract(P + 'CosmologicalParameters::getOmegaLambda', props=PR, ensures=lambda s: [('value', s.result == s.this.m_omega_lambda)]),
    Contract(P + 'CosmologicalParameters::getOmegaK', props=PR, ensures=lambda s: [('value', s.result == s.this.m_omega_k)]),
    Contract(P + 'CosmologicalParameters::getHubbleConstant', props=PR, ensures=lambda s: [('value', s.result == s.this.m_H_0)]),
    Contract('Euclid::MathUtils::FunctionAdapter::{ctor}', trusted='an adapter evaluates the function it was given', handler=h_adapter),
    Contract('Euclid::MathUtils::integrate', sig=['Function', 'double', 'double', 'unique_ptr'], trusted='the numerical integral of a function depends on the function and the limits (bounded by the harness of C10 and C20)', handler=h_integrate),
    Contract(D + 'hubbleDistance', props=PR, ensures=lambda s: [('c/H0', unwrap(s.result) == HD(s[0]))], hints=lambda s: [L_QUOT.forall(lambda a, b: QUOT(a, b), None, None)]),
    Contract(D + 'hubbleParameter', props=PR, ensures=lambda s: [('E(z)', unwrap(s.result) == E_of(s[1], z0(s)))]),
    Contract(D + 'comovingDistance', props=PR, ensures=lambda s: [('line-of-sight-integral', Implies(away(z0(s)), unwrap(s.result) == dc(s[1], z0(s))))]),
    Contract(D + 'transverseComovingDistance', props=PR, ensures=lambda s: [('curvature-relation', Implies(cond(s), unwrap(s.result) == dm(s[1], z0(s))))]),
    Contract(D + 'luminousDistance', props=PR, ensures=lambda s: [('(1+z)D_M', Implies(cond(s), unwrap(s.result) == dl(s[1], z0(s))))]),
    Contract(D + 'distanceModulus', props=PR, ensures=lambda s: [('5log10(D_L/10)', Implies(cond(s), unwrap(s.result) == 5 * LOG10(dl(s[1], z0(s)) / 10)))]),
    Contract(D + 'dimensionlessComovingVolumeElement', props=PR,
             ensures=lambda s: [('D_M^2/(E D_H^2)', Implies(cond(s), unwrap(s.result) == QUOT(dm(s[1], z0(s)) * dm(s[1], z0(s)), E_of(s[1], z0(s)) * HD(s[1]) * HD(s[1]))))]),
]
