"""Thermodynamic kernels: harmonic oscillator functions, derived quantities and
the elementary numerical helpers they are built on."""
from ..core import *          # noqa
from .. import algebra as al

SM = 'quantas.utils.physics.statistical_mechanics'
TD = 'quantas.utils.physics.thermodynamics'

h, kB, NA = al.sym('h'), al.sym('kB'), al.sym('NA')
ONE = al.as_poly(1)
ZERO = al.as_poly(0)


def consts():
    """Symbols of the physical constants as the analysis names them."""
    from ..interp import CONSTANTS
    return CONSTANTS


def mode_terms():
    """Per-mode reference functions (w > 0, T > 0 branch and the limits)."""
    K = Fraction(1, 1000)

    def x(w, T):
        return h * w / (kB * T)

    def guard(w, f):
        """Imaginary and zero-frequency modes do not contribute."""
        return al.ite(al.lt0(w), ZERO, al.ite(al.eq0(w), ZERO, f))

    def zpe(w, T):
        return guard(w, K * NA * h * w / 2)

    def eth(w, T):
        return guard(w, al.ite(al.eq0(T), ZERO, K * NA * h * w /
                               (al.exp(x(w, T)) - 1)))

    def ent(w, T):
        y = x(w, T)
        f = NA * kB * (y / (al.exp(y) - 1) - al.log(1 - al.exp(-y)))
        return guard(w, al.ite(al.eq0(T), ZERO, f))

    def fvib(w, T):
        y = x(w, T)
        f = K * NA * (h * w / 2 + kB * T * al.log(1 - al.exp(-y)))
        return guard(w, al.ite(al.eq0(T), K * NA * h * w / 2, f))

    def cv(w, T):
        y = x(w, T)
        f = NA * kB * y * y * al.exp(y) / al.power(al.exp(y) - 1, 2)
        return guard(w, al.ite(al.eq0(T), ZERO, f))

    return {'zero_point_energy': zpe, 'thermal_energy': eth, 'entropy': ent,
            'vibrational_free_energy': fvib, 'isochoric_heat_capacity': cv}


def guarded(fn, *a):
    """Build a guarded reference in the regions where it is defined."""
    return fn(*a)


def P_harmonic(c):
    c.rule('mode-sum', 'each harmonic function returns, for every temperature '
           'and volume, the weighted sum over q-points and modes of the '
           'closed-form oscillator expression; modes with a non-positive '
           'frequency contribute nothing and T = 0 takes the analytic limit. '
           'Decided by value-flow: the loops are summarised to one closed sum '
           'and its term compared with the reference term')
    c.rule('own-elements', 'an iteration of a parallel loop of the oscillator '
           'functions stores only elements of its own and reads no element '
           'another one stores')
    c.rule('own-scalars', 'a scalar used in such an iteration is assigned in '
           'it first; what is accumulated across iterations is a sum or '
           'product')
    c.rule('closure', 'on the terms read from the code, U_zp + U_th - T*S and '
           'F_vib are the same value at every temperature')
    nT, nb, nf, nv = [dim(x) for x in ('nT', 'nb', 'nf', 'nv')]
    terms = {}
    for name, ref in mode_terms().items():
        I = c.interp()
        T = I.alloc(Arr.symbol('T', (nT,), sign='+0'))
        B = I.alloc(Arr.symbol('w', (nb, nf, nv)))
        W = I.alloc(Arr.symbol('q', (nb,), sign='+0'))
        I, got = run(c, SM, name, [T, B, W], I=I)

        def cell(ix):
            j, k = al.fresh('j'), al.fresh('k')
            w = al.idx('w', j, k, ix[1])
            t = al.idx('T', ix[0], sign='+0')
            q = al.idx('q', j, sign='+0')
            return al.make_sum(al.make_sum(q * ref(w, t), k, ZERO, nf),
                               j, ZERO, nb)
        want = Arr.build((nT, nv), cell)
        terms[name] = got
        c.same('mode-sum', name, got, want, c.where_func(SM, name))
    from .parallel import kernels
    kernels(c, SM)
    need = ('zero_point_energy', 'thermal_energy', 'entropy',
            'vibrational_free_energy')
    if all(isinstance(terms[n], Arr) for n in need):
        i, j = al.sym('ti', int=True, sign='+0'), al.sym('vi', int=True,
                                                         sign='+0')
        z, e, s, f = [terms[n].at([i, j]) for n in need]
        T = al.idx('T', i, sign='+0')
        c.same('closure', 'F = Uzp + Uth - T S',
               f, z + e - T * s * Fraction(1, 1000),
               c.where_func(SM, 'vibrational_free_energy'))
    c.assumptions += ['floating point is treated as real arithmetic',
                      'occupation sums are over the ranges read from the '
                      'array shapes']


def P_composition(c):
    c.rule('composition', 'the value returned for every (T, P or V) cell is '
           'the stated combination of the arguments (value-flow, closed form)')
    nT, nP = dim('nT'), dim('nP')

    def arrs(I, **k):
        return {n: I.alloc(Arr.symbol(n, s, **i)) for n, (s, i) in k.items()}

    def two(name, sign=None):
        info = {} if sign is None else {'sign': sign}
        return lambda ix: al.idx(name, ix[0], ix[1], **info)
    V, U = two('V', 1), two('U')
    K, A, C = two('K', 1), two('a'), two('C', '+0')

    def pj(ix):
        return al.idx('p', ix[1])

    def Ti(ix):
        return al.idx('T', ix[0], sign='+0')
    for name in ('enthalpy', 'gibbs'):
        I = c.interp()
        a = arrs(I, V=((nT, nP), {'sign': 1}), p=((nP,), {}),
                 U=((nT, nP), {}))
        I, got = run(c, TD, name, [a['V'], a['p'], a['U']], I=I)
        want = Arr.build((nT, nP), lambda ix: U(ix) + pj(ix) * V(ix) * NA *
                         Fraction(1, 1000))
        c.same('composition', name, got, want, c.where_func(TD, name))
    I = c.interp()
    a = arrs(I, T=((nT,), {'sign': '+0'}), V=((nT, nP), {'sign': 1}),
             K=((nT, nP), {'sign': 1}), a=((nT, nP), {}),
             C=((nT, nP), {'sign': '+0'}))
    pf = al.sym('pf', sign=1)
    I, got = run(c, TD, 'adiabatic_bulk_modulus',
                 [a['T'], a['V'], a['K'], a['a'], a['C'], pf], I=I)

    def ks(ix):
        t, cv = Ti(ix), C(ix)
        return al.ite(al.eq0(t), K(ix), al.ite(
            al.eq0(cv), K(ix), K(ix) + A(ix) * A(ix) * V(ix) * t * pf *
            K(ix) * K(ix) * NA / cv))
    c.same('composition', 'adiabatic_bulk_modulus', got,
           Arr.build((nT, nP), ks),
           c.where_func(TD, 'adiabatic_bulk_modulus'))
    I = c.interp()
    a = arrs(I, V=((nT, nP), {'sign': 1}),
             K=((nT, nP), {'sign': 1}), a=((nT, nP), {}),
             C=((nT, nP), {'sign': '+0'}))
    I, got = run(c, TD, 'gruneisen_parameter',
                 [a['V'], a['K'], a['a'], a['C']], I=I)

    def gr(ix):
        cv = C(ix)
        return al.ite(al.eq0(cv), ZERO,
                      V(ix) * K(ix) * A(ix) * NA / cv)
    c.same('composition', 'gruneisen_parameter', got,
           Arr.build((nT, nP), gr), c.where_func(TD, 'gruneisen_parameter'))
    from . import qha
    for cfg in qha.CONFIGS[:2]:
        qha.finalised(c, cfg, 'composition')
    # totals
    for name, parts in (('internal_energy', ('U0', 'Uzp', 'Uth')),
                        ('free_energy', ('U0', 'F'))):
        I = c.interp()
        node = c.P.func(SM, name)
        I2 = I
        nV = dim('nV')
        args = []
        for p in parts:
            if p == 'U0':
                args.append(I.alloc(Arr.symbol('U0', (nV,))))
            elif p == 'Uzp':
                args.append(I.alloc(Arr.symbol('Uzp', (nV,))))
            else:
                args.append(I.alloc(Arr.symbol(p, (nT, nV))))
        I, got = run(c, SM, name, args, I=I2)

        def cell(ix):
            r = al.idx('U0', ix[1])
            for p in parts[1:]:
                if p == 'Uzp':
                    r = r + al.idx('Uzp', ix[1])
                else:
                    r = r + al.idx(p, ix[0], ix[1])
            return r
        c.same('composition', name, got, Arr.build((nT, nV), cell),
               c.where_func(SM, name))


CHECKS = {'P04': P_harmonic, 'P05': P_composition}
