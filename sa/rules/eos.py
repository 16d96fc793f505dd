"""Equations of state: energy-volume, pressure-volume, and the fits."""
from ..core import *          # noqa
from .. import algebra as al

EV = 'quantas.qha.utils.ev_eos'
PV = 'quantas.eosfit.utils.pv_eos'
TAGS = ('murnaghan', 'birchmurnaghan', 'vinet', 'pouriertarantola')
ONE = al.as_poly(1)


def pos(n):
    return al.sym(n, sign=1)


E0, K0, KP, KPP, V0, V = al.sym('E0'), pos('K0'), pos('KP'), al.sym('KPP'), \
    pos('V0'), pos('V')


def new(I, mod, cls):
    c = I.get(mod, cls)
    return I.call(c, [], {}, None)


def safe(fn):
    try:
        return fn()
    except (Imprecise, Budget, AbsRaise, al.Undefined, RecursionError) as e:
        return Unknown('%s: %s' % (type(e).__name__, e))


def energy_term(c, tag):
    """E(V; p0..p3) of the function handed to the least-squares routine."""
    I = c.interp()
    cap = {}

    def curve_fit(I, args, kw, node):
        names = ['f', 'xdata', 'ydata', 'p0']
        a = dict(zip(names, args))
        a.update(kw)
        cap.update(a)
        return (I.alloc(Arr.symbol('popt', (4,))),
                I.alloc(Arr.symbol('pcov', (4, 4))))
    I.models['scipy.optimize.curve_fit'] = curve_fit
    n = dim('n')
    o = new(I, EV, 'EnergyEOS')
    Vd = I.alloc(Arr.symbol('Vd', (n,), sign=1))
    Ed = I.alloc(Arr.symbol('Ed', (n,)))
    res = safe(lambda: I.call(I.get_attr(o, 'fit'), [tag, Vd, Ed], {}, None))
    out = {'I': I, 'res': res, 'cap': cap, 'V': Vd, 'E': Ed}
    if 'f' in cap:
        out['term'] = safe(lambda: val(I, I.call(
            cap['f'], [V, E0, K0, KP, V0], {}, None)))
        p0 = cap.get('p0')
        out['p0'] = safe(lambda: I.to_array(p0)) if p0 is not None else None
    c.collect(I)
    return out


def closed_form(tag):
    """E(V; E0, K0, K', V0) of the formulation of that name."""
    x = al.power(V / V0, Fraction(1, 3))
    if tag == 'murnaghan':
        return E0 + K0 * V / KP * (al.power(V0 / V, KP) / (KP - 1) + 1) - \
            K0 * V0 / (KP - 1)
    if tag == 'birchmurnaghan':
        f = al.power(V0 / V, Fraction(2, 3)) - 1
        return E0 + 9 * V0 * K0 / 16 * (f * f * f * KP + f * f * (2 - 4 * f))
    if tag == 'vinet':
        return E0 + 2 * K0 * V0 / ((KP - 1) * (KP - 1)) * (2 - (
            5 + 3 * KP * (x - 1) - 3 * x) * al.exp(
                Fraction(-3, 2) * (KP - 1) * (x - 1)))
    r = al.log(V0 / V)
    return E0 + K0 * V0 * r * r / 6 * (3 + r * (KP - 2))


def pressure_term(c, tag):
    I = c.interp()
    o = new(I, EV, 'EnergyEOS')
    pars = I.new_list([E0, K0, KP, V0])
    pars = I.alloc(I.to_array(pars))
    r = safe(lambda: val(I, I.call(I.get_attr(o, 'pressure'), [tag, pars, V],
                                   {}, None)))
    c.collect(I)
    return r


def at(p, v, x):
    try:
        return al.subst(p, {al.sid(v): x})
    except al.Undefined as e:
        return Unknown(str(e))


def D(p):
    try:
        return al.diff(p, V)
    except al.Undefined as e:
        return Unknown(str(e))


def P_energy_eos(c):
    c.rule('equilibrium', 'the fitted energy function takes the value E0 at '
           'V0, is stationary there, and its curvature and third derivative '
           'there are the bulk modulus and its pressure derivative (terms '
           'differentiated symbolically)')
    c.rule('pressure', 'the pressure reported for a formulation is minus the '
           'volume derivative of the energy function fitted for the same '
           'formulation')
    c.rule('dispatch', 'every formulation that can be requested selects a '
           'function for the fit and a class for the pressure')
    c.rule('formulation', 'the function fitted is the closed form of the '
           'formulation named (Murnaghan, third order Birch-Murnaghan, Vinet, '
           'Poirier-Tarantola)')
    c.rule('data', 'the least-squares routine receives the caller\'s volumes '
           'and energies and its parameters and errors are returned in that '
           'order')
    for tag in TAGS:
        w = c.where_func(EV, 'EnergyEOS.fit')
        e = energy_term(c, tag)
        E = e.get('term')
        if E is None:
            st = e['res']
            c.undecided('dispatch', tag, w, 'fit not interpreted: %r' % (st,))
            continue
        I = e['I']
        c.same('data', tag + ': volumes', val(I, e['cap'].get('xdata')),
               val(I, e['V']), w)
        c.same('data', tag + ': energies', val(I, e['cap'].get('ydata')),
               val(I, e['E']), w)
        r = e['res']
        if isinstance(r, tuple) and len(r) == 2:
            c.same('data', tag + ': parameters', val(I, r[0]),
                   Arr.symbol('popt', (4,)), w)
            c.same('data', tag + ': errors', val(I, r[1]), Arr.build(
                (4,), lambda ix: al.power(al.idx('pcov', ix[0], ix[0]),
                                          Fraction(1, 2))), w)
        if not isinstance(E, Poly):
            c.undecided('equilibrium', tag, w, describe(E))
            continue
        c.same('formulation', tag, E, closed_form(tag), w)
        dE = D(E)
        d2 = D(dE)
        Pt = -dE
        K = -V * D(Pt)
        Kp = D(K) / D(Pt)
        c.same('equilibrium', tag + ': E(V0)', at(E, V, V0), E0, w)
        c.same('equilibrium', tag + ': dE/dV(V0)', at(dE, V, V0),
               al.as_poly(0), w)
        c.same('equilibrium', tag + ': V d2E/dV2 (V0)', at(V * d2, V, V0), K0,
               w)
        c.same('equilibrium', tag + ": K'(V0)", at(Kp, V, V0), KP, w)
        P = pressure_term(c, tag)
        c.same('pressure', tag, P, Pt, c.where_func(EV, 'EnergyEOS.pressure'))
        c.ok('dispatch', tag, w)
    # the initial guess is assembled in the parameter order of the functions
    c.rule('guess-order', 'the starting values are placed in the order '
           'E0, K0, K\', V0 of the fitted functions')
    e = energy_term(c, TAGS[0])
    p0 = e.get('p0')
    if isinstance(p0, Arr) and p0.shape == (4,):
        v0 = p0.at([al.as_poly(3)])
        I = e['I']
        c.need(p0.at([al.as_poly(2)]) == al.as_poly(4), 'guess-order',
               'starting K\'', c.where_func(EV, 'EnergyEOS.guess'),
               'third starting value is %s' % describe(p0.at([al.as_poly(2)])))
        # E0 is the fitted polynomial at the starting V0, K0 = V0 * E''(V0)
        fitted = polyval_of(p0.at([al.as_poly(0)]), v0)
        if fitted is None:
            c.undecided('guess-order', 'starting E0', '',
                        describe(p0.at([al.as_poly(0)])))
        else:
            pars = fitted
            want = sum_poly([pars(k) for k in range(5)], v0, 2) * v0
            c.same('guess-order', 'starting K0', p0.at([ONE]), want,
                   c.where_func(EV, 'EnergyEOS.guess'))
    else:
        c.undecided('guess-order', 'starting values', '', describe(p0))


def polyval_of(E, v0):
    """Coefficients (highest first) of a quartic evaluated at v0, if E is."""
    vs = al.sym('vv#', sign=1)
    try:
        a = v0.atoms()
    except AttributeError:
        return None
    coefs = {}
    for m, cf in E.t.items():
        if len(v0.t) != 1:
            return None
        (mm, c0), = v0.t.items()
        if len(mm) != 1 or c0 != 1:
            return None
        at = mm[0][0]
        d = dict(m)
        e = d.pop(at, Fraction(0))
        if e.denominator != 1 or e < 0 or e > 4:
            return None
        k = int(e)
        coefs[k] = coefs.get(k, al.as_poly(0)) + Poly(
            {tuple(sorted(d.items())): cf})
    return lambda k: coefs.get(k, al.as_poly(0))


def sum_poly(cs, x, nd):
    out = al.as_poly(0)
    for k, cf in enumerate(cs):
        if k < nd:
            continue
        f = 1
        for i in range(nd):
            f *= k - i
        out = out + cf * f * al.power(x, k - nd)
    return out


# -- pressure-volume ----------------------------------------------------------
FORMS = {'Murnaghan': (3,), 'BirchMurnaghan': (2, 3, 4),
         'NaturalStrain': (2, 3, 4), 'Vinet': (2, 3), 'Tait': (2, 3, 4)}
IMPLIED_KP = {'BirchMurnaghan': 4, 'NaturalStrain': 2, 'Vinet': 1, 'Tait': 4}


def implied_kpp(name, k0, kp):
    if name == 'Murnaghan':
        return al.as_poly(0)
    if name == 'BirchMurnaghan':
        return -((3 - kp) * (4 - kp) + Fraction(35, 9)) / k0
    if name == 'NaturalStrain':
        return -(1 + (kp - 2) + (kp - 2) * (kp - 2)) / k0
    if name == 'Vinet':
        return -(kp * kp / 4 + kp / 2 - Fraction(19, 36)) / k0
    return -kp / k0


def pv_eval(c, cls, order, linear, dofit):
    I = c.interp()
    o = new(I, PV, cls)
    p = I.alloc(I.to_array(I.new_list([K0, KP, KPP, V0])))
    r = safe(lambda: val(I, I.call(I.get_attr(o, 'eos'),
                                   [p, V, al.as_poly(order), linear, dofit],
                                   {}, None)))
    after = I.content(p)
    c.collect(I)
    return r, after


def P_pv_eos(c):
    c.rule('reference-state', 'P(V0) = 0, -V dP/dV = K0 and dK/dP = K\' at V0; '
           'for the formulations with a free second derivative also '
           'd2K/dP2 = K\'\'')
    c.rule('implied', 'when fitting at a truncated order the implied K\' and '
           'K\'\' take the values of the truncation, are written back to the '
           'parameters, and equal the derivatives of the pressure function')
    for name, orders in FORMS.items():
        w = c.where_func(PV, name + '.eos')
        # calculation with explicit parameters
        P, after = pv_eval(c, name, 4 if 4 in orders else 3, False, False)
        if not isinstance(P, Poly):
            c.undecided('reference-state', name, w, describe(P))
            continue
        ident(c, name, P, K0, KP, KPP if 4 in orders else None, w)
        for o in orders:
            for lin in (False, True):
                P, after = pv_eval(c, name, o, lin, True)
                tag = '%s order %d%s' % (name, o, ' axis' if lin else '')
                if not isinstance(P, Poly):
                    c.undecided('implied', tag, w, describe(P))
                    continue
                kp = KP
                if o == 2:
                    kp = al.as_poly(IMPLIED_KP[name] * (3 if lin else 1))
                kpp = KPP if o == 4 else implied_kpp(name, K0, kp)
                c.same('implied', tag + ": stored K'",
                       after.at([al.as_poly(1)]), kp, w)
                c.same('implied', tag + ": stored K''",
                       after.at([al.as_poly(2)]), kpp, w)
                c.same('implied', tag + ': stored K0',
                       after.at([al.as_poly(0)]), K0, w)
                c.same('implied', tag + ': stored V0',
                       after.at([al.as_poly(3)]), V0, w)
                ident(c, tag, P, K0, kp, kpp, w)


def ident(c, tag, P, k0, kp, kpp, w):
    """The derivatives are taken first, evaluated at V0, then combined."""
    c.same('reference-state', tag + ': P(V0)', at(P, V, V0), al.as_poly(0), w)
    ds = [P]
    for _ in range(3 if kpp is not None else 2):
        d = D(ds[-1])
        if isinstance(d, Unknown):
            c.undecided('reference-state', tag, w, d.reason)
            return
        ds.append(d)
    vals = [at(d, V, V0) for d in ds[1:]]
    if any(isinstance(x, Unknown) for x in vals):
        c.undecided('reference-state', tag, w, 'undefined at V0')
        return
    P1, P2 = vals[:2]
    c.same('reference-state', tag + ': K', -V0 * P1, k0, w)
    # dK/dP = -1 - V P2/P1
    c.same('reference-state', tag + ": K'", -V0 * P2, (kp + 1) * P1, w)
    if kpp is not None:
        P3 = vals[2]
        # P1^3 d2K/dP2 = V P2^2 - P1 (P2 + V P3)
        c.same('reference-state', tag + ": K''",
               V0 * P2 * P2 - P1 * (P2 + V0 * P3), kpp * P1 * P1 * P1, w)


CHECKS = {'P07': P_energy_eos, 'P08': P_pv_eos}
