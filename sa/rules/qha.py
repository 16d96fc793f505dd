"""The quasi-harmonic calculator: volume minimisation, interpolation at the
equilibrium volume and the quantities derived from it."""
import re

from ..core import *          # noqa
from .. import algebra as al
from .units import ENERGY, PRESSURE, LENGTH, FREQ, TEMP
from .thermo import ZERO
from .soec import capture, safe_call, printed_numbers
from .ha import (untrapped, CONFIGS, NA, arange_hook, efac, exports, factor, item,
                 reader_object, settings)

QHA = 'quantas.qha.qha'
SM = 'quantas.utils.physics.statistical_mechanics'
PM = 'quantas.utils.math.polynomials'
E_ = al.sym('~e', int=True, sign='+0')     # canonical data index
Q_ = al.sym('~q', int=True, sign='+0')
B_ = al.sym('~b', int=True, sign='+0')
KERNELS = {'zero_point_energy': 'zp', 'thermal_energy': 'th',
           'entropy': 'S', 'isochoric_heat_capacity': 'Cv',
           'vibrational_free_energy': 'Fv'}


def canon(x, *lead):
    """What identifies a data array inside an uninterpreted result."""
    n = x.shape[-1]
    if isinstance(n, int):
        return [al.let(x.at(list(lead) + [al.as_poly(k)]))
                for k in range(n)]
    return [al.as_poly(n), x.at(list(lead) + [E_])]


def kernel_model(name):
    """Harmonic function of (T, frequencies at the volume, weights)."""
    def model(I, a, k, n):
        T, f, w = [I.to_array(x) for x in a[:3]]
        if T.ndim() != 1 or f.ndim() != 3 or w.ndim() != 1:
            raise Imprecise('kernel arguments')

        def cell(ix):
            return al.idx('hk:' + name, T.at([ix[0]]),
                          f.at([Q_, B_, ix[1]]), w.at([Q_]),
                          al.as_poly(f.shape[0]), al.as_poly(f.shape[1]))
        return I.alloc(Arr.build((T.shape[0], f.shape[2]), cell))
    return model


def fit_coefs(deg, x, y, d):
    """Least squares is linear in the ordinates: c_d = sum_v M[d, v] y[v]."""
    args = canon(x)
    n = x.shape[0]

    def term(v):
        return al.idx('lsq%s' % deg, d, v, *args, sign=None) * al.let(y(v))
    if isinstance(n, int):
        r = ZERO
        for v in range(n):
            r = r + term(al.as_poly(v))
        return al.let(r)
    v = al.fresh('v', sign='+0')
    return al.make_sum(term(v), v, ZERO, n)


def polyfit_model(I, a, k, node):
    names = ['x', 'y', 'deg', 'rcond', 'full', 'w']
    kw = dict(zip(names, a))
    kw.update(k)
    if kw.get('w') is not None or kw.get('full') not in (None, False):
        raise Imprecise('weighted fit')
    x, y = I.to_array(kw['x']), I.to_array(kw['y'])
    deg = I.num(kw['deg']).const_value()
    if deg is None:
        raise Imprecise('symbolic degree')
    n = int(deg) + 1
    if not same_dim(x.shape[0], y.shape[0]):
        raise Imprecise('polyfit: lengths %s and %s' % (x.shape, y.shape))
    if y.ndim() == 1:
        return I.alloc(Arr.build((n,), lambda ix: fit_coefs(
            int(deg), x, lambda v: y.at([v]), ix[0])))
    return I.alloc(Arr.build((n, y.shape[1]), lambda ix: fit_coefs(
        int(deg), x, lambda v: y.at([v, ix[1]]), ix[0])))


def eos_model(I, a, k, node):
    """EnergyEOS.fit(self, tag, V, F)"""
    a = list(a)
    if len(a) == 4:
        a = a[1:]
    tag = a[0]
    if not isinstance(tag, str):
        raise Imprecise('eos tag')
    V, F = I.to_array(a[1]), I.to_array(a[2])
    args = canon(V) + canon(F)
    return (I.alloc(Arr.build((4,), lambda ix: eos_par(tag, V, F, ix[0]))),
            I.alloc(Arr.build((4,), lambda ix: al.idx(
                'eoserr:' + tag, ix[0], *args, sign=1))))


def eos_par(tag, V, F, k):
    return al.idx('eosfit:' + tag, al.as_poly(k), *(canon(V) + canon(F)),
                  sign=1)


def min_model(I, a, k, node):
    p = I.to_array(a[0])
    add = a[1] if len(a) > 1 else k.get('addendum')
    add = ZERO if add is None else I.num(add)
    return I.alloc(Arr.build((dim('nmin'),), lambda ix: al.idx(
        'polymin', ix[0], *(canon(p) + [add]), sign=1)))


def conv(cfg):
    e, f, l, t, p = cfg
    ef = efac(e)
    ff = factor(FREQ, f)[0]
    pf = factor(PRESSURE, p)[0]
    lf = factor(LENGTH, l)[0]
    uf = factor(ENERGY, e)[0]
    tf, t0 = factor(TEMP, t)[:2]
    # pressure -> energy / volume
    p2e = pf * al.power(al.as_poly(lf), 3) / uf
    return ef, ff, pf, lf, uf, tf, t0, p2e


def setup(c, cfg, few=False, **more):
    I = c.interp(budget=6000000)
    nT = dim('nTfew') if few else al.sym('nTx', int=True, sign='+0') + 50
    if few:
        nT = few
    nP, nq, nb = more.pop('nP', None) or dim('nP'), dim('nq'), dim('nb')
    nv = al.sym('nvx', int=True, sign='+0') + 4
    d = dict(nT=nT, nP=nP, nq=nq, nb=nb, nv=nv)
    d['log'] = capture(I)
    d['grids'] = {}
    arange_hook(I, {'Tg': (al.sym('tmin'), al.sym('tmax'),
                           al.sym('tstep', sign=1), nT),
                    'Pg': (al.sym('pmin'), al.sym('pmax'),
                           al.sym('pstep', sign=1), nP)}, d['grids'])
    attrs = more.pop('reader', {})
    I.models['quantas.IO.qha_reader.QHAInputFileReader'] = \
        lambda I, a, k, n: reader_object(I, nq, nb, nv, attrs(I, d)
                                         if callable(attrs) else attrs)
    for fn, nm in KERNELS.items():
        I.models['%s.%s' % (SM, fn)] = kernel_model(nm)
    I.models['numpy.polynomial.polynomial.polyfit'] = polyfit_model
    I.models['quantas.qha.utils.ev_eos.EnergyEOS.fit'] = eos_model
    I.models[PM + '.find_polynomial_minimum'] = min_model
    s = dict(qha_scheme='td', minimization='poly', kieffer=False,
             edeg=al.as_poly(3), fdeg=al.as_poly(2), eos='BM',
             eos_function='birchmurnaghan')
    s.update(more)
    d['settings'] = s
    d['calc'] = I.call(I.get(QHA, 'QHACalculator'),
                       [settings(I, cfg, **s)], {}, None)
    return I, d


def squared_model(seen):
    """R_squared(x, y, coefficients): one value for each row of y (P28
    decides the formula)."""
    def model(I, a, k, node):
        kw = dict(zip(('x', 'y', 'cc'), a))
        kw.update(k)
        y, f = I.to_array(kw['y']), I.to_array(kw['cc'])
        seen.append(1)
        if y.ndim() == 1:
            return r_square(lambda v: y.at([v]), lambda k: f.at([k]))
        return I.alloc(Arr.build(y.shape[:-1], lambda ix: r_square(
            lambda v: y.at(list(ix) + [v]), lambda k: f.at(list(ix) + [k]))))
    return model


def r_square(y, f):
    v = al.sym('v_any', int=True, sign='+0')
    return al.idx('R2', y(v), f(ZERO), f(al.as_poly(1)))


def leaves(m):
    if isinstance(m, GIf):
        return leaves(m.a) + leaves(m.b)
    return [m]


def fit_quality(c, tag, w, d, squares, V, nb, f, fdeg):
    """The quality printed for a mode is that of the mode's own fit."""
    if not squares:
        c.undecided('qha-fit', tag, w, 'no coefficient of determination seen')
        return

    def want(q, b):
        return r_square(lambda v: f(q, b, v), lambda k: fit_coefs(
            fdeg, V, lambda v: f(q, b, v), k))
    band, n, mean = None, 0, 0
    for m in d['log']:
        for x in leaves(m):
            ns = [t[1] for t in printed_numbers([x])]
            ns = [t if isinstance(t, Poly) else None for t in ns]
            s = spoken(x)
            if 'band' in s.lower() and len(ns) == 1:
                band = ns[0]
            elif 'R^2' in s and None not in ns and band is not None:
                if len(ns) == 2:
                    n += 1
                    c.same('qha-fit', tag + ': R^2 of a mode', ns[1], want(
                        band, ns[0] - 1), w)
                elif len(ns) == 1:
                    mean += 1
                    v = al.fresh('b', sign='+0')
                    c.same('qha-fit', tag + ': R^2 of a band', ns[0],
                           al.make_sum(want(band, v), v, ZERO, nb) *
                           al.power(nb, -1), w)
    if not n or not mean:
        c.undecided('qha-fit', tag, w, '%d lines of modes, %d of bands' % (
            n, mean))


def spoken(m):
    if isinstance(m, str):
        return m
    if isinstance(m, Opaque):
        return spoken(m.key)
    if isinstance(m, tuple):
        if len(m) == 3 and m[0] == 'fmt':
            return ' '
        return ''.join(spoken(x) for x in m)
    return ''


def run_one(c, cfg, scheme, mini, tag, edeg=3, fdeg=2, eos='birchmurnaghan',
            few=None):
    w = c.where_func(QHA, 'QHACalculator.run')
    I, d = setup(c, cfg, qha_scheme=scheme, minimization=mini,
                 edeg=al.as_poly(edeg), fdeg=al.as_poly(fdeg),
                 eos_function=eos, **(dict(few=few[0], nP=few[1]) if few
                                      else {}))
    calc = d['calc']
    squares = []
    I.models[PM + '.R_squared'] = squared_model(squares)
    e = safe_call(c, I, I.get_attr(calc, 'read_input'), 'x.yaml')
    if e is not None:
        c.undecided('qha-state', tag, w, 'read_input gives %r' % (e,))
        return
    r = safe_call(c, I, I.get_attr(calc, 'run'))
    c.collect(I)
    if isinstance(r, Unknown):
        c.undecided('qha-state', tag, w, r.reason)
        return
    untrapped(c, I, 'qha-run', tag, w)
    c.need(I.get_attr(calc, 'completed') is True, 'qha-run',
           tag + ': completed', w, 'a finished run is not marked')
    for g, (lo, hi, st) in (('Tg', ('tmin', 'tmax', 'tstep')),
                            ('Pg', ('pmin', 'pmax', 'pstep'))):
        if g in d['grids']:
            c.same('qha-grid', '%s: %s' % (tag, g), d['grids'][g][0][1],
                   al.sym(hi) + al.sym(st, sign=1), w)
        else:
            c.undecided('qha-grid', '%s: %s' % (tag, g), w, 'no arange seen')
    ef, ff, pf, lf, uf, tf, t0, p2e = conv(cfg)
    nT, nP, nv, nq, nb = [d[k] for k in ('nT', 'nP', 'nv', 'nq', 'nb')]
    V = Arr.symbol('V', (nv,), sign=1)
    U0 = Arr.symbol('U0', (nv,))
    if scheme == 'freq':
        fit_quality(c, tag, w, d, squares, V, nb, lambda q, b, v: al.idx(
            'f', q, b, v) * ff, fdeg)
    wq = al.idx('w', Q_, sign=1) / al.sym('wtot', sign=1)

    def T(i):
        return al.idx('Tg', i, sign='+0') * tf + t0

    def P(j):
        return al.idx('Pg', j, sign='+0')

    def hk(name, t, f):
        return al.idx('hk:' + name, t, f, wq, al.as_poly(nq),
                      al.as_poly(nb)) * ef

    def at_data(name, i, v):
        t = ZERO if name == 'zp' else T(i)
        return hk(name, t, al.idx('f', Q_, B_, v) * ff)

    def F_data(i, v):
        return al.idx('U0', v) + at_data('Fv', i, v)

    def U_data(i, v):
        return al.idx('U0', v) + at_data('zp', i, v) + at_data('th', i, v)

    def coefs(y, deg):
        return [fit_coefs(deg, V, y, al.as_poly(k)) for k in range(deg + 1)]

    def poly(cs, x):
        r = ZERO
        for k, q in enumerate(cs):
            r = r + q * al.power(x, k)
        return r

    def Vmin(ix):
        i, j = ix
        if mini == 'eos':
            F = Arr.build((nv,), lambda k: F_data(i, k[0]) +
                          P(j) * p2e * V.at(k))
            return eos_par(eos, V, F, 3)
        cs = coefs(lambda v: F_data(i, v), edeg)
        return al.idx('polymin', ZERO, *(cs + [P(j) * p2e]), sign=1)
    res = I.get_attr(calc, 'results')
    got = {k: item(I, res, k) for k in (
        'VT', 'KT', 'Kp', 'Uzp', 'Uth', 'Utot', 'S', 'F', 'Fvib', 'Cv',
        'Cp-Cv', 'Cp', 'KS', 'alphaV', 'H', 'G', 'gruneisen')}
    c.same('qha-volume', tag + ': V(P,T)', got['VT'], Arr.build(
        (nT, nP), Vmin), w)
    if mini == 'eos':
        def par(k, x):
            def cell(ix):
                i, j = ix
                F = Arr.build((nv,), lambda q: F_data(i, q[0]) +
                              P(j) * p2e * V.at(q))
                return eos_par(eos, V, F, k) * x
            return Arr.build((nT, nP), cell)
        c.same('qha-bulk', tag + ': KT', got['KT'], par(1, 1 / p2e), w)
        c.same('qha-bulk', tag + ": K'", got['Kp'], par(2, 1), w)
    VT = got['VT']
    if not isinstance(VT, Arr):
        return
    vt = lambda i, j: VT.at([i, j])

    # values at the equilibrium volume
    if scheme == 'td':
        def interp(y):
            return lambda ix: poly(coefs(lambda v: y(ix[0], v), edeg),
                                   vt(*ix))
        want = {'Uzp': interp(lambda i, v: at_data('zp', i, v)),
                'Uth': interp(lambda i, v: at_data('th', i, v)),
                'S': interp(lambda i, v: at_data('S', i, v)),
                'Cv': interp(lambda i, v: at_data('Cv', i, v)),
                'Fvib': interp(lambda i, v: at_data('Fv', i, v)),
                'Utot': interp(U_data), 'F': interp(F_data)}
    else:
        def freq(x):
            return poly([fit_coefs(fdeg, V, lambda v: al.idx(
                'f', Q_, B_, v) * ff, al.as_poly(k))
                for k in range(fdeg + 1)], x)

        def stat(x):
            return poly(coefs(lambda v: al.idx('U0', v), edeg), x)

        def direct(name):
            return lambda ix: hk(name, ZERO if name == 'zp' else T(ix[0]),
                                 freq(vt(*ix)))
        want = {'Uzp': direct('zp'), 'Uth': direct('th'), 'S': direct('S'),
                'Cv': direct('Cv'), 'Fvib': direct('Fv'),
                'Utot': lambda ix: stat(vt(*ix)) + direct('zp')(ix) +
                direct('th')(ix),
                'F': lambda ix: stat(vt(*ix)) + direct('Fv')(ix)}
    for k, cell in want.items():
        c.same('qha-interpolation', '%s: %s' % (tag, k), got[k],
               Arr.build((nT, nP), cell), w)
    if mini == 'poly':
        spread = [Fraction(k, 2000) for k in (-2, -1, 0, 1, 2)]

        def bulk(ix, which):
            i, j = ix
            x = [vt(i, j) * (1 + s) for s in spread]
            if scheme == 'td':
                cs = coefs(lambda v: F_data(i, v), edeg)
                y = [poly(cs, q) for q in x]
            else:
                y = [stat(q) + hk('Fv', T(i), freq(q)) for q in x]
            X = Arr((5,), {(k,): q for k, q in enumerate(x)})
            f = [fit_coefs(edeg, X, lambda v: y[int(v.const_value())],
                           al.as_poly(k)) for k in range(edeg + 1)]

            def d1(q):
                r = ZERO
                for k in range(1, edeg + 1):
                    r = r + f[k] * k * al.power(q, k - 1)
                return r

            def d2(q):
                r = ZERO
                for k in range(2, edeg + 1):
                    r = r + f[k] * k * (k - 1) * al.power(q, k - 2)
                return r
            if which == 'KT':
                return x[2] * d2(x[2]) / p2e
            pr = Arr((5,), {(k,): -d1(q) / p2e for k, q in enumerate(x)})
            kt = [q * d2(q) / p2e for q in x]
            g = [fit_coefs(2, pr, lambda v: kt[int(v.const_value())],
                           al.as_poly(k)) for k in range(3)]
            return g[1] + 2 * g[2] * pr.at([al.as_poly(2)])
        c.same('qha-bulk', tag + ': KT', got['KT'], Arr.build(
            (nT, nP), lambda ix: bulk(ix, 'KT')), w)
        c.same('qha-bulk', tag + ": K'", got['Kp'], Arr.build(
            (nT, nP), lambda ix: bulk(ix, 'Kp')), w)
    if not few:
        derived(c, cfg, tag, w, got, T, P, (nT, nP))
    return I, d, got


def derived(c, cfg, tag, w, got, T, P, shape, rule='qha-derived'):
    """Relations between the stored results, cell by cell."""
    ef, ff, pf, lf, uf, tf, t0, p2e = conv(cfg)
    nT, nP = shape
    if not all(isinstance(got[k], Arr) for k in ('VT', 'KT', 'Cv', 'Utot',
                                                 'F', 'alphaV', 'Cp-Cv')):
        c.undecided(rule, tag, w, 'results not interpreted')
        return
    V, K, Cv, U, F, A, D = [
        (lambda ix, k=k: got[k].at(list(ix))) for k in
        ('VT', 'KT', 'Cv', 'Utot', 'F', 'alphaV', 'Cp-Cv')]
    vm = al.power(al.as_poly(lf), 3)

    def expansion(ix):
        i, j = ix
        up = (V((i + 1, j)) - V((i, j))) / (T(i + 1) - T(i)) / V((i, j))
        dn = (V((i, j)) - V((i - 1, j))) / (T(i) - T(i - 1)) / V((i, j))
        return al.ite(al.eq0(i - nT + 1), dn, up)
    c.same(rule, tag + ': alphaV', got['alphaV'],
           Arr.build(shape, expansion), w)
    c.same(rule, tag + ': Cp-Cv', got['Cp-Cv'], Arr.build(
        shape, lambda ix: A(ix) * A(ix) * K(ix) * pf * V(ix) * vm * NA *
        T(ix[0]) * ef), w)
    c.same(rule, tag + ': Cp', got['Cp'], Arr.build(
        shape, lambda ix: Cv(ix) + D(ix)), w)
    pv = lambda ix: P(ix[1]) * pf * V(ix) * vm / uf
    c.same(rule, tag + ': H', got['H'], Arr.build(
        shape, lambda ix: U(ix) + pv(ix)), w)
    c.same(rule, tag + ': G', got['G'], Arr.build(
        shape, lambda ix: F(ix) + pv(ix)), w)

    def ks(ix):
        t = T(ix[0])
        cv = Cv(ix) / ef
        k = K(ix) * pf
        r = k + A(ix) * A(ix) * V(ix) * vm * t * k * k * NA / cv
        return al.ite(al.eq0(t), K(ix), al.ite(al.eq0(cv), K(ix), r / pf))

    def gr(ix):
        cv = Cv(ix) / ef
        return al.ite(al.eq0(cv), ZERO, V(ix) * vm * K(ix) * pf * A(ix) * NA
                      / cv)
    c.same(rule, tag + ': KS', got['KS'], Arr.build(shape, ks), w)
    c.same(rule, tag + ': gruneisen', got['gruneisen'],
           Arr.build(shape, gr), w)


def finalised(c, cfg, rule):
    """The derived properties of a run from given V, KT, Cv, U and F."""
    w = c.where_func(QHA, 'QHACalculator._finalize_run')
    I, d = setup(c, cfg, qha_scheme='td', minimization='eos')
    calc = d['calc']
    safe_call(c, I, I.get_attr(calc, 'read_input'), 'x.yaml')
    shape = nT, nP = d['nT'], d['nP']
    signs = {'VT': 1, 'KT': 1, 'Cv': '+0'}
    res = I.new_dict({k: I.alloc(Arr.symbol('r' + k, shape, **(
        {'sign': signs[k]} if k in signs else {})))
        for k in ('VT', 'KT', 'Utot', 'F', 'Cv')})
    for k in ('alphaV', 'Cp', 'Cp-Cv', 'KS', 'gruneisen', 'H', 'G'):
        I.content(res).items[k] = I.alloc(Arr.full(shape, ZERO))
    I.set_attr(calc, '_results', res)
    r = safe_call(c, I, I.get_attr(calc, '_finalize_run'))
    tag = 'run, ' + '/'.join(cfg)
    if isinstance(r, Unknown):
        return c.undecided(rule, tag, w, r.reason)
    res = I.get_attr(calc, 'results')
    got = {k: val(I, item(I, res, k)) for k in (
        'VT', 'KT', 'Cv', 'Utot', 'F', 'alphaV', 'Cp-Cv', 'Cp', 'H', 'G',
        'KS', 'gruneisen')}
    tf, t0 = conv(cfg)[5:7]
    derived(c, cfg, tag, w, got,
            lambda i: al.idx('Tg', i, sign='+0') * tf + t0,
            lambda j: al.idx('Pg', j, sign='+0'), shape, rule)


def few_temperatures(c, cfg):
    """Under 50 temperatures: volume properties still hold, the quantities
    that need a temperature derivative are left at zero, KS = KT."""
    w = c.where_func(QHA, 'QHACalculator._finalize_run')
    for n in (2, 49, 50):
        I, d = setup(c, cfg, few=n, qha_scheme='td', minimization='eos')
        calc = d['calc']
        safe_call(c, I, I.get_attr(calc, 'read_input'), 'x.yaml')
        nT, nP = n, d['nP']
        names = ('VT', 'KT', 'Utot', 'F', 'Cv')
        res = I.new_dict({k: I.alloc(Arr.symbol('r' + k, (nT, nP)))
                          for k in names})
        for k in ('alphaV', 'Cp', 'Cp-Cv', 'KS', 'gruneisen', 'H', 'G'):
            I.content(res).items[k] = I.alloc(Arr.full((nT, nP), ZERO))
        I.set_attr(calc, '_results', res)
        r = safe_call(c, I, I.get_attr(calc, '_finalize_run'))
        tag = '%d temperatures' % n
        if isinstance(r, Unknown):
            c.undecided('qha-few', tag, w, r.reason)
            continue
        res = I.get_attr(calc, 'results')
        ef, ff, pf, lf, uf, tf, t0, p2e = conv(cfg)
        if n == 50:
            got = val(I, item(I, res, 'alphaV'))
            for i in (0, 1, n - 1):
                a, b = (i, i + 1) if i < n - 1 else (i - 1, i)
                v, t = [lambda x, y=y: al.idx(y, al.as_poly(x), *(
                    [al.sym('jp', int=True, sign='+0')] if y == 'rVT' else
                    []), **({} if y == 'rVT' else {'sign': '+0'}))
                    for y in ('rVT', 'Tg')]
                c.same('qha-few', '%s: alphaV in row %d' % (tag, i),
                       got if not isinstance(got, Arr) else got.at(
                           [al.as_poly(i), al.sym('jp', int=True, sign='+0')]),
                       (v(b) - v(a)) / (t(b) - t(a)) / tf / v(i), w)
        else:
            for k in ('alphaV', 'Cp-Cv', 'gruneisen'):
                c.same('qha-few', '%s: %s' % (tag, k), item(I, res, k),
                       Arr.full((nT, nP), ZERO), w)
            c.same('qha-few', tag + ': KS', item(I, res, 'KS'),
                   Arr.symbol('rKT', (nT, nP)), w)
        vm = al.power(al.as_poly(lf), 3)
        for k, u in (('H', 'rUtot'), ('G', 'rF')):
            c.same('qha-few', '%s: %s' % (tag, k), item(I, res, k), Arr.build(
                (nT, nP), lambda ix: al.idx(u, *ix) + al.idx(
                    'Pg', ix[1], sign='+0') * pf * al.idx('rVT', *ix) * vm /
                uf), w)


def refusals(c, cfg):
    w = c.where_func(QHA, 'QHACalculator.read_input')
    for n in range(1, 7):
        I, d = setup(c, cfg, reader=lambda I, d: {
            'volume': I.alloc(Arr.symbol('V', (n,), sign=1)),
            'energy': I.alloc(Arr.symbol('U0', (n,)))})
        r = safe_call(c, I, I.get_attr(d['calc'], 'read_input'), 'x.yaml')
        judge(c, 'qha-refuse', '%d volumes' % n, w, r, n < 4)
    I, d = setup(c, cfg, reader={'completed': False, 'error': 'broken file'})
    r = safe_call(c, I, I.get_attr(d['calc'], 'read_input'), 'x.yaml')
    judge(c, 'qha-refuse', 'unreadable input', w, r, True)
    w = c.where_func(QHA, 'QHACalculator.run')
    for scheme in ('td', 'freq'):
        I, d = setup(c, cfg, kieffer=True, qha_scheme=scheme)
        calc = d['calc']
        safe_call(c, I, I.get_attr(calc, 'read_input'), 'x.yaml')
        r = safe_call(c, I, I.get_attr(calc, 'run'))
        tag = 'acoustic correction without acoustic frequencies, ' + scheme
        if isinstance(r, Unknown) and not r.reason.startswith('AbsRaise'):
            c.undecided('qha-refuse', tag, w, r.reason)
            continue
        ok = not isinstance(r, Unknown) and \
            I.get_attr(calc, 'completed') is False and \
            isinstance(I.get_attr(calc, 'error'), str)
        c.need(ok, 'qha-refuse', tag, w, 'run gives %r; completed=%r, '
               'error=%r' % (r, I.get_attr(calc, 'completed'),
                             I.get_attr(calc, 'error')))


def judge(c, rule, tag, w, r, refused):
    if isinstance(r, Unknown):
        if r.reason.startswith('AbsRaise'):
            c.bad(rule, tag, w, 'raises %s' % r.reason)
        else:
            c.undecided(rule, tag, w, r.reason)
        return
    if refused:
        c.need(isinstance(r, str) and r, rule, tag, w,
               'no error returned but %r' % (r,))
    else:
        c.need(r is None, rule, tag, w, 'refused with %r' % (r,))


def reports(c, cfg):
    """Numbers printed for the input and for the results."""
    ef, ff, pf, lf, uf, tf, t0, p2e = conv(cfg)
    tag = '/'.join(cfg)
    w = c.where_func(QHA, 'QHACalculator.report_results')
    nT, nP = 3, 2
    I, d = setup(c, cfg, few=nT)
    calc, log = d['calc'], d['log']
    I.set_attr(calc, '_temperature', I.alloc(Arr.symbol('Tg', (nT,))))
    I.set_attr(calc, '_pressure', I.alloc(Arr.symbol('Pg', (nP,))))
    names = ('VT', 'KT', 'KS', 'alphaV', 'Cp-Cv', 'Cp', 'Cv', 'S', 'F',
             'Utot')
    I.set_attr(calc, '_results', I.new_dict({
        k: I.alloc(Arr.symbol('r' + k, (nT, nP))) for k in names}))
    del log[:]
    r = safe_call(c, I, I.get_attr(calc, 'report_results'))
    got = [x for _, x in printed_numbers(log)]
    if isinstance(r, Unknown):
        c.undecided('qha-report', tag, w, r.reason)
    else:
        a = al.as_poly
        rows = []
        for j in range(nP):
            for i in range(nT):
                rows.append([al.idx('Tg', a(i))] + [
                    al.idx('r' + k, a(i), a(j)) * f for k, f in (
                        ('VT', 1), ('alphaV', 1), ('KT', 1), ('KS', 1),
                        ('Cp-Cv', 1 / ef))])
        nums = [x for x in got if isinstance(x, Poly) and x.const_value()
                is None and not al.equal(x, al.idx('Pg', a(0))) and
                not al.equal(x, al.idx('Pg', a(1)))]
        want = [x for row in rows for x in row]
        c.need(len(nums) == len(want), 'qha-report', tag + ': table size', w,
               '%d numbers printed instead of %d' % (len(nums), len(want)))
        lab = ('T', 'V', 'alphaV', 'KT', 'KS', 'Cp-Cv')
        for k, (g, x) in enumerate(zip(nums, want)):
            c.same('qha-report', '%s: pressure %d row %d, %s' % (
                tag, k // (6 * nT), k // 6 % nT, lab[k % 6]), g, x, w)
        headings(c, tag, w, cfg, log)
        blocks(c, tag, w, cfg, log, nP)
    w = c.where_func(QHA, 'QHACalculator.report_input_data')
    nv = 5
    for mini in ('eos', 'poly'):
        I, d = setup(c, cfg, minimization=mini, reader=lambda I, d: {
            'volume': I.alloc(Arr.symbol('V', (nv,), sign=1)),
            'energy': I.alloc(Arr.symbol('U0', (nv,))), 'nvol': nv})
        I.models['quantas.qha.utils.ev_eos.EnergyEOS.pressure'] = pressure_of
        grad = []
        I.models['numpy.gradient'] = gradient_model(grad)
        calc, log = d['calc'], d['log']
        safe_call(c, I, I.get_attr(calc, 'read_input'), 'x.yaml')
        del log[:]
        # uncertainties of the parameters are formatted with log10 tests
        I.models['numpy.log10'] = lambda I, a, k, n: al.as_poly(-3)
        r = safe_call(c, I, I.get_attr(calc, 'report_input_data'))
        t2 = '%s, %s' % (tag, mini)
        rows = [m for m in log if len(printed_numbers([m])) == 3]
        if isinstance(r, Unknown):
            # the table comes first: judge what was printed before stopping
            if len(rows) != nv:
                c.undecided('qha-report', t2 + ': static table', w, r.reason)
                continue
        c.need(len(rows) == nv, 'qha-report', t2 + ': rows', w,
               '%d rows for %d volumes' % (len(rows), nv))
        V = Arr.symbol('V', (nv,), sign=1)
        U = Arr.symbol('U0', (nv,))
        for k, m in enumerate(rows):
            p, v, e = [x for _, x in printed_numbers([m])]
            kk = al.as_poly(k)
            if mini == 'eos':
                want = al.idx('eosp', *([eos_par('birchmurnaghan', V, U, 0),
                                         eos_par('birchmurnaghan', V, U, 1) /
                                         p2e,
                                         eos_par('birchmurnaghan', V, U, 2),
                                         eos_par('birchmurnaghan', V, U, 3),
                                         V.at([kk])]))
            else:
                want = -al.idx('grad', *(canon(U) + canon(V) + [kk])) / p2e
            c.same('qha-report', '%s: pressure, row %d' % (t2, k), p, want, w)
            c.same('qha-report', '%s: volume, row %d' % (t2, k), v,
                   V.at([kk]), w)
            c.same('qha-report', '%s: energy, row %d' % (t2, k), e,
                   U.at([kk]), w)


FAMILIES = ((3, TEMP, '%s'), (2, LENGTH, '%s^3'), (4, PRESSURE, '%s'))


def headings(c, tag, w, cfg, log):
    """Columns are headed with the units of the settings."""
    seen = set(x for m in log if isinstance(m, str)
               for x in re.findall(r'\(([^()]*)\)', m))
    for k, family, form in FAMILIES:
        known = set(form % n for n in family) | set(
            form % n for v in family.values() for n in v[-1])
        got = seen & known
        t = '%s: heading in %s' % (tag, form % cfg[k])
        if not got:
            c.undecided('qha-report', t, w, 'headings: %s' % sorted(seen))
        else:
            c.need(got == {form % cfg[k]}, 'qha-report', t, w,
                   'the column is headed with %s' % ', '.join(sorted(got)))


def blocks(c, tag, w, cfg, log, nP):
    """Every row of the table stands under its own pressure."""
    cur, row, ok = None, 0, True
    a = al.as_poly
    for m in log:
        ns = [x for _, x in printed_numbers([m]) if isinstance(x, Poly)]
        for j in range(nP):
            if any(al.equal(x, al.idx('Pg', a(j))) for x in ns):
                cur = j
        for j in range(nP):
            if any(al.equal(x, al.idx('rVT', a(i), a(j))) for x in ns
                   for i in range(3)):
                if cur is None:
                    return c.undecided('qha-report', tag + ': pressure',
                                       w, 'no pressure is printed')
                ok = ok and cur == j
    c.need(ok, 'qha-report', tag + ': pressure of each table', w,
           'the results of one pressure stand under another')


def pressure_of(I, a, k, n):
    a = list(a)
    if len(a) == 4:
        a = a[1:]
    p, V = I.to_array(a[1]), I.to_array(a[2])
    return I.alloc(V.map(lambda v: al.idx('eosp', *(
        [p.at([al.as_poly(q)]) for q in range(4)] + [v]))))


def gradient_model(seen):
    def model(I, a, k, n):
        y, x = I.to_array(a[0]), I.to_array(a[1])
        return I.alloc(Arr.build(y.shape, lambda ix: al.idx(
            'grad', *(canon(y) + canon(x) + [ix[0]]))))
    return model


QEXPORT = (('Uzp', 'zero-point', ''), ('Uth', 'thermal energy', ''),
           ('Utot', 'total', ''), ('S', 'entropy', 'm'),
           ('Fvib', 'vibrational', ''), ('F', 'helmholtz', ''),
           ('Cv', 'isochoric heat', 'm'), ('VT', 'volume', None),
           ('Cp', 'isobaric heat capacity', None),
           ('Cp-Cv', 'isobaric heat capacity', None),
           ('KT', 'isothermal', None), ('KS', 'adiabatic', None),
           ('Kp', 'bulk modulus', None), ('H', 'enthalpy', ''),
           ('G', 'gibbs', ''), ('alphaV', 'expansion', None),
           ('gruneisen', 'parameter', None))


def P_qha(c):
    c.rule('qha-grid', 'temperature and pressure grids run from minimum to '
           'maximum, both included')
    c.rule('qha-run', 'a finished run is marked as completed')
    c.rule('qha-volume', 'the volume stored for (T, P) is the minimum of '
           'F(V,T) + P V: the fourth parameter of the equation of state '
           'fitted to F + P V, or the root of dF/dV + P of the polynomial '
           'fitted to F')
    c.rule('qha-bulk', 'the bulk modulus and its derivative are those of the '
           'same fit, in the requested pressure unit')
    c.rule('qha-interpolation', 'every thermodynamic property at (T, P) is '
           'the harmonic property at that temperature, taken at V(P,T)')
    c.rule('qha-derived', 'thermal expansion, heat capacities, adiabatic '
           'bulk modulus, Grueneisen parameter, enthalpy and Gibbs energy are '
           'the stated combinations of the stored results')
    c.rule('qha-fit', 'the quality printed for the fit of a frequency, and '
           'its mean over a band, is that of this mode and this band')
    plan = [(CONFIGS[0], 'td', 'poly'), (CONFIGS[1], 'td', 'eos'),
            (CONFIGS[1], 'freq', 'poly'), (CONFIGS[0], 'freq', 'eos')]
    if c.tier != 'quick':
        plan = [(k, s, m) for k in CONFIGS for s in ('td', 'freq')
                for m in ('poly', 'eos')]
    for cfg, scheme, mini in plan:
        tag = '%s, %s, %s' % (scheme, mini, '/'.join(cfg))
        run_one(c, cfg, scheme, mini, tag)
        # loops the summaries do not cover are followed step by step here
        run_one(c, cfg, scheme, mini, tag + ', 3 x 2', few=(3, 2))
    c.rule('qha-few', 'with fewer than 50 temperatures expansion, Cp-Cv and '
           'Grueneisen parameter stay zero, KS equals KT, and enthalpy and '
           'Gibbs energy are still computed')
    c.rule('qha-refuse', 'unreadable inputs and inputs with fewer than four '
           'volumes are refused, others accepted; asking for the acoustic '
           'correction without acoustic data ends the run with an error')
    c.rule('qha-report', 'the tables print, row by row, the temperature, '
           'volume, expansion, bulk moduli and Cp-Cv (J/mol K) of that cell, '
           'and the static pressure, volume and energy of each input volume')
    few_temperatures(c, CONFIGS[0])
    refusals(c, CONFIGS[0])
    for cfg in CONFIGS[:2]:
        reports(c, cfg)


CHECKS = {'P26': P_qha}
