"""Polynomial helpers (P28) and Kieffer's acoustic model (P27)."""
from .. import algebra as al
from ..core import (val, run, dim, describe, AbsRaise, Budget, Unknown, Arr,
                    Poly, Imprecise)
from ..values import *          # noqa

ZERO, ONE = al.as_poly(0), al.as_poly(1)
PM = 'quantas.utils.math.polynomials'
FM = 'quantas.utils.math.fast_math'
KF = 'quantas.qha.utils.kieffer'


def power_sum(coef, x, n):
    """sum_k coef(k) x^k"""
    k = al.fresh('k', sign='+0')
    return al.make_sum(coef(k) * al.power(x, k), k, ZERO, n)


def table(I, nums):
    return I.alloc(Arr((len(nums),), {(i,): al.as_poly(x)
                                      for i, x in enumerate(nums)}))


# f = sum k_i x^i, addendum of f', abscissas of the minima of f + addendum x
F = Fraction
MINIMA = [
    ('parabola', [1, -4, F(1, 2)], None, [4]),
    ('parabola and pressure', [1, -4, F(1, 2)], 1, [3]),
    ('parabola and negative pressure', [1, -4, F(1, 2)], -2, [6]),
    ('inverted parabola', [0, 2, -1], None, []),
    ('cubic', [0, -6, F(1, 2), F(1, 3)], None, [2]),
    ('cubic and pressure', [0, -12, F(1, 2), F(1, 3)], 6, [2]),
    ('double well', [0, -6, F(11, 2), -2, F(1, 4)], None, [1, 3]),
    ('well and complex stationary points', [0, -2, F(1, 2), F(-2, 3),
                                            F(1, 4)], None, [2]),
    ('quartic maximum', [0, 6, F(-11, 2), 2, F(-1, 4)], None, [2]),
    ('no stationary point', [0, 1, 0, F(1, 3)], None, []),
    ('constant added to a cubic', [7, -2, F(1, 2), F(1, 3)], -4, [2]),
]


def P_polynomials(c):
    c.rule('interpolate', 'interpolate(x, c) is sum_k c_k x^k for each row of '
           'coefficients and each abscissa, rows and abscissas in their order')
    c.rule('fit-rows', 'polyfit fits each row of Y on its own, against X, with '
           'the degree asked for, and returns ascending coefficients')
    c.rule('r-squared', 'R_squared is the regression sum over the total sum of '
           'squares of each row, about that row\'s mean')
    c.rule('minimum', 'find_polynomial_minimum returns the real stationary '
           'points of the polynomial plus the linear term where the second '
           'derivative is positive, and no other point')
    nx, nc, nv = dim('nx'), dim('nc'), dim('nv')
    w = c.where_func(PM, 'interpolate')
    xs = Arr.symbol('x', (nx,), sign=1)
    x = al.sym('x', sign=1)
    for sh in ((nc,), (4,), (nv, nc), (1, nc), (2, 3), (3, nv, nc),
               (2, 3, 2)):
        for X in (xs, x):
            if len(sh) == 3 and X is x:
                continue
            out = sh[:-1] + ((nx,) if X is xs else ())
            co = Arr.symbol('c', sh)

            def cell(ix, sh=sh, X=X, co=co):
                r = list(ix[:len(sh) - 1])
                at = xs.at([ix[-1]]) if X is xs else x
                n = sh[-1]
                if isinstance(n, int):
                    s = ZERO
                    for k in range(n):
                        s = s + co.at(r + [k]) * al.power(at, k)
                    return s
                return power_sum(lambda k: co.at(r + [k]), at, n)
            I = c.interp()
            I, got = run(c, PM, 'interpolate', [
                I.alloc(xs) if X is xs else x, I.alloc(co)], I=I)
            c.same('interpolate', 'coefficients %s, %s' % (
                tuple(d if isinstance(d, int) else al.show(d) for d in sh),
                'array' if X is xs else 'scalar'), got,
                Arr.build(out, cell) if out else cell(()), w)
    nx_, xs_ = nx, xs
    w = c.where_func(PM, 'polyfit')
    for deg in (1, 2, 3, 5):
        for rows, nx in ((None, nx_), (1, nx_), (3, nx_), (nv, nx_), (4, 4),
                         (6, 6), (4, 6), (6, 4), (nx_, nx_)):
            if isinstance(nx, int) and nx <= deg:
                continue
            xs = Arr.symbol('x', (nx,), sign=1)
            I = c.interp()
            Y = Arr.symbol('y', (nx,) if rows is None else (rows, nx))
            I, got = run(c, PM, 'polyfit', [
                I.alloc(xs), I.alloc(Y), al.as_poly(deg)], I=I)
            J = c.interp()

            def coef(ix, Y=Y, rows=rows, deg=deg, J=J, nx=nx, xs=xs):
                y = Y if rows is None else Arr.build(
                    (nx,), lambda j: Y.at([ix[0], j[0]]))
                r = J.np_polynomial_polynomial_polyfit(
                    [J.alloc(xs), J.alloc(y), al.as_poly(deg)], {}, None)
                return J.content(r).at([ix[-1]])
            want = Arr.build((deg + 1,) if rows is None else (rows, deg + 1),
                             coef)
            c.same('fit-rows', 'degree %d, %s, %s abscissas' % (
                deg, 'one row' if rows is None else '%s rows' % (
                    rows if isinstance(rows, int) else al.show(rows)),
                nx if isinstance(nx, int) else 'n'), got, want, w)
    nx, xs = nx_, xs_
    w = c.where_func(PM, 'R_squared')
    for rows in (None, 1, 2, nv):
        for deg in (2, 4, None):
            I = c.interp()
            lead = () if rows is None else (rows,)
            Y = Arr.symbol('y', lead + (nx,), sign=1)
            C = Arr.symbol('c', lead + ((nc,) if deg is None else (deg,)),
                           sign=1)
            I, got = run(c, PM, 'R_squared', [I.alloc(xs), I.alloc(Y),
                                              I.alloc(C)], I=I)

            def r2(ix, Y=Y, C=C, deg=deg):
                r = list(ix)
                j, k = al.fresh('j', sign='+0'), al.fresh('j', sign='+0')

                def fit(j):
                    if deg is None:
                        return power_sum(lambda k: C.at(r + [k]), xs.at([j]),
                                         nc)
                    s = ZERO
                    for q in range(deg):
                        s = s + C.at(r + [q]) * al.power(xs.at([j]), q)
                    return s
                mean = al.make_sum(Y.at(r + [k]), k, ZERO, nx) / nx
                top = al.make_sum(al.power(fit(j) - mean, 2), j, ZERO, nx)
                low = al.make_sum(al.power(Y.at(r + [j]) - mean, 2), j, ZERO,
                                  nx)
                if rows is None:
                    return top / low
                return al.ite(al.eq0(low), ZERO, top / low)
            want = Arr.build(lead, r2) if lead else r2(())
            c.same('r-squared', '%s, %s coefficients' % (
                'one row' if rows is None else '%s rows' % (
                    rows if isinstance(rows, int) else 'n'),
                deg or 'any number of'), got, want, w)
    w = c.where_func(PM, 'find_polynomial_minimum')
    for tag, co, add, want in MINIMA:
        I = c.interp()
        I, got = run(c, PM, 'find_polynomial_minimum', [table(I, co)] + (
            [] if add is None else [al.as_poly(add)]), I=I)
        if isinstance(got, Arr) and len(got.shape) == 1 and \
                isinstance(got.shape[0], int):
            vals = [got.at([i]).const_value() for i in range(got.shape[0])]
            if None not in vals:
                c.need(sorted(vals) == sorted(map(Fraction, want)), 'minimum',
                       tag, w, 'returns %s instead of %s' % (
                           [str(v) for v in vals], want))
                continue
        c.undecided('minimum', tag, w, describe(got))


# ------------------------------------------------------------------------ Kieffer
def integrands(x, xi, T):
    """Integrand times prefactor of each acoustic function (per branch)."""
    h, kB, NA = al.sym('h'), al.sym('kB'), al.sym('NA')
    shape = al.power(al.app('asin', x / xi), 2) / al.power(
        xi * xi - x * x, Fraction(1, 2))
    f = 3 * NA * kB * al.power(2 / al.PI, 3)
    e = al.exp(x)
    return {
        'helmholtz': f * T * shape * al.log(1 - al.exp(-x)),
        'heat_capacity': f * shape * x * x * e / al.power(e - 1, 2),
        'entropy': f * shape * (x / (e - 1) - al.log(1 - al.exp(-x))),
    }


class Quad(object):
    """scipy.integrate.quad: the integral is a new symbol, the integrand is
    evaluated at a fraction v/(1+v) of the upper limit."""

    def __init__(self, I):
        self.calls = []
        self.v = al.sym('v', sign=1)
        I.models['scipy.integrate.quad'] = self.call

    def call(self, I, a, k, node):
        names = ('func', 'a', 'b', 'args')
        k = dict(k)
        k.update(zip(names, a))
        lo, hi = I.num(k['a']), I.num(k['b'])
        extra = k.get('args', ())
        if not isinstance(extra, tuple):
            extra = tuple(I.iter_concrete(extra) or (extra,))
        x = hi * self.v / (1 + self.v)
        f = I.num(I.call(k['func'], [x] + list(extra), {}, node))
        s = al.sym('integral%d' % len(self.calls))
        self.calls.append((s, lo, hi, x, f))
        return (s, al.sym('integration_error'))


def kieffer(c):
    c.rule('acoustic', 'each acoustic function is the sum over the branches '
           'of the integral of Kieffer\'s sine-dispersion density of states '
           'times the oscillator function, from 0 to h nu/(k T)')
    c.rule('acoustic-zero', 'at 0 K the acoustic contributions are zero')
    nu = [al.sym('nu_%d' % i, sign=1) for i in range(3)]
    T = al.sym('T', sign=1)
    for name in ('helmholtz', 'heat_capacity', 'entropy'):
        w = c.where_func(KF, 'Kieffer.' + name)
        plans = [nu[:1], nu, [al.as_poly(x) for x in (4, 4, 9)],
                 [nu[0], nu[2], nu[0]]]
        for fs in plans:
            n = len(fs)
            for again in (False, True):
                I = c.interp()
                Q = Quad(I)
                tag = '%s, branches %s%s' % (
                    name, ', '.join(al.show(f) for f in fs), ', frequencies set again' if again else '')
                try:
                    k = I.call(I.get(KF, 'Kieffer'), [table(
                        I, [5, 7] if again else fs)], {}, None)
                    if again:
                        I.set_attr(k, 'acofreq', table(I, fs), None)
                    r = I.num(I.call(I.get_attr(k, name), [T], {}, None))
                    zero = I.num(I.call(I.get_attr(k, name), [ZERO], {},
                                        None)) if n == 3 else None
                except (Imprecise, Budget, AbsRaise, al.Undefined) as e:
                    c.undecided('acoustic', tag, w, '%s: %s' % (
                        type(e).__name__, e))
                    c.collect(I)
                    continue
                c.collect(I)
                if zero is not None:
                    c.same('acoustic-zero', tag, zero, ZERO, w)
                branches(c, tag, w, r, Q, fs, T, name)


def branches(c, tag, w, r, Q, nu, T, name):
    rest = r
    parts = []
    for s, lo, hi, x, f in Q.calls:
        z = al.subst(r, {al.sid(s): ZERO})
        k = al.subst(r, {al.sid(s): ONE}) - z
        if al.sid(s) in k.all_atoms():
            return c.undecided('acoustic', tag, w, 'not linear in the '
                               'integral')
        rest = rest - k * s
        parts.append((k, lo, hi, x, f))
    used = [p for p in parts if p[0].const_value() != 0]
    h, kB = al.sym('h'), al.sym('kB')
    c.same('acoustic', tag + ': nothing but the integrals', rest, ZERO, w)
    if not c.need(len(used) == len(nu), 'acoustic', tag + ': one integral for '
                  'each branch', w, '%d integrals' % len(used)):
        return
    left = list(used)
    for i, f in enumerate(nu):
        xi = h * f / (kB * T)
        p = next((p for p in left if al.equal(p[2], xi)), None)
        if p is None:
            c.bad('acoustic', '%s: upper limit of branch %d' % (tag, i), w,
                  'none of %s is %s' % ([al.show(q[2]) for q in left],
                                        al.show(xi)))
            continue
        left.remove(p)
        lo = p[1].const_value()
        if lo is None:
            c.undecided('acoustic', '%s: lower limit of branch %d' % (tag, i),
                        w, al.show(p[1]))
        else:
            c.need(0 <= lo <= Fraction(1, 10 ** 4), 'acoustic',
                   '%s: lower limit of branch %d' % (tag, i), w,
                   'integrates from %s' % float(lo))
        c.same('acoustic', '%s: integrand of branch %d' % (tag, i),
               p[0] * p[4], integrands(p[3], xi, T)[name], w)


CHECKS = {'P27': kieffer, 'P28': P_polynomials}
