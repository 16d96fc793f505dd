"""Seismic waves from Christoffel's equation (P29)."""
import itertools

from .. import algebra as al
from ..core import (val, describe, AbsRaise, Budget, Unknown, Arr, Poly,
                    Imprecise)
from ..values import *          # noqa
from .soec import ZERO, c4, s4, matrix, R3, method
from ..project import AnalysisError

SE = 'quantas.seismic.utils.seismic_obj'
RHO = al.sym('rho', sign=1)
LAM = [al.sym('lam%d' % i, sign=1) for i in range(3)]
TH, PH = al.sym('theta'), al.sym('phi')
SPEC = [('phase_velocity', 'rank 1')]


def W(i, a):
    """Component a of the polarisation of wave i."""
    return al.idx('evec', al.as_poly(a), al.as_poly(i))


class Solver(object):
    """Eigenvalue and pseudo-inverse routines, uninterpreted."""

    def __init__(self, order=(0, 1, 2), det=None):
        self.order = order
        self.given = []
        self.pinvs = []
        self.coarse = []
        self.cof = []
        self.det = det

    def eigh(self, I, a, k, node):
        self.given.append(I.num(a[0]))
        return (I.alloc(Arr.build((3,), lambda ix: LAM[int(
            ix[0].const_value())])), I.alloc(Arr.symbol('evec', (3, 3))))

    def eig(self, I, a, k, node):
        self.given.append(I.num(a[0]))
        p = self.order
        return (I.alloc(Arr.build((3,), lambda ix: LAM[p[int(
            ix[0].const_value())]])), I.alloc(Arr.build(
                (3, 3), lambda ix: W(p[int(ix[1].const_value())],
                                     int(ix[0].const_value())))))

    def argsort(self, I, a, k, node):
        x = I.num(a[0])
        if not isinstance(x, Arr) or x.shape != (3,):
            raise Imprecise('argsort')
        at = [x.at([al.as_poly(i)]) for i in R3]
        out = []
        for l in LAM:
            hit = [i for i in R3 if al.equal(at[i], l)]
            if len(hit) != 1:
                raise Imprecise('argsort')
            out.append(hit[0])
        return I.alloc(Arr.build((3,), lambda ix: al.as_poly(out[int(
            ix[0].const_value())])))

    def pinv(self, I, a, k, node):
        x = I.num(a[0])
        n = len(self.pinvs)
        self.pinvs.append(x)
        cut = [k[y] for y in ('rcond', 'rtol', 'tol') if y in k] + a[1:2]
        try:
            cut = [I.num(y).const_value() for y in cut if y is not None]
        except (Imprecise, AttributeError):
            cut = []
        if any(y is not None and y > Fraction(1, 10 ** 6) for y in cut):
            self.coarse.append(cut)
        return I.alloc(Arr.symbol('pinv%d' % n, (3, 3)))

    def table(self):
        return {'numpy.linalg.eigh': self.eigh, 'numpy.linalg.eig': self.eig,
                'numpy.argsort': self.argsort,
                'numpy.linalg.pinv': self.pinv,
                'numpy.linalg.inv': self.inv,
                'numpy.around': self.around, 'numpy.round': self.around}

    def around(self, I, a, k, node):
        """Removing noise of the last digits changes nothing."""
        nd = a[1] if len(a) > 1 else k.get('decimals')
        try:
            if nd is not None and I.num(nd).const_value() >= 6:
                return a[0]
        except (Imprecise, AttributeError, TypeError):
            pass
        return I.np_around(a, k, node)

    def inv(self, I, a, k, node):
        x = I.num(a[0])
        if isinstance(x, Arr) and x.shape == (6, 6):
            return I.alloc(matrix('S', False))
        return I.np_linalg_inv(a, k, node)


def make(c, S=None):
    S = S or Solver()
    I = c.interp(S.table())
    o = I.call(I.get(SE, 'Seismic'), [I.alloc(matrix('C', False)), RHO], {},
               None)
    return I, S, o


def vec(q):
    return Arr.build((3,), lambda ix: al.as_poly(q[int(
        ix[0].const_value())]))


def stack(rows):
    """Nested list -> Arr."""
    def get(ix, x):
        for i in ix:
            x = x[int(i.const_value())]
        return al.as_poly(x)
    shape, x = [], rows
    while isinstance(x, list):
        shape.append(len(x))
        x = x[0]
    return Arr.build(tuple(shape), lambda ix: get(ix, rows))


def total(f, n):
    return sum((f(*t) for t in itertools.product(R3, repeat=n)), ZERO)


def attribute(c, I, o, name):
    try:
        r = val(I, I.get_attr(o, name))
    except (Imprecise, Budget, AbsRaise, al.Undefined, RecursionError) as e:
        r = Unknown('%s: %s' % (type(e).__name__, e))
    c.collect(I)
    return r


def reference(q):
    """Quantities of the wave equation along q."""
    k = 1000 / RHO

    def c(i, j, a, b):
        return c4(i, j, a, b) * k
    M = [[total(lambda m, n: c(i, m, n, l) * q[m] * q[n], 2) for l in R3]
         for i in R3]
    G = [[[total(lambda m: q[m] * (c(i, j, m, l) + c(i, m, j, l)), 1)
           for l in R3] for i in R3] for j in R3]
    H = [[[[c(a, i, j, b) + c(a, j, i, b) for b in R3] for a in R3]
          for j in R3] for i in R3]
    lam1 = [[total(lambda a, b: W(i, a) * G[j][a][b] * W(i, b), 2)
             for j in R3] for i in R3]
    v = [al.power(l, Fraction(1, 2)) for l in LAM]
    group = [[lam1[i][j] / (2 * v[i]) for j in R3] for i in R3]
    size = [al.power(total(lambda j: group[i][j] * group[i][j], 1),
                     Fraction(1, 2)) for i in R3]
    way = [[group[i][j] / size[i] for j in R3] for i in R3]
    return {'M': M, 'G': G, 'H': H, 'lam1': lam1, 'v': v, 'group': group,
            'size': size, 'way': way}


def cofactor(a):
    out = []
    for i in R3:
        row = []
        for j in R3:
            r = [x for x in R3 if x != i]
            s = [x for x in R3 if x != j]
            m = a[r[0]][s[0]] * a[r[1]][s[1]] - a[r[0]][s[1]] * a[r[1]][s[0]]
            row.append(m if (i + j) % 2 == 0 else -m)
        out.append(row)
    return out


def P_seismic(c):
    c.rule('tensors', 'the stiffness tensor divided by the density and the '
           'averages and isotropic velocities derived from it')
    c.rule('equation', 'the matrix solved is Christoffel\'s matrix along the '
           'unit vector of the direction set, given as angles or as any '
           'vector; angles and vector describe the same direction')
    c.rule('phase', 'phase velocities are the square roots of the '
           'eigenvalues, ascending, with their own polarisations')
    c.rule('group', 'group velocities are the gradient of the phase '
           'velocity, wave by wave, with their size, direction, angles and '
           'the power-flow angle')
    c.rule('hessian', 'second derivatives of the eigenvalues by '
           'perturbation theory')
    c.rule('enhancement', 'the enhancement factor follows from the '
           'derivative of the group direction')
    c.rule('cofactor', 'the cofactor matrix, also of singular matrices')
    c.rule('fresh', 'after another direction is set nothing of the first is '
           'reported')
    w = c.where_func(SE, 'Seismic.__init__')
    I, S, o = make(c)
    c.same('tensors', 'Cmat', attribute(c, I, o, 'Cmat'), Arr.build(
        (3,) * 4, lambda ix: c4(*[int(i.const_value()) for i in ix]) * 1000 /
        RHO), w)
    c.same('tensors', 'Smat', attribute(c, I, o, 'Smat'), Arr.build(
        (3,) * 4, lambda ix: s4(*[int(i.const_value()) for i in ix])), w)
    tr = lambda t: total(lambda i, j: t(i, i, j, j), 2)      # noqa
    mx = lambda t: total(lambda i, j: t(i, j, i, j), 2)      # noqa
    KV, KR = tr(c4) / 9, 1 / tr(s4)
    GV = (3 * mx(c4) - tr(c4)) / 30
    GR = 15 / (6 * mx(s4) - 2 * tr(s4))
    K, G = (KV + KR) / 2, (GV + GR) / 2
    vp = al.power(1000 * (K + 4 * G / 3) / RHO, Fraction(1, 2))
    vs = al.power(1000 * G / RHO, Fraction(1, 2))
    for n, v in (('bulk_modulus', K), ('shear_modulus', G),
                 ('isotropic_velocity', vec([vs, vs, vp])), ('iso_S', vs),
                 ('iso_P', vp)):
        c.same('tensors', n, attribute(c, I, o, n), v, c.where_func(
            SE, 'Seismic.' + n))
    n3 = [al.sin(TH) * al.cos(PH), al.sin(TH) * al.sin(PH), al.cos(TH)]
    x3 = [al.sym('x%d' % i) for i in R3]
    L = al.power(total(lambda i: x3[i] * x3[i], 1), Fraction(1, 2))
    u3 = [x / L for x in x3]
    for label, q in (('angles', n3), ('vector', u3)):
        waves(c, label, q, n3, x3)
    again(c, n3)
    cofactors(c)


def point(c, label, o, I, x3):
    try:
        if label == 'angles':
            I.call(I.get_attr(o, 'spherical_direction'), [TH, PH], {}, None)
        else:
            I.call(I.get_attr(o, 'cartesian_direction'), [I.alloc(vec(x3))],
                   {}, None)
    except (Imprecise, Budget, AbsRaise, al.Undefined, RecursionError) as e:
        c.undecided('equation', label, c.where_func(
            SE, 'Seismic.cartesian_direction'), str(e)[:200])
        return False
    return True


def waves(c, label, q, n3, x3):
    R = reference(q)
    where = lambda n: c.where_func(SE, 'Seismic.' + n)      # noqa
    I, S, o = make(c, Solver((2, 0, 1)))
    if not point(c, label, o, I, x3):
        return
    w = where('spherical_direction' if label == 'angles' else
              'cartesian_direction')
    get = lambda n: attribute(c, I, o, n)      # noqa
    c.same('equation', label + ': q', get('q'), vec(q), w)
    c.same('equation', label + ': christoffel', get('christoffel'), stack(
        R['M']), w)
    th, ph = get('theta'), get('phi')
    if isinstance(th, Poly) and isinstance(ph, Poly):
        back = [al.sin(th) * al.cos(ph), al.sin(th) * al.sin(ph), al.cos(th)]
        c.same('equation', label + ': theta and phi', vec(back), vec(q), w)
    else:
        c.undecided('equation', label + ': theta and phi', w, describe(th))
    c.same('equation', label + ': grad_M', get('grad_M'), stack(R['G']),
           where('grad_M'))
    if label == 'angles':       # the rest starts from q and christoffel
        return
    c.same('equation', label + ': hessM', get('hessM'), stack(R['H']),
           where('hessian_christoffel_matrix'))
    c.same('phase', label + ': eigenval', get('eigenval'), vec(LAM),
           where('solve'))
    c.need(len(S.given) >= 1 and all(same(x, R['M']) for x in S.given),
           'phase', label + ': solved matrix', where('solve'),
           'another matrix is solved')
    c.same('phase', label + ': eigenvec', get('eigenvec'), stack(
        [[W(i, a) for a in R3] for i in R3]), where('solve'))
    c.same('phase', label + ': phase_velocity', get('phase_velocity'), vec(
        R['v']), where('phase_velocity'))
    iso = get('isotropic_velocity')
    if isinstance(iso, Arr):
        f = lambda ix: iso.at(ix)      # noqa
        c.same('phase', label + ': rel_phase_velocity', get(
            'rel_phase_velocity'), Arr.build((3,), lambda ix: R['v'][int(
                ix[0].const_value())] / f(ix)), where('rel_phase_velocity'))
        c.same('group', label + ': rel_group_velocity', get(
            'rel_group_velocity'), Arr.build((3,), lambda ix: R['size'][int(
                ix[0].const_value())] / f(ix)), where('rel_group_velocity'))
    for n, k in (('grad_eigenval', 'lam1'), ('group_velocity', 'group'),
                 ('group_dir', 'way')):
        c.same('group', label + ': ' + n, get(n), stack(R[k]),
               where('solve_group'))
    c.same('group', label + ': group_abs', get('group_abs'), vec(R['size']),
           where('solve_group'))
    th, ph = get('group_theta'), get('group_phi')
    if isinstance(th, Arr) and isinstance(ph, Arr):
        back = []
        for i in R3:
            t, p = th.at([al.as_poly(i)]), ph.at([al.as_poly(i)])
            back.append([al.sin(t) * al.cos(p), al.sin(t) * al.sin(p),
                         al.cos(t)])
        c.same('group', label + ': group_theta and group_phi', stack(back),
               stack(R['way']), where('solve_group'))
    else:
        c.undecided('group', label + ': group_theta and group_phi',
                    where('solve_group'), describe(th))
    pf = get('powerflow_angle')
    if isinstance(pf, Arr):
        c.same('group', label + ': powerflow_angle', pf.map(al.cos), vec(
            [total(lambda j: R['way'][i][j] * q[j], 1) for i in R3]),
            where('solve_group'))
    else:
        c.undecided('group', label + ': powerflow_angle',
                    where('solve_group'), describe(pf))
    S.pinvs = []
    h = get('hessian_eigenval')
    used = list(S.pinvs)
    ok = len(used) == 3 and all(same(used[i], [[
        (LAM[i] if a == b else ZERO) - R['M'][a][b] for b in R3]
        for a in R3]) for i in R3)
    if not ok:
        neg = len(used) == 3
        (c.bad if neg else c.undecided)(
            'hessian', label + ': pseudo-inverse', where('hessian_eigenval'),
            'of another matrix than lambda_i - M')
    else:
        c.ok('hessian', label + ': pseudo-inverse', where('hessian_eigenval'))
    c.need(not S.coarse, 'hessian', label + ': cut-off of the pseudo-inverse',
           where('hessian_eigenval'), 'drops modes %s of the others away' %
           S.coarse)
    P = lambda i, a, b: al.idx('pinv%d' % i, al.as_poly(a), al.as_poly(b))  # noqa

    def second(i, j, k):
        r = total(lambda a, b: W(i, a) * R['H'][j][k][a][b] * W(i, b), 2)
        d = [[total(lambda b: R['G'][j][a][b] * W(i, b), 1) for a in R3]
             for j in R3]
        return r + 2 * total(lambda a, b: d[j][a] * P(i, a, b) * d[k][b], 2)
    want = [[[second(i, j, k) for k in R3] for j in R3] for i in R3]
    c.same('hessian', label + ': hessian_eigenval', h, stack(want),
           where('hessian_eigenval'))
    # the enhancement factor, from named hessians
    I, S, o = make(c, Solver((2, 0, 1)))
    if not point(c, label, o, I, x3):
        return
    I.models[SE + '.Seismic.hessian_eigenval'] = lambda I, a, k, n: I.alloc(
        Arr.symbol('hess', (3, 3, 3)))
    seen = []

    def cof(I, a, k, node):
        seen.append(I.num(a[0]))
        n = len(seen) - 1
        return I.alloc(Arr.symbol('cof%d' % n, (3, 3)))
    I.models[SE + '.cofactor'] = cof
    r = attribute(c, I, o, 'enhancement')
    w = where('enhancement')
    if len(seen) != 3:
        return c.undecided('enhancement', 'cofactors', w, '%d cofactors' %
                           len(seen))
    D = lambda *ix: al.idx('hess', *[al.as_poly(i) for i in ix])      # noqa
    for i in R3:
        g, n = R['group'][i], R['size'][i]
        want = [[(D(i, j, k) / n - g[j] * total(
            lambda m: D(i, k, m) * g[m], 1) / (n * n * n)) / (2 * R['v'][i])
            for k in R3] for j in R3]
        c.same('enhancement', 'derivative of direction %d' % i, seen[i],
               stack(want), w)
    C = lambda n, i, j: al.idx('cof%d' % n, al.as_poly(i), al.as_poly(j))  # noqa
    out = []
    for n in R3:
        p = [total(lambda j: C(n, i, j) * q[j], 1) for i in R3]
        out.append(1 / al.power(total(lambda i: p[i] * p[i], 1),
                                Fraction(1, 2)))
    c.same('enhancement', 'factor', r, vec(out), w)


def same(x, rows):
    if not isinstance(x, Arr) or x.shape != (3, 3):
        return False
    return all(al.equal(x.at([al.as_poly(i), al.as_poly(j)]), rows[i][j])
               for i in R3 for j in R3)


def again(c, n3):
    """Results of a second direction on the same object."""
    props = ('eigenval', 'eigenvec', 'phase_velocity', 'grad_M',
             'group_velocity', 'grad_eigenval', 'group_abs', 'group_dir',
             'group_theta', 'group_phi', 'powerflow_angle', 'theta', 'phi',
             'q', 'christoffel')
    a, b = al.sym('theta2'), al.sym('phi2')
    seen = {}
    for how in ('spherical_direction', 'cartesian_direction'):
        w = c.where_func(SE, 'Seismic.' + how)
        arg = [a, b] if how[0] == 's' else [vec([al.sym('y%d' % i)
                                                 for i in R3])]
        got = []
        for first in (True, False):
            S = Solver()

            def eigh(I, A, k, node):
                n = seen.setdefault(I.num(A[0]).key(), len(seen))
                return (I.alloc(Arr.symbol('val%d' % n, (3,))),
                        I.alloc(Arr.symbol('vec%d' % n, (3, 3))))
            S.eigh = eigh
            S.argsort = lambda I, A, k, node: I.alloc(Arr.build(
                (3,), lambda ix: ix[0]))
            I, S, o = make(c, S)
            try:
                one = {}
                if first:
                    I.call(I.get_attr(o, 'spherical_direction'), [TH, PH], {},
                           None)
                    for p in props:
                        I.get_attr(o, p)
                A = [I.alloc(x) if isinstance(x, Arr) else x for x in arg]
                I.call(I.get_attr(o, how), A, {}, None)
                then = dict(I.heap)
                for p in props:     # each the first thing asked for
                    if first:
                        I.heap = dict(then)
                    one[p] = val(I, I.get_attr(o, p))
                got.append(one)
            except (Imprecise, Budget, AbsRaise, al.Undefined,
                    RecursionError) as e:
                c.undecided('fresh', how, w, str(e)[:200])
                break
        if len(got) == 2:
            for p in props:
                c.same('fresh', '%s: %s' % (how, p), got[0][p], got[1][p], w)


def inverse3(I, a, k, node):
    x = I.num(a[0])
    if not isinstance(x, Arr) or x.shape != (3, 3):
        raise Imprecise('inverse')
    m = [[x.at([al.as_poly(i), al.as_poly(j)]) for j in R3] for i in R3]
    f = cofactor(m)
    d = total(lambda j: m[0][j] * f[0][j], 1)
    return I.alloc(stack([[f[j][i] / d for j in R3] for i in R3]))


def cofactors(c):
    w = c.where_func(SE, 'cofactor')
    a = [[al.sym('a%d%d' % (i, j)) for j in R3] for i in R3]
    I = c.interp({'numpy.linalg.inv': inverse3})
    try:
        r = val(I, I.call(I.get(SE, 'cofactor'), [I.alloc(stack(a))], {},
                          None))
    except (Imprecise, Budget, AbsRaise, al.Undefined) as e:
        r = Unknown(str(e))
    c.collect(I)
    c.same('cofactor', 'regular', r, stack(cofactor(a)), w)
    z = [[al.sym('u%d' % i) * al.sym('w%d' % j) + al.sym('s%d' % i) *
          al.sym('t%d' % j) for j in R3] for i in R3]
    I = c.interp({'numpy.linalg.det': lambda I, a, k, n: ZERO})
    try:
        r = val(I, I.call(I.get(SE, 'cofactor'), [I.alloc(stack(z))], {},
                          None))
    except (Imprecise, Budget, AbsRaise, al.Undefined) as e:
        r = Unknown(str(e))
    c.collect(I)
    c.same('cofactor', 'singular', r, stack(cofactor(z)), w)


CHECKS = {'P29': P_seismic}
