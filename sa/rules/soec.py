"""Second-order elastic constants: tensor quantities, orthorhombic
specialisation, stability gate, polar planes and directional extrema."""
import itertools

from ..core import *          # noqa
from .. import algebra as al

SO = 'quantas.soec.utils.soec_obj'
SC = 'quantas.soec.soec'
SY = 'quantas.soec.utils.symmetry'
ZERO, ONE = al.as_poly(0), al.as_poly(1)
VM = [[0, 5, 4], [5, 1, 3], [4, 3, 2]]
ORTHO = {(0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (0, 1), (0, 2),
         (1, 2)}
RHO = al.sym('rho', sign=1)


def sy(name, i, j, ortho=False):
    i, j = min(i, j), max(i, j)
    if ortho and (i, j) not in ORTHO:
        return ZERO
    return al.sym('%s%d%d' % (name, i + 1, j + 1))


def matrix(name, ortho=False):
    def cell(ix):
        return sy(name, int(ix[0].const_value()), int(ix[1].const_value()),
                  ortho)
    return Arr.build((6, 6), cell)


def c4(i, j, k, l, ortho=False):
    return sy('C', VM[i][j], VM[k][l], ortho)


def s4(i, j, k, l, ortho=False):
    p, q = VM[i][j], VM[k][l]
    return sy('S', p, q, ortho) * Fraction(1, (1 + p // 3) * (1 + q // 3))


def nvec(th, ph):
    return [al.sin(th) * al.cos(ph), al.sin(th) * al.sin(ph), al.cos(th)]


def mvec(th, ph, ch):
    """Unit vector at angle chi in the plane normal to the direction."""
    return [al.cos(th) * al.cos(ph) * al.cos(ch) - al.sin(ph) * al.sin(ch),
            al.cos(th) * al.sin(ph) * al.cos(ch) + al.cos(ph) * al.sin(ch),
            -al.sin(th) * al.cos(ch)]


R3 = range(3)


def young(a, o=False):
    r = ZERO
    for i, j, k, l in itertools.product(R3, repeat=4):
        r = r + s4(i, j, k, l, o) * a[i] * a[j] * a[k] * a[l]
    return 1 / r


def lincomp(a, o=False):
    r = ZERO
    for i, j, k in itertools.product(R3, repeat=3):
        r = r + a[i] * a[j] * s4(i, j, k, k, o)
    return 1000 * r


def shear(a, b, o=False):
    r = ZERO
    for i, j, k, l in itertools.product(R3, repeat=4):
        r = r + a[i] * b[j] * a[k] * b[l] * s4(i, j, k, l, o)
    return 1 / (4 * r)


def poisson(a, b, o=False):
    r1 = r2 = ZERO
    for i, j, k, l in itertools.product(R3, repeat=4):
        r1 = r1 + a[i] * a[j] * b[k] * b[l] * s4(i, j, k, l, o)
        r2 = r2 + a[i] * a[j] * a[k] * a[l] * s4(i, j, k, l, o)
    return -r1 / r2


def christoffel(a, o=False):
    return [[sum((c4(i, j, l, k, o) * a[j] * a[l] for j in R3 for l in R3),
                 ZERO) for k in R3] for i in R3]


def eigval(k, entries):
    return al.app('eigval%d' % k, *entries, sign='+0')


def velocities(a, o=False):
    """sqrt(eigenvalue/density) of the Christoffel matrix, km/s."""
    ch = christoffel(a, o)
    entries = [ch[i][j] * 10 ** 9 for i in R3 for j in R3]
    return [al.power(eigval(k, entries) / RHO, Fraction(1, 2)) / 1000
            for k in R3]


def lowest(t):
    return al.app('minimum', t)


ZETA = [al.sym('zeta%d' % k) for k in range(3)]


class Models(object):
    """Library calls whose results the analysis leaves uninterpreted."""

    def __init__(self, ortho=False, eig=None):
        self.ortho = ortho
        self.eig = eig
        self.inv_args = []
        self.searches = []
        self.eigh_args = []

    def inv(self, I, args, kw, node):
        self.inv_args.append(I.num(args[0]))
        return I.alloc(matrix('S', self.ortho))

    def eigh(self, I, args, kw, node):
        a = I.num(args[0])
        self.eigh_args.append(a)
        n = a.shape[0]
        entries = [a.at([al.as_poly(i), al.as_poly(j)]) for i in range(n)
                   for j in range(n)]
        v = I.alloc(Arr.build((n,), lambda ix: eigval(
            int(ix[0].const_value()), entries)))
        return v

    def eigh2(self, I, args, kw, node):
        v = self.eigh(I, args, kw, node)
        return (v, I.alloc(Arr.symbol('evec', (3, 3))))

    def minimize(self, I, args, kw, node):
        a = dict(zip(('fun', 'x0', 'args'), args))
        a.update(kw)
        extra = a.get('args', ())
        extra = extra if isinstance(extra, tuple) else (extra,)
        x = I.alloc(Arr.build((1,), lambda ix: ZETA[2]))
        t = I.num(I.call(a['fun'], [x] + list(extra), {}, node))
        if isinstance(t, Arr):
            t = t.at([ZERO] * t.ndim())
        return Opaque(('minimize', lowest(t)), fun=lowest(t), attrs={
            'fun': lowest(t), 'x': I.alloc(Arr.build(
                (1,), lambda ix: al.app('argmin', t))),
            'success': True})

    def brute(self, I, args, kw, node):
        a = dict(zip(('func', 'ranges', 'args', 'Ns', 'full_output',
                      'finish'), args))
        a.update(kw)
        rg = I.iter_concrete(a['ranges'])
        n = len(rg)
        bounds = []
        for r in rg:
            q = I.iter_concrete(r)
            bounds.append(tuple(I.num(x) for x in q) if q is not None else
                          None)
        x = I.alloc(Arr.build((n,), lambda ix: ZETA[int(
            ix[0].const_value())]))
        t = I.num(I.call(a['func'], [x], {}, node))
        self.searches.append((bounds, t))
        arg = I.alloc(Arr.build((n,), lambda ix: al.app(
            'argmin%d' % int(ix[0].const_value()), t)))
        if I.truth_of(a.get('full_output')) is not True if hasattr(
                I, 'truth_of') else a.get('full_output') is not True:
            return arg
        return (arg, lowest(t), None, None)

    def bar(self, I, args, kw, node):
        return args[0] if args else kw.get('iterable')

    def table(self):
        m = {
            'numpy.linalg.inv': self.inv,
            'numpy.linalg.eigh': self.eigh2,
            'numpy.linalg.eigvalsh': self.eigh,
            'scipy.optimize.minimize': self.minimize,
            'scipy.optimize.brute': self.brute,
            'click.progressbar': self.bar,
        }
        if self.eig is not None:
            vals = self.eig

            def eig(I, args, kw, node):
                return (I.alloc(Arr.build((6,), lambda ix: al.as_poly(vals[
                    int(ix[0].const_value())]))),
                    I.alloc(Arr.symbol('evec6', (6, 6))))

            def eigv(I, args, kw, node):
                return eig(I, args, kw, node)[0]
            m['numpy.linalg.eig'] = eig
            m['numpy.linalg.eigvals'] = eigv

            def e6(I, args, kw, node):
                a = I.num(args[0])
                return eig(I, args, kw, node) if a.shape[0] == 6 else \
                    self.eigh2(I, args, kw, node)

            def e6v(I, args, kw, node):
                r = e6(I, args, kw, node)
                return r[0]
            m['numpy.linalg.eigh'] = e6
            m['numpy.linalg.eigvalsh'] = e6v
        return m


def tensor(c, ortho=False, special=False):
    M = Models(ortho)
    I = c.interp(M.table())
    o = I.call(I.get(SO, 'SOEC'), [I.alloc(matrix('C', ortho)), RHO], {},
               None)
    if special:
        o = I.call(I.get(SO, 'SOECOrtho'), [o], {}, None)
    return I, M, o


def method(c, I, o, name, *args):
    try:
        r = I.call(I.get_attr(o, name), list(args), {}, None)
        r = val(I, r)
    except (Imprecise, Budget, AbsRaise, al.Undefined, RecursionError) as e:
        r = Unknown('%s: %s' % (type(e).__name__, e))
    c.collect(I)
    return r


TH, PH, CH = al.sym('theta'), al.sym('phi'), al.sym('chi')


def directional(c, rule, I, o, cls, ortho=False):
    a, b = nvec(TH, PH), mvec(TH, PH, CH)
    two = I.new_list([TH, PH])
    three = I.new_list([TH, PH, CH])
    for name, arg, want in (
            ('young_modulus', two, young(a, ortho)),
            ('linear_compressibility', two, lincomp(a, ortho)),
            ('shear_modulus', three, shear(a, b, ortho)),
            ('poisson_ratio', three, poisson(a, b, ortho))):
        got = method(c, I, o, name, arg)
        c.same(rule, '%s.%s' % (cls, name), got, want,
               c.where_func(SO, '%s.%s' % (cls, name)))


def averages():
    k = lambda f: sum((f(i, i, j, j) for i in R3 for j in R3), ZERO)
    t = lambda f: sum((f(i, j, i, j) for i in R3 for j in R3), ZERO)
    KV = k(c4) / 9
    GV = (3 * t(c4) - k(c4)) / 30
    KR = 1 / k(s4)
    GR = Fraction(15, 2) / (3 * t(s4) - k(s4))
    KH, GH = (KV + KR) / 2, (GV + GR) / 2
    out = []
    for K, G in ((KV, GV), (KR, GR), (KH, GH)):
        out.append((K, 9 * K * G / (3 * K + G), G,
                    (3 * K - 2 * G) / (6 * K + 2 * G)))
    return out


def P_tensor(c):
    c.rule('directional', 'directional moduli are the contractions of the '
           'fourth-rank compliance with the unit vectors of the given angles')
    c.rule('averages', 'Voigt, Reuss and Hill moduli are the linear '
           'invariants of stiffness and compliance')
    c.rule('wave', 'phase velocities are the ascending roots of the '
           'eigenvalues of C_ijkl n_j n_l over the density')
    c.rule('inverse', 'the compliance is the inverse of the stiffness given')
    I, M, o = tensor(c)
    w = c.where_func(SO, 'SOEC.__init__')
    if M.inv_args:
        c.same('inverse', 'matrix inverted', M.inv_args[0], matrix('C'), w)
        c.same('inverse', 'stiffness', val(I, I.get_attr(o, 'stiffness')),
               matrix('C'), w)
        c.same('inverse', 'compliance', val(I, I.get_attr(o, 'compliance')),
               matrix('S'), w)
        V = ((0, 5, 4), (5, 1, 3), (4, 3, 2))
        flat = lambda m: Arr.build((3,) * 4, lambda ix: m(*[
            int(x.const_value()) for x in ix]))
        C, S = matrix('C'), matrix('S')
        half = lambda v: 1 if v < 3 else Fraction(1, 2)
        # the tensors an object keeps for its methods
        for nm, t in (('Cmat', lambda i, j, k, l: C.data[V[i][j], V[k][l]]),
                      ('Smat', lambda i, j, k, l: half(V[i][j]) * half(
                          V[k][l]) * S.data[V[i][j], V[k][l]])):
            if nm in getattr(I.content(o), 'fields', {}):
                c.same('inverse', 'tensor of the %s' % (
                    'stiffness' if nm[0] == 'C' else 'compliance'),
                    val(I, I.get_attr(o, nm)), flat(t), w)
    else:
        c.undecided('inverse', 'matrix inverted', w, 'no inversion found')
    # vectors
    c.rule('vectors', 'polar angles give the unit vector and, with the third '
           'angle, a unit vector normal to it')
    for mod, name in ((SO, 'vector'), ('quantas.utils.math.fast_math',
                                       'vector')):
        _, got = run(c, mod, name, [TH, PH])
        if isinstance(got, Arr):
            got = tuple(got.at([al.as_poly(k)]) for k in R3)
        c.same('vectors', mod + '.' + name, got, tuple(nvec(TH, PH)),
               c.where_func(mod, name))
    _, got = run(c, SO, 'vector', [TH, PH, CH])
    if isinstance(got, Arr):
        got = tuple(got.at([al.as_poly(k)]) for k in R3)
    c.same('vectors', 'measurement vector', got, tuple(mvec(TH, PH, CH)),
           c.where_func(SO, 'vector'))
    directional(c, 'directional', I, o, 'SOEC')
    # averages
    got = method(c, I, o, 'averages')
    for r, (row, lab) in enumerate(zip(averages(), ('Voigt', 'Reuss',
                                                    'Hill'))):
        for k, (x, q) in enumerate(zip(row, ('K', 'E', 'G', 'nu'))):
            g = got
            if isinstance(got, Arr):
                g = got.at([al.as_poly(r), al.as_poly(k)])
            elif isinstance(got, tuple):
                g = got[r]
                g = g.at([al.as_poly(k)]) if isinstance(g, Arr) else g[k]
            c.same('averages', '%s %s' % (lab, q), g, x,
                   c.where_func(SO, 'SOEC.averages'))
    # velocities
    M.eigh_args = []
    got = method(c, I, o, 'phase_velocity', I.new_list([TH, PH]))
    want = velocities(nvec(TH, PH))
    c.same('wave', 'phase velocities', got, Arr.build(
        (3,), lambda ix: want[int(ix[0].const_value())]),
        c.where_func(SO, 'SOEC.phase_velocity'))
    for name, k in (('longitudinal_wave', 2), ('shear_wave_1', 0),
                    ('shear_wave_2', 1)):
        got = method(c, I, o, name, I.new_list([TH, PH]))
        c.same('wave', name, got, want[k], c.where_func(SO, 'SOEC.' + name))
    KH, _, GH, _ = averages()[2]
    vs = al.power(1000 * GH / RHO, Fraction(1, 2))
    vp = al.power(1000 * (KH + Fraction(4, 3) * GH) / RHO, Fraction(1, 2))
    got = method(c, I, o, 'isotropic_velocities')
    iso = (vs, vs, vp)
    c.same('wave', 'isotropic average velocities', got, Arr.build(
        (3,), lambda ix: iso[int(ix[0].const_value())]),
        c.where_func(SO, 'SOEC.isotropic_velocities'))
    # extrema over the measurement direction
    c.rule('transverse-extrema', 'for a direction, the smallest and largest '
           'shear modulus and Poisson ratio are searched over the measurement '
           'angle of that direction')
    z = mvec(TH, PH, ZETA[2])
    a = nvec(TH, PH)
    G, Nu = shear(a, z), poisson(a, z)
    got = method(c, I, o, 'shear_2d', I.new_list([TH, PH]))
    c.same('transverse-extrema', 'shear', got, (lowest(G), -lowest(-G)),
           c.where_func(SO, 'SOEC.shear_2d'))
    got = method(c, I, o, 'poisson_2d', I.new_list([TH, PH]))
    lo = lowest(Nu)
    c.same('transverse-extrema', 'Poisson', got,
           (minz(lo), maxz(lo), -lowest(-Nu)),
           c.where_func(SO, 'SOEC.poisson_2d'))
    c.assumptions.append('eigen-solvers, matrix inversion and minimisers are '
                         'trusted to do what NumPy and SciPy document')


def minz(x):
    return al.ite(al.lt0(x), x, ZERO)


def maxz(x):
    return al.ite(al.lt0(x), ZERO, x)


def P_ortho(c):
    c.rule('agreement', 'the orthorhombic class returns, for every '
           'orthorhombic matrix and every direction, the value of the '
           'general tensor contraction')
    I, M, o = tensor(c, ortho=True, special=True)
    directional(c, 'agreement', I, o, 'SOECOrtho', True)
    a = nvec(TH, PH)
    want = velocities(a, True)
    got = method(c, I, o, 'phase_velocity', I.new_list([TH, PH]))
    c.same('agreement', 'SOECOrtho.phase_velocity', got, Arr.build(
        (3,), lambda ix: want[int(ix[0].const_value())]),
        c.where_func(SO, 'SOECOrtho'))
    c.rule('selection', 'the orthorhombic class is used exactly for matrices '
           'classified as orthorhombic and carries stiffness and density over')
    for system in ('orthorhombic', 'cubic', 'monoclinic', 'triclinic',
                   'hexagonal', 'tetragonal_high', 'tetragonal_low',
                   'trigonal_low', 'trigonal_high'):
        I, calc, M = calculator(c, system=system)
        s = I.get_attr(calc, 'soec')
        cont = I.content(s)
        if not isinstance(cont, ObjC):
            c.undecided('selection', system, '', describe(s))
            continue
        names = [k.name for k in cont.cls.mro]
        if system == 'orthorhombic':
            c.ok('selection', system)
        else:
            c.need('SOECOrtho' not in names, 'selection', system,
                   c.where_func(SC, 'SOECCalculator.read_input'),
                   'a %s crystal is analysed with orthorhombic formulas' %
                   system)
        c.same('selection', system + ': stiffness', val(
            I, I.get_attr(s, 'stiffness')), matrix('C'), '')
        c.same('selection', system + ': density', val(
            I, I.get_attr(s, 'density')), RHO, '')


SETTINGS = {'polar': False, 'silent': True, 'debug': False, 'logfile': None,
            'pressure_unit': 'GPa', 'plotting': False, 'outfig': 'fig',
            'dpi': 80}


def calculator(c, system='cubic', density=RHO, eig=None, settings=None,
               ortho=False):
    M = Models(ortho, eig)
    m = M.table()
    I = c.interp(m)

    def reader(I, args, kw, node):
        cls = I.get('quantas.core.reader', 'BasicReader')
        return Opaque(('reader',), attrs={
            'completed': True, 'error': None, 'jobname': 'job',
            'stiffness': I.alloc(matrix('C', ortho)), 'density': density,
            '_data': None})
    I.models['quantas.IO.soec_reader.SOECInputFileReader'] = reader
    if system is not None:
        I.models[SY + '.check_symmetry'] = lambda I, a, k, n: system
    st = dict(SETTINGS)
    st.update(settings or {})
    calc = I.call(I.get(SC, 'SOECCalculator'), [I.new_dict(
        {k: (al.as_poly(v) if isinstance(v, int) and not isinstance(v, bool)
             else v) for k, v in st.items()})], {}, None)
    err = I.call(I.get_attr(calc, 'read_input'), ['file.dat'], {}, None)
    c.collect(I)
    return I, calc, M


def printed_numbers(log):
    """Numbers of the messages, in print order: [(format, term)]."""
    out = []

    def walk(k):
        if isinstance(k, Opaque):
            walk(k.key)
        elif isinstance(k, tuple):
            if len(k) == 3 and k[0] == 'fmt':
                out.append((k[1], k[2]))
                return
            for x in k:
                walk(x)
    for m in log:
        walk(m)
    return out


def capture(I):
    """Record every message instead of printing it."""
    log = []
    I.tapes.append(log)

    def rec(I, a, k, n):
        log.append(a[0] if a else k.get('msg'))
    for f in ('echo', 'echo_error', 'echo_warning', 'echo_highlight'):
        I.models['quantas.cmdline.utils.messages.' + f] = rec
    return log


def safe_call(c, I, f, *args):
    try:
        r = I.call(f, list(args), {}, None)
    except (Imprecise, Budget, AbsRaise, al.Undefined, RecursionError) as e:
        r = Unknown('%s: %s' % (type(e).__name__, e))
    c.collect(I)
    return r


def P_gate(c):
    c.rule('gate', 'with every stiffness eigenvalue positive the analysis '
           'completes; with any eigenvalue zero or negative, at any position, '
           'no directional search or polar calculation is made, the '
           'calculation is not marked completed and the instability is '
           'reported')
    pats = [([1, 2, 3, 4, 5, 6], True)]
    for k in range(6):
        for v in (-1, 0):
            e = [1, 2, 3, 4, 5, 6]
            e[k] = v
            pats.append((e, False))
    pats.append(([-1] * 6, False))
    tiny, huge = Fraction(1, 10 ** 9), 10 ** 9
    for k in (0, 3, 5):
        for v, ok in ((tiny, True), (-tiny, False), (huge, True),
                      (-huge, False)):
            e = [1, 2, 3, 4, 5, 6]
            e[k] = v
            pats.append((e, ok))
    pats += [([3] * 6, True), ([6, 1, 5, 2, 4, 3], True),
             ([-1, 2, 3, -4, 5, 6], False), ([0, 0, 1, 2, 3, 4], False),
             ([tiny] * 6, True)]
    for e, stable in pats:
        I, calc, M = calculator(c, eig=e, settings={
            'polar': not stable and e[0] in (-1, 0)})
        log = capture(I)
        M.searches = []

        def polar():
            p = I.content(I.get_attr(calc, 'results')).items.get('polar')
            return [val(I, I.content(I.content(p).items[x]).items['E'])
                    for x in ('xy', 'xz', 'yz')]
        had = polar()
        r = safe_call(c, I, I.get_attr(calc, 'run'))
        tag = 'eigenvalues %s' % [str(x) for x in e]
        w = c.where_func(SC, 'SOECCalculator.run')
        if isinstance(r, Unknown):
            c.undecided('gate', tag, w, r.reason)
            continue
        done = I.get_attr(calc, 'completed')
        if stable:
            c.need(done is True and M.searches, 'gate', tag, w,
                   'a stable crystal is not analysed (completed %r, %d '
                   'directional searches)' % (done, len(M.searches)))
        else:
            c.need(done is not True and not M.searches, 'gate', tag, w,
                   'an unstable crystal is analysed further (completed %r, '
                   '%d directional searches)' % (done, len(M.searches)))
            c.need(all(same_value(y, x)[0] != 'differ' for x, y in zip(
                had, polar())), 'gate', tag + ': polar data', w,
                'are computed for an unstable crystal')
            c.need(any(isinstance(m, str) and 'unstable' in m for m in log) or
                   I.get_attr(calc, 'error') is not None,
                   'gate', tag + ': reported', w, 'nothing reported')
    # eigenvalues of which matrix
    c.rule('spectrum', 'the eigenvalues tested are those of the stiffness')
    I, calc, M = calculator(c)
    seen = []
    for nm in ('eig', 'eigvals', 'eigh', 'eigvalsh'):
        def f(I, a, k, n, nm=nm, old=I.models.get('numpy.linalg.' + nm)):
            x = I.num(a[0])
            if x.shape[0] == 6:
                seen.append(x)
                v = I.alloc(Arr.build((6,), lambda ix: al.as_poly(1)))
                return v if 'vals' in nm else (v, I.alloc(Arr.symbol(
                    'ev6', (6, 6))))
            return old(I, a, k, n)
        I.models['numpy.linalg.' + nm] = f
    capture(I)
    safe_call(c, I, I.get_attr(calc, 'run'))
    if seen:
        c.same('spectrum', 'matrix diagonalised', seen[0], matrix('C'),
               c.where_func(SC, 'SOECCalculator.run'))
    else:
        c.undecided('spectrum', 'matrix diagonalised', '', 'no eigensolver')


def extreme(t, dim):
    """Expected entries of one variation: (min, max, ratio, axes)."""
    lo, hi = lowest(t), -lowest(-t)
    amin = [al.app('argmin%d' % k, t) for k in range(dim)]
    amax = [al.app('argmin%d' % k, -t) for k in range(dim)]
    ratio = al.ite(al.lt0(-lo), hi / lo, al.sym('inf'))
    ax1 = [nvec(*x[:2]) for x in (amin, amax)]
    ax2 = [mvec(*x) for x in (amin, amax)] if dim == 3 else None
    return lo, hi, ratio, ax1, ax2


def expected_report():
    a, b = nvec(*ZETA[:2]), mvec(*ZETA)
    rows = []
    for r in averages():
        rows += [('average', x) for x in r]
    KH, _, GH, _ = averages()[2]
    rows += [('isotropic Vs', al.power(1000 * GH / RHO, Fraction(1, 2))),
             ('isotropic Vp', al.power(1000 * (KH + Fraction(4, 3) * GH) /
                                       RHO, Fraction(1, 2)))]
    rows += [('eigenvalue', al.as_poly(k)) for k in range(1, 7)]
    E, L = extreme(young(a), 2), extreme(lincomp(a), 2)
    G, N = extreme(shear(a, b), 3), extreme(poisson(a, b), 3)
    v = [extreme(x, 2) for x in velocities(a)]
    for pair, names in (((E, L), ('E', 'LC')), ((G, N), ('G', 'nu'))):
        for x, n in zip(pair, names):
            rows += [(n + ' min', x[0]), (n + ' max', x[1])]
        rows += [(n + ' anisotropy', x[2]) for x, n in zip(pair, names)]
        for which, lab in ((3, ' axis'), (4, ' 2nd axis')):
            if pair[0][which] is None:
                continue
            for k in R3:
                for x, n in zip(pair, names):
                    rows += [(n + ' min' + lab, x[which][0][k]),
                             (n + ' max' + lab, x[which][1][k])]
    names = ('Vs1', 'Vs2', 'Vp')
    for x, n in zip(v, names):
        rows += [(n + ' min', x[0]), (n + ' max', x[1])]
    rows += [(n + ' anisotropy', x[2]) for x, n in zip(v, names)]
    for k in R3:
        for x, n in zip(v, names):
            rows += [(n + ' min axis', x[3][0][k]),
                     (n + ' max axis', x[3][1][k])]
    return rows


def P_variation(c):
    c.rule('report', 'the numbers reported, in print order, are the averages, '
           'the velocities of the isotropic aggregate, the eigenvalues, and '
           'for every directional property its minimum, maximum, ratio and '
           'the directions where they are reached')
    c.rule('search', 'the extrema are searched over the half-sphere of '
           'directions (and every measurement angle)')
    w = c.where_func(SC, 'SOECCalculator.run')
    I, calc, M = calculator(c, eig=[1, 2, 3, 4, 5, 6])
    log = capture(I)
    M.searches = []
    r = safe_call(c, I, I.get_attr(calc, 'run'))
    nums = [x for x in printed_numbers(log)]
    want = expected_report()
    if isinstance(r, Unknown):
        c.undecided('report', 'report', w, r.reason)
    elif len(nums) < len(want):
        c.undecided('report', 'report', w, '%d numbers printed, %d expected' %
                    (len(nums), len(want)))
    else:
        for k, ((lab, t), (spec, g)) in enumerate(zip(want, nums)):
            c.same('report', 'item %d: %s' % (k + 1, lab), g, t, w)
    pi = al.PI
    for k, (b, t) in enumerate(M.searches):
        for j, lim in enumerate(b):
            if lim is None or len(lim) < 2:
                c.undecided('search', 'search %d' % k, w, repr(lim))
                continue
            c.same('search', 'search %d angle %d' % (k, j), tuple(lim[:2]),
                   (ZERO, pi), w)
    # no density: no velocities anywhere
    c.rule('no-density', 'without a density no seismic velocity is computed '
           'or reported')
    I, calc, M = calculator(c, density=ZERO, eig=[1, 2, 3, 4, 5, 6])
    log = capture(I)
    r = safe_call(c, I, I.get_attr(calc, 'run'))
    if isinstance(r, Unknown):
        c.undecided('no-density', 'report', w, r.reason)
    else:
        c.need(not M.eigh_args, 'no-density', 'Christoffel solutions', w,
               '%d wave equations solved without a density' %
               len(M.eigh_args))
        c.need(not any(isinstance(m, (str, Opaque)) and 'velocit' in repr(m)
                       for m in log), 'no-density', 'report', w,
               'velocities are reported without a density')
    # stored results
    c.rule('results', 'the stored results are the averages, eigenvalues and '
           'average velocities')
    I, calc, M = calculator(c, eig=[1, 2, 3, 4, 5, 6])
    capture(I)
    r = safe_call(c, I, I.get_attr(calc, 'run'))
    res = I.content(I.get_attr(calc, 'results'))
    if isinstance(res, DictC):
        av = res.items.get('avgs')
        c.same('results', 'averages', tuple2(I, av), tuple(
            tuple(x) for x in averages()), w)
        c.same('results', 'eigenvalues', tuple2(I, res.items.get('eigv')),
               tuple(al.as_poly(k) for k in range(1, 7)), w)
    else:
        c.undecided('results', 'results', w, describe(res))


def tuple2(I, v):
    x = val(I, v)
    if isinstance(x, Arr):
        if x.ndim() == 1 and isinstance(x.shape[0], int):
            return tuple(x.at([al.as_poly(k)]) for k in range(x.shape[0]))
        if x.ndim() == 2 and all(isinstance(d, int) for d in x.shape):
            return tuple(tuple(x.at([al.as_poly(i), al.as_poly(j)])
                               for j in range(x.shape[1]))
                         for i in range(x.shape[0]))
    return x


PLANES = ('xy', 'xz', 'yz')


def plane_angles(p, ph):
    if p == 'xy':
        return al.PI / 2, ph
    if p == 'xz':
        return ph, ZERO
    return ph, al.PI / 2


def polar_expected(nrad):
    """{plane: {property: (columns, cell)}} of the polar tables."""
    out = {}
    for p in PLANES:
        def ang(i):
            return 2 * al.PI * i / (nrad - 1)

        def cols(p=p):
            def E(i):
                return [young(nvec(*plane_angles(p, ang(i))))]

            def LC(i):
                t = lincomp(nvec(*plane_angles(p, ang(i))))
                return [maxz(t), maxz(-t)]

            def G(i):
                th, ph = plane_angles(p, ang(i))
                t = shear(nvec(th, ph), mvec(th, ph, ZETA[2]))
                return [lowest(t), -lowest(-t)]

            def Nu(i):
                th, ph = plane_angles(p, ang(i))
                t = poisson(nvec(th, ph), mvec(th, ph, ZETA[2]))
                lo = lowest(t)
                return [minz(lo), maxz(lo), -lowest(-t)]

            def waves(i):
                return velocities(nvec(*plane_angles(p, ang(i))))
            return {'E': E, 'LC': LC, 'G': G, 'Nu': Nu, 'waves': waves}
        out[p] = (ang, cols())
    return out


def P_polar(c):
    c.rule('polar', 'column 0 of every polar table is the angle in degrees '
           'over a full turn and the others are the property in the direction '
           'at that angle of the named plane: (cos, sin, 0), (sin, 0, cos), '
           '(0, sin, cos)')
    w = c.where_func(SC, 'SOECCalculator.calculate_polar_properties')
    names = ('E', 'LC', 'G', 'Nu', 'waves')
    n = al.as_poly(360)
    for density in (RHO, ZERO):
        I, calc, M = calculator(c, density=density, eig=[1, 2, 3, 4, 5, 6],
                                settings={'polar': True})
        capture(I)
        r = safe_call(c, I, I.get_attr(calc, 'run'))
        if isinstance(r, Unknown):
            c.undecided('polar', 'polar run', w, r.reason)
            continue
        res = I.content(I.get_attr(calc, 'results'))
        pol = I.content(res.items.get('polar')) if isinstance(
            res, DictC) else None
        if not isinstance(pol, DictC):
            c.undecided('polar', 'polar results', w, describe(pol))
            continue
        exp = polar_expected(n)
        for p in PLANES:
            tab = I.content(pol.items.get(p))
            ang, cols = exp[p]
            for name in names:
                tag = '(%s) %s' % (p, name)
                if density is ZERO:
                    if name == 'waves':
                        c.need(not isinstance(tab, DictC) or
                               name not in tab.items, 'polar',
                               tag + ' without density', w,
                               'velocities are stored without a density')
                    continue
                got = val(I, tab.items.get(name)) if isinstance(
                    tab, DictC) else None
                if not isinstance(got, Arr) or got.ndim() != 2:
                    c.undecided('polar', tag, w, describe(got))
                    continue
                i = al.sym('ip', int=True, sign='+0')
                ncol = len(cols[name](i)) + 1
                if not (isinstance(got.shape[1], int) and
                        same_dim(got.shape[0], n)):
                    c.bad('polar', tag, w, 'table of shape %s' % (
                        tuple(map(_d, got.shape)),))
                    continue
                if not c.need(got.shape[1] == ncol, 'polar', tag + ' columns',
                              w, '%r columns instead of %d' % (got.shape[1],
                                                               ncol)):
                    continue
                c.same('polar', tag + ' angle', got.at([i, ZERO]),
                       ang(i) * 180 / al.PI, w)
                for k, t in enumerate(cols[name](i)):
                    c.same('polar', tag + ' value %d' % (k + 1),
                           got.at([i, al.as_poly(k + 1)]), t, w)


# what the polar methods return; their values are the matter of `polar`
POLAR = (('young', 0), ('compressibility', 2), ('shear', 2), ('poisson', 3),
         ('waves', 3))


def tables(name, k):
    calls = []

    def method(I, a, kw, n):
        calls.append(name)
        th = val(I, a[1] if len(a) > 1 else kw['theta'])
        return I.alloc(Arr.symbol('%s%d' % (name, len(calls)), th.shape[:1] +
                                  ((k,) if k else ())))
    return method


def figures(c):
    w = c.where_func(SC, 'SOECCalculator.run')
    c.rule('figures', 'every requested figure is drawn from the tables of its '
           'own property, plane by plane, and saved under the property name')
    PL = 'quantas.soec.utils.plotting.'
    plots = {'young_polar_plot': 'E', 'compressibility_polar_plot': 'LC',
             'shear_polar_plot': 'G', 'poisson_polar_plot': 'Nu',
             'seismic_waves_polar_plot': 'waves'}
    for polar, plotting, density in (
            (True, True, RHO), (True, True, ZERO), (True, False, RHO),
            (False, True, RHO)):
        tag = '%s%s%s' % ('polar' if polar else 'no polar',
                          ', plot' if plotting else '',
                          '' if density is RHO else ', no density')
        I, calc, M = calculator(
            c, eig=[1, 2, 3, 4, 5, 6], density=density,
            settings={'polar': polar, 'plotting': plotting, 'outfig': 'here',
                      'dpi': 123})
        capture(I)
        drawn, saved = [], []

        def mk(f):
            def draw(I, a, k, n):
                key = 'mock.savefig%d' % len(drawn)
                fig = Opaque(('figure', f), attrs={'savefig': Ext(key)})
                drawn.append((f, a, fig))
                I.models[key] = lambda I, a, k, n, f=f: saved.append(
                    (f, a[0] if a else k.get('fname'), k.get('dpi')))
                return fig
            return draw
        for f in plots:
            I.models[PL + f] = mk(f)
        for name, k in POLAR:
            I.models['%s.SOEC.polar_%s' % (SO, name)] = tables(name, k)
        r = safe_call(c, I, I.get_attr(calc, 'run'))
        if isinstance(r, Unknown):
            if 'AbsRaise: KeyError' in r.reason:
                c.bad('figures', tag, w, 'raises KeyError')
            else:
                c.undecided('figures', tag, w, r.reason)
            continue
        if not (polar and plotting):
            c.need(not drawn, 'figures', tag, w, 'figures are drawn')
            continue
        if not drawn:
            c.undecided('figures', tag, w, 'no figure call interpreted')
            continue
        pol = I.content(I.content(I.get_attr(calc, 'results')).items['polar'])
        for f, prop in plots.items():
            t = '%s, %s' % (prop, tag)
            mine = [d for d in drawn if d[0] == f]
            if prop == 'waves' and density is ZERO:
                c.need(not mine, 'figures', t, w, 'velocities are drawn')
                continue
            if not c.need(len(mine) == 1, 'figures', t, w,
                          'drawn %d times' % len(mine)):
                continue
            for p, got in zip(PLANES, mine[0][1]):
                want = I.content(pol.items[p]).items.get(prop)
                c.need(I.key(got) == I.key(want), 'figures', '%s %s' % (
                    t, p), w, 'the panel is given other data')
            mine = [x for x in saved if x[0] == f]
            names = [x[1] for x in mine]
            if all(isinstance(x, str) for x in names):
                c.need(any(x.rsplit('.', 1)[0] == 'here_' + prop
                           for x in names), 'figures', t + ' file', w,
                       'saved as %s' % names)
            for x in mine:
                c.need(x[2] is None or isinstance(x[2], Poly) and al.equal(
                    x[2], al.as_poly(123)), 'figures', t + ' dpi', w,
                    'saved with dpi=%s' % describe(x[2]))
        names = [x[1] for x in saved]
        c.need(len(set(names)) == len(names), 'figures', tag + ': files', w,
               'one file for two figures: %s' % names)


def _d(d):
    return d if isinstance(d, int) else al.show(d)


# -- crystal systems ----------------------------------------------------------
def system_matrices():
    """System -> (entries, independent relations) as sample patterns.

    Built from the standard tables (Nye, 1957)."""
    out = {}
    i = lambda *x: tuple(x)
    out['cubic'] = {(0, 0): 'a', (1, 1): 'a', (2, 2): 'a', (0, 1): 'b',
                    (0, 2): 'b', (1, 2): 'b', (3, 3): 'c', (4, 4): 'c',
                    (5, 5): 'c'}
    tet = {(0, 0): 'a', (1, 1): 'a', (2, 2): 'b', (0, 1): 'c', (0, 2): 'd',
           (1, 2): 'd', (3, 3): 'e', (4, 4): 'e', (5, 5): 'f'}
    out['tetragonal_high'] = dict(tet)
    out['tetragonal_low'] = dict(tet)
    out['tetragonal_low'].update({(0, 5): 'g', (1, 5): '-g'})
    hx = dict(tet)
    hx[(5, 5)] = 'half'
    out['hexagonal'] = dict(hx)
    out['trigonal_high'] = dict(hx)
    out['trigonal_high'].update({(0, 3): 'g', (1, 3): '-g', (4, 5): 'g'})
    out['trigonal_low'] = dict(out['trigonal_high'])
    out['trigonal_low'].update({(0, 4): 'h', (1, 4): '-h', (3, 5): '-h'})
    ort = {k: 'o%d%d' % k for k in sorted(ORTHO)}
    out['orthorhombic'] = ort
    mono = dict(ort)
    mono.update({k: 'm%d%d' % k for k in ((0, 4), (1, 4), (2, 4), (3, 5))})
    out['monoclinic'] = mono
    out['triclinic'] = {(p, q): 't%d%d' % (p, q) for p in range(6)
                        for q in range(p, 6)}
    return out


# one point in general position: no two entries (nor an entry and a combination
# of others) are closer than the tolerance unless they are the same term
VALUES = {'a': 310, 'b': 97, 'c': 61, 'd': 53, 'e': 83, 'f': 71, 'g': 17,
          'h': 11}


def point(name, neg):
    if name in VALUES:
        return Fraction(-VALUES[name] if neg and name in 'gh'
                        else VALUES[name])
    if name == 'delta':
        return Fraction(13, 4)
    i, j = int(name[1]), int(name[2])
    return Fraction(400 - 37 * i + 11 * j if i == j else 20 + 7 * i + 5 * j)


def entry(n):
    if n == 'half':
        return (al.sym('C_a') - al.sym('C_c')) * Fraction(1, 2)
    if n.startswith('-'):
        return -entry(n[1:])
    return al.sym('C_' + n)


def sample(entries, bump=None):
    m = [[Poly() for _ in range(6)] for _ in range(6)]
    for (i, j), n in entries.items():
        m[i][j] = m[j][i] = entry(n)
    if bump:
        (i, j), d = bump
        m[i][j] = m[i][j] + d
        if i != j:
            m[j][i] = m[j][i] + d
    return m


def generic(neg):
    """Sign of a term at the point in general position."""
    env = {}

    def f(p):
        v = Fraction(0)
        for mono, c in p.t.items():
            t = Fraction(c)
            for a, e in mono:
                if a not in env:
                    k = al.atom_key(a)
                    if k[0] != 'sym' or not str(k[1]).startswith('C_'):
                        return None
                    env[a] = point(str(k[1])[2:], neg)
                if e.denominator != 1:
                    return None
                t *= env[a] ** int(e)
            v += t
        return (v > 0) - (v < 0)
    return f


def satisfies(m, system, value, tol=Fraction(1, 1000)):
    """Does a matrix satisfy the relations of a system (reference)?"""
    small = lambda p: value(p - al.as_poly(tol)) <= 0 and \
        value(-p - al.as_poly(tol)) <= 0
    e = system_matrices()[system]
    groups = {}
    for i in range(6):
        for j in range(i, 6):
            n = e.get((i, j))
            if n is None:
                if not small(m[i][j]):
                    return False
            elif n == 'half':
                if not small(m[i][j] - (m[0][0] - m[0][1]) * Fraction(1, 2)):
                    return False
            else:
                s = -1 if n.startswith('-') else 1
                groups.setdefault(n.lstrip('-'), []).append(m[i][j] * s)
    return all(small(a - b) for g in groups.values() for a in g for b in g)


ORDER = ('cubic', 'hexagonal', 'trigonal_high', 'trigonal_low',
         'tetragonal_high', 'tetragonal_low', 'orthorhombic', 'monoclinic',
         'triclinic')


def P_symmetry(c):
    c.rule('classification', 'the reported system is the most symmetric one '
           'whose relations the matrix satisfies: matrices with symbolic '
           'entries in general position, for every system, with every entry '
           'in turn changed by a further symbol')
    w = c.where_func(SY, 'check_symmetry')
    cases = []
    delta = al.sym('C_delta')
    for s, e in system_matrices().items():
        cases.append(('%s' % s, sample(e), False))
        cases.append(('%s, opposite signs' % s, sample(e), True))
        for i in range(6):
            for j in range(i, 6):
                cases.append(('%s with C%d%d changed' % (s, i + 1, j + 1),
                              sample(e, ((i, j), delta)), False))
                if c.tier != 'quick' or (i, j) not in e:
                    cases.append(('%s with C%d%d decreased' % (
                        s, i + 1, j + 1), sample(e, ((i, j), -delta)), True))
        small = al.as_poly(Fraction(1, 4000))
        cases.append(('%s within tolerance' % s,
                      sample(e, ((5, 5), small)), False))
        if c.tier != 'quick':
            for d in (small, -small):
                for i in range(6):
                    for j in range(i, 6):
                        cases.append(('%s, C%d%d within tolerance' % (
                            s, i + 1, j + 1), sample(e, ((i, j), d)), False))
    for tag, m, neg in cases:
        g = generic(neg)
        want = next(s for s in ORDER if satisfies(m, s, g))
        I = c.interp()
        a = I.alloc(Arr.build((6, 6), lambda ix: m[int(
            ix[0].const_value())][int(ix[1].const_value())]))
        al.GENERIC = g
        try:
            got = I.call(I.get(SY, 'check_symmetry'), [a], {}, None)
        except (Imprecise, Budget, AbsRaise, al.Undefined) as e:
            got = Unknown('%s: %s' % (type(e).__name__, e))
        finally:
            al.GENERIC = None
        c.collect(I)
        if not isinstance(got, str):
            c.undecided('classification', tag, w, repr(got)[:200])
        else:
            c.need(got == want, 'classification', tag, w,
                   'classified as %s, is %s' % (got, want))


CHECKS = {'P10': P_tensor, 'P11': P_ortho, 'P12': P_gate, 'P13': P_variation,
          'P14': P_symmetry, 'P15': P_polar}
