"""Functions leave their arguments as they were (P02)."""
from .. import algebra as al
from ..core import (val, dim, AbsRaise, Budget, Unknown, Arr, Poly, Imprecise,
                    same_value)
from ..values import *          # noqa
from . import eos, fits, maths, seismic, soec, thermo, units
from .readers import Raised, attempt
from .state import freeze, matches, show

ZERO = al.as_poly(0)
R = '\x00'


def contents(I, args, kw):
    out = {}
    for k, v in list(enumerate(args)) + sorted(kw.items()):
        out[k] = freeze(I, v)
    return out


def pure(c, tag, w, I, fn, args, kw=None, again=True, names=()):
    """Call twice; the arguments hold what they held, and the value of the
    second call is that of the first."""
    kw = kw or {}
    before = contents(I, args, kw)
    r = attempt(c, I, lambda: I.call(fn(), list(args), dict(kw), None))
    if isinstance(r, Unknown) or isinstance(r, Raised):
        return c.undecided('argument', tag, w, repr(r)[:200])
    first = freeze(I, r)
    unchanged(c, tag, w, I, before, contents(I, args, kw), names)
    if not again:
        return
    r = attempt(c, I, lambda: I.call(fn(), list(args), dict(kw), None))
    if isinstance(r, (Unknown, Raised)):
        if isinstance(r, Raised):
            c.bad('repeat', tag, w, 'the second call raises %r' % (r,))
        else:
            c.undecided('repeat', tag, w, repr(r)[:200])
        return
    m = matches(freeze(I, r), first)
    if m is True:
        c.ok('repeat', tag, w)
    elif m is False:
        c.bad('repeat', tag, w, 'a second call with the same arguments gives '
              '%s' % show(freeze(I, r)))
    elif not opaque(first):
        c.undecided('repeat', tag, w, str(m))


def opaque(x):
    return isinstance(x, tuple) and x and x[0] in ('opaque', 'obj')


CHANGES = ('sort', 'round', 'floor', 'ceil', 'trunc', 'rint', 'sign', 'around',
           'clip', 'nan_to_num', 'fix', 'abs', 'roll')


def overwritten(a, b):
    """b is the array a with elements rounded, sorted, ... in place."""
    if not isinstance(a, Arr) or not isinstance(b, Arr) or \
            a.shape != b.shape or set(a.data) != set(b.data):
        return False
    for k in a.data:
        if a.data[k] != b.data[k]:
            for x in (b.data[k] - a.data[k]).all_atoms():
                q = al.atom_key(x)
                q = q[1] if q[0] in ('idx', 'app') else None
                if isinstance(q, tuple) and q:
                    q = q[0]
                if q in CHANGES:
                    return True
    return False


def unchanged(c, tag, w, I, before, after, names=()):
    und = None
    for k in before:
        nm = names[k] if isinstance(k, int) and k < len(names) else k
        m = matches(after[k], before[k])
        if m is False or overwritten(
                before[k], after[k]):
            c.bad('argument', '%s: argument %s' % (tag, nm), w,
                  'was %s, afterwards %s' % (show(before[k]), show(after[k])))
            return
        if m is not True and not opaque(before[k]):
            und = 'argument %s: %s' % (nm, m)
    if und:
        c.undecided('argument', tag, w, und)
    else:
        c.ok('argument', tag, w)


# ------------------------------------------------------------------ functions
def of_units(c):
    n = dim('n')
    for fn, tab in (('convert_energy', units.ENERGY),
                    ('convert_pressure', units.PRESSURE),
                    ('convert_frequency', units.FREQ),
                    ('convert_lenght', units.LENGTH),
                    ('convert_volume', units.LENGTH),
                    ('convert_temperature', units.TEMP)):
        for a in tab:
            for b in tab:
                x, y = tab[a][-1][0], tab[b][-1][0]
                sh = (n,) if (a, b) != (next(iter(tab)),) * 2 else (n, 3)
                I = c.interp(budget=200000)
                pure(c, '%s(%s->%s)' % (fn, x, y), c.where_func(units.UN, fn),
                     I, lambda: I.get(units.UN, fn), [I.alloc(
                         Arr.symbol('x', sh)), x, y])
    for fn in ('energy_to_pressure', 'pressure_to_energy'):
        for e in ('ha', 'ev', 'ry'):
            for l in ('a', 'bohr'):
                for p in ('gpa', 'kbar', 'pa'):
                    I = c.interp(budget=200000)
                    pure(c, '%s(%s,%s,%s)' % (fn, e, l, p), c.where_func(
                        units.UN, fn), I, lambda: I.get(units.UN, fn),
                        [I.alloc(Arr.symbol('x', (n,))), e, l, p])


def of_kernels(c):
    nT, nb, nf, nv, nP = [dim(x) for x in ('nT', 'nb', 'nf', 'nv', 'nP')]
    A = {'T': ((nT,), '+0'), 'w': ((nb, nf, nv), None), 'q': ((nb,), '+0'),
         'U0': ((nv,), None), 'Uzp': ((nv,), None), 'Uth': ((nT, nv), None),
         'F': ((nT, nv), None), 'V': ((nT, nP), 1), 'p': ((nP,), None),
         'U': ((nT, nP), None), 'K': ((nT, nP), 1), 'a': ((nT, nP), None),
         'C': ((nT, nP), '+0'), 'x': ((nv,), 1), 'cc': ((nT, nf), None),
         'y': ((nT, nv), None), 'c1': ((nf,), None), 'y1': ((nv,), None),
         'm': ((3, 3), None)}
    pf = al.sym('pf', sign=1)
    SM, TD, PM, FM = thermo.SM, thermo.TD, maths.PM, maths.FM
    for mod, fn, args in [(SM, f, 'T w q') for f in thermo.mode_terms()] + [
            (SM, 'internal_energy', 'U0 Uzp Uth'),
            (SM, 'free_energy', 'U0 F'), (TD, 'enthalpy', 'V p U'),
            (TD, 'gibbs', 'V p U'),
            (TD, 'adiabatic_bulk_modulus', 'T V K a C pf'),
            (TD, 'gruneisen_parameter', 'V K a C'),
            (PM, 'polyfit', 'x y 2'), (PM, 'polyfit', 'x y1 2'),
            (PM, 'interpolate', 'x cc'), (PM, 'interpolate', 'x c1'),
            (PM, 'R_squared', 'x y cc'), (PM, 'R_squared', 'x y1 c1'),
            (FM, 'multi_interpolate', 'x cc'), (FM, 'multi_R2', 'x y cc'),
            (FM, 'cofactor', 'm')]:
        I = c.interp()
        av, names = [], args.split()
        for a in names:
            if a in A:
                sh, sg = A[a]
                av.append(I.alloc(Arr.symbol(a, sh, **(
                    {} if sg is None else {'sign': sg}))))
            else:
                av.append(pf if a == 'pf' else al.as_poly(int(a)))
        pure(c, '%s(%s)' % (fn, ', '.join(names)), c.where_func(mod, fn), I,
             lambda: I.get(mod, fn), av, names=names)
    w = c.where_func(PM, 'find_polynomial_minimum')
    for tag, co, add, want in maths.MINIMA[:6]:
        I = c.interp()
        pure(c, 'find_polynomial_minimum, ' + tag, w, I, lambda: I.get(
            PM, 'find_polynomial_minimum'), [maths.table(I, co)] + (
                [] if add is None else [al.as_poly(add)]))
    DV = 'quantas.utils.math.derivative'
    for n in (2, 3, 5):
        I = c.interp()
        pure(c, 'derivative of %d points' % n, c.where_func(DV, 'derivative'),
             I, lambda: I.get(DV, 'derivative'), [I.alloc(Arr.symbol(
                 'x', (n,))), I.alloc(Arr.symbol('y', (n,)))])


def of_eos(c):
    EV, PV = eos.EV, eos.PV
    n = dim('n')
    for tag in eos.TAGS:
        for meth, mk in (
                ('fit', lambda I: [tag, I.alloc(Arr.symbol(
                    'Vd', (n,), sign=1)), I.alloc(Arr.symbol('Ed', (n,)))]),
                ('pressure', lambda I: [tag, I.alloc(I.to_array(I.new_list(
                    [eos.E0, eos.K0, eos.KP, eos.V0]))), I.alloc(Arr.symbol(
                        'Vd', (n,), sign=1))]),
                (tag, lambda I: [I.alloc(Arr.symbol('Vd', (n,), sign=1)),
                                 eos.E0, eos.K0, eos.KP, eos.V0])):
            I = c.interp()

            def curve_fit(I, a, k, node):
                return (I.alloc(Arr.symbol('popt', (4,))),
                        I.alloc(Arr.symbol('pcov', (4, 4))))
            I.models['scipy.optimize.curve_fit'] = curve_fit
            o = eos.new(I, EV, 'EnergyEOS')
            pure(c, 'EnergyEOS.%s, %s' % (meth, tag), c.where_func(
                EV, 'EnergyEOS.' + meth), I, lambda: I.get_attr(o, meth),
                mk(I))
    for cls, orders in eos.FORMS.items():
        for order in orders:
            for linear in (False, True):
                I = c.interp()
                o = eos.new(I, PV, cls)
                p = I.alloc(I.to_array(I.new_list([eos.K0, eos.KP, eos.KPP,
                                                   eos.V0])))
                v = I.alloc(Arr.symbol('Vd', (n,), sign=1))
                tag = '%s order %d%s' % (cls, order,
                                         ' axis' if linear else '')
                I.models['mock.eos'] = lambda I, a, k, node: I.call(
                    I.get_attr(o, 'eos'), [p, a[0], al.as_poly(order), linear,
                                           False], {}, node)
                given(c, cls, tag, I, o, p, v, order, linear)
                for own in (False, True):
                    I = c.interp()
                    O = fits.Odr(I)
                    O.npoints = n
                    o = eos.new(I, PV, cls)
                    kw = {'order': al.as_poly(order), 'linear': linear}
                    if own:
                        kw.update(guess=I.alloc(Arr.symbol(
                            'g', (4,), sign=1)), fixed=I.new_list(
                                [al.as_poly(x) for x in (1, 0, 1, 0)]))
                        for k in ('sigmaV', 'sigmaP'):
                            kw[k] = I.alloc(fits.series(k, n))
                    pure(c, '%s, fit%s' % (tag, ' with own start' if own else
                                           ''), c.where_func(PV, 'EOS.fit'),
                         I, lambda: I.get_attr(o, 'fit'), [
                             I.alloc(fits.series('x', n)), I.alloc(
                                 fits.series('p', n))], kw, again=False)


IMPLIED = ('Murnaghan', 'Vinet')


def given(c, cls, tag, I, o, p, v, order, linear):
    """Pressure of given parameters: only a second derivative that the
    formulation always implies may be rewritten."""
    def slots():
        a = I.to_array(p)
        return {n: a.at([i]) for i, n in enumerate(('K0', "K'", "K''", 'V0'))
                if not (i == 2 and cls in IMPLIED)}
    w = c.where_func(eos.PV, cls + '.eos')
    before = slots()
    pure(c, tag + ', pressure of given parameters: volumes', w, I,
         lambda: Ext('mock.eos'), [v])
    unchanged(c, tag + ', pressure of given parameters', w, I, before,
              slots())


def of_kieffer(c):
    nu = [al.sym('nu_%d' % i, sign=1) for i in range(3)]
    for name in ('helmholtz', 'heat_capacity', 'entropy'):
        I = c.interp()
        maths.Quad(I)
        f = maths.table(I, nu)

        def use(I, a, k, node):
            o = I.call(I.get(maths.KF, 'Kieffer'), [a[0]], {}, node)
            return I.call(I.get_attr(o, name), [al.sym('T', sign=1)], {},
                          node)
        I.models['mock.use'] = use
        pure(c, 'Kieffer.%s, frequencies' % name, c.where_func(
            maths.KF, 'Kieffer.' + name), I, lambda: Ext('mock.use'), [f],
            again=False)


def of_tensors(c):
    for ortho in (False, True):
        calls = [('young_modulus', 2), ('linear_compressibility', 2),
                 ('shear_modulus', 3), ('poisson_ratio', 3),
                 ('phase_velocity', 2), ('longitudinal_wave', 2),
                 ('shear_wave_1', 2), ('shear_wave_2', 2)]
        M = soec.Models(ortho)
        I = c.interp(M.table())
        m = I.alloc(soec.matrix('C', ortho))
        before = {0: freeze(I, m)}
        o = attempt(c, I, lambda: I.call(I.get(soec.SO, 'SOEC'), [
            m, soec.RHO], {}, None))
        if isinstance(o, (Raised, Unknown)):
            c.undecided('argument', 'SOEC', '', repr(o))
            continue
        if ortho:
            o = I.call(I.get(soec.SO, 'SOECOrtho'), [o], {}, None)
        cls = 'SOECOrtho' if ortho else 'SOEC'
        stiff = freeze(I, I.get_attr(o, 'stiffness'))
        comp = freeze(I, I.get_attr(o, 'compliance'))
        ang = [soec.TH, soec.PH, soec.CH]
        for name, k in calls:
            if 'wave' in name or 'velocity' in name:
                if ortho:
                    continue
            pure(c, '%s.%s' % (cls, name), c.where_func(
                soec.SO, '%s.%s' % ('SOEC' if k == 2 and not ortho else cls,
                                    name)), I,
                lambda: I.get_attr(o, name), [I.new_list(ang[:k])],
                again=not ('wave' in name or 'velocity' in name))
        w = c.where_func(soec.SO, cls + '.__init__')
        unchanged(c, cls + ', matrix', w, I, before, {0: freeze(I, m)})
        unchanged(c, cls + ', its own matrices after use', w, I,
                  {'stiffness': stiff, 'compliance': comp},
                  {'stiffness': freeze(I, I.get_attr(o, 'stiffness')),
                   'compliance': freeze(I, I.get_attr(o, 'compliance'))})
    # the symmetry of a matrix
    SYM = 'quantas.soec.utils.symmetry'
    for system, e in soec.system_matrices().items():
        for small in (None, ((0, 5), Fraction(1, 4000)),
                      ((2, 3), Fraction(-1, 4000))):
            I = c.interp()
            m = soec.sample(e, small and (small[0], al.as_poly(small[1])))
            al.GENERIC = soec.generic(False)
            try:
                pure(c, 'check_symmetry, %s%s' % (
                    system, '' if not small else ' with C%d%d within '
                    'tolerance' % (small[0][0] + 1, small[0][1] + 1)),
                    c.where_func(SYM, 'check_symmetry'), I, lambda: I.get(
                        SYM, 'check_symmetry'), [I.alloc(seismic.stack(m))])
            finally:
                al.GENERIC = None
    # wave objects
    S = seismic.Solver()
    I = c.interp(S.table())
    m = I.alloc(soec.matrix('C', False))
    before = {0: freeze(I, m)}
    o = I.call(I.get(seismic.SE, 'Seismic'), [m, soec.RHO], {}, None)
    q = I.alloc(Arr.symbol('n', (3,)))
    before[1] = freeze(I, q)
    for label, meth, args in (('spherical_direction', 'spherical_direction',
                               [soec.TH, soec.PH]),
                              ('cartesian_direction', 'cartesian_direction',
                               [q])):
        r = attempt(c, I, lambda: I.call(I.get_attr(o, meth), args, {}, None))
        for a in ('phase_velocity', 'group_velocity'):
            r = attempt(c, I, lambda: I.get_attr(o, a))
        unchanged(c, 'Seismic, ' + label, c.where_func(
            seismic.SE, 'Seismic.' + meth), I, before,
            {0: freeze(I, m), 1: freeze(I, q)}, ['matrix', 'direction'])


def P_purity(c):
    c.rule('argument', 'after a call, every array, list or matrix handed to a '
           'function of the numerical interface holds the values it held '
           'before (heap contents compared as terms)')
    c.rule('repeat', 'a second call with the same arguments gives the value '
           'of the first')
    of_units(c)
    of_kernels(c)
    of_eos(c)
    of_kieffer(c)
    of_tensors(c)
    c.assumptions += ['the fitting form of a P-V equation (dofit=True) writes '
                      'the implied derivatives into the parameter vector by '
                      'design: scipy.odr owns that vector']


CHECKS = {'P02': P_purity}
