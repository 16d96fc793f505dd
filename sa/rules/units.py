"""Unit conversions and purity of the numerical interface."""
from ..core import *          # noqa
from .. import algebra as al

UN = 'quantas.utils.physics.units'


def c_(name):
    return al.sym(name, sign=1, scalar=True)


Ha, eV, Ry, NA, A0, CL = [c_(x) for x in ('Ha', 'eV', 'Ry', 'NA', 'a0', 'c')]
ANG = al.as_poly(Fraction(1, 10 ** 10))


def d(x):
    return al.as_poly(Fraction(x))


P10 = [al.as_poly(10 ** k) for k in range(0, 16)]

# scale -> (SI factor, documented spellings)
ENERGY = {'Ha': (Ha, ('ha', 'Ha', 'HA', 'hartree', 'Hartree')),
          'eV': (eV, ('ev', 'eV', 'electron volt', 'Electron Volt')),
          'Ry': (Ry, ('ry', 'Ry', 'rydberg', 'Rydberg')),
          'kJ/mol': (P10[3] / NA, ('kjmol', 'kJmol', 'kj/mol', 'kJ/mol'))}
PRESSURE = {'GPa': (P10[9], ('gpa', 'GPa')), 'MPa': (P10[6], ('mpa', 'MPa')),
            'kPa': (P10[3], ('kpa', 'kPa')), 'Pa': (P10[0], ('pa', 'Pa')),
            'Gbar': (P10[14], ('gbar', 'Gbar')),
            'Mbar': (P10[11], ('mbar', 'Mbar')),
            'kbar': (P10[8], ('kbar', 'Kbar')), 'bar': (P10[5], ('bar',
                                                                 'Bar'))}
LENGTH = {'m': (P10[0], ('m', 'metre', 'Metre')),
          'A': (ANG, ('a', 'A', 'angstrom', 'Angstrom')),
          'bohr': (A0, ('bohr', 'Bohr'))}
FREQ = {'cm^-1': (CL * 100, ('cm^-1', 'CM^-1')),
        'Hz': (P10[0], ('hz', 'Hz')), 'THz': (P10[12], ('thz', 'THz'))}
TEMP = {'C': (d(1), d('273.15'), ('c', 'C', 'celsius', 'Celsius')),
        'K': (d(1), d(0), ('k', 'K', 'kelvin', 'Kelvin')),
        'F': (Fraction(5, 9), d('273.15') - d(32) * Fraction(5, 9),
              ('f', 'F', 'fahrenheit', 'Fahrenheit')),
        'R': (Fraction(5, 9), d(0), ('r', 'R', 'rankine', 'Rankine'))}
BAD = ('parsec', '', 'xyz')


def call(c, I, fn, args):
    """value | 'raises' | Unknown"""
    try:
        r = I.call(I.get(UN, fn), args, {}, None)
        return val(I, r)
    except AbsRaise:
        return 'raises'
    except (Imprecise, Budget, al.Undefined, RecursionError) as e:
        return Unknown(str(e))


def arg(I, kind, n):
    if kind == 'array':
        return I.alloc(Arr.symbol('x', (n,)))
    if kind == 'list':
        return I.new_list([al.idx('x', al.as_poly(0)),
                           al.idx('x', al.as_poly(1))])
    return al.sym('x')


def expected(kind, n, f):
    if kind == 'array':
        return Arr.build((n,), lambda ix: f(al.idx('x', ix[0])))
    if kind == 'list':
        return Arr.build((2,), lambda ix: f(al.idx('x', ix[0])))
    return f(al.sym('x'))


def one(c, fn, args, label, want, n, kind):
    I = c.interp(budget=200000)
    a = arg(I, kind, n)
    got = call(c, I, fn, [a] + args)
    c.collect(I)
    where = c.where_func(UN, fn)
    if want is None:
        if isinstance(got, Unknown):
            c.undecided('unsupported', label, where, got.reason)
        else:
            c.need(isinstance(got, str) and got == 'raises', 'unsupported',
                   label, where, 'an unsupported scale is accepted: %s' %
                   describe(got))
        return
    w = expected(kind, n, want)
    if isinstance(got, str):
        c.bad('factor', label, where, 'a documented scale is rejected')
        return
    c.same('factor', label, got, w, where)


def P_units(c):
    c.rule('factor', 'for every pair of documented scales, in every spelling, '
           'the converted value is the argument times the ratio of the SI '
           'definitions (temperatures: the affine map), as a term; hence '
           'conversions invert and compose exactly')
    c.rule('unsupported', 'a scale that is not documented makes the '
           'conversion raise instead of returning a number')
    n = dim('n')
    for fn, tab in (('convert_energy', ENERGY), ('convert_pressure', PRESSURE),
                    ('convert_frequency', FREQ), ('convert_lenght', LENGTH),
                    ('convert_volume', LENGTH)):
        e = 3 if fn == 'convert_volume' else 1
        for s1, (f1, al1) in tab.items():
            for s2, (f2, al2) in tab.items():
                f = al.power(f1 / f2, e)
                for k, (x1, x2) in enumerate(_spell(al1, al2, c.tier)):
                    kind = 'array' if k % 2 == 0 else 'scalar'
                    one(c, fn, [x1, x2], '%s(%s->%s)' % (fn, x1, x2),
                        lambda x, f=f: x * f, n, kind)
        k1 = next(iter(tab.values()))[1][0]
        one(c, fn, [k1, k1], '%s list argument' % fn, lambda x: x, n, 'list')
        for b in BAD:
            one(c, fn, [b, k1], '%s(%r->%s)' % (fn, b, k1), None, n, 'array')
            one(c, fn, [k1, b], '%s(%s->%r)' % (fn, k1, b), None, n, 'array')
    for s1, (m1, o1, al1) in TEMP.items():
        for s2, (m2, o2, al2) in TEMP.items():
            for k, (x1, x2) in enumerate(_spell(al1, al2, c.tier)):
                one(c, 'convert_temperature', [x1, x2],
                    'convert_temperature(%s->%s)' % (x1, x2),
                    lambda x: (x * m1 + o1 - o2) / m2, n,
                    'array' if k % 2 == 0 else 'scalar')
    for b in BAD:
        one(c, 'convert_temperature', [b, 'k'],
            'convert_temperature(%r->k)' % b, None, n, 'array')
        one(c, 'convert_temperature', ['k', b],
            'convert_temperature(k->%r)' % b, None, n, 'array')
    EN = {k: v for k, v in ENERGY.items() if k != 'kJ/mol'}
    LEN = {k: v for k, v in LENGTH.items() if k != 'm'}
    for fn, up in (('energy_to_pressure', 1), ('pressure_to_energy', -1)):
        for se, (fe, ale) in EN.items():
            for sl, (fl, all_) in LEN.items():
                for sp, (fp, alp) in PRESSURE.items():
                    f = al.power(fe / (fl * fl * fl) / fp, up)
                    full = c.tier == 'thorough'
                    sets = [(ale[0], all_[0], alp[0]),
                            (ale[-1], all_[-1], alp[-1])]
                    if full:
                        sets = [(a, b, q) for a in ale for b in all_
                                for q in alp]
                    for k, t in enumerate(sets):
                        one(c, fn, list(t), '%s(%s)' % (fn, ','.join(t)),
                            lambda x, f=f: x * f, n,
                            'array' if k % 2 == 0 else 'scalar')
        for b in BAD:
            for t in ((b, 'a', 'gpa'), ('ha', b, 'gpa'), ('ha', 'a', b)):
                one(c, fn, list(t), '%s(%s)' % (fn, ','.join(map(repr, t))),
                    None, n, 'array')
    c.assumptions += ['CODATA constants are symbols; 1 Angstrom is exactly '
                      '1e-10 m', 'floating point is treated as exact']


def _spell(a, b, tier):
    if tier == 'thorough':
        return [(x, y) for x in a for y in b]
    out = []
    for k in range(max(len(a), len(b))):
        out.append((a[k % len(a)], b[k % len(b)]))
    return out


CHECKS = {'P01': P_units}
