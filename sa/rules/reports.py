"""The reports repeat the input that is used (P22)."""
import re
from fractions import Fraction

from .. import algebra as al
from ..algebra import Poly
from ..core import val
from ..values import Arr, Opaque, Unknown
from . import qha, units
from .fits import EF, series
from .ha import CONFIGS, HA, reader_object, settings
from .soec import (RHO, SC, ZERO, calculator, capture, matrix,
                   printed_numbers, safe_call)


def pieces(m):
    """Literal text and formatted terms of a message, in order."""
    out = []

    def walk(k, raw):
        if isinstance(k, Opaque):
            walk(k.key, False)
        elif isinstance(k, tuple):
            if len(k) == 3 and k[0] == 'fmt':
                v = k[2]
                if isinstance(v, Poly) and v.const_value() is not None:
                    v = v.const_value()
                if isinstance(v, Poly):
                    out.append((k[1], v))
                else:
                    out.append(str(v))
                return
            for x in k[1:] if k and k[0] in ('cat', 'opaque') else k:
                walk(x, False)
        elif isinstance(k, Poly):
            v = k.const_value()
            out.append(('', k) if v is None else str(v))
        elif isinstance(k, str):
            out.append(k)
    walk(m, True)
    return out


def text(m):
    return ' '.join(x for x in pieces(m) if isinstance(x, str))


def terms(m):
    return [x for x in pieces(m) if not isinstance(x, str)]


def cells(m):
    """Numbers of a message, those printed as fixed text included."""
    out = []
    for x in pieces(m):
        if not isinstance(x, str):
            out.append(x)
            continue
        for t in x.split():
            try:
                out.append(('', al.as_poly(Fraction(t))))
            except ValueError:
                pass
    return out


def faithful(fmt):
    """A number printed with this format is the number itself."""
    return not fmt or fmt[-1] in 'eEfFgGnd' or fmt[-1].isdigit() or \
        fmt[-1] in '<>^ '


def rows_of(log, n):
    return [cells(m) for m in log if len(cells(m)) == n]


def mentions(c, rule, tag, w, log, label, value):
    """A message names the quantity and gives its value."""
    hit = [text(m) for m in log if label in text(m).lower()]
    if not hit:
        c.bad(rule, '%s: %s' % (tag, label), w, 'is not reported')
        return
    ok = any(re.search(r'(?<![\w.])%s(?![\w.])' % re.escape(str(value)), t)
             for t in hit)
    c.need(ok, rule, '%s: %s' % (tag, label), w, 'printed %r, the input says '
           '%r' % (hit[0].strip()[:60], value))


def order(c, rule, tag, w, log, names):
    """The header of the table names the columns in this order."""
    for m in log:
        t = text(m)
        at = [t.find(n) for n in names]
        if all(x >= 0 for x in at):
            c.need(at == sorted(at), rule, tag + ': column headings', w,
                   'headings %r' % t.strip()[:80])
            return
    c.bad(rule, tag + ': column headings', w, 'no heading names %s' % (
        ', '.join(names),))


def table(c, rule, tag, w, log, want, what):
    got = rows_of(log, len(want[0]))
    if not c.need(len(got) == len(want), rule, '%s: %s rows' % (tag, what), w,
                  '%d rows printed instead of %d' % (len(got), len(want))):
        return
    for i, (g, x) in enumerate(zip(got, want)):
        for j, ((f, a), b) in enumerate(zip(g, x)):
            t = '%s: %s row %d column %d' % (tag, what, i, j)
            c.same(rule, t, a, b, w)
            if not faithful(f):
                c.bad(rule, t, w, 'printed as %r' % f)


def harmonic(c):
    w = c.where_func(HA, 'HACalculator.report_input_data')
    nv = 3
    for cfg in CONFIGS:
        tag = 'ha ' + '/'.join(cfg[:4])
        I = c.interp()
        log = capture(I)
        more = {'jobname': 'quartz', 'natoms': al.as_poly(11),
                'kpoints': al.as_poly(7), 'total_q_points': al.as_poly(5),
                'nvol': nv}
        I.models['quantas.IO.qha_reader.QHAInputFileReader'] = \
            lambda I, a, k, n: reader_object(I, 2, 33, nv, more)
        calc = I.call(I.get(HA, 'HACalculator'), [settings(
            I, cfg, silent=False)], {}, None)
        e = safe_call(c, I, I.get_attr(calc, 'read_input'), 'x.yaml')
        del log[:]
        r = Unknown('input refused: %r' % (e,)) if e is not None else \
                safe_call(
            c, I, I.get_attr(calc, 'report_input_data'))
        if isinstance(r, Unknown):
            c.undecided('input', tag, w, r.reason)
            continue
        for label, v in (('job', 'quartz'), ('volumes', nv), ('atoms', 11),
                         ('k-points', 7), ('frequencies', 165)):
            mentions(c, 'input', tag, w, log, label, v)
        order(c, 'input', tag, w, log, ['(%s^3)' % cfg[2], '(%s)' % cfg[0]])
        V = Arr.symbol('V', (nv,), sign=1)
        U = Arr.symbol('U0', (nv,))
        table(c, 'input', tag, w, log, [[V.at([al.as_poly(i)]), U.at(
            [al.as_poly(i)])] for i in range(nv)], 'volume and energy')


def quasiharmonic(c):
    """The (Q)HA input, and the equation of state fitted to it."""
    w = c.where_func(qha.QHA, 'QHACalculator.report_input_data')
    nv = 5
    for cfg in CONFIGS[:2]:
        for mini in ('eos', 'poly'):
            tag = 'qha %s, %s' % (mini, '/'.join(cfg))
            I, d = qha.setup(
                c, cfg, minimization=mini, reader=lambda I, d: {
                    'volume': I.alloc(Arr.symbol('V', (nv,), sign=1)),
                    'energy': I.alloc(Arr.symbol('U0', (nv,))),
                    'jobname': 'quartz', 'natoms': al.as_poly(11),
                    'kpoints': al.as_poly(7), 'nvol': nv,
                    'total_q_points': al.as_poly(5)})
            I.models['quantas.qha.utils.ev_eos.EnergyEOS.pressure'] = \
                qha.pressure_of
            I.models['numpy.gradient'] = qha.gradient_model([])
            # the size of the uncertainties decides the digits printed
            I.models['numpy.log10'] = lambda I, a, k, n: al.as_poly(-3)
            for f in ('numpy.round', 'numpy.around', 'builtin.round'):
                I.models[f] = lambda I, a, k, n: I.num(a[0])
            calc, log = d['calc'], d['log']
            e = safe_call(c, I, I.get_attr(calc, 'read_input'), 'x.yaml')
            del log[:]
            r = Unknown('input refused: %r' % (e,)) if e is not None else \
                safe_call(c, I, I.get_attr(calc, 'report_input_data'))
            if isinstance(r, Unknown):
                c.undecided('input', tag, w, r.reason)
                continue
            for label, v in (('job', 'quartz'), ('volumes', nv),
                             ('atoms', 11), ('k-points', 7),
                             ('frequencies', 165)):
                mentions(c, 'input', tag, w, log, label, v)
            order(c, 'input', tag, w, log, [
                '(%s)' % cfg[4], '(%s^3)' % cfg[2], '(%s)' % cfg[0]])
            if mini == 'eos':
                parameters(c, tag, w, log, nv, cfg)


def parameters(c, tag, w, log, nv, cfg):
    """The fitted parameters, each with its uncertainty after its name."""
    p2e = qha.conv(cfg)[7]
    V = Arr.symbol('V', (nv,), sign=1)
    U = Arr.symbol('U0', (nv,))
    args = qha.canon(V) + qha.canon(U)
    want, raw = [], []
    for k in range(4):
        x = qha.eos_par('birchmurnaghan', V, U, k)
        y = al.idx('eoserr:birchmurnaghan', al.as_poly(k), *args, sign=1)
        f = 1 / p2e if k == 1 else 1
        want.append((x * f, y * f))
        raw.append((x, y))
    for k, label in enumerate(('E0', 'K0', "K'", 'V0')):
        t = '%s: %s of the fit' % (tag, label)
        hit = [m for m in log if text(m).split()[:2] == [label, '=']]
        if len(hit) != 1:
            c.bad('input', t, w, 'printed %d times' % len(hit))
            continue
        got = [v for _, v in terms(hit[0])]
        if len(got) != 2:
            c.undecided('input', t, w, repr(hit[0])[:200])
            continue
        for n, what in enumerate(('value', 'uncertainty')):
            own = [q for q in range(4) if digits(got[n], want[q][n])]
            if own:
                c.need(k in own, 'input', '%s, %s' % (t, what), w,
                       'is that of parameter %d' % own[0])
            elif any(digits(got[n], q[n]) for q in raw):
                c.bad('input', '%s, %s' % (t, what), w,
                      'is not in the unit of pressure')
            else:
                other = [u for u in other_units(cfg) if digits(
                    got[n], raw[1][n] / qha.conv(u)[7])]
                if other:
                    c.bad('input', '%s, %s' % (t, what), w, 'is in %s/%s^3 '
                          'converted to %s' % (other[0][0], other[0][2],
                                               other[0][4]))
                else:
                    c.undecided('input', '%s, %s' % (t, what), w,
                                al.show(got[n])[:200])


def other_units(cfg):
    return [(e, cfg[1], l, cfg[3], p) for e in units.ENERGY
            for l in units.LENGTH for p in units.PRESSURE]


def digits(g, x):
    """g is x, or leading or trailing digits of it."""
    return any(al.equal(g, f) for q in (1, 10, 100, 1000, 10000)
               for f in (x * q, al.app('trunc', x * q, int=True),
                         al.app('trunc', x * q)))


def elastic(c):
    w = c.where_func(SC, 'SOECCalculator.report_input_data')
    for system, rho in (('cubic', RHO), ('triclinic', ZERO),
                        ('orthorhombic', RHO)):
        tag = 'soec %s, density %s' % (system, 'none' if rho is ZERO else
                                       'given')
        I, calc, M = calculator(c, system=system, density=rho,
                                ortho=system == 'orthorhombic')
        log = capture(I)
        r = safe_call(c, I, I.get_attr(calc, 'report_input_data'))
        if isinstance(r, Unknown):
            c.undecided('input', tag, w, r.reason)
            continue
        mentions(c, 'input', tag, w, log, 'elastic analysis', 'job')
        mentions(c, 'input', tag, w, log, 'system', system)
        dens = [m for m in log if 'density' in text(m).lower()]
        if rho is ZERO:
            c.need(any('not' in text(m) for m in dens), 'input',
                   tag + ': density', w, 'a density is reported')
        else:
            got = [t for m in dens for _, t in terms(m)]
            c.need(len(got) == 1, 'input', tag + ': density', w,
                   'is not reported')
            if len(got) == 1:
                c.same('input', tag + ': density value', got[0], rho, w)
                c.need('kg m^-3' in text(dens[0]), 'input',
                       tag + ': density unit', w, text(dens[0]))
        C = matrix('C', system == 'orthorhombic')
        S = val(I, I.get_attr(I.get_attr(calc, 'soec'), 'compliance'))
        if not isinstance(S, Arr):
            c.undecided('input', tag, w, 'compliance')
            continue
        at = lambda A, i, j: A.at([al.as_poly(i), al.as_poly(j)])    # noqa
        R = range(6)
        table(c, 'input', tag, w, log, [[at(C, i, j) for j in R]
                                        for i in R] +
              [[at(S, i, j) * 1000 for j in R] for i in R],
              'stiffness and compliance')
        heads = [text(m) for m in log]
        a = [i for i, t in enumerate(heads) if 'tiffness' in t and
             '(values in GPa)' in t or 'tiffness' in t and 'GPa' in t]
        b = [i for i, t in enumerate(heads) if 'ompliance' in t and
             'TPa^-1' in t]
        first = [i for i, m in enumerate(log) if len(cells(m)) == 6]
        ok = bool(a and b and len(first) == 12) and a[0] < first[0] and \
            first[5] < b[0] < first[6]
        c.need(ok, 'input', tag + ': headings', w, 'the matrices are not '
               'announced with their units, GPa and TPa^-1')


COLS = ('v', 'a', 'b', 'c')


def eosfit(c):
    w = c.where_func(EF, 'EoSFitCalculator.report_input_data')
    plans = [COLS, ('v',), ('a', 'c'), ('b',), ('v', 'c')]
    for have in plans:
        for sig in ((), ('p', 'v'), ('a', 'c'), ('b',)):
            tag = 'eosfit columns %s, uncertainties %s' % (
                ''.join(have) or 'none', ''.join(sig) or 'none')
            I = c.interp()
            log = capture(I)
            attrs = {'jobname': 'garnet', 'completed': True, 'error': None}
            data = {}
            for k, n in (('p', 'pressure'), ('v', 'volume'), ('a', 'a'),
                         ('b', 'b'), ('c', 'c')):
                attrs[n] = data[k] = I.alloc(series('d_' + k, 4)) if \
                    k == 'p' or k in have else None
                attrs['sigma_' + k] = data['sigma' + k] = I.alloc(series(
                    's_' + k, 4)) if k in sig else None
            attrs['data'] = attrs['_data'] = I.new_dict(data)
            I.models['quantas.IO.eos_reader.EoSInputFileReader'] = \
                lambda I, a, k, n: Opaque(('reader',), attrs=attrs)
            calc = I.call(I.get(EF, 'EoSFitCalculator'), [I.new_dict({
                'lenght_unit': 'A', 'pressure_unit': 'GPa',
                'logfile': None})], {}, None)
            e = safe_call(c, I, I.get_attr(calc, 'read_input'), 'in.dat')
            del log[:]
            r = Unknown('input refused: %r' % (e,)) if e is not None else \
                safe_call(
                c, I, I.get_attr(calc, 'report_input_data'))
            if isinstance(r, Unknown):
                c.undecided('input', tag, w, r.reason)
                continue
            mentions(c, 'input', tag, w, log, 'job', 'garnet')
            order(c, 'input', tag, w, log, [
                'P (GPa)', 'V (A^3)', 'a (A)', 'b (A)', 'c (A)'])
            rows = [m for m in log if terms(m)]
            c.need(len(rows) == 4, 'input', tag + ': rows', w,
                   '%d rows of 4' % len(rows))
            for i, m in enumerate(rows[:4]):
                want = [al.as_poly(series('d_p', 4).at([al.as_poly(i)]))]
                cells = [x for x in pieces(m) if not isinstance(x, str) or
                         x.strip(' |')]
                flat = []
                for x in cells:
                    flat += x.split() if isinstance(x, str) else [x]
                if len(flat) != 5:
                    c.bad('input', '%s: row %d' % (tag, i), w, '%d columns '
                          'instead of 5' % len(flat))
                    continue
                for k, x in zip(('p',) + COLS, flat):
                    t = '%s: row %d column %s' % (tag, i, k)
                    if k == 'p' or k in have:
                        if isinstance(x, str):
                            c.bad('input', t, w, 'printed %r' % x)
                        else:
                            c.same('input', t, x[1], series(
                                'd_' + k, 4).at([al.as_poly(i)]), w)
                    else:
                        c.need(isinstance(x, str), 'input', t, w,
                               'a value is printed')
            long = {'p': 'pressure', 'v': 'volume', 'a': 'a-axis',
                    'b': 'b-axis', 'c': 'c-axis'}
            said = [t for t in map(text, log) if 'weights' in t]
            for k, n in long.items():
                c.need(any(n in t for t in said) == (k in sig), 'input',
                       '%s: weights of %s' % (tag, n), w,
                       'reported: %s' % [t.strip() for t in said])


def P_reports(c):
    c.rule('input', 'job, counts, unit labels and every number of the input '
           'reports are those read from the file, in the order of the '
           'headings')
    harmonic(c)
    quasiharmonic(c)
    elastic(c)
    eosfit(c)


CHECKS = {'P22': P_reports}
