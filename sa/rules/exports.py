"""Exported results are the computed ones (P23)."""
import re

from .. import algebra as al
from ..core import (dim, val, same_value, describe, AbsRaise, Budget, Unknown, Arr,
                    Poly, Imprecise)
from ..values import *          # noqa
from .. import files
from .readers import attempt, fresh, expect, Raised, undec, is_text
from .ha import CONFIGS, File, exports, item, to_file
from .soec import SC, calculator, safe_call
from .soec import capture
from . import ha, qha

ZERO = al.as_poly(0)
UNITS = {'e': lambda cfg: cfg[0], 'me': lambda cfg: 'm' + cfg[0],
         'p': lambda cfg: cfg[4], 'v': lambda cfg: cfg[2],
         '': lambda cfg: '', 'K': lambda cfg: 'K^-1'}
QUNIT = {'Uzp': 'e', 'Uth': 'e', 'Utot': 'e', 'Fvib': 'e', 'F': 'e',
         'H': 'e', 'G': 'e', 'S': 'me', 'Cv': 'me', 'Cp': 'me',
         'Cp-Cv': 'me', 'VT': 'v', 'KT': 'p', 'KS': 'p', 'Kp': '',
         'gruneisen': '', 'alphaV': 'K'}


class Store(object):
    """h5py.File for reading: {name: (values, unit)}."""
    all = []

    def __init__(self, I, info, sets):
        self.I, self.info, self.sets = I, info, sets
        self.handles = []
        Store.all.append(self)
        I.models['h5py.File'] = self.open

    def open(self, I, a, k, node):
        if I.cond() != al.as_poly(1):
            raise Imprecise('conditional file')
        names = sorted(self.sets)          # HDF5 lists names in this order
        h = files.Handle(a[0], a[1] if len(a) > 1 else k.get('mode', 'r'),
                         ('h5 read', len(self.handles)), node)
        self.handles.append(h)

        def keys(I):
            h.need(I)
            return names

        def item_(I, ix, node):
            h.need(I, node)
            if not isinstance(ix, str):
                raise Imprecise('dataset name')
            if ix not in self.sets:
                raise AbsRaise(Opaque(('exc', 'KeyError')), node)
            v, unit = self.sets[ix]

            def values(I, node):
                # a dataset reads from its file
                h.need(I, node)
                return I.alloc(v)
            return Opaque(('dataset', ix), attrs={
                'attrs': I.new_dict({'unit': unit, 'desc': ix}),
                'shape': tuple(al.as_poly(d) for d in v.shape)},
                array=values, item=lambda I, ix, node: I.subscript(
                    values(I, node), ix, node))
        I.models['mock.h5.keys'] = lambda I, a, k, n: I.new_list(keys(I))
        I.models['mock.h5.close'] = h.close
        at = I.new_dict({'info': self.info} if self.info else {})
        return Opaque(h.key, leave=h.close, attrs={
            'attrs': at, 'keys': Ext('mock.h5.keys'),
            'close': Ext('mock.h5.close')}, item=item_,
            lines=keys, has=lambda I, x: x in self.sets)


def grid(name, *shape):
    return Arr.build(shape, lambda ix: al.sym('%s_%s' % (name, '_'.join(
        str(int(x.const_value())) for x in ix)), sign=1))


def numeric_rows(N, text):
    """Values of the lines that hold only numbers."""
    rows = []
    for line in text.split('\n'):
        ws = line.split()
        vs = [N.read(w) for w in ws]
        if ws and all(v is not None for v in vs):
            rows.append(vs)
    return rows


def P_exports(c):
    c.rule('hdf5', 'each dataset of the results file holds the computed '
           'quantity its name says, with that quantity\'s unit and '
           'description')
    c.rule('text', 'the table exported for a dataset lists, for every value '
           'of the first variable, that value and the datum of every value '
           'of the second one, in their order, under the dataset\'s unit')
    c.rule('text-choice', 'every dataset of a results file can be exported')
    c.rule('text-refuse', 'other files are refused with an error text')
    c.rule('no-overwrite', 'an existing file is replaced only after '
           'confirmation; otherwise the table goes to the file named instead')
    soec_hdf5(c)
    ha_hdf5(c)
    qha_hdf5(c)
    tables(c)
    soec_tables(c)


# --------------------------------------------------------------------- HDF5
def soec_hdf5(c):
    w = c.where_func(SC, 'SOECCalculator.export_hdf5')
    for polar in (True, False):
        I, calc, M = calculator(c, density=al.sym('rho', sign=1),
                                eig=[1, 2, 3, 4, 5, 6],
                                settings={'polar': polar})
        capture(I)
        r = safe_call(c, I, I.get_attr(calc, 'run'))
        if isinstance(r, Unknown):
            c.undecided('hdf5', 'soec run', w, r.reason)
            continue
        F = File()
        F.install(I)
        r = safe_call(c, I, I.get_attr(calc, 'export_hdf5'), 'o.hdf5')
        if isinstance(r, Unknown):
            c.undecided('hdf5', 'soec export', w, r.reason)
            continue
        to_file(c, F, 'hdf5', 'soec', w, 'o.hdf5')
        res = I.get_attr(calc, 'results')
        soec = I.get_attr(calc, 'soec')
        unit = 'GPa'
        tag = 'soec%s' % (', polar' if polar else '')
        want = {}
        S = val(I, I.get_attr(soec, 'stiffness'))
        want['stiffness'] = (S, unit)
        Q = val(I, I.get_attr(soec, 'compliance'))
        want['compliance'] = (Q.map(lambda x: 1000 * x) if isinstance(
            Q, Arr) else Q, 'TPa^-1')
        want['averages'] = (item(I, res, 'avgs'), unit)
        want['eigenvals'] = (item(I, res, 'eigv'), unit)
        if polar:
            pol = I.content(I.content(res).items['polar'])
            for plane in ('xy', 'xz', 'yz'):
                tab = I.content(pol.items[plane])
                for q, u in (('E', unit), ('LC', 'TPa^-1'), ('G', unit),
                             ('Nu', ''), ('waves', 'km s^-1')):
                    want['polar_%s_%s' % (q, plane)] = (
                        val(I, tab.items[q]), u)
        for k in sorted(want):
            v, u = want[k]
            if k not in F.sets:
                c.bad('hdf5', '%s: %s' % (tag, k), w, 'not written')
                continue
            got, at, _ = F.sets[k]
            if isinstance(v, Unknown) or isinstance(got, Unknown):
                c.undecided('hdf5', '%s: %s' % (tag, k), w, '%s / %s' % (
                    got, v))
                continue
            c.same('hdf5', '%s: %s' % (tag, k), got, v, w)
            got = I.content(at).items.get('unit')
            c.need(got == u, 'hdf5', '%s: unit of %s' % (tag, k), w,
                   'is %r instead of %r' % (got, u))
        for k in F.sets:
            c.need(k in want, 'hdf5', '%s: %s is a result' % (tag, k), w,
                   'nothing of that name was computed')


def ha_hdf5(c):
    """Export of a run's results, each standing for itself."""
    w = c.where_func(ha.HA, 'HACalculator.export_hdf5')
    nT, nq, nb, nv = [dim(x) for x in ('nT', 'nq', 'nb', 'nv')]
    for cfg in CONFIGS[:2]:
        I = c.interp()
        capture(I)
        ha.arange_hook(I, {'Tg': (al.sym('tmin'), al.sym('tmax'),
                                  al.sym('tstep', sign=1), nT)}, {})
        I.models['quantas.IO.qha_reader.QHAInputFileReader'] = \
            lambda I, a, k, n: ha.reader_object(I, nq, nb, nv)
        calc = I.call(I.get(ha.HA, 'HACalculator'),
                      [ha.settings(I, cfg)], {}, None)
        e = safe_call(c, I, I.get_attr(calc, 'read_input'), 'x.yaml')
        r = safe_call(c, I, I.get_attr(calc, 'run'))
        if isinstance(r, Unknown) or e is not None:
            c.undecided('hdf5', 'ha run', w, getattr(r, 'reason', e))
            continue
        res = I.get_attr(calc, 'results')
        want = {k: (item(I, res, k), UNITS[u](cfg), d) for k, u, d in (
            ('Uzp', 'e', 'zero-point'), ('Uth', 'e', 'thermal'),
            ('Utot', 'e', 'total'), ('S', 'me', 'entropy'),
            ('F', 'e', 'free energy'), ('Fvib', 'e', 'vibrational'),
            ('Cv', 'me', 'isochoric heat capacity'))}
        want['V'] = (Arr.symbol('V', (nv,), sign=1), cfg[2], 'volume')
        want['T'] = (Arr.symbol('Tg', (nT,), sign='+0'), cfg[3],
                     'temperature')
        want['U0'] = (Arr.symbol('U0', (nv,)), cfg[0], 'static')
        F = exports(c, I, calc, cfg, want, 'hdf5', ha.HA,
                    'HACalculator.export_hdf5', 'ha ' + '/'.join(cfg))
        for k in F.sets:
            c.need(k in want, 'hdf5', 'ha: %s is a result' % k, w,
                   'unexpected dataset')


def qha_hdf5(c):
    """Export of a run's results, each standing for itself."""
    w = c.where_func(qha.QHA, 'QHACalculator.export_hdf5')
    for cfg, scheme, mini in ((CONFIGS[0], 'td', 'poly'),
                              (CONFIGS[1], 'freq', 'eos')):
        I, d = qha.setup(c, cfg, qha_scheme=scheme, minimization=mini)
        calc = d['calc']
        e = safe_call(c, I, I.get_attr(calc, 'read_input'), 'x.yaml')
        r = safe_call(c, I, I.get_attr(calc, 'run'))
        if isinstance(r, Unknown) or e is not None:
            c.undecided('hdf5', 'qha run', w, r.reason)
            continue
        res = I.get_attr(calc, 'results')
        want = {}
        for k, desc, _ in qha.QEXPORT:
            want[k] = (item(I, res, k), UNITS[QUNIT[k]](cfg), desc)
        want['T'] = (Arr.symbol('Tg', (d['nT'],), sign='+0'), cfg[3],
                     'temperature')
        want['P'] = (Arr.symbol('Pg', (d['nP'],), sign='+0'), cfg[4],
                     'pressure')
        F = exports(c, I, calc, cfg, want, 'hdf5', qha.QHA,
                    'QHACalculator.export_hdf5', 'qha ' + '/'.join(cfg))
        for k in F.sets:
            c.need(k in want, 'hdf5', 'qha: %s is a result' % k, w,
                   'unexpected dataset')
        info = val_text(I, F)
        if info is not None:
            c.need('job' in info, 'hdf5', 'qha: job name', w,
                   'the description does not name the job')


def val_text(I, F):
    try:
        v = I.content(F.attrs).items.get('info')
    except Exception:          # noqa
        return None
    return v if isinstance(v, str) else None


# -------------------------------------------------------------- text tables
HAX = 'quantas.harmonic.utils.export'
QHX = 'quantas.qha.utils.export'
SOX = 'quantas.soec.utils.export'


def ha_sets(nx, ny):
    s = {'T': (grid('T', nx), 'K'), 'V': (grid('V', ny), 'A'),
         'U0': (grid('U0', ny), 'Ha'), 'Uzp': (grid('Uzp', 1, ny), 'Ha')}
    for k, u in (('Uth', 'Ha'), ('Utot', 'Ha'), ('S', 'mHa'), ('F', 'Ha'),
                 ('Fvib', 'Ha'), ('Cv', 'mHa')):
        s[k] = (grid(k, nx, ny), u)
    return s


def qha_sets(nx, ny):
    cfg = ('Ha', 'cm^-1', 'A', 'K', 'GPa')
    s = {'T': (grid('T', nx), 'K'), 'P': (grid('P', ny), 'GPa')}
    for k, u in QUNIT.items():
        s[k] = (grid(k, nx, ny), UNITS[u](cfg))
    return s


def export_run(c, mod, cls, info, sets, choose, exists=(), confirm=None,
               named='other.dat'):
    """Interpret load and run; what was asked and written."""
    I, D, N = fresh(c)
    Store(I, info, sets)
    asked = []

    def prompt(I, a, k, n):
        t = k.get('type', a[2] if len(a) > 2 else None)
        ch = I.content(t.info['choices']) if isinstance(
            t, Opaque) and 'choices' in t.info else None
        if ch is not None:
            asked.append([x for x in ch.items] if isinstance(
                ch, ListC) else None)
            return choose
        asked.append('name')
        return named
    I.models['click.Choice'] = lambda I, a, k, n: Opaque(
        ('choice',), choices=a[0])
    I.models['click.prompt'] = prompt

    def conf(I, a, k, n):
        msg = a[0] if a else ''
        if isinstance(msg, str) and 'xist' in msg:
            asked.append('overwrite')
            if isinstance(confirm, (list, tuple)):
                return confirm[min(asked.count('overwrite'),
                                   len(confirm)) - 1]
            return bool(confirm)
        return False
    I.models['click.confirm'] = conf
    I.models['click.style'] = lambda I, a, k, n: a[0]
    for p in exists:
        D.add(p, ['old'])

    def go():
        x = I.call(I.get(mod, cls), [], {}, None)
        I.call(I.get_attr(x, 'load'), ['res.hdf5'], {}, None)
        err = I.get_attr(x, 'error')
        if err is not None:
            return err
        I.call(I.get_attr(x, 'run'), [], {}, None)
        return None
    return I, D, N, attempt(c, I, go), asked


def tables(c):
    nx, ny = 3, 2
    for mod, cls, sets, yname in (
            (HAX, 'QuantasHarmonicExport', ha_sets, 'V'),
            (QHX, 'QuantasQHAExport', qha_sets, 'P')):
        w = c.where_func(mod, cls + '.run')
        S = sets(nx, ny)
        for key in sorted(S):
            if key in ('T', yname):
                continue
            I, D, N, r, asked = export_run(c, mod, cls, 'info', S, key)
            tag = '%s %s' % (cls, key)
            if isinstance(r, Raised):
                c.bad('text', tag, w, repr(r))
                continue
            if isinstance(r, Unknown) or r is not None:
                c.undecided('text', tag, w, str(r)[:200])
                continue
            ch = asked[0] if asked else None
            if isinstance(ch, list) and all(isinstance(x, str) for x in ch):
                c.need(sorted(ch) == sorted(set(S) - {'T', yname}),
                       'text-choice', tag, w, 'offers %r' % (ch,))
            else:
                c.undecided('text-choice', tag, w, repr(asked)[:200])
            if list(D.out) != ['res_%s.dat' % key]:
                c.bad('text', tag + ': file', w, 'written: %r' % list(D.out))
                continue
            check_table(c, D, N, 'res_%s.dat' % key, tag, w, S['T'][0],
                        S[yname][0], S[key], S['T'][1], S[yname][1], yname)
        key = 'F'
        for conf in (True, False):
            I, D, N, r, asked = export_run(
                c, mod, cls, 'info', S, key, ['res_F.dat'], conf)
            tag = '%s: existing file, %s' % (cls, 'replaced' if conf
                                             else 'kept')
            if isinstance(r, (Raised, Unknown)):
                c.undecided('no-overwrite', tag, w, str(r))
                continue
            c.need(list(D.out) == ['res_F.dat' if conf else 'other.dat'] and
                   'overwrite' in asked, 'no-overwrite', tag, w,
                   'written %r after %r' % (list(D.out), asked))
        retyped(c, mod, cls, S, key, w)


def retyped(c, mod, cls, S, key, w):
    """The name entered instead is of a file that exists as well."""
    I, D, N, r, asked = export_run(
        c, mod, cls, 'info', S, key, ['res_%s.dat' % key, 'other.dat'],
        (False, True))
    tag = cls + ': the name entered exists too'
    if isinstance(r, (Raised, Unknown)):
        c.undecided('no-overwrite', tag, w, str(r))
    else:
        c.need(list(D.out) == ['other.dat'] and asked.count(
            'overwrite') == 2, 'no-overwrite', tag, w,
            'written %r after %r' % (list(D.out), asked))


def refuse(c, mod, cls, S, w):
    for tag, info, sets in (('no description', None, S),
                            ('other results', 'info', {
                                'x': (grid('x', 2), 'm')})):
        I, D, N, r, asked = export_run(c, mod, cls, info, sets, 'F')
        t = '%s: %s' % (cls, tag)
        if isinstance(r, Raised):
            c.bad('text-refuse', t, w, repr(r))
        elif isinstance(r, Unknown):
            c.undecided('text-refuse', t, w, r.reason)
        else:
            c.need(is_text(r) and not D.out, 'text-refuse', t, w,
                   'accepted')


# words of the quantity in the title of its table
NAMES = {'U0': 'static energy', 'Uzp': 'zero-point energy',
         'Uth': 'thermal energy', 'Utot': 'internal energy', 'S': 'entropy',
         'Cv': 'isochoric heat capacity', 'F': 'helmholtz free energy',
         'Fvib': 'vibrational helmholtz free energy', 'VT': 'volume',
         'Cp': 'isobaric heat capacity',
         'Cp-Cv': 'correction isobaric heat capacity',
         'KT': 'isothermal bulk modulus', 'KS': 'adiabatic bulk modulus',
         'Kp': 'derivative bulk modulus', 'alphaV': 'thermal expansion',
         'H': 'enthalpy', 'G': 'gibbs free energy', 'gruneisen': 'gruneisen'}
SNAMES = {'E': "young", 'LC': 'linear compressibility', 'G': 'shear modulus',
          'Nu': "poisson", 'waves': 'wave velocities'}
SYMBOLS = {'V': 'V', 'P': 'P'}
SPECIAL = ('vibrational', 'isochoric', 'isobaric', 'isothermal', 'adiabatic',
           'correction', 'derivative', 'static', 'zero', 'thermal', 'internal',
           'gibbs', 'helmholtz', 'enthalpy', 'entropy', 'young', 'poisson',
           'shear', 'linear', 'wave')


def named(c, tag, w, text, names, key):
    """The title names the quantity, and no other one."""
    want = names.get(key)
    if want is None:
        return
    ws = [re.findall('[a-z]+', t.lower()) for t in text.split('\n')]
    need = re.findall('[a-z]+', want)
    c.need(any(all(any(x.startswith(n) for x in t) for n in need) and
               not any(x.startswith(s) for x in t for s in SPECIAL if not any(
                   n.startswith(s) for n in need)) for t in ws),
           'text', tag + ': title', w, 'no title names the %s: %r' % (
               want, text[:200]))


def check_table(c, D, N, path, tag, w, x, y, zu, xu, yu, yname):
    z, unit = zu
    try:
        text = D.text(path)
    except (Imprecise, TypeError) as e:
        return c.undecided('text', tag, w, str(e)[:200])
    rows = numeric_rows(N, text)
    head = '\n'.join(t for t in text.split('\n')
                     if not numeric_rows(N, t))
    for u in (unit, xu, yu):
        c.need(re.search(r'(?<![A-Za-z])%s(?![A-Za-z])' % re.escape(u),
                         head) if u else True, 'text', tag + ': unit %s' % u,
               w, 'the header does not name it: %r' % head[:300])
    named(c, tag, w, head, NAMES, tag.split()[-1])
    # the variables head the block of numbers
    yl = SYMBOLS[yname]
    lines = [re.sub(r'[|+*=-]', ' ', t).split() for t in head.split('\n')]
    c.need(any('T' in t and yl in t and t.index('T') < t.index(yl)
               for t in lines), 'text', tag + ': variables', w,
           'no heading names T and %s: %r' % (yl, head[:300]))
    nx, ny = x.shape[0], y.shape[0]
    if not c.need(len(rows) == nx + 1 and len(rows[0]) == ny and all(
            len(r) == ny + 1 for r in rows[1:]), 'text', tag + ': layout', w,
            'rows of %r numbers' % [len(r) for r in rows]):
        return
    want = [[y.at([al.as_poly(j)]) for j in range(ny)]]

    def datum(i, j):
        if z.ndim() == 1:
            return z.at([al.as_poly(j)])
        return z.at([al.as_poly(i if z.shape[0] != 1 else 0), al.as_poly(j)])
    for i in range(nx):
        want.append([x.at([al.as_poly(i)])] + [datum(i, j)
                                               for j in range(ny)])
    for i, (g, e) in enumerate(zip(rows, want)):
        for j, (p, q) in enumerate(zip(g, e)):
            if not al.equal(p, q):
                return c.bad('text', tag, w, 'row %d, number %d is %s '
                             'instead of %s' % (i, j, al.show(p),
                                                al.show(q)))
    c.ok('text', tag, w)


PLANES = ('xy', 'xz', 'yz')
COLUMNS = {'E': 1, 'LC': 2, 'G': 2, 'Nu': 3, 'waves': 3}
SUNIT = {'E': 'GPa', 'LC': 'TPa^-1', 'G': 'GPa', 'Nu': '',
         'waves': 'km s^-1'}


def soec_sets(n=4, waves=True):
    s = {'stiffness': (grid('C', 6, 6), 'GPa'),
         'compliance': (grid('S', 6, 6), 'TPa^-1'),
         'averages': (grid('A', 4, 4), 'GPa'),
         'eigenvals': (grid('L', 6), 'GPa')}
    for q, m in COLUMNS.items():
        if q == 'waves' and not waves:
            continue
        for p in PLANES:
            t = grid('%s_%s' % (q, p), n, m + 1)
            s['polar_%s_%s' % (q, p)] = (Arr.build(
                t.shape, lambda ix, t=t: t.at(ix) if ix[1].const_value()
                else al.sym('deg_%d' % int(ix[0].const_value()))), SUNIT[q])
    return s


def soec_tables(c):
    mod, cls = SOX, 'QuantasSOECExport'
    w = c.where_func(mod, cls + '.run')
    n = 4
    for waves in (True, False):
        S = soec_sets(n, waves)
        for q in COLUMNS:
            if q == 'waves' and not waves:
                continue
            I, D, N, r, asked = export_run(c, mod, cls, 'info', S, q)
            tag = '%s %s' % (cls, q)
            if isinstance(r, Raised):
                c.bad('text', tag, w, repr(r))
                continue
            if isinstance(r, Unknown) or r is not None:
                c.undecided('text', tag, w, str(r)[:200])
                continue
            ch = asked[0] if asked else None
            if isinstance(ch, list):
                c.need(sorted(map(str, ch)) == sorted(
                    k for k in COLUMNS if k != 'waves' or waves),
                    'text-choice', '%s (waves: %s)' % (tag, waves), w,
                    'offers %r' % (ch,))
            if list(D.out) != ['res_%s.dat' % q]:
                c.bad('text', tag + ': file', w, 'written: %r' % list(D.out))
                continue
            try:
                text = D.text('res_%s.dat' % q)
            except (Imprecise, TypeError) as e:
                c.undecided('text', tag, w, str(e)[:200])
                continue
            rows = numeric_rows(N, text)
            want = [[al.sym('deg_%d' % i)] + [
                S['polar_%s_%s' % (q, p)][0].at([al.as_poly(i),
                                                 al.as_poly(k + 1)])
                for p in PLANES for k in range(COLUMNS[q])]
                for i in range(n)]
            if SUNIT[q]:
                c.need(SUNIT[q] in text, 'text', tag + ': unit', w,
                       'not named')
            if not c.need([len(x) for x in rows] == [len(x) for x in want],
                          'text', tag + ': layout', w, 'rows of %r numbers'
                          % [len(x) for x in rows]):
                continue
            ok = next(((i, j) for i in range(n) for j in range(len(want[i]))
                       if not al.equal(rows[i][j], want[i][j])), None)
            c.need(ok is None, 'text', tag, w, 'number %r' % (ok,))
            named(c, tag, w, text, SNAMES, q)
            heads = [t for t in text.split('\n') if '(xy)' in t]
            c.need(heads and [heads[0].find('(%s)' % p) for p in PLANES]
                   == sorted(heads[0].find('(%s)' % p) for p in PLANES) and
                   all('(%s)' % p in heads[0] for p in PLANES), 'text',
                   tag + ': planes', w, 'header %r' % heads[:1])
            words = {'LC': ('positive', 'negative'),
                     'G': ('minimum', 'maximum'),
                     'Nu': ('negative', 'positive', 'maximum')}.get(q)
            if words:
                sub = [[x for x in t.split() if x in words]
                       for t in text.split('\n')
                       if any(x in t.split() for x in words)]
                c.need(sub == [list(words) * 3], 'text', tag + ': columns', w,
                       'headings %r' % sub)
    S = soec_sets(n)
    I, D, N, r, asked = export_run(c, mod, cls, 'info', {
        k: v for k, v in S.items() if 'polar' not in k}, 'E')
    if isinstance(r, Raised):
        c.bad('text-refuse', cls + ': no polar data', w, repr(r))
    elif isinstance(r, Unknown):
        c.undecided('text-refuse', cls + ': no polar data', w, r.reason)
    else:
        c.need(is_text(r) and not D.out, 'text-refuse', cls +
               ': no polar data', w, 'exported %r' % (list(D.out),))
    for conf in (True, False):
        I, D, N, r, asked = export_run(c, mod, cls, 'info', S, 'E',
                                       ['res_E.dat'], conf)
        tag = '%s: existing file, %s' % (cls, 'replaced' if conf else 'kept')
        if isinstance(r, (Raised, Unknown)):
            c.undecided('no-overwrite', tag, w, str(r))
            continue
        c.need(list(D.out) == ['res_E.dat' if conf else 'other.dat'] and
               'overwrite' in asked, 'no-overwrite', tag, w,
               'written %r after %r' % (list(D.out), asked))
    retyped(c, mod, cls, S, 'E', w)
    refuse(c, mod, cls, S, w)


CHECKS = {'P23': P_exports}
