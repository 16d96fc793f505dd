"""The harmonic and quasi-harmonic calculators: what they feed to the kernels,
in which units, and what they store."""
from ..core import *          # noqa
from .. import algebra as al
from .units import ENERGY, PRESSURE, LENGTH, FREQ, TEMP
from .thermo import mode_terms, ZERO
from .soec import capture, safe_call
from .. import files

HA = 'quantas.harmonic.harmonic'
QHA = 'quantas.qha.qha'
NA = al.sym('NA', sign=1, scalar=True)

# consistent unit choices: (energy, frequency, length, temperature, pressure)
CONFIGS = (('Ha', 'cm^-1', 'A', 'K', 'GPa'), ('eV', 'THz', 'bohr', 'C', 'kbar'),
           ('Ry', 'Hz', 'A', 'C', 'kbar'))


def factor(tab, name):
    for k, v in tab.items():
        if name in v[-1] or name == k:
            return v
    raise KeyError(name)


def efac(u):
    """kJ/mol -> u"""
    return factor(ENERGY, 'kjmol')[0] / factor(ENERGY, u)[0]


def reader_object(I, nq, nb, nv, attrs=None):
    a = {'completed': True, 'error': None, 'jobname': 'job', 'nvol': nv,
         'natoms': dim('nat'), 'kpoints': al.as_poly(1),
         'qpoints': nq, 'volume': I.alloc(Arr.symbol('V', (nv,), sign=1)),
         'energy': I.alloc(Arr.symbol('U0', (nv,))),
         'frequencies': I.alloc(Arr.symbol('f', (nq, nb, nv))),
         'weights': I.alloc(Arr.symbol('w', (nq,), sign=1)),
         'total_q_points': al.sym('wtot', sign=1), 'data': None,
         'acoustic_kieffer': None}
    a.update(attrs or {})
    return Opaque(('reader',), attrs=a)


def settings(I, cfg, **more):
    e, f, l, t, p = cfg
    d = {'silent': True, 'debug': False, 'logfile': None,
         'trange': (al.sym('tmin'), al.sym('tmax'), al.sym('tstep', sign=1)),
         'prange': (al.sym('pmin'), al.sym('pmax'), al.sym('pstep', sign=1)),
         'energy_unit': e, 'frequency_unit': f, 'lenght_unit': l,
         'temperature_unit': t, 'pressure_unit': p}
    d.update(more)
    return I.new_dict(d)


def grid_model(c, names, grids):
    """numpy.arange over (min, max + step, step) is the named axis."""
    def arange(I, a, k, n):
        vals = [I.num(x) for x in a]
        for key, (lo, hi, st, n_) in names.items():
            if len(vals) == 3 and all(isinstance(x, Poly) for x in vals) and \
                    al.equal(vals[0], lo) and al.equal(vals[2], st):
                grids[key] = (vals, n)
                return I.alloc(Arr.symbol(key, (n_,), sign='+0'))
        return None
    return arange


def mode_sum(ref, nq, nb, ff, v, t, w):
    j, k = al.fresh('j'), al.fresh('k')
    fr = al.idx('f', j, k, v) * ff
    return al.make_sum(al.make_sum(w(j) * ref(fr, t), k, ZERO, nb), j, ZERO,
                       nq)


def P_ha(c):
    c.rule('ha-results', 'after a run every stored property is, as a term in '
           'the input file quantities, the conversion of the harmonic '
           'closed form evaluated with temperatures in K, frequencies in Hz '
           'and weights divided by their total; interpreted from the '
           'calculator through the kernels')
    c.rule('ha-grid', 'the temperature grid runs from the minimum to the '
           'maximum, both included, with the requested step')
    c.rule('ha-export', 'each exported dataset holds the quantity its name, '
           'description and unit say')
    w = c.where_func(HA, 'HACalculator.run')
    nT, nq, nb, nv = [dim(x) for x in ('nT', 'nq', 'nb', 'nv')]
    refs = mode_terms()
    for cfg in CONFIGS if c.tier != 'quick' else CONFIGS[:2]:
        I = c.interp()
        log = capture(I)
        grids = {}
        base = arange_hook(I, {'Tg': (al.sym('tmin'), al.sym('tmax'),
                                      al.sym('tstep', sign=1), nT)}, grids)
        I.models['quantas.IO.qha_reader.QHAInputFileReader'] = \
            lambda I, a, k, n: reader_object(I, nq, nb, nv)
        calc = I.call(I.get(HA, 'HACalculator'), [settings(I, cfg)], {}, None)
        e = safe_call(c, I, I.get_attr(calc, 'read_input'), 'x.yaml')
        tag = '/'.join(cfg[:4])
        if 'Tg' in grids:
            lo, hi, st = grids['Tg'][0]
            c.same('ha-grid', tag, hi, al.sym('tmax') + al.sym(
                'tstep', sign=1), c.where_func(HA, 'HACalculator'))
        else:
            c.undecided('ha-grid', tag, w, 'no arange call seen')
        r = safe_call(c, I, I.get_attr(calc, 'run'))
        if isinstance(r, Unknown):
            c.undecided('ha-results', tag, w, r.reason)
            continue
        untrapped(c, I, 'ha-results', tag, w)
        c.need(I.get_attr(calc, 'completed') is True, 'ha-results',
               tag + ': completed', w, 'a finished run is not marked')
        res = I.get_attr(calc, 'results')
        tf, t0 = factor(TEMP, cfg[3])[:2]
        ff = factor(FREQ, cfg[1])[0]
        ef = efac(cfg[0])
        wt = lambda j: al.idx('w', j, sign=1) / al.sym('wtot', sign=1)

        def T(i):
            return al.idx('Tg', i, sign='+0') * tf + t0

        def sums(name):
            return lambda v, t: mode_sum(refs[name], nq, nb, ff, v, t, wt)
        zp, th, s, fv, cv = [sums(n) for n in (
            'zero_point_energy', 'thermal_energy', 'entropy',
            'vibrational_free_energy', 'isochoric_heat_capacity')]
        U0 = lambda v: al.idx('U0', v)
        want = {
            'Uzp': ((1, nv), lambda ix: ef * zp(ix[1], ZERO)),
            'Uth': ((nT, nv), lambda ix: ef * th(ix[1], T(ix[0]))),
            'S': ((nT, nv), lambda ix: ef * s(ix[1], T(ix[0]))),
            'Cv': ((nT, nv), lambda ix: ef * cv(ix[1], T(ix[0]))),
            'Fvib': ((nT, nv), lambda ix: ef * fv(ix[1], T(ix[0]))),
            'Utot': ((nT, nv), lambda ix: U0(ix[1]) + ef * (
                zp(ix[1], ZERO) + th(ix[1], T(ix[0])))),
            'F': ((nT, nv), lambda ix: U0(ix[1]) + ef * fv(ix[1],
                                                          T(ix[0])))}
        for k, (shape, cell) in want.items():
            got = item(I, res, k)
            c.same('ha-results', '%s: %s' % (tag, k), got,
                   Arr.build(shape, cell), w)
        exports(c, I, calc, cfg, {
            'V': (Arr.symbol('V', (nv,), sign=1), cfg[2], 'volume'),
            'T': (Arr.symbol('Tg', (nT,), sign='+0'), cfg[3], 'temperature'),
            'U0': (Arr.symbol('U0', (nv,)), cfg[0], 'static'),
            **{k: (Arr.build(*want[k]), ('m' if k in ('S', 'Cv') else '') +
                   cfg[0], d) for k, d in (
                ('Uzp', 'zero-point'), ('Uth', 'thermal'),
                ('Utot', 'total'), ('S', 'entropy'), ('F', 'free energy'),
                ('Fvib', 'vibrational'), ('Cv', 'isochoric heat capacity'))}},
            'ha-export', HA, 'HACalculator.export_hdf5', tag)


def arange_hook(I, names, grids):
    hook = grid_model(None, names, grids)

    def arange(I, a, k, n):
        r = hook(I, a, k, n)
        if r is not None:
            return r
        saved = I.models.pop('numpy.arange')
        try:
            return I.call(Ext('numpy.arange'), list(a), dict(k), n)
        finally:
            I.models['numpy.arange'] = saved
    I.models['numpy.arange'] = arange
    I.traps = []

    def seterr(I, a, k, n):
        vals = list(a) + list(k.values())
        if any(v in ('raise', 'call') for v in vals if isinstance(v, str)):
            I.traps.append(n)
        return I.new_dict({})
    I.models['numpy.seterr'] = seterr


def untrapped(c, I, rule, tag, w):
    """exp(-h nu / kT) underflows for every cold, stiff mode."""
    c.need(not I.traps, rule, tag + ': rounding to zero or infinity', w,
           'is made an exception (numpy.seterr)')


def item(I, d, key):
    try:
        c = I.content(d)
        v = c.items.get(key) if hasattr(c, 'items') else None
        if v is None:
            return Unknown('no entry %s' % key)
        return val(I, v)
    except Exception as e:          # noqa
        return Unknown('%s: %s' % (type(e).__name__, e))


class File(object):
    """A stand-in for h5py.File: records datasets and attributes."""
    all = []
    old = ()             # datasets every file has before it is written

    def __init__(self):
        self.handles = []
        File.all.append(self)
        self.sets = {}       # path -> (data, attrs)
        self.attrs = None

    def install(self, I):
        def attr_store(store):
            return I.new_dict(store) if False else store

        def mk(path):
            def create(I, a, k, n):
                self.handles[-1].need(I, n)
                name = a[0] if a else k.get('name')
                data = k.get('data', a[3] if len(a) > 3 else None)
                if len(a) > 1 and data is None:
                    data = a[1]
                at = I.new_dict({})
                full = (path + '/' if path else '') + str(name)
                if full in self.sets:
                    raise AbsRaise(Opaque(('exc', 'ValueError',
                                           'name exists')), n)
                self.sets[full] = (val(I, data) if data is not None else None,
                                   at, n)
                return Opaque(('dset', full), attrs={'attrs': at})

            def group(I, a, k, n):
                full = (path + '/' if path else '') + str(a[0])
                return self.obj(I, full)
            return create, group
        self._mk = mk
        I.models['h5py.File'] = self.open

    def open(self, I, a, k, n):
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        h = files.Handle(a[0], mode, ('h5', '', len(self.handles)), n)
        self.handles.append(h)
        if isinstance(mode, str) and mode not in ('r', 'r+', 'w', 'w-', 'x',
                                                  'a'):
            raise AbsRaise(Opaque(('exc', 'ValueError', 'mode')), n)
        if mode == 'r' and self.sets:
            raise Imprecise('reading what was written')
        if mode == 'r':
            raise AbsRaise(Opaque(('exc', 'OSError', 'not writable')), n)
        if mode in ('w-', 'x') and (self.old or self.sets):
            raise AbsRaise(Opaque(('exc', 'FileExistsError')), n)
        if mode == 'w':
            self.sets.clear()
            self.attrs = None
        elif len(self.handles) == 1:
            for q in self.old:
                self.sets[q] = (None, I.new_dict({}), None)
        return self.obj(I, '')

    def obj(self, I, path):
        create, group = self._mk(path)
        k = 'mock.h5.%s' % (path or 'root')
        I.models[k + '.create_dataset'] = create
        I.models[k + '.create_group'] = group
        h = self.handles[-1]
        I.models[k + '.close'] = h.close
        I.models[k + '.flush'] = lambda I, a, kk, n: h.need(I, n)
        at = self.attrs if not path and self.attrs else I.new_dict({})
        if not path:
            self.attrs = at
        return Opaque(h.key if not path else ('h5', path), leave=h.close
                      if not path else (lambda I: None), attrs={
            'flush': Ext(k + '.flush'),
            'create_dataset': Ext(k + '.create_dataset'),
            'create_group': Ext(k + '.create_group'),
            'require_group': Ext(k + '.create_group'),
            'close': Ext(k + '.close'), 'attrs': at})


def to_file(c, F, rule, tag, w, name):
    """Everything is written to the file asked for."""
    paths = [h.path for h in F.handles]
    c.need(paths and all(p == name for p in paths), rule,
           '%s: written to the file asked for' % tag, w,
           'writes to %s instead of %r' % (paths, name))


def exports(c, I, calc, cfg, want, rule, mod, qual, tag):
    F = File()
    F.install(I)
    r = safe_call(c, I, I.get_attr(calc, 'export_hdf5'), 'out.hdf5')
    w = c.where_func(mod, qual)
    if isinstance(r, Unknown):
        c.undecided(rule, tag, w, r.reason)
        return F
    to_file(c, F, rule, tag, w, 'out.hdf5')
    for k, (data, unit, desc) in want.items():
        if k not in F.sets:
            c.bad(rule, '%s: %s' % (tag, k), w, 'dataset not written')
            continue
        got, at, _ = F.sets[k]
        c.same(rule, '%s: %s' % (tag, k), got, data, w)
        a = I.content(at).items
        if unit is not None:
            c.need(a.get('unit') == unit, rule, '%s: unit of %s' % (tag, k),
                   w, 'unit attribute %r instead of %r' % (a.get('unit'),
                                                           unit))
        d = a.get('desc')
        if isinstance(d, str):
            c.need(desc in d.lower(), rule, '%s: description of %s' % (
                tag, k), w, 'described as %r' % d)
        else:
            c.bad(rule, '%s: description of %s' % (tag, k), w,
                  'no description')
    return F


CHECKS = {'P06': P_ha}
