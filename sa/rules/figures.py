"""Drawn figures show the data they are given (P31)."""
import re

from ..core import *          # noqa
from .. import algebra as al
from . import soec

PL = 'quantas.soec.utils.plotting'
ZERO = al.as_poly(0)
N = al.sym('nangles', int=True, sign=1)
PLANES = ('xy', 'xz', 'yz')
# drawing function -> words of the legend, column by column
CURVES = {'young_polar_plot': (None,),
          'compressibility_polar_plot': ('pos', 'neg'),
          'shear_polar_plot': ('min', 'max'),
          'poisson_polar_plot': ('neg', 'min', 'max'),
          'seismic_waves_polar_plot': ('s', 's', 'p')}
NAMES = tuple('%s%d' % (p, j) for p in PLANES for j in range(4))
TITLE = {'young_polar_plot': 'young', 'compressibility_polar_plot': 'compress',
         'shear_polar_plot': 'shear', 'poisson_polar_plot': 'poisson',
         'seismic_waves_polar_plot': 'wave|veloc'}


def table(plane, ncol):
    """Polar table: angle in degrees, then the values."""
    def cell(ix):
        j = ix[1].const_value()
        if j is None:
            return al.app('tab_' + plane, ix[0], ix[1])
        return al.app('%s%d' % (plane, int(j)), ix[0])
    return Arr.build((N, ncol), cell)


class Canvas(object):
    """matplotlib figure and axes that remember what is drawn."""
    METHODS = ('plot', 'text', 'set_rmax', 'set_title', 'annotate', 'legend',
               'set_rlim', 'set_ylim', 'set_theta_zero_location', 'grid',
               'set_theta_direction', 'set_theta_offset')

    def __init__(self, I):
        self.I = I
        self.figures = []
        self.calls = []
        self.ntext = 0
        M = I.models
        M['matplotlib.pyplot.subplots'] = self.subplots
        M['matplotlib.pyplot.figure'] = lambda I, a, k, n: self.figure()
        M['mock.add_subplot'] = lambda I, a, k, n: self.axis()

    def record(self, who, name):
        def model(I, a, k, n):
            self.calls.append((who, name, tuple(a), dict(k), I.cond()))
            return Opaque(('drawn', who, name, len(self.calls)))
        return model

    def axis(self):
        i = len([x for x in self.calls if x[1] == 'axis'])
        self.calls.append((i, 'axis', (), {}, None))
        at = {'transAxes': Opaque(('transAxes', i))}
        for m in self.METHODS:
            key = 'mock.axis%d.%s' % (i, m)
            self.I.models[key] = self.record(i, m)
            at[m] = Ext(key)
        return Opaque(('axis', i), attrs=at)

    def figure(self):
        self.I.models['mock.figure.legend'] = self.record('fig', 'legend')
        f = Opaque(('figure', len(self.figures)), attrs={
            'legend': Ext('mock.figure.legend'),
            'add_subplot': Ext('mock.add_subplot'),
            'tight_layout': Ext('mock.figure.layout')})
        self.I.models['mock.figure.layout'] = lambda I, a, k, n: None
        self.figures.append(f)
        return f

    def subplots(self, I, a, k, n):
        shape = []
        for i, name in enumerate(('nrows', 'ncols')):
            v = a[i] if len(a) > i else k.get(name, 1)
            v = al.as_poly(v).const_value()
            if v is None:
                raise Imprecise('subplots')
            shape.append(int(v))
        rows = [tuple(self.axis() for _ in range(shape[1]))
                for _ in range(shape[0])]
        f = self.figure()
        if shape == [1, 1]:
            return (f, rows[0][0])
        if 1 in shape:
            return (f, tuple(x for r in rows for x in r))
        return (f, tuple(rows))

    def of(self, who, *names):
        return [x for x in self.calls if x[0] == who and x[1] in names]


def strings(I, v):
    xs = I.iter_concrete(v) if not isinstance(v, str) else [v]
    if xs is None or not all(isinstance(x, str) for x in xs):
        return None
    return xs


def panel(c, I, K, k, fn, tag, tab, w, labels):
    """One panel: its curves, its limit, its caption."""
    i = al.sym('ia', int=True, sign='+0')
    curves = K.of(k, 'plot')
    ncol = len(CURVES[fn])
    order = []
    for n, x in enumerate(curves):
        t = '%s curve %d' % (tag, n + 1)
        if len(x[2]) < 2:
            c.undecided('curves', t, w, 'arguments of plot')
            return None
        a, b = val(I, x[2][0]), val(I, x[2][1])
        if not (isinstance(a, Arr) and isinstance(b, Arr) and
                a.ndim() == 1 == b.ndim()):
            c.undecided('curves', t, w, '%s, %s' % (describe(a), describe(b)))
            return None
        c.same('curves', t + ': angle', a.at([i]),
               tab.at([i, ZERO]) * al.PI / 180, w, allow=NAMES)
        y = b.at([i])
        cols = [j for j in range(1, ncol + 1)
                if al.equal(y, tab.at([i, al.as_poly(j)]))]
        c.need(cols, 'curves', t + ': values', w,
               'drawn %s, which is no column of values of this panel'
               % describe(y))
        c.need(same_dim(a.shape[0], N) and same_dim(b.shape[0], N), 'curves',
               t + ': points', w, 'not all the points')
        order += cols
        if isinstance(x[3].get('label'), str):
            labels.setdefault(k, {})[n] = x[3]['label']
    c.need(sorted(order) == list(range(1, ncol + 1)), 'curves',
           tag + ': every column once', w, 'columns drawn: %s' % order)
    # limit of the radius
    lim = K.of(k, 'set_rmax')
    for x in lim:
        v = val(I, x[2][0]) if x[2] else None
        if not isinstance(v, Poly):
            c.undecided('limit', tag, w, describe(v))
            continue
        big = LIMIT[fn]
        r = [ratio(v, x) for x in bounds(I, tab, ncol, big)]
        r = [x for x in r if x is not None]
        if r:
            c.need(max(r) >= 1, 'limit', tag, w, 'the radius ends at %s times '
                   'the largest value' % max(r))
            continue
        own = [j for j in range(ncol + 1)
               if ratio(v, reduced(I, tab, j, j)) is not None]
        if any(ratio(v, reduced(I, table(p, ncol + 1), j, m)) is not None
               for p in PLANES if p != PLANES[k] for j in range(ncol + 1)
               for m in range(j, ncol + 1)):
            c.bad('limit', tag, w, 'the limit is that of another plane: %s' %
                  describe(v))
        elif own:
            c.bad('limit', tag, w, 'the limit is taken from column %d, larger '
                  'values may be in column %s' % (own[0], ' or '.join(
                      str(j) for j in big if j != own[0])))
        else:
            c.undecided('limit', tag, w, describe(v))
    # caption
    said = []
    for x in K.of(k, 'text', 'set_title', 'annotate'):
        said += [t for t in x[2] if isinstance(t, str)] + [
            t for t in x[3].values() if isinstance(t, str)]
    planes = set(p for p in PLANES for t in said
                 if re.search(r'\b%s\b' % p, t))
    mine = PLANES[k] if k < 3 else None
    if not planes:
        c.undecided('captions', tag, w, 'no caption interpreted: %s' % said)
    else:
        c.need(planes == {mine}, 'captions', tag + ': plane', w,
               'the caption names %s' % ', '.join(sorted(planes)))
        text = ' '.join(said).lower()
        other = [f for f in TITLE if f != fn and re.search(TITLE[f], text)]
        c.need(re.search(TITLE[fn], text) or not other, 'captions',
               tag + ': property', w, 'captioned %r' % text)
    return order


# columns that bound the others
LIMIT = {'young_polar_plot': (1,), 'compressibility_polar_plot': (1, 2),
         'shear_polar_plot': (2,), 'poisson_polar_plot': (3,),
         'seismic_waves_polar_plot': (3,)}


def ratio(v, x):
    return (v / x).const_value()


def reduced(I, tab, first, last):
    """Largest value in the columns first..last."""
    if first == last:
        part = Arr.build((N,), lambda ix: tab.at([ix[0], al.as_poly(first)]))
    else:
        part = Arr.build((N, last - first + 1), lambda ix: tab.at(
            [ix[0], ix[1] + first]))
    return val(I, I.call(Ext('numpy.max'), [I.alloc(part)], {}, None))


def bounds(I, tab, ncol, big):
    """Ways to write a bound of the columns `big`."""
    out = [reduced(I, tab, a, b) for a in range(1, big[0] + 1)
           for b in range(big[-1], ncol + 1)]
    if len(big) == 2:
        x, y = reduced(I, tab, big[0], big[0]), reduced(I, tab, big[1], big[1])
        for f in (Builtin('builtin.max'), Ext('numpy.maximum')):
            for p in ((x, y), (y, x)):
                try:
                    out.append(al.as_poly(val(I, I.call(f, list(p), {}, None))))
                except (Imprecise, Budget, TypeError):
                    pass
    return out


def P_figures(c):
    c.rule('curves', 'each panel of a figure draws every column of the table '
           'of its plane once, over the angle converted to radians')
    c.rule('limit', 'the radial limit of a panel is not below the largest '
           'value drawn in it')
    c.rule('captions', 'a panel is captioned with its own plane and property')
    c.rule('legend', 'the legend names the curves in the order they are drawn')
    for fn, words in CURVES.items():
        w = c.where_func(PL, fn)
        I = c.interp()
        K = Canvas(I)
        tabs = [table(p, len(words) + 1) for p in PLANES]
        try:
            r = I.call(I.get(PL, fn), [I.alloc(t) for t in tabs], {}, None)
        except AbsRaise as e:
            c.bad('curves', fn, w, 'stops with %s' % e)
            continue
        except (Imprecise, Budget, al.Undefined, RecursionError) as e:
            c.undecided('curves', fn, w, str(e))
            continue
        finally:
            c.collect(I)
        axes = [x[0] for x in K.calls if x[1] == 'axis']
        if len(axes) != 3 or not any(x[1] == 'plot' for x in K.calls):
            c.undecided('curves', fn, w, '%d panels' % len(axes))
            continue
        c.need(K.figures and r is K.figures[-1], 'curves', fn + ': returned',
               w, 'the figure drawn is not the one returned')
        labels = {}
        orders = []
        for k in range(3):
            orders.append(panel(c, I, K, k, fn, '%s (%s)' % (fn, PLANES[k]),
                                tabs[k], w, labels))
        if words == (None,) or None in orders:
            continue
        c.need(orders[0] == orders[1] == orders[2], 'legend',
               fn + ': same order in each panel', w, '%s' % orders)
        leg = [x for x in K.calls if x[1] == 'legend']
        names = None
        for x in leg:
            v = x[2][-1] if x[2] else x[3].get('labels')
            names = strings(I, v) if v is not None else None
        if names is None and 0 in labels and leg:
            names = [labels[0].get(n, '') for n in range(len(orders[0]))]
        if not leg:
            c.bad('legend', fn, w, 'the curves are not named')
        elif names is None:
            c.undecided('legend', fn, w, 'labels not interpreted')
        else:
            c.need(len(names) >= len(orders[0]) and len(set(names)) == len(
                names), 'legend', fn + ': one name per curve', w,
                '%s' % names)
            for n, j in list(zip(range(len(names)), orders[0])):
                word = words[j - 1]
                text = names[n].lower()
                mine = re.search(word, text.replace('velocity', '').replace(
                    'poisson', '').replace('slow', '').replace('fast', ''))
                alien = [x for x in set(words) if x != word and
                         re.search(x, text)]
                if mine or alien:
                    c.need(mine, 'legend', '%s: column %d' % (fn, j), w,
                           'named %r' % names[n])
                else:
                    c.undecided('legend', '%s: column %d' % (fn, j), w,
                                'named %r' % names[n])
    soec.figures(c)


CHECKS = {'P31': P_figures}
