"""Objects of one process do not share data (P17)."""
from .. import algebra as al
from ..core import (val, same_value, describe, AbsRaise, Budget, Unknown, Arr,
                    Poly, Imprecise)
from ..interp import PropertyV
from ..values import *          # noqa
from .. import files
from ..core import dim
from . import codes, exports, ha, qha, readers, soec
from .ha import arange_hook, reader_object, settings
from .soec import capture
from .readers import attempt, fresh, make, Raised, undec

ZERO = al.as_poly(0)


class Renamed(object):
    """Numbers written by a text builder, under other names."""

    def __init__(self, N, tag):
        self.N, self.tag = N, tag

    def other(self, p):
        if p.const_value() is not None:
            return p
        m = {}
        for a in p.all_atoms():
            k = al.atom_key(a)
            if k[0] == 'sym':
                m[a] = al.sym(str(k[1]) + self.tag, **dict(al.atom_info(a)))
        return al.subst(p, m)

    def text(self, p, spec='.4f', integer=False):
        return self.N.text(self.other(al.as_poly(p)), spec, integer)


def freeze(I, v, depth=0):
    """The content of a value, without identities."""
    if depth > 6:
        return Unknown('nesting')
    if isinstance(v, (Ref, View)):
        c = I.content(v)
        if isinstance(c, DictC):
            return ('dict', {(repr(k) if not isinstance(k, (str, Poly))
                              else k): freeze(I, x, depth + 1)
                             for k, x in c.items.items()})
        if isinstance(c, ObjC):
            return ('obj', c.cls.name if hasattr(c.cls, 'name')
                    else str(c.cls))
        if isinstance(c, ListC):
            return ('list', [freeze(I, x, depth + 1) for x in c.items])
        try:
            return I.num(v)
        except (Imprecise, al.Undefined) as e:
            return Unknown(str(e))
    if isinstance(v, tuple):
        return ('list', [freeze(I, x, depth + 1) for x in v])
    if isinstance(v, (bool, str)) or v is None:
        return v
    if isinstance(v, (int, float, Fraction)):
        return al.as_poly(v)
    if isinstance(v, GIf):
        x = val(I, v)
        return x if not isinstance(x, Unknown) else ('text', repr(v)) \
            if readers.is_text(v) else x
    if isinstance(v, (Func, Bound)):
        return ('function', repr(v))
    if isinstance(v, Opaque):
        return ('text', repr(v)) if readers.is_text(v) else \
            ('opaque', repr(v)[:300])
    return v


def matches(a, b):
    """True, False or a reason."""
    if isinstance(a, Unknown) or isinstance(b, Unknown):
        return str(a)[:100] + ' / ' + str(b)[:100]
    if isinstance(a, Raised) or isinstance(b, Raised):
        return isinstance(a, Raised) and isinstance(b, Raised) and \
            a.name == b.name
    if isinstance(a, (Poly, Arr)) and isinstance(b, (Poly, Arr)):
        st, d = same_value(a, b)
        return {'equal': True, 'differ': False}.get(st, d)
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
        if a[0] != b[0]:
            return False
        if a[0] == 'list':
            if len(a[1]) != len(b[1]):
                return False
            rs = [matches(x, y) for x, y in zip(a[1], b[1])]
        elif a[0] == 'dict':
            if set(map(str, a[1])) != set(map(str, b[1])):
                return False
            other = {str(k): x for k, x in b[1].items()}
            rs = [matches(x, other[str(k)]) for k, x in a[1].items()]
        elif a[0] in ('text', 'opaque'):
            return True if a[1] == b[1] else 'opaque values'
        else:
            return a == b
        if False in rs:
            return False
        return next((r for r in rs if r is not True), True)
    if isinstance(a, (str, bool)) or a is None or isinstance(b, (str, bool)) \
            or b is None:
        return a == b and type(a) is type(b)
    return True if a is b else 'not compared: %r / %r' % (a, b)


def observe(c, I, r):
    """{name: content} of the public attributes of an object."""
    if isinstance(r, (Raised, Unknown)):
        return {'': r}
    o = I.heap[r.id]
    names = set(k for k in o.fields if not k.startswith('_'))
    for k in o.cls.mro:
        for n, v in I.heap[k.ref.id].attrs.items():
            if n.startswith('_') or isinstance(v, Func):
                continue
            names.add(n)
    out = {}
    for n in sorted(names):
        v = attempt(c, I, lambda: I.get_attr(r, n))
        out[n] = v if isinstance(v, (Raised, Unknown)) else freeze(I, v)
    return out


def compare(c, rule, construct, w, got, want):
    und = None
    for n in sorted(set(got) | set(want)):
        if n not in got or n not in want:
            # attributes that exist only once something was read
            if n in ('data', 'keys'):
                continue
            c.bad(rule, '%s: %s' % (construct, n), w, 'present only %s' % (
                'afterwards' if n in got else 'alone'))
            return
        m = matches(got[n], want[n])
        if m is False:
            c.bad(rule, '%s: %s' % (construct, n), w, 'is %s, on its own %s'
                  % (show(got[n]), show(want[n])))
            return
        if m is not True:
            und = '%s: %s' % (n, m)
    if und:
        c.undecided(rule, construct, w, und)
    else:
        c.ok(rule, construct, w)


def show(v):
    return describe(v) if isinstance(v, (Poly, Arr)) else repr(v)[:200]


# --------------------------------------------------------- texts to be read
def soec_texts(N):
    rho = al.sym('rho', sign=1)
    return {'full': ['my crystal'] + readers.soec_rows(N, 'full') + [
        N.text(rho)], 'bare': readers.soec_rows(N, 'upper'),
        'broken': ['my crystal', '1 2 3'], 'lower': readers.soec_rows(
            N, 'lower') + [N.text(rho)]}


def eos_texts(N):
    E = readers.EOSCOLS
    return {'all': readers.eos_file(N, E, E, 3), 'short': readers.eos_file(
        N, ['p', 'v'], ['P', 'V'], 2, None),
        'axes': readers.eos_file(N, ['c', 'p', 'sigmap'],
                                 ['c', 'P', 'sigP'], 4, 'x'),
        'broken': ['JOB', 'x', 'FORMAT', 'P V', 'DATA', '1.0 2.0', '1.5']}


def qha_texts(N):
    return {'large': readers.qha_text(N, 3, 1, 2),
            'small': readers.qha_text(N, 1, 1, 1, job=None),
            'broken': readers.qha_text(N, 1, 1, 2, drop=('energy',)),
            'empty': ['']}


def cryst_texts(N):
    return {'dispersion': codes.phonon_file(N, 'points', 2, 3, (3, 2, 1)),
            'hessian': codes.phonon_file(N, 'hessian', 1, 2, (1, 2)),
            'gamma': codes.phonon_file(N, 'gamma', 1, 1, (3,)),
            'another': ['a text', '1 2']}


def cqha_texts(N):
    return {'five': codes.qha_text_out(N, 1, 5, None, [2, 0, 1, 4, 3])[0],
            'four': codes.qha_text_out(N, 1, 4)[0],
            'another': ['a text', '1 2']}


READERS = [
    (readers.SOEC, 'SOECInputFileReader', soec_texts),
    (readers.EOSR, 'EoSInputFileReader', eos_texts),
    (readers.QHAR, 'QHAInputFileReader', qha_texts),
    (codes.CRY, 'CrystalPhononReader', cryst_texts),
    (codes.CRY, 'CrystalQHAReader', cqha_texts)]


def P_state(c):
    c.rule('reader-history', 'what a reader collects from a file is the same '
           'whether or not other files were read before it in the process')
    c.rule('reader-keeps', 'an object still reports what it read after '
           'other files were read')
    for mod, cls, texts in READERS:
        w = c.where_func(mod, cls + '.load')
        pair(c, mod, cls, texts, w)


def prepare(c, cls):
    I, D, N = fresh(c)
    if cls == 'CrystalQHAReader':
        codes.near(I, 5, (lambda p: p, Renamed(None, '_B').other))
    return I, D, N


def pair(c, mod, cls, texts, w):
    names = sorted(texts(files.Numbers()))
    for b in names:
        I, D, N = prepare(c, cls)
        D.add('b', texts(Renamed(N, '_B'))[b])
        want = observe(c, I, make(c, I, mod, cls, 'b'))
        for a in names:
            I, D, N = prepare(c, cls)
            D.add('a', texts(N)[a])
            D.add('b', texts(Renamed(N, '_B'))[b])
            ra = make(c, I, mod, cls, 'a')
            first = observe(c, I, ra)
            rb = make(c, I, mod, cls, 'b')
            tag = '%s: %s after %s' % (cls, b, a)
            compare(c, 'reader-history', tag, w, observe(c, I, rb), want)
            compare(c, 'reader-keeps', tag, w, observe(c, I, ra), first)


# --------------------------------------------- calculators and exporters
def both(c, rule, keep, tag, w, env, act):
    """act(I, env, 'A'|'B') -> object; B after A is B alone."""
    def go(order):
        I, e = env()
        objs = []
        first = None
        for k in order:
            r = attempt(c, I, lambda: act(I, e, k))
            objs.append(r)
            if first is None:
                first = observe(c, I, r)
        return I, objs, first
    I, (b,), want = go('B')
    for order in ('AB', 'BB'):
        I, (x, y), first = go(order)
        t = '%s%s' % (tag, ', twice' if order == 'BB' else '')
        compare(c, rule, t, w, observe(c, I, y), want)
        compare(c, keep, t, w, observe(c, I, x), first)


def P_calculators(c):
    c.rule('calculator-history', 'results of a calculator, generator or '
           'exporter are the same whether or not others ran before it in the '
           'process')
    c.rule('calculator-keeps', 'results stay what they are after other '
           'calculations ran')
    ha_history(c)
    qha_history(c)
    soec_history(c)
    exporter_history(c)
    generator_history(c)


def reader_by_path(nq, nb, nv):
    R = Renamed(None, '_B').other

    def model(I, a, k, n):
        o = reader_object(I, nq, nb, nv)
        if a[0] == 'A':
            return o
        at = dict(o.info['attrs'])
        at.update(jobname='another', volume=I.alloc(Arr.symbol(
            'V_B', (nv,), sign=1)), energy=I.alloc(Arr.symbol('U0_B', (nv,))),
            frequencies=I.alloc(Arr.symbol('f_B', (nq, nb, nv))),
            weights=I.alloc(Arr.symbol('w_B', (nq,), sign=1)),
            total_q_points=al.sym('wtot_B', sign=1))
        return Opaque(('reader', 'B'), attrs=at)
    return model


def calculator_run(I, mod, cls, st, k):
    x = I.call(I.get(mod, cls), [st], {}, None)
    e = I.call(I.get_attr(x, 'read_input'), [k], {}, None)
    if e is None:
        I.call(I.get_attr(x, 'run'), [], {}, None)
    return x


def ha_history(c, use=None):
    nT, nq, nb, nv = [dim(x) for x in ('nT', 'nq', 'nb', 'nv')]

    def env():
        I = c.interp()
        capture(I)
        arange_hook(I, {'Tg': (al.sym('tmin'), al.sym('tmax'), al.sym(
            'tstep', sign=1), nT)}, {})
        I.models['quantas.IO.qha_reader.QHAInputFileReader'] = \
            reader_by_path(nq, nb, nv)
        return I, None

    def act(I, e, k):
        return calculator_run(I, ha.HA, 'HACalculator', settings(
            I, ha.CONFIGS[k == 'B']), k)
    (use or both)(c, 'calculator-history', 'calculator-keeps', 'harmonic calculator',
         c.where_func(ha.HA, 'HACalculator.run'), env, act)


def qha_history(c, use=None):
    cfg = ha.CONFIGS[0]

    def env():
        I, d = qha.setup(c, cfg)
        I.models['quantas.IO.qha_reader.QHAInputFileReader'] = \
            reader_by_path(d['nq'], d['nb'], d['nv'])
        return I, d

    def act(I, d, k):
        s = dict(d['settings'])
        if k == 'A':
            s.update(minimization='eos', qha_scheme='freq')
        return calculator_run(I, qha.QHA, 'QHACalculator', settings(
            I, cfg, **s), k)
    (use or both)(c, 'calculator-history', 'calculator-keeps',
         'quasi-harmonic calculator',
         c.where_func(qha.QHA, 'QHACalculator.run'), env, act)


def soec_history(c, use=None):
    def env():
        I, calc, M = soec.calculator(c, density=ZERO, eig=[1, 2, 3, 4, 5, 6],
                                     settings={'polar': True})
        capture(I)

        def reader(I, a, k, n):
            return Opaque(('reader', a[0]), attrs={
                'completed': True, 'error': None, 'jobname': a[0],
                'stiffness': I.alloc(soec.matrix(
                    'C' if a[0] == 'A' else 'D', False)),
                'density': al.sym('rho', sign=1) if a[0] == 'A' else ZERO,
                '_data': None})
        I.models['quantas.IO.soec_reader.SOECInputFileReader'] = reader
        return I, None

    def act(I, e, k):
        st = dict(soec.SETTINGS, polar=k == 'A')
        return calculator_run(I, soec.SC, 'SOECCalculator', I.new_dict(
            {q: (al.as_poly(v) if isinstance(v, int) and not isinstance(
                v, bool) else v) for q, v in st.items()}), k)
    (use or both)(c, 'calculator-history', 'calculator-keeps', 'elastic calculator',
         c.where_func(soec.SC, 'SOECCalculator.run'), env, act)


def exporter_history(c):
    for mod, cls, sets in (
            (exports.HAX, 'QuantasHarmonicExport', exports.ha_sets),
            (exports.QHX, 'QuantasQHAExport', exports.qha_sets),
            (exports.SOX, 'QuantasSOECExport', None)):
        def env():
            I, D, N = fresh(c)
            return I, None

        def act(I, e, k):
            if sets is None:
                S = exports.soec_sets(4 if k == 'A' else 3, k == 'A')
            else:
                S = sets(*((3, 2) if k == 'A' else (2, 4)))
            if k == 'B':
                R = Renamed(None, '_B').other
                S = {q: (v.map(R), u) for q, (v, u) in S.items()
                     if q not in ('F', 'polar_G_xy')}
            exports.Store(I, 'info ' + k, S)
            x = I.call(I.get(mod, cls), [], {}, None)
            I.call(I.get_attr(x, 'load'), ['res%s.hdf5' % k], {}, None)
            return x
        both(c, 'calculator-history', 'calculator-keeps', cls,
             c.where_func(mod, cls + '.load'), env, act)


def generator_history(c):
    nat, nv = 1, 4
    names = {'crystal': 'quantas.interfaces.crystal.CrystalPhononReader',
             'crystal-qha': 'quantas.interfaces.crystal.CrystalQHAReader',
             'phonopy': 'quantas.interfaces.phonopy.PhonopyReader'}
    w = c.where_func(readers.QHAW, 'QHAInputCreator.read')
    for iface in sorted(names):
        def make_text(order):
            I, D, N = fresh(c)
            for f in 'AB':
                D.add(f + '.txt', ['%s%d.out' % (f, k)
                                   for k in range(nv - (f == 'B') * 2)])
                D.add(f, ['x'])
                for k in range(nv):
                    D.add('%s%d.out' % (f, k), ['x'])

            def src(I, a, k, node):
                p = a[0]
                if iface == 'crystal-qha':
                    o = readers.source(I, 'all', 0, 3 if p == 'A' else 1,
                                       nat, nv)
                else:
                    o = readers.source(I, 'one', int(p[1]),
                                       3 if p[0] == 'A' else 1, nat, nv)
                return o
            I.models[names[iface]] = src
            for q in ('builtin.input', 'click.prompt'):
                I.models[q] = lambda I, a, k, n: 'job'
            out = {}

            def go(f):
                g = I.call(I.get(readers.QHAW, 'QHAInputCreator'), [iface],
                           {}, None)
                if iface == 'crystal-qha':
                    I.call(I.get_attr(g, 'read'), [f, False], {}, None)
                else:
                    I.call(I.get_attr(g, 'read'), [f + '.txt', True, ZERO],
                           {}, None)
                I.call(I.get_attr(g, 'write'), [f + '.yaml', ZERO], {}, None)
                return D.text(f + '.yaml')
            r = None
            for f in order:
                r = attempt(c, I, lambda: go(f))
                if isinstance(r, (Raised, Unknown)):
                    return r, N
            return r, N
        alone, N1 = make_text('B')
        after, N2 = make_text('AB')
        tag = 'input generator for %s' % iface
        if isinstance(alone, (Raised, Unknown)) or isinstance(after, Unknown):
            c.undecided('calculator-history', tag, w, '%s / %s' % (
                str(alone)[:100], str(after)[:100]))
        elif isinstance(after, Raised):
            c.bad('calculator-history', tag, w, repr(after))
        else:
            a, b = words(alone, N1), words(after, N2)
            i = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y),
                     None)
            c.need(len(a) == len(b) and i is None, 'calculator-history', tag,
                   w, 'the file differs from word %s: %s instead of %s' % (
                       i, b[i or 0:][:8], a[i or 0:][:8]))


def words(text, N):
    out = []
    for x in text.split():
        v = N.read(x.strip('[],'))
        out.append(al.show(v) if v is not None else x)
    return out


def P_all(c):
    P_state(c)
    P_calculators(c)


CHECKS = {'P17': P_all}
