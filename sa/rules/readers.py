"""Input files: what is read is what the file says (P16-P19)."""
import itertools

from .. import algebra as al
from .. import files
from .. import pit
from ..core import (val, same_value, describe, AbsRaise, Budget, Unknown, Arr,
                    Poly, Imprecise)
from ..values import *          # noqa

ZERO = al.as_poly(0)

SOEC = 'quantas.IO.soec_reader'
SOECW = 'quantas.IO.soec_writer'
EOSR = 'quantas.IO.eos_reader'
QHAR = 'quantas.IO.qha_reader'
QHAW = 'quantas.IO.qha_writer'


class Raised(object):
    """The interpreted code certainly stops with this exception."""

    def __init__(self, exc):
        k = exc.exc.key if isinstance(exc.exc, Opaque) else exc.exc
        self.name = k[1] if isinstance(k, tuple) and len(k) > 1 and \
            k[0] == 'exc' else repr(k)
        self.line = getattr(exc.node, 'lineno', None)

    def __repr__(self):
        return 'stops with %s (line %s)' % (self.name, self.line)


def attempt(c, I, f):
    """Value, Raised or Unknown."""
    try:
        r = f()
        if isinstance(r, Unknown):
            return r
    except AbsRaise as e:
        r = Raised(e)
    except (Imprecise, Budget, al.Undefined, RecursionError) as e:
        r = Unknown('%s: %s' % (type(e).__name__, e))
    c.collect(I)
    return r


def attr(c, I, obj, name):
    r = attempt(c, I, lambda: I.get_attr(obj, name))
    if isinstance(r, (Raised, Unknown)):
        return r
    if isinstance(r, (Ref, View, tuple)):
        return val(I, r)
    if isinstance(r, GIf):
        x = val(I, r)
        return r if isinstance(x, Unknown) else x
    return r


def undec(v):
    return isinstance(v, (Unknown, GIf)) or (
        isinstance(v, Opaque) and not v.info.get('attrs'))


def expect(c, rule, construct, w, got, want, **kw):
    """got (value, string, None, bool, array) is want."""
    if isinstance(got, Raised):
        return c.bad(rule, construct, w, repr(got))
    if undec(got):
        return c.undecided(rule, construct, w, 'not followed: %s'
                           % str(got)[:200])
    if want is None or isinstance(want, (str, bool)):
        ok = got is want if not isinstance(want, str) else got == want
        if isinstance(got, Poly) and isinstance(want, str) and \
                not got.is_const():
            return c.undecided(rule, construct, w, describe(got))
        return c.need(ok, rule, construct, w, 'is %s, expected %r'
                      % (describe(got) if isinstance(got, (Poly, Arr))
                         else repr(got)[:200], want))
    if got is None or isinstance(got, (str, bool)):
        return c.bad(rule, construct, w, 'is %r, expected %s'
                     % (got, describe(want)))
    if isinstance(got, tuple):
        return c.bad(rule, construct, w, 'is %r, expected %s'
                     % (str(got)[:200], describe(want)))
    return c.same(rule, construct, got, want, w, **kw)


def outcome(c, rule, construct, w, I, r, good):
    """completed/error of a reader after it was created."""
    if isinstance(r, Raised):
        return c.bad(rule, construct, w, repr(r))
    if isinstance(r, Unknown):
        return c.undecided(rule, construct, w, r.reason[:300])
    done = attr(c, I, r, 'completed')
    err = attr(c, I, r, 'error')
    if good and never(c, I, done):
        return c.bad(rule, construct, w, 'a correct file is refused: %s'
                     % str(err)[:100])
    if undec(done) or (undec(err) and not is_text(err)):
        return c.undecided(rule, construct, w, 'completed=%s error=%s'
                           % (str(done)[:100], str(err)[:100]))
    if good:
        return c.need(done is True and err is None, rule, construct, w,
                      'completed=%r error=%r' % (done, err))
    return c.need(done is False and is_text(err) and err != '', rule,
                  construct, w, 'refusal expected, completed=%r error=%r'
                  % (done, err))


def never(c, I, done):
    """The condition `done` fails for the values a file can hold."""
    if not isinstance(done, (GIf, Poly)):
        return False
    p = done
    if isinstance(p, GIf):
        try:
            p = I.num(p)
        except (Imprecise, al.Undefined):
            return False
    if not isinstance(p, Poly):
        return False
    n = 0
    for s in range(6):
        try:
            if pit.Assignment(s).poly(p, {}) != 0:
                return False
            n += 1
        except (pit.Bad, OverflowError, ValueError, RecursionError):
            continue
    return n >= 3 and not pit.functions_of(p)


def is_text(v):
    if isinstance(v, GIf):
        return is_text(v.a) and is_text(v.b)
    return isinstance(v, str) or (isinstance(v, Opaque) and (
        v.info.get('str') or (isinstance(v.key, tuple) and v.key and
                              v.key[0] in ('cat', 'fmt', 'str'))))


def fresh(c, prepare=None):
    I = c.interp()
    D = files.Disk(I)
    D.I.models['click.echo'] = lambda I, a, k, n: None
    if prepare:
        prepare(I)
    return I, D, D.n


def make(c, I, mod, cls, *args):
    return attempt(c, I, lambda: I.call(I.get(mod, cls), list(args), {},
                                        None))


# ------------------------------------------------------------------- SOEC
def cm(i, j):
    return al.sym('C%d%d' % (min(i, j) + 1, max(i, j) + 1))


SYMMETRIC = Arr.build((6, 6), lambda ix: cm(*[int(x.const_value())
                                              for x in ix]))
FORMS = {'full': lambda i: range(6), 'upper': lambda i: range(i, 6),
         'lower': lambda i: range(0, i + 1)}


def soec_rows(N, form, sep=' ', lead=''):
    return [lead + sep.join(N.text(cm(i, j)) for j in FORMS[form](i))
            for i in range(6)]


def soec_values(c, I, r, rule, tag, w, dens, job):
    expect(c, rule, tag + ' stiffness', w, attr(c, I, r, 'stiffness'),
           SYMMETRIC)
    expect(c, rule, tag + ' density', w, attr(c, I, r, 'density'), dens)
    expect(c, rule, tag + ' job name', w, attr(c, I, r, 'jobname'), job)


def P_soec(c):
    c.rule('soec-read', 'a 6x6, upper-triangular or lower-triangular matrix, '
           'with or without a job line and a density, is read as the '
           'symmetric matrix, the density (0 if absent) and the job name '
           '("Unknown" if absent)')
    c.rule('soec-refuse', 'a matrix of another shape, that is not symmetric, '
           'or whose components or density are not numbers is refused with '
           'an error text')
    c.rule('soec-roundtrip', 'the file written for a stiffness matrix and '
           'density of an ab initio code is read back as that matrix, '
           'density and job name')
    c.rule('soec-generator', 'the input generator turns down an output that '
           'its reader cannot use, with the reason given by the reader')
    w = c.where_func(SOEC, 'SOECInputFileReader.load')
    rho = al.sym('rho', sign=1)
    jobs = [None, 'my crystal', '3C-SiC at 300 K', '-1 charge state',
            '2500 bar']
    styles = [(' ', ''), ('   ', '  ')] + ([('\t', ' ')]
                                           if c.tier != 'quick' else [])
    for form in FORMS:
        for job in jobs:
            for dens in (None, rho):
                for sep, lead in styles:
                    I, D, N = fresh(c)
                    lines = ([job] if job else []) + soec_rows(
                        N, form, sep, lead) + (
                        [lead + N.text(rho)] if dens is not None else [])
                    D.add('in.dat', lines)
                    r = make(c, I, SOEC, 'SOECInputFileReader', 'in.dat')
                    tag = '%s, job %r, %s density%s' % (
                        form, job, 'no' if dens is None else 'with',
                        '' if not lead else ', indented')
                    if outcome(c, 'soec-read', tag, w, I, r, True):
                        soec_values(c, I, r, 'soec-read', tag, w,
                                    ZERO if dens is None else dens,
                                    job or 'Unknown')
    soec_refusals(c, w)
    soec_roundtrip(c)
    soec_turned_down(c)


def soec_refusals(c, w):
    full = [[100., 40., 30., 0., 0., 0.], [40., 110., 35., 0., 0., 0.],
            [30., 35., 120., 0., 0., 0.], [0., 0., 0., 50., 0., 0.],
            [0., 0., 0., 0., 55., 0.], [0., 0., 0., 0., 0., 60.]]

    def txt(rows):
        return [' '.join('%.2f' % x for x in r) for r in rows]
    cases = {}
    for i, j in ((0, 1), (1, 0), (2, 4), (5, 3), (4, 5)):
        m = [list(r) for r in full]
        m[i][j] += 7.
        cases['not symmetric at %d %d' % (i + 1, j + 1)] = txt(m)
    for i, j in ((0, 1), (3, 3), (5, 0), (5, 5)):
        m = [r.split() for r in txt(full)]
        m[i][j] = 'abc'
        cases['component %d %d is a word' % (i + 1, j + 1)] = \
            [' '.join(r) for r in m]
    for i in (0, 2, 5):
        m = [r.split() for r in txt(full)]
        del m[i][-1]
        cases['row %d one value short' % (i + 1)] = [' '.join(r) for r in m]
        m = [r.split() for r in txt(full)]
        m[i].append('1.0')
        cases['row %d one value too many' % (i + 1)] = [' '.join(r)
                                                        for r in m]
    cases['density is a word'] = txt(full) + ['heavy']
    cases['five rows and a density'] = txt(full)[:5] + ['2500.0']
    cases['three rows'] = txt(full)[:3]
    cases['blank lines'] = [''] * 8
    cases['blank line among the rows'] = txt(full)[:3] + [''] + txt(full)[3:]
    for tag, rows in sorted(cases.items()):
        for job in ([], ['my crystal']):
            I, D, N = fresh(c)
            D.add('in.dat', job + rows)
            r = make(c, I, SOEC, 'SOECInputFileReader', 'in.dat')
            outcome(c, 'soec-refuse', tag + (', job line' if job else ''), w,
                    I, r, False)


def soec_roundtrip(c):
    w = c.where_func(SOECW, 'SOECInputCreator.write')
    rho = al.sym('rho', sign=1)
    for iface in ('crystal', 'vasp'):
        for job in ('Unknown', 'my crystal', '3C-SiC', '', '4 H-SiC'):
            I, D, N = fresh(c)
            n = {'crystal': 'quantas.interfaces.crystal.CrystalSOECReader',
                 'vasp': 'quantas.interfaces.vasp.VASPSOECReader'}[iface]
            I.models[n] = lambda I, a, k, node: Opaque(
                ('source', iface, a[0]), attrs={
                    'completed': True, 'error': None, 'density': rho,
                    'stiffness': I.alloc(SYMMETRIC)})
            tag = '%s, job %r' % (iface, job)

            def go():
                g = I.call(I.get(SOECW, 'SOECInputCreator'), [iface], {},
                           None)
                res = I.call(I.get_attr(g, 'read'), ['out'], {}, None)
                I.call(I.get_attr(g, 'write'), ['new.dat', job], {}, None)
                D.reread('new.dat')
                return I.call(I.get(SOEC, 'SOECInputFileReader'),
                              ['new.dat'], {}, None)
            r = attempt(c, I, go)
            if outcome(c, 'soec-roundtrip', tag, w, I, r, True):
                soec_values(c, I, r, 'soec-roundtrip', tag, w, rho, job)


def turned_down(c, rule, tag, w, r, why):
    """What read() of a generator tells of an output it cannot use."""
    if isinstance(r, Raised):
        return c.bad(rule, tag, w, repr(r))
    if isinstance(r, Unknown):
        return c.undecided(rule, tag, w, r.reason[:200])
    yes = r[0] if isinstance(r, (tuple, list)) and len(r) == 2 else r
    if isinstance(yes, Poly) and yes.const_value() is not None:
        yes = bool(yes.const_value())
    if not isinstance(yes, (bool, type(None))) or yes is r:
        return c.undecided(rule, tag, w, 'read gives %r' % (r,))
    c.need(not yes, rule, tag, w, 'the output is accepted')
    if isinstance(r[1], str):
        c.need(why in r[1], rule, tag + ': reason', w, 'the reason given is '
               '%r' % r[1])
    elif r[1] is None:
        c.bad(rule, tag + ': reason', w, 'no reason is given')
    else:
        c.undecided(rule, tag + ': reason', w, repr(r[1]))


def soec_turned_down(c):
    w = c.where_func(SOECW, 'SOECInputCreator.read')
    for iface, n in (('crystal', 'quantas.interfaces.crystal.'
                      'CrystalSOECReader'),
                     ('vasp', 'quantas.interfaces.vasp.VASPSOECReader')):
        I, D, N = fresh(c)
        D.add('out', ['x'])
        I.models[n] = lambda I, a, k, node: Opaque(
            ('source', iface, a[0]), attrs={'completed': False,
                                            'error': 'bad tensor'})
        r = attempt(c, I, lambda: val(I, I.call(I.get_attr(I.call(
            I.get(SOECW, 'SOECInputCreator'), [iface], {}, None), 'read'),
            ['out'], {}, None)))
        turned_down(c, 'soec-generator', '%s output that cannot be used' %
                    iface, w, r, 'bad tensor')


def qha_turned_down(c):
    w = c.where_func(QHAW, 'QHAInputCreator.read')
    names = {'crystal': 'quantas.interfaces.crystal.CrystalPhononReader',
             'crystal-qha': 'quantas.interfaces.crystal.CrystalQHAReader',
             'phonopy': 'quantas.interfaces.phonopy.PhonopyReader'}
    for iface in names:
        plans = [('one.out', False, 'one.out', 'no modes')]
        if iface == 'crystal-qha':
            plans.append(('list.txt', True, None, ''))
        else:
            for k in range(4):
                plans.append(('list.txt', True, 'o%d.out' % k, 'no modes'))
            for k in range(4):
                plans.append(('list.txt', True, '-o%d.out' % k, 'o%d.out' % k))
        for path, many, bad, why in plans:
            I, D, N = fresh(c)
            D.add('list.txt', ['o%d.out' % k for k in range(4)])
            for f in ['one.out'] + ['o%d.out' % k for k in range(4)]:
                if bad != '-' + f:
                    D.add(f, ['x'])

            def src(I, a, k, node):
                if a[0] == bad:
                    return Opaque(('source', a[0]), attrs={
                        'completed': False, 'error': 'no modes'})
                if a[0] == (bad or '')[1:]:
                    raise AbsRaise(Opaque(('exc', 'FileNotFoundError')), node)
                return source(I, 'one', 0, 1, 1, 4)
            I.models[names[iface]] = src
            r = attempt(c, I, lambda: val(I, I.call(I.get_attr(I.call(
                I.get(QHAW, 'QHAInputCreator'), [iface], {}, None), 'read'),
                [path, many], {}, None)))
            turned_down(c, 'qha-generator', '%s, %s, %s' % (
                iface, path, 'missing ' + bad[1:] if bad and bad[0] == '-'
                else 'unusable ' + bad if bad else 'refused'), w, r, why)


# -------------------------------------------------------------------- EoS
EOSCOLS = ['p', 'sigmap', 'v', 'sigmav', 'a', 'sigmaa', 'b', 'sigmab', 'c',
           'sigmac']
EOSNAME = {'p': 'pressure', 'sigmap': 'sigma_p', 'v': 'volume',
           'sigmav': 'sigma_v', 'a': 'a', 'sigmaa': 'sigma_a', 'b': 'b',
           'sigmab': 'sigma_b', 'c': 'c', 'sigmac': 'sigma_c'}
SHORT = {'sigmap': 'sigP', 'sigmav': 'SigV', 'sigmaa': 'sigA',
         'sigmab': 'SIGB', 'sigmac': 'sigc'}


def eos_file(N, cols, names, n=3, job='Topaz', decorate=False, sep='\t',
             case=str):
    rows = []
    for k in range(n):
        rows.append(sep.join(N.text(al.sym('%s_%d' % (q, k)))
                             for q in cols))
    t = []
    if job is not None:
        t += [case('JOB')] + (['', '# a comment'] if decorate else []) + [job]
    if decorate:
        t += ['', '   ', '# next']
    t += [case('FORMAT')] + (['# columns'] if decorate else []) + [
        sep.join(names)]
    t += [case('DATA')]
    for k, r in enumerate(rows):
        if decorate:
            t += ['# row', '', '   # row', '\t  ']
        t.append(r)
    return t


def eos_values(c, I, r, cols, n, tag, w, job):
    for q in EOSCOLS:
        want = None if q not in cols else Arr.build(
            (n,), lambda ix, q=q: al.sym('%s_%d' % (
                q, int(ix[0].const_value()))))
        expect(c, 'eos-read', '%s: %s' % (tag, EOSNAME[q]), w,
               attr(c, I, r, EOSNAME[q]), want)
    expect(c, 'eos-read', tag + ': job name', w, attr(c, I, r, 'jobname'),
           job)


def P_eos(c):
    c.rule('eos-read', 'every column named in FORMAT, in any order and '
           'spelling, becomes the quantity of that name, one value per data '
           'row; columns that are not named are absent; comments and blank '
           'lines are skipped; the job name is the line after JOB')
    c.rule('eos-refuse', 'input without pressure column, without FORMAT, '
           'without data, or with a missing or non-numeric value is refused '
           'with an error text')
    w = c.where_func(EOSR, 'EoSInputFileReader.load')
    sets = [EOSCOLS, ['p', 'v'], ['v', 'p'], ['p', 'sigmap', 'v', 'sigmav'],
            ['sigmav', 'v', 'sigmap', 'p'], ['c', 'a', 'p', 'b'],
            ['a', 'sigmaa', 'p'], list(reversed(EOSCOLS))]
    up = {'p': 'P', 'v': 'V', 'sigmap': 'sigmaP', 'sigmav': 'sigmaV',
          'sigmaa': 'sigmaA', 'sigmab': 'sigmaB', 'sigmac': 'sigmaC'}
    for cols in sets:
        for style in ('long', 'short', 'lower'):
            if style == 'short' and not any(q in SHORT for q in cols):
                continue
            names = [{'long': up.get(q, q), 'short': SHORT.get(q, q),
                      'lower': q}[style] for q in cols]
            for deco in (False, True):
                I, D, N = fresh(c)
                D.add('in.dat', eos_file(N, cols, names, 3, 'Topaz (2014)',
                                         deco, '\t' if deco else '  '))
                r = make(c, I, EOSR, 'EoSInputFileReader', 'in.dat')
                tag = ' '.join(names) + (', with comments' if deco else '')
                if outcome(c, 'eos-read', tag, w, I, r, True):
                    eos_values(c, I, r, cols, 3, tag, w, 'Topaz (2014)')
    for job, case in ((None, str), ('Unknown', str), ('Data of 2014', str),
                      ('format test', str), ('job 7', str),
                      ('Quartz #2, 300 K', str), ('Topaz', str.lower),
                      ('Topaz', str.capitalize)):
        I, D, N = fresh(c)
        D.add('in.dat', eos_file(N, ['p', 'v'], ['P', 'V'], 2, job,
                                 case=case))
        r = make(c, I, EOSR, 'EoSInputFileReader', 'in.dat')
        tag = 'job %r%s' % (job, '' if case is str else ', ' + case('JOB'))
        if outcome(c, 'eos-read', tag, w, I, r, True):
            eos_values(c, I, r, ['p', 'v'], 2, tag, w, job or 'Unknown')
    bad = {
        'no pressure column': ['JOB', 'x', 'FORMAT', 'V a', 'DATA',
                               '1.0 2.0'],
        'no FORMAT': ['JOB', 'x', 'DATA', '1.0 2.0'],
        'no DATA': ['JOB', 'x', 'FORMAT', 'P V'],
        'FORMAT at the end': ['JOB', 'x', 'FORMAT'],
        'JOB at the end': ['JOB'],
        'empty': [''],
        'missing value': ['JOB', 'x', 'FORMAT', 'P V', 'DATA', '1.0 2.0',
                          '1.5'],
        'word instead of a value': ['JOB', 'x', 'FORMAT', 'P V', 'DATA',
                                    '1.0 2.0', '1.5 abc']}
    for tag in sorted(bad):
        I, D, N = fresh(c)
        D.add('in.dat', bad[tag])
        r = make(c, I, EOSR, 'EoSInputFileReader', 'in.dat')
        outcome(c, 'eos-refuse', tag, w, I, r, False)


# -------------------------------------------------------------------- QHA
def qsym(nm, *ix):
    return al.sym('%s_%s' % (nm, '_'.join(str(i) for i in ix)))


def qha_text(N, nq, nat, nv, style='list', job='job: MgO', drop=(),
             dim=((-2, 2, 2), (2, -2, 2), (2, 2, -2)), count=None,
             without=None, word=None, weight=None):
    # count: amount of some data -> the one that is given instead
    count = count or {}

    def seq(xs):
        xs = list(xs)
        if style == 'scalar' and len(xs) == 1:
            return xs[0]
        if style == 'string':
            return '["%s"]' % '  '.join(xs)
        return '[ %s ]' % ', '.join(xs)
    t = []
    if job is not None:
        t.append(job)
    if 'natom' not in drop:
        t.append('natom:   %d' % nat)
    if 'supercell' not in drop:
        t.append('supercell:')
        t += ['- [ %s ]' % ', '.join('%6d' % x for x in r) for r in dim]
    if 'qpoints' not in drop:
        t.append('qpoints: %d' % nq)
    if 'volume' not in drop:
        t.append('volume: ' + seq(N.text(qsym('V', k), '.8f')
                                  for k in range(nv)))
    if 'energy' not in drop:
        t.append('energy: ' + seq(
            'none' if word == ('energy', k) else N.text(qsym('U', k), '.12E')
            for k in range(count.get('energy', nv))))
    if 'phonon' not in drop:
        t.append('phonon:')
        for q in range(count.get('q', nq)):
            t.append('- q-position: [ 0.0, 0.5, 0.0 ]')
            if without != ('weight', q):
                t.append('  weight: %s' % ('none' if word == (
                    'weight', q) else
                    N.text(al.sym('w_%d' % q, int=True), 'd', True)
                    if weight is None else
                    N.text(al.sym('%s_%d' % (weight, q)), '.6f')))
            if without == ('band', q):
                continue
            t.append('  band:')
            for b in range(count.get(('bands', q), 3 * nat)):
                t += ['  - # %d' % (b + 1), '    frequency: ' + seq(
                    'none' if word == ('frequency', q, b, k) else
                    N.text(qsym('f', q, b, k), '.10f')
                    for k in range(count.get(('f', q, b), nv)))]
    return t


def qha_values(c, I, r, nq, nat, nv, rule, tag, w, job='MgO', sc=32,
               weight=None):
    def weigh(q):
        return al.sym('w_%d' % q, int=True) if weight is None else \
            al.sym('%s_%d' % (weight, q))

    def v1(nm):
        return Arr.build((nv,), lambda ix: qsym(nm, int(ix[0].const_value())))

    def flat(got, want):
        # one volume may be given as a number
        if nv == 1 and isinstance(got, Poly):
            return want.at([ZERO])
        return want
    got = attr(c, I, r, 'volume')
    expect(c, rule, tag + ': volume', w, got, flat(got, v1('V')))
    got = attr(c, I, r, 'energy')
    expect(c, rule, tag + ': energy', w, got, flat(got, v1('U')))
    expect(c, rule, tag + ': frequencies', w, attr(c, I, r, 'frequencies'),
           Arr.build((nq, 3 * nat, nv), lambda ix: qsym('f', *[
               int(x.const_value()) for x in ix])))
    expect(c, rule, tag + ': weights', w, attr(c, I, r, 'weights'),
           Arr.build((nq,), lambda ix: weigh(int(ix[0].const_value()))))
    tot = ZERO
    for q in range(nq):
        tot = tot + weigh(q)
    expect(c, rule, tag + ': total q points', w,
           attr(c, I, r, 'total_q_points'), tot)
    for nm, x in (('nvol', nv), ('natoms', nat), ('qpoints', nq),
                  ('kpoints', sc)):
        expect(c, rule, '%s: %s' % (tag, nm), w, attr(c, I, r, nm),
               al.as_poly(x))
    expect(c, rule, tag + ': job name', w, attr(c, I, r, 'jobname'), job)


def rounded(c, rule, tag, w, I, r, dim):
    """A count taken from a determinant that floating point gives a little
    too large or too small."""
    m = [[int(x) for x in row] for row in dim]
    d = (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
         - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
         + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
    plain = attr(c, I, r, 'kpoints')
    if not isinstance(plain, Poly):
        return c.undecided(rule, tag, w, repr(plain))
    for e in (-1, 1):
        I.models['numpy.linalg.det'] = lambda I, a, k, n: al.as_poly(
            d + Fraction(e, 10 ** 9))
        expect(c, rule, '%s: cells, determinant a little too %s' % (
            tag, 'small' if e * d < 0 else 'large'), w,
            attr(c, I, r, 'kpoints'), plain)
        del I.models['numpy.linalg.det']


def P_qhar(c):
    c.rule('qha-read', 'volumes, energies, q-point weights and the frequency '
           'of every (q-point, mode, volume) are those of the file, whether '
           'given as a list, as a string of numbers, or (one volume) as a '
           'number')
    c.rule('qha-refuse', 'empty, binary, malformed or incomplete input is '
           'refused with an error text')
    c.rule('qha-sizes', 'input is refused when the energies, q-points, bands '
           'or frequencies it holds are not as many as its volumes, qpoints '
           'and natom say, or when a value is missing or is not a number')
    c.rule('qha-roundtrip', 'generated input is read back as the volumes, '
           'energies, weights, frequencies and description it was made from, '
           'volume by volume')
    c.rule('qha-generator', 'the input generator turns down a list with an '
           'output that is missing or that its reader cannot use, wherever '
           'it stands in the list, and says which or why')
    w = c.where_func(QHAR, 'QHAInputFileReader.load')
    shapes = [(1, 1, 1, 'list'), (1, 1, 1, 'scalar'), (2, 1, 4, 'list'),
              (3, 2, 5, 'list'), (2, 1, 4, 'string')]
    for nq, nat, nv, style in shapes:
        I, D, N = fresh(c)
        D.add('in.yaml', qha_text(N, nq, nat, nv, style))
        r = make(c, I, QHAR, 'QHAInputFileReader', 'in.yaml')
        tag = '%d q-points, %d atoms, %d volumes as %s' % (nq, nat, nv,
                                                           style)
        if outcome(c, 'qha-read', tag, w, I, r, True):
            qha_values(c, I, r, nq, nat, nv, 'qha-read', tag, w)
    # weights normalised to one are not whole numbers
    I, D, N = fresh(c)
    D.add('in.yaml', qha_text(N, 3, 1, 2, weight='wn'))
    r = make(c, I, QHAR, 'QHAInputFileReader', 'in.yaml')
    if outcome(c, 'qha-read', 'fractional weights', w, I, r, True):
        qha_values(c, I, r, 3, 1, 2, 'qha-read', 'fractional weights', w,
                   weight='wn')
    for dim, n in ((((1, 0, 0), (0, 1, 0), (0, 0, 1)), 1),
                   (((2, 0, 0), (0, 2, 0), (0, 0, 3)), 12),
                   (((0, 2, 0), (1, 0, 0), (0, 0, 3)), 6),
                   (((0, 1, 1), (1, 0, 1), (1, 1, 0)), 2)):
        I, D, N = fresh(c)
        D.add('in.yaml', qha_text(N, 1, 1, 2, dim=dim))
        r = make(c, I, QHAR, 'QHAInputFileReader', 'in.yaml')
        expect(c, 'qha-read', 'k-points of supercell %r' % (dim,), w,
               attr(c, I, r, 'kpoints') if not isinstance(
                   r, (Raised, Unknown)) else r, al.as_poly(n))
        if not isinstance(r, (Raised, Unknown)):
            rounded(c, 'qha-read', 'supercell %r' % (dim,), w, I, r, dim)
    for job, want in ((None, 'Unknown'), ('job:', 'Unknown'),
                      ('job: 42', '42'), ('job: MgO test  ', 'MgO test')):
        I, D, N = fresh(c)
        D.add('in.yaml', qha_text(N, 1, 1, 2, job=job))
        r = make(c, I, QHAR, 'QHAInputFileReader', 'in.yaml')
        expect(c, 'qha-read', 'job line %r' % (job,), w,
               attr(c, I, r, 'jobname') if not isinstance(
                   r, (Raised, Unknown)) else r, want)
    for key in ('natom', 'supercell', 'qpoints', 'volume', 'energy',
                'phonon'):
        I, D, N = fresh(c)
        D.add('in.yaml', qha_text(N, 1, 1, 4, drop=(key,)))
        outcome(c, 'qha-refuse', 'without ' + key, w, I, make(
            c, I, QHAR, 'QHAInputFileReader', 'in.yaml'), False)
    for tag, t in (('empty', ['']), ('only comments', ['# nothing']),
                   ('a sentence', ['just some text']),
                   ('a number', ['12']), ('a list', ['- 1', '- 2'])):
        I, D, N = fresh(c)
        D.add('in.yaml', t)
        outcome(c, 'qha-refuse', tag, w, I, make(
            c, I, QHAR, 'QHAInputFileReader', 'in.yaml'), False)
    nq, nat, nv = 3, 1, 4
    odd = []
    for style in ('list', 'string'):
        for n in (1, 3, 5):
            odd.append(('%d energies' % n, style, dict(count={'energy': n})))
            for q, b in ((0, 0), (1, 2), (2, 1)):
                odd.append(('%d frequencies of mode %d at q-point %d' % (
                    n, b, q), style, dict(count={('f', q, b): n})))
    for n in (1, 2, 4):
        odd.append(('%d q-points' % n, 'list', dict(count={'q': n})))
    for q in range(nq):
        for n in (1, 2, 4, 6):
            odd.append(('%d bands at q-point %d' % (n, q), 'list',
                        dict(count={('bands', q): n})))
        odd.append(('no weight of q-point %d' % q, 'list',
                    dict(without=('weight', q))))
        odd.append(('no bands of q-point %d' % q, 'list',
                    dict(without=('band', q))))
        odd.append(('a word as weight of q-point %d' % q, 'list',
                    dict(word=('weight', q))))
        for k in (0, 3):
            odd.append(('a word as frequency of q-point %d, volume %d' % (
                q, k), 'list', dict(word=('frequency', q, 1, k))))
    for k in (0, 3):
        odd.append(('a word as energy %d' % k, 'list',
                    dict(word=('energy', k))))
    for dim in (((1, 0), (0, 1)), ((1, 0, 0), (0, 1, 0)),
                ((1, 0), (0, 1), (0, 0)), ((2,), (2,), (2,)),
                ((1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, 1)),
                ((1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0))):
        odd.append(('supercell of %d x %d' % (len(dim), len(dim[0])), 'list',
                    dict(dim=dim)))
    for tag, style, how in odd:
        I, D, N = fresh(c)
        D.add('in.yaml', qha_text(N, nq, nat, nv, style, **how))
        outcome(c, 'qha-sizes', '%s (%s)' % (tag, style), w, I, make(
            c, I, QHAR, 'QHAInputFileReader', 'in.yaml'), False)
    for exc in ('YAMLError', 'MarkedYAMLError', 'UnicodeDecodeError'):
        I, D, N = fresh(c)
        D.add('in.yaml', ['x'])

        def load(I, a, k, node, exc=exc):
            info = {}
            if exc == 'MarkedYAMLError':
                info = {'attrs': {'problem_mark': Opaque(('mark',), str=True),
                                  'problem': Opaque(('prob',), str=True)}}
            raise AbsRaise(Opaque(('exc', exc.replace('Marked', '')), **info),
                           node)
        I.models['yaml.safe_load'] = load
        outcome(c, 'qha-refuse', exc, w, I, make(
            c, I, QHAR, 'QHAInputFileReader', 'in.yaml'), False)
    qha_roundtrip(c)
    qha_turned_down(c)


def source(I, mode, v, nq, nat, nv, ref=0):
    """A phonon data source (one volume, or all of them).  The weights of a
    volume that is not the reference are other ones."""
    wt = 'w' if mode == 'all' or v == ref else 'other%d' % v
    nb = 3 * nat
    a = {'completed': True, 'error': None, 'natom': al.as_poly(nat),
         'qpoints': al.as_poly(nq), 'nphonon': al.as_poly(nb),
         'dim': I.alloc(Arr.build((3, 3), lambda ix: al.as_poly(
             2 if ix[0].const_value() == ix[1].const_value() else 0))),
         'shrinkf': I.alloc(Arr.build((3,), lambda ix: al.as_poly(4))),
         'qcoords': I.new_dict({al.as_poly(q): I.alloc(Arr.build(
             (3,), lambda ix: al.as_poly(1))) for q in range(nq)}),
         'weights': I.new_dict({al.as_poly(q): al.sym('%s_%d' % (wt, q),
                                                     int=True)
                                for q in range(nq)})}
    if mode == 'all':
        a['points'] = al.as_poly(nv)
        a['volume'] = I.alloc(Arr.build((nv,), lambda ix: qsym(
            'V', int(ix[0].const_value()))))
        a['energy'] = I.alloc(Arr.build((nv,), lambda ix: qsym(
            'U', int(ix[0].const_value()))))
        a['phonons'] = I.new_dict({al.as_poly(q): I.alloc(Arr.build(
            (nb, nv), lambda ix, q=q: qsym('f', q, *[
                int(x.const_value()) for x in ix]))) for q in range(nq)})
    else:
        a['volume'], a['energy'] = qsym('V', v), qsym('U', v)
        a['phonons'] = I.new_dict({al.as_poly(q): I.alloc(Arr.build(
            (nb,), lambda ix, q=q: qsym('f', q, int(ix[0].const_value()),
                                        v))) for q in range(nq)})
    return Opaque(('source', mode, v), attrs=a)


def qha_roundtrip(c):
    w = c.where_func(QHAW, 'QHAInputCreator.write')
    nq, nat, nv = 2, 1, 4
    names = {'crystal': 'quantas.interfaces.crystal.CrystalPhononReader',
             'crystal-qha': 'quantas.interfaces.crystal.CrystalQHAReader',
             'phonopy': 'quantas.interfaces.phonopy.PhonopyReader'}
    jobs = ['MgO', 'MgO: 300 K', '42', '', 'it is "quoted" # not a comment']
    for iface in names:
        for job in jobs:
            for ref in (0, 2):
                if ref and (job != 'MgO' or iface == 'crystal-qha'):
                    continue
                I, D, N = fresh(c)
                name = 'o%d.out'
                if job == '42':
                    # names with blanks, values with eight decimals
                    name, N.fine = 'o%d of run 1.d/ph 2.out', True
                D.add('list.txt', [name % k for k in range(nv)])
                for k in range(nv):
                    D.add(name % k, ['x'])
                D.add('one.out', ['x'])

                def src(I, a, k, node):
                    p = a[0]
                    if iface == 'crystal-qha':
                        return source(I, 'all', 0, nq, nat, nv)
                    return source(I, 'one', int(p[1]), nq, nat, nv, ref)
                I.models[names[iface]] = src
                I.models['builtin.input'] = lambda I, a, k, n: job
                I.models['click.prompt'] = lambda I, a, k, n: job

                def go():
                    g = I.call(I.get(QHAW, 'QHAInputCreator'), [iface], {},
                               None)
                    if iface == 'crystal-qha':
                        I.call(I.get_attr(g, 'read'), ['one.out', False], {},
                               None)
                    else:
                        I.call(I.get_attr(g, 'read'), ['list.txt', True,
                                                       al.as_poly(ref)], {},
                               None)
                    I.call(I.get_attr(g, 'write'), ['new.yaml',
                                                    al.as_poly(ref)], {},
                           None)
                    D.reread('new.yaml')
                    return I.call(I.get(QHAR, 'QHAInputFileReader'),
                                  ['new.yaml'], {}, None)
                r = attempt(c, I, go)
                tag = '%s, description %r%s' % (
                    iface, job, ', reference %d' % ref if ref else '')
                if outcome(c, 'qha-roundtrip', tag, w, I, r, True):
                    qha_values(c, I, r, nq, nat, nv, 'qha-roundtrip', tag, w,
                               job, 8)


CHECKS = {'P16': P_soec, 'P18': P_eos, 'P19': P_qhar}
