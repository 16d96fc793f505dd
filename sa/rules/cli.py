"""The command line: options reach the calculation (P03), runs end as they
should (P21)."""
import re

from .. import algebra as al
from ..clicks import Click, Usage
from ..core import (val, run, describe, AbsRaise, Budget, Unknown, Arr, Poly,
                    Imprecise)
from ..values import *          # noqa
from . import eos
from .readers import fresh, attempt, Raised
from .units import ENERGY, FREQ, LENGTH, PRESSURE, TEMP, UN
from ..project import AnalysisError

ENTRY = ('quantas.cmdline.commands.cmd_quantas', 'cli')

CALC = {
    'ha': ('quantas.harmonic.harmonic', 'HACalculator', '_HA', '.txt'),
    'qha': ('quantas.qha.qha', 'QHACalculator', '_QHA', '.txt'),
    'soec': ('quantas.soec.soec', 'SOECCalculator', '_SOEC', '.txt'),
    'eosfit': ('quantas.eosfit.eosfit', 'EoSFitCalculator', '', '.log'),
}
EXPORT = {
    'ha': ('quantas.harmonic.utils.export', 'QuantasHarmonicExport'),
    'qha': ('quantas.qha.utils.export', 'QuantasQHAExport'),
    'soec': ('quantas.soec.utils.export', 'QuantasSOECExport'),
}
INPGEN = {
    'ha': ('quantas.IO.qha_writer', 'QHAInputCreator'),
    'soec': ('quantas.IO.soec_writer', 'SOECInputCreator'),
}


def F(x):
    return al.as_poly(Fraction(x))


class Mock(object):
    """A calculator, exporter or generator that notes how it is used."""

    def __init__(self, K, mod, cls, **behaviour):
        self.K, self.D = K, K.D
        self.b = dict(error=None, completed=True, run_error=None, raises=None)
        self.b.update(behaviour)
        self.events = []
        self.settings = None
        self.count = 0
        K.I.models[mod + '.' + cls] = self.make

    def note(self, name, result=None, n=None):
        def fn(I, a, k, node):
            if I.cond() != al.as_poly(1):
                raise Imprecise('conditional ' + name)
            self.events.append((name, tuple(a), dict(k)))
            return result() if callable(result) else result
        return self.K.ext(fn)

    def export(self, I, a, k, node):
        if I.cond() != al.as_poly(1):
            raise Imprecise('conditional export')
        p = a[0] if a else k.get('filename')
        self.events.append(('export', (p,), {}))
        self.D.out[p] = ['results']

    def read(self):
        if self.b['raises']:
            raise AbsRaise(Opaque(('exc', self.b['raises'])), None)
        if self.b.get('pair'):
            return (self.b['error'] is None, self.b['error'])
        return self.b['error']

    def make(self, I, a, k, node):
        self.count += 1
        self.settings = a[0] if a else k.get('settings')
        self.given = (tuple(a), dict(k))
        e = self.b['run_error']
        return Opaque(('mock', self.count), attrs={
            'read_input': self.note('read', self.read),
            'read': self.note('read', self.read),
            'load': self.note('load'),
            'report_input_data': self.note('report input'),
            'report_results': self.note('report results'),
            'run': self.note('run'),
            'write': self.note('write'),
            'export_hdf5': self.K.ext(self.export),
            'completed': e is None and self.b['completed'],
            'error': e if e is not None else (
                self.b['error'] if self.b.get('load') else None),
            'phondata': I.new_list([Opaque(('phonons', i)) for i in
                                    range(3)])})


def start(c):
    I, D, N = fresh(c)
    K = Click(I, D)
    cli = I.get(*ENTRY)
    if not isinstance(cli, Opaque) or 'command' not in cli.info:
        raise AnalysisError('the command group is not found')
    return I, D, N, K, cli.info['command']


def invoke(c, argv, files, kind, name, answers=(), dirs=(), **b):
    """Interpret a command line; what happened."""
    I, D, N, K, cli = start(c)
    for f in files:
        D.add(f, ['old'])
    D.dirs |= set(dirs)
    for f in dirs:
        D.add(f, [''])
    K.answers = list(answers)
    M = Mock(K, *kind[name][:2], **b)

    def go():
        try:
            K.invoke(cli, argv)
        except Usage as e:
            return e
        return None
    r = attempt(c, I, go)
    return I, D, K, M, r


def texts(D, K, kind='out'):
    return [D.render(m) if not isinstance(m, str) else m
            for k, m in K.screen if k == kind]


# --------------------------------------------------------------------- options
def unit_value(I, fn, args):
    try:
        return val(I, I.call(I.get(UN, fn), args, {}, None))
    except AbsRaise:
        return 'refused'
    except (Imprecise, Budget, al.Undefined, RecursionError) as e:
        return Unknown(str(e))


X = al.sym('x')


def unit_obligations(c, I, tag, w, key, got, want):
    """The setting makes the converters use the unit chosen."""
    if not isinstance(got, str):
        return c.undecided('units', tag, w, '%s is %r' % (key, got))
    todo = []
    if key == 'energy_unit':
        e = ENERGY[want][0]
        todo = [('convert_energy', [X, got, 'Ha'], X * e / ENERGY['Ha'][0]),
                ('energy_to_pressure', [X, got, 'A', 'GPa'], X * e / al.power(
                    LENGTH['A'][0], 3) / PRESSURE['GPa'][0]),
                ('pressure_to_energy', [X, got, 'A', 'GPa'], X * al.power(
                    LENGTH['A'][0], 3) * PRESSURE['GPa'][0] / e)]
    elif key == 'frequency_unit':
        todo = [('convert_frequency', [X, got, 'Hz'], X * FREQ[want][0])]
    elif key == 'temperature_unit':
        t = TEMP[want]
        todo = [('convert_temperature', [X, got, 'K'], X * t[0] + t[1])]
    elif key == 'lenght_unit':
        f = LENGTH[want][0]
        todo = [('convert_lenght', [X, got, 'm'], X * f),
                ('convert_volume', [X, got, 'm'], X * al.power(f, 3)),
                ('energy_to_pressure', [X, 'Ha', got, 'GPa'],
                 X * ENERGY['Ha'][0] / al.power(f, 3) / PRESSURE['GPa'][0]),
                ('pressure_to_energy', [X, 'Ha', got, 'GPa'], X * al.power(
                    f, 3) * PRESSURE['GPa'][0] / ENERGY['Ha'][0])]
    elif key == 'pressure_unit':
        p = PRESSURE[want][0]
        todo = [('convert_pressure', [X, got, 'Pa'], X * p),
                ('energy_to_pressure', [X, 'Ha', 'A', got],
                 X * ENERGY['Ha'][0] / al.power(LENGTH['A'][0], 3) / p),
                ('pressure_to_energy', [X, 'Ha', 'A', got], X * p * al.power(
                    LENGTH['A'][0], 3) / ENERGY['Ha'][0])]
    for fn, args, v in todo:
        r = unit_value(I, fn, args)
        if r == 'refused':
            c.bad('units', '%s: %s' % (tag, fn), w, '%r is refused' % got)
        else:
            c.same('units', '%s: %s' % (tag, fn), r, v, w)


DEFAULT = {
    'ha': {'trange': (F('298.15'), F('298.15'), F(1)), 'energy_unit': 'Ha',
           'lenght_unit': 'A', 'frequency_unit': 'cm^-1',
           'temperature_unit': 'K', 'silent': False, 'logfile': 'in_HA.txt'},
    'qha': {'trange': (F('298.15'), F('298.15'), F(1)),
            'prange': (F(0), F(0), F(1)), 'energy_unit': 'Ha',
            'lenght_unit': 'A', 'frequency_unit': 'cm^-1',
            'temperature_unit': 'K', 'pressure_unit': 'GPa',
            'qha_scheme': 'td', 'minimization': 'poly', 'kieffer': False,
            'edeg': F(3), 'fdeg': F(3), 'eos_function': 'birchmurnaghan',
            'silent': False, 'debug': False, 'logfile': 'in_QHA.txt'},
    'soec': {'pressure_unit': 'GPa', 'silent': False, 'debug': False,
             'polar': False, 'plotting': False, 'dpi': F(80),
             'logfile': 'in_SOEC.txt', 'outfig': 'in_SOEC'},
    'eosfit': {'pressure_unit': 'GPa', 'lenght_unit': 'A',
               'logfile': 'in.log'},
}
EOS = {'M': ('murnaghan', r'^murnaghan'), 'BM': ('birchmurnaghan', r'birch'),
       'PT': ('pouriertarantola', r'p\w+r.?tarantola'), 'V': ('vinet',
                                                            r'vinet')}


def plans(N):
    """(command, tokens, settings that change)"""
    t = [al.sym('t%d' % i, sign=1) for i in range(3)]
    p = [al.sym('p%d' % i, sign=1) for i in range(3)]
    tt = [N.text(x, '.3f') for x in t]
    pp = [N.text(x, '.3f') for x in p]
    out = []
    for cmd in ('ha', 'qha'):
        out.append((cmd, [], {}))
        for f in ('-T', '--temperature'):
            out.append((cmd, [f] + tt, {'trange': tuple(t)}))
        out.append((cmd, ['-T', '10', '20.5', '0.1'], {
            'trange': (F(10), F('20.5'), F('0.1'))}))
        out.append((cmd, ['-T', '-100', '20', '5'], {
            'trange': (F(-100), F(20), F(5))}))
        for u in ('Ha', 'eV', 'Ry'):
            out.append((cmd, ['--eunit', u], {'energy_unit': u}))
        for u in ('A', 'bohr'):
            out.append((cmd, ['--vunit', u], {'lenght_unit': u}))
        for u, x in (('cm-1', 'cm^-1'), ('THz', 'THz'), ('Hz', 'Hz')):
            out.append((cmd, ['--funit', u], {'frequency_unit': x}))
        for u in ('K', 'C'):
            out.append((cmd, ['--tunit', u], {'temperature_unit': u}))
        out.append((cmd, ['-T'] + tt + ['--eunit', 'eV', '--vunit', 'bohr',
                                        '--funit', 'THz', '--tunit', 'C',
                                        '-q'], {
            'trange': tuple(t), 'energy_unit': 'eV', 'lenght_unit': 'bohr',
            'frequency_unit': 'THz', 'temperature_unit': 'C',
            'silent': True}))
    for f in ('-P', '--pressure'):
        out.append(('qha', [f] + pp, {'prange': tuple(p)}))
    out.append(('qha', ['-P', '-2', '20', '0.5'], {
        'prange': (F(-2), F(20), F('0.5'))}))
    out.append(('qha', ['-P'] + pp + ['-T'] + tt, {
        'prange': tuple(p), 'trange': tuple(t)}))
    for u in ('GPa', 'kbar'):
        out.append(('qha', ['--punit', u], {'pressure_unit': u}))
    for s in ('td', 'freq'):
        for f in ('-s', '--scheme'):
            out.append(('qha', [f, s], {'qha_scheme': s}))
        out.append(('qha', ['-s', s.upper()], {'qha_scheme': s}))
    for s in ('poly', 'eos'):
        for f in ('-m', '--minimization'):
            out.append(('qha', [f, s], {'minimization': s}))
    for k, (v, x) in EOS.items():
        out.append(('qha', ['--eos', k], {'eos_function': v}))
        out.append(('qha', ['-m', 'eos', '--eos', k], {
            'minimization': 'eos', 'eos_function': v}))
    for f in ('-a', '--acoustic'):
        out.append(('qha', [f], {'kieffer': True}))
    for d in (2, 3, 4, 5):
        out.append(('qha', ['--fdeg', str(d)], {'fdeg': F(d)}))
        out.append(('qha', ['--edeg', str(d)], {'edeg': F(d)}))
    out.append(('qha', ['--edeg', '4', '--fdeg', '2', '-s', 'freq', '-m',
                        'eos', '--eos', 'V', '-a', '--punit', 'kbar', '-P'] +
                pp, {'edeg': F(4), 'fdeg': F(2), 'qha_scheme': 'freq',
                     'minimization': 'eos', 'eos_function': 'vinet',
                     'kieffer': True, 'pressure_unit': 'kbar',
                     'prange': tuple(p)}))
    for f in ('-d', '--debug'):
        out.append(('qha', [f], {'debug': True}))
        out.append(('soec', [f], {'debug': True}))
    out.append(('soec', [], {}))
    out.append(('soec', ['--polar'], {'polar': True}))
    for f in ('-p', '--plot'):
        out.append(('soec', [f], {'plotting': True}))
    out.append(('soec', ['--dpi', '300', '-p'], {'dpi': F(300),
                                                 'plotting': True}))
    out.append(('soec', ['--punit', 'GPa'], {}))
    out.append(('soec', ['-o', 'res', '-p', '--polar'], {
        'outfig': 'res', 'logfile': 'res.txt', 'plotting': True,
        'polar': True}))
    out.append(('eosfit', [], {}))
    out.append(('eosfit', ['--punit', 'GPa', '--vunit', 'A'], {}))
    for cmd in CALC:
        if cmd != 'eosfit':
            for f in ('-q', '--quiet'):
                out.append((cmd, [f], {'silent': True}))
        for f in ('-o', '--outfile'):
            e = CALC[cmd][3]
            d = {'logfile': 'res' + e}
            if cmd == 'soec':
                d['outfig'] = 'res'
            out.append((cmd, [f, 'res'], d))
    return out


REFUSED = [
    ('ha', ['--eunit', 'xyz']), ('ha', ['--funit', 'm']),
    ('ha', ['--tunit', 'X']), ('ha', ['--vunit', 'pc']), ('ha', ['-T', '1',
                                                                 '2']),
    ('ha', ['-T', '1', '2', 'abc']), ('qha', ['--eos', 'XX']),
    ('qha', ['-s', 'other']), ('qha', ['-m', 'other']),
    ('qha', ['--fdeg', '1']), ('qha', ['--fdeg', '6']),
    ('qha', ['--edeg', '1']), ('qha', ['--edeg', '6']),
    ('qha', ['--edeg', '2.5']), ('qha', ['--punit', 'psi']),
    ('qha', ['-P', 'a', '2', '3']), ('soec', ['--dpi', 'x']),
    ('soec', ['--punit', 'psi']), ('eosfit', ['--vunit', 'pc']),
    ('ha', ['--nonsense']),
]


def P_options(c):
    c.rule('setting', 'each option, in each spelling and for each admissible '
           'value, gives the calculation the value chosen and leaves the '
           'other settings at their documented defaults')
    c.rule('units', 'the unit converters accept the unit handed over and take '
           'it for the unit chosen')
    c.rule('refused', 'values outside the documented choices are refused '
           'before anything runs')
    c.rule('printed', 'the settings printed at the start are those used')
    I, D, N, K, cli = start(c)
    forms = {}
    for cmd, argv, change in plans(N):
        w = where(c, cmd, K, cli)
        tag = ' '.join([cmd] + [N.read(t) is not None and describe(
            al.as_poly(N.read(t))) or t for t in argv])
        I, D, K2, M, r = invoke_n(c, N, [cmd, 'in.dat'] + argv, CALC, cmd)
        if isinstance(r, Usage):
            c.bad('setting', tag, w, 'refused: %s' % r)
            continue
        if isinstance(r, Raised):
            c.bad('setting', tag, w, repr(r))
            continue
        if isinstance(r, Unknown) or M.settings is None:
            c.undecided('setting', tag, w, repr(r)[:200])
            continue
        want = dict(DEFAULT[cmd])
        want.update(change)
        got = I.content(M.settings)
        got = got.items if isinstance(got, DictC) else {}
        for k, v in want.items():
            t = '%s: %s' % (tag, k)
            if k not in got:
                c.undecided('setting', t, w, 'no such setting')
                continue
            g = got[k]
            if k.endswith('_unit'):
                unit_obligations(c, I, t, w, k, g, v)
                continue
            if k == 'eos_function':
                if g not in forms:
                    forms[g] = eos.energy_term(c, g).get('term') if \
                        isinstance(g, str) else Unknown(repr(g))
                c.same('setting', t, forms[g], eos.closed_form(v), w)
                continue
            try:
                ok = agree(I, g, v)
            except (Imprecise, AttributeError) as e:
                c.undecided('setting', t, w, str(e)[:100])
                continue
            c.need(ok, 'setting', t, w, '%s instead of %s' % (show(I, g),
                                                             show(I, v)))
        printed(c, D, K2, cmd, tag, w, want, got)
    for cmd, argv in REFUSED:
        I, D, K2, M, r = invoke(c, [cmd, 'in.dat'] + argv, ['in.dat'], CALC,
                                cmd)
        w = where(c, cmd, K2, cli)
        c.need(isinstance(r, Usage) and not M.events, 'refused', ' '.join(
            [cmd] + argv), w, 'accepted')
    for cmd in CALC:
        I, D, K2, M, r = invoke(c, [cmd, 'missing'], [], CALC, cmd)
        c.need(isinstance(r, Usage) and not M.events, 'refused', cmd +
               ' missing file', where(c, cmd, K2, cli), 'accepted')


def invoke_n(c, N, argv, kind, name):
    """As invoke, with the decimals of N."""
    I, D, N2, K, cli = start(c)
    D.n = N
    I.tokens = N
    D.add('in.dat', ['old'])
    M = Mock(K, *kind[name][:2])

    def go():
        try:
            K.invoke(cli, argv)
        except Usage as e:
            return e
        return None
    r = attempt(c, I, go)
    return I, D, K, M, r


def where(c, cmd, K, cli):
    f = cli['sub'].get(cmd)
    if f is None:
        raise AnalysisError('command %s is not found' % cmd)
    return c.where_func(f['f'].mod.name, f['f'].qual)


def agree(I, g, v):
    if isinstance(v, tuple):
        xs = I.iter_concrete(g)
        if xs is None:
            raise Imprecise('sequence')
        return len(xs) == len(v) and all(agree(I, a, b) for a, b in
                                         zip(xs, v))
    if isinstance(v, Poly):
        if isinstance(g, (str, bool)) or g is None:
            return False
        return al.equal(I.num(g), v)
    return g == v and type(g) is type(v)


def show(I, v):
    if isinstance(v, tuple):
        return '(%s)' % ', '.join(show(I, x) for x in v)
    return describe(v) if isinstance(v, Poly) else repr(v)


SECTION = {'trange': 'temperature', 'prange': 'pressure'}
UNITWORD = {'energy_unit': 'energy', 'lenght_unit': 'lenght',
            'frequency_unit': 'frequency', 'temperature_unit': 'temperature',
            'pressure_unit': 'pressure'}


def printed(c, D, K, cmd, tag, w, want, got):
    silent = want.get('silent')
    every = texts(D, K) if not silent else [D.text(want['logfile'])]
    src = [t for t in every if 'Calculator:' in t]
    if not src:
        if every and all(isinstance(t, str) for t in every) and not any(
                re.search(r'^\s*-\s+.*:\s*\S', t, re.M) for t in every):
            return c.bad('printed', tag, w, 'the settings are not printed')
        return c.undecided('printed', tag, w, 'no settings printed')
    sec, rows = '', {}
    for line in src[0].split('\n'):
        m = re.match(r'^\s*-\s+(.*?):\s*(.*?)\s*$', line)
        if m:
            rows[sec, m.group(1).strip().lower()] = m.group(2)
        elif line.strip() and not re.match(r'^[-\s]*$', line):
            sec = line.strip().lower()

    def row(section, label):
        for (s, l), v in rows.items():
            if section in s and l.startswith(label):
                return v
        return None

    def say(label, ok, v):
        if v is None:
            word = label.split()[0]
            if rows and not any(word in x[1] and label.split()[-1] in
                                ' '.join(x) for x in rows):
                return c.bad('printed', '%s: %s' % (tag, label), w,
                             'the setting in force is not printed')
            return c.undecided('printed', '%s: %s' % (tag, label), w,
                               'not printed')
        c.need(ok(v), 'printed', '%s: %s' % (tag, label), w,
               'printed as %r' % v)
    N = D.n
    for k, s in SECTION.items():
        if k in want:
            for i, l in enumerate(('min', 'max', 'step')):
                def ok(v, x=want[k][i], k=k):
                    p = v.split()
                    n = N.read(p[0])
                    if n is None:
                        return False
                    u = got.get('temperature_unit' if k == 'trange' else
                                'pressure_unit')
                    e = x.const_value()
                    close = abs(Fraction(p[0]) - e) <= Fraction(1, 100) \
                        if e is not None else al.equal(al.as_poly(n), x)
                    return close and p[1:] == [u]
                say('%s %s' % (s, l), ok, row(s + ' settings', l))
    for k, s in UNITWORD.items():
        if k in want:
            say(s + ' unit', lambda v: v == got.get(k), row('unit', s))
    if cmd != 'qha':
        return
    for k, s in (('edeg', 'energy'), ('fdeg', 'frequency')):
        say(s + ' degree', lambda v: N.read(v) is not None and al.equal(
            al.as_poly(N.read(v)), want[k]), row('polynomial', s))
    say('scheme', lambda v: ('freq' in v) == (want['qha_scheme'] == 'freq')
        and ('thermo' in v) == (want['qha_scheme'] == 'td'),
        row('approach', 'scheme'))
    say('minimization', lambda v: ('polynomial' in v.lower()) == (
        want['minimization'] == 'poly') and ('equation' in v.lower()) == (
            want['minimization'] == 'eos'), row('approach', 'volume'))
    say('acoustic', lambda v: v == ('Yes' if want['kieffer'] else 'No'),
        row('approach', 'use kieffer'))
    if want['minimization'] == 'eos':
        pat = [x for n, x in EOS.values() if n == want['eos_function']][0]
        say('equation of state', lambda v: bool(re.search(
            pat, v.lower())), row('approach', 'eos'))


# -------------------------------------------------------------------- workflow
WRITE = ('.hdf5', '.txt', '.log', '.dat', '.yaml')


def names(M):
    return [e[0] for e in M.events]


def settled(c, rule, tag, w, r):
    """The command ended by itself; else report."""
    if isinstance(r, Usage):
        c.bad(rule, tag, w, 'refused: %s' % r)
    elif isinstance(r, Raised):
        c.bad(rule, tag, w, repr(r))
    elif isinstance(r, Unknown):
        c.undecided(rule, tag, w, repr(r)[:200])
    else:
        return True
    return False


def first_args(M, name):
    return [e[1] + tuple(e[2].values()) for e in M.events if e[0] == name]


def untouched(c, rule, tag, w, D, path):
    c.need(path not in D.out, rule, tag, w, 'the input file is overwritten')


def logged(c, tag, w, D, K, log, upto=None):
    """The log is what was printed on the screen."""
    try:
        seen = texts(D, K)
        got = D.text(log)
    except (Imprecise, KeyError) as e:
        return c.undecided('log', tag, w, str(e)[:100])
    flat = '\n'.join(seen)
    c.need(re.sub(r'\s+', ' ', flat).strip() == re.sub(
        r'\s+', ' ', got).strip(), 'log', tag, w,
        'the log differs from the messages on the screen')
    return got


def reports_itself(c, kind, cmd):
    """The calculator's own code calls report_input_data."""
    import ast
    m = c.P.module(kind[cmd][0])
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr == 'report_input_data':
            return True
    return False


def P_runs(c):
    c.rule('commands', 'the program offers ha, qha, soec, eosfit, and for '
           'ha/qha/soec (ha/soec) the export (input generation) commands')
    c.rule('run', 'a calculation reads the file given, reports it, runs once '
           'and stores its results in the documented file')
    c.rule('overwrite', 'an existing results file is replaced only after a '
           'yes, and after a no the user is told that nothing is saved')
    c.rule('errors', 'when reading or running fails the error is printed and '
           'logged and nothing further is calculated or stored')
    c.rule('log', 'the log holds what is printed on the screen; quiet runs '
           'print nothing and log the same')
    c.rule('own-log', 'a calculator made with the settings of the command '
           'writes its messages to the log file chosen, and to the screen '
           'unless it is quiet; debug messages only on request')
    c.rule('input', 'the input file is never written to')
    c.rule('export', 'the export commands load the file given, and either '
           'print why it cannot be exported or start the export')
    c.rule('generate', 'the input generators read the file given with the '
           'interface and options given, write the documented file, and on '
           'failure print the error and write nothing')
    I, D, N, K, cli = start(c)
    want = {(): ('ha', 'qha', 'soec', 'eosfit', 'inpgen', 'export'),
            ('inpgen',): ('ha', 'soec'), ('export',): ('ha', 'qha', 'soec')}
    wt = c.where_func('quantas.cmdline.commands.cmd_quantas', 'cli')
    for path, subs in want.items():
        g = cli
        for p in path:
            g = g['sub'].get(p, {'sub': {}})
        for s in subs:
            c.need(s in g['sub'], 'commands', ' '.join(path + (s,)), wt,
                   'not offered')
    for cmd in CALC:
        if cmd in cli['sub']:
            calculation(c, cmd, where(c, cmd, K, cli))
            missing(c, [cmd, 'absent.dat'], 'errors', where(c, cmd, K, cli))
    for cmd in CALC:
        speaking(c, cmd)
    for cmd in EXPORT:
        sub = cli['sub'].get('export', {'sub': {}})['sub']
        if cmd in sub:
            f = sub[cmd]['f']
            exporting(c, cmd, c.where_func(f.mod.name, f.qual))
            missing(c, ['export', cmd, 'absent.dat'], 'export',
                    c.where_func(f.mod.name, f.qual))
    for cmd in INPGEN:
        sub = cli['sub'].get('inpgen', {'sub': {}})['sub']
        if cmd in sub:
            f = sub[cmd]['f']
            generating(c, cmd, c.where_func(f.mod.name, f.qual))
            for face in ('crystal', 'crystal-qha', 'phonopy') \
                    if cmd == 'ha' else ('crystal', 'vasp'):
                missing(c, ['inpgen', cmd, 'absent.dat', '-i', face],
                        'generate', c.where_func(f.mod.name, f.qual))


def missing(c, argv, rule, w):
    """A file that does not exist, with nothing replaced by a stand-in."""
    tag = '%s, no such file' % ' '.join(argv)
    I, D, N, K, cli = start(c)

    def go():
        try:
            K.invoke(cli, argv)
        except Usage as e:
            return e
        return None
    r = attempt(c, I, go)
    if isinstance(r, Usage):
        return c.ok(rule, tag, w, 'refused: %s' % r)
    if isinstance(r, Raised):
        return c.bad(rule, tag, w, 'fails with %r' % (r,))
    if isinstance(r, Unknown):
        return c.undecided(rule, tag, w, r.reason[:200])
    c.need(any('absent.dat' in t for t in texts(D, K)), rule, tag, w,
           'no message names the file')


def plain(I, J, v):
    """A dict of plain values made with I, in J."""
    d = I.heap.get(v.id) if isinstance(v, Ref) else None
    if not isinstance(d, DictC):
        return None
    out = {}
    for k, x in d.items.items():
        x = val(I, x)
        if isinstance(x, list):
            x = J.new_list(x)
        out[k] = x
    return J.new_dict(out)


def speaking(c, cmd):
    """The calculator's own messages, with the settings of the command."""
    mod, cls = CALC[cmd][:2]
    w = c.where_func(mod, cls + '.__init__')
    for silent in (False, True) if 'silent' in DEFAULT[cmd] else (False,):
        for debug in (False, True) if 'debug' in DEFAULT[cmd] else (False,):
            I0, D0, K0, M, r = invoke(
                c, [cmd, 'in.dat'] + ['-q'] * silent + ['-d'] * debug,
                ['in.dat'], CALC, cmd)
            I, D, N, K, cli = start(c)
            d = plain(I0, I, M.settings)
            log = (CALC[cmd][2] or '') + CALC[cmd][3]
            if d is None:
                c.undecided('own-log', cls, w, 'no settings: %r' % (r,))
                continue
            log = 'in' + log
            tag = '%s, silent %s, debug %s' % (cls, silent, debug)

            def say():
                o = I.call(I.get(mod, cls), [d], {}, None)
                seen = [len(K.screen)]
                for f in ('echo', 'echo_warning', 'echo_debug'):
                    I.call(I.get_attr(o, f), ['a word, %s.' % f], {}, None)
                    seen.append(len(K.screen))
                return seen
            r = attempt(c, I, say)
            if isinstance(r, Raised):
                c.bad('own-log', tag, w, repr(r))
                continue
            if isinstance(r, Unknown):
                c.undecided('own-log', tag, w, r.reason)
                continue
            try:
                got, said = D.text(log) if log in D.out else '', \
                    '\n'.join(texts(D, K))
            except Imprecise as e:
                c.undecided('own-log', tag, w, str(e)[:100])
                continue
            for f in ('echo', 'echo_warning', 'echo_debug'):
                on = debug or f != 'echo_debug'
                c.need(('a word, %s.' % f in got) == on, 'own-log', '%s: %s, log'
                       % (tag, f), w, 'the message is %s in the log file' % (
                           'not' if on else 'also'))
                if f != 'echo_warning' or not silent:
                    on = on and not silent
                    c.need(('a word, %s.' % f in said) == on, 'own-log',
                           '%s: %s, screen' % (tag, f), w, 'the message is '
                           '%s on the screen' % ('not' if on else 'also'))


def calculation(c, cmd, w):
    suffix, ext = CALC[cmd][2:]
    quiet = [False] if cmd == 'eosfit' else [False, True]
    logs = {}
    for src in ('data/in.dat', 'in.v2.yaml'):
        base = src[:src.rindex('.')]
        for o in (None, 'res', 'out/run.1'):
            stem = base + suffix if o is None else o
            log = stem + ext
            res = None if cmd == 'eosfit' else stem + '.hdf5'
            for q in quiet:
                argv = [cmd, src] + ([] if o is None else ['-o', o]) + (
                    ['-q'] if q else [])
                tag = ' '.join(argv)
                I, D, K, M, r = invoke(c, argv, [src, log], CALC, cmd)
                if not settled(c, 'run', tag, w, r):
                    continue
                ev = names(M)
                order = [e for e in ev if e in ('read', 'run', 'export')]
                c.need(order == ['read', 'run'] + (['export'] if res else []),
                       'run', tag, w, 'steps: %s' % ', '.join(ev))
                c.need(all(a[:1] == (src,) for a in first_args(M, 'read')),
                       'run', tag + ': file read', w,
                       repr(first_args(M, 'read')))
                c.need(all(a[:1] == (res,) for a in first_args(M, 'export')),
                       'run', tag + ': results file', w,
                       repr(first_args(M, 'export')))
                if 'report input' in ev:
                    c.need(ev.count('report input') == 1 and 'run' in ev and
                           ev.index('read') < ev.index('report input') <
                           ev.index('run'), 'run', tag + ': report', w,
                           'steps: %s' % ', '.join(ev))
                else:
                    c.need(reports_itself(c, CALC, cmd), 'run',
                           tag + ': report', w, 'the input is not reported')
                c.need(not K.asked, 'overwrite', tag, w,
                       'a question about a new file')
                c.need(log in D.out, 'log', tag + ': file', w,
                       'no log file %s' % log)
                files = set(D.out) - {log, res}
                c.need(not files, 'run', tag + ': files', w,
                       'writes %s' % sorted(files))
                untouched(c, 'input', tag, w, D, src)
                if log not in D.out:
                    continue
                if q:
                    c.need(not K.screen, 'log', tag, w, 'prints %r' % (
                        K.screen[:1],))
                    try:
                        c.need(logs.get((src, o)) == D.text(log), 'log',
                               tag + ': same', w, 'a quiet run logs less')
                    except Imprecise as e:
                        c.undecided('log', tag, w, str(e)[:100])
                else:
                    logs[src, o] = logged(c, tag, w, D, K, log)
    log = 'in' + suffix + ext
    res = 'in' + suffix + '.hdf5'
    both = [True, False] if cmd != 'eosfit' else []
    for a in both:
        for q in ([], ['-q']):
            tag = '%s, results exist, answer %s' % (' '.join([cmd] + q), a)
            I, D, K, M, r = invoke(c, [cmd, 'in.dat'] + q, ['in.dat', res],
                                   CALC, cmd, answers=[a])
            if not settled(c, 'overwrite', tag, w, r):
                continue
            c.need(len(K.asked) == 1, 'overwrite', tag + ': question', w,
                   '%d questions' % len(K.asked))
            n = len(first_args(M, 'export'))
            c.need(n == (1 if a else 0), 'overwrite', tag, w,
                   'stored %d times' % n)
            c.need((res in D.out) == a, 'overwrite', tag + ': file', w,
                   'the results file is %s' % ('kept' if a else 'written'))
            if not a:
                said = [t for t in texts(D, K) if 'not saved' in t.lower()
                        or 'not stored' in t.lower()]
                c.need(said, 'overwrite', tag + ': message', w,
                       'no message that the results are not saved')
            untouched(c, 'input', tag, w, D, 'in.dat')
    E = 'the reason of the failure'
    for what, b in (('reading fails', {'error': E}),
                    ('running fails', {'run_error': E})):
        if cmd == 'eosfit' and 'run_error' in b:
            continue
        for q in ([], ['-q']) if cmd != 'eosfit' else ([],):
            tag = '%s, %s' % (' '.join([cmd] + q), what)
            I, D, K, M, r = invoke(c, [cmd, 'in.dat'] + q, ['in.dat'], CALC,
                                   cmd, **b)
            if not settled(c, 'errors', tag, w, r):
                continue
            ev = names(M)
            c.need('export' not in ev and res not in D.out, 'errors', tag +
                   ': stored', w, 'results are stored')
            if 'error' in b:
                c.need('run' not in ev and 'report input' not in ev, 'errors',
                       tag + ': run', w, 'steps: %s' % ', '.join(ev))
            c.need(any(E in t for t in texts(D, K)), 'errors', tag +
                   ': printed', w, 'the error is not printed')
            c.need(log in D.out and E in D.text(log), 'errors', tag +
                   ': logged', w, 'the error is not in the log')
            untouched(c, 'input', tag, w, D, 'in.dat')
            if not q:
                logged(c, tag, w, D, K, log)
    tag = cmd + ' of a directory'
    I, D, K, M, r = invoke(c, [cmd, 'in.dat'], [], CALC, cmd,
                           dirs=['in.dat'])
    if settled(c, 'errors', tag, w, r):
        c.need(not M.events, 'errors', tag, w, 'steps: %s' % ', '.join(
            names(M)))
        c.need(any('in.dat' in t for t in texts(D, K)), 'errors', tag +
               ': printed', w, 'no message names it')
    for src, argv in (('in' + ext, ['-o', 'in']),
                      ('./in' + ext, ['-o', 'in']),
                      ('in' + ext, [])):
        if not argv and suffix:
            continue
        tag = ' '.join([cmd, src] + argv)
        I, D, K, M, r = invoke(c, [cmd, src] + argv, [src] + (
            ['in' + ext] if src[0] == '.' else []), CALC, cmd)
        if settled(c, 'input', tag, w, r):
            c.need(src not in D.out and 'in' + ext not in D.out, 'input', tag,
                   w, 'the log replaces the input file')


def exporting(c, cmd, w):
    E = 'the reason of the failure'
    for err in (None, E):
        tag = 'export %s, %s' % (cmd, 'file refused' if err else 'good file')
        I, D, K, M, r = invoke(c, ['export', cmd, 'in.hdf5'], ['in.hdf5'], {
            cmd: EXPORT[cmd]}, cmd, load=True, error=err)
        if not settled(c, 'export', tag, w, r):
            continue
        ev = names(M)
        c.need(ev == (['load'] if err else ['load', 'run']), 'export', tag, w,
               'steps: %s' % ', '.join(ev))
        c.need(all(a[:1] == ('in.hdf5',) for a in first_args(M, 'load')),
               'export', tag + ': file', w, repr(first_args(M, 'load')))
        c.need(not D.out, 'input', tag, w, 'writes %s' % sorted(D.out))
        if err:
            c.need(any(E in t for t in texts(D, K)), 'export', tag +
                   ': printed', w, 'the error is not printed')
    tag = 'export %s of a directory' % cmd
    I, D, K, M, r = invoke(c, ['export', cmd, 'in.hdf5'], [], {
        cmd: EXPORT[cmd]}, cmd, dirs=['in.hdf5'])
    if settled(c, 'export', tag, w, r):
        c.need(not M.events, 'export', tag, w, 'steps: %s' % ', '.join(
            names(M)))


def generating(c, cmd, w):
    E = 'the reason of the failure'
    faces = ('crystal', 'crystal-qha', 'phonopy') if cmd == 'ha' else (
        'crystal', 'vasp')
    ending = '.yaml' if cmd == 'ha' else '.dat'
    kind = {cmd: INPGEN[cmd]}

    def go(argv, files=('in.out',), answers=('a description',), **b):
        b['pair'] = True
        return invoke(c, ['inpgen', cmd] + argv, files, kind, cmd,
                      answers=answers if cmd == 'soec' else (), **b)
    plans = []
    for f in (None,) + faces:
        i = [] if f is None else ['-i', f]
        plans.append((f or 'crystal', i, {}))
        plans.append((f or 'crystal', ['--interface', f] if f else [], {}))
        if cmd == 'ha':
            plans.append((f or 'crystal', i + ['-l'], {'list': True}))
            plans.append((f or 'crystal', i + ['--list', '-r', '2'], {
                'list': True, 'ref': 2}))
            plans.append((f or 'crystal', i + ['--ref', '1'], {'ref': 1}))
        plans.append((f or 'crystal', i + ['-o', 'new'], {'out': 'new'}))
        plans.append((f or 'crystal', i + ['--outfile', 'new.2'], {
            'out': 'new.2'}))
    for f, argv, d in plans:
        tag = ' '.join(['inpgen', cmd] + argv)
        I, D, K, M, r = go(['in.out'] + argv)
        if not settled(c, 'generate', tag, w, r):
            continue
        c.need(M.count == 1 and M.given[0] + tuple(M.given[1].values()) ==
               (f,), 'generate', tag + ': interface', w, repr(
                   getattr(M, 'given', None)))
        c.need(names(M) == ['read', 'write'], 'generate', tag, w,
               'steps: %s' % ', '.join(names(M)))
        rd = first_args(M, 'read')
        want = ('in.out',)
        if cmd == 'ha':
            want += (d.get('list', False), al.as_poly(d.get('ref', 0)))
        c.need(len(rd) == 1 and alike(I, rd[0], want), 'generate', tag +
               ': read', w, repr(rd))
        out = d.get('out') or ('quantas_ha' if cmd == 'ha' else
                               'in_soec_input')
        want = (out + ending,)
        if cmd == 'soec':
            want += ('a description',)
        elif f != 'crystal-qha':
            want += (al.as_poly(d.get('ref', 0)),)
        wr = first_args(M, 'write')
        c.need(len(wr) == 1 and (alike(I, wr[0], want) or f == 'crystal-qha'
                                 and alike(I, wr[0][:1], want)), 'generate',
               tag + ': write', w, repr(wr))
        c.need(not D.out, 'input', tag, w, 'writes %s' % sorted(D.out))
    if cmd == 'ha':
        for f in ('crystal', 'phonopy'):
            for ref in ('3', '7', '-1'):
                tag = 'inpgen ha -i %s -r %s (three files)' % (f, ref)
                I, D, K, M, r = go(['in.out', '-i', f, '-r', ref])
                if isinstance(r, Usage):
                    c.ok('generate', tag, w)
                elif settled(c, 'generate', tag, w, r):
                    c.need('write' not in names(M), 'generate', tag, w,
                           'a reference that does not exist is used')
                    c.need(len(texts(D, K)) > 1, 'generate', tag +
                           ': printed', w, 'nothing is printed')
    for f in faces:
        for what, b in (('reading fails', {'error': E}),
                        ('KeyError', {'raises': 'KeyError'}),
                        ('binary file', {'raises': 'UnicodeDecodeError'})):
            tag = 'inpgen %s -i %s, %s' % (cmd, f, what)
            I, D, K, M, r = go(['in.out', '-i', f], **b)
            if settled(c, 'generate', tag, w, r):
                c.need('write' not in names(M), 'generate', tag, w,
                       'a file is written')
                c.need(any((E if 'error' in b else 'in.out') in t
                           for t in texts(D, K)), 'generate', tag +
                       ': printed', w, 'the error is not printed')
        tag = 'inpgen %s -i %s on its own output' % (cmd, f)
        src = 'in' + ending
        I, D, K, M, r = go([src, '-i', f, '-o', 'in'], files=(src,))
        if settled(c, 'input', tag, w, r):
            c.need('write' not in names(M), 'input', tag, w,
                   'the input file is overwritten')
        tag = 'inpgen %s -i %s of a directory' % (cmd, f)
        I, D, K, M, r = go(['in.out', '-i', f], files=(), dirs=['in.out'])
        if settled(c, 'generate', tag, w, r):
            c.need(not M.events, 'generate', tag, w, 'steps: %s' % ', '.join(
                names(M)))
    I, D, K, M, r = go(['in.out', '-i', 'other'])
    c.need(isinstance(r, Usage) and not M.events, 'generate', 'inpgen %s -i '
           'other' % cmd, w, 'an unknown interface is accepted')


def alike(I, got, want):
    if len(got) != len(want):
        return False
    try:
        return all(agree(I, a, b) for a, b in zip(got, want))
    except (Imprecise, AttributeError):
        return False


CHECKS = {'P03': P_options, 'P21': P_runs}
