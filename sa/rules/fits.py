"""P(V) fits: what is handed to the regression, asked and reported (P09)."""
import re

from .. import algebra as al
from ..core import (val, run, dim, describe, AbsRaise, Budget, Unknown, Arr,
                    Poly, Imprecise, same_value)
from ..values import *          # noqa
from .eos import FORMS, PV, safe, new, K0, KP, KPP, V0, V
from .soec import capture, printed_numbers
from .readers import Raised, attempt
from ..clicks import prompt_type

EF = 'quantas.eosfit.eosfit'
ZERO = al.as_poly(0)
LABEL = {'v': 'Volume', 'a': 'a-axis', 'b': 'b-axis', 'c': 'c-axis'}
NUMBER = {'Murnaghan': '1', 'BirchMurnaghan': '2', 'NaturalStrain': '3',
          'Vinet': '4', 'Tait': '5'}
NAMES = {'BirchMurnaghan': 'Birch-Murnaghan', 'Murnaghan': 'Murnaghan',
         'NaturalStrain': 'Natural Strain', 'Vinet': 'Vinet', 'Tait': 'Tait'}


class Odr(object):
    """scipy.odr: remembers what the regression is made of."""

    def __init__(self, I):
        self.runs = []
        m = I.models
        m['scipy.odr.Model'] = lambda I, a, k, n: Opaque(
            ('odr model',), args=self.named(('fcn', 'fjacb', 'fjacd',
                                             'extra_args'), a, k))
        m['scipy.odr.RealData'] = lambda I, a, k, n: Opaque(
            ('odr data',), args=self.named(('x', 'y', 'sx', 'sy'), a, k))
        m['scipy.odr.Data'] = lambda I, a, k, n: Opaque(
            ('odr plain data',), args=self.named(('x', 'y', 'we', 'wd'), a,
                                                 k))
        m['scipy.odr.ODR'] = self.make

    @staticmethod
    def named(names, a, k):
        d = dict(zip(names, a))
        d.update(k)
        return d

    def make(self, I, a, k, n):
        d = self.named(('data', 'model', 'beta0', 'delta0', 'ifixb', 'ifixx',
                        'job'), a, k)
        # the regression takes a copy of the starting values and the flags
        d['start'] = I.to_array(d['beta0']) if 'beta0' in d else None
        fx = d.get('ifixb')
        d['free'] = None if fx is None else [
            al.as_poly(x) for x in I.iter_concrete(fx)]
        key = 'mock.odr%d' % id(d)

        def set_job(I, a, k, n):
            d['fit_type'] = k.get('fit_type', a[0] if a else None)

        def run(I, a, k, n):
            if I.cond() != al.as_poly(1):
                raise Imprecise('conditional fit')
            self.runs.append(d)
            return self.result(I, len(self.runs))
        I.models[key + '.set_job'] = set_job
        I.models[key + '.run'] = run
        return Opaque(('odr', len(self.runs)), attrs={
            'set_job': Ext(key + '.set_job'), 'run': Ext(key + '.run')})

    def result(self, I, k):
        def arr(name, *shape):
            return I.alloc(Arr.symbol('%s%d' % (name, k), shape))
        n = self.npoints
        return Opaque(('odr output', k), attrs={
            'beta': arr('beta', 4), 'sd_beta': arr('sd', 4),
            'cov_beta': arr('cov', 4, 4), 'delta': arr('delta', n),
            'eps': arr('eps', n), 'y': arr('yfit', n),
            'xplus': arr('xplus', n), 'res_var': al.sym('res_var%d' % k),
            'sum_square': al.sym('ssq%d' % k),
            'stopreason': I.new_list(['stop'])})


def series(name, n):
    return Arr.symbol(name, (n,), sign=1)


def judge_run(c, I, tag, w, d, cls, order, linear, values, pressure, sv, sp,
              start=None, free=None):
    """One regression against what was asked for."""
    data, model = d.get('data'), d.get('model')
    if not isinstance(data, Opaque) or not isinstance(model, Opaque) or \
            data.key != ('odr data',):
        return c.undecided('fit', tag, w, 'regression data not recognised')
    a = data.info['args']
    for nm, k, want in (('abscissa', 'x', values), ('ordinate', 'y',
                                                    pressure),
                        ('uncertainty of the data', 'sx', sv),
                        ('uncertainty of the pressure', 'sy', sp)):
        got = a.get(k)
        if want is None or got is None:
            c.need((want is None) == (got is None), 'fit', '%s: %s' % (
                tag, nm), w, '%s instead of %s' % (
                    got if got is None else describe(val(I, got)),
                    'none' if want is None else 'the data given'))
        else:
            c.same('fit', '%s: %s' % (tag, nm), val(I, got), want, w)
    m = model.info['args']
    extra = m.get('extra_args')
    extra = list(I.iter_concrete(extra)) if extra is not None else []
    beta = [K0, KP, KPP, V0]

    def pressure_of(fn, more):
        p = I.alloc(I.to_array(I.new_list(beta)))
        return safe(lambda: val(I, I.call(fn, [p, V] + list(more), {}, None)))
    want = pressure_of(I.get_attr(new(I, PV, cls), 'eos'),
                       [al.as_poly(order), linear, True])
    c.same('fit', tag + ': fitted function', pressure_of(m.get('fcn'), extra),
           want, w)
    ft = d.get('fit_type')
    ft = 0 if ft is None else ft
    try:
        ft = I.num(ft).const_value()
    except (Imprecise, AttributeError):
        ft = None
    if ft is None:
        c.undecided('fit', tag + ': kind of regression', w, repr(ft))
    else:
        c.need((ft == 2) if sv is None else (ft == 0), 'fit',
               tag + ': kind of regression', w,
               'fit_type %s with%s uncertainties of the data' % (
                   ft, 'out' if sv is None else ''))
    if start is not None:
        c.same('fit', tag + ': starting values', d['start'], start, w)
    if free is not None:
        got = d['free']
        ok = got is not None and [x.const_value() for x in got] == list(free)
        c.need(ok, 'fit', tag + ': fixed parameters', w,
               '%s instead of %s' % (got, list(free)))


def direct(c):
    w = c.where_func(PV, 'EOS.fit')
    for cls, orders in FORMS.items():
        for order in orders:
            for linear in (False, True):
                for u in range(4):
                    for own in (True, False):
                        if own and u not in (0, 3):
                            continue
                        I = c.interp()
                        O = Odr(I)
                        O.npoints = n = dim('n')
                        v, p = series('x', n), series('p', n)
                        sv = series('sx', n) if u & 1 else None
                        sp = series('sp', n) if u & 2 else None
                        g = Arr.symbol('g', (4,), sign=1)
                        kw = {'order': al.as_poly(order), 'linear': linear}
                        for k, x in (('sigmaV', sv), ('sigmaP', sp)):
                            kw[k] = I.alloc(x) if x is not None else None
                        fx = [1, 0, 1, 0]
                        if not own:
                            kw['guess'] = I.alloc(g)
                            kw['fixed'] = I.new_list(
                                [al.as_poly(x) for x in fx])
                        o = new(I, PV, cls)
                        tag = '%s order %d%s%s%s%s' % (
                            cls, order, ' axis' if linear else '',
                            ', weights of the data' if sv else '',
                            ', weights of the pressure' if sp else '',
                            ', own start' if own else '')
                        r = attempt(c, I, lambda: I.call(I.get_attr(
                            o, 'fit'), [I.alloc(v), I.alloc(p)], kw, None))
                        if isinstance(r, Raised):
                            c.bad('fit', tag, w, repr(r))
                            continue
                        if isinstance(r, Unknown) or len(O.runs) != 1:
                            c.undecided('fit', tag, w, '%r; %d regressions' % (
                                r, len(O.runs)))
                            continue
                        default = {2: [1, 0, 0, 1], 3: [1, 1, 0, 1],
                                   4: [1, 1, 1, 1]}[order]
                        judge_run(c, I, tag, w, O.runs[0], cls, order, linear,
                                  v, p, sv, sp, None if own else g,
                                  default if own else fx)
                        if own:
                            estimate(c, I, tag, w, O.runs[0]['start'], v, p,
                                     linear)


def estimate(c, I, tag, w, start, v, p, linear):
    """V0 is the fitted V(P) at P = 0; K0 is -V dP/dV there."""
    J = I
    x = J.np_polyfit([J.alloc(p), J.alloc(v), al.as_poly(3)], {}, None)
    V_0 = J.content(x).at([3])
    y = J.content(J.np_polyfit([J.alloc(v), J.alloc(p), al.as_poly(3)], {},
                               None))
    slope = y.at([0]) * 3 * V_0 * V_0 + y.at([1]) * 2 * V_0 + y.at([2])
    for nm, k, want in (('starting V0', 3, V_0),
                        ('starting K0', 0, -V_0 * slope)):
        if k == 0 and linear:
            continue
        c.same('estimate', '%s: %s' % (tag, nm), start.at([k]), want, w)


# ------------------------------------------------------------------ interactive
class User(object):
    """Answers by what is asked."""

    def __init__(self, I, rounds, modify=None, fix=None,
                 weights=(True, True), update=False):
        self.asked = []
        self.rounds, self.k = rounds, 0
        self.update = update
        self.modify, self.fix, self.weights = modify, fix, weights
        I.models['click.style'] = lambda I, a, k, n: a[0] if a else k['text']
        I.models['click.prompt'] = self.prompt
        I.models['click.confirm'] = self.confirm

    @property
    def now(self):
        if self.k >= len(self.rounds):
            raise Imprecise('asks after the last round')
        return self.rounds[self.k]

    @property
    def data(self):
        return self.now[0]

    def text(self, a, k):
        t = a[0] if a else k.get('text')
        if not isinstance(t, str):
            raise Imprecise('question')
        self.asked.append(t.strip())
        return t.lower()

    def prompt(self, I, a, k, node):
        prompt_type(I, k, node)
        t = self.text(a, k)
        if 'order' in t:
            return al.as_poly(self.now[2])
        if 'formulation' in t:
            return NUMBER[self.now[1]]
        if 'values' in t or 'data' in t:
            return self.data
        if self.modify is not None:
            return self.modify[self.label(t)]
        raise Imprecise('question %r' % t)

    def label(self, t):
        t = t.strip()
        for k, m in ((2, "''"), (1, "'"), (3, 'v0'), (3, self.data + '0')):
            if m in t:
                return k
        return 0

    def confirm(self, I, a, k, node):
        t = self.text(a, k)
        if 'modify' in t:
            return self.modify is not None
        if 'weight' in t:
            if 'pressure' in t:
                return self.weights[0]
            if LABEL[self.data].lower() in t:
                return self.weights[1]
            return True
        if 'update' in t:
            return self.update
        then = self.now[3]
        if 'continue' in t:
            return then in ('again', 'eos')
        if 'change' in t:
            self.k += 1
            return then == 'eos'
        if 'other' in t:
            self.k += 1
            return then == 'data'
        if 'any' in t:
            return self.fix is not None
        if 'fix' in t:
            return self.fix[self.label(t.replace('fix', '', 1))] == 0
        raise Imprecise('question %r' % t)


def session(c, rounds, have, **answers):
    """Run the interactive calculator; (I, Odr, user, log, result)."""
    I = c.interp()
    O = Odr(I)
    O.npoints = 5
    log = capture(I)
    U = User(I, rounds, **answers)
    keys = ('p', 'v', 'a', 'b', 'c')
    data = {}
    for k in keys:
        data[k] = I.alloc(series('d_' + k, 5)) if k == 'p' or k in have \
            else None
        s = 'sigma' + k
        data[s] = I.alloc(series('s_' + k, 5)) if s in have else None
    d = I.new_dict(data)
    names = {'pressure': 'p', 'volume': 'v', 'a': 'a', 'b': 'b', 'c': 'c',
             'sigma_p': 'sigmap', 'sigma_v': 'sigmav', 'sigma_a': 'sigmaa',
             'sigma_b': 'sigmab', 'sigma_c': 'sigmac'}
    attrs = {k: data[v] for k, v in names.items()}
    attrs.update(completed=True, error=None, data=d, _data=d, jobname='job')
    I.models['quantas.IO.eos_reader.EoSInputFileReader'] = \
        lambda I, a, k, n: Opaque(('reader',), attrs=attrs)

    def go():
        calc = I.call(I.get(EF, 'EoSFitCalculator'), [I.new_dict({
            'lenght_unit': 'A', 'pressure_unit': 'GPa', 'logfile': None})],
            {}, None)
        e = I.call(I.get_attr(calc, 'read_input'), ['in.dat'], {}, None)
        if e is not None:
            raise Imprecise('input refused: %r' % (e,))
        I.call(I.get_attr(calc, 'report_input_data'), [], {}, None)
        del log[:]
        I.call(I.get_attr(calc, 'run'), [], {}, None)
        return calc
    return I, O, U, log, attempt(c, I, go)


ALL = ('v', 'a', 'b', 'c', 'sigmap', 'sigmav', 'sigmaa', 'sigmab', 'sigmac')


def interactive(c):
    w = c.where_func(EF, 'EoSFitCalculator.run')
    plans = []
    for q in 'vabc':
        plans.append((q, 'BirchMurnaghan', 3, ALL, {}))
        plans.append((q, 'Vinet', 2, (q,), {}))
        plans.append((q, 'Tait', 4, (q, 'sigma' + q), {}))
        plans.append((q, 'NaturalStrain', 4, (q, 'sigmap'), {}))
        for wt in ((True, False), (False, True), (False, False)):
            plans.append((q, 'Murnaghan', 3, ALL, {'weights': wt}))
    for q in 'va':
        plans.append((q, 'BirchMurnaghan', 4, ALL, {
            'fix': [1, 0, 1, 1]}))
        plans.append((q, 'Vinet', 3, ALL, {'fix': [0, 1, 1, 0]}))
        plans.append((q, 'BirchMurnaghan', 2, ALL, {
            'modify': [al.as_poly(x) for x in (160, 5, 0, 75)]}))
        plans.append((q, 'Vinet', 2, ALL, {'again': 1, 'update': True}))
        plans.append((q, 'Vinet', 2, ALL, {'again': 1}))
    for i, (q, cls, order, have, ans) in enumerate(plans):
        again = ans.pop('again', 0)
        plans[i] = ([(q, cls, order, 'again')] * again + [
            (q, cls, order, 'end')], have, ans)
    B, V_, M, T, N = ('BirchMurnaghan', 'Vinet', 'Murnaghan', 'Tait',
                      'NaturalStrain')
    for upd in (False, True):
        for rounds in (
                [('v', B, 3, 'eos'), ('v', V_, 2, 'end')],
                [('a', T, 4, 'eos'), ('a', B, 2, 'again'),
                 ('a', B, 2, 'data'), ('v', M, 3, 'end')],
                [('v', B, 3, 'data'), ('a', B, 3, 'data'), ('b', N, 3, 'eos'),
                 ('b', V_, 3, 'data'), ('v', B, 4, 'end')],
                [('c', V_, 2, 'data'), ('c', V_, 2, 'end')]):
            plans.append((rounds, ALL, {'update': upd}))
    for rounds, have, ans in plans:
        one = len(rounds) == 1
        tag = 'fit of %s, %s%s' % (
            ' then '.join('%s, %s order %d' % (
                LABEL[q], cls, order) for q, cls, order, x in rounds),
            'all data' if have is ALL else
            ' '.join(have), ''.join(', %s %s' % (k, [
                describe(y) if isinstance(y, Poly) else y for y in x]
                if isinstance(x, (list, tuple)) else x)
                for k, x in ans.items()))
        I, O, U, log, r = session(c, rounds, have, **ans)
        n = len(rounds)
        if isinstance(r, Raised):
            c.bad('session', tag, w, repr(r))
            continue
        if isinstance(r, Unknown):
            c.undecided('session', tag, w, '%r; %d regressions' % (
                r, len(O.runs)))
            continue
        if not c.need(len(O.runs) == n, 'session', tag + ': number of fits',
                      w, '%d fits' % len(O.runs)):
            continue
        wt = ans.get('weights', (1, 1))
        fx = ans.get('fix', [1, 1, 1, 1])
        start = None
        for k, d in enumerate(O.runs):
            q, cls, order, then = rounds[k]
            sp = series('s_p', 5) if 'sigmap' in have and wt[0] else None
            sq = series('s_' + q, 5) if 'sigma' + q in have and wt[1] \
                else None
            if k == 0 or rounds[k - 1][3] == 'data':
                start = None
            if 'modify' in ans:
                start = Arr((4,), {(i,): x for i, x in enumerate(
                    ans['modify'])})
            elif start is None:
                estimate(c, I, tag + (', fit %d' % (k + 1) if n > 1 else ''),
                         w, d['start'], series('d_' + q, 5),
                         series('d_p', 5), q != 'v')
            judge_run(c, I, tag + (', fit %d' % (k + 1) if n > 1 else ''), w,
                      d, cls, order, q != 'v', series('d_' + q, 5),
                      series('d_p', 5), sq, sp, start, fx)
            start = Arr.symbol('beta%d' % (k + 1), (4,)) \
                if ans.get('update') else d['start']
        c.need(I.get_attr(r, 'completed') is True, 'session',
               tag + ': completed', w, 'not marked completed')
        if one:
            report(c, tag, w, log, q, cls, order, fx, sq, sp)


def report(c, tag, w, log, q, cls, order, fx, sq, sp):
    """The printed parameters and data rows are those of the fit."""
    rows = [(m, printed_numbers([m])) for m in log]
    text = [m for m in log if isinstance(m, str)]
    labels = ["K0", "K'", "K''", 'V0'] if q == 'v' else [
        "M0(%s)" % q, "M'(%s)" % q, "M''(%s)" % q, '%s0' % q]
    for nm, want in (('formulation', NAMES[cls]), ('order', str(order))):
        ln = [t for t in map(flat, log) if 'EOS ' + nm + ':' in t]
        if not ln:
            c.undecided('report', '%s: EOS %s' % (tag, nm), w, 'no such line')
        elif nm == 'order':
            got = [num(x) for m in log if 'EOS order:' in flat(m)
                   for x in printed_numbers([m])]
            if got:
                c.same('report', tag + ': EOS order', got[0], al.as_poly(
                    order), w)
            else:
                c.need(want in ln[0].split(), 'report', tag + ': EOS order',
                       w, 'printed %r' % ln[0])
        else:
            c.need(norm(want) == norm(ln[0].split(':')[1]), 'report', tag +
                   ': EOS formulation', w, 'printed %r' % ln[0])
    fits = []
    for m, nums in rows:
        if len(nums) == 2:
            fits.append((m, nums))
    if len(fits) < 4:
        return c.undecided('report', tag + ': parameters', w,
                           '%d parameter lines' % len(fits))
    for i in range(4):
        m, nums = fits[i]
        t = flat(m)
        want = [al.idx('beta1', al.as_poly(i)), al.idx('sd1', al.as_poly(i))]
        name = '%s: line of %s' % (tag, labels[i])
        ok = all(al.equal(num(x), y) for x, y in zip(nums, want))
        c.need(ok, 'report', name, w, 'prints %s' % [describe(num(x))
                                                     for x in nums])
        c.need(labels[i] in t.split(), 'report', name + ': label', w,
               'printed as %r' % t)
        c.need(('FIXED' in t) == (fx[i] == 0), 'report', name +
               ': fixed flag', w, 'printed as %r with fixed=%s' % (
                   t, fx[i] == 0))
        imp = i in {2: (1, 2), 3: (2,), 4: ()}[order]
        c.need(('IMPLIED' in t) == imp, 'report', name + ': implied flag', w,
               'printed as %r at order %d' % (t, order))
    heads = [flat(m) for m in log if '(' in flat(m) and any(re.match(
        re.escape(LABEL[q]) + r'\b', t) for t in re.split(
            r'\s{2,}', flat(m).strip()))]
    unit = 'A^3' if q == 'v' else 'A'
    if heads:
        c.need(any('(%s)' % unit in t and '(GPa)' in t for t in heads),
               'report', tag + ': units of the columns', w,
               'headed %r' % heads[:1])
    else:
        c.undecided('report', tag + ': units of the columns', w,
                    'no such line')
    body = [nums for m, nums in rows if len(nums) == 5]
    c.need(len(body) == 5, 'report', tag + ': data rows', w,
           '%d rows' % len(body))
    for i, nums in enumerate(body[:5]):
        want = [al.idx('d_' + q, al.as_poly(i), sign=1)] + [
            al.idx(k, al.as_poly(i)) for k in ('delta1', 'd_p', 'yfit1',
                                               'eps1')]
        c.need(all(al.equal(num(x), y) for x, y in zip(nums, want)),
               'report', '%s: data row %d' % (tag, i), w, 'prints %s' % [
                   describe(num(x)) for x in nums])
    cov = [nums for m, nums in rows if len(nums) == 4]
    c.need(len(cov) == 4 and all(al.equal(num(cov[i][j]), al.idx(
        'cov1', al.as_poly(i), al.as_poly(j))) for i in range(4)
        for j in range(4)), 'report', tag + ': covariance matrix', w,
        'prints %s' % [[describe(num(x)) for x in r] for r in cov])
    for nm, s in (('pressure', sp), (LABEL[q], sq)):
        ln = [t for t in text if t.lower().startswith('results') and
              nm.lower() in t.lower()]
        if not ln:
            c.undecided('report', '%s: weighting of %s' % (tag, nm), w,
                        'no such line')
            continue
        c.need(('not weighted' in ln[0].lower()) == (s is None), 'report',
               '%s: weighting of %s' % (tag, nm), w, 'printed %r' % ln[0])


def norm(s):
    return ''.join(x for x in s.lower() if x.isalpha())


def num(x):
    v = x[1]
    return v if isinstance(v, Poly) else al.as_poly(v)


def flat(m):
    """Text of a message, its numbers left out."""
    if isinstance(m, str):
        return m
    if isinstance(m, Opaque):
        return flat(m.key)
    if isinstance(m, tuple):
        if len(m) == 3 and m[0] == 'fmt':
            return ' '
        return ''.join(flat(x) for x in m[1:] if isinstance(
            x, (str, tuple, Opaque)))
    return ''


def P_fits(c):
    c.rule('fit', 'the regression is made of the values chosen as abscissa, '
           'the pressures as ordinate, the uncertainties of each, the '
           'pressure function of the formulation, order and kind chosen, the '
           'starting values and the parameters held fixed; it is orthogonal '
           'when the abscissa has uncertainties and ordinary otherwise')
    c.rule('estimate', 'without starting values V0 is the cubic V(P) at zero '
           'pressure and K0 is -V dP/dV of the cubic P(V) there')
    c.rule('session', 'the interactive session fits the data, formulation, '
           'order, weights, starting values and fixed parameters that were '
           'answered, once for each round, and ends completed')
    c.rule('report', 'the report prints value and error of each parameter '
           'under its label with its fixed and implied marks, the covariance '
           'matrix and, for each point, datum, residual, observed and fitted '
           'pressure and residual')
    direct(c)
    interactive(c)


CHECKS = {'P09': P_fits}
