"""Obligations, verdicts, known findings and evidence of one check run."""
import json
import os
import re
import sys
import time

from . import algebra as al
from . import pit
from .algebra import Poly
from .project import Project, AnalysisError
from .interp import AbsRaise, Budget
from .interp_call import Interp
from .values import *          # noqa

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known_findings(prop):
    """{key: text} of the findings listed for a property."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith('known:'):
                continue
            head, _, text = line[6:].partition('::')
            f = dict(x.split('=', 1) for x in head.split() if '=' in x)
            if f.get('property') == prop:
                out[f.get('key')] = text.strip()
    return out


RAISES = re.compile(r'AbsRaise: (\w+)( at line \d+ of \S+)')


class Check(object):
    def __init__(self, prop, tier='quick', project=None):
        self.prop = prop
        self.tier = tier
        self.P = project or Project()
        self.t0 = time.time()
        self.obl = []          # (rule, construct, status, where, detail)
        self.rules = {}
        self.units = set()
        self.unmodelled = []
        self.assumptions = []
        self.notes = []
        self.controls = []
        self.steps = 0

    # -- recording
    def rule(self, name, text):
        self.rules[name] = text

    def add(self, rule, construct, status, where='', detail=''):
        self.obl.append((rule, construct, status, where, str(detail)))

    def ok(self, rule, construct, where='', detail=''):
        self.add(rule, construct, 'ok', where, detail)

    def bad(self, rule, construct, where='', detail=''):
        self.add(rule, construct, 'violation', where, detail)

    def undecided(self, rule, construct, where='', detail=''):
        # an exception on the only path there is; a key that is missing may
        # be one the stand-ins of the check do not have
        m = RAISES.search(str(detail))
        if m and m.group(1) not in ('KeyError', 'unreachable'):
            return self.bad(rule, construct, where, 'raises ' + m.group(1) +
                            m.group(2))
        self.add(rule, construct, 'undecided', where, detail)

    def need(self, cond, rule, construct, where='', detail=''):
        self.add(rule, construct, 'ok' if cond else 'violation', where,
                 '' if cond else detail)
        return cond

    def control(self, name, fired):
        """A positive control: the rule must fire on a built-in example."""
        self.controls.append((name, bool(fired)))

    # -- interpretation
    def interp(self, models=None, budget=3000000):
        I = Interp(self.P, models=models, budget=budget)
        return I

    def collect(self, I):
        for m, q in I.analysed:
            self.units.add('%s.%s' % (m, q))
        self.unmodelled += I.unmodelled
        self.steps += I.steps

    def where_func(self, mod, qual):
        try:
            node = self.P.func(mod, qual)
            top = node
            while getattr(top, '_parent', None) is not None:
                top = top._parent
            rel = next((m.rel for m in self.P.modules.values()
                        if m.tree is top), mod)
            return '%s:%d' % (rel, node.lineno)
        except Exception:          # noqa
            try:
                return self.P.module(mod).rel
            except Exception:          # noqa
                return mod

    def same(self, rule, construct, got, want, where='', allow=(), **kw):
        """Obligation: two values (Poly or Arr) are the same term."""
        st, detail = same_value(got, want, allow, **kw)
        if st == 'equal':
            self.add(rule, construct, 'ok', where, detail)
        elif st == 'differ':
            self.add(rule, construct, 'violation', where,
                     detail)
        else:
            self.undecided(rule, construct, where, detail)
        return st

    # -- verdict
    def finish(self, seed=0):
        known = known_findings(self.prop)
        viol, kn, und, ok = [], [], [], []
        seen = set()
        for o in self.obl:
            key = (o[0], o[1], o[2])
            if o[2] == 'violation':
                if key in seen:
                    continue
                seen.add(key)
                k = '%s|%s' % (o[0], o[1].replace(' ', '_'))
                (kn if k in known else viol).append(o)
            elif o[2] == 'undecided':
                und.append(o)
            else:
                ok.append(o)
        dead = [c for c, f in self.controls if not f]
        code = 0
        if viol:
            code = 1
        elif dead:
            code = 2
        elif not ok:
            code = 2
        replay = os.path.join(VERIF, 'evidence',
                              '%s.violations.txt' % self.prop)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {
            'explanation': 'Static analysis of the source under %s: %s' % (
                self.P.root, '; '.join('[%s] %s' % kv
                                       for kv in sorted(self.rules.items()))),
            'obligations': len(self.obl),
            'discharged': len(ok),
            'undecided': [list(o) for o in und][:60],
            'undecided_count': len(und),
            'known_findings': ['%s|%s' % (o[0], o[1]) for o in kn],
            'functions_analysed': len(self.units),
            'functions': sorted(self.units)[:200],
            'modules_parsed': len(self.P.modules),
            'abstract_steps': self.steps,
            'unmodelled_constructs': sorted(set(self.unmodelled))[:40],
            'positive_controls': ['%s: %s' % (c, 'fired' if f else 'DEAD')
                                  for c, f in self.controls],
            'samples': [{'rule': o[0], 'construct': o[1], 'where': o[3],
                         'status': o[2], 'how': o[4][:200]}
                        for o in self.obl][:400],
            'violations': [{'rule': o[0], 'construct': o[1], 'where': o[3],
                            'detail': o[4][:600]} for o in viol],
        }
        ev = {'property': self.prop, 'tier': self.tier, 'seed': seed,
              'level': 'other', 'coverage': cov,
              'assumptions': self.assumptions + self.notes,
              'wall_s': round(time.time() - self.t0, 3),
              'violations': len(viol)}
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'),
                  'w') as f:
            json.dump(ev, f, indent=1)
        for o in kn:
            print('KNOWN-FINDING: property=%s %s|%s %s' % (
                self.prop, o[0], o[1],
                known['%s|%s' % (o[0], o[1].replace(' ', '_'))]))
        for o in und:
            print('UNDECIDED [%s] %s (%s): %s' % (o[0], o[1], o[3],
                                                  o[4][:200]))
        if viol:
            with open(replay, 'w') as f:
                for o in viol:
                    f.write('[%s] %s\n  at %s\n  %s\n  rule: %s\n' % (
                        o[0], o[1], o[3], o[4], self.rules.get(o[0], '')))
            for o in viol:
                print('%s: [%s] %s: %s' % (o[3], o[0], o[1], o[4][:400]))
            print('VIOLATION property=%s replay=%s' % (self.prop, replay))
        elif os.path.exists(replay):
            os.remove(replay)
        for c in dead:
            print('ERROR: positive control %s did not fire' % c)
        print('%s: %d obligations, %d discharged, %d undecided, %d known, '
              '%d violations (%d functions, %.1f s)' % (
                  self.prop, len(self.obl), len(ok), len(und), len(kn),
                  len(viol), len(self.units), time.time() - self.t0))
        return code


def describe(v):
    try:
        if isinstance(v, Poly):
            return al.show(v, 12)[:300]
        if isinstance(v, Arr):
            c = next(iter(v.data.values()))
            return 'array%r of %s' % (tuple(
                d if isinstance(d, int) else al.show(d) for d in v.shape),
                al.show(c, 8)[:260])
    except Exception:          # noqa
        pass
    return repr(v)[:200]


def same_value(got, want, allow=(), **kw):
    if isinstance(want, (int, float, Fraction)) and not isinstance(want, bool):
        want = al.as_poly(want)
    if isinstance(got, Unknown):
        return 'undecided', 'not interpreted: %s' % got.reason
    if isinstance(want, Poly):
        if isinstance(got, Arr):
            if got.shape == ():
                got = got.at(())
            elif all(d == 1 for d in got.shape):
                got = got.at([al.as_poly(0)] * len(got.shape))
        if got is None:
            return 'differ', 'no value instead of %s' % describe(want)
        if not isinstance(got, Poly):
            return 'undecided', 'not a number: %s' % describe(got)
        st, d = pit.compare(got, want, allow=allow, **kw)
        if st == 'differ':
            d += '; code gives %s; required %s' % (describe(got),
                                                   describe(want))
        return st, d
    if isinstance(want, Arr):
        if got is None:
            return 'differ', 'no value instead of an array'
        if not isinstance(got, Arr):
            return 'undecided', 'not an array: %s' % describe(got)
        if len(got.shape) != len(want.shape) or not all(
                same_dim(a, b) for a, b in zip(got.shape, want.shape)):
            return 'differ', 'shape %s instead of %s' % (
                tuple(map(_dim, got.shape)), tuple(map(_dim, want.shape)))
        n = len(want.shape)
        how = 'normal form'
        import itertools
        rng = [range(d) if isinstance(d, int) else [None] for d in want.shape]
        for ix in itertools.product(*rng):
            full = [al.as_poly(x) if x is not None else al.sym(
                'cmp%d' % k, int=True, sign='+0') for k, x in enumerate(ix)]
            ranges = {'cmp%d' % k: want.shape[k] for k, x in enumerate(ix)
                      if x is None}
            st, d = pit.compare(got.at(full), want.at(full), allow=allow,
                                ranges=ranges, **kw)
            if st != 'equal':
                if st == 'differ':
                    d = 'element %s: %s; code gives %s; required %s' % (
                        [x if x is not None else ':' for x in ix], d,
                        describe(got.at(full)), describe(want.at(full)))
                return st, d
            if d != 'normal form':
                how = d
        return 'equal', how
    if isinstance(want, tuple):
        if not isinstance(got, tuple) or len(got) != len(want):
            return 'undecided', 'not a %d-tuple: %s' % (len(want),
                                                        describe(got))
        for k, (g, w) in enumerate(zip(got, want)):
            st, d = same_value(g, w, allow, **kw)
            if st != 'equal':
                return st, 'component %d: %s' % (k, d)
        return 'equal', 'normal form'
    return ('equal', '') if got == want else ('differ', '%r instead of %r'
                                              % (got, want))


def _dim(d):
    return d if isinstance(d, int) else al.show(d)


def val(I, v):
    """Arr/Poly/tuple content of a result."""
    if isinstance(v, (Ref, View)):
        c = I.content(v)
        if isinstance(c, ListC):
            try:
                return I.to_array(v)
            except Imprecise:
                return tuple(val(I, x) for x in c.items)
        if isinstance(c, SymListC):
            try:
                return I.to_array(v)
            except Imprecise as e:
                return Unknown(str(e))
        return c
    if isinstance(v, tuple):
        return tuple(val(I, x) for x in v)
    if isinstance(v, (bool, int, float, Fraction)):
        return al.as_poly(v)
    if isinstance(v, (GIf, Opaque)):
        try:
            return I.num(v)
        except Imprecise as e:
            return Unknown(str(e))
    return v


def run(check, mod, qual, args=(), kwargs=None, models=None, I=None,
        self_=None):
    """Interpret a function abstractly; (interp, value or Unknown)."""
    I = I or check.interp(models)
    try:
        f = I.get(mod, qual)
        r = I.call(f, list(args), dict(kwargs or {}), None)
        r = val(I, r)
    except (Imprecise, Budget, AbsRaise, RecursionError, al.Undefined) as e:
        r = Unknown('%s: %s' % (type(e).__name__, e))
    check.collect(I)
    return I, r


def dim(name):
    return al.sym(name, int=True, sign=1)
