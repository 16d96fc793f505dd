"""Files are written anew and completely; what is read is left alone (P30)."""
from .. import algebra as al
from .. import files
from ..core import Check, Unknown
from ..values import *          # noqa
from . import readers, codes, exports, state, ha
from .readers import attempt, fresh, Raised

OLD = 'what was in the file before\n' * 3000     # longer than any new one
ZERO = al.as_poly(0)


def describe(h):
    return '%s opened with mode %r' % (h.path if isinstance(
        h.path, str) else 'file', h.mode)


def closed(c, tag, w, I, handles):
    left = [h for h in handles if h.held(I)]
    c.need(not left, 'complete', tag, w, 'left open: %s' % ', '.join(
        describe(h) for h in left))


# ---------------------------------------------------------------- HDF5 files
def results_file(c, rule, keep, tag, w, env, act):
    """The results file of a calculator: alone, and over an older one."""
    names = ()
    for old in (False, True):
        I, e = env()
        x = attempt(c, I, lambda: act(I, e, 'A'))
        t = '%s%s' % (tag, ', over an older file' if old else '')
        if isinstance(x, (Raised, Unknown)):
            c.undecided('fresh', t, w, str(x)[:200])
            return
        F = ha.File()
        F.old = tuple(names) + (('of another run',) if old else ())
        F.install(I)
        r = attempt(c, I, lambda: I.call(I.get_attr(x, 'export_hdf5'),
                                         ['out.hdf5'], {}, None))
        if isinstance(r, Raised):
            c.bad('fresh', t, w, repr(r))
            continue
        if isinstance(r, Unknown):
            c.undecided('fresh', t, w, r.reason[:200])
            continue
        if not old:
            names = sorted(F.sets)
            c.need(names, 'fresh', t, w, 'nothing is written')
        else:
            stale = [k for k in F.sets if F.sets[k][0] is None]
            c.need(not stale and sorted(F.sets) == names, 'fresh', t, w,
                   'holds %s' % ', '.join(stale or sorted(F.sets)))
        closed(c, t, w, I, F.handles)


# ---------------------------------------------------------------- text files
def text_file(c, tag, w, path, go):
    """go() -> (I, D, result); the text with and without an older file."""
    want = None
    for old in (False, True):
        files.Disk.old = [OLD] if old else None
        try:
            I, D, N, r = go(old)
        finally:
            files.Disk.old = None
        t = '%s%s' % (tag, ', over an older file' if old else '')
        if isinstance(r, Raised):
            c.bad('fresh', t, w, repr(r))
            return
        if isinstance(r, Unknown):
            c.undecided('fresh', t, w, r.reason[:200])
            return
        if path not in D.out:
            c.bad('fresh', t, w, '%s is not written' % path)
            return
        try:
            text = D.text(path)
        except (Imprecise, TypeError) as e:
            c.undecided('fresh', t, w, str(e)[:200])
            return
        text = state.words(text, N)
        if not old:
            want = text
            c.need(text, 'fresh', t, w, 'the file is empty')
        else:
            c.need(text == want, 'fresh', t, w, 'the file starts with %r' %
                   ' '.join(text[:8]) if text[:8] != want[:8] else
                   'the older file is left behind the new text')
        closed(c, t, w, I, D.handles)


def generated(c):
    w = c.where_func(readers.SOECW, 'SOECInputCreator.write')
    for iface in ('crystal', 'vasp'):
        def go(old):
            I, D, N = fresh(c)
            n = {'crystal': 'quantas.interfaces.crystal.CrystalSOECReader',
                 'vasp': 'quantas.interfaces.vasp.VASPSOECReader'}[iface]
            I.models[n] = lambda I, a, k, node: Opaque(
                ('source', iface, a[0]), attrs={
                    'completed': True, 'error': None,
                    'density': al.sym('rho', sign=1),
                    'stiffness': I.alloc(readers.SYMMETRIC)})

            def act():
                g = I.call(I.get(readers.SOECW, 'SOECInputCreator'),
                           [iface], {}, None)
                I.call(I.get_attr(g, 'read'), ['out'], {}, None)
                I.call(I.get_attr(g, 'write'), ['new.dat', 'job'], {}, None)
                return g
            return I, D, N, attempt(c, I, act)
        text_file(c, 'elastic input from ' + iface, w, 'new.dat', go)
    w = c.where_func(readers.QHAW, 'QHAInputCreator.write')
    names = {'crystal': 'quantas.interfaces.crystal.CrystalPhononReader',
             'crystal-qha': 'quantas.interfaces.crystal.CrystalQHAReader',
             'phonopy': 'quantas.interfaces.phonopy.PhonopyReader'}
    for iface in sorted(names):
        def go(old):
            I, D, N = fresh(c)
            D.add('list.txt', ['o%d.out' % k for k in range(4)])
            for k in range(4):
                D.add('o%d.out' % k, ['x'])
            D.add('one.out', ['x'])
            I.models[names[iface]] = lambda I, a, k, node: readers.source(
                I, 'all', 0, 2, 1, 4) if iface == 'crystal-qha' else \
                readers.source(I, 'one', int(a[0][1]), 2, 1, 4)
            for q in ('builtin.input', 'click.prompt'):
                I.models[q] = lambda I, a, k, n: 'job'

            def act():
                g = I.call(I.get(readers.QHAW, 'QHAInputCreator'), [iface],
                           {}, None)
                I.call(I.get_attr(g, 'read'), ['one.out', False]
                       if iface == 'crystal-qha' else
                       ['list.txt', True, ZERO], {}, None)
                I.call(I.get_attr(g, 'write'), ['new.yaml', ZERO], {}, None)
                return g
            return I, D, N, attempt(c, I, act)
        text_file(c, '(Q)HA input from ' + iface, w, 'new.yaml', go)


def tables(c):
    for mod, cls, sets, keys in (
            (exports.HAX, 'QuantasHarmonicExport', exports.ha_sets(3, 2),
             ('U0', 'Uzp', 'F', 'S')),
            (exports.QHX, 'QuantasQHAExport', exports.qha_sets(3, 2),
             ('VT', 'G', 'gruneisen')),
            (exports.SOX, 'QuantasSOECExport', exports.soec_sets(4),
             ('E', 'Nu', 'waves'))):
        w = c.where_func(mod, cls + '.run')
        for key in keys:
            path = 'res_%s.dat' % key

            def go(old):
                I, D, N, r, asked = exports.export_run(
                    c, mod, cls, 'info', sets, key, [path] if old else (),
                    True)
                return I, D, N, r
            text_file(c, 'table of %s (%s)' % (key, cls), w, path, go)


# ------------------------------------------------------------------- inputs
def read_only(c):
    """Every input of every reader and exporter, over all their layouts."""
    for tag, mod, cls, f in (
            ('elastic and generated input', readers.SOEC,
             'SOECInputFileReader', readers.P_soec),
            ('EoS input', readers.EOSR, 'EoSInputFileReader', readers.P_eos),
            ('(Q)HA and generated input', readers.QHAR, 'QHAInputFileReader',
             readers.P_qhar),
            ('outputs of ab initio codes', 'quantas.interfaces.crystal',
             'CrystalPhononReader', codes.P_codes)):
        del files.Disk.all[:]
        sub = Check(c.prop, c.tier, c.P)
        f(sub)
        c.units |= sub.units
        seen = 0
        bad = {}
        for D in files.Disk.all:
            for h in D.handles:
                if h.path in D.given:
                    seen += 1
                    if set(h.mode) & set('wax+'):
                        bad[describe(h)] = h
        w = c.where_func(mod, cls + '.load')
        if not seen:
            c.undecided('read-only', tag, w, 'no file was opened')
            continue
        c.need(not bad, 'read-only', '%s (%d openings)' % (tag, seen) if
               not bad else tag, w, '; '.join(sorted(bad)[:4]))
    for mod, cls, sets in (
            (exports.HAX, 'QuantasHarmonicExport', exports.ha_sets(3, 2)),
            (exports.QHX, 'QuantasQHAExport', exports.qha_sets(3, 2)),
            (exports.SOX, 'QuantasSOECExport', exports.soec_sets(4))):
        w = c.where_func(mod, cls + '.load')
        for info, S in (('info', sets), (None, sets), ('info', {})):
            del exports.Store.all[:]
            I, D, N, r, asked = exports.export_run(
                c, mod, cls, info, S, 'E' if mod == exports.SOX else 'F')
            hs = [h for s in exports.Store.all for h in s.handles]
            t = 'results file read by %s%s' % (
                cls, '' if info and S else ' (refused)')
            if not hs:
                c.undecided('read-only', t, w, 'not opened: %s' % str(r)[:150])
                continue
            c.need(all(h.mode == 'r' for h in hs), 'read-only', t, w,
                   '; '.join(describe(h) for h in hs))
            if isinstance(r, Raised):
                c.bad('complete', t, w, repr(r))
            else:
                closed(c, t, w, I, hs)


def P_outputs(c):
    c.rule('fresh', 'a results, table or input file written over an older '
           'file of that name holds the same as one written where there was '
           'none')
    c.rule('complete', 'when writing or reading ended no object keeps the '
           'file open, so all that was written is in the file')
    c.rule('read-only', 'files that are read are opened for reading only')
    state.ha_history(c, results_file)
    state.qha_history(c, results_file)
    state.soec_history(c, results_file)
    generated(c)
    tables(c)
    read_only(c)


CHECKS = {'P30': P_outputs}
