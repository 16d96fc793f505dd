"""Outputs of ab initio codes: what is collected is what they print (P20)."""
from fractions import Fraction

from .. import algebra as al
from ..values import *          # noqa
from ..core import val, Unknown, Poly, Arr
from ..interp import AbsRaise
from .readers import (attempt, attr, expect, outcome, fresh, make, Raised,
                      cm, SYMMETRIC, undec, is_text, rounded)

ZERO = al.as_poly(0)
CRY = 'quantas.interfaces.crystal'
VASP = 'quantas.interfaces.vasp'
PHON = 'quantas.interfaces.phonopy'
NUMBERS = ('12', '8', '14')
KINDS = {'12': 'MG', '8': 'O', '14': 'SI'}
STARS = ' ' + '*' * 79


def lat(i, j, tag='a'):
    if tag == '#':
        return al.as_poly(((0, 5, 6), (4, 0, 7), (3, 8, 0))[i][j])
    return al.sym('%s%d%d' % (tag, i, j), sign=1)


def det(tag='a'):
    m = [[lat(i, j, tag) for j in range(3)] for i in range(3)]
    return al.absolute(m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
            - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def atoms(n):
    return ['     %2d T  %2s %-2s    %.12E  %.12E %.12E' % (
        (i + 1, NUMBERS[i % 3], KINDS[NUMBERS[i % 3]]) + place(i))
            for i in range(n)]


def place(i):
    return (Fraction(1 + i, 64), Fraction(1 + i, 32), Fraction(-3 - i, 128))


def species(n):
    return Arr.build((n,), lambda ix: al.as_poly(int(NUMBERS[int(
        ix[0].const_value()) % 3])))


def places(n):
    return Arr.build((n, 3), lambda ix: al.as_poly(place(int(
        ix[0].const_value()))[int(ix[1].const_value())]))


def vectors(tag='a'):
    return Arr.build((3, 3), lambda ix: lat(
        int(ix[0].const_value()), int(ix[1].const_value()), tag))


def cell_of(c, rule, I, r, attribute, tag, w, want):
    """A cell of a reader: atoms, species, positions, lattice vectors."""
    got = attr(c, I, r, attribute)
    if isinstance(got, Raised):
        c.bad(rule, '%s: %s' % (tag, attribute), w, repr(got))
        return
    if not isinstance(got, (tuple, list)):
        c.undecided(rule, '%s: %s' % (tag, attribute), w, str(got)[:100])
        return
    # a cell is a tuple of distinct kinds of values in a fixed order
    for nm, g, x in zip([k for k, _ in want], got, [x for _, x in want]):
        if x is not None:
            expect(c, rule, '%s: %s of the %s' % (tag, nm, attribute), w,
                   val(I, g), x)


def initial_geometry(n):
    return [' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP', '',
            ' LATTICE PARAMETERS (ANGSTROMS AND DEGREES)',
            ' PRIMITIVE CELL - CENTRING CODE 5/0 VOLUME=    18.896862 - '
            'DENSITY  3.513 g/cm^3',
            '         A              B              C', '     2.9 2.9 2.9',
            STARS, ' ATOMS IN THE ASYMMETRIC UNIT    %d - ATOMS IN THE UNIT '
            'CELL:    %d' % (n, n),
            '     ATOM                 X/A                 Y/B', STARS
            ] + atoms(n) + ['']


def geometry(N, n, first=' GEOMETRY FOR WAVE FUNCTION - DIMENSIONALITY OF '
             'THE SYSTEM    3', tag='a', noise=True):
    t = [first, ' (NON PERIODIC DIRECTION: LATTICE PARAMETER FORMALLY SET TO '
         '500)', STARS,
         ' LATTICE PARAMETERS (ANGSTROMS AND DEGREES) - BOHR = 0.529177 '
         'ANGSTROM',
         ' PRIMITIVE CELL - CENTRING CODE 5/0 VOLUME=    18.896862 - DENSITY'
         '  3.513 g/cm^3',
         '         A              B              C           ALPHA',
         '     2.98975014     2.98975014     2.98975014    60.000000', STARS,
         ' ATOMS IN THE ASYMMETRIC UNIT    %d - ATOMS IN THE UNIT CELL:    %d'
         % (max(1, n - 1), n),
         '     ATOM                 X/A                 Y/B', STARS
         ] + atoms(n) + ['']
    if noise:
        t += [' TRANSFORMATION MATRIX PRIMITIVE-CRYSTALLOGRAPHIC CELL',
              ' -1.0000  1.0000  1.0000  1.0000 -1.0000  1.0000', '']
    t += [' DIRECT LATTICE VECTORS CARTESIAN COMPONENTS (ANGSTROM)',
          '          X                    Y                    Z'] + [
        '   ' + '   '.join(N.text(lat(i, j, tag), '.12E') for j in range(3))
        for i in range(3)] + ['', '']
    return t


def expansion(dim):
    return [STARS, ' * SUPERCELL OPTION', STARS, '',
            ' EXPANSION MATRIX OF PRIMITIVE CELL'] + [
        '   E%d  %8.3f %8.3f %8.3f' % ((i + 1,) + tuple(dim[i]))
        for i in range(3)] + ['', ' NUMBER OF ATOMS PER SUPERCELL 8', '']


def energy_line(N):
    return ['   ATOM      MAX ABS(DGRAD)       TOTAL ENERGY (AU)  N.CYC',
            '    CENTRAL POINT             %s    37     0.0000E+00    48'
            % N.text(al.sym('U', sign=1), '.12E'),
            '    2 O  DX   2.9899E-04      -2.754625418373E+02     6     '
            '8.6363E-07     8', '']


def fq(q, b):
    return al.sym('f_%d_%d' % (q, b))


def groups(nf, split):
    """Degenerate sets: (first, last) modes."""
    r, k = [], 0
    while k < nf:
        s = split[len(r) % len(split)]
        r.append((k, min(nf, k + s) - 1))
        k += s
    return r


def bands(N, nq, nf, split):
    t = [' EIGENVALUES (EIGV) OF THE MASS WEIGHTED HESSIAN MATRIX AND '
         'HARMONIC TRANSVERSE',
         ' OPTICAL (TO) FREQUENCIES. IRREP LABELS REFER TO SYMMETRY', '']
    for q in range(nq):
        if nq > 1:
            t += [' DISPERSION K POINT NUMBER   %4d' % (q + 1), '']
        t += ['    MODES         EIGV          FREQUENCIES     IRREP  IR   '
              'INTENS    RAMAN',
              '             (HARTREE**2)   (CM**-1)     (THZ)']
        for a, b in groups(nf, split):
            t.append('  %3d-%4d    0.3015E-05    %s   11.4250  (Fu )   A ('
                     '  1234.92)   I' % (a + 1, b + 1, N.text(fq(q, a))))
        t += ['', STARS, '']
    return t


def q_mesh(N, nq, hess):
    rows = ['   %3d   C   %s   %d %d %d' % (q + 1, N.text(
        al.sym('w_%d' % q), '.3f'), q % 2, (q + 1) % 2, q) for q in range(nq)]
    t = [' PHONON FREQUENCIES AT A SET OF K POINTS BY USING A SUPERCELL', '']
    if hess:
        t += [' ACTIVATED INTERPOLATION OF THE HESSIAN UP TO    %d K POINTS '
              'IN' % nq] + [' THE IBZ'] * 8
    else:
        t += [' THAT PERMITS THE CALCULATION OF MODES AT    %d K POINTS IN'
              % nq, ' THE IBZ', '', '    K       WEIGHT       COORD']
    t += rows + ['   WITH SHRINKING FACTORS OF IS1 = 2 IS2 = 3 IS3 = 4', '']
    return t


ELEMENTS = '''
H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn
Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La
Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po
At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg
Cn Nh Fl Mc Lv Ts Og'''.split()
DIM = ((2, 0, 0), (0, 3, 0), (0, 0, 1))
SKEW = ((0, 1, 1), (1, 0, 1), (1, 1, 0))
TURNED = ((1, 1, 0), (-1, 1, 0), (0, 0, 2))
LEFT = ((0, 1, 0), (2, 0, 0), (0, 0, 1))


def phonon_file(N, kind, nat=2, nq=1, split=(3, 1, 2), dim=DIM):
    n = abs(int(round(detn(dim))))
    head = [' EEEEEEEEEE STARTING  DATE 26 02 2020 TIME 10:02:56.6', '']
    head += initial_geometry(nat)
    if kind == 'gamma':
        return head + geometry(N, nat) + energy_line(N) + bands(
            N, 1, 3 * nat, split) + [' EEEEEEEEEE TERMINATION']
    head += expansion(dim)
    if kind == 'supercell':
        return head + geometry(N, nat * n) + energy_line(N) + bands(
            N, 1, 3 * nat * n, split)
    return head + q_mesh(N, nq, kind == 'hessian') + geometry(
        N, nat * n, tag='#' if dim is SKEW else 'a') + energy_line(N) + bands(N, nq, 3 * nat, split)


def detn(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
            - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def inverse(m):
    d = detn(m)
    return [[Fraction(m[(j + 1) % 3][(i + 1) % 3] * m[(j + 2) % 3][(i + 2) % 3]
                      - m[(j + 1) % 3][(i + 2) % 3] *
                      m[(j + 2) % 3][(i + 1) % 3], d) for j in range(3)]
            for i in range(3)]


def entry(c, I, r, name, q):
    x = attempt(c, I, lambda: I.subscript(I.get_attr(r, name), al.as_poly(q), None))
    return x if isinstance(x, (Raised, Unknown)) else val(I, x)


def phonon_values(c, I, r, kind, nat, nq, split, tag, w, dim=DIM):
    n = al.as_poly(abs(int(detn(dim))))
    nf = 3 * nat * (int(n.const_value()) if kind == 'supercell' else 1)
    disp = kind in ('hessian', 'points')
    div = n if disp else al.as_poly(1)
    expect(c, 'crystal-phonon', tag + ': volume', w, attr(c, I, r, 'volume'),
           det('#' if dim is SKEW else 'a') / div)
    expect(c, 'crystal-phonon', tag + ': energy', w, attr(c, I, r, 'energy'),
           al.sym('U', sign=1) / div)
    expect(c, 'crystal-phonon', tag + ': atoms', w, attr(c, I, r, 'natom'),
           al.as_poly(nf // 3))
    expect(c, 'crystal-phonon', tag + ': q points', w, attr(
        c, I, r, 'qpoints'), al.as_poly(nq))
    g = {}
    for a, b in groups(nf, split):
        for k in range(a, b + 1):
            g[k] = a
    for q in range(nq):
        expect(c, 'crystal-phonon', tag + ': frequencies of q point %d' % q,
               w, entry(c, I, r, 'phonons', q), Arr.build(
                   (nf,), lambda ix: fq(q, g[int(ix[0].const_value())])))
        expect(c, 'crystal-phonon', tag + ': weight of q point %d' % q, w,
               entry(c, I, r, 'weights', q),
               al.sym('w_%d' % q) if disp else al.as_poly(1))
        if disp:
            got = entry(c, I, r, 'qcoords', q)
            expect(c, 'crystal-phonon', tag + ': coordinates of q point %d'
                   % q, w, got, Arr.build((3,), lambda ix: al.as_poly(
                       [q % 2, (q + 1) % 2, q][int(ix[0].const_value())])))
    lt = '#' if dim is SKEW else 'a'
    inv = inverse(dim)
    big = nf // 3 if not disp else nat * int(n.const_value())
    prim = vectors(lt) if not disp else Arr.build((3, 3), lambda ix: sum(
        (al.as_poly(inv[int(ix[0].const_value())][k]) *
         lat(k, int(ix[1].const_value()), lt) for k in range(3)), ZERO))
    expect(c, 'crystal-phonon', tag + ': lattice vectors', w,
           attr(c, I, r, 'lattice'), prim)
    cell_of(c, 'crystal-phonon', I, r, 'unitcell', tag, w, [
        ('atoms', al.as_poly(nat)), ('species', species(nat)),
        ('positions', places(nat)),
        ('lattice vectors', prim if disp or kind == 'gamma' else None)])
    cell_of(c, 'crystal-phonon', I, r, 'supercell', tag, w, [
        ('atoms', al.as_poly(big)), ('species', species(big)),
        ('positions', places(big)), ('lattice vectors', vectors(lt))])
    expect(c, 'crystal-phonon', tag + ': modes', w,
           attr(c, I, r, 'nphonon'), al.as_poly(nf))
    if kind != 'gamma':
        expect(c, 'crystal-phonon', tag + ': expansion matrix', w,
               attr(c, I, r, 'dim'), Arr.build((3, 3), lambda ix: al.as_poly(
                   dim[int(ix[0].const_value())][int(ix[1].const_value())])))
    if disp:
        expect(c, 'crystal-phonon', tag + ': shrinking factors', w,
               attr(c, I, r, 'shrinkf'), Arr.build(
                   (3,), lambda ix: ix[0] + 2))


def truncations(lines, want=40):
    """Numbers of lines after which the file may end."""
    n = len(lines)
    if n <= want:
        return list(range(1, n))
    return sorted(set([k * n // want for k in range(1, want)] +
                      list(range(n - 12, n))))


def cut(c, rule, mod, cls, path, text, w, tag, complete, extra=None,
        name=None):
    """A file that ends early is refused, or complete; it is not an
    exception."""
    for k in truncations(text, 60 if c.tier == 'quick' else 400):
        I, D, N = fresh(c)
        if extra:
            extra(D)
        D.n = complete['N']
        I.tokens = complete['N']
        D.add(name or path, text[:k])
        r = make(c, I, mod, cls, path)
        what = '%s: ends after %d of %d lines' % (tag, k, len(text))
        if isinstance(r, Raised):
            c.bad(rule, what, w, repr(r))
            continue
        if isinstance(r, Unknown):
            c.undecided(rule, what, w, r.reason[:200])
            continue
        done = attr(c, I, r, 'completed')
        if undec(done):
            c.undecided(rule, what, w, str(done)[:200])
        elif done is True:
            c.need(k in complete['at'] if isinstance(complete['at'], set)
                   else k >= complete['at'], rule, what, w,
                   'accepted although data are missing')
        else:
            err = attr(c, I, r, 'error')
            if done is not False or (undec(err) and not is_text(err)):
                c.undecided(rule, what, w, 'completed=%s error=%s' % (
                    str(done)[:100], str(err)[:100]))
                continue
            c.need(is_text(err), rule, what, w, 'refused without an error '
                   'text: %r' % (err,))


def P_codes(c):
    c.rule('crystal-phonon', 'energy, volume, atoms and expansion of the cell '
           'the frequencies belong to (the primitive cell for dispersion '
           'calculations: supercell values divided by the expansion), '
           'q-points, weights and the frequency of every mode, degenerate '
           'ones repeated')
    c.rule('crystal-qha', 'energies, volumes and frequencies of each volume, '
           'in the order of the volume table, per primitive cell')
    c.rule('soec-output', 'the stiffness matrix in Voigt order in GPa and the '
           'density in kg/m^3')
    c.rule('phonopy', 'energy, cell, q-points, weights and frequencies in '
           'cm^-1')
    c.rule('codes-refuse', 'another file or an incomplete one is refused with '
           'an error text')
    c.rule('elements', 'the symbol of each chemical element and its atomic '
           'number belong together')
    elements(c)
    crystal_phonons(c)
    crystal_qha(c)
    soec_outputs(c)
    foreign(c)
    phonopy(c)


TABLE = ('H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe '
         'Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In '
         'Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf '
         'Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am '
         'Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts '
         'Og').split()


def elements(c):
    mod = 'quantas.utils.chemistry.symbols'
    for z, s in enumerate(TABLE, 1):
        I = c.interp()
        for fn, x, want in (('symbol2number', s, al.as_poly(z)),
                            ('number2symbol', al.as_poly(z), s)):
            w = c.where_func(mod, fn)
            r = attempt(c, I, lambda: I.call(I.get(mod, fn), [x], {}, None))
            tag = '%s of %s (%d)' % (fn, s, z)
            if isinstance(r, Unknown):
                c.undecided('elements', tag, w, r.reason)
            elif isinstance(r, Raised):
                c.bad('elements', tag, w, repr(r))
            elif isinstance(want, str):
                c.need(r == want, 'elements', tag, w, 'gives %r' % (r,))
            else:
                expect(c, 'elements', tag, w, val(I, r), want)


def crystal_phonons(c):
    w = c.where_func(CRY, 'CrystalPhononReader.load')
    plans = [('gamma', 2, 1, (3, 1, 2), DIM), ('gamma', 1, 1, (3,), DIM),
             ('gamma', 3, 1, (1, 2, 3), DIM),
             ('supercell', 1, 1, (3, 1, 2), DIM),
             ('hessian', 2, 3, (1, 2), DIM), ('points', 2, 4, (3, 2, 1), DIM),
             ('points', 1, 2, (1, 2), SKEW), ('points', 1, 1, (3,), TURNED),
             ('points', 1, 2, (1, 2), LEFT), ('points', 1, 5, (3,), TURNED)]
    for kind, nat, nq, split, dim in plans:
        I, D, N = fresh(c)
        D.add('x.out', phonon_file(N, kind, nat, nq, split, dim))
        r = make(c, I, CRY, 'CrystalPhononReader', 'x.out')
        tag = '%s, %d atoms, %d q points%s' % (
            kind, nat, nq, ', skew supercell %s' % (dim[0],) if dim is not DIM else '')
        if outcome(c, 'crystal-phonon', tag, w, I, r, True):
            phonon_values(c, I, r, kind, nat, nq, split, tag, w, dim)
            if kind == 'points':
                rounded(c, 'crystal-phonon', tag, w, I, r, dim)
    for kind, nat, nq in (('gamma', 2, 1), ('points', 1, 3)):
        I, D, N = fresh(c)
        t = phonon_file(N, kind, nat, nq, (1, 2))
        last = max(i for i, x in enumerate(t) if '0.3015E-05' in x) + 1
        cut(c, 'codes-refuse', CRY, 'CrystalPhononReader', 'x.out', t, w,
            'CRYSTAL phonons (%s)' % kind, {'N': N, 'at': last})
        for drop in ('CENTRAL POINT', '(TO) FREQ', 'EIGENVALUES'):
            I, D, _ = fresh(c)
            D.n = I.tokens = N
            D.add('x.out', [x for x in t if drop not in x])
            outcome(c, 'codes-refuse', 'CRYSTAL phonons (%s) without %r'
                    % (kind, drop), w, I, make(
                        c, I, CRY, 'CrystalPhononReader', 'x.out'),
                    drop == '(TO) FREQ')
    for cls in ('CrystalPhononReader', 'CrystalQHAReader',
                'CrystalSOECReader'):
        for t in ([''], ['a text', '1 2 3', '', 'another line']):
            I, D, N = fresh(c)
            D.add('x.out', t)
            outcome(c, 'codes-refuse', '%s: another file (%d lines)' % (
                cls, len(t)), w, I, make(c, I, CRY, cls, 'x.out'), False)


def qha_file(N, nat, nv, nfreq, dim=None, order=None, restart=False):
    order = order or list(range(nv))
    n = abs(int(detn(dim))) if dim else 1
    t = [' EEEEEEEEEE STARTING  DATE 26 02 2020', '']
    t += initial_geometry(nat)
    if restart:
        t += [' READING DATA FROM RESTART UNIT', '']
    t += [' QUASI-HARMONIC APPROXIMATION', '']
    if dim:
        t += expansion(dim)
    for k in order:
        t += geometry(N, nat * n, ' FINAL OPTIMIZED GEOMETRY - DIMENSIONALITY'
                      ' OF THE SYSTEM      3', 'v%d_' % k, False)
    t += [' SORTING VOLUMES/ENERGIES', '', '      VOLUME (A^3)    ENERGY',
          '']
    return t, n


def crystal_qha(c):
    w = c.where_func(CRY, 'CrystalQHAReader.load')
    plans = [(1, 4, None, None), (2, 5, None, [2, 0, 1, 4, 3]),
             (1, 4, ((2, 0, 0), (0, 1, 0), (0, 0, 1)), [3, 1, 0, 2]),
             (1, 4, LEFT, None),
             (1, 7, None, [6, 5, 4, 3, 2, 1, 0])]
    if c.tier != 'quick':
        plans += [(2, 6, SKEW, [5, 3, 1, 0, 2, 4])]
    for nat, nv, dim, order in plans:
        I, D, N = fresh(c)
        t, n = qha_text_out(N, nat, nv, dim, order)
        D.add('x.out', t)
        near(I, nv)
        r = make(c, I, CRY, 'CrystalQHAReader', 'x.out')
        tag = '%d atoms, %d volumes%s%s' % (
            nat, nv, ', supercell' if dim else '',
            ', optimised in the order %s' % order if order else '')
        if not outcome(c, 'crystal-qha', tag, w, I, r, True):
            continue
        P = al.as_poly
        if dim:
            rounded(c, 'crystal-qha', tag, w, I, r, dim)
        expect(c, 'crystal-qha', tag + ': volumes', w,
               attr(c, I, r, 'volume'), Arr.build((nv,), lambda ix: det(
                   'v%d_' % int(ix[0].const_value())) / P(n)))
        expect(c, 'crystal-qha', tag + ': energies', w,
               attr(c, I, r, 'energy'), Arr.build((nv,), lambda ix: al.sym(
                   'U_%d' % int(ix[0].const_value())) / P(n)))
        expect(c, 'crystal-qha', tag + ': atoms', w, attr(c, I, r, 'natom'),
               P(nat))
        expect(c, 'crystal-qha', tag + ': points', w, attr(
            c, I, r, 'points'), P(nv))
        for q in range(n):
            expect(c, 'crystal-qha', tag + ': frequencies, band %d' % q, w,
                   entry(c, I, r, 'phonons', q), Arr.build(
                       (3 * nat, nv), lambda ix: al.sym('f_%d_%d' % (
                           q * 3 * nat + int(ix[0].const_value()),
                           int(ix[1].const_value())))))
            expect(c, 'crystal-qha', tag + ': weight %d' % q, w,
                   entry(c, I, r, 'weights', q), P(1))
    for nv, restart in ((3, False), (5, True), (0, False)):
        I, D, N = fresh(c)
        t, n = qha_text_out(N, 1, nv, None, None, restart)
        D.add('x.out', t)
        near(I, nv)
        outcome(c, 'codes-refuse', 'CRYSTAL QHA with %d volumes%s' % (
            nv, ', restarted' if restart else ''), w, I, make(
                c, I, CRY, 'CrystalQHAReader', 'x.out'), False)
    I, D, N = fresh(c)
    t, n = qha_text_out(N, 1, 4, None, None)
    cut(c, 'codes-refuse', CRY, 'CrystalQHAReader', 'x.out', t, w,
        'CRYSTAL QHA', {'N': N, 'at': len(t) - 2},
        lambda D: near(D.I, 4))


def near(I, nv, renames=(lambda p: p,)):
    """A computed cell volume is close to the volume printed for that cell
    and to no other."""
    sets = [([r(det('v%d_' % k)) for k in range(nv)],
             [r(al.sym('V_%d' % k)) for k in range(nv)]) for r in renames]

    def isclose(I, a, k, n):
        x, y = val(I, a[0]), val(I, a[1])
        if isinstance(x, Poly) and isinstance(y, Poly):
            for p, q in ((x, y), (y, x)):
                for dets, vols in sets:
                    for i, d in enumerate(dets):
                        if al.equal(p, d):
                            for j in range(nv):
                                if al.equal(q, vols[j]):
                                    return i == j
        raise Imprecise('closeness of volumes')
    I.models['numpy.isclose'] = isclose
    I.models['math.isclose'] = isclose


def qha_text_out(N, nat, nv, dim=None, order=None, restart=False):
    t, n = qha_file(N, nat, nv, 3 * nat, dim, order, restart)
    for k in range(nv):
        t.append('   %s   %s' % (N.text(al.sym('V_%d' % k)),
                                 N.text(al.sym('U_%d' % k), '.12E')))
    t += [' ' + '-' * 40, '']
    for b in range(3 * nat * n):
        t += [' FREQUENCY #  %4d' % (b + 1), '',
              '       VOLUME     FREQUENCY']
        for k in range(nv):
            t.append('   %s   %s' % (N.text(al.sym('V_%d' % k)), N.text(
                al.sym('f_%d_%d' % (b, k)))))
        t.append('')
    t += [' EEEEEEEEEE TERMINATION']
    return t, n


def elastic_text(N):
    t = [' EEEEEEEEEE STARTING', '', ' ELASTCON OPTION', '',
         ' PRIMITIVE CELL - CENTRING CODE 5/0 VOLUME=    20.0 - DENSITY'
         '  9.999 g/cm^3', '',
         ' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP', '',
         ' PRIMITIVE CELL - CENTRING CODE 5/0 VOLUME=    18.896862 - '
         'DENSITY  %s g/cm^3' % N.text(al.sym('rho', sign=1)), '',
         ' FINAL RESULTS START', '',
         ' SYMMETRIZED ELASTIC CONSTANTS FOR CUBIC        CASE, IN GPa', '']
    for i in range(6):
        t.append(' | ' + ' ' * 10 * i + ' '.join(N.text(
            cm(i, j)) for j in range(i, 6)) + ' |')
    return t + ['', ' TTTTT END', ' PRIMITIVE CELL - CENTRING CODE 5/0 '
                'VOLUME=    19.0 - DENSITY  1.111 g/cm^3']


def foreign(c):
    """Complete outputs of one kind given to the reader of another kind, and
    outputs that lack the header of their kind."""
    def texts(N):
        q = qha_text_out(N, 1, 4, None, None)[0]
        e = elastic_text(N)
        return {
            'CRYSTAL phonons': phonon_file(N, 'gamma', 2, 1, (1, 2)),
            'CRYSTAL dispersion': phonon_file(N, 'points', 1, 3, (1, 2)),
            'CRYSTAL QHA': q,
            'CRYSTAL QHA, no header': [
                x for x in q if 'QUASI-HARMONIC' not in x.upper()],
            'CRYSTAL elastic constants': e,
            'CRYSTAL elastic constants, no option line': [
                x for x in e if 'ELASTCON' not in x],
            'CRYSTAL elastic constants, not finished': [
                x for x in e if 'FINAL RESULTS' not in x]}
    own = {'CrystalPhononReader': ('CRYSTAL phonons', 'CRYSTAL dispersion'),
           'CrystalQHAReader': ('CRYSTAL QHA',),
           'CrystalSOECReader': ('CRYSTAL elastic constants',),
           'VASPSOECReader': ()}
    for cls, mine in own.items():
        mod = VASP if cls.startswith('VASP') else CRY
        w = c.where_func(mod, cls + '.load')
        N0 = fresh(c)[2]
        for name in texts(N0):
            if name in mine:
                continue
            I, D, N = fresh(c)
            D.add('x.out', texts(N)[name])
            if 'QHA' in name:
                near(I, 4)
            outcome(c, 'codes-refuse', '%s given %s' % (cls, name), w, I,
                    make(c, I, mod, cls, 'x.out'), False)


def soec_outputs(c):
    rho = al.sym('rho', sign=1)
    w = c.where_func(CRY, 'CrystalSOECReader.load')

    crystal = elastic_text

    I, D, N = fresh(c)
    D.add('x.out', crystal(N))
    r = make(c, I, CRY, 'CrystalSOECReader', 'x.out')
    if outcome(c, 'soec-output', 'CRYSTAL', w, I, r, True):
        expect(c, 'soec-output', 'CRYSTAL stiffness', w, attr(
            c, I, r, 'stiffness'), SYMMETRIC)
        expect(c, 'soec-output', 'CRYSTAL density', w, attr(
            c, I, r, 'density'), 1000 * rho)
    t = crystal(N)
    at = max(i for i, x in enumerate(t) if '|' in x) + 1
    cut(c, 'codes-refuse', CRY, 'CrystalSOECReader', 'x.out', t, w,
        'CRYSTAL elastic constants', {'N': N, 'at': at})
    # VASP: XX YY ZZ XY YZ ZX, kBar
    order = [0, 1, 2, 5, 3, 4]
    names = ['XX', 'YY', 'ZZ', 'XY', 'YZ', 'ZX']
    w = c.where_func(VASP, 'VASPSOECReader.load')

    def table(N, head, sym=cm):
        return [head, ' Direction    XX          YY          ZZ          XY'
                '          YZ          ZX', ' ' + '-' * 80] + [
            ' %s  ' % names[i] + ' '.join(N.text(sym(order[i], order[j]))
                                          for j in range(6))
            for i in range(6)] + [' ' + '-' * 80, '']

    def other(tag):
        return lambda i, j: al.sym('%s%d%d' % (tag, min(i, j), max(i, j)))
    for tag, total in (('VASP, clamped ions only', False),
                       ('VASP, with ionic relaxation', True)):
        I, D, N = fresh(c)
        t = [' vasp.5.4.4', '', ' ELASTIC MODULI  (kBar)', ''] + table(
            N, ' ELASTIC MODULI  (kBar)', other('raw'))[1:] + table(
            N, ' SYMMETRIZED ELASTIC MODULI (kBar)',
            other('clamp') if total else cm)
        if total:
            t += table(N, ' ELASTIC MODULI CONTR FROM IONIC RELAXATION '
                       '(kBar)', other('ion'))
            t += table(N, ' TOTAL ELASTIC MODULI (kBar)')
        last = len(t) - 2
        t += [' General timing and accounting informations', '']
        D.add('OUTCAR', t)
        r = make(c, I, VASP, 'VASPSOECReader', 'OUTCAR')
        if outcome(c, 'soec-output', tag, w, I, r, True):
            expect(c, 'soec-output', tag + ' stiffness', w, attr(
                c, I, r, 'stiffness'), Arr.build(
                    (6, 6), lambda ix: cm(*[int(x.const_value())
                                            for x in ix]) / 10))
        if not total:
            cut(c, 'codes-refuse', VASP, 'VASPSOECReader', 'OUTCAR', t, w,
                tag, {'N': N, 'at': last})
    for t in ([''], ['a text', 'x']):
        I, D, N = fresh(c)
        D.add('OUTCAR', t)
        outcome(c, 'codes-refuse', 'VASP: another file (%d lines)' % len(t),
                w, I, make(c, I, VASP, 'VASPSOECReader', 'OUTCAR'), False)


def phonopy(c):
    w = c.where_func(PHON, 'PhonopyReader.load')
    from .units import FREQ
    nq, nat = 3, 2
    texts = {}

    def unparsed(I, a, k, n):
        raise AbsRaise(Opaque(('exc', 'ParseError')), n)

    def files_of(D, N, xml=True, disp=True, main=True, energy=None,
                 stem='x', ext='.yaml', dim=DIM):
        rows = ['- [ %s ]' % ', '.join(N.text(lat(i, j)) for j in range(3))
                for i in range(3)]
        t = ['mesh: [ 4, 4, 4 ]', 'nqpoint: %d' % nq, 'natom: %d' % nat,
             'lattice:'] + rows + ['points:']
        for i, s in enumerate(('Mg', 'O')):
            t += ['- symbol: %s' % s, '  coordinates: [ %s ]' % ', '.join(
                '%.12f' % x for x in place(i))]
        t += ['', 'phonon:']
        for q in range(nq):
            t += ['- q-position: [ 0.0, 0.5, 0.%d ]' % q,
                  '  weight: %s' % N.text(al.sym('w_%d' % q, int=True), 'd',
                                          True), '  band:']
            for b in range(3 * nat):
                t += ['  - # %d' % (b + 1), '    frequency: %s' % N.text(
                    fq(q, b))]
            t.append('')
        texts['x.yaml'] = t
        if main:
            D.add(stem + ext, t)
        if disp:
            texts['x_disp.yaml'] = d = ['supercell_matrix:'] + [
                '- [ %d, %d, %d ]' % x for x in dim] + [
                'supercell:', '  lattice:'] + [
                '  - [ %d.0, 0.0, 1.0 ]' % i for i in range(3)] + [
                '  points:']
            for i in range(nat * 6):
                d += ['  - symbol: %s' % ('Mg', 'O')[i % 2],
                      '    coordinates: [ %s ]' % ', '.join(
                          '%.12f' % x for x in place(i))]
            D.add(stem + '_disp.yaml', d)
        if xml:
            D.add(stem + '.xml', ['<modeling>'])
        root = Opaque(('xml root',), attrs={
            'findall': Ext('mock.findall')})

        def elem(name, v):
            return Opaque(('i', name, repr(v)), attrs={
                'attrib': D.I.new_dict({'name': name}),
                'text': energy or N.text(v, '.8f'), 'get': Ext('mock.get.' + name)})
        els = []
        for k, v in enumerate((al.sym('U_first'), al.sym('U', sign=1))):
            els += [elem('e_fr_energy', al.sym('Ufr%d' % k)),
                    elem('e_wo_entrp', v),
                    elem('e_0_energy', al.sym('U0%d' % k))]
        for nm in ('e_fr_energy', 'e_wo_entrp', 'e_0_energy'):
            D.I.models['mock.get.' + nm] = \
                lambda I, a, k, n, nm=nm: nm if a[0] == 'name' else None
        D.I.models['mock.findall'] = lambda I, a, k, n: I.new_list(els)
        D.I.models['mock.iterfind'] = D.I.models['mock.findall']
        D.I.models['xml.etree.ElementTree.parse'] = \
            lambda I, a, k, n: Opaque(('tree',), attrs={
                'getroot': Ext('mock.root'), 'findall': Ext('mock.findall')})
        D.I.models['mock.root'] = lambda I, a, k, n: root
    for xml in (True, False):
        I, D, N = fresh(c)
        files_of(D, N, xml)
        r = make(c, I, PHON, 'PhonopyReader', 'x.yaml')
        tag = 'phonopy' + ('' if xml else ' without energy')
        if not outcome(c, 'phonopy', tag, w, I, r, True):
            continue
        rounded(c, 'phonopy', tag, w, I, r, ((2, 0, 0), (0, 3, 0), (0, 0, 1)))
        expect(c, 'phonopy', tag + ': volume', w, attr(c, I, r, 'volume'),
               det())
        expect(c, 'phonopy', tag + ': energy', w, attr(c, I, r, 'energy'),
               al.sym('U', sign=1) if xml else ZERO)
        for nm, x in (('natom', nat), ('qpoints', nq),
                      ('nphonon', 3 * nat)):
            expect(c, 'phonopy', '%s: %s' % (tag, nm), w, attr(
                c, I, r, nm), al.as_poly(x))
        expect(c, 'phonopy', tag + ': expansion', w, attr(c, I, r, 'dim'),
               Arr.build((3, 3), lambda ix: al.as_poly(DIM[int(
                   ix[0].const_value())][int(ix[1].const_value())])))
        kinds = lambda n: Arr.build((n,), lambda ix: al.as_poly(
            (12, 8)[int(ix[0].const_value()) % 2]))
        cell_of(c, 'phonopy', I, r, 'unitcell', tag, w, [
            ('atoms', al.as_poly(nat)), ('lattice vectors', vectors()),
            ('positions', places(nat)), ('species', kinds(nat))])
        cell_of(c, 'phonopy', I, r, 'supercell', tag, w, [
            ('lattice vectors', Arr.build((3, 3), lambda ix: al.as_poly(
                (ix[0] if ix[1].const_value() == 0 else
                 ix[1] - 1)))),
            ('positions', places(nat * 6)), ('species', kinds(nat * 6))])
        for q in range(nq):
            expect(c, 'phonopy', '%s: coordinates of q point %d' % (tag, q),
                   w, entry(c, I, r, 'qcoords', q), Arr.build(
                       (3,), lambda ix: al.as_poly((
                           0, Fraction(1, 2), Fraction(q, 10))[int(
                               ix[0].const_value())])))
        k = FREQ['THz'][0] / FREQ['cm^-1'][0]
        for q in range(nq):
            expect(c, 'phonopy', '%s: frequencies of q point %d' % (tag, q),
                   w, entry(c, I, r, 'phonons', q), Arr.build(
                       (3 * nat,), lambda ix: k * fq(q, int(
                           ix[0].const_value()))))
            expect(c, 'phonopy', '%s: weight of q point %d' % (tag, q), w,
                   entry(c, I, r, 'weights', q),
                   al.sym('w_%d' % q, int=True))
    # other names, other cells
    for stem, ext, dim in (('runs.1/ph', '.yaml', SKEW),
                           ('old.yaml/v 2.yaml', '.yaml', TURNED),
                           ('../MgO.b', '.yml', LEFT)):
        I, D, N = fresh(c)
        files_of(D, N, stem=stem, ext=ext, dim=dim)
        r = make(c, I, PHON, 'PhonopyReader', stem + ext)
        tag = 'phonopy file %r' % (stem + ext)
        if outcome(c, 'phonopy', tag, w, I, r, True):
            expect(c, 'phonopy', tag + ': energy', w, attr(
                c, I, r, 'energy'), al.sym('U', sign=1))
            expect(c, 'phonopy', tag + ': number of cells', w, attr(
                c, I, r, 'kpoints'), al.as_poly(abs(detn(dim))))
    # every element
    I, D, N = fresh(c)
    t = ['nqpoint: 0', 'natom: %d' % len(ELEMENTS), 'lattice:'] + [
        '- [ %d.0, 0.0, 1.0 ]' % i for i in range(3)] + ['points:']
    for s in ELEMENTS:
        # a text that YAML would take for something else is quoted
        t += ["- symbol: '%s'" % s, '  coordinates: [ 0.0, 0.0, 0.0 ]']
    files_of(D, N)
    D.add('x.yaml', t + ['phonon: []'])
    r = make(c, I, PHON, 'PhonopyReader', 'x.yaml')
    if outcome(c, 'phonopy', 'phonopy, all elements', w, I, r, True):
        cell_of(c, 'phonopy', I, r, 'unitcell', 'phonopy, all elements', w, [
            ('atoms', al.as_poly(len(ELEMENTS))), ('', None), ('', None),
            ('species', Arr.build((len(ELEMENTS),), lambda ix: ix[0] + 1))])
    # files that end early
    I, D, N = fresh(c)
    files_of(D, N)
    for p, q in (('x.yaml', 'x_disp.yaml'), ('x_disp.yaml', 'x.yaml')):
        text = texts[p]
        full = max(k for k, l in enumerate(text) if l.strip())
        at = {k for k in range(full + 1, len(text) + 1)}
        if p == 'x_disp.yaml':     # any number of complete atoms
            at |= {k + 1 for k, l in enumerate(text)
                   if l.strip().startswith('coordinates')}
        cut(c, 'codes-refuse', PHON, 'PhonopyReader', 'x.yaml', text, w,
            'phonopy, ' + p, {'N': N, 'at': at}, name=p,
            extra=lambda D, q=q: D.add(q, texts[q]))
    for tag, what in (('cut short', None), ('with an energy that overflows',
                                            '********')):
        I, D, N = fresh(c)
        files_of(D, N, energy=what or '1.0')
        if what is None:
            I.models['xml.etree.ElementTree.parse'] = unparsed
        outcome(c, 'codes-refuse', 'phonopy, VASP file ' + tag, w, I, make(
            c, I, PHON, 'PhonopyReader', 'x.yaml'), False)
    for tag, kw in (('displacements', {'disp': False}),
                    ('phonopy output', {'main': False})):
        I, D, N = fresh(c)
        files_of(D, N, **kw)
        outcome(c, 'codes-refuse', 'phonopy without ' + tag, w, I, make(
            c, I, PHON, 'PhonopyReader', 'x.yaml'), False)


CHECKS = {'P20': P_codes}
