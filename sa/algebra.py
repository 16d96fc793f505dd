"""Canonical algebra used by the value-flow analysis.

A value is a generalised Laurent polynomial: a finite sum of monomials with
rational coefficients, where a monomial is a product of *atoms* raised to
rational exponents.  Atoms are symbols, uninterpreted applications, sin/cos/log
of canonical values, exponentials of single monomials, and "sum" atoms (a
multi-term polynomial used as the base of a negative or fractional power).

Two expressions are equal when the difference normalises to the empty sum.  No
expression is ever evaluated numerically, nothing is executed, and no solver is
involved: the module only rewrites expression graphs that were read from the
source.

Decimal literals are taken as exact rationals; symbols that are raised to
fractional powers or put under a logarithm are taken as positive, which is the
domain of definition of the real expressions concerned.
"""
from fractions import Fraction

_ATOMS = {}        # key -> id
_KEYS = []         # id -> key
_INFO = []         # id -> dict of attributes


def atom(key, **info):
    """Intern an atom and return its id."""
    i = _ATOMS.get(key)
    if i is None:
        i = len(_KEYS)
        _ATOMS[key] = i
        _KEYS.append(key)
        _INFO.append(dict(info))
    elif info:
        _INFO[i].update(info)
    return i


def atom_key(i):
    return _KEYS[i]


def atom_info(i):
    return _INFO[i]


class Undefined(Exception):
    """A division by the zero polynomial, log(0)..."""


class Poly(object):
    __slots__ = ('t', '_h', '_x', '_a')

    def __init__(self, terms=None):
        self.t = terms or {}
        self._h = None
        self._x = None
        self._a = None

    # -- construction -------------------------------------------------------
    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c}) if c else Poly()

    @staticmethod
    def of_atom(i, e=1):
        return Poly({((i, Fraction(e)),): Fraction(1)})

    # -- inspection ---------------------------------------------------------
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        if not self.t:
            return Fraction(0)
        if self.is_const():
            return self.t[()]
        return None

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def __hash__(self):
        if self._x is None:
            self._x = hash(frozenset(self.t.items()))
        return self._x

    def __eq__(self, other):
        return self is other or (isinstance(other, Poly) and
                                 self.t == other.t)

    def atoms(self):
        out = set()
        for m in self.t:
            for a, _ in m:
                out.add(a)
        return out

    def all_atoms(self):
        """Every atom, including those nested inside other atoms."""
        if self._a is None:
            out = set()
            for m in self.t:
                for a, _ in m:
                    if a not in out:
                        out |= deep(a)
            self._a = frozenset(out)
        return self._a

    # -- arithmetic ---------------------------------------------------------
    def __add__(self, o):
        o = as_poly(o)
        if len(o.t) > len(self.t):
            a, b = o.t, self.t
        else:
            a, b = self.t, o.t
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-as_poly(o))

    def __rsub__(self, o):
        return as_poly(o) - self

    def __mul__(self, o):
        o = as_poly(o)
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return _reduce(Poly(r))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * power(as_poly(o), Fraction(-1))

    def __rtruediv__(self, o):
        return as_poly(o) * power(self, Fraction(-1))

    def __pow__(self, e):
        return power(self, e)

    def __repr__(self):
        return show(self)


def as_poly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return Poly.const(int(x))
    if isinstance(x, (int, Fraction)):
        return Poly.const(x)
    if isinstance(x, float):
        return Poly.const(Fraction(repr(x)))
    raise TypeError(repr(x))


def sym(name, **info):
    return Poly.of_atom(atom(('sym', name), **info))


def let(p, limit=2):
    """A value kept folded: one atom standing for a large term."""
    if len(p.t) <= limit:
        return p
    return app('let', p)


def app(name, *args, **info):
    """Uninterpreted application; args are Poly or hashable keys."""
    key = ('app', name) + tuple(args)
    return Poly.of_atom(atom(key, **info))


_DEEP = {}


def deep(a):
    """The atom and every atom nested in it."""
    r = _DEEP.get(a)
    if r is None:
        out = {a}
        for p in _nested(a):
            out |= p.all_atoms()
        r = _DEEP[a] = frozenset(out)
    return r


_NESTED = {}


def _nested(a):
    r = _NESTED.get(a)
    if r is None:
        r = _NESTED[a] = _nested_of(a)
    return r


def _nested_of(a):
    out = []

    def walk(x):
        if isinstance(x, Poly):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    k = atom_key(a)
    walk(k)
    return out


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


_IND = ('lt0', 'eq0', 'truth')


def _is_ind(a):
    return _KEYS[a][0] in _IND


def _reduce_ind(p):
    """Indicators are idempotent; [u<0][u=0] = 0."""
    need = False
    for m in p.t:
        for a, e in m:
            if _KEYS[a][0] in _IND:
                need = True
                break
        if need:
            break
    if not need:
        return p
    out = {}
    for m, c in p.t.items():
        mm = m
        if any(e != 1 and _is_ind(a) for a, e in m):
            mm = tuple((a, Fraction(1) if _is_ind(a) else e) for a, e in m)
        lts = [_KEYS[a][1] for a, e in mm if _KEYS[a][0] == 'lt0']
        if lts:
            eqs = [_KEYS[a][1] for a, e in mm if _KEYS[a][0] == 'eq0']
            if any(u in eqs for u in lts):
                continue
        v = out.get(mm, 0) + c
        if v:
            out[mm] = v
        else:
            out.pop(mm, None)
    return Poly(out)


def indicators(p):
    return sorted(a for a in p.atoms() if _is_ind(a))


def cofactors(p, a):
    """(p with [a]=1, p with [a]=0)"""
    k = _KEYS[a]
    hi, lo = {}, {}
    for m, c in p.t.items():
        d = dict(m)
        if a in d:
            d.pop(a)
            mm = tuple(sorted(d.items()))
            hi[mm] = hi.get(mm, 0) + c
        else:
            hi[m] = hi.get(m, 0) + c
            lo[m] = lo.get(m, 0) + c
    hi = Poly({m: c for m, c in hi.items() if c})
    lo = Poly({m: c for m, c in lo.items() if c})
    if k[0] in ('lt0', 'eq0'):
        other = _ATOMS.get(('eq0' if k[0] == 'lt0' else 'lt0', k[1]))
        if other is not None and other in hi.atoms():
            hi = Poly({m: c for m, c in hi.t.items()
                       if other not in dict(m)})
    return hi, lo


UNDEF = None


def shannon(fn, p):
    """Apply a non-polynomial function under the indicators of p."""
    inds = indicators(p)
    if not inds:
        try:
            return fn(p)
        except Undefined:
            return sym('undefined')
    a = inds[0]
    hi, lo = cofactors(p, a)
    A = Poly.of_atom(a)
    return A * shannon(fn, hi) + (Poly.const(1) - A) * shannon(fn, lo)


def _strip(p):
    """Divide by the positive content; returns (canonical p, +1/-1)."""
    sgn = 1
    common = None
    for m in p.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(common[a], d[a]) for a in common if a in d}
    if common:
        rem = {}
        for a, e in common.items():
            if e == 0:
                continue
            sa = _asign(a)
            if sa == 1 or (sa == -1 and e.denominator == 1):
                rem[a] = -e
                if sa == -1 and e % 2:
                    sgn = -sgn
        if rem:
            p = p * Poly({tuple(sorted(rem.items())): Fraction(1)})
    c = p.t[_lead(p)]
    if c < 0:
        p, sgn = -p, -sgn
    c = abs(c)
    if c != 1:
        p = p * Poly.const(1 / c)
    return p, sgn


def eq0(p):
    """Indicator of p == 0."""
    if indicators(p):
        return _split_ind(eq0, p)
    s = sign(p)
    if s == 0:
        return Poly.const(1)
    if s in (1, -1):
        return Poly()
    q, _ = _strip(p)
    return Poly.of_atom(atom(('eq0', q), sign='+0'))


def lt0(p):
    """Indicator of p < 0."""
    if indicators(p):
        return _split_ind(lt0, p)
    s = sign(p)
    if s in (0, 1, '+0'):
        return Poly()
    if s == -1:
        return Poly.const(1)
    if s == '-0':
        return Poly.const(1) - eq0(p)
    q, sg = _strip(p)
    L = Poly.of_atom(atom(('lt0', q), sign='+0'))
    if sg > 0:
        return L
    return Poly.const(1) - L - eq0(q)


def _split_ind(fn, p):
    a = indicators(p)[0]
    hi, lo = cofactors(p, a)
    A = Poly.of_atom(a)
    return A * fn(hi) + (Poly.const(1) - A) * fn(lo)


def truth(key):
    return Poly.of_atom(atom(('truth', key), sign='+0'))


def ite(c, a, b):
    if c.const_value() == 1:
        return a
    if c.const_value() == 0:
        return b
    return c * a + (Poly.const(1) - c) * b


_TRIG = {}


def _reduce(p):
    """sin(x)^n with n >= 2 is rewritten through 1 - cos(x)^2; integer powers
    of sum atoms that became non-negative are expanded."""
    p = _reduce_ind(p)
    while True:
        hit = None
        for m in p.t:
            for a, e in m:
                k = atom_key(a)
                if k[0] == 'sin' and e >= 2 and e.denominator == 1:
                    hit = (m, a, e, 'sin')
                    break
                if k[0] == 'sum' and e > 0 and e.denominator == 1 and e <= 16:
                    hit = (m, a, e, 'sum')
                    break
            if hit:
                break
        if not hit:
            return p
        _, a, _, kind = hit
        out = Poly()
        rest = {}
        groups = {}
        for m, c in p.t.items():
            e = dict(m).get(a, Fraction(0))
            if kind == 'sin' and e >= 2 and e.denominator == 1:
                groups.setdefault(e, {})[m] = c
            elif kind == 'sum' and e > 0 and e.denominator == 1 and e <= 16:
                groups.setdefault(e, {})[m] = c
            else:
                rest[m] = c
        out = Poly(rest)
        for e, terms in groups.items():
            if kind == 'sin':
                half = e // 2
                rem = e - 2 * half
                cosx = Poly.of_atom(atom(('cos', atom_key(a)[1])))
                factor = power(Poly.const(1) - cosx * cosx, Fraction(half))
                new = {}
                for m, c in terms.items():
                    d = dict(m)
                    d.pop(a)
                    if rem:
                        d[a] = rem
                    new[tuple(sorted(d.items()))] = c
                out = out + Poly(new) * factor
            else:
                base = atom_key(a)[1]
                factor = Poly.const(1)
                for _ in range(int(e)):
                    factor = factor * base
                new = {}
                for m, c in terms.items():
                    d = dict(m)
                    d.pop(a)
                    new[tuple(sorted(d.items()))] = c
                out = out + Poly(new) * factor
        p = out


def _lead(p):
    """Leading monomial under a translation invariant order."""
    ms = list(p.t)
    best = ms[0]
    for m in ms[1:]:
        if _mcmp(m, best) > 0:
            best = m
    return best


def _mcmp(m1, m2):
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) - e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    if not d:
        return 0
    # order by atom *key representation*, so that it does not depend on the
    # order in which atoms were met
    a = min(d, key=_akey)
    return 1 if d[a] > 0 else -1


_AK = {}


def _akey(a):
    s = _AK.get(a)
    if s is None:
        s = show_atom(a)
        _AK[a] = s
    return s


def power(p, e):
    """p ** e with e a rational or a Poly."""
    if isinstance(e, Poly):
        c = e.const_value()
        if c is not None:
            return power(p, c)
        if p.const_value() == 1:
            return p
        return exp(e * log(p))
    if not isinstance(e, Fraction):
        e = Fraction(e)
    if e == 0:
        return Poly.const(1)
    if not (e.denominator == 1 and e > 0) and indicators(p):
        return shannon(lambda q: power(q, e), p)
    if not p.t:
        if e > 0:
            return Poly()
        raise Undefined('division by zero')
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c < 0 and m and e.denominator % 2 == 0:
            return Poly.of_atom(atom(('sum', Poly({m: Fraction(-1)}))),
                                e) * _cpow(-c, e)
        coef = _cpow(c, e)
        if e.denominator != 1:
            m = _magnitudes(m)
        mm = tuple((a, x * e) for a, x in m)
        return _reduce(Poly({mm: Fraction(1)}) * coef)
    if e.denominator == 1 and 0 < e <= 16:
        r = Poly.const(1)
        for _ in range(int(e)):
            r = r * p
        return r
    # factor the leading monomial out
    m = _lead(p)
    c = p.t[m]
    if e.denominator != 1:
        c = abs(c)
        m = tuple((a, x) for a, x in m if _asign(a) in (1, '+0') or
                  x.denominator == 1 and x % 2 == 0)
    inv = Poly({tuple((a, -x) for a, x in m): 1 / c})
    q = p * inv
    if len(q.t) == 1:
        return power(q, e) * power(Poly({m: c}), e)
    return Poly.of_atom(atom(('sum', q)), e) * power(Poly({m: c}), e)


def _magnitudes(m):
    """Even powers of atoms that may be negative as powers of their
    magnitudes (the fractional power of x^2 is one of |x|)."""
    out = {}
    for a, x in m:
        if x.denominator == 1 and x % 2 == 0 and _asign(a) not in (1, '+0'):
            b = atom(('abs', Poly.of_atom(a)), sign='+0')
            out[b] = out.get(b, 0) + x
        else:
            out[a] = out.get(a, 0) + x
    return tuple(sorted(out.items()))


def _iroot(n, k):
    if n < 0:
        return None
    r = int(round(n ** (1.0 / k))) if n < 10 ** 300 else None
    if r is None:
        lo, hi = 0, n
        while lo <= hi:
            mid = (lo + hi) // 2
            v = mid ** k
            if v == n:
                return mid
            if v < n:
                lo = mid + 1
            else:
                hi = mid - 1
        return None
    for x in (r - 1, r, r + 1):
        if x >= 0 and x ** k == n:
            return x
    return None


def _cpow(c, e):
    if c == 1:
        return Poly.const(1)
    if e.denominator == 1:
        return Poly.const(c ** int(e))
    a = _iroot(c.numerator, e.denominator)
    b = _iroot(c.denominator, e.denominator)
    if a is not None and b is not None:
        return Poly.const(Fraction(a, b) ** e.numerator)
    # prime factorise small constants so that sqrt(2)*sqrt(3) == sqrt(6)
    out = Poly.const(1)
    sign = 1
    n, d = c.numerator, c.denominator
    if n < 0:
        sign = -1
        n = -n
    for num, s in ((n, 1), (d, -1)):
        x, f = num, 2
        while x > 1 and f < 10000:
            k = 0
            while x % f == 0:
                x //= f
                k += 1
            if k:
                out = out * _const_atom(f, s * k * e)
            f += 1
        if x > 1:
            out = out * _const_atom(x, s * e)
    if sign < 0:
        out = out * Poly.of_atom(atom(('neg1',)), e)
    return out


def _const_atom(n, e):
    whole = e.numerator // e.denominator
    frac = e - whole
    r = Poly.const(Fraction(n) ** whole)
    if frac:
        r = r * Poly.of_atom(atom(('num', n)), frac)
    return r


def exp(p):
    if indicators(p):
        return shannon(exp, p)
    r = Poly.const(1)
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and atom_key(m[0][0])[0] == 'log':
            # exp(c*log(a)) = a^c
            base = atom_key(m[0][0])[1]
            r = r * power(base, c)
        else:
            r = r * Poly.of_atom(atom(('E', Poly({m: Fraction(1)}))), c)
    return r


def log(p):
    if indicators(p):
        return shannon(log, p)
    if not p.t:
        raise Undefined('log(0)')
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = Poly()
        if c != 1:
            r = r + Poly.of_atom(atom(('log', Poly.const(c))))
        for a, e in m:
            k = atom_key(a)
            if k[0] == 'E':
                r = r + k[1] * Poly.const(e)
            else:
                r = r + Poly.of_atom(
                    atom(('log', Poly.of_atom(a)))) * Poly.const(e)
        return r
    m = _lead(p)
    c = p.t[m]
    inv = Poly({tuple((a, -x) for a, x in m): 1 / c})
    q = p * inv
    return log(Poly({m: c})) + Poly.of_atom(atom(('log', q)))


PI = sym('pi', scalar=True, sign=1)


def _pi_multiple(p):
    """Fraction f with p == f*pi, or None."""
    if not p.t:
        return Fraction(0)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if m == next(iter(PI.t)):
            return c
    return None


def _canon_sign(p):
    if not p.t:
        return p, 1
    c = p.t[_lead(p)]
    if c < 0:
        return -p, -1
    return p, 1


def sin(p):
    if indicators(p):
        return shannon(sin, p)
    f = _pi_multiple(p)
    if f is not None:
        f = f % 2
        if f.denominator == 1:
            return Poly()
        if f == Fraction(1, 2):
            return Poly.const(1)
        if f == Fraction(3, 2):
            return Poly.const(-1)
    q, s = _canon_sign(p)
    return Poly.of_atom(atom(('sin', q))) * s


def cos(p):
    if indicators(p):
        return shannon(cos, p)
    f = _pi_multiple(p)
    if f is not None:
        f = f % 2
        if f == 0:
            return Poly.const(1)
        if f == 1:
            return Poly.const(-1)
        if f in (Fraction(1, 2), Fraction(3, 2)):
            return Poly()
    q, _ = _canon_sign(p)
    return Poly.of_atom(atom(('cos', q)))


def absolute(p):
    s = sign(p)
    if s in (1, 0, '+0'):
        return p
    if s in (-1, '-0'):
        return -p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        out = Poly.const(abs(c))
        for a, e in m:
            if e.denominator == 1 and e % 2 == 0:
                out = out * Poly.of_atom(a, e)
            elif _asign(a) in (1, '+0'):
                out = out * Poly.of_atom(a, e)
            elif _asign(a) == -1:
                out = out * Poly.of_atom(a, e) * (-1 if e.denominator == 1
                                                  and e % 2 else 1)
            else:
                out = out * Poly.of_atom(
                    atom(('abs', Poly.of_atom(a)), sign='+0'), e)
        return out
    q, _ = _canon_sign(p)
    return Poly.of_atom(atom(('abs', q), sign='+0'))


# -- indexed symbols and finite sums ---------------------------------------------


def idx(name, *ix, **info):
    return Poly.of_atom(atom(('idx', name) + tuple(as_poly(i) for i in ix),
                             **info))


_FRESH = [0]


def fresh(prefix='v', **info):
    _FRESH[0] += 1
    info.setdefault('int', True)
    return sym('%s#%d' % (prefix, _FRESH[0]), **info)


def _height(p):
    h = 0
    for a in p.all_atoms():
        k = _KEYS[a]
        if k[0] == 'Sum':
            h = max(h, k[3])
    return h


def _bv(h, k):
    return sym('bv%d_%d' % (h, k), int=True, sign='+0')


def _open_sum(a):
    """Fresh variables for a Sum atom: (vars, bounds, body)."""
    _, bounds, body, h = _KEYS[a]
    vs = [fresh('s', sign='+0') for _ in bounds]
    mp = {sid(_bv(h, k)): vs[k] for k in range(len(bounds))}
    return vs, [(subst(lo, mp), subst(hi, mp)) for lo, hi in bounds], \
        subst(body, mp)


def _close(vs, bounds, body):
    import itertools
    h = max([_height(body)] + [max(_height(lo), _height(hi))
                               for lo, hi in bounds]) + 1
    best = None
    n = len(vs)
    for perm in itertools.permutations(range(n)):
        mp = {sid(vs[perm[k]]): _bv(h, k) for k in range(n)}
        bb = tuple((subst(bounds[perm[k]][0], mp),
                    subst(bounds[perm[k]][1], mp)) for k in range(n))
        q = subst(body, mp)
        key = (str(bb), show(q, 10 ** 6))
        if best is None or key < best[0]:
            best = (key, bb, q)
        if n > 4:
            break
    return Poly.of_atom(atom(('Sum', best[1], best[2], h)))


def _dep(a, s):
    return s in deep(a)


def make_sum(body, var, lo, hi):
    """Sum of body for lo <= var < hi, normalised."""
    s = sid(var)
    lo, hi = as_poly(lo), as_poly(hi)
    # expand negative powers etc. is not needed: work monomial by monomial
    out = Poly()
    groups = {}
    for m, c in body.t.items():
        ind, dep = [], []
        for a, e in m:
            (dep if _dep(a, s) else ind).append((a, e))
        groups.setdefault(tuple(dep), {})[tuple(ind)] = c
    for dep, coef in groups.items():
        C = Poly(coef)
        if not dep:
            out = out + C * (hi - lo)
            continue
        D = Poly({dep: Fraction(1)})
        # Kronecker delta elimination
        done = False
        for a, e in dep:
            k = _KEYS[a]
            if k[0] == 'eq0':
                sol = _solve_linear(k[1], s)
                if sol is not None:
                    rest = Poly({tuple((x, y) for x, y in dep if x != a):
                                 Fraction(1)})
                    val = subst(rest, {s: sol})
                    out = out + C * val * in_range(sol, lo, hi)
                    done = True
                    break
        if done:
            continue
        # flatten nested sums
        vs, bounds, D2 = [var], [(lo, hi)], D
        while True:
            hit = None
            if len(D2.t) == 1:
                (mm, cc), = D2.t.items()
                for a, e in mm:
                    if _KEYS[a][0] == 'Sum' and e == 1 and any(
                            _dep(a, sid(v)) for v in vs):
                        nb = _KEYS[a][1]
                        if any(sid(v) in (b[0].all_atoms() | b[1].all_atoms())
                               for b in nb for v in vs):
                            continue
                        hit = a
                        break
            if hit is None:
                break
            v2, b2, body2 = _open_sum(hit)
            rest = Poly({tuple((x, y) for x, y in mm if x != hit): cc})
            vs += v2
            bounds += b2
            D2 = rest * body2
        out = out + C * _close(vs, bounds, D2)
    return out


def _solve_linear(p, s):
    """Solve p(var) = 0 for a variable of coefficient +-1."""
    coef = None
    rest = {}
    for m, c in p.t.items():
        if m == ((s, Fraction(1)),):
            coef = c
        elif any(_dep(a, s) for a, _ in m):
            return None
        else:
            rest[m] = c
    if coef in (1, -1):
        return Poly(rest) * Poly.const(Fraction(-1) / coef)
    return None


BOUNDS = {}     # atom id of an axis variable -> (lo, hi) known half-open range


def in_range(p, lo, hi):
    """[lo <= p][p < hi], using what is known of axis variables."""
    r = Poly.const(1)
    b = None
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            b = BOUNDS.get(m[0][0])
    if not (b is not None and b[0] == lo):
        r = r * (Poly.const(1) - lt0(p - lo))
    if not (b is not None and b[1] == hi):
        r = r * lt0(p - hi)
    return r


def _subst_sum(a, mapping):
    vs, bounds, body = _open_sum(a)
    bounds = [(subst(lo, mapping), subst(hi, mapping)) for lo, hi in bounds]
    body = subst(body, mapping)
    out = body
    for v, (lo, hi) in reversed(list(zip(vs, bounds))):
        out = make_sum(out, v, lo, hi)
    return out


# -- zero test ---------------------------------------------------------------
def is_zero(p, depth=0):
    if not p.t:
        return True
    if depth > 12:
        return False
    sums = sorted(a for a in p.atoms() if atom_key(a)[0] == 'sum')
    if not sums:
        return False
    a = sums[-1]
    groups = {}
    for m, c in p.t.items():
        e = dict(m).get(a, Fraction(0))
        frac = e - (e.numerator // e.denominator)
        groups.setdefault(frac, {})[m] = c
    base = atom_key(a)[1]
    for frac, terms in groups.items():
        low = min(dict(m).get(a, Fraction(0)) for m in terms)
        cache = {}
        acc = Poly()
        bye = {}
        for m, c in terms.items():
            d = dict(m)
            e = d.pop(a, Fraction(0)) - low
            bye.setdefault(int(e), {})[tuple(sorted(d.items()))] = c
        for e, tt in bye.items():
            if e not in cache:
                f = Poly.const(1)
                for _ in range(e):
                    f = f * base
                cache[e] = f
            acc = acc + Poly(tt) * cache[e]
        if not is_zero(acc, depth + 1):
            return False
    return True


def equal(a, b):
    a, b = as_poly(a), as_poly(b)
    if a.t == b.t:
        return True
    return is_zero(a - b)


# -- differentiation / substitution -------------------------------------------
def diff(p, s):
    """Derivative of p with respect to the symbol atom of the Poly s."""
    sid = next(iter(s.atoms()))
    cache = {}

    def datom(a):
        if a in cache:
            return cache[a]
        k = atom_key(a)
        if a == sid:
            r = Poly.const(1)
        elif k[0] == 'E':
            r = Poly.of_atom(a) * diff(k[1], s)
        elif k[0] == 'sum':
            r = diff(k[1], s)
        elif k[0] == 'log':
            r = diff(k[1], s) / k[1]
        elif k[0] == 'sin':
            r = cos(k[1]) * diff(k[1], s)
        elif k[0] == 'cos':
            r = -sin(k[1]) * diff(k[1], s)
        elif any(sid in q.all_atoms() for q in _nested(a)):
            raise Undefined('derivative of ' + show_atom(a))
        else:
            r = Poly()
        cache[a] = r
        return r

    out = Poly()
    for m, c in p.t.items():
        for i, (a, e) in enumerate(m):
            da = datom(a)
            if not da.t:
                continue
            rest = dict(m)
            if e == 1:
                rest.pop(a)
            else:
                rest[a] = e - 1
            out = out + Poly({tuple(sorted(rest.items())): c * e}) * da
    return out


def subst(p, mapping, cache=None):
    """Replace atoms (by id) with Poly values, rebuilding nested atoms."""
    keys = mapping.keys()
    if p.all_atoms().isdisjoint(keys):
        return p
    if cache is None:
        cache = {}

    def walk(x):
        if isinstance(x, Poly):
            return subst(x, mapping, cache)
        if isinstance(x, tuple):
            return tuple(walk(y) for y in x)
        return x

    def sub_atom(a):
        if a in mapping:
            return mapping[a]
        if a in cache:
            return cache[a]
        k = atom_key(a)
        if deep(a).isdisjoint(keys):
            r = Poly.of_atom(a)
        elif k[0] == 'E':
            r = exp(walk(k[1]))
        elif k[0] == 'sum':
            r = walk(k[1])
        elif k[0] == 'log':
            r = log(walk(k[1]))
        elif k[0] == 'sin':
            r = sin(walk(k[1]))
        elif k[0] == 'cos':
            r = cos(walk(k[1]))
        elif k[0] == 'eq0':
            r = eq0(walk(k[1]))
        elif k[0] == 'lt0':
            r = lt0(walk(k[1]))
        elif k[0] == 'Sum':
            r = _subst_sum(a, mapping)
        elif k[0] == 'abs':
            r = absolute(walk(k[1]))
        else:
            nk = walk(k)
            r = Poly.of_atom(atom(nk, **atom_info(a)))
        cache[a] = r
        return r

    keep, out = {}, Poly()
    for m, c in p.t.items():
        if all(deep(a).isdisjoint(keys) for a, _ in m):
            keep[m] = c
            continue
        f = Poly.const(c)
        for a, e in m:
            f = f * power(sub_atom(a), e)
        out = out + f
    return out + Poly(keep) if keep else out


def sid(p):
    """Atom id of a Poly that is a single atom."""
    (m, c), = p.t.items()
    assert len(m) == 1 and c == 1
    return m[0][0]


# -- signs ----------------------------------------------------------------------
GENERIC = None     # optional p -> sign: general position of the symbols


def sign(p):
    """As _sign, with the general-position assumption in force, if any."""
    s = _sign(p)
    if GENERIC is not None and s not in (0, 1, -1):
        g = GENERIC(p)
        return s if g is None else g
    return s


def _sign(p):
    """+1, -1, 0 when the sign is certain; '+0' for >= 0; None otherwise."""
    if not p.t:
        return 0
    out = None
    for m, c in p.t.items():
        s = 1 if c > 0 else -1
        weak = False
        for a, e in m:
            sa = _asign(a)
            if e.denominator == 1 and e % 2 == 0:
                if sa in (1, -1):
                    continue
                if e > 0:
                    weak = True
                    continue
                continue
            if sa is None:
                s = None
                break
            if sa == '+0':
                weak = True
                continue
            s = s * sa
        if s is None:
            return _sign_special(p)
        cur = (s, weak)
        if out is None:
            out = cur
        elif out[0] != s:
            return _sign_special(p)
        else:
            out = (s, out[1] and weak)
    if out[1]:
        return '+0' if out[0] > 0 else '-0'
    return out[0]


def _sign_special(p):
    """Constants; c*(1 - exp(u)): the sign follows that of u."""
    if all(atom_key(a)[0] == 'num' for m in p.t for a, _ in m):
        v = mag = 0.
        for m, c in p.t.items():
            x = float(c)
            for a, e in m:
                x *= float(atom_key(a)[1]) ** float(e)
            v += x
            mag += abs(x)
        if abs(v) > 1e-9 * mag:
            return 1 if v > 0 else -1
        return None
    if len(p.t) == 2 and () in p.t:
        c = p.t[()]
        (m, d), = [(m, d) for m, d in p.t.items() if m]
        if d == -c and all(atom_key(a)[0] == 'E' for a, _ in m):
            u = Poly()
            for a, e in m:
                u = u + atom_key(a)[1] * Poly.const(e)
            su = sign(u)
            if su in (1, -1, 0):
                return -su * (1 if c > 0 else -1)
    return None


def _asign(a):
    k = atom_key(a)
    inf = atom_info(a)
    if 'sign' in inf:
        return inf['sign']
    if k[0] in ('E', 'num'):
        return 1
    if k[0] == 'sum':
        return sign(k[1])
    return None


# -- display ---------------------------------------------------------------------
def show_atom(a):
    k = atom_key(a)
    return _show_key(k)


def _show_key(k):
    if isinstance(k, Poly):
        return show(k)
    if isinstance(k, tuple):
        if k and k[0] == 'sym':
            return str(k[1])
        if k and k[0] == 'num':
            return str(k[1])
        if k and k[0] == 'neg1':
            return '(-1)'
        if k and k[0] == 'E':
            return 'exp(%s)' % show(k[1])
        if k and k[0] == 'sum':
            return '(%s)' % show(k[1])
        if k and k[0] == 'lt0':
            return '[%s<0]' % show(k[1])
        if k and k[0] == 'eq0':
            return '[%s=0]' % show(k[1])
        if k and k[0] == 'truth':
            return '[%s]' % (_show_key(k[1]),)
        if k and k[0] == 'abs':
            return 'abs(%s)' % show(k[1])
        if k and k[0] == 'Sum':
            return 'Sum{%s}(%s)' % (', '.join(
                'bv%d_%d:%s..%s' % (k[3], n, show(lo), show(hi))
                for n, (lo, hi) in enumerate(k[1])), show(k[2], 10**6))
        if k and k[0] in ('log', 'sin', 'cos'):
            return '%s(%s)' % (k[0], show(k[1]))
        if k and k[0] == 'app':
            return '%s(%s)' % (k[1], ', '.join(_show_key(x) for x in k[2:]))
        if k and k[0] == 'idx':
            return '%s[%s]' % (_show_key(k[1]),
                               ', '.join(_show_key(x) for x in k[2:]))
        return '(%s)' % ', '.join(_show_key(x) for x in k)
    return str(k)


def show(p, limit=40):
    if not p.t:
        return '0'
    parts = []
    for m, c in sorted(p.t.items(), key=lambda it: [
            (_akey(a), e) for a, e in it[0]]):
        f = []
        for a, e in m:
            s = _akey(a)
            if e != 1:
                s += '^%s' % (e if e.denominator == 1 else '(%s)' % e)
            f.append(s)
        if not f:
            parts.append(str(c))
        else:
            body = '*'.join(f)
            if c == 1:
                parts.append(body)
            elif c == -1:
                parts.append('-' + body)
            else:
                parts.append('%s*%s' % (c, body))
        if len(parts) >= limit:
            parts.append('...')
            break
    return ' + '.join(parts).replace('+ -', '- ')


# -- complex numbers with an exact imaginary unit ---------------------------------------
ZERO = as_poly(0)
IMAG = sym('1j')
IMAG_ID = sid(IMAG)


def _split(p):
    """(real, imaginary) of a polynomial in the imaginary unit, or None."""
    re, im = ZERO, ZERO
    for m, c in p.t.items():
        e = 0
        rest = []
        for a, k in m:
            if a == IMAG_ID:
                e = k
            else:
                if IMAG_ID in deep(a):
                    return None
                rest.append((a, k))
        if e != int(e) or e < 0:
            return None
        t = Poly({tuple(rest): c}) * (1 if e % 4 < 2 else -1)
        if e % 2:
            im = im + t
        else:
            re = re + t
    return re, im


def real_part(p):
    if p.const_value() is not None:
        return p
    s = _split(p) if IMAG_ID in p.all_atoms() else None
    return s[0] if s else app('real', p)


def imag_part(p):
    if p.const_value() is not None:
        return ZERO
    s = _split(p) if IMAG_ID in p.all_atoms() else None
    return s[1] if s else app('imag', p)


def exact_roots(k):
    """Roots of sum k[i] x^i (numbers), sorted by real part; None if they are
    not found exactly."""
    k = [Fraction(x) for x in k]
    while k and k[-1] == 0:
        k.pop()
    out = []
    while len(k) > 3:
        r = _rational_root(k)
        if r is None:
            return None
        out.append(as_poly(r))
        q = [Fraction(0)] * (len(k) - 1)
        carry = Fraction(0)
        for i in range(len(k) - 1, 0, -1):
            carry = k[i] + carry * r
            q[i - 1] = carry
        k = q
    if len(k) == 3:
        d = k[1] * k[1] - 4 * k[0] * k[2]
        root = power(as_poly(abs(d)), Fraction(1, 2)) * (
            1 if d >= 0 else IMAG)
        out += [(as_poly(-k[1]) + s * root) / (2 * k[2])
                for s in ((-1, 1) if k[2] > 0 else (1, -1))]
    elif len(k) == 2:
        out.append(as_poly(-k[0] / k[1]))

    def at(p):
        re = real_part(p).const_value()
        return float(re) if re is not None else 0.
    return sorted(out, key=at)


def _rational_root(k):
    n = 1
    for x in k:
        n = n * x.denominator // _gcd(n, x.denominator)
    c = [int(x * n) for x in k]
    if c[0] == 0:
        return Fraction(0)

    def div(x):
        x = abs(x)
        return [i for i in range(1, min(x, 2000) + 1) if x % i == 0]
    for p in div(c[0]):
        for q in div(c[-1]):
            for r in (Fraction(p, q), Fraction(-p, q)):
                if sum(x * r ** i for i, x in enumerate(c)) == 0:
                    return r
    return None


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a
