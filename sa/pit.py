"""Identity testing of value numbers (random interpretation).

After Gulwani and Necula ("Global value numbering using random
interpretation"): two *terms* of the analysis are compared first by normal form
and, when the normal forms differ, by interpreting both terms over a few hashed
assignments of their symbols.  What is interpreted is the closed term the
analysis derived from the source and the term of the specification; the analysed
program is never run.  Uninterpreted atoms get values hashed from their name and
arguments, so the test is sound for "differ" (a witness assignment is reported)
and wrong on "equal" with negligible probability.
"""
import hashlib
import math
from decimal import Decimal, getcontext, DecimalException
from fractions import Fraction

from . import algebra as al
from .algebra import Poly


class Bad(Exception):
    """The term is undefined under this assignment."""


def _hash01(*key):
    d = hashlib.sha256(repr(key).encode()).digest()
    return int.from_bytes(d[:7], 'big') / float(1 << 56)


getcontext().prec = 60
getcontext().Emax = 10 ** 7
getcontext().Emin = -10 ** 7
PI = Decimal('3.14159265358979323846264338327950288419716939937510582097494459'
             '23078164062862')


class FloatMath(object):
    """Double precision evaluation."""
    zero, one = 0.0, 1.0
    num = float
    exp, log, sin, cos = math.exp, math.log, math.sin, math.cos
    pi = math.pi
    maxexp = 300

    @staticmethod
    def power(v, e):
        return v ** int(e) if e.denominator == 1 else v ** float(e)


class DecimalMath(object):
    """60 digits: confirms or withdraws a difference found in doubles."""
    zero, one = Decimal(0), Decimal(1)
    pi = PI
    maxexp = 100000

    @staticmethod
    def num(x):
        if isinstance(x, Fraction):
            return Decimal(x.numerator) / Decimal(x.denominator)
        return Decimal(x)

    @staticmethod
    def exp(x):
        return x.exp()

    @staticmethod
    def log(x):
        return x.ln()

    @staticmethod
    def sin(x):
        x = x % (2 * PI)
        t, s, n = x, x, 1
        while abs(t) > Decimal('1e-58'):
            n += 2
            t = -t * x * x / (n * (n - 1))
            s += t
        return s

    @staticmethod
    def cos(x):
        return DecimalMath.sin(x + PI / 2)

    @staticmethod
    def power(v, e):
        if e.denominator == 1:
            return v ** int(e)
        if v == 0:
            return v
        return (v.ln() * DecimalMath.num(e)).exp()


def _rnd(v):
    if isinstance(v, Decimal):
        v = float(v)
    if isinstance(v, complex):
        return ('c', _rnd(v.real), _rnd(v.imag))
    if abs(v) < 1e-9:
        return 0.0
    return float('%.8e' % v)


class Assignment(object):
    def __init__(self, seed, fixed=None, zeros=True, force=None,
                 ranges=None, fm=FloatMath):
        self.fm = fm
        self.force = force or {}
        self.ranges = ranges or {}
        self.seed = seed
        self.fixed = fixed or {}
        self.zeros = zeros
        self.seen = {}
        self.fcache = {}

    # -- values of symbols
    def draw(self, key, info):
        s = info.get('sign')
        u = _hash01(self.seed, 'v', key)
        f = self.force.get(key[1])
        if info.get('int'):
            if key[1] in self.ranges:
                n = self.ranges[key[1]]
                n = n if isinstance(n, int) else int(round(self.poly(n, {})))
                if f == 'first':
                    return 0
                if f == 'last':
                    return n - 1
                return int(u * n) % n
            if isinstance(f, int) and f > 1:
                return f
            lo = 2
            v = lo + int(u * 3)
            return v if s not in (-1, '-0') else -v
        w = _hash01(self.seed, 'z', key)
        mag = 0.3 + 1.5 * u
        if isinstance(f, tuple):
            if f[0] == 'x':
                mag *= f[1]
            elif s in (1, '+0') and f[1] <= 0 or s in (-1, '-0') and \
                    f[1] >= 0:
                pass
            else:
                return f[1]
        elif f == 0 and s not in (1, -1):
            return 0.0
        elif f == -1 and s not in (1, '+0', 0):
            return -mag
        elif f == 1 and s not in (-1, '-0', 0):
            return mag
        if s == 1:
            return mag
        if s == -1:
            return -mag
        if s == 0:
            return 0.0
        if s == '+0':
            return 0.0 if self.zeros and w < .2 else mag
        if s == '-0':
            return 0.0 if self.zeros and w < .2 else -mag
        if self.zeros and w < .15:
            return 0.0
        return mag if w < .6 else -mag

    def keyval(self, k, env):
        if isinstance(k, Poly):
            return _rnd(self.poly(k, env))
        if isinstance(k, tuple):
            return tuple(self.keyval(x, env) for x in k)
        return k if isinstance(k, (str, int, bool, type(None))) else repr(k)

    def atom(self, a, env):
        if a in env:
            return env[a]
        k = al.atom_key(a)
        kind = k[0]
        if kind == 'sym':
            if k[1] == 'pi':
                return self.fm.pi
            if k[1] in self.fixed:
                return self.fm.num(self.fixed[k[1]])
            v = self.fm.num(self.draw(k, al.atom_info(a)))
            self.seen[str(k[1])] = v
            return v
        if kind == 'num':
            return self.fm.num(k[1])
        if kind == 'neg1':
            raise Bad('fractional power of -1')
        if kind == 'E':
            x = self.poly(k[1], env)
            if x > self.fm.maxexp:
                raise Bad('overflow')
            return self.fm.exp(x)
        if kind == 'sum':
            return self.poly(k[1], env)
        if kind == 'log':
            x = self.poly(k[1], env)
            if not x > 0:
                raise Bad('log')
            return self.fm.log(x)
        if kind == 'sin':
            return self.fm.sin(self.poly(k[1], env))
        if kind == 'cos':
            return self.fm.cos(self.poly(k[1], env))
        if kind == 'abs':
            return abs(self.poly(k[1], env))
        if kind == 'lt0':
            x = self.poly(k[1], env)
            return self.fm.one if x < -1e-9 else self.fm.zero
        if kind == 'eq0':
            return self.fm.one if abs(self.poly(k[1], env)) < 1e-9 else \
                self.fm.zero
        if kind == 'truth':
            return self.fm.one if _hash01(
                self.seed, 't', self.keyval(k[1], env)) < .5 else self.fm.zero
        if kind == 'Sum':
            return self.fsum(k, env)
        if kind == 'idx':
            key = (k[1],) + tuple(_rnd(self.poly(x, env)) for x in k[2:])
            v = self.fm.num(self.draw(('idx',) + key, al.atom_info(a)))
            if key not in self.seen and len(self.seen) < 40:
                self.seen[str(key)] = v
            return v
        if kind == 'app':
            return self.app(a, k, env)
        key = self.keyval(k, env)
        return self.fm.num(self.draw(key, al.atom_info(a)))

    def app(self, a, k, env):
        name = k[1]
        args = k[2:]
        if len(args) == 1 and isinstance(args[0], Poly):
            f = KNOWN.get(name)
            if f is not None:
                x = self.poly(args[0], env)
                try:
                    return self.fm.num(f(x))
                except (ValueError, OverflowError, ZeroDivisionError):
                    raise Bad(name)
        if len(args) == 2 and all(isinstance(x, Poly) for x in args):
            f = KNOWN2.get(name)
            if f is not None:
                try:
                    return self.fm.num(f(self.poly(args[0], env),
                                         self.poly(args[1], env)))
                except (ValueError, OverflowError, ZeroDivisionError):
                    raise Bad(name)
        key = ('app', name) + tuple(self.keyval(x, env) for x in args)
        return self.fm.num(self.draw(key, al.atom_info(a)))

    def fsum(self, k, env):
        _, bounds, body, h = k
        n = len(bounds)
        bv = [al.sid(al._bv(h, i)) for i in range(n)]
        tot = self.fm.zero
        count = [0]

        def rec(i, e):
            nonlocal tot
            if i == n:
                count[0] += 1
                if count[0] > 4000:
                    raise Bad('large sum')
                tot += self.poly(body, e)
                return
            lo = int(round(self.poly(bounds[i][0], e)))
            hi = int(round(self.poly(bounds[i][1], e)))
            for x in range(lo, hi):
                e2 = dict(e)
                e2[bv[i]] = self.fm.num(x)
                rec(i + 1, e2)
        rec(0, env)
        return tot

    def poly(self, p, env):
        ck = None
        if not env:
            ck = p
            v = self.fcache.get(ck)
            if v is not None:
                return v
        tot = self.fm.zero
        for m, c in p.t.items():
            # indicators first: an excluded arm need not be defined
            f = self.fm.one
            rest = []
            for a, e in m:
                kd = al.atom_key(a)[0]
                if kd in ('lt0', 'eq0', 'truth'):
                    f *= self.atom(a, env)
                    if f == 0:
                        break
                else:
                    rest.append((a, e))
            if f == 0:
                continue
            for a, e in rest:
                v = self.atom(a, env)
                if e.denominator == 1:
                    if v == 0 and e < 0:
                        raise Bad('division by zero')
                    f *= self.fm.power(v, e)
                else:
                    if v < 0 or (v == 0 and e < 0):
                        raise Bad('fractional power')
                    f *= self.fm.power(v, e)
            tot += f * self.fm.num(c)
        if tot != tot or tot in (float('inf'), float('-inf')):
            raise Bad('not finite')
        if ck is not None:
            self.fcache[ck] = tot
        return tot

    def scale(self, p, env):
        s = 0.0
        for m, c in p.t.items():
            try:
                s = max(s, abs(self.poly(Poly({m: c}), env)))
            except Bad:
                raise
        return s


def _integer_power(x, n):
    if n != int(n) or n < 0:
        raise ValueError('exponent')
    r = x * 0 + 1
    for _ in range(int(n)):
        r = r * x
    return r


def _arctan2(y, x):
    return math.atan2(y, x)


KNOWN = {'let': lambda x: x, 'arcsin': math.asin, 'arccos': math.acos, 'arctan': math.atan,
         'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh,
         'arcsinh': math.asinh, 'arctanh': math.atanh, 'floor': math.floor,
         'ceil': math.ceil, 'tan': math.tan, 'arccosh': math.acosh,
         'rint': round, 'trunc': math.trunc, 'int': math.trunc,
         'sign': lambda x: (x > 0) - (x < 0),
         # a value squeezed into single precision is not the value
         'float32': lambda x: x + x / 10000}
KNOWN.update(asin=math.asin, acos=math.acos, atan=math.atan)
KNOWN2 = {'arctan2': _arctan2, 'atan2': _arctan2, 'ipow': _integer_power, 'mod': lambda a, b: a % b,
          'floordiv': lambda a, b: a // b,
          'hypot': math.hypot, 'max': max, 'min': min}


def functions_of(p):
    """Names of uninterpreted applications occurring in a term."""
    out = set()
    for a in p.all_atoms():
        k = al.atom_key(a)
        if k[0] == 'app' and not (k[1] in KNOWN or k[1] in KNOWN2):
            out.add(_appname(k))
        elif k[0] == 'truth':
            out.add('truth:' + _truthname(k[1]))
        elif k[0] == 'sym' and str(k[1]).startswith('undefined'):
            out.add('undefined')
        elif k[0] == 'idx' and isinstance(k[1], tuple):
            out.add('idx:' + repr(k[1][:2])[:60])
    return out


def _appname(k):
    n = k[1]
    if n == 'opq' and len(k) > 2 and isinstance(k[2], tuple) and k[2]:
        return 'opq:%s' % (k[2][:2] if not isinstance(k[2][0], Poly)
                           else '',)
    return str(n)


def _truthname(k):
    if isinstance(k, tuple) and k:
        return str(k[0]) + (':' + str(k[1]) if len(k) > 1 and
                            isinstance(k[1], str) else '')
    return str(k)[:40]


def guard_names(p):
    """Symbols and arrays tested by the indicators of a term."""
    out = set()
    for a in p.all_atoms():
        k = al.atom_key(a)
        if k[0] in ('lt0', 'eq0', 'abs'):
            for b in k[1].all_atoms():
                kb = al.atom_key(b)
                if kb[0] in ('sym', 'idx') and kb[1] != 'pi' and \
                        not al.atom_info(b).get('int'):
                    out.add(kb[1])
    return out


def int_guards(p):
    """Integer symbols tested by the indicators of a term."""
    out = set()
    for a in p.all_atoms():
        k = al.atom_key(a)
        if k[0] in ('lt0', 'eq0', 'abs'):
            for b in k[1].all_atoms():
                kb = al.atom_key(b)
                if kb[0] == 'sym' and al.atom_info(b).get('int'):
                    out.add(kb[1])
    return out


def thresholds(p):
    """(name, value) at which an indicator of the term changes."""
    out = set()
    for a in p.all_atoms():
        k = al.atom_key(a)
        if k[0] not in ('lt0', 'eq0'):
            continue
        q = k[1]
        const = q.t.get((), 0)
        rest = [(m, c) for m, c in q.t.items() if m]
        if len(rest) == 1 and len(rest[0][0]) == 1 and const:
            (b, e), = rest[0][0]
            kb = al.atom_key(b)
            if e == 1 and kb[0] in ('sym', 'idx') and kb[1] != 'pi' and \
                    not al.atom_info(b).get('int'):
                out.add((kb[1], -float(const) / float(rest[0][1])))
    return out


DEEP = 1         # rounds of assignments (thorough runs: more)


def compare(a, b, trials=10, allow=(), fixed=None, zeros=True, ranges=None):
    """('equal'|'differ'|'undecided', detail)"""
    a, b = al.as_poly(a), al.as_poly(b)
    try:
        if al.equal(a, b):
            return 'equal', 'normal form'
    except Exception:          # noqa
        pass
    good = 0
    rough = any(al.atom_key(t)[0] == 'app' for p in (a, b)
                for t in p.all_atoms())     # evaluated in machine precision
    plan = [(s, None) for s in range(trials)]
    if zeros:
        names = sorted(guard_names(a) | guard_names(b), key=repr)
        for k, n in enumerate(names[:12]):
            for f in (0, 1, -1):
                plan += [(100 + 7 * k, {n: f}), (101 + 7 * k, {n: f})]
            for x in (1e-3, .03, 30., 1e3):
                plan.append((110 + 7 * k, {n: ('x', x)}))
        for f in (0, 1):
            plan += [(300 + s, {n: f for n in names}) for s in range(2)]
        for n, v in sorted(thresholds(a) | thresholds(b), key=repr)[:12]:
            for w in (v, v * .9, v * 1.1):
                plan.append((400, {n: ('v', w)}))
    ints = int_guards(a) | int_guards(b)
    rng = [n for n in ints if n in (ranges or {})]
    for n in sorted(rng, key=repr):
        plan += [(500 + s, {n: f}) for f in ('first', 'last')
                 for s in range(2)]
    for n in sorted(ints - set(rng), key=repr)[:6]:
        plan += [(520, {n: f}) for f in (3, 5, 7, 12, 60)]
    if DEEP > 1:
        plan = [(s + 1002 * r, f) for r in range(DEEP) for s, f in plan]
    for s, force in plan:
        env = Assignment(s, fixed, zeros=zeros and s % 3 != 0, force=force,
                         ranges=ranges)
        try:
            x = env.poly(a, {})
            y = env.poly(b, {})
            if max(abs(x), abs(y)) < (1e-10 if rough else 1e-60) and x != y:
                continue
            if abs(x - y) > 1e-7 * max(abs(x), abs(y)):
                sc = max(env.scale(a, {}), env.scale(b, {}))
                if abs(x - y) <= 1e-11 * sc:
                    good += 1
                    continue
                hp = Assignment(s, fixed, zeros=zeros and s % 3 != 0,
                                force=force, ranges=ranges, fm=DecimalMath)
                try:
                    x, y = hp.poly(a, {}), hp.poly(b, {})
                except DecimalException:
                    continue
                if abs(x - y) <= Decimal('1e-8') * max(abs(x), abs(y)) or \
                        max(abs(x), abs(y)) < 1e-60:
                    good += 1
                    continue
                x, y = float(x), float(y)
                extra = functions_of(a) - functions_of(b) - set(allow)
                if extra:
                    return 'undecided', 'uninterpreted: %s' % sorted(extra)[:4]
                w = ', '.join('%s=%.4g' % (n, v) for n, v in
                              sorted(env.seen.items())[:8])
                return 'differ', 'e.g. %s: %.6g vs %.6g' % (w, x, y)
            good += 1
        except (Bad, OverflowError, ValueError, RecursionError):
            continue
    if good >= 3:
        return 'equal', 'identity test'
    return 'undecided', 'no defined assignment'
