"""Value domain of the value-flow analysis."""
import itertools
from fractions import Fraction

from . import algebra as al
from .algebra import Poly

CONCRETE_AXIS = 128      # axes up to this length are tabulated


class Unknown(object):
    """Top: the analysis has no information."""

    def __init__(self, reason):
        self.reason = reason

    def __repr__(self):
        return 'Unknown(%s)' % self.reason


class Imprecise(Exception):
    """Raised inside a model when the value cannot be represented."""


class BadShape(Imprecise):
    """Known extents which do not fit: certainly a ValueError."""


def shapes_clash(a, b):
    """Trailing extents of `a` can never be those of `b`."""
    return any(isinstance(x, int) and isinstance(y, int) and x != y and
               x != 1 for x, y in zip(a[::-1], b[::-1]))


class OutOfRange(Imprecise):
    """A certain index error."""


class Ref(object):
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('ref', self.id))

    def __repr__(self):
        return 'Ref(%d)' % self.id


class View(object):
    """Basic-index view of an array held on the heap."""

    def __init__(self, ref, idx):
        self.ref = ref
        self.idx = idx          # list of index tuples applied in sequence

    def __eq__(self, o):
        return isinstance(o, View) and o.ref == self.ref and o.idx == self.idx

    def __hash__(self):
        return hash(('view', self.ref.id))

    def __repr__(self):
        return 'View(%r,%r)' % (self.ref, self.idx)


class GIf(object):
    """Gated merge of two values that have no common representation."""

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __eq__(self, o):
        return isinstance(o, GIf) and (o.cond, o.a, o.b) == (self.cond, self.a,
                                                             self.b)

    def __hash__(self):
        return hash(('gif', self.cond))

    def __repr__(self):
        return 'GIf(%r ? %r : %r)' % (self.cond, self.a, self.b)


class _Unbound(object):
    def __repr__(self):
        return 'UNBOUND'


UNBOUND = _Unbound()


class Opaque(object):
    """A value known only by how it was obtained."""

    def __init__(self, key, **info):
        self.key = key
        self.info = info

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.key == self.key

    def __hash__(self):
        return hash(('opaque', self.key))

    def __repr__(self):
        return 'Opaque%r' % (self.key,)


class Ext(object):
    """A name of a library outside the analysed tree."""

    def __init__(self, dotted):
        self.dotted = dotted

    def __eq__(self, o):
        return isinstance(o, Ext) and o.dotted == self.dotted

    def __hash__(self):
        return hash(('ext', self.dotted))

    def __repr__(self):
        return 'Ext(%s)' % self.dotted


class ModuleV(object):
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ModuleV) and o.name == self.name

    def __hash__(self):
        return hash(('mod', self.name))


class Func(object):
    def __init__(self, node, mod, qual, closure=None, cls=None, defaults=None):
        self.node, self.mod, self.qual = node, mod, qual
        self.closure = closure
        self.cls = cls
        self.defaults = defaults

    def __eq__(self, o):
        return isinstance(o, Func) and o.node is self.node

    def __hash__(self):
        return hash(id(self.node))

    def __repr__(self):
        return 'Func(%s)' % self.qual


class Bound(object):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __eq__(self, o):
        return isinstance(o, Bound) and o.func == self.func and \
            o.self_ == self.self_

    def __hash__(self):
        return hash(('bound', self.func))

    def __repr__(self):
        return 'Bound(%r)' % self.func


class Class(object):
    def __init__(self, node, mod, mro, ref):
        self.node, self.mod, self.mro, self.ref = node, mod, mro, ref
        self.name = node.name

    def __eq__(self, o):
        return isinstance(o, Class) and o.node is self.node

    def __hash__(self):
        return hash(id(self.node))

    def __repr__(self):
        return 'Class(%s)' % self.name


class SuperV(object):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Builtin(object):
    """A library callable with bound state (array methods, str methods...)."""

    def __init__(self, name, recv=None):
        self.name, self.recv = name, recv

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class RangeV(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, RangeV) and (o.lo, o.hi, o.step) == (
            self.lo, self.hi, self.step)

    def __hash__(self):
        return hash((self.lo, self.hi, self.step))


class SliceV(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, SliceV) and (o.lo, o.hi, o.step) == (
            self.lo, self.hi, self.step)

    def __hash__(self):
        return hash((self.lo, self.hi, self.step))

    def __repr__(self):
        return 'Slice(%r,%r,%r)' % (self.lo, self.hi, self.step)


ELLIPSIS = object()
NEWAXIS = object()


# -- heap contents ------------------------------------------------------------------
class ListC(object):
    def __init__(self, items):
        self.items = tuple(items)


class SymListC(object):
    """prefix + [elem(var) for var in lo..hi) + ...; one symbolic segment."""

    def __init__(self, dim, var, elem):
        self.dim, self.var, self.elem = dim, var, elem


class DictC(object):
    def __init__(self, items, open_=None):
        self.items = dict(items)
        self.open = open_       # key of an opaque base mapping or None


class ObjC(object):
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, dict(fields)


class ClassC(object):
    def __init__(self, attrs):
        self.attrs = dict(attrs)


class SetC(object):
    def __init__(self, items):
        self.items = tuple(items)


# -- arrays ----------------------------------------------------------------------------
def AX(k):
    return al.sym('ax%d' % k, int=True, sign='+0')


def dim_of(v):
    """Normalise a dimension: small constants become ints."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v if v <= CONCRETE_AXIS else al.as_poly(v)
    if isinstance(v, Poly):
        c = v.const_value()
        if c is not None and c.denominator == 1 and c <= CONCRETE_AXIS:
            return int(c)
        return v
    raise Imprecise('dimension %r' % (v,))


class Arr(object):
    """shape: tuple of int (tabulated axis) or Poly (symbolic axis); data maps
    the index tuple of the tabulated axes to the element, a Poly in the axis
    symbols ax<k> of the symbolic axes."""

    __slots__ = ('shape', 'data', 'dtype', '_k', 'fold')

    def __init__(self, shape, data, dtype='f'):
        self.shape = tuple(shape)
        self.data = data
        self.dtype = dtype
        self._k = None
        self.fold = None

    def ndim(self):
        return len(self.shape)

    def key(self):
        if self._k is None:
            self._k = ('arr', self.shape, tuple(sorted(
                self._bound().items(), key=lambda kv: kv[0])))
        return self._k

    def _bound(self):
        """Elements with the axis symbols renamed apart from those of an
        enclosing array (numbered by nesting depth)."""
        n = sum(not isinstance(d, int) for d in self.shape)
        if not n:
            return self.data
        deep = 0
        for v in self.data.values():
            if isinstance(v, Poly):
                for a in v.all_atoms():
                    k = al.atom_key(a)
                    if k[0] == 'sym' and isinstance(k[1], str) and \
                            k[1][:2] == 'kx':
                        deep = max(deep, int(k[1][2:].split('_')[0]) + 1)
        mp = {al.sid(AX(k)): al.sym('kx%d_%d' % (deep, k), int=True,
                                    sign='+0')
              for k, d in enumerate(self.shape) if not isinstance(d, int)}
        return {k: al.subst(v, mp) if isinstance(v, Poly) else v
                for k, v in self.data.items()}

    def __eq__(self, o):
        return isinstance(o, Arr) and self.shape == o.shape and \
            self.data == o.data

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return 'Arr(shape=%s, %s)' % (self.shape, dict(
            list(self.data.items())[:4]))

    @staticmethod
    def full(shape, value, dtype='f'):
        shape = tuple(dim_of(d) for d in shape)
        ranges = [range(d) for d in shape if isinstance(d, int)]
        return Arr(shape, {ix: value for ix in itertools.product(*ranges)},
                   dtype)

    @staticmethod
    def symbol(name, shape, **info):
        """Array of indexed symbols name[ax0, ax1...]."""
        shape = tuple(dim_of(d) for d in shape)
        return Arr.build(shape, lambda ix: al.idx(name, *ix, **info))

    _builds = 0

    @staticmethod
    def build(shape, fn, dtype='f'):
        """Array whose element at index ix is fn(ix)."""
        shape = tuple(dim_of(d) for d in shape)
        ranges = [range(d) for d in shape if isinstance(d, int)]
        symbolic = len(ranges) != len(shape)

        def cells(ph, close=lambda v: v):
            data = {}
            for ix in itertools.product(*ranges):
                it = iter(ix)
                data[ix] = close(fn(tuple(
                    al.as_poly(next(it)) if isinstance(d, int) else ph(k)
                    for k, d in enumerate(shape))))
            return data
        n = Arr._builds
        data = cells(AX)
        if symbolic:
            if Arr._builds != n:
                # fn built symbolic arrays itself: keep the placeholders of
                # the two apart
                own = {k: al.fresh('ax', sign='+0')
                       for k in range(len(shape))}
                mp = {al.sid(v): AX(k) for k, v in own.items()}
                data = cells(own.get, lambda v: al.subst(v, mp)
                             if isinstance(v, Poly) else v)
            Arr._builds += 1
        return Arr(shape, data, dtype)

    def cells(self):
        """(concrete index tuple with None on symbolic axes, element)"""
        conc = [k for k, d in enumerate(self.shape) if isinstance(d, int)]
        for ix, v in self.data.items():
            full = [None] * len(self.shape)
            for k, i in zip(conc, ix):
                full[k] = i
            yield tuple(full), v

    def at(self, ix):
        """Element at a full index (ints / Polys)."""
        conc, mp = [], {}
        pend = None
        for k, (d, i) in enumerate(zip(self.shape, ix)):
            if isinstance(d, int):
                c = i if isinstance(i, int) else al.as_poly(i).const_value()
                if c is None:
                    pend = (k, i)
                    conc.append(None)
                    continue
                c = int(c)
                if c < 0:
                    c += d
                if not 0 <= c < d:
                    raise OutOfRange('index %d out of range for axis of '
                                    'length %d' % (c, d))
                conc.append(c)
            else:
                i = al.as_poly(i)
                c = i.const_value()
                if c is not None and c < 0:
                    i = i + d
                mp[al.sid(AX(k))] = i
        if pend is not None:
            k, i = pend
            out = Poly()
            for c in range(self.shape[k]):
                jx = list(ix)
                jx[k] = c
                out = out + al.eq0(al.as_poly(i) - c) * self.at(jx)
            return out
        v = self.data[tuple(conc)]
        return al.subst(v, mp) if mp else v

    def map(self, fn, dtype=None):
        return Arr(self.shape, {k: fn(v) for k, v in self.data.items()},
                   dtype or self.dtype)


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int) or isinstance(b, int):
        return False
    return al.equal(a, b)


def broadcast_shape(s1, s2):
    n = max(len(s1), len(s2))
    a = (1,) * (n - len(s1)) + tuple(s1)
    b = (1,) * (n - len(s2)) + tuple(s2)
    out = []
    for x, y in zip(a, b):
        if x == 1:
            out.append(y)
        elif y == 1:
            out.append(x)
        elif same_dim(x, y):
            out.append(x)
        else:
            raise (BadShape if isinstance(x, int) and isinstance(y, int)
                   else Imprecise)(
                'shapes %s and %s do not broadcast' % (s1, s2))
    return tuple(out)


def bget(arr, ix, n):
    """Element of arr at index ix of the broadcast shape with n axes."""
    off = n - arr.ndim()
    return arr.at([0 if arr.shape[k] == 1 else ix[k + off]
                   for k in range(arr.ndim())])


def elementwise(fn, *arrs, **kw):
    arrs = [a if isinstance(a, Arr) else Arr((), {(): al.as_poly(a)})
            for a in arrs]
    shape = arrs[0].shape
    for a in arrs[1:]:
        shape = broadcast_shape(shape, a.shape)
    n = len(shape)
    if all(a.shape == shape for a in arrs):
        ks = list(arrs[0].data)
        return Arr(shape, {k: fn(*[a.data[k] for a in arrs]) for k in ks},
                   kw.get('dtype', 'f'))
    return Arr.build(shape, lambda ix: fn(*[bget(a, ix, n) for a in arrs]),
                     kw.get('dtype', 'f'))


def transpose(arr, perm):
    shape = tuple(arr.shape[p] for p in perm)

    def fn(ix):
        src = [None] * len(perm)
        for new, p in enumerate(perm):
            src[p] = ix[new]
        return arr.at(src)
    return Arr.build(shape, fn, arr.dtype)


def reduce_axis(arr, axis, fn_concrete, fn_symbolic):
    """Fold one axis away."""
    axis = axis % arr.ndim()
    d = arr.shape[axis]
    shape = arr.shape[:axis] + arr.shape[axis + 1:]

    def fn(ix):
        ix = list(ix)
        if isinstance(d, int):
            vals = [arr.at(ix[:axis] + [k] + ix[axis:]) for k in range(d)]
            return fn_concrete(vals)
        v = al.fresh('r', sign='+0')
        return fn_symbolic(arr.at(ix[:axis] + [v] + ix[axis:]), v, d)
    return Arr.build(shape, fn, arr.dtype)


def sum_axis(arr, axis):
    def conc(vals):
        out = Poly()
        for v in vals:
            out = out + v
        return out
    return reduce_axis(arr, axis, conc,
                       lambda body, v, d: al.make_sum(body, v, 0, d))


def sum_all(arr):
    while arr.ndim():
        arr = sum_axis(arr, arr.ndim() - 1)
    return arr.data[()]


def einsum(spec, *arrs):
    spec = spec.replace(' ', '')
    if '->' in spec:
        lhs, out = spec.split('->')
    else:
        lhs = spec
        cnt = {}
        for ch in lhs.replace(',', ''):
            cnt[ch] = cnt.get(ch, 0) + 1
        out = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    ops = lhs.split(',')
    if len(ops) != len(arrs) or '.' in spec:
        raise Imprecise('einsum ' + spec)
    dims = {}
    for o, a in zip(ops, arrs):
        if len(o) != a.ndim():
            raise Imprecise('einsum rank ' + spec)
        for ch, d in zip(o, a.shape):
            if ch in dims and not same_dim(dims[ch], d):
                raise Imprecise('einsum dims')
            dims[ch] = d
    inner = [c for c in dims if c not in out]

    def fn(ix):
        env = dict(zip(out, ix))

        def rec(k):
            if k == len(inner):
                r = al.as_poly(1)
                for o, a in zip(ops, arrs):
                    r = r * a.at([env[c] for c in o])
                    if not r.t:
                        return r
                return r
            ch = inner[k]
            d = dims[ch]
            if isinstance(d, int):
                r = Poly()
                for i in range(d):
                    env[ch] = i
                    r = r + rec(k + 1)
                return r
            v = al.fresh('e', sign='+0')
            env[ch] = v
            return al.make_sum(rec(k + 1), v, 0, d)
        return rec(0)
    return Arr.build(tuple(dims[c] for c in out), fn)


def matmul(a, b):
    if a.ndim() == 1 and b.ndim() == 1:
        return einsum('i,i->', a, b)
    if a.ndim() == 2 and b.ndim() == 1:
        return einsum('ij,j->i', a, b)
    if a.ndim() == 1 and b.ndim() == 2:
        return einsum('i,ij->j', a, b)
    if a.ndim() == 2 and b.ndim() == 2:
        return einsum('ij,jk->ik', a, b)
    if a.ndim() == 3 and b.ndim() == 3:
        return einsum('aij,ajk->aik', a, b)
    if a.ndim() == 3 and b.ndim() == 2:
        return einsum('aij,jk->aik', a, b)
    raise Imprecise('matmul ranks')


def npdot(a, b):
    if a.ndim() == 0 or b.ndim() == 0:
        return elementwise(lambda x, y: x * y, a, b)
    letters = 'abcdefgh'
    la = letters[:a.ndim()]
    if b.ndim() == 1:
        return einsum('%s,%s->%s' % (la, la[-1], la[:-1]), a, b)
    lb = 'ijklmn'[:b.ndim()]
    lb = lb[:-2] + la[-1] + lb[-1]
    return einsum('%s,%s->%s' % (la, lb, la[:-1] + lb[:-2] + lb[-1]), a, b)


# -- indexing ---------------------------------------------------------------------------
def _norm_index(arr, ix):
    ix = list(ix)
    n = sum(1 for i in ix if i is not NEWAXIS and i is not ELLIPSIS)
    if ELLIPSIS in ix:
        p = ix.index(ELLIPSIS)
        ix[p:p + 1] = [SliceV(None, None, None)] * (arr.ndim() - n)
    else:
        ix += [SliceV(None, None, None)] * (arr.ndim() - n)
    if sum(1 for i in ix if i is not NEWAXIS) > arr.ndim():
        raise Imprecise('too many indices')
    return ix


def _const(v):
    if isinstance(v, (int, bool)):
        return int(v)
    if isinstance(v, Poly):
        c = v.const_value()
        if c is not None and c.denominator == 1:
            return int(c)
    return None


def slice_bounds(sl, d):
    """(lo, hi, step) with lo/hi int or Poly, non-negative."""
    step = 1 if sl.step is None else _const(sl.step)
    if step is None or step == 0:
        raise Imprecise('slice step')
    if isinstance(d, int):
        lo = None if sl.lo is None else _const(sl.lo)
        hi = None if sl.hi is None else _const(sl.hi)
        if (sl.lo is not None and lo is None) or (
                sl.hi is not None and hi is None):
            raise Imprecise('symbolic slice of a tabulated axis')
        return slice(lo, hi, step).indices(d)
    if step < 0:
        if sl.lo is None and sl.hi is None and step == -1:
            return d - 1, al.as_poly(-1), -1
        raise Imprecise('negative step')

    def norm(v, default):
        if v is None:
            return default
        v = al.as_poly(v)
        c = v.const_value()
        if c is not None and c < 0:
            return v + d
        return v
    return norm(sl.lo, al.as_poly(0)), norm(sl.hi, d), step


def get_item(arr, ix):
    """Returns a Poly (scalar) or an Arr."""
    ix = _norm_index(arr, ix)
    adv = [i for i in ix if isinstance(i, Arr)]
    shape = []
    plan = []       # per source axis: function(result index) -> source index
    advshape = ()
    advpos = None
    for a in adv:
        advshape = broadcast_shape(advshape, a.shape)
    k = 0
    for i in ix:
        if i is NEWAXIS:
            shape.append(1)
            continue
        d = arr.shape[k]
        if isinstance(i, SliceV):
            lo, hi, step = slice_bounds(i, d)
            pos = len(shape)
            if isinstance(d, int):
                idxs = list(range(lo, hi, step))
                shape.append(len(idxs))
                plan.append(('table', pos, idxs))
            else:
                if step == -1:
                    nd = dim_of(d)
                    shape.append(nd)
                    plan.append(('affine', pos, lo, -1))
                else:
                    ln = hi - lo
                    if step != 1:
                        raise Imprecise('symbolic stride')
                    nd = dim_of(ln)
                    shape.append(nd)
                    plan.append(('affine', pos, lo, step))
            k += 1
        elif isinstance(i, Arr):
            if advpos is None:
                advpos = len(shape)
                shape.extend(advshape)
            plan.append(('adv', advpos, i))
            k += 1
        else:
            plan.append(('fix', i))
            k += 1

    def fn(rix):
        src = []
        for p in plan:
            if p[0] == 'fix':
                src.append(p[1])
            elif p[0] == 'table':
                c = _const(rix[p[1]])
                src.append(p[2][c])
            elif p[0] == 'affine':
                src.append(al.as_poly(p[2]) + al.as_poly(rix[p[1]]) * p[3])
            else:
                sub = rix[p[1]:p[1] + len(advshape)]
                src.append(bget(p[2], sub, len(advshape)))
        return arr.at(src)
    res = Arr.build(tuple(shape), fn, arr.dtype)
    if res.ndim() == 0:
        return res.data[()]
    return res


def norm_bounds(p, shape):
    """Use 0 <= ax_k < shape_k to simplify the indicators of an element."""
    for a in al.indicators(p):
        k = al.atom_key(a)
        if k[0] != 'lt0':
            continue
        for n, d in enumerate(shape):
            if isinstance(d, int):
                continue
            ax = AX(n)
            u = k[1]
            if al.sid(ax) not in u.atoms():
                continue
            r = None
            if u == ax - d:
                r = al.as_poly(1)
            elif u == d - ax:
                r = Poly()
            elif u == ax - d + 1:
                r = 1 - al.eq0(u)
            elif u == d - 1 - ax:
                r = Poly()
            elif u == ax - 1:
                r = al.eq0(ax)
            if r is not None:
                hi, lo = al.cofactors(p, a)
                p = r * hi + (1 - r) * lo
                break
    return p


def set_item(arr, ix, value, op=None):
    """Functional update; op(old, new) for augmented assignment."""
    if isinstance(ix, Arr) or (len(ix) == 1 and isinstance(ix[0], Arr)
                               and ix[0].dtype == 'b'):
        mask = ix if isinstance(ix, Arr) else ix[0]
        if isinstance(value, Arr) and value.ndim() > 0:
            raise Imprecise('masked assignment of an array')
        v = value.data[()] if isinstance(value, Arr) else al.as_poly(value)

        def upd(old, m):
            return al.ite(m, op(old, v) if op else v, old)
        return elementwise(upd, arr, mask, dtype=arr.dtype)
    ix = _norm_index(arr, ix)
    if any(i is NEWAXIS for i in ix):
        raise Imprecise('newaxis in store')
    if any(isinstance(i, Arr) for i in ix):
        return _set_adv(arr, ix, value, op)
    # result axes of the selection
    rshape = []
    plan = []
    for k, i in enumerate(ix):
        d = arr.shape[k]
        if isinstance(i, SliceV):
            lo, hi, step = slice_bounds(i, d)
            if isinstance(d, int):
                idxs = list(range(lo, hi, step))
                plan.append(('table', len(rshape), idxs))
                rshape.append(len(idxs))
            else:
                if step != 1:
                    raise Imprecise('strided store')
                plan.append(('affine', len(rshape), lo, hi))
                rshape.append(dim_of(hi - lo))
        else:
            c = _const(i)
            if c is not None and c < 0:
                i = al.as_poly(c) + d
            elif c is not None:
                i = al.as_poly(c)
            plan.append(('fix', i))
    val = value if isinstance(value, Arr) else Arr((), {(): al.as_poly(value)})
    n = len(rshape)
    vs = val
    if vs.ndim() > n:
        while vs.ndim() > n and vs.shape[0] == 1:
            vs = get_item(vs, [0]) if vs.ndim() > 1 else vs
        if vs.ndim() > n:
            raise Imprecise('store of rank %d into %d' % (val.ndim(), n))
    for a, b in zip(vs.shape[::-1], rshape[::-1]):
        if a != 1 and not same_dim(a, b):
            raise (BadShape if shapes_clash(vs.shape, rshape) else Imprecise)(
                'store shape %s into %s' % (vs.shape, rshape))
    def fn(cell):
        cond = al.as_poly(1)
        rix = [None] * n
        for k, p in enumerate(plan):
            here = cell[k]
            if p[0] == 'fix':
                cond = cond * al.eq0(al.as_poly(here) - al.as_poly(p[1]))
            elif p[0] == 'table':
                c = _const(here)
                if c not in p[2]:
                    return arr.at(cell)
                rix[p[1]] = p[2].index(c)
            else:
                lo, hi = p[2], p[3]
                d = arr.shape[k]
                here = al.as_poly(here)
                if not (lo == 0 or lo == al.as_poly(0)):
                    cond = cond * (1 - al.lt0(here - lo))
                if not same_dim(dim_of(hi), d):
                    cond = cond * al.lt0(here - hi)
                rix[p[1]] = here - lo
            if not cond.t:
                return arr.at(cell)
        old = arr.at(cell)
        new = bget(vs, rix, n)
        if op:
            new = op(old, new)
        return norm_bounds(al.ite(cond, new, old), arr.shape)
    return Arr.build(arr.shape, fn, arr.dtype)


def _set_adv(arr, ix, value, op):
    """Advanced store with constant integer index arrays."""
    adv = [(k, i) for k, i in enumerate(ix) if isinstance(i, Arr)]
    sh = ()
    for _, a in adv:
        sh = broadcast_shape(sh, a.shape)
    if any(not isinstance(d, int) for d in sh) or any(
            v.const_value() is None for _, a in adv for v in a.data.values()):
        raise Imprecise('symbolic advanced store')
    if [k for k, _ in adv] != list(range(adv[0][0], adv[0][0] + len(adv))):
        raise Imprecise('split advanced store')
    val = value if isinstance(value, Arr) else Arr((), {(): al.as_poly(value)})
    out = arr
    p0 = adv[0][0]
    for pos in itertools.product(*[range(d) for d in sh]):
        jx = list(ix)
        for k, a in adv:
            jx[k] = bget(a, pos, len(sh))
        before = [i for i in ix[:p0] if isinstance(i, SliceV)]
        after = [i for i in ix[p0 + len(adv):] if isinstance(i, SliceV)]
        nn = len(before) + len(sh) + len(after)
        if val.ndim() == 0:
            sub = val.data[()]
        else:
            full = Arr.build
            off = nn - val.ndim()
            sel = []
            for k in range(val.ndim()):
                g = k + off
                if len(before) <= g < len(before) + len(sh):
                    sel.append(0 if val.shape[k] == 1
                               else pos[g - len(before)])
                else:
                    sel.append(SliceV(None, None, None))
            sub = get_item(val, sel)
        out = set_item(out, jx, sub, op)
    return out


def has_unbound(x):
    return x is UNBOUND or (isinstance(x, GIf) and (
        has_unbound(x.a) or has_unbound(x.b)))


def bind_arms(x, r):
    """x with its unbound arms replaced by r."""
    if x is UNBOUND:
        return r
    if isinstance(x, GIf):
        return GIf(x.cond, bind_arms(x.a, r), bind_arms(x.b, r))
    return x
