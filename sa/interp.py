"""Value-flow abstract interpreter.

One pass over each function body: branches whose condition is not decided are
both followed and *merged* by gating (no path is enumerated), counted loops over
a symbolic range are summarised in closed form, calls into the analysed tree are
inlined, everything else becomes an uninterpreted application or Unknown.
Nothing of the analysed program is executed."""
import ast
import itertools
from fractions import Fraction

from . import algebra as al
from .algebra import Poly
from .values import *          # noqa
from .values import _const

ONE = Poly.const(1)
ZERO = Poly()


NDARRAY = set('''T all any argmax argmin argpartition argsort as_integer_ratio
astype base bit_count bit_length byteswap choose clip compress conj conjugate
copy ctypes cumprod cumsum data denominator device diagonal dot dtype dump dumps
fill flags flat flatten fromhex getfield hex imag is_integer item itemset itemsize
mT max mean min nbytes ndim newbyteorder nonzero numerator partition prod ptp put
ravel real repeat reshape resize round searchsorted setfield setflags shape size
sort squeeze std strides sum swapaxes take to_bytes to_device tobytes tofile
tolist tostring trace transpose var view'''.split())


class AbsRaise(Exception):
    """The current path certainly raises."""
    own = False      # a key missing from a dict of the interpreted code

    def __init__(self, exc, node=None, mod=None):
        Exception.__init__(self, repr(exc))
        self.exc, self.node, self.mod = exc, node, mod

    def __str__(self):
        k = getattr(self.exc, 'key', None)
        k = k[1] if isinstance(k, tuple) and len(k) > 1 and \
            k[0] == 'exc' else None
        line = getattr(self.node, 'lineno', None)
        if isinstance(k, str) and line and self.mod is not None:
            if k == 'KeyError' and self.own:
                k = 'KeyError_of_own_dict'
            return '%s at line %d of %s' % (k, line, getattr(
                self.mod, 'name', self.mod))
        return repr(self.exc)


class Budget(Exception):
    pass


class Event(object):
    __slots__ = ('cond', 'kind', 'name', 'args', 'kwargs', 'node', 'mod',
                 'loops', 'recv', 'result', 'handled')

    def __init__(self, cond, kind, name, args, kwargs, node, mod, loops,
                 recv=None):
        self.cond, self.kind, self.name = cond, kind, name
        self.args, self.kwargs = args, kwargs
        self.node, self.mod, self.loops = node, mod, loops
        self.recv = recv
        self.result = None
        self.handled = False

    def where(self):
        return '%s:%d' % (self.mod.rel, getattr(self.node, 'lineno', 0))

    def __repr__(self):
        return 'Event(%s %s %r %r)' % (self.kind, self.name, self.args,
                                       self.kwargs)


class Frame(object):
    def __init__(self, mod, func, env, closure=None, cls=None):
        self.mod, self.func, self.env = mod, func, env
        self.closure = closure
        self.cls = cls
        self.ctypes = {}


class Outcome(object):
    __slots__ = ('fall', 'rets', 'jumps')

    def __init__(self, fall=True, rets=None, jumps=None):
        self.fall = fall                 # does control reach the end?
        self.rets = rets or []           # (cond, value, env, heap)
        self.jumps = jumps or []         # (kind, cond, env, heap)


class Base(object):
    def __init__(self, project, models=None, budget=3000000):
        self.project = project
        self.heap = {}
        self.next_id = 1
        self.modenv = {}
        self.classes = {}
        self.frames = []
        self.pc = [ONE]
        self.loops = []
        self.events = []
        self.own = set()    # dicts displayed in the interpreted code
        self.tapes = []     # records kept by models, rewound with a loop
        self.models = dict(models or {})
        self.budget = budget
        self.steps = 0
        self.unmodelled = []       # (what, file:line)
        self.analysed = set()      # (module, qualname) of inlined functions
        self.class_regions = {}
        self.max_depth = 60
        self.assumptions = set()
        self.numeric_opaque = True
        self.tokens = None         # decimal -> symbol (files.Numbers)

    # ------------------------------------------------------------------ heap
    def alloc(self, content):
        r = Ref(self.next_id)
        self.next_id += 1
        self.heap[r.id] = content
        return r

    def content(self, v):
        if isinstance(v, Ref):
            return self.heap[v.id]
        if isinstance(v, View):
            c = self.heap[v.ref.id]
            for ix in v.idx:
                c = get_item(c, list(ix))
            return c
        return None

    def new_list(self, items):
        return self.alloc(ListC(items))

    def new_dict(self, items, open_=None):
        return self.alloc(DictC(items, open_))

    def new_arr(self, arr):
        if isinstance(arr, Arr):
            return self.alloc(arr)
        return arr

    def where(self, node):
        m = self.frames[-1].mod if self.frames else None
        return '%s:%d' % (m.rel if m else '?', getattr(node, 'lineno', 0))

    def unknown(self, why, node=None):
        w = why
        if node is not None and self.frames:
            w = '%s at %s' % (why, self.where(node))
        self.unmodelled.append(w)
        return Unknown(w)

    def event(self, kind, name, args, kwargs, node, recv=None):
        e = Event(self.cond(), kind, name, list(args), dict(kwargs), node,
                  self.frames[-1].mod if self.frames else None,
                  tuple(self.loops), recv)
        self.events.append(e)
        return e

    def tapes_at(self):
        return [len(t) for t in self.tapes]

    def rewind(self, marks):
        for t, n in zip(self.tapes, marks):
            del t[n:]

    def cond(self):
        return self.pc[-1]

    # ------------------------------------------------------------------ keys
    def key(self, v, depth=0):
        """Canonical hashable description of a value."""
        if depth > 8:
            return ('deep',)
        if isinstance(v, (Poly, str, bool, type(None), bytes)):
            return v
        if isinstance(v, int):
            return al.as_poly(v)
        if isinstance(v, tuple):
            return ('tuple',) + tuple(self.key(x, depth + 1) for x in v)
        if isinstance(v, (Ref, View)):
            c = self.content(v)
            if isinstance(c, Arr):
                return c.key()
            if isinstance(c, ListC):
                return ('list',) + tuple(self.key(x, depth + 1)
                                         for x in c.items)
            if isinstance(c, SymListC):
                return ('symlist', c.dim, al.sid(c.var),
                        self.key(c.elem, depth + 1))
            if isinstance(c, DictC):
                return ('dict', c.open) + tuple(
                    (self.key(k), self.key(x, depth + 1))
                    for k, x in sorted(c.items.items(),
                                       key=lambda kv: repr(kv[0])))
            if isinstance(c, ObjC):
                return ('obj', c.cls.name, v.id if isinstance(v, Ref) else 0)
            return ('heap', getattr(v, 'id', 0))
        if isinstance(v, Opaque):
            return ('opaque', v.key)
        if isinstance(v, GIf):
            return ('if', v.cond, self.key(v.a, depth + 1),
                    self.key(v.b, depth + 1))
        if isinstance(v, Ext):
            return ('ext', v.dotted)
        if isinstance(v, Unknown):
            return ('unknown', v.reason)
        if isinstance(v, (Func, Class)):
            return (type(v).__name__, getattr(v, 'qual', None) or v.name)
        if isinstance(v, Bound):
            return ('bound', self.key(v.func), self.key(v.self_, depth + 1))
        if isinstance(v, RangeV):
            return ('range', self.key(v.lo), self.key(v.hi), self.key(v.step))
        if isinstance(v, SliceV):
            return ('slice', self.key(v.lo), self.key(v.hi),
                    self.key(v.step))
        if isinstance(v, Arr):
            return v.key()
        if isinstance(v, Builtin):
            return ('builtin', v.name, self.key(v.recv, depth + 1))
        if isinstance(v, ModuleV):
            return ('module', v.name)
        return (type(v).__name__,)

    # --------------------------------------------------------------- numbers
    def num(self, v, node=None):
        """Poly or Arr of a numeric value."""
        if isinstance(v, Poly):
            return v
        if isinstance(v, bool):
            return al.as_poly(int(v))
        if isinstance(v, (int, float, Fraction)):
            return al.as_poly(v)
        if isinstance(v, (Ref, View)):
            c = self.content(v)
            if isinstance(c, (Arr, Poly)):
                return c
            if isinstance(c, (ListC, SymListC)):
                return self.to_array(v)
            if isinstance(c, ObjC):
                raise Imprecise('object used as a number')
        if isinstance(v, tuple):
            return self.to_array(v)
        if isinstance(v, RangeV):
            return self.to_array(v)
        if isinstance(v, Arr):
            return v
        if isinstance(v, Opaque) and self.numeric_opaque:
            if v.info.get('shape') is not None:
                return Arr.symbol(('opq', v.key), v.info['shape'])
            return al.app('opq', v.key)
        if isinstance(v, GIf):
            a, b = self.num(v.a), self.num(v.b)
            return elementwise(lambda x, y: al.ite(v.cond, x, y), a, b) \
                if isinstance(a, Arr) or isinstance(b, Arr) \
                else al.ite(v.cond, a, b)
        raise Imprecise('not a number: %r' % (v,))

    def is_numeric(self, v):
        if isinstance(v, (Poly, bool, int)):
            return True
        if isinstance(v, (Ref, View)):
            return isinstance(self.content(v), (Arr, Poly))
        if isinstance(v, Opaque):
            return not v.info.get('str')
        if isinstance(v, GIf):
            return self.is_numeric(v.a) and self.is_numeric(v.b)
        return False

    def to_array(self, v, node=None):
        c = self.content(v) if isinstance(v, (Ref, View)) else v
        if isinstance(c, (Arr, Poly)):
            return c
        if isinstance(c, RangeV):
            lo, hi, st = c.lo, c.hi, c.step
            if st != ONE:
                n = _const(hi - lo)
                if n is None:
                    raise Imprecise('strided symbolic range')
                vals = list(range(_const(lo), _const(hi), _const(st)))
                return Arr((len(vals),), {(i,): al.as_poly(x)
                                          for i, x in enumerate(vals)}, 'i')
            return Arr.build((dim_of(hi - lo),), lambda ix: lo + ix[0], 'i')
        if isinstance(c, SymListC):
            e = c.elem
            if isinstance(e, (Ref, View, tuple)):
                e = self.to_array(e)
            if isinstance(e, Opaque):
                e = self.num(e)
            if isinstance(e, Poly):
                return Arr.build((c.dim,), lambda ix: al.subst(
                    e, {al.sid(c.var): ix[0]}))
            if isinstance(e, Arr):
                def fn(ix):
                    return al.subst(e.at(ix[1:]), {al.sid(c.var): ix[0]})
                return Arr.build((c.dim,) + e.shape, fn)
            raise Imprecise('array of %r' % (e,))
        if isinstance(c, ListC):
            c = c.items
        if isinstance(c, tuple):
            vals = []
            for x in c:
                y = x
                if isinstance(x, (Ref, View, tuple, RangeV)):
                    y = self.to_array(x)
                elif isinstance(x, (bool, int, float)):
                    y = al.as_poly(x)
                elif isinstance(x, (Opaque, GIf)):
                    y = self.num(x)
                if not isinstance(y, (Poly, Arr)):
                    raise Imprecise('array element %r' % (x,))
                vals.append(y)
            if not vals:
                return Arr((0,), {})
            sh = vals[0].shape if isinstance(vals[0], Arr) else ()
            for y in vals:
                s2 = y.shape if isinstance(y, Arr) else ()
                if len(s2) != len(sh) or not all(
                        same_dim(p, q) for p, q in zip(s2, sh)):
                    raise Imprecise('ragged array')

            def fn(ix):
                y = vals[_const(ix[0])]
                return y.at(ix[1:]) if isinstance(y, Arr) else y
            if len(vals) > CONCRETE_AXIS:
                raise Imprecise('long literal array')
            return Arr.build((len(vals),) + tuple(sh), fn)
        raise Imprecise('array of %r' % (v,))

    # ----------------------------------------------------------------- truth
    def truth(self, v, node=None):
        """Condition of a value as a 0/1 Poly."""
        if isinstance(v, bool):
            return ONE if v else ZERO
        if v is None:
            return ZERO
        if isinstance(v, Poly):
            c = v.const_value()
            if c is not None:
                return ONE if c else ZERO
            if self._boolean(v):
                return v
            return ONE - al.eq0(v)
        if isinstance(v, str):
            return ONE if v else ZERO
        if isinstance(v, tuple):
            return ONE if v else ZERO
        if isinstance(v, (Ref, View)):
            c = self.content(v)
            if isinstance(c, ListC):
                return ONE if c.items else ZERO
            if isinstance(c, DictC):
                if c.items:
                    return ONE
                return ZERO if c.open is None else al.truth(('dict', c.open))
            if isinstance(c, SetC):
                return ONE if c.items else ZERO
            if isinstance(c, Arr):
                if len(c.data) == 1 and all(
                        isinstance(d, int) for d in c.shape):
                    return self.truth(list(c.data.values())[0])
                return al.truth(self.key(v))
            if isinstance(c, SymListC):
                return ONE - al.eq0(al.as_poly(c.dim))
            if isinstance(c, ObjC):
                for m in ('__bool__', '__len__'):
                    f = self.find_method(c.cls, m)
                    if f:
                        return self.truth(self.call_func(f, [v], {}, node))
                return ONE
            return ONE
        if isinstance(v, Opaque):
            return al.truth(v.key)
        if isinstance(v, GIf):
            return al.ite(v.cond, self.truth(v.a), self.truth(v.b))
        if isinstance(v, (Func, Class, Bound, Ext, ModuleV, Builtin)):
            return ONE
        if isinstance(v, RangeV):
            return al.lt0(v.lo - v.hi)
        if isinstance(v, Unknown):
            return al.truth(('unknown', v.reason))
        if v is UNBOUND:
            return al.truth(('unknown', 'unbound'))
        raise Imprecise('truth of %r' % (v,))

    @staticmethod
    def _boolean(p):
        for m in p.t:
            for a, e in m:
                if al.atom_key(a)[0] not in ('lt0', 'eq0', 'truth'):
                    return False
        # 0/1 valued on every assignment of its indicators
        def rec(q):
            ind = al.indicators(q)
            if not ind:
                return q.const_value() in (0, 1)
            hi, lo = al.cofactors(q, ind[0])
            return rec(hi) and rec(lo)
        return len(al.indicators(p)) <= 10 and rec(p)

    def decide(self, c):
        """True / False / None under the current path condition."""
        k = c.const_value()
        if k is not None:
            return bool(k)
        pc = self.cond()
        if pc == ONE:
            return None
        if not (pc * c).t:
            return False
        if not (pc * (ONE - c)).t:
            return True
        return None

    # ----------------------------------------------------------------- merge
    def mk_if(self, c, a, b):
        if a is b:
            return a
        if type(a) is type(b) and not isinstance(a, Unknown):
            try:
                if a == b:
                    return a
            except Exception:
                pass
        k = c.const_value()
        if k is not None:
            return a if k else b
        if isinstance(a, Unknown):
            return a
        if isinstance(b, Unknown):
            return b
        if isinstance(a, bool) and isinstance(b, bool):
            return al.ite(c, al.as_poly(int(a)), al.as_poly(int(b)))
        num = (Poly, bool)
        if isinstance(a, num) and isinstance(b, num):
            return al.ite(c, al.as_poly(int(a)) if isinstance(a, bool) else a,
                          al.as_poly(int(b)) if isinstance(b, bool) else b)
        if isinstance(a, tuple) and isinstance(b, tuple) and \
                len(a) == len(b):
            return tuple(self.mk_if(c, x, y) for x, y in zip(a, b))
        if isinstance(b, GIf) and b.cond == c:
            b = b.b
        if isinstance(a, GIf) and a.cond == c:
            a = a.a
        if isinstance(a, GIf) and isinstance(b, GIf) and a.cond == b.cond and \
                not isinstance(a.a, Ref):
            return self.mk_gif(a.cond, self.mk_if(c, a.a, b.a),
                               self.mk_if(c, a.b, b.b))
        return self.mk_gif(c, a, b)

    def mk_gif(self, c, a, b):
        if type(a) is type(b) and a == b:
            return a
        return GIf(c, a, b)

    def merge_env(self, c, e1, e2):
        out = {}
        for k in set(e1) | set(e2):
            a, b = e1.get(k, UNBOUND), e2.get(k, UNBOUND)
            out[k] = self.mk_if(c, a, b)
        return out

    def merge_heap(self, c, h1, h2):
        out = {}
        for k in set(h1) | set(h2):
            a, b = h1.get(k), h2.get(k)
            if a is b or b is None:
                out[k] = a
            elif a is None:
                out[k] = b
            else:
                out[k] = self.merge_content(c, a, b)
        return out

    def merge_content(self, c, a, b):
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a == b:
                return a
            try:
                return elementwise(lambda x, y: al.ite(c, x, y), a, b,
                                   dtype=a.dtype)
            except Imprecise as exc:
                return OpaqueContent(str(exc))
        if isinstance(a, ListC) and isinstance(b, ListC):
            if len(a.items) == len(b.items):
                return ListC([self.mk_if(c, x, y)
                              for x, y in zip(a.items, b.items)])
            return ListIfC(c, a, b)
        if isinstance(a, DictC) and isinstance(b, DictC):
            if a.open != b.open:
                return OpaqueContent('dict merge')
            keys = list(a.items) + [k for k in b.items if k not in a.items]
            return DictC({k: self.mk_if(c, a.items.get(k, UNBOUND),
                                        b.items.get(k, UNBOUND))
                          for k in keys}, a.open)
        if isinstance(a, ObjC) and isinstance(b, ObjC) and a.cls == b.cls:
            keys = list(a.fields) + [k for k in b.fields
                                     if k not in a.fields]
            return ObjC(a.cls, {k: self.mk_if(
                c, a.fields.get(k, UNBOUND), b.fields.get(k, UNBOUND))
                for k in keys})
        if isinstance(a, ClassC) and isinstance(b, ClassC):
            keys = list(a.attrs) + [k for k in b.attrs if k not in a.attrs]
            return ClassC({k: self.mk_if(c, a.attrs.get(k, UNBOUND),
                                         b.attrs.get(k, UNBOUND))
                           for k in keys})
        if isinstance(a, Poly) and isinstance(b, Poly):
            return al.ite(c, a, b)
        if type(a) is type(b) and isinstance(a, SymListC) and \
                a.dim == b.dim and a.elem == b.elem:
            return a
        return OpaqueContent('merge of %s and %s' % (type(a).__name__,
                                                     type(b).__name__))

    # --------------------------------------------------------------- modules
    def module_env(self, name):
        if name in self.modenv:
            return self.modenv[name]
        mod = self.project.module(name)
        env = {'__name__': name}
        self.modenv[name] = env
        saved = self.frames, self.pc, self.loops
        self.frames, self.pc, self.loops = [], [ONE], []
        fr = Frame(mod, None, env)
        fr.is_module = True
        self.frames.append(fr)
        try:
            for e in mod.externs:
                env[e] = Ext('libc.math.' + e)
            for st in mod.tree.body:
                try:
                    self.exec_stmts([st])
                    # merges may have replaced the environment object
                    if fr.env is not env:
                        env.update(fr.env)
                        fr.env = env
                except (AbsRaise, Imprecise) as exc:
                    self.unmodelled.append('module level %s:%d %s' % (
                        mod.rel, st.lineno, exc))
        finally:
            self.frames, self.pc, self.loops = saved
        return env

    def module_attr(self, name, attr):
        env = self.module_env(name)
        if attr in env:
            return env[attr]
        sub = name + '.' + attr
        if sub in self.project.modules:
            return ModuleV(sub)
        return None

    def get(self, modname, qual):
        parts = qual.split('.')
        v = self.module_env(modname).get(parts[0])
        if v is None:
            raise_missing(modname, qual)
        for p in parts[1:]:
            if isinstance(v, Class):
                f = self.find_method(v, p)
                if f is None:
                    raise_missing(modname, qual)
                v = f
            else:
                raise_missing(modname, qual)
        return v

    # --------------------------------------------------------------- classes
    def find_method(self, cls, name):
        v = self.class_attr(cls, name)
        return v if isinstance(v, Func) else None

    def class_attr(self, cls, name, default=None):
        for c in cls.mro:
            attrs = self.heap[c.ref.id].attrs
            if name in attrs:
                return attrs[name]
        return default

    def fully_known(self, cls):
        """Every base class is part of the analysed tree (or object)."""
        return not any(c.opaque for c in cls.mro)

    def define_class(self, node, mod):
        bases = []
        for b in node.bases:
            try:
                v = self.ev(b)
            except (Imprecise, AbsRaise):
                v = None
            if isinstance(v, Class):
                bases.append(v)
        ref = self.alloc(ClassC({}))
        cls = Class(node, mod, [], ref)
        mro = [cls]
        for b in bases:
            for x in b.mro:
                if x in mro:
                    mro.remove(x)
                mro.append(x)
        cls.mro = mro
        cls.ext_bases = [b for b in node.bases]
        cls.opaque = len(bases) < len([
            b for b in node.bases
            if not (isinstance(b, ast.Name) and b.id == 'object')])
        # class body
        fr = Frame(mod, None, {}, closure=self.frames[-1].env
                   if self.frames and self.frames[-1].func else None, cls=cls)
        self.frames.append(fr)
        try:
            for st in node.body:
                try:
                    self.exec_stmts([st])
                except (Imprecise, AbsRaise) as exc:
                    self.unmodelled.append('class body %s: %s' % (node.name,
                                                                 exc))
        finally:
            self.frames.pop()
        attrs = {}
        for k, v in fr.env.items():
            if isinstance(v, Func):
                v.cls = cls
                v.qual = node.name + '.' + v.node.name
            if isinstance(v, PropertyV):
                for f in (v.get, v.set):
                    if f is not None:
                        f.cls = cls
                        f.qual = node.name + '.' + f.node.name
            if isinstance(v, (StaticV,)):
                v.func.cls = cls
                v.func.qual = node.name + '.' + v.func.node.name
            attrs[k] = v
        self.heap[ref.id] = ClassC(attrs)
        return cls

    def instantiate(self, cls, args, kwargs, node=None):
        ref = self.alloc(ObjC(cls, {}))
        init = self.find_method(cls, '__init__')
        if init is not None:
            self.call_func(init, [ref] + list(args), kwargs, node)
        return ref

    def new_object(self, cls, fields=None):
        return self.alloc(ObjC(cls, fields or {}))

    # ------------------------------------------------------------ attributes
    def get_attr(self, v, name, node=None):
        if isinstance(v, ModuleV):
            r = self.module_attr(v.name, name)
            if r is None:
                return self.unknown('attribute %s.%s' % (v.name, name), node)
            return r
        if isinstance(v, Ext):
            return self.ext_attr(v, name)
        if isinstance(v, GIf):
            return self.split(v, lambda x: self.get_attr(x, name, node))
        if isinstance(v, Class):
            if name == '__name__':
                return v.name
            r = self.class_attr(v, name, UNBOUND)
            if isinstance(r, StaticV):
                return Bound(r.func, v) if r.is_class else r.func
            if r is UNBOUND:
                return self.unknown('class attribute %s.%s' % (v.name, name),
                                    node)
            return r
        if isinstance(v, SuperV):
            mro = v.self_cls.mro
            i = mro.index(v.cls)
            for c in mro[i + 1:]:
                attrs = self.heap[c.ref.id].attrs
                if name in attrs:
                    r = attrs[name]
                    if isinstance(r, Func):
                        return Bound(r, v.self_)
                    if isinstance(r, PropertyV):
                        return self.call_func(r.get, [v.self_], {}, node)
                    return r
            return Builtin('super.' + name, v)
        if isinstance(v, (Ref, View)):
            c = self.content(v)
            if isinstance(c, ObjC):
                r = self.class_attr(c.cls, name, UNBOUND)
                if isinstance(r, PropertyV):
                    return self.call_func(r.get, [v], {}, node)
                if name in c.fields:
                    x = c.fields[name]
                    if not has_unbound(x):
                        return x
                    if r is not UNBOUND and not isinstance(
                            r, (Func, StaticV)):
                        return bind_arms(x, r)
                    if x is not UNBOUND:
                        return x
                if isinstance(r, Func):
                    return Bound(r, v)
                if isinstance(r, StaticV):
                    return Bound(r.func, c.cls) if r.is_class else r.func
                if r is not UNBOUND:
                    return r
                if name == '__class__':
                    return c.cls
                if name == '__dict__':
                    return self.unknown('__dict__', node)
                g = self.find_method(c.cls, '__getattr__')
                if g is not None:
                    return self.call_func(g, [v, name], {}, node)
                if self.frames:
                    self.event('noattr', name, [v], {}, node)
                if self.fully_known(c.cls) and not name.startswith('__'):
                    raise AbsRaise(Opaque(('exc', 'AttributeError', name)),
                                   node)
                return self.unknown('object %s has no attribute %s' % (
                    c.cls.name, name), node)
            if isinstance(c, Arr):
                return self.arr_attr(v, c, name)
            if isinstance(c, Poly):
                return self.arr_attr(v, c, name)
            self.known_attr(c, v, name, node)
            return Builtin('method.' + name, v)
        if isinstance(v, Poly):
            return self.arr_attr(v, v, name)
        if isinstance(v, (str, bytes)):
            self.known_attr(v, v, name, node)
            return Builtin('method.' + name, v)
        if isinstance(v, Opaque):
            known = v.info.get('attrs')
            if known is not None and name in known:
                return known[name]
            return Opaque(('attr', v.key, name))
        if isinstance(v, Bound):
            if name == '__name__':
                return v.func.node.name
            return self.unknown('attribute of method', node)
        if isinstance(v, Func):
            if name == '__name__':
                return v.node.name
            return self.unknown('attribute of function', node)
        if isinstance(v, Unknown):
            return v
        if isinstance(v, (tuple,)):
            self.known_attr(v, v, name, node)
            return Builtin('method.' + name, v)
        if isinstance(v, Builtin):
            return Builtin(v.name + '.' + name, v.recv)
        if v is None:
            self.event('noattr', name, [v], {}, node)
            raise AbsRaise(Opaque(('exc', 'AttributeError', name)), node)
        if type(v).__name__ == 'PolyV':
            return self.alloc(v.coef) if name == 'coef' else \
                Builtin('method.' + name, v)
        return self.unknown('attribute %s of %r' % (name, v), node)

    def known_attr(self, c, v, name, node):
        """AttributeError of built-in types."""
        kind = str if isinstance(c, str) else tuple if isinstance(c, tuple) \
            else list if isinstance(c, (ListC, SymListC, ListIfC)) else \
            set if isinstance(c, SetC) else dict if isinstance(c, DictC) \
            and getattr(v, 'id', None) in self.own else None
        if kind is not None and not hasattr(kind, name):
            self.event('noattr', name, [v], {}, node)
            raise AbsRaise(Opaque(('exc', 'AttributeError', name)), node,
                           self.frames[-1].mod if self.frames else None)

    def ext_attr(self, v, name):
        d = v.dotted + '.' + name
        c = CONSTANTS.get(d)
        if c is not None:
            return c
        return Ext(d)

    def arr_attr(self, v, c, name):
        isarr = isinstance(c, Arr)
        if name == 'shape':
            return tuple(al.as_poly(d) for d in c.shape) if isarr else ()
        if name not in NDARRAY and name[:1] != '_':
            self.event('noattr', name, [v], {}, None)
            raise AbsRaise(Opaque(('exc', 'AttributeError', name)), None,
                           self.frames[-1].mod if self.frames else None)
        if name == 'size':
            r = ONE
            for d in (c.shape if isarr else ()):
                r = r * al.as_poly(d)
            return r
        if name == 'ndim':
            return al.as_poly(c.ndim() if isarr else 0)
        if name == 'T':
            if not isarr:
                return c
            return self.new_arr(transpose(c, list(range(c.ndim()))[::-1]))
        if name in ('real', 'imag'):
            if name == 'real' and not any(
                    al.IMAG_ID in p.all_atoms() for p in (
                        c.data.values() if isarr else [c])
                    if isinstance(p, Poly)):
                return v
            return self.map_num(al.real_part if name == 'real' else
                                al.imag_part, v)
        if name == 'dtype':
            return Opaque(('dtype', c.dtype if isarr else 'f'))
        if name == 'flat':
            return self.call_np('ravel', [v], {}, None)
        if name in ('split', 'rsplit', 'splitlines', 'strip', 'lstrip',
                    'rstrip', 'startswith', 'endswith', 'lower', 'upper',
                    'replace', 'join', 'format', 'append', 'keys', 'items'):
            # numbers and arrays have none of the methods of text and lists
            self.event('raise', 'AttributeError', [name], {}, None)
            raise AbsRaise(Opaque(('exc', 'AttributeError', name)), None)
        return Builtin('method.' + name, v)

    def set_attr(self, v, name, value, node=None):
        if isinstance(v, GIf):
            # weak update of both objects
            for cond, x in ((v.cond, v.a), (ONE - v.cond, v.b)):
                if isinstance(x, Ref) and isinstance(self.heap[x.id], ObjC):
                    o = self.heap[x.id]
                    f = dict(o.fields)
                    f[name] = self.mk_if(cond, value, f.get(name, UNBOUND))
                    self.heap[x.id] = ObjC(o.cls, f)
            return
        if isinstance(v, Ref):
            o = self.heap[v.id]
            if isinstance(o, ObjC):
                r = self.class_attr(o.cls, name)
                if isinstance(r, PropertyV):
                    if r.set is None:
                        self.event('raise', 'AttributeError', [name], {},
                                   node)
                        raise AbsRaise(Opaque(('exc', 'AttributeError',
                                               name)), node)
                    self.call_func(r.set, [v, value], {}, node)
                    return
                f = dict(o.fields)
                f[name] = value
                self.heap[v.id] = ObjC(o.cls, f)
                self.event('setattr', name, [v, value], {}, node)
                return
        if isinstance(v, Class):
            c = self.heap[v.ref.id]
            a = dict(c.attrs)
            a[name] = value
            self.heap[v.ref.id] = ClassC(a)
            self.event('setclassattr', name, [v, value], {}, node)
            return
        if isinstance(v, (Opaque, Ext, Unknown, ModuleV)):
            self.event('setattr', name, [v, value], {}, node)
            return
        if isinstance(v, (Ref, View)) and name == 'shape':
            raise Imprecise('shape assignment')
        self.event('setattr', name, [v, value], {}, node)

    def split(self, g, fn):
        """Apply fn to both arms of a gated value, merging effects."""
        d = self.decide(g.cond)
        if d is True:
            return fn(g.a)
        if d is False:
            return fn(g.b)
        if g.a is UNBOUND or isinstance(g.a, type(None)) and False:
            pass
        base_heap, base_env = self.heap, self.frames[-1].env \
            if self.frames else {}
        res = []
        raised = []
        for cond, x in ((g.cond, g.a), (ONE - g.cond, g.b)):
            self.heap = dict(base_heap)
            if self.frames:
                self.frames[-1].env = dict(base_env)
            self.pc.append(self.cond() * cond)
            try:
                r = fn(x)
                res.append((cond, r, self.heap,
                            self.frames[-1].env if self.frames else {}))
            except AbsRaise as exc:
                raised.append(exc)
            finally:
                self.pc.pop()
        if not res:
            self.heap = base_heap
            if self.frames:
                self.frames[-1].env = base_env
            raise raised[0]
        if len(res) == 1:
            self.heap = res[0][2]
            if self.frames:
                self.frames[-1].env = res[0][3]
            return res[0][1]
        c = g.cond
        self.heap = self.merge_heap(c, res[0][2], res[1][2])
        if self.frames:
            self.frames[-1].env = self.merge_env(c, res[0][3], res[1][3])
        return self.mk_if(c, res[0][1], res[1][1])

    def map_num(self, fn, v, dtype='f'):
        x = self.num(v)
        if isinstance(x, Arr):
            return self.new_arr(x.map(fn, dtype))
        return fn(x)


class PropertyV(object):
    def __init__(self, get, set_=None):
        self.get, self.set = get, set_


class StaticV(object):
    def __init__(self, func, is_class):
        self.func, self.is_class = func, is_class


class OpaqueContent(object):
    """Heap content about which nothing is known."""

    def __init__(self, why):
        self.why = why


class ListIfC(object):
    """A list whose length depends on a condition."""

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


def raise_missing(modname, qual):
    from .project import AnalysisError
    raise AnalysisError('%s.%s not found' % (modname, qual))


def _pos(name):
    return al.sym(name, sign=1, scalar=True)


CONSTANTS = {
    'numpy.pi': al.PI, 'math.pi': al.PI, 'scipy.constants.pi': al.PI,
    'scipy.pi': al.PI,
    'scipy.constants.Planck': _pos('h'), 'scipy.constants.h': _pos('h'),
    'scipy.constants.Boltzmann': _pos('kB'), 'scipy.constants.k': _pos('kB'),
    'scipy.constants.Avogadro': _pos('NA'),
    'scipy.constants.N_A': _pos('NA'),
    'scipy.constants.hbar': _pos('h') * (ONE / (al.PI * 2)),
    'scipy.constants.c': _pos('c'),
    'scipy.constants.speed_of_light': _pos('c'),
    'scipy.constants.R': _pos('NA') * _pos('kB'),
    'scipy.constants.gas_constant': _pos('NA') * _pos('kB'),
    'scipy.constants.atomic_mass': _pos('amu'),
    'scipy.constants.u': _pos('amu'), 'scipy.constants.m_u': _pos('amu'),
    'scipy.constants.e': _pos('eV'),
    'scipy.constants.elementary_charge': _pos('eV'),
    'scipy.constants.eV': _pos('eV'),
    'scipy.constants.electron_volt': _pos('eV'),
    'scipy.constants.calorie': al.as_poly(Fraction('4.184')),
    'scipy.constants.angstrom': al.as_poly(Fraction(1, 10 ** 10)),
    'scipy.constants.atm': al.as_poly(101325),
    'scipy.constants.bar': al.as_poly(100000),
    'scipy.constants.kilo': al.as_poly(1000),
    'scipy.constants.mega': al.as_poly(10 ** 6),
    'scipy.constants.giga': al.as_poly(10 ** 9),
    'scipy.constants.tera': al.as_poly(10 ** 12),
    'scipy.constants.milli': al.as_poly(Fraction(1, 10 ** 3)),
    'scipy.constants.micro': al.as_poly(Fraction(1, 10 ** 6)),
    'scipy.constants.nano': al.as_poly(Fraction(1, 10 ** 9)),
    'scipy.constants.pico': al.as_poly(Fraction(1, 10 ** 12)),
    'scipy.constants.zero_Celsius': al.as_poly(Fraction('273.15')),
    'numpy.newaxis': NEWAXIS,
    'numpy.nan': al.sym('nan'), 'numpy.NaN': al.sym('nan'),
    'numpy.NAN': al.sym('nan'), 'math.nan': al.sym('nan'),
    'numpy.inf': _pos('inf'), 'math.inf': _pos('inf'),
    'math.e': al.exp(ONE), 'numpy.e': al.exp(ONE),
}
PHYSICAL = {
    'Angstrom star': 'Angstar', 'Bohr radius': 'a0', 'electron volt': 'eV',
    'Hartree energy': 'Ha', 'Rydberg constant times hc in J': 'Ry',
    'Planck constant': 'h', 'Boltzmann constant': 'kB',
    'Avogadro constant': 'NA', 'atomic mass constant': 'amu',
    'speed of light in vacuum': 'c', 'elementary charge': 'eV',
}
