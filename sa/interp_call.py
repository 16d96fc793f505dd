"""Calls: inlining of the analysed tree, models of the standard library, NumPy
and SciPy names the tree uses; anything else is an uninterpreted call."""
import ast
import itertools
import math
import os
from fractions import Fraction

from . import algebra as al
from .algebra import Poly
from .values import *          # noqa
from .values import _const
from .interp import (AbsRaise, Frame, Outcome, ONE, ZERO, PropertyV, StaticV,
                     OpaqueContent, ListIfC, PHYSICAL, CONSTANTS, Base)
from .interp_exec import (AccListC, AbsReturnUnknown, ExecMixin, is_integer, single,
                          restrict)
from .interp_expr import ExprMixin, IterV, floordiv, mod


class CallMixin(object):

    def call(self, f, args, kwargs, node):
        self.tick(node)
        if isinstance(f, GIf):
            return self.split(f, lambda g: self.call(g, args, kwargs, node))
        if isinstance(f, Unknown):
            return f
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs, node)
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.self_] + list(args), kwargs,
                                  node)
        if isinstance(f, Class):
            m = self.models.get(f.mod.name + '.' + f.name)
            if m is not None:
                return m(self, args, kwargs, node)
            return self.instantiate(f, args, kwargs, node)
        if isinstance(f, Builtin):
            return self.call_builtin(f, args, kwargs, node)
        if isinstance(f, Ext):
            return self.call_ext(f.dotted, args, kwargs, node)
        if isinstance(f, Opaque):
            return self.call_opaque(f, args, kwargs, node)
        if isinstance(f, Partial):
            if isinstance(f.fn, Builtin) and f.fn.name == 'op.itemgetter':
                return self.subscript(args[0], f.args[0], node)
            return self.call(f.fn, f.args + list(args),
                             dict(f.kwargs, **kwargs), node)
        if isinstance(f, PolyV):
            return self.map_num(self.polyval(f.coef, None, False), args[0])
        if isinstance(f, (Ref, View)):
            c = self.content(f)
            if isinstance(c, ObjC):
                m = self.find_method(c.cls, '__call__')
                if m:
                    return self.call_func(m, [f] + list(args), kwargs, node)
            elif not isinstance(c, OpaqueContent):
                self.no_call(f, args, node)
        if f is None or isinstance(f, (str, tuple, Poly, RangeV)):
            self.no_call(f, args, node)
        return self.unknown('call of %r' % (f,), node)

    def no_call(self, f, args, node):
        self.event('raise', 'TypeError', [f], {}, node)
        raise AbsRaise(Opaque(('exc', 'TypeError', 'not callable')), node,
                       self.frames[-1].mod if self.frames else None)

    def call_opaque(self, f, args, kwargs, node):
        name = f.key
        e = self.event('opaque', f.key, args, kwargs, node, f)
        # containers handed to unknown code may be changed by it
        key = ('call', self.key(f)) + tuple(self.key(a) for a in args) + \
            tuple(sorted(((k, self.key(v)) for k, v in kwargs.items()),
                         key=repr))
        e.result = Opaque(key)
        return e.result

    # ---------------------------------------------------------------- functions
    def call_func(self, f, args, kwargs, node):
        full = f.mod.name + '.' + f.qual
        m = self.models.get(full)
        if m is not None:
            return m(self, args, kwargs, node)
        if len(self.frames) > self.max_depth:
            return self.unknown('call depth', node)
        a = f.node.args
        env = {}
        pos = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        opaque_star = [x for x in args if isinstance(x, Opaque) and
                       x.key and x.key[0] == 'star']
        for p, v in zip(pos, args):
            env[p] = v
        if len(args) > len(pos):
            if a.vararg:
                env[a.vararg.arg] = tuple(args[len(pos):])
            else:
                self.event('arity', f.qual, args, kwargs, node)
                raise AbsRaise(Opaque(('exc', 'TypeError', 'arity')), node)
        elif a.vararg:
            env[a.vararg.arg] = ()
        star = kwargs.pop('**', None)
        extra = {}
        kwonly = [p.arg for p in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in pos or k in kwonly:
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.event('arity', f.qual, args, kwargs, node)
                raise AbsRaise(Opaque(('exc', 'TypeError', 'arity')), node)
        if a.kwarg:
            env[a.kwarg.arg] = self.new_dict(extra)
        for p in pos + kwonly:
            if p not in env:
                if p in (f.defaults or {}):
                    env[p] = f.defaults[p]
                elif star is not None or opaque_star:
                    env[p] = Opaque(('param', f.qual, p))
                else:
                    self.event('arity', f.qual, args, kwargs, node)
                    raise AbsRaise(Opaque(('exc', 'TypeError', 'arity')),
                                   node)
        for p in a.posonlyargs + a.args:
            ct = p.annotation.value if isinstance(p.annotation, ast.Constant) \
                else None
            v = env.get(p.arg)
            if ct == 'cint' and isinstance(v, Poly) and not is_integer(v):
                env[p.arg] = al.app('trunc', v)
            elif ct == 'cfloat' and isinstance(v, Poly) and \
                    not is_integer(v):
                env[p.arg] = al.app('float32', v)
        ret_ct = f.node.returns.value if isinstance(
            f.node, ast.FunctionDef) and isinstance(
                f.node.returns, ast.Constant) else None
        self.analysed.add((f.mod.name, f.qual))
        fr = Frame(f.mod, f, env, closure=f.closure, cls=f.cls)
        self.frames.append(fr)
        entry = self.cond()
        self.pc.append(entry)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body)
            try:
                o = self.exec_stmts(f.node.body)
            except AbsReturnUnknown as exc:
                return Unknown(exc.why)
            rets = list(o.rets)
            if o.fall:
                rets.append((None, None, fr.env, self.heap))
            rets = [r for r in rets if r[0] is None or r[0].t]
            if not rets:
                for j in o.jumps:
                    if j[0] == 'raise':
                        raise j[2]
                raise AbsRaise(Opaque(('exc', 'unreachable')), node)
            cur = rets[-1]
            value, heap, env2 = cur[1], cur[3], cur[2]
            for r in reversed(rets[:-1]):
                c = restrict(r[0], entry)
                value = self.mk_if(c, r[1], value)
                heap = self.merge_heap(c, r[3], heap)
                env2 = self.merge_env(c, r[2], env2)
            self.heap = heap
            fr.env = env2
            y = fr.env.get('.yield')
            if y is not None:
                return y
            if ret_ct == 'cint' and isinstance(value, Poly) and \
                    not is_integer(value):
                value = al.app('trunc', value)
            if ret_ct == 'cfloat' and isinstance(value, Poly) and \
                    not is_integer(value):
                value = al.app('float32', value)
            return value
        except AbsRaise as e:
            if e.mod is None and e.node is not None:
                e.mod = f.mod
            raise
        finally:
            self.pc.pop()
            self.frames.pop()

    # ---------------------------------------------------------------- builtins
    def call_builtin(self, f, args, kwargs, node):
        name = f.name
        if name.startswith('builtin.'):
            m = getattr(self, 'bi_' + name[8:], None)
            if m is None:
                self.event('call', name, args, kwargs, node)
                return Opaque(('call', name) + tuple(self.key(a)
                                                     for a in args))
            return self.modelled(lambda I, a, k, n: m(a, k, n), name, args,
                                 kwargs, node)
        if name.startswith('super.'):
            return None
        if name.startswith('method.'):
            return self.call_method(f.recv, name[7:], args, kwargs, node)
        return self.unknown('builtin ' + name, node)

    def bi_range(self, args, kwargs, node):
        a = [self.num(x) for x in args]
        for x in a:
            if not isinstance(x, Poly):
                raise Imprecise('range of array')
            if not is_integer(x) and x.const_value() is not None:
                raise AbsRaise(Opaque(('exc', 'TypeError')), node)
        if len(a) == 1:
            return RangeV(ZERO, a[0], ONE)
        if len(a) == 2:
            return RangeV(a[0], a[1], ONE)
        return RangeV(a[0], a[1], a[2])

    bi_prange = bi_range

    def bi_len(self, args, kwargs, node):
        v = args[0]
        if isinstance(v, GIf):
            return self.split(v, lambda x: self.bi_len([x], {}, node))
        if isinstance(v, (str, tuple)):
            return al.as_poly(len(v))
        c = self.content(v)
        if isinstance(c, AccListC):
            raise Imprecise('length of a list under construction')
        if isinstance(c, (ListC, SetC)):
            return al.as_poly(len(c.items))
        if isinstance(c, SymListC):
            return al.as_poly(c.dim)
        if isinstance(c, DictC) and c.open is None:
            return al.as_poly(len(c.items))
        if isinstance(c, Arr):
            if c.ndim() == 0:
                raise AbsRaise(Opaque(('exc', 'TypeError')), node)
            return al.as_poly(c.shape[0])
        if isinstance(v, RangeV):
            return v.hi - v.lo
        if isinstance(v, Opaque):
            if v.info.get('shape'):
                return al.as_poly(v.info['shape'][0])
            return al.app('len', self.key(v), int=True, sign='+0')
        if isinstance(c, ObjC):
            m = self.find_method(c.cls, '__len__')
            if m:
                return self.call_func(m, [v], {}, node)
        if isinstance(v, IterV):
            s = v.symbolic(self)
            if s:
                return al.as_poly(s[1])
        if isinstance(v, Unknown):
            return v
        if isinstance(v, Poly) or v is None or isinstance(v, bool):
            self.event('raise', 'TypeError', args, {}, node)
            raise AbsRaise(Opaque(('exc', 'TypeError', 'len of scalar')),
                           node)
        raise Imprecise('len of %r' % (v,))

    def bi_enumerate(self, args, kwargs, node):
        s = args[1] if len(args) > 1 else kwargs.get('start', ZERO)
        return IterV('enumerate', [args[0]], self.num(s))

    def bi_zip(self, args, kwargs, node):
        return IterV('zip', list(args))

    def bi_map(self, args, kwargs, node):
        return IterV('map', list(args[1:]), args[0])

    def bi_filter(self, args, kwargs, node):
        items = self.iter_concrete(args[1])
        if items is None:
            raise Imprecise('filter of symbolic')
        out = []
        for x in items:
            t = x if args[0] is None else self.call(args[0], [x], {}, node)
            d = self.decide(self.truth(t))
            if d is None:
                raise Imprecise('undecided filter')
            if d:
                out.append(x)
        return self.new_list(out)

    def bi_reversed(self, args, kwargs, node):
        return IterV('reversed', [args[0]])

    def bi_iter(self, args, kwargs, node):
        return args[0]

    def bi_list(self, args, kwargs, node):
        if not args:
            return self.new_list([])
        v = args[0]
        items = self.iter_concrete(v)
        if items is not None:
            return self.new_list(items)
        if isinstance(v, Opaque):
            return Opaque(('list', v.key))
        s = self.iter_symbolic(v)
        if s is not None:
            k = al.fresh('l', sign='+0')
            return self.alloc(SymListC(dim_of(al.as_poly(s[1]) - s[0]), k,
                                       s[2](al.as_poly(s[0]) + k)))
        raise Imprecise('list()')

    def bi_tuple(self, args, kwargs, node):
        if not args:
            return ()
        items = self.iter_concrete(args[0])
        if items is not None:
            return tuple(items)
        return self.bi_list(args, kwargs, node)

    def bi_set(self, args, kwargs, node):
        items = self.iter_concrete(args[0]) if args else []
        if items is None:
            return Opaque(('set', self.key(args[0])))
        out = []
        for x in items:
            if x not in out:
                out.append(x)
        return self.alloc(SetC(out))

    bi_frozenset = bi_set

    def bi_dict(self, args, kwargs, node):
        d, open_ = {}, None
        if args:
            c = self.content(args[0])
            if isinstance(c, DictC):
                d.update(c.items)
                open_ = c.open
            elif isinstance(args[0], Opaque):
                open_ = args[0].key
            else:
                items = self.iter_concrete(args[0])
                if items is None:
                    raise Imprecise('dict()')
                for it in items:
                    k, v = self.iter_concrete(it)
                    d[self.dict_key(k)] = v
        if '**' in kwargs:
            raise Imprecise('dict(**)')
        d.update(kwargs)
        return self.new_dict(d, open_)

    def bi_str(self, args, kwargs, node):
        if not args:
            return ''
        v = args[0]
        if isinstance(v, str):
            return v
        return self.format_value(v)

    def bi_repr(self, args, kwargs, node):
        return Opaque(('repr', self.key(args[0])), str=True)

    def bi_format(self, args, kwargs, node):
        return self.format_value(args[0], args[1] if len(args) > 1 else '')

    def bi_int(self, args, kwargs, node):
        v = args[0] if args else ZERO
        if isinstance(v, bool):
            return al.as_poly(int(v))
        if isinstance(v, str):
            try:
                if self.tokens is not None and self.tokens.get(
                        Fraction(int(v))) is not None:
                    return self.tokens.get(Fraction(int(v)))
                return al.as_poly(int(v))
            except ValueError:
                self.event('raise', 'ValueError', args, {}, node)
                raise AbsRaise(Opaque(('exc', 'ValueError')), node)
        if isinstance(v, Opaque):
            return al.app('int', self.key(v), int=True)
        if isinstance(v, GIf) and not self.gif_numeric(v):
            return self.split(v, lambda x: self.bi_int([x], {}, node))
        p = self.num(v)
        if isinstance(p, Arr):
            if len(p.data) != 1:
                raise Imprecise('int of array')
            p = list(p.data.values())[0]
        c = p.const_value()
        if c is not None:
            return al.as_poly(int(c))
        if is_integer(p):
            return p
        return al.app('trunc', p, int=True)

    def bi_float(self, args, kwargs, node):
        v = args[0] if args else ZERO
        if isinstance(v, str):
            try:
                if '/' in v:
                    raise ValueError(v)
                if self.tokens is not None and \
                        self.tokens.read(v) is not None:
                    return self.tokens.read(v)
                return al.as_poly(Fraction(v.strip()))
            except ValueError:
                if v.strip().lower() in ('nan', 'inf'):
                    return al.sym(v.strip().lower())
                self.event('raise', 'ValueError', args, {}, node)
                raise AbsRaise(Opaque(('exc', 'ValueError')), node)
        if isinstance(v, Opaque):
            return al.app('float', self.key(v))
        if v is None:
            raise AbsRaise(Opaque(('exc', 'TypeError')), node)
        if isinstance(v, GIf) and not self.gif_numeric(v):
            return self.split(v, lambda x: self.bi_float([x], {}, node))
        p = self.num(v)
        if isinstance(p, Arr):
            if len(p.data) != 1:
                raise Imprecise('float of array')
            p = list(p.data.values())[0]
        return p

    def bi_bool(self, args, kwargs, node):
        return self.tidy_bool(self.truth(args[0] if args else None))

    def bi_complex(self, args, kwargs, node):
        return al.app('complex', *[self.num(a) for a in args])

    def bi_sum(self, args, kwargs, node):
        v = args[0]
        start = self.num(args[1] if len(args) > 1 else kwargs.get('start',
                                                                  ZERO))
        items = self.iter_concrete(v)
        if items is not None:
            out = start
            for x in items:
                x = self.num(x)
                if isinstance(out, Arr) or isinstance(x, Arr):
                    out = elementwise(lambda a, b: a + b, out, x)
                else:
                    out = out + x
            return self.np_result(out)
        s = self.iter_symbolic(v)
        if s is None:
            raise Imprecise('sum')
        k = al.fresh('s', sign='+0')
        e = self.num(s[2](k))
        if isinstance(e, Arr):
            return self.np_result(elementwise(
                lambda a, b: a + b, start,
                e.map(lambda p: al.make_sum(p, k, s[0], s[1]))))
        return start + al.make_sum(e, k, s[0], s[1])

    def minmax(self, name, args, kwargs, node):
        items = list(args) if len(args) > 1 else self.iter_concrete(args[0])
        if 'key' in kwargs:
            return Opaque(('call', name) + tuple(self.key(a) for a in args) +
                          (self.key(kwargs['key']),))
        if items is None:
            x = self.num(args[0])
            if isinstance(x, Arr):
                return al.app(name, x.key())
            raise Imprecise(name)
        if any(isinstance(x, (str, Opaque)) for x in items):
            return Opaque(('call', name) + tuple(self.key(a) for a in items))
        vals = [self.num(x) for x in items]
        if all(isinstance(v, Poly) and v.const_value() is not None
               for v in vals) and vals:
            f = min if name == 'min' else max
            return al.as_poly(f(v.const_value() for v in vals))
        if any(isinstance(v, Arr) for v in vals):
            return al.app(name, *[self.key(v) for v in vals])
        # order independent
        vals = sorted(set(vals), key=al.show)
        if len(vals) == 1:
            return vals[0]
        ints = all(is_integer(v) for v in vals)
        return al.app(name, *vals, **({'int': True} if ints else {}))

    def bi_min(self, args, kwargs, node):
        return self.minmax('min', args, kwargs, node)

    def bi_max(self, args, kwargs, node):
        return self.minmax('max', args, kwargs, node)

    def bi_abs(self, args, kwargs, node):
        return self.map_num(al.absolute, args[0])

    def bi_round(self, args, kwargs, node):
        nd = args[1] if len(args) > 1 else None

        return self.map_num(lambda p: rounded(p, nd), args[0])

    def np_around(self, args, kw, node):
        nd = args[1] if len(args) > 1 else kw.get('decimals')
        if isinstance(args[0], Unknown):
            return args[0]
        r = self.map_num(lambda p: rounded(p, nd), args[0])
        out = kw.get('out', args[2] if len(args) > 2 else None)
        if isinstance(out, (Ref, View)):
            self.mutate(out, self.content(r), node)
            return out
        return r

    np_round = np_round_ = np_around

    def bi_sorted(self, args, kwargs, node):
        items = self.iter_concrete(args[0])
        if items is None or 'key' in kwargs:
            return Opaque(('sorted', self.key(args[0])))
        if all(isinstance(x, str) for x in items):
            return self.new_list(sorted(items, reverse=bool(
                kwargs.get('reverse', False))))
        if all(isinstance(x, Poly) and x.const_value() is not None
               for x in items):
            return self.new_list(sorted(
                items, key=lambda p: p.const_value(),
                reverse=bool(kwargs.get('reverse', False))))
        return Opaque(('sorted', self.key(args[0])))

    def bi_any(self, args, kwargs, node):
        return self.anyall(args[0], True)

    def bi_all(self, args, kwargs, node):
        return self.anyall(args[0], False)

    def anyall(self, v, is_any):
        c = self.content(v)
        if isinstance(c, Arr):
            if all(isinstance(d, int) for d in c.shape):
                items = list(c.data.values())
            else:
                # quantify the element condition over the symbolic axes
                e = ZERO if is_any else ONE
                for x in c.data.values():
                    pass
                if not is_any:
                    pos = c.map(lambda p: ONE - p)
                    r = self.anyall_sym(pos)
                    return self.negate(r)
                return self.anyall_sym(c)
        else:
            items = self.iter_concrete(v)
        if items is None:
            s = self.iter_symbolic(v)
            if s is not None:
                k = al.fresh('q', sign='+0')
                t = self.truth(s[2](k))
                if not is_any:
                    t = ONE - t
                tot = al.make_sum(t, k, s[0], s[1])
                r = ONE - al.eq0(tot)
                return r if is_any else ONE - r
            if isinstance(v, Opaque):
                return al.truth(('any' if is_any else 'all', v.key))
            raise Imprecise('any/all')
        r = ZERO if is_any else ONE
        for x in items:
            t = self.truth(x)
            r = r + t - r * t if is_any else r * t
        return self.tidy_bool(r)

    def anyall_sym(self, arr):
        tot = sum_all(arr.map(lambda p: self.truth(p)))
        return ONE - al.eq0(tot)

    def bi_isinstance(self, args, kwargs, node):
        return self.type_test(args[0], args[1])

    def type_test(self, v, t):
        if isinstance(v, GIf):
            return self.split(v, lambda x: self.type_test(x, t))
        if isinstance(t, tuple):
            r = False
            for x in t:
                q = self.type_test(v, x)
                if q is True:
                    return True
                if q is not False:
                    r = q
            return r
        tn = t.name if isinstance(t, Builtin) else t.dotted if isinstance(
            t, Ext) else None
        if isinstance(t, Class):
            c = self.content(v)
            if isinstance(c, ObjC):
                return t in c.cls.mro
            if isinstance(v, Opaque):
                return al.truth(('isinstance', v.key, t.name))
            return False
        if isinstance(v, Opaque):
            return al.truth(('isinstance', v.key, tn))
        short = (tn or '').split('.')[-1]
        c = self.content(v)
        if isinstance(v, str):
            return short in ('str', 'basestring', 'object')
        if isinstance(v, bool):
            return short in ('bool', 'int', 'object')
        if isinstance(v, tuple):
            return short in ('tuple', 'object', 'Iterable', 'Sequence')
        if isinstance(c, (ListC, SymListC)):
            return short in ('list', 'object', 'Iterable', 'Sequence')
        if isinstance(c, DictC):
            return short in ('dict', 'object', 'Mapping', 'Iterable')
        if isinstance(c, Arr):
            return short in ('ndarray', 'object', 'Iterable')
        if isinstance(v, Poly):
            if short in ('ndarray', 'list', 'str', 'tuple', 'dict', 'Iterable',
                         'Sequence', 'complex'):
                return False
            if short in ('Number', 'object', 'Real'):
                return True
            if short in ('int', 'integer', 'Integral'):
                return bool(is_integer(v))
            if short in ('float', 'floating', 'float64'):
                return not is_integer(v)
        if v is None:
            return short in ('NoneType', 'object')
        return al.truth(('isinstance', self.key(v), tn))

    def bi_type(self, args, kwargs, node):
        if len(args) != 1:
            raise Imprecise('type()')
        v = args[0]
        if isinstance(v, GIf):
            return self.split(v, lambda x: self.bi_type([x], {}, node))
        c = self.content(v)
        if isinstance(v, str):
            return Builtin('builtin.str')
        if isinstance(v, bool):
            return Builtin('builtin.bool')
        if isinstance(c, Arr):
            return Ext('numpy.ndarray')
        if isinstance(c, (ListC, SymListC)):
            return Builtin('builtin.list')
        if isinstance(c, DictC):
            return Builtin('builtin.dict')
        if isinstance(v, tuple):
            return Builtin('builtin.tuple')
        if isinstance(c, ObjC):
            return c.cls
        if isinstance(v, Poly):
            return Builtin('builtin.float') if not is_integer(v) \
                else Builtin('builtin.int')
        if v is None:
            return Builtin('builtin.NoneType')
        return Opaque(('type', self.key(v)))

    def bi_hasattr(self, args, kwargs, node):
        v, name = args[0], args[1]
        c = self.content(v)
        if isinstance(c, ObjC) and isinstance(name, str):
            if name in c.fields and c.fields[name] is not UNBOUND:
                return True
            return self.class_attr(c.cls, name, UNBOUND) is not UNBOUND
        if isinstance(c, Arr):
            return name in ('shape', 'dtype', 'T', '__len__', '__iter__',
                            'copy', 'tolist', 'size', 'ndim')
        if isinstance(v, Poly):
            return False
        if isinstance(c, ListC) or isinstance(v, tuple):
            return name in ('__len__', '__iter__', 'append', 'index')
        if isinstance(v, Opaque) and 'attrs' in v.info:
            return name in v.info['attrs']
        return al.truth(('hasattr', self.key(v), self.key(name)))

    def bi_getattr(self, args, kwargs, node):
        v, name = args[0], args[1]
        if isinstance(name, GIf):
            return self.split(name, lambda x: self.bi_getattr(
                [v, x] + list(args[2:]), {}, node))
        if not isinstance(name, str):
            raise Imprecise('getattr of unknown name')
        if len(args) > 2:
            h = self.bi_hasattr([v, name], {}, node)
            if h is False:
                return args[2]
            if h is not True:
                return self.mk_if(self.truth(h),
                                  self.get_attr(v, name, node), args[2])
        return self.get_attr(v, name, node)

    def bi_setattr(self, args, kwargs, node):
        if isinstance(args[1], str):
            self.set_attr(args[0], args[1], args[2], node)
            return None
        self.event('setattr', '?', args, {}, node)
        if isinstance(args[0], Ref):
            self.heap[args[0].id] = OpaqueContent('setattr')
        return None

    def bi_print(self, args, kwargs, node):
        self.event('call', 'print', args, kwargs, node)
        m = self.models.get('builtin.print')
        if m is not None:
            m(self, args, kwargs, node)
        return None

    def bi_input(self, args, kwargs, node):
        self.event('call', 'input', args, kwargs, node)
        m = self.models.get('builtin.input')
        if m is not None:
            return m(self, args, kwargs, node)
        return Opaque(('call', 'input', getattr(node, 'lineno', 0)),
                      str=True)

    def bi_eval(self, args, kwargs, node):
        if isinstance(args[0], GIf):
            return self.split(args[0], lambda x: self.bi_eval([x], {}, node))
        if isinstance(args[0], str):
            tree = ast.parse(args[0].strip(), mode='eval')
            for n in ast.walk(tree):
                if not hasattr(n, 'lineno'):
                    n.lineno = getattr(node, 'lineno', 0)
            return self.ev(tree.body)
        if isinstance(args[0], (Class, Func)):
            raise AbsRaise(Opaque(('exc', 'TypeError')), node)
        raise Imprecise('eval of unknown text')

    def bi_super(self, args, kwargs, node):
        if args:
            cls, self_ = args[0], args[1]
        else:
            fr = self.frames[-1]
            k = fr
            while k is not None and k.cls is None:
                k = k.closure if isinstance(k.closure, Frame) else None
            if k is None:
                raise Imprecise('super()')
            cls = k.cls
            first = k.func.node.args.args[0].arg
            self_ = k.env[first]
        s = SuperV(cls, self_)
        c = self.content(self_)
        s.self_cls = c.cls if isinstance(c, ObjC) else self_
        return s

    def bi_open(self, args, kwargs, node):
        m = self.models.get('builtin.open')
        if m is not None:
            return m(self, args, kwargs, node)
        e = self.event('call', 'open', args, kwargs, node)
        e.result = Opaque(('file', self.key(args[0]),
                           self.key(args[1]) if len(args) > 1 else 'r'))
        return e.result

    def bi_next(self, args, kwargs, node):
        items = self.iter_concrete(args[0])
        if items:
            return items[0]
        if items == [] and len(args) > 1:
            return args[1]
        if isinstance(args[0], Opaque):
            self.event('opaque', 'next', args, {}, node)
            return Opaque(('next', args[0].key, getattr(node, 'lineno', 0)))
        raise Imprecise('next()')

    def bi_pow(self, args, kwargs, node):
        return self.binop(ast.Pow(), args[0], args[1], node)

    def bi_divmod(self, args, kwargs, node):
        return (self.binop(ast.FloorDiv(), args[0], args[1], node),
                self.binop(ast.Mod(), args[0], args[1], node))

    def bi_object(self, args, kwargs, node):
        return Opaque(('object', getattr(node, 'lineno', 0)))

    def bi_callable(self, args, kwargs, node):
        v = args[0]
        if isinstance(v, (Func, Bound, Class, Builtin)):
            return True
        if isinstance(v, (Poly, str, tuple, bool)) or v is None:
            return False
        return al.truth(('callable', self.key(v)))

    def bi_slice(self, args, kwargs, node):
        if len(args) == 1:
            return SliceV(None, args[0], None)
        a = list(args) + [None] * (3 - len(args))
        return SliceV(*a)

    def bi_id(self, args, kwargs, node):
        return Opaque(('id', self.key(args[0])))

    # ---------------------------------------------------------------- methods
    def call_method(self, recv, name, args, kwargs, node):
        if isinstance(recv, (str, bytes)):
            return self.str_method(recv, name, args, kwargs, node)
        if isinstance(recv, tuple):
            if name == 'index':
                for k, x in enumerate(recv):
                    if self.decide(self.truth(self.equals(x, args[0]))):
                        return al.as_poly(k)
            if name == 'count':
                return al.as_poly(sum(1 for x in recv if x == args[0]))
            raise Imprecise('tuple.' + name)
        if isinstance(recv, PolyV):
            return self.polynomial_method(recv, name, args, kwargs, node)
        c = recv if isinstance(recv, Poly) else self.content(recv)
        if isinstance(c, (Arr, Poly)):
            return self.arr_method(recv, c, name, args, kwargs, node)
        if isinstance(c, (ListC, SymListC, ListIfC)):
            return self.list_method(recv, c, name, args, kwargs, node)
        if isinstance(c, DictC):
            return self.dict_method(recv, c, name, args, kwargs, node)
        if isinstance(c, SetC):
            return self.set_method(recv, c, name, args, kwargs, node)
        if isinstance(c, OpaqueContent):
            self.event('opaque', name, args, kwargs, node, recv)
            return Unknown('method %s of %s' % (name, c.why))
        raise Imprecise('method %s' % name)

    def str_method(self, s, name, args, kwargs, node):
        if name == 'format' and isinstance(s, str):
            return self.str_format(s, args, kwargs)
        if name == 'join':
            items = self.iter_concrete(args[0])
            if items is None:
                it = self.iter_symbolic(args[0])
                if it is not None:
                    k = al.fresh('j', sign='+0')
                    return Opaque(('join', s, al.sid(k), self.key(it[0]),
                                   self.key(it[1]), self.key(it[2](k))),
                                  str=True)
                return Opaque(('join', s, self.key(args[0])), str=True)
            parts = []
            for k, x in enumerate(items):
                if k:
                    parts.append(s)
                parts.append(x)
            return self.concat(parts)
        conc = []
        for a in args:
            if isinstance(a, Poly):
                a = _const(a)
                if a is None:
                    conc = None
                    break
            if isinstance(a, (str, int, type(None))):
                conc.append(a)
            elif isinstance(a, tuple) and all(isinstance(x, str)
                                              for x in a):
                conc.append(a)
            else:
                conc = None
                break
        if conc is not None and not kwargs and hasattr(s, name):
            try:
                r = getattr(s, name)(*conc)
            except ValueError:
                raise AbsRaise(Opaque(('exc', 'ValueError')), node)
            return self.lift(r)
        return Opaque(('strm', s, name) + tuple(self.key(a) for a in args),
                      str=True)

    def lift(self, r):
        if isinstance(r, bool) or r is None or isinstance(r, (str, bytes)):
            return r
        if isinstance(r, (int, float)):
            return al.as_poly(r)
        if isinstance(r, list):
            return self.new_list([self.lift(x) for x in r])
        if isinstance(r, tuple):
            return tuple(self.lift(x) for x in r)
        raise Imprecise('lift')

    def str_format(self, s, args, kwargs):
        import string
        parts, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            parts.append(lit)
            if field is None:
                continue
            if '{' in (spec or ''):
                spec = self.str_format(spec, args, kwargs)
                if not isinstance(spec, str):
                    return Opaque(('format', s) + tuple(
                        self.key(a) for a in args), str=True)
            if field == '':
                k = auto
                auto += 1
            elif field.isdigit():
                k = int(field)
            elif field in kwargs:
                parts.append(self.format_value(kwargs[field], spec or ''))
                continue
            else:
                return Opaque(('format', s) + tuple(self.key(a)
                                                    for a in args), str=True)
            if k >= len(args):
                raise AbsRaise(Opaque(('exc', 'IndexError')), None)
            parts.append(self.format_value(args[k], (
                '!' + conv if conv else '') + (spec or '')))
        return self.concat(parts)

    def list_method(self, recv, c, name, args, kwargs, node):
        if not isinstance(recv, Ref):
            raise Imprecise('list view')
        if name == 'append' and isinstance(c, ListC):
            self.heap[recv.id] = type(c)(c.items + (args[0],))
            self.event('append', 'list', [recv, args[0]], {}, node)
            return None
        if name == 'append':
            self.heap[recv.id] = OpaqueContent('append to symbolic list')
            self.event('append', 'list', [recv, args[0]], {}, node)
            return None
        if isinstance(c, AccListC) and name not in ('extend',):
            raise Imprecise('method of a list under construction')
        if not isinstance(c, ListC):
            if name == 'copy':
                return self.alloc(c)
            raise Imprecise('list.' + name)
        if name == 'extend':
            items = self.iter_concrete(args[0])
            if items is None:
                self.heap[recv.id] = OpaqueContent('extend by symbolic')
                return None
            self.heap[recv.id] = type(c)(c.items + tuple(items))
            return None
        items = list(c.items)
        if name == 'insert':
            k = _const(args[0])
            if k is None:
                raise Imprecise('insert')
            items.insert(k, args[1])
            self.heap[recv.id] = ListC(items)
            return None
        if name == 'pop':
            k = _const(args[0]) if args else -1
            if not items:
                raise AbsRaise(Opaque(('exc', 'IndexError')), node)
            v = items.pop(k)
            self.heap[recv.id] = ListC(items)
            return v
        if name == 'remove':
            for k, x in enumerate(items):
                if self.decide(self.truth(self.equals(x, args[0]))):
                    del items[k]
                    self.heap[recv.id] = ListC(items)
                    return None
            raise Imprecise('remove')
        if name == 'index':
            for k, x in enumerate(items):
                d = self.decide(self.truth(self.equals(x, args[0])))
                if d is None:
                    # first match as gated selection
                    out = None
                    for j in range(len(items) - 1, -1, -1):
                        t = self.truth(self.equals(items[j], args[0]))
                        out = al.as_poly(j) if out is None else al.ite(
                            t, al.as_poly(j), out)
                    return out
                if d:
                    return al.as_poly(k)
            raise AbsRaise(Opaque(('exc', 'ValueError')), node)
        if name == 'count':
            return al.as_poly(sum(1 for x in items if x == args[0]))
        if name == 'copy':
            return self.new_list(items)
        if name == 'clear':
            self.heap[recv.id] = ListC([])
            return None
        if name == 'reverse':
            self.heap[recv.id] = ListC(items[::-1])
            return None
        if name == 'sort':
            r = self.bi_sorted([recv], kwargs, node)
            if isinstance(r, Ref):
                self.heap[recv.id] = self.heap[r.id]
            else:
                self.heap[recv.id] = OpaqueContent('sort')
            return None
        raise Imprecise('list.' + name)

    def dict_method(self, recv, c, name, args, kwargs, node):
        if name in ('keys', 'items', 'values') and c.open is not None:
            return Opaque(('dict' + name, c.open))
        live = [(k, self.gif_bound(v)) for k, v in c.items.items()
                if v is not UNBOUND]
        if name == 'keys':
            return self.new_list([k for k, _ in live])
        if name == 'values':
            return self.new_list([v for _, v in live])
        if name == 'items':
            return self.new_list([(k, v) for k, v in live])
        if name == 'get':
            d = args[1] if len(args) > 1 else None
            k = args[0]
            if isinstance(k, GIf):
                return self.split(k, lambda x: self.dict_method(
                    recv, c, name, [x] + list(args[1:]), kwargs, node))
            k = self.dict_key(k)
            if k in c.items:
                v = c.items[k]
                if v is UNBOUND:
                    return d
                if isinstance(v, GIf):
                    def fill(g):
                        if g is UNBOUND:
                            return d
                        if isinstance(g, GIf):
                            return self.mk_if(g.cond, fill(g.a), fill(g.b))
                        return g
                    return fill(v)
                return v
            if c.open is not None:
                return self.mk_if(al.truth(('haskey', c.open, self.key(k))),
                                  Opaque(('getitem', c.open, self.key(k))),
                                  d)
            if isinstance(k, Opaque):
                out = d
                for q, v in reversed(live):
                    out = self.mk_if(self.truth(self.equals(k, q)), v, out)
                return out
            return d
        if not isinstance(recv, Ref):
            raise Imprecise('dict view')
        d = dict(c.items)
        if name == 'update':
            if args:
                o = self.content(args[0])
                if not isinstance(o, DictC):
                    self.heap[recv.id] = OpaqueContent('dict.update')
                    return None
                d.update(o.items)
            d.update(kwargs)
            self.heap[recv.id] = DictC(d, c.open)
            self.event('setitem', 'dict', [recv], {}, node)
            return None
        if name == 'setdefault':
            k = self.dict_key(args[0])
            if k not in d:
                d[k] = args[1] if len(args) > 1 else None
                self.heap[recv.id] = DictC(d, c.open)
            return d[k]
        if name == 'pop':
            k = self.dict_key(args[0])
            if k in d:
                v = d.pop(k)
                self.heap[recv.id] = DictC(d, c.open)
                return v
            if len(args) > 1:
                return args[1]
            raise AbsRaise(Opaque(('exc', 'KeyError')), node)
        if name == 'copy':
            return self.alloc(DictC(d, c.open))
        if name == 'clear':
            self.heap[recv.id] = DictC({})
            return None
        raise Imprecise('dict.' + name)

    def set_method(self, recv, c, name, args, kwargs, node):
        items = list(c.items)
        if name == 'add':
            if args[0] not in items:
                items.append(args[0])
            self.heap[recv.id] = SetC(items)
            return None
        if name == 'update':
            for x in self.iter_concrete(args[0]) or []:
                if x not in items:
                    items.append(x)
            self.heap[recv.id] = SetC(items)
            return None
        raise Imprecise('set.' + name)

    def arr_method(self, recv, c, name, args, kwargs, node):
        if name in ('copy', '__copy__'):
            return self.new_arr(c) if isinstance(c, Arr) else c
        if name == 'astype':
            t = args[0] if args else kwargs.get('dtype')
            short = getattr(t, 'name', getattr(t, 'dotted', str(t))).split(
                '.')[-1]
            if short.startswith('int'):
                return self.map_num(lambda p: p if is_integer(p)
                                    else al.app('trunc', p, int=True), recv,
                                    'i')
            if short in ('bool', 'bool_'):
                return self.map_num(lambda p: self.truth(p), recv, 'b')
            if self.dtype_of(t) == 'f4':
                return self.map_num(single, recv, 'f4')
            return self.new_arr(Arr(c.shape, c.data)) if isinstance(
                c, Arr) else c
        if name in ('tolist',):
            if isinstance(c, Poly):
                return c

            def rec(v):
                x = self.num(v)
                if isinstance(x, Poly):
                    return x
                items = self.iter_concrete(v)
                if items is None:
                    raise Imprecise('tolist of symbolic axis')
                return self.new_list([rec(y) for y in items])
            if c.ndim() == 1 and not isinstance(c.shape[0], int):
                return recv
            return rec(recv)
        if name == 'item':
            if isinstance(c, Poly):
                return c
            if not args and len(c.data) == 1:
                return list(c.data.values())[0]
            return self.subscript(recv, args[0] if len(args) == 1
                                  else tuple(args), node)
        if name == 'fill':
            v = self.num(args[0])
            self.mutate(recv, c.map(lambda _: v), node)
            return None
        if name == 'sort':
            if args or kwargs or not isinstance(c, Arr) or c.ndim() != 1:
                self.mutate(recv, OpaqueContent('sort'), node)
                return None
            self.mutate(recv, self.content(self.np_sort([recv], {}, node)),
                        node)
            return None
        if name in ('conjugate', 'conj'):
            return recv
        if name in ('reshape',):
            if len(args) == 1 and (isinstance(args[0], tuple) or isinstance(
                    self.content(args[0]), ListC)):
                shp = self.iter_concrete(args[0])
            else:
                shp = list(args)
            return self.call_np('reshape', [recv, tuple(shp)], kwargs, node)
        if name in ('transpose',):
            if args and not isinstance(args[0], tuple):
                args = [tuple(args)]
            return self.call_np('transpose', [recv] + list(args), kwargs,
                                node)
        if name in NP_METHODS:
            return self.call_np(name, [recv] + list(args), kwargs, node)
        if name == '__len__':
            return self.bi_len([recv], {}, node)
        if name == 'is_integer':
            return al.truth(('isint', self.key(recv)))
        raise Imprecise('array method ' + name)

    # ---------------------------------------------------------------- libraries
    def modelled(self, m, name, args, kwargs, node):
        """A stand-in of a check: arguments it does not expect are not
        followed."""
        try:
            return m(self, args, kwargs, node)
        except (TypeError, AttributeError, IndexError, KeyError,
                ValueError) as e:
            if os.environ.get('SA_DEBUG'):
                raise
            raise Imprecise('model of %s: %s %s' % (
                name, type(e).__name__, str(e)[:80]))

    def call_ext(self, dotted, args, kwargs, node):
        m = self.models.get(dotted)
        if m is not None:
            return self.modelled(m, dotted, args, kwargs, node)
        if dotted.startswith('os.path.') and dotted[8:] in (
                'splitext', 'basename', 'dirname', 'join') and args and all(
                isinstance(a, str) for a in args) and not kwargs:
            import posixpath
            return getattr(posixpath, dotted[8:])(*args)
        if any(isinstance(a, Unknown) for a in args) and dotted.startswith(
                ('numpy', 'scipy', 'math', 'libc')):
            return [a for a in args if isinstance(a, Unknown)][0]
        if dotted.startswith(('numpy.', 'libc.math.', 'math.', 'cmath.')):
            short = dotted.split('.', 1)[1]
            if short.startswith('math.'):
                short = short[5:]
            try:
                return self.call_np(short, args, kwargs, node)
            except NoModel:
                pass
        if dotted in ('scipy.constants.value',
                      'scipy.constants.codata.value'):
            k = PHYSICAL.get(args[0]) if isinstance(args[0], str) else None
            if k:
                return al.sym(k, sign=1, scalar=True)
            return al.sym('CODATA:%s' % (args[0],), sign=1, scalar=True)
        if dotted in ('scipy.constants.physical_constants',):
            return Opaque(('physical_constants',))
        if dotted == 'itertools.product':
            rep = _const(kwargs.get('repeat', ONE))
            ls = [self.iter_concrete(a) for a in args]
            if rep is None or any(x is None for x in ls):
                raise Imprecise('product of symbolic')
            return self.new_list([tuple(t) for t in itertools.product(
                *(ls * rep))])
        if dotted in ('itertools.combinations', 'itertools.permutations',
                      'itertools.combinations_with_replacement'):
            ls = self.iter_concrete(args[0])
            r = _const(args[1]) if len(args) > 1 else None
            if ls is None:
                raise Imprecise('combinations of symbolic')
            f = getattr(itertools, dotted.split('.')[1])
            return self.new_list([tuple(t) for t in (
                f(ls, r) if r is not None else f(ls))])
        if dotted == 'itertools.chain':
            out = []
            for a in args:
                x = self.iter_concrete(a)
                if x is None:
                    raise Imprecise('chain')
                out += x
            return self.new_list(out)
        if dotted == 'click.progressbar':
            it = args[0] if args else kwargs.get('iterable')
            if it is None:
                ln = kwargs.get('length')
                return RangeV(ZERO, self.num(ln), ONE)
            return it
        if dotted in ('copy.copy', 'copy.deepcopy'):
            return self.copy_value(args[0], dotted == 'copy.deepcopy')
        if dotted == 'functools.partial':
            fn, a0, k0 = args[0], list(args[1:]), dict(kwargs)
            return Partial(fn, a0, k0)
        if dotted == 'functools.reduce':
            items = self.iter_concrete(args[1])
            if items is None:
                raise Imprecise('reduce')
            acc = args[2] if len(args) > 2 else items.pop(0)
            for x in items:
                acc = self.call(args[0], [acc, x], {}, node)
            return acc
        if dotted == 'operator.mul':
            return self.binop(ast.Mult(), args[0], args[1], node)
        if dotted == 'operator.add':
            return self.binop(ast.Add(), args[0], args[1], node)
        if dotted == 'operator.itemgetter':
            return Partial(Builtin('op.itemgetter'), list(args), {})
        if dotted in ('collections.OrderedDict',):
            return self.bi_dict(args, kwargs, node)
        e = self.event('call', dotted, args, kwargs, node)
        if dotted.startswith('builtins.'):
            return Opaque(('exc', dotted.split('.')[-1]) + tuple(
                self.key(a) for a in args))
        key = ('call', dotted) + tuple(self.key(a) for a in args) + tuple(
            sorted(((k, self.key(v)) for k, v in kwargs.items()), key=repr))
        info = {}
        if dotted in ('os.path.basename', 'os.path.splitext', 'os.path.join',
                      'os.path.abspath', 'os.getcwd', 'time.strftime'):
            info['str'] = True
        e.result = Opaque(key, **info)
        return e.result

    def copy_value(self, v, deep):
        if isinstance(v, (Ref, View)):
            c = self.content(v)
            if deep:
                if isinstance(c, ListC):
                    return self.new_list([self.copy_value(x, True)
                                          for x in c.items])
                if isinstance(c, DictC):
                    return self.alloc(DictC({k: self.copy_value(x, True)
                                             for k, x in c.items.items()},
                                            c.open))
                if isinstance(c, ObjC):
                    return self.alloc(ObjC(c.cls, {
                        k: self.copy_value(x, True)
                        for k, x in c.fields.items()}))
            return self.alloc(c)
        if isinstance(v, tuple) and deep:
            return tuple(self.copy_value(x, True) for x in v)
        return v

    # ---------------------------------------------------------------- NumPy
    def shape_arg(self, v):
        if isinstance(v, Poly):
            return (dim_of(v),)
        items = self.iter_concrete(v)
        if items is None:
            raise Imprecise('shape')
        return tuple(dim_of(self.num(x)) for x in items)

    def dtype_of(self, v, default='f'):
        if v is None:
            return default
        s = v.name if isinstance(v, Builtin) else v.dotted if isinstance(
            v, Ext) else v if isinstance(v, str) else str(
                v.key[1] if isinstance(v, Opaque) else v)
        s = s.split('.')[-1]
        if s.startswith(('int', 'uint')) or s == 'i':
            return 'i'
        if s.startswith('bool'):
            return 'b'
        if s in ('float32', 'float16', 'single', 'half'):
            return 'f4'
        return 'f'

    def call_np(self, name, args, kwargs, node):
        m = getattr(self, 'np_' + name.replace('.', '_'), None)
        if m is not None:
            out = kwargs.pop('out', None) if 'out' in kwargs else None
            r = m(args, kwargs, node)
            if out is not None:
                rc = self.content(r) if isinstance(r, (Ref, View)) else r
                self.mutate(out, rc if isinstance(rc, Arr) else
                            self.content(out).map(lambda _: rc), node)
                return out
            return r
        f = UNARY.get(name)
        if f is not None:
            if isinstance(args[0], Unknown):
                return args[0]
            r = self.map_num(f, args[0])
            if len(args) > 1 or 'out' in kwargs:
                out = kwargs.get('out', args[1] if len(args) > 1 else None)
                if isinstance(out, (Ref, View)):
                    rc = self.content(r)
                    self.mutate(out, rc, node)
                    return out
            return r
        op = BINARY.get(name)
        if op is not None:
            r = self.binop(op, args[0], args[1], node)
            out = kwargs.get('out', args[2] if len(args) > 2 else None)
            if isinstance(out, (Ref, View)):
                rc = self.content(r) if isinstance(r, (Ref, View)) else r
                self.mutate(out, rc, node)
                return out
            return r
        raise NoModel(name)

    def np_zeros(self, args, kw, node):
        return self.alloc(Arr.full(self.shape_arg(args[0] if args else
                                                  kw['shape']), ZERO,
                                   self.dtype_of(kw.get('dtype', args[1] if
                                                        len(args) > 1
                                                        else None))))

    def np_ones(self, args, kw, node):
        return self.alloc(Arr.full(self.shape_arg(args[0]), ONE,
                                   self.dtype_of(kw.get('dtype'))))

    def np_empty(self, args, kw, node):
        sh = self.shape_arg(args[0])
        return self.alloc(Arr.full(sh, al.sym('uninitialised'),
                                   self.dtype_of(kw.get('dtype'))))

    def np_full(self, args, kw, node):
        return self.alloc(Arr.full(self.shape_arg(args[0]),
                                   self.num(args[1])))

    def np_broadcast_to(self, args, kw, node):
        sh = self.shape_arg(args[1] if len(args) > 1 else kw['shape'])
        return self.alloc(elementwise(lambda a, b: a, self.num(args[0]),
                                      Arr.full(sh, ZERO)))

    def like(self, args, v):
        x = self.num(args[0])
        if isinstance(x, Poly):
            return v
        return self.alloc(Arr.full(x.shape, v, x.dtype))

    def np_zeros_like(self, args, kw, node):
        return self.like(args, ZERO)

    def np_ones_like(self, args, kw, node):
        return self.like(args, ONE)

    def np_empty_like(self, args, kw, node):
        return self.like(args, al.sym('uninitialised'))

    def np_full_like(self, args, kw, node):
        return self.like(args, self.num(args[1]))

    def np_eye(self, args, kw, node):
        n = dim_of(self.num(args[0]))
        m = dim_of(self.num(args[1])) if len(args) > 1 else n
        k = _const(kw.get('k', ZERO))
        return self.alloc(Arr.build((n, m), lambda ix: al.eq0(
            ix[1] - ix[0] - k)))

    np_identity = np_eye

    def np_array(self, args, kw, node):
        v = args[0]
        if isinstance(v, Unknown):
            return v
        if isinstance(v, Opaque) and 'array' in v.info:
            return self.np_array([v.info['array'](self, node)] +
                                 list(args[1:]), kw, node)
        if isinstance(v, Opaque):
            return Opaque(v.key, **v.info) if v.info.get('shape') is None \
                else self.alloc(Arr.symbol(('opq', v.key), v.info['shape']))
        if isinstance(v, GIf):
            return self.split(v, lambda x: self.np_array([x], kw, node))
        if isinstance(v, IterV):
            v = self.bi_list([v], {}, node)
        dt = self.dtype_of(kw.get('dtype', args[1] if len(args) > 1
                                  else None), None)
        if dt in ('i', 'f', 'f4') and self.has_text(v):
            v = self.text_numbers(v, self.bi_int if dt == 'i'
                                  else self.bi_float, node)
        x = self.to_array(v) if not isinstance(v, (bool,)) else self.num(v)
        if isinstance(x, Poly):
            return x
        if dt == 'i':
            x = Arr(x.shape, x.map(lambda p: p if is_integer(p) else
                                   al.app('trunc', p, int=True)).data, 'i')
        elif dt == 'f4':
            x = Arr(x.shape, x.map(single).data, dt)
        elif dt:
            x = Arr(x.shape, x.data, dt)
        return self.alloc(x)

    np_copy = np_array

    def np_asarray(self, args, kw, node):
        v = args[0]
        c = self.content(v)
        if isinstance(c, Arr):
            if kw.get('dtype') is not None and self.dtype_of(
                    kw.get('dtype')) != c.dtype and not (
                        self.dtype_of(kw.get('dtype')) == 'f'):
                return self.np_array(args, kw, node)
            return v
        if isinstance(v, Poly):
            return v
        return self.np_array(args, kw, node)

    np_asanyarray = np_asarray
    np_ascontiguousarray = np_asarray
    np_asfortranarray = np_asarray
    np_atleast_1d = None

    def np_atleast_1d(self, args, kw, node):
        x = self.num(args[0])
        if isinstance(x, Arr) and x.ndim():
            return args[0]
        v = x.data[()] if isinstance(x, Arr) else x
        return self.alloc(Arr((1,), {(0,): v}))

    def text_numbers(self, v, conv, node):
        """Nested list of strings -> nested tuple of numbers."""
        c = self.content(v) if isinstance(v, (Ref, View)) else v
        if isinstance(c, ListC):
            c = tuple(c.items)
        if isinstance(c, tuple):
            return tuple(self.text_numbers(x, conv, node) for x in c)
        if isinstance(c, str):
            return conv([c], {}, node)
        return v

    def has_text(self, v):
        c = self.content(v) if isinstance(v, (Ref, View)) else v
        if isinstance(c, ListC):
            c = tuple(c.items)
        return isinstance(c, str) or (isinstance(c, tuple) and any(
            self.has_text(x) for x in c))

    def np_float64(self, args, kw, node):
        v = args[0] if args else None
        c = self.content(v) if isinstance(v, (Ref, View)) else v
        if isinstance(c, (ListC, tuple)):
            return self.alloc(self.to_array(self.text_numbers(
                v, self.bi_float, node)))
        if isinstance(c, Arr) and c.ndim():
            return self.alloc(c)
        return self.bi_float(args, kw, node)

    def np_float32(self, args, kw, node):
        return self.map_num(single, self.np_float64(args, kw, node), 'f4')

    np_float16 = np_single = np_half = np_float32
    np_float_ = np_float64
    np_double = np_float64

    def np_int64(self, args, kw, node):
        v = args[0] if args else None
        c = self.content(v) if isinstance(v, (Ref, View)) else v
        if isinstance(c, (ListC, tuple)):
            return self.np_array([self.text_numbers(v, self.bi_int, node)],
                                 {'dtype': 'int'}, node)
        if isinstance(c, Arr) and c.ndim():
            return self.np_array([v], {'dtype': 'int'}, node)
        return self.bi_int(args, kw, node)

    np_int32 = np_int64
    np_int_ = np_int64

    def np_arange(self, args, kw, node):
        a = [self.num(x) for x in args]
        lo, hi, st = ZERO, None, ONE
        if len(a) == 1:
            hi = a[0]
        elif len(a) == 2:
            lo, hi = a
        else:
            lo, hi, st = a
        n = (hi - lo) / st
        c = n.const_value()
        if c is not None:
            import math
            n = al.as_poly(math.ceil(c))
        elif not is_integer(n):
            n = al.app('ceil', n, int=True, sign=1)
        return self.alloc(Arr.build((dim_of(n),), lambda ix: lo + st * ix[0]))

    def np_linspace(self, args, kw, node):
        lo, hi = self.num(args[0]), self.num(args[1])
        n = self.num(args[2] if len(args) > 2 else kw.get(
            'num', al.as_poly(50)))
        end = kw.get('endpoint', True)
        d = (n - 1) if end is not False else n
        r = self.alloc(Arr.build((dim_of(n),), lambda ix: lo + (hi - lo) *
                                 ix[0] / d))
        if kw.get('retstep') is True:
            return (r, (hi - lo) / d)
        return r

    def np_power(self, args, kw, node):
        return self.binop(ast.Pow(), args[0], args[1], node)

    np_pow = np_power
    np_float_power = np_power

    def np_where(self, args, kw, node):
        if len(args) != 3:
            raise Imprecise('where with one argument')
        c, a, b = [self.num(x) for x in args]
        return self.np_result(elementwise(
            lambda p, x, y: al.ite(self.truth(p), x, y), c, a, b))

    def np_clip(self, args, kw, node):
        x, lo, hi = [self.num(v) for v in args]

        def f(p):
            return al.app('clip', p, self.key(lo), self.key(hi))
        return self.map_num(f, args[0])

    def axis(self, args, kw, pos=1):
        v = kw.get('axis', args[pos] if len(args) > pos else None)
        if v is None:
            return None
        if isinstance(v, tuple):
            return tuple(_const(x) for x in v)
        return _const(v)

    def np_sum(self, args, kw, node):
        x = self.num(args[0])
        if isinstance(x, Poly):
            return x
        ax = self.axis(args, kw)
        if ax is None:
            return sum_all(x)
        if isinstance(ax, tuple):
            for k in sorted([a % x.ndim() for a in ax], reverse=True):
                x = sum_axis(x, k)
            return self.np_result(x)
        keep = kw.get('keepdims') is True
        r = sum_axis(x, ax)
        if keep:
            r = self.expand(r, ax % x.ndim())
        return self.np_result(r)

    np_nansum = np_sum

    def np_fsum(self, args, kw, node):
        return self.bi_sum(args[:1], {}, node)

    def expand(self, arr, k):
        shape = arr.shape[:k] + (1,) + arr.shape[k:]
        return Arr.build(shape, lambda ix: arr.at(ix[:k] + ix[k + 1:]))

    def np_expand_dims(self, args, kw, node):
        x = self.arr(args[0])
        k = self.axis(args, kw)
        return self.alloc(self.expand(x, k % (x.ndim() + 1)))

    def np_squeeze(self, args, kw, node):
        x = self.arr(args[0])
        keep = [k for k, d in enumerate(x.shape) if d != 1]
        return self.np_result(get_item(x, [
            SliceV(None, None, None) if k in keep else 0
            for k in range(x.ndim())]))

    def np_mean(self, args, kw, node):
        x = self.num(args[0])
        if isinstance(x, Poly):
            return x
        ax = self.axis(args, kw)
        if ax is None:
            n = ONE
            for d in x.shape:
                n = n * al.as_poly(d)
            return sum_all(x) / n
        n = al.as_poly(x.shape[ax])
        return self.np_result(sum_axis(x, ax).map(lambda p: p / n))

    def np_average(self, args, kw, node):
        w = kw.get('weights')
        if w is None:
            return self.np_mean(args, kw, node)
        x, w = self.num(args[0]), self.num(w)
        ax = self.axis(args, kw)
        if x.ndim() == 1:
            return sum_all(elementwise(lambda a, b: a * b, x, w)) / sum_all(w)
        if ax is None:
            raise Imprecise('average')
        ws = Arr.build(tuple(x.shape[k] if k == ax % x.ndim() else 1
                             for k in range(x.ndim())),
                       lambda ix: w.at([ix[ax % x.ndim()]]))
        num = sum_axis(elementwise(lambda a, b: a * b, x, ws), ax)
        den = sum_all(w)
        return self.np_result(num.map(lambda p: p / den))

    def np_prod(self, args, kw, node):
        x = self.num(args[0])
        if isinstance(x, Poly):
            return x
        if self.axis(args, kw) is not None or any(
                not isinstance(d, int) for d in x.shape):
            raise Imprecise('prod')
        r = ONE
        for v in x.data.values():
            r = r * v
        return r

    def np_cumsum(self, args, kw, node):
        x = self.num(args[0])
        if x.ndim() != 1:
            raise Imprecise('cumsum')

        def fn(ix):
            if isinstance(x.shape[0], int):
                r = ZERO
                for k in range(_const(ix[0]) + 1):
                    r = r + x.at([k])
                return r
            v = al.fresh('u', sign='+0')
            return al.make_sum(x.at([v]), v, 0, ix[0] + 1)
        return self.alloc(Arr.build(x.shape, fn))

    def np_dot(self, args, kw, node):
        a, b = self.num(args[0]), self.num(args[1])
        if isinstance(a, Poly) or isinstance(b, Poly):
            return self.binop(ast.Mult(), args[0], args[1], node)
        return self.np_result(npdot(a, b))

    def np_vdot(self, args, kw, node):
        return self.np_dot(args, kw, node)

    def np_matmul(self, args, kw, node):
        return self.np_result(matmul(self.arr(args[0]), self.arr(args[1])))

    def np_inner(self, args, kw, node):
        a, b = self.arr(args[0]), self.arr(args[1])
        if a.ndim() == 1 and b.ndim() == 1:
            return einsum('i,i->', a, b).data[()]
        if a.ndim() == 2 and b.ndim() == 2:
            return self.alloc(einsum('ik,jk->ij', a, b))
        if a.ndim() == 2 and b.ndim() == 1:
            return self.alloc(einsum('ik,k->i', a, b))
        raise Imprecise('inner')

    def np_outer(self, args, kw, node):
        a, b = self.arr(args[0]), self.arr(args[1])
        return self.alloc(einsum('i,j->ij', a, b))

    def np_multiply_outer(self, args, kw, node):
        a, b = self.arr(args[0]), self.arr(args[1])
        la = 'abcdef'[:a.ndim()]
        lb = 'ghijkl'[:b.ndim()]
        return self.np_result(einsum('%s,%s->%s%s' % (la, lb, la, lb), a, b))

    def np_einsum(self, args, kw, node):
        if not isinstance(args[0], str):
            raise Imprecise('einsum operands')
        return self.np_result(einsum(args[0], *[self.arr(a)
                                                for a in args[1:]]))

    def np_tensordot(self, args, kw, node):
        a, b = self.arr(args[0]), self.arr(args[1])
        ax = kw.get('axes', args[2] if len(args) > 2 else al.as_poly(2))
        la = list('abcdefgh'[:a.ndim()])
        lb = list('ijklmnop'[:b.ndim()])
        n = _const(ax) if isinstance(ax, Poly) else None
        if n is not None:
            pairs = [(a.ndim() - n + k, k) for k in range(n)]
        else:
            x, y = self.iter_concrete(ax)
            xs = self.iter_concrete(x) if not isinstance(x, Poly) else [x]
            ys = self.iter_concrete(y) if not isinstance(y, Poly) else [y]
            pairs = [(_const(p) % a.ndim(), _const(q) % b.ndim())
                     for p, q in zip(xs, ys)]
        for p, q in pairs:
            lb[q] = la[p]
        out = [c for k, c in enumerate(la) if k not in [p for p, _ in pairs]]
        out += [c for k, c in enumerate(lb) if k not in [q for _, q in pairs]]
        return self.np_result(einsum('%s,%s->%s' % (
            ''.join(la), ''.join(lb), ''.join(out)), a, b))

    def np_trace(self, args, kw, node):
        x = self.arr(args[0])
        return einsum('ii->', x).data[()]

    def np_diag(self, args, kw, node):
        x = self.arr(args[0])
        if x.ndim() == 2:
            return self.alloc(einsum('ii->i', x))
        n = x.shape[0]
        return self.alloc(Arr.build((n, n), lambda ix: al.eq0(
            ix[0] - ix[1]) * x.at([ix[0]])))

    np_diagonal = np_diag

    def np_cross(self, args, kw, node):
        a, b = self.arr(args[0]), self.arr(args[1])
        if a.shape != (3,) or b.shape != (3,):
            raise Imprecise('cross')
        A = [a.at([k]) for k in range(3)]
        B = [b.at([k]) for k in range(3)]
        r = [A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2],
             A[0] * B[1] - A[1] * B[0]]
        return self.alloc(Arr((3,), {(k,): v for k, v in enumerate(r)}))

    def np_transpose(self, args, kw, node):
        x = self.arr(args[0])
        perm = list(range(x.ndim()))[::-1]
        ax = kw.get('axes', args[1] if len(args) > 1 else None)
        if ax is not None:
            perm = [_const(p) for p in self.iter_concrete(ax)]
        return self.np_result(transpose(x, perm))

    def np_swapaxes(self, args, kw, node):
        x = self.arr(args[0])
        p = list(range(x.ndim()))
        i, j = _const(args[1]) % x.ndim(), _const(args[2]) % x.ndim()
        p[i], p[j] = p[j], p[i]
        return self.np_result(transpose(x, p))

    def np_moveaxis(self, args, kw, node):
        x = self.arr(args[0])
        i, j = _const(args[1]) % x.ndim(), _const(args[2]) % x.ndim()
        p = [k for k in range(x.ndim()) if k != i]
        p.insert(j, i)
        return self.np_result(transpose(x, p))

    def np_rollaxis(self, args, kw, node):
        return self.np_moveaxis([args[0], args[1], args[2] if len(args) > 2
                                 else ZERO], kw, node)

    def tri(self, args, kw, lower):
        x = self.arr(args[0])
        k = _const(kw.get('k', args[1] if len(args) > 1 else ZERO))

        def fn(ix):
            d = ix[1] - ix[0] - k
            keep = (ONE - al.lt0(-d)) if lower else (ONE - al.lt0(d))
            return keep * x.at(ix)
        return self.alloc(Arr.build(x.shape, fn))

    def np_triu(self, args, kw, node):
        return self.tri(args, kw, False)

    def np_tril(self, args, kw, node):
        return self.tri(args, kw, True)

    def np_triu_indices(self, args, kw, node):
        n = _const(self.num(args[0]))
        k = _const(kw.get('k', args[1] if len(args) > 1 else ZERO))
        ii = [(i, j) for i in range(n) for j in range(n) if j - i >= k]
        return tuple(self.alloc(Arr((len(ii),), {
            (q,): al.as_poly(p[d]) for q, p in enumerate(ii)}, 'i'))
            for d in (0, 1))

    def np_tril_indices(self, args, kw, node):
        n = _const(self.num(args[0]))
        k = _const(kw.get('k', args[1] if len(args) > 1 else ZERO))
        ii = [(i, j) for i in range(n) for j in range(n) if j - i <= k]
        return tuple(self.alloc(Arr((len(ii),), {
            (q,): al.as_poly(p[d]) for q, p in enumerate(ii)}, 'i'))
            for d in (0, 1))

    def np_diag_indices(self, args, kw, node):
        n = _const(self.num(args[0]))
        a = self.alloc(Arr((n,), {(q,): al.as_poly(q) for q in range(n)},
                           'i'))
        return (a, a)

    def np_fill_diagonal(self, args, kw, node):
        x = self.arr(args[0])
        v = self.num(args[1])
        self.mutate(args[0], Arr.build(x.shape, lambda ix: al.ite(
            al.eq0(ix[0] - ix[1]), v if isinstance(v, Poly)
            else v.at([ix[0]]), x.at(ix))), node)
        return None

    def np_ix_(self, args, kw, node):
        n = len(args)
        out = []
        for k, a in enumerate(args):
            x = self.arr(a)
            shape = tuple(x.shape[0] if j == k else 1 for j in range(n))
            out.append(self.alloc(Arr.build(shape, lambda ix, x=x, k=k:
                                            x.at([ix[k]]), 'i')))
        return tuple(out)

    def np_diff(self, args, kw, node):
        x = self.arr(args[0])
        ax = self.axis(args, kw, 2)
        ax = (x.ndim() - 1) if ax is None else ax % x.ndim()
        if kw.get('n') is not None or (len(args) > 1 and _const(
                args[1]) != 1):
            raise Imprecise('diff order')
        full = SliceV(None, None, None)
        hi = get_item(x, [full] * ax + [SliceV(ONE, None, None)])
        lo = get_item(x, [full] * ax + [SliceV(None, al.as_poly(-1), None)])
        return self.alloc(elementwise(lambda a, b: a - b, hi, lo))

    def np_gradient(self, args, kw, node):
        x = self.num(args[0])
        nm = 'gradient'
        extra = tuple(self.key(a) for a in args[1:]) + tuple(sorted(
            (k, self.key(v)) for k, v in kw.items()))
        if isinstance(x, Arr) and (x.ndim() == 1 or 'axis' in kw):
            return self.alloc(Arr.symbol((nm, x.key()) + extra, x.shape))
        raise Imprecise('gradient of a multi-dimensional array')

    def np_reshape(self, args, kw, node):
        x = self.arr(args[0])
        shp = args[1] if len(args) > 1 else kw.get('newshape', kw.get(
            'shape'))
        shp = [self.num(s) for s in (self.iter_concrete(shp) if not
                                     isinstance(shp, Poly) else [shp])]
        if all(isinstance(d, int) for d in x.shape):
            total = 1
            for d in x.shape:
                total *= d
            dims = [_const(s) for s in shp]
            if None in dims:
                raise Imprecise('reshape')
            if -1 in dims:
                k = dims.index(-1)
                rest = 1
                for j, d in enumerate(dims):
                    if j != k:
                        rest *= d
                dims[k] = total // rest
            flat = [x.data[ix] for ix in itertools.product(
                *[range(d) for d in x.shape])]
            if len(flat) != _prod(dims):
                self.event('raise', 'ValueError', ['reshape'], {}, node)
                raise AbsRaise(Opaque(('exc', 'ValueError')), node)
            it = iter(flat)
            return self.alloc(Arr(tuple(dims), {
                ix: next(it) for ix in itertools.product(
                    *[range(d) for d in dims])}))
        tgt = [s if _const(s) is None else _const(s) for s in shp]
        src = list(x.shape)
        # insertion or removal of unit axes only
        if -1 in tgt and sum(1 for t in tgt if t != 1) == 1 and sum(
                1 for s in src if s != 1) == 1:
            tgt[tgt.index(-1)] = [s for s in src if s != 1][0]
        core_s = [s for s in src if s != 1]
        core_t = [dim_of(al.as_poly(t)) for t in tgt if t != 1]
        if len(core_s) == len(core_t) and all(
                same_dim(a, b) for a, b in zip(core_s, core_t)):
            y = get_item(x, [SliceV(None, None, None) if d != 1 else 0
                             for d in x.shape])
            pos = [k for k, t in enumerate(tgt) if t != 1]
            return self.alloc(Arr.build(
                tuple(1 if t == 1 else dim_of(al.as_poly(t)) for t in tgt),
                lambda ix: y.at([ix[k] for k in pos])))
        return self.alloc(self.refold(x, tgt))

    def refold(self, x, tgt):
        """Row-major reshape of an array with symbolic lengths."""
        fold = x.fold if x.fold is not None else x
        size = ONE
        for d in fold.shape:
            size = size * d
        tgt = [al.as_poly(t) for t in tgt]
        rest, hole = ONE, None
        for k, t in enumerate(tgt):
            if t.const_value() == -1:
                hole = k
            else:
                rest = rest * t
        if hole is not None:
            tgt[hole] = size / rest
            rest = size
        if not al.equal(rest, size):
            raise Imprecise('reshape of %s elements to %s' % (
                al.show(size), al.show(rest)))
        shape = tuple(dim_of(t) for t in tgt)
        if len(shape) == len(fold.shape) and all(
                same_dim(a, b) for a, b in zip(shape, fold.shape)):
            return fold

        def cell(ix):
            k = ix[0]
            for d, i in zip(shape[1:], ix[1:]):
                k = k * d + i
            src = []
            for d in reversed(fold.shape[1:]):
                src.append(int_mod(k, d))
                k = int_div(k, d)
            return fold.at([k] + src[::-1])
        r = Arr.build(shape, cell)
        r.fold = fold
        return r

    def np_ravel(self, args, kw, node):
        x = self.arr(args[0])
        if x.ndim() == 1:
            return args[0]
        return self.np_reshape([args[0], al.as_poly(-1)], {}, node)

    np_flatten = np_ravel

    def np_concatenate(self, args, kw, node):
        parts = [self.arr(p) for p in self.iter_concrete(args[0])]
        ax = self.axis(args, kw) or 0
        return self.alloc(self.concat_arrays(parts, ax))

    def concat_arrays(self, parts, ax):
        ax = ax % parts[0].ndim()
        if len(parts) == 1:
            return parts[0]
        if all(isinstance(p.shape[ax], int) for p in parts):
            bounds, tot = [], 0
            for p in parts:
                bounds.append(tot)
                tot += p.shape[ax]

            def fn(ix):
                k = _const(ix[ax])
                for p, b in reversed(list(zip(parts, bounds))):
                    if k >= b:
                        return p.at(list(ix[:ax]) + [k - b] +
                                    list(ix[ax + 1:]))
            if tot > CONCRETE_AXIS:
                raise Imprecise('long concatenation')
            return Arr.build(parts[0].shape[:ax] + (tot,) +
                             parts[0].shape[ax + 1:], fn)
        tot = ZERO
        bounds = []
        for p in parts:
            bounds.append(tot)
            tot = tot + al.as_poly(p.shape[ax])

        def fs(ix):
            i = ix[ax]
            out = None
            for p, b in reversed(list(zip(parts, bounds))):
                v = p.at(list(ix[:ax]) + [i - b if not isinstance(
                    p.shape[ax], int) or p.shape[ax] > 1 else ZERO] +
                    list(ix[ax + 1:]))
                end = b + al.as_poly(p.shape[ax])
                out = v if out is None else al.ite(al.lt0(i - end), v, out)
            return out
        shape = parts[0].shape[:ax] + (dim_of(tot),) + \
            parts[0].shape[ax + 1:]
        r = Arr.build(shape, fs)
        return Arr(r.shape, {k: norm_bounds(v, r.shape)
                             for k, v in r.data.items()})

    def np_append(self, args, kw, node):
        a, b = self.arr(args[0]), self.arr(args[1])
        if b.ndim() == 0:
            b = Arr((1,), {(0,): b.data[()]})
        if a.ndim() != 1 or b.ndim() != 1:
            ax = self.axis(args, kw, 2)
            if ax is None:
                raise Imprecise('append of matrices')
            return self.alloc(self.concat_arrays([a, b], ax))
        return self.alloc(self.concat_arrays([a, b], 0))

    def np_vstack(self, args, kw, node):
        parts = []
        for p in self.iter_concrete(args[0]):
            x = self.arr(p)
            parts.append(self.expand(x, 0) if x.ndim() == 1 else x)
        return self.alloc(self.concat_arrays(parts, 0))

    np_row_stack = np_vstack

    def np_hstack(self, args, kw, node):
        parts = [self.arr(p) for p in self.iter_concrete(args[0])]
        return self.alloc(self.concat_arrays(
            parts, 0 if parts[0].ndim() == 1 else 1))

    def np_column_stack(self, args, kw, node):
        parts = []
        for p in self.iter_concrete(args[0]):
            x = self.arr(p)
            parts.append(self.expand(x, 1) if x.ndim() == 1 else x)
        return self.alloc(self.concat_arrays(parts, 1))

    def np_stack(self, args, kw, node):
        parts = [self.arr(p) for p in self.iter_concrete(args[0])]
        ax = self.axis(args, kw) or 0
        ax = ax % (parts[0].ndim() + 1)
        return self.alloc(self.concat_arrays(
            [self.expand(p, ax) for p in parts], ax))

    def np_tile(self, args, kw, node):
        x = self.arr(args[0])
        reps = args[1] if len(args) > 1 else kw['reps']
        if x.ndim() == 1 and isinstance(reps, (int, Poly)):
            n = dim_of(al.as_poly(reps))
            two = Arr.build((n, x.shape[0]), lambda ix: x.at([ix[1]]))
            return self.np_reshape([self.alloc(two), al.as_poly(-1)], {},
                                   node)
        if x.ndim() == 1 and isinstance(reps, tuple) and len(reps) == 2 and \
                _const(self.num(reps[1])) == 1:
            return self.alloc(Arr.build(
                (dim_of(self.num(reps[0])), x.shape[0]),
                lambda ix: x.at([ix[1]])))
        raise Imprecise('tile')

    def np_repeat(self, args, kw, node):
        x = self.num(args[0])
        n = self.num(args[1] if len(args) > 1 else kw['repeats'])
        if not isinstance(n, Poly):
            raise Imprecise('repeat by an array')
        n = dim_of(n)
        ax = self.axis(args, kw, 2)
        if isinstance(x, Poly):
            return self.alloc(Arr.build((n,), lambda ix: x))
        if x.ndim() == 1:
            two = Arr.build((x.shape[0], n), lambda ix: x.at([ix[0]]))
            return self.np_reshape([self.alloc(two), al.as_poly(-1)], {},
                                   node)
        if ax is not None and x.shape[ax] == 1:
            sh = list(x.shape)
            sh[ax] = n
            return self.alloc(Arr.build(tuple(sh), lambda ix: x.at(
                [0 if k == ax else i for k, i in enumerate(ix)])))
        raise Imprecise('repeat')

    def np_meshgrid(self, args, kw, node):
        a, b = self.arr(args[0]), self.arr(args[1])
        ij = kw.get('indexing') == 'ij'
        if ij:
            sh = (a.shape[0], b.shape[0])
            return self.new_list([
                self.alloc(Arr.build(sh, lambda ix: a.at([ix[0]]))),
                self.alloc(Arr.build(sh, lambda ix: b.at([ix[1]])))])
        sh = (b.shape[0], a.shape[0])
        return self.new_list([
            self.alloc(Arr.build(sh, lambda ix: a.at([ix[1]]))),
            self.alloc(Arr.build(sh, lambda ix: b.at([ix[0]])))])

    def np_flip(self, args, kw, node):
        x = self.arr(args[0])
        ax = self.axis(args, kw)
        ix = []
        for k in range(x.ndim()):
            if ax is None or k == ax % x.ndim():
                ix.append(SliceV(None, None, al.as_poly(-1)))
            else:
                ix.append(SliceV(None, None, None))
        return self.alloc(get_item(x, ix))

    def np_isnan(self, args, kw, node):
        def f(p):
            if al.sid(al.sym('nan')) in p.all_atoms():
                return ONE
            return al.truth(('isnan', p))
        return self.map_num(f, args[0], 'b')

    def np_isfinite(self, args, kw, node):
        return self.map_num(lambda p: al.truth(('isfinite', p)), args[0], 'b')

    def np_isclose(self, args, kw, node):
        a, b = self.num(args[0]), self.num(args[1])

        def f(x, y):
            return al.truth(('isclose',) + tuple(sorted(
                [x, y], key=al.show)) + tuple(sorted(
                    (k, self.key(v)) for k, v in kw.items())))
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.np_result(elementwise(f, a, b, dtype='b'))
        return f(a, b)

    def np_allclose(self, args, kw, node):
        return self.anyall(self.np_isclose(args, kw, node), False) \
            if isinstance(self.np_isclose(args, kw, node), Ref) \
            else self.np_isclose(args, kw, node)

    def np_array_equal(self, args, kw, node):
        a, b = self.num(args[0]), self.num(args[1])
        if isinstance(a, Arr) and isinstance(b, Arr) and a == b:
            return True
        return al.truth(('array_equal', self.key(a), self.key(b)))

    def np_any(self, args, kw, node):
        if isinstance(args[0], (Poly, bool)):
            return self.tidy_bool(self.truth(args[0]))
        if self.axis(args, kw) is not None:
            raise Imprecise('any axis')
        return self.anyall(args[0], True)

    def np_all(self, args, kw, node):
        if isinstance(args[0], (Poly, bool)):
            return self.tidy_bool(self.truth(args[0]))
        if self.axis(args, kw) is not None:
            raise Imprecise('all axis')
        return self.anyall(args[0], False)

    def np_logical_not(self, args, kw, node):
        return self.map_num(lambda p: ONE - self.truth(p), args[0], 'b')

    def np_logical_and(self, args, kw, node):
        a, b = self.num(args[0]), self.num(args[1])
        return self.np_result(elementwise(
            lambda x, y: self.truth(x) * self.truth(y), a, b, dtype='b'))

    def np_logical_or(self, args, kw, node):
        a, b = self.num(args[0]), self.num(args[1])
        return self.np_result(elementwise(
            lambda x, y: self.truth(x) + self.truth(y) -
            self.truth(x) * self.truth(y), a, b, dtype='b'))

    def np_less(self, args, kw, node):
        return self.compare(ast.Lt(), args[0], args[1], node)

    def np_greater(self, args, kw, node):
        return self.compare(ast.Gt(), args[0], args[1], node)

    def np_less_equal(self, args, kw, node):
        return self.compare(ast.LtE(), args[0], args[1], node)

    def np_greater_equal(self, args, kw, node):
        return self.compare(ast.GtE(), args[0], args[1], node)

    def np_equal(self, args, kw, node):
        return self.equals(args[0], args[1])

    def np_not_equal(self, args, kw, node):
        return self.negate(self.equals(args[0], args[1]))

    def np_maximum(self, args, kw, node):
        a, b = self.num(args[0]), self.num(args[1])
        return self.np_result(elementwise(
            lambda x, y: al.ite(al.lt0(x - y), y, x), a, b))

    def np_minimum(self, args, kw, node):
        a, b = self.num(args[0]), self.num(args[1])
        return self.np_result(elementwise(
            lambda x, y: al.ite(al.lt0(x - y), x, y), a, b))

    def np_max(self, args, kw, node):
        x = self.num(args[0])
        if isinstance(x, Poly):
            return x
        ax = self.axis(args, kw)
        if ax is None:
            return al.app('max', x.key())
        return self.alloc(reduce_axis(
            x, ax, lambda v: al.app('max', *sorted(v, key=al.show)),
            lambda b, v, d: al.app('maxover', al.subst(
                b, {al.sid(v): al.sym('mv', int=True)}), al.as_poly(d))))

    np_amax = np_max

    def np_min(self, args, kw, node):
        x = self.num(args[0])
        if isinstance(x, Poly):
            return x
        ax = self.axis(args, kw)
        if ax is None:
            return al.app('min', x.key())
        return self.alloc(reduce_axis(
            x, ax, lambda v: al.app('min', *sorted(v, key=al.show)),
            lambda b, v, d: al.app('minover', al.subst(
                b, {al.sid(v): al.sym('mv', int=True)}), al.as_poly(d))))

    np_amin = np_min

    def argext(self, nm, args, kw):
        x = self.arr(args[0])
        if self.axis(args, kw) is not None and x.ndim() > 1:
            raise Imprecise(nm)
        return al.app(nm, x.key(), int=True, sign='+0')

    def np_argmin(self, args, kw, node):
        return self.argext('argmin', args, kw)

    def np_argmax(self, args, kw, node):
        return self.argext('argmax', args, kw)

    @staticmethod
    def _constants(x):
        """Values of an array whose elements are all known, or None."""
        if x.ndim() == 0 or not all(isinstance(d, int) for d in x.shape):
            return None
        out = []
        for ix in itertools.product(*[range(d) for d in x.shape]):
            e = x.at(list(ix))
            v = e.const_value() if isinstance(e, Poly) else None
            if v is None:
                return None
            out.append(v)
        return out

    def _line(self, vals):
        return self.alloc(Arr((len(vals),), {
            (i,): al.as_poly(v) for i, v in enumerate(vals)}))

    def np_unique(self, args, kw, node):
        c = self._constants(self.arr(args[0]))
        if c is None or len(args) > 1 or kw:
            raise Imprecise('unique')
        return self._line(sorted(set(c)))

    def np_argsort(self, args, kw, node):
        x = self.arr(args[0])
        c = self._constants(x)
        if c is not None and x.ndim() == 1 and len(args) == 1 and not kw:
            return self._line(sorted(range(len(c)), key=lambda i: c[i]))
        return self.alloc(Arr.symbol(('argsort', x.key()), x.shape,
                                     int=True))

    def _extent(self, name, args, kw, node):
        v = args[0]
        if isinstance(v, Unknown):
            return v
        if isinstance(v, GIf):
            return self.split(v, lambda x: self._extent(
                name, [x] + list(args[1:]), kw, node))
        if isinstance(v, (bool, str)) or v is None or len(args) > 1 or kw:
            raise Imprecise('%s of %r' % (name, v))
        return self.arr_attr(v, self.to_array(v), name)

    def np_size(self, args, kw, node):
        return self._extent('size', args, kw, node)

    def np_shape(self, args, kw, node):
        return self._extent('shape', args, kw, node)

    def np_ndim(self, args, kw, node):
        return self._extent('ndim', args, kw, node)

    def np_sort(self, args, kw, node):
        x = self.arr(args[0])
        c = self._constants(x)
        if c is not None and x.ndim() == 1 and len(args) == 1 and not kw:
            return self._line(sorted(c))
        return self.alloc(Arr.symbol(('sort', x.key()), x.shape))

    def np_arctan2(self, args, kw, node):
        a, b = self.num(args[0]), self.num(args[1])
        return self.np_result(elementwise(
            lambda x, y: al.app('atan2', x, y), a, b))

    np_atan2 = np_arctan2

    def np_hypot(self, args, kw, node):
        a, b = self.num(args[0]), self.num(args[1])
        return self.np_result(elementwise(
            lambda x, y: al.power(x * x + y * y, Fraction(1, 2)), a, b))

    def np_copyto(self, args, kw, node):
        v = self.num(args[1])
        c = self.content(args[0])
        self.mutate(args[0], elementwise(lambda a, b: b, c, v), node)
        return None

    # -- polynomials
    def _coefs(self, v):
        a = self.num(v)
        if isinstance(a, Poly):
            a = Arr((1,), {(0,): a})
        return a

    def _deg(self, v):
        d = _const(v) if isinstance(v, Poly) else v
        return None if d is None else int(d)

    def fit_array(self, kind, args, kw):
        X, Y = args[0], args[1]
        deg = args[2] if len(args) > 2 else kw['deg']
        d = self._deg(deg)
        n = d + 1 if d is not None else dim_of(self.num(deg) + 1)
        key = (kind, self.key(X), self.key(Y), self.key(deg)) + tuple(
            sorted((k, self.key(v)) for k, v in kw.items() if k != 'deg'))
        key += tuple(self.key(a) for a in args[3:])
        return key, n

    def np_polyfit(self, args, kw, node):
        key, n = self.fit_array('polyfit-descending', args, kw)
        self.event('call', 'numpy.polyfit', args, kw, node)
        if _truthy(kw.get('full')) or _truthy(kw.get('cov')):
            return Opaque(('call', 'numpy.polyfit') + key)
        return self.alloc(Arr.symbol(key, (n,)))

    def np_polynomial_polynomial_polyfit(self, args, kw, node):
        key, n = self.fit_array('polyfit', args, kw)
        self.event('call', 'numpy.polynomial.polynomial.polyfit', args, kw,
                   node)
        y = self.num(args[1])
        if isinstance(y, Arr) and len(y.shape) == 2:
            # one independent fit per column
            k2 = ('polyfit', self.key(args[0]), self.key(args[2] if
                                                         len(args) > 2
                                                         else kw['deg']))

            def fn(ix):
                col = Arr.build((y.shape[0],), lambda r: y.at([r[0], ix[1]]))
                return al.idx(k2[:2] + (col.key(),) + k2[2:], ix[0])
            return self.alloc(Arr.build((n, y.shape[1]), fn))
        return self.alloc(Arr.symbol(
            ('polyfit', key[1], self.to_array(args[1]).key(), key[3]), (n,)))

    def polyval(self, coefs, x, descending):
        n = coefs.shape[0]

        def at(xx):
            if isinstance(n, int):
                r = ZERO
                for k in range(n):
                    e = n - 1 - k if descending else k
                    r = r + coefs.at([al.as_poly(k)]) * al.power(xx, e)
                return r
            v = al.fresh('pk', sign='+0')
            e = n - 1 - v if descending else v
            return al.make_sum(coefs.at([v]) * _ipow(xx, e), v, ZERO, n)
        return at

    def _polyval(self, c, x, desc):
        co = self._coefs(c)
        if len(co.shape) == 2:
            x2 = self.num(x)

            def cell(ix):
                col = Arr.build((co.shape[0],),
                                lambda r: co.at([r[0], ix[0]]))
                xx = x2.at(list(ix[1:])) if isinstance(x2, Arr) else x2
                return self.polyval(col, xx, desc)(xx)
            sh = x2.shape if isinstance(x2, Arr) else ()
            return self.alloc(Arr.build((co.shape[1],) + tuple(sh), cell))
        return self.map_num(self.polyval(co, x, desc), x)

    def np_polyval(self, args, kw, node):
        return self._polyval(args[0], args[1], True)

    def np_polynomial_polynomial_polyval(self, args, kw, node):
        return self._polyval(args[1], args[0], False)

    def np_polyder(self, args, kw, node):
        m = args[1] if len(args) > 1 else kw.get('m', ONE)
        return self.alloc(self._der(self._coefs(args[0]), self._deg(m), True))

    def np_polynomial_polynomial_polyder(self, args, kw, node):
        m = args[1] if len(args) > 1 else kw.get('m', ONE)
        return self.alloc(self._der(self._coefs(args[0]), self._deg(m),
                                    False))

    def _der(self, co, m, desc):
        n = co.shape[0]
        for _ in range(m):
            cur, k0 = co, n

            def fn(ix, cur=cur, k0=k0):
                if desc:
                    return cur.at(ix) * (al.as_poly(k0) - 1 - ix[0])
                return cur.at([ix[0] + 1]) * (ix[0] + 1)
            n = dim_of(al.as_poly(n) - 1)
            co = Arr.build((n,), fn)
        return co

    def roots_of(self, co, kind='polyroots'):
        """Roots for ascending coefficients: exact for numeric ones whose
        rational roots leave at most a quadratic factor."""
        if isinstance(co.shape[0], int):
            k = [co.at([i]).const_value() for i in range(co.shape[0])]
            r = None if None in k else al.exact_roots(k)
            if r is not None:
                return self.alloc(Arr((len(r),), {
                    (i,): x for i, x in enumerate(r)}))
        return self.alloc(Arr.symbol(
            (kind, co.key()), (dim_of(al.as_poly(co.shape[0]) - 1),)))

    def np_roots(self, args, kw, node):
        co = self._coefs(args[0])
        n = al.as_poly(co.shape[0])
        return self.roots_of(Arr.build(co.shape, lambda ix: co.at(
            [n - 1 - ix[0]])), 'roots')

    def np_polynomial_polynomial_polyroots(self, args, kw, node):
        return self.roots_of(self._coefs(args[0]))

    def np_polynomial_polynomial_Polynomial(self, args, kw, node):
        return PolyV(self._coefs(args[0]))

    def np_polynomial_Polynomial(self, args, kw, node):
        return PolyV(self._coefs(args[0]))

    def np_poly1d(self, args, kw, node):
        co = self._coefs(args[0])
        n = al.as_poly(co.shape[0])
        return PolyV(Arr.build(co.shape, lambda ix: co.at([n - 1 - ix[0]])))

    def polynomial_method(self, p, name, args, kw, node):
        if name == 'deriv':
            m = args[0] if args else kw.get('m', ONE)
            return PolyV(self._der(p.coef, self._deg(m), False))
        if name == 'roots':
            return self.roots_of(p.coef)
        if name == 'integ' and not args and not kw and \
                isinstance(p.coef.shape[0], int):
            return PolyV(Arr.build((p.coef.shape[0] + 1,), lambda ix: ZERO if
                                   ix[0].const_value() == 0 else
                                   p.coef.at([ix[0] - 1]) / ix[0]))
        if name == 'degree':
            return al.as_poly(p.coef.shape[0]) - 1
        raise Imprecise('polynomial method ' + name)

    def polynomial_op(self, op, a, b):
        if isinstance(a, PolyV) and isinstance(b, PolyV):
            if isinstance(op, (ast.Add, ast.Sub)) and \
                    a.coef.shape == b.coef.shape:
                s = 1 if isinstance(op, ast.Add) else -1
                return PolyV(Arr.build(a.coef.shape, lambda ix:
                                       a.coef.at(ix) + b.coef.at(ix) * s))
            raise Imprecise('polynomial arithmetic')
        p, x = (a, b) if isinstance(a, PolyV) else (b, a)
        x = self.num(x)
        if not isinstance(x, Poly):
            raise Imprecise('polynomial arithmetic')
        if isinstance(op, (ast.Add, ast.Sub)):
            s = -1 if isinstance(op, ast.Sub) else 1
            sp = 1
            if p is b and s == -1:
                s, sp = 1, -1

            def fn(ix):
                return p.coef.at(ix) * sp + al.eq0(ix[0]) * x * s
            return PolyV(Arr.build(p.coef.shape, fn))
        if isinstance(op, ast.Mult):
            return PolyV(p.coef.map(lambda v: v * x))
        if isinstance(op, ast.Div) and p is a:
            return PolyV(p.coef.map(lambda v: v / x))
        raise Imprecise('polynomial arithmetic')

    def np_nan_to_num(self, args, kw, node):
        return self.map_num(lambda p: al.app('nan_to_num', p), args[0])

    # linear algebra: uninterpreted except for determined identities
    def np_linalg_inv(self, args, kw, node):
        x = self.num(args[0])
        if isinstance(x, Poly):
            return self.opq_array('inv', args, None)
        ex = exact_inverse(x)
        if ex is not None:
            return self.alloc(ex)
        sy = symmetric(x)
        if sy:
            def fn(ix):
                i, j = ix
                a, b = i.const_value(), j.const_value()
                if a is not None and b is not None and b < a:
                    i, j = j, i
                return al.idx(('inv', x.key()), i, j)
            return self.alloc(Arr.build(x.shape, fn))
        return self.alloc(Arr.symbol(('inv', x.key()), x.shape))

    def np_linalg_det(self, args, kw, node):
        x = self.num(args[0])
        if isinstance(x, Arr) and x.shape in ((2, 2), (3, 3)):
            n = x.shape[0]
            out = ZERO
            for p in itertools.permutations(range(n)):
                s = 1
                for i in range(n):
                    for j in range(i):
                        if p[j] > p[i]:
                            s = -s
                t = al.as_poly(s)
                for i in range(n):
                    t = t * x.at([i, p[i]])
                out = out + t
            return out
        return al.app('det', self.key(args[0]))

    def np_linalg_norm(self, args, kw, node):
        x = self.num(args[0])
        if isinstance(x, Arr) and x.ndim() in (1, 2) and not kw \
                and len(args) == 1:
            return al.power(sum_all(x.map(lambda p: p * p)), Fraction(1, 2))
        if isinstance(x, Arr) and 'axis' in kw:
            return self.np_result(sum_axis(x.map(lambda p: p * p), _const(
                kw['axis'])).map(lambda p: al.power(p, Fraction(1, 2))))
        return al.app('norm', self.key(args[0]))

    def eig(self, nm, args):
        x = self.num(args[0])
        if not isinstance(x, Arr) or x.ndim() != 2:
            raise Imprecise(nm)
        n = x.shape[0]
        return (self.alloc(Arr.symbol((nm, 'val', x.key()), (n,))),
                self.alloc(Arr.symbol((nm, 'vec', x.key()), (n, n))))

    def np_linalg_eigh(self, args, kw, node):
        return self.eig('eigh', args)

    def np_linalg_eig(self, args, kw, node):
        return self.eig('eig', args)

    def np_linalg_eigvalsh(self, args, kw, node):
        return self.eig('eigh', args)[0]

    def np_linalg_eigvals(self, args, kw, node):
        return self.eig('eig', args)[0]

    def opq_array(self, nm, args, shape):
        return Opaque(('call', nm) + tuple(self.key(a) for a in args))


def int_div(a, b):
    a, b = al.as_poly(a), al.as_poly(b)
    x, y = a.const_value(), b.const_value()
    if x is not None and y:
        return al.as_poly(x // y)
    return al.app('floordiv', a, b, int=True, sign='+0')


def int_mod(a, b):
    a, b = al.as_poly(a), al.as_poly(b)
    x, y = a.const_value(), b.const_value()
    if x is not None and y:
        return al.as_poly(x % y)
    return al.app('mod', a, b, int=True, sign='+0')


class PolyV(object):
    """numpy Polynomial: ascending coefficients."""

    def __init__(self, coef):
        self.coef = coef

    def __eq__(self, o):
        return isinstance(o, PolyV) and self.coef == o.coef

    def __hash__(self):
        return hash(self.coef.key())


def _truthy(v):
    return v is True or (isinstance(v, Poly) and bool(v.const_value()))


def _ipow(x, e):
    """x ** e for a symbolic non-negative integer exponent."""
    c = e.const_value()
    if c is not None:
        return al.power(x, c)
    return al.app('ipow', x, e)


class Partial(object):
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class NoModel(Exception):
    pass


def _prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def symmetric(x):
    if x.ndim() != 2 or not all(isinstance(d, int) for d in x.shape) or \
            x.shape[0] != x.shape[1]:
        return False
    n = x.shape[0]
    return all(al.equal(x.data[(i, j)], x.data[(j, i)])
               for i in range(n) for j in range(i))


NP_METHODS = {'sum', 'mean', 'dot', 'max', 'min', 'argmin', 'argmax',
              'argsort', 'any', 'all', 'ravel', 'flatten', 'squeeze', 'prod',
              'cumsum', 'trace', 'diagonal', 'swapaxes', 'round', 'clip'}


def rounded(p, nd=None):
    """To nd decimals, halves to the even digit."""
    if is_integer(p):
        return p
    n = 0 if nd is None else nd
    n = n.const_value() if isinstance(n, Poly) else n
    if not isinstance(n, (int, Fraction)) or n != int(n):
        return al.app('round', p, nd if isinstance(nd, Poly) else str(nd))
    ten = Fraction(10) ** int(n)
    q = p * ten
    c = q.const_value()
    return (al.as_poly(round(c)) if c is not None else al.app(
        'rint', q, int=True)) * (1 / ten)


def whole(name, f):
    def g(p):
        c = p.const_value()
        return p if is_integer(p) else al.as_poly(f(c)) if c is not None \
            else al.app(name, p, int=True)
    return g


UNARY = {
    'sqrt': lambda p: al.power(p, Fraction(1, 2)),
    'cbrt': lambda p: al.power(p, Fraction(1, 3)),
    'exp': al.exp, 'expm1': lambda p: al.exp(p) - 1,
    'log': al.log, 'ln': al.log, 'log1p': lambda p: al.log(p + 1),
    'log10': lambda p: al.log(p) / al.log(al.as_poly(10)),
    'log2': lambda p: al.log(p) / al.log(al.as_poly(2)),
    'sin': al.sin, 'cos': al.cos, 'tan': lambda p: al.sin(p) / al.cos(p),
    'sinh': lambda p: (al.exp(p) - al.exp(-p)) / 2,
    'cosh': lambda p: (al.exp(p) + al.exp(-p)) / 2,
    'tanh': lambda p: (al.exp(p) - al.exp(-p)) / (al.exp(p) + al.exp(-p)),
    'arcsin': lambda p: al.app('asin', p), 'asin': lambda p: al.app('asin',
                                                                    p),
    'arccos': lambda p: al.app('acos', p), 'acos': lambda p: al.app('acos',
                                                                    p),
    'arctan': lambda p: al.app('atan', p), 'atan': lambda p: al.app('atan',
                                                                    p),
    'abs': al.absolute, 'absolute': al.absolute, 'fabs': al.absolute,
    'negative': lambda p: -p, 'positive': lambda p: p,
    'square': lambda p: p * p,
    'reciprocal': lambda p: al.power(p, Fraction(-1)),
    'degrees': lambda p: p * 180 / al.PI, 'rad2deg': lambda p: p * 180 /
    al.PI,
    'radians': lambda p: p * al.PI / 180, 'deg2rad': lambda p: p * al.PI /
    180,
    'real': al.real_part, 'imag': al.imag_part,
    'isreal': lambda p: al.eq0(al.imag_part(p)),
    'iscomplex': lambda p: al.as_poly(1) - al.eq0(al.imag_part(p)),
    'conj': lambda p: al.app('conj', p),
    'conjugate': lambda p: al.app('conj', p),
    'floor': whole('floor', math.floor), 'ceil': whole('ceil', math.ceil),
    'rint': rounded, 'trunc': whole('trunc', math.trunc),
    'fix': whole('trunc', math.trunc),
    'sign': lambda p: _signum(p),
}


def _signum(p):
    s = al.sign(p)
    if s in (0, 1, -1):
        return Poly.const(s)
    if s == '+0':
        return Poly.const(1) - al.eq0(p)
    if s == '-0':
        return al.eq0(p) - Poly.const(1)
    return al.app('sign', p)


BINARY = {
    'add': ast.Add(), 'subtract': ast.Sub(), 'multiply': ast.Mult(),
    'divide': ast.Div(), 'true_divide': ast.Div(), 'mod': ast.Mod(),
    'remainder': ast.Mod(), 'fmod': ast.Mod(), 'floor_divide': ast.FloorDiv(),
    'bitwise_and': ast.BitAnd(), 'bitwise_or': ast.BitOr(),
}


class Interp(ExecMixin, ExprMixin, CallMixin, Base):
    pass


def exact_inverse(x):
    """Inverse of a small matrix of numbers."""
    if x.shape not in ((2, 2), (3, 3), (1, 1)):
        return None
    n = x.shape[0]
    rows = [[x.at([i, j]) for j in range(n)] for i in range(n)]
    if not all(p.is_const() for r in rows for p in r):
        return None
    m = [r + [al.as_poly(int(i == j)) for j in range(n)]
         for i, r in enumerate(rows)]
    for k in range(n):
        piv = [i for i in range(k, n) if not al.is_zero(m[i][k])]
        if not piv:
            return None
        m[k], m[piv[0]] = m[piv[0]], m[k]
        m[k] = [v / m[k][k] for v in m[k]]
        for i in range(n):
            if i != k:
                m[i] = [v - m[i][k] * u for v, u in zip(m[i], m[k])]
    return Arr.build((n, n), lambda ix: m[int(ix[0].const_value())]
                     [n + int(ix[1].const_value())])
