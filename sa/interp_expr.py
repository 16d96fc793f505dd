"""Expressions."""
import ast
from fractions import Fraction

from . import algebra as al
from .algebra import Poly
from .values import *          # noqa
from .values import _const
from .interp import (AbsRaise, Frame, Outcome, ONE, ZERO, PropertyV, StaticV,
                     OpaqueContent, ListIfC)
from .interp_exec import (AccListC, AbsReturnUnknown, is_integer, restrict, single,
                          restrict_mul, same_value)

BUILTINS = {
    'range', 'prange', 'len', 'enumerate', 'zip', 'map', 'filter', 'list',
    'tuple', 'dict', 'set', 'str', 'int', 'float', 'bool', 'sum', 'min',
    'max', 'abs', 'round', 'sorted', 'reversed', 'any', 'all', 'isinstance',
    'type', 'hasattr', 'getattr', 'setattr', 'print', 'eval', 'super', 'iter',
    'next', 'object', 'open', 'repr', 'format', 'callable', 'divmod', 'pow',
    'complex', 'slice', 'id', 'vars', 'dir', 'input', 'frozenset', 'issubclass',
    'bytes', 'ord', 'chr', 'hash', 'exec', 'exit', 'quit', 'staticmethod',
    'classmethod', 'property', 'delattr', 'globals', 'locals', 'NotImplemented',
    '__import__',
}
EXC = {'Exception', 'BaseException', 'ValueError', 'TypeError', 'KeyError',
       'IndexError', 'AttributeError', 'RuntimeError', 'NotImplementedError',
       'OSError', 'IOError', 'FileNotFoundError', 'ZeroDivisionError',
       'StopIteration', 'ArithmeticError', 'LookupError', 'ImportError',
       'ModuleNotFoundError', 'UnicodeDecodeError', 'SystemExit',
       'KeyboardInterrupt', 'Warning', 'DeprecationWarning', 'UserWarning',
       'RuntimeWarning', 'NameError', 'AssertionError', 'EOFError',
       'OverflowError', 'FloatingPointError', 'PermissionError',
       'IsADirectoryError', 'UnboundLocalError'}


class ExprMixin(object):

    def ev(self, node):
        self.tick(node)
        m = getattr(self, 'ex_' + type(node).__name__, None)
        if m is None:
            return self.unknown('expression ' + type(node).__name__, node)
        try:
            return m(node)
        except BadShape:
            raise AbsRaise(Opaque(('exc', 'ValueError')), node)
        except Imprecise as exc:
            return self.unknown(str(exc), node)
        except al.Undefined as exc:
            return al.sym('undefined')

    def ex_Constant(self, n):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
            return v
        if isinstance(v, (int, float)):
            return al.as_poly(v)
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, complex):
            return al.app('complex', repr(v))
        return self.unknown('constant', n)

    def ex_Name(self, n):
        v = self.lookup(n.id, n)
        return v

    def lookup(self, name, n=None):
        fr = self.frames[-1]
        if name in fr.env:
            v = fr.env[name]
            if v is UNBOUND:
                self.event('unbound', name, [], {}, n)
                if self.own_name(fr, name):
                    raise AbsRaise(Opaque(('exc', 'UnboundLocalError')), n)
                return Unknown('unbound ' + name)
            if isinstance(v, GIf):
                b = self.gif_bound(v)
                if b is not v:
                    if self.decide_unbound(v):
                        self.event('unbound', name, [], {}, n)
                    return b
            return v
        c = fr.closure
        while c is not None:
            if isinstance(c, Frame):
                if name in c.env:
                    return c.env[name]
                c = c.closure
            else:
                if name in c:
                    return c[name]
                c = None
        menv = self.modenv.get(fr.mod.name) if not getattr(
            fr, 'is_module', False) else None
        if menv is None and not getattr(fr, 'is_module', False):
            menv = self.module_env(fr.mod.name)
        if menv and name in menv:
            return menv[name]
        if name == '__name__':
            return fr.mod.name
        if name == '__file__':
            return Opaque(('file', fr.mod.name), str=True)
        if name in BUILTINS:
            return Builtin('builtin.' + name)
        if name in EXC:
            return Ext('builtins.' + name)
        if name in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[name]
        self.event('unbound', name, [], {}, n)
        if self.own_name(fr, name):
            raise AbsRaise(Opaque(('exc', 'UnboundLocalError')), n)
        return self.unknown('name ' + name, n)

    @staticmethod
    def own_name(fr, name):
        """Is the name a local variable of the function (and bound nowhere
        on the path that leads here)?"""
        if getattr(fr, 'is_module', False) or not isinstance(
                getattr(fr.func, 'node', None),
                (ast.FunctionDef, ast.Lambda)):
            return False
        found = False
        for x in ast.walk(fr.func.node):
            if isinstance(x, (ast.Global, ast.Nonlocal)) and name in x.names:
                return False
            if isinstance(x, (ast.Import, ast.ImportFrom, ast.Delete)):
                if isinstance(x, ast.Delete) or any(
                        a.name == '*' for a in x.names):
                    return False
            if isinstance(x, ast.Name) and x.id == name and isinstance(
                    x.ctx, ast.Store):
                found = True
        return found

    def gif_bound(self, v):
        """Drop UNBOUND arms."""
        if not isinstance(v, GIf):
            return v
        if v.a is UNBOUND:
            return self.gif_bound(v.b)
        if v.b is UNBOUND:
            return self.gif_bound(v.a)
        a, b = self.gif_bound(v.a), self.gif_bound(v.b)
        if a is v.a and b is v.b:
            return v
        return self.mk_if(v.cond, a, b)

    def decide_unbound(self, v):
        """Is an unbound arm reachable under the path condition?"""
        def rec(x, c):
            if not c.t:
                return False
            if x is UNBOUND:
                return True
            if isinstance(x, GIf):
                return rec(x.a, c * x.cond) or rec(x.b, c * (ONE - x.cond))
            return False
        return rec(v, self.cond())

    def ex_Attribute(self, n):
        v = self.ev(n.value)
        return self.get_attr(v, n.attr, n)

    def ex_Tuple(self, n):
        return tuple(self.ev_items(n.elts))

    def ev_items(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                items = self.iter_concrete(self.ev(e.value))
                if items is None:
                    raise Imprecise('star of symbolic')
                out.extend(items)
            else:
                out.append(self.ev(e))
        return out

    def ex_List(self, n):
        return self.new_list(self.ev_items(n.elts))

    def ex_Set(self, n):
        return self.alloc(SetC(self.ev_items(n.elts)))

    def ex_Dict(self, n):
        d = {}
        open_ = None
        for k, v in zip(n.keys, n.values):
            if k is None:
                b = self.ev(v)
                c = self.content(b)
                if not isinstance(c, DictC):
                    raise Imprecise('dict unpack')
                d.update(c.items)
                open_ = c.open or open_
                continue
            kk = self.dict_key(self.ev(k))
            d[kk] = self.ev(v)
        r = self.new_dict(d, open_)
        self.own.add(r.id)
        return r

    def dict_key(self, k):
        if isinstance(k, (str, bool, Poly, type(None), tuple, Opaque, Func,
                          Class, Ext)):
            return k
        if isinstance(k, GIf):
            raise Imprecise('gated dict key')
        if isinstance(k, Unknown):
            raise Imprecise('unknown dict key')
        raise Imprecise('dict key %r' % (k,))

    def ex_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value)
                spec = ''
                if v.format_spec is not None:
                    s = self.ev(v.format_spec)
                    spec = s if isinstance(s, str) else '?'
                if v.conversion != -1:
                    spec = '!' + chr(v.conversion) + spec
                parts.append(self.format_value(x, spec))
        return self.concat(parts)

    def format_value(self, x, spec=''):
        if isinstance(x, str) and not spec:
            return x
        if isinstance(x, Poly) and x.const_value() is not None:
            c = x.const_value()
            try:
                if c.denominator == 1 and not spec.endswith(
                        ('f', 'e', 'g', 'E', 'G', '%')):
                    return format(int(c), spec)
            except ValueError:
                pass
        if isinstance(x, str):
            try:
                return format(x, spec)
            except ValueError:
                pass
        if isinstance(x, bool) or x is None:
            if not spec:
                return str(x)
        return Opaque(('fmt', spec, self.key(x)), str=True)

    def concat(self, parts):
        flat = []
        for p in parts:
            if isinstance(p, Opaque) and p.key[0] == 'cat':
                flat.extend(p.key[1:])
            elif isinstance(p, str):
                if p:
                    flat.append(p)
            else:
                flat.append(self.key(p))
        out = []
        for p in flat:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        if not out:
            return ''
        if len(out) == 1 and isinstance(out[0], str):
            return out[0]
        if len(out) == 1 and isinstance(parts[0], Opaque) and len(parts) == 1:
            return parts[0]
        return Opaque(('cat',) + tuple(out), str=True)

    # ------------------------------------------------------------------ operators
    def binop_poly(self, op):
        if isinstance(op, ast.Add):
            return lambda a, b: a + b
        if isinstance(op, ast.Sub):
            return lambda a, b: a - b
        if isinstance(op, ast.Mult):
            return lambda a, b: a * b
        if isinstance(op, ast.Div):
            return lambda a, b: a / b
        if isinstance(op, ast.Pow):
            return al.power
        if isinstance(op, ast.FloorDiv):
            return floordiv
        if isinstance(op, ast.Mod):
            return mod
        if isinstance(op, ast.BitAnd):
            return lambda a, b: a * b
        if isinstance(op, ast.BitOr):
            return lambda a, b: a + b - a * b
        raise Imprecise('operator ' + type(op).__name__)

    def ex_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.binop(n.op, a, b, n)

    def binop(self, op, a, b, node):
        for x in (a, b):
            if isinstance(x, Unknown):
                return x
            if x is UNBOUND:
                return Unknown('unbound')
        if type(a).__name__ == 'PolyV' or type(b).__name__ == 'PolyV':
            return self.polynomial_op(op, a, b)
        if isinstance(a, GIf) and not self.gif_numeric(a):
            return self.split(a, lambda x: self.binop(op, x, b, node))
        if isinstance(b, GIf) and not self.gif_numeric(b):
            return self.split(b, lambda x: self.binop(op, a, x, node))
        sa = isinstance(a, str) or (isinstance(a, Opaque) and
                                    a.info.get('str'))
        sb = isinstance(b, str) or (isinstance(b, Opaque) and
                                    b.info.get('str'))
        if isinstance(op, ast.Mod) and sa:
            return self.percent(a, b)
        self.operands(op, a, b, sa, sb, node)
        if isinstance(op, ast.Add) and (sa or sb):
            return self.concat([a, b])
        if isinstance(op, ast.Mult) and (isinstance(a, str) or
                                         isinstance(b, str)):
            s, k = (a, b) if isinstance(a, str) else (b, a)
            k = _const(k)
            if k is not None:
                return s * k
            return Opaque(('repeat', s, self.key(a if s is b else b)),
                          str=True)
        if isinstance(op, ast.Add) and isinstance(a, tuple) and \
                isinstance(b, tuple):
            return a + b
        ca, cb = self.content(a), self.content(b)
        if isinstance(op, ast.Add) and isinstance(ca, (ListC, SymListC)) and \
                isinstance(cb, (ListC, SymListC)):
            if isinstance(ca, ListC) and isinstance(cb, ListC):
                return self.new_list(ca.items + cb.items)
            raise Imprecise('list concatenation')
        if isinstance(op, ast.Mult) and (isinstance(ca, ListC) or
                                         isinstance(a, tuple)):
            k = _const(b)
            if k is not None:
                if isinstance(a, tuple):
                    return a * k
                return self.new_list(ca.items * k)
            if isinstance(ca, ListC) and len(ca.items) == 1 and isinstance(
                    b, Poly):
                v = al.fresh('l', sign='+0')
                return self.alloc(SymListC(dim_of(b), v, ca.items[0]))
        if isinstance(op, ast.Mult) and isinstance(cb, ListC):
            return self.binop(op, b, a, node)
        for x, c in ((a, ca), (b, cb)):
            if isinstance(c, ObjC):
                mname = {ast.Add: '__add__', ast.Sub: '__sub__',
                         ast.Mult: '__mul__', ast.Div: '__truediv__'}.get(
                             type(op))
                f = mname and self.find_method(c.cls, mname)
                if f and x is a:
                    return self.call_func(f, [a, b], {}, node)
                raise Imprecise('object arithmetic')
            if isinstance(c, (SetC, DictC)):
                raise Imprecise('container arithmetic')
        if isinstance(op, ast.MatMult):
            return self.np_result(matmul(self.arr(a), self.arr(b)))
        x, y = self.num(a), self.num(b)
        f = self.binop_poly(op)
        if isinstance(x, Arr) or isinstance(y, Arr):
            return self.new_arr(elementwise(f, x, y))
        return f(x, y)

    def operands(self, op, a, b, sa, sb, node):
        """Operands no Python operator accepts."""
        def kind(v, text):
            if text:
                return 'text'
            if v is None or isinstance(v, (Func, Bound, Builtin)):
                return 'none'
            if isinstance(v, Ref) and v.id in self.own:
                return 'dict'

            if isinstance(v, (Poly, int, float, Fraction)):
                return 'number'
            if isinstance(v, (tuple, RangeV)):
                return 'list'
            if isinstance(v, (Ref, View)):
                c = self.content(v)
                if isinstance(c, (ListC, SymListC)):
                    return 'list'
                if isinstance(c, Arr):
                    return 'array'
            return None
        x, y = kind(a, sa), kind(b, sb)
        if x is None or y is None:
            return
        bad = 'none' in (x, y) or ('dict' in (x, y) and x != y)
        if 'text' in (x, y) and not bad:
            if isinstance(op, ast.Add):
                bad = {x, y} & {'number', 'list'} != set()
            elif not isinstance(op, ast.Mult):
                bad = 'array' not in (x, y)
        if bad:
            self.event('raise', 'TypeError', [a, b], {}, node)
            raise AbsRaise(Opaque(('exc', 'TypeError', 'operands')), node,
                           self.frames[-1].mod if self.frames else None)

    def gif_numeric(self, g):
        def ok(v):
            if isinstance(v, GIf):
                return ok(v.a) and ok(v.b)
            if isinstance(v, Poly):
                return True
            return isinstance(v, (Ref, View)) and isinstance(
                self.content(v), (Arr, Poly))
        return ok(g)

    def np_result(self, a):
        if isinstance(a, Arr):
            if a.ndim() == 0:
                return a.data[()]
            return self.alloc(a)
        return a

    def arr(self, v):
        x = self.num(v)
        return x if isinstance(x, Arr) else Arr((), {(): x})

    def percent(self, fmt, args):
        if not isinstance(fmt, str):
            return Opaque(('percent', self.key(fmt), self.key(args)),
                          str=True)
        import re
        vals = list(args) if isinstance(args, tuple) else [args]
        parts, pos, k = [], 0, 0
        for m in re.finditer(r'%(\([^)]*\))?([-#0 +]*\*?\d*(?:\.\d+)?)([a-zA-Z%])',
                             fmt):
            parts.append(fmt[pos:m.start()])
            pos = m.end()
            if m.group(3) == '%':
                parts.append('%')
                continue
            if m.group(1) or k >= len(vals):
                return Opaque(('percent', fmt, self.key(args)), str=True)
            v = vals[k]
            k += 1
            if m.group(3) == 's' and not m.group(2):
                parts.append(v if isinstance(v, str)
                             else self.format_value(v))
            else:
                parts.append(self.format_value(
                    v, m.group(2) + m.group(3)) if not isinstance(v, str)
                    else ('%' + m.group(2) + m.group(3)) % v
                    if m.group(3) == 's' else self.format_value(
                        v, m.group(2) + m.group(3)))
        parts.append(fmt[pos:])
        return self.concat(parts)

    def ex_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(v, Unknown):
            return v
        if isinstance(n.op, ast.Not):
            c = self.truth(v, n)
            k = c.const_value()
            if k is not None:
                return not bool(k)
            return ONE - c
        if isinstance(n.op, ast.USub):
            return self.map_num(lambda p: -p, v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return self.map_num(lambda p: ONE - p, v, 'b')
        raise Imprecise('unary')

    def ex_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        cur = self.ev(n.values[0])
        for i, e in enumerate(n.values[1:]):
            c = restrict(self.truth(cur, n), self.cond())
            d = self.decide(c)
            if d is not None:
                if d is isand:
                    cur = self.ev(e)
                    continue
                return cur
            # the second operand is evaluated only under the condition
            g = c if isand else ONE - c
            base = self.snapshot()
            self.pc.append(restrict_mul(self.cond(), g))
            try:
                nxt = self.ev(e)
            finally:
                self.pc.pop()
            after = self.snapshot()
            self.restore((self.merge_env(g, after[0], base[0]),
                          self.merge_heap(g, after[1], base[1])))
            if self.boolish(cur) and self.boolish(nxt):
                t = self.truth(nxt)
                cur = c * t if isand else c + t - c * t
                k = cur.const_value()
                if k is not None:
                    cur = bool(k)
            else:
                cur = self.mk_if(c, nxt, cur) if isand else \
                    self.mk_if(c, cur, nxt)
        return cur

    def boolish(self, v):
        return isinstance(v, bool) or (isinstance(v, Poly) and
                                       self._boolean(v))

    def ex_IfExp(self, n):
        c = restrict(self.truth(self.ev(n.test)), self.cond())
        d = self.decide(c)
        if d is True:
            return self.ev(n.body)
        if d is False:
            return self.ev(n.orelse)
        base = self.snapshot()
        res = []
        for cond, e in ((c, n.body), (ONE - c, n.orelse)):
            self.restore((dict(base[0]), dict(base[1])))
            self.pc.append(restrict_mul(self.cond(), cond))
            try:
                v = self.ev(e)
            finally:
                self.pc.pop()
            res.append((v, self.snapshot()))
        self.restore((self.merge_env(c, res[0][1][0], res[1][1][0]),
                      self.merge_heap(c, res[0][1][1], res[1][1][1])))
        return self.mk_if(c, res[0][0], res[1][0])

    def ex_Compare(self, n):
        left = self.ev(n.left)
        out = None
        for op, e in zip(n.ops, n.comparators):
            right = self.ev(e)
            r = self.compare(op, left, right, n)
            if out is None:
                out = r
            else:
                if isinstance(out, bool) and isinstance(r, bool):
                    out = out and r
                else:
                    out = self.truth(out) * self.truth(r)
            left = right
        return out

    def compare(self, op, a, b, node):
        for x in (a, b):
            if isinstance(x, Unknown):
                return x
        if isinstance(a, GIf) and not self.gif_numeric(a):
            return self.split(a, lambda x: self.compare(op, x, b, node))
        if isinstance(b, GIf) and not self.gif_numeric(b):
            return self.split(b, lambda x: self.compare(op, a, x, node))
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return self.negate(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return self.negate(r) if isinstance(op, ast.NotIn) else r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equals(a, b)
            return self.negate(r) if isinstance(op, ast.NotEq) else r
        if isinstance(a, str) and isinstance(b, str):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b,
                    'GtE': a >= b}[type(op).__name__]
        x, y = self.num(a), self.num(b)

        def f(p, q):
            if isinstance(op, ast.Lt):
                return al.lt0(p - q)
            if isinstance(op, ast.Gt):
                return al.lt0(q - p)
            if isinstance(op, ast.LtE):
                return ONE - al.lt0(q - p)
            return ONE - al.lt0(p - q)
        if isinstance(x, Arr) or isinstance(y, Arr):
            return self.np_result(elementwise(f, x, y, dtype='b'))
        return self.tidy_bool(f(x, y))

    def tidy_bool(self, p):
        c = p.const_value()
        if c is not None:
            return bool(c)
        return p

    def negate(self, r):
        if isinstance(r, bool):
            return not r
        if isinstance(r, Poly):
            return self.tidy_bool(ONE - r)
        if isinstance(r, (Ref, View)):
            return self.map_num(lambda p: ONE - p, r, 'b')
        return r

    def is_(self, a, b):
        if a is None or b is None:
            x = b if a is None else a
            if x is None:
                return True
            if isinstance(x, Opaque):
                if x.info.get('str') or x.info.get('notnone'):
                    return False
                return al.truth(('isnone', x.key))
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            x, k = (b, a) if isinstance(a, bool) else (a, b)
            if isinstance(x, Poly) and self._boolean(x):
                return self.tidy_bool(x if k else ONE - x)
            if isinstance(x, Opaque):
                t = al.truth(x.key)
                return t if k else ONE - t
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        return self.equals(a, b)

    def equals(self, a, b):
        for x in (a, b):
            if isinstance(x, Unknown):
                return x
        if isinstance(a, Builtin) and isinstance(b, Builtin):
            return a.name == b.name
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if a is None or b is None:
            return self.is_(a, b)
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            x, y = (a, b) if isinstance(a, Opaque) else (b, a)
            if x == y:
                return True
            if isinstance(y, bool):
                t = al.truth(x.key)
                return t if y else ONE - t
            if isinstance(y, str) or x.info.get('str') or (
                    isinstance(y, (Ext, Class, Builtin))):
                k1, k2 = self.key(x), self.key(y)
                if isinstance(y, Opaque) and repr(k2) < repr(k1):
                    k1, k2 = k2, k1
                return al.truth(('eq', k1, k2))
            p, q = self.num(x), self.num(y)
            if isinstance(p, Arr) or isinstance(q, Arr):
                return self.np_result(elementwise(
                    lambda u, w: al.eq0(u - w), p, q, dtype='b'))
            return self.tidy_bool(al.eq0(p - q))
        if isinstance(a, str) or isinstance(b, str):
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = ONE
            for x, y in zip(a, b):
                t = self.equals(x, y)
                if isinstance(t, Unknown):
                    return t
                r = r * self.truth(t)
            return self.tidy_bool(r)
        if isinstance(a, (Ext, Class, Func, ModuleV)) or isinstance(
                b, (Ext, Class, Func, ModuleV)):
            return bool(type(a) is type(b) and a == b)
        if isinstance(a, Builtin) or isinstance(b, Builtin):
            return False
        ca, cb = self.content(a), self.content(b)
        if isinstance(ca, ListC) and isinstance(cb, ListC):
            return self.equals(tuple(ca.items), tuple(cb.items))
        if isinstance(ca, DictC) and isinstance(cb, DictC):
            if ca.items == cb.items and ca.open == cb.open:
                return True
            raise Imprecise('dict comparison')
        if isinstance(ca, ObjC) or isinstance(cb, ObjC):
            return bool(a == b)
        if isinstance(ca, ListC) or isinstance(cb, ListC):
            if not isinstance(ca, Arr) and not isinstance(cb, Arr):
                return False
        p, q = self.num(a), self.num(b)
        nan = al.sym('nan')
        if isinstance(p, Poly) and p == nan or isinstance(
                q, Poly) and q == nan:
            if isinstance(p, Poly) and isinstance(q, Poly):
                return False
        if isinstance(p, Arr) or isinstance(q, Arr):
            return self.np_result(elementwise(lambda u, w: al.eq0(u - w),
                                              p, q, dtype='b'))
        return self.tidy_bool(al.eq0(p - q))

    def contains(self, box, x):
        if isinstance(box, str):
            if isinstance(x, str):
                return x in box
            return al.truth(('in', self.key(x), box))
        if isinstance(box, Opaque) and callable(box.info.get('has')):
            return box.info['has'](self, x)
        items = None
        c = self.content(box)
        if isinstance(c, DictC):
            if isinstance(x, (str, Poly, tuple, bool)) or x is None:
                if x in c.items:
                    v = c.items[x]
                    if v is UNBOUND:
                        return False
                    if isinstance(v, GIf):
                        def bound(g):
                            if g is UNBOUND:
                                return ZERO
                            if isinstance(g, GIf):
                                return al.ite(g.cond, bound(g.a), bound(g.b))
                            return ONE
                        return self.tidy_bool(bound(v))
                    return True
                if c.open is None and all(isinstance(k, (str, Poly, tuple))
                                          for k in c.items):
                    return False
                return al.truth(('haskey', c.open, self.key(x)))
            items = list(c.items)
            if c.open is not None:
                return al.truth(('haskey', c.open, self.key(x)))
        elif isinstance(c, (ListC, SetC)):
            items = list(c.items)
        elif isinstance(box, tuple):
            items = list(box)
        elif isinstance(box, RangeV):
            lo, hi = _const(box.lo), _const(box.hi)
            if lo is not None and hi is not None:
                items = [al.as_poly(k) for k in
                         range(lo, hi, _const(box.step))]
        if items is None:
            if isinstance(box, Opaque) or isinstance(x, Opaque):
                return al.truth(('in', self.key(x), self.key(box)))
            if isinstance(c, Arr):
                a = c
                r = ZERO
                xx = self.num(x)
                for v in a.data.values():
                    if any(not isinstance(d, int) for d in a.shape):
                        raise Imprecise('membership in symbolic array')
                    t = al.eq0(v - xx)
                    r = r + t - r * t
                return self.tidy_bool(r)
            raise Imprecise('membership')
        r = ZERO
        for it in items:
            t = self.equals(it, x)
            if isinstance(t, Unknown):
                return t
            t = self.truth(t)
            r = r + t - r * t
            if r == ONE:
                break
        return self.tidy_bool(r)

    # ------------------------------------------------------------------ subscript
    def ev_index(self, s):
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(e) for e in s.elts)
        if isinstance(s, ast.Slice):
            return SliceV(*[self.ev(x) if x is not None else None
                            for x in (s.lower, s.upper, s.step)])
        return self.ev(s)

    def ex_Slice(self, s):
        return self.ev_index(s)

    def ex_Subscript(self, n):
        base = self.ev(n.value)
        ix = self.ev_index(n.slice)
        return self.subscript(base, ix, n)

    def arr_index(self, ix):
        """Index tuple usable by get_item."""
        if not isinstance(ix, tuple):
            ix = (ix,)
        out = []
        for i in ix:
            if isinstance(i, SliceV):
                out.append(SliceV(*[None if x is None else self.num(x)
                                    for x in (i.lo, i.hi, i.step)]))
            elif i is ELLIPSIS or i is NEWAXIS:
                out.append(i)
            elif i is None:
                out.append(NEWAXIS)
            elif isinstance(i, Poly):
                out.append(i)
            elif isinstance(i, bool):
                raise Imprecise('boolean index')
            elif isinstance(i, Opaque) and i.key and i.key[0] == 'ix_':
                out.extend(i.info['arrays'])
            else:
                x = self.num(i)
                out.append(x)
        # np.ix_ returns a tuple: flatten one level
        return out

    def subscript(self, base, ix, node):
        if isinstance(base, Unknown):
            return base
        if isinstance(ix, Unknown):
            return ix
        if isinstance(base, GIf):
            return self.split(base, lambda b: self.subscript(b, ix, node))
        if isinstance(ix, GIf) and not self.gif_numeric(ix):
            return self.split(ix, lambda i: self.subscript(base, i, node))
        if isinstance(base, str):
            k = _const(ix) if not isinstance(ix, SliceV) else None
            if k is not None:
                try:
                    return base[k]
                except IndexError:
                    raise AbsRaise(Opaque(('exc', 'IndexError')), node)
            if isinstance(ix, SliceV):
                b = [None if x is None else _const(x)
                     for x in (ix.lo, ix.hi, ix.step)]
                if all(y is not None or x is None for x, y in zip(
                        (ix.lo, ix.hi, ix.step), b)):
                    return base[slice(*b)]
            return Opaque(('getitem', base, self.key(ix)), str=True)
        if isinstance(base, Opaque):
            if callable(base.info.get('item')):
                return base.info['item'](self, ix, node)
            info = {}
            if base.info.get('str'):
                info['str'] = True
            return Opaque(('getitem', base.key, self.key(ix)), **info)
        if isinstance(base, RangeV):
            return base.lo + self.num(ix) * base.step
        c = base if isinstance(base, tuple) else self.content(base)
        if isinstance(c, AccListC):
            raise Imprecise('read of a list under construction')
        if isinstance(c, (tuple, ListC)):
            items = c if isinstance(c, tuple) else c.items
            if isinstance(ix, SliceV):
                b = [None if x is None else _const(x)
                     for x in (ix.lo, ix.hi, ix.step)]
                if any(y is None and x is not None for x, y in zip(
                        (ix.lo, ix.hi, ix.step), b)):
                    raise Imprecise('symbolic slice of a list')
                r = items[slice(*b)]
                return r if isinstance(c, tuple) else self.new_list(r)
            k = _const(ix) if isinstance(ix, (Poly, bool, int)) else None
            if k is None:
                self.no_index(ix, node)
                p = self.num(ix)
                if isinstance(p, Arr):
                    raise Imprecise('list indices must be integers')
                out = UNBOUND
                for j, v in reversed(list(enumerate(items))):
                    cnd = al.eq0(p - j)
                    out = v if out is UNBOUND else self.mk_if(cnd, v, out)
                return out
            try:
                return items[k]
            except IndexError:
                self.event('raise', 'IndexError', [k, len(items)], {}, node)
                raise AbsRaise(Opaque(('exc', 'IndexError')), node,
                               self.frames[-1].mod if self.frames else None)
        if isinstance(c, SymListC):
            if isinstance(ix, SliceV):
                raise Imprecise('slice of symbolic list')
            p = self.num(ix)
            k = p.const_value()
            if k is not None and k < 0:
                p = p + c.dim
            return self.subst_value(c.elem, {al.sid(c.var): p}, self.heap,
                                    self.heap)
        if isinstance(c, DictC):
            k = self.dict_key(ix)
            if k in c.items:
                v = c.items[k]
                if v is UNBOUND:
                    self.event('raise', 'KeyError', [k], {}, node)
                    raise AbsRaise(Opaque(('exc', 'KeyError', k)), node)
                b = self.gif_bound(v)
                if b is not v:
                    self.event('maybe_missing', k, [base], {}, node)
                return b
            if isinstance(k, Opaque) and c.open is None and c.items and all(
                    isinstance(q, str) for q in c.items):
                out = UNBOUND
                for q, v in reversed(list(c.items.items())):
                    cnd = self.truth(self.equals(k, q))
                    out = v if out is UNBOUND else self.mk_if(cnd, v, out)
                self.event('maybe_missing', k, [base], {}, node)
                return out
            if c.open is not None:
                return Opaque(('getitem', c.open, self.key(ix)))
            self.event('raise', 'KeyError', [k], {}, node)
            e = AbsRaise(Opaque(('exc', 'KeyError', self.key(k))), node,
                         self.frames[-1].mod if self.frames else None)
            e.own = isinstance(k, str) and getattr(base, 'id', None) in self.own
            raise e
        if isinstance(c, Arr):
            if isinstance(ix, (str, Func, Bound, Builtin)) and (
                    isinstance(base, (Ref, View))):
                self.event('raise', 'IndexError', [ix], {}, node)
                raise AbsRaise(Opaque(('exc', 'IndexError')), node,
                               self.frames[-1].mod if self.frames else None)
            idx = self.arr_index(ix)
            basic = all(not isinstance(i, Arr) for i in idx)
            if not basic and len(idx) == 1 and idx[0].dtype == 'b':
                m = idx[0]
                keep = [ix for ix, v in sorted(m.data.items())
                        if v.const_value() not in (None, 0)]
                if any(v.const_value() is None for v in m.data.values()) or \
                        not all(isinstance(d, int) for d in m.shape) or \
                        len(m.shape) > len(c.shape) or any(
                            a != b for a, b in zip(m.shape, c.shape)):
                    raise Imprecise('boolean mask selection')
                n = len(m.shape)
                return self.alloc(Arr.build(
                    (len(keep),) + tuple(c.shape[n:]), lambda ix: c.at(
                        list(keep[int(ix[0].const_value())]) + list(ix[1:])),
                    c.dtype))
            try:
                r = get_item(c, idx)
            except OutOfRange:
                if isinstance(base, (Ref, View)) and all(isinstance(
                        i, (int, Poly)) for i in idx):
                    self.event('raise', 'IndexError', [ix], {}, node)
                    raise AbsRaise(Opaque(('exc', 'IndexError')), node,
                                   self.frames[-1].mod if self.frames else None)
                raise
            if isinstance(r, Arr):
                if basic and isinstance(base, Ref):
                    return View(base, [tuple(idx)])
                if basic and isinstance(base, View):
                    return View(base.ref, base.idx + [tuple(idx)])
                return self.alloc(r)
            return r
        if isinstance(c, ObjC):
            f = self.find_method(c.cls, '__getitem__')
            if f:
                return self.call_func(f, [base, ix], {}, node)
        if isinstance(base, Ext):
            return Opaque(('getitem', self.key(base), self.key(ix)))
        if isinstance(base, Poly):
            if ix == () or ix is ELLIPSIS:
                return base
            if isinstance(ix, Poly) and ix.is_const():
                self.event('raise', 'TypeError', [ix], {}, node)
                raise AbsRaise(Opaque(('exc', 'TypeError')), node,
                               self.frames[-1].mod if self.frames else None)
            raise Imprecise('subscript of a scalar')
        if base is None:
            raise AbsRaise(Opaque(('exc', 'TypeError')), node)
        raise Imprecise('subscript of %r' % (c if c is not None else base,))

    def no_index(self, ix, node):
        """Indices no list accepts."""
        c = self.content(ix) if isinstance(ix, (Ref, View)) else ix
        if ix is None or isinstance(c, (
                str, tuple, ListC, SymListC, DictC, SetC, Func, Bound,
                Builtin)) or isinstance(c, Arr) and c.ndim() > 0:
            self.event('raise', 'TypeError', [ix], {}, node)
            raise AbsRaise(Opaque(('exc', 'TypeError')), node,
                           self.frames[-1].mod if self.frames else None)

    @staticmethod
    def kept_as(old, new):
        """What an array keeps of the values stored in it."""
        if old.dtype == 'i':
            return new.map(lambda p: p if is_integer(p)
                           else al.app('trunc', p))
        if old.dtype == 'f4':
            return Arr(new.shape, new.map(single).data, 'f4')
        return new

    def store_arr(self, base, ix, value, op=None):
        """arr[ix] (op)= value on a Ref or View."""
        if isinstance(base, View):
            chain = [self.content(base.ref)]
            for k in base.idx:
                chain.append(get_item(chain[-1], list(k)))
            idx = ix if isinstance(ix, list) else self.arr_index(ix)
            lead = [q for k in base.idx for q in k]
            if all(isinstance(q, (int, Poly)) for q in lead):
                # a[i][j] = v is a[i, j] = v
                self.heap[base.ref.id] = self.kept_as(chain[0], set_item(
                    chain[0], lead + list(idx), value, op))
                self.event('mutate', 'array', [base], {}, None)
                return
            new = set_item(chain[-1], idx, value, op)
            for k, parent in zip(reversed(base.idx), reversed(chain[:-1])):
                new = set_item(parent, list(k), new)
            self.heap[base.ref.id] = self.kept_as(chain[0], new)
        else:
            c = self.content(base)
            idx = ix if isinstance(ix, list) else self.arr_index(ix)
            if len(idx) == 1 and isinstance(idx[0], Arr) and \
                    idx[0].dtype == 'b':
                new = set_item(c, idx[0], value, op)
            else:
                new = set_item(c, idx, value, op)
            self.heap[base.id] = self.kept_as(c, new)
        self.event('mutate', 'array', [base], {}, None)

    def store(self, base, ix, v, node):
        if isinstance(base, GIf):
            done = False
            for cond, b in ((base.cond, base.a), (ONE - base.cond, base.b)):
                if isinstance(b, Ref):
                    before = self.heap[b.id]
                    self.store(b, ix, v, node)
                    self.heap[b.id] = self.merge_content(
                        cond, self.heap[b.id], before)
                    done = True
            if not done:
                self.event('store', 'gated', [base, ix, v], {}, node)
            return
        if base is None or isinstance(base, (str, tuple, Poly, Func, Bound,
                                             Builtin, RangeV)):
            self.event('raise', 'TypeError', [base, ix], {}, node)
            raise AbsRaise(Opaque(('exc', 'TypeError')), node,
                           self.frames[-1].mod if self.frames else None)
        c = self.content(base)
        if isinstance(c, Arr):
            if isinstance(v, Unknown):
                r = base.ref if isinstance(base, View) else base
                self.heap[r.id] = OpaqueContent(v.reason)
                return
            if self.has_text(v):
                v = self.text_numbers(v, self.bi_int if c.dtype == 'i'
                                      else self.bi_float, node)
            self.store_arr(base, ix, self.num(v))
            return
        if isinstance(c, DictC):
            if isinstance(ix, GIf):
                raise Imprecise('gated dict key')
            k = self.dict_key(ix)
            d = dict(c.items)
            d[k] = v
            self.heap[base.id] = DictC(d, c.open)
            self.event('setitem', 'dict', [base, ix, v], {}, node)
            return
        if isinstance(c, ListC):
            k = _const(ix) if isinstance(ix, (Poly, int)) else None
            if k is None or isinstance(c, AccListC):
                self.heap[base.id] = OpaqueContent('list store')
                return
            items = list(c.items)
            try:
                items[k] = v
            except IndexError:
                raise AbsRaise(Opaque(('exc', 'IndexError')), node)
            self.heap[base.id] = ListC(items)
            self.event('setitem', 'list', [base, ix, v], {}, node)
            return
        if isinstance(c, ObjC):
            f = self.find_method(c.cls, '__setitem__')
            if f:
                self.call_func(f, [base, ix, v], {}, node)
                return
        self.event('setitem', 'opaque', [base, ix, v], {}, node)
        if isinstance(base, Ref):
            self.heap[base.id] = OpaqueContent('store')

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            ct = fr.ctypes.get(t.id)
            if ct and isinstance(v, Poly):
                if ct == 'cint' and not is_integer(v):
                    v = al.app('trunc', v)
                elif ct == 'cfloat' and not is_integer(v):
                    v = al.app('float32', v)
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, GIf):
                vals = self.unpack_gif(v, len(t.elts))
            else:
                vals = self.unpack(v, len(t.elts), t)
            stars = [k for k, e in enumerate(t.elts)
                     if isinstance(e, ast.Starred)]
            if stars:
                k = stars[0]
                after = len(t.elts) - k - 1
                vals = list(vals)
                mid = vals[k:len(vals) - after]
                vals = vals[:k] + [self.new_list(mid)] + \
                    vals[len(vals) - after:]
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.ev(t.value), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            ix = self.ev_index(t.slice)
            if isinstance(base, Unknown):
                return
            self.store(base, ix, v, t)
        else:
            raise Imprecise('assignment target')

    def unpack_gif(self, g, n):
        a = self.unpack(g.a, n, None) if not isinstance(g.a, GIf) \
            else self.unpack_gif(g.a, n)
        b = self.unpack(g.b, n, None) if not isinstance(g.b, GIf) \
            else self.unpack_gif(g.b, n)
        return [self.mk_if(g.cond, x, y) for x, y in zip(a, b)]

    def unpack(self, v, n, node):
        if isinstance(v, Unknown):
            return [v] * n
        items = self.iter_concrete(v)
        if items is not None:
            return items
        if isinstance(v, Opaque):
            return [Opaque(('getitem', v.key, al.as_poly(k)), **{
                k2: x for k2, x in v.info.items() if k2 == 'str'})
                for k in range(n)]
        return [self.subscript(v, al.as_poly(k), node) for k in range(n)]

    # ------------------------------------------------------------------ iteration
    def iter_concrete(self, v):
        """List of items when the length is known."""
        if isinstance(v, (str, tuple)):
            return list(v)
        if isinstance(v, RangeV):
            lo, hi, st = _const(v.lo), _const(v.hi), _const(v.step)
            if None in (lo, hi, st):
                return None
            if (hi - lo) // st > 3000:
                return None
            return [al.as_poly(k) for k in range(lo, hi, st)]
        c = self.content(v) if isinstance(v, (Ref, View)) else None
        if isinstance(c, AccListC):
            raise Imprecise('iteration over a list under construction')
        if isinstance(c, ListC):
            return list(c.items)
        if isinstance(c, SetC):
            return list(c.items)
        if isinstance(c, DictC) and c.open is None:
            return [k for k in c.items if c.items[k] is not UNBOUND]
        if isinstance(c, Arr) and c.ndim() and isinstance(c.shape[0], int):
            out = []
            for k in range(c.shape[0]):
                out.append(self.subscript(v, al.as_poly(k), None))
            return out
        if isinstance(v, IterV):
            return v.concrete(self)
        if isinstance(v, Opaque) and callable(v.info.get('lines')):
            return list(v.info['lines'](self))
        return None

    def iter_symbolic(self, v):
        """(lo, hi, elem(i)) of a counted iteration of unknown length."""
        if isinstance(v, RangeV):
            if v.step == ONE:
                return v.lo, v.hi, lambda i: i
            c = _const(v.step)
            if c == -1:
                return ZERO, v.lo - v.hi, lambda i: v.lo - i
            return None
        if isinstance(v, IterV):
            return v.symbolic(self)
        c = self.content(v) if isinstance(v, (Ref, View)) else None
        if isinstance(c, Arr) and c.ndim() and not isinstance(c.shape[0],
                                                              int):
            return ZERO, c.shape[0], lambda i: self.subscript(v, i, None)
        if isinstance(c, SymListC):
            return ZERO, al.as_poly(c.dim), lambda i: self.subscript(v, i,
                                                                     None)
        return None

    def comprehension(self, n, mk):
        gens = n.generators

        def rec(k):
            if k == len(gens):
                return mk()
            g = gens[k]
            it = self.ev(g.iter)
            items = self.iter_concrete(it)
            if items is not None:
                out = []
                for v in items:
                    self.tick(n)
                    self.assign(g.target, v)
                    ok = True
                    for cnd in g.ifs:
                        d = self.decide(restrict(self.truth(self.ev(cnd)),
                                                 self.cond()))
                        if d is None:
                            raise Imprecise('undecided filter')
                        ok = ok and d
                    if ok:
                        r = rec(k + 1)
                        if k + 1 == len(gens):
                            out.append(r)
                        else:
                            if not isinstance(r, list):
                                raise Imprecise('nested symbolic '
                                                'comprehension')
                            out.extend(r)
                return out
            sym = self.iter_symbolic(it)
            if sym is None or k + 1 != len(gens) or g.ifs:
                raise Imprecise('comprehension over %r' % (it,))
            lo, hi, elem = sym
            v = al.fresh('c', sign='+0')
            self.loops.append((v, lo, hi))
            try:
                self.assign(g.target, elem(lo + v))
                r = rec(k + 1)
            finally:
                self.loops.pop()
            return SymListC(dim_of(al.as_poly(hi) - lo), v, r)
        saved = dict(self.frames[-1].env)
        names = {x.id for g in gens for x in ast.walk(g.target)
                 if isinstance(x, ast.Name)}
        try:
            return rec(0)
        finally:
            env = self.frames[-1].env
            for nm in names:
                if nm in saved:
                    env[nm] = saved[nm]
                else:
                    env.pop(nm, None)

    def ex_ListComp(self, n):
        r = self.comprehension(n, lambda: self.ev(n.elt))
        if isinstance(r, SymListC):
            return self.alloc(r)
        return self.new_list(r)

    ex_GeneratorExp = ex_ListComp

    def ex_SetComp(self, n):
        r = self.comprehension(n, lambda: self.ev(n.elt))
        if isinstance(r, SymListC):
            raise Imprecise('symbolic set')
        return self.alloc(SetC(r))

    def ex_DictComp(self, n):
        r = self.comprehension(n, lambda: (self.ev(n.key), self.ev(n.value)))
        if isinstance(r, SymListC):
            raise Imprecise('symbolic dict')
        return self.new_dict({self.dict_key(k): v for k, v in r})

    def ex_Lambda(self, n):
        return self.make_func(n)

    def ex_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def ex_Starred(self, n):
        raise Imprecise('star')

    def ex_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else None
        fr = self.frames[-1]
        r = fr.env.get('.yield')
        if r is None:
            r = self.new_list([])
            fr.env['.yield'] = r
        c = self.heap[r.id]
        if not isinstance(c, ListC):
            raise Imprecise('yield')
        self.heap[r.id] = type(c)(c.items + (v,))
        return None

    def ex_YieldFrom(self, n):
        raise Imprecise('yield from')

    def ex_Await(self, n):
        raise Imprecise('await')

    # ------------------------------------------------------------------ calls
    def ex_Call(self, n):
        f = self.ev(n.func)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                items = self.iter_concrete(v)
                if items is None:
                    if isinstance(v, (Opaque, Unknown)):
                        args.append(Opaque(('star', self.key(v))))
                        continue
                    raise Imprecise('star argument')
                args.extend(items)
            else:
                args.append(self.ev(a))
        for k in n.keywords:
            if k.arg is None:
                v = self.ev(k.value)
                c = self.content(v)
                if isinstance(c, DictC) and c.open is None and all(
                        isinstance(x, str) for x in c.items):
                    kwargs.update(c.items)
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = self.ev(k.value)
        return self.call(f, args, kwargs, n)


class IterV(object):
    """enumerate / zip / map / reversed over other iterables."""

    def __init__(self, kind, parts, extra=None):
        self.kind, self.parts, self.extra = kind, parts, extra

    def concrete(self, I):
        ls = [I.iter_concrete(p) for p in self.parts]
        if self.kind == 'zip':
            known = [x for x in ls if x is not None]
            if not known or len(known) != len(ls):
                return None
            return [tuple(t) for t in zip(*ls)]
        if ls[0] is None:
            return None
        if self.kind == 'enumerate':
            s = self.extra
            return [(s + k, x) for k, x in enumerate(ls[0])]
        if self.kind == 'reversed':
            return ls[0][::-1]
        if self.kind == 'map':
            if any(x is None for x in ls):
                return None
            return [I.call(self.extra, list(t), {}, None) for t in zip(*ls)]
        if self.kind == 'items':
            return None
        return None

    def symbolic(self, I):
        syms = []
        for p in self.parts:
            s = I.iter_symbolic(p)
            if s is None:
                c = I.iter_concrete(p)
                if c is None:
                    return None
                return None
            syms.append(s)
        lo, hi = al.as_poly(syms[0][0]), al.as_poly(syms[0][1])
        n = hi - lo
        for s in syms[1:]:
            if not al.equal(al.as_poly(s[1]) - al.as_poly(s[0]), n):
                return None
        if self.kind == 'zip':
            return ZERO, n, lambda i: tuple(s[2](al.as_poly(s[0]) + i)
                                            for s in syms)
        if self.kind == 'enumerate':
            s0 = syms[0]
            return ZERO, n, lambda i: (self.extra + i, s0[2](lo + i))
        if self.kind == 'reversed':
            s0 = syms[0]
            return ZERO, n, lambda i: s0[2](hi - 1 - i)
        if self.kind == 'map':
            return ZERO, n, lambda i: I.call(
                self.extra, [s[2](al.as_poly(s[0]) + i) for s in syms], {},
                None)
        return None


def floordiv(a, b):
    x, y = al.as_poly(a).const_value(), al.as_poly(b).const_value()
    if x is not None and y is not None and y != 0:
        return al.as_poly(x // y)
    return al.app('floor', a / b, int=True)


def mod(a, b):
    x, y = al.as_poly(a).const_value(), al.as_poly(b).const_value()
    if x is not None and y is not None and y != 0:
        return al.as_poly(x - y * (x // y))
    return al.app('mod', a, b, int=True)
