"""Statements: gating of branches, summarisation of counted loops."""
import ast

from . import algebra as al
from .algebra import Poly
from .values import *          # noqa
from .values import _const
from .interp import (AbsRaise, Budget, Frame, Outcome, ONE, ZERO, PropertyV,
                     StaticV, OpaqueContent, ListIfC)


class AccListC(ListC):
    """Appends made by one iteration of a loop being summarised."""


def restrict(p, pc):
    """Simplify p knowing that the condition pc holds."""
    if pc == ONE or not isinstance(p, Poly):
        return p
    here = set(al.indicators(p))
    if not here:
        return p
    for a in al.indicators(pc):
        if a not in here:
            continue
        hi, lo = al.cofactors(pc, a)
        if not lo.t:
            p = al.cofactors(p, a)[0]
        elif not hi.t:
            p = al.cofactors(p, a)[1]
    return p


def single(p):
    """A value kept in single precision."""
    if is_integer(p) or kept_single(p):
        return p
    return al.app('float32', p)


def kept_single(p):
    """Is it already a value of single precision?"""
    if len(p.t) != 1:
        return False
    (m, c), = p.t.items()
    return c == 1 and len(m) == 1 and m[0][1] == 1 and \
        al.atom_key(m[0][0])[:2] == ('app', 'float32')


def is_integer(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e.denominator != 1 or e < 0:
                return False
            if not (al.atom_info(a).get('int') or
                    al.atom_key(a)[0] in ('lt0', 'eq0', 'truth')):
                return False
    return True


class NotDecided(Exception):
    pass


class ExecMixin(object):

    def tick(self, node=None):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget('step budget exhausted')

    # ---------------------------------------------------------------- blocks
    def exec_stmts(self, stmts):
        out = Outcome()
        for i, st in enumerate(stmts):
            r = self.exec_stmt(st)
            if r is None:
                continue
            out.rets += r.rets
            out.jumps += r.jumps
            if not r.fall:
                out.fall = False
                return out
            if (r.rets or r.jumps) and i + 1 < len(stmts):
                gone = ZERO
                for x in r.rets:
                    gone = gone + x[0]
                for x in r.jumps:
                    gone = gone + x[1]
                self.pc.append(self.cond() - gone)
                try:
                    rest = self.exec_stmts(stmts[i + 1:])
                except AbsRaise as exc:
                    rest = Outcome(False, [], [('raise', self.cond(), exc,
                                                None)])
                finally:
                    self.pc.pop()
                out.rets += rest.rets
                out.jumps += rest.jumps
                out.fall = rest.fall
                return out
        return out

    def snapshot(self):
        return dict(self.frames[-1].env), dict(self.heap)

    def restore(self, st):
        self.frames[-1].env, self.heap = st

    def set_env(self, env):
        fr = self.frames[-1]
        fr.env = env

    def exec_stmt(self, st):
        self.tick(st)
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            self.unmodelled.append('statement %s at %s' % (
                type(st).__name__, self.where(st)))
            return None
        try:
            return m(st)
        except AbsRaise as exc:
            if exc.node is None:
                exc.node = st
            raise
        except BadShape:
            raise AbsRaise(Opaque(('exc', 'ValueError')), st)
        except Imprecise as exc:
            self.unmodelled.append('%s at %s' % (exc, self.where(st)))
            self.havoc_stmt(st, str(exc))
            return None
        except (RecursionError, al.Undefined) as exc:
            self.unmodelled.append('%s at %s' % (type(exc).__name__,
                                                 self.where(st)))
            self.havoc_stmt(st, type(exc).__name__)
            return None

    def havoc_stmt(self, st, why):
        why = '%s (%s)' % (why, self.where(st))
        env = self.frames[-1].env
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                env[n.id] = Unknown(why)
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(
                    n.ctx, ast.Store):
                try:
                    base = n
                    while isinstance(base, ast.Subscript):
                        base = base.value
                    if isinstance(n, ast.Attribute) and base is n:
                        o = self.ev(n.value)
                        self.set_attr(o, n.attr, Unknown(why), n)
                    else:
                        v = self.ev(base)
                        r = v.ref if isinstance(v, View) else v
                        if isinstance(r, Ref):
                            self.heap[r.id] = OpaqueContent(why)
                except Exception:
                    pass
        if isinstance(st, ast.Return):
            raise AbsReturnUnknown(why)

    # ------------------------------------------------------------- simple ones
    def st_Pass(self, st):
        return None

    st_Global = st_Nonlocal = st_Pass

    def st_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return None
        self.ev(st.value)
        return None

    def st_Assign(self, st):
        v = self.ev(st.value)
        for t in st.targets:
            self.assign(t, v)
        return None

    def st_AnnAssign(self, st):
        ct = st.annotation.value if isinstance(st.annotation, ast.Constant) \
            else None
        if ct in ('cint', 'cfloat') and isinstance(st.target, ast.Name):
            self.frames[-1].ctypes[st.target.id] = ct
        if st.value is not None:
            self.assign(st.target, self.ev(st.value))
        return None

    def st_AugAssign(self, st):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(
                ast.Name(id=t.id, ctx=ast.Load()), t))
            new = self.ev(st.value)
            self.assign(t, self.inplace(st.op, old, new, st))
            return None
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.get_attr(o, t.attr, t)
            new = self.ev(st.value)
            self.set_attr(o, t.attr, self.inplace(st.op, old, new, st), st)
            return None
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            ix = self.ev_index(t.slice)
            new = self.ev(st.value)
            c = self.content(base)
            if isinstance(c, Arr):
                op = self.binop_poly(st.op)
                nv = self.num(new)
                self.store_arr(base, ix, nv, op)
                return None
            old = self.subscript(base, ix, t)
            self.store(base, ix, self.inplace(st.op, old, new, st), st)
            return None
        raise Imprecise('augmented target')

    def inplace(self, op, old, new, node):
        """a op= b with Python/NumPy aliasing: arrays and lists mutate."""
        c = self.content(old)
        if isinstance(c, Arr) and not isinstance(old, Poly):
            r = self.binop(op, old, new, node)
            rc = self.content(r) if isinstance(r, (Ref, View)) else r
            if isinstance(rc, Poly):
                rc = c.map(lambda _: rc)
            if not isinstance(rc, Arr):
                self.mutate(old, OpaqueContent('in place'), node)
                return old
            if len(rc.shape) != len(c.shape):
                return self.unknown('in place broadcast', node)
            self.mutate(old, rc, node)
            return old
        if isinstance(c, ListC) and isinstance(op, ast.Add):
            if not isinstance(old, Ref):
                raise Imprecise('list view')
            items = self.iter_concrete(new)
            if items is None:
                raise Imprecise('extend by symbolic')
            self.heap[old.id] = type(c)(c.items + tuple(items))
            return old
        return self.binop(op, old, new, node)

    def mutate(self, v, content, node=None):
        if isinstance(v, View):
            if isinstance(content, OpaqueContent):
                self.heap[v.ref.id] = content
                return
            self.store_arr(View(v.ref, v.idx[:-1]) if len(v.idx) > 1
                           else v.ref, list(v.idx[-1]), content)
        else:
            self.heap[v.id] = content
        self.event('mutate', 'array', [v], {}, node)

    def st_Return(self, st):
        v = self.ev(st.value) if st.value is not None else None
        env, heap = self.snapshot()
        return Outcome(False, [(self.cond(), v, env, heap)])

    def st_Raise(self, st):
        exc = self.ev(st.exc) if st.exc is not None else Opaque(('reraise',))
        name = exc_name(self, exc)
        self.event('raise', name, [exc], {}, st)
        raise AbsRaise(exc, st, self.frames[-1].mod)

    def st_Break(self, st):
        env, heap = self.snapshot()
        return Outcome(False, [], [('break', self.cond(), env, heap)])

    def st_Continue(self, st):
        env, heap = self.snapshot()
        return Outcome(False, [], [('continue', self.cond(), env, heap)])

    def st_Assert(self, st):
        c = self.truth(self.ev(st.test))
        if self.decide(c) is False:
            self.event('raise', 'AssertionError', [], {}, st)
            raise AbsRaise(Opaque(('exc', 'AssertionError')), st)
        return None

    def st_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value)
                ix = self.ev_index(t.slice)
                c = self.content(base)
                if isinstance(c, DictC) and isinstance(base, Ref):
                    d = dict(c.items)
                    d.pop(ix, None)
                    self.heap[base.id] = DictC(d, c.open)
                elif isinstance(c, ListC) and _const(ix) is not None:
                    items = list(c.items)
                    del items[_const(ix)]
                    self.heap[base.id] = ListC(items)
                elif isinstance(base, Ref):
                    self.heap[base.id] = OpaqueContent('del')
        return None

    def st_Import(self, st):
        for a in st.names:
            if a.asname:
                self.frames[-1].env[a.asname] = self.import_mod(a.name)
            else:
                top = a.name.split('.')[0]
                self.frames[-1].env[top] = self.import_mod(top)
        return None

    def import_mod(self, dotted):
        if dotted in self.project.modules:
            return ModuleV(dotted)
        return Ext(dotted)

    def st_ImportFrom(self, st):
        mod = self.frames[-1].mod
        src = self.project.resolve_import(mod, st.level, st.module or '')
        env = self.frames[-1].env
        for a in st.names:
            if a.name == '*':
                if src in self.project.modules:
                    for k, v in self.module_env(src).items():
                        if not k.startswith('_'):
                            env[k] = v
                continue
            if src in self.project.modules:
                v = self.module_attr(src, a.name)
                if v is None:
                    v = self.unknown('import %s from %s' % (a.name, src), st)
            elif src.split('.')[0] == self.project.package:
                v = self.unknown('import of missing module %s' % src, st)
            else:
                from .interp import CONSTANTS
                v = CONSTANTS.get(src + '.' + a.name) or Ext(src + '.' +
                                                             a.name)
            env[a.asname or a.name] = v
        return None

    def st_FunctionDef(self, st):
        fr = self.frames[-1]
        f = self.make_func(st)
        v = f
        for d in reversed(st.decorator_list):
            name = ast.unparse(d)
            if name == 'property':
                v = PropertyV(f)
            elif name.endswith('.setter'):
                old = fr.env.get(name.split('.')[0])
                if isinstance(old, PropertyV):
                    v = PropertyV(old.get, f)
                elif fr.cls is not None:
                    v = PropertyV(None, f)
            elif name in ('staticmethod', 'classmethod'):
                v = StaticV(f, name == 'classmethod')
            else:
                v = self.decorate(d, v)
        fr.env[st.name] = v
        return None

    def decorate(self, d, v):
        """Apply a decorator that is analysed or modelled."""
        dv = self.ev(d)
        if isinstance(dv, Func) or isinstance(dv, Ext) and \
                dv.dotted in self.models:
            return self.call(dv, [v], {}, d)
        return v

    def make_func(self, node):
        fr = self.frames[-1]
        closure = None
        if fr.func is not None or fr.closure is not None:
            closure = fr
        qual = node.name if isinstance(node, ast.FunctionDef) else '<lambda>'
        if fr.func is not None:
            qual = fr.func.qual + '.' + qual
        defaults = {}
        a = node.args
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            defaults[p.arg] = self.ev(d)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = self.ev(d)
        return Func(node, fr.mod, qual, closure, fr.cls if fr.func is None
                    else None, defaults)

    def st_ClassDef(self, st):
        self.frames[-1].env[st.name] = self.define_class(
            st, self.frames[-1].mod)
        return None

    # ---------------------------------------------------------------- branches
    def run_arm(self, cond, body, base):
        self.restore((dict(base[0]), dict(base[1])))
        self.pc.append(restrict_mul(self.cond(), cond))
        try:
            o = self.exec_stmts(body) if callable(body) is False else body()
        except AbsRaise as exc:
            o = Outcome(False, [], [('raise', self.cond(), exc, None)])
        except AbsReturnUnknown as exc:
            env, heap = self.snapshot()
            o = Outcome(False, [(self.cond(), Unknown(exc.why), env, heap)])
        finally:
            self.pc.pop()
        return o, self.snapshot()

    def st_If(self, st):
        c = restrict(self.truth(self.ev(st.test), st), self.cond())
        d = self.decide(c)
        if d is True:
            return self.exec_stmts(st.body)
        if d is False:
            return self.exec_stmts(st.orelse) if st.orelse else None
        base = self.snapshot()
        o1, s1 = self.run_arm(c, st.body, base)
        o2, s2 = self.run_arm(ONE - c, st.orelse, base)
        out = Outcome(o1.fall or o2.fall, o1.rets + o2.rets,
                      o1.jumps + o2.jumps)
        if o1.fall and o2.fall:
            self.restore((self.merge_env(c, s1[0], s2[0]),
                          self.merge_heap(c, s1[1], s2[1])))
        elif o1.fall:
            self.restore(s1)
        else:
            self.restore(s2)
        if not out.fall and not out.rets and all(
                j[0] == 'raise' for j in out.jumps):
            raise out.jumps[0][2]
        return out

    def st_With(self, st):
        done = []
        try:
            return self.with_body(st, done)
        finally:
            # leaving the block, also by a certain exception
            for v in reversed(done):
                v.info['leave'](self)

    def with_body(self, st, done):
        for item in st.items:
            v = self.ev(item.context_expr)
            if isinstance(v, Opaque) and 'leave' in v.info:
                done.append(v)
            if item.optional_vars is not None:
                c = self.content(v)
                if isinstance(c, ObjC) and self.find_method(c.cls,
                                                            '__enter__'):
                    v = self.call_func(self.find_method(c.cls, '__enter__'),
                                       [v], {}, st)
                self.assign(item.optional_vars, v)
        return self.exec_stmts(st.body)

    def st_Try(self, st):
        base = self.snapshot()
        mark = len(self.events)
        raised = None
        o = None
        try:
            o = self.exec_stmts(st.body)
        except AbsRaise as exc:
            raised = exc
        handlers = st.handlers
        if raised is not None:
            # certain exception: state at the raise is the current one
            for h in handlers:
                m = self.handler_matches(h, raised.exc)
                if m is not False:
                    if m and self.events[mark:] and \
                            self.events[-1].kind == 'raise':
                        self.events[-1].handled = True
                    if h.name:
                        self.frames[-1].env[h.name] = raised.exc
                    out = self.exec_stmts(h.body)
                    return self._finally(st, out)
            if st.finalbody:
                self.exec_stmts(st.finalbody)
            raise raised
        # raises that left the body on some condition
        keep, caught = [], []
        for j in o.jumps:
            if j[0] == 'raise' and any(
                    self.handler_matches(h, j[2].exc) is not False
                    for h in handlers):
                caught.append(j)
            else:
                keep.append(j)
        o.jumps = keep
        if st.orelse and o.fall:
            o2 = self.exec_stmts(st.orelse)
            o = Outcome(o2.fall, o.rets + o2.rets, o.jumps + o2.jumps)
        if handlers:
            # exceptional exit at an unknown point of the body
            after = self.snapshot()
            maybe = al.truth(('exception', st.lineno,
                              self.frames[-1].mod.name))
            if caught:
                maybe = ZERO
                for j in caught:
                    maybe = maybe + j[1]
                maybe = restrict(maybe, self.cond())
            elif not self.may_raise(st.body, mark):
                maybe = ZERO
            if maybe.t:
                h = handlers[0]
                for h2 in handlers:
                    if caught and self.handler_matches(
                            h2, caught[0][2].exc) is not False:
                        h = h2
                        break

                def run():
                    if h.name:
                        self.frames[-1].env[h.name] = Opaque(
                            ('caught', st.lineno))
                    return self.exec_stmts(h.body)
                o2, s2 = self.run_arm(maybe, run, base)
                if o.fall and o2.fall:
                    self.restore((self.merge_env(maybe, s2[0], after[0]),
                                  self.merge_heap(maybe, s2[1], after[1])))
                elif o.fall:
                    self.restore(after)
                else:
                    self.restore(s2)
                # returns of the normal exit happen when nothing was raised
                o = Outcome(o.fall or o2.fall,
                            [(restrict_mul(x[0], ONE - maybe),) + tuple(x[1:])
                             for x in o.rets] + o2.rets,
                            o.jumps + o2.jumps)
        return self._finally(st, o)

    st_TryStar = st_Try

    def _finally(self, st, o):
        if st.finalbody and o.fall:
            o2 = self.exec_stmts(st.finalbody)
            o = Outcome(o2.fall, o.rets + o2.rets, o.jumps + o2.jumps)
        return o

    def may_raise(self, body, mark):
        for e in self.events[mark:]:
            if e.kind in ('call', 'raise', 'opaque') and not e.handled:
                return True
        return False

    def handler_matches(self, h, exc):
        """True / False / None (unknown)."""
        if h.type is None:
            return True
        want = []
        for n in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
            want.append(ast.unparse(n).split('.')[-1])
        if 'Exception' in want or 'BaseException' in want:
            return True
        name = exc_name(self, exc)
        if name is None:
            return None
        bases = {'UnboundLocalError': ['NameError'],
                 'IndexError': ['LookupError'], 'KeyError': ['LookupError'],
                 'NotImplementedError': ['RuntimeError'],
                 'LinAlgError': ['ValueError', 'Exception'],
                 'FileNotFoundError': ['OSError', 'IOError'],
                 'ZeroDivisionError': ['ArithmeticError'],
                 'UnicodeDecodeError': ['ValueError']}
        if name in want or any(b in want for b in bases.get(name, [])):
            return True
        return False

    # ------------------------------------------------------------------- loops
    def st_For(self, st):
        it = self.ev(st.iter)
        return self.loop_over(it, lambda v: self.assign(st.target, v),
                              lambda: self.exec_stmts(st.body), st)

    def loop_over(self, it, bind, body, st):
        items = self.iter_concrete(it)
        if items is not None:
            return self.loop_concrete(items, bind, body, st)
        if isinstance(it, GIf):
            raise Imprecise('loop over a gated value')
        sym = self.iter_symbolic(it)
        if sym is None:
            self.event('loop', 'opaque', [it], {}, st)
            return self.loop_havoc(bind, body, it, st)
        lo, hi, elem = sym
        return self.loop_symbolic(lo, hi, elem, bind, body, st)

    def loop_concrete(self, items, bind, body, st):
        out = Outcome()
        breaks = []
        pushed = 0
        try:
            for v in items:
                self.tick(st)
                bind(v)
                try:
                    o = body()
                except AbsRaise as exc:
                    if pushed == 0:
                        raise
                    o = Outcome(False, [], [('raise', self.cond(), exc,
                                             None)])
                out.rets += o.rets
                gone = ZERO
                cont = []
                for j in o.jumps:
                    if j[0] == 'continue':
                        cont.append(j)
                    elif j[0] == 'break':
                        breaks.append(j)
                        gone = gone + j[1]
                    else:
                        out.jumps.append(j)
                        gone = gone + j[1]
                for r in o.rets:
                    gone = gone + r[0]
                cur = self.snapshot() if o.fall else None
                for j in cont:
                    if cur is None:
                        cur = (j[2], j[3])
                    else:
                        c = restrict(j[1], self.cond())
                        cur = (self.merge_env(c, j[2], cur[0]),
                               self.merge_heap(c, j[3], cur[1]))
                if cur is None:
                    out.fall = False
                    break
                self.restore(cur)
                if gone.t:
                    self.pc.append(self.cond() - gone)
                    pushed += 1
            if out.fall and getattr(st, 'orelse', None):
                o = self.exec_stmts(st.orelse)
                out.rets += o.rets
                out.jumps += o.jumps
                out.fall = o.fall
        finally:
            for _ in range(pushed):
                self.pc.pop()
        if breaks:
            cur = self.snapshot() if out.fall else None
            for j in reversed(breaks):
                c = restrict(j[1], self.cond())
                if cur is None:
                    cur = (j[2], j[3])
                else:
                    cur = (self.merge_env(c, j[2], cur[0]),
                           self.merge_heap(c, j[3], cur[1]))
            self.restore(cur)
            out.fall = True
        if not out.fall and not out.rets and out.jumps and all(
                j[0] == 'raise' for j in out.jumps):
            raise out.jumps[0][2]
        return out

    def loop_havoc(self, bind, body, it, st):
        """Loop about whose iterations nothing is known: everything it may
        change becomes unknown; its body is still walked for events."""
        base = self.snapshot()
        why = 'loop at %s' % self.where(st)
        v = al.fresh('it')
        self.loops.append((v, None, None))
        self.pc.append(restrict_mul(self.cond(), al.truth(
            ('loop', self.frames[-1].mod.name, st.lineno))))
        try:
            elem = self.opaque_item(it, v)
            bind(elem)
            try:
                o = body()
            except AbsRaise as exc:
                o = Outcome(False, [], [('raise', self.cond(), exc, None)])
            except AbsReturnUnknown as exc:
                env, heap = self.snapshot()
                o = Outcome(False, [(self.cond(), Unknown(exc.why), env,
                                     heap)])
        finally:
            self.pc.pop()
            self.loops.pop()
        states = [self.snapshot()] if o.fall else []
        for j in o.jumps:
            if j[0] in ('break', 'continue'):
                states.append((j[2], j[3]))
        names, ids = set(), set()
        for env, heap in states:
            for k in env:
                if k not in base[0] or not same_value(env[k], base[0][k]):
                    names.add(k)
            for k, c in heap.items():
                if k in base[1] and c is not base[1][k] and not (
                        type(c) is type(base[1][k]) and same_content(
                            c, base[1][k])):
                    ids.add(k)
        # a second walk with the changed variables unknown, for the values
        # recorded in events, would only lose precision: keep the first one
        env, heap = dict(base[0]), dict(self.heap)
        for k, c in base[1].items():
            heap[k] = c
        for k in names:
            env[k] = Unknown(why)
        for k in ids:
            b = base[1][k]
            if isinstance(b, ObjC):
                changed = {}
                for e2, h2 in states:
                    if k in h2 and isinstance(h2[k], ObjC):
                        for f, x in h2[k].fields.items():
                            if f not in b.fields or not same_value(
                                    x, b.fields[f]):
                                changed[f] = Unknown(why)
                fl = dict(b.fields)
                fl.update(changed)
                heap[k] = ObjC(b.cls, fl)
            else:
                heap[k] = OpaqueContent(why)
        self.restore((env, heap))
        rets = [(x[0], x[1], x[2], x[3]) for x in o.rets]
        raises = [j for j in o.jumps if j[0] == 'raise']
        return Outcome(True, rets, raises)

    def opaque_item(self, it, v):
        return Opaque(('item', self.key(it), al.sid(v)))

    def loop_symbolic(self, lo, hi, elem, bind, body, st):
        base = self.snapshot()
        mark, tapes = len(self.events), self.tapes_at()
        um = len(self.unmodelled)
        i = al.fresh('i', sign='+0')
        lo, hi = al.as_poly(lo), al.as_poly(hi)

        def run(state):
            del self.events[mark:]
            del self.unmodelled[um:]
            self.rewind(tapes)
            self.restore((dict(state[0]), dict(state[1])))
            self.loops.append((i, lo, hi))
            al.BOUNDS[al.sid(i)] = (lo, hi)
            try:
                bind(elem(i))
                o = body()
            finally:
                self.loops.pop()
            conts = [j for j in o.jumps if j[0] == 'continue']
            other = [j for j in o.jumps if j[0] == 'break']
            raises = [j for j in o.jumps if j[0] == 'raise']
            cur = self.snapshot() if o.fall else None
            for j in conts:
                if cur is None:
                    cur = (j[2], j[3])
                else:
                    c = restrict(j[1], self.cond())
                    cur = (self.merge_env(c, j[2], cur[0]),
                           self.merge_heap(c, j[3], cur[1]))
            return cur, other or o.rets, raises

        try:
            cur, bad, raises = run(base)
        except AbsReturnUnknown:
            bad, cur = True, None
        except AbsRaise as exc:
            bad, cur = True, None
        if bad or cur is None:
            self.restore((dict(base[0]), dict(base[1])))
            return self.loop_havoc(
                lambda _: bind(elem(i)), body, Opaque(('range', lo, hi)), st)
        # what did an iteration change?
        names = [k for k in cur[0] if k in base[0] and
                 not same_value(cur[0][k], base[0][k])]
        fresh_names = [k for k in cur[0] if k not in base[0]]
        ids = [k for k in cur[1] if k in base[1] and
               cur[1][k] is not base[1][k] and
               not same_content(cur[1][k], base[1][k])]
        slots = {}     # slot -> initial value

        def slot_values(state):
            out = {}
            for k in names:
                out[('env', k)] = state[0].get(k, UNBOUND)
            for k in ids:
                c = state[1].get(k)
                b = base[1][k]
                if isinstance(b, ObjC) and isinstance(c, ObjC):
                    for f in set(c.fields) | set(b.fields):
                        out[('obj', k, f)] = c.fields.get(f, UNBOUND)
                elif isinstance(b, ClassC) and isinstance(c, ClassC):
                    for f in set(c.attrs) | set(b.attrs):
                        out[('cls', k, f)] = c.attrs.get(f, UNBOUND)
                elif isinstance(b, DictC) and isinstance(c, DictC):
                    for f in list(c.items) + [x for x in b.items
                                              if x not in c.items]:
                        out[('dict', k, f)] = c.items.get(f, UNBOUND)
                else:
                    out[('heap', k)] = c
            return out
        init = slot_values(base)
        now = slot_values(cur)
        changed = [s for s in now if s not in init or not same_value(
            now[s], init[s])]
        # placeholders
        closed = {}       # slot -> value at the start of iteration i

        def placeholder(s, v):
            tag = ('acc', al.sid(i)) + tuple(str(x) for x in s)
            if isinstance(v, bool):
                return al.sym(('acc', tag))
            if isinstance(v, Poly):
                return al.sym(('acc', tag))
            if isinstance(v, (str, Opaque)):
                return Opaque(tag, str=True)
            if isinstance(v, Arr):
                return Arr.symbol(tag, v.shape)
            if isinstance(v, (Ref, View)) and isinstance(
                    self.content_in(base[1], v), Arr):
                return ('newarr', Arr.symbol(
                    tag, self.content_in(base[1], v).shape))
            if isinstance(v, ListC):
                return AccListC(())
            return Unknown('loop carried %s' % (s[-1],))

        pl = {}
        for s in changed:
            pl[s] = placeholder(s, init.get(s, UNBOUND)) \
                if init.get(s, UNBOUND) is not UNBOUND else UNBOUND

        def start_state():
            env, heap = dict(base[0]), dict(base[1])
            for s in changed:
                v = closed.get(s, pl[s])
                if v is UNBOUND:
                    continue
                if isinstance(v, tuple) and len(v) == 2 and v[0] == 'newarr':
                    self.heap = heap
                    r = self.alloc(v[1])
                    heap = self.heap
                    v = r
                if s[0] == 'env':
                    env[s[1]] = v
                elif s[0] == 'obj':
                    o = heap[s[1]]
                    f = dict(o.fields)
                    f[s[2]] = v
                    heap[s[1]] = ObjC(o.cls, f)
                elif s[0] == 'cls':
                    f = dict(heap[s[1]].attrs)
                    f[s[2]] = v
                    heap[s[1]] = ClassC(f)
                elif s[0] == 'dict':
                    o = heap[s[1]]
                    f = dict(o.items)
                    f[s[2]] = v
                    heap[s[1]] = DictC(f, o.open)
                else:
                    heap[s[1]] = v
            return env, heap

        def resolve(v, heap):
            """Numeric content of a slot value."""
            if isinstance(v, (Ref, View)):
                c = self.content_in(heap, v)
                return c if isinstance(c, (Arr, Poly)) else None
            if isinstance(v, bool):
                return al.as_poly(int(v))
            return v

        accs = set()
        for s in changed:
            v = pl[s]
            if isinstance(v, tuple):
                v = v[1]
            if isinstance(v, Poly):
                accs |= v.atoms()
        final = {}
        for round_ in range(4):
            cur, bad, raises = run(start_state())
            now = slot_values(cur)
            progress = False
            for s in changed:
                if s in closed or isinstance(pl[s], (Arr, AccListC, tuple)):
                    continue
                a = pl[s]
                e = resolve(now.get(s, UNBOUND), cur[1])
                if not isinstance(a, Poly) or not isinstance(e, Poly):
                    continue
                v0 = init[s]
                v0 = al.as_poly(int(v0)) if isinstance(v0, bool) else v0
                g = e - a
                if has_acc(g, i):
                    if al.sid(a) not in e.all_atoms() and not has_acc(e, i):
                        pass
                    continue
                k = al.fresh('k', sign='+0')
                closed[s] = v0 + al.make_sum(
                    al.subst(g, {al.sid(i): k}), k, lo, i)
                progress = True
            if not progress:
                break
        # final values
        env, heap = dict(base[0]), dict(cur[1])
        for k, c in base[1].items():
            heap[k] = c
        last = {al.sid(i): hi - 1}

        def at_end(v):
            return self.subst_value(v, last, heap, cur[1])

        for s in changed:
            e = now.get(s, UNBOUND)
            r = self.solve_slot(s, pl[s], init.get(s, UNBOUND), e, i, lo, hi,
                                base, cur, heap, at_end, closed)
            if s[0] == 'env':
                env[s[1]] = r
            elif s[0] == 'obj':
                o = heap[s[1]]
                f = dict(o.fields)
                f[s[2]] = r
                heap[s[1]] = ObjC(o.cls, f)
            elif s[0] == 'cls':
                f = dict(heap[s[1]].attrs)
                f[s[2]] = r
                heap[s[1]] = ClassC(f)
            elif s[0] == 'dict':
                o = heap[s[1]]
                f = dict(o.items)
                f[s[2]] = r
                heap[s[1]] = DictC(f, o.open)
            else:
                heap[s[1]] = r
        for k in fresh_names:
            env[k] = at_end(cur[0].get(k, UNBOUND))
        self.restore((env, heap))
        self.assumptions.add('symbolic loops run at least once')
        return Outcome(True, [], raises)

    def content_in(self, heap, v):
        old = self.heap
        self.heap = heap
        try:
            return self.content(v)
        except KeyError:
            return None
        finally:
            self.heap = old

    def subst_value(self, v, mp, heap, src):
        if isinstance(v, Poly):
            r = al.subst(v, mp)
            return r
        if isinstance(v, tuple):
            return tuple(self.subst_value(x, mp, heap, src) for x in v)
        if isinstance(v, Ref):
            c = src.get(v.id)
            if isinstance(c, Arr):
                n = c.map(lambda p: al.subst(p, mp))
                if n.data == c.data:
                    return v
                self.heap = heap
                return self.alloc(n)
            if isinstance(c, ListC) and not isinstance(c, AccListC):
                items = [self.subst_value(x, mp, heap, src) for x in c.items]
                if all(x is y for x, y in zip(items, c.items)):
                    return v
                self.heap = heap
                return self.alloc(ListC(items))
            return v
        if isinstance(v, View):
            c = self.content_in(src, v)
            if isinstance(c, Arr):
                self.heap = heap
                return self.alloc(c.map(lambda p: al.subst(p, mp)))
            return v
        if isinstance(v, GIf):
            return self.mk_if(al.subst(v.cond, mp),
                              self.subst_value(v.a, mp, heap, src),
                              self.subst_value(v.b, mp, heap, src))
        if isinstance(v, Opaque):
            return Opaque(subst_key(v.key, mp), **v.info)
        return v

    def solve_slot(self, s, a, v0, e, i, lo, hi, base, cur, heap, at_end,
                   closed):
        why = 'loop carried value %s' % (s[-1],)
        if s in closed:
            r = al.subst(closed[s], {al.sid(i): hi})
            return r
        if a is UNBOUND:
            return at_end(e) if not isinstance(e, Arr) else e
        if isinstance(a, Unknown):
            # not representable before the loop: the last value is known when
            # it does not depend on the previous one
            return at_end(e) if not isinstance(e, (Unknown,)) else e
        if isinstance(a, AccListC):
            if not isinstance(e, ListC):
                return OpaqueContent(why)
            if not e.items:
                return v0
            if len(e.items) == 1 and not v0.items:
                v = al.fresh('l', sign='+0')
                elem = self.subst_value(e.items[0], {al.sid(i): lo + v}, heap,
                                        cur[1])
                return SymListC(dim_of(hi - lo), v, elem)
            return OpaqueContent(why)
        if isinstance(a, tuple):
            a = a[1]
            e = self.content_in(cur[1], e) if isinstance(e, (Ref, View)) \
                else e
            v0 = self.content_in(base[1], v0)
            r = self.solve_arr(a, v0, e, i, lo, hi, why)
            if isinstance(r, Arr):
                self.heap = heap
                return self.alloc(r)
            return Unknown(why)
        if isinstance(a, Arr):
            r = self.solve_arr(a, v0, e, i, lo, hi, why)
            return r
        if isinstance(a, Opaque):
            if isinstance(e, Opaque) and e.key and e.key[0] == 'cat' and \
                    e.key[1] == ('opaque', a.key):
                return Opaque(('cat', self.key(v0), ('rep', al.sid(i), lo, hi)
                               + tuple(e.key[2:])), str=True)
            if not mentions(self.key(e), a.key):
                return at_end(e)
            return Unknown(why)
        if isinstance(a, Poly):
            if isinstance(e, bool):
                e = al.as_poly(int(e))
            if isinstance(e, Poly):
                if not has_acc(e, i):
                    return al.subst(e, {al.sid(i): hi - 1})
                # latch: acc or cond  /  acc and cond
                return Unknown(why)
            if isinstance(e, (Ref, View, Opaque, str, tuple)):
                return at_end(e)
            return Unknown(why)
        return Unknown(why)

    def solve_arr(self, a, v0, e, i, lo, hi, why):
        if not isinstance(e, Arr) or not isinstance(v0, Arr) or \
                e.shape != v0.shape:
            return OpaqueContent(why)
        data = {}
        si = al.sid(i)
        saved = {}
        for k, d in enumerate(e.shape):
            if not isinstance(d, int):
                ax = al.sid(AX(k))
                saved[ax] = al.BOUNDS.get(ax)
                al.BOUNDS[ax] = (ZERO, al.as_poly(d))
        try:
            for c, expr in e.data.items():
                selfatom = a.data[c]
                r = self.solve_cell(al.sid(selfatom), a, v0, v0.data[c], expr,
                                    i, lo, hi)
                if r is None:
                    return OpaqueContent(why)
                data[c] = norm_bounds(r, e.shape)
        finally:
            for ax, b in saved.items():
                if b is None:
                    al.BOUNDS.pop(ax, None)
                else:
                    al.BOUNDS[ax] = b
        return Arr(e.shape, data, e.dtype)

    def solve_cell(self, aid, a, v0arr, v0, expr, i, lo, hi):
        si = al.sid(i)
        tag = al.atom_key(aid)[1]
        alpha, beta = {}, {}
        for m, c in expr.t.items():
            d = dict(m)
            if d.get(aid) == 1 and sum(1 for x in d if al.atom_key(x)[0] ==
                                       'idx' and al.atom_key(x)[1] == tag
                                       ) == 1:
                d.pop(aid)
                mm = tuple(sorted(d.items()))
                alpha[mm] = alpha.get(mm, 0) + c
            else:
                beta[m] = beta.get(m, 0) + c
        alpha, beta = Poly(alpha), Poly(beta)
        if alpha == ONE:
            # monomials with a Kronecker delta may read the cell they update
            if not reads(beta, tag):
                return v0 + al.make_sum(beta, i, lo, hi)
        elif not alpha.t:
            if reads(beta, tag):
                return None
            return al.subst(beta, {si: hi - 1})
        delta = ONE - alpha
        # all monomials of delta and beta share one Kronecker delta in i
        common = None
        for p in (delta, beta):
            for m in p.t:
                here = {x for x, e in m if al.atom_key(x)[0] == 'eq0' and
                        al._solve_linear(al.atom_key(x)[1], si) is not None}
                common = here if common is None else (common & here)
        if not common:
            if alpha.is_const() or reads(alpha, tag) or reads(beta, tag) or \
                    si in alpha.all_atoms():
                return None
            return None
        x = sorted(common)[0]
        sol = al._solve_linear(al.atom_key(x)[1], si)
        inr = al.in_range(sol, lo, hi)

        def at(p):
            q = al.cofactors(p, x)[0] if p.t else p
            return al.subst(q, {si: sol})
        ds, bs = at(delta), at(beta)
        if reads(bs, tag):
            bs = self.aligned(bs)
        bs = self.replace_reads(bs, tag, v0arr, aid)
        if bs is None or reads(ds, tag):
            return None
        return v0 * (ONE - inr * ds) + inr * bs

    def aligned(self, p):
        """Under a Kronecker delta of an enclosing loop variable, that
        variable is the index it is compared with."""
        out = ZERO
        for m, c in p.t.items():
            x = Poly({m: c})
            for at, e in m:
                if al.atom_key(at)[0] != 'eq0' or e != 1:
                    continue
                for v in self.loops:
                    sol = al._solve_linear(al.atom_key(at)[1], al.sid(v[0]))
                    if sol is not None:
                        rest = al.cofactors(x, at)[0]
                        x = al.subst(rest, {al.sid(v[0]): sol}) * Poly(
                            {((at, Fraction(1)),): Fraction(1)})
                        break
            out = out + x
        return out

    def replace_reads(self, p, tag, v0arr, aid):
        """acc[cell itself] is the value before the loop."""
        if not reads(p, tag):
            return p
        mp = {}
        for x in p.all_atoms():
            k = al.atom_key(x)
            if k[0] == 'idx' and k[1] == tag:
                if x != aid:
                    return None
                conc = []
                try:
                    mp[x] = v0arr.at([q for q in k[2:]])
                except Imprecise:
                    return None
        return al.subst(p, mp)

    # -------------------------------------------------------------------- while
    def st_While(self, st):
        base = self.snapshot()
        um, mark = len(self.unmodelled), len(self.events)
        tapes = self.tapes_at()
        if self.open_ended(st.test):
            r = self.while_counted(st)
            if r is not None:
                return r
            self.restore(base)
            del self.unmodelled[um:]
            del self.events[mark:]
            self.rewind(tapes)
        try:
            return self.loop_concrete(self.turns(st), lambda v: None,
                                      lambda: self.exec_stmts(st.body), st)
        except NotDecided:
            pass
        self.restore(base)
        del self.unmodelled[um:]
        del self.events[mark:]
        self.rewind(tapes)
        r = self.while_counted(st)
        if r is not None:
            return r
        if not (isinstance(st.test, ast.Constant)):
            self.truth(self.ev(st.test), st)
        return self.loop_havoc(lambda v: None,
                               lambda: self.exec_stmts(st.body),
                               Opaque(('while', st.lineno)), st)

    def open_ended(self, t):
        """A counter compared with a bound that is not a fixed number."""
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and
                isinstance(t.left, ast.Name)):
            return False
        for n in ast.walk(t.comparators[0]):
            if isinstance(n, ast.Call) and not (isinstance(
                    n.func, ast.Name) and n.func.id == 'len'):
                return False
        b = self.ev(t.comparators[0])
        return isinstance(b, Poly) and b.const_value() is None and \
            isinstance(self.ev(t.left), Poly)

    def turns(self, st):
        """One item per turn of a while loop whose test is decided."""
        depth = len(self.pc)
        n = 0
        while True:
            pc = self.cond()
            if not pc.t:
                return
            d = self.decide(restrict(self.truth(self.ev(st.test), st), pc))
            if d is False:
                return
            n += 1
            if d is None or n > 400 or len(self.pc) - depth > 40:
                raise NotDecided()
            yield n

    def while_counted(self, st):
        t = st.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and
                isinstance(t.left, ast.Name) and
                isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.NotEq))):
            return None
        name = t.left.id
        v0 = self.ev(t.left)
        bound = self.ev(t.comparators[0])
        if not isinstance(v0, Poly) or not isinstance(bound, Poly):
            return None
        # the counter must be advanced by exactly one on every path: checked
        # by comparing the summarised final value with the bound
        n = bound - v0
        if isinstance(t.ops[0], ast.LtE):
            n = n + 1
        snap = self.snapshot()
        try:
            o = self.loop_symbolic(ZERO, n, lambda i: i, lambda v: None,
                                   lambda: self.exec_stmts(st.body), st)
        except AbsRaise:
            self.restore(snap)
            return None
        fin = self.frames[-1].env.get(name)
        if not isinstance(fin, Poly) or not al.equal(fin, v0 + n):
            self.restore(snap)
            return None
        return o


class AbsReturnUnknown(Exception):
    def __init__(self, why):
        Exception.__init__(self, why)
        self.why = why


def restrict_mul(pc, c):
    return pc * c


def exc_name(interp, exc):
    if isinstance(exc, Ext):
        return exc.dotted.split('.')[-1]
    if isinstance(exc, Opaque):
        k = exc.key
        if k and k[0] == 'exc':
            return k[1]
        if k and k[0] == 'call':
            return str(k[1]).split('.')[-1]
    if isinstance(exc, Class):
        return exc.name
    if isinstance(exc, Ref):
        c = interp.heap.get(exc.id)
        if isinstance(c, ObjC):
            return c.cls.name
    return None


def same_value(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


def same_content(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Arr):
        return a.shape == b.shape and a.data == b.data
    if isinstance(a, ListC):
        return len(a.items) == len(b.items) and all(
            same_value(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, DictC):
        return a.open == b.open and a.items.keys() == b.items.keys() and all(
            same_value(a.items[k], b.items[k]) for k in a.items)
    if isinstance(a, ObjC):
        return a.cls == b.cls and a.fields.keys() == b.fields.keys() and all(
            same_value(a.fields[k], b.fields[k]) for k in a.fields)
    if isinstance(a, ClassC):
        return a.attrs.keys() == b.attrs.keys() and all(
            same_value(a.attrs[k], b.attrs[k]) for k in a.attrs)
    if isinstance(a, Poly):
        return a == b
    return False


def has_acc(p, i):
    """Does p mention a placeholder of the loop over i?"""
    s = al.sid(i)
    for a in p.all_atoms():
        k = al.atom_key(a)
        if k[0] == 'sym' and isinstance(k[1], tuple) and k[1][0] == 'acc' \
                and k[1][1][1] == s:
            return True
        if k[0] == 'idx' and isinstance(k[1], tuple) and k[1] and \
                k[1][0] == 'acc' and k[1][1] == s:
            return True
        if k[0] == 'app' and k[1] == 'opq' and mentions(k, ('acc', s)):
            return True
    return False


def reads(p, tag):
    for a in p.all_atoms():
        k = al.atom_key(a)
        if k[0] == 'idx' and k[1] == tag:
            return True
    return False


def mentions(key, part):
    if key == part:
        return True
    if isinstance(key, tuple):
        if len(part) <= len(key) and key[:len(part)] == part:
            return True
        return any(mentions(x, part) for x in key)
    return False


def subst_key(key, mp):
    if isinstance(key, Poly):
        return al.subst(key, mp)
    if isinstance(key, tuple):
        return tuple(subst_key(x, mp) for x in key)
    return key
