"""Behaviour-preserving rewrites of the whole package, to test that the checks
stay quiet:  refactor.py KIND... [--checks P01,P02]   (a copy in /tmp is used)
"""
import ast
import copy
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FUN = (ast.FunctionDef,)
NEST = (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp,
        ast.DictComp, ast.GeneratorExp)


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def store(n):
    return ast.Name(n, ast.Store())


class Base(ast.NodeTransformer):
    n = 0

    def fresh(self, p='tmp'):
        Base.n += 1
        return '%s_%d_' % (p, Base.n)


class Rename(Base):
    """Local variables get other names."""

    def visit_FunctionDef(self, f):
        if any(isinstance(n, NEST) for s in f.body for n in ast.walk(s)):
            # nested scopes: leave
            self.generic_visit(f)
            return f
        a = f.args
        par = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
        par |= {x.arg for x in (a.vararg, a.kwarg) if x}
        loc, glob = set(), set()
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                loc.add(n.id)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                glob.update(n.names)
        loc -= par | glob
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = n.id + '_r'
        return f


class Returns(Base):
    """return expr -> result = expr; return result"""

    def visit_Return(self, s):
        if s.value is None or isinstance(s.value, (ast.Name, ast.Constant)):
            return s
        t = self.fresh('result')
        return [ast.Assign([store(t)], s.value), ast.Return(name(t))]

    def visit_Lambda(self, n):
        return n


class Invert(Base):
    """if a: X else: Y -> if not a: Y else: X"""

    def visit_If(self, s):
        self.generic_visit(s)
        if s.orelse and not (len(s.orelse) == 1 and
                             isinstance(s.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)
        return s

    def visit_IfExp(self, s):
        self.generic_visit(s)
        return ast.IfExp(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)


class Elif(Base):
    """elif chains as nested ifs with a pass; early returns get an else"""

    def body(self, b):
        out = []
        for k, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(
                    s.body[-1], (ast.Return, ast.Raise)) and b[k + 1:]:
                s.orelse = self.body(b[k + 1:])
                out.append(s)
                return out
            out.append(s)
        return out

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        f.body = self.body(f.body)
        return f


class While(Base):
    """for i in range(..) without continue -> while"""

    def visit_For(self, s):
        self.generic_visit(s)
        it = s.iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and
                it.func.id == 'range' and len(it.args) in (1, 2) and
                isinstance(s.target, ast.Name) and not s.orelse):
            return s
        for n in ast.walk(ast.Module(s.body, [])):
            if isinstance(n, ast.Continue):
                return s
            if isinstance(n, ast.Name) and n.id == s.target.id and \
                    isinstance(n.ctx, ast.Store):
                return s
        c, e = self.fresh('k'), self.fresh('end')
        lo = it.args[0] if len(it.args) == 2 else ast.Constant(0)
        return [ast.Assign([store(c)], lo),
                ast.Assign([store(e)], it.args[-1]),
                ast.While(ast.Compare(name(c), [ast.Lt()], [name(e)]),
                          [ast.Assign([store(s.target.id)], name(c))] +
                          s.body + [ast.Assign([store(c)], ast.BinOp(
                              name(c), ast.Add(), ast.Constant(1)))], [])]


class Loops(Base):
    """x = [e for t in it if c] -> loop with append"""

    def visit_Assign(self, s):
        v = s.value
        if isinstance(v, ast.ListComp) and len(v.generators) == 1 and \
                not any(isinstance(n, NEST) for n in ast.walk(v.elt)) and \
                self.depth:
            g = v.generators[0]
            t = self.fresh('acc')
            ren = {n.id: n.id + '_lc' for n in ast.walk(g.target)
                   if isinstance(n, ast.Name)}
            for part in [v.elt, g.target] + g.ifs:
                for n in ast.walk(part):
                    if isinstance(n, ast.Name) and n.id in ren:
                        n.id = ren[n.id]
            b = [ast.Expr(ast.Call(ast.Attribute(name(t), 'append',
                                                 ast.Load()), [v.elt], []))]
            for c in reversed(g.ifs):
                b = [ast.If(c, b, [])]
            return [ast.Assign([store(t)], ast.List([], ast.Load())),
                    ast.For(g.target, g.iter, b, []),
                    ast.Assign(s.targets, name(t))]
        return s

    depth = 0

    def visit_FunctionDef(self, f):
        Loops.depth += 1
        self.generic_visit(f)
        Loops.depth -= 1
        return f


class Enumerate(Base):
    """for x in seq -> for _, x in enumerate(seq); range(n) -> range(0, n)"""

    def visit_For(self, s):
        self.generic_visit(s)
        it = s.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and \
                it.func.id in ('range', 'enumerate', 'zip', 'prange'):
            if it.func.id == 'range' and len(it.args) == 1:
                it.args.insert(0, ast.Constant(0))
            return s
        k = self.fresh('pos')
        s.target = ast.Tuple([store(k), s.target], ast.Store())
        s.iter = ast.Call(name('enumerate'), [it], [])
        return s


class Temps(Base):
    """Operands of binary operations and calls as temporaries."""

    def block(self, body):
        out = []
        for s in body:
            pre = []
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and \
                    s.value is not None and not isinstance(
                        s.value, ast.Constant):
                s.value = self.hoist(s.value, pre, 0)
            for f in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(s, f, None), list) and not isinstance(
                        s, (ast.ClassDef,)):
                    setattr(s, f, self.block(getattr(s, f)))
            for h in getattr(s, 'handlers', []):
                h.body = self.block(h.body)
            if isinstance(s, ast.ClassDef):
                s.body = [self.block([x])[0] if isinstance(
                    x, ast.FunctionDef) else x for x in s.body]
            out += pre + [s]
        return out

    def hoist(self, e, pre, d):
        """Evaluation order is kept: everything left of a hoisted operand is
        hoisted too."""
        def put(x):
            if isinstance(x, (ast.Constant, ast.Name, ast.Starred)):
                return x
            t = self.fresh('t')
            pre.append(ast.Assign([store(t)], x))
            return name(t)
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant):
                return e
            e.left = put(self.hoist(e.left, pre, d + 1))
            e.right = put(self.hoist(e.right, pre, d + 1))
        elif isinstance(e, ast.Call) and not any(isinstance(
                a, ast.Starred) for a in e.args):
            if isinstance(e.func, ast.Name) and e.func.id in (
                    'locals', 'super', 'globals'):
                return e
            e.args = [put(self.hoist(a, pre, d + 1)) for a in e.args]
        elif isinstance(e, ast.UnaryOp):
            e.operand = put(self.hoist(e.operand, pre, d + 1))
        return e

    def visit_Module(self, m):
        def rec(body):
            for s in body:
                if isinstance(s, ast.FunctionDef):
                    s.body = self.block(s.body)
                elif isinstance(s, ast.ClassDef):
                    rec(s.body)
        rec(m.body)
        return m


class Fstrings(Base):
    """'..{}..'.format(a, b) -> f-string, plain placeholders only"""

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(
                f.value, ast.Constant) and isinstance(f.value.value, str) \
                and not n.keywords and not any(isinstance(
                    a, ast.Starred) for a in n.args):
            import string
            vals, auto = [], 0
            for lit, fld, spec, conv in string.Formatter().parse(
                    f.value.value):
                if lit:
                    vals.append(ast.Constant(lit))
                if fld is None:
                    continue
                if '{' in (spec or '') or conv:
                    return n
                if fld == '':
                    i, auto = auto, auto + 1
                elif fld.isdigit():
                    i = int(fld)
                else:
                    return n
                if i >= len(n.args):
                    return n
                vals.append(ast.FormattedValue(
                    copy.deepcopy(n.args[i]), -1, ast.JoinedStr(
                        [ast.Constant(spec)]) if spec else None))
            return ast.JoinedStr(vals)
        return n


class Methods(Base):
    """The second half of each long method moves into a new method."""

    def visit_ClassDef(self, c):
        out = []
        for f in c.body:
            out.append(f)
            if isinstance(f, ast.FunctionDef) and f.args.args and \
                    f.args.args[0].arg == 'self' and len(f.body) >= 4:
                g = self.split(f)
                if g:
                    out.append(g)
        c.body = out
        return c

    def split(self, f):
        k = len(f.body) // 2
        if isinstance(f.body[0], ast.Expr) and k < 2:
            k = 2
        head, tail = f.body[:k], f.body[k:]
        m = ast.Module(f.body, [])
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Global,
                              ast.Nonlocal, ast.FunctionDef, ast.Lambda,
                              ast.Import, ast.ImportFrom))
               for n in ast.walk(m)):
            return None
        if any(isinstance(n, ast.Name) and n.id == 'super'
               for n in ast.walk(m)):
            return None
        a = f.args
        par = [x.arg for x in a.args + a.kwonlyargs]
        if a.vararg or a.kwarg:
            return None
        sure = set(par)
        for s in head:       # assigned for certain
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    sure |= {n.id for n in ast.walk(t) if isinstance(
                        n, ast.Name) and isinstance(n.ctx, ast.Store)}
        maybe = {n.id for s in head for n in ast.walk(s) if isinstance(
            n, ast.Name) and isinstance(n.ctx, ast.Store)} - sure
        used = {n.id for s in tail for n in ast.walk(s) if isinstance(
            n, ast.Name)}
        if maybe & used:
            return None
        need = [x for x in sorted(sure & used) if x != 'self']
        nm = self.fresh('_part')
        g = ast.FunctionDef(nm, ast.arguments(
            [], [ast.arg('self')] + [ast.arg(x) for x in need], None, [], [],
            None, []), tail, [], None, None)
        f.body = head + [ast.Return(ast.Call(ast.Attribute(
            name('self'), nm, ast.Load()), [name(x) for x in need], []))]
        return g


class Functions(Base):
    """Tails of module functions become helper functions."""

    def visit_Module(self, m):
        out = []
        for f in m.body:
            if isinstance(f, ast.FunctionDef) and len(f.body) >= 4:
                g = copy.deepcopy(f)
                h = Methods()
                # reuse the splitter without self
                r = h.split(g)
                if r is not None:
                    r.args.args = r.args.args[1:]
                    call = g.body[-1].value
                    call.func = name(r.name)
                    out += [r, g]
                    continue
            out.append(f)
        m.body = out
        return m


class Dicts(Base):
    """{'a': 1} -> dict(a=1); x != y -> not x == y; x in (a, b) kept"""

    def visit_Dict(self, d):
        self.generic_visit(d)
        if d.keys and all(isinstance(k, ast.Constant) and isinstance(
                k.value, str) and k.value.isidentifier() and
                k.value not in ('class', 'lambda', 'in', 'is', 'from', 'not',
                                'None', 'def') for k in d.keys):
            return ast.Call(name('dict'), [], [ast.keyword(k.value, v)
                                               for k, v in zip(d.keys,
                                                               d.values)])
        return d

    def visit_Compare(self, c):
        self.generic_visit(c)
        if len(c.ops) == 1 and isinstance(c.ops[0], ast.IsNot):
            return ast.UnaryOp(ast.Not(), ast.Compare(
                c.left, [ast.Is()], c.comparators))
        if len(c.ops) == 1 and isinstance(c.ops[0], ast.NotIn):
            return ast.UnaryOp(ast.Not(), ast.Compare(
                c.left, [ast.In()], c.comparators))
        if len(c.ops) > 1 and all(isinstance(x, (ast.Name, ast.Constant))
                                  for x in c.comparators[:-1]):
            xs = [c.left] + c.comparators
            return ast.BoolOp(ast.And(), [ast.Compare(copy.deepcopy(a), [o], [
                copy.deepcopy(b)]) for a, o, b in zip(xs, c.ops, xs[1:])])
        return c


class Nones(Base):
    """isinstance(x, type(None)) / type(x) == type(None) -> x is None"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and \
                ast.unparse(n.args[1]) == 'type(None)':
            return ast.Compare(n.args[0], [ast.Is()], [ast.Constant(None)])
        return n

    def visit_Compare(self, c):
        self.generic_visit(c)
        if len(c.ops) == 1 and isinstance(c.ops[0], (ast.Eq, ast.NotEq)) and \
                ast.unparse(c.comparators[0]) == 'type(None)' and \
                ast.unparse(c.left).startswith('type('):
            op = ast.Is() if isinstance(c.ops[0], ast.Eq) else ast.IsNot()
            return ast.Compare(c.left.args[0], [op], [ast.Constant(None)])
        return c


class Aliases(Base):
    """self.x read repeatedly -> parameters copied to locals; constants of
    numpy through a renamed import."""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        a = f.args
        par = [x.arg for x in a.args + a.kwonlyargs if x.arg not in (
            'self', 'cls')]
        k = 0
        if f.body and isinstance(f.body[0], ast.Expr) and isinstance(
                f.body[0].value, ast.Constant):
            k = 1
        if any(isinstance(n, (ast.Lambda, ast.FunctionDef)) and n is not f
               for n in ast.walk(f)) or f.decorator_list:
            return f
        pre = []
        for p in par:
            q = p + '_in'
            pre.append(ast.Assign([store(q)], name(p)))
            for s in f.body[k:]:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and n.id == p:
                        n.id = q
        f.body[k:k] = pre
        return f


class Imports(Base):
    """import numpy as np -> import numpy as xp"""

    def visit_Module(self, m):
        hit = False
        for n in ast.walk(m):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name == 'numpy' and a.asname == 'np':
                        a.asname = 'xnp'
                        hit = True
        if hit:
            for n in ast.walk(m):
                if isinstance(n, ast.Name) and n.id == 'np':
                    n.id = 'xnp'
        return m


class Aug(Base):
    """s += x on names bound to strings, numbers or lists -> s = s + x for
    strings and numbers"""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        plain = {}
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name):
                v = n.value
                ok = isinstance(v, (ast.Constant, ast.JoinedStr)) or \
                    isinstance(v, ast.Call) and isinstance(
                        v.func, ast.Attribute) and v.func.attr == 'format'
                plain.setdefault(n.targets[0].id, []).append(ok)

        class T(ast.NodeTransformer):
            def visit_AugAssign(self, s):
                if isinstance(s.target, ast.Name) and all(
                        plain.get(s.target.id, [False])):
                    return ast.Assign([s.target], ast.BinOp(
                        name(s.target.id), s.op, s.value))
                return s
        return T().visit(f)


class Decls(Base):
    """Assertions of the obvious, logging lines and no-op statements."""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(
            f.body[0].value, ast.Constant) else 0
        f.body[k:k] = ast.parse('note = "enter %s"\ndel note' % f.name).body
        return f


KINDS = {k.__name__.lower(): k for k in (
    Rename, Returns, Invert, Elif, While, Loops, Enumerate, Temps, Fstrings,
    Methods, Functions, Dicts, Nones, Aliases, Imports, Aug, Decls)}


def apply(kind, root):
    n = 0
    for d, _, fs in os.walk(os.path.join(root, 'quantas')):
        for f in fs:
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            src = open(p, encoding='utf-8').read()
            t = ast.parse(src)
            before = ast.unparse(t)
            Base.n = 0
            t = ast.fix_missing_locations(KINDS[kind]().visit(t))
            after = ast.unparse(t)
            if after != before:
                compile(after, p, 'exec')
                open(p, 'w', encoding='utf-8').write(after + '\n')
                n += 1
    return n


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    only = [a[9:].split(',') for a in sys.argv if a.startswith('--checks=')]
    keep = '--keep' in sys.argv
    import json
    props = only[0] if only else [c['property'] for c in json.load(open(
        os.path.join(VERIF, 'MANIFEST.json')))['checks']]
    for kind in args or KINDS:
        root = '/tmp/refac_%s' % kind
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        subprocess.check_call('git -C /repo archive HEAD | tar x -C %s' %
                              root, shell=True)
        n = apply(kind, root)

        def one(p):
            r = subprocess.run(
                [sys.executable, '-m', 'sa.check', p], cwd=VERIF,
                env=dict(os.environ, QUANTAS_REPO=root),
                capture_output=True, text=True)
            return p, r.returncode, r.stdout + r.stderr[-500:]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, props))
        print('== %s: %d files' % (kind, n))
        for p, rc, out in res:
            L = out.splitlines()
            if rc or ' 0 undecided' not in out:
                print('  %s rc=%d %s' % (p, rc, L[-1][:150] if L else ''))
                if rc:
                    for x in L[:3]:
                        print('      ' + x[:230])
        sys.stdout.flush()
        if not keep:
            shutil.rmtree(root)


main()
