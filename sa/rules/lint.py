"""Names, attributes, call signatures and formats resolve (P24)."""
import ast
import builtins
import os
import re
import string

from ..project import AnalysisError

BUILTIN = set(dir(builtins)) | {'__file__', '__name__', '__path__', '__doc__',
                                '__package__', '__builtins__', '__spec__', '__class__'}
SITE = '/opt/venv/lib'
FUN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
WRAP = {'property', 'staticmethod', 'classmethod', 'abstractmethod',
        'abc.abstractmethod', 'cython.boundscheck', 'cython.wraparound'}


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b and b + '.' + n.attr
    if isinstance(n, ast.Call):
        return dotted(n.func)
    return None


def own(node):
    """Nodes of a scope, nested scopes' bodies left out."""
    out = []

    def rec(n, top):
        if not top and isinstance(n, FUN + (ast.ClassDef,) + COMP):
            out.append(n)
            if isinstance(n, COMP):
                rec(n.generators[0].iter, False)
            elif isinstance(n, ast.Lambda):
                for d in n.args.defaults + n.args.kw_defaults:
                    if d is not None:
                        rec(d, False)
            else:
                for d in n.decorator_list:
                    rec(d, False)
                for d in getattr(n, 'bases', []):
                    rec(d, False)
                if not isinstance(n, ast.ClassDef):
                    for d in n.args.defaults + n.args.kw_defaults:
                        if d is not None:
                            rec(d, False)
            return
        if not top:
            out.append(n)
        for c in ast.iter_child_nodes(n):
            rec(c, False)
    if isinstance(node, ast.Lambda):
        rec(node.body, False)
    elif isinstance(node, COMP):
        for k, g in enumerate(node.generators):
            rec(g.target, False)
            if k:
                rec(g.iter, False)
            for t in g.ifs:
                rec(t, False)
        for f in ('elt', 'key', 'value'):
            if getattr(node, f, None) is not None:
                rec(getattr(node, f), False)
    else:
        for s in node.body:
            rec(s, False)
    return out


def params(a):
    r = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    for x in (a.vararg, a.kwarg):
        if x is not None:
            r.append(x.arg)
    return r


def bound(nodes):
    """Names a scope binds; names it declares global."""
    out, glob = set(), set()
    for n in nodes:
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif n.__class__.__name__ in ('MatchAs', 'MatchStar') and n.name:
            out.add(n.name)
        elif n.__class__.__name__ == 'MatchMapping' and n.rest:
            out.add(n.rest)
        elif n.__class__.__name__ in ('TypeVar', 'ParamSpec', 'TypeVarTuple',
                                      'TypeAlias'):
            out.add(getattr(n.name, 'id', n.name))
        elif isinstance(n, COMP):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    out.add(m.target.id)
    return out - glob, glob


def cimported(m):
    """Names a Cython module binds at C level."""
    out = set()
    with open(m.path, encoding='utf-8') as f:
        for line in f:
            line = line.split('#')[0].rstrip()
            x = re.match(r'\s*(?:from\s+[\w.]+\s+c?import|cimport)\s+(.*)$',
                         line)
            for a in (x.group(1).strip('()').split(',') if x else ()):
                w = a.split()
                if w:
                    out.add(w[-1].split('.')[0])
    return out


class Tables(object):
    """What the modules and classes of the tree define."""

    def __init__(self, c):
        self.c = c
        self.P = c.P
        self.memo = {}
        self.mods = self.P.modules
        self.top = {}
        self.open = set()
        for name, m in self.mods.items():
            nodes = own(m.tree)
            b, _ = bound(nodes)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    b.update(n.names)
                elif isinstance(n, ast.Call) and dotted(n.func) in (
                        'globals', 'exec', 'vars', 'locals'):
                    self.open.add(name)
            for n in nodes:
                if isinstance(n, ast.ImportFrom) and any(
                        a.name == '*' for a in n.names):
                    src = self.P.resolve_import(m, n.level, n.module or '')
                    if src in self.mods:
                        b |= bound(own(self.mods[src].tree))[0]
                    else:
                        self.open.add(name)
            for e in m.externs or []:
                if isinstance(e, str):
                    b.add(e)
            if m.rel.endswith('.pyx'):
                b |= cimported(m)
            self.top[name] = b
        self.set_anywhere = set()
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Store) and not (isinstance(
                            n.value, ast.Name) and n.value.id == 'self'):
                    self.set_anywhere.add(n.attr)
                if isinstance(n, ast.Call) and dotted(n.func) == 'setattr':
                    self.set_anywhere.add('*')
        self.classes = {}
        for name, m in self.mods.items():
            for n in m.tree.body:
                if isinstance(n, ast.ClassDef):
                    self.classes[name, n.name] = n
        self.sub = {}
        for k, n in self.classes.items():
            for b in self.bases(k):
                if b in self.classes:
                    self.sub.setdefault(b, []).append(k)

    def bases(self, k):
        mod, _ = k
        out = []
        for b in self.classes[k].bases:
            r = self.resolve(mod, b)
            if r and r[0] == 'class':
                out.append((r[1][0].name, r[1][1].name))
            else:
                out.append(dotted(b))
        return out

    def resolve(self, mod, node):
        """Top-level meaning of a dotted expression in a module."""
        if isinstance(node, ast.Name):
            return self.P.bindings(mod).get(node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve(mod, node.value)
            if b and b[0] == 'module' and b[1] in self.mods:
                return self.P.bindings(b[1]).get(node.attr) or (
                    ('module', b[1] + '.' + node.attr)
                    if b[1] + '.' + node.attr in self.mods else None)
        return None

    def mro(self, k):
        """Project classes from k upwards; None if a base is foreign."""
        out = []

        def rec(x):
            if x in out:
                return True
            out.append(x)
            for b in self.bases(x):
                if b in ('object', None):
                    if b is None:
                        return False
                    continue
                if b not in self.classes:
                    return False
                if not rec(b):
                    return False
            return True
        return out if rec(k) else None

    def family(self, k):
        up = self.mro(k)
        if up is None:
            return None
        out, todo = set(up), [k]
        while todo:
            for s in self.sub.get(todo.pop(), []):
                if s not in out:
                    out |= set(self.mro(s) or [s])
                    todo.append(s)
        return out

    def members(self, k, family=True):
        """Attribute name -> definitions, or None when not known."""
        if (k, family) not in self.memo:
            self.memo[k, family] = self._members(k, family)
        return self.memo[k, family]

    def _members(self, k, family):
        ks = self.family(k) if family else self.mro(k)
        if ks is None:
            return None
        out = {}
        for q in ks:
            cls = self.classes[q]
            for n in ast.walk(cls):
                if isinstance(n, ast.Attribute) and n.attr == '__dict__' or \
                        isinstance(n, ast.Call) and dotted(n.func) in (
                            'vars', 'setattr'):
                    return None
            for n in cls.body:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.setdefault(n.name, []).append((q, n))
                    if n.name in ('__getattr__', '__getattribute__'):
                        return None
            for n in own(cls):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.setdefault(n.id, []).append((q, n))
            for f in ast.walk(cls):
                if isinstance(f, ast.Attribute) and isinstance(
                        f.ctx, (ast.Store, ast.Del)) and isinstance(
                            f.value, ast.Name) and f.value.id in (
                                'self', 'cls', cls.name):
                    out.setdefault(mangle(f.attr, cls.name), []).append(
                        (q, f))
                    out.setdefault(f.attr, []).append((q, f))
            for n in cls.body:
                if isinstance(n, ast.FunctionDef):
                    out.setdefault(mangle(n.name, cls.name), []).append(
                        (q, n))
        return out

    def method(self, k, name):
        for q in self.mro(k) or []:
            for n in self.classes[q].body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    return q, n
        return None


def mangle(a, cls):
    if a.startswith('__') and not a.endswith('__'):
        return '_%s%s' % (cls.lstrip('_'), a)
    return a


def kind(fn):
    """plain, property, static, class, other."""
    ds = [dotted(d) or '?' for d in fn.decorator_list]
    if any(d == 'property' or d.endswith('.setter') for d in ds):
        return 'property'
    if 'staticmethod' in ds:
        return 'static'
    if 'classmethod' in ds:
        return 'class'
    if all(d in WRAP for d in ds):
        return 'plain'
    return 'other'


def accepts(args, npos, kws, skip=0):
    """None, or why the call does not fit the signature."""
    names = [x.arg for x in args.posonlyargs + args.args][skip:]
    if npos > len(names) and args.vararg is None:
        return 'takes %d positional arguments, %d given' % (len(names), npos)
    only = [x.arg for x in args.kwonlyargs]
    used = set(names[:npos])
    for k in kws:
        if k in used:
            return 'argument %s given twice' % k
        if k not in names and k not in only and args.kwarg is None:
            return 'has no argument %s' % k
        used.add(k)
    n = len(args.defaults)
    required = [x.arg for x in (args.posonlyargs + args.args)]
    required = required[:len(required) - n][skip:]
    required += [x.arg for x, d in zip(args.kwonlyargs, args.kw_defaults)
                 if d is None]
    miss = [x for x in required if x not in used]
    if miss:
        return 'needs %s' % ', '.join(miss)
    return None


def stub_names(pkg, sub=''):
    """Names declared by the type stub of an installed package."""
    for d in sorted(os.listdir(SITE)) if os.path.isdir(SITE) else []:
        p = os.path.join(SITE, d, 'site-packages', pkg, sub, '__init__.pyi')
        if os.path.exists(p):
            with open(p, encoding='utf-8') as f:
                t = ast.parse(f.read())
            out, _ = bound(own(t))
            for n in ast.walk(t):
                if isinstance(n, ast.ImportFrom) and any(
                        a.name == '*' for a in n.names):
                    return None
            return out
    return None


class Lint(object):
    def __init__(self, c):
        self.c = c
        self.T = Tables(c)
        self.stubs = {'numpy': stub_names('numpy'),
                      'numpy.linalg': stub_names('numpy', 'linalg')}
        self.count = 0

    def where(self, m, n):
        return '%s:%d' % (m.rel, getattr(n, 'lineno', 1))

    def run(self):
        for name in sorted(self.T.mods):
            m = self.T.mods[name]
            self.imports(m)
            self.scope(m, m.tree, name, [self.T.top[name] | BUILTIN], None)

    # -- imports
    def imports(self, m):
        c = self.c
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                src = self.P.resolve_import(m, n.level, n.module or '')
                if not (src == 'quantas' or src.startswith('quantas.')):
                    continue
                tag = '%s imports %s' % (m.name, src)
                if src not in self.T.mods:
                    c.bad('imports', tag, self.where(m, n),
                          'there is no module %s' % src)
                    continue
                for a in n.names:
                    ok = a.name == '*' or a.name in self.T.top[src] or \
                        src + '.' + a.name in self.T.mods or \
                        src in self.T.open
                    c.need(ok, 'imports', '%s.%s' % (tag, a.name),
                           self.where(m, n), '%s defines no %s' % (src,
                                                                   a.name))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split('.')[0] == 'quantas':
                        c.need(a.name in self.T.mods, 'imports',
                               '%s imports %s' % (m.name, a.name),
                               self.where(m, n), 'there is no such module')

    @property
    def P(self):
        return self.T.P

    # -- names
    def scope(self, m, node, qual, env, cls):
        """env: list of name sets, outermost first."""
        nodes = own(node)
        inner = env
        label = qual
        if isinstance(node, FUN):
            b, g = bound(nodes)
            inner = env + [b | set(params(node.args))]
            self.c.units.add(qual)
            if not isinstance(node, ast.Lambda):
                self.unassigned(m, node, qual)
        elif isinstance(node, COMP):
            inner = env + [bound(nodes)[0]]
        elif isinstance(node, ast.ClassDef):
            inner = env + [bound(nodes)[0]]
        known = set().union(*inner)
        bad = set()
        for n in nodes:
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.count += 1
                if n.id not in known and m.name not in self.T.open and \
                        not guarded(n, m.tree):
                    if n.id not in bad:
                        bad.add(n.id)
                        self.c.bad('names', '%s: %s' % (label, n.id),
                                   self.where(m, n), 'is not defined')
        if not bad and nodes and not isinstance(node, COMP):
            self.c.ok('names', label, self.where(m, node))
        if not isinstance(node, COMP):
            self.uses(m, node, nodes, qual, cls)
        nxt = inner[:-1] if isinstance(node, ast.ClassDef) else inner
        for n in nodes:
            if isinstance(n, ast.ClassDef):
                self.scope(m, n, qual + '.' + n.name, nxt,
                           (m.name, n.name) if isinstance(
                               node, ast.Module) else None)
            elif isinstance(n, FUN):
                nm = getattr(n, 'name', '<lambda>')
                k = cls
                self.scope(m, n, qual + '.' + nm, nxt, k)
            elif isinstance(n, COMP):
                self.scope(m, n, qual, inner, cls)

    def unassigned(self, m, fn, qual):
        """Locals read where no path has assigned them."""
        nodes = own(fn)
        loc = bound(nodes)[0] - set(params(fn.args))
        if not loc:
            return
        bad = {}

        def reads(e, st):
            for n in [e] + own_expr(e):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) \
                        and n.id in loc and n.id not in st:
                    bad.setdefault(n.id, n)

        def stores(t):
            return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and
                    isinstance(n.ctx, ast.Store)}

        def block(body, st):
            for s in body:
                if st is None:
                    return None
                st = stmt(s, st)
            return st

        def join(a, b):
            if a is None:
                return b
            if b is None:
                return a
            return a | b

        def stmt(s, st):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                return st | {s.name}
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                return st | bound([s])[0]
            if isinstance(s, ast.Return) or isinstance(s, ast.Raise):
                for e in ast.iter_child_nodes(s):
                    reads(e, st)
                return None
            if isinstance(s, ast.If):
                reads(s.test, st)
                st = st | stores(s.test)
                return join(block(s.body, st), block(s.orelse, st))
            if isinstance(s, (ast.For, ast.While)):
                if isinstance(s, ast.For):
                    reads(s.iter, st)
                    inn = st | stores(s.target)
                else:
                    inn = st
                every = inn
                for n in own(s):
                    if isinstance(n, ast.Name) and isinstance(
                            n.ctx, ast.Store):
                        every = every | {n.id}
                if isinstance(s, ast.While):
                    reads(s.test, every)
                block(s.body, every)
                block(s.orelse, every)
                return every
            if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
                every = st
                for x in s.body:
                    for n in [x] + list(ast.walk(x)):
                        if isinstance(n, ast.Name) and isinstance(
                                n.ctx, ast.Store):
                            every = every | {n.id}
                a = block(s.body, st)
                if a is not None:
                    a = block(s.orelse, a)
                for h in s.handlers:
                    a = join(a, block(h.body, every | (
                        {h.name} if h.name else set())))
                if s.finalbody:
                    f = block(s.finalbody, every | (a or set()))
                    a = None if a is None or f is None else a | f
                return a
            if isinstance(s, ast.With):
                for i in s.items:
                    reads(i.context_expr, st)
                    if i.optional_vars is not None:
                        st = st | stores(i.optional_vars)
                return block(s.body, st)
            if isinstance(s, (ast.Break, ast.Continue)):
                return None
            if isinstance(s, ast.Assign):
                reads(s.value, st)
                for t in s.targets:
                    reads(t, st)
                    st = st | stores(t)
                return st
            if isinstance(s, ast.AugAssign):
                reads(s.value, st)
                if isinstance(s.target, ast.Name) and s.target.id in loc \
                        and s.target.id not in st:
                    bad.setdefault(s.target.id, s.target)
                reads(s.target, st)
                return st | stores(s.target)
            for e in ast.iter_child_nodes(s):
                reads(e, st)
            return st | stores(s)
        if any(s.__class__.__name__ == 'Match' for s in nodes):
            return
        block(fn.body, set(params(fn.args)))
        for k, n in sorted(bad.items()):
            self.c.bad('names', '%s: %s before assignment' % (qual, k),
                       self.where(m, n), 'is read where nothing has '
                       'assigned it')

    # -- attributes, calls, formats
    def uses(self, m, node, nodes, qual, cls):
        types = self.types(m, node, nodes, cls)
        every = list(nodes)
        for n in nodes:
            if isinstance(n, COMP):
                every += [x for x in ast.walk(n) if x is not n]
        shadow = set()
        if isinstance(node, FUN):
            shadow = bound(nodes)[0] | set(params(node.args))
        for n in every:
            if isinstance(n, COMP + (ast.Lambda,)):
                shadow |= {x.id for x in ast.walk(n) if isinstance(
                    x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for n in every:
            if isinstance(n, ast.Attribute) and (isinstance(
                    n.ctx, ast.Load) or updated(n)):
                self.attribute(m, n, qual, types, shadow)
            elif isinstance(n, ast.Call):
                self.call(m, n, qual, types, shadow)
                self.format(m, n, qual, nodes)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                self.percent(m, n, qual)

    def types(self, m, node, nodes, cls):
        """Name or 'self.name' -> class, where one construction decides."""
        out = {}
        if cls is not None and isinstance(node, ast.FunctionDef) and \
                node.args.args and kind(node) in ('plain', 'property',
                                                  'other') and \
                node in self.T.classes[cls].body:
            out[node.args.args[0].arg] = cls
        if isinstance(node, FUN):
            seen = {}
            for n in nodes:
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    seen[n.id] = seen.get(n.id, 0) + 1
            for n in nodes:
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                        isinstance(n.targets[0], ast.Name) and \
                        seen.get(n.targets[0].id) == 1 and isinstance(
                            n.value, ast.Call) and \
                        n.targets[0].id not in params(node.args):
                    k = self.built(m, n.value, bound(nodes)[0])
                    if k:
                        out[n.targets[0].id] = k
        if cls is not None:
            built = {}
            for q in self.T.family(cls) or []:
                mod = self.T.mods[q[0]]
                for n in ast.walk(self.T.classes[q]):
                    if isinstance(n, ast.Attribute) and isinstance(
                            n.ctx, ast.Store) and dotted(n) == \
                            'self.' + n.attr:
                        p = n._parent
                        k = None
                        if isinstance(p, ast.Assign) and len(
                                p.targets) == 1 and p.targets[0] is n:
                            if isinstance(p.value, ast.Call):
                                k = self.built(mod, p.value, ())
                            elif isinstance(p.value, ast.Constant) and \
                                    p.value.value is None:
                                continue
                        built.setdefault('self.' + n.attr, []).append(k)
            for a, ks in built.items():
                if len(set(ks)) == 1 and ks[0]:
                    out[a] = ks[0]
        return out

    def built(self, m, call, local):
        if isinstance(call.func, ast.Name) and call.func.id in local:
            return None
        r = self.T.resolve(m.name, call.func)
        if r and r[0] == 'class':
            k = (r[1][0].name, r[1][1].name)
            if k in self.T.classes:
                return k
        return None

    def attribute(self, m, n, qual, types, shadow):
        base = dotted(n.value)
        if base is None:
            return
        if base in types:
            k = types[base]
            self.count += 1
            a = mangle(n.attr, k[1])
            mem = self.T.members(k)
            if mem is None or a.startswith('__') and a.endswith('__'):
                return
            if all(updated(d) for _, d in mem.get(a, [])) and n.attr not in self.T.set_anywhere and \
                    '*' not in self.T.set_anywhere and not guarded(
                        n, m.tree):
                self.c.bad('attributes', '%s: %s.%s' % (qual, base, n.attr),
                           self.where(m, n), 'class %s has no %s' % (
                               k[1], n.attr))
                return
            ds = mem.get(a, [])
            if ds and all(isinstance(d, ast.FunctionDef) and kind(d) ==
                          'plain' for _, d in ds) and tested(n):
                self.c.bad('attributes', '%s: %s.%s tested' % (
                    qual, base, n.attr), self.where(m, n),
                    'a method is tested instead of called')
            return
        top = base.split('.')[0]
        if top in shadow:
            return
        r = self.T.resolve(m.name, n.value)
        if r is None:
            return
        if r[0] == 'module' and r[1] in self.T.mods:
            self.count += 1
            ok = n.attr in self.T.top[r[1]] or r[1] + '.' + n.attr in \
                self.T.mods or r[1] in self.T.open or n.attr in BUILTIN
            if not ok:
                self.c.bad('attributes', '%s: %s.%s' % (qual, base, n.attr),
                           self.where(m, n), 'module %s defines no %s' % (
                               r[1], n.attr))
        elif r[0] == 'ext' and self.stubs.get(r[1]):
            self.count += 1
            if n.attr not in self.stubs[r[1]] and not guarded(n, m.tree) \
                    and not n.attr.startswith('_'):
                self.c.bad('attributes', '%s: %s.%s' % (qual, base, n.attr),
                           self.where(m, n), 'the installed %s has no %s' % (
                               r[1], n.attr))

    def call(self, m, n, qual, types, shadow):
        f = n.func
        fn, skip, what = None, 0, dotted(f)
        if isinstance(f, ast.Name):
            if f.id in shadow:
                return
            r = self.T.resolve(m.name, f)
        elif isinstance(f, ast.Attribute):
            base = dotted(f.value)
            r = None
            if base in types:
                k = types[base]
                hit = self.T.method(k, f.attr)
                if hit is None or self.overridden(k, f.attr):
                    return
                fn = hit[1]
                q = kind(fn)
                if q in ('property', 'other'):
                    return
                skip = 0 if q == 'static' else 1
            elif base and base.split('.')[0] in shadow:
                return
            else:
                r = self.T.resolve(m.name, f)
                if r is None and base:
                    b = self.T.resolve(m.name, f.value)
                    if b and b[0] == 'class':
                        k = (b[1][0].name, b[1][1].name)
                        hit = self.T.method(k, f.attr) if k in \
                            self.T.classes else None
                        if hit is None:
                            return
                        fn = hit[1]
                        q = kind(fn)
                        if q in ('property', 'other'):
                            return
                        skip = 1 if q == 'class' else 0
        else:
            return
        if fn is None:
            if r is None:
                return
            if r[0] == 'def':
                fn = r[1][1]
                if kind(fn) != 'plain' or not isinstance(fn,
                                                         ast.FunctionDef):
                    return
            elif r[0] == 'class':
                k = (r[1][0].name, r[1][1].name)
                if k not in self.T.classes or self.T.mro(k) is None:
                    return
                hit = self.T.method(k, '__init__')
                if any(self.T.classes[q].decorator_list or
                       self.T.classes[q].keywords or self.defines(
                           q, '__new__') for q in self.T.mro(k)):
                    return
                if hit is None:
                    if n.args or n.keywords:
                        self.c.bad('calls', '%s: %s' % (qual, what),
                                   self.where(m, n), 'takes no arguments')
                    return
                fn, skip = hit[1], 1
            else:
                return
        if any(isinstance(a, ast.Starred) for a in n.args) or any(
                k.arg is None for k in n.keywords):
            return
        why = accepts(fn.args, len(n.args), [k.arg for k in n.keywords],
                      skip)
        self.count += 1
        self.c.need(why is None, 'calls', '%s: %s' % (qual, what),
                    self.where(m, n), why)

    def overridden(self, k, name):
        return any(self.defines(s, name) for s in (self.T.family(k) or ())
                   if s not in (self.T.mro(k) or ()))

    def defines(self, k, name):
        return any(isinstance(n, ast.FunctionDef) and n.name == name
                   for n in self.T.classes[k].body)

    def format(self, m, n, qual, nodes):
        f = n.func
        if not (isinstance(f, ast.Attribute) and f.attr == 'format'):
            return
        s = constant(f.value)
        if s is None and isinstance(f.value, ast.Name):
            vs = [x for x in nodes if isinstance(x, (
                ast.Assign, ast.AugAssign)) and any(
                    isinstance(t, ast.Name) and t.id == f.value.id
                    for t in (x.targets if isinstance(x, ast.Assign)
                              else [x.target]))]
            if len(vs) == 1 and isinstance(vs[0], ast.Assign):
                s = constant(vs[0].value)
        if s is None:
            return
        try:
            fields = list(fields_of(s))
        except ValueError as e:
            self.c.bad('formats', '%s: %r' % (qual, s[:40]), self.where(m, n),
                       str(e))
            return
        if any(isinstance(a, ast.Starred) for a in n.args) or any(
                k.arg is None for k in n.keywords):
            return
        auto = 0
        why = None
        kws = {k.arg for k in n.keywords}
        manual = False
        for x in fields:
            head = x.split('.')[0].split('[')[0]
            if head == '':
                i, auto = auto, auto + 1
            elif head.isdigit():
                i, manual = int(head), True
            else:
                if head not in kws:
                    why = 'no value for {%s}' % head
                continue
            if i >= len(n.args):
                why = 'placeholder %d of %d values' % (i, len(n.args))
        if auto and manual:
            why = 'numbered and automatic placeholders mixed'
        self.c.need(why is None, 'formats', '%s: %r' % (qual, s.strip()[:40]),
                    self.where(m, n), why)

    def percent(self, m, n, qual):
        s = constant(n.left)
        if s is None:
            return
        specs = re.findall(r'%(\((\w+)\))?[-#0 +]*(\*|\d+)?(\.(\*|\d+))?'
                           r'[hlL]?([diouxXeEfFgGcrsa%])', s)
        if any(x[0] or x[2] == '*' or x[4] == '*' for x in specs):
            return
        k = len([x for x in specs if x[5] != '%'])
        if isinstance(n.right, ast.Tuple):
            if any(isinstance(e, ast.Starred) for e in n.right.elts):
                return
            self.c.need(len(n.right.elts) == k, 'formats', '%s: %r' % (
                qual, s.strip()[:40]), self.where(m, n),
                '%d placeholders, %d values' % (k, len(n.right.elts)))


def fields_of(s):
    for _, name, spec, _ in string.Formatter().parse(s):
        if name is not None:
            yield name
            for x in fields_of(spec or ''):
                yield x


def constant(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        return n.value
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        a, b = constant(n.left), constant(n.right)
        return None if a is None or b is None else a + b
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
        a, b = n.left, n.right
        if isinstance(a, ast.Constant) and isinstance(a.value, int):
            a, b = b, a
        s = constant(a)
        if s is not None and isinstance(b, ast.Constant) and isinstance(
                b.value, int):
            return s * b.value
    if isinstance(n, ast.JoinedStr):
        return None
    return None


def own_expr(e):
    out = []

    def rec(n):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, FUN + COMP):
                if isinstance(x, COMP):
                    out.append(x.generators[0].iter)
                    rec(x.generators[0].iter)
                continue
            out.append(x)
            rec(x)
    if isinstance(e, COMP):
        out.append(e.generators[0].iter)
        rec(e.generators[0].iter)
    elif not isinstance(e, FUN):
        rec(e)
    return out


def tested(n):
    """The value is used for its truth or in arithmetic."""
    p = getattr(n, '_parent', None)
    if isinstance(p, (ast.If, ast.While, ast.IfExp)):
        return p.test is n
    if isinstance(p, (ast.BoolOp, ast.BinOp)):
        return True
    if isinstance(p, ast.UnaryOp):
        return True
    if isinstance(p, ast.Compare):
        return not any(isinstance(o, (ast.Is, ast.IsNot)) for o in p.ops)
    return False


def updated(n):
    """Target of an augmented assignment or deletion: a read first."""
    p = getattr(n, '_parent', None)
    return isinstance(p, ast.AugAssign) and p.target is n or isinstance(
        getattr(n, 'ctx', None), ast.Del)


def guarded(n, tree):
    """Inside a try that catches the failure, or a hasattr test."""
    p = n
    while getattr(p, '_parent', None) is not None:
        q = p._parent
        if isinstance(q, ast.Try) and p in q.body:
            for h in q.handlers:
                names = [h.type] if not isinstance(h.type, ast.Tuple) else \
                    h.type.elts
                for t in names:
                    if t is None or dotted(t) in (
                            'Exception', 'BaseException', 'NameError',
                            'AttributeError', 'ImportError'):
                        return True
        if isinstance(q, ast.If) and any(
                isinstance(x, ast.Call) and dotted(x.func) in (
                    'hasattr', 'getattr') for x in ast.walk(q.test)):
            return True
        p = q
    return False


def P_lint(c):
    c.rule('names', 'every name read is bound in its scope, and no local is '
           'read where no path has assigned it')
    c.rule('imports', 'every project module and name imported exists')
    c.rule('attributes', 'attributes of objects of project classes, of '
           'project modules and of the installed NumPy exist; methods are '
           'not tested for truth instead of called')
    c.rule('calls', 'calls of project functions, methods and classes fit '
           'their signatures')
    c.rule('formats', 'format strings have a value for each placeholder')
    L = Lint(c)
    L.run()
    c.notes.append('%d uses resolved' % L.count)
    if L.P.errors:
        for rel, e in L.P.errors:
            c.bad('names', rel, rel, 'does not parse: %s' % e)


CHECKS = {'P24': P_lint}
