"""Module table of the analysed tree: parsed sources, import resolution, class
hierarchy."""
import ast
import warnings
import os

from . import pyx

ROOT = os.environ.get('QUANTAS_REPO', '/repo')


warnings.filterwarnings('ignore', category=SyntaxWarning)


class AnalysisError(Exception):
    """An anchor is missing or nothing could be analysed: error exit."""


class Module(object):
    def __init__(self, name, path, tree, externs, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.externs = externs
        self.is_pkg = is_pkg
        self.rel = os.path.relpath(path, ROOT)

    def __repr__(self):
        return 'Module(%s)' % self.name

    def package(self):
        return self.name if self.is_pkg else self.name.rpartition('.')[0]


class Project(object):
    def __init__(self, root=None, package='quantas'):
        self.root = root or ROOT
        self.package = package
        self.modules = {}
        self.errors = []
        self._load()

    def _load(self):
        base = os.path.join(self.root, self.package)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                stem, ext = os.path.splitext(f)
                if ext not in ('.py', '.pyx'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.root)
                name = os.path.splitext(rel)[0].replace(os.sep, '.')
                is_pkg = stem == '__init__'
                if is_pkg:
                    name = name.rpartition('.')[0]
                with open(path, encoding='utf-8') as fh:
                    text = fh.read()
                try:
                    if ext == '.pyx':
                        tree, externs = pyx.parse(text, path)
                    else:
                        tree, externs = ast.parse(text, path), []
                except SyntaxError as exc:
                    self.errors.append((rel, str(exc)))
                    continue
                # a .py next to a .pyx of the same name would shadow it
                if name in self.modules and ext == '.py':
                    continue
                self.modules[name] = Module(name, path, tree, externs, is_pkg)
        if not self.modules:
            raise AnalysisError('no sources below ' + base)
        for m in self.modules.values():
            for node in ast.walk(m.tree):
                for child in ast.iter_child_nodes(node):
                    child._parent = node

    def module(self, name):
        try:
            return self.modules[name]
        except KeyError:
            raise AnalysisError('module %s not found' % name)

    def resolve_import(self, mod, level, target):
        """Absolute module name of ``from <level dots><target> import``."""
        if level == 0:
            return target
        parts = mod.package().split('.')
        if level > 1:
            parts = parts[:-(level - 1)]
        base = '.'.join(parts)
        return base + '.' + target if target else base

    # -- structural queries ---------------------------------------------------
    def bindings(self, modname, _seen=None):
        """Top-level names of a module: name -> (kind, payload).

        kinds: 'module' dotted, 'def' node, 'class' node, 'assign' node,
        'ext' dotted."""
        key = '_bind'
        m = self.module(modname)
        if hasattr(m, key):
            return getattr(m, key)
        out = {}
        setattr(m, key, out)

        def visit(body):
            for st in body:
                if isinstance(st, ast.Import):
                    for a in st.names:
                        if a.asname:
                            out[a.asname] = self._mod_or_ext(a.name)
                        else:
                            top = a.name.split('.')[0]
                            out[top] = self._mod_or_ext(top)
                elif isinstance(st, ast.ImportFrom):
                    src = self.resolve_import(m, st.level, st.module or '')
                    for a in st.names:
                        if a.name == '*':
                            if src in self.modules:
                                out.update(self.bindings(src))
                            continue
                        out[a.asname or a.name] = self.lookup(src, a.name, m,
                                                              st)
                elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    out[st.name] = ('def', (m, st))
                elif isinstance(st, ast.ClassDef):
                    out[st.name] = ('class', (m, st))
                elif isinstance(st, (ast.Assign, ast.AnnAssign,
                                     ast.AugAssign)):
                    tg = st.targets if isinstance(st, ast.Assign) \
                        else [st.target]
                    for t in tg:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                out[n.id] = ('assign', (m, st))
                elif isinstance(st, (ast.If, ast.With, ast.For, ast.While)):
                    visit(st.body)
                    visit(getattr(st, 'orelse', []))
                elif isinstance(st, ast.Try):
                    visit(st.body)
                    for h in st.handlers:
                        visit(h.body)
                    visit(st.orelse)
                    visit(st.finalbody)
        visit(m.tree.body)
        for e in m.externs:
            out.setdefault(e, ('ext', 'libc.math.' + e))
        return out

    def _mod_or_ext(self, dotted):
        if dotted in self.modules:
            return ('module', dotted)
        return ('ext', dotted)

    def lookup(self, src, name, frm=None, st=None):
        if src in self.modules:
            sub = src + '.' + name
            b = self.bindings(src)
            if name in b:
                return b[name]
            if sub in self.modules:
                return ('module', sub)
            return ('missing', (src, name))
        if src.split('.')[0] == self.package:
            return ('missing', (src, name))
        return ('ext', src + '.' + name)

    def func(self, modname, qual):
        """AST node of a function ('f' or 'Class.f')."""
        parts = qual.split('.')
        body = self.module(modname).tree.body
        node = None
        for p in parts:
            node = None
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)) and \
                        st.name == p:
                    node = st
            if node is None:
                b = self.bindings(modname)
                if p in b and b[p][0] in ('def', 'class'):
                    node = b[p][1][1]
                else:
                    raise AnalysisError('%s.%s not found' % (modname, qual))
            body = node.body
        return node

    def mro(self, modname, clsname):
        """[(Module, ClassDef), ...] project part of the linearisation."""
        out = []
        b = self.bindings(modname).get(clsname)
        if not b or b[0] != 'class':
            return out
        m, node = b[1]
        out.append((m, node))
        for base in node.bases:
            if isinstance(base, ast.Name):
                for x in self.mro_of_name(m.name, base.id):
                    if x not in out:
                        out.append(x)
        return out

    def mro_of_name(self, modname, name):
        b = self.bindings(modname).get(name)
        if not b or b[0] != 'class':
            return []
        m, node = b[1]
        return self.mro(m.name, node.name)

    def functions(self):
        """Every function of the tree: (module, qualname, node)."""
        for name in sorted(self.modules):
            m = self.modules[name]
            stack = [(m.tree, '')]
            while stack:
                node, q = stack.pop()
                for ch in ast.iter_child_nodes(node):
                    if isinstance(ch, (ast.FunctionDef,
                                       ast.AsyncFunctionDef)):
                        qq = (q + '.' if q else '') + ch.name
                        yield m, qq, ch
                        stack.append((ch, qq))
                    elif isinstance(ch, ast.ClassDef):
                        stack.append((ch, (q + '.' if q else '') + ch.name))
                    else:
                        stack.append((ch, q))
