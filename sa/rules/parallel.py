"""Parallel kernels do not depend on the number of threads (P25)."""
import ast

RANGE = ('prange',)


def names_of(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)}


def is_prange(st):
    return isinstance(st, ast.For) and isinstance(st.iter, ast.Call) and (
        (isinstance(st.iter.func, ast.Name) and st.iter.func.id in RANGE) or
        (isinstance(st.iter.func, ast.Attribute) and
         st.iter.func.attr in RANGE))


def parallel_blocks(c):
    """(module, function, loop) for each outermost parallel loop, and the
    functions without any."""
    for m, q, node in c.P.functions():
        if not m.rel.endswith('.pyx'):
            continue
        loops = []

        def walk(n):
            if is_prange(n):
                loops.append(n)
                return
            for ch in ast.iter_child_nodes(n):
                walk(ch)
        walk(node)
        yield m, q, node, loops


def base_name(t):
    while isinstance(t, (ast.Subscript, ast.Attribute)):
        t = t.value
    return t.id if isinstance(t, ast.Name) else None


def indices(t):
    """Index expressions of a subscript chain, outermost array first."""
    out = []
    while isinstance(t, ast.Subscript):
        s = t.slice
        out = (list(s.elts) if isinstance(s, ast.Tuple) else [s]) + out
        t = t.value
    return out


def dump(v):
    return ast.dump(v) if isinstance(v, ast.AST) else (
        v[0], [ast.dump(e) for e in v[1]])


def number(e, var, value):
    """An index expression at one value of the loop variable."""
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return e.value
    if isinstance(e, ast.Name) and e.id == var:
        return value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        x = number(e.operand, var, value)
        return None if x is None else -x
    if isinstance(e, ast.BinOp):
        x, y = number(e.left, var, value), number(e.right, var, value)
        if x is None or y is None:
            return None
        if isinstance(e.op, ast.Add):
            return x + y
        if isinstance(e.op, ast.Sub):
            return x - y
        if isinstance(e.op, ast.Mult):
            return x * y
    return None


class Body(object):
    """One parallel loop: which memory do its iterations touch?"""

    def __init__(self, c, mod, func, loop):
        self.c, self.mod, self.func, self.loop = c, mod, func, loop
        self.bad, self.und = [], []
        self.alias = self.groups(func)
        self.stores, self.loads = [], []
        self.analyse(loop.body, {loop.target.id: 1}, {}, 0)
        self.private(loop.body, loop.target.id)
        self.conflicts()

    def groups(self, func):
        """Arrays that may share memory: name -> representative."""
        rep = {}

        def find(x):
            while rep.get(x, x) != x:
                x = rep[x]
            return x
        for st in ast.walk(func):
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value \
                    is not None:
                tg = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in tg:
                    if not isinstance(t, ast.Name):
                        continue
                    v = st.value
                    if isinstance(v, ast.Call) and isinstance(
                            v.func, ast.Attribute) and v.func.attr in (
                                'asarray', 'ascontiguousarray',
                                'asanyarray') and v.args:
                        v = v.args[0]
                    src = base_name(v)
                    if src and isinstance(v, (ast.Name, ast.Subscript)):
                        rep[find(t.id)] = find(src)
        return find

    def affine(self, e, own):
        """Coefficient of the parallel variable in e; None when e depends on
        it in another way."""
        if isinstance(e, ast.Name):
            return own.get(e.id, 0)
        if isinstance(e, ast.Constant):
            return 0
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub,
                                                            ast.UAdd)):
            a = self.affine(e.operand, own)
            return None if a is None else (-a if isinstance(
                e.op, ast.USub) else a)
        if isinstance(e, ast.BinOp):
            a, b = self.affine(e.left, own), self.affine(e.right, own)
            if a == 0 and b == 0:
                return 0
            if a is None or b is None:
                return None
            if isinstance(e.op, ast.Add):
                return a + b
            if isinstance(e.op, ast.Sub):
                return a - b
            if isinstance(e.op, ast.Mult):
                for x, k in ((e.left, b), (e.right, a)):
                    if isinstance(x, ast.Constant) and isinstance(
                            x.value, int) and x.value != 0:
                        return k * x.value
            return None
        if not names_of(e) & {n for n, k in own.items() if k != 0}:
            return 0
        return None

    def key(self, ix, own):
        """The indices that identify the iteration, as text."""
        out = []
        for k, e in enumerate(ix):
            a = self.affine(e, own)
            if a:
                out.append((k, ast.dump(e)))
        return tuple(out)

    def inline(self, e, env):
        class T(ast.NodeTransformer):
            def visit_Name(s, n):
                return env.get(n.id, n)
        import copy
        return T().visit(copy.deepcopy(e))

    def analyse(self, body, own, env, depth):
        """own: coefficient of the loop variable; env: names standing for
        expressions in it, and '@name' for rows of an array."""
        for st in body:
            for n in self.statements(st):
                self.statement(n, own, env, depth)

    def statements(self, st):
        yield st

    def locate(self, n, env, top):
        """(array, index expressions) of an element or row; rows bound to a
        name or handed to a function keep the indices they were taken with."""
        b = base_name(n)
        if b is None:
            return None, []
        ix = [self.inline(e, env) for e in indices(n)]
        if '@' + b in env:
            arr, pre = env['@' + b]
            return arr, pre + ix
        return (self.alias(b) if top else 'local ' + b), ix

    def reads(self, e, own, env, depth):
        if e is None:
            return
        seen = set()
        for x in ast.walk(e):
            if isinstance(x, ast.Subscript) and id(x) not in seen:
                for y in ast.walk(x):
                    if y is not x and isinstance(y, ast.Subscript) and \
                            base_name(y) == base_name(x):
                        seen.add(id(y))
                arr, ix = self.locate(x, env, depth == 0)
                if arr:
                    self.loads.append((arr, self.key(ix, own), x, ix))
            if isinstance(x, ast.Call):
                self.call(x, own, env, depth)

    def call(self, x, own, env, depth):
        name = x.func.id if isinstance(x.func, ast.Name) else None
        f = self.local(name)
        if f is None or depth > 3:
            return
        for g in ast.walk(f):
            if isinstance(g, ast.Global):
                self.bad.append((x, '%s() writes the shared variable %s' % (
                    name, ', '.join(g.names))))
        ps = [a.arg for a in f.args.args]
        o2, e2 = {n: k for n, k in own.items() if n == self.loop.target.id}, {}
        for p, a in list(zip(ps, x.args)) + [(k.arg, k.value)
                                             for k in x.keywords if k.arg]:
            e2[p] = self.inline(a, env)
            if isinstance(a, (ast.Name, ast.Subscript)):
                arr, ix = self.locate(a, env, depth == 0)
                if arr and not arr.startswith('local '):
                    e2['@' + p] = (arr, ix)
        body = [s for s in f.body if not (isinstance(s, ast.Expr) and
                                          isinstance(s.value, ast.Constant))]
        self.analyse(body, o2, e2, depth + 1)

    def local(self, name):
        for m, q, node in self.c.P.functions():
            if m is self.mod and q == name:
                return node
        return None

    def statement(self, st, own, env, depth):
        R = lambda e: self.reads(e, own, env, depth)
        if isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            if st.value is None:
                return
            R(st.value)
            tg = st.targets if isinstance(st, ast.Assign) else [st.target]
            for t in tg:
                for u in (t.elts if isinstance(t, (ast.Tuple, ast.List))
                          else [t]):
                    if isinstance(u, ast.Subscript):
                        for e in indices(u):
                            R(e)
                        arr, ix = self.locate(u, env, depth == 0)
                        self.stores.append((arr, self.key(ix, own), u, ix))
                        if isinstance(st, ast.AugAssign):
                            self.loads.append(self.stores[-1])
                    elif isinstance(u, ast.Name) and isinstance(
                            st, (ast.Assign, ast.AnnAssign)):
                        env.pop('@' + u.id, None)
                        if isinstance(st.value, ast.Subscript):
                            arr, ix = self.locate(st.value, env, depth == 0)
                            env['@' + u.id] = (arr, ix)
                        v = self.inline(st.value, env)
                        own.pop(u.id, None)
                        env.pop(u.id, None)
                        if self.affine(v, own):
                            env[u.id] = v
            return
        if isinstance(st, (ast.For, ast.While)):
            if isinstance(st, ast.For):
                R(st.iter)
                if isinstance(st.target, ast.Name):
                    own.pop(st.target.id, None)
                    env.pop(st.target.id, None)
            else:
                R(st.test)
            self.analyse(st.body, own, env, depth)
            self.analyse(st.orelse, own, env, depth)
            return
        if isinstance(st, ast.If):
            R(st.test)
            a, b = dict(own), dict(own)
            ea, eb = dict(env), dict(env)
            self.analyse(st.body, a, ea, depth)
            self.analyse(st.orelse, b, eb, depth)
            own.clear()
            own.update({k: v for k, v in a.items() if b.get(k) == v})
            env.clear()
            env.update({k: v for k, v in ea.items() if k in eb and
                        dump(v) == dump(eb[k])})
            return
        if isinstance(st, ast.With):
            for i in st.items:
                R(i.context_expr)
            self.analyse(st.body, own, env, depth)
            return
        if isinstance(st, (ast.Global, ast.Nonlocal)):
            return
        for f in ('value', 'test', 'exc', 'msg'):
            R(getattr(st, f, None))

    def conflicts(self):
        for arr, key, n, dim in self.stores:
            if arr is None or str(arr).startswith('local '):
                continue
            if not key and self.opaque_index(dim):
                self.und.append((n, 'index of the element of %s' % arr))
            elif not key:
                self.bad.append((n, 'stores an element of %s that other '
                                 'iterations store too' % arr))
        for arr, key, n, dim in self.loads:
            mine = [s for s in self.stores if s[0] == arr]
            for s in mine:
                if s[1] and not set(s[1]) & set(key):
                    self.bad.append((n, 'reads elements of %s that other '
                                     'iterations store' % arr))
                    break

        for i, a in enumerate(self.stores):
            for b in self.stores[:i]:
                if a[0] == b[0] and a[1] and b[1] and not set(a[1]) & set(
                        b[1]) and a[0] and self.overlap(a, b):
                    self.bad.append((a[2], 'stores elements of %s that other '
                                     'iterations store too' % a[0]))

    def overlap(self, a, b):
        """Do k i + c and k i + d meet in different iterations?"""
        for (pa, _), (pb, _) in [(x, y) for x in a[1] for y in b[1]
                                 if x[0] == y[0]]:
            va, vb = [[number(s[3][pa], self.loop.target.id, k)
                       for k in (0, 1)] for s in (a, b)]
            if None in va + vb:
                return False
            k, d = va[1] - va[0], vb[0] - va[0]
            if vb[1] - vb[0] != k or k == 0 or d % k:
                return False
        return True

    def opaque_index(self, ix):
        """An index that may still be different in each iteration."""
        v = self.loop.target.id
        return any(v in names_of(e) and any(isinstance(
            x, (ast.Subscript, ast.Call)) for x in ast.walk(e)) for e in ix)

    # ------------------------------------------------------------ scalars
    def private(self, body, var):
        """A scalar assigned in an iteration is not read before that in the
        iteration (its value would be that of whichever iteration the thread
        ran before)."""
        assigned = set()
        reduced = set()
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and \
                        n.value is not None:
                    tg = n.targets if isinstance(n, ast.Assign) else [
                        n.target]
                    for t in tg:
                        for u in ast.walk(t):
                            if isinstance(u, ast.Name) and isinstance(
                                    u.ctx, ast.Store):
                                assigned.add(u.id)
                elif isinstance(n, ast.For):
                    assigned |= names_of(n.target)
                elif isinstance(n, ast.AugAssign) and isinstance(
                        n.target, ast.Name):
                    reduced.add(n.target.id)
        if reduced - assigned:
            for st in body:
                for n in ast.walk(st):
                    if isinstance(n, ast.AugAssign) and isinstance(
                            n.target, ast.Name) and n.target.id in \
                            reduced - assigned and not isinstance(
                                n.op, (ast.Add, ast.Sub, ast.Mult)):
                        self.bad.append((n, 'accumulates in an operation '
                                         'whose order matters'))
        self.early(body, {var}, assigned)

    def early(self, body, done, assigned):
        """Definite assignment; returns the names assigned on every path."""
        def use(e):
            if e is None:
                return
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) \
                        and x.id in assigned and x.id not in done:
                    self.bad.append((x, '%s still has the value of another '
                                     'iteration' % x.id))
                    done.add(x.id)
        for st in body:
            if isinstance(st, (ast.Assign, ast.AnnAssign)):
                if st.value is None:
                    continue
                use(st.value)
                for t in (st.targets if isinstance(st, ast.Assign)
                          else [st.target]):
                    for u in ast.walk(t):
                        if isinstance(u, ast.Name):
                            if isinstance(u.ctx, ast.Store):
                                done.add(u.id)
                            else:
                                use(u)
            elif isinstance(st, ast.AugAssign):
                use(st.value)
                if isinstance(st.target, ast.Name):
                    if st.target.id in assigned and \
                            st.target.id not in done:
                        self.bad.append((st, '%s still has the value of '
                                         'another iteration' % st.target.id))
                        done.add(st.target.id)
                else:
                    use(st.target)
            elif isinstance(st, ast.If):
                use(st.test)
                a, b = set(done), set(done)
                self.early(st.body, a, assigned)
                self.early(st.orelse, b, assigned)
                done |= a & b
            elif isinstance(st, ast.For):
                use(st.iter)
                inner = set(done) | names_of(st.target)
                self.early(st.body, inner, assigned)
                done |= inner
            elif isinstance(st, ast.While):
                use(st.test)
                self.early(st.body, done, assigned)
            elif isinstance(st, ast.With):
                self.early(st.body, done, assigned)
            else:
                for ch in ast.iter_child_nodes(st):
                    if isinstance(ch, ast.expr):
                        use(ch)


def P_parallel(c):
    c.rule('own-elements', 'in every parallel loop, an element stored is '
           'identified by the loop variable (an index that is a non-constant '
           'affine function of it, helper functions included), and an array '
           'stored in the loop is read only at elements of the same iteration')
    c.rule('own-scalars', 'a scalar assigned in a parallel iteration is '
           'assigned before it is read there; scalars accumulated across '
           'iterations use sums or products only; helpers write no module '
           'variables')
    kernels(c)
    c.notes = getattr(c, 'notes', [])
    for name, text in DEMOS:
        f = ast.parse(text).body[0]
        mod = next(parallel_blocks(c))[0]
        loop = next(n for n in ast.walk(f) if is_prange(n))
        c.control(name, Body(c, mod, f, loop).bad)
    c.assumptions += ['sums and products accumulated across iterations are '
                      'taken as exact, so their order does not matter',
                      'arguments of a kernel do not share memory with each '
                      'other']


def kernels(c, only=None):
    total = 0
    for m, q, node, loops in parallel_blocks(c):
        if only and m.name != only:
            continue
        c.units.add('%s.%s' % (m.name, q))
        if not loops:
            c.ok('own-elements', '%s.%s: sequential' % (m.name, q), '%s:%d' % (
                m.rel, node.lineno))
        for k, loop in enumerate(loops):
            total += 1
            tag = '%s.%s, parallel loop %d' % (m.name, q, k + 1)
            w = '%s:%d' % (m.rel, loop.lineno)
            if not isinstance(loop.target, ast.Name):
                c.undecided('own-elements', tag, w, 'target')
                continue
            b = Body(c, m, node, loop)
            el = [x for x in b.bad if 'iteration' in x[1] and
                  'still' not in x[1] and 'accum' not in x[1]]
            sc = [x for x in b.bad if x not in el]
            for rule, bad in (('own-elements', el), ('own-scalars', sc)):
                if rule == 'own-elements' and b.und and not bad:
                    c.undecided(rule, tag, w, b.und[0][1])
                    continue
                c.need(not bad, rule, tag, '%s:%d' % (m.rel, bad[0][0].lineno)
                       if bad else w, bad[0][1] if bad else '')


DEMOS = [
    ('shared element', 'def f(w, r):\n for i in prange(n):\n  r[0] += w[i]'),
    ('shared column', 'def f(w, r):\n for i in prange(n):\n'
     '  for j in range(m):\n   r[j] = w[i, j]'),
    ('halved index', 'def f(w, r):\n for i in prange(n):\n  r[i // 2] = w[i]'),
    ('neighbour', 'def f(w, r):\n for i in prange(n):\n'
     '  r[i] = r[i - 1] + w[i]'),
    ('carried scalar', 'def f(w, r):\n for i in prange(n):\n  r[i] = last\n'
     '  last = w[i]'),
]

CHECKS = {'P25': P_parallel}
