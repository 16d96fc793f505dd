"""Text files for the interpreter: known lines whose numbers are symbols.

A number symbol is written as a unique decimal; reading that decimal back
gives the symbol, so code that cuts, strips and joins tokens is followed with
Python's own string operations while the values stay symbolic."""
import os
import posixpath
import json
import re

from . import algebra as al
from .algebra import Poly
from .interp import AbsRaise
from .values import *          # noqa

FLOAT = re.compile(r'^[-+]?(?:[0-9][0-9_]*)\.[0-9_]*(?:[eE][-+][0-9]+)?$'
                   r'|^\.[0-9][0-9_]*(?:[eE][-+][0-9]+)?$')
INT = re.compile(r'^[-+]?(?:0|[1-9][0-9_]*)$')


class Numbers(object):
    """Decimal <-> symbol."""

    def __init__(self):
        self.by_value = {}
        self.by_sym = {}
        self.next_f = 0
        self.next_i = 0
        self.fine = False      # decimals that do not end after three digits

    def put(self, p, integer=False):
        """The decimal standing for a term."""
        p = al.as_poly(p)
        c = p.const_value()
        if c is not None:
            return c
        key = (repr(al.show(p, 200)), hash(p), integer)
        if key in self.by_sym:
            return self.by_sym[key]
        if integer:
            self.next_i += 1
            v = Fraction(7001 + self.next_i)
        else:
            self.next_f += 1
            k = self.next_f - 1        # in no particular order
            v = Fraction(601 + 389 * (k // 389) + k * 97 % 389) \
                + Fraction(3, 8)
            if self.fine:
                v += Fraction(1, 10 ** 8)
        self.by_sym[key] = v
        self.by_value[v] = p
        return v

    def get(self, v):
        return self.by_value.get(v, None)

    def text(self, p, spec='.4f', integer=False):
        v = self.put(p, integer)
        return format_number(v, spec)

    def read(self, text):
        """Value of a numeric literal as float() reads it."""
        t = text.strip()
        if not re.match(r'^[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$', t):
            return None
        v = Fraction(t)
        r = self.get(v)
        if r is None and self.get(-v) is not None:
            r = -self.get(-v)
        if r is None and '.' in t and not self.fine:
            # a decimal that rounds one of the numbers given
            nd = len(re.split('[eE]', t.split('.')[1])[0])
            spec = ('.%dE' if 'e' in t.lower() else '.%df') % nd
            near = Fraction(int(abs(v))) if abs(v) > 600 else None
            for x in self.by_value if near is not None and nd else ():
                if abs(x - abs(v)) < 1 and Fraction(
                        format(float(x), spec)) == abs(v):
                    return self.by_value[x] if v > 0 else -self.by_value[x]
        return r if r is not None else al.as_poly(v)


def format_number(v, spec):
    if spec.endswith('s') or not spec:
        return str(int(v)) if v.denominator == 1 else repr(float(v))
    try:
        if spec[-1] in 'di' or (spec[-1].isdigit() and v.denominator == 1):
            s = spec.replace('i', 'd')
            if s.startswith('-'):          # printf left alignment
                s = '<' + s[1:]
            return format(int(v), s)
        s = spec
        if s.startswith('-'):
            s = '<' + s[1:]
        return format(float(v), s)
    except ValueError:
        return ('%' + spec) % float(v)


def zero(x):
    return not isinstance(x, (str, Opaque)) and \
        al.as_poly(x).const_value() == 0


class Handle(object):
    """An open file: how it was opened, and whether it still is."""

    def __init__(self, path, mode, key, node=None):
        self.path, self.mode, self.key = path, mode, key
        self.node = node
        self.open = True

    def close(self, I, *rest):
        # closed on some paths only: later uses are not judged
        self.open = False if I.cond() == al.as_poly(1) or \
            self.open is False else None

    def need(self, I, node=None):
        if self.open is False:
            I.event('raise', 'ValueError', ['closed file'], {}, node)
            raise AbsRaise(Opaque(('exc', 'ValueError', 'closed file')), node)

    def held(self, I):
        """Still reachable from an object, list or dictionary."""
        return self.open is not False and any(
            isinstance(v, Opaque) and v.key == self.key
            for c in I.heap.values() if isinstance(c, (ObjC, ClassC))
            for v in (c.fields if isinstance(c, ObjC) else c.attrs).values())


class Disk(object):
    """Files of one run: what is read is given, what is written is kept."""
    all = []          # every disk of the check
    old = None        # content every file has before it is written

    def __init__(self, I, numbers=None):
        self.I = I
        self.n = numbers or Numbers()
        self.files = {}
        self.out = {}
        self.count = 0
        self.handles = []
        self.given = set()
        self.tail = {}        # what is left of an older file behind
        self.gone = set()
        self.yaml = {}
        Disk.all.append(self)
        I.tokens = self.n
        I.models['builtin.open'] = self.open
        I.models['json.dumps'] = self.dumps
        self.dirs = set()
        I.models['os.path.exists'] = self.exists
        I.models['os.path.isfile'] = lambda I, a, k, n: \
            self.exists(I, a, k, n) and a[0] not in self.dirs
        I.models['os.path.isdir'] = lambda I, a, k, n: \
            self.exists(I, a, k, n) and a[0] in self.dirs
        for f in ('abspath', 'realpath'):
            I.models['os.path.' + f] = self.absolute
        for f in ('remove', 'unlink'):
            I.models['os.' + f] = self.remove
        for f in ('rename', 'replace'):
            I.models['os.' + f] = self.rename
        I.models['shutil.move'] = self.rename
        I.models['os.path.samefile'] = lambda I, a, k, n: \
            self.absolute(I, a[:1], k, n) == self.absolute(I, a[1:], k, n)
        I.models['os.path.splitext'] = self.splitext
        I.models['os.path.basename'] = self.basename
        I.models['yaml.safe_load'] = self.load_yaml
        I.models['yaml.load'] = self.load_yaml

    def add(self, path, text):
        if isinstance(text, (list, tuple)):
            text = '\n'.join(text) + '\n'
        self.given.add(path)
        self.files[path] = text.splitlines(True)

    def present(self, path):
        return path in self.files or path in self.out or path in self.dirs \
            or bool(self.old and path not in self.gone)

    def before(self, path):
        return list(self.files.get(
            path, [] if path in self.gone else self.old or []))

    def content(self, path):
        if path not in self.out:
            return self.before(path)
        if any(h.path == path and h.open is not False and h.mode != 'r'
               for h in self.handles):
            raise Imprecise('reading what is being written')
        return self.text(path).splitlines(True)

    def sure(self, I, *paths):
        if I.cond() != al.as_poly(1) or not all(
                isinstance(p, str) for p in paths):
            raise Imprecise('file removed or renamed')

    def remove(self, I, a, k, node):
        self.sure(I, a[0])
        if not self.present(a[0]):
            raise AbsRaise(Opaque(('exc', 'FileNotFoundError')), node)
        self.out.pop(a[0], None)
        self.files.pop(a[0], None)
        self.tail.pop(a[0], None)
        self.gone.add(a[0])

    def rename(self, I, a, k, node):
        self.sure(I, *a[:2])
        if not self.present(a[0]):
            raise AbsRaise(Opaque(('exc', 'FileNotFoundError')), node)
        new = self.out[a[0]] if a[0] in self.out else self.before(a[0])
        tail = self.tail.get(a[0])
        if a[0] in self.out and any(
                h.path == a[0] and h.open is not False
                for h in self.handles):
            raise Imprecise('renaming an open file')
        self.remove(I, a, k, node)
        self.out[a[1]] = new
        self.tail.pop(a[1], None)
        if tail:
            self.tail[a[1]] = tail

    def exists(self, I, a, k, n):
        if isinstance(a[0], str):
            return self.present(a[0])
        raise Imprecise('path')

    def absolute(self, I, a, k, n):
        if isinstance(a[0], str):
            return posixpath.normpath(posixpath.join('/work', a[0]))
        raise Imprecise('path')

    def splitext(self, I, a, k, n):
        if isinstance(a[0], str):
            return os.path.splitext(a[0])
        b = I.key(a[0])
        return (Opaque(('stem', b), str=True), Opaque(('ext', b), str=True))

    def basename(self, I, a, k, n):
        if isinstance(a[0], str):
            return os.path.basename(a[0])
        return Opaque(('basename', I.key(a[0])), str=True)

    def open(self, I, a, k, node):
        path = a[0]
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        if not isinstance(path, str) or not isinstance(mode, str):
            raise Imprecise('open of an unknown path')
        I.event('io', 'open', a, k, node)
        self.count += 1
        name = 'mock.file%d' % self.count
        if 'r' in mode and not self.present(path):
            raise AbsRaise(Opaque(('exc', 'FileNotFoundError')), node)
        h = Handle(path, mode, ('file', path, self.count), node)
        self.handles.append(h)
        if 'r' in mode and '+' not in mode:
            return self.reader(I, path, name, h)
        before = self.before(path)
        if 'x' in mode and self.present(path):
            raise AbsRaise(Opaque(('exc', 'FileExistsError')), node)
        parts = [] if 'w' in mode or 'x' in mode else self.out[path] \
            if path in self.out else before
        self.tail.pop(path, None)
        if 'r' in mode:               # written over the older text
            if path in self.out and parts:
                raise Imprecise('changing what was written')
            self.tail[path], parts = parts, []
        self.out[path] = parts
        st = {'pos': 'end' if 'a' in mode else 'start'}

        def write(I, a, k, n):
            h.need(I, n)
            if I.cond() != al.as_poly(1):
                parts.append(Opaque(('conditional',)))
            if st['pos'] == 'start' and parts and 'a' not in mode:
                raise Imprecise('file position')
            if a[0] is None or isinstance(a[0], (int, float, Poly, tuple)):
                I.event('raise', 'TypeError', list(a), {}, n)
                raise AbsRaise(Opaque(('exc', 'TypeError', 'write')), n)
            parts.append(a[0])
            st['pos'] = 'end'

        def writelines(I, a, k, n):
            h.need(I, n)
            xs = I.iter_concrete(a[0])
            if xs is None:
                raise Imprecise('writelines')
            if st['pos'] == 'start' and parts and 'a' not in mode:
                raise Imprecise('file position')
            parts.extend(xs)
            st['pos'] = 'end'

        def seek(I, a, k, n):
            h.need(I, n)
            if len(a) == 1 and zero(a[0]):
                st['pos'] = 'start'
            elif 'a' not in mode:
                raise Imprecise('file position')

        def truncate(I, a, k, n):
            h.need(I, n)
            if I.cond() != al.as_poly(1) or (
                    a and not zero(a[0])):
                raise Imprecise('truncate')
            if a or st['pos'] == 'start':
                del parts[:]
            self.tail.pop(path, None)
        I.models[name + '.seek'] = seek
        I.models[name + '.truncate'] = truncate
        I.models[name + '.write'] = write
        I.models[name + '.writelines'] = writelines
        I.models[name + '.close'] = h.close
        I.models[name + '.flush'] = lambda I, a, k, n: h.need(I, n)
        return Opaque(h.key, leave=h.close, handle=h, attrs={
            q: Ext(name + '.' + q) for q in ('write', 'writelines', 'close',
                                             'flush', 'seek', 'truncate')})

    def reader(self, I, path, name, h):
        lines = self.content(path)
        st = {'pos': 0}

        def check(I):
            h.need(I)
            if st['pos'] is None or I.cond() != al.as_poly(1):
                raise Imprecise('file position')

        def readline(I, a, k, n):
            check(I)
            p = st['pos']
            st['pos'] = min(p + 1, len(lines))
            return lines[p] if p < len(lines) else ''

        def readlines(I, a, k, n):
            check(I)
            p = st['pos']
            st['pos'] = len(lines)
            return I.new_list(lines[p:])

        def read(I, a, k, n):
            check(I)
            p = st['pos']
            st['pos'] = len(lines)
            return ''.join(lines[p:])

        def it(I):
            check(I)
            p = st['pos']
            st['pos'] = None
            return lines[p:]
        I.models[name + '.readline'] = readline
        I.models[name + '.readlines'] = readlines
        I.models[name + '.read'] = read
        I.models[name + '.close'] = h.close
        return Opaque(h.key, lines=it, path=path, leave=h.close, handle=h,
                      attrs={
            q: Ext(name + '.' + q) for q in ('read', 'readline', 'readlines',
                                             'close')})

    # -- text written by the code
    def text(self, path):
        """The written file, each printed term replaced by its decimal."""
        r = []
        for p in self.out[path]:
            r.append(self.render(p))
        r = ''.join(r)
        return r + ''.join(self.render(p) for p in self.tail.get(
            path, ()))[len(r):]

    def reread(self, path):
        """What was written to the file is what later reading finds."""
        if path not in self.out:
            raise AbsRaise(Opaque(('exc', 'FileNotFoundError', path)), None)
        return self.content(path)

    def render(self, p):
        if isinstance(p, str):
            return p
        k = p.key if isinstance(p, Opaque) else p
        if isinstance(k, tuple) and k and k[0] == 'cat':
            return ''.join(self.render(x) for x in k[1:])
        if isinstance(k, tuple) and len(k) == 2 and k[0] == 'opaque':
            return self.render(k[1])
        if isinstance(k, tuple) and len(k) == 3 and k[0] == 'fmt':
            v = k[2]
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'poly':
                v = v[1]
            spec = k[1]
            if not isinstance(v, Poly):
                # a text in a field of some width
                v = self.render(v)
                try:
                    return format(v, spec)
                except ValueError:
                    raise Imprecise('written value %r' % (v,))
            return format_number(self.n.put(v, spec[-1:] in 'di' and
                                            bool(spec)), spec)
        raise Imprecise('written text %r' % (k,))

    # -- YAML (the block/flow subset these files use)
    def load_yaml(self, I, a, k, node):
        f = a[0]
        path = f.info.get('path') if isinstance(f, Opaque) else None
        if path in self.yaml:
            return lift(I, self.n, self.yaml[path])
        if path is None or not self.present(path):
            raise Imprecise('YAML stream')
        try:
            doc = parse_yaml(''.join(self.content(path)))
        except YamlError:
            raise AbsRaise(Opaque(('exc', 'YAMLError')), node)
        return lift(I, self.n, doc)


    def dumps(self, I, a, k, node):
        if len(a) == 1 and isinstance(a[0], str) and all(
                isinstance(x, (bool, type(None))) for x in k.values()):
            return json.dumps(a[0], **k)
        return Opaque(('call', 'json.dumps') + tuple(I.key(x) for x in a),
                      str=True)


class YamlError(Exception):
    pass


def lift(I, n, v):
    if isinstance(v, dict):
        return I.new_dict({k: lift(I, n, x) for k, x in v.items()})
    if isinstance(v, list):
        return I.new_list([lift(I, n, x) for x in v])
    if isinstance(v, Fraction):
        r = n.get(v)
        if r is None and n.get(-v) is not None:
            r = -n.get(-v)
        return r if r is not None else al.as_poly(v)
    return v


def scalar(t):
    t = t.strip()
    if t == '' or t in ('~', 'null', 'Null', 'NULL'):
        return None
    if t[0] == "'" and re.match(r"^'([^']|'')*'$", t):
        return t[1:-1].replace("''", "'")
    if t[0] == '"' and re.match(r'^"([^"\\]|\\.)*"$', t):
        try:
            return json.loads(t)
        except ValueError:
            raise YamlError(t)
    if t[0] in '"\'':
        raise YamlError(t)
    if INT.match(t) or FLOAT.match(t):
        return Fraction(t.replace('_', ''))
    if t in ('true', 'True', 'yes', 'on'):
        return True
    if t in ('false', 'False', 'no', 'off'):
        return False
    if t[0] in '[]{}&*!|>%@`' or ': ' in t or t.endswith(':'):
        raise YamlError(t)
    return t


def flow(t):
    """A flow sequence or scalar."""
    t = t.strip()
    if t.startswith('['):
        if not t.endswith(']'):
            raise YamlError(t)
        out, depth, cur = [], 0, ''
        body = t[1:-1]
        for ch in body:
            if ch == '[':
                depth += 1
            if ch == ']':
                depth -= 1
            if depth < 0:
                raise YamlError(t)
            if ch == ',' and depth == 0:
                out.append(cur)
                cur = ''
            else:
                cur += ch
        if depth:
            raise YamlError(t)
        if cur.strip():
            out.append(cur)
        return [flow(x) for x in out]
    return scalar(t)


QUOTED = re.compile(r'"(?:[^"\\]|\\.)*"|\'(?:[^\']|\'\')*\'')


def uncomment(t):
    k = 0
    while k < len(t):
        if t[k] in '"\'' and (k == 0 or t[k - 1] in ' [,:-'):
            m = QUOTED.match(t, k)
            if m:
                k = m.end()
                continue
        if t[k] == '#' and (k == 0 or t[k - 1] in ' \t'):
            return t[:k].rstrip()
        k += 1
    return t


def parse_yaml(text):
    lines = []
    for raw in text.split('\n'):
        t = raw.rstrip()
        if '\t' in t[:len(t) - len(t.lstrip())]:
            raise YamlError('tab')
        s = uncomment(t)
        if s.strip():
            lines.append((len(s) - len(s.lstrip()), s.strip()))
    # join flow sequences that go over several lines
    out, k = [], 0
    while k < len(lines):
        ind, s = lines[k]
        while QUOTED.sub('', s).count('[') > QUOTED.sub('', s).count(']') \
                and k + 1 < len(lines):
            k += 1
            s += ' ' + lines[k][1]
        out.append((ind, s))
        k += 1
    if not out:
        return None
    v, n = block(out, 0, out[0][0])
    if n != len(out):
        raise YamlError('left over: %r' % (out[n],))
    return v


def block(ls, k, ind):
    if ls[k][1] == '-' or ls[k][1].startswith('- '):
        res = []
        while k < len(ls) and ls[k][0] == ind and (
                ls[k][1] == '-' or ls[k][1].startswith('- ')):
            rest = ls[k][1][1:].strip()
            if not rest:
                k += 1
                if k < len(ls) and ls[k][0] > ind:
                    v, k = block(ls, k, ls[k][0])
                else:
                    v = None
                res.append(v)
                continue
            off = ind + len(ls[k][1]) - len(rest)
            if key_of(rest) is not None:
                ls = ls[:k] + [(off, rest)] + ls[k + 1:]
                v, k = block(ls, k, off)
                res.append(v)
            else:
                res.append(flow(rest))
                k += 1
        if k < len(ls) and ls[k][0] > ind:
            raise YamlError('indentation')
        return res, k
    if key_of(ls[k][1]) is None:
        if k + 1 < len(ls):
            raise YamlError('scalar followed by text')
        return flow(ls[k][1]), k + 1
    res = {}
    while k < len(ls) and ls[k][0] == ind:
        q = key_of(ls[k][1])
        if q is None:
            if ls[k][1].startswith('-'):
                break
            raise YamlError('expected a key: %r' % (ls[k][1],))
        key, rest = q
        k += 1
        if rest:
            if k < len(ls) and ls[k][0] > ind:
                raise YamlError('text after a value')
            res[key] = flow(rest)
        elif k < len(ls) and (ls[k][0] > ind or (
                ls[k][0] == ind and ls[k][1].startswith('-'))):
            res[key], k = block(ls, k, ls[k][0])
        else:
            res[key] = None
    if k < len(ls) and ls[k][0] > ind:
        raise YamlError('indentation')
    return res, k


def key_of(s):
    m = re.match(r'^([A-Za-z_][\w -]*?)\s*:(?:\s+(.*))?$', s)
    return (m.group(1), (m.group(2) or '').strip()) if m else None
