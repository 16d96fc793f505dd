"""Click for the interpreter: declared commands, their options, the screen.

Decorators record what they declare; a command line given as tokens is turned
into the arguments of the command function as Click does; what is printed goes
to a list, what is printed to a file to the Disk."""
from . import algebra as al
from .interp import AbsRaise
from .values import *          # noqa


def prompt_type(I, k, n):
    t = k.get('type')
    if isinstance(t, (str, al.Poly, int)):
        I.event('raise', 'AttributeError', [t], {}, n)
        raise AbsRaise(Opaque(('exc', 'AttributeError', '__name__')), n)


class Usage(Exception):
    """The command line is refused before the command starts."""


class Stop(Exception):
    """ctx.exit()/ctx.fail()."""


class Click(object):
    def __init__(self, I, D):
        self.I, self.D = I, D
        self.params = {}            # id(function) -> declarations, last first
        self.keep = []
        self.screen = []            # (kind, text)
        self.answers = []
        self.asked = []
        self.count = 0
        m = I.models
        m['click.command'] = self.command
        m['click.group'] = self.command
        m['click.option'] = lambda I, a, k, n: self.param('option', a, k)
        m['click.argument'] = lambda I, a, k, n: self.param('argument', a, k)
        m['click.pass_context'] = lambda I, a, k, n: a[0]
        for t in ('Path', 'Choice', 'IntRange', 'FloatRange', 'File'):
            m['click.' + t] = self.make_type(t)
        m['click.secho'] = self.show
        m['click.echo'] = self.show
        m['click.style'] = lambda I, a, k, n: a[0] if a else k['text']
        m['click.confirm'] = self.confirm
        m['click.prompt'] = self.prompt
        m['builtin.print'] = self.print_
        m['mock.group.add'] = None

    # -- declarations
    def ext(self, fn):
        self.count += 1
        name = 'mock.click%d' % self.count
        self.I.models[name] = fn
        return Ext(name)

    def make_type(self, t):
        names = {'Path': (), 'Choice': ('choices', 'case_sensitive'),
                 'IntRange': ('min', 'max'), 'FloatRange': ('min', 'max'),
                 'File': ('mode',)}[t]

        def fn(I, a, k, n):
            d = dict(zip(names, a))
            d.update(k)
            return Opaque(('click type', t, self.I.key(a) if a else None),
                          kind=t, spec=d)
        return fn

    def param(self, kind, a, k):
        def deco(I, b, kk, n):
            f = b[0]
            if isinstance(f, Opaque):           # applied above the command
                f.info['command']['params'].insert(0, (kind, a, k))
                return f
            self.keep.append(f)
            self.params.setdefault(id(f), []).insert(0, (kind, a, k))
            return f
        return self.ext(deco)

    def command(self, I, a, k, n):
        if a and isinstance(a[0], Func):
            return self.make_command(a[0], None, {})
        name = a[0] if a else k.get('name')
        return self.ext(lambda I, b, kk, n: self.make_command(b[0], name, k))

    def make_command(self, f, name, k):
        if name is None:
            name = f.node.name.lower().replace('_', '-')
            for s in ('-command', '-cmd', '-group', '-grp'):
                if name.endswith(s):
                    name = name[:-len(s)]
        c = {'name': name, 'f': f, 'params': self.params.get(id(f), []),
             'sub': {}, 'cls': k.get('cls')}

        def add(I, a, k, n):
            sub = a[0].info['command']
            nm = a[1] if len(a) > 1 else k.get('name') or sub['name']
            c['sub'][nm] = sub

        def inner(I, a, k, n):
            d = self.command(I, a, k, n)
            if isinstance(d, Opaque):
                c['sub'][d.info['command']['name']] = d.info['command']
                return d

            def deco(I, b, kk, n):
                o = I.call(d, b, {}, n)
                c['sub'][o.info['command']['name']] = o.info['command']
                return o
            return self.ext(deco)
        e = self.ext(add)
        g = self.ext(inner)
        return Opaque(('click command', name, f.qual), command=c, attrs={
            'add_command': e, 'callback': f, 'name': name, 'command': g,
            'group': g})

    # -- command line
    @staticmethod
    def declared(kind, a):
        """(parameter name, flags)."""
        dashed = [x for x in a if x.startswith('-')]
        plain = [x for x in a if not x.startswith('-')]
        if plain:
            return (plain[0] if kind == 'option' else
                    plain[0].lower().replace('-', '_')), dashed
        best = max(dashed, key=lambda x: len(x) - len(x.lstrip('-')))
        return best.lstrip('-').replace('-', '_').lower(), dashed

    def convert(self, tok, t, default=None):
        if t is None:
            if isinstance(default, tuple) and default:
                default = default[0]
            if isinstance(default, Poly):
                x = default.const_value()
                t = 'int' if x is not None and x.denominator == 1 \
                    else 'float'
            else:
                t = 'str'
        if isinstance(t, Opaque) and 'spec' in t.info:
            kind, d = t.info['kind'], t.info['spec']
            if kind == 'Path':
                ex = d.get('exists')
                if ex is True and not self.D.present(tok):
                    raise Usage('path %r does not exist' % tok)
                return tok
            if kind == 'Choice':
                ch = self.I.iter_concrete(d['choices'])
                low = d.get('case_sensitive', True) is False
                for x in ch:
                    if x == tok or low and x.lower() == tok.lower():
                        return x
                raise Usage('%r is not one of %r' % (tok, ch))
            if kind == 'IntRange':
                v = self.number(tok)
                if v.const_value() is None or \
                        v.const_value().denominator != 1:
                    raise Usage('%r is not an integer' % tok)
                for e, s in (('min', 1), ('max', -1)):
                    b = d.get(e)
                    if b is not None and s * (v.const_value() -
                                              self.I.num(b).const_value()) < 0:
                        raise Usage('%r is out of range' % tok)
                return v
            raise Imprecise('option type ' + kind)
        name = getattr(t, 'dotted', None) or getattr(t, 'name', None) or str(t)
        name = name.split('.')[-1].lower()
        if 'int' in name:
            v = self.number(tok)
            if v.const_value() is not None and \
                    v.const_value().denominator != 1:
                raise Usage('%r is not an integer' % tok)
            return v
        if 'float' in name:
            return self.number(tok)
        if 'str' in name:
            return tok
        raise Imprecise('option type %r' % (t,))

    def number(self, tok):
        v = self.D.n.read(tok)
        if v is None:
            raise Usage('%r is not a number' % tok)
        return al.as_poly(v)

    def parse(self, cmd, argv):
        """Arguments of the command function."""
        I = self.I
        opts, args, flags = {}, [], {}
        for kind, a, k in cmd['params']:
            name, dashed = self.declared(kind, a)
            p = {'name': name, 'k': k, 'nargs': 1}
            if 'nargs' in k:
                p['nargs'] = int(I.num(k['nargs']).const_value())
            if kind == 'argument':
                args.append(p)
            else:
                opts[name] = p
                for f in dashed:
                    flags[f] = p
        out, rest, i = {}, [], 0
        while i < len(argv):
            t = argv[i]
            i += 1
            if t.startswith('-') and len(t) > 1 and not t[1].isdigit():
                value = None
                if t.startswith('--') and '=' in t:
                    t, value = t.split('=', 1)
                if t not in flags:
                    raise Usage('no such option: %s' % t)
                p = flags[t]
                if p['k'].get('is_flag') is True:
                    out[p['name']] = True if 'flag_value' not in p['k'] else \
                        p['k']['flag_value']
                    continue
                toks = [value] if value is not None else \
                    argv[i:i + p['nargs']]
                if value is None:
                    i += p['nargs']
                if len(toks) < p['nargs']:
                    raise Usage('%s requires an argument' % t)
                vs = [self.convert(x, p['k'].get('type'),
                                   p['k'].get('default')) for x in toks]
                out[p['name']] = vs[0] if p['nargs'] == 1 else tuple(vs)
            else:
                rest.append(t)
        for p in args:
            if not rest:
                if p['k'].get('required', True) is False:
                    out[p['name']] = None
                    continue
                raise Usage('missing argument %s' % p['name'])
            out[p['name']] = self.convert(rest.pop(0), p['k'].get('type'))
        if rest:
            raise Usage('unexpected extra argument')
        for p in opts.values():
            if p['name'] not in out:
                d = p['k'].get('default')
                if d is None and p['k'].get('is_flag') is True:
                    d = False
                out[p['name']] = d
        for p in opts.values():
            if p['k'].get('callback') is not None:
                out[p['name']] = I.call(p['k']['callback'], [
                    Opaque(('context',)), Opaque(('parameter',)),
                    out[p['name']]], {}, None)
            if p['k'].get('expose_value') is False:
                del out[p['name']]
        return out

    def invoke(self, cmd, argv):
        """Run a command line (list of tokens)."""
        while cmd['sub']:
            if not argv or argv[0] not in cmd['sub']:
                raise Usage('no such command')
            cmd, argv = cmd['sub'][argv[0]], argv[1:]
        kw = self.parse(cmd, argv)
        return self.I.call(cmd['f'], [], kw, None)

    # -- screen
    def sure(self):
        if self.I.cond() != al.as_poly(1):
            raise Imprecise('conditional message')

    def show(self, I, a, k, n):
        self.sure()
        m = a[0] if a else k.get('message', k.get('text', ''))
        f = a[1] if len(a) > 1 else k.get('file')
        if f is not None:
            return self.print_(I, [m], {'file': f}, n)
        self.screen.append(('out', m))

    def print_(self, I, a, k, n):
        self.sure()
        f = k.get('file')
        end = k.get('end', '\n')
        if f is None:
            self.screen.append(('out', a[0] if a else ''))
            return
        if not (isinstance(f, Opaque) and f.key[0] == 'file'):
            raise Imprecise('print to %r' % (f,))
        if 'handle' in f.info:
            f.info['handle'].need(I, n)
            if 'write' not in f.info['attrs']:
                raise AbsRaise(Opaque(('exc', 'UnsupportedOperation')), n)
        out = self.D.out.setdefault(f.key[1], [])
        for i, x in enumerate(a):
            if i:
                out.append(k.get('sep', ' '))
            out.append(x)
        out.append(end)

    def confirm(self, I, a, k, n):
        self.sure()
        self.asked.append(a[0] if a else k.get('text'))
        self.screen.append(('ask', self.asked[-1]))
        if not self.answers:
            raise Imprecise('question without an answer')
        return self.answers.pop(0)

    def prompt(self, I, a, k, n):
        prompt_type(I, k, n)
        return self.confirm(I, a, k, n)
