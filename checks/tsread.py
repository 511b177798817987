"""an independent reader of (concrete) TypeScript declarations, and the values of their types

Document(text).schema(type, mode, cfg) yields a schema as understood by symx.values; `mode` is
'lo' (values that must be accepted) or 'hi' (values that may be accepted). They differ where the
mapping to Python is a matter of configuration: type parameters, literals without UseLiteralType,
optional fields without UseNotRequired."""
import re

TOKEN = re.compile(r'\s*(=>|\.\.\.|[A-Za-z_]\w*|-?\d+(?:\.\d+)?|"[^"]*"|\'[^\']*\'|.)')
BASIC = {'string': ('str',), 'number': ('float',), 'boolean': ('bool',), 'null': ('none',), 'any': ('any',),
         'unknown': ('any',), 'object': ('dictany',), 'array': ('listany',), 'integer': ('int',),
         'uinteger': ('int',), 'decimal': ('float',), 'undefined': ('none',)}


class Document:
    def __init__(self, text):
        self.text = text
        self.toks = [t for t in TOKEN.findall(re.sub(r'/\*.*?\*/|//[^\n]*', ' ', text, flags=re.S)) if t.strip()]
        self.i = 0
        self.decls = {}
        self.anons = 0
        while self.i < len(self.toks):
            self.declaration('')

    # ------------------------------------------------------------------------------ reading
    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else ''

    def next(self):
        self.i += 1
        return self.toks[self.i - 1]

    def opt(self, *ts):
        if self.peek() in ts:
            return self.next()

    def need(self, t):
        assert self.peek() == t, (t, self.toks[self.i - 3:self.i + 3])
        self.i += 1

    def declaration(self, ns):
        while self.opt('export', 'declare'):
            pass
        k = self.next()
        name = self.next()
        full = ns + name
        if k == 'namespace':
            self.need('{')
            while not self.opt('}'):
                self.declaration(full + '.')
            return
        if k == 'enum':
            self.need('{')
            vals, last = [], 0
            while not self.opt('}'):
                self.next()
                if self.opt('='):
                    last = self.literal(self.next())
                elif isinstance(last, int):
                    last += 1
                vals.append(last)
                self.opt(',')
            self.decls[full] = ('enum', tuple(vals))
            return
        params = self.params()
        if k == 'interface':
            bases = []
            if self.opt('extends'):
                bases.append(self.primary())
                while self.opt(','):
                    bases.append(self.primary())
            self.decls[full] = ('interface', ns, params, bases, self.fields())
        elif k == 'type':
            self.need('=')
            self.decls[full] = ('alias', ns, params, self.type())
        else:
            raise AssertionError(k)
        self.opt(';')

    def params(self):
        out = []
        if self.opt('<'):
            while not self.opt('>'):
                out.append(self.next())
                self.opt(',')
        return out

    def fields(self):
        self.need('{')
        out = []
        while not self.opt('}'):
            self.opt('readonly')
            n = self.next()
            o = bool(self.opt('?'))
            self.need(':')
            out.append((n, o, self.type()))
            self.opt(';', ',')
        return out

    def type(self):
        self.opt('|')
        alts = [self.postfix()]
        while self.opt('|'):
            alts.append(self.postfix())
        return alts[0] if len(alts) == 1 else ('u', *alts)

    def postfix(self):
        T = self.primary()
        while self.peek() == '[':
            self.next()
            self.need(']')
            T = ('arr', T)
        return T

    @staticmethod
    def literal(t):
        return t[1:-1] if t[0] in '"\'' else float(t) if '.' in t else int(t)

    def primary(self):
        t = self.peek()
        if t == '{':
            if self.toks[self.i + 1] == '[':
                self.i += 2
                self.next()
                self.need(':')
                self.type()
                self.need(']')
                self.need(':')
                T = ('map', self.type())
                self.opt(';')
                self.need('}')
                return T
            self.anons += 1
            return ('anon', self.anons, self.fields())
        self.next()
        if t == '(':
            T = self.type()
            self.need(')')
            return T
        if t == '[':
            items = []
            while not self.opt(']'):
                items.append(self.type())
                self.opt(',')
            return ('tup', *items)
        if t[0] in '"\'-0123456789':
            return ('lit', self.literal(t))
        if t in ('true', 'false'):
            return ('lit', t == 'true')
        while self.opt('.'):
            t += '.' + self.next()
        args = []
        if self.opt('<'):
            while not self.opt('>'):
                args.append(self.type())
                self.opt(',')
        return ('ref', t, args)

    # ------------------------------------------------------------------------------ meaning
    def find(self, name, ns):
        while True:
            if ns + name in self.decls:
                return ns + name
            if not ns:
                raise AssertionError(name)
            ns = ns[:ns[:-1].rfind('.') + 1]

    def schema(self, name, mode, cfg):
        """-> schema of the declared type, tds"""
        self.mode, self.cfg, self.tds = mode, cfg, {}
        return self.ref(name, [], '', {}), self.tds

    def ref(self, name, args, ns, env):
        if name in env:
            return ('any',) if self.mode == 'hi' else env[name]
        if name in ('Array', 'ReadonlyArray'):
            return ('list', self.mean(args[0], ns, env))
        if name in BASIC:
            return BASIC[name]
        full = self.find(name, ns)
        d = self.decls[full]
        if d[0] == 'enum':
            return ('enum', d[1], full)
        args = [self.mean(a, ns, env) for a in args]
        env2 = dict(zip(d[2], args + [('any',)] * len(d[2])))
        key = full + (str(args) if args else '')
        if d[0] == 'alias':
            key = '=' + key
            if key not in self.tds:
                self.tds[key] = None
                self.tds[key] = self.mean(d[3], d[1], env2)
            return ('ref', key)
        if key not in self.tds:
            self.tds[key] = None
            fields = {}
            for b in d[3]:
                T = self.ref(b[1], b[2], d[1], env2)
                assert T[0] == 'td'
                fields.update({f[0]: f for f in self.tds[T[1]]})
            self.members(fields, d[4], d[1], env2)
            self.tds[key] = tuple(fields.values())
        return ('td', key)

    def members(self, fields, decls, ns, env):
        for n, o, T in decls:
            S = self.mean(T, ns, env)
            loose = self.mode == 'hi' and not self.cfg.get('UseNotRequired')
            if o and loose:
                S = ('union', S, ('none',))
            req = not o and not (loose and self.admits_null(S))
            fields[n] = (n, S, req)

    def admits_null(self, S, seen=()):
        if S[0] == 'ref':
            if S[1] in seen or self.tds[S[1]] is None:
                return True
            return self.admits_null(self.tds[S[1]], seen + (S[1],))
        return S == ('none',) or S[0] == 'union' and any(self.admits_null(x, seen) for x in S[1:])

    def mean(self, T, ns, env):
        rec = lambda x: self.mean(x, ns, env)
        t = T[0]
        if t == 'u':
            return ('union', *[rec(x) for x in T[1:]])
        if t == 'arr':
            return ('list', rec(T[1]))
        if t == 'map':
            return ('dict', rec(T[1]))
        if t == 'tup':
            return ('tuple', *[rec(x) for x in T[1:]])
        if t == 'lit':
            if self.mode == 'lo' or self.cfg.get('UseLiteralType', True):
                return ('lit', (T[1],))
            return {str: ('str',), bool: ('bool',), int: ('int',), float: ('float',)}[type(T[1])]
        if t == 'anon':
            key = f'#{T[1]}' + str(sorted(env.items()) if env else '')
            if key not in self.tds:
                self.tds[key] = None
                fields = {}
                self.members(fields, T[2], ns, env)
                self.tds[key] = tuple(fields.values())
            return ('td', key)
        if t == 'ref':
            return self.ref(T[1], T[2], ns, env)
        raise AssertionError(T)

    def depth(self, S, seen=()):
        t = S[0]
        if t in ('td', 'ref'):
            if S[1] in seen:
                return 1
            sub = [f[1] for f in self.tds[S[1]]] if t == 'td' else [self.tds[S[1]]]
            return (t == 'td') + max([self.depth(x, seen + (S[1],)) for x in sub] + [0])
        if t in ('list', 'dict', 'tuple'):
            return 1 + max([self.depth(x, seen) for x in S[1:]] + [0])
        if t == 'union':
            return max(self.depth(x, seen) for x in S[1:])
        return 1 if t in ('listany', 'dictany') else 0

    def keys(self):
        """all field names"""
        out = []

        def walk(x):
            if isinstance(x, (tuple, list)):
                for y in x:
                    walk(y)
        for f in self.tds.values():
            for x in (f or ()):
                if isinstance(x, tuple) and len(x) == 3 and isinstance(x[0], str) and isinstance(x[2], bool):
                    if x[0] not in out:
                        out.append(x[0])
        return tuple(sorted(out))
