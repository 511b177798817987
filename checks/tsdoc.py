"""TypeScript documents with symbolic names, and the structure of the generated module.

A type is a nested tuple (see `render`); `expected` says which Python structure the type
has to be mapped to, `Reader` reads the structure off the executed module.  Structures:
  ('n', name)  ('a', name, (args))  ('u', (alternatives))  ('lit', value)
  ('fn', args or '...', result)  ('anon', ((field, structure, optional), ...))
Names may contain symbolic characters; `match` yields a formula.
"""
import ast
import enum
import keyword
import types
import typing

from symx import rt
from symx.core import LETTERS, WORD, mask_of, LOWER, DIGITS
from symx.env import exec_module

BASIC = {'string': 'str', 'number': 'float', 'boolean': 'bool', 'null': 'None', 'any': 'Any',
         'unknown': 'Any', 'object': 'Dict', 'array': 'List', 'integer': 'int', 'uinteger': 'int',
         'decimal': 'float', 'void': 'None', 'undefined': 'None', 'RegExp': 'str', 'Error': 'Exception'}
FLAGS = ('UseTypeUnion', 'UseNotRequired', 'UseLiteralType', 'UseVariadicGenerics')
PRELUDE = {
    'enum', 'sys', 'Enum', 'IntEnum', 'Union', 'Optional', 'Any', 'Generic', 'TypeVar', 'Callable',
    'List', 'Tuple', 'Dict', 'Coroutine', 'TypedDict', 'GenericTypedDict', 'NotRequired', 'Literal',
    'Iterable', 'Iterator', 'singledispatch', 'singledispatchmethod', 'str', 'int', 'float', 'bool',
    'None', 'True', 'False', 'list', 'tuple', 'dict', 'set', 'frozenset', 'object', 'type', 'Set',
    'Exception', 'auto', 'print', 'source_hash__', 'GenericMeta'}
SUBST = {'Thenable', 'IterableIterator', 'Array', 'ReadonlyArray', 'Uint32Array', 'Error', 'RegExp'}
TSWORDS = set(BASIC) | {
    'true', 'false', 'readonly', 'static', 'export', 'const', 'let', 'var', 'new', 'keyof', 'extends',
    'implements', 'function', 'type', 'interface', 'class', 'enum', 'namespace', 'declare', 'module',
    'import', 'from', 'as', 'in', 'constructor', 'abstract', 'async', 'public', 'private', 'protected',
    'get', 'set', 'is', 'asserts', 'typeof', 'infer', 'unique', 'symbol', 'bigint', 'never'}
RESERVED = PRELUDE | SUBST | TSWORDS
NOKEYWORDS = RESERVED | set(keyword.kwlist)   # keywords are the subject of C10
NAMECHARS = LETTERS | DIGITS


class Names:
    """supply of symbolic names: distinct, no reserved words (of TypeScript or of the prelude
    of the generated modules), no underscores - so that they cannot coincide with the names of
    anonymous classes and a keyword with a suffix is no other name"""
    def __init__(self, ctx, reserved=RESERVED, first=LETTERS, rest=NAMECHARS):
        self.ctx = ctx
        self.made = []
        self.reserved = reserved
        self.first, self.rest = first, rest

    def new(self, role, n):
        ctx = self.ctx
        s = ctx.str(role, n, self.first, self.rest)
        bad = [r for r in self.reserved if len(r) == n] + [m for m in self.made if len(m) == n]
        if bad:
            ctx.assume(ctx.Not(ctx.In(s, sorted(bad))))
        self.made.append(s)
        return s


# ---------------------------------------------------------------------- TypeScript side
def render(T, inner=False):
    """('b', word) ('ref', name) ('arr', T) ('garr', T) ('rarr', T) ('u', T..) ('tup', T..)
    ('map', K, V) ('anon', (name, opt, T)..) ('s', quote, text) ('i', text) ('f', text)
    ('t', bool) ('fn', ((name, opt, T)..), R) ('gen', name, T..) ('par', T) ('litarr',) ('litobj',)"""
    t = T[0]
    if t == 'b':
        return T[1]
    if t == 'ref':
        return T[1]
    if t == 'arr':
        x = T[1]
        return ('(' + render(x) + ')' if x[0] in ('u', 'fn') else render(x)) + '[]'
    if t == 'garr':
        return 'Array<' + render(T[1]) + '>'
    if t == 'rarr':
        return 'ReadonlyArray<' + render(T[1]) + '>'
    if t == 'u':
        return ' | '.join('(' + render(x) + ')' if x[0] == 'fn' else render(x) for x in T[1:])
    if t == 'par':
        return '(' + render(T[1]) + ')'
    if t == 'tup':
        return '[' + ', '.join(render(x) for x in T[1:]) + ']'
    if t == 'map':
        return '{ [key: ' + render(T[1]) + ']: ' + render(T[2]) + ' }'
    if t == 'anon':
        return '{ ' + '; '.join(field(*f) for f in T[1:]) + ' }'
    if t == 's':
        return T[1] + T[2] + T[1]
    if t in ('i', 'f'):
        return T[1]
    if t == 't':
        return 'true' if T[1] else 'false'
    if t == 'fn':
        return '(' + ', '.join(field(*f) for f in T[1]) + ') => ' + render(T[2])
    if t == 'gen':
        return T[1] + '<' + ', '.join(render(x) for x in T[2:]) + '>'
    raise AssertionError(T)


def field(name, opt, T):
    return f'{name}{"?" if opt else ""}: {render(T)}'


# ------------------------------------------------------------------------- expected side
def U(*alts):
    flat = []
    for a in alts:
        flat += list(a[1]) if a[0] == 'u' else [a]
    return ('u', tuple(flat))


def expected(T, lit, notreq):
    """lit: literal types are used; notreq: NotRequired is used for optional fields"""
    rec = lambda x: expected(x, lit, notreq)
    t = T[0]
    if t == 'b':
        return ('n', BASIC[T[1]])
    if t == 'ref':
        return ('n', T[1], 'ts')
    if t in ('arr', 'garr', 'rarr'):
        return ('a', 'List', (rec(T[1]),))
    if t == 'u':
        return U(*[rec(x) for x in T[1:]])
    if t == 'par':
        return rec(T[1])
    if t == 'tup':
        return ('a', 'Tuple', tuple(rec(x) for x in T[1:]))
    if t == 'map':
        return ('a', 'Dict', (rec(T[1]), rec(T[2])))
    if t == 'anon':
        return ('anon', tuple((n, optional(rec(x), o, notreq), o) for n, o, x in T[1:]))
    if t == 's':
        return ('lit', T[2]) if lit else ('n', 'str')
    if t == 'i':
        return ('lit', int(T[1])) if lit else ('n', 'int')
    if t == 'f':
        return ('lit', float(T[1])) if lit else ('n', 'float')
    if t == 't':
        return ('lit', T[1]) if lit else ('n', 'bool')
    if t == 'fn':
        if any(o for _, o, _ in T[1]):
            return ('fn', '...', rec(T[2]))
        return ('fn', tuple(rec(x) for _, _, x in T[1]), rec(T[2]))
    if t == 'gen':
        return ('a', T[1], tuple(rec(x) for x in T[2:]), 'ts')
    raise AssertionError(T)


def optional(N, opt, notreq):
    return U(N, ('n', 'None')) if opt and not notreq else N


# ----------------------------------------------------------------------------- Python side
class Reader:
    qualifier = None    # name of a namespace that is stripped off qualified names

    def __init__(self, ctx, ns):
        self.ctx = ctx
        self.ns = ns

    def lookup(self, name, scopes):
        for s in list(scopes) + [self.ns]:
            for k, v in list(s.items()):
                if k == name:
                    return v
        return None

    def norm(self, a, scopes=(), strip_nr=False):
        rec = lambda x: self.norm(x, scopes)
        if a is None or a is type(None):
            return ('n', 'None')
        if a is typing.Any:
            return ('n', 'Any')
        if isinstance(a, str):
            return self.text(a, scopes, strip_nr)
        if isinstance(a, typing.ForwardRef):
            return self.text(a.__forward_arg__, scopes, strip_nr)
        if isinstance(a, typing.TypeVar):
            return ('n', a.__name__)
        origin = typing.get_origin(a)
        args = typing.get_args(a)
        if origin is typing.NotRequired:
            return rec(args[0]) if strip_nr else ('a', 'NotRequired', (rec(args[0]),))
        if origin in (typing.Union, types.UnionType):
            return U(*[rec(x) for x in args])
        if origin is typing.Literal:
            return U(*[('lit', x) for x in args])
        if isinstance(a, type) and origin is None:
            if a in (int, float, str, bool, Exception):
                return ('n', a.__name__)
            if a is list:
                return ('n', 'List')
            if a is dict:
                return ('n', 'Dict')
            return ('cls', a)
        if a in (typing.List, typing.Dict, typing.Tuple):
            return ('n', a._name)
        if origin in (list, tuple, dict):
            args = () if args == ((),) else args
            return ('a', {list: 'List', tuple: 'Tuple', dict: 'Dict'}[origin],
                    tuple(('n', '...') if x is ... else rec(x) for x in args))
        if origin is not None and getattr(origin, '__name__', '') == 'Callable':
            return ('fn', '...' if args[0] is ... else tuple(rec(x) for x in args[0]),
                    rec(args[1]))
        if origin is not None:
            return ('a', getattr(origin, '__name__', str(origin)), tuple(rec(x) for x in args))
        return ('?', repr(a))

    def text(self, s, scopes, strip_nr=False):
        try:
            tree = ast.parse(s.strip(), mode='eval').body
        except SyntaxError:
            return ('?', s)
        return self.tree(tree, scopes, strip_nr)

    def tree(self, n, scopes, strip_nr=False):
        rec = lambda x: self.tree(x, scopes)
        if isinstance(n, ast.Constant):
            if n.value is None:
                return ('n', 'None')
            if n.value is ...:
                return ('n', '...')
            if isinstance(n.value, str):
                return self.text(n.value, scopes, strip_nr)
            return ('?', repr(n.value))
        if isinstance(n, ast.Name):
            name = {'list': 'List', 'dict': 'Dict', 'tuple': 'Tuple'}.get(n.id, n.id)
            if '_' in name:
                v = self.lookup(name, scopes)
                if isinstance(v, type):
                    return ('cls', v)
            return ('n', name)
        if isinstance(n, ast.Attribute):
            if self.qualifier is not None and isinstance(n.value, ast.Name) and n.value.id == self.qualifier:
                inner = getattr(self.lookup(n.value.id, ()), '__dict__', {})
                if any(k == n.attr for k in inner):   # a qualified name of what there is
                    return self.tree(ast.Name(n.attr), (inner,) + tuple(scopes))
            return ('n', ast.unparse(n))
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
            return U(rec(n.left), rec(n.right))
        if isinstance(n, ast.Subscript) and isinstance(n.value, (ast.Name, ast.Attribute)):
            name = ast.unparse(n.value)
            elts = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
            if name == 'Optional':
                return U(rec(elts[0]), ('n', 'None'))
            if name == 'NotRequired' and strip_nr:
                return rec(elts[0])
            if name == 'Union':
                return U(*[rec(x) for x in elts])
            if name == 'Literal':
                return U(*[('lit', self.value(x)) for x in elts])
            if name == 'Callable':
                a = '...' if isinstance(elts[0], ast.Constant) else \
                    tuple(rec(x) for x in elts[0].elts)
                return ('fn', a, rec(elts[1]))
            name = {'list': 'List', 'dict': 'Dict', 'tuple': 'Tuple'}.get(name, name)
            return ('a', name, tuple(rec(x) for x in elts))
        return ('?', ast.unparse(n))

    @staticmethod
    def value(n):
        try:
            return ast.literal_eval(n)
        except ValueError:
            return ast.unparse(n)

    def fields(self, cls, scopes):
        """annotations of a class as written (in order)"""
        return dict(cls.__dict__.get('__annotations__', {}))


def pyname(ctx, a, n):
    """formula: a is the Python name of the TypeScript name n"""
    if len(a) == len(n):
        return ctx.And(ctx.Eq(a, n), ctx.Not(ctx.is_keyword(n)))
    if len(a) == len(n) + 1:
        return ctx.And(ctx.Eq(a, n + '_'), ctx.is_keyword(n))
    return False


def match(ctx, rd, act, exp, scopes=()):
    """formula: the actual structure is the expected one"""
    rec = lambda a, e: match(ctx, rd, a, e, scopes)
    k = exp[0]
    if k == 'u':
        alts = list(act[1]) if act[0] == 'u' else [act]
        want = list(exp[1])
        fs = [ctx.Or(*[rec(a, e) for a in alts]) for e in want]
        fs += [ctx.Or(*[rec(a, e) for e in want]) for a in alts]
        return ctx.And(*fs)
    if act[0] == 'u':
        return ctx.And(*[rec(a, exp) for a in act[1]]) if len(act[1]) else False
    if k == 'n':
        name = act[1].__name__ if act[0] == 'cls' else act[1] if act[0] == 'n' else None
        if name is None:
            return False
        return pyname(ctx, name, exp[1]) if len(exp) > 2 else ctx.Eq(name, exp[1])
    if k == 'anon':
        if act[0] != 'cls':
            return False
        return match_fields(ctx, rd, act[1], exp[1], scopes)
    if k == 'lit':
        if act[0] != 'lit' or type(act[1]) is not type(exp[1]):
            return False
        return ctx.Eq(act[1], exp[1])
    if k == 'a':
        if act[0] != 'a' or len(act[2]) != len(exp[2]):
            return False
        f = pyname(ctx, act[1], exp[1]) if len(exp) > 3 else ctx.Eq(act[1], exp[1])
        return ctx.And(f, *[rec(a, e) for a, e in zip(act[2], exp[2])])
    if k == 'fn':
        if act[0] != 'fn':
            return False
        r = rec(act[2], exp[2])
        if exp[1] == '...' or act[1] == '...':
            return ctx.And(act[1] == exp[1], r)
        if len(act[1]) != len(exp[1]):
            return False
        return ctx.And(r, *[rec(a, e) for a, e in zip(act[1], exp[1])])
    raise AssertionError(exp)


def match_fields(ctx, rd, cls, fields, scopes=()):
    """formula: the annotations of the class are exactly the fields [(name, structure, opt)]"""
    ann = rd.fields(cls, scopes)
    if len(ann) != len(fields):
        return False
    inner = (cls.__dict__,) + tuple(scopes)
    fs = []
    for (a, typ), (n, exp, opt) in zip(ann.items(), fields):
        fs.append(pyname(ctx, a, n))
        fs.append(match(ctx, rd, rd.norm(typ, inner, strip_nr=True), exp, inner))
    return ctx.And(*fs)


def describe(rd, a):
    if a[0] == 'cls':
        return a[1].__name__ + str({k: str(v) for k, v in rd.fields(a[1], ()).items()})
    if a[0] == 'u':
        return ' | '.join(describe(rd, x) for x in a[1])
    if a[0] == 'a':
        return f'{a[1]}[{", ".join(describe(rd, x) for x in a[2])}]'
    return str(a[1])


class Module:
    """compiles and executes a document; records failures as violations"""
    def __init__(self, ctx, env, src, lit=None, label='the generated module cannot be executed',
                 allow=(310, 320), name='gen_ts',
                 transform=None):
        self.ctx, self.env, self.src = ctx, env, src
        self.ns = None
        self.code = None
        try:
            code, errors = env.compile(src)
        except Exception as e:
            ctx.check(False, 'the transpiler raises an exception', f'{src}\n{type(e).__name__}: {e}')
            return
        errs = [e for e in errors if e.code not in allow]
        if errs:
            ctx.check(False, 'a correct document is not accepted',
                      f'{src}\n{[e.message for e in errs][:2]}')
            return
        self.code = code
        try:
            self.ns = exec_module(transform(code) if transform else code, name)
        except Exception as e:
            ctx.check(False, label, f'{src}\n{type(e).__name__}: {e}\n{body(code)}')
            return
        self.rd = Reader(ctx, self.ns)

    def get(self, name):
        """what the (TypeScript) name is bound to"""
        if name in self.ns:
            return self.ns[name]
        for k, v in self.ns.items():
            if isinstance(k, str) and len(k) == len(name) + 1 and k[:-1] == name:
                return v
        return None

    def show(self):
        return f'{self.src}\n{body(self.code)}'


def body(code):
    i = code.find('##### BEGIN OF')
    j = code.find('##### END OF')
    return code[code.find('\n', i) + 1:j if j >= 0 else len(code)].strip()


def configure(ctx, env, flags=FLAGS, **fixed):
    """configuration switches: symbolic"""
    env.fresh(ctx)
    cfg = {f: env.sym_flag(ctx, f) for f in flags}
    cfg.update(fixed)
    env.config(ctx, **cfg)
    return cfg
