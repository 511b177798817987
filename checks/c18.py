"""C18: functions and methods keep their signatures"""
import inspect

from .tsdoc import *
from .c07 import parse, subst

BOUNDS = {
    'quick': {'documents': 'one to three functions or overloads with up to three parameters and a rest parameter '
              'in 12 places (functions, exported functions, functions of namespaces, methods of interfaces, '
              'classes and anonymous interfaces, optional and static methods, call signatures, generics)',
              'parameters': 'number of optional parameters and kind of the rest parameter symbolic; types from a '
              'family of 20', 'names': 'all distinct names of 1-3 letters or digits',
              'configuration': 'UseTypeUnion, UseNotRequired symbolic'},
    'thorough': 'as in the quick tier, each place with each type, and all switches symbolic'}
ASSUMPTIONS = ['names are no reserved words (C10) and not "self"', 'constructors are dropped, as the tests mandate',
               'the first parameters of overloads have different types, each a class or basic type '
               '(the standard library does not dispatch upon others)']
VALIDATE = {'quick': 61, 'thorough': 301}

TYPES = ['str', 'num', 'K', 'L', 'arr(str)', 'u(K,num)', 'u(L,null)', 'any', 's', 'map(str,K)', 'tup(str,L)',
         'anon(str)', 'fn(str,K)', 'garr(L)', 'arr(u(L,str))', 'Own', 'u(str,null)', 'u(anon(K),num)', 'gen(str)', 'bool']
REST = ['none', 'array', 'untyped', 'union']
PLACES = ['func', 'export', 'noreturn', 'method', 'klass', 'optmethod', 'static', 'call', 'ns', 'nsclass', 'generic',
          'second']


def jobs(tier):
    out = []
    n = len(TYPES)
    for i, p in enumerate(PLACES):
        for j, t in enumerate(TYPES):
            types = [t, TYPES[(j + i + 1) % n], TYPES[(j * 3 + i) % n]]
            if p in ('func', 'export', 'noreturn', 'generic', 'ns'):
                types = ['K' if x == 'Own' else x for x in types]
            out.append(('signature', {'place': p, 'types': types, 'full': tier != 'quick'}))
    for place in ('func', 'method', 'ns', 'klass', 'nsclass'):
        for k in range(len(FIRST)):
            out.append(('overloads', {'place': place, 'k': k}))
    return out


FIRST = ['str', 'num', 'K', 'L', 'null', 'bool', 'u(str,K)', 'u(num,bool)', 'int']


def wrap(place, own, text, names):
    """place the text of functions into the document"""
    if place in ('func', 'noreturn', 'generic'):
        return text.replace('FN ', 'function ')
    if place == 'export':
        return text.replace('FN ', 'export function ')
    if place == 'ns':
        return f'namespace {own} {{\n{text.replace("FN ", "function ")}}}\n'
    if place == 'nsclass':
        return f'namespace {names["NS"]} {{\ninterface {own} {{\n{text.replace("FN ", "")}}}\n}}\n'
    head = {'klass': 'class', 'static': 'declare class'}.get(place, 'interface')
    mod = 'static ' if place == 'static' else ''
    pre = f'{names["F0"]}: string;\n' if place in ('second', 'klass') else ''
    post = f'readonly {names["F1"]}?: number;\n' if place == 'second' else ''
    return f'{head} {own} {{\n{pre}{text.replace("FN ", mod)}{post}}}\n'


def locate(m, place, own, names):
    """the namespace of the class or module that contains the functions"""
    if place in ('func', 'export', 'noreturn', 'generic'):
        return m.ns
    c = m.get(names['NS']) if place == 'nsclass' else None
    if place == 'nsclass':
        if c is None:
            return None
        c = find(c.__dict__, own)
    else:
        c = m.get(own)
    return c.__dict__ if isinstance(c, type) else None


def find(ns, name):
    for k, v in list(ns.items()):
        if k == name:
            return v
    return None


def params(ctx, nm, tag, types, names, fixed=0, pick=None):
    """-> TypeScript text of the parameters and the expectations"""
    n = len(types)
    if pick is None:
        opts = ctx.choose(tag + '.optional', n - fixed + 1)
        rest = REST[ctx.choose(tag + '.rest', len(REST))]
    else:
        opts, rest = pick % (n - fixed + 1), REST[pick % len(REST)]
    texts, exp = [], []
    for i, T in enumerate(types):
        name = nm.new(f'{tag}.p{i}', 1 + (i + len(tag)) % 3)
        o = i >= n - opts
        texts.append(f'{name}{"?" if o else ""}: {render(T)}' if T else f'{name}{"?" if o else ""}')
        exp.append((name, T, 'opt' if o else 'req'))
    if rest != 'none':
        name = nm.new(tag + '.rest', 2)
        T = {'array': ('arr', ('ref', names['K'])), 'untyped': None,
             'union': ('arr', ('par', ('u', ('ref', names['K']), ('b', 'number'))))}[rest]
        texts.append(f'...{name}: {render(T)}' if T else f'...{name}')
        exp.append((name, T and T[1], 'rest'))
    return ', '.join(texts), exp


def compare(ctx, m, cfg, fn, exp, ret, method, scopes, what):
    """the signature of the function is the expected one"""
    rd = m.rd
    lit, nr = bool(cfg['UseLiteralType']), bool(cfg['UseNotRequired'])
    fn = getattr(fn, '__func__', fn)
    try:
        sig = inspect.signature(fn)
    except (TypeError, ValueError) as e:
        ctx.check(False, 'not a function', f'{what}: {fn} {e}\n{m.show()}')
        return
    ps = list(sig.parameters.values())
    if method:
        if not ps or ps[0].name != 'self':
            ctx.check(False, 'a method has no parameter for the object', f'{what}: {sig}\n{m.show()}')
            return
        ps = ps[1:]
    if len(ps) != len(exp):
        ctx.check(False, 'parameters are missing or have been added', f'{what}: {sig}\n{m.show()}')
        return
    fs = []
    P = inspect.Parameter
    for p, (name, T, kind) in zip(ps, exp):
        fs.append(pyname(ctx, p.name, name))
        fs.append(p.kind == (P.VAR_POSITIONAL if kind == 'rest' else P.POSITIONAL_OR_KEYWORD))
        fs.append(p.default is (None if kind == 'opt' else P.empty))
        if T is None:
            fs.append(p.annotation is P.empty or p.annotation == 'Any' or p.annotation is typing.Any)
        else:
            E = expected(T, lit, nr)
            if kind == 'opt':
                E = U(E, ('n', 'None'))
            if p.annotation is P.empty:
                fs.append(False)
            else:
                fs.append(match(ctx, rd, rd.norm(p.annotation, scopes), E, scopes))
    if ret is None:
        fs.append(sig.return_annotation in (P.empty, typing.Any))
    else:
        fs.append(match(ctx, rd, rd.norm(sig.return_annotation, scopes), expected(ret, lit, nr), scopes))
    ctx.check(ctx.And(*fs), 'the signature is not preserved', f'{what}: {sig}\n{m.show()}')


def setup(ctx, env, full, text):
    if full:
        cfg = configure(ctx, env)
    else:
        cfg = configure(ctx, env, ('UseTypeUnion',), UseNotRequired=len(text) % 2 == 0,
                        UseLiteralType=len(text) % 4 < 2, UseVariadicGenerics=False,
                        RenderAnonymous=('local', 'toplevel')[len(text) % 3 == 0])
    nm = Names(ctx, NOKEYWORDS | {'TT', 'self', 'par', 'key', '_'})
    names = {'K': nm.new('K', 2), 'L': nm.new('L', 3), 'Own': nm.new('Own', 3), 'fn': nm.new('fn', 3)}
    return cfg, nm, names


def prepared(ctx, nm, names, types):
    out = []
    for t in types:
        T = parse(t)
        for p in ('p0', 'p1', 'q0'):
            if repr(p) in repr(T) and p not in names:
                names[p] = nm.new(p, 2)
        if "'S'" in repr(T):
            names['S'] = 'x y'
        if "'G'" in repr(T) and 'G' not in names:
            names['G'] = nm.new('G', 2)
        out.append(T)
    return [subst(T, names) for T in out]


def signature(ctx, env, place, types, full):
    cfg, nm, names = setup(ctx, env, full, place + ''.join(types))
    if place == 'nsclass':
        names['NS'] = nm.new('NS', 3)
    if place in ('second', 'klass'):
        names['F0'], names['F1'] = nm.new('F0', 2), nm.new('F1', 3)
    A, B, R = prepared(ctx, nm, names, types)
    fn, own = names['fn'], names['Own']
    text, exp = params(ctx, nm, 'a', [A, B], names)
    text2, exp2 = params(ctx, nm, 'b', [B] if place not in ('klass', 'generic') else [None], names,
                         pick=None if full else len(place + ''.join(types)))
    fn2 = nm.new('fn2', 2)
    if place == 'noreturn':
        src = f'FN {fn}({text});\nFN {fn2}({text2}): void;\n'
        R = None
    elif place == 'generic':
        src = f'FN {fn}<TT>({text}): {render(R)};\nFN {fn2}({text2}): TT[];\n'.replace(': TT[]', ': string[]')
    elif place == 'call':
        src = f'FN ({text}): {render(R)};\nFN {fn2}({text2}): void;\n'
    elif place == 'optmethod':
        src = f'FN {fn}?({text}): {render(R)};\nFN {fn2}?({text2}): void;\n'
    else:
        src = f'FN {fn}({text}): {render(R)};\nFN {fn2}({text2}): void;\n'
    doc = f'interface {names["K"]} {{ }}\n'
    if 'G' in names:
        doc += f'interface {names["G"]}<TT> {{ }}\n'
    doc += wrap(place, own, src, names) + f'interface {names["L"]} {{ }}\n'
    m = Module(ctx, env, doc)
    if m.ns is None:
        return
    m.rd.qualifier = names.get('NS')
    ns = locate(m, place, own, names)
    if ns is None:
        ctx.check(False, 'the class of a method is missing', m.show())
        return
    method = place in ('method', 'klass', 'optmethod', 'static', 'call', 'nsclass', 'second')
    scopes = () if ns is m.ns else (ns,)
    for name, e, r in ((fn, exp, R), (fn2, exp2, ('b', 'void'))):
        if place == 'generic' and name is fn2:
            r = ('arr', ('b', 'string'))
        f = find(ns, '__call__' if place == 'call' and name is fn else name)
        if f is None:
            ctx.check(False, 'a function is missing', f'{name}: {m.show()}')
            return
        compare(ctx, m, cfg, f, e, r, method and not isinstance(f, staticmethod), scopes, name)
    ctx.observe(str(len(ns)))


def overloads(ctx, env, place, k):
    """two or three functions of the same name"""
    n = len(FIRST)
    firsts = [FIRST[k], FIRST[(k + 2) % n], FIRST[(k + 4) % n]]
    count = 2 + k % 2
    cfg, nm, names = setup(ctx, env, False, place + str(k))
    if place == 'nsclass':
        names['NS'] = nm.new('NS', 3)
    if place == 'klass':
        names['F0'], names['F1'] = nm.new('F0', 2), nm.new('F1', 3)
    fn, own = names['fn'], names['Own']
    seen, todo = set(), []
    for f in firsts[:count]:
        parts = set(f.replace('u(', '').replace(')', '').split(','))
        if not parts & seen:
            seen |= parts
            todo.append(f)
    rets = [('b', 'string'), ('arr', ('ref', names['L'])), ('ref', names['K'])]
    src, exps = '', []
    for i, f in enumerate(todo):
        T, = prepared(ctx, nm, names, [f])
        extra = [[], [('b', 'string')], [('ref', names['L'])]][(i + k) % 3]
        text, exp = params(ctx, nm, f'o{i}', [T] + extra, names, fixed=1,
                           pick=None if i == 0 else i + k)
        src += f'FN {fn}({text}): {render(rets[i])};\n'
        exps.append((f, exp, rets[i]))
    other = nm.new('other', 2)
    if k % 4 > 1 and place in ('method', 'klass', 'nsclass'):   # a call signature
        src = f'FN ({other}: number): void;\n' + src
    src = src[:src.index('\n') + 1] + f'FN {other}(): void;\n' + src[src.index('\n') + 1:] if k % 3 == 1 else src
    # methods without fields: K and L are classes that can be dispatched upon
    doc = f'interface {names["K"]} {{ {names["fn"]}(): void }}\n' + wrap(place, own, src, names) + \
        f'class {names["L"]} {{ {names["fn"]}(): void }}\n'
    m = Module(ctx, env, doc)
    if m.ns is None:
        return
    m.rd.qualifier = names.get('NS')
    ns = locate(m, place, own, names)
    f = find(ns, fn) if ns is not None else None
    if f is None:
        ctx.check(False, 'a function is missing', m.show())
        return
    method = place in ('method', 'klass', 'nsclass')
    scopes = () if ns is m.ns else (ns,)
    if len(todo) == 1:
        compare(ctx, m, cfg, f, exps[0][1], exps[0][2], method, scopes, fn)
        return
    dispatch = f.dispatcher.dispatch if hasattr(f, 'dispatcher') else getattr(f, 'dispatch', None)
    if dispatch is None:
        ctx.check(False, 'overloaded functions do not dispatch', m.show())
        return
    classes = {'str': str, 'num': float, 'int': int, 'bool': bool, 'null': type(None), 'K': m.get(names['K']),
               'L': m.get(names['L'])}
    for first, exp, ret in exps:
        for part in first.replace('u(', '').replace(')', '').split(','):
            try:
                impl = dispatch(classes[part])
            except Exception as e:
                ctx.check(False, 'an overloaded function cannot be called',
                          f'{classes[part]}: {type(e).__name__} {e}\n{m.show()}')
                return
            compare(ctx, m, cfg, impl, exp, ret, method, scopes, f'{fn} for {part}')
    ctx.observe(str(len(ns)))
