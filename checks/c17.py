"""C17: JSON data conforms to the generated types iff it conforms to the TypeScript types"""
from symx import values as V
from symx.env import exec_module
from . import jsonv as J
from .tsread import Document

BOUNDS = {
    'quick': {'values': 'all JSON values: nesting depth up to that of the type plus one (at most 4), arrays of up '
              'to two items, objects with any subset of the declared keys and one undeclared key; strings, '
              'numbers, booleans and null are symbolic',
              'documents': 'an interface with a field of each of about 130 types (and an optional field) and '
              'an alias of this type, with the declarations it needs before or after it; 40 further documents: anonymous '
              'interfaces at various places, inheritance, generics, namespaces, recursion',
              'configuration': 'NotRequired, type unions, Literal types, mode of anonymous interfaces (local, '
              'toplevel, functional): four combinations for each document, all of them for the further documents'},
    'thorough': 'the same with all 24 combinations and longer arrays'}
ASSUMPTIONS = [
    'integers count as floats, booleans as integers, arrays as tuples, values of enum members as enums',
    'type parameters of interfaces admit any value, literals without UseLiteralType any value of the same kind; '
    'without NotRequired, optional fields may be null and fields that admit null may be missing (documented)',
    'the values are as read by json.loads']
VALIDATE = {'quick': 101, 'thorough': 1001}

DECLS = {
    'I': 'interface I { fa: number; fb?: string }',
    'R': 'interface R { fa: R | null }',
    'A': 'type A = string | I;',
    'AI': 'type AI = I;',
    'AL': 'type AL = (I | boolean)[];',
    'J': 'type J = number | J[] | { [key: string]: J };',
    'Es': 'enum Es { a = "ab", b = "cd" }',
    'En': 'export enum En { a = 3, b = 7 }',
    'Ec': 'enum Ec { a, b, c }',
    'G': 'interface G<T> { fa: T; fb?: T[] }',
    'P': 'interface P { fa: string }',
    'X': 'interface X extends P { fc: boolean }',
    'N': 'namespace N {\n export interface I { fa: boolean }\n interface K { fa: I; fb?: N.I[] }\n enum E { a = "ab" }\n'
         ' type T = I | string;\n}',
    'Nu': 'type Nu = string | null;',
    'Ao': 'type Ao = { fa: string; fb?: { fa: number } };',
    'Au': 'type Au = { fa: string } | { fb: number };',
}
NEEDS = {'A': ['I'], 'AI': ['I'], 'AL': ['I'], 'X': ['P']}

LEAVES = ['string', 'number', 'boolean', 'null', 'any', 'integer', 'object', 'array', '"ab"', '3', 'true',
          'I', 'Es', 'En', 'R', 'A', 'AI', 'X', 'N.I', 'N.E']


def types(tier):
    out = LEAVES + ['uinteger', 'unknown', 'decimal', 'Ec', 'AL', 'J', 'N.K', 'N.T', 'Nu', 'Ao', 'Au', "'ab'", '2.5',
                    'G<string>', 'G<I>', 'Array<G<number>>', 'G<G<string>>']
    for a in LEAVES:
        plain = a[0] not in '"3' and a != 'true'
        if plain:
            out += [f'{a}[]'] if a not in ('null',) else []
        out += [f'{a} | boolean', f'{{ fa: {a} }}', f'{{ [key: string]: {a} }}', f'[{a}, string]']
    out += ['I | null', 'I | X', 'X | I | null', 'P | X', 'N.I | I', 'R | string', '(I | null)[]', 'Array<I | string>',
            '{ fa: I | null; fb?: A }', '{ fa: { fb: I } }', '{ fa: { fb?: { fa: number } } }',
            '{ fa: string }[]', '({ fa: string } | null)[]', '{ fa: string } | { fb: number }',
            '{ fa: string } | { fa: number; fb: string } | null', '{ fa?: { fb: string }[] }',
            '{ [key: string]: { fa: number } }', '{ [key: string]: I[] }', '{ [key: string]: string | null }',
            '[{ fa: string }, I]', '[R | null, Es]', '[]' if False else '[string]', '"ab" | "cd"', '3 | 7 | null',
            '"ab" | 3 | I', '"ab" | I[]', '[string, number][]', 'Array<[I, boolean]>', 'Array<Array<string>>',
            '{ fa: string }[] | string[]', 'I[] | null', 'string[] | boolean[]', 'Array<string | number> | string',
            '{ [key: string]: any }', 'any[]', '{ fa: any; fb?: object }', 'object | null', 'Es | null', 'Es | En',
            'Es[]', '(Es | boolean)[]', 'N.E | null', 'Nu[]', 'Nu | number', 'J | null', 'J[]',
            '{ fa: J }', 'Array<A>', 'A | null', '{ fa: A }[]', '{ fa: "ab" | "cd"; fb?: 3 | 7 }',
            '({ fa: I } | string)[]', 'readonly string[]' if False else 'ReadonlyArray<I>']
    seen = []
    for t in out:
        if t not in seen:
            seen.append(t)
    return seen


DOCS = [
    # anonymous interfaces: names of the classes must not get confused
    'interface Top { fa: { fa: string }; fb?: { fa: number } }',
    'interface Top { fa: { fb: { fa: string } }; fb: { fb: { fa: number } } }',
    'interface Top { fa: { fa: string } | { fb: number }; fb?: { fa: boolean } | { fb: string } }',
    'interface Top { fa: { fa: { fa: { fb: string } } } }',
    'interface Top { item: { fa: string }; Item?: { fa: number } }',
    'interface Top { fa: { fa: Top | null; fb?: Top[] } }',
    'interface Fa { fa: number }\ninterface Top { fa: { fb: Fa }; fb?: Fa }',
    'interface Top { fa: { fa: string }; fb?: Fa }\ninterface Fa { fb: number }',
    'interface I { fa: { fa: string } }\ninterface Top extends I { fb: { fa: number } }',
    'interface I { fa: { fa: string } }\ninterface Top extends I { fa: { fa: string; fb: number } }',
    'interface I { fa: { fa: string } }\ninterface Top { fa: { fa: number }; fb?: I }',
    'interface Top { fa: { fa: string }[]; fb?: { [key: string]: { fa: boolean } } }',
    'type I = { fa: string };\ntype K = { fa: number };\ninterface Top { fa: I; fb: K }',
    'type I = { fa: { fb: string } };\ninterface Top { fa: I; fb?: { fb: number } }',
    'interface Top { fa: [{ fa: string }, { fa: number }] }',
    'interface Top { fa: ({ fa: string } | { fa: number }[])[] }',
    'type Top = { fa: { fa: string } | null; fb?: Top[] };',
    'type Top = { fa: string }[] | { fa: number };',
    'type Top = { fa: { fa: { fa: string } } } | { fa: string };',
    # inheritance
    'interface I { fa: string; fb?: number }\ninterface Top extends I { fc: boolean }',
    'interface I { fa: string }\ninterface K { fb?: number }\ninterface Top extends I, K { fc?: string }',
    'interface I { fa: string }\ninterface K extends I { fb: number }\ninterface Top extends K { fc: K | null }',
    'interface I { fa: any; fb?: string }\ninterface Top extends I { fa: number; fb: string }',
    'interface I { fa: string | number }\ninterface K extends I { fa: string }\ninterface Top { fa: I; fb?: K }',
    'interface I { }\ninterface Top extends I { fa: string }',
    'interface I { fa: K; fb?: I }\ninterface K { fa: string }\ninterface Top extends I { fc?: K }',
    # generics
    'interface G<T> { fa: T }\ninterface Top extends G<string> { fb?: number }',
    'interface G<T> { fa: { fb: T }; fb?: Array<T> }\ninterface Top { fa: G<number> }',
    'interface G<T, U> { fa: T; fb?: U | G<T, U> }\ninterface Top { fa: G<string, I> | null }\ninterface I { fa: string }',
    'type A<T> = T | null;\ninterface Top { fa: A<string>; fb?: number }',
    # namespaces
    'namespace N {\n interface I { fa: string }\n interface K { fa: I }\n}\ninterface I { fa: number }\n'
    'interface Top { fa: I; fb: N.I; fc?: N.K }',
    'interface I { fa: number }\nnamespace N {\n interface I { fa: string }\n interface K { fa: I }\n}\ninterface Top { fa: I; fb?: N.K }',
    'namespace N {\n interface K { fa: I | null; fb?: { fa: I } }\n interface I { fa: string }\n}\ninterface Top { fa: N.K }',
    'namespace N {\n type T = { fa: string } | null;\n interface K { fa: T; fb?: T[] }\n}\ninterface Top { fa: N.K; fb?: N.T }',
    'namespace N {\n enum E { a = "ab", b = "cd" }\n interface K { fa: E }\n}\ninterface Top { fa: N.E | null; fb?: N.K }',
    'namespace N {\n interface P { fa: string }\n interface K extends P { fb: P | number }\n}\ninterface Top extends N.K { fc?: string }',
    # recursion, aliases, order
    'interface Top { fa: Top | string }',
    'interface Top { fa?: K[] }\ninterface K { fb: Top | null }',
    'type Top = string | Top[];',
    'type Top = { [key: string]: Top } | number;',
    'type T = K | null;\ntype K = I[] | string;\ninterface I { fa: T }\ninterface Top { fa: T; fb?: K }',
    'interface Top { fa: T }\ntype T = K;\ntype K = I;\ninterface I { fa: T | null }',
    'type Top = I | K;\ninterface I { fa: "ab"; fb: number }\ninterface K { fa: "cd"; fb: string }',
    'interface Top { fa: LSPAny | null; fb?: LSPAny }\ntype LSPAny = I | string;\ninterface I { fa: LSPAny }',
    'type K = T | string;\ntype T = Top | null;\ninterface Top { fa: K | number }',
    'namespace N {\n type T = I;\n interface K { fa: T | null; fb?: T }\n interface I { fa: string }\n}\ninterface Top { fa: N.T | null }',
    'type S = "ab" | "cd";\ninterface Top { fa: S; fb?: S[] }',
    'type S = 3 | 7;\ninterface Top { fa: S | "ab"; fb?: { [key: string]: S } }',
    'enum E { a = "ab", b = "cd" }\ntype S = E | null;\ninterface Top { fa: S; fb?: Array<E> }',
    'interface Top { fa: E; fb?: E | string }\nenum E { a = 3, b }',
    # comments, separators, modifiers
    'export interface Top {\n  // fb: string\n  readonly fa: string, /* fc: any; */\n  fb?: number // last\n}',
    '/** doc */ export interface Top { fa: string;\n /** fb?: any */ fb?: number; }',
    'export namespace N {\n export interface I { readonly fa: string }\n}\nexport interface Top { fa: N.I }',
]


def needed(text):
    import re
    out = []

    def add(w):
        if w in DECLS and w not in out:
            for n in NEEDS.get(w, ()):
                add(n)
            out.append(w)
    for w in re.findall(r'\b[A-Z][a-z]?\b|\bA[IL]\b', re.sub(r'\bN\.\w+', 'N', text)):
        add(w)
    return out


def compound(t):
    return any(c in t for c in '[{<') or any(w in t.split() for w in ('I', 'R', 'X', 'A', 'Ao', 'Au', 'N.K', 'J', 'AL', 'AI'))


def jobs(tier):
    out = []
    for i, t in enumerate(types(tier)):
        decls = [DECLS[n] for n in needed(t)]
        q = '?' * (i % 3 == 1)
        field = f'interface Top {{ fa{q}: {t}; fb{"?" * (i % 3 < 2)}: integer }}'
        if tier == 'quick' and compound(t):
            field = f'interface Top {{ fa{q}: {t} }}'
        alias = f'type Top = {t};'
        for k, main in enumerate((field, alias)):
            if k == 1 and t in DECLS or k == 1 and tier == 'quick' and (i % 3 or t[0] in '{'):
                continue
            first = (i + k) % 2
            src = decls + [main] if first else [main] + decls
            if tier == 'quick':
                out.append(('data', {'src': '\n'.join(src) + '\n', 'fix': i + k, 'extra': int(not compound(t))}))
            else:
                out.append(('data', {'src': '\n'.join(src) + '\n', 'fix': None}))
    for d in DOCS:
        if tier == 'quick':
            out.append(('data', {'src': d + '\n', 'fix': len(out), 'extra': 0}))
        else:
            out.append(('data', {'src': d + '\n', 'fix': None}))
    return out


FLAGS = ('UseNotRequired', 'UseTypeUnion', 'UseLiteralType')
MODES = ['local', 'toplevel', 'functional']
ALL = [(n, u, l, m) for m in MODES for l in (True, False) for n in (True, False) for u in (False, True)]
_compiled = {}


def configs(fix):
    if fix is None:
        return ALL
    rot = [(True, False, True, 'local'), (False, True, True, 'toplevel'), (True, True, True, 'functional'),
           (False, False, False, 'local'), (False, False, True, 'functional'), (True, True, True, 'toplevel'),
           (False, True, True, 'local'), (True, False, True, 'toplevel')]
    return [rot[(fix * 3 + k) % 8] for k in (0, 3)]


def generate(ctx, env, src, cfg):
    """-> code, errors; the same for all paths, thus computed only once in each process"""
    key = (src, cfg)
    r = _compiled.get(key)
    if r is None:
        env.fresh(ctx)
        env.config(ctx, RenderAnonymous=cfg[3], **dict(zip(FLAGS, cfg)))
        code, errors = env.compile(src)
        r = _compiled[key] = (code, [e.message for e in errors if e.code not in (310, 320)])
    return r


def data(ctx, env, src, fix, extra=1):
    cs = configs(fix)
    cfg = cs[ctx.choose('config', len(cs))]
    try:
        code, errors = generate(ctx, env, src, cfg)
    except Exception as e:
        ctx.check(False, 'the transpiler raises an exception', f'{src}\n{cfg} {type(e).__name__}: {e}')
        return
    if errors:
        ctx.check(False, 'a correct document is not accepted', f'{src}\n{cfg} {errors[:2]}')
        return
    flags = dict(zip(FLAGS, cfg))
    doc = Document(src)
    lo, tlo = doc.schema('Top', 'lo', flags)
    keys, depth = doc.keys(), doc.depth(lo)
    hi, thi = doc.schema('Top', 'hi', flags)
    # configurations that do not make a difference need not be looked at twice
    for other in cs[:cs.index(cfg)]:
        f2 = dict(zip(FLAGS, other))
        if generate(ctx, env, src, other)[0] == code and doc.schema('Top', 'lo', f2) == (lo, tlo) \
                and doc.schema('Top', 'hi', f2) == (hi, thi):
            ctx.assume(False)
            return
    try:
        ns = exec_module(code, 'gen_data')
    except Exception as e:
        ctx.check(False, 'the generated module cannot be executed', f'{src}\n{cfg} {type(e).__name__}: {e}')
        return
    top = None
    if lo[0] == 'td':           # one undeclared key is enough on the outermost level
        own = [f[0] for f in tlo[lo[1]]]
        top = own + [k for k in keys if k not in own][:1 - extra]
    b = V.Bounds(keys=keys or ('fa',), top=top, maxlen=2 if depth < 3 and extra or ': [' in src else 1, extra=extra)
    v = V.make(ctx, 'v', min(depth + (depth < 3 or extra), 4), b)
    if 'interface Top' in src:
        res, msg = J.attempt(env.jv.validate_type, v, ns['Top'])
    else:       # forward references inside of aliases are resolved only with the module
        exec('def consumer(value: Top): pass\nconsumer.__module__ = "gen_data"\n', ns)
        res, msg = J.attempt(env.jv.type_check(ns['consumer']), v)
    ctx.observe(res)
    show = f'{src}{cfg} -> {res} {msg}'
    if res == 'ok':
        ctx.check(V.conforms(ctx, v, hi, thi), 'data is accepted that is not of the TypeScript type', show)
    else:
        ctx.check(ctx.Not(V.conforms(ctx, v, lo, tlo)), 'data of the TypeScript type is rejected', show)
