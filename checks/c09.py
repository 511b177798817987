"""C09: generated modules can be imported, whatever the configuration"""
from .tsdoc import *

BOUNDS = {
    'quick': {'documents': 'three declarations: all ordered pairs of 35 kinds of declarations (interfaces, '
              'classes, generics, aliases, enums, constants, functions, namespaces, methods, anonymous '
              'interfaces), that refer to each other and themselves, followed by an interface that refers '
              'to both', 'names': 'all distinct names of 2 or 3 letters or digits, no reserved words',
              'configuration': 'UseNotRequired, UseTypeUnion, UseLiteralType symbolic where they matter; '
              'UseVariadicGenerics, RenderAnonymous (local/toplevel) and UseEnum rotate'},
    'thorough': {'documents': 'as in the quick tier, further with a third declaration of each kind between '
                 'the two', 'configuration': 'all switches symbolic'}}
ASSUMPTIONS = ['an interface is declared before the interfaces that extend it (documented)',
               'names are no reserved words of TypeScript or names of the prelude']

# D: own name, R: the other declaration, F, G, H: field names; each kind may need the other to be
# a type ('t'), or to be an interface that has been declared before ('b')
KINDS = {
    'iface': 'interface D { F: R; G?: R; H: R[] }',
    'iface2': 'interface D { F: D; G?: D | R; H: Array<R> | null }',
    'ifaceanon': 'interface D { F: { G: R; H?: D }; G?: { F: { H: R } }; H: Array<{ F: R }> }',
    'ifaceuni': 'interface D { F: { G: R } | { H: R } | string; G?: ({ F: R } | null)[] }',
    'ifacemap': 'interface D { F: { [key: string]: R }; G?: { [key: string]: { F: R } } }',
    'ifacetup': 'interface D { F: [R, D, string]; G: [{ F: R }, D]; H?: [R] }',
    'ifacelit': 'interface D { F: "a" | "b"; G?: 1 | 2; H: R | "c" | 2.5 | true }',
    'ifacefn': 'interface D { F: (par: R) => D; G?: (par?: R) => void; H: () => { F: R } }',
    'method': 'interface D { F(par: R): D; G(par?: D, ...rest: R[]): R; H: R }',
    'methodanon': 'interface D { F(par: { G: R }): { H: D }; G?: R }',
    'overload': 'class D { F(par: string): D; F(par: number): R; G: R }',
    'klass': 'declare class D { readonly F: R; static G: D; constructor(par: R); H(par: D): void }',
    'extends': 'interface D extends R { F: D; G: R }',
    'generic': 'interface D<TT> { F: TT; G: R; H?: Array<TT> }',
    'genalias': 'type D<TT> = TT | R | TT[];',
    'genfield': 'interface D<TT, UU> { F: D<string, R>; G: { H: TT }; H: UU }',
    'alias': 'type D = R;',
    'alias2': 'type D = R | string | null;',
    'alias3': 'type D = { F: R; G?: D }[];',
    'alias4': 'type D = Array<R>;',
    'alias5': 'type D = { [key: string]: D | R } | [R, string];',
    'alias6': 'type D = { F: R } & { G: string };',
    'enum': 'enum D { F, G = 2, H }',
    'senum': 'export enum D { F = "x", G = "y" }',
    'const': 'export const D: R;',
    'const2': 'const D = 3;',
    'const3': 'export const D: { F: R; G?: string };',
    'func': 'export function D(par: R, opt?: R): R;',
    'funcanon': 'function D(par: { F: R }, opt?: string[]): { G: R };',
    'namespace': 'namespace D { export const F: string = "x"; export const G: string = "y"; }',
    'nsiface': 'namespace D { interface F { G: R; H?: F; F: G }\n  interface G { F: F[]; H: { G: G | R } }\n'
               '  type H = F | { F: G } | null;\n  enum J { F, G }  interface K extends F { J: J; K: D.G } }',
    'nsgeneric': 'namespace D { interface F<TT> { G: TT; H: Array<R> }\n  type H = F<R>; '
                 'interface G { F?: F<string>; G: H } }',
    'nsfunc': 'export namespace D { interface G { F: R }\n  export function F(par: G, opt?: R[]): G[];\n'
              '  class H { F(par: G): H; G: { F: G } }  const K: H; }',
    'namespace2': 'export namespace D { interface F { G: R }\n  type H = R | F; }',
}
TYPES = [k for k in KINDS if k not in ('const', 'const2', 'const3', 'func', 'funcanon')]   # 
GENERICS = {'generic': 1, 'genalias': 1, 'genfield': 2}


def jobs(tier):
    out = []
    ks = list(KINDS)
    for i, a in enumerate(ks):
        for j, b in enumerate(ks):
            if a == 'extends':
                continue            # the other one is declared later
            if b == 'extends' and a not in ('iface', 'iface2', 'ifaceanon', 'method', 'klass', 'ifacelit',
                                            'overload', 'generic', 'alias6', 'methodanon', 'extends'):
                continue
            if a == 'alias6':
                continue            # intersections of anonymous interfaces: experimental
            if tier == 'quick' and (i * 7 + j * 3) % 5 > 2 and b not in ('iface', 'iface2'):
                continue
            out.append(('importable', {'first': a, 'second': b, 'fix': (i + j) % 8 if tier == 'quick' else None}))
    return out


def words(ctx, text, names):
    import re
    return ''.join(names.get(w, w) for w in re.split(r'(\b[A-Z]\b)', text))


def importable(ctx, env, first, second, fix):
    if fix is None:
        cfg = configure(ctx, env, FLAGS + ('UseEnum',))
        env.config(ctx, RenderAnonymous=ctx.choose('anonymous', 2, ['local', 'toplevel']))
    else:
        cfg = configure(ctx, env, ('UseNotRequired', 'UseTypeUnion') if fix & 4 else ('UseNotRequired', 'UseLiteralType'),
                        UseVariadicGenerics=bool(fix & 2), UseEnum=fix != 5,
                        RenderAnonymous=('local', 'toplevel')[fix & 1],
                        **({'UseLiteralType': bool(fix & 1)} if fix & 4 else {'UseTypeUnion': bool(fix & 1)}))
    nm = Names(ctx, NOKEYWORDS | {'TT', 'UU', 'self', 'par', 'key', 'opt', 'rest'})
    d1, d2, d3 = nm.new('d1', 2), nm.new('d2', 3), nm.new('d3', 2)
    fld = dict(zip('FGH', (nm.new('F', 2), nm.new('G', 3), nm.new('H', 3))))

    def ref(kind, name):
        if kind not in TYPES or kind == 'namespace' and False:
            return 'string'
        n = GENERICS.get(kind)
        return f'{name}<{", ".join(["string"] * n)}>' if n else name

    def own(kind, name):
        return name
    r2, r1 = ref(second, d2), ref(first, d1)
    if first == second == 'alias' or (first, second) in ():
        r2 = 'number'               # no type refers to itself without anything in between
    t1 = words(ctx, KINDS[first], {'D': d1, 'R': r2, **fld})
    t2 = words(ctx, KINDS[second], {'D': d2, 'R': r1 if second != 'extends' or first not in GENERICS
                                    else ref(first, d1), **fld})
    src = (t1 + '\n' + t2 + '\n' +
           f'interface {d3} {{ {fld["F"]}: {r1}; {fld["G"]}?: {r2} | {d3}; {fld["H"]}: Array<{r1}> }}\n')
    m = Module(ctx, env, src, allow=(310, 320, 100))
    if m.ns is None:
        return
    for d in (d1, d2, d3):
        ctx.check(defined(ctx, m.ns, d), 'a declaration is missing', f'{d}: {m.show()}')
    dangling(ctx, m)
    ctx.observe(str(len(m.ns)))


def defined(ctx, ns, name):
    return ctx.Or(*[pyname(ctx, k, name) for k in list(ns) + list(ns.get('__annotations__', ()))
                    if isinstance(k, str) and k[:2] != '__'])


def dangling(ctx, m):
    """the names used in annotations are defined (in the module or in one of the surrounding classes)"""
    seen = []

    def names(n, out):
        if isinstance(n, tuple):
            if n and n[0] == 'n' and len(n) > 1 and isinstance(n[1], str):
                out.append(n[1])
            elif n and n[0] == 'a':
                out.append(n[1])
                names(n[2], out)
            elif n and n[0] in ('lit', 'cls', '?'):
                if n[0] == '?':
                    ctx.check(False, 'an annotation cannot be understood', f'{n[1]}: {m.show()}')
            else:
                for x in n:
                    names(x, out)

    def annotation(a, scopes):
        out = []
        names(m.rd.norm(a, scopes, strip_nr=True), out)
        for name in out:
            if name in ('...', 'None', 'Any', 'TT', 'UU', 'str', 'int', 'float', 'bool'):
                continue
            name = name.split('.')[0] if '.' in name else name
            keys = [k for s in list(scopes) + [m.ns] for k in s if isinstance(k, str)]
            ctx.check(ctx.Or(*[ctx.Eq(k, name) for k in keys if len(k) == len(name)]),
                      'a type refers to a name that is not defined', f'{name}: {m.show()}')

    def visit(ns, scopes):
        for a in list(ns.get('__annotations__', {}).values()):
            annotation(a, scopes)
        for k, v in list(ns.items()):
            if isinstance(v, type) and getattr(v, '__module__', '') == 'gen_ts' and v not in seen:
                seen.append(v)
                visit(v.__dict__, (v.__dict__,) + scopes)
            elif callable(v) and hasattr(v, '__code__') and isinstance(k, str) and k[:2] != '__' \
                    and v.__module__ == 'gen_ts':
                for a in v.__annotations__.values():
                    annotation(a, scopes)
    visit(m.ns, ())
