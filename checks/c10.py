"""C10: all names are preserved (only Python keywords receive an underscore)"""
import keyword

from .tsdoc import *

LENGTHS = {'quick': tuple(range(1, 12)), 'thorough': tuple(range(1, 17))}
BOUNDS = {
    'quick': 'names of 1 to 11 characters (letters, digits, underscore) in 36 places',
    'thorough': 'names of 1 to 16 characters (letters, digits, underscore) in 36 places'}
ASSUMPTIONS = [
    'names do not end with an underscore (they could coincide with a suffixed keyword) and are not '
    '"true" or "false" (never accepted as names, with an error message)',
    'names of types, functions, constants and type parameters are no reserved words of TypeScript and no '
    'names of the prelude of the generated module; names of methods are no names of the prelude; '
    '"constructor" is no name', 'names of types that are referred to do not begin with two underscores',
    'names of enum items are no names reserved by Python enums (mro, _x_, __x__)',
    'the names in one document are distinct, except where repetition is part of the document']

# reserved words of TypeScript that can never be names of types, functions or constants
HARD = {'break', 'case', 'catch', 'class', 'const', 'continue', 'debugger', 'default', 'delete', 'do',
        'else', 'enum', 'export', 'extends', 'false', 'finally', 'for', 'function', 'if', 'import',
        'in', 'instanceof', 'new', 'null', 'return', 'super', 'switch', 'this', 'throw', 'true', 'try',
        'typeof', 'var', 'void', 'while', 'with', 'keyof', 'readonly', 'unique', 'infer'}
NOTYPE = HARD | PRELUDE | SUBST | set(BASIC) | {'symbol', 'bigint', 'never', 'Aa', 'Bb'}
NOFIELD = {'true', 'false'}

# place: (document, N the name, how to find it)
PLACES = {
    'interface': ('interface N { ff: string }\n', 'type', ()),
    'export': ('export interface N { ff: string }\n', 'type', ()),
    'class': ('declare class N { ff: string }\n', 'type', ()),
    'alias': ('export type N = string | number;\n', 'type', ()),
    'genalias': ('type N<TT> = TT[];\n', 'type', ()),
    'enum': ('enum N { aa, bb }\n', 'type', ()),
    'virtual': ('export namespace N { export const aa: 1 = 1; }\n', 'type', ()),
    'namespace': ('export namespace N { interface Ii { ff: string } }\n', 'type', ()),
    'func': ('export function N(aa: string): void;\n', 'type', ()),
    'const': ('export const N: string;\n', 'annotation', ()),
    'constval': ('const N = 3;\n', 'type', ()),
    'field': ('interface Aa { N: string; gg: number }\n', 'field', ('Aa',)),
    'optional': ('interface Aa { gg: string, N?: string }\n', 'field', ('Aa',)),
    'readonly': ('interface Aa { readonly N: string; }\n', 'field', ('Aa',)),
    'static': ('class Aa { static N: string; readonly static gg: string }\n', 'field', ('Aa',)),
    'spaced': ('interface Aa {\n  N ? : Bb ;\n}\ninterface Bb { }\n', 'field', ('Aa',)),
    'untyped': ('interface Aa { N; gg: string }\n', 'field', ('Aa',)),
    'anonfield': ('interface Aa { gg: { N: string } }\n', 'field', ('Aa', 'Gg_0')),
    'itsanon': ('interface Aa { N: { gg: string } | null }\n', 'field', ('Aa',)),
    'fnfield': ('interface Aa { N: (aa: string) => void }\n', 'field', ('Aa',)),
    'method': ('interface Aa { N(aa: string): void; }\n', 'attr', ('Aa',)),
    'method2': ('class Aa { static N(): Aa; gg: string }\n', 'attr', ('Aa',)),
    'param': ('function ff(N: string, bb: string): void;\n', 'param', ('ff',)),
    'optparam': ('interface Aa { ff(bb: number, N?: string): void }\n', 'param', ('Aa', 'ff')),
    'restparam': ('function ff(bb: string, ...N: string[]): void;\n', 'param', ('ff',)),
    'untypedparam': ('function ff(N): void;\n', 'param', ('ff',)),
    'item': ('enum Aa { bb, N, cc }\n', 'attr', ('Aa',)),
    'itemval': ('export enum Aa { bb = 1, N = 2 }\n', 'attr', ('Aa',)),
    'itemquoted': ('enum Aa { "N" = "xx", bb = "yy" }\n', 'attr', ('Aa',)),
    'virtualitem': ('namespace Aa { export const N: 1 = 1; const bb: 2 = 2; }\n', 'attr', ('Aa',)),
    'inner': ('namespace Aa { interface N { ff: string } }\n', 'attr', ('Aa',)),
    'innerfunc': ('namespace Aa { export function N(): void; interface Bb { ff: string } }\n', 'attr', ('Aa',)),
    'tparam': ('interface Aa<N> { gg: N }\n', 'tparam', ()),
    'reference': ('interface Aa { gg: N; hh: N[]; ii: N | string }\ninterface N { gg: string }\n', 'refs', ('Aa',)),
    'reference2': ('interface N { gg: string }\ninterface Aa { gg: N; hh: N[]; ii: N | string }\n', 'refs', ('Aa',)),
    'base': ('interface N { gg: string }\ninterface Aa extends N { hh: string }\n', 'base', ('Aa',)),
    'basegen': ('interface N<TT> { gg: TT }\ninterface Aa extends N<string> { hh: string }\n', 'base', ('Aa',)),
}


def jobs(tier):
    out = []
    for p in PLACES:
        for n in LENGTHS[tier]:
            out.append(('name', {'place': p, 'n': n}))
    for p in ('field', 'param', 'item', 'method', 'interface', 'const'):
        for n in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5, 6, 7, 8):
            out.append(('two', {'place': p, 'n': n}))
    for k, lens in enumerate([(2, 2), (2, 2, 2), (2, 3, 2), (4, 4, 4), (5, 2, 2), (2, 5, 2), (2, 2, 5)]):
        out.append(('qualified', {'lens': list(lens)}))
        if tier == 'thorough':
            out += [('qualified', {'lens': list(lens) + [n]}) for n in (2, 3, 5)]
    return out


def qualified(ctx, env, lens):
    """names with several parts"""
    env.fresh(ctx)
    parts = [ctx.str(f'part{i}', n, NAME1 - mask_of('_'), NAMEN - mask_of('_')) for i, n in enumerate(lens)]
    for p in parts:
        ctx.assume(ctx.Not(ctx.In(p, sorted(b for b in NOTYPE if len(b) == len(p)))))
    src = f'interface Aa {{ ff: {".".join(parts)}; gg: {".".join(parts)}[] | string }}\n'
    m = Module(ctx, env, src)
    if m.ns is None:
        return
    ann = m.ns['Aa'].__dict__.get('__annotations__', {})
    if sorted(ann) != ['ff', 'gg']:
        ctx.check(False, 'a field is missing', m.show())
        return
    for k in ('ff', 'gg'):
        got = m.rd.norm(ann[k])
        alts = list(got[1]) if got[0] == 'u' else [got]
        alts = [a[2][0] if a[0] == 'a' else a for a in alts if a != ('n', 'str')]
        names = alts[0][1].split('.') if len(alts) == 1 and alts[0][0] == 'n' else []
        ctx.check(len(names) == len(parts) and ctx.And(*[pyname(ctx, a, n) for a, n in zip(names, parts)]),
                  'a name is not preserved', f'{m.show()}\n{got}')
    ctx.observe('ok')


def symname(ctx, place, kind, role, n):
    bad = set()
    if kind in ('type', 'annotation', 'tparam', 'refs', 'base') or place in ('inner', 'innerfunc'):
        bad = NOTYPE | {'TT'}
    elif kind == 'attr':
        bad = NOFIELD | PRELUDE | {'constructor', 'mro', 'Bb'}
    else:
        bad = NOFIELD | {'self', 'constructor'}
    bad |= {'Aa', 'bb', 'cc', 'ff', 'gg', 'hh', 'ii', 'aa'}
    bad = sorted(b for b in bad if len(b) == n)
    s = ctx.str(role, n, NAME1, NAMEN)
    ctx.assume(ctx.Not(ctx.Eq(s[-1], '_')))
    if n > 1 and (kind in ('tparam', 'refs', 'base') or place == 'interface'):
        # private names are also renamed where they are referred to inside of classes
        ctx.assume(ctx.Not(ctx.And(ctx.Eq(s[0], '_'), ctx.Eq(s[1], '_'))))
    if bad:
        ctx.assume(ctx.Not(ctx.In(s, bad)))
    return s


def name(ctx, env, place, n):
    env.fresh(ctx)
    doc, kind, path = PLACES[place]
    s = symname(ctx, place, kind, 'name', n)
    src = doc.replace('N?', s + '?')
    import re
    src = ''.join(s if w == 'N' else w for w in re.split(r'\b(N)\b', doc))
    m = Module(ctx, env, src)
    if m.ns is None:
        return
    judge(ctx, m, kind, path, s)


def two(ctx, env, place, n):
    """two names of this kind"""
    env.fresh(ctx)
    doc, kind, path = PLACES[place]
    a, b = symname(ctx, place, kind, 'a', n), symname(ctx, place, kind, 'b', n + 1)
    src = {'field': f'interface Aa {{ {a}: {{ {b}: string }}; {b}?: number }}\n',
           'param': f'function ff({a}: string, {b}?: number): void;\n',
           'item': f'enum Aa {{ {a}, {b} = 3 }}\n',
           'method': f'interface Aa {{ {a}(gg: string): {{ ff: string }}; {b}(): void }}\n',
           'interface': f'interface {a} {{ gg: {b} }}\nexport interface {b} {{ gg: {a} }}\n',
           'const': f'export const {a}: string;\nconst {b}: number;\n'}[place]
    m = Module(ctx, env, src)
    if m.ns is None:
        return
    judge(ctx, m, kind, path, a)
    judge(ctx, m, kind, path, b)


def mangled(ctx, keys, cls):
    """Python renames names with two leading underscores in the body of a class. (Placeholders of
    symbolic names are not renamed by the compiler.)"""
    if not ctx.symbolic:
        return list(keys)
    out = []
    for k in keys:
        if isinstance(k, str) and k not in INTERNAL and len(k) > 2 and ctx.branch(ctx.And(
                ctx.Eq(k[0], '_'), ctx.Eq(k[1], '_'), ctx.Not(ctx.Eq(k[-1], '_')))):
            k = '_' + cls.lstrip('_') + k
        out.append(k)
    return out


def judge(ctx, m, kind, path, s):
    obj = None
    ns = m.ns
    for p in path:
        obj = ns.get(p)
        if obj is None:
            ctx.check(False, 'a declaration is missing', f'{p}: {m.show()}')
            return
        if isinstance(obj, type):
            cls = p
            ns = vars(obj)
    label = 'a name is not preserved'

    def present(keys):
        private = False
        if path and (isinstance(obj, type) or len(path) > 1):
            keys = mangled(ctx, keys, cls)
            private = len(s) > 2 and ctx.branch(ctx.And(ctx.Eq(s[0], '_'), ctx.Eq(s[1], '_')))
        keys = [k for k in keys if isinstance(k, str) and k not in INTERNAL]
        ctx.check(ctx.Or(*[pyname(ctx, k, s) for k in keys]),
                  'a name with two leading underscores is not preserved' if private else label,
                  f'{s}: {m.show()}\n{keys}')
    if kind in ('type', 'attr'):
        present(ns)
    elif kind in ('annotation', 'field'):
        present(ns.get('__annotations__', {}))
    elif kind == 'param':
        code = obj.__code__
        n = code.co_argcount + code.co_kwonlyargcount + (1 if code.co_flags & 4 else 0)
        present(code.co_varnames[:n])
    elif kind == 'tparam':
        ann = m.ns['Aa'].__dict__.get('__annotations__', {}).get('gg')
        ctx.check(match(ctx, m.rd, m.rd.norm(ann), ('n', s, 'ts')), label, f'{s}: {m.show()}')
    elif kind == 'refs':
        ann = m.ns['Aa'].__dict__.get('__annotations__', {})
        if sorted(ann) != ['gg', 'hh', 'ii']:
            ctx.check(False, 'a field is missing', m.show())
            return
        ref = ('n', s, 'ts')
        for k, e in (('gg', ref), ('hh', ('a', 'List', (ref,))), ('ii', U(ref, ('n', 'str')))):
            ctx.check(match(ctx, m.rd, m.rd.norm(ann[k]), e), label, f'{s}: {m.show()}')
        present(m.ns)
    elif kind == 'base':
        bases = getattr(obj, '__orig_bases__', obj.__bases__)
        present([getattr(b, '__name__', None) or getattr(getattr(b, '__origin__', None), '__name__', '')
                 for b in bases])
    ctx.observe('ok')


INTERNAL = {'__name__', '__doc__', '__package__', '__loader__', '__spec__', '__file__', '__builtins__',
            '__annotations__', '__module__', '__dict__', '__weakref__'}
NAME1 = LETTERS | mask_of('_')
NAMEN = NAME1 | DIGITS
