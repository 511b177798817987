"""C07: types are mapped to the corresponding Python types"""
from .tsdoc import *

BOUNDS = {
    'quick': {'types': 'the family of `schemas` (13 basic types, references, literals, all one-level and '
              'selected deeper nestings of arrays, tuples, maps, unions, function types, generics, '
              'anonymous interfaces), two of 7 places each (field, optional field, alias, parameter, '
              'return type, constant, field among others)',
              'names': 'all names of 2-3 letters or digits, distinct, no reserved words',
              'string literals': 'all strings of 3 printable characters without the quote used and backslash',
              'configuration': 'UseTypeUnion, UseNotRequired, UseLiteralType symbolic'},
    'thorough': {'types': 'the same family in each of the 7 places, and with names of 4-5 characters',
                 'names': '2-5 letters or digits', 'string literals': 'as in the quick tier',
                 'configuration': 'as in the quick tier'}}
ASSUMPTIONS = [
    'names are neither reserved words of TypeScript nor names of the prelude of generated modules',
    'arrays of nothing (Array<null>, Array<void>, Array<undefined>) are untyped lists, as documented in '
    'the compiler: excluded as the only generic argument',
    'literals, mapped and function types are not generic arguments (the grammar rejects them with an '
    'error message)']

A, B = ('ref', 'A'), ('ref', 'B')      # placeholders for symbolic names
LEAF = {
    'str': ('b', 'string'), 'num': ('b', 'number'), 'bool': ('b', 'boolean'), 'null': ('b', 'null'),
    'any': ('b', 'any'), 'obj': ('b', 'object'), 'int': ('b', 'integer'), 'uint': ('b', 'uinteger'),
    'dec': ('b', 'decimal'), 'unk': ('b', 'unknown'), 'void': ('b', 'void'), 'arr': ('b', 'array'),
    'undef': ('b', 'undefined'), 're': ('b', 'RegExp'), 'err': ('b', 'Error'),
    'K': ('ref', 'K'), 'L': ('ref', 'L'), 'Own': ('ref', 'Own'), 'X': ('ref', 'X'),
    's': ('s', '"', 'S'), 's2': ('s', "'", 'S2'), 'i': ('i', '42'), 'j': ('i', '-7'), 'f': ('f', '2.5'),
    't': ('t', True),
}


def parse(s):
    """u(str,list(K)) -> type"""
    pos = 0
    s = s.replace(' ', '')

    def item():
        nonlocal pos
        j = pos
        while j < len(s) and s[j] not in '(),':
            j += 1
        name = s[pos:j]
        pos = j
        if pos < len(s) and s[pos] == '(':
            pos += 1
            args = []
            while s[pos] != ')':
                args.append(item())
                if s[pos] == ',':
                    pos += 1
            pos += 1
            if name == 'anon':
                return ('anon',) + tuple((f'p{i}', bool(i % 2), a) for i, a in enumerate(args))
            if name == 'fn':
                return ('fn', tuple((f'q{i}', False, a) for i, a in enumerate(args[:-1])), args[-1])
            if name == 'gen':
                return ('gen', 'G') + tuple(args)
            return (name,) + tuple(args)
        return LEAF[name]
    return item()


def subst(T, names):
    """replace the placeholders of names"""
    if T[0] == 'ref':
        return ('ref', names.get(T[1], T[1]))
    if T[0] == 'gen':
        return ('gen', names.get(T[1], T[1])) + tuple(subst(x, names) for x in T[2:])
    if T[0] == 's':
        return (T[0], T[1], names.get(T[2], T[2]))
    if T[0] == 'anon':
        return ('anon',) + tuple((names.get(n, n), o, subst(x, names)) for n, o, x in T[1:])
    if T[0] == 'fn':
        return ('fn', tuple((names.get(n, n), o, subst(x, names)) for n, o, x in T[1]),
                subst(T[2], names))
    return (T[0],) + tuple(subst(x, names) if isinstance(x, tuple) else x for x in T[1:])


def schemas(tier):
    leaf = list(LEAF)
    out = list(leaf)
    out += [f'map(num,{a})' for a in leaf if a not in ('K', 'L')]
    out += ['rarr(str)', 'rarr(K)', 'rarr(arr(L))', 'u(rarr(K),null)', 'arr(rarr(any))', 'garr(rarr(u(L,num)))']
    few = ['str', 'K', 'L', 'i', 's', 'Own', 'null']
    for a in leaf:
        if LEAF[a][0] in ('b', 'ref') and BASIC.get(LEAF[a][1]) != 'None':     # an array of nothing is an untyped array
            out += [f'garr({a})']
        out += [f'u({a},bool)', f'tup({a},str)', f'map(str,{a})', f'anon({a})']
        if LEAF[a][0] in ('b', 'ref'):
            out += [f'arr({a})']
        if a not in ('s', 's2', 'i', 'j', 'f', 't'):
            out += [f'fn({a},str)', f'fn(str,{a})']
    for a in few:
        for b in few:
            if a < b:
                out.append(f'u({a},{b})')
                out.append(f'arr(u({a},{b}))')
                out.append(f'u({a},{b},num)')
    for a in ['str', 'K', 'L']:
        out += [f'arr(arr({a}))' if False else f'garr(garr({a}))', f'garr(arr({a}))',
                f'map(str,arr({a}))', f'map(str,map(str,{a}))', f'u(arr({a}),null)',
                f'u(map(str,{a}),null)', f'tup(arr({a}),u({a},num))', f'anon(arr({a}),u({a},null))',
                f'anon(anon({a}))', f'u(anon({a}),str)', f'arr(anon({a}))', f'u(arr(anon({a})),null)',
                f'garr(u({a},anon(str)))', f'fn({a},fn({a},str))', f'u(fn({a},str),null)',
                f'par({a})', f'par(u({a},null))', f'u(par(u({a},num)),null)', f'map(str,anon({a}))',
                f'tup(anon({a}),str)', f'gen({a})', f'arr(gen({a}))', f'u(gen({a}),null)',
                f'gen(arr({a}))', f'map(num,{a})']
    return out


CONTEXTS = ['field', 'optfield', 'alias', 'param', 'ret', 'const', 'second']


def jobs(tier):
    out = []
    for i, s in enumerate(schemas(tier)):
        n = len(CONTEXTS)
        cs = CONTEXTS if tier == 'thorough' else [CONTEXTS[i % n], CONTEXTS[(i + 1 + i // n) % n]]
        for c in cs:
            out.append(('mapping', {'schema': s, 'where': c, 'size': 2}))
        if tier == 'thorough':
            out.append(('mapping', {'schema': s, 'where': CONTEXTS[i % n], 'size': 4}))
    return out


def mapping(ctx, env, schema, where, size=2):
    cfg = configure(ctx, env, ('UseTypeUnion', 'UseNotRequired', 'UseLiteralType')
                    + (('UseVariadicGenerics',) if 'gen' in schema else ()))
    nm = Names(ctx, NOKEYWORDS | {'head', 'tail', 'par', 'TT', 'self'})
    names = {'Own': nm.new('Own', size + 1), 'K': nm.new('K', size), 'L': nm.new('L', size + 1)}
    T = parse(schema)
    if 'G' in str(T):
        names['G'] = nm.new('G', size)
    for p in ('p0', 'p1', 'q0'):
        if repr(p) in str(T):
            names[p] = nm.new(p, 2)
    if "'S'" in repr(T):
        names['S'] = ctx.str('S', 3, DQCHARS, DQCHARS)
    if "'S2'" in repr(T):
        names['S2'] = ctx.str('S2', 3, SQCHARS, SQCHARS)
    fld = nm.new('field', size + 1)
    T = subst(T, names)
    own = names['Own']
    src = f'interface {names["K"]} {{ }}\n'
    if 'G' in names:
        src += f'interface {names["G"]}<TT> {{ }}\n'
    ts = render(T)
    opt = where == 'optfield'
    if where == 'field':
        src += f'interface {own} {{ {fld}: {ts} }}\n'
    elif where == 'second':
        src += f'export interface {own} {{ head: string; readonly {fld}: {ts}; tail: number; }}\n'
    elif where == 'optfield':
        src += f'interface {own} {{ {fld}?: {ts}; }}\n'
    elif where == 'alias':
        src += f'type {own} = {ts};\n'
    elif where == 'param':
        src += f'interface {own} {{ {fld}(par: {ts}): void; }}\n'
    elif where == 'ret':
        src += f'interface {own} {{ {fld}(): {ts}; }}\n'
    else:
        src += f'export const {own}: {ts};\n'
    src += f'interface {names["L"]} {{ }}\n'
    m = Module(ctx, env, src)
    if m.ns is None:
        return
    rd = m.rd
    exp = expected(T, bool(cfg['UseLiteralType']), bool(cfg['UseNotRequired']))
    scopes = ()
    if where == 'const':
        ann = m.ns.get('__annotations__', {})
        if len(ann) != 1:
            ctx.check(False, 'a constant is missing', m.show())
            return
        (name, act), = ann.items()
        ctx.check(pyname(ctx, name, own), 'a name is lost', m.show())
    elif where == 'alias':
        act = m.get(own)
        if act is None and T != ('b', 'null'):
            ctx.check(False, 'a type alias is missing', m.show())
            return
    else:
        cls = m.get(own)
        if not isinstance(cls, type):
            ctx.check(False, 'an interface is missing', m.show())
            return
        scopes = (cls.__dict__,)
        if where in ('param', 'ret'):
            fn = cls.__dict__.get(fld) or cls.__dict__.get(fld + '_')
            if fn is None:
                ctx.check(False, 'a method is missing', m.show())
                return
            act = fn.__annotations__.get('par' if where == 'param' else 'return')
        else:
            ann = rd.fields(cls, ())
            want = 3 if where == 'second' else 1
            if len(ann) != want:
                ctx.check(False, 'a field is missing', m.show())
                return
            name, act = list(ann.items())[1 if where == 'second' else 0]
            ctx.check(pyname(ctx, name, fld), 'a name is lost', m.show())
    act = rd.norm(act, scopes, strip_nr=True)
    exp = optional(exp, opt, bool(cfg['UseNotRequired']))
    ctx.check(match(ctx, rd, act, exp, scopes), 'a type is mapped to another type',
              f'{m.show()}\n--> {describe(rd, act)}')
    ctx.observe(describe(rd, act))


DQCHARS = mask_of(c for c in map(chr, range(32, 127)) if c not in '"\\')
SQCHARS = mask_of(c for c in map(chr, range(32, 127)) if c not in "'\\")
