"""C01 / C02: JSON validation accepts exactly the values of the type"""
from symx import values as V
from . import jsonv as J

BOUNDS = {
    'quick': {'values': 'all JSON values: nesting depth up to that of the type plus one (at most 4), arrays of up '
              'to two items, objects with any subset of the declared keys and one undeclared key; strings, '
              'numbers, booleans and null are symbolic',
              'types': 'about 290 types over 14 leaf types: lists, dictionaries and tuples of all leaf types, '
              'unions of all pairs, selected deeper nestings, recursive and inherited TypedDicts; as field '
              'of a TypedDict (annotations direct, with quoted names or wholly quoted, X | Y) and on their own'},
    'thorough': 'the same with all styles of annotations, three further levels of nesting and unions of three '
                'types (about 450 types)'}
ASSUMPTIONS = ['integers count as floats, booleans as integers, arrays as tuples, values of enum members as '
               'enums (documented or mandated by the tests)',
               'the values are as read by json.loads: no NaN or infinity']

LEAF = ['str', 'int', 'float', 'bool', 'none', 'any', 'ls', 'li', 'lm', 'es', 'ei', 'td', 'listany',
        'dictany']
SMALL = ['str', 'int', 'ls', 'ei', 'td', 'none', 'float']


def schemas(tier):
    out = list(LEAF)
    l1 = []
    for a in LEAF:
        l1 += [f'list({a})', f'dict({a})', f'seq({a})', f'tuple({a},str)', f'tuple(int,{a})']
    pairs = [(a, b) for i, a in enumerate(LEAF) for b in LEAF[i + 1:] if 'any' not in (a, b)]
    l1 += [f'union({a},{b})' for a, b in pairs]
    l2 = []
    for a in ['str', 'int', 'es', 'ls', 'td', 'float', 'any']:
        l2 += [f'list(list({a}))', f'dict(list({a}))', f'list(dict({a}))', f'list(union({a},none))',
               f'union(list({a}),none)', f'union(list({a}),bool)', f'dict(union({a},bool))',
               f'union(dict({a}),bool)', f'tuple(union({a},bool),list(int))',
               f'list(tuple({a},int))', f'union(tuple({a},int),bool)', f'union(bool,none,{a})',
               f'union(list(union({a},bool)),bool)']
    l2 += ['tuple()', 'tuple(str)', 'union(td,T3)', 'union(T3,td)', 'list(union(td,T3))',
           'union(list(int),list(str))', 'union(dict(int),dict(str))', 'union(list(int),dict(int))',
           'union(T3,list(td))', 'T2', 'list(T2)', 'dict(T2)', 'T4', 'list(T4)', 'union(T4,T3)',
           'union(none,none)']
    out += l1 + l2
    if tier == 'thorough':
        for a in SMALL:
            for w in ['list', 'dict', 'seq']:
                for b in ['list', 'dict', 'seq']:
                    out.append(f'{w}({b}(union({a},bool)))')
                    out.append(f'union({w}({b}({a})),none,bool)')
                    for c in ['list', 'dict']:
                        out.append(f'{w}({b}({c}({a})))')
        for a in SMALL:
            for b in SMALL:
                for c in SMALL:
                    if a < b < c:
                        out.append(f'union({a},list({b}),dict({c}))')
                        out.append(f'list(union({a},{b},list({c})))')
    return out


TDS = {
    'T1': (None, (('fa', ('int',), False), ('fb', ('str',), True))),
    'T2': (None, (('fa', ('union', ('none',), ('td', 'T2')), False),
                  ('fb', ('list', ('td', 'T2')), True))),
    'T3': (None, (('fa', ('str',), False), ('fb', ('list', ('td', 'T1')), True))),
    'T4': ('T1', (('fb', J.ES, False), ('fc', ('bool',), True))),
}


HEAVY = ['union(T4,T3)', 'union(T3,list(td))', 'union(td,T3)', 'union(T3,td)', 'dict(list(td))',
         'list(union(td,T3))']


def jobs(tier):
    out = []
    for i, s in enumerate(schemas(tier)):
        styles = ['direct', 'quoted', 'string', 'pep604']
        if 'T' not in s and 'td' not in s:
            styles = ['direct', 'string', 'pep604']
        if s in ('listany', 'dictany', 'any') or 'union' not in s:
            styles = [x for x in styles if x != 'pep604']
        if 'T2' in s:
            styles = ['quoted', 'string']
        if tier == 'quick':
            styles = [styles[i % len(styles)]]
        small = s in HEAVY and tier == 'quick'
        for st in styles:
            out.append(('field', {'schema': s, 'style': st, 'small': small}))
        out.append(('bare', {'schema': s, 'small': small}))
    return out


def needed(T, acc):
    if T[0] == 'td':
        if T[1] not in acc:
            base, fields = TDS[T[1]]
            if base:
                needed(('td', base), acc)
            acc.append(T[1])
            for _, sub, _ in fields:
                needed(sub, acc)
    else:
        for x in T[1:]:
            if type(x) is tuple and x and type(x[0]) is str and T[0] not in ('lit', 'enum'):
                needed(x, acc)
    return acc


def closure(T):
    names = needed(T, [])
    return {n: TDS[n] for n in TDS if n in names}


def ordered(tds, style):
    """for direct references the referenced classes come first"""
    return {n: tds[n] for n in sorted(tds)} if style != 'direct' else tds


def depth_of(T, seen=()):
    t = T[0]
    if t == 'td':
        if T[1] in seen:
            return 1
        return 1 + max([depth_of(x, seen + (T[1],)) for _, x, _ in TDS[T[1]][1]] + [0])
    if t in ('list', 'dict', 'seq', 'tuple'):
        return 1 + max([depth_of(x, seen) for x in T[1:]] + [0])
    if t == 'union':
        return max(depth_of(x, seen) for x in T[1:])
    return 1 if t in ('listany', 'dictany') else 0


def judge(ctx, env, T, typ, v, tds, mode, what):
    res, msg = J.attempt(env.jv.validate_type, v, typ)
    ctx.observe(res)
    show = f'{what} -> {res} {msg}'
    if res == 'ok':
        if mode != 'C02':
            conf = V.conforms(ctx, v, T, tds)
            ctx.check(conf, 'accepts a value that is not of the type', show)
    elif mode != 'C01':
        conf = V.conforms(ctx, v, T, tds)
        ctx.check(ctx.Not(conf), 'rejects a value of the type', show)


def _field(ctx, env, schema, style, small, mode):
    T = J.parse(schema)
    tds = closure(T)
    top = {**tds, 'Top': (None, (('fa', T, False), ('fb', ('int',), True)))}
    ns = J.module(top, style)
    keys = ('fa', 'fb', 'fc') if 'T4' in tds else ('fa', 'fb')
    b = V.Bounds(keys=keys, maxlen=1 if small else 2, extra=0 if small else 1)
    v = V.make(ctx, 'v', 1 + min(depth_of(T), 3), b)
    judge(ctx, env, ('td', 'Top'), ns['Top'], v, J.flat(top), mode, f'Top.fa: {schema} [{style}]')


def _bare(ctx, env, schema, small, mode):
    T = J.parse(schema)
    tds = closure(T)
    ns = J.module(tds, 'quoted')
    typ = eval(J.py(T), ns)
    if typ is None:
        typ = type(None)
    keys = ('fa', 'fb', 'fc') if 'T4' in tds else ('fa', 'fb')
    b = V.Bounds(keys=keys, maxlen=1 if small else 2, extra=0 if small else 1)
    v = V.make(ctx, 'v', min(max(depth_of(T), 1), 3), b)
    judge(ctx, env, T, typ, v, J.flat(tds), mode, f'{schema}')


def field(ctx, env, schema, style, small=False):
    _field(ctx, env, schema, style, small, 'C01')


def bare(ctx, env, schema, small=False):
    _bare(ctx, env, schema, small, 'C01')
