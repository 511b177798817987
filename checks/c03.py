"""C03: validation has no side effects and no memory"""
import copy

from symx import values as V
from . import jsonv as J
from .c01 import TDS, closure, depth_of

BOUNDS = {'quick': 'JSON values up to depth 3, arrays up to length 2, declared keys plus one arbitrary key; '
                   '~60 type expressions; histories of three validations, types (and guarded functions) of two modules '
                   'with equally named but different classes'}
ASSUMPTIONS = ['single-threaded use']
VALIDATE = {'quick': 29, 'thorough': 29}

LEAF = ['str', 'int', 'float', 'bool', 'none', 'any', 'ls', 'li', 'es', 'ei', 'td', 'listany',
        'dictany']


def schemas(tier):
    out = list(LEAF)
    for a in LEAF:
        out += [f'list({a})', f'dict({a})', f'tuple({a},str)', f'seq({a})', f'union({a},bool)']
    out += ['T2', 'T3', 'T4', 'list(T2)', 'dict(td)', 'union(td,none)', 'list(union(td,none))',
            'union(list(td),bool)', 'list(list(td))', 'tuple(td,td)', 'union(T3,td)']
    if tier == 'thorough':
        for a in LEAF:
            out += [f'list(list({a}))', f'dict(list({a}))', f'list(dict({a}))',
                    f'list(union({a},none))', f'union(list({a}),dict({a}))',
                    f'tuple(list({a}),dict({a}))']
    return out


def jobs(tier):
    out = []
    for i, s in enumerate(schemas(tier)):
        styles = ['quoted', 'string'] if 'td' in s or 'T' in s else ['direct', 'string']
        if tier == 'quick':
            styles = [styles[i % 2]]
        for st in styles:
            out.append(('pure', {'schema': s, 'style': st}))
    for s in ['td', 'list(td)', 'dict(td)', 'union(none,td)', 'tuple(td,td)', 'list(list(td))',
              'union(list(td),bool)', 'dict(union(td,none))', 'seq(td)', 'list(union(td,str))']:
        for st in ('quoted', 'string'):
            out.append(('modules', {'schema': s, 'style': st}))
            out.append(('guards', {'schema': s, 'style': st}))
    for s in ('list', 'dict', 'tuple'):
        for st in ('quoted', 'string'):
            out.append(('guards', {'schema': s, 'style': st}))
    return out


def same(a, b):
    """identical structure, values and types"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def run(ctx, env, v, typ, label):
    before = None if ctx.symbolic else copy.deepcopy(v)
    res, msg = J.attempt(env.jv.validate_type, v, typ)
    changed = v.root.mutated if V.is_jv(v) else not same(v, before)
    ctx.check(not changed, 'validation changes the data', f'{label}: {typ}')
    ctx.check(res in ('ok', 'type', 'value'), 'validation fails with another exception than a '
              'TypeError or ValueError', f'{label}: {typ} -> {res} {msg}')
    return res


def pure(ctx, env, schema, style):
    T = J.parse(schema)
    tds = closure(T)
    top = {**tds, 'Top': (None, (('fa', T, False), ('fb', ('int',), True)))}
    ns = J.module(top, style)
    keys = ('fa', 'fb', 'fc') if 'T4' in tds else ('fa', 'fb')
    big = 'T3' in schema or schema.count('(') > 1
    b = V.Bounds(keys=keys, maxlen=1 if big else 2, extra=0 if big else 1)
    v = V.make(ctx, 'v', 1 + min(depth_of(T), 2), b)
    r1 = run(ctx, env, v, ns['Top'], schema)
    r2 = run(ctx, env, v, ns['Top'], schema)
    ctx.observe(r1)
    ctx.check((r1 == 'ok') == (r2 == 'ok'), 'repeating a validation yields a different result',
              f'{schema} [{style}]: {r1} then {r2}')


A1 = (None, (('fa', ('int',), False),))
B1 = (None, (('fa', ('str',), False),))


def modules(ctx, env, schema, style):
    """two modules define different classes of the same name"""
    T = J.parse(schema)
    sides = []
    for name, t1 in (('gen_json_a', A1), ('gen_json_b', B1)):
        top = {'T1': t1, 'Top': (None, (('fa', T, False),))}
        sides.append((J.module(top, style, name), J.flat(top)))
    b = V.Bounds(keys=('fa',), maxlen=1, extra=0)
    d = 1 + max(depth_of(T), 1)
    order = ctx.choose('first', 2)
    results = []
    for i, k in enumerate((order, 1 - order)):
        ns, tds = sides[k]
        v = V.make(ctx, f'v{i}', d, b)
        r = run(ctx, env, v, ns['Top'], schema)
        results.append(r)
        ctx.check(ctx.Iff(r == 'ok', V.conforms(ctx, v, ('td', 'Top'), tds)),
                  'the result depends on an earlier validation with another module',
                  f'{schema} [{style}] validation {i} -> {r}')
    ctx.observe(','.join(results))


def guards(ctx, env, schema, style):
    """functions of two modules with annotations that read the same, for different types"""
    if schema in ('list', 'dict', 'tuple'):     # recursive aliases
        inner = {'list': "List['T0']", 'dict': "Dict[str, 'T0']", 'tuple': "Tuple['T0', str]"}[schema]
        T = ('ref', 'T0')
        other = (schema, T) if schema != 'tuple' else ('tuple', T, ('str',))
        note = 'T0' if style == 'quoted' else "'T0'"
        leaves = ('int', 'bool')
        heads = [f'T0 = Union[{a}, {inner}]\n' for a in leaves]
        tdss = [{'T0': ('union', (a,), other)} for a in leaves]
        d = 2
    else:
        T = J.parse(schema)
        note = J.py(T, True) if style == 'quoted' else repr(J.py(T))
        heads = [J.source({'T1': t}, 'direct') for t in (A1, B1)]
        tdss = [J.flat({'T1': t}) for t in (A1, B1)]
        d = max(depth_of(T), 1)
    b = V.Bounds(keys=('fa',), maxlen=2 if schema == 'tuple' else 1, extra=0)
    order = ctx.choose('first', 2)
    late = ctx.choose('decorated', 2, ['at once', 'afterwards'])
    mods = []
    for i, name in enumerate(('gen_guard_a', 'gen_guard_b')):
        g = f'def g(x: {note}):\n    pass\n'
        src = J.HEAD + (heads[i] + g if T[0] == 'ref' or 'T1' not in note else g + heads[i])
        ns = J.exec_module(src, name)
        mods.append((ns, tdss[i]))
    results = []
    use = [mods[order], mods[1 - order]]
    if late:
        fs = [env.jv.type_check(ns['g']) for ns, _ in use]
    for i, (ns, tds) in enumerate(use):
        v = V.make(ctx, f'v{i}', d, b)
        f = fs[i] if late else env.jv.type_check(ns['g'])
        r, msg = J.attempt(f, v)
        results.append(r)
        ctx.check(ctx.Iff(r == 'ok', V.conforms(ctx, v, T, tds)),
                  'the verdict on an argument depends on functions of another module',
                  f'{schema} [{style}] call {i} -> {r} {msg}')
    ctx.observe(','.join(results))
