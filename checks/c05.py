"""C05: which keys of a TypedDict (of the shim) are required"""
import types

from symx import rt
from symx.core import mask_of, FULL
from symx.env import exec_module

BOUNDS = {'quick': 'annotations as strings with symbolic names (1 to 11 characters) and symbolic contents '
                   'of literals (up to 4 characters); class hierarchies of up to 3 levels or 2 bases '
                   'with symbolic field names of up to 2 characters'}
ASSUMPTIONS = ['names in string annotations are unqualified and no Python keywords except None',
               'unions inside of unions are flattened by typing only if they are not part of a '
               'string annotation']

PRINT = mask_of(c for c in map(chr, range(32, 127)) if c not in '\'"\\')

# annotation templates: 'n4' a name of 4 characters, ('|', a, b), ('X', n, args): name of n
# characters applied to arguments, ('L', n) literal string of n characters
TEMPLATES = [
    'n1', 'n3', 'n4', 'n5',
    ('|', 'n4', 'n4'), ('|', 'n3', 'n4', 'n4'), ('|', 'n5', 'n3'), ('|', 'n4', 'n6'), ('|', 'n8', 'n4'),
    ('X', 5, 'n4', 'n4'), ('X', 5, 'n3', 'n4', 'n4'), ('X', 5, 'n5', 'n8'), ('X', 5, 'n4'),
    ('X', 8, 'n3'), ('X', 11, 'n3'), ('X', 8, 'n4'), ('X', 11, 'n4'), ('X', 4, 'n4'), ('X', 7, 'n3'),
    ('X', 9, 'n3'), ('X', 12, 'n4'),
    ('X', 4, ('|', 'n3', 'n4')), ('X', 4, ('X', 5, 'n3', 'n4')), ('X', 4, 'n3', ('|', 'n3', 'n4')),
    ('|', ('X', 4, 'n4'), 'n3'), ('|', ('X', 4, 'n4'), 'n4'), ('|', 'n4', ('X', 4, 'n3', 'n4')),
    ('X', 5, ('X', 4, 'n4'), 'n3'), ('X', 5, ('X', 4, 'n4'), 'n4'), ('X', 5, 'n4', ('X', 4, 'n4', 'n4')),
    ('X', 5, ('X', 4, ('|', 'n3', 'n4')), 'n4'), ('|', ('X', 4, ('X', 4, 'n4')), 'n4'),
    ('L', 4), ('|', ('L', 4), 'n4'), ('|', 'n4', ('L', 4)), ('X', 5, ('L', 4), 'n4'),
    ('|', ('L', 2), ('L', 2)), ('X', 8, ('L', 3)), ('X', 4, ('L', 2)),
    ('X', 8, ('|', 'n3', 'n3')), ('X', 11, ('X', 8, 'n3')), ('X', 11, ('X', 4, 'n4')),
]


def rebuild(t, depth=0):
    return t


def jobs(tier):
    out = []
    for t in TEMPLATES:
        for ws in ([''] if tier == 'quick' else ['', ' ']):
            out.append(('text', {'template': t, 'ws': ws}))
    forms = range(len(FORMS))
    for a in forms:
        for b in (forms if tier == 'thorough' else [(a + 3) % len(FORMS), (a + 8) % len(FORMS),
                                                    (a + 13) % len(FORMS)]):
            out.append(('inherit', {'fa': a, 'fb': b, 'fc': (a + b) % len(FORMS)}))
    for k in range(len(FORMS)):
        out.append(('shapes', {'first': k}))
    return out


class Tpl:
    def __init__(self, ctx, ws):
        self.ctx = ctx
        self.ws = ws
        self.i = 0

    def name(self, n, args):
        self.i += 1
        s = self.ctx.ident(f'n{self.i}', n)
        import keyword
        bad = [k for k in keyword.kwlist if k != 'None' and len(k) == n]
        if args and n == 4:
            bad.append('None')
        if bad:
            self.ctx.assume(self.ctx.Not(self.ctx.In(s, bad)))
        return s

    def build(self, t):
        """-> (text, formula: None is an alternative, formula: not required)"""
        ctx = self.ctx
        w = self.ws
        if isinstance(t, str):
            s = self.name(int(t[1:]), False)
            f = ctx.Eq(s, 'None')
            return s, f, f
        if t[0] == '|':
            parts = [self.build(x) for x in t[1:]]
            f = ctx.Or(*[p[1] for p in parts])
            return ' | '.join(p[0] for p in parts), f, f
        if t[0] == 'L':
            self.i += 1
            s = ctx.str(f'lit{self.i}', t[1], PRINT, PRINT)
            return f"Literal['{s}']", False, False
        x = self.name(t[1], True)
        parts = [self.build(y) for y in t[2:]]
        union = ctx.And(ctx.Eq(x, 'Union'), ctx.Or(*[p[1] for p in parts]))
        opt = ctx.Or(ctx.Eq(x, 'Optional'), ctx.Eq(x, 'NotRequired'))
        return f"{x}[{w}{', '.join(p[0] for p in parts)}{w}]", False, ctx.Or(union, opt)


def members(ctx, name, keys):
    """formula: name is one of the keys"""
    return ctx.Or(*[ctx.Eq(name, k) for k in list(keys)])


def text(ctx, env, template, ws):
    T = totuple(template)
    s, _, optional = Tpl(ctx, ws).build(T)
    td = env.td
    try:
        C = td.TypedDict('C', {'fa': s, 'fb': int})
    except Exception as e:
        ctx.check(False, 'a valid annotation is refused', f'{s}: {type(e).__name__} {e}')
        return
    req, opt = 'fa' in C.__required_keys__, 'fa' in C.__optional_keys__
    ctx.observe(f'{req} {opt}')
    ctx.check(req != opt, 'a field is neither required nor optional or both', s)
    ctx.check(ctx.Iff(opt, optional), 'a field is optional if and only if it is annotated as such',
              f'fa: {s!r} -> {"optional" if opt else "required"}')
    ctx.check('fb' in C.__required_keys__ and 'fb' not in C.__optional_keys__,
              'another field is affected', s)


def totuple(t):
    return tuple(totuple(x) for x in t) if isinstance(t, (list, tuple)) else t


# direct and quoted annotations and whether they mark a field as optional
FORMS = [
    ('int', 0), ("'int'", 0), ('List[Optional[int]]', 0), ("'Other'", 0), ('Union[int, str]', 0),
    ("Literal['None']", 0), ('Dict[str, None]', 0), ('Any', 0), ("'List[int | None]'", 0),
    ("Union['NoneSuch', int]", 0), ('int | str', 0), ("Literal['x', 'None']", 0),
    ('Optional[int]', 1), ('Union[None, int]', 1), ('int | None', 1), ('NotRequired[int]', 1),
    ("'Optional[int]'", 1), ("'int | None'", 1), ("NotRequired['Other']", 1), ("Optional['Other']", 1),
    ("Union['Other', None]", 1), ('None', 1), ("'NotRequired[int]'", 1),
    ("Union[Union[int, None], str]", 1), ("NotRequired[List[int]]", 1), ("'Union[Other, None]'", 1),
]
SRC = ('from typing import *\nfrom typing import NotRequired\nFORMS = [' + ', '.join(f for f, _ in FORMS) + ']\n')


def forms():
    return exec_module(SRC, 'gen_forms')['FORMS']


def new(td, name, bases, ann, **kw):
    return types.new_class(name, bases, kw, lambda ns: ns.update({'__annotations__': ann,
                                                                  '__module__': 'gen_forms'}))


def expect(ctx, C, fields, what):
    """fields: [(name, form)] in order of declaration; later ones override"""
    for i, (n, k) in enumerate(fields):
        opt = bool(FORMS[k][1])
        later = fields[i + 1:]
        over = ctx.Or(*[ctx.Eq(n, m) for m, _ in later])
        inopt, inreq = members(ctx, n, C.__optional_keys__), members(ctx, n, C.__required_keys__)
        ctx.check(ctx.Or(over, ctx.And(ctx.Iff(inopt, opt), ctx.Iff(inreq, not opt))),
                  'the last declaration of a field decides whether it is optional',
                  f'{what}: {n}: {FORMS[k][0]} among {[(m, FORMS[j][0]) for m, j in fields]}; '
                  f'required: {list(C.__required_keys__)} optional: {list(C.__optional_keys__)}')
        ctx.check(members(ctx, n, C.__annotations__), 'the annotation of a field is missing', f'{n}')
    for k in list(C.__optional_keys__) + list(C.__required_keys__) + list(C.__annotations__):
        ctx.check(members(ctx, k, [n for n, _ in fields]), 'an undeclared key', f'{what}: {k}')


def inherit(ctx, env, fa, fb, fc):
    td = env.td
    F = forms()
    shape = ctx.choose('shape', 4, ['B(A)', 'C(B(A))', 'C(A, B)', 'B(A) total'])
    a1, a2 = ctx.ident('a1', 2), ctx.ident('a2', 2)
    b1 = ctx.ident('b1', 2)
    ctx.assume(ctx.Not(ctx.Eq(a1, a2)))
    A = new(td, 'A', (td.TypedDict,), {a1: F[fa], a2: F[fc]})
    base = [(a1, fa), (a2, fc)]
    expect(ctx, A, base, 'A')
    if shape == 'C(A, B)':
        B = new(td, 'B', (td.TypedDict,), {b1: F[fb]})
        c1 = ctx.ident('c1', 2)
        ctx.assume(ctx.And(ctx.Not(ctx.Eq(b1, a1)), ctx.Not(ctx.Eq(b1, a2))))
        C = new(td, 'C', (A, B), {c1: F[fa]})
        expect(ctx, C, base + [(b1, fb), (c1, fa)], shape)
        expect(ctx, B, [(b1, fb)], 'B')
    else:
        kw = {'total': False} if shape == 'B(A) total' else {}
        B = new(td, 'B', (A, td.TypedDict) if kw else (A,), {b1: F[fb]}, **kw)
        expect(ctx, B, base + [(b1, fb)], shape)
        if shape == 'C(B(A))':
            c1 = ctx.ident('c1', 2)
            C = new(td, 'C', (B,), {c1: F[fc]})
            expect(ctx, C, base + [(b1, fb), (c1, fc)], shape)
    expect(ctx, A, base, 'A (after the definition of derived classes)')
    ctx.observe(shape + ' ' + ' '.join(sorted(C.__optional_keys__) if False else []))


def shapes(ctx, env, first):
    """the ways to define a TypedDict; TypedDicts at runtime are dictionaries"""
    td = env.td
    F = forms()
    how = ctx.choose('how', 5, ['class', 'dict', 'kwargs', 'generic', 'class total=False'])
    k2 = ctx.choose('second', len(FORMS))
    n1, n2 = ctx.ident('n1', 2), ctx.ident('n2', 2)
    ctx.assume(ctx.Not(ctx.Eq(n1, n2)))
    ann = {n1: F[first], n2: F[k2]}
    if how == 'class':
        C = new(td, 'C', (td.TypedDict,), ann)
    elif how == 'class total=False':
        C = new(td, 'C', (td.TypedDict,), ann, total=False)
    elif how == 'dict':
        C = td.TypedDict('C', ann)
    elif how == 'kwargs':
        C = td.TypedDict('C', **ann)
    else:
        import typing
        X = typing.TypeVar('X')
        C = new(td, 'C', (typing.Generic[X], td.GenericTypedDict), ann)
    expect(ctx, C, [(n1, first), (n2, k2)], how)
    v = C(x=1)
    ctx.check(type(v) is dict and v == {'x': 1}, 'instances are not plain dictionaries', how)
    ctx.check(env.jv.is_TypedDictClass(C) is True, 'the class is not recognized as TypedDict', how)
    ctx.observe(how)
