"""C08: fields of TypedDicts are optional if and only if they are marked with a question mark"""
from .tsdoc import *
from .c07 import LEAF, parse, subst

BOUNDS = {
    'quick': {'documents': '14 shapes of documents (interfaces, classes, anonymous interfaces in fields, '
              'aliases, unions, arrays and tuples, inheritance, generics, maps, functions, namespaces) '
              'with two or three fields the types of which are drawn from a family of 22',
              'optional marks': 'symbolic for each field',
              'names': 'all distinct names of 2-3 letters or digits, no reserved words',
              'configuration': 'UseNotRequired symbolic; four combinations of the other switches'},
    'thorough': {'documents': 'as in the quick tier, with all pairs of types and all switches symbolic'}}
ASSUMPTIONS = [
    'without NotRequired, fields the type of which admits null are understood as optional '
    '(documented in Mapping.rst): nothing is asserted for them in this configuration']

TYPES = ['str', 'K', 'L', 'Own', 'arr(str)', 'arr(L)', 'u(K,num)', 'u(L,i)', 's', 'any',
         'map(str,K)', 'map(str,L)', 'tup(str,L)', 'u(str,null)', 'garr(L)', 'anon(str,K)', 'u(L,K)',
         'arr(u(L,str))', 'u(anon(K),num)', 'obj', 'map(str,u(str,null))', 'arr(u(num,null))',
         'fn(str,null)']
SHAPES = ['plain', 'commas', 'readonly', 'class', 'anonfield', 'anonalias', 'anonarr', 'anonunion',
          'inherit', 'inherit2', 'anonbase', 'nested', 'generic', 'anonparam', 'namespace', 'override',
          'single', 'comments']


def jobs(tier):
    out = []
    n = len(TYPES)
    for i, s in enumerate(SHAPES):
        for j in range(n):
            for k in ([(j * 3 + i) % n] if tier == 'quick' else range(n)):
                if tier == 'quick' and (i + j) % 3:
                    continue
                out.append(('required', {'shape': s, 'a': TYPES[j], 'b': TYPES[k],
                                         'fix': (i + j // 4) % 4 if tier == 'quick' else None}))
    return out


def admits_null(T):
    return T == ('b', 'null') or T[0] == 'u' and any(admits_null(x) for x in T[1:])


def required(ctx, env, shape, a, b, fix=None):
    if fix is None:
        cfg = configure(ctx, env, ('UseTypeUnion', 'UseNotRequired', 'UseLiteralType', 'UseVariadicGenerics'))
    else:       # quick: the other switches are set differently in different jobs
        cfg = configure(ctx, env, ('UseNotRequired',), UseTypeUnion=bool(fix & 1),
                        UseLiteralType=bool(fix & 2), UseVariadicGenerics=fix in (1, 2),
                        RenderAnonymous=('local', 'toplevel')[fix in (2, 3)])
    if 'anon' in shape + a + b and fix is None:
        render_anon = ctx.choose('anonymous', 2, ['local', 'toplevel'])
        env.config(ctx, RenderAnonymous=render_anon)
    nm = Names(ctx, NOKEYWORDS | {'TT', 'self', 'par', 'key', 'Two'})
    names = {'K': nm.new('K', 2), 'L': nm.new('L', 3), 'Own': nm.new('Own', 3)}
    both = a + b + ('u' if shape in ('anonunion',) else '')
    names['p0'], names['p1'] = nm.new('p0', 2), nm.new('p1', 2)
    if 's' in (a, b):
        names['S'] = 'x y'
    own = names['Own']
    other = nm.new('Other', 3) if shape in ('inherit', 'inherit2', 'anonbase', 'override') else None
    A, B = subst(parse(a), names), subst(parse(b), names)
    f1, f2, f3 = nm.new('f1', 3), nm.new('f2', 2), nm.new('f3', 3)
    marks = ctx.str('marks', 3, QM, QM)
    m1, m2, m3 = marks[0], marks[1], marks[2]
    F1, F2, F3 = f'{f1}{m1}: {render(A)}', f'{f2}{m2}: {render(B)}', f'{f3}{m3}: string'
    own_fields = [(f1, m1, A), (f2, m2, B)]
    pre = f'interface {names["K"]} {{ }}\n'
    path = []           # fields to follow from the own class to the one that is checked
    if shape == 'plain':
        src = f'interface {own} {{ {F1}; {F2}; {F3} }}\n'
        own_fields.append((f3, m3, ('b', 'string')))
    elif shape == 'single':
        src = f'interface {own} {{ {F1} }}\n'
        own_fields.pop()
    elif shape == 'comments':
        src = f'interface {own} {{\n  /** the ? first */\n  {F1};\n  // is it optional?\n  {F2}; // ?\n}}\n'
    elif shape == 'commas':
        src = f'export interface {own} {{\n {F1},\n {F2},\n}}\n'
    elif shape == 'readonly':
        src = f'export interface {own} {{ readonly {F1};\n {F2};\n readonly {F3}; }}\n'
        own_fields.append((f3, m3, ('b', 'string')))
    elif shape == 'class':
        src = f'export declare class {own} {{ {F1}; {F2} }}\n'
    elif shape == 'anonfield':
        src = f'interface {own} {{ {f3}{m3}: {{ {F1}; {F2} }} }}\n'
        path = [f3]
    elif shape == 'anonalias':
        src = f'type {own} = {{ {F1}; {F2} }};\n'
    elif shape == 'anonarr':
        src = f'interface {own} {{ {f3}{m3}: Array<{{ {F1}; {F2} }}>; }}\n'
        path = [f3]
    elif shape == 'anonunion':
        src = f'interface {own} {{ {f3}{m3}: string | {{ {F1}; {F2} }} | null; }}\n'
        path = [f3]
    elif shape == 'nested':
        src = f'interface {own} {{ {f3}{m3}: {{ {f2}?: {{ {F1}; {F2} }} }} }}\n'
        path = [f3, f2]
    elif shape in ('inherit', 'override'):
        src = (f'interface {other} {{ {F1}; {F3} }}\n'
               f'interface {own} extends {other} {{ {F2} }}\n')
        own_fields = [(f1, m1, A), (f3, m3, ('b', 'string')), (f2, m2, B)]
        if shape == 'override':
            # a field is declared anew, with an other mark
            src = src.replace(f'{{ {F2} }}\n', f'{{ {F2}; {f3}{m2}: number }}\n')
            own_fields[1] = (f3, m2, ('b', 'number'))
    elif shape == 'inherit2':
        src = (f'interface {other} {{ {F1} }}\ninterface Two {{ {F2} }}\n'
               f'interface {own} extends {other}, Two {{ {F3} }}\n')
        own_fields.append((f3, m3, ('b', 'string')))
    elif shape == 'anonbase':
        src = (f'interface {other} {{ {f3}: {{ {F3} }} }}\n'
               f'interface {own} extends {other} {{ {F1}; {F2} }}\n')
        own_fields.append((f3, ' ', ('b', 'string')))
    elif shape == 'generic':
        src = f'interface {own}<TT> {{ {F1}; {F2}; {f3}{m3}: TT }}\n'
        own_fields.append((f3, m3, ('b', 'string')))
    elif shape == 'anonparam':
        src = f'interface {own} {{ {f3}(par{m3}: {{ {F1}; {F2} }}): string; }}\n'
        path = [f3]
    elif shape == 'namespace':
        src = f'interface {own} {{ {F1}; {F2} }}\nnamespace Nmsp {{ export const xy = 1; }}\n'
    src = pre + src + f'interface {names["L"]} {{ {f1}: string; {f2}?: string }}\n'
    m = Module(ctx, env, src)
    if m.ns is None:
        return
    cls = m.get(own)
    scopes = ()
    for i, p in enumerate(path):
        if not isinstance(cls, type):
            ctx.check(False, 'an interface is missing', m.show())
            return
        scopes = (cls.__dict__,) + scopes
        if shape == 'anonparam':
            ann = {p: cls.__dict__[p].__annotations__.get('par')} if p in cls.__dict__ else {}
        else:
            ann = cls.__dict__.get('__annotations__', {})
        if p not in ann:
            ctx.check(False, 'a field is missing', m.show())
            return
        cls = anonymous(m.rd, ann[p], scopes)
    if not isinstance(cls, type):
        ctx.check(False, 'an interface is missing', m.show())
        return
    req = getattr(cls, '__required_keys__', ())
    opt = getattr(cls, '__optional_keys__', ())
    if len(req) + len(opt) != len(own_fields):
        ctx.check(False, 'a field is missing or there are superfluous fields',
                  f'{m.show()}\nrequired: {sorted(req)} optional: {sorted(opt)}')
        return
    for n, mark, T in own_fields:
        isopt = among(ctx, n, opt)
        ctx.check(ctx.Or(isopt, among(ctx, n, req)), 'a field is missing', f'{n}: {m.show()}')
        if admits_null(T) and not cfg['UseNotRequired']:
            continue
        ctx.check(ctx.Iff(ctx.Eq(mark, '?'), isopt),
                  'a field is not optional if and only if it has a question mark',
                  f'{n}: {m.show()}\nrequired: {sorted(req)} optional: {sorted(opt)}')
    ctx.observe(f'{len(req)} {len(opt)}')


def among(ctx, n, keys):
    return ctx.Or(*[pyname(ctx, k, n) for k in keys])


def anonymous(rd, a, scopes):
    """the anonymous class within an annotation"""
    n = rd.norm(a, scopes, strip_nr=True)

    def search(n):
        if n[0] == 'cls':
            return n[1]
        for x in n[1:]:
            if isinstance(x, tuple):
                for y in (x,) if x and isinstance(x[0], str) else x:
                    c = search(y) if isinstance(y, tuple) else None
                    if c is not None:
                        return c
        return None
    return search(n)


QM = mask_of('? ')
