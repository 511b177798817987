"""C11: white space and comments do not influence the generated code"""
import re

from .tsdoc import *

DOCS = {
    'iface': 'export interface Aa<TT> extends Bb { ff: string; readonly gg?: Cc[], hh: number }',
    'types': 'interface Aa { ff: string | Array<number> | null; gg: [string, Cc]; hh: { [key: string]: Cc } }',
    'anon': 'interface Aa { ff: { gg: string; hh?: number }; ii: Array<{ gg: "x y" }> }',
    'lits': 'interface Aa { ff: "a" | \'b\' | 1 | -2.5 | true; gg?: (string | number)[] }',
    'methods': 'declare class Aa { ff(aa: string, bb?: Cc, ...rest: string[]): void; static gg(): Aa; '
               'hh: (aa: Cc) => string }',
    'alias': 'export type Aa<TT> = TT | { ff: Cc } | Cc[]; type Bb = string;',
    'enums': 'export enum Aa { ff = 1, gg = 2, } enum Bb { ff = "x", "gg" = \'y\' }',
    'consts': 'export const aa: number = 3; const bb = "x"; export const cc: Cc; const dd: string = "y";',
    'names': 'export namespace Aa { export const ff: 1 = 1; export const gg: 2 = 2; } '
             'namespace Bb { interface Ff { gg: string } export function ff(aa: string): void; }',
    'funcs': 'export function aa(bb: string, cc?: number): Cc; function dd(...rest: string[]): void;',
    'imports': 'import { Aa, Bb } from "xx"; declare interface Cc { ff: Aa.Bb }',
    'assign': 'aa = { ff: 1, gg: [2, "x"] }; interface Aa { ff: string }',
}
WSCHARS = mask_of(' \t\n\r')
PRINT = mask_of(map(chr, range(32, 127)))
BOUNDS = {
    'quick': {'documents': f'{len(DOCS)} documents that cover all kinds of declarations',
              'places': 'every gap between two tokens, one at a time, and all gaps at once',
              'white space': 'one or two symbolic characters of blank, tab, line feed, carriage return',
              'comments': '// and /* */ comments of up to 4 symbolic printable characters (and line '
              'feeds, within the latter), before or after white space'},
    'thorough': 'the same, with two gaps at once and comments of up to 8 symbolic characters'}
ASSUMPTIONS = ['[] and dotted names are single tokens',
               'comments do not end before their last character',
               'KeepMultilineComments is False (the default; C20 is about keeping comments)']
TOKEN = re.compile(r'''"[^"]*"|'[^']*'|-?\d+(?:\.\d+)?|\w+(?:\.\w+)*|=>|\.\.\.|\[\]|[^\w\s]''')
KINDS = {'quick': ['ws1', 'ws2', 'line2', 'block2', 'block0', 'wsline', 'twocomments', 'doc3'],
         'thorough': ['ws1', 'ws2', 'ws3', 'line2', 'line6', 'block2', 'block6', 'block0', 'wsline',
                      'twocomments', 'doc3', 'doc6', 'pair']}


VALIDATE = {'quick': 20, 'thorough': 40}


def jobs(tier):
    out = []
    for d in DOCS:
        n = len(TOKEN.findall(DOCS[d]))
        for k in KINDS[tier]:
            step = 12
            for i in range(0, n + 1, step):
                out.append(('gap', {'doc': d, 'kind': k, 'first': i, 'count': min(step, n + 1 - i)}))
        out.append(('everywhere', {'doc': d}))
        out.append(('minimal', {'doc': d}))
        out.append(('ending', {'doc': d}))
    return out


def wordlike(t):
    return re.match(r'\w', t[-1]) is not None


def filling(ctx, kind, role='c'):
    """-> text; the text separates tokens if it is not empty"""
    n = int(kind[-1]) if kind[-1].isdigit() else 0
    if kind.startswith('ws') and n:
        return ctx.str(role, n, WSCHARS, WSCHARS)
    if kind.startswith('line'):
        return '//' + ctx.str(role, n, PRINT, PRINT) + '\n'
    if kind == 'wsline':
        return ctx.str(role + 'w', 1, WSCHARS, WSCHARS) + '//' + ctx.str(role, 1, PRINT, PRINT) + '\n' + \
            ctx.str(role + 'v', 1, WSCHARS, WSCHARS)
    if kind == 'block0':
        return '/**/'
    if kind == 'twocomments':
        return '/*' + comment(ctx, role, 1) + '*/' + ctx.str(role + 'w', 1, WSCHARS, WSCHARS) + '//' + \
            ctx.str(role + 'l', 1, PRINT, PRINT) + '\n'
    if kind.startswith('block'):
        return '/*' + comment(ctx, role, n) + '*/'
    if kind.startswith('doc'):
        return '\n/** ' + comment(ctx, role, n - 1) + '\n * x' + comment(ctx, role + 'x', 1) + ' */ \n'
    raise AssertionError(kind)


def comment(ctx, role, n):
    s = ctx.str(role, n, PRINT | mask_of('\n'), PRINT | mask_of('\n'))
    for i in range(n):
        a, b = s[i], (s + '*')[i + 1]
        # no end of the comment inside of the comment
        if i + 1 < n:
            ctx.assume(ctx.Not(ctx.And(ctx.Eq(a, '*'), ctx.Eq(b, '/'))))
    if n:
        ctx.assume(ctx.Not(ctx.Eq(s[0], '/')))      # /*/ is no comment
    return s


def normal(code):
    """the structure of the generated code"""
    try:
        return ast.dump(ast.parse(code[:code.find('source_hash__')] + body(code)))
    except SyntaxError as e:
        return f'SyntaxError: {e}'


_base = {}


def compare(ctx, env, doc, src):
    env.fresh(ctx)
    flag = bool(hash(doc) & 0) or doc in ('lits', 'names')
    env.config(ctx, UseLiteralType=flag)
    base = _base.get(doc)
    if base is None:
        code, errors = env.compile(DOCS[doc] + '\n')
        assert not [e for e in errors if e.code >= 1000], errors
        base = _base[doc] = (normal(code), sorted(e.code for e in errors))
        env.fresh(ctx)
        env.config(ctx, UseLiteralType=flag)
    try:
        code, errors = env.compile(src)
    except Exception as e:
        ctx.check(False, 'the transpiler raises an exception', f'{src!r}\n{type(e).__name__}: {e}')
        return
    errs = sorted(e.code for e in errors)
    ctx.check(errs == base[1], 'white space or comments make a document unacceptable',
              f'{src!r}\n{[e.message for e in errors][:2]}')
    ctx.check(normal(code) == base[0], 'white space or comments change the generated code',
              f'{src!r}\n{body(code)}')
    ctx.observe('ok')


def gap(ctx, env, doc, kind, first, count):
    toks = TOKEN.findall(DOCS[doc])
    i = first + ctx.choose('gap', count)
    seps = [' '] * (len(toks) + 1)
    if kind == 'pair':
        j = ctx.choose('gap2', 3) + 1
        seps[i] = filling(ctx, 'block2') + ' '
        if i + j < len(seps):
            seps[i + j] = filling(ctx, 'line2', 'd')
    else:
        f = filling(ctx, kind)
        seps[i] = ctx.choose('where', 3, ['', ' ', None])
        seps[i] = f if seps[i] == '' else f + ' ' if seps[i] == ' ' else ' ' + f
    src = ''.join(s + t for s, t in zip(seps, toks + ['']))
    compare(ctx, env, doc, src + '\n')


def everywhere(ctx, env, doc):
    """the same filling in all gaps"""
    toks = TOKEN.findall(DOCS[doc])
    kind = ctx.choose('kind', 3, ['ws1', 'line2', 'block2'])
    f = filling(ctx, kind)
    compare(ctx, env, doc, f + f.join(toks) + f + '\n')


def minimal(ctx, env, doc):
    """no superfluous white space at all"""
    toks = TOKEN.findall(DOCS[doc])
    sep = ctx.str('sep', 1, WSCHARS, WSCHARS)
    src = toks[0]
    for a, b in zip(toks, toks[1:]):
        src += (sep if wordlike(a) and (wordlike(b) or b[0] == '-') else '') + b
    compare(ctx, env, doc, src + '\n')


def ending(ctx, env, doc):
    """beginning and end of the document"""
    kind = ctx.choose('kind', 6)
    a, b = '', ''
    if kind == 0:
        b = '//' + ctx.str('c', 3, PRINT, PRINT)        # no line feed at the end
    elif kind == 1:
        b = '/*' + comment(ctx, 'c', 2) + '*/'
    elif kind == 2:
        a = '//' + ctx.str('c', 2, PRINT, PRINT)
    elif kind == 3:
        b = ctx.str('c', 2, WSCHARS, WSCHARS)
    elif kind == 4:
        a = ctx.str('c', 2, WSCHARS, WSCHARS) + '/*' + comment(ctx, 'd', 1) + '*/'
    else:
        b = '//'
    compare(ctx, env, doc, a + '\n' + DOCS[doc] + b)
