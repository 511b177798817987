"""C14: the result of a compilation depends on nothing but the document and the configuration"""
import os
import re
import shutil
import tempfile

from . import c09
from .tsdoc import *

BOUNDS = {
    'quick': {'histories': 'a document of two declarations is compiled after another document with another '
              'configuration in the same process; pairs of 39 kinds of documents (with errors, warnings and '
              'interruptions by an exception, too), two elevenths of the pairs and all pairs of the same kind',
              'names': 'names in both documents with a symbolic character, that may or may not coincide',
              'order': 'every order of iteration over a set of up to four elements, for one iteration at a time, and '
              'all iterations over sets in reverse order',
              'batches': 'three files of five kinds in any order, symbolic names of the files (2 letters)',
              'configuration': 'one or two symbolic switches in the last run'},
    'thorough': 'all pairs, histories of two documents before the last one, three symbolic switches'}
ASSUMPTIONS = ['the date in the first line of the generated module is left aside',
               'DHParser itself keeps no state between two runs of a grammar-object']
VALIDATE = {'quick': 10, 'thorough': 30}

KINDS = dict(c09.KINDS)
del KINDS['extends']
KINDS.update({
    'nsalias': 'namespace D { export const F = 1; export const G = 2; }\ntype D = 1 | 2;',
    'overfunc': 'function D(par: string): R;\nfunction D(par: number): string;\nfunction G(): D;',
    'twice': 'interface D { F: R }\ninterface D { G: R }',
    'inherit': 'interface D { F: R }\ninterface R extends D { G?: D }',
    'classbase': 'interface D { F(): R }\ninterface R extends D { G: D }',
    'deepanon': 'interface D { F: { G: { H: R }[] } }\ntype R = { F: { G: string } };',
    'comment': '/* D\n * R */\ninterface D { /* F\n */ F: R }\n// G\n',
    'union': 'type D = "a" | "b" | R | 1 | 2.5 | null | F | "a" | R;',
    'error': 'interface D { F: R }\ninterface R { G: }\ntype H = R;',
    'syntax': 'interface D { F: { G: R }\n type x y;',
    'broken': 'namespace D { interface R { F(par: { G: ',
    'empty': '',
})


def jobs(tier):
    out = []
    ks = list(KINDS)
    for i, a in enumerate(ks):
        for j, b in enumerate(ks):
            if tier == 'quick' and (i * 5 + j * 3) % 11 > 1 and a != b and (a, b) not in MORE:
                continue
            out.append(('history', {'before': [a], 'last': b}))
    if tier == 'thorough':
        for i, a in enumerate(ks):
            for j, b in enumerate(ks):
                out.append(('history', {'before': [a, ks[(i + 3 * j) % len(ks)]], 'last': b}))
    for a in ks:
        out.append(('exception', {'before': a, 'last': ks[(ks.index(a) * 7 + 3) % len(ks)]}))
        for b in (ks if tier == 'thorough' else ['iface', 'alias2', 'union', 'nsalias']):
            out.append(('order', {'doc': [a, b]}))
    for a in FILES:
        for b in FILES:
            for c in FILES:
                if tier == 'thorough' or len({a, b, c}) == 2:
                    out.append(('batch', {'kinds': [a, b, c]}))
    return out


MORE = {('iface', 'classbase'), ('inherit', 'classbase'), ('classbase', 'inherit'), ('method', 'inherit'),
        ('namespace', 'iface'), ('enum', 'alias'), ('generic', 'iface')}
SETS = [('UseTypeUnion', 'UseNotRequired'), ('UseLiteralType', 'UseEnum'),
        ('UseVariadicGenerics', 'KeepMultilineComments')]


def document(ctx, kind, i, nm):
    """symbolic names, unless nm is given, that can be the same as those of other documents"""
    if nm:
        d, r = nm + 'd', nm + 'r'
    else:
        d = 'Q' + ctx.str(f'd{i}', 1, NAMECHARS, NAMECHARS)
        r = 'Qr' + ctx.str(f'r{i}', 1, NAMECHARS, NAMECHARS)
    text = c09.words(ctx, KINDS[kind], {'D': d, 'R': r, 'F': 'ff', 'G': 'Gg', 'H': 'hh'})
    if 'R {' not in KINDS[kind] and 'R extends' not in KINDS[kind] and 'type R' not in KINDS[kind]:
        text += f'\ninterface {r} {{ ff?: {d}; Gg: {{ hh: {r} }} }}' if i % 2 else f'\ntype {r} = string | null;'
    return text + '\n'


def settings(ctx, env, i, flags):
    cfg = {f: bool(ctx.choose(f'{f}{i}', 2)) for f in flags}
    cfg['RenderAnonymous'] = ('local', 'toplevel', 'functional')[i % 3]
    return cfg


def run(ctx, env, text, cfg):
    """-> generated code and messages"""
    env.config(ctx, **cfg)
    try:
        code, errors = env.compile(text)
    except Exception as e:
        return f'exception: {type(e).__name__}: {e}', []
    return timeless(code or ''), [(e.code, e.message, e.pos) for e in errors]


def timeless(code):
    return re.sub(r'(?m)^# Generated by.*$', '', str(code))


def same(ctx, got, want, what, detail):
    ctx.check(len(got[1]) == len(want[1]), what, f'{detail}\nmessages: {got[1]}, expected: {want[1]}')
    ctx.check(ctx.And(*[ctx.And(a[0] == b[0], ctx.Eq(str(a[1]), str(b[1])), a[2] == b[2])
                        for a, b in zip(got[1], want[1])]), what,
              f'{detail}\nmessages: {got[1]}, expected: {want[1]}')
    ctx.check(ctx.Eq(got[0], want[0]), what, f'{detail}\n{body(got[0])}\nexpected:\n{body(want[0])}')


def history(ctx, env, before, last):
    docs = [document(ctx, k, i, None) for i, k in enumerate(before)]
    text = document(ctx, last, len(docs), None)
    n = len(KINDS)
    ks = list(KINDS)
    flags = SETS[(ks.index(before[0]) + ks.index(last)) % 3]
    cfgs = [settings(ctx, env, i, ()) for i in range(len(docs))]
    cfg = settings(ctx, env, len(docs), flags)
    cfg['RenderAnonymous'] = ('local', 'toplevel', 'functional')[(ks.index(before[0]) + ks.index(last)) % 2]
    env.fresh(ctx, grammar=True)
    want = run(ctx, env, text, cfg)
    env.fresh(ctx, grammar=True)
    for t, c in zip(docs, cfgs):
        for f in flags:
            c.setdefault(f, bool((ks.index(last) + len(c)) % 2))
        run(ctx, env, t, c)
    got = run(ctx, env, text, cfg)
    same(ctx, got, want, 'the result depends on the documents compiled before',
         f'{list(zip(docs, cfgs))}\nthen {cfg}\n{text}')
    again = run(ctx, env, text, cfg)
    same(ctx, again, want, 'the result depends on the documents compiled before',
         f'the same document twice, {cfg}\n{text}')
    ctx.observe(f'{got[0][-2000:]} {got[1]}')


def exception(ctx, env, before, last):
    """an illegal setting of the configuration"""
    text = document(ctx, last, 1, None)
    first = document(ctx, before, 2, None)
    cfg = settings(ctx, env, 0, ('UseNotRequired',))
    env.fresh(ctx, grammar=True)
    want = run(ctx, env, text, cfg)
    env.fresh(ctx, grammar=True)
    run(ctx, env, first, settings(ctx, env, 1, ()))
    word = ctx.str('word', 4, LETTERS)
    ctx.assume(ctx.Not(ctx.In(word, ['type'])))
    bad = run(ctx, env, first, {'RenderAnonymous': word})
    ctx.check(bad[0].startswith('exception: ') or any(c >= 1000 for c, _, _ in bad[1]),
              'an illegal setting is not reported', f'{word}: {bad}')
    got = run(ctx, env, text, cfg)
    same(ctx, got, want, 'the result depends on the documents compiled before',
         f'{first!r} with illegal settings\nthen {cfg}\n{text}')


def order(ctx, env, doc):
    text = document(ctx, doc[0], 0, 'Aa') + document(ctx, doc[1], 1, 'Bb')
    cfg = settings(ctx, env, 0, SETS[(list(KINDS).index(doc[0]) + list(KINDS).index(doc[1])) % 3])
    env.fresh(ctx)
    want = run(ctx, env, text, cfg)
    env.fresh(ctx)
    if ctx.symbolic:
        ctx.order_mode = ctx.choose('mode', 2, ['one', 'reverse'])
    try:
        got = run(ctx, env, text, cfg)
    finally:
        if ctx.symbolic:
            ctx.order_mode = None
    same(ctx, got, want, 'the result depends on the order of the elements of a set', f'{cfg}\n{text}')


FILES = {
    'ok': 'interface N {\n  ff: string | null\n}\n',
    'anon': 'interface N { ff: { gg: string } }\nnamespace Bb { export const N = 1; export const Cc = 2; }\n',
    'warning': 'interface N { ff: string }\ntype Bb = { gg: N } & { hh: N };\n',
    'error': 'interface N { ff: string }\ninterface N { gg: string }\ninterface Bb { ff: }\n',
    'alias': 'type Bb = 1 | 2;\ntype N = Bb | null;\n',
}


def batch(ctx, env, kinds):
    d = tempfile.mkdtemp(prefix='symx-c14-')
    out = __import__('sys').stdout
    try:
        env.fresh(ctx, grammar=True)
        cfg = settings(ctx, env, 0, ('UseNotRequired',))
        env.config(ctx, **cfg)
        texts, names = [], []
        for i, k in enumerate(kinds):
            n = 'Q' + ctx.str(f'name{i}', 1, NAMECHARS, NAMECHARS)
            texts.append(re.sub(r'\bN\b', lambda m: n, FILES[k]))
            f = ctx.ident(f'file{i}', 2)
            for g in names:
                ctx.assume(ctx.Not(ctx.Eq(f, g)))
            names.append(f)
        os.mkdir(os.path.join(d, 'out'))
        for f, t in zip(names, texts):
            with open(os.path.join(d, f + '.ts'), 'w', encoding='utf-8', newline='') as fh:
                fh.write(t)
        perm = [0, 1, 2]
        k = ctx.choose('order', 6)
        order = [perm.pop(k // 2)]
        order += [perm.pop(k % 2)] + perm
        __import__('sys').stdout = __import__('io').StringIO()
        ext = env.ts.RESULT_FILE_EXTENSION
        msgs = env.ts.batch_process([os.path.join(d, names[i] + '.ts') for i in order],
                                    os.path.join(d, 'out'), submit_func=submit)
        made = {}
        for n in os.listdir(os.path.join(d, 'out')):
            with open(os.path.join(d, 'out', n), 'r', encoding='utf-8', newline='') as fh:
                made[n] = timeless(fh.read()).replace(d, '/scratch').replace('/out/', '/')
        wanted_msgs = []
        count = 0
        for i in order:
            env.fresh(ctx)
            env.config(ctx, **cfg)
            one = os.path.join(d, 'one', names[i])
            os.makedirs(one)
            ret = env.ts.process_file(os.path.join(d, names[i] + '.ts'), os.path.join(one, names[i] + ext))
            if ret:
                wanted_msgs.append(os.path.basename(ret))
            for n in os.listdir(one):
                count += 1
                with open(os.path.join(one, n), 'r', encoding='utf-8', newline='') as fh:
                    t = timeless(fh.read()).replace(one, '/scratch').replace(d, '/scratch')
                ctx.check(n in made, 'a file is missing after a batch', f'{n}: {sorted(made)}')
                ctx.check(ctx.Eq(made.get(n, ''), t), 'the result depends on the other files of a batch',
                          f'{texts} {order}\n{made.get(n)}\nexpected:\n{t}')
        ctx.check(count == len(made), 'there are superfluous files after a batch', f'{sorted(made)}')
        got = [os.path.basename(m) for m in msgs]
        ctx.check(len(got) == len(wanted_msgs) and
                  ctx.And(*[ctx.Eq(a, b) for a, b in zip(got, wanted_msgs)]),
                  'the list of message files of a batch is wrong', f'{got} {wanted_msgs}')
    finally:
        __import__('sys').stdout = out
        shutil.rmtree(d, ignore_errors=True)


class Future:
    def __init__(self, value):
        self.value = value

    def result(self, timeout=None):
        return self.value


def submit(f, *a):
    return Future(f(*a))
