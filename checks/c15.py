"""C15: the options of the command line take effect as documented"""
import enum
import io
import os
import shutil
import sys
import tempfile
import types
import typing

from .tsdoc import *

BOUNDS = {
    'quick': {'options': '-c with every version 3.N and 3.NN, -p with one or two symbolic words of 3 or 4 characters out of '
              '"~0123456789", -a with a symbolic word of 4 to 10 letters, -b and -d with symbolic names of 2 characters (also '
              'dotted), -k, --singlethread, -o; all pairs of options in short or long form, in either order',
              'document': 'one document that makes every setting visible, with a symbolic field name',
              'files': 'one file, several files and a directory of files'},
    'thorough': 'the same with three options at once'}
ASSUMPTIONS = ['the grammar is up to date (recompile_grammar is a stub)', 'batches run in a single thread',
               'the settings in ts2pythonParser.ini are the defaults']
VALIDATE = {'quick': 10, 'thorough': 30}

DOC = ('interface Aa {\n  N?: string;\n  gg: "x" | "y"; /* first\n  second */\n  hh: string | number;\n'
       '  ii: { jj: string };\n}\nenum Ee { kk, ll = 4 }\ninterface Gg<TT> { mm: TT }\n')

OPTIONS = ['c1', 'c1x', 'c2', 'c40', 'p', 'pp', 'p+', 'a', 'b', 'bdot', 'd', 'd@', 'k', 'st', 'none']
CONFLICTS = [{'c1', 'c1x', 'c2', 'c40'}, {'p', 'pp', 'p+'}, {'b', 'bdot'}, {'d', 'd@'}]


def jobs(tier):
    out = []
    for i, a in enumerate(OPTIONS):
        for j, b in enumerate(OPTIONS):
            if a == b or any({a, b} <= c for c in CONFLICTS) or b == 'none':
                continue
            if tier == 'quick' and 'pp' in (a, b) and not {'c1', 'none'} & {a, b}:
                continue
            if tier == 'quick' and 'c2' in (a, b) and a != 'none':
                continue
            if tier == 'quick' and (i > j or (i + j) % 2) and a != 'none' and {a, b} != {'c1x', 'p'}:
                continue
            out.append(('options', {'opts': [a, b], 'long': (i + j) % 3 == 0}))
            if tier == 'thorough':
                for c in OPTIONS[j + 1:-1]:
                    if c != a and not any(len({a, b, c} & x) > 1 for x in CONFLICTS):
                        out.append(('options', {'opts': [a, b, c], 'long': (i + j) % 2 == 0}))
    for how in ('single', 'upper', 'out', 'outlong', 'outeq', 'outshort', 'two', 'dir', 'newdir', 'error'):
        for k in ('none', 'p') if tier == 'quick' else ('none', 'p', 'c2', 'a', 'k'):
            out.append(('files', {'how': how, 'opt': k}))
    return out


DEFAULTS = {'literal': False, 'union': False, 'notrequired': False, 'variadic': False, 'enum': True}
PEPS = {'435': 'enum', '584': 'literal', '586': 'literal', '604': 'union', '646': 'variadic', '655': 'notrequired'}
LONG = {'-c': '--compatibility', '-p': '--peps', '-a': '--anonymous', '-b': '--base', '-d': '--decorator',
        '-k': '--comments'}
PEPCHARS = mask_of('~0123456789')


class World:
    def __init__(self, ctx, env):
        self.ctx, self.env = ctx, env
        env.fresh(ctx)
        self.dir = tempfile.mkdtemp(prefix='symx-c15-')
        from DHParser import configuration as C
        self.C = C
        self.preset = dict(C.CONFIG_PRESET)
        self.config = dict(C._config_dict())
        self.argv, self.cwd, self.out = sys.argv, os.getcwd(), sys.stdout
        self.saved = {n: env.ts.__dict__[n] for n in ('recompile_grammar', 'start_logging')}
        env.ts.recompile_grammar = lambda *a, **k: True
        env.ts.start_logging = lambda *a, **k: None

    def __enter__(self):
        os.chdir(self.dir)
        return self

    def __exit__(self, *exc):
        C = self.C
        C.CONFIG_PRESET.clear()
        C.CONFIG_PRESET.update(self.preset)
        C.ACCESSING_PRESETS = False
        cfg = C._config_dict()
        cfg.clear()
        cfg.update(self.config)
        sys.argv, sys.stdout = self.argv, self.out
        os.chdir(self.cwd)
        for n, f in self.saved.items():
            setattr(self.env.ts, n, f)
        shutil.rmtree(self.dir, ignore_errors=True)
        return False

    def write(self, name, text):
        os.makedirs(os.path.dirname(os.path.join(self.dir, name)), exist_ok=True)
        with open(os.path.join(self.dir, name), 'w', encoding='utf-8', newline='') as f:
            f.write(text)

    def read(self, name):
        p = os.path.join(self.dir, name)
        if not os.path.exists(p):
            return None
        with open(p, 'r', encoding='utf-8', newline='') as f:
            return f.read()

    def main(self, args):
        """-> exit code, printed text; or exception"""
        sys.argv = ['ts2python'] + args
        sys.stdout = io.StringIO()
        err, sys.stderr = sys.stderr, io.StringIO()
        try:
            self.env.ts.main()
            return 0, sys.stdout.getvalue()
        except SystemExit as e:
            return e.code or 0, sys.stdout.getvalue() + sys.stderr.getvalue()
        except Exception as e:
            return f'{type(e).__name__}: {e}', ''
        finally:
            sys.stdout = self.out
            sys.stderr = err


def option(ctx, o, want, long):
    """-> arguments; updates the wanted settings (formulas or values); 'fail': a formula"""
    flag = lambda f: LONG[f] if long else f
    if o in ('c1', 'c1x', 'c2', 'c40'):
        if o == 'c40':
            v = '4.0'
            for k in ('literal', 'union', 'notrequired', 'variadic'):
                want[k] = True
        else:
            n = 2 if o == 'c2' else 1
            lead = '3.1' if o == 'c1x' else '3.'
            v = lead + ctx.str('minor', n, DIGITS, DIGITS)
            minor = lambda p: ctx.In(v, [f'{lead}{i:0{n}d}' for i in range(10 ** n) if p(int(f'{lead}{i:0{n}d}'[2:]))])
            for k, first in (('literal', 8), ('union', 10), ('notrequired', 11), ('variadic', 11)):
                want[k] = bool(ctx.branch(minor(lambda i: i >= first)))
            want['fail'].append(minor(lambda i: i < 7))
        return [flag('-c'), v]
    if o in ('p', 'pp', 'p+'):
        words = []
        for i in range(1 if o == 'p' else 2):
            n = 3 + ctx.choose(f'peplen{i}', 2)
            w = ctx.str(f'pep{i}', n, PEPCHARS, PEPCHARS)
            words.append(w)
            want['peps'].append(w)
        if o == 'p+':
            return [flag('-p'), words[0], '-p', words[1]]
        return [flag('-p')] + words
    if o == 'a':
        n = [5, 4, 8, 10][ctx.choose('anonlen', 4)]
        w = ctx.str('anon', n, LOWER, LOWER)
        want['anon'] = w
        return [flag('-a'), w]
    if o in ('b', 'bdot'):
        w = 'B' + ctx.str('base', 1, NAMECHARS, NAMECHARS)
        want['base'] = w
        return [flag('-b'), w if o == 'b' else 'genbase.mod.' + w]
    if o in ('d', 'd@'):
        w = 'de' + ctx.str('deco', 1, NAMECHARS, NAMECHARS)
        ctx.assume(ctx.Not(ctx.Or(ctx.is_keyword(w), ctx.Eq(w, 'def'), ctx.Eq(w, 'del'))))
        want['deco'] = w
        return [flag('-d'), w if o == 'd' else '@' + w]
    if o == 'k':
        want['comments'] = True
        return [flag('-k')]
    if o == 'st':
        return ['--singlethread']
    return []


def resolve(ctx, want):
    """branches on the words; False: the options are illegal"""
    for f in want['fail']:
        if ctx.branch(f):
            return False
    for w in want['peps']:
        if not ctx.branch(ctx.In(w, [p for p in PEPS if len(p) == len(w)] + ['~' + p for p in PEPS if len(p) + 1 == len(w)])):
            return False
    for w in want['peps']:
        for p, k in PEPS.items():
            if len(w) == 3 and ctx.branch(ctx.Eq(w, p)):
                want[k] = True
            elif len(w) == 4 and ctx.branch(ctx.Eq(w, '~' + p)):
                want[k] = False
    a = want['anon']
    for known in ('local', 'toplevel', 'functional', 'type'):
        if len(a) == len(known) and ctx.branch(ctx.Eq(a, known)):
            want['anon'] = known
            return True
    want['illegal mode'] = True
    return True


def wanted():
    return dict(DEFAULTS, anon='local', base=None, deco=None, comments=False, fail=[], peps=[])


def options(ctx, env, opts, long):
    with World(ctx, env) as w:
        want = wanted()
        lists = [option(ctx, o, want, long) for o in opts]
        name = 'n' + ctx.str('field', 1, NAMECHARS, NAMECHARS)
        text = DOC.replace('N?', name + '?')
        w.write('doc.ts', text)
        args = sum(lists, [])
        if not any(x in opts for x in ('p', 'pp', 'p+')):
            args = args + ['doc.ts']        # anywhere
        else:
            args = ['doc.ts'] + args
        code, printed = w.main(args)
        legal = resolve(ctx, want)
        result = w.read('doc.py')
        detail = f'{args} {code!r} {printed}'
        if not legal:
            ctx.check(code == 1, 'illegal options are not rejected', detail)
            ctx.check(result is None, 'a result in spite of illegal options', detail)
            ctx.check(isinstance(code, str) or bool(printed.strip()), 'illegal options are rejected without a message', detail)
            ctx.observe(f'{code}')
            return
        if want.get('illegal mode'):
            ctx.check(code != 0 or result is None or 'llegal' in printed, 'an illegal mode is not rejected', detail)
            ctx.observe(f'{str(code)[:20]}')
            return
        ctx.check(code == 0, 'legal options are rejected', detail)
        if result is None:
            ctx.check(False, 'there is no result file', detail)
            return
        if want['anon'] != 'type':           # experimental
            judge(ctx, want, result, name, f'{detail}\n{body(result)}')
        ctx.observe(body(result))


def base_module():
    m = types.ModuleType('genbase.mod')
    made = {}

    def get(n):
        if n.startswith('__'):
            raise AttributeError(n)
        return made.setdefault(n, type(n, (), {}))
    m.__getattr__ = get
    p = types.ModuleType('genbase')
    p.mod = m
    p.__path__ = []
    sys.modules['genbase'], sys.modules['genbase.mod'] = p, m
    return get


def judge(ctx, want, code, fld, detail):
    get = base_module()
    decorated = []
    extra = {}
    if want['base']:
        extra[want['base']] = get(want['base'])
    if want['deco']:
        def deco(c):
            decorated.append(c.__name__)
            return c
        extra[want['deco']] = deco
    try:
        ns = exec_module(code, 'gen_cli', extra)
    except Exception as e:
        ctx.check(False, 'the generated module cannot be executed', f'{type(e).__name__}: {e}\n{detail}')
        return
    say = lambda cond, what: ctx.check(cond, f'an option has the wrong effect: {what}', f'{want}\n{detail}')
    aa = ns.get('Aa')
    if not isinstance(aa, type) or 'Gg' not in ns or 'Ee' not in ns:
        say(False, 'missing declarations')
        return
    ann = aa.__dict__.get('__annotations__', {})
    if len(ann) != 4:
        say(False, 'missing fields')
        return
    text = lambda a: a if isinstance(a, str) else a.__forward_arg__ if isinstance(a, typing.ForwardRef) else repr(a)
    opt, lit, uni, anon = list(ann.values())
    nr = 'NotRequired[' in text(opt)
    say(nr == want['notrequired'], 'NotRequired')
    say(('Literal[' in text(lit)) == want['literal'], 'Literal')
    bar = isinstance(uni, types.UnionType) or (isinstance(uni, (str, typing.ForwardRef)) and '|' in text(uni))
    say(bar == want['union'], 'unions')
    say((isinstance(ns['Ee'], type) and issubclass(ns['Ee'], enum.Enum)) == want['enum'], 'enums')
    generic = typing.Generic in ns['Gg'].__mro__
    if not want['variadic']:
        say(generic or 'TT' in ns, 'generics')
    bases = [b.__name__ if isinstance(b, type) else getattr(b, '__name__', str(b))
             for b in getattr(aa, '__orig_bases__', aa.__bases__)]
    if want['base']:
        say(ctx.Or(*[ctx.Eq(b, want['base']) for b in bases]), 'base class')
        say('TypedDict' not in bases, 'base class')
    else:
        say('__required_keys__' in vars(aa), 'base class')
    if want['deco']:
        say('Aa' in decorated and 'Gg' in decorated, 'decorator')
    inner = [v for v in vars(aa).values() if isinstance(v, type)]
    outer = [k for k in ns if isinstance(k, str) and ns[k] is not aa and isinstance(ns[k], type)
             and ns[k].__module__ == 'gen_cli' and k not in ('Gg', 'Ee', 'TT') and not (want['base'] and ctx.branch(ctx.Eq(k, want['base'])))]
    functional = 'TypedDict(' in code[code.find('BEGIN OF'):]
    mode = 'local' if want['base'] else want['anon']
    if mode == 'local':
        say(len(inner) == 1 and not outer, 'anonymous interfaces')
    elif mode == 'toplevel':
        say(not inner and len(outer) == 1, 'anonymous interfaces')
    else:
        say(functional and not outer, 'anonymous interfaces')
    kept = 'first' in code and 'second' in code
    say(kept == want['comments'], 'comments')


def files(ctx, env, how, opt):
    """where the results are written to, and the exit code"""
    with World(ctx, env) as w:
        want = wanted()
        args = option(ctx, opt, want, False)
        name = 'Q' + ctx.str('name', 1, NAMECHARS, NAMECHARS)
        good = f'interface {name} {{ ff?: string | null }}\n'
        bad = f'interface {name} {{ ff?: }}\ninterface {name} {{\n'
        stem = 'Fi' + ctx.str('file', 1, NAMECHARS, NAMECHARS)
        texts = {f'{stem}.ts': good}
        if how in ('two', 'dir', 'newdir'):
            other = 'other' if ctx.choose('more', 2) else None
            if other:
                texts['other.ts'] = good.replace('ff', 'gg')
            if how == 'two' and not other:
                how = 'out'
        if how == 'error':
            texts[f'{stem}.ts'] = bad
        d = 'in' if how in ('dir', 'newdir') else '.'
        if how == 'upper':
            texts = {f'{stem}.TS': good}
        for n, t in texts.items():
            w.write(os.path.join(d, n), t)
        names = sorted(texts)
        target = {'out': ['-o', 'res'], 'outlong': ['--out', 'res'], 'outeq': ['--out=res'], 'outshort': ['-ores'],
                  'two': [], 'dir': [], 'newdir': ['-o', 'res'], 'error': [], 'single': [], 'upper': []}[how]
        if how == 'newdir':
            os.makedirs(os.path.join(w.dir, 'res'))
        single = how in ('single', 'upper', 'error')
        inputs = ['in'] if d == 'in' else names
        code, printed = w.main(inputs + (['--singlethread'] if not single else []) + target + args)
        legal = resolve(ctx, want)
        detail = f'{sys.argv if False else inputs + target + args} {code!r} {printed} {sorted(os.listdir(w.dir))}'
        place = d if single else 'res' if target else 'out'
        ext = '.py'
        if not legal:
            ctx.check(code == 1, 'illegal options are not rejected', detail)
            ctx.check(not any(n.endswith(ext) for n in os.listdir(w.dir)), 'a result in spite of illegal options', detail)
            return
        if want.get('illegal mode') or want['anon'] == 'type':
            return
        if how == 'error':
            msgs = [n for n in os.listdir(w.dir) if 'ERROR' in n]
            ctx.check(len(msgs) == 1, 'there is no file with error messages', detail)
            ctx.check(len(printed) > 10, 'errors are not shown', detail)
            return
        ctx.check(code == 0, 'a correct document is rejected', detail)
        got = sorted(os.listdir(os.path.join(w.dir, place))) if os.path.isdir(os.path.join(w.dir, place)) else []
        got = [n for n in got if not n.lower().endswith('.ts') and os.path.isfile(os.path.join(w.dir, place, n))]
        ctx.check(len(got) == len(names), 'the results are not where they should be', f'{detail} {place}: {got}')
        for n in names:
            stem = n[:-3]
            mine = [g for g in got if ctx.branch(ctx.Eq(os.path.splitext(g)[0], stem))] if len(got) < 5 else []
            ctx.check(len(mine) == 1, 'the results are not where they should be', f'{detail} {place}: {got}')
            if mine and mine[0].endswith('.py'):
                code_ = w.read(os.path.join(place, mine[0]))
                nr = 'NotRequired' in body(code_)
                ctx.check(nr == want['notrequired'], 'an option has the wrong effect: NotRequired', f'{want} {detail}\n{code_}')
        ctx.observe(f'{code} {got}')
