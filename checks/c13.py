"""C13: compiling files again, also after interruptions, yields the results of a fresh compilation"""
import builtins
import os
import re
import shutil
import tempfile

from .tsdoc import *

BOUNDS = {
    'quick': {'histories': 'two runs of process_file (the first possibly interrupted at any of its effects on '
              'the file system, writes at six points), or three runs; then a run that is compared to '
              'a compilation in an empty directory and another one that must not change anything',
              'sources': 'five kinds of documents (correct, with a warning, with an error, with a syntax '
              'error, empty) with a symbolic name of 2 characters, given as file or as text',
              'configuration': 'one switch that is symbolic in each run, each of the nine switches for one kind of documents'},
    'thorough': 'the same with three runs, each of which can be interrupted'}
ASSUMPTIONS = ['md5 is injective (replaced by a table of its arguments)',
               'a program that is interrupted while writing leaves a prefix of the text in the file',
               'result files are not edited by anybody else (except in the harness `foreign`)']
VALIDATE = {'quick': 10, 'thorough': 30}

DOCS = {
    'ok': 'interface N {\n  ff: string | null\n}\n',
    'warning': 'interface N { ff: string }\ntype Bb = { gg: N } & { hh: N };\n',
    'error': 'interface N { ff: string }\ninterface N { gg: string }\ninterface Bb { ff: }\n',
    'syntax': 'interface N { ff: string \n type x y;\n',
    'empty': '\n',
    'rich': 'interface N<TT> { ff?: { gg: TT | "a" }; /* first\n  second */ hh: 1 | 2 }\nenum Bb { cc, dd }\n',
}


def jobs(tier):
    out = []
    docs = [d for d in DOCS if d != 'rich']
    for a in docs:
        for b in docs:
            for mode in ('file', 'text'):
                if mode == 'text' and tier == 'quick' and (a, b) not in (('ok', 'ok'), ('error', 'ok'), ('ok', 'error')):
                    continue
                out.append(('interrupted', {'first': a, 'last': b, 'mode': mode}))
            for c in docs:
                if tier == 'thorough' or (docs.index(a) + docs.index(b) * 2 + docs.index(c)) % 5 == 0 \
                        or a == b == 'ok' or b == c == 'ok':
                    out.append(('history', {'docs': [a, b, c]}))
    for a in docs:
        out.append(('foreign', {'doc': a}))
    for sw in SWITCHES:
        out.append(('history', {'docs': ['rich', 'rich'], 'switch': sw}))
        if tier == 'thorough':
            out.append(('history', {'docs': ['rich', 'rich', 'rich'], 'switch': sw}))
            out.append(('interrupted', {'first': 'rich', 'last': 'rich', 'mode': 'file', 'switch': sw}))
    out.append(('interrupted', {'first': 'ok', 'last': 'ok', 'mode': 'file', 'twice': True}))
    out.append(('interrupted', {'first': 'error', 'last': 'ok', 'mode': 'file', 'twice': True}))
    if tier == 'thorough':
        for a in docs:
            for b in docs:
                out.append(('interrupted', {'first': a, 'last': b, 'mode': 'file', 'twice': True}))
    return out


class Crash(BaseException):
    pass


class World:
    """scratch directory, injection of interruptions, md5"""
    def __init__(self, ctx, env):
        self.ctx, self.env = ctx, env
        self.dir = tempfile.mkdtemp(prefix='symx-c13-')
        self.effects = 0
        self.crash_at = None
        self.table = []
        self.saved = {}

    def __enter__(self):
        ts = self.env.ts
        self.real = {'remove': os.remove, 'replace': os.replace, 'rename': os.rename, 'unlink': os.unlink}
        if 'md5' in ts.__dict__:
            self.saved['md5'] = ts.md5
            ts.md5 = self.md5
        ts.open = self.open
        for n, f in self.real.items():
            setattr(os, n, self.effect(f))
        return self

    def __exit__(self, *exc):
        ts = self.env.ts
        for n, f in self.real.items():
            setattr(os, n, f)
        for n, f in self.saved.items():
            setattr(ts, n, f)
        if 'open' in ts.__dict__:
            del ts.open
        shutil.rmtree(self.dir, ignore_errors=True)
        return False

    def md5(self, *texts):
        ctx = self.ctx
        for i, known in enumerate(self.table):
            if len(known) == len(texts) and all(ctx.str_eq(str(a), str(b)) for a, b in zip(texts, known)):
                return f'{i:032x}'
        self.table.append(texts)
        return f'{len(self.table) - 1:032x}'

    # -- interruptions -----------------------------------------------------------
    def point(self):
        """an interruption happens before this effect?"""
        self.effects += 1
        if self.crash_at is not None and self.effects - 1 == self.crash_at:
            return True
        return False

    def effect(self, f):
        def wrapped(*a, **k):
            if str(a[0]).startswith(self.dir) and self.point():
                raise Crash()
            return f(*a, **k)
        return wrapped

    def open(self, file, mode='r', *a, **k):
        if not any(c in mode for c in 'wax+'):
            return builtins.open(file, mode, *a, **k)
        if self.point():
            raise Crash()
        return Writer(self, builtins.open(file, mode, *a, **k))

    # -- runs ---------------------------------------------------------------------
    def path(self, name):
        return os.path.join(self.dir, name)

    def run(self, mode, text, cfg, where='work'):
        """-> (basename of the returned file, {file: content}) or None if interrupted"""
        env, ctx = self.env, self.ctx
        d = self.path(where)
        os.makedirs(d, exist_ok=True)
        env.fresh(ctx, hash_stub=False)
        env.config(ctx, **cfg)
        src = os.path.join(d, 'doc.ts')
        out = sys_stdout()
        try:
            if mode == 'file':
                with builtins.open(src, 'w', encoding='utf-8', newline='') as f:
                    f.write(text)
                ret = env.ts.process_file(src, os.path.join(d, 'doc.py'))
            else:
                ret = env.ts.process_file(text, os.path.join(d, 'doc.py'))
        except Crash:
            return None
        finally:
            out()
        return os.path.basename(ret), self.state(where)

    def state(self, where):
        d = self.path(where)
        res = {}
        for n in sorted(os.listdir(d)):
            if n != 'doc.ts':
                with builtins.open(os.path.join(d, n), 'r', encoding='utf-8', newline='') as f:
                    res[n] = relocate(f.read(), d)
        return res


def sys_stdout():
    import io
    import sys
    save = sys.stdout
    sys.stdout = io.StringIO()

    def restore():
        sys.stdout = save
    return restore


class Writer:
    def __init__(self, world, f):
        self.w, self.f = world, f

    def write(self, s):
        if self.w.point():
            n = len(s)
            i = self.w.ctx.choose('written', 6)
            cut = [0, 1, n // 2, max(0, n - 44), n - 1, n][i]
            j = s.find('source_hash__')
            if i == 2 and j >= 0:
                cut = s.find('\n', j)       # just after the hash
            self.f.write(s[:max(0, cut)])
            self.f.close()
            raise Crash()
        return self.f.write(s)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def close(self):
        self.f.close()

    def __getattr__(self, name):
        return getattr(self.f, name)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.f.close()
        return False


def relocate(text, path):
    """the directory does not matter (messages mention it)"""
    return text.replace(path, '/scratch/dir')


def timeless(files):
    return {n: re.sub(r'(?m)^# Generated by.*$', '', t) for n, t in files.items()}


def document(ctx, kind, i):
    n = ctx.ident(f'name{i}', 2)
    ctx.assume(ctx.Not(ctx.Or(ctx.is_keyword(n), ctx.In(n, ['ff', 'gg', 'hh', 'Bb']))))
    return re.sub(r'\bN\b', lambda m: n, DOCS[kind])


SWITCHES = {'UseTypeUnion': (False, True), 'RenderAnonymous': ('local', 'toplevel'), 'UseEnum': (True, False),
            'UseLiteralType': (False, True), 'UseVariadicGenerics': (False, True),
            'UseNotRequired': (False, True), 'KeepMultilineComments': (False, True),
            'BaseClassName': ('TypedDict', 'Base'), 'ClassDecorator': ('', 'deco')}


def settings(ctx, i, switch='UseTypeUnion'):
    return {switch: SWITCHES[switch][ctx.choose(f'switch{i}', 2)]}


def agree(ctx, got, want, what, detail):
    ctx.check(sorted(got) == sorted(want), what, f'{detail}\nfiles: {sorted(got)}, expected: {sorted(want)}')
    for n in want:
        if n in got:
            ctx.check(ctx.Eq(got[n], want[n]), what, f'{detail}\n{n}: {got[n][-600:]}\nexpected: {want[n][-600:]}')


def judge(ctx, w, mode, text, cfg, detail):
    ret, files = w.run(mode, text, cfg)
    fresh_ret, fresh = w.run(mode, text, cfg, 'fresh')
    detail = f'{detail}, finally {text!r} {cfg}'
    agree(ctx, timeless(files), timeless(fresh),
          'files are not as after a compilation in an empty directory', detail)
    ctx.check(ret == fresh_ret, 'the result of the function depends on the history', f'{detail}: {ret!r} {fresh_ret!r}')
    ret2, files2 = w.run(mode, text, cfg)
    ctx.check(ret2 == ret, 'the result of the function depends on the history', f'{detail}: {ret2!r} {ret!r}')
    agree(ctx, timeless(files2), timeless(files), 'a second run changes the results', detail)
    if not fresh_ret and 'doc.py' in files:
        ctx.check(files2.get('doc.py') == files['doc.py'], 'an unchanged source is compiled again', detail)
    ctx.observe(f'{ret} {sorted(files)}')


def interrupted(ctx, env, first, last, mode, twice=False, switch='UseTypeUnion'):
    with World(ctx, env) as w:
        text = document(ctx, first, 1)
        cfg = settings(ctx, 1, switch)
        detail = f'{first} {text!r} {cfg}'
        for i in range(2 if twice else 1):
            w.effects = 0
            w.crash_at = ctx.choose('crash', 8)
            r = w.run(mode, text, cfg)
            w.crash_at = None
            detail += ' (completed)' if r else f' (interrupted: { {k: len(v) for k, v in w.state("work").items()} })'
        if last == first and ctx.choose('same', 2):
            text2 = text
        else:
            text2 = document(ctx, last, 2)
        judge(ctx, w, mode, text2, settings(ctx, 2, switch), detail)


def history(ctx, env, docs, switch='UseTypeUnion'):
    with World(ctx, env) as w:
        detail = ''
        text = None
        for i, d in enumerate(docs[:-1]):
            text = document(ctx, d, i)
            cfg = settings(ctx, i, switch)
            r = w.run('file', text, cfg)
            detail += f'{d} {text!r} {cfg}; '
        text = document(ctx, docs[-1], len(docs))
        judge(ctx, w, 'file', text, settings(ctx, len(docs), switch), detail)


def foreign(ctx, env, doc):
    """there is some other file where the result is to be written"""
    with World(ctx, env) as w:
        os.makedirs(w.path('work'))
        n = ctx.choose('kind', 4)
        junk = ctx.str('junk', 4, PRINT, PRINT)
        content = ['', junk, 'source_hash__ = "' + junk + '"\n', junk + '\n##### END OF ts2python generated code\n'][n]
        with builtins.open(w.path('work/doc.py'), 'w', encoding='utf-8', newline='') as f:
            f.write(content)
        text = document(ctx, doc, 1)
        judge(ctx, w, 'file', text, settings(ctx, 1), f'file with contents {content!r}')


PRINT = mask_of(map(chr, range(32, 127)))
