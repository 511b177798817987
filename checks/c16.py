"""C16: any text is either transpiled to valid Python code or rejected with error messages"""
import ast
import os
import re
import shutil
import tempfile

from .tsdoc import *

DOCS = {
    'iface': 'interface Aa { ff: string; gg?: Bb[] }\n',
    'ext': 'export class Aa<TT> extends Bb { static ff: TT }\n',
    'alias': 'type Aa = "xx" | Bb | 42 | null;\n',
    'map': 'type Aa = { [key: string]: Bb } | [Bb, string];\n',
    'enum': 'enum Aa { ff = 1, gg, hh = "xx" }\n',
    'const': 'export const Aa: number = 2.5;\nconst Bb = "xx";\n',
    'func': 'export function Aa(ff: string, ...gg: Bb[]): void;\n',
    'method': 'interface Aa { ff(gg?: Bb): () => Cc; hh: { ii: string } }\n',
    'space': 'namespace Aa { interface Bb { ff: Cc }\n export const gg: 1 = 1; }\n',
    'two': 'interface Aa { ff: Bb }\n\n// xx\ninterface Bb { /* yy */ gg: Aa }\n',
    'ftype': 'interface Aa { ff: (gg, hh?: Bb) => (ii: Aa[]) => void }\n',
    'esc': 'type Aa = "x\\n" | "y" | \'z\\\'\';\nenum Bb { ff = "\\x41" }\n',
    'module': 'declare module "xx" { export interface Aa { ff: string } }\n',
    'import': 'import { Aa } from "./xx";\ninterface Bb extends Aa<Cc> { ff: Aa.Bb }\n',
}
KEEP = re.compile(r'\b(?:Aa|ff|gg|hh|ii|Bb)\b')

BOUNDS = {
    'quick': {'documents': f'{len(DOCS)} documents that cover all kinds of declarations; at every second position one '
              'symbolic character (all of ASCII) takes the place of no or one character, two take the place of none, one or two',
              'texts': 'texts of up to 3 symbolic characters, on their own or between white space; single-line texts '
              'with a symbolic name, which may or may not be the name of a file'},
    'thorough': 'at every position up to three symbolic characters instead of 0 to 3 characters, texts of up to 5 characters'}
ASSUMPTIONS = ['the control characters 0x1b to 0x1f are left aside (DHParser reserves some of them for tokens)',
               'RecursionErrors with deeply nested documents are left aside',
               'declarations and assignments of variables on top level (x: T; x = y;) and imports are dropped deliberately']
VALIDATE = {'quick': 20, 'thorough': 200}
ASCII = mask_of(c for c in range(1, 128) if not 0x1b <= c <= 0x1f)


def jobs(tier):
    out = []
    for i, (d, text) in enumerate(DOCS.items()):
        for p in range(len(text)):
            if tier == 'thorough':
                for n in (0, 1, 2, 3):
                    for k in (0, 1, 2, 3):
                        if n or k:
                            out.append(('edited', {'doc': d, 'pos': p, 'cut': k, 'n': n}))
                continue
            for n, k in ((1, 0), (1, 1)):
                if (p + i + k) % 2:
                    out.append(('edited', {'doc': d, 'pos': p, 'cut': k, 'n': n}))
            if (p + 3 * i) % 5 == 0:
                out.append(('edited', {'doc': d, 'pos': p, 'cut': p % 3, 'n': 2}))
            if (p + 2 * i) % 7 == 0:
                out.append(('edited', {'doc': d, 'pos': p, 'cut': 1 + p % 9, 'n': 0}))
                out.append(('edited', {'doc': d, 'pos': p, 'cut': 1000, 'n': 1}))
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5):
        for k in range(3):
            out.append(('short', {'n': n, 'kind': k}))
    for k in ONELINE:
        for mode in ('plain', 'file', 'process'):
            out.append(('oneline', {'kind': k, 'mode': mode}))
    return out


def edited(ctx, env, doc, pos, cut, n):
    env.fresh(ctx)
    text = DOCS[doc]
    s = ctx.str('s', n, ASCII, ASCII) if n else ''
    left, right = text[:pos], text[pos + cut:]
    if n > 1 and cut >= n:
        pass
    src = left + s + right + ('\n' if '\n' not in right else '')
    # words that have not been touched
    inner = lambda c: c.isalnum() or c == '_'
    words = [m.group(0) for m in KEEP.finditer(left) if m.end() < len(left)]
    words += [m.group(0) for m in KEEP.finditer(right) if m.start() > 0]
    code, errors = verdict(ctx, env, src)
    if code is None or doc in ('import', 'module', 'const', 'ftype'):
        return
    if errors:
        return
    # comments and strings may hide what follows
    for c in '/*"\'':
        if s and ctx.branch(ctx.Or(*[ctx.Eq(x, c) for x in s])):
            return
    if any(c in text[pos:pos + cut] for c in '/*"\''):
        return
    for w in words:
        ctx.check(bool(re.search(rf'\b{w}\b', body(code))), 'a part of the document is lost without a message',
                  f'{w}: {src!r}\n{body(code)}')


HEX = mask_of('0123456789abcdefABCDEF')
ESCAPE = re.compile(r'\\[xuU]')
SPECIAL = '"\'\\\n\r#'


def python_text(ctx, code):
    """symbolic characters that matter for the syntax of Python are decided, the others remain placeholders
    (letters)"""
    if not ctx.symbolic:
        return code
    known = {}

    def pick(ch):
        dom = ctx.dom_of(ch)
        for c in SPECIAL:
            if dom >> ord(c) & 1 and ctx.branch(ctx.Eq(ch, c)):
                return c
        dom = ctx.dom_of(ch)
        if not dom & ~DIGITS:
            return '0' if ctx.branch(ctx.Eq(ch, '0')) else '1'
        if bin(dom).count('1') <= 2:        # e.g. 2e5
            return chr(dom.bit_length() - 1)
        if not dom & ~HEX and ESCAPE.search(code):
            return 'F' if dom >> ord('F') & 1 else '1'
        if not dom & WORD:
            return chr(dom.bit_length() - 1)
        return ch
    for ch in code:
        if '\u5000' <= ch < '\u9f00' and ch not in known:
            known[ch] = pick(ch)
    return ''.join(known.get(ch, ch) for ch in code)


def valid_python(ctx, code):
    code = python_text(ctx, code)
    try:
        compile(code, 'generated.py', 'exec', dont_inherit=True)
        tree = ast.parse(code)
    except (SyntaxError, ValueError) as e:
        return f'{e}'
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and ctx.symbolic:
            a = n.args
            names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg] if x]
            for i, x in enumerate(names):
                for y in names[:i]:
                    if ctx.branch(ctx.Eq(x, y)):
                        return f'duplicate argument {x}'
    return ''


def verdict(ctx, env, src, run=None):
    """-> code, errors (if there are errors, that have been checked)"""
    try:
        code, errors = run(src) if run else env.compile(src)
    except Exception as e:
        ctx.check(False, 'the transpiler raises an exception', f'{src!r}\n{type(e).__name__}: {e}')
        return None, None
    for e in errors:
        ctx.check(0 <= e.pos <= len(src) and bool(str(e.message).strip()), 'a message without position or text',
                  f'{src!r}: {e!r} {e.pos}')
        if e.pos == 0 and e.code == 10200:
            continue        # the file does not exist
        ctx.check(e.line >= 1 and e.column >= 1 and e.line <= src.count('\n') + 1, 'a message without position or text',
                  f'{src!r}: {e!r} {e.line} {e.column}')
    bad = [e for e in errors if e.code >= 1000]
    if not bad:
        why = valid_python(ctx, code) if isinstance(code, str) else 'no code'
        ctx.check(not why, 'neither valid Python code nor an error message', f'{src!r}\n{why}\n{body(str(code))}')
    ctx.observe(f'{[(e.code, e.pos) for e in errors]} {body(code) if isinstance(code, str) and not bad else ""}')
    return code, errors


def short(ctx, env, n, kind):
    env.fresh(ctx)
    s = ctx.str('s', n, ASCII, ASCII)
    verdict(ctx, env, [s + '\n', '\n' + s + '\n', '/* */ ' + s + ' // x\n'][kind])


ONELINE = {
    'iface': 'interface N { ff: string; }',
    'short': 'type N = 3;',
    'enum': 'enum N { aa, bb }',
    'name': 'N',
    'dotted': 'N.ts',
    'path': 'dir/N.ts',
    'error': 'interface N {',
    'blank': '  ',
    'long': 'interface N { ' + ' '.join(f'field{i}: string;' for i in range(30)) + ' }',
}


def oneline(ctx, env, kind, mode):
    """source texts without line breaks, names of files"""
    env.fresh(ctx)
    n = 'Q' + ctx.str('name', 1, NAMECHARS, NAMECHARS)
    text = re.sub(r'\bN\b', lambda m: n, ONELINE[kind])
    d = tempfile.mkdtemp(prefix='symx-c16-')
    cwd = os.getcwd()
    out = __import__('sys').stdout
    try:
        os.chdir(d)
        os.makedirs('dir')
        __import__('sys').stdout = __import__('io').StringIO()
        source = 'interface Ff { gg: string }\n'
        is_file = False
        if mode != 'plain' and kind in ('name', 'dotted', 'path'):
            with open(text, 'w', encoding='utf-8') as f:
                f.write(source)
            is_file = True
        elif kind in ('name', 'dotted', 'path'):
            # neither a source text nor an existing file
            try:
                code, errors = env.ts.compile_src(text)
            except Exception as e:
                ctx.check(isinstance(e, (OSError, FileNotFoundError)), 'the transpiler raises an exception', f'{text!r} {e!r}')
                ctx.observe(type(e).__name__)
                return
            ctx.check(any(e.code >= 1000 for e in errors), 'a missing file is not reported', f'{text!r} {code}')
            ctx.observe('errors')
            return
        want = env.ts.compile_src(source if is_file else text + '\n')
        env.fresh(ctx)
        # texts without line breaks may also be rejected, because they look like a missing file
        if mode == 'process':
            msg = env.ts.process_file(text, 'result.py')
            if msg.endswith('_ERRORS.txt') and not is_file:
                ctx.observe(msg)
                return
            with open('result.py', 'r', encoding='utf-8') as f:
                code = f.read()
            ctx.check(bool(msg) == bool(want[1]), 'single-line texts and files are confused', f'{text!r} {msg} {want[1]}')
        else:
            code, errors = verdict(ctx, env, text, env.ts.compile_src)
            if errors is None or not is_file and any(e.code >= 1000 for e in errors):
                return
            ctx.check([(e.code, str(e.message)) for e in errors] == [(e.code, str(e.message)) for e in want[1]] or is_file,
                      'single-line texts and files are confused', f'{text!r} {errors} {want[1]}')
        if not any(e.code >= 1000 for e in want[1]):
            ctx.check(ctx.Eq(body(code), body(want[0])), 'single-line texts and files are confused',
                      f'{text!r}\n{code}\n{want[0]}')
    finally:
        __import__('sys').stdout = out
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
