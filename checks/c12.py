"""C12: values of enum items, constants and literals are those of the source"""
import re

from .tsdoc import *

DQ = mask_of(c for c in map(chr, range(32, 127)) if c not in '"\\')
SQ = mask_of(c for c in map(chr, range(32, 127)) if c not in "'\\")
NZ = mask_of('123456789')
BOUNDS = {
    'quick': {'values': 'strings of 2 to 6 printable characters in either kind of quotes, integers of 1 to 4 '
              'digits and decimal numbers of 3 to 4 digits, with or without sign, all of them symbolic; '
              'booleans; arrays and objects of these',
              'places': 'enum items, constants in namespaces, constants, assignments, literal types in '
              'fields, unions, tuples, maps, aliases, parameters, results'},
    'thorough': 'the same with strings of up to 8 characters and integers of up to 7 digits'}
ASSUMPTIONS = [
    'items of enums without value: only the order and the successor of an explicit value that is greater '
    'than all earlier values are checked (Python counts from one, which is documented by the tests)']

# V1..V3: values; how to get at them
PLACES = {
    'enum': ('enum Aa { ff = V1, gg = V2, hh = V3 }\n', 'items'),
    'enumcomma': ('export enum Aa {\n  ff = V1,\n  "gg" = V2 , // V2\n  hh = V3,\n}\n', 'items'),
    'virtual': ('export namespace Aa { export const ff: V1 = V1; export const gg = V2; const hh: T3 = V3; }\n',
                'items'),
    'const': ('export const ff: T1 = V1;\nconst gg = V2;\nconst hh: T3 = V3;\n', 'globals'),
    'namespace': ('namespace Aa { interface Bb { xx: string } const ff: T1 = V1; const gg = V2; '
                  'export const hh = V3; }\n', 'attrs'),
    'array': ('const ff = [V1, V2, [V3]];\n', 'array'),
    'object': ('const ff = { aa: V1, "bb": [V2], cc: { dd: V3 } };\n', 'object'),
    'field': ('interface Aa { ff: V1; readonly gg: V2; hh: V3, }\n', 'fields'),
    'union': ('interface Aa { ff: V1 | V2 | V3; gg?: V1 | V2; hh: V3 | null | V1 }\n', 'unions'),
    'refunion': ('interface Aa { ff: Zz | V1 | V2; gg?: V3 | Zz[]; hh: V1 | string | Zz | V2 }\n'
                 'interface Zz { aa: V1 }\n', 'refunions'),
    'alias': ('type Aa = V1 | V2 | V3;\n', 'alias'),
    'alias1': ('type Aa = V1;\ntype Bb = Aa | V2 | Array<Aa>;\n', 'alias1'),
    'tuple': ('interface Aa { ff: [V1, V2, V3]; gg: [string, V1 | V2] }\n', 'tuple'),
    'map': ('interface Aa { ff: { [key: string]: V1 | V2 } }\n', 'map'),
    'param': ('function ff(aa: V1 | V2, bb?: V3): V1;\n', 'param'),
    'anon': ('interface Aa { gg: { ff: V1 | V2; kk: V3 }[] }\n', 'anon'),
}
# any: a symbolic printable character or line break, hex: a symbolic hexadecimal digit
ANY, HEX = '¤', '§'
ANYCHAR = mask_of([10, 13, *range(32, 127)])
HEXCHAR = mask_of('0123456789abcdefABCDEF')
ESCAPES = ['\\¤', 'a\\¤b', '¤\\n', '\\¤¤', '\\\\¤', '\\0¤', '\\x§1', '\\x3§', '\\x4¤', '\\xB§', '\\x4¤z', '\\u00§a', '\\u004§', '\\u§020', '\\u002¤', '\\u{§}',
           '\\u{2§}a', '\\u{§2}a', '\\u{1F60§}', '\\u{§0000}', '\\u{1§0000}', '\\u{4¤', '\\ud83d\\ude0§', '\\ud83d\\u§e00', '\\u§83d\\ude00',
           '\\uD83D\\uDE0§', '\\ud83d\\u{§}', '\\ud83d¤']
ESCAPES3 = ['\\x§§', '\\x§¤', '\\u00§§', '\\u§§20', '\\u{§§}a', '\\¤\\¤', '¤¤\\¤', '\\¤¤¤', '\\u§§§0', '\\u{§§§}', '\\ud8§§\\udc00', '\\ud800\\u§§00', '\\x§§§', '\\u{10§§00}']
KINDS = ['S', 's', 'i', 'j', 'f', 't']


def jobs(tier):
    out = []
    combos = [(a, b, c) for a in KINDS for b in KINDS for c in KINDS]
    for p in PLACES:
        for c in combos:
            if p in ('enum', 'enumcomma', 'virtual') and 't' in c:
                continue
            out.append(('values', {'place': p, 'kinds': ''.join(c), 'size': 0 if tier == 'quick' else 1}))
    for n in (1, 2, 3):
        out.append(('auto', {'digits': n}))
    for e in ESCAPES + (ESCAPES3 if tier == 'thorough' else []):
        for i, q in enumerate('"\''):
            for k, where in enumerate(('enum', 'field', 'const', 'object')):
                if tier == 'thorough' or (len(e) + i + k) % 4 == 0:
                    out.append(('escapes', {'text': e, 'quote': q, 'where': where}))
    for n in range(2, 7 if tier == 'quick' else 9):
        for q in '"\'':
            out.append(('one', {'n': n, 'quote': q}))
    return out


class Value:
    def __init__(self, ctx, kind, role, size):
        n = {0: 4, 1: 7}[size] if role == 'v1' else 3
        if kind == 'S':
            self.v = ctx.str(role, n, DQ, DQ)
            self.text = '"' + self.v + '"'
        elif kind == 's':
            self.v = ctx.str(role, n, SQ, SQ)
            self.text = "'" + self.v + "'"
        elif kind in 'ij':
            self.v = ctx.str(role, n, NZ, DIGITS) if kind == 'i' else '-' + ctx.str(role, 1, NZ, DIGITS)
            self.text = self.v
        elif kind == 'f':
            self.v = ctx.str(role, 1, NZ, NZ) + '.' + ctx.str(role + 'f', n - 1, DIGITS, NZ)
            self.text = self.v
        else:
            self.v = True if role == 'v1' else False
            self.text = 'true' if self.v else 'false'
        self.kind = kind
        self.type = {'S': 'string', 's': 'string', 'i': 'integer', 'j': 'number', 'f': 'number',
                     't': 'boolean'}[kind]

    def py(self):
        return {'S': 'str', 's': 'str', 'i': 'int', 'j': 'int', 'f': 'float', 't': 'bool'}[self.kind]


class Numbers:
    """stands symbolic numerals in the generated code in by unique numbers"""
    def __init__(self, ctx):
        self.ctx = ctx
        self.table = {}

    def code(self, code):
        if not self.ctx.symbolic:
            return code

        def repl(m):
            s = m.group(0)
            if not self.ctx.has_sym(s):
                return s
            if any(c != '.' and self.ctx.dom_of(c) & ~DIGITS for c in s):
                return s
            n = 700001 + len(self.table)
            n = n + 0.25 if '.' in s else n
            for k, v in self.table.items():
                if v == s:
                    return str(k)
            self.table[n] = s
            return str(n)
        # (numerals in string literals do not do any harm: they are not of interest)
        return re.sub(r'''"[^"\n]*"|'[^'\n]*'|[\w.]+''',
                      lambda m: m.group(0) if m.group(0)[0] in '"\'' else repl(m), code)

    def equal(self, act, value, enum_=False):
        """formula: act is the number that is written as value"""
        ctx = self.ctx
        if isinstance(act, bool) or not isinstance(act, (int, float)):
            return False
        if not enum_ and isinstance(act, int) == ('.' in value):
            return False
        if not ctx.symbolic:
            return act == (float(value) if '.' in value else int(value))
        neg = act < 0
        text = self.table.get(abs(act))
        if text is None:
            text = str(abs(act))
        return ctx.Eq(('-' if neg else '') + text, value)


def same(ctx, nums, act, v):
    item = isinstance(act, enum.Enum)
    if item:            # 1 and 1.0 are the same item
        act = act.value
    if v.kind in 'Ss':
        return type(act) is str and ctx.Eq(act, v.v)
    if v.kind == 't':
        return act is v.v
    return nums.equal(act, v.v, item)


class ValueModule(Module):
    def __init__(self, ctx, env, src):
        self.nums = Numbers(ctx)
        super().__init__(ctx, env, src, transform=self.nums.code)


def literal(ctx, nums, act, vs, lit, extra=()):
    """formula: the annotation stands for (one of) the values; without literal types: their types"""
    alts = act[1] if act[0] == 'u' else (act,)
    lits = [a for a in alts if a[0] == 'lit']
    others = [a for a in alts if a[0] != 'lit']
    if not lit:
        if lits:
            return False
        want = {v.py() for v in vs} | set(extra)
        got = {a[1] for a in others if a[0] == 'n'}
        return got == want and len(others) == len([a for a in others if a[0] == 'n'])
    fs = [ctx.Or(*[same(ctx, nums, a[1], v) for a in lits]) for v in vs]
    fs += [ctx.Or(*[same(ctx, nums, a[1], v) for v in vs]) for a in lits]
    return ctx.And({a[1] for a in others if a[0] == 'n'} == set(extra), *fs)


def values(ctx, env, place, kinds, size):
    cfg = configure(ctx, env, ('UseLiteralType', 'UseNotRequired', 'UseTypeUnion')
                    if place in ('union', 'refunion') else ('UseLiteralType',))
    v1, v2, v3 = vs = [Value(ctx, k, f'v{i + 1}', size) for i, k in enumerate(kinds)]
    doc, how = PLACES[place]
    src = doc
    sub = {'V1': v1.text, 'V2': v2.text, 'V3': v3.text, 'T1': v1.type, 'T2': v2.type, 'T3': v3.type}
    src = ''.join(sub.get(w, w) for w in re.split(r'\b([VT][123])\b', doc))
    m = ValueModule(ctx, env, src)
    if m.ns is None:
        return
    ns, nums, rd = m.ns, m.nums, m.rd
    lit = bool(cfg['UseLiteralType'])
    label = 'a value is not the value of the source'

    def check(f, label=label):
        ctx.check(f, label, m.show())

    def ann(cls, f):
        return rd.norm(cls.__dict__['__annotations__'][f], (cls.__dict__,), strip_nr=True)

    def lits(act, vs, extra=()):
        check(literal(ctx, nums, act, vs, lit, extra), 'a literal is not the literal of the source')

    def same_(act, v):
        check(same(ctx, nums, act, v))
    try:
        if how in ('items', 'attrs'):
            A = ns['Aa']
            if how == 'items':
                check(isinstance(A, type) and issubclass(A, enum.Enum), 'an enum is missing')
            for f, v in zip(('ff', 'gg', 'hh'), vs):
                same_(getattr(A, f), v)
        elif how == 'globals':
            for f, v in zip(('ff', 'gg', 'hh'), vs):
                same_(ns[f], v)
        elif how == 'array':
            a, b, (c,) = ns['ff']
            same_(a, v1), same_(b, v2), same_(c, v3)
        elif how == 'object':
            check(list(ns['ff']) == ['aa', 'bb', 'cc'] and list(ns['ff']['cc']) == ['dd'], 'a key is lost')
            same_(ns['ff']['aa'], v1), same_(ns['ff']['bb'][0], v2), same_(ns['ff']['cc']['dd'], v3)
        elif how == 'fields':
            for f, v in zip(('ff', 'gg', 'hh'), vs):
                lits(ann(ns['Aa'], f), [v])
        elif how == 'unions':
            opt = () if cfg['UseNotRequired'] else ('None',)
            lits(ann(ns['Aa'], 'ff'), vs)
            lits(ann(ns['Aa'], 'gg'), [v1, v2], opt)
            lits(ann(ns['Aa'], 'hh'), [v3, v1], ('None',))
        elif how == 'refunions':
            opt = () if cfg['UseNotRequired'] else ('None',)
            lits(ann(ns['Aa'], 'ff'), [v1, v2], ('Zz',))
            act = ann(ns['Aa'], 'gg')
            act = U(*[a for a in act[1] if a[0] != 'a'])
            lits(act, [v3], opt)
            lits(ann(ns['Aa'], 'hh'), [v1, v2], ('str', 'Zz'))
        elif how == 'alias':
            lits(rd.norm(ns['Aa']), vs)
        elif how == 'alias1':
            lits(rd.norm(ns['Aa']), [v1])
            act = U(*[a for a in rd.norm(ns['Bb'])[1] if a[0] != 'a'])
            if lit:
                lits(act, [v1, v2])
        elif how == 'tuple':
            t = ann(ns['Aa'], 'ff')
            for a, v in zip(t[2], vs):
                lits(a, [v])
            check(len(t[2]) == 3, 'an element is missing')
            lits(ann(ns['Aa'], 'gg')[2][1], [v1, v2])
        elif how == 'map':
            lits(ann(ns['Aa'], 'ff')[2][1], [v1, v2])
        elif how == 'param':
            a = ns['ff'].__annotations__
            lits(rd.norm(a['aa']), [v1, v2])
            lits(rd.norm(a['bb']), [v3], ('None',))
            lits(rd.norm(a['return']), [v1])
        elif how == 'anon':
            act = ann(ns['Aa'], 'gg')[2][0]
            lits(ann(act[1], 'ff'), [v1, v2])
            lits(ann(act[1], 'kk'), [v3])
    except (KeyError, AttributeError, IndexError, ValueError, TypeError) as e:
        ctx.check(False, 'a declaration or value is missing', f'{type(e).__name__} {e}: {m.show()}')
    ctx.observe('ok')


def auto(ctx, env, digits):
    """items without value follow their predecessors"""
    configure(ctx, env, ())
    v = ctx.str('v', digits, NZ, DIGITS)
    shape = ctx.choose('shape', 3)
    src = [f'enum Aa {{ ff = {v}, gg, hh }}\n', f'enum Aa {{ ff, gg = 2{v}, hh }}\n',
           'enum Aa { ff, gg, hh, ii }\n'][shape]
    m = ValueModule(ctx, env, src)
    if m.ns is None:
        return
    A = m.ns['Aa']
    vals = [x.value for x in A]
    ctx.check([x.name for x in A] == ['ff', 'gg', 'hh'] + ['ii'] * (shape == 2), 'items are lost', m.show())
    ok = all(b == a + 1 for a, b in zip(vals, vals[1:]) if shape != 1 or b != vals[1])
    ctx.check(ok, 'items do not follow their predecessors', m.show())
    if shape < 2:
        ctx.check(m.nums.equal(vals[0] if shape == 0 else vals[1], v if shape == 0 else '2' + v),
                  'a value is not the value of the source', m.show())
    ctx.observe(str(shape))


def one(ctx, env, n, quote):
    """longer strings"""
    cfg = configure(ctx, env, (), UseLiteralType=True)
    q = DQ if quote == '"' else SQ
    s = ctx.str('s', n, q, q)
    where = ctx.choose('where', 4, ['enum', 'const', 'field', 'union'])
    t = quote + s + quote
    src = {'enum': f'enum Aa {{ ff = {t} }}\n', 'const': f'const ff: string = {t};\n',
           'field': f'interface Aa {{ ff: {t} }}\n',
           'union': f'interface Aa {{ ff: "x" | Bb | {t} }}\ninterface Bb {{ }}\n'}[where]
    m = ValueModule(ctx, env, src)
    if m.ns is None:
        return
    if where == 'enum':
        act = m.ns['Aa'].ff.value
    elif where == 'const':
        act = m.ns['ff']
    else:
        act = m.rd.norm(m.ns['Aa'].__annotations__['ff'])
        alts = act[1] if act[0] == 'u' else (act,)
        f = ctx.Or(*[ctx.Eq(a[1], s) for a in alts if a[0] == 'lit' and isinstance(a[1], str)])
        ctx.check(f, 'a literal is not the literal of the source', m.show())
        return
    ctx.check(isinstance(act, str) and ctx.Eq(act, s), 'a value is not the value of the source', m.show())
    ctx.observe(where)


def hexdigits(ctx, chars, known):
    """-> hexadecimal digits (decided), or None if there are other characters"""
    r = ''
    for c in chars:
        if not ctx.branch(ctx.In(c, list('0123456789abcdefABCDEF'))):
            return None
        known[c] = next((d for d in '0123456789abcdefABCDE' if ctx.branch(ctx.Eq(c, d))), 'F')
        r += known[c]
    return r


def decode(ctx, s, quote, known):
    """the value of the contents of a literal according to ECMAScript (12.9.4), decides all characters that matter.
    None: not a legal string"""
    def is_(c, t):
        r = ctx.branch(ctx.In(c, list(t)))
        if r and len(t) == 1:
            known[c] = t
        return r
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        i += 1
        if is_(c, quote + '\n\r'):
            return None
        if not is_(c, '\\'):
            out.append(c)
            continue
        if i >= len(s):
            return None
        c = s[i]
        i += 1
        for k, v in zip('bfnrtv', '\b\f\n\r\t\v'):
            if is_(c, k):
                out.append(v)
                break
        else:
            if is_(c, '123456789'):
                return None
            if is_(c, '0'):
                if i < len(s) and is_(s[i], '0123456789'):
                    return None
                out.append('\0')
            elif is_(c, '\r'):
                if i < len(s) and is_(s[i], '\n'):
                    i += 1
            elif is_(c, '\n'):
                pass
            elif is_(c, 'x'):
                h = hexdigits(ctx, s[i:i + 2], known) if i + 2 <= len(s) else None
                if h is None:
                    return None
                out.append(chr(int(h, 16)))
                i += 2
            elif is_(c, 'u'):
                if i < len(s) and is_(s[i], '{'):
                    k = i + 1
                    while k < len(s) and not is_(s[k], '}'):
                        k += 1
                    h = hexdigits(ctx, s[i + 1:k], known) if i + 1 < k < len(s) else None
                    if h is None or int(h, 16) > 0x10ffff:
                        return None
                    out.append(chr(int(h, 16)))
                    i = k + 1
                else:
                    h = hexdigits(ctx, s[i:i + 4], known) if i + 4 <= len(s) else None
                    if h is None:
                        return None
                    out.append(chr(int(h, 16)))
                    i += 4
            else:
                if is_(c, '\'"\\'):
                    c = next((x for x in '"\\' if is_(c, x)), "'")
                out.append(c)
    r = []
    for c in out:       # surrogate pairs are single characters
        if r and '\udc00' <= c <= '\udfff' and '\ud800' <= r[-1] <= '\udbff':
            r[-1] = chr(0x10000 + ((ord(r[-1]) - 0xd800) << 10) + ord(c) - 0xdc00)
        else:
            r.append(c)
    return ''.join(r)


def escapes(ctx, env, text, quote, where):
    """escape sequences in strings"""
    configure(ctx, env, (), UseLiteralType=True)
    s = ''.join(ctx.str(f'c{i}', 1, ANYCHAR, ANYCHAR) if c == ANY else ctx.str(f'h{i}', 1, HEXCHAR, HEXCHAR) if c == HEX
                else c for i, c in enumerate(text))
    known = {}
    want = decode(ctx, s, quote, known)
    t = quote + s + quote
    src = {'enum': f'enum Aa {{ ff = {t} }}\n', 'const': f'const ff: string = {t};\n',
           'field': f'interface Aa {{ ff: "x" | {t} }}\n', 'object': f'const ff = [{{ kk: {t} }}];\n'}[where]
    if want is None:
        return
    m = Module(ctx, env, src, transform=lambda code: ''.join(known.get(c, c) for c in code))
    if m.ns is None:
        return
    if where == 'enum':
        act = m.ns['Aa'].ff.value
    elif where == 'const':
        act = m.ns['ff']
    elif where == 'object':
        act = m.ns['ff'][0]['kk']
    else:
        act = m.rd.norm(m.ns['Aa'].__annotations__['ff'])
        act = [a[1] for a in (act[1] if act[0] == 'u' else (act,)) if a[0] == 'lit']
        f = ctx.Or(*[ctx.Eq(a, want) for a in act if isinstance(a, str)])
        ctx.check(f, 'a literal is not the literal of the source', f'{want!r} {act} {m.show()}')
        return
    ctx.check(isinstance(act, str) and ctx.Eq(act, want), 'a value is not the value of the source', f'{want!r} {act!r} {m.show()}')
    ctx.observe(where)
