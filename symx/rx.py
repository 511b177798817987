"""symx.rx - regular expressions over strings with symbolic characters.

A backtracking matcher over CPython's own parse tree (re._parser).  Character
tests go through ctx.ch_in / ctx.str_eq and fork when they are open, so along
one path the matcher behaves exactly like the real one does for every
assignment of that path.
"""
import re
from re import _parser, _constants as C
from .core import mask_of, pred_mask, FULL, WORD, DIGITS, SPACE

CAT = {
    C.CATEGORY_DIGIT: (DIGITS, str.isdigit), C.CATEGORY_NOT_DIGIT: None,
    C.CATEGORY_SPACE: (SPACE, str.isspace), C.CATEGORY_NOT_SPACE: None,
    C.CATEGORY_WORD: (WORD, lambda c: c.isalnum() or c == '_'), C.CATEGORY_NOT_WORD: None,
}
NOTCAT = {C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT, C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE,
          C.CATEGORY_NOT_WORD: C.CATEGORY_WORD}


class Unsupported(Exception):
    pass


class CharSet:
    """ASCII mask + predicate for other (concrete) characters"""
    __slots__ = ('mask', 'items', 'neg')

    def __init__(self, items, ignorecase=False):
        self.neg = False
        m = 0
        its = []
        for op, av in items:
            if op is C.NEGATE:
                self.neg = True
            elif op is C.LITERAL:
                if av < 128:
                    m |= 1 << av
                    if ignorecase:
                        m |= mask_of(chr(av).swapcase()) if chr(av).isalpha() else 0
                its.append(('lit', av))
            elif op is C.RANGE:
                lo, hi = av
                for i in range(lo, min(hi, 127) + 1):
                    m |= 1 << i
                    if ignorecase and chr(i).isalpha():
                        m |= mask_of(chr(i).swapcase())
                its.append(('range', av))
            elif op is C.CATEGORY:
                if av in NOTCAT:
                    m |= FULL & ~CAT[NOTCAT[av]][0]
                elif av in CAT:
                    m |= CAT[av][0]
                else:
                    raise Unsupported(av)
                its.append(('cat', av))
            else:
                raise Unsupported(op)
        self.items = its
        self.mask = (FULL & ~m) if self.neg else m

    def other(self, ch):
        o = ord(ch)
        r = False
        for k, av in self.items:
            if k == 'lit':
                r = r or o == av
            elif k == 'range':
                r = r or av[0] <= o <= av[1]
            else:
                if av in NOTCAT:
                    r = r or not CAT[NOTCAT[av]][1](ch)
                else:
                    r = r or CAT[av][1](ch)
        return r != self.neg

    def test(self, ctx, ch):
        o = ord(ch)
        if o < 128:
            return bool(self.mask >> o & 1)
        if o in ctx.chars:
            return ctx.ch_in(ch, self.mask)
        return self.other(ch)


NL = CharSet([(C.LITERAL, 10)])
NOTNL = CharSet([(C.NEGATE, None), (C.LITERAL, 10)])
ANYCH = CharSet([(C.NEGATE, None)])
WORDSET = CharSet([(C.CATEGORY, C.CATEGORY_WORD)])


class NoMatch(Exception):
    pass


class TooLong(Exception):
    pass


class May:
    """stands in for the context, to find out whether a match is possible at all (an over-approximation:
    every character test that is open succeeds or fails as needed)"""
    __slots__ = ('ctx', 'chars', 'steps')

    def __init__(self, ctx):
        self.ctx, self.chars, self.steps = ctx, ctx.chars, 0

    def ch_in(self, ch, mask):
        self.steps += 1
        if self.steps > 5000:
            raise TooLong
        return bool(self.ctx.dom_of(ch) & mask)

    def str_eq(self, a, b):
        self.steps += 1
        if self.steps > 5000:
            raise TooLong
        return len(a) == len(b) and all(x == y or self.ctx.dom_of(x) & self.ctx.dom_of(y) for x, y in zip(a, b))

    def open(self, ch, mask):
        if ord(ch) not in self.chars:
            return False
        d = self.ctx.dom_of(ch)
        return bool(d & mask) and bool(d & ~mask)


class Guard:
    """one attempt to match: before the first forks, it is made sure that a match is possible at all"""
    __slots__ = ('ctx', 'chars', 'prog', 's', 'pos', 'k', 'left')

    def __init__(self, ctx, prog, s, pos, k):
        self.ctx, self.chars, self.prog, self.s, self.pos, self.k = ctx, ctx.chars, prog, s, pos, k
        self.left = 3

    def possible(self):
        if self.left <= 0 or self.prog.may is None:
            return
        self.left -= 1
        try:
            if self.prog.may(May(self.ctx), self.s, self.pos, (None,) * self.prog.groups, self.k) is None:
                raise NoMatch
        except (TooLong, RecursionError):
            self.left = 0

    def ch_in(self, ch, mask):
        d = self.ctx.dom_of(ch)
        if not d & mask:
            return False
        if not d & ~mask:
            return True
        self.possible()
        return self.ctx.ch_in(ch, mask)

    def str_eq(self, a, b):
        self.possible()
        return self.ctx.str_eq(a, b)


class Program:
    lax = False
    may = None

    def __init__(self, pattern, flags=0, lax=False):
        self.pattern = pattern
        self.lax = lax
        tree = _parser.parse(pattern, flags)
        self.flags = tree.state.flags
        self.groups = tree.state.groups - 1
        self.groupindex = dict(tree.state.groupdict)
        self.fn = self.seq(list(tree), self.flags)
        if not lax and not re.search(r'\(\?P=|\\[1-9]', pattern):
            self.may = Program(pattern, flags, lax=True).fn

    # every compiled node: f(ctx, s, pos, groups, k) -> result or None
    # k(pos, groups) -> result or None ; groups: tuple of (start, end) / None
    def seq(self, items, flags):
        merged = []
        ic = flags & re.IGNORECASE
        for op, av in items:
            if op is C.LITERAL and not ic and merged and merged[-1][0] == 'LITS':
                merged[-1] = ('LITS', merged[-1][1] + chr(av))
            elif op is C.LITERAL and not ic:
                merged.append(('LITS', chr(av)))
            else:
                merged.append((op, av))
        fns = [self.node(op, av, flags) for op, av in merged]
        if not fns:
            return lambda ctx, s, pos, g, k: k(pos, g)
        if len(fns) == 1:
            return fns[0]

        def run(ctx, s, pos, g, k, i=0):
            if i == len(fns) - 1:
                return fns[i](ctx, s, pos, g, k)
            return fns[i](ctx, s, pos, g, lambda p, gg: run(ctx, s, p, gg, k, i + 1))
        return run

    def node(self, op, av, flags):
        if op == 'LITS':
            lit = av
            n = len(lit)

            def f(ctx, s, pos, g, k):
                seg = s[pos:pos + n]
                if seg == lit or (len(seg) == n and not (seg.isascii() and lit.isascii())
                                  and ctx.str_eq(seg, lit)):
                    return k(pos + n, g)
                return None
            return f
        if op is C.LITERAL:
            return self.charset(CharSet([(op, av)], flags & re.IGNORECASE))
        if op is C.NOT_LITERAL:
            return self.charset(CharSet([(C.NEGATE, None), (C.LITERAL, av)], flags & re.IGNORECASE))
        if op is C.ANY:
            return self.charset(ANYCH if flags & re.DOTALL else NOTNL)
        if op is C.IN:
            return self.charset(CharSet(av, flags & re.IGNORECASE))
        if op is C.BRANCH:
            alts = [self.seq(list(a), flags) for a in av[1]]

            def f(ctx, s, pos, g, k):
                for a in alts:
                    r = a(ctx, s, pos, g, k)
                    if r is not None:
                        return r
                return None
            return f
        if op is C.SUBPATTERN:
            group, add, sub, p = av
            fl = (flags | add) & ~sub
            inner = self.seq(list(p), fl)
            if group is None:
                return inner

            def f(ctx, s, pos, g, k):
                def kk(p2, gg):
                    gl = list(gg)
                    gl[group - 1] = (pos, p2)
                    return k(p2, tuple(gl))
                return inner(ctx, s, pos, g, kk)
            return f
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, p = av
            hi = 10 ** 9 if hi is C.MAXREPEAT else hi
            inner = self.seq(list(p), flags)
            single = self.single_set(list(p), flags)
            if op is C.POSSESSIVE_REPEAT and self.lax:
                op = C.MAX_REPEAT
            if op is C.POSSESSIVE_REPEAT:
                def f(ctx, s, pos, g, k):
                    cnt = 0
                    while cnt < hi:
                        r = inner(ctx, s, pos, g, lambda p2, gg: (p2, gg))
                        if r is None or (r[0] == pos and cnt >= lo):
                            break
                        pos, g = r
                        cnt += 1
                    return k(pos, g) if cnt >= lo else None
                return f
            if op is C.MAX_REPEAT:
                if single is not None:
                    def f(ctx, s, pos, g, k):
                        end = pos
                        n = len(s)
                        while end < n and end - pos < hi and single.test(ctx, s[end]):
                            end += 1
                        while end - pos >= lo:
                            r = k(end, g)
                            if r is not None:
                                return r
                            end -= 1
                        return None
                    return f

                def f(ctx, s, pos, g, k):
                    def rep(p, gg, cnt, last):
                        if cnt < lo or (cnt < hi and p != last):
                            r = inner(ctx, s, p, gg,
                                      lambda p2, g2: rep(p2, g2, cnt + 1, p))
                            if r is not None:
                                return r
                        if cnt >= lo:
                            return k(p, gg)
                        return None
                    return rep(pos, g, 0, -1)
                return f

            def f(ctx, s, pos, g, k):
                def rep(p, gg, cnt, last):
                    if cnt >= lo:
                        r = k(p, gg)
                        if r is not None:
                            return r
                    if cnt < lo or (cnt < hi and p != last):
                        return inner(ctx, s, p, gg, lambda p2, g2: rep(p2, g2, cnt + 1, p))
                    return None
                return rep(pos, g, 0, -1)
            return f
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            neg = op is C.ASSERT_NOT
            if neg and self.lax:
                return lambda ctx, s, pos, g, k: k(pos, g)
            if direction > 0:
                inner = self.seq(list(p), flags)

                def f(ctx, s, pos, g, k):
                    r = inner(ctx, s, pos, g, lambda p2, gg: (p2, gg))
                    if neg:
                        return k(pos, g) if r is None else None
                    return k(pos, r[1]) if r is not None else None
                return f
            lo, hi = p.getwidth()
            if lo != hi:
                raise Unsupported('variable lookbehind')
            inner = self.seq(list(p), flags)

            def f(ctx, s, pos, g, k):
                r = None
                if pos - lo >= 0:
                    r = inner(ctx, s, pos - lo, g, lambda p2, gg: (p2, gg) if p2 == pos else None)
                if neg:
                    return k(pos, g) if r is None else None
                return k(pos, r[1]) if r is not None else None
            return f
        if op is C.AT:
            ml = flags & re.MULTILINE
            if av is C.AT_BEGINNING and not ml or av is C.AT_BEGINNING_STRING:
                return lambda ctx, s, pos, g, k: k(pos, g) if pos == 0 else None
            if av is C.AT_BEGINNING:
                return lambda ctx, s, pos, g, k: \
                    k(pos, g) if pos == 0 or NL.test(ctx, s[pos - 1]) else None
            if av is C.AT_END_STRING:
                return lambda ctx, s, pos, g, k: k(pos, g) if pos == len(s) else None
            if av is C.AT_END:
                def f(ctx, s, pos, g, k):
                    if pos == len(s) or ((ml or pos == len(s) - 1) and NL.test(ctx, s[pos])):
                        return k(pos, g)
                    return None
                return f
            if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                want = av is C.AT_BOUNDARY
                lax = self.lax

                def f(ctx, s, pos, g, k):
                    if lax and (pos > 0 and ctx.open(s[pos - 1], WORDSET.mask) or
                                pos < len(s) and ctx.open(s[pos], WORDSET.mask)):
                        return k(pos, g)
                    a = pos > 0 and WORDSET.test(ctx, s[pos - 1])
                    b = pos < len(s) and WORDSET.test(ctx, s[pos])
                    return k(pos, g) if (a != b) == want else None
                return f
            raise Unsupported(av)
        if op is C.GROUPREF:
            def f(ctx, s, pos, g, k):
                span = g[av - 1]
                if span is None:
                    return None
                t = s[span[0]:span[1]]
                seg = s[pos:pos + len(t)]
                if len(seg) == len(t) and (seg == t or ctx.str_eq(seg, t)):
                    return k(pos + len(t), g)
                return None
            return f
        if op is C.ATOMIC_GROUP:
            inner = self.seq(list(av), flags)
            if self.lax:
                return inner

            def f(ctx, s, pos, g, k):
                r = inner(ctx, s, pos, g, lambda p2, gg: (p2, gg))
                return k(*r) if r is not None else None
            return f
        raise Unsupported(op)

    def single_set(self, items, flags):
        if len(items) != 1:
            return None
        op, av = items[0]
        ic = flags & re.IGNORECASE
        if op is C.LITERAL:
            return CharSet([(op, av)], ic)
        if op is C.NOT_LITERAL:
            return CharSet([(C.NEGATE, None), (C.LITERAL, av)], ic)
        if op is C.ANY:
            return ANYCH if flags & re.DOTALL else NOTNL
        if op is C.IN:
            return CharSet(av, ic)
        return None

    def charset(self, cs):
        def f(ctx, s, pos, g, k):
            if pos < len(s) and cs.test(ctx, s[pos]):
                return k(pos + 1, g)
            return None
        return f

    def match_at(self, ctx, s, pos, full=False):
        k = (lambda p, g: (p, g) if p == len(s) else None) if full else (lambda p, g: (p, g))
        return self.attempt(ctx, s, pos, k)

    def attempt(self, ctx, s, pos, k):
        try:
            return self.fn(Guard(ctx, self, s, pos, k), s, pos, (None,) * self.groups, k)
        except NoMatch:
            return None


class Match:
    def __init__(self, pat, prog, s, start, end, groups):
        self.re = pat
        self._prog = prog
        self.string = s
        self._spans = ((start, end),) + groups
        self.pos = 0
        self.endpos = len(s)

    def _idx(self, g):
        if isinstance(g, str):
            return self._prog.groupindex[g]
        if g >= len(self._spans):
            raise IndexError('no such group')
        return g

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = []
        for g in gs:
            sp = self._spans[self._idx(g)]
            r.append(None if sp is None else self.string[sp[0]:sp[1]])
        return r[0] if len(r) == 1 else tuple(r)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if sp is None else self.string[sp[0]:sp[1]]
                     for sp in self._spans[1:])

    def groupdict(self, default=None):
        r = {}
        for n, i in self._prog.groupindex.items():
            sp = self._spans[i]
            r[n] = default if sp is None else self.string[sp[0]:sp[1]]
        return r

    def start(self, g=0):
        sp = self._spans[self._idx(g)]
        return -1 if sp is None else sp[0]

    def end(self, g=0):
        sp = self._spans[self._idx(g)]
        return -1 if sp is None else sp[1]

    def span(self, g=0):
        return (self.start(g), self.end(g))

    @property
    def lastindex(self):
        best = None
        for i, sp in enumerate(self._spans[1:], 1):
            if sp is not None and (best is None or sp[1] >= self._spans[best][1]):
                best = i
        return best

    def expand(self, template):
        out = []
        for lit in parse_template(template, self._prog):
            out.append(lit if isinstance(lit, str) else (self.group(lit) or ''))
        return ''.join(out)

    def __bool__(self):
        return True


def parse_template(template, prog):
    if '\\' not in template:
        return [template]

    class P:
        groups = prog.groups
        groupindex = prog.groupindex
    t = _parser.parse_template(template, P)
    if isinstance(t, tuple):            # 3.11 style
        groups, literals = t
        return literals
    return [x if x is not None else '' for x in t]


_progs = {}


def program(pattern, flags):
    key = (pattern, flags)
    p = _progs.get(key)
    if p is None:
        p = _progs[key] = Program(pattern, flags)
    return p


REFLAGS = re.IGNORECASE | re.MULTILINE | re.DOTALL | re.VERBOSE


def prog_of(pat, flags=0):
    if isinstance(pat, str):
        return program(pat, int(flags) & int(REFLAGS))
    return program(pat.pattern, int(pat.flags) & int(REFLAGS))


def search(ctx, pat, s, pos=0, endpos=None, mode='search', flags=0):
    prog = prog_of(pat, flags)
    if endpos is not None and endpos < len(s):
        s = s[:endpos]
    if mode in ('match', 'fullmatch'):
        r = prog.match_at(ctx, s, pos, mode == 'fullmatch')
        return Match(pat, prog, s, pos, r[0], r[1]) if r is not None else None
    for i in range(pos, len(s) + 1):
        r = prog.match_at(ctx, s, i)
        if r is not None:
            return Match(pat, prog, s, i, r[0], r[1])
    return None


def finditer(ctx, pat, s, pos=0, flags=0):
    prog = prog_of(pat, flags)
    n = len(s)
    last_empty_at = -1
    last_end = None
    while pos <= n:
        m = None
        for i in range(pos, n + 1):
            if last_end == i:
                # an empty match is not allowed right after... (3.7+: allowed unless
                # it is the position where the previous non-empty match ended
                # and is itself empty -> allowed); emulate sre: must-advance
                r = prog.attempt(ctx, s, i,
                                 lambda p, g, i=i: (p, g) if p != i or last_empty_at != i else None)
            else:
                r = prog.match_at(ctx, s, i)
            if r is not None:
                m = Match(pat, prog, s, i, r[0], r[1])
                break
        if m is None:
            return
        yield m
        st, en = m.span()
        if st == en:
            last_empty_at = en
            last_end = en
            pos = en
            # must advance: try a non-empty match at the same position next
        else:
            last_end = en
            last_empty_at = -1
            pos = en


def sub(ctx, pat, repl, s, count=0, flags=0, n_out=None):
    prog = prog_of(pat, flags)
    out = []
    last = 0
    n = 0
    for m in finditer(ctx, pat, s, 0, flags):
        if count and n >= count:
            break
        out.append(s[last:m.start()])
        if callable(repl):
            out.append(repl(m))
        else:
            out.append(m.expand(repl))
        last = m.end()
        n += 1
    out.append(s[last:])
    r = ''.join(out)
    return (r, n) if n_out else r


def split(ctx, pat, s, maxsplit=0, flags=0):
    out = []
    last = 0
    n = 0
    for m in finditer(ctx, pat, s, 0, flags):
        if maxsplit and n >= maxsplit:
            break
        out.append(s[last:m.start()])
        out.extend(m.groups())
        last = m.end()
        n += 1
    out.append(s[last:])
    return out


def findall(ctx, pat, s, pos=0, flags=0):
    r = []
    for m in finditer(ctx, pat, s, pos, flags):
        g = m.groups()
        r.append(m.group(0) if not g else (g[0] if g[0] is not None else '') if len(g) == 1
                 else tuple(x if x is not None else '' for x in g))
    return r
