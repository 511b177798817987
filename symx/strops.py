"""symx.strops - str methods on strings with symbolic characters."""
import z3
from .core import (LETTERS, LOWER, UPPER, DIGITS, WORD, IDSTART, SPACE, FULL, mask_of, pred_mask,
                   mask_formula, bits, Infeasible)

LINEBREAK = pred_mask(lambda c: len(('a' + c + 'b').splitlines()) > 1)
PRINTABLE = pred_mask(str.isprintable)
NUL = '\0'


def _norm(i, n, default):
    if i is None:
        return default
    i = i.__index__()
    if i < 0:
        i += n
    return max(0, min(i, n)) if i <= n else n + 1


def eq(ctx, a, b):
    if len(a) != len(b):
        return False
    if a == b:
        return True
    if a.isascii() and b.isascii():
        return False
    return ctx.str_eq(a, b)


def startswith(ctx, s, prefix, start=None, end=None):
    t = s[start:end]
    if isinstance(prefix, tuple):
        return any(startswith(ctx, t, p) for p in prefix)
    if start is not None and start > len(s):
        return s.startswith(prefix, start, end)
    return eq(ctx, t[:len(prefix)], prefix)


def endswith(ctx, s, suffix, start=None, end=None):
    t = s[start:end]
    if isinstance(suffix, tuple):
        return any(endswith(ctx, t, p) for p in suffix)
    if len(suffix) > len(t):
        return False
    return eq(ctx, t[len(t) - len(suffix):], suffix)


def find(ctx, s, sub, start=None, end=None):
    lo, hi, _ = slice(start, end).indices(len(s))
    if start is not None and start > len(s):
        return -1
    for i in range(lo, hi - len(sub) + 1):
        if eq(ctx, s[i:i + len(sub)], sub):
            return i
    return -1


def rfind(ctx, s, sub, start=None, end=None):
    lo, hi, _ = slice(start, end).indices(len(s))
    if start is not None and start > len(s):
        return -1
    for i in range(hi - len(sub), lo - 1, -1):
        if eq(ctx, s[i:i + len(sub)], sub):
            return i
    return -1


def contains(ctx, s, sub):
    """sub in s: one fork for the disjunction over positions"""
    fs = []
    for i in range(0, len(s) - len(sub) + 1):
        seg = s[i:i + len(sub)]
        if seg == sub:
            return True
        f = ctx.eq_formula(seg, sub)
        if f is True:
            return True
        if f is not False:
            fs.append((f, seg))
    if not fs:
        return False
    if len(fs) == 1:
        return ctx.str_eq(fs[0][1], sub)
    return ctx.branch(z3.Or([f for f, _ in fs]), 'contains')


def index(ctx, s, sub, start=None, end=None):
    i = find(ctx, s, sub, start, end)
    if i < 0:
        raise ValueError('substring not found')
    return i


def rindex(ctx, s, sub, start=None, end=None):
    i = rfind(ctx, s, sub, start, end)
    if i < 0:
        raise ValueError('substring not found')
    return i


def count(ctx, s, sub, start=None, end=None):
    t = s[start:end]
    if not sub:
        return len(t) + 1
    n = i = 0
    while i + len(sub) <= len(t):
        if eq(ctx, t[i:i + len(sub)], sub):
            n += 1
            i += len(sub)
        else:
            i += 1
    return n


def replace(ctx, s, old, new, count=-1):
    if not old:
        return s.replace(old, new, count)
    out = []
    i = 0
    last = 0
    n = len(old)
    while i + n <= len(s) and count != 0:
        if eq(ctx, s[i:i + n], old):
            out.append(s[last:i])
            out.append(new)
            i += n
            last = i
            count -= 1
        else:
            i += 1
    out.append(s[last:])
    return ''.join(out)


def split(ctx, s, sep=None, maxsplit=-1):
    if sep is None:
        parts = []
        i = 0
        n = len(s)
        while True:
            while i < n and ctx.ch_in(s[i], SPACE):
                i += 1
            if i >= n:
                break
            if 0 <= maxsplit <= len(parts):
                j = n
                while j > i and ctx.ch_in(s[j - 1], SPACE):
                    j -= 1
                parts.append(s[i:j] if maxsplit != 0 else s[i:])
                break
            j = i
            while j < n and not ctx.ch_in(s[j], SPACE):
                j += 1
            parts.append(s[i:j])
            i = j
        return parts
    if not sep:
        raise ValueError('empty separator')
    parts = []
    i = last = 0
    while i + len(sep) <= len(s):
        if 0 <= maxsplit <= len(parts):
            break
        if eq(ctx, s[i:i + len(sep)], sep):
            parts.append(s[last:i])
            i += len(sep)
            last = i
        else:
            i += 1
    parts.append(s[last:])
    return parts


def rsplit(ctx, s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return split(ctx, s, sep)
    if sep is None:
        parts = split(ctx, s)
        if len(parts) <= maxsplit + 1:
            return parts
        ctx.note('rsplit(None, n) approximated')
        raise Infeasible('rsplit')
    parts = []
    end = len(s)
    while len(parts) < maxsplit:
        i = rfind(ctx, s[:end], sep)
        if i < 0:
            break
        parts.append(s[i + len(sep):end])
        end = i
    parts.append(s[:end])
    parts.reverse()
    return parts


def partition(ctx, s, sep):
    i = find(ctx, s, sep)
    return (s, '', '') if i < 0 else (s[:i], s[i:i + len(sep)], s[i + len(sep):])


def rpartition(ctx, s, sep):
    i = rfind(ctx, s, sep)
    return ('', '', s) if i < 0 else (s[:i], s[i:i + len(sep)], s[i + len(sep):])


def splitlines(ctx, s, keepends=False):
    out = []
    i = last = 0
    n = len(s)
    while i < n:
        if ctx.ch_in(s[i], LINEBREAK) or (ord(s[i]) >= 128 and ord(s[i]) not in ctx.chars
                                          and len(('a' + s[i] + 'b').splitlines()) > 1):
            e = i + 1
            if ctx.ch_in(s[i], mask_of('\r')) and e < n and ctx.ch_in(s[e], mask_of('\n')):
                e += 1
            out.append(s[last:e] if keepends else s[last:i])
            i = last = e
        else:
            i += 1
    if last < n:
        out.append(s[last:])
    return out


def _strip_pred(ctx, chars):
    if chars is None:
        return lambda ch: ctx.ch_in(ch, SPACE) or \
            (ord(ch) >= 128 and ord(ch) not in ctx.chars and ch.isspace())
    if chars.isascii():
        m = mask_of(chars)
        return lambda ch: ctx.ch_in(ch, m) or (ord(ch) >= 128 and ch in chars)
    return lambda ch: any(eq(ctx, ch, c) for c in chars)


def lstrip(ctx, s, chars=None):
    p = _strip_pred(ctx, chars)
    i = 0
    while i < len(s) and p(s[i]):
        i += 1
    return s[i:]


def rstrip(ctx, s, chars=None):
    p = _strip_pred(ctx, chars)
    j = len(s)
    while j > 0 and p(s[j - 1]):
        j -= 1
    return s[:j]


def strip(ctx, s, chars=None):
    return rstrip(ctx, lstrip(ctx, s, chars), chars)


TAB_UP = tuple(ord(chr(i).upper()) for i in range(128))
TAB_LO = tuple(ord(chr(i).lower()) for i in range(128))
TAB_SW = tuple(ord(chr(i).swapcase()) for i in range(128))


def _map(ctx, s, table, native):
    return ''.join(ctx.derive(ch, table) if ord(ch) in ctx.chars else native(ch) for ch in s)


def upper(ctx, s):
    return _map(ctx, s, TAB_UP, str.upper)


def lower(ctx, s):
    return _map(ctx, s, TAB_LO, str.lower)


casefold = lower


def swapcase(ctx, s):
    return _map(ctx, s, TAB_SW, str.swapcase)


def capitalize(ctx, s):
    return upper(ctx, s[:1]) + lower(ctx, s[1:])


def title(ctx, s):
    out = []
    prev = False
    for ch in s:
        out.append(lower(ctx, ch) if prev else upper(ctx, ch))
        prev = ctx.ch_in(ch, LETTERS) or (ord(ch) not in ctx.chars and ch.isalpha())
    return ''.join(out)


def _all(ctx, s, mask, native):
    """every character in mask: one fork for the conjunction"""
    if not s:
        return False
    open_ = []
    for ch in s:
        o = ord(ch)
        if o in ctx.chars:
            d = ctx.dom_of(ch)
            if not d & mask:
                return False
            if d & ~mask:
                open_.append(ch)
        elif not native(ch):
            return False
    if not open_:
        return True
    if len(open_) == 1:
        return ctx.ch_in(open_[0], mask)
    r = ctx.branch(z3.And([mask_formula(ctx.ch_expr(ch), mask) for ch in open_]), 'all')
    if r:
        for ch in open_:
            ctx.narrow(ch, mask)
    return r


def isalpha(ctx, s):
    return _all(ctx, s, LETTERS, str.isalpha)


def isalnum(ctx, s):
    return _all(ctx, s, LETTERS | DIGITS, str.isalnum)


def isdigit(ctx, s):
    return _all(ctx, s, DIGITS, str.isdigit)


isdecimal = isnumeric = isdigit


def isspace(ctx, s):
    return _all(ctx, s, SPACE, str.isspace)


def isprintable(ctx, s):
    return not s or _all(ctx, s, PRINTABLE, str.isprintable)


def isascii(ctx, s):
    return all(ord(c) < 128 or ord(c) in ctx.chars for c in s)


def isidentifier(ctx, s):
    if not s:
        return False
    return _all(ctx, s[0], IDSTART, str.isidentifier) and \
        (len(s) == 1 or _all(ctx, s[1:], WORD, lambda c: ('a' + c).isidentifier()))


def isupper(ctx, s):
    seen = False
    for ch in s:
        if ord(ch) in ctx.chars:
            if ctx.ch_in(ch, LOWER):
                return False
            if ctx.ch_in(ch, UPPER):
                seen = True
        else:
            if ch.islower():
                return False
            seen = seen or ch.isupper()
    return seen


def islower(ctx, s):
    seen = False
    for ch in s:
        if ord(ch) in ctx.chars:
            if ctx.ch_in(ch, UPPER):
                return False
            if ctx.ch_in(ch, LOWER):
                seen = True
        else:
            if ch.isupper():
                return False
            seen = seen or ch.islower()
    return seen


def istitle(ctx, s):
    prev = False
    seen = False
    for ch in s:
        if ctx.ch_in(ch, UPPER):
            if prev:
                return False
            prev = seen = True
        elif ctx.ch_in(ch, LOWER):
            if not prev:
                return False
            seen = True
        else:
            prev = False
    return seen


def removeprefix(ctx, s, p):
    return s[len(p):] if startswith(ctx, s, p) else s


def removesuffix(ctx, s, p):
    return s[:len(s) - len(p)] if p and endswith(ctx, s, p) else s


def join(ctx, s, it):
    return s.join(it)


def native(name):
    f = getattr(str, name)

    def g(ctx, s, *a, **k):
        return f(s, *a, **k)
    return g


def expandtabs(ctx, s, tabsize=8):
    s = fix_chars(ctx, s, mask_of('\t\n\r'))
    return s.expandtabs(tabsize)


def fix_chars(ctx, s, mask):
    """decide for every symbolic character whether it is one of the (few)
    characters in mask - and which one"""
    out = []
    for ch in s:
        if ord(ch) in ctx.chars and ctx.ch_in(ch, mask):
            for b in bits(mask):
                if ctx.ch_in(ch, 1 << b):
                    ch = chr(b)
                    break
        out.append(ch)
    return ''.join(out)


def repr_(ctx, s):
    out = fix_chars(ctx, s, FULL & ~(PRINTABLE & ~mask_of('\'"\\')))
    return repr(out)


def format_(ctx, s, *a, **k):
    s = fix_chars(ctx, s, mask_of('{}'))
    return s.format(*a, **k)


def translate(ctx, s, table):
    tab = []
    for i in range(128):
        try:
            v = table[i]
        except LookupError:
            v = i
        if isinstance(v, str) and len(v) == 1:
            v = ord(v)
        tab.append(v)
    if all(isinstance(v, int) and v < 128 for v in tab):
        return ''.join(ctx.derive(ch, tuple(tab)) if ord(ch) in ctx.chars else ch.translate(table)
                       for ch in s)
    special = mask_of(i for i in range(128) if tab[i] != i)
    return fix_chars(ctx, s, special).translate(table)


def encode(ctx, s, *a, **k):
    return ctx.concretize(s, 'str.encode').encode(*a, **k)


def lt(ctx, a, b):
    for x, y in zip(a, b):
        if eq(ctx, x, y):
            continue
        ex, ey = ctx.ch_expr(x), ctx.ch_expr(y)
        if ex is None or ey is None:
            return x < y if (ex is None) == (ey is None) else ex is not None
        return ctx.branch(z3.ULT(ex, ey), 'lt')
    return len(a) < len(b)


METHODS = dict(startswith=startswith, endswith=endswith, find=find, rfind=rfind, index=index,
               rindex=rindex, count=count, replace=replace, split=split, rsplit=rsplit,
               partition=partition, rpartition=rpartition, splitlines=splitlines, strip=strip,
               lstrip=lstrip, rstrip=rstrip, upper=upper, lower=lower, casefold=casefold,
               swapcase=swapcase, capitalize=capitalize, title=title, isalpha=isalpha,
               isalnum=isalnum, isdigit=isdigit, isdecimal=isdecimal, isnumeric=isnumeric,
               isspace=isspace, isprintable=isprintable, isascii=isascii,
               isidentifier=isidentifier, isupper=isupper, islower=islower, istitle=istitle,
               removeprefix=removeprefix, removesuffix=removesuffix, join=join,
               expandtabs=expandtabs, format=format_, translate=translate, encode=encode,
               __contains__=contains, __len__=native('__len__'), ljust=native('ljust'),
               rjust=native('rjust'), center=native('center'), zfill=native('zfill'),
               __str__=native('__str__'), __getitem__=native('__getitem__'),
               __add__=native('__add__'), __iter__=native('__iter__'),
               __format__=native('__format__'), __repr__=repr_, __eq__=eq,
               __mul__=native('__mul__'))
