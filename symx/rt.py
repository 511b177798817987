"""symx.rt - run time support for instrumented modules.

The instrumenter (symx.instr) rewrites comparisons, subscripts, calls, set and
dict displays ... of the code under test into calls of the functions below.
With purely concrete operands every one of them is the native operation.
"""
import builtins
import keyword
import operator
import re
import sys

import z3

from . import strops, rx
from .core import (Infeasible, Undecided, FULL, WORD, DIGITS, SPACE, mask_of, pred_mask, bits)

try:
    SITE = '/opt/venv/lib/python3.12/site-packages'
    if SITE not in sys.path:        # the repository uses module regex, if it is installed
        sys.path.append(SITE)
    import regex
    PATTERNS = (re.Pattern, type(regex.compile('')))
    REMODS = (re, regex)
except ImportError:
    regex = None
    PATTERNS = (re.Pattern,)
    REMODS = (re,)

ctx = None          # the active symbolic context (or None: everything native)


def set_ctx(c):
    global ctx
    ctx = c


class Sym:
    """base class of symbolic non-string values"""
    __slots__ = ()


class SymBool(Sym):
    """lazily forking boolean (configuration switches, flags)"""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return ctx.branch(self.f, 'SymBool')

    def __str__(self):
        return str(bool(self))

    __repr__ = __str__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, other):
        return bool(self) == (bool(other) if isinstance(other, SymBool) else other)

    def __ne__(self, other):
        return not self == other

    def __and__(self, o):
        return bool(self) & bool(o)

    def __or__(self, o):
        return bool(self) | bool(o)

    __rand__ = __and__
    __ror__ = __or__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    @property
    def __class__(self):
        return bool


# ---------------------------------------------------------------------------
def is_symstr(x):
    return type(x) is str and not x.isascii() and ctx is not None and ctx.has_sym(x)


def symarg(x):
    t = type(x)
    if t is str:
        return not x.isascii() and ctx.has_sym(x)
    return isinstance(x, Sym) or t is SymBool


def eq(a, b):
    if ctx is None or a is b:
        return a == b
    ta, tb = type(a), type(b)
    if ta is str and tb is str:
        if a.isascii() and b.isascii():
            return a == b
        return strops.eq(ctx, a, b)
    if issubclass(ta, Sym):
        return a == b
    if issubclass(tb, Sym):
        return b == a
    if ta in (list, tuple) and tb is ta:
        if len(a) != len(b):
            return False
        return all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        for k, v in a.items():
            hit = dict_find(b, k)
            if hit is None or not eq(v, b[hit[0]]):
                return False
        return True
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if not any(map(symarg, a)) and not any(map(symarg, b)):
            return set(a) == set(b)
        return len(a) == len(b) and all(contains(b, x) for x in a)
    return a == b


def dict_find(d, k):
    """(stored key,) equal to k in dict d, or None"""
    if type(k) is str:
        if k.isascii() or not ctx.has_sym(k):
            if dict.__contains__(d, k):
                return (k,)
            cands = [x for x in dict.keys(d) if type(x) is str and not x.isascii()]
            for c in cands:
                if ctx.has_sym(c) and strops.eq(ctx, c, k):
                    return (c,)
            return None
        if dict.__contains__(d, k):
            return (k,)
        for x in list(dict.keys(d)):
            if type(x) is str and len(x) == len(k) and strops.eq(ctx, x, k):
                return (x,)
        return None
    if isinstance(k, Sym) and not isinstance(k, SymBool):
        for x in list(dict.keys(d)):
            if k == x:
                return (x,)
        return None
    return (k,) if dict.__contains__(d, k) else None


def group_lookup(d, k):
    """value for a symbolic string key; keys with the same value share a fork.
    returns (found, value)"""
    if dict.__contains__(d, k):
        return True, dict.__getitem__(d, k)
    groups = []
    for x, v in list(dict.items(d)):
        if type(x) is not str or len(x) != len(k):
            continue
        f = ctx.eq_formula(k, x)
        if f is True:
            return True, v
        if f is False:
            continue
        for g in groups:
            if g[0] is v or (type(g[0]) is str and type(v) is str and g[0] == v):
                g[1].append(x)
                break
        else:
            groups.append((v, [x]))
    for v, keys in groups:
        if ctx.any_eq(k, keys):
            return True, v
    return False, None


def contains(c, x):
    """x in c"""
    if ctx is None:
        return x in c
    tc = type(c)
    tx = type(x)
    if tc is str:
        if tx is str and not (c.isascii() and x.isascii()) and (ctx.has_sym(c) or ctx.has_sym(x)):
            return strops.contains(ctx, c, x)
        if isinstance(x, Sym):
            x = x._sx_concrete()
        return x in c
    if isinstance(c, Sym):
        return x in c
    if isinstance(c, dict):
        if tx is str and is_symstr(x):
            if dict.__contains__(c, x):
                return True
            return ctx.any_eq(x, [k for k in dict.keys(c) if type(k) is str])
        if tx is str or isinstance(x, Sym):
            return dict_find(c, x) is not None
        return x in c
    if isinstance(c, (list, tuple, set, frozenset)) or tc.__name__ in (
            'dict_keys', 'dict_values', 'KeysView', 'odict_keys'):
        if tx is str:
            sx = is_symstr(x)
            items = builtins.list(c)
            if not sx and not any(is_symstr(i) for i in items if type(i) is str):
                if any(isinstance(i, Sym) for i in items):
                    return any(eq(i, x) for i in items)
                return x in c
            if any(isinstance(i, Sym) for i in items):
                return any(eq(i, x) for i in items)
            return ctx.any_eq(x, [i for i in items if type(i) is str])
        if isinstance(x, Sym) and hasattr(type(x), '_sx_in'):
            return x._sx_in(builtins.list(c), isinstance(c, (set, frozenset)))
        if isinstance(x, Sym) or tx in (tuple, builtins.list):
            return any(eq(x, i) for i in builtins.list(c))
        if any(isinstance(i, Sym) for i in c):
            return any(eq(x, i) for i in builtins.list(c))
        return x in c
    if tx is str and isinstance(getattr(c, 'mapping', None), dict):
        pass
    if tc.__name__ == 'mappingproxy' and is_symstr(x):
        return ctx.any_eq(x, [k for k in c if type(k) is str])
    return x in c


CMP = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}


def cmp(op, a, b):
    if ctx is None:
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        if op == 'in':
            return a in b
        if op == 'not in':
            return a not in b
        if op == 'is':
            return a is b
        if op == 'is not':
            return a is not b
        return CMP[op](a, b)
    if op == '==':
        ta = type(a)
        if ta is int or (ta is str and type(b) is str and a.isascii() and b.isascii()):
            return a == b
        return eq(a, b)
    if op == '!=':
        if type(a) is int and type(b) is int:
            return a != b
        if type(a) in (str, list, tuple, dict) or isinstance(a, (Sym, set, frozenset)) \
                or isinstance(b, Sym):
            return not eq(a, b)
        return a != b
    if op == 'in':
        return contains(b, a)
    if op == 'not in':
        return not contains(b, a)
    if op == 'is' or op == 'is not':
        if isinstance(a, Sym) or isinstance(b, Sym):
            if a is b:
                r = True
            elif isinstance(a, Sym):
                r = a._sx_is(b) if hasattr(type(a), '_sx_is') else bool(a) is b
            else:
                r = b._sx_is(a) if hasattr(type(b), '_sx_is') else bool(b) is a
        else:
            r = a is b
        return r if op == 'is' else not r
    if type(a) is str and type(b) is str and (is_symstr(a) or is_symstr(b)):
        if op == '<':
            return strops.lt(ctx, a, b)
        if op == '>':
            return strops.lt(ctx, b, a)
        if op == '<=':
            return not strops.lt(ctx, b, a)
        return not strops.lt(ctx, a, b)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and \
            (any(map(symarg, a)) or any(map(symarg, b))):
        if op == '<=':
            return all(contains(b, x) for x in a)
        if op == '>=':
            return all(contains(a, x) for x in b)
        if op == '<':
            return len(a) < len(b) and all(contains(b, x) for x in a)
        return len(b) < len(a) and all(contains(a, x) for x in b)
    return CMP[op](a, b)


def chain(ops, first, *thunks):
    a = first
    r = True
    for op, th in zip(ops, thunks):
        b = th()
        r = cmp(op, a, b)
        if not r:
            return r
        a = b
    return r


# ---------------------------------------------------------------------------
class OSet(set):
    """set with insertion order iteration (or a symbolic order) and symbolic
    membership"""
    def __init__(self, it=()):
        set.__init__(self)
        self._o = []
        for x in it:
            self.add(x)

    def add(self, x):
        if not contains(self._o, x):
            if not isinstance(x, Sym):
                hash(x)
                set.add(self, x)
            self._o.append(x)

    def __iter__(self):
        mode = getattr(ctx, 'order_mode', None)
        if mode == 'reverse':
            return iter(builtins.list(self._o)[::-1])
        if mode and 1 < len(self._o) <= 4 and ctx.choose('setorder here', 2):
            ctx.order_mode = None       # one set at a time
            rest = builtins.list(self._o)
            out = []
            while rest:
                i = ctx.choose('setorder', len(rest)) if len(rest) > 1 else 0
                out.append(rest.pop(i))
            return iter(out)
        return iter(builtins.list(self._o))

    def __len__(self):
        return len(self._o)

    def __bool__(self):
        return bool(self._o)

    def __contains__(self, x):
        return contains(self._o, x)

    def _find(self, x):
        for i, y in enumerate(self._o):
            if eq(x, y):
                return i
        return -1

    def remove(self, x):
        i = self._find(x)
        if i < 0:
            raise KeyError(x)
        y = self._o.pop(i)
        set.discard(self, y)

    def discard(self, x):
        i = self._find(x)
        if i >= 0:
            set.discard(self, self._o.pop(i))

    def pop(self):
        for x in self:
            self.remove(x)
            return x
        raise KeyError('pop from an empty set')

    def clear(self):
        self._o = []
        set.clear(self)

    def copy(self):
        return OSet(self._o)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        r = OSet(self._o)
        r.update(*its)
        return r

    def intersection(self, *its):
        return OSet(x for x in self._o if all(contains(aslist(i), x) for i in its))

    def difference(self, *its):
        its = [aslist(i) for i in its]
        return OSet(x for x in self._o if not any(contains(i, x) for i in its))

    def symmetric_difference(self, o):
        return self.difference(o).union(OSet(o).difference(self))

    def difference_update(self, *its):
        for it in its:
            for x in builtins.list(it):
                self.discard(x)

    def intersection_update(self, *its):
        k = self.intersection(*its)
        self.clear()
        self.update(k)

    def issubset(self, o):
        o = aslist(o)
        return all(contains(o, x) for x in self._o)

    def issuperset(self, o):
        return all(contains(self._o, x) for x in o)

    def isdisjoint(self, o):
        o = aslist(o)
        return not any(contains(o, x) for x in self._o)

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o)

    __rand__ = __and__

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return OSet(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    __rxor__ = __xor__

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __eq__(self, o):
        return isinstance(o, (set, frozenset)) and len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not self == o

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    __hash__ = None

    def __repr__(self):
        return '{' + ', '.join(map(repr_, self._o)) + '}' if self._o else 'set()'

    def __reduce__(self):
        return (set, (builtins.list(self._o),))


class OFrozen(frozenset):
    """frozenset whose elements may be symbolic strings"""
    def __new__(cls, it=()):
        os = OSet(it)
        r = frozenset.__new__(cls, [x for x in os._o if not isinstance(x, Sym)])
        r._o = os._o
        return r

    def __init__(self, it=()):
        pass

    __iter__ = OSet.__iter__
    __len__ = OSet.__len__
    __bool__ = OSet.__bool__
    __contains__ = OSet.__contains__

    def copy(self):
        return self

    def union(self, *i):
        return OFrozen(OSet(self._o).union(*i))

    def intersection(self, *i):
        return OFrozen(OSet(self._o).intersection(*i))

    def difference(self, *i):
        return OFrozen(OSet(self._o).difference(*i))

    def symmetric_difference(self, o):
        return OFrozen(OSet(self._o).symmetric_difference(o))

    issubset = OSet.issubset
    issuperset = OSet.issuperset
    isdisjoint = OSet.isdisjoint

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o)

    __rand__ = __and__

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return OSet(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    __eq__ = OSet.__eq__
    __ne__ = OSet.__ne__
    __le__ = OSet.__le__
    __ge__ = OSet.__ge__
    __lt__ = OSet.__lt__
    __gt__ = OSet.__gt__

    def __hash__(self):
        return frozenset.__hash__(self)

    def __repr__(self):
        return 'frozenset(' + OSet.__repr__(self) + ')'


def aslist(i):
    return i if isinstance(i, (builtins.list, tuple, set, frozenset, dict)) else builtins.list(i)


def mkset(items):
    if ctx is None:
        return set(items)
    return OSet(items)


def mkdict(items):
    """items: list of (key, value) or (MARK, mapping)"""
    d = {}
    for k, v in items:
        if k is MARK:
            for kk in v.keys():
                setitem(d, kk, v[kk])
        else:
            setitem(d, k, v)
    return d


MARK = object()
SETLIKE = (set, frozenset)
KEYVIEWS = (type({}.keys()), type({}.items()))
OPS = {'-': operator.sub, '|': operator.or_, '&': operator.and_, '^': operator.xor,
       '+': operator.add, '%': operator.mod, '*': operator.mul}


def binop(op, a, b):
    if ctx is None:
        return OPS[op](a, b)
    if hasattr(type(a), 'jv') or hasattr(type(b), 'jv'):
        return OPS[op](a, b)
    if isinstance(a, SETLIKE + KEYVIEWS) and isinstance(b, SETLIKE + KEYVIEWS):
        A = OSet(builtins.list(a))
        B = builtins.list(b)
        if op == '-':
            r = A.difference(B)
        elif op == '|':
            r = A.union(B)
        elif op == '&':
            r = A.intersection(B)
        elif op == '^':
            r = A.symmetric_difference(B)
        else:
            return OPS[op](a, b)
        return OFrozen(r) if isinstance(a, frozenset) else r
    if op == '%' and type(a) is str:
        return a % b
    return OPS[op](a, b)


# ---------------------------------------------------------------------------
def getitem(o, k):
    if ctx is None or issubclass(type(o), Sym):
        return o[k]
    if isinstance(o, dict):
        if symarg(k) and type(k) is str:
            found, v = group_lookup(o, k)
            if found:
                return v
            if hasattr(type(o), '__missing__'):
                return o[k]
            raise KeyError(k)
        if type(k) is str or isinstance(k, Sym):
            if type(k) is str and dict.__contains__(o, k):
                return o[k]
            hit = dict_find(o, k)
            if hit is not None:
                return o[hit[0]]
            if isinstance(k, Sym):
                raise KeyError(k)
        return o[k]
    if isinstance(k, Sym) and isinstance(o, (str, list, tuple)):
        k = k._sx_concrete() if hasattr(k, '_sx_concrete') else int(k)
    if type(o).__name__ == 'mappingproxy' and is_symstr(k):
        for x in builtins.list(o):
            if type(x) is str and eq(x, k):
                return o[x]
        raise KeyError(k)
    return o[k]


def setitem(o, k, v):
    if ctx is not None and not issubclass(type(o), Sym) and isinstance(o, dict) \
            and (type(k) is str or isinstance(k, Sym)):
        hit = dict_find(o, k)
        if hit is not None:
            o[hit[0]] = v
            return
    o[k] = v


def augitem(o, k, f):
    setitem(o, k, f(getitem(o, k)))


def delitem(o, k):
    if ctx is not None and not issubclass(type(o), Sym) and isinstance(o, dict) \
            and (type(k) is str or isinstance(k, Sym)):
        hit = dict_find(o, k)
        if hit is not None:
            del o[hit[0]]
            return
    del o[k]


# ---------------------------------------------------------------------------
RXSPECIAL = mask_of('\\.^$*+?{}[]|()#&~- \t\n\r\v\f')


def re_compile(mod, pattern, flags=0):
    if is_symstr(pattern):
        pattern = strops.fix_chars(ctx, pattern, RXSPECIAL)
    return mod.compile(pattern, flags)


def re_func(mod, name, args, kw):
    if name == 'compile':
        return re_compile(mod, *args, **kw)
    if name == 'escape':
        s = args[0]
        if is_symstr(s):
            s = strops.fix_chars(ctx, s, RXSPECIAL)
        return mod.escape(s)
    if name in ('search', 'match', 'fullmatch', 'sub', 'subn', 'split', 'findall', 'finditer'):
        pat = args[0]
        rest = args[1:]
        flags = kw.pop('flags', 0)
        if type(pat) is str:
            nfix = {'sub': 3, 'subn': 3, 'split': 2}.get(name, 1)
            if len(rest) > nfix:
                flags = rest[nfix]
                rest = rest[:nfix]
            pat = re_compile(mod, pat, flags)
        return pattern_call(pat, name, rest, kw)
    return getattr(mod, name)(*args, **kw)


def pattern_call(pat, name, args, kw):
    if any(type(x) is str and is_symstr(x) for x in args) or is_symstr(pat.pattern) or \
            any(is_symstr(x) for x in kw.values()):
        names = {'search': ('string', 'pos', 'endpos'), 'sub': ('repl', 'string', 'count'),
                 'split': ('string', 'maxsplit'), 'findall': ('string', 'pos', 'endpos'),
                 'finditer': ('string', 'pos', 'endpos')}
        order = names.get({'match': 'search', 'fullmatch': 'search', 'subn': 'sub'}.get(name, name))
        a = dict(zip(order, args))
        a.update(kw)
        s = a['string']
        try:
            if name in ('search', 'match', 'fullmatch'):
                return rx.search(ctx, pat, s, a.get('pos', 0), a.get('endpos'), name)
            if name in ('sub', 'subn'):
                return rx.sub(ctx, pat, a['repl'], s, a.get('count', 0), n_out=name == 'subn')
            if name == 'split':
                return rx.split(ctx, pat, s, a.get('maxsplit', 0))
            if name == 'findall':
                return rx.findall(ctx, pat, s, a.get('pos', 0))
            return rx.finditer(ctx, pat, s, a.get('pos', 0))
        except (rx.Unsupported, re.error) as e:
            ctx.note(f'regex not modelled: {pat.pattern!r} {e}')
            args = tuple(ctx.concretize(x, 'regex') if is_symstr(x) else x for x in args)
            return getattr(pat, name)(*args, **kw)
    return getattr(pat, name)(*args, **kw)


def getframe(n=0):
    f = sys._getframe(1)
    mine = __file__
    while f is not None and f.f_code.co_filename == mine:
        f = f.f_back
    while n > 0 and f is not None:
        f = f.f_back
        while f is not None and f.f_code.co_filename == mine:
            f = f.f_back
        n -= 1
    return f


STRLIKE = strops.METHODS


def callm(o, name, *args, **kw):
    if ctx is None:
        if o is sys and name == '_getframe':
            return getframe(*args)
        return getattr(o, name)(*args, **kw)
    to = type(o)
    if to is str:
        if not o.isascii() or args or kw:
            if is_symstr(o) or any(symarg(a) or type(a) is tuple and any(map(symarg, a))
                                   for a in args):
                if name == 'join':
                    return o.join(*args)
                m = STRLIKE.get(name)
                if m is not None:
                    if any(isinstance(a, Sym) for a in args):
                        args = tuple(a._sx_concrete() if isinstance(a, Sym) else a for a in args)
                        if not (is_symstr(o) or any(is_symstr(a) for a in args)):
                            return getattr(o, name)(*args, **kw)
                    return m(ctx, o, *args, **kw)
                ctx.note('str.' + name)
                return getattr(ctx.concretize(o, 'str.' + name), name)(*args, **kw)
        return getattr(o, name)(*args, **kw)
    if issubclass(to, Sym):
        return getattr(o, name)(*args, **kw)
    if o is sys and name == '_getframe':
        return getframe(*args)
    if to is MODULE:
        if o in REMODS:
            return re_func(o, name, args, kw)
        return call(getattr(o, name), *args, **kw)
    if to in PATTERNS:
        if name in ('search', 'match', 'fullmatch', 'sub', 'subn', 'split', 'findall', 'finditer'):
            return pattern_call(o, name, args, kw)
        return getattr(o, name)(*args, **kw)
    if isinstance(o, dict):
        if name == 'get' and args:
            k = args[0]
            if type(k) is str or isinstance(k, Sym):
                try:
                    return getitem(o, k)
                except KeyError:
                    return args[1] if len(args) > 1 else kw.get('default')
        elif name == 'setdefault':
            hit = dict_find(o, args[0])
            if hit is not None:
                return o[hit[0]]
            return o.setdefault(*args)
        elif name == 'pop':
            hit = dict_find(o, args[0])
            if hit is not None:
                return o.pop(hit[0])
            return o.pop(*args)
        elif name == 'update' and to is dict:
            for a in args:
                for k, v in (a.items() if hasattr(a, 'items') else a):
                    setitem(o, k, v)
            for k, v in kw.items():
                setitem(o, k, v)
            return None
        elif name == '__contains__':
            return contains(o, args[0])
        return getattr(o, name)(*args, **kw)
    if to is list:
        if name == 'index':
            for i, y in enumerate(o):
                if eq(y, args[0]):
                    return i
            raise ValueError('not in list')
        if name == 'count':
            return sum(1 for y in o if eq(y, args[0]))
        if name == 'remove':
            for i, y in enumerate(o):
                if eq(y, args[0]):
                    del o[i]
                    return None
            raise ValueError('list.remove(x): x not in list')
        if name == 'sort':
            o[:] = sorted_(o, **kw)
            return None
        return getattr(o, name)(*args, **kw)
    if to is tuple and name in ('index', 'count'):
        return callm(builtins.list(o), name, *args)
    if to is set or to is frozenset:
        if any(symarg(a) for a in args) or any(symarg(x) for x in o):
            if name == 'add':
                if not contains(o, args[0]):
                    set.add(o, args[0])
                return None
            if name in ('discard', 'remove'):
                for y in builtins.list(o):
                    if eq(y, args[0]):
                        set.discard(o, y)
                        return None
                if name == 'remove':
                    raise KeyError(args[0])
                return None
            r = getattr(OSet(o), name)(*args, **kw)
            return r
        if name in ('union', 'difference', 'intersection', 'symmetric_difference', 'issubset',
                    'issuperset', 'isdisjoint') and \
                any(symarg(x) for a in args if isinstance(a, (list, tuple, set, frozenset, dict))
                    for x in a):
            return getattr(OSet(o), name)(*args, **kw)
        if name == 'update':
            for a in args:
                for x in a:
                    callm(o, 'add', x)
            return None
        return getattr(o, name)(*args, **kw)
    if to is type and o is str and name in STRLIKE and args and type(args[0]) is str:
        return callm(args[0], name, *args[1:], **kw)
    if o is dict and name == 'fromkeys':
        d = {}
        for k in args[0]:
            setitem(d, k, args[1] if len(args) > 1 else None)
        return d
    return call(getattr(o, name), *args, **kw)


MODULE = type(sys)


# ---------------------------------------------------------------------------
def isinstance_(x, T):
    if isinstance(x, Sym) and hasattr(type(x), '_sx_isinstance'):
        return x._sx_isinstance(T)
    return isinstance(x, T)


def type_(*a, **k):
    if len(a) == 1 and isinstance(a[0], Sym):
        return a[0].__class__
    return type(*a, **k)


def str_(*a, **k):
    if a and isinstance(a[0], Sym):
        return a[0].__str__()
    return str(*a, **k)


def repr_(x):
    if type(x) is str and is_symstr(x):
        return strops.repr_(ctx, x)
    return repr(x)


def int_(*a, **k):
    if a and type(a[0]) is str and is_symstr(a[0]):
        s = a[0]
        m = rx.search(ctx, r'\s*([+-]?\d+(?:_\d+)*)\s*', s, 0, None, 'fullmatch')
        if m is None or len(a) > 1 or k:
            if len(a) > 1 or k:
                return int(''.join(strops.fix_chars(ctx, ch, FULL) if ord(ch) in ctx.chars else ch for ch in s), *a[1:], **k)
            raise ValueError(f'invalid literal for int() with base 10: {s!r}')
        return LazyNum(m.group(1), int)
    if a and isinstance(a[0], Sym):
        return a[0].__int__()
    return int(*a, **k)


def ord_(x):
    if type(x) is str and len(x) == 1 and ord(x) in ctx.chars:
        x = strops.fix_chars(ctx, x, FULL)
    return ord(x)


def format_(x, *spec):
    if type(x) is str and is_symstr(x) and spec and spec[0]:
        return callm('{:' + spec[0] + '}', 'format', x)
    return format(x, *spec)


def ascii_(x):
    if type(x) is str and is_symstr(x):
        x = ''.join(strops.fix_chars(ctx, ch, FULL) if ord(ch) in ctx.chars else ch for ch in x)
    return ascii(x)


class LazyNum(Sym):
    """number that is written as a symbolic numeral. Its digits are only decided (by forking),
    when the value is really used."""
    def __init__(self, text, conv):
        self._text, self._conv, self._v = text, conv, None

    def _sx_concrete(self):
        if self._v is None:
            self._v = self._conv(''.join(
                strops.fix_chars(ctx, ch, FULL) if ord(ch) in ctx.chars else ch for ch in self._text))
        return self._v

    def _sx_isinstance(self, T):
        return isinstance(self._conv(0), T)

    @property
    def __class__(self):
        return self._conv


def _lazy_op(name):
    def op(self, *args):
        args = [x._sx_concrete() if type(x) is LazyNum else x for x in args]
        return getattr(self._sx_concrete(), name)(*args)
    op.__name__ = name
    return op


for _n in ('eq ne lt le gt ge hash bool int float str repr format index neg pos abs add radd sub rsub mul '
           'rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow and rand or ror xor rxor lshift rshift '
           'round trunc').split():
    if hasattr(int, f'__{_n}__') or hasattr(float, f'__{_n}__'):
        setattr(LazyNum, f'__{_n}__', _lazy_op(f'__{_n}__'))
for _n in ('is_integer', 'bit_length', 'as_integer_ratio'):
    setattr(LazyNum, _n, _lazy_op(_n))


def float_(*a):
    if a and type(a[0]) is str and is_symstr(a[0]):
        s = a[0]
        m = rx.search(ctx, r'\s*[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?\s*', s, 0, None, 'fullmatch')
        if m is None:
            raise ValueError(f'could not convert string to float: {s!r}')
        return LazyNum(s, float)
    return float(*a)


def bool_(*a):
    return bool(*a)


def hash_(x):
    return hash(x)


def sorted_(it, *, key=None, reverse=False):
    items = builtins.list(it)
    keys = [key(x) if key is not None else x for x in items]
    if not any(symarg(k) or isinstance(k, tuple) and any(map(symarg, k)) for k in keys):
        return sorted(items, key=key, reverse=reverse)
    out = []
    for x, k in zip(items, keys):
        i = len(out)
        while i > 0 and (lt(k, out[i - 1][1]) if not reverse else lt(out[i - 1][1], k)):
            i -= 1
        out.insert(i, (x, k))
    return [x for x, _ in out]


def lt(a, b):
    if type(a) is tuple and type(b) is tuple:
        for x, y in zip(a, b):
            if not eq(x, y):
                return lt(x, y)
        return len(a) < len(b)
    return cmp('<', a, b)


def _minmax(native, better):
    def f(*a, **k):
        if len(a) == 1:
            items = builtins.list(a[0])
        else:
            items = builtins.list(a)
        key = k.get('key')
        keys = [key(x) if key else x for x in items]
        if not any(map(symarg, keys)):
            if len(a) == 1:
                return native(items, **k)
            return native(*items, **k)
        best = 0
        for i in range(1, len(items)):
            if better(keys[i], keys[best]):
                best = i
        return items[best]
    return f


def dict_(*a, **k):
    if a and not isinstance(a[0], Sym):
        d = {}
        src = a[0]
        for kk, v in (src.items() if hasattr(src, 'items') else src):
            setitem(d, kk, v)
        for kk, v in k.items():
            setitem(d, kk, v)
        return d
    return dict(*a, **k)


def getattr_(o, name, *d):
    if is_symstr(name):
        name = ctx.resolve(name)
    return getattr(o, name, *d)


def len_(x):
    if isinstance(x, Sym):
        return x.__len__()
    return len(x)


def iskeyword(s):
    if type(s) is str and is_symstr(s):
        return ctx.any_eq(s, keyword.kwlist)
    return keyword.iskeyword(s)


def issoftkeyword(s):
    if type(s) is str and is_symstr(s):
        return ctx.any_eq(s, keyword.softkwlist)
    return keyword.issoftkeyword(s)


def wrapmap(f, *its):
    return builtins.map(lambda *a: call(f, *a), *its)


def wrapfilter(f, it):
    return builtins.filter(f if f is None else (lambda x: call(f, x)), it)


TABLE = {
    isinstance: isinstance_, type: type_, str: str_, repr: repr_, int: int_, float: float_,
    hash: hash_, sorted: sorted_, min: _minmax(min, lambda a, b: cmp('<', a, b)),
    max: _minmax(max, lambda a, b: cmp('>', a, b)), dict: dict_, getattr: getattr_, len: len_,
    map: wrapmap, filter: wrapfilter, ord: ord_, ascii: ascii_, format: format_,
}
BYID = {id(k): v for k, v in TABLE.items()}
BYID[id(set)] = lambda *a: OSet(*a)
BYID[id(frozenset)] = lambda *a: OFrozen(*a)
BYID[id(keyword.iskeyword)] = iskeyword
BYID[id(keyword.issoftkeyword)] = issoftkeyword
_keep = [keyword.iskeyword, keyword.issoftkeyword]
METHDESC = type(str.strip)


def call(f, *args, **kw):
    if ctx is None:
        return f(*args, **kw)
    h = BYID.get(id(f))
    if h is not None:
        return h(*args, **kw)
    tf = type(f)
    if tf is METHDESC and args and type(args[0]) is str:
        return callm(args[0], f.__name__, *args[1:], **kw)
    if tf is BUILTINM:
        s = getattr(f, '__self__', None)
        ts = type(s)
        if ts is str or ts in PATTERNS or (ts in (dict, list, set, frozenset) and f.__name__ in
                                           ('get', 'setdefault', 'pop', 'index', 'count', 'remove',
                                            'add', 'discard', '__contains__')):
            return callm(s, f.__name__, *args, **kw)
    elif tf is FUNC and f.__module__ and f.__module__.partition('.')[0] in ('re', 'regex') and \
            f.__name__ in ('search', 'match', 'fullmatch', 'sub', 'subn', 'split', 'findall',
                           'finditer', 'compile', 'escape'):
        return re_func(regex if regex and f.__module__.startswith('regex') else re, f.__name__, args, kw)
    elif args and isinstance(args[0], Sym) and isinstance(f, type):
        import enum
        if isinstance(f, enum.EnumMeta) and len(args) == 1:
            for m in f.__members__.values():
                if eq(args[0], m.value):
                    return m
            raise ValueError(f'{args[0]!r} is not a valid {f.__qualname__}')
    return f(*args, **kw)


BUILTINM = type(len)
FUNC = type(getframe)


def attr(o, name):
    """attribute access outside of call position"""
    if ctx is not None and type(o) is str and is_symstr(o) and name in STRLIKE:
        return lambda *a, **k: callm(o, name, *a, **k)
    return getattr(o, name)


def fmt_repr(x):
    return repr_(x) if ctx is not None else repr(x)
