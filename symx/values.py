"""symx.values - symbolic JSON values.

A JSON value is a tree of bounded depth.  The kind of every node (null, boolean,
integer, fraction, string, array, object), the payload of the scalars, the length
of the arrays and the presence of every key of the objects are solver variables.
The proxy ``JV`` hands the code under test exactly as much as it looks at: an
isinstance()-test forks on the kind only, a membership test on the presence of
that key only, and so on; the parts nobody looks at stay symbolic.  The oracle
(`conforms`) is a formula over the whole tree.
"""
import copy

import z3

from .core import mask_of

NULL, BOOL, INT, FLOAT, STR, LIST, DICT = range(7)
REP = {NULL: None, BOOL: True, INT: 7, FLOAT: 2.5, STR: 'zz', LIST: [], DICT: {}}
CLS = {NULL: type(None), BOOL: bool, INT: int, FLOAT: float, STR: str, LIST: list, DICT: dict}
SCALARS = (NULL, BOOL, INT, FLOAT, STR)
ALL = tuple(range(7))
LOWERCASE = mask_of('abcdefghijklmnopqrstuvwxyz')


class Bounds:
    """shape of the value trees: candidate keys of objects, maximal array length"""
    def __init__(self, keys=('fa', 'fb'), maxlen=2, strlen=2, extra=1, intbits=5, top=None):
        """extra: objects of the first `extra` levels may have one more (arbitrary) key"""
        self.keys = tuple(keys)
        self.top = top and tuple(top)        # other candidates on the outermost level
        self.maxlen = maxlen
        self.strlen = strlen
        self.extra = extra
        self.intbits = intbits
        self.lo, self.hi = -(1 << intbits - 1), (1 << intbits - 1) - 1
        self.lenbits = maxlen.bit_length()

    def id(self):
        return (self.keys, self.top, self.maxlen, self.strlen, self.extra, self.intbits)

    def extra_at(self, name):
        return name.count('.') < self.extra


class Node:
    """solver variables of one node (shared by all paths)"""
    __slots__ = ('name', 'depth', 'b', 'k', 'bo', 'i', 's', 'n', 'has', 'extra', 'key', 'kids',
                 'kf', 'memo', 'keys')

    def __init__(self, name, depth, b):
        # every value of the variables is meaningful (surplus codes are aliases), so
        # that no domain constraints are needed
        self.name, self.depth, self.b = name, depth, b
        self.keys = b.top if b.top and '.' not in name else b.keys
        self.k = z3.BitVec(name + '.k', 3)
        self.kf = {}
        self.memo = {}
        self.bo = z3.Bool(name + '.b')
        self.i = z3.BitVec(name + '.i', b.intbits)
        self.s = self.text(name + '.s')
        self.kids = {}
        self.has = {}
        self.n = self.extra = self.key = None
        if depth > 0:
            self.n = z3.BitVec(name + '.n', b.lenbits)
            for i in range(b.maxlen):
                self.kids[i] = Node(f'{name}.{i}', depth - 1, b)
            for k in self.keys:
                self.has[k] = z3.Bool(f'{name}.has.{k}')
                self.kids[k] = Node(f'{name}.{k}', depth - 1, b)
            if b.extra_at(name):
                self.extra = z3.Bool(f'{name}.has*')
                self.key = self.text(name + '.key')
                self.kids['*'] = Node(f'{name}.*', depth - 1, b)

    def text(self, name):
        return tuple(z3.BitVec(f'{name}.{i}', 7) for i in range(self.b.strlen))

    def text_is(self, cs, s):
        if len(cs) != len(s) or not s.isascii():
            return z3.BoolVal(False)
        return z3.And([c == ord(x) for c, x in zip(cs, s)])

    def kind(self, *ks):
        f = self.kf.get(ks)
        if f is None:
            fs = [self.k == k for k in ks]
            if NULL in ks:
                fs += [self.k == k for k in ((7,) if self.depth > 0 else (5, 6, 7))]
            f = self.kf[ks] = fs[0] if len(fs) == 1 else z3.Or(fs)
        return f

    def longer(self, i):
        """array has more than i items"""
        return z3.UGT(self.n, i)

    def len_is(self, n):
        return z3.UGE(self.n, n) if n == self.b.maxlen else self.n == n

    def is_scalar(self, o):
        """formula: the value equals the concrete scalar o (Python equality)"""
        if o is None:
            return self.kind(NULL)
        if isinstance(o, str):
            return z3.And(self.kind(STR), self.text_is(self.s, o))
        fs = []
        if o == int(o):
            fs.append(z3.And(self.kind(INT), self.i == int(o)))
        if o in (0, 1):
            fs.append(z3.And(self.kind(BOOL), self.bo == bool(o)))
        if o == 2.5:
            fs.append(self.kind(FLOAT))
        return z3.Or(fs) if fs else z3.BoolVal(False)

    # -- model -> JSON
    def value(self, m):
        ev = lambda e: m.eval(e, model_completion=True)
        low = lambda c: chr(c) if LOWERCASE >> c & 1 else 'z'
        txt = lambda cs: ''.join(low(ev(c).as_long()) for c in cs)
        k = ev(self.k).as_long()
        if k == NULL or k > (DICT if self.depth > 0 else STR):
            return None
        if k == BOOL:
            return z3.is_true(ev(self.bo))
        if k == INT:
            return ev(self.i).as_signed_long()
        if k == FLOAT:
            return 2.5
        if k == STR:
            return txt(self.s)
        if k == LIST:
            return [self.kids[i].value(m) for i in range(min(ev(self.n).as_long(), self.b.maxlen))]
        d = {key: self.kids[key].value(m) for key in self.keys if z3.is_true(ev(self.has[key]))}
        if self.extra is not None and z3.is_true(ev(self.extra)):
            key = txt(self.key)
            d['zz' if key in self.keys else key] = self.kids['*'].value(m)
        return d


_trees = {}


def tree(name, depth, b):
    key = (name, depth, b.id())
    t = _trees.get(key)
    if t is None:
        t = _trees[key] = Node(name, depth, b)
    return t


def make(ctx, name, depth, bounds):
    name = ctx.uniq(name)
    if ctx.symbolic:
        root = tree(name, depth, bounds)
        ctx.inputs[name] = ('json', root)
        return _jv_class()(ctx, root)
    return copy.deepcopy(ctx.json(name))


_JV = None


def _jv_class():
    global _JV
    if _JV is not None:
        return _JV
    from . import rt
    Sym = rt.Sym
    OSet = rt.OSet

    def what_f(node, what):
        if what == 'b':
            return node.bo
        if what == 'has*':
            return node.extra
        return node.has[what[4:]]

    class JV(Sym):
        def __init__(self, ctx, node, root=None):
            self.ctx = ctx
            self.node = node
            self.name = node.name
            self.b = node.b
            self.root = root or self
            self.mask = frozenset(ALL if node.depth > 0 else SCALARS)
            self._p = {}
            self.minlen = 0
            self.len_known = None
            self.present = {}
            self.mutated = False
            self.ints = None

        def text(self, what):
            if what not in self._p:
                cs = getattr(self.node, what)
                self._p[what] = s = ''.join(self.ctx.new_char(c.decl().name(), LOWERCASE)
                                            for c in cs)
                if what == 'key':
                    for k in self.node.keys:
                        f = self.ctx.eq_formula(s, k)
                        if f is not False:
                            self.ctx.add(z3.Not(f))
            return self._p[what]

        def child(self, key):
            if key not in self._p:
                self._p[key] = JV(self.ctx, self.node.kids[key], self.root)
            return self._p[key]

        def is_kind(self, ks):
            ks = frozenset(ks)
            inn = self.mask & ks
            if not inn:
                return False
            if inn == self.mask:
                return True
            r = self.ctx.free(self.node.kind(*sorted(inn)))
            self.mask = inn if r else self.mask - ks
            return r

        def kind(self):
            for k in sorted(self.mask):
                if self.is_kind((k,)):
                    return k
            raise AssertionError

        # ---- hooks of the instrumentation ---------------------------------------------
        def _sx_isinstance(self, T):
            if type(T) is tuple:
                return any(self._sx_isinstance(t) for t in T)
            ok = [k for k in sorted(self.mask) if isinstance(REP[k], T)]
            return self.is_kind(ok)

        @property
        def __class__(self):
            return CLS[self.kind()]

        def _sx_is(self, other):
            if other is None:
                return self.is_kind((NULL,))
            if other is True or other is False:
                return self == other and self.is_kind((BOOL,))
            return False

        def _sx_concrete(self):
            k = self.kind()
            if k == STR:
                return self.text('s')
            if k == NULL:
                return None
            if k == BOOL:
                return self.flag('b')
            if k == INT:
                return self._int()
            if k == FLOAT:
                return 2.5
            if k == LIST:
                return list(self)
            return {k: self[k] for k in self}

        def _int(self):
            for v in range(self.b.lo, self.b.hi + 1):
                if self.int_is(v):
                    return v
            raise AssertionError

        def int_is(self, v):
            if self.ints is None:
                self.ints = set(range(self.b.lo, self.b.hi + 1))
            if v not in self.ints:
                return False
            if len(self.ints) == 1:
                return True
            r = self.ctx.free(self.node.i == v)
            if r:
                self.ints = {v}
            else:
                self.ints.discard(v)
            return r

        def flag(self, what):
            if what not in self.present:
                self.present[what] = self.ctx.free(what_f(self.node, what))
            return self.present[what]

        def eq_scalar(self, o):
            """value == o, forking"""
            if o is None:
                return self.is_kind((NULL,))
            if isinstance(o, str):
                return self.is_kind((STR,)) and self.ctx.str_eq(self.text('s'), str(o))
            if self.is_kind((INT,)):
                return o == int(o) and self.int_is(int(o))
            if o in (0, 1) and self.is_kind((BOOL,)):
                return self.flag('b') == bool(o)
            return o == 2.5 and self.is_kind((FLOAT,))

        def __eq__(self, o):
            if o is self:
                return True
            if isinstance(o, JV):
                return self._sx_concrete() == o._sx_concrete()
            if o is None or isinstance(o, (str, int, float)) and not hasattr(o, '__members__'):
                return self.eq_scalar(o)
            if isinstance(o, (list, tuple, dict, set)):
                return rt.eq(self._sx_concrete(), o)
            return False

        def __ne__(self, o):
            return not self == o

        def __hash__(self):
            k = self.kind()
            if k in (LIST, DICT):
                raise TypeError(f"unhashable type: '{CLS[k].__name__}'")
            return hash(self._sx_concrete())

        def _sx_in(self, items, hashed):
            if hashed:
                if self.is_kind((LIST,)):
                    raise TypeError("unhashable type: 'list'")
                if self.is_kind((DICT,)):
                    raise TypeError("unhashable type: 'dict'")
            return any(self == x for x in items)

        def __lt__(self, o):
            return self._sx_concrete() < o

        def __gt__(self, o):
            return self._sx_concrete() > o

        def __le__(self, o):
            return self._sx_concrete() <= o

        def __ge__(self, o):
            return self._sx_concrete() >= o

        def __bool__(self):
            k = self.kind()
            if k == BOOL:
                return self.flag('b')
            if k == INT:
                return not self.int_is(0)
            if k == LIST:
                return self._longer(0)
            if k == DICT:
                return any(True for _ in self)
            return k != NULL

        # text: never inspected, only put into messages
        def __str__(self):
            return f'<value {self.name}>'

        __repr__ = __str__

        def __format__(self, spec):
            return str(self)

        def __int__(self):
            return int(self._sx_concrete())

        __index__ = __int__

        def __float__(self):
            return float(self._sx_concrete())

        # ---- containers ------------------------------------------------------------
        def _need(self, *ks):
            if not self.is_kind(ks):
                k = self.kind()
                raise TypeError(f"'{CLS[k].__name__}' object does not support this operation")

        def _longer(self, i):
            if i < self.minlen:
                return True
            if i >= self.b.maxlen or (self.len_known is not None and i >= self.len_known):
                return False
            r = self.ctx.free(self.node.longer(i))
            if r:
                self.minlen = max(self.minlen, i + 1)
            else:
                self.len_known = i
            return r

        def _has(self, key):
            if type(key) is not str:
                return False
            if key in self.node.keys:
                return self.flag('has.' + key)
            if self.ctx.has_sym(key):
                for k in self.node.keys:
                    if self.ctx.str_eq(key, k):
                        return self._has(k)
            if self.node.extra is not None and self.flag('has*'):
                return self.ctx.str_eq(self.text('key'), key)
            return False

        def _sub(self, key):
            if key in self.node.keys:
                return self.child(key)
            for k in self.node.keys:
                if self.ctx.has_sym(key) and self.ctx.str_eq(key, k):
                    return self.child(k)
            return self.child('*')

        def _keys(self):
            for k in self.node.keys:
                if self._has(k):
                    yield k
            if self.node.extra is not None and self.flag('has*'):
                yield self.text('key')

        def _items(self):
            i = 0
            while self._longer(i):
                yield self.child(i)
                i += 1

        def __iter__(self):
            self._need(LIST, DICT, STR)
            if self.is_kind((DICT,)):
                return self._keys()
            if self.is_kind((STR,)):
                return iter(self.text('s'))
            return self._items()

        def __len__(self):
            self._need(LIST, DICT, STR)
            return sum(1 for _ in self)

        def __contains__(self, x):
            self._need(LIST, DICT, STR)
            if self.is_kind((DICT,)):
                if isinstance(x, JV):
                    x = x._sx_concrete()
                return self._has(x)
            return any(rt.eq(x, y) for y in self)

        def __getitem__(self, k):
            self._need(LIST, DICT, STR)
            if self.is_kind((DICT,)):
                if self._has(k):
                    return self._sub(k)
                raise KeyError(k)
            if self.is_kind((STR,)):
                return self.text('s')[k]
            if isinstance(k, int):
                if k >= 0 and self._longer(k):
                    return self.child(k)
                if k < 0:
                    return list(self)[k]
                raise IndexError('list index out of range')
            return list(self)[k]

        def __reversed__(self):
            return reversed(list(self))

        def __getattr__(self, name):
            if name.startswith('__') or name.startswith('_sx'):
                raise AttributeError(name)
            f = getattr(JV, 'm_' + name, None)
            if f is None or not hasattr(CLS[self.kind()], name):
                k = self.kind()
                if hasattr(CLS[k], name) and k in SCALARS:
                    return getattr(self._sx_concrete(), name)
                raise AttributeError(f"'{CLS[k].__name__}' object has no attribute {name!r}")
            return lambda *a, **kw: f(self, *a, **kw)

        def m_keys(self):
            return JKeys(self)

        def m_values(self):
            return [self._sub(k) for k in self._keys()]

        def m_items(self):
            return [(k, self._sub(k)) for k in self._keys()]

        def m_get(self, k, default=None):
            return self._sub(k) if self._has(k) else default

        def m_copy(self):
            return self._sx_concrete()

        def m_index(self, x):
            return list(self).index(x)

        def m_count(self, x):
            return sum(1 for y in self if rt.eq(x, y))

        def _mutate(self, *a, **kw):
            self.root.mutated = True
            return None

        m_pop = m_popitem = m_update = m_setdefault = m_clear = m_append = m_extend = \
            m_insert = m_remove = m_sort = m_reverse = _mutate
        __setitem__ = __delitem__ = _mutate

    class JKeys:
        """keys() of a symbolic object"""
        def __init__(self, jv):
            self.jv = jv

        def __iter__(self):
            return self.jv._keys()

        def __len__(self):
            return sum(1 for _ in self)

        def __bool__(self):
            return any(True for _ in self)

        def __contains__(self, x):
            return self.jv._has(x)

        def __rsub__(self, other):
            return OSet([k for k in other if not self.jv._has(k)])

        def __sub__(self, other):
            return OSet([k for k in self if not rt.contains(other, k)])

        def __and__(self, other):
            return OSet([k for k in other if self.jv._has(k)])

        __rand__ = __and__

        def __or__(self, other):
            return OSet(list(self)).union(other)

        __ror__ = __or__

        def __xor__(self, other):
            return OSet(list(self)).symmetric_difference(other)

        __rxor__ = __xor__

        def __le__(self, other):
            return all(rt.contains(other, k) for k in self)

        def __ge__(self, other):
            return all(self.jv._has(k) for k in other)

        def __eq__(self, other):
            return rt.eq(OSet(list(self)), other)

        def __lt__(self, other):
            return self <= other and not self >= other

        def __gt__(self, other):
            return self >= other and not self <= other

        def isdisjoint(self, other):
            return not any(self.jv._has(k) for k in other)

        def __repr__(self):
            return f'<keys of {self.jv.name}>'

        __hash__ = None

    _JV = JV
    return JV


# ---------------------------------------------------------------------- oracle
# schema: ('str',) ('int',) ('float',) ('bool',) ('none',) ('any',) ('dictany',)
#   ('listany',) ('lit', values) ('enum', values) ('list', T) ('dict', T)
#   ('tuple', T1, ...) ('seq', T) ('union', T1, ...) ('td', id) with tds[id] = ((key, T, req), ...)
#   ('ref', id) with tds[id] = T
def is_jv(v):
    return _JV is not None and type(v) is _JV


def conforms(ctx, v, T, tds, fuel=6):
    """formula (symbolic value) or bool (concrete value): v is a value of T"""
    if is_jv(v):
        f = formula(v.node, T, tds, fuel)
        return f
    return concrete(v, T, tds)


def formula(v, T, tds, fuel=6):
    key = (T, id(tds) if False else tuple(sorted(tds.items())), fuel)
    f = v.memo.get(key)
    if f is None:
        f = v.memo[key] = _formula(v, T, tds, fuel)
    return f


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def _formula(v, T, tds, fuel):
    assert fuel >= 0
    t = T[0]
    A, O, N = z3.And, z3.Or, z3.Not
    rec = lambda node, sub: formula(node, sub, tds, fuel - 1)
    if t == 'any':
        return TRUE
    if t == 'ref':
        return formula(v, tds[T[1]], tds, fuel)
    if t in KINDS:
        return v.kind(*KINDS[t])
    if t in ('lit', 'enum'):
        return O([v.is_scalar(o) for o in T[1]])
    if t == 'union':
        return O([formula(v, s, tds, fuel) for s in T[1:]])
    if v.depth <= 0:
        return FALSE
    if t in ('list', 'seq'):
        return A(v.kind(LIST), *[O(N(v.longer(i)), rec(v.kids[i], T[1])) for i in range(v.b.maxlen)])
    if t == 'tuple':
        if len(T) - 1 > v.b.maxlen:
            return FALSE
        return A(v.kind(LIST), v.len_is(len(T) - 1),
                 *[rec(v.kids[i], s) for i, s in enumerate(T[1:])])
    if t == 'dict':
        fs = [O(N(v.has[k]), rec(v.kids[k], T[1])) for k in v.keys]
        if v.extra is not None:
            fs.append(O(N(v.extra), rec(v.kids['*'], T[1])))
        return A(v.kind(DICT), *fs)
    if t == 'td':
        fs = [v.kind(DICT)]
        names = []
        for k, sub, req in tds[T[1]]:
            names.append(k)
            if k not in v.keys:
                if req:
                    return FALSE
                continue
            c = rec(v.kids[k], sub)
            fs.append(A(v.has[k], c) if req else O(N(v.has[k]), c))
        fs += [N(v.has[k]) for k in v.keys if k not in names]
        if v.extra is not None:
            fs.append(N(v.extra))
        return A(fs)
    raise AssertionError(T)


KINDS = {'none': (NULL,), 'bool': (BOOL,), 'int': (BOOL, INT), 'float': (INT, FLOAT),
         'str': (STR,), 'listany': (LIST,), 'dictany': (DICT,)}


def concrete(v, T, tds):
    """the same specification on a concrete JSON value"""
    t = T[0]
    if t == 'any':
        return True
    if t == 'ref':
        return concrete(v, tds[T[1]], tds)
    if t in KINDS:
        return type(v) in [CLS[k] for k in KINDS[t]]
    if t in ('lit', 'enum'):
        return not isinstance(v, (list, dict)) and v in T[1]
    if t == 'union':
        return any(concrete(v, s, tds) for s in T[1:])
    if t in ('list', 'seq'):
        return type(v) is list and all(concrete(x, T[1], tds) for x in v)
    if t == 'tuple':
        return type(v) is list and len(v) == len(T) - 1 and \
            all(concrete(x, s, tds) for x, s in zip(v, T[1:]))
    if t == 'dict':
        return type(v) is dict and all(concrete(x, T[1], tds) for x in v.values())
    if t == 'td':
        if type(v) is not dict:
            return False
        fields = {k: (sub, req) for k, sub, req in tds[T[1]]}
        return all(k in fields and concrete(x, fields[k][0], tds) for k, x in v.items()) and \
            all(k in v for k, (_, req) in fields.items() if req)
    raise AssertionError(T)
