"""symx.core - symbolic execution by re-execution.

A *path* is one native execution of the (instrumented) real code.  Input text
characters are *placeholders*: every symbolic character is a distinct CJK code
point in an ordinary Python ``str``; the association placeholder -> z3
bit-vector lives here.  Whenever the code under test looks at a placeholder
(compares, searches, hashes, matches it ...) the instrumentation asks
``Ctx.branch`` (or one of its specialisations); the path forks whenever z3 (or
exact domain propagation for characters that occur in unary constraints only)
says both outcomes are possible under the path condition.  At the end of the
path the property is a formula; z3 decides ``path condition AND NOT property``.
"""
import time
import z3

BASE = 0x5000
LIMIT = 0x9F00
FULL = (1 << 128) - 1


def mask_of(chars):
    m = 0
    for c in chars:
        m |= 1 << (c if isinstance(c, int) else ord(c))
    return m


def pred_mask(pred):
    return mask_of(i for i in range(128) if pred(chr(i)))


LETTERS = pred_mask(str.isalpha)
LOWER = pred_mask(str.islower)
UPPER = pred_mask(str.isupper)
DIGITS = pred_mask(lambda c: c in '0123456789')
WORD = LETTERS | DIGITS | mask_of('_')
IDSTART = LETTERS | mask_of('_')
SPACE = pred_mask(str.isspace)


def bits(mask):
    r = []
    i = 0
    while mask:
        if mask & 1:
            r.append(i)
        mask >>= 1
        i += 1
    return r


_bits_cache = {}


def mask_formula(var, mask, width=7):
    """z3 formula: var (7-bit) is a member of mask"""
    mask &= FULL
    if mask == FULL:
        return z3.BoolVal(True)
    if mask == 0:
        return z3.BoolVal(False)
    rngs = _bits_cache.get(mask)
    if rngs is None:
        rngs = []
        bs = bits(mask)
        s = p = bs[0]
        for b in bs[1:]:
            if b != p + 1:
                rngs.append((s, p))
                s = b
            p = b
        rngs.append((s, p))
        _bits_cache[mask] = rngs
    parts = []
    for lo, hi in rngs:
        if lo == hi:
            parts.append(var == lo)
        elif lo == 0:
            parts.append(z3.ULE(var, hi))
        elif hi == 127:
            parts.append(z3.UGE(var, lo))
        else:
            parts.append(z3.And(z3.UGE(var, lo), z3.ULE(var, hi)))
    return parts[0] if len(parts) == 1 else z3.Or(parts)


class PathAbort(BaseException):
    """ends a path: reason in args[0]"""


class Infeasible(PathAbort):
    pass


class Undecided(PathAbort):
    """The path ran into something the engine cannot handle."""


class Char:
    __slots__ = ('cp', 'name', 'var', 'dom', 'rel', 'base', 'table')

    def __init__(self, cp, name, dom, base=None, table=None):
        self.cp = cp
        self.name = name
        self.dom = dom
        self.rel = False
        self.base = base
        self.table = table   # tuple of 128 values (derived characters)
        self.var = None

    def expr(self):
        if self.var is None:
            if self.base is None:
                self.var = z3.BitVec(self.name, 7)
            else:
                e = self.base.expr()
                groups = {}
                for i in bits(self.base.dom):
                    if self.table[i] != i:
                        groups.setdefault((self.table[i] - i) % 128, []).append(i)
                v = e
                for delta, idx in groups.items():
                    v = z3.If(mask_formula(e, mask_of(idx)), e + delta, v)
                self.var = v
        return self.var

    def domain(self):
        if self.base is None:
            return self.dom
        m = 0
        for i in bits(self.base.dom):
            m |= 1 << self.table[i]
        return m

    def preimage(self, mask):
        m = 0
        for i in bits(self.base.dom):
            if mask >> self.table[i] & 1:
                m |= 1 << i
        return m


class Stats:
    FIELDS = ('paths', 'aborted', 'undecided', 'queries', 'sat', 'unsat', 'unknown',
              'checks', 'branches', 'concretized', 'validated', 'diverged')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.notes = {}

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['solver_s'] = self.solver_s
        d['notes'] = dict(self.notes)
        return d


class Ctx:
    symbolic = True

    def __init__(self, stats=None):
        self.stats = stats or Stats()
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', 20000)
        self.reset([])

    # ---- path bookkeeping -------------------------------------------------
    def reset(self, prefix):
        self.prefix = prefix
        self.trace = []          # decisions taken
        self.labels = []
        self.pending = []        # alternatives left: list of prefixes
        self.constraints = []    # z3 constraints not yet in the solver
        self.chars = {}
        self.next_cp = BASE
        self.names = {}
        self.ints = {}
        self.inputs = {}         # name -> ('str', text) | ('int', z3) | ('choice', v)
        self.order = []
        self.decided = {}
        self.violations = []
        self.observations = []
        self.facts_n = 0
        self.derived = {}
        self.solver.reset()

    def note(self, text):
        self.stats.notes[text] = self.stats.notes.get(text, 0) + 1

    def uniq(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else f'{name}#{k}'

    # ---- inputs -------------------------------------------------------------
    def new_char(self, name, dom):
        cp = self.next_cp
        self.next_cp += 1
        c = Char(cp, name, dom)
        self.chars[cp] = c
        return chr(cp)

    def derive(self, ch, table):
        """character obtained from ch through a 128-entry mapping"""
        c = self.chars[ord(ch)]
        if c.base is not None:
            table = tuple(table[c.table[i]] for i in range(128))
            c = c.base
        d = c.dom
        if all(table[i] == i for i in bits(d)):
            return chr(c.cp)
        img = {table[i] for i in bits(d)}
        if len(img) == 1:
            return chr(img.pop())
        key = (c.cp, table)
        if key in self.derived:
            return self.derived[key]
        cp = self.next_cp
        self.next_cp += 1
        self.chars[cp] = Char(cp, c.name + "'", 0, c, table)
        self.derived[key] = chr(cp)
        return chr(cp)

    def str(self, name, length, first=None, rest=WORD):
        """symbolic string of concrete length"""
        name = self.uniq(name)
        s = ''.join(self.new_char(f'{name}.{i}', first if i == 0 and first is not None else rest)
                    for i in range(length))
        self.inputs[name] = ('str', s)
        return s

    def ident(self, name, length):
        return self.str(name, length, IDSTART, WORD)

    def int(self, name, lo=None, hi=None):
        name = self.uniq(name)
        v = z3.Int(name)
        self.inputs[name] = ('int', v)
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        return v

    def real(self, name):
        name = self.uniq(name)
        v = z3.Real(name)
        self.inputs[name] = ('real', v)
        return v

    def bool(self, name):
        name = self.uniq(name)
        v = z3.Bool(name)
        self.inputs[name] = ('bool', v)
        return v

    # ---- solver ---------------------------------------------------------------
    def add(self, f):
        if z3.is_true(f):
            return
        self.constraints.append(f)

    def flush(self):
        if self.constraints:
            for f in self.constraints:
                self.solver.add(f)
            self.constraints = []

    def _check(self, *assumptions):
        self.flush()
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def _dom_assert(self, c):
        """put a freshly narrowed domain into the path condition"""
        self.add(mask_formula(c.expr(), c.dom))

    def touch(self, c):
        """character enters a relational constraint"""
        if c.base is not None:
            c = c.base
        if not c.rel:
            c.rel = True
            self.add(mask_formula(c.expr(), c.dom))

    def sat(self, f):
        """is PC and f satisfiable?  (every character in f has been touched, so
        its domain is part of PC; the others are independent and non-empty)"""
        r = self._check(f)
        if r == z3.unknown:
            raise Undecided('solver returned unknown')
        return r == z3.sat

    def touch_all(self):
        # domains are asserted lazily; before a model is taken all of them are
        for c in list(self.chars.values()):
            if c.base is None and not c.rel and c.dom != FULL:
                c.rel = True
                self.add(mask_formula(c.expr(), c.dom))

    # ---- decisions ----------------------------------------------------------
    def _decide(self, alts, label):
        """alts: list of feasible alternatives (ints)"""
        self.stats.branches += 1
        i = len(self.trace)
        self.trace.append(alts[0])
        for a in reversed(alts[1:]):
            self.pending.append(self.trace[:i] + [a])
        return alts[0]

    def _replayed(self):
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            return d
        return None

    def branch(self, f, label=''):
        """general two-way branch on a z3 formula"""
        if f is True or f is False:
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        key = f.get_id()
        if key in self.decided:
            return self.decided[key][0]
        d = self._replayed()
        if d is None:
            can_t = self.sat(f)
            can_f = self.sat(z3.Not(f)) if can_t else True
            if can_t and can_f:
                d = self._decide([1, 0], label)
            else:
                d = self._decide([1 if can_t else 0], label)
        self.add(f if d else z3.Not(f))
        self.decided[key] = (bool(d), f)
        return bool(d)

    def free(self, f):
        """two-way branch on a variable that the caller knows to be independent of
        the path condition, so that both outcomes are possible"""
        d = self._replayed()
        if d is None:
            d = self._decide([1, 0], 'free')
        self.add(f if d else z3.Not(f))
        return bool(d)

    def choose(self, name, n, values=None):
        """n-way choice; a solver integer variable"""
        name = self.uniq(name)
        if n <= 0:
            raise Infeasible('empty choice')
        d = self._replayed()
        if d is None:
            d = self._decide(list(range(n)), name)
        self.inputs[name] = ('choice', d)
        v = z3.Int(name)
        self.add(v == d)
        return values[d] if values is not None else d

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise Infeasible('assumption')
        self.add(f)
        if self._check() == z3.unsat:
            raise Infeasible('assumption')

    # ---- characters ------------------------------------------------------------
    def is_sym(self, ch):
        return ord(ch) in self.chars

    def dom_of(self, ch):
        c = self.chars.get(ord(ch))
        if c is None:
            o = ord(ch)
            return 1 << o if o < 128 else 0
        return c.domain()

    def ch_in(self, ch, mask):
        """is the character ch a member of mask? forks if open"""
        c = self.chars.get(ord(ch))
        if c is None:
            o = ord(ch)
            return o < 128 and bool(mask >> o & 1)
        if c.base is not None:
            mask = c.preimage(mask)
            c = c.base
        inn = c.dom & mask
        if not inn:
            return False
        out = c.dom & ~mask
        if not out:
            return True
        d = self._replayed()
        if d is None:
            if c.rel:
                f = mask_formula(c.expr(), inn)
                can_t = self.sat(f)
                can_f = self.sat(z3.Not(f)) if can_t else True
                alts = [1, 0] if can_t and can_f else [1 if can_t else 0]
            else:
                alts = [1, 0]
            d = self._decide(alts, 'ch_in')
        c.dom = inn if d else out
        if c.rel:
            self.add(mask_formula(c.expr(), c.dom))
        return bool(d)

    def ch_expr(self, ch):
        c = self.chars.get(ord(ch))
        if c is None:
            o = ord(ch)
            return z3.BitVecVal(o, 7) if o < 128 else None
        self.touch(c)
        return c.expr()

    # ---- strings --------------------------------------------------------------------
    def has_sym(self, s):
        return not s.isascii() and any(ord(ch) in self.chars for ch in s)

    def resolve(self, s):
        """replace characters whose domain is a singleton"""
        if s.isascii():
            return s
        out = []
        for ch in s:
            c = self.chars.get(ord(ch))
            if c is not None:
                d = c.domain()
                if d and d & (d - 1) == 0:
                    ch = chr(d.bit_length() - 1)
            out.append(ch)
        return ''.join(out)

    def eq_formula(self, a, b):
        """True / False / z3 formula"""
        if len(a) != len(b):
            return False
        if a == b:
            return True
        parts = []
        for x, y in zip(a, b):
            if x == y:
                continue
            dx, dy = self.dom_of(x), self.dom_of(y)
            if not dx & dy:
                return False
            if dx == dy and dx & (dx - 1) == 0:
                continue
            cx, cy = self.chars.get(ord(x)), self.chars.get(ord(y))
            parts.append((cx, cy, dx, dy, x, y))
        if not parts:
            return True
        fs = []
        for cx, cy, dx, dy, x, y in parts:
            fs.append(self.ch_expr(x) == self.ch_expr(y))
        return z3.And(fs) if len(fs) > 1 else fs[0]

    def str_eq(self, a, b):
        """a == b with forking"""
        if len(a) != len(b):
            return False
        if a == b:
            return True
        todo = []
        for x, y in zip(a, b):
            if x == y:
                continue
            dx, dy = self.dom_of(x), self.dom_of(y)
            if not dx & dy:
                return False
            if dx == dy and dx & (dx - 1) == 0:
                continue
            todo.append((x, y, dx, dy))
        if not todo:
            return True
        if len(todo) == 1:
            x, y, dx, dy = todo[0]
            if dy & (dy - 1) == 0:
                return self.ch_in(x, dy)
            if dx & (dx - 1) == 0:
                return self.ch_in(y, dx)
        f = z3.And([self.ch_expr(x) == self.ch_expr(y) for x, y, _, _ in todo])
        r = self.branch(f, 'str_eq')
        if r:
            for x, y, dx, dy in todo:
                self.narrow(x, dy)
                self.narrow(y, dx)
        return r

    def narrow(self, ch, mask):
        c = self.chars.get(ord(ch))
        if c is None:
            return
        if c.base is not None:
            mask = c.preimage(mask)
            c = c.base
        c.dom &= mask

    def any_eq(self, a, options):
        """is a equal to one of the options?  One fork for the disjunction."""
        fs = []
        for o in options:
            f = self.eq_formula(a, o)
            if f is True:
                return True
            if f is not False:
                fs.append((f, o))
        if not fs:
            return False
        if len(fs) == 1:
            return self.str_eq(a, fs[0][1])
        r = self.branch(z3.Or([f for f, _ in fs]), 'any_eq')
        return r

    def concretize(self, s, why=''):
        """fix the symbolic characters of s to one model (under-approximation)"""
        self.stats.concretized += 1
        self.note('concretized: ' + why)
        out = []
        for ch in s:
            c = self.chars.get(ord(ch))
            if c is None:
                out.append(ch)
                continue
            d = self._replayed()
            e = self.ch_expr(ch)
            if d is None:
                if self._check() != z3.sat:
                    raise Infeasible('pc')
                v = self.solver.model().eval(e, model_completion=True).as_long()
                d = self._decide([v], 'concretize')
            self.add(e == d)
            self.narrow(ch, 1 << d)
            out.append(chr(d))
        return ''.join(out)

    # ---- formulas usable in both modes ---------------------------------------------
    def Eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return self.eq_formula(a, b)
        return a == b

    def And(self, *fs):
        fs = [f for f in fs if f is not True]
        if any(f is False for f in fs):
            return False
        if not fs:
            return True
        return z3.And(fs) if len(fs) > 1 else fs[0]

    def Or(self, *fs):
        fs = [f for f in fs if f is not False]
        if any(f is True for f in fs):
            return True
        if not fs:
            return False
        return z3.Or(fs) if len(fs) > 1 else fs[0]

    def Not(self, f):
        if f is True:
            return False
        if f is False:
            return True
        return z3.Not(f)

    def Iff(self, a, b):
        if isinstance(a, bool):
            return b if a else self.Not(b)
        if isinstance(b, bool):
            return a if b else self.Not(a)
        return a == b

    def In(self, s, options):
        return self.Or(*[self.Eq(s, o) for o in options])

    def is_keyword(self, s):
        import keyword
        return self.In(s, keyword.kwlist)

    # ---- property -----------------------------------------------------------------
    def check(self, f, label, detail=''):
        """assert property f at the end of (or anywhere on) the path"""
        self.stats.checks += 1
        if f is True:
            # still ask the solver that the path is real when it is the last check
            return True
        neg = z3.BoolVal(True) if f is False else z3.Not(f)
        self.touch_all()
        r = self._check(neg)
        if r == z3.unsat:
            return True
        if r == z3.unknown:
            raise Undecided('solver returned unknown on property')
        m = self.solver.model()
        self.violations.append({'label': label, 'detail': self.show(detail, m),
                                'model': self.model_inputs(m)})
        return False

    def feasible(self):
        """reachability witness: returns a model of the path condition"""
        self.touch_all()
        if self._check() != z3.sat:
            return None
        return self.solver.model()

    def show(self, s, m):
        if not isinstance(s, str):
            s = repr(s)
        out = []
        for ch in s:
            c = self.chars.get(ord(ch))
            if c is not None:
                ch = chr(m.eval(c.expr(), model_completion=True).as_long())
            out.append(ch)
        return ''.join(out)

    def model_inputs(self, m):
        d = {}
        for name, (kind, v) in self.inputs.items():
            if kind == 'choice':
                d[name] = ['choice', v]
            elif kind == 'str':
                d[name] = ['str', self.show(v, m)]
            elif kind == 'json':
                d[name] = ['json', v.value(m)]
            elif kind == 'int':
                d[name] = ['int', m.eval(v, model_completion=True).as_long()]
            elif kind == 'bool':
                d[name] = ['bool', bool(z3.is_true(m.eval(v, model_completion=True)))]
            elif kind == 'real':
                q = m.eval(v, model_completion=True)
                d[name] = ['real', [q.numerator_as_long(), q.denominator_as_long()]]
        return d

    def observe(self, s):
        self.observations.append(s)


class ConcreteCtx:
    """same interface, evaluates the harness on one concrete assignment against
    the real, uninstrumented modules"""
    symbolic = False

    def __init__(self, model):
        self.model = model
        self.names = {}
        self.violations = []
        self.observations = []
        self.stats = Stats()

    def uniq(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else f'{name}#{k}'

    def _get(self, name, kind, default):
        name = self.uniq(name)
        v = self.model.get(name)
        if v is None:
            return default
        assert v[0] == kind, (name, v, kind)
        return v[1]

    def note(self, text):
        pass

    def str(self, name, length, first=None, rest=WORD):
        dflt = ''.join(chr(bits(first if i == 0 and first is not None else rest)[-1])
                       for i in range(length))
        s = self._get(name, 'str', dflt)
        if len(s) != length:
            raise Infeasible('length')
        return s

    def ident(self, name, length):
        return self.str(name, length, IDSTART, WORD)

    def int(self, name, lo=None, hi=None):
        return self._get(name, 'int', lo if lo is not None else 0)

    def real(self, name):
        n, d = self._get(name, 'real', [0, 1])
        from fractions import Fraction
        return Fraction(n, d)

    def bool(self, name):
        return self._get(name, 'bool', False)

    def json(self, name):
        v = self.model.get(name)
        assert v is None or v[0] == 'json'
        return v[1] if v is not None else None

    def choose(self, name, n, values=None):
        if n <= 0:
            raise Infeasible('empty choice')
        d = self._get(name, 'choice', 0)
        if d >= n:
            raise Infeasible('choice')
        return values[d] if values is not None else d

    def branch(self, f, label=''):
        return bool(f)

    def assume(self, f):
        if not f:
            raise Infeasible('assumption')

    def ch_in(self, ch, mask):
        o = ord(ch)
        return o < 128 and bool(mask >> o & 1)

    def has_sym(self, s):
        return False

    def resolve(self, s):
        return s

    def str_eq(self, a, b):
        return a == b

    def any_eq(self, a, options):
        return a in options

    def Eq(self, a, b):
        return a == b

    def And(self, *fs):
        return all(fs)

    def Or(self, *fs):
        return any(fs)

    def Not(self, f):
        return not f

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def In(self, s, options):
        return s in options

    def is_keyword(self, s):
        import keyword
        return keyword.iskeyword(s)

    def check(self, f, label, detail=''):
        self.stats.checks += 1
        if not f:
            self.violations.append({'label': label,
                                    'detail': detail if isinstance(detail, str) else repr(detail)})
            return False
        return True

    def observe(self, s):
        self.observations.append(s)
