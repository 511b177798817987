"""C06: the single-dispatch shim dispatches like functools, with forward references"""
import sys
import types
import typing

BOUNDS = {
    'quick': 'three classes (4 hierarchies), two registrations of every kind (class, decorator, '
             'annotation, forward reference, unions of them) at every point of time between the '
             'definitions of the classes, symbolic names in forward references, one dispatch of all defined classes at any point of time '
             'and another one at the end; functions and methods',
    'thorough': 'the same with all hierarchies and three registrations'}
ASSUMPTIONS = ['abstract base classes only in the harness `virtual` (against functools as reference)', 'a class registered by forward reference is registered only once', 'one thread']
VALIDATE = {'quick': 101, 'thorough': 1001}

KINDS = ['call', 'cls', 'ann', 'fwd', 'uni', 'fwduni', 'fwdbar']
BASES = [(None, None), (0, None), (None, 0), (None, 1), (0, 0), (0, 1)]   # bases of D1, D2


def jobs(tier):
    out = []
    for m in (False, True):
        for h in range(len(BASES)):
            if tier == 'quick':
                if h not in ((4,) if m else (0, 2, 5)):
                    continue
                for k in KINDS:
                    for k2 in ('call', 'fwd', 'uni', 'fwduni'):
                        out.append(('history', {'method': m, 'bases': h, 'kinds': [k, k2], 'n': 2}))
            else:
                for k in KINDS:
                    for k2 in KINDS:
                        out.append(('history', {'method': m, 'bases': h, 'kinds': [k, k2],
                                                'n': 3}))
    for m in (False, True):
        for k in KINDS:
            for k2 in ('call', 'fwd', 'ann', 'fwdbar') if tier == 'quick' else KINDS:
                out.append(('virtual', {'method': m, 'kinds': [k, k2], 'abstract': len(out) % 2 > 0}))
    for m in (False, True):
        for form in FORMS:
            out.append(('modules', {'method': m, 'form': form}))
    return out


FORMS = ["Union['D0', 'D1']", "'Union[D0, D1]'", "'D0'", "Optional['D0']", "'D0 | D1'", 'D0', 'Union[D0, D1]']
_codes = {}


def run(src, ns):
    c = _codes.get(src)
    if c is None:
        c = _codes[src] = compile(src, 'gen_dispatch.py', 'exec', dont_inherit=True)
    exec(c, ns)


def targets(kind, t):
    return (t,) if not kind.endswith(('uni', 'bar')) else (t, (t + 1) % 3)


def symbolic_names():
    """forward references that contain symbolic names are looked up with the solver"""
    import typing
    from symx import rt
    F = typing.ForwardRef
    if hasattr(F, '_symx_evaluate'):
        return
    F._symx_evaluate = F._evaluate

    class Names:
        def __init__(self, ns):
            self.ns = ns

        def keys(self):
            return self.ns.keys()

        def __iter__(self):
            return iter(self.ns)

        def __getitem__(self, k):
            if rt.is_symstr(k):
                for d in CLASSES:
                    if d in self.ns and rt.ctx.str_eq(k, d):
                        return self.ns[d]
                raise KeyError(k)
            return self.ns[k]

    def evaluate(self, g, l, *a, **kw):
        if rt.ctx is not None and rt.is_symstr(self.__forward_arg__):
            l = Names(g if l is None else l)
        return F._symx_evaluate(self, g, l, *a, **kw)
    F._evaluate = evaluate


CLASSES = ['D0', 'D1', 'D2']


class World:
    def __init__(self, ctx, env, method, bases):
        if ctx.symbolic:
            symbolic_names()
        self.ctx, self.method = ctx, method
        self.bases = (None,) + BASES[bases]
        m = types.ModuleType('gen_dispatch')
        sys.modules['gen_dispatch'] = m
        self.ns = m.__dict__
        self.ns['SD'] = env.sd
        self.ns['Union'] = __import__('typing').Union
        if method:
            run('class K:\n    @SD.singledispatchmethod\n    def f(self, x):\n        return "default"\n'
                'k = K()\nreg = K.__dict__["f"].register\n', self.ns)
        else:
            run('@SD.singledispatch\ndef f(x):\n    return "default"\nreg = f.register\n', self.ns)
        self.defined = []
        self.regs = []          # (result, names of classes, forward?)
        self.log = []

    def define(self):
        i = len(self.defined)
        b = self.bases[i]
        run(f'class D{i}{"" if b is None else f"(D{b})"}:\n    pass\n', self.ns)
        self.defined.append(f'D{i}')
        self.log.append(f'define D{i}')

    def can(self, kind, t):
        return kind.startswith('fwd') or all(f'D{x}' in self.defined for x in targets(kind, t))

    def register(self, kind, t):
        ctx = self.ctx
        n = f'r{len(self.regs)}'
        fwd = kind.startswith('fwd')
        names = tuple(f'D{x}' for x in targets(kind, t))
        if fwd:
            names = tuple('D' + ctx.str(f'{n}.{i}', 1) for i in range(len(names)))
            if len(names) > 1:
                ctx.assume(ctx.Not(ctx.Eq(*names)))
        for _, names2, fwd2 in self.regs:
            if fwd or fwd2:
                ctx.assume(ctx.Not(ctx.Or(*[ctx.Eq(x, y) for x in names for y in names2])))
        self_ = 'self, ' if self.method else ''
        a = {'call': '', 'cls': '', 'ann': f': D{t}', 'fwd': f": '{names[0]}'",
             'uni': ': Union[' + ', '.join(names) + ']',
             'fwduni': ": 'Union[" + ', '.join(names) + "]'",
             'fwdbar': ": '" + ' | '.join(names) + "'"}[kind]
        deco = {'call': '', 'cls': f'@reg(D{t})\n'}.get(kind, '@reg\n')
        src = f'{deco}def _({self_}x{a}):\n    return {n!r}\n'
        if kind == 'call':
            src += f'reg(D{t}, _)\n'
        self.regs.append((n, names, fwd))
        self.log.append(f'{kind} {n} for ' + ','.join(names))
        try:
            run(src, self.ns)
        except Exception as e:
            self.ctx.check(False, 'a registration fails', f'{self.log}: {type(e).__name__} {e}')

    def resolved(self, names):
        ctx = self.ctx
        return ctx.And(*[ctx.In(x, self.defined) for x in names])

    def expected(self, d, got):
        """formula: the implementation for class D<d> is `got`"""
        ctx = self.ctx
        regs = [(n, names, self.resolved(names)) for n, names, _ in self.regs]
        # a later registration of the same class replaces an earlier one
        last = lambda c, j: ctx.And(
            ctx.In(c, regs[j][1]), regs[j][2],
            *[ctx.Not(ctx.And(ctx.In(c, names), ok)) for _, names, ok in regs[j + 1:]])
        f = got == 'default'
        chain = []
        while d is not None:
            chain.append(f'D{d}')
            d = self.bases[d]
        for c in reversed(chain):
            mine = ctx.Or(*[last(c, j) for j in range(len(regs)) if regs[j][0] == got])
            taken = ctx.Or(*[last(c, j) for j in range(len(regs))])
            f = ctx.Or(mine, ctx.And(ctx.Not(taken), f))
        return f

    def dispatch(self, d):
        f = 'k.f' if self.method else 'f'
        try:
            got = eval(f'{f}({d}())', self.ns)
        except Exception as e:
            got = type(e).__name__
        ctx = self.ctx
        # while a class is still missing, a NameError is as good as the result
        missing = ctx.Not(ctx.And(*[self.resolved(names) for _, names, _ in self.regs]))
        self.log.append(f'call {d} -> {got}')
        ctx.check(ctx.Or(self.expected(int(d[1]), got), ctx.And(got == 'NameError', missing)),
                  'the wrong implementation is called',
                  f'{self.log}; bases: {self.bases} method: {self.method}')


def history(ctx, env, method, bases, kinds, n):
    w = World(ctx, env, method, bases)
    total = 3 + n
    early = ctx.choose('early', total)
    for step in range(total):
        ops = []
        left = n - len(w.regs)
        if len(w.defined) < 3:
            ops.append(('define',))
        if left:
            k = len(w.regs)
            for kind in ([kinds[k]] if k < len(kinds) else KINDS):
                for t in range(1 if kind.startswith('fwd') else 3):
                    if w.can(kind, t):
                        ops.append((kind, t))
        op = ops[ctx.choose(f'op{step}', len(ops))]
        if op[0] == 'define':
            w.define()
        else:
            w.register(*op)
        if step == early:
            for d in w.defined:
                w.dispatch(d)
    for d in reversed(w.defined):
        w.dispatch(d)
    try:
        others = eval('(k.f(1), k.f(None))' if method else '(f(1), f(None))', w.ns)
    except Exception as e:
        others = type(e).__name__
    missing = ctx.Not(ctx.And(*[w.resolved(names) for _, names, _ in w.regs]))
    ctx.check(ctx.Or(others == ('default', 'default'), missing),
              'the default implementation is not called', f'{w.log}: {others}')
    ctx.observe(' '.join(w.log))


def virtual(ctx, env, method, kinds, abstract):
    """abstract base classes: the reference is functools"""
    import functools
    w = World(ctx, env, method, 0)
    body = '    @abc.abstractmethod\n    def am(self): pass\n' if abstract else '    pass\n'
    run('import abc\nclass D0(abc.ABC):\n' + body + 'class D1: pass\nclass D2(D1): pass\n', w.ns)
    w.defined = ['D0', 'D1', 'D2']
    # functools does not notice abstract base classes inside of unions: either way is fine
    ref, ref2 = (functools.singledispatch(lambda x: 'default') for _ in range(2))
    pending = []

    def both(kind, t):
        w.register(kind, t)
        n, names, _ = w.regs[-1]
        found = []
        for x in names:
            if not kind.startswith('fwd'):
                found.append(w.ns[x])
            else:
                for d in w.defined:
                    if ctx.branch(ctx.Eq(x, d)):
                        found.append(w.ns[d])
                        break
                else:
                    pending.append(x)
        if len(found) == len(names):
            impl = lambda _, n=n: n
            for c in found:
                ref.register(c, impl)
            ref2.register(typing.Union[tuple(found)], impl)

    def calls():
        f = 'k.f' if method else 'f'
        for d in ('D2', 'D1'):
            try:
                got = eval(f'{f}({d}())', w.ns)
            except Exception as e:
                got = type(e).__name__
            want = [r.dispatch(w.ns[d])(None) for r in (ref, ref2)]
            w.log.append(f'call {d} -> {got}')
            ctx.check(got in want or bool(pending) and got == 'NameError', 'the wrong implementation is called',
                      f'{w.log} method: {method}, expected: {want}')
    early = ctx.choose('early', 4)
    done = False
    for step in range(3):
        ops = [] if done else [None]
        if len(w.regs) < 2:
            kind = kinds[len(w.regs)]
            ops += [(kind, t) for t in ([0] if kind.startswith('fwd') else [0, 1, 2])]
        op = ops[ctx.choose(f'op{step}', len(ops))]
        if op is None:
            run('D0.register(D1)\n', w.ns)
            w.log.append('D0.register(D1)')
            done = True
        else:
            both(*op)
        if step == early:
            calls()
    calls()
    ctx.observe(' '.join(w.log))


def modules(ctx, env, method, form):
    """two modules with the same names, in any interleaving of definitions and calls"""
    import itertools
    direct = "'" not in form
    head = 'from typing import Union, Optional\n' + (
        'class K:\n    @SD.singledispatchmethod\n    def f(self, x):\n        return "default"\n'
        'reg = K.__dict__["f"].register\n' if method else
        '@SD.singledispatch\ndef f(x):\n    return "default"\nreg = f.register\n')
    classes = 'class D0: pass\nclass D1: pass\nclass D2: pass\n'
    impl = f'@reg\ndef _({"self, " if method else ""}x: {form}):\n    return NAME\n'
    steps = [classes, impl] if direct else [impl, classes]
    mods = []
    for i in range(2):
        m = types.ModuleType(f'gen_dispatch_{i}')
        sys.modules[m.__name__] = m
        m.__dict__.update(SD=env.sd, NAME=f'impl{i}')
        run(head, m.__dict__)
        mods.append([m.__dict__, list(steps)])
    log = []

    def call():
        for i, (ns, todo) in enumerate(mods):
            if todo:
                continue
            if method:
                ns['k'] = ns['K']()
            for j, (other, todo2) in enumerate(mods):
                if todo2 == [classes] or todo2 == steps:
                    continue
                for d in range(3):
                    try:
                        got = eval(f'{"k.f" if method else "f"}(x)', dict(ns, x=other[f'D{d}']()))
                    except Exception as e:
                        got = type(e).__name__
                    want = f'impl{i}' if i == j and (d == 0 or d == 1 and 'D1' in form) else 'default'
                    log.append(f'f{i}(D{d} of {j}) -> {got}')
                    ctx.check(got == want, 'the wrong implementation is called', f'{form} method: {method} {log}')
    early = ctx.choose('early', 4)
    for step in range(4):
        able = [i for i in (0, 1) if mods[i][1]]
        i = able[ctx.choose(f'm{step}', len(able))]
        try:
            run(mods[i][1].pop(0), mods[i][0])
        except Exception as e:
            ctx.check(False, 'a registration fails', f'{form} {log}: {type(e).__name__} {e}')
            return
        log.append(f'step of module {i}')
        if step == early:
            call()
    call()
    ctx.observe(' '.join(log))
