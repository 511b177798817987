"""C04: type_check-decorated functions are guarded completely and otherwise unchanged"""
from symx import values as V
from symx.env import exec_module
from . import jsonv as J

BOUNDS = {'quick': 'signatures of up to 3 parameters of every kind, JSON values up to depth 2, arrays up '
                   'to length 1; every way of passing the arguments (positional, by keyword, omitted, '
                   'surplus, unknown, twice)'}
ASSUMPTIONS = ['functions are called synchronously; generators and coroutines are not considered']
VALIDATE = {'quick': 13, 'thorough': 13}

# signature: list of (name, kind, type or None, default?); kind: p(ositional or keyword),
# o(nly positional), k(eyword only), a(rgs), w (kwargs)
SIGS = [
    ('a:p:int', 'none'),
    ('a:p:td', 'td'),
    ('a:p:str=', 'int'),
    ('a:p:int b:p:str', '-'),
    ('a:p:-  b:p:td', 'list(int)'),
    ('a:p:int b:p:str=', '-'),
    ('a:p:int= b:p:int=', 'union(int,none)'),
    ('a:o:int b:p:str', '-'),
    ('a:p:int k:k:str', '-'),
    ('a:p:int k:k:str=', 'any'),
    ('k:k:es', 'es'),
    ('a:p:int r:a:str', '-'),
    ('r:a:td', 'str'),
    ('r:a:int w:w:str', '-'),
    ('a:p:str w:w:int', 'bool'),
    ('a:p:int= r:a:str k:k:int= w:w:str', '-'),
    ('a:p:list(td)', '-'),
    ('a:p:union(int,td)', '-'),
    ('a:p:ls b:p:float', '-'),
    ('', 'td'),
    ('', 'list(td)'),
    ('a:p:-', 'float'),
    ('a:p:- b:p:-=', 'none'),
]
THOROUGH = [
    ('a:p:td b:p:td', 'td'), ('a:p:int b:p:str c:p:bool', '-'), ('a:o:int b:o:str= c:p:int=', 'int'),
    ('a:p:int b:p:- c:k:str', 'none'), ('a:p:dict(td) b:p:int=', '-'),
    ('a:p:int r:a:union(int,str) k:k:td', '-'), ('w:w:td', 'td'), ('r:a:list(int)', 'list(int)'),
    ('a:p:any b:p:td', 'td'), ('a:p:tuple(int,td)', '-'), ('a:p:es b:p:li', 'union(es,li)'),
    ('a:p:int= b:p:str= k:k:bool= w:w:td', '-'), ('a:p:- r:a:- w:w:-', 'int'),
]
TDS = {'T1': (None, (('fa', ('int',), False), ('fb', ('str',), True)))}


def parse_sig(text):
    out = []
    for p in text.split():
        name, kind, t = p.split(':', 2)
        default = t.endswith('=')
        t = t.rstrip('=')
        out.append((name, kind, None if t == '-' else J.parse(t), default))
    return out


def render(sig, ret, quoted):
    def ann(T):
        if T is None:
            return ''
        e = J.py(T)
        return ': ' + (repr(e) if quoted else e)
    parts = []
    seen_only = star = False
    for i, (name, kind, T, default) in enumerate(sig):
        d = ' = DEFAULT' if default else ''
        if kind == 'k' and not star:
            parts.append('*')
            star = True
        if kind == 'a':
            star = True
            parts.append('*' + name + ann(T))
        elif kind == 'w':
            parts.append('**' + name + ann(T))
        else:
            parts.append(name + ann(T) + d)
        if kind == 'o' and (i + 1 == len(sig) or sig[i + 1][1] != 'o'):
            parts.append('/')
    r = ''
    if ret is not None:
        e = J.py(ret)
        r = ' -> ' + (repr(e) if quoted else e)
    names = ', '.join(f'{n!r}: {n}' for n, _, _, _ in sig)
    return (J.HEAD + 'class T1(TypedDict):\n    fa: int\n    fb: NotRequired[str]\n'
            'DEFAULT = object()\n'
            f'def fn({", ".join(parts)}){r}:\n'
            f'    "docstring of fn"\n    return BODY({{{names}}})\n')


def jobs(tier):
    out = []
    sigs = SIGS + (THOROUGH if tier == 'thorough' else [])
    for i, (s, r) in enumerate(sigs):
        for quoted in (False, True):
            out.append(('guard', {'sig': s, 'ret': r, 'quoted': quoted}))
    for t in ['int', 'td', 'list(td)', 'union(td,none)', 'es', 'ls', 'T2']:
        for quoted in (False, True):
            out.append(('twice', {'typ': t, 'quoted': quoted}))
    for i, r in enumerate(['int', 'td', 'list(td)', 'none', 'es', 'union(int,none)']):
        out.append(('result', {'ret': r, 'quoted': bool(i % 2)}))
    return out


def call_shapes(sig):
    """(number of positional arguments, keywords) - everything that could make sense and
    a little more"""
    npos = sum(k in 'po' for _, k, _, _ in sig)
    var = any(k == 'a' for _, k, _, _ in sig)
    out = []
    kws = [n for n, k, _, _ in sig if k in 'pk']
    for n in range(npos + (3 if var else 2)):
        rest = [x for x in kws if x not in [s[0] for s in sig if s[1] in 'po'][:n]]
        sets = [()]
        for x in rest:
            sets += [s + (x,) for s in sets]
        if n:
            sets.append((sig[0][0],) if sig and sig[0][1] in 'po' else ('zz',))
        sets.append(('zz',))
        if rest:
            sets.append(tuple(rest) + ('zz',))
        for s in sets:
            if (n, s) not in out and n + len(s) <= 4:
                out.append((n, s))
    return out


def bind(sig, npos, kws):
    """-> {parameter: [argument slots]} or None if the call is malformed"""
    res = {}
    params = [s for s in sig if s[1] in 'po']
    for i in range(npos):
        if i < len(params):
            res[params[i][0]] = [i]
        else:
            rest = [s for s in sig if s[1] == 'a']
            if not rest:
                return None
            res.setdefault(rest[0][0], []).append(i)
    w = [s for s in sig if s[1] == 'w']
    for k in kws:
        hit = [s for s in sig if s[0] == k and s[1] in 'pk']
        if hit:
            if k in res:
                return None
            res[k] = [k]
        elif w:
            res.setdefault(w[0][0], []).append(k)
        else:
            return None
    for name, kind, _, default in sig:
        if kind in 'pok' and name not in res and not default:
            return None
    return res


class Boom(Exception):
    pass


def guard(ctx, env, sig, ret, quoted):
    spec = parse_sig(sig)
    R = None if ret == '-' else J.parse(ret)
    src = render(spec, R, quoted)
    shapes = call_shapes(spec)
    npos, kws = ctx.choose('call', len(shapes), shapes)
    calls = []
    result = []
    if R is None and all(s[2] is None for s in spec):
        return

    def body(args):
        calls.append(args)
        return result[0]
    ns = exec_module(src, 'gen_guard', {'BODY': body})
    tds = J.flat(TDS)
    b = V.Bounds(keys=('fa', 'fb'), maxlen=1, extra=0)
    slots = {}
    for i in list(range(npos)) + list(kws):
        slots[i] = V.make(ctx, f'arg{i}', 2 if 'list(td' in sig or 'dict' in sig else 1, b)
    result.append(V.make(ctx, 'ret', 1, b) if R is not None and ret != 'list(td)' else
                  V.make(ctx, 'ret', 2, b) if R is not None else object())
    fn = env.jv.type_check(ns['fn'])
    ctx.check(fn.__name__ == 'fn' and fn.__doc__ == 'docstring of fn',
              'the decorated function has lost its name', sig)
    got = None
    try:
        got = fn(*[slots[i] for i in range(npos)], **{k: slots[k] for k in kws})
        res = 'ok'
    except TypeError as e:
        res, got = 'type', str(e)
    except ValueError as e:
        res, got = 'value', str(e)
    except Exception as e:
        res, got = type(e).__name__, str(e)
    ctx.observe(f'{res} {len(calls)}')
    show = f'fn({sig}) -> {ret}; {npos} positional, keywords {kws}: {res}'
    bound = bind(spec, npos, kws)
    if bound is None:
        ctx.check(res == 'type', 'a malformed call does not raise a TypeError', show)
        ctx.check(not calls, 'the function is executed by a malformed call', show)
        return
    fs = []
    for name, kind, T, _ in spec:
        if T is not None:
            fs += [V.conforms(ctx, slots[i], T, tds) for i in bound.get(name, [])]
    args_ok = ctx.And(*fs)
    ret_ok = V.conforms(ctx, result[0], R, tds) if R is not None else True
    ctx.check(ctx.Iff(len(calls) == 1, args_ok) if len(calls) < 2 else False,
              'the function is executed if and only if all arguments are of their types', show)
    ctx.check(ctx.Iff(res == 'ok', ctx.And(args_ok, ret_ok)),
              'the call succeeds if and only if arguments and result are of their types', show)
    ctx.check(res in ('ok', 'type', 'value'), 'neither a result nor a TypeError', show)
    if calls:
        a = calls[0]
        good = True
        for name, kind, T, default in spec:
            want = bound.get(name, [])
            if kind == 'a':
                good = good and type(a[name]) is tuple and len(a[name]) == len(want) and \
                    all(x is slots[i] for x, i in zip(a[name], want))
            elif kind == 'w':
                good = good and list(a[name]) == want and \
                    all(a[name][k] is slots[k] for k in want)
            elif want:
                good = good and a[name] is slots[want[0]]
            else:
                good = good and a[name] is ns['DEFAULT']
        ctx.check(good, 'the function does not receive the arguments of the call', show)
        if res == 'ok':
            ctx.check(got is result[0], 'the call does not return the result of the function', show)
    for v in list(slots.values()) + result:
        if V.is_jv(v):
            ctx.check(not v.root.mutated, 'type_check changes its data', show)


def twice(ctx, env, typ, quoted):
    """a decorated method, called repeatedly and on different objects"""
    T = J.parse(typ)
    q = repr if quoted else str
    src = J.HEAD + (
        'class T1(TypedDict):\n    fa: int\n    fb: NotRequired[str]\n'
        "class T2(TypedDict):\n    fa: Union[None, 'T2']\n"
        'class K:\n'
        f'    @CHECK\n    def meth(self, x: {q(J.py(T))}, n: int = 0) -> {q(J.py(T))}:\n'
        '        return BODY(self, x, n)\n')
    tds = J.flat({'T1': TDS['T1'], 'T2': (None, (('fa', ('union', ('none',), ('td', 'T2')),
                                                  False),))})
    calls = []
    back = []

    def body(self, x, n):
        calls.append((self, x, n))
        return back[0]
    ns = {}
    ns = exec_module(src, 'gen_guard', {'BODY': body, 'CHECK': env.jv.type_check})
    objs = [ns['K'](), ns['K']()]
    b = V.Bounds(keys=('fa',), maxlen=1, extra=0)
    depth = 2 if '(td' in typ or typ == 'T2' else 1
    trace = []
    for i in range(2):
        v = V.make(ctx, f'x{i}', depth, b)
        same = ctx.choose(f'same{i}', 2)
        r = v if same else V.make(ctx, f'r{i}', depth, b)
        back[:] = [r]
        calls.clear()
        o = objs[i]
        got = None
        try:
            got = o.meth(v) if i else o.meth(v, n=1)
            res = 'ok'
        except (TypeError, ValueError):
            res = 'rejected'
        except Exception as e:
            res = type(e).__name__
        trace.append(res)
        show = f'call {i} of meth(self, x: {typ}) -> {typ}: {trace}'
        cv, cr = V.conforms(ctx, v, T, tds), V.conforms(ctx, r, T, tds)
        ctx.check(ctx.Iff(res == 'ok', ctx.And(cv, cr)),
                  'the call succeeds if and only if arguments and result are of their types', show)
        ctx.check(ctx.Iff(len(calls) == 1, cv) if len(calls) < 2 else False,
                  'the function is executed if and only if all arguments are of their types', show)
        if calls:
            ctx.check(calls[0][0] is o and calls[0][1] is v and calls[0][2] == 1 - i,
                      'the function does not receive the arguments of the call', show)
        ctx.check(res != 'ok' or got is r, 'the call does not return the result of the function',
                  show)
    ctx.observe(' '.join(trace))


def result(ctx, env, ret, quoted):
    """check_return_type=False, exceptions of the function itself"""
    R = J.parse(ret)
    src = render(parse_sig('a:p:int'), R, quoted)
    mode = ctx.choose('mode', 3, ['unchecked', 'type', 'other'])
    b = V.Bounds(keys=('fa', 'fb'), maxlen=1, extra=0)
    v = V.make(ctx, 'ret', 2, b)
    a = V.make(ctx, 'arg', 1, b)
    boom = TypeError('own') if mode == 'type' else Boom('own')

    def body(args):
        if mode != 'unchecked':
            raise boom
        return v
    ns = exec_module(src, 'gen_guard', {'BODY': body})
    fn = env.jv.type_check(ns['fn'], False)
    conf = V.conforms(ctx, a, ('int',), {})
    got = None
    try:
        got = fn(a)
        res = 'ok'
    except Exception as e:
        res = 'own' if e is boom else type(e).__name__
    ctx.observe(res)
    show = f'fn(a: int) -> {ret}, {mode}: {res}'
    if mode == 'unchecked':
        ctx.check(ctx.Iff(res == 'ok', conf), 'the result is checked although '
                  'check_return_type is False', show)
        ctx.check(res != 'ok' or got is v, 'the call does not return the result of the function',
                  show)
    else:
        ctx.check(ctx.Iff(res == 'own', conf),
                  'an exception of the function is not passed on', show)
    ctx.check(conf if res in ('ok', 'own') else res == 'TypeError',
              'wrong arguments do not raise a TypeError', show)
