"""schemas for the JSON validation checks, rendered as Python source"""
from symx import values as V
from symx.env import exec_module

ES = ('enum', ('ab', 'cd'), 'ES')
EI = ('enum', (3, 7), 'EI')
LS = ('lit', ('ab', 'cd'))
LI = ('lit', (3, 7))
LM = ('lit', ('ab', 3))
TD1 = ('td', 'T1')
LEAVES = {'str': ('str',), 'int': ('int',), 'float': ('float',), 'bool': ('bool',),
          'none': ('none',), 'any': ('any',), 'ls': LS, 'li': LI, 'lm': LM, 'es': ES, 'ei': EI, 'td': TD1,
          'listany': ('listany',), 'dictany': ('dictany',)}
PY = {'str': 'str', 'int': 'int', 'float': 'float', 'bool': 'bool', 'none': 'None', 'any': 'Any',
      'listany': 'List', 'dictany': 'Dict'}

HEAD = """from enum import Enum
from typing import List, Dict, Tuple, Union, Optional, Any, Literal
from ts2python.typeddict_shim import TypedDict, NotRequired
import typing
class ES(Enum):
    A = 'ab'
    B = 'cd'
class EI(Enum):
    A = 3
    B = 7
"""


def py(T, q=False, pep604=False):
    """Python type expression; q: names of classes are quoted"""
    t = T[0]
    if t in PY:
        return PY[t]
    if t == 'lit':
        return 'Literal[' + ', '.join(map(repr, T[1])) + ']'
    if t == 'enum':
        return T[2]
    if t == 'td':
        return f"'{T[1]}'" if q else T[1]
    if t == 'union':
        if pep604 and not q:
            return ' | '.join(py(x, q, pep604) for x in T[1:])
        return 'Union[' + ', '.join(py(x, q, pep604) for x in T[1:]) + ']'
    n = {'list': 'List', 'dict': 'Dict', 'tuple': 'Tuple', 'seq': 'Tuple'}[t]
    args = [py(x, q, pep604) for x in T[1:]]
    if t == 'dict':
        args.insert(0, 'str')
    if t == 'seq':
        args.append('...')
    if t == 'tuple' and not args:
        args = ['()']
    return f'{n}[' + ', '.join(args) + ']'


def parse(s):
    """list(union(str,int)) -> schema"""
    s = s.replace(' ', '')
    pos = 0

    def item():
        nonlocal pos
        j = pos
        while j < len(s) and s[j] not in '(),':
            j += 1
        name = s[pos:j]
        pos = j
        if pos < len(s) and s[pos] == '(':
            pos += 1
            args = []
            while s[pos] != ')':
                args.append(item())
                if s[pos] == ',':
                    pos += 1
            pos += 1
            return (name,) + tuple(args)
        if name in LEAVES:
            return LEAVES[name]
        return ('td', name)
    return item()


def has_none(T):
    return T == ('none',) or T[0] == 'union' and any(has_none(x) for x in T[1:])


def source(tds, style):
    """style: direct | quoted (class names quoted) | string (whole annotation quoted);
    tds: ordered {name: (base or None, ((key, T, optional), ...))}"""
    out = [HEAD]
    pep604 = style == 'pep604'
    for name, (base, fields) in tds.items():
        out.append(f'class {name}({base or "TypedDict"}):\n')
        for k, T, opt in fields:
            if style == 'string':
                e = py(T)
                e = f'NotRequired[{e}]' if opt else e
                out.append(f'    {k}: {e!r}\n')
            else:
                e = py(T, style == 'quoted', pep604)
                e = f'NotRequired[{e}]' if opt else e
                out.append(f'    {k}: {e}\n')
        if not fields:
            out.append('    pass\n')
    return ''.join(out)


def flat(tds):
    """{name: ((key, T, required), ...)} including inherited fields"""
    out = {}
    for name, (base, fields) in tds.items():
        d = {k: (k, T, r) for k, T, r in out[base]} if base else {}
        for k, T, opt in fields:
            d[k] = (k, T, not (opt or has_none(T)))
        out[name] = tuple(d.values())
    return out


T1 = ('T1', (None, (('fa', ('int',), False), ('fb', ('str',), True))))
SELF = ('T2', (None, (('fa', ('union', ('none',), ('td', 'T2')), False),
                      ('fb', ('list', ('td', 'T2')), True))))


def module(tds, style, name='gen_json'):
    return exec_module(source(tds, style), name)


class Result:
    __slots__ = ('kind', 'msg')


def attempt(f, *a):
    """-> 'ok' | 'type' | 'value' | other exception name, message"""
    try:
        f(*a)
        return 'ok', ''
    except TypeError as e:
        return 'type', str(e)
    except ValueError as e:
        return 'value', str(e)
    except Exception as e:
        return type(e).__name__, str(e)
