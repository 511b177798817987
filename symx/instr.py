"""symx.instr - AST instrumentation and import hook for the code under test."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import rt

CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
          ast.In: 'in', ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}
BINOPS = {ast.Sub: '-', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^'}
NOCALL = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', 'print', 'open'}
CONST = (ast.Constant,)


def sx(name):
    return ast.Attribute(ast.Name('__sx__', ast.Load()), name, ast.Load())


def mk(name, *args):
    return ast.Call(sx(name), list(args), [])


class Instrument(ast.NodeTransformer):
    def __init__(self):
        self.count = 0

    def has_walrus(self, node):
        return any(isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom))
                   for n in ast.walk(node))

    # annotations stay native
    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        node.args = self.visit(node.args)
        node.body = [self.visit(b) for b in node.body]
        node.body = self.flat(node.body)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def flat(self, body):
        out = []
        for b in body:
            if isinstance(b, list):
                out.extend(b)
            elif b is not None:
                out.append(b)
        return out

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript):
            node.target.value = self.visit(node.target.value)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        ops = [CMPOPS[type(o)] for o in node.ops]
        if len(ops) == 1:
            a, b = node.left, node.comparators[0]
            if ops[0] in ('is', 'is not') and isinstance(b, ast.Constant) and b.value is Ellipsis:
                return node
            self.count += 1
            return ast.copy_location(mk('cmp', ast.Constant(ops[0]), a, b), node)
        if self.has_walrus(node):
            return node
        self.count += 1
        lams = [ast.Lambda(ast.arguments([], [], None, [], [], None, []), c)
                for c in node.comparators]
        return ast.copy_location(
            mk('chain', ast.Tuple([ast.Constant(o) for o in ops], ast.Load()), node.left, *lams),
            node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            if isinstance(node.slice, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred))
                                                         for e in node.slice.elts):
                return node
            self.count += 1
            return ast.copy_location(mk('getitem', node.value, node.slice), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) \
                and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            self.count += 1
            return ast.copy_location(
                ast.Expr(mk('setitem', t.value, t.slice, node.value)), node)
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript) and not isinstance(node.target.slice, ast.Slice) \
                and not self.has_walrus(node.value):
            t = node.target
            val = self.visit(node.value)
            self.count += 1
            lam = ast.Lambda(ast.arguments([], [ast.arg('__x')], None, [], [], None, []),
                             ast.BinOp(ast.Name('__x', ast.Load()), node.op, val))
            return ast.copy_location(
                ast.Expr(mk('augitem', self.visit(t.value), self.visit(t.slice), lam)), node)
        self.generic_visit(node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) \
                and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            self.count += 1
            return ast.copy_location(ast.Expr(mk('delitem', t.value, t.slice)), node)
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in NOCALL:
            self.generic_visit(node)
            return node
        node.args = [self.visit(a) for a in node.args]
        for k in node.keywords:
            k.value = self.visit(k.value)
        self.count += 1
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                    and f.value.func.id == 'super':
                return node
            name = f.attr
            if name.startswith('__') and not name.endswith('__'):
                f.value = self.visit(f.value)
                return node
            return ast.copy_location(
                ast.Call(sx('callm'), [self.visit(f.value), ast.Constant(name)] + node.args,
                         node.keywords), node)
        return ast.copy_location(
            ast.Call(sx('call'), [self.visit(f)] + node.args, node.keywords), node)

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr in rt.STRLIKE:
            return ast.copy_location(mk('attr', node.value, ast.Constant(node.attr)), node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        self.count += 1
        return ast.copy_location(mk('mkset', ast.List(node.elts, ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        self.count += 1
        return ast.copy_location(mk('mkset', ast.ListComp(node.elt, node.generators)), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        self.count += 1
        items = [ast.Tuple([k if k is not None else sx('MARK'), v], ast.Load())
                 for k, v in zip(node.keys, node.values)]
        return ast.copy_location(mk('mkdict', ast.List(items, ast.Load())), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        self.count += 1
        return ast.copy_location(
            mk('mkdict', ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()),
                                      node.generators)), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if type(node.op) in BINOPS:
            self.count += 1
            return ast.copy_location(
                mk('binop', ast.Constant(BINOPS[type(node.op)]), node.left, node.right), node)
        return node

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        if node.conversion == ord('r'):
            node.conversion = -1
            node.value = ast.copy_location(mk('fmt_repr', node.value), node)
        return node

    def visit_Match(self, node):
        """match statements over value patterns become if chains"""
        def simple(p):
            if isinstance(p, ast.MatchValue):
                return True
            if isinstance(p, ast.MatchSingleton):
                return True
            if isinstance(p, ast.MatchOr):
                return all(simple(q) for q in p.patterns)
            return isinstance(p, ast.MatchAs) and p.pattern is None

        if not all(simple(c.pattern) for c in node.cases):
            self.generic_visit(node)
            return node
        self.count += 1
        tmp = f'__sx_m{self.count}'

        def test(p):
            n = ast.Name(tmp, ast.Load())
            if isinstance(p, ast.MatchValue):
                return mk('cmp', ast.Constant('=='), n, self.visit(p.value))
            if isinstance(p, ast.MatchSingleton):
                return mk('cmp', ast.Constant('is'), n, ast.Constant(p.value))
            if isinstance(p, ast.MatchOr):
                return ast.BoolOp(ast.Or(), [test(q) for q in p.patterns])
            if p.name is None:
                return ast.Constant(True)
            return ast.BoolOp(ast.Or(), [
                ast.Tuple([ast.NamedExpr(ast.Name(p.name, ast.Store()), n)], ast.Load()),
                ast.Constant(True)])

        chain = []
        for c in reversed(node.cases):
            t = test(c.pattern)
            if c.guard is not None:
                t = ast.BoolOp(ast.And(), [t, self.visit(c.guard)])
            body = self.flat([self.visit(b) for b in c.body])
            chain = [ast.If(t, body, chain)]
        asg = ast.Assign([ast.Name(tmp, ast.Store())], self.visit(node.subject))
        return [ast.copy_location(asg, node)] + [ast.copy_location(x, node) for x in chain]


def instrument_source(src, filename):
    tree = ast.parse(src, filename)
    ins = Instrument()
    tree = ins.visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True), ins.count


class Loader(importlib.machinery.SourceFileLoader):
    counts = {}

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, encoding='utf-8') as f:
            src = f.read()
        code, n = instrument_source(src, path)
        Loader.counts[fullname] = n
        return code

    def exec_module(self, module):
        module.__dict__['__sx__'] = rt
        code = self.get_code(module.__name__)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = os.path.realpath(root) + os.sep

    def find_spec(self, fullname, path=None, target=None):
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is None or not spec.origin or not isinstance(
                spec.loader, importlib.machinery.SourceFileLoader):
            return None
        if os.path.realpath(spec.origin).startswith(self.root):
            ld = Loader(fullname, spec.origin)
            return importlib.util.spec_from_file_location(
                fullname, spec.origin, loader=ld,
                submodule_search_locations=spec.submodule_search_locations)
        return None


def install(root):
    sys.meta_path.insert(0, Finder(root))
