"""Loads modules of the code under test (and the harnesses) with their source rewritten so that operations that CPython
would perform natively on symbolic operands go through symx.rt.  The source is read from disk on every run."""
import ast
import builtins
import importlib.abc
import importlib.util
import os
import sys
from . import rt

NAME = '_S'


def _a(attr):
    return ast.Attribute(value=ast.Name(id=NAME, ctx=ast.Load()), attr=attr, ctx=ast.Load())


def _call(attr, args, keywords=()):
    return ast.Call(func=_a(attr), args=list(args), keywords=list(keywords))


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.scope = []

    # annotations are left alone
    def visit_arg(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        node.keywords = [self.visit(k) for k in node.keywords]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.scope.pop()
        return node

    def visit_FunctionDef(self, node):
        self.scope.append(node.name)
        args = node.args
        args.defaults = [self.visit(d) for d in args.defaults]
        args.kw_defaults = [None if d is None else self.visit(d) for d in args.kw_defaults]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        mark = ast.Expr(_call('enter', [ast.Constant(f'{self.modname}:{".".join(self.scope)}')]))
        k = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
            and isinstance(body[0].value.value, str) else 0
        body.insert(k, mark)
        node.body = body
        self.scope.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ('super', 'locals', 'globals', 'vars', 'exec', 'eval') \
                and not node.args:
            return node
        self.generic_visit(node)
        return ast.Call(func=_a('call'), args=[node.func] + node.args, keywords=node.keywords)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return _call('getitem', [node.value, self._slice(node.slice)])
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(func=_a('slice'), args=[s.lower or none, s.upper or none, s.step or none], keywords=[])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._slice(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript) and not any(
                isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for n in ast.walk(node.value)):
            value = self.visit(node.value)
            tgt = self.visit(node.target.value)
            idx = self._slice(self.visit(node.target.slice))
            return ast.Expr(_call('aug', [tgt, idx, ast.Constant(type(node.op).__name__), value]))
        self.generic_visit(node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            # operands are evaluated left to right: x first
            r = _call('contains_', [node.left, node.comparators[0]])
            if isinstance(node.ops[0], ast.NotIn):
                r = _call('not_op', [r])
            return r
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return _call('not_op', [node.operand])
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        elts = []
        for k, v in zip(node.keys, node.values):
            elts.append(ast.Tuple(elts=[_a('STAR') if k is None else k, v], ctx=ast.Load()))
        return _call('mkdict', [ast.Tuple(elts=elts, ctx=ast.Load())])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return _call('mkdict', [gen])

    def visit_Set(self, node):
        self.generic_visit(node)
        return _call('mkset', [ast.Tuple(elts=node.elts, ctx=ast.Load())])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return _call('mkset', [ast.GeneratorExp(elt=node.elt, generators=node.generators)])

    def visit_JoinedStr(self, node):
        return self._joined(node)

    def _joined(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant('')
                if v.format_spec is not None:
                    fs = v.format_spec
                    if all(isinstance(x, ast.Constant) for x in fs.values):
                        spec = ast.Constant(''.join(x.value for x in fs.values))
                    else:
                        spec = self._joined(fs)
                conv = ast.Constant(None if v.conversion == -1 else chr(v.conversion))
                parts.append(ast.Tuple(elts=[self.visit(v.value), conv, spec], ctx=ast.Load()))
        return _call('fstr', parts)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _call('binmod', [node.left, node.right])
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        exc = ast.Name(id='Exception', ctx=ast.Load())
        if node.type is None:
            node.type = exc
        elif isinstance(node.type, ast.Name) and node.type.id == 'BaseException':
            node.type = exc
        return node

    def visit_match_case(self, node):
        if node.guard:
            node.guard = self.visit(node.guard)
        node.body = [self.visit(s) for s in node.body]
        return node


class S:
    """namespace visible to instrumented code"""
    call = staticmethod(rt.call)
    getitem = staticmethod(rt.getitem)
    slice = slice
    aug = staticmethod(rt.aug)
    contains_ = staticmethod(lambda x, c: rt.contains(c, x))
    not_op = staticmethod(rt.not_op)
    mkdict = staticmethod(rt.mkdict)
    mkset = staticmethod(rt.mkset)
    fstr = staticmethod(rt.fstr)
    binmod = staticmethod(rt.binmod)
    enter = staticmethod(rt.enter)
    STAR = rt.STAR


def instrument(source, filename, modname):
    tree = ast.parse(source, filename)
    # f-strings inside "from __future__" etc. do not occur; keep future imports first
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


class Loader(importlib.abc.Loader):
    def __init__(self, path, name):
        self.path, self.name = path, name

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf8') as f:
            src = f.read()
        module.__dict__[NAME] = S
        code = instrument(src, self.path, self.name)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """prefix -> directory containing the top-level package or module"""

    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        root = self.roots.get(top)
        if root is None:
            return None
        base = os.path.join(root, *fullname.split('.'))
        for p, pkg in ((os.path.join(base, '__init__.py'), True), (base + '.py', False)):
            if os.path.isfile(p):
                spec = importlib.util.spec_from_file_location(
                    fullname, p, loader=Loader(p, fullname),
                    submodule_search_locations=[base] if pkg else None)
                return spec
        return None


def install(roots):
    sys.meta_path.insert(0, Finder(roots))
