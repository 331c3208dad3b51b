"""Loads Python source so that it runs on symbolic values.

The source is read from disk on every run; the only rewriting is: non-slice
subscript loads go through sx_get, bytes literals become SymBytes, and while
loops count iterations.  The builtins bytes/bytearray/int/... and the modules
os/struct/hmac/binascii/secrets are replaced by the shadows of values.py and
shims.py.  Everything else is executed by CPython as written.
"""
from __future__ import annotations

import ast
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import core
from . import values
from .values import sx_get, sx_bytes, sx_bool

TICK_LIMIT = 400000


def sx_tick():
    p = core.PATH
    p.ticks += 1
    if p.ticks > TICK_LIMIT:
        raise core.Hang('loop iteration limit')
    return True


class _Tr(ast.NodeTransformer):
    def __init__(self):
        self.in_ann = 0

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        node.body = [self.visit(s) for s in node.body]
        flat = []
        for s in node.body:
            if isinstance(s, list):
                flat.extend(s)
            elif s is not None:
                flat.append(s)
        node.body = flat
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            return ast.copy_location(
                ast.Call(func=ast.Name(id='__sx_get__', ctx=ast.Load()),
                         args=[node.value, node.slice], keywords=[]), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == 'get' and node.args:
            return ast.copy_location(
                ast.Call(func=ast.Name(id='__sx_dget__', ctx=ast.Load()),
                         args=[node.func.value] + node.args, keywords=node.keywords), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = ast.Call(func=ast.Name(id='__sx_in__', ctx=ast.Load()),
                         args=[node.left, node.comparators[0]], keywords=[])
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return ast.copy_location(r, node)
        return node

    def visit_Constant(self, node):
        if isinstance(node.value, bytes):
            return ast.copy_location(
                ast.Call(func=ast.Name(id='__sx_bytes__', ctx=ast.Load()),
                         args=[node], keywords=[]), node)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_Match(self, node):
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        tick = ast.Expr(ast.Call(func=ast.Name(id='__sx_tick__', ctx=ast.Load()),
                                 args=[], keywords=[]))
        ast.copy_location(tick, node)
        node.body.insert(0, tick)
        return node


def _importer_for():
    import builtins
    from .shims import make_shims
    shims = make_shims()

    def importer(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name in shims:
            return shims[name]
        return builtins.__import__(name, globals, locals, fromlist, level)
    return importer


_BUILTINS = None


def get_builtins():
    global _BUILTINS
    if _BUILTINS is None:
        _BUILTINS = values.shadow_builtins(_importer_for())
        _BUILTINS['__sx_get__'] = sx_get
        _BUILTINS['__sx_bytes__'] = sx_bytes
        _BUILTINS['__sx_tick__'] = sx_tick
        _BUILTINS['__sx_dget__'] = values.sx_dget
        _BUILTINS['__sx_in__'] = values.sx_in
    return _BUILTINS


def transform(source, filename):
    tree = ast.parse(source, filename)
    tree = _Tr().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


LOADED = {}


class SymLoader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as fh:
            source = fh.read()
        LOADED[module.__name__] = self.path
        code = transform(source, self.path)
        module.__dict__['__builtins__'] = get_builtins()
        exec(code, module.__dict__)


class SymFinder(importlib.abc.MetaPathFinder):
    """Finds the given top-level packages below root and loads them transformed."""

    def __init__(self, roots):
        self.roots = roots      # package name -> directory containing it

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        root = self.roots.get(top)
        if root is None:
            return None
        rel = os.path.join(root, *fullname.split('.'))
        if os.path.isdir(rel) and os.path.isfile(os.path.join(rel, '__init__.py')):
            file = os.path.join(rel, '__init__.py')
            return importlib.util.spec_from_loader(
                fullname, SymLoader(file), origin=file, is_package=True)
        file = rel + '.py'
        if os.path.isfile(file):
            return importlib.util.spec_from_loader(fullname, SymLoader(file), origin=file)
        return None


def install(roots):
    fnd = SymFinder(roots)
    sys.meta_path.insert(0, fnd)
    return fnd


def spec_submodule_search(module, path):
    module.__path__ = [path]
