"""Import psygnal from /repo/src, rewritten so that proxies reach `is` and lists.

Only two constructs that Python does not let a value overload are rewritten:
  a is b / a is not b      -> __sx_is__(a, b) / __sx_isnot__(a, b)
  [..] / [.. for ..] / list(..)  (containers only) -> __sx_list__(...)
Everything else is compiled from the current source text unchanged.
"""
from __future__ import annotations

import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

SRC = os.environ.get("SYMX_SRC", "/repo/src")


class _Tx(ast.NodeTransformer):
    def __init__(self, lists: bool):
        self.lists = lists

    def _call(self, name, args, node):
        return ast.copy_location(
            ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=[]),
            node,
        )

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            right = node.comparators[0]
            for side in (right, node.left):
                if isinstance(side, ast.Constant) and (
                    side.value is None or side.value is Ellipsis
                ):
                    return node
            name = "__sx_is__" if isinstance(node.ops[0], ast.Is) else "__sx_isnot__"
            return self._call(name, [node.left, right], node)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if self.lists and isinstance(node.ctx, ast.Load):
            return self._call("__sx_list__", [node], node)
        return node

    def visit_ListComp(self, node):
        self.generic_visit(node)
        return self._call("__sx_list__", [node], node) if self.lists else node

    def visit_Call(self, node):
        self.generic_visit(node)
        if (
            self.lists
            and isinstance(node.func, ast.Name)
            and node.func.id == "list"
            and not node.keywords
        ):
            return self._call("__sx_list__", [node], node)
        return node

    def visit_AnnAssign(self, node):
        # leave annotations alone
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def _func(self, node):
        returns, node.returns = node.returns, None
        self.generic_visit(node)
        node.returns = returns
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func


class _Loader(importlib.machinery.SourceFileLoader):
    lists = True

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        data = self.get_data(path)
        return self.source_to_code(data, path)

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = _Tx("containers" in path).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True, optimize=_optimize)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "psygnal" and not fullname.startswith("psygnal."):
            return None
        base = os.path.join(SRC, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname,
                init,
                loader=_Loader(fullname, init),
                submodule_search_locations=[base],
            )
        f = base + ".py"
        if os.path.isfile(f):
            return importlib.util.spec_from_file_location(
                fullname, f, loader=_Loader(fullname, f)
            )
        return None


def install():
    from . import values

    sys.dont_write_bytecode = True
    assert not any(m == "psygnal" or m.startswith("psygnal.") for m in sys.modules)
    builtins.__sx_is__ = values.is_
    builtins.__sx_isnot__ = values.is_not
    builtins.__sx_list__ = values.sxlist
    sys.meta_path.insert(0, _Finder())


def install_plain():
    """Import psygnal from /repo/src exactly as it is."""
    sys.dont_write_bytecode = True
    assert not any(m == "psygnal" or m.startswith("psygnal.") for m in sys.modules)
    sys.path.insert(0, SRC)
