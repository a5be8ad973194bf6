"""Imports modules from source with every call routed through the dispatcher."""
from __future__ import annotations

import ast
import hashlib
import importlib.abc
import importlib.util
import os
import sys

SKIP = {"super", "locals", "vars", "dir", "globals", "eval", "exec", "__rt_call__", "__rt_in__", "__rt_fstr__",
        "overload"}


class Rewriter(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in SKIP:
            return node
        return ast.copy_location(
            ast.Call(func=ast.Name(id="__rt_call__", ctx=ast.Load()), args=[f] + node.args, keywords=node.keywords),
            node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = ast.copy_location(
                ast.Call(func=ast.Name(id="__rt_in__", ctx=ast.Load()), args=[node.left, node.comparators[0]],
                         keywords=[]), node)
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=call), node)
            return call
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                value = self.visit(v.value)
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec else ast.Constant(value="")
                parts.append(ast.Tuple(elts=[value, ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(
            ast.Call(func=ast.Name(id="__rt_fstr__", ctx=ast.Load()), args=parts, keywords=[]), node)

    # annotations are left alone (they are text for typing.get_type_hints)
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_arg(self, node):
        return node

    def _func(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r) if isinstance(r, list) else body.append(r)
        node.body = body
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = _func


def rewrite(source, filename):
    tree = ast.parse(source, filename)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Serves package `binobj` from the repository and harness modules from /verif/harness."""

    def __init__(self, roots):
        self.roots = roots      # top-level name -> directory that contains it
        self.loaded = {}        # module name -> (file, sha256)

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        root = self.roots.get(top)
        if root is None:
            return None
        base = os.path.join(root, *name.split("."))
        for cand, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.isfile(cand):
                return importlib.util.spec_from_file_location(
                    name, cand, loader=self, submodule_search_locations=[base] if pkg else None)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        file = module.__spec__.origin
        with open(file, "rb") as fh:
            src = fh.read()
        self.loaded[module.__name__] = (file, hashlib.sha256(src).hexdigest())
        module.__file__ = file
        exec(rewrite(src.decode("utf-8"), file), module.__dict__)  # noqa: S102

    def get_source(self, name):
        return None


def install(repo="/repo", harness=None):
    from . import models
    models.install()
    roots = {"binobj": repo}
    if harness:
        for f in os.listdir(harness):
            if f.endswith(".py"):
                roots[f[:-3]] = harness
    finder = Finder(roots)
    sys.meta_path.insert(0, finder)
    return finder
