"""Loads causalnex from /repo's working tree, freshly for every simulated run.

* sources are read and compiled once per process, executed anew per run, so no
  module-level state leaks from one run to the next;
* set displays / ``set(...)`` calls become SimSet (iteration order is a seam);
* ``import random / threading / time`` inside causalnex resolve to the
  simulator's versions.
Nothing is written to /repo.
"""
import ast
import builtins
import importlib
import importlib.abc
import importlib.machinery
import os
import sys
import types

from . import simset

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "causalnex")
_code_cache = {}
PROXIES = {}     # module name -> object seen by causalnex code
STUB_MODULES = {}  # name -> factory() (third-party packages absent here)


class _SetRewriter(ast.NodeTransformer):
    def _name(self, node):
        return ast.copy_location(ast.Name("__SimSet__", ast.Load()), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(self._name(node), [ast.copy_location(ast.List(node.elts, ast.Load()), node)], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(self._name(node), [ast.copy_location(ast.ListComp(node.elt, node.generators), node)], []), node)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ("isinstance", "issubclass") and len(node.args) == 2:
            node.args[0] = self.visit(node.args[0])
            return node
        self.generic_visit(node)
        return node

    def visit_Name(self, node):
        if node.id == "set" and isinstance(node.ctx, ast.Load):
            return self._name(node)
        return node

    def visit_FunctionDef(self, node):
        # leave annotations alone
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        node.body = [self.visit(s) for s in node.body]
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


def _compile(path):
    code = _code_cache.get(path)
    if code is None:
        with open(path, "rb") as f:
            src = f.read()
        tree = ast.parse(src, path)
        stores = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        if "set" not in stores:
            tree = _SetRewriter().visit(tree)
            ast.fix_missing_locations(tree)
        code = _code_cache[path] = compile(tree, path, "exec", dont_inherit=True)
    return code


def _sim_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in PROXIES:
        return PROXIES[name]
    return builtins.__import__(name, globals, locals, fromlist, level)


class _Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__file__ = self.path
        b = dict(vars(builtins))
        b["__import__"] = _sim_import
        module.__dict__["__builtins__"] = b
        module.__dict__["__SimSet__"] = simset.SimSet
        exec(_compile(self.path), module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name in STUB_MODULES:
            return importlib.machinery.ModuleSpec(name, _StubLoader(STUB_MODULES[name]), is_package=True)
        if name != "causalnex" and not name.startswith("causalnex."):
            return None
        parts = name.split(".")[1:]
        base = os.path.join(PKG, *parts)
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            spec = importlib.machinery.ModuleSpec(name, _Loader(init, True), origin=init, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.isfile(base + ".py"):
            return importlib.machinery.ModuleSpec(name, _Loader(base + ".py", False), origin=base + ".py")
        return None


class _StubLoader(importlib.abc.Loader):
    def __init__(self, factory):
        self.factory = factory

    def create_module(self, spec):
        m = types.ModuleType(spec.name)
        m.__path__ = []
        return m

    def exec_module(self, module):
        self.factory(module)


_finder = _Finder()


def install():
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)
    sys.dont_write_bytecode = True


KEEP = False     # a second history in the same simulated process: the modules stay as the first one left them


def fresh(*names, anew=False):
    """Drop every causalnex module (unless kept) and import ``names`` anew; returns the modules."""
    for m in [] if KEEP and not anew else [m for m in sys.modules if m == "causalnex" or m.startswith("causalnex.")]:
        del sys.modules[m]
    out = [importlib.import_module(n) for n in names]
    return out[0] if len(out) == 1 else out


def is_sut(filename):
    return filename.startswith(PKG)
