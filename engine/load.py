"""Imports the real LEGWORK sources from /repo for symbolic execution (patched numerics) or plainly for replay."""
import ast
import builtins
import importlib
import importlib.abc
import importlib.util
import inspect
import os
import sys
import textwrap
import types

REPO = os.environ.get("LEGWORK_REPO", "/repo")
SRC = os.path.join(REPO, "src")
MODULES = ["_version", "_logging", "utils", "strain", "evol", "psd", "snr", "visualisation", "source"]


def plain_import():
    """the unpatched package (replay)"""
    sys.dont_write_bytecode = True
    sys.path.insert(0, SRC)
    import legwork
    assert os.path.realpath(legwork.__file__).startswith(os.path.realpath(SRC)), legwork.__file__
    return legwork


# --------------------------------------------------------------------------------------------------------------
def patch_astropy():
    """let Quantity hold object arrays of symbolic values"""
    import astropy.units.quantity as Q
    import numpy as np
    from .sym import Sym
    src = textwrap.dedent(inspect.getsource(Q.Quantity.__new__))
    a = 'if float_default and value.dtype.kind in "iuO":'
    if a not in src:
        raise RuntimeError("astropy Quantity.__new__ has an unexpected form")
    src = src.replace(a, 'if float_default and (value.dtype.kind in "iu" or (value.dtype.kind == "O" and not _has_sym(value))):')

    def _has_sym(v):
        return any(isinstance(x, Sym) for x in v.flat)
    ns = {}
    g = dict(Q.__dict__)
    g["_has_sym"] = _has_sym
    exec(compile(src, "<astropy Quantity.__new__>", "exec"), g, ns)
    Q.Quantity.__new__ = staticmethod(ns["__new__"])
    import astropy.units.core as core
    real_cond = core._condition_arg

    def _condition_arg(value):
        return value if isinstance(value, Sym) else real_cond(value)
    for m in list(sys.modules.values()):
        if m is not None and getattr(m, "__name__", "").startswith("astropy") and getattr(m, "_condition_arg", None) is real_cond:
            m._condition_arg = _condition_arg
    return Q


class _Rewrite(ast.NodeTransformer):
    """x.astype(t) -> _sx_astype_(x, t): ndarray methods cannot be overridden"""

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == "astype":
            return ast.copy_location(ast.Call(func=ast.Name("_sx_astype_", ast.Load()),
                                              args=[node.func.value] + node.args, keywords=node.keywords), node)
        return node


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name == "legwork" or name.startswith("legwork."):
            rel = name.split(".")
            p = os.path.join(SRC, *rel)
            if os.path.isdir(p):
                f = os.path.join(p, "__init__.py")
                return importlib.util.spec_from_file_location(name, f, loader=self, submodule_search_locations=[p])
            return importlib.util.spec_from_file_location(name, p + ".py", loader=self)
        return None

    def create_module(self, spec):
        return None

    def get_resource_reader(self, name):
        from importlib.readers import FileReader
        p = os.path.join(SRC, *name.split("."))
        return FileReader(types.SimpleNamespace(path=os.path.join(p, "__init__.py") if os.path.isdir(p) else p + ".py"))

    def exec_module(self, module):
        f = module.__spec__.origin
        with open(f) as fh:
            src = fh.read()
        tree = _Rewrite().visit(ast.parse(src, f))
        ast.fix_missing_locations(tree)
        from . import npx
        module.__dict__["_sx_astype_"] = npx.astype
        for k, v in npx.SHADOW.items():
            module.__dict__[k] = v
        SOURCES[module.__name__] = src
        exec(compile(tree, f, "exec"), module.__dict__)


SOURCES = {}


def symbolic_import():
    """the real sources, executed with symbolic numerics"""
    sys.dont_write_bytecode = True
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    patch_astropy()
    sys.meta_path.insert(0, _Finder())
    import legwork
    from . import npx
    for m in MODULES:
        mod = sys.modules.get("legwork." + m)
        if mod is not None:
            npx.instrument(mod)
    return legwork
