"""Import hook: loads /repo's Python packages with numpy/math/interpolation replaced by symbolic-capable twins.

The source is read from /repo's working tree on every run and only *names of library entry points* are redirected;
every statement of the code under test is executed as written.
"""

from __future__ import annotations

import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

SRC = os.environ.get("ECALC_SRC", "/repo/src")
PKGS = ("libecalc", "ecalc_cli", "ecalc_neqsim_wrapper")
MODMAP = {
    "numpy": "engine.shims.np_shim",
    "math": "engine.shims.math_shim",
    "scipy.interpolate": "engine.shims.scipy_interpolate",
    "scipy.optimize": "engine.shims.scipy_optimize",
    "decimal": "engine.shims.decimal_shim",
    "orjson": "engine.shims.orjson_shim",
    "pandas": "engine.shims.pd_shim",
    "shapely.geometry": "engine.shims.shapely_geometry",
    "shapely": "engine.shims.shapely_geometry",
}
CALLS = {"float", "int", "bool", "round", "max", "min", "sum", "sorted", "isinstance"}
HELPERS = "__verif_helpers__"


class _Tx(ast.NodeTransformer):
    def __init__(self, skip):
        self.skip = skip

    def visit_Import(self, node):
        out = []
        for a in node.names:
            if a.name in MODMAP:
                if a.asname is None and "." in a.name:
                    out.append(ast.Import(names=[a]))
                    continue
                out.append(ast.Import(names=[ast.alias(name=MODMAP[a.name], asname=a.asname or a.name)]))
            else:
                out.append(ast.Import(names=[a]))
        return [ast.copy_location(n, node) for n in out]

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module in MODMAP:
            node.module = MODMAP[node.module]
        elif node.level == 0 and node.module == "scipy":
            keep = [a for a in node.names if a.name != "interpolate"]
            inter = [a for a in node.names if a.name == "interpolate"]
            if inter:
                out = [ast.Import(names=[ast.alias(name=MODMAP["scipy.interpolate"], asname=inter[0].asname or "interpolate")])]
                if keep:
                    out.append(ast.ImportFrom(module="scipy", names=keep, level=0))
                return [ast.copy_location(n, node) for n in out]
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in CALLS and f.id not in self.skip:
            node.func = ast.copy_location(
                ast.Attribute(value=ast.Name(id=HELPERS, ctx=ast.Load()), attr=f.id + "_", ctx=ast.Load()), f
            )
        elif isinstance(f, ast.Attribute) and f.attr == "float64" and isinstance(f.value, ast.Name) and f.value.id in ("np", "numpy"):
            node.func = ast.copy_location(
                ast.Attribute(value=ast.Name(id=HELPERS, ctx=ast.Load()), attr="float64_", ctx=ast.Load()), f
            )
        elif isinstance(f, ast.Name) and f.id == "map" and node.args and isinstance(node.args[0], ast.Name) and node.args[0].id in CALLS and node.args[0].id not in self.skip:
            node.args[0] = ast.copy_location(
                ast.Attribute(value=ast.Name(id=HELPERS, ctx=ast.Load()), attr=node.args[0].id + "_", ctx=ast.Load()), node.args[0]
            )
        return node


def _bound_names(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            pass
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
    return out


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as fh:
            src = fh.read()
        tree = ast.parse(src, path)
        tree = _Tx(_bound_names(tree)).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        from engine import helpers

        module.__dict__[HELPERS] = helpers
        super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname.split(".")[0] not in PKGS:
            return None
        if "." not in fullname:
            path = [SRC]
        for entry in path or [SRC]:
            base = os.path.join(entry, fullname.rsplit(".", 1)[-1])
            init = os.path.join(base, "__init__.py")
            if os.path.isfile(init):
                return importlib.util.spec_from_file_location(
                    fullname, init, loader=_Loader(fullname, init), submodule_search_locations=[base]
                )
            f = base + ".py"
            if os.path.isfile(f):
                return importlib.util.spec_from_file_location(fullname, f, loader=_Loader(fullname, f))
            if os.path.isdir(base):
                spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
                spec.submodule_search_locations = [base]
                return spec
        return None


def patch_pydantic():
    from pydantic_core import core_schema as cs

    from engine import sym as S
    from engine.symtime import SymDT

    def passthru(orig, types):
        def f(*a, **k):
            inner = orig(*a, **k)
            strict_inner = inner

            def wrap(v, handler):
                if type(v) in types:
                    return S.cast_like(v, inner["type"])
                return handler(v)

            return cs.no_info_wrap_validator_function(wrap, strict_inner, serialization=None)

        return f

    num = (S.SymReal, S.SymBool)
    cs.float_schema = passthru(cs.float_schema, num)
    cs.int_schema = passthru(cs.int_schema, num)
    cs.bool_schema = passthru(cs.bool_schema, num)
    cs.datetime_schema = passthru(cs.datetime_schema, (SymDT,))


def install():
    for name in list(sys.modules):
        if name.split(".")[0] in PKGS:
            raise RuntimeError(f"{name} already imported")
    sys.meta_path.insert(0, _Finder())
    patch_pydantic()
