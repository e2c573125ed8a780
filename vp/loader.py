"""Loads the unmodified opinf sources from /repo with the verification namespace.

What the mechanical extraction changes, and nothing else:
 * `import numpy`, `import scipy...`, `import h5py`, ... inside opinf give the
   shims of shim.py / assumed.py;
 * calls to a few builtins (len, range, isinstance, int, float, sum, ...) go to
   versions that also understand symbolic arguments;
 * list comprehensions  [e for x in it]  become  listcomp(lambda x: e, it)  so
   that they may range over a symbolic number of items;
 * beside each `for` loop stands a copy of its body as a local function, which
   loops.py uses instead of the loop if the iterable has symbolic length.
Everything else is the code of /repo, compiled by CPython and executed.
"""
import ast
import builtins
import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")

SHIMMED = ("numpy", "scipy", "h5py", "sklearn", "matplotlib")


class Rewrite(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names
        self.nfor = 0
        self.func = []

    def visit_FunctionDef(self, n):
        self.func.append((n.name, True))
        self.generic_visit(n)
        self.func.pop()
        return n

    def visit_ClassDef(self, n):
        self.func.append((n.name, False))
        self.generic_visit(n)
        self.func.pop()
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in self.names:
            n.func = ast.copy_location(ast.Name(f"__vp_{n.func.id}__", ast.Load()), n.func)
        return n

    def visit_ListComp(self, n):
        return self._comp(n, "__vp_listcomp__")

    def visit_GeneratorExp(self, n):
        return self._comp(n, "__vp_genexp__")

    def _comp(self, n, fn):
        self.generic_visit(n)
        if len(n.generators) != 1:
            return n
        g = n.generators[0]
        if g.ifs or g.is_async:
            return n
        if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(n)):
            return n
        t = g.target
        mkargs = lambda names: ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in names], kwonlyargs=[],
                                             kw_defaults=[], defaults=[])
        if isinstance(t, ast.Name):
            lam = ast.Lambda(mkargs([t.id]), n.elt)
        elif isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts):
            inner = ast.Lambda(mkargs([e.id for e in t.elts]), n.elt)
            lam = ast.Lambda(mkargs(["__t__"]), ast.Call(inner, [ast.Starred(ast.Name("__t__", ast.Load()), ast.Load())], []))
        else:
            return n
        new = ast.Call(ast.Name(fn, ast.Load()), [lam, g.iter], [])
        return ast.fix_missing_locations(ast.copy_location(new, n))

    def visit_For(self, n):
        from . import loops
        info = loops.scan(n)
        self.generic_visit(n)
        return loops.rewrite_for(n, self.func, info)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self):
        self.files = {}

    def find_spec(self, name, path=None, target=None):
        if name != "opinf" and not name.startswith("opinf."):
            return None
        base = os.path.join(SRC, *name.split("."))
        if os.path.isdir(base):
            f = os.path.join(base, "__init__.py")
            spec = importlib.util.spec_from_loader(name, self, origin=f, is_package=True)
            spec.submodule_search_locations = [base]
        else:
            f = base + ".py"
            if not os.path.isfile(f):
                return None
            spec = importlib.util.spec_from_loader(name, self, origin=f)
        self.files[name] = f
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import shim, loops
        f = self.files[module.__name__]
        with open(f) as h:
            src = h.read()
        tree = ast.parse(src, f)
        tree = Rewrite(set(shim.CALLS)).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, f, "exec")
        module.__file__ = f
        g = module.__dict__
        b = dict(builtins.__dict__)
        b["__import__"] = shim_import
        for k, v in shim.CALLS.items():
            b[f"__vp_{k}__"] = v
        b["__vp_listcomp__"] = shim.v_listcomp
        b["__vp_genexp__"] = shim.v_genexp
        b["__vp_loops__"] = loops
        g["__builtins__"] = b
        exec(code, g)


_imp = builtins.__import__


def shim_import(name, globals=None, locals=None, fromlist=(), level=0):
    m = _imp(name, globals, locals, fromlist, level)
    if level == 0 and name.split(".")[0] in SHIMMED:
        from . import assumed
        if fromlist:
            return assumed.module(name) or m
        return assumed.module(name.split(".")[0]) or m
    if level == 0 and name in ("copy", "os", "warnings", "time"):
        from . import assumed
        return assumed.module(name) or m
    return m


def install():
    sys.meta_path.insert(0, Finder())
