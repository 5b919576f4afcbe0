"""Loads /repo's modules twice: 'symbolic' (numpy/math/matplotlib replaced,
builtins float/int/round/print replaced) and 'real' (ordinary import)."""
import ast
import builtins
import importlib
import io
import os
import sys
import types

import numpy as np

from . import mplshim, npshim, scishim, strs

REPO = os.environ.get("VERIF_REPO", "/repo")


class Stub(types.ModuleType):
    """absorbing stand-in for plotting libraries"""
    __path__ = []

    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        v = type(k, (), {"__init__": lambda self, *a, **kw: self.__dict__.update(args=a, kw=kw)})
        setattr(self, k, v)
        return v


_codes = {}


class _Mod(ast.NodeTransformer):
    """a % b -> __symx_mod__(a, b), so that '%' formatting of symbolic numbers can be followed"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.copy_location(ast.Name("__symx_mod__", ast.Load()), n),
                                              [n.left, n.right], []), n)
        return n


def _compile(path, sym=False):
    """code of a source file as it is now (compiled once per process)"""
    if sym and (path, 1) not in _codes:
        import warnings
        with open(path, "rb") as fh:
            src = fh.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.fix_missing_locations(_Mod().visit(ast.parse(src, path)))
            _codes[path, 1] = compile(tree, path, "exec", dont_inherit=True)
    if sym:
        return _codes[path, 1]
    if path not in _codes:
        import warnings
        with open(path, "rb") as fh:
            src = fh.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _codes[path] = compile(src, path, "exec", dont_inherit=True)
    return _codes[path]


def _print(*a, **k):
    """what is printed is not modelled, only that something is: a recording stdout gets a dot"""
    if isinstance(sys.stdout, io.StringIO) and k.get("file") is None:
        sys.stdout.write(".")


class SymSpace:
    """one symbolic instance of the repo's modules"""
    sym = True

    def __init__(self, repo=REPO):
        self.repo = repo
        self.mods = {}
        self.np = npshim.make_numpy()
        self.math = npshim.make_math()
        self.stubs = {}
        self.printed = []
        b = dict(vars(builtins))
        b["__import__"] = self._import
        b["float"] = npshim.SymFloat
        b["int"] = npshim.SymInt
        b["round"] = npshim.sym_round
        b["__symx_mod__"] = npshim.sym_mod
        b["print"] = _print
        self.builtins = b
        self.override = {"numpy": self.np, "math": self.math}
        self.override.update(scishim.make())
        self._files()

    def _files(self):
        self.box = {}
        o, p = strs.make_os(self.box)
        self.override.update({"os": o, "os.path": p})
        self.override.update({n: strs.Refuse(n, self.box) for n in ("glob", "pathlib", "shutil", "fnmatch")})

    def _find(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        if os.path.isdir(p) and (any(f.endswith(".py") for f in os.listdir(p))):
            i = os.path.join(p, "__init__.py")
            return (i if os.path.exists(i) else None), True
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
        f = self._find(name)
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        path, pkg = f
        if pkg:
            m.__path__ = [os.path.join(self.repo, *name.split("."))]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition(".")[0]
        if path:
            m.__file__ = path
            exec(_compile(path, self.sym), m.__dict__)
        if "." in name:
            par, _, last = name.rpartition(".")
            setattr(self.mods[par], last, m)
        return m

    def _stub(self, n):
        if n not in self.stubs:
            self.stubs[n] = Stub(n)
            self.stubs[n].__dict__.update(mplshim.MODULES.get(n, {}))
            if "." in n:
                p, _, l = n.rpartition(".")
                setattr(self.stubs[p], l, self.stubs[n])

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__", "")
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = (pkg + "." + name).strip(".") if name else pkg
        if name in self.override:
            return self.override[name if fromlist else name.split(".")[0]]
        top = name.split(".")[0]
        if top == "numpy":
            m = self.np
            if fromlist:
                for part in name.split(".")[1:]:
                    m = getattr(m, part)
            return m
        if top in ("matplotlib", "mpl_toolkits", "pylab"):
            for i in range(1, len(name.split(".")) + 1):
                n = ".".join(name.split(".")[:i])
                self._stub(n)
            if fromlist:
                for f in fromlist:
                    n = name + "." + f
                    if f[:1].islower() and f not in self.stubs[name].__dict__:
                        self._stub(n)
                return self.stubs[name]
            return self.stubs[top]
        if self._find(name) is not None:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self._find(name + "." + f):
                        self.load(name + "." + f)
                return m
            return self.mods[top]
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def names(self):
        return Mods(self.load("general"), self.load("general_optics"), self.load("Shapes.shapes"),
                    self.load("optics3d"), self.np, self)


class Mods:
    def __init__(self, general, general_optics, shapes, optics3d, np_, space=None):
        self.general, self.general_optics, self.shapes, self.optics3d = general, general_optics, shapes, optics3d
        self.np = np_
        self.space = space
        self.box = space.box if space is not None else None
        self.sym = space is not None


class RealSpace(SymSpace):
    """the repo's modules, freshly executed with the ordinary builtins and numpy"""
    sym = False

    def __init__(self, repo=REPO):
        os.environ.setdefault("MPLBACKEND", "Agg")
        self.repo = repo
        self.mods = {}
        b = dict(vars(builtins))
        b["__import__"] = self._import
        self.builtins = b
        self.np = np
        self.override = {}
        self._files()

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__", "")
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = (pkg + "." + name).strip(".") if name else pkg
        if name in self.override:
            return self.override[name if fromlist else name.split(".")[0]]
        if self._find(name) is not None:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self._find(name + "." + f):
                        self.load(name + "." + f)
                return m
            return self.mods[name.split(".")[0]]
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def names(self):
        m = super().names()
        m.space = None
        m.box = self.box
        m.sym = False
        return m


def fresh_real_mods(repo=REPO):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return RealSpace(repo).names()
