"""Import improver where iris and friends are not installed: absent third-party modules
are replaced by empty stand-ins; attributes of those are dummy classes."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

ABSENT = ("iris", "cartopy", "stratify", "statsmodels", "pysteps", "treelite_runtime", "tl2cgen", "lightgbm", "numba", "sphinx", "pytz", "timezonefinder", "astropy", "bottleneck", "pandas")


class Dummy(type):
    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return make(name)


def make(name):
    return Dummy(name, (), {"__init__": lambda self, *a, **k: None})


class Stub(types.ModuleType):
    __path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        full = self.__name__ + "." + name
        if full in sys.modules:
            return sys.modules[full]
        if name in ("jit", "njit", "vectorize", "guvectorize"):
            return lambda *a, **k: a[0] if len(a) == 1 and callable(a[0]) and not k else (lambda f: f)
        if name == "prange":
            return range
        if name.islower() and name not in ("jit", "njit", "vectorize"):
            m = Stub(full)
            sys.modules[full] = m
            setattr(self, name, m)
            return m
        c = type(name, (Exception,), {}) if name.endswith(("Error", "Warning")) else make(name)
        setattr(self, name, c)
        return c



class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] in MISSING:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        return Stub(spec.name)

    def exec_module(self, module):
        pass


MISSING = [m for m in ABSENT if importlib.util.find_spec(m) is None]
sys.meta_path.insert(0, Finder())
sys.path.insert(0, os.getcwd())
