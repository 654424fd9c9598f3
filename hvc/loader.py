"""Loads the package under verification from source: once symbolically (numpy etc. redirected), once for real."""
import ast
import builtins
import functools
import importlib
import importlib.util
import os
import sys
import types
from .term import T, B, Unsupported, coerce, power, const, ufun
from . import arr as A
from . import npshim

REPO = os.environ.get("HVC_REPO", "/repo")
SRC = os.path.join(REPO, "src", "hyperelastic")
SAFE = {"functools", "itertools", "typing", "warnings", "collections", "collections.abc", "copy", "operator", "abc",
        "dataclasses", "string", "__future__", "contextlib", "inspect", "enum", "types", "weakref", "numbers", "numpy.typing"}


class _MathShim(types.ModuleType):
    def __getattr__(self, n):
        import math
        real = getattr(math, n)
        if not callable(real):
            return real

        def f(*a):
            if any(isinstance(x, (T, A.Arr)) for x in a):
                if n == "sqrt":
                    return npshim.numpy.sqrt(a[0])
                if n in ("exp", "log", "sin", "cos"):
                    return getattr(npshim.numpy, n)(a[0])
                if n in ("isclose",):
                    return A.isclose(a[0], a[1], 1e-9, 0.0)
                raise Unsupported("math." + n)
            if n == "sqrt":
                return npshim.numpy.sqrt(a[0])
            return real(*a)
        return f


class Missing(types.ModuleType):
    """an import outside of the modelled world: usable only until it is called or computed with"""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        m = Missing(self.__name__ + "." + n)
        self.__dict__[n] = m
        return m

    def _no(self, *a, **k):
        raise Unsupported(self.__name__ + " is outside of the modelled world")

    __call__ = __bool__ = __iter__ = __len__ = __getitem__ = __add__ = __radd__ = __mul__ = __rmul__ = __enter__ = _no


class SymPackage:
    """`import hyperelastic` with the symbolic numpy"""

    def __init__(self, alias="hvcsym", shims=None, transform=None):
        self.alias = alias
        self.modules = {}
        self.transform = transform
        einsumt = types.ModuleType("einsumt")
        einsumt.einsumt = A.einsum
        einsumt.einsum = A.einsum
        einsumt.bench_einsumt = None
        self.shims = {"numpy": npshim.numpy, "numpy.linalg": npshim.numpy.linalg, "einsumt": einsumt, "math": _MathShim("math")}
        self.shims.update(shims or {})
        bd = dict(builtins.__dict__)
        bd["__import__"] = self._import
        bd["len"] = A.slen
        bd["isinstance"] = self._isinstance
        if transform is not None:
            from . import seq
            bd.update(seq.BUILTINS)
        self.builtins = bd
        self.top = self.load("hyperelastic")

    @staticmethod
    def _isinstance(x, c):
        cs = c if isinstance(c, tuple) else (c,)
        if isinstance(x, T):
            import numpy
            if any(k in (float, numpy.float64, numpy.floating, numpy.number, numpy.generic) for k in cs):
                return True
            if any(k in (int, numpy.ndarray, npshim.ndarray) for k in cs) or all(isinstance(k, type) and k in (list, tuple, str, dict, bool, numpy.integer) for k in cs):
                return False
            if any(k is T for k in cs):
                return True
            import numbers
            return any(k in (numbers.Number, numbers.Real) for k in cs)
        return isinstance(x, c)

    def path(self, name):
        rel = name.split(".")[1:]
        p = os.path.join(SRC, *rel)
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None, False

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        f, ispkg = self.path(name)
        if f is None or not os.path.exists(f):
            raise ModuleNotFoundError(f"No module named {name!r}")
        m = types.ModuleType(name.replace("hyperelastic", self.alias, 1))
        m.__dict__["__builtins__"] = self.builtins
        m.__file__ = f
        m.__package__ = m.__name__ if ispkg else m.__name__.rpartition(".")[0]
        if ispkg:
            m.__path__ = []
        self.modules[name] = m
        with open(f, encoding="utf-8") as h:
            src = h.read()
        tree = ast.parse(src, f)
        if self.transform:
            tree = self.transform(tree)
        try:
            exec(compile(tree, f, "exec", dont_inherit=True), m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if "." in name:
            parent, _, child = name.rpartition(".")
            if parent in self.modules:
                setattr(self.modules[parent], child, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].replace(self.alias, "hyperelastic", 1).split(".")
            base = pkg[: len(pkg) - (level - 1)]
            full = ".".join(base + ([name] if name else []))
            return self._fromlist(full, fromlist)
        if name == "hyperelastic" or name.startswith("hyperelastic."):
            m = self._fromlist(name, fromlist)
            return m if fromlist else self.load("hyperelastic")
        if name in self.shims and (fromlist or "." not in name):
            return self.shims[name]
        head = name.split(".")[0]
        if head in self.shims and not fromlist:
            return self.shims[head]
        if name in SAFE:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        return Missing(name if fromlist else head)

    def _fromlist(self, full, fromlist):
        # make sure that parents are initialised first (as the import system does)
        parts = full.split(".")
        for i in range(1, len(parts)):
            p = ".".join(parts[:i])
            if p not in self.modules:
                self.load(p)
        m = self.load(full)
        for n in fromlist or ():
            if n != "*" and not hasattr(m, n):
                f, _ = self.path(full + "." + n)
                if f:
                    setattr(m, n, self.load(full + "." + n))
        return m

    def __getattr__(self, n):
        return getattr(self.top, n)

    def find(self, dotted):
        """'math._voigt.inv' / 'spaces._space.Space.piola' -> (owner, name, object)"""
        parts = dotted.split(".")
        for k in range(len(parts) - 1, 0, -1):
            mod = "hyperelastic." + ".".join(parts[:k])
            f, _ = self.path(mod)
            if f:
                o = self.load(mod)
                owner = None
                for p in parts[k:]:
                    owner, o = o, getattr(o, p)
                return owner, parts[-1], o
        raise AttributeError(dotted)

    def rebind(self, old, new):
        """replace a function object by a stub in every module namespace; returns an undo list"""
        undo = []
        for m in self.modules.values():
            for k, v in list(m.__dict__.items()):
                if v is old:
                    m.__dict__[k] = new
                    undo.append((m, k, old))
        return undo


class ModuleState:
    """the module-level state of the symbolic package: no execution may change it (the proofs start from the state after import)"""

    def __init__(self, pkg):
        self.pkg, self.keep = pkg, []
        self.modules = dict(pkg.modules)
        self.first = {n: self.of(m) for n, m in self.modules.items()}

    def of(self, m):
        seen = {}
        mine = {id(x.__dict__) for x in self.pkg.modules.values()}

        def fp(o, depth=0):
            if o is None or isinstance(o, (bool, int, float, str, bytes, types.ModuleType)):
                return repr(o) if not isinstance(o, types.ModuleType) else id(o)
            self.keep.append(o)
            if id(o) in seen or depth > 12:
                return id(o)
            seen[id(o)] = True
            f = lambda x: fp(x, depth + 1)
            if isinstance(o, types.FunctionType):
                if id(o.__globals__) not in mine:
                    return id(o)
                cells = []
                for c in o.__closure__ or ():
                    try:
                        cells.append(f(c.cell_contents))
                    except ValueError:
                        cells.append(None)
                return id(o), f(o.__dict__), f(o.__defaults__), f(o.__kwdefaults__), cells
            if isinstance(o, functools._lru_cache_wrapper):
                i = o.cache_info()
                return id(o), i.hits, i.misses, i.currsize
            if isinstance(o, (staticmethod, classmethod)):
                return id(o), f(o.__func__)
            if isinstance(o, functools.partial):
                return id(o), f(o.func), f(o.args), f(o.keywords)
            if isinstance(o, dict):
                return id(o), [(fp(k, depth + 1), f(v)) for k, v in o.items()]
            if isinstance(o, (list, tuple)):
                return id(o), [f(v) for v in o]
            if isinstance(o, (set, frozenset)):
                return id(o), sorted(map(repr, o))
            if isinstance(o, A.Arr):
                self.keep.extend(o.a.reshape(-1).tolist() if o.a.dtype == object else [])
                return id(o), [id(x) for x in o.a.reshape(-1)] if o.a.dtype == object else o.a.tobytes()
            if isinstance(o, type):
                if not str(o.__module__).startswith(self.pkg.alias):
                    return id(o)
                return id(o), [(k, f(v)) for k, v in vars(o).items() if k not in ("__dict__", "__weakref__", "__doc__")]
            if type(o).__module__ == "numpy" and hasattr(o, "tobytes"):
                return id(o), o.tobytes() if o.dtype != object else [f(x) for x in o.reshape(-1)]
            if str(type(o).__module__).startswith(self.pkg.alias) or type(o).__module__ in ("collections", "weakref", "types"):
                try:
                    items = list(o.items()) if hasattr(o, "items") else list(o) if hasattr(o, "__iter__") else []
                except TypeError:
                    items = []
                return id(o), f(getattr(o, "__dict__", None)), [f(x) for x in items]
            return id(o)
        return {k: fp(v) for k, v in m.__dict__.items() if not (k.startswith("__") and k.endswith("__")) and not isinstance(v, types.ModuleType)}

    def changed(self):
        for n, m in self.modules.items():
            now = self.of(m)
            old = self.first[n]
            for k in set(now) | set(old):
                if now.get(k, self) != old.get(k, self) and self.pkg.modules.get(n) is m:
                    return f"{n}.{k}"
        return None


class Pristine:
    """the package as after its first import, in place of the present one (for reference values which are independent of all former calls)"""
    code = {}

    def __enter__(self):
        self.old = {k: m for k, m in sys.modules.items() if k == "hyperelastic" or k.startswith("hyperelastic.")}
        for k in self.old:
            del sys.modules[k]
        sys.meta_path.insert(0, self)
        return importlib.import_module("hyperelastic")

    def __exit__(self, *a):
        sys.meta_path.remove(self)
        for k in [k for k in sys.modules if k == "hyperelastic" or k.startswith("hyperelastic.")]:
            del sys.modules[k]
        sys.modules.update(self.old)

    # modules are compiled once
    def find_spec(self, name, path=None, target=None):
        if name != "hyperelastic" and not name.startswith("hyperelastic."):
            return None
        p = os.path.join(SRC, *name.split(".")[1:])
        f, pk = (os.path.join(p, "__init__.py"), True) if os.path.isdir(p) else (p + ".py", False)
        if not os.path.exists(f):
            return None
        return importlib.util.spec_from_file_location(name, f, loader=self, submodule_search_locations=[p] if pk else None)

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        f = m.__spec__.origin
        if f not in self.code:
            with open(f, encoding="utf-8") as h:
                self.code[f] = compile(h.read(), f, "exec", dont_inherit=True)
        exec(self.code[f], m.__dict__)


def load_real():
    """the real package from the working tree"""
    src = os.path.join(REPO, "src")
    for k in [k for k in sys.modules if k == "hyperelastic" or k.startswith("hyperelastic.")]:
        del sys.modules[k]
    if sys.path[0] != src:
        sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    m = importlib.import_module("hyperelastic")
    assert os.path.abspath(m.__file__).startswith(os.path.abspath(src)), m.__file__
    return m
