"""Running the real functions of /repo/kerrgeopy on symbolic terms.

The code is not rewritten: the package is imported from /repo's working tree and, while a VC is generated, names in its
module namespaces that denote numpy/scipy/python functions are replaced (by identity of the object) with versions that
also accept symbolic values, and callees with a contract are replaced by that contract.
"""
import importlib
import math
import sys
import types
import numpy as np
from . import terms as T

REPO = "/repo"
MODULES = ["units", "constants", "frequencies", "initial_conditions", "spacetime", "orbit", "stable", "plunge"]


def load():
    """the package modules, imported from /repo's working tree"""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    out = {}
    for m in MODULES:
        out[m] = importlib.import_module("kerrgeopy." + m)
    import kerrgeopy
    if not kerrgeopy.__file__.startswith(REPO + "/"):
        raise RuntimeError("kerrgeopy imported from " + kerrgeopy.__file__)
    out[""] = kerrgeopy
    return out


class Proxy:
    """stands for a module (np, np.linalg, math, scipy.special) whose functions accept symbolic values"""

    def __init__(self, mod, ctx):
        self.__dict__["_mod"], self.__dict__["_ctx"] = mod, ctx

    def __getattr__(self, name):
        v = getattr(self._mod, name)
        return self._ctx.wrap(v)


def _math_fn(name):
    if name == "sqrt":
        return lambda x: T.Sym(T.sqrt(T.as_sym(x)))
    if name == "floor":
        return lambda x: T.Sym(T.fn_floor(T.as_sym(x)))
    if name == "ceil":
        return lambda x: T.Sym(T.neg(T.fn_floor(T.neg(T.as_sym(x)))))
    if name == "copysign":
        return T._copysign
    if name == "fabs":
        return abs
    if name == "pow":
        return lambda x, y: T._lift_sym(x) ** y
    if name == "atan2":
        return T.UFUNCS[np.arctan2]
    if name == "hypot":
        return T.UFUNCS[np.hypot]
    if name == "fmod":
        return None
    m = {"asin": "arcsin", "acos": "arccos", "atan": "arctan"}.get(name, name)
    if m in ("sin", "cos", "tan", "arcsin", "arccos", "arctan", "exp", "log"):
        return lambda x: T.Sym(T.fn(m, T.as_sym(x)))
    if name in ("isnan", "isinf"):
        return lambda x: False
    if name == "isfinite":
        return lambda x: True
    if name == "radians":
        return T._deg2rad
    if name == "degrees":
        return T._rad2deg
    return None


class PolyModel:
    """numpy.polynomial.Polynomial with symbolic coefficients; roots() is answered by the VC's contract"""

    def __init__(self, coef, *a, **k):
        self.coef = list(coef)

    def roots(self):
        h = Patch.current.poly_roots
        if h is None:
            raise T.Unsupported("Polynomial.roots without a contract")
        return h([c if isinstance(c, T.Sym) else T.Sym(T.as_sym(c)) for c in self.coef])

    def __call__(self, x):
        r = 0
        for c in reversed(self.coef):
            r = r * x + c
        return r

    def deriv(self, m=1):
        c = self.coef
        for _ in range(m):
            c = [i * v for i, v in enumerate(c)][1:]
        return PolyModel(c)

    def degree(self):
        return len(self.coef) - 1

    def __neg__(self):
        return PolyModel([-c for c in self.coef])

    def __mul__(self, s):
        if isinstance(s, PolyModel):
            raise T.Unsupported("product of polynomials")
        return PolyModel([c * s for c in self.coef])

    __rmul__ = __mul__

    def __truediv__(self, s):
        return PolyModel([c / s for c in self.coef])


class Memory:
    """everything the package could remember between calls: module globals, containers reachable from them, attributes and defaults of
    functions, classes and package objects, caches. Every symbolic path starts from the captured state, and it is left behind as it was."""

    def __init__(self, mods):
        self.items, self.seen, self.keep = [], set(), []
        for m in mods.values():
            self.items.append((vars(m), dict(vars(m))))
            for k, v in list(vars(m).items()):
                if not (k.startswith("__") and k.endswith("__")):
                    self.add(v)

    def add(self, v, depth=0):
        if depth > 6 or id(v) in self.seen:
            return
        if isinstance(v, (dict, list, set)) or type(v).__name__ == "deque":
            self.seen.add(id(v))
            self.items.append((v, v.copy()))
            for x in (list(v.values()) if isinstance(v, dict) else list(v)):
                self.add(x, depth + 1)
        elif isinstance(v, tuple):
            for x in v:
                self.add(x, depth + 1)
        elif hasattr(v, "cache_clear"):
            self.seen.add(id(v))
            self.items.append((v, None))
            self.add(getattr(v, "__wrapped__", None), depth + 1)
        elif isinstance(v, types.FunctionType) and (v.__module__ or "").startswith("kerrgeopy"):
            self.seen.add(id(v))
            self.items.append((v.__dict__, dict(v.__dict__)))
            for x in list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values()) + list(v.__dict__.values()):
                self.add(x, depth + 1)
            for c in v.__closure__ or ():
                try:
                    x = c.cell_contents
                except ValueError:
                    continue
                self.items.append((c, x))
                self.add(x, depth + 1)
        elif isinstance(v, (staticmethod, classmethod)):
            self.add(v.__func__, depth + 1)
        elif isinstance(v, property):
            self.add(v.fget, depth + 1)
        elif isinstance(v, type) and v.__module__.startswith("kerrgeopy"):
            self.seen.add(id(v))
            self.items.append((v, {k: x for k, x in vars(v).items()}))
            for x in list(vars(v).values()):
                self.add(x, depth + 1)
        elif (type(v).__module__ or "").startswith("kerrgeopy") and hasattr(v, "__dict__"):
            self.seen.add(id(v))
            self.items.append((v.__dict__, dict(v.__dict__)))
            for x in list(v.__dict__.values()):
                self.add(x, depth + 1)

    def restore(self):
        for v, old in self.items:
            if isinstance(v, types.CellType):
                try:
                    same = v.cell_contents is old
                except ValueError:
                    same = False
                if not same:
                    v.cell_contents = old
            elif isinstance(v, type):
                for k in [k for k in vars(v) if k not in old]:
                    delattr(v, k)
                for k, x in old.items():
                    if vars(v).get(k) is not x:
                        try:
                            setattr(v, k, x)
                        except (AttributeError, TypeError):
                            pass
            elif old is None:
                v.cache_clear()
            elif isinstance(v, dict):
                if len(v) != len(old) or any(k not in old or v[k] is not old[k] for k in v) or list(v) != list(old):
                    v.clear()
                    v.update(old)
            elif isinstance(v, set):
                if v != old:
                    v.clear()
                    v.update(old)
            elif len(v) != len(old) or any(x is not y for x, y in zip(v, old)):
                v.clear()
                v.extend(old)


class Patch:
    current = None

    def __init__(self, stubs=None, poly_roots=None, root_scalar=None, consts=None, replace=None):
        """stubs: {function name: replacement}; replaces every module-level binding of kerrgeopy's function of that name
        replace: {object: replacement} by identity; consts: {(module, name): Sym}"""
        self.stubs = stubs or {}
        self.poly_roots = poly_roots
        self.root_scalar = root_scalar
        self.consts = consts or {}
        self.replace = {id(k): v for k, v in (replace or {}).items()}
        self.keep = list((replace or {}).keys())
        self.cache = {}
        self.applied = set()

    def wrap(self, v):
        if id(v) in self.replace:
            return self.replace[id(v)]
        if isinstance(v, types.ModuleType):
            n = v.__name__.split(".")[0]
            if n in ("numpy", "scipy", "math"):
                key = id(v)
                if key not in self.cache:
                    self.cache[key] = Proxy(v, self)
                return self.cache[key]
            return v
        if isinstance(v, float) and math.isfinite(v):
            return T.Sym(T.lift_float(v))
        if isinstance(v, np.ufunc) or isinstance(v, type):
            if v is np.polynomial.Polynomial:
                return PolyModel
            return v
        if isinstance(v, types.BuiltinFunctionType) and getattr(v, "__module__", "") == "math":
            alt = _math_fn(v.__name__)

            def g(*a):
                if any(T._contains(x) for x in a):
                    if alt is None:
                        raise T.Unsupported("math." + v.__name__)
                    return alt(*a)
                return v(*a)
            return g
        mod = getattr(v, "__module__", None) or ""
        if callable(v) and (mod.startswith("numpy") or (v in T.FUNCTIONS if _hashable(v) else False)):
            key = id(v)
            if key not in self.cache:
                self.cache[key] = T.override(v)
            return self.cache[key]
        return v

    def __enter__(self):
        import scipy.optimize
        self.mods = load()
        self.saved = []
        if self.root_scalar is not None:
            self.replace[id(scipy.optimize.root_scalar)] = self.root_scalar
        originals = {}
        for mname, mod in self.mods.items():
            for name, v in list(vars(mod).items()):
                if name.startswith("__"):
                    continue
                new = v
                if (mname, name) in self.consts:
                    new = self.consts[(mname, name)]
                elif isinstance(v, types.FunctionType) and (v.__module__ or "").startswith("kerrgeopy"):
                    if v.__name__ in self.stubs:
                        new = self.stubs[v.__name__]
                        self.applied.add(v.__name__)
                elif getattr(v, "__name__", None) in self.stubs and not isinstance(v, type) and callable(v) and \
                        (getattr(v, "__module__", None) or "").startswith("kerrgeopy"):
                    # the same function behind a wrapper (a cache, say)
                    new = self.stubs[v.__name__]
                    self.applied.add(v.__name__)
                else:
                    new = self.wrap(v)
                if new is not v:
                    self.saved.append((mod, name, v))
                    setattr(mod, name, new)
        self.prev = Patch.current
        Patch.current = self
        self.memory = Memory(self.mods)
        return self

    def reset(self):
        self.memory.restore()

    def __exit__(self, *exc):
        self.memory.restore()
        for mod, name, v in self.saved:
            setattr(mod, name, v)
        Patch.current = self.prev
        return False


def _hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False
