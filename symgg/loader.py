"""Executes /repo's current gggears sources with the symbolic numpy/scipy/build123d
facades.  Nothing is cached: the sources are read and compiled on every run."""
import builtins
import os
import sys
import types
from fractions import Fraction
from . import sym as S
from .sym import Sym, SBool, Unsupported
from . import npshim, scishim, bdshim

SRC = os.environ.get("GGGEARS_SRC", "/repo/src/gggears")


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        if isinstance(o, Sym):
            return not _is_int_sym(o)
        return isinstance(o, float)

    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SBool):
            return Sym.of(x)
        import numpy as np
        if isinstance(x, np.ndarray) and x.dtype == object:
            return Sym.of(x)
        if isinstance(x, str):
            return float(x)
        f = float(x)
        if f != f or abs(f) == float("inf"):
            return f
        return Sym.of(f)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class FloatT(metaclass=_FloatMeta):
    pass


FloatT.__name__ = "float"


def _is_int_sym(o):
    if o.d:
        return False
    C = S.CTX
    return all(Fraction(c).denominator == 1 and all(C.atoms[i].is_int for i, _ in m)
               for m, c in o.n.items()) and any(m for m in o.n)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        if isinstance(o, Sym):
            return _is_int_sym(o)
        return isinstance(o, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, Sym):
            # int() truncates toward zero
            if _is_int_sym(x):
                return x
            c = x.const()
            if c is not None:
                return int(c)
            if bool(x >= 0):
                return S.CTX.floor(x)
            return -S.CTX.floor(-x)
        return int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class IntT(metaclass=_IntMeta):
    pass


IntT.__name__ = "int"


def _round(x, n=None):
    if isinstance(x, Sym):
        return round(x)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def _range(*a):
    if any(isinstance(v, Sym) and v.const() is None for v in a):
        if len(a) == 1:
            lo, hi, st = 0, a[0], 1
        else:
            lo, hi, st = a[0], a[1], a[2] if len(a) > 2 else 1
        lo, st = int(lo), int(st)

        def gen():
            i = lo
            while bool(Sym.of(hi) > i):
                yield i
                i += st
                if i > 2000:
                    raise Unsupported("range too long")
        return list(gen())
    return range(*[int(v) if isinstance(v, Sym) else v for v in a])


def _isinstance(o, t):
    if isinstance(t, tuple):
        return any(_isinstance(o, x) for x in t)
    if t is float or t is FloatT:
        return isinstance(o, FloatT) or isinstance(o, float)
    if t is int or t is IntT:
        return isinstance(o, IntT)
    try:
        import numbers
        import numpy as np
        if isinstance(o, Sym) and t in (numbers.Number, numbers.Real, np.number, np.floating, np.generic):
            return True
    except Exception:
        pass
    return isinstance(o, t)


def _type(*a):
    if len(a) == 1:
        if isinstance(a[0], Sym):
            return IntT if _is_int_sym(a[0]) else FloatT
        return type(a[0])
    return type(*a)


class World:
    """one instantiation of the library under symbolic execution"""

    def __init__(self, src=SRC):
        self.src = src
        self.mods = {}
        self.shims = scishim.modules()
        self.shims["numpy"] = npshim.make_module()
        self.shims["math"] = npshim.MathShim("math")
        self.shims["build123d"] = bdshim.make_module()
        ocp = types.ModuleType("ocp_vscode")
        self.shims["ocp_vscode"] = ocp
        b = dict(builtins.__dict__)
        b["__import__"] = self._import
        b["float"] = FloatT
        b["int"] = IntT
        b["round"] = _round
        b["range"] = _range
        b["isinstance"] = _isinstance
        b["print"] = lambda *a, **k: None
        self.builtins = b
        self.files = set()

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__", "gggears")
            name = pkg + ("." + name if name else "")
        root = name.split(".")[0]
        if root == "gggears":
            m = self.load(name)
            if not fromlist:
                return self.load("gggears") if name == "gggears" else self._pkg_with(name)
            if name == "gggears":
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        setattr(m, f, self.load("gggears." + f))
            return m
        if name in self.shims:
            if fromlist:
                return self.shims[name]
            return self.shims[root]
        if root in ("numpy", "scipy", "build123d"):
            if name.startswith("numpy."):
                return self.shims["numpy"]
            raise ImportError("no facade for " + name)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _pkg_with(self, name):
        p = self.load("gggears")
        return p

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        if name == "gggears":
            # package namespace: filled lazily (no star import of every module needed)
            m.__path__ = [self.src]
            m.__package__ = "gggears"
            sys.modules[name] = m
            m.__class__ = _Pkg
            m.__dict__["_world"] = self
            return m
        sub = name.split(".", 1)[1]
        path = os.path.join(self.src, sub.replace(".", "/") + ".py")
        if not os.path.exists(path):
            pk = os.path.join(self.src, sub.replace(".", "/"), "__init__.py")
            if os.path.exists(pk):
                path = pk
                m.__path__ = [os.path.dirname(pk)]
            else:
                del self.mods[name]
                raise ImportError(name)
        m.__file__ = path
        m.__package__ = name if hasattr(m, "__path__") else "gggears"
        sys.modules[name] = m
        self.files.add(path)
        with open(path) as f:
            src = f.read()
        code = compile(src, path, "exec", dont_inherit=True)
        exec(code, m.__dict__)
        setattr(self.load("gggears"), sub, m)
        return m


class _Pkg(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        w = self.__dict__["_world"]
        try:
            return w.load("gggears." + n)
        except ImportError:
            raise AttributeError(n)
