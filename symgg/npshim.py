"""numpy facade used by the symbolically executed modules.  Arrays are numpy object
arrays holding exact symbolic terms; anything not redefined here is numpy itself."""
import functools
import types
import numpy as np
from fractions import Fraction
from . import sym as S
from .sym import Sym, SBool, Unsupported


class SArr(np.ndarray):
    def astype(self, dtype, *a, **k):
        if dtype in (float, np.float64, np.float32, np.double, "float", object) or dtype is FloatShim or dtype is PYFLOAT:
            if self.dtype.kind in "iub":
                return wrap(np.ndarray.astype(np.asarray(self), PYFLOAT))
            return self.copy()
        return np.ndarray.astype(self, dtype, *a, **k)

    def __deepcopy__(self, memo):
        return self.copy()

    def __array_wrap__(self, a, context=None, return_scalar=False):
        if return_scalar and a.ndim == 0:
            return a[()]
        if isinstance(a, np.ndarray) and a.dtype.kind == "f":
            return wrap(a)
        return a.view(SArr) if isinstance(a, np.ndarray) else a

    def dot(self, o):
        return NP.dot(self, o)

    def __array_function__(self, func, types_, args, kwargs):
        return super().__array_function__(func, types_, args, kwargs)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis) / n

    def round(self, *a, **k):
        return NP.round(self)

    def tolist(self):
        return np.ndarray.tolist(self)


PYFLOAT = float


class FloatShim:
    pass


def has_sym(a):
    return any(isinstance(v, Sym) for v in a.flat)


def wrap(a):
    """object SArr; floats -> exact Sym constants"""
    if isinstance(a, np.ndarray):
        if a.dtype.kind == "f":
            out = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                v = a[i]
                out[i] = Sym.of(float(v)) if np.isfinite(v) else float(v)
            return out.view(SArr)
        if a.dtype == object:
            if any(isinstance(v, float) for v in a.flat):
                out = np.empty(a.shape, dtype=object)
                for i in np.ndindex(*a.shape):
                    v = a[i]
                    out[i] = Sym.of(v) if isinstance(v, float) and v == v and abs(v) != float("inf") else v
                return out.view(SArr)
            return a.view(SArr)
    return a


def un0(a):
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return a.item()
    return a


def asobj(x):
    if isinstance(x, Sym):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    a = np.asarray(x)
    return a


def arr(x, dtype=None, **k):
    if dtype is not None and dtype not in (float, object, np.float64, "float"):
        if dtype is not PYFLOAT and getattr(dtype, "__name__", "") not in ("float",):
            try:
                return np.array(x, dtype=dtype, **{kk: v for kk, v in k.items() if kk != "copy"})
            except Exception:
                pass
    if isinstance(x, (Sym,)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a.view(SArr)
    a = np.array(x)
    if a.dtype.kind in "iub" and dtype is not None:
        a = a.astype(float)
    a = wrap(a)
    if isinstance(a, np.ndarray) and (a.dtype == object or a.dtype.kind in "iu"):
        a = a.view(SArr)
    if k.get("ndmin"):
        while a.ndim < k["ndmin"]:
            a = a[None]
    return a


def asarr(x, dtype=None, **k):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    return arr(x, dtype=dtype)


def emap(f):
    def g(x, *a, **k):
        if isinstance(x, (list, tuple)):
            x = np.array(x)
        if isinstance(x, np.ndarray):
            if x.ndim == 0:
                return f(x.item())
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                out[i] = f(x[i])
            return out.view(SArr)
        return f(x)
    return g


def emap2(f):
    def g(x, y, *a, **k):
        x, y = asobj(x), asobj(y)
        x, y = np.broadcast_arrays(x, y)
        if x.ndim == 0:
            return f(x.item(), y.item())
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = f(x[i], y[i])
        return out.view(SArr)
    return g


def so(f):
    return lambda v: f(Sym.of(v))


def _sign(v):
    v = Sym.of(v)
    if bool(v == 0):
        return Sym.of(0)
    return Sym.of(1) if bool(v > 0) else Sym.of(-1)


def _trunc(v):
    v = Sym.of(v)
    return v.floor() if bool(v >= 0) else -((-v).floor())


def _heaviside(v, h0):
    v = Sym.of(v)
    if bool(v == 0):
        return Sym.of(h0)
    return Sym.of(1 if bool(v > 0) else 0)


def full(shape, v):
    if isinstance(shape, Sym):
        shape = int(shape)
    if isinstance(shape, tuple):
        shape = tuple(int(s) for s in shape)
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*a.shape):
        a[i] = Sym.of(v)
    return a.view(SArr)


def linspace(start, stop, num=50, endpoint=True, retstep=False, **k):
    num = int(num)
    st, sp = asobj(start), asobj(stop)
    div = (num - 1) if endpoint else num
    if st.ndim == 0 and sp.ndim == 0:
        st, sp = Sym.of(st.item()), Sym.of(sp.item())
        out = np.empty(num, dtype=object)
        for i in range(num):
            out[i] = st if i == 0 else st + (sp - st) * Fraction(i, div)
        if endpoint and num > 1:
            out[-1] = sp
        return out.view(SArr)
    rows = [st + (sp - st) * (Sym.of(Fraction(i, div)) if div else Sym.of(0)) for i in range(num)]
    return np.stack(rows).view(SArr)


def arange(*a, **k):
    a = [v.const() if isinstance(v, Sym) and v.const() is not None else v for v in a]
    if all(isinstance(v, (int, np.integer)) for v in a):
        return np.arange(*a)
    if any(isinstance(v, Sym) for v in a):
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        out, v = [], Sym.of(lo)
        while bool(v < hi):
            out.append(v)
            v = v + st
            if len(out) > 500:
                raise Unsupported("arange")
        return arr(out)
    return wrap(np.arange(*[float(v) for v in a]))


def norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported("norm order")
    x = asobj(x)
    sq = x * x
    if axis is None:
        t = Sym.of(0)
        for v in sq.flat:
            t = t + v
        return S.CTX.sqrt(t)
    s = np.sum(sq, axis=axis, keepdims=keepdims)
    return np_sqrt(s)


np_sqrt = emap(so(lambda v: v.sqrt()))


def interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = list(asobj(xp).flat), list(asobj(fp).flat)
    for i in range(1, len(xp)):
        d = Sym.of(xp[i]) - xp[i - 1]
        if d.n and S.CTX.sign_of((d.n if not d.d else (d * 1).n)) < 0 and all(
                S.CTX.sign_of(f) > 0 for f, e in d.den_items()):
            raise Unsupported("interp over decreasing nodes")

    def one(v):
        v = Sym.of(v)
        if bool(v <= xp[0]):
            return Sym.of(fp[0] if left is None else left) if not bool(v == xp[0]) else Sym.of(fp[0])
        if bool(v >= xp[-1]):
            return Sym.of(fp[-1] if right is None else right) if not bool(v == xp[-1]) else Sym.of(fp[-1])
        for i in range(1, len(xp)):
            if bool(v <= xp[i]):
                a, b = Sym.of(xp[i - 1]), Sym.of(xp[i])
                return Sym.of(fp[i - 1]) + (v - a) * ((Sym.of(fp[i]) - fp[i - 1]) / (b - a))
        return Sym.of(fp[-1])
    return emap(one)(x)


def searchsorted(a, v, side="left", sorter=None):
    a = list(asobj(a).flat)

    def one(x):
        x = Sym.of(x)
        k = 0
        for y in a:
            if side == "left":
                c = bool(Sym.of(y) < x)
            else:
                c = bool(Sym.of(y) <= x)
            if not c:
                break
            k += 1
        return k
    v = asobj(v)
    if v.ndim == 0:
        return one(v.item())
    return np.array([one(x) for x in v.flat]).reshape(v.shape)


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    def one(x, y):
        x, y = Sym.of(x), Sym.of(y)
        return bool(abs(x - y) <= Sym.of(atol) + Sym.of(rtol) * abs(y))
    a, b = np.broadcast_arrays(asobj(a), asobj(b))
    if a.ndim == 0:
        return one(a.item(), b.item())
    out = np.zeros(a.shape, dtype=bool)
    for i in np.ndindex(*a.shape):
        out[i] = one(a[i], b[i])
    return out


def det(m):
    m = asobj(m)
    n = m.shape[0]
    if n == 1:
        return Sym.of(m[0, 0])
    t = Sym.of(0)
    for j in range(n):
        c = Sym.of(m[0, j])
        if c.is_zero():
            continue
        sub = np.delete(np.delete(m, 0, 0), j, 1)
        t = t + c * det(sub) * (-1) ** j
    return t


def inv(m):
    m = asobj(m)
    n = m.shape[0]
    d = det(m)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            sub = np.delete(np.delete(m, i, 0), j, 1)
            out[j, i] = (det(sub) if n > 1 else Sym.of(1)) * (-1) ** (i + j) / d
    return out.view(SArr)


def solve(A, b):
    return inv(A) @ asobj(b)


def cross(a, b, *args, **k):
    a, b = asobj(a), asobj(b)
    a0, a1, a2 = a[..., 0], a[..., 1], a[..., 2]
    b0, b1, b2 = b[..., 0], b[..., 1], b[..., 2]
    r = np.stack([asobj(a1 * b2 - a2 * b1), asobj(a2 * b0 - a0 * b2), asobj(a0 * b1 - a1 * b0)], axis=-1)
    return r.view(SArr)


def _wrapres(f):
    def g(*a, **k):
        r = f(*a, **k)
        if isinstance(r, np.ndarray) and r.dtype == object and type(r) is np.ndarray:
            return r.view(SArr)
        if isinstance(r, np.ndarray) and r.dtype.kind == "f":
            return wrap(r)
        return r
    return g


def clip(x, lo=None, hi=None, **k):
    lo = k.get("a_min", k.get("min", lo))
    hi = k.get("a_max", k.get("max", hi))

    def one(v):
        v = Sym.of(v)
        if lo is not None and bool(v < lo):
            return Sym.of(lo)
        if hi is not None and bool(v > hi):
            return Sym.of(hi)
        return v
    return emap(one)(x)


def where(c, *a):
    if not a:
        return np.where(c)
    x, y = a
    c = asobj(c)
    if c.ndim == 0:
        return x if bool(c.item()) else y
    return _wrapres(np.where)(np.array([bool(v) for v in c.flat]).reshape(c.shape), x, y)


class LinAlg:
    norm = staticmethod(norm)
    det = staticmethod(det)
    inv = staticmethod(inv)
    solve = staticmethod(solve)
    multi_dot = staticmethod(lambda ms, **k: functools.reduce(lambda a, b: asobj(a) @ asobj(b), ms))
    LinAlgError = np.linalg.LinAlgError


class _NP:
    ndarray = np.ndarray
    newaxis = None
    float64 = PYFLOAT
    float32 = PYFLOAT
    floating = np.floating
    integer = np.integer
    inf = float("inf")
    linalg = LinAlg

    @property
    def pi(self):
        return S.CTX.PI if S.CTX is not None else PiHolder

    array = staticmethod(arr)
    asarray = staticmethod(asarr)
    asanyarray = staticmethod(asarr)
    sqrt = staticmethod(np_sqrt)
    cos = staticmethod(emap(so(lambda v: v.cos())))
    sin = staticmethod(emap(so(lambda v: v.sin())))
    tan = staticmethod(emap(so(lambda v: v.tan())))
    arctan = staticmethod(emap(so(lambda v: v.arctan())))
    atan = arctan
    arccos = staticmethod(emap(so(lambda v: v.arccos())))
    acos = arccos
    arcsin = staticmethod(emap(so(lambda v: v.arcsin())))
    asin = arcsin
    arctan2 = staticmethod(emap2(lambda y, x: S.CTX.atan2(y, x)))
    atan2 = arctan2
    hypot = staticmethod(emap2(lambda y, x: S.CTX.sqrt(Sym.of(y) ** 2 + Sym.of(x) ** 2)))
    abs = staticmethod(emap(so(abs)))
    absolute = abs
    fabs = abs
    sign = staticmethod(emap(_sign))
    floor = staticmethod(emap(so(lambda v: v.floor())))
    ceil = staticmethod(emap(so(lambda v: v.ceil())))
    round = staticmethod(lambda x, *a, **k: emap(so(lambda v: round(v)))(x))
    rint = round
    around = round
    trunc = staticmethod(emap(so(_trunc)))
    fix = trunc
    copysign = staticmethod(emap2(lambda x, y: abs(Sym.of(x)) * (1 if bool(Sym.of(y) >= 0) else -1)))
    heaviside = staticmethod(emap2(_heaviside))
    float_power = staticmethod(emap2(lambda x, y: Sym.of(x) ** y))
    fmod = staticmethod(emap2(lambda x, y: Sym.of(x) - Sym.of(y) * _trunc(Sym.of(x) / y)))
    divmod = staticmethod(lambda x, y: (NP.floor_divide(x, y), NP.mod(x, y)))
    modf = staticmethod(lambda x: (x - NP.trunc(x), NP.trunc(x)))
    floor_divide = staticmethod(emap2(lambda x, y: (Sym.of(x) / y).floor()))
    square = staticmethod(lambda x: x * x)
    power = staticmethod(emap2(lambda x, y: Sym.of(x) ** y))
    mod = staticmethod(emap2(lambda x, y: Sym.of(x) % y))
    remainder = mod
    deg2rad = staticmethod(lambda x: x * S.CTX.PI / 180)
    radians = deg2rad
    rad2deg = staticmethod(lambda x: x * 180 / S.CTX.PI)
    degrees = rad2deg
    isnan = staticmethod(lambda x: np.zeros(np.shape(x), dtype=bool) if isinstance(x, np.ndarray) else False)
    isfinite = staticmethod(lambda x: np.ones(np.shape(x), dtype=bool) if isinstance(x, np.ndarray) else True)
    isinf = isnan
    zeros = staticmethod(lambda shape, dtype=None, **k: full(shape, 0))
    empty = zeros
    ones = staticmethod(lambda shape, dtype=None, **k: full(shape, 1))
    full = staticmethod(lambda shape, v, **k: full(shape, v))
    zeros_like = staticmethod(lambda a, **k: full(np.shape(a), 0))
    empty_like = zeros_like
    ones_like = staticmethod(lambda a, **k: full(np.shape(a), 1))
    eye = staticmethod(lambda n, *a, **k: wrap(np.eye(int(n), *a)))
    identity = eye
    linspace = staticmethod(linspace)
    arange = staticmethod(arange)
    interp = staticmethod(interp)
    searchsorted = staticmethod(searchsorted)
    isclose = staticmethod(isclose)
    allclose = staticmethod(lambda a, b, **k: bool(np.all(isclose(a, b, **k))))
    array_equal = staticmethod(lambda a, b: np.shape(a) == np.shape(b) and all(bool(Sym.of(x) == y) for x, y in zip(asobj(a).flat, asobj(b).flat)))
    cross = staticmethod(cross)
    clip = staticmethod(clip)
    where = staticmethod(where)
    shape = staticmethod(np.shape)
    ndim = staticmethod(np.ndim)
    ndindex = np.ndindex

    def __getattr__(self, name):
        r = getattr(np, name)
        if isinstance(r, type) or not callable(r):
            return r
        g = _wrapres(r)
        if isinstance(r, np.ufunc):
            for m in ("accumulate", "reduce", "outer", "at"):
                setattr(g, m, _wrapres(getattr(r, m)))
        return g


PiHolder = None
NP = _NP()


def make_module():
    m = types.ModuleType("numpy")
    m.__class__ = _NPModule
    return m


class _NPModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(NP, name)


# ---------------------------------------------------------------- math module
class MathShim(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name == "pi":
            return S.CTX.PI
        if name == "tau":
            return S.CTX.PI * 2
        if name in ("inf", "nan"):
            return float(name)
        if name in ("sqrt", "cos", "sin", "tan", "floor", "ceil", "hypot", "atan2", "fabs",
                    "radians", "degrees", "isnan", "isfinite", "isinf", "isclose"):
            return getattr(NP, name)
        if name in ("acos", "asin", "atan"):
            return getattr(NP, "arc" + name[1:])
        if name == "pow":
            return lambda a, b: Sym.of(a) ** b
        import math
        return getattr(math, name)
