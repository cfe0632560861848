"""scipy facade: Rotation as exact 3x3 matrices, root/minimize as contract stubs."""
import types
import numpy as np
from fractions import Fraction
from . import sym as S
from .sym import Sym, Unsupported
from .npshim import NP, SArr, arr, asobj, full, wrap, det


def _ax(axis, ang):
    c, s = S.CTX.cos_sin(ang)
    z, o = Sym.of(0), Sym.of(1)
    if axis == "x":
        m = [[o, z, z], [z, c, -s], [z, s, c]]
    elif axis == "y":
        m = [[c, z, s], [z, o, z], [-s, z, c]]
    elif axis == "z":
        m = [[c, -s, z], [s, c, z], [z, z, o]]
    else:
        raise ValueError("axis")
    return arr(m)


class Rotation:
    def __init__(self, m, single=True):
        # m: (3,3) or (n,3,3)
        self.m = m
        self.single = single

    @classmethod
    def from_euler(cls, seq, angles, degrees=False):
        a = asobj(angles)
        n = len(seq)
        if degrees:
            a = a * S.CTX.PI / 180 if a.ndim else asobj(a.item() * S.CTX.PI / 180)
        if n == 1:
            if a.ndim == 0:
                return cls(_ax(seq.lower(), a.item()))
            if a.shape[-1] != 1:       # scipy >= 1.17
                raise ValueError("Expected last dimension of `angles` to match number of "
                                 f"sequence axes specified, got {a.shape[-1]}.")
            if a.ndim == 1:
                return cls(_ax(seq.lower(), a[0]))
            return cls(np.stack([_ax(seq.lower(), v) for v in a[:, 0]]).view(SArr), False)
        if a.ndim == 2:
            return cls(np.stack([cls.from_euler(seq, r).m for r in a]).view(SArr), False)
        if a.ndim != 1 or a.shape[0] != n:
            raise ValueError("Expected `angles` shape")
        hit = S.CTX.euler_memo.get((seq,) + tuple(Sym.of(v).key() for v in a))
        if hit is not None:
            return cls(hit.copy())
        m = None
        for ch, v in zip(seq, a):
            r = _ax(ch.lower(), v)
            if m is None:
                m = r
            elif seq.isupper():
                m = m @ r
            else:
                m = r @ m
        return cls(m)

    @classmethod
    def from_rotvec(cls, rotvec, degrees=False):
        v = asobj(rotvec)
        if degrees:
            v = v * S.CTX.PI / 180
        if v.ndim == 2:
            return cls(np.stack([cls.from_rotvec(r).m for r in v]).view(SArr), False)
        v = [Sym.of(x) for x in v]
        t2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
        if t2.is_zero():
            return cls(wrap(np.eye(3)))
        # v = axis*theta. prefer a signed perfect root: rotation is invariant to
        # (axis,theta)->(-axis,-theta), so either sign of the root works
        th = signed_sqrt(t2)
        if S.CTX.sign_of(th.n) == 0:
            if bool(th == 0):
                return cls(wrap(np.eye(3)))
        k = [(x / th) for x in v]
        c, s = S.CTX.cos_sin(th)
        K = [[Sym.of(0), -k[2], k[1]], [k[2], Sym.of(0), -k[0]], [-k[1], k[0], Sym.of(0)]]
        m = np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                m[i, j] = (c if i == j else Sym.of(0)) + (1 - c) * k[i] * k[j] + s * K[i][j]
        return cls(m.view(SArr))

    @classmethod
    def from_matrix(cls, m):
        m = asobj(m)
        return cls(m.view(SArr), m.ndim == 2)

    @classmethod
    def identity(cls):
        return cls(wrap(np.eye(3)))

    def as_matrix(self):
        return self.m.copy()

    def inv(self):
        return Rotation(np.swapaxes(self.m, -1, -2), self.single)

    def apply(self, v, inverse=False):
        m = np.swapaxes(self.m, -1, -2) if inverse else self.m
        v = asobj(v)
        if v.ndim not in (1, 2) or v.shape[-1] != 3:
            raise ValueError("Expected input of shape (3,) or (P, 3)")
        if self.single:
            return (v @ m.T).view(SArr)
        if v.ndim == 1:
            return np.stack([v @ mm.T for mm in m]).view(SArr)
        if len(m) == 1:
            return np.stack([x @ m[0].T for x in v]).view(SArr)
        if len(v) == 1:
            return np.stack([v[0] @ mm.T for mm in m]).view(SArr)
        if len(v) != len(m):
            raise ValueError("Expected equal numbers of rotations and vectors")
        return np.stack([x @ mm.T for x, mm in zip(v, m)]).view(SArr)

    def __mul__(self, o):
        if self.single and o.single:
            return Rotation(self.m @ o.m)
        a = self.m[None] if self.single else self.m
        b = o.m[None] if o.single else o.m
        n = max(len(a), len(b))
        return Rotation(np.stack([a[i % len(a)] @ b[i % len(b)] for i in range(n)]).view(SArr), False)

    def __len__(self):
        if self.single:
            raise TypeError("Single rotation has no len().")
        return len(self.m)

    def __getitem__(self, i):
        return Rotation(self.m[i])

    def as_euler(self, seq, degrees=False):
        """contract stub: fresh angles whose Euler matrix equals this rotation.
        Distinct-axes sequences: middle angle in [-pi/2,pi/2]."""
        if not self.single:
            raise Unsupported("as_euler of a stack")
        if len(set(seq.lower())) != 3:
            return self._as_euler_proper(seq, degrees)
        lazy = self._lazy_euler(seq, degrees)
        if lazy is not None:
            return lazy
        intr = seq.isupper()
        # intrinsic ABC: M = A(a)B(b)C(c); extrinsic abc: M = C(c)B(b)A(a)
        order = seq.lower() if intr else seq.lower()[::-1]
        i, j, k = ["xyz".index(ch) for ch in order]
        e = 1 if (i, j, k) in ((0, 1, 2), (1, 2, 0), (2, 0, 1)) else -1
        M = self.m
        # M = R_i(a) R_j(b) R_k(g):  M[i,k] = e*sin b ; M[i,i]=cb cg ; M[i,j]=-e cb sg
        # M[k,k] = ca cb ; M[j,k] = -e sa cb
        sb = Sym.of(M[i, k]) * e
        cb = S.CTX.sqrt(1 - sb * sb)
        cb = Sym.of(cb)
        sg = S.CTX.sign_of(cb.n) if cb.n else 0
        if sg == 0:
            if cb.is_zero() or not bool(cb > 0):
                # gimbal lock: third angle set to zero
                g = Sym.of(0)
                a = S.CTX.atan2(Sym.of(M[k, j]), Sym.of(M[j, j]))
                b = S.CTX.atan2(sb, Sym.of(0)) if sb.const() is not None else (
                    S.CTX.PI / 2 if bool(sb > 0) else -S.CTX.PI / 2)
                if not intr:
                    # scipy (extrinsic): third angle (about the last axis) set to zero ->
                    # here ordering reversed, set 'a' to zero instead
                    a0 = Sym.of(0)
                    g = S.CTX.atan2(Sym.of(M[j, i]), Sym.of(M[j, j]))
                    a = a0
                out = [a, b, g]
                out = out if intr else out[::-1]
                if degrees:
                    out = [v * 180 / S.CTX.PI for v in out]
                return arr(out)
        b = S.CTX.atan2(sb, cb)
        g = S.CTX.atan2(-e * Sym.of(M[i, j]), Sym.of(M[i, i]))
        a = S.CTX.atan2(-e * Sym.of(M[j, k]), Sym.of(M[k, k]))
        out = [a, b, g]
        out = out if intr else out[::-1]
        if degrees:
            out = [v * 180 / S.CTX.PI for v in out]
        return arr(out)

    def _lazy_euler(self, seq, degrees):
        """fresh angles plus the fact that from_euler of them gives this matrix back.
        Restarts in exact mode when the angles are used in any other way."""
        C = S.CTX
        if C.units_hint.get("__euler_exact"):
            return None
        m = self.m
        for i in range(3):
            for j in range(3):
                d = sum(Sym.of(m[i, k]) * m[j, k] for k in range(3)) - (1 if i == j else 0)
                if d.n:
                    return None        # not visibly orthonormal: exact mode
        key = ("euler", seq) + tuple(Sym.of(v).key() for v in m.flat)
        if key not in C.euler_memo:
            out = []
            for q in range(3):
                def ev(env, q=q):
                    import numpy
                    M = [[C.seval(Sym.of(v), env) for v in r] for r in m]
                    return _euler(numpy.array(M, dtype=float), seq)[q]
                a = C.new_atom(C.fresh("eul"), "eul", -3.2, 3.2, ev)
                C.lazy.add(a.id)
                out.append(C.sym(a))
            C.euler_memo[key] = out
            k3 = (seq,) + tuple(v.key() for v in out)
            C.euler_memo[k3] = m.copy()
            C.euler_memo[("angles",) + k3] = out
        out = list(C.euler_memo[key])
        if degrees:
            out = [v * 180 / C.PI for v in out]
        return arr(out)

    def _as_euler_proper(self, seq, degrees):
        raise Unsupported("proper Euler angles")

    def as_rotvec(self, *a, **k):
        raise Unsupported("as_rotvec")

    def as_quat(self, *a, **k):
        raise Unsupported("as_quat")

    def magnitude(self):
        raise Unsupported("magnitude")


def _euler(M, seq):
    import math
    intr = seq.isupper()
    order = seq.lower() if intr else seq.lower()[::-1]
    i, j, k = ["xyz".index(ch) for ch in order]
    e = 1 if (i, j, k) in ((0, 1, 2), (1, 2, 0), (2, 0, 1)) else -1
    out = [math.atan2(-e * M[j, k], M[k, k]), math.asin(max(-1, min(1, e * M[i, k]))),
           math.atan2(-e * M[i, j], M[i, i])]
    return out if intr else out[::-1]


def signed_sqrt(t2):
    """a Sym th with th^2 == t2, not necessarily non-negative when it is a perfect
    square (avoids a sign fork); else the non-negative root"""
    C = S.CTX
    n = t2.n
    den = Sym.of(1)
    from . import poly as P
    for f, e in t2.den_items():
        if e % 2:
            n = P.mul(n, f, C.rel)
            e += 1
        for _ in range(e // 2):
            den = den * Sym(f)
    r = C._trig_sqrt(n)
    if r is None:
        cont = P.content(n)
        g = P.mono_gcd_all(n)
        m = tuple((i, e - e % 2) for i, e in g if e >= 2)
        if m:
            body = P.exact_div(n, {m: 1})
            rest = C._trig_sqrt(body)
            if rest is None:
                rest = C.sqrt_poly(body)
            half = Sym({tuple((i, e // 2) for i, e in m): 1})
            return rest * half / den
        return C.sqrt(t2)
    return r / den


class OptimizeResult(dict):
    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)

    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)

    def __setattr__(self, n, v):
        self[n] = v


def _fresh_vec(x0, tag):
    C = S.CTX
    x0 = asobj(x0)
    shape = (1,) if x0.ndim == 0 else x0.shape
    out = np.empty(shape, dtype=object)
    lohi = getattr(C, "root_bounds", None)
    for n, i in enumerate(np.ndindex(*shape)):
        lo, hi = (None, None) if not lohi else lohi[n % len(lohi)]
        a = C.new_atom(C.fresh(tag), "sol", lo=lo, hi=hi)
        if lo is not None:
            C.add(a.z >= S.frac_z3(Fraction(lo)), a.z <= S.frac_z3(Fraction(hi)))
        out[i] = C.sym(a)
    return out.view(SArr)


def root(fun, x0, args=(), method=None, jac=None, tol=None, **k):
    """contract: on success the returned point is a zero of `fun`."""
    C = S.CTX
    hook = getattr(C, "root_hook", None)
    if hook is not None:
        r = hook(fun, x0)
        if r is not None:
            return r
    x = _fresh_vec(x0, "root")
    C.stats.setdefault("stubs", set()).add("scipy.optimize.root: success => fun(x)=0, x arbitrary otherwise")
    ok = True
    if getattr(C, "root_mode", "success") == "both":
        b = C.new_int(C.fresh("root_ok"), 0, 1)
        ok = C.decide(b.z == 1, "root success")
    elif getattr(C, "root_mode", "success") == "fail":
        ok = False
    args = args if isinstance(args, tuple) else (args,)
    f = fun(x, *args) if ok else None
    if ok:
        for v in asobj(f).flat:
            v = Sym.of(v)
            C.add(v.z3_eq0())
        if not hasattr(C, "roots"):
            C.roots = []
        C.roots.append((x, f))
    return OptimizeResult(x=x, success=ok, fun=f if ok else full(x.shape, 1), message="stub", status=1)


def minimize(fun, x0, args=(), method=None, **k):
    C = S.CTX
    hook = getattr(C, "min_hook", None)
    if hook is not None:
        r = hook(fun, x0)
        if r is not None:
            return r
    C.stats.setdefault("stubs", set()).add("scipy.optimize.minimize: arbitrary point returned")
    x = _fresh_vec(x0, "argmin")
    return OptimizeResult(x=x, success=True, fun=Sym.of(0), message="stub", status=0, nit=1, nfev=1,
                          njev=1, jac=None)


def comb(n, k, exact=False, repetition=False):
    from math import comb as c

    def one(a, b):
        a = int(a)
        b = int(b)
        if a < 0 or b < 0 or b > a:
            return 0
        return c(a, b)
    n, k = np.broadcast_arrays(asobj(n), asobj(k))
    if n.ndim == 0:
        return Sym.of(one(n.item(), k.item()))
    out = np.empty(n.shape, dtype=object)
    for i in np.ndindex(*n.shape):
        out[i] = Sym.of(one(n[i], k[i]))
    return out.view(SArr)


class _M(types.ModuleType):
    pass


def modules():
    sp = _M("scipy")
    opt = _M("scipy.optimize")
    opt.root, opt.minimize, opt.OptimizeResult = root, minimize, OptimizeResult
    spa = _M("scipy.spatial")
    tr = _M("scipy.spatial.transform")
    tr.Rotation = Rotation
    spec = _M("scipy.special")
    spec.comb = comb
    spec.binom = comb
    sp.optimize, sp.spatial, sp.special = opt, spa, spec
    spa.transform = tr
    return {"scipy": sp, "scipy.optimize": opt, "scipy.spatial": spa,
            "scipy.spatial.transform": tr, "scipy.special": spec}
