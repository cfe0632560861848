"""Symbolic reals, path context and the trigonometric/algebraic term encoding.

Sym   : numerator polynomial / multiset of denominator factors, exact rationals.
SBool : comparison of two Syms; its truth value is a *fork* decided with z3.
Ctx   : one symbolic execution path: atoms, relations, path condition, decisions.
"""
import math
import os
from fractions import Fraction
import z3
from . import poly as P


class Unsupported(Exception):
    """the encoding cannot express an operation (-> inconclusive, never a verdict)"""


class Restart(Exception):
    """the angle granularity hint was refined; re-run the path"""


class Infeasible(BaseException):
    """this path has no inputs"""


PI_LO = Fraction(314159265358979, 10 ** 14)
PI_HI = Fraction(314159265358980, 10 ** 14)

CTX = None


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    return CTX


def to_frac(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        return P.norm_c(v)
    try:
        import numpy as np
        if isinstance(v, np.integer):
            return int(v)
        if isinstance(v, np.bool_):
            return int(v)
        if isinstance(v, np.floating):
            v = float(v)
    except ImportError:
        pass
    if isinstance(v, float):
        if math.isnan(v) or math.isinf(v):
            raise Unsupported("nan/inf constant")
        f = Fraction(v).limit_denominator(10 ** 6)
        if float(f) == v:
            return P.norm_c(f)
        return P.norm_c(Fraction(repr(v)))
    raise TypeError(type(v))


FORKDBG = os.environ.get("FORKDBG")


class Atom:
    __slots__ = ("id", "name", "kind", "z", "lo", "hi", "ev", "is_int", "zr", "angle_of")

    def __init__(self, id, name, kind, z, lo=None, hi=None, ev=None, is_int=False):
        self.id, self.name, self.kind, self.z = id, name, kind, z
        self.lo, self.hi, self.ev, self.is_int = lo, hi, ev, is_int
        self.zr = z3.ToReal(z) if is_int else z


class AngleUnit:
    __slots__ = ("key", "L", "theta", "c", "s", "lo", "hi", "multiples", "natural")


def frac_z3(c):
    c = Fraction(c)
    return z3.RealVal(str(c.numerator)) if c.denominator == 1 else z3.Q(c.numerator, c.denominator)


class Ctx:
    def __init__(self, prefix=(), units=None, solver_timeout=1500, stats=None):
        self.atoms = []
        self.rel = {}
        self.units_hint = units if units is not None else {}
        self.lazy = set()
        self.euler_memo = {}
        self.units = {}
        self.prefix = list(prefix)
        self.trace = []
        self.alternatives = []
        self.cons = []
        self.solver = z3.Solver()
        self.timeout = solver_timeout
        self.solver.set("timeout", solver_timeout)
        self.sqrt_memo = {}
        self.cond_memo = {}
        self.sign_memo = {}
        self.angle_vals = {}     # atom id -> (cos Sym, sin Sym)
        self.assumed_nonzero = []
        self.notes = []
        self.inputs = {}         # name -> Sym
        self.stats = stats if stats is not None else {}
        self.uid = 0
        self.pi = self.new_atom("PI", "pi", lo=math.pi, hi=math.pi,
                                ev=lambda env: math.pi)
        self.add(self.pi.z > frac_z3(PI_LO), self.pi.z < frac_z3(PI_HI))
        self.PI = Sym({((self.pi.id, 1),): 1})

    # -- atoms ---------------------------------------------------------------
    def new_atom(self, name, kind, lo=None, hi=None, ev=None, is_int=False):
        i = len(self.atoms)
        zn = f"{name}"
        z = z3.Int(zn) if is_int else z3.Real(zn)
        a = Atom(i, name, kind, z, lo, hi, ev, is_int)
        self.atoms.append(a)
        return a

    def fresh(self, base):
        self.uid += 1
        return f"{base}!{self.uid}"

    def sym(self, a):
        return Sym({((a.id, 1),): 1})

    def add(self, *cs):
        for c in cs:
            self.cons.append(c)
            self.solver.add(c)

    # -- solver --------------------------------------------------------------
    def check(self, *extra, timeout=None):
        import time
        t = time.time()
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        if timeout:
            self.solver.set("timeout", timeout)
        r = self.solver.check()
        if timeout:
            self.solver.set("timeout", self.timeout)
        m = None
        if r == z3.sat:
            m = self.solver.model()
        self.solver.pop()
        self.stats["queries"] = self.stats.get("queries", 0) + 1
        self.stats["solver_s"] = self.stats.get("solver_s", 0.0) + time.time() - t
        k = "q_" + str(r)
        self.stats[k] = self.stats.get(k, 0) + 1
        return str(r), m

    def decide(self, cond, desc=""):
        """fork on z3 condition"""
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.add(cond if d else z3.Not(cond))
            return d
        rt, _ = self.check(cond)
        if rt == "unsat":
            rf = "unknown"
        else:
            rf, _ = self.check(z3.Not(cond))
        if rt == "unsat":
            d = False
        elif rf == "unsat":
            d = True
        else:
            d = True
            self.alternatives.append(self.trace + [False])
            self.stats["forks"] = self.stats.get("forks", 0) + 1
            if FORKDBG:
                import traceback
                print("FORK", rt, rf, str(z3.simplify(cond))[:400],
                      [f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_stack()
                       if "/gggears/" in f.filename][-3:], flush=True)
        self.trace.append(d)
        self.add(cond if d else z3.Not(cond))
        return d

    def realize_int(self, s):
        c = s.const()
        if c is not None:
            if Fraction(c).denominator != 1:
                raise Unsupported("non-integer index")
            return int(c)
        for _ in range(400):
            i = len(self.trace)
            if i < len(self.prefix):
                v = self.prefix[i]
                self.trace.append(v)
            else:
                r, m = self.check()
                if r == "unsat":
                    raise Infeasible()
                if m is None:
                    raise Unsupported("cannot enumerate an integer")
                val = m.eval(s.z3(), model_completion=True)
                try:
                    v = Fraction(str(val)) if not z3.is_algebraic_value(val) else None
                except Exception:
                    v = None
                if v is None:
                    raise Unsupported("cannot enumerate an integer")
                v = int(math.floor(v))
                self.trace.append(v)
            if self.decide(s.z3() == v, "int"):
                return v
        raise Unsupported("integer enumeration too long")

    # -- sign knowledge -------------------------------------------------------
    def sign_of(self, p):
        """+1/-1 when the polynomial's sign is determined, 0 unknown; cached"""
        if P.is_const(p):
            c = P.const_val(p)
            return 1 if c > 0 else (-1 if c < 0 else 0)
        k = P.key(p)
        if k in self.sign_memo:
            return self.sign_memo[k]
        lo, hi = self.interval(p)
        if lo is not None and lo > 1e-9:
            r = 1
        elif hi is not None and hi < -1e-9:
            r = -1
        else:
            z = self.pz3(p)
            r = 0
            if self.check(z <= 0, timeout=400)[0] == "unsat":
                r = 1
            elif self.check(z >= 0, timeout=400)[0] == "unsat":
                r = -1
        self.sign_memo[k] = r
        return r

    def require_nonzero(self, p, what):
        if P.is_const(p):
            return
        k = P.key(p)
        if k in self.sign_memo and self.sign_memo[k]:
            return
        if ("nz", k) in self.sign_memo:
            return
        if self.sign_of(p):
            return
        self.sign_memo[("nz", k)] = True
        z = self.pz3(p)
        r, _ = self.check(z == 0, timeout=400)
        if r != "unsat":
            self.assumed_nonzero.append(self.pstr(p)[:120])
            if self.check(z != 0)[0] == "unsat":
                raise ZeroDivisionError("division by zero")
            self.add(z != 0)

    # -- intervals ------------------------------------------------------------
    def interval(self, p):
        lo = hi = 0.0
        for m, c in p.items():
            a = b = float(c)
            for i, e in m:
                at = self.atoms[i]
                if at.lo is None or at.hi is None:
                    return None, None
                l, h = float(at.lo), float(at.hi)
                if e % 2 == 0 and l < 0 < h:
                    l, h = 0.0, max(l ** e, h ** e)
                else:
                    x, y = l ** e, h ** e
                    l, h = min(x, y), max(x, y)
                v = (a * l, a * h, b * l, b * h)
                a, b = min(v), max(v)
            lo += a
            hi += b
        return lo, hi

    def interval_sym(self, s):
        kb = getattr(self, "known_bounds", None)
        if kb and s.n:
            hit = kb.get(s.key())
            if hit:
                return hit
        lo, hi = self.interval(s.n)
        if lo is None:
            return None, None
        for f, e in s.den_items():
            l, h = self.interval(f)
            if l is None or l <= 0 <= h:
                return None, None
            for _ in range(e):
                v = (lo / l, lo / h, hi / l, hi / h)
                lo, hi = min(v), max(v)
        return lo, hi

    # -- z3 / printing / evaluation ---------------------------------------------
    def mz3(self, m):
        t = None
        for i, e in m:
            z = self.atoms[i].zr
            for _ in range(e):
                t = z if t is None else t * z
        return t

    def pz3(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in sorted(p.items(), key=lambda kv: str(kv[0])):
            t = self.mz3(m)
            if t is None:
                ts.append(frac_z3(c))
            elif c == 1:
                ts.append(t)
            else:
                ts.append(frac_z3(c) * t)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def pstr(self, p):
        if not p:
            return "0"
        out = []
        for m, c in list(p.items())[:40]:
            out.append(str(c) + "".join(f"*{self.atoms[i].name}" + (f"^{e}" if e > 1 else "")
                                        for i, e in m))
        return " + ".join(out) + (" ..." if len(p) > 40 else "")

    def peval(self, p, env):
        t = 0.0
        for m, c in p.items():
            v = float(c)
            for i, e in m:
                v *= self.aeval(i, env) ** e
            t += v
        return t

    def aeval(self, i, env):
        a = self.atoms[i]
        cache = env.setdefault("__cache__", {})
        if i in cache:
            return cache[i]
        if a.name in env:
            v = float(env[a.name])
        elif a.ev is not None:
            v = a.ev(env)
        elif "__free__" in env:
            lo = -2.0 if a.lo is None else float(a.lo)
            hi = 2.0 if a.hi is None else float(a.hi)
            u = 0.1 + 0.8 * (math.sin(12.9898 * (i + 1)) * 43758.5453 % 1)
            v = float(round(lo + u * (hi - lo))) if a.is_int else lo + u * (hi - lo)
        else:
            raise Unevaluable(a.name)
        cache[i] = v
        return v

    # -- sqrt -----------------------------------------------------------------
    def sqrt(self, s):
        s = Sym.of(s)
        c = s.const()
        if c is not None and c < 0:
            raise Unsupported("sqrt of negative constant")
        if not s.n:
            return Sym.of(0)
        # sqrt(n/d) = sqrt(n*d)/|d|
        n = s.n
        den = Sym.of(1)
        for f, e in s.den_items():
            if e % 2:
                n = P.mul(n, f, self.rel)
                e += 1
            t = Sym(f)
            for _ in range(e // 2):
                den = den * t
        num = self.sqrt_poly(n)
        if den.const() == 1:
            return num
        return num / self.sabs(den)

    def sqrt_poly(self, p):
        k = P.key(p)
        if k in self.sqrt_memo:
            return self.sqrt_memo[k]
        cont = P.content(p)
        body = P.scale(p, Fraction(1) / cont)
        # leading sign: if body is a negative constant etc
        if P.is_const(body) and P.const_val(body) < 0:
            raise Unsupported("sqrt of negative constant")
        outer = Sym.of(1)
        # monomial squares
        g = P.mono_gcd_all(body)
        for i, e in g:
            if e >= 2:
                q = e // 2
                a = Sym({((i, 1),): 1})
                body = P.exact_div(body, {((i, 2 * q),): 1})
                for _ in range(q):
                    outer = outer * a
        # rational part
        num, den = cont.numerator, cont.denominator
        r2 = num * den
        sq = 1
        f = 2
        rr = r2
        while f * f <= rr and f < 2000:
            while rr % (f * f) == 0:
                rr //= f * f
                sq *= f
            f += 1
        root = P.rat_sqrt(Fraction(rr))
        if root is not None:
            csq = Fraction(sq) * root / den
            crest = 1
        else:
            csq = Fraction(sq, den)
            crest = rr
        res = None
        if P.is_const(body) and P.const_val(body) == 1:
            res = Sym.of(1)
        else:
            res = self._trig_sqrt(body)
            if res is None and crest != 1:
                r3 = self._trig_sqrt(P.scale(body, crest))
                if r3 is not None:
                    res, crest = r3, 1
        if res is not None:
            out = self.sabs(res * outer) * csq
            if crest != 1:
                out = out * self._sqrt_atom({(): crest})
        else:
            q = self._sqrt_atom(P.scale(body, crest))
            o = outer if outer.const() is not None else self.sabs(outer)
            out = q * o * csq
        self.sqrt_memo[k] = out
        return out

    def _sqrt_atom(self, body):
        k = P.key(body)
        kk = ("atom", k)
        if kk in self.sqrt_memo:
            return self.sqrt_memo[kk]
        lo, hi = self.interval(body)
        if P.is_const(body):
            v = math.sqrt(P.const_val(body))
            alo = ahi = v
        else:
            alo = math.sqrt(max(lo, 0)) if lo is not None else 0.0
            ahi = math.sqrt(max(hi, 0)) if hi is not None else None
        a = self.new_atom(self.fresh("sqrt"), "sqrt", lo=alo, hi=ahi,
                          ev=lambda env, b=body: math.sqrt(max(self.peval(b, env), 0.0)))
        z = self.pz3(body)
        self.add(a.z >= 0, a.z * a.z == z)
        if P.is_const(body):
            f = Fraction(math.sqrt(P.const_val(body)))
            self.add(a.z > frac_z3(f - Fraction(1, 10 ** 9)), a.z < frac_z3(f + Fraction(1, 10 ** 9)))
        self.rel[a.id] = body
        r = self.sym(a)
        self.sqrt_memo[kk] = r
        return r

    def _trig_sqrt(self, body):
        """perfect square root of a polynomial, using half-tangents for angle atoms"""
        if len(body) > 600:
            return None
        r = P.poly_sqrt(body)
        if r is not None:
            return Sym(r)
        ids = {i for m in body for i, _ in m}
        trig = []
        for u in self.units.values():
            ci, si = u.c.single_atom(), u.s.single_atom()
            if ci is not None and si is not None and (ci in ids or si in ids):
                trig.append((ci, si))
        others_rel = [i for i in ids if i in self.rel and i not in [s for _, s in trig]]
        if not trig or len(trig) > 4:
            return None
        # c=(1-t^2)/(1+t^2), s=2t/(1+t^2); reuse atom id of c as t
        p = body
        degs = []
        for ci, si in trig:
            d = max(sum(e for i, e in m if i in (ci, si)) for m in p)
            if d % 2:
                d += 1
            out = {}
            t = ci
            A = {(): 1, ((t, 2),): -1}
            B = {((t, 1),): 2}
            C = {(): 1, ((t, 2),): 1}

            def pw(q, n):
                r = {(): 1}
                for _ in range(n):
                    r = P.raw_mul(r, q)
                return r
            for m, c in p.items():
                dm = dict(m)
                a = dm.pop(ci, 0)
                b = dm.pop(si, 0)
                f = P.raw_mul(P.raw_mul(pw(A, a), pw(B, b)), pw(C, d - a - b))
                out = P.add(out, P.raw_mul(f, {tuple(sorted(dm.items())): c}))
            p = out
            degs.append(d)
            if len(p) > 4000:
                return None
        r = P.poly_sqrt(p)
        if r is None:
            return None
        # back substitution, degree d/2 in (c,s)
        res = r
        for (ci, si), d in zip(trig, degs):
            k = d // 2
            out = {}
            u = {(): Fraction(1, 2), ((ci, 1),): Fraction(-1, 2)}
            v = {(): Fraction(1, 2), ((ci, 1),): Fraction(1, 2)}

            def pw(q, n):
                rr = {(): 1}
                for _ in range(n):
                    rr = P.raw_mul(rr, q)
                return rr
            for m, c in res.items():
                dm = dict(m)
                j = dm.pop(ci, 0)
                if j > 2 * k:
                    return None
                if j % 2 == 0:
                    f = P.raw_mul(pw(u, j // 2), pw(v, k - j // 2))
                else:
                    f = P.raw_mul(P.raw_mul(pw(u, (j - 1) // 2), pw(v, k - (j + 1) // 2)),
                                  {((si, 1),): Fraction(1, 2)})
                out = P.add(out, P.raw_mul(f, {tuple(sorted(dm.items())): c}))
            res = P.reduce(out, self.rel)
        if P.mul(res, res, self.rel) != body:
            return None
        return Sym(res)

    def sabs(self, s):
        s = Sym.of(s)
        c = s.const()
        if c is not None:
            return Sym.of(abs(c))
        sg = self.sign_of(s.n)
        for f, e in s.den_items():
            if e % 2:
                sg *= self.sign_of(f)
        if sg > 0:
            return s
        if sg < 0:
            return -s
        if bool(s >= 0):
            return s
        return -s

    # -- angles -----------------------------------------------------------------
    def register_angle(self, sym_atom_id, c, s):
        self.angle_vals[sym_atom_id] = (c, s)

    def _ukey(self, m, den):
        return (tuple((self.atoms[i].name, e) for i, e in m),
                tuple(sorted((self.pstr(f), e) for f, e in den)))

    def cos_sin(self, arg):
        arg = Sym.of(arg)
        C, S = Sym.of(1), Sym.of(0)
        den = arg.den_items()
        for m, c in sorted(arg.n.items(), key=lambda kv: str(kv[0])):
            # cancel single-atom denominators against the monomial
            term = Sym({m: 1}, dict(arg.d)).simplify()
            (mm, cc), = term.n.items() if len(term.n) == 1 else ((m, 1),)
            if len(term.n) != 1:
                raise Unsupported("angle term")
            c2 = Fraction(c) * Fraction(cc)
            cs = self._term_cs(mm, term.den_items(), c2)
            if cs is None:
                continue
            c1, s1 = cs
            C, S = C * c1 - S * s1, S * c1 + C * s1
        return C, S

    def no_lazy(self, p):
        """lazily made Euler angles are only for from_euler: anything else needs them exact"""
        if self.lazy and any(i in self.lazy for m in p for i, _ in m):
            self.units_hint["__euler_exact"] = True
            raise Restart()

    def _term_cs(self, m, den, c):
        self.no_lazy([m])
        if m == ((self.pi.id, 1),) and not den:
            q = c % 2
            j = math.floor(q * 2 + Fraction(1, 2))
            r = q - Fraction(j, 2)          # |r| <= 1/4
            j %= 4
            tab = [(1, 0), (0, 1), (-1, 0), (0, -1)][j]
            if r == 0:
                return Sym.of(tab[0]), Sym.of(tab[1])
            cr, sr = self._unit_cs(m, den, r)
            a, b = tab
            return cr * a - sr * b, sr * a + cr * b
        ints = [i for i, e in m if self.atoms[i].is_int]
        if not den and len(ints) == len(m) - 1 and (self.pi.id, 1) in m and ints:
            if c.denominator == 1 and c.numerator % 2 == 0:
                return None
            if c.denominator == 1 and len(ints) == 1 and m[1][1] == 1:
                # cos(odd*k*pi) = (-1)^k
                k = Sym({((ints[0], 1),): 1})
                h = self.new_int(self.fresh("par"))
                hs = self.sym(h)
                if self.decide(k.z3() == 2 * h.zr, "parity"):
                    return Sym.of(1), Sym.of(0)
                self.add(k.z3() == 2 * h.zr + 1) if False else None
                return Sym.of(-1), Sym.of(0)
        return self._unit_cs(m, den, c)

    def new_int(self, name, lo=None, hi=None, ev=None):
        a = self.new_atom(name, "int", lo, hi, ev, is_int=True)
        if lo is not None:
            self.add(a.z >= lo)
        if hi is not None:
            self.add(a.z <= hi)
        return a

    def _unit_cs(self, m, den, c):
        key = self._ukey(m, den)
        u = self.units.get(key)
        if u is None:
            L = self.units_hint.get(key, 1)
            if (c * L).denominator != 1:
                L = L * c.denominator // math.gcd(L, c.denominator)
                self.units_hint[key] = L
            u = self._make_unit(key, m, den, L)
        k = c * u.L
        if k.denominator != 1:
            nl = u.L * c.denominator // math.gcd(u.L, c.denominator)
            if nl > 720:
                raise Unsupported("angle granularity")
            self.units_hint[key] = nl
            raise Restart()
        return self._multiple(u, int(k))

    def _multiple(self, u, k):
        if k < 0:
            c, s = self._multiple(u, -k)
            return c, -s
        ms = u.multiples
        if k in ms:
            return ms[k]
        if k > 400:
            raise Unsupported("angle multiple too large")
        h = k // 2
        c1, s1 = self._multiple(u, h)
        c2, s2 = self._multiple(u, k - h)
        r = (c1 * c2 - s1 * s2, s1 * c2 + c1 * s2)
        ms[k] = r
        return r

    def _make_unit(self, key, m, den, L):
        u = AngleUnit()
        u.key, u.L = key, L
        d = {}
        th = Sym({m: Fraction(1, L)}, {P.key(f): (f, e) for f, e in den})
        u.theta = th
        nm = "*".join(n + (f"^{e}" if e > 1 else "") for n, e in key[0]) or "1"
        if key[1]:
            nm += "/(" + ")(".join(n + (f"^{e}" if e > 1 else "") for n, e in key[1]) + ")"
        if L != 1:
            nm += f"/{L}"
        natural = len(m) == 1 and m[0][1] == 1 and not den and m[0][0] in self.angle_vals
        u.natural = natural
        lo, hi = self.interval_sym(th)
        u.lo, u.hi = lo, hi
        special = None
        if m == ((self.pi.id, 1),) and not den:
            if L == 3:
                special = (Sym.of(Fraction(1, 2)), self.sqrt(3) / 2)
            elif L == 4:
                special = (self.sqrt(2) / 2, self.sqrt(2) / 2)
            elif L == 6:
                special = (self.sqrt(3) / 2, Sym.of(Fraction(1, 2)))
            elif L == 1:
                special = (Sym.of(-1), Sym.of(0))
            elif L == 2:
                special = (Sym.of(0), Sym.of(1))
        if special:
            u.c, u.s = special
        elif natural and L == 1:
            u.c, u.s = self.angle_vals[m[0][0]]
        elif natural and L == 2:
            c, s = self.angle_vals[m[0][0]]
            cu = self.sqrt((1 + c) / 2)
            u.c, u.s = cu, s * cu / (1 + c)
        else:
            def th_ev(env):
                return self.seval(th, env)
            clo, chi, slo, shi = -1.0, 1.0, -1.0, 1.0
            if lo is not None:
                clo, chi = trig_range(math.cos, lo, hi, 0.0)
                slo, shi = trig_range(math.sin, lo, hi, math.pi / 2)
            ca = self.new_atom(f"cos[{nm}]", "cos", clo, chi, lambda env: math.cos(th_ev(env)))
            sa = self.new_atom(f"sin[{nm}]", "sin", slo, shi, lambda env: math.sin(th_ev(env)))
            self.rel[sa.id] = {(): 1, ((ca.id, 2),): -1}
            u.c, u.s = self.sym(ca), self.sym(sa)
            cz, sz = ca.z, sa.z
            self.add(cz * cz + sz * sz == 1)
            for z, l, h in ((cz, clo, chi), (sz, slo, shi)):
                if l > -1:
                    self.add(z >= frac_z3(Fraction(l).limit_denominator(10 ** 8) - Fraction(1, 10 ** 7)))
                if h < 1:
                    self.add(z <= frac_z3(Fraction(h).limit_denominator(10 ** 8) + Fraction(1, 10 ** 7)))
            if not (lo is not None and lo == hi):
                self._trig_facts(th, cz, sz, lo, hi)
            if natural:
                # chebyshev link to the declared cosine/sine
                self.units[key] = u
                u.multiples = {0: (Sym.of(1), Sym.of(0)), 1: (u.c, u.s)}
                cL, sL = self._multiple(u, L)
                c, s = self.angle_vals[m[0][0]]
                self.add((cL - c).z3_eq0(), (sL - s).z3_eq0())
        u.multiples = {0: (Sym.of(1), Sym.of(0)), 1: (u.c, u.s)}
        self.units[key] = u
        return u

    def _trig_facts(self, th, c, s, lo, hi):
        t = th.z3()
        pi = self.pi.z
        A = self.add
        inb = lambda a, b: lo is not None and lo > a + 1e-7 and hi < b - 1e-7
        if inb(0, math.pi):
            A(s > 0, s < t)
        elif inb(-math.pi, 0):
            A(s < 0, s > t)
        else:
            A(z3.Implies(z3.And(t > 0, t < pi), s > 0))
            A(z3.Implies(z3.And(t < 0, t > -pi), s < 0))
            A(z3.Implies(t == 0, z3.And(s == 0, c == 1)))
            if lo is None or lo < -math.pi + 1e-6 or hi > math.pi - 1e-6:
                A(z3.Implies(z3.Or(t == pi, t == -pi), z3.And(s == 0, c == -1)))
            if lo is None or hi > math.pi + 1e-7:
                A(z3.Implies(z3.And(t > pi, t < 2 * pi), s < 0))
            if lo is None or lo < -math.pi - 1e-7:
                A(z3.Implies(z3.And(t < -pi, t > -2 * pi), s > 0))
            A(z3.Implies(t >= 0, s <= t), z3.Implies(t <= 0, s >= t))
        if not inb(-math.pi / 2, math.pi / 2):
            A(z3.Implies(z3.And(t > -pi / 2, t < pi / 2), c > 0))
            if lo is None or hi > math.pi / 2 - 1e-6:
                A(z3.Implies(z3.And(t > pi / 2, t < 3 * pi / 2), c < 0))
                A(z3.Implies(t == pi / 2, z3.And(c == 0, s == 1)))
            if lo is None or lo < -math.pi / 2 + 1e-6:
                A(z3.Implies(z3.And(t < -pi / 2, t > -3 * pi / 2), c < 0))
                A(z3.Implies(t == -pi / 2, z3.And(c == 0, s == -1)))
        else:
            A(c > 0)

    def fresh_angle(self, base, c, s, lo, hi, closed_lo=True, closed_hi=True, ev=None):
        """angle atom with known cosine and sine, in [lo*pi, hi*pi]"""
        mk = ("ang", base, c.key(), s.key())
        if mk in self.sqrt_memo:
            return self.sqrt_memo[mk]
        self.sqrt_memo[mk] = r = self._fresh_angle(base, c, s, lo, hi, closed_lo, closed_hi, ev)
        return r

    def _fresh_angle(self, base, c, s, lo, hi, closed_lo, closed_hi, ev):
        a = self.new_atom(self.fresh(base), "angle", float(lo) * math.pi,
                          float(hi) * math.pi, ev)
        pi = self.pi.z
        l, h = frac_z3(lo) * pi, frac_z3(hi) * pi
        self.add(a.z >= l if closed_lo else a.z > l)
        self.add(a.z <= h if closed_hi else a.z < h)
        self.angle_vals[a.id] = (c, s)
        # sign facts (with the sine/cosine terms)
        if not (c.const() is not None and s.const() is not None):
            t = a.z
            cs, ss = c.z3_sign(), s.z3_sign()
            add = self.add
            add(z3.Implies(ss > 0, z3.And(t > 0, t < pi)))
            add(z3.Implies(ss < 0, z3.And(t < 0, t > -pi)))
            add(z3.Implies(z3.And(ss == 0, cs > 0), t == 0))
            add(z3.Implies(cs > 0, z3.And(t > -pi / 2, t < pi / 2)))
            add(z3.Implies(cs < 0, z3.Or(t > pi / 2, t < -pi / 2)))
            add(z3.Implies(cs == 0, z3.Or(t == pi / 2, t == -pi / 2)))
        return self.sym(a)

    def match_angle(self, c, s, lo, hi):
        """find a known linear angle with these cosine/sine values; lo/hi in units of
        pi delimit the principal range (hi closed)."""
        # constant directions
        for j, (a, b) in enumerate([(1, 0), (0, 1), (-1, 0), (0, -1)]):
            if (c - a).is_zero() and (s - b).is_zero():
                q = Fraction(j, 2)
                if q > hi:
                    q -= 2
                return self.PI * q
        us = list(self.units.values())
        singles = []
        for u in us:
            for k in sorted({1, 2, 3, 4, u.L, 2 * u.L}):
                if k > 24:
                    continue
                try:
                    singles.append((u.theta * k, *self._multiple(u, k), 1 if k == u.L else 2 if k == 2 * u.L else 0))
                except (Unsupported, P.TooBig):
                    pass
        quart = [(Sym.of(1), Sym.of(0), 0), (Sym.of(0), Sym.of(1), Fraction(1, 2)),
                 (Sym.of(-1), Sym.of(0), Fraction(1)), (Sym.of(0), Sym.of(-1), Fraction(-1, 2))]

        def test(val, cc, ss):
            for sg in (1, -1):
                for qc, qs, q in quart:
                    c2 = cc * qc - ss * sg * qs
                    s2 = ss * sg * qc + cc * qs
                    if (c - c2).is_zero() and (s - s2).is_zero():
                        return self._principal(val * sg + self.PI * q, lo, hi)
            return None
        for a in getattr(self, "hint_angles", ()):
            singles.append((a, *self.cos_sin(a), 0))
        for val, cc, ss, _ in singles:
            r = test(val, cc, ss)
            if r is not None:
                return r
        # sums of up to three known angles, found by value at a probe point, then shown
        # to be identities
        nat = sorted((x for x in singles if x[3]), key=lambda x: x[3])
        env = {"__free__": True}

        def num(x):
            try:
                return self.seval(x, env)
            except (Unevaluable, ZeroDivisionError, OverflowError, ValueError):
                return None
        cn, sn = num(c), num(s)
        if cn is None or sn is None or abs(cn * cn + sn * sn - 1) > 1e-6:
            return None
        want = math.atan2(sn, cn)
        nums = []
        for v, c1, s1, _ in nat:
            a1, b1 = num(c1), num(s1)
            if a1 is not None and b1 is not None and abs(a1 * a1 + b1 * b1 - 1) < 1e-6:
                nums.append((v, c1, s1, math.atan2(b1, a1)))
        nums = nums[:64]

        def hit(t):
            r = (t - want) / (math.pi / 2)
            return abs(r - round(r)) < 1e-6 or (lambda q: abs(q - round(q)) < 1e-6)((-t - want) / (math.pi / 2))

        def combine(items):
            cc, ss, val = Sym.of(1), Sym.of(0), Sym.of(0)
            for (v, c1, s1, _), sg in items:
                cc, ss = cc * c1 - ss * s1 * sg, ss * c1 + cc * s1 * sg
                val = val + v * sg
            return test(val, cc, ss)
        n = len(nums)
        for i in range(n):
            for j in range(i + 1, n):
                for sg in (1, -1):
                    t = nums[i][3] + sg * nums[j][3]
                    if hit(t):
                        r = combine([(nums[i], 1), (nums[j], sg)])
                        if r is not None:
                            return r
        if n <= 64:
            for i in range(n):
                for j in range(i + 1, n):
                    for k in range(j + 1, n):
                        for sg in (1, -1):
                            for sh in (1, -1):
                                if hit(nums[i][3] + sg * nums[j][3] + sh * nums[k][3]):
                                    r = combine([(nums[i], 1), (nums[j], sg), (nums[k], sh)])
                                    if r is not None:
                                        return r
        return None

    def _principal(self, val, lo, hi):
        """val + 2*pi*n in (lo*pi, hi*pi]"""
        l, h = self.interval_sym(val)
        if l is not None and l > lo * math.pi + 1e-9 and h <= hi * math.pi - 1e-9:
            return val
        z = val.z3()
        pi = self.pi.z
        if self.check(z3.Or(z <= frac_z3(lo) * pi, z > frac_z3(hi) * pi), timeout=400)[0] == "unsat":
            return val

        def ev(env, self=self, val=val):
            v = self.seval(val, env)
            n = 0
            while v + 2 * math.pi * n > float(hi) * math.pi + 1e-12:
                n -= 1
            while v + 2 * math.pi * n <= float(lo) * math.pi + 1e-12:
                n += 1
            return n
        n = self.new_int(self.fresh("wrap"), ev=ev)
        ns = self.sym(n)
        out = val + 2 * self.PI * ns
        oz = out.z3()
        self.add(oz > frac_z3(lo) * pi, oz <= frac_z3(hi) * pi)
        if l is not None:
            kmin = math.floor((float(lo) * math.pi - h) / (2 * math.pi)) - 1
            kmax = math.ceil((float(hi) * math.pi - l) / (2 * math.pi)) + 1
            self.add(n.z >= kmin, n.z <= kmax)
            n.lo, n.hi = kmin, kmax
        return out

    def atan2(self, y, x):
        y, x = Sym.of(y), Sym.of(x)
        r2 = x * x + y * y
        if r2.is_zero():
            return Sym.of(0)
        if x.is_zero():
            if y.const() is not None:
                return self.PI / 2 * (1 if y.const() > 0 else -1)
        if y.is_zero():
            return Sym.of(0) if bool(x >= 0) else self.PI
        r = self.sqrt(r2)
        if self.sign_of(r.n) == 0:
            if not bool(r > 0):
                return Sym.of(0)
        c, s = x / r, y / r
        c, s = c.tidy(), s.tidy()
        a = self.match_angle(c, s, -1, 1)
        if a is not None:
            return a
        return self.fresh_angle("atan2", c, s, -1, 1, closed_lo=False,
                                ev=lambda env: math.atan2(self.seval(y, env), self.seval(x, env)))

    def arccos(self, x):
        x = Sym.of(x)
        s = self.sqrt(1 - x * x)
        a = self.match_angle(x, s, -1, 1)
        if a is not None:
            return a
        return self.fresh_angle("acos", x, s, 0, 1,
                                ev=lambda env: math.acos(max(-1, min(1, self.seval(x, env)))))

    def arcsin(self, x):
        x = Sym.of(x)
        c = self.sqrt(1 - x * x)
        a = self.match_angle(c, x, -1, 1)
        if a is not None:
            return a
        return self.fresh_angle("asin", c, x, Fraction(-1, 2), Fraction(1, 2),
                                ev=lambda env: math.asin(max(-1, min(1, self.seval(x, env)))))

    def arctan(self, x):
        x = Sym.of(x)
        if x.is_zero():
            return Sym.of(0)
        d = self.sqrt(1 + x * x)
        c, s = (1 / d).tidy(), (x / d).tidy()
        a = self.match_angle(c, s, -1, 1)
        if a is not None:
            return a
        return self.fresh_angle("atan", c, s, Fraction(-1, 2), Fraction(1, 2), False, False,
                                ev=lambda env: math.atan(self.seval(x, env)))

    def floor(self, x):
        x = Sym.of(x)
        c = x.const()
        if c is not None:
            return Sym.of(math.floor(c))
        a = x.single_atom()
        if a is not None and self.atoms[a].is_int:
            return x
        if all(all(self.atoms[i].is_int for i, _ in m) and Fraction(cc).denominator == 1
               for m, cc in x.n.items()) and not x.d:
            return x
        k = ("floor", x.key())
        if k in self.sqrt_memo:
            return self.sqrt_memo[k]
        lo, hi = self.interval_sym(x)
        if lo is not None and hi is not None and math.floor(lo - 1e-6) == math.floor(hi + 1e-6):
            return Sym.of(math.floor(lo))
        n = self.new_int(self.fresh("floor"),
                         lo=None if lo is None else math.floor(lo - 1e-6),
                         hi=None if hi is None else math.floor(hi + 1e-6),
                         ev=lambda env: math.floor(self.seval(x, env) + 1e-13))
        z = x.z3()
        self.add(n.zr <= z, z < n.zr + 1)
        r = self.sym(n)
        self.sqrt_memo[k] = r
        return r

    def seval(self, s, env):
        v = self.peval(s.n, env)
        for f, e in s.den_items():
            v /= self.peval(f, env) ** e
        return v


class Unevaluable(Exception):
    pass


def trig_range(f, lo, hi, peak):
    """range of cos/sin over [lo,hi]; peak = angle of the maximum"""
    a, b = f(lo), f(hi)
    mn, mx = min(a, b), max(a, b)
    k = math.ceil((lo - peak) / (2 * math.pi))
    if peak + 2 * math.pi * k <= hi:
        mx = 1.0
    k = math.ceil((lo - peak - math.pi) / (2 * math.pi))
    if peak + math.pi + 2 * math.pi * k <= hi:
        mn = -1.0
    return mn, mx


class Sym:
    __slots__ = ("n", "d", "_k")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}
        self._k = None

    @staticmethod
    def of(v):
        if isinstance(v, Sym):
            return v
        if isinstance(v, SBool):
            return Sym({(): 1}) if bool(v) else Sym({})
        import numpy as np
        if isinstance(v, np.ndarray) and v.ndim == 0:
            return Sym.of(v.item())
        if isinstance(v, np.ndarray) and v.size == 1:
            return Sym.of(v.reshape(()).item())
        return Sym(P.const(to_frac(v)))

    # -- structure ------------------------------------------------------------
    def den_items(self):
        return [fe for _, fe in sorted(self.d.items(), key=lambda kv: CTX.pstr(kv[1][0]))]

    def const(self):
        if not self.d and P.is_const(self.n):
            return P.const_val(self.n)
        return None

    def is_zero(self):
        return not self.n

    def single_atom(self):
        if self.d or len(self.n) != 1:
            return None
        (m, c), = self.n.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
        return None

    def key(self):
        if self._k is None:
            self._k = (P.key(self.n), frozenset((k, fe[1]) for k, fe in self.d.items()))
        return self._k

    def __hash__(self):
        return hash(self.key())

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        s = CTX.pstr(self.n)
        if self.d:
            s = f"({s})/" + "".join(f"({CTX.pstr(f)})^{e}" for f, e in self.den_items())
        return s[:400]

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def simplify(self):
        """cancel denominator factors that divide the numerator"""
        if not self.d:
            return self
        if not self.n:
            return Sym({})
        n = self.n
        d = {}
        changed = False
        for k, (f, e) in self.d.items():
            while e > 0:
                if len(f) > 1 and (len(n) < len(f) and len(n) < 2):
                    break
                q = P.exact_div(n, f, 4000)
                if q is None:
                    break
                n = q
                e -= 1
                changed = True
            if e:
                d[k] = (f, e)
        if not changed:
            return self
        n = P.reduce(n, CTX.rel)
        return Sym(n, d)

    def tidy(self):
        """rationalise single sqrt denominators and cancel"""
        return self.simplify()

    # -- arithmetic --------------------------------------------------------------
    def __add__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        if not self.d and not o.d:
            return Sym(P.add(self.n, o.n))
        if not self.n:
            return o
        if not o.n:
            return self
        rel = CTX.rel
        if self.d.keys() == o.d.keys() and all(self.d[k][1] == o.d[k][1] for k in self.d):
            return Sym(P.add(self.n, o.n), self.d).simplify()
        d = dict(self.d)
        a, b = self.n, o.n
        for k, (f, e) in o.d.items():
            e0 = d[k][1] if k in d else 0
            if e > e0:
                for _ in range(e - e0):
                    a = P.mul(a, f, rel)
                d[k] = (f, e)
        for k, (f, e) in d.items():
            e1 = o.d[k][1] if k in o.d else 0
            for _ in range(e - e1):
                b = P.mul(b, f, rel)
        return Sym(P.add(a, b), d).simplify()

    __radd__ = __add__

    def __neg__(self):
        return Sym(P.neg(self.n), self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        if not self.n or not o.n:
            return Sym({})
        if not self.d and not o.d:
            return Sym(P.mul(self.n, o.n, CTX.rel))
        d = dict(self.d)
        for k, (f, e) in o.d.items():
            d[k] = (f, e + (d[k][1] if k in d else 0))
        r = Sym(P.mul(self.n, o.n, CTX.rel), d)
        return r.simplify()

    __rmul__ = __mul__

    def inverse(self):
        if not self.n:
            raise ZeroDivisionError("division by zero")
        CTX.require_nonzero(self.n, "division")
        rel = CTX.rel
        # numerator of result
        num = {(): 1}
        for f, e in self.den_items():
            for _ in range(e):
                num = P.mul(num, f, rel)
        # denominator factors of self.n
        n = self.n
        cont = P.content(n)
        ld = max(n, key=lambda m: str(m))
        if n[ld] < 0:
            cont = -cont
        n = P.scale(n, Fraction(1) / cont)
        num = P.scale(num, Fraction(1) / Fraction(cont))
        d = {}
        g = P.mono_gcd_all(n)
        for i, e in g:
            n = P.exact_div(n, {((i, e),): 1})
            for _ in range(e):
                num, d = _inv_atom(i, num, d)
        if not (P.is_const(n)):
            # rationalise A + B*q for a single relation atom (q^2 = X)
            ids = [i for i in {i for m in n for i, _ in m} if i in rel]
            if len(ids) == 1 and len(n) <= 12:
                i = ids[0]
                A = {m: c for m, c in n.items() if all(j != i for j, _ in m)}
                B = {P.mono_div(m, ((i, 1),)): c for m, c in n.items() if any(j == i for j, _ in m)}
                nn = P.sub(P.mul(A, A, rel), P.mul(P.mul(B, B, rel), rel[i], rel))
                if nn and len(nn) <= len(n) + 2:
                    r, _ = CTX.check(CTX.pz3(nn) == 0, timeout=300) if not CTX.sign_of(nn) else ("unsat", None)
                    if r == "unsat":
                        conj = P.sub(A, P.mul(B, {((i, 1),): 1}, rel))
                        num = P.mul(num, conj, rel)
                        c2 = P.content(nn)
                        num = P.scale(num, Fraction(1) / c2)
                        n = P.scale(nn, Fraction(1) / c2)
            n, num, d = _split_factors(n, num, d)
        else:
            num = P.scale(num, Fraction(1) / P.const_val(n))
        return Sym(num, d).simplify()

    def __truediv__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        c = o.const()
        if c is not None:
            if c == 0:
                raise ZeroDivisionError("division by zero")
            return Sym(P.scale(self.n, Fraction(1) / c), self.d)
        if not self.n:
            CTX.require_nonzero(o.n, "division")
            return Sym({})
        return self * o.inverse()

    def __rtruediv__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        return o / self

    def __pow__(self, e):
        if isinstance(e, Sym):
            e = e.const()
            if e is None:
                raise Unsupported("symbolic exponent")
        e = Fraction(to_frac(e))
        if e.denominator == 1:
            k = int(e)
            if k < 0:
                return (1 / self) ** (-k)
            r = Sym.of(1)
            b = self
            while k:
                if k & 1:
                    r = r * b
                k >>= 1
                if k:
                    b = b * b
            return r
        if e.denominator == 2:
            r = CTX.sqrt(self)
            return r ** e.numerator
        raise Unsupported("fractional power")

    def __rpow__(self, o):
        c = self.const()
        if c is None:
            if CTX_all_int(self):
                k = CTX.realize_int(self)
                return Sym.of(o) ** k
            raise Unsupported("symbolic exponent")
        return Sym.of(o) ** c

    def __floordiv__(self, o):
        return CTX.floor(self / o)

    def __rfloordiv__(self, o):
        return CTX.floor(Sym.of(o) / self)

    def __mod__(self, o):
        o = Sym.of(o)
        return self - o * CTX.floor(self / o)

    def __rmod__(self, o):
        return Sym.of(o) % self

    def __divmod__(self, o):
        f = self // o
        return f, self - f * Sym.of(o)

    def __abs__(self):
        return CTX.sabs(self)

    def __floor__(self):
        return CTX.floor(self)

    def __ceil__(self):
        return -CTX.floor(-self)

    def __round__(self, n=None):
        return CTX.floor(self + Fraction(1, 2))

    # numpy object-ufunc hooks
    def sqrt(self):
        return CTX.sqrt(self)

    def cos(self):
        return CTX.cos_sin(self)[0]

    def sin(self):
        return CTX.cos_sin(self)[1]

    def tan(self):
        c, s = CTX.cos_sin(self)
        return s / c

    def arctan(self):
        return CTX.arctan(self)

    def arccos(self):
        return CTX.arccos(self)

    def arcsin(self):
        return CTX.arcsin(self)

    def arctan2(self, x):
        return CTX.atan2(self, x)

    def floor(self):
        return CTX.floor(self)

    def ceil(self):
        return -CTX.floor(-self)

    def conjugate(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Sym.of(0)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def is_integer(self):
        return (self - CTX.floor(self)) == 0

    # -- conversions -----------------------------------------------------------
    def __float__(self):
        c = self.const()
        if c is None:
            raise Unsupported("concretisation of a symbolic value (float)")
        return float(c)

    def __int__(self):
        c = self.const()
        if c is not None:
            return int(c)
        return CTX.realize_int(CTX.floor(self))

    def __index__(self):
        return CTX.realize_int(self)

    def __bool__(self):
        return bool(self != 0)

    # -- comparisons ---------------------------------------------------------------
    def __lt__(self, o):
        return _cmp(self, o, "<")

    def __le__(self, o):
        return _cmp(self, o, "<=")

    def __gt__(self, o):
        return _cmp(self, o, ">")

    def __ge__(self, o):
        return _cmp(self, o, ">=")

    def __eq__(self, o):
        return _cmp(self, o, "==")

    def __ne__(self, o):
        return _cmp(self, o, "!=")

    # -- z3 --------------------------------------------------------------------
    def z3(self):
        n = CTX.pz3(self.n)
        if not self.d:
            return n
        den = None
        for f, e in self.den_items():
            z = CTX.pz3(f)
            for _ in range(e):
                den = z if den is None else den * z
        return n / den

    def z3_sign(self):
        """a term with the same sign, no division"""
        n = CTX.pz3(self.n)
        for f, e in self.den_items():
            if e % 2:
                sg = CTX.sign_of(f)
                if sg < 0:
                    n = -n
                elif sg == 0:
                    n = n * CTX.pz3(f)
        return n

    def z3_eq0(self):
        return CTX.pz3(self.n) == 0


def _split_factors(n, num, d):
    """n (primitive, non constant) as den factors; split known factors off"""
    for k, (f, e) in list(d.items()):
        while len(n) >= len(f):
            q = P.exact_div(n, f, 2000)
            if q is None:
                break
            n = q
            d[k] = (f, d[k][1] + 1)
    sq = P.poly_sqrt(n) if len(n) <= 60 else None
    if sq is not None and not P.is_const(sq):
        c = P.content(sq)
        sq = P.scale(sq, 1 / c)
        num = P.scale(num, 1 / (c * c))
        k = P.key(sq)
        d[k] = (sq, 2 + (d[k][1] if k in d else 0))
        return n, num, d
    if P.is_const(n):
        num = P.scale(num, Fraction(1) / P.const_val(n))
        return n, num, d
    c = P.content(n)
    ld = max(n, key=lambda m: str(m))
    if n[ld] < 0:
        c = -c
    if c != 1:
        n = P.scale(n, Fraction(1) / c)
        num = P.scale(num, Fraction(1) / Fraction(c))
    k = P.key(n)
    d[k] = (n, 1 + (d[k][1] if k in d else 0))
    return n, num, d


def _inv_atom(i, num, d):
    """multiply (num,d) by 1/atom_i, rationalising relation atoms"""
    rel = CTX.rel
    if i in rel:
        x = rel[i]
        if not P.is_const(x) and not CTX.sign_of(x):
            CTX.require_nonzero(x, "rationalise")
        num = P.mul(num, {((i, 1),): 1}, rel)
        if P.is_const(x):
            return P.scale(num, Fraction(1) / P.const_val(x)), d
        inv = Sym(x).inverse() if len(x) > 1 or True else None
        num = P.mul(num, inv.n, rel)
        d = dict(d)
        for k, (f, e) in inv.d.items():
            d[k] = (f, e + (d[k][1] if k in d else 0))
        return num, d
    f = {((i, 1),): 1}
    k = P.key(f)
    d = dict(d)
    d[k] = (f, 1 + (d[k][1] if k in d else 0))
    return num, d


def CTX_all_int(s):
    return not s.d and all(all(CTX.atoms[i].is_int for i, _ in m) for m in s.n)


def _co(o):
    if isinstance(o, Sym):
        return o
    import numpy as np
    if isinstance(o, np.ndarray):
        if o.ndim == 0:
            return Sym.of(o.item())
        return NotImplemented
    if isinstance(o, SBool):
        return Sym.of(o)
    try:
        return Sym(P.const(to_frac(o)))
    except TypeError:
        return NotImplemented


def _cmp(a, b, op):
    if b is None or isinstance(b, str):
        return op == "!="
    if isinstance(b, float) and math.isinf(b):
        pos = b > 0
        return {"<": pos, "<=": pos, ">": not pos, ">=": not pos, "==": False, "!=": True}[op]
    o = _co(b)
    if o is NotImplemented:
        return NotImplemented
    return SBool(a - o, op)


class SBool:
    """comparison  diff OP 0"""
    __slots__ = ("diff", "op")

    def __init__(self, diff, op):
        self.diff, self.op = diff, op

    def z3(self):
        d = self.diff
        if self.op == "==":
            return CTX.pz3(d.n) == 0
        if self.op == "!=":
            return CTX.pz3(d.n) != 0
        z = d.z3_sign()
        return {"<": z < 0, "<=": z <= 0, ">": z > 0, ">=": z >= 0}[self.op]

    def const(self):
        d = self.diff
        if not d.n:
            return self.op in ("==", "<=", ">=")
        c = d.const()
        if c is not None:
            return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0,
                    "==": c == 0, "!=": c != 0}[self.op]
        lo, hi = CTX.interval_sym(d)
        if lo is not None:
            if lo > 1e-9:
                return self.op in (">", ">=", "!=")
            if hi < -1e-9:
                return self.op in ("<", "<=", "!=")
        return None

    def __bool__(self):
        c = self.const()
        if c is not None:
            return c
        k = (self.diff.key(), self.op)
        m = CTX.cond_memo
        if k in m:
            return m[k]
        CTX.no_lazy(self.diff.n)
        r = CTX.decide(self.z3(), self.op)
        m[k] = r
        inv = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}[self.op]
        m[(self.diff.key(), inv)] = not r
        return r

    def __invert__(self):
        inv = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}[self.op]
        return SBool(self.diff, inv)

    def __and__(self, o):
        return bool(self) and bool(o)

    def __rand__(self, o):
        return bool(o) and bool(self)

    def __or__(self, o):
        return bool(self) or bool(o)

    def __ror__(self, o):
        return bool(o) or bool(self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return id(self)

    def __mul__(self, o):
        return Sym.of(self) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return Sym.of(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return Sym.of(self) - o

    def __rsub__(self, o):
        return o - Sym.of(self)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def all(self):
        return bool(self)

    any = all

    def __deepcopy__(self, memo):
        return self


def derivative(s, atom_id, explicit):
    """d s / d atom.  explicit: atom id -> derivative Sym for dependent atoms."""
    r = Sym.of(0)

    def dpoly(p):
        out = Sym.of(0)
        for m, c in p.items():
            for j, (i, e) in enumerate(m):
                da = explicit(i)
                if da is None:
                    continue
                rest = m[:j] + (((i, e - 1),) if e > 1 else ()) + m[j + 1:]
                out = out + Sym({rest: P.norm_c(c * e)}) * da
        return out
    dn = dpoly(s.n)
    den = Sym.of(1)
    for f, e in s.den_items():
        for _ in range(e):
            den = den * Sym(f)
    r = dn / den if s.d else dn
    for f, e in s.den_items():
        r = r - s * e * dpoly(f) / Sym(f)
    return r
