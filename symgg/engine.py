"""Symbolic backend, path exploration, counterexample replay, evidence."""
import itertools
import json
import math
import os
import random
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import z3
import numpy as np
from symgg import sym as S, poly as P
from symgg.sym import Sym, SBool, Ctx, Unsupported, Restart, Infeasible, Unevaluable, frac_z3
from symgg.npshim import NP, arr, asobj
from symgg.harness import Base, AssumeFailed, load
from symgg.loader import World
from symgg import scishim

REAL_PY = os.environ.get("GGGEARS_REAL_PY", "/opt/venv/bin/python")


def fr(x):
    if isinstance(x, float):
        return Fraction(repr(x))
    return Fraction(x)


class HS(Base):
    mode = "symbolic"

    def __init__(self, world, ctx, opts, run):
        self.w, self.c, self.opts, self.run = world, ctx, opts, run
        self.np = NP
        self.pi = ctx.PI
        self.vals = []
        self.asserts = 0

    def symbolic(self):
        return True

    # inputs ------------------------------------------------------------------
    def _decl(self, name, kind, lo, hi):
        self.run.decl[name] = (kind, float(lo), float(hi))

    def real(self, name, lo, hi, **k):
        c = self.c
        lo, hi = fr(lo), fr(hi)
        a = c.new_atom(name, "in", float(lo), float(hi))
        c.add(a.z >= frac_z3(lo), a.z <= frac_z3(hi))
        self._decl(name, "real", lo, hi)
        s = c.sym(a)
        c.inputs[name] = s
        return s

    def angle(self, name, lo, hi, **k):
        s = self.real(name, lo, hi)
        self._decl(name, "angle", lo, hi)
        return s

    def int(self, name, lo, hi):
        c = self.c
        a = c.new_int(name, lo, hi)
        self._decl(name, "int", lo, hi)
        s = c.sym(a)
        c.inputs[name] = s
        return s

    def choice(self, name, options):
        s = self.int(name, 0, len(options) - 1)
        for i in range(len(options) - 1):
            if bool(s == i):
                return options[i]
        return options[-1]

    def bool(self, name):
        return self.choice(name, [False, True])

    def array(self, x):
        a = np.array(x, dtype=object)
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            out[i] = Sym.of(a[i])
        from symgg.npshim import SArr
        return out.view(SArr)

    def flat(self, x):
        if isinstance(x, np.ndarray):
            return [Sym.of(v) for v in x.flat]
        if isinstance(x, (list, tuple)):
            out = []
            for v in x:
                out += self.flat(v)
            return out
        return [Sym.of(x)]

    def m(self, name):
        return self.w.load("gggears." + name)

    @property
    def Rot(self):
        return scishim.Rotation

    # assumptions / stubs --------------------------------------------------------
    def assume(self, *conds):
        for cnd in conds:
            if isinstance(cnd, SBool):
                k = cnd.const()
                if k is True:
                    continue
                if k is False:
                    raise Infeasible()
                self.c.add(cnd.z3())
                self.c.cond_memo[(cnd.diff.key(), cnd.op)] = True
            elif not cnd:
                raise Infeasible()
        r, _ = self.c.check()
        if r == "unsat":
            raise Infeasible()

    def known(self, x):
        return x

    def root_bounds(self, *b):
        self.c.root_bounds = list(b) or None

    def known_angles(self, *a):
        """(angle, lo, hi): angles the code is expected to come across and their (assumed) ranges"""
        c = self.c
        c.hint_angles = list(getattr(c, "hint_angles", ()))
        c.known_bounds = dict(getattr(c, "known_bounds", ()))
        for x, lo, hi in a:
            x = Sym.of(x)
            self.assume(x > lo, x < hi)
            c.hint_angles.append(x)
            c.known_bounds[x.key()] = (lo, hi)
            c.known_bounds[(-x).key()] = (-hi, -lo)

    def root_mode(self, mode):
        self.c.root_mode = mode

    def roots(self, *cands, otherwise="contract", retries=False):
        """exact solutions of the equations the code hands to scipy's root: each is used
        only where the solver shows that it solves the equation given; other
        equations get an unknown solution (contract) or an arbitrary point (free)"""
        c = self.c
        cands = [self.array(x) if not callable(x) else x for x in cands]

        prev = []       # solutions handed out so far, for candidates that depend on them

        def hook(fun, x0):
            r = hook2(fun, x0)
            if r is None:
                c.root_hook = None
                try:
                    r = scishim.root(fun, x0)
                finally:
                    c.root_hook = hook
            prev.append(r.x)
            return r

        def hook2(fun, x0):
            n = max(1, int(np.size(asobj(x0))))
            k = len(prev) % max(1, len(cands))
            for x in cands[k:] + cands[:k]:      # usually needed in the order given
                if callable(x):
                    x = x(prev)
                    if x is None:
                        continue
                    x = self.array(x)
                if len(x) != n:
                    continue
                f = fun(x)
                d = [Sym.of(v) for v in asobj(f).flat]
                if any(v.n for v in d):
                    neg = z3.Or(*[c.pz3(v.n) != 0 for v in d if v.n])
                    if self._probe_nonzero(d):
                        continue
                    r, _ = c.check(neg, timeout=1500)
                    if r != "unsat":
                        continue
                self.run.stats.setdefault("stubs", set()).add(
                    "scipy.optimize.root: returns the known solution of its equation (shown to solve it); "
                    "convergence is not modelled")
                return scishim.OptimizeResult(x=x, success=True, fun=f, message="stub", status=1)
            if otherwise == "free":
                self.run.stats.setdefault("stubs", set()).add("scipy.optimize.root: arbitrary point")
                x = scishim._fresh_vec(x0, "free")
                return scishim.OptimizeResult(x=x, success=True, fun=x * 0, message="stub", status=1)
            return None
        c.root_hook = hook

    def _probe_env(self):
        env = {}
        for k, (n, s) in enumerate(self.c.inputs.items()):
            kind, lo, hi = self.run.decl[n]
            u = 0.1 + 0.8 * (math.sin(78.233 * (k + 1)) * 43758.5453 % 1)
            env[n] = round(lo + u * (hi - lo)) if kind == "int" else lo + u * (hi - lo)
        return env

    def pick(self, target, cands):
        """index of the candidate meant by `target` (only a choice of what to compare: the
        comparison itself is a separate assertion)"""
        best, arg = None, 0
        env = self._probe_env()
        for i, q in enumerate(cands):
            d = [Sym.of(a) - b for a, b in zip(self.flat(target), self.flat(q))]
            if all(x.is_zero() for x in d):
                return i
            try:
                v = sum(abs(self.c.seval(x, env)) for x in d)
            except (Unevaluable, ZeroDivisionError, OverflowError, ValueError):
                continue
            if best is None or v < best - 1e-12:
                best, arg = v, i
        return arg

    def _probe_nonzero(self, d):
        """some term is clearly nonzero at an input point (only a shortcut: the
        candidate is not used)"""
        env = self._probe_env()
        try:
            return any(abs(self.c.seval(v, env)) > 1e-6 for v in d)
        except (Unevaluable, ZeroDivisionError, OverflowError, ValueError):
            return False

    def stub(self, obj, name, fn, why):
        old = obj.__dict__.get(name) if isinstance(obj, type) else getattr(obj, name)
        setattr(obj, name, fn)
        self.run.undo.append((obj, name, old))
        self.run.stats.setdefault("stubs", set()).add(why)

    def sqrt(self, x):
        return self.c.sqrt(Sym.of(x))

    # assertions ----------------------------------------------------------------
    def _query(self, label, negs, extra=()):
        """negs: z3 disjuncts whose satisfiability violates the assertion"""
        self.asserts += 1
        self.run.stats["asserts"] = self.run.stats.get("asserts", 0) + 1
        if not negs:
            neg = z3.BoolVal(False)
        else:
            neg = z3.Or(*negs) if len(negs) > 1 else negs[0]
        t = self.run.opts.get("assert_timeout", 20000)
        if z3.is_false(neg):
            r, m = self.c.check(neg)
        else:
            r, m = self.c.check(neg, timeout=2000)
            if r == "unknown":
                r, m = self.run.hard_query(self.c, neg, t)
        if r == "unsat":
            return
        models = [m] if m is not None else []
        self.run.suspect(self, label, r, neg, models)

    def eq(self, label, a, b, tol=None):
        fa, fb = self.flat(a), self.flat(b)
        if len(fb) == 1 and len(fa) > 1:
            fb = fb * len(fa)
        if len(fa) != len(fb):
            self._query(label, [z3.BoolVal(True)])
            return
        self.vals.append((label, fa, fb))
        negs = []
        for x, y in zip(fa, fb):
            d = x - y
            self.c.no_lazy(d.n)
            if d.n:
                negs.append(self.c.pz3(d.n) != 0)
        self._query(label, negs)

    def near(self, label, a, b, eps):
        """|a-b| <= eps, for every value"""
        fa, fb = self.flat(a), self.flat(b)
        self.vals.append((label, fa, fb))
        e = fr(eps)
        negs = []
        for x, y in zip(fa, fb):
            for c in ((x - y) <= e, (y - x) <= e):
                k = c.const()
                if k is not True:
                    negs.append(z3.Not(c.z3()) if k is None else z3.BoolVal(True))
        self._query(label, negs)

    def capture_minimize(self, module, thunk):
        class Got(BaseException):
            pass

        def hook(fun, x0):
            e = Got()
            e.v = (fun, x0)
            raise e
        self.c.min_hook = hook
        try:
            thunk()
        except Got as e:
            return e.v
        finally:
            self.c.min_hook = None
        raise Infeasible()

    def _never(self, cond):
        k = cond.const()
        return k is False or k is None and self.c.check(cond.z3(), timeout=4000)[0] == "unsat"

    def minima(self, *cands):
        """exact minimisers of what the code hands to scipy's minimize: used only where the
        solver shows that no other point has a smaller value"""
        c = self.c
        cands = [self.array(x) for x in cands]

        def hook(fun, x0):
            n = max(1, int(np.size(asobj(x0))))
            for x in cands:
                if len(x) != n:
                    continue
                f = Sym.of(asobj(fun(x)).flat[0])
                y = scishim._fresh_vec(x, "other")
                g = Sym.of(asobj(fun(y)).flat[0])
                # values that are never negative are compared by their squares
                if any(not self._never(w < 0) for w in (f, g)) or not self._never(g * g < f * f):
                    if not self._never(g < f):
                        continue
                self.run.stats.setdefault("stubs", set()).add(
                    "scipy.optimize.minimize: returns the known minimum (shown to be one)")
                return scishim.OptimizeResult(x=x, success=True, fun=f, message="stub", status=0, nit=1, nfev=1,
                                              njev=1, jac=None)
        c.min_hook = hook

    def partial(self, f, x, j):
        a = x[j].single_atom()
        return S.derivative(Sym.of(f(x)), a, lambda i: Sym.of(1) if i == a else None)

    def same_shape(self, label, a, b):
        if np.shape(a) != np.shape(b):
            self._query(label, [z3.BoolVal(True)])

    def le(self, label, a, b, tol=None):
        negs = []
        for x, y in zip(self.flat(a), self.flat(b)):
            c = (x - y) <= 0
            k = c.const()
            if k is True:
                continue
            negs.append(z3.Not(c.z3()) if k is None else z3.BoolVal(True))
        self._query(label, negs)

    def nonzero(self, label, a, margin=None):
        self._query(label, [self.c.pz3(x.n) == 0 for x in self.flat(a)])

    def true(self, label, cond):
        if isinstance(cond, SBool):
            k = cond.const()
            self._query(label, [] if k is True else [z3.Not(cond.z3()) if k is None else z3.BoolVal(True)])
        else:
            self._query(label, [] if cond else [z3.BoolVal(True)])


class RealServer:
    def __init__(self):
        self.p = None

    def start(self):
        if self.p is None or self.p.poll() is not None:
            env = dict(os.environ)
            env["PYTHONDONTWRITEBYTECODE"] = "1"
            self.p = subprocess.Popen([REAL_PY, os.path.join(ROOT, "symgg", "concrete.py")],
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      stderr=subprocess.DEVNULL, text=True, env=env)

    def __call__(self, prop, name, inputs, timeout=120):
        import select
        self.start()
        try:
            self.p.stdin.write(json.dumps({"prop": prop, "name": name, "inputs": inputs}) + "\n")
            self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.close()
                return {"status": "timeout", "fails": [], "vals": []}
            line = self.p.stdout.readline()
            if not line:
                self.close()
                return {"status": "server-died", "fails": [], "vals": []}
            return json.loads(line)
        except (BrokenPipeError, OSError):
            self.close()
            return {"status": "server-died", "fails": [], "vals": []}

    def close(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait(5)
            except Exception:
                pass
        self.p = None


def zval(v):
    """float of a z3 numeral"""
    if z3.is_int_value(v):
        return float(v.as_long())
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return None


class FoundViolation(BaseException):
    pass


class PathTimeout(BaseException):
    pass


class Alarm:
    """bounds the time of one symbolic path"""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def on(sig, frm):
            raise PathTimeout()
        try:
            self.old = signal.signal(signal.SIGALRM, on)
            signal.setitimer(signal.ITIMER_REAL, max(1.0, self.s))
        except ValueError:
            self.old = None

    def __exit__(self, *a):
        if self.old is not None:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)
        return False


class Run:
    def __init__(self, prop, hn, world, server, tier, seed):
        self.prop, self.h, self.world, self.server = prop, hn, world, server
        self.tier, self.seed = tier, seed
        self.opts = dict(hn.opts)
        self.decl = {}
        self.stats = {"queries": 0, "solver_s": 0.0}
        self.undo = []
        try:
            d = world.load("gggears.defs")
            self.constants = [(a, a.copy()) for a in d.__dict__.values() if isinstance(a, np.ndarray)]
        except Exception:
            self.constants = []
        self.paths = 0
        self.fallbacks = 0
        self.infeasible = 0
        self.inconclusive = []
        self.violations = []
        self.nonrepro = []
        self.witnesses = 0
        self.validated = 0
        self.mismatch = []
        self.functions = set()
        self.assumed = set()
        self.samples = []
        self.deadline = None

    # -- solving -----------------------------------------------------------------
    def hard_query(self, c, neg, timeout):
        t0 = time.time()
        self.stats["queries"] += 1
        s = z3.SolverFor("QF_NRA") if not any(a.is_int for a in c.atoms) else z3.Solver()
        s.set("timeout", timeout)
        for x in c.cons:
            s.add(x)
        s.add(neg)
        r = s.check()
        m = s.model() if r == z3.sat else None
        self.stats["solver_s"] += time.time() - t0
        k = "q_" + str(r)
        self.stats[k] = self.stats.get(k, 0) + 1
        return str(r), m

    def inputs_from_model(self, c, m, rng=None):
        out = {}
        for name, s in c.inputs.items():
            kind, lo, hi = self.decl[name]
            a = c.atoms[s.single_atom()]
            v = zval(m.eval(a.z, model_completion=True))
            if v is None:
                v = (lo + hi) / 2
            if kind == "int":
                out[name] = int(round(v))
                continue
            # angle consistency: trust the (cos,sin) pair
            for u in c.units.values():
                if u.key == (((name, 1),), ()) and u.c.single_atom() is not None:
                    cc = zval(m.eval(c.atoms[u.c.single_atom()].z, model_completion=True))
                    ss = zval(m.eval(c.atoms[u.s.single_atom()].z, model_completion=True))
                    if cc is None or ss is None:
                        continue
                    th = math.atan2(ss, cc)
                    best = None
                    for k in range(-3 * u.L - 3, 3 * u.L + 4):
                        t = (th + 2 * math.pi * k) * u.L
                        if lo - 1e-9 <= t <= hi + 1e-9 and (best is None or abs(t - v) < abs(best - v)):
                            best = t
                    if best is not None:
                        v = best
                    break
            out[name] = min(max(v, lo), hi)
        return out

    def random_inputs(self, rng, fixed=None):
        out = {}
        for name, (kind, lo, hi) in self.decl.items():
            if kind == "int":
                out[name] = rng.randint(int(lo), int(hi))
            else:
                out[name] = rng.uniform(lo, hi)
        if fixed:
            out.update(fixed)
        return out

    def pin_cons(self, c, rng, frac=0.7):
        """pin angle inputs to exact rational points of the circle (and some reals)"""
        cons = []
        for name, s in c.inputs.items():
            kind, lo, hi = self.decl[name]
            if kind == "int":
                continue
            a = c.atoms[s.single_atom()]
            us = [u for u in c.units.values() if u.key == (((name, 1),), ()) and u.c.single_atom() is not None]
            if us:
                u = us[0]
                th = rng.uniform(lo, hi) / u.L
                red = math.remainder(th, 2 * math.pi)
                if abs(abs(red) - math.pi) < 1e-3:
                    continue
                t = Fraction(math.tan(red / 2)).limit_denominator(200)
                cz, sz = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
                th2 = th + (2 * math.atan(float(t)) - red)
                v = Fraction(th2 * u.L).limit_denominator(10 ** 9)
                cons += [c.atoms[u.c.single_atom()].z == frac_z3(cz),
                         c.atoms[u.s.single_atom()].z == frac_z3(sz),
                         a.z > frac_z3(v - Fraction(1, 10 ** 7)), a.z < frac_z3(v + Fraction(1, 10 ** 7))]
            elif rng.random() < frac:
                v = Fraction(rng.uniform(lo, hi)).limit_denominator(1000)
                cons.append(a.z == frac_z3(v))
        return cons

    def concrete(self, inputs):
        self.stats["replays"] = self.stats.get("replays", 0) + 1
        return self.server(self.prop, self.h.name, inputs, self.opts.get("replay_timeout", 120))

    def is_violation(self, r):
        if r["status"] == "exception":
            return r.get("in_repo", False)
        return r["status"] in ("ok", "assume") and bool(r["fails"])

    def candidate_inputs(self, c, neg, models, budget=40.0, nrand=30):
        """solver models first, then models with pinned inputs, then random pins"""
        rng = random.Random(self.seed * 7919 + len(self.violations))
        t0 = time.time()
        for m in models:
            if m is not None:
                yield "model", self.inputs_from_model(c, m)
        if not any(m is not None for m in models):
            for _ in range(5):
                yield "random-pin", self.random_inputs(rng)
        s = z3.Solver()
        s.set("timeout", 2000)
        for x in c.cons:
            s.add(x)
        if neg is not None:
            s.add(neg)
        for k in range(12):
            if time.time() - t0 > budget:
                break
            s.push()
            for p in self.pin_cons(c, rng, 0.9 if k % 2 else 0.5):
                s.add(p)
            tq = time.time()
            r = s.check()
            self.stats["queries"] += 1
            self.stats["solver_s"] += time.time() - tq
            m = s.model() if r == z3.sat else None
            inp = self.inputs_from_model(c, m) if m is not None else None
            s.pop()
            if inp:
                yield "pinned-model", inp
        base = None
        if models and models[0] is not None:
            base = self.inputs_from_model(c, models[0])
        for k in range(nrand):
            if time.time() - t0 > budget:
                break
            inp = self.random_inputs(rng)
            if base:
                for n, (kind, lo, hi) in self.decl.items():
                    if kind == "int" or rng.random() < 0.3:
                        inp[n] = base.get(n, inp[n])
            yield "random-pin", inp

    def suspect(self, h, label, r, neg, models):
        """an assertion was not discharged: look for a reproducing input"""
        tried = 0
        nrand = 30 if r == "sat" else 12
        for how, inp in self.candidate_inputs(h.c, neg, models, nrand=nrand,
                                              budget=60.0 if r == "sat" else 25.0):
            res = self.concrete(inp)
            tried += 1
            if self.is_violation(res) and (self.solid(res) and r == "sat" and "model" in how
                                           or self.robust(inp, res)):
                self.record(label, inp, res, how, r)
                return
        if r == "sat":
            self.nonrepro.append({"label": label, "tried": tried})
            self.inconclusive.append(f"{label}: solver model did not reproduce on the real code ({tried} replays)")
        else:
            self.inconclusive.append(f"{label}: solver answered {r} ({tried} replays, none violating)")

    def record(self, label, inp, res, how, verdict):
        key = None
        if res["fails"]:
            key = res["fails"][0][0]
        else:
            key = "raises " + res.get("exc", "?").split(":")[0]
        self.violations.append({"harness": self.h.name, "asserted": label, "failed": key,
                                "inputs": inp, "how": how, "solver": verdict,
                                "detail": res["fails"][:6], "exc": res.get("exc")})
        if len(self.violations) >= 3 or not self.opts.get("continue_after", False):
            raise FoundViolation()

    # -- exploration ----------------------------------------------------------------
    def explore(self):
        max_paths = self.opts.get("max_paths", 300)
        budget = self.opts.get("budget", 150)
        if self.tier == "thorough":
            max_paths *= 4
            budget *= 4
        self.deadline = time.time() + budget
        units = {}
        restarts = 0
        while True:
            work = [[]]
            self.paths = self.infeasible = 0
            self.witnesses = 0
            try:
                while work:
                    if self.paths >= max_paths:
                        self.inconclusive.append(f"path bound {max_paths} reached, {len(work)} left")
                        break
                    if time.time() > self.deadline:
                        self.inconclusive.append(f"time bound reached, {len(work)} paths left")
                        break
                    prefix = work.pop()
                    alts = self.one_path(prefix, units)
                    work.extend(alts)
                return
            except Restart:
                restarts += 1
                self.inconclusive.clear()
                if restarts > 25:
                    self.inconclusive.append("angle granularity did not stabilise")
                    return
            except FoundViolation:
                return

    def one_path(self, prefix, units):
        c = Ctx(prefix, units, self.opts.get("solver_timeout", 1500), self.stats)
        S.set_ctx(c)
        h = HS(self.world, c, self.opts, self)
        status = "done"
        exc = None
        prof = Profiler(self.functions, self.world.src)
        plimit = min(self.opts.get("path_limit", 100) * (4 if self.tier == "thorough" else 1),
                     max(20.0, self.deadline + 60 - time.time()))
        try:
            with Alarm(plimit):
                prof.start()
                self.h.fn(h)
        except PathTimeout as e:
            status = "unsupported"
            exc = TimeoutError(f"path took over {plimit:.0f} s")
        except (Infeasible, AssumeFailed):
            status = "infeasible"
        except Restart:
            raise
        except (Unsupported, P.TooBig, RecursionError) as e:
            status = "unsupported"
            exc = e
        except z3.Z3Exception as e:
            status = "unsupported"
            exc = e
        except FoundViolation:
            raise
        except Exception as e:
            status = "exception"
            exc = e
        finally:
            prof.stop()
            self.restore()
        self.assumed.update(c.assumed_nonzero)
        if status == "infeasible":
            self.infeasible += 1
            return c.alternatives
        self.paths += 1
        if status == "exception":
            self.on_exception(c, exc)
        elif status == "unsupported":
            c.solver = z3.Solver()      # (may have been interrupted)
            c.solver.set("timeout", 1500)
            for x in c.cons:
                c.solver.add(x)
            if not isinstance(exc, TimeoutError) and self.hard_query(c, z3.BoolVal(True), 10000)[0] == "unsat":
                self.paths -= 1
                self.infeasible += 1
                return c.alternatives
            tb = traceback.extract_tb(exc.__traceback__)
            site = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb if "/gggears/" in f.filename][-1:]
            self.inconclusive.append(f"not encodable: {type(exc).__name__} {exc} {site}")
            self.fallback(c)
        else:
            self.witness(c, h)
        return c.alternatives

    def restore(self):
        for obj, name, old in reversed(self.undo):
            if old is None and isinstance(obj, type):
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
            else:
                setattr(obj, name, old)
        self.undo.clear()
        for a, v in self.constants:         # a path may have overwritten the library's constant vectors
            a[...] = v

    def on_exception(self, c, exc):
        r, m = c.check(timeout=5000)
        if r == "unsat":
            self.infeasible += 1
            return
        msg = f"{type(exc).__name__}: {exc}"
        for how, inp in self.candidate_inputs(c, None, [m], nrand=8, budget=25):
            res = self.concrete(inp)
            if self.is_violation(res):
                self.record("exception " + msg[:80], inp, res, how, r)
                return
        tb = traceback.extract_tb(exc.__traceback__)
        site = [f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb][-4:]
        self.inconclusive.append(f"encoding raised {msg[:200]} at {site}, not reproduced on the real code")

    def fallback(self, c):
        """the encoding stopped: replay solver-chosen inputs of this path on the real code"""
        if self.fallbacks >= 3:
            return
        self.fallbacks += 1
        r, m = c.check(timeout=3000)
        rng = random.Random(self.seed + 31 * self.paths)
        early = (("random-pin", self.random_inputs(rng)) for _ in range(16))
        for how, inp in itertools.chain(early, self.candidate_inputs(c, None, [m], nrand=10, budget=25)):
            res = self.concrete(inp)
            if self.is_violation(res) and self.robust(inp, res):
                self.record("fallback", inp, res, how, "not-encoded")
                return

    def solid(self, res):
        """a failure too large for rounding"""
        if res["status"] == "exception":
            return True
        f = res["fails"][0]
        a, b = f[2], f[3]
        if not all(isinstance(v, (int, float)) for v in (a, b)):
            return True
        return f[1] in ("shape", "false", "zero") or abs(a - b) > 1e-3 * (1 + abs(a) + abs(b))

    def robust(self, inp, res):
        """same failure for nearby inputs: excludes rounding at a singular point"""
        rng = random.Random(5)
        hits = 0
        for _ in range(3):
            j = {}
            for n, v in inp.items():
                kind, lo, hi = self.decl[n]
                if kind == "int":
                    j[n] = v
                else:
                    w = (hi - lo) * 1e-4
                    j[n] = min(max(v + rng.uniform(-w, w), lo), hi)
            r2 = self.concrete(j)
            if self.is_violation(r2):
                hits += 1
        return hits >= 2

    def witness(self, c, h):
        """reachability + translator validation: replay one input of this path"""
        limit = self.opts.get("witnesses", 6) * (3 if self.tier == "thorough" else 1)
        if self.witnesses >= limit:
            return
        rng = random.Random(self.seed + 17 * self.paths)
        s = z3.Solver()
        s.set("timeout", 2500)
        for x in c.cons:
            s.add(x)
        best = None
        for k in range(4):
            s.push()
            if k < 3:
                for p in self.pin_cons(c, rng, [0.9, 0.6, 0.3][k]):
                    s.add(p)
            r = s.check()
            self.stats["queries"] += 1
            m = s.model() if r == z3.sat else None
            inp = self.inputs_from_model(c, m) if m is not None else None
            s.pop()
            if inp is None:
                continue
            res = self.concrete(inp)
            if res["status"] == "assume":
                continue
            if self.is_violation(res) and self.robust(inp, res):
                self.record("witness", inp, res, "witness", "sat")
                return
            if res["status"] != "ok" or res["fails"]:
                continue
            self.witnesses += 1
            ok = self.validate(c, h, inp, res)
            if ok is None:
                return
            if ok:
                self.validated += 1
                if len(self.samples) < 3:
                    self.samples.append({"harness": self.h.name, "decisions": [x if isinstance(x, int) and not isinstance(x, bool) else bool(x) for x in c.trace][:20],
                                         "inputs": {k2: round(v, 6) if isinstance(v, float) else v for k2, v in inp.items()},
                                         "asserted": len(h.vals)})
                return
            best = inp
        if best is not None:
            self.mismatch.append({"harness": self.h.name, "inputs": best})
        elif self.validated < 2:
            self.random_witness(c, h, rng)

    def random_witness(self, c, h, rng):
        """the solver found no model in time: look for an input of this path by sampling"""
        t0 = time.time()
        for _ in range(400):
            if time.time() - t0 > 12:
                return
            inp = self.random_inputs(rng)
            res = self.concrete(inp)
            if res["status"] == "assume":
                continue
            if self.is_violation(res) and self.robust(inp, res):
                self.record("witness", inp, res, "witness", "sampled")
                return
            if res["status"] == "ok" and not res["fails"] and self.validate(c, h, inp, res):
                self.witnesses += 1
                self.validated += 1
                return

    def validate(self, c, h, inp, res):
        """compare every asserted term's value: encoding vs real code. None = nothing
        evaluable (solver-chosen solution atoms)"""
        real = {}
        for lab, a, b in res["vals"]:
            real.setdefault(lab, []).append((a, b))
        n = 0
        seen = {}
        env = dict(inp)
        for lab, fa, fb in h.vals:
            k = seen.get(lab, 0)
            seen[lab] = k + 1
            if lab not in real or k >= len(real[lab]):
                return False
            ra, rb = real[lab][k]
            for sy, rv in list(zip(fa, ra)) + list(zip(fb, rb)):
                try:
                    v = c.seval(sy, env)
                except (Unevaluable, ZeroDivisionError, OverflowError, ValueError):
                    continue
                if not isinstance(rv, (int, float)):
                    return False
                n += 1
                if abs(v - rv) > 1e-4 * (1 + abs(v) + abs(rv)):
                    self.last_mismatch = (lab, v, rv)
                    return False
        self.stats["values_validated"] = self.stats.get("values_validated", 0) + n
        return True if n else None


class Profiler:
    """records which repository functions the symbolic execution entered"""

    def __init__(self, out, src):
        self.out, self.src = out, src

    def start(self):
        src, out = self.src, self.out

        def prof(frame, event, arg):
            if event == "call":
                co = frame.f_code
                if co.co_filename.startswith(src):
                    out.add(os.path.basename(co.co_filename)[:-3] + ":" + co.co_qualname)
        sys.setprofile(prof)

    def stop(self):
        sys.setprofile(None)
