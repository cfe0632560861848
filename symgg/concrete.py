"""Concrete backend: the same harness, on the unpatched library (real numpy, scipy,
build123d), with given inputs.  Used for replaying counterexamples and witnesses."""
import importlib
import json
import math
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from symgg.harness import Base, AssumeFailed, load

TOL = 1e-6


class HC(Base):
    mode = "concrete"

    def __init__(self, inputs):
        self.inputs = inputs
        self.np = np
        self.pi = math.pi
        self.fails = []
        self.vals = []
        self.missing = []
        self.decl = {}
        self.undo = []

    def _get(self, name, default):
        if name not in self.inputs:
            self.missing.append(name)
            return default
        return self.inputs[name]

    def real(self, name, lo, hi, **k):
        lo, hi = float(lo), float(hi)
        self.decl[name] = ("real", lo, hi)
        v = float(self._get(name, (lo + hi) / 2))
        if v < lo - 1e-9 or v > hi + 1e-9:
            raise AssumeFailed(name)
        return v

    def angle(self, name, lo, hi, **k):
        return self.real(name, lo, hi)

    def int(self, name, lo, hi):
        self.decl[name] = ("int", lo, hi)
        v = int(self._get(name, lo))
        if v < lo or v > hi:
            raise AssumeFailed(name)
        return v

    def choice(self, name, options):
        self.decl[name] = ("int", 0, len(options) - 1)
        v = int(self._get(name, 0))
        if not 0 <= v < len(options):
            raise AssumeFailed(name)
        return options[v]

    def bool(self, name):
        return self.choice(name, [False, True])

    def array(self, x):
        return np.array(x, dtype=float)

    def flat(self, x):
        return [float(v) for v in np.asarray(x, dtype=float).ravel()]

    def m(self, name):
        return importlib.import_module("gggears." + name)

    @property
    def Rot(self):
        from scipy.spatial.transform import Rotation
        return Rotation

    def assume(self, *conds):
        for c in conds:
            if not c:
                raise AssumeFailed()

    def known(self, x):
        return x

    def eq(self, label, a, b, tol=None):
        tol = tol or TOL
        fa, fb = self.flat(a), self.flat(b)
        if len(fb) == 1 and len(fa) > 1:
            fb = fb * len(fa)
        if len(fa) != len(fb):
            self.fails.append((label, "shape", len(fa), len(fb)))
            return
        self.vals.append([label, fa, fb])
        sc = 1.0 + max([abs(v) for v in fa + fb if v == v] + [0.0]) if fa else 1.0
        for i, (x, y) in enumerate(zip(fa, fb)):
            if not (abs(x - y) <= tol * sc):
                self.fails.append((label, i, x, y))

    def pick(self, target, cands):
        t = np.array(self.flat(target), dtype=float)
        return int(np.argmin([np.abs(t - np.array(self.flat(q), dtype=float)).sum() for q in cands]))

    def near(self, label, a, b, eps):
        fa, fb = self.flat(a), self.flat(b)
        self.vals.append([label, fa, fb])
        for i, (x, y) in enumerate(zip(fa, fb)):
            if not abs(x - y) <= eps * 1.001 + 1e-9:
                self.fails.append((label, i, x, y))

    def capture_minimize(self, module, thunk):
        import scipy.optimize as so

        class Got(BaseException):
            pass

        def hook(fun, x0, *a, **k):
            e = Got()
            e.v = (fun, x0)
            raise e
        old, old2 = getattr(module, "minimize", None), so.minimize
        if old is not None:
            module.minimize = hook
        so.minimize = hook
        try:
            thunk()
        except Got as e:
            return e.v
        finally:
            if old is not None:
                module.minimize = old
            so.minimize = old2
        raise AssumeFailed("no minimize call")

    def minima(self, *cands):
        pass

    def partial(self, f, x, j):
        d = 1e-6
        a, b = x.copy(), x.copy()
        a[j] += d
        b[j] -= d
        return (f(a) - f(b)) / (2 * d)

    def same_shape(self, label, a, b):
        if np.shape(a) != np.shape(b):
            self.fails.append((label, "shape", str(np.shape(a)), str(np.shape(b))))

    def le(self, label, a, b, tol=None):
        tol = tol or TOL
        for x, y in zip(self.flat(a), self.flat(b)):
            if not (x <= y + tol * (1 + abs(x) + abs(y))):
                self.fails.append((label, "le", x, y))

    def nonzero(self, label, a, margin=1e-12):
        for x in self.flat(a):
            if not abs(x) > margin:
                self.fails.append((label, "zero", x, 0))

    def true(self, label, cond):
        if not cond:
            self.fails.append((label, "false", 0, 0))

    def root_bounds(self, *b):
        pass

    def known_angles(self, *a):
        for x, lo, hi in a:
            self.assume(lo < x < hi)

    def root_mode(self, mode):
        pass

    unconverged = 0

    def roots(self, *cands, otherwise="contract", retries=False):
        """the contract assumes that scipy's root converges: remember where it did not"""
        import scipy.optimize as so

        def root(*a, **k):
            r = so.root(*a, **k)
            if not r.success and not np.max(np.abs(r.fun)) < 1e-7:
                self.unconverged += 1
            elif retries:
                self.unconverged = 0
            return r
        for n, m in list(sys.modules.items()):
            if n.startswith("gggears") and getattr(m, "root", None) is not None and m.root is not root:
                self.undo.append((m, m.root))
                m.root = root

    def stub(self, obj, name, fn, why):
        """symbolic-only replacement: the concrete run uses the real thing"""

    def symbolic(self):
        return False

    def sqrt(self, x):
        return math.sqrt(x)


def run(prop, name, inputs):
    hs = load(prop)
    h = HC(inputs)
    out = {}
    try:
        d = importlib.import_module("gggears.defs")
        constants = [(a, a.copy()) for a in d.__dict__.values() if isinstance(a, np.ndarray)]
    except Exception:
        constants = []
    try:
        with np.errstate(all="ignore"):
            hs[name].fn(h)
        out["status"] = "ok"
    except AssumeFailed as e:
        out["status"] = "assume"
        out["why"] = str(e)
    except Exception as e:
        out["status"] = "exception"
        tb = traceback.extract_tb(e.__traceback__)
        out["exc"] = type(e).__name__ + ": " + str(e)[:300]
        out["in_repo"] = any("/gggears/" in f.filename for f in tb)
        # (a stand-in of the harness which lacks what the code now asks of it says nothing about the code)
        o = getattr(e, "obj", None)
        if hs[name].opts.get("standins") or isinstance(e, AttributeError) and o is not None and \
                (o if isinstance(o, type) else type(o)).__module__.startswith("props"):
            out["in_repo"] = False
        out["tb"] = [f"{f.filename}:{f.lineno}:{f.name}" for f in tb][-8:]
    for m, f in reversed(h.undo):
        m.root = f
    for a, v in constants:          # a run may have overwritten the library's constant vectors
        a[...] = v
    if h.unconverged and (h.fails or out["status"] == "exception"):
        out["status"], out["why"], h.fails = "assume", "scipy root did not converge", []
    out["fails"] = h.fails
    out["vals"] = h.vals
    out["missing"] = h.missing
    out["decl"] = h.decl
    return out


def clean(o):
    if isinstance(o, dict):
        return {k: clean(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [clean(v) for v in o]
    if isinstance(o, float) and (o != o or abs(o) == float("inf")):
        return str(o)
    if isinstance(o, (np.floating,)):
        return clean(float(o))
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.bool_):
        return bool(o)
    return o


def main():
    if len(sys.argv) > 1:          # replay a saved counterexample
        d = json.load(open(sys.argv[1]))
        r = run(d["property"], d["harness"], d["inputs"])
        print(json.dumps(clean({k: r[k] for k in r if k != "vals"}), indent=1))
        bad = bool(r["fails"]) or r["status"] == "exception"
        print("REPRODUCED" if bad else "not reproduced")
        sys.exit(1 if bad else 0)
    real = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)                  # library prints must not corrupt the protocol
    for line in sys.stdin:
        req = json.loads(line)
        try:
            r = run(req["prop"], req["name"], req["inputs"])
        except BaseException as e:
            r = {"status": "server-error", "exc": repr(e)[:300], "fails": [], "vals": []}
        real.write(json.dumps(clean(r)) + "\n")
        real.flush()


if __name__ == "__main__":
    main()
