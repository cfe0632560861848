"""Harness registry; importable under both interpreters (no z3 here)."""
REG = {}


class H:
    def __init__(self, prop, name, fn, tier, opts):
        self.prop, self.name, self.fn, self.tier, self.opts = prop, name, fn, tier, opts


def harness(prop, name=None, tier="quick", **opts):
    """tier: 'quick' (run in both tiers) or 'thorough' (only there)."""
    def deco(fn):
        n = name or fn.__name__
        REG.setdefault(prop, {})
        assert n not in REG[prop], n
        REG[prop][n] = H(prop, n, fn, tier, opts)
        return fn
    return deco


class AssumeFailed(BaseException):
    pass


def load(prop):
    import importlib
    importlib.import_module("props." + prop)
    return REG[prop]


class Base:
    """pieces shared by the symbolic and the concrete backend"""

    def vec(self, name, lo=-10, hi=10, n=3):
        return self.array([self.real(f"{name}{i}", lo, hi) for i in range(n)])

    def rx(self, a):
        c, s = self.np.cos(a), self.np.sin(a)
        return self.array([[1, 0, 0], [0, c, -s], [0, s, c]])

    def ry(self, a):
        c, s = self.np.cos(a), self.np.sin(a)
        return self.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])

    def rz(self, a):
        c, s = self.np.cos(a), self.np.sin(a)
        return self.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])

    def orient(self, name, axes="zxz"):
        """arbitrary right-handed orthonormal matrix (Euler angles)"""
        m = None
        for k, ax in enumerate(axes):
            a = self.angle(f"{name}{k}", -3.1, 3.1)
            r = {"x": self.rx, "y": self.ry, "z": self.rz}[ax](a)
            m = r if m is None else m @ r
        return m

    def dot(self, a, b):
        t = 0
        for x, y in zip(self.flat(a), self.flat(b)):
            t = t + x * y
        return t

    def cross(self, a, b):
        return self.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
                           a[0] * b[1] - a[1] * b[0]])

    def norm2(self, a):
        return self.dot(a, a)

    def angle_eq(self, label, a, b, tol=None):
        fa, fb = self.flat(a), self.flat(b)
        if len(fb) == 1 and len(fa) > 1:
            fb = fb * len(fa)
        ca = [self.np.cos(x - y) for x, y in zip(fa, fb)]
        sa = [self.np.sin(x - y) for x, y in zip(fa, fb)]
        self.eq(label + ".cos", ca, [1] * len(ca), tol)
        self.eq(label + ".sin", sa, [0] * len(sa), tol)
