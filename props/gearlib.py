"""Shared pieces of the gear-level harnesses."""


def uniform(h):
    """flank curves get a two-point length table: the properties here do not depend on
    the parametrisation speed of a flank"""
    crv = h.m("curve")

    def update(self):
        self.length = 1.0
        self.t2s_lookup = {"s": h.array([0, 1]), "t": h.array([self.t_0, self.t_1])}
    h.stub(crv.Curve, "update_lengths", update, "arc-length tables of curves: uniform, length 1")


def pressure(h, name="al", lo=0.2, hi=0.6):
    """a pressure angle with the elementary facts about inv(a) = tan a - a"""
    al = h.angle(name, lo, hi)
    ta = h.np.tan(al)
    h.assume(ta - al > 0, ta - al < 0.2, h.np.sin(ta - al) > 0, h.np.cos(ta - al) > 0.9)
    return al, ta


class Spec:
    """input parameters of an involute spur gear and the quantities they define"""

    def __init__(self, h, n, al, ta, mod, ring=False, zlo=8, zhi=60):
        self.ring = ring
        self.z = h.int("z" + n, zlo, zhi)
        self.x = h.real("x" + n, -0.5, 0.5)
        self.b = h.real("b" + n, 0, 0.1)
        self.rb = mod * self.z / 2 * h.np.cos(al)
        self.psi = h.pi / 2 / self.z + 2 * self.x * ta / self.z - 2 * self.b / self.z + ta - al
        h.assume(self.psi > 0.001)
        self.kw = dict(module=mod, pressure_angle=al, profile_shift=self.x, backlash=self.b)

    def gear(self, h, **k):
        w = h.m("gggears_wrapper")
        kw = dict(self.kw)
        kw.update(k)
        return (w.SpurRingGear if self.ring else w.SpurGear)(self.z, **kw)


def involute_roots(h, al, ta, *more):
    h.root_bounds((0.05, 0.95))
    h.roots([ta / 2, (ta - al) / (2 * h.pi), 0], *more, otherwise="free")


def place(h, g, n, axes="zxz"):
    """put a gear anywhere"""
    g.gearcore.transform.center = h.vec("c" + n)
    g.gearcore.transform.orientation = h.orient("o" + n, axes)
    g.gearcore.transform.angle = h.angle("ang" + n, -3, 3)


import contextlib


@contextlib.contextmanager
def patched(obj, **kw):
    """attributes replaced for a while (the CAD kernel's constructors by recording stand-ins)"""
    old = {n: obj.__dict__.get(n, contextlib) for n in kw}
    for n, v in kw.items():
        setattr(obj, n, v)
    try:
        yield
    finally:
        for n, v in old.items():
            if v is contextlib:
                delattr(obj, n)
            else:
                setattr(obj, n, v)
