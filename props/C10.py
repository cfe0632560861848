"""C10 bevel gear placement"""
from symgg.harness import harness
from props.gearlib import *
M = ["gggears_wrapper"]


def bevel_pair(h):
    """two cones of one apex distance: the pitch radii are R sin(gamma)"""
    ring = h.choice("ring", ["none", "second", "first"])
    if ring == "none":
        g1, g2 = h.angle("g1", 0.15, 1.35), h.angle("g2", 0.15, 1.35)
    elif ring == "second":
        g1, g2 = h.angle("g1", 0.15, 0.6), h.angle("g2", 0.8, 1.35)
    else:
        g1, g2 = h.angle("g1", 0.8, 1.35), h.angle("g2", 0.15, 0.6)
    mod = h.real("m", 0.2, 5)
    rs = h.real("R", 5, 40)            # spherical radius in modules
    return ring, g1, g2, mod, rs


def check(h, tr1, tr2, g1, g2, mod, rs, ring, tau, o2, c2, a2, z1, z2, ph=True):
    s, c = h.np.sin, h.np.cos
    ez = h.array([0, 0, 1])
    R = rs * mod
    zz2, zz1 = o2 @ ez, tr1.orientation @ ez
    t = o2 @ h.array([c(tau), s(tau), 0])
    o1 = tr1.orientation
    h.eq("rigid", o1.T @ o1, h.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]]))
    apex = c2 + R * c(g2) * zz2
    h.eq("common apex", tr1.center + R * c(g1) * zz1, apex)
    # point of contact on gear 2's pitch circle
    P = c2 + R * s(g2) * t
    h.eq("on pitch plane", h.dot(P - tr1.center, zz1), 0)
    h.eq("pitch circles touch", h.norm2(P - tr1.center), (R * s(g1)) ** 2)
    shaft = g1 + g2 if ring == "none" else g2 - g1
    h.eq("shaft angle", h.dot(zz1, zz2), c(shaft))
    # gear's own frame
    loc = (P - tr1.center) @ o1
    if ring == "none":
        t1, sg, want = tau + h.pi, 1, -1
    else:
        t1, sg, want = tau, -1, 1
    h.eq("contact direction", loc, R * s(g1) * h.array([c(t1), s(t1), 0]))
    h.eq("other centre", tr2.center, c2)
    h.eq("other orientation", tr2.orientation, o2)
    h.eq("other angle", tr2.angle, a2)
    if ph:
        e = z1 * (t1 - tr1.angle) + sg * z2 * (tau - a2)
        h.eq("phase", [c(e), s(e)], [want, 0])


@harness("C10", "involute", modules=M)
def involute(h):
    uniform(h)
    w = h.m("gggears_wrapper")
    ring, g1, g2, mod, rs = bevel_pair(h)
    z1, z2 = 2 * rs * h.np.sin(g1), 2 * rs * h.np.sin(g2)
    a = w.BevelGear(z1, cone_angle=2 * g1, module=mod) if ring != "first" else \
        w.InvoluteGear(z1, cone_angle=2 * g1, module=mod, inside_teeth=True)
    b = w.BevelGear(z2, cone_angle=2 * g2, module=mod) if ring != "second" else \
        w.InvoluteGear(z2, cone_angle=2 * g2, module=mod, inside_teeth=True)
    place(h, b, "2")
    tr = b.gearcore.transform
    o2, c2, a2 = tr.orientation, tr.center, tr.angle
    tau = h.angle("tau", -3, 3)
    t = o2 @ h.array([h.np.cos(tau), h.np.sin(tau), 0])
    a.mesh_to(b, target_dir=t)
    check(h, a.gearcore.transform, b.gearcore.transform, g1, g2, mod, rs, ring, tau, o2, c2, a2, z1, z2, ph=False)


@harness("C10", "phase", modules=M)
def phase(h):
    uniform(h)
    w = h.m("gggears_wrapper")
    # (the ratio of the modules makes the cones fit for any pair of tooth numbers)
    ring, g1, g2, mod, rs = bevel_pair(h)
    z1, z2 = h.int("z1", 8, 40), h.int("z2", 8, 40)
    rad = rs * mod
    m1, m2 = 2 * rad * h.np.sin(g1) / z1, 2 * rad * h.np.sin(g2) / z2
    a = w.InvoluteGear(z1, cone_angle=2 * g1, module=m1, inside_teeth=ring == "first")
    b = w.InvoluteGear(z2, cone_angle=2 * g2, module=m2, inside_teeth=ring == "second")
    place(h, b, "2")
    tr = b.gearcore.transform
    o2, c2, a2 = tr.orientation, tr.center, tr.angle
    tau = h.angle("tau", -3, 3)
    t = o2 @ h.array([h.np.cos(tau), h.np.sin(tau), 0])
    a.mesh_to(b, target_dir=t)
    check(h, a.gearcore.transform, b.gearcore.transform, g1, g2, mod, rs, ring, tau, o2, c2, a2, z1, z2)


@harness("C10", "skewed_target", modules=M)
def skewed_target(h):
    """only the direction of target_dir around the other gear's axis matters"""
    uniform(h)
    w = h.m("gggears_wrapper")
    ring, g1, g2, mod, rs = bevel_pair(h)
    z1, z2 = 2 * rs * h.np.sin(g1), 2 * rs * h.np.sin(g2)
    a = w.InvoluteGear(z1, cone_angle=2 * g1, module=mod, inside_teeth=ring == "first")
    b = w.InvoluteGear(z2, cone_angle=2 * g2, module=mod, inside_teeth=ring == "second")
    b.center = c2 = h.vec("c")
    b.angle = a2 = h.angle("ang", -3, 3)
    o2 = b.gearcore.transform.orientation
    tau = h.angle("tau", -3, 3)
    L, k = h.real("L", 0.2, 5), h.angle("k", -1.2, 1.2)
    c, s = h.np.cos, h.np.sin
    a.mesh_to(b, target_dir=L * h.array([c(tau) * c(k), s(tau) * c(k), s(k)]))
    check(h, a.gearcore.transform, b.gearcore.transform, g1, g2, mod, rs, ring, tau, o2, c2, a2, z1, z2, ph=False)


@harness("C10", "cycloid", modules=M)
def cycloid(h):
    uniform(h)
    w = h.m("gggears_wrapper")
    ring, g1, g2, mod, rs = bevel_pair(h)
    z1, z2 = h.int("z1", 8, 40), h.int("z2", 8, 40)
    rad = rs * mod
    m1, m2 = 2 * rad * h.np.sin(g1) / z1, 2 * rad * h.np.sin(g2) / z2
    a = w.CycloidGear(z1, cone_angle=2 * g1, module=m1, inside_teeth=ring == "first")
    b = w.CycloidGear(z2, cone_angle=2 * g2, module=m2, inside_teeth=ring == "second")
    place(h, b, "2")
    tr = b.gearcore.transform
    o2, c2, a2 = tr.orientation, tr.center, tr.angle
    tau = h.angle("tau", -3, 3)
    a.mesh_to(b, target_dir=o2 @ h.array([h.np.cos(tau), h.np.sin(tau), 0]))
    check(h, a.gearcore.transform, b.gearcore.transform, g1, g2, mod, rs, ring, tau, o2, c2, a2, z1, z2)


@harness("C10", "core_gear", modules=M)
def core_gear(h):
    uniform(h)
    core = h.m("gggears_core")
    ring, g1, g2, mod, rs = bevel_pair(h)
    z1, z2 = h.int("z1", 8, 40), h.int("z2", 8, 40)
    rad = rs * mod
    m1, m2 = 2 * rad * h.np.sin(g1) / z1, 2 * rad * h.np.sin(g2) / z2

    def mk(z, g, m, inside):
        tp = core.GearToothParam(z, inside_teeth=inside)
        return core.Gear(tooth_param=tp, module=m, cone=core.ConicData(cone_angle=2 * g),
                         shape_recipe=core.default_gear_recipe(tp, core.GearToothConicGenerator(), cone_angle=2 * g))
    a, b = mk(z1, g1, m1, ring == "first"), mk(z2, g2, m2, ring == "second")
    tr = b.transform
    tr.center = c2 = h.vec("c")
    tr.orientation = o2 = h.orient("o")
    tr.angle = a2 = h.angle("ang", -3, 3)
    tau = h.angle("tau", -3, 3)
    a.mesh_to(b, target_dir=o2 @ h.array([h.np.cos(tau), h.np.sin(tau), 0]))
    check(h, a.transform, b.transform, g1, g2, mod, rs, ring, tau, o2, c2, a2, z1, z2)


@harness("C10", "cones_from_teeth", modules=M)
def cones_from_teeth(h):
    """cone angles that roll on each other at the wanted shaft angle"""
    gm = h.m("gearmath")
    z1, z2 = h.int("z1", 5, 90), h.int("z2", 5, 90)
    fi = h.angle("fi", 0.2, 3.0)
    c1, c2 = gm.cone_angle_from_teeth(z1, z2, fi)
    h.eq("shaft angle", (c1 + c2) / 2, fi)
    h.eq("pitch ratio", h.np.sin(c1 / 2) * z2, h.np.sin(c2 / 2) * z1)
    h.le("positive 1", 0, h.np.sin(c1 / 2))
    h.le("positive 2", 0, h.np.sin(c2 / 2))
    h.near("range", [c1 / 2, c2 / 2], [0, 0], 3.1416)
    c1, c2 = gm.cone_angle_from_teeth(z1, z2)
    h.eq("default is a right angle", c1 + c2, h.pi)
    h.eq("default ratio", h.np.sin(c1 / 2) * z2, h.np.sin(c2 / 2) * z1)


@harness("C10", "offset", modules=M)
def offset(h):
    """placement and orientation calculators agree: with any offset the cones keep their common apex"""
    gm, b = h.m("gearmath"), h.m("gggears_base_classes")
    ring = h.choice("ring", ["none", "second", "first"])
    r = {"none": (0.15, 1.35, 0.15, 1.35), "second": (0.15, 0.6, 0.8, 1.35), "first": (0.8, 1.35, 0.15, 0.6)}[ring]
    g1, g2 = h.angle("g1", r[0], r[1]), h.angle("g2", r[2], r[3])
    R, e = h.real("R", 2, 50), h.angle("e", -0.1, 0.1)
    c2, o2, tau = h.vec("c"), h.orient("o"), h.angle("tau", -3, 3)
    t = o2 @ h.array([h.np.cos(tau), h.np.sin(tau), 0])
    tr = b.GearTransform(center=c2, orientation=o2)
    k1 = b.ConicData(cone_angle=2 * g1, base_radius=R * h.np.sin(g1))
    k2 = b.ConicData(cone_angle=2 * g2, base_radius=R * h.np.sin(g2), transform=tr)
    kw = dict(inside_ring_1=ring == "first", inside_ring_2=ring == "second", offset=e * R)
    c1 = gm.calc_bevel_gear_placement_vector(t, k1, k2, **kw)
    o1 = gm.calc_mesh_orientation(2 * g1, 2 * g2, R, tr, target_dir=t, **kw)
    ez = h.array([0, 0, 1])
    h.eq("common apex", c1 + R * h.np.cos(g1) * (o1 @ ez), c2 + R * h.np.cos(g2) * (o2 @ ez))
    shaft = g1 + g2 + e if ring == "none" else g2 - g1 + (e if ring == "second" else -e)
    h.eq("shaft angle", h.dot(o1 @ ez, o2 @ ez), h.np.cos(shaft))


@harness("C10", "axial_target", modules=M)
def axial_target(h):
    """asked for a direction along the other gear's axis, the gear still meshes apex to apex"""
    uniform(h)
    w = h.m("gggears_wrapper")
    ring, g1, g2, mod, rs = bevel_pair(h)
    z1, z2 = 2 * rs * h.np.sin(g1), 2 * rs * h.np.sin(g2)
    cls = w.CycloidGear if h.choice("cycloid", [False, True]) else w.InvoluteGear
    a = cls(z1, cone_angle=2 * g1, module=mod, inside_teeth=ring == "first")
    b = cls(z2, cone_angle=2 * g2, module=mod, inside_teeth=ring == "second")
    b.center = c2 = h.vec("c")
    b.angle = a2 = h.angle("ang", -3, 3)
    o2 = b.gearcore.transform.orientation
    ez = h.array([0, 0, 1])
    a.mesh_to(b, target_dir=ez * h.choice("way", [1, -1, 3]))
    t1 = a.gearcore.transform
    zz1 = t1.orientation @ ez
    c, R = h.np.cos, rs * mod
    h.eq("common apex", t1.center + R * c(g1) * zz1, c2 + R * c(g2) * ez)
    h.eq("shaft angle", zz1[2], c(g1 + g2 if ring == "none" else g2 - g1))
    h.eq("rigid", t1.orientation.T @ t1.orientation, h.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]]))
    h.eq("other gear", h.flat(b.gearcore.transform.center) + [b.gearcore.transform.angle], h.flat(c2) + [a2])
