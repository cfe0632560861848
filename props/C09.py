"""C09 meshing phase: teeth of one gear meet gaps of the other"""
from symgg.harness import harness
from props.gearlib import *
M = ["gggears_wrapper"]


def phase(h, tr1, tr2, z1, z2, o2, tau, ring1, ring2, label="phase", shift=0):
    """tr1 was placed on tr2 along o2 @ (cos tau, sin tau, 0).  In each gear's own
    frame: the direction to the point of contact relative to a tooth centre, in units of
    the pitch; external gears add up to one half, a ring (whose profile is the gap)
    and its pinion agree"""
    t = o2 @ h.array([h.np.cos(tau), h.np.sin(tau), 0])
    along = h.dot(tr1.center - tr2.center, t)
    h.nonzero(label + " centres apart", along, 1e-7)
    t1 = t2 = tau
    if bool(along < 0):
        t1 = t2 = tau + h.pi
    # gear 1 lies at +t1 seen from gear 2
    if ring1:
        t1, t2 = t1 + h.pi, t2 + h.pi
    elif not ring2:
        t1 = t1 + h.pi
    h.eq(label + " same axes", tr1.orientation, o2)
    sg = -1 if (ring1 or ring2) else 1
    e = z1 * (t1 - tr1.angle + shift) + sg * z2 * (t2 - tr2.angle)
    want = 1 if (ring1 or ring2) else -1
    h.eq(label, [h.np.cos(e), h.np.sin(e)], [want, 0])


def setup(h, mod=None):
    ring1 = h.bool("ring1")
    ring2 = False if ring1 else h.bool("ring2")
    z1 = h.int("z1", 20, 90) if ring1 else h.int("z1", 8, 60)
    z2 = h.int("z2", 20, 90) if ring2 else h.int("z2", 8, 60)
    if mod is None:
        mod = h.real("m", 0.001, 5)
    # a pinion with one tooth less than its ring has its centre half a module off the ring's
    if ring1:
        h.assume(z1 > z2)
    if ring2:
        h.assume(z2 > z1)
    return ring1, ring2, z1, z2, mod


def go(h, g1, g2, t1, t2, st, **k):
    ring1, ring2, z1, z2, mod = st
    t2.center = h.vec("c")
    t2.orientation = o2 = h.orient("o")
    t2.angle = h.angle("ang", -9, 9)
    tau = h.angle("tau", -3, 3)
    g1.mesh_to(g2, target_dir=o2 @ h.array([h.np.cos(tau), h.np.sin(tau), 0]), **k)
    phase(h, t1, t2, z1, z2, o2, tau, ring1, ring2)


@harness("C09", "cycloid", modules=M)
def cycloid(h):
    uniform(h)
    w = h.m("gggears_wrapper")
    st = ring1, ring2, z1, z2, mod = setup(h)
    g1 = w.CycloidGear(z1, module=mod, inside_teeth=ring1)
    g2 = w.CycloidGear(z2, module=mod, inside_teeth=ring2)
    go(h, g1, g2, g1.gearcore.transform, g2.gearcore.transform, st)


@harness("C09", "core_gear", modules=M)
def core_gear(h):
    uniform(h)
    core = h.m("gggears_core")
    st = ring1, ring2, z1, z2, mod = setup(h)
    g1 = core.Gear(tooth_param=core.GearToothParam(z1, inside_teeth=ring1), module=mod)
    g2 = core.Gear(tooth_param=core.GearToothParam(z2, inside_teeth=ring2), module=mod)
    go(h, g1, g2, g1.transform, g2.transform, st)


@harness("C09", "involute", modules=M)
def involute(h):
    uniform(h)
    w = h.m("gggears_wrapper")
    al, ta = pressure(h)
    st = ring1, ring2, z1, z2, mod = setup(h)
    involute_roots(h, al, ta)
    cls = lambda r: w.SpurRingGear if r else w.SpurGear
    g1 = cls(ring1)(z1, module=mod, pressure_angle=al)
    g2 = cls(ring2)(z2, module=mod, pressure_angle=al)
    go(h, g1, g2, g1.gearcore.transform, g2.gearcore.transform, st)


@harness("C09", "angle_bias", modules=M)
def angle_bias(h):
    """bias within the backlash: half the angular backlash per unit of bias"""
    uniform(h)
    w = h.m("gggears_wrapper")
    al, ta = pressure(h)
    ring1, ring2, z1, z2, mod = setup(h, h.real("m", 0.2, 5))
    bl = h.real("bl", 0, 0.3)
    bias = h.real("bias", -1, 1)
    h.assume(mod * z1 > 1, mod * z2 > 1)
    involute_roots(h, al, ta)
    cls = lambda r: w.SpurRingGear if r else w.SpurGear
    g1 = cls(ring1)(z1, module=mod, pressure_angle=al)
    g2 = cls(ring2)(z2, module=mod, pressure_angle=al)
    g2.angle = h.angle("ang", -3, 3)
    d = h.array([1, 0, 0])
    g1.mesh_to(g2, target_dir=d, backlash=bl, angle_bias=bias)
    a = g1.angle
    g1.mesh_to(g2, target_dir=d, backlash=bl)
    h.eq("bias", (a - g1.angle) * mod * z1 / 2 * h.np.cos(al), bias * bl / 2)


@harness("C09", "coaxial_ring", modules=M)
def coaxial(h):
    """a coupling: ring and gear with the same centre line up tooth in gap"""
    gm = h.m("gearmath")
    bc = h.m("gggears_base_classes")
    z = h.int("z", 8, 60)
    o = h.orient("o")
    c = h.vec("c")
    t1 = bc.GearTransform(center=c, orientation=o, angle=h.angle("a1", -3, 3), scale=1)
    t2 = bc.GearTransform(center=c, orientation=o, angle=h.angle("a2", -3, 3), scale=1)
    p = 2 * h.pi / z
    r1 = h.bool("r1")
    a = gm.calc_mesh_angle(t1, t2, p, p, gear1_inside_ring=r1, gear2_inside_ring=not r1)
    e = z * (a - t2.angle)
    h.eq("aligned", [h.np.cos(e), h.np.sin(e)], [1, 0])


@harness("C09", "mesh_angle", modules=M)
def mesh_angle(h):
    """calc_mesh_angle itself, for unequal pitches and any (parallel) placement"""
    gm = h.m("gearmath")
    bc = h.m("gggears_base_classes")
    ring1 = h.bool("ring1")
    ring2 = False if ring1 else h.bool("ring2")
    z1, z2 = h.int("z1", 6, 90), h.int("z2", 6, 90)
    o = h.orient("o")
    c = h.vec("c")
    tau = h.angle("tau", -3, 3)
    d = h.real("d", 0.0005, 100)
    roll = h.angle("roll", -3, 3)
    t = o @ h.array([h.np.cos(tau), h.np.sin(tau), 0])
    o1 = o @ h.rz(roll)
    t2 = bc.GearTransform(center=c, orientation=o, angle=h.angle("a2", -3, 3), scale=1)
    t1 = bc.GearTransform(center=c + t * d, orientation=o1, angle=h.angle("a1", -3, 3), scale=1)
    a = gm.calc_mesh_angle(t1, t2, 2 * h.pi / z1, 2 * h.pi / z2,
                           gear1_inside_ring=ring1, gear2_inside_ring=ring2)
    c1, c2 = tau - roll, tau
    if ring1:
        c1, c2 = c1 + h.pi, c2 + h.pi
    elif not ring2:
        c1 = c1 + h.pi
    sg = -1 if (ring1 or ring2) else 1
    e = z1 * (c1 - a) + sg * z2 * (c2 - t2.angle)
    h.eq("phase", [h.np.cos(e), h.np.sin(e)], [1 if (ring1 or ring2) else -1, 0])
