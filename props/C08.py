"""C08 centre distance and placement of involute gears"""
from symgg.harness import harness
from props.gearlib import *
M = ["gggears_wrapper"]


def setup(h, ring1=False, ring2=False, bl_name=None):
    """two cylindrical involute gears and the backlash that belongs to the chosen
    working pressure angle aw: j = 2 [ (rb1+rb2) inv(aw) - rb1 psi1 - rb2 psi2 + pi rb2/z2 ]
    (external), psi the half tooth angle at the base circle"""
    uniform(h)
    al, ta = pressure(h)
    aw, tw = pressure(h, "aw")
    mod = h.real("m", 0.2, 5)
    if ring1:
        s1, s2 = Spec(h, "1", al, ta, mod, True, 40, 90), Spec(h, "2", al, ta, mod, False, 8, 30)
    elif ring2:
        s1, s2 = Spec(h, "1", al, ta, mod, False, 8, 30), Spec(h, "2", al, ta, mod, True, 40, 90)
    else:
        s1, s2 = Spec(h, "1", al, ta, mod), Spec(h, "2", al, ta, mod)
    if ring1 or ring2:
        r, p = (s1, s2) if ring1 else (s2, s1)
        bl = 2 * (r.rb * r.psi - p.rb * p.psi - (r.rb - p.rb) * (tw - aw))
        ca = h.np.cos(al)
        h.assume(ca * (r.z * r.psi - p.z * p.psi) > 0.01, mod * ca * (r.z - p.z) > 1)
        d = (r.rb - p.rb) / h.np.cos(aw)
        cand = -aw
    else:
        bl = 2 * ((s1.rb + s2.rb) * (tw - aw) - s1.rb * s1.psi - s2.rb * s2.psi + h.pi * s2.rb / s2.z)
        d = (s1.rb + s2.rb) / h.np.cos(aw)
        cand = aw
    h.assume(bl >= 0)
    involute_roots(h, al, ta, [cand])
    return s1, s2, bl, d


@harness("C08", "external", modules=M)
def external(h):
    s1, s2, bl, d = setup(h)
    # crowned teeth are nominal in the middle: crowning does not change the distance
    cr = dict(crowning=h.real("K", 0, 200), z_anchor=h.real("za", 0, 1)) if h.bool("crowned") else {}
    g1, g2 = s1.gear(h), s2.gear(h, **cr)
    place(h, g2, "2")
    o2 = g2.gearcore.transform.orientation
    c2, a2 = g2.center, g2.angle
    tau = h.angle("tau", -3, 3)
    L = h.real("L", 0.1, 10)
    t = o2 @ h.array([h.np.cos(tau), h.np.sin(tau), 0])
    g1.mesh_to(g2, target_dir=t * L, backlash=bl)
    h.eq("centre distance", g1.center - c2, t * d)
    h.eq("orientation", g1.gearcore.transform.orientation, o2)
    h.eq("other centre", g2.center, c2)
    h.eq("other angle", g2.angle, a2)
    h.eq("other orientation", g2.gearcore.transform.orientation, o2)


def ring_case(h, first):
    s1, s2, bl, d = setup(h, ring1=first, ring2=not first)
    g1, g2 = s1.gear(h), s2.gear(h)
    place(h, g2, "2")
    o2 = g2.gearcore.transform.orientation
    c2, a2 = g2.center, g2.angle
    tau = h.angle("tau", -3, 3)
    t = o2 @ h.array([h.np.cos(tau), h.np.sin(tau), 0])
    g1.mesh_to(g2, target_dir=t, backlash=bl)
    dv = g1.center - c2
    h.eq("centre distance", dv, t * d)
    h.eq("orientation", g1.gearcore.transform.orientation, o2)
    h.eq("other centre", g2.center, c2)
    h.eq("other angle", g2.angle, a2)
    h.eq("other orientation", g2.gearcore.transform.orientation, o2)


@harness("C08", "pinion_in_ring", modules=M)
def pinion_in_ring(h):
    ring_case(h, False)


@harness("C08", "ring_on_pinion", modules=M)
def ring_on_pinion(h):
    ring_case(h, True)


@harness("C08", "zero_backlash_nominal", modules=M)
def zero_backlash(h):
    """standard gears without backlash: the pitch circles touch"""
    uniform(h)
    al, ta = pressure(h)
    mod = h.real("m", 0.2, 5)
    w = h.m("gggears_wrapper")
    involute_roots(h, al, ta, [al])
    z1, z2 = h.int("z1", 8, 60), h.int("z2", 8, 60)
    x = h.real("x", -0.4, 0.4)
    g1 = w.SpurGear(z1, module=mod, pressure_angle=al, profile_shift=x)
    g2 = w.SpurGear(z2, module=mod, pressure_angle=al, profile_shift=-x)
    g1.mesh_to(g2, target_dir=h.array([0, 1, 0]))
    h.eq("pitch circles touch", g1.center, [0, mod * (z1 + z2) / 2, 0])
    h.eq("reported radii", g1.pitch_radius + g2.pitch_radius, mod * (z1 + z2) / 2)


@harness("C08", "distance_inverse", modules=M)
def distance_inverse(h):
    """backlash_from_ax_distance returns the backlash of a given centre distance"""
    gm = h.m("gearmath")
    aw, tw = pressure(h, "aw")
    r1, r2 = h.real("r1", 0.5, 50), h.real("r2", 0.5, 50)
    p1, p2 = h.real("p1", 0.01, 0.6), h.real("p2", 0.01, 0.6)
    pa = h.real("pa", 0.02, 1)
    inv = tw - aw
    d = (r1 + r2) / h.np.cos(aw)
    j = 2 * ((r1 + r2) * inv - r1 * p1 - r2 * p2 + pa / 2 * r2)
    h.eq("external", gm.backlash_from_ax_distance(d, r1, r2, p1, p2, pa), j)
    h.roots([aw], otherwise="free")
    h.eq("external distance", gm.calc_involute_mesh_distance(r1, r2, p1, p2, pa, backlash=j), d)


@harness("C08", "distance_inverse_ring", modules=M)
def distance_inverse_ring(h):
    gm = h.m("gearmath")
    aw, tw = pressure(h, "aw")
    r1, r2 = h.real("r1", 0.5, 50), h.real("r2", 0.5, 50)
    p1, p2 = h.real("p1", 0.01, 0.6), h.real("p2", 0.01, 0.6)
    pa = h.real("pa", 0.02, 1)
    first = h.bool("ring_first")
    big, small = (r1, r2) if first else (r2, r1)
    pb, ps = (p1, p2) if first else (p2, p1)
    h.assume(big - small > 0.01, big * pb - small * ps > 0.001)
    d = (big - small) / h.np.cos(aw)
    j = 2 * (big * pb - small * ps - (big - small) * (tw - aw))
    h.roots([-aw], [aw], otherwise="free")
    h.eq("ring", gm.backlash_from_ax_distance(d, r1, r2, p1, p2, pa, inside_ring=True), j)
    dd = gm.calc_involute_mesh_distance(r1, r2, p1, p2, pa, inside_ring=True, backlash=j)
    h.eq("ring distance", dd, d)


def pitch_touch(h, make, transform):
    """gears placed by their pitch circles (cycloid gears, bare gears)"""
    mod = h.real("m", 0.2, 5)
    ring1 = h.bool("ring1")
    ring2 = False if ring1 else h.bool("ring2")
    z1 = h.int("z1", 40, 90) if ring1 else h.int("z1", 8, 30)
    z2 = h.int("z2", 40, 90) if ring2 else h.int("z2", 8, 30)
    h.assume(mod * z1 > 1, mod * z2 > 1)
    if ring1:
        h.assume(mod * (z1 - z2) > 1)
    if ring2:
        h.assume(mod * (z2 - z1) > 1)
    g1, g2 = make(h, z1, mod, ring1), make(h, z2, mod, ring2)
    t1, t2 = transform(g1), transform(g2)
    t2.center = c2 = h.vec("c")
    t2.orientation = o2 = h.orient("o")
    t2.angle = a2 = h.angle("ang", -3, 3)
    tau = h.angle("tau", -3, 3)
    t = o2 @ h.array([h.np.cos(tau), h.np.sin(tau), 0])
    g1.mesh_to(g2, target_dir=t)
    d = mod * (z1 - z2) / 2 if ring1 else mod * (z2 - z1) / 2 if ring2 else mod * (z1 + z2) / 2
    dv = transform(g1).center - c2
    h.eq("centre distance", dv, t * d)
    h.eq("orientation", transform(g1).orientation, o2)
    h.eq("other centre", transform(g2).center, c2)
    h.eq("other angle", transform(g2).angle, a2)
    h.eq("other orientation", transform(g2).orientation, o2)


@harness("C08", "cycloid", modules=M)
def cycloid(h):
    uniform(h)
    w = h.m("gggears_wrapper")
    pitch_touch(h, lambda h, z, m, ring: w.CycloidGear(z, module=m, inside_teeth=ring),
                lambda g: g.gearcore.transform)


@harness("C08", "core_gear", modules=M)
def core_gear(h):
    uniform(h)
    core = h.m("gggears_core")
    pitch_touch(h, lambda h, z, m, ring: core.Gear(tooth_param=core.GearToothParam(z, inside_teeth=ring), module=m),
                lambda g: g.transform)


@harness("C08", "nominal_distance", modules=M)
def nominal_distance(h):
    gm = h.m("gearmath")
    r1, r2 = h.real("r1", 1, 50), h.real("r2", 1, 50)
    x1, x2 = h.real("x1", -1, 1), h.real("x2", -1, 1)
    mod = h.real("m", 0.2, 5)
    h.eq("external", gm.calc_nominal_mesh_distance(r1, r2, x1, x2, mod), r1 + r2 + mod * (x1 + x2))
    h.eq("ring 2", gm.calc_nominal_mesh_distance(r1, r2, x1, x2, mod, False, True), r2 - r1 + mod * (x2 - x1))
    h.eq("ring 1", gm.calc_nominal_mesh_distance(r1, r2, x1, x2, mod, True, False), r1 - r2 + mod * (x1 - x2))
