"""C11 helical gears: transverse geometry, twist, alignment"""
from symgg.harness import harness
from props.gearlib import *
M = ["gggears_wrapper"]


def gear(h, n, al, ta, beta, mn, ring=False, zlo=8, zhi=40, **k):
    """helical gear from its normal-plane parameters; al is the transverse angle"""
    w = h.m("gggears_wrapper")
    z = h.int("z" + n, zlo, zhi)
    an = h.np.arctan(ta * h.np.cos(beta))
    cls = w.HelicalRingGear if ring else w.HelicalGear
    return z, cls(z, helix_angle=beta, module=mn, pressure_angle=an, **k)


def start(h):
    uniform(h)
    al, ta = pressure(h)
    beta = h.angle("beta", -1.0, 1.0)
    mn = h.real("mn", 0.2, 5)
    return al, ta, beta, mn


@harness("C11", "transverse", modules=M)
def transverse(h):
    """module, pressure angle, shift, tooth heights and base circle in the transverse plane"""
    al, ta, beta, mn = start(h)
    involute_roots(h, al, ta)
    x = h.real("x", -0.5, 0.5)
    ha, hd = h.real("ha", 0.8, 1.3), h.real("hd", 0.8, 1.5)
    ring = h.bool("ring")
    z, g = gear(h, "", al, ta, beta, mn, ring, profile_shift=x, addendum_coefficient=ha, dedendum_coefficient=hd)
    mt = mn / h.np.cos(beta)
    h.eq("pitch radius", g.pitch_radius, mt * z / 2)
    h.eq("module", g.module, mt)
    rec = g.gearcore.shape_recipe(0)
    h.eq("transverse pressure angle", rec.tooth_generator.pressure_angle, al)
    h.eq("addendum height", rec.limits.h_a * g.module, (ha + x) * mn)
    h.eq("dedendum height", rec.limits.h_d * g.module, (hd - x) * mn)
    h.eq("tooth width at pitch circle", rec.tooth_generator.pitch_intersect_angle * g.pitch_radius,
         h.pi * mt / 4 + x * mn * ta)
    h.eq("base radius", g.r_base, mt * z / 2 * h.np.cos(al))


@harness("C11", "twist", modules=M)
def twist(h):
    """the teeth wind with the helix angle at the pitch cylinder"""
    al, ta, beta, mn = start(h)
    H = h.real("H", 0.5, 30)
    anchor = h.real("anchor", 0, 1)
    ring = h.bool("ring")
    h.assume(h.np.tan(beta) * H < 3 * mn, h.np.tan(beta) * H > -3 * mn)
    z, g = gear(h, "", al, ta, beta, mn, ring, height=H, z_anchor=anchor, zlo=20)
    zv = g.gearcore.z_vals
    h.eq("height", (zv[-1] - zv[0]) * g.module, H)
    h.eq("anchor", -zv[0] * g.module, anchor * H)
    f = h.real("f", 0, 1)
    lev = zv[0] + f * (zv[-1] - zv[0])
    tr = g.gearcore.shape_recipe(lev).transform
    h.eq("wind", tr.angle * g.pitch_radius, h.np.tan(beta) * (f - anchor) * H)
    h.eq("level", tr.center * g.module, [0, 0, (f - anchor) * H])
    h.eq("constant size", tr.scale, 1)


@harness("C11", "many_turns", modules=M)
def many_turns(h):
    """worm-like gears: the levels keep the ends, increase, and never span a full turn"""
    uniform(h)
    w = h.m("gggears_wrapper")
    beta = h.angle("beta", 1.1, 1.45)
    H = h.real("H", 5, 40)
    anchor = h.choice("anchor", [0, 0.5, 1])
    herring = h.bool("herring")
    tb = h.np.tan(beta)
    h.assume(H * tb * h.np.cos(beta) < 30)
    g = w.HelicalGear(3, helix_angle=beta, height=H, z_anchor=anchor, herringbone=herring)
    zv = g.gearcore.z_vals
    m = g.module
    h.eq("bottom", zv[0] * m, -anchor * H)
    h.eq("top", zv[-1] * m, (1 - anchor) * H)
    ang = g.gearcore.shape_recipe.transform.angle
    for a, b in zip(zv[:-1], zv[1:]):
        h.true("increasing", a < b)
        h.near("less than a turn", ang(b) - ang(a), 0, 6.2832)


def herring_check(h, g, H, anchor, beta):
    zv = g.gearcore.z_vals
    m = g.module
    h.eq("bottom", zv[0] * m, -anchor * H)
    h.eq("top", zv[-1] * m, (1 - anchor) * H)
    mid = (zv[0] + zv[-1]) / 2
    ang = lambda z: g.gearcore.shape_recipe(z).transform.angle
    d = h.real("d", 0, 1) * (zv[-1] - mid)
    h.eq("mirror", ang(mid + d), ang(mid - d))
    h.eq("wind", (ang(mid - d) - ang(zv[0])) * g.pitch_radius, h.np.tan(beta) * (mid - d - zv[0]) * m)
    h.true("kink level", any(bool(abs(v - mid) < 1e-9) for v in zv))


@harness("C11", "herringbone", modules=M)
def herringbone(h):
    al, ta, beta, mn = start(h)
    H = h.real("H", 0.5, 30)
    anchor = h.choice("anchor", [0, 0.5, 1, 0.3])
    ring = h.bool("ring")
    h.assume(h.np.tan(beta) * H < 3 * mn, h.np.tan(beta) * H > -3 * mn)
    z, g = gear(h, "", al, ta, beta, mn, ring, height=H, z_anchor=anchor, zlo=20, herringbone=True)
    herring_check(h, g, H, anchor, beta)


def contact(h, tr1, tr2, tau, o2, ring2, b1, b2, z1, z2):
    """tooth lines of both gears are parallel at the contact point"""
    ez = h.array([0, 0, 1])
    t = o2 @ h.array([h.np.cos(tau), h.np.sin(tau), 0])
    ax1, ax2 = tr1.orientation @ ez, o2 @ ez
    out1 = t if ring2 else -t
    s, c = h.np.sin, h.np.cos
    d1 = c(b1) * ax1 + s(b1) * h.cross(ax1, out1)
    d2 = c(b2) * ax2 + s(b2) * h.cross(ax2, t)
    h.eq("centre line", h.cross(tr1.center - tr2.center, t), [0, 0, 0])
    h.true("centre side", h.dot(tr1.center - tr2.center, t) > 0)
    h.eq("axis across the centre line", h.dot(ax1, t), 0)
    h.eq("teeth parallel", h.cross(d1, d2), [0, 0, 0])
    h.true("same sense", h.dot(d1, d2) > 0)
    loc = out1 @ tr1.orientation
    t1 = tau if ring2 else tau + h.pi
    h.eq("contact direction", loc, [c(t1), s(t1), 0])
    sg, want = (-1, 1) if ring2 else (1, -1)
    e = z1 * (t1 - tr1.angle) + sg * z2 * (tau - tr2.angle)
    h.eq("phase", [c(e), s(e)], [want, 0])


def align(h, ring):
    """external helical gears (any helix angles) and a gear in a ring"""
    uniform(h)
    w = h.m("gggears_wrapper")
    al, ta = pressure(h)
    shaft = h.choice("shaft", [0, 1, -1])
    b1 = h.angle("b1", 0.05, 0.7)
    if h.bool("left"):
        b1 = -b1
    if shaft:
        shaft = shaft * h.angle("s", 0.05, 0.6)
    b2 = shaft + b1 if ring else shaft - b1
    mn = h.real("mn", 0.2, 5)
    involute_roots(h, al, ta)
    z1 = h.int("z1", 8, 20)
    z2 = h.int("z2", 60, 90) if ring else h.int("z2", 8, 20)
    for b, z in ((b1, z1), (b2, z2)):       # twist over the default height is small
        sc = 2 * h.np.sin(b) * h.np.cos(b)
        h.assume(mn * z > 8, h.pi * mn * z * h.np.cos(b) > 3, sc < 2, sc > -2)
    g1 = w.HelicalGear(z1, helix_angle=b1, module=mn)
    g2 = (w.HelicalRingGear if ring else w.HelicalGear)(z2, helix_angle=b2, module=mn)
    h.stub(w.InvoluteGear, "r_base", property(lambda s: s.number_of_teeth * mn), "base radius: any positive length")
    h.stub(w.InvoluteGear, "angle_base", property(lambda s: -2 / s.number_of_teeth), "base angle: any")
    h.assume(mn * (z2 - z1) > 1 if ring else True)
    place(h, g2, "2")
    o2 = g2.gearcore.transform.orientation
    tau = h.angle("tau", -3, 3)
    g1.mesh_to(g2, target_dir=o2 @ h.array([h.np.cos(tau), h.np.sin(tau), 0]))
    contact(h, g1.gearcore.transform, g2.gearcore.transform, tau, o2, ring, b1, b2, z1, z2)


@harness("C11", "alignment", modules=M)
def alignment(h):
    align(h, False)


@harness("C11", "alignment_ring", modules=M)
def alignment_ring(h):
    align(h, True)


@harness("C11", "parallel_distance", modules=M)
def parallel_distance(h):
    """opposite helix angles (equal ones in a ring): parallel axes at the distance of
    the transverse involutes, backlash and bias included"""
    uniform(h)
    w = h.m("gggears_wrapper")
    al, ta = pressure(h)
    aw, tw = pressure(h, "aw")
    beta = h.angle("beta", 0.1, 0.8)
    mn = h.real("mn", 0.2, 5)
    mt = mn / h.np.cos(beta)
    an = h.np.arctan(ta * h.np.cos(beta))
    z1, z2 = h.int("z1", 12, 30), h.int("z2", 12, 30)
    x1, x2 = h.real("x1", -0.4, 0.4), h.real("x2", -0.4, 0.4)
    rb = lambda z: mt * z / 2 * h.np.cos(al)
    psi = lambda z, x: h.pi / 2 / z + 2 * x * h.np.cos(beta) * ta / z + ta - al
    for z, x in ((z1, x1), (z2, x2)):
        sc = 2 * h.np.sin(beta) * h.np.cos(beta)
        h.assume(mn * z > 8, h.pi * mn * z * h.np.cos(beta) > 3, sc < 2, sc > -2, psi(z, x) > 0.001)
    bl = 2 * ((rb(z1) + rb(z2)) * (tw - aw) - rb(z1) * psi(z1, x1) - rb(z2) * psi(z2, x2) + h.pi * rb(z2) / z2)
    h.assume(bl >= 0)
    involute_roots(h, al, ta, [aw])
    kw = dict(module=mn, pressure_angle=an)
    g1 = w.HelicalGear(z1, helix_angle=beta, profile_shift=x1, **kw)
    g2 = w.HelicalGear(z2, helix_angle=-beta, profile_shift=x2, **kw)
    g1.mesh_to(g2, target_dir=h.array([0, 1, 0]), backlash=bl)
    h.eq("centre", g1.center, [0, (rb(z1) + rb(z2)) / h.np.cos(aw), 0])
    h.eq("parallel", g1.gearcore.transform.orientation, h.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]]))
    a = g1.angle
    bias = h.real("bias", -1, 1)
    g1.mesh_to(g2, target_dir=h.array([0, 1, 0]), backlash=bl, angle_bias=bias)
    h.eq("bias", (g1.angle - a) * rb(z1), bias * bl / 2)


@harness("C11", "crossed_distance", modules=M, assert_timeout=2500)
def crossed_distance(h):
    """crossed standard gears without backlash: the pitch cylinders touch"""
    uniform(h)
    w = h.m("gggears_wrapper")
    b1, b2 = h.angle("b1", 0.1, 0.3), h.angle("b2", 0.5, 0.7)
    z1, z2 = h.int("z1", 12, 30), h.int("z2", 12, 30)
    h.roots(otherwise="free")
    h.root_bounds((0.05, 0.95))
    g1 = w.HelicalGear(z1, helix_angle=b1)
    g2 = w.HelicalGear(z2, helix_angle=b2)
    g1.mesh_to(g2)
    d = z1 / h.np.cos(b1) / 2 + z2 / h.np.cos(b2) / 2
    h.eq("pitch cylinders touch", g1.center, [d, 0, 0])
