"""C13 reported dimensions describe the gear where it is"""
from symgg.harness import harness
from props.gearlib import *
M = ["gggears_wrapper"]


def some_gear(h, kinds, H, a, m, **k):
    """a gear of one of the kinds; returns it with tooth number, half cone angle and transverse module"""
    w = h.m("gggears_wrapper")
    kind = h.choice("kind", kinds)
    z = h.int("z", 8, 60)
    kw = dict(height=H, module=m, z_anchor=a, **k)
    ga = 0
    if kind == "spur":
        g = w.SpurGear(z, **kw)
    elif kind == "ring":
        g = w.SpurRingGear(z, **kw)
    elif kind == "cycloid":
        g = w.CycloidGear(z, **kw)
    elif kind in ("helical", "herringbone"):
        b = h.angle("beta", -0.8, 0.8)
        h.assume(h.np.tan(b) * H < 3 * m, h.np.tan(b) * H > -3 * m)
        m = m / h.np.cos(b)
        g = w.HelicalGear(z, helix_angle=b, herringbone=kind == "herringbone", **kw)
    else:
        ga = h.angle("gamma", 0.15, 1.4)
        if kind.endswith("in"):         # the apex on the other side
            ga = -ga
        if kind.startswith("cyc"):
            g = w.CycloidGear(z, cone_angle=2 * ga, **kw)
        else:
            g = w.BevelGear(z, cone_angle=2 * ga, **kw)
    return g, z, ga, m


def common(h, kinds, anchors=(0, 0.5, 1, 0.3), **k):
    uniform(h)
    H, a, m = h.real("H", 0.5, 20), h.choice("anchor", list(anchors)) if anchors else h.real("anchor", 0, 1), h.real("m", 0.2, 5)
    g, z, ga, m = some_gear(h, kinds, H, a, m, **k)
    place(h, g, "")
    tr = g.gearcore.transform
    axis = tr.orientation @ h.array([0, 0, 1])
    return g, z, ga, m, H, a, h.array(tr.center), axis


ALL = ["spur", "ring", "cycloid", "helical", "herringbone", "bevel", "bevel_in", "cyc_bevel", "cyc_bevel_in"]


@harness("C13", "levels", modules=M)
def levels(h):
    """bottom, middle and top lie on the axis, at the heights given by height and anchor"""
    g, z, ga, m, H, a, c, ax = common(h, ALL)
    L = H * (h.np.cos(ga) if ga != 0 else 1)
    bot, top = c - a * L * ax, c + (1 - a) * L * ax
    h.eq("bottom", g.center_point_bottom, bot)
    h.eq("middle", g.center_point_middle, (bot + top) / 2)
    h.eq("top", g.center_point_top, top)
    h.eq("height along the axis", g.z_height, L)
    f = h.real("f", 0, 1)
    h.eq("proportion", g.center_point_at_z(g.p2z(f)), bot + f * (top - bot))
    h.eq("same", g.proportion_to_z(f), g.p2z(f))
    h.eq("pitch radius", [g.pitch_radius, g.rp, g.gearcore.rp], [m * z / 2] * 3)
    h.eq("pitch angle", [g.pitch_angle, g.gearcore.pitch_angle], [2 * h.pi / z] * 2)
    h.eq("teeth", g.number_of_teeth, z)
    h.eq("module", g.module, m)


@harness("C13", "cone", modules=M)
def cone(h):
    """all reports of the pitch cone agree: its apex, its slant length; every slice is concentric about the apex"""
    g, z, ga, m, H, a, c, ax = common(h, ["bevel", "bevel_in", "cyc_bevel", "cyc_bevel_in"])
    np = h.np
    apex = c + m * z / 2 / np.tan(ga) * ax
    R = m * z / 2 / np.sin(ga)
    R = R if R > 0 else -R
    h.eq("cone angle", g.cone_angle, 2 * ga)
    h.eq("apex", g.center_spherical, apex)
    h.eq("slant length", g.radius_spherical, R)
    h.eq("cone data", [g.cone_data.center, g.cone_data.center_base], [apex, c])
    h.eq("cone height", g.cone_data.height, m * z / 2 / np.tan(ga))
    h.eq("core apex", g.gearcore.center_sphere, apex)
    h.eq("core slant length", g.gearcore.R, R)
    f = h.real("f", 0.01, 0.99)
    h.assume(H < R)
    lev = g.p2z(f)
    ctr, r = g.gearcore.sphere_data_at_z(lev)
    h.eq("slice concentric", ctr, apex)
    s = (f - a) * H
    h.eq("slice slant length", r, R - s if ga > 0 else R + s)


@harness("C13", "circles", modules=M)
def circles(h):
    """reference circles of a slice: scaled and moved with the slice and the gear"""
    core, crv = h.m("gggears_core"), h.m("curve")
    g, z, ga, m, H, a, c, ax = common(h, ["spur", "bevel", "bevel_in", "cyc_bevel"], None)
    if ga != 0:
        h.assume(m * z > 4 * H)
    ra, rd, ro = h.real("ra", 1, 30), h.real("rd", 1, 30), h.real("ro", 1, 30)
    za, zd, zo = h.real("za", -1, 1), h.real("zd", -1, 1), h.real("zo", -1, 1)
    e = h.array([0, 0, 1])
    asked = []

    def gen(lev):
        asked.append(lev)
        t = g.gearcore.shape_recipe(lev).transform
        A = lambda r, zz: crv.ArcCurve(radius=r, center=e * zz, angle=1, yaw=0.5)
        return core.GearRefProfile(ra_curve=A(ra, za), rd_curve=A(rd, zd), ro_curve=A(ro, zo), tooth_curve=None,
                                   tooth_curve_mirror=None, pitch_angle=2 * h.pi / z, transform=t)
    g.gearcore.curve_gen_at_z = gen
    f = h.real("f", 0.01, 0.99)
    lev = g.p2z(f)
    d = g.radii_data_gen(lev)
    h.eq("slice", asked, [lev])
    ctr = g.center_point_at_z(lev)
    sc = 1 - (f - a) * H * 2 * h.np.sin(ga) / z / m if ga != 0 else 1
    s = h.real("s", 0.01, 0.99)
    for n, r, zz in (("a", ra, za), ("d", rd, zd), ("o", ro, zo), ("p", z / 2, 0)):
        k = getattr(d, f"r_{n}_curve")
        h.eq(f"radius {n}", [k.radius, getattr(d, "r_" + n)], [r * m * sc] * 2)
        h.eq(f"centre {n}", k.center, ctr + m * sc * zz * ax)
        x = k(s) - ctr - m * sc * zz * ax
        h.eq(f"circle {n}", [h.norm2(x), h.dot(x, ax)], [(r * m * sc) ** 2, 0])
        h.eq(f"full turn {n}", k(0), k(1))


@harness("C13", "limits", modules=M)
def limits(h):
    """tip and root radius, largest radius, cone angle limits"""
    core, crv = h.m("gggears_core"), h.m("curve")
    g, z, ga, m, H, a, c, ax = common(h, ["herringbone", "bevel"], [0, 0.4])
    np = h.np
    if ga != 0:
        h.assume(m * z > 4 * H)
    ra, rd, ro = h.real("ra", 1, 30), h.real("rd", 1, 30), h.real("ro", 1, 30)
    e = h.array([0, 0, 1])

    def gen(lev):
        t = g.gearcore.shape_recipe(lev).transform
        A = lambda r: crv.ArcCurve(radius=r, angle=1)
        return core.GearRefProfile(ra_curve=A(ra), rd_curve=A(rd), ro_curve=A(ro), tooth_curve=None,
                                   tooth_curve_mirror=None, pitch_angle=2 * h.pi / z, transform=t)
    g.gearcore.curve_gen_at_z = gen
    sc = [1 - q * H * 2 * np.sin(ga) / z / m if ga != 0 else 1 for q in (-a, 1 - a)]
    h.eq("tip radius", g.addendum_radius, ra * m * sc[0])
    h.eq("root radius", g.dedendum_radius, rd * m * sc[0])
    h.eq("bottom circles", [g.radii_data_bottom.r_a, g.radii_data_bottom.r_o], [ra * m * sc[0], ro * m * sc[0]])
    h.eq("top circles", [g.radii_data_top.r_a, g.radii_data_top.r_o], [ra * m * sc[1], ro * m * sc[1]])
    h.eq("centre of the bottom circles", g.radii_data_bottom.r_a_curve.center, g.center_point_bottom)
    h.eq("centre of the top circles", g.radii_data_top.r_a_curve.center, g.center_point_top)
    h.true("one set per level", len(g.radii_data_array) == len(g.gearcore.z_vals))
    o = g.max_outside_radius
    for i in (0, 1):
        h.true("largest radius is not exceeded", o >= ra * m * sc[i] - 1e-6 and o >= ro * m * sc[i] - 1e-6)
    h.eq("largest radius occurs", (o - ra * m * sc[0]) * (o - ra * m * sc[1]) * (o - ro * m * sc[0]) * (o - ro * m * sc[1]), 0)


@harness("C13", "cone_limits", modules=M)
def cone_limits(h):
    """the cone angles of the reference circles on the sphere about the apex"""
    core, crv = h.m("gggears_core"), h.m("curve")
    g, z, ga, m, H, a, c, ax = common(h, ["bevel"], None)
    np = h.np
    h.assume(m * z > 4 * H)
    R = z / 2 / np.sin(ga)
    t = [h.angle(n, 0.1, 1.5) for n in ("ta", "td", "to")]

    def gen(lev):
        A = lambda x: crv.ArcCurve(radius=R * np.sin(x), angle=1)
        return core.GearRefProfile(ra_curve=A(t[0]), rd_curve=A(t[1]), ro_curve=A(t[2]), tooth_curve=None,
                                   tooth_curve_mirror=None, pitch_angle=2 * h.pi / z,
                                   transform=g.gearcore.shape_recipe(lev).transform)
    g.gearcore.curve_gen_at_z = gen
    want = [t[2], t[1], ga, t[0]]
    h.eq("bottom", g.cone_angle_limits_bottom, want)
    h.eq("top", g.cone_angle_limits_top, want)
    h.eq("any level", g.cone_angles_at_z(g.p2z(h.real("f", 0.01, 0.99))), want)


@harness("C13", "base_circle", modules=M)
def base_circle(h):
    """base circle of an involute gear at any height"""
    al, ta = pressure(h)
    involute_roots(h, al, ta)
    g, z, ga, m, H, a, c, ax = common(h, ["spur", "ring", "herringbone"], [0.3], pressure_angle=al)
    f = h.real("f", 0, 1)
    k = g.circle_involute_base(f)
    at = h.np.arctan2(h.np.tan(al), 1)
    if g.helix_angle != 0:
        at = h.np.arctan(h.np.tan(al) / h.np.cos(g.helix_angle))
    rb = m * z / 2 * h.np.cos(at)
    h.eq("radius", [k.radius, g.r_base], [rb, rb])
    h.eq("centre", k.center, g.center_point_at_z(g.p2z(f)))
    x = k(h.real("s", 0.01, 0.99)) - k.center
    h.eq("circle", [h.norm2(x), h.dot(x, ax)], [rb * rb, 0])


@harness("C13", "tooth_heights", modules=M)
def tooth_heights(h):
    """tip and root radius of a gear with straight flanks from the tooth height coefficients"""
    w, crv = h.m("gggears_wrapper"), h.m("curve")
    np = h.np
    uniform(h)
    z = h.choice("z", [13, 40])
    m = h.real("m", 0.2, 5)
    x, ha, hd = h.real("x", -0.4, 0.4), h.real("ha", 0.8, 1.3), h.real("hd", 0.8, 1.5)
    ring = h.bool("ring")
    fa, v, wd = h.angle("fa", 0.005, 0.03), h.angle("v", 0.01, 0.03), h.angle("w", 0.01, 0.25)
    fd = fa + v
    h.assume(np.sin(fd) > 0.01, np.cos(fd) > 0.9, np.cos(fd + wd) > 0.7, np.sin(fd + wd) > 0.02)
    e0, e1 = h.real("e0", 0.1, 1), h.real("e1", 0.1, 1)
    ra, rd = z / 2 + ha + x, z / 2 - hd + x
    h.assume(ra * np.cos(v) - rd > ra * np.sin(v))
    A = h.array([rd * np.cos(fa + v), -rd * np.sin(fa + v), 0])
    B = h.array([ra * np.cos(fa), -ra * np.sin(fa), 0])

    class Flank:
        pitch_radius = z / 2

        def __call__(self, z):
            return self

        def __deepcopy__(self, memo):
            return self

        def generate_tooth_curve(self):
            return crv.CurveChain(crv.Curve(lambda t: A + t * (B - A), t0=-e0, t1=1 + e1))
    C = 2 * h.pi
    t1 = (1 + e0) / (1 + e0 + e1)
    h.roots([t1, -fa / C, 0], [e0 / (1 + e0), -(fa + v) / C, 0])
    cls = w.SpurRingGear if ring else w.SpurGear
    g = cls(z, module=m, profile_shift=x, addendum_coefficient=ha, dedendum_coefficient=hd, tip_truncation=0, root_fillet=0)
    g.gearcore.shape_recipe.tooth_generator = Flank()
    g.gearcore.shape_recipe.pitch_angle = 2 * (fd + wd)
    d = g.radii_data_bottom
    h.eq("tip", d.r_a, m * (z / 2 + ha + x))
    h.eq("root", d.r_d, m * (z / 2 - hd + x))
    h.eq("pitch", d.r_p, m * z / 2)
    h.true("rim beyond the teeth", d.r_o > d.r_a if ring else d.r_o < d.r_d)


@harness("C13", "reference_circles", modules=["gggears_core", "gggears_base_classes", "function_generators", "curve", "defs"])
def reference_circles(h):
    """circles of the stated heights above and below the pitch circle, measured along the sphere of the slice"""
    core = bc = h.m("gggears_core")
    np = h.np
    sg = h.choice("cone", [0, 1, -1])
    far = h.choice("ring", [False, True])
    rp = h.real("rp", 3, 30)
    ha, hd = h.real("ha", -1, 2), h.real("hd", -1, 2)
    ho = h.real("ho", 4, 40) if far else h.real("ho", -5, 2.5)
    if far:
        h.assume(ho > rp + 0.01)
    if sg == 0:
        cone = bc.GearPolarTransform(cone_angle=0, base_radius=rp)
    else:
        ga = h.angle("ga", 0.2, 1.3)
        cone = bc.GearPolarTransform(cone_angle=2 * sg * ga, base_radius=rp)
    c = core.generate_reference_circles(rp, core.ToothLimitParam(h_a=ha, h_d=hd, h_o=ho), cone)
    h.eq("pitch circle", c.r_p_curve(0), h.array([rp, 0, 0]))
    if sg == 0:
        h.eq("tip circle", c.r_a_curve(0), h.array([rp + ha, 0, 0]))
        h.eq("root circle", c.r_d_curve(0), h.array([rp - hd, 0, 0]))
        if far:
            p = c.r_o_curve(0)
            h.true("outer circle does not cross the axis", p[0] > 0 and p[0] < 0.1)
        else:
            h.eq("outer circle", c.r_o_curve(0), h.array([rp - ho, 0, 0]))
        return
    R = rp / np.sin(ga)
    for n, q, d in (("tip", c.r_a_curve, ha), ("root", c.r_d_curve, -hd)) + (() if far else (("outer", c.r_o_curve, -ho),)):
        b = ga + d / R
        h.eq(n + " circle", q(0), h.array([R * np.sin(b), 0, sg * R * (np.cos(ga) - np.cos(b))]))
        h.eq(n + " circle's centre", q.center, h.array([0, 0, q(0)[2]]))


@harness("C13", "tooth_path", modules=["gggears_core", "gggears_base_classes", "function_generators", "curve", "defs"])
def tooth_path(h):
    """a gear made along a path: every slice sits on the axis, sized, turned and inclined as the path is there"""
    core = h.m("gggears_core")
    np = h.np
    form = h.choice("form", ["straight", "conical"])
    z = h.int("z", 6, 40)
    k = h.real("k", 0.5, 2)
    lev = h.real("level", 0.1, 0.9)
    if form == "straight":
        p, d = h.vec("p", -5, 5), h.vec("d", -3, 3)
        path = lambda t: p + d * t
        q = path(lev * k)
        r2 = q[0] * q[0] + q[1] * q[1]
        h.assume(r2 > 0.5)
        r = np.sqrt(r2)
        c, s = q[0] / r, q[1] / r
        gam = None
    else:
        # evenly winding around a cone of half angle ga
        r0 = h.real("r0", 3, 20)
        ga = h.angle("ga", -1.2, 1.2)
        v = h.real("v", 0.5, 3)
        w = h.angle("w", 0.1, 0.5)
        on = lambda t: (r0 - v * t * np.sin(ga), v * t * np.cos(ga))
        path = lambda t: h.array([on(t)[0] * np.cos(w), on(t)[0] * np.sin(w), on(t)[1]])
        r, zz = on(lev * k)
        h.assume(r > 0.5)
        c, s = np.cos(w), np.sin(w)
        q = h.array([r * c, r * s, zz])
        gam = ga
    rec = core.gear_recipe_from_curve(core.GearToothParam(z), core.GearToothConicGenerator(), path, lambda t: t * k,
                                      gamma_rounding=0)
    # only the quantities a slice is placed with
    t = rec.transform(lev)
    h.eq("centre", t.center, h.array([0, 0, q[2]]))
    h.eq("size", t.scale * z / 2, r)
    h.eq("turn", [np.cos(t.angle), np.sin(t.angle)], [c, s])
    if gam is not None:
        g = rec.cone(lev).cone_angle / 2
        h.eq("cone angle", [np.cos(g), np.sin(g)], [np.cos(gam), np.sin(gam)], tol=1e-5)
        g = rec.tooth_generator(lev).cone_angle / 2 if callable(rec.tooth_generator) else None
        if g is not None:
            h.eq("cone angle of the tooth", [np.cos(g), np.sin(g)], [np.cos(gam), np.sin(gam)], tol=1e-5)
    h.eq("pitch", rec.pitch_angle(lev) if callable(rec.pitch_angle) else rec.pitch_angle, 2 * h.pi / z)


@harness("C13", "tooth_numbers", modules=M)
def tooth_numbers(h):
    """fractional tooth numbers keep their pitch and are rounded down to the teeth drawn; negative ones turn a gear into a ring"""
    core, w = h.m("gggears_core"), h.m("gggears_wrapper")
    k = h.choice("k", [5, 12])
    cut = h.choice("cut", [0, 2])
    frac = h.choice("whole", [0, 1]) and h.real("frac", 0.02, 0.98)
    neg, inside = h.bool("negative"), h.bool("inside")
    z = k + frac
    p = core.GearToothParam(-z if neg else z, num_cutout_teeth=cut, inside_teeth=inside)
    h.eq("tooth number", p.num_teeth, z)
    h.eq("pitch", p.pitch_angle * z, 2 * h.pi)
    h.eq("teeth drawn", p.num_teeth_act, k - cut)
    h.eq("inside teeth", 1 if p.inside_teeth else 0, 1 if inside != neg else 0)


@harness("C13", "negative_teeth", modules=M)
def negative_teeth(h):
    """a negative tooth number given to a gear makes it a ring gear of that many teeth, or a ring an external gear"""
    w = h.m("gggears_wrapper")
    uniform(h)
    z, m = h.int("z", 12, 60), h.real("m", 0.5, 3)
    kw = dict(inside_teeth=True) if h.bool("inside") else {}
    a = w.InvoluteGear(-z, module=m, **kw)
    b = w.InvoluteGear(z, module=m, inside_teeth=not kw)
    h.eq("ring", 1 if a.inside_teeth else 0, 0 if kw else 1)
    h.eq("sizes", [a.rp, a.pitch_angle, a.number_of_teeth, a.module], [m * z / 2, 2 * h.pi / z, z, m])
    f = lambda g: [g.gearcore.tooth_param.num_teeth, g.gearcore.shape_recipe(0).limits.h_a, g.gearcore.shape_recipe(0).limits.h_d,
                   1 if g.gearcore.tooth_param.inside_teeth else 0]
    h.eq("same as the gear of that kind", f(a), f(b))


@harness("C13", "circle_centres", modules=["gggears_core", "gggears_base_classes", "curve", "defs"])
def circle_centres(h):
    """a set of reference circles is moved as a whole and keeps its radii"""
    bc, crv = h.m("gggears_base_classes"), h.m("curve")
    r = [h.real(f"r{i}", 0.5, 9) for i in range(4)]
    c = bc.GearRefCircles(*[crv.ArcCurve(radius=x, center=h.array([0, 0, 1]) * x, angle=1) for x in r])
    v = h.vec("v", -5, 5)
    h.eq("centre", c.center, h.array([0, 0, 1]) * r[1])
    c.center = v
    h.eq("moved", [q.center for q in (c.r_a_curve, c.r_p_curve, c.r_d_curve, c.r_o_curve)] + [c.center], [v] * 5)
    h.eq("start points", [q(0) for q in (c.r_a_curve, c.r_p_curve, c.r_d_curve, c.r_o_curve)], [v + x * h.array([1, 0, 0]) for x in r])
    h.eq("radii", [c.r_a, c.r_p, c.r_d, c.r_o], r)
