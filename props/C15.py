"""C15 flanks: position, width, crowning, rolling circles, undercut"""
from symgg.harness import harness
from props.gearlib import *
M = ["gggears_wrapper"]


def level(h, m, kw):
    """a height of a crowned gear: z in the gear's own units, and the crowning there in modules"""
    H, za, K, t = h.real("H", 0.5, 10), h.real("anchor", 0, 1), h.real("K", 0, 300), h.real("t", 0, 1)
    kw.update(height=H, z_anchor=za, crowning=K)
    return (t - za) * H / m, (2 * t - 1) * (2 * t - 1) * K / 1000


def pieces(crv, c):
    if isinstance(c, crv.CurveChain):
        return [p for x in c for p in pieces(crv, x)]
    return [c]


def at_pitch(h, label, p, rp, th):
    h.eq(label, p, [rp * h.np.cos(th), -rp * h.np.sin(th), 0])


@harness("C15", "involute_flanks", modules=M)
def involute_flanks(h):
    """flank through the pitch circle at a quarter pitch, widened by profile shift, narrowed by backlash
    and crowning, being the involute of the circle that belongs to the pressure angle"""
    uniform(h)
    crv, w = h.m("curve"), h.m("gggears_wrapper")
    kind = h.choice("kind", ["spur", "ring", "generic"])
    al, ta = pressure(h)
    m = h.real("m", 0.3, 5)
    zt = h.int("z", 6, 80)
    x, b = h.real("x", -0.5, 0.5), h.real("b", 0, 0.1)
    kw = dict(module=m, pressure_angle=al, profile_shift=x, backlash=b, enable_undercut=False)
    z, cr = level(h, m, kw)
    cls = {"spur": w.SpurGear, "ring": w.SpurRingGear, "generic": w.InvoluteGear}[kind]
    th = (h.pi / 2 + 2 * x * ta - 2 * b - 2 * cr) / zt
    h.assume(th > 0.001)
    involute_roots(h, al, ta)
    g = cls(zt, **kw)
    tg = g.gearcore.shape_recipe(z).tooth_generator
    ps = pieces(crv, tg.generate_tooth_curve())
    inv = ps[-1]
    rp = zt / 2
    at_pitch(h, "pitch point", inv.function(ta), rp, th)
    # involute of the base circle: starts on it, pointing outwards
    s = inv.function(0)
    rb = rp * h.np.cos(al)
    h.eq("base point", s, [rb * h.np.cos(th + ta - al), -rb * h.np.sin(th + ta - al), 0])
    h.eq("base radius", g.r_base, m * rb)
    con = ps[0]
    h.eq("extension joins", con(1), s)
    h.eq("extension radial", h.cross(con(0), s), [0, 0, 0])
    h.le("extension inwards", h.norm2(con(0)), h.norm2(s))


@harness("C15", "helical_flanks", modules=M)
def helical_flanks(h):
    """helical gears: the same in the transverse section"""
    uniform(h)
    crv, w = h.m("curve"), h.m("gggears_wrapper")
    ring = h.bool("ring")
    at, tt = pressure(h, "at")
    be = h.angle("be", -0.6, 0.6)
    cb = h.np.cos(be)
    an = h.np.arctan(tt * cb)
    m = h.real("m", 0.3, 5)
    zt = h.int("z", 6, 80)
    x, b = h.real("x", -0.5, 0.5), h.real("b", 0, 0.1)
    kw = dict(module=m, pressure_angle=an, profile_shift=x, backlash=b, enable_undercut=False, helix_angle=be)
    z, cr = level(h, m / cb, kw)
    th = (h.pi / 2 + 2 * x * cb * tt - 2 * b - 2 * cr) / zt
    h.assume(th > 0.001)
    involute_roots(h, at, tt)
    g = (w.HelicalRingGear if ring else w.HelicalGear)(zt, **kw)
    inv = pieces(crv, g.gearcore.shape_recipe(z).tooth_generator.generate_tooth_curve())[-1]
    at_pitch(h, "pitch point", inv.function(tt), zt / 2, th)


@harness("C15", "bevel_flanks", modules=M)
def bevel_flanks(h):
    """bevel gears: octoid flanks through the pitch circle at the tooth angle"""
    uniform(h)
    crv, w, f = h.m("curve"), h.m("gggears_wrapper"), h.m("function_generators")
    al = h.angle("al", 0.2, 0.6)
    ta = h.np.tan(al)
    m = h.real("m", 0.3, 5)
    zt = h.int("z", 6, 80)
    x, b = h.real("x", -0.5, 0.5), h.real("b", 0, 0.1)
    ga = h.angle("ga", 0.1, 1.5)
    kw = dict(module=m, pressure_angle=al, profile_shift=x, backlash=b, cone_angle=2 * ga)
    kw["enable_undercut"] = h.bool("undercut")
    z, cr = level(h, m, kw)
    th = (h.pi / 2 + 2 * x * ta - 2 * b - 2 * cr) / zt
    h.assume(th > 0.001)
    h.roots(otherwise="free")
    if kw["enable_undercut"]:
        h.stub(h.m("gearteeth"), "generate_flat_rack_curve",
               lambda *a, **k: crv.LineCurve(h.array([4, -1, -1]), h.array([5, -1, 1])), "rack: any (see rack_flank_conic)")

        class Found:
            success, x = True, [0.5, 0.5, 0]
        h.stub(crv, "find_curve_intersect", lambda *a, **k: Found, "search of the end of the flank: arbitrary point")
        h.stub(crv, "find_curve_plane_intersect", lambda *a, **k: Found, "search of the end of the flank: arbitrary point")
    g = w.BevelGear(zt, **kw)
    tg = g.gearcore.shape_recipe(z).tooth_generator
    c = pieces(crv, tg.generate_tooth_curve())[-1]
    rp = zt / 2
    at_pitch(h, "pitch point", c.function(0), rp, th)
    t = h.angle("t_roll", -0.5, 0.5)
    h.eq("octoid", c.function(t), f.octoid(t, base_rad=rp, sphere_rad=rp / h.np.sin(ga), alpha=al, angle=-th))


@harness("C15", "cycloid_flanks", modules=M)
def cycloid_flanks(h):
    """cycloid flanks: both pieces start at the same pitch point, traced by rolling circles of the stated ratio"""
    uniform(h)
    crv, w, f = h.m("curve"), h.m("gggears_wrapper"), h.m("function_generators")
    conic = h.bool("conic")
    m = h.real("m", 0.3, 5)
    zt = h.int("z", 8, 60)
    b = h.real("b", 0, 0.1)
    if conic:
        ga, gi, go = h.angle("ga", 0.4, 1.2), h.angle("gi", 0.05, 0.35), h.angle("go", 0.05, 0.35)
        ci, co = h.np.sin(gi) / h.np.sin(ga), h.np.sin(go) / h.np.sin(ga)
        kw = dict(cone_angle=2 * ga)
    else:
        ci, co = h.real("ci", 0.1, 0.6), h.real("co", 0.1, 0.6)
        kw = {}
    kw.update(module=m, backlash=b, inside_cycloid_coefficient=ci, outside_cycloid_coefficient=co)
    z, cr = level(h, m, kw)
    th = (h.pi / 2 - 2 * b - 2 * cr) / zt
    h.assume(th > 0.001)
    h.roots(otherwise="free")
    h.stub(crv, "find_curve_nearest_point", lambda *a, **k: 0.5, "nearest point search: arbitrary start value")
    g = w.CycloidGear(zt, **kw)
    lo, up = pieces(crv, g.gearcore.shape_recipe(z).tooth_generator.generate_tooth_curve())
    rp = zt / 2
    at_pitch(h, "lower pitch point", lo.function(0), rp, th)
    at_pitch(h, "upper pitch point", up.function(0), rp, th)
    t = h.angle("t_roll", 0, 0.4)
    for c, k, s in ((lo, -ci, -1), (up, co, 1)):
        if conic:
            want = f.cycloid_cone(s * t, rb=rp, rc=k * rp, C=h.np.sin(ga) / rp, angle=-th)
        else:
            want = f.cycloid_circle(s * t, rb=rp, rc=k * rp, angle=-th)
        h.eq(f"rolling {s}", c.function(s * t), want)
    h.le("lower piece goes inwards", lo.t_0, 0)
    h.eq("pieces meet", [lo.t_1, up.t_0], [0, 0])


@harness("C15", "adapted_radii", modules=M)
def adapted_radii(h):
    """adapting makes the rolling circles of the contacting flanks equal, keeps the others and the gears' places"""
    uniform(h)
    w = h.m("gggears_wrapper")
    pair = h.choice("pair", ["external", "in ring", "ring on"])
    z1, z2 = h.int("z1", 6, 40), h.int("z2", 6, 40)
    ci = [h.real(f"ci{i}", 0.1, 0.6) for i in (1, 2)]
    co = [h.real(f"co{i}", 0.1, 0.6) for i in (1, 2)]
    m = h.real("m", 0.3, 5)
    g = [w.CycloidGear(z, module=m, inside_cycloid_coefficient=a, outside_cycloid_coefficient=b, inside_teeth=r)
         for z, a, b, r in zip((z1, z2), ci, co, (pair == "ring on", pair == "in ring"))]
    place(h, g[0], "1", "z")
    place(h, g[1], "2", "x")
    x = h.vec("p")
    before = [y.gearcore.transform(x) for y in g]
    g[0].adapt_cycloid_radii(g[1])
    for i in (0, 1):
        h.eq(f"place of gear {i}", g[i].gearcore.transform(x), before[i])
    tg = [y.gearcore.shape_recipe(0).tooth_generator for y in g]
    rin = [t.rc_in_coeff * t.pitch_radius for t in tg]
    rout = [t.rc_out_coeff * t.pitch_radius for t in tg]
    if pair == "external":
        h.eq("kept", rin, [ci[0] * z1 / 2, ci[1] * z2 / 2])
        h.eq("contacting flanks", rout, [rin[1], rin[0]])
    else:
        h.eq("inside equal", rin[0], rin[1])
        h.eq("outside equal", rout[0], rout[1])
        r = 0 if pair == "ring on" else 1
        zr, zp = (z1, z2) if r == 0 else (z2, z1)
        h.eq("pinion keeps its inside", rin[1 - r], ci[1 - r] * zp / 2)
        h.eq("ring keeps its outside", rout[r], co[r] * zr / 2)


@harness("C15", "rack_flank", modules=M)
def rack_flank(h):
    """the generating rack's flank: through the pitch point, inclined by the pressure angle, from root to tip line"""
    gt, b = h.m("gearteeth"), h.m("gggears_base_classes")
    al = h.angle("al", 0.1, 0.7)
    rp, th = h.real("rp", 2, 40), h.real("th", 0.01, 0.4)
    hd, ha = h.real("hd", 0.3, 2), h.real("ha", 0.3, 2)
    lim = b.ToothLimitParam(h_a=ha, h_d=hd)
    f = h.choice("kind", ["involute", "flat"])
    c = (gt.generate_involute_rack_curve if f == "involute" else gt.generate_flat_rack_curve)(
        rp, th, ref_limits=lim, pressure_angle=al, cone_angle=0)
    ta = h.np.tan(al)
    u = h.real("u", 0, 1)
    x = -hd + (ha + hd) * u
    h.eq("point", c(u), [rp + x, -rp * th + x * ta, 0])


@harness("C15", "rack_flank_conic", modules=M)
def rack_flank_conic(h):
    """crown rack of a bevel gear: a plane through the apex inclined by the pressure angle"""
    gt, b = h.m("gearteeth"), h.m("gggears_base_classes")
    al, ga = h.angle("al", 0.1, 0.7), h.angle("ga", 0.1, 1.5)
    rp, th = h.real("rp", 2, 40), h.angle("th", 0.01, 0.4)
    sg = h.np.sin(ga)
    h.known_angles((th * sg, 0, 0.4))
    hd, ha = h.real("hd", 0.3, 2), h.real("ha", 0.3, 2)
    c = gt.generate_flat_rack_curve(rp, th, ref_limits=b.ToothLimitParam(h_a=ha, h_d=hd), pressure_angle=al,
                                    cone_angle=2 * ga)
    R = rp / sg
    ct, st = h.np.cos(th * sg), h.np.sin(th * sg)
    u = h.choice("u", [0, 0.25, 1])
    p = c(u)
    h.eq("on the sphere", h.norm2(p), R * R)
    # plane through the pitch point direction and the direction inclined by alpha to the normal of the pitch plane
    e = h.array([ct, -st, 0])
    q = h.array([st * h.np.sin(al), ct * h.np.sin(al), h.np.cos(al)])
    h.eq("in the flank plane", h.dot(p, h.cross(e, q)), 0)


@harness("C15", "rack_flank_extent", modules=M)
def rack_flank_extent(h):
    """crown rack: the flank reaches from root to tip, measured along the flank"""
    gt, b, crv = h.m("gearteeth"), h.m("gggears_base_classes"), h.m("curve")
    al, ga = h.angle("al", 0.1, 0.7), h.angle("ga", 0.1, 1.5)
    rp, th = h.real("rp", 2, 40), h.angle("th", 0.01, 0.4)
    sg = h.np.sin(ga)
    R = rp / sg
    h.known_angles((th * sg, 0, 0.4))
    f0, f1 = h.angle("f0", 0.01, 0.6), h.angle("f1", 0.01, 0.6)
    hd, ha = f0 * R * h.np.cos(al), f1 * R * h.np.cos(al)
    c = gt.generate_flat_rack_curve(rp, th, ref_limits=b.ToothLimitParam(h_a=ha, h_d=hd), pressure_angle=al,
                                    cone_angle=2 * ga)
    ct, st = h.np.cos(th * sg), h.np.sin(th * sg)
    e = h.array([ct, -st, 0])
    q = h.array([st * h.np.sin(al), ct * h.np.sin(al), h.np.cos(al)])
    for n, u, f in (("root", 0, -f0), ("tip", 1, f1)):
        h.eq(n, c(u), (e * h.np.cos(f) + q * h.np.sin(f)) * R)


@harness("C15", "trochoid", modules=M)
def trochoid(h):
    """the undercut is the path of the rack's corner as the rack rolls on the pitch circle (or pitch cone)"""
    uniform(h)
    gt = h.m("gearteeth")
    h.roots(otherwise="free")
    rp = h.real("rp", 2, 40)
    t = h.angle("t", -0.8, 0.8)
    if h.bool("conic"):
        g = h.angle("ga", 0.1, 1.5)
        cor = h.vec("cor", -3, 3)
        c = gt.generate_undercut_curve(rp, 2 * g, cor)
        sg, cg = h.np.sin(g), h.np.cos(g)
        ph = t * sg
        v = h.rz(-ph) @ cor
        # crown plane tilted onto the pitch cone, apex at the origin of the crown gear
        v = h.array([sg * v[0] + cg * v[2], v[1], -cg * v[0] + sg * v[2] + rp * cg / sg])
        h.eq("rolled corner", c.function(t), h.rz(t) @ v)
    else:
        cor = h.array([h.real("x", 0, 50), h.real("y", -5, 5), 0])
        c = gt.generate_undercut_curve(rp, 0, cor)
        h.eq("rolled corner", c.function(t), h.rz(t) @ (cor - h.array([0, rp * t, 0])))
    # from the corner, as the rack rolls towards the tooth (not across the gap)
    h.eq("from the corner", c.t_0, 0)
    h.le("towards the tooth", c.t_1, 0)


@harness("C15", "undercut_corner", modules=M)
def undercut_corner(h):
    """the corner that cuts is the lowest point of the rack's flank, or the middle of the gap where that comes first"""
    gt, b = h.m("gearteeth"), h.m("gggears_base_classes")
    cls = h.choice("cls", ["InvoluteUndercutTooth", "OctoidUndercutTooth"])
    al = h.angle("al", 0.1, 0.7)
    ta = h.np.tan(al)
    rp, pa, fr = h.real("rp", 2, 40), h.real("pa", 0.05, 0.8), h.real("fr", 0.1, 0.4)
    th = pa * fr
    hd, ha = h.real("hd", 0.3, 2), h.real("ha", 0.3, 2)
    kw = {} if h.bool("default limits") else dict(ref_limits=b.ToothLimitParam(h_a=ha, h_d=hd))
    if not kw:
        hd, ha = h.real("hd_", 1.2, 1.2), h.real("ha_", 1, 1)
    tg = getattr(gt, cls)(pitch_intersect_angle=th, pitch_radius=rp, cone_angle=0, pressure_angle=al, pitch_angle=pa, **kw)
    # where the flank meets the middle of the gap
    gap = rp * pa / 2 - rp * th
    xg = -gap / ta
    h.roots([(hd + xg) / (hd + ha)])
    mid = h.bool("meets the gap middle first")
    h.assume(xg + hd > 0.01 if mid else xg + hd < -0.01)
    p = tg.get_default_undercut_ref_point()
    x = xg if mid else -hd
    h.eq("corner", p, [rp + x, -rp * th + x * ta, 0])
    if cls == "InvoluteUndercutTooth":
        tg.set_default_undercut_ref_point()
        h.eq("kept corner", tg.undercut_ref_point, p)


@harness("C15", "undercut_trim", modules=M)
def undercut_trim(h):
    """flank and undercut are cut at their crossing and joined there, the undercut below and the flank above"""
    gt, crv = h.m("gearteeth"), h.m("curve")
    chain = h.choice("flank", ["chain", "single"])
    a, b = h.vec("a", -0.4, 0.4), h.vec("b", -0.4, 0.4)
    A, B = h.array([4 + a[0], a[1], 0]), h.array([6 + b[0], 1 + b[1], 0])
    s, u = h.real("s", 0.3, 0.7), h.real("u", 0.3, 0.7)
    X = A + (B - A) * s
    C = h.array([4.2, -1 + h.real("cy", -0.3, 0.3), 0])
    D = C + (X - C) / u
    flank = crv.LineCurve(A, B)
    und = crv.LineCurve(C, D)
    if chain == "chain":
        k = h.real("k", 0.1, 0.4)
        ext = crv.LineCurve(A - (B - A) * k, A)
        flank = crv.CurveChain(ext, flank)
        s0 = (k + s) / (1 + k)
    else:
        s0 = s
    h.roots([s0, u, 0], [s0, u])
    out = pieces(crv, gt.trim_involute_undercut(flank, und))
    out = [p for p in out if getattr(p, "active", True)]
    h.eq("starts with the undercut", out[0](0), C)
    h.eq("undercut ends at the crossing", out[0](1), X)
    h.eq("flank starts at the crossing", out[-1](0), X)
    h.eq("flank ends where it ended", out[-1](1), B)


@harness("C15", "undercut_tooth", modules=M)
def undercut_tooth(h):
    """teeth whose root lies below the base circle start with the rack corner's path, others are plain involutes"""
    uniform(h)
    crv, w = h.m("curve"), h.m("gggears_wrapper")
    cut = h.bool("root below base circle")
    al, ta = pressure(h)
    m = h.real("m", 0.3, 5)
    zt = h.int("z", 6, 120)
    x, b = h.real("x", -0.4, 0.4), h.real("b", 0, 0.1)
    hd, ha = h.real("hd", 0.8, 1.5), h.real("ha", 0.8, 1.2)
    th = (h.pi / 2 + 2 * x * ta - 2 * b) / zt
    rp = zt / 2
    h.assume(rp - hd + x < rp * h.np.cos(al) - 0.01 if cut else rp - hd + x > rp * h.np.cos(al) + 0.01)
    # the corner does not reach the middle of the gap
    xg = -(h.pi / 2 - rp * th) / ta
    h.assume(xg < -(hd - x) - 0.01, th > 0.001)
    h.root_bounds((0.05, 0.95))
    # pitch point, tip (free), corner of the rack, undercut and trim (free)
    h.roots(lambda prev: [ta / 2, (ta - al) / (2 * h.pi), 0] if len(prev) == 0 else None,
            lambda prev: [(hd - x + xg) / (hd + ha)] if len(prev) == 2 else None, otherwise="free")
    g = w.SpurGear(zt, module=m, pressure_angle=al, profile_shift=x, backlash=b, enable_undercut=True,
                   dedendum_coefficient=hd, addendum_coefficient=ha)
    ps = pieces(crv, g.gearcore.shape_recipe(0).tooth_generator.generate_tooth_curve())
    at_pitch(h, "pitch point", ps[-1].function(ta), rp, th)
    t = h.angle("t", -0.8, 0.8)
    if cut:
        cor = h.array([rp - (hd - x), -rp * th - (hd - x) * ta, 0])
        h.eq("rolled corner", ps[0].function(t), h.rz(t) @ (cor - h.array([0, rp * t, 0])))
    else:
        s = ps[-1].function(0)
        h.eq("extension joins", ps[0](1), s)
        h.eq("extension radial", h.cross(ps[0](0), s), [0, 0, 0])


@harness("C15", "undercut_decision", standins=True, modules=M)
def undercut_decision(h):
    """octoid teeth are undercut exactly when the rack's corner reaches below the base circle (or base cone)"""
    gt, b = h.m("gearteeth"), h.m("gggears_base_classes")
    al = h.angle("al", 0.15, 0.6)
    conic = h.bool("conic")
    cut = h.bool("below the base")
    rp = h.real("rp", 2, 40)
    ca = h.np.cos(al)
    if conic:
        gb = h.angle("gb", 0.1, 1.3)                      # half angle of the base cone
        h.assume(h.np.sin(gb) < 0.99 * ca)
        ga = h.np.arcsin(h.np.sin(gb) / ca)
        R = rp / (h.np.sin(gb) / ca)
        h.assume(ga > gb)                                 # sin ga = sin gb / ca > sin gb
        hd = (ga - gb) * R * (h.real("above", 1.02, 4) if cut else h.real("under", 0.1, 0.98))
        cone, corner = 2 * ga, h.vec("corner")
    else:
        hd = h.real("hd", 0.3, 2)
        cone = 0
        y, x = h.real("y", -2, 2), h.real("x", 0.5, 40)
        corner = h.array([x, y, 0])
        d, base = x * x + y * y, (rp * ca) * (rp * ca)
        h.assume(d < base - 0.001 if cut else d > base + 0.001)
    tg = type("T", (gt.OctoidUndercutTooth,), {
        "generate_octoid_curve": lambda s: "flank", "check_lower_curve_limit": lambda s, c: ("limited", c),
        "get_default_undercut_ref_point": lambda s: corner})(
        pitch_intersect_angle=0.1, pitch_radius=rp, cone_angle=cone, pressure_angle=al, pitch_angle=0.4,
        ref_limits=b.ToothLimitParam(h_a=1, h_d=hd))
    asked = []
    with patched(gt, generate_undercut_curve=lambda pitch_radius, cone_angle, undercut_ref_point: asked.append(
            (pitch_radius, cone_angle, undercut_ref_point)) or "path",
            trim_involute_undercut=lambda t, u, *a, **k: (t, u)):
        out = tg.generate_tooth_curve()
    h.true("undercut or not", out == ((("limited", "flank"), "path") if cut else ("limited", "flank")))
    if cut and asked:
        h.eq("path of the corner", [asked[0][0], asked[0][1]] + list(asked[0][2]), [rp, cone] + list(corner))


@harness("C15", "conic_root_extension", standins=True, modules=M)
def conic_root_extension(h):
    """octoid flanks start at the root cone, or are extended towards it on the sphere of the slice"""
    gt, b, crv = h.m("gearteeth"), h.m("gggears_base_classes"), h.m("curve")
    uniform(h)
    ga, rp = h.angle("ga", 0.2, 1.3), h.real("rp", 2, 40)
    R = rp / h.np.sin(ga)
    hd = h.real("hd", 0.3, 1.5)
    reach = h.bool("reaches the root")
    s0 = h.real("s0", 0.05, 0.6)
    found = []

    class Sol:
        def __init__(self, ok):
            self.success, self.x = ok, [s0]

    def find(curve, plane_normal=None, offset=None, guess=0, method=None, **k):
        found.append((plane_normal, offset))
        return Sol(reach or len(found) > 1)
    arcs = []

    def arc(cls, p0=None, center=None, angle=None, axis=None, **k):
        c = crv.LineCurve(p0=p0, p1=p0 + h.array([1, 0, 0]))
        arcs.append((p0, center, angle, axis))
        return c
    a, v = h.array([rp, 0, 0]) + h.vec("a", -0.5, 0.5), h.vec("v", 0.1, 1)
    tg = gt.OctoidTooth(pitch_intersect_angle=0.1, pitch_radius=rp, cone_angle=2 * ga, pressure_angle=0.35, pitch_angle=0.4,
                        ref_limits=b.ToothLimitParam(h_a=1, h_d=hd))
    flank = crv.LineCurve(p0=a, p1=a + v)
    with patched(crv, find_curve_plane_intersect=find), patched(crv.ArcCurve, from_point_center_angle=classmethod(arc)):
        out = tg.check_lower_curve_limit(flank)
    h.assume(bool(found))
    apex = h.array([0, 0, R * h.np.cos(ga)])
    ps = pieces(crv, out)
    h.eq("flank starts at the found point", ps[-1](0), a + v * s0)
    h.eq("flank ends where it ended", ps[-1](1), a + v)
    for n, (pn, off) in enumerate(found):
        h.eq(f"search about the apex {n}", off, apex)
    h.true("extended only when needed", len(ps) == (1 if reach else 2))
    if not reach:
        h.eq("extension joins", ps[0](1), a + v * s0)
        h.eq("extension about the apex", arcs[0][1], apex)


@harness("C15", "plain_flank", modules=M)
def plain_flank(h):
    """flanks of the plain generator pass the pitch circle at their angle, inclined by the tooth angle, on the sphere
    of the slice on cones"""
    b = h.m("gggears_base_classes")
    uniform(h)
    kind = h.choice("kind", ["flat", "flat conic", "cone", "inverse cone"])
    f, ta, rp = h.angle("f", 0.01, 0.5), h.angle("ta", -0.6, 0.6), h.real("rp", 0.5, 30)
    c, s = h.np.cos, h.np.sin
    P = rp * h.array([c(f), -s(f), 0])
    if kind.startswith("flat"):
        g = b.GearToothGenerator(f, rp, ta) if kind == "flat" else b.GearToothConicGenerator(f, rp, 0, ta)
        k = g.generate_tooth_curve()
        u = h.array([c(ta - f), s(ta - f), 0])
        h.eq("on the pitch circle", k(0.5), P)
        x = k(h.real("s", 0.01, 0.99)) - P
        h.eq("direction", [x[0] * u[1] - x[1] * u[0], x[2]], [0, 0])
        h.true("outwards", h.dot(k(1) - k(0), u) > 0.001)
    else:
        ga = h.angle("ga", 0.2, 1.3)
        if kind != "cone":
            ga = -ga
        k = b.GearToothConicGenerator(f, rp, 2 * ga, ta).generate_tooth_curve()
        apex = h.array([0, 0, rp * c(ga) / s(ga)])
        h.eq("on the pitch circle", k(0), P)
        x = k(h.real("s", 0.01, 0.99)) - apex
        h.eq("on the sphere", h.norm2(x), (rp / s(ga)) ** 2)
        # plane of the flank: through the apex and the pitch point, turned by the tooth angle about their connection
        e = (apex - P) * s(ga) / rp             # (points up)
        t = h.array([s(f), c(f), 0])            # tangent of the pitch circle
        n = t * c(ta) + h.array([e[1] * t[2] - e[2] * t[1], e[2] * t[0] - e[0] * t[2], e[0] * t[1] - e[1] * t[0]]) * s(ta)
        h.eq("flank plane", h.dot(x, n), 0)


@harness("C15", "plain_root", standins=True, modules=M)
def plain_root(h):
    """flat flanks start on the root circle, or are extended radially inwards to it"""
    b, crv = h.m("gggears_base_classes"), h.m("curve")
    uniform(h)
    f, hd, rp = h.angle("f", 0.05, 0.5), h.real("hd", 0.2, 1), h.real("rp", 4, 30)
    rd = rp - hd
    reach = h.bool("reaches the root")
    s0 = h.real("s0", 0.05, 0.6)
    # the flank, by the point where it is to start
    rs, fs = h.real("rs", 3, 31), h.angle("fs", 0.01, 0.6)
    start, q = h.array([rs * h.np.cos(fs), -rs * h.np.sin(fs), 0]), h.array([rp + 1, 0, 0])
    p = (start - q * s0) / (1 - s0)
    g = b.GearToothGenerator(f, rp, 0, b.ToothLimitParam(h_a=1, h_d=hd))
    found = []

    class Sol:
        def __init__(self, ok):
            self.success, self.x = ok, [s0, 0.5]

    def find(curve1, curve2, *a, **k):
        found.append((curve1, curve2))
        return Sol(reach or len(found) > 1)
    flank = crv.LineCurve(p0=p, p1=q)
    above = h.bool("above")
    h.assume(rs - rd > 0.001 if above else rd - rs > 0.001)
    with patched(crv, find_curve_intersect=find):
        out = g.check_lower_curve_limit(flank)
    h.assume(bool(found))
    for a, k in found:
        h.true("this flank", a is flank)
        x = k(0.25)
        h.eq("root circle", [h.norm2(k(0)), h.norm2(x), x[2]], [rd * rd, rd * rd, 0])
    ps = pieces(crv, out)
    h.eq("flank", [ps[-1](0), ps[-1](1)], [start, q])
    h.true("extended only when needed", (len(ps) == 2) == (not reach and above))
    if len(ps) == 2:
        h.eq("extension joins", ps[0](1), start)
        h.eq("extension is radial", ps[0](0)[0] * start[1] - ps[0](0)[1] * start[0], 0)
        h.eq("extension starts on the root circle", h.norm2(ps[0](0)), rd * rd)


@harness("C15", "plain_root_cone", standins=True, modules=["gggears_base_classes", "curve", "function_generators", "defs"])
def plain_root_cone(h):
    """conical flat flanks start where they meet the plane through apex and root circle"""
    b, crv = h.m("gggears_base_classes"), h.m("curve")
    uniform(h)
    np = h.np
    ga, e = h.angle("ga", 0.2, 1.3), h.angle("hd over R", 0.02, 0.15)
    rp = h.real("rp", 4, 30)
    R = rp / np.sin(ga)
    g = b.GearToothConicGenerator(0.1, rp, 2 * ga, 0, b.ToothLimitParam(h_a=1, h_d=e * R))
    s0 = h.real("s0", 0.05, 0.6)
    p, q = h.vec("p", 1, 3), h.vec("q", 4, 6)
    flank = crv.LineCurve(p0=p, p1=q)
    found = []

    class Sol:
        success, x = True, [s0]

    def find(curve, plane_normal=h.array([0, 0, 1]), offset=h.array([0, 0, 0]), *a, **k):
        found.append((curve, offset, plane_normal))
        return Sol()
    with patched(crv, find_curve_plane_intersect=find):
        out = g.check_lower_curve_limit(flank)
    h.assume(bool(found))
    root = h.array([R * np.sin(ga - e), 0, R * (np.cos(ga) - np.cos(ga - e))])
    for c, off, n in found:
        h.true("this flank", c is flank)
        h.eq("plane through the root circle", h.dot(n, root - off), 0)
        h.eq("plane through the apex", h.dot(n, h.array([0, 0, R * np.cos(ga)]) - off), 0)
        h.eq("plane across the tooth's middle", n[1], 0)
        h.eq("plane normal", h.norm2(n), 1)
    h.eq("trimmed flank", [pieces(crv, out)[-1](0), pieces(crv, out)[-1](1)], [p + s0 * (q - p), q])
