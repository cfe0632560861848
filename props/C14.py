"""C14 operations on one gear or curve leave everything else alone"""
from symgg.harness import harness
from props.gearlib import *
M = ["gggears_wrapper"]
KINDS = ["spur", "ring", "helical", "bevel", "cycloid", "core"]


def make(h, kind, n="", **k):
    w, core = h.m("gggears_wrapper"), h.m("gggears_core")
    z = 12
    if kind == "spur":
        return w.SpurGear(z, **k)
    if kind == "ring":
        return w.SpurRingGear(z, **k)
    if kind == "helical":
        return w.HelicalGear(z, helix_angle=h.angle("beta" + n, 0.1, 0.7), **k)
    if kind == "hring":
        return w.HelicalRingGear(z, helix_angle=h.angle("beta" + n, 0.1, 0.7), **k)
    if kind == "bevel":
        return w.BevelGear(z, cone_angle=2 * h.angle("gamma" + n, 0.2, 1.2), **k)
    if kind == "cycloid":
        return w.CycloidGear(z, **k)
    return core.Gear(tooth_param=core.GearToothParam(z), **k)


def trf(g):
    return getattr(g, "gearcore", g).transform


def state(h, g, levels=(0, 0.7)):
    """everything that defines where and what the gear is"""
    c = getattr(g, "gearcore", g)
    t = c.transform
    out = [t.center, t.orientation, [t.scale, t.angle, c.module], c.z_vals,
           [c.tooth_param.num_teeth, c.tooth_param.num_cutout_teeth]]
    for z in levels:
        r = c.shape_recipe(z)
        out += [[r.pitch_angle, r.cone.cone_angle, r.cone.base_radius, r.limits.h_a, r.limits.h_d, r.limits.h_o,
                 r.fillet.root_fillet, r.fillet.tip_fillet, r.fillet.tip_reduction],
                r.transform.center, r.transform.orientation, [r.transform.scale, r.transform.angle],
                [r.tooth_generator.pitch_radius, r.tooth_generator.pitch_intersect_angle]]
    return [v for part in out for v in h.flat(part)]


def disturb(h, g, how):
    """what users do to move a gear: assign, or change in place"""
    v = h.vec("v")
    t = trf(g)
    if how == "in place":
        t.center += v
        t.orientation[:] = h.orient("ov") @ t.orientation
        t.angle += 1
    elif how == "attribute":
        g.center += v
        t.angle += 1
    else:
        t.center[0] = v[0]
        t.orientation[0, 0] = v[1]


HOW = ["in place", "attribute", "element"]


@harness("C14", "new_gears", modules=M)
def new_gears(h):
    """moving one gear does not move the gears made before or after it, nor the library's constants"""
    uniform(h)
    kind = h.choice("kind", KINDS)
    d = h.m("defs")
    a, b = make(h, kind), make(h, kind, "b")
    if kind in ("spur", "ring", "helical", "bevel") and h.bool("reset first"):
        a.reset_location()
    s0 = state(h, b)
    disturb(h, a, h.choice("how", HOW))
    h.eq("earlier gear", state(h, b), s0)
    c = make(h, kind, "b")
    h.eq("later gear", state(h, c), s0)
    h.eq("constants", [d.ORIGIN, d.RIGHT, d.UP, d.OUT], [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]])
    h.eq("unit matrix", d.UNIT3X3, [[1, 0, 0], [0, 1, 0], [0, 0, 1]])


@harness("C14", "own_center", modules=M)
def own_center(h):
    """a gear keeps its own copy of the centre it is given, and is put back there by reset"""
    uniform(h)
    kind = h.choice("kind", ["spur", "ring", "helical", "bevel"])
    c = h.vec("c")
    keep = c.copy()
    ang = h.angle("ang", -1, 1)
    a = make(h, kind, center=c, angle=ang)
    b = make(h, kind, "b", center=c)
    disturb(h, a, h.choice("how", HOW))
    h.eq("argument", c, keep)
    h.eq("other gear with the same argument", b.center, keep)
    a.reset_location()
    t = trf(a)
    h.eq("original centre", t.center, keep)
    h.eq("original angle", t.angle, ang)
    h.eq("original orientation", t.orientation, [[1, 0, 0], [0, 1, 0], [0, 0, 1]])


def same(h, label, a, b):
    """equal; the values themselves depend on where the root finder of the pressure angle stops"""
    h.eq(label, [x - y for x, y in zip(a, b)], [0] * len(a))


def partner(h, kind):
    w = h.m("gggears_wrapper")
    if kind == "ring":
        a, b = w.SpurGear(12), w.SpurRingGear(30)
    elif kind == "helical":
        be = h.angle("beta", 0.1, 0.7)
        a, b = w.HelicalGear(12, helix_angle=be), w.HelicalGear(13, helix_angle=-be)
    elif kind == "bevel":
        a, b = w.BevelGear(12, cone_angle=h.pi / 2), w.BevelGear(14, cone_angle=h.pi / 2)
    else:
        a, b = make(h, kind), make(h, kind, "b")
    for g in (a, b):
        # base circle: any fixed values do here
        if isinstance(g, w.InvoluteGear):
            g.__class__ = type("G", (type(g),), {"r_base": property(lambda s: s.pitch_radius * 0.9375),
                                                 "angle_base": property(lambda s: -1 / s.number_of_teeth)})
    return a, b


@harness("C14", "meshing", modules=M)
def meshing(h):
    """meshing moves only the gear it is called on; moving that gear later leaves the partner alone"""
    uniform(h)
    h.root_bounds((0.05, 0.95))
    h.roots(otherwise="free")
    kind, how = h.choice("kind", KINDS), h.choice("how", HOW)
    a, b = partner(h, kind)
    tau = h.angle("tau", -3, 3)
    t = h.array([h.np.cos(tau), h.np.sin(tau), 0])
    t0 = t.copy()
    trf(b).center = h.vec("cb")
    s0, sa = state(h, b, [0.7]), state(h, a, [0.7])[16:]
    a.mesh_to(b, target_dir=t)
    h.eq("direction argument", t, t0)
    same(h, "partner after meshing", state(h, b, [0.7]), s0)
    same(h, "own shape after meshing", state(h, a, [0.7])[16:], sa)
    disturb(h, a, how)
    same(h, "partner after moving", state(h, b, [0.7]), s0)
    p = state(h, a, [0.7])
    disturb(h, b, "in place")
    same(h, "gear after moving the partner", state(h, a, [0.7]), p)


@harness("C14", "copies", modules=M)
def copies(h):
    """a copy is equal and independent, in both directions, also after the original is recomputed"""
    uniform(h)
    kind = h.choice("kind", KINDS)
    kw = dict(crowning=h.real("crown", 0, 200), height=h.real("H", 1, 5)) if kind != "core" else {}
    a = make(h, kind, **kw)
    trf(a).center = h.vec("ca")
    s0 = state(h, a)
    b = a.copy()
    h.eq("equal", state(h, b), s0)
    disturb(h, b, h.choice("how", HOW))
    h.eq("original after moving the copy", state(h, a), s0)
    c = a.copy()
    if kind != "core":
        a.inputparam.crowning = h.real("crown2", 0, 200)
        a.inputparam.height = h.real("H2", 1, 5)
        a.inputparam.number_of_teeth = 15
        a.calc_params()
    else:
        a.shape_recipe.transform.scale = lambda z: 3
        a.tooth_param.num_teeth = 15
        a.z_vals[0] = -4
    disturb(h, a, "in place")
    h.eq("copy after changing the original", state(h, c), s0)


CURVES = ["line", "arc", "involute", "spherical involute", "octoid", "cycloid", "conic cycloid",
          "moved", "mirrored", "rotated", "chain"]


def make_curve(h, kind, ang):
    crv = h.m("curve")
    r = h.real("r", 1, 3)
    if kind == "line":
        return crv.LineCurve(h.vec("p"), h.vec("q"))
    if kind == "arc":
        return crv.ArcCurve(radius=r, angle=ang, center=h.vec("p"))
    if kind == "involute":
        return crv.InvoluteCurve(r=r, angle=ang)
    if kind == "spherical involute":
        return crv.SphericalInvoluteCurve(r=r, angle=ang, c_sphere=0.25)
    if kind == "octoid":
        return crv.OctoidCurve(r=r, angle=ang, c_sphere=0.25)
    if kind == "cycloid":
        return crv.CycloidCurve(rb=r, rc=0.5, angle=ang)
    if kind == "conic cycloid":
        return crv.CycloidConicCurve(rb=r, rc=0.5, C=0.25, angle=ang)
    u, v = h.vec("u"), h.vec("w")
    base = crv.Curve(lambda t: u + v * t)
    if kind == "moved":
        return crv.TransformedCurve(h.m("gggears_base_classes").GearTransform(center=h.vec("p"), angle=ang), base)
    if kind == "mirrored":
        return crv.MirroredCurve(base, plane_normal=h.m("defs").UP, center=h.vec("p"))
    if kind == "rotated":
        return crv.RotatedCurve(base, angle=ang, center=h.vec("p"))
    return crv.CurveChain(base, crv.LineCurve(h.vec("p"), h.vec("q")))


def curve_state(h, c):
    if type(c).__name__ == "CurveChain":
        return [v for x in c.curves for v in curve_state(h, x)]
    return h.flat(c.function(0.3)) + [c.t_0, c.t_1, c.length]


def change_curve(h, c, kind, n):
    """an edit of the shape in place and a trim"""
    p = h.vec("n" + n)
    if kind == "line":
        c.p0 = p
    elif kind == "mirrored":
        c.center += p
    elif kind == "arc":
        c.center[:] = p
        c.rotmat = h.rx(1) @ c.rotmat
    elif kind == "chain":
        c[1].p0[:] = p
        c.reverse()
        return
    elif kind == "moved":
        c.transform_method.center += p
        c.transform_method.angle = c.transform_method.angle + 1
        c.target_curve.reverse()
    elif kind == "rotated":
        c.angle = c.angle + 1
        c.center += p
        c.target_curve.set_end_on(0.5)
    else:
        c.angle = c.angle + 1
    c.set_end_on(h.real("e" + n, 0.2, 0.8))


@harness("C14", "curve_copies", modules=["curve"])
def curve_copies(h):
    """a copied curve is the same curve, and from then on the two can be edited separately"""
    uniform(h)
    kind = h.choice("kind", CURVES)
    ang = h.angle("ang", 0.1, 1)
    c = make_curve(h, kind, ang)
    s0 = curve_state(h, c)
    d = c.copy()
    same(h, "equal", curve_state(h, d), s0)
    change_curve(h, d, kind, "1")
    same(h, "original after editing the copy", curve_state(h, c), s0)
    e = c.copy()
    change_curve(h, c, kind, "1")
    same(h, "copy after editing the original", curve_state(h, e), s0)
    same(h, "edits act on the edited curve alike", curve_state(h, c), curve_state(h, d))


def ask(h, g, z, kind):
    """what a user can ask a gear"""
    c = getattr(g, "gearcore", g)
    out = [[c.rp, c.pitch_angle], c.center]
    if kind == "bevel":
        cd = g.cone_data
        out += [c.cone_at_z(z).center, [c.cone_at_z(z).R], c.sphere_data_at_z(z)[0], c.center_sphere, [c.R],
                [cd.R, cd.cone_angle, g.radius_spherical], cd.center, g.center_spherical]
    if kind == "core":
        return [v for p in out for v in h.flat(p)]
    out += [g.center_transform_at_z(z).center, g.center_transform_at_z(z).orientation,
            g.center_point_bottom, g.center_point_middle, g.center_point_top,
            [g.pitch_radius, g.module, g.pitch_angle]]
    return [v for p in out for v in h.flat(p)]


@harness("C14", "asking", modules=M)
def asking(h):
    """asking a gear about itself changes nothing, and neither does editing the answer"""
    uniform(h)
    kind = h.choice("kind", KINDS)
    a = make(h, kind)
    t = trf(a)
    t.center, t.angle, t.orientation = h.vec("c"), h.angle("ang", -1, 1), h.orient("o", "zx")
    z = h.real("z", -1, 2)
    s0 = state(h, a)
    first = ask(h, a, z, kind)
    same(h, "gear unchanged by questions", state(h, a), s0)
    same(h, "same question, same answer", ask(h, a, z, kind), first)
    c = getattr(a, "gearcore", a)
    if kind == "bevel":
        sd = c.sphere_data_at_z(z)[0]
        sd += 1
    cz = c.cone_at_z(z)
    cz.transform.center += 1
    cz.base_radius = 7
    rz = c.shape_recipe(z)
    rz.transform.center += 1
    rz.limits.h_a = 7
    rz.tooth_generator.pitch_radius = 77
    if kind != "core":
        p = a.center_point_top
        p += 1
        tz = a.center_transform_at_z(z)
        tz.center += 1
        tz.orientation[:] = 0
    same(h, "gear unchanged by editing answers", state(h, a), s0)
    same(h, "answers unchanged by editing answers", ask(h, a, z, kind), first)


@harness("C14", "building", modules=["gggears_build123d", "gggears_wrapper"])
def building(h):
    """building a part leaves the gear as it was, also when the build fails half way"""
    uniform(h)
    kind = h.choice("kind", ["spur", "helical", "bevel"])
    where = h.choice("fails at", ["stacks", "nurbs", "faces"])
    b = h.m("gggears_build123d")

    class Stop(Exception):
        pass

    def stop(*a, **k):
        raise Stop()
    d = {"generate_surface_points_sides": lambda s: [], "generate_nurbs": lambda s: [[None]],
         "generate_gear_stacks": lambda s: [[None]], "gen_side_surfaces": stop, "generate_cover": stop}
    if where != "faces":
        d["generate_gear_stacks" if where == "stacks" else "generate_nurbs"] = stop
    a = make(h, kind, height=h.real("H", 0.5, 5))
    trf(a).center = h.vec("c")
    zv = a.gearcore.z_vals
    s0 = state(h, a)
    try:
        type("B", (b.GearBuilder,), d)(a.gearcore, side_surface_extension_ratio=h.real("ext", 0, 0.1))
        h.true("stopped", False)
    except Stop:
        pass
    same(h, "gear unchanged by building", state(h, a), s0)


@harness("C14", "drawing", modules=["gggears_build123d", "gggears_core"])
def drawing(h):
    """drawing the outline of a gear leaves the placement it is drawn in alone"""
    uniform(h)
    b, core, crv = h.m("gggears_build123d"), h.m("gggears_core"), h.m("curve")
    L = lambda *n: crv.LineCurve(*[h.array(x) for x in n])
    P = [[4, -2, 0], [4, -1, 0], [5, -0.5, 0], [5, 0.5, 0], [4, 1, 0]]
    q = h.real("q", 4.5, 5.5)
    P[2][0] = P[3][0] = q
    prof = core.GearRefProfile(ra_curve=L(P[2], P[3]), rd_curve=L(P[0], P[1]), ro_curve=L(P[0], P[1]),
                               tooth_curve=crv.CurveChain(L(P[1], P[2])), tooth_curve_mirror=crv.CurveChain(L(P[3], P[4])),
                               pitch_angle=h.pi / 2, transform=core.GearTransform(center=h.vec("s")))
    t = core.GearTransform(center=h.vec("c"), angle=h.angle("ang", -1, 1), scale=h.real("m", 0.5, 3))
    st = lambda: h.flat(t.center) + h.flat(t.orientation) + [t.angle, t.scale] + h.flat(prof.transform.center) + \
        h.flat(prof.tooth_curve.curves[0].p0) + h.flat(prof.ra_curve(1))
    s0 = st()
    b.generate_boundary_edges(prof, t)
    same(h, "placement and profile", st(), s0)


@harness("C14", "parts", modules=M)
def parts(h):
    """gears made from, or given, the same parts do not change the parts or each other"""
    uniform(h)
    core, bc, gt = h.m("gggears_core"), h.m("gggears_base_classes"), h.m("gearteeth")
    z1, z2 = h.int("z1", 8, 30), h.int("z2", 31, 60)
    tg = gt.InvoluteTooth(pitch_radius=h.real("rp", 1, 2), pitch_intersect_angle=h.real("pia", 0.1, 0.2),
                          cone_angle=0, pressure_angle=h.angle("al", 0.2, 0.5))
    tg0 = lambda: [tg.pitch_radius, tg.pitch_intersect_angle, tg.cone_angle, tg.pressure_angle]
    t0 = tg0()
    levels = [0]

    def full(g):
        r = g.shape_recipe(0).tooth_generator
        return state(h, g, levels) + [g.tooth_generator.pitch_radius, getattr(r, "pressure_angle", 0)]
    how = h.choice("how", ["given", "made", "placed", "recipe", "limits", "levels"])
    if how == "levels":
        zs = h.array([h.real("lo", -3, 0), h.real("hi", 1, 3)])
        s = h.array(list(zs))
        a, b = core.Gear(z_vals=zs, tooth_param=core.GearToothParam(z1)), core.Gear(z_vals=zs, tooth_param=core.GearToothParam(z1))
        a.z_vals += 1
        h.eq("moved levels", a.z_vals, s + 1)
        h.eq("levels of the other gear and argument", [b.z_vals, zs], [s, s])
        zs[0] = -77
        h.eq("gear after editing the argument", [a.z_vals, b.z_vals], [s + 1, s])
        return
    if how == "limits":
        lim = core.ToothLimitParam(h_a=h.real("ha", 0.5, 1.5), h_d=h.real("hd", 0.5, 1.5), h_o=2)
        l0 = [lim.h_a, lim.h_d]
        tg = gt.InvoluteUndercutTooth(ref_limits=lim)
        by = h.choice("by", ["swapped", "made", "copied"])
        a = core.Gear(tooth_param=core.GearToothParam(z1), **(dict(tooth_generator=tg) if by != "swapped" else {}))
        if by == "swapped":
            a.swap_tooth_generator(tg)
        if by == "copied":
            a = a.copy()
        own = lambda: a.shape_recipe(0).tooth_generator.ref_limits
        h.eq("limits of the gear", [own().h_a, own().h_d], l0)
        lim.h_d = lim.h_d + 1
        h.eq("limits of the gear after editing the argument", [own().h_a, own().h_d], l0)
        own().h_a = 7
        h.eq("argument after editing the gear", [lim.h_a, lim.h_d], [l0[0], l0[1] + 1])
        return
    if how in ("given", "made"):
        kw = dict(tooth_generator=tg) if how == "made" else {}
        a = core.Gear(tooth_param=core.GearToothParam(z1), **kw)
        b0 = core.Gear(tooth_param=core.GearToothParam(z2)) if how == "given" else None
        if how == "given":
            a.swap_tooth_generator(tg)
        h.eq("generator argument", tg0(), t0)
        h.eq("gear uses the generator", a.shape_recipe(0).tooth_generator.pressure_angle, tg.pressure_angle)
        h.eq("in its own size", [a.shape_recipe(0).tooth_generator.pitch_radius], [z1 / 2])
        s = full(a)
        if how == "given":
            b0.swap_tooth_generator(tg)
        else:
            core.Gear(tooth_param=core.GearToothParam(z2), tooth_generator=tg)
        same(h, "first gear", full(a), s)
        tg.pressure_angle = 0.3
        tg.pitch_radius = 77
        same(h, "first gear after editing the generator", full(a), s)
    elif how == "placed":
        c = h.vec("c")
        t = bc.GearTransform(center=c, angle=h.angle("ang", -1, 1), scale=1)
        p = core.GearToothParam(z1)
        cone = bc.ConicData(cone_angle=2 * h.angle("gamma", 0.2, 1), base_radius=h.real("br", 1, 2))
        arg = lambda: h.flat(t.center) + h.flat(t.orientation) + [t.angle, p.num_teeth, cone.base_radius, cone.cone_angle]
        a0 = arg()
        a = core.Gear(tooth_param=p, transform=t, cone=cone)
        b = core.Gear(tooth_param=p, transform=t, cone=cone)
        h.eq("arguments after making", arg(), a0)
        s = full(b)
        disturb(h, a, h.choice("disturb", HOW))
        a.tooth_param.num_teeth = 77
        h.eq("arguments", arg(), a0)
        same(h, "other gear", full(b), s)
    else:
        a = core.Gear(tooth_param=core.GearToothParam(z1))
        b = core.Gear(tooth_param=core.GearToothParam(z1), shape_recipe=a.shape_recipe)
        s = full(a)
        b.swap_tooth_generator(tg)
        b.shape_recipe.transform.scale = 3
        same(h, "other gear", full(a), s)


@harness("C14", "reference_lines", modules=["curve", "gggears_base_classes", "gggears_core", "defs"])
def reference_lines(h):
    """moving one set of rack reference lines moves these lines only, not others made before or after, nor constants"""
    core, b, d = h.m("gggears_core"), h.m("gggears_base_classes"), h.m("defs")
    mk = lambda: core.generate_reference_lines(b.ToothLimitParam(h_a=h.real("ha", 0.5, 2), h_d=h.real("hd", 0.5, 2), h_o=h.real("ho", 1, 3)))
    names = ["a_line", "p_line", "d_line", "o_line"]
    ends = lambda l: [getattr(l, n)(t) for n in names for t in (0, 1)]
    first, lines = mk(), mk()
    old, c0 = ends(lines), lines.center
    v = h.vec("v", -5, 5)
    lines.center = v
    h.eq("moved", ends(lines), [p + v - c0 for p in old])
    h.eq("centre", lines.center, v)
    h.eq("others", ends(first) + ends(mk()), old + old)
    h.eq("constants", [d.ORIGIN, d.RIGHT, d.UP, d.OUT, d.LEFT, d.DOWN],
         [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0]])


@harness("C14", "racks", modules=["gggears_wrapper"])
def racks(h):
    """moving one rack in place moves neither other racks nor the points they were made from nor constants"""
    w, d = h.m("gggears_wrapper"), h.m("defs")
    default = h.bool("default place")
    helical = h.bool("helical")
    p = d.ORIGIN if default else h.vec("p", -5, 5)
    p0 = h.array(list(p))
    mk = lambda: (w.HelicalRack if helical else w.InvoluteRack)(number_of_teeth=3, module=h.real("m", 0.5, 2), **({} if default else dict(position=p)))
    a, b = mk(), mk()
    st = lambda r: h.flat(r.position) + h.flat(r.orientation) + [r.offset, r.module, r.number_of_teeth]
    s = st(b)
    v = h.vec("v", -5, 5)
    a.position += v
    a.orientation *= 2
    a.offset = 0.25
    h.eq("moved", a.position, p0 + v)
    h.eq("other rack", st(b), s)
    h.eq("new rack", st(mk()), s)
    h.eq("argument", p, p0)
    h.eq("constants", [d.ORIGIN, d.RIGHT, d.UP, d.OUT] + list(d.UNIT3X3), [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 0, 0], [0, 1, 0], [0, 0, 1]])


@harness("C14", "curve_arguments", modules=["curve", "defs"])
def curve_arguments(h):
    """shifting a line or an arc in place moves that curve only: not the points it was made from, nor constants"""
    crv, d = h.m("curve"), h.m("defs")
    default = h.bool("default arguments")
    v = h.vec("v", -5, 5)
    p, q = (d.ORIGIN, d.RIGHT) if default else (h.vec("p", -5, 5), h.vec("q", -5, 5))
    p0, q0 = h.array(list(p)), h.array(list(q))
    if h.bool("arc"):
        a, b = (crv.ArcCurve(radius=2), crv.ArcCurve(radius=2)) if default else (
            crv.ArcCurve(radius=2, center=p), crv.ArcCurve(radius=2, center=p))
        s = b(0.5)
        a.center += v
        h.eq("moved", a(0.5), s + v)
    else:
        a, b = crv.LineCurve(p, q), crv.LineCurve(p, q)
        s = b(0.5)
        a.p0 += v
        a.p1 += v
        h.eq("moved", a(0.5), s + v)
    h.eq("other curve", b(0.5), s)
    h.eq("arguments", [p, q], [p0, q0])
    h.eq("constants", [d.ORIGIN, d.RIGHT, d.UP, d.OUT], [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]])
