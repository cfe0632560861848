"""C18 what is handed to build123d is the computed geometry, in the gear's place"""
from symgg.harness import harness
from props.gearlib import *
M = ["gggears_build123d", "gggears_wrapper"]


def tup(v):
    return [c for c in v]


def frame(h, b, loc):
    """origin and axes of a build123d location"""
    p = b.bd.Plane(loc)
    return tup(p.origin), [tup(p.x_dir), tup(p.y_dir), tup(p.z_dir)]


def cols(m):
    return [[m[i, j] for i in range(3)] for j in range(3)]


def transform(h, n="", axes="zx"):
    core = h.m("gggears_core")
    return core.GearTransform(center=h.vec("c" + n), orientation=h.orient("o" + n, axes),
                              angle=h.angle("a" + n, -3, 3), scale=h.real("k" + n, 0.3, 4))


@harness("C18", "location", modules=M)
def location(h):
    """the build123d location of a placement: its centre, and its orientation turned by its spin"""
    b = h.m("gggears_build123d")
    t = transform(h)
    o, ax = frame(h, b, b.transform2Location(t))
    h.eq("origin", o, t.center)
    h.eq("axes", ax, cols(t.orientation @ h.rz(t.angle)))


@harness("C18", "part_placement", modules=M)
def part_placement(h):
    """placing a part maps each of its points as the placement maps points"""
    b, crv = h.m("gggears_build123d"), h.m("curve")
    t = transform(h)
    p, q = h.vec("p"), h.vec("q")
    h.assume(p[0] - q[0] > 0.5)
    e = b.apply_transform_part(b.line_to_b123d(crv.LineCurve(p, q)), t)
    for u in (0, 0.25, 1):
        h.eq(f"point {u}", tup(e @ u), t(p + (q - p) * u))


def edge_is(h, label, e, c, us=(0, 0.25, 0.5, 1)):
    """the edge runs along the curve, in either direction"""
    back = h.pick(tup(e @ 0), [c(0), c(1)])
    for u in us:
        h.eq(f"{label} {u}", tup(e @ u), c(1 - u) if back else c(u))


@harness("C18", "lines", modules=M)
def lines(h):
    """a line edge ends where the line ends, trimmed, extended or reversed"""
    b, crv = h.m("gggears_build123d"), h.m("curve")
    p, q = h.vec("p"), h.vec("q")
    h.assume(q[0] - p[0] > 0.5)
    c = crv.LineCurve(p, q)
    how = h.choice("how", ["whole", "trimmed", "reversed"])
    if how != "whole":
        c.set_start_and_end_on(h.real("s0", -0.3, 0.3), h.real("s1", 0.6, 1.4))
    if how == "reversed":
        c.reverse()
    e = b.line_to_b123d(c)
    for u in (0, 0.5, 1):
        h.eq(f"at {u}", tup(e @ u), c(u))


@harness("C18", "arcs", modules=M)
def arcs(h):
    """an arc edge covers the arc, of any extent, turned either way, trimmed, extended or reversed"""
    b, crv = h.m("gggears_build123d"), h.m("curve")
    sg = h.choice("sense", [1, -1])
    ang = h.angle("ang", 0.3, 5) * sg
    c = crv.ArcCurve(radius=h.real("r", 0.5, 5), angle=ang, center=h.vec("c"), yaw=h.angle("y", -3, 3),
                     pitch=h.angle("p", -1, 1), roll=h.angle("q", -3, 3))
    how = h.choice("how", ["whole", "trimmed", "reversed"])
    if how != "whole":
        c.set_start_and_end_on(*h.choice("part", [(0.25, 1), (0, 0.5), (-0.125, 1.125)]))
    if how == "reversed":
        c.reverse()
    edge_is(h, "at", b.arc_to_b123d(c), c)


def nurb(h, crv, n, k=3):
    pts = h.array([h.vec(f"{n}{i}", -3, 3) for i in range(k)])
    w = h.array([h.real(f"w{n}{i}", 0.5, 2) for i in range(k)])
    return crv.NurbCurve(pts, w)


def wrap(e):
    return list(e) if isinstance(e, (list, tuple)) else [e]


def natural(h, e, u):
    """point at the edge's own parameter (build123d's @ goes by length)"""
    if h.symbolic():
        return tup(e @ u)
    a = e.geom_adaptor()
    p = a.Value(a.FirstParameter() + u * (a.LastParameter() - a.FirstParameter()))
    return [p.X(), p.Y(), p.Z()]


def flat_edges(e):
    return [x for y in wrap(e) for x in (flat_edges(y) if isinstance(y, (list, tuple)) else [y])]


@harness("C18", "splines", modules=M)
def splines(h):
    """bezier edges are the rational curves, one edge per active segment, in order"""
    uniform(h)
    b, crv = h.m("gggears_build123d"), h.m("curve")
    how = h.choice("how", ["single", "nurbs", "chain", "with inactive", "to edges", "nurbs to edges"])
    c1, c2 = nurb(h, crv, "p", 3), nurb(h, crv, "q", 2)
    cs = [c1, c2]
    if how == "single":
        out, cs = b.gen_splines(c1), [c1]
    elif how == "nurbs":
        out = b.gen_splines(crv.NURBSCurve(c1, c2))
    elif how == "chain":
        out = b.gen_splines(crv.CurveChain(c1, c2))
    elif how == "with inactive":
        mid = nurb(h, crv, "r", 2)
        mid.active = False
        out = b.gen_splines(crv.CurveChain(c1, mid, c2))
    elif how == "to edges":
        out, cs = b.curve_to_edges(c1), [c1]
    else:
        out = b.curve_to_edges(crv.NURBSCurve(c1, c2))
    out = flat_edges(out)
    h.true("one edge per segment", len(out) == len(cs))
    for i, (e, c) in enumerate(zip(out, cs)):
        for u in (0, 0.25, 1):
            h.eq(f"segment {i} at {u}", natural(h, e, u), c.function(u))


@harness("C18", "moved_curves", modules=M)
def moved_curves(h):
    """edges of a moved curve are the moved curve; the curve itself stays in place"""
    uniform(h)
    b, crv = h.m("gggears_build123d"), h.m("curve")
    t = transform(h, "t", "z")
    kind = h.choice("kind", ["line", "nurb", "rotated", "chain", "line in chain"])
    p, q = h.vec("p", -3, 3), h.vec("q", -3, 3)
    h.assume(q[0] - p[0] > 0.5)
    line = crv.LineCurve(p, q)
    nb = nurb(h, crv, "n", 3)
    if kind == "line":
        src, c, us = line, crv.TransformedCurve(t, line), (0, 0.5, 1)
    elif kind == "nurb":
        src, c, us = nb, crv.TransformedCurve(t, nb), (0, 0.25, 1)
    elif kind == "rotated":
        src, c, us = line, crv.RotatedCurve(line, angle=h.angle("rot", -3, 3), center=h.vec("rc")), (0, 0.5, 1)
    elif kind == "chain":
        src = crv.CurveChain(line, nb)
        c, us = crv.TransformedCurve(t, src), (0, 0.25, 1)
    else:
        src, us = line, (0, 0.5, 1)
        c = crv.CurveChain(crv.TransformedCurve(t, line))
    s0 = h.flat(nb.points) + h.flat(line.p0) + h.flat(line.p1)
    out = flat_edges(b.curve_to_edges(c))
    h.eq("source unchanged", h.flat(nb.points) + h.flat(line.p0) + h.flat(line.p1), s0)
    parts = {"chain": [line, nb]}.get(kind, [src])
    h.true("one edge per segment", len(out) == len(parts))
    f = c.transform_method if kind != "line in chain" else t
    for i, (e, x) in enumerate(zip(out, parts)):
        for u in us:
            h.eq(f"segment {i} at {u}", natural(h, e, u), f(x.function(u)))


def toothed_profile(h, n=4):
    """one pitch of straight pieces"""
    core, crv = h.m("gggears_core"), h.m("curve")
    L = lambda *x: crv.LineCurve(*[h.array(y) for y in x])
    q = h.real("q", 4.5, 5.5)
    P = [[4, -2, 0], [4, -1, 0], [q, -0.5, 0], [q, 0.5, 0], [4, 1, 0]]
    return core.GearRefProfile(
        ra_curve=L(P[2], P[3]), rd_curve=L(P[0], P[1]), ro_curve=L(P[0], P[1]),
        tooth_curve=crv.CurveChain(L(P[1], P[2])), tooth_curve_mirror=crv.CurveChain(L(P[3], P[4])),
        pitch_angle=2 * h.pi / n,
        transform=core.GearTransform(center=h.vec("s"), angle=h.angle("sa", -1, 1), scale=h.real("sk", 0.5, 2))), P


@harness("C18", "boundary_edges", modules=M)
def boundary_edges(h):
    """the wire of a gear slice is the tooth outline repeated at every pitch, in the slice's and gear's place"""
    uniform(h)
    b = h.m("gggears_build123d")
    h.stub(h.m("curve").NURBSCurve, "enforce_continuity", lambda self: self, "joining of adjacent ends")
    prof, P = toothed_profile(h)
    t = transform(h, "g", "z") if h.bool("placed") else None
    rng = h.choice("range", [2, 0.75])
    out = flat_edges(b.generate_boundary_edges(prof, t) if rng == 2 else
                     b.generate_boundary_edges(prof, t, h.pi * 2 * 0.75))
    n = 4 if rng == 2 else 3
    h.true("number of edges", len(out) == 4 * n)
    for i in range(n):
        for j in (1, 2):
            a = prof.transform(h.array(P[j]))
            a = h.rz(h.pi / 2 * i) @ a
            a = a if t is None else t(a)
            h.eq(f"tooth {i} corner {j}", tup(out[4 * i + j] @ 0), a)
            e = h.rz(h.pi / 2 * i) @ prof.transform(h.array(P[j + 1]))
            h.eq(f"tooth {i} end {j}", tup(out[4 * i + j] @ 1), e if t is None else t(e))


@harness("C18", "every_tooth_drawn", modules=M)
def every_tooth_drawn(h):
    """no tooth is lost or doubled by the rounding of the pitch"""
    uniform(h)
    b = h.m("gggears_build123d")
    h.stub(h.m("curve").NURBSCurve, "enforce_continuity", lambda self: self, "joining of adjacent ends")
    n = h.choice("teeth", [3, 5, 7])
    prof, P = toothed_profile(h, n)
    prof.pitch_angle = 2 * h.pi / n * (1 + h.real("error", -1e-9, 1e-9))
    out = flat_edges(b.generate_boundary_edges(prof))
    h.true("number of edges", len(out) == 4 * n)


@harness("C18", "gear_locations", modules=M)
def gear_locations(h):
    """bottom, middle, top and face locations: on the slice's centre, turned with the slice"""
    uniform(h)
    w, b = h.m("gggears_wrapper"), h.m("gggears_build123d")
    kind = h.choice("kind", ["spur", "helical", "ring"])
    H, m, za = h.real("H", 0.5, 5), h.real("m", 0.5, 3), h.real("anchor", 0, 1)
    if kind == "helical":
        be = h.angle("be", -0.7, 0.7)
        h.assume(h.np.cos(be) > 0.7)
        g = w.HelicalGear(12, helix_angle=be, height=H, module=m, z_anchor=za)
        twist = h.np.tan(be) / (6 * m / h.np.cos(be))
    else:
        g = (w.SpurGear if kind == "spur" else w.SpurRingGear)(12, height=H, module=m, z_anchor=za)
        twist = 0
    t = g.gearcore.transform
    t.center, t.orientation, t.angle = h.vec("c"), h.orient("o", "zx"), h.angle("a", -3, 3)
    for name, z, loc in [("bottom", -H * za, g.center_location_bottom), ("top", H * (1 - za), g.center_location_top),
                         ("middle", H * (0.5 - za), g.center_location_middle)]:
        o, ax = frame(h, b, loc)
        h.eq(name + " origin", o, t.center + t.orientation @ h.array([0, 0, z]))
        h.eq(name + " axes", ax, cols(t.orientation @ h.rz(t.angle + z * twist)))


@harness("C18", "update_part", modules=M)
def update_part(h):
    """after moving a built gear, its part is the unplaced solid in the new place"""
    uniform(h)
    w, b, crv = h.m("gggears_wrapper"), h.m("gggears_build123d"), h.m("curve")
    kind = h.choice("kind", ["spur", "cycloid"])
    m = h.real("m", 0.5, 3)
    g = (w.SpurGear if kind == "spur" else w.CycloidGear)(12, module=m)

    class Builder:
        pass
    p, q = h.vec("p"), h.vec("q")
    h.assume(p[0] - q[0] > 0.5)
    bld = Builder()
    bld.solid = b.line_to_b123d(crv.LineCurve(p, q))
    bld.part_transformed = bld.solid
    g.builder = bld
    t = g.gearcore.transform
    for k in range(2):
        t.center, t.orientation, t.angle = h.vec(f"c{k}"), h.orient(f"o{k}", "zx"), h.angle(f"a{k}", -3, 3)
        e = g.update_part()
        for u in (0, 0.5):
            x = p + (q - p) * u
            h.eq(f"move {k} at {u}", tup(e @ u), t.center + t.orientation @ (h.rz(t.angle) @ (x * m)))
        h.eq(f"kept {k}", tup(bld.part_transformed @ 0), tup(e @ 0))


@harness("C18", "side_faces", standins=True, modules=M)
def side_faces(h):
    """side faces: every patch of the outline of one tooth, at every pitch"""
    b, conv = h.m("gggears_build123d"), h.m("gggears_convert")

    class P:
        pass
    levels = h.choice("levels", [1, 2])
    n = h.choice("teeth", [3, 4])
    bld = object.__new__(b.GearBuilder)
    bld.gear = P()
    bld.gear.z_vals = h.array([0, 1] if levels == 1 else [0, 1, 2])
    bld.gear.tooth_param = h.m("gggears_base_classes").GearToothParam(n)
    # five segments: three belong to the closing ring
    K = [0, 1, 2, 3, 4, 5]
    data = []
    for lv in range(levels):
        pts = h.array([[[h.real(f"x{lv}{r}{c}", 1, 3), c, lv + r] for c in range(6)] for r in range(2)])
        data.append(conv.NurbSurfaceData(points=pts, weights=h.array([[1] * 6] * 2), knots=K))
    bld.side_surf_data = data
    out = bld.gen_side_surfaces()
    h.true("count", len(out) == n * levels * 2)
    pos = lambda f, u, v: tup(f.position_at(u, v))
    want = []
    for j in range(n):
        for lv in range(levels):
            for c in range(2):
                want.append([h.rz(2 * h.pi / n * j) @ data[lv].points[r, c + k] for r, k in ((0, 0), (0, 1), (1, 0), (1, 1))])
    # corners of every expected patch are those of one face
    got = [[pos(f, u, v) for u, v in ((0, 0), (0, 1), (1, 0), (1, 1))] for f in out]
    used = set()
    for i, wq in enumerate(want):
        k = h.pick([x for p in wq for x in h.flat(p)], got)
        used.add(k)
        h.eq(f"patch {i}", [x for p in got[k] for x in p], [x for p in wq for x in h.flat(p)])
    h.true("all faces used", len(used) == len(out))


@harness("C18", "outside_ring", standins=True, modules=M)
def outside_ring(h):
    """the outer wall of a ring gear: radius from tooth number and ring thickness, over the full height"""
    b, w = h.m("gggears_build123d"), h.m("gggears_wrapper")
    uniform(h)
    co, H, m, za = h.real("co", 1.5, 4), h.real("H", 0.5, 5), h.real("m", 0.5, 3), h.real("anchor", 0, 1)
    g = w.SpurRingGear(12, height=H, module=m, z_anchor=za, outside_ring_coefficient=co)
    bld = object.__new__(b.GearBuilder)
    bld.gear = g.gearcore
    got = {}
    F = b.bd.Face
    old = F.__dict__["sweep"] if "sweep" in F.__dict__ else None
    F.sweep = staticmethod(lambda profile, path: got.update(profile=profile, path=path))
    try:
        bld.gen_outside_ring()
    finally:
        if old is None:
            del F.sweep
        else:
            F.sweep = old
    r = 6 + co
    ends = [tup(got["profile"] @ 0), tup(got["profile"] @ 1)]
    zs = [-H / m * za, H / m * (1 - za)]
    k = h.pick([r, 0, zs[0]], ends)
    h.eq("bottom", ends[k], [r, 0, zs[0]])
    h.eq("top", ends[1 - k], [r, 0, zs[1]])
    for u in (0, 0.25, 0.625):
        x = tup(got["path"] @ u)
        h.eq(f"circle {u}", [x[0] * x[0] + x[1] * x[1], x[2]], [r * r, 0])
    h.true("full turn", True)


@harness("C18", "slices", standins=True, modules=M)
def slices(h):
    """surfaces are made from slices that start and end at the gear's levels, evenly spaced between"""
    conv, core = h.m("gggears_convert"), h.m("gggears_core")
    nv = h.choice("n_vert", [2, 3, 4])
    ratio = h.choice("ratio", [2, 2.5, 3])
    want = {2: {2: 2, 2.5: 2, 3: 2}, 3: {2: 4, 2.5: 5, 3: 5}, 4: {2: 6, 2.5: 7, 3: 8}}[nv][ratio]
    zs = h.array([h.real("z0", -3, 0), h.real("z1", 1, 2), h.real("z2", 2.5, 4)])
    zs = zs if h.bool("three levels") else zs[:2]

    class P:
        pass
    asked = []
    ext = core.GearRefProfileExtended
    old = ext.__dict__["from_refprofile"]
    ext.from_refprofile = classmethod(lambda cls, p, c: asked.append((p, c)) or (p, c))
    gear = P()
    gear.z_vals = zs
    gear.curve_gen_at_z = lambda z: z
    gear.shape_recipe = lambda z: type("R", (), {"cone": z})()
    try:
        b = type("B", (conv.GearToNurbs,), {"generate_nurbs": lambda s: None, "generate_surface_points_sides": lambda s: None})(
            gear, n_points_vert=nv, oversampling_ratio=ratio)
    finally:
        ext.from_refprofile = old
    h.true("levels", len(b.gear_stacks) == len(zs) - 1)
    for i, st in enumerate(b.gear_stacks):
        h.true(f"number of slices {i}", len(st) == want)
        for k, (p, c) in enumerate(st):
            z = zs[i] + (zs[i + 1] - zs[i]) * k / (want - 1)
            h.eq(f"slice {i} {k}", [p, c], [z, z])


@harness("C18", "profile_to_nurb", modules=M)
def profile_to_nurb(h):
    """the spline form of a tooth outline is every one of its pieces, in the slice's place"""
    import dataclasses
    uniform(h)
    core, crv, conv = h.m("gggears_core"), h.m("curve"), h.m("gggears_convert")
    base, P = toothed_profile(h)
    kw = {f.name: getattr(base, f.name) for f in dataclasses.fields(base)}
    base.tooth_curve_mirror = kw["tooth_curve_mirror"] = crv.CurveChain(
        crv.MirroredCurve(kw["tooth_curve"], plane_normal=h.m("defs").UP).reverse())
    cls = core.GearRefProfile
    if h.bool("extended"):
        cls = core.GearRefProfileExtended
        for i, f in enumerate(dataclasses.fields(cls)):
            if f.name not in kw:
                kw[f.name] = crv.LineCurve(h.array([3 + i, h.real("e" + f.name, -1, 1), 0]), h.array([i, 0.5, 0]))
    prof = cls(**kw)
    n = conv.gearprofile_to_nurb(prof)
    h.true("kind", isinstance(n, cls))
    h.eq("pitch", n.pitch_angle, prof.pitch_angle)
    x = h.vec("x")
    h.eq("place applied once", n.transform(x), x)
    for f in dataclasses.fields(cls):
        if f.name in ("pitch_angle", "transform"):
            continue
        a, b = getattr(n, f.name), getattr(prof, f.name)
        for u in (0, 0.5, 1):
            h.eq(f"{f.name} {u}", a(u), prof.transform(b(u)))


@harness("C18", "straight_surfaces", standins=True, modules=M)
def straight_surfaces(h):
    """with two slices per level the side surface is ruled between exactly these slices"""
    uniform(h)
    conv, crv = h.m("gggears_convert"), h.m("curve")

    class P:
        pass

    def stack(n):
        pts = [h.vec(f"{n}{i}", -3, 3) for i in range(4)]
        cs = [crv.NurbCurve(h.array([pts[0], pts[1]]), h.array([1, 1])),
              crv.NurbCurve(h.array([pts[1], pts[2], pts[3]]), h.array([1, h.real("w" + n, 0.5, 2), 1]))]
        if h.bool("inactive piece"):
            dead = crv.NurbCurve(h.array([pts[1], pts[1]]), h.array([1, 1]))
            dead.active = False
            cs.insert(1, dead)
        p = P()
        p.profile_closed = crv.CurveChain(*cs)
        return p, pts, cs[-1].weights
    b = object.__new__(conv.GearToNurbs)
    lv = h.choice("levels", [1, 2])
    b.z_vals = [0, 1, 2][:lv + 1]
    b.n_z_tweens = 2
    S = [[stack(f"a{i}"), stack(f"b{i}")] for i in range(lv)]
    b.nurb_profile_stacks = [[x[0] for x in s] for s in S]
    out = b.generate_surface_points_sides()
    h.true("levels", len(out) == lv)
    for i, d in enumerate(out):
        pat = list(d.get_patches())
        h.true("patches", len(pat) == 2)
        for r in (0, 1):
            _, pts, w = S[i][r]
            h.eq(f"{i} {r} first", pat[0]["points"][r], [pts[0], pts[1]])
            h.eq(f"{i} {r} second", pat[1]["points"][r], [pts[1], pts[2], pts[3]])
            h.eq(f"{i} {r} weights", pat[1]["weights"][r], w)


class Rec:
    """a shape the kernel would make: remembers what it was made of"""
    def __init__(self, *a, **k):
        self.a, self.k = a, k


def rec(name):
    return type(name, (Rec,), {})


@harness("C18", "assembly_flat", standins=True, modules=M)
def assembly_flat(h):
    """cylindrical gear: the solid is bounded by all side faces, both end covers and, on rings, the outer wall"""
    uniform(h)
    b, w, crv = h.m("gggears_build123d"), h.m("gggears_wrapper"), h.m("curve")
    ring, nz = h.bool("ring"), h.choice("levels", [2, 3])
    m = h.real("m", 0.5, 3)
    g = (w.SpurRingGear if ring else w.SpurGear)(12, module=m)
    core = g.gearcore
    core.z_vals = h.array([0, 1, 2][:nz])
    t = core.transform
    t.center, t.orientation, t.angle = h.vec("c"), h.orient("o", "zx"), h.angle("a", -3, 3)
    asked = {}
    p, q = h.vec("p"), h.vec("q")
    h.assume(p[0] - q[0] > 0.5)
    edge = b.line_to_b123d(crv.LineCurve(p, q))

    def init(self, gear, n_points_hz=4, n_points_vert=4, oversampling_ratio=3):
        asked.update(gear=gear, hz=n_points_hz, vert=n_points_vert, over=oversampling_ratio)
        self.gear, self.z_vals = gear, gear.z_vals
        self.gear_stacks = [[f"g{i}{j}" for j in range(3)] for i in range(nz - 1)]
        self.nurb_profile_stacks = [[f"n{i}{j}" for j in range(3)] for i in range(nz - 1)]

    class Part(Rec):
        def __add__(self, o):
            return Part(self, o)
    B = type("B", (b.GearBuilder,), {
        "gen_side_surfaces": lambda s: ["side0", "side1", "side2"],
        "gen_outside_ring": lambda s: "wall",
        "generate_cover": lambda s, nurb_stack, gear_stack: ("cover", nurb_stack, gear_stack)})
    shells = []

    def solid(x, *a, **k):
        shells.append(x)
        return edge
    hz, vert, over = 5, 3, 2.5
    with patched(b.GearToNurbs, __init__=init), patched(
            b.bd, Shell=rec("Shell"), Solid=solid, Part=Part, BasePartObject=lambda x, *a, **k: x):
        out = B(core, hz, vert, over) if h.bool("positional") else B(
            gear=core, n_points_hz=hz, n_points_vert=vert, oversampling_ratio=over)
    h.true("the gear", asked["gear"] is core)
    h.true("resolution", (asked["hz"], asked["vert"], asked["over"]) == (hz, vert, over))
    h.assume(len(shells) == 1)
    h.true("one solid", out.solid is edge)
    faces = list(shells[0].a[0])
    want = ["side0", "side1", "side2", ("cover", "n00", "g00"), ("cover", f"n{nz-2}2", f"g{nz-2}2")] + (
        ["wall"] if ring else [])
    h.true("faces", sorted(map(str, faces)) == sorted(map(str, want)))
    for u in (0, 0.5, 1):
        x = p + (q - p) * u
        h.eq(f"placed {u}", tup(out.part_transformed @ u), t.center + t.orientation @ (h.rz(t.angle) @ (x * m)))


@harness("C18", "assembly_conic", standins=True, modules=M)
def assembly_conic(h):
    """conical gear: the blank is cut by side faces that reach past both ends; the gear keeps its levels"""
    uniform(h)
    b, w, crv = h.m("gggears_build123d"), h.m("gggears_wrapper"), h.m("curve")
    ring = h.bool("ring")
    m = h.real("m", 0.5, 3)
    g = w.BevelGear(12, cone_angle=h.pi / 2, module=m)
    core = g.gearcore
    core.tooth_param.inside_teeth = ring
    z0, z1 = h.real("z0", -2, 0), h.real("z1", 1, 3)
    core.z_vals = h.array([z0, z1])
    t = core.transform
    t.center, t.angle = h.vec("c"), h.angle("a", -3, 3)
    seen = {}
    fails = h.bool("surfaces fail")

    def init(self, gear, n_points_hz=4, n_points_vert=4, oversampling_ratio=3):
        self.gear, self.z_vals = gear, gear.z_vals
        seen.update(z=[x for x in gear.z_vals])
        if fails:
            raise RuntimeError("no surface")

    class Piece:
        def __init__(self, z, p):
            self.z, self.p = z, p

        def bounding_box(self):
            s = self

            class BB:
                def center(self):
                    class V:
                        Z = s.z
                    return V()
            return BB()
    p, q = h.vec("p"), h.vec("q")
    h.assume(p[0] - q[0] > 0.5)
    edge = b.line_to_b123d(crv.LineCurve(p, q))
    za, zb = h.real("za", -3, 3), h.real("zb", -3, 3)
    h.assume(zb - za > 0.01)
    low, high = Piece(za, "low"), Piece(zb, "high")
    pieces = [low, high] if h.bool("order") else [high, low]
    keep = high if ring else low
    cut = {}

    class Blank:
        def split(self, tool=None, keep=None):
            cut.update(tool=tool, z=[x for x in core.z_vals])
            return tuple(pieces) if h.bool("tuple") else list(pieces)
    B = type("B", (b.GearBuilder,), {"gen_side_surfaces": lambda s: ["side0", "side1"],
                                     "gen_ref_solid": lambda s: seen.update(blank=[x for x in s.gear.z_vals]) or Blank()})
    placed = []
    with patched(b.GearToNurbs, __init__=init), patched(
            b.bd, Shell=rec("Shell"), Part=type("P", (Rec,), {"__add__": lambda s, o: s}), BasePartObject=lambda x, *a, **k: x), patched(
            b, apply_transform_part=lambda part, tr: placed.append((part, tr)) or "moved"):
        try:
            out = B(core)
        except RuntimeError:
            out = None
    h.true("failure shown", (out is None) == fails)
    h.eq("levels kept", list(core.z_vals), [z0, z1])
    h.true("cut reaches past both ends", z0 - seen["z"][0] > 1e-6)
    h.true("cut reaches past the top", seen["z"][-1] - z1 > 1e-6)
    if not fails:
        h.eq("blank ends at the levels", seen["blank"], [z0, z1])
        h.true("tools", list(cut["tool"].a[0]) == ["side0", "side1"])
        h.true("the right piece", out.solid is keep)
        h.true("placed", placed[0][0] is keep and placed[0][1] is t and out.part_transformed == "moved")


@harness("C18", "covers", standins=True, modules=M)
def covers(h):
    """end faces of cylindrical gears: outline of every tooth; on rings a hole in a disc at the slice's level"""
    uniform(h)
    b, conv, core = h.m("gggears_build123d"), h.m("gggears_convert"), h.m("gggears_core")
    h.stub(h.m("curve").NURBSCurve, "enforce_continuity", lambda self: self, "joining of adjacent ends")
    ring, n = h.bool("ring"), h.choice("teeth", [3, 4])
    prof, P = toothed_profile(h, n)
    prof.transform.center = h.array([0, 0, h.real("zs", -3, 3)])
    nurb = conv.gearprofile_to_nurb(prof)

    bld = object.__new__(b.GearBuilder)
    bld.gear = h.m("gggears_wrapper").InvoluteGear(n, inside_teeth=ring, height=h.real("H", 1, 5), z_anchor=h.real("za", 0, 1)).gearcore
    ho = h.real("ho", -6, -2)
    bld.gear.shape_recipe.limits.h_o = ho

    class W(Rec):
        def rotate(self, axis, angle):
            return W(flat_edges([e.rotate(axis, angle) for e in flat_edges(list(self.a))]))

    class E(Rec):
        def __add__(self, o):
            return W(list(self.a), *[x for x in o])
        make_circle = staticmethod(b.bd.Edge.make_circle)
        make_bezier = staticmethod(b.bd.Edge.make_bezier)

    def wires(x):
        if isinstance(x, Rec):
            return [e for y in x.a for e in wires(y)]
        if isinstance(x, (list, tuple)):
            return [e for y in x for e in wires(y)]
        return [x]
    F = rec("Face")
    circle = []
    mk = b.bd.Edge.make_circle

    def make_circle(*a, **k):
        circle.append(mk(*a, **k))
        return circle[-1]
    E.make_circle = staticmethod(make_circle)
    with patched(b.bd, Wire=W, Edge=E, Face=F):
        out = bld.generate_cover(nurb, prof)
    edges = wires(out.k["inner_wires"] if ring else out)
    h.true("number of edges", len(edges) == 4 * n)
    for i in range(n):
        for j in (1, 2, 3):
            R = h.rz(2 * h.pi / n * i)
            e = edges[4 * i + j]
            h.eq(f"tooth {i} corner {j}", tup(e @ 0), R @ prof.transform(h.array(P[j])))
            h.eq(f"tooth {i} end {j}", tup(e @ 1), R @ prof.transform(h.array(P[j + 1])))
    if ring:
        h.true("disc", wires(out.a[0]) == circle and len(circle) == 1)
        for u in (0, 0.25, 0.625):
            x = tup(circle[0] @ u)
            h.eq(f"disc {u}", [x[0] * x[0] + x[1] * x[1], x[2]], [(n / 2 - ho) ** 2, prof.transform.center[2]])


@harness("C18", "boundary_wire", standins=True, modules=M)
def boundary_wire(h):
    """the boundary wire is the outline at the asked proportion of the height"""
    uniform(h)
    w = h.m("gggears_wrapper")
    kind = h.choice("kind", ["spur", "ring", "cycloid"])
    cls = {"spur": w.SpurGear, "ring": w.SpurRingGear, "cycloid": w.CycloidGear}[kind]
    m = h.real("m", 0.5, 3)
    g = cls(12, module=m)
    z0, z1, k = h.real("z0", -3, 0), h.real("z1", 1, 3), h.real("k", 0, 1)
    g.gearcore.z_vals = h.array([z0, h.real("zm", 0.2, 0.8), z1] if h.bool("three levels") else [z0, z1])
    asked = []
    g.gearcore.curve_gen_at_z = lambda z: asked.append(z) or "profile"
    used = []
    with patched(w, generate_boundary_edges=lambda p, t=None, *a, **kk: used.append((p, t)) or ["edges"]), patched(
            w.bd, Wire=rec("Wire")):
        out = g.build_boundary_wire(k)
        g.build_boundary_wire(z_ratio=k)
        g.build_boundary_wire()
    for i, z in enumerate([z0 + k * (z1 - z0)] * 2 + [z0]):
        h.eq(f"slice {i}", asked[i], z)
        h.true(f"outline {i}", used[i][0] == "profile")
        t, u = g.gearcore.transform, used[i][1]
        h.eq(f"placement {i}", list(u.center) + [u.angle, u.scale], list(t.center) + [t.angle, t.scale])
    h.true("wire of these edges", flat_edges(list(out.a)) == ["edges"])


@harness("C18", "face_locations", standins=True, modules=M)
def face_locations(h):
    """face locations: at the centre of the end's outer circle, turned with the end"""
    uniform(h)
    w, b = h.m("gggears_wrapper"), h.m("gggears_build123d")
    kind = h.choice("kind", ["spur", "helical", "bevel", "cycloid"])
    m = h.real("m", 0.5, 3)
    if kind == "helical":
        be = h.angle("be", -0.7, 0.7)
        h.assume(h.np.cos(be) > 0.7)
        g = w.HelicalGear(12, helix_angle=be, height=h.real("H", 0.5, 5), module=m)
    elif kind == "bevel":
        g = w.BevelGear(12, cone_angle=h.pi / 2, module=m)
    else:
        g = (w.SpurGear if kind == "spur" else w.CycloidGear)(12, module=m, height=2)
    t = g.gearcore.transform
    t.center, t.orientation, t.angle = h.vec("c"), h.orient("o", "zx"), h.angle("a", -3, 3)

    class C:
        pass
    zs = g.gearcore.z_vals
    pts = [h.vec("p0"), h.vec("p1")]
    other = h.vec("centre of the other circles")

    def radii(self, z):
        c = C()
        for n in ("r_a_curve", "r_p_curve", "r_d_curve", "r_o_curve"):
            setattr(c, n, C())
            getattr(c, n).center = other
        c.center = other
        c.r_o_curve.center = pts[0] if z is zs[0] or z == zs[0] else pts[1]
        return c
    ref = [frame(h, b, g.center_location_bottom)[1], frame(h, b, g.center_location_top)[1]]
    g.__class__ = type("G", (g.__class__,), {"radii_data_gen": radii})
    for i, loc in enumerate([g.face_location_bottom, g.face_location_top]):
        o, ax = frame(h, b, loc)
        h.eq(f"origin {i}", o, pts[i])
        h.eq(f"axes {i}", ax, ref[i])


@harness("C18", "build_part", standins=True, modules=M)
def build_part(h):
    """building: from this gear as it stands, asked resolution kept, twisted or crowned gears never ruled"""
    uniform(h)
    w = h.m("gggears_wrapper")
    m = 2
    kind = h.choice("kind", ["spur", "crowned", "helical", "helical ring", "bevel", "spiral bevel", "cycloid", "twisted cycloid"])
    ang = h.angle("be", 0.1, 0.6)
    g = {"spur": lambda: w.SpurGear(12, module=m), "crowned": lambda: w.SpurGear(12, module=m, crowning=100),
         "helical": lambda: w.HelicalGear(12, module=m, helix_angle=ang), "helical ring": lambda: w.HelicalRingGear(12, module=m, helix_angle=ang),
         "bevel": lambda: w.BevelGear(12, module=m, cone_angle=h.pi / 2), "spiral bevel": lambda: w.BevelGear(12, module=m, cone_angle=h.pi / 2, helix_angle=ang),
         "cycloid": lambda: w.CycloidGear(12, module=m), "twisted cycloid": lambda: w.CycloidGear(12, module=m, helix_angle=ang)}[kind]()
    calls = []
    tw, cone = h.real("twist", -2, 2), g.gearcore.cone

    class R:
        def __init__(self, z):
            self.transform = self
            self.angle = tw * z
            self.cone = cone
    g.gearcore.shape_recipe = R
    g.gearcore.z_vals = h.array([0, 1])

    class GB:
        def __init__(self, gear, n_points_hz=4, n_points_vert=4, oversampling_ratio=3, side_surface_extension_ratio=0.01):
            calls.append((gear, n_points_hz, n_points_vert))
            self.solid = "solid"
            self.part_transformed = f"part{len(calls)}"
    with patched(w, GearBuilder=GB):
        one = g.build_part()
        h.true("this gear", calls[0][0] is g.gearcore and one == "part1" and g.builder.part_transformed == "part1")
        straight = kind in ("spur", "bevel", "cycloid")
        h.true("enough slices", calls[0][2] >= (2 if straight else 3))
        g.build_part(n_vert=7)
        h.true("asked slices", calls[1][2] == 7)
        if "cycloid" not in kind and kind != "helical ring":
            g.build_part(n_points_hz=6)
            h.true("asked points", calls[2][1] == 6)


@harness("C18", "blank", standins=True, modules=M)
def blank(h):
    """conical gears are cut from a blank between the two end spheres, unplaced, with the stated outer radii"""
    uniform(h)
    b, w = h.m("gggears_build123d"), h.m("gggears_wrapper")
    ring = h.bool("ring")
    m, ga, H = h.real("m", 0.5, 3), h.angle("ga", 0.2, 1.4), h.real("H", 0.3, 1.5)
    g = w.BevelGear(12, cone_angle=2 * ga, module=m, height=H * m)
    core = g.gearcore
    core.tooth_param.inside_teeth = ring
    t = core.transform
    t.center, t.orientation, t.angle = h.vec("c"), h.orient("o", "zx"), h.angle("a", -3, 3)
    tr = [core.shape_recipe(z).transform for z in core.z_vals]
    prof = []
    for i in (0, 1):
        p = Rec()
        p.transform = h.m("gggears_core").GearTransform(center=tr[i].center, orientation=tr[i].orientation,
                                                        angle=tr[i].angle, scale=tr[i].scale)
        p.ro_curve = Rec()
        p.ro_curve.center = h.array([0, 0, h.real(f"zo{i}", -1, 1)])
        p.ro_curve.radius = h.real(f"ro{i}", 1, 5)
        prof.append(p)
    zs = [x for x in core.z_vals]

    def gen(self, z):
        if z == zs[0]:
            return prof[0]
        h.eq("slices asked for are the ends", z, zs[1])
        return prof[1]
    core.__class__ = type("G", (core.__class__,), {"curve_gen_at_z": gen})
    spheres, cones = [], []

    class S:
        c, r = (0, 0, 0), None

        def __init__(self, *a, **kw):
            pass

        def rotate(self, axis, angle):
            return self

        def translate(self, v):
            x = S()
            x.c, x.r = [p + q for p, q in zip(tup(self.c), tup(v))], self.r
            spheres.append(x)
            return x

        def __add__(self, o):
            return S()
        __sub__ = __and__ = fuse = intersect = cut = split_one = __add__

        def clean(self):
            return self

        def faces(self):
            class L(list):
                def sort_by(self, *a, **k):
                    return self
            return L(["bottom", "side", "top"])
        volume = 1

        def split(self, tool=None, keep=None):
            if ring:
                one, two = S(), S()
                one.volume, two.volume = 1, 2
                self.parts = [two, one]
                pieces.append(one)
                return [two, one]
            return S()

        @staticmethod
        def make_sphere(radius, angle1=0, angle2=90, angle3=360, plane=None):
            x = S()
            x.r = radius
            return x

        @staticmethod
        def make_cone(base_radius, top_radius, height, plane=None, angle=360):
            cones.append((base_radius, top_radius, height, plane))
            return S()
    pieces = []
    bld = object.__new__(b.GearBuilder)
    bld.gear = core
    with patched(b.bd, Solid=S):
        out = bld.gen_ref_solid()
    # pitch radius 6, apex at 6/tan(ga); every slice is cut from its own sphere about that apex
    cg, sg = h.np.cos(ga), h.np.sin(ga)
    R = [6 / sg, 6 / sg - H]
    h.assume(len(spheres) == 2, len(cones) == 1)
    for i in (0, 1):
        h.eq(f"sphere {i}", tup(spheres[i].c) + [spheres[i].r], [0, 0, 6 * cg / sg, R[i]])
    z = [prof[i].transform(prof[i].ro_curve.center)[2] for i in (0, 1)]
    r = [prof[i].ro_curve.radius * prof[i].transform.scale for i in (0, 1)]
    h.eq("outer cone", [cones[0][0], cones[0][1], cones[0][2]], [r[0], r[1], z[1] - z[0]])
    h.eq("where the cone starts", tup(cones[0][3].origin), [0, 0, z[0]])
    if ring:
        h.true("the ring inside the outer cone", out is pieces[0])
