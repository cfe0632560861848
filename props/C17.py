"""C17 the tooth profile: closed, symmetric, between root and tip circle, one pitch wide"""
from symgg.harness import harness
from props.gearlib import *
M = ["gggears_wrapper"]


def straight(h, more=(), fillet=None, transform=None, z=None):
    """one tooth with straight flanks from angle -fd on the root circle to -fa on the tip circle, the given flank
    overshooting both circles, in a gear of any pitch"""
    crv, core = h.m("curve"), h.m("gggears_core")
    np = h.np
    fa, v = h.angle("fa", 0.005, 0.2), h.angle("v", 0.01, 0.2)
    w = h.pi / z - fa - v if z else h.angle("w", 0.01, 0.25)
    fd = fa + v
    p = 2 * (fd + w)
    rp = h.real("rp", 4, 30)
    ha, hd, ho = h.real("ha", 0.1, 2), h.real("hd", 0.1, 2), h.real("ho", 2.1, 3)
    e0, e1 = h.real("e0", 0.1, 1), h.real("e1", 0.1, 1)
    h.assume(np.sin(fd) > 0.01, np.cos(fd) > 0.9, np.cos(fd + w) > 0.7, np.sin(fd + w) > 0.02)
    ra, rd = rp + ha, rp - hd
    h.assume(ra * np.cos(v) - rd > ra * np.sin(v))      # the flank rises
    a = h.array([rd * np.cos(fd), -rd * np.sin(fd), 0])
    b = h.array([ra * np.cos(fa), -ra * np.sin(fa), 0])

    class Flank:
        pitch_radius = rp

        def generate_tooth_curve(self):
            return crv.CurveChain(crv.LineCurve(p0=a - e0 * (b - a), p1=b + e1 * (b - a)))
    C = 2 * h.pi
    t1 = (1 + e0) / (1 + e0 + e1)
    h.roots([t1, -fa / C, 0], [e0 / (1 + e0), -fd / C, 0], *[m(dict(p=p, w=w)) for m in more], otherwise="contract")
    d = core.GearProfileDataCollector(tooth_generator=Flank(), cone=core.ConicData(cone_angle=0, base_radius=rp),
                                      limits=core.ToothLimitParam(h_a=ha, h_d=hd, h_o=ho), pitch_angle=p,
                                      transform=transform or core.GearTransformData(), fillet=fillet or core.FilletParam())
    return d, dict(p=p, w=w, fd=fd, fa=fa, rp=rp, ra=ra, rd=rd, ro=rp - ho, a=a, b=b)


def pol(h, r, f):
    return h.array([r * h.np.cos(f), r * h.np.sin(f), 0])


def arc(h, label, c, r, f0, fm, f1):
    """c runs on the circle of radius r about the axis from angle f0 through fm to f1"""
    h.eq(label + " start", c(0), pol(h, r, f0))
    h.eq(label + " middle", c(0.5), pol(h, r, fm))
    h.eq(label + " end", c(1), pol(h, r, f1))
    s = h.real("s_" + label.split()[0], 0.01, 0.99)
    x = c(s)
    h.eq(label + " radius", x[0] * x[0] + x[1] * x[1], r * r)
    h.eq(label + " plane", x[2], 0)


@harness("C17", "straight", modules=M)
def straight_(h):
    core = h.m("gggears_core")
    uniform(h)
    d, q = straight(h)
    pr = core.generate_reference_profile(d)
    s = h.real("s", 0.01, 0.99)
    f, m = pr.tooth_curve, pr.tooth_curve_mirror
    h.eq("flank from root circle to tip circle", f(s), q["a"] + s * (q["b"] - q["a"]))
    h.eq("other flank is the mirror image", m(s), f(1 - s) * h.array([1, -1, 1]))
    arc(h, "tip arc", pr.ra_curve, q["ra"], -q["fa"], 0, q["fa"])
    arc(h, "root arc", pr.rd_curve, q["rd"], -q["fd"] - 2 * q["w"], -q["fd"] - q["w"], -q["fd"])
    arc(h, "ring arc", pr.ro_curve, q["ro"], -q["fd"] - 2 * q["w"], -q["w"], q["fd"])
    h.eq("pitch", pr.pitch_angle, q["p"])


def touching(h, label, chain, closed=True):
    """consecutive active members share their end points"""
    cs = [c for c in chain if c.active]
    for i, c in enumerate(cs):
        if i + 1 < len(cs) or closed:
            h.eq(f"{label}: member {i} meets the next", c(1), cs[(i + 1) % len(cs)](0))


@harness("C17", "closed_profiles", modules=M)
def closed_profiles(h):
    """every closed outline of a tooth is really closed"""
    core = h.m("gggears_core")
    uniform(h)
    d, q = straight(h, [q_mid])
    pr = core.generate_reference_profile(d)
    ext = core.generate_profile_extensions(pr, core.ConicData(cone_angle=0, base_radius=q["rp"]))
    which = h.choice("which", ["profile_closed", "tooth_profile_closed", "tooth_profile_closed_outer",
                               "tooth_profile_closed_ring"])
    names = ["ra_curve", "rd_curve", "ro_curve", "tooth_curve", "tooth_curve_mirror", "ro_connector_0", "ro_connector_1",
             "ro_connector_2", "rd_connector", "ra_connector", "ro_curve_tooth", "ro_curve_dedendum", "tooth_centerline"]
    ends = lambda: [getattr(ext, n)(t) for n in names for t in (0, 1)]
    before = ends()
    touching(h, which, getattr(ext, which))
    h.eq("the parts after asking", ends(), before)
    touching(h, which + " again", getattr(ext, which))


def q_mid(q):
    return [2 * q["w"] / q["p"]]


@harness("C17", "extension_parts", modules=M)
def extension_parts(h):
    core = h.m("gggears_core")
    uniform(h)
    d, q = straight(h, [q_mid])
    pr = core.generate_reference_profile(d)
    e = core.generate_profile_extensions(pr, core.ConicData(cone_angle=0, base_radius=q["rp"]))
    fd, fa, w = q["fd"], q["fa"], q["w"]
    arc(h, "root connector", e.rd_connector, q["rd"], -fd, 0, fd)
    arc(h, "tip connector", e.ra_connector, q["ra"], fa - q["p"], -q["p"] / 2, -fa)
    arc(h, "tooth ring", e.ro_curve_tooth, q["ro"], -fd, 0, fd)
    arc(h, "gap ring", e.ro_curve_dedendum, q["ro"], -fd - 2 * w, -fd - w, -fd)
    for n, a in (("ro_connector_0", -fd - 2 * w), ("ro_connector_1", -fd), ("ro_connector_2", fd)):
        c = getattr(e, n)
        h.eq(n, [c(0), c(0.5), c(1)], [pol(h, q["ro"], a), pol(h, (q["ro"] + q["rd"]) / 2, a), pol(h, q["rd"], a)])
    h.eq("centre line", [e.tooth_centerline(0), e.tooth_centerline(1)], [pol(h, q["rd"], 0), pol(h, q["ra"], 0)])


@harness("C17", "closed_simple", modules=M)
def closed_simple(h):
    core = h.m("gggears_core")
    uniform(h)
    d, q = straight(h)
    pr = core.generate_reference_profile(d)
    ch = core.generate_profile_closed(pr, core.ConicData(cone_angle=0, base_radius=q["rp"]))
    touching(h, "outline", [c for part in ch for c in (part if isinstance(part, list) or hasattr(part, "curves") else [part])])


def conic(h, more=()):
    """a tooth on a pitch cone of half angle ga; flanks run from (polar angle td, azimuth -fd) to (ta, -fa)
    on the sphere around the apex, overshooting both reference circles"""
    crv, core = h.m("curve"), h.m("gggears_core")
    np = h.np
    w, fa, v = h.angle("w", 0.01, 0.25), h.angle("fa", 0.005, 0.2), h.angle("v", 0.01, 0.2)
    fd = fa + v
    p = 2 * (fd + w)
    sg = h.choice("cone sign", [1, -1])
    ga = h.angle("ga", 0.3, 1.2)
    ta, td, to = h.angle("ta", 0.1, 1.5), h.angle("td", 0.1, 1.5), h.angle("to", 0.1, 1.5)
    da, dd, do = ta - ga, ga - td, td - to
    h.assume(da > 0.02, dd > 0.02, do > 0.02)
    rp = h.real("rp", 4, 30)
    e0, e1 = h.real("e0", 0.1, 0.5), h.real("e1", 0.1, 0.5)
    h.assume(np.sin(fd) > 0.01, np.cos(fd) > 0.9, np.cos(fd + w) > 0.7, np.sin(fd + w) > 0.02)
    R = rp / np.sin(ga)
    h.assume(R * (dd + do) < rp - 0.01)      # the root stays outside the centre

    def at(t, f):
        return h.array([R * np.sin(t) * np.cos(f), R * np.sin(t) * np.sin(f), sg * R * (np.cos(ga) - np.cos(t))])

    def fun(t):
        return at(td + (ta - td) * t, -fd + v * t)

    class Flank:
        pitch_radius = rp

        def generate_tooth_curve(self):
            return crv.CurveChain(crv.Curve(fun, t0=-e0, t1=1 + e1))
    C = 2 * h.pi
    h.roots([(1 + e0) / (1 + e0 + e1), -fa / C, 0], [e0 / (1 + e0), -fd / C, 0],
            *[m(dict(p=p, w=w)) for m in more], otherwise="contract")
    cone = core.ConicData(cone_angle=2 * sg * ga, base_radius=rp)
    d = core.GearProfileDataCollector(tooth_generator=Flank(), cone=cone, pitch_angle=p,
                                      limits=core.ToothLimitParam(h_a=R * da, h_d=R * dd, h_o=R * (dd + do)),
                                      transform=core.GearTransformData(), fillet=core.FilletParam())
    return d, cone, dict(p=p, w=w, fd=fd, fa=fa, rp=rp, ta=ta, td=td, to=to, at=at, R=R)


@harness("C17", "conic", modules=M)
def conic_(h):
    core = h.m("gggears_core")
    uniform(h)
    d, cone, q = conic(h)
    pr = core.generate_reference_profile(d)
    f, m, at = pr.tooth_curve, pr.tooth_curve_mirror, q["at"]
    h.eq("flank starts on the root circle", f(0), at(q["td"], -q["fd"]))
    h.eq("flank ends on the tip circle", f(1), at(q["ta"], -q["fa"]))
    h.eq("other flank is the mirror image", [m(0), m(1)], [at(q["ta"], q["fa"]), at(q["td"], q["fd"])])
    arc3(h, "tip arc", pr.ra_curve, lambda t: at(q["ta"], t), -q["fa"], 0, q["fa"])
    arc3(h, "root arc", pr.rd_curve, lambda t: at(q["td"], t), -q["fd"] - 2 * q["w"], -q["fd"] - q["w"], -q["fd"])
    arc3(h, "ring arc", pr.ro_curve, lambda t: at(q["to"], t), -q["fd"] - 2 * q["w"], -q["w"], q["fd"])


def arc3(h, label, c, at, f0, fm, f1):
    h.eq(label, [c(0), c(0.5), c(1)], [at(f0), at(fm), at(f1)])


def polygon_profile(h, z):
    """a tooth outline with arbitrary corners, one pitch wide"""
    crv, core = h.m("curve"), h.m("gggears_core")
    p = 2 * h.pi / z
    v = [h.vec(f"v{i}", -5, 5) for i in range(4)]
    for i in range(3):
        d = v[i + 1] - v[i]
        h.assume(h.norm2(d) > 0.01)
    v.append(h.rz(p) @ v[0])
    h.assume(h.norm2(v[4] - v[3]) > 0.01, h.norm2(v[4] - v[0]) > 0.01)

    def seg(a, b):
        return crv.Curve(lambda t: a + (b - a) * t)
    cs = [seg(v[i], v[i + 1]) for i in range(4)]
    tr = any_place(h, core.GearTransform(scale=h.real("m", 0.2, 5)))
    return core.GearRefProfile(rd_curve=cs[0], tooth_curve=cs[1], ra_curve=cs[2], tooth_curve_mirror=cs[3],
                               ro_curve=None, pitch_angle=p, transform=tr), v


def any_place(h, t):
    t.center = h.vec("c")
    t.orientation = h.orient("o")
    t.angle = h.angle("ang", -3, 3)
    return t


@harness("C17", "boundary_chain", modules=M)
def boundary_chain(h):
    """the outline is the tooth repeated at every pitch, moved to the slice"""
    core = h.m("gggears_core")
    uniform(h)
    z = h.choice("z", [4, 6])
    cut = h.choice("cut", [0, 2])
    pr, v = polygon_profile(h, z)
    tp = core.GearToothParam(z, num_cutout_teeth=cut)
    ch = core.generate_boundary_chain(pr, tp)
    h.true("one copy per tooth", len(ch) == z - cut)
    s = h.real("s", 0.01, 0.99)
    p0 = pr.transform.invert()(ch[0](s))
    h.eq("first tooth", [ch[0](0), ch[0](1)], [pr.transform(v[0]), pr.transform(v[4])])
    for i in range(z - cut):
        h.eq(f"tooth {i}", ch[i](s) - pr.transform(h.rz(i * pr.pitch_angle) @ p0), [0, 0, 0])
        if i + 1 < z - cut:
            h.eq(f"tooth {i} touches the next", ch[i](1), ch[i + 1](0))
    if cut == 0:
        h.eq("closed", ch[z - 1](1), ch[0](0))


@harness("C17", "boundary_continuous", modules=M)
def boundary_continuous(h):
    """the single-curve outline passes through the same corners, in the slice's place"""
    core = h.m("gggears_core")
    z = h.choice("z", [4, 6])
    cut = h.choice("cut", [0, 2])
    crv = h.m("curve")
    uniform(h)
    pr, v = polygon_profile(h, z)
    n = z - cut
    b = core.generate_boundary(pr, core.GearToothParam(z, num_cutout_teeth=cut))
    for i in range(n + 1):
        h.eq(f"start of tooth {i}", b.function(i / n, **b.params) if i < n else b(1), pr.transform(h.rz(i * pr.pitch_angle) @ v[0]))
    h.eq("start", b(0), pr.transform(v[0]))


@harness("C17", "boundary_inside", modules=M)
def boundary_inside(h):
    """between the corners, too, the single-curve outline is the tooth turned by whole pitches"""
    core, crv = h.m("gggears_core"), h.m("curve")
    z, cut = 4, h.choice("cut", [0, 1])
    n = z - cut
    p = 2 * h.pi / z
    a, b = h.vec("a", -5, 5), h.vec("b", -5, 5)
    h.assume(h.norm2(b - a) > 0.01)
    one = crv.LineCurve(p0=a, p1=b)

    class Profile(core.GearRefProfile):
        profile = one
    tr = core.GearTransform(center=h.vec("c"), angle=h.angle("ang", -3, 3), scale=h.real("m", 0.2, 5))
    pr = Profile(rd_curve=one, tooth_curve=one, ra_curve=one, tooth_curve_mirror=one, ro_curve=one, pitch_angle=p, transform=tr)
    out = core.generate_boundary(pr, core.GearToothParam(z, num_cutout_teeth=cut))
    u = h.real("u", 0.02, 0.98)
    for i in range(n):
        h.eq(f"inside tooth {i}", out.function((i + u) / n, **out.params), tr(h.rz(i * p) @ (a + u * (b - a))))


@harness("C17", "boundary_slice", modules=M)
def boundary_slice(h):
    """the outline of a slice of a placed gear"""
    core = h.m("gggears_core")
    uniform(h)
    pr, v = polygon_profile(h, 4)
    pr.transform.orientation = h.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    asked = []

    class Gear(core.Gear):
        def curve_gen_at_z(self, z):
            asked.append(z)
            return pr
    tr = core.GearTransform(center=h.vec("gc"), orientation=h.orient("go"), angle=h.angle("ga", -3, 3), scale=h.real("gm", 0.2, 5))
    zz = h.real("zz", -3, 3)
    g = Gear(tooth_param=core.GearToothParam(4), transform=tr)
    b = g.boundary_at_z(zz, continuous=h.bool("continuous"))
    h.eq("slice", asked, [zz])
    want = tr(pr.transform(v[0]))
    h.eq("starts on the placed slice", b(0), want)
    h.eq("closed", b(1), want)


@harness("C17", "tangent_arc", modules=M)
def tangent_arc(h):
    """rounding between two straight edges: on both, tangent to both, of the radius asked for"""
    crv = h.m("curve")
    np = h.np
    k = h.vec("k", -5, 5)
    o = h.orient("o")
    a = h.angle("half", 0.15, 1.2)           # half of the turn
    sg = h.choice("turn", [1, -1])
    rho = h.real("rho", 0.01, 1)
    l1, l2 = h.real("l1", 3, 9), h.real("l2", 3, 9)
    u1 = o @ h.array([1, 0, 0])
    u2 = o @ h.array([np.cos(2 * a), sg * np.sin(2 * a), 0])
    c1, c2 = crv.LineCurve(p0=k - l1 * u1, p1=k), crv.LineCurve(p0=k, p1=k + l2 * u2)
    d = rho * np.tan(a)
    h.roots([d / l1, d / l2, 0])
    arc, t1, t2, sol = crv.calc_tangent_arc(c1, c2, rho)
    h.eq("leaves the first edge", arc(0), k - d * u1)
    h.eq("arrives on the second edge", arc(1), k + d * u2)
    h.eq("parameters", [t1, t2], [1 - d / l1, d / l2])
    ctr = k - d * u1 + rho * sg * (o @ h.array([0, 1, 0]))
    x = arc(h.real("s", 0.01, 0.99)) - ctr
    h.eq("radius", h.norm2(x), rho * rho)
    h.eq("same plane", h.dot(x, o @ h.array([0, 0, 1])), 0)
    m = arc(0.5)
    h.eq("middle", m, ctr + rho * (o @ h.array([np.sin(a), -sg * np.cos(a), 0])))


def fillet(h, tip, far=False):
    """rounding between a straight flank and a straight stand-in for the tip or root circle"""
    crv, core = h.m("curve"), h.m("gggears_core")
    np = h.np
    p2 = h.angle("p2", 0.05, 0.5)
    k = h.array([h.real("kx", 4, 30), h.real("ky", -2, -0.2), 0])
    b, a = h.angle("b", -0.3, 0.3), h.angle("half", 0.3, 1.2)
    rho = h.real("rho", 0.01, 1)
    # along the circle (towards the tooth centre), then along the flank (outwards), turning right; at the tip left
    if tip:
        u1, u2 = pol(h, 1, b), pol(h, 1, b + 2 * a)
        turn = 1
    else:
        u1, u2 = pol(h, 1, b + h.pi / 2), pol(h, 1, b + h.pi / 2 - 2 * a)
        turn = -1
    l = [h.real(f"l{i}", 3, 9) for i in range(4)]
    c1, c2 = crv.LineCurve(p0=k - l[0] * u1, p1=k + l[1] * u1), crv.LineCurve(p0=k - l[2] * u2, p1=k + l[3] * u2)
    d = rho * np.tan(a)
    h.assume(d < 2.9)
    L1, L2 = l[0] + l[1], l[2] + l[3]
    A, B = k - d * u1, k + d * u2
    for q in (k, A, B):
        at = -np.arctan2(q[1], q[0])
        h.assume(at > 0.001, p2 - at > 0.001)
    flank, circ = (c1, c2) if tip else (c2, c1)

    def cand(g):
        return [(l[0] - g * rho) / L1 - (l[0] - d) / L1, (l[2] + d) / L2 - (l[2] + g * rho) / L2, 0]
    h.roots([l[0] / L1, l[2] / L2, 0] if tip else [l[2] / L2, l[0] / L1, 0], cand(0.5), cand(1), cand(1.5))
    out = core.apply_fillet(crv.CurveChain(flank), 2 * p2, circ, rho, direction=-1 if tip else 1)
    ctr = A + turn * rho * h.array([-u1[1], u1[0], 0])
    rounded(h, out, tip, k - l[0] * u1 if tip else k + l[3] * u2, A if tip else B, B if tip else A, ctr, rho)


def rounded(h, out, tip, end, T, C, ctr, rho):
    cs = [x for x in out if x.active]
    h.true("flank and rounding", len(cs) == 2)
    arc, fl = (cs[1], cs[0]) if tip else (cs[0], cs[1])
    h.eq("flank keeps its far end", fl(0) if tip else fl(1), end)
    h.eq("flank ends in the tangent point", fl(1) if tip else fl(0), T)
    h.eq("rounding starts there", arc(0) if tip else arc(1), T)
    h.eq("rounding ends touching the circle", arc(1) if tip else arc(0), C)
    x = arc(h.real("s", 0.01, 0.99)) - ctr
    h.eq("radius", [h.norm2(x), x[2]], [rho * rho, 0])


@harness("C17", "root_fillet", modules=M)
def root_fillet(h):
    fillet(h, False)


@harness("C17", "tip_fillet", modules=M)
def tip_fillet(h):
    fillet(h, True)


def sharp(h, tip):
    """a rounding which does not leave room for any of the circle: it joins the two flanks"""
    uniform(h)
    crv, core = h.m("curve"), h.m("gggears_core")
    np = h.np
    p2 = h.angle("p2", 0.05, 0.5)
    g = h.angle("g", 0.2, 1.2)                  # flank against the mirror plane
    rho = h.real("rho", 0.1, 1)
    l0, l1 = h.real("l0", 3, 9), h.real("l1", 3, 9)
    K = h.real("K", 4, 30)
    # the mirror plane is the tooth's middle for the tip, the gap's middle (at -p2) for the root
    R = h.rz(0) if tip else h.rz(-p2)
    k = R @ h.array([K, 0, 0])
    u = R @ h.array([np.cos(g), np.sin(g), 0])
    line = crv.LineCurve(p0=k - l0 * u, p1=k + l1 * u)
    L = l0 + l1
    # centre on the mirror plane at distance rho/sin(g) from the corner
    c = k + (-1 if tip else 1) * rho / np.sin(g) * (R @ h.array([1, 0, 0]))
    d = rho / np.tan(g)
    h.assume(d < 2.9)
    T = k + (-d if tip else d) * u
    C = c + (rho if tip else -rho) * (R @ h.array([1, 0, 0]))
    # the flank meets the circle only beyond the middle of the tooth
    e = R @ h.array([0, 1, 0])
    gap = not tip and h.bool("beyond the gap's middle")
    m = k - l0 * u if gap else k + l1 * u
    if gap:
        h.assume(m[1] < -0.01, m[0] > 0.5, K - l0 * np.cos(g) > 0.5)
        f = np.arctan2(m[1], m[0])
        h.assume(f < -p2 - 0.001, f > -2 * p2 + 0.001)
    else:
        h.assume(m[1] > 0.01, m[0] > 0.5)
    circ = crv.LineCurve(p0=m - e, p1=m + e)
    st = 1 - rho / L, rho / L
    t = (l0 - d) / L if tip else (l0 + d) / L
    tm = 1 - t
    h.roots([0 if gap else 1, 0.5, 0], [st[0] - t, tm - st[1], 0] if tip else [st[0] - tm, t - st[1], 0])
    out = core.apply_fillet(crv.CurveChain(line), 2 * p2, circ, rho, direction=-1 if tip else 1)
    rounded(h, out, tip, k - l0 * u if tip else k + l1 * u, T, C, c, rho)


@harness("C17", "sharp_root", modules=M)
def sharp_root(h):
    sharp(h, False)


@harness("C17", "sharp_tip", modules=M)
def sharp_tip(h):
    sharp(h, True)


@harness("C17", "pointed_tip", modules=M)
def pointed_tip(h):
    """flanks which meet below the tip circle (a straight stand-in here) end in a point in the tooth's middle"""
    crv, core = h.m("curve"), h.m("gggears_core")
    np = h.np
    uniform(h)
    fd, w = h.angle("fd", 0.02, 0.2), h.angle("w", 0.01, 0.25)
    p = 2 * (fd + w)
    rd = h.real("rd", 4, 30)
    u = h.array([h.real("x", 0.5, 20), rd * np.sin(fd), 0])      # from the root to the tooth's middle
    e0, e1 = h.real("e0", 0.1, 1), h.real("e1", 0.1, 1)
    D, ro = h.real("D", 0.2, 2), h.real("ro", 1, 3)
    h.assume(np.cos(fd + w) > 0.7, np.sin(fd + w) > 0.02, np.sin(fd) > 0.01, u[0] > u[1])
    a = pol(h, rd, -fd)
    D0 = 1
    b = a + (1 + D) * u
    e = h.array([0, 1, 0])

    class Circles:
        r_a_curve = crv.LineCurve(p0=b, p1=b + 4 * e)
        r_d_curve = crv.LineCurve(p0=a, p1=a + 4 * e)
        r_o_curve = crv.ArcCurve(radius=ro, angle=2 * h.pi)
        r_p_curve, r_a, r_d, r_o, r_p = None, rd + D, rd, ro, rd
    L = e0 + D0 + D + e1
    h.roots([(e0 + D0 + D) / L, 0, 0], [(e0 + D0) / L], [e0 / (e0 + D0), 0, 0])
    flank = crv.CurveChain(crv.Curve(lambda t: a + t * u, t0=-e0, t1=1 + D + e1))
    pr = core.trim_reference_profile(flank, Circles(), core.FilletParam(), p)
    f, m = pr.tooth_curve, pr.tooth_curve_mirror
    top = a + D0 * u
    h.eq("flank from the root circle", f(0), a)
    h.eq("to the point", [f(1), m(0)], [top, top])
    h.true("no tip arc", not pr.ra_curve.active)
    h.eq("other flank", m(1), pol(h, rd, fd))
    arc(h, "root arc", pr.rd_curve, rd, -fd - 2 * w, -fd - w, -fd)
    arc(h, "ring arc", pr.ro_curve, ro, -fd - 2 * w, -w, fd)


@harness("C17", "pointed_root", modules=M)
def pointed_root(h):
    """flanks of neighbouring teeth which meet above the root circle end in a point in the gap's middle"""
    crv, core = h.m("curve"), h.m("gggears_core")
    np = h.np
    uniform(h)
    fa, q = h.angle("fa", 0.01, 0.2), h.angle("q", 0.03, 0.3)
    p2 = fa + q
    ra = h.real("ra", 6, 30)
    e0, e1 = h.real("e0", 0.1, 1), h.real("e1", 0.1, 1)
    D, ro = h.real("D", 0.2, 1), h.real("ro", 1, 3)
    x, y = h.real("x", 0.5, 4), ra * np.sin(q)
    R = h.rz(-p2)
    b = pol(h, ra, -fa)
    u = R @ h.array([x, y, 0])          # from the gap's middle to the tip
    k, K = b - u, ra * np.cos(q) - x
    a = k - D * u                       # where the flank meets the root line, beyond the middle
    h.assume(K > 2, x > y, K - D * x > 1, y > 0.01, h.dot(a, a) > 1, a[0] > 0.5, a[1] < -0.01)
    h.assume(np.arctan2(a[1], a[0]) < -p2 - 0.001)
    e = R @ h.array([0, 1, 0])

    class Circles:
        r_a_curve = crv.LineCurve(p0=b, p1=b + 4 * e)
        r_d_curve = crv.LineCurve(p0=a, p1=a + 4 * e)
        r_o_curve = crv.ArcCurve(radius=ro, angle=2 * h.pi)
        r_p_curve, r_a, r_d, r_o, r_p = None, ra, ra - D, ro, ra
    l = e0 + D + 1
    foot = (e0 + D - K * x / (x * x + y * y)) / l
    h.assume(K * x / (x * x + y * y) > 0.001)
    h.minima([foot])
    h.roots([l / (l + e1), 0, 0], [e0 / l, 0, 0], [(e0 + D) / l])
    flank = crv.CurveChain(crv.Curve(lambda t: k + t * u, t0=-D - e0, t1=1 + e1))
    pr = core.trim_reference_profile(flank, Circles(), core.FilletParam(), 2 * p2)
    f, m = pr.tooth_curve, pr.tooth_curve_mirror
    h.eq("flank from the point", f(0), k)
    h.eq("to the tip", f(1), b)
    h.true("no root arc", not pr.rd_curve.active)
    h.eq("other flank", [m(0), m(1)], [pol(h, ra, fa), k * h.array([1, -1, 1])])
    arc(h, "tip arc", pr.ra_curve, ra, -fa, 0, fa)


@harness("C17", "tip_reduction", modules=M)
def tip_reduction(h):
    """flanks which would meet in a point (below or above the tip circle) are cut short of it"""
    crv, core = h.m("curve"), h.m("gggears_core")
    np = h.np
    uniform(h)
    K, g = h.real("K", 4, 30), h.angle("g", 0.2, 0.8)
    u = h.array([np.cos(g), np.sin(g), 0])
    l0, l1 = h.real("l0", 0.5, 3), h.real("l1", 0.1, 3)
    k = h.array([K, 0, 0])
    ra, rd = h.real("ra", 3, 32), h.real("rd", 1, 28)
    red = h.choice("red", [0, 1]) and h.real("redv", 0.01, 1)
    h.assume(rd < K - 0.01)
    h.roots([l0 / (l0 + l1)])
    flank = crv.CurveChain(crv.Curve(lambda t: k + t * u, t0=-l0, t1=l1))
    out = core.apply_tip_reduction(flank, ra, rd, red, core.GearPolarTransform(cone_angle=0, base_radius=h.real("rp", 3, 30)))
    lim = K - red
    h.eq("reduced tip", out, lim if lim < ra else ra)


@harness("C17", "tip_reduction_twice", modules=M)
def tip_reduction_twice(h):
    """a flank which crosses the tooth's middle twice: what counts is the lowest crossing above the root circle"""
    crv, core = h.m("curve"), h.m("gggears_core")
    low, high = h.real("low", 2, 20), h.real("high", 3, 30)
    rd, ra = h.real("rd", 1, 28), h.real("ra", 3, 40)
    below = h.bool("lower crossing below the root circle")
    h.assume(low < high - 0.1, rd < high - 0.1, low < rd - 0.1 if below else low > rd + 0.1)
    t0, t1, c = 0.5, h.real("t1", 31, 40), h.real("c", 0.1, 2)

    class Flank(crv.Curve):
        def update_lengths(self):
            self.length = 1.0
            self.t2s_lookup = {"s": h.array([0, 1]), "t": h.array([self.t_0, self.t_1])}
    flank = Flank(lambda t: h.array([t, c * (t - low) * (t - high), 0]), t0=t0, t1=t1)
    s = [(q - t0) / (t1 - t0) for q in ((low, high) if h.bool("lower first") else (high, low))]
    h.roots([s[0]], [s[1]], [s[0]], [s[1]])
    red = h.choice("red", [0, 1]) and h.real("redv", 0.01, 1)
    out = core.apply_tip_reduction(flank, ra, rd, red, core.GearPolarTransform(cone_angle=0, base_radius=h.real("rp", 3, 30)))
    lim = (high if below else low) - red
    h.eq("reduced tip", out, lim if lim < ra else ra)


@harness("C17", "conic_extensions", standins=True, modules=M)
def conic_extensions(h):
    """connectors of a conical slice join root and outer circle on the sphere of the slice"""
    core, crv = h.m("gggears_core"), h.m("curve")
    uniform(h)
    ga, rp = h.angle("ga", 0.3, 1.2), h.real("rp", 4, 30)
    sg = h.choice("cone sign", [1, -1])
    # every piece of the outline: any arc about the axis on the sphere
    R, np = rp / h.np.sin(ga), h.np
    td, to, ta = h.angle("td", 0.1, 1.5), h.angle("to", 0.1, 1.5), h.angle("ta", 0.1, 1.5)
    h.assume(td - to > 0.05, ta - td > 0.05)
    fa, v, w = h.angle("fa", 0.005, 0.2), h.angle("v", 0.01, 0.2), h.angle("w", 0.01, 0.25)
    fd = fa + v

    def at(t, f):
        return h.array([R * np.sin(t) * np.cos(f), R * np.sin(t) * np.sin(f), sg * R * (np.cos(ga) - np.cos(t))])

    def circle(t, f0, f1):
        return crv.ArcCurve(radius=R * np.sin(t), center=h.array([0, 0, sg * R * (np.cos(ga) - np.cos(t))]),
                            angle=f1 - f0, yaw=f0)
    seg = lambda a, b: crv.LineCurve(p0=a, p1=b)
    pr = core.GearRefProfile(
        ra_curve=circle(ta, -fa, fa), rd_curve=circle(td, -fd - 2 * w, -fd), ro_curve=circle(to, -fd - 2 * w, fd),
        tooth_curve=crv.CurveChain(seg(at(td, -fd), at(ta, -fa))), tooth_curve_mirror=crv.CurveChain(seg(at(ta, fa), at(td, fd))),
        pitch_angle=2 * (fd + w), transform=core.GearTransform())
    h.roots([w / (fd + w)])
    cone = core.ConicData(cone_angle=2 * sg * ga, base_radius=rp)
    apex = h.array([0, 0, sg * R * np.cos(ga)])

    def arc_between(cls, p0, p1, center=None, *a, **k):
        """stand-in for the arc between two points about a centre (C05)"""
        c = seg(p0, p1)
        c.center = center
        return c
    with patched(crv.ArcCurve, from_2_point_center=classmethod(arc_between)):
        e = core.generate_profile_extensions(pr, cone)
    for n, a in (("ro_connector_0", -fd - 2 * w), ("ro_connector_1", -fd), ("ro_connector_2", fd)):
        c = getattr(e, n)
        h.eq(n, [c(0), c(1)], [at(to, a), at(td, a)])
        h.eq(n + " on the sphere", c.center, apex)
    c = e.tooth_centerline
    h.eq("centre line", [c(1), c.center], [at(ta, 0), apex])
    h.eq("root connector", [e.rd_connector(0), e.rd_connector(1)], [at(td, -fd), at(td, fd)])
    h.eq("tip connector", [e.ra_connector(0), e.ra_connector(1)], [at(ta, fa - 2 * (fd + w)), at(ta, -fa)])
    h.eq("ring parts", [e.ro_curve_dedendum(0), e.ro_curve_dedendum(1), e.ro_curve_tooth(0), e.ro_curve_tooth(1)],
         [at(to, -fd - 2 * w), at(to, -fd), at(to, -fd), at(to, fd)])


@harness("C17", "chain_fillet", modules=M)
def chain_fillet(h):
    """rounding a corner of a chain: arc of the radius asked for, tangent to both edges, the rest unchanged"""
    crv = h.m("curve")
    np = h.np
    k, o = h.vec("k", -5, 5), h.orient("o", "z")
    a = h.angle("half", 0.15, 1.2)
    sg = h.choice("turn", [1, -1])
    rho = h.real("rho", 0.01, 1)
    l1, l2 = h.real("l1", 3, 9), h.real("l2", 3, 9)
    u1, u2 = o @ h.array([1, 0, 0]), o @ h.array([np.cos(2 * a), sg * np.sin(2 * a), 0])
    ch = crv.CurveChain(crv.LineCurve(p0=k - l1 * u1, p1=k), crv.LineCurve(p0=k, p1=k + l2 * u2))
    L, d = l1 + l2, rho * np.tan(a)
    how = h.choice("how", ["location", "index", "locations"])
    near = h.real("near", 0.9, 1.1)
    s = [(l1 - d * near) / L, (l1 + d * near) / L] if how == "locations" else [(l1 + rho) / L, (l1 - rho) / L]
    h.roots([s[0] - (l1 - d) / L, (l1 + d) / L - s[1], 0], retries=True)
    if how == "location":
        out = ch.fillet(rho, l1 / L)
    elif how == "index":
        out = ch.fillet_at_index(rho, 0)
    else:
        out = ch.fillet_at_locations(rho, s)
    cs = list(out)
    h.true("edge, arc, edge", len(cs) == 3)
    h.eq("first edge", [cs[0](0), cs[0](1)], [k - l1 * u1, k - d * u1])
    h.eq("second edge", [cs[2](0), cs[2](1)], [k + d * u2, k + l2 * u2])
    h.eq("arc ends", [cs[1](0), cs[1](1)], [k - d * u1, k + d * u2])
    ctr = k - d * u1 + rho * sg * (o @ h.array([0, 1, 0]))
    h.eq("middle", cs[1](0.5), ctr + rho * (o @ h.array([np.sin(a), -sg * np.cos(a), 0])))
    h.eq("the chain itself stays", [ch(0), ch(1)], [k - l1 * u1, k + l2 * u2])


@harness("C17", "rounded_profile", standins=True, modules=M)
def rounded_profile(h):
    """roundings asked for are made: the tip's on the tip circle, the root's on the root circle, with their radii,
    on single curves and on chains; a tip reduction lowers the tip circle first"""
    crv, core = h.m("curve"), h.m("gggears_core")
    uniform(h)
    cone = h.bool("cone")
    ga = h.angle("ga", 0.3, 1.2) if cone else 0
    rp, ha, hd = h.real("rp", 4, 30), h.real("ha", 0.1, 1), h.real("hd", 0.1, 1)
    single = h.bool("single curve")
    tip = h.choice("tip", [0, 1]) and h.real("tipr", 0.01, 1)
    root = h.choice("root", [0, 1]) and h.real("rootr", 0.01, 1)
    red = h.choice("red", [0, 1]) and h.real("redv", 0.01, 1)
    if not cone:
        rr = h.real("reduced", 4, 31)
    line = crv.LineCurve(p0=h.array([rp - hd, -1, 0]), p1=h.array([rp + ha, -0.5, 0]))

    class Flank:
        pitch_radius = rp

        def generate_tooth_curve(self):
            return line if single else crv.CurveChain(line)
    asked, got = [], {}

    def fillet(tooth_curve, pitch_angle, target_circle, fillet_radius, direction=1):
        asked.append((tooth_curve, pitch_angle, target_circle, fillet_radius, direction))
        return tooth_curve

    def trim(tooth_curve, ref_curves, fillet, pitch_angle):
        got.update(t=tooth_curve, c=ref_curves, p=pitch_angle)
        return core.GearRefProfile(ra_curve=ref_curves.r_a_curve, rd_curve=ref_curves.r_d_curve, ro_curve=ref_curves.r_o_curve,
                                   tooth_curve=tooth_curve, tooth_curve_mirror=None, pitch_angle=pitch_angle,
                                   transform=core.GearTransform())
    tr = core.GearTransformData(center=h.vec("c"), angle=h.angle("a", -3, 3))
    d = core.GearProfileDataCollector(
        tooth_generator=Flank(), cone=core.ConicData(cone_angle=2 * ga, base_radius=rp), transform=tr, pitch_angle=0.4,
        limits=core.ToothLimitParam(h_a=ha, h_d=hd, h_o=2),
        fillet=core.FilletParam(tip_fillet=tip, root_fillet=root, tip_reduction=red if not cone else 0))
    low = []
    with patched(core, apply_fillet=fillet, trim_reference_profile=trim,
                 apply_tip_reduction=lambda **k: low.append(k) or rr):
        pr = core.generate_reference_profile(d)
    h.assume(bool(got))
    h.eq("place", list(pr.transform.center) + [pr.transform.angle], list(tr.center) + [tr.angle])
    lowered = not cone and not (isinstance(red, int) and red == 0)
    h.true("lowered when asked", len(low) == (1 if lowered else 0))
    if lowered:
        h.eq("lowered from the tip circle by this much", [low[0]["addendum_height"], low[0]["dedendum_height"], low[0]["tip_reduction"]],
             [rp + ha, rp - hd, red])
    if cone:
        R = rp / h.np.sin(ga)
        ra, rd = R * h.np.sin(ga + ha / R), R * h.np.sin(ga - hd / R)
    else:
        ra, rd = rr if lowered else rp + ha, rp - hd
    h.eq("circles", [pr.ra_curve.radius, pr.rd_curve.radius], [ra, rd])
    want = [x for x in ((-1, tip, ra), (1, root, rd)) if not (isinstance(x[1], int) and x[1] == 0)]
    h.true("roundings", [x[4] for x in asked] == [x[0] for x in want])
    for (t, p, k, r, _), (_, rho, rad) in zip(asked, want):
        h.true("on a chain", isinstance(t, crv.CurveChain))
        h.eq("rounding", [k.radius, r, p], [rad, rho, 0.4])
    h.eq("flank", [got["t"](0), got["t"](1)], [line(0), line(1)])
