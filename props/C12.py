"""C12 racks: tooth shape, placement, meshing with gears"""
from symgg.harness import harness
from props.gearlib import *
M = ["gggears_wrapper"]


def build(h, n, helical=False, herring=False):
    """a rack with free dimensions, and its transverse quantities in modules"""
    w = h.m("gggears_wrapper")
    al = h.angle("al", 0.2, 0.5)
    kw = dict(number_of_teeth=n, height=h.real("H", 1, 6), module=h.real("m", 0.5, 3),
              addendum_coefficient=h.real("ha", 0.6, 1.2), dedendum_coefficient=h.real("hd", 0.8, 1.4),
              backlash=h.real("b", 0, 0.1), pressure_angle=al)
    ta, cb, tb = h.np.tan(al), 1, 0
    if helical:
        be = h.angle("be", -0.6, 0.6)
        cb, tb = h.np.cos(be), h.np.tan(be)
        kw["helix_angle"] = be
        if herring:
            kw["herringbone"] = True
        r = w.HelicalRack(**kw)
    else:
        r = w.InvoluteRack(**kw)
    m = kw["module"] / cb
    # heights as given, flank angle in the transverse plane
    return r, dict(m=m, H=kw["height"], ha=kw["addendum_coefficient"] * cb, hd=kw["dedendum_coefficient"] * cb,
                   b=kw["backlash"], ta=ta / cb, tb=tb, n=n)


def corners(h, q):
    """profile corners of all teeth (module 1, rack line on Y, a tooth at the origin)"""
    n, out = q["n"], []
    for k in range(n):
        y = h.pi * (k - (n - 1) / 2) + (h.pi / 2 if n % 2 == 0 else 0)
        for s in (-1, 1):
            wa = h.pi / 4 - q["ta"] * q["ha"] - q["b"]
            wd = h.pi / 4 + q["ta"] * q["hd"] - q["b"]
            out += [(f"tip {k} {s}", [q["ha"], y + s * wa]), (f"root {k} {s}", [-q["hd"], y + s * wd])]
    y0 = -h.pi * n / 2 + (h.pi / 2 if n % 2 == 0 else 0)
    for s in (0, 1):
        out.append((f"back {s}", [-q["hd"] - 1, y0 + h.pi * n * s]))
    return out


def check(h, r, q, part, herring=False):
    """every corner of the prism is in its place, at both ends; nothing sticks out"""
    vs = [[c for c in v] for v in part.vertices()]
    o, pos = r.orientation, r.position
    m, H = q["m"], q["H"]

    def world(x, y, z):
        return pos + o @ h.array([x, y, z])
    ends = [(0, 0), (H, 0 if herring else -H * q["tb"])]
    if herring:
        ends.append((H / 2, -H / 2 * q["tb"]))
    for lab, (x, y) in corners(h, q):
        for z, dy in ends:
            t = world(x * m, (y + r.offset * h.pi) * m + dy, z)
            h.eq(f"{lab} at {'bottom' if z is ends[0][0] else 'top' if z is H else 'middle'}", vs[h.pick(t, vs)], t)
    # the extremes along the rack are the last back corners
    for s, far in ((0, -1000), (1, 1000)):
        x, y = corners(h, q)[-2 + s][1]
        t = world(x * m, (y + r.offset * h.pi) * m, 0)
        f = world(x * m, h.real(f"far{s}", far, far), 0)
        # allow for the slant: compare the distance across the teeth only
        v = vs[h.pick(f, vs)]
        d = (o @ h.array([0, 1, 0]))
        low = h.dot(h.array(v) - t, d)
        h.true(f"end {s}", (low < 1e-6 + abs(H * q["tb"])) if s else (low > -1e-6 - abs(H * q["tb"])))


@harness("C12", "rack_shape", modules=M)
def rack_shape(h):
    """trapezoid teeth of the stated angle, heights, pitch and width, over the stated height, anywhere"""
    n = h.choice("teeth", [2, 3])
    r, q = build(h, n)
    r.position, r.orientation, r.offset = h.vec("c"), h.orient("o", "zx"), h.real("off", -2, 2)
    check(h, r, q, r.build_part())


@harness("C12", "helical_rack_shape", modules=M)
def helical_rack_shape(h):
    """slanted and herringbone racks: transverse shape, slant of the helix"""
    hb = h.bool("herringbone")
    r, q = build(h, 2, True, hb)
    r.position, r.offset = h.vec("c"), h.real("off", -2, 2)
    check(h, r, q, r.build_part(), hb)


@harness("C12", "meshing", modules=M)
def meshing(h):
    """rack line touches the (shifted) pitch circle, teeth point at the gear, rack teeth in gear gaps, only the rack moves"""
    uniform(h)
    w = h.m("gggears_wrapper")
    hel = h.bool("helical")
    n = h.int("z", 6, 60)
    m, x = h.real("m", 0.5, 3), h.real("x", -0.5, 0.5)
    if hel:
        be = h.angle("be", -0.6, 0.6)
        g = w.HelicalGear(n, module=m, profile_shift=x, helix_angle=be)
        r = w.HelicalRack(8, module=m, helix_angle=be)
        mt = m / h.np.cos(be)
    else:
        g = w.SpurGear(n, module=m, profile_shift=x)
        r = w.InvoluteRack(8, module=m)
        mt = m
    place(h, g, "g", "zx")
    o = g.gearcore.transform.orientation
    c, a = g.center, g.angle
    tau = h.angle("tau", -3, 3)
    L, off = h.real("L", 0.2, 5), h.real("off", -5, 5)
    up = h.real("up", -2, 2)
    t = o @ h.array([h.np.cos(tau), h.np.sin(tau), up])
    r.mesh_to(g, target_dir=t * L, offset=off)
    e = o @ h.array([h.np.cos(tau), h.np.sin(tau), 0])
    tan = o @ h.array([-h.np.sin(tau), h.np.cos(tau), 0])
    h.eq("place", r.position, c + e * (n * mt / 2 + x * m))
    R = r.orientation
    h.eq("teeth towards the gear", [R[i, 0] for i in range(3)], -e)
    h.eq("along the pitch line", [R[i, 1] for i in range(3)], -tan)
    h.eq("height along the axis", [R[i, 2] for i in range(3)], [o[i, 2] for i in range(3)])
    h.eq("gear stays", h.flat(g.center) + [g.angle], h.flat(c) + [a])
    # gear angle of the rack tooth at `offset`, in pitches: half a pitch off a gear tooth
    ph = (tau - a) * n / (2 * h.pi) - (r.offset - off)
    k = ph - 0.5
    h.true("rack tooth in a gap", integer(h, k))
    d = r.offset - off
    h.true("reference tooth next to the centre line", (d >= -0.5 - 1e-9) & (d <= 0.5 + 1e-9) if h.symbolic()
           else abs(d) <= 0.5 + 1e-9)


def integer(h, k):
    if not h.symbolic():
        return abs(k - round(k)) < 1e-6
    return h.np.cos(2 * h.pi * k) == 1


@harness("C12", "reference_lines", modules=["gggears_core"])
def reference_lines(h):
    """reference lines of a rack: parallel to the pitch line at the heights of the tooth"""
    core, b = h.m("gggears_core"), h.m("gggears_base_classes")
    ha, hd, ho = h.real("ha", 0, 2), h.real("hd", 0, 2), h.real("ho", 0, 3)
    L = core.generate_reference_lines(b.ToothLimitParam(h_a=ha, h_d=hd, h_o=ho))
    s, t = h.real("s", 0, 0.4), h.real("t", 0.6, 1)
    for n, x in (("a_line", ha), ("d_line", -hd), ("o_line", -ho), ("p_line", 0)):
        p, q = getattr(L, n)(s), getattr(L, n)(t)
        h.eq(n, [p[0], p[2], q[0], q[2]], [x, 0, x, 0])
        h.true(n + " runs along the rack", p[1] - q[1] > 0.1)
