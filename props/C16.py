"""C16 line of action"""
from symgg.harness import harness
from props.gearlib import *
M = ["gggears_wrapper"]


def tangent(h, label, line, c, rb, n):
    """the line touches the circle around c in the plane with normal n"""
    p, q = line(0), line(1)
    d = q - p
    h.eq(label + " in plane", [h.dot(d, n), h.dot(p - c, n)], [0, 0])
    x = h.cross(p - c, d)
    h.eq(label + " touches", h.norm2(x), rb * rb * h.norm2(d))


@harness("C16", "external", modules=M)
def external(h):
    """each of the two lines joins its points of contact with the base circles"""
    uniform(h)
    w = h.m("gggears_wrapper")
    al, ta = pressure(h)
    aw = h.angle("aw", 0.2, 0.6)
    m = h.real("m", 0.5, 3)
    z1, z2 = h.int("z1", 6, 50), h.int("z2", 6, 50)
    involute_roots(h, al, ta)
    H, za = h.real("H", 0.5, 5), h.real("anchor", 0, 1)
    kw = dict(module=m, pressure_angle=al, height=H, z_anchor=za)
    g1, g2 = w.SpurGear(z1, **kw), w.SpurGear(z2, **kw)
    place(h, g1, "1", h.choice("axes", ["z", "zx"]))
    o = g1.gearcore.transform.orientation
    g2.gearcore.transform.orientation = o
    rb1, rb2 = m * z1 / 2 * h.np.cos(al), m * z2 / 2 * h.np.cos(al)
    tau = h.angle("tau", -3, 3)
    e = o @ h.array([h.np.cos(tau), h.np.sin(tau), 0])
    g2.gearcore.transform.center = g1.center + e * ((rb1 + rb2) / h.np.cos(aw))
    zr = h.real("zr", 0, 1)
    l1, l2 = w.LineOfAction(g1, g2, zr).LOA_gen()
    n = o @ h.array([0, 0, 1])
    up = n * (H * (zr - za))
    c1, c2 = g1.center + up, g2.center + up
    for i, l in enumerate((l1, l2)):
        tangent(h, f"line {i} first gear", l, c1, rb1, n)
        tangent(h, f"line {i} second gear", l, c2, rb2, n)
        h.eq(f"line {i} starts on first base circle", h.norm2(l(0) - c1), rb1 * rb1)
        h.eq(f"line {i} ends on second base circle", h.norm2(l(1) - c2), rb2 * rb2)
        # crosses the centre line between the gears
        t = h.cross(n, e)
        h.true(f"line {i} crosses", h.dot(l(0) - c1, t) * h.dot(l(1) - c1, t) < 0)
    t = h.cross(n, e)
    h.true("different sides", h.dot(l1(0) - c1, t) * h.dot(l2(0) - c1, t) < 0)


@harness("C16", "ring", modules=M)
def ring(h):
    """inside a ring: lines touching both base circles, from the pinion's base circle to its tip circle"""
    uniform(h)
    w = h.m("gggears_wrapper")
    al, ta = pressure(h)
    aw = h.angle("aw", 0.2, 0.6)
    m = h.real("m", 0.5, 3)
    zr_, zp = h.int("zr", 40, 90), h.int("zp", 8, 30)
    involute_roots(h, al, ta)
    H = h.real("H", 0.5, 5)
    kw = dict(module=m, pressure_angle=al, height=H)
    gr, gp = w.SpurRingGear(zr_, **kw), w.SpurGear(zp, **kw)
    first = h.bool("ring first")
    place(h, gr, "1", h.choice("axes", ["z", "zx"]))
    o = gr.gearcore.transform.orientation
    gp.gearcore.transform.orientation = o
    ca = h.np.cos(al)
    rr, rp = m * zr_ / 2 * ca, m * zp / 2 * ca
    ra = rp * h.real("tip", 1.05, 1.6)
    gp.__class__ = type("Pinion", (w.SpurGear,), {"addendum_radius": property(lambda s: ra)})
    tau = h.angle("tau", -3, 3)
    e = o @ h.array([h.np.cos(tau), h.np.sin(tau), 0])
    gp.gearcore.transform.center = gr.center + e * ((rr - rp) / h.np.cos(aw))
    zr = h.real("zratio", 0, 1)
    lines = w.LineOfAction(*((gr, gp) if first else (gp, gr)), zr).LOA_gen()
    n = o @ h.array([0, 0, 1])
    up = n * (H * zr)
    c, cr = gp.center + up, gr.center + up
    for i, l in enumerate(lines):
        tangent(h, f"line {i} pinion", l, c, rp, n)
        tangent(h, f"line {i} ring", l, cr, rr, n)
        h.eq(f"line {i} starts on the pinion's base circle", h.norm2(l(0) - c), rp * rp)
        h.eq(f"line {i} ends on the pinion's tip circle", h.norm2(l(1) - c), ra * ra)
        # contact is on the side away from the ring's own point of contact
        h.true(f"line {i} leads away from the ring centre", h.dot(l(1) - l(0), e) > 0)
    t = h.cross(n, e)
    h.true("different sides", h.dot(lines[0](0) - c, t) * h.dot(lines[1](0) - c, t) < 0)
