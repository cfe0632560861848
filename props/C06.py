"""C06 - tooth-flank generating curves satisfy their defining geometry."""
from symgg.harness import harness
from props.gearlib import uniform

M = ["function_generators", "curve"]


def axes(h, a):
    """radial and tangential unit vectors at polar angle a"""
    c, s = h.np.cos(a), h.np.sin(a)
    return h.array([c, s, 0]), h.array([-s, c, 0])


Z = (0, 0, 1)


def zv(h, z):
    return h.array([0, 0, z])


@harness("C06", "involute", modules=M)
def involute(h):
    """end of a string unwound from the base circle by the arc r*t"""
    fg = h.m("function_generators")
    r, t = h.real("r", 0.1, 50), h.angle("t", -3, 3)
    a, z = h.angle("a", -3, 3), h.real("z", -5, 5)
    p = fg.involute_circle(t, r=r, angle=a, z_offs=z)
    rad, tan = axes(h, t + a)
    h.eq("string", p, rad * r - tan * (r * t) + zv(h, z))
    h.eq("start", fg.involute_circle(0, r=r, angle=a, z_offs=z), axes(h, a)[0] * r + zv(h, z))
    o = h.vec("o", -2, 2)
    q = fg.involute_circle(t, r=r, angle=a, v_offs=o, z_offs=z)
    h.eq("trochoid offset", q - p, rad * o[0] + tan * o[1] + zv(h, o[2]))


def sphere(h, sg):
    """(R, C, r, centre height) of a base circle of cone angle gam on a sphere"""
    gam = h.angle("gam", 0.05, 1.5)
    R = h.real("R", 0.5, 60)
    r = R * h.np.sin(gam)
    return R, sg / R, r, R * h.np.cos(gam) * sg


@harness("C06", "spherical_involute", modules=M)
def sph_involute(h):
    """end of a great-circle arc of length r*t tangent to the base circle, on the sphere"""
    fg = h.m("function_generators")
    np = h.np
    sg = h.choice("side", [1, -1])
    R, C, r, zc = sphere(h, sg)
    t, a, z = h.angle("t", -3, 3), h.angle("a", -3, 3), h.real("z", -5, 5)
    p = fg.involute_sphere(t, r=r, C=C, angle=a, z_offs=z)
    rad, tan = axes(h, t + a)
    c = zv(h, zc + z)
    T = rad * r + zv(h, z)
    h.eq("radius", h.norm2(p - c), R * R)
    h.eq("arc", p - c, (T - c) * np.cos(r * t / R) - tan * (R * np.sin(r * t / R)))
    h.eq("start", fg.involute_sphere(0, r=r, C=C, angle=a, z_offs=z), axes(h, a)[0] * r + zv(h, z))


@harness("C06", "spherical_involute_offset", modules=M)
def sph_involute_offs(h):
    """the trochoid offset is carried rigidly by the rolling tangent plane"""
    fg = h.m("function_generators")
    sg = h.choice("side", [1, -1])
    R, C, r, zc = sphere(h, sg)
    t, a = h.angle("t", -3, 3), h.angle("a", -3, 3)
    o = h.vec("o", -2, 2)
    p = fg.involute_sphere(t, r=r, C=C, angle=a)
    q = fg.involute_sphere(t, r=r, C=C, angle=a, v_offs=o)
    h.eq("rigid", h.norm2(q - p), h.norm2(o))
    c = zv(h, zc)
    rad, tan = axes(h, t + a)
    nrm = h.cross(tan, rad * r - c) / R                  # normal of the great circle's plane
    k = p - c
    h.eq("height", h.dot(k, q - p), -o[2] * R * sg)
    h.eq("radial", h.dot(nrm, q - p), -o[0] * sg)


@harness("C06", "flat_limit", modules=M)
def flat(h):
    """zero curvature gives the planar curves"""
    fg = h.m("function_generators")
    r, t = h.real("r", 0.1, 50), h.angle("t", -3, 3)
    a, z, o = h.angle("a", -3, 3), h.real("z", -5, 5), h.vec("o", -2, 2)
    h.eq("involute", fg.involute_sphere(t, r=r, C=0, angle=a, v_offs=o, z_offs=z),
         fg.involute_circle(t, r=r, angle=a, v_offs=o, z_offs=z))
    rc = h.real("rc", 0.1, 5)
    h.eq("cycloid", fg.cycloid_cone(t, rb=r, rc=rc, C=0, angle=a, v_offs=o, z_offs=z),
         fg.cycloid_circle(t, rb=r, rc=rc, angle=a, v_offs=o, z_offs=z))


@harness("C06", "cycloid", modules=M)
def cycloid(h):
    """fixed point of a circle rolling without slip on (outside/inside of) the base circle"""
    fg = h.m("function_generators")
    np = h.np
    rb = h.real("rb", 1, 50)
    rc = h.real("rc", 0.1, 0.9) * rb * h.choice("side", [1, -1])
    t, a, z = h.angle("t", -3, 3), h.angle("a", -3, 3), h.real("z", -5, 5)
    p = fg.cycloid_circle(t, rb=rb, rc=rc, angle=a, z_offs=z)
    rad, tan = axes(h, t + a)
    cen = rad * (rb + rc) + zv(h, z)
    roll = rb * t / rc                       # equal arcs: rc*roll == rb*t
    h.eq("on circle", h.norm2(p - cen), rc * rc)
    h.eq("no slip", p - cen, (rad * np.cos(roll) + tan * np.sin(roll)) * (-rc))
    h.eq("start", fg.cycloid_circle(0, rb=rb, rc=rc, angle=a, z_offs=z), axes(h, a)[0] * rb + zv(h, z))
    o = h.vec("o", -2, 2)
    q = fg.cycloid_circle(t, rb=rb, rc=rc, angle=a, v_offs=o, z_offs=z)
    h.eq("carried", [h.norm2(q - cen), q[2]], [(o[0] - rc) * (o[0] - rc) + o[1] * o[1] + o[2] * o[2], z + o[2]])


@harness("C06", "conic_cycloid", modules=M)
def cycloid_cone(h):
    """circle rolling on the base circle along the sphere: on the sphere, no slip"""
    fg = h.m("function_generators")
    np = h.np
    sg = h.choice("side", [1, -1])
    R, C, rb, zc = sphere(h, sg)
    g2 = h.angle("g2", 0.03, 0.7) if h.bool("outer") else h.angle("g2n", -0.7, -0.03)
    rc = R * np.sin(g2)
    t, a, z = h.angle("t", -3, 3), h.angle("a", -3, 3), h.real("z", -5, 5)
    p = fg.cycloid_cone(t, rb=rb, rc=rc, C=C, angle=a, z_offs=z)
    rad, tan = axes(h, t + a)
    c = zv(h, zc + z)
    K = rad * rb + zv(h, z)                  # contact point
    h.eq("on sphere", h.norm2(p - c), R * R)
    # rolling circle: contains K and p, tangent to the base circle there
    gam = h.c.inputs["gam"] if h.symbolic() else h.inputs["gam"]
    ax = zv(h, sg * np.cos(gam + g2)) - rad * np.sin(gam + g2)
    h.eq("same cone", h.dot(p - c, ax), h.dot(K - c, ax))
    roll = rb * t / rc
    out = h.cross(tan, ax) * sg              # in the circle's plane, away from the base circle
    cen = K + out * rc
    h.eq("no slip", p - cen, (out * np.cos(roll) + tan * np.sin(roll)) * (-rc))
    h.eq("start", fg.cycloid_cone(0, rb=rb, rc=rc, C=C, angle=a, z_offs=z), axes(h, a)[0] * rb + zv(h, z))


@harness("C06", "octoid", modules=M)
def octoid(h):
    """conjugate to the flat flank of the crown gear rolling on the pitch cone"""
    fg = h.m("function_generators")
    np = h.np
    R, C, r, zc = sphere(h, 1)
    al = h.angle("al", 0.1, 0.7)
    t, a, z = h.angle("t", -1.5, 1.5), h.angle("a", -3, 3), h.real("z", -5, 5)
    gam = h.c.inputs["gam"] if h.symbolic() else h.inputs["gam"]
    p = fg.octoid(t, base_rad=r, sphere_rad=R, alpha=al, angle=a, z_offs=z)
    c = zv(h, zc + z)
    rad, tan = axes(h, t + a)
    u = rad * np.sin(gam) - zv(h, np.cos(gam))      # pitch line (instantaneous axis)
    w = rad * np.cos(gam) + zv(h, np.sin(gam))      # axis of the crown gear
    psi = t * np.sin(gam)                           # its roll angle
    e = u * np.cos(psi) - tan * np.sin(psi)
    f = u * np.sin(psi) + tan * np.cos(psi)
    n = h.cross(e, w * np.cos(al) + f * np.sin(al))
    k = p - c
    h.eq("on sphere", h.norm2(k), R * R)
    h.eq("on flank plane", h.dot(n, k), 0)
    h.eq("contact condition", h.dot(n, h.cross(u, k)), 0)
    h.eq("start", fg.octoid(0, base_rad=r, sphere_rad=R, alpha=al, angle=a, z_offs=z),
         axes(h, a)[0] * r + zv(h, z))


@harness("C06", "curve_classes", modules=M)
def classes(h):
    """the curve objects evaluate the generating functions with all of their parameters"""
    crv, fg = h.m("curve"), h.m("function_generators")
    r, t = h.real("r", 0.1, 50), h.angle("t", -3, 3)
    a, z, o = h.angle("a", -3, 3), h.real("z", -5, 5), h.vec("o", -2, 2)
    c = crv.InvoluteCurve(r=r, angle=a, v_offs=o, z_offs=z, active=False)
    h.eq("involute", c.function(t), fg.involute_circle(t, r=r, angle=a, v_offs=o, z_offs=z))
    rc = h.real("rc", 0.1, 5)
    c = crv.CycloidCurve(rb=r, rc=rc, angle=a, v_offs=o, z_offs=z, active=False)
    h.eq("cycloid", c.function(t), fg.cycloid_circle(t, rb=r, rc=rc, angle=a, v_offs=o, z_offs=z))
    h.eq("base", [crv.InvoluteCurve(r=r, active=False).base_radius], [r])


@harness("C06", "curve_classes_sphere", modules=M)
def classes_sph(h):
    crv, fg = h.m("curve"), h.m("function_generators")
    sg = h.choice("side", [1, -1])
    R, C, r, zc = sphere(h, sg)
    t, a, z = h.angle("t", -3, 3), h.angle("a", -3, 3), h.real("z", -5, 5)
    o = h.vec("o", -2, 2)
    kind = h.choice("kind", ["inv", "cyc", "oct"])
    if kind == "inv":
        c = crv.SphericalInvoluteCurve(r=r, c_sphere=C, angle=a, v_offs=o, z_offs=z, active=False)
        h.eq("point", c.function(t), fg.involute_sphere(t, r=r, C=C, angle=a, v_offs=o, z_offs=z))
        h.eq("centre", c.center_sphere, zv(h, zc + z))
    elif kind == "cyc":
        rc = R * h.np.sin(h.angle("g2", 0.03, 0.7))
        c = crv.CycloidConicCurve(rb=r, rc=rc, C=C, angle=a, v_offs=o, z_offs=z, active=False)
        h.eq("point", c.function(t), fg.cycloid_cone(t, rb=r, rc=rc, C=C, angle=a, v_offs=o, z_offs=z))
    else:
        al = h.angle("al", 0.1, 0.7)
        c = crv.OctoidCurve(r=r, c_sphere=1 / R, angle=a, alpha=al, z_offs=z, active=False)
        h.eq("point", c.function(t), fg.octoid(t, base_rad=r, sphere_rad=R, alpha=al, angle=a, z_offs=z))
        h.eq("centre", c.center_sphere, zv(h, abs(zc) + z))


@harness("C06", "defaults", modules=M)
def defaults(h):
    """curves are active unless told otherwise, and keep what they were told"""
    crv = h.m("curve")
    uniform(h)
    act = h.choice("active", [None, True, False])
    kw = {} if act is None else dict(active=act)
    r = h.real("r", 1, 5)
    for c in (crv.InvoluteCurve(r=r, **kw), crv.SphericalInvoluteCurve(r=r, c_sphere=0.1, **kw),
              crv.CycloidCurve(rb=r, rc=r / 4, **kw), crv.CycloidConicCurve(rb=r, rc=r / 4, C=0.1, **kw),
              crv.OctoidCurve(r=r, c_sphere=0.1, **kw)):
        h.true(type(c).__name__, bool(c.active) == (act is not False))
