"""C02 - polar coordinate conversions are mutually inverse and geometrically exact."""
from symgg.harness import harness

M = ["function_generators", "gggears_core"]
A = (-3.1, 3.1)


@harness("C02", "cyl_forward", modules=M)
def cyl_forward(h):
    f = h.m("function_generators")
    v, c = h.vec("v"), h.vec("c")
    d = v - c
    h.assume(d[0] * d[0] + d[1] * d[1] > 0.01)
    r = f.xyz_to_cylindrical(v, center=c)
    h.same_shape("shape", r, v)
    h.eq("radius", r[0] * r[0], d[0] * d[0] + d[1] * d[1])
    h.le("radius>=0", 0, r[0])
    h.eq("azimuth", [r[0] * h.np.cos(r[1]), r[0] * h.np.sin(r[1])], [d[0], d[1]])
    h.eq("height", r[2], d[2])
    h.le("azimuth<=pi", r[1], h.pi)
    h.le("azimuth>=-pi", -h.pi, r[1])
    h.eq("back", f.cylindrical_to_xyz(r, center=c), v)


@harness("C02", "cyl_default_center", modules=M)
def cyl_default(h):
    f = h.m("function_generators")
    v = h.vec("v")
    h.assume(v[0] * v[0] + v[1] * v[1] > 0.01)
    r = f.xyz_to_cylindrical(v)
    h.eq("fwd", r, f.xyz_to_cylindrical(v, center=h.array([0, 0, 0])))
    h.eq("back", f.cylindrical_to_xyz(r), v)


@harness("C02", "cyl_backward", modules=M)
def cyl_backward(h):
    f = h.m("function_generators")
    c = h.vec("c")
    r, phi, z = h.real("r", 0.01, 10), h.angle("phi", *A), h.real("z", -10, 10)
    p = f.cylindrical_to_xyz(h.array([r, phi, z]), center=c)
    h.eq("point", p, [c[0] + r * h.np.cos(phi), c[1] + r * h.np.sin(phi), c[2] + z])
    q = f.xyz_to_cylindrical(p, center=c)
    h.eq("roundtrip", q, [r, phi, z])


@harness("C02", "sph_forward", modules=M)
def sph_forward(h):
    f = h.m("function_generators")
    v, c = h.vec("v"), h.vec("c")
    d = v - c
    h.assume(d[0] * d[0] + d[1] * d[1] > 0.01)
    r = f.xyz_to_spherical(v, center=c)
    h.same_shape("shape", r, v)
    h.eq("radius", r[0] * r[0], h.norm2(d))
    h.le("radius>=0", 0, r[0])
    h.eq("polar", r[0] * h.np.cos(r[2]), d[2])
    h.le("polar>=0", 0, r[2])
    h.le("polar<=pi", r[2], h.pi)
    h.eq("azimuth", d[0] * h.np.sin(r[1]), d[1] * h.np.cos(r[1]))
    h.le("azimuth side", 0, d[0] * h.np.cos(r[1]) + d[1] * h.np.sin(r[1]))
    h.eq("back", f.spherical_to_xyz(r, center=c), v)


@harness("C02", "sph_backward", modules=M)
def sph_backward(h):
    f = h.m("function_generators")
    c = h.vec("c")
    r, phi, th = h.real("r", 0.01, 10), h.angle("phi", *A), h.angle("th", 0.01, 3.13)
    p = f.spherical_to_xyz(h.array([r, phi, th]), center=c)
    s = h.np.sin(th)
    h.eq("point", p, [c[0] + r * s * h.np.cos(phi), c[1] + r * s * h.np.sin(phi), c[2] + r * h.np.cos(th)])
    q = f.xyz_to_spherical(p, center=c)
    h.eq("roundtrip", q, [r, phi, th])


@harness("C02", "batch", modules=M)
def batch(h):
    f = h.m("function_generators")
    c = h.vec("c")
    a = h.array([h.real("a0", 0.1, 5), h.angle("a1", *A), h.real("a2", -5, 5)])
    b = h.array([h.real("b0", 0.1, 5), h.angle("b1", *A), h.real("b2", -5, 5)])
    s = h.array([h.real("s0", 0.1, 5), h.angle("s1", *A), h.angle("s2", 0.1, 3)])
    t = h.array([h.real("t0", 0.1, 5), h.angle("t1", *A), h.angle("t2", 0.1, 3)])
    both = f.cylindrical_to_xyz(h.array([a, b]), center=c)
    h.eq("c2x", both, [f.cylindrical_to_xyz(a, center=c), f.cylindrical_to_xyz(b, center=c)])
    h.eq("x2c", f.xyz_to_cylindrical(both, center=c), [a, b])
    both = f.spherical_to_xyz(h.array([s, t]), center=c)
    h.eq("s2x", both, [f.spherical_to_xyz(s, center=c), f.spherical_to_xyz(t, center=c)])
    h.eq("x2s", f.xyz_to_spherical(both, center=c), [s, t])


def polar(h, conic):
    core = h.m("gggears_core")
    if not conic:
        return core.GearPolarTransform(cone_angle=0, base_radius=h.real("rb", 0.1, 20)), 0
    g = h.angle("gamma", 0.05, 1.5)
    if h.bool("neg"):
        g = -g
    return core.GearPolarTransform(cone_angle=2 * g, base_radius=h.real("rb", 0.1, 20)), g


@harness("C02", "gear_polar_cyl", modules=M)
def gp_cyl(h):
    g, _ = polar(h, False)
    p = h.vec("p")
    h.assume(p[0] * p[0] + p[1] * p[1] > 0.01)
    q = g(p)
    h.eq("r", q[0] * q[0], p[0] * p[0] + p[1] * p[1])
    h.eq("phi", [q[0] * h.np.cos(q[1]), q[0] * h.np.sin(q[1])], p[:2])
    h.eq("z", q[2], p[2])
    h.eq("inv", g.inv(q), p)


@harness("C02", "gear_polar_cone_inv", modules=M)
def gp_cone(h):
    """quasi-polar point -> space -> quasi-polar, both cone directions"""
    g, gam = polar(h, True)
    R = g.R
    lat = h.angle("lat", -1.5, 1.5)          # quasi radius / R: latitude on the sphere
    phi = h.angle("phi", *A)
    k = h.real("k", 0.05, 3)                  # sphere radius ratio
    q = h.array([lat * R, phi, R - k * R])
    p = g.inv(q)
    # the point lies on the sphere around the apex, at the stated latitude/azimuth
    apex = h.array([0, 0, g.base_radius / h.np.tan(gam)])
    d = p - apex
    h.eq("sphere", h.norm2(d), k * k * R * R)
    sgn = h.np.sign(gam)
    h.eq("lat", d[2] * sgn, k * R * h.np.sin(lat))
    h.eq("azimuth", [d[0], d[1]], [k * R * h.np.cos(lat) * h.np.cos(phi), k * R * h.np.cos(lat) * h.np.sin(phi)])
    h.eq("roundtrip", g(p), q)


@harness("C02", "gear_polar_cone_fwd", modules=M)
def gp_cone_fwd(h):
    """space -> quasi-polar: pitch circle maps to a constant, height 0"""
    g, gam = polar(h, True)
    phi = h.angle("phi", *A)
    p = h.array([g.base_radius * h.np.cos(phi), g.base_radius * h.np.sin(phi), 0])
    q = g(p)
    # pitch circle: on the reference sphere
    h.eq("height", q[2], 0)
    h.angle_eq("azimuth", q[1], phi)
    h.eq("back", g.inv(q), p)


@harness("C02", "gear_polar_batch", modules=M)
def gp_batch(h):
    g, gam = polar(h, True)
    R = g.R
    a = h.array([h.angle("l1", -1.5, 1.5) * R, h.angle("p1", *A), R - R * h.real("k1", 0.1, 3)])
    b = h.array([h.angle("l2", -1.5, 1.5) * R, h.angle("p2", *A), R - R * h.real("k2", 0.1, 3)])
    P = g.inv(h.array([a, b]))
    h.eq("inv", P, [g.inv(a), g.inv(b)])
    h.eq("fwd", g(P), [g(P[0]), g(P[1])])


@harness("C02", "cone_data", modules=M)
def cone_data(h):
    """cone measures describe one cone, in any placement"""
    b = h.m("gggears_base_classes")
    gam = h.angle("gamma", 0.05, 1.5)
    if h.bool("neg"):
        gam = -gam
    rb, s = h.real("rb", 0.1, 20), h.real("s", 0.1, 10)
    t = b.Transform(center=h.vec("c"), orientation=h.orient("o"), scale=s)
    c = b.ConicData(cone_angle=2 * gam, base_radius=rb, transform=t)
    z = t.orientation[:, 2]
    h.eq("gamma", c.gamma, gam)
    h.eq("base", c.center_base, t.center)
    h.eq("tip", c.center - t.center, z * c.height)
    h.eq("height", c.height * h.np.sin(gam), rb * s * h.np.cos(gam))
    h.eq("R^2", c.R * c.R, c.height * c.height + rb * rb * s * s)
    h.le("R>0", 0, c.R)
    h.eq("r", c.r, rb)
