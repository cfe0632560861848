"""C05 - elementary curves: lines, arcs and mirrored/rotated/transformed copies."""
from symgg.harness import harness

M = ["curve"]


def rot(h, axis, ang):
    """rotation matrix about a unit axis (written independently)"""
    c, s = h.np.cos(ang), h.np.sin(ang)
    x, y, z = axis
    return h.array([[c + x * x * (1 - c), x * y * (1 - c) - z * s, x * z * (1 - c) + y * s],
                    [y * x * (1 - c) + z * s, c + y * y * (1 - c), y * z * (1 - c) - x * s],
                    [z * x * (1 - c) - y * s, z * y * (1 - c) + x * s, c + z * z * (1 - c)]])


def mul(h, R, v):
    return h.array([h.dot(R[i], v) for i in range(3)])


def uvec(h, n):
    """arbitrary unit vector (spherical angles)"""
    a, b = h.angle(n + "az", -3.1, 3.1), h.angle(n + "el", 0.05, 3.09)
    np = h.np
    return h.array([np.sin(b) * np.cos(a), np.sin(b) * np.sin(a), np.cos(b)])


@harness("C05", "line", modules=M)
def line(h):
    crv = h.m("curve")
    p, q = h.vec("p", -5, 5), h.vec("q", -5, 5)
    s = h.real("s", -1, 2)
    c = crv.LineCurve(p, q)
    h.eq("point", c(s), p + (q - p) * s)
    h.eq("length", c.length * c.length, h.norm2(q - p))
    h.le("length >= 0", 0, c.length)
    h.le("positive", 0, c.length)
    h.eq("array", c(h.array([0, s, 1])), [p, p + (q - p) * s, q])


@harness("C05", "line_trim_reverse", modules=M)
def line_trim(h):
    crv = h.m("curve")
    p, q = h.vec("p", -5, 5), h.vec("q", -5, 5)
    a, b = h.real("a", 0, 0.45), h.real("b", 0.5, 1)
    P = lambda x: p + (q - p) * x
    c = crv.LineCurve(p, q)
    op = h.choice("op", ["both", "start", "end", "rev", "rev_both", "both_rev"])
    if op == "both":
        c.set_start_and_end_on(a, b)
        lo, hi = a, b
    elif op == "start":
        c.set_start_on(a)
        lo, hi = a, 1
    elif op == "end":
        c.set_end_on(b)
        lo, hi = 0, b
    elif op == "rev":
        c.reverse()
        lo, hi = 1, 0
    elif op == "rev_both":
        c.reverse()
        c.set_start_and_end_on(a, b)
        lo, hi = 1 - a, 1 - b
    else:
        c.set_start_and_end_on(a, b)
        c.reverse()
        lo, hi = b, a
    s = h.real("s", 0, 1)
    h.eq("point", c(s), P(lo + (hi - lo) * s))
    h.eq("length", c.length * c.length, h.norm2(q - p) * (hi - lo) * (hi - lo))
    h.le("length >= 0", 0, c.length)
    T = gtr(h)
    h.eq("transform", c.transform(T)(s), T(P(lo + (hi - lo) * s)))


def gtr(h, n="T"):
    b = h.m("gggears_base_classes")
    return b.Transform(center=h.vec(n + "c", -3, 3), orientation=h.orient(n + "o"),
                       scale=h.real(n + "s", 0.2, 5))


def mkarc(h, n="", lo=-6, hi=6):
    """an arbitrary arc: (curve, centre, axis, start point, angle, radius)"""
    crv = h.m("curve")
    R = h.orient(n + "o", axes="xyz")
    c = h.vec(n + "c", -5, 5)
    r = h.real(n + "r", 0.1, 10)
    ang = h.angle(n + "ang", lo, hi)
    arc = crv.ArcCurve(radius=r, angle=ang, center=c, roll=angles(h, n, 0), pitch=angles(h, n, 1),
                       yaw=angles(h, n, 2))
    axis = h.array([R[0][2], R[1][2], R[2][2]])
    p0 = c + h.array([R[0][0], R[1][0], R[2][0]]) * r
    return arc, c, axis, p0, ang, r


def angles(h, n, k):
    return h.inputs[f"{n}o{k}"] if not h.symbolic() else h.c.inputs[f"{n}o{k}"]


def arcpt(h, c, axis, p0, a):
    return c + mul(h, rot(h, axis, a), p0 - c)


@harness("C05", "arc", modules=M)
def arc(h):
    """constant distance from the centre, rotation about the axis by the signed angle"""
    a, c, axis, p0, ang, r = mkarc(h)
    s = h.choice("s", [0, 0.25, 0.5, 1])
    h.eq("axis", a.axis, axis)
    h.eq("point", a(s), arcpt(h, c, axis, p0, ang * s))
    h.eq("length", a.length, abs(ang) * r)
    h.eq("props", [a.radius, a.r, a.angle, a.curvature], [r, r, ang, 1 / r])
    h.eq("ends", [a.p0, a.p1], [p0, arcpt(h, c, axis, p0, ang)])
    h.eq("array", a(h.array([0, 1])), [p0, arcpt(h, c, axis, p0, ang)])


@harness("C05", "arc_any_parameter", modules=M)
def arc_any(h):
    a, c, axis, p0, ang, r = mkarc(h)
    s = h.choice("where", [0, 1, 2])
    s = h.real("s", 0.01, 0.99) if s == 0 else h.real("sa", 1.01, 2) if s == 1 else h.real("sb", -1, -0.01)
    q = a(s) - c
    h.eq("radius", h.norm2(q), r * r)
    h.eq("plane", h.dot(q, axis), 0)
    h.eq("swept", h.dot(q, p0 - c), r * r * h.np.cos(ang * s))
    h.eq("sense", h.dot(h.cross(p0 - c, q), axis), r * r * h.np.sin(ang * s))


@harness("C05", "arc_trim_reverse", modules=M)
def arc_trim(h):
    a, c, axis, p0, ang, r = mkarc(h)
    op = h.choice("op", ["half", "second", "rev", "middle", "rev_half"])
    if op == "half":
        a.set_end_on(0.5)
        lo, hi = 0, 0.5
    elif op == "second":
        a.set_start_on(0.5)
        lo, hi = 0.5, 1
    elif op == "rev":
        a.reverse()
        lo, hi = 1, 0
    elif op == "middle":
        a.set_start_and_end_on(0.25, 0.75)
        lo, hi = 0.25, 0.75
    else:
        a.reverse()
        a.set_end_on(0.5)
        lo, hi = 1, 0.5
    h.eq("ends", [a(0), a(1)], [arcpt(h, c, axis, p0, ang * lo), arcpt(h, c, axis, p0, ang * hi)])
    h.eq("middle", a(0.5), arcpt(h, c, axis, p0, ang * (lo + hi) / 2))
    h.eq("length", a.length, abs(ang) * r * abs(hi - lo))


@harness("C05", "arc_from_2_point_center", modules=M, witnesses=3)
def arc2pc(h):
    crv = h.m("curve")
    R = h.orient("o", axes="xyz")
    c, r = h.vec("c", -5, 5), h.real("r", 0.1, 10)
    phi = h.angle("phi", 0.05, 3.05)
    rev = h.choice("rev", [0, 1])
    x, y = h.array([R[0][0], R[1][0], R[2][0]]), h.array([R[0][1], R[1][1], R[2][1]])
    p0 = c + x * r
    p1 = c + x * (r * h.np.cos(phi)) + y * (r * h.np.sin(phi))
    a = crv.ArcCurve.from_2_point_center(p0, p1, c, revolutions=rev)
    h.eq("start", a(0), p0)
    h.eq("end", a(1), p1)
    h.eq("center", a.center, c)
    h.eq("radius", a.radius, r)
    h.eq("angle", a.angle, phi + rev * 2 * h.pi)
    h.eq("length", a.length, r * (phi + rev * 2 * h.pi))


@harness("C05", "arc_from_point_center_angle", modules=M, witnesses=3)
def arcpca(h):
    crv = h.m("curve")
    R = h.orient("o", axes="xyz")
    c, r = h.vec("c", -5, 5), h.real("r", 0.1, 10)
    ang = h.angle("ang", -6, 6)
    x, z = h.array([R[0][0], R[1][0], R[2][0]]), h.array([R[0][2], R[1][2], R[2][2]])
    k = h.real("k", 0.2, 3)
    p0 = c + x * r
    a = crv.ArcCurve.from_point_center_angle(p0, c, ang, axis=z * k)
    h.eq("start", a(0), p0)
    h.eq("axis", a.axis, z)
    h.eq("end", a(1), arcpt(h, c, z, p0, ang))
    h.eq("radius", a.radius, r)
    h.eq("angle", a.angle, ang)


@harness("C05", "arc_from_2_point_curvature", modules=M, witnesses=3)
def arc2pk(h):
    """both end points, radius 1/|curvature|, turning left about the axis when positive"""
    crv = h.m("curve")
    R = h.orient("o", axes="xyz")
    m = h.vec("m", -5, 5)
    beta = h.angle("beta", 0.05, 1.5)          # half of the swept angle
    r = h.real("r", 0.2, 8)
    sg = h.choice("sign", [1, -1])
    x, y, z = (h.array([R[0][i], R[1][i], R[2][i]]) for i in range(3))
    half = r * h.np.sin(beta)
    p0, p1 = m - x * half, m + x * half
    ax = z * h.real("za", 0.5, 3) + x * h.real("xa", -1, 1)     # any axis on that side of the chord
    a = crv.ArcCurve.from_2_point_curvature(p0, p1, curvature=sg / r, axis=ax)
    h.eq("start", a(0), p0)
    h.eq("end", a(1), p1)
    h.eq("radius", a.radius, r)
    h.eq("center", a.center, m + y * (sg * r * h.np.cos(beta)))
    h.eq("angle", a.angle, 2 * beta)


@harness("C05", "arc_of_too_much_curvature", modules=M)
def arc2pk_half(h):
    """no arc between the points is tighter than the half circle: it is what a larger curvature gives"""
    crv = h.m("curve")
    R = h.orient("o", axes="xyz")
    m = h.vec("m", -5, 5)
    sg = h.choice("sign", [1, -1])
    half = h.real("half", 0.2, 8)
    x, y, z = (h.array([R[0][i], R[1][i], R[2][i]]) for i in range(3))
    p0, p1 = m - x * half, m + x * half
    a = crv.ArcCurve.from_2_point_curvature(p0, p1, curvature=sg * h.real("k", 1.1, 5) / half, axis=z)
    h.eq("ends", [a(0), a(1)], [p0, p1])
    h.eq("radius", a.radius, half)
    h.eq("center", a.center, m)
    h.eq("middle", a(0.5), m - y * (sg * half))


@harness("C05", "arc_from_radius_center_angle", modules=M)
def arcrca(h):
    """axis z: from start to end angle measured from x"""
    crv = h.m("curve")
    c, r = h.vec("c", -5, 5), h.real("r", 0.1, 10)
    a0, a1 = h.angle("a0", -3, 3), h.angle("a1", -3, 3)
    np = h.np
    a = crv.ArcCurve.from_radius_center_angle(radius=r, center=c, angle_start=a0, angle_end=a1)
    pt = lambda t: c + h.array([r * np.cos(t), r * np.sin(t), 0])
    h.eq("ends", [a(0), a(1)], [pt(a0), pt(a1)])
    h.eq("angle", [a.angle, a.radius], [a1 - a0, r])


@harness("C05", "arc_transform", modules=M, witnesses=3, budget=240)
def arc_transform(h):
    """an arc (trimmed or not), moved: the moved points, in the same order"""
    crv = h.m("curve")
    b = h.m("gggears_base_classes")
    c, r = h.vec("c", -5, 5), h.real("r", 0.1, 10)
    yaw, ang = h.angle("yaw", -3, 3), h.angle("ang", -3, 3)
    a = crv.ArcCurve(radius=r, angle=ang, center=c, yaw=yaw)
    op = h.choice("op", ["full", "second", "rev"])
    if op == "second":
        a.set_start_on(0.5)
    elif op == "rev":
        a.reverse()
    T = b.Transform(center=h.vec("Tc", -3, 3), orientation=h.orient("To", axes="xyz"),
                    scale=h.real("Ts", 0.2, 5))
    a2 = a.transform(T)
    for s in (0, 0.5, 1):
        h.eq(f"point{s}", a2(s), T(a(s)))
    h.eq("length", a2.length, a.length * T.scale)


def target(h):
    """curve to be copied: a straight one, possibly trimmed and reversed"""
    crv = h.m("curve")
    p, q = h.vec("p", -5, 5), h.vec("q", -5, 5)
    c = crv.LineCurve(p, q)
    op = h.choice("op", ["full", "trim", "rev"])
    lo, hi = 0, 1
    if op == "trim":
        lo, hi = h.real("a", 0, 0.45), h.real("b", 0.5, 1)
        c.set_start_and_end_on(lo, hi)
    elif op == "rev":
        c.reverse()
        lo, hi = 1, 0
    exact_table(h)
    return c, lambda s: p + (q - p) * (lo + (hi - lo) * s)


def exact_table(h):
    crv = h.m("curve")

    def update(self):
        a, b = self.function(self.t_0, **self.params), self.function(self.t_1, **self.params)
        self.length = h.np.linalg.norm(b - a)
        self.t2s_lookup = {"s": h.array([0, 1]), "t": h.array([self.t_0, self.t_1])}
    h.stub(crv.Curve, "update_lengths", update,
           "moved straight curve: exact length table instead of 21 equal chords")


@harness("C05", "mirrored", modules=M)
def mirrored(h):
    crv = h.m("curve")
    c, f = target(h)
    n, k = uvec(h, "n"), h.real("k", 0.1, 5)
    o = h.vec("o", -5, 5)
    m = crv.MirroredCurve(c, plane_normal=n * k, center=o)
    s = h.real("s", 0, 1)

    def ref(x):
        d = f(x) - o
        return o + d - n * (2 * h.dot(d, n))
    h.eq("point", m(s), ref(s))
    h.eq("array", m(h.array([0, s])), [ref(0), ref(s)])
    h.eq("length", m.length, c.length)
    m2 = crv.MirroredCurve(m, plane_normal=n, center=o)
    h.eq("twice", m2(s), f(s))


@harness("C05", "rotated", modules=M)
def rotated(h):
    crv = h.m("curve")
    c, f = target(h)
    n, k = uvec(h, "n"), h.real("k", 0.1, 5)
    o, a = h.vec("o", -5, 5), h.angle("ang", -6, 6)
    m = crv.RotatedCurve(c, angle=a, axis=n * k, center=o)
    s = h.real("s", 0, 1)
    R = rot(h, n, a)
    ref = lambda x: o + mul(h, R, f(x) - o)
    h.eq("point", m(s), ref(s))
    h.eq("array", m(h.array([0, s])), [ref(0), ref(s)])
    h.eq("length", m.length, c.length)


@harness("C05", "transformed", modules=M)
def transformed(h):
    crv = h.m("curve")
    c, f = target(h)
    T = gtr(h)
    m = crv.TransformedCurve(T, c)
    s = h.real("s", 0, 1)
    h.eq("point", m(s), T(f(s)))
    h.eq("length", m.length, c.length * T.scale)
    r = m.reverse()
    h.eq("reversed", r(s), T(f(1 - s)))
    h.true("active", m.active)


@harness("C05", "vector_helpers", modules=["function_generators"])
def helpers(h):
    fg = h.m("function_generators")
    np = h.np
    r, s = h.real("r", 0.1, 5), h.real("q", 0.1, 5)
    R = h.orient("o", axes="xyz")
    a = h.angle("a", 0.01, 3.13)
    x, y, z = (h.array([R[0][i], R[1][i], R[2][i]]) for i in range(3))
    v, w = x * r, (x * np.cos(a) + y * np.sin(a)) * s
    h.eq("between", fg.angle_between_vectors(v, w), a)
    h.eq("unit", fg.normalize_vector(w), w / s)
    b = h.angle("b", -6, 6)
    h.eq("rotate", fg.rotate_vector(v, b), h.rz(b) @ v)
    p = h.vec("p", -5, 5)
    pr = fg.project_vector_to_plane(p, z)
    h.eq("in plane", h.dot(pr, z), 0)
    h.eq("same shadow", [h.dot(pr, x), h.dot(pr, y)], [h.dot(p, x), h.dot(p, y)])
    t = h.angle("t", -3.1, 3.1)
    h.eq("xy", fg.angle_of_vector_in_xy(h.array([r * np.cos(t), r * np.sin(t), p[2]])), t)


@harness("C05", "vector_and_plane", modules=["function_generators"])
def vplane(h):
    """elevation of a vector above a plane, in [0, pi/2]"""
    fg = h.m("function_generators")
    np = h.np
    el, az = h.angle("el", -1.57, 1.57), h.angle("az", -3.1, 3.1)
    r = h.real("r", 0.1, 5)
    v = h.array([np.cos(el) * np.cos(az), np.cos(el) * np.sin(az), np.sin(el)]) * r
    g = fg.angle_between_vector_and_plane(v, h.array([0, 0, 1]))
    h.eq("elevation", g, abs(el))
    h.eq("upright", fg.angle_between_vector_and_plane(h.array([0, 0, r]), h.array([0, 0, 1])), h.pi / 2)


@harness("C05", "arc_turned", modules=M)
def arc_turned(h):
    """an arc given a new orientation lies, and reports to lie, in that orientation"""
    a, c, axis, p0, ang, r = mkarc(h)
    R = h.orient("n", axes="zyx")
    a.rotmat = R
    s = h.choice("s", [0, 0.5, 1])
    e = h.array([r * h.np.cos(ang * s), r * h.np.sin(ang * s), 0])
    h.eq("point", a(s), c + R @ e)
    h.eq("axis", a.axis, R @ h.array([0, 0, 1]))
    b = h.m("curve").ArcCurve(radius=r, angle=ang, center=c, roll=a.roll, pitch=a.pitch, yaw=a.yaw)
    h.eq("reported angles", b(s), c + R @ e)
    y, p, q = a.gen_rotation_angles()
    b = h.m("curve").ArcCurve(radius=r, angle=ang, center=c, roll=q, pitch=p, yaw=y)
    h.eq("generated angles", b(s), c + R @ e)


@harness("C05", "arc_functions", modules=["function_generators"], witnesses=3)
def arc_functions(h):
    """arc functions: from the first point to the second, about the stated axis or centre, either sense"""
    fg = h.m("function_generators")
    R = h.orient("o", axes="xyz")
    m = h.vec("m", -5, 5)
    beta, r = h.angle("beta", 0.05, 1.5), h.real("r", 0.2, 8)
    x, y, z = (h.array([R[0][i], R[1][i], R[2][i]]) for i in range(3))
    half, d = r * h.np.sin(beta), r * h.np.cos(beta)
    p0, p1 = m - x * half, m + x * half
    if h.bool("by centre"):
        c = m + y * d
        f = lambda t: fg.arc_from_2_point_center(t, p0, p1, c)
        sg = 1
    else:
        sg = h.choice("sign", [1, -1])
        c = m + y * (sg * d)
        f = lambda t: fg.arc_from_2_point(t, p0, p1, curvature=sg / r, axis=z)
    h.eq("start", f(0), p0)
    h.eq("end", f(1), p1)
    h.eq("middle", f(0.5), c - y * (sg * r))


@harness("C05", "arc_functions_turns", modules=["function_generators"])
def arc_turns(h):
    """additional revolutions, whole or not, of either sense, are added to the angle of the arc"""
    fg = h.m("function_generators")
    c, r, be = h.vec("c", -5, 5), h.real("r", 0.2, 8), h.angle("be", 0.1, 1.4)
    P = lambda f: c + h.array([r * h.np.cos(f), r * h.np.sin(f), 0])
    n = h.angle("n", 0.1, 12) if h.bool("forward") else -h.angle("n", 3, 12)
    f = lambda t: fg.arc_from_2_point_center(t, P(-be), P(be), c, revolutions=n / (2 * h.pi))
    h.eq("start", f(0), P(-be))
    h.eq("end", f(1), P(be + n))
    h.eq("middle", f(0.5), P(n / 2))


@harness("C05", "arc_from_radius_any_axis", modules=M, budget=200)
def arc_any_axis(h):
    """about any axis: of that radius and centre, in the plane across the axis, turning from start to end angle"""
    crv = h.m("curve")
    np = h.np
    kind = h.choice("axis", ["general", "up", "down", "right"])
    z = {"general": lambda: h.array([np.sin(b) * np.cos(a), np.cos(b), np.sin(b) * np.sin(a)]),
         "up": lambda: h.array([0, 1, 0]), "down": lambda: h.array([0, -1, 0]), "right": lambda: h.array([1, 0, 0])}
    if kind == "general":
        a, b = h.angle("az", -3.1, 3.1), h.angle("el", 0.1, 3.0)
    z = z[kind]()
    c, r = h.vec("c", -5, 5), h.real("r", 0.1, 10)
    a0, a1 = h.angle("a0", -3, 3), h.angle("a1", -3, 3)
    q = crv.ArcCurve.from_radius_center_angle(radius=r, center=c, angle_start=a0, angle_end=a1, axis=z)
    p0 = q(0)
    h.eq("radius", h.norm2(p0 - c), r * r)
    h.eq("plane", h.dot(p0 - c, z), 0)
    h.eq("axis", q.axis, z)
    u, v = p0 - c, q(1) - c
    h.eq("end plane", h.dot(v, z), 0)
    h.eq("end", h.dot(u, v), r * r * np.cos(a1 - a0))
    h.eq("sense", h.dot(h.array([u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]), z),
         r * r * np.sin(a1 - a0))
