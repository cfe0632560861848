"""C07 - Bezier / NURBS evaluation, derivatives, exact arcs, fits and conversions."""
from math import comb
from symgg.harness import harness
from props.gearlib import patched, uniform

M = ["function_generators", "curve"]


def pts(h, n, name="p", dim=3, lo=-5, hi=5):
    return h.array([[h.real(f"{name}{i}_{j}", lo, hi) for j in range(dim)] for i in range(n)])


def wts(h, n, name="w"):
    return h.array([h.real(f"{name}{i}", 0.2, 3) for i in range(n)])


def bern(n, k, t):
    return comb(n - 1, k) * t ** k * (1 - t) ** (n - 1 - k)


def bez(P, t):
    n = len(P)
    return sum(P[k] * bern(n, k, t) for k in range(n))


def nurb(P, W, t):
    n = len(P)
    return sum(P[k] * (W[k] * bern(n, k, t)) for k in range(n)) / sum(W[k] * bern(n, k, t) for k in range(n))


@harness("C07", "bezier", modules=M)
def bezier(h):
    fg = h.m("function_generators")
    n = h.choice("n", [2, 3, 4, 5])
    P, t = pts(h, n), h.real("t", -0.5, 1.5)
    want = bez(P, t)
    h.eq("bernstein", fg.bezier(t, P), want)
    h.eq("casteljau", fg.bezierdc(t, P), want)
    u = h.real("u", 0, 1)
    h.eq("array", fg.bezierdc(h.array([t, u]), P), [want, bez(P, u)])
    h.eq("coefficients", fg.bezier_coeff(t, n), [bern(n, k, t) for k in range(n)])
    h.eq("point derivative", fg.bezier_diff_p(t, n), [bern(n, k, t) for k in range(n)])
    h.eq("point derivative array", fg.bezier_diff_p(h.array([t, u]), n),
         [[bern(n, k, x) for k in range(n)] for x in (t, u)])


@harness("C07", "nurb", modules=M)
def nurb_(h):
    fg = h.m("function_generators")
    n = h.choice("n", [2, 3, 4])
    P, W, t = pts(h, n), wts(h, n), h.real("t", 0, 1)
    h.eq("point", fg.nurbezier(t, P, W), nurb(P, W, t))
    h.eq("ends", [fg.nurbezier(0, P, W), fg.nurbezier(1, P, W)], [P[0], P[n - 1]])
    u = h.real("u", 0, 1)
    h.eq("array", fg.nurbezier(h.array([t, u]), P, W), [nurb(P, W, t), nurb(P, W, u)])


@harness("C07", "bezier_derivative", modules=M)
def bezier_d(h):
    fg = h.m("function_generators")
    n = h.choice("n", [2, 3, 4])
    k = h.choice("k", [1, 2, 3, 4])
    P, t = pts(h, n), h.real("t", 0, 1)
    u = h.real("u", 0, 1)

    def d(x):
        D = [P[i] for i in range(n)]
        for _ in range(k):
            m = len(D) - 1
            if m < 1:
                return h.array([0, 0, 0])
            D = [(D[i + 1] - D[i]) * m for i in range(m)]
        return bez(D, x)
    h.eq("derivative", fg.bezier_diff_t(t, P, n=k), d(t))
    h.eq("array", fg.bezier_diff_t(h.array([t, u]), P, n=k), [d(t), d(u)])


@harness("C07", "nurb_derivative", modules=M)
def nurb_d(h):
    """the three gradients are the derivatives of the evaluated point"""
    fg = h.m("function_generators")
    n = h.choice("n", [2, 3])
    P, W, t = pts(h, n, dim=2), wts(h, n), h.real("t", 0, 1)
    u = h.real("u", 0, 1)
    B = lambda k, x: bern(n, k, x)
    w = lambda x: sum(W[k] * B(k, x) for k in range(n))
    s = lambda x: sum(P[k] * (W[k] * B(k, x)) for k in range(n))

    def dB(k, x):
        return (n - 1) * ((bern(n - 1, k - 1, x) if k > 0 else 0) - (bern(n - 1, k, x) if k < n - 1 else 0))
    dw = lambda x: sum(W[k] * dB(k, x) for k in range(n))
    ds = lambda x: sum(P[k] * (W[k] * dB(k, x)) for k in range(n))
    ref = lambda x: (ds(x) * w(x) - s(x) * dw(x)) / (w(x) * w(x))
    h.eq("by t", fg.nurbezier_diff_t(t, P, W), ref(t))
    h.eq("by t, array", fg.nurbezier_diff_t(h.array([t, u]), P, W), [ref(t), ref(u)])
    dp = lambda x: [W[k] * B(k, x) / w(x) for k in range(n)]
    h.eq("by points", fg.nurbezier_diff_points(t, n, W), dp(t))
    h.eq("by points, array", fg.nurbezier_diff_points(h.array([t, u]), n, W), [dp(t), dp(u)])
    dq = lambda x: [(P[k] - s(x) / w(x)) * (B(k, x) / w(x)) for k in range(n)]
    h.eq("by weights", fg.nurbezier_diff_weights(t, P, W), dq(t))
    h.eq("by weights, array", fg.nurbezier_diff_weights(h.array([t, u]), P, W), [dq(t), dq(u)])


@harness("C07", "surface", modules=M)
def surface(h):
    fg = h.m("function_generators")
    n, m = h.choice("size", [(2, 2), (2, 3), (3, 2)])
    P = h.array([[[h.real(f"p{i}{j}_{q}", -5, 5) for q in range(3)] for j in range(m)] for i in range(n)])
    W = h.array([[h.real(f"w{i}{j}", 0.2, 3) for j in range(m)] for i in range(n)])
    u, v = h.real("u", 0, 1), h.real("v", 0, 1)
    den = sum(W[i][j] * bern(n, i, u) * bern(m, j, v) for i in range(n) for j in range(m))
    num = sum(P[i][j] * (W[i][j] * bern(n, i, u) * bern(m, j, v)) for i in range(n) for j in range(m))
    h.eq("rows", fg.nurbezier_surface(u, v, P, W), num / den)
    h.eq("direct", fg.nurbezier_surface_2(u, v, P, W), num / den)


@harness("C07", "exact_arc", modules=M)
def exact_arc(h):
    """the three-point rational curve stays on the circle and in its plane"""
    fg = h.m("function_generators")
    R = h.orient("o", axes="xyz")
    c, r = h.vec("c", -5, 5), h.real("r", 0.1, 10)
    beta = h.angle("beta", 0.05, 1.5)        # half angle
    x, y, z = (h.array([R[0][i], R[1][i], R[2][i]]) for i in range(3))
    cb, sb = h.np.cos(beta), h.np.sin(beta)
    p0, p2 = c + (x * cb - y * sb) * r, c + (x * cb + y * sb) * r
    P, W = fg.calc_nurbezier_arc(p0, p2, c)
    t = h.real("t", 0, 1)
    p = fg.nurbezier(t, P, W)
    h.eq("radius", h.norm2(p - c), r * r)
    h.eq("plane", h.dot(p - c, z), 0)
    h.eq("ends", [fg.nurbezier(0, P, W), fg.nurbezier(1, P, W)], [p0, p2])
    h.eq("middle", fg.nurbezier(0.5, P, W), c + x * r)


@harness("C07", "quadratic_interpolation", modules=M)
def quad(h):
    fg = h.m("function_generators")
    P = pts(h, 3)
    Q = fg.calc_quadratic_bezier_interp(P[0], P[1], P[2])
    h.eq("through", [bez(Q, 0), bez(Q, 0.5 if not h.symbolic() else h.real("half", 0.5, 0.5)), bez(Q, 1)],
         [P[0], P[1], P[2]])


def exact_table(h, unit=False):
    crv = h.m("curve")

    def update(self):
        self.length = 1.0 if unit else h.np.linalg.norm(self.function(self.t_1) - self.function(self.t_0))
        self.t2s_lookup = {"s": h.array([0, 1]), "t": h.array([self.t_0, self.t_1])}
    h.stub(crv.Curve, "update_lengths", update, "uniform parameter table for NURB segments in C07 (end "
           "points and algebra do not depend on it)")


@harness("C07", "nurb_curve", modules=M)
def nurb_curve(h):
    crv = h.m("curve")
    b = h.m("gggears_base_classes")
    P, W = pts(h, 3), wts(h, 3)
    c = crv.NurbCurve(P, W, active=False)
    s = h.real("s", 0, 1)
    h.eq("point", c(s), nurb(P, W, s))
    T = b.Transform(center=h.vec("c", -3, 3), orientation=h.orient("o"), scale=h.real("k", 0.2, 4))
    op = h.choice("op", ["reverse", "move", "copy"])
    if op == "reverse":
        r = c.reverse()
        h.true("same object", r is c)
        h.eq("reversed", c(s), nurb(P, W, 1 - s))
    elif op == "move":
        c.apply_transform(T)
        h.eq("moved", c(s), T(nurb(P, W, s)))
    else:
        d = c.copy()
        d.apply_transform(T)
        h.eq("original", c(s), nurb(P, W, s))
        h.eq("copy", d(s), T(nurb(P, W, s)))


@harness("C07", "nurb_reverse_length_table", modules=M)
def nurb_table(h):
    """reversing an accelerating NURB keeps its length parametrisation and its trimming"""
    crv = h.m("curve")
    k = h.real("k", 0, 0.9)
    a = h.angle("a", -3.1, 3.1)
    d = h.array([h.np.cos(a), h.np.sin(a), 0])
    p = h.vec("p", -5, 5)
    P = h.array([p, p + d * (1 - k) / 2, p + d])       # u(t) = (1-k) t + k t^2
    c = crv.NurbCurve(P, h.array([1, 1, 1]), active=False)
    c.len_approx_N = 3
    c.active = True
    c.update_lengths()
    u = h.real("u", 0.05, 0.95)
    s = c.t2s(u)
    want = c(s)
    trim = h.choice("trim", [0, 1, 2])
    if trim == 1:
        c.set_start_on(s)
        ends = [want, p + d]
    elif trim == 2:
        c.set_end_on(s)
        ends = [p, want]
    else:
        ends = [p, p + d]
    L = c.length
    c.reverse()
    h.eq("ends", [c(1), c(0)], ends)
    if trim == 0:
        h.eq("same point", c(1 - s), want)
    h.eq("length", c.length, L)
    c.update_lengths()
    h.eq("recomputed", c.length, L)


def two(h, n=3, m=2):
    """two NURB segments sharing the joint"""
    crv = h.m("curve")
    P, W = pts(h, n + m - 1), wts(h, n + m - 1)
    return crv, P, W, n, m


@harness("C07", "nurbs_chain", modules=M)
def nurbs_chain(h):
    crv, P, W, n, m = two(h, *h.choice("sizes", [(3, 2), (2, 3)]))
    exact_table(h)
    op = h.choice("op", ["from_points", "set", "move", "reverse", "list"])
    c = crv.NURBSCurve.from_points(P, [0, n - 1, n + m - 2], W)
    h.eq("points", c.points, P)
    h.eq("weights", c.weights, W)
    h.true("knots", [int(k) for k in c.knots] == [0, n - 1, n + m - 2])
    h.true("count", c.n_points == n + m)
    t = h.real("t", 0, 1)
    if op == "set":
        Q = pts(h, n + m - 1, "q")
        c.points = Q
        h.eq("set points", c.points, Q)
        h.eq("set curve", [c.curves[0].function(t), c.curves[1].function(t)], [nurb(Q[:n], W[:n], t), nurb(Q[n - 1:], W[n - 1:], t)])
    elif op == "move":
        T = h.m("gggears_base_classes").Transform(center=h.vec("c", -3, 3), orientation=h.orient("o"))
        c.apply_transform(T)
        h.eq("moved", c.points, T(P))
        h.eq("moved weights", c.weights, W)
    elif op == "reverse":
        c.reverse()
        h.eq("reversed", c.points, [P[n + m - 2 - i] for i in range(n + m - 1)])
        h.eq("reversed weights", c.weights, [W[n + m - 2 - i] for i in range(n + m - 1)])
    elif op == "list":
        d = crv.NURBSCurve.from_curve_chain(crv.CurveChain(*c.get_curves()))
        h.eq("same", d.points, P)
    else:
        h.eq("segments", [c.curves[0].function(t), c.curves[1].function(t)], [nurb(P[:n], W[:n], t), nurb(P[n - 1:], W[n - 1:], t)])


@harness("C07", "enforce_continuity", modules=M)
def continuity(h):
    """afterwards the segments share their joints, inner points and far ends are kept"""
    crv = h.m("curve")
    exact_table(h, unit=True)
    P, Q = pts(h, 3), pts(h, 2, "q")
    h.assume(P[0][0] < P[1][0], P[1][0] < P[2][0], P[2][0] < Q[1][0] - 0.5, Q[0][0] < Q[1][0] - 0.5,
             P[0][0] < Q[0][0] - 0.5)
    W, V = wts(h, 3), wts(h, 2, "v")
    a, b = crv.NurbCurve(P.copy(), W.copy()), crv.NurbCurve(Q.copy(), V.copy())
    c = crv.NURBSCurve(a, b)
    c.enforce_continuity()
    mid, mw = (P[2] + Q[0]) / 2, (W[2] + V[0]) / 2
    h.eq("joint", [a.points[2], b.points[0]], [mid, mid])
    h.eq("joint weight", [a.weights[2], b.weights[0]], [mw, mw])
    h.eq("kept", [a.points[0], a.points[1], b.points[1]], [P[0], P[1], Q[1]])
    h.eq("kept weights", [a.weights[0], a.weights[1], b.weights[1]], [W[0], W[1], V[1]])


@harness("C07", "enforce_continuity_closed", modules=M)
def continuity_closed(h):
    """a closed chain of segments shares its last joint as well"""
    crv = h.m("curve")
    exact_table(h, unit=True)
    P = [h.vec("p", -5, 5), h.vec("q", -5, 5), h.vec("r", -5, 5)]
    h.assume(h.norm2(P[0] - P[1]) > 1, h.norm2(P[1] - P[2]) > 1, h.norm2(P[2] - P[0]) > 1)
    W = [h.real("w%d" % i, 0.5, 2) for i in range(6)]
    e = h.real("gap", -0.000000005, 0.000000005)
    end = P[0] + h.array([e, 0, 0])
    segs = [(P[0], P[1]), (P[1], P[2]), (P[2], end)]
    cs = [crv.NurbCurve(h.array([list(a), list(b)]), h.array([W[2 * i], W[2 * i + 1]])) for i, (a, b) in enumerate(segs)]
    c = crv.NURBSCurve(*cs)
    c.enforce_continuity()
    mw = [(W[2 * i + 1] + W[(2 * i + 2) % 6]) / 2 for i in range(3)]
    h.eq("joint weights", [c.curves[i].weights[-1] for i in range(3)] + [c.curves[(i + 1) % 3].weights[0] for i in range(3)], mw + mw)
    h.eq("end and start", c.curves[-1].points[-1], c.curves[0].points[0])
    h.eq("joints", [c.curves[0].points[1], c.curves[1].points[0], c.curves[1].points[1], c.curves[2].points[0]], [P[1], P[1], P[2], P[2]])


# -- conversion ------------------------------------------------------------------
@harness("C07", "convert_line", modules=M)
def conv_line(h):
    crv = h.m("curve")
    exact_table(h)
    p, q = h.vec("p", -5, 5), h.vec("q", -5, 5)
    c = crv.LineCurve(p, q)
    op = h.choice("op", ["full", "rev", "trim"])
    if op == "rev":
        c.reverse()
    elif op == "trim":
        c.set_start_and_end_on(0.25, h.real("b", 0.5, 1))
    n = crv.convert_curve_nurbezier(c)
    t = h.real("t", 0, 1)
    h.eq("point", n.function(t), c(t))
    h.true("two points", n.n_points == 2)


@harness("C07", "convert_arc", modules=M)
def conv_arc(h):
    """exact: on the circle, between the same ends; trimmed and reversed arcs too"""
    crv = h.m("curve")
    exact_table(h)
    R = h.orient("o", axes="xyz")
    c, r = h.vec("c", -5, 5), h.real("r", 0.1, 10)
    op = h.choice("op", ["full", "rev", "second", "extended"])
    ang = h.angle("ang", 0.1, 3.1 / 1.25 if op == "extended" else 3.1)
    ang = ang if h.bool("positive") else -ang
    g = lambda k: h.c.inputs[f"o{k}"] if h.symbolic() else h.inputs[f"o{k}"]
    a = crv.ArcCurve(radius=r, angle=ang, center=c, roll=g(0), pitch=g(1), yaw=g(2))
    if op == "rev":
        a.reverse()
    elif op == "second":
        a.set_start_on(0.5)
    elif op == "extended":
        a.set_end_on(1.25)
    n = crv.convert_curve_nurbezier(a)
    t = h.real("t", 0, 1)
    p = n.function(t)
    h.eq("radius", h.norm2(p - c), r * r)
    h.eq("plane", h.dot(p - c, [R[0][2], R[1][2], R[2][2]]), 0)
    h.eq("ends", [n.function(0), n.function(1)], [a(0), a(1)])
    h.eq("middle", n.function(0.5), a(0.5))


@harness("C07", "convert_transformed", modules=M)
def conv_transformed(h):
    """a moved/mirrored copy converts to the moved control points; the target is not touched"""
    crv = h.m("curve")
    exact_table(h)
    P, W = pts(h, 3), wts(h, 3)
    src = crv.NurbCurve(P, W) if h.bool("nurb") else crv.LineCurve(P[0], P[1])
    f = (lambda t: nurb(P, W, t)) if isinstance(src, crv.NurbCurve) else (lambda t: P[0] + (P[1] - P[0]) * t)
    kind = h.choice("kind", ["mirror", "rotate"])
    if kind == "mirror":
        m = crv.MirroredCurve(src, plane_normal=h.array([0, 1, 0]))
        g = lambda x: h.array([x[0], -x[1], x[2]])
    else:
        a = h.angle("a", -3, 3)
        m = crv.RotatedCurve(src, angle=a)
        R = h.rz(a)
        g = lambda x: h.array([h.dot(R[i], x) for i in range(3)])
    rev = h.bool("reversed")
    if rev:
        m.reverse()
    t = h.real("t", 0, 1)
    n = crv.convert_curve_nurbezier(m)
    h.eq("point", n.function(t), g(f(1 - t if rev else t)))
    h.eq("target", src.function(t), f(t))


@harness("C07", "convert_chain", modules=M)
def conv_chain(h):
    crv = h.m("curve")
    exact_table(h)
    P = pts(h, 4)
    cs = [crv.LineCurve(P[i], P[i + 1], active=True) for i in range(3)]
    off = h.choice("inactive", [None, 0, 1, 2])
    if off is not None:
        cs[off].active = False
    keep = h.bool("keep")
    n = crv.convert_curve_nurbezier(crv.CurveChain(*cs), skip_inactive=not keep)
    idx = [i for i in range(3) if keep or i != off]
    h.true("count", len(n.curves) == len(idx))
    h.eq("segments", [[c.function(0), c.function(1)] for c in n.curves], [[P[i], P[i + 1]] for i in idx])


# -- fits: for every result of the numerical optimiser -----------------------------
@harness("C07", "fit_ends_fixed", modules=M)
def fit_ends(h):
    """whatever the optimiser returns, the fit starts and ends on the target, end weights 1"""
    crv = h.m("curve")
    n = h.choice("n", [3, 4])
    N = 5
    T = pts(h, N, "T", lo=-2, hi=2)
    init = pts(h, n, "i", lo=-2, hi=2)
    sol, P, W = crv.fit_nurb_points(T, n_points=n, initpoints=init)
    h.eq("ends", [P[0], P[n - 1]], [T[0], T[N - 1]])
    h.eq("end weights", [W[0], W[n - 1]], [1, 1])
    h.true("size", len(P) == n == len(W))


def gradient(h, dim2, n, N):
    """the gradient handed to the optimiser is the derivative of the cost"""
    crv = h.m("curve")
    T = pts(h, N, "T", lo=-2, hi=2)
    fun, x0 = h.capture_minimize(crv, lambda: crv.fit_nurb_points(
        T, n_points=n, force_2D=dim2, initpoints=(T[:n, :2] if dim2 else T[:n])))
    m = len(x0)
    x = h.array([h.real(f"x{i}", 0.3, 1.5) for i in range(m)])
    j = h.choice("j", list(range(m)))
    val, jac = fun(x)
    h.eq("gradient", jac[j], h.partial(lambda y: fun(y)[0], x, j), tol=1e-4)


@harness("C07", "fit_gradient", modules=M)
def fit_gradient(h):
    gradient(h, True, 3, 3)


@harness("C07", "fit_gradient_3d", modules=M, tier="thorough")
def fit_gradient3(h):
    gradient(h, False, 3, 4)


@harness("C07", "surface_fit_gradient", standins=True, modules=["gggears_convert"])
def surface_gradient(h):
    """the gradient handed to the optimiser of the side-surface fit is the derivative of the cost"""
    cv = h.m("gggears_convert")
    g = object.__new__(cv.GearToNurbs)
    n, o, m = 2, 4, 3
    tgt = h.array([[[h.real(f"t{i}{j}{q}", -2, 2) for q in range(4)] for j in range(n)] for i in range(o)])
    fast = h.bool("fast")
    f = g.solve_surface_fast if fast else g.solve_surface
    fun, x0 = h.capture_minimize(cv, lambda: f(tgt, n_points_vert=m))
    k = (m - 2) * n * 4 + (0 if fast else o - 2)
    xs = [h.real(f"x{i}", 0.1, 0.9) if i < k else 0 for i in range(len(x0))]
    x = h.array(xs)
    j = h.choice("j", list(range(k)))
    val, jac = fun(x)
    h.eq("gradient", jac[j], h.partial(lambda y: fun(y)[0], x, j), tol=1e-4)


@harness("C07", "surface_fit_ends_fixed", standins=True, modules=["gggears_convert"])
def surface_ends(h):
    """whatever the optimiser returns, the first and last profiles are reproduced exactly"""
    cv = h.m("gggears_convert")
    g = object.__new__(cv.GearToNurbs)
    n, o = 2, 4
    m = h.choice("m", [3, 4])
    tgt = h.array([[[h.real(f"t{i}{j}{q}", 0.2, 2) for q in range(4)] for j in range(n)] for i in range(o)])
    r = g.solve_surface_fast(tgt, n_points_vert=m) if h.bool("fast") else g.solve_surface(tgt, n_points_vert=m)
    P, W = r[1], r[2]
    for a, b in ((0, 0), (m - 1, o - 1)):
        h.eq("profile", P[a], tgt[b, :, :3])
        h.eq("weights", W[a], tgt[b, :, 3])


@harness("C07", "patches", modules=["gggears_convert"])
def patches(h):
    """the patches tile the surface strip, neighbours sharing their border column"""
    cv = h.m("gggears_convert")
    n = 6
    P = h.array([[[h.real(f"p{i}{j}{q}", -2, 2) for q in range(3)] for j in range(n)] for i in range(2)])
    W = h.array([[h.real(f"w{i}{j}", 0.2, 2) for j in range(n)] for i in range(2)])
    kn = h.choice("knots", [[0, 2, 5], [0, 1, 2, 5], [0, 3, 4, 5], [0, 5]])
    out = list(cv.NurbSurfaceData(points=P, weights=W, knots=h.np.array(kn)).get_patches())
    h.true("count", len(out) == len(kn) - 1)
    for k, p in enumerate(out):
        h.eq(f"points{k}", p["points"], P[:, kn[k]:kn[k + 1] + 1, :])
        h.eq(f"weights{k}", p["weights"], W[:, kn[k]:kn[k + 1] + 1])


@harness("C07", "hermite", modules=M)
def hermite(h):
    """cubic Hermite fit: end points and (one-sided numeric) end tangents of the target"""
    crv = h.m("curve")
    A = pts(h, 4, "A", lo=-2, hi=2)
    c = crv.Curve(lambda t: A[0] + A[1] * t + A[2] * (t * t) + A[3] * (t * t * t), active=False)
    P = crv.fit_bezier_hermite_cubic(c)
    h.eq("ends", [P[0], P[3]], [c(0), c(1)])
    h.near("tangents", [(P[1] - P[0]) * 3, (P[3] - P[2]) * 3], [A[1], A[1] + A[2] * 2 + A[3] * 3], 2e-3)


@harness("C07", "convert_long_arc", standins=True, modules=M)
def conv_long_arc(h):
    """arcs of half a turn and more are fitted, however they came to be so long"""
    crv = h.m("curve")
    exact_table(h)
    how = h.choice("how", ["made so", "extended", "extended both ways", "trimmed below"])
    r, c = h.real("r", 0.1, 10), h.vec("c", -5, 5)
    a = crv.ArcCurve(radius=r, center=c, angle=h.angle("big", 3.2, 6) if how in ("made so", "trimmed below") else h.angle("ang", 2.7, 3.1))
    if how == "extended":
        a.set_end_on(1.25)
    elif how == "extended both ways":
        a.set_start_and_end_on(-0.125, 1.125)
    elif how == "trimmed below":
        a.set_start_and_end_on(0.25, 0.75)
    asked = []
    P = h.array([c, c, c])
    with patched(crv, fit_nurb_optim=lambda curve, *x, **k: asked.append(curve) or (None, P, h.array([1, 1, 1]))):
        n = crv.convert_curve_nurbezier(a)
    if not asked:                   # (whatever was done instead has to come close)
        h.near("middle", [x / r for x in n.function(0.5) - a(0.5)], [0, 0, 0], 0.3)
    else:
        h.true("fitted", len(asked) == 1 and asked[0] is a)


@harness("C07", "fit_curve", standins=True, modules=M)
def fit_curve(h):
    """fitting a curve: its own points are the targets, its ends the ends; flat fits keep the height"""
    crv = h.m("curve")
    n, flat = h.choice("n", [3, 4, 5, 6]), h.bool("flat")
    p, v = h.vec("p", -2, 2), h.vec("v", 0.5, 2)
    z = h.array([1, 1, 0]) if flat else h.array([1, 1, 1])
    f = lambda t: p + v * z * t
    uniform(h)
    c = crv.Curve(f)
    got = {}
    own = h.bool("own start")
    init = h.array([h.vec(f"i{k}") for k in range(n)]) if own else None

    def fit(target, n_points=4, force_2D=False, initpoints=None):
        got.update(t=target, n=n_points, flat=force_2D, init=initpoints)
        d = 2 if force_2D else 3
        got["out"] = h.array([[h.real(f"o{i}{j}", -2, 2) for j in range(d)] for i in range(n_points)])
        return "sol", got["out"], "weights"
    ratio = h.choice("ratio", [1.5, 2])
    with patched(crv, fit_nurb_points=fit):
        if own:
            s, P, W = crv.fit_nurb_optim(c, n_points=n, force_2D=flat, samp_ratio=ratio, initguess=init)
        else:
            s, P, W = crv.fit_nurb_optim(c, n_points=n, force_2D=flat, samp_ratio=ratio)
    h.assume(bool(got))
    N = len(got["t"])
    h.true("asked", got["n"] == n and bool(got["flat"]) == flat and (s, W) == ("sol", "weights"))
    h.true("enough targets", N >= 2 * (n - 2) + 2)
    d = 2 if flat else 3
    for i in (0, N // 2, N - 1):
        h.eq(f"target {i}", list(got["t"][i])[:d], list(c(i / (N - 1)))[:d], tol=1e-6)
    h.true("start shape", len(got["init"]) == n)
    for i in range(n):
        h.eq(f"point {i}", list(P[i])[:d], got["out"][i])
        h.eq(f"height {i}", P[i][2], p[2] if flat else got["out"][i][2])
    if own:
        h.eq("own start used", list(got["init"]), list(init))
