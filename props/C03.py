"""C03 - a curve's length-proportional parameter, trimming, cutting, reversing, algebra."""
from symgg.harness import harness

M = ["curve"]


def mk(h, n="", N=4, vec=True, light=False):
    """arbitrary accelerated straight motion p + d*(t + k t^2) on [t0, t1]"""
    crv = h.m("curve")
    p, d = h.vec(n + "p", -5, 5), h.array([h.real(n + "d", 0.2, 5), 0, 0])
    if not light:
        a = h.angle(n + "az", -3.1, 3.1)
        d = h.rz(a) @ d
    k = h.real(n + "k", 0, 3)
    t0 = h.real(n + "t0", 0, 2)
    t1 = t0 + h.real(n + "w", 0.2, 3)

    def f(t):
        if vec:
            return p + d * (t + k * t * t)
        t = h.np.asarray(t)
        u = h.np.asarray(t + k * t * t)
        return p + d * u[..., None]
    c = crv.Curve(f, t0=t0, t1=t1, lenght_approx_ndiv=N, enable_vectorize=vec)
    return c, f, t0, t1


def length(h, p, q):
    return h.sqrt(h.norm2(q - p))


@harness("C03", "endpoints_and_length", modules=M)
def endpoints(h):
    c, f, t0, t1 = mk(h)
    h.eq("start", c(0), f(t0))
    h.eq("end", c(1), f(t1))
    h.eq("length", c.length * c.length, h.norm2(f(t1) - f(t0)))
    h.le("length>0", 0, c.length)
    v = c(h.array([0, 1]))
    h.eq("vector", v, [f(t0), f(t1)])


@harness("C03", "array_functions", modules=M)
def array_functions(h):
    c, f, t0, t1 = mk(h, vec=False)
    h.eq("start", c(0), f(t0))
    h.eq("end", c(1), f(t1))
    h.eq("length", c.length * c.length, h.norm2(f(t1) - f(t0)))
    h.le("length >= 0", 0, c.length)
    h.eq("batch", c(h.array([0, 1])), [f(t0), f(t1)])


@harness("C03", "knots_equal_length", modules=M)
def knots(h):
    """arc length up to the sampled points is proportional to the parameter"""
    c, f, t0, t1 = mk(h)
    for i in (1, 2):
        t = t0 + (t1 - t0) * i / 3
        s = c.t2s(t)
        h.eq(f"prop{i}", s * s * c.length * c.length, h.norm2(f(t) - f(t0)))
        h.eq(f"point{i}", c(s), f(t))
        h.le(f"in{i}", 0, s)


def pick(h, c, outside=True):
    w = h.choice("where", ["in", "below", "above"] if outside else ["in"])
    return {"in": lambda: h.real("s", 0, 1), "below": lambda: h.real("sm", -2, 0),
            "above": lambda: h.real("sp", 1, 3)}[w]()


@harness("C03", "param_roundtrip", modules=M)
def roundtrip(h):
    c, f, t0, t1 = mk(h)
    s = pick(h, c)
    t = c.s2t(s)
    h.eq("t2s(s2t)", c.t2s(t), s)
    h.eq("point", c(s), f(t))
    h.true("monotone", (c.s2t(s + 0.25) > t))


@harness("C03", "param_roundtrip_t", modules=M)
def roundtrip_t(h):
    c, f, t0, t1 = mk(h)
    w = h.choice("where", ["in", "below", "above"])
    u = {"in": lambda: h.real("u", 0, 1), "below": lambda: h.real("um", -1, 0),
         "above": lambda: h.real("up", 1, 2)}[w]()
    t = t0 + (t1 - t0) * u
    s = c.t2s(t)
    h.eq("s2t(t2s)", c.s2t(s), t)


@harness("C03", "array_param", modules=M)
def array_param(h):
    """array input = pointwise, also outside [0,1]"""
    c, f, t0, t1 = mk(h, N=3)
    a, b = h.real("a", -1, 0), h.real("b", 1, 2)
    m = h.real("m", 0, 1)
    arr = h.array([a, m, b])
    ts = c.s2t(arr)
    h.eq("s2t", ts, [c.s2t(a), c.s2t(m), c.s2t(b)])
    h.eq("t2s", c.t2s(ts), arr)
    h.eq("points", c(arr), [c(a), c(m), c(b)])


def at(h, c, f, t0, t1, name, lo, hi):
    """a length parameter, given by its natural parameter (t2s is onto: param_roundtrip)"""
    t = t0 + (t1 - t0) * h.real(name, lo, hi)
    s = c.t2s(t)
    h.eq("point " + name, c(s), f(t))
    return s, f(t)


@harness("C03", "trim_start", modules=M)
def trim_start(h):
    c, f, t0, t1 = mk(h)
    s, want = at(h, c, f, t0, t1, "u", 0, 0.95)
    c.set_start_on(s)
    h.eq("start", c(0), want)
    h.eq("end", c(1), f(t1))
    h.eq("length", c.length * c.length, h.norm2(f(t1) - want))
    h.le("length >= 0", 0, c.length)


@harness("C03", "extend", modules=M)
def extend(h):
    """trimming beyond the ends extends the curve"""
    c, f, t0, t1 = mk(h, N=3)
    if h.bool("at_end"):
        s = h.real("se", 1, 2)
        want, end = c(s), c(0)
        c.set_end_on(s)
        h.eq("ends", [c(1), c(0)], [want, end])
        h.eq("length", c.length * c.length, h.norm2(end - want))
        h.le("length >= 0", 0, c.length)
    else:  # (an extrapolated motion may turn back before its start: no length)
        s = h.real("sb", -1, 0)
        want, end = c(s), c(1)
        c.set_start_on(s)
        h.eq("ends", [c(0), c(1)], [want, end])


@harness("C03", "trim_end", modules=M)
def trim_end(h):
    c, f, t0, t1 = mk(h)
    s, want = at(h, c, f, t0, t1, "u", 0.05, 1)
    c.set_end_on(s)
    h.eq("end", c(1), want)
    h.eq("start", c(0), f(t0))
    h.eq("length", c.length * c.length, h.norm2(want - f(t0)))
    h.le("length >= 0", 0, c.length)


@harness("C03", "trim_both", modules=M, max_paths=600)
def trim_both(h):
    c, f, t0, t1 = mk(h, N=3)
    s0, a = at(h, c, f, t0, t1, "u", 0, 0.9)
    s1, b = at(h, c, f, t0, t1, "v", 0.92, 1) if h.bool("last") else at(h, c, f, t0, t1, "w", 0.1, 1)
    h.assume(s1 > s0)
    c.set_start_and_end_on(s0, s1)
    h.eq("start", c(0), a)
    h.eq("end", c(1), b)
    h.eq("length", c.length * c.length, h.norm2(b - a))
    h.le("length >= 0", 0, c.length)


@harness("C03", "cut", modules=M)
def cut(h):
    c, f, t0, t1 = mk(h)
    s = h.real("s", 0.05, 0.95)
    m, a, b, L = c(s), c(0), c(1), c.length
    c1, c2 = c.cut(s)
    h.eq("first", [c1(0), c1(1)], [a, m])
    h.eq("second", [c2(0), c2(1)], [m, b])
    h.eq("lengths", c1.length + c2.length, L)
    h.eq("original", [c(0), c(1)], [a, b])
    h.eq("original length", c.length, L)


@harness("C03", "cut_outside", modules=M)
def cut_outside(h):
    """a cut beyond the ends extends the two parts up to the same point"""
    c, f, t0, t1 = mk(h, N=3)
    s = h.real("s", 1, 1.5) if h.bool("after") else h.real("sb", -0.5, 0)
    m, a, b = c(s), c(0), c(1)
    c1, c2 = c.cut(s)
    h.eq("first", [c1(0), c1(1)], [a, m])
    h.eq("second", [c2(0), c2(1)], [m, b])
    h.eq("original", [c(0), c(1)], [a, b])


@harness("C03", "reverse", modules=M)
def reverse(h):
    c, f, t0, t1 = mk(h)
    s = h.real("s", 0, 1)
    want, L = c(1 - s), c.length
    r = c.reverse()
    h.eq("reversed", c(s), want)
    h.eq("length", c.length, L)
    h.true("returns itself", r is c)
    c.reverse()
    h.eq("twice", [c(0), c(1)], [f(t0), f(t1)])


@harness("C03", "reverse_roundtrip", modules=M)
def reverse_rt(h):
    c, f, t0, t1 = mk(h)
    c.reverse()
    s = pick(h, c)
    t = c.s2t(s)
    h.eq("t2s(s2t)", c.t2s(t), s)


@harness("C03", "reverse_then_trim", modules=M)
def reverse_trim(h):
    c, f, t0, t1 = mk(h)
    c.reverse()
    s, want = at(h, c, f, t0, t1, "u", 0.05, 0.95)
    if h.bool("end"):
        c.set_end_on(s)
        h.eq("ends", [c(0), c(1)], [f(t1), want])
    else:
        c.set_start_on(s)
        h.eq("ends", [c(0), c(1)], [want, f(t0)])


@harness("C03", "algebra", modules=M)
def algebra(h):
    """the combined curve passes through the combined points of equal parameter"""
    crv = h.m("curve")
    p, q, u, v = (h.vec(n, -5, 5) for n in "pquv")
    k = h.real("kk", 0.1, 5)
    c1 = crv.LineCurve(p, q)
    c2 = crv.LineCurve(u, v)
    s = h.real("s", 0, 1)
    op = h.choice("op", ["add", "sub", "mul", "rmul", "div"])
    pt = lambda a, b: a + (b - a) * s
    f = {"add": lambda: (c1 + c2, pt(p, q) + pt(u, v)), "sub": lambda: (c1 - c2, pt(p, q) - pt(u, v)),
         "mul": lambda: (c1 * k, pt(p, q) * k), "rmul": lambda: (k * c1, pt(p, q) * k),
         "div": lambda: (c1 / k, pt(p, q) / k)}[op]
    # uniform-speed operands: stub the 21-point length table by its exact value
    h.stub(crv.Curve, "update_lengths", uniform(h), "generic straight curve: exact length table "
           "instead of 21 chords (harness C03.algebra)")
    c, want = f()
    h.eq("point", c(s), want)
    h.true("active", c.active)


def uniform(h):
    def update(self):
        a, b = self.function(self.t_0, **self.params), self.function(self.t_1, **self.params)
        self.length = h.np.linalg.norm(b - a)
        self.t2s_lookup = {"s": h.array([0, 1]), "t": h.array([self.t_0, self.t_1])}
    return update


@harness("C03", "algebra_accelerated", modules=M)
def algebra2(h):
    crv = h.m("curve")
    c1, f, t0, t1 = mk(h, N=3)
    k = h.real("kk", 0.1, 5)
    op = h.choice("op", ["mul", "div", "rmul"])
    h.stub(crv.Curve, "update_lengths", uniform(h), "scaled curve: exact end points only")
    c = {"mul": lambda: c1 * k, "rmul": lambda: k * c1, "div": lambda: c1 / k}[op]()
    g = (1 / k) if op == "div" else k
    h.eq("ends", [c(0), c(1)], [c1(0) * g, c1(1) * g])


@harness("C03", "derivative", modules=M)
def derivative(h):
    """exact on straight uniform curves in every direction mode; 2nd derivative zero"""
    crv = h.m("curve")
    p, q = h.vec("p", -5, 5), h.vec("q", -5, 5)
    c = crv.LineCurve(p, q)
    s = h.real("s", 0.1, 0.9)
    d = h.choice("dir", [0, 1, -1])
    h.eq("first", c.derivative(s, direction=d), q - p, tol=1e-5)
    h.eq("second", c.derivative(s, direction=d, n=2, delta=0.001), [0, 0, 0], tol=1e-5)


@harness("C03", "derivative_quadratic", modules=M)
def derivative2(h):
    """first and second derivative of a quadratic motion (length table stubbed uniform)"""
    crv = h.m("curve")
    b, g = h.vec("b", -3, 3), h.vec("g", -3, 3)
    c = crv.Curve(lambda t: b * t + g * (t * t), active=False)
    s = h.real("s", 0.1, 0.9)
    h.eq("first", c.derivative(s, direction=0, delta=0.001), b + g * (2 * s), tol=1e-5)
    h.eq("second", c.derivative(s, direction=0, n=2, delta=0.001), g * 2, tol=1e-4)


@harness("C03", "derivative_one_sided", modules=M)
def derivative3(h):
    """at a kink the one sided first and second derivatives are those of that side"""
    crv = h.m("curve")
    n = h.choice("n", [1, 2])
    d = h.choice("dir", [1, -1])
    k = h.real("k", 0.3, 0.7)
    b1, b2 = h.vec("b1", -3, 3), h.vec("b2", -3, 3)
    g1, g2 = h.vec("g1", -3, 3), h.vec("g2", -3, 3)
    h.assume(h.norm2(b1 - b2) > 0.1, h.norm2(g1 - g2) > 0.1)

    def f(t):
        u = t - k
        return b2 * u + g2 * (u * u) if u > 0 else b1 * u + g1 * (u * u)
    c = crv.Curve(f, active=False)
    x = c.derivative(k, direction=d, n=n, delta=0.001)
    b, g = (b2, g2) if d > 0 else (b1, g1)
    h.eq("derivative", x, b + g * (d * 0.001) if n == 1 else g * 2, tol=1e-4)


@harness("C03", "closed", modules=M)
def closed(h):
    crv = h.m("curve")
    p, q = h.vec("p", -5, 5), h.vec("q", -5, 5)
    h.assume(h.norm2(p - q) > 0.0001)
    h.true("open", not crv.LineCurve(p, q).is_closed)
    h.true("closed", bool(crv.LineCurve(p, p).is_closed))


def _history(h, depth, ops, wide):
    """any sequence of edits of a uniform motion = the same edits of its parameter interval"""
    crv = h.m("curve")
    p = h.array([h.real("px", -5, 5), 1, 0])
    d = h.array([h.real("dx", 0.5, 5), h.real("dy", -5, 5), 0])
    a, b = 0, h.real("w", 0.5, 3)

    def f(t):
        return p + d * t
    c = crv.Curve(f, t0=a, t1=b, lenght_approx_ndiv=2)
    for i in range(depth):
        op = h.choice(f"op{i}", ops)
        if op == "reverse":
            c.reverse()
            a, b = b, a
        elif op == "both":
            s0, s1 = h.real(f"s0_{i}", -1, 0.4), h.real(f"s1_{i}", 0.6, 2)
            c.set_start_and_end_on(s0, s1)
            a, b = a + (b - a) * s0, a + (b - a) * s1
        elif op == "start":
            s = h.real(f"s{i}", -1, 0.9)
            c.set_start_on(s)
            a = a + (b - a) * s
        elif op == "end":
            s = h.real(f"e{i}", 0.1, 2)
            c.set_end_on(s)
            b = a + (b - a) * s
        else:
            s = h.real(f"c{i}", 0.1, 0.9)
            m = a + (b - a) * s
            c = c.cut(s)[0 if op == "cut0" else 1]
            a, b = (a, m) if op == "cut0" else (m, b)
    u = h.real("u", -1, 2) if wide else h.real("u", 0.05, 0.95)
    h.eq("point", c(u), f(a + (b - a) * u))
    h.eq("length", c.length * c.length, h.norm2(f(b) - f(a)))
    h.le("length >= 0", 0, c.length)
    h.eq("s2t", c.s2t(u), a + (b - a) * u)
    h.eq("t2s", c.t2s(a + (b - a) * u), u)


@harness("C03", "edit_history", modules=M, max_paths=1500, budget=200)
def edit_history(h):
    _history(h, 2, ["reverse", "start", "end"], False)


@harness("C03", "history_cuts", modules=M, tier="thorough", max_paths=20000, budget=1500)
def history_cuts(h):
    _history(h, 2, ["reverse", "both", "cut0", "cut1"], True)


@harness("C03", "history_3", modules=M, tier="thorough", max_paths=20000, budget=1500)
def edit_history_3(h):
    _history(h, 3, ["reverse", "start", "end"], False)
