"""C04 - curve chains: navigation by arc length, trimming, cutting, reversing, editing."""
from symgg.harness import harness

M = ["curve"]


class Ch:
    """chain of n straight curves with arbitrary positions, directions and lengths"""

    def __init__(self, h, n, inactive=(), build=None, gap=True):
        crv = h.m("curve")
        self.h, self.n, self.inactive = h, n, set(inactive)
        self.p, self.d, self.L, self.c = [], [], [], []
        q = None
        for i in range(n):
            if q is None or gap:
                q = h.vec(f"p{i}_", -5, 5)
            a = h.angle(f"a{i}", -3.1, 3.1)
            d = h.array([h.np.cos(a), h.np.sin(a), 0])
            L = h.real(f"L{i}", 0.3, 4)
            self.p.append(q)
            self.d.append(d)
            self.L.append(L if i not in self.inactive else 0)
            self.c.append(crv.LineCurve(q, q + d * L, active=i not in self.inactive))
            q = q + d * L
        self.act = [i for i in range(n) if i not in self.inactive]
        self.tot = sum(self.L[i] for i in self.act)
        self.chain = (build or (lambda c: crv.CurveChain(*c)))(self.c)

    def s(self, i, u):
        """chain parameter of the point at fraction u of curve i"""
        return (sum(self.L[:i]) + u * self.L[i]) / self.tot

    def pt(self, i, u):
        return self.p[i] + self.d[i] * (u * self.L[i])

    def start(self):
        return self.p[self.act[0]]

    def end(self):
        return self.pt(self.act[-1], 1)


def nested(h):
    crv = h.m("curve")
    return lambda c: crv.CurveChain(c[0], crv.CurveChain(c[1], c[2]), *c[3:])


INACT = [(), (0,), (1,), (2,)]


@harness("C04", "locate", modules=M)
def locate(h):
    """the point at parameter s lies s*length along the active curves, in order"""
    k = Ch(h, 3, h.choice("inactive", INACT))
    i = h.choice("i", k.act)
    u = h.real("u", 0.001, 0.999)
    s = k.s(i, u)
    c = k.chain
    h.eq("length", c.length, k.tot)
    h.eq("point", c(s), k.pt(i, u))
    idx, s2 = c.get_s_index(s)
    h.eq("index", [idx, s2], [i, u])
    a, b = c.get_t_for_index(i)
    h.eq("range", [a, b], [k.s(i, 0), k.s(i, 1)])


@harness("C04", "locate_4", modules=M, tier="thorough", budget=400)
def locate4(h):
    k = Ch(h, 4, h.choice("inactive", [(), (0, 1), (1, 2), (3,), (0, 3)]))
    i = h.choice("i", k.act)
    u = h.real("u", 0.001, 0.999)
    h.eq("length", k.chain.length, k.tot)
    h.eq("point", k.chain(k.s(i, u)), k.pt(i, u))


@harness("C04", "ends", modules=M)
def ends(h):
    k = Ch(h, 3, h.choice("inactive", INACT))
    c = k.chain
    h.eq("start", c(0), k.start())
    h.eq("end", c(1), k.end())
    h.eq("portions", [c.get_length_portions()[0], c.get_length_portions()[-1]], [0, 1])
    h.eq("array", c(h.array([0, 1])), [k.start(), k.end()])
    h.true("active", c.active)


@harness("C04", "extrapolate", modules=M)
def extrapolate(h):
    k = Ch(h, 2)
    s = h.real("s", 0.01, 1)
    h.eq("before", k.chain(-s), k.start() - k.d[0] * (s * k.tot))
    h.eq("after", k.chain(1 + s), k.end() + k.d[1] * (s * k.tot))


@harness("C04", "nested", modules=M)
def nest(h):
    k = Ch(h, 3, build=nested(h))
    i = h.choice("i", k.act)
    u = h.real("u", 0.01, 0.99)
    h.eq("length", k.chain.length, k.tot)
    h.eq("point", k.chain(k.s(i, u)), k.pt(i, u))
    fl = k.chain.get_curves()
    h.true("flatten", len(fl) == 3 and all(a is b for a, b in zip(fl, k.c)))


def judge_trim(h, k, i, u, j, v, ch, keep, what=""):
    a, b = k.pt(i, u), k.pt(j, v)
    L = sum(k.L[i:j + 1]) - u * k.L[i] - (1 - v) * k.L[j]
    h.eq(what + "start", ch(0), a)
    h.eq(what + "end", ch(1), b)
    h.eq(what + "length", ch.length, L)
    n = k.n if keep else j - i + 1
    h.true(what + "count", ch.num_curves == n)
    w = h.real(what + "w", 0.01, 0.99)
    m = h.choice(what + "m", [q for q in k.act if i <= q <= j])
    lo, hi = (u if m == i else 0), (v if m == j else 1)
    x = lo + (hi - lo) * w
    s = (sum(k.L[i:m]) + x * k.L[m] - u * k.L[i]) / L if m > i else (x - u) * k.L[m] / L
    h.eq(what + "inner", ch(s), k.pt(m, x))


@harness("C04", "trim_start", modules=M)
def trim_start(h):
    k = Ch(h, 3, h.choice("inactive", [(), (1,)]))
    keep = h.bool("keep")
    i = h.choice("i", k.act)
    u = h.real("u", 0.02, 0.9)
    k.chain.set_start_on(k.s(i, u), preserve_inactive_curves=keep)
    judge_trim(h, k, i, u, 2, 1, k.chain, keep)


@harness("C04", "trim_end", modules=M)
def trim_end(h):
    k = Ch(h, 3, h.choice("inactive", [(), (1,)]))
    keep = h.bool("keep")
    j = h.choice("j", k.act)
    v = h.real("v", 0.1, 0.98)
    k.chain.set_end_on(k.s(j, v), preserve_inactive_curves=keep)
    judge_trim(h, k, 0, 0, j, v, k.chain, keep)


@harness("C04", "trim_both", modules=M)
def trim_both(h):
    k = Ch(h, 3)
    keep = h.bool("keep")
    i, j = h.choice("ij", [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)])
    u = h.real("u", 0.02, 0.5)
    v = h.real("v", 0.6, 0.98)
    k.chain.set_start_and_end_on(k.s(i, u), k.s(j, v), preserve_inactive_curves=keep)
    judge_trim(h, k, i, u, j, v, k.chain, keep)


@harness("C04", "trim_nested", modules=M)
def trim_nested(h):
    k = Ch(h, 3, build=nested(h))
    i = h.choice("i", k.act)
    u = h.real("u", 0.05, 0.9)
    a = k.pt(i, u)
    if h.bool("end"):
        k.chain.set_end_on(k.s(i, u))
        h.eq("ends", [k.chain(0), k.chain(1)], [k.start(), a])
        h.eq("length", k.chain.length, k.s(i, u) * k.tot)
    else:
        k.chain.set_start_on(k.s(i, u))
        h.eq("ends", [k.chain(0), k.chain(1)], [a, k.end()])
        h.eq("length", k.chain.length, (1 - k.s(i, u)) * k.tot)


@harness("C04", "cut", modules=M)
def cut(h):
    """the two pieces partition the chain; the chain itself is untouched"""
    k = Ch(h, 3)
    keep = h.bool("keep")
    i = h.choice("i", k.act)
    u = h.real("u", 0.02, 0.98)
    c1, c2 = k.chain.cut(k.s(i, u), preserve_inactive_curves=keep)
    m = k.pt(i, u)
    h.eq("first", [c1(0), c1(1)], [k.start(), m])
    h.eq("second", [c2(0), c2(1)], [m, k.end()])
    h.eq("lengths", c1.length + c2.length, k.tot)
    h.eq("original", [k.chain(0), k.chain(1)], [k.start(), k.end()])
    h.eq("original length", k.chain.length, k.tot)
    h.true("counts", len(c1) + len(c2) == (6 if keep else 4) and len(k.chain) == 3)


@harness("C04", "reverse", modules=M)
def reverse(h):
    k = Ch(h, 3, h.choice("inactive", [(), (1,), (0,)]))
    i = h.choice("i", k.act)
    u = h.real("u", 0.01, 0.99)
    r = k.chain.reverse()
    h.true("returns itself", r is k.chain)
    h.eq("point", k.chain(1 - k.s(i, u)), k.pt(i, u))
    h.eq("ends", [k.chain(0), k.chain(1)], [k.end(), k.start()])
    h.eq("length", k.chain.length, k.tot)
    k.chain.reverse()
    h.eq("twice", k.chain(k.s(i, u)), k.pt(i, u))


@harness("C04", "reverse_nested", modules=M)
def reverse_nested(h):
    k = Ch(h, 3, build=nested(h))
    i = h.choice("i", k.act)
    u = h.real("u", 0.01, 0.99)
    k.chain.reverse()
    h.eq("point", k.chain(1 - k.s(i, u)), k.pt(i, u))
    h.eq("length", k.chain.length, k.tot)


@harness("C04", "edit", modules=M)
def edit(h):
    """after every list edit the chain is the one made of the resulting list"""
    crv = h.m("curve")
    k = Ch(h, 3)
    c = list(k.c)
    op = h.choice("op", ["append", "extend", "insert0", "insert1", "insert_end", "insert_neg", "pop", "pop0", "set", "del0", "del1"])
    ch = crv.CurveChain(c[0], c[1])
    if op == "append":
        ch.append(c[2])
        want = [0, 1, 2]
    elif op == "extend":
        ch.extend([c[2]])
        want = [0, 1, 2]
    elif op == "insert0":
        ch.insert(0, c[2])
        want = [2, 0, 1]
    elif op == "insert1":
        ch.insert(1, c[2])
        want = [0, 2, 1]
    elif op == "insert_end":
        ch.insert(2, c[2])
        want = [0, 1, 2]
    elif op == "insert_neg":
        ch.insert(-1, c[2])
        want = [0, 2, 1]
    elif op == "pop":
        h.true("popped", ch.pop() is c[1])
        want = [0]
    elif op == "pop0":
        h.true("popped", ch.pop(0) is c[0])
        want = [1]
    elif op == "set":
        ch[1] = c[2]
        want = [0, 2]
    elif op == "del0":
        del ch[0]
        want = [1]
    else:
        del ch[1]
        want = [0]
    h.true("members", len(ch) == len(want) == ch.num_curves and
           all(a is c[w] for a, w in zip(ch, want)))
    L = [k.L[w] for w in want]
    h.eq("length", ch.length, sum(L))
    j = h.choice("j", list(range(len(want))))
    u = h.real("u", 0.01, 0.99)
    s = (sum(L[:j]) + u * L[j]) / sum(L)
    h.eq("point", ch(s), k.pt(want[j], u))


@harness("C04", "inactive_members", modules=M)
def inactive_members(h):
    crv = h.m("curve")
    ina = h.choice("inactive", [(), (0,), (1,), (2,), (0, 1), (1, 2), (0, 1, 2)])
    k = Ch(h, 3, ina)
    c = k.chain
    h.true("active", bool(c.active) == bool(k.act))
    h.true("list", [bool(x) for x in c.active_list] == [i in k.act for i in range(3)])
    if k.act:
        h.true("first", c.idx_active_min == k.act[0])
        h.true("last", c.idx_active_max == k.act[-1])
    if ina == (1,):
        f = c.get_curves(lerp_inactive=True)
        h.eq("bridge", [f[1](0), f[1](1)], [k.pt(0, 1), k.p[2]])
        h.true("bridge inactive", not f[1].active)
    c.del_inactive_curves()
    h.true("deleted", len(c) == len(k.act) and all(a is k.c[i] for a, i in zip(c, k.act)))


@harness("C04", "continuity", modules=M)
def continuity(h):
    """continuity flags: exactly the touching neighbours (a gap of at least 1e-4 is open)"""
    crv = h.m("curve")
    gap = h.choice("gap", [(), (0,), (1,), (2,), (0, 1)])
    a = h.vec("a", -5, 5)
    g = h.real("g", 0.0001, 2)
    off = h.array([g, 0, 0])
    p = [a, a + h.vec("b", 0.1, 5), a + h.vec("c", -5, -0.1)]
    cs = []
    for i in range(3):
        e = p[(i + 1) % 3]
        cs.append(crv.LineCurve(p[i], e + off if i in gap else e))
    dead = h.choice("inactive", [None, 0, 1, 2])
    if dead is not None:
        # the joints of an inactive member do not count
        cs[dead].active = False
        ch = crv.CurveChain(*cs)
        h.true("list", [bool(x) for x in ch.continuity_list] ==
               [i not in gap or dead in (i, (i + 1) % 3) for i in range(3)])
        h.true("continuous", bool(ch.is_continuous) == all(i not in gap or dead in (i, i + 1) for i in (0, 1)))
        return
    ch = crv.CurveChain(*cs)
    h.true("list", [bool(x) for x in ch.continuity_list] == [i not in gap for i in range(3)])
    h.true("continuous", bool(ch.is_continuous) == (0 not in gap and 1 not in gap))
    h.true("closed", bool(ch.is_closed) == (not gap))


@harness("C04", "as_operand", modules=M)
def as_operand(h):
    """scaled, divided, added, mirrored, turned and moved chains pass through the correspondingly changed points"""
    from props.C03 import uniform
    crv = h.m("curve")
    op = h.choice("op", ["mul", "rmul", "div", "add", "sub", "mirror", "rotate", "move"])
    k = Ch(h, 2, gap=False)
    c = k.chain
    f = h.real("f", 0.2, 4)
    v = h.vec("v", -3, 3)
    a = h.angle("turn", 0.1, 3)
    n = h.array([h.np.cos(a), h.np.sin(a), 0])
    line = crv.LineCurve(v, 2 * v + n)
    h.stub(crv.Curve, "update_lengths", uniform(h), "combined curve: exact end points only")
    R = lambda p: h.array([p[0] * n[0] - p[1] * n[1], p[0] * n[1] + p[1] * n[0], p[2]])
    new, point = {
        "mul": lambda: (c * f, lambda p, s: p * f),
        "rmul": lambda: (f * c, lambda p, s: p * f),
        "div": lambda: (c / f, lambda p, s: p / f),
        "add": lambda: (c + line, lambda p, s: p + v + (v + n) * s),
        "sub": lambda: (c - line, lambda p, s: p - v - (v + n) * s),
        "mirror": lambda: (crv.MirroredCurve(c, plane_normal=n), lambda p, s: p - 2 * n * (p[0] * n[0] + p[1] * n[1])),
        "rotate": lambda: (crv.RotatedCurve(c, angle=a, axis=h.array([0, 0, 1])), lambda p, s: R(p)),
        "move": lambda: (crv.TransformedCurve(lambda p: p * f + v, c), lambda p, s: p * f + v),
    }[op]()
    i = h.choice("i", [0, 1])
    u = h.real("u", 0.01, 0.99)
    s = k.s(i, u)
    h.true("active", new.active)
    h.eq("ends", [new(0), new(1)], [point(k.start(), 0), point(k.end(), 1)])
    h.eq("point", new(new.t2s(s)), point(k.pt(i, u), s))
    h.eq("chain itself", [c(0), c(1)], [k.start(), k.end()])
