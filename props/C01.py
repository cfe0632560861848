"""C01 - placements behave as one affine-map algebra."""
from symgg.harness import harness

MOD = ["gggears_base_classes"]


def tr(h, cls, n, gear=False):
    b = h.m("gggears_base_classes")
    kw = dict(center=h.vec(n + "c"), orientation=h.orient(n + "o"), scale=h.real(n + "s", 0.1, 10))
    if gear:
        kw["angle"] = h.angle(n + "a", -7, 7)
    return getattr(b, cls)(**kw)


def ref(h, t, p):
    """the map a placement stands for, written independently"""
    M = t.orientation
    if hasattr(t, "angle"):
        M = M @ h.rz(t.angle)
    q = [h.dot(M[i], p) * t.scale + t.center[i] for i in range(3)]
    return h.array(q)


def app(h, t, p):
    b = h.m("gggears_base_classes")
    return t * p


for cls in ("Transform", "TransformData", "GearTransform", "GearTransformData"):
    gear = cls.startswith("Gear")

    @harness("C01", "apply_" + cls, modules=MOD)
    def _apply(h, cls=cls, gear=gear):
        t = tr(h, cls, "t", gear)
        p = h.vec("p")
        want = ref(h, t, p)
        h.eq("apply", t * p, want)
        if not cls.endswith("Data"):
            h.eq("call", t(p), want)
        A = t.affine_matrix
        h.eq("affine", [h.dot(A[i][:3], p) + A[i][3] for i in range(3)], want)
        h.eq("affine_row", A[3], [0, 0, 0, 1])
        h.eq("x_axis", t.x_axis, [t.orientation[i][0] for i in range(3)])
        h.eq("y_axis", t.y_axis, [t.orientation[i][1] for i in range(3)])
        h.eq("z_axis", t.z_axis, [t.orientation[i][2] for i in range(3)])

    @harness("C01", "batch_" + cls, modules=MOD)
    def _batch(h, cls=cls, gear=gear):
        t = tr(h, cls, "t", gear)
        p, q = h.vec("p"), h.vec("q")
        r = t * h.array([p, q])
        h.same_shape("batch", r, h.array([p, q]))
        h.eq("batch0", r[0], ref(h, t, p))
        h.eq("batch1", r[1], ref(h, t, q))

    @harness("C01", "compose_" + cls, modules=MOD)
    def _compose(h, cls=cls, gear=gear):
        t = tr(h, cls, "t", gear)
        u = tr(h, cls, "u", gear)
        p = h.vec("p")
        h.eq("compose", (t * u) * p, ref(h, t, ref(h, u, p)))

    @harness("C01", "invert_" + cls, modules=MOD)
    def _invert(h, cls=cls, gear=gear):
        t = tr(h, cls, "t", gear)
        p = h.vec("p")
        i = t.invert()
        h.eq("inv_left", i * ref(h, t, p), p)
        h.eq("inv_scale", i.scale * t.scale, 1)


@harness("C01", "compose_mixed", modules=MOD)
def compose_mixed(h):
    """a plain placement of a gear placement, of every kind"""
    t = tr(h, h.choice("outer", ["Transform", "TransformData"]), "t")
    u = tr(h, h.choice("inner", ["GearTransform", "GearTransformData"]), "u", True) \
        if h.choice("spun", [True, False]) else tr(h, h.choice("plain", ["Transform", "TransformData"]), "u")
    p = h.vec("p")
    h.eq("compose", (t * u) * p, ref(h, t, ref(h, u, p)))
