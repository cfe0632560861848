"""build123d facade: exact placement algebra, edges and bezier patches as the point
functions they stand for, prisms as their corner points; everything else is a
placeholder that accepts any use."""
import types

import numpy as np

from . import sym as S
from .sym import Sym
from .npshim import SArr


def _num(x):
    if isinstance(x, np.ndarray):
        x = x.item()
    return x


class _AnyMeta(type):
    def __getattr__(cls, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any()


class _Any(metaclass=_AnyMeta):
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any()

    def __call__(self, *a, **k):
        return _Any()


def vec(x):
    """three components of anything vector-like"""
    if isinstance(x, Vector):
        return [x.X, x.Y, x.Z]
    v = [_num(c) for c in x]
    return v + [0] * (3 - len(v))


def arr(rows):
    a = np.empty(np.shape(rows), dtype=object)
    for i in np.ndindex(a.shape):
        c = rows
        for k in i:
            c = c[k]
        a[i] = c
    return a.view(SArr)


class Vector:
    def __init__(self, *a, **k):
        if len(a) == 1 and not isinstance(a[0], (Sym, int, float)):
            a = vec(a[0])
        a = [_num(c) for c in a] + [0] * (3 - len(a))
        self.X, self.Y, self.Z = k.get("X", a[0]), k.get("Y", a[1]), k.get("Z", a[2])

    def __iter__(self):
        return iter((self.X, self.Y, self.Z))

    def __getitem__(self, i):
        return (self.X, self.Y, self.Z)[i]

    def __len__(self):
        return 3

    def __add__(self, o):
        return Vector(*[a + b for a, b in zip(self, vec(o))])

    def __sub__(self, o):
        return Vector(*[a - b for a, b in zip(self, vec(o))])

    def __mul__(self, f):
        return Vector(*[a * f for a in self])

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def to_tuple(self):
        return (self.X, self.Y, self.Z)


EYE = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def matmul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def apply(m, v):
    return [sum(m[i][k] * v[k] for k in range(3)) for i in range(3)]


def axis_rot(ax, a):
    from .scishim import Rotation
    m = Rotation.from_euler(ax, a).as_matrix()
    return [[m[i, j] for j in range(3)] for i in range(3)]


def euler(ordering, angles):
    """rotation matrix of Euler angles (degrees, in the order of the axes named)"""
    C = S.CTX
    ang = [Sym.of(a) * C.PI / 180 for a in angles]
    name = ordering.name if ordering is not None else "XYZ"
    if ordering is None or ordering.kind == "Intrinsic":
        name, ang = name[::-1], ang[::-1]
    seq = name.lower()                       # extrinsic: first named axis acts first
    # angles that came out of as_euler (possibly with a turn added at either end)
    for key, m in list(C.euler_memo.items()):
        if key[0] != seq or len(key) != 4 or not isinstance(m, np.ndarray):
            continue
        base = C.euler_memo.get(("angles",) + key)
        if base is None:
            continue
        d = [x - y for x, y in zip(ang, base)]
        if d[1].is_zero() and (d[0].is_zero() or d[2].is_zero()):
            out = [[m[i, j] for j in range(3)] for i in range(3)]
            if not d[0].is_zero():
                out = matmul(out, axis_rot(seq[0], d[0]))
            if not d[2].is_zero():
                out = matmul(axis_rot(seq[2], d[2]), out)
            return out
    m = EYE
    for ax, a in zip(seq, ang):
        m = matmul(axis_rot(ax, a), m)
    return m


class _Order:
    def __init__(self, kind, name):
        self.kind, self.name = kind, name


def _orders(kind):
    names = ["XYZ", "XZY", "YZX", "YXZ", "ZXY", "ZYX"]
    return type(kind, (), {n: _Order(kind, n) for n in names})


Extrinsic, Intrinsic = _orders("Extrinsic"), _orders("Intrinsic")


class Location:
    def __init__(self, *a, **k):
        pos = k.get("position", a[0] if a else None)
        ori = k.get("orientation", a[1] if len(a) > 1 else None)
        order = k.get("ordering", a[2] if len(a) > 2 else None)
        self.R, self.p = EYE, [0, 0, 0]
        pos = k.get("plane", pos)
        if isinstance(pos, Plane):
            self.R, self.p = [list(r) for r in pos.R], vec(pos.origin)
            return
        if isinstance(pos, Location):
            self.R, self.p = pos.R, list(pos.p)
            return
        if pos is not None:
            self.p = vec(pos)
        if ori is not None:
            if isinstance(ori, (Sym, int, float)):
                self.R = axis_rot("z", Sym.of(ori) * S.CTX.PI / 180)
            else:
                self.R = euler(order, vec(ori))

    @property
    def position(self):
        return Vector(*self.p)

    @position.setter
    def position(self, v):
        self.p = vec(v)

    def inverse(self):
        o = Location()
        o.R = [[self.R[j][i] for j in range(3)] for i in range(3)]
        o.p = [-c for c in apply(o.R, self.p)]
        return o

    def at(self, v):
        return [a + b for a, b in zip(apply(self.R, vec(v)), self.p)]

    def __mul__(self, o):
        if isinstance(o, Location):
            r = Location()
            r.R, r.p = matmul(self.R, o.R), self.at(o.p)
            return r
        if isinstance(o, Vector):
            return Vector(*self.at(o))
        if isinstance(o, Shape):
            return o.moved(self)
        if isinstance(o, (list, tuple)):
            return [self * x for x in o]
        if isinstance(o, Plane):
            return Plane(self * o.location)
        if isinstance(o, GridLocations):
            return _Locs([self * x for x in o])
        return _Any()


class Rotation(Location):
    def __init__(self, *a, **k):
        x = k.get("X", a[0] if a else 0)
        y = k.get("Y", a[1] if len(a) > 1 else 0)
        z = k.get("Z", a[2] if len(a) > 2 else 0)
        order = k.get("ordering", a[3] if len(a) > 3 else None)
        if len(a) in (1, 2) and not isinstance(a[0], (Sym, int, float)):
            x, y, z = vec(a[0])
            order = k.get("ordering", a[1] if len(a) > 1 else None)
        super().__init__((0, 0, 0), (x, y, z), order)


def Pos(*a, **k):
    if len(a) == 1 and not isinstance(a[0], (Sym, int, float)):
        a = vec(a[0])
    a = list(a) + [0] * (3 - len(a))
    return Location((k.get("X", a[0]), k.get("Y", a[1]), k.get("Z", a[2])))


class GridLocations:
    def __init__(self, dx, dy, nx, ny):
        self.locs = [Location(((i - Sym.of(nx - 1) / 2) * dx, (j - Sym.of(ny - 1) / 2) * dy, 0))
                     for i in range(nx) for j in range(ny)]

    def __iter__(self):
        return iter(self.locs)

    def __rmul__(self, o):
        return _Locs([o * x for x in self.locs])

    def __mul__(self, o):
        return [x * o for x in self.locs]


class _Locs(list):
    def __mul__(self, o):
        return [x * o for x in self]


class _Axis:
    X, Y, Z = "x", "y", "z"


class Plane:
    def __init__(self, *a, **k):
        if a and isinstance(a[0], Location):
            self.R, self.origin = a[0].R, Vector(*a[0].p)
        elif a and isinstance(a[0], Plane):
            self.R, self.origin = a[0].R, a[0].origin
        else:
            x = k.get("x_dir", a[1] if len(a) > 1 else None)
            z = k.get("z_dir", a[2] if len(a) > 2 else (0, 0, 1))
            if x is None or S.CTX is None:
                x = (1, 0, 0)
            x, z = vec(x), vec(z)
            y = [z[1] * x[2] - z[2] * x[1], z[2] * x[0] - z[0] * x[2], z[0] * x[1] - z[1] * x[0]]
            self.R = [[x[i], y[i], z[i]] for i in range(3)]
            self.origin = Vector(k.get("origin", a[0] if a else (0, 0, 0)))

    def _col(self, j):
        return Vector(*[self.R[i][j] for i in range(3)])

    x_dir = property(lambda s: s._col(0))
    y_dir = property(lambda s: s._col(1))
    z_dir = property(lambda s: s._col(2))
    location = property(lambda s: Location(s))

    def offset(self, d):
        p = Plane(self)
        p.origin = self.origin + self.z_dir * d
        return p


def _plane(x, z):
    return Plane((0, 0, 0), x, z)


class Shape:
    """f: point map; subclasses carry `pts(f)`"""

    _at = (0, 0, 0)         # position of the shape's location: scaling is about it

    def moved(self, loc):
        r = self.mapped(loc.at)
        r._at = loc.at(self._at)
        return r

    def located(self, loc):
        return self.moved(loc)

    def scale(self, factor, about=None):
        o = self._at if about is None else vec(about)
        r = self.mapped(lambda p: [(c - a) * factor + a for c, a in zip(p, o)])
        r._at = self._at
        return r

    def translate(self, v):
        v = vec(v)
        r = self.mapped(lambda p: [a + b for a, b in zip(p, v)])
        r._at = [a + b for a, b in zip(self._at, v)]
        return r

    def rotate(self, axis, angle):
        m = axis_rot(axis, Sym.of(_num(angle)) * S.CTX.PI / 180)
        return self.mapped(lambda p: apply(m, p))

    def mirror(self, plane=None):
        n = vec((plane or _plane((1, 0, 0), (0, 0, 1))).z_dir)
        return self.mapped(lambda p: [a - 2 * b * sum(x * y for x, y in zip(p, n)) for a, b in zip(p, n)])

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any()


class Edge(Shape):
    """a parametrised edge, u in 0..1"""

    def __init__(self, *a, f=None, **k):
        self.f = f

    @classmethod
    def make_line(cls, a, b):
        a, b = vec(a), vec(b)
        return cls(f=lambda u: [x + (y - x) * u for x, y in zip(a, b)])

    @classmethod
    def make_bezier(cls, *pts, weights=None):
        pts = [vec(p) for p in pts]
        w = list(weights) if weights is not None else [1] * len(pts)
        assert len(w) == len(pts)
        e = cls(f=lambda u: bezier(pts, w, u))
        return e

    @classmethod
    def make_circle(cls, radius, plane=None, start_angle=360.0, end_angle=360.0, angular_direction=None):
        plane = plane or Plane()
        rad = lambda d: Sym.of(d) * S.CTX.PI / 180
        if isinstance(start_angle, float) and isinstance(end_angle, float) and start_angle == end_angle:
            a, b = Sym.of(0), rad(360)
        else:
            a, b = rad(start_angle), rad(end_angle)
        o, x, y = vec(plane.origin), vec(plane.x_dir), vec(plane.y_dir)

        def f(u):
            t = a + (b - a) * u
            t = Sym.of(t)
            c, s = t.cos(), t.sin()
            return [o[i] + radius * (c * x[i] + s * y[i]) for i in range(3)]
        return cls(f=f)

    def __matmul__(self, u):
        return Vector(*self.f(u))

    position_at = __matmul__

    def mapped(self, g):
        f = self.f
        return Edge(f=lambda u: g(f(u)))


def bezier(pts, w, u):
    """rational de Casteljau in homogeneous coordinates"""
    q = [[c * Sym.of(wi) for c in p] + [Sym.of(wi)] for p, wi in zip(pts, w)]
    while len(q) > 1:
        q = [[a + (b - a) * u for a, b in zip(x, y)] for x, y in zip(q, q[1:])]
    return [c / q[0][3] for c in q[0][:3]]


class Face(Shape):
    """bezier patch (pts[i][j], weights), or a flat face with corner points"""

    def __init__(self, *a, grid=None, w=None, corners=None, **k):
        self.grid, self.w, self.corners = grid, w, corners or []

    @classmethod
    def make_bezier_surface(cls, points, weights=None):
        g = [[vec(p) for p in r] for r in points]
        return cls(grid=g, w=[list(r) for r in weights] if weights is not None else [[1] * len(r) for r in g])

    def position_at(self, u, v):
        rows = []
        for r, w in zip(self.grid, self.w):
            q = [[c * Sym.of(wi) for c in p] + [Sym.of(wi)] for p, wi in zip(r, w)]
            rows.append(q)
        def cast(q, t):
            while len(q) > 1:
                q = [[a + (b - a) * t for a, b in zip(x, y)] for x, y in zip(q, q[1:])]
            return q[0]
        q = cast([cast(r, v) for r in rows], u)
        return Vector(*[c / q[3] for c in q[:3]])

    def mapped(self, g):
        if self.grid is not None:
            return Face(grid=[[g(p) for p in r] for r in self.grid], w=self.w)
        return Face(corners=[g(p) for p in self.corners])

    @staticmethod
    def fuse(*faces):
        return Face(corners=[p for f in faces for p in f.corners])

    def vertices(self):
        return [Vector(*p) for p in self.corners]


class Polyline(Shape):
    def __init__(self, *pts, corners=None):
        if len(pts) == 1:
            pts = pts[0]
        self.corners = corners if corners is not None else [vec(p) for p in pts]

    def mapped(self, g):
        return Polyline(corners=[g(p) for p in self.corners])

    def vertices(self):
        return [Vector(*p) for p in self.corners]


class Wire(Shape):
    def __init__(self, *a, **k):
        parts = []
        for x in a:
            parts += list(x) if isinstance(x, (list, tuple)) else [x]
        self.parts = parts
        self.corners = [p for x in parts for p in getattr(x, "corners", [])]

    def mapped(self, g):
        w = Wire(*[x.mapped(g) for x in self.parts])
        return w

    def edges(self):
        return [e for x in self.parts for e in ([x] if isinstance(x, Edge) else x.edges())]


def make_face(edges=None, **k):
    edges = edges if isinstance(edges, (list, tuple)) else [edges]
    return Face(corners=[p for e in edges for p in getattr(e, "corners", [])])


class Solid(Shape):
    def __init__(self, *a, corners=None, **k):
        self.corners = corners if corners is not None else [p for x in a for p in getattr(x, "corners", [])]

    def mapped(self, g):
        return type(self)(corners=[g(p) for p in self.corners])

    def vertices(self):
        return [Vector(*p) for p in self.corners]

    @classmethod
    def extrude(cls, face, direction):
        d = vec(direction)
        s = cls(corners=list(face.corners) + [[a + b for a, b in zip(p, d)] for p in face.corners])
        s.top = Face(corners=s.corners[len(face.corners):])
        return s

    def faces(self):
        return _Faces(self)

    def fuse(self, o):
        return type(self)(corners=self.corners + o.corners)

    def __add__(self, o):
        return type(self)(corners=self.corners + o.corners)


class _Faces:
    """of an extrusion upwards: sorted by Z, the last one is the far end"""

    def __init__(self, s):
        self.s = s

    def sort_by(self, axis):
        return self if axis == "z" else _Any()

    def __getitem__(self, i):
        return self.s.top if i == -1 else _Any()


class Part(Solid):
    pass


class BasePartObject(Solid):
    pass


def extrude(to_extrude=None, amount=None, dir=None, **k):
    d = vec(dir) if dir is not None else [0, 0, 1]
    n = S.CTX.sqrt(sum(Sym.of(c) * c for c in d))
    return Part(corners=Solid.extrude(to_extrude, [c * amount / n for c in d]).corners)


def Line(pts, *more):
    pts = [pts] + list(more) if more else list(pts)
    return Edge.make_line(*pts)


class BDModule(types.ModuleType):
    __all__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _AnyMeta(n, (_Any,), {})


def make_module():
    m = BDModule("build123d")
    for n in ("Vector", "Location", "Rotation", "Pos", "GridLocations", "Plane", "Edge", "Face", "Polyline", "Wire",
              "Solid", "Part", "BasePartObject", "make_face", "extrude", "Line", "Extrinsic", "Intrinsic"):
        setattr(m, n, globals()[n])
    m.Axis = _Axis
    Plane.XY, Plane.XZ, Plane.YZ = _plane((1, 0, 0), (0, 0, 1)), _plane((1, 0, 0), (0, -1, 0)), _plane((0, 1, 0), (1, 0, 0))
    return m
