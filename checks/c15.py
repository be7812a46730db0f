"""C15: implicit primitives, their set operations and spatial trees describe the solids they name."""
import math

import numpy as np

import gen
from mmcore.geom.circle import Circle2D, circle_intersection2d, closest_point_on_circle_2d, tangents_lines
from mmcore.geom.implicit.implicit import Implicit2D, Implicit3D, op_intersection, op_inv, op_subtraction, op_union, op_xor
from mmcore.geom.implicit.tree import ImplicitTree2D, ImplicitTree3D
from mmcore.geom.primitives import Cylinder, ImplicitCylinder, Sphere, Tube

RULE = "one case = one random primitive, circle pair, tree of set operations (depth up to 3) or spatial tree, probed at random, near-surface and axis points against the closed form"
ASSUMPTIONS = [
    "the bounds of a cylinder are judged up to 1e-7 (they are computed as r*sqrt(1-d^2), which loses half the digits along an axis)",
    "a Circle2D on the left takes part in set operations through the named methods (its operators are those of Curve)",
    "gradients are judged away from the axis, the centre and the places where two parts of a tube wall meet (the distance is not differentiable there)",
    "the wall of a Tube reaches half the thickness to either side of its radius; ImplicitCylinder and Tube are unbounded along the axis while their bounds() are those between start and end",
]


def frame(rng):
    R = gen.rotation(rng)
    if rng.integers(3) == 0:
        R = np.eye(3)[rng.permutation(3)] * rng.choice([-1.0, 1.0])
    return R


class Ref:
    """shadow of one compiled primitive"""
    def __init__(self, kind, a, b, r, th):
        self.kind, self.a, self.b, self.r, self.th = kind, a, b, r, th

    def radial(self, x):
        if self.kind == "sphere":
            return x - self.a
        d = self.b - self.a
        return x - self.a - d * ((x - self.a) @ d) / (d @ d)

    def sd(self, x):
        n = np.linalg.norm(self.radial(x)) - self.r
        return abs(n) - self.th / 2 if self.kind == "tube" else n

    def normal(self, x):
        v = self.radial(x)
        n = np.linalg.norm(v)
        s = 1.0 if self.kind != "tube" or n > self.r else -1.0
        return s * v / n

    def bounds(self):
        R = self.r + (self.th / 2 if self.kind == "tube" else 0)
        if self.kind == "sphere":
            return np.array([self.a - R, self.a + R])
        d = (self.b - self.a) / np.linalg.norm(self.b - self.a)
        e = R * np.sqrt(np.maximum(0, 1 - d * d))
        return np.array([np.minimum(self.a, self.b) - e, np.maximum(self.a, self.b) + e])

    def astuple(self):
        return tuple(self.a.tolist()) + (() if self.kind == "sphere" else tuple(self.b.tolist())) + (self.r,) + ((self.th,) if self.kind == "tube" else ())

    def probes(self, rng, n):
        out = []
        for _ in range(n):
            u = rng.normal(size=3)
            u /= np.linalg.norm(u)
            if self.kind == "sphere":
                out.append(self.a + u * self.r * float(rng.choice([0.3, 1.0, 1.7, 4.0])))
            else:
                d = (self.b - self.a)
                w = np.cross(d, u)
                w /= np.linalg.norm(w)
                out.append(self.a + d * rng.uniform(-0.7, 1.7) + w * self.r * float(rng.choice([0.2, 0.9, 1.0, 1.3, 3.0])))
        return out


def compare(ctx, rng, obj, m, what):
    for x in m.probes(rng, 5):
        ctx.close("distance", obj.implicit(x.copy()), m.sd(x), 1e-9, "%s: implicit(%r)" % (what, x.tolist()))
        n = np.linalg.norm(m.radial(x))
        if n > 0.05 * m.r and (m.kind != "tube" or abs(n - m.r) > 0.01 * m.r):
            g = np.asarray(obj.gradient(x.copy()))
            ctx.close("gradient", g, m.normal(x), 1e-4 if m.kind == "tube" else 1e-8, "%s: gradient(%r)" % (what, x.tolist()))
    ctx.close("bounds", np.array(obj.bounds()), m.bounds(), 1e-7, "%s: bounds" % what)
    t = obj.astuple()
    ctx.check("astuple", isinstance(t, tuple) and t == m.astuple(), "%s: astuple %r, expected %r" % (what, t, m.astuple()))
    ctx.check("radius", obj.radius == m.r, "%s: radius %r" % (what, obj.radius))
    if m.kind == "sphere":
        ctx.close("ends", np.array(obj.origin), m.a, 0, "%s: origin" % what)
    else:
        ctx.close("ends", np.array([np.array(obj.start), np.array(obj.end), np.array(obj.direction)]), np.array([m.a, m.b, m.b - m.a]), 1e-14, "%s: start/end/direction" % what)


def primitives(ctx):
    rng = ctx.rng
    kind = str(rng.choice(["sphere", "cylinder", "tube"]))
    a = rng.uniform(-5, 5, 3)
    b = a + frame(rng)[0] * rng.uniform(0.3, 6)
    r = float(rng.uniform(0.3, 3))
    th = float(rng.uniform(0.05, 0.4) * r)
    make = {"sphere": lambda: Sphere(a.copy(), r), "cylinder": lambda: ImplicitCylinder(a.copy(), b.copy(), r), "tube": lambda: Tube(a.copy(), b.copy(), r, th)}
    obj, m = make[kind](), Ref(kind, a, b, r, th)
    hist = []
    compare(ctx, rng, obj, m, "new " + kind)
    for _ in range(int(rng.integers(0, 5))):
        op = str(rng.choice(["radius", "origin"] if kind == "sphere" else ["radius", "start", "end"]))
        hist.append(op)
        if op == "radius":
            m.r = float(rng.uniform(0.5, 3)) + m.th
            obj.radius = m.r
        elif op == "end":
            m.b = m.a + frame(rng)[0] * rng.uniform(0.3, 6)
            obj.end = m.b.copy()
        elif op == "start":
            m.a = m.b - frame(rng)[0] * rng.uniform(0.3, 6)
            obj.start = m.a.copy()
        else:
            m.a = rng.uniform(-5, 5, 3)
            buf = m.a.copy()
            obj.origin = buf
            buf += 7
        compare(ctx, rng, obj, m, "%s after setting %r" % (kind, hist))
    ctx.state(kind, tuple(hist))


def cylinder(ctx):
    rng = ctx.rng
    a = rng.uniform(-5, 5, 3)
    d = frame(rng)[0] * float(rng.choice([-1, 1]))
    if rng.integers(3) == 0:
        d = np.array([1.0, *(rng.normal(size=2) * float(rng.choice([0, 1e-7, 1e-3])))])
        d /= np.linalg.norm(d)
    L = float(rng.uniform(0.3, 6))
    r = float(rng.uniform(0.3, 3))
    c = Cylinder(a.copy(), a + d * L, r)
    m = Ref("cylinder", a, a + d * L, r, 0)
    ctx.close("cylinder:interval", c.interval(), np.array([[0, 2 * math.pi], [0, L]]), 1e-12, "interval of a cylinder of length %r" % L)
    for x in m.probes(rng, 4):
        ctx.close("cylinder:implicit", c.implicit(x.copy()), m.sd(x), 1e-9, "implicit")
        ctx.close("cylinder:gradient", np.asarray(c.gradient(x.copy())), m.normal(x), 1e-8, "gradient")
    ctx.close("cylinder:bounds", np.array(c.bounds()), m.bounds(), 1e-7, "bounds")
    prev = None
    for _ in range(6):
        uv = np.array([rng.uniform(0, 2 * math.pi), float(rng.choice([0, L, rng.uniform(0, L)]))])
        p = np.array(c.evaluate(uv.copy()))
        ctx.close("cylinder:surface", [m.sd(p), (p - a) @ d], [0, uv[1]], 1e-9, "evaluate(%r) of the cylinder along %r" % (uv.tolist(), d.tolist()))
        q = np.array(c.evaluate(np.array([uv[0] + math.pi, uv[1]])))
        ctx.close("cylinder:opposite", (p + q) / 2, a + d * uv[1], 1e-9, "opposite points")
        q = np.array(c.evaluate(np.array([uv[0] + math.pi / 3, uv[1]])))
        ctx.close("cylinder:angle", np.linalg.norm(p - q), r, 1e-9, "points 60 degrees apart")
        B = np.array(c.bounds())
        ctx.check("cylinder:inside bounds", bool(np.all(p >= B[0] - 1e-7) and np.all(p <= B[1] + 1e-7)), "%r outside the bounds" % p.tolist())
        du, dv = np.array(c.derivative_u(uv.copy())), np.array(c.derivative_v(uv.copy()))
        t = np.cross(d, (p - a - d * uv[1]))
        ctx.close("cylinder:derivatives", [du @ du, abs(du @ t), *dv], [r * r, r * r, *d], 2e-3, "derivatives at %r" % uv.tolist())
    ctx.state("cyl", np.round(d, 1).tolist())


# ---- set operations -----------------------------------------------------------
class Disc(Implicit2D):
    def __init__(self, o, r):
        super().__init__()
        self.o, self.r = o, r

    def implicit(self, v):
        return float(np.hypot(v[0] - self.o[0], v[1] - self.o[1]) - self.r)

    def bounds(self):
        return tuple(self.o - self.r), tuple(self.o + self.r)


class Rect(Implicit2D):
    def __init__(self, o, h):
        super().__init__()
        self.o, self.h = o, h

    def implicit(self, v):
        q = np.abs(np.array([v[0], v[1]]) - self.o) - self.h
        return float(np.hypot(*np.maximum(q, 0)) + min(max(q[0], q[1]), 0))

    def bounds(self):
        return tuple(self.o - self.h), tuple(self.o + self.h)


class Ball(Implicit3D):
    def __init__(self, o, r):
        super().__init__()
        self.o, self.r = o, r

    def implicit(self, v):
        return float(math.dist(v, self.o) - self.r)

    def bounds(self):
        return tuple(self.o - self.r), tuple(self.o + self.r)


class Brick(Implicit3D):
    def __init__(self, o, h):
        super().__init__()
        self.o, self.h = o, h

    def implicit(self, v):
        q = np.abs(np.asarray(v, float) - self.o) - self.h
        return float(np.linalg.norm(np.maximum(q, 0)) + min(float(np.max(q)), 0))

    def bounds(self):
        return tuple(self.o - self.h), tuple(self.o + self.h)


OPS = ["|", "+", "&", "-", "union", "intersection", "substraction"]


def solid(rng, dim, depth):
    """(library object, value oracle, inside oracle, text)"""
    if depth == 0 or rng.integers(4) == 0:
        o = rng.uniform(-1.5, 1.5, dim)
        if rng.integers(2):
            r = float(rng.uniform(0.6, 2))
            obj = (Circle2D(o.copy(), r) if rng.integers(2) else Disc(o, r)) if dim == 2 else Ball(o, r)
            return obj, (lambda x: math.dist(x, o) - r), "ball"
        h = rng.uniform(0.4, 1.6, dim)
        obj = Rect(o, h) if dim == 2 else Brick(o, h)

        def sd(x):
            q = np.abs(np.asarray(x) - o) - h
            return float(np.linalg.norm(np.maximum(q, 0)) + min(float(np.max(q)), 0))
        return obj, sd, "box"
    a, fa, sa = solid(rng, dim, depth - 1)
    b, fb, sb = solid(rng, dim, depth - 1)
    op = str(rng.choice(OPS))
    if isinstance(a, Circle2D):        # a Circle2D is a Curve first: its operators act on the points
        op = str(rng.choice(OPS[4:]))
    if op in ("|", "+", "union"):
        obj = a | b if op == "|" else a + b if op == "+" else a.union(b)
        return obj, (lambda x: min(fa(x), fb(x))), "(%s|%s)" % (sa, sb)
    if op in ("&", "intersection"):
        obj = a & b if op == "&" else a.intersection(b)
        return obj, (lambda x: max(fa(x), fb(x))), "(%s&%s)" % (sa, sb)
    obj = a - b if op == "-" else a.substraction(b)
    return obj, (lambda x: max(fa(x), -fb(x))), "(%s-%s)" % (sa, sb)


def booleans(ctx):
    rng = ctx.rng
    dim = int(rng.integers(2, 4))
    obj, f, s = solid(rng, dim, int(rng.integers(1, 4)))
    B = np.array(obj.bounds(), float)
    X = rng.uniform(-3.5, 3.5, (40, dim))
    for x in X:
        v = f(x)
        ctx.close("boolean:value", obj.implicit(x.copy()), v, 1e-12, "%s at %r" % (s, x.tolist()))
        if v < -1e-9:
            ctx.check("boolean:bounds", bool(np.all(x >= B[0] - 1e-9) and np.all(x <= B[1] + 1e-9)), "%r lies inside %s but outside its bounds %r" % (x.tolist(), s, B.tolist()))
        if dim == 2 and abs(v) > 1e-6:
            ctx.check("boolean:point_inside", bool(obj.point_inside(x.copy())) == (v < 0), "point_inside(%r) of %s" % (x.tolist(), s))
    if not isinstance(obj, Circle2D):
        ctx.close("boolean:call", obj(X[0].copy()), f(X[0]), 1e-12, "%s called with one point" % s)
        ctx.close("boolean:call", np.asarray(obj(X[:7].copy()), float), [f(x) for x in X[:7]], 1e-12, "%s called with seven points" % s)
        ctx.close("boolean:call", np.asarray(obj(X[:6].reshape(2, 3, dim).copy()), float), np.array([f(x) for x in X[:6]]).reshape(2, 3), 1e-12, "%s called with a 2x3 grid of points" % s)
    for x in X[:6]:
        h = 1e-3
        G = np.array([(f(x + h * e) - f(x - h * e)) / (2 * h) for e in np.eye(dim)])
        if abs(np.linalg.norm(G) - 1) < 1e-4 and all(abs(f(x + h * e) + f(x - h * e) - 2 * f(x)) < 1e-5 for e in np.eye(dim)):
            ctx.close("boolean:gradient", np.asarray(obj.gradient(x.copy())), G, 2e-3, "gradient of %s at %r" % (s, x.tolist()))
            if dim == 2:
                ctx.close("boolean:tangent", np.asarray(Implicit2D.tangent(obj, x.copy())) if not isinstance(obj, Circle2D) else [-G[1], G[0]], [-G[1], G[0]], 2e-3, "tangent of %s" % s)
            ctx.close("boolean:normal_from_function", np.asarray(obj.normal_from_function(f)(x.copy())), G, 2e-3, "normal_from_function of %s at %r" % (s, x.tolist()))
            if abs(f(x - f(x) * G)) < 1e-9 and not isinstance(obj, Circle2D):       # the step of a distance function along its gradient
                ctx.check("boolean:point_on_curve", abs(f(np.asarray(obj.point_on_curve(x.copy())))) < 1e-2 * abs(f(x)) + 1e-6, "point_on_curve of %s at %r is %.3g off, %.3g before" % (s, x.tolist(), f(np.asarray(obj.point_on_curve(x.copy()))), f(x)))
    a, b = rng.uniform(-2, 2, 2) * (rng.random(2) < 0.9)
    if a and b:
        ctx.check("boolean:operators", (op_union(a, b) < 0) == (a < 0 or b < 0) and (op_intersection(a, b) < 0) == (a < 0 and b < 0)
                  and (op_subtraction(a, b) < 0) == (b < 0 and not a < 0) and (op_xor(a, b) < 0) == ((a < 0) != (b < 0)) and (op_inv(a) < 0) == (not a < 0),
                  "operators at the values %r, %r" % (a, b))
    ctx.state(dim, s)


def tree(ctx):
    rng = ctx.rng
    dim = int(rng.integers(2, 4))
    obj, f, s = solid(rng, dim, int(rng.integers(1, 3)))
    depth = int(rng.integers(1, 6 if dim == 2 else 4))
    if rng.integers(2) or isinstance(obj, Circle2D):       # Circle2D.build_tree is that of a Curve
        lo = rng.uniform(-3, -1, dim)
        bounds = (tuple(lo), tuple(lo + rng.uniform(2, 6, dim)))
        t = (ImplicitTree2D if dim == 2 else ImplicitTree3D)(obj if rng.integers(2) else obj.implicit, depth, bounds)
        t.build()
        if rng.integers(2):
            depth = int(rng.integers(1, 4))
            t.build(depth)
    else:
        bounds = obj.bounds()
        obj.build_tree(depth)
        t = obj.tree
    lo, hi = np.array(bounds[0], float), np.array(bounds[1], float)
    if np.any(hi <= lo):
        ctx.skip("empty bounds")
    n = 2 ** depth
    grid = np.zeros((n,) * dim, int)
    for name, cells, mark in (("full", t.full, 1), ("empty", t.empty, 2), ("border", t.border, 3)):
        for c in cells:
            c = np.array(c, float)
            a, b = (c - lo) / (hi - lo) * n
            ia, ib = np.rint(a).astype(int), np.rint(b).astype(int)
            ctx.check("tree:cells", bool(np.allclose(a, ia, atol=1e-6) and np.allclose(b, ib, atol=1e-6) and np.all(ib > ia)), "%s cell %r is not a cell of the %d-fold split of %r" % (name, c.tolist(), depth, bounds))
            sl = tuple(slice(x, y) for x, y in zip(ia, ib))
            ctx.check("tree:disjoint", not np.any(grid[sl]), "%s cell %r overlaps another" % (name, c.tolist()))
            grid[sl] = mark
            if name == "border":
                ctx.check("tree:border depth", bool(np.all(ib - ia == 1)), "border cell %r is not at depth %d" % (c.tolist(), depth))
    ctx.check("tree:cover", bool(np.all(grid > 0)), "%d of %d cells of the tree of %s (depth %d) are missing" % (int((grid == 0).sum()), grid.size, s, depth))
    # classification by the signs at the corners of every smallest cell
    idx = np.indices((n + 1,) * dim).reshape(dim, -1).T
    val = np.array([f(lo + (hi - lo) * i / n) for i in idx]).reshape((n + 1,) * dim)
    bad = 0
    for i in np.ndindex(*grid.shape):
        v = val[tuple(slice(k, k + 2) for k in i)]
        if np.any(np.abs(v) < 1e-9):
            continue
        want = 1 if np.all(v < 0) else 2 if np.all(v >= 0) else 3
        if grid[i] != want and grid[i] != 0:
            bad += 1
    ctx.check("tree:classes", bad == 0, "%d cells of the tree of %s (depth %d) are in the wrong class" % (bad, s, depth))
    ctx.state(dim, depth, len(t.full) > 0, len(t.empty) > 0, len(t.border) > 0)


# ---- circles ------------------------------------------------------------------
def circles(ctx):
    rng = ctx.rng
    o = rng.uniform(-4, 4, 2)
    r = float(rng.uniform(0.3, 4))
    c = Circle2D(o.copy(), r)
    ctx.check("circle:interval", tuple(c.interval()) == (0.0, 2 * math.pi), "interval %r" % (c.interval(),))
    B = np.array(c.bounds(), float)
    ctx.close("circle:bounds", B, [o - r, o + r], 1e-12, "bounds")
    for _ in range(4):
        t = float(rng.uniform(0, 2 * math.pi))
        p = np.array(c.evaluate(t))
        ctx.close("circle:evaluate", p, o + r * np.array([math.cos(t), math.sin(t)]), 1e-12, "evaluate(%r)" % t)
        x = o + rng.normal(size=2) * r * 1.5
        dist = np.linalg.norm(x - o)
        ctx.close("circle:implicit", c.implicit(x.copy()), dist - r, 1e-12, "implicit(%r)" % x.tolist())
        if dist < 1e-3:
            continue
        n = (x - o) / dist
        ctx.close("circle:gradient", c.gradient(x.copy()), n, 1e-9, "gradient")
        ctx.close("circle:normal", c.normal(x.copy()), n, 1e-9, "normal")
        q, tq = c.point_on_curve(x.copy())
        ctx.close("circle:closest", q, o + r * n, 1e-9, "closest point to %r" % x.tolist())
        ctx.close("circle:closest parameter", o + r * np.array([math.cos(tq), math.sin(tq)]), o + r * n, 1e-9, "the parameter of the closest point to %r" % x.tolist())
        tq = float(closest_point_on_circle_2d(c, x.copy()))
        ctx.check("circle:closest parameter range", -1e-12 <= tq <= 2 * math.pi + 1e-12, "closest parameter %r is outside the interval" % tq)
        ctx.close("circle:closest parameter", o + r * np.array([math.cos(tq), math.sin(tq)]), o + r * n, 1e-9, "closest_point_on_circle_2d(%r)" % x.tolist())
        if dist > r * 1.001:
            T = np.array(tangents_lines(c, x.copy()))
            ctx.check("circle:tangents", T.shape == (2, 3) and np.linalg.norm(T[0] - T[1]) > 1e-9, "tangents %r" % T.tolist())
            for k in T:
                ctx.close("circle:tangents", [np.linalg.norm(k[:2] - o) - r, (k[:2] - o) @ (x - k[:2]), k[2]], [0, 0, 0], 1e-7 * (1 + dist * dist), "tangent from %r touches the circle at %r" % (x.tolist(), k.tolist()))
    # two circles
    r2 = float(rng.uniform(0.3, 4))
    dd = float(rng.uniform(0.02, r + r2 + 2))
    a = rng.uniform(0, 2 * math.pi)
    o2 = o + dd * np.array([math.cos(a), math.sin(a)])
    z = rng.integers(2)
    zz = float(rng.normal())
    mk = lambda o, r: Circle2D(np.array([*o, zz]) if z else o.copy(), r)
    c1, c2 = mk(o, r), mk(o2, r2)
    if abs(dd - (r + r2)) < 1e-6 or abs(dd - abs(r - r2)) < 1e-6:
        ctx.skip("tangent circles")
    if dd > r + r2 or dd < abs(r - r2):
        ctx.raises("circle:apart", ValueError, circle_intersection2d, c1, c2)
    else:
        P = np.array(circle_intersection2d(c1, c2))
        ctx.check("circle:meet", P.shape == (2, 3) and np.linalg.norm(P[0] - P[1]) > 1e-7, "intersection %r" % P.tolist())
        for p in P:
            ctx.close("circle:meet", [np.linalg.norm(p[:2] - o), np.linalg.norm(p[:2] - o2), p[2]], [r, r2, zz if z else 0.0], 1e-6, "intersection of circles at %r and %r" % (o.tolist(), o2.tolist()))
    ctx.state("circle", dd > r + r2, dd < abs(r - r2), int(z))


SCENARIOS = {
    "primitives": (primitives, 300, 15000),
    "cylinder": (cylinder, 200, 10000),
    "booleans": (booleans, 250, 12000),
    "tree": (tree, 120, 4000),
    "circles": (circles, 300, 15000),
}
