"""C23: constructed curves and surfaces interpolate the data they are built from."""
import contextlib
import io

import numpy as np

import gen
import ref
from mm import curve
from mmcore.construction import Ruled, ruled
from mmcore.construction.ruled import make_curves_compatible
from mmcore.geom.curves import knot as K
from mmcore.geom.curves.bspline import NURBSpline, interpolate_nurbs_curve
from mmcore.geom.curves.curve import Curve, CurveWrapper
from mmcore.geom.curves.offset import OffsetCurve
from mmcore.geom.nurbs import NURBSCurve, NURBSSurface

RULE = "one case = one random data set (points to interpolate, two curves to span, a curve to offset, a knot vector) and the object built from it, which is evaluated at the data and between them"
ASSUMPTIONS = [
    "data points to interpolate are at least degree + 1 after adjacent duplicates (closer than 1e-5) are dropped, as the function does itself",
    "interpolation is judged to 1e-8 of the size of the data times the condition of its (independently built) matrix over 1e4",
]


def params(P, centripetal):
    d = np.linalg.norm(np.diff(P, axis=0), axis=1)
    d = np.sqrt(d) if centripetal else d
    return np.r_[0, np.cumsum(d)] / d.sum()


def interpolate(ctx):
    rng = ctx.rng
    p = int(rng.integers(1, 6))
    n = p + 1 + int(rng.integers(0, 15))
    style = int(rng.integers(4))
    P = rng.normal(size=(n, 3)) if style < 2 else np.cumsum(rng.uniform(0.1, 1, (n, 3)) * rng.choice([-1, 1], 3), axis=0)
    if style == 1:
        P[:, 2] = 0
    if style == 3:
        t = np.sort(rng.random(n)) * 6
        P = np.c_[np.cos(t), np.sin(t), t / 3]
    P = P * 10.0 ** rng.uniform(-1, 3)
    keep = np.r_[True, np.linalg.norm(np.diff(P, axis=0), axis=1) > 1e-3 * np.abs(P).max()]
    P = P[keep]
    n = len(P)
    if n < p + 1:
        ctx.skip("too few points")
        return
    cen = bool(rng.integers(2))
    data, dup = P, rng.random() < 0.3
    if dup:
        k = np.sort(rng.integers(0, n, 3))
        data = np.insert(P, k, P[k] + rng.uniform(-1e-7, 1e-7, (3, 3)) * (rng.random() < 0.5), axis=0)
        data = data[np.r_[True, np.any(np.diff(data, axis=0) != 0, axis=1)]] if rng.random() < 0.3 else data
    ctx.state("interpolate", p, n, cen, dup, style)
    data0 = data.copy()
    C, U, q = K.interpolate_curve(data, p, cen)
    U = np.asarray(U)
    ctx.check("interpolate:input", np.array_equal(data, data0), "the points were changed")
    ctx.check("interpolate:form", q == p and C.shape == (n, 3) and len(U) == n + p + 1, "degree %d, %s control points, %d knots for %d points" % (q, C.shape, len(U), n))
    ctx.check("interpolate:clamped", np.all(U[:p + 1] == 0) and np.all(U[-p - 1:] == 1) and np.all(np.diff(U) >= 0), "the knots are not clamped on [0, 1] and sorted: %s" % U)
    u = params(data if not dup else K._remove_adjacent_duplicates(data), cen)
    M = np.zeros((n, n))
    for i, t in enumerate(u):
        M[i] = ref.basis_all(U, p, n, t) if hasattr(ref, "basis_all") else [ref_basis(U, p, j, t, n) for j in range(n)]
    cond = np.linalg.cond(M)
    if not cond < 1e9:
        ctx.skip("nearly singular data")
        return
    tol = 1e-8 * np.abs(P).max() * max(1, cond / 1e4) + (2e-7 if dup else 0)
    ctx.close("interpolate:points", M @ C, P, tol, "the curve does not pass through the data")
    ctx.close("interpolate:ends", C[[0, -1]], P[[0, -1]], tol, "the end control points")
    c = interpolate_nurbs_curve(data, p, cen)
    ctx.close("interpolate:curve", np.array([c.evaluate(float(t)) for t in u]), P, tol, "interpolate_nurbs_curve does not pass through the data")
    ctx.check("interpolate:curve form", c.degree == p and np.array_equal(np.asarray(c.knots), U), "degree or knots of interpolate_nurbs_curve")
    # a polynomial of that degree, traversed at uniform chords (a line), is reproduced
    a, b = rng.normal(size=(2, 3))
    L = a + np.linspace(0, 1, n)[:, None] * b
    l = interpolate_nurbs_curve(L, p)
    t = float(rng.random())
    ctx.close("interpolate:line", l.evaluate(t), a + t * b, 1e-9 * (np.abs(a) + np.abs(b)).max() * max(1, cond / 1e3), "an interpolated line at %r" % t)
    if n <= p + 3:
        few = P[:max(2, int(rng.integers(2, p + 2)))]
        f = interpolate_nurbs_curve(few, p)
        ctx.check("interpolate:few", f.degree == min(p, len(few) - 1), "degree %d for %d points" % (f.degree, len(few)))
        ctx.close("interpolate:few", np.array([f.evaluate(float(t)) for t in params(few, False)]), few, 1e-8 * np.abs(P).max() * 100, "few points are not interpolated")


def ref_basis(U, p, i, t, n):
    if p == 0:
        if t == U[-1]:
            j = np.searchsorted(U, t, "left") - 1
            return 1.0 if i == j else 0.0
        return 1.0 if U[i] <= t < U[i + 1] else 0.0
    r = 0.0
    if U[i + p] > U[i]:
        r += (t - U[i]) / (U[i + p] - U[i]) * ref_basis(U, p - 1, i, t, n)
    if U[i + p + 1] > U[i + 1]:
        r += (U[i + p + 1] - t) / (U[i + p + 1] - U[i + 1]) * ref_basis(U, p - 1, i + 1, t, n)
    return r


def knots(ctx):
    rng = ctx.rng
    p = int(rng.integers(1, 6))
    n = p + 1 + int(rng.integers(0, 8))
    g = K.generate_knot(p, n)
    ctx.state("knots", p, n)
    ctx.check("knots:generate", len(g) == n + p + 1 and g[:p + 1] == [0.0] * (p + 1) and g[-p - 1:] == [float(n - p)] * (p + 1) and np.allclose(np.diff(g[p:n + 1]), 1), "generate_knot(%d, %d) = %s" % (p, n, g))
    g2 = K.generate_knot(p, n, clamped=False)
    ctx.check("knots:generate", len(g2) == n + p + 1 and np.allclose(np.diff(g2), 1), "unclamped generate_knot(%d, %d) = %s" % (p, n, g2))
    U = gen.clamped_knots(rng, n, p, *[(0.0, 1.0), (0.0, None), (-1.0, 2.0), (2.0, 9.0)][int(rng.integers(4))], gen.STYLES[int(rng.integers(len(gen.STYLES)))])
    lo, hi = U[p], U[n]
    ts = list(rng.uniform(lo, hi, 5)) + list(U[p:n + 1]) + [lo, hi]
    for t in ts:
        t = float(t)
        want = n - 1
        if t < hi:
            want = int(np.searchsorted(U, t, "right")) - 1
        while U[want] == U[want + 1]:
            want -= 1
        near = np.abs(U - t)
        ctx.check("knots:span", t == hi or K.find_span_linear(p, U, n, t) == want, "find_span_linear(%r) is %s, not %d in %s" % (t, K.find_span_linear(p, U, n, t), want, U))
        if not 0 < (hi - t) < 2e-5:
            with_ = K.find_span_binsearch(p, U, n, t)
            ctx.check("knots:span", t == hi or with_ == want, "find_span_binsearch(%r) is %s, not %d in %s" % (t, with_, want, U))
        ctx.check("knots:span", K.find_knot_span(n - 1, p, t, U) == (want if t < hi else n - 1), "find_knot_span(%r) is not %d in %s" % (t, want, U))
        if not np.any((near > 0) & (near < 1e-6)):
            ctx.check("knots:multiplicity", K.find_multiplicity(t, U) == int(np.sum(U == t)), "find_multiplicity(%r) in %s" % (t, U))
        if t < hi:
            N = K.basis_function(p, U, want, t)
            W = [ref_basis(U, p, want - p + j, t, n) for j in range(p + 1)]
            ctx.close("knots:basis", N, W, 1e-9, "basis_function(%d, span %d, %r)" % (p, want, t))
    spans = K.find_spans(p, U, n, [float(t) for t in ts])
    ctx.check("knots:spans", list(spans) == [K.find_span_linear(p, U, n, float(t)) for t in ts], "find_spans")
    Z = np.asarray(K.normalize_knot(U))
    ctx.close("knots:normalize", Z, (U - U[0]) / (U[-1] - U[0]), 1e-15, "normalize_knot")
    ctx.check("knots:normalize", Z[0] == 0 and Z[-1] == 1 and np.array_equal(np.diff(Z) == 0, np.diff(U) == 0), "normalize_knot changed multiplicities")
    P = rng.normal(size=(n, 3))
    d = int(rng.integers(1, p + 1))
    if not np.any(np.diff(U[1:-1], n=1)[:0]):
        ok = all(np.all(U[i + p + 1] > U[i + 1 + k - 1]) for k in range(1, d + 1) for i in range(n - k))
        if ok:
            PK = K.curve_deriv_cpts(3, p, U.tolist(), P.tolist(), (0, n - 1), d)
            Q, V, r = P, U, p
            for k in range(1, d + 1):
                Q = np.array([r * (Q[i + 1] - Q[i]) / (V[i + r + 1] - V[i + 1]) for i in range(len(Q) - 1)])
                V, r = V[1:-1], r - 1
                ctx.close("knots:derivative points", np.array(PK[k][:n - k], float), Q, 1e-9 * max(1, np.abs(Q).max()), "curve_deriv_cpts, order %d" % k)
    V = gen.clamped_knots(rng, p + 1 + int(rng.integers(0, 5)), p, float(U[0]), float(U[-1] - U[0]), "simple")
    V[-p - 1:] = U[-1]
    if rng.random() < 0.5 and n > p + 1:
        V = np.sort(np.r_[V, rng.choice(U[p + 1:n], 1)])
    both = np.unique(np.r_[U, V])
    if len(both) < 2 or np.diff(both).min() > 1e-4:
        m = K.merge_knot_vectors(U, V)
        want = np.sort(np.concatenate([[k] * max((U == k).sum(), (V == k).sum()) for k in both]))
        ctx.check("knots:merge", len(m) == len(want) and np.allclose(m, want), "merge_knot_vectors: %s, not %s" % (m, want))


def rdata(ctx, rational):
    rng = ctx.rng
    H, U, p = gen.curve_data(rng, pmax=4, extra=5, rational=rational)[:3]
    return H, U, p


def span(ctx):
    """ruled surfaces"""
    rng = ctx.rng
    cs = []
    for _ in range(2):
        d = gen.curve_data(rng, pmax=4, extra=5)
        cs.append(curve(*d[:4]))
    a, b = cs
    if rng.random() < 0.2:
        b = a.copy()
    ctx.state("ruled", a.degree, b.degree, len(a.control_points), len(b.control_points))
    before = [(np.array(c.control_points), np.array(c.knots), np.array(c.weights)) for c in (a, b)]
    s = (ruled if rng.random() < 0.5 else Ruled)(a, b)
    for c, (P, U, W) in zip((a, b), before):
        ctx.check("ruled:input", np.array_equal(P, c.control_points) and np.array_equal(U, c.knots) and np.array_equal(W, c.weights), "a curve was changed")
    (u0, u1), (v0, v1) = s.interval()
    ctx.check("ruled:domain", (u0, u1, v0, v1) == (0, 1, 0, 1), "the domain is %s" % (s.interval(),))
    ctx.check("ruled:degree", tuple(s.degree) == (max(a.degree, b.degree), 1), "degree %s" % (tuple(s.degree),))
    size = max(np.abs(np.array(c.control_points)).max() for c in (a, b))

    def on(c, u):
        x, y = c.interval()
        return np.asarray(c.evaluate(float(x + u * (y - x))))

    def weight(c, u):
        W = np.asarray(c.weights)
        x, y = c.interval()
        cw = NURBSCurve(np.c_[W, W, W], int(c.degree), knots=np.array(c.knots))
        return cw.evaluate(float(x + u * (y - x)))[0]

    for u in list(rng.random(4)) + [0.0, 1.0]:
        A, B = on(a, u), on(b, u)
        ctx.close("ruled:curves", s.evaluate(np.array([u, 0.0])), A, 1e-7 * size, "the surface at (%r, 0) is not on the first curve" % u)
        ctx.close("ruled:curves", s.evaluate(np.array([u, 1.0])), B, 1e-7 * size, "the surface at (%r, 1) is not on the second curve" % u)
        v = float(rng.random())
        wa, wb = weight(a, u) * (1 - v), weight(b, u) * v
        ctx.close("ruled:lines", s.evaluate(np.array([u, v])), (A * wa + B * wb) / (wa + wb), 1e-6 * size, "the surface at (%r, %r) is not on the line" % (u, v))
    ca, cb = a.copy(), b.copy()
    ca.normalize_knots(), cb.normalize_knots()
    x, y = make_curves_compatible(ca, cb)
    ctx.check("ruled:compatible", x.degree == y.degree and np.allclose(np.array(x.knots), np.array(y.knots)) and len(x.control_points) == len(y.control_points), "the compatible curves differ in degree or knots")
    for u in rng.random(2):
        ctx.close("ruled:same curve", x.evaluate(float(u)), on(a, u), 1e-7 * size, "the first compatible curve")
        ctx.close("ruled:same curve", y.evaluate(float(u)), on(b, u), 1e-7 * size, "the second compatible curve")


class Ellipse(Curve):
    def __init__(self, a, b, R, T, lo, hi):
        self.a, self.b, self.R, self.T, self.lo, self.hi = a, b, R, T, lo, hi
        super().__init__()

    def interval(self):
        return self.lo, self.hi

    def evaluate(self, t):
        return self.R @ np.array([self.a * np.cos(t), self.b * np.sin(t), 0.0]) + self.T


def offset(ctx):
    rng = ctx.rng
    a, b = rng.uniform(1, 3, 2)
    lo = float(rng.choice([0.0, -1.0, 2.0]))
    e = Ellipse(a, b, gen.rotation(rng), rng.normal(size=3), lo, lo + float(rng.uniform(1, 6)))
    d = float(rng.uniform(-0.3, 0.3))
    o = OffsetCurve(e, d)
    ctx.state("offset", d > 0)
    ctx.check("offset:value", o.offset == d, "the offset is %r, not %r" % (o.offset, d))
    ctx.check("offset:interval", tuple(o.interval()) == tuple(e.interval()), "the interval is %s, not %s" % (o.interval(), e.interval()))

    def judge(d, tag):
        for t in rng.uniform(e.lo, e.hi, 3):
            q = np.asarray(o.evaluate(float(t))) - e.evaluate(t)
            T = e.R @ np.array([-a * np.sin(t), b * np.cos(t), 0.0])
            N = e.R @ np.array([-a * np.cos(t), -b * np.sin(t), 0.0])
            T = T / np.linalg.norm(T)
            N = N - (N @ T) * T
            ctx.close("offset:" + tag, q, d * N / np.linalg.norm(N), 1e-4, "the offset point at %r" % t)

    judge(d, "points")
    tree = o.tree.bounding_box
    pts = np.array([o.evaluate(t) for t in np.linspace(e.lo, e.hi, 60)])
    ctx.check("offset:box", (pts.min(0) > np.array(tree.min_point) - 0.3).all() and (pts.max(0) < np.array(tree.max_point) + 0.3).all(), "the box of the offset curve misses it")
    d2 = float(rng.uniform(-0.4, 0.4))
    o.offset = d2
    ctx.check("offset:value", o.offset == d2, "the new offset is %r, not %r" % (o.offset, d2))
    judge(d2, "new points")


def arithmetic(ctx):
    """sums, products and functions of curves"""
    rng = ctx.rng
    e = Ellipse(*rng.uniform(1, 3, 2), gen.rotation(rng), rng.normal(size=3), 0.0, 3.0)
    f = Ellipse(*rng.uniform(1, 3, 2), gen.rotation(rng), rng.normal(size=3), 1.0, 5.0)
    k = rng.normal(size=3)
    g = lambda t: np.array([t, t * t, 1.0])
    m = float(rng.uniform(0.5, 2))
    ops = []
    for nm, mk, w in (
            ("curve + curve", lambda: e + f, lambda t: e.evaluate(t) + f.evaluate(t)),
            ("curve - curve", lambda: e - f, lambda t: e.evaluate(t) - f.evaluate(t)),
            ("curve + vector", lambda: e + k, lambda t: e.evaluate(t) + k),
            ("curve - vector", lambda: e - k, lambda t: e.evaluate(t) - k),
            ("curve * number", lambda: e * m, lambda t: e.evaluate(t) * m),
            ("curve + function", lambda: e + g, lambda t: e.evaluate(t) + g(t))):
        ops.append((nm, mk, w))
    nm, mk, w = ops[int(rng.integers(len(ops)))]
    c = mk()
    ctx.state("arithmetic", nm)
    lo, hi = c.interval()
    ctx.check("arithmetic:interval", (lo, hi) == ((1.0, 3.0) if "curve - curve" == nm or "curve + curve" == nm else (0.0, 3.0)), "%s: the interval is %s" % (nm, (lo, hi)))
    for t in rng.uniform(lo, hi, 3):
        ctx.close("arithmetic:points", c.evaluate(float(t)), w(t), 1e-12, "%s at %r" % (nm, t))


SCENARIOS = {
    "interpolate": (interpolate, 400, 10000),
    "knots": (knots, 300, 8000),
    "ruled": (span, 250, 6000),
    "offset": (offset, 60, 1500),
    "arithmetic": (arithmetic, 80, 1000),
}
