"""C12: curve x surface intersections are sound and complete; border intersections of two surfaces."""
import numpy as np

import gen
import ref
from mm import curve, surf
from mmcore.geom.curves.bspline import NURBSpline
from mmcore.geom.nurbs import CurveSurfaceEq, NURBSCurve, NURBSSurface, SurfaceSurfaceEq
from mmcore.geom.surfaces import Surface
from mmcore.numeric.intersection.csx import closest_curve_surface_ppi, csx, curve_surface_intersection, curve_x_plane, nurbs_csx
from mmcore.numeric.intersection.ssx.boundary_intersection import (
    extract_surface_boundaries, find_boundary_intersections, sort_boundary_intersections)

RULE = "one case = one random curve and surface (or pair of surfaces); the surface is a height field over a rectangle, so that all crossings can be bracketed on the curve and refined by bisection, or the crossing is built in; every reported intersection is put into both, every transversal crossing must be reported"
ASSUMPTIONS = [
    "completeness is required of crossings that are transversal (at least 0.15 of the speed is across the surface) and not within 0.4% of the border of the surface or the ends of the curve",
    "intersections closer than the tolerance to each other count as one",
    "for surfaces other than NURBS the search starts at the cells of their trees, so crossings are required only where the surface is smooth and the cells are small against its curvature",
]
CPU_CASE = 60


def greville(U, p, n):
    return np.array([U[i + 1:i + p + 1].mean() for i in range(n)])


class Graph:
    """z = h(x, y) as a NURBS surface over box = (x0, x1, y0, y1), moved by a rigid motion"""

    def __init__(self, rng, box=(-4.0, 4.0, -4.0, 4.0), amp=1.5, pmin=1, slope=0.0, R=None, T=None):
        pu, pv = (int(x) for x in rng.integers(pmin, 4, 2))
        nu, nv = pu + 1 + int(rng.integers(0, 4)), pv + 1 + int(rng.integers(0, 4))
        doms = [(0.0, 1.0), (0.0, None), (-1.0, 2.0), (2.0, 9.0)]
        st = gen.STYLES[int(rng.integers(4))] if pmin < 2 else "simple"
        self.Uu = gen.clamped_knots(rng, nu, pu, *doms[int(rng.integers(4))], st if pu > 1 else "simple")
        self.Uv = gen.clamped_knots(rng, nv, pv, *doms[int(rng.integers(4))], "simple")
        self.box = np.asarray(box, float)
        fx = lambda g, U, a, b: a + (b - a) * (g - U[0]) / (U[-1] - U[0])
        X, Y = np.meshgrid(fx(greville(self.Uu, pu, nu), self.Uu, *self.box[:2]), fx(greville(self.Uv, pv, nv), self.Uv, *self.box[2:]), indexing="ij")
        Z = rng.uniform(-amp, amp, (nu, nv)) + slope * (rng.uniform(-1, 1) * X + rng.uniform(-1, 1) * Y)
        H = np.stack([X, Y, Z, np.ones_like(Z)], -1)
        self.flat = surf(H, self.Uu, self.Uv, pu, pv)
        self.R, self.T = (np.eye(3), np.zeros(3)) if R is None else (R, T)
        H = H.copy()
        H[..., :3] = H[..., :3] @ self.R.T + self.T
        self.s = surf(H, self.Uu, self.Uv, pu, pv)

    def uv(self, xy):
        xy = np.clip(np.atleast_2d(xy), self.box[[0, 2]], self.box[[1, 3]])
        f = (xy - self.box[[0, 2]]) / (self.box[[1, 3]] - self.box[[0, 2]])
        a = np.array([self.Uu[0], self.Uv[0]])
        return a + f * (np.array([self.Uu[-1], self.Uv[-1]]) - a)

    def h(self, xy):
        return np.asarray(self.flat.evaluate_multi(np.ascontiguousarray(self.uv(xy))))[:, 2]

    def inside(self, xy, m=0.0):
        return (xy[:, 0] >= self.box[0] + m) & (xy[:, 0] <= self.box[1] - m) & (xy[:, 1] >= self.box[2] + m) & (xy[:, 1] <= self.box[3] - m)

    def local(self, P):
        return (np.asarray(P) - self.T) @ self.R


def crossings(g, c, t0, t1, n=3001):
    """parameters and points where c crosses g transversally, refined by bisection"""
    m = 0.004 * float(max(g.box[1] - g.box[0], g.box[3] - g.box[2]))
    at = lambda t: g.local(np.asarray(c.evaluate_multi(np.ascontiguousarray(t))))
    f = lambda Q: Q[:, 2] - g.h(Q[:, :2])
    ts = np.linspace(t0, t1, n)
    Q = at(ts)
    v = f(Q)
    k = np.where((np.sign(v[:-1]) * np.sign(v[1:]) < 0) & g.inside(Q[:-1, :2]) & g.inside(Q[1:, :2]))[0]
    if not len(k):
        return []
    lo, hi, s = ts[k].copy(), ts[k + 1].copy(), np.sign(v[k])
    for _ in range(50):
        mid = 0.5 * (lo + hi)
        up = np.sign(f(at(mid))) == s
        lo, hi = np.where(up, mid, lo), np.where(up, hi, mid)
    d = 1e-5 * (t1 - t0)
    out = []
    for t in lo:
        if t - t0 < 0.002 * (t1 - t0) or t1 - t < 0.002 * (t1 - t0):
            continue
        A = at(np.array([t - d, t, t + d]))
        if not g.inside(A, m).all():
            continue
        w = f(A)
        L = np.linalg.norm(A[2] - A[0])
        if L > 1e-9 and abs(w[2] - w[0]) > 0.15 * L:
            out.append((float(t), A[1] @ g.R.T + g.T))
    return out


def judge(ctx, tag, found, c, s, want, tol=1e-3):
    """found: list of (t, u, v)"""
    t0, t1 = c.interval()
    (u0, u1), (v0, v1) = s.interval()
    pts = []
    for t, u, v in found:
        ctx.check(tag + ":inside", t0 - 1e-12 <= t <= t1 + 1e-12 and u0 - 1e-12 <= u <= u1 + 1e-12 and v0 - 1e-12 <= v <= v1 + 1e-12,
                  "(%r, %r, %r) is outside the domains" % (t, u, v))
        a, b = np.array(c.evaluate(t)), np.array(s.evaluate(np.array([u, v])))
        ctx.check(tag + ":on both", np.linalg.norm(a - b) <= 1.01 * tol, "the curve is at %s, the surface at %s for (%r, %r, %r)" % (a, b, t, u, v))
        pts.append(a)
    pts = np.array(pts).reshape(-1, 3)
    if len(pts) > 1:
        d = np.abs(pts[:, None] - pts[None]).max(-1) + 9 * np.eye(len(pts))
        ctx.check(tag + ":distinct", d.min() >= tol * 0.999, "an intersection is reported twice, %r apart" % d.min())
    for t, q in want:
        e = np.linalg.norm(pts - q, axis=1).min() if len(pts) else np.inf
        ctx.check(tag + ":complete", e < 10 * tol, "the crossing at t = %r, %s is not among the %d reported (nearest %r away)" % (t, q, len(pts), e))
    ctx.observe(tag + ":crossings", len(want))


def frame(rng):
    return (gen.rotation(rng), rng.uniform(-5, 5, 3)) if rng.integers(2) else (np.eye(3), np.zeros(3))


def graph(ctx):
    rng = ctx.rng
    R, T = frame(rng)
    g = Graph(rng, R=R, T=T)
    P, w, U, p = gen.curve_data(rng, pmax=4, extra=5)
    P = P * np.array([0.9, 0.9, 0.5])
    kind = int(rng.integers(4))
    if kind == 0:                                     # in a plane of constant x or y
        P[:, int(rng.integers(2))] = rng.uniform(-3, 3)
    elif kind == 1:
        P = np.linspace(0, 1, len(P))[:, None] * (P[-1] - P[0]) + P[0]
    c = curve(P @ R.T + T, w, U, p)
    want = crossings(g, c, float(U[0]), float(U[-1]))
    tol = float(rng.choice([1e-3, 1e-4]))
    if rng.integers(2):
        r = nurbs_csx(c, g.s, tol=tol)
        found = [tuple(map(float, x[2])) for x in r]
        for ty, pt, x in r:
            ctx.check("csx:point", np.linalg.norm(np.array(pt) - np.array(c.evaluate(float(x[0])))) < 1e-9, "the point of the intersection is not at its parameter")
            tan = np.array(c.derivative(float(x[0])))
            du, dv = (np.array(a) for a in g.s.derivatives(np.array([x[1], x[2]], float)))
            n = np.cross(du, dv)
            s = abs(tan @ n) / max(np.linalg.norm(tan) * np.linalg.norm(n), 1e-300)
            ctx.check("csx:kind", not (s > 10 * tol and ty != "transversal") and not (s < 0.1 * tol and ty != "degenerate"), "%s, but the sine of the angle is %r" % (ty, s))
    else:
        r = np.asarray(csx(c, g.s, tol=tol))
        found = [tuple(map(float, x)) for x in r]
        ctx.check("csx:sorted", r.shape == (len(found), 3) and np.all(np.diff(r[:, 0]) >= 0), "not sorted by the parameter of the curve")
    judge(ctx, "csx", found, c, g.s, want, tol)
    ctx.state(kind, p, min(len(want), 6))


def planted(ctx):
    """a general surface and a curve moved so that it passes through a chosen point of it"""
    rng = ctx.rng
    H, Uu, Uv, pu, pv = gen.surface_data(rng, pmax=3, extra=2, height=2.0)
    s = surf(H, Uu, Uv, pu, pv)
    P, w, U, p = gen.curve_data(rng, pmax=3, extra=3, scale=4.0)
    t = float(rng.uniform(U[0] + 0.02 * (U[-1] - U[0]), U[-1] - 0.02 * (U[-1] - U[0])))
    uv = np.array([rng.uniform(a + 0.02 * (b - a), b - 0.02 * (b - a)) for a, b in ((Uu[0], Uu[-1]), (Uv[0], Uv[-1]))])
    S = np.array(s.evaluate(uv))
    P = P + S - np.array(curve(P, w, U, p).evaluate(t))
    c = curve(P, w, U, p)
    du, dv = (np.array(x) for x in s.derivatives(uv))
    tan = np.array(c.derivative(t))
    n = np.cross(du, dv)
    sin = np.linalg.norm(n) / max(np.linalg.norm(du) * np.linalg.norm(dv), 1e-300)
    across = abs(tan @ n) / max(np.linalg.norm(tan) * np.linalg.norm(n), 1e-300)
    if sin < 0.2 or across < 0.2 or np.linalg.norm(tan) < 0.05 * np.ptp(P) / (U[-1] - U[0]):
        return ctx.skip("the crossing is not transversal")
    found = [tuple(map(float, x[2])) for x in nurbs_csx(c, s)]
    judge(ctx, "planted", found, c, s, [(t, S)])
    f = CurveSurfaceEq(c, s)
    x = np.array([t + 0.01 * (U[-1] - U[0]), *uv])
    ctx.close("equation", f(x), np.sum((np.array(c.evaluate(float(x[0]))) - S) ** 2), 1e-9, "squared distance of curve and surface")
    s2 = surf(*gen.surface_data(rng, pmax=2, extra=1))
    y = np.array([*uv, *[rng.uniform(a, b) for a, b in s2.interval()]])
    ctx.close("equation", SurfaceSurfaceEq(s, s2)(y), np.sum((S - np.array(s2.evaluate(y[2:].copy()))) ** 2), 1e-9, "squared distance of two surfaces")
    ctx.state(pu, pv, p, len(found))


def apart(ctx):
    """a curve that cannot reach the surface"""
    rng = ctx.rng
    R, T = frame(rng)
    g = Graph(rng, R=R, T=T)
    P, w, U, p = gen.curve_data(rng, pmax=4, extra=4)
    hi = np.array(g.flat.control_points_flat)[:, 2].max()
    P[:, 2] = hi + 0.01 + np.abs(P[:, 2])
    c = curve(P @ R.T + T, w, U, p)
    r = csx(c, g.s)
    ctx.check("apart:empty", len(r) == 0, "%d intersections of a curve above the surface" % len(r))
    ctx.check("apart:shape", np.asarray(r).shape == (0, 3), "shape %r" % (np.asarray(r).shape,))
    ctx.check("apart:empty", len(nurbs_csx(c, g.s)) == 0, "intersections of a curve above the surface")
    ctx.state(p)


def border(ctx):
    rng = ctx.rng
    R, T = frame(rng)
    a = Graph(rng, (-5, 5, -5, 5), 2.0, 1, 0.4, R, T)
    b = Graph(rng, tuple(np.array([-5, 5, -5, 5]) + rng.uniform(-1.5, 1.5, 4)), 2.0, 1, 0.4, R, T)
    tol = 1e-3
    pts = find_boundary_intersections(a.s, b.s, tol)
    for q in pts:
        uv1, uv2 = (np.asarray(x, float) for x in q.get_start_params())
        ctx.close("border:params", np.r_[uv1, uv2], np.r_[np.asarray(q.surface1_params, float), np.asarray(q.surface2_params, float)], 1e-12, "start parameters")
        p1, p2 = np.array(a.s.evaluate(uv1)), np.array(b.s.evaluate(uv2))
        ctx.check("border:on both", np.linalg.norm(p1 - p2) < 2 * tol and np.linalg.norm(p1 - np.array(q.point)) < 2 * tol, "%s: the surfaces are at %s and %s" % (np.array(q.point), p1, p2))
        own, iv = (uv1, a.s.interval()) if q.is_from_first_surface else (uv2, b.s.interval())
        side = [iv[0][0] == own[0], iv[0][1] == own[0], iv[1][0] == own[1], iv[1][1] == own[1]]
        ctx.check("border:side", side[q.boundary_index], "boundary %d, parameters %r" % (q.boundary_index, own))
    X = np.array([np.array(q.point) for q in pts]).reshape(-1, 3)
    if len(X) > 1:
        d = np.linalg.norm(X[:, None] - X[None], axis=-1) + 9 * np.eye(len(X))
        ctx.check("border:distinct", d.min() >= tol, "two border points %r apart" % d.min())
    n = 0
    for f, g in ((a, b), (b, a)):
        for i, c in enumerate(extract_surface_boundaries(f.s)):
            t0, t1 = c.interval()
            for t, q in crossings(g, c, float(t0), float(t1), 1501):
                n += 1
                e = np.linalg.norm(X - q, axis=1).min() if len(X) else np.inf
                ctx.check("border:complete", e < 10 * tol, "border %d crosses the other surface at %s, nearest reported point %r away" % (i, q, e))
    seqs = sort_boundary_intersections(pts)
    ids = sorted(id(q) for s in seqs for q in s)
    ctx.check("border:grouped", ids == sorted(id(q) for q in pts), "the groups do not hold every point once")
    ctx.check("border:pairs", all(len(s) == 2 for s in seqs[:-1]) and all(1 <= len(s) <= 2 for s in seqs), "groups of %r points" % ([len(s) for s in seqs],))
    ctx.observe("border:crossings", n)
    ctx.state(len(pts), n)


class Bowl(Surface):
    """z = a x^2 + b y^2 + c x y over a square, without a NURBS form; x = su (u - ou), y = sv (v - ov)"""

    def __init__(self, a, b, c, r, scale=(1.0, 1.0), shift=(0.0, 0.0)):
        self.k = (a, b, c, r)
        self.m = (*scale, *shift)
        super().__init__()

    def interval(self):
        r = self.k[3]
        su, sv, ou, ov = self.m
        return (ou - r / su, ou + r / su), (ov - r / sv, ov + r / sv)

    def xy(self, uv):
        su, sv, ou, ov = self.m
        return su * (uv[0] - ou), sv * (uv[1] - ov)

    def uv(self, xy):
        su, sv, ou, ov = self.m
        return xy[0] / su + ou, xy[1] / sv + ov

    def evaluate(self, uv):
        a, b, c, _ = self.k
        x, y = self.xy(uv)
        return np.array([x, y, a * x ** 2 + b * y ** 2 + c * x * y])

    def derivative_u(self, uv):
        a, b, c, _ = self.k
        x, y = self.xy(uv)
        return np.array([1.0, 0.0, 2 * a * x + c * y]) * self.m[0]

    def derivative_v(self, uv):
        a, b, c, _ = self.k
        x, y = self.xy(uv)
        return np.array([0.0, 1.0, 2 * b * y + c * x]) * self.m[1]


def general(ctx):
    rng = ctx.rng
    a, b, c0 = (float(x) for x in rng.uniform(-0.3, 0.3, 3))
    s = Bowl(a, b, c0, 3.0, *((rng.uniform(0.5, 2, 2).tolist(), rng.uniform(-5, 5, 2).tolist()) if rng.random() < 0.5 else ()))
    n = int(rng.integers(2, 6))
    P = rng.uniform(-2.5, 2.5, (n, 3)) * np.array([1, 1, 1.5])
    c = NURBSpline(P, degree=min(3, n - 1))
    found = [tuple(map(float, x)) for x in np.asarray(curve_surface_intersection(c, s, 1e-6)).reshape(-1, 3)]
    t0, t1 = (float(x) for x in c.interval())
    ts = np.linspace(t0, t1, 1501)
    Q = np.asarray(c.evaluate_multi(ts))
    v = Q[:, 2] - (a * Q[:, 0] ** 2 + b * Q[:, 1] ** 2 + c0 * Q[:, 0] * Q[:, 1])
    want = []
    for i in np.where((v[:-1] * v[1:] < 0))[0]:
        d = Q[i + 1] - Q[i]
        if np.abs(Q[i, :2]).max() > 2.9 or abs(v[i + 1] - v[i]) < 0.3 * np.linalg.norm(d):
            continue
        want.append((float(ts[i]), Q[i] + d * v[i] / (v[i] - v[i + 1])))
    judge(ctx, "general", found, c, s, [], 1e-5)
    X = np.array([np.array(c.evaluate(f[0])) for f in found]).reshape(-1, 3)
    for t, q in want:
        g = closest_curve_surface_ppi(c, s, np.array([t, *s.uv(q)]))
        pa, pb = np.array(c.evaluate(float(g[0]))), s.evaluate(np.asarray(g[1:], float))
        ctx.check("general:refined", np.linalg.norm(pa - pb) < 1e-6, "the refined intersection is %r apart" % np.linalg.norm(pa - pb))
    ctx.observe("general:crossings", len(want))
    ctx.observe("general:found", sum(1 for t, q in want if len(X) and np.linalg.norm(X - q, axis=1).min() < 0.05))
    for t, q in want:
        e = np.linalg.norm(X - q, axis=1).min() if len(X) else np.inf
        ctx.check("general:complete", e < 0.05, "crossing at %s not found (nearest %r of %d)" % (q, e, len(X)))
    # restricted to a part of both domains: exactly those that lie in it
    (u0, u1), (v0, v1) = s.interval()
    cut = lambda lo, hi: tuple(sorted((lo + (hi - lo) * rng.random(2)).tolist()))
    tb, ub = cut(t0, t1), (cut(u0, u1), cut(v0, v1))
    for kw in (dict(t_bounds=tb), dict(uv_bounds=ub), dict(t_bounds=tb, uv_bounds=ub)):
        part = np.asarray(curve_surface_intersection(c, s, 1e-6, **kw)).reshape(-1, 3)
        box = [kw.get("t_bounds", (t0, t1)), *kw.get("uv_bounds", ((u0, u1), (v0, v1)))]
        inside = lambda f: all(lo <= x <= hi for x, (lo, hi) in zip(f, box))
        ctx.check("general:part", sorted(map(tuple, part.tolist())) == sorted(f for f in found if inside(f)),
                  "within %r of %r only %r" % (box, found, part.tolist()))
    ctx.state(n, len(want))


def plane(ctx):
    """a curve and a plane"""
    rng = ctx.rng
    n = rng.normal(size=3)
    n /= np.linalg.norm(n)
    o = rng.uniform(-1, 1, 3)
    x = np.cross(n, [1.0, 0.2, 0.1] if abs(n[0]) < 0.9 else [0.1, 1.0, 0.0])
    x /= np.linalg.norm(x)
    pl = np.array([o, x, np.cross(n, x), n])
    k = int(rng.integers(2, 6))
    c = NURBSCurve(rng.uniform(-3, 3, (k, 3)), int(min(3, k - 1)))
    t0, t1 = (float(z) for z in c.interval())
    ax = int(rng.integers(3))
    m = pl[1 + ax]
    step = float(t1 - t0) / int(rng.integers(2, 9))
    r = [float(t) for t in curve_x_plane(c, pl, axis=ax, step=step)]
    f = lambda t: float(m @ (np.array(c.evaluate(t)) - o))
    for t in r:
        ctx.check("plane:on both", abs(f(t)) < 1e-6 and t0 - 1e-12 <= t <= t1 + 1e-12, "%r at distance %r" % (t, f(t)))
    # a step without an extreme inside and ends on different sides holds one crossing
    es = np.r_[np.arange(t0, t1, step), t1]
    for a, b in zip(es[:-1], es[1:]):
        if b - a < 1e-9:
            continue
        v = np.array([f(t) for t in np.linspace(a, b, 30)])
        if v[0] * v[-1] < 0 and np.all(np.diff(v) * np.sign(v[-1] - v[0]) > 0) and min(abs(v[0]), abs(v[-1])) > 1e-3:
            ctx.check("plane:complete", sum(1 for t in r if a <= t <= b) == 1, "the crossing in [%r, %r] is reported %d times" % (a, b, sum(1 for t in r if a <= t <= b)))
    ctx.state(k, ax, len(r))


def units(ctx):
    """the crossings of a curve do not depend on the length of its parameter domain"""
    x = np.linspace(-4, 4, 4)
    s = NURBSSurface(np.array([[[a, b, 0.1 * a * b] for b in x] for a in x]), (3, 3))
    P = np.array([[-3, -1, -2], [-2, 2, 3], [-1, -2, -3], [0, 3, 3], [1, -2, -3], [2, 1, 3], [3, 2, -1.]])
    lengths = [1e-3, 0.01, 1.0, 30.0, 1e3, 1e4, 1e6, 1e-5]
    L = lengths[ctx.index % len(lengths)]
    if ctx.index >= len(lengths):
        P = P * np.array([1.0, float(ctx.rng.uniform(0.9, 1.1)), 1.0])
        L = 2.0 ** float(ctx.rng.uniform(-7, 8))
    c = NURBSCurve(P, 3)
    U = np.r_[[0.] * 4, .25, .5, .75, [1.] * 4]
    c.knots = U * L
    f = lambda t: (lambda q: q[2] - 0.1 * q[0] * q[1])(ref.curve_point(P, np.ones(7), U, 3, t))
    tt = np.linspace(0, 1, 401)
    v = np.array([f(t) for t in tt])
    roots = (tt[:-1] + np.diff(tt) * v[:-1] / (v[:-1] - v[1:]))[v[:-1] * v[1:] < 0]
    got = np.array([r[2][0] / L for r in nurbs_csx(c, s)])
    ctx.state("units", L, len(roots))
    for t in roots:
        ctx.check("units:complete", len(got) > 0 and np.abs(got - t).min() < 2e-3, "with the knots from 0 to %g the crossing at %g of them is not reported" % (L, t),
                  key="csx-parameter-length-%g" % L)


SCENARIOS = {
    "units": (units, 60, 600),
    "graph": (graph, 1200, 12000),
    "planted": (planted, 500, 6000),
    "apart": (apart, 60, 1000),
    "border": (border, 200, 2500),
    "general": (general, 150, 1500),
    "plane": (plane, 300, 3000),
}
