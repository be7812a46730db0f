"""C25: polygon areas, membership, clipping, boolean operations and hulls."""
import contextlib
import io

import numpy as np

from mmcore.geom.curves.bspline import NURBSpline
from mmcore.geom.nurbs import NURBSCurve
from mmcore.geom.polygon import (
    Polygon, PolygonCollection, Vertex, clip, clip_polygon, convex_hull2d, intersects_segments, is_point_in_polygon,
    is_point_in_polygon_bvh, point_in_polygon, polygon_area, polygon_area_vectorized, to_polygon_area)
from mmcore.geom.polygon import ccw as poly_ccw
from mmcore.geom.surfaces import CurveOnSurface
from mmcore.geom.features import ccw as feat_ccw
from mmcore.geom.features import intersects_segments as feat_intersects
from mmcore.geom.features import points_order, PointsOrder
from mmcore.numeric.algorithms.point_in_curve import point_in_parametric_curve

RULE = "one case = one or two random simple polygons (star shaped, convex, lattice, either orientation, any scale and place) and probe points, segments or an operation; membership is the crossing number computed here, areas come from cross products and from the operands"
ASSUMPTIONS = [
    "points closer to a boundary than 1e-9 of its size may be called either way",
    "boolean operations are judged where no vertex of one polygon lies on the other (the documented degenerate case); vertices level with each other are included. The result counts as the even-odd union of the polygons returned",
    "clip needs a convex counter-clockwise clip polygon, as its algorithm (Sutherland-Hodgman) does",
    "the operator | is left out: its documentation and its behaviour name different operations",
]


def star(rng, n=None, c=None, r=None, convex=False):
    n = int(rng.integers(3, 13)) if n is None else n
    a = np.sort(rng.random(n)) * 2 * np.pi
    gaps = np.diff(np.r_[a, a[0] + 2 * np.pi])
    if gaps.min() < 0.05 or gaps.max() > 2.8:
        a = (np.arange(n) + rng.uniform(-0.3, 0.3, n)) * 2 * np.pi / n
    rad = np.ones(n) if convex else rng.uniform(0.25, 1.0, n)
    P = np.c_[np.cos(a), np.sin(a)] * rad[:, None]
    P = P * (1.0 if r is None else r) + (np.zeros(2) if c is None else c)
    if rng.random() < 0.5:
        P = np.roll(P, int(rng.integers(n)), axis=0)
    return P


def signed(P):
    Q = np.roll(P, -1, axis=0)
    return 0.5 * float(np.sum(P[:, 0] * Q[:, 1] - P[:, 1] * Q[:, 0]))


def inside(P, X):
    """crossing number, vectorised"""
    Q = np.roll(P, -1, axis=0)
    r = np.zeros(len(X), bool)
    for (x1, y1), (x2, y2) in zip(P, Q):
        if y1 == y2:
            continue
        c = (X[:, 1] >= min(y1, y2)) & (X[:, 1] < max(y1, y2))
        r ^= c & (X[:, 0] < x1 + (X[:, 1] - y1) * (x2 - x1) / (y2 - y1))
    return r


def distance(P, X):
    Q = np.roll(P, -1, axis=0)
    best = np.full(len(X), np.inf)
    for a, b in zip(P, Q):
        d = b - a
        t = np.clip(((X - a) @ d) / max(d @ d, 1e-300), 0, 1)
        best = np.minimum(best, np.linalg.norm(X - a - t[:, None] * d, axis=1))
    return best


def polygon(ctx):
    rng = ctx.rng
    style = int(rng.integers(4))
    P = star(rng, convex=style == 1)
    if style == 2:
        P = np.round(P * 4) / 4
        keep = [i for i in range(len(P)) if not np.array_equal(P[i], P[i - 1])]
        P = P[keep]
        if len(P) < 3 or not simple(P):
            P = np.array([[0, 0], [1, 0], [1, 0.5], [0.5, 0.5], [0.5, 1], [0, 1.0]])
    P = P * 10.0 ** rng.uniform(-2, 4) + rng.normal(size=2) * 10.0 ** rng.uniform(-1, 3) * (style != 2)
    if rng.random() < 0.5:
        P = P[::-1].copy()
    return P, style


def simple(P):
    n = len(P)
    for i in range(n):
        a, b = P[i], P[(i + 1) % n]
        for j in range(i + 1, n):
            c, d = P[j], P[(j + 1) % n]
            if (j + 1) % n == i or j == i + 1 or i == j:
                if j == i + 1 and abs((b - a)[0] * (d - c)[1] - (b - a)[1] * (d - c)[0]) == 0 and (b - a) @ (d - c) < 0:
                    return False
                continue
            o = lambda p, q, r: np.sign((q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0]))
            if o(a, b, c) * o(a, b, d) <= 0 and o(c, d, a) * o(c, d, b) <= 0:
                return False
    return True


def area(ctx):
    rng = ctx.rng
    P, style = polygon(ctx)
    ctx.state("area", len(P), style)
    want = abs(signed(P - P.mean(0)))
    scale = np.abs(P).max() ** 2
    closed = np.r_[P, P[:1]]
    ctx.close("area:polygon_area", polygon_area(closed), want, 1e-13 * scale, "polygon_area")
    ctx.close("area:polygon_area", polygon_area(closed.tolist()), want, 1e-13 * scale, "polygon_area of a list")
    ctx.close("area:polygon_area", polygon_area(closed, cast_to_numpy=False), want, 1e-13 * scale, "polygon_area without a cast")
    ctx.close("area:closing", polygon_area(to_polygon_area(P)), want, 1e-13 * scale, "polygon_area(to_polygon_area)")
    ctx.close("area:Polygon", Polygon(P).area, want, 1e-13 * scale, "Polygon.area")
    ctx.close("area:3d", Polygon(np.c_[P, np.ones(len(P))]).area, want, 1e-13 * scale, "Polygon.area of points with a height")
    Q = P * 2.0
    ctx.close("area:vectorized", polygon_area_vectorized(np.stack([closed, np.r_[Q, Q[:1]]])), [want, 4 * want], 1e-12 * scale, "polygon_area_vectorized")
    col = PolygonCollection([Polygon(P), Polygon(Q)])
    ctx.close("area:collection", col.areas, [want, 4 * want], 1e-12 * scale, "PolygonCollection.areas")
    ctx.close("area:collection", col.area, 5 * want, 1e-12 * scale, "PolygonCollection.area")
    ctx.close("area:corners", Polygon(P).corners[:, :2], P, 0, "Polygon.corners")
    ctx.check("area:points", np.array_equal(np.array(Polygon(P).points), P), "Polygon.points")
    if want > 1e-9 * scale:
        got = points_order(P)
        ctx.check("area:order", got == (PointsOrder.CCW if signed(P - P.mean(0)) > 0 else PointsOrder.CW), "points_order is %r" % got)
    if style != 2:
        pr, nx = np.roll(P, 1, axis=0), np.roll(P, -1, axis=0)
        a, b = pr - P, nx - P
        cs = np.sum(a * b, 1) / np.linalg.norm(a, axis=1) / np.linalg.norm(b, axis=1)
        ctx.close("area:corner cosines", Polygon(P).dots, cs, 1e-6, "Polygon.dots")
        ctx.close("area:corner angles", Polygon(P).angles, np.arccos(np.clip(cs, -1, 1)), 1e-4, "Polygon.angles")
        # points in the middle of edges are removed again
        k = int(rng.integers(len(P)))
        if np.all(np.abs(cs) < 0.999):
            R = Polygon(np.insert(P, k + 1, (P[k] + nx[k]) / 2, axis=0))
            R.refine()
            ctx.check("area:refine", len(list(R)) == len(P), "%d corners after refine, not %d" % (len(list(R)), len(P)))


def probes(rng, P, k=40):
    lo, hi = P.min(0), P.max(0)
    s = hi - lo
    X = rng.uniform(lo - 0.3 * s, hi + 0.3 * s, (k, 2))
    V = P[rng.integers(0, len(P), k // 2)]
    level = V.copy()
    level[:, 0] = rng.uniform(lo[0] - 0.1 * s[0], hi[0] + 0.1 * s[0], len(V))
    upright = V.copy()
    upright[:, 1] = rng.uniform(lo[1] - 0.1 * s[1], hi[1] + 0.1 * s[1], len(V))
    return np.r_[X, level, upright]


def member(ctx):
    rng = ctx.rng
    P, style = polygon(ctx)
    X = probes(rng, P)
    size = np.abs(P).max()
    X = X[distance(P, X) > 1e-9 * size]
    want = inside(P, X)
    ctx.state("member", len(P), style, bool(want.any()))
    P0 = P.copy()
    root = [tuple(p) for p in P]
    poly = Polygon(P)
    crv = NURBSpline(np.c_[np.r_[P, P[:1]], np.zeros(len(P) + 1)], degree=1)
    n = len(P) + 1
    nc = NURBSCurve(np.c_[np.r_[P, P[:1]], np.zeros(n)], 1)
    on = CurveOnSurface(None, nc)
    for x, w in zip(X, want):
        w = bool(w)
        ctx.check("member:is_point_in_polygon", bool(is_point_in_polygon(tuple(x), root)) == w, "is_point_in_polygon(%s) is not %s" % (x, w))
        ctx.check("member:bvh", bool(is_point_in_polygon_bvh(root, x)) == w, "is_point_in_polygon_bvh(%s) is not %s" % (x, w))
        ctx.check("member:point_in_polygon", bool(point_in_polygon(P, x)) == w, "point_in_polygon(%s) is not %s" % (x, w))
    for x, w in list(zip(X, want))[:: max(1, len(X) // 12)]:
        w = bool(w)
        with contextlib.redirect_stdout(io.StringIO()):
            ctx.check("member:isInside", bool(Vertex(x).isInside(poly)) == w, "Vertex(%s).isInside is not %s" % (x, w))
        ctx.check("member:closed", bool(point_in_polygon(np.r_[P, P[:1]], x)) == w, "point_in_polygon of a closed ring (%s) is not %s" % (x, w))
        x3 = np.r_[x, 0.0]
        ctx.check("member:curve", bool(point_in_parametric_curve(crv, x3)) == w, "point_in_parametric_curve(%s) is not %s" % (x, w))
        ctx.check("member:curve on surface", bool(on.point_inside(x3)) == w, "CurveOnSurface.point_inside(%s) is not %s" % (x, w))
    ctx.check("member:input", np.array_equal(P, P0), "the polygon was changed")


def segments(ctx):
    rng = ctx.rng
    for _ in range(10):
        a, b, c, d = rng.normal(size=(4, 2)) if rng.random() < 0.5 else rng.integers(-3, 4, (4, 2)).astype(float)
        o = lambda p, q, r: (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
        v = [o(a, b, c), o(a, b, d), o(c, d, a), o(c, d, b)]
        ctx.check("segments:ccw", bool(poly_ccw(a, b, c)) == (v[0] > 0) and bool(feat_ccw(a, b, c)) == (v[0] > 0) or abs(v[0]) < 1e-12, "ccw(%s, %s, %s)" % (a, b, c))
        if min(abs(x) for x in v) < 1e-9:
            continue
        w = v[0] * v[1] < 0 and v[2] * v[3] < 0
        ctx.state("segments", w)
        ctx.check("segments:intersects", bool(intersects_segments(np.array([a, b]), np.array([c, d]))) == w, "intersects_segments(%s, %s) is not %s" % ((a, b), (c, d), w))
        ctx.check("segments:intersects", bool(feat_intersects(np.array([a, b]), np.array([c, d]))) == w, "features.intersects_segments(%s, %s) is not %s" % ((a, b), (c, d), w))


def halfplanes(ctx):
    """clip against a convex polygon"""
    rng = ctx.rng
    C = star(rng, convex=True, r=rng.uniform(0.3, 2), c=rng.normal(size=2) * 0.3)
    far = rng.random() < 0.25
    S = star(rng, convex=rng.random() < 0.6, r=rng.uniform(0.3, 2), c=rng.normal(size=2) * (6 if far else 0.6))
    got = clip(S.tolist(), C.tolist())
    got = np.array([list(x) for x in got], float).reshape(-1, 2)
    X = probes(rng, np.r_[S, C], 60)
    X = X[(distance(S, X) > 1e-6) & (distance(C, X) > 1e-6)]
    want = inside(S, X) & inside(C, X)
    ctx.state("clip", far, bool(want.any()), len(got))
    have = inside(got, X) if len(got) > 2 else np.zeros(len(X), bool)
    ctx.check("clip:region", np.array_equal(have, want), "%s should be %s the clipped polygon" % (X[have != want][:1], "in" if len(got) < 3 or not have[have != want][:1].any() else "out of"))
    if len(got):
        ctx.check("clip:within", (distance(C, got) < 1e-9).__or__(inside(C, got)).all(), "a corner is outside the clip polygon")


def boolean(ctx):
    rng = ctx.rng
    level = rng.random() < 0.35
    kind = int(rng.integers(5))
    if kind == 3:
        A, B = star(rng, c=np.array([-3.0, 0.1])), star(rng, c=np.array([2.0, rng.uniform(-1, 1)]))
    elif kind == 4:
        A, B = star(rng, convex=True, r=4.0), star(rng, r=1.2, c=rng.normal(size=2) * 0.3)
        if rng.random() < 0.5:
            A, B = B, A
    else:
        A, B = star(rng, r=2.0), star(rng, r=rng.uniform(1, 2.5), c=rng.normal(size=2))
    if level:
        A, B = np.round(A * 2) / 2, np.round(B * 2) / 2
        B[:, 0] += 0.1234
        for P in (A, B):
            if len(np.unique(P, axis=0)) < len(P) or not simple(P):
                ctx.skip("not simple on the lattice")
                return
    if rng.random() < 0.5:
        A = A[::-1].copy()
    if rng.random() < 0.5:
        B = B[::-1].copy()
    if rng.random() < 0.3:
        m, t = 10.0 ** rng.uniform(-1, 3), rng.normal(size=2) * 100
        A, B = A * m + t, B * m + t
    size = max(np.ptp(A, axis=0).max(), np.ptp(B, axis=0).max())
    if min(distance(A, B).min(), distance(B, A).min()) < 1e-6 * size:
        ctx.skip("a vertex on the other polygon")
        return
    X = probes(rng, np.r_[A, B], 80)
    X = X[(distance(A, X) > 1e-7 * size) & (distance(B, X) > 1e-7 * size)]
    a, b = inside(A, X), inside(B, X)
    ctx.state("boolean", kind, level, len(A), len(B))

    def judge(nm, res, want):
        have = np.zeros(len(X), bool)
        for p in res:
            have ^= inside(np.asarray(p.points), X)
        bad = have != want
        ctx.check("boolean:" + nm, not bad.any(), "%d of %d points, such as %s, are wrong (%d polygons, kind %d)" % (bad.sum(), len(X), X[bad][:1], len(res), kind))

    ops = {"union": a | b, "intersection": a & b, "difference": a & ~b}
    with contextlib.redirect_stdout(io.StringIO()):
        for nm, w in ops.items():
            judge(nm, getattr(Polygon(A), nm)(Polygon(B)), w)
        nm = list(ops)[int(rng.integers(3))]
        judge("clip_polygon", clip_polygon(A.tolist(), B.tolist(), nm), ops[nm])
        judge("reversed", clip_polygon(A.tolist(), B.tolist(), "reversed-diff"), b & ~a)
        pa, pb = Polygon(A), Polygon(B)
        judge("operator", pa + pb, ops["union"])
        judge("operator", pa - pb, ops["difference"])
        ctx.check("boolean:operands", len(list(pa)) == len(A) and len(list(pb)) == len(B), "an operator changed its operands")
        # the same operands may be used again
        for nm in ("intersection", "union", "difference"):
            judge("again", getattr(pa, nm)(pb), ops[nm])


def hull(ctx):
    rng = ctx.rng
    style = int(rng.integers(5))
    n = int(rng.integers(1, 30))
    P = rng.normal(size=(n, 2))
    if style == 1:
        P = rng.integers(-2, 3, (n, 2)).astype(float)
    elif style == 2:
        P = np.outer(rng.integers(-4, 5, n), rng.integers(-2, 3, 2)).astype(float)
    elif style == 3:
        P = P * np.array([1.0, 10.0 ** rng.uniform(-2, 3)]) + rng.normal(size=2) * 10
    elif style == 4:
        P = np.repeat(P, 2, axis=0)
    P0 = P.copy()
    ctx.state("hull", style, min(n, 4))
    H = np.asarray(convex_hull2d(P))
    ctx.check("hull:input", np.array_equal(P, P0), "the points were changed")
    ctx.check("hull:vertices", all((P == h).all(1).any() for h in H), "a corner that is no input point")
    if n < 3:
        return
    s = max(np.abs(P).max(), 1.0)
    ex = lambda d: (P @ d).max() - (H @ d).max()
    D = rng.normal(size=(8, 2))
    ctx.check("hull:extreme", max(ex(d / np.linalg.norm(d)) for d in D) < 1e-7 * s, "the hull misses an extreme point")
    if len(H) > 2:
        Q, R = np.roll(H, -1, axis=0), np.roll(H, -2, axis=0)
        c = (Q[:, 0] - H[:, 0]) * (R[:, 1] - Q[:, 1]) - (Q[:, 1] - H[:, 1]) * (R[:, 0] - Q[:, 0])
        ctx.check("hull:convex", (c > 0).all(), "the hull is not strictly convex and counter-clockwise: %s" % H)
        for a, b in zip(H, Q):
            d = b - a
            out = (P[:, 0] - a[0]) * d[1] - (P[:, 1] - a[1]) * d[0]
            ctx.check("hull:contains", out.max() < 1e-8 * s * max(1, np.abs(d).max()), "a point is %.3g outside the hull" % out.max())
    else:
        d = P - P[0]
        ctx.check("hull:flat", np.linalg.svd(d)[1][-1] < 1e-8 * s if len(P) > 1 else True, "a hull of %d points for points that are not on a line" % len(H))


SCENARIOS = {
    "area": (area, 400, 10000),
    "member": (member, 250, 6000),
    "segments": (segments, 300, 6000),
    "clip": (halfplanes, 400, 12000),
    "boolean": (boolean, 500, 20000),
    "hull": (hull, 500, 20000),
}
