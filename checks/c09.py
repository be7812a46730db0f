"""C09: bounding boxes contain exactly what they bound, and box predicates and operations are set operations."""
from itertools import product

import numpy as np

import gen
import ref
from mm import NURBSCurve, curve, surf
from mmcore.numeric import aabb as A
from mmcore.geom.bvh import BoundingBox, get_aabb_corners_numpy, Segment
from mmcore.geom.curves.bspline import NURBSpline
from mmcore.api.bbox import BoundingBox2D, BoundingBox3D
from mmcore.api.vectors import Point2D, Point3D

RULE = "one case = boxes from generated points (on a lattice so that touching and flat boxes are common), every predicate and operation compared with interval arithmetic on their corners; or a curve/surface compared with its box"
ASSUMPTIONS = [
    "oracle: per-axis interval comparison (closed boxes), exact on lattice coordinates; rays and segments by exact slab clipping in rational arithmetic, grazing contacts within 1e-9 of an edge or corner not judged",
    "curve_aabb searches extrema numerically: it must contain the ends and never exceed the curve's own extent by more than 1e-9; convex-hull boxes must contain the whole object",
]


def lattice_box(rng, dim=3, flat=True):
    lo = rng.integers(-4, 5, dim).astype(float)
    ext = rng.integers(0 if flat else 1, 5, dim).astype(float)
    return np.array([lo, lo + ext])


def points_box(ctx):
    rng = ctx.rng
    n, k = int(rng.integers(1, 12)), int(rng.choice([2, 3, 3, 3, 4]))
    X = rng.integers(-3, 4, (n, k)).astype(float) if rng.integers(2) else rng.normal(size=(n, k)) * 10.0 ** rng.integers(-6, 7)
    keep = X.copy()
    bb = np.asarray(A.aabb(X))
    ctx.check("aabb", bb.shape[1] >= k and np.array_equal(bb[:, :k], [X.min(0), X.max(0)]), "aabb of %r is %r" % (X.tolist(), bb.tolist()))
    out = np.full((2, k), 7.0)
    A.aabb(X, out)
    ctx.check("aabb", np.array_equal(out, [X.min(0), X.max(0)]), "aabb into a given array")
    ctx.check("input-unchanged", np.array_equal(keep, X), "aabb changed its input")
    for pt in list(X[:3]) + [X.mean(0), X.max(0) + 1.0, X.min(0) - 0.5]:
        b = np.array([X.min(0), X.max(0)])[:, :min(k, 3)]
        q = pt[:min(k, 3)]
        want = bool(np.all(q >= b[0]) and np.all(q <= b[1]))
        ctx.check("point_in_aabb", bool(A.point_in_aabb(b, q)) == want, "point_in_aabb(%r, %r)" % (b.tolist(), q.tolist()))
    s, e = rng.normal(size=3), rng.normal(size=3)
    o = np.zeros((2, 3))
    A.aabb_segm3d(s, e, o)
    ctx.check("aabb", np.array_equal(o, [np.minimum(s, e), np.maximum(s, e)]), "aabb_segm3d")
    ctx.state("pts", n, k)


def pairs(ctx):
    rng = ctx.rng
    dim = int(rng.choice([2, 3, 3, 3]))
    a, b = lattice_box(rng, dim), lattice_box(rng, dim)
    if rng.integers(3) == 0:
        a, b = a + rng.uniform(-1, 1, dim), b + rng.uniform(-1, 1, dim)
    hit = bool(np.all(a[0] <= b[1]) and np.all(a[1] >= b[0]))
    desc = "%r %r" % (a.tolist(), b.tolist())
    for x, y in ((a, b), (b, a)):
        ctx.check("intersect", bool(A.aabb_intersect(x, y)) == hit, "aabb_intersect " + desc)
        ctx.check("intersect", bool(A.aabb_overlap(x, y)) == hit, "aabb_overlap " + desc)
    if dim == 3:
        lo, hi = np.maximum(a[0], b[0]), np.minimum(a[1], b[1])
        B1, B2 = BoundingBox(*a), BoundingBox(*b)
        for x, y, X, Y in ((a, b, B1, B2), (b, a, B2, B1)):
            ctx.check("intersect", bool(A.aabb_intersect_fast_3d(x, y)) == hit, "aabb_intersect_fast_3d " + desc)
            ctx.check("intersect", bool(X.intersect(Y)) == hit, "BoundingBox.intersect " + desc)
            ctx.check("intersect", bool(X.intersect_disjoint(Y)) == bool(np.all(x[0] < y[1]) and np.all(x[1] > y[0])), "BoundingBox.intersect_disjoint " + desc)
            r = A.aabb_intersection(x, y)
            ctx.check("intersection", (r is not None) == hit and (r is None or np.array_equal(np.asarray(r), [lo, hi])), "aabb_intersection " + desc)
            for R in (X.intersection(Y), X & Y):
                ctx.check("intersection", (R is not None) == hit and (R is None or (np.array_equal(R.min_point, lo) and np.array_equal(R.max_point, hi))), "intersection " + desc)
            for R in (X.merge(Y), X | Y):
                ctx.check("merge", np.array_equal(np.array(R), [np.minimum(x[0], y[0]), np.maximum(x[1], y[1])]), "merge " + desc)
                ctx.check("merge", np.array_equal(R.min_point, np.minimum(x[0], y[0])) and np.array_equal(R.max_point, np.maximum(x[1], y[1])), "merge " + desc)
    api_pair(ctx, a, b, hit, dim)
    ctx.state("pair", dim, hit, a.tolist(), b.tolist())


def api_pair(ctx, a, b, hit, dim):
    K, Pt = (BoundingBox2D, Point2D) if dim == 2 else (BoundingBox3D, Point3D)
    X, Y = K.create_from_array(a), K.create_from_array(b[::-1].copy())

    def corners(B):
        return np.array([[B.min.x, B.min.y] + ([B.min.z] if dim == 3 else []), [B.max.x, B.max.y] + ([B.max.z] if dim == 3 else [])])

    desc = "%r %r" % (a.tolist(), b.tolist())
    ctx.check("api", np.array_equal(corners(X), a) and np.array_equal(corners(Y), b), "api box of %s" % desc)
    ctx.check("api", X.intersects(Y) == hit and Y.intersects(X) == hit and X.overlap(Y) == hit, "api intersects " + desc)
    I = X.intersection(Y)
    ctx.check("api", (I is not None) == hit and (I is None or np.array_equal(corners(I), [np.maximum(a[0], b[0]), np.minimum(a[1], b[1])])), "api intersection " + desc)
    C = X.copy()
    ctx.check("api", np.array_equal(corners(C), a), "api copy " + desc)
    C.combine(Y)
    U = np.array([np.minimum(a[0], b[0]), np.maximum(a[1], b[1])])
    ctx.check("api", np.array_equal(corners(C), U), "api combine " + desc)
    ctx.check("api", np.array_equal(corners(X), a) and np.array_equal(corners(Y), b), "combining a copy changed a box")
    ctx.check("api", np.array_equal(corners(X.union(Y)), U), "api union " + desc)
    M = K.create_from_min_max_points(Pt(a[0].copy()), Pt(a[1].copy()))
    ctx.check("api", np.array_equal(corners(M), a), "api create_from_min_max_points " + desc)
    M = K.create(Pt(a[0].copy()), Pt(a[1].copy()))
    q = b[0]
    want = bool(np.all(q >= a[0]) and np.all(q <= a[1]))
    ctx.check("api", bool(M.contains(Pt(q.copy()))) == want, "api contains %s" % desc)
    M.expand(Pt(q.copy()))
    ctx.check("api", np.array_equal(corners(M), [np.minimum(a[0], q), np.maximum(a[1], q)]), "api expand %s" % desc)
    v = X.area() if dim == 2 else X.volume()
    ctx.close("api", v, np.prod(a[1] - a[0]), 1e-12, "api volume")
    V = sorted(map(tuple, np.asarray(X.to_vertices())))
    ctx.check("api", V == sorted(product(*a.T.tolist())), "api vertices %r of %r" % (V, a.tolist()))


def single(ctx):
    rng = ctx.rng
    a = lattice_box(rng) if rng.integers(2) else np.sort(rng.normal(size=(2, 3)) * 5, axis=0)
    B = BoundingBox(*a)
    ctx.close("measure", B.dims, a[1] - a[0], 1e-14, "dims")
    ctx.close("measure", B.center, a.mean(0), 1e-14, "center")
    ctx.close("measure", B.centroid(), a.mean(0), 1e-14, "centroid")
    ctx.close("measure", B.volume(), np.prod(a[1] - a[0]), 1e-13, "volume")
    ctx.check("measure", bool(B.is_finite()) and bool(B.is_consistency()) and bool(B.is_valid()) == bool(np.all(a[1] > a[0])), "validity of %r" % a.tolist())
    C = np.asarray(B.get_corners())
    ctx.check("corners", sorted(map(tuple, C)) == sorted(product(*a.T.tolist())), "corners of %r: %r" % (a.tolist(), C.tolist()))
    C2 = get_aabb_corners_numpy(a[1], a[0])
    ctx.check("corners", sorted(map(tuple, C2)) == sorted(product(*a.T.tolist())), "corners from swapped points")
    E = B.get_edges()
    cs = product((0, 1), repeat=3)
    want = sorted(tuple(sorted([tuple(a[i, j] for j, i in enumerate(c)), tuple(a[1 - i if j == ax else i, j] for j, i in enumerate(c))]))
                  for c in cs for ax in range(3) if c[ax] == 0)
    got = sorted(tuple(sorted([tuple(e[0]), tuple(e[1])])) for e in E)
    ctx.check("corners", got == want, "edges of %r" % a.tolist())
    F = B.get_faces()
    d = a[1] - a[0]
    if np.all(d > 0):
        area = 0.0
        for f in F:
            f = np.asarray(f)
            ctx.check("corners", np.allclose(f[0] + f[2], f[1] + f[3]), "a face of %r is not a rectangle in order: %r" % (a.tolist(), f.tolist()))
            area += np.linalg.norm(np.cross(f[1] - f[0], f[3] - f[0]))
        ctx.close("corners", area, 2 * (d[0] * d[1] + d[1] * d[2] + d[0] * d[2]), 1e-12, "area of the faces")
        ctx.check("corners", len({tuple(sorted(map(tuple, np.asarray(f)))) for f in F}) == 6, "six distinct faces")
    uvh = rng.uniform(0, 1, 3)
    ctx.close("evaluate", B.evaluate(uvh), a[0] + (a[1] - a[0]) * uvh, 1e-12, "evaluate")
    ctx.check("contains", B.contains_point(a[0]) and B.contains_point(a[1]) and B.contains_point(B.center), "own points")
    Q = np.r_[a, [a[0] - [0.5, 0, 0]], [a[1] + [0, 0.25, 0]], [a.mean(0) + [0, 0, a[1, 2] - a[0, 2] + 1.0]], rng.uniform(a[0] - 1, a[1] + 1, (5, 3))]
    want = np.all(Q >= a[0], 1) & np.all(Q <= a[1], 1)
    ctx.check("contains", np.array_equal(B.contains_points(Q), want) and [B.contains_point(q) for q in Q] == want.tolist(), "contains %r" % a.tolist())
    ctx.state("one", a.tolist())


def whole(ctx, B, parts, what):
    """parts tile the box: they are inside it, their volumes add up and a random point is in at least one of them"""
    rng = ctx.rng
    ctx.close("split", sum(p.volume() for p in parts), B.volume(), 1e-11, what + ": volumes")
    for p in parts:
        arr = np.array(p)
        ctx.check("split", bool(np.all(arr[0] >= B.min_point - 1e-12) and np.all(arr[1] <= B.max_point + 1e-12) and np.all(arr[0] <= arr[1])), what + ": a part is outside")
        ctx.check("split", np.array_equal(arr, [p.min_point, p.max_point]) and np.allclose(p.center, arr.mean(0)) and np.allclose(p.dims, arr[1] - arr[0]), what + ": inconsistent part")
        ctx.check("split", bool(p.intersect(B)), what + ": a part does not intersect the box")
    for q in rng.uniform(B.min_point, B.max_point, (4, 3)):
        n = sum(p.contains_point(q) for p in parts)
        ctx.check("split", n == 1, what + ": a point is in %d parts" % n)
        point = BoundingBox(q, q)
        ctx.check("split", sum(bool(p.intersect(point)) for p in parts) == 1, what + ": box queries disagree with the parts")


def splits(ctx):
    rng = ctx.rng
    a = lattice_box(rng, flat=False) + rng.uniform(-1, 1, 3)
    B = BoundingBox(*a)
    t = rng.uniform(0.1, 0.9, 3)
    ax = rng.permutation(3)
    half = rng.integers(2) == 0
    l, r = B.split(int(ax[0])) if half else B.split(int(ax[0]), float(t[0]))
    c = 0.5 if half else t[0]
    ctx.close("split", [l.max_point[ax[0]], r.min_point[ax[0]]], [a[0, ax[0]] + c * (a[1] - a[0])[ax[0]]] * 2, 1e-12, "cut position")
    whole(ctx, B, (l, r), "split")
    whole(ctx, B, B.split4(int(ax[0]), int(ax[1]), float(t[0]), float(t[1])), "split4")
    whole(ctx, B, B.split8(*map(int, ax)), "split8")
    ctx.check("split", np.array_equal(np.array(B), a), "splitting changed the box")
    # nested splitting stays consistent
    cur, vol = B, B.volume()
    for _ in range(4):
        k = int(rng.integers(3))
        cur = cur.split(k, float(t[0]))[int(rng.integers(2))]
    ctx.check("split", bool(np.all(cur.min_point >= a[0] - 1e-12) and np.all(cur.max_point <= a[1] + 1e-12) and cur.intersect(B)), "nested split")
    # growing history
    G = BoundingBox(*a)
    want = a.copy()
    for _ in range(3):
        o = lattice_box(rng)
        G.expand(BoundingBox(*o))
        want = np.array([np.minimum(want[0], o[0]), np.maximum(want[1], o[1])])
        ctx.check("expand", np.array_equal(np.array(G), want) and np.array_equal(G.min_point, want[0]) and np.allclose(G.dims, want[1] - want[0]), "expand")
        ctx.close("expand", [*G.center, G.volume()], [*want.mean(0), np.prod(want[1] - want[0])], 1e-12, "measures after expand")
        q = BoundingBox(o[1], o[1])
        ctx.check("expand", bool(G.intersect(q)) and bool(q.intersect(G)), "an expanded box misses what it was expanded by")
    ctx.state("split", ax.tolist(), half)


def slab(b, s, d, lo, hi):
    """parameter interval of s + t*d inside the box, within [lo, hi]; and how decisive the answer is"""
    for i in range(3):
        if d[i] == 0:
            if s[i] < b[0, i] or s[i] > b[1, i]:
                return None
        else:
            t = sorted(((b[0, i] - s[i]) / d[i], (b[1, i] - s[i]) / d[i]))
            lo, hi = max(lo, t[0]), min(hi, t[1])
    return (lo, hi)


def lines(ctx):
    rng = ctx.rng
    for _ in range(6):
        b = lattice_box(rng, flat=bool(rng.integers(2)))
        s = rng.integers(-6, 7, 3).astype(float) if rng.integers(2) else rng.uniform(-6, 7, 3)
        if rng.integers(2):
            # aimed at the box
            e = rng.uniform(b[0], b[1]) + (0 if rng.integers(2) else 1) * rng.normal(size=3)
        else:
            e = s + rng.integers(-6, 7, 3)
        if rng.integers(3) == 0:
            i = int(rng.integers(3))
            e[i] = s[i]
        d = e - s
        if not np.any(d):
            continue
        if np.any((np.abs(d) < 1e-6) & (d != 0)):
            continue
        desc = "box %r from %r along %r" % (b.tolist(), s.tolist(), d.tolist())
        S = slab(b, s, d, 0.0, 1.0)
        decisive = S is None or abs(S[1] - S[0]) > 1e-9 or (S[1] >= S[0] and np.count_nonzero(d) == 1)
        if decisive:
            ok = S is not None and S[1] >= S[0]
            g = A.segment_aabb_intersect(b, np.array([s, e]))
            if ctx.check("segment", (g is not None) == ok, "segment_aabb_intersect is %r: %s" % (g, desc)) and ok:
                ctx.close("segment", g, S, 1e-9, desc)
            out = np.full((2, 3), 7.0)
            c = A.segment_aabb_clip(b, np.array([s, e]), out)
            if ctx.check("segment", (c is not None) == ok, "segment_aabb_clip is %r: %s" % (c, desc)) and ok:
                ctx.close("segment", np.asarray(c), [s + S[0] * d, s + S[1] * d], 1e-9, "clip " + desc)
                ctx.check("segment", bool(np.all(np.asarray(c) >= b[0] - 1e-9) and np.all(np.asarray(c) <= b[1] + 1e-9)), "clipped outside " + desc)
            sg = Segment(s, e).clip(BoundingBox(*b))
            if ctx.check("segment", (sg is not None) == ok, "Segment.clip: " + desc) and ok:
                ctx.close("segment", [sg.start, sg.end], [s + S[0] * d, s + S[1] * d], 1e-9, "Segment.clip " + desc)
        R = slab(b, s, d, 0.0, 1e30)
        decisive = R is None or abs(R[1] - R[0]) > 1e-9
        if decisive:
            ok = R is not None and R[1] >= R[0]
            g = A.ray_aabb_intersect(b, s, d)
            if ctx.check("ray", (g is not None) == ok, "ray_aabb_intersect is %r: %s" % (g, desc)) and ok:
                ctx.close("ray", g, R, 1e-9, desc)
        ctx.state("line", S is None, R is None, np.count_nonzero(d))


def hulls(ctx):
    rng = ctx.rng
    d = gen.curve_data(rng)
    P, w, U, p = d
    c = curve(*d)
    bb = np.array(c.bbox())
    ts = np.r_[np.linspace(U[p], U[len(P)], 60)]
    X = c.evaluate_multi(ts)
    ctx.check("hull", bool(np.all(X >= bb[0] - 1e-9) and np.all(X <= bb[1] + 1e-9)), "curve outside its box")
    ctx.close("hull", bb, [P.min(0), P.max(0)], 1e-12, "curve box is the box of the control points")
    out = np.full((2, 3), 3.0)
    ctx.close("hull", np.array(c.bbox(out)), bb, 0, "box into a given array")
    sd = gen.surface_data(rng)
    s = surf(*sd)
    bb = np.array(s.bbox())
    (a, b), (e, f) = s.interval()
    uv = np.c_[rng.uniform(a, b, 40), rng.uniform(e, f, 40)]
    uv = np.r_[uv, [[a, e], [a, f], [b, e], [b, f]]]
    X = s.evaluate_multi(uv)
    ctx.check("hull", bool(np.all(X >= bb[0] - 1e-9) and np.all(X <= bb[1] + 1e-9)), "surface outside its box")
    E = (sd[0][..., :3] / sd[0][..., 3:]).reshape(-1, 3)
    ctx.close("hull", bb, [E.min(0), E.max(0)], 1e-12, "surface box is the box of the control points")
    # the numerical box: spans sampled points, inside the true extent
    q = NURBSpline(np.c_[P, w], p, U)
    bb = np.asarray(A.curve_aabb_eager(q, cnt=9))
    Y = np.asarray(q.evaluate_multi(np.linspace(*q.interval(), 9)))
    ctx.close("hull", bb, [Y.min(0), Y.max(0)], 1e-9, "curve_aabb_eager")
    if ctx.index % 4 == 0:
        bb = np.asarray(A.curve_aabb(c))
        Z = c.evaluate_multi(np.linspace(U[0], U[-1], 400))
        step = np.max(np.abs(np.diff(Z, axis=0)))
        ctx.check("hull", bool(np.all(bb[0] >= Z.min(0) - step) and np.all(bb[1] <= Z.max(0) + step)), "curve_aabb %r is larger than the curve" % bb.tolist())
        ends = c.evaluate_multi(np.array([U[0], U[-1]]))
        ctx.check("hull", bool(np.all(ends >= bb[0] - 1e-9) and np.all(ends <= bb[1] + 1e-9)), "curve_aabb misses an end of the curve")
    ctx.state("hull", p, len(P), s.shape)


def monotone_box(ctx):
    """curve_aabb on curves with one extremum per coordinate is the true box"""
    rng = ctx.rng
    a, b = np.sort(rng.uniform(-3, 3, 2))
    if b - a < 0.3:
        b = a + 0.3
    n = 3
    # a parabola arc per coordinate: unimodal in each axis
    P = rng.uniform(-5, 5, (n, 3))
    c = NURBSCurve(P, 2, np.r_[[a] * 3, [b] * 3])
    bb = np.asarray(A.curve_aabb(c, tol=1e-4))
    Z = c.evaluate_multi(np.linspace(a, b, 4001))
    ctx.close("tight", bb, [Z.min(0), Z.max(0)], 2e-3, "curve_aabb of a parabola")
    m = a + (b - a) * 0.4
    bb = np.asarray(A.curve_aabb(c, bounds=(a, m), tol=1e-4))
    Z = c.evaluate_multi(np.linspace(a, m, 4001))
    ctx.close("tight", bb, [Z.min(0), Z.max(0)], 2e-3, "curve_aabb of part of a parabola")
    ctx.state("tight", a, b)


SCENARIOS = {
    "points_box": (points_box, 300, 6000),
    "pairs": (pairs, 500, 12000),
    "single": (single, 250, 5000),
    "splits": (splits, 250, 5000),
    "lines": (lines, 600, 15000),
    "hulls": (hulls, 200, 4000),
    "monotone_box": (monotone_box, 40, 600),
}
