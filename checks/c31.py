"""C31: triangulations are valid (constrained) Delaunay triangulations of their input."""
import math
import subprocess
import sys
from fractions import Fraction as Fr

import numpy as np

from mmcore.topo.mesh.triangle import data as tdata
from mmcore.topo.mesh.triangle.tri import as_polygons, convex_hull, delaunay, prepare_args, segments_by_loop, triangulate, voronoi

RULE = "one case = one random point set or planar straight-line graph and one set of options; orientation, covering, conformity and the (constrained) empty-circle property are decided in exact arithmetic"
ASSUMPTIONS = [
    "input coordinates are small dyadic numbers, so exact tests cost little; points added by refinement are judged as the doubles they are",
    "quality is demanded where the algorithm guarantees it: no input angle below 60 degrees, requested angle at most 28 degrees",
]


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def incircle(a, b, c, d):
    m = []
    for p in (a, b, c):
        x, y = p[0] - d[0], p[1] - d[1]
        m.append((x, y, x * x + y * y))
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def exact(pts):
    return [(Fr(float(x)), Fr(float(y))) for x, y in pts]


def hull_area2(P):
    """twice the area of the convex hull, and its corners"""
    P = sorted(set(P))
    if len(P) < 3:
        return Fr(0), P

    def half(pts):
        out = []
        for p in pts:
            while len(out) > 1 and orient(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out[:-1]
    H = half(P) + half(P[::-1])
    return sum((H[i][0] * H[(i + 1) % len(H)][1] - H[i][1] * H[(i + 1) % len(H)][0] for i in range(len(H))), Fr(0)), H


def points(rng, n):
    kind = rng.integers(0, 5)
    if kind == 0:
        p = rng.integers(0, 4, (n, 2)) / 2.0          # lattice: cocircular, collinear, repeated
    elif kind == 1:
        p = rng.integers(-1000, 1000, (n, 2)) / 64.0
    elif kind == 2:                                    # cocircular (Pythagorean points)
        base = [(3, 4), (4, 3), (5, 0), (0, 5), (-3, 4), (-4, 3), (-5, 0), (0, -5), (3, -4), (4, -3), (-3, -4), (-4, -3)]
        p = np.array([base[i] for i in rng.integers(0, 12, n)], float) * 0.25 + rng.integers(-3, 3, 2)
    elif kind == 3:                                    # a thin cloud
        p = np.c_[rng.integers(0, 1000, n) / 8.0, rng.integers(0, 3, n) / 1024.0]
    else:                                              # clusters of very different density
        p = np.r_[rng.integers(0, 50, (n // 2, 2)) / 4096.0, rng.integers(0, 50, (n - n // 2, 2)) / 2.0]
    p = p[rng.permutation(len(p))]
    if rng.random() < 0.3:
        p[rng.integers(0, n)] = p[rng.integers(0, n)]
    return np.asarray(p, float)


def mesh(ctx, V, T, constrained=(), conforming=False, delaunay_ok=True):
    """validity of a triangulation; V exact points, T index triples; returns twice the area and the edge map"""
    area = Fr(0)
    E = {}
    for t, (i, j, k) in enumerate(T):
        o = orient(V[i], V[j], V[k])
        if not ctx.check("triangle-ccw", o > 0, "triangle %s has twice the area %s" % ((i, j, k), float(o))):
            return area, E
        area += o
        for a, b, c in ((i, j, k), (j, k, i), (k, i, j)):
            if not ctx.check("edge-once", (a, b) not in E, "edge %s is used twice in one direction" % ((a, b),)):
                return area, E
            E[(a, b)] = (c, t)
    con = {frozenset(s) for s in constrained}
    if delaunay_ok:
        for (a, b), (c, _) in E.items():
            if a < b and (b, a) in E and (conforming or frozenset((a, b)) not in con):
                d = E[(b, a)][0]
                ctx.check("empty-circle", incircle(V[a], V[b], V[c], V[d]) <= 0, "edge %s is not locally Delaunay" % ((a, b),))
    return area, E


def delaunays(ctx):
    rng = ctx.rng
    n = int(rng.integers(3, 40))
    P = points(rng, n)
    X = exact(P)
    a2, H = hull_area2(X)
    if a2 == 0:
        if len(set(X)) == 1:
            ctx.raises("coincident", ValueError, triangulate, dict(vertices=P))
        else:
            r = triangulate(dict(vertices=P))
            ctx.check("collinear", len(r.get("triangles", ())) == 0, "triangles in a set of collinear points")
        return
    opt = ["", "i", "F", "l", "n", "e", "ne", "c"][int(rng.integers(0, 8))]
    before = P.copy()
    arg = P if rng.random() < 0.7 else P.tolist()
    r = triangulate(dict(vertices=arg), opt)
    ctx.state(opt, n, len(H))
    ctx.check("input-kept", np.array_equal(before, P))
    ctx.check("vertices-kept", np.array_equal(np.asarray(r["vertices"]), P), "the vertices changed")
    T = r["triangles"].tolist()
    area, E = mesh(ctx, X, T)
    ctx.check("covers-hull", area == a2, "area %s, hull %s" % (float(area) / 2, float(a2) / 2))
    used = {X[i] for t in T for i in t}
    ctx.check("all-points-used", used == set(X), "%d of %d distinct points are corners" % (len(used), len(set(X))))
    ctx.check("euler", len(used) - len({frozenset(e) for e in E}) + len(T) == 1)
    onhull = {i for (a, b) in E if (b, a) not in E for i in (a, b)}
    mk = np.asarray(r["vertex_markers"]).ravel()
    for i in {i for t in T for i in t}:
        ctx.check("vertex-marker", (mk[i] != 0) == (i in onhull), "marker %d of vertex %d" % (mk[i], i))
    if "n" in opt:
        N = r["neighbors"].tolist()
        for t, (tri, nb) in enumerate(zip(T, N)):
            for c in range(3):
                a, b = tri[(c + 1) % 3], tri[(c + 2) % 3]
                other = E.get((b, a))
                ctx.check("neighbors", nb[c] == (other[1] if other else -1), "triangle %d corner %d" % (t, c))
    if "e" in opt:
        got = [frozenset(e) for e in r["edges"].tolist()]
        ctx.check("edges", len(got) == len(set(got)) and set(got) == {frozenset(e) for e in E}, "the edge list is not that of the triangles")
        for e, m in zip(r["edges"].tolist(), np.asarray(r["edge_markers"]).ravel()):
            a, b = e
            ctx.check("edge-marker", (m != 0) == (((a, b) in E) != ((b, a) in E)), "marker %d of edge %s" % (m, e))
    D = delaunay(arg)
    a_, _ = mesh(ctx, X, D.tolist())
    ctx.check("delaunay-covers", a_ == a2)
    S = [tuple(s) for s in convex_hull(arg).tolist()]
    out = {frozenset((a, b)) for (a, b) in E if (b, a) not in E}
    ctx.check("hull-cycle", len(S) == len(out) and sum(orient((Fr(0), Fr(0)), X[a], X[b]) for a, b in S) in (a2, -a2)
              and all(sum(i in s for s in S) == 2 for i in {i for s in S for i in s}), "convex hull segments %s" % S)
    corners = {X[i] for s in S for i in s}
    ctx.check("hull-corners", set(H) <= corners)
    for a, b in S:
        o = [orient(X[a], X[b], p) for p in set(X)]
        ctx.check("hull-side", all(v >= 0 for v in o) or all(v <= 0 for v in o), "a hull segment has points on both sides")


def voronois(ctx):
    rng = ctx.rng
    n = int(rng.integers(3, 25))
    P = rng.integers(-500, 500, (n, 2)) / 32.0
    X = exact(P)
    a2, _ = hull_area2(X)
    if a2 == 0 or len(set(X)) != n:
        ctx.skip("degenerate")
    p, e, o, d = voronoi(P)
    T = delaunay(P).tolist()
    _, E = mesh(ctx, X, T)
    ctx.check("one-vertex-per-triangle", len(p) == len(T), "%d Voronoi points, %d triangles" % (len(p), len(T)))
    for (i, j, k), c in zip(T, p):
        a, b, q = P[i], P[j], P[k]
        m = 2 * np.array([b - a, q - a])
        rhs = np.array([b @ b - a @ a, q @ q - a @ a])
        det = m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
        want = np.array([rhs[0] * m[1, 1] - rhs[1] * m[0, 1], m[0, 0] * rhs[1] - m[1, 0] * rhs[0]]) / det
        ctx.close("circumcenter", c, want, 1e-6 * max(1, 1e3 / abs(det)), "Voronoi vertex")
    dual = sorted(tuple(sorted((E[x][1], E[(x[1], x[0])][1]))) for x in E if x[0] < x[1] and (x[1], x[0]) in E)
    ctx.check("dual-edges", sorted(tuple(sorted(x)) for x in e.tolist()) == dual, "the Voronoi edges are not dual to the Delaunay edges")
    rays = []
    for (a, b), (c, t) in E.items():
        if (b, a) not in E:
            v = P[b] - P[a]
            rays.append((t, (float(v[1]), float(-v[0]))))
    got = list(zip(o.tolist(), d.tolist()))
    ctx.check("ray-count", len(got) == len(rays), "%d rays, %d hull edges" % (len(got), len(rays)))
    for t, v in got:
        ok = any(t == t2 and abs(v[0] * w[1] - v[1] * w[0]) <= 1e-9 * math.hypot(*v) * math.hypot(*w) and v[0] * w[0] + v[1] * w[1] > 0 for t2, w in rays)
        ctx.check("ray", ok, "ray %s from %d is not the outward normal of a hull edge of its triangle" % (v, t))


def star(rng, n, c, r0, r1, grid):
    a = np.sort(rng.uniform(0, 2 * math.pi, n))
    if np.max(np.diff(np.r_[a, a[0] + 2 * math.pi])) > 2.6:
        a = np.linspace(0, 2 * math.pi, n, endpoint=False) + rng.uniform(0, 1)
    r = rng.uniform(r0, r1, n)
    p = np.c_[c[0] + r * np.cos(a), c[1] + r * np.sin(a)]
    return np.round(p * grid) / grid


def simple(X):
    n = len(X)
    if len(set(X)) != n:
        return False

    def cross(a, b, c, d):
        o1, o2, o3, o4 = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
        if ((o1 > 0) != (o2 > 0)) and ((o3 > 0) != (o4 > 0)) and 0 not in (o1, o2, o3, o4):
            return True

        def on(p, q, r, o):
            return o == 0 and min(p[0], q[0]) <= r[0] <= max(p[0], q[0]) and min(p[1], q[1]) <= r[1] <= max(p[1], q[1])
        return on(a, b, c, o1) or on(a, b, d, o2) or on(c, d, a, o3) or on(c, d, b, o4)
    for i in range(n):
        for j in range(i + 1, n):
            if j == i + 1:
                if orient(X[i], X[j], X[(j + 1) % n]) == 0:
                    return False
                continue
            if (j + 1) % n == i:
                continue
            if cross(X[i], X[(i + 1) % n], X[j], X[(j + 1) % n]):
                return False
    return True


def area2(X):
    return sum((X[i - 1][0] * X[i][1] - X[i - 1][1] * X[i][0] for i in range(len(X))), Fr(0))


def inside(X, p):
    r = False
    for i in range(len(X)):
        a, b = X[i - 1], X[i]
        if (a[1] > p[1]) != (b[1] > p[1]):
            t = (p[1] - a[1]) / (b[1] - a[1])
            if a[0] + t * (b[0] - a[0]) > p[0]:
                r = not r
    return r


def region(ctx, rng):
    """an outer star polygon (radius 8..14) with holes in separate cells, loops of either orientation, some closed"""
    outer = star(rng, int(rng.integers(4, 14)), (0, 0), 9, 14, 64)
    loops = [outer]
    for c in [(-3, -3), (3, -3), (-3, 3), (3, 3)]:
        if rng.random() < 0.4:
            h = star(rng, int(rng.integers(3, 9)), c, 0.4, 1.9, 64)
            loops.append(h)
    out = []
    for i, l in enumerate(loops):
        X = exact(l)
        if not simple(X):
            if i == 0:
                ctx.skip("the random polygon crosses itself")
            continue
        if i and not all(inside(exact(outer), p) for p in X):
            continue
        if rng.random() < 0.5:
            l = l[::-1]
        out.append(l)
    O = exact(out[0])
    keep = [out[0]]
    for h in out[1:]:
        H = exact(h)
        ok = all(inside(O, p) for p in H)
        for i in range(len(H)):
            for j in range(len(O)):
                a, b, c, d = H[i - 1], H[i], O[j - 1], O[j]
                if orient(a, b, c) * orient(a, b, d) <= 0 and orient(c, d, a) * orient(c, d, b) <= 0:
                    ok = False
        if ok:
            keep.append(h)
    return keep[0], keep[1:]


def segments_split(ctx, X, segs, E):
    """every input segment is a chain of edges of the triangulation"""
    for a, b in segs:
        cur, seen = a, 0
        while cur != b and seen < 400:
            seen += 1
            best = None
            for (p, q) in E:
                for s, t in ((p, q), (q, p)):
                    if s == cur and orient(X[a], X[b], X[t]) == 0 and _between(X[cur], X[b], X[t]) and t != cur:
                        best = t
            if best is None:
                break
            cur = best
        ctx.check("segment-present", cur == b, "segment %s is not made of edges (stopped at %s)" % ((a, b), cur))


def _between(a, b, p):
    return min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def polygons(ctx):
    rng = ctx.rng
    outer, holes = region(ctx, rng)
    close = [bool(rng.random() < 0.4) for _ in range(1 + len(holes))]
    ring = [np.r_[l, l[:1]] if c else l for l, c in zip([outer] + holes, close)]
    as_list = rng.random() < 0.5
    if as_list:
        ring = [r.tolist() for r in ring]
    args = prepare_args([ring[0]], ring[1:])
    segs = np.asarray(args["segments"])
    V = np.asarray(args["vertices"], float)
    X = exact(V)
    loops = [exact(l) for l in [outer] + holes]
    want = {frozenset((l[i - 1], l[i])) for l in loops for i in range(len(l))}
    ctx.check("prepared-segments", {frozenset((X[a], X[b])) for a, b in segs.tolist()} == want and len(segs) == len(want),
              "the prepared segments are not the sides of the loops")
    for hp, h in zip(args["holes"], loops[1:]):
        p = (Fr(float(hp[0])), Fr(float(hp[1])))
        ctx.check("hole-point", inside(h, p), "the hole point lies outside its hole")
    total = abs(area2(loops[0])) - sum(abs(area2(h)) for h in loops[1:])
    # extra points inside
    extra = [(float(x), float(y)) for x, y in rng.integers(-800, 800, (int(rng.integers(0, 8)), 2)) / 64.0]
    extra = [p for p in extra if inside(loops[0], exact([p])[0]) and not any(inside(h, exact([p])[0]) for h in loops[1:])]
    def side(p):
        return any(orient(X[a], X[b], p) == 0 and _between(X[a], X[b], p) for a, b in segs.tolist())
    extra = [p for p in extra if not side(exact([p])[0])]
    if extra:
        args["vertices"] = np.r_[V, np.array(extra)]
        X = exact(args["vertices"])
    if not len(args["holes"]) and rng.random() < 0.5:
        args.pop("holes")
    kind = int(rng.integers(0, 5))
    opt = ["p", "p", "pq", "pa", "pD"][kind]
    A = float(total) / 2
    lim = round(A / float(rng.uniform(4, 60)), 3)
    if opt == "pa":
        opt = "pa%.3f" % lim
    if rng.random() < 0.3:
        opt += "ne"
    ctx.state(opt[:2], len(loops), len(segs))
    r = triangulate(args, opt)
    W = exact(r["vertices"])
    ctx.check("vertices-first", W[:len(X)] == X, "the input vertices are not kept in place")
    T = r["triangles"].tolist()
    out = [tuple(s) for s in r["segments"].tolist()]
    got, E = mesh(ctx, W, T, out, conforming="D" in opt, delaunay_ok=not any(c in opt for c in "qaD"))
    if any(c in opt for c in "qaD"):
        ctx.close("area", float(got) / 2, A, 1e-9, "area of the triangles")
        bd = {frozenset((a, b)) for (a, b) in E if (b, a) not in E}
        ctx.check("boundary-is-segments", bd == {frozenset(s) for s in out}, "boundary edges and output segments differ")
        L = sum(math.dist(tuple(map(float, W[a])), tuple(map(float, W[b]))) for a, b in out)
        want_l = sum(math.dist(tuple(map(float, X[a])), tuple(map(float, X[b]))) for a, b in segs.tolist())
        ctx.close("segment-length", L, want_l, 1e-9, "total length of the segments")
    else:
        ctx.check("area", got == total, "area of the triangles %s, of the region %s" % (float(got) / 2, A))
        segments_split(ctx, W, segs.tolist(), E)
        ctx.check("no-points-added", len(W) == len(X))
    cent = [(sum(W[i][0] for i in t) / 3, sum(W[i][1] for i in t) / 3) for t in T]
    for c in cent[:60]:
        ctx.check("inside-region", inside(loops[0], c) and not any(inside(h, c) for h in loops[1:]), "a triangle lies outside the region or in a hole")
    if opt.startswith("pa"):
        big = max(float(orient(*(W[i] for i in t))) / 2 for t in T)
        ctx.check("max-area", big <= lim * (1 + 1e-9), "triangle of area %g, limit %g" % (big, lim))
    polys = as_polygons(r)
    ctx.check("as-polygons", polys.shape == (len(T), 3, 2) and np.array_equal(polys, np.asarray(r["vertices"])[np.asarray(T)]))


def quality(ctx):
    rng = ctx.rng
    # convex input with angles of at least 60 degrees: rectangles, equilateral-like hexagons
    if rng.random() < 0.6:
        w, h = rng.integers(1, 40, 2) / 8.0
        V = [[0, 0], [w, 0], [w, h], [0, h]]
    else:
        V = [[4, 0], [2, 3.5], [-2, 3.5], [-4, 0], [-2, -3.5], [2, -3.5]]
    n = len(V)
    hullA = float(abs(area2(exact(V)))) / 2
    pts = np.array(V, float)
    extra = []
    for _ in range(int(rng.integers(0, 6))):
        l = rng.dirichlet(np.ones(n))
        extra.append(np.round(l @ pts * 64) / 64)
    V = np.array(list(V) + [list(e) for e in extra if hull_area2(exact(list(pts) + [e]))[0] == hull_area2(exact(pts))[0]], float)
    seg = segments_by_loop(list(range(n)))
    ang = [None, 10, 20, 25, 28][int(rng.integers(0, 5))]
    lim = None if rng.random() < 0.5 else round(hullA / float(rng.uniform(3, 80)), 4)
    opt = "pq" + ("" if ang is None else str(ang)) + ("" if lim is None else "a%.4f" % lim)
    # points on a side split it; they are part of the domain
    r = triangulate(dict(vertices=V, segments=seg), opt)
    ctx.state(ang, lim is None, n, len(V))
    W = exact(r["vertices"])
    T = r["triangles"].tolist()
    got, E = mesh(ctx, W, T, delaunay_ok=False)
    ctx.close("area", float(got) / 2, hullA, 1e-9, "area")
    P = np.asarray(r["vertices"])
    worst, big = 180.0, 0.0
    for t in T:
        for k in range(3):
            a, b, c = P[t[k]], P[t[(k + 1) % 3]], P[t[(k + 2) % 3]]
            u, v = b - a, c - a
            worst = min(worst, math.degrees(math.atan2(abs(u[0] * v[1] - u[1] * v[0]), u @ v)))
        big = max(big, abs(float(orient(*(W[i] for i in t)))) / 2)
    ctx.check("min-angle", worst >= (20 if ang is None else ang) - 1e-6, "angle of %.3f degrees with options %s" % (worst, opt))
    if lim is not None:
        ctx.check("max-area", big <= lim * (1 + 1e-9), "triangle of area %g, limit %g" % (big, lim))
    if rng.random() < 0.5:
        lim2 = big / float(rng.uniform(1.5, 6))
        keep = {k: r[k] for k in ("vertices", "triangles", "segments") if k in r}
        if rng.random() < 0.5:
            again = triangulate({k: r[k] for k in ("vertices", "triangles")}, "rn")
            ctx.check("refine-nothing", len(again["triangles"]) == len(T))
            keep["neighbors"] = again["neighbors"]
        r2 = triangulate(keep, "rpa%.9f" % lim2)
        W2 = exact(r2["vertices"])
        T2 = r2["triangles"].tolist()
        g2, _ = mesh(ctx, W2, T2, delaunay_ok=False)
        ctx.close("refined-area", float(g2) / 2, hullA, 1e-9, "area after refinement")
        ctx.check("refined-max-area", max(float(orient(*(W2[i] for i in t))) / 2 for t in T2) <= lim2 * (1 + 1e-6) + 1e-9, "refinement left a big triangle")
        ctx.check("refined-keeps", W2[:len(W)] == W, "refinement moved vertices")


def attributes(ctx):
    rng = ctx.rng
    # a strip of k cells divided by vertical segments, one region attribute and area bound per cell
    k = int(rng.integers(1, 5))
    xs = np.r_[0, np.cumsum(rng.integers(1, 9, k) / 4.0)]
    h = float(rng.integers(2, 9) / 4)
    V = [[x, 0.0] for x in xs] + [[x, h] for x in xs]
    seg, mk = [], []
    for i in range(k):
        seg += [[i, i + 1], [k + 1 + i, k + 2 + i]]
        mk += [10 + i, 20 + i]
    for i in range(k + 1):
        seg.append([i, k + 1 + i])
        mk.append(30 + i)
    att = rng.integers(1, 100, k).astype(float)
    att = np.array([a + 100 * i for i, a in enumerate(att)])
    lim = [float(h * (xs[i + 1] - xs[i]) / rng.uniform(1.5, 12)) for i in range(k)]
    reg = [[(xs[i] + xs[i + 1]) / 2 + float(rng.uniform(-.1, .1)) * (xs[i + 1] - xs[i]), h * 0.4, att[i], lim[i]] for i in range(k)]
    order = rng.permutation(k)
    hole = int(rng.integers(0, k)) if k > 1 and rng.random() < 0.4 else None
    arg = dict(vertices=V, segments=np.array(seg, np.int32), segment_markers=np.array(mk, np.int32), regions=[reg[i] for i in order if i != hole])
    co = rng.integers(-9, 9, (2, 3)).astype(float)
    va = np.c_[V, np.ones(len(V))] @ co.T          # an affine function is interpolated exactly
    arg["vertex_attributes"] = va
    if hole is not None:
        arg["holes"] = [[(xs[hole] + xs[hole + 1]) / 2, h * 0.5]]
    r = triangulate(arg, "pAa")
    ctx.state(k, hole)
    W = np.asarray(r["vertices"])
    T = np.asarray(r["triangles"])
    at = np.asarray(r["triangle_attributes"]).ravel()
    c = W[T].mean(axis=1)
    cell = np.searchsorted(xs, c[:, 0]) - 1
    ctx.check("region-attribute", np.array_equal(at, att[cell]), "a triangle does not carry the attribute of its region")
    ar = np.abs((W[T[:, 1]] - W[T[:, 0]])[:, 0] * (W[T[:, 2]] - W[T[:, 0]])[:, 1] - (W[T[:, 1]] - W[T[:, 0]])[:, 1] * (W[T[:, 2]] - W[T[:, 0]])[:, 0]) / 2
    for i in range(k):
        w = h * (xs[i + 1] - xs[i])
        s = ar[cell == i].sum()
        if i == hole:
            ctx.check("hole-empty", s == 0, "triangles in the hole")
        else:
            ctx.close("region-area", s, w, 1e-9, "area of region %d" % i)
            ctx.check("region-limit", ar[cell == i].max() <= lim[i] * (1 + 1e-9), "a triangle exceeds the area of its region")
    ctx.check("attributes-kept", np.array_equal(np.asarray(r["vertex_attributes"])[:len(V)], va), "vertex attributes changed")
    S, M = np.asarray(r["segments"]), np.asarray(r["segment_markers"]).ravel()
    for (a, b), m in zip(S.tolist(), M.tolist()):
        p, q = W[a], W[b]
        if p[0] == q[0]:
            want = 30 + int(np.argmin(abs(xs - p[0])))
        else:
            want = (10 if p[1] < h / 2 else 20) + int(np.searchsorted(xs, (p[0] + q[0]) / 2)) - 1
        ctx.check("segment-marker", m == want, "segment %s-%s carries marker %d, expected %d" % (p, q, m, want))
    ctx.close("attributes-interpolated", r["vertex_attributes"], np.c_[W, np.ones(len(W))] @ co.T, 1e-9, "interpolated attributes")


def crossing(ctx):
    """segments that cross, overlap, repeat, touch vertices or end at duplicate vertices

    The directions and lengths make every crossing point and its parameter dyadic, so nothing is rounded."""
    rng = ctx.rng
    V, seg = [], []
    for _ in range(int(rng.integers(1, 6))):
        p = rng.integers(0, 7, 2)
        d = np.array([(1, 0), (0, 1), (1, 1), (1, -1)][int(rng.integers(0, 4))]) * int(2 ** rng.integers(0, 3))
        seg.append([len(V), len(V) + 1][::int(rng.choice([-1, 1]))])
        V += [p, p + d]
    V += list(rng.integers(-4, 11, (int(rng.integers(0, 4)), 2)))
    V = np.array(V, float)
    n, m = len(V), len(seg)
    seg = np.array(seg, np.int32)
    if rng.random() < 0.3:
        seg = np.r_[seg, seg[:1]]
    X = exact(V)
    a2, _ = hull_area2(X)
    if a2 == 0:
        ctx.skip("collinear")
    r = triangulate(dict(vertices=V, segments=seg), "pc")
    W = exact(r["vertices"])
    T = r["triangles"].tolist()
    out = [tuple(s) for s in r["segments"].tolist()]
    got, E = mesh(ctx, W, T, out)
    ctx.state(n, m, len(W) - len(X))
    ctx.check("area", got == a2, "area %s, hull %s" % (float(got) / 2, float(a2) / 2))
    canon = {}
    for i, p in enumerate(W):
        if any(i in t for t in T):
            canon[p] = i
    ctx.check("all-points-used", set(canon) == set(W))
    segments_split(ctx, W, [(canon[X[a]], canon[X[b]]) for a, b in seg.tolist()], E)
    # a point is added only where two segments cross
    for p in W[n:]:
        ctx.check("added-at-crossing", sum(orient(X[a], X[b], p) == 0 and _between(X[a], X[b], p) for a, b in {tuple(sorted(s)) for s in seg.tolist()}) >= 2,
                  "the point %s was added off the crossings" % (tuple(map(float, p)),))


EXITS = [
    ([[4, 5], [2, 1], [3, 5], [0, 2], [4, 1], [1, 0], [0, 2], [3, 4]], [[2, 4], [0, 6], [0, 6], [2, 5]]),
    ([[0, 1], [3, 3], [1, 0], [3, 0], [2, 3], [4, 1], [3, 5]], [[2, 5], [0, 3], [0, 3], [0, 2], [2, 4]]),
    ([[1, 3], [1, 2], [0, 5], [3, 5], [2, 2], [5, 2], [3, 0]], [[1, 3], [2, 5], [5, 2], [3, 4]]),
    ([[0, 5], [0, 2], [0, 5], [5, 3], [1, 2], [2, 4], [3, 1], [5, 2], [5, 2], [2, 3], [0, 5]], [[0, 6], [4, 3], [0, 6], [9, 4]]),
]


def rounded_crossings(ctx):
    """in a child process: crossing segments whose crossing points are rounded must not end the process"""
    V, S = EXITS[ctx.index % len(EXITS)]
    code = ("import numpy as np\nfrom mmcore.topo.mesh.triangle.tri import triangulate\n"
            "r=triangulate(dict(vertices=%r,segments=np.array(%r,np.int32)),'pc')\nprint('alive')" % (V, S))
    p = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=100)
    ctx.check("process-survives", "alive" in p.stdout, "the process ended (%s): %s" % (p.returncode, (p.stdout + p.stderr)[-300:]),
              key="triangulate-exits-%d" % (ctx.index % len(EXITS)))


def loading(ctx):
    """the text formats: what is written in them is what is read"""
    rng = ctx.rng
    n = int(rng.integers(3, 9))
    base = int(rng.integers(0, 2))
    na, nm = int(rng.integers(0, 3)), int(rng.integers(0, 2))
    V = rng.integers(-100, 100, (n, 2)) / 8.0
    VA = rng.integers(0, 9, (n, na)).astype(float)
    VM = rng.integers(0, 5, (n, nm))
    def node_text(with_points=True):
        rows = ["# nodes", "%d 2 %d %d" % (n if with_points else 0, na, nm)]
        if with_points:
            for i in range(n):
                rows.append(" ".join([str(i + base)] + [repr(float(x)) for x in V[i]] + [repr(float(x)) for x in VA[i]] + [str(x) for x in VM[i]]) + ("   # c" if rng.random() < 0.3 else ""))
        return "\n".join(rows) + "\n"
    T = rng.integers(0, n, (int(rng.integers(1, 6)), 3))
    ta = int(rng.integers(0, 2))
    TA = rng.integers(0, 9, (len(T), ta)).astype(float)
    ele = "%d 3 %d\n" % (len(T), ta) + "".join(" ".join([str(i + base)] + [str(x + base) for x in T[i]] + [repr(float(x)) for x in TA[i]]) + "\n" for i in range(len(T)))
    S = rng.integers(0, n, (int(rng.integers(1, 6)), 2))
    sm = int(rng.integers(0, 2))
    SM = rng.integers(0, 9, (len(S), sm))
    H = rng.integers(-9, 9, (int(rng.integers(0, 3)), 2)) / 2.0
    own = rng.random() < 0.5
    poly = node_text(own) + "%d %d\n" % (len(S), sm) + "".join(" ".join([str(i + base)] + [str(x + base) for x in S[i]] + [str(x) for x in SM[i]]) + "\n" for i in range(len(S)))
    poly += "%d\n" % len(H) + "".join("%d %r %r\n" % (i + base, float(H[i][0]), float(H[i][1])) for i in range(len(H)))
    AR = rng.integers(1, 9, len(T)) / 4.0
    area = "%d\n" % len(T) + "".join("%d %r\n" % (i + base, float(a)) for i, a in enumerate(AR))
    N = rng.integers(-1, len(T), (len(T), 3))
    neigh = "%d 3\n" % len(T) + "".join(" ".join([str(i + base)] + [str(x + base if x >= 0 else -1) for x in N[i]]) + "\n" for i in range(len(T)))
    kw = {}
    if not own or rng.random() < 0.3:
        kw["node"] = node_text()
    kw["poly"] = poly
    if "node" in kw and rng.random() < 0.8:
        kw["ele"] = ele
    if rng.random() < 0.4:
        kw["area"] = area
    if "ele" in kw and rng.random() < 0.4:
        kw["neigh"] = neigh
    E = rng.integers(0, n, (int(rng.integers(0, 6)), 2))
    em = int(rng.integers(0, 2))
    rays = int(rng.integers(0, 4)) if em == 0 else 0
    RO, RD = rng.integers(0, n, rays), rng.integers(-16, 17, (rays, 2)) / 8.0
    rows = ["%d %d %d" % (i + base, x + base, y + base) + " 1" * em for i, (x, y) in enumerate(E)]
    rows += ["%d %d -1 %r %r" % (i + base + len(E), o + base, float(x), float(y)) for i, (o, (x, y)) in enumerate(zip(RO, RD))]
    if rows and rng.random() < 0.5:
        kw["edge"] = "# edges\n%d %d\n" % (len(rows), em) + "\n".join(rows) + "\n"
    try:
        d = tdata.loads(**kw)
    except Exception as e:
        ctx.check("loaded-at-all", False, "loading %s raised %r" % (sorted(kw), e))
        return
    ctx.check("loaded-at-all", True)
    ctx.state(base, na, nm, sorted(kw))
    ctx.check("loaded-vertices", np.array_equal(d["vertices"], V))
    ctx.check("loaded-attributes", na == 0 and "vertex_attributes" not in d or np.array_equal(d.get("vertex_attributes"), VA))
    ctx.check("loaded-markers", nm == 0 and "vertex_markers" not in d or np.array_equal(d.get("vertex_markers"), VM))
    ctx.check("loaded-segments", np.array_equal(d["segments"], S), "segments %s, expected %s" % (d["segments"].tolist(), S.tolist()))
    ctx.check("loaded-segment-markers", sm == 0 and "segment_markers" not in d or np.array_equal(d.get("segment_markers"), SM))
    ctx.check("loaded-holes", len(H) == 0 and "holes" not in d or np.array_equal(d.get("holes"), H))
    if "ele" in kw:
        ctx.check("loaded-triangles", np.array_equal(d["triangles"], T))
        ctx.check("loaded-triangle-attributes", ta == 0 or np.array_equal(d["triangle_attributes"], TA))
    if "neigh" in kw:
        ctx.check("loaded-neighbours", np.array_equal(d["triangle_neighbors"], N), "neighbours %s, expected %s" % (d["triangle_neighbors"].tolist(), N.tolist()))
    if "edge" in kw:
        ctx.check("loaded-edges", np.array_equal(np.reshape(d["edges"], (-1, 2)), E), "edges %s, expected %s" % (d["edges"].tolist(), E.tolist()))
        got = [np.ravel(d.get("ray_origins", [])).tolist(), np.reshape(d.get("ray_directions", []), (-1, 2)).tolist()]
        ctx.check("loaded-rays", got == [RO.tolist(), RD.tolist()], "rays %s, expected %s" % (got, [RO.tolist(), RD.tolist()]))
    if "area" in kw:
        ctx.check("loaded-areas", np.array_equal(d["triangle_max_area"].ravel(), AR))


SCENARIOS = {
    "delaunay": (delaunays, 500, 100000),
    "voronoi": (voronois, 200, 40000),
    "polygons": (polygons, 250, 40000),
    "quality": (quality, 120, 20000),
    "attributes": (attributes, 120, 20000),
    "crossing": (crossing, 400, 80000),
    "rounded_crossings": (rounded_crossings, 4, 4),
    "loading": (loading, 200, 30000),
}
