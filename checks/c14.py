"""C14: bounding volume hierarchies answer every query like brute force over their objects."""
import math
from fractions import Fraction as Fr

import numpy as np

import gen
from mmcore.geom import bvh as B
from mmcore.numeric.algorithms import moller as M

RULE = "one case = one set of boxes, segments or triangles (lattice positions, duplicates, flat and nested ones) with hostile queries; every answer compared with a scan over all objects"
ASSUMPTIONS = [
    "distances to a box are those of sd_aabb (checked here against its definition); near ties within 1e-9 may be listed or not, exact ones are",
    "ray and segment hits closer than 1e-6 (relative to the triangle) to an edge or to the ends of the segment are not judged",
]


def boxes(rng, n):
    lo = rng.integers(-6, 7, (n, 3)).astype(float)
    ext = rng.integers(0, 4, (n, 3)).astype(float)
    if rng.integers(2):
        lo = lo + rng.uniform(-1, 1, (n, 3))
        ext = ext * rng.uniform(0.2, 1.5, (n, 3))
    if rng.integers(4) == 0:
        lo[:] = lo[0]
        if rng.integers(2):
            ext[:] = ext[0]
    if rng.integers(4) == 0:
        ext[:, int(rng.integers(3))] = 0.0
        lo[:, int(rng.integers(3))] = 1.0
    return np.stack([lo, lo + ext], 1)


def make(rng, X, leaf):
    objs = [B.Object3D(B.BoundingBox(x[0], x[1])) for x in X]
    return objs, B.build_bvh(list(objs), leaf)


def flat(objs):
    out = []
    for o in objs:
        out += list(o.objects) if isinstance(o, B.CompoundObject3D) else [o]
    return out


def same(a, b):
    return sorted(map(id, a)) == sorted(map(id, b))


def walk(ctx, node, leaf):
    """structure: boxes contain the boxes below them; returns the objects of the leaves"""
    if node.object is not None:
        got = flat([node.object])
        ctx.check("structure:leaf", 1 <= len(got) <= leaf, "a leaf holds %d objects, allowed %d" % (len(got), leaf))
        for o in got:
            a, b = np.array(o.bounding_box), np.array(node.bounding_box)
            ctx.check("structure:contains", np.all(b[0] <= a[0]) and np.all(b[1] >= a[1]), "leaf box %r does not contain its object's %r" % (b.tolist(), a.tolist()))
        return got
    got = []
    for ch in (node.left, node.right):
        if ch is not None:
            a, b = np.array(ch.bounding_box), np.array(node.bounding_box)
            ctx.check("structure:contains", np.all(b[0] <= a[0]) and np.all(b[1] >= a[1]), "node box %r does not contain its child's %r" % (b.tolist(), a.tolist()))
            got += walk(ctx, ch, leaf)
    return got


def hit(a, b):
    return bool(np.all(a[0] <= b[1]) and np.all(a[1] >= b[0]))


def sd(x, p):
    c, h = (x[0] + x[1]) / 2, (x[1] - x[0]) / 2
    d = np.abs(p - c) - h
    return min(float(d.max()), 0.0) + float(np.linalg.norm(np.maximum(d, 0)))


def queries(ctx):
    rng = ctx.rng
    n, leaf = int(rng.integers(1, 30)), int(rng.choice([1, 1, 2, 4]))
    X = boxes(rng, n)
    objs, root = make(rng, X, leaf)
    ctx.check("structure:partition", same(walk(ctx, root, leaf), objs), "the leaves do not hold every object exactly once")
    r = []
    B.traverse_leafs(root, r)
    ctx.check("traverse:leafs", same(flat(r), objs), "traverse_leafs")
    r = []
    B.traverse_all_objects_in_node(root, r)
    ctx.check("traverse:all", same(flat(r), objs), "traverse_all_objects_in_node")
    allb = np.array(root.bounding_box)
    ctx.check("structure:tight", np.allclose(allb, [X[:, 0].min(0), X[:, 1].max(0)], atol=0), "root box %r" % allb.tolist())
    for _ in range(4):
        t = boxes(rng, 1)[0] if rng.integers(2) else X[int(rng.integers(n))].copy()
        want = [o for o, x in zip(objs, X) if hit(x, t)]
        r = []
        B.traverse_bvh(root, B.BoundingBox(t[0], t[1]), r)
        if leaf == 1:
            ctx.check("traverse:box", same(r, want), "traverse_bvh(%r): %d objects, expected %d" % (t.tolist(), len(r), len(want)))
        else:
            ctx.check("traverse:box", set(map(id, want)) <= set(map(id, flat(r))), "traverse_bvh misses objects")
        i = int(rng.integers(n))
        j = int(rng.integers(n))
        p = [(np.maximum(X[i, 0], X[j, 0]) + np.minimum(X[i, 1], X[j, 1])) / 2, X[i, 0], X[i, 1], X[i].mean(0), rng.uniform(-8, 10, 3), X[i, 0] + rng.integers(0, 2, 3) * (X[i, 1] - X[i, 0])][int(rng.integers(6))]
        p = np.array(p, float)
        inside = [o for o, x in zip(objs, X) if np.all(x[0] <= p) and np.all(x[1] >= p)]
        got = B.contains_point(root, p)
        if leaf == 1:
            ctx.check("contains_point", same(got, inside), "contains_point(%r): %d objects, expected %d" % (p.tolist(), len(got), len(inside)))
        else:
            ctx.check("contains_point", set(map(id, inside)) <= set(map(id, flat(got))), "contains_point misses objects")
        node = B.traverse_bvh_point(root, p)
        inroot = bool(np.all(allb[0] <= p) and np.all(allb[1] >= p))
        ctx.check("traverse:point", (node is not None) == inroot, "traverse_bvh_point: %r for a point %s the root" % (node, "in" if inroot else "outside"))
        if node is not None:
            below = []
            B.traverse_leafs(node, below)
            ctx.check("traverse:point", set(map(id, inside)) <= set(map(id, flat(below))), "an object containing the point is not below the node of traverse_bvh_point")
        if leaf == 1:
            S = np.array([sd(x, p) for x in X])
            for o, s in zip(objs[:3], S):
                ctx.close("distance", float(B.sd_aabb(np.array(o.bounding_box), p)), s, 1e-12, "sd_aabb")
            got, d = B.find_closest(root, p)
            ctx.check("closest", abs(d - S.min()) <= 1e-9 * (1 + abs(d)), "find_closest(%r): %r, brute force %r" % (p.tolist(), d, S.min()))
            ctx.check("closest", len(got) > 0 and all(S[[k for k, o in enumerate(objs) if o is g][0]] <= S.min() + 1e-9 for g in got), "find_closest lists an object that is not closest")
            ctx.check("closest", len({id(g) for g in got}) == len(got), "find_closest lists an object twice")
            if inside and n > 1:
                r2 = B.find_closest(root, p, breadth=False)
                # in coordinates that are sums of few powers of two the distances carry no rounding
                dyadic = bool(np.all(X * 16 == np.round(X * 16)) and np.all(p * 16 == np.round(p * 16)))
                tied = [] if not dyadic else [o for o, x in zip(objs, X) if np.all(x[0] <= p) and np.all(x[1] >= p) and float(B.sd_aabb(np.array(o.bounding_box), p)) == d]
                ctx.observe("exact-ties", int(len(tied) > 1))
                ctx.check("closest:ties", r2 is not None and set(map(id, tied)) <= {id(g) for g in r2[0]}, "find_closest(breadth=False) leaves out one of %d objects at exactly the same distance" % len(tied))
                ctx.check("closest:ties", set(map(id, tied)) <= {id(g) for g in got}, "find_closest leaves out one of %d objects at exactly the same distance" % len(tied))
                ctx.check("closest:vicinity", r2 is not None and abs(r2[1] - S.min()) <= 1e-9, "find_closest(breadth=False): %r, deepest containing box is at %r" % (r2 and r2[1], S.min()))
    ctx.state(n, leaf, X[:3].round(1).tolist())


def pairs(ctx):
    rng = ctx.rng
    n, m = int(rng.integers(1, 18)), int(rng.integers(1, 18))
    X, Y = boxes(rng, n), boxes(rng, m)
    ox, rx = make(rng, X, 1)
    oy, ry = make(rng, Y, 1)
    want = sorted((id(a), id(b)) for a, x in zip(ox, X) for b, y in zip(oy, Y) if hit(x, y))
    got = [(a.object, b.object) for a, b in B.intersect_bvh_objects(rx, ry)]
    ctx.check("pairs", sorted((id(a), id(b)) for a, b in got) == want, "intersect_bvh_objects: %d pairs, expected %d" % (len(got), len(want)))
    inter = B.intersect_bvh(rx, ry)
    W = sorted(np.r_[np.maximum(x[0], y[0]), np.minimum(x[1], y[1])].tolist() for x in X for y in Y if hit(x, y))
    G = sorted(np.array(b).ravel().tolist() for b in inter if b is not None)
    ctx.check("pairs:boxes", G == W, "intersect_bvh: %d boxes, expected %d" % (len(G), len(W)))
    ctx.state("pairs", n, m, len(want))


def clip(x, s, e):
    """exact slab clipping on rationals: the parameter interval of the segment inside the box, or None"""
    lo, hi = Fr(0), Fr(1)
    for k in range(3):
        a, d = Fr(float(s[k])), Fr(float(e[k])) - Fr(float(s[k]))
        l, h = Fr(float(x[0][k])), Fr(float(x[1][k]))
        if d == 0:
            if a < l or a > h:
                return None
            continue
        t0, t1 = (l - a) / d, (h - a) / d
        if t0 > t1:
            t0, t1 = t1, t0
        lo, hi = max(lo, t0), min(hi, t1)
        if lo > hi:
            return None
    return float(lo), float(hi)


def near(x, s, e, eps=1e-7):
    """grazing: the answer changes when the box grows or shrinks a little"""
    g, h = [x[0] - eps, x[1] + eps], [x[0] + eps, x[1] - eps]
    big = clip(g, s, e) is not None
    if not big:
        return False
    if np.any(h[0] > h[1]):
        return clip(x, s, e) is None
    return clip(h, s, e) is None


def segments(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 25))
    X = boxes(rng, n)
    objs, root = make(rng, X, 1)
    for _ in range(3):
        s, e = rng.uniform(-8, 10, (2, 3))
        if rng.integers(4) == 0:
            e = s.copy()
            e[int(rng.integers(3))] += 20.0
        for name, fn, seg in (("bvh_segment_intersection", B.bvh_segment_intersection, np.array([s, e])),
                              ("bvh_segment_intersection_recursive", B.bvh_segment_intersection_recursive, B.Segment(s, e))):
            r = fn(root, seg)
            got = [(x[0].object if isinstance(x[0], B.BVHNode) else x[0]) for x in r]
            ctx.check("segment:once", len({id(g) for g in got}) == len(got), name + " lists an object twice")
            ids = {id(g) for g in got}
            for o, x in zip(objs, X):
                if near(x, s, e):
                    continue
                want = clip(x, s, e) is not None
                ctx.check("segment", (id(o) in ids) == want, "%s: box %r and segment %r-%r: %r" % (name, x.tolist(), s.tolist(), e.tolist(), id(o) in ids))
        d = e - s
        r = B.bvh_ray_intersection(root, B.Ray(s, d))
        ids = {id(g[0]) for g in r}
        far = s + d / np.linalg.norm(d) * 200.0
        for o, x in zip(objs, X):
            if not near(x, s, far):
                ctx.check("ray", (id(o) in ids) == (clip(x, s, far) is not None), "bvh_ray_intersection: box %r, ray %r %r" % (x.tolist(), s.tolist(), d.tolist()))
    ctx.state("segments", n, X[:2].round(1).tolist())


def tri_hit(T, s, e):
    """(hit, margin, t, point) of a segment and a triangle in exact arithmetic; margin 0 for parallel ones"""
    F = lambda v: [Fr(float(x)) for x in v]
    a, b, c, s, e = map(F, (*T, s, e))
    sub = lambda p, q: [x - y for x, y in zip(p, q)]
    cross = lambda p, q: [p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]]
    dot = lambda p, q: sum(x * y for x, y in zip(p, q))
    d, e1, e2 = sub(e, s), sub(b, a), sub(c, a)
    h = cross(d, e2)
    det = dot(e1, h)
    if det == 0:
        return False, 0.0, None
    w = sub(s, a)
    q = cross(w, e1)
    u, v, t = dot(w, h) / det, dot(d, q) / det, dot(e2, q) / det
    m = min(u, v, 1 - u - v, t, 1 - t)
    if abs(det) < Fr(1, 10 ** 6):
        return False, 0.0, None
    return m > 0, float(abs(m)), float(t)


def soup(rng):
    kind = int(rng.integers(4))
    n = int(rng.integers(2, 7))
    if kind < 3:
        x = np.linspace(0, 2, n)
        X, Y = np.meshgrid(x, x, indexing="ij")
        Z = [0 * X, np.sin(3 * X) * np.cos(2 * Y), X][kind]
        P = np.c_[X.ravel(), Y.ravel(), Z.ravel()]
        I = [t for i in range(n - 1) for j in range(n - 1) for t in ([i * n + j, i * n + j + n, i * n + j + n + 1], [i * n + j, i * n + j + n + 1, i * n + j + 1])]
        if rng.integers(2):
            P = P @ gen.rotation(rng).T
        return P, np.array(I)
    m = int(rng.integers(1, 20))
    P = rng.uniform(-2, 2, (3 * m, 3))
    return P, np.arange(3 * m).reshape(m, 3)


def meshes(ctx):
    rng = ctx.rng
    P, I = soup(rng)
    leaf = int(rng.choice([1, 1, 3]))
    root = B.build_bvh_from_mesh(P, I, leaf)
    tris = P[I]
    for _ in range(4):
        k = int(rng.integers(len(I)))
        aim = rng.dirichlet([1, 1, 1]) @ tris[k]
        s = aim + rng.normal(size=3) * 2
        e = aim + (aim - s) * float(rng.choice([1.0, 0.3, -0.4]))
        if rng.integers(3) == 0:
            s, e = np.array([aim[0], aim[1], 5.0]), np.array([aim[0], aim[1], -5.0])
        H = [tri_hit(T, s, e) for T in tris]
        if any(h[1] < 1e-6 for h in H):
            ctx.observe("mesh:grazing")
        else:
            hits = [i for i, h in enumerate(H) if h[0]]
            r = B.mesh_bvh_segment_intersection_one(root, np.array([s, e]))
            ctx.check("mesh:segment", (r is not None) == bool(hits), "mesh_bvh_segment_intersection_one: %r, brute force hits %r" % (r and r[0], hits))
            if r is not None and hits:
                D = [np.linalg.norm(np.asarray(r[0]) - (s + H[i][2] * (e - s))) for i in hits]
                j = hits[int(np.argmin(D))]
                ctx.check("mesh:point", min(D) < 1e-7, "the hit point is not one of brute force's")
                ctx.check("mesh:object", any(np.array_equal(t.pts, tris[j]) for t in flat([r[1]])), "the hit triangle does not hold the hit point")
        if leaf == 1:
            d = e - s
            L = 100.0 / np.linalg.norm(d)
            H = [tri_hit(T, s, s + d * L) for T in tris]
            if not any(h[1] < 1e-6 / L and True for h in H):
                hits = sorted((h[2] * 100.0, i) for i, h in enumerate(H) if h[0])
                r = B.mesh_bvh_ray_intersection(root, B.Ray(s, d))
                ok = len(r) == len(hits) and all(abs(g[2] - h[0]) < 1e-6 for g, h in zip(r, hits))
                ctx.check("mesh:ray", ok, "mesh_bvh_ray_intersection: distances %r, expected %r" % ([float(g[2]) for g in r], [h[0] for h in hits]))
                for g in r:
                    ctx.check("mesh:ray", np.linalg.norm(np.asarray(g[0]) - (s + d / np.linalg.norm(d) * g[2])) < 1e-6, "the hit point is not on the ray at its distance")
    ctx.state("mesh", leaf, len(I), P[:2].round(2).tolist())


def kernels(ctx):
    """the triangle kernels one by one, singly and batched, including vertex and edge hits"""
    rng = ctx.rng
    n = int(rng.integers(1, 9))
    T = rng.integers(-3, 4, (n, 3, 3)).astype(float) if rng.integers(2) else rng.uniform(-2, 2, (n, 3, 3))
    k = int(rng.integers(n))
    kind = int(rng.integers(4))
    w = [rng.dirichlet([1, 1, 1]), np.eye(3)[int(rng.integers(3))], np.array([0.5, 0.5, 0.0]), rng.dirichlet([1, 1, 1])][kind]
    aim = w @ T[k]
    nrm = np.cross(T[k, 1] - T[k, 0], T[k, 2] - T[k, 0])
    if np.linalg.norm(nrm) < 0.3:
        ctx.skip("degenerate")
    s = aim + nrm / np.linalg.norm(nrm) + rng.normal(size=3) * 0.3
    e = aim - (s - aim) * (1.0 if kind < 3 else float(rng.uniform(-0.9, 2)))
    outs, flags = np.full((n, 3), 7.0), np.zeros(n, np.intc)
    M.intersect_triangles_segment(*[np.ascontiguousarray(T[:, i]) for i in range(3)], s, e, outs, flags)
    one = np.zeros(3)
    first = M.intersect_triangles_segment_one(*[np.ascontiguousarray(T[:, i]) for i in range(3)], s, e, one)
    single = []
    for i in range(n):
        o = np.full(3, 7.0)
        f = M.intersect_triangle_segment(*[np.ascontiguousarray(x) for x in T[i]], s, e, o)
        single.append(f)
        hit_, m, t = tri_hit(T[i], s, e)
        if t is None:
            continue
        if m > 1e-6:
            ctx.check("kernel", (f != 0) == hit_, "intersect_triangle_segment flag %r, expected a hit: %r" % (f, hit_))
        if f:
            ctx.close("kernel", o, s + t * (e - s), 1e-7, "intersection point")
            ctx.close("kernel:batch", outs[i], o, 1e-12, "batched point")
        ctx.check("kernel:batch", (flags[i] != 0) == (f != 0), "batched flag %r, single %r" % (flags[i], f))
        if i == k and m <= 1e-9 and kind in (1, 2):
            if flags[i]:
                ctx.check("kernel:class", flags[i] == (2 if kind == 1 else 3), "a hit at %s is classified %r" % ("a vertex" if kind == 1 else "an edge", flags[i]))
        elif flags[i] and m > 1e-3:
            ctx.check("kernel:class", flags[i] == 1, "an interior hit is classified %r" % flags[i])
    f1 = [i for i in range(n) if single[i]]
    ctx.check("kernel:one", (first[1] != 0) == bool(f1), "intersect_triangles_segment_one flag %r, single hits %r" % (first[1], f1))
    ctx.state("kernel", n, kind, T[0].round(1).tolist())


def pieces(ctx):
    """segments and curves as objects of a tree, cut and clipped; every box of a tree; trees of triangles"""
    rng = ctx.rng
    a, b = rng.uniform(-3, 3, (2, 3))
    if rng.integers(3) == 0:
        b[int(rng.integers(3))] = a[0]
    sg = B.Segment(a.copy(), b.copy())
    t = float(rng.uniform(0, 1))
    ctx.close("piece:segment", [sg.evaluate(t), *sg], [a + (b - a) * t, a, b], 1e-12, "a segment's points")
    ctx.close("piece:segment", [sg.length(), sg.length_sq()], [np.linalg.norm(b - a), (b - a) @ (b - a)], 1e-12, "a segment's length")
    ctx.check("piece:segment", not sg.is_zero() and B.Segment(a.copy(), a + 1e-9).is_zero(), "is_zero")
    halves = sg.subdivide(t)
    ctx.close("piece:subdivide", [list(h) for h in halves], [[a, a + (b - a) * t], [a + (b - a) * t, b]], 1e-12, "subdivide(%r)" % t)
    for h in (sg, *halves):
        P = np.array(list(h))
        ctx.close("piece:box", np.array(h.bounding_box), [P.min(0), P.max(0)], 1e-12, "a segment's box")
    lo = rng.uniform(-3, 1, 3)
    hi = lo + rng.uniform(0.5, 4, 3)
    with np.errstate(all="ignore"):
        q = np.sort(np.array([(lo - a) / (b - a), (hi - a) / (b - a)]), axis=0)
    par = a == b
    if not par.any() or bool(((a > lo) & (a < hi))[par].all()):
        q = q[:, ~par]
        t0, t1 = max(0.0, q[0].max()), min(1.0, q[1].min())
        if abs(t1 - t0) > 1e-9:
            c = sg.clip(B.BoundingBox(lo, hi))
            if ctx.check("piece:clip", (c is not None) == (t0 < t1), "clip: %r, the part inside is [%r, %r]" % (c, t0, t1)) and t0 < t1:
                ctx.close("piece:clip", list(c), [a + (b - a) * t0, a + (b - a) * t1], 1e-9, "the clipped segment")
    n, k = int(rng.integers(3, 8)), int(rng.integers(1, 4))
    if n > k:
        from mmcore.geom.nurbs import NURBSCurve
        crv = NURBSCurve(rng.uniform(-3, 3, (n, 3)), k)
        u0, u1 = crv.interval()
        at = None if rng.integers(3) == 0 else float(u0 + (u1 - u0) * rng.uniform(0.05, 0.95))
        o = B.NURBSCurveObject3D(crv)
        m = (u0 + u1) / 2 if at is None else at
        for h, r in zip(o.split() if at is None else o.split(at), ((u0, m), (m, u1))):
            x = np.linspace(*r, 7)
            Q = np.array([crv.evaluate(float(y)) for y in x])
            ctx.close("piece:curve", h.curve.interval(), r, 1e-12, "domain of a part")
            ctx.close("piece:curve", [h.curve.evaluate(float(y)) for y in x], Q, 1e-9, "a part of a split curve")
            bb = np.array(h.bounding_box)
            ctx.check("piece:curve box", bool(np.all(bb[0] <= Q.min(0) + 1e-9) and np.all(bb[1] >= Q.max(0) - 1e-9)), "the box of a part leaves the part out")
    T = rng.uniform(-3, 3, (int(rng.integers(1, 20)), 3, 3))
    tris = [B.Triangle(x) for x in T]
    leaf = int(rng.integers(1, 4))
    tree = B.build_bvh_from_triangles(list(tris), leaf)
    got = walk(ctx, tree, leaf)
    ctx.check("piece:triangles", same(got, tris), "the tree of %d triangles holds %d" % (len(tris), len(got)))
    boxes = []
    B.traverse_all_bbox(tree, boxes)
    count = lambda nd: 1 if nd.object is not None else 1 + count(nd.left) + count(nd.right)
    R = np.array(boxes)
    ctx.check("piece:boxes", len(boxes) == count(tree), "%d boxes of a tree of %d nodes" % (len(boxes), count(tree)))
    ctx.close("piece:boxes", R[0], [T.min((0, 1)), T.max((0, 1))], 0, "the first box is that of the whole")
    ctx.check("piece:boxes", all(any(np.array_equal(np.array(o.bounding_box), x) for x in R) for o in tris) if leaf == 1 else True, "a triangle's box is missing")
    ctx.state(len(T), leaf, n, k)


SCENARIOS = {
    "pieces": (pieces, 150, 3000),
    "queries": (queries, 500, 12000),
    "pairs": (pairs, 300, 8000),
    "segments": (segments, 150, 4000),
    "meshes": (meshes, 150, 4000),
    "kernels": (kernels, 400, 10000),
}
