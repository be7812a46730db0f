"""C24: vector, plane, curvature and sorting kernels agree with linear algebra."""
import math
import warnings

import numpy as np

import gen
from mmcore.geom import vec as G
from mmcore.geom.vec.svm import curve_support_vector, support_vector
from mmcore.numeric import calgorithms as ca
from mmcore.numeric import numeric as num
from mmcore.numeric import plane as pl
from mmcore.numeric import vectors as V
from mmcore.numeric.algorithms.quicksort import argsort, quicksort, unique
from mmcore.numeric.algorithms.tnb import frenet_serret_frame
from mmcore.numeric.plane import cplane

RULE = "one case = one batch of random vectors, planes, derivative sets or arrays (small, large, axis-aligned, repeated, parallel, strided) pushed through every kernel and compared with numpy"
ASSUMPTIONS = [
    "plane frames are orthonormal; intersections are asked of planes whose normals are at least 1e-2 from parallel",
    "zero vectors have no unit vector: they are not normalized",
    "inputs are arrays of doubles, as the compiled kernels require",
]
EPS = 2.3e-16


def vecs(rng, n, m=3):
    k = int(rng.integers(5))
    if k == 0:
        a = rng.normal(size=(n, m))
    elif k == 1:
        a = rng.integers(-2, 3, (n, m)).astype(float)
    elif k == 2:
        a = rng.normal(size=(n, m)) * 10.0 ** rng.integers(-6, 7, (n, 1))
    elif k == 3:
        a = np.zeros((n, m))
        a[np.arange(n), rng.integers(0, m, n)] = rng.choice([-3.0, -1.0, 0.5, 2.0], n)
    else:
        a = rng.normal(size=(n, m))
        a[1:] = a[0] * rng.choice([-2.0, 0.5, 1.0], (n - 1, 1))
    bad = ~np.any(a, axis=1)
    a[bad, 0] = 1.0
    if rng.integers(3) == 0:
        b = np.empty((n, 2 * m))
        b[:, ::2] = a
        a = b[:, ::2]
    return a


def vectors(ctx):
    rng = ctx.rng
    n, m = int(rng.integers(1, 8)), int(rng.choice([2, 3, 3, 4]))
    a, b = vecs(rng, n, m), vecs(rng, n, m)
    a0, b0 = a.copy(), b.copy()
    na, nb = np.linalg.norm(a, axis=1), np.linalg.norm(b, axis=1)
    s = float(np.max(na) * np.max(nb))
    dots = np.sum(a * b, axis=1)
    for f in (V.dot, V.dot_array_x_array):
        ctx.close("dot:rows", f(a, b), dots, 8 * EPS * s, f.__name__)
    ctx.close("dot:matrix", V.dot_array_x_vec(a, b[0]), a @ b[0], 8 * EPS * s, "dot_array_x_vec")
    ctx.close("dot:matrix", V.dot_vec_x_array(a[0], b), b @ a[0], 8 * EPS * s, "dot_vec_x_array")
    ctx.close("dot:scalar", V.scalar_dot(a[0], b[0]), float(a[0] @ b[0]), 8 * EPS * s, "scalar_dot")
    ctx.close("norm", V.norm(a), na, 8 * EPS * np.max(na), "norm")
    ctx.close("norm", V.scalar_norm(a[0]), na[0], 8 * EPS * na[0], "scalar_norm")
    ctx.close("unit", V.unit(a), a / na[:, None], 1e-14, "unit")
    ctx.close("unit", V.scalar_unit(a[-1]), a[-1] / na[-1], 1e-14, "scalar_unit")
    c = a[0].copy()
    ctx.check("unit:inplace", V.scalar_normalize(c) == 1, "scalar_normalize refused %r" % (a[0],))
    ctx.close("unit:inplace", c, a[0] / na[0], 1e-14, "scalar_normalize")
    ua = a / na[:, None]
    g = np.asarray(V.gram_schmidt(ua, b))
    ctx.close("gram_schmidt", g, b - ua * np.sum(ua * b, axis=1)[:, None], 16 * EPS * np.max(nb), "gram_schmidt")
    ctx.close("gram_schmidt:orthogonal", np.sum(g * ua, axis=1), np.zeros(n), 32 * EPS * np.max(nb), "gram_schmidt is not orthogonal")
    sup = np.asarray(V.support_vector(a, b[0]))
    ctx.close("support", float(sup @ b[0]), float(np.max(a @ b[0])), 16 * EPS * s, "support_vector %r along %r" % (sup, b[0]))
    ms = np.asarray(V.multi_support_vector(a, b))
    ctx.close("support", np.sum(ms * b, axis=1), np.max(a @ b.T, axis=0), 16 * EPS * s, "multi_support_vector")
    ctx.check("support:member", any(np.array_equal(sup, r) for r in a) and all(any(np.array_equal(q, r) for r in a) for q in ms), "the support vector is not a vertex")
    if m == 3:
        ctx.close("cross", V.cross(a, b), np.cross(a, b), 8 * EPS * s, "cross")
        ctx.close("cross", V.scalar_cross(a[0], b[0]), np.cross(a[0], b[0]), 8 * EPS * s, "scalar_cross")
        proj = b[0] * (a[0] @ b[0]) / (b[0] @ b[0])
        ctx.close("projection", V.vector_projection(a[0], b[0]), proj, 16 * EPS * na[0], "vector_projection")
        p, q = vecs(rng, 2)
        d = b[0]
        want = p + d * ((q - p) @ d) / (d @ d)
        tol = 64 * EPS * (np.linalg.norm(p) + np.linalg.norm(q))
        ctx.close("projection:line", V.closest_point_on_ray(p, d, q), want, tol, "closest_point_on_ray")
        ctx.close("projection:line", V.closest_point_on_line(p, p + d, q), want, tol + 64 * EPS * (np.linalg.norm(p) / np.linalg.norm(d)) * np.linalg.norm(q - p),
                  "closest_point_on_line")
        r = np.zeros(3)
        V.scalar_gram_schmidt(ua[0], b[0], r)
        ctx.close("gram_schmidt", r, b[0] - ua[0] * (ua[0] @ b[0]), 16 * EPS * nb[0], "scalar_gram_schmidt")
        x = vecs(rng, 4)
        want = np.cross(x[2] - x[0], x[3] - x[1])
        tol = 32 * EPS * float(np.max(np.abs(x))) ** 2
        ctx.close("normal_from_4pt", V.normal_from_4pt(*x), want, tol, "vectors.normal_from_4pt")
        ctx.close("normal_from_4pt", num.normal_from_4pt(*x), want, tol, "numeric.normal_from_4pt")
        coordinates(ctx, a)
        if np.linalg.norm(np.cross(ua[0], b[0] / nb[0])) > 0.05:
            xy = rng.uniform(-3, 3, (5, 2))
            v = xy[:, :1] * a[0] + xy[:, 1:] * b[0]
            tol = 1e-9
            ctx.close("decompose", V.decompose_vector(v[0].copy(), a[0], b[0]), xy[0], tol * scale(na[0], nb[0]), "decompose_vector")
            ctx.close("decompose", V.decompose_vectors(v, a[0], b[0]), xy, tol * scale(na[0], nb[0]), "decompose_vectors")
    ctx.check("inputs", np.array_equal(a, a0) and np.array_equal(b, b0), "a kernel changed its arguments")


def scale(p, q):
    return max(p / q, q / p)


def coordinates(ctx, a):
    s = np.asarray(V.cartesian_to_spherical(a))
    n = np.linalg.norm(a, axis=1)
    ctx.close("spherical:radius", s[:, 0], n, 8 * EPS * np.max(n), "cartesian_to_spherical radius")
    ctx.check("spherical:range", np.all(s[:, 1] >= 0) and np.all(s[:, 1] <= math.pi + 1e-12) and np.all(np.abs(s[:, 2]) <= math.pi + 1e-12),
              "angles out of range: %r" % (s,))
    ctx.close("spherical:inverse", np.asarray(V.spherical_to_cartesian(s)) / n[:, None], a / n[:, None], 1e-14, "spherical coordinates do not lead back")
    c = np.asarray(V.courtesan_to_cylindrical(a))
    ctx.close("cylindrical:inverse", np.asarray(V.cylindrical_to_xyz(c)) / n[:, None], a / n[:, None], 1e-14, "cylindrical coordinates do not lead back")
    ctx.close("cylindrical:radius", c[:, 0], np.hypot(a[:, 0], a[:, 1]), 8 * EPS * np.max(n), "radius from the axis")


def linear(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 6))
    J = rng.normal(size=(n, 2, 2)) * 10.0 ** rng.integers(-3, 4, (n, 1, 1))
    if rng.integers(2):
        J = np.round(J * 2) / 2
    det = np.linalg.det(J)
    inv, st = V.invert_jacobian(J)
    inv = np.asarray(inv)
    y = rng.normal(size=2)
    for j in range(n):
        i1, s1 = V.invert_jacobian(J[j])
        r = np.zeros(2)
        ok = V.solve2x2(J[j], y, r)
        exact = J[j, 0, 0] * J[j, 1, 1] - J[j, 0, 1] * J[j, 1, 0]
        if exact == 0:
            ctx.check("2x2:singular", st[j] == -1 and s1 == -1 and not ok, "singular matrix %r accepted" % (J[j].tolist(),))
            continue
        cond = np.linalg.cond(J[j])
        if cond > 1e8:
            continue
        ctx.check("2x2:status", st[j] == 0 and s1 == 0 and ok, "regular matrix %r refused" % (J[j].tolist(),))
        I = np.linalg.inv(J[j])
        m = np.max(np.abs(I))
        ctx.close("2x2:inverse", inv[j], I, 64 * EPS * cond * m, "invert_jacobian of a stack")
        ctx.close("2x2:inverse", i1, I, 64 * EPS * cond * m, "invert_jacobian")
        ctx.close("2x2:solve", r, np.linalg.solve(J[j], y), 64 * EPS * cond * m * 3, "solve2x2")
    p, q, r = (int(v) for v in rng.integers(1, 5, 3))
    A, B = rng.normal(size=(n, p, q)), rng.normal(size=(n, q, r))
    ctx.close("matmul", V.matmul_array(A, B), A @ B, 1e-13, "matmul_array")
    # 3x2 least squares
    c0, c1 = vecs(rng, 2)
    d = rng.normal(size=3)
    s0, s1 = np.linalg.norm(c0), np.linalg.norm(c1)
    M = np.c_[c0, c1]
    a0, a1 = c0.copy(), c1.copy()
    nn = np.cross(c0, c1)
    if np.linalg.norm(nn) > 0.05 * s0 * s1 and max(s0, s1) < 1e3 * min(s0, s1):
        x0, y0 = rng.uniform(-2, 2, 2)
        inplane = x0 * c0 + y0 * c1
        rank, x, y, err, piv = num.solve3x2(c0, c1, *inplane)
        ctx.check("3x2:rank", rank == 2, "rank %r of %r, %r" % (rank, a0, a1))
        tol = 1e-9 * scale(s0, s1)
        ctx.close("3x2:solution", [x, y], [x0, y0], tol, "solve3x2 of %r, %r" % (a0, a1))
        ctx.close("3x2:error", err, 0.0, tol * max(s0, s1), "error of a vector in the plane")
        ctx.check("3x2:pivot", 0 < piv <= 1, "pivot ratio %r" % piv)
        rl = num.solve3x2(list(a0), list(a1), *inplane)
        ctx.close("3x2:list", rl[1:3], [x0, y0], tol, "solve3x2 of lists")
    rank = num.solve3x2(a0, 2.0 * a0, *d)[0]
    ctx.check("3x2:parallel", rank == 1, "rank %r of parallel columns" % rank)
    ctx.check("3x2:zero", num.solve3x2(np.zeros(3), np.zeros(3), *d)[0] == 0, "rank of a zero matrix")
    ctx.check("inputs", np.array_equal(c0, a0) and np.array_equal(c1, a1), "solve3x2 changed its columns")
    # orientation of closed rings
    k = int(rng.integers(3, 9))
    t = np.sort(rng.uniform(0, 2 * math.pi, k))
    if np.max(np.diff(np.r_[t, t[0] + 2 * math.pi])) > 2.5:
        return
    ring = np.c_[np.cos(t), np.sin(t)] * rng.uniform(0.5, 2, (k, 1)) + rng.uniform(-5, 5, 2)
    ring = np.r_[ring, ring[:1]]
    area = 0.5 * np.sum(ring[:-1, 0] * ring[1:, 1] - ring[1:, 0] * ring[:-1, 1])
    ctx.close("ring:area", float(V.det(ring)), -2 * area, 1e-12, "det of a closed ring is minus twice its signed area")
    ctx.check("ring:order", V.points_order(ring) == 1 and V.points_order(ring[::-1].copy()) == 0, "points_order of a counterclockwise ring")
    ctx.check("ring:order", list(V.multi_points_order([ring, ring[::-1].copy()])) == [1, 0], "multi_points_order")


def frame(rng):
    q = gen.rotation(rng)
    if rng.integers(3) == 0:
        i = rng.permutation(3)
        q = np.eye(3)[i] * rng.choice([-1.0, 1.0], (3, 1))
        if np.linalg.det(q) < 0:
            q[0] *= -1
    o = rng.uniform(-5, 5, 3) if rng.integers(4) else np.zeros(3)
    return np.r_[o[None], q]


def on(ctx, mon, x, planes, tol, msg):
    for p in planes:
        ctx.close(mon, float((np.asarray(x) - p[0]) @ p[3]), 0.0, tol, msg)


def planes(ctx):
    rng = ctx.rng
    P = np.array([frame(rng) for _ in range(4)])
    P0 = P.copy()
    x = rng.uniform(-5, 5, 3)
    X = rng.uniform(-5, 5, (4, 3))
    p = P[0]
    loc = p[1:] @ (x - p[0])
    ctx.close("plane:local", pl.inverse_evaluate_plane(p, x), loc, 1e-13, "inverse_evaluate_plane")
    ctx.close("plane:world", pl.evaluate_plane(p, loc), x, 1e-13, "evaluate_plane")
    ctx.close("plane:local", pl.inverse_evaluate_plane_arr(p, X), (X - p[0]) @ p[1:].T, 1e-13, "inverse_evaluate_plane_arr")
    ctx.close("plane:world", pl.evaluate_plane_arr(p, X), X @ p[1:] + p[0], 1e-13, "evaluate_plane_arr")
    h = float((x - p[0]) @ p[3])
    ctx.close("plane:distance", pl.distance(p, x), abs(h), 1e-13, "distance")
    ctx.close("plane:project", pl.project(p, x), x - h * p[3], 1e-13, "project")
    ctx.close("plane:project", pl.project_point_by_normal(x, p[3], p[0]), x - h * p[3], 1e-13, "project_point_by_normal")
    # planes from points, normals and equations
    pts = vecs(rng, 3) + rng.uniform(-2, 2, 3)
    nn = np.cross(pts[1] - pts[0], pts[2] - pts[0])
    size = np.max(np.abs(pts))
    l1, l2 = np.linalg.norm(pts[1] - pts[0]), np.linalg.norm(pts[2] - pts[0])
    if size < 100 and min(l1, l2) > 0.1 and np.linalg.norm(nn) > 0.1 * l1 * l2:
        q, eq = pl.plane_from_3pt(*pts)
        tol = 1e-12 * size ** 2 * max(1.0, size / min(l1, l2)) / 0.1
        orthonormal(ctx, q, tol)
        ctx.close("from3pt:normal", q[3], nn / np.linalg.norm(nn), tol, "normal of plane_from_3pt")
        on(ctx, "from3pt:points", q[0], [np.r_[pts[i][None], q[1:]] for i in range(3)], tol, "plane_from_3pt misses a point")
        sd = pl.plane_signed_distance(np.array(eq) / np.linalg.norm(nn), pts)
        ctx.close("from3pt:equation", sd, np.zeros(3), tol, "the plane equation does not hold at its points")
        o, N = pl.plane_from_eq(eq)
        ctx.close("fromeq:origin", float((o - pts[0]) @ (nn / np.linalg.norm(nn))), 0.0, tol, "origin of plane_from_eq is off the plane")
        ctx.close("fromeq:normal", N, nn / np.linalg.norm(nn), tol, "normal of plane_from_eq")
    n = P[1, 3] * float(rng.uniform(0.1, 5))
    q = pl.plane_from_normal2(x, n)
    orthonormal(ctx, q, 1e-12)
    ctx.close("fromnormal", q[3], P[1, 3], 1e-13, "normal of plane_from_normal2")
    ctx.close("fromnormal", q[0], x, 0.0, "origin of plane_from_normal2")
    q = pl.plane_from_normal_origin(P[1, 3], x)
    along = np.linalg.norm(np.cross(P[1, 3], x)) / np.linalg.norm(x)
    if along > 1e-3:
        orthonormal(ctx, q, 1e-11)
        ctx.close("fromnormal", q[3], P[1, 3], 1e-13, "normal of plane_from_normal_origin")
    # intersections
    N = P[:, 3]
    s01 = np.linalg.norm(np.cross(N[0], N[1]))
    if s01 > 1e-2:
        tol = 1e-11 / s01 ** 2
        for name, r in (("plane_plane_intersect", pl.plane_plane_intersect(P[0], P[1])), ("plane_plane_intersection", pl.plane_plane_intersection(P[0], P[1])),
                        ("plane_plane_normal_intersect", cplane.plane_plane_normal_intersect(P[0, 0], N[0], P[1, 0], N[1]))):
            line(ctx, np.asarray(r), P[0], P[1], tol, name)
        many = np.array([P[0], P[0], P[1]])
        other = np.array([P[1], P[1], P[0]])
        for name, r in (("planes_planes_intersect", cplane.planes_planes_intersect(many, other)), ("plane_plane_intersection 3d", pl.plane_plane_intersection(many, other)),
                        ("plane_plane_intersection 4d", pl.plane_plane_intersection(many[None], other[None])[0])):
            for j in range(3):
                line(ctx, np.asarray(r[j]), many[j], other[j], tol, name)
        two = np.array([P[0], P[0]])
        for name, r in (("planes_plane_intersect", cplane.planes_plane_intersect(two, P[1])), ("plane_plane_intersection 3d 2d", pl.plane_plane_intersection(two, P[1])),
                        ("plane_plane_intersection 2d 3d", pl.plane_plane_intersection(P[1], two)),
                        ("plane_plane_intersection 3d 4d", pl.plane_plane_intersection(two, np.array([[P[1], P[1]]]))[0])):
            for j in range(2):
                line(ctx, np.asarray(r[j]), P[0], P[1], tol, name)
    v = abs(np.linalg.det(N[:3]))
    if v > 1e-2:
        tol = 1e-11 / v ** 2
        on(ctx, "3planes", pl.plane_plane_plane_intersect(*P[:3]), P[:3], tol, "plane_plane_plane_intersect is off a plane")
        r = pl.plane_plane_plane_intersect_points_and_normals(P[0, 0], N[0], P[1, 0], N[1], P[2, 0], N[2])
        on(ctx, "3planes", r, P[:3], tol, "plane_plane_plane_intersect_points_and_normals is off a plane")
    d = rng.normal(size=3)
    if rng.integers(4) == 0:
        d -= (d @ N[0]) * N[0]
        d = np.where(np.abs(d) < 1e-15, 0.0, d)
    den = float(d @ N[0])
    t = float((P[0, 0] - x) @ N[0]) / den if den else math.inf
    ray = np.array([x, d])
    li = pl.plane_line_intersection(P[0], (x, d))
    ri = pl.plane_ray_intersection(P[0], ray)
    r2 = pl.plane_ray_intersection(P[0][[0, 3]], ray)
    r3 = pl.ray_plane_intersection(P[0][[0, 3]], ray)
    rp = cplane.ray_plane_parametric_intersection(P[0], ray)
    if abs(den) > 1e-3:
        want = x + t * d
        tol = 1e-11 * (1 + abs(t)) / abs(den)
        ctx.close("line", li, want, tol, "plane_line_intersection")
        w, si, psi = pl.plane_line_intersection(P[0], (x, d), full_return=True)
        ctx.close("line:parameter", si, t, tol, "parameter of plane_line_intersection")
        if t > 1e-9:
            for r in (ri, r2, r3):
                ctx.check("ray:hit", r is not None, "the ray misses the plane; t = %r" % t)
                ctx.close("ray:point", r, want, tol, "ray x plane")
            ctx.check("ray:hit", rp is not None, "the ray misses the parametric plane")
            ctx.close("ray:point", rp[0], want, tol, "ray x parametric plane")
            ctx.close("ray:uv", P[0, 0] + rp[1][0] * P[0, 1] + rp[1][1] * P[0, 2], want, tol, "uv of the intersection")
            # a frame whose axes are neither unit nor at right angles
            B = P[0].copy()
            B[1:3] = (rng.normal(size=(2, 2)) + 2 * np.eye(2)) @ P[0, 1:3]
            g = abs(np.linalg.det(np.array([B[1], B[2], N[0]])))
            if g > 0.1:
                rs = cplane.ray_plane_parametric_intersection(B, ray)
                ctx.check("ray:hit", rs is not None, "the ray misses the skewed parametric plane")
                ctx.close("ray:uv", B[0] + rs[1][0] * B[1] + rs[1][1] * B[2], want, tol * 100, "uv of the intersection with a skewed plane")
        elif t < -1e-9:
            ctx.check("ray:behind", ri is None and r2 is None and r3 is None and rp is None, "a plane behind the ray (t = %r) was hit" % t)
    elif den == 0:
        ctx.check("line:parallel", li is None and ri is None and rp is None, "a parallel line intersects the plane")
    ctx.check("inputs", np.array_equal(P, P0), "a plane was changed")


def orthonormal(ctx, q, tol):
    ctx.close("plane:orthonormal", q[1:] @ q[1:].T, np.eye(3), tol, "axes are not orthonormal")
    ctx.close("plane:right-handed", float(np.linalg.det(q[1:])), 1.0, 10 * tol, "frame is not right-handed")


def line(ctx, r, a, b, tol, name):
    on(ctx, "2planes:point", r[0], (a, b), tol, "%s: the point is off a plane" % name)
    d = np.cross(a[3], b[3])
    ctx.close("2planes:direction", np.cross(r[1], d), np.zeros(3), 1e-12, "%s: wrong direction" % name)
    ctx.close("2planes:direction", np.linalg.norm(r[1]), np.linalg.norm(d), 1e-12, "%s: direction is not the product of the normals" % name)


def curvature(ctx):
    rng = ctx.rng
    d1, d2 = rng.normal(size=(2, 3)) * 10.0 ** rng.integers(-2, 3, (2, 1))
    if rng.integers(5) == 0:
        d2 = d1 * float(rng.normal())
    n1 = np.linalg.norm(d1)
    T = d1 / n1
    k = np.cross(np.cross(d1, d2), d1) / n1 ** 4
    kt = 1e-13 * np.linalg.norm(d2) / n1 ** 2
    t, K, ok = num.evaluate_curvature(d1, d2)
    ctx.check("curvature:status", bool(ok), "evaluate_curvature failed")
    ctx.close("curvature:tangent", t, T, 1e-14, "tangent")
    ctx.close("curvature", K, k, kt, "curvature vector")
    t2, K2 = np.full(3, 7.0), np.full(3, 7.0)
    ctx.check("curvature:status", bool(ca.evaluate_curvature(d1, d2, t2, K2)), "compiled evaluate_curvature answered False")
    ctx.close("curvature:tangent", t2, T, 1e-14, "compiled tangent")
    ctx.close("curvature", K2, k, kt, "compiled curvature vector")
    z = np.zeros(3)
    t2, K2 = np.full(3, 7.0), np.full(3, 7.0)
    ctx.check("curvature:cusp", not ca.evaluate_curvature(z, d2, t2, K2) and not num.evaluate_curvature(z, d2)[2], "a cusp has a curvature")
    ctx.close("curvature:cusp", [t2, K2], [d2 / np.linalg.norm(d2), z], 1e-14, "compiled tangent and curvature at a cusp")
    ctx.close("curvature:cusp", num.evaluate_curvature(z, d2)[:2], [d2 / np.linalg.norm(d2), z], 1e-14, "tangent and curvature at a cusp")
    ctx.close("curvature:tangent", num.evaluate_tangent(d1, d2)[0], T, 1e-14, "evaluate_tangent")
    ca.evaluate_tangent(d1, d2, t2)
    ctx.close("curvature:tangent", t2, T, 1e-14, "compiled evaluate_tangent")
    nk = np.linalg.norm(k)
    if nk * n1 ** 2 > 0.05 * np.linalg.norm(d2):
        N = k / nk
        B = np.cross(T, N)
        o = rng.normal(size=3)
        ctx.close("frame", num.plane_on_curve(o, T, d2), [o, T, N, B], 1e-12, "plane_on_curve")
        ctx.close("frame", num.normal_at(d1, d2), N, 1e-12, "normal_at")
        f = frenet_serret_frame(lambda s: o, lambda s: d1, lambda s: d2, 0.0)
        ctx.close("frame", f, [o, T, N, B], 1e-12, "frenet_serret_frame")
        sw = num.swap_z_to_first_der(np.array(f))
        ctx.close("frame:swap", sw, [o, N, B, T], 1e-12, "swap_z_to_first_der")

        class C:
            evaluate = staticmethod(lambda s: o)
            derivative = staticmethod(lambda s: d1)
            second_derivative = staticmethod(lambda s: d2)
        po, R, pln = num.circle_of_curvature(C, 0.0)
        ctx.close("osculating", R * nk, 1.0, 1e-12, "radius of curvature")
        ctx.close("osculating", (pln[0] - o) * nk, N, 1e-11 + 1e-14 * nk, "centre of curvature")
        ctx.close("osculating", pln[1:], [T, N, B], 1e-12, "plane of the osculating circle")
    # 2d
    x = rng.normal(size=4)
    if np.hypot(x[0], x[1]) > 0.1:
        ctx.close("curvature:2d", num.calculate_curvature2d(*x)[2], abs(x[0] * x[3] - x[1] * x[2]) / np.hypot(x[0], x[1]) ** 3, 1e-9, "calculate_curvature2d")
    surface(ctx)


def surface(ctx):
    rng = ctx.rng
    S10, S01, S20, S11, S02 = rng.normal(size=(5, 3))
    g = np.array([[S10 @ S10, S10 @ S01], [S10 @ S01, S01 @ S01]])
    ctx.close("surface:jacobian", ca.surface_jacobian(S10, S01), g, 1e-13, "surface_jacobian")
    det, ok = num.evaluate_jacobian(g[0, 0], g[0, 1], g[1, 1])
    ctx.close("surface:jacobian", det, np.linalg.det(g), 1e-12, "evaluate_jacobian")
    par = num.evaluate_jacobian(4.0 * g[0, 0], 2.0 * g[0, 0], g[0, 0])
    ctx.check("surface:parallel", bool(ok) == (np.linalg.det(g) > 1e-7) and not par[1] and not num.evaluate_jacobian(0.0, 0.0, g[1, 1])[1], "status of evaluate_jacobian")
    n = np.cross(S10, S01)
    if np.linalg.norm(n) > 0.2:
        for f in (num.evaluate_normal, num.evaluate_normal2):
            m = f(S10, S01, S20, S11, S02)
            ctx.close("surface:normal", m / np.linalg.norm(m), n / np.linalg.norm(n), 1e-12, f.__name__)
            # a pole: du vanishes, the limit of du x dv is along Suv x Sv
            lim = np.cross(S11, S01)
            if np.linalg.norm(lim) > 0.2:
                m = f(np.zeros(3), S01, np.zeros(3), S11, S02)
                ctx.close("surface:pole", np.cross(m, lim / np.linalg.norm(lim)), np.zeros(3), 1e-12, "%s at a pole" % f.__name__)
                ctx.close("surface:pole", np.linalg.norm(m), 1.0, 1e-12, "%s at a pole is not a unit vector" % f.__name__)
    # curvature of the section by a plane containing a tangent direction
    pn = rng.normal(size=3)
    if np.linalg.norm(n) < 0.3 or np.linalg.norm(np.cross(n / np.linalg.norm(n), pn)) < 0.3:
        return
    keep = [v.copy() for v in (S10, S01, S20, S11, S02)]
    ok, K = num.evaluate_sectional_curvature(S10, S01, S20, S11, S02, pn)
    ctx.check("section:status", bool(ok), "evaluate_sectional_curvature failed")
    ctx.check("inputs", all(np.array_equal(a, b) for a, b in zip(keep, (S10, S01, S20, S11, S02))), "evaluate_sectional_curvature changed the derivatives")
    # the section: r' = a Su + b Sv in the plane, r'' = normal part of the second form + tangential part in the plane
    A = np.c_[S10, S01]
    D1 = np.cross(n, pn)
    a, b = np.linalg.lstsq(A, D1, rcond=None)[0]
    q = a * a * S20 + 2 * a * b * S11 + b * b * S02
    # r'' = q + x Su + y Sv with pn.r'' = 0: take the in-plane solution orthogonal part to D1
    st = np.array([pn @ S10, pn @ S01])
    x, y = -st * (pn @ q) / (st @ st)
    r2 = q + x * S10 + y * S01
    l = D1 @ D1
    want = (r2 - (r2 @ D1) / l * D1) / l
    cond = np.linalg.norm(S10) * np.linalg.norm(S01) / np.linalg.norm(n)
    ctx.close("section:curvature", K, want, 1e-9 * cond ** 2 * (1 + np.linalg.norm(want)) / min(1.0, np.linalg.norm(st)) ** 2, "curvature of a plane section")


def sorting(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 5, 17, 100, 700]))
    k = int(rng.integers(6))
    x = rng.normal(size=n)
    if k == 1:
        x = rng.integers(-3, 4, n).astype(float)
    elif k == 2:
        x = np.sort(x)
    elif k == 3:
        x = np.sort(x)[::-1].copy()
    elif k == 4:
        x = x * 10.0 ** rng.integers(-300, 300, n)
    elif k == 5:
        x = np.where(rng.integers(0, 4, n) == 0, rng.choice([-np.inf, np.inf, 0.0, -0.0], n), x)
    view, base = x.copy(), None
    m = int(rng.integers(4))
    if m == 1:
        base = rng.normal(size=(n, 3))
        base[:, 1] = x
        view = base[:, 1]
    elif m == 2:
        base = x[::-1].copy()
        view = base[::-1]
    elif m == 3:
        base = np.r_[rng.normal(size=3), x, rng.normal(size=2)]
        view = base[3:3 + n]
    before = None if base is None else base.copy()
    ctx.state((n, k, m))
    i = np.asarray(argsort(view))
    ctx.check("argsort:permutation", np.array_equal(np.sort(i), np.arange(n)), "argsort is not a permutation")
    ctx.check("argsort:order", np.array_equal(x[i], np.sort(x)), "argsort does not sort")
    ctx.check("argsort:input", np.array_equal(view, x), "argsort changed its input")
    u = np.asarray(unique(view.copy()))
    ctx.check("unique", np.array_equal(u, np.unique(x)), "unique: %r" % (u[:10],))
    quicksort(view)
    ctx.check("quicksort", np.array_equal(view, np.sort(x)), "quicksort: not sorted or not a permutation")
    if m == 1:
        ctx.check("quicksort:neighbours", np.array_equal(base[:, [0, 2]], before[:, [0, 2]]), "quicksort wrote outside its view")
    elif m == 3:
        ctx.check("quicksort:neighbours", np.array_equal(base[:3], before[:3]) and np.array_equal(base[3 + n:], before[3 + n:]), "quicksort wrote outside its view")


def quiet(fn):
    def run(ctx):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(ctx)
    return run


def vec(ctx):
    """mmcore.geom.vec, on single vectors and, where it takes them, on batches"""
    rng = ctx.rng
    n, m = int(rng.integers(1, 6)), int(rng.choice([2, 3, 3]))
    a, b, c = (np.ascontiguousarray(vecs(rng, n, m)) for _ in range(3))
    if rng.random() < 0.2:
        b = a * rng.choice([-2.0, 0.5, 1.0], (n, 1))
    keep = [x.copy() for x in (a, b, c)]
    na, nb = np.linalg.norm(a, axis=1), np.linalg.norm(b, axis=1)
    ua, ub = a / na[:, None], b / nb[:, None]
    ctx.state("vec", n, m)
    dots = np.sum(a * b, axis=1)
    s = na * nb
    ang = 2 * np.arctan2(np.linalg.norm(ua - ub, axis=1), np.linalg.norm(ua + ub, axis=1))
    ctx.close("vec:norm", G.norm(a), na, 4 * EPS * na.max(), "norm of rows")
    ctx.close("vec:unit", G.unit(a), ua, 4 * EPS, "unit of rows")
    ctx.close("vec:dot", G.dot(a, b), dots, 8 * EPS * s.max(), "dot of rows")
    ctx.close("vec:dist", G.dist(a, b), np.linalg.norm(a - b, axis=1), 8 * EPS * (na + nb).max(), "dist of rows")
    # arccos is ill conditioned at its ends
    ctx.close("vec:angle", G.angle(ua, ub), ang, 1e-7, "angle of rows")
    for i in range(n):
        x, y, z = a[i], b[i], c[i]
        ctx.close("vec:norm", float(G.norm(x)), na[i], 4 * EPS * na[i], "norm")
        ctx.close("vec:norm_sq", float(G.norm_sq(x)), na[i] ** 2, 8 * EPS * na[i] ** 2, "norm_sq")
        ctx.close("vec:unit", G.unit(x), ua[i], 4 * EPS, "unit")
        ctx.close("vec:dot", float(G.dot(x, y)), dots[i], 8 * EPS * s[i], "dot")
        ctx.close("vec:dist", float(G.dist(x, y)), np.linalg.norm(x - y), 8 * EPS * (na[i] + nb[i]), "dist")
        ctx.close("vec:angle", float(G.angle(ua[i], ub[i])), ang[i], 1e-7, "angle")
        ctx.close("vec:projection_length", float(G.projection_length(x, y)), dots[i] / nb[i], 16 * EPS * na[i], "projection_length")
        p, q = x - y, z - y
        if np.any(p) and np.any(q):
            up, uq = p / np.linalg.norm(p), q / np.linalg.norm(q)
            ctx.close("vec:dot3pt", float(G.dot3pt(x, y, z)), up @ uq, 16 * EPS, "dot3pt")
            ctx.close("vec:angle3pt", float(G.angle3pt(x, y, z)), 2 * np.arctan2(np.linalg.norm(up - uq), np.linalg.norm(up + uq)), 1e-7, "angle3pt")
        g = np.asarray(G.gram_schmidt(x, y))
        ctx.close("vec:gram_schmidt", g, ub[i] - ua[i] * (ua[i] @ ub[i]), 16 * EPS, "gram_schmidt")
        if m == 2:
            for f in (G.perp2d, lambda v: G.make_perpendicular(v, y)):
                ctx.check("vec:perp2d", np.array_equal(f(x), [-x[1], x[0]]), "the perpendicular of %s is %s" % (x, f(x)))
        else:
            ctx.close("vec:make_perpendicular", G.make_perpendicular(x, y), g, 0, "make_perpendicular")
            ctx.close("vec:cross", np.asarray(G.cross(x, y)), np.cross(x, y), 8 * EPS * s[i], "cross")
            vol = abs(np.linalg.det([ua[i], ub[i], z / np.linalg.norm(z)]))
            if vol > 1e-3:
                M = np.array(G.orthonormalize(x, y, z))
                ctx.close("vec:orthonormalize", M @ M.T, np.eye(3), 1e-10, "the frame of %s, %s, %s is not orthonormal" % (x, y, z))
                w = M @ np.array([x, y, z]).T
                ctx.check("vec:orthonormalize spans", np.all(np.abs(np.tril(w, -1)) < 1e-9 * np.abs(w).max(axis=0)) and np.all(np.diag(w) > 0), "the frame of %s, %s, %s does not follow them" % (x, y, z))
            if rng.random() < 0.3:
                ctx.raises("vec:orthonormalize parallel", ValueError, G.orthonormalize, ua[i], ua[i] * 2.0, z)
                ctx.raises("vec:orthonormalize coplanar", ValueError, G.orthonormalize, np.array([1.0, 0, 0]), np.array([1.0, 2, 0]), np.array([3.0, -1, 0]))
        lo, hi = np.minimum(x, y)[:2], np.maximum(x, y)[:2]
        ctx.check("vec:clamp", np.array_equal(G.clamp(z, lo, hi), np.clip(z[:2], lo, hi)), "clamp(%s, %s, %s)" % (z, lo, hi))
        sv = support_vector(a, y)
        ctx.check("vec:support", any(np.array_equal(sv, r) for r in a) and float(sv @ y) >= np.max(a @ y) - 8 * EPS * nb[i] * na.max(), "%s is not the vertex of %s furthest along %s" % (sv, a.tolist(), y))
    if m == 3:
        A, B = rng.normal(size=3), rng.normal(size=3)
        d = rng.normal(size=3)
        t = curve_support_vector(lambda t: A * np.cos(t) + B * np.sin(t), bounds=np.array([0.0, 1.0]), options={"xatol": 1e-9})(d)
        f = lambda t: (A @ d) * np.cos(t) + (B @ d) * np.sin(t)
        k = np.linspace(0, 1, 2001)
        peak = np.arctan2(B @ d, A @ d)
        unimodal = np.count_nonzero(np.diff(np.sign(np.diff(f(k))))) == 0 or 0 <= peak <= 1
        if unimodal:
            ctx.check("vec:curve support", f(t) >= f(k).max() - 1e-6, "the support parameter %s along %s gives %s < %s" % (t, d, f(t), f(k).max()))
    th = float(rng.uniform(-7, 7))
    ctx.close("vec:rotate", G.rotate_matrix(th) @ [1.0, 0, 0], [np.cos(th), np.sin(th), 0], 4 * EPS, "rotate_matrix")
    for x, x0 in zip((a, b, c), keep):
        ctx.check("vec:input", np.array_equal(x, x0), "an argument was changed")


SCENARIOS = {
    "vectors": (quiet(vectors), 1500, 40000),
    "vec": (quiet(vec), 800, 20000),
    "linear": (quiet(linear), 1500, 30000),
    "planes": (quiet(planes), 1500, 40000),
    "curvature": (quiet(curvature), 1500, 40000),
    "sorting": (quiet(sorting), 800, 10000),
}
