"""C29: separability tests never separate sets that meet, and do separate sets that are clearly apart."""
import numpy as np
from scipy.optimize import nnls

import gen
from mmcore.numeric.algorithms.cygjk import gjk
from mmcore.numeric.intersection.separability.spatial import spatial_separability
from mmcore.numeric.intersection.separability.spherical import (
    ch2d_sep, find_smallest_wedge, separating_circles_test, spherical_bounding_box_test, spherical_separability)
from mmcore.numeric.vectors import multi_support_vector, support_vector

RULE = "one case = two random point sets (general, flat, on a line, on a lattice, large, small, nested, barely meeting); the distance of their hulls is computed independently by non-negative least squares, or a common point is built in"
ASSUMPTIONS = [
    "hulls closer than 1e-4 of their size but not meeting may be called either way, and so may hulls that only touch (a shift by 1e-6 of their size parts them), except for boxes with corners on a lattice, where no rounding is involved",
    "spherical tests are conservative: 'not separable' is required only when the cones do meet, 'separable' only when a plane through the point has a margin of 1e-4",
]


def hull_distance(A, B):
    M = (A[:, None, :] - B[None, :, :]).reshape(-1, 3)
    s = max(np.abs(M).max(), 1e-300)
    M = M / s
    W = 1e4
    lam, _ = nnls(np.vstack([M.T, W * np.ones(len(M))]), np.r_[0, 0, 0, W], maxiter=20000)
    lam /= lam.sum()
    return float(np.linalg.norm(M.T @ lam) * s)


def cloud(rng, n, style):
    A = rng.normal(size=(n, 3))
    if style == 1:
        A[:, int(rng.integers(3))] = 0
    elif style == 2:
        A = np.round(A)
    elif style == 3:
        A = np.linspace(0, 1, n)[:, None] * rng.normal(size=3)
    elif style == 4:
        A = A / np.linalg.norm(A, axis=1)[:, None]
    elif style == 5:
        A = A * np.array([5.0, 1.0, 0.02])
    return A


def hulls(ctx):
    rng = ctx.rng
    na, nb = (int(x) for x in rng.integers(1, 14, 2))
    sa, sb = (int(x) for x in rng.integers(0, 6, 2))
    sc = 10 ** rng.uniform(-2, 2)
    A, B = cloud(rng, na, sa), cloud(rng, nb, sb)
    u = rng.normal(size=3)
    u /= np.linalg.norm(u)
    kind = int(rng.integers(3))
    if kind == 0:
        B = B + u * rng.uniform(0, 4)
    elif kind == 1:                                    # a common point is built in
        la, lb = rng.dirichlet(np.ones(na)), rng.dirichlet(np.ones(nb))
        B = B + la @ A - lb @ B
    else:                                              # moved apart along u by a known gap
        gap = 10 ** rng.uniform(-3, 0)
        B = B + u * ((A @ u).max() - (B @ u).min() + gap)
    A, B = np.ascontiguousarray(A * sc), np.ascontiguousarray(B * sc)
    d = 0.0 if kind == 1 else hull_distance(A, B)
    if kind == 2 and d < 0.99 * gap * sc:
        return ctx.skip("the least squares solver stopped early")
    size = sc * 2
    g, sep, sep2 = bool(gjk(A, B)), bool(spatial_separability(A, B)), bool(spatial_separability(B, A))
    ctx.check("gjk:symmetric", bool(gjk(B, A)) == g or d < 1e-4 * size, "gjk(A, B) = %r, gjk(B, A) = %r at distance %r" % (g, not g, d))
    h = 1e-6 * size
    if d <= 1e-10 * size and all(hull_distance(A + q, B) < 1e-10 * size for q in np.vstack([np.eye(3), -np.eye(3)]) * h):
        ctx.check("gjk:meeting", g, "gjk does not see that the hulls of %r and %r meet" % (A, B))
        ctx.check("spatial:meeting", not sep and not sep2, "spatial_separability separates hulls that meet: %r and %r" % (A, B))
        ctx.observe("meeting", 1)
    elif d > 1e-4 * size:
        ctx.check("gjk:apart", not g, "gjk reports a contact of hulls %r apart" % d)
        ctx.check("spatial:apart", sep and sep2, "spatial_separability does not separate hulls %r apart" % d)
        ctx.observe("apart", 1)
    ctx.state(sa, sb, kind, d == 0)


def boxes(ctx):
    """boxes of lattice points: touching faces, edges and corners, nested, equal"""
    rng = ctx.rng
    f = lambda: np.sort(rng.integers(-3, 4, (2, 3)), axis=0).astype(float)
    a, b = f(), f()
    corners = lambda q: np.array([[q[i, 0], q[j, 1], q[k, 2]] for i in (0, 1) for j in (0, 1) for k in (0, 1)])
    R, T = (gen.rotation(rng), rng.uniform(-9, 9, 3)) if rng.integers(2) else (np.eye(3), np.zeros(3))
    A, B = np.ascontiguousarray(corners(a) @ R.T + T), np.ascontiguousarray(corners(b) @ R.T + T)
    gap = np.maximum(0, np.maximum(a[0] - b[1], b[0] - a[1]))
    deep = np.minimum(a[1] - b[0], b[1] - a[0]).min() > 0
    g, sep = bool(gjk(A, B)), bool(spatial_separability(A, B))
    if gap.any():
        ctx.check("box:apart", not g and sep, "boxes %r and %r, %r apart: gjk %r, separable %r" % (a, b, gap, g, sep))
    elif deep or (R == np.eye(3)).all():
        ctx.check("box:meeting", g and not sep, "boxes %r and %r meet: gjk %r, separable %r" % (a, b, g, sep))
    ctx.state(tuple(gap), deep)


def spherical(ctx):
    """cones of points seen from a centre"""
    rng = ctx.rng
    n, m = (int(x) for x in rng.integers(1, 12, 2))
    X = rng.uniform(-3, 3, 3)
    kind = int(rng.integers(3))
    spread = rng.uniform(0.1, 1.5)
    ax = rng.normal(size=(2, 3))
    ax /= np.linalg.norm(ax, axis=1)[:, None]
    A = ax[0] + spread * rng.normal(size=(n, 3))
    B = ax[1] + spread * rng.normal(size=(m, 3))
    if rng.integers(3) == 0:
        A[:, 2] = 0
    if kind == 0 and n > 1 and m > 1:                  # the cones share a direction
        d = rng.dirichlet(np.ones(n)) @ A
        lb = rng.dirichlet(np.ones(m))
        B = B + (d - lb @ B) * rng.uniform(0.2, 3)
        lb_d = lb @ B
        # B's combination lb must be a positive multiple of d
        B = B + (d * rng.uniform(0.3, 2) - lb_d)
        if np.linalg.norm(d) < 0.05:
            return ctx.skip("the common direction is too short")
    A *= 10 ** rng.uniform(-1, 1, (n, 1)) if kind == 2 else 1.0
    if np.linalg.norm(A, axis=1).min() < 1e-3 or np.linalg.norm(B, axis=1).min() < 1e-3:
        return ctx.skip("a point next to the centre")
    PA, PB = np.ascontiguousarray(A + X), np.ascontiguousarray(B + X)
    unit = lambda Q: Q / np.linalg.norm(Q, axis=1)[:, None]
    S = np.vstack([unit(A), -unit(B)])
    margin = hull_distance(np.ascontiguousarray(S), np.zeros((1, 3)))
    withX = rng.integers(2) == 1
    QA, QB = (np.vstack([PA, X[None]]), np.vstack([X[None], PB])) if withX else (PA, PB)
    got = bool(spherical_separability(np.ascontiguousarray(QA), np.ascontiguousarray(QB), X))
    box, circ = bool(spherical_bounding_box_test(PA, PB, X)), bool(separating_circles_test(PA, PB, X))
    if kind == 0 and n > 1 and m > 1:
        ctx.check("spherical:meeting", not got, "separable, but the cones share a direction: %r and %r from %r" % (PA, PB, X))
        ctx.check("spherical:box", not box, "the box test separates cones that share a direction")
        ctx.check("spherical:circles", not circ, "the circles test separates cones that share a direction")
    if margin > 1e-4:
        ctx.check("spherical:apart", got, "not separable, but a plane through the centre separates by %r" % margin)
        ctx.check("spherical:circles apart", circ, "no separating circle, but a plane through the centre separates by %r" % margin)
        ctx.observe("apart", 1)
    elif margin < 1e-9:
        ctx.check("spherical:circles", not circ, "a separating circle of sets whose cones fill a half space")
    if withX:
        ctx.check("spherical:only centre", spherical_separability(X[None], QB, X) and spherical_separability(QA, X[None], X), "a set of only the centre is not separable")
    ctx.state(kind, n, m, got, margin > 1e-4)


def wedge(ctx):
    """smallest angular range, support points and 2D hull separation"""
    rng = ctx.rng
    n = int(rng.integers(1, 9))
    th = rng.uniform(-np.pi, np.pi, n) if rng.integers(2) else rng.uniform(-np.pi, np.pi) + rng.uniform(-0.8, 0.8, n)
    s, e = find_smallest_wedge(np.column_stack([np.cos(th), np.sin(th)]) * rng.uniform(0.2, 3, (n, 1)))
    span = e - s
    off = (th - s + 1e-9) % (2 * np.pi)
    ctx.check("wedge:holds", span >= -1e-12 and np.all(off <= span + 2e-9), "the wedge %r..%r does not hold the angles %r" % (s, e, th))
    q = np.sort(th % (2 * np.pi))
    ctx.close("wedge:smallest", span, 2 * np.pi - max(np.append(np.diff(q), q[0] + 2 * np.pi - q[-1])), 1e-9, "angle of the wedge")
    k = int(rng.integers(1, 12))
    V = rng.normal(size=(k, 3))
    D = rng.normal(size=(5, 3))
    got = np.asarray(multi_support_vector(V, D))
    for d, g in zip(D, got):
        one = np.asarray(support_vector(V, d))
        ctx.close("support", [float(one @ d), float(g @ d)], [(V @ d).max()] * 2, 1e-12, "support point")
        ctx.check("support:member", any(np.array_equal(one, v) for v in V) and any(np.array_equal(g, v) for v in V), "the support point is not one of the points")
    # convex polygons: separated iff a side of one is a separating line
    poly = lambda c: np.array([[np.cos(a), np.sin(a)] for a in np.sort(rng.uniform(0, 2 * np.pi, int(rng.integers(3, 8))))]) * rng.uniform(0.3, 2) + c
    P, Q = poly(rng.uniform(-2, 2, 2)), poly(rng.uniform(-2, 2, 2))
    lift = lambda Z: np.column_stack([Z, np.zeros(len(Z))])
    d = hull_distance(lift(P), lift(Q))
    if min(np.linalg.norm(np.roll(Z, 1, 0) - Z, axis=1).min() for Z in (P, Q)) > 1e-3:
        if d > 1e-6:
            ctx.check("planar:apart", ch2d_sep(P, Q), "polygons %r apart are not separated" % d)
        else:
            w = rng.dirichlet(np.ones(len(P))) @ P - rng.dirichlet(np.ones(len(Q))) @ Q
            ctx.check("planar:meeting", not ch2d_sep(P, Q + w), "polygons with a common point are separated")
    ctx.state(n, k, d > 1e-6)


def nets(ctx):
    """dense smooth nets with many points, moved apart by a known gap or onto a common point"""
    rng = ctx.rng
    kinds = [int(x) for x in rng.integers(0, 5, 2)]

    def net(kind):
        n = int(10 ** rng.uniform(1.3, 2.8))
        if kind < 2:
            A = rng.normal(size=(n, 3))
            A /= np.linalg.norm(A, axis=1)[:, None]
            A = A * (np.array([5.0, 1.0, 0.05]) if kind else 1.0)
        elif kind == 2:
            m = max(3, int(n ** 0.5))
            u, v = (q.ravel() for q in np.meshgrid(np.linspace(0, 1, m), np.linspace(0, 1, m)))
            A = np.c_[u, v, 0.1 * np.sin(3 * u) * np.cos(4 * v)]
        elif kind == 3:
            t = np.linspace(0, 6, n)
            A = np.c_[np.cos(t), np.sin(t), 0.1 * t]
        else:
            A = cloud(rng, n, int(rng.integers(0, 6)))
        return A @ gen.rotation(rng).T

    A, B = net(kinds[0]), net(kinds[1])
    u = rng.normal(size=3)
    u /= np.linalg.norm(u)
    gap = 10 ** rng.uniform(-3, 0)
    X = rng.uniform(-5, 5, 3)
    C = np.ascontiguousarray(B + u * ((A @ u).max() - (B @ u).min() + gap) + X)
    D = np.ascontiguousarray(B + rng.dirichlet(np.ones(len(A))) @ A - rng.dirichlet(np.ones(len(B))) @ B + X)
    A = np.ascontiguousarray(A + X)
    ctx.check("nets:apart", not gjk(A, C) and not gjk(C, A), "gjk reports a contact of nets of %d and %d points %r apart" % (len(A), len(B), gap))
    ctx.check("nets:apart", bool(spatial_separability(A, C)), "nets %r apart are not separable" % gap)
    # the common point is a mean of all the points, far inside both unless a net is flat
    if not {3, 4} & set(kinds) and 2 not in kinds:
        ctx.check("nets:meeting", bool(gjk(A, D)) and bool(gjk(D, A)), "gjk does not see that nets of %d and %d points meet" % (len(A), len(B)))
        ctx.check("nets:meeting", not spatial_separability(A, D), "nets that meet are separable")
    ctx.state(tuple(kinds), len(A) // 50, len(B) // 50)


SCENARIOS = {
    "nets": (nets, 600, 10000),
    "hulls": (hulls, 3000, 60000),
    "boxes": (boxes, 1500, 30000),
    "spherical": (spherical, 2500, 50000),
    "wedge": (wedge, 800, 15000),
}
