"""C13: surface x surface intersection curves lie on both surfaces and cover the whole intersection."""
import contextlib
import io
import subprocess
import sys

import numpy as np
from scipy import ndimage

import gen
from checks.c12 import Graph, frame
from mm import surf
from mmcore.geom.nurbs import NURBSSurface
from mmcore.numeric.intersection.ssx import ssx, surface_ppi
from mmcore.numeric.gauss_map import detect_intersections

RULE = "one case = two random height fields over shifted rectangles (or one of them a plane patch), moved together; their difference on a fine grid gives the intersection as a set of contour components, independently of the library"
ASSUMPTIONS = [
    "curves are interpolated through traced points, so between those they may leave the surfaces by up to 1.5% of the size of the surfaces (that is 0.15), at the traced points by the tolerance",
    "four of five traced points are within 0.03 of the surfaces at their parameters (0.3% of the size), the others within a step: parameters may lag by one step where the inversion starts at the solution (a known finding of C10 that the recorded results of the tests depend on)",
    "components shorter than a tenth of the domain, or where the surfaces meet at an angle with a slope difference below 0.2, need not be found",
]
CPU_CASE = 120
GRID = 161


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def overlap(a, b):
    q = np.array([max(a.box[0], b.box[0]), min(a.box[1], b.box[1]), max(a.box[2], b.box[2]), min(a.box[3], b.box[3])])
    return q if q[1] - q[0] > 3 and q[3] - q[2] > 3 else None


def heights(g, z):
    """the same surface with other heights of its control points"""
    H = np.array(g.flat.control_points_w)
    H[..., 2] = z(H[..., 0], H[..., 1])
    d = g.flat.degree
    g.flat = surf(H, g.Uu, g.Uv, d[0], d[1])
    K = H.copy()
    K[..., :3] = H[..., :3] @ g.R.T + g.T
    g.s = surf(K, g.Uu, g.Uv, d[0], d[1])


def contour(a, b, q, n=GRID):
    """difference of the two height fields on a grid over q, labelled cells of the contour, slopes"""
    G = np.linspace(0, 1, n)
    XY = np.stack(np.meshgrid(q[0] + G * (q[1] - q[0]), q[2] + G * (q[3] - q[2]), indexing="ij"), -1)
    f = (a.h(XY.reshape(-1, 2)) - b.h(XY.reshape(-1, 2))).reshape(n, n)
    g = np.hypot(*np.gradient(f, (q[1] - q[0]) / (n - 1), (q[3] - q[2]) / (n - 1)))
    sg = f > 0
    cells = np.zeros((n, n), bool)
    cells[:-1] |= sg[:-1] != sg[1:]
    cells[:, :-1] |= sg[:, :-1] != sg[:, 1:]
    lab, k = ndimage.label(cells, np.ones((3, 3)))
    return f, g, lab, k, XY


def pair(ctx, flat=False):
    """flat: one is a plane patch; None: a dome through a nearly level surface"""
    rng = ctx.rng
    R, T = frame(rng)
    A = Graph(rng, (-5, 5, -5, 5), 2.0, 2, 0.5, R, T)
    box = np.array([-5, 5, -5, 5]) + rng.uniform(-1.5, 1.5, 4)
    if flat is None:
        B = Graph(rng, box, 2.0, 2, 0.5, R, T)
        (cx, cy), k, up = rng.uniform(-1.5, 1.5, 2), rng.uniform(0.08, 0.3), rng.choice([-1, 1])
        rad, ratio = rng.uniform(1.0, 3.5), rng.uniform(0.6, 1.5)
        noise = 0.1 * rng.integers(2)
        heights(A, lambda x, y: -up * k * ((x - cx) ** 2 + ratio * (y - cy) ** 2) + noise * rng.uniform(-1, 1, x.shape))
        sx, sy = rng.uniform(-0.1, 0.1, 2)
        th = rng.uniform(0, 2 * np.pi)
        level = A.h([[cx + rad * np.cos(th), cy + rad * np.sin(th)]])[0]
        heights(B, lambda x, y: level + sx * (x - cx) + sy * (y - cy) + 0.2 * noise * rng.uniform(-1, 1, x.shape))
    elif flat:
        B = Graph(rng, box, 0.0, 1, 0.5 * int(rng.integers(2)), R, T)
    else:
        B = Graph(rng, box, 2.0, 2, 0.5, R, T)
    if rng.integers(2):
        A, B = B, A
    for g in (A, B):
        # either orientation: the directions of the normals must not matter
        if rng.integers(2):
            H = np.array(g.s.control_points_w).transpose(1, 0, 2)
            g.s = surf(H, np.array(g.s.knots_v), np.array(g.s.knots_u), g.s.degree[1], g.s.degree[0])
    q = overlap(A, B)
    return A, B, q


def covered(ctx, tag, A, B, q, pts):
    """every long, transversal component of the contour has curve points next to it"""
    f, g, lab, k, XY = contour(A, B, q)
    n = 0
    for i in range(1, k + 1):
        m = lab == i
        ii = np.argwhere(m)
        if len(ii) < GRID // 10 or g[m].min() < 0.2:
            continue
        # points that run along the border of a patch are crossed by no boundary curve
        n += 1
        X = XY[m]
        d = np.sqrt(((X[:, None, :] - pts[None, :, :2]) ** 2).sum(-1)).min(1) if len(pts) else np.full(len(X), np.inf)
        ctx.check(tag + ":complete", d.max() < 0.25, "a part of the intersection around %s is not covered: %d of %d cells, nearest curve point %.3g away" % (X[d.argmax()], (d > 0.25).sum(), len(X), d.max()))
    ctx.observe(tag + ":components", n)
    return n


def judge(ctx, tag, A, B, q, r, closed_ok=True):
    allp = []
    for c, on1, on2 in r:
        t0, t1 = (float(x) for x in c.interval())
        P = A.local(np.asarray(c.evaluate_multi(np.linspace(t0, t1, 200))))
        for g, name in ((A, "first"), (B, "second")):
            out = np.maximum(0, np.maximum(np.r_[g.box[0], g.box[2]] - P[:, :2], P[:, :2] - np.r_[g.box[1], g.box[3]])).max()
            e = np.abs(g.h(P[:, :2]) - P[:, 2]).max()
            ctx.check(tag + ":sound", e < 0.15 and out < 0.1, "the curve leaves the %s surface by %.3g (its rectangle by %.3g)" % (name, e, out))
        for g, on in ((A, on1), (B, on2)):
            lo, hi = (float(x) for x in on.interval())
            S = g.local(np.array([on.evaluate(t) for t in np.linspace(lo, hi, 25)]))
            # Interpolation may carry the parameters a little over the edge of the domain, where there is no surface
            S = S[np.all((S[:, :2] >= np.r_[g.box[0], g.box[2]]) & (S[:, :2] <= np.r_[g.box[1], g.box[3]]), axis=1)]
            if len(S) == 0:
                continue
            ctx.check(tag + ":on surface", np.abs(g.h(S[:, :2]) - S[:, 2]).max() < 1e-6, "the curve on the surface is not on the surface")
            d = np.sqrt(((S[:, None] - P[None]) ** 2).sum(-1)).min(1)
            # where the speed of the surface jumps, the interpolation of the parameters swings between two traced points
            ctx.check(tag + ":consistent", np.quantile(d, 0.85) < 0.5 and (np.median(d) < 0.1 or len(c.control_points) < 8), "the curve on the surface is %.3g away from the spatial curve" % d.max())
        ends = P[[0, -1]]
        loop = np.linalg.norm(ends[0] - ends[1]) < 0.35
        if not loop:
            for e in ends:
                d = min(np.abs(np.r_[e[0] - g.box[:2], e[1] - g.box[2:]]).min() for g in (A, B))
                ctx.check(tag + ":ends", d < 0.1, "an open curve ends at %s, %.3g inside both surfaces" % (e, d))
        allp.append(P)
    return np.concatenate(allp) if allp else np.zeros((0, 3))


def graphs(ctx, flat=False):
    tag = "domes" if flat is None else "plane" if flat else "graphs"
    A, B, q = pair(ctx, flat)
    if q is None:
        return ctx.skip("the rectangles hardly overlap")
    f, g, lab, k, XY = contour(A, B, q)
    if g[lab > 0].size and g[lab > 0].min() < 0.05:
        return ctx.skip("the surfaces nearly touch")
    if any((np.abs(f[s]).max() < 0.05) for s in (np.s_[0], np.s_[-1], np.s_[:, 0], np.s_[:, -1])):
        return ctx.skip("a border lies in the other surface")
    r = quiet(ssx, A.s, B.s, 0.001)
    pts = judge(ctx, tag, A, B, q, r)
    n = covered(ctx, tag, A, B, q, pts)
    if n == 0 and not (lab > 0).any() and np.abs(f).min() > 0.01:
        ctx.check(tag + ":empty", len(r) == 0, "%d curves of surfaces that do not meet" % len(r))
    ctx.state(len(r), n, k)


def planes(ctx):
    graphs(ctx, True)


def domes(ctx):
    graphs(ctx, None)


def traced(ctx):
    """the traced points themselves, their parameters"""
    A, B, q = pair(ctx)
    if q is None:
        return ctx.skip("the rectangles hardly overlap")
    f, g, lab, k, XY = contour(A, B, q)
    if g[lab > 0].size and g[lab > 0].min() < 0.05:
        return ctx.skip("the surfaces nearly touch")
    res = quiet(surface_ppi, A.s, B.s, 0.001)
    if res is None:
        if k and max((lab == i).sum() for i in range(1, k + 1)) > GRID // 10:
            ctx.check("traced:complete", False, "no intersection of surfaces that cross")
        return ctx.state("none")
    curves, uvs, steps, terms = res
    ctx.check("traced:lengths", len(curves) == len(uvs) == len(terms), "%d curves, %d parameters, %d terminators" % (len(curves), len(uvs), len(terms)))
    for pts, (u1, u2) in zip(curves, uvs):
        pts = np.asarray(pts, float)
        ctx.check("traced:lengths", len(pts) == len(u1) == len(u2), "%d points, %d and %d parameters" % (len(pts), len(u1), len(u2)))
        for s, u in ((A.s, u1), (B.s, u2)):
            (a, b), (c, d) = s.interval()
            h = 1e-9 * max(b - a, d - c)
            ctx.check("traced:domain", np.all((u[:, 0] >= a - h) & (u[:, 0] <= b + h) & (u[:, 1] >= c - h) & (u[:, 1] <= d + h)), "parameters outside the domain")
            e = np.linalg.norm(np.asarray(s.evaluate_multi(np.ascontiguousarray(u))) - pts, axis=1)
            ctx.check("traced:points", e.max() < 0.5 and np.mean(e < 0.03) > 0.8, "traced points are up to %.3g away from the surface at their parameters, %d of %d more than 0.03" % (e.max(), (e > 0.03).sum(), len(e)))
        L = np.linalg.norm(np.diff(pts, axis=0), axis=1)
        ctx.check("traced:steps", L.max() < 1.0, "a step of %.3g" % L.max())
    ctx.state(len(curves), k)


def detect(ctx):
    """pairs of patches handed to the tracer hold every point of the intersection"""
    A, B, q = pair(ctx, [False, None, False, True][ctx.index % 4])
    if q is None:
        return ctx.skip("the rectangles hardly overlap")
    f, g, lab, k, XY = contour(A, B, q, 61)
    pairs = quiet(detect_intersections, A.s, B.s, 0.001)
    def rect(s):
        P = A.local(np.asarray(s.control_points_flat))
        return np.r_[P[:, :2].min(0), P[:, :2].max(0)]
    rs = np.array([np.r_[rect(a), rect(b)] for a, b in pairs]).reshape(-1, 8)
    edge = np.where(f[:-1] * f[1:] < 0)
    bad = 0
    for i, j in zip(*edge):
        w = f[i, j] / (f[i, j] - f[i + 1, j])
        p = XY[i, j] + w * (XY[i + 1, j] - XY[i, j])
        e = 0.02
        ok = np.any(np.all((rs[:, :2] <= p + e) & (rs[:, 2:4] >= p - e) & (rs[:, 4:6] <= p + e) & (rs[:, 6:8] >= p - e), axis=1)) if len(rs) else False
        bad += not ok
        if not ok:
            where = p
    ctx.check("detect:complete", not bad, "%d of %d points of the intersection are in no pair of patches, such as %s" % (bad, len(edge[0]), where if bad else None))
    for a, b in pairs[:40]:
        for g_, s in ((A, a), (B, b)):
            (u0, u1), (v0, v1) = s.interval()
            uv = np.array([[u0, v0], [u1, v0], [0.3 * u0 + 0.7 * u1, 0.6 * v0 + 0.4 * v1]])
            P = g_.local(np.asarray(s.evaluate_multi(uv)))
            ctx.check("detect:patches", np.abs(g_.h(P[:, :2]) - P[:, 2]).max() < 1e-6, "a patch is not part of its surface")
    ctx.observe("detect:points", len(edge[0]))
    ctx.state(len(pairs) // 4, k)


def apart(ctx):
    rng = ctx.rng
    A, B, q = pair(ctx)
    lift = np.asarray(B.flat.control_points_flat)[:, 2].max() - np.asarray(A.flat.control_points_flat)[:, 2].min() + 10 ** rng.uniform(-2, 1)
    P = np.array(A.s.control_points) + A.R @ np.array([0, 0, lift])
    H = np.concatenate([P, np.ones(P.shape[:2] + (1,))], -1)
    s = surf(H, np.array(A.s.knots_u), np.array(A.s.knots_v), int(A.s.degree[0]), int(A.s.degree[1]))
    ctx.check("apart:empty", len(quiet(ssx, s, B.s, 0.001)) == 0, "an intersection of surfaces that are apart")
    ctx.check("apart:pairs", len(quiet(find_pairs, s, B.s)) == 0 or lift < 0, "patches of surfaces that are apart")
    ctx.state(round(np.log10(lift)))


def straight(ctx):
    """surfaces that meet in straight lines: extruded profiles and planes, the roots known in closed form"""
    rng = ctx.rng
    k = int(rng.integers(3))
    grid = lambda lo, hi: float(rng.integers(lo * 8, hi * 8)) / 8
    y0, y1 = -grid(2, 5), grid(2, 5)
    if k == 0:                                             # a plane patch across x = c
        roots = [grid(-3, 3)]
        hgt = grid(1, 4)
        tilt = float(rng.choice([0, 0, 0.5, -1]))
        A = np.array([[[roots[0] - tilt * hgt, y, -hgt] for y in (y0, y1)], [[roots[0] + tilt * hgt, y, hgt] for y in (y0, y1)]])
        deg = (1, 1)
    else:                                                  # z = a (x - m)^2 - d, exactly, as a Bezier profile
        m, w, a = grid(-1, 1), grid(2, 4), float(rng.choice([-1, 1])) * float(rng.choice([0.25, 0.5, 1.0]))
        h = w * rng.uniform(0.1, 0.8)
        d = a * h * h
        roots = [m - h, m + h]
        A = np.array([[[x, y, z] for y in (y0, y1)] for x, z in ((m - w, a * w * w - d), (m, -a * w * w - d), (m + w, a * w * w - d))])
        deg = (2, 1)
    z0, z1 = -grid(2, 5), grid(2, 5)
    xs = (min(roots) - grid(2, 4), max(roots) + grid(2, 4))
    B = np.array([[[x, y, 0.0] for y in (z0, z1)] for x in xs])
    # a helper of both: turned upright or left as it is, so that exact zeros occur
    R = np.eye(3)
    if rng.integers(2):
        R = R[list([(0, 1, 2), (1, 2, 0), (2, 0, 1), (1, 0, 2)][int(rng.integers(4))])]
    exact = rng.integers(3) > 0
    if not exact:
        R = np.linalg.qr(rng.normal(size=(3, 3)))[0]
    T = rng.integers(-4, 5, 3).astype(float)
    mk = lambda P, dg: NURBSSurface(np.ascontiguousarray(P @ R.T + T), dg)
    sa, sb = mk(A, deg), mk(B, (1, 1))
    first = bool(rng.integers(2))
    r = quiet(ssx, *((sa, sb) if first else (sb, sa)), 0.001)
    ctx.check("straight:count", len(r) == len(roots), "%d curves, the surfaces meet in %d lines" % (len(r), len(roots)))
    lo, hi = max(y0, z0), min(y1, z1)
    xr = []
    for c, on1, on2 in r:
        P = (np.asarray(c.evaluate_multi(np.linspace(*c.interval(), 100))) - T) @ R
        x = min(roots, key=lambda v: abs(v - P[:, 0]).max())
        xr.append(x)
        ctx.check("straight:on line", np.abs(P - [x, 0, 0])[:, [0, 2]].max() < 0.02, "a curve leaves its line by %.3g" % np.abs(P - [x, 0, 0])[:, [0, 2]].max())
        ctx.check("straight:whole", abs(P[:, 1].min() - lo) < 0.02 and abs(P[:, 1].max() - hi) < 0.02, "the curve runs over %.4g..%.4g of %g..%g" % (P[:, 1].min(), P[:, 1].max(), lo, hi))
        if len(c.control_points) > 5:
            for on in (on1, on2):
                Q = (np.array([on.evaluate(t) for t in np.linspace(*on.interval(), 25)]) - T) @ R
                Q = Q[(Q[:, 1] > lo - 1e-9) & (Q[:, 1] < hi + 1e-9)]
                e = np.abs(Q - [x, 0, 0])[:, [0, 2]].max()
                ctx.check("straight:companion", e < 0.1, "the curve on a surface is %.3g away from the line" % e)
    ctx.check("straight:each", sorted(xr) == sorted(roots), "lines found at %s, they are at %s" % (sorted(xr), sorted(roots)))
    ctx.state(k, exact, first, len(roots))


SPLIT = """
import numpy as np, io, contextlib
from mmcore.geom.nurbs import NURBSSurface
from mmcore.numeric.intersection.ssx import ssx
d = 0.0625
a = NURBSSurface(np.array([[[x, y, z] for y in (-.5, 0, .5)] for x, z in ((-.5, .25 - d), (0, -.25 - d), (.5, .25 - d))], float), (2, 2))
b = NURBSSurface(np.array([[[-.6, -.6, 0.], [-.6, .6, 0]], [[.7, -.6, 0], [.7, .6, 0]]]), (1, 1))
with contextlib.redirect_stdout(io.StringIO()):
    r = ssx(a, b, 1e-3)
print("lines", sorted(round(float(c[0].evaluate(c[0].interval()[0])[0]), 2) for c in r))
"""


def on_split(ctx):
    """in a child process: lines of intersection at the parameters where the subdivision splits a surface"""
    try:
        p = subprocess.run([sys.executable, "-c", SPLIT], capture_output=True, text=True, timeout=30)
    except subprocess.TimeoutExpired:
        ctx.check("split:returns", False, "the parabolic sheet z = x^2 - 1/16 and the plane z = 0 are not done after 30 s", key="ssx-line-on-split")
        return ctx.state("late")
    ctx.check("split:lines", p.stdout.strip() == "lines [-0.25, 0.25]", (p.stdout + p.stderr)[-300:])
    ctx.state("in time")


def find_pairs(a, b):
    return detect_intersections(a, b, 0.001)


def steps(ctx):
    """the pieces of a marching step: parameters of a point of the tangent plane, direction along both surfaces"""
    from mmcore.numeric.intersection import pp
    from mmcore.numeric.intersection.ssx import _ssi, sectioal_tangent as st, surface_surface as ss
    rng = ctx.rng
    for _ in range(6):
        du, dv = rng.normal(size=(2, 3)) * 10.0 ** rng.uniform(-2, 2, (2, 1))
        if rng.integers(3) == 0:
            du[int(rng.integers(3))] = 0.0
        if rng.integers(3) == 0:
            dv[int(rng.integers(3))] = 0.0
        m = np.linalg.norm(np.cross(du, dv))
        if m < 0.05 * np.linalg.norm(du) * np.linalg.norm(dv):
            continue
        ab = rng.uniform(-1, 1, 2)
        x = rng.uniform(-5, 5, 3)
        y = x + ab[0] * du + ab[1] * dv
        keep = [v.copy() for v in (du, dv, x, y)]
        r = np.zeros(2)
        refused = _ssi.improve_uv(du, dv, x, y, r)
        if not refused:
            ctx.close("steps:uv", r, ab, 1e-6, "compiled improve_uv of %r, %r" % (du, dv))
        ctx.observe("steps:refused" if refused else "steps:solved")
        ctx.close("steps:uv", st.improve_uv(du, dv, y - x), ab, 1e-6, "improve_uv of %r, %r" % (du, dv))
        ctx.check("inputs", all(np.array_equal(a, b) for a, b in zip(keep, (du, dv, x, y))), "improve_uv changed its arguments")
    ctx.state("steps", du, dv)
    H, Uu, Uv, pu, pv = gen.surface_data(rng, pmax=3, extra=3)
    X, Y = np.meshgrid(np.linspace(-4, 4, H.shape[0]), np.linspace(-4, 4, H.shape[1]), indexing="ij")
    w = H[..., 3]
    S = [surf(np.stack([X * w, Y * w, w * rng.uniform(-1, 1) * (1 + k * (0.1 * X - 0.07 * Y)) + w * 0.05 * rng.uniform(-1, 1, X.shape), w], -1), Uu, Uv, pu, pv) for k in (1.0, -5.0)]
    lo, hi = np.array([Uu[0], Uv[0]]), np.array([Uu[-1], Uv[-1]])
    uv = [lo + (hi - lo) * rng.uniform(0.2, 0.8, 2) for _ in S]
    for s, q in zip(S, uv):
        gu, gv = np.array(s.derivative_u(q)), np.array(s.derivative_v(q))
        p0 = np.array(s.evaluate(q))
        d = rng.normal(size=2) * (hi - lo) * 0.002
        y = p0 + d[0] * gu + d[1] * gv
        D = np.linalg.norm(y - p0)
        k = np.array(pp.improve_uv(s, q.copy(), y))
        ctx.close("steps:pp", k / (hi - lo), d / (hi - lo), 1e-6, "pp.improve_uv")
        b = np.array(ss.improve_uv_robust(s, q.copy(), gu, gv, p0, y.copy(), np.zeros(2)))
        e = np.linalg.norm(np.array(s.evaluate(np.clip(b, lo, hi))) - y)
        lin = np.linalg.norm(np.array(s.evaluate(q + d)) - y)
        ctx.check("steps:robust", e <= 2 * lin + 0.1 * D + 1e-4, "improve_uv_robust from %r: %.2e away after a step of %.2e" % (q.tolist(), e, D))
    n = [np.array(s.normal(q)) for s, q in zip(S, uv)]
    n = [v / np.linalg.norm(v) for v in n]
    t = np.cross(*n)
    if np.linalg.norm(t) > 0.05:
        ctx.close("steps:tangent", st.sectional_tangent_uv(S[0], S[1], uv[0].copy(), uv[1].copy()), t / np.linalg.norm(t), 1e-6, "sectional_tangent_uv")


SCENARIOS = {
    "steps": (steps, 60, 1500),
    "graphs": (graphs, 60, 1500),
    "planes": (planes, 40, 900),
    "domes": (domes, 40, 900),
    "traced": (traced, 30, 600),
    "detect": (detect, 40, 800),
    "straight": (straight, 60, 1500),
    "on_split": (on_split, 1, 1),
    "apart": (apart, 40, 400),
}
