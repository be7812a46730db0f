"""C11: curve x curve, curve x implicit and implicit x implicit intersections are sound and complete; curve booleans."""
import math

import numpy as np

import gen
from checks.c16 import Ellipse, ellipse, winding
from mmcore.geom.circle import Circle2D
from mmcore.geom.curves.bspline import NURBSpline
from mmcore.geom.curves.curve_bool import BooleanOperationType, curve_boolean_operation
from mmcore.geom.implicit.tree import ImplicitTree2D
from mmcore.geom.nurbs import NURBSCurve
from mmcore.geom.primitives import Sphere
from mmcore.numeric.intersection.ccx import ccx, curve_iix, curve_pix, curve_ppx, curve_x_axis, curve_x_ray
from mmcore.numeric.intersection.ccx.ccd import ccd, proximity_points_curve_curve

RULE = "one case = one random pair of curves (or curve and implicit form) whose intersections are known from a dense, refined sampling or in closed form; every reported intersection is checked for being one, every transversal isolated intersection for being reported"
ASSUMPTIONS = [
    "completeness is required of transversal, isolated crossings away from the ends of the search intervals; tangential contacts and overlaps may be missed",
    "curve_pix brackets roots between extremes found by a unimodal search, so it is checked where each step of the curve has at most two extremes",
    "curve_iix finds one intersection in each border cell of the tree it is given",
]
TAU = 2 * math.pi


def smooth(rng, planar=True):
    n = int(rng.integers(4, 8))
    p = int(rng.integers(2, 4))
    P = rng.uniform(-3, 3, (n, 3))
    if planar:
        P[:, 2] = 0
    U = domain(rng, n, p)
    if rng.integers(2):
        return NURBSCurve(P, p, U)
    return NURBSpline(P, degree=p, knots=U)


def domain(rng, n, p):
    """no knots (the default: whole numbers), or the same knots moved and stretched: any domain"""
    if rng.integers(2):
        return None
    return float(rng.uniform(-2, 2)) + np.r_[[0.0] * p, np.arange(n - p + 1.0), [n - p + 0.0] * p] * float(rng.uniform(0.3, 2))


def target(rng):
    """an implicit form and a bound on its gradient"""
    k = int(rng.integers(5))
    if k == 0:
        n = rng.normal(size=3)
        n[2] = 0
        n /= np.linalg.norm(n)
        d = float(rng.uniform(-1.5, 1.5))
        return "plane", lambda x: float(np.dot(n, np.asarray(x)) - d)
    if k == 1:
        return "circle", Circle2D(rng.uniform(-1, 1, 2), float(rng.uniform(0.6, 2.5)))
    if k == 2:
        return "sphere", Sphere(np.array([*rng.uniform(-1, 1, 2), 0.0]), float(rng.uniform(0.6, 2.5)))
    if k == 3:
        return "ellipse", ellipse(rng)[0]
    a = float(rng.uniform(0.5, 2))
    return "curve", lambda x: float(x[1] - a * math.sin(x[0]))


def pix(ctx):
    rng = ctx.rng
    c = smooth(rng)
    what, F = target(rng)
    if what in ("plane", "sphere") and rng.integers(2):
        c = smooth(rng, False)
    f = getattr(F, "implicit", F)
    dims = 2 if what in ("circle", "ellipse") else 3
    if dims == 2:                                     # these forms live in the plane
        g = f
        f = lambda x: g(np.ascontiguousarray(np.asarray(x)[:2]))
        F = f
    t0, t1 = (float(x) for x in c.interval())
    step = float(rng.choice([0.5, 0.25, 1.0]))
    kind = int(rng.integers(3))
    if what == "plane" and kind == 0:
        ax = int(rng.integers(2))
        f = lambda x: float(x[ax])
        run = lambda: curve_x_axis(c, axis=ax, step=step)
    elif what == "plane" and kind == 1:
        ax = int(rng.integers(2))
        o = rng.uniform(-1.5, 1.5, 3)
        f = lambda x: float(o[ax] - x[ax])
        run = lambda: curve_x_ray(c, o.copy() if rng.integers(2) else o.tolist(), axis=ax, step=step)
    elif kind == 2 and hasattr(F, "implicit"):
        step = 0.5
        run = lambda: ccx(c, F) if rng.integers(2) else ccx(F, c)
    else:
        run = lambda: curve_pix(c, F, step=step)
    roots = [float(t) for t in run()]
    for t in roots:
        ctx.check("pix:domain", t0 - 1e-12 <= t <= t1 + 1e-12, "root %r outside [%r, %r]" % (t, t0, t1))
        v = abs(f(np.array(c.evaluate(t))))
        ctx.check("pix:on both", v < 1e-6, "%s: |f| = %.2e at the root %r" % (what, v, t))
    s = np.sort(roots)
    ctx.check("pix:distinct", len(s) < 2 or np.min(np.diff(s)) > 1e-7, "a root is repeated: %r" % (s.tolist(),))
    # every crossing seen by a dense sampling
    ts = np.linspace(t0, t1, int(400 * (t1 - t0)) + 1)
    vals = np.array([f(np.array(c.evaluate(float(t)))) for t in ts])
    edges = np.r_[np.arange(t0, t1, step), t1]
    up = np.diff(np.sign(np.diff(vals))) != 0
    cr = [i for i in range(len(ts) - 1) if vals[i] * vals[i + 1] < 0]
    for j, i in enumerate(cr):
        a = ts[i] - vals[i] * (ts[i + 1] - ts[i]) / (vals[i + 1] - vals[i])
        k = int(np.searchsorted(edges, a)) - 1
        if k < 0 or k + 1 >= len(edges) or a - edges[k] < 0.02 * step or edges[k + 1] - a < 0.02 * step:
            continue
        if np.count_nonzero(up[(ts[1:-1] > edges[k]) & (ts[1:-1] < edges[k + 1])]) > 1:
            continue
        if any(abs(ts[m] - a) < 0.03 * step for m in cr[:j] + cr[j + 1:]):
            continue
        e = np.where(up)[0] + 1
        if len(e) and np.min(np.abs(ts[e] - a)) < 0.03 * step:
            continue
        ctx.check("pix:complete", len(s) > 0 and np.min(np.abs(s - a)) < 2e-3, "%s: the crossing at %r is not among %r (step %r)" % (what, a, s.tolist(), step))
    ctx.state(what, kind, step, len(cr))


# ---- parametric x parametric ---------------------------------------------------
def crossings(A, B, n=600):
    """transversal crossings of two planar curves: (t, s, angle)"""
    ta, tb = np.linspace(*A.interval(), n), np.linspace(*B.interval(), n)
    P, Q = np.array(A.evaluate_multi(ta))[:, :2], np.array(B.evaluate_multi(tb))[:, :2]
    u, v = np.diff(P, axis=0), np.diff(Q, axis=0)
    w = Q[None, :-1] - P[:-1, None]
    den = u[:, None, 0] * v[None, :, 1] - u[:, None, 1] * v[None, :, 0]
    with np.errstate(all="ignore"):
        x = (w[..., 0] * v[None, :, 1] - w[..., 1] * v[None, :, 0]) / den
        y = (w[..., 0] * u[:, None, 1] - w[..., 1] * u[:, None, 0]) / den
    i, j = np.where((x >= 0) & (x < 1) & (y >= 0) & (y < 1))
    sin = np.abs(den[i, j]) / (np.linalg.norm(u[i], axis=1) * np.linalg.norm(v[j], axis=1))
    return [(ta[a] + x[a, b] * (ta[1] - ta[0]), tb[b] + y[a, b] * (tb[1] - tb[0]), s) for a, b, s in zip(i, j, sin)], P, Q


def polyline(rng):
    n = int(rng.integers(2, 6))
    return NURBSCurve(np.pad(rng.uniform(-3, 3, (n, 2)), ((0, 0), (0, 1))), 1, domain(rng, n, 1))


def ppx(ctx):
    rng = ctx.rng
    mk = lambda: polyline(rng) if rng.integers(3) == 0 else smooth(rng)
    A, B = mk(), mk()
    if rng.integers(4) == 0:                          # through the middle of each other
        ma, mb = (np.array(c.evaluate(sum(c.interval()) / 2)) for c in (A, B))
        B = NURBSCurve(np.array(B.control_points)[:, :3] + (ma - mb), int(B.degree), np.array(B.knots))
    tol = float(rng.choice([1e-2, 1e-3, 1e-5]))
    eager = bool(rng.integers(4))
    want, P, Q = crossings(A, B)
    got = ccx(A, B, tol=tol) if eager and rng.integers(2) else curve_ppx(A, B, tol=tol, eager=eager)
    a0, a1 = A.interval()
    b0, b1 = B.interval()
    for t, s in got:
        ctx.check("ppx:domain", a0 <= t <= a1 and b0 <= s <= b1, "(%r, %r)" % (t, s))
        d = np.linalg.norm(np.array(A.evaluate(float(t))) - np.array(B.evaluate(float(s))))
        ctx.check("ppx:on both", d < 20 * tol, "the curves are %.2e apart at a reported intersection (tol %g)" % (d, tol))
    T = [(float(t), float(s)) for t, s in got]
    ctx.check("ppx:order", T == sorted(T, key=lambda x: x[0]), "not sorted along the first curve")
    pa, pb = (np.max(np.linalg.norm(np.diff(X, axis=0), axis=1)) for X in (P, Q))
    for t, s, ang in want:
        if ang < 0.3 or min(t - a0, a1 - t) < 0.01 * (a1 - a0) or min(s - b0, b1 - s) < 0.01 * (b1 - b0):
            continue
        x = np.array(A.evaluate(float(t)))
        d = min((np.linalg.norm(np.array(A.evaluate(u)) - x) for u, v in T), default=np.inf)
        # the eager boxes are spanned by 8 points: a crossing in the bulge between two of them is lost
        if eager and d > 20 * tol + pa + pb and bulge(A, B, float(t), float(s)):
            continue
        ctx.check("ppx:complete", d < 20 * tol + pa + pb, "the crossing (%r, %r), angle %.2f, is not reported (tol %g, nearest %r)" % (t, s, ang, tol, d))
    ctx.state(len(want), tol, eager, int(A.degree), int(B.degree))


def bulge(A, B, t, s, cnt=8):
    """would a subdivision with boxes through `cnt` samples lose the crossing (t, s)?"""
    def chunks(c, u):
        a, b = (float(x) for x in c.interval())
        if b - a > 1:
            k = min(math.floor(u - a), math.ceil(b - a) - 1)
            a, b = a + k, min(a + k + 1, b)
        return a, b
    ra, rb = chunks(A, t), chunks(B, s)
    for _ in range(12):
        X, Y = (np.array(c.evaluate_multi(np.linspace(*r, cnt))) for c, r in ((A, ra), (B, rb)))
        m = 1e-9
        if np.any(X.max(0) + m < Y.min(0)) or np.any(Y.max(0) + m < X.min(0)):
            return True
        out = []
        for r, u in ((ra, t), (rb, s)):
            h = (r[0] + r[1]) / 2
            if abs(u - h) < 1e-3 * (r[1] - r[0]):
                return True                           # on a cut: either side may take it
            out.append((r[0], h) if u < h else (h, r[1]))
        ra, rb = out
    return False


def apart(ctx):
    """no intersection: an empty answer, not an error"""
    rng = ctx.rng
    A, B = smooth(rng), smooth(rng)
    P = np.array(B.control_points)[:, :3].copy()
    k = int(rng.integers(3))
    if k == 0:
        P[:, int(rng.integers(2))] += 7
    elif k == 1:
        P[:, 2] += float(rng.choice([1e-3, 0.5]))     # parallel planes
    else:
        P[:, 0] -= 8
    B = NURBSCurve(P, int(B.degree))
    tol = 1e-4
    got = list(ccx(A, B, tol=tol)) if rng.integers(2) else list(curve_ppx(A, B, tol=tol, eager=bool(rng.integers(2))))
    ctx.check("apart:empty", got == [], "curves that do not meet: %r" % (got[:2],))
    c = Sphere(np.array([20.0, 0, 0]), 1.0)
    ctx.check("apart:empty", list(ccx(A, c)) == [] and list(ccx(c, A)) == [], "a far sphere is hit")
    ctx.raises("apart:unknown", ValueError, ccx, object(), A)
    ctx.state(k)


class Ring(Ellipse):
    """a circle by its signed distance"""
    def implicit(self, p):
        return math.hypot(p[0] - self.c[0], p[1] - self.c[1]) - self.a


def iix(ctx):
    rng = ctx.rng
    ra, rb = (float(x) for x in rng.uniform(0.8, 2.5, 2))
    a = Ring(rng.uniform(-2, 2, 2), ra, ra, 0.0)
    b = Ring(rng.uniform(-2, 2, 2), rb, rb, 0.0)
    d = float(np.linalg.norm(a.c - b.c))
    u = (b.c - a.c) / d
    want = []
    if abs(ra - rb) + 0.1 < d < ra + rb - 0.1:
        x = (d * d + ra ** 2 - rb ** 2) / 2 / d
        h = math.sqrt(ra ** 2 - x * x)
        w = np.array([-u[1], u[0]])
        want = [a.c + u * x + w * h, a.c + u * x - w * h]
    elif abs(ra - rb) - 0.1 < d < ra + rb + 0.1:
        ctx.skip("nearly tangent")
    mode = int(rng.integers(4))
    tree = ImplicitTree2D(lambda v: min(a.implicit(v), b.implicit(v)), depth=4)
    tree.build()
    if mode == 0:
        got = list(ccx(a, b))
    elif mode == 1:
        got = list(curve_iix(a, b))
    else:
        kw = [dict(rtol=1e-6, atol=1e-6), dict(rtol=1e-6), dict(atol=1e-7)][int(rng.integers(3))]
        got = list(curve_iix(a, b, tree, **kw))
    for q in got:
        v = max(abs(a.implicit(q)), abs(b.implicit(q)))
        ctx.check("iix:on both", v < 1e-6, "a point is %.2e off" % v)
    for q in want:
        cell = [n for n in tree.border if all(n[0][k] + 0.02 < q[k] < n[1][k] - 0.02 for k in (0, 1))]
        if cell and not any(np.all(np.array(cell[0][0]) <= z) and np.all(z <= np.array(cell[0][1])) for z in want if z is not q):
            n = sum(np.linalg.norm(np.asarray(z) - q) < 1e-4 for z in got)
            ctx.check("iix:complete", n == 1, "the intersection %r of two circles is reported %d times" % (q.tolist(), n))
    if not want:
        ctx.check("iix:none", len(got) == 0, "circles that do not meet: %r" % (got,))
    ctx.state(mode, len(want), len(got))


def distance(ctx):
    """closest points of two skew segments with the common perpendicular inside both"""
    rng = ctx.rng
    p = rng.uniform(-1, 1, 3)
    u, v = rng.normal(size=3), rng.normal(size=3)
    u, v = u / np.linalg.norm(u) * rng.uniform(0.7, 2), v / np.linalg.norm(v) * rng.uniform(0.7, 2)
    w = np.cross(u, v)
    if np.linalg.norm(w) < 0.5 * np.linalg.norm(u) * np.linalg.norm(v):
        ctx.skip("nearly parallel")
    w /= np.linalg.norm(w)
    h = float(rng.uniform(0.2, 1.5))
    t, s = (float(x) for x in rng.uniform(0.2, 0.8, 2))
    A = NURBSCurve(np.array([p - u * t, p + u * (1 - t)]), 1)
    B = NURBSCurve(np.array([p + w * h - v * s, p + w * h + v * (1 - s)]), 1)
    sol = ccd(A, B)
    ctx.check("ccd:one", len(sol) == 1, "%d minima between two skew segments" % len(sol))
    q = proximity_points_curve_curve(A, B)
    for r in [*sol, q]:
        ctx.close("ccd:params", [r[0], r[1]], [t, s], 2e-2, "parameters of the closest points")
        ctx.close("ccd:distance", r[2], h * h, 1e-3 * h * h + 5e-4, "squared distance")
    ctx.state(round(h), round(t, 1))


# ---- booleans -----------------------------------------------------------------------
def star(rng, p, c, R):
    n = int(rng.integers(3, 8))
    while True:
        a = np.sort(rng.uniform(0, TAU, n))
        g = np.diff(np.r_[a, a[0] + TAU])
        if g.max() < 2.8 and g.min() > 0.15:
            break
    r = R * rng.uniform(0.6, 1, n)
    P = np.c_[c[0] + r * np.cos(a), c[1] + r * np.sin(a), 0 * r]
    return NURBSCurve(np.r_[P, P[:1]], p)


def boolean(ctx):
    rng = ctx.rng
    p, q = (int(x) for x in rng.integers(1, 4, 2))
    A = star(rng, p, (0, 0), 2)
    k = int(rng.integers(4))
    if k == 0:
        C = star(rng, q, rng.uniform(-0.6, 0.6, 2), 0.3)             # often nested
    elif k == 1:
        C = star(rng, q, np.array([rng.uniform(1, 2) * rng.choice([-1, 1]), rng.uniform(-0.8, 0.8)]), 0.4)
    elif k == 2:
        C = star(rng, q, rng.uniform(-1.5, 1.5, 2), float(rng.uniform(1, 2)))
    else:
        C = star(rng, q, rng.uniform(-4, 4, 2), 4.0)
    if rng.integers(2):
        A, C = C, A
    QA, QC = (np.array(c.evaluate_multi(np.linspace(*c.interval(), 3000))) for c in (A, C))
    want, _, _ = crossings(A, C)
    if any(w[2] < 0.2 for w in want):
        ctx.skip("nearly tangent")
    X = np.array([A.evaluate(float(w[0])) for w in want]).reshape(-1, 3)
    if len(X) % 2 or any(np.linalg.norm(X[i] - X[j]) < 0.05 for i in range(len(X)) for j in range(i)):
        ctx.skip("crossings too close")
    if any(bulge(A, C, float(t), float(s)) for t, s, _ in want):
        ctx.skip("a crossing the eager boxes lose")
    gap = np.min([np.min(np.linalg.norm(QA - x, axis=1)) for x in QC[::10]])
    if not len(X) and gap < 0.03:
        ctx.skip("almost touching")
    length = lambda Z: float(np.linalg.norm(np.diff(Z, axis=0), axis=1).sum())
    total, parts = {}, {}
    for op in BooleanOperationType:
        segs = curve_boolean_operation(A, C, op)
        total[op] = 0.0
        # the area swept by the pieces, each with the sign of its curve
        for s in segs:
            Z = np.array(s.evaluate_multi(np.linspace(*s.interval(), 2001)))
            total[op] += length(Z)
            m = Z[1000]
            dA, dC = np.min(np.linalg.norm(QA - m, axis=1)), np.min(np.linalg.norm(QC - m, axis=1))
            ctx.check("bool:on input", min(dA, dC) < 0.03, "%s: a piece leaves the curves by %r" % (op.name, min(dA, dC)))
            if length(Z) < 0.2 or max(dA, dC) < 0.05:
                continue
            first = dA < dC
            inner = winding(QC if first else QA, m) % 2 == 1
            keep = {BooleanOperationType.UNION: not inner, BooleanOperationType.INTERSECTION: inner,
                    BooleanOperationType.DIFFERENCE: (not inner) if first else inner}[op]
            ctx.check("bool:side", keep, "%s of degree %d and %d: a piece of the %s curve %s the other" % (op.name, p, q, "first" if first else "second", "inside" if inner else "outside"))
        parts[op] = len(segs)
    U, I, D = BooleanOperationType.UNION, BooleanOperationType.INTERSECTION, BooleanOperationType.DIFFERENCE
    LA, LC = length(QA), length(QC)
    small = 0.02 * (2 + len(X))
    ctx.check("bool:partition", abs(total[U] + total[I] - LA - LC) < small, "union and intersection use %r of the outlines, they are %r long" % (total[U] + total[I], LA + LC))
    inA = np.array([winding(QC, x) % 2 == 1 for x in QA[::5]])
    seg = np.linalg.norm(QA[5::5] - QA[:-5:5], axis=1)
    ins = float(seg[inA[:-1][:len(seg)]].sum())
    inC = np.array([winding(QA, x) % 2 == 1 for x in QC[::5]])
    segc = np.linalg.norm(QC[5::5] - QC[:-5:5], axis=1)
    insc = float(segc[inC[:-1][:len(segc)]].sum())
    slack = small + 0.01 * (LA + LC)
    ctx.check("bool:outline", abs(total[I] - ins - insc) < slack, "the outline of the intersection is %r long, expected %r" % (total[I], ins + insc))
    ctx.check("bool:outline", abs(total[U] - (LA - ins) - (LC - insc)) < slack, "the outline of the union is %r long, expected %r" % (total[U], LA - ins + LC - insc))
    ctx.check("bool:outline", abs(total[D] - (LA - ins) - insc) < slack, "the outline of the difference is %r long, expected %r" % (total[D], LA - ins + insc))
    ctx.state(p, q, k, len(X))


def lines(ctx):
    """two straight lines over domains of any length that cross at chosen parameters, in the last piece too"""
    rng = ctx.rng
    tol = float(rng.choice([1e-2, 1e-3]))
    L = [float(rng.choice([rng.uniform(0.2, 1.0), 1.0, rng.uniform(1.0, 2.0), rng.uniform(2, 5), 3.0])) for _ in range(2)]
    a = [float(rng.choice([0.0, -1.5, 2.0, rng.uniform(-3, 3)])) for _ in range(2)]
    f = [float(rng.choice([rng.uniform(0.03, 0.97), rng.uniform(0.9, 0.98), rng.uniform(0.02, 0.1)])) for _ in range(2)]
    x, th = rng.uniform(-3, 3, 2), rng.uniform(0, 2 * np.pi)
    th = [th, th + rng.uniform(0.5, 2.6)]
    C = []
    for i in range(2):
        d = rng.uniform(0.5, 4) * np.array([np.cos(th[i]), np.sin(th[i])])
        C.append(NURBSCurve(np.c_[np.array([x - f[i] * d, x + (1 - f[i]) * d]), [0, 0]], 1, np.array([a[i], a[i], a[i] + L[i], a[i] + L[i]])))
    got = curve_ppx(*C, tol=tol, eager=bool(rng.integers(2)))
    ctx.state("lines", tol, *np.round(L, 1), *np.round(f, 1))
    ctx.check("lines:complete", len(got) > 0, "lines over %r from %r cross at %r of them: nothing reported (tol %g)" % (L, a, f, tol))
    for t in got:
        for i in range(2):
            d = np.linalg.norm(np.array(C[i].evaluate(float(t[i])))[:2] - x)
            ctx.check("lines:position", d < 20 * tol, "%.2e off the crossing (tol %g)" % (d, tol))


SCENARIOS = {
    "lines": (lines, 60, 3000),
    "pix": (pix, 120, 4000),
    "ppx": (ppx, 60, 2000),
    "apart": (apart, 20, 400),
    "iix": (iix, 60, 2000),
    "distance": (distance, 20, 400),
    "boolean": (boolean, 60, 2000),
}
