"""C10: closest points, projections and inversions are the closest points they claim to be."""
import math

import numpy as np

import gen
import ref
from mm import curve, surf
from mmcore.geom.surfaces import Surface
from mmcore.geom.curves.curve import Curve
from mmcore.numeric import closest_point as CP
from mmcore.numeric.routines import divide_interval
from mmcore.numeric.algorithms.point_inversion import point_inversion_curve, point_inversion_surface

RULE = "one case = one curve, surface, line or point set with query points on it, near it and far away; answers are compared with brute force, closed forms or the query point's own construction"
ASSUMPTIONS = [
    "the curve search assumes the distance has at most one local minimum on each half-unit piece of the domain: only such cases (decided by dense sampling of an independent model) are judged for optimality; domain membership and distance consistency are judged always",
    "surface searches are judged on rectangles (any point) and on gently curved height fields (points on the surface or next to it), where descent provably reaches the closest point",
    "inversions start within two percent of a knot span of the answer, as a caller refining a guess does",
]


class W(Surface):
    """a NURBS surface behind the generic Surface interface"""

    def __init__(self, n):
        self.n = n
        super().__init__()

    def interval(self):
        return tuple(tuple(x) for x in self.n.interval())

    def evaluate(self, uv):
        return np.array(self.n.evaluate(np.array(uv, float)))


class F(Curve):
    def __init__(self, f, a, b):
        self.f, self.ab = f, (a, b)
        super().__init__()

    def interval(self):
        return self.ab

    def evaluate(self, t):
        return self.f(t)


def closest_pair(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 40))
    X = rng.integers(0, 12, (n, 2)).astype(float) if rng.integers(2) else rng.normal(size=(n, 2))
    if rng.integers(4) == 0:
        X[:, int(rng.integers(2))] = 3.0
    pts = [tuple(map(float, x)) for x in X]
    d, (i, j) = CP.min_distance(pts)
    D = np.linalg.norm(X[:, None] - X[None], axis=2) + np.diag([np.inf] * n)
    ctx.check("closest-pair", abs(d - D.min()) <= 1e-12 * (1 + d), "min_distance %r, brute force %r for %r" % (d, D.min(), pts))
    ctx.check("closest-pair", i != j and abs(D[i, j] - d) <= 1e-12 * (1 + d), "pair (%r, %r) is at %r, not %r" % (i, j, D[i, j] if i != j else None, d))
    ctx.state("pair", n, float(d))


def lines(ctx):
    rng = ctx.rng
    a, b, q = rng.normal(size=(3, 3)) * 10.0 ** rng.integers(-2, 3)
    k = float((q - a) @ (b - a) / ((b - a) @ (b - a)))
    want = a + k * (b - a)
    ctx.close("line", CP.closest_point_on_line((a, b), q), want, 1e-10, "closest_point_on_line")
    if k >= 0:
        ctx.close("line", CP.closest_point_on_ray((a, b - a), q), want, 1e-10, "closest_point_on_ray")
    s, e = float(rng.uniform(-5, 5)), 0.0
    step = float(rng.choice([0.1, 0.25, 0.5, 1.0, 3.0]))
    e = s + float(rng.uniform(0.05, 6))
    D = np.asarray(divide_interval(s, e, step))
    ok = D[0, 0] == s and abs(D[-1, 1] - e) < 1e-12 and np.all(D[1:, 0] <= D[:-1, 1] + 1e-12) and np.all(D[1:, 0] >= D[:-1, 1] - 1e-12) and np.all(D[:, 1] >= D[:, 0]) and np.all(D[:, 1] - D[:, 0] <= step + 1e-12)
    ctx.check("divide-interval", ok, "divide_interval(%r, %r, %r) = %r" % (s, e, step, D.tolist()))
    ctx.state("line", round(k, 2))


def pieces_unimodal(f, a, b, step=0.5, m=400):
    """dense samples of the distance; None when some half-unit piece has several local minima (plateaus excluded)"""
    best = math.inf
    n = max(1, int(math.ceil((b - a) / step - 1e-12)))
    for i in range(n):
        lo, hi = a + i * step, min(b, a + (i + 1) * step)
        if hi <= lo:
            continue
        D = f(np.linspace(lo, hi, m))
        best = min(best, float(D.min()))
        s = np.sign(np.diff(D))
        s = s[s != 0]
        if np.any((s[:-1] > 0) & (s[1:] < 0)):
            return None
        # nearly flat pieces cannot be ordered by sampling
        if float(D.max() - D.min()) < 1e-9:
            return None
    return best


def on_curve(ctx):
    rng = ctx.rng
    P, w, U, p = gen.curve_data(rng, pmax=4, smooth=bool(rng.integers(2)))
    a, b = float(U[p]), float(U[len(U) - p - 1])
    if b - a > 12:
        s = 6.0 / (b - a)
        U = U * s
        a, b = float(U[p]), float(U[len(U) - p - 1])
    c = curve(P, w, U, p)
    mode = int(rng.integers(3))
    t0 = float(rng.uniform(a, b))
    q = np.array(ref.curve_point(P, w, U, p, t0)) if mode < 2 else rng.uniform(-7, 7, 3)
    if mode == 1:
        q = q + rng.normal(size=3) * 0.05
    tol = float(10.0 ** -rng.integers(3, 8))
    f = lambda ts: np.linalg.norm(np.array([ref.curve_point(P, w, U, p, float(t)) for t in ts]) - q, axis=1)
    best = pieces_unimodal(f, a, b, m=120)
    t, d = CP.closest_point_on_curve(c, q, tol=tol)
    t, d = float(t), float(d)
    ctx.check("curve:domain", a <= t <= b, "closest parameter %r outside [%r, %r]" % (t, a, b))
    ctx.close("curve:distance", d, float(f([t])[0]), 1e-9, "the distance is not that of the returned parameter")
    ends = f([a, b])
    ctx.check("curve:ends", d <= ends.min() + 1e-9, "distance %r, an end is at %r" % (d, ends.min()))
    if best is not None:
        speed = float(np.max(np.linalg.norm(np.diff(np.array([ref.curve_point(P, w, U, p, x) for x in np.linspace(a, b, 200)]), axis=0), axis=1))) * 199 / (b - a)
        ctx.check("curve:closest", d <= best + 2 * tol * speed + 1e-9, "distance %r, a sampled point is at %r (tol %g)" % (d, best, tol))
        ctx.state("best", mode, p, tol)
    got = CP.closest_point_on_curve_single(c, q, tol=tol)
    ctx.check("curve:agree", (float(got[0]), float(got[1])) == (t, d), "closest_point_on_curve_single differs")
    qs = np.array([q, q + 1.0, ref.curve_point(P, w, U, p, a)])
    many = CP.closest_point_on_curve(c, qs, tol=tol)
    ctx.check("curve:batch", len(many) == 3 and all(tuple(m) == tuple(CP.closest_point_on_curve_single(c, x, tol=tol)) for m, x in zip(many, qs)), "batch differs from single answers")


def python_curve(ctx):
    """curves given as functions: circles and helices, whose closest point is known in closed form"""
    rng = ctx.rng
    R = gen.rotation(rng)
    o, r = rng.normal(size=3), float(rng.uniform(0.5, 4))
    a, b = sorted(rng.uniform(0, 2 * math.pi, 2))
    if b - a < 0.2:
        ctx.skip("short arc")
    c = F(lambda t: o + R[0] * r * np.cos(t) + R[1] * r * np.sin(t), a, b)
    ang, rad, h = float(rng.uniform(0, 2 * math.pi)), float(rng.uniform(0.1, 2.5)) * r, float(rng.normal())
    q = o + R[0] * rad * np.cos(ang) + R[1] * rad * np.sin(ang) + R[2] * h
    tol = float(10.0 ** -rng.integers(3, 8))
    inside = a <= ang <= b
    dd = lambda t: math.sqrt(h * h + rad * rad + r * r - 2 * rad * r * math.cos(t - ang))
    want = dd(ang) if inside else min(dd(a), dd(b))
    t, d = CP.closest_point_on_curve(c, q, tol=tol)
    # on a half-unit piece the distance to a circle may have two local minima only at the ends of the piece
    far = (ang + math.pi) % (2 * math.pi)
    pieces = [(a + 0.5 * i, min(b, a + 0.5 * i + 0.5)) for i in range(int(math.ceil((b - a) / 0.5)))]
    bad = any(lo < x < hi for lo, hi in pieces for x in (far, far - 2 * math.pi, far + 2 * math.pi))
    ctx.check("curve:domain", a <= t <= b, "parameter %r outside [%r, %r]" % (t, a, b))
    ctx.close("curve:distance", d, dd(t), 1e-9, "distance of the returned parameter")
    if inside or not bad:
        ctx.check("curve:closest", d <= want + tol * r + 1e-9, "arc distance %r, expected %r" % (d, want))
    ctx.state("arc", round(a, 1), round(b, 1), inside)


def inversion(ctx):
    rng = ctx.rng
    P, w, U, p = gen.curve_data(rng, smooth=True, pmin=2, pmax=4)
    c = curve(P, w, U, p)
    a, b = float(U[p]), float(U[len(U) - p - 1])
    ts = gen.away_from_knots(rng, U, p, 1, 0.03)
    if len(ts) == 0:
        ctx.skip("no room between knots")
    t = float(ts[0])
    kn = np.unique(U)
    span = float(np.min(np.abs(kn - t)))
    q = np.array(ref.curve_point(P, w, U, p, t))
    u0 = t + float(rng.uniform(-0.2, 0.2)) * span
    # Newton's method contracts from u0 (a sampled Kantorovich bound on the independent model)
    r = 2 * abs(u0 - t)
    D = [np.array(ref.curve_ders(P, U, p, x, 3, w)) for x in np.linspace(max(a, t - r), min(b, t + r), 9)]
    f1 = min(float((d[2] @ (d[0] - q)) + d[1] @ d[1]) for d in D)
    f2 = max(abs(float(d[3] @ (d[0] - q) + 3 * d[2] @ d[1])) for d in D)
    if f1 < 1e-3 or f2 * abs(u0 - t) > 0.5 * f1 or not np.any(np.abs(kn - t) > 0) or r > 2 * span:
        ctx.skip("outside the basin of Newton's method")
    tol = float(10.0 ** -rng.integers(3, 9))
    u = float(point_inversion_curve(c, q, u0, tol, 1e-12))
    e = float(np.linalg.norm(np.array(ref.curve_point(P, w, U, p, u)) - q)) if a <= u <= b else math.inf
    ctx.check("inversion:curve", e <= 2 * tol, "inversion of C(%r) from %r gives %r at distance %.3g (tol %g)" % (t, u0, u, e, tol))
    r = CP.local_closest_point_on_curve(c, u0, q, tol=1e-10)
    ctx.check("inversion:local", abs(float(np.linalg.norm(np.array(c.evaluate(float(r[0])))[:3] - q)) - float(r[1])) <= 1e-9, "local_closest_point_on_curve: distance of the returned parameter")
    ctx.check("inversion:local", float(r[1]) <= 1e-6, "local_closest_point_on_curve from %r: %r for a point on the curve at %r" % (u0, r, t))
    ctx.state("inv", p, tol)


def field(rng, h=0.6):
    H, U, V, p, q = gen.surface_data(rng, height=h, style="uniform", pmax=3)
    return H, U, V, p, q


def inversion_surface(ctx):
    rng = ctx.rng
    H, U, V, p, q = field(rng)
    s = surf(H, U, V, p, q)
    us, vs = gen.away_from_knots(rng, U, p, 1, 0.03), gen.away_from_knots(rng, V, q, 1, 0.03)
    if len(us) == 0 or len(vs) == 0:
        ctx.skip("no room")
    uv = np.array([float(us[0]), float(vs[0])])
    d = np.array([np.min(np.abs(np.unique(U) - uv[0])), np.min(np.abs(np.unique(V) - uv[1]))])
    uv0 = uv + rng.uniform(-0.2, 0.2, 2) * d
    S = lambda x: np.array(ref.surface_point(H, U, V, p, q, float(x[0]), float(x[1])))
    pt = S(uv)
    tol = float(10.0 ** -rng.integers(3, 9))
    r = point_inversion_surface(s, pt, float(uv0[0]), float(uv0[1]), tol, 1e-12)
    e = float(np.linalg.norm(S(r) - pt))
    key = None
    if e > 2 * tol:
        # known finding: the iterate before the one that met the tolerance is returned; one exact Gauss-Newton step must close the gap
        D = ref.surface_ders(H, U, V, p, q, float(r[0]), float(r[1]), 1)
        J = np.array([D[1][0], D[0][1]]).T
        r2 = np.array(r) - np.linalg.lstsq(J, D[0][0] - pt, rcond=None)[0]
        r2 = np.clip(r2, [U[p], V[q]], [U[-p - 1], V[-q - 1]])
        if float(np.linalg.norm(S(r2) - pt)) <= 2 * tol + 2e-3 * e and e <= 2 * float(np.linalg.norm(S(uv0) - pt)):
            key = "point-inversion-surface-previous-iterate"
    ctx.check("inversion:surface", e <= 2 * tol, key=key, msg= "inversion of S(%r) from %r gives %r at distance %.3g (tol %g)" % (uv.tolist(), uv0.tolist(), list(r), e, tol))
    ctx.state("sinv", p, q, tol)


def rect(rng):
    R = gen.rotation(rng)
    o = rng.uniform(-3, 3, 3)
    a, b = rng.uniform(0.5, 6, 2)
    C = np.array([[o, o + R[1] * b], [o + R[0] * a, o + R[0] * a + R[1] * b]])
    k = np.array([0, 0, 1, 1.0])
    return R, o, a, b, W(surf(np.concatenate([C, np.ones((2, 2, 1))], -1), k, k.copy(), 1, 1))


def on_surface(ctx):
    rng = ctx.rng
    if rng.integers(2):
        R, o, a, b, s = rect(rng)
        n = int(rng.integers(1, 5))
        qs = np.array([o + R[0] * a * rng.uniform(-0.5, 1.5) + R[1] * b * rng.uniform(-0.5, 1.5) + R[2] * rng.choice([0, 1.0]) * rng.normal() for _ in range(n)])
        want = np.clip(np.c_[(qs - o) @ R[0] / a, (qs - o) @ R[1] / b], 0, 1)
        tol, kind = 1e-5, "rectangle"
    else:
        H, U, V, p, q = field(rng, 0.3)
        w = np.ones(H.shape[:2])
        H = np.concatenate([H[..., :3] / H[..., 3:], w[..., None]], -1)
        s = W(surf(H, U, V, p, q))
        n = int(rng.integers(1, 4))
        want = np.c_[rng.uniform(U[p], U[len(U) - p - 1], n), rng.uniform(V[q], V[len(V) - q - 1], n)]
        qs = np.array([ref.surface_point(H, U, V, p, q, float(x[0]), float(x[1])) for x in want])
        tol, kind = 1e-4, "field"
    for name, f in (("closest_point_on_surface", lambda: [CP.closest_point_on_surface(s, x, tol=1e-8) for x in qs]),
                    ("closest_points_on_surface", lambda: CP.closest_points_on_surface(s, qs, tol=1e-7)),
                    ("closest_point_on_surface_batched", lambda: CP.closest_point_on_surface_batched(s, qs, tol=1e-7))):
        got = np.array(f(), float)
        if not ctx.check("surface:shape", got.shape == (n, 2), "%s: shape %r" % (name, got.shape)):
            continue
        if kind == "field":
            # judged in space: the parameters may be poorly conditioned
            e = max(float(np.linalg.norm(s.evaluate(g) - x)) for g, x in zip(got, qs))
            ctx.check("surface:field", e <= 1e-4, "%s: a point on the surface is found at distance %.3g" % (name, e))
        else:
            ctx.close("surface:rectangle", got, want, tol, name)
    ctx.state(kind, n)


def foot(ctx):
    rng = ctx.rng
    k = rng.uniform(-0.05, 0.05, 3)

    def S(*a):
        s, t = a if len(a) == 2 else a[0]
        return np.array([s, t, k[0] * s * s + k[1] * t * t + k[2] * s * t])

    st = rng.uniform(-1, 1, 2)
    ds, dt = np.array([1, 0, 2 * k[0] * st[0] + k[2] * st[1]]), np.array([0, 1, 2 * k[1] * st[1] + k[2] * st[0]])
    nrm = np.cross(ds, dt)
    P = S(st) + nrm / np.linalg.norm(nrm) * float(rng.uniform(-1, 1))
    partial = lambda uv: (np.array([1, 0, 2 * k[0] * uv[0] + k[2] * uv[1]]), np.array([0, 1, 2 * k[1] * uv[1] + k[2] * uv[0]]))
    g = st + rng.uniform(-0.3, 0.3, 2)
    pt, s, t = CP.foot_point(S, P, float(g[0]), float(g[1]), partial_derivatives=partial)
    ctx.close("foot", [s, t], st, 1e-5, "foot_point from %r" % g.tolist())
    ctx.close("foot", pt, S(st), 1e-5, "foot_point point")
    ctx.state("foot", round(float(st[0]), 1))


def workers(ctx):
    """the multi-process variant answers like the single one, in order"""
    rng = ctx.rng
    P, w, U, p = gen.curve_data(rng, pmax=3)
    c = curve(P, w, U, p)
    qs = rng.uniform(-6, 6, (7, 3))
    got = CP.closest_point_on_curve(c, qs, tol=1e-4, workers=2)
    want = [CP.closest_point_on_curve_single(c, x, tol=1e-4) for x in qs]
    ctx.check("curve:workers", len(got) == 7 and all(np.allclose(g, x, atol=1e-12) for g, x in zip(got, want)), "workers=2 differs from the single-process answers")


SCENARIOS = {
    "closest_pair": (closest_pair, 600, 20000),
    "lines": (lines, 300, 5000),
    "on_curve": (on_curve, 240, 6000),
    "python_curve": (python_curve, 300, 10000),
    "inversion": (inversion, 400, 12000),
    "inversion_surface": (inversion_surface, 300, 8000),
    "on_surface": (on_surface, 120, 3000),
    "foot": (foot, 200, 5000),
    "workers": (workers, 2, 20),
}
