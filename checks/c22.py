"""C22: integrals, arc lengths, areas and parameter grids are those of the object measured."""
import math
import warnings

import numpy as np

import gen
from mmcore.geom.curves.bspline import NURBSpline
from mmcore.geom.curves.curve import ArcLengthParameterization, Curve, TrimmedCurve, parametric_curve
from mmcore.numeric import arc_length as al
from mmcore.numeric import numeric as num
from mmcore.numeric import routines as rt
from mmcore.numeric.algorithms.surface_area import surface_rect_area
from mmcore.numeric.integrate.romberg import romberg1d
from mmcore.numeric.fdm import FDM
from mmcore.numeric.prime import Prime
from mmcore.numeric.routines import uvs
from mm import surf

RULE = "one case = one random integrand, curve, surface or grid; lengths and areas are compared with closed forms or Gauss quadrature on every knot span, and lengths with sums over parts, reversals and reparametrizations"
ASSUMPTIONS = [
    "the requested accuracy is absolute and may be missed by a factor of ten (the rules estimate their error)",
    "romberg1d stops at the first two estimates that agree, so integrands have no period commensurable with the interval",
    "evaluate_parameter_at_length and ArcLengthParameterization interpolate in a table of 100 samples; the tolerance follows from the change of speed between samples",
]
XS, WS = np.polynomial.legendre.leggauss(32)


def gauss(f, a, b, breaks=(), parts=4):
    k = np.unique(np.r_[a, b, [u for u in breaks if min(a, b) < u < max(a, b)]])
    total = 0.0
    for l, r in zip(k, k[1:]):
        m = np.linspace(l, r, parts + 1)
        for p, q in zip(m, m[1:]):
            total += (q - p) / 2 * sum(w * f((p + q) / 2 + (q - p) / 2 * x) for x, w in zip(XS, WS))
    return total if a <= b else -total


def integrals(ctx):
    rng = ctx.rng
    a = float(rng.uniform(-3, 2))
    b = a + float(rng.uniform(0.2, 3))
    acc = float(10.0 ** -rng.integers(3, 10))
    c = rng.normal(size=int(rng.integers(1, 7)))
    P = np.polynomial.Polynomial(c)
    I = P.integ()
    want = I(b) - I(a)
    size = 1 + np.sum(np.abs(c)) * 5.0 ** len(c)
    seen = []

    def f(t):
        seen.append(t)
        return float(P(t))
    got = romberg1d(f, a, b, 16, acc)
    ctx.close("romberg:polynomial", got, want, 10 * acc + 1e-14 * size, "polynomial of degree %d" % (len(c) - 1))
    ctx.check("romberg:range", min(seen) >= a and max(seen) <= b, "evaluated outside the interval")
    ctx.close("romberg:reversed", romberg1d(f, b, a, 16, acc), -want, 10 * acc + 1e-14 * size, "reversed interval")
    w, ph = float(rng.uniform(0.2, 1.5)), float(rng.uniform(0, 6))
    k = float(rng.uniform(-1, 1))
    g = lambda t: math.exp(k * t) * math.cos(w * t + ph)
    F = lambda t: math.exp(k * t) * (k * math.cos(w * t + ph) + w * math.sin(w * t + ph)) / (k * k + w * w)
    # two early estimates may agree by chance, within a loose accuracy
    acc = min(acc, 1e-6)
    ctx.close("romberg:smooth", romberg1d(g, a, b, 16, acc), F(b) - F(a), 100 * acc + 1e-12, "exp x cos")
    m = (a + b) / 2
    s = romberg1d(g, a, m, 16, acc) + romberg1d(g, m, b, 16, acc)
    ctx.close("romberg:additive", s, F(b) - F(a), 200 * acc + 1e-12, "two halves")
    # few steps: still the composite rule, exact for cubics with two halvings
    cub = np.polynomial.Polynomial(c[:4])
    CI = cub.integ()
    ctx.close("romberg:steps", romberg1d(lambda t: float(cub(t)), a, b, 3, 0.0), CI(b) - CI(a), 1e-13 * size, "three steps on a cubic")
    ctx.close("romberg:trapezoid", romberg1d(lambda t: float(cub(t)), a, b, 1, acc), (b - a) * (cub(a) + cub(b)) / 2, 1e-13 * size, "one step is the trapezoid")


class Helix(Curve):
    """unit check curve with a monitored domain"""
    def __init__(self, rng):
        super().__init__()
        self.a, self.w, self.h = float(rng.uniform(0.5, 3)), float(rng.uniform(0.5, 2)), float(rng.uniform(-1, 1))
        s = float(rng.uniform(-3, 3))
        self._interval = (s, s + float(rng.uniform(1, 9)))
        self.low, self.high = math.inf, -math.inf

    def evaluate(self, t):
        self.low, self.high = min(self.low, t), max(self.high, t)
        return np.array([self.a * math.cos(self.w * t), self.a * math.sin(self.w * t), self.h * t])

    def speed(self):
        return math.hypot(self.a * self.w, self.h)


def helix(ctx):
    rng = ctx.rng
    c = Helix(rng)
    s, e = c.interval()
    v = c.speed()
    a, b = (float(x) for x in np.sort(rng.uniform(s, e, 2)))
    if rng.integers(3) == 0:
        a = s
    if rng.integers(3) == 0:
        b = e
    tol = 10.0 ** -int(rng.integers(2, 4))
    # the derivative is a difference quotient: relative error h^2 w^2 / 6 inside, first order at the ends
    err = 10 * tol + 1e-6 * v * (b - a) * c.w ** 2 * 10 + 2e-6 * v
    L = c.evaluate_length((a, b), tol)
    ctx.close("length:helix", L, v * (b - a), err, "helix between %r and %r" % (a, b))
    ctx.close("length:reversed", c.evaluate_length((b, a), tol), -v * (b - a), err, "reversed bounds")
    ctx.check("length:domain", c.low >= s - 1e-12 and c.high <= e + 1e-12, "evaluated at [%r, %r] outside [%r, %r]" % (c.low, c.high, s, e))
    for t in (s, e, a, b):
        d = c.derivative(t)
        want = np.array([-c.a * c.w * math.sin(c.w * t), c.a * c.w * math.cos(c.w * t), c.h])
        ctx.close("derivative", d, want, 1e-3 * c.a * c.w ** 2 + 1e-5 if min(t - s, e - t) < 1e-3 else 1e-5 * (1 + c.a * c.w ** 3), "derivative at %r" % t)
    total = v * (e - s)
    m = float(rng.uniform(0.02, 0.9))
    err = 1e-5 * total + 0.02 / v * 1e-1
    ctx.close("parameter", float(c.evaluate_parameter_at_length(total * m)), s + (e - s) * m, 1e-4 * (e - s) + 1e-3 / v, "parameter at length")
    t0 = float(rng.uniform(s, s + (e - s) * 0.5))
    l = float(rng.uniform(0.05, 0.9)) * (e - t0) * v
    ctx.close("parameter:start", float(c.evaluate_parameter_at_length(l, t0=t0)), t0 + l / v, 1e-4 * (e - s) + 2e-3 / v, "parameter at length from t0")
    ctx.close("parameter:point", c.length_at(total * m), c.evaluate(s + (e - s) * m), 3e-4 * total + 3e-3, "point at length")
    der = lambda t: np.array([-c.a * c.w * math.sin(c.w * t), c.a * c.w * math.cos(c.w * t), c.h])
    ctx.close("parameter:solve", float(num.evaluate_parameter_from_length(der, l, t0=t0, t1_limit=e)), t0 + l / v, 1e-6, "evaluate_parameter_from_length")
    for q in (1e-2, 1e-3, 1e-6):
        ctx.close("length:numeric", num.evaluate_length(der, a, b, tol=q)[0], v * (b - a), 10 * q + 1e-9, "numeric.evaluate_length")
    n = int(rng.integers(20, 200))
    dt = (b - a) / n
    if dt > 1e-6:
        pl = al.parametric_arc_length(c.evaluate, a, b, dt=dt)
        chord = lambda d: math.hypot(2 * c.a * math.sin(c.w * d / 2), c.h * d)
        ctx.check("length:polyline", pl <= v * (b - a) * (1 + 1e-9) and pl >= n * chord(dt) * (1 - 1e-3), "polyline length %r of an arc of length %r" % (pl, v * (b - a)))
    # curvature steps
    R, tol = float(rng.uniform(0.1, 50)), float(rng.uniform(1e-4, 0.05))
    chord = al.curvature_based_step(tol, R)
    ctx.close("step:height", al.arc_height(chord, R), tol, 1e-9 * R, "height of the chord for tolerance %r, radius %r" % (tol, R))

    class K:
        curvature = staticmethod(lambda t: np.array([0.0, 1 / R, 0.0]))
    ctx.close("step:curve", al.step(K, 0.0, tol), chord, 1e-9 * R, "arc_length.step")


def splines(ctx):
    rng = ctx.rng
    P, w, U, p = gen.curve_data(rng, pmin=1, pmax=4, rational=False, dim=3, smooth=bool(rng.integers(2)))
    n = len(P)
    c = NURBSpline(P, p, U)
    lo, hi = float(U[p]), float(U[n])
    speed = lambda t: float(np.linalg.norm(c.derivative(t)))
    total = gauss(speed, lo, hi, U)
    box = float(np.sum(np.linalg.norm(np.diff(P, axis=0), axis=1)))
    ctx.check("spline:polygon", total <= box * (1 + 1e-6), "the reference length exceeds the control polygon")
    a, b = (float(x) for x in np.sort(rng.uniform(lo, hi, 2)))
    L = gauss(speed, a, b, U)
    # kinks are met by dyadic points only by chance: what the rule promises is the accuracy on smooth pieces
    tol = 1e-5
    err = 20 * tol + 2e-5 * box
    got = c.evaluate_length((a, b), tol)
    if p > 1:
        ctx.close("spline:length", got, L, err, "length of a spline of degree %d between %r and %r" % (p, a, b))
        m = float(rng.uniform(a, b))
        ctx.close("spline:additive", c.evaluate_length((a, m), tol) + c.evaluate_length((m, b), tol), got, 3 * err, "length over two parts")
    l3 = c.evaluate_length((a, b))
    if p > 1 and np.max(U) - np.min(U) < 1e9:
        knots = np.unique(U[(U > a) & (U < b)])
        if len(knots) == 0:
            ctx.close("spline:default", l3, L, 0.02 + 1e-3 * L, "length at the default tolerance")
    ctx.close("spline:trimmed", TrimmedCurve(c, a, b).evaluate_length((a, b), tol), got, err, "length of the trimmed curve")
    # moving every control point scales the length
    k = float(rng.choice([0.5, 2.0, 3.0]))
    before = c.evaluate_length((lo, hi), tol)
    half = float(c.evaluate_parameter_at_length(0.5 * c.evaluate_length((lo, hi), 1e-9)))
    c.control_points = np.asarray(P) * k
    ctx.close("spline:edited", c.evaluate_length((lo, hi), tol), k * before, 3 * k * err + 20 * tol, "length after scaling the control points by %r" % k)
    after = float(c.evaluate_parameter_at_length(0.5 * c.evaluate_length((lo, hi), 1e-9)))
    ctx.close("spline:edited", after, half, 1e-3 * (hi - lo), "parameter of half the length after scaling")
    # uniform speed
    if p > 1:
        ts = np.linspace(lo, hi, 100)
        sp = [speed(t) for t in ts]
        if min(sp) > 0.05 * max(sp):
            A = ArcLengthParameterization(c)
            s0, s1 = A.interval()
            ctx.check("uniform:interval", s0 == 0.0 and s1 == 1.0, "interval %r" % ((s0, s1),))
            q = np.linspace(0, 1, 6)
            u = [float(A.evaluate_curve_parameter(x)) for x in q]
            ctx.check("uniform:ends", abs(u[0] - lo) < 1e-9 and abs(u[-1] - hi) < 1e-9 * (1 + abs(hi)), "ends %r of [%r, %r]" % ((u[0], u[-1]), lo, hi))
            for x, t in zip(q, u):
                ctx.close("uniform:length", gauss(speed, lo, min(t, hi), U), x * k * total, 0.02 * k * total + 2e-2, "length at %r of the unit parameter" % x)
                ctx.close("uniform:point", A.evaluate(float(x)), c.evaluate(min(t, hi)), 1e-9 * (1 + box), "evaluate")


def areas(ctx):
    rng = ctx.rng
    k = int(rng.integers(4))
    if k == 0:
        a, h, w = (float(x) for x in rng.uniform(0.5, 3, 3))
        S, bounds, want = (lambda uv: np.array([a * math.cos(uv[0]), a * math.sin(uv[0]), uv[1]])), ((0.0, w), (-h, h)), 2 * a * h * w
    elif k == 1:
        r = float(rng.uniform(0.5, 2))
        u0, u1 = 0.0, float(rng.uniform(1, 6))
        v0, v1 = (float(x) for x in np.sort(rng.uniform(-1.4, 1.4, 2)))
        S = lambda uv: r * np.array([math.cos(uv[0]) * math.cos(uv[1]), math.sin(uv[0]) * math.cos(uv[1]), math.sin(uv[1])])
        bounds, want = ((u0, u1), (v0, v1)), r * r * (u1 - u0) * (math.sin(v1) - math.sin(v0))
    elif k == 2:
        A = rng.normal(size=(3, 2))
        o = rng.normal(size=3)
        S = lambda uv: o + A @ np.asarray(uv)
        (u0, u1), (v0, v1) = np.sort(rng.uniform(-2, 2, (2, 2)), axis=1).tolist()
        bounds, want = ((u0, u1), (v0, v1)), float(np.linalg.norm(np.cross(A[:, 0], A[:, 1]))) * (u1 - u0) * (v1 - v0)
    else:
        H, Uu, Uv, pu, pv = gen.surface_data(rng, pmax=2, extra=0, rational=False)
        s = surf(H, Uu, Uv, pu, pv)
        bu, bv = (float(Uu[pu]), float(Uu[-pu - 1])), (float(Uv[pv]), float(Uv[-pv - 1]))
        x = XS
        us, vs = (sum(bu) + (bu[1] - bu[0]) * x) / 2, (sum(bv) + (bv[1] - bv[0]) * x) / 2
        want = 0.0
        for i, u in enumerate(us):
            for j, v in enumerate(vs):
                q = np.array([u, v])
                want += WS[i] * WS[j] * np.linalg.norm(np.cross(s.derivative_u(q), s.derivative_v(q)))
        want *= (bu[1] - bu[0]) * (bv[1] - bv[0]) / 4
        got, err = surface_rect_area(s)
        ctx.close("area:nurbs", got, want, 2e-3 * want + 1e-3, "area of a patch of degree %d, %d" % (pu, pv))
        return
    got, err = surface_rect_area(S, bounds)
    ctx.close("area:closed-form", got, want, 3e-3 * want + 1e-6, "area of surface kind %d over %r" % (k, bounds))


def grids(ctx):
    rng = ctx.rng
    n, m = (int(x) for x in rng.integers(1, 9, 2))
    (u0, u1), (v0, v1) = rng.uniform(-3, 3, (2, 2)).tolist()
    g = uvs(n, m, (u0, u1), (v0, v1))
    U, Vv = np.linspace(u0, u1, n), np.linspace(v0, v1, m)
    want = np.array([[u, v] for u in U for v in Vv])
    ctx.close("grid:uvs", g, want, 0.0, "uvs(%d, %d)" % (n, m))
    ctx.close("grid:2d", rt.point_grid_2d(n, m, (u0, u1), (v0, v1)), want.reshape(n, m, 2), 0.0, "point_grid_2d")
    ctx.close("grid:product", rt.cartesian_product(U, Vv), want, 0.0, "cartesian_product")
    s = float(rng.choice([0.1, 0.25, 0.5, 1.0, float(rng.uniform(0.05, 2))]))
    a = float(rng.choice([0.0, 1.0, float(rng.uniform(-2, 2))]))
    b = a + float(rng.choice([1.0, 3.0, float(rng.uniform(0.1, 5))]))
    d = rt.divide_interval(a, b, step=s)
    ctx.check("divide:cover", d[0, 0] == a and abs(d[-1, 1] - b) <= 1e-12 and np.allclose(d[1:, 0], d[:-1, 1], rtol=0, atol=1e-12), "divide_interval(%r, %r, %r) = %r" % (a, b, s, d.tolist()[:4]))
    ctx.check("divide:steps", np.all(d[:, 1] - d[:, 0] <= s * (1 + 1e-9)) and np.all(d[:, 1] - d[:, 0] >= -1e-12) and np.allclose(d[:-1, 1] - d[:-1, 0], s, atol=1e-9),
              "divide_interval(%r, %r, %r): widths %r" % (a, b, s, (d[:, 1] - d[:, 0])[:5]))
    # shapes
    sh = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(1, 4))))
    i = int(rng.integers(0, len(sh)))
    q = int(rng.integers(1, 4))
    arr = np.arange(np.prod(sh) * q).reshape(sh[:i] + (sh[i] * q,) + sh[i + 1:])
    bef, aft = rt.split_dim(arr, i, q), rt.split_dim(arr, i, q, insert_at="after")
    ctx.check("shape:split", bef.shape == sh[:i] + (q, sh[i]) + sh[i + 1:] and aft.shape == sh[:i] + (sh[i], q) + sh[i + 1:], "split_dim %r %r" % (bef.shape, aft.shape))
    ctx.check("shape:split", np.array_equal(bef.ravel(), arr.ravel()) and np.array_equal(aft.ravel(), arr.ravel()), "split_dim reordered the elements")
    ad = rt.add_dim(np.arange(sh[0] * q * 2).reshape(sh[0] * q, 2), q)
    ctx.check("shape:add", ad.shape == (sh[0], q, 2) and np.array_equal(rt.remove_dim(ad), np.arange(sh[0] * q * 2).reshape(-1, 2)), "add_dim and remove_dim")
    parts = rng.integers(1, 4, int(rng.integers(1, 5)))
    rows = np.arange(int(np.sum(parts)) * 2).reshape(-1, 2)
    sp = rt.split_by_parts(rows, parts)
    ctx.check("shape:parts", all(len(x) == k for x, k in zip(sp, parts)) and np.array_equal(np.vstack(sp), rows), "split_by_parts")
    tp = tuple(rng.integers(0, 9, 4).tolist())
    j = int(rng.integers(0, 5))
    ctx.check("shape:insert", rt.insert_in_tuple(tp, j, -1) == tp[:j] + (-1,) + tp[j:], "insert_in_tuple")
    # elementwise extremes
    x, y = rng.integers(-3, 4, (2, 6)).astype(float)
    for f, r in ((rt.nd_min, np.minimum), (rt.nd_max, np.maximum)):
        ctx.close("extremes", f(x.copy(), y.copy()), r(x, y), 0.0, f.__name__)
        ctx.close("extremes", f(x.copy(), 1.0), r(x, 1.0), 0.0, f.__name__)
        ctx.close("extremes", f(1.0, y.copy()), r(1.0, y), 0.0, f.__name__)
        ctx.close("extremes", f(2.0, -1.0), float(r(2.0, -1.0)), 0.0, f.__name__)
    v = float(rng.integers(-3, 4))
    fs = rt.find_similar(v, x)
    ctx.check("similar", np.array_equal(fs, np.flatnonzero(np.abs(x - v) == np.min(np.abs(x - v)))), "find_similar")
    B = rng.normal(size=(4, 2))
    sp = rt.cubic_spline(B)
    t = float(rng.uniform())
    bern = np.array([(1 - t) ** 3, 3 * t * (1 - t) ** 2, 3 * t * t * (1 - t), t ** 3])
    ctx.close("cubic", sp(t), bern @ B, 1e-13, "cubic_spline")
    cc = rt.column_concat(np.ones((3, 2)), np.array([5.0, 6.0]))
    ctx.close("columns", cc, np.c_[np.ones((3, 2)), np.full((3, 1), 5.0), np.full((3, 1), 6.0)], 0.0, "column_concat")


def primes(ctx):
    """the antiderivative of a tangent, at single parameters and at arrays of them"""
    rng = ctx.rng
    dim, deg = int(rng.integers(1, 5)), int(rng.integers(0, 5))
    C = rng.normal(size=(deg + 1, dim))
    w, A = float(rng.uniform(0.2, 4)), rng.normal(size=dim)
    Q = np.array([C[k] / (k + 1) for k in range(deg + 1)])
    poly = lambda t: sum(C[k] * t ** k for k in range(deg + 1)) + A * math.cos(w * t)
    anti = lambda t: sum(Q[k] * t ** (k + 1) for k in range(deg + 1)) + A * math.sin(w * t) / w
    a = float(rng.uniform(-2, 2)) if rng.random() < 0.5 else 0.0

    class Tangent:
        def __call__(self, t):
            return poly(t)

        def interval(self):
            return (a, a + 1)

    own = rng.random() < 0.5
    fun, t0 = (Tangent(), a) if own else (poly, 0.0)
    tr = rng.normal(size=dim) if rng.random() < 0.6 else None
    F = Prime(fun, dim=dim, translate=tr if rng.random() < 0.5 else None)
    if tr is not None:
        F.translate = tr
    off = np.zeros(dim) if tr is None else tr
    ctx.state("prime", dim, deg, own, tr is None)
    T = rng.uniform(-3, 3, int(rng.integers(1, 6)))
    given = float(rng.uniform(-2, 2))
    for start, kw in ((t0, {}), (given, {"t0": given})):
        want = np.array([anti(t) - anti(start) + off for t in T])
        for t, x in zip(T, want):
            ctx.close("prime", F(float(t), **kw), x, 1e-8, "the antiderivative at %s from %s" % (t, start))
        ctx.close("prime:array", F(T, **kw), want, 1e-8, "the antiderivative at %s from %s" % (T, start))
    d = FDM(lambda t: anti(t))
    ctx.check("prime:of difference", Prime(d) is d.prime, "the antiderivative of a difference is not its function")
    t = float(rng.uniform(-1, 1))
    ctx.close("prime:of difference", Prime(d, dim=dim, translate=anti(0.0), simplify_fdm=False)(t, t0=0.0), anti(t), 1e-4, "the integral of a difference at %s" % t)
    ctx.raises("prime:tolerance", ValueError, Prime(lambda t: np.array([1.0 if t > 0.1 else 0.0]), dim=1), 1.0, tol=1e-30)


def quiet(fn):
    def run(ctx):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(ctx)
    return run


SCENARIOS = {
    "integrals": (quiet(integrals), 300, 20000),
    "helix": (quiet(helix), 40, 1500),
    "splines": (quiet(splines), 40, 1500),
    "areas": (quiet(areas), 24, 400),
    "grids": (quiet(grids), 300, 20000),
    "primes": (quiet(primes), 200, 5000),
}
