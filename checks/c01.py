"""C01: evaluating a NURBS / B-spline curve gives the point defined by its control points, weights, knots, degree."""
import numpy as np

import gen
import ref
from mm import NURBSCurve, curve, cdata
from mmcore.geom import nurbs
from mmcore.geom.curves import deboor
from mmcore.geom.curves._nurbs import NURBSpline as CNURBSpline

RULE = "one case = one generated curve (degree, knot structure, weights, domain) or one basis-function table, evaluated at random, end, knot and next-to-knot parameters"
ASSUMPTIONS = [
    "oracle: Cox-de Boor recursion over all basis functions in double precision, agreement to 1e-9 relative",
    "domain: non-decreasing clamped (or make_periodic) knot vectors, interior multiplicity <= degree, positive weights, parameters inside [U[p], U[n+1]]",
]
TOL = 1e-9


def want(P, w, U, p, ts):
    return np.array([ref.curve_point(P, w, U, p, t) for t in ts])


def pick(ctx, **k):
    P, w, U, p = gen.curve_data(ctx.rng, pmax=6, extra=10, **k)
    ts = gen.params(ctx.rng, U, p, 6)
    ctx.state(p, len(P), ref.mults(U), bool(np.ptp(w)), U[0], P[0])
    return P, w, U, p, ts


def curve_eval(ctx):
    P, w, U, p, ts = pick(ctx)
    c = curve(P, w, U, p)
    W = want(P, w, U, p, ts)
    ctx.note(degree=p, n=len(P), knots=U, rational=bool(np.ptp(w)), t=ts[0], point=W[0])
    a, b = c.interval()
    ctx.check("interval", a == U[0] and b == U[-1], "interval %r of knots %r" % ((a, b), (U[0], U[-1])))
    ctx.close("evaluate", [c.evaluate(t) for t in ts], W, TOL, "evaluate")
    ctx.close("evaluate", [c.evaluate(t) for t in ts], W, TOL, "evaluate, second read")
    ctx.close("evaluate_multi", c.evaluate_multi(np.array(ts)), W, TOL, "evaluate_multi")
    ctx.close("call", c(np.array(ts)), W, TOL, "__call__ on an array")
    ctx.close("call", np.asarray(c(float(ts[0]))).reshape(-1, 3)[0], W[0], TOL, "__call__ on a float")
    ctx.close("ends", np.array(c.start()), want(P, w, U, p, [a])[0], TOL, "start()")
    ctx.close("ends", np.array(c.end()), want(P, w, U, p, [b])[0], TOL, "end()")
    ctx.close("ends", np.array(c.start()), P[0], TOL, "start() is the first control point of a clamped curve")
    ctx.close("ends", np.array(c.end()), P[-1], TOL, "end() is the last control point of a clamped curve")
    k = int(ctx.rng.integers(2, 40))
    ctx.close("points", c.points(k), want(P, w, U, p, np.linspace(a, b, k)), TOL, "points(%d)" % k)
    for t, q in list(zip(ts, W))[:4]:
        e = np.asarray(c.evaluate4d(t))
        ctx.close("evaluate4d", e[:3], q, TOL, "evaluate4d")


def default_knots(ctx):
    rng = ctx.rng
    p = int(rng.integers(1, 6))
    n = int(rng.integers(p + 1, p + 12))
    P = rng.uniform(-5, 5, (n, 3))
    c = NURBSCurve(P, p)
    ctx.state(p, n)
    U = np.r_[np.zeros(p + 1), np.arange(1, n - p), np.full(p + 1, n - p)].astype(float)
    ctx.close("default-knots", c.knots, U, 1e-12, "generated knots are clamped and uniform")
    ts = gen.params(rng, U, p, 6)
    ctx.close("evaluate", [c.evaluate(t) for t in ts], want(P, np.ones(n), U, p, ts), TOL, "default knots")
    g = np.array([U[i + 1:i + p + 1].mean() for i in range(n)])
    ctx.close("greville", c.greville_abscissae, g, 1e-12, "greville abscissae")


def setters(ctx):
    """replacing points, weights or knots changes the curve to exactly the new definition"""
    P, w, U, p, ts = pick(ctx)
    c = curve(P, w, U, p)
    for t in ts:
        c.evaluate(t)
    what = ctx.rng.integers(5)
    if what == 0:
        P = P + ctx.rng.normal(size=P.shape)
        c.control_points = np.c_[P, w]
    elif what == 1:
        w = ctx.rng.uniform(0.3, 3, len(w))
        c.weights = w.copy()
    elif what == 2:
        s = 2.5
        U = U * s
        ts = [t * s for t in ts]
        c.knots = U.copy()
    elif what == 3:
        P = P[::-1] * 1.5
        w = np.ones(len(w))
        c.control_points = P
    else:
        P, w, U, p2, ts = pick(ctx, pmin=p) if False else (P * 2, w[::-1].copy(), U + 1.0, p, [t + 1.0 for t in ts])
        c.set(np.ascontiguousarray(np.c_[P, w]), U.copy())
    ctx.state("set", int(what))
    W = want(P, w, U, p, ts)
    ctx.close("evaluate-after-set", [c.evaluate(t) for t in ts], W, TOL, "after setter %d" % what)
    ctx.close("evaluate-after-set", c.evaluate_multi(np.array(ts)), W, TOL, "evaluate_multi after setter %d" % what)
    ctx.check("interval", c.interval() == (U[0], U[-1]), "interval after setter %d" % what)
    ctx.close("control-points", c.control_points, P, 1e-15, "control_points")
    ctx.close("control-points", c.weights, w, 1e-15, "weights")
    ctx.close("control-points", c.knots, U, 1e-15, "knots")


def periodic(ctx):
    rng = ctx.rng
    p = int(rng.integers(1, 5))
    n = int(rng.integers(p + 2, p + 9))
    P = rng.uniform(-5, 5, (n, 3))
    w = rng.uniform(0.4, 2.5, n) if rng.integers(2) else np.ones(n)
    if p > 1 and rng.integers(3) == 0:
        P[-1], w[-1] = P[p - 1], w[p - 1]
    how = int(rng.integers(2))
    from mmcore.geom.curves.bspline import NURBSpline
    cls = [NURBSCurve, NURBSCurve, CNURBSpline, NURBSpline][int(rng.integers(4))]
    if how:
        c = cls(np.c_[P, w], p, None, True)
    else:
        c = cls(np.c_[P, w], p)
        c.evaluate(0.5)
        c.make_periodic()
    ctx.state(p, n, how, cls.__module__, P[0])
    H = np.r_[np.c_[P, w], np.c_[P, w][:p]]
    U = np.arange(n + 2 * p + 1) - float(p)
    ctx.close("periodic-data", np.array(c._control_points), H, 1e-12, "wrapped control points")
    ctx.close("periodic-data", c.knots, U, 1e-12, "periodic knots")
    ctx.check("is_periodic", bool(c.is_periodic()), "is_periodic()")
    a, b = U[p], U[-p - 1]
    ctx.close("periodic-interval", [float(x) for x in c.interval()], [a, b], 0, "interval of a periodic curve of degree %d on %d points" % (p, n))
    ts = list(rng.uniform(a, b, 6)) + [a, b]
    W = want(H[:, :3], H[:, 3], U, p, ts)
    ctx.close("evaluate-periodic", [c.evaluate(t) for t in ts], W, TOL, "periodic curve")
    ctx.close("evaluate-periodic", c.evaluate_multi(np.array(ts)), W, TOL, "periodic curve")
    # closed: the same point at both ends of the period
    e = 1e-9
    ctx.close("periodic-closes", c.evaluate(b - e), c.evaluate(a + 0.0), 1e-6, "end meets start")
    # a parameter beyond the interval stands for the one a whole number of periods away
    for t in ts[:3]:
        k = int(rng.choice([-3, -1, 1, 2, 40]))
        q = t + k * (b - a)
        if abs(q - np.round(q)) < 1e-6:
            continue
        ctx.close("periodic-wraps", c.evaluate(q), want(H[:, :3], H[:, 3], U, p, [t])[0], 1e-7, "the point at %r, %d periods from %r" % (q, k, t))
        if p > 1:
            D = ref.curve_ders(H[:, :3], U, p, t, 1, w=H[:, 3])[1]
            ctx.close("periodic-wraps", c.derivative(q), D, 1e-6, "the derivative at %r, %d periods from %r" % (q, k, t))
    if P.shape[0] > p and not np.allclose(H[0], H[-1]):
        c.make_open()
        ctx.close("make_open", np.array(c._control_points), np.c_[P, w], 1e-12, "make_open restores the control points")
        U0 = np.r_[np.zeros(p + 1), np.arange(1, n - p), np.full(p + 1, n - p)].astype(float)
        ts = gen.params(rng, U0, p, 4)
        ctx.close("make_open", [c.evaluate(t) for t in ts], want(P, w, U0, p, ts), TOL, "evaluate after make_open")


def basis(ctx):
    P, w, U, p, ts = pick(ctx)
    n = len(P) - 1
    for t in ts:
        k = nurbs.find_span(n, p, t, U, False)
        ctx.check("find_span", k == ref.find_span(U, p, n, t), "find_span(%r)=%r, expected %r" % (t, k, ref.find_span(U, p, n, t)), U=U)
        k = ref.find_span(U, p, n, t)
        row = ref.basis_row(U, p, n, t)
        N = np.array(nurbs.basis_functions(k, t, p, U))
        ctx.close("basis_functions", N, row[k - p:k + 1], TOL, "basis functions")
        ctx.close("partition-of-unity", N.sum(), 1.0, TOL, "sum")
        ctx.check("non-negative", bool(np.all(N >= -1e-12)), "negative basis function %r" % N)
        A = np.array(nurbs.all_basis_funs(k, t, p, U))
        for q in range(p + 1):
            r = ref.basis_row(U, q, len(U) - q - 2, t, span=k)
            ctx.close("all_basis_funs", A[:q + 1, q], r[k - q:k + 1], TOL, "all_basis_funs degree %d" % q)
        D = np.array(nurbs.ders_basis_funs(k, t, p, min(p, 3), U))
        R = ref.basis_ders(U, p, n, t, min(p, 3), span=k)[:, k - p:k + 1]
        scale = np.maximum(1.0, np.abs(R).max(axis=1, keepdims=True))
        ctx.close("ders_basis_funs", D / scale, R / scale, 1e-8, "basis derivatives")
    ctx.close("greville", np.array(nurbs.greville_abscissae(U, p)), [U[i + 1:i + p + 1].mean() for i in range(n + 1)], 1e-12, "greville")


def alternatives(ctx):
    """the other evaluators of the package agree with the definition"""
    P, w, U, p, ts = pick(ctx)
    ti = [t for t in ts if t < U[-1]]
    W = want(P, w, U, p, ti)
    g = [np.array(deboor.evaluate_nurbs(t, P, U, w, p)) for t in ti]
    ctx.close("deboor.evaluate_nurbs", g, W, TOL, "deboor")
    ctx.close("deboor.evaluate_nurbs_multi", np.array(deboor.evaluate_nurbs_multi(np.array(ti), P, U, w, p)), W, TOL, "deboor multi")
    for t in ti[:3]:
        row = ref.basis_row(U, p, len(P) - 1, t)
        ctx.close("deboor.deboor", [deboor.deboor(U, t, i, p) for i in range(len(P))], row, TOL, "deboor basis")
    c = CNURBSpline(np.c_[P, w], p, U.copy())
    ctx.close("_nurbs.NURBSpline", [c.evaluate(t) for t in ts], want(P, w, U, p, ts), TOL, "_nurbs.NURBSpline")
    ctx.close("_nurbs.NURBSpline", c.evaluate_multi(np.array(ts)), want(P, w, U, p, ts), TOL, "_nurbs.NURBSpline multi")


def python_bspline(ctx):
    from mmcore.geom.curves.bspline import NURBSpline
    rng = ctx.rng
    P, w, U, p = gen.curve_data(rng, pmax=4, extra=5, style="simple", dom=(0.0, None))
    ts = [t for t in gen.params(rng, U, p, 4)]
    c = NURBSpline(P.copy(), degree=p, knots=U.copy())
    ctx.state(p, len(P), U, P[0])
    ctx.close("bspline.NURBSpline", [np.array(c(t)) for t in ts if t < U[-1]], want(P, np.ones(len(P)), U, p, [t for t in ts if t < U[-1]]), 1e-8, "bspline.NURBSpline")


def cubic(ctx):
    from mmcore.geom.curves._cubic import CubicSpline
    rng = ctx.rng
    B = rng.uniform(-5, 5, (4, 3))
    c = CubicSpline(*[x.copy() for x in B])
    ctx.state(B)
    U = np.r_[[0.] * 4, [1.] * 4]
    ts = list(rng.uniform(0, 1, 5)) + [0.0, 1.0]
    ctx.close("cubic", [np.array(c.evaluate(t)) for t in ts], want(B, np.ones(4), U, 3, ts), TOL, "cubic Bezier")
    for t in ts:
        D = ref.curve_ders(B, U, 3, t, 2)
        ctx.close("cubic-derivative", c.derivative(t), D[1], TOL, "cubic derivative")
        ctx.close("cubic-derivative", c.second_derivative(t), D[2], TOL, "cubic second derivative")


def open_knots(ctx):
    """knot vectors without multiple ends: the domain lies inside the vector"""
    P, w, _, p = gen.curve_data(ctx.rng, pmax=6, extra=10)
    U = gen.open_knots(ctx.rng, len(P), p)
    a, b = float(U[p]), float(U[len(P)])
    ctx.state(p, len(P), P[0], U[0])
    ts = gen.params(ctx.rng, U, p, 6)
    W = want(P, w, U, p, ts)
    c = curve(P, w, U, p)
    ctx.close("interval", c.interval(), (a, b), 1e-14, "interval of open knots")
    ctx.close("evaluate", [c.evaluate(t) for t in ts], W, TOL, "evaluate (open knots)")
    ctx.close("evaluate_multi", c.evaluate_multi(np.array(ts)), W, TOL, "evaluate_multi (open knots)")
    ctx.close("ends", [np.array(c.start()), np.array(c.end())], want(P, w, U, p, [a, b]), TOL, "ends (open knots)")
    k = int(ctx.rng.integers(2, 20))
    ctx.close("points", c.points(k), want(P, w, U, p, np.linspace(a, b, k)), TOL, "points(%d) (open knots)" % k)
    for t in ts:
        s = nurbs.find_span(len(P) - 1, p, t, U, False)
        ctx.check("find_span", U[s] <= t <= U[s + 1] and p <= s < len(P) and U[s] < U[s + 1], "span %d of %r in %r" % (s, t, U))
    for t in (a - 0.1 * (b - a), np.nextafter(a, -np.inf), b + 0.1 * (b - a)):     # before and after the domain: the end pieces
        s = nurbs.find_span(len(P) - 1, p, t, U, False)
        ctx.check("find_span", s == (p if t < a else len(P) - 1), "span %d of %r outside %r" % (s, t, (a, b)))


def scales(ctx):
    """nothing about a curve depends on the unit of its parameter: tiny, huge and very uneven domains"""
    P, w, U, p = gen.curve_data(ctx.rng, pmax=5, extra=8, dom=(0.0, 1.0))
    ts = np.array(gen.params(ctx.rng, U, p, 6))
    e = int(ctx.rng.integers(-34, 26))
    k = 2.0 ** e
    ctx.state("scale", p, len(P), e, P[0])
    W = want(P, w, U, p, ts)
    c = curve(P, w, U * k, p)
    ctx.close("scale", [c.evaluate(t * k) for t in ts], W, TOL, "evaluate, knots times 2^%d" % e)
    ctx.close("scale", c.evaluate_multi(ts * k), W, TOL, "evaluate_multi, knots times 2^%d" % e)
    m = int(ctx.rng.integers(2, 20))
    ctx.close("scale", c.points(m), want(P, w, U, p, np.linspace(0, 1, m)), 1e-7, "points, knots times 2^%d" % e)
    if len(P) > p + 1:      # one span many orders shorter than the others, at an end or inside
        V = U.copy()
        j = [p, len(P) - 1, int(ctx.rng.integers(p, len(P)))][int(ctx.rng.integers(3))]
        if V[j + 1] > V[j]:
            h = 10.0 ** ctx.rng.uniform(-9, -3)
            V[j + 1:] = V[j] + h + (V[j + 1:] - V[j + 1])
            x = np.r_[gen.params(ctx.rng, V, p, 3), V[j] + h * ctx.rng.uniform(0, 1, 4)]
            x = np.clip(x, V[p], V[len(P)])
            W = want(P, w, V, p, x)
            c = curve(P, w, V, p)
            ctx.close("short-span", [c.evaluate(t) for t in x], W, 1e-8, "evaluate, a span of length %.1e" % h)
            ctx.close("short-span", c.evaluate_multi(x), W, 1e-8, "evaluate_multi, a span of length %.1e" % h)


SCENARIOS = {
    "scales": (scales, 150, 2000),
    "open_knots": (open_knots, 120, 1500),
    "curve_eval": (curve_eval, 300, 4000),
    "default_knots": (default_knots, 80, 800),
    "setters": (setters, 120, 1500),
    "periodic": (periodic, 240, 2400),
    "basis": (basis, 100, 1200),
    "alternatives": (alternatives, 100, 1200),
    "python_bspline": (python_bspline, 30, 300),
    "cubic": (cubic, 40, 400),
}
