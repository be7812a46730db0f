"""C03: derivatives, tangents, normals, curvature and frames of a curve are those of the curve it evaluates."""
import numpy as np

import gen
import ref
from mm import curve
from mmcore.geom import nurbs
from mmcore.geom.curves import bspline_utils, curve_utils
from mmcore.geom.curves._nurbs import NURBSpline as CNURBSpline
from mmcore.geom.curves.offset import OffsetCurve
from mmcore.geom.curves.cubic import PyCubicSpline
from mmcore.geom.curves.curve import TrimmedCurve, parametric_curve, CurveWrapper
from mmcore.numeric import numeric
from mmcore.numeric.algorithms.tnb import frenet_serret_frame

RULE = "one case = one generated curve (degree, knot structure, weights, domain) whose derivatives and frames are read at random, end and knot parameters"
ASSUMPTIONS = [
    "oracle: exact derivatives from the derivative recursion of the B-spline basis and the quotient rule; at a knot the derivative is that of the span to its right (of the last span at the end)",
    "domain: clamped knot vectors, positive weights; frames only where the first derivative (and for normals the curvature) is not close to zero",
    "curves defined by a plain python function are differentiated numerically by the library: compared to 1e-4 away from the ends of [0,1]",
]
TOL = 1e-8


def pick(ctx, pmin=1, **k):
    P, w, U, p = gen.curve_data(ctx.rng, pmax=6, extra=8, pmin=pmin, **k)
    ts = gen.params(ctx.rng, U, p, 5)
    ctx.state(p, len(P), ref.mults(U), bool(np.ptp(w)), U[0], P[0])
    return P, w, U, p, ts


def scaled(D, w):
    return np.asarray(D) / np.maximum(1.0, np.abs(w).max(axis=-1, keepdims=True))


def derivatives(ctx):
    P, w, U, p, ts = pick(ctx)
    c = curve(P, w, U, p)
    for t in ts:
        d = int(ctx.rng.integers(0, 6))
        D = ref.curve_ders(P, U, p, t, max(d, 2), w=w)
        n = min(d, p) + 1
        ctx.close("derivatives1", scaled(c.derivatives1(t, d), D[:n]), scaled(D[:n], D[:n]), TOL, "derivatives1(%r,%d)" % (t, d))
        ctx.close("derivatives2", scaled(c.derivatives2(t, d), D[:n]), scaled(D[:n], D[:n]), TOL, "derivatives2(%r,%d)" % (t, d))
        ctx.close("derivative", c.derivative(t), D[1], TOL, "derivative(%r)" % t)
        ctx.close("second_derivative", c.second_derivative(t), D[2], TOL, "second_derivative(%r)" % t)
    ctx.note(degree=p, rational=bool(np.ptp(w)), t=ts[0], first=ref.curve_ders(P, U, p, ts[0], 1, w=w)[1])
    # the derivative integrates to the difference of the points (a knot span at a time)
    a, b = U[p], U[-p - 1]
    kn = np.unique(U)
    k = int(ctx.rng.integers(len(kn) - 1))
    lo, hi = kn[k], kn[k + 1]
    x, g = np.polynomial.legendre.leggauss(24)
    if not np.ptp(w):
        tt = (lo + hi) / 2 + x * (hi - lo) / 2
        I = sum(gi * np.asarray(c.derivative(t)) for gi, t in zip(g, tt)) * (hi - lo) / 2
        ctx.close("fundamental-theorem", I, np.asarray(c.evaluate(hi)) - np.asarray(c.evaluate(lo)), 1e-8, "integral of the derivative over a span")


def cpts(ctx):
    P, w, U, p, ts = pick(ctx, rational=False)
    n = len(P) - 1
    c = curve(P, w, U, p)
    for t in ts:
        d = int(ctx.rng.integers(0, p + 1))
        D = ref.curve_ders(P, U, p, t, d)
        CK = np.zeros((d + 1, 3))
        nurbs.curve_derivs_alg1(n, p, U, P, t, d, CK, False)
        ctx.close("curve_derivs_alg1", scaled(CK, D), scaled(D, D), TOL, "curve_derivs_alg1")
        CK = np.zeros((d + 1, 3))
        PK = np.zeros((d + 1, p + 1, 3))
        nurbs.curve_derivs_alg2(n, p, U, P, t, d, CK, PK, False)
        ctx.close("curve_derivs_alg2", scaled(CK, D), scaled(D, D), TOL, "curve_derivs_alg2")
        # the k-th derivative is a curve of degree p-k over these control points
        k = ref.find_span(U, p, n, t)
        Q = np.asarray(c.derivative_control_points(t, d))
        for j in range(d + 1):
            row = ref.basis_row(U[j:len(U) - j], p - j, n - j, t, span=k - j)
            ctx.close("derivative_control_points", scaled(row[k - p:k + 1 - j] @ Q[j, :p - j + 1], D[j]), scaled(D[j], D[j]), TOL,
                      "derivative control points of order %d" % j)


def frames(ctx):
    P, w, U, p, ts = pick(ctx, pmin=2)
    c = curve(P, w, U, p)
    planes = []
    used = []
    for t in ts:
        D = ref.curve_ders(P, U, p, t, 2, w=w)
        n1 = np.linalg.norm(D[1])
        if n1 < 1e-2:
            continue
        T = D[1] / n1
        k = (D[2] - (D[2] @ T) * T) / n1 ** 2
        ctx.close("tangent", np.array(c.tangent(t)), T, TOL, "tangent(%r)" % t)
        ctx.close("curvature", np.array(c.curvature(t)), k, 1e-7, "curvature vector (%r)" % t)
        T2, ok = numeric.evaluate_tangent(D[1], D[2])
        ctx.close("tangent", T2, T, 1e-12, "numeric.evaluate_tangent")
        T3, K3, ok = numeric.evaluate_curvature(D[1], D[2])
        ctx.close("curvature", K3, k, 1e-10, "numeric.evaluate_curvature")
        ctx.close("tangent", T3, T, 1e-12, "numeric.evaluate_curvature tangent")
        kn = np.linalg.norm(k)
        nd = np.linalg.norm(D[2] - (D[2] @ T) * T)
        if nd < 1e-4 * (1 + np.linalg.norm(D[2])) or kn < 1e-6:
            continue
        N = k / kn
        F = np.array([D[0], T, N, np.cross(T, N)])
        ctx.close("normal", np.array(c.normal(t)), N, 1e-7, "normal(%r)" % t)
        ctx.close("frame", np.array(c.plane_at(t)), F, 1e-7, "plane_at(%r)" % t)
        ctx.close("frame", frenet_serret_frame(c.evaluate, c.derivative, c.second_derivative, t), F, 1e-7, "frenet_serret_frame")
        ctx.close("frame", numeric.plane_on_curve(D[0], T, D[2]), F, 1e-7, "plane_on_curve")
        ctx.close("normal", numeric.normal_at(D[1], D[2]), N, 1e-7, "normal_at")
        planes.append(F)
        used.append(t)
        if kn > 1e-4:
            O, R, C = numeric.circle_of_curvature(c, t)
            ctx.close("circle-of-curvature", O, D[0], TOL, "point")
            ctx.close("circle-of-curvature", R * kn, 1.0, 1e-6, "radius")
            ctx.close("circle-of-curvature", C, np.array([D[0] + N / kn, T, N, np.cross(T, N)]), 1e-5, "plane")
    ctx.state("planes", len(used))
    if used:
        ctx.close("frame", np.array(c.planes_at(np.array(used))), planes, 1e-7, "planes_at")
    else:
        ctx.skip("no regular parameter")


def scales(ctx):
    """the unit of the parameter scales derivatives and leaves the geometry alone; so does the unit of length"""
    P, w, U, p = gen.curve_data(ctx.rng, pmax=5, pmin=2, extra=8, dom=(0.0, 1.0))
    e, g = int(ctx.rng.integers(-24, 25)), int(ctx.rng.integers(-12, 13))
    k, m = 2.0 ** e, 2.0 ** g
    ts = np.array(gen.params(ctx.rng, U, p, 5))
    ctx.state("scale", p, len(P), e, g, P[0])
    a, b = curve(P, w, U, p), curve(P * m, w, U * k, p)
    for t in ts:
        D = ref.curve_ders(P, U, p, t, 3, w=w)
        n = min(3, p)
        S = np.array([m / k ** i for i in range(4)])[:n + 1, None]
        E = b.derivatives1(t * k, 3)[:n + 1] / S
        ctx.close("scale", scaled(E, D[:n + 1]), scaled(D[:n + 1], D[:n + 1]), TOL, "derivatives, knots times 2^%d, points times 2^%d" % (e, g))
        ctx.close("scale", np.asarray(b.derivative(t * k)) * (k / m), D[1], TOL, "derivative, knots times 2^%d, points times 2^%d" % (e, g))
        if np.linalg.norm(D[1]) > 1e-2:
            T = D[1] / np.linalg.norm(D[1])
            ctx.close("scale", np.array(b.tangent(t * k)), T, 1e-7, "tangent, knots times 2^%d, points times 2^%d" % (e, g))
            K = (D[2] - (D[2] @ T) * T) / (D[1] @ D[1])
            ctx.close("scale", np.array(b.curvature(t * k)) * m, K, 1e-6, "curvature, knots times 2^%d, points times 2^%d" % (e, g))


def offset(ctx):
    """the offset of a curve runs at its distance along the principal normal"""
    planar = bool(ctx.rng.integers(2))
    P, w, U, p = gen.curve_data(ctx.rng, pmax=5, pmin=3, extra=6, dim=2 if planar else 3, style="simple")
    c = curve(P, w, U, p)
    d = float(ctx.rng.choice([-1, 1]) * ctx.rng.uniform(0.05, 1.5))
    o = OffsetCurve(c, d)
    ctx.state("offset", p, len(P), planar, d, P[0])
    ctx.check("offset:interval", tuple(o.interval()) == tuple(c.interval()), "interval of the offset")
    used, W = [], []
    L = U[-1] - U[0]
    for t in gen.away_from_knots(ctx.rng, U, p, 6, 0.02):
        D = ref.curve_ders(P, U, p, t, 3, w=w)
        T = D[1] / np.linalg.norm(D[1])
        N = D[2] - (D[2] @ T) * T
        if np.linalg.norm(D[1]) * L < 0.5 or np.linalg.norm(N) < 1e-2 * (1 + np.linalg.norm(D[2])):
            continue
        N = N / np.linalg.norm(N)
        used.append(t)
        W.append(D[0] + d * N)
        ctx.close("offset", o.evaluate(t), W[-1], 1e-7, "point of the offset by %r" % d)
    if not used:
        ctx.skip("no regular parameter")
    ctx.close("offset", o.evaluate_multi(np.array(used)), W, 1e-7, "evaluate_multi of the offset")
    e = float(ctx.rng.uniform(-1, 1))
    o.offset = e
    ctx.check("offset", o.offset == e, "offset read back")
    ctx.close("offset", [o.evaluate(t) for t in used], [np.array(c.evaluate(t)) + (x - np.array(c.evaluate(t))) * (e / d) for t, x in zip(used, W)], 1e-7, "after changing the offset")


def compiled_spline(ctx):
    """the second B-spline class, compiled and with its python front end: derivatives and frames, rational too"""
    from mmcore.geom.curves.bspline import NURBSpline
    P, w, U, p, ts = pick(ctx, pmin=1)
    n = len(P) - 1
    cls = CNURBSpline if ctx.rng.random() < 0.5 else NURBSpline
    ctx.state(cls.__module__)
    c = cls(np.c_[P, w], p, U.copy())
    used, planes = [], []
    for t in ts:
        d = int(ctx.rng.integers(0, 5))
        D = ref.curve_ders(P, U, p, t, max(d, 2), w=w)
        ctx.close("spline-derivative", scaled(c.derivative(t), D[1]), scaled(D[1], D[1]), TOL, "derivative")
        ctx.close("spline-derivative", scaled(c.second_derivative(t), D[2]), scaled(D[2], D[2]), TOL, "second derivative")
        m = min(d, p) + 1
        for nm in ("derivatives1", "derivatives2"):
            ctx.close("spline-derivatives", scaled(getattr(c, nm)(t, d), D[:m]), scaled(D[:m], D[:m]), TOL, "%s(%r,%d)" % (nm, t, d))
        if not np.ptp(w):
            k = ref.find_span(U, p, n, t)
            e = min(d, p)
            Q = np.asarray(c.derivative_control_points(t, e))
            DD = ref.curve_ders(P, U, p, t, e)
            for j in range(e + 1):
                row = ref.basis_row(U[j:len(U) - j], p - j, n - j, t, span=k - j)
                ctx.close("spline-derivative-points", scaled(row[k - p:k + 1 - j] @ Q[j, :p - j + 1], DD[j]), scaled(DD[j], DD[j]), TOL, "derivative control points of order %d" % j)
        n1 = np.linalg.norm(D[1])
        if n1 < 1e-2:
            continue
        T = D[1] / n1
        k = (D[2] - (D[2] @ T) * T) / n1 ** 2
        kn = np.linalg.norm(k)
        ctx.close("spline-tangent", np.array(c.tangent(t)), T, TOL, "tangent")
        if p > 1:
            ctx.close("spline-curvature", np.array(c.curvature(t)), k, 1e-7, "curvature vector (%r)" % t)
        if p == 1 or np.linalg.norm(D[2] - (D[2] @ T) * T) < 1e-4 * (1 + np.linalg.norm(D[2])) or kn < 1e-6:
            continue
        N = k / kn
        F = np.array([D[0], T, N, np.cross(T, N)])
        ctx.close("spline-frame", np.array(c.normal(t)), N, 1e-7, "normal(%r)" % t)
        ctx.close("spline-frame", np.array(c.plane_at(t)), F, 1e-7, "plane_at(%r)" % t)
        used.append(t)
        planes.append(F)
        if kn > 1e-4 and cls is NURBSpline:
            O, R, C = c.circle_of_curvature(t)
            ctx.close("spline-circle", np.array(O), D[0], TOL, "point")
            ctx.close("spline-circle", R * kn, 1.0, 1e-6, "radius")
    if used:
        ctx.close("spline-frame", np.array(c.planes_at(np.array(used))), planes, 1e-7, "planes_at")


def reparametrized(ctx):
    """a curve read through another parametrization: points, derivatives by the new parameter, geometry of the curve itself"""
    from scipy.interpolate import interp1d
    from mmcore.geom.curves.bspline import NURBSpline
    from mmcore.geom.curves.curve import ReparametrizedCurve, ArcLengthParameterization
    rng = ctx.rng
    P, w, U, p = gen.curve_data(rng, pmax=4, extra=3, pmin=2)
    c = NURBSpline(np.c_[P, w], p, U.copy())
    a, b = c.interval()
    arc = rng.random() < 0.3
    if arc:
        r = ArcLengthParameterization(c)
        x, y = r.parametrization.x, r.parametrization.y
        ctx.close("arc-length", [x[0], x[-1]], [0.0, 1.0], 1e-12, "domain of the arc length parametrization")
        # how well these parameters divide the length is judged by C22
    else:
        k = int(rng.integers(2, 9))
        x = np.r_[0.0, np.cumsum(rng.uniform(0.2, 2.0, k - 1))] + float(rng.uniform(-2, 2))
        y = a + (b - a) * np.r_[0.0, np.cumsum(rng.uniform(0.1, 1.0, k - 1))]
        y = a + (y - a) * (b - a) / (y[-1] - a)
        y[-1] = b
        r = ReparametrizedCurve(c, interp1d(x, y))
    ctx.state(arc, p, len(P), len(x), P[0])
    ctx.close("reparametrized", r.interval(), (x[0], x[-1]), 1e-12, "interval")
    lo, hi = float(x[0]), float(x[-1])
    for t in rng.uniform(lo, hi, 5):
        t = float(t)
        i = int(np.searchsorted(x, t)) - 1
        s = (y[i + 1] - y[i]) / (x[i + 1] - x[i])
        q = min(max(y[i] + s * (t - x[i]), a), b)
        D = ref.curve_ders(P, U, p, q, 2, w=w)
        if np.min(np.abs(x - t)) < 1e-9 * (hi - lo) or np.min(np.abs(U - q)) < 1e-9 * (b - a):
            continue
        ctx.close("reparametrized", r.evaluate(t), D[0], 1e-8, "point at %r" % t)
        ctx.close("reparametrized", np.array(r.evaluate_multi(np.array([t]))), D[:1], 1e-8, "points")
        ctx.close("reparametrized-derivative", scaled(r.derivative(t), D[1] * s), scaled(D[1] * s, D[1] * s), 1e-8, "derivative at %r" % t)
        ctx.close("reparametrized-derivative", scaled(r.second_derivative(t), D[2] * s * s), scaled(D[2] * s * s, D[2] * s * s), 1e-8, "second derivative at %r" % t)
        n1 = np.linalg.norm(D[1])
        if n1 > 1e-2:
            T = D[1] / n1
            kv = (D[2] - (D[2] @ T) * T) / n1 ** 2
            ctx.close("reparametrized-geometry", np.array(r.tangent(t)), T, 1e-7, "tangent at %r" % t)
            ctx.close("reparametrized-geometry", np.array(r.curvature(t)), kv, 1e-6, "curvature at %r" % t)
            if np.linalg.norm(D[2] - (D[2] @ T) * T) > 1e-3 * (1 + np.linalg.norm(D[2])) and np.linalg.norm(kv) > 1e-4:
                N = kv / np.linalg.norm(kv)
                F = [D[0], T, N, np.cross(T, N)]
                ctx.close("reparametrized-geometry", np.array(r.normal(t)), N, 1e-6, "normal")
                ctx.close("reparametrized-geometry", np.array(r.plane_at(t)), F, 1e-6, "plane_at")
                ctx.close("reparametrized-geometry", np.array(r.planes_at(np.array([t])))[0], F, 1e-6, "planes_at")
    t0, t1 = sorted(float(t) for t in rng.uniform(lo, hi, 2))
    want = c.evaluate_length((float(np.interp(t0, x, y)), float(np.interp(t1, x, y))))
    ctx.close("reparametrized-length", r.evaluate_length((t0, t1)), want, 1e-6, "length over (%r,%r)" % (t0, t1))


def python_basis(ctx):
    P, w, U, p, ts = pick(ctx)
    n = len(P) - 1
    H = np.c_[P, w]
    for t in ts:
        for m in (bspline_utils, curve_utils):
            k = m.find_span(p, t, U)
            ctx.check("find_span", k == ref.find_span(U, p, n, t), "find_span %r" % k)
            ctx.close("calc_basis_functions", m.calc_basis_functions(k, t, p, U), ref.basis_row(U, p, n, t)[k - p:k + 1], TOL, "calc_basis_functions")
            d = int(ctx.rng.integers(0, p + 1))
            R = ref.basis_ders(U, p, n, t, d, span=k)[:, k - p:k + 1]
            ctx.close("calc_basis_function_derivatives", scaled(m.calc_basis_function_derivatives(k, t, p, d, U), R), scaled(R, R), TOL, "basis derivatives")
            q = np.array(m.calc_b_spline_point(p, U, H, t))
            ctx.close("calc_b_spline_point", q[:3] / q[3], ref.curve_point(P, w, U, p, t), TOL, "calc_b_spline_point")
            D = ref.curve_ders(P, U, p, t, d, w=w)
            G = np.array(m.calcNURBSDerivatives(p, U, H, t, d))[:d + 1]
            ctx.close("calcNURBSDerivatives", scaled(G, D), scaled(D, D), TOL, "calcNURBSDerivatives")


def python_surface_point(ctx):
    H, Uu, Uv, pu, pv = gen.surface_data(ctx.rng)
    ctx.state(pu, pv, H.shape, H[0, 0])
    E = np.concatenate([H[..., :3] / H[..., 3:], H[..., 3:]], -1)
    for u, v in zip(gen.params(ctx.rng, Uu, pu, 3), gen.params(ctx.rng, Uv, pv, 3)):
        want = ref.surface_point(H, Uu, Uv, pu, pv, u, v)
        for m in (bspline_utils, curve_utils):
            ctx.close("calc_surface_point", m.calc_surface_point(pu, pv, Uu, Uv, E, u, v), want, TOL, "calc_surface_point")
            ctx.close("calc_surface_point", m.calcSurfacePoint(pu, pv, Uu, Uv, E, u, v), want, TOL, "calcSurfacePoint")


def function_curves(ctx):
    """python curves: Bezier, arbitrary functions, trimmed and combined curves"""
    rng = ctx.rng
    B = rng.uniform(-3, 3, (4, 3))
    U = np.r_[[0.] * 4, [1.] * 4]
    ctx.state(B)
    c = PyCubicSpline(*[b.copy() for b in B])
    f = parametric_curve((0.0, 1.0))(lambda t: ref.curve_point(B, np.ones(4), U, 3, t))
    tr = TrimmedCurve(c, 0.2, 0.8)
    ctx.check("trimmed", tr.interval() == (0.2, 0.8) and tr.start == 0.2 and tr.end == 0.8, "interval of a trimmed curve")
    l, r = c.split(0.4)
    ctx.check("trimmed", l.interval() == (0.0, 0.4) and r.interval() == (0.4, 1.0), "split")
    for t in rng.uniform(0.05, 0.95, 4):
        t = float(t)
        D = ref.curve_ders(B, U, 3, t, 2)
        n1 = np.linalg.norm(D[1])
        for name, x in (("PyCubicSpline", c), ("parametric_curve", f), ("TrimmedCurve", tr)):
            ctx.close("function-curve", x.evaluate(t), D[0], 1e-12, name)
            ctx.close("function-curve", x.derivative(t), D[1], 1e-4, name + ".derivative")
            ctx.close("function-curve", x.second_derivative(t), D[2], 1e-3, name + ".second_derivative")
            if n1 > 0.3:
                T = D[1] / n1
                k = (D[2] - (D[2] @ T) * T) / n1 ** 2
                ctx.close("function-curve", np.array(x.tangent(t)), T, 1e-3, name + ".tangent")
                ctx.close("function-curve", np.array(x.curvature(t)), k, 1e-2, name + ".curvature")
        ctx.close("function-curve", c.dderivative(t), D[1], 1e-10, "dderivative")
        ctx.close("function-curve", c.dsecond_derivative(t), D[2], 1e-10, "dsecond_derivative")
        ctx.close("operators", (c + np.ones(3)).evaluate(t), D[0] + 1, 1e-12, "curve + vector")
        ctx.close("operators", (c * 2.0).evaluate(t), D[0] * 2, 1e-12, "curve * number")
        ctx.close("operators", (c - f).evaluate(t), D[0] * 0, 1e-12, "curve - curve")
        ctx.close("operators", (c / 2.0).evaluate(t), D[0] / 2, 1e-12, "curve / number")
        ctx.close("operators", (c * 2.0).derivative(t), D[1] * 2, 2e-4, "derivative of curve * number")
        if n1 > 0.3 and np.linalg.norm(k) > 0.2:
            N = k / np.linalg.norm(k)
            for name, x in (("PyCubicSpline", c), ("parametric_curve", f), ("TrimmedCurve", tr)):
                ctx.close("function-curve", np.array(x.normal(t)), N, 2e-2, name + ".normal")
                ctx.close("function-curve", np.array(x.plane_at(t)), [D[0], T, N, np.cross(T, N)], 2e-2, name + ".plane_at")
                ctx.close("function-curve", np.array(x.planes_at(np.array([t])))[0], [D[0], T, N, np.cross(T, N)], 2e-2, name + ".planes_at")
        ctx.close("operators", (c + (lambda s: np.array([s, 0., 0.]))).evaluate(t), D[0] + [t, 0, 0], 1e-12, "curve + function")
    for q in range(4):
        s, e = sorted(float(v) for v in rng.uniform(0, 1, 2))
        if q % 2:
            tr.start, tr.end = s, e
        else:
            f.set_interval((s, e))
        x = tr if q % 2 else f
        want = [ref.curve_point(B, np.ones(4), U, 3, v) for v in np.linspace(s, e, 7)]
        ctx.check("trimmed", tuple(x.interval()) == (s, e), "interval after it was set")
        ctx.close("trimmed", x.points(7), want, 1e-9, "points of a trimmed curve")
        box = np.array([x.tree.bounding_box.min_point, x.tree.bounding_box.max_point])
        ends = np.array(want)[[0, -1]]
        ctx.close("trimmed-tree", np.minimum(box[0], ends.min(0)), box[0], 1e-9, "the tree of a trimmed curve leaves out an end of it")
        ctx.close("trimmed-tree", np.maximum(box[1], ends.max(0)), box[1], 1e-9, "the tree of a trimmed curve leaves out an end of it")
    ts = rng.uniform(0, 1, 5)
    ctx.close("function-curve", c(ts), [ref.curve_point(B, np.ones(4), U, 3, t) for t in ts], 1e-12, "call")


SCENARIOS = {
    "scales": (scales, 150, 2000),
    "offset": (offset, 100, 1200),
    "derivatives": (derivatives, 700, 8000),
    "cpts": (cpts, 250, 3000),
    "frames": (frames, 500, 6000),
    "compiled_spline": (compiled_spline, 300, 3000),
    "reparametrized": (reparametrized, 60, 600),
    "python_basis": (python_basis, 120, 1200),
    "python_surface_point": (python_surface_point, 60, 600),
    "function_curves": (function_curves, 80, 800),
}
