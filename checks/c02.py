"""C02: evaluating a surface gives the point its definition prescribes."""
import numpy as np

import gen
import ref
from mm import NURBSSurface, curve, surf, sdata
from mmcore.geom import nurbs, parametric
from mmcore.geom import surfaces as pysurf
from mmcore.geom.primitives import Cylinder
from mmcore.geom.curves._cubic import CubicSpline

RULE = "one case = one generated surface (degrees, knot structure, weights, domain or construction) evaluated at interior, border, corner and knot parameters"
ASSUMPTIONS = [
    "oracle: tensor product of Cox-de Boor basis functions on homogeneous control points; closed forms for ruled, bilinear, Coons, cylinder surfaces",
    "domain: clamped knot vectors, positive weights, parameters inside the domain; NURBSSurface control points with 4 columns are homogeneous (x*w, y*w, z*w, w)",
]
TOL = 1e-9


def uvs_for(rng, Uu, Uv, pu, pv, k=6):
    us = gen.params(rng, Uu, pu, k)
    vs = gen.params(rng, Uv, pv, k)
    out = [(rng.choice(us), rng.choice(vs)) for _ in range(k)]
    a, b, c, d = Uu[0], Uu[-1], Uv[0], Uv[-1]
    out += [(a, c), (b, c), (a, d), (b, d), (a, rng.choice(vs)), (b, rng.choice(vs)), (rng.choice(us), c), (rng.choice(us), d)]
    return np.array(out, float)


def want(H, Uu, Uv, pu, pv, uv):
    return np.array([ref.surface_point(H, Uu, Uv, pu, pv, u, v) for u, v in uv])


def pick(ctx, **k):
    H, Uu, Uv, pu, pv = gen.surface_data(ctx.rng, pmax=5, extra=6, **k)
    ctx.state(pu, pv, H.shape, ref.mults(Uu), ref.mults(Uv), H[0, 0])
    return H, Uu, Uv, pu, pv, uvs_for(ctx.rng, Uu, Uv, pu, pv)


def surface_eval(ctx):
    H, Uu, Uv, pu, pv, uv = pick(ctx)
    s = surf(H, Uu, Uv, pu, pv)
    W = want(H, Uu, Uv, pu, pv, uv)
    ctx.note(degree=(pu, pv), size=H.shape[:2], uv=uv[0], point=W[0])
    ctx.check("interval", s.interval() == ((Uu[0], Uu[-1]), (Uv[0], Uv[-1])), "interval %r" % (s.interval(),))
    ctx.close("evaluate", [s.evaluate(x.copy()) for x in uv], W, TOL, "evaluate")
    ctx.close("evaluate_v2", [s.evaluate_v2(u, v) for u, v in uv], W, TOL, "evaluate_v2")
    ctx.close("evaluate_multi", s.evaluate_multi(uv.copy()), W, TOL, "evaluate_multi")
    r = np.array([nurbs.surface_point_py(H.shape[0] - 1, pu, Uu, H.shape[1] - 1, pv, Uv, np.ascontiguousarray(H), u, v, False, False, np.zeros(4))
                  for u, v in uv])
    ctx.close("surface_point", r[:, :3], W, TOL, "surface_point_py")
    Pe = H[..., :3] / H[..., 3:]
    ctx.close("control-points", np.array(s.control_points), Pe, 1e-12, "control_points are euclidean")
    ctx.close("control-points", np.array(s.control_points_flat), Pe.reshape(-1, 3), 1e-12, "control_points_flat")
    ctx.close("control-points", s.control_points_w, H, 1e-15, "control_points_w")
    ctx.close("control-points", s.control_points_flat_w, H.reshape(-1, 4), 1e-15, "control_points_flat_w")
    ctx.check("shape", tuple(s.shape) == H.shape[:2] and tuple(s.degree) == (pu, pv), "shape/degree")


def default_knots(ctx):
    rng = ctx.rng
    pu, pv = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    nu, nv = pu + 1 + int(rng.integers(0, 6)), pv + 1 + int(rng.integers(0, 6))
    P = rng.uniform(-5, 5, (nu, nv, 3))
    s = NURBSSurface(P, (pu, pv))
    ctx.state(pu, pv, nu, nv)
    kn = lambda n, p: np.r_[np.zeros(p + 1), np.arange(1, n - p), np.full(p + 1, n - p)].astype(float)
    Uu, Uv = kn(nu, pu), kn(nv, pv)
    ctx.close("default-knots", s.knots_u, Uu, 1e-12, "knots_u")
    ctx.close("default-knots", s.knots_v, Uv, 1e-12, "knots_v")
    H = np.concatenate([P, np.ones((nu, nv, 1))], -1)
    uv = uvs_for(rng, Uu, Uv, pu, pv)
    ctx.close("evaluate", s.evaluate_multi(uv), want(H, Uu, Uv, pu, pv, uv), TOL, "default knots")
    s.knots_u = Uu * 2.0
    s.knots_v = Uv + 1.0
    uv2 = uv * np.array([2.0, 1.0]) + np.array([0.0, 1.0])
    ctx.close("evaluate-after-set", s.evaluate_multi(uv2), want(H, Uu * 2, Uv + 1, pu, pv, uv2), TOL, "after replacing the knots")
    ctx.check("interval", s.interval() == ((0.0, 2 * Uu[-1]), (1.0, Uv[-1] + 1)), "interval after replacing the knots: %r" % (s.interval(),))


def mkcurve(ctx, kind):
    rng = ctx.rng
    if kind == 0:
        B = rng.uniform(-5, 5, (4, 3))
        return CubicSpline(*[x.copy() for x in B]), (0.0, 1.0), (lambda t: ref.curve_point(B, np.ones(4), np.r_[[0.] * 4, [1.] * 4], 3, t)), B[0], B[-1]
    P, w, U, p = gen.curve_data(rng, pmax=3, extra=4)
    return curve(P, w, U, p), (float(U[0]), float(U[-1])), (lambda t: ref.curve_point(P, w, U, p, t)), P[0], P[-1]


def ruled(ctx):
    rng = ctx.rng
    k = int(rng.integers(3))
    c0, i0, f0, _, _ = mkcurve(ctx, int(k == 0))
    c1, i1, f1, _, _ = mkcurve(ctx, int(k != 2))
    ctx.state(k, i0, i1, f0(i0[0]))
    uv = np.r_[rng.uniform(0, 1, (6, 2)), [[0., 0.], [1., 0.], [0., 1.], [1., 1.]]]
    W = np.array([(1 - v) * f0(i0[0] + u * (i0[1] - i0[0])) + v * f1(i1[0] + u * (i1[1] - i1[0])) for u, v in uv])
    for cls in (parametric.Ruled, pysurf.PyRuled, pysurf.Ruled):
        s = cls(c0, c1)
        ctx.close("ruled", [s.evaluate(x.copy()) for x in uv], W, TOL, "%s.evaluate" % cls)
        ctx.close("ruled", s.evaluate_multi(uv.copy()), W, TOL, "%s.evaluate_multi" % cls)
        ctx.close("ruled", [s.evaluate_v2(float(u), float(v)) for u, v in uv], W, TOL, "%s.evaluate_v2" % cls)


def bilinear(ctx):
    rng = ctx.rng
    Q = rng.uniform(-5, 5, (4, 3))
    ctx.state(Q)
    uv = np.r_[rng.uniform(0, 1, (6, 2)), [[0., 0.], [1., 0.], [0., 1.], [1., 1.]]]
    W = np.array([(1 - u) * (1 - v) * Q[0] + u * (1 - v) * Q[1] + u * v * Q[2] + (1 - u) * v * Q[3] for u, v in uv])
    for cls in (parametric.BiLinear, pysurf.BiLinear):
        s = cls(*[q.copy() for q in Q])
        ctx.close("bilinear", [s.evaluate(x.copy()) for x in uv], W, TOL, "%s" % cls)
        ctx.close("bilinear", s.evaluate_multi(uv.copy()), W, TOL, "%s" % cls)


def coons(ctx):
    """the Coons patch interpolates its four border curves"""
    rng = ctx.rng
    C = rng.uniform(-5, 5, (4, 3))          # p00 p10 p11 p01

    def side(a, b):
        B = np.array([a, a + (b - a) / 3 + rng.normal(size=3), a + (b - a) * 2 / 3 + rng.normal(size=3), b])
        return B

    B = [side(C[0], C[1]), side(C[1], C[2]), side(C[3], C[2]), side(C[0], C[3])]
    mk = lambda b: CubicSpline(*[x.copy() for x in b])
    f = lambda b, t: ref.curve_point(b, np.ones(4), np.r_[[0.] * 4, [1.] * 4], 3, t)
    s = pysurf.Coons(*[mk(b) for b in B])
    ctx.state(C)
    for t in list(rng.uniform(0, 1, 4)) + [0.0, 1.0]:
        t = float(t)
        ctx.close("coons-border", s.evaluate(np.array([t, 0.])), f(B[0], t), TOL, "v=0")
        ctx.close("coons-border", s.evaluate(np.array([1., t])), f(B[1], t), TOL, "u=1")
        ctx.close("coons-border", s.evaluate(np.array([t, 1.])), f(B[2], t), TOL, "v=1")
        ctx.close("coons-border", s.evaluate(np.array([0., t])), f(B[3], t), TOL, "u=0")
    for u, v in rng.uniform(0, 1, (5, 2)):
        W = (1 - v) * f(B[0], u) + v * f(B[2], u) + (1 - u) * f(B[3], v) + u * f(B[1], v) - (
            (1 - u) * (1 - v) * C[0] + u * (1 - v) * C[1] + u * v * C[2] + (1 - u) * v * C[3])
        ctx.close("coons", s.evaluate(np.array([u, v])), W, TOL, "Coons interior")
        q = s.evaluate(np.array([u, v]))
        q += 1.0
        ctx.close("coons", s.evaluate(np.array([u, v])), W, TOL, "Coons after the caller changed an earlier result")
    uv = np.linspace(0, 1, 4)
    ctx.close("uv-grid", s.points((4, 4)), [s.evaluate(np.array([a, b])) for a in uv for b in uv], 1e-12, "points()")
    u = float(rng.uniform(0, 1))
    for t in (0.0, 0.4, 1.0):
        ctx.close("isoline", s.isoline_u(u).evaluate(t), s.evaluate(np.array([u, t])), TOL, "isoline_u")
        ctx.close("isoline", s.isoline_v(u).evaluate(t), s.evaluate(np.array([t, u])), TOL, "isoline_v")


def cylinder(ctx):
    rng = ctx.rng
    a = rng.uniform(-5, 5, 3)
    k = int(rng.integers(5))
    if k < 3:
        d = np.zeros(3)
        d[k] = rng.choice([-1., 1.]) * rng.uniform(0.3, 4)
    else:
        d = rng.uniform(-4, 4, 3)
    r = float(rng.uniform(0.2, 3))
    s = Cylinder(a.copy(), a + d, r)
    ctx.state(k, a, d)
    L = np.linalg.norm(d)
    (u0, u1), (v0, v1) = s.interval()
    ctx.close("cylinder-interval", [u0, u1, v0, v1], [0, 2 * np.pi, 0, L], TOL, "interval")
    for u, v in zip(rng.uniform(u0, u1, 8), rng.uniform(v0, v1, 8)):
        q = np.array(s.evaluate(np.array([u, v])))
        h = float((q - a) @ d / L)
        ctx.close("cylinder", h, v, 1e-9, "height along the axis")
        ctx.close("cylinder", np.linalg.norm(q - a - h * d / L), r, 1e-9, "distance from the axis")
        ctx.close("cylinder", s.implicit(q), 0.0, 1e-9, "implicit form vanishes on the surface")
        q2 = np.array(s.evaluate(np.array([u + np.pi, v])))
        ctx.close("cylinder", (q + q2) / 2, a + v * d / L, 1e-9, "opposite points average to the axis")
    # counter-clockwise, arc length proportional to u
    q0, q1 = (np.array(s.evaluate(np.array([u, 0.]))) for u in (0.3, 0.3 + np.pi / 2))
    ctx.close("cylinder", (q0 - a) @ (q1 - a), 0.0, 1e-9, "quarter turn")


def distance_functions(ctx):
    """CurveSurfaceEq / SurfaceSurfaceEq are the squared distance of the two evaluated points"""
    H, Uu, Uv, pu, pv, uv = pick(ctx)
    H2, Uu2, Uv2, pu2, pv2, uv2 = pick(ctx)
    P, w, U, p = gen.curve_data(ctx.rng)
    s, s2, c = surf(H, Uu, Uv, pu, pv), surf(H2, Uu2, Uv2, pu2, pv2), curve(P, w, U, p)
    e1, e2 = nurbs.CurveSurfaceEq(c, s), nurbs.SurfaceSurfaceEq(s, s2)
    for (u, v), (a, b), t in zip(uv[:5], uv2[:5], gen.params(ctx.rng, U, p, 5)):
        q, q2, r = ref.surface_point(H, Uu, Uv, pu, pv, u, v), ref.surface_point(H2, Uu2, Uv2, pu2, pv2, a, b), ref.curve_point(P, w, U, p, t)
        ctx.close("CurveSurfaceEq", e1(np.array([t, u, v])), ((q - r) ** 2).sum(), 1e-9, "CurveSurfaceEq")
        ctx.close("SurfaceSurfaceEq", e2(np.array([u, v, a, b])), ((q - q2) ** 2).sum(), 1e-9, "SurfaceSurfaceEq")


def open_knots(ctx):
    rng = ctx.rng
    H, _, _, pu, pv = gen.surface_data(rng, pmax=5, extra=6)
    Uu, Uv = gen.open_knots(rng, H.shape[0], pu), gen.open_knots(rng, H.shape[1], pv)
    ctx.state(pu, pv, H.shape, H[0, 0], Uu[0])
    s = surf(H, Uu, Uv, pu, pv)
    a, b, c, d = Uu[pu], Uu[H.shape[0]], Uv[pv], Uv[H.shape[1]]
    ctx.close("interval", np.array(s.interval()), [[a, b], [c, d]], 1e-14, "interval of open knots")
    us, vs = gen.params(rng, Uu, pu, 4), gen.params(rng, Uv, pv, 4)
    uv = np.array([(rng.choice(us), rng.choice(vs)) for _ in range(6)] + [(a, c), (b, d), (a, d), (b, c)], float)
    W = want(H, Uu, Uv, pu, pv, uv)
    ctx.close("evaluate", [s.evaluate(x.copy()) for x in uv], W, TOL, "evaluate (open knots)")
    ctx.close("evaluate_v2", [s.evaluate_v2(u, v) for u, v in uv], W, TOL, "evaluate_v2 (open knots)")
    ctx.close("evaluate_multi", s.evaluate_multi(uv.copy()), W, TOL, "evaluate_multi (open knots)")


def scales(ctx):
    """nothing about a surface depends on the units of its parameters"""
    rng = ctx.rng
    H, Uu, Uv, pu, pv, uv = pick(ctx)
    Uu, Uv = (Uu - Uu[0]) / (Uu[-1] - Uu[0]), (Uv - Uv[0]) / (Uv[-1] - Uv[0])
    uv = uvs_for(rng, Uu, Uv, pu, pv)
    e = rng.integers(-34, 26, 2)
    k = 2.0 ** e
    s = surf(H, Uu * k[0], Uv * k[1], pu, pv)
    W = want(H, Uu, Uv, pu, pv, uv)
    ctx.close("scale", [s.evaluate(x * k) for x in uv], W, TOL, "evaluate, knots times 2^%s" % e)
    ctx.close("scale", [s.evaluate_v2(*(x * k)) for x in uv], W, TOL, "evaluate_v2, knots times 2^%s" % e)
    ctx.close("scale", s.evaluate_multi(uv * k), W, TOL, "evaluate_multi, knots times 2^%s" % e)
    V = [Uu.copy(), Uv.copy()]
    d = int(rng.integers(2))
    n, p = H.shape[d], (pu, pv)[d]
    j = [p, n - 1, int(rng.integers(p, n))][int(rng.integers(3))]
    if n > p + 1 and V[d][j + 1] > V[d][j]:
        h = 10.0 ** rng.uniform(-9, -3)
        V[d][j + 1:] = V[d][j] + h + (V[d][j + 1:] - V[d][j + 1])
        x = uvs_for(rng, V[0], V[1], pu, pv, 4)
        x[:4, d] = np.clip(V[d][j] + h * rng.uniform(0, 1, 4), V[d][p], V[d][n])
        s = surf(H, V[0], V[1], pu, pv)
        W = want(H, V[0], V[1], pu, pv, x)
        ctx.close("short-span", [s.evaluate(y.copy()) for y in x], W, 1e-8, "evaluate, a span of length %.1e" % h)
        ctx.close("short-span", s.evaluate_multi(x.copy()), W, 1e-8, "evaluate_multi, a span of length %.1e" % h)


SCENARIOS = {
    "scales": (scales, 150, 2000),
    "open_knots": (open_knots, 120, 1500),
    "surface_eval": (surface_eval, 500, 6000),
    "default_knots": (default_knots, 150, 1500),
    "ruled": (ruled, 150, 1500),
    "bilinear": (bilinear, 60, 600),
    "coons": (coons, 100, 1000),
    "cylinder": (cylinder, 150, 1500),
    "distance_functions": (distance_functions, 150, 1500),
}
