"""C04: derivatives, normals and tangent frames of a surface are those of the surface it evaluates."""
from math import comb

import numpy as np

import gen
from mmcore.numeric import numeric
import ref
from mm import curve, surf
from mmcore.geom import nurbs, parametric
from mmcore.geom import surfaces as pysurf
from mmcore.geom.curves._cubic import CubicSpline
from mmcore.geom.evaluator import surface_evaluator as SE
from mmcore.geom.primitives import Cylinder

RULE = "one case = one generated surface (NURBS, ruled, bilinear, cylinder or analytic callback) whose derivatives and frames are read at interior, border and corner parameters"
ASSUMPTIONS = [
    "oracle: exact partial derivatives (basis recursion + quotient rule, or closed form)",
    "derivative_u/v, second_derivative_* and normal of NURBSSurface are finite differences with step 1e-3 in the code under test: compared within the truncation error bound computed from the exact higher derivatives, away from knots",
    "normals and frames only where the exact tangent plane is well defined",
]
H = 1e-3


def interior(rng, U, p, k):
    """parameters whose +-2.5e-3 stencil stays inside one span (the ends of the domain included one-sidedly)"""
    kn = np.unique(U)
    sp = [(x, y) for x, y in zip(kn[:-1], kn[1:]) if y - x > 1.2e-2]
    out = []
    for _ in range(k if sp else 0):
        a, b = sp[int(rng.integers(len(sp)))]
        out.append(float(rng.uniform(a + 4e-3, b - 4e-3)))
    return out


def nurbs_exact(ctx):
    rng = ctx.rng
    Hm, Uu, Uv, pu, pv = gen.surface_data(rng, pmax=5, extra=5)
    nu, nv = Hm.shape[:2]
    ctx.state(pu, pv, Hm.shape, ref.mults(Uu), ref.mults(Uv), Hm[0, 0])
    flat = np.ascontiguousarray(Hm.reshape(-1, 4))
    d = int(rng.integers(1, 4))
    for u, v in zip(gen.params(rng, Uu, pu, 4), gen.params(rng, Uv, pv, 4)):
        W = ref.surface_ders(Hm, Uu, Uv, pu, pv, u, v, d)
        Bu, Bv = ref.basis_ders(Uu, pu, nu - 1, u, d), ref.basis_ders(Uv, pv, nv - 1, v, d)
        B = np.einsum("ki,lj,ijc->klc", Bu, Bv, Hm)
        M = np.einsum("ki,lj,ijc->klc", np.abs(Bu), np.abs(Bv), np.abs(Hm))
        S = np.asarray(nurbs.surface_derivatives_py((pu, pv), Uu, Uv, flat, (nu, nv), float(u), float(v), d))
        R = np.asarray(nurbs.rat_surface_derivs_py(S, d))
        # how the quotient rule amplifies rounding: E holds the sum of the magnitudes of everything it adds
        E = np.zeros((d + 1, d + 1))
        for k in range(d + 1):
            for l in range(d + 1 - k):
                t = M[k, l].max()
                for i in range(k + 1):
                    for j in range(l + 1):
                        if i or j:
                            t += comb(k, i) * comb(l, j) * M[i, j, 3] * E[k - i, l - j]
                E[k, l] = t / B[0, 0, 3]
        for k in range(d + 1):
            for l in range(d + 1 - k):
                s = max(1.0, M[k, l].max())
                ctx.close("surface_derivatives", S[k, l] / s, B[k, l] / s, 1e-8, "homogeneous derivative (%d,%d)" % (k, l))
                s = max(1.0, E[k, l])
                ctx.close("rat_surface_derivs", R[k, l] / s, W[k, l] / s, 1e-9, "rational derivative (%d,%d)" % (k, l))
    ctx.note(degree=(pu, pv), order=d)


def nurbs_cpts(ctx):
    rng = ctx.rng
    Hm, Uu, Uv, pu, pv = gen.surface_data(rng, rational=False)
    nu, nv = Hm.shape[:2]
    ctx.state(pu, pv, Hm.shape, Hm[0, 0])
    d = int(rng.integers(1, 4))
    du, dv = min(pu, d), min(pv, d)
    for u, v in zip(gen.params(rng, Uu, pu, 3), gen.params(rng, Uv, pv, 3)):
        a, b = ref.find_span(Uu, pu, nu - 1, u), ref.find_span(Uv, pv, nv - 1, v)
        rs, ss = np.array([a - pu, a], dtype=np.int32), np.array([b - pv, b], dtype=np.int32)
        PKL = np.zeros((du + 1, dv + 1, pu + 1, pv + 1, 3))
        nurbs.surface_deriv_cpts(3, np.array([pu, pv], dtype=np.int32), Uu, Uv, np.ascontiguousarray(Hm[..., :3].reshape(-1, 3)),
                                 np.array([nu, nv], dtype=np.int32), rs, ss, d, PKL)
        S = ref.surface_ders(Hm, Uu, Uv, pu, pv, u, v, d)
        for k in range(du + 1):
            for l in range(min(dv, d - k) + 1):
                Nu = ref.basis_row(Uu[k:len(Uu) - k], pu - k, nu - k - 1, u, span=a - k)
                Nv = ref.basis_row(Uv[l:len(Uv) - l], pv - l, nv - l - 1, v, span=b - l)
                q = np.einsum("i,j,ijd->d", Nu[a - pu:a - k + 1], Nv[b - pv:b - l + 1], PKL[k, l, :pu - k + 1, :pv - l + 1])
                s = max(1.0, np.abs(S[k, l]).max())
                ctx.close("surface_deriv_cpts", q / s, S[k, l] / s, 1e-8, "control points of derivative (%d,%d)" % (k, l))


def fd_bounds(f3, h, extra=1.0):
    """truncation bounds for first and second differences from the exact third-order table f3[k,l]"""
    n = lambda k, l: np.abs(f3[k, l]).max()
    b1u = h * (n(2, 0) + h * n(3, 0)) * extra + 1e-8
    b1v = h * (n(0, 2) + h * n(0, 3)) * extra + 1e-8
    return b1u, b1v


def check_fd(ctx, name, s, ders, u, v, dirs=(1, 1)):
    """first and second derivatives, normal and frame of `s` at (u,v) against the exact table ders(u,v)[k,l], k+l<=4"""
    uv = np.array([u, v])
    D = ders(u, v)
    near = [D]
    for a in (-2.2 * H, 0.0, 2.2 * H):
        for b in (-2.2 * H, 0.0, 2.2 * H):
            if a or b:
                near.append(ders(u + a, v + b))
    m = np.max([np.abs(x).max(axis=-1) for x in near], axis=0)
    tu, tv = H * m[2, 0] + 1e-7, H * m[0, 2] + 1e-7

    def within(mon, got, want, tol, what):
        e = float(np.max(np.abs(np.asarray(got) - want)))
        ctx.check(mon, e <= tol, "%s %s at (%r,%r): error %.3g, bound %.3g" % (name, what, u, v, e, tol), got=np.asarray(got), want=want)

    within("derivative_u", s.derivative_u(uv.copy()), D[1, 0], tu, "derivative_u")
    within("derivative_v", s.derivative_v(uv.copy()), D[0, 1], tv, "derivative_v")
    dd = np.asarray(s.derivatives(uv.copy()))
    within("derivatives", dd[0], D[1, 0], H * H * m[3, 0] + 1e-7, "derivatives u")
    within("derivatives", dd[1], D[0, 1], H * H * m[0, 3] + 1e-7, "derivatives v")
    slack = 1e-5
    within("second_derivative", s.second_derivative_uu(uv.copy()), D[2, 0], 3 * H * m[3, 0] + slack, "second_derivative_uu")
    within("second_derivative", s.second_derivative_vv(uv.copy()), D[0, 2], 3 * H * m[0, 3] + slack, "second_derivative_vv")
    within("second_derivative", s.second_derivative_uv(uv.copy()), D[1, 1], 3 * H * (m[2, 1] + m[1, 2]) + slack, "second_derivative_uv")
    X = np.cross(D[1, 0], D[0, 1])
    nu, nv, nx = np.linalg.norm(D[1, 0]), np.linalg.norm(D[0, 1]), np.linalg.norm(X)
    rel = (tu / max(nu, 1e-12) + tv / max(nv, 1e-12))
    if nu < 0.05 or nv < 0.05 or nx < 0.2 * nu * nv or rel > 0.05:
        return 0
    N = X / nx
    tol = 20 * rel + 1e-6
    n = np.asarray(s.normal(uv.copy()))
    within("normal", n / np.linalg.norm(n), N, tol, "direction of normal")
    F = np.asarray(s.plane_at(uv.copy()))
    T = D[1, 0] / nu
    within("plane_at", F[0], D[0, 0], 1e-9, "origin of plane_at")
    within("plane_at", F[1], T, tol, "x axis of plane_at")
    within("plane_at", F[2], np.cross(N, T), tol, "y axis of plane_at")
    within("plane_at", F[3], N, tol, "normal of plane_at")
    ctx.close("plane_at", F[1:] @ F[1:].T, np.eye(3), 1e-9, "%s plane_at axes are orthonormal" % name)
    return 1


def nurbs_fd(ctx):
    rng = ctx.rng
    Hm, Uu, Uv, pu, pv = gen.surface_data(rng, pmax=4, extra=3, style="uniform", dom=[(0., 1.), (0., None), (-2., 5.), (3., 2.)][int(rng.integers(4))],
                                          height=2.0 if rng.integers(2) else None)
    ctx.state(pu, pv, Hm.shape, Uu[0], Uu[-1], Hm[0, 0])
    s = surf(Hm, Uu, Uv, pu, pv)
    f = lambda u, v: ref.surface_ders(Hm, Uu, Uv, pu, pv, u, v, 4)
    k = 0
    us, vs = interior(rng, Uu, pu, 3), interior(rng, Uv, pv, 3)
    if not us or not vs:
        ctx.skip("spans too short for the stencil")
    for u, v in zip(us, vs):
        k += check_fd(ctx, "NURBSSurface", s, f, u, v)
    ctx.state("frames", k)
    uv = np.array(list(zip(us, vs)))
    ctx.close("normal_multi", s.normal_multi(uv), [s.normal(x.copy()) for x in uv], 1e-12, "normal_multi")
    # at the border of the domain the stencil is one sided; only the normal derivative direction matters there
    for u, v in [(Uu[0], vs[0]), (Uu[-1], vs[0]), (us[0], Uv[0]), (us[0], Uv[-1])]:
        D = ref.surface_ders(Hm, Uu, Uv, pu, pv, u, v, 3)
        m = np.abs(D).max(axis=-1)
        for got, want, tol, what in ((s.derivative_u(np.array([u, v])), D[1, 0], 3 * H * (m[2, 0] + H * m[3, 0]) + 1e-6, "derivative_u"),
                                     (s.derivative_v(np.array([u, v])), D[0, 1], 3 * H * (m[0, 2] + H * m[0, 3]) + 1e-6, "derivative_v")):
            e = float(np.abs(np.asarray(got) - want).max())
            ctx.check("border-derivative", e <= tol, "%s at (%r,%r): error %.3g, bound %.3g" % (what, u, v, e, tol))
    # second derivatives next to the ends, where the stencil is moved inwards
    q = float(rng.uniform(0, 4e-3))
    for u, v in [(Uu[0] + q, Uv[0] + q), (Uu[-1] - q, Uv[-1] - q)]:
        D = ref.surface_ders(Hm, Uu, Uv, pu, pv, u, v, 4)
        m = np.abs(D).max(axis=-1)
        for got, want, tol, what in ((s.second_derivative_uu(np.array([u, v])), D[2, 0], 8 * H * (m[3, 0] + H * m[4, 0]) + 1e-5, "second_derivative_uu"),
                                     (s.second_derivative_vv(np.array([u, v])), D[0, 2], 8 * H * (m[0, 3] + H * m[0, 4]) + 1e-5, "second_derivative_vv")):
            e = float(np.abs(np.asarray(got) - want).max())
            ctx.check("border-derivative", e <= tol, "%s at (%r,%r): error %.3g, bound %.3g" % (what, u, v, e, tol))


def ruled(ctx):
    rng = ctx.rng
    data = []
    for _ in range(2):
        P, w, U, p = gen.curve_data(rng, pmax=4, extra=3, pmin=2, style="uniform", dom=[(0., 1.), (0., None), (-2., 5.), (3., 2.)][int(rng.integers(4))])
        data.append((P, w, U, p))
    c0, c1 = (curve(*x) for x in data)
    ctx.state([x[3] for x in data], [len(x[0]) for x in data], data[0][0][0])

    def side(i, u):
        P, w, U, p = data[i]
        L = U[-1] - U[0]
        D = ref.curve_ders(P, U, p, U[0] + u * L, 4, w=w)
        return np.array([D[k] * L ** k for k in range(5)])

    def f(u, v):
        A, B = side(0, u), side(1, u)
        out = np.zeros((5, 5, 3))
        for k in range(5):
            out[k, 0] = (1 - v) * A[k] + v * B[k]
            out[k, 1] = B[k] - A[k]
        return out

    kn = np.unique(np.r_[(data[0][2] - data[0][2][0]) / (data[0][2][-1] - data[0][2][0]), (data[1][2] - data[1][2][0]) / (data[1][2][-1] - data[1][2][0])])
    us = interior(rng, kn, 0, 3)
    if not us:
        ctx.skip("spans too short")
    for cls in (parametric.Ruled, pysurf.PyRuled):
        s = cls(c0, c1)
        for u in us:
            v = float(rng.uniform(0.05, 0.95))
            check_fd(ctx, cls.__name__, s, f, u, v)
            # these two are analytic
            D = f(u, v)
            ctx.close("ruled-exact", s.derivative_u(np.array([u, v])), D[1, 0], 1e-8, "derivative_u")
            ctx.close("ruled-exact", s.derivative_v(np.array([u, v])), D[0, 1], 1e-8, "derivative_v")
            ctx.close("ruled-exact", s.second_derivative_uu(np.array([u, v])), D[2, 0], 1e-8, "second_derivative_uu")
            ctx.close("ruled-exact", s.second_derivative_vv(np.array([u, v])), D[0, 2], 1e-8, "second_derivative_vv")


def bilinear(ctx):
    rng = ctx.rng
    Q = np.array([[0, 0, 0], [4, 0, 0], [4, 4, 0], [0, 4, 0]]) + rng.uniform(-1.2, 1.2, (4, 3))
    ctx.state(Q)

    def f(u, v):
        out = np.zeros((5, 5, 3))
        out[0, 0] = (1 - u) * (1 - v) * Q[0] + u * (1 - v) * Q[1] + u * v * Q[2] + (1 - u) * v * Q[3]
        out[1, 0] = (1 - v) * (Q[1] - Q[0]) + v * (Q[2] - Q[3])
        out[0, 1] = (1 - u) * (Q[3] - Q[0]) + u * (Q[2] - Q[1])
        out[1, 1] = Q[0] - Q[1] + Q[2] - Q[3]
        return out

    for cls in (parametric.BiLinear, pysurf.BiLinear):
        s = cls(*[q.copy() for q in Q])
        for u, v in rng.uniform(0.02, 0.98, (4, 2)):
            check_fd(ctx, str(cls), s, f, float(u), float(v))


def trig(A):
    """S = sum A[i] * basis, with exact partials to order 4"""
    def f(u, v):
        out = np.zeros((5, 5, 3))
        for c, (a, b, ph, amp) in enumerate(A):
            for k in range(5):
                for l in range(5):
                    out[k, l, c] = amp * a ** k * b ** l * np.sin(a * u + b * v + ph + (k + l) * np.pi / 2)
        for k in range(5):
            pass
        out[0, 0, 0] += 3 * u
        out[1, 0, 0] += 3
        out[0, 0, 1] += 3 * v
        out[0, 1, 1] += 3
        return out
    return f


class Analytic(pysurf.Surface):
    def __init__(self, f):
        self._f = f
        super().__init__()

    def evaluate(self, uv):
        return self._f(uv[0], uv[1])[0, 0]


def evaluator(ctx):
    """the compiled evaluator differentiates any callback; the python Surface class is built on it"""
    rng = ctx.rng
    A = [(rng.uniform(-2, 2), rng.uniform(-2, 2), rng.uniform(0, 6), rng.uniform(0.2, 1)) for _ in range(3)]
    ctx.state(A)
    f = trig(A)
    cb = lambda u, v: f(u, v)[0, 0].copy()
    uv = rng.uniform(-3, 3, (4, 2))
    tol2 = 1e-4
    for u, v in uv:
        D = f(u, v)
        r = np.empty(3)
        for fn, want, tol in ((SE.c_derivative_u, D[1, 0], 1e-5), (SE.c_derivative_v, D[0, 1], 1e-5), (SE.c_derivative_uu, D[2, 0], tol2),
                              (SE.c_derivative_vv, D[0, 2], tol2), (SE.c_derivative_uv, D[1, 1], tol2)):
            fn(cb, u, v, r)
            ctx.close("evaluator", r, want, tol, fn.__name__)
        N = np.cross(D[1, 0], D[0, 1])
        nn = np.linalg.norm(N)
        ctx.close("evaluator", SE.derivatives(cb, u, v), [D[1, 0], D[0, 1]], 1e-5, "derivatives")
        ctx.close("evaluator", SE.second_derivatives(cb, u, v), [D[0, 0], D[1, 0], D[0, 1], D[2, 0], D[0, 2], D[1, 1]], tol2, "second_derivatives")
        if nn > 0.5:
            ctx.close("evaluator", SE.derivatives_normal(cb, u, v), [D[1, 0], D[0, 1], N / nn], 1e-4, "derivatives_normal")
            ctx.close("evaluator", SE.origin_derivatives_normal(cb, u, v), [D[0, 0], D[1, 0], D[0, 1], N / nn], 1e-4, "origin_derivatives_normal")
    a, b = np.ascontiguousarray(uv[:, 0]), np.ascontiguousarray(uv[:, 1])
    for one, many in ((SE.derivatives, SE.derivatives_array), (SE.second_derivatives, SE.second_derivatives_array),
                      (SE.derivatives_normal, SE.derivatives_normal_array), (SE.origin_derivatives_normal, SE.origin_derivatives_normal_array)):
        ctx.close("evaluator-array", many(cb, a, b), [one(cb, x, y) for x, y in uv], 1e-12, many.__name__)
    s = Analytic(f)
    for u, v in rng.uniform(0.1, 0.9, (3, 2)):
        check_fd(ctx, "Surface", s, f, float(u), float(v))


def cylinder(ctx):
    rng = ctx.rng
    a = rng.uniform(-5, 5, 3)
    d = rng.uniform(-4, 4, 3)
    if rng.integers(3) == 0:
        d = np.eye(3)[int(rng.integers(3))] * rng.choice([-1., 1.]) * rng.uniform(1, 4)
    r = float(rng.uniform(0.5, 3))
    L = np.linalg.norm(d)
    s = Cylinder(a.copy(), a + d, r)
    ctx.state(a, d, r)
    for u, v in zip(rng.uniform(0.1, 6.1, 5), rng.uniform(0.05, 0.95, 5) * L):
        q = np.array(s.evaluate(np.array([u, v])))
        R = (q - a) - ((q - a) @ d) * d / L ** 2
        R = R / np.linalg.norm(R)
        T = np.asarray(s.derivative_u(np.array([u, v])))
        ctx.close("cylinder", np.linalg.norm(T), r, 2e-3, "|dS/du|")
        ctx.close("cylinder", T @ R, 0, 5e-3 * r, "dS/du is tangent")
        ctx.close("cylinder", np.asarray(s.derivative_v(np.array([u, v]))), d / L, 1e-6, "dS/dv is the axis")
        n = np.asarray(s.normal(np.array([u, v])))
        n = n / np.linalg.norm(n)
        ctx.close("cylinder", abs(n @ R), 1.0, 1e-4, "the normal is radial")
        F = np.asarray(s.plane_at(np.array([u, v])))
        ctx.close("cylinder", F[1:] @ F[1:].T, np.eye(3), 1e-9, "frame is orthonormal")
        ctx.close("cylinder", abs(F[3] @ R), 1.0, 1e-4, "frame normal is radial")


class Bent(pysurf.Surface):
    """a bent sheet over a given box, written as a user would"""
    def __init__(self, A, box):
        self.A, self.box = A, box
        super().__init__()

    def interval(self):
        return self.box

    def evaluate(self, uv):
        u, v = float(uv[0]), float(uv[1])
        return np.array([u, v, 0.0]) + np.array([np.sin(0.7 * v), np.cos(0.6 * u), np.sin(u + 0.5 * v)]) @ self.A

    def ders(self, u, v):
        A = self.A
        return (np.array([1., 0, 0]) + np.array([0, -0.6 * np.sin(0.6 * u), np.cos(u + 0.5 * v)]) @ A,
                np.array([0, 1., 0]) + np.array([0.7 * np.cos(0.7 * v), 0, 0.5 * np.cos(u + 0.5 * v)]) @ A)


def on_surface(ctx):
    """curves drawn on surfaces by their parameters: points, frames, borders, isocurves"""
    rng = ctx.rng
    lo = rng.uniform(-2, 1, 2)
    e = rng.uniform(0.5, 3, 2)
    box = ((float(lo[0]), float(lo[0] + e[0])), (float(lo[1]), float(lo[1] + e[1])))
    if rng.integers(3):
        s = Bent(rng.normal(size=(3, 3)) * 0.25, box)
        at, ders, tol = s.evaluate, s.ders, 1e-4
    else:
        Hm, Uu, Uv, pu, pv = gen.surface_data(rng, pmax=3, extra=0, style="uniform", dom=(0., 1.), height=1.0)
        s = surf(Hm, Uu, Uv, pu, pv)
        box = ((0., 1.), (0., 1.))
        lo, e = np.zeros(2), np.ones(2)
        at = lambda q: ref.surface_point(Hm, Uu, Uv, pu, pv, q[0], q[1])

        def ders(u, v):
            D = ref.surface_ders(Hm, Uu, Uv, pu, pv, u, v, 1)
            return D[1, 0], D[0, 1]
        tol = 5e-3
    k = int(rng.integers(3))
    if k == 0:
        c0, ab, ph = lo + e / 2, e * rng.uniform(0.1, 0.4, 2), rng.uniform(0, 6)
        line = lambda t: c0 + ab * np.array([np.cos(t + ph), np.sin(t + ph)])
        dline = lambda t: ab * np.array([-np.sin(t + ph), np.cos(t + ph)])
        par, span = line, (0.0, 2.0)
    else:
        P = lo + e * rng.uniform(0.1, 0.9, (2, 2))
        line, dline, span = lambda t: P[0] + (P[1] - P[0]) * t, lambda t: P[1] - P[0], (0.0, 1.0)
        par = line
        if k == 2:                             # a curve of points with a third coordinate, as ssx returns them
            c = nurbs.NURBSCurve(np.column_stack([P, [0.0, 0.0]]), 1, np.array([0., 0., 1., 1.]))
            par = c
    x = pysurf.CurveOnSurface(s, par, interval=span)
    ctx.close("on-surface:interval", x.interval(), span, 0, "interval of a curve on a surface")
    for t in rng.uniform(span[0] + 0.05, span[1] - 0.05, 3):
        t = float(t)
        q = line(t)
        ctx.close("on-surface:parameters", x.evaluate_curve(t), q, 1e-12, "evaluate_curve(%r)" % t)
        ctx.close("on-surface:point", x.evaluate(t), at(q), 1e-9, "evaluate(%r)" % t)
        Su, Sv = ders(*q)
        d = Su * dline(t)[0] + Sv * dline(t)[1]
        n = np.cross(Su, Sv)
        if np.linalg.norm(d) < 0.1 or np.linalg.norm(n) < 0.2:
            continue
        T, B = d / np.linalg.norm(d), n / np.linalg.norm(n)
        g = tol * (1 + np.linalg.norm(d)) * (1 + 1 / np.linalg.norm(n)) * 3
        ctx.close("on-surface:tangent", np.array(x.tangent(t)), T, g, "tangent(%r)" % t)
        ctx.close("on-surface:frame", np.array(x.plane_at(t)), [at(q), T, np.cross(B, T), B], g, "plane_at(%r)" % t)
        ctx.close("on-surface:normal", np.array(x.normal(t)), np.cross(B, T), g, "normal(%r)" % t)
        ctx.observe("frames", 1)
    if isinstance(s, Bent):
        s.build_boundary()
        b = s.boundary
        (u0, u1), (v0, v1) = box
        ring = np.array([[u0, v0], [u1, v0], [u1, v1], [u0, v1], [u0, v0]])
        b0, b1 = b.interval()
        for t in np.r_[np.linspace(b0, b1, 5), rng.uniform(b0, b1, 6)]:
            w = (t - b0) / (b1 - b0) * 4
            j = min(int(w), 3)
            ctx.close("on-surface:border", b.evaluate(float(t)), at(ring[j] + (ring[j + 1] - ring[j]) * (w - j)), 1e-9, "the border at %r" % t)
        for q in lo + e * rng.uniform(-0.3, 1.3, (6, 2)):
            if np.abs(np.r_[q - lo, q - lo - e]).min() > 1e-3:
                ctx.check("on-surface:inside", bool(b.point_inside(np.r_[q, 0.0])) == bool((q > lo).all() and (q < lo + e).all()), "point_inside(%r) of the border of %r" % (q.tolist(), box))
        q = np.sort(lo + e * rng.uniform(0.05, 0.95, (2, 2)), axis=0)
        t = float(rng.uniform(0, 1))
        ctx.close("on-surface:isocurve", s.isocurve(*map(float, q.ravel())).evaluate(t), at(q[0] + (q[1] - q[0]) * t), 1e-10, "isocurve(%r)" % q.ravel().tolist())
        ctx.close("on-surface:isocurve", s.isocurve_u(float(q[0, 0]), float(q[1, 0])).evaluate(t), at(np.array([q[0, 0], v0]) + np.array([q[1, 0] - q[0, 0], v1 - v0]) * t), 1e-10, "isocurve_u")
        ctx.close("on-surface:isocurve", s.isocurve_v(float(q[0, 1]), float(q[1, 1])).evaluate(t), at(np.array([u0, q[0, 1]]) + np.array([u1 - u0, q[1, 1] - q[0, 1]]) * t), 1e-10, "isocurve_v")
    ctx.state(k, isinstance(s, Bent), round(span[1]), round(float(lo[0]), 2))


def poles(ctx):
    """where the partials are no basis of the tangent plane, the normal is the one approached from the named quadrant"""
    rng = ctx.rng
    C = {(k, l): rng.uniform(-1, 1, 3) for k in range(4) for l in range(4) if 1 <= k + l <= 3}
    kind = int(rng.integers(3))
    if kind == 0:
        C[0, 1] = np.zeros(3)
    elif kind == 1:
        C[1, 0] = np.zeros(3)
    else:
        C[0, 1] = C[1, 0] * rng.choice([-2.0, -1.0, 0.5, 1.0])

    def D(u, v, a, b):
        f = lambda k, a, x: float(np.prod(np.arange(k, k - a, -1)) * x ** (k - a)) if k >= a else 0.0
        return sum(c * f(k, a, u) * f(l, b, v) for (k, l), c in C.items())

    d = [D(0., 0., *x) for x in ((1, 0), (0, 1), (2, 0), (1, 1), (0, 2))]
    ctx.state("pole", kind, d[0], d[2])
    for q, (a, b) in {None: (1, 1), 1: (1, 1), 2: (-1, 1), 3: (-1, -1), 4: (1, -1)}.items():
        s = 1e-6
        m = np.cross(D(a * s, b * s, 1, 0), D(a * s, b * s, 0, 1)) / s
        n = np.linalg.norm(m)
        if n < 0.05:
            continue
        for nm in ("evaluate_normal", "evaluate_normal2"):
            f = getattr(numeric, nm, None)
            if f is None:
                continue
            g = np.array(f(*[x.copy() for x in d], limit_direction=q))
            ctx.close("pole", g / np.linalg.norm(g), m / n, 1e-3, "%s at a pole from quadrant %s" % (nm, q))


SCENARIOS = {
    "poles": (poles, 150, 2000),
    "on_surface": (on_surface, 120, 1500),
    "nurbs_exact": (nurbs_exact, 300, 4000),
    "nurbs_cpts": (nurbs_cpts, 100, 1200),
    "nurbs_fd": (nurbs_fd, 300, 4000),
    "ruled": (ruled, 100, 1200),
    "bilinear": (bilinear, 80, 800),
    "evaluator": (evaluator, 120, 1200),
    "cylinder": (cylinder, 100, 1000),
}
