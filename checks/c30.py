"""C30: polynomial forms of patches describe the same surface, and Gauss maps bound its normals."""
import contextlib
import io
from math import comb

import numpy as np
from scipy.optimize import nnls

import gen
from mm import surf
from mmcore.geom.nurbs import NURBSSurface
import mmcore.numeric.intersection.ssx  # noqa: F401  (gauss_map cannot be imported before it)
from mmcore.numeric import gauss_map as G
from mmcore.numeric import monomial as M

RULE = "one case = one random Bezier patch (degrees 1 to 5, polynomial or rational, general, flat, developable, stretched or nearly degenerate) with its forms, products, derivatives and Gauss map, compared with Bernstein sums written here"
ASSUMPTIONS = [
    "forms are compared on the unit square with tolerances of 1e-9 of the largest coefficient involved (the conversions lose about three digits at degree 5)",
    "Gauss maps are checked where the normal is defined: at least 1e-6 of the largest product of the first derivatives",
]


def bern(n, t):
    return np.array([comb(n, i) * t ** i * (1 - t) ** (n - i) for i in range(n + 1)])


def dbern(n, t):
    b = bern(n - 1, t) if n else np.zeros(1)
    return n * (np.r_[0, b] - np.r_[b, 0]) if n else np.zeros(1)


def at(C, u, v, du=0, dv=0):
    n, m = C.shape[0] - 1, C.shape[1] - 1
    return np.einsum("i,j,ijk->k", (dbern if du else bern)(n, u), (dbern if dv else bern)(m, v), C)


def power(C, u, v):
    return np.einsum("i,j,ijk->k", float(u) ** np.arange(C.shape[0]), float(v) ** np.arange(C.shape[1]), C)


def net(ctx, lo=1, hi=5):
    rng = ctx.rng
    p, q = (int(x) for x in rng.integers(lo, hi + 1, 2))
    style = int(rng.integers(5))
    X, Y = np.meshgrid(np.linspace(0, 1, p + 1), np.linspace(0, 1, q + 1), indexing="ij")
    Z = rng.uniform(-1, 1, X.shape)
    P = np.stack([X, Y, Z], -1)
    if style == 1:
        P = rng.normal(size=P.shape)
    elif style == 2:
        P[..., 2] = X * rng.normal() + Y * rng.normal()
    elif style == 3:
        P[..., 2] = Z[:, :1]
    elif style == 4:
        P = P * 10.0 ** rng.uniform(-2, 3, 3)
    P = P @ gen.rotation(rng).T if hasattr(gen, "rotation") else P
    return P, p, q, style


def forms(ctx):
    rng = ctx.rng
    P, p, q, style = net(ctx)
    dim = int(rng.integers(1, 5))
    C = rng.normal(size=(p + 1, q + 1, dim)) if dim != 3 else P
    if rng.random() < 0.2:
        C = np.round(C * 3)
    ctx.state("forms", p, q, dim)
    C0 = C.copy()
    for kind in ("mmcore", "scipy"):
        F = M.bezier_to_monomial(C, kind)
        scale = max(np.abs(F).max(), 1e-300)
        for _ in range(3):
            u, v = rng.random(2) if rng.random() < 0.8 else rng.integers(0, 2, 2)
            w = at(C, u, v)
            ctx.close("forms:to monomial", power(F, u, v), w, 1e-11 * scale, "the monomial form at (%r, %r)" % (u, v))
            ctx.close("forms:evaluate", M.evaluate_monomial2d(F, u, v), w, 1e-11 * scale, "evaluate_monomial2d at (%r, %r)" % (u, v))
            ctx.close("forms:bezier", M.evaluate_bezier_patch(C, u, v), w, 1e-12 * scale, "evaluate_bezier_patch at (%r, %r)" % (u, v))
        ctx.close("forms:round trip", M.monomial_to_bezier(F, kind), C, 1e-11 * scale, "Bezier -> monomial -> Bezier")
    A = rng.normal(size=C.shape)
    B = M.monomial_to_bezier(A)
    u, v = rng.random(2)
    ctx.close("forms:to bezier", at(B, u, v), power(A, u, v), 1e-11 * max(1, np.abs(B).max()), "the Bezier form of a polynomial")
    ctx.check("forms:input", np.array_equal(C, C0), "the input was changed")
    if dim == 4:
        H = C.copy()
        H[..., 3] = rng.uniform(0.3, 3, H.shape[:2])
        R = M.homogeneous_monomial_to_rational_bezier(M.bezier_to_monomial(H))
        ctx.close("forms:rational", R[..., :3] * R[..., 3:], H[..., :3], 1e-9, "control points of the rational patch")
        ctx.close("forms:rational", R[..., 3], H[..., 3], 1e-9, "weights of the rational patch")
        w = at(H, u, v)
        ctx.close("forms:rational evaluate", M.evaluate_rational_bezier_patch(H[..., :3] / H[..., 3:], H[..., 3], u, v), w[:3] / w[3], 1e-10 * (1 + np.abs(w).max()), "evaluate_rational_bezier_patch")


def calculus(ctx):
    rng = ctx.rng
    P, p, q, style = net(ctx)
    F = M.bezier_to_monomial(P)
    ctx.state("calculus", p, q, style)
    s = max(np.abs(F).max(), 1e-300)
    Fu, Fv = M.monomial_partial_derivatives(F)
    with contextlib.redirect_stdout(io.StringIO()):
        Nm = M.normal_vector_monomial(F)
        P2, p2, q2, _ = net(ctx, hi=3)
        F2 = M.bezier_to_monomial(P2)
        X = M.cross_product_monomial(F, F2)
        mono = M.Monomial2D(F)
        mn = mono.monomial_normal()
        mc = mono.cross(M.Monomial2D(F2))
    mu, mv = mono.monomial_derivatives()
    s2 = max(np.abs(F2).max(), 1e-300)
    Gu, Gv = G.compute_partial_derivative(F, "u"), G.compute_partial_derivative(F, "v")
    C = G.cross_product(Gu, Gv)
    for nm, D, (m, n) in (("normal_vector_monomial", Nm, (2 * p, 2 * q)), ("Monomial2D.monomial_normal", mn.coeffs, (2 * p, 2 * q)),
                          ("cross_product_monomial", X, (p + p2 + 1, q + q2 + 1)), ("Monomial2D.cross", mc.coeffs, (p + p2 + 1, q + q2 + 1))):
        # superfluous zero coefficients raise the degree of everything made from the polynomial
        ctx.check("calculus:degree", D.shape[0] <= m and D.shape[1] <= n, "%s of degrees (%d, %d)%s has %s coefficients" % (nm, p, q, "" if "normal" in nm else " and (%d, %d)" % (p2, q2), D.shape[:2]))
    for _ in range(3):
        u, v = rng.random(2) if rng.random() < 0.8 else rng.integers(0, 2, 2)
        a, b = at(P, u, v, 1, 0), at(P, u, v, 0, 1)
        n = np.cross(a, b)
        for nm, D, w in (("partial", (Fu, Fv), None), ("Monomial2D", (mu.coeffs, mv.coeffs), None), ("padded", (Gu, Gv), None)):
            ctx.close("calculus:derivative", power(D[0], u, v), a, 1e-10 * s, "%s: derivative in u at (%r, %r)" % (nm, u, v))
            ctx.close("calculus:derivative", power(D[1], u, v), b, 1e-10 * s, "%s: derivative in v at (%r, %r)" % (nm, u, v))
        for nm, D in (("normal_vector_monomial", Nm), ("Monomial2D.monomial_normal", mn.coeffs), ("gauss_map.cross_product", C)):
            ctx.close("calculus:normal", power(D, u, v), n, 1e-9 * s * s, "%s at (%r, %r)" % (nm, u, v))
        w = np.cross(at(P, u, v), at(P2, u, v))
        for nm, D in (("cross_product_monomial", X), ("Monomial2D.cross", mc.coeffs)):
            ctx.close("calculus:cross", power(D, u, v), w, 1e-10 * s * s2, "%s at (%r, %r)" % (nm, u, v))
        ctx.close("calculus:evaluate", mono.evaluate(np.array([u, v], float)), at(P, u, v), 1e-10 * s, "Monomial2D.evaluate")


def objects(ctx):
    rng = ctx.rng
    P, p, q, style = net(ctx, hi=4)
    ctx.state("objects", p, q, style)
    s = surf(np.concatenate([P, np.ones(P.shape[:2] + (1,))], -1), np.r_[np.zeros(p + 1), np.ones(p + 1)], np.r_[np.zeros(q + 1), np.ones(q + 1)], p, q)
    sc = np.abs(P).max()
    made = M.Monomial2D.from_nurbs(s)
    other = M.Monomial2D.from_bernstein_basis(P)
    back = made.to_nurbs()
    ctx.check("objects:degree", tuple(back.degree) == (p, q), "the degree %s became %s" % ((p, q), tuple(back.degree)))
    ctx.close("objects:to nurbs", np.asarray(back.control_points)[..., :3], P, 1e-10 * max(sc, np.abs(made.coeffs).max()), "surface -> monomial -> surface")
    ctx.close("objects:basis", other.to_bernstein_basis(), P, 1e-10 * max(sc, np.abs(other.coeffs).max()), "Bernstein -> monomial -> Bernstein")
    for _ in range(3):
        u, v = rng.random(2)
        w = at(P, u, v)
        for nm, o in (("from_nurbs", made), ("from_bernstein_basis", other)):
            ctx.close("objects:evaluate", o.evaluate(np.array([u, v])), w, 1e-10 * max(sc, np.abs(other.coeffs).max()), "%s at (%r, %r)" % (nm, u, v))
            ctx.close("objects:evaluate", o.evaluate_v2(u, v), w, 1e-10 * max(sc, np.abs(other.coeffs).max()), "%s, evaluate_v2" % nm)
    c = other.coeffs.copy()
    P += 1
    ctx.check("objects:own", np.array_equal(c, other.coeffs), "the polynomial shares the memory it was made from")


def halves(C):
    """both halves of a Bezier net in its first direction"""
    a, b, C = [C[0]], [C[-1]], C
    while len(C) > 1:
        C = (C[1:] + C[:-1]) / 2
        a.append(C[0])
        b.append(C[-1])
    return np.array(a), np.array(b[::-1])


def cone(ctx):
    """the normals of every piece are non-negative combinations of the bounds of its Gauss map"""
    rng = ctx.rng
    P, p, q, style = net(ctx, hi=3)
    if style == 4:
        P = P / np.abs(P).max()
    rational = rng.random() < 0.5
    w = rng.uniform(0.3, 3, P.shape[:2]) if rational else np.ones(P.shape[:2]) * (1.0 if rng.random() < 0.7 else 2.5)
    U = [(0.0, 1.0), (-1.0, 1.0), (2.0, 5.0)][int(rng.integers(3))]
    V = [(0.0, 1.0), (-1.0, 1.0), (2.0, 5.0)][int(rng.integers(3))]
    H = np.concatenate([P * w[..., None], w[..., None]], -1)
    s = surf(H, np.r_[np.full(p + 1, U[0]), np.full(p + 1, U[1])], np.r_[np.full(q + 1, V[0]), np.full(q + 1, V[1])], p, q)
    ctx.state("cone", p, q, style, rational)

    def normal(u, v):
        a, au, av = at(H, u, v), at(H, u, v, 1, 0), at(H, u, v, 0, 1)
        Su = (au[:3] * a[3] - a[:3] * au[3]) / a[3] ** 2
        Sv = (av[:3] * a[3] - a[:3] * av[3]) / a[3] ** 2
        return Su, Sv, np.cross(Su, Sv)

    m0 = max(np.linalg.norm(normal(u, v)[2]) for u in (0, .3, .6, 1) for v in (0, .3, .6, 1))
    if m0 < 1e-8:
        ctx.skip("a patch without normals")
        return
    if not rational:
        g = G.compute_gauss_map(P)
        sc = max(np.abs(M.bezier_to_monomial(P)).max(), 1) ** 2
        u, v = rng.random(2)
        ctx.close("cone:map", at(g, u, v), np.cross(at(P, u, v, 1, 0), at(P, u, v, 0, 1)), 1e-8 * sc, "compute_gauss_map at (%r, %r)" % (u, v))

    def judge(gm, rect, depth, net=None):
        key = None
        if net is not None and depth:
            # the recorded finding: parts of a map that was made of unit vectors before it was subdivided
            M_ = np.asarray(gm._map.control_points)[..., :3]
            if M_.shape == net.shape and np.abs(M_ - net).max() < 1e-9:
                key = "gauss-map-unit-before-subdivision"
        if gm.hull is None:
            gm.compute()
        B = np.asarray(gm.bounds())
        ctx.check("cone:unit", np.abs(np.linalg.norm(B, axis=1) - 1).max() < 1e-9, "the bounds are not unit vectors: %s" % B[np.argmax(np.abs(np.linalg.norm(B, axis=1) - 1))])
        (ua, ub), (va, vb) = rect
        (a, b), (c, d) = gm.surface.interval()
        got = (a - U[0]) / (U[1] - U[0]), (b - U[0]) / (U[1] - U[0]), (c - V[0]) / (V[1] - V[0]), (d - V[0]) / (V[1] - V[0])
        ctx.close("cone:part", np.array(got), np.array([ua, ub, va, vb]), 1e-9, "the rectangle of a part")
        for _ in range(3):
            u, v = rng.uniform(ua, ub), rng.uniform(va, vb)
            Su, Sv, n = normal(u, v)
            l = np.linalg.norm(n)
            if l < 1e-6 * max(m0, np.linalg.norm(Su) * np.linalg.norm(Sv)):
                continue
            _, r = nnls(B.T, n / l)
            ctx.check("cone:contains", r < 1e-5, "depth %d: the normal %s at (%r, %r) is %.3g outside the cone of %d bounds" % (depth, n / l, u, v, r, len(B)), key=key)
        if depth < 2:
            kids = gm.subdivide()
            ctx.check("cone:parts", len(kids) == 4, "%d parts" % len(kids))
            um, vm = (ua + ub) / 2, (va + vb) / 2
            seen = set()
            for k in kids:
                (a, b), (c, d) = k.surface.interval()
                i = int((a + b) / 2 > U[0] + um * (U[1] - U[0]))
                j = int((c + d) / 2 > V[0] + vm * (V[1] - V[0]))
                seen.add((i, j))
                if depth == 0 or rng.random() < 0.4:
                    judge(k, ((um, ub) if i else (ua, um), (vm, vb) if j else (va, vm)), depth + 1, None if net is None else halves(halves(net)[i].transpose(1, 0, 2))[j].transpose(1, 0, 2))
            ctx.check("cone:parts", len(seen) == 4, "the parts cover only %s" % sorted(seen))

    before = np.array(s.control_points)
    if rng.random() < 0.5:
        gm = G.GaussMap.from_surf(s)
        judge(gm, ((0.0, 1.0), (0.0, 1.0)), 0, np.array(gm._map.control_points)[..., :3])
    else:
        # the same, from the map as it is
        g = G.compute_gauss_mapw(P.copy(), w.copy()) if rational else G.compute_gauss_map(P.copy())
        judge(G.GaussMap(NURBSSurface(g, (g.shape[0] - 1, g.shape[1] - 1)), s), ((0.0, 1.0), (0.0, 1.0)), 0)
    ctx.check("cone:input", np.array_equal(before, np.array(s.control_points)), "the surface was changed")


def separating(ctx):
    """a separating vector, when one is reported, separates"""
    rng = ctx.rng
    k = rng.uniform(0.05, 2.0)
    a, b = rng.normal(size=(2, 3))
    N1 = a / np.linalg.norm(a) + k * rng.normal(size=(int(rng.integers(1, 9)), 3))
    N2 = b / np.linalg.norm(b) + k * rng.normal(size=(int(rng.integers(1, 9)), 3))
    N1 /= np.linalg.norm(N1, axis=1)[:, None]
    N2 /= np.linalg.norm(N2, axis=1)[:, None]
    x, y = G.find_separating_vector(N1, N2), G.find_common_side_vector(N1, N2)
    ctx.state("separating", x is None, y is None)
    ctx.check("separating:sides", x is None or ((N1 @ x > 0).all() and (N2 @ x < 0).all()), "find_separating_vector returned %s, which does not separate" % (x,))
    ctx.check("separating:common", y is None or ((N1 @ y > 0).all() and (N2 @ y > 0).all()), "find_common_side_vector returned %s, which is not on one side" % (y,))


SCENARIOS = {
    "forms": (forms, 500, 15000),
    "calculus": (calculus, 300, 8000),
    "objects": (objects, 250, 8000),
    "cone": (cone, 250, 6000),
    "separating": (separating, 300, 6000),
}
