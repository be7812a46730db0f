"""C16: tracing and projection on implicit curves and surfaces stay on the zero set and cover it once."""
import contextlib
import io
import math

import numpy as np

import gen
from mmcore.geom.circle import Circle2D
from mmcore.geom.implicit.cassini import cassini
from mmcore.geom.implicit.implicit import Implicit2D, ParametrizedImplicit2D, parametrize_implicit2d
from mmcore.geom.nurbs import NURBSCurve
from mmcore.geom.primitives import ImplicitCylinder, Sphere, Tube
from mmcore.numeric.algorithms.implicit_point import (_curve_point2, curve_point, intersection_curve_point, surface_plane,
                                                      surface_point)
from mmcore.numeric.algorithms.point_in_curve import point_in_curve
from mmcore.numeric.intersection.implicit_implicit import (ImplicitIntersectionCurve, intersection_curve, iterate_curves,
                                                           surface_iii)
from mmcore.numeric.marching import (marching_implicit_curve_points, marching_intersection_curve_points,
                                     raster_algorithm_2d)

RULE = "one case = one random ellipse, Cassini oval, sphere/cylinder/tube pair or star-shaped curve, traced, projected onto or classified; every returned point is put back into the equations and the traced loops are compared with the analytic curve"
ASSUMPTIONS = [
    "projections start within a fraction of the feature size; steps are at most half the smallest radius of curvature",
    "a projection onto a curve ends when its step is below delta, so the remaining distance is at most of the order of delta",
    "point_in_curve relies on a root search that is heuristic for coordinates with more than two extremes, so those curves are only checked through their implicit form",
    "seeds for surface intersections come from a tree of depth 3 or 4, so loops smaller than a cell are out of scope",
]
TAU = 2 * math.pi


class Ellipse(Implicit2D):
    def __init__(self, c, a, b, th):
        super().__init__()
        self.c, self.a, self.b = c, a, b
        self.R = np.array([[math.cos(th), -math.sin(th)], [math.sin(th), math.cos(th)]])

    def local(self, P):
        return (np.asarray(P)[..., :2] - self.c) @ self.R

    def implicit(self, p):
        q = self.local(p)
        return float((q[0] / self.a) ** 2 + (q[1] / self.b) ** 2 - 1)

    def grad(self, p):
        q = self.local(p)
        return self.R @ np.array([2 * q[0] / self.a ** 2, 2 * q[1] / self.b ** 2])

    def bounds(self):
        h = np.sqrt((self.R[:, 0] * self.a) ** 2 + (self.R[:, 1] * self.b) ** 2)
        return tuple(self.c - h), tuple(self.c + h)

    def at(self, t):
        return self.c + self.R @ np.array([self.a * math.cos(t), self.b * math.sin(t)])

    def angle(self, P):
        q = self.local(P)
        return np.arctan2(q[..., 1] / self.b, q[..., 0] / self.a)

    def off(self, p):
        """first order distance to the curve"""
        return abs(self.implicit(p)) / np.linalg.norm(self.grad(p))


def ellipse(rng):
    a, b = rng.uniform(0.6, 3, 2)
    b = float(np.clip(b, a / 2, a * 2))
    e = Ellipse(rng.uniform(-2, 2, 2), float(a), b, float(rng.uniform(0, TAU)))
    return e, min(a, b) ** 2 / max(a, b)        # smallest radius of curvature


def loop(ctx, e, P, step, what, closed=True):
    """P runs once around e, on it, in steps of about `step`"""
    worst = max(e.off(p) for p in P)
    ctx.check("trace:on curve", worst < 1e-4, "%s: a point is %.2e off the curve" % (what, worst))
    d = np.linalg.norm(np.diff(P, axis=0), axis=1)
    ctx.check("trace:spacing", d[:-1].min() > 0.4 * step and d.max() < 1.6 * step, "%s: spacing from %r to %r for a step of %r" % (what, d[:-1].min(), d.max(), step))
    w = np.unwrap(e.angle(P))
    inc = np.diff(w)
    ctx.check("trace:direction", bool(np.all(inc[:-1] > 0) or np.all(inc[:-1] < 0)), "%s: the direction of travel changes" % what)
    if closed:
        ctx.check("trace:once around", abs(abs(w[-1] - w[0]) - TAU) < 1e-3, "%s: goes around %r times" % (what, (w[-1] - w[0]) / TAU))
    return w


def contour(ctx):
    rng = ctx.rng
    e, rc = ellipse(rng)
    step = float(rc * rng.uniform(0.05, 0.5))
    delta = float(rng.choice([1e-3, 1e-4, 1e-6]))
    t = float(rng.uniform(0, TAU))
    v0 = e.c + (e.at(t) - e.c) * rng.uniform(0.7, 1.6)
    grad = e.grad if rng.integers(2) else None
    how = int(rng.integers(4))
    keep = v0.copy()
    if how == 0:
        P = np.array(marching_implicit_curve_points(e.implicit, v0, max_points=None, step=step, delta=delta, grad=grad))
        loop(ctx, e, P, step, "contour of a %r x %r ellipse" % (e.a, e.b))
        ctx.close("trace:closed", P[0], P[-1], 2 * delta, "first and last point")
    elif how == 1:
        P = e.points(step=step, delta=delta)
        loop(ctx, e, P, step, "Implicit2D.points")
    elif how == 2:                                   # open: from one point to another
        t1 = t + float(rng.uniform(0.5, TAU - 0.5))
        v1 = e.at(t1)
        v0 = e.at(t)
        keep = v0.copy()
        P = np.array(marching_implicit_curve_points(e.implicit, v0, v1, max_points=None, step=step, delta=delta, grad=grad))
        w = loop(ctx, e, P, step, "contour between two points", closed=False)
        ctx.close("trace:ends", [P[0], P[-1]], [v0, v1], 1e-3, "ends of the trace")
        ctx.check("trace:once around", abs(w[-1] - w[0] - (t1 - t)) < 2e-2, "turned %r, expected %r" % (w[-1] - w[0], t1 - t))
    else:                                            # cut short
        n = int(rng.integers(3, 12))
        P = np.array(marching_implicit_curve_points(e.implicit, v0, max_points=n, step=step, delta=delta, grad=grad))
        total = TAU * min(e.a, e.b) / step
        if total > n + 2:
            ctx.check("trace:max_points", len(P) == n + 1, "%d points for max_points=%d" % (len(P), n))
        ctx.check("trace:on curve", max(e.off(p) for p in P) < 1e-4, "cut short: off the curve")
    ctx.close("trace:input", v0, keep, 0, "the start point was modified")
    ctx.state(how, delta, len(P))


def ovals(ctx):
    rng = ctx.rng
    a = float(rng.uniform(1.05, 1.4))
    f = lambda p: float(cassini(p, a))
    step = float(rng.uniform(0.01, 0.04))
    v = np.array([rng.uniform(1.5, 2.0), rng.uniform(-0.3, 0.3)])
    P = np.array(marching_implicit_curve_points(f, v, max_points=None, step=step, delta=1e-4))
    r = np.hypot(P[:, 0], P[:, 1])
    # |p-(1,0)||p+(1,0)| = a^2
    prod = np.hypot(P[:, 0] - 1, P[:, 1]) * np.hypot(P[:, 0] + 1, P[:, 1])
    ctx.close("oval:product", prod, np.full(len(P), a * a), 1e-4, "product of the distances to the foci (a=%r)" % a)
    d = np.linalg.norm(np.diff(P, axis=0), axis=1)
    ctx.check("oval:spacing", d[:-1].min() > 0.5 * step and d.max() < 1.6 * step, "spacing %r..%r for step %r (a=%r)" % (d[:-1].min(), d.max(), step, a))
    w = np.unwrap(np.arctan2(P[:, 1], P[:, 0]))
    ctx.check("oval:once around", abs(abs(w[-1] - w[0]) - TAU) < 1e-2, "goes around %r times (a=%r)" % ((w[-1] - w[0]) / TAU, a))
    ctx.state(round(a, 1), len(P) // 50, r.min() > 0.5)


def projections(ctx):
    rng = ctx.rng
    e, rc = ellipse(rng)
    delta = float(rng.choice([1e-3, 1e-5, 1e-8]))
    v0 = e.c + (e.at(float(rng.uniform(0, TAU))) - e.c) * rng.uniform(0.6, 2.0)
    keep = v0.copy()
    p = curve_point(e.implicit, v0, delta, e.grad)
    ctx.check("project:curve", e.off(p) < max(delta, 1e-12), "curve_point(delta=%g) is %.2e off" % (delta, e.off(p)))
    p = curve_point(e.implicit, v0, delta)
    ctx.check("project:curve", e.off(p) < max(delta, 1e-9), "curve_point(delta=%g) without a gradient is %.2e off" % (delta, e.off(p)))
    p = _curve_point2(e.implicit, v0, delta, e.grad)
    ctx.check("project:curve", e.off(p) < max(delta, 1e-12), "_curve_point2(tol=%g) is %.2e off" % (delta, e.off(p)))
    ctx.check("project:input", np.array_equal(v0, keep), "the start point was modified")
    c = Circle2D(e.c.copy(), rc)
    q = curve_point(c.implicit, v0, delta, c.gradient)
    n = (v0 - e.c) / np.linalg.norm(v0 - e.c)
    ctx.close("project:circle", q, e.c + rc * n, 1e-9, "projection onto a circle")
    # surfaces
    o = rng.uniform(-2, 2, 3)
    r = float(rng.uniform(0.5, 3))
    d = gen.rotation(rng)
    s = [Sphere(o.copy(), r), ImplicitCylinder(o.copy(), o + d[0] * 2, r), Tube(o.copy(), o + d[0] * 2, r, 0.2 * r)][int(rng.integers(3))]
    x = o + d[1] * r * rng.uniform(0.7, 1.6) + d[0] * rng.uniform(-1, 1) * r * 0.5
    tol = float(rng.choice([1e-5, 1e-8]))
    p = surface_point(s.implicit, x.copy(), s.gradient, tol)
    ctx.check("project:surface", abs(s.implicit(p)) < 10 * tol, "surface_point is %.2e off" % abs(s.implicit(p)))
    p, nv, t1, t2 = surface_plane(s.implicit, x.copy(), lambda y: np.array(s.gradient(y)), tol)
    ctx.check("project:surface", abs(s.implicit(p)) < 10 * tol, "surface_plane: the point is %.2e off" % abs(s.implicit(p)))
    F = np.array([nv, t1, t2])
    ctx.close("project:frame", F @ F.T, np.eye(3), 1e-9, "surface_plane: the frame is not orthonormal")
    ctx.close("project:frame", nv, np.array(s.gradient(p)), 1e-6, "surface_plane: normal")
    ctx.close("project:frame", np.cross(nv, t1), t2, 1e-9, "surface_plane: handedness")
    ctx.state(type(s).__name__, delta, tol)


# ---- surface x surface --------------------------------------------------------
def pair(rng):
    """two surfaces, samples of every branch of their intersection, number of branches"""
    R = gen.rotation(rng)
    o = rng.uniform(-2, 2, 3)
    r1 = float(rng.uniform(0.8, 3))
    s1 = Sphere(o.copy(), r1)
    t = np.linspace(0, TAU, 240, endpoint=False)
    k = int(rng.integers(3))
    if k == 0:
        r2 = float(rng.uniform(0.8, 3))
        lo, hi = abs(r1 - r2) + 0.25 * min(r1, r2), r1 + r2 - 0.25 * min(r1, r2)
        dd = float(rng.uniform(lo, hi))
        s2 = Sphere(o + R[0] * dd, r2)
        a = (r1 ** 2 - r2 ** 2 + dd ** 2) / 2 / dd
        h = math.sqrt(r1 ** 2 - a * a)
        C = o + R[0] * a + h * (np.cos(t)[:, None] * R[1] + np.sin(t)[:, None] * R[2])
        return s1, s2, [C], min(r1, r2)
    if k == 1:                                    # cylinder through the sphere: two loops
        r2 = float(rng.uniform(0.3, 0.7) * r1)
        e = float(rng.uniform(0, 0.8) * (r1 - r2))
    else:                                         # cylinder cutting the side: one loop
        r2 = float(rng.uniform(0.3, 0.7) * r1)
        e = float(rng.uniform(r1 - 0.8 * r2, r1))
    s2 = ImplicitCylinder(o + R[1] * e - R[0] * 3 * r1, o + R[1] * e + R[0] * 3 * r1, r2)
    X, Y = e + r2 * np.cos(t), r2 * np.sin(t)
    z2 = r1 ** 2 - X ** 2 - Y ** 2
    m = z2 >= 0
    B = [o + X[m, None] * R[1] + Y[m, None] * R[2] + s * np.sqrt(z2[m])[:, None] * R[0] for s in (-1, 1)]
    return s1, s2, B if k == 1 else [np.r_[B[0], B[1]]], r2


def intersections(ctx):
    rng = ctx.rng
    s1, s2, branches, size = pair(rng)
    if rng.integers(2):
        s1, s2 = s2, s1
    c = [ImplicitIntersectionCurve, intersection_curve, surface_iii][int(rng.integers(3))](s1, s2)
    depth = int(rng.choice([3, 4]))
    c.build_tree(depth)
    step = float(0.1 * size)
    res = [np.array(x) for x in iterate_curves(c, step=step, workers=1, max_points=4000)]
    what = "%s x %s" % (type(s1).__name__, type(s2).__name__)
    on = lambda p: max(abs(s1.implicit(p)), abs(s2.implicit(p)))
    ctx.check("ssx:loops", len(res) == len(branches), "%s: %d loops traced, there are %d" % (what, len(res), len(branches)))
    hit = [0] * len(branches)
    for L in res:
        w = max(on(p) for p in L)
        ctx.check("ssx:on both", w < 1e-6, "%s: a traced point is %.2e off" % (what, w))
        d = np.linalg.norm(np.diff(L, axis=0), axis=1)
        ctx.check("ssx:spacing", d.max() < 1.2 * step and d.min() > 0.5 * step, "%s: spacing %r..%r for step %r" % (what, d.min(), d.max(), step))
        ctx.check("ssx:closed", np.linalg.norm(L[0] - L[-1]) < 1.6 * step, "%s: the loop is open by %r (step %r)" % (what, np.linalg.norm(L[0] - L[-1]), step))
        k = int(np.argmin([np.min(np.linalg.norm(B - L[0], axis=1)) for B in branches]))
        hit[k] += 1
        far = max(np.min(np.linalg.norm(L - x, axis=1)) for x in branches[k])
        ctx.check("ssx:cover", far < 1.0 * step, "%s: a point of the curve is %r steps from the trace" % (what, far / step))
    ctx.check("ssx:each once", all(h == 1 for h in hit), "%s: loops per branch %r" % (what, hit))
    # queries on the curve
    B = branches[int(rng.integers(len(branches)))]
    for _ in range(3):
        x = B[int(rng.integers(len(B)))] + rng.normal(size=3) * 0.05 * size
        q = np.array(c.closest_point(x.copy()))
        ctx.check("curve:closest on both", on(q) < 1e-6, "%s: closest_point is %.2e off" % (what, on(q)))
        D = min(np.min(np.linalg.norm(b - x, axis=1)) for b in branches)
        ctx.check("curve:closest near", np.linalg.norm(q - x) < 2 * D + 0.1 * size, "%s: closest_point is at %r, the curve is within %r" % (what, np.linalg.norm(q - x), D))
        ctx.close("curve:implicit", c.implicit(x.copy()), np.linalg.norm(x - q), 1e-12, "implicit")
        ctx.close("curve:gradient", c.gradient(x.copy()), x - q, 1e-12, "gradient")
        g1, g2 = np.array(s1.gradient(q)), np.array(s2.gradient(q))
        t = np.array(c.tangent(x.copy()))
        ctx.close("curve:tangent", [t @ t, t @ g1, t @ g2], [1, 0, 0], 1e-9, "%s: tangent" % what)
        P = np.array(c.plane(x.copy()))
        ctx.close("curve:plane", P[1:] @ P[1:].T, np.eye(3), 1e-9, "%s: plane axes" % what)
        ctx.close("curve:plane", np.r_[P[0], np.cross(P[1], P[2]), P[1]], np.r_[q, P[3], t], 1e-9, "%s: plane" % what)
    ctx.state(what, len(branches), depth)


def marched(ctx):
    """one trace: bounds, an end point, a limit on the points, a callback"""
    rng = ctx.rng
    s1, s2, branches, size = pair(rng)
    B = branches[int(rng.integers(len(branches)))]
    step, tol = float(rng.uniform(0.02, 0.08) * size), float(rng.choice([1e-6, 1e-9]))
    n = len(B)
    i0 = int(rng.integers(n))
    start = B[i0] + rng.normal(size=3) * 1e-3 * size
    on = lambda p: max(abs(s1.implicit(p)), abs(s2.implicit(p)))
    kw = {}
    how = int(rng.integers(4))
    lo, hi = np.full(3, -np.inf), np.full(3, np.inf)
    if how == 0:                                          # one or several walls across the branch
        for k in rng.choice(6, int(rng.integers(1, 4)), replace=False):
            a, up = int(k) % 3, int(k) // 3
            x = float(rng.uniform(B[:, a].min(), B[:, a].max()))
            (hi if up else lo)[a] = x
        ok = np.all((lo <= start) & (start <= hi))
        if not ok:
            return ctx.skip("the start is outside")
        kw["bounds"] = (lo, hi) if rng.integers(2) else (np.maximum(lo, -1e6), np.minimum(hi, 1e6))
    elif how == 1:
        end = B[int(rng.integers(n))].copy()
        if np.linalg.norm(end - start) < 4 * step:
            return ctx.skip("the end is next to the start")
        kw["end_point"] = end
    limit = int(rng.integers(2, 40)) if how == 2 else 3000
    seen = []
    keep = start.copy()
    if rng.integers(2):
        kw["point_callback"] = lambda p: seen.append(np.array(p))
    with contextlib.redirect_stdout(io.StringIO()):
        P = np.array(marching_intersection_curve_points(s1.implicit, s2.implicit, s1.gradient, s2.gradient, start, step=step, max_points=limit, tol=tol, **kw))
    what = "%s x %s" % (type(s1).__name__, type(s2).__name__)
    ctx.check("march:input", np.array_equal(start, keep), "the start point was modified")
    ctx.check("march:limit", len(P) <= limit and (how != 2 or len(P) == limit or np.linalg.norm(P[0] - P[-1]) < 1.6 * step), "%d points, at most %d were asked for" % (len(P), limit))
    if "point_callback" in kw:
        ctx.check("march:callback", len(seen) == len(P) and np.array_equal(np.array(seen), P), "%d of %d points were reported to the callback" % (len(seen), len(P)))
    w = max(on(p) for p in P)
    ctx.check("march:on both", w < max(100 * tol, 1e-8), "%s: a traced point is %.2e off" % (what, w))
    d = np.linalg.norm(np.diff(P, axis=0), axis=1)
    if len(d):
        ctx.check("march:spacing", d.max() < 1.2 * step and d.min() > 0.4 * step, "%s: spacing %r..%r for step %r" % (what, d.min(), d.max(), step))
        t = np.cross(np.array(s1.gradient(P[0])), np.array(s2.gradient(P[0])))
        ctx.check("march:direction", (P[1] - P[0]) @ t > 0, "%s: the first step goes against the cross product of the gradients" % what)
    inside = np.all((P >= lo) & (P <= hi), axis=1)
    ctx.check("march:bounds", inside[:-1].all(), "%s: the trace goes on outside of the bounds (%d of %d points are outside)" % (what, (~inside).sum(), len(P)))
    # what stopped it
    if how == 1:
        e = np.linalg.norm(P - end, axis=1)
        ctx.check("march:end", e[-1] < 1.6 * step and (len(P) < 3 or e[1:-1].min() > 0.45 * step), "%s: the trace ends %.3g steps from the end point and comes within %.3g steps before" % (what, e[-1] / step, e[:-1].min() / step if len(e) > 1 else 0))
    elif how != 2 and inside[-1]:
        ctx.check("march:end", len(P) > 3 and np.linalg.norm(P[0] - P[-1]) < 1.6 * step, "%s: the trace stops inside of the bounds, %.3g steps from its start" % (what, np.linalg.norm(P[0] - P[-1]) / step))
        far = max(np.min(np.linalg.norm(P - x, axis=1)) for x in B)
        ctx.check("march:cover", far < 1.0 * step, "%s: a point of the curve is %r steps from the trace" % (what, far / step))
    ctx.state(what, how, min(len(P) // 10, 9))


def newton(ctx):
    """single projections onto an intersection curve, with and without gradients returned and errors raised"""
    rng = ctx.rng
    s1, s2, branches, size = pair(rng)
    B = branches[0]
    x = B[int(rng.integers(len(B)))] + rng.normal(size=3) * 0.1 * size
    keep = x.copy()
    tol = float(rng.choice([1e-5, 1e-8, 1e-12]))
    a = (s1.implicit, s2.implicit, x, s1.gradient, s2.gradient)
    p = intersection_curve_point(*a, tol=tol)
    ctx.check("newton:on both", max(abs(s1.implicit(p)), abs(s2.implicit(p))) < max(10 * tol, 1e-11), "off by %r, tol %g" % (max(abs(s1.implicit(p)), abs(s2.implicit(p))), tol))
    r = intersection_curve_point(*a, tol=tol, return_grads=True)
    ctx.check("newton:return_grads", isinstance(r, tuple) and len(r) == 5 and np.array_equal(r[0], p), "return_grads gave %d items" % len(r))
    ctx.close("newton:return_grads", np.r_[r[3], r[4]], np.r_[np.array(s1.gradient(p)), np.array(s2.gradient(p))], 1e-3 + 1e3 * tol, "returned gradients")
    ok, q = intersection_curve_point(*a, tol=tol, no_err=True)
    ctx.check("newton:no_err", bool(ok) is True and np.array_equal(q, p), "no_err: %r" % (ok,))
    r = intersection_curve_point(*a, tol=tol, no_err=True, return_grads=True)
    ctx.check("newton:both options", len(r) == 2 and bool(r[0]) is True and len(r[1]) == 5 and np.array_equal(r[1][0], p), "no_err and return_grads")
    ctx.check("newton:input", np.array_equal(x, keep), "the start point was modified")
    # no intersection at all: never a success
    d = gen.rotation(rng)[0]
    r1, r2 = rng.uniform(0.5, 2, 2)
    far = Sphere(np.zeros(3), float(r1)), Sphere(d * (r1 + r2 + rng.uniform(0.2, 2)), float(r2))
    y = d * rng.uniform(-3, 5) if rng.integers(2) else rng.uniform(-3, 3, 3)
    try:
        ok, q = intersection_curve_point(far[0].implicit, far[1].implicit, y, far[0].gradient, far[1].gradient, no_err=True)
        ctx.check("newton:false success", not ok, "disjoint spheres: success at %r from %r" % (list(q), y.tolist()))
    except ZeroDivisionError:
        pass
    try:
        q = intersection_curve_point(far[0].implicit, far[1].implicit, y, far[0].gradient, far[1].gradient)
        ctx.check("newton:false success", False, "disjoint spheres: point %r returned from %r" % (list(q), y.tolist()))
    except (ValueError, ZeroDivisionError):
        ctx.check("newton:false success", True, "")
    # marching from a seed, bounded
    n = int(rng.integers(2, 9))
    step = 0.1 * size
    seen = []
    M = marching_intersection_curve_points(s1.implicit, s2.implicit, s1.gradient, s2.gradient, x.copy(), step=step, max_points=n, tol=1e-8, point_callback=seen.append)
    ctx.check("newton:march", len(M) == n and len(seen) == n and np.array_equal(np.array(seen), M), "max_points=%d gave %d points, %d callbacks" % (n, len(M), len(seen)))
    ctx.check("newton:march", max(max(abs(s1.implicit(p)), abs(s2.implicit(p))) for p in M) < 1e-7, "marched points are off")
    if n > 1:
        t = np.cross(np.array(s1.gradient(M[0])), np.array(s2.gradient(M[0])))
        ctx.check("newton:direction", t @ (M[1] - M[0]) > 0, "marches against the tangent")
    ctx.state(type(s2).__name__, tol, n)


def backs_up(a):
    """how far an angle goes back: the last two points of a trace may be close, so an interpolant can overshoot there"""
    s = (a - a[0]) * np.sign(a[-1] - a[0])
    return float(np.max(np.maximum.accumulate(s) - s))


def parametrized(ctx):
    rng = ctx.rng
    e, rc = ellipse(rng)
    step = float(rc * rng.uniform(0.1, 0.3))
    k = int(rng.integers(3))
    if k == 0:
        b = e.to_bspline(step=step)
        a0, a1 = (float(x) for x in b.interval())
        ts = np.linspace(a0, a1, 60)
        Q = np.array(b.evaluate_multi(ts))
        ctx.close("bspline:flat", Q[:, 2], np.zeros(60), 0, "to_bspline left the plane")
        w = max(e.off(q) for q in Q)
        ctx.check("bspline:on curve", w < 3e-2 * rc, "to_bspline(step %r) is %.2e off (radius %r)" % (step, w, rc))
        a = np.unwrap(e.angle(Q))
        ctx.check("bspline:once around", abs(abs(a[-1] - a[0]) - TAU) < 1e-2 and backs_up(a) < step / min(e.a, e.b), "to_bspline goes around %r times" % ((a[-1] - a[0]) / TAU))
    else:
        if k == 1:
            p = parametrize_implicit2d(e, step=step) if rng.integers(2) else ParametrizedImplicit2D.from_implicit2d(e, step=step)
            span = TAU
        else:
            t0 = float(rng.uniform(0, TAU))
            span = float(rng.uniform(0.5, 5))
            p = parametrize_implicit2d(e, e.at(t0), e.at(t0 + span), step=step)
        ctx.check("param:periodic", bool(p.is_periodic()) == (k == 1), "is_periodic %r" % p.is_periodic())
        a0, a1 = (float(x) for x in p.interval())
        ts = np.linspace(a0, a1, 50)
        Q = np.array([p.evaluate(float(t)) for t in ts])
        ctx.check("param:on curve", max(e.off(q) for q in Q) < 1e-4, "evaluate is %.2e off" % max(e.off(q) for q in Q))
        ctx.close("param:multi", np.array(p.evaluate_multi(ts)), Q, 1e-12, "evaluate_multi")
        a = np.unwrap(e.angle(Q))
        ctx.check("param:once around", abs(abs(a[-1] - a[0]) - span) < 2e-2 and backs_up(a) < step / min(e.a, e.b),
                  "the parametrization turns %r, expected %r" % (a[-1] - a[0], span))
        if k == 1:
            ctx.close("param:closed", Q[0], Q[-1], 1e-6, "ends of a periodic parametrization")
        x = rng.uniform(-3, 3, 2)
        ctx.check("param:inside", bool(p.point_inside(x)) == (e.implicit(x) <= 0) and p.implicit(x) == e.implicit(x), "point_inside")
    ctx.state(k, round(step / rc, 1))


def raster(ctx):
    rng = ctx.rng
    e, rc = ellipse(rng)
    c = Circle2D(e.c.copy(), float(rng.uniform(0.8, 2)))
    circ = rng.integers(2)
    obj = c if circ else e
    f = lambda p: float(obj.implicit(np.asarray(p, float)))
    x0, y0 = e.c - rng.uniform(1, 3.5, 2)
    x1, y1 = e.c + rng.uniform(1, 3.5, 2)
    nx, ny = (int(k) for k in rng.integers(8, 30, 2))
    gamma = float(rng.choice([0.5, 0.3, 0.8]))
    g = (c.gradient if circ else e.grad)
    use = g if rng.integers(2) else None
    gi = not circ or bool(rng.integers(2))
    R = np.array(raster_algorithm_2d(f, x0, x1, y0, y1, nx, ny, gamma=gamma, grad=use, general_implicit=gi)).reshape(-1, 2)
    dm = max((x1 - x0) / nx, (y1 - y0) / ny)
    near, amb = [], 0
    for x in np.linspace(x0, x1, nx):
        for y in np.linspace(y0, y1, ny):
            G = np.linalg.norm(g(np.array([x, y])))
            if G < 1e-3:
                amb += 1
                continue
            q = abs(f((x, y))) / G
            if abs(q - gamma * dm) < 1e-3 * dm:
                amb += 1
            elif q < gamma * dm:
                near.append((x, y))
    ctx.check("raster:count", len(near) <= len(R) <= len(near) + amb, "%d points, %d grid points are near the curve" % (len(R), len(near)))
    if len(R):
        w = max((abs(c.implicit(q)) if circ else e.off(q)) for q in R)
        ctx.check("raster:on curve", w < (1e-3 if gi else 1e-6), "a point is %.2e off" % w)
        far = max((np.min(np.linalg.norm(R - np.array(p), axis=1)) for p in near), default=0)
        ctx.check("raster:each", far < 2.5 * gamma * dm, "the nearest point to a near grid point is %r away (cell %r)" % (far, dm))
    ctx.state(int(circ), int(gi), use is None, gamma)


def winding(Q, x):
    a = np.arctan2(Q[:, 1] - x[1], Q[:, 0] - x[0])
    d = np.diff(a)
    return int(round(((d + math.pi) % TAU - math.pi).sum() / TAU))


def inside(ctx):
    rng = ctx.rng
    if rng.integers(4) == 0:
        e, _ = ellipse(rng)
        x = rng.uniform(-4, 4, 3)
        ctx.check("inside:implicit", bool(point_in_curve(e, x)) == (e.implicit(x) <= 0), "point_in_curve(%r)" % x.tolist())
        ctx.state("implicit", e.implicit(x) <= 0)
        return
    n = int(rng.integers(4, 9))
    p = int(rng.integers(1, 4))
    a = np.sort(rng.uniform(0, TAU, n))
    r = rng.uniform(1, 3, n)
    P = np.c_[r * np.cos(a), r * np.sin(a), 0 * r]
    P = np.r_[P, P[:1]]
    c = NURBSCurve(P, p)
    t0, t1 = (float(x) for x in c.interval())
    ts = np.linspace(t0, t1, 4001)
    Q = np.array(c.evaluate_multi(ts))
    for _ in range(6):
        x = np.array([*rng.uniform(-3, 3, 2), 0.0])
        if np.min(np.linalg.norm(Q[:, :2] - x[:2], axis=1)) < 0.02:
            ctx.skip("on the curve")
        # crossings close to an end, to each other or tangent are missed by the documented tolerance of 1e-3
        s = Q[:, 0] - x[0]
        cr = ts[:-1][s[:-1] * s[1:] <= 0]
        if len(cr) and (cr[0] - t0 < 0.02 or t1 - cr[-1] < 0.02 or len(cr) > 1 and np.min(np.diff(cr)) < 0.05):
            ctx.skip("crossing near an end")
        if p > 1 and np.count_nonzero(np.diff(np.sign(np.diff(s)))) > 2:
            ctx.skip("more than two extremes")       # the root search assumes few extremes and says so
        if p > 1 and np.min(np.abs(np.r_[s[1:-1][(np.diff(s)[:-1] * np.diff(s)[1:]) <= 0], 1.0, s[0]])) < 0.05:
            ctx.skip("near a vertical tangent")
        with contextlib.redirect_stdout(io.StringIO()):
            got = bool(point_in_curve(c, x))
        want = winding(Q, x) % 2 == 1
        ctx.check("inside:curve", got == want, "degree %d: point_in_curve(%r) = %r" % (p, x.tolist(), got))
        ctx.state(p, len(cr), want)


SCENARIOS = {
    "contour": (contour, 80, 2500),
    "ovals": (ovals, 12, 300),
    "projections": (projections, 200, 10000),
    "intersections": (intersections, 40, 1200),
    "marched": (marched, 150, 5000),
    "newton": (newton, 150, 6000),
    "parametrized": (parametrized, 30, 800),
    "raster": (raster, 60, 2000),
    "inside": (inside, 200, 8000),
}
