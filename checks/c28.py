"""C28: results depend on the arguments alone: not on memory contents, call history, or other threads, and arguments stay as they are."""
import contextlib
import copy
import gc
import io
import threading

import numpy as np

import gen
from mm import cdata, curve, sdata, surf
from mmcore.construction import ruled
from mmcore.geom import primitives as PR
from mmcore.geom import parametric as PM
from mmcore.geom import polygon as PG
from mmcore.geom.bvh import BoundingBox, Object3D, build_bvh, intersect_bvh_objects
from mmcore.geom.curves import knot as K
from mmcore.geom.curves._cubic import CubicSpline
from mmcore.geom.curves._nurbs import NURBSpline as CNURBSpline
from mmcore.geom.curves.bspline import NURBSpline, interpolate_nurbs_curve
from mmcore.geom.curves.deboor import evaluate_nurbs, evaluate_nurbs_multi
from mmcore.geom.nurbs import (
    NURBSCurve, NURBSSurface, all_basis_funs, basis_functions, decompose_curve, decompose_surface, ders_basis_funs, find_span,
    greville_abscissae, reverse_curve, split_curve, split_curve_multiple, split_surface_u, split_surface_v, subdivide_surface)
from mmcore.numeric import aabb as AB
from mmcore.numeric import calgorithms as CA
from mmcore.numeric import closest_point as CP
from mmcore.numeric import plane as PL
from mmcore.numeric import vectors as V
from mmcore.numeric.algorithms import moller as MO
from mmcore.numeric.algorithms.cygjk import gjk
from mmcore.numeric.algorithms.point_inversion import point_inversion_curve, point_inversion_surface
from mmcore.numeric.algorithms.quicksort import argsort, unique
from mmcore.numeric.arc_length import *  # noqa: F401,F403
from mmcore.numeric.binom import binomial_coefficient_py
from mmcore.numeric.integrate.romberg import romberg1d
from mmcore.numeric.intersection.ccx import ccx
from mmcore.numeric.intersection.csx import csx, curve_x_plane, nurbs_csx
from mmcore.numeric.interval import Interval
from mmcore.numeric.fdm import FDM, Grad, Hess
from mmcore.numeric.newton.cnewton import newtons_method

RULE = "one case = one of the operations listed here with random arguments, called repeatedly between poisonings of freed memory (NaN, huge and tiny values), after unrelated calls, on an equal but separate copy of its arguments, and from several threads at once; all results must be bitwise equal and the arguments unchanged"
ASSUMPTIONS = [
    "operations that are documented to edit their object are called on a copy",
    "bitwise equality is required, as all of these are deterministic algorithms; where threads share an object, they only query it",
    "memory is poisoned through the allocators numpy and malloc use for freed blocks of up to 64 KiB: a read of uninitialised memory can be missed, but never invented",
]

OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def C(rng, **k):
    return curve(*gen.curve_data(rng, **k)[:4])


def S(rng, **k):
    return surf(*gen.surface_data(rng, **k))


def t_in(rng, c, n=None):
    lo, hi = (float(x) for x in c.interval())
    return float(rng.uniform(lo, hi)) if n is None else np.sort(rng.uniform(lo, hi, n))


def uv_in(rng, s, n=None):
    (a, b), (c, d) = s.interval()
    return np.array([rng.uniform(a, b), rng.uniform(c, d)]) if n is None else np.ascontiguousarray(np.c_[rng.uniform(a, b, n), rng.uniform(c, d, n)])


@op
def curve_points(rng):
    c = C(rng)
    return (c, t_in(rng, c), t_in(rng, c, 7)), lambda c, t, ts: (c.evaluate(t), c.evaluate_multi(ts), c.start(), c.end(), c.evaluate4d(t), c.points(9))


@op
def curve_derivatives(rng):
    c = C(rng)
    return (c, t_in(rng, c)), lambda c, t: (c.derivative(t), c.second_derivative(t), c.tangent(t), c.normal(t), c.curvature(t), c.plane_at(t), c.derivatives1(t, 2), c.derivatives2(t, 2))


@op
def curve_data(rng):
    c = C(rng)
    return (c,), lambda c: (c.bbox(), c.greville_abscissae, c.interval(), c.degree, c.control_points, c.weights, c.knots, c.geometry_hash() if callable(c.geometry_hash) else c.geometry_hash, c.serialize())


@op
def curve_edit(rng):
    c = C(rng)

    def f(c, t):
        a = c.copy()
        a.insert_knot(t, 1)
        b = c.copy()
        b.normalize_knots()
        r = [a, b, c.flip(), reverse_curve(c)]
        r += list(split_curve(c, t))
        r += list(decompose_curve(c))
        return r

    return (c, t_in(rng, c)), f


@op
def curve_elevate(rng):
    return (C(rng, pmax=3), int(rng.integers(1, 3))), lambda c, n: K.degree_elevate_curve(c, n)


@op
def curve_kernels(rng):
    P, w, U, p = gen.curve_data(rng)[:4]
    t = float(rng.uniform(U[p], U[-p - 1]))
    n = len(P) - 1

    def f(P, U, p, t, n):
        s = find_span(n, p, t, U, False)
        return s, basis_functions(s, t, p, U), all_basis_funs(s, t, p, U), ders_basis_funs(s, t, p, min(2, p), U), greville_abscissae(U, p)

    return (P, U, p, t, n), f


@op
def curve_deboor(rng):
    P, w, U, p = gen.curve_data(rng)[:4]
    ts = rng.uniform(U[p], U[-p - 1], 6)
    return (np.ascontiguousarray(np.c_[P, w]), U, p, ts), lambda H, U, p, ts: [NURBSpline(H[:, :3].copy(), degree=p, knots=U.tolist()).evaluate(float(t)) for t in ts]


@op
def cubic(rng):
    P = rng.normal(size=(4, 3))
    return (P, rng.random(5)), lambda P, ts: [(c.evaluate(t), c.derivative(t), c.second_derivative(t)) for c in [CubicSpline(*P)] for t in ts]


@op
def surface_points(rng):
    s = S(rng)
    return (s, uv_in(rng, s), uv_in(rng, s, 6)), lambda s, q, qs: (s.evaluate(q), s.evaluate_v2(*q), s.evaluate_multi(qs), s.normal(q), s.normal_multi(qs), s.plane_at(q))


@op
def surface_derivatives(rng):
    s = S(rng)
    return (s, uv_in(rng, s)), lambda s, q: (s.derivative_u(q), s.derivative_v(q), s.derivatives(q), s.second_derivative_uu(q), s.second_derivative_uv(q), s.second_derivative_vv(q))


@op
def surface_data(rng):
    s = S(rng)
    return (s,), lambda s: (s.bbox(), s.interval(), s.degree, s.control_points, s.control_points_flat, s.control_points_w, s.knots_u, s.knots_v)


@op
def surface_edit(rng):
    s = S(rng)

    def f(s, q):
        a, b = s.copy(), s.copy()
        a.insert_knot_u(float(q[0]), 1)
        b.insert_knot_v(float(q[1]), 1)
        return [a, b] + list(split_surface_u(s, float(q[0]))) + list(split_surface_v(s, float(q[1]))) + list(subdivide_surface(s))

    return (s, uv_in(rng, s)), f


@op
def surface_decompose(rng):
    return (S(rng, pmax=3, extra=2),), lambda s: decompose_surface(s)


@op
def vectors(rng):
    n = int(rng.integers(1, 9))
    A, B = rng.normal(size=(2, n, 3))

    def f(A, B, a, b, M, k):
        r = np.zeros(2)
        return (V.unit(A), V.norm(A), V.dot(A, B), V.cross(A, B), V.gram_schmidt(A, B), V.scalar_unit(a), V.scalar_norm(a), V.scalar_cross(a, b), V.scalar_dot(a, b),
                V.vector_projection(a, b), V.dot_array_x_vec(A, a), V.dot_vec_x_array(a, A), V.det(M), V.solve2x2(M, k, r), r,
                V.support_vector(A, a), V.multi_support_vector(A, B))

    return (A, B, A[0].copy(), B[0].copy(), rng.normal(size=(2, 2)), rng.normal(size=2)), f


@op
def spherical(rng):
    A = rng.normal(size=(int(rng.integers(1, 9)), 3))
    return (A,), lambda A: (V.cartesian_to_spherical(A), V.courtesan_to_cylindrical(A))


@op
def planes(rng):
    pl = np.vstack([rng.normal(size=3), gen.rotation(rng)])
    q = np.vstack([rng.normal(size=3), gen.rotation(rng)])
    return (pl, q, rng.normal(size=3)), lambda p, q, x: (PL.project(p, x), PL.distance(p, x), PL.evaluate_plane(p, x), PL.inverse_evaluate_plane(p, x), PL.plane_plane_intersect(p, q))


@op
def curvature(rng):
    a, b = rng.normal(size=(2, 3))

    def f(a, b):
        t, u, k = np.zeros((3, 3))
        return CA.evaluate_tangent(a, b, t), t, CA.evaluate_curvature(a, b, u, k), u, k

    return (a, b), f


@op
def boxes(rng):
    A, B = rng.normal(size=(2, int(rng.integers(2, 9)), 3))
    B = B + rng.normal(size=3)

    def f(A, B, o, d):
        a, b, out = np.array(AB.aabb(A)), np.array(AB.aabb(B)), np.zeros((2, 3))
        return a, b, AB.aabb_intersect(a, b), AB.aabb_intersection(a, b), AB.segment_aabb_intersect(a, np.array([o, o + d])), AB.segment_aabb_clip(a, np.array([o, o + d]), out), out, AB.ray_aabb_intersect(a, o, d)

    return (A, B, rng.normal(size=3), rng.normal(size=3)), f


@op
def hulls(rng):
    A, B = rng.normal(size=(2, int(rng.integers(1, 20)), 3))
    return (A, B + rng.normal(size=3)), lambda A, B: gjk(A, B, 1e-6, 30)


@op
def triangles(rng):
    T = rng.normal(size=(int(rng.integers(1, 10)), 3, 3))
    return (T, rng.normal(size=(2, 3))), lambda T, s: [MO.intersect_triangle_segment(t[0], t[1], t[2], s[0], s[1], np.zeros(3)) for t in T]


@op
def sorting(rng):
    a = np.round(rng.normal(size=int(rng.integers(1, 40))), 1)
    return (a,), lambda a: (argsort(a.copy()), unique(a.copy()))


@op
def solids(rng):
    o, d = rng.normal(size=(2, 3))
    return (o, d, rng.normal(size=3), float(rng.uniform(0.2, 2))), lambda o, d, x, r: (PR.Sphere(o, r).implicit(x), PR.Sphere(o, r).gradient(x), PR.Sphere(o, r).bounds(), PR.Tube(o, o + d, r, 0.1).implicit(x), PR.Cylinder(o, o + d, r).implicit(x), PR.Cylinder(o, o + d, r).bounds())


@op
def parametric(rng):
    P = rng.normal(size=(4, 3))
    a, b = C(rng, dom=(0.0, 1.0)), C(rng, dom=(0.0, 1.0))
    q = rng.random((5, 2))

    def f(P, a, b, q):
        s, r = PM.BiLinear(*P), PM.Ruled(a, b)
        return [(s.evaluate(x), s.normal(x), s.derivative_u(x), s.derivative_v(x), r.evaluate(x), r.derivative_u(x), r.derivative_v(x)) for x in q]

    return (P, a, b, q), f


@op
def building(rng):
    return (C(rng), C(rng)), lambda a, b: ruled(a, b)


@op
def interpolation(rng):
    return (rng.normal(size=(int(rng.integers(4, 12)), 3)), int(rng.integers(1, 4))), lambda P, p: interpolate_nurbs_curve(P, p)


@op
def polygons(rng):
    a = np.sort(rng.random(8)) * 6.28
    P = np.c_[np.cos(a), np.sin(a)] * rng.uniform(0.5, 1, 8)[:, None]
    return (P, P * 0.7 + rng.normal(size=2) * 0.4, rng.normal(size=2)), lambda P, Q, x: (PG.polygon_area(P), PG.is_point_in_polygon(x, P.tolist()), PG.is_point_in_polygon_bvh(P.tolist(), x), PG.convex_hull2d(P), [np.array(r.points) for r in PG.Polygon(P) + PG.Polygon(Q)])


@op
def trees(rng):
    A = rng.normal(size=(int(rng.integers(1, 12)), 3))
    B = rng.normal(size=(int(rng.integers(1, 12)), 3))

    def f(A, B):
        mk = lambda X: build_bvh([Object3D(BoundingBox(x - 0.4, x + 0.4)) for x in X])
        return sorted((tuple(x.bounding_box.min_point), tuple(y.bounding_box.min_point)) for x, y in intersect_bvh_objects(mk(A), mk(B)))

    return (A, B), f


@op
def inversion(rng):
    c, s = C(rng, smooth=True), S(rng, height=1.0)
    t, q = t_in(rng, c), uv_in(rng, s)
    return (c, t, s, q), lambda c, t, s, q: (point_inversion_curve(c, np.array(c.evaluate(t)), t, 1e-6, 1e-6), point_inversion_surface(s, np.array(s.evaluate(q)), q[0], q[1], 1e-6, 1e-6))


@op
def closest(rng):
    c = C(rng, smooth=True, pmax=3, extra=3)
    return (c, rng.normal(size=3)), lambda c, x: (CP.closest_point_on_nurbs_curve(c, x), CP.closest_point_on_line((x, x + 1.0), x * 2), CP.closest_point_on_ray((x, np.ones(3)), x * 2))


@op
def lines(rng):
    return (C(rng, pmax=3, extra=3), np.vstack([rng.normal(size=3), gen.rotation(rng)])), lambda c, pl: curve_x_plane(c, pl)


@op
def crossings(rng):
    a, b = rng.normal(size=(2, 4, 3)) * np.array([1, 1, 0.0])
    return (a, b), lambda a, b: ccx(NURBSpline(a, degree=3), NURBSpline(b, degree=3), tol=1e-3)


@op
def piercings(rng):
    return (C(rng, pmax=3, extra=2, smooth=True), S(rng, pmax=2, extra=2, height=1.0)), lambda c, s: nurbs_csx(c, s)


@op
def numbers(rng):
    x = rng.normal(size=3)
    f = lambda p: float(np.sin(p[0]) * p[1] + p[2] ** 2)
    return (x,), lambda x: (Grad(f)(x), Hess(f)(x), FDM(np.sin)(float(x[0])), romberg1d(np.cos, 0.0, float(abs(x[1])) + 0.1), newtons_method(lambda p: float((p - x) @ (p - x)), x + 0.1), binomial_coefficient_py(9, int(abs(x[0]) * 3)))


@op
def intervals(rng):
    a, b = np.sort(rng.normal(size=(2, 2)), axis=1)
    return (a, b), lambda a, b: [(r.lower, r.upper) if hasattr(r, "lower") else str(r) for X in [Interval(*a)] for Y in [Interval(*b)] for r in (X + Y, X - Y, X * Y, X * X)]


def plain(x):
    """a comparable form of any result"""
    if isinstance(x, NURBSCurve):
        return ("curve",) + tuple(plain(y) for y in cdata(x))
    if isinstance(x, NURBSSurface):
        return ("surface",) + tuple(plain(y) for y in sdata(x))
    if isinstance(x, (tuple, list)):
        return tuple(plain(y) for y in x)
    if isinstance(x, dict):
        return tuple((plain(k), plain(v)) for k, v in x.items())
    if isinstance(x, (str, bytes, bool, type(None))):
        return x
    if isinstance(x, (int, float, np.number)):
        return np.float64(x).tobytes()
    try:
        a = np.asarray(x)
        if a.dtype != object:
            return (a.shape, a.tobytes())
    except Exception:
        pass
    return repr(type(x))


def attempt(f, args):
    try:
        with np.errstate(all="ignore"):
            r = f(*args)
            return ("ok", plain(r))
    except (ValueError, IndexError, ZeroDivisionError, TypeError, AttributeError, NameError, RuntimeError, OverflowError, np.linalg.LinAlgError) as e:
        return ("error", type(e).__name__)


def show(r):
    out = []

    def walk(x):
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) and isinstance(x[1], bytes):
            out.append(np.frombuffer(x[1][: len(x[1]) // 8 * 8], float))
        elif isinstance(x, bytes) and len(x) == 8:
            out.append(np.frombuffer(x, float))
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
        else:
            out.append(x)

    walk(r)
    return out


def differ(a, b):
    a, b = show(a), show(b)
    if len(a) != len(b):
        return "%d values, not %d" % (len(b), len(a))
    for i, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            if x.tobytes() != y.tobytes():
                return "value %d: %s, then %s" % (i, x[:6], y[:6])
        elif x != y:
            return "value %d: %r, then %r" % (i, x, y)
    return "equal"


def poison(value):
    """freed blocks of every small size are left full of the value"""
    keep = []
    for n in list(range(1, 130)) + [160, 200, 256, 400, 512, 800, 1024, 2048, 8192]:
        for _ in range(3):
            keep.append(np.full(n, value))
    raw = np.float64(value).tobytes()
    for n in (8, 16, 24, 32, 48, 64, 96, 128, 200, 256, 384, 512):
        for _ in range(6):
            keep.append(bytearray(raw * (n // 8)))
    del keep


def single(ctx):
    rng = ctx.rng
    nm = list(OPS)[ctx.index % len(OPS)]
    args, f = OPS[nm](rng)
    before = plain(args)
    first = attempt(f, args)
    ctx.state("op", nm, first[0])
    ctx.observe("single:results", 1)
    ctx.check("single:arguments", plain(args) == before, "%s changed its arguments: %s" % (nm, differ(before, plain(args))))
    twin = tuple(x.copy() if isinstance(x, (NURBSSurface, np.ndarray)) else copy.deepcopy(x) for x in args)
    ctx.check("single:copy", plain(twin) == before, "a copy of the arguments of %s differs: %s" % (nm, differ(before, plain(twin))))
    for v in (np.nan, 1e300, -1e-300, 7.5, 0.0):
        poison(v)
        got = attempt(f, args)
        ctx.check("single:memory", got == first, "%s depends on the contents of free memory (%r): %s" % (nm, v, differ(first, got)))
    other, g = OPS[list(OPS)[int(rng.integers(len(OPS)))]](rng)
    attempt(g, other)
    same, _ = OPS[nm](np.random.default_rng(int(rng.integers(2 ** 31))))
    attempt(f, same)
    got = attempt(f, args)
    ctx.check("single:history", got == first, "%s depends on earlier calls: %s" % (nm, differ(first, got)))
    got = attempt(f, twin)
    ctx.check("single:twin", got == first, "%s differs for an equal copy of its arguments: %s" % (nm, differ(first, got)))
    ctx.check("single:arguments", plain(args) == before, "%s changed its arguments: %s" % (nm, differ(before, plain(args))))


def raw(f, args):
    try:
        with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
            return f(*args)
    except (ValueError, IndexError, ZeroDivisionError, TypeError, AttributeError, RuntimeError, OverflowError, np.linalg.LinAlgError):
        return None


def kept(ctx):
    """results stay as they are after further calls and after the objects they came from are gone"""
    rng = ctx.rng
    nm = list(OPS)[ctx.index % len(OPS)]
    args, f = OPS[nm](rng)
    r = raw(f, args)
    if r is None:
        return ctx.skip("no result")
    want = plain(r)
    other, _ = OPS[nm](np.random.default_rng(int(rng.integers(2 ** 31))))
    more = raw(f, other)
    raw(f, args)
    ctx.check("kept:calls", plain(r) == want, "a result of %s changed when it was called again: %s" % (nm, differ(want, plain(r))))
    del args, f, other, more
    for v in (np.nan, 7.5):
        gc.collect()
        poison(v)
        ctx.check("kept:freed", plain(r) == want, "a result of %s changed after its arguments were freed: %s" % (nm, differ(want, plain(r))))
    ctx.state("kept", nm)


def threads(ctx):
    """several threads, each with its own arguments, and sharing arguments"""
    rng = ctx.rng
    nm = list(OPS)[ctx.index % len(OPS)]
    jobs = []
    shared = bool(rng.integers(2))
    if shared:
        a, f = OPS[nm](rng)
        jobs = [(a, f)] * 4
    else:
        jobs = [OPS[nm](rng) for _ in range(4)]
    before = [plain(a) for a, _ in jobs]
    want = [attempt(f, a) for a, f in jobs]
    got = [[] for _ in jobs]
    gate = threading.Barrier(len(jobs))

    def work(i):
        gate.wait()
        for _ in range(6):
            got[i].append(attempt(jobs[i][1], jobs[i][0]))

    ts = [threading.Thread(target=work, args=(i,)) for i in range(len(jobs))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ctx.state("threads", nm, shared)
    for i, w in enumerate(want):
        bad = [g for g in got[i] if g != w]
        ctx.check("threads:results", not bad and len(got[i]) == 6, "%s in a thread (%s arguments): %s" % (nm, "shared" if shared else "own", differ(w, bad[0]) if bad else "%d results" % len(got[i])))
    ctx.check("threads:arguments", [plain(a) for a, _ in jobs] == before, "%s changed its arguments in threads" % nm)


SCENARIOS = {
    "single": (single, 30 * 36, 30 * 900),
    "kept": (kept, 20 * 36, 30 * 400),
    "threads": (threads, 10 * 36, 30 * 200),
}
