"""C27: no operation of the compiled kernels touches memory it does not own, or executes undefined behaviour.

Runs in a process whose extension modules are all compiled with AddressSanitizer and
UndefinedBehaviorSanitizer (see lib/build.py: sanitized).  The workloads are those of the
other properties plus hostile ones; what decides here is only what the sanitizers report
and how the heap develops.
"""
import ctypes
import gc
import glob
import importlib
import os
import pickle
import time

import numpy as np

import gen
import harness
from mm import curve, surf

BUILD = "sanitized"
RULE = "one case = one case of another property's workload, or one hostile or repeated operation, executed by sanitized extension modules; the sanitizers' report files are read after every case"
ASSUMPTIONS = [
    "gcc's AddressSanitizer sees heap, stack and global accesses outside the object and use after free or return; accesses that stay inside one array are judged by the other properties",
    "Python and numpy themselves are not instrumented; Python's allocator is replaced by malloc so that their objects have red zones",
    "kernels called with arrays of the documented shape (a parameter pair has two items); objects that violate the preconditions must be refused, not evaluated",
]
CPU_CASE = 300
LOGS = os.environ.get("VERIF_SANLOG", "")
WORKLOADS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C14", "C15", "C16", "C17", "C20", "C21", "C22", "C24", "C31"]
LEFT_OUT = {("C10", "workers"), ("C31", "rounded_crossings")}    # child processes


def reports():
    out = ""
    for f in glob.glob(os.path.join(LOGS, "*.%d" % os.getpid())):
        with open(f, errors="replace") as h:
            out += h.read()
    return out


_seen = [0]


def judge(ctx, what):
    text = reports()
    new = text[_seen[0]:]
    _seen[0] = len(text)
    if not LOGS:
        ctx.check("sanitizers-active", False, "the check runs without sanitizers")
    lines = [l for l in new.splitlines() if "ERROR: " in l or "runtime error" in l or " in __pyx_" in l or ".c:" in l or ".cpp:" in l]
    ctx.check("no-sanitizer-report", not new.strip(), "%s: %s" % (what, " | ".join(l.strip() for l in lines[:4])))


def nested(prop, name):
    def case(ctx):
        mod = importlib.import_module("checks." + prop.lower())
        r = harness.run_case(mod, prop, name, ctx.seed, ctx.index, "quick", {})
        ctx.observe("operations-judged-elsewhere", sum(r["counts"].values()))
        for s in r["sigs"][:50]:
            ctx.sigs.add(s)
        judge(ctx, "%s.%s[%d]" % (prop, name, ctx.index))
    return case


def attempt(f, *a):
    try:
        return f(*a)
    except Exception:
        return None


SURFACE_AT = ("evaluate", "derivative_u", "derivative_v", "second_derivative_uu", "second_derivative_uv", "second_derivative_vv", "normal")


def call(obj, name, *a):
    f = getattr(obj, name, None)
    if f is not None:
        attempt(f, *a)


def hostile_values(rng):
    return [np.nan, np.inf, -np.inf, 1e300, -1e300, -1.0, 0.0, 1.0, 2.0, np.nextafter(2.0, 3), np.nextafter(0.0, -1), float(rng.uniform(-3, 5))]


def use_curve(c):
    a, b = c.interval()
    for t in (a, b, (a + b) / 2):
        for f in ("evaluate", "derivative", "second_derivative", "tangent", "normal", "curvature"):
            call(c, f, t)
    call(c, "bbox")
    call(c, "serialize")
    call(c, "copy")


def use_surface(s):
    (a, b), (c, d) = s.interval()
    for u in (a, b, (a + b) / 2):
        for v in (c, d, (c + d) / 2):
            uv = np.array([u, v])
            for f in SURFACE_AT:
                call(s, f, uv)
    attempt(s.bbox)
    attempt(s.copy)


def bad_objects(ctx):
    """objects that violate the preconditions, and edits that would: refused, or harmless"""
    from mmcore.geom.nurbs import NURBSCurve, NURBSSurface
    rng = ctx.rng
    n, p = int(rng.integers(0, 8)), int(rng.integers(-2, 9))
    m = max(0, n + p + 1 + int(rng.integers(-3, 4)))
    kinds = [None, np.linspace(0, 1, m), np.linspace(1, 0, m), np.full(m, np.nan), np.full(m, 1.0), np.zeros(0), np.sort(rng.random(m))]
    k = kinds[int(rng.integers(0, len(kinds)))]
    d = int(rng.choice([3, 3, 4, 2, 5, 1]))
    ctx.state("curve", n, p, m, d)
    c = attempt(NURBSCurve, rng.random((n, d)), p, k)
    if c is not None:
        use_curve(c)
    judge(ctx, "NURBSCurve of %d points, degree %d, %s knots" % (n, p, None if k is None else len(k)))
    c = NURBSCurve(rng.random((5, 3)), 3)
    for _ in range(3):
        j = int(rng.integers(0, 6))
        if j == 0:
            attempt(setattr, c, "knots", np.linspace(0, 1, int(rng.integers(0, 14))))
        elif j == 1:
            attempt(setattr, c, "degree", int(rng.integers(-2, 9)))
        elif j == 2:
            attempt(setattr, c, "weights", rng.random(int(rng.integers(0, 9))))
        elif j == 3:
            attempt(setattr, c, "control_points", rng.random((int(rng.integers(0, 9)), int(rng.integers(1, 6)))))
        elif j == 4:
            attempt(c.insert_knot, float(rng.uniform(0, 2)), int(rng.integers(-2, 9)))
        else:
            attempt(c.set, rng.random((int(rng.integers(0, 9)), 4)), np.linspace(0, 1, int(rng.integers(0, 14))))
        use_curve(c)
        judge(ctx, "edit %d of a curve" % j)
    nu, nv, pu, pv = (int(rng.integers(0, 6)), int(rng.integers(0, 6)), int(rng.integers(-1, 6)), int(rng.integers(-1, 6)))
    ku = None if rng.random() < 0.5 else np.linspace(0, 1, max(0, nu + pu + 1 + int(rng.integers(-2, 3))))
    kv = None if rng.random() < 0.5 else np.linspace(0, 1, max(0, nv + pv + 1 + int(rng.integers(-2, 3))))
    s = attempt(NURBSSurface, rng.random((nu, nv, d)), (pu, pv), ku, kv)
    if s is not None:
        use_surface(s)
    judge(ctx, "NURBSSurface %dx%d of degree %s" % (nu, nv, (pu, pv)))
    s = NURBSSurface(rng.random((4, 5, 3)), (3, 2))
    for _ in range(3):
        j = int(rng.integers(0, 4))
        if j == 0:
            attempt(setattr, s, "knots_u" if rng.random() < .5 else "knots_v", np.linspace(0, 1, int(rng.integers(0, 14))))
        elif j == 1:
            attempt(setattr, s, "degree", (int(rng.integers(-1, 7)), int(rng.integers(-1, 7))))
        else:
            attempt(s.insert_knot_u if j == 2 else s.insert_knot_v, float(rng.uniform(0, 2)), int(rng.integers(-2, 7)))
        use_surface(s)
        judge(ctx, "edit %d of a surface" % j)


def bad_parameters(ctx):
    """NaN, infinite and far parameters, absurd orders and counts"""
    from mmcore.geom.nurbs import split_curve, split_surface_u, split_surface_v, subdivide_surface
    rng = ctx.rng
    P, w, U, p = gen.curve_data(rng)
    H, Uu, Uv, pu, pv = gen.surface_data(rng)
    for t in hostile_values(rng):
        c, s = curve(P, w, U, p), surf(H, Uu, Uv, pu, pv)
        k = int(rng.integers(0, 12))
        for f in ("evaluate", "derivative", "second_derivative", "tangent", "normal", "curvature"):
            call(c, f, t)
        attempt(c.evaluate_multi, np.array([t, 0.5, t]))
        for order in (-1, 0, 1, k):
            attempt(c.derivatives1, t, order)
            attempt(c.derivatives2, t, order)
            attempt(c.derivative_control_points, t, order)
        attempt(split_curve, c, t)
        attempt(c.trim, t, float(rng.uniform(0, 1)))
        attempt(c.insert_knot, t, 1)
        for uv in (np.array([t, 0.5]), np.array([0.5, t]), np.array([t, t])):
            for f in SURFACE_AT:
                call(s, f, uv)
        attempt(split_surface_u, s, t)
        attempt(split_surface_v, s, t)
        attempt(subdivide_surface, s, t, t)
        attempt(s.insert_knot_u, t, 1)
        attempt(s.insert_knot_v, t, 1)
        judge(ctx, "parameter %r" % t)
        ctx.state(repr(t), p, len(P))


def damaged_bytes(ctx):
    from mmcore.geom.nurbs import NURBSCurve
    rng = ctx.rng
    P, w, U, p = gen.curve_data(rng)
    good = bytearray(curve(P, w, U, p).serialize())
    for _ in range(20):
        b = bytearray(good)
        for _ in range(int(rng.integers(1, 4))):
            i = int(rng.integers(0, min(len(b), 40 if rng.random() < 0.7 else len(b))))
            b[i] = int(rng.integers(0, 256))
        if rng.random() < 0.3:
            b = b[:int(rng.integers(0, len(b) + 1))]
        c = attempt(NURBSCurve.deserialize, bytes(b))
        if c is not None:
            use_curve(c)
            ctx.observe("accepted")
        else:
            ctx.observe("refused")
        judge(ctx, "a damaged serialized curve")


def layouts(ctx):
    """every kernel gets views: reversed, strided, transposed, sliced from the end of a buffer"""
    from mmcore.numeric import vectors as V
    from mmcore.numeric.algorithms import quicksort as Q
    from mmcore.geom import bvh
    from mmcore.numeric import _aabb
    rng = ctx.rng

    def view(shape):
        k = int(rng.integers(0, 5))
        if k == 0:
            return rng.random(shape)
        if k == 1:
            return np.asfortranarray(rng.random(shape))
        if k == 2:
            return rng.random(tuple(2 * x for x in shape))[tuple(slice(1, None, 2) for _ in shape)]
        if k == 3:
            return rng.random(shape)[tuple(slice(None, None, -1) for _ in shape)]
        a = rng.random(tuple(x + 2 for x in shape))
        return a[tuple(slice(2, None) for _ in shape)]
    n = int(rng.integers(1, 9))
    done = 0
    m = int(rng.integers(1, 9))
    d = int(rng.integers(1, 5))
    for names, shapes in (
        ("is_close", ((), ())), ("dot_array_x_array cross dot gram_schmidt", ((n, 3), (n, 3))), ("dot_array_x_array dot", ((n, d), (n, d))),
        ("matmul_array", ((n, d, 3), (n, 3, m))), ("dot_vec_x_array", ((d,), (n, d))), ("dot_array_x_vec", ((n, d), (d,))),
        ("scalar_dot", ((d,), (d,))), ("scalar_norm scalar_normalize scalar_unit", ((3,),)), ("norm unit", ((n, d),)),
        ("support_vector", ((n, 3), (3,))), ("multi_support_vector", ((n, 3), (m, 3))),
        ("spherical_to_cartesian cartesian_to_spherical cylindrical_to_xyz courtesan_to_cylindrical", ((n, 3),)),
        ("det cdet", ((3, 3),)), ("points_order", ((n + 3, 2),)), ("points_order", ((n + 3, 3),)), ("scalar_cross vector_projection", ((3,), (3,))),
        ("cinvert_jacobian", ((2, 2), (2, 2))), ("invert_jacobian", ((2, 2),)), ("invert_jacobian", ((n, 2, 2),)),
        ("closest_point_on_ray closest_point_on_line", ((3,), (3,), (3,))), ("solve2x2", ((2, 2), (2,), (2,))),
        ("make_perpendicular scalar_gram_schmidt decompose_vector", ((3,), (3,))), ("decompose_vector", ((3,), (3,), (3,))),
        ("decompose_vectors", ((n, 3), (3,), (3,))), ("normal_from_4pt", ((3,), (3,), (3,), (3,))),
    ):
        for name in names.split():
            f = getattr(V, name, None)
            if f is not None:
                attempt(f, *[view(x) if x else float(rng.random()) for x in shapes])
                done += 1
    judge(ctx, "vector kernels")
    ctx.observe("kernels", done)
    for f in (Q.unique, Q.argsort):
        attempt(f, view((n,)))
    attempt(Q.quicksort, view((n,)))
    judge(ctx, "sorting kernels")
    for name in ("aabb",):
        attempt(getattr(_aabb, name), view((n, 3)))
    a, b = view((n, 3)), view((n, 3))
    boxes = [np.array([np.minimum(x, y), np.maximum(x, y)]) for x, y in zip(a, b)]
    for x in boxes:
        for y in boxes:
            attempt(_aabb.aabb_intersect, x, y)
            attempt(_aabb.aabb_intersection, x, y)
    judge(ctx, "box kernels")
    P, w, U, p = gen.curve_data(rng)
    from mmcore.geom.nurbs import NURBSCurve, NURBSSurface
    m = len(P)
    pts = view((m, int(rng.choice([3, 4]))))
    k = np.r_[U, U][::1][:len(U)]
    c = NURBSCurve(pts, p, np.repeat(k, 2)[::2] if rng.random() < .5 else k)
    use_curve(c)
    attempt(c.evaluate_multi, np.linspace(*c.interval(), 2 * n)[::2])
    out = np.zeros((4, 6))[::2, ::2]
    attempt(c.bbox, out)
    g = view((4, 5, 4))
    use_surface(NURBSSurface(g, (2, 3)))
    s = NURBSSurface(g, (2, 3))
    attempt(s, view((n, 2)))
    attempt(s.evaluate_multi, view((n, 2)))
    attempt(s.normal, view((2,)))
    judge(ctx, "splines of strided arrays")


CURVE_AT = ("evaluate", "evaluate4d", "_evaluate", "derivative", "second_derivative", "tangent", "normal", "curvature", "plane_at", "circle_of_curvature",
            "derivatives1", "derivatives2", "derivative_control_points", "dderivative", "dsecond_derivative", "step")
CURVE_OF = ("start", "end", "is_closed", "is_open", "is_periodic", "get_degree", "bbox", "copy", "serialize", "greville_abscissae", "normalize_knots", "knots_update_hook",
            "make_periodic", "make_open", "__getstate__", "__reduce__", "__hash__", "geometry_hash", "points", "interval", "build_tree", "flip")


def methods(ctx):
    """every method of every curve and surface class at parameters of its domain"""
    import copy
    from mmcore.geom.curves._cubic import CubicSpline
    from mmcore.geom.curves._nurbs import NURBSpline as CompiledSpline
    from mmcore.geom.curves.bspline import NURBSpline
    from mmcore.geom.nurbs import NURBSCurve
    from mmcore.geom.parametric import ReparametrizedCurve, BiLinear, Ruled
    from mmcore.geom.primitives import Sphere, Cylinder, ImplicitCylinder, Tube
    rng = ctx.rng
    P, w, U, p = gen.curve_data(rng, pmax=6)
    k = ctx.index % 8
    per = rng.random() < 0.3 and len(P) > p
    args = (np.c_[P, w], p, None if per else U.copy(), per)
    if k == 0:
        c = CompiledSpline(*args)
    elif k == 1:
        c = NURBSpline(*args)
    elif k == 2:
        c = NURBSCurve(*args)
    elif k == 3:
        c = CubicSpline(*rng.normal(size=(4, 3)))
    elif k == 4:
        c = NURBSpline(P[:, :2].copy(), p, U.copy())
    else:
        c = None
    if c is not None:
        lo, hi = c.interval()
        ts = [lo, hi, (lo + hi) / 2, float(rng.uniform(lo, hi))] + [float(t) for t in U if lo <= t <= hi][:3]
        for t in ts:
            for f in CURVE_AT:
                call(c, f, t)
            for f in ("derivatives1", "derivatives2", "derivative_control_points"):
                for d in (0, 1, 2, p, p + 2):
                    call(c, f, t, d)
            attempt(c, t)
        judge(ctx, "methods of %s at its parameters" % type(c).__name__)
        a = np.array(ts)
        for f in ("planes_at", "evaluate_multi", "tangents", "curvatures", "__call__"):
            call(c, f, a)
            call(c, f, np.zeros(0))
        for f in CURVE_OF:
            x = attempt(copy.copy, c) if f in ("make_periodic", "make_open", "normalize_knots") else c
            if x is not None:
                call(x, f)
                for t in ts[:2]:
                    call(x, "evaluate", float(min(max(t, x.interval()[0]), x.interval()[1])))
        for f in ("control_points", "weights", "knots", "degree", "tree", "greville_abscissae", "periodic"):
            attempt(getattr, c, f)
        attempt(copy.deepcopy, c)
        attempt(lambda: pickle.loads(pickle.dumps(c)))
        call(c, "generate_control_points_periodic", np.c_[P, w])
        call(c, "points", int(rng.integers(0, 9)))
        for q in (0, 1, -1, 5):
            call(c, "set_degree", q)
            call(c, "evaluate", float(np.mean(c.interval())))
    else:
        q = [rng.normal(size=3) for _ in range(4)]
        H, Uu, Uv, pu, pv = gen.surface_data(rng)
        s = {5: lambda: BiLinear(*q), 6: lambda: Ruled(CubicSpline(*q), CubicSpline(*[x + 1 for x in q])),
             7: lambda: surf(H, Uu, Uv, pu, pv)}[k]()
        (u0, u1), (v0, v1) = s.interval()
        for u in (u0, u1, float(rng.uniform(u0, u1))):
            for v in (v0, v1, float(rng.uniform(v0, v1))):
                uv = np.array([u, v])
                for name in dir(s):
                    if not name.startswith("__") and any(x in name for x in ("derivative", "normal", "evaluate", "plane", "curvature", "fundamental", "point", "project")):
                        f = getattr(s, name)
                        if callable(f):
                            attempt(f, uv)
                            attempt(f, np.array([uv, uv]))
        judge(ctx, "methods of %s at its parameters" % type(s).__name__)
        for o in (attempt(Sphere, q[0], 1.5), attempt(Cylinder, q[0], q[1], 0.7), attempt(ImplicitCylinder, q[0], q[1], 0.7), attempt(Tube, q[0], q[1], 0.7, 0.2)):
            if o is not None:
                for f in ("implicit", "normal", "evaluate"):
                    call(o, f, q[2])
                for f in ("bounds", "bbox", "interval", "vimplicit"):
                    call(o, f)
                call(o, "vimplicit", np.array(q))
    ctx.state(k, p, len(P), per)
    judge(ctx, "methods of object %d" % k)


def bad_splines(ctx):
    """splines of all classes, periodic ones too: objects and edits that violate their preconditions are refused, or harmless"""
    from mmcore.geom.curves._nurbs import NURBSpline as CompiledSpline
    from mmcore.geom.curves.bspline import NURBSpline
    rng = ctx.rng
    from mmcore.geom.nurbs import NURBSCurve
    cls = [CompiledSpline, NURBSpline, NURBSCurve][int(rng.integers(3))]
    n, p = int(rng.integers(0, 8)), int(rng.integers(-2, 9))
    m = max(0, n + p + 1 + int(rng.integers(-3, 4)))
    k = [None, np.linspace(0, 1, m), np.linspace(1, 0, m), np.full(m, np.nan), np.full(m, 1.0), np.zeros(0), np.sort(rng.random(m))][int(rng.integers(7))]
    c = attempt(cls, rng.random((n, int(rng.choice([3, 4, 2])))), p, k)
    if c is not None:
        use_curve(c)
    ctx.state(cls is NURBSpline, n, p, m)
    judge(ctx, "%s of %d points, degree %d, %s knots" % (cls.__name__, n, p, None if k is None else len(k)))
    c = cls(rng.random((5, 4)), 3)
    for _ in range(3):
        j = int(rng.integers(0, 6))
        if j == 0:
            attempt(setattr, c, "knots", np.linspace(0, 1, int(rng.integers(0, 14))))
        elif j == 1:
            attempt(setattr, c, "degree", int(rng.integers(-2, 9)))
        elif j == 2:
            attempt(setattr, c, "weights", rng.random(int(rng.integers(0, 9))))
        elif j == 3:
            attempt(setattr, c, "control_points", rng.random((int(rng.integers(0, 9)), int(rng.integers(1, 6)))))
        elif j == 4:
            attempt(c.set, rng.random((int(rng.integers(0, 9)), 4)), np.linspace(0, 1, int(rng.integers(0, 14))))
        else:
            attempt(c.make_periodic if rng.random() < 0.6 else c.make_open)
        use_curve(c)
        for t in hostile_values(rng)[:6]:
            for f in ("evaluate", "derivative", "normal", "plane_at"):
                call(c, f, t)
        judge(ctx, "edit %d of a %s" % (j, cls.__name__))


def allocated():
    f = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    f.restype = ctypes.c_size_t
    return f()


def operations(rng):
    """named operations whose effect on the heap must not grow with repetition"""
    from mmcore.geom.nurbs import NURBSCurve, decompose_curve, split_curve, split_surface_u, split_surface_v, subdivide_surface
    from mmcore.numeric.algorithms.quicksort import unique
    P, w, U, p = gen.curve_data(rng, pmax=4, extra=4)
    H, Uu, Uv, pu, pv = gen.surface_data(rng)
    c, s = curve(P, w, U, p), surf(H, Uu, Uv, pu, pv)
    a, b = c.interval()
    (u0, u1), (v0, v1) = s.interval()
    t = float(rng.uniform(a + 0.1 * (b - a), b - 0.1 * (b - a)))
    u, v = float(rng.uniform(u0 + .1 * (u1 - u0), u1 - .1 * (u1 - u0))), float(rng.uniform(v0 + .1 * (v1 - v0), v1 - .1 * (v1 - v0)))
    uv = np.array([u, v])
    ts = np.linspace(a, b, 7)
    data = c.serialize()
    blob = pickle.dumps(c)
    from mmcore.topo.mesh.triangle.tri import triangulate
    pts = rng.random((12, 2))

    def ins():
        x = c.copy()
        attempt(x.insert_knot, t, 1)

    def sins():
        x = s.copy()
        attempt(x.insert_knot_u, u, 1)
        attempt(x.insert_knot_v, v, 1)

    def deg():
        x = NURBSSurface3()
        x.degree = (2, 2)

    def NURBSSurface3():
        return surf(H, Uu, Uv, pu, pv)

    def bad_data():
        attempt(NURBSCurve.deserialize, data[:24] + data[24:-9])
        attempt(NURBSCurve.deserialize, data[:8] + b"\xff" + data[9:])

    ops = {
        "construct": lambda: curve(P, w, U, p), "evaluate": lambda: c._evaluate(t), "multi": lambda: c.evaluate_multi(ts),
        "derivatives": lambda: (c.derivative(t), c.second_derivative(t), c.derivatives2(t, 2)),
        "copy": c.copy, "serialize": c.serialize, "deserialize": lambda: NURBSCurve.deserialize(data), "bad data": bad_data,
        "pickle": lambda: pickle.loads(blob), "hash": lambda: hash(c), "insert": ins, "split": lambda: split_curve(c, t),
        "decompose": lambda: decompose_curve(c), "flip": c.flip, "bbox": c.bbox,
        "surface": NURBSSurface3, "s.evaluate": lambda: s.evaluate(uv), "s.derivatives": lambda: (s.derivative_u(uv), s.second_derivative_uv(uv), s.normal(uv)),
        "s.copy": s.copy, "s.insert": sins, "s.split": lambda: (split_surface_u(s, u), split_surface_v(s, v)), "subdivide": lambda: subdivide_surface(s, u, v),
        "s.bbox": s.bbox, "s.hash": lambda: hash(s), "degree": lambda: attempt(deg),
        "unique": lambda: unique(np.array([3.0, 1.0, 3.0])), "triangulate": lambda: triangulate(dict(vertices=pts), "qne"),
    }
    return ops


def leaks(ctx):
    """the heap does not grow when an operation is repeated"""
    ops = operations(ctx.rng)
    names = sorted(ops)
    for name in names:
        f = ops[name]
        for _ in range(8):
            f()
        best = None
        for n in (40, 40, 200, 1000, 2000):     # caches may still fill up in the first rounds
            gc.collect()
            m0 = allocated()
            for _ in range(n):
                f()
            gc.collect()
            g = (allocated() - m0) / n
            best = g if best is None else min(best, g)
            if best < 4:
                break
        ctx.check("heap-does-not-grow", best < 4, "%s keeps %.0f bytes each time" % (name, best))
    ctx.state(tuple(names))
    judge(ctx, "repeated operations")


def repeats(ctx):
    """the heap does not grow when a whole case of another workload is repeated"""
    name = NAMES[ctx.index % len(NAMES)]
    prop, scen = name.split(".")
    mod = importlib.import_module("checks." + prop.lower())
    index = int(ctx.rng.integers(0, 40))
    t0 = time.process_time()
    best, n, total = None, 1, 0
    while True:
        gc.collect()
        m0 = allocated()
        for _ in range(n):
            harness.run_case(mod, prop, scen, ctx.seed, index, "quick", {})
        gc.collect()
        g = (allocated() - m0) / n
        total += n
        best = g if best is None else min(best, g)
        n = min(2 * n, 64)
        if best < 200 or time.process_time() - t0 > 6:
            break
    ctx.state(name)
    ctx.check("heap-does-not-grow", best < 200 or total < 60, "%s[%d] keeps %.0f bytes each time (%d times)" % (name, index, best, total))
    judge(ctx, "repeated case")


SLOW = {("C22", "areas"), ("C22", "splines"), ("C11", "boolean"), ("C10", "on_curve"), ("C11", "ppx")}
SCENARIOS = {
    "bad_objects": (bad_objects, 160, 6000),
    "bad_parameters": (bad_parameters, 24, 600),
    "damaged_bytes": (damaged_bytes, 60, 2000),
    "layouts": (layouts, 80, 2000),
    "methods": (methods, 160, 3000),
    "bad_splines": (bad_splines, 120, 3000),
    "leaks": (leaks, 8, 60),
}

for _p in WORKLOADS:
    for _n, _spec in importlib.import_module("checks." + _p.lower()).SCENARIOS.items():
        if (_p, _n) not in LEFT_OUT:
            SCENARIOS["%s.%s" % (_p, _n)] = (nested(_p, _n), max(3, _spec[1] // 8 if (_p, _n) in SLOW else _spec[1] // 3), max(6, _spec[1] * 2))
NAMES = sorted(k for k in SCENARIOS if "." in k and tuple(k.split(".")) not in SLOW)
SCENARIOS["repeats"] = (repeats, len(NAMES), 10 * len(NAMES))
