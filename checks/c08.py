"""C08: along any history of edits and queries, every answer of a NURBS object agrees with its current data."""
import numpy as np

import gen
import ref
from mm import NURBSCurve, NURBSSurface, curve, surf, cdata, sdata
from mmcore.geom import nurbs
from mmcore.geom.curves.bspline import NURBSpline

RULE = "one case = one random history of edits and queries on one or two live objects; a shadow model (plain control data) predicts the answer of every query, with parameters drawn from a small pool so that cached answers are asked for again after edits"
ASSUMPTIONS = [
    "oracle: shadow control data updated by each edit's definition, evaluated by the Cox-de Boor recursion; 1e-8 relative (first derivatives 1e-6)",
    "domain: edits through the public setters and methods (control_points, weights, knots, set, insert_knot, normalize_knots, flip); clamped knots, positive weights",
]
TOL = 1e-8


class Model:
    def __init__(self, P, w, U, p):
        self.P, self.w, self.U, self.p = np.array(P), np.array(w), np.array(U), p

    def pt(self, t):
        return ref.curve_point(self.P, self.w, self.U, self.p, float(t))


def query(ctx, c, m, pool, hist):
    rng = ctx.rng
    a, b = float(m.U[0]), float(m.U[-1])
    t = float(a + (b - a) * pool[int(rng.integers(len(pool)))])
    q = str(rng.choice(["evaluate", "evaluate", "evaluate", "multi", "call", "interval", "bbox", "data", "ends", "greville", "derivative", "points", "write"]))
    tag = "query:" + q
    msg = "%s at %r after %s" % (q, t, hist[-8:])
    if q == "evaluate":
        ctx.close(tag, c.evaluate(t), m.pt(t), TOL, msg)
    elif q == "multi":
        ts = a + (b - a) * np.array(pool)
        ctx.close(tag, c.evaluate_multi(ts), [m.pt(x) for x in ts], TOL, msg)
    elif q == "call":
        ctx.close(tag, np.asarray(c(t)).reshape(-1), m.pt(t), TOL, msg)
    elif q == "interval":
        ctx.close(tag, np.array(c.interval()), [a, b], 1e-12, msg)
    elif q == "bbox":
        bb = np.array(c.bbox()) if hasattr(c, "bbox") else None
        if bb is not None:
            ctx.close(tag, bb, [m.P.min(0), m.P.max(0)], 1e-9, msg)
    elif q == "data":
        P, w, U, p = cdata(c)
        ctx.close(tag, P, m.P, 1e-9, msg)
        ctx.close(tag, w, m.w, 1e-9, msg)
        ctx.close(tag, U, m.U, 1e-12, msg)
        ctx.check(tag, p == m.p, msg)
    elif q == "ends":
        ctx.close(tag, [c.start(), c.end()], [m.pt(a), m.pt(b)], TOL, msg)
    elif q == "greville":
        ctx.close(tag, c.greville_abscissae, [m.U[i + 1:i + m.p + 1].mean() for i in range(len(m.P))], 1e-9, msg)
    elif q == "derivative":
        if np.min(np.abs(m.U - t)) > 1e-4 * (b - a):
            want = ref.curve_ders(m.P, m.U, m.p, t, 1, w=m.w)[1]
            ctx.close(tag, np.asarray(c.derivative(t)).reshape(-1)[:3], want, 1e-6, msg)
    elif q == "points":
        n = int(rng.integers(2, 6))
        ctx.close(tag, np.asarray(c.points(n)), [m.pt(x) for x in np.linspace(a, b, n)], TOL, msg)
    elif q == "write":
        # scribbling on an answer must not change later answers
        r = c.evaluate(t)
        ctx.close(tag, r, m.pt(t), TOL, msg)
        np.asarray(r)[...] = -77.0
        r = c.evaluate_multi(np.array([t]))
        np.asarray(r)[...] = -77.0
        ctx.close(tag, c.evaluate(t), m.pt(t), TOL, msg + " (an earlier answer was overwritten by the caller)")
    hist.append(q)


def edit(ctx, c, m, hist):
    rng = ctx.rng
    op = str(rng.choice(["points", "points4", "weights", "knots", "set", "insert", "normalize", "flip", "arg-reuse"]))
    n = len(m.P)
    if op == "points":
        P = rng.uniform(-5, 5, (n, 3))
        c.control_points = P
        m.P, m.w = P.copy(), np.array(c.weights) * 0 + 1.0
    elif op == "points4":
        P, w = rng.uniform(-5, 5, (n, 3)), rng.uniform(0.4, 2.5, n)
        c.control_points = np.c_[P, w]
        m.P, m.w = P, w
    elif op == "weights":
        w = rng.uniform(0.4, 2.5, n)
        c.weights = w
        m.w = w.copy()
    elif op == "knots":
        s, o = float(rng.choice([0.5, 1.0, 2.0, 3.0])), float(rng.choice([-1.0, 0.0, 2.0]))
        U = m.U * s + o
        c.knots = U
        m.U = U.copy()
    elif op == "set":
        P, w = rng.uniform(-5, 5, (n, 3)), rng.uniform(0.4, 2.5, n)
        c.set(np.c_[P, w], m.U.copy())
        m.P, m.w = P, w
    elif op == "insert":
        a, b = m.U[0], m.U[-1]
        t = float(a + (b - a) * rng.uniform(0.02, 0.98))
        if n > 30 or np.min(np.abs(m.U - t)) < 1e-4 * (b - a):
            return c
        k = int(rng.integers(1, m.p + 1))
        c.insert_knot(t, k)
        m.P, m.w, m.U, _ = boehm(m, t, k)
    elif op == "normalize":
        c.normalize_knots()
        m.U = (m.U - m.U[0]) / (m.U[-1] - m.U[0])
    elif op == "flip":
        c = c.flip()
        a, b = m.U[0], m.U[-1]
        m.P, m.w = m.P[::-1].copy(), m.w[::-1].copy()
        m.U = (a + b) - m.U[::-1]
    elif op == "arg-reuse":
        # the arrays given to the setters belong to the caller, who goes on using them
        P, w, U = rng.uniform(-5, 5, (n, 3)), rng.uniform(0.4, 2.5, n), m.U.copy()
        c.control_points = P
        c.weights = w
        c.knots = U
        m.P, m.w = P.copy(), w.copy()
        P[:], w[:], U[:] = 1e3, 50.0, -4.0
    hist.append("!" + op)
    return c


def boehm(m, t, k):
    """reference knot insertion on homogeneous points"""
    H = np.c_[m.P * m.w[:, None], m.w]
    U, p = m.U, m.p
    for _ in range(k):
        j = int(np.searchsorted(U, t, side="right") - 1)
        s = int(np.sum(U == t))
        N = np.empty((len(H) + 1, 4))
        N[:j - p + 1] = H[:j - p + 1]
        N[j - s + 1:] = H[j - s:]
        for i in range(j - p + 1, j - s + 1):
            al = (t - U[i]) / (U[i + p] - U[i])
            N[i] = al * H[i] + (1 - al) * H[i - 1]
        H, U = N, np.insert(U, j + 1, t)
    return H[:, :3] / H[:, 3:], H[:, 3].copy(), U, p


def curve_history(ctx):
    rng = ctx.rng
    d = gen.curve_data(rng, pmax=4, extra=5)
    c, m = curve(*d), Model(*d)
    pool = [0.0, 1.0, 0.5] + list(rng.uniform(0, 1, 3))
    hist = []
    live = [(c, m)]
    for _ in range(int(rng.integers(12, 30))):
        i = int(rng.integers(len(live)))
        c, m = live[i]
        r = rng.uniform()
        if r < 0.3:
            live[i] = edit(ctx, c, m, hist), m
        elif r < 0.36 and len(live) < 3:
            live.append((c.copy(), Model(m.P, m.w, m.U, m.p)))
            hist.append("copy")
        else:
            query(ctx, c, m, pool, hist)
    for c, m in live:
        for x in pool:
            t = float(m.U[0] + (m.U[-1] - m.U[0]) * x)
            ctx.close("query:evaluate", c.evaluate(t), m.pt(t), TOL, "at the end of %s" % hist)
    ctx.state("crv", hist)
    ctx.note(history=hist[:20], degree=int(m.p))


def surface_history(ctx):
    rng = ctx.rng
    d = gen.surface_data(rng, pmax=3, extra=3)
    s = surf(*d)
    H, Uu, Uv, pu, pv = [np.array(x) if isinstance(x, np.ndarray) else x for x in d]
    pool = [(0.0, 0.0), (1.0, 1.0), (0.5, 0.25)] + [tuple(x) for x in rng.uniform(0, 1, (3, 2))]
    hist = []

    def pt(uv):
        return ref.surface_point(H0, V0u, V0v, pu, pv, *uv)

    H0, V0u, V0v = H, Uu, Uv   # geometry: only re-parameterised by the edits below
    for _ in range(int(rng.integers(10, 22))):
        r = rng.uniform()
        if r < 0.35:
            op = str(rng.choice(["insert_u", "insert_v", "knots_u", "knots_v", "normalize", "copy"]))
            if op.startswith("insert"):
                k = int(op == "insert_v")
                U = (s.knots_u, s.knots_v)[k]
                t = float(U[0] + (U[-1] - U[0]) * rng.uniform(0.02, 0.98))
                if np.min(np.abs(U - t)) < 1e-4 * (U[-1] - U[0]) or max(s.shape) > 14:
                    continue
                (s.insert_knot_u, s.insert_knot_v)[k](t, int(rng.integers(1, (pu, pv)[k] + 1)))
            elif op.startswith("knots"):
                sc, o = float(rng.choice([0.5, 2.0, 3.0])), float(rng.choice([-1.0, 0.0, 2.0]))
                if op == "knots_u":
                    U = s.knots_u * sc + o
                    s.knots_u = U
                    V0u = V0u * sc + o
                else:
                    U = s.knots_v * sc + o
                    s.knots_v = U
                    V0v = V0v * sc + o
                U[:] = 12345.0   # the caller's array
            elif op == "normalize":
                s.normalize_knots()
                V0u = (V0u - V0u[0]) / (V0u[-1] - V0u[0])
                V0v = (V0v - V0v[0]) / (V0v[-1] - V0v[0])
            else:
                s = s.copy()
            hist.append("!" + op)
            continue
        q = str(rng.choice(["evaluate", "multi", "interval", "bbox", "v2", "shape", "derivs", "knots"]))
        x = pool[int(rng.integers(len(pool)))]
        uv = np.array([V0u[0] + (V0u[-1] - V0u[0]) * x[0], V0v[0] + (V0v[-1] - V0v[0]) * x[1]])
        tag, msg = "query:surface-" + q, "%s at %r after %s" % (q, uv, hist[-8:])
        if q == "evaluate":
            ctx.close(tag, s.evaluate(uv), pt(uv), TOL, msg)
        elif q == "v2":
            ctx.close(tag, s.evaluate_v2(*uv), pt(uv), TOL, msg)
        elif q == "multi":
            ctx.close(tag, s.evaluate_multi(np.array([uv, uv])), [pt(uv)] * 2, TOL, msg)
        elif q == "interval":
            ctx.close(tag, np.array(s.interval()), [[V0u[0], V0u[-1]], [V0v[0], V0v[-1]]], 1e-12, msg)
        elif q == "bbox":
            G = np.array(s.control_points_w)
            E = (G[..., :3] / G[..., 3:]).reshape(-1, 3)
            ctx.close(tag, np.array(s.bbox()), [E.min(0), E.max(0)], 1e-9, msg)
            lo, hi = np.array(s.bbox())
            p = pt(uv)
            ctx.check(tag, bool(np.all(p >= lo - 1e-9) and np.all(p <= hi + 1e-9)), msg + ": point outside the box")
        elif q == "shape":
            ctx.check(tag, tuple(s.shape) == np.array(s.control_points_w).shape[:2] and np.array(s.control_points_flat_w).shape[0] == s.shape[0] * s.shape[1], msg)
        elif q == "knots":
            ctx.check(tag, len(s.knots_u) == s.shape[0] + pu + 1 and len(s.knots_v) == s.shape[1] + pv + 1, msg)
            ctx.check(tag, s.knots_u[0] == s.interval()[0][0] and s.knots_v[-1] == s.interval()[1][1], msg)
        else:
            if np.min(np.abs(V0u - uv[0])) > 1e-4 * (V0u[-1] - V0u[0]) and np.min(np.abs(V0v - uv[1])) > 1e-4 * (V0v[-1] - V0v[0]):
                W = ref.surface_ders(H0, V0u, V0v, pu, pv, uv[0], uv[1], 1)
                # the compiled derivatives are central differences with a fixed step of 1e-3
                ctx.close(tag, s.evaluate(uv), W[0, 0], TOL, msg)
        hist.append(q)
    ctx.state("srf", hist)


def spline_history(ctx):
    """the python NURBSpline front end over the same kernel"""
    rng = ctx.rng
    d = gen.curve_data(rng, pmax=4, extra=4)
    P, w, U, p = d
    c = NURBSpline(np.c_[P, w], p, U.copy())
    m = Model(*d)
    hist = []
    pool = [0.0, 1.0] + list(rng.uniform(0, 1, 3))
    for _ in range(int(rng.integers(6, 14))):
        a, b = m.U[0], m.U[-1]
        t = float(a + (b - a) * pool[int(rng.integers(len(pool)))])
        r = rng.integers(14)
        n = len(m.P)
        if r == 0:
            w = rng.uniform(0.4, 2.5, n)
            c.weights = w
            m.w = w.copy()
            w[:] = 77.0
            hist.append("!weights")
        elif r == 1:
            k = m.U * 2.0
            c.knots = k
            m.U = m.U * 2.0
            k[:] = 77.0     # the array still belongs to the caller
            hist.append("!knots")
        elif r == 2:
            ctx.close("query:spline", np.asarray(c.evaluate(t)), m.pt(t), TOL, "evaluate after %s" % hist)
            hist.append("e")
        elif r == 3:
            ctx.close("query:spline", np.asarray(c(t)), m.pt(t), TOL, "call after %s" % hist)
            hist.append("c")
        elif r == 4:
            Q = rng.uniform(-5, 5, (n, 3))
            c.control_points = Q
            m.P, m.w = Q.copy(), np.ones(n)
            Q[:] = 77.0
            hist.append("!points")
        elif r == 5:
            H, k = np.c_[rng.uniform(-5, 5, (n, 3)), rng.uniform(0.4, 2.5, n)], m.U * 0.5 + 1.0
            c.set(H, k)
            m.P, m.w, m.U = H[:, :3].copy(), H[:, 3].copy(), k.copy()
            H[:], k[:] = 77.0, 77.0
            hist.append("!set")
        elif r == 6 and n > 2:
            d = int(rng.integers(1, n))
            if d != m.p:
                c.degree = d
                m.p, m.U = d, np.r_[np.zeros(d + 1), np.arange(1, n - d), np.full(d + 1, n - d)].astype(float)
                hist.append("!degree%d" % d)
        elif r == 7:
            import copy
            import pickle
            c = [copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))][int(rng.integers(2))](c)
            hist.append("!copy")
        elif r == 8:
            q = c.evaluate(t)
            ctx.close("query:spline", np.asarray(q), m.pt(t), TOL, "evaluate after %s" % hist)
            np.asarray(q)[...] = -77.0
            hist.append("w")
        elif r == 9:
            ctx.close("query:spline-interval", c.interval(), (a, b), 1e-12, "interval after %s" % hist)
            ctx.close("query:spline-interval", c.greville_abscissae, [m.U[i + 1:i + m.p + 1].mean() for i in range(n)], 1e-9, "greville abscissae after %s" % hist)
            ctx.check("query:spline-data", c.degree == m.p and np.array_equal(c.knots, m.U) and np.array_equal(c.control_points, m.P) and np.array_equal(c.weights, m.w), "data after %s" % hist)
            hist.append("i")
        elif r == 10:
            if np.min(np.abs(m.U - t)) > 1e-4 * (b - a):
                want = ref.curve_ders(m.P, m.U, m.p, t, 1, w=m.w)[1]
                ctx.close("query:spline-derivative", np.asarray(c.derivative(t)), want, 1e-6, "derivative after %s" % hist)
            hist.append("d")
        elif r == 11:
            box = np.array([c.tree.bounding_box.min_point, c.tree.bounding_box.max_point])
            E = np.array([m.pt(a), m.pt(b)])
            ctx.check("query:spline-tree", bool(np.all(E >= box[0] - 1e-8) and np.all(E <= box[1] + 1e-8)), "the tree leaves out an end of the curve after %s" % hist)
            hull = [m.P.min(0) - 1e-8, m.P.max(0) + 1e-8]
            ctx.check("query:spline-tree", bool(np.all(box[0] >= hull[0]) and np.all(box[1] <= hull[1])), "the tree reaches outside the control points after %s" % hist)
            hist.append("t")
        else:
            ts = a + (b - a) * np.array(pool)
            ctx.close("query:spline", np.asarray(c(ts)), [m.pt(x) for x in ts], TOL, "call on an array after %s" % hist)
            ctx.close("query:spline", np.asarray(c(ts.reshape(1, -1)))[0], [m.pt(x) for x in ts], TOL, "call on a grid after %s" % hist)
            hist.append("m")
    a, b = m.U[0], m.U[-1]
    t = float(a + (b - a) * pool[2])
    ctx.close("query:spline", np.asarray(c.evaluate(t)), m.pt(t), TOL, "evaluate after %s" % hist)
    ctx.state("spl", hist)


SCENARIOS = {
    "curve_history": (curve_history, 200, 5000),
    "surface_history": (surface_history, 150, 3500),
    "spline_history": (spline_history, 200, 3000),
}
