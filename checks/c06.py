"""C06: editing a NURBS surface (knots, cutting, subdividing, isocurves) never changes the geometry it stands for."""
import numpy as np

import gen
import ref
from mm import curve, surf, sdata, cdata
from mmcore.geom import nurbs
from mmcore.numeric.intersection.ssx.boundary_intersection import extract_isocurve, extract_surface_boundaries

RULE = "one case = one generated surface taken through a sequence of edits; after every edit the surface is compared with the original definition through the tracked parameter maps"
ASSUMPTIONS = [
    "oracle: the original homogeneous control net and knots evaluated by the Cox-de Boor recursion, agreement to 1e-8 relative",
    "domain: clamped knot vectors, interior multiplicity <= degree, positive weights; inserted multiplicity never above the degree; splits strictly inside the domain",
]
TOL = 1e-8


class Track:
    def __init__(self, data):
        self.data = data
        self.dom = ((data[1][0], data[1][-1]), (data[2][0], data[2][-1]))
        self.map = [(1.0, 0.0), (1.0, 0.0)]

    def src(self, uv):
        return tuple(float(np.clip(m * x + q, *d)) for x, (m, q), d in zip(uv, self.map, self.dom))

    def at(self, s, ctx, what, rng, k=4):
        (a, b), (c, d) = s.interval()
        uv = np.c_[np.r_[rng.uniform(a, b, k), a, b], np.r_[rng.uniform(c, d, k), d, c]]
        W = np.array([ref.surface_point(*self.data, *self.src(x)) for x in uv])
        ctx.close("shape:" + what, [s.evaluate(x.copy()) for x in uv], W, TOL, "evaluate after " + what)
        ctx.close("shape:" + what, s.evaluate_multi(uv.copy()), W, TOL, "evaluate_multi after " + what)
        H, Uu, Uv, pu, pv = sdata(s)
        n, m = H.shape[:2]
        ctx.check("well-formed", len(Uu) == n + pu + 1 and len(Uv) == m + pv + 1 and tuple(s.shape) == (n, m),
                  "%s: %d,%d knots for %dx%d points of degree %d,%d, shape %r" % (what, len(Uu), len(Uv), n, m, pu, pv, tuple(s.shape)))
        ctx.check("well-formed", bool(np.all(np.diff(Uu) >= 0) and np.all(np.diff(Uv) >= 0)), "%s: knots decrease" % what)
        ctx.close("well-formed", np.array(s.interval()), [[Uu[0], Uu[-1]], [Uv[0], Uv[-1]]], 1e-12, "%s: interval" % what)
        ctx.close("well-formed", s.control_points_flat_w, H.reshape(-1, 4), 0, "%s: flat and shaped control points" % what)
        if len(Uu) == n + pu + 1 and len(Uv) == m + pv + 1:
            ctx.close("data:" + what, [ref.surface_point(H, Uu, Uv, pu, pv, *x) for x in uv[:2]], W[:2], TOL, "control data after " + what)


def mult(U, t):
    return int(np.sum(np.abs(np.asarray(U) - t) < 1e-12))


def some_t(rng, U):
    lo, hi = U[0], U[-1]
    inner = np.unique(U[(U > lo + 1e-6 * (hi - lo)) & (U < hi - 1e-6 * (hi - lo))])
    if rng.integers(3) == 0 and len(inner):
        return float(inner[rng.integers(len(inner))])
    t = float(lo + (hi - lo) * rng.uniform(0.03, 0.97))
    if len(inner) and np.min(np.abs(inner - t)) < 1e-5 * (hi - lo):
        return float(inner[np.argmin(np.abs(inner - t))])
    return t


def same(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a, b))


def edit_chain(ctx):
    rng = ctx.rng
    data = gen.surface_data(rng, pmax=4, extra=4)
    s = surf(*data)
    tr = Track(data)
    trail = []
    for _ in range(int(rng.integers(2, 6))):
        op = str(rng.choice(["insert_u", "insert_v", "normalize", "split_u", "split_v", "copy", "reread"]))
        H, Uu, Uv, pu, pv = sdata(s)
        if op.startswith("insert"):
            k = int(op == "insert_v")
            U, p = ((Uu, pu), (Uv, pv))[k]
            t = some_t(rng, U)
            room = p - mult(U, t)
            if room < 1:
                continue
            c = int(rng.integers(1, room + 1))
            (s.insert_knot_u, s.insert_knot_v)[k](t, c)
            ctx.close("knots:insert", (s.knots_u, s.knots_v)[k], np.sort(np.r_[U, [t] * c]), 1e-12, "knots after %s(%r,%d)" % (op, t, c))
            ctx.close("knots:insert", (s.knots_v, s.knots_u)[k], (Uv, Uu)[k], 1e-15, "knots of the other direction after %s" % op)
        elif op == "normalize":
            s.normalize_knots()
            ctx.close("knots:normalize", np.array(s.interval()), [[0, 1], [0, 1]], 1e-14, "interval after normalize_knots")
            tr.map = [(m * (U[-1] - U[0]), m * U[0] + q) for (m, q), U in zip(tr.map, (Uu, Uv))]
        elif op.startswith("split"):
            k = int(op == "split_v")
            U = (Uu, Uv)[k]
            t = some_t(rng, U)
            a, b = (nurbs.split_surface_u, nurbs.split_surface_v)[k](s, t)
            ctx.check("source-kept", same(sdata(s), (H, Uu, Uv, pu, pv)), "%s changed the original surface" % op)
            ctx.close("split-intervals", [a.interval()[k], b.interval()[k]], [(U[0], t), (t, U[-1])], 1e-12, "%s intervals" % op)
            ctx.close("split-intervals", [a.interval()[1 - k], b.interval()[1 - k]], [((Uv, Uu)[k][0], (Uv, Uu)[k][-1])] * 2, 1e-12, "%s other interval" % op)
            tr.at(a, ctx, op, rng, 2)
            tr.at(b, ctx, op, rng, 2)
            s = a if rng.integers(2) else b
        elif op == "copy":
            s = s.copy()
        else:
            (a, b), (c, d) = s.interval()
            s.evaluate(np.array([a, d]))
            continue
        trail.append(op)
        tr.at(s, ctx, op, rng)
    ctx.state(data[3], data[4], data[0].shape, ref.mults(data[1]), ref.mults(data[2]), trail, data[0][0, 0])
    ctx.note(degree=(data[3], data[4]), size=data[0].shape[:2], edits=trail, final=tuple(s.shape))


def pieces(ctx):
    rng = ctx.rng
    data = gen.surface_data(rng, pmax=4, extra=4)
    H, Uu, Uv, pu, pv = data
    s = surf(*data)
    ctx.state(pu, pv, H.shape, ref.mults(Uu), ref.mults(Uv), H[0, 0])
    tr = Track(data)
    u, v = some_t(rng, Uu), some_t(rng, Uv)
    parts = nurbs.subdivide_surface(s, u, v)
    want = [((Uu[0], u), (Uv[0], v)), ((Uu[0], u), (v, Uv[-1])), ((u, Uu[-1]), (Uv[0], v)), ((u, Uu[-1]), (v, Uv[-1]))]
    ctx.check("subdivide", len(parts) == 4, "%d parts" % len(parts))
    for q, w in zip(parts, want):
        ctx.close("subdivide", np.array(q.interval()), np.array(w), 1e-12, "interval of a quarter")
        tr.at(q, ctx, "subdivide_surface", rng, 2)
    su, sv = np.unique(Uu), np.unique(Uv)
    cells_u = list(zip(su[:-1], su[1:]))
    cells_v = list(zip(sv[:-1], sv[1:]))
    for d, cells in (("u", [(x, (Uv[0], Uv[-1])) for x in cells_u]), ("v", [((Uu[0], Uu[-1]), y) for y in cells_v]),
                     ("uv", [(x, y) for x in cells_u for y in cells_v])):
        parts = nurbs.decompose_surface(s, d)
        ctx.check("decompose", len(parts) == len(cells), "decompose %r: %d parts of %d cells" % (d, len(parts), len(cells)))
        idx = rng.permutation(len(cells))[:4] if len(parts) == len(cells) else []
        for i in idx:
            q = parts[i]
            ctx.close("decompose", np.array(q.interval()), np.array(cells[i]), 1e-12, "decompose %r: interval of part %d" % (d, i))
            if "u" in d:
                ctx.check("decompose", q.shape[0] == pu + 1, "decompose %r: %d rows" % (d, q.shape[0]))
            if "v" in d:
                ctx.check("decompose", q.shape[1] == pv + 1, "decompose %r: %d columns" % (d, q.shape[1]))
            tr.at(q, ctx, "decompose_surface", rng, 2)
    ctx.check("source-kept", same(sdata(s), data), "cutting changed the original surface")


def isocurves(ctx):
    rng = ctx.rng
    data = gen.surface_data(rng, pmax=4, extra=4)
    H, Uu, Uv, pu, pv = data
    s = surf(*data)
    ctx.state(pu, pv, H.shape, ref.mults(Uu), ref.mults(Uv), H[0, 0])
    for d in (0, 1):
        U, V, p, q = ((Uu, Uv, pu, pv), (Uv, Uu, pv, pu))[d]
        for t in gen.params(rng, U, p, 2):
            c = extract_isocurve(s, float(t), "uv"[d])
            ctx.check("isocurve", c.degree == q and np.array_equal(np.array(c.knots), V), "degree and knots of the isocurve")
            for x in gen.params(rng, V, q, 2):
                uv = (t, x) if d == 0 else (x, t)
                ctx.close("isocurve", c.evaluate(float(x)), ref.surface_point(*data, *uv), TOL, "isocurve %s=%r at %r" % ("uv"[d], t, x))
        for t in (U[0] - 0.5, U[-1] + 0.5):
            ctx.raises("isocurve-range", ValueError, extract_isocurve, s, float(t), "uv"[d])
    ctx.raises("isocurve-range", ValueError, extract_isocurve, s, float(Uu[0]), "w")
    B = extract_surface_boundaries(s)
    ctx.check("boundaries", len(B) == 4, "%d boundaries" % len(B))
    for c, f, V in zip(B, (lambda x: (Uu[0], x), lambda x: (Uu[-1], x), lambda x: (x, Uv[0]), lambda x: (x, Uv[-1])), (Uv, Uv, Uu, Uu)):
        for x in np.r_[rng.uniform(V[0], V[-1], 2), V[0], V[-1]]:
            ctx.close("boundaries", c.evaluate(float(x)), ref.surface_point(*data, *f(x)), TOL, "boundary")
    ctx.check("source-kept", same(sdata(s), data), "isocurves changed the surface")


class Sheet:
    """made on first use: a python surface over any rectangle"""
    made = None

    @classmethod
    def new(cls, *a):
        if cls.made is None:
            from mmcore.geom.surfaces import Surface

            class S(Surface):
                def __init__(self, A, box):
                    self.A, self.box = A, box
                    super().__init__()

                def interval(self):
                    return self.box

                def evaluate(self, uv):
                    uv = np.asarray(uv, float)
                    u, v = uv[..., 0], uv[..., 1]
                    return np.stack([u, v, u * 0], -1) + np.stack([u * v, u * u - v, np.sin(u + v)], -1) @ self.A
            cls.made = S
        return cls.made(*a)


def isolines(ctx):
    """isolines of surfaces that know their domain: where they run, and that they cover it"""
    from mmcore.geom.surfaces import BiLinear
    rng = ctx.rng
    k = int(rng.integers(4))
    if k == 0:
        s = BiLinear(*rng.uniform(-3, 3, (4, 3)))
    else:
        o, e = rng.uniform(-3, 3, 2).round(2), rng.uniform(0.2, 4, 2).round(2)
        s = Sheet.new(rng.normal(size=(3, 3)) * 0.3, ((float(o[0]), float(o[0] + e[0])), (float(o[1]), float(o[1] + e[1]))))
    (u0, u1), (v0, v1) = s.interval()
    ctx.state(k, u0, v0, u1, v1)
    u, v = float(rng.uniform(u0, u1)), float(rng.uniform(v0, v1))
    for name, c, (a, b), at in (("isoline_u(%r)" % u, s.isoline_u(u), (v0, v1), lambda t: (u, t)), ("isoline_v(%r)" % v, s.isoline_v(v), (u0, u1), lambda t: (t, v))):
        ctx.close("isoline", c.interval(), (a, b), 1e-12, "%s of a surface over [%r,%r]x[%r,%r]: interval" % (name, u0, u1, v0, v1))
        for t in np.r_[a, b, rng.uniform(a, b, 2)]:
            ctx.close("isoline", c.evaluate(float(t)), s.evaluate(np.array(at(float(t)))), 1e-12, "%s at %r" % (name, t))
        ctx.close("isoline", c.points(3), [s.evaluate(np.array(at(t))) for t in np.linspace(a, b, 3)], 1e-10, "points of %s" % name)
    p, q = (rng.uniform([u0, v0], [u1, v1]) for _ in range(2))
    for name, c, A, B in (("isocurve", s.isocurve(p[0], p[1], q[0], q[1]), p, q), ("isocurve of the whole domain", s.isocurve(), (u0, v0), (u1, v1)),
                          ("isocurve_u", s.isocurve_u(p[0], q[0]), (p[0], v0), (q[0], v1)), ("isocurve_v", s.isocurve_v(p[1], q[1]), (u0, p[1]), (u1, q[1]))):
        A, B = np.array(A), np.array(B)
        for t in (0.0, 1.0, float(rng.random())):
            ctx.close("isocurve:domain", c.evaluate(t), s.evaluate(A + (B - A) * t), 1e-10, "%s from %s to %s at %r" % (name, A.tolist(), B.tolist(), t))


def refusals(ctx):
    rng = ctx.rng
    data = gen.surface_data(rng, pmax=4, extra=4)
    H, Uu, Uv, pu, pv = data
    s = surf(*data)
    ctx.state(pu, pv, H.shape, H[0, 0])
    for fn, U in ((nurbs.split_surface_u, Uu), (nurbs.split_surface_v, Uv)):
        for t in (U[0], U[-1], U[0] - 1, U[-1] + 1):
            ctx.raises("refuse-split", ValueError, fn, s, float(t))
    for fn, U, p in ((s.insert_knot_u, Uu, pu), (s.insert_knot_v, Uv, pv)):
        t = some_t(rng, U)
        ctx.raises("refuse-insert", ValueError, fn, t, p - mult(U, t) + 1 + int(rng.integers(3)))
        for x in (U[0] - 0.5, U[-1] + 0.5):
            ctx.raises("refuse-insert", ValueError, fn, float(x), 1)
    ctx.check("refuse-keeps", same(sdata(s), data), "a refused edit changed the surface")
    Track(data).at(s, ctx, "refused edit", rng, 2)


def view_lifetime(ctx):
    """control points read before an edit stay what they were, copies are independent"""
    rng = ctx.rng
    data = gen.surface_data(rng, pmax=3, extra=3)
    H, Uu, Uv, pu, pv = data
    s = surf(*data)
    ctx.state(H.shape, H[0, 0])
    c = s.copy()
    reads = [s.control_points_w, s.control_points_flat_w, s.control_points, s.control_points_flat, s.knots_u, s.knots_v]
    was = [np.array(x) for x in reads]
    for _ in range(3):
        t = some_t(rng, s.knots_u)
        if mult(s.knots_u, t) < pu:
            s.insert_knot_u(t, 1)
        t = some_t(rng, s.knots_v)
        if mult(s.knots_v, t) < pv:
            s.insert_knot_v(t, 1)
    s.normalize_knots()
    junk = [np.full(np.prod(H.shape), 7.0) for _ in range(4)]
    for x, y in zip(reads, was):
        ctx.check("reads-stay", np.array_equal(np.array(x), y), "an array read from the surface changed under a later edit")
    ctx.check("copy-independent", same(sdata(c), data), "editing the original changed its copy")
    Track(data).at(c, ctx, "copy", rng, 2)
    del s, junk
    ctx.check("copy-independent", same(sdata(c), data), "deleting the original changed its copy")


def open_knots(ctx):
    """edits of surfaces whose knot vectors have no multiple ends"""
    rng = ctx.rng
    H, _, _, pu, pv = gen.surface_data(rng, pmax=4, extra=4)
    Uu, Uv = gen.open_knots(rng, H.shape[0], pu), gen.open_knots(rng, H.shape[1], pv)
    ctx.state(pu, pv, H.shape, H[0, 0], Uu[0])
    s = surf(H, Uu, Uv, pu, pv)
    dom = np.array([[Uu[pu], Uu[H.shape[0]]], [Uv[pv], Uv[H.shape[1]]]])

    def keep(q, what, k=3):
        (a, b), (c, d) = q.interval()
        uv = np.c_[np.r_[rng.uniform(a, b, k), a, b], np.r_[rng.uniform(c, d, k), d, c]]
        W = [ref.surface_point(H, Uu, Uv, pu, pv, *np.clip(x, dom[:, 0], dom[:, 1])) for x in uv]
        ctx.close("open:" + what, [q.evaluate(x.copy()) for x in uv], W, TOL, what + " (open knots)")

    u, v = (float(d[0] + (d[1] - d[0]) * rng.uniform(0.05, 0.95)) for d in dom)
    q = s.copy()
    ku, kv = int(rng.integers(1, pu + 1)), int(rng.integers(1, pv + 1))
    q.insert_knot_u(u, ku)
    q.insert_knot_v(v, kv)
    ctx.close("open:knots", np.array(q.knots_u), np.sort(np.r_[Uu, [u] * ku]), 1e-12, "knots after insertion")
    ctx.close("open:knots", np.array(q.knots_v), np.sort(np.r_[Uv, [v] * kv]), 1e-12, "knots after insertion")
    ctx.close("open:interval", np.array(q.interval()), dom, 1e-12, "interval after insertion")
    keep(q, "insert_knot")
    for fn, d, t in ((nurbs.split_surface_u, 0, u), (nurbs.split_surface_v, 1, v)):
        for i, part in enumerate(fn(s, t)):
            iv = dom.copy()
            iv[d, 1 - i] = t
            ctx.close("open:interval", np.array(part.interval()), iv, 1e-12, "interval of a part")
            keep(part, "split")
    for fn, d in ((s.insert_knot_u, dom[0]), (s.insert_knot_v, dom[1])):
        for x in (d[0] - 1e-3, d[1] + 1e-3, d[0] - 9.0, d[1] + 9.0):
            ctx.raises("open:refuse", ValueError, fn, float(x), 1)
    keep(s, "refused insertion")


SCENARIOS = {
    "open_knots": (open_knots, 120, 2000),
    "edit_chain": (edit_chain, 1200, 20000),
    "pieces": (pieces, 300, 5000),
    "isocurves": (isocurves, 500, 8000),
    "isolines": (isolines, 150, 2000),
    "refusals": (refusals, 100, 800),
    "view_lifetime": (view_lifetime, 200, 3000),
}
