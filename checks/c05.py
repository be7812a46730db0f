"""C05: editing a NURBS curve (knots, degree, direction, cutting, joining) never changes the geometry it stands for."""
import numpy as np

import gen
import ref
from mm import NURBSCurve, curve, cdata
from mmcore.geom import nurbs
from mmcore.geom.curves import knot as K

RULE = "one case = one generated curve taken through a sequence of edits (or one kernel call on its knots); after every edit the curve is compared with the original definition through the tracked parameter map"
ASSUMPTIONS = [
    "oracle: the original (points, weights, knots, degree) evaluated by the Cox-de Boor recursion, agreement to 1e-8 relative",
    "domain: clamped knot vectors, interior multiplicity <= degree, positive weights; inserted multiplicity never above the degree; splits strictly inside the domain",
]
TOL = 1e-8


class Track:
    """the original definition plus the affine map from the parameter of the edited curve to the original one"""

    def __init__(self, data):
        self.data = data
        P, w, U, p = data
        self.a, self.b = float(U[p]), float(U[len(P)])
        self.map = (1.0, 0.0)

    def at(self, c, ctx, what, rng, k=5):
        P, w, U, p = self.data
        lo, hi = c.interval()
        m, q = self.map
        ts = np.r_[rng.uniform(lo, hi, k), lo, hi]
        src = np.clip(m * ts + q, self.a, self.b)
        W = np.array([ref.curve_point(P, w, U, p, float(t)) for t in src])
        ctx.close("shape:" + what, np.array([c.evaluate(float(t)) for t in ts]), W, TOL, "evaluate after " + what)
        ctx.close("shape:" + what, c.evaluate_multi(ts), W, TOL, "evaluate_multi after " + what)
        well_formed(ctx, c, what)
        # the edited data, read back, describe the same curve
        P2, w2, U2, p2 = cdata(c)
        ctx.close("data:" + what, [ref.curve_point(P2, w2, U2, p2, float(t)) for t in ts[:2]], W[:2], TOL, "control data after " + what)


def well_formed(ctx, c, what):
    U = np.array(c.knots)
    p, n = int(c.degree), len(c.control_points)
    ctx.check("well-formed", len(U) == n + p + 1, "%s: %d knots for %d points of degree %d" % (what, len(U), n, p))
    ctx.check("well-formed", bool(np.all(np.diff(U) >= 0)), "%s: knots decrease" % what, U=U)
    ctx.check("well-formed", bool(np.all(np.array(c.weights) > 0)), "%s: weights" % what)
    ctx.check("well-formed", c.interval() == (U[p], U[n]) or c.interval() == (U[0], U[-1]), "%s: interval %r" % (what, c.interval()))
    g = np.array([U[i + 1:i + p + 1].mean() for i in range(n)])
    ctx.close("well-formed", c.greville_abscissae, g, 1e-9, "%s: greville abscissae" % what)


def mult(U, t):
    return int(np.sum(np.abs(np.asarray(U) - t) < 1e-12))


def some_t(rng, c, interior=True):
    """an interior parameter: random, an existing knot, or the middle"""
    U = np.array(c.knots)
    lo, hi = c.interval()
    inner = np.unique(U[(U > lo + 1e-6 * (hi - lo)) & (U < hi - 1e-6 * (hi - lo))])
    r = rng.integers(3)
    if r == 0 and len(inner):
        return float(inner[rng.integers(len(inner))])
    t = float(lo + (hi - lo) * rng.uniform(0.03, 0.97))
    # not next to an existing knot: near coincident knots are ill conditioned
    if len(inner) and np.min(np.abs(inner - t)) < 1e-5 * (hi - lo):
        return float(inner[np.argmin(np.abs(inner - t))])
    return t


def edit_chain(ctx):
    rng = ctx.rng
    data = gen.curve_data(rng, pmax=5, extra=7)
    c = curve(*data)
    tr = Track(data)
    trail = []
    for _ in range(int(rng.integers(2, 6))):
        op = str(rng.choice(["insert", "insert", "kinsert", "multiply", "normalize", "flip", "reverse", "trim", "split", "split2", "nsplit",
                             "elevate", "copy", "splitjoin", "evalbetween"]))
        lo, hi = c.interval()
        m, q = tr.map
        p = int(c.degree)
        n0 = len(c.control_points)
        if op == "insert" or op == "kinsert":
            t = some_t(rng, c)
            room = p - mult(c.knots, t)
            if room < 1:
                continue
            k = int(rng.integers(1, room + 1))
            U0 = np.array(c.knots)
            if op == "insert":
                c.insert_knot(t, k)
            else:
                K.insert_knot(c, t, k)
            ctx.close("knots:insert", np.array(c.knots), np.sort(np.r_[U0, [t] * k]), 1e-12, "knots after insert_knot(%r,%d)" % (t, k))
        elif op == "multiply":
            t = some_t(rng, c)
            s = mult(c.knots, t)
            r = c.multiply_knot(t)
            ctx.check("knots:multiply", mult(c.knots, t) == p, "multiplicity %d after multiply_knot, degree %d" % (mult(c.knots, t), p))
            ctx.check("knots:multiply", max(0, r) == p - s, "multiply_knot reports %d insertions, %d were needed" % (r, p - s))
        elif op == "normalize":
            c.normalize_knots()
            ctx.check("knots:normalize", abs(c.interval()[0]) < 1e-14 and abs(c.interval()[1] - 1) < 1e-14, "interval %r after normalize_knots" % (c.interval(),))
            tr.map = (m * (hi - lo), m * lo + q)
        elif op in ("flip", "reverse"):
            d = c.flip() if op == "flip" else nurbs.reverse_curve(c)
            ctx.close("source-kept", np.array(c.evaluate(lo)), np.array(d.evaluate(d.interval()[1])), TOL, "%s: old start is the new end" % op)
            c = d
            ctx.close("knots:flip", c.interval(), (lo, hi), 1e-12, "%s keeps the interval" % op)
            lo2, hi2 = c.interval()
            tr.map = (-m, m * (lo2 + hi2) + q)
        elif op == "trim":
            t1, t2 = np.sort(rng.uniform(lo, hi, 2))
            if t2 - t1 < 0.02 * (hi - lo):
                continue
            if rng.integers(4) == 0:
                t1 = lo
            if rng.integers(4) == 0:
                t2 = hi
            H0 = np.array(c.control_pointsw)
            sw = rng.integers(4) == 0
            d = c.trim(float(t2), float(t1)) if sw else c.trim(float(t1), float(t2))
            ctx.check("source-kept", np.array_equal(H0, np.array(c.control_pointsw)), "trim changed the original curve")
            c = d
            ctx.close("knots:trim", c.interval(), (0, t2 - t1), 1e-10, "interval after trim(%r,%r)" % (t1, t2))
            tr.map = (m, m * t1 + q)
        elif op in ("split", "split2", "nsplit"):
            t = some_t(rng, c)
            H0, U0 = np.array(c.control_pointsw), np.array(c.knots)
            fn = {"split": nurbs.split_curve, "split2": nurbs.split_curve2, "nsplit": K.nurbs_split}[op]
            a, b = fn(c, t)
            ctx.check("source-kept", np.array_equal(H0, np.array(c.control_pointsw)) and np.array_equal(U0, np.array(c.knots)), "%s changed the original curve" % op)
            ctx.close("split-intervals", [*a.interval(), *b.interval()], [lo, t, t, hi], 1e-12, "%s intervals" % op)
            ctx.close("split-meets", np.array(a.end()), np.array(b.start()), TOL, "%s: the pieces meet" % op)
            tr.at(a, ctx, op, rng, 3)
            tr.at(b, ctx, op, rng, 3)
            c = a if rng.integers(2) else b
        elif op == "elevate":
            if p > 5:
                continue
            k = int(rng.integers(1, 3))
            H0, U0 = np.array(c.control_pointsw), np.array(c.knots)
            d = K.degree_elevate_curve(c, k)
            ctx.check("source-kept", np.array_equal(H0, np.array(c.control_pointsw)) and np.array_equal(U0, np.array(c.knots)), "degree elevation changed the original curve")
            c = d
            ctx.check("degree", c.degree == p + k, "degree %d after elevating %d by %d" % (c.degree, p, k))
        elif op == "copy":
            c = c.copy()
        elif op == "splitjoin":
            t = some_t(rng, c)
            a, b = nurbs.split_curve(c, t)
            if rng.integers(2):
                a = nurbs.reverse_curve(a)
            if rng.integers(2):
                b = nurbs.reverse_curve(b)
            # joining glues at the last matching pair of ends: unambiguous only for an open curve
            ends = [np.array(x) for x in (a.start(), a.end(), b.start(), b.end())]
            near = sum(np.linalg.norm(ends[i] - ends[2 + j]) < 1e-4 for i in (0, 1) for j in (0, 1))
            if near != 1:
                continue
            c = K.join_two_curves(a, b)
            ctx.close("join-interval", c.interval()[1] - c.interval()[0], hi - lo, 1e-10, "length of the joined interval")
            s = c.interval()[0]
            tr.map = (m, m * (lo - s) + q)
        else:
            for t in rng.uniform(lo, hi, 3):
                c.evaluate(float(t))
            continue
        trail.append(op)
        if op not in ("split", "split2", "nsplit"):
            tr.at(c, ctx, op, rng)
    ctx.state(data[3], len(data[0]), ref.mults(data[2]), bool(np.ptp(data[1])), trail, data[0][0])
    ctx.note(degree=data[3], n=len(data[0]), edits=trail, final_interval=c.interval(), final_points=len(c.control_points))


def pieces(ctx):
    """cutting at several parameters and into Bezier pieces: consecutive, complete, and glued together again"""
    rng = ctx.rng
    data = gen.curve_data(rng, pmax=5, extra=7)
    P, w, U, p = data
    c = curve(*data)
    lo, hi = c.interval()
    ctx.state(p, len(P), ref.mults(U), P[0])
    k = int(rng.integers(1, 5))
    ts = np.sort([some_t(rng, c) for _ in range(k)])
    ts = ts[np.r_[True, np.diff(ts) > 1e-4 * (hi - lo)]]
    parts = nurbs.split_curve_multiple(c, np.ascontiguousarray(ts))
    br = np.r_[lo, ts, hi]
    ctx.check("split-multiple", len(parts) == len(ts) + 1, "%d pieces of %d cuts" % (len(parts), len(ts)))
    for a, b, q in zip(br[:-1], br[1:], parts):
        ctx.close("split-multiple", q.interval(), (a, b), 1e-12, "piece interval")
        Track(data).at(q, ctx, "split_curve_multiple", rng, 3)
    kv, cp, con = K.compose_curves(parts)
    d = NURBSCurve(np.array(cp), p, np.array(kv))
    ctx.close("compose", d.interval(), (0, len(parts)), 1e-12, "composed interval")
    ctx.close("compose", con, np.arange(1, len(parts)), 1e-12, "composed joints")
    for i, (a, b) in enumerate(zip(br[:-1], br[1:])):
        x = rng.uniform(0, 1, 3)
        ctx.close("compose", [d.evaluate(float(i + y)) for y in x], [ref.curve_point(P, w, U, p, float(a + y * (b - a))) for y in x], TOL, "composed curve, piece %d" % i)
    bez = nurbs.decompose_curve(c)
    spans = np.unique(U)
    ctx.check("decompose", len(bez) == len(spans) - 1, "%d Bezier pieces of %d spans" % (len(bez), len(spans) - 1))
    for a, b, q in zip(spans[:-1], spans[1:], bez):
        ctx.check("decompose", len(q.control_points) == p + 1 and q.degree == p, "a piece has %d points" % len(q.control_points))
        ctx.close("decompose", q.interval(), (a, b), 1e-12, "piece interval")
        Track(data).at(q, ctx, "decompose_curve", rng, 2)
    # normalised split
    t = some_t(rng, c)
    a, b = nurbs.split_curve(c, t, 1e-7, True)
    for q, (x, y) in ((a, (lo, t)), (b, (t, hi))):
        ctx.close("split-normalized", q.interval(), (0, 1), 1e-12, "normalised piece interval")
        tr = Track(data)
        tr.map = (y - x, x)
        tr.at(q, ctx, "split_curve(normalize)", rng, 2)


def hom(P, w):
    return np.ascontiguousarray(np.c_[P * w[:, None], w])


def ev(H, U, p, ts):
    U = np.asarray(U, float)
    return np.array([ref.basis_row(U, p, len(H) - 1, float(t)) @ H for t in ts])


def kernels(ctx):
    """knot insertion, refinement and removal on bare arrays of any dimension"""
    rng = ctx.rng
    P, w, U, p = gen.curve_data(rng, pmax=5, extra=7, style=["simple", "uniform", "repeated"][int(rng.integers(3))])
    H = hom(P, w)
    dim = int(rng.choice([2, 3, 4]))
    H = np.ascontiguousarray(H[:, :dim])
    n = len(H)
    lo, hi = U[0], U[-1]
    ts = gen.params(rng, U, p, 5)
    W = ev(H, U, p, ts)
    ctx.state(p, n, dim, ref.mults(U), H[0])
    c = curve(P, w, U, p)
    u = some_t(rng, c)
    s = mult(U, u)
    H0, U0 = H.copy(), U.copy()
    if s < p:
        num = int(rng.integers(1, p - s + 1))
        sp = ref.find_span(U, p, n - 1, u)
        Q = np.asarray(nurbs.knot_insertion(p, U, H, u, num, s, sp))
        V = np.asarray(nurbs.knot_insertion_kv(U, u, sp, num))
        ctx.close("kernel:insertion", V, np.sort(np.r_[U, [u] * num]), 1e-15, "inserted knots")
        ctx.close("kernel:insertion", ev(Q, V, p, ts), W, TOL, "knot_insertion %d times" % num)
        Q2, V2 = K.knot_insertion(p, U.tolist(), H, u, num=num)
        ctx.close("kernel:insertion-py", V2, V, 1e-15, "knot.knot_insertion knots")
        ctx.close("kernel:insertion-py", Q2, Q, 1e-9, "knot.knot_insertion points")
        # what was inserted can be removed again
        for rem in range(1, num + 1):
            R = np.asarray(nurbs.knot_removal(p, V, np.ascontiguousarray(Q), u, 1e-6, rem))
            VR = np.delete(V, np.where(np.abs(V - u) < 1e-12)[0][:rem])
            if ctx.check("kernel:removal", len(R) == len(VR) - p - 1, "%d points after removing %d of %d" % (len(R), rem, num)):
                ctx.close("kernel:removal", ev(R, VR, p, ts), W, 1e-6, "knot_removal %d of %d" % (rem, num))
    d = int(rng.integers(1, 4))
    need = [x for x in refined(U, p, d) if mult(U, x) < p]
    if need:
        R, V = nurbs.knot_refinement(p, U, H, density=d)
        want = np.sort(np.r_[U, np.concatenate([[x] * (p - mult(U, x)) for x in need])])
        ctx.close("kernel:refinement", V, want, 1e-12, "knots after knot_refinement(density=%d)" % d)
        ctx.close("kernel:refinement", ev(R, V, p, ts), W, TOL, "knot_refinement(density=%d)" % d)
        if d == 1:
            X = np.sort([some_t(rng, c) for _ in range(3)])
            add = np.array([x for x in np.unique(X) if mult(U, x) < p])
            if len(add):
                keep = add.copy()
                R, V = nurbs.knot_refinement(p, U, H, knot_list=add)
                ctx.check("kernel:refinement", np.array_equal(add, keep), "knot_refinement changed the list it was given")
                ctx.close("kernel:refinement", V, np.sort(np.r_[U, np.concatenate([[x] * (p - mult(U, x)) for x in keep])]), 1e-12, "knots after knot_refinement(list)")
                ctx.close("kernel:refinement", ev(R, V, p, ts), W, TOL, "knot_refinement(list)")
    d = int(rng.integers(0, 3))
    need = [x for x in refined(U, p, d + 1) if mult(U, x) < p]
    if need and n + len(need) * p < 80:
        R, V = K.knot_refinement1(p, U.tolist(), H.tolist(), density=d)
        want = np.sort(np.r_[U, np.concatenate([[x] * (p - mult(U, x)) for x in need])])
        ctx.close("kernel:refinement1", V, want, 1e-12, "knots after knot_refinement1(density=%d)" % d)
        ctx.close("kernel:refinement1", ev(np.array(R), V, p, ts), W, TOL, "knot_refinement1(density=%d)" % d)
        if d == 0:
            add = [x for x in {float(some_t(rng, c)) for _ in range(2)} if mult(U, x) < p]
            R, V = K.knot_refinement1(p, U.tolist(), H.tolist(), density=0, add_knot_list=add)
            need = sorted({*need, *add})
            ctx.close("kernel:refinement1", V, np.sort(np.r_[U, np.concatenate([[x] * (p - mult(U, x)) for x in need])]), 1e-12, "knots after knot_refinement1(list)")
            ctx.close("kernel:refinement1", ev(np.array(R), V, p, ts), W, TOL, "knot_refinement1(list)")
    X = np.sort([x for x in (some_t(rng, c) for _ in range(4)) if mult(U, x) < p])
    X = np.unique(X)
    if len(X):
        R, V = K.knot_refinement2(n - 1, p, U, H, X)
        ctx.close("kernel:refinement2", V, np.sort(np.r_[U, X]), 1e-15, "knots after knot_refinement2")
        ctx.close("kernel:refinement2", ev(R, V, p, ts), W, TOL, "knot_refinement2")
        d = K.refine_curve(c, np.sort(np.r_[U, X]))
        ctx.close("kernel:refine_curve", d.knots, np.sort(np.r_[U, X]), 1e-15, "refine_curve to a finer knot vector")
        Track((P, w, U, p)).at(d, ctx, "refine_curve", rng, 3)
    if n == p + 1:
        k = int(rng.integers(1, 4))
        Q, q = K.degree_elevation_bez(H, p, k)
        V = np.r_[[lo] * (q + 1), [hi] * (q + 1)]
        ctx.check("kernel:elevation", q == p + k and len(Q) == q + 1, "degree %r" % (q,))
        ctx.close("kernel:elevation", ev(Q, V, q, ts), W, TOL, "degree_elevation_bez")
    ctx.check("source-kept", np.array_equal(H, H0) and np.array_equal(U, U0), "a kernel changed the arrays it was given")


def refined(U, p, density):
    k = list(np.unique(U[p:-p]))
    for _ in range(density - 1):
        k = sorted(k + [k[i] + (k[i + 1] - k[i]) / 2.0 for i in range(len(k) - 1)])
    return k


def join(ctx):
    """two curves that share an end, of any degree and weights and any direction, become one through both"""
    rng = ctx.rng
    A, B = gen.curve_data(rng, pmax=4), gen.curve_data(rng, pmax=4)
    i, j = int(rng.integers(2)), int(rng.integers(2))
    A0, B0 = A[0].copy(), B[0].copy()
    B0 += A0[-i] - B0[-j]
    ends = [A0[0], A0[-1], B0[0], B0[-1]]
    if sum(np.linalg.norm(ends[x] - ends[2 + y]) < 1e-3 for x in (0, 1) for y in (0, 1)) != 1:
        ctx.skip("ambiguous ends")
    ctx.state(i, j, A[3], B[3], A0[0])
    c1, c2 = curve(A0, *A[1:]), curve(B0, *B[1:])
    h = [np.array(x.control_pointsw) for x in (c1, c2)]
    c = K.join_two_curves(c1, c2)
    ctx.check("source-kept", all(np.array_equal(x, np.array(y.control_pointsw)) for x, y in zip(h, (c1, c2))), "joining changed a curve")
    well_formed(ctx, c, "join")
    L1, L2 = A[2][-1] - A[2][0], B[2][-1] - B[2][0]
    a, b = c.interval()
    ctx.close("join", b - a, L1 + L2, 1e-10, "length of the joined interval")
    ctx.check("join", c.degree == max(A[3], B[3]), "degree of the joined curve")
    for x in rng.uniform(0, 1, 5):
        ctx.close("join", c.evaluate(float(a + L1 * (x if i == 1 else 1 - x))), ref.curve_point(A0, A[1], A[2], A[3], float(A[2][0] + x * L1)), TOL, "first curve (%d,%d)" % (i, j))
        ctx.close("join", c.evaluate(float(a + L1 + L2 * (x if j == 0 else 1 - x))), ref.curve_point(B0, B[1], B[2], B[3], float(B[2][0] + x * L2)), TOL, "second curve (%d,%d)" % (i, j))


def refusals(ctx):
    """edits that cannot keep the curve are refused and leave it as it was"""
    rng = ctx.rng
    data = gen.curve_data(rng, pmax=5)
    c = curve(*data)
    lo, hi = c.interval()
    p = data[3]
    ctx.state(p, len(data[0]), data[0][0])
    H, U = np.array(c.control_pointsw), np.array(c.knots)
    for t in (lo, hi, lo - 1.0, hi + 1.0):
        ctx.raises("refuse-split", ValueError, nurbs.split_curve, c, t)
        ctx.raises("refuse-split", ValueError, nurbs.split_curve2, c, t)
    t = some_t(rng, c)
    ctx.raises("refuse-insert", ValueError, c.insert_knot, t, p - mult(U, t) + 1 + int(rng.integers(3)))
    for x in (U[0] - 0.5, U[-1] + 0.5):
        ctx.raises("refuse-insert", ValueError, c.insert_knot, float(x), 1)
    ctx.raises("refuse-trim", ValueError, c.trim, t, t)
    ctx.check("refuse-keeps", np.array_equal(H, np.array(c.control_pointsw)) and np.array_equal(U, np.array(c.knots)), "a refused edit changed the curve")
    Track(data).at(c, ctx, "refused edit", rng, 3)


def open_knots(ctx):
    """edits of curves whose knot vector has no multiple ends"""
    rng = ctx.rng
    P, w, _, p = gen.curve_data(rng, pmax=5, extra=7)
    U = gen.open_knots(rng, len(P), p)
    lo, hi = float(U[p]), float(U[len(P)])
    ctx.state(p, len(P), P[0], U[0])
    c = curve(P, w, U, p)

    def same(q, what, m=lambda x: x, k=3):
        a, b = q.interval()
        ts = np.r_[rng.uniform(a, b, k), a, b]
        ctx.close("open:" + what, [q.evaluate(float(t)) for t in ts], [ref.curve_point(P, w, U, p, float(np.clip(m(t), lo, hi))) for t in ts], TOL, what + " (open knots)")

    t = float(lo + (hi - lo) * rng.uniform(0.05, 0.95))
    k = int(rng.integers(1, p + 1))
    d = c.copy()
    d.insert_knot(t, k)
    ctx.close("open:knots", np.array(d.knots), np.sort(np.r_[U, [t] * k]), 1e-12, "knots after insertion")
    same(d, "insert_knot")
    for q, iv in zip(nurbs.split_curve(c, t), ((lo, t), (t, hi))):
        ctx.close("open:interval", q.interval(), iv, 1e-12, "interval of a part")
        same(q, "split_curve")
    spans = np.unique(U[p:len(P) + 1])
    bez = nurbs.decompose_curve(c)
    ctx.check("open:decompose", len(bez) == len(spans) - 1, "%d pieces of %d spans" % (len(bez), len(spans) - 1))
    for q, iv in zip(bez, zip(spans[:-1], spans[1:])):
        ctx.close("open:interval", q.interval(), iv, 1e-12, "interval of a piece")
        same(q, "decompose_curve", k=1)
    d = c.copy()
    d.normalize_knots()
    a, b = d.interval()
    same(d, "normalize_knots", lambda x: lo + (x - a) / (b - a) * (hi - lo))
    for q in (nurbs.reverse_curve(c), c.flip()):
        a, b = q.interval()
        ctx.close("open:interval", b - a, hi - lo, 1e-12, "length of the reversed domain")
        same(q, "reverse", lambda x: hi - (x - a))
    for x in (lo - 1e-3, hi + 1e-3, U[0] - 1.0, U[-1] + 1.0):
        ctx.raises("open:refuse", ValueError, c.insert_knot, float(x), 1)
    same(c, "refused insertion")


SCENARIOS = {
    "open_knots": (open_knots, 200, 3000),
    "edit_chain": (edit_chain, 3600, 60000),
    "pieces": (pieces, 900, 15000),
    "kernels": (kernels, 2500, 40000),
    "join": (join, 700, 10000),
    "refusals": (refusals, 80, 600),
}
