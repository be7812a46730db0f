"""C07: copies, pickles and serialised NURBS data restore exactly the same geometry, and are independent of it."""
import copy
import pickle
import struct

import numpy as np

import gen
import ref
from mm import NURBSCurve, NURBSSurface, curve, surf, cdata, sdata
from mmcore.geom import nurbs

RULE = "one case = one generated curve or surface (after random edits) through every copy/codec, compared bit by bit, then mutated to show independence"
ASSUMPTIONS = [
    "oracle: bit equality of control points, weights, knots, degree, periodicity, interval and of evaluated points between the original and what was restored",
    "domain: clamped curves with positive weights and curves made periodic by the constructor; NURBSSurface has no serialised form (only copy, hash and equality)",
]


def curve_state(c):
    P, w, U, p = cdata(c)
    return P, w, U, p, bool(c.periodic), tuple(float(x) for x in c.interval())


def same(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a, b))


def some_curve(rng):
    r = rng.integers(5)
    if r == 0:
        n = int(rng.integers(4, 10))
        c = NURBSCurve(rng.uniform(-5, 5, (n, 3)), int(rng.integers(2, 4)), periodic=True)
        return c, "periodic"
    if r == 1:
        n = int(rng.integers(4, 10))
        return NURBSCurve(rng.uniform(-5, 5, (n, 3)), int(rng.integers(1, 4))), "default-knots"
    c = curve(*gen.curve_data(rng))
    return c, "clamped"


def shuffle_edits(rng, c, kind):
    trail = []
    for _ in range(int(rng.integers(0, 4))):
        if kind == "periodic":
            op = str(rng.choice(["eval", "weights"]))
        else:
            op = str(rng.choice(["eval", "flip", "insert", "normalize", "weights", "points", "knots", "set", "reverse"]))
        U = np.array(c.knots)
        a, b = c.interval()
        if op == "eval":
            c.evaluate(float(rng.uniform(a, b)))
        elif op == "flip":
            c = c.flip()
        elif op == "insert":
            t = float(rng.uniform(a, b))
            if np.min(np.abs(U - t)) < 1e-6:
                continue
            c.insert_knot(t, int(rng.integers(1, c.degree + 1)))
        elif op == "normalize":
            c.normalize_knots()
        elif op == "weights":
            if kind == "periodic":
                c.weights = np.full(len(c.weights), float(rng.uniform(0.5, 2)))
            else:
                c.weights = rng.uniform(0.5, 2, len(c.weights))
        elif op == "points":
            c.control_points = rng.uniform(-5, 5, (len(c.control_points), 3))
        elif op == "knots":
            c.knots = U * 2.0 + 1.0
        elif op == "set":
            X = np.c_[rng.uniform(-5, 5, (len(c.control_points), 3)), rng.uniform(0.5, 2, len(c.control_points))]
            c.set(np.asfortranarray(X) if rng.integers(2) else X, U)
        elif op == "reverse":
            c = nurbs.reverse_curve(c)
        trail.append(op)
    return c, trail


def probes(rng, c, k=5):
    a, b = c.interval()
    if c.periodic:
        U, p = np.array(c.knots), int(c.degree)
        a, b = U[p], U[len(U) - p - 1]
    return np.r_[rng.uniform(a, b, k), a, b]


def restore_all(c):
    b = c.serialize()
    out = [("serialize", NURBSCurve.deserialize(b)), ("serialize-bytearray", NURBSCurve.deserialize(bytearray(b))),
           ("copy", c.copy()), ("deepcopy", copy.deepcopy(c)), ("copy.copy", copy.copy(c))]
    for proto in range(2, pickle.HIGHEST_PROTOCOL + 1):
        out.append(("pickle%d" % proto, pickle.loads(pickle.dumps(c, proto))))
    out.append(("list-deepcopy", copy.deepcopy([c, c])[0]))
    return out


def curves(ctx):
    rng = ctx.rng
    c, kind = some_curve(rng)
    c, trail = shuffle_edits(rng, c, kind)
    st = curve_state(c)
    ts = probes(rng, c)
    X = np.array([c.evaluate(float(t)) for t in ts])
    D = np.array([np.asarray(c.derivative(float(t))) for t in ts[:3]])
    for what, r in restore_all(c):
        ctx.check("restore:" + what, same(curve_state(r), st), "%s of %s curve after %s differs: %r" % (what, kind, trail, curve_state(r)))
        ctx.check("restore:" + what, np.array_equal(np.array([r.evaluate(float(t)) for t in ts]), X), "%s evaluates differently (%s, %s)" % (what, kind, trail))
        ctx.check("restore:" + what, np.array_equal(np.array([np.asarray(r.derivative(float(t))) for t in ts[:3]]), D), "%s has other derivatives" % what)
        ctx.check("equality", r == c and hash(r) == hash(c), "%s of the curve is not equal to it (%s, %s)" % (what, kind, trail))
        ctx.check("restore:" + what, bytes(r.serialize()) == bytes(c.serialize()), "%s serialises differently" % what)
        ctx.close("restore:" + what, r.greville_abscissae, c.greville_abscissae, 1e-15, what + ": greville abscissae")
    t = c.astuple()
    P, w, U, p, per, _ = st
    ctx.check("restore:astuple", np.array_equal(np.array(t[0]), P) and np.array_equal(np.array(t[1]), U) and t[2] == p and bool(t[3]) == per, "astuple")
    ctx.check("restore:source", same(curve_state(c), st), "copying changed the original")
    ctx.state(kind, trail, p, len(P))
    ctx.note(kind=kind, trail=trail, degree=p, n=len(P), bytes=len(c.serialize()))


def independence(ctx):
    rng = ctx.rng
    c = curve(*gen.curve_data(rng))
    ts = probes(rng, c)
    st = curve_state(c)
    X = np.array([c.evaluate(float(t)) for t in ts])
    copies = restore_all(c)
    for what, r in copies:
        for t in ts[:2]:
            r.evaluate(float(t))
        op = str(rng.choice(["weights", "points", "knots", "insert", "normalize", "flip", "view", "set"]))
        U = np.array(r.knots)
        if op == "weights":
            r.weights = np.array(r.weights) * rng.uniform(0.5, 2, len(r.weights))
        elif op == "points":
            r.control_points = np.array(r.control_points) + 1.0
        elif op == "knots":
            r.knots = U + 1.0
        elif op == "insert":
            a, b = r.interval()
            t = float(rng.uniform(a, b))
            if np.min(np.abs(U - t)) > 1e-6:
                r.insert_knot(t, 1)
        elif op == "normalize":
            r.normalize_knots()
        elif op == "flip":
            r = r.flip()
        elif op == "view":
            r.control_points[:] = 7.0
            r.knots[:] = r.knots + 3.0
        else:
            r.set(np.array(r.control_pointsw) + 1.0, U * 3.0)
        ctx.check("independence", same(curve_state(c), st), "%s on the %s changed the original" % (op, what))
        Y = np.array([c.evaluate(float(t)) for t in ts])
        ctx.check("independence", np.array_equal(Y, X), "%s on the %s changed what the original evaluates to" % (op, what))
    # and the other way round: mutating the original leaves a copy alone
    r = copies[int(rng.integers(len(copies)))][1].copy()
    k = c.copy()
    Y = np.array([k.evaluate(float(t)) for t in ts])
    c.control_points = np.array(c.control_points) + 2.0
    c.weights = np.array(c.weights) * 2.0
    ctx.check("independence", np.array_equal(np.array([k.evaluate(float(t)) for t in ts]), Y), "changing the original changed its copy")
    ctx.check("independence", not np.array_equal(np.array([c.evaluate(float(t)) for t in ts]), Y), "the original kept its cached points")
    ctx.state("ind", st[3], len(st[0]))


def discrimination(ctx):
    """curves that differ anywhere are unequal; equal data give equal hashes and one set entry"""
    rng = ctx.rng
    d = gen.curve_data(rng)
    P, w, U, p = d
    c = curve(*d)
    c2 = curve(P.copy(), w.copy(), U.copy(), p)
    ctx.check("equality", c == c2 and hash(c) == hash(c2) and len({c, c2}) == 1, "equal data, unequal curves")
    ctx.check("equality", c.geometry_hash() == c2.geometry_hash(), "equal data, other geometry_hash")
    i, k = int(rng.integers(len(P))), int(rng.integers(3))
    Q = P.copy()
    Q[i, k] += 10.0 ** rng.uniform(-9, 1)
    ctx.check("equality", not (curve(Q, w, U, p) == c), "a moved control point %d,%d goes unnoticed" % (i, k))
    ww = w.copy()
    ww[i] *= 1.5
    ctx.check("equality", not (curve(P, ww, U, p) == c), "a changed weight goes unnoticed")
    ctx.check("equality", not (curve(P, w, U * 2.0 + 1.0, p) == c), "changed knots go unnoticed")
    m = c.copy()
    m.control_points = Q
    ctx.check("equality", not (m == c), "an assigned control point goes unnoticed")
    m.control_points = P
    m.weights = w
    ctx.check("equality", m == c, "restored data are unequal")
    H, Uu, Uv, pu, pv = sd = gen.surface_data(rng)
    s, s2 = surf(*sd), surf(*[np.array(x) if isinstance(x, np.ndarray) else x for x in sd])
    ctx.check("equality", s == s2 and hash(s) == hash(s2), "equal surfaces are unequal")
    G = H.copy()
    G[int(rng.integers(H.shape[0])), int(rng.integers(H.shape[1])), int(rng.integers(4))] += 0.125
    ctx.check("equality", not (surf(G, Uu, Uv, pu, pv) == s), "a moved surface point goes unnoticed")
    ctx.check("equality", not (surf(H, Uu * 2.0, Uv, pu, pv) == s) and not (surf(H, Uu, Uv * 2.0, pu, pv) == s), "changed surface knots go unnoticed")
    ctx.state("disc", i, k, p, len(P))


def wire_format(ctx):
    """data written by an independent encoder of the documented layout are read, and the bytes written decode to the curve"""
    rng = ctx.rng
    P, w, U, p = gen.curve_data(rng)
    raw = b"NRBC" + struct.pack("<5I", 1, p, 0, len(P), len(U)) + np.c_[P, w].astype("<f8").tobytes() + U.astype("<f8").tobytes()
    c = NURBSCurve.deserialize(raw)
    ctx.check("wire", same(cdata(c), (P, w, U, p)) and not c.periodic, "an independently encoded curve is read differently")
    ts = rng.uniform(U[p], U[len(P)], 4)
    ctx.close("wire", [c.evaluate(float(t)) for t in ts], [ref.curve_point(P, w, U, p, float(t)) for t in ts], 1e-9, "points of a decoded curve")
    out = bytes(curve(P, w, U, p).serialize())
    ctx.check("wire", out[:len(raw)] == raw, "the bytes written are not the documented layout")
    bad = {
        "magic": b"XRBC" + raw[4:], "version": raw[:4] + struct.pack("<I", 2) + raw[8:],
        "truncated": raw[:int(rng.integers(0, len(raw)))], "empty": b"", "one byte short": raw[:-1],
        "counts": raw[:16] + struct.pack("<2I", len(P) + 1000000, len(U)) + raw[24:],
    }
    for what, b in bad.items():
        ctx.raises("refused", (ValueError, MemoryError), NURBSCurve.deserialize, b)
    for b in ("text", 5, None, [1, 2], memoryview(raw)):
        ctx.raises("refused", TypeError, NURBSCurve.deserialize, b)
    # the curve owns its data: the buffer may be reused
    ba = bytearray(raw)
    c = NURBSCurve.deserialize(ba)
    ba[:] = b"\xff" * len(ba)
    ctx.check("wire", same(cdata(c), (P, w, U, p)), "a deserialised curve changes with the buffer it was read from")
    ctx.state("wire", p, len(P))


def surfaces(ctx):
    rng = ctx.rng
    d = gen.surface_data(rng)
    s = surf(*d)
    k = s.copy()
    ctx.check("surface-copy", same(sdata(s), sdata(k)) and s.interval() == k.interval() and tuple(s.shape) == tuple(k.shape), "surface copy differs")
    ctx.check("equality", s == k and hash(s) == hash(k), "surface copy is unequal")
    (a, b), (e, f) = s.interval()
    uv = np.c_[rng.uniform(a, b, 4), rng.uniform(e, f, 4)]
    X = s.evaluate_multi(uv)
    ctx.check("surface-copy", np.array_equal(k.evaluate_multi(uv), X), "surface copy evaluates differently")
    # unchanged by what happens to the copy, in both directions
    mod, keep = (s, k) if rng.integers(2) else (k, s)
    st = sdata(keep)
    t = float(rng.uniform(a, b))
    if np.min(np.abs(st[1] - t)) > 1e-6:
        mod.insert_knot_u(t, 1)
    t = float(rng.uniform(e, f))
    if np.min(np.abs(st[2] - t)) > 1e-6:
        mod.insert_knot_v(t, 1)
    mod.normalize_knots()
    ctx.check("independence", same(sdata(keep), st), "editing one surface changed its copy")
    ctx.check("independence", np.array_equal(keep.evaluate_multi(uv), X), "editing one surface moved its copy")
    del mod
    if rng.integers(2):
        del s
    else:
        del k
    junk = [np.full(st[0].size, np.nan) for _ in range(4)]
    ctx.check("independence", np.array_equal(keep.evaluate_multi(uv), X), "a surface moved when its copy was freed")
    # what the accessors hand out is a snapshot
    for get in ("control_points_w", "control_points_flat_w", "knots_u", "knots_v"):
        np.asarray(getattr(keep, get))[...] = 3.0
    ctx.check("independence", np.array_equal(keep.evaluate_multi(uv), X), "writing to a returned array moved the surface")
    ctx.state("srf", st[3], st[4], st[0].shape)


SCENARIOS = {
    "curves": (curves, 200, 4000),
    "independence": (independence, 150, 3000),
    "discrimination": (discrimination, 120, 2500),
    "wire_format": (wire_format, 120, 2500),
    "surfaces": (surfaces, 120, 3000),
}
