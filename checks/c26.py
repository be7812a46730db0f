"""C26: STEP files written for curves and surfaces are well formed and hold the same geometry."""
import io
import re

import numpy as np

import gen
import ref
from mm import curve, surf
from mmcore.compat.step.step_writer import StepWriter, get_knot_multiplicities, parse_assignment

RULE = "one case = one history of additions (curves, surfaces, points, planes, edges) to one or two writers, whose written text is parsed here by an independent ISO 10303-21 reader and compared with the objects added"
ASSUMPTIONS = [
    "names are printable ASCII without backslashes (the encoding of other characters is left to steputils)",
    "reals are accepted with or without a decimal point (their formatting belongs to steputils)",
    "the attribute types of the entities used are transcribed from ISO 10303-41/42/46",
]

TOK = re.compile(r"\s*(?:('(?:[^']|'')*')|(#\d+)|(\.[A-Z_0-9]+\.)|([+-]?\d+(?:\.\d*)?(?:[eE][+-]?\d+)?)|([A-Z][A-Z0-9_]*)|([(),;=$*]))")


class Bad(Exception):
    pass


class Reader:
    """Parses the DATA section of a Part 21 file into {id: [(keyword, args), ...]}"""

    def __init__(self, text):
        m = re.fullmatch(r"ISO-10303-21;\s*HEADER;(.*?)ENDSEC;\s*DATA;(.*)ENDSEC;\s*END-ISO-10303-21;\s*", text, re.S)
        if not m:
            raise Bad("the file lacks its sections")
        for k in ("FILE_DESCRIPTION", "FILE_NAME", "FILE_SCHEMA"):
            if m[1].count(k + "(") != 1:
                raise Bad("the header lacks %s" % k)
        self.s, self.i = m[2], 0
        self.tok = None
        self.items = {}
        self.next()
        while self.tok is not None:
            self.instance()

    def next(self):
        m = TOK.match(self.s, self.i)
        if not m:
            if self.s[self.i:].strip():
                raise Bad("cannot read %r" % self.s[self.i:self.i + 40])
            self.tok = None
            return
        self.i = m.end()
        self.tok = (m.lastindex, m[m.lastindex])

    def eat(self, ch):
        if self.tok is None or self.tok[1] != ch or self.tok[0] == 1:
            raise Bad("expected %r, found %r" % (ch, self.tok))
        self.next()

    def instance(self):
        k, t = self.tok
        if k != 2:
            raise Bad("expected an instance name, found %r" % t)
        if t in self.items:
            raise Bad("%s is defined twice" % t)
        self.next()
        self.eat("=")
        if self.tok[1] == "(":
            self.next()
            parts = []
            while self.tok[1] != ")":
                parts.append(self.record())
            self.next()
        else:
            parts = [self.record()]
        self.eat(";")
        self.items[t] = parts

    def record(self):
        k, t = self.tok
        if k != 5:
            raise Bad("expected a keyword, found %r" % t)
        self.next()
        return (t, self.args())

    def args(self):
        self.eat("(")
        out = []
        if self.tok[1] != ")":
            out.append(self.value())
            while self.tok[1] == ",":
                self.next()
                out.append(self.value())
        self.eat(")")
        return out

    def value(self):
        k, t = self.tok
        if k == 6 and t == "(":
            return self.args()
        if k == 5:
            return self.record()
        self.next()
        if k == 1:
            return ("str", t[1:-1].replace("''", "'"))
        if k == 2:
            return ("ref", t)
        if k == 3:
            return ("enum", t[1:-1])
        if k == 4:
            return ("num", float(t), not re.search("[.eE]", t))
        if k == 6 and t in "$*":
            return ("unset", t)
        raise Bad("unexpected %r" % t)


# attribute types: s string, r number, i integer, b boolean, k knot or form enumeration, u unset or omitted,
# @X|Y a reference, [t] a non-empty aggregate, X(t) a typed number
SCHEMA = {
    "CARTESIAN_POINT": "s [r]", "DIRECTION": "s [r]",
    "AXIS2_PLACEMENT_3D": "s @CARTESIAN_POINT @DIRECTION @DIRECTION",
    "VERTEX_POINT": "s @CARTESIAN_POINT",
    "EDGE_CURVE": "s @VERTEX_POINT @VERTEX_POINT @B_SPLINE_CURVE_WITH_KNOTS b",
    "ORIENTED_EDGE": "s u u @EDGE_CURVE b",
    "EDGE_LOOP": "s [@ORIENTED_EDGE]",
    "FACE_BOUND": "s @EDGE_LOOP b",
    "ADVANCED_FACE": "s [@FACE_BOUND] @B_SPLINE_SURFACE_WITH_KNOTS b",
    "OPEN_SHELL": "s [@ADVANCED_FACE]",
    "SHELL_BASED_SURFACE_MODEL": "s [@OPEN_SHELL]",
    "B_SPLINE_CURVE_WITH_KNOTS": "s i [@CARTESIAN_POINT] k b b [i] [r] k",
    "B_SPLINE_SURFACE_WITH_KNOTS": "s i i [[@CARTESIAN_POINT]] k b b b [i] [i] [r] [r] k",
    "MANIFOLD_SURFACE_SHAPE_REPRESENTATION": "s [@SHELL_BASED_SURFACE_MODEL|AXIS2_PLACEMENT_3D] @GEOMETRIC_REPRESENTATION_CONTEXT",
    "SHAPE_REPRESENTATION": "s [@AXIS2_PLACEMENT_3D] @GEOMETRIC_REPRESENTATION_CONTEXT",
    "SHAPE_DEFINITION_REPRESENTATION": "@PRODUCT_DEFINITION_SHAPE @MANIFOLD_SURFACE_SHAPE_REPRESENTATION",
    "APPLICATION_CONTEXT": "s",
    "APPLICATION_PROTOCOL_DEFINITION": "s s i @APPLICATION_CONTEXT",
    "PRODUCT_CONTEXT": "s @APPLICATION_CONTEXT s",
    "PRODUCT": "s s ? [@PRODUCT_CONTEXT]",
    "PRODUCT_DEFINITION_FORMATION": "s ? @PRODUCT",
    "PRODUCT_DEFINITION_CONTEXT": "s @APPLICATION_CONTEXT s",
    "PRODUCT_DEFINITION": "s ? @PRODUCT_DEFINITION_FORMATION @PRODUCT_DEFINITION_CONTEXT",
    "PRODUCT_DEFINITION_SHAPE": "s ? @PRODUCT_DEFINITION",
    "PRODUCT_RELATED_PRODUCT_CATEGORY": "s ? [@PRODUCT]",
    "UNCERTAINTY_MEASURE_WITH_UNIT": "t @LENGTH_UNIT s s",
    "COLOUR_RGB": "s r r r",
    "FILL_AREA_STYLE_COLOUR": "s @COLOUR_RGB",
    "FILL_AREA_STYLE": "s [@FILL_AREA_STYLE_COLOUR]",
    "SURFACE_STYLE_FILL_AREA": "@FILL_AREA_STYLE",
    "SURFACE_SIDE_STYLE": "s [@SURFACE_STYLE_FILL_AREA]",
    "SURFACE_STYLE_USAGE": "k @SURFACE_SIDE_STYLE",
    "PRESENTATION_STYLE_ASSIGNMENT": "[@SURFACE_STYLE_USAGE]",
    "STYLED_ITEM": "s [@PRESENTATION_STYLE_ASSIGNMENT] @SHELL_BASED_SURFACE_MODEL",
    "MECHANICAL_DESIGN_GEOMETRIC_PRESENTATION_REPRESENTATION": "s [@STYLED_ITEM] @GEOMETRIC_REPRESENTATION_CONTEXT",
    "PRESENTATION_LAYER_ASSIGNMENT": "s s [@SHELL_BASED_SURFACE_MODEL]",
}
PARTS = {  # the partial entities of complex instances
    "LENGTH_UNIT": "", "NAMED_UNIT": "?", "SI_UNIT": "? k", "PLANE_ANGLE_UNIT": "", "SOLID_ANGLE_UNIT": "",
    "GEOMETRIC_REPRESENTATION_CONTEXT": "i", "GLOBAL_UNCERTAINTY_ASSIGNED_CONTEXT": "[@UNCERTAINTY_MEASURE_WITH_UNIT]",
    "GLOBAL_UNIT_ASSIGNED_CONTEXT": "[@NAMED_UNIT]", "REPRESENTATION_CONTEXT": "s s",
    "BOUNDED_CURVE": "", "CURVE": "", "BOUNDED_SURFACE": "", "SURFACE": "", "GEOMETRIC_REPRESENTATION_ITEM": "", "REPRESENTATION_ITEM": "s",
    "B_SPLINE_CURVE": "i [@CARTESIAN_POINT] k b b", "B_SPLINE_CURVE_WITH_KNOTS": "[i] [r] k", "RATIONAL_B_SPLINE_CURVE": "[r]",
    "B_SPLINE_SURFACE": "i i [[@CARTESIAN_POINT]] k b b b", "B_SPLINE_SURFACE_WITH_KNOTS": "[i] [i] [r] [r] k", "RATIONAL_B_SPLINE_SURFACE": "[[r]]",
}


def fits(v, t, items):
    if t.startswith("["):
        return isinstance(v, list) and len(v) > 0 and all(fits(x, t[1:-1], items) for x in v)
    if not isinstance(v, tuple):
        return False
    if t == "s":
        return v[0] == "str"
    if t == "r":
        return v[0] == "num" and np.isfinite(v[1])
    if t == "i":
        return v[0] == "num" and v[2]
    if t == "b":
        return v[0] == "enum" and v[1] in "TF"
    if t == "k":
        return v[0] == "enum"
    if t == "u":
        return v[0] == "unset" or v[0] == "ref" and items[v[1]][0][0] == "VERTEX_POINT"
    if t == "?":
        return v[0] in ("unset", "str", "enum")
    if t == "t":
        return v[0] == "LENGTH_MEASURE" and len(v[1]) == 1 and v[1][0][0] == "num"
    return v[0] == "ref" and v[1] in items and bool({k for k, _ in items[v[1]]} & set(t[1:].split("|")))


def wellformed(ctx, items):
    for name, parts in items.items():
        table = SCHEMA if len(parts) == 1 else PARTS
        keys = [k for k, _ in parts]
        ctx.check("form:order", keys == sorted(set(keys)), "the parts of %s are not in alphabetical order: %s" % (name, keys))
        for key, args in parts:
            if not ctx.check("form:known", key in table, "%s is an unknown entity %s" % (name, key)):
                continue
            want = table[key].split()
            ok = len(args) == len(want) and all(fits(v, t, items) for v, t in zip(args, want))
            ctx.check("form:%s" % key, ok, "%s=%s(%s) does not have attributes of the types %s" % (name, key, str(args)[:150], want))


def attrs(items, r, kind):
    """attributes of a B-spline, simple or rational: name, degrees, points, knots, weights"""
    parts = dict(items[r])
    tail = kind + "_WITH_KNOTS"
    if len(parts) == 1:
        a = parts[tail]
        n = 6 if kind.endswith("CURVE") else 8
        return a[0][1], a[1:n], a[n:], None
    w = parts.get("RATIONAL_" + kind)
    return parts["REPRESENTATION_ITEM"][0][1], parts[kind], parts[tail], w and w[0]


def xyz(items, r):
    return [x[1] for x in items[r[1]][0][1][1]]


def num(v):
    return [num(x) for x in v] if isinstance(v, list) else v[1]


def read_curve(items, r):
    name, a, k, w = attrs(items, r, "B_SPLINE_CURVE")
    P = np.array([xyz(items, x) for x in a[1]])
    U = np.repeat(num(k[1]), [int(m) for m in num(k[0])])
    return name, P, np.ones(len(P)) if w is None else np.array(num(w)), U, int(num(a[0]))


def read_surface(items, r):
    name, a, k, w = attrs(items, r, "B_SPLINE_SURFACE")
    P = np.array([[xyz(items, x) for x in row] for row in a[2]])
    W = np.ones(P.shape[:2]) if w is None else np.array(num(w))
    Uu = np.repeat(num(k[2]), [int(m) for m in num(k[0])])
    Uv = np.repeat(num(k[3]), [int(m) for m in num(k[1])])
    return name, np.concatenate([P * W[..., None], W[..., None]], axis=2), Uu, Uv, int(num(a[0])), int(num(a[1]))


def text(w):
    f = io.StringIO()
    w.write(f)
    return f.getvalue()


def read(ctx, w):
    t = text(w)
    try:
        r = Reader(t)
    except Bad as e:
        ctx.check("file:parses", False, "the file does not parse: %s" % e)
        return None
    ctx.check("file:parses", True, "")
    ctx.check("file:again", text(w) == t, "writing again gives another file")
    wellformed(ctx, r.items)
    return r.items


def some_name(rng):
    return "".join(rng.choice(list("ab Z'(),;#*=/-_09"), int(rng.integers(0, 9))))


def same_curve(ctx, mon, got, P, w, U, p, rng, what):
    name, Q, v, V, q = got
    if not ctx.check(mon + ":form", q == p and len(V) == len(Q) + q + 1 and len(v) == len(Q), "%s has degree %d, %d knots, %d points and %d weights" % (what, q, len(V), len(Q), len(v))):
        return
    scale = np.abs(P).max() + 1
    for u in gen.params(rng, U, p, 4):
        ctx.close(mon + ":shape", ref.curve_point(Q, v, V, q, u), ref.curve_point(P, w, U, p, u), 1e-9 * scale, "%s differs at %s" % (what, u))


def edge(items, r):
    """start and end vertex point, curve of an edge"""
    a = items[r[1]][0][1]
    pt = [xyz(items, items[v[1]][0][1][1]) for v in a[1:3]]
    return np.array(pt[0]), np.array(pt[1]), a[3][1], a[4][1] == "T"


def check_edge(ctx, items, r, mon):
    a, b, c, sense = edge(items, r)
    _, P, w, U, p = read_curve(items, c)
    e = [ref.curve_point(P, w, U, p, U[p]), ref.curve_point(P, w, U, p, U[-p - 1])]
    if not sense:
        e.reverse()
    s = 1e-9 * (1 + np.abs(P).max())
    ctx.close(mon + ":start", a, e[0], s, "an edge starts elsewhere than its curve")
    ctx.close(mon + ":end", b, e[1], s, "an edge ends elsewhere than its curve")
    return a, b


def random_curve(rng, periodic=False):
    P, w, U, p = gen.curve_data(rng)
    return curve(P, w, U, p), (P, w, U, p)


def by_ref(r):
    return "#" + str(r).lstrip("#")


def curves(ctx):
    rng = ctx.rng
    W = StepWriter(tolerance=float(10 ** rng.uniform(-9, -2)))
    made = []
    for _ in range(int(rng.integers(1, 4))):
        c, d = random_curve(rng)
        if rng.random() < 0.5:
            name = some_name(rng)
            made.append((by_ref(W.add_b_spline_curve_with_knots(c, name)), name, d, False))
        else:
            made.append((by_ref(W.add_nurbs_curve(c)), None, d, True))
        ctx.state("curve", d[3], len(d[0]), bool(np.ptp(d[1]) > 0), made[-1][3])
    items = read(ctx, W)
    if items is None:
        return
    for r, name, (P, w, U, p), wrapped in made:
        if wrapped:
            ctx.check("curve:edge", items[r][0][0] == "ORIENTED_EDGE", "add_nurbs_curve returned a %s" % items[r][0][0])
            e = items[r][0][1][3]
            check_edge(ctx, items, e, "curve")
            r = edge(items, e)[2]
        got = read_curve(items, r)
        if name is not None:
            ctx.check("curve:name", got[0] == name, "the name %r was written as %r" % (name, got[0]))
        same_curve(ctx, "curve", got, P, w, U, p, rng, "the curve")
        ctx.check("curve:knots", np.allclose(got[3], U, rtol=0, atol=1e-8), "the knots are %s instead of %s" % (got[3], U))


def surfaces(ctx):
    rng = ctx.rng
    W = StepWriter()
    made = []
    for _ in range(int(rng.integers(1, 3))):
        H, Uu, Uv, pu, pv = gen.surface_data(rng, extra=2)
        name, color = some_name(rng), tuple(float(x) for x in rng.random(3))
        s = surf(H, Uu, Uv, pu, pv)
        made.append((by_ref(W.add_nurbs_surface(s, color, name)), name, color, (np.array(H), Uu, Uv, pu, pv)))
        ctx.state("surface", pu, pv, np.shape(H)[:2], bool(np.ptp(np.array(H)[..., 3]) > 1e-12))
    items = read(ctx, W)
    if items is None:
        return
    for r, name, color, (H, Uu, Uv, pu, pv) in made:
        one_surface(ctx, items, r, name, color, H, Uu, Uv, pu, pv)
    styled = [i for i in items.values() if i[0][0] == "STYLED_ITEM"]
    ctx.check("style:count", len(styled) == len(made), "%d styles for %d surfaces" % (len(styled), len(made)))


def follow(items, r, *path):
    for i in path:
        v = items[r][0][1][i]
        r = (v[0] if isinstance(v, list) else v)[1]
    return r


def one_surface(ctx, items, r, name, color, H, Uu, Uv, pu, pv):
    rng = ctx.rng
    ctx.check("surface:model", items[r][0][0] == "SHELL_BASED_SURFACE_MODEL" and items[r][0][1][0][1] == name, "%s is returned for the surface %r" % (items[r], name))
    face = follow(items, r, 1, 1)
    srf = follow(items, face, 2)
    got, G, Vu, Vv, qu, qv = read_surface(items, srf)
    ctx.check("surface:name", got == name, "the name %r was written as %r" % (name, got))
    ok = (qu, qv) == (pu, pv) and G.shape == H.shape and len(Vu) == len(Uu) and len(Vv) == len(Uv)
    if not ctx.check("surface:form", ok, "a %s surface of degree %s with %s knots was written as %s, %s, %s" % (H.shape, (pu, pv), (len(Uu), len(Uv)), G.shape, (qu, qv), (len(Vu), len(Vv)))):
        return
    scale = np.abs(H[..., :3] / H[..., 3:]).max() + 1
    for u, v in zip(gen.params(rng, Uu, pu, 3), gen.params(rng, Uv, pv, 3)):
        ctx.close("surface:shape", ref.surface_point(G, Vu, Vv, qu, qv, u, v), ref.surface_point(H, Uu, Uv, pu, pv, u, v), 1e-9 * scale, "the surface differs at %s" % ((u, v),))
    # The bound is a closed chain of edges, which lie on the border of the surface
    loops = items[face][0][1][1]
    ctx.check("bound:one", len(loops) == 1, "a face with %d bounds" % len(loops))
    chain = items[follow(items, face, 1, 1)][0][1][1]
    ends, used = [], []
    for o in chain:
        a = items[o[1]][0][1]
        p, q = check_edge(ctx, items, a[3], "bound")
        ends.append((p, q) if a[4][1] == "T" else (q, p))
        _, P, w, U, d = read_curve(items, edge(items, a[3])[2])
        mid = [ref.curve_point(P, w, U, d, U[d] + f * (U[-d - 1] - U[d])) for f in (0.3, 0.6)]
        best = None
        for i, (fix, Ux, Uy) in enumerate(((0, Uu, Uv), (1, Uu, Uv), (0, Uv, Uu), (1, Uv, Uu))):
            px, py = (pu, pv) if i < 2 else (pv, pu)
            x = Ux[-px - 1] if fix else Ux[px]
            ys = [Uy[py] + f * (Uy[-py - 1] - Uy[py]) for f in (0.3, 0.6)]
            want = [ref.surface_point(H, Uu, Uv, pu, pv, x, y) if i < 2 else ref.surface_point(H, Uu, Uv, pu, pv, y, x) for y in ys]
            e = np.abs(np.array(want) - mid).max()
            if best is None or e < best[0]:
                best = (e, i)
        ctx.check("bound:on border", best[0] < 1e-8 * scale, "an edge of the bound is %g off the border of the surface" % best[0])
        used.append(best[1])
    ctx.check("bound:all borders", sorted(used) == [0, 1, 2, 3], "the bound consists of borders %s" % used)
    for i, (_, q) in enumerate(ends):
        ctx.close("bound:chain", ends[(i + 1) % len(ends)][0], q, 1e-9 * scale, "edge %d of the bound does not start where edge %d ends" % ((i + 1) % len(ends), i))
    # style and representation refer to this model
    st = [k for k, i in items.items() if i[0][0] == "STYLED_ITEM" and i[0][1][2][1] == r]
    if ctx.check("style:one", len(st) == 1, "%d styles of one surface" % len(st)):
        rgb = follow(items, st[0], 1, 0, 1, 1, 0, 1, 1)
        ctx.check("style:colour", tuple(num(items[rgb][0][1][1:])) == color, "the colour %s was written as %s" % (color, num(items[rgb][0][1][1:])))
    reps = [i for i in items.values() if i[0][0] == "MANIFOLD_SURFACE_SHAPE_REPRESENTATION" and ("ref", r) in i[0][1][1]]
    ctx.check("representation:one", len(reps) == 1, "%d representations of one surface" % len(reps))


def histories(ctx):
    """points, directions, planes and edges added in any order to two writers; references stay valid and distinct"""
    rng = ctx.rng
    writers = [StepWriter(), StepWriter()]
    log = [[], []]
    before = [text(w) for w in writers]
    n = int(rng.integers(4, 14))
    ops = []
    for _ in range(n):
        k = int(rng.integers(2))
        W, L = writers[k], log[k]
        op = str(rng.choice(["point", "direction", "plane", "vertex", "vertex of point", "vertex of vertex", "edge", "loop", "write"]))
        ops.append(op)
        pt = [float(x) for x in rng.normal(size=3) * 10.0 ** rng.integers(-8, 8)]
        if op == "point":
            if rng.random() < 0.3:
                pt = [int(x) for x in rng.integers(-9, 9, 3)]
            if rng.random() < 0.3:
                pt = pt[:2]
            name = some_name(rng)
            L.append(("CARTESIAN_POINT", by_ref(W.add_cartesian_point(np.array(pt) if rng.random() < 0.5 else tuple(pt), name)), (name, pt)))
        elif op == "direction":
            L.append(("DIRECTION", by_ref(W.add_direction(tuple(pt))), ("", pt)))
        elif op == "plane":
            R = gen.rotation(rng)
            L.append(("plane", [by_ref(x) for x in W.add_plane((tuple(pt), *[tuple(x) for x in R]))], (pt, R)))
        elif op == "vertex":
            L.append(("VERTEX_POINT", by_ref(W.add_vertex_point(tuple(pt))), pt))
        elif op == "vertex of point":
            L.append(("VERTEX_POINT", by_ref(W.add_vertex_point(W.add_cartesian_point(tuple(pt)))), pt))
        elif op == "vertex of vertex":
            v = W.add_vertex_point(tuple(pt))
            ctx.check("history:same vertex", W.add_vertex_point(v) == v, "a vertex of a vertex is not the vertex")
        elif op == "write":
            t = text(W)
            ctx.check("history:extends", t.startswith(before[k].split("ENDSEC;\nEND-ISO")[0]), "a later file does not begin with the earlier one")
            before[k] = t
        else:
            c, (P, w, U, p) = random_curve(rng)
            same = bool(rng.integers(2))
            ends = [tuple(float(x) for x in ref.curve_point(P, w, U, p, u)) for u in (U[p], U[-p - 1])]
            e = W.add_edge_curve(*(ends if same else ends[::-1]), W.add_b_spline_curve_with_knots(c), same)
            L.append(("edge", by_ref(e), (same,)))
            if op == "loop":
                f = bool(rng.integers(2))
                o = W.add_oriented_edge(e, orientation=f)
                l = W.add_edge_loop([e, o])
                L.append(("loop", by_ref(l), (by_ref(e), by_ref(o), f)))
                ctx.raises("history:loop of a point", ValueError, lambda: W.add_edge_loop([W.add_cartesian_point((0.0, 0.0, 0.0))]))
    ctx.state("history", tuple(ops[:3]))
    for d in (1, 4):
        ctx.raises("history:dimension", ValueError, lambda: writers[0].add_cartesian_point((1.0,) * d))
        ctx.raises("history:dimension", ValueError, lambda: writers[0].add_direction((1.0,) * d))
    for W, L in zip(writers, log):
        items = read(ctx, W)
        if items is None:
            return
        seen = []
        for kind, r, data in L:
            seen += r if isinstance(r, list) else [r]
            if kind in ("CARTESIAN_POINT", "DIRECTION"):
                a = items[r][0]
                ctx.check("history:point", a[0] == kind and a[1][0][1] == data[0] and num(a[1][1]) == [float(x) for x in data[1]], "%s %s was written as %s" % (kind, data, a))
            elif kind == "VERTEX_POINT":
                ctx.check("history:vertex", items[r][0][0] == kind and xyz(items, items[r][0][1][1]) == data, "the vertex %s was written as %s" % (data, items[r]))
            elif kind == "plane":
                a = items[r[-1]][0][1]
                o, z, x = [np.array(xyz(items, v)) for v in a[1:4]]
                ctx.check("history:plane", np.array_equal(o, data[0]) and np.allclose(z, data[1][2]) and np.allclose(x, data[1][0]), "a plane at %s with axes %s was written with origin %s, z %s, x %s" % (data[0], data[1].tolist(), o, z, x))
            elif kind == "edge":
                check_edge(ctx, items, ("ref", r), "history:edge")
                ctx.check("history:sense", edge(items, ("ref", r))[3] == data[0], "the sense of an edge is reversed")
            else:
                a = [v[1] for v in items[r][0][1][1]]
                ctx.check("history:loop", len(a) == 2 and items[a[0]][0][1][3][1] == data[0] and a[1] == data[1] and (items[a[1]][0][1][4][1] == "T") == data[2], "a loop of %s was written as %s" % (data, a))
        ctx.check("history:distinct", len(set(seen)) == len(seen) and set(seen) <= set(items), "references are missing or repeated")


def assignments(ctx):
    """parse_assignment reads what the writer writes"""
    rng = ctx.rng

    def value(depth):
        k = int(rng.integers(7 if depth < 3 else 6))
        if k == 0:
            v = int(rng.integers(-99, 99))
            return str(v), v
        if k == 1:
            v = float(rng.normal() * 10.0 ** rng.integers(-9, 9))
            return repr(v), v
        if k == 2:
            v = "#%d" % rng.integers(1, 99)
            return v, v
        if k == 3:
            v = str(rng.choice([".T.", ".F.", ".UNSPECIFIED.", "$", "*"]))
            return v, v
        if k in (4, 5):
            v = "".join(rng.choice(list("ab (),;#=.12"), int(rng.integers(0, 7))))
            return "'%s'" % v, v
        parts = [value(depth + 1) for _ in range(int(rng.integers(0, 4)))]
        return "(%s)" % sep().join(p[0] for p in parts), tuple(p[1] for p in parts)

    def sep():
        return str(rng.choice([",", ", ", " ,"]))

    name = str(rng.choice(["CARTESIAN_POINT", "AXIS2_PLACEMENT_3D", "B_SPLINE_CURVE_WITH_KNOTS", "DIRECTION"]))
    parts = [value(0) for _ in range(int(rng.integers(1, 6)))]
    line = "#%d%s%s(%s)%s" % (rng.integers(1, 999), rng.choice(["=", " = "]), name, sep().join(p[0] for p in parts), rng.choice([";", ""]))
    want = (name, tuple(p[1] for p in parts))
    ctx.state("assignment", name, len(parts), max(len(p[0]) for p in parts) // 8)
    got = parse_assignment(line)
    ctx.check("assignment", got == want, "%s was read as %s" % (line, got))
    ctx.raises("assignment:none", ValueError, lambda: parse_assignment(line.split("(")[0]))
    U = np.repeat(np.sort(rng.uniform(-9, 9, int(rng.integers(1, 7)))), rng.integers(1, 5, 9)[:1])
    k, m = get_knot_multiplicities(U.tolist())
    ctx.check("multiplicities", np.array_equal(np.repeat(k, m), U) and len(set(k)) == len(k), "the knots %s have multiplicities %s, %s" % (U, k, m))


SCENARIOS = {
    "curves": (curves, 150, 4000),
    "surfaces": (surfaces, 150, 4000),
    "histories": (histories, 150, 4000),
    "assignments": (assignments, 400, 10000),
}
