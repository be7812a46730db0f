"""C17: interval arithmetic encloses pointwise arithmetic."""
import math
from fractions import Fraction as Fr

import numpy as np

from mmcore.numeric.interval import Comparison, Interval

RULE = "one case = two random intervals (dyadic endpoints; negative, zero-crossing and degenerate ones common), points inside them and one operation; enclosure and exact end values are judged in rational arithmetic"
ASSUMPTIONS = [
    "end points are small dyadic numbers, so that exact results are representable (quotients: up to 4 ulp)",
    "division by an interval with 0 at an end is refused (ZeroDivisionError) and an interval with 0 inside gives the whole line",
]


def num(rng):
    k = int(rng.integers(6))
    if k == 0:
        return 0.0
    if k < 4:
        return float(rng.integers(-8, 9))
    return float(rng.integers(-200, 201)) / float(2 ** rng.integers(1, 6))


def interval(rng):
    a, b = num(rng), num(rng)
    if rng.integers(5) == 0:
        b = a
    return (min(a, b), max(a, b))


def inside(rng, X, n=4):
    lo, hi = X
    ts = np.concatenate([[0, 1, 0.5], rng.integers(0, 65, n) / 64.0])
    out = [lo + (hi - lo) * float(t) for t in ts]
    if lo <= 0 <= hi:
        out.append(0.0)
    return out


def ends(ctx, mon, got, lo, hi, msg, tol=0.0):
    ctx.check(mon, isinstance(got, Interval) and abs(got.low - lo) <= tol * (1 + abs(lo)) and abs(got.upp - hi) <= tol * (1 + abs(hi)),
              "%s = %r, expected [%r, %r]" % (msg, got, lo, hi))


OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b}


def arithmetic(ctx):
    rng = ctx.rng
    X, Y = interval(rng), interval(rng)
    A, B = Interval(*X), Interval(*Y)
    op = str(rng.choice(list(OPS)))
    f = OPS[op]
    got = f(A, B)
    for x in inside(rng, X):
        for y in inside(rng, Y):
            ctx.check("enclosure", got.low <= f(x, y) <= got.upp, "%r %s %r = %r misses %r %s %r" % (A, op, B, got, x, op, y))
    c = [Fr(f(Fr(x), Fr(y))) for x in X for y in Y]
    ends(ctx, "ends", got, float(min(c)), float(max(c)), "%r %s %r" % (A, op, B))
    ctx.check("operands untouched", (A.low, A.upp, B.low, B.upp) == (*X, *Y), "%s changed its operands" % op)
    s = num(rng)
    got = f(A, s)
    c = [f(x, s) for x in X]
    ends(ctx, "ends:scalar", got, min(c), max(c), "%r %s %r" % (A, op, s))
    if op == "+":
        ends(ctx, "ends:scalar", s + A, min(c), max(c), "%r + %r" % (s, A))
    C = Interval(*X)
    D = C
    if op == "+":
        C += B
    elif op == "-":
        C -= B
    else:
        C *= B
    ctx.check("in place", C is D, "in-place %s gave a new object" % op)
    c = [Fr(f(Fr(x), Fr(y))) for x in X for y in Y]
    ends(ctx, "in place", C, float(min(c)), float(max(c)), "in place %r %s %r" % (A, op, B))
    ctx.state(op, np.sign(X).tolist(), np.sign(Y).tolist())


def division(ctx):
    rng = ctx.rng
    X, Y = interval(rng), interval(rng)
    A, B = Interval(*X), Interval(*Y)
    s = num(rng)
    if s:
        c = [x / s for x in X]
        ends(ctx, "division:scalar", A / s, min(c), max(c), "%r / %r" % (A, s), 1e-14)
    if Y[0] == 0 or Y[1] == 0:
        ctx.raises("division by zero", ZeroDivisionError, lambda: A / B)
        ctx.raises("division by zero", ZeroDivisionError, lambda: ~B)
        ctx.state("zero", np.sign(X).tolist(), np.sign(Y).tolist())
        return
    got = A / B
    inv = ~B
    for y in inside(rng, Y):
        if y == 0:
            continue
        ctx.check("enclosure:reciprocal", inv.low - 1e-14 * abs(inv.low) <= 1 / y <= inv.upp + 1e-14 * abs(inv.upp) if math.isfinite(inv.low) else True, "~%r = %r misses 1/%r" % (B, inv, y))
        for x in inside(rng, X):
            e = x / y
            t = 1e-14 * (1 + abs(e))
            ctx.check("enclosure:division", got.low - t <= e <= got.upp + t, "%r / %r = %r misses %r / %r" % (A, B, got, x, y))
    if Y[0] > 0 or Y[1] < 0:
        c = [x / y for x in X for y in Y]
        ends(ctx, "ends:division", got, min(c), max(c), "%r / %r" % (A, B), 1e-14)
        ends(ctx, "ends:reciprocal", inv, 1 / Y[1], 1 / Y[0], "~%r" % B, 1e-15)
        C = Interval(*X)
        C /= B
        ends(ctx, "in place", C, min(c), max(c), "in place %r / %r" % (A, B), 1e-14)
    ctx.state(np.sign(X).tolist(), np.sign(Y).tolist())


def powers(ctx):
    rng = ctx.rng
    X = interval(rng)
    A = Interval(*X)
    n = int(rng.integers(0, 7))
    for name, got in (("**", A ** n), ("pow", Interval.pow(A, n))):
        for x in inside(rng, X):
            v = Fr(x) ** n
            ctx.check("enclosure:power", Fr(got.low) * (1 - Fr(1, 10 ** 14) * (1 if got.low > 0 else -1)) <= v <= Fr(got.upp) * (1 + Fr(1, 10 ** 14) * (1 if got.upp > 0 else -1)),
                      "%r %s %d = %r misses %r" % (A, name, n, got, float(v)))
        c = [x ** n for x in X] + ([0.0] if X[0] <= 0 <= X[1] and n > 0 else [])
        ends(ctx, "ends:power", got, min(c), max(c), "%r %s %d" % (A, name, n), 1e-14)
    if X[0] > 0 or X[1] < 0:
        m = int(rng.integers(1, 4))
        got = A ** -m
        c = [x ** -m for x in X]
        ends(ctx, "ends:negative power", got, min(c), max(c), "%r ** %d" % (A, -m), 1e-13)
    ctx.state(n, np.sign(X).tolist())


def sets(ctx):
    rng = ctx.rng
    X, Y = interval(rng), interval(rng)
    A, B = Interval(*X), Interval(*Y)
    pts = inside(rng, X) + inside(rng, Y) + [num(rng) for _ in range(4)]
    i, u, m = A & B, A | B, A.merge(B)
    for p in pts:
        a, b = X[0] <= p <= X[1], Y[0] <= p <= Y[1]
        ctx.check("contains", (p in A) == a, "%r in %r" % (p, A))
        ctx.check("intersection", (p in i) == (a and b), "%r in %r & %r = %r" % (p, A, B, i))
        ctx.check("union", (p in u) == (min(X[0], Y[0]) <= p <= max(X[1], Y[1])), "%r in %r | %r = %r" % (p, A, B, u))
        s = num(rng)
        ctx.check("merge", (p in m) == (p in u), "%r in merge" % p)
    ctx.check("contains:interval", (A in B) == (Y[0] <= X[0] and X[1] <= Y[1]), "%r in %r" % (A, B))
    k = int(rng.integers(0, 5))
    sub = A.subdivide(k)
    ctx.check("subdivide", len(sub) == 2 ** k and sub[0].low == X[0] and sub[-1].upp == X[1] and all(a.upp == b.low for a, b in zip(sub, sub[1:]))
              and all(abs((t.upp - t.low) * 2 ** k - (X[1] - X[0])) < 1e-12 for t in sub), "%r subdivided %d times: %r" % (A, k, sub))
    t = float(rng.integers(0, 9)) / 8
    ctx.check("evaluate", A.evaluate(t) == X[0] + (X[1] - X[0]) * t, "evaluate %r" % t)
    ctx.check("tuples", tuple(A) == A.to_tuple() == X and np.array_equal(np.array(A), np.array(X)) and tuple(Interval.from_tuple(A.to_tuple())) == X and tuple(Interval(X)) == X, "tuple forms of %r" % A)
    ctx.check("ends:lower/upper", tuple(A.lower()) == (X[0], X[0]) and tuple(A.upper()) == (X[1], X[1]) and float(A) == (X[0] + X[1]) / 2, "lower/upper/float of %r" % A)
    ctx.state(np.sign([X[0] - Y[0], X[0] - Y[1], X[1] - Y[0], X[1] - Y[1]]).tolist(), k)


def ordering(ctx):
    rng = ctx.rng
    X, Y = interval(rng), interval(rng)
    A, B = Interval(*X), Interval(*Y)
    lt, gt = X[1] < Y[0], X[0] > Y[1]
    ctx.check("definite <", (A < B) == lt, "%r < %r" % (A, B))
    ctx.check("definite >", (A > B) == gt, "%r > %r" % (A, B))
    ctx.check("possible <=", (A <= B) == (not gt), "%r <= %r" % (A, B))
    ctx.check("possible >=", (A >= B) == (not lt), "%r >= %r" % (A, B))
    ctx.check("compare", A.compare(B) == (Comparison.TRUE if lt else Comparison.FALSE if gt else Comparison.MAYBE), "compare(%r,%r)" % (A, B))
    s = num(rng)
    ctx.check("scalar <", (A < s) == (X[1] < s), "%r < %r" % (A, s))
    ctx.check("scalar >", (A > s) == (X[0] > s), "%r > %r" % (A, s))
    ctx.check("scalar <=", (A <= s) == (not X[0] > s), "%r <= %r" % (A, s))
    ctx.check("scalar >=", (A >= s) == (not X[1] < s), "%r >= %r" % (A, s))
    n = int(rng.integers(1, 5))
    I = [interval(rng) for _ in range(n)]
    mx, mn = Interval.max(*[Interval(*t) for t in I]), Interval.min(*[Interval(*t) for t in I])
    if n > 1:
        for _ in range(6):
            p = [inside(rng, t, 1)[int(rng.integers(4))] for t in I]
            ctx.check("enclosure:max", max(p) in mx, "max of %r = %r misses max%r" % (I, mx, p))
            ctx.check("enclosure:min", min(p) in mn, "min of %r = %r misses min%r" % (I, mn, p))
    ctx.state(np.sign([X[0] - Y[0], X[0] - Y[1], X[1] - Y[0], X[1] - Y[1], X[0] - s, X[1] - s]).tolist(), n)


def expressions(ctx):
    """random expression trees: the value at any point lies in the interval value"""
    rng = ctx.rng
    nv = int(rng.integers(1, 4))
    V = [interval(rng) for _ in range(nv)]

    def gen(d):
        if d == 0 or rng.integers(4) == 0:
            if rng.integers(4) == 0:
                c = num(rng)
                return lambda e: c, "%r" % c, True
            i = int(rng.integers(nv))
            return (lambda e: e[i]), "x%d" % i, False
        k = int(rng.integers(5))
        f, fs, fc = gen(d - 1)
        if k == 3:
            n = int(rng.integers(0, 4))
            return (lambda e: f(e) ** n), "(%s)**%d" % (fs, n), fc
        g, gs, gc = gen(d - 1)
        if fc and not gc:
            f, fs, fc, g, gs, gc = g, gs, gc, f, fs, fc
        o = ["+", "-", "*", None, "+"][k]
        return (lambda e: OPS[o](f(e), g(e))), "(%s%s%s)" % (fs, o, gs), fc and gc
    f, s, const = gen(4)
    if const:
        ctx.skip("constant")
    got = f([Interval(*v) for v in V])
    for _ in range(12):
        p = [inside(rng, v, 2)[int(rng.integers(5))] for v in V]
        e = f([Fr(x) for x in p]) if False else f(p)
        t = 1e-12 * (1 + abs(e) + max(abs(got.low), abs(got.upp)))
        ctx.check("enclosure:expression", got.low - t <= e <= got.upp + t, "%s over %r = %r misses the value %r at %r" % (s, V, got, e, p))
    ctx.state(s)


SCENARIOS = {
    "arithmetic": (arithmetic, 600, 30000),
    "division": (division, 500, 30000),
    "powers": (powers, 400, 20000),
    "sets": (sets, 400, 20000),
    "ordering": (ordering, 400, 20000),
    "expressions": (expressions, 500, 30000),
}
