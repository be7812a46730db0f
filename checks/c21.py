"""C21: root finders return roots and minimizers return minima, within their tolerance and bounds."""
import contextlib
import io
import math
import warnings

import numpy as np

import gen
from mmcore.numeric import divide_and_conquer as dc
from mmcore.numeric.bisection import bisection1d, bisection_2d, closest_local_minimum, scalar_min_1d
from mmcore.numeric.fdm import multi_newtons_method, newtons_method
from mmcore.numeric.newton import cnewton
from mmcore.numeric.newton.bounded import bounded_newtons_method

RULE = "one case = one random function with known roots or minima handed to a solver; what comes back is put into the function, compared with the exact answer and, where a box is given, every evaluation is watched"
ASSUMPTIONS = [
    "divide and conquer searches are for functions with one minimum in the interval (unimodal, separable in several variables)",
    "Newton iterations start in the basin of the solution; a result of None or a ValueError is a reported failure, not a wrong answer",
    "the compiled Newton method differentiates with steps of 1e-7, so its minima are checked on functions of moderate size",
]


def polynomial(rng, lo, hi, n, gap):
    """n distinct roots in (lo, hi)"""
    for _ in range(200):
        r = np.sort(rng.uniform(lo + gap, hi - gap, n))
        if n < 2 or np.min(np.diff(r)) > gap:
            return r
    return r[:1]


def univariate(ctx):
    rng = ctx.rng
    lo = float(rng.uniform(-3, 1))
    hi = lo + float(rng.uniform(1, 4))
    x0 = float(rng.uniform(lo, hi)) if rng.integers(4) else float(rng.choice([lo, hi]))
    a = float(rng.uniform(0.2, 3))
    k = int(rng.integers(5))
    steep = 10.0 ** float(rng.uniform(-2.5, 2.5))          # unimodal, not symmetric: one side much flatter than the other
    base = float(rng.choice([0.0, 0.0, 5.0]))
    f = [lambda x: a * (x - x0) ** 2 + base, lambda x: a * abs(x - x0) + base,
         lambda x: a * (math.exp(x - x0) - (x - x0)) + base, lambda x: base + a * (x - x0) ** 2 + 0.1 * (x - x0) ** 4,
         lambda x: a * max(x0 - x, steep * (x - x0)) + base][k]
    tol = float(rng.choice([1e-2, 1e-4, 1e-6]))
    seen = []

    def watched(x):
        seen.append(x)
        return f(x)
    flat = 1e-7 * (1 + abs(base) / a) ** 0.5               # a minimum is flat: values differ by rounding only
    for name, fn, s in (("recursive_min", dc.recursive_divide_and_conquer_min, 1), ("iterative_min", dc.iterative_divide_and_conquer_min, 1),
                        ("recursive_max", dc.recursive_divide_and_conquer_max, -1)):
        g = watched if s > 0 else lambda x: -watched(x)
        x, y = fn(g, (lo, hi), tol)
        ctx.check("min1:position", abs(x - x0) <= tol + 2 * flat, "%s: %r, the extreme is at %r (tol %g)" % (name, x, x0, tol))
        ctx.check("min1:value", y == g(x), "%s: value %r at %r, the function is %r there" % (name, y, x, g(x)))
    ctx.check("min1:inside", lo <= min(seen) and max(seen) <= hi, "evaluated outside [%r, %r]" % (lo, hi))
    vec = np.vectorize(f, otypes=[float])
    step = float(rng.choice([1e-2, 1e-3]))
    x = scalar_min_1d(vec, lo, hi, step=step)
    ctx.check("min1:scalar_min_1d", abs(x - x0) <= 1.01 * step + 2 * flat, "scalar_min_1d: %r, the minimum is at %r (step %g)" % (x, x0, step))
    ctx.state(k, tol, x0 in (lo, hi), base)


def roots(ctx):
    rng = ctx.rng
    lo = float(rng.uniform(-3, 1))
    hi = lo + float(rng.uniform(1, 4))
    n = int(rng.integers(0, 5))
    r = polynomial(rng, lo, hi, n, 0.08 * (hi - lo))
    f = lambda x: float(np.prod(x - r)) if n else 1.0 + x * x
    # bisection1d: the first step past every change of sign
    step = float((hi - lo) / rng.integers(400, 1500) * 0.977)
    rr, mn = bisection1d(f, step, lo, hi)
    ctx.check("roots:bisection1d", len(rr) == len(r) and all(0 <= x[0] - y <= step * 1.001 and x[1] == f(x[0]) for x, y in zip(rr, r)),
              "bisection1d: %r, the roots are %r (step %r)" % ([x[0] for x in rr], r.tolist(), step))
    xs = lo + step * np.arange(int((hi - lo) / step) + 1)
    ctx.close("roots:bisection1d minimum", mn, min(f(x) for x in xs), 1e-9 + 10 * step, "bisection1d: smallest value")
    # test_all_roots: one or two roots, extremes isolated
    m = int(rng.integers(0, 3))
    q = polynomial(rng, lo, hi, m, 0.1 * (hi - lo))
    m = len(q)
    g = lambda x: float(np.prod(x - q)) if m else 1.0 + (x - lo) ** 2
    s = float(rng.choice([-1, 1]))
    got = dc.test_all_roots(lambda x: s * g(x), (lo, hi), 1e-3)
    ctx.check("roots:all", len(got) == m and all(abs(a - b) < 1e-6 for a, b in zip(sorted(got), q)), "test_all_roots: %r, the roots are %r" % (got, q.tolist()))
    # two variables: a point within tol of the zero set
    c = rng.uniform(-0.4, 0.4, 2)
    a, b = rng.normal(size=2)
    z = lambda x, y: float(a * (x - c[0]) + b * (y - c[1]))
    tol = float(rng.choice([1e-3, 1e-6]))
    with contextlib.redirect_stdout(io.StringIO()):
        w = bisection_2d(z, (-1, 1), (-1, 1), tol)
    if w is None:
        ctx.check("roots:bisection_2d", z(-1, -1) * z(1, 1) > 0, "bisection_2d gave up although the corners differ in sign")
    else:
        ctx.check("roots:bisection_2d", abs(z(*w)) <= 2 * (abs(a) + abs(b)) * tol and -1 <= w[0] <= 1 and -1 <= w[1] <= 1, "bisection_2d: f%r = %r (tol %g)" % (w, z(*w), tol))
    ctx.state(n, m, w is None)


def boxes(ctx):
    """several variables: separable convex functions in a box"""
    rng = ctx.rng
    n = int(rng.integers(2, 4))
    lo = rng.uniform(-2, 0, n)
    hi = lo + rng.uniform(1, 3, n)
    x0 = rng.uniform(lo, hi)
    if rng.integers(3) == 0:
        i = int(rng.integers(n))
        x0[i] = (lo, hi)[int(rng.integers(2))][i]
    if rng.integers(3) == 0:                                       # near the middle of a face or an edge
        i = int(rng.integers(n))
        x0 = (lo + hi) / 2
        x0[i] = lo[i] + 0.02 * (hi[i] - lo[i])
    a = rng.uniform(0.3, 3, n)
    seen = []

    def f(*x):
        seen.append(x)
        return float(sum(a[i] * (x[i] - x0[i]) ** 2 for i in range(n)))
    tol = float(rng.choice([1e-2, 1e-4]))
    fn = dc.divide_and_conquer_min_2d if n == 2 else dc.divide_and_conquer_min_3d
    x = fn(f, *zip(lo.tolist(), hi.tolist()), tol=tol)
    ctx.check("box:position", all(abs(x[i] - x0[i]) <= tol + 1e-7 for i in range(n)), "%s: %r, the minimum is at %r (tol %g)" % (fn.__name__, x, x0.tolist(), tol))
    s = np.array(seen)
    ctx.check("box:inside", bool(np.all(s >= lo - 1e-12) and np.all(s <= hi + 1e-12)), "evaluated outside the box")
    if n == 2:
        N = int(rng.integers(1, 5))
        c = rng.uniform(-1, 1, (2, N))
        L, H = c - rng.uniform(0.2, 1, (2, N)), c + rng.uniform(0.2, 1, (2, N))
        g = lambda u, v: a[0] * (u - c[0]) ** 2 + a[1] * (v - c[1]) ** 2
        u, v = dc.divide_and_conquer_min_2d_vectorized(g, np.array([L[0], H[0]]), np.array([L[1], H[1]]), tol)
        ctx.close("box:vectorized", [u, v], c, tol + 1e-7, "divide_and_conquer_min_2d_vectorized")
        # all minima of a function with wells
        W = rng.uniform(-0.6, 0.6, 2)
        k = float(rng.uniform(1.5, 2.2))
        h = lambda x, y: 2 - math.cos(k * math.pi * (x - W[0])) - math.cos(k * math.pi * (y - W[1]))
        res = dc.find_all_minima(h, (-1, 1), (-1, 1), tol=1e-5)
        for p in res:
            ctx.check("box:find_all_minima inside", max(abs(p[0]), abs(p[1])) <= 1, "find_all_minima: (%r, %r) is out of range" % (p[0], p[1]))
            e = [abs((p[i] - W[i]) * k / 2 - round((p[i] - W[i]) * k / 2)) * 2 / k for i in (0, 1)]
            ctx.check("box:find_all_minima", max(e) < 1e-2 and abs(p[2] - h(p[0], p[1])) < 1e-12, "find_all_minima: (%r, %r) is %r from a minimum, value %r" % (p[0], p[1], max(e), p[2]))
        ctx.check("box:find_all_minima", any(math.hypot(p[0] - W[0], p[1] - W[1]) < 1e-2 for p in res), "find_all_minima missed the minimum at %r" % W.tolist())
    ctx.state(n, tol)


class Bowl:
    """convex: quadratic and quartic part around x0"""
    def __init__(self, rng, n, quartic):
        self.x0 = rng.uniform(-1, 1, n)
        Q, _ = np.linalg.qr(rng.normal(size=(n, n)))
        self.A = Q @ np.diag(rng.uniform(0.5, 4, n)) @ Q.T
        self.k = quartic

    def __call__(self, x):
        d = np.asarray(x, float) - self.x0
        return float(d @ self.A @ d / 2 + self.k * np.sum(d ** 4))

    def cols(self, X):
        D = np.asarray(X, float) - self.x0[:, None]
        return np.einsum("ij,ik,kj->j", D, self.A, D) / 2 + self.k * np.sum(D ** 4, axis=0)

    def grad(self, x):
        d = np.asarray(x, float) - self.x0
        return self.A @ d + 4 * self.k * d ** 3

    def hess(self, x):
        d = np.asarray(x, float) - self.x0
        return self.A + np.diag(12 * self.k * d ** 2)


def newton(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 5))
    B = Bowl(rng, n, float(rng.choice([0.0, 0.3, 1.0])))
    x = B.x0 + rng.uniform(-1, 1, n)
    keep = x.copy()
    tol = float(rng.choice([1e-4, 1e-6]))
    exact = dict(grad=B.grad, hess=B.hess) if rng.integers(2) else {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = newtons_method(B, x, tol=tol, no_warn=True, **exact)
        ctx.check("newton:python", r is not None and np.linalg.norm(r - B.x0) < 5 * tol + 1e-5, "newtons_method: %r, the minimum is at %r" % (r, B.x0.tolist()))
        full = newtons_method(B, x, tol=tol, no_warn=True, full_return=True, **exact)
        ctx.check("newton:full", len(full) == 5 and np.array_equal(full[0], r), "full_return")
        ctx.close("newton:full", full[2], B.hess(B.x0), 1e-2 + 30 * tol, "Hessian of full_return")
        c = cnewton.newtons_method(B, x.copy(), tol=max(tol, 1e-5), max_iter=200, no_warn=True)
        if c is not None:
            ctx.check("newton:compiled", np.linalg.norm(np.array(c) - B.x0) < 50 * max(tol, 1e-5), "compiled newtons_method: %r, the minimum is at %r" % (list(c), B.x0.tolist()))
        ctx.check("newton:compiled found", c is not None or B.k > 0, "compiled newtons_method found no minimum of a quadratic")
        # bounded: the minimum over a box
        lo, hi = B.x0 - rng.uniform(0.3, 1.2, n), B.x0 + rng.uniform(0.3, 1.2, n)
        seen = []

        def watched(y):
            seen.append(np.array(y))
            return B(y)
        b = bounded_newtons_method(watched, x, list(zip(lo.tolist(), hi.tolist())), no_warn=True, grad=B.grad, hess=B.hess)
        ctx.check("newton:bounded", b is not None and np.linalg.norm(b - B.x0) < 1e-4, "bounded_newtons_method: %r, the minimum is at %r" % (b, B.x0.tolist()))
        s = np.array(seen)
        ctx.check("newton:bounded inside", bool(np.all(s >= lo - 1e-12) and np.all(s <= hi + 1e-12)), "evaluated outside the box")
        # clipped: the answer stays in the box and is no worse than the start
        lo2, hi2 = B.x0 + rng.uniform(0.1, 0.5, n), B.x0 + rng.uniform(0.6, 1.5, n)
        st = rng.uniform(lo2, hi2)
        b = bounded_newtons_method(B, st, list(zip(lo2.tolist(), hi2.tolist())), no_warn=True)
        if b is not None:
            ctx.check("newton:bounded clipped", bool(np.all(b >= lo2 - 1e-12) and np.all(b <= hi2 + 1e-12)) and B(b) <= B(st) + 1e-9, "bounded_newtons_method: %r for the box %r..%r, value %r from %r" % (b.tolist(), lo2.tolist(), hi2.tolist(), B(b), B(st)))
        m = int(rng.integers(1, 5))
        X = B.x0 + rng.uniform(-0.5, 0.5, (m, n))
        K = X.copy()
        R = multi_newtons_method(B.cols, X, tol=1e-8, no_warn=True)
        ctx.close("newton:multi", R, np.tile(B.x0, (m, 1)), 1e-3, "multi_newtons_method")
        y, v = closest_local_minimum(B, x)
        ctx.close("newton:bfgs", y, B.x0, 1e-3, "closest_local_minimum")
        ctx.close("newton:bfgs", v, B(y), 1e-12, "closest_local_minimum value")
    ctx.check("newton:input", np.array_equal(x, keep) and np.array_equal(X, K), "the start was modified")
    ctx.state(n, B.k, bool(exact))


def systems(ctx):
    """f(x) = 0 with a Jacobian: linear and mildly nonlinear, any pivot pattern"""
    rng = ctx.rng
    n = int(rng.integers(1, 6))
    M = rng.normal(size=(n, n)) + 2 * np.eye(n)
    M = M[rng.permutation(n)]
    if rng.integers(3) == 0:                                       # exact zeros on the diagonal
        M = np.diag(rng.uniform(1, 3, n))[rng.permutation(n)]
    if np.linalg.svd(M, compute_uv=False)[-1] < 0.5:               # the quadratic term stays small
        ctx.skip("ill conditioned")
    z = rng.uniform(-1, 1, n)
    k = float(rng.choice([0.0, 0.05]))
    f = lambda x: M @ (x - z) + k * (x - z) ** 2
    j = lambda x: M + np.diag(2 * k * (x - z))
    x0 = z + rng.uniform(-0.5, 0.5, n)
    keep = x0.copy()
    count = [0]

    def fc(x):
        count[0] += 1
        return f(x)
    tol = float(rng.choice([1e-7, 1e-10]))
    r = cnewton.newton_method2(fc, j, x0, tol, 30)
    ctx.check("system:root", np.linalg.norm(np.asarray(r) - z) < 1e3 * tol + 1e-9, "newton_method2: %r, the root is %r" % (list(r), z.tolist()))
    ctx.check("system:quadratic", count[0] <= (3 if k == 0 else 10), "%d evaluations for a %s system" % (count[0], "linear" if k == 0 else "mildly nonlinear"))
    ctx.check("system:input", np.array_equal(x0, keep), "the start was modified")
    ctx.raises("system:singular", ValueError, cnewton.newton_method2, lambda x: np.ones(n), lambda x: np.zeros((n, n)), x0)
    ctx.raises("system:shape", ValueError, cnewton.newton_method2, lambda x: np.ones(n + 1), j, x0)
    ctx.raises("system:shape", ValueError, cnewton.newton_method2, lambda x: np.ones(n), lambda x: np.zeros((n, n + 1)), x0)
    ctx.raises("system:no root", ValueError, cnewton.newton_method2, lambda x: x * x + 1, lambda x: np.diag(2 * x), np.full(n, 0.7), 1e-9, 20)
    ctx.state(n, k, tol)


SCENARIOS = {
    "univariate": (univariate, 150, 15000),
    "roots": (roots, 100, 8000),
    "boxes": (boxes, 60, 3000),
    "newton": (newton, 80, 6000),
    "systems": (systems, 200, 20000),
}
