"""C20: numeric differentiation gives the derivatives of the function it is given."""
import math
import sys

import numpy as np

import mmcore.numeric.fdm
from mmcore.numeric.fdm import FDM, PDE, CriticalPointType, Grad, Hess
from mmcore.numeric.newton import cnewton

RULE = "one case = one random polynomial or trigonometric function (1 to 5 variables) and point, differentiated by every routine and compared with the exact derivative within the truncation and rounding error of the formula"
ASSUMPTIONS = [
    "one-sided formulas are first order, central ones second order in the step; the tolerance follows from bounds on the next derivative",
    "the *_multi routines call the function with the transposed points, as documented",
]
F = sys.modules["mmcore.numeric.fdm"]       # the package has a function of this name
EPS = 2.3e-16


class Poly:
    """c0 + b.x + x'Ax/2 + sum k_i x_i^3, with derivatives"""
    def __init__(self, rng, n, cubic=True):
        self.n = n
        self.c = float(rng.normal())
        self.b = rng.normal(size=n)
        A = rng.normal(size=(n, n))
        self.A = (A + A.T) / 2
        self.k = rng.normal(size=n) * (0.3 if cubic else 0)

    def __call__(self, x):
        x = np.asarray(x, float)
        return float(self.c + self.b @ x + x @ self.A @ x / 2 + self.k @ x ** 3)

    def cols(self, X):
        """points as columns"""
        X = np.asarray(X, float)
        return self.c + self.b @ X + np.einsum("ij,ik,kj->j", X, self.A, X) / 2 + self.k @ X ** 3

    def rows(self, X):
        return self.cols(np.atleast_2d(X).T)

    def grad(self, x):
        return self.b + self.A @ x + 3 * self.k * x ** 2

    def hess(self, x):
        return self.A + np.diag(6 * self.k * x)

    def size(self, x):
        r = np.abs(x) + 1
        return abs(self.c) + np.abs(self.b) @ r + r @ np.abs(self.A) @ r + np.abs(self.k) @ r ** 3


def function1(rng, m):
    """t -> R^m (or a scalar), its derivative and a bound for derivatives 2 and 3"""
    w = rng.uniform(0.2, 2, m)
    ph = rng.uniform(0, 6, m)
    a = rng.normal(size=m)
    b = rng.normal(size=m)
    f = lambda t: a * np.sin(w * t + ph) + b * t
    d = lambda t: a * w * np.cos(w * t + ph) + b
    return f, d, np.abs(a) * w ** 2, np.abs(a) * w ** 3, np.abs(a) + np.abs(b) * 4


def univariate(ctx):
    rng = ctx.rng
    m = int(rng.integers(1, 4))
    f, d, M2, M3, S = function1(rng, m)
    t = float(rng.uniform(-3, 3))
    h = float(rng.choice([1e-2, 1e-3, 1e-5]))
    err = {"central": M3 * h * h / 6, "forward": M2 * h / 2, "backward": M2 * h / 2}
    if m == 1:
        g, k = f, d
        f, d = (lambda x: float(g(x)[0])), (lambda x: float(k(x)[0]))
    for how in ("central", "forward", "backward"):
        tol = float(np.max(1.05 * err[how] + 8 * EPS * S / h))
        ctx.close("fdm:" + how, F.fdm(f, how, h)(t), d(t), tol, "fdm %s, h=%g" % (how, h))
        ctx.close("fdm:" + how, getattr(FDM(f), how)(t, h=h), d(t), tol, "FDM.%s, h=%g" % (how, h))
        ctx.close("fdm:" + how, FDM(f)(t, h=h, method=how), d(t), tol, "FDM(method=%s)" % how)
    # which side: a function with a kink
    for how, s in (("forward", 1), ("backward", -1)):
        kink = lambda x: 3.0 * max(x - t, 0) - 2.0 * max(t - x, 0)
        ctx.close("fdm:side", F.fdm(kink, how, h)(t), 3.0 if s > 0 else 2.0, 1e-9 / h * 1e-5 + 1e-9, "one sided " + how)
    ctx.raises("fdm:method", ValueError, F.fdm, f, "sideways")
    tol = float(np.max(1.05 * err["central"] + 8 * EPS * S / h))
    ctx.close("fdm:derivate", F.derivate(lambda x, a, b=1.0: np.asarray(f(x)) * a * b, t, 2.0, b=0.5, h=h), d(t), tol, "derivate with arguments")
    # bounded: never leaves the interval, one sided at its ends
    lo = t
    hi = t + float(rng.uniform(1, 3))
    seen = []

    def watched(x):
        seen.append(x)
        return f(x)
    bf = F.bounded_fdm(watched, h, (lo, hi))
    for x in (lo, lo + 0.4 * h, (lo + hi) / 2, hi - 0.4 * h, hi, lo + 1.5 * h):
        side = abs(x - lo) <= h or abs(x - hi) <= h
        tol = float(np.max(1.05 * err["forward" if side else "central"] + 8 * EPS * (S + 4) / h))
        ctx.close("fdm:bounded", bf(x), d(x), tol, "bounded_fdm at %r of [%r, %r]" % (x, lo, hi))
    ctx.check("fdm:bounded stays inside", min(seen) >= lo - 1e-12 and max(seen) <= hi + 1e-12, "evaluated [%r, %r] of [%r, %r]" % (min(seen), max(seen), lo, hi))
    if m == 3:
        D = d(t)
        if np.min(np.abs(D)) > 0.05:
            o = FDM(f)
            for name, want in (("dydx", D[1] / D[0]), ("dzdx", D[2] / D[0]), ("dzdy", D[2] / D[1])):
                ctx.close("fdm:ratio", np.ravel(getattr(o, name)(t))[0], want, 1e-3 * (1 + abs(want)) ** 2 / 0.05, name)
    a, b = F.FDM(f).interval()
    ctx.check("fdm:interval", (a, b) == (0.0, 1.0), "default interval %r" % ((a, b),))
    ctx.check("fdm:prime", F.FDM(f).prime is f, "prime is not the function")
    ctx.state(m, h)


def gradients(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 6))
    P = Poly(rng, n)
    integer = rng.integers(4) == 0
    x = rng.integers(-3, 4, n).astype(float) if integer else rng.uniform(-2, 2, n)
    h = float(rng.choice([1e-2, 1e-3, 1e-4]))
    k = np.abs(P.k)
    noise = 8 * EPS * P.size(x) / h
    cen = float(np.max(1.05 * k * h * h + noise))
    one = float(np.max(1.05 * (np.abs(np.diag(P.A)) + 6 * k * (np.abs(x) + h)) * h / 2 + k * h * h + noise))
    G = P.grad(x)
    keep = x.copy()
    given = keep.astype(int).tolist() if integer else x
    ctx.close("grad:gradient", F.gradient(P, given, h), G, cen, "gradient, %d variables" % n)
    ctx.close("grad:gradient", F.gradient(P, given), G, float(np.max(1.05 * k * 1e-6 + noise * h / 1e-3)), "gradient, default step")
    ctx.close("grad:compiled", np.array(cnewton.gradient(P, x, h)), G, cen, "cnewton.gradient")
    g = Grad(P)
    ctx.close("grad:Grad", g(x, h=h), G, cen, "Grad central")
    ctx.close("grad:Grad", g.central(x, h=h), G, cen, "Grad central")
    ctx.close("grad:forward", g.forward(x, h=h), G, one, "Grad forward")
    ctx.close("grad:backward", g(x, h=h, method="backward"), G, one, "Grad backward")
    if n == 1:
        s = Grad(lambda y: P(np.atleast_1d(y)))
        v = s(float(x[0]), h=h)
        ctx.check("grad:scalar", np.ndim(v) == 0 and abs(v - G[0]) <= cen, "Grad of a scalar argument: %r, expected %r" % (v, G[0]))
    # a batch of points
    X = rng.uniform(-2, 2, (int(rng.integers(1, 6)), n))
    K = X.copy()
    S = max(P.size(y) for y in X)
    want = np.array([P.grad(y) for y in X])
    tol = float(np.max(1.05 * k * h * h + 8 * EPS * S / h))
    ctx.close("grad:multi", F.gradient_multi(P.cols, X, h), want, tol, "gradient_multi")
    ctx.close("grad:pde", F.pde(P.rows, X, h), want, tol, "pde on rows")
    ctx.close("grad:PDE", np.array(PDE(P.rows, dim=n, h=h)(x)), G, cen, "PDE")
    for i in range(n):
        e = np.zeros(n)
        e[i] = G[i]
        ctx.close("grad:PDE", np.array(PDE(P.rows, dim=n, h=h).dn(x, i)), e, cen, "PDE.dn(%d)" % i)
    ctx.check("grad:input", np.array_equal(x, keep) and np.array_equal(X, K), "an input was modified")
    ctx.state(n, h, bool(integer))


def hessians(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 5))
    P = Poly(rng, n)
    integer = rng.integers(4) == 0
    x = rng.integers(-3, 4, n).astype(float) if integer else rng.uniform(-2, 2, n)
    keep = x.copy()
    h = float(rng.choice([1e-2, 1e-3]))
    H = P.hess(x)
    tol = 32 * EPS * P.size(x) / h ** 2                  # exact for cubics up to rounding
    given = keep.astype(int) if integer else x
    ctx.close("hess:hessian", F.hessian(P, given, h), H, tol, "hessian, %d variables" % n)
    ctx.close("hess:hessian", F.hessian(P, given.tolist()), H, 32 * EPS * P.size(x) / 1e-6, "hessian, default step")
    ctx.close("hess:class", Hess(P, h)(given), H, tol, "Hess")
    ctx.close("hess:compiled", np.array(cnewton.hessian(P, x, h)), H, tol, "cnewton.hessian")
    X = rng.uniform(-2, 2, (int(rng.integers(1, 6)), n))
    if integer:
        X = rng.integers(-3, 4, X.shape)
    K = X.copy()
    S = max(P.size(y) for y in X)
    ctx.close("hess:multi", F.hessian_multi(P.cols, X, h), np.array([P.hess(y) for y in X]), 32 * EPS * S / h ** 2, "hessian_multi")
    ctx.close("hess:multi", F.gradient_multi(P.cols, X, h), np.array([P.grad(y) for y in X]), float(np.max(1.05 * np.abs(P.k) * h * h + 8 * EPS * S / h)), "gradient_multi")
    ctx.check("hess:input", np.array_equal(x, keep) and np.array_equal(X, K), "an input was modified")
    # Jacobian of a square system
    comps = [Poly(rng, n) for _ in range(n)]
    f = lambda y: np.array([p(y) for p in comps])
    J = np.array([p.grad(x) for p in comps])
    tolj = max(float(np.max(1.05 * np.abs(p.k) * h * h)) + 8 * EPS * p.size(x) / h for p in comps)
    ctx.close("hess:jacobian", F.jac(f, h)(x), J, tolj, "jac: rows are the gradients of the components")
    if n == 2:
        q = P.hess(x)
        ev = np.linalg.eigvalsh(q)
        if abs(np.linalg.det(q)) > 1e-9:
            want = CriticalPointType.LOCAL_MINIMUM if ev[0] > 0 else CriticalPointType.LOCAL_MAXIMUM if ev[1] < 0 else CriticalPointType.SADDLE_POINT
            ctx.check("hess:classify", F.classify_critical_point_2d(q) is want, "eigenvalues %r: %r" % (ev.tolist(), F.classify_critical_point_2d(q)))
        v = rng.integers(-3, 4, 2).astype(float)
        ctx.check("hess:classify", F.classify_critical_point_2d(np.outer(v, v)) is CriticalPointType.UNDEFINED, "a singular Hessian is not undefined")
    else:
        ctx.raises("hess:classify", ValueError, F.classify_critical_point_2d, H)
    ctx.state(n, h, bool(integer))


SCENARIOS = {
    "univariate": (univariate, 150, 20000),
    "gradients": (gradients, 150, 20000),
    "hessians": (hessians, 150, 20000),
}
