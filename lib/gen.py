"""Seeded workload generators for NURBS data (plain numpy, no mmcore)."""
import numpy as np


def clamped_knots(rng, n, p, a=0.0, length=None, style="simple"):
    """clamped knot vector for n control points of degree p on [a, a+length]."""
    k = n - p - 1
    L = float(length if length is not None else k + 1.0)
    if style == "uniform":
        ints = a + L * np.arange(1, k + 1) / (k + 1)
    elif style == "repeated" and k > 1:
        # clusters of repeated interior knots, multiplicity at most p
        ints = []
        pool = a + L * np.sort(rng.choice(np.arange(1, 16), size=min(k, 15), replace=False)) / 16.0
        j = 0
        while len(ints) < k:
            m = int(rng.integers(1, p + 1))
            m = min(m, k - len(ints))
            ints += [float(pool[j % len(pool)])] * m
            j += 1
            if j >= len(pool) and len(ints) < k:
                # all distinct values used: fill the remaining capacity
                c = [x for x in pool if ints.count(float(x)) < p]
                if not c:
                    return clamped_knots(rng, n, p, a, length, "simple")
                ints.append(float(c[0]))
        ints = np.sort(np.array(ints))
    elif style == "skewed":
        g = np.cumsum(rng.uniform(0.02, 1.0, k + 1) ** 3 + 1e-3)
        ints = a + L * g[:-1] / (g[-1] if k else 1.0)
    else:
        ints = a + L * (np.arange(1, k + 1) + rng.uniform(-0.35, 0.35, k)) / (k + 1)
    return np.r_[[a] * (p + 1), ints, [a + L] * (p + 1)].astype(float)


def open_knots(rng, n, p):
    """knots without multiple ends: the domain [U[p], U[n]] begins and ends inside the vector"""
    d = np.ones(n + p) if rng.random() < 0.4 else rng.uniform(0.2, 1.0, n + p)
    if rng.random() < 0.4:                 # a repeated interior knot
        i = int(rng.integers(p, n))
        if p < i < n - 1 and p > 1:
            d[i] = 0.0
    return float(rng.uniform(-3, 3)) + np.r_[0.0, np.cumsum(d)]


STYLES = ("simple", "uniform", "repeated", "skewed")


def curve_data(rng, pmax=5, extra=8, rational=None, pmin=1, dim=3, style=None, dom=None, scale=5.0, smooth=False):
    p = int(rng.integers(pmin, pmax + 1))
    n = int(rng.integers(p + 1, p + 2 + extra))
    if style is None:
        style = STYLES[int(rng.integers(len(STYLES)))]
    if dom is None:
        dom = [(0.0, None), (0.0, 1.0), (-3.0, 7.5), (2.0, 0.5), (100.0, 25.0)][int(rng.integers(5))]
    U = clamped_knots(rng, n, p, dom[0], dom[1], style)
    if smooth:
        x = np.linspace(-scale, scale, n)
        P = np.c_[x, rng.uniform(-scale, scale, n), rng.uniform(-scale, scale, n)]
    else:
        P = rng.uniform(-scale, scale, (n, 3))
    if dim == 2:
        P[:, 2] = 0.0
    if rational is None:
        rational = bool(rng.integers(2))
    w = rng.uniform(0.3, 3.0, n) if rational else np.ones(n)
    return P, w, U, p


def params(rng, U, p, k=6, ends=True, knots=True):
    """parameters inside the domain: random, the ends, knots and points next to knots."""
    a, b = float(U[p]), float(U[len(U) - p - 1])
    ts = list(rng.uniform(a, b, k))
    if ends:
        ts += [a, b]
    if knots:
        inner = sorted(set(float(x) for x in U if a < x < b))
        if inner:
            x = inner[int(rng.integers(len(inner)))]
            ts += [x, min(b, x + 1e-9 * max(1, abs(x))), max(a, x - 1e-9 * max(1, abs(x)))]
    return ts


def away_from_knots(rng, U, p, k, gap):
    """interior parameters at least gap*domain away from every knot value (None if impossible)"""
    a, b = float(U[p]), float(U[len(U) - p - 1])
    kn = np.unique(U)
    spans = [(x + gap * (b - a), y - gap * (b - a)) for x, y in zip(kn[:-1], kn[1:]) if y - x > 2.5 * gap * (b - a)]
    if not spans:
        return []
    out = []
    for _ in range(k):
        lo, hi = spans[int(rng.integers(len(spans)))]
        out.append(float(rng.uniform(lo, hi)))
    return out


def surface_data(rng, pmax=4, extra=4, rational=None, dom=None, scale=5.0, style=None, height=None):
    pu, pv = int(rng.integers(1, pmax + 1)), int(rng.integers(1, pmax + 1))
    nu, nv = int(rng.integers(pu + 1, pu + 2 + extra)), int(rng.integers(pv + 1, pv + 2 + extra))
    doms = [(0.0, None), (0.0, 1.0), (-2.0, 5.0), (3.0, 0.5)]

    def pick():
        return dom if dom is not None else doms[int(rng.integers(len(doms)))]

    st = style or STYLES[int(rng.integers(len(STYLES)))]
    du, dv = pick(), pick()
    Uu = clamped_knots(rng, nu, pu, du[0], du[1], st)
    Uv = clamped_knots(rng, nv, pv, dv[0], dv[1], st)
    if height is not None:
        X, Y = np.meshgrid(np.linspace(-scale, scale, nu), np.linspace(-scale, scale, nv), indexing="ij")
        P = np.stack([X, Y, rng.uniform(-height, height, (nu, nv))], -1)
    else:
        P = rng.uniform(-scale, scale, (nu, nv, 3))
    if rational is None:
        rational = bool(rng.integers(2))
    w = rng.uniform(0.4, 2.5, (nu, nv)) if rational else np.ones((nu, nv))
    H = np.concatenate([P * w[..., None], w[..., None]], -1)
    return H, Uu, Uv, pu, pv


def rotation(rng):
    q = rng.normal(size=4)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])
