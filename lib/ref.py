"""Independent reference implementations (pure numpy / python, no mmcore imports).

Everything here is written from the textbook definitions and deliberately
shares no algorithm with the code under test: basis functions come from the
Cox-de Boor recursion evaluated one function at a time, curve / surface points
are weighted sums over *all* control points, derivatives use the recursive
derivative identity and the quotient rule.
"""
import math
import numpy as np


# ------------------------------------------------------------------ B-splines
def basis_row(U, p, n, u, span=None):
    """values of all n+1 degree p B-spline functions at u (Cox-de Boor).

    u == last domain knot is treated as belonging to the last non-empty span.
    When `span` is given the polynomial piece of that span is used (extrapolation).
    """
    U = [float(x) for x in U]
    m = len(U) - 1
    if span is None:
        span = find_span(U, p, n, u)
    N = [0.0] * m
    N[span] = 1.0
    for d in range(1, p + 1):
        M = [0.0] * (m - d)
        for i in range(m - d):
            s = 0.0
            den = U[i + d] - U[i]
            if den != 0.0 and N[i] != 0.0:
                s += (u - U[i]) / den * N[i]
            den = U[i + d + 1] - U[i + 1]
            if den != 0.0 and N[i + 1] != 0.0:
                s += (U[i + d + 1] - u) / den * N[i + 1]
            M[i] = s
        N = M
    return np.array(N[: n + 1])


def find_span(U, p, n, u):
    """last non-empty span [U[k],U[k+1]) containing u, clamped to the domain."""
    lo, hi = p, n
    if u >= U[n + 1]:
        k = n
        while k > p and not (U[k] < U[k + 1]):
            k -= 1
        return k
    k = p
    while k < n and not (U[k] <= u < U[k + 1]):
        k += 1
    if u < U[p]:
        k = p
        while k < n and not (U[k] < U[k + 1]):
            k += 1
    return k


def basis_ders(U, p, n, u, order, span=None):
    """rows k=0..order: k-th derivatives of all n+1 basis functions at u."""
    U = [float(x) for x in U]
    if span is None:
        span = find_span(U, p, n, u)
    out = np.zeros((order + 1, n + 1))

    def all_basis(q):
        m = len(U) - 1
        N = [0.0] * m
        N[span] = 1.0
        for d in range(1, q + 1):
            M = [0.0] * (m - d)
            for i in range(m - d):
                s = 0.0
                den = U[i + d] - U[i]
                if den != 0.0 and N[i] != 0.0:
                    s += (u - U[i]) / den * N[i]
                den = U[i + d + 1] - U[i + 1]
                if den != 0.0 and N[i + 1] != 0.0:
                    s += (U[i + d + 1] - u) / den * N[i + 1]
                M[i] = s
            N = M
        return N

    for k in range(0, order + 1):
        if k > p:
            break
        N = all_basis(p - k)
        # raise the derivative k times
        for q in range(p - k + 1, p + 1):
            M = [0.0] * (len(U) - 1 - q)
            for i in range(len(M)):
                s = 0.0
                den = U[i + q] - U[i]
                if den != 0.0:
                    s += q * N[i] / den
                den = U[i + q + 1] - U[i + 1]
                if den != 0.0:
                    s -= q * N[i + 1] / den
                M[i] = s
            N = M
        out[k] = N[: n + 1]
    return out


def curve_point(P, w, U, p, u, span=None):
    P = np.asarray(P, float)
    w = np.asarray(w, float)
    N = basis_row(U, p, len(P) - 1, u, span)
    return (N * w) @ P / float(N @ w)


def curve_ders(P, U, p, u, order, w=None, span=None):
    """derivatives 0..order of the (rational if w given) curve."""
    P = np.asarray(P, float)
    B = basis_ders(U, p, len(P) - 1, u, order, span)
    if w is None:
        return B @ P
    w = np.asarray(w, float)
    A = B @ (P * w[:, None])
    W = B @ w
    C = np.zeros_like(A)
    for k in range(order + 1):
        v = A[k].copy()
        for i in range(1, k + 1):
            v -= math.comb(k, i) * W[i] * C[k - i]
        C[k] = v / W[0]
    return C


def surface_point(H, Uu, Uv, pu, pv, u, v):
    """H: (nu,nv,4) homogeneous (premultiplied) control points."""
    H = np.asarray(H, float)
    Nu = basis_row(Uu, pu, H.shape[0] - 1, u)
    Nv = basis_row(Uv, pv, H.shape[1] - 1, v)
    q = np.einsum('i,j,ijk->k', Nu, Nv, H)
    return q[:3] / q[3]


def surface_ders(H, Uu, Uv, pu, pv, u, v, d):
    """SKL[k,l] rational derivatives, k+l<=d."""
    H = np.asarray(H, float)
    Bu = basis_ders(Uu, pu, H.shape[0] - 1, u, d)
    Bv = basis_ders(Uv, pv, H.shape[1] - 1, v, d)
    A = np.einsum('ki,lj,ijc->klc', Bu, Bv, H)
    S = np.zeros((d + 1, d + 1, 3))
    W = A[:, :, 3]
    for k in range(d + 1):
        for l in range(d + 1 - k):
            val = A[k, l, :3].copy()
            for i in range(k + 1):
                for j in range(l + 1):
                    if i == 0 and j == 0:
                        continue
                    val -= math.comb(k, i) * math.comb(l, j) * W[i, j] * S[k - i, l - j]
            S[k, l] = val / W[0, 0]
    return S


def mults(U, tol=1e-9):
    out = []
    for x in U:
        if out and abs(out[-1][0] - x) <= tol:
            out[-1][1] += 1
        else:
            out.append([float(x), 1])
    return out


# ------------------------------------------------------------------- geometry
def dist_point_segment(p, a, b):
    p, a, b = map(lambda q: np.asarray(q, float), (p, a, b))
    ab = b - a
    L = float(ab @ ab)
    t = 0.0 if L == 0 else min(1.0, max(0.0, float((p - a) @ ab) / L))
    return float(np.linalg.norm(p - (a + t * ab)))


def orient2(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def polygon_area(P):
    P = np.asarray(P, float)
    x, y = P[:, 0], P[:, 1]
    return 0.5 * float(np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y))


def point_in_polygon(p, P):
    """winding-number test (strict interior/exterior for points off the boundary)."""
    wn = 0
    n = len(P)
    for i in range(n):
        a, b = P[i], P[(i + 1) % n]
        if a[1] <= p[1]:
            if b[1] > p[1] and orient2(a, b, p) > 0:
                wn += 1
        else:
            if b[1] <= p[1] and orient2(a, b, p) < 0:
                wn -= 1
    return wn != 0


def seg_seg_2d(a, b, c, d):
    """proper crossing parameters (t,s) of segments ab, cd or None."""
    a, b, c, d = (np.asarray(q, float) for q in (a, b, c, d))
    r, s = b - a, d - c
    den = r[0] * s[1] - r[1] * s[0]
    if den == 0:
        return None
    q = c - a
    t = (q[0] * s[1] - q[1] * s[0]) / den
    w = (q[0] * r[1] - q[1] * r[0]) / den
    return t, w
