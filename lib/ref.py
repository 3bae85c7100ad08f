"""Exact reference models (rational arithmetic): B-splines by the Cox-de Boor definition, nothing clever."""
import itertools
from fractions import Fraction as F
from functools import lru_cache
from math import comb


def fr(x):
    return x if isinstance(x, F) else F(x)


def span(U, p, u):
    """The last non-empty knot interval [U_k, U_k+1) with p <= k <= n that contains u, the domain's end included."""
    n = len(U) - p - 2
    if u >= U[n + 1]:
        k = n
        while U[k] == U[k + 1]:
            k -= 1
        return k
    k = p
    while not (U[k] <= u < U[k + 1]):
        k += 1
    return k


def basis(U, p, u):
    """{i: N_i,p(u)} of the nonzero-support basis functions, by the recursive definition (0/0 = 0)."""
    k = span(U, p, u)
    N = {k: F(1)}
    for d in range(1, p + 1):
        M = {}
        for i in range(k - d, k + 1):
            v = F(0)
            a, b = N.get(i, 0), N.get(i + 1, 0)
            if a and U[i + d] != U[i]:
                v += (u - U[i]) / (U[i + d] - U[i]) * a
            if b and U[i + d + 1] != U[i + 1]:
                v += (U[i + d + 1] - u) / (U[i + d + 1] - U[i + 1]) * b
            M[i] = v
        N = M
    return N


def spline(U, p, P, u):
    """sum N_i(u) P_i, P a list of tuples."""
    N = basis(U, p, u)
    dim = len(P[0])
    return tuple(sum((c * P[i][j] for i, c in N.items() if c), F(0)) for j in range(dim))


def derived(U, p, P):
    """Knots, degree and control points of the derivative spline."""
    Q = []
    for i in range(len(P) - 1):
        den = U[i + p + 1] - U[i + 1]
        Q.append(tuple((p * (b - a) / den) if den else F(0) for a, b in zip(P[i], P[i + 1])))
    return U[1:-1], p - 1, Q


def spline_ders(U, p, P, u, d):
    """[value, first, ..., d-th derivative] at u (from the right, except at the end of the domain)."""
    out = []
    dim = len(P[0])
    for k in range(d + 1):
        if p < 0 or not P:
            out.append((F(0),) * dim)
            continue
        out.append(spline(U, p, P, u))
        if p == 0:
            p, P = -1, []
        else:
            U, p, P = derived(U, p, P)
    return out


def rational(hom):
    """Derivatives of (x/w, ...) from the derivatives of the homogeneous curve (Leibniz)."""
    dim = len(hom[0]) - 1
    C = []
    for k, h in enumerate(hom):
        v = list(h[:dim])
        for i in range(1, k + 1):
            for j in range(dim):
                v[j] -= comb(k, i) * hom[i][dim] * C[k - i][j]
        C.append(tuple(x / hom[0][dim] for x in v))
    return C


def curve_ders(U, p, P, W, u, d):
    """Derivatives of the NURBS curve with cartesian control points P and weights W."""
    H = [tuple(x * w for x in q) + (w,) for q, w in zip(P, W)]
    return rational(spline_ders(U, p, H, u, d))


def curve_point(U, p, P, W, u):
    N = basis(U, p, u)
    w = sum(c * W[i] for i, c in N.items())
    return tuple(sum(c * W[i] * P[i][j] for i, c in N.items()) / w for j in range(len(P[0])))


def surface_hom(U, V, p, q, H, u, v, du=0, dv=0):
    """The (du, dv) partial of the homogeneous tensor-product spline, H[i][j] homogeneous points."""
    rows = [spline_ders(V, q, row, v, dv)[dv] for row in H]
    return spline_ders(U, p, rows, u, du)[du]


def surface_hom_ders(U, V, p, q, H, u, v, d):
    """{(k, l): partial} for k + l <= d of the homogeneous tensor-product spline."""
    rows = [spline_ders(V, q, row, v, d) for row in H]
    A = {}
    for l in range(d + 1):
        for k, x in enumerate(spline_ders(U, p, [r[l] for r in rows], u, d - l)):
            A[k, l] = x
    return A


def surface_ders(U, V, p, q, H, u, v, d, A=None):
    """{(k, l): partial} for k + l <= d of the rational surface with homogeneous control points."""
    A = A or surface_hom_ders(U, V, p, q, H, u, v, d)
    dim = len(H[0][0]) - 1
    S = {}
    for tot in range(d + 1):
        for k in range(tot + 1):
            l = tot - k
            x = list(A[k, l][:dim])
            for i in range(k + 1):
                for j in range(l + 1):
                    if i or j:
                        c = comb(k, i) * comb(l, j) * A[i, j][dim]
                        for t in range(dim):
                            x[t] -= c * S[k - i, l - j][t]
            S[k, l] = tuple(t / A[0, 0][dim] for t in x)
    return S


def near(a, b, tol=1e-9):
    """Floats `a` against exact `b`, relative to the magnitude of b."""
    for x, y in zip(a, b):
        y = float(y)
        if not abs(float(x) - y) <= tol * (1 + abs(y)):
            return False
    return len(list(a)) == len(list(b))


def knot_vectors(p, inner, spacing=(1,), start=0, max_mult=None):
    """All clamped knot vectors of degree p whose interior knots are start+1..start+inner with multiplicities 1..max_mult."""
    import itertools

    mm = p if max_mult is None else max_mult
    for mult in itertools.product(range(1, mm + 1), repeat=inner):
        U = [F(start)] * (p + 1)
        t = F(start)
        for i, m in enumerate(mult):
            t += F(spacing[i % len(spacing)])
            U += [t] * m
        t += F(spacing[inner % len(spacing)])
        U += [t] * (p + 1)
        yield tuple(U)


def query_params(U, p, fine=4):
    """Every distinct knot of the domain and `fine - 1` points inside every non-empty span."""
    n = len(U) - p - 2
    ks = sorted(set(U[p : n + 2]))
    out = []
    for a, b in zip(ks, ks[1:]):
        out += [a + (b - a) * i / fine for i in range(fine)]
    return out + [ks[-1]]


def _det3(a, b, c):
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])


def _dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def _solve(G, r):
    """Integer Cramer rule for n <= 3: (numerators, determinant)."""
    n = len(G)
    if n == 1:
        return [r[0]], G[0][0]
    if n == 2:
        (a, b), (c, d) = G
        return [r[0] * d - b * r[1], a * r[1] - r[0] * c], a * d - b * c
    C = list(zip(*G))
    return [_det3(*[r if j == i else C[j] for j in range(3)]) for i in range(3)], _det3(*C)


def hull_distance2(M):
    """Exact squared distance from the origin to the convex hull of the integer points M, any dimension up to 3."""
    M = [tuple(int(x) for x in m) for m in M]
    simplex = [M[0]]
    while True:
        best = None
        for k in range(1, len(simplex) + 1):
            for face in itertools.combinations(simplex, k):
                a = face[0]
                e = [tuple(x - y for x, y in zip(b, a)) for b in face[1:]]
                if e:
                    num, den = _solve([[_dot(x, y) for y in e] for x in e], [-_dot(x, a) for x in e])
                    if den == 0 or any(x < 0 for x in num) or sum(num) > den:  # Gram determinants are not negative
                        continue
                    v = tuple(den * a[c] + sum(x * y[c] for x, y in zip(num, e)) for c in range(len(a)))
                else:
                    v, den = a, 1
                d2 = F(_dot(v, v), den * den)
                if best is None or d2 < best[0]:
                    best = d2, list(face), v, den
        d2, simplex, v, den = best
        if d2 == 0:
            return d2
        m = min(M, key=lambda m: _dot(m, v))
        if _dot(m, v) * den >= _dot(v, v):
            return d2
        simplex.append(m)
