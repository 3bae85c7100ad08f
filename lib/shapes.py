"""Enumerated families of splines, exact (Fractions) and as objects of the implementation."""
import itertools
from fractions import Fraction as F

import numpy as np

import ref

WEIGHTS = {
    "one": lambda i, n: F(1),
    "two": lambda i, n: F(2),          # constant: the curve is polynomial
    "mix": lambda i, n: (F(1), F(2), F(1, 2), F(3))[i % 4],
    "last": lambda i, n: F(4) if i == n - 1 else F(1),
    "first": lambda i, n: F(1, 4) if i == 0 else F(1),
}


def weights(kind, n):
    return [WEIGHTS[kind](i, n) for i in range(n)]


def points(n, kind=0):
    """Generic control points: no symmetry, no three collinear, all coordinates vary."""
    if kind == 1:  # planar, closed up
        P = [(F(i), F((i * i * 3) % 7), F(0)) for i in range(n)]
        P[-1] = P[0]
        return P
    return [(F(i) + F((i * i) % 3, 2), F((i * i * 2 + 1) % 7) - 2, F((5 * i + i * i * i) % 6, 2)) for i in range(n)]


def arr(rows):
    return np.array([[float(x) for x in r] for r in rows], dtype=float)


def knots(U):
    return np.array([float(x) for x in U])


def open_knots(p, tier, inner=None, max_mult=None):
    """Clamped knot vectors: all multiplicity patterns of up to `inner` interior knots, two spacings, shifted starts."""
    inner = (3 if tier == "quick" else 4) if inner is None else inner
    for k in range(inner + 1):
        for spacing, start in (((1,), 0), ((F(1, 2), 2, F(1, 4)), -1)):
            if k == 0 and spacing != (1,):
                spacing, start = (F(3),), 2
            yield from ref.knot_vectors(p, k, spacing, start, max_mult)


def unclamped_knots(p, n):
    """Uniform and uneven knot vectors without end multiplicity, and half-clamped ones."""
    m = n + p + 1
    yield tuple(F(i) for i in range(m))
    t, U = F(0), []
    for i in range(m):
        U.append(t)
        t += (F(1), F(1, 2), F(2))[i % 3]
    yield tuple(U)
    yield tuple([F(0)] * (p + 1) + [F(i + 1) for i in range(m - p - 1)])
    yield tuple([F(i) for i in range(m - p - 1)] + [F(m)] * (p + 1))


def curve(p, U, P, W):
    from mmcore.geom.nurbs import NURBSCurve

    return NURBSCurve(arr([tuple(q) + (w,) for q, w in zip(P, W)]), p, knots(U))


def exact_curve(c):
    """The exact rational data (U, P, W) of a NURBSCurve."""
    U = tuple(F(float(x)) for x in c.knots)
    R = np.array(c.control_pointsw)
    return U, [tuple(F(float(x)) for x in r[:3]) for r in R], [F(float(r[3])) for r in R]


def near_knot_params(U, p):
    """Knots of the domain, interior points, and the floats next to every knot."""
    out = []
    for u in ref.query_params(U, p, 3):
        out.append(float(u))
    n = len(U) - p - 2
    lo, hi = float(U[p]), float(U[n + 1])
    for k in sorted(set(U[p : n + 2])):
        for d in (-np.inf, np.inf):
            x = float(np.nextafter(float(k), d))
            if lo <= x <= hi:
                out.append(x)
    return out
