"""C19: Boolean operations on closed curves keep exactly the right parts of both boundaries."""
import itertools
from fractions import Fraction as F
from functools import lru_cache

import numpy as np
import ref

from mmcore.geom.curves.curve_bool import BooleanOperationType, curve_boolean_operation
from mmcore.geom.nurbs import NURBSCurve

PID = "C19"
ASSUMPTIONS = [
    "closed curves in a plane parallel to xy whose boundaries share no arc; a point counts as inside where the winding number is odd",
    "boundary parameters closer than 0.04 to the other boundary are not judged (curves have size 2 to 5; the default intersection tolerance is 0.01)",
]
BOUNDS = {
    "curves": "every ordered pair from 3 triangles, 3 quadrilaterals, a square, a star, a bow tie, 2 circles (rational, 2 orientations), a closed quadratic and a closed cubic spline and a quadratic lens",
    "placement": "the second shifted by every point of a grid (so that edges and corners align, one contains the other, or they are apart), both orientations, other seams, other parameter ranges, other heights",
    "oracle": "31 parameters of every span of both boundaries: kept exactly if the exact point is (not) inside the other curve by its winding number",
}


def poly(*P):
    P = [tuple(map(float, p)) for p in P]
    P.append(P[0])
    n = len(P)
    return 1, P, (1,) * n, (0, *range(n), n - 1)


def circle(r, sign=1):
    q = [(1, 0), (1, sign), (0, sign), (-1, sign), (-1, 0), (-1, -sign), (0, -sign), (1, -sign), (1, 0)]
    return 2, [(r * x, r * y) for x, y in q], (1, 0.5**0.5) * 4 + (1,), (0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 4)


SHAPES = {
    "triangle": poly((0, 0), (3, 0), (0, 2)),
    "triangle 2": poly((-1, 0.5), (0.5, -1), (1.5, 2)),
    "triangle 3": poly((0, 2), (2, 2), (1, 0)),
    "square": poly((0, 0), (2, 0), (2, 2), (0, 2)),
    "quad": poly((-0.5, -0.5), (2.5, 0), (1, 1), (1.5, 3)),
    "quad 2": poly((0, 0), (0, 3), (0.5, 3), (0.5, 0)),
    "diamond": poly((1, 0), (2, 1), (1, 2), (0, 1)),
    "star": poly((0, 2.5), (1, 0.5), (3, 0), (1, -0.5), (0, -2.5), (-1, -0.5), (-3, 0), (-1, 0.5)),
    "bow tie": poly((-2, -1.5), (2, 1.5), (2, -1.5), (-2, 1.5)),
    "circle": circle(1.5),
    "small circle": circle(0.5, -1),
    "quadratic": (2, [(0, 0), (2, -1), (3, 1), (1, 3), (-1, 1.5), (0, 0)], (1,) * 6, (0, 0, 0, 1, 2, 3, 4, 4, 4)),
    "cubic": (3, [(1, -1.5), (4, 0), (0, 4), (-3, 1), (-1, -3), (1, -1.5)], (1, 2, 1, 1, 0.5, 1), (0, 0, 0, 0, 1, 2, 3, 3, 3, 3)),
    "lens": (2, [(-2, 0), (0, -2), (2, 0), (0, 2), (-2, 0)], (1,) * 5, (0, 0, 0, 1, 1, 2, 2, 2)),
}
OPS = {
    BooleanOperationType.UNION: (False, False),
    BooleanOperationType.INTERSECTION: (True, True),
    BooleanOperationType.DIFFERENCE: (False, True),
}


def moved(name, shift=(0, 0), reverse=False, seam=0, rng=(1, 0)):
    """Degree, points, weights, knots of a shape after a change of placement or description."""
    p, P, W, U = SHAPES[name]
    P = [(x + shift[0], y + shift[1]) for x, y in P]
    W, U = list(W), list(U)
    if reverse:
        P, W, U = P[::-1], W[::-1], [U[0] + U[-1] - u for u in U[::-1]]
    if seam and p == 1:
        P = P[seam:-1] + P[:seam] + [P[seam]]
    return p, tuple(P), tuple(W), tuple(u * rng[0] + rng[1] for u in U)


@lru_cache(2000)
def exact(shape, count):
    """[(t, point)] at `count` inner parameters of every span, and of a dense closed polyline."""
    p, P, W, U = shape
    hom = np.array([[x * w, y * w, w] for (x, y), w in zip(P, W)])
    ks = sorted(set(U))
    out_t, out_p = [], []
    for a, b in zip(ks, ks[1:]):
        ts = a + (b - a) * (np.arange(count) + 0.5) / count
        k = max(i for i in range(len(U) - 1) if U[i] <= a < U[i + 1])
        N = {k: np.ones_like(ts)}
        for d in range(1, p + 1):
            M = {}
            for i in range(k - d, k + 1):
                v = np.zeros_like(ts)
                if i in N and U[i + d] != U[i]:
                    v = v + (ts - U[i]) / (U[i + d] - U[i]) * N[i]
                if i + 1 in N and U[i + d + 1] != U[i + 1]:
                    v = v + (U[i + d + 1] - ts) / (U[i + d + 1] - U[i + 1]) * N[i + 1]
                M[i] = v
            N = M
        h = sum(N[i][:, None] * hom[i] for i in N)
        out_t.append(ts)
        out_p.append(h[:, :2] / h[:, 2:])
    return np.concatenate(out_t), np.concatenate(out_p)


@lru_cache(500)
def outline(shape):
    """Closed polyline, that of a curved shape dense."""
    p, P, W, U = shape
    if p == 1:
        return np.array(P)
    q = exact(shape, 100)[1]
    return np.concatenate([q, q[:1]])


def distance(points, Q):
    """From each point to a polyline."""
    A, D = Q[:-1], Q[1:] - Q[:-1]
    t = np.clip((((points[:, None] - A) * D).sum(axis=2)) / (D**2).sum(axis=1), 0, 1)
    return np.sqrt(((points[:, None] - A - t[..., None] * D) ** 2).sum(axis=2)).min(axis=1)


def inside(points, shape):
    """(winding number odd, distance to the boundary)"""
    Q = outline(shape)
    a = Q[None] - points[:, None, :]
    x0, y0, x1, y1 = a[:, :-1, 0], a[:, :-1, 1], a[:, 1:, 0], a[:, 1:, 1]
    ang = np.arctan2(x0 * y1 - x1 * y0, x0 * x1 + y0 * y1).sum(axis=1)
    return np.round(ang / (2 * np.pi)).astype(int) % 2 == 1, distance(points, Q)


@lru_cache(500)
def shares_arc(a, b):
    """Several neighbouring samples of one within 1e-3 of the other: overlapping or nearly so."""
    for s, o in ((a, b), (b, a)):
        P, Q = exact(s, 50)[1], outline(o)
        near = distance(P, Q) < 0.012
        if (near[:-2] & near[1:-1] & near[2:]).any():
            return True
    return False


def obj(shape, z):
    p, P, W, U = shape
    rows = np.array([[x, y, z] for x, y in P], dtype=float)
    if any(w != 1 for w in W):
        rows = np.concatenate([rows, np.array(W, dtype=float)[:, None]], axis=1)
    return NURBSCurve(rows, p, np.array(U, dtype=float))


def judge(ctx, A, B, z, sig):
    if shares_arc(A, B):
        ctx.count("skipped: share an arc or almost")
        return None
    ctx.state((A, B, z))
    for op, keep in OPS.items():
        name = f"{op.name.lower()} of {sig}"
        ctx.step()
        with ctx.at(name):
            objs = obj(A, z), obj(B, z)
            got = curve_boolean_operation(*objs, op)
            pieces = ([], [])
            for g in got:
                t0, t1 = g.interval()
                ts = [t0 + (t1 - t0) * x for x in (0.0, 0.13, 0.5, 0.77, 1.0)]
                q = np.array([g.evaluate(t) for t in ts])
                owner = [
                    k
                    for k in (0, 1)
                    if objs[k].interval()[0] - 1e-9 <= t0 and t1 <= objs[k].interval()[1] + 1e-9
                    and np.abs(np.array([objs[k].evaluate(min(max(t, objs[k].interval()[0]), objs[k].interval()[1])) for t in ts]) - q).max() < 1e-6
                ]
                if not ctx.expect(len(owner) == 1, name, lambda: f"the piece {[t0, t1]} from {q[0]} to {q[-1]} is part of neither curve"):
                    return sig
                pieces[owner[0]].append((t0, t1))
            for k, (own, other, want) in enumerate(((A, B, keep[0]), (B, A, keep[1]))):
                ts, pts = exact(own, 31)
                ins, dist = inside(pts, other)
                cover = np.zeros(len(ts), dtype=int)
                for t0, t1 in pieces[k]:
                    cover += (ts > t0) & (ts < t1)
                expect = (ins == want).astype(int)
                bad = (dist > 0.04) & (cover != expect)
                ctx.expect(
                    not bad.any(), name,
                    lambda: f"curve {k + 1} at {ts[bad][0]} = {pts[bad][0].tolist()} ({'inside' if ins[bad][0] else 'outside'} the other) is covered {cover[bad][0]} times; pieces {pieces[k]}",
                )
                lo, hi = own[3][0], own[3][-1]
                ends = [t for pc in pieces[k] for t in pc if min(abs(t - lo), abs(t - hi)) > 1e-9]
                if ends:
                    e = np.array([objs[k].evaluate(t)[:2] for t in ends])
                    d = inside(e, other)[1]
                    ctx.expect(d.max() < 0.05, name, lambda: f"curve {k + 1} is cut at {ends[int(d.argmax())]}, away from the other")
    return sig


G = [-2.5, -1.25, -0.5, 0.0, 0.3, 1.0, 1.75, 4.0]


def pair_task(ctx, a, part, quick):
    sig = None
    names = list(SHAPES)
    n = 0
    for b in names:
        for i, (dx, dy) in enumerate(itertools.product(G, G)):
            n += 1
            if quick and (n % 3 or i % 2 and b not in ("square", "triangle", "circle")):
                continue
            if n % 2 != part:
                continue
            A = moved(a, (0, 0), n % 5 == 1, n % 3, ((1, 0), (0.25, -2), (10, 3))[n % 7 % 3])
            B = moved(b, (dx, dy), n % 4 < 2, n % 11 % 3, ((1, 0), (1, 0), (3, -1))[n % 13 % 3])
            sig = judge(ctx, A, B, (0.0, 5.0, -1.25)[n % 17 % 3], f"{a}{', reversed' if n % 5 == 1 else ''} and {b} + {(dx, dy)}{', reversed' if n % 4 < 2 else ''} (#{n})") or sig
            if not quick:
                for r, s in itertools.product((False, True), (0, 1)):
                    judge(ctx, moved(a, (0, 0), r, s), moved(b, (dx, dy)), 0.0, f"{a} (reversed {r}, seam {s}) and {b} + {(dx, dy)}")
    ctx.sample(sig or a)


def tasks(tier):
    quick = tier == "quick"
    return [(f"{a} {part}", pair_task, (a, part, quick)) for a in SHAPES for part in (0, 1)]


TASK_LIMIT_S = 800
