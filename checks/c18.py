"""C18: curve-curve intersection finds every intersection and nothing else."""
import itertools
from fractions import Fraction as F
from functools import lru_cache

import numpy as np
import ref
from poly import deriv, divmod_poly, gcd_poly, isolate, padd, pmul, pval, scale, trim

from mmcore.geom.nurbs import NURBSCurve
from mmcore.numeric.intersection.ccx import ccx, curve_ppx

PID = "C18"
ASSUMPTIONS = [
    "general position, decided from the exact curves: intersections at least 0.15 apart for curves of size 2 to 6, crossing at more than 6 degrees or touching exactly, none almost at an end (exactly at an end is included), and no approach within 0.02 elsewhere",
    "tolerances from 1e-2 to 1e-6 for curves of that size; curves are smooth between their knots and their weights at most 1:4",
]
BOUNDS = {
    "first curve": "every polyline of 3 and 4 points, quadratic and cubic Bezier curve, rational quadratic, and quadratic and cubic B-spline with up to 2 interior knots (also double) with control points in finite grids",
    "second curve": "all segments between two grids, 2 polylines, a parabola, a quarter circle and a full circle",
    "placement": "in the plane, in oblique planes of space, lifted apart, times 8 and 1/4; both argument orders; parameter ranges shifted and stretched; knots inserted",
    "oracle": "the first curve is substituted into the implicit equation of the second; the real roots of the exact polynomials are isolated by Sturm's theorem, touches by their greatest common divisor with the derivative",
}

# ---- exact first curves: pieces (t0, t1, [X, Y, W] power basis in s = (t - t0)/(t1 - t0))


@lru_cache(None)
def lagrange(n):
    """Power-basis polynomials of the Lagrange basis on 0, 1/n, ..., 1."""
    out = []
    for i in range(n + 1):
        p, d = [F(1)], F(1)
        for j in range(n + 1):
            if j != i:
                p = pmul(p, [F(-j, n), F(1)])
                d *= F(i - j, n)
        out.append(scale(p, 1 / d))
    return out


def pieces(U, p, P, W):
    hom = [(x * w, y * w, w) for (x, y), w in zip(P, W)]
    ks = sorted({u for u in U if U[p] <= u <= U[len(P)]})
    out = []
    for a, b in zip(ks, ks[1:]):
        V = [u if u < b else u for u in U]
        vals = []
        for i in range(p + 1):
            t = a + (b - a) * F(i, p)
            if t == b:  # from the left: evaluate the reversed curve
                n = len(P) - 1
                R = [U[0] + U[-1] - u for u in reversed(V)]
                vals.append(ref.spline(R, p, hom[::-1], U[0] + U[-1] - t))
            else:
                vals.append(ref.spline(V, p, hom, t))
        rows = []
        for c in range(3):
            r = [F(0)]
            for v, L in zip(vals, lagrange(p)):
                r = padd(r, scale(L, v[c]))
            rows.append(r)
        out.append((a, b, rows))
    return out


# ---- second curves: implicit equation, place along it, object


def fr(*xs):
    return [F(x) for x in xs]


def segment(a, b):
    (x0, y0), (x1, y1) = a, b
    A, B = y1 - y0, x0 - x1
    L = float((x1 - x0) ** 2 + (y1 - y0) ** 2)
    return dict(
        eq=lambda X, Y, W: padd(padd(scale(X, A), scale(Y, B)), scale(W, -A * x0 - B * y0)),
        grad=lambda x, y: (float(A), float(B)),
        s=lambda x, y: ((x - float(x0)) * float(x1 - x0) + (y - float(y0)) * float(y1 - y0)) / L,
        ends=[a, b], cp=[a, b], w=(1, 1), deg=1, U=(0, 0, 1, 1),
    )


PARABOLA = dict(  # y = x^2 on [-1, 3/2]
    eq=lambda X, Y, W: padd(pmul(Y, W), scale(pmul(X, X), F(-1))),
    grad=lambda x, y: (-2 * x, 1.0),
    s=lambda x, y: (x + 1) / 2.5,
    ends=[(F(-1), F(1)), (F(3, 2), F(9, 4))], cp=[(F(-1), F(1)), (F(1, 4), F(-3, 2)), (F(3, 2), F(9, 4))], w=(1, 1, 1), deg=2, U=(0, 0, 0, 1, 1, 1),
)
ROUND = dict(eq=lambda X, Y, W: padd(padd(pmul(X, X), pmul(Y, Y)), scale(pmul(W, W), F(-9, 4))), grad=lambda x, y: (2 * x, 2 * y))
QUARTER = dict(
    ROUND, s=lambda x, y: np.arctan2(y, x) / (np.pi / 2), ends=[(F(3, 2), F(0)), (F(0), F(3, 2))],
    cp=[(F(3, 2), F(0)), (F(3, 2), F(3, 2)), (F(0), F(3, 2))], w=(1, 1, 2), deg=2, U=(0, 0, 0, 1, 1, 1),
)


def full_circle():
    q = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1), (1, 0)]
    return dict(ROUND, s=lambda x, y: 0.5, ends=[(F(3, 2), F(0))], cp=[(F(3, 2) * x, F(3, 2) * y) for x, y in q], w=(1, 0.5**0.5) * 4 + (1,), deg=2, U=(0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 4))


CIRCLE = full_circle()
POLYLINES = {
    "zigzag": [(F(-1), F(1, 5)), (F(1, 2), F(9, 5)), (F(7, 10), F(-4, 5)), (F(5, 2), F(3, 2))],
    "square": [(F(1, 4), F(1, 4)), (F(9, 4), F(1, 4)), (F(9, 4), F(7, 4)), (F(1, 4), F(7, 4)), (F(1, 4), F(1, 4))],
}


def target(name):
    """(list of implicit parts, control points, weights, degree, knots, closed)"""
    if isinstance(name, tuple):
        parts = [segment(*name)]
    elif name in POLYLINES:
        q = POLYLINES[name]
        parts = [segment(a, b) for a, b in zip(q, q[1:])]
        return parts, q, (1,) * len(q), 1, (0, *range(len(q)), len(q) - 1), q[0] == q[-1]
    else:
        parts = [{"parabola": PARABOLA, "quarter": QUARTER, "circle": CIRCLE}[name]]
    d = parts[0]
    return parts, d["cp"], d["w"], d["deg"], d["U"], name == "circle"


# ---- what must be found


def at(rows, s):
    x, y, w = (np.polyval([float(c) for c in r[::-1]], s) for r in rows)
    return np.array([x / w, y / w])


def speed(rows, s):
    e = 1e-6
    return (at(rows, s + e) - at(rows, s - e)) / (2 * e)


SAMPLES = np.linspace(0, 1, 200)


def dense(rows):
    x, y, w = (np.polyval([float(c) for c in r[::-1]], SAMPLES) for r in rows)
    return np.stack([x / w, y / w], axis=1)


@lru_cache(None)
def target_points(name):
    parts, cp, w, deg, U, _ = target(name)
    if name == "circle":
        a = np.linspace(0, 2 * np.pi, 2500)
        return 1.5 * np.stack([np.cos(a), np.sin(a)], axis=1)
    out = []
    for _, _, rows in pieces([F(u) for u in U], deg, cp, [F(x) for x in w]):
        x, y, ww = (np.polyval([float(c) for c in r[::-1]], np.linspace(0, 1, 900)) for r in rows)
        out.append(np.stack([x / ww, y / ww], axis=1))
    return np.concatenate(out)


def expected(pcs, name):
    """(None, why) or (sorted [(t, point, touches)], '')."""
    parts, _, _, _, _, closed = target(name)
    found = []
    first, last = pcs[0], pcs[-1]
    end_points = [at(first[2], 0), at(last[2], 1)]
    for a, b, rows in pcs:
        for part in parts:
            g = trim(part["eq"](*rows))
            if not any(g):
                return None, "runs along the other"
            dg = gcd_poly(g, deriv(g)) if len(g) > 1 else [F(1)]
            for s in isolate(g, 0, 1):
                p = at(rows, float(s))
                m = part["s"](*p)
                if not -0.1 < m < 1.1:
                    continue
                ends = [np.abs(p - np.array(e, dtype=float)).max() for e in part["ends"]]
                near_end = min(ends) < 1e-9
                if not near_end and not (0 <= m <= 1):
                    continue
                touch = len(dg) > 1 and any(abs(s - r) < F(1, 2**30) for r in isolate(dg, 0, 1))
                v, n = speed(rows, float(s)), np.array(part["grad"](*p), dtype=float)
                size = np.linalg.norm(v) * np.linalg.norm(n)
                if np.linalg.norm(v) < 0.2:
                    return None, "almost stops at an intersection"
                sin = abs(v @ n) / size
                if sin < 0.1 and not touch:
                    return None, "almost tangent"
                found.append((float(a + (b - a) * s), p, touch, s in (0, 1), near_end))
    # a knot of the first or a corner of the second curve is seen from both sides
    out = []
    for f in sorted(found, key=lambda f: f[0]):
        if out and abs(out[-1][0] - f[0]) < 1e-9 and np.abs(out[-1][1] - f[1]).max() < 1e-9:
            continue
        out.append(f)
    for f, g in itertools.combinations(out, 2):
        if np.abs(f[1] - g[1]).max() < 0.15:
            return None, "too close or a point passed twice"
        if (f[2] or g[2]) and np.abs(f[1] - g[1]).max() < 0.3:
            return None, "too close to a touch"
    ends2 = [np.array(e, dtype=float) for e in (parts[0]["ends"][0], parts[-1]["ends"][-1])]
    for f in out:
        for e in end_points + ends2:
            d = np.abs(f[1] - e).max()
            if 1e-9 < d < 0.03:
                return None, "almost at an end"
        if closed and np.abs(f[1] - ends2[0]).max() < 1e-9 or np.abs(end_points[0] - end_points[1]).max() < 1e-9 and np.abs(f[1] - end_points[0]).max() < 1e-9:
            return None, "at the seam"
    Q = target_points(name)
    for a, b, rows in pcs:
        D = dense(rows)
        near = np.array([np.abs(D - f[1]).max(axis=1) < (0.3 if f[2] else 0.13) for f in out] or [np.zeros(len(D), dtype=bool)]).any(axis=0)
        D = D[~near]
        if len(D) and np.sqrt(((D[:, None, :] - Q[None, ::4, :]) ** 2).sum(axis=2).min()) < 0.02:
            return None, "almost touches"
    return [(t, p, touch) for t, p, touch, *_ in out], ""


# ---- objects

MAPS = {
    "plane": (np.eye(3), np.zeros(3), 1),
    "oblique": (np.array([[2.0, -2, 1], [1, 2, 2], [2, 1, -2]]) / 3, np.array([1.0, 2, -5]), 1),
    "steep": (np.array([[0.0, 0, 1], [1, 0, 0], [0, 1, 0]]), np.zeros(3), 1),
    "large": (np.array([[0.0, -8, 0], [8, 0, 0], [0, 0, 8]]), np.array([30.0, -20, 4]), 8),
    "small": (np.eye(3) / 4, np.array([0.0, 0, 1]), 0.25),
}
RANGES = {"as is": (1, 0), "shifted": (1, -3), "long": (20, 5), "short": (0.125, 1)}


def obj(cp, w, deg, U, image, rng="as is", extra=(), lift=0.0):
    A, o, _ = MAPS[image]
    k, d = RANGES[rng]
    P = np.array([[float(x), float(y), lift] for x, y in cp]) @ A.T + o
    if any(x != 1 for x in w):
        P = np.concatenate([P, np.array([[float(x)] for x in w])], axis=1)
    c = NURBSCurve(P, deg, np.array([float(u) * k + d for u in U]))
    for x in extra:
        a, b = c.interval()
        c.insert_knot(a + (b - a) * x, 1)
    return c


def show(x):
    return "(" + " ".join(map(show, x)) + ")" if isinstance(x, tuple) else str(x)


@lru_cache(4096)
def expected_of(first, name):
    U, p, P, W = first
    return expected(pieces(U, p, P, W), name)


def judge(ctx, first, name, image="plane", swap=False, rng=("as is", "as is"), extra=(), tol=1e-3, lift=0.0, fn=ccx):
    want, why = expected_of(first, name)
    if want is None:
        ctx.count(f"skipped: {why}")
        return None
    U, p, P, W = first
    A, o, size = MAPS[image]
    tol = tol * min(1, size)
    if lift:
        want = []
    sig = f"degree {p} {show(P)} weights {show(W)} knots {show(U)} x {show(name)}, {image}, {rng[0]}/{rng[1]}, extra {extra}, tol {tol:g}{', swapped' if swap else ''}{f', lifted {lift}' if lift else ''}"
    ctx.state((first, name, image, swap, rng, extra, tol, lift, fn.__name__))
    ctx.step()
    ctx.count(f"{len(want)} intersections")
    _, cp2, w2, deg2, U2, _ = target(name)
    with ctx.at(sig):
        c1 = obj(P, W, p, U, image, rng[0], extra)
        c2 = obj(cp2, w2, deg2, U2, image, rng[1], lift=lift)
        got = fn(c2, c1, tol=tol) if swap else fn(c1, c2, tol=tol)
        pairs = sorted((g[1], g[0]) if swap else (g[0], g[1]) for g in got)
        order = [g[0] for g in got]
        ctx.expect(order == sorted(order), f"{sig}: order", lambda: f"{got}")
        k, d = RANGES[rng[0]]
        ts = [(t - d) / k for t, _ in pairs]
        ok = len(ts) == len(want)
        if ok:
            (a1, b1), (a2, b2) = c1.interval(), c2.interval()
            for (t1, t2), (t, q, touch) in zip(pairs, want):
                e = A @ np.array([q[0], q[1], 0.0]) + o
                p1, p2 = np.array(c1.evaluate(t1)), np.array(c2.evaluate(t2))
                far = size * 0.14 if touch else 25 * tol
                ok = ok and a1 <= t1 <= b1 and a2 <= t2 <= b2 and np.linalg.norm(p1 - p2) <= tol * 1.000001 and np.linalg.norm(p1 - e) <= far
        ctx.expect(ok, sig, lambda: f"found {pairs} ({[round(t, 6) for t in ts]}), expected {[(float(t), q.tolist(), 'touch' if c else '') for t, q, c in want]}")
    return sig


def bez(P, W=None):
    n = len(P) - 1
    return (tuple([F(0)] * (n + 1) + [F(1)] * (n + 1)), n, tuple(P), tuple(W or (F(1),) * (n + 1)))


def poly(P):
    n = len(P) - 1
    return (tuple([F(0)] + [F(i) for i in range(n + 1)] + [F(n)]), 1, tuple(P), (F(1),) * (n + 1))


def bspl(p, inner, P, W=None):
    m = max(inner) + 1
    return (tuple([F(0)] * (p + 1) + [F(x) for x in inner] + [F(m)] * (p + 1)), p, tuple(P), tuple(W or (F(1),) * len(P)))


A4 = list(itertools.product(fr("-1/2", "3/4"), fr("-2/5", 1)))
B4 = list(itertools.product(fr("1/3", 2), fr("3/2", "-3/4")))
C4 = list(itertools.product(fr("3/2", "-1/4"), fr("1/4", "11/5")))
D4 = list(itertools.product(fr("5/2", "5/4"), fr("1/2", "-1/5")))
LINES = [(a, b) for a in itertools.product(fr(-1, "1/6"), fr("-1/2", "3/10", "7/5")) for b in itertools.product(fr("11/10", 3), fr("-1/3", "4/5", 2))]
TARGETS = [*LINES, "zigzag", "square", "parabola", "quarter", "circle"]
CURVED = ["zigzag", "square", "parabola", "quarter", "circle"]


def firsts(kind):
    if kind == "polyline":
        for P in itertools.product(A4, B4, C4):
            yield poly(P)
        for P in itertools.product(A4[:2], B4, C4, D4[:2]):
            yield poly(P)
    elif kind == "quadratic":
        for P in itertools.product(A4, B4, D4):
            yield bez(P)
    elif kind == "rational":
        for P in itertools.product(A4, B4, D4[:2]):
            yield bez(P, (F(1), F(1, 2), F(1)))
            yield bez(P, (F(2), F(4), F(1)))
    elif kind == "cubic":
        for P in itertools.product(A4[:2], [(x, 3 * y) for x, y in B4], [(x, -3 * y) for x, y in C4], D4):
            yield bez(P)
    elif kind == "quadratic spline":
        for i, P in enumerate(itertools.product(A4[1:3], B4, C4[:3], D4)):
            yield bspl(2, (1,), P) if i % 3 else bspl(2, (F(1, 4),), P, (F(1), F(2), F(1, 2), F(1)))
    elif kind == "knots":
        for i, P in enumerate(itertools.product(A4[:2], B4[1:3], C4, D4[:2], A4[2:])):
            Q = P[:4] + ((P[4][0] + F(1, 3), P[4][1] * 2 + F(1, 7)),)
            yield (bspl(2, (1, 2), Q), bspl(2, (1, 1), Q), bspl(3, (F(1, 2),), Q))[i % 3]


IMAGES = list(MAPS)
RNGS = [("as is", "as is"), ("shifted", "as is"), ("long", "short"), ("as is", "long"), ("short", "shifted")]
EXTRA = [(), (0.4,), (), (0.3, 0.7)]


def family_task(ctx, kind, part, parts, quick):
    sig = None
    for n, first in enumerate(firsts(kind)):
        for m, name in enumerate(TARGETS):
            i = n * 43 + m
            if i % parts != part:
                continue
            if quick and m < len(LINES) and (n + m) % 3:
                continue
            k = i // parts
            tol = (1e-3, 1e-2, 1e-3, 1e-4)[k % 7 % 4]
            sig = judge(ctx, first, name, IMAGES[k % 5], bool(k % 2), RNGS[k % 9 % 5], EXTRA[k % 11 % 4], tol) or sig
            if k % 10 == 0:
                judge(ctx, first, name, IMAGES[(k // 10) % 5], tol=1e-3, lift=0.02)
                judge(ctx, first, name, tol=1e-6, fn=curve_ppx)
            if not quick:
                for image, swap in itertools.product(IMAGES, (False, True)):
                    judge(ctx, first, name, image, swap)
    ctx.sample(sig)


def special(kind):
    """Touches, corners, and intersections at ends and knots: rational coincidences by construction."""
    E = bez([(F(0), F(0)), (F(1, 2), F(2)), (F(1), F(0))])  # apex (1/2, 1)
    S = bez([(F(0), F(0)), (F(1), F(4)), (F(2), F(-4)), (F(3), F(0))])  # crosses its chord at 0, 1/2, 1
    V = poly([(F(0), F(0)), (F(1), F(2)), (F(2), F(0))])
    W = poly([(F(0), F(1)), (F(1), F(-1)), (F(2), F(1)), (F(3), F(-1)), (F(4), F(1))])
    K = bspl(2, (1,), [(F(0), F(0)), (F(0), F(2)), (F(2), F(2)), (F(2), F(0))])  # knot point (1, 2), horizontal tangent
    for a, b in itertools.product(fr(-1, "-1/4"), fr("5/4", 2, "7/3")):
        for y in fr(0, "1/4", "1/2", "99/100", 1, "101/100"):
            yield E, ((a, y), (b, y))
            yield E, ((b, y), (a, y))
        for y in fr(0, "1/2", 2, "7/3"):
            yield V, ((a, y), (b + 1, y))
            yield K, ((a, y), (b + 1, y))
        for y in fr(-1, 0, 1, "1/3"):
            yield W, ((a, y), (b + 3, y))
        yield S, ((a, F(0)), (b + 2, F(0)))
        yield S, ((F(0), F(0)), (b + 1, F(0)))
    for c in (E, V, K, S):
        for p in ((F(0), F(0)), c[2][-1], (F(1, 2), F(1)), (F(1), F(2))):
            for d in itertools.product(fr("-2/3", 0, 1), fr(-1, "1/2", "5/3")):
                q = (p[0] + d[0], p[1] + d[1])
                yield c, (p, q)
                yield c, (q, p)
                yield c, ((p[0] - d[0], p[1] - d[1]), q)
    for dx, dy in itertools.product(fr(0, "1/2", 1, "-3/2"), fr(0, "1/4", "-9/4", "3/2")):
        for c in (E, V, K, S, W):
            m = (c[0], c[1], tuple((x + dx - 1, y + dy) for x, y in c[2]), c[3])
            for name in CURVED:
                yield m, name


def special_task(ctx, part, parts, quick):
    sig = None
    for n, (first, name) in enumerate(special(None)):
        if n % parts != part:
            continue
        k = n // parts
        for tol, swap in (((1e-3, False), (1e-4, True), (1e-2, True)) if not quick else ((1e-3, bool(k % 2)), (1e-4, not k % 2))):
            sig = judge(ctx, first, name, IMAGES[k % 5], swap, RNGS[k % 9 % 5], EXTRA[k % 11 % 4], tol) or sig
            if not quick:
                for image in IMAGES:
                    judge(ctx, first, name, image, swap, tol=tol)
    ctx.sample(sig)


def tasks(tier):
    quick = tier == "quick"
    parts = 4 if quick else 12
    out = [(f"{kind} {i}", family_task, (kind, i, parts, quick)) for kind in ("polyline", "quadratic", "rational", "cubic", "quadratic spline", "knots") for i in range(parts)]
    return out + [(f"special {i}", special_task, (i, parts, quick)) for i in range(parts)]


TASK_LIMIT_S = 800
