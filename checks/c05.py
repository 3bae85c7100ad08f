"""C05: constructed curves and ruled surfaces are the ones their inputs describe."""
import itertools
import math
from fractions import Fraction as F

import numpy as np

import ref
import shapes
from mmcore.construction.ruled import ruled
from mmcore.geom.curves import knot as K
from mmcore.geom.curves.bspline import interpolate_nurbs_curve
from mmcore.geom.nurbs import NURBSCurve

PID = "C05"
ASSUMPTIONS = [
    "agreement within 1e-7 (interpolation solves a linear system), 1e-8 elsewhere",
    "interpolated points are at least 1e-3 apart when consecutive, or equal (equal neighbours count once)",
    "joined curves share exactly one pair of ends; a joined curve traces the first curve (possibly backwards) and then the second",
]
BOUNDS = {
    "interpolation": "every sequence of 2..5 points (thorough 6) of a 4-point alphabet plus longer generic ones up to 12 points, degree 1..5, chord-length and centripetal",
    "degree elevation": "degree 1..4 clamped knots, up to 2 interior knots, every multiplicity pattern, 3 weight patterns, by 1..3; single Bezier pieces of dimension 1..4",
    "joining": "every combination of the 4 end pairings, degrees 1..3 x 1..3, 2 weight patterns, knots with 0..1 interior knots",
    "ruled surfaces": "every pair of curves of degree 1..3 with 0..2 interior knots at different places and domains, 2 weight patterns; every pair of 5 domains on which equal knots round differently",
}
ALPHABET = [(0.0, 0.0, 0.0), (1.0, 0.5, 0.0), (3.0, -1.0, 2.0), (0.5, 2.0, 1.0)]


def generic(n, kind=0):
    return [(i + ((i * i) % 3) / 2, ((2 * i * i + 1) % 7) - 2.0, ((5 * i + i * i * i) % 6) / 2) for i in range(n)]


def interpolation(ctx, pts, p, cent, tag):
    pts = [tuple(float(x) for x in q) for q in pts]
    uniq = [q for i, q in enumerate(pts) if i == 0 or q != pts[i - 1]]
    if len(uniq) <= p:
        return
    sig = f"{tag} degree {p} {'centripetal' if cent else 'chord'}"
    with ctx.at(sig):
        C, kv, deg = K.interpolate_curve(np.array(pts), p, use_centripetal=cent)
        ctx.trace()
        ctx.state(sig)
        n = len(uniq)
        ch = [math.dist(a, b) for a, b in zip(uniq, uniq[1:])]
        if cent:
            ch = [math.sqrt(x) for x in ch]
        us = [0.0]
        for x in ch:
            us.append(us[-1] + x)
        us = [u / us[-1] for u in us]
        want = [0.0] * (p + 1) + [sum(us[i + 1 : i + p + 1]) / p for i in range(n - p - 1)] + [1.0] * (p + 1)
        ctx.expect(deg == p and len(C) == n and np.allclose(kv, want, atol=1e-12), f"{sig}: knots", f"{list(kv)} expected {want}")
        c = interpolate_nurbs_curve(np.array(pts), p, use_centripetal=cent)
        ctx.expect(np.allclose(c.control_points, C) and np.allclose(c.knots, kv), f"{sig}: the curve object", "")
        C4 = np.ones((n, 4))
        C4[:, :3] = C
        c2 = NURBSCurve(C4, deg, np.array(kv))
        for u, q in zip(us, uniq):
            ctx.step(2)
            for k, x in (("", c2), (" curve object", c)):
                if not ctx.expect(np.allclose(x.evaluate(min(u, 1.0)), q, atol=1e-7), f"{sig}: misses point {q}{k}", f"{list(x.evaluate(min(u, 1.0)))} at {u}"):
                    return


def interpolations(ctx, p, cent, k, tier):
    for n in range(2, (5 if tier == "quick" else 6) + 1):
        for i, w in enumerate(itertools.product(range(4), repeat=n)):
            if i % 3 == k:
                if any(a == b for a, b in zip(w, w[1:])) and n > 4:
                    continue
                interpolation(ctx, [ALPHABET[j] for j in w], p, cent, "points " + "".join(map(str, w)))
    if k == 0:
        for n in range(2, 13):
            interpolation(ctx, generic(n), p, cent, f"{n} generic points")
            # two-dimensional input gets a zero third coordinate
            with ctx.at(f"2D {n}"):
                q = np.array(generic(n))[:, :2]
                c = interpolate_nurbs_curve(q, p)
                e = NURBSCurve(np.array(c.control_pointsw), c.degree, np.array(c.knots))
                ctx.expect(np.allclose(e.evaluate(0.0), [*q[0], 0]) and np.allclose(e.evaluate(1.0), [*q[-1], 0]), f"2D {n} degree {p}", "")


def match(ctx, c, fn, lo, hi, sig, more=(), tol=1e-8):
    """The curve c agrees with the exact function fn at every knot, 2 points of every span, and `more`."""
    U = sorted({float(x) for x in c.knots if lo <= x <= hi} | {float(lo), float(hi)})
    ts = [a + (b - a) * f for a, b in zip(U, U[1:]) for f in (0, 0.375, 0.75)] + [U[-1]] + [float(m) for m in more]
    for t in ts:
        ctx.step()
        want = fn(F(t))
        if not ctx.expect(ref.near(c.evaluate(t), want, tol), f"{sig}: at {t!r}", lambda: f"{list(c.evaluate(t))}, exact {[float(x) for x in want]}"):
            return False
    return True


def elevation(ctx, p, wk, i, tier):
    for U in list(shapes.open_knots(p, tier, inner=2 if tier == "quick" else 3))[i::3]:
        n = len(U) - p - 1
        P, W = shapes.points(n), shapes.weights(wk, n)
        for t in (1, 2, 3):
            sig = f"p={p} U={[float(x) for x in U]} w={wk} elevate {t}"
            with ctx.at(sig):
                c = shapes.curve(p, U, P, W)
                e = K.degree_elevate_curve(c, t)
                ctx.trace()
                ctx.state(sig)
                ctx.expect(e.degree == p + t and len(e.knots) == len(e.control_points) + p + t + 1, f"{sig}: sizes", f"{e.degree} {len(e.knots)} {len(e.control_points)}")
                ctx.expect(ref.near(e.interval(), (U[0], U[-1])), f"{sig}: interval", f"{e.interval()}")
                match(ctx, e, lambda x: ref.curve_point(U, p, P, W, x), U[0], U[-1], sig)
                ctx.expect(ref.near(c.knots, U) and c.degree == p and ref.near(np.array(c.control_points).ravel(), [x for q in P for x in q]), f"{sig}: the operand changed", "")
    for dim in (1, 2, 3, 4):
        P = [tuple(list(q) + [F(k % 3 + 1)])[-dim:] for k, q in enumerate(shapes.points(p + 1))]
        for t in (1, 2, 3, 4):
            sig = f"Bezier p={p} dim={dim} elevate {t}"
            with ctx.at(sig):
                E, d = K.degree_elevation_bez(shapes.arr(P), p, t)
                ctx.state(sig)
                ctx.trace()
                ctx.expect(d == p + t and len(E) == p + t + 1, f"{sig}: sizes", "")
                Uo, Un = (F(0),) * (p + 1) + (F(1),) * (p + 1), (F(0),) * (d + 1) + (F(1),) * (d + 1)
                Ex = [tuple(F(float(x)) for x in r) for r in E]
                for x in (F(0), F(1, 3), F(1, 2), F(4, 5), F(1)):
                    ctx.step()
                    ctx.expect(ref.near(ref.spline(Un, d, Ex, x), ref.spline(Uo, p, P, x)), f"{sig}: at {x}", "")
    for n in range(p + 1, p + 6):
        for cl in (True, False):
            with ctx.at(f"generate_knot {p} {n} {cl}"):
                kv = K.generate_knot(p, n, cl)
                ctx.state(("gen", p, n, cl))
                ok = len(kv) == n + p + 1 and all(a <= b for a, b in zip(kv, kv[1:]))
                if cl:
                    ok = ok and kv == [0.0] * (p + 1) + [float(x) for x in range(1, n - p)] + [float(n - p)] * (p + 1)
                else:
                    ok = ok and kv == [float(x) for x in range(n + p + 1)]
                ctx.expect(ok, f"generate_knot({p},{n},{cl})", str(kv))


def bez(p, k, W, a, b, shift):
    """A clamped curve of degree p with k interior knots from point a to point b."""
    n = p + 1 + k
    P = [tuple(x + shift for x in q) for q in shapes.points(n)]
    P[0], P[-1] = a, b
    U = (F(0),) * (p + 1) + tuple(F(i + 1) for i in range(k)) + (F(k + 1),) * (p + 1)
    return U, P, W


def joining(ctx, p, q, tier):
    A, B, C = (F(0), F(0), F(0)), (F(4), F(1), F(2)), (F(7), F(-2), F(1))
    for k1, k2 in itertools.product((0, 1) if tier == "quick" else (0, 1, 2), repeat=2):
        for w1, w2 in itertools.product(("one", "mix"), repeat=2):
            for e1, e2 in itertools.product((0, 1), repeat=2):  # which end of each curve is the shared point B
                U1, P1, W1 = bez(p, k1, shapes.weights(w1, p + 1 + k1), *((B, A) if e1 == 0 else (A, B)), 0)
                U2, P2, W2 = bez(q, k2, shapes.weights(w2, q + 1 + k2), *((B, C) if e2 == 0 else (C, B)), 3)
                sig = f"join degrees {p},{q} inner {k1},{k2} weights {w1},{w2} ends {e1}{e2}"
                with ctx.at(sig):
                    c1, c2 = shapes.curve(p, U1, P1, W1), shapes.curve(q, U2, P2, W2)
                    j = K.join_two_curves(c1, c2)
                    ctx.trace()
                    ctx.state(sig)
                    l1, l2 = U1[-1], U2[-1]
                    lo = F(j.interval()[0])
                    ctx.expect(ref.near(j.interval(), (0, l1 + l2)), f"{sig}: interval", f"{j.interval()}")

                    def fn(t):
                        t = t - lo
                        if t <= l1:
                            return ref.curve_point(U1, p, P1, W1, t if e1 == 1 else l1 - t)
                        t = min(t - l1, l2)
                        return ref.curve_point(U2, q, P2, W2, t if e2 == 0 else l2 - t)

                    ctx.expect(j.degree == max(p, q), f"{sig}: degree", str(j.degree))
                    match(ctx, j, fn, lo, l1 + l2, sig)
                    ctx.expect(ref.near(c1.start(), P1[0]) and ref.near(c2.start(), P2[0]) and c1.degree == p and c2.degree == q, f"{sig}: an operand changed", "")
            if p == q:
                # compose_curves glues unit-length pieces end to end
                U1, P1, W1 = bez(p, k1, shapes.weights("one", p + 1 + k1), A, B, 0)
                U2, P2, W2 = bez(q, k2, shapes.weights("one", q + 1 + k2), B, C, 3)
                U3, P3, W3 = bez(p, k1, shapes.weights("one", p + 1 + k1), C, A, 1)
                sig = f"compose degree {p} inner {k1},{k2},{k1}"
                if not ctx.state(sig):
                    continue
                with ctx.at(sig):
                    kv, cp, con = K.compose_curves([shapes.curve(p, *x) for x in ((U1, P1, W1), (U2, P2, W2), (U3, P3, W3))])
                    ctx.trace()
                    c = NURBSCurve(cp, p, kv)
                    ctx.expect(ref.near(con, (1, 2)), f"{sig}: joints", str(con))

                    def fn(t):
                        i = min(int(t), 2)
                        U, P, W = ((U1, P1, W1), (U2, P2, W2), (U3, P3, W3))[i]
                        return ref.curve_point(U, p, P, W, (t - i) * U[-1])

                    match(ctx, c, fn, F(0), F(3), sig)


def ruling(ctx, p, q, tier):
    places = [(), (F(1, 2),), (F(1, 4), F(3, 4)), (F(1, 2), F(1, 2))] if tier == "quick" else [(), (F(1, 2),), (F(1, 4),), (F(1, 4), F(3, 4)), (F(1, 2), F(1, 2)), (F(1, 4), F(1, 2), F(1, 2))]
    def jobs():
        for k1, k2 in itertools.product(places, repeat=2):
            if max([k1.count(x) for x in k1], default=0) > p or max([k2.count(x) for x in k2], default=0) > q:
                continue
            for wk in ("one", "mix"):
                for (s1, l1), (s2, l2) in (((F(0), F(1)), (F(0), F(1))), ((F(0), F(4)), (F(-2), F(8)))):
                    yield wk, tuple(s1 + l1 * x for x in k1), tuple(s2 + l2 * x for x in k2), s1, l1, s2, l2
        # the same thirds on domains where normalising them rounds differently
        thirds = [tuple(F(x) for x in w) for w in ((0.0, 1.0, 2.0, 3.0), (0.0, 0.1, 0.2, 0.3), (0.0, 0.7, 1.4, 2.1), (0.0, 1 / 3, 2 / 3, 1.0), (0.1, 0.4, 0.7, 1.0))]
        for a, b in itertools.product(thirds, repeat=2):
            for m in (1, 2):
                if m <= min(p, q):
                    yield "mix", a[1:2] * m + a[2:3], b[1:2] + b[2:3] * m, a[0], a[3] - a[0], b[0], b[3] - b[0]

    for wk, k1, k2, s1, l1, s2, l2 in jobs():
        n1, n2 = p + 1 + len(k1), q + 1 + len(k2)
        P1, W1 = shapes.points(n1), shapes.weights(wk, n1)
        P2, W2 = [(a + 1, c, b + 9) for a, b, c in shapes.points(n2)], shapes.weights(wk, n2)[::-1]
        U1 = (s1,) * (p + 1) + k1 + (s1 + l1,) * (p + 1)
        U2 = (s2,) * (q + 1) + k2 + (s2 + l2,) * (q + 1)
        sig = f"ruled p={p},{q} knots {[float(x) for x in U1]} {[float(x) for x in U2]} w={wk}"
        with ctx.at(sig):
            c1, c2 = shapes.curve(p, U1, P1, W1), shapes.curve(q, U2, P2, W2)
            s = ruled(c1, c2)
            ctx.trace()
            ctx.state(sig)
            ctx.expect(ref.near(sum(map(list, s.interval()), []), (0, 1, 0, 1)), f"{sig}: interval", str(s.interval()))
            for t in sorted({F(i, 16) for i in range(17)}):
                a = ref.curve_point(U1, p, P1, W1, s1 + l1 * t)
                b = ref.curve_point(U2, q, P2, W2, s2 + l2 * t)
                ctx.step(4)
                f = float(t)
                g = np.array([s.evaluate(np.array([f, v])) for v in (0.0, 1.0, 0.25, 0.5)])
                ctx.expect(ref.near(g[0], a, 1e-8) and ref.near(g[1], b, 1e-8), f"{sig}: edges at {f}", lambda: f"{g[:2]} exact {[float(x) for x in a + b]}")
                A, B = np.array([float(x) for x in a]), np.array([float(x) for x in b])
                wa = float(sum(c * W1[i] for i, c in ref.basis(U1, p, s1 + l1 * t).items()))
                wb = float(sum(c * W2[i] for i, c in ref.basis(U2, q, s2 + l2 * t).items()))
                for v, x in ((0.25, g[2]), (0.5, g[3])):
                    want = ((1 - v) * wa * A + v * wb * B) / ((1 - v) * wa + v * wb)
                    ctx.expect(np.allclose(x, want, atol=1e-8), f"{sig}: inside at {f},{v}", lambda: f"{x} {want}")
            ctx.expect(ref.near(c1.knots, U1) and ref.near(c2.knots, U2), f"{sig}: an operand changed", "")


def tasks(tier):
    out = []
    for p in (1, 2, 3, 4, 5):
        for cent in (False, True):
            for k in range(3):
                out.append((f"interpolate p={p} {cent} {k}", interpolations, (p, cent, k, tier)))
    for p in (1, 2, 3, 4):
        for wk in ("one", "mix", "last"):
            for i in range(3):
                out.append((f"elevate p={p} {wk} {i}", elevation, (p, wk, i, tier)))
    for p in (1, 2, 3):
        for q in (1, 2, 3):
            out.append((f"join {p},{q}", joining, (p, q, tier)))
            out.append((f"ruled {p},{q}", ruling, (p, q, tier)))
    return out
