"""C02: derivatives of NURBS curves, and the tangent, curvature and frame built from them."""
import math
from fractions import Fraction as F

import numpy as np

import ref
import shapes
from mmcore.geom import nurbs
from mmcore.geom.nurbs import NURBSCurve

PID = "C02"
ASSUMPTIONS = [
    "data are small binary fractions; agreement is within 1e-8 of the exact rational value, relative to the size of the derivative",
    "at a knot where a derivative jumps the value from the right is meant (from the left at the end of the domain)",
    "frames are only judged where first derivative and curvature do not vanish",
]
BOUNDS = {
    "degree": "1..5", "order": "0..degree+2, capped at 5",
    "interior knots": "up to 4, 3, 3, 2, 1 distinct ones for degree 1..5 (thorough: one more), every multiplicity pattern up to the degree; unclamped, half clamped, periodic",
    "weights": "5 patterns", "parameters": "every knot and 2 points inside every span",
}


def frame(D):
    d1, d2 = ([float(x) for x in v] for v in D[1:3])
    n1 = math.sqrt(sum(x * x for x in d1))
    if n1 < 1e-6:
        return None
    T = [x / n1 for x in d1]
    dot = sum(a * b for a, b in zip(d2, T))
    perp = [a - dot * b for a, b in zip(d2, T)]
    K = [x / n1**2 for x in perp]
    n2 = math.sqrt(sum(x * x for x in perp))
    N = [x / n2 for x in perp] if n2 > 1e-4 * (1 + abs(dot)) else None
    return T, K, N


def check(ctx, c, U, p, P, W, params, tag, shift=0, tol=1e-8):
    for u in params:
        x = float(u + shift)
        sig = f"{tag} u={x!r}"
        with ctx.at(sig):
            if not ctx.state(sig):
                continue
            top = min(p + 2, 5)
            D = ref.curve_ders(U, p, P, W, F(x) - shift, top)
            rational = len(set(W)) > 1
            for d in range(top + 1):
                for name, f in (("derivatives1", c.derivatives1), ("derivatives2", c.derivatives2)):
                    got = f(x, d)
                    ctx.step()
                    ctx.expect(len(got) == min(d, p) + 1 and all(ref.near(g, D[k], tol) for k, g in enumerate(got)),
                               f"{sig} {name} d={d}", lambda: f"{got.tolist()}\nexact {[[float(t) for t in v] for v in D]}")
            for name, got, want in (("derivative", c.derivative(x), D[1]), ("second_derivative", c.second_derivative(x), D[2])):
                ctx.step()
                ctx.expect(ref.near(got, want, tol), f"{sig} {name}", lambda: f"{list(got)}\nexact {[float(t) for t in want]}")
            f = frame(D)
            if f:
                T, K, N = f
                ctx.step(3)
                ctx.expect(ref.near(c.tangent(x), T, 1e-6), f"{sig} tangent", lambda: f"{list(c.tangent(x))} expected {T}")
                ctx.expect(ref.near(c.curvature(x), K, 1e-6), f"{sig} curvature", lambda: f"{list(c.curvature(x))} expected {K}")
                if N:
                    B = np.cross(T, N)
                    pl = np.asarray(c.plane_at(x))
                    want = [[float(t) for t in D[0]], T, N, list(B)]
                    ctx.expect(all(ref.near(a, b, 1e-6) for a, b in zip(pl, want)), f"{sig} plane_at", lambda: f"{pl.tolist()}\nexpected {want}")
                    ctx.expect(ref.near(c.normal(x), N, 1e-6), f"{sig} normal", lambda: f"{list(c.normal(x))} expected {N}")
                    ctx.expect(np.allclose(np.asarray(c.planes_at(np.array([x, x])))[1], pl), f"{sig} planes_at", "planes_at differs from plane_at")
            if not rational and not shift:
                k = ref.span(U, p, F(x))
                PK = c.derivative_control_points(x, min(p, 3))
                V, Q = U, P
                for d in range(min(p, 3) + 1):
                    want = [Q[i] for i in range(k - p, k - d + 1)]
                    if c.knots[k] < c.knots[k + 1] and x < c.knots[-1]:
                        ctx.expect(all(ref.near(PK[d][i], w, tol) for i, w in enumerate(want)), f"{sig} derivative_control_points order {d}",
                                   lambda: f"{PK[d].tolist()} exact {[[float(t) for t in w] for w in want]}")
                    V, _, Q = ref.derived(V, p - d, Q)
                    ctx.step()
    ctx.trace()


def clamped(ctx, p, wk, tier):
    for U in shapes.open_knots(p, tier, inner={1: 4, 2: 3, 3: 3, 4: 2, 5: 1}[p] + (tier != "quick")):
        n = len(U) - p - 1
        P, W = shapes.points(n), shapes.weights(wk, n)
        tag = f"p={p} U={[float(x) for x in U]} w={wk}"
        with ctx.at(tag):
            check(ctx, shapes.curve(p, U, P, W), U, p, P, W, ref.query_params(U, p, 3), tag)
    ctx.sample(tag)


def unclamped(ctx, p, wk, tier):
    for n in range(p + 1, p + 4):
        for U in shapes.unclamped_knots(p, n):
            P, W = shapes.points(n), shapes.weights(wk, n)
            tag = f"unclamped p={p} U={[float(x) for x in U]} w={wk}"
            with ctx.at(tag):
                check(ctx, shapes.curve(p, U, P, W), U, p, P, W, ref.query_params(U, p, 3), tag)


def periodic(ctx, p, wk, tier):
    for n in range(p + 1, p + 4):
        P, W = shapes.points(n), shapes.weights(wk, n)
        tag = f"periodic p={p} n={n} w={wk}"
        with ctx.at(tag):
            c = NURBSCurve(shapes.arr([q + (w,) for q, w in zip(P, W)]), p, None, True)
            U = tuple(F(i - p) for i in range(n + 2 * p + 1))
            for k in (-1, 0, 1, 2):
                check(ctx, c, U, p, P + P[:p], W + W[:p], [F(i, 2) + (F(1, 4) if p == 1 else 0) for i in range(2 * n)][1:-1], tag, k * n)


def basis(ctx, p, tier):
    """The nonzero basis functions and all their derivatives, from every span."""
    for U in shapes.open_knots(p, tier, inner={1: 4, 2: 3, 3: 3, 4: 2, 5: 1}[p]):
        n = len(U) - p - 2
        Uf = shapes.knots(U)
        for u in ref.query_params(U, p, 3):
            k = ref.span(U, p, F(float(u)))
            sig = f"ders_basis_funs p={p} U={[float(x) for x in U]} u={float(u)!r}"
            with ctx.at(sig):
                ctx.state(sig)
                got = np.asarray(nurbs.ders_basis_funs(k, float(u), p, p, Uf))
                ctx.step()
                for j in range(p + 1):
                    E = [(F(int(i == k - p + j)),) for i in range(n + 1)]
                    D = ref.spline_ders(U, p, E, F(float(u)), p)
                    ctx.expect(ref.near(got[:, j], [d[0] for d in D]), f"{sig} function {k - p + j}",
                               lambda: f"{got[:, j].tolist()} exact {[float(d[0]) for d in D]}")


def tasks(tier):
    out = []
    for p in (1, 2, 3, 4, 5):
        for wk in shapes.WEIGHTS:
            out.append((f"clamped p={p} {wk}", clamped, (p, wk, tier)))
            out.append((f"unclamped p={p} {wk}", unclamped, (p, wk, tier)))
            out.append((f"periodic p={p} {wk}", periodic, (p, wk, tier)))
        out.append((f"basis p={p}", basis, (p, tier)))
    return out
