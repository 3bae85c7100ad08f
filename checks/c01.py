"""C01: every way of evaluating a NURBS curve returns the point of the defining formula."""
from fractions import Fraction as F

import numpy as np

import ref
import shapes
from mmcore.geom import nurbs
from mmcore.geom.nurbs import NURBSCurve

PID = "C01"
ASSUMPTIONS = [
    "coordinates, weights and knots are small binary fractions; agreement is within 1e-9 of the exact rational value",
    "weights are positive",
    "the exact reference is the Cox-de Boor recursion in rational arithmetic",
]
BOUNDS = {
    "degree": "1..5",
    "interior knots": "up to 5, 4, 4, 3, 2 distinct ones for degree 1..5 (thorough: one more), every multiplicity pattern 1..degree, even and uneven spacing, clamped; "
    "unclamped, half clamped and periodic vectors of degree+1..degree+4 control points",
    "weights": "5 patterns: all 1, constant 2, mixed, heavy last, light first",
    "parameters": "every knot, 2 points inside every span, both floats next to every knot; periodic: 5 periods",
}


def check_curve(ctx, c, p, U, P, W, params, tag):
    n = len(P) - 1
    Uf = shapes.knots(U)
    many = np.array(params)
    with ctx.at(f"{tag} evaluate_multi"):
        multi = np.asarray(c.evaluate_multi(many))
        call = np.asarray(c(many)) if len(many) > 1 else None
    for i, u in enumerate(params):
        sig = f"{tag} u={u!r}"
        x = F(u)
        with ctx.at(sig):
            want = ref.curve_point(U, p, P, W, x)
            ctx.state((tag, u))
            ctx.step(7)
            got = {
                "evaluate": c.evaluate(u), "evaluate again": c.evaluate(u), "evaluate4d": c.evaluate4d(u)[:3],
                "call": np.asarray(c(u))[0], "evaluate_multi": multi[i], "call on an array": multi[i] if call is None else call[i],
                "derivatives1[0]": c.derivatives1(u, 1)[0], "derivatives2[0]": c.derivatives2(u, 1)[0],
            }
            for k, v in got.items():
                ctx.expect(ref.near(v, want), f"{sig} {k}", lambda: f"{k}({u}) = {list(v)}, exact {[float(t) for t in want]}")
            k = ref.span(U, p, x)
            s = nurbs.find_span(n, p, u, Uf, False)
            if u < Uf[n + 1]:
                ctx.expect(s == k, f"{sig} find_span", f"span {s}, exact {k}")
            if Uf[s] != Uf[s + 1]:
                N = ref.basis(U, p, x)
                ctx.expect(ref.near(nurbs.basis_functions(s, u, p, Uf), [N.get(s - p + j, F(0)) for j in range(p + 1)]) or s != k,
                           f"{sig} basis_functions", "basis functions differ from the definition")
                A = np.asarray(nurbs.all_basis_funs(s, u, p, Uf))
                if s == k:
                    for d in range(p + 1):
                        N = ref.basis(U, d, x)
                        ctx.expect(ref.near(A[: d + 1, d], [N.get(s - d + j, F(0)) for j in range(d + 1)]) or ref.span(U, d, x) != s,
                                   f"{sig} all_basis_funs degree {d}", lambda: str(A))
    ctx.trace()


def clamped(ctx, p, wk, tier):
    for U in shapes.open_knots(p, tier, inner={1: 5, 2: 4, 3: 4, 4: 3, 5: 2}[p] + (tier != "quick")):
        n = len(U) - p - 1
        P, W = shapes.points(n), shapes.weights(wk, n)
        tag = f"p={p} U={[float(x) for x in U]} w={wk}"
        with ctx.at(tag):
            c = shapes.curve(p, U, P, W)
            ctx.expect(tuple(c.interval()) == (float(U[0]), float(U[-1])), f"{tag} interval", str(c.interval()))
            check_curve(ctx, c, p, U, P, W, shapes.near_knot_params(U, p), tag)
            # no weights given: all weights are one
            if wk == "one":
                d = NURBSCurve(shapes.arr(P), p, shapes.knots(U))
                for u in (float(U[0]), float(U[-1]), float((U[0] + U[-1]) / 2)):
                    ctx.expect(ref.near(d.evaluate(u), ref.curve_point(U, p, P, W, F(u))), f"{tag} without weights u={u}", str(d.evaluate(u)))
                ctx.expect(ref.near(c.start(), P[0]) and ref.near(c.end(), P[-1]), f"{tag} start/end", "end points are not the end control points")
    ctx.sample(tag)


def default_knots(ctx, p, tier):
    for n in range(p + 1, p + 6):
        P, W = shapes.points(n), shapes.weights("mix", n)
        tag = f"default knots p={p} n={n}"
        with ctx.at(tag):
            c = NURBSCurve(shapes.arr([q + (w,) for q, w in zip(P, W)]), p)
            U = tuple([F(0)] * (p + 1) + [F(i) for i in range(1, n - p)] + [F(n - p)] * (p + 1))
            ctx.expect([float(x) for x in c.knots] == [float(x) for x in U], f"{tag} knots", str(list(c.knots)))
            check_curve(ctx, c, p, U, P, W, shapes.near_knot_params(U, p), tag)


def unclamped(ctx, p, wk, tier):
    for n in range(p + 1, p + 5):
        for U in shapes.unclamped_knots(p, n):
            P, W = shapes.points(n), shapes.weights(wk, n)
            tag = f"unclamped p={p} U={[float(x) for x in U]} w={wk}"
            with ctx.at(tag):
                c = shapes.curve(p, U, P, W)
                ctx.expect(tuple(c.interval()) == (float(U[p]), float(U[n])), f"{tag} interval", str(c.interval()))
                check_curve(ctx, c, p, U, P, W, shapes.near_knot_params(U, p), tag)


def periodic(ctx, p, wk, tier):
    for n in range(p + 1, p + 5):
        P, W = shapes.points(n), shapes.weights(wk, n)
        tag = f"periodic p={p} n={n} w={wk}"
        with ctx.at(tag):
            c = NURBSCurve(shapes.arr([q + (w,) for q, w in zip(P, W)]), p, None, True)
            PP, WW = P + P[:p], W + W[:p]
            U = tuple(F(i - p) for i in range(n + 2 * p + 1))
            ctx.expect(tuple(c.interval()) == (0.0, float(n)), f"{tag} interval", str(c.interval()))
            ctx.expect(c.is_periodic() and c.is_closed() and not c.is_open(), f"{tag} closed", "a periodic curve is not closed")
            for k in range(-2, 3):
                for i in range(4 * n):
                    u = F(i, 4)
                    want = ref.curve_point(U, p, PP, WW, u)
                    x = float(u + k * n)
                    sig = f"{tag} u={x}"
                    ctx.state(sig)
                    ctx.step(4)
                    with ctx.at(sig):
                        for name, got in (("evaluate", c.evaluate(x)), ("evaluate4d", c.evaluate4d(x)[:3]), ("call", np.asarray(c(x))[0]),
                                          ("evaluate_multi", c.evaluate_multi(np.array([x]))[0]), ("derivatives1[0]", c.derivatives1(x, 1)[0]),
                                          ("derivatives2[0]", c.derivatives2(x, 1)[0])):
                            ctx.expect(ref.near(got, want), f"{sig} {name}", lambda: f"{list(got)}, exact {[float(t) for t in want]}")
                        m = len(PP) - 1
                        s = nurbs.find_span(m, p, x, shapes.knots(U), True)
                        ctx.expect(s == ref.span(U, p, u) or i == 0 and s == m, f"{sig} find_span", lambda: f"span {s}, exact {ref.span(U, p, u)}")
            ctx.trace()


def tasks(tier):
    degrees = (1, 2, 3, 4, 5)
    out = []
    for p in degrees:
        for wk in shapes.WEIGHTS:
            out.append((f"clamped p={p} {wk}", clamped, (p, wk, tier)))
            out.append((f"periodic p={p} {wk}", periodic, (p, wk, tier)))
            out.append((f"unclamped p={p} {wk}", unclamped, (p, wk, tier)))
        out.append((f"default p={p}", default_knots, (p, tier)))
    return out
