"""C36: a NURBSpline and the stand-alone spline kernels give the point and the derivatives of the defining formula, through every history of edits."""
import copy
import itertools
import math
import pickle
from fractions import Fraction as F

import numpy as np

import ref
import shapes
from mmcore.geom.curves import Circle, bspline_first, bspline_utils, curve_utils, deboor
from mmcore.geom.curves.bspline import NURBSpline
from mmcore.geom.curves.knot import nurbs_split

PID = "C36"
ASSUMPTIONS = [
    "coordinates, weights and knots are small binary fractions; agreement is within 1e-9 (1e-6 for lengths) of the exact rational value, relative to the order's magnitude for derivatives",
    "weights are positive; the exact reference is the Cox-de Boor recursion in rational arithmetic",
    "the number of knots fits the points and the degree whenever a spline is queried; edits go through the setters and methods, not through the arrays the getters return",
    "points of a spline made periodic do not all repeat already; degree at most 10 is not exceeded by the kernels",
    "histories: new control points of three columns reset the weights to one, as the class defines",
]
BOUNDS = {
    "splines": "degree 1..5; clamped knot vectors with up to 3, 3, 2, 2, 2 interior knots of every multiplicity 1..degree, two spacings; unclamped and half clamped ones; default knots; periodic ones of degree+1..degree+3 points, and points that wrap around except for one entry; 5 weight patterns",
    "parameters": "every knot, 2 points inside every span, the floats next to every knot; two before and two after the domain of polynomial splines (extrapolation of the first and the last piece); periodic: 5 periods",
    "derivatives": "orders 0..3 by both algorithms, the first and second derivative, tangent, normal and frame",
    "histories": "every sequence of 2 (thorough: 3) edits of 14, with every value, the interval and the length read before and after each edit",
    "copies": "copy, deepcopy and pickle of every state of the histories, edited on either side",
    "splits": "at every interior knot and 2 parameters of every span, for every clamped knot vector and weight pattern",
    "kernels": "bspline_utils, curve_utils, bspline_first and deboor: basis functions and their derivatives, points, rational derivatives, tensor product points, for the same knot vectors and parameters",
    "circles": "origins, radii and planes: every quadrant and eight points per quadrant",
}
INNER = {1: 3, 2: 3, 3: 2, 4: 2, 5: 2}


def piece(U, p, u, k, d, H):
    """The derivatives up to d of the polynomial piece of span k at any u."""
    out = []
    n = len(H)
    for _ in range(d + 1):
        if p < 0:
            out.append((F(0),) * len(H[0]))
            continue
        N = {k: F(1)}
        for e in range(1, p + 1):
            M = {}
            for i in range(k - e, k + 1):
                v = F(0)
                a, b = N.get(i, 0), N.get(i + 1, 0)
                if a and U[i + e] != U[i]:
                    v += (u - U[i]) / (U[i + e] - U[i]) * a
                if b and U[i + e + 1] != U[i + 1]:
                    v += (U[i + e + 1] - u) / (U[i + e + 1] - U[i + 1]) * b
                M[i] = v
            N = M
        out.append(tuple(sum((c * H[i][j] for i, c in N.items()), F(0)) for j in range(len(H[0]))))
        if p == 0:
            p = -1
        else:
            U, p, H = ref.derived(U, p, H)
            k -= 1
    return out


def exact(U, p, P, W, u, d):
    H = [tuple(x * w for x in q) + (w,) for q, w in zip(P, W)]
    return ref.rational(piece(U, p, u, max(ref.span(U, p, max(u, U[p])), p), d, H))


def near(a, b, scale=1.0, tol=1e-9):
    a = [float(x) for x in a]
    return len(a) == len(b) and all(abs(x - float(y)) <= tol * (scale + abs(float(y))) for x, y in zip(a, b))


def f4(P, W):
    return shapes.arr([tuple(q) + (w,) for q, w in zip(P, W)])


def spline(U, p, P, W, periodic=False):
    return NURBSpline(f4(P, W), p, None if U is None else shapes.knots(U), periodic)


def outside(U, p, W):
    if len(set(W)) > 1:
        return []  # the extrapolation of a rational piece may run through a pole
    lo, hi = U[p], U[len(U) - p - 1]
    return [float(lo - F(1, 4)), float(lo - 1), float(hi + F(1, 4)), float(hi + 1)]


def frame(ctx, c, u, D, sig, scale):
    """Tangent, normal and plane against the exact derivatives (where the curve has a curvature)."""
    d1, d2 = [[float(x) for x in D[i]] for i in (1, 2)]
    l1 = math.hypot(*d1)
    if l1 < 1e-3:
        return
    T = [x / l1 for x in d1]
    ctx.expect(near(c.tangent(u), T, tol=1e-7), f"{sig} tangent", lambda: f"tangent({u}) = {list(c.tangent(u))}, exact {T}")
    s = sum(x * y for x, y in zip(d2, T))
    q = [x - s * t for x, t in zip(d2, T)]
    l2 = math.hypot(*q)
    k = [x / l1 ** 2 for x in q]
    ctx.expect(near(c.curvature(u), k, tol=1e-6, scale=1 + math.hypot(*d2) / l1 ** 2), f"{sig} curvature", lambda: f"curvature({u}) = {list(c.curvature(u))}, exact {k}")
    if l2 < 1e-4 * (1 + math.hypot(*d2)):
        return
    N = [x / l2 for x in q]
    B = [T[1] * N[2] - T[2] * N[1], T[2] * N[0] - T[0] * N[2], T[0] * N[1] - T[1] * N[0]]
    ctx.expect(near(c.normal(u), N, tol=1e-6, scale=scale), f"{sig} normal", lambda: f"normal({u}) = {list(c.normal(u))}, exact {N}")
    pl = np.asarray(c.plane_at(u))
    ctx.expect(near(pl.ravel(), [float(x) for x in D[0]] + T + N + B, tol=1e-6, scale=scale), f"{sig} plane", lambda: f"plane_at({u}) = {pl.tolist()}")


def check(ctx, c, U, p, P, W, params, tag, deep=True):
    n = len(P)
    many = np.array(params)
    with ctx.at(f"{tag} evaluate_multi"):
        multi = np.asarray(c.evaluate_multi(many))
        ctx.expect(multi.shape == (len(params), 3), f"{tag} evaluate_multi shape", str(multi.shape))
        call = np.asarray(c(many))
        ctx.expect(np.array_equal(call, multi), f"{tag} call on an array", "differs from evaluate_multi")
        two = np.asarray(c([params[:2], params[:2]]))
        ctx.expect(two.shape == (2, 2, 3) and np.array_equal(two, np.array([multi[:2], multi[:2]])), f"{tag} call on a table", str(two))
    rational = len(set(W)) > 1
    for i, u in enumerate(params):
        sig = f"{tag} u={u!r}"
        with ctx.at(sig):
            x = F(u)
            D = exact(U, p, P, W, x, 3)
            if i == 0:
                ctx.label("rational" if rational else "polynomial")
            ctx.state((tag, u))
            ctx.step(6)
            got = {"evaluate": c.evaluate(u), "evaluate again": c.evaluate(u), "call": c(u), "evaluate4d": c.evaluate4d(u)[:3], "evaluate_multi": multi[i]}
            for k, v in got.items():
                ctx.expect(near(v, D[0]), f"{sig} {k}", lambda: f"{k}({u}) = {list(v)}, exact {[float(t) for t in D[0]]}")
            if not deep:
                continue
            scale = max(1.0, max(abs(float(t)) for r in D for t in r))
            for name, f in (("derivatives1", c.derivatives1), ("derivatives2", c.derivatives2)):
                for d in range(4):
                    R = np.asarray(f(u, d))
                    rows = min(d, p) + 1
                    ok = R.shape == (rows, 3) and all(near(R[k], D[k], scale) for k in range(rows))
                    ctx.expect(ok, f"{sig} {name} {d}", lambda: f"{name}({u}, {d}) = {R.tolist()}, exact {[[float(t) for t in r] for r in D[:rows]]}")
            ctx.expect(near(c.derivative(u), D[1], scale), f"{sig} derivative", lambda: f"derivative({u}) = {list(c.derivative(u))}, exact {[float(t) for t in D[1]]}")
            ctx.expect(near(c.second_derivative(u), D[2], scale), f"{sig} second_derivative",
                       lambda: f"second_derivative({u}) = {list(c.second_derivative(u))}, exact {[float(t) for t in D[2]]}")
            frame(ctx, c, u, D, sig, scale)
            if not rational:
                s = max(ref.span(U, p, max(x, U[p])), p)
                PK = np.asarray(c.derivative_control_points(u, min(p, 2)))
                Q, V, e = list(P), U, p
                for k in range(min(p, 2) + 1):
                    want = [t for q in Q[s - p: s - k + 1] for t in q]
                    ctx.expect(near(PK[k, : p - k + 1].ravel(), want, scale=max(scale, 1)), f"{sig} derivative_control_points {k}", lambda: str(PK[k].tolist()))
                    V, e, Q = ref.derived(V, e, Q)
    ctx.trace()


def greville(ctx, c, U, p, tag):
    want = [sum(U[i + 1: i + p + 1], F(0)) / p for i in range(len(U) - p - 1)]
    ctx.expect(near(c.greville_abscissae, want), f"{tag} greville_abscissae", lambda: str(list(c.greville_abscissae)))


def clamped(ctx, p, wk, tier):
    inner = INNER[p] + (tier != "quick")
    for U in shapes.open_knots(p, tier, inner=inner):
        n = len(U) - p - 1
        P, W = shapes.points(n), shapes.weights(wk, n)
        tag = f"p={p} U={[float(x) for x in U]} w={wk}"
        with ctx.at(tag):
            c = spline(U, p, P, W)
            ctx.expect(tuple(c.interval()) == (float(U[0]), float(U[-1])), f"{tag} interval", str(c.interval()))
            ctx.expect(near(c.start(), P[0]) and near(c.end(), P[-1]), f"{tag} start and end", "end points are not the end control points")
            greville(ctx, c, U, p, tag)
            few = inner - 1 >= sum(1 for a, b in zip(U[p + 1:], U[p + 2:]) if a != b)
            check(ctx, c, U, p, P, W, (shapes.near_knot_params(U, p) if few else [float(u) for u in ref.query_params(U, p, 2)]) + outside(U, p, W), tag)
            if wk == "one":
                for name, d in (("points of three columns", NURBSpline(shapes.arr(P), p, shapes.knots(U))),
                                ("lists", NURBSpline([[float(x) for x in q] for q in P], degree=p, knots=[float(x) for x in U]))):
                    check(ctx, d, U, p, P, W, [float(u) for u in ref.query_params(U, p, 2)], f"{tag} {name}", deep=False)
                Z = [(q[0], q[1], F(0)) for q in P]
                check(ctx, NURBSpline(shapes.arr([q[:2] for q in Z]), p, shapes.knots(U)), U, p, Z, W, [float(U[0]), float((U[0] + U[-1]) / 2)], f"{tag} planar points", deep=False)
                I = [tuple(F(int(4 * x)) for x in q) for q in P]
                V = tuple(F(int(4 * x)) for x in U)
                check(ctx, NURBSpline(np.array([[int(x) for x in q] for q in I]), p, np.array([int(x) for x in V])), V, p, I, W,
                      [float(u) for u in ref.query_params(V, p, 2)], f"{tag} integers", deep=False)
                k = [int(V[0]), int(V[-1])]
                ctx.expect(near(np.asarray(NURBSpline(np.array([[int(x) for x in q] for q in I]), p, np.array([int(x) for x in V]))(np.array(k))).ravel(), I[0] + I[-1]), f"{tag} integer parameters", "ends differ")
                if p == 1:
                    continue
                pts = np.asarray(c.points(5))
                ctx.expect(all(near(pts[i], ref.curve_point(U, p, P, W, U[0] + (U[-1] - U[0]) * i / 4)) for i in range(5)), f"{tag} points", str(pts))
    ctx.sample(tag)


def unclamped(ctx, p, wk, tier):
    for n in range(p + 1, p + 4 + (tier != "quick")):
        for U in shapes.unclamped_knots(p, n):
            P, W = shapes.points(n), shapes.weights(wk, n)
            tag = f"unclamped p={p} U={[float(x) for x in U]} w={wk}"
            with ctx.at(tag):
                c = spline(U, p, P, W)
                ctx.expect(tuple(c.interval()) == (float(U[p]), float(U[n])), f"{tag} interval", str(c.interval()))
                greville(ctx, c, U, p, tag)
                check(ctx, c, U, p, P, W, shapes.near_knot_params(U, p) + outside(U, p, W), tag)
    for n in range(p + 1, p + 6):
        P, W = shapes.points(n), shapes.weights(wk, n)
        U = tuple([F(0)] * (p + 1) + [F(i) for i in range(1, n - p)] + [F(n - p)] * (p + 1))
        tag = f"default knots p={p} n={n} w={wk}"
        with ctx.at(tag):
            c = spline(None, p, P, W)
            ctx.expect([float(x) for x in c.knots] == [float(x) for x in U], f"{tag} knots", str(list(c.knots)))
            check(ctx, c, U, p, P, W, [float(u) for u in ref.query_params(U, p, 2)] + outside(U, p, W), tag)


def periodic(ctx, p, wk, tier):
    for n in range(p + 1, p + 4 + (tier != "quick")):
        P, W = shapes.points(n), shapes.weights(wk, n)
        PP, WW = P + P[:p], W + W[:p]
        U = tuple(F(i - p) for i in range(n + 2 * p + 1))
        for how in ("constructor", "make_periodic", "given"):
            tag = f"periodic p={p} n={n} w={wk} {how}"
            with ctx.at(tag):
                if how == "given":  # wrapped points and knots, as a copy would give them
                    c = spline(U, p, PP, WW, True)
                else:
                    c = spline(None, p, P, W, how == "constructor")
                if how == "make_periodic":
                    ctx.expect(not c.is_periodic() and not c.periodic, f"{tag} open", "an open spline is periodic")
                    c.evaluate(0.5)
                    c.make_periodic()
                ctx.expect(tuple(c.interval()) == (0.0, float(n)), f"{tag} interval", str(c.interval()))
                ctx.expect(c.periodic and c.is_periodic() and c.is_closed() and not c.is_open(), f"{tag} closed", "a periodic spline is not closed")
                greville(ctx, c, U, p, tag)
                for k in range(-2, 3):
                    for i in range(4 * n):
                        u = F(i, 4)
                        x = float(u + k * n)
                        sig = f"{tag} u={x}"
                        ctx.state(sig)
                        ctx.step(3)
                        with ctx.at(sig):
                            D = exact(U, p, PP, WW, u, 2)
                            s = max(1.0, max(abs(float(t)) for r in D for t in r))
                            ctx.expect(near(c.evaluate(x), D[0]), f"{sig} evaluate", lambda: f"{list(c.evaluate(x))}, exact {[float(t) for t in D[0]]}")
                            ctx.expect(near(c.evaluate_multi(np.array([x]))[0], D[0]), f"{sig} evaluate_multi", "")
                            if k and (u == 0 or u.denominator == 1 and p <= 2):
                                continue  # one-sided derivatives at a knot: the wrapped parameter may be either end
                            if p == 1 and u.denominator == 1:
                                continue
                            ctx.expect(near(c.derivative(x), D[1], s), f"{sig} derivative", lambda: f"{list(c.derivative(x))}, exact {[float(t) for t in D[1]]}")
                            ctx.expect(near(np.asarray(c.derivatives1(x, 1))[1], D[1], s), f"{sig} derivatives1", "")
                            if not (p == 2 and u.denominator == 1):
                                ctx.expect(near(c.second_derivative(x), D[2], s), f"{sig} second_derivative", "")
                c.make_open()
                V = tuple([F(0)] * (p + 1) + [F(i) for i in range(1, n - p)] + [F(n - p)] * (p + 1))
                ctx.expect(not c.periodic and tuple(c.interval()) == (0.0, float(n - p)), f"{tag} opened", f"{c.periodic} {c.interval()}")
                check(ctx, c, V, p, P, W, [float(u) for u in ref.query_params(V, p, 2)], f"{tag} opened", deep=False)
                c.make_open()
                check(ctx, c, V, p, P, W, [float(u) for u in ref.query_params(V, p, 2)], f"{tag} opened twice", deep=False)
    ctx.trace()


def nearly(ctx, p, wk, tier):
    """Points that wrap around already except for one coordinate or weight: still open, made periodic like any other."""
    n = p + 2
    P0, W0 = shapes.points(n), shapes.weights(wk, n)
    for i in range(p):
        for j in range(4):
            P = [tuple(x + 1 if (k, a) == (i, j) else x for a, x in enumerate(q)) for k, q in enumerate(P0)] + list(P0[:p])
            W = [w + 1 if (k, 3) == (i, j) else w for k, w in enumerate(W0)] + list(W0[:p])
            N = n + p
            PP, WW = P + P[:p], W + W[:p]
            U = tuple(F(k - p) for k in range(N + 2 * p + 1))
            for how in ("constructor", "make_periodic"):
                tag = f"nearly periodic p={p} w={wk} point {i} entry {j} {how}"
                with ctx.at(tag):
                    c = spline(None, p, P, W, how == "constructor")
                    if how == "make_periodic":
                        ctx.expect(not c.is_periodic() and not c.periodic, f"{tag} open", "an open spline is periodic")
                        c.make_periodic()
                    ctx.expect(c.periodic and c.is_periodic() and tuple(c.interval()) == (0.0, float(N)), f"{tag} closed", lambda: f"{c.periodic} {c.interval()}")
                    for k in range(-1, 2):
                        for q in range(2 * N):
                            u = F(q, 2)
                            x = float(u + k * N)
                            ctx.state(f"{tag} u={x}")
                            ctx.step()
                            D = exact(U, p, PP, WW, u, 0)
                            ctx.expect(near(c.evaluate(x), D[0]), f"{tag} u={x} evaluate", lambda: f"{list(c.evaluate(x))}, exact {[float(t) for t in D[0]]}")
    ctx.trace()


# --- histories -------------------------------------------------------------------------------------------------

class S:
    """A spline and what it should be."""

    def __init__(self, c, U, p, P, W, per=False):
        self.c, self.U, self.p, self.P, self.W, self.per = c, U, p, P, W, per


def default(n, p):
    return tuple([F(0)] * (p + 1) + [F(i) for i in range(1, n - p)] + [F(n - p)] * (p + 1))


def shifted(n, p):
    """Another clamped vector of the same size on another interval, unevenly spaced."""
    k = n - p - 1
    t, inner = F(-3), []
    for i in range(k):
        t += (F(1, 2), F(2), F(1))[i % 3]
        inner.append(t)
    return tuple([F(-3)] * (p + 1) + inner + [t + F(3, 2)] * (p + 1))


def op_points(s):
    P = [(x + 1, F(2) - y, z * 2) for x, y, z in s.P]
    s.c.control_points = shapes.arr(P)
    s.P, s.W = P, [F(1)] * len(P)


def op_points4(s):
    P = [(y, x, z + 1) for x, y, z in s.P]
    s.W = shapes.weights("last", len(P))
    s.c.control_points = f4(P, s.W)
    s.P = P


def op_planar(s):
    P = [(x, y - 1, F(0)) for x, y, z in s.P]
    s.c.control_points = shapes.arr([q[:2] for q in P])
    s.P, s.W = P, [F(1)] * len(P)


def op_weights(s):
    W = shapes.weights("mix", len(s.P))
    s.c.weights = np.array([float(w) for w in W])
    s.W = W


def op_knots(s):
    U = shifted(len(s.P), s.p)
    a = shapes.knots(U)
    s.c.knots = a
    a += 7  # the caller's array is his own
    s.U = U


def op_degree(s):
    p = 2 if s.p != 2 else 3
    if len(s.P) <= p:
        p = 1
    s.c.degree = p
    s.U = default(len(s.P), p)
    s.c.knots = shapes.knots(s.U)
    s.p = p


def op_degree_last(s):
    p = 2 if s.p != 2 else 3
    if len(s.P) <= p:
        p = 1
    s.U = shifted(len(s.P), p)
    s.c.knots = shapes.knots(s.U)
    s.c.set_degree(p)
    s.p = p


def op_set(s):
    n = len(s.P) + 1
    P, W = [(x - 2, y, z) for x, y, z in shapes.points(n)], shapes.weights("first", n)
    U = shifted(n, s.p)
    a, b = f4(P, W), shapes.knots(U)
    s.c.set(a, b)
    a += 3
    b += 3
    s.U, s.P, s.W = U, P, W


def op_periodic(s):
    s.c.make_periodic()
    if not s.per and not all((s.P[i], s.W[i]) == (s.P[i - s.p], s.W[i - s.p]) for i in range(s.p)):
        n = len(s.P)
        s.P, s.W = s.P + s.P[: s.p], s.W + s.W[: s.p]
        s.U = tuple(F(i - s.p) for i in range(n + 2 * s.p + 1))
        s.per = True


def op_open(s):
    s.c.make_open()
    if s.per:
        n = len(s.P) - s.p
        s.P, s.W, s.per = s.P[:n], s.W[:n], False
        s.U = default(n, s.p)


def op_scribble(s):
    """The caller changes arrays the spline returned."""
    u = float(s.U[s.p])
    for a in (s.c.evaluate(u), s.c.evaluate4d(u), s.c.evaluate_multi(np.array([u])), s.c.derivative(u), s.c(u)):
        a += 11


def op_deepcopy(s):
    s.c = copy.deepcopy(s.c)


def op_copy(s):
    s.c = copy.copy(s.c)


def op_pickle(s):
    s.c = pickle.loads(pickle.dumps(s.c))


OPS = (op_points, op_points4, op_planar, op_weights, op_knots, op_degree, op_degree_last, op_set, op_periodic, op_open, op_scribble, op_deepcopy, op_copy, op_pickle)
NONPER = (op_points, op_points4, op_planar, op_weights, op_knots, op_degree, op_degree_last, op_set)  # would leave a periodic spline inconsistent
PERSAFE = (op_periodic, op_open, op_scribble, op_deepcopy, op_copy, op_pickle)


def look(ctx, s, tag, length=True):
    c, U, p = s.c, s.U, s.p
    n = len(s.P)
    ctx.state((tag,))
    lo, hi = U[p], U[n]
    ctx.expect(c.degree == p and c.get_degree() == p, f"{tag} degree", str(c.degree))
    ctx.expect(tuple(c.interval()) == (float(lo), float(hi)), f"{tag} interval", lambda: f"{c.interval()}, should be {(float(lo), float(hi))}")
    ctx.expect(bool(c.periodic) == s.per, f"{tag} periodic", f"periodic is {c.periodic}")
    ctx.expect(np.array_equal(c.control_points, shapes.arr(s.P)) and np.array_equal(c.weights, [float(w) for w in s.W]), f"{tag} points and weights", lambda: str(np.asarray(c._control_points).tolist()))
    ctx.expect(np.array_equal(c.knots, shapes.knots(U)), f"{tag} knots", lambda: str(list(c.knots)))
    greville(ctx, c, U, p, tag)
    ks = [lo, (lo + hi) / 2, lo + (hi - lo) * 5 / 8, hi]
    for u in ks:
        D = exact(U, p, s.P, s.W, u, 1)
        ctx.step(3)
        for k, v in (("evaluate", c.evaluate(float(u))), ("evaluate_multi", c.evaluate_multi(np.array([float(u)]))[0])):
            ctx.expect(near(v, D[0]), f"{tag} {k} u={float(u)}", lambda: f"{list(v)}, exact {[float(t) for t in D[0]]}")
        ctx.expect(near(c.derivative(float(u)), D[1], max(1.0, max(abs(float(t)) for t in D[1]))), f"{tag} derivative u={float(u)}", "")
    if s.per:
        D = exact(U, p, s.P, s.W, ks[1], 0)
        for k in (-1, 1):
            x = float(ks[1] + k * (hi - lo))
            ctx.expect(near(c.evaluate(x), D[0]), f"{tag} a period away", lambda: f"{list(c.evaluate(x))}, exact {[float(t) for t in D[0]]}")
    if length:
        # the polyline through many exact points bounds the length from below, the sum of control chords from above
        b = (float(lo), float(lo + (hi - lo) / 4))
        fresh = spline(U, p, s.P, s.W)._evaluate_length(b, 1e-3)
        ctx.expect(abs(c.evaluate_length(b) - fresh) <= 1e-6 * (1 + fresh), f"{tag} length", lambda: f"{c.evaluate_length(b)}, of a fresh spline {fresh}")


def run(ctx, start, seq, tag):
    p, n, wk, per = start
    P, W = shapes.points(n), shapes.weights(wk, n)
    if per:
        s = S(spline(None, p, P, W, True), tuple(F(i - p) for i in range(n + 2 * p + 1)), p, P + P[:p], W + W[:p], True)
    else:
        s = S(spline(None, p, P, W), default(n, p), p, P, W)
    with ctx.at(tag):
        look(ctx, s, tag)
        for i, op in enumerate(seq):
            if s.per and op in NONPER:
                break
            before = (s.c, s.U, s.p, s.P, s.W, s.per)
            sig = f"{tag} {'-'.join(o.__name__[3:] for o in seq[: i + 1])}"
            with ctx.at(sig):
                op(s)
                look(ctx, s, sig, length=i == len(seq) - 1)
                if op in (op_deepcopy, op_copy, op_pickle):
                    # the original and the copy do not see each other's edits
                    o = S(*before)
                    W2 = [w * (2 if k % 2 else 1) for k, w in enumerate(o.W)]
                    o.c.weights = np.array([float(w) for w in W2])
                    o.c.knots = np.array([float(2 * x) for x in o.U])
                    look(ctx, s, f"{sig} original edited", length=False)
                    o.c.weights = np.array([float(w) for w in o.W])
                    o.c.knots = np.array([float(x) for x in o.U])
                    s.c.weights = np.array([float(w) for w in W2])
                    look(ctx, o, f"{sig} copy edited", length=False)
                    s.c.weights = np.array([float(w) for w in s.W])
    ctx.trace()


def histories(ctx, start, first, tier):
    depth = 2 if tier == "quick" else 3
    seqs = [s for s in itertools.product(OPS, repeat=depth) if s[0] is first]
    for seq in seqs:
        run(ctx, start, seq, f"history p={start[0]} n={start[1]} w={start[2]}{' periodic' if start[3] else ''}")
    ctx.label(first.__name__)


# --- splits ----------------------------------------------------------------------------------------------------

def splits(ctx, p, wk, tier):
    for U in shapes.open_knots(p, tier, inner=INNER[p]):
        n = len(U) - p - 1
        P, W = shapes.points(n), shapes.weights(wk, n)
        for t in ref.query_params(U, p, 3)[1:-1]:
            if t.denominator & (t.denominator - 1):
                t = F(float(t))
            if t in (U[0], U[-1]):
                continue
            tag = f"split p={p} U={[float(x) for x in U]} w={wk} t={float(t)}"
            ctx.state(tag)
            with ctx.at(tag):
                c = spline(U, p, P, W)
                for name, (a, b) in (("split", c.split(float(t))), ("nurbs_split", nurbs_split(c, float(t)))):
                    for q, lo, hi in ((a, U[0], t), (b, t, U[-1])):
                        ctx.expect(np.allclose(q.interval(), (float(lo), float(hi)), rtol=0, atol=1e-9), f"{tag} {name} interval", str(q.interval()))
                        for k in range(5):
                            u = lo + (hi - lo) * k / 4
                            want = ref.curve_point(U, p, P, W, u)
                            ctx.step()
                            ctx.expect(near(q.evaluate(float(u)), want, tol=1e-8), f"{tag} {name} u={float(u)}", lambda: f"{list(q.evaluate(float(u)))}, exact {[float(x) for x in want]}")
                ctx.expect(near(c.evaluate(float(t)), ref.curve_point(U, p, P, W, t)) and len(c.control_points) == n, f"{tag} original", "the split changed the spline")
    ctx.trace()


# --- kernels ---------------------------------------------------------------------------------------------------

def kernels(ctx, p, wk, tier):
    vectors = list(shapes.open_knots(p, tier, inner=INNER[p]))
    for n in (p + 1, p + 3):
        vectors += list(shapes.unclamped_knots(p, n))
    for U in vectors:
        n = len(U) - p - 1
        P, W = shapes.points(n), shapes.weights(wk, n)
        H = [tuple(x * w for x in q) + (w,) for q, w in zip(P, W)]
        Uf, A = shapes.knots(U), f4(P, W)
        ends = U[0] == U[p] and U[-1] == U[-1 - p]
        first = bspline_first.NURBSCurve(shapes.arr(P), p, Uf)
        tag = f"kernels p={p} U={[float(x) for x in U]} w={wk}"
        with ctx.at(f"{tag} default"):
            plain = bspline_first.NURBSCurve(shapes.arr(P), p)
            D = [0] * (p + 1) + list(range(1, n - p)) + [n - p] * (p + 1)
            ctx.expect(near(np.asarray(plain.knots), D) and tuple(plain.interval()) == (0.0, n - p), f"{tag} bspline_first default knots", lambda: f"{plain.knots}")
            for k in range(2 * (n - p) + 1):
                w = [float(x) for x in ref.curve_point([F(x) for x in D], p, P, [F(1)] * n, F(k, 2))]
                ctx.expect(near(plain.evaluate(k / 2), w), f"{tag} bspline_first default", lambda: f"{list(plain.evaluate(k / 2))} at {k / 2}")
        ctx.expect(tuple(first.interval()) == (float(U[p]), float(U[n])), f"{tag} bspline_first interval", str(first.interval()))
        params = shapes.near_knot_params(U, p)
        many = np.asarray(deboor.evaluate_nurbs_multi(np.array(params), shapes.arr(P), Uf, np.array([float(w) for w in W]), p))
        for i, u in enumerate(params):
            x = F(u)
            sig = f"{tag} u={u!r}"
            ctx.state(sig)
            ctx.step(12)
            with ctx.at(sig):
                k = ref.span(U, p, x)
                N = ref.basis(U, p, x)
                D = exact(U, p, P, W, x, 3)
                Nd = [piece(U, p, x, k, 3, [tuple(F(int(a == b)) for b in range(n)) for a in range(n)])[d] for d in range(4)]
                scale = max(1.0, max(abs(float(t)) for r in D for t in r))
                want = [N.get(k - p + j, F(0)) for j in range(p + 1)]
                for m in (bspline_utils, curve_utils):
                    nm = m.__name__.split(".")[-1]
                    ctx.expect(Uf[m.find_span(p, u, Uf)] <= u <= Uf[m.find_span(p, u, Uf) + 1] and m.find_span(p, u, Uf) == k or u in (float(U[p]), float(U[n])), f"{sig} {nm} find_span", str(m.find_span(p, u, Uf)))
                    s = m.find_span(p, u, Uf)
                    if s != k:
                        continue
                    ctx.expect(near(m.calc_basis_functions(s, u, p, Uf), want), f"{sig} {nm} calc_basis_functions", lambda: f"{list(m.calc_basis_functions(s, u, p, Uf))}, exact {[float(t) for t in want]}")
                    B = m.calc_basis_function_derivatives(s, u, p, min(p, 3), Uf)
                    for d in range(min(p, 3) + 1):
                        w = [Nd[d][k - p + j] for j in range(p + 1)]
                        ctx.expect(near(B[d], w, max(1.0, max(abs(float(t)) for t in w))), f"{sig} {nm} calc_basis_function_derivatives {d}", lambda: str(B[d]))
                    h = tuple(sum((c * H[j][t] for j, c in N.items()), F(0)) for t in range(4))
                    ctx.expect(near(m.calc_b_spline_point(p, Uf, A, u), h), f"{sig} {nm} calc_b_spline_point", lambda: str(m.calc_b_spline_point(p, Uf, A, u)))
                    for d in range(4):
                        R = m.calcNURBSDerivatives(p, Uf, A, u, d)
                        ctx.expect(len(R) == d + 1 and all(near(R[t], D[t], scale) for t in range(d + 1)), f"{sig} {nm} calcNURBSDerivatives {d}",
                                   lambda: f"{[list(r) for r in R]}, exact {[[float(t) for t in r] for r in D[: d + 1]]}")
                if wk in ("one", "two"):
                    s = bspline_first.find_span(n - 1, p, u, Uf)
                    ctx.expect(near(first.evaluate(u), D[0]), f"{sig} bspline_first evaluate", lambda: f"{list(first.evaluate(u))}")
                    if s == k:
                        R = first.derivatives(u, 2)
                        ctx.expect(R.shape == (min(2, p) + 1, 3) and all(near(R[t], D[t], scale) for t in range(min(2, p) + 1)), f"{sig} bspline_first derivatives", lambda: str(R.tolist()))
                        R = np.array(bspline_first.curve_derivs_alg1(n - 1, p, Uf, A, u, 2))
                        ctx.expect(all(near(R[t, :3], D[t], scale) for t in range(min(2, p) + 1)), f"{sig} bspline_first curve_derivs_alg1", lambda: str(R.tolist()))
                if U[p] <= x < U[n] or ends:
                    # (at the end of an unclamped domain the basis functions of the last span are not those of the one before)
                    for j in range(n):
                        v = deboor.deboor(Uf, u, j, p)
                        ctx.expect(abs(v - float(N.get(j, F(0)))) <= 1e-9, f"{sig} deboor {j}", lambda: f"{v}, exact {float(N.get(j, F(0)))}")
                    v = np.asarray(deboor.evaluate_nurbs(u, shapes.arr(P), Uf, np.array([float(w) for w in W]), p))
                    ctx.expect(near(v, D[0]), f"{sig} evaluate_nurbs", lambda: f"{list(v)}, exact {[float(t) for t in D[0]]}")
                    ctx.expect(near(many[i], D[0]), f"{sig} evaluate_nurbs_multi", lambda: f"{list(many[i])}, exact {[float(t) for t in D[0]]}")
    ctx.trace()


def tensor(ctx, p, q, wk, tier):
    for U in shapes.open_knots(p, tier, inner=1):
        for V in shapes.open_knots(q, tier, inner=1):
            n, m = len(U) - p - 1, len(V) - q - 1
            W = shapes.weights(wk, n * m)
            G = [[(F(i), F(j), F((i * i + 2 * j * i + j) % 5), W[i * m + j]) for j in range(m)] for i in range(n)]
            A = np.array([[[float(x) for x in g] for g in r] for r in G])
            keep = A.copy()
            Hm = [[tuple(x * g[3] for x in g[:3]) + (g[3],) for g in r] for r in G]
            for u in ref.query_params(U, p, 2):
                for v in ref.query_params(V, q, 2):
                    sig = f"tensor p={p} q={q} U={[float(x) for x in U]} V={[float(x) for x in V]} w={wk} u={float(u)} v={float(v)}"
                    ctx.state(sig)
                    ctx.step(4)
                    h = ref.surface_hom(U, V, p, q, Hm, u, v)
                    want = [t / h[3] for t in h[:3]]
                    with ctx.at(sig):
                        for mod in (bspline_utils, curve_utils):
                            for f in (mod.calcSurfacePoint, mod.calc_surface_point):
                                x = f(p, q, shapes.knots(U), shapes.knots(V), A, float(u), float(v))
                                ctx.expect(near(x, want), f"{sig} {mod.__name__.split('.')[-1]}.{f.__name__}", lambda: f"{list(x)}, exact {[float(t) for t in want]}")
                                ctx.expect(np.array_equal(A, keep), f"{sig} points", "the control points were changed")
    ctx.trace()


# --- circles ---------------------------------------------------------------------------------------------------

PLANES = {
    "xy": np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]),
    "zx": np.array([[1.0, -2, 3], [0, 0, 1], [1, 0, 0], [0, 1, 0]]),
    "turned": np.array([[0.0, 5, 0], [0.6, 0.8, 0], [-0.8, 0.6, 0], [0, 0, 1]]),
}


def circles(ctx, tier):
    for (pn, pl), o, r in itertools.product(PLANES.items(), ((0.0, 0.0, 0.0), (1.0, -2.0, 0.0), (3.0, 0.5, 2.0)), (1, 0.25, 7.0)):
        tag = f"circle plane={pn} origin={o} radius={r}"
        with ctx.at(tag):
            c = NURBSpline.create_circle(o, r, pl)
            centre = pl[0] + o[0] * pl[1] + o[1] * pl[2] + o[2] * pl[3]
            ctx.expect(np.allclose(c.interval(), (0, 2 * math.pi)), f"{tag} interval", str(c.interval()))
            for i in range(33):
                u = 2 * math.pi * i / 32
                ctx.state((tag, i))
                ctx.step()
                x = np.asarray(c.evaluate(u)) - centre
                ctx.expect(abs(np.linalg.norm(x) - r) <= 1e-9 * (1 + r) and abs(x @ pl[3]) <= 1e-9 * (1 + r), f"{tag} u={u}", lambda: f"{x} from the centre")
                a = math.atan2(x @ pl[2], x @ pl[1]) % (2 * math.pi)
                if i % 8 == 0:
                    ctx.expect(min(abs(a - u % (2 * math.pi)), 2 * math.pi - abs(a - u % (2 * math.pi))) <= 1e-7, f"{tag} quadrant {i // 8}", str(a))
                d = np.asarray(c.derivative(u))
                ctx.expect(abs(d @ x) <= 1e-7 * (1 + r * r) and np.cross(x, d) @ pl[3] > 0, f"{tag} direction u={u}", str(d))
                ctx.expect(abs(np.linalg.norm(c.curvature(u)) - 1 / r) <= 1e-7 / r, f"{tag} curvature u={u}", lambda: str(np.linalg.norm(c.curvature(u))))
            ctx.expect(c.is_closed(), f"{tag} closed", "")
    for o, r in itertools.product(((0.0, 0.0, 0.0), (2.0, -1.0, 0.0)), (1.0, 2.5)):
        tag = f"Circle origin={o} radius={r}"
        with ctx.at(tag):
            c = Circle(r, np.array(o))
            ctx.expect(np.allclose(c.interval(), (0, 2 * math.pi)), f"{tag} interval", str(c.interval()))
            for i in range(17):
                t = 2 * math.pi * i / 16
                ctx.state((tag, i))
                x = np.asarray(c.evaluate(t))
                w = (o[0] + r * math.cos(t), o[1] + r * math.sin(t))
                ctx.expect(np.allclose(x, w, atol=1e-12) and abs(c.implict(x)) <= 1e-9, f"{tag} t={t}", str(x))
                ctx.expect(min(abs(c.fx(x[0] if abs(x[0] - o[0]) < r else o[0]) - (x[1] if abs(x[0] - o[0]) < r else o[1] + r))) <= 1e-6, f"{tag} fx t={t}", "")
                ctx.expect(min(abs(c.fy(x[1] if abs(x[1] - o[1]) < r else o[1]) - (x[0] if abs(x[1] - o[1]) < r else o[0] + r))) <= 1e-6, f"{tag} fy t={t}", "")
            pts = np.asarray(c(np.linspace(0, 2 * math.pi, 9)))
            ctx.expect(pts.shape == (9, 2) and np.allclose(np.linalg.norm(pts - np.array(o[:2]), axis=1), r), f"{tag} call", str(pts))
    ctx.trace()


STARTS = ((3, 5, "one", False), (2, 5, "mix", False), (1, 4, "last", False), (3, 5, "mix", True), (2, 4, "one", True))


def tasks(tier):
    T = []
    kinds = ("one", "two", "mix", "last", "first")
    for p in range(1, 6):
        for wk in kinds if p <= 3 or tier != "quick" else ("one", "mix"):
            T.append((f"clamped p={p} w={wk}", clamped, (p, wk, tier)))
        for wk in ("one", "mix"):
            T.append((f"unclamped p={p} w={wk}", unclamped, (p, wk, tier)))
            T.append((f"periodic p={p} w={wk}", periodic, (p, wk, tier)))
            T.append((f"nearly periodic p={p} w={wk}", nearly, (p, wk, tier)))
            T.append((f"splits p={p} w={wk}", splits, (p, wk, tier)))
            T.append((f"kernels p={p} w={wk}", kernels, (p, wk, tier)))
    for p in range(1, 4):
        for q in range(1, 4):
            T.append((f"tensor p={p} q={q}", tensor, (p, q, "mix", tier)))
    for st in STARTS:
        for op in OPS if not st[3] else PERSAFE:
            T.append((f"histories {st} {op.__name__}", histories, (st, op, tier)))
    T.append(("circles", circles, (tier,)))
    return T
