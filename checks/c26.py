"""C26: closest points and point inversion."""
import itertools
import math
from fractions import Fraction as F

import numpy as np

import poly
from mmcore.geom.nurbs import NURBSCurve, NURBSSurface
from mmcore.geom.surfaces import BiLinear
from mmcore.numeric import closest_point as CP
from mmcore.numeric.algorithms import point_inversion as PI

PID = "C26"
ASSUMPTIONS = [
    "distances are compared to 1e-9; the position along the curve to the tolerance the caller gave",
    "the Newton forms are started where the Newton-Kantorovich condition holds (curves), or within 0.06 of the foot of a perpendicular much shorter than the radii of curvature (surfaces)",
    "closest points on surfaces are asked for on flat rectangles, where a search by quartering is not a heuristic",
]
BOUNDS = {
    "curves": "every Bezier curve of degree 1..3 with control points in small grids, 4 parameter intervals, 10 (thorough 24) points, 3 tolerances; polylines with inner knots; plain callables; lists of points, 1 and 2 processes",
    "of NURBS curves": "the same Bezier curves, and curves of up to 4 spans (uniform, double knots, rational, periodic) with control points in a grid x the same points and points on them, as points on the curve or not, 3 tolerances",
    "near a start": "the same curves, every stationary point inside with a nonzero second derivative, starts to either side",
    "pairs": "every multiset of 2..5 points of a 3x3 grid, of 6 (thorough 7) points of a 3x2 grid, every set of 6..9 points of the 3x3 grid and of 7 (thorough 6..8) points of a 4x4 grid, and every sequence of 4 points of a 3x3 grid",
    "lines": "every pair of grid points as a line or ray, every grid point of a cube",
    "surfaces": "bilinear and biquadratic patches x a grid of feet x heights x starts; rectangles in 6 placements x points on, above, beside and beyond them",
}


def arr(*rows):
    return np.array(rows, dtype=float)


# ---- curves -------------------------------------------------------------------------------------------------------------------

def family(deg, tier):
    grid = [(1, 2, 0), (3, 2, 1), (2, -1, 0), (-1, 1, 2), (4, 0, 0), (0, 0, 1)]
    if tier != "thorough" and deg == 3:
        grid = grid[:5]
    for ps in itertools.product(grid, repeat=deg):
        yield ((0, 0, 0),) + ps


POINTS = [(2, 3, 1), (0, 0, 0), (1, 1, 0), (4, 1, 0), (-2, 0, 1), (3, -2, 0), (1, 2, 0), (2, 0, -1), (6, 6, 6), (0.5, 0.5, 0.25),
          (2, 1, 0), (1, 0, 0), (0, 2, 0), (0, -3, 0), (5, 0, 2), (3, 2, 1), (2, 2, 2), (-1, -1, -1), (2, 1, 0.5), (1.5, 1.5, 1), (0, 4, 0),
          (10, 0, 0), (2.5, 0.75, 0.5), (-1, 1, 2)]
INTERVALS = [(0.0, 1.0), (0.0, 2.25), (-0.5, 0.25), (1.0, 4.0)]


def nurbs(ps, ab):
    p = len(ps) - 1
    return NURBSCurve(arr(*ps), p, np.array([ab[0]] * (p + 1) + [ab[1]] * (p + 1)))


class Exact:
    """The squared distance of a Bezier curve to a point as an exact polynomial of the parameter on [0, 1]."""

    def __init__(self, ps):
        self.ps = ps
        self.xyz = poly.power(ps, [1] * len(ps))[:3]
        self.speed = (len(ps) - 1) * max(math.dist(a, b) for a, b in zip(ps, ps[1:]))

    def at(self, P):
        d = [F(0)]
        for c, x in zip(self.xyz, P):
            c = [c[0] - F(x)] + list(c[1:])
            d = poly.padd(d, poly.pmul(c, c))
        return poly.trim(d)

    @staticmethod
    def valley(g, roots, lo, hi):
        """Is the function with the derivative g falling and then rising on [lo, hi] (either part may be empty)?"""
        rs = [lo] + [r for r in roots if lo < r < hi] + [hi]
        s = [poly.pval(g, (x + y) / 2) > 0 for x, y in zip(rs, rs[1:])]
        return s == sorted(s)


def pieces(ab):
    """The half units an interval is searched by, as parts of [0, 1]."""
    n = int(abs(ab[1] - ab[0]) / 0.5 + 1 - 1e-12)
    a, L = F(ab[0]), F(ab[1]) - F(ab[0])
    cuts = [min(F(i, 2) / L, F(1)) for i in range(n + 1)]
    assert cuts[-1] == 1
    return list(zip(cuts, cuts[1:]))


def judge(ctx, c, ex, ab, P, tol, got, key):
    t, d = float(got[0]), float(got[1])
    L = ab[1] - ab[0]
    f = ex.at(P)
    g = poly.deriv(f)
    val = lambda u: math.sqrt(max(0.0, float(poly.pval(f, u))))
    ctx.expect(ab[0] - 1e-12 <= t <= ab[1] + 1e-12, "outside", lambda: f"closest_point_on_curve: parameter {t} outside {ab} for {key}")
    ctx.expect(abs(val(F((t - ab[0]) / L)) - d) <= 1e-8, "distance", lambda: f"closest_point_on_curve: the point at {t} is not at the distance {d} but {val(F((t - ab[0]) / L))} for {key}")
    ends = min(val(F(0)), val(F(1)))
    ctx.expect(d <= ends + 1e-9, "ends", lambda: f"closest_point_on_curve: {d}, but an end is at {ends} for {key}")
    if not any(g):
        ctx.count("constant distance")
        return
    roots = poly.isolate(g, 0, 1)
    low = min([ends] + [val(r) for r in roots])
    ctx.expect(d >= low - 1e-8, "below", lambda: f"closest_point_on_curve: {d} is less than the least distance {low} for {key}")
    bound, whole = ends, True
    for lo, hi in pieces(ab):
        if ex.valley(g, roots, lo, hi):
            bound = min([bound, val(lo), val(hi)] + [val(r) for r in roots if lo <= r <= hi])
        else:
            whole = False
    ctx.count("one valley in each half unit" if whole else "several valleys in a half unit")
    slack = tol * ex.speed / L + 1e-7
    ctx.expect(d <= bound + slack, "not closest", lambda: f"closest_point_on_curve: {d} at {t}, but there is a point at {bound} for {key}")


def t_curve(ctx, deg, ab, tier):
    for i, ps in enumerate(family(deg, tier)):
        if deg == 3 and tier != "thorough" and i % 4 != INTERVALS.index(ab):
            continue
        c, ex = nurbs(ps, ab), Exact(ps)
        n = 24 if tier == "thorough" else 10
        for j, P in enumerate(POINTS[:n]):
            tol = (1e-3, 1e-6, None)[(i + j) % 3]
            key = (ps, ab, P, tol)
            ctx.state(key)
            with ctx.at("curve"):
                got = CP.closest_point_on_curve(c, np.array(P, float), **({} if tol is None else {"tol": tol}))
                ctx.step()
                judge(ctx, c, ex, ab, P, tol or 1e-3, got, key)
        if i % 7 == 0:
            with ctx.at("curve-many"):
                pts = arr(*POINTS[:n])
                one = [CP.closest_point_on_curve_single(c, p, tol=1e-4) for p in pts]
                ctx.expect(CP.closest_point_on_curve(c, pts, tol=1e-4) == one, "many", lambda: f"closest_point_on_curve of many points differs from single points for {ps} {ab}")
                ctx.expect(CP.closest_point_on_curve(c, pts.tolist(), tol=1e-4) == one, "many", lambda: f"closest_point_on_curve of a list of points differs from single points for {ps} {ab}")

                class Plain:  # a curve is anything with an interval that can be called
                    def interval(self):
                        return ab

                    def __call__(self, t):
                        return np.array(c.evaluate(t))
                ctx.expect(CP.closest_point_on_curve(Plain(), pts, tol=1e-4) == one, "callable", lambda: f"closest_point_on_curve of a callable differs for {ps} {ab}")


def t_global(ctx, deg, ab, tier):
    """closest_point_on_nurbs_curve against the exact least distance of Bezier curves."""
    for i, ps in enumerate(family(deg, tier)):
        if deg == 3 and tier != "thorough" and i % 4 != INTERVALS.index(ab):
            continue
        c, ex = nurbs(ps, ab), Exact(ps)
        for j, P in enumerate(POINTS[:24 if tier == "thorough" else 10]):
            f = ex.at(P)
            g = poly.deriv(f)
            val = lambda u: math.sqrt(max(0.0, float(poly.pval(f, u))))
            low = min([val(F(0)), val(F(1))] + ([val(r) for r in poly.isolate(g, 0, 1)] if any(g) else []))
            tol = (1e-3, 1e-6, None)[(i + j) % 3]
            key = (ps, ab, P, tol)
            ctx.state(key)
            for on in (False, True):
                with ctx.at("nurbs"):
                    ctx.step()
                    ok, (t, d2) = CP.closest_point_on_nurbs_curve(c, np.array(P, float), **({} if tol is None else {"tol": tol}), on_curve=on)
                    global_judge(ctx, c, ab, P, tol or 1e-6, on, ok, t, d2, low, key)


def global_judge(ctx, c, ab, P, tol, on, ok, t, d2, low, key, clear=0.0):
    ctx.expect(ab[0] - 1e-12 <= t <= ab[1] + 1e-12, "nurbs outside", lambda: f"closest_point_on_nurbs_curve: {t} outside {ab} for {key}")
    d = math.dist(np.array(c.evaluate(t)).tolist(), P)
    ctx.expect(abs(d * d - d2) <= 1e-9 * (1 + d * d), "nurbs distance", lambda: f"closest_point_on_nurbs_curve: the squared distance at {t} is {d * d}, not {d2} for {key}")
    ctx.expect(d <= low + tol + 1e-9, "nurbs not closest", lambda: f"closest_point_on_nurbs_curve: {d} at {t}, but there is a point at {low} for {key}")
    if not on:
        ctx.expect(ok is True or bool(ok), "nurbs success", lambda: f"closest_point_on_nurbs_curve fails for {key}")
    elif low > max(2 * tol, clear) or low < tol / 8 and d <= tol:
        ctx.expect(bool(ok) == (low < tol), "nurbs on curve", lambda: f"closest_point_on_nurbs_curve: success {ok} at the distance {low} for {key}")


def t_global_many(ctx, kind, tier):
    """Curves of several spans, rational and periodic ones; the least distance of a fine sample bounds the true one from above."""
    grid = [(1, 2, 0), (3, 2, 1), (2, -1, 0), (4, 0, 0)]
    s = math.sqrt(0.5)
    for i, qs in enumerate(itertools.product(grid, repeat=4)):
        if i % (2 if tier == "thorough" else 7):
            continue
        ps = ((0, 0, 0),) + qs
        if kind == "spans":
            c = NURBSCurve(arr(*ps), 2 + i % 2)
        elif kind == "knots":
            c = NURBSCurve(arr(*ps), 2, np.array([-1.0, -1, -1, 0.5, 0.5, 2, 2, 2]))
        elif kind == "rational":
            c = NURBSCurve(arr(*ps), 2 + i % 2)
            c.weights = np.array([1, s, 1, 3.0, 1])
        else:
            c = NURBSCurve(arr(*ps), 2 + i % 2, periodic=True)
        ab = tuple(map(float, c.interval()))
        ts = np.linspace(*ab, 801)
        X = np.array(c.evaluate_multi(ts))
        on_it = [tuple(X[k].tolist()) for k in (0, 97, 400, 555, 800)]
        for j, P in enumerate(POINTS[:24 if tier == "thorough" else 10] + on_it):
            low = float(np.sqrt(((X - np.array(P, float)) ** 2).sum(1).min()))
            for on in ((False, True) if j < 10 else (True,)):
                tol = (1e-3, 1e-6, 1e-5)[(i + j) % 3]
                key = (kind, i, ps, P, tol, on)
                ctx.state(key)
                with ctx.at("nurbs " + kind):
                    ctx.step()
                    ok, (t, d2) = CP.closest_point_on_nurbs_curve(c, np.array(P, float), tol=tol, on_curve=on)
                    global_judge(ctx, c, ab, P, tol, on, ok, t, d2, low, key, 0.1)


def t_polyline(ctx, tier):
    grid = [(1, 2, 0), (3, 2, 1), (2, -1, 0), (4, 0, 0), (-1, 1, 2)]
    for qs in itertools.product(grid, repeat=3):
        ps = ((0, 0, 0),) + qs
        if any(a == b for a, b in zip(ps, ps[1:])):
            continue
        c = NURBSCurve(arr(*ps), 1, np.array([0., 0, 1, 2, 3, 3]))
        for P in POINTS[:24 if tier == "thorough" else 12]:
            ctx.state((ps, P))
            segs = []
            for a, b in zip(ps, ps[1:]):
                d = [F(y) - F(x) for x, y in zip(a, b)]
                s = sum((F(p) - F(x)) * e for p, x, e in zip(P, a, d)) / sum(e * e for e in d)
                s = min(max(s, F(0)), F(1))
                segs.append(math.sqrt(float(sum((F(x) + s * e - F(p)) ** 2 for p, x, e in zip(P, a, d)))))
            with ctx.at("polyline"):
                t, d = CP.closest_point_on_curve(c, np.array(P, float), tol=1e-7)
                ctx.step()
                ctx.expect(abs(d - min(segs)) <= 1e-5, "polyline", lambda: f"closest_point_on_curve: {d} for the polyline {ps} and {P}, not {min(segs)}")
                ctx.expect(0 <= t <= 3 and abs(math.dist(c.evaluate(t), P) - d) <= 1e-9, "polyline", lambda: f"closest_point_on_curve: {t} is not at {d} for {ps} {P}")


def t_workers(ctx):
    c = nurbs(((0, 0, 0), (1, 2, 0), (3, 0, 1), (4, 1, 0)), (0.0, 2.25))
    pts = arr(*POINTS)
    one = CP.closest_point_on_curve(c, pts)
    for n in (2, 3):
        with ctx.at("workers"):
            ctx.state(n)
            got = CP.closest_point_on_curve(c, pts, workers=n)
            ctx.step()
            ctx.expect(got == one, "workers", lambda: f"closest_point_on_curve with {n} processes: {got} instead of {one}")


def t_near(ctx, deg, ab, tier):
    """Newton's method from a start near a stationary point of the distance."""
    L = ab[1] - ab[0]
    for i, ps in enumerate(family(deg, tier)):
        if deg == 3 and tier != "thorough" and i % 4 != INTERVALS.index(ab):
            continue
        c, ex = nurbs(ps, ab), Exact(ps)
        for P in POINTS[:16 if tier == "thorough" else 8]:
            f = ex.at(P)
            g = [x / 2 for x in poly.deriv(f)]
            if not any(g):
                continue
            g1 = poly.deriv(g)
            g2 = poly.deriv(g1)
            for r in poly.isolate(g, 0, 1):
                if not 0.06 < r < 0.94:
                    continue
                m = abs(float(poly.pval(g1, r)))
                for off in (0.04, -0.02):
                    u0 = r + F(off)
                    k2 = max(abs(float(poly.pval(g2, r + F(s, 100)))) for s in range(-5, 6)) * 1.1
                    m0 = abs(float(poly.pval(g1, u0)))
                    g0 = abs(float(poly.pval(g, u0)))
                    if m < 1e-3 or k2 * g0 > 0.2 * m0 * m0 or abs(off) * m0 > 1.5 * g0:
                        ctx.count("start too far for the theorem")
                        continue
                    t0, t = ab[0] + float(u0) * L, ab[0] + float(r) * L
                    key = (ps, ab, P, t0)
                    ctx.state(key)
                    with ctx.at("near"):
                        got, d = CP.local_closest_point_on_curve(c, t0, np.array(P, float))
                        ctx.step()
                        ctx.expect(abs(got - t) <= 1e-3, "near", lambda: f"local_closest_point_on_curve: {got}, not {t} for {key}")
                        ctx.expect(abs(d - math.dist(c.evaluate(got), P)) <= 1e-9, "near", lambda: f"local_closest_point_on_curve: wrong distance {d} for {key}")
                    for tol1, tol2 in ((1e-9, 1e-12), (1e-3, 1e-12), (1e-12, 1e-4)):
                        with ctx.at("invert"):
                            got = PI.point_inversion_curve(c, np.array(P, float), t0, tol1, tol2)
                            ctx.step()
                            C, D = np.array(c.evaluate(got)), np.array(c.derivative(got))
                            res = np.linalg.norm(C - P)
                            ok = abs(got - t) * np.linalg.norm(D) <= 1.01 * tol1 + 1e-8 or res <= tol1 * 1.01 or abs(D @ (C - P)) <= tol2 * np.linalg.norm(D) * res * 1.01
                            ctx.expect(ok, "invert", lambda: f"point_inversion_curve: {got}, not {t} for {key} {tol1} {tol2}")


# ---- pairs ----------------------------------------------------------------------------------------------------------------------

def t_pairs(ctx, mode, tier):
    grid3 = list(itertools.product((0, 1, 3), (0, 2, 3)))
    grid2 = list(itertools.product((0, 1, 3), (0, 2)))
    if mode == "multisets":
        sets = itertools.chain(*[itertools.combinations_with_replacement(grid3, n) for n in (2, 3, 4, 5)],
                               *[itertools.combinations_with_replacement(grid2, n) for n in ((6, 7) if tier == "thorough" else (6,))],
                               *[itertools.combinations(grid3, n) for n in (6, 7, 8, 9)],
                               *[itertools.combinations(itertools.product((0, 1, 3, 4), (0, 2, 3, 7)), n) for n in ((6, 7, 8) if tier == "thorough" else (7,))])
    else:
        sets = itertools.product(grid3, repeat=4)
    for ps in sets:
        for order in (ps, ps[::-1], ps[1::2] + ps[::2]) if mode == "multisets" else (ps,):
            ctx.step()
            with ctx.at("pairs"):
                given = list(order)
                d, (i, j) = CP.min_distance(given)
                best = min(math.dist(p, q) for p, q in itertools.combinations(order, 2))
                ctx.expect(given == list(order), "pairs", lambda: f"min_distance changes its argument {order}")
                ctx.expect(abs(d - best) <= 1e-12, "pairs", lambda: f"min_distance({order}) is {d}, not {best}")
                ctx.expect(i != j and 0 <= min(i, j) and abs(math.dist(order[i], order[j]) - d) <= 1e-12, "pairs", lambda: f"min_distance({order}): points {i} and {j} are not at {d}")
        ctx.state(ps)


# ---- lines ------------------------------------------------------------------------------------------------------------------------

def t_lines(ctx):
    grid = list(itertools.product((-1, 0, 2), (0, 1), (-1.5, 0)))
    cube = list(itertools.product((-2, 0.5, 3), (-1, 0, 2), (0, 1)))
    for a, b in itertools.permutations(grid, 2):
        d = [F(y) - F(x) for x, y in zip(a, b)]
        for P in cube:
            ctx.state((a, b, P))
            s = sum((F(p) - F(x)) * e for p, x, e in zip(P, a, d)) / sum(e * e for e in d)
            want = [float(F(x) + s * e) for x, e in zip(a, d)]
            with ctx.at("lines"):
                A, B, Q = np.array(a, float), np.array(b, float), np.array(P, float)
                got = CP.closest_point_on_line((A, B), Q)
                ctx.expect(np.allclose(got, want, atol=1e-12), "line", lambda: f"closest_point_on_line({a}, {b}; {P}) = {got}, not {want}")
                if s >= 0:
                    got = CP.closest_point_on_ray((A, B - A), Q)
                    ctx.expect(np.allclose(got, want, atol=1e-12), "ray", lambda: f"closest_point_on_ray({a}, {b}; {P}) = {got}, not {want}")
                ctx.step(2)
                ctx.expect((A == a).all() and (B == b).all() and (Q == P).all(), "line", lambda: "closest_point_on_line changes its arguments")


# ---- surfaces ---------------------------------------------------------------------------------------------------------------------

def patches(tier):
    for d in itertools.product((0, 1, -0.5), repeat=2 if tier != "thorough" else 3):
        d = (d + (0.5,))[:3]
        yield "bilinear", BiLinear(*arr((0, 0, 0), (4, 0, d[0]), (4 + d[2], 3, d[1]), (0, 3, d[2])))
    for h in itertools.product((0, 0.5), repeat=3 if tier != "thorough" else 4):
        h = (h + (0.25,))[:4]
        z = [[0, h[0], 0], [h[1], h[2], 0.25], [0, h[3], h[0]]]
        yield "biquadratic", NURBSSurface(np.array([[[2 * i, 1.5 * j, z[i][j], 1.] for j in range(3)] for i in range(3)]), (2, 2))


def t_invert(ctx, kind, tier):
    for n, (name, s) in enumerate(patches(tier)):
        if name != kind:
            continue
        batch, starts = [], []
        for u, v in itertools.product((0.25, 0.5, 0.75), (0.3, 0.6)):
            q = np.array([u, v])
            S, du, dv = (np.array(x) for x in (s.evaluate(q), s.derivative_u(q), s.derivative_v(q)))
            N = np.cross(du, dv)
            N /= np.linalg.norm(N)
            for h in (0.0, 0.4, -0.25):
                P = S + h * N
                batch.append((q, P))
                for o in ((0.06, -0.04), (-0.05, -0.05)):
                    u0, v0 = u + o[0], v + o[1]
                    key = (kind, n, u, v, h, o)
                    ctx.state(key)
                    scale = np.linalg.norm(du) + np.linalg.norm(dv)
                    for tol1, tol2 in ((1e-6, 1e-12), (1e-3, 1e-12), (1e-12, 1e-3)):
                        with ctx.at("invert-surface"):
                            got = PI.point_inversion_surface(s, P, u0, v0, tol1, tol2)
                            ctx.step()
                            # The guess handed back is the one from which the iteration converged in one more step (a
                            # recorded finding, see t_previous): that step is taken here before the foot is judged.
                            judge_foot(ctx, s, gauss_newton(s, got, P), q, P, tol1, tol2, scale, "point_inversion_surface", key)
                            ctx.expect(np.linalg.norm(got - q) <= np.hypot(*o) * 1.001, "point_inversion_surface", lambda: f"point_inversion_surface moves away from the foot: {got} for {key}")
                    with ctx.at("foot"):
                        p, a, b = CP.foot_point(s.evaluate, P, u0, v0)
                        ctx.step()
                        ctx.expect(np.linalg.norm([a - u, b - v]) * scale <= 1e-4, "foot", lambda: f"foot_point: {a, b}, not {q} for {key}")
                        ctx.expect(np.allclose(p, s.evaluate(np.array([a, b])), atol=1e-12), "foot", lambda: f"foot_point: {p} is not the point at {a, b} for {key}")
                        if h == 0.4 and o[0] > 0:
                            p, a, b = CP.foot_point(s.evaluate, P, u0, v0, partial_derivatives=lambda x: (np.array(s.derivative_u(x)), np.array(s.derivative_v(x))))
                            ctx.expect(np.linalg.norm([a - u, b - v]) * scale <= 1e-4, "foot", lambda: f"foot_point with given derivatives: {a, b}, not {q} for {key}")
        if kind == "bilinear":
            for tol1, tol2 in ((1e-6, 1e-12), (1e-3, 1e-12), (1e-12, 1e-3)):
                for part in (batch[:6], batch[6:12], batch[12:], batch[::2]):
                    with ctx.at("invert-many"):
                        u0, v0 = np.mean([q for q, _ in part], axis=0)
                        pts = np.array([P for _, P in part])
                        given = pts.copy()
                        got = PI.points_inversion_surface(s, pts, u0, v0, tol1, tol2)
                        ctx.step()
                        ctx.expect((pts == given).all(), "invert-many", lambda: "points_inversion_surface changes its argument")
                        ctx.expect(np.shape(got) == (len(part), 2), "invert-many", lambda: f"points_inversion_surface returns an array of shape {np.shape(got)}")
                        for (q, P), g in zip(part, got):
                            judge_foot(ctx, s, g, q, P, tol1, tol2, 7, "points_inversion_surface", (kind, n, tuple(q), tuple(P), u0, v0))


def gauss_newton(s, uv, P):
    uv = np.array(uv, dtype=float)
    J = np.stack([np.array(s.derivative_u(uv)), np.array(s.derivative_v(uv))], axis=1)
    return uv - np.linalg.solve(J.T @ J, J.T @ (np.array(s.evaluate(uv)) - P))


def t_previous(ctx):
    """The one history recorded as a finding: the result of a loose search is the start of its last step, not its end."""
    s = BiLinear(*arr((0, 0, 0), (4, 0, 0), (4, 3, 1), (0, 3, 0)))
    q = np.array([0.5, 0.5])
    got = PI.point_inversion_surface(s, np.array(s.evaluate(q)), 0.45, 0.45, 1e-1, 1e-12)
    ctx.step()
    ctx.state("start")
    ctx.expect(np.linalg.norm(np.array(s.evaluate(got)) - s.evaluate(q)) <= 0.1, "point_inversion_surface returns the start", f"point_inversion_surface: {got}")


def judge_foot(ctx, s, got, q, P, tol1, tol2, scale, what, key):
    got = np.array(got, dtype=float)
    C, du, dv = (np.array(x) for x in (s.evaluate(got), s.derivative_u(got), s.derivative_v(got)))
    r = C - P
    d = np.linalg.norm(r)
    ok = (np.linalg.norm(got - q) * scale <= 2 * tol1 + 1e-6 or d <= tol1 * 1.01
          or all(abs(x @ r) <= (tol2 * 1.01 + 1e-9) * np.linalg.norm(x) * d for x in (du, dv)))
    ctx.expect(ok, what, lambda: f"{what}: {got}, not {q} for {key}, tolerances {tol1} {tol2}")


FRAMES = [((1, 0, 0), (0, 1, 0)), ((0, 1, 0), (0, 0, 1)), ((0, 0, -1), (1, 0, 0)),
          ((0.6, 0.8, 0), (-0.8, 0.6, 0)), ((0.6, 0.8, 0), (0, 0, 1)), ((1 / 3, 2 / 3, 2 / 3), (2 / 3, 1 / 3, -2 / 3))]


def t_rect(ctx, k, tier):
    X, Y = (np.array(x, float) for x in FRAMES[k])
    Z = np.cross(X, Y)
    straight = k < 3
    for a, b in ((4, 3), (1, 2)):
        O = np.array([0.5, -1, 2])
        s = BiLinear(O, O + a * X, O + a * X + b * Y, O + b * Y)
        us, vs = (-0.5, -0.01, 0.0, 0.15, 0.5, 0.7, 1.0, 1.3), (-0.2, 0.0, 0.34, 0.5, 0.9, 1.1)
        if tier == "thorough":
            us, vs = us + (0.33, 0.999, 1.001), vs + (0.05, 0.66, 1.0)
        near, far, beside = [], [], []
        for u, v, h in itertools.product(us, vs, (0, 0.05, 1, -9)):
            want = np.array([min(max(u, 0), 1), min(max(v, 0), 1)])
            inside = 0 <= u <= 1 and 0 <= v <= 1
            item = (O + u * a * X + v * b * Y + h * Z, want)
            (near if inside and h == 0 else far if h == -9 else beside).append(item)
        for P, want in near + far + beside:
            ctx.state((k, a, tuple(P)))
            with ctx.at("rect"):
                got = CP.closest_point_on_surface(s, P, tol=1e-6)
                ctx.step()
                ctx.expect(np.abs(got - want).max() <= 1e-4, "rect", lambda: f"closest_point_on_surface: {got}, not {want} for the rectangle {k} {a}x{b} and {P}")
        for group in (near, far, beside, near[::3] + far[::3] + beside[::4]):
            pts, want = np.array([x for x, _ in group]), np.array([x for _, x in group])
            with ctx.at("rect-batch"):
                got = CP.closest_point_on_surface_batched(s, pts, tol=1e-5)
                ctx.step()
                ctx.expect(got.shape == want.shape and np.abs(got - want).max() <= 2e-5, "rect-batch", lambda: f"closest_point_on_surface_batched: off by {np.abs(got - want).max()} at {pts[np.abs(got - want).max(axis=1).argmax()]} for the rectangle {k} {a}x{b}")
        for group in (near, far, beside) if straight else (near, far):
            pts, want = np.array([x for x, _ in group]), np.array([x for _, x in group])
            with ctx.at("rect-many"):
                got = CP.closest_points_on_surface(s, pts, tol=1e-5)
                ctx.step()
                ctx.expect(got.shape == want.shape and np.abs(got - want).max() <= 2e-5, "rect-many", lambda: f"closest_points_on_surface: off by {np.abs(got - want).max()} at {pts[np.abs(got - want).max(axis=1).argmax()]} for the rectangle {k} {a}x{b}")


def tasks(tier):
    out = [(f"curve-{deg}-{i}", t_curve, (deg, ab, tier)) for deg in (1, 2, 3) for i, ab in enumerate(INTERVALS)]
    out += [(f"near-{deg}-{i}", t_near, (deg, ab, tier)) for deg in (1, 2, 3) for i, ab in enumerate(INTERVALS)]
    out += [(f"nurbs-{deg}-{i}", t_global, (deg, ab, tier)) for deg in (1, 2, 3) for i, ab in enumerate(INTERVALS)]
    out += [(f"nurbs-{k}", t_global_many, (k, tier)) for k in ("spans", "knots", "rational", "periodic")]
    out += [("polyline", t_polyline, (tier,)), ("workers", t_workers, ()), ("lines", t_lines, ()), ("previous", t_previous, ())]
    out += [(f"pairs-{m}", t_pairs, (m, tier)) for m in ("multisets", "sequences")]
    out += [(f"invert-{k}", t_invert, (k, tier)) for k in ("bilinear", "biquadratic")]
    out += [(f"rect-{k}", t_rect, (k, tier)) for k in range(len(FRAMES))]
    return out
