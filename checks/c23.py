"""C23: curves and surfaces given by Python functions have the derivatives, frames, lengths and parts of those functions."""
import itertools
import math

import numpy as np
from scipy.interpolate import interp1d

from mmcore.geom import surfaces as S
from mmcore.geom.curves.cubic import CubicSpline, PyCubicSpline
from mmcore.geom.curves.curve import (ArcLengthParameterization, Curve, CurveWrapper, ReparametrizedCurve, TrimmedCurve, length_evaluator,
                                      parametric_curve)
from mmcore.geom.curves.offset import OffsetCurve
from mmcore.numeric.integrate.romberg import romberg1d
from mmcore.numeric.numeric import evaluate_length, evaluate_length_vec, evaluate_parameter_from_length

PID = "C23"
ASSUMPTIONS = [
    "numerical derivatives use a step of 1e-3: a cubic has its first derivative to h^2 |f'''|, its second to 3h |f'''| at the ends of the interval",
    "lengths are asked for to 10 times the tolerance given, on curves whose speed stays above a fifth of its maximum; parameters at a length are read off a table of 100 pieces and are asked for to twice the error of its linear interpolation",
]
BOUNDS = {
    "curves": "108 polynomial curves of degree at most 3 x 5 intervals x 7 to 9 parameters including both ends, in 3-D, and 54 in 2-D, circles; every point asked of the function lies in the interval",
    "trim": "every two cuts of a grid of 5 parameters of 6 curves, moved to every other cut",
    "arithmetic": "4 operations x vectors, numbers, functions and curves on other intervals",
    "lengths": "every pair of bounds of a grid of 5 parameters x tolerances 1e-2, 1e-3, 1e-6 x 20 curves, intervals up to 11 long; every start and length of a grid",
    "romberg": "every polynomial of degree at most 5 with coefficients -1..1 x 4 intervals",
    "parametrisations": "piecewise linear maps of 3 shapes and arc length x 12 curves",
    "offset": "6 distances, changed in place, x 12 curves",
    "cubic splines": "81 control polygons, in both implementations, at 7 parameters",
    "surfaces": "12 biquadratic surfaces x 2 domains x a 3x3 grid: derivatives, normals, planes, isocurves, curves on the surface",
    "bilinear, ruled, Coons": "27 quadrilaterals; 36 pairs of curves on several intervals; 27 quadruples of curves",
}
H = 1e-3


def close(a, b, tol):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def A(v):
    return np.array(v, dtype=float)


# ---- curves -----------------------------------------------------------------------------------------------------------------

class Poly:
    """A polynomial curve with its exact derivatives; outside [lo, hi] it raises."""

    def __init__(self, cs, lo=None, hi=None):
        self.cs = [A(c) for c in cs]
        self.lo, self.hi = lo, hi

    def __call__(self, t):
        if self.lo is not None and not self.lo - 1e-12 <= t <= self.hi + 1e-12:
            raise AssertionError(f"evaluated at {t}, outside [{self.lo}, {self.hi}]")
        return self.d(t, 0)

    def d(self, t, k):
        r = np.zeros(len(self.cs[0]))
        for i in range(len(self.cs) - 1, k - 1, -1):
            r = r * t + self.cs[i] * math.perm(i, k)
        return r

    def third(self):
        return float(np.abs(self.cs[3]).max() * 6)

    def speed(self, t):
        return np.linalg.norm(sum(i * c[:, None] * np.asarray(t) ** (i - 1) for i, c in enumerate(self.cs) if i), axis=0)

    def length(self, a, b):
        x, w = GAUSS
        edges = np.linspace(a, b, 17)
        mid, half = (edges[1:] + edges[:-1]) / 2, (edges[1:] - edges[:-1]) / 2
        t = (mid[:, None] + half[:, None] * x).ravel()
        return float((self.speed(t) * (half[:, None] * w).ravel()).sum())


GAUSS = np.polynomial.legendre.leggauss(16)
P0 = [(0, 0, 0), (1, -2, 3)]
P1 = [(1, 0, 0), (1, 2, -1), (0, 1, 0)]
P2 = [(0, 0, 0), (0, 1, 0), (1, -1, 2)]
P3 = [(0, 0, 0), (0, 0, 1), (1, 0, -2), (-0.5, 0.25, 0)]
CURVES = list(itertools.product(P0, P1, P2, P3))
INTERVALS = [(0.0, 1.0), (-1.0, 2.0), (2.0, 2.5), (0.0, 6.0), (-3.0, -2.875)]


def wrap(f, lo, hi):
    c = CurveWrapper(f)
    c.set_interval((lo, hi))
    return c


def frame(d1, d2):
    """unit tangent, curvature vector and principal normal, or None where they are not well defined."""
    m = np.linalg.norm(d1)
    perp = d2 - d1 * (d1 @ d2) / (m * m)
    return d1 / m, perp / (m * m), perp / np.linalg.norm(perp)


def check_curve(ctx, sig, crv, f, lo, hi, tol1=1e-5, tol2=1e-4, deep=True):
    """crv is the curve of f on [lo, hi] (f has exact derivatives)."""
    third = f.third()
    ends = [lo, hi] + ([lo + H / 2, hi - H / 2] if hi - lo > 0.2 else [])
    inner = [lo + (hi - lo) * k for k in (0.25, 0.5, 0.8125)] + [lo + 3 * H, hi - 3 * H]
    big = 1 + max(np.abs(f.d(t, 0)).max() for t in ends)
    with ctx.at(sig):
        ctx.expect(tuple(float(x) for x in crv.interval()) == (lo, hi), sig, f"interval {crv.interval()}, want {lo, hi}")
    for t in ends + inner:
        s = f"{sig} t={t}"
        ctx.state((sig, t))
        with ctx.at(s):
            p, d1, d2 = f.d(t, 0), f.d(t, 1), f.d(t, 2)
            ctx.expect(close(crv.evaluate(t), p, 1e-12 * big), s, "evaluate")
            size = 1 + np.abs(d1).max()
            ctx.expect(close(crv.derivative(t), d1, tol1 * size + H * H * third), s, lambda: f"derivative {crv.derivative(t)}, want {d1}")
            # towards the ends the second derivative is the one two steps inside
            off = 3 * H * third if t in ends else 0.0
            ctx.expect(close(crv.second_derivative(t), d2, tol2 * size + off), s, lambda: f"second derivative {crv.second_derivative(t)}, want {d2}")
            m = np.linalg.norm(d1)
            if m < 0.3:
                continue
            err = 10 * (tol2 + off) * size / min(m, 1)
            T, K, N = frame(d1, d2) if np.linalg.norm(d2 - d1 * (d1 @ d2) / (m * m)) > 0.3 else (d1 / m, None, None)
            ctx.expect(close(crv.tangent(t), T, err), s, lambda: f"tangent {crv.tangent(t)}, want {T}")
            if N is None or t in ends:
                continue
            k = np.linalg.norm(K)
            ctx.expect(close(crv.curvature(t), K, err * (1 + k)), s, lambda: f"curvature {crv.curvature(t)}, want {K}")
            nerr = err * 10 / (k * m * m)
            ctx.expect(close(crv.normal(t), N, nerr), s, lambda: f"normal {crv.normal(t)}, want {N}")
            if len(p) == 3 and deep:
                B = np.cross(T, N)
                plane = A([p, T, N, B])
                ctx.expect(close(crv.plane_at(t), plane, nerr), s, lambda: f"plane {crv.plane_at(t)}, want {plane}")
                o, r, pl = crv.circle_of_curvature(t)
                ctx.expect(close(o, p, 1e-12 * big) and abs(r - 1 / k) <= nerr / k * 4 and close(pl, [p + N / k, T, N, B], nerr * (1 + 4 / k)), s,
                           lambda: f"circle of curvature {o, r, pl}, want radius {1 / k}")
        ctx.step()
    with ctx.at(sig):
        ts = np.array(ends + inner)
        want = np.array([f.d(t, 0) for t in ts])
        ctx.expect(close(crv(ts), want, 1e-12 * big) and close(crv.evaluate_multi(ts), want, 1e-12 * big), sig, "many parameters at a time")


def check_parts(ctx, sig, crv, f, lo, hi):
    big = 1 + max(np.abs(f.d(t, 0)).max() for t in (lo, hi))
    with ctx.at(sig):
        for n in (2, 7):
            ctx.expect(close(crv.points(n), [f.d(t, 0) for t in np.linspace(lo, hi, n)], 1e-12 * big), sig, f"points({n})")
        mid = lo + 0.375 * (hi - lo)
        ctx.expect(abs(crv.normalize_param(mid) - 0.375) < 1e-12, sig, "normalize_param")
        ctx.expect(abs(crv.remap_param(0.375) - mid) < 1e-12 and abs(crv.remap_param(4.0, (2.0, 6.0)) - (lo + hi) / 2) < 1e-12, sig, "remap_param")
        if len(f.cs[0]) == 3:
            ts = np.array([lo + 0.25 * (hi - lo), mid])
            pl = np.array([crv.plane_at(t) for t in ts])
            if np.all(np.isfinite(pl)):
                ctx.expect(np.array_equal(crv.planes_at(ts), pl), sig, "planes_at")


def t_poly(ctx, cs):
    for lo, hi in INTERVALS:
        f = Poly(cs, lo, hi)
        sig = f"polynomial {cs} on {lo, hi}"
        if hi - lo > 1:
            crv = wrap(f, lo, hi)
        else:
            crv = parametric_curve((lo, hi))(f)
        check_curve(ctx, sig, crv, f, lo, hi)
        check_parts(ctx, sig, crv, f, lo, hi)
        if cs[0] == P0[0]:
            c2 = [c[:2] for c in cs]
            f2 = Poly(c2, lo, hi)
            check_curve(ctx, sig + " in the plane", wrap(f2, lo, hi), f2, lo, hi)


def t_trim(ctx, cs, lo, hi):
    f = Poly(cs, lo, hi)
    grid = [lo + (hi - lo) * k / 4 for k in range(5)]
    crv = wrap(f, lo, hi)
    for a, b in itertools.combinations(grid, 2):
        sig = f"polynomial {cs} on {lo, hi} trimmed to {a, b}"
        ctx.state(sig)
        with ctx.at(sig):
            tr = TrimmedCurve(crv, a, b)
            check_curve(ctx, sig, tr, f, a, b, deep=False)
            check_parts(ctx, sig, tr, f, a, b)
            L = f.length(a, b)
            ctx.expect(abs(tr.evaluate_length((a, b), 1e-6) - L) <= 1e-5 * (1 + L), sig, "length of the part")
            for c in grid:
                if c < b:
                    tr.start = c
                    ctx.expect(tr.interval() == (c, b) and tr.start == c and tr.end == b, sig, f"start moved to {c}: {tr.interval()}")
                    ctx.expect(close(tr.points(3), [f.d(t, 0) for t in np.linspace(c, b, 3)], 1e-9), sig, f"points after the start moved to {c}")
            tr.start = a
            for c in grid:
                if c > a:
                    tr.end = c
                    ctx.expect(tr.interval() == (a, c) and tr.start == a and tr.end == c, sig, f"end moved to {c}: {tr.interval()}")
                    ctx.expect(close(tr.points(3), [f.d(t, 0) for t in np.linspace(a, c, 3)], 1e-9), sig, f"points after the end moved to {c}")
        ctx.step()
    for t in grid[1:4]:
        sig = f"polynomial {cs} on {lo, hi} split at {t}"
        with ctx.at(sig):
            one, two = crv.split(t)
            ctx.expect(one.interval() == (lo, t) and two.interval() == (t, hi), sig, "intervals of the halves")
            ctx.expect(close(one.evaluate(t), two.evaluate(t), 0) and close(one.evaluate(t), f.d(t, 0), 1e-9), sig, "the halves meet")
            ctx.expect(TrimmedCurve(crv).interval() == (lo, hi) and TrimmedCurve(crv, end=t).interval() == (lo, t), sig, "default cuts")
            again = two.split((t + hi) / 2)[0]
            ctx.expect(again.interval() == (t, (t + hi) / 2), sig, "split of a part")
            check_curve(ctx, sig + " twice", again, f, t, (t + hi) / 2, deep=False)
            ext = wrap(Poly(cs), lo, hi)
            ext.extend(0.5, 0.25)
            ctx.expect(tuple(ext.interval()) == (lo - 0.5, hi + 0.25), sig, "extend")
        ctx.step()


def t_arithmetic(ctx, i, j):
    fcs, gcs = CURVES[i], CURVES[j]
    for (lo, hi), (lo2, hi2) in (((0.0, 1.0), (0.0, 1.0)), ((-1.0, 2.0), (0.0, 6.0)), ((0.0, 6.0), (2.0, 2.5)), ((2.0, 2.5), (0.0, 6.0))):
        f, g = Poly(fcs, lo, hi), Poly(gcs, lo2, hi2)
        a, b = wrap(f, lo, hi), wrap(g, lo2, hi2)
        v = A((1.0, -2.0, 4.0))
        sig = f"{fcs} on {lo, hi} with {gcs} on {lo2, hi2}"
        ctx.state(sig)
        add = [A(x) + A(y) for x, y in zip(fcs, gcs)]
        sub = [A(x) - A(y) for x, y in zip(fcs, gcs)]
        both = (max(lo, lo2), min(hi, hi2))
        free = Poly(gcs)
        cases = [("+ vector", a + v, [A(fcs[0]) + v] + [A(c) for c in fcs[1:]], (lo, hi)), ("- vector", a - v, [A(fcs[0]) - v] + [A(c) for c in fcs[1:]], (lo, hi)),
                 ("* number", a * 3.0, [3 * A(c) for c in fcs], (lo, hi)), ("/ number", a / 2, [A(c) / 2 for c in fcs], (lo, hi)),
                 ("* vector", a * v, [v * A(c) for c in fcs], (lo, hi)), ("+ curve", a + b, add, both), ("- curve", a - b, sub, both),
                 ("+ function", a + (lambda t: free.d(t, 0)), add, (lo, hi)), ("- function", a - (lambda t: free.d(t, 0)), sub, (lo, hi)),
                 ("(+ curve) * number", (a + b) * 2.0, [2 * c for c in add], both), ("+ curve - curve", (a + b) - b, [A(c) for c in fcs], both)]
        for name, crv, cs, (x, y) in cases:
            check_curve(ctx, f"{sig} {name}", crv, Poly(cs), x, y, deep=False, tol2=2e-4)
        for t in (both[0], sum(both) / 2, both[1]):
            with ctx.at(sig):
                ctx.expect(close((a * b).evaluate(t), f.d(t, 0) * g.d(t, 0), 1e-9 * 1e3), sig, "product of curves")
                ctx.expect(close((a * b).evaluate(t), f.d(t, 0) * g.d(t, 0), 1e-12 * (1 + np.abs(f.d(t, 0) * g.d(t, 0)).max())), sig, "product of curves")
                den = (b * b + A((1.0, 1.0, 1.0)))
                ctx.expect(close((a / den).evaluate(t), f.d(t, 0) / (g.d(t, 0) ** 2 + 1), 1e-9), sig, "quotient of curves")


# ---- lengths ----------------------------------------------------------------------------------------------------------------

def regular(f, lo, hi):
    s = f.speed(np.linspace(lo, hi, 200))
    return s.min() > 0.2 * s.max()


def length_curves():
    out = []
    for cs in CURVES:
        if cs[0] != P0[0]:
            continue
        for lo, hi in ((0.0, 1.0), (-1.0, 2.0), (0.25, 5.125), (-3.0, 7.75), (-0.5, 4.0)):
            if regular(Poly(cs), lo, hi):
                out.append((cs, lo, hi))
    return out


def t_length(ctx, cs, lo, hi):
    f = Poly(cs, lo, hi)
    grid = [lo + (hi - lo) * k / 4 for k in range(5)]
    for tol in (1e-2, 1e-3, 1e-6):
        crv = wrap(f, lo, hi)
        for a, b in itertools.combinations(grid, 2):
            sig = f"polynomial {cs} length from {a} to {b} tol={tol}"
            ctx.state(sig)
            L = f.length(a, b)
            with ctx.at(sig):
                for _ in range(2):
                    l = crv.evaluate_length((a, b), tol) if tol != 1e-3 else crv.evaluate_length((a, b))
                    ctx.expect(abs(l - L) <= 10 * tol + 1e-6 * (1 + L), sig, f"{l}, it is {L}")
                l = evaluate_length(lambda t: f.d(t, 1), a, b, tol=tol)[0]
                ctx.expect(abs(l - L) <= 10 * tol * max(1, (b - a)) + 1e-6 * (1 + L), sig, f"evaluate_length: {l}, it is {L}")
            ctx.step()
    with ctx.at(f"polynomial {cs} on {lo, hi}"):
        got = evaluate_length_vec(lambda t: f.d(t, 1), A(grid[:-1]), A(grid[1:]))[0]
        ctx.expect(close(got, [f.length(a, b) for a, b in zip(grid, grid[1:])], 0.1), f"polynomial {cs}", "evaluate_length_vec")


def t_inverse(ctx, cs, lo, hi):
    f = Poly(cs, lo, hi)
    crv = wrap(f, lo, hi)
    L = f.length(lo, hi)
    ts = np.linspace(lo, hi, 991)
    s = f.speed(ts)
    ds = s * (hi - lo) / 99
    err = 2 * float((ds ** 2 / 8 * np.abs(np.gradient(s, ts)) / s ** 2).max()) + 1e-4 * (1 + L)
    for t0 in (None, lo, lo + 0.25 * (hi - lo), lo + 0.7 * (hi - lo)):
        start = lo if t0 is None else t0
        rest = f.length(start, hi)
        for part in (0.0, 0.125, 0.5, 0.96):
            sig = f"polynomial {cs} on {lo, hi} length {part} of the rest from {t0}"
            ctx.state(sig)
            with ctx.at(sig):
                for tol in (1e-9, 1e-6):
                    t = float(crv.evaluate_parameter_at_length(part * rest, t0=t0, **({} if tol == 1e-9 else {"tol": tol})))
                    ctx.expect(abs(f.length(start, t) - part * rest) <= err, sig, lambda: f"parameter {t} is at {f.length(start, t)}, not {part * rest}")
                if t0 is None:
                    ctx.expect(close(crv.length_at(part * L), f.d(float(crv.evaluate_parameter_at_length(part * L)), 0), 1e-9), sig, "length_at")
                if part:
                    for kw in ({}, {"t1_limit": hi}):
                        # Newton's method may try parameters past the end
                        t = evaluate_parameter_from_length(lambda t: f.d(t, 1), part * rest, start, **kw)
                        ctx.expect(abs(f.length(start, t) - part * rest) <= 1e-5 * (1 + L), sig, lambda: f"from_length {t} is at {f.length(start, t)}, not {part * rest}")
            ctx.step()
    # the table follows the interval
    sig = f"polynomial {cs} on {lo, hi} with its interval changed"
    with ctx.at(sig):
        mid = (lo + hi) / 2
        crv.set_interval((mid, hi))
        t = float(crv.evaluate_parameter_at_length(0.5 * f.length(mid, hi)))
        ctx.expect(abs(f.length(mid, t) - 0.5 * f.length(mid, hi)) <= err, sig, f"parameter {t}")
        t = float(length_evaluator(crv, 1e-6)(0.25 * f.length(mid, hi)))
        ctx.expect(abs(f.length(mid, t) - 0.25 * f.length(mid, hi)) <= err, sig, f"length_evaluator {t}")


def t_romberg(ctx, c5):
    for cs in itertools.product((-1, 0, 1), repeat=5):
        cs = cs + (c5,)
        p = np.polynomial.Polynomial(cs)
        q = p.integ()
        sig = f"polynomial {cs}"
        ctx.state(cs)
        with ctx.at(sig):
            for a, b in ((0.0, 1.0), (-1.0, 2.0), (1.0, 0.25), (-0.5, -0.5)):
                want = q(b) - q(a)
                ctx.expect(abs(romberg1d(p, a, b) - want) < 1e-5, sig, f"from {a} to {b}: {romberg1d(p, a, b)}, want {want}")
                got = romberg1d(p, a, b, 20, 1e-10)
                ctx.expect(abs(got - want) < 1e-9, sig, f"from {a} to {b}: {got}, want {want}")
        ctx.step()


# ---- parametrisations, offsets ----------------------------------------------------------------------------------------------

KNOTS = [([0.0, 1.0], [0.0, 1.0]), ([0.0, 0.5, 2.0], [0.0, 0.25, 1.0]), ([-1.0, 0.0, 0.25, 3.0], [0.0, 0.5, 0.75, 1.0])]


def t_reparam(ctx, cs, lo, hi):
    f = Poly(cs, lo, hi)
    crv = wrap(f, lo, hi)
    for xs, ys in KNOTS:
        us = [lo + y * (hi - lo) for y in ys]
        sig = f"polynomial {cs} on {lo, hi} reparametrized by {xs} -> {us}"
        with ctx.at(sig):
            r = ReparametrizedCurve(crv, interp1d(xs, us))
            ctx.expect(tuple(float(x) for x in r.interval()) == (xs[0], xs[-1]), sig, f"interval {r.interval()}")
            for k in range(len(xs) - 1):
                slope = (us[k + 1] - us[k]) / (xs[k + 1] - xs[k])
                for w in (0.25, 0.5, 0.75):
                    t = xs[k] + w * (xs[k + 1] - xs[k])
                    u = us[k] + w * (us[k + 1] - us[k])
                    s = f"{sig} t={t}"
                    ctx.state(s)
                    d1, d2 = f.d(u, 1), f.d(u, 2)
                    size = 1 + np.abs(d1).max() + np.abs(d2).max()
                    ctx.expect(close(r.evaluate(t), f.d(u, 0), 1e-9 * size), s, "evaluate")
                    ctx.expect(close(r.derivative(t), d1 * slope, 1e-4 * size * (1 + slope)), s, lambda: f"derivative {r.derivative(t)}, want {d1 * slope}")
                    ctx.expect(close(r.second_derivative(t), d2 * slope ** 2, 1e-3 * size * (1 + slope ** 2)), s, "second derivative")
                    ctx.expect(abs(float(r.evaluate_curve_parameter(t)) - u) < 1e-9, s, "parameter of the curve")
                    for name in ("tangent", "normal", "curvature", "plane_at"):
                        want, got = getattr(crv, name)(u), getattr(r, name)(t)
                        if np.all(np.isfinite(want)):
                            ctx.expect(close(got, want, 1e-5 * (1 + np.abs(want).max())), s, f"{name} {got}, want {want}")
            for a, b in itertools.combinations(xs, 2):
                ua, ub = us[xs.index(a)], us[xs.index(b)]
                ctx.expect(abs(r.evaluate_length((a, b)) - f.length(ua, ub)) <= 1e-2 + 1e-5 * f.length(ua, ub), sig, f"length from {a} to {b}")
            ts = np.linspace(xs[0], xs[-1], 5)
            ctx.expect(close(r.evaluate_multi(ts), [r.evaluate(t) for t in ts], 1e-12 * (1 + hi ** 3 * 10)), sig, "many parameters at a time")
        ctx.step()
    sig = f"polynomial {cs} on {lo, hi} by arc length"
    with ctx.at(sig):
        r = ArcLengthParameterization(crv)
        L = f.length(lo, hi)
        ctx.expect(tuple(float(x) for x in r.interval()) == (0.0, 1.0), sig, "interval")
        for k in range(9):
            t = k / 8
            p = r.evaluate(t)
            u = float(r.evaluate_curve_parameter(t))
            ctx.expect(close(p, f.d(u, 0), 1e-9 * (1 + np.abs(p).max())), sig, f"point at {t}")
            ctx.expect(abs(f.length(lo, u) - t * L) <= 0.02 * L / 8 + 5e-3, sig, lambda: f"{t} is at {f.length(lo, u) / L} of the length")
            if 0 < k < 8:
                ctx.expect(abs(np.linalg.norm(r.derivative(t)) - L) <= 0.1 * L, sig, f"speed {np.linalg.norm(r.derivative(t))}, the length is {L}")
    ctx.step()


class Arc:
    def __init__(self, R):
        self.R = R

    def d(self, t, k):
        t = t + k * math.pi / 2
        return self.R * np.array([math.cos(t), math.sin(t), 0.0]) + (np.array([1.0, 2.0, 3.0]) if k == 0 else 0)

    def __call__(self, t):
        return self.d(t, 0)

    def third(self):
        return self.R


def t_offset(ctx, cs, lo, hi):
    f = Poly(cs, lo, hi)
    crv = wrap(f, lo, hi)
    off = OffsetCurve(crv, 0.5)
    for d in (0.5, -1.0, 0.0, 2.0, 0.25, -0.125):
        off.offset = d
        fresh = OffsetCurve(crv, d)
        sig = f"polynomial {cs} on {lo, hi} offset by {d}"
        with ctx.at(sig):
            ctx.expect(off.offset == d and tuple(off.interval()) == (lo, hi), sig, f"offset {off.offset} interval {off.interval()}")
            for w in (0.1, 0.25, 0.5, 0.75, 0.9):
                t = lo + w * (hi - lo)
                d1, d2 = f.d(t, 1), f.d(t, 2)
                m = np.linalg.norm(d1)
                perp = d2 - d1 * (d1 @ d2) / (m * m)
                if np.linalg.norm(perp) < 0.3:
                    continue
                ctx.state((sig, t))
                want = f.d(t, 0) + d * perp / np.linalg.norm(perp)
                for o in (off, fresh):
                    ctx.expect(close(o.evaluate(t), want, 2e-4 * (1 + abs(d)) * (1 + np.abs(want).max())), f"{sig} t={t}", lambda: f"{o.evaluate(t)}, want {want}")
        ctx.step()


def t_arcs(ctx):
    for R in (0.5, 1.0, 4.0):
        f = Arc(R)
        for lo, hi in ((0.0, 1.0), (0.5, 6.0), (-1.0, 11.0)):
            sig = f"circle of radius {R} on {lo, hi}"
            crv = wrap(f, lo, hi)
            check_curve(ctx, sig, crv, f, lo, hi, tol1=2e-6, tol2=1e-4)
            with ctx.at(sig):
                for tol in (1e-2, 1e-3, 1e-6):
                    l = crv.evaluate_length((lo, hi), tol)
                    ctx.expect(abs(l - R * (hi - lo)) <= 1e-5 * (1 + l), sig, f"length {l}")
                for part in (0.0, 0.3, 0.75):
                    t = float(crv.evaluate_parameter_at_length(part * R * (hi - lo) * 0.999))
                    ctx.expect(abs(t - lo - part * (hi - lo) * 0.999) < 1e-4 * (hi - lo), sig, f"parameter at length {t}")
                r = ArcLengthParameterization(crv)
                for t in (0.0, 0.25, 0.5, 1.0):
                    ctx.expect(close(r.evaluate(t), f(lo + t * (hi - lo)), 1e-3 * R * (hi - lo)), sig, f"by arc length at {t}")
                for d in (0.25, -1.0):
                    o = OffsetCurve(crv, d)
                    for w in (0.1, 0.5, 0.9):
                        p = o.evaluate(lo + w * (hi - lo)) - np.array([1.0, 2.0, 3.0])
                        ctx.expect(abs(np.linalg.norm(p) - abs(R - d)) < 1e-4 and abs(p[2]) < 1e-6, sig, f"offset {d} is at the distance {np.linalg.norm(p)}")
            ctx.step()


CTRL = [(0, 0, 0), (1, 2, -1), (3, -1, 2)]


def t_cubic(ctx, p0, c0):
    for c1, p1 in itertools.product(CTRL, repeat=2):
        pts = [A(x) for x in (p0, c0, c1, p1)]
        f = Poly([pts[0], 3 * (pts[1] - pts[0]), 3 * (pts[0] - 2 * pts[1] + pts[2]), pts[3] - pts[0] + 3 * (pts[1] - pts[2])])
        sig = f"cubic {p0} {c0} {c1} {p1}"
        ctx.state(sig)
        with ctx.at(sig):
            cy, py = CubicSpline(*pts), PyCubicSpline(*pts)
            ctx.expect(tuple(cy.interval()) == (0.0, 1.0) and tuple(py.interval()) == (0.0, 1.0), sig, "interval")
            ctx.expect(close(cy.start(), p0, 0) and close(cy.end(), p1, 0), sig, "ends")
            ctx.expect(cy.is_closed() == (p0 == p1) and cy.is_open() == (p0 != p1), sig, "closed")
            ctx.expect(close(cy.points(5), [f.d(t, 0) for t in np.linspace(0, 1, 5)], 1e-12), sig, "points")
            for t in (0.0, 0.125, 0.25, 0.5, 0.625, 0.875, 1.0):
                s = f"{sig} t={t}"
                ctx.expect(close(cy.evaluate(t), f.d(t, 0), 1e-12) and close(py.evaluate(t), f.d(t, 0), 1e-12), s, "evaluate")
                ctx.expect(close(cy.derivative(t), f.d(t, 1), 1e-11) and close(cy.second_derivative(t), f.d(t, 2), 1e-11), s, "derivatives")
                ctx.expect(close(py.dderivative(t), f.d(t, 1), 1e-11) and close(py.dsecond_derivative(t), f.d(t, 2), 1e-11), s, "derivatives in Python")
                m = np.linalg.norm(f.d(t, 1))
                if m > 0.3:
                    d1, d2 = f.d(t, 1), f.d(t, 2)
                    ctx.expect(close(cy.tangent(t), d1 / m, 1e-9), s, "tangent")
                    if np.linalg.norm(d2 - d1 * (d1 @ d2) / (m * m)) > 0.3:
                        T, K, N = frame(d1, d2)
                        ctx.expect(close(cy.normal(t), N, 1e-9) and close(cy.curvature(t), K, 1e-9), s, "normal and curvature")
                        want = A([f.d(t, 0), T, N, np.cross(T, N)])
                        ctx.expect(close(cy.plane_at(t), want, 1e-9) and close(cy.planes_at(A([t]))[0], want, 1e-9), s, "plane")
            ts = A([0.0, 0.25, 1.0])
            ctx.expect(close(cy(ts), [f.d(t, 0) for t in ts], 1e-12) and close(cy(0.25), [f.d(0.25, 0)], 1e-12), sig, "call")
            import pickle
            cp = pickle.loads(pickle.dumps(cy))
            ctx.expect(close(cp.points(4), cy.points(4), 0), sig, "pickled")
        ctx.step()


# ---- surfaces ---------------------------------------------------------------------------------------------------------------

class PolySurface(S.Surface):
    def __init__(self, cs, domain=((0.0, 1.0), (0.0, 1.0))):
        self.cs = [A(c) for c in cs]
        self.domain = domain
        super().__init__()

    def interval(self):
        return self.domain

    def evaluate(self, uv):
        return self.d(uv[0], uv[1], 0, 0)

    def d(self, u, v, i, j):
        U = {0: [1.0, u, u * u], 1: [0.0, 1.0, 2 * u], 2: [0.0, 0.0, 2.0]}[i]
        V = {0: [1.0, v, v * v], 1: [0.0, 1.0, 2 * v], 2: [0.0, 0.0, 2.0]}[j]
        return np.array([A(U) @ c @ A(V) for c in self.cs])


X, Y = [[0, 0, 0], [1, 0, 0], [0, 0, 0]], [[0, 1, 0], [0, 0, 0], [0, 0, 0]]
SURFS = [[X, Y, [[0, 0, a], [0, b, 0], [c, 0, 0]]] for a, b, c in ((0, 0, 0), (1, 0, 1), (0, 2, 0), (1, 0, -1), (0, 1, 1), (-2, 1, 0))] + [
    [[[0, 1, 0], [1, 0, 1], [0, 0, 0]], [[0, 2, 0], [0, 1, 0], [1, 0, 0]], [[1, 0, 1], [0, 0, 0], [0, 1, 0]]],
    [[[0, 0, 0], [2, 0, 0], [0, 0, 0]], [[0, 1, 0], [1, 0, 0], [0, 0, 0]], [[0, 0, 1], [0, 1, 0], [1, 0, 0]]],
    [[[1, 0, 0], [-1, 1, 0], [0, 0, 1]], [[0, -1, 0], [0, 0, 2], [1, 0, 0]], [[0, 3, 0], [1, 0, 0], [0, 1, 1]]],
    [[[0, 0, 0], [1, 1, 0], [0, 0, 0]], [[0, 1, 0], [-1, 0, 0], [0, 0, 0]], [[0, 0, 0], [1, 0, 0], [0, 0, 0]]],
    [Y, X, [[0, 0, 1], [0, 0, 0], [1, 0, 0]]],
    [Y, [[0, 0, 0], [0, 0, 1], [1, 0, 0]], X],
]


def check_surface(ctx, sig, s, d, dom, seconds=True, tol=1e-6, slack=0.0):
    """s is a surface with the exact derivatives d(u, v, i, j)."""
    (u0, u1), (v0, v1) = dom
    grid = [(u0 + (u1 - u0) * a, v0 + (v1 - v0) * b) for a in (0.0, 0.5, 1.0) for b in (0.0, 0.25, 1.0)]
    for u, v in grid:
        w = f"{sig} at {u, v}"
        ctx.state(w)
        with ctx.at(w):
            uv = A((u, v))
            ctx.expect(close(s.evaluate(uv), d(u, v, 0, 0), 1e-10) and close(s.evaluate_v2(u, v), d(u, v, 0, 0), 1e-10) and close(s(uv), d(u, v, 0, 0), 1e-10),
                       w, lambda: f"point {s.evaluate(uv)}, want {d(u, v, 0, 0)}")
            D = {k: d(u, v, *k) for k in ((1, 0), (0, 1), (2, 0), (1, 1), (0, 2))}
            size = 1 + max(np.abs(x).max() for x in D.values())
            ctx.expect(close(s.derivative_u(uv), D[1, 0], tol * size) and close(s.derivative_v(uv), D[0, 1], tol * size), w,
                       lambda: f"derivatives {s.derivative_u(uv)} {s.derivative_v(uv)}, want {D[1, 0]} {D[0, 1]}")
            ctx.expect(close(s.derivatives(uv), [D[1, 0], D[0, 1]], tol * size), w, "derivatives together")
            if seconds:
                for name, k in (("uu", (2, 0)), ("uv", (1, 1)), ("vv", (0, 2))):
                    got = getattr(s, f"second_derivative_{name}")(uv)
                    ctx.expect(close(got, D[k], 20 * tol * size + slack), w, f"second derivative {name} {got}, want {D[k]}")
                got = s.second_derivatives(u, v)
                ctx.expect(close(got, [d(u, v, 0, 0), D[1, 0], D[0, 1], D[2, 0], D[0, 2], D[1, 1]], 20 * tol * size + slack), w, "second derivatives together")
            n = np.cross(D[1, 0], D[0, 1])
            r = np.linalg.norm(n)
            if r > 0.2:
                n /= r
                ctx.expect(close(s.normal(uv), n, 100 * tol * size), w, lambda: f"normal {s.normal(uv)}, want {n}")
                T = D[1, 0] / np.linalg.norm(D[1, 0])
                want = [d(u, v, 0, 0), T, np.cross(n, T), n]
                ctx.expect(close(s.plane_at(uv), want, 1000 * tol * size), w, lambda: f"plane {s.plane_at(uv)}, want {want}")
        ctx.step()
    with ctx.at(sig):
        uvs = A(grid)
        want = [d(u, v, 0, 0) for u, v in grid]
        ctx.expect(close(s.evaluate_multi(uvs), want, 1e-10) and close(s(uvs), want, 1e-10), sig, "many points at a time")
        for nu, nv in ((3, 2), (2, 4)):
            want = [d(u, v, 0, 0) for u in np.linspace(u0, u1, nu) for v in np.linspace(v0, v1, nv)]
            ctx.expect(close(s.points((nu, nv)), want, 1e-10), sig, f"points({nu}, {nv})")


def t_surface(ctx, i, dom):
    s = PolySurface(SURFS[i], dom)
    sig = f"surface {i} on {dom}"
    check_surface(ctx, sig, s, s.d, dom)
    (u0, u1), (v0, v1) = dom
    lines = [(f"isoline_u({u})", s.isoline_u(u), (u, v0), (u, v1), (v0, v1)) for u in (u0, u0 + (u1 - u0) / 4, u1)]
    lines += [(f"isoline_v({v})", s.isoline_v(v), (u0, v), (u1, v), (u0, u1)) for v in (v0, v0 + (v1 - v0) / 4, v1)]
    with ctx.at(f"{sig} boundary"):
        s.build_boundary()
        bd, round_ = s.boundary, [A((u0, v0)), A((u1, v0)), A((u1, v1)), A((u0, v1))]
        lo, hi = bd.interval()
        for k in range(17):
            x = k / 4
            a, b = round_[int(x) % 4], round_[(int(x) + 1) % 4]
            uv = a + (b - a) * (x - int(x))
            t = lo + (hi - lo) * k / 16
            ctx.expect(close(bd.evaluate_curve(t), uv, 1e-12) and close(bd.evaluate(t), s.evaluate(uv), 1e-11), f"{sig} boundary", f"{bd.evaluate_curve(t)} at {t}, want {uv}")
        for k, l in itertools.product((-0.5, 0.25, 0.6, 1.5), repeat=2):
            uv = A((u0 + (u1 - u0) * k, v0 + (v1 - v0) * l))
            ctx.expect(bool(bd.point_inside(uv)) == (0 < k < 1 and 0 < l < 1), f"{sig} boundary", f"inside {uv}")
    corners = [(u0, v0), (u1, v1), (u0, v1), ((u0 + u1) / 2, v0)]
    lines.append(("isocurve()", s.isocurve(), (u0, v0), (u1, v1)))
    if u0 >= 0 and v0 >= 0:
        lines += [(f"isocurve{a + b}", s.isocurve(*a, *b), a, b) for a in corners for b in corners if a != b]
    lines += [(f"curve {a}-{b}", S.CurveOnSurface(s, lambda t, a=A(a), b=A(b): a + (b - a) * t), a, b) for a, b in itertools.permutations(corners, 2)]
    for name, crv, a, b, *over in lines:
        a, b = A(a), A(b)
        lo, hi = over[0] if over else (0.0, 1.0)
        w = f"{sig} {name}"
        ctx.state(w)
        with ctx.at(w):
            ctx.expect(close(crv.interval(), (lo, hi), 1e-15), w, "interval")
            for k in (0.0, 0.25, 0.5, 1.0):
                uv, t = a + (b - a) * k, lo + (hi - lo) * k
                p = s.evaluate(uv)
                ctx.expect(close(crv.evaluate_curve(t), uv, 1e-12) and close(crv.evaluate(t), p, 1e-11), w, f"point at {t}: {crv.evaluate(t)}, want {p}")
                if k in (0.0, 1.0):
                    continue
                du, dv = s.d(*uv, 1, 0), s.d(*uv, 0, 1)
                vel = (du * (b - a)[0] + dv * (b - a)[1]) / (hi - lo)
                B = np.cross(du, dv)
                if np.linalg.norm(vel) < 0.1 or np.linalg.norm(B) < 0.2:
                    continue
                ctx.expect(close(crv.derivative(t), vel, 1e-4 * (1 + np.abs(vel).max())), w, f"derivative at {t}: {crv.derivative(t)}, want {vel}")
                T, B = vel / np.linalg.norm(vel), B / np.linalg.norm(B)
                N = np.cross(B, T)
                ctx.expect(close(crv.tangent(t), T, 1e-3), w, f"tangent at {t}")
                ctx.expect(close(crv.normal(t), N, 1e-3), w, f"normal at {t}: {crv.normal(t)}, want {N}")
                ctx.expect(close(crv.plane_at(t), [p, T, N, B], 1e-3), w, f"plane at {t}")
            ctx.expect(close(crv.points(3), [s.evaluate(a + (b - a) * t) for t in (0, 0.5, 1)], 1e-11), w, "points")
        ctx.step()


QUADS = [(0, 0, 0), (2, 0, 1), (1, 3, -1)]


def t_bilinear(ctx, b):
    for c, d in itertools.product([(2, 2, 0), (1, 3, -1), (3, 1, 2)], [(0, 2, 0), (-1, 1, 1), (0, 1, -2)]):
        q = [A((0.5, -0.5, 0)), A(b), A(c), A(d)]
        s = S.BiLinear(*q)

        def D(u, v, i, j):
            U = ([1 - u, u], [-1, 1], [0, 0])[i]
            V = ([1 - v, v], [-1, 1], [0, 0])[j]
            return U[0] * V[0] * q[0] + U[1] * V[0] * q[1] + U[1] * V[1] * q[2] + U[0] * V[1] * q[3]
        check_surface(ctx, f"bilinear {b} {c} {d}", s, D, ((0.0, 1.0), (0.0, 1.0)))
        with ctx.at(f"bilinear {b} {c} {d}"):
            for uv in ((0.0, 0.0), (0.25, 0.5), (1.0, 0.75)):
                got = S.evaluate_bilinear(uv, q[0], q[1], q[3], q[2])
                ctx.expect(close(got, D(*uv, 0, 0), 1e-12), f"{b} {c} {d} {uv}", f"evaluate_bilinear: {got}")


def t_ruled(ctx, i, j):
    for (a, b), (c, d) in (((0.0, 1.0), (0.0, 1.0)), ((-1.0, 1.0), (2.0, 2.5)), ((1.0, 2.0), (0.0, 3.0))):
        f, g = Poly(CURVES[i]), Poly(CURVES[j])
        s = S.Ruled(wrap(f, a, b), wrap(g, c, d))
        sig = f"ruled {CURVES[i]} on {a, b} and {CURVES[j]} on {c, d}"

        def D(u, v, k, l):
            V = ([1 - v, v], [-1, 1], [0, 0])[l]
            return V[0] * f.d(a + (b - a) * u, k) * (b - a) ** k + V[1] * g.d(c + (d - c) * u, k) * (d - c) ** k
        with ctx.at(sig):
            check_surface(ctx, sig, s, D, ((0.0, 1.0), (0.0, 1.0)), tol=3e-5,
                          slack=3 * H * (f.third() * (b - a) ** 3 + g.third() * (d - c) ** 3))


def t_coons(ctx, k):
    cor = [A((0, 0, 0)), A((4, 0, 1)), A((5, 4, 0)), A((-1, 3, 2))]
    bend = [[A((0, 0, 0)), A((0, 0, 0))], [A((0, 1, 2)), A((1, -1, 1))], [A((1, 0, -1)), A((0, 0, 3))]]
    for l, m in itertools.product(range(3), repeat=2):
        def ctrl(p, q, x):
            return [p, p + (q - p) / 3 + bend[x][0], p + (q - p) * 2 / 3 + bend[x][1], q]
        polys = [ctrl(cor[0], cor[1], k), ctrl(cor[1], cor[2], l), ctrl(cor[3], cor[2], m), ctrl(cor[0], cor[3], (k + l) % 3)]

        def bez(p, t):
            return p[0] * (1 - t) ** 3 + 3 * p[1] * t * (1 - t) ** 2 + 3 * p[2] * t * t * (1 - t) + p[3] * t ** 3
        for kind in ("compiled", "python", "functions"):
            sig = f"Coons {k} {l} {m} {kind}"
            with ctx.at(sig):
                if kind == "compiled":
                    crv = [CubicSpline(*p) for p in polys]
                elif kind == "python":
                    crv = [PyCubicSpline(*p) for p in polys]
                else:
                    crv = [wrap(lambda t, p=p, a=a, b=b: bez(p, (t - a) / (b - a)), a, b) for p, (a, b) in zip(polys, ((0.0, 1.0), (1.0, 3.0), (-1.0, 1.0), (0.0, 0.5)))]
                s = S.Coons(*crv)
                c1, d1, c2, d2 = polys
                for _ in range(2):
                    for u, v in itertools.product((0.0, 0.25, 0.5, 1.0), repeat=2):
                        w = f"{sig} at {u, v}"
                        ctx.state(w)
                        want = ((1 - v) * bez(c1, u) + v * bez(c2, u) + (1 - u) * bez(d2, v) + u * bez(d1, v)
                                - ((1 - u) * (1 - v) * cor[0] + u * (1 - v) * cor[1] + u * v * cor[2] + (1 - u) * v * cor[3]))
                        got = s.evaluate(A((u, v)))
                        ctx.expect(close(got, want, 1e-11) and close(s.evaluate_v2(u, v), want, 1e-11), w, f"{got}, want {want}")
                        edge = bez(c1, u) if v == 0 else bez(c2, u) if v == 1 else bez(d2, v) if u == 0 else bez(d1, v) if u == 1 else want
                        ctx.expect(close(got, edge, 1e-11), w, f"{got} is not the point {edge} of the edge")
                        got[:] = 99.0  # the caller's own array
            ctx.step()


def tasks(tier):
    out = [(f"poly/{i}", t_poly, (cs,)) for i, cs in enumerate(CURVES)]
    for i, (lo, hi) in zip((1, 5, 22, 31, 40, 70), ((0.0, 1.0), (-1.0, 2.0), (2.0, 2.5), (0.0, 6.0), (0.0, 1.0), (-1.0, 2.0))):
        out.append((f"trim/{i}", t_trim, (CURVES[i], lo, hi)))
    out += [(f"arithmetic/{i},{j}", t_arithmetic, (i, j)) for i, j in ((1, 5), (22, 31), (40, 3), (10, 10), (50, 8))]
    reg = length_curves()
    out += [(f"length/{i}", t_length, c) for i, c in enumerate(reg if tier == "thorough" else reg[::2])]
    out += [(f"inverse/{i}", t_inverse, c) for i, c in enumerate(reg if tier == "thorough" else reg[1::4])]
    out += [(f"romberg/{c}", t_romberg, (c,)) for c in (-1, 0, 1)]
    out += [(f"reparam/{i}", t_reparam, c) for i, c in enumerate(reg if tier == "thorough" else reg[::4])]
    out += [(f"offset/{i}", t_offset, c) for i, c in enumerate(reg[::2])]
    out += [("arcs", t_arcs, ())]
    out += [(f"cubic/{p}{c}", t_cubic, (p, c)) for p, c in itertools.product(CTRL, repeat=2)]
    for i in range(len(SURFS)):
        for dom in (((0.0, 1.0), (0.0, 1.0)), ((1.0, 3.0), (0.5, 2.0)), ((-1.0, 0.5), (-2.0, 1.0))):
            out.append((f"surface/{i}{dom}", t_surface, (i, dom)))
    out += [(f"bilinear/{b}", t_bilinear, (b,)) for b in ((2, 0, 0), (1, 0, 1), (3, -1, -1))]
    out += [(f"ruled/{i},{j}", t_ruled, (i, j)) for i, j in itertools.product((1, 5, 22, 31), (3, 10, 40))]
    out += [(f"coons/{k}", t_coons, (k,)) for k in range(3)]
    return out
