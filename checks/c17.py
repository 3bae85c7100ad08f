"""C17: curve-surface intersection finds every intersection and nothing else."""
import itertools
from fractions import Fraction as F
from functools import lru_cache

import numpy as np
from poly import padd, pmul, power, scale, sturm_count, trim

from mmcore.geom.nurbs import NURBSCurve, NURBSSurface
from mmcore.numeric.intersection.csx import csx, curve_surface_intersection, nurbs_csx

PID = "C17"
ASSUMPTIONS = [
    "general position, decided exactly: no two intersections within 5 % of the curve's parameter range or 2 tolerances of each other, no near-tangency, no intersection almost at an end of the curve or an edge of the surface (exactly at an end is included)",
    "coordinates of unit scale for a tolerance of 1e-3, patches and curves not smaller than the tolerance",
]
BOUNDS = {
    "surfaces": "plane, level plane, saddle, paraboloid (quadratic) and a rational quarter cylinder over their whole patch; with knots inserted (up to 2 each way, and of full multiplicity), other parameter ranges, and all weights scaled",
    "curves": "every segment between two 27-point grids, every parabola, every rational quadratic of 3 middle weights and every cubic with control points in grids; with knots inserted and other parameter ranges",
    "images": "as given, sheared, turned, times 8 and 1/4 and away from the origin",
    "oracle": "the curve is substituted into the implicit equation; the real roots of the exact polynomial are isolated and counted by Sturm's theorem",
}

# ---- surfaces: implicit equation in homogeneous coordinates, gradient, domain, patch


def graph(net, p, q):
    return (
        np.array([[[2 * i / p, 2 * j / q, net[i][j]] for j in range(q + 1)] for i in range(p + 1)], dtype=float),
        np.ones((p + 1, q + 1)),
        (p, q),
    )


def square(x, y, z):
    return [x, 2 - x, y, 2 - y]


def quarter():
    """x^2 + y^2 = 4, 0 <= z <= 2: rational quadratic across, linear along."""
    xy, w = ((2, 0), (2, 2), (0, 2)), (1, 1, 2)
    net = np.array([[[x, y, z] for z in (0.0, 2.0)] for x, y in xy])
    return net, np.array([[k, k] for k in w], dtype=float), (2, 1)


SURFACES = {
    "plane": (
        graph([[0, 1], [1, 2]], 1, 1),
        lambda X, Y, Z, W: padd(scale(Z, 2), scale(padd(X, Y), -1)),
        lambda x, y, z: (-1, -1, 2),
        square,
    ),
    "level": (
        graph([[0.5, 0.5], [0.5, 0.5]], 1, 1),
        lambda X, Y, Z, W: padd(scale(Z, 2), scale(W, -1)),
        lambda x, y, z: (0, 0, 2),
        square,
    ),
    "saddle": (
        graph([[0, 0], [0, 4]], 1, 1),
        lambda X, Y, Z, W: padd(pmul(Z, W), scale(pmul(X, Y), -1)),
        lambda x, y, z: (-y, -x, 1),
        square,
    ),
    "paraboloid": (
        graph([[0, 0, 4], [0, 0, 4], [4, 4, 8]], 2, 2),
        lambda X, Y, Z, W: padd(pmul(Z, W), scale(padd(pmul(X, X), pmul(Y, Y)), -1)),
        lambda x, y, z: (-2 * x, -2 * y, 1),
        square,
    ),
    "cylinder": (
        quarter(),
        lambda X, Y, Z, W: padd(padd(pmul(X, X), pmul(Y, Y)), scale(pmul(W, W), -4)),
        lambda x, y, z: (2 * x, 2 * y, 0),
        lambda x, y, z: [x, y, z, 2 - z],
    ),
}
FORMS = {
    "plain": ((), (), (0, 1), (0, 1), 1.0),
    "a knot": ((0.5,), (), (0, 1), (0, 1), 1.0),
    "two knots, ranges": ((0.25, 0.5), (0.375,), (2, 5), (-1, 0), 1.0),
    "full knot, weights": ((), (0.5, 0.5), (0, 1), (0, 4), 3.0),
}
MAPS = {
    "": (np.eye(3), np.zeros(3), 1),
    "sheared": (np.array([[1, 0.5, 0], [0, 1, 0.25], [0.25, 0, 1]]), np.array([1.0, -2, 3]), 1),
    "turned": (np.array([[2.0, -2, 1], [1, 2, 2], [2, 1, -2]]) / 3, np.zeros(3), 1),
    "large": (np.eye(3) * 8, np.array([30.0, 0, -20]), 8),
    "small": (np.eye(3) / 4, np.array([0.5, 0, 0]), 0.25),
}


def surface(kind, form, image):
    (net, w, deg), *_ = SURFACES[kind]
    us, vs, (u0, u1), (v0, v1), k = FORMS[form]
    A, o, _ = MAPS[image]
    H = np.concatenate([(net @ A.T + o) * (w * k)[..., None], (w * k)[..., None]], axis=-1)
    s = NURBSSurface(
        H,
        deg,
        np.array([float(u0)] * (deg[0] + 1) + [float(u1)] * (deg[0] + 1)),
        np.array([float(v0)] * (deg[1] + 1) + [float(v1)] * (deg[1] + 1)),
    )
    for x in us:
        s.insert_knot_u(u0 + (u1 - u0) * x, 1)
    for x in vs[: deg[1]]:
        s.insert_knot_v(v0 + (v1 - v0) * x, 1)
    return s


def curve(cp, w, knots, rng, image):
    A, o, _ = MAPS[image]
    n = len(cp) - 1
    P = np.array(cp, dtype=float) @ A.T + o
    t0, t1 = rng
    U = np.array([float(t0)] * (n + 1) + [float(t1)] * (n + 1))
    if any(x != 1 for x in w):
        P = np.concatenate([P, np.array(w, dtype=float)[:, None]], axis=1)  # curves take points and weights, surfaces homogeneous points
    c = NURBSCurve(P, n, U)
    for x in knots:
        c.insert_knot(t0 + (t1 - t0) * x, 1)
    return c


def expected(kind, cp, w):
    """(None, why) or (sorted [(t, point, |cos| of the angle to the normal)], '')."""
    _, eq, grad, inside = SURFACES[kind]
    rows = power(cp, w)
    g = trim(eq(*rows))
    if len(g) == 1:
        return (None, "lies in the surface") if g[0] == 0 else ([], "")
    gf = [float(x) for x in g]
    roots = np.polynomial.polynomial.polyroots(gf) if len(gf) > 1 else []
    ends = {0: g[0] == 0, 1: sum(g) == 0}
    exact = [r for r in roots]
    real = []
    for i, r in enumerate(exact):
        if not (-0.1 < r.real < 1.1):
            continue
        if any(abs(r - q) < 0.05 for q in exact[:i]):
            return None, "almost a double root"
        if 1e-9 < abs(r.imag) < 0.05:
            return None, "almost touches"
        if abs(r.imag) <= 1e-9:
            for e in (0, 1):
                if abs(r.real - e) < 0.02:
                    if not ends[e]:
                        return None, "almost at an end"
                    r = complex(e, 0)
            if 0 <= r.real <= 1:
                real.append(r.real)
    dg = np.polynomial.polynomial.polyder(gf)
    for r in np.polynomial.polynomial.polyroots(dg) if len(dg) > 1 else []:
        if abs(r.imag) < 1e-9 and -0.1 < r.real < 1.1:
            h = np.array([np.polyval([float(x) for x in row[::-1]], r.real) for row in rows])
            q = h[:3] / h[3]
            if abs(eq(*[[x] for x in q], [1.0])[0]) < 0.004 * np.linalg.norm(np.array(grad(*q), dtype=float)):
                return None, "almost touches"
    real.sort()
    n = sturm_count(g, 0, 1) + ends[0]
    assert n == len(real), (kind, cp, w, n, real)
    out = []
    size = max(abs(float(x)) for p in cp for x in p)
    for t in real:
        h = np.array([np.polyval([float(x) for x in r[::-1]], t) for r in rows])
        p = h[:3] / h[3]
        margins = inside(*p)
        if min(margins) < -0.02 * size:
            continue
        if min(margins) < 0.02:
            if not (t in (0, 1) and all(m >= 0 for m in margins)):
                return None, "almost at an edge"
        d = np.array([np.polyval(np.polyder([float(x) for x in r[::-1]]), t) for r in rows])
        d = d[:3] / h[3] - p * d[3] / h[3]
        n = np.array(grad(*p), dtype=float)
        cos = abs(d @ n) / (np.linalg.norm(d) * np.linalg.norm(n))
        if cos < 0.03 or np.linalg.norm(d) < 0.05:
            return None, "almost tangent"
        out.append((t, p, cos))
    for a, b in itertools.combinations(out, 2):
        if np.abs(a[1] - b[1]).max() < 0.02:
            return None, "a point passed twice"
    return out, ""


def show(x):
    return "(" + " ".join(map(show, x)) + ")" if isinstance(x, tuple) else str(x)


def judge(ctx, kind, form, image, cp, w, knots=(), rng=(0, 1), tol=1e-3, surf=None):
    want, why = expected_cached(kind, cp, w)
    if want is None:
        ctx.count(f"skipped: {why}")
        return None
    sig = f"{kind} ({form}{', ' + image if image else ''}) x {show(cp)} weights {show(w)} knots {knots} on {rng} tol {tol:g}"
    ctx.state((kind, form, image, cp, w, knots, rng, tol))
    ctx.step()
    ctx.count(f"{len(want)} intersections")
    with ctx.at(sig):
        s = surf if surf is not None else surface(kind, form, image)
        c = curve(cp, w, knots, rng, image)
        A, o, size = MAPS[image]
        tol *= min(1, size)
        got = nurbs_csx(c, s, tol=tol)
        ts = sorted((g[2][0] - rng[0]) / (rng[1] - rng[0]) for g in got)
        ok = len(ts) == len(want) and all(abs(t - x[0]) < 2e-3 for t, x in zip(ts, want))
        ctx.expect(ok, sig, lambda: f"found at {ts}, expected at {[float(x[0]) for x in want]}")
        if not ok:
            return sig
        (u0, u1), (v0, v1) = s.interval()
        for (typ, point, (t, u, v)), (_, p, cos) in zip(sorted(got, key=lambda g: g[2][0]), want):
            q = A @ p + o
            on_curve = np.array(c.evaluate(t))
            bad = not (rng[0] <= t <= rng[1] and u0 <= u <= u1 and v0 <= v <= v1)
            on_surface = np.array(s.evaluate(np.array([u, v])))
            bad = bad or np.abs(on_curve - on_surface).max() > tol or np.abs(np.array(point) - on_curve).max() > 1e-9
            bad = bad or np.abs(on_curve - q).max() > 2 * tol * max(1, size)
            bad = bad or (cos > 0.05 and image != "sheared" and typ != "transversal")
            ctx.expect(not bad, f"{sig}: point", lambda: f"{typ} {point} at {(t, u, v)}: {on_curve} {on_surface} expected {q}")
    return sig


def whole(ctx, kind, form, cp, w):
    """The other entry points answer as nurbs_csx does."""
    want, _ = expected_cached(kind, cp, w)
    if want is None:
        return
    sig = f"csx {kind} ({form}) x {show(cp)} weights {show(w)}"
    ctx.step(2)
    with ctx.at(sig):
        s, c = surface(kind, form, ""), curve(cp, w, (), (0, 1), "")
        got = np.array(csx(c, s))
        ok = got.shape == (len(want), 3) and all(abs(g[0] - x[0]) < 2e-3 for g, x in zip(got, want))
        ctx.expect(ok, sig, lambda: f"{got.tolist()}, expected at {[float(x[0]) for x in want]}")
        got = curve_surface_intersection(c, s, tol=1e-3)
        ctx.expect(len(got) == len(want), f"{sig} (curve_surface_intersection)", lambda: f"{got}")


@lru_cache(None)
def expected_cached(kind, cp, w):
    return expected(kind, cp, w)


def fr(*xs):
    return [F(x) for x in xs]


LINE_A = list(itertools.product(fr("-1/2", "3/10", "5/4"), fr("-1/4", "3/5", "7/5"), fr(-1, "7/10", "11/5")))
LINE_B = list(itertools.product(fr("1/5", "11/10", "12/5"), fr("2/5", "13/10", "23/10"), fr("-3/5", "6/5", "31/10")))
IMAGES = list(MAPS)


def lines_task(ctx, kind, part, parts, quick):
    for n, (a, b) in enumerate(itertools.product(LINE_A, LINE_B)):
        if n % parts != part:
            continue
        k = n // parts
        form = list(FORMS)[k % 4]
        sig = judge(ctx, kind, form, IMAGES[k % 5], (a, b), (1, 1), (("1/3",), ())[k % 2] and (1 / 3,) * (k % 2), ((0, 1), (-2, 4), (0, 1000))[k % 3])
        if not quick:
            for f, i in itertools.product(FORMS, IMAGES):
                judge(ctx, kind, f, i, (a, b), (1, 1))
        if k % 5 == 0:
            judge(ctx, kind, form, "", (a, b), (1, 1), tol=1e-6)
            judge(ctx, kind, form, "", (b, a), (1, 1), tol=1e-4)
            whole(ctx, kind, form, (a, b), (1, 1))
    ctx.sample(sig or kind)


def on_surface(kind):
    if kind == "cylinder":
        return [(F(2), F(0), z) for z in fr(0, "1/2", 2)] + [(F(6, 5), F(8, 5), z) for z in fr(0, 1, "3/2")] + [(F(0), F(2), F(1))]
    f = {"plane": lambda x, y: (x + y) / 2, "level": lambda x, y: F(1, 2), "saddle": lambda x, y: x * y, "paraboloid": lambda x, y: x * x + y * y}[kind]
    return [(x, y, f(x, y)) for x in fr(0, "3/10", 1, 2) for y in fr(0, "7/20", 1, 2)]


def ends_task(ctx, kind, quick):
    """Curves which start, end or pass exactly on the surface, on its edges and corners too."""
    sig = kind
    for n, p in enumerate(on_surface(kind)):
        for m, d in enumerate(itertools.product(fr("-1/2", 0, "2/5"), fr("-3/10", "1/5"), fr(1, -2, "1/10"))):
            if kind == "cylinder":
                d = d[::-1]
            q = tuple(x + y for x, y in zip(p, d))
            for i, cp in enumerate(((p, q), (q, p), (p, tuple(x + y / 3 for x, y in zip(p, d[::-1])), q))):
                sig = judge(ctx, kind, list(FORMS)[(n + m) % 4], IMAGES[(n + m + i) % 5], cp, (1,) * len(cp)) or sig
                if not quick:
                    for f, k in itertools.product(FORMS, IMAGES):
                        judge(ctx, kind, f, k, cp, (1,) * len(cp))
    ctx.sample(sig)


QA = list(itertools.product(fr("-1/5", "3/2"), fr("1/4", "17/10"), fr("-1/2", "6/5", 3)))
QM = list(itertools.product(fr("4/5", "9/4"), fr("-3/4", "5/4"), fr(-3, 2, 6)))


def quadratics_task(ctx, kind, part, parts, quick):
    n, sig = -1, kind
    for a, m, b in itertools.product(QA, QM, QA):
        if not a < b:
            continue
        n += 1
        if n % parts != part:
            continue
        k = n // parts
        for w in ((1, 1, 1), (1, F(1, 2), 1), (2, 3, 1)):
            sig = judge(ctx, kind, list(FORMS)[k % 4], IMAGES[k % 5], (a, m, b), w, ((), (0.5,), (0.25, 0.75))[k % 3], ((0, 1), (1, 3), (-500, 500))[k % 7 % 3]) or sig
            if k % 16 == 0:
                whole(ctx, kind, list(FORMS)[k % 4], (a, m, b), w)
    ctx.sample(sig)


CG = [
    [tuple(fr(*p)) for p in row]
    for row in (
        (("1/4", "1/3", -1), ("3/2", "1/5", 3), ("-1/2", "7/5", 1), ("7/4", "8/5", 0), ("1/2", "3/2", 4)),
        (("1/2", "12/5", 5), ("9/4", "3/4", -2), ("1/10", "1/2", 2), ("6/5", "6/5", -4)),
        (("7/4", "1/4", -3), ("2/5", "7/4", 6), ("-1/2", "-1/4", 1), ("8/5", "5/4", 3)),
        (("5/4", "3/5", 5), ("3/10", "7/4", -1), ("7/4", "7/4", "1/2"), ("12/5", "1", 3), ("3/5", "2/5", 1)),
    )
]


def cubics_task(ctx, kind, part, parts, quick):
    sig = kind
    for n, cp in enumerate(itertools.product(*CG)):
        if n % parts != part:
            continue
        k = n // parts
        forms = [(list(FORMS)[k % 4], IMAGES[k % 5])] if quick else itertools.product(FORMS, IMAGES)
        for f, i in forms:
            sig = judge(ctx, kind, f, i, cp, (1, 1, 1, 1), ((), (0.5,), (1 / 3, 2 / 3), (0.5, 0.5, 0.5))[k % 4], ((0, 1), (5, 7), (0, 1000))[k % 7 % 3]) or sig
        if not quick:
            judge(ctx, kind, "plain", "", cp, (1, 2, F(1, 2), 1))
            judge(ctx, kind, "plain", "", cp, (1, 1, 1, 1), tol=1e-6)
    ctx.sample(sig)


def tasks(tier):
    quick = tier == "quick"
    parts = 3 if quick else 8
    out = []
    for kind in SURFACES:
        for part in range(parts):
            out.append((f"lines {kind} {part}", lines_task, (kind, part, parts, quick)))
            out.append((f"quadratics {kind} {part}", quadratics_task, (kind, part, parts, quick)))
            out.append((f"cubics {kind} {part}", cubics_task, (kind, part, parts, quick)))
        out.append((f"ends {kind}", ends_task, (kind, quick)))
    return out


TASK_LIMIT_S = 800
