"""C22: tangents, frames, curvatures and normals follow the derivatives they are computed from; the fundamental forms give the classical quantities."""
import itertools
import math
from fractions import Fraction as F

import numpy as np

from mmcore.geom.evaluator import surface_evaluator as SE
from mmcore.geom.surfaces import Surface, compute_intersection_curvature
from mmcore.geom.surfaces import fundamental_forms as FF
from mmcore.numeric import calgorithms as CA
from mmcore.numeric import numeric as N

PID = "C22"
ASSUMPTIONS = [
    "the vectors have small integer components, so singular configurations (parallel, zero) are met exactly; agreement to 1e-9 relative is asked for, to 1e-6 where the formula has a square root of a difference",
    "where the numerical derivatives of a surface enter (steps of 1e-3), agreement to 1e-6 on biquadratic surfaces, on which central differences are exact, and to 1e-4 on spheres, cylinders and tori",
]
BOUNDS = {
    "curve": "every pair of first and second derivatives with components -2..2 in 3-D and in 2-D, in the Python and the compiled kernels, one at a time and vectorised",
    "jacobian": "every pair of partial derivatives with components -2..2",
    "normal": "singular points: 13 parallel pairs of partials x second derivatives from 6 vectors (216) x 5 limit directions",
    "solve3x2": "every two columns with components -2..2, 3 right-hand sides in their span, lists and arrays",
    "sections": "7 pairs of partials x 64 second derivatives x 26 planes; intersections of every two of 40 surface jets",
    "forms": "every independent pair of tangents with components -1..1 x every second form with entries -2..2 (quick: every fifth pair)",
    "surfaces": "24 biquadratic graphs and parametric surfaces x a 3x3 grid of points, spheres, cylinders, tori",
}
R3 = list(itertools.product(range(-2, 3), repeat=3))
R2 = list(itertools.product(range(-2, 3), repeat=2))


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def A(v):
    return np.array(v, dtype=float)


# ---- vectors of a curve -----------------------------------------------------------------------------------------------------

class Stub:
    def __init__(self, o, d1, d2):
        self.o, self.d1, self.d2 = o, d1, d2

    def evaluate(self, t):
        return self.o.copy()

    def derivative(self, t):
        return self.d1.copy()

    def second_derivative(self, t):
        return self.d2.copy()


def t_curve(ctx, d1, vectors):
    D1 = A(d1)
    m1 = sum(x * x for x in d1)
    O = np.array([1.0, -2.0, 0.5])
    n = len(d1)
    allT, allK = [], []
    for d2 in vectors:
        D2 = A(d2)
        sig = f"D1={d1} D2={d2}"
        ctx.state((d1, d2))
        m2 = sum(x * x for x in d2)
        dot = sum(x * y for x, y in zip(d1, d2))
        # the part of D2 perpendicular to D1, times |D1|^2
        perp = [m1 * y - dot * x for x, y in zip(d1, d2)]
        if m1:
            T = D1 / math.sqrt(m1)
            K = np.array([p / m1 ** 2 for p in perp])
        else:
            T = D2 / math.sqrt(m2) if m2 else D2
            K = np.zeros(n)
        allT.append(T)
        allK.append(K)
        with ctx.at(sig):
            t, ok = N.evaluate_tangent(D1, D2)
            ctx.expect(close(t, T) and bool(ok) == bool(m1 or m2), sig, f"evaluate_tangent: {t} {ok}")
            t, k, ok = N.evaluate_curvature(D1, D2)
            ctx.expect(close(t, T) and close(k, K) and bool(ok) == bool(m1), sig, f"evaluate_curvature: {t} {k} {ok}, want {T} {K}")
            rt, rk = np.zeros(n), np.zeros(n)
            ok = CA.evaluate_curvature(D1, D2, rt, rk)
            ctx.expect(close(rt, T) and close(rk, K) and bool(ok) == bool(m1), sig, f"compiled evaluate_curvature: {rt} {rk} {ok}")
            if n == 3:
                rt = np.full(3, 7.0)
                CA.evaluate_tangent(D1, D2, rt)
                ctx.expect(close(rt, T), sig, f"compiled evaluate_tangent: {rt}")
            ctx.expect(tuple(D1) == d1 and tuple(D2) == d2, sig, "the derivatives were changed")
            if m1 and any(perp):
                Nn = A(perp) / math.sqrt(sum(p * p for p in perp))
                ctx.expect(close(N.normal_at(D1, D2), Nn) and close(N.normal_at(list(d1), list(d2)), Nn), sig, "normal_at")
                if n == 3:
                    B = np.cross(T, Nn)
                    pl = N.plane_on_curve(O, T, D2)
                    ctx.expect(close(pl, [O, T, Nn, B]), sig, f"plane_on_curve: {pl}")
                    ctx.expect(close(N.swap_z_to_first_der(np.array([O, T, Nn, B])), [O, Nn, B, T]), sig, "swap_z_to_first_der")
                    R = 1 / math.sqrt(sum(F(p * p, m1 ** 4) for p in perp))
                    o, r, pl = N.circle_of_curvature(Stub(O, D1, D2), 0.5)
                    ctx.expect(close(o, O) and abs(r - R) <= 1e-9 * R and close(pl, [O + R * Nn, T, Nn, B]), sig,
                               f"circle of curvature: {o} {r} {pl}")
        ctx.step()
    with ctx.at(f"D1={d1}"):
        rep = np.tile(D1, (len(vectors), 1))
        D2s = A(vectors)
        t, ok = N.evaluate_tangent_vec(rep, D2s)
        ctx.expect(close(t, np.array(allT)), f"D1={d1}", "evaluate_tangent_vec")
        t, k, ok = N.evaluate_curvature_vec(rep, D2s)
        ctx.expect(close(t, np.array(allT)) and close(k, np.array(allK)) and bool(np.all(ok == bool(m1))), f"D1={d1}", "evaluate_curvature_vec")
        mask = [i for i, k in enumerate(allK) if np.any(k != 0)]
        if m1 and mask:
            many = N.normal_at(rep[mask], D2s[mask])
            want = np.array([allK[i] / np.linalg.norm(allK[i]) for i in mask])
            ctx.expect(close(many, want), f"D1={d1}", "normal_at of many points")


# ---- Jacobians and normals --------------------------------------------------------------------------------------------------

def icross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def idot(a, b):
    return sum(x * y for x, y in zip(a, b))


def t_jacobian(ctx, us):
    Z = np.array([3.0, -1.0, 2.0])
    for du in us:
        for dv in R3:
            sig = f"Du={du} Dv={dv}"
            ctx.state((du, dv))
            c = icross(du, dv)
            det = idot(c, c)
            U, V = A(du), A(dv)
            with ctx.at(sig):
                d, ok = N.evaluate_jacobian(float(idot(du, du)), float(idot(du, dv)), float(idot(dv, dv)))
                ctx.expect(d == det and bool(ok) == (det != 0), sig, f"evaluate_jacobian: {d} {ok}, the determinant is {det}")
                J = np.asarray(CA.surface_jacobian(U, V))
                ctx.expect(J.tolist() == [[idot(du, du), idot(du, dv)], [idot(dv, du), idot(dv, dv)]], sig, f"surface_jacobian: {J}")
                if det:
                    for f in (N.evaluate_normal, N.evaluate_normal2):
                        for lim in (None, 3):
                            ctx.expect(np.allclose(f(U, V, Z, Z + 1, -Z, lim), c, atol=1e-12), sig, f"{f.__name__}")
            ctx.step()


SECONDS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, -1, 2), (0, 2, -1), (0, 0, 0)]
SINGULAR = [((0, 0, 0), (1, 0, 0)), ((0, 0, 0), (0, 1, 2)), ((0, 0, 0), (-1, 1, 1)), ((1, 0, 0), (0, 0, 0)), ((0, 2, -1), (0, 0, 0)),
            ((1, 1, -1), (0, 0, 0)), ((1, 0, 0), (1, 0, 0)), ((1, 0, 0), (-2, 0, 0)), ((0, 1, 1), (0, 2, 2)), ((1, -1, 2), (-1, 1, -2)),
            ((2, 2, -2), (1, 1, -1)), ((0, 0, 1), (0, 0, -1)), ((0, 0, 0), (0, 0, 0))]
LIMITS = {None: (1, 1), 1: (1, 1), 2: (-1, 1), 3: (-1, -1), 4: (1, -1)}


def t_singular(ctx, du, dv):
    for suu, suv, svv in itertools.product(SECONDS, repeat=3):
        for lim, (a, b) in LIMITS.items():
            sig = f"Du={du} Dv={dv} Suu={suu} Suv={suv} Svv={svv} limit={lim}"
            # the partials a little into the quadrant, exactly; their cross product is e * first + e^2 * (..)
            e = F(1, 10 ** 9)
            pu = [x + e * (a * y + b * z) for x, y, z in zip(du, suu, suv)]
            pv = [x + e * (a * y + b * z) for x, y, z in zip(dv, suv, svv)]
            c = [float(x / e) for x in icross(pu, pv)]
            r = math.sqrt(idot(c, c))
            ctx.state((du, dv, suu, suv, svv, lim))
            if r < 1e-6:
                continue  # singular also to first order
            with ctx.at(sig):
                for f in (N.evaluate_normal, N.evaluate_normal2):
                    n = f(A(du), A(dv), A(suu), A(suv), A(svv), lim)
                    ctx.expect(close(n, np.array(c) / r, 1e-7), sig, lambda: f"{f.__name__}: {n}, the limit of the normals is {np.array(c) / r}")
            ctx.step()


# ---- 3x2 systems ------------------------------------------------------------------------------------------------------------

def t_solve(ctx, c0s):
    for c0 in c0s:
        for c1 in R3:
            c = icross(c0, c1)
            rank = 2 if any(c) else (1 if any(c0) or any(c1) else 0)
            sig = f"columns {c0} {c1}"
            ctx.state((c0, c1))
            with ctx.at(sig):
                for x, y in ((1, 0), (-2, 3), (F(1, 2), F(-3, 4))):
                    d = [float(x * p + y * q) for p, q in zip(c0, c1)]
                    for cols in ((list(c0), list(c1)), (A(c0), A(c1))):
                        code, rx, ry, err, ratio = N.solve3x2(*cols, *d)
                        ctx.expect(code == rank, sig, f"rank {code}, it is {rank}")
                        ctx.expect(tuple(cols[0]) == c0 and tuple(cols[1]) == c1, sig, "the columns were changed")
                        if rank == 2:
                            ctx.expect(abs(rx - x) < 1e-12 and abs(ry - y) < 1e-12 and abs(err) < 1e-12, sig, f"{rx} {ry} {err}, want {x} {y}")
            ctx.step()


# ---- curvature of sections and intersections --------------------------------------------------------------------------------

FRAMES = [((1, 0, 0), (0, 1, 0)), ((0, 0, 2), (1, 0, 0)), ((1, 1, 0), (0, 1, 1)), ((2, 0, -1), (1, 1, 0)), ((0, 1, 0), (1, 0, 2)),
          ((1, -1, 1), (1, 1, -1)), ((-1, 0, 1), (0, 2, 1))]
JETS = [(0, 0, 0), (0, 0, 1), (1, 2, -1), (-2, 0, 1)]


def t_section(ctx, su, sv):
    Nn = icross(su, sv)
    planes = [p for p in itertools.product((-1, 0, 1), repeat=3) if any(p)]
    for suu, suv, svv in itertools.product(JETS, repeat=3):
        for n in planes:
            sig = f"S10={su} S01={sv} S20={suu} S11={suv} S02={svv} plane {n}"
            ctx.state((su, sv, suu, suv, svv, n))
            T = icross(Nn, n)  # a tangent of the section
            with ctx.at(sig):
                ok, k = N.evaluate_sectional_curvature(A(su), A(sv), A(suu), A(suv), A(svv), A(n))
                if not any(T):
                    ctx.expect(not ok and not np.any(k), sig, "the plane is tangent")
                    continue
                # T = a su + b sv, exactly; normal curvature; the curvature vector lies in the plane, perpendicular to T
                g = [[idot(su, su), idot(su, sv)], [idot(su, sv), idot(sv, sv)]]
                det = g[0][0] * g[1][1] - g[0][1] ** 2
                r0, r1 = idot(T, su), idot(T, sv)
                a, b = F(r0 * g[1][1] - r1 * g[0][1], det), F(g[0][0] * r1 - g[0][1] * r0, det)
                acc = [a * a * x + 2 * a * b * y + b * b * z for x, y, z in zip(suu, suv, svv)]
                w = icross(n, T)
                # K = lam * w with K.Nn = acc.Nn / |T|^2
                lam = idot(acc, Nn) / (F(idot(T, T)) * idot(w, Nn))
                want = [float(lam * x) for x in w]
                ctx.expect(bool(ok) and close(k, want), sig, lambda: f"curvature {k}, want {want}")
            ctx.step()


def jets():
    out = []
    for i, (su, sv) in enumerate(FRAMES):
        for j, k in enumerate([(0, 0, 0), (1, 0, 0), (1, 2, 3), (3, 1, 2), (2, 0, 1), (0, 3, 0)]):
            if (i + j) % 7 != 6:
                out.append((su, sv) + tuple(JETS[x] for x in k))
    return out


def t_intersection(ctx, i):
    js = jets()
    s1 = js[i]
    for s2 in js:
        sig = f"{s1} and {s2}"
        ctx.state((s1, s2))
        n1, n2 = icross(*s1[:2]), icross(*s2[:2])
        T = icross(n1, n2)
        with ctx.at(sig):
            try:
                k, t = compute_intersection_curvature(*[A(x) for x in s1], *[A(x) for x in s2])
            except ValueError:
                ctx.expect(not any(T), sig, "reported as tangential")
                continue
            ctx.expect(any(T), sig, "the surfaces are tangential")
            if not any(T):
                continue
            # arc length parametrisation: K.n_i = II_i(T) / |T|^2, K.T = 0
            rhs = []
            for s, n in ((s1, n1), (s2, n2)):
                g = np.array([[idot(s[0], s[0]), idot(s[0], s[1])], [idot(s[0], s[1]), idot(s[1], s[1])]], dtype=float)
                a, b = np.linalg.solve(g, A([idot(T, s[0]), idot(T, s[1])]))
                rhs.append(idot([a * a * x + 2 * a * b * y + b * b * z for x, y, z in zip(*s[2:])], n) / idot(T, T))
            want = np.linalg.solve(A([n1, n2, T]), A(rhs + [0]))
            ctx.expect(close(k, want, 1e-8), sig, lambda: f"curvature {k}, want {want}")
            ctx.expect(close(t, A(T) / math.sqrt(idot(T, T))), sig, f"tangent {t}")
        ctx.step()


# ---- fundamental forms ------------------------------------------------------------------------------------------------------

DIRS = [(1, 0), (0, 1), (1, 1), (1, -2), (-3, 1)]
THETAS = [0.0, 0.5, 1.2, math.pi / 2, 2.5, -0.75]


def kind(K, H):
    T = FF.PointOnSurfaceType
    return T.ELLIPTIC if K > 0 else T.HYPERBOLIC if K < 0 else T.PARABOLIC if H != 0 else T.FLAT


def check_forms(ctx, sig, ru, rv, form2, tol):
    """The functions of the two forms against the exact values; ru, rv, form2 are exact numbers."""
    E, Fm, G = FF.first_fundamental_form(A(ru), A(rv))
    L, M, Nn = (float(x) for x in form2)
    e, f, g = idot(ru, ru), idot(ru, rv), idot(rv, rv)
    l, m, n = form2
    ctx.expect((E, Fm, G) == (float(e), float(f), float(g)), sig, "first fundamental form")
    det = e * g - f * f
    K = F(l * n - m * m) / det
    H = F(e * n + g * l - 2 * f * m) / (2 * det)
    ctx.expect(abs(FF.gaussian_curvature(E, Fm, G, L, M, Nn) - K) <= tol, sig, "gaussian curvature")
    ctx.expect(abs(FF.mean_curvature(E, Fm, G, L, M, Nn) - H) <= tol, sig, "mean curvature")
    disc = H * H - K
    k1, k2 = FF.principal_curvatures(E, Fm, G, L, M, Nn)
    w1, w2 = float(H) + math.sqrt(disc), float(H) - math.sqrt(disc)
    ctx.expect(abs(k1 - w1) <= 1e-6 and abs(k2 - w2) <= 1e-6, sig, f"principal curvatures {k1} {k2}, want {w1} {w2}")
    d1, d2 = FF.principal_directions(E, Fm, G, L, M, Nn, k1, k2)
    I, II = np.array([[E, Fm], [Fm, G]]), np.array([[L, M], [M, Nn]])
    size = 1 + np.abs(II).max() + abs(k1) * np.abs(I).max() + abs(k2) * np.abs(I).max()
    for d, k in ((d1, k1), (d2, k2)):
        ctx.expect(abs(np.linalg.norm(d) - 1) < 1e-9, sig, f"principal direction {d} is not a unit vector")
        ctx.expect(np.abs((II - k * I) @ d).max() <= 1e-6 * size, sig, f"{d} is not a principal direction")
    ctx.expect(abs(d1 @ I @ d2) <= 1e-6 * (E + G), sig, f"the principal directions {d1} and {d2} are not orthogonal on the surface")
    for du, dv in DIRS:
        want = F(l * du * du + 2 * m * du * dv + n * dv * dv) / (e * du * du + 2 * f * du * dv + g * dv * dv)
        ctx.expect(abs(FF.normal_curvature(E, Fm, G, L, M, Nn, du, dv) - want) <= tol, sig, f"normal curvature along {du, dv}")
        arc = FF.infinitesimal_arc_length(E, Fm, G, du, dv)
        ctx.expect(abs(arc - math.sqrt(e * du * du + 2 * f * du * dv + g * dv * dv)) <= 1e-12 * (1 + arc), sig, f"arc length along {du, dv}")
    e1, e2 = d1 / math.sqrt(d1 @ I @ d1), d2 / math.sqrt(d2 @ I @ d2)
    for th in THETAS:
        d = math.cos(th) * e1 + math.sin(th) * e2
        ctx.expect(abs(FF.euler_curvature(k1, k2, th) - FF.normal_curvature(E, Fm, G, L, M, Nn, *d)) <= 1e-5, sig, f"Euler's curvature at {th}")
    ctx.expect(FF.classify_point(float(K), float(H)) == kind(K, H), sig, "type of the point from K and H")
    if K:
        ctx.expect(FF.classify_point_dupin(k1, k2) == kind(K, H), sig, "type of the point from the principal curvatures")
        typ, curve = FF.dupin_indicatrix(k1, k2)
        ctx.expect(typ == kind(K, H), sig, "type of the point from the indicatrix")
        lo, hi = curve.interval
        for t in np.linspace(lo, hi, 5):
            x, y = curve(t)
            v = k1 * x * x + k2 * y * y
            ctx.expect(abs(abs(v) - 1) < 1e-6 * (1 + abs(k1) * x * x), sig, f"the point {x, y} is not on the indicatrix")
    return K, H, k1, k2


def t_forms(ctx, ru, rvs):
    for rv in rvs:
        c = icross(ru, rv)
        if not any(c):
            continue
        for form2 in itertools.product(range(-2, 3), repeat=3):
            sig = f"ru={ru} rv={rv} second form {form2}"
            ctx.state((ru, rv, form2))
            with ctx.at(sig):
                check_forms(ctx, sig, ru, rv, form2, 1e-9)
            ctx.step()


def t_kinds(ctx):
    T = FF.PointOnSurfaceType
    vals = [-3.0, -0.5, 0.0, 0.25, 2.0]
    for k1, k2 in itertools.product(vals, repeat=2):
        sig = f"k1={k1} k2={k2}"
        ctx.state((k1, k2))
        want = kind(k1 * k2, k1 + k2)
        if k1 * k2 == 0:
            want = T.FLAT if k1 == k2 == 0 else T.PARABOLIC
        with ctx.at(sig):
            ctx.expect(FF.classify_point_dupin(k1, k2) == want, sig, "classify_point_dupin")
            ctx.expect(FF.classify_point(k1 * k2, (k1 + k2) / 2) == want, sig, "classify_point")
            typ, curve = FF.dupin_indicatrix(k1, k2)
            ctx.expect(typ == want and (curve is None) == (want == T.FLAT), sig, f"dupin_indicatrix: {typ} {curve}")
        ctx.step()


class Poly(Surface):
    """x, y and z are biquadratic: coefficients c[i][j] of u^i v^j for each."""

    def __init__(self, cs):
        self.cs = [np.array(c, dtype=float) for c in cs]
        super().__init__()

    def evaluate(self, uv):
        u, v = uv
        return np.array([np.array([1.0, u, u * u]) @ c @ np.array([1.0, v, v * v]) for c in self.cs])


def exact(cs, u, v, du, dv):
    """The (du, dv) derivative at (u, v), exactly."""
    def d(x, k):
        return {0: [F(1), x, x * x], 1: [F(0), F(1), 2 * x], 2: [F(0), F(0), F(2)]}[k]
    U, V = d(u, du), d(v, dv)
    return [sum(U[i] * V[j] * F(c[i][j]) for i in range(3) for j in range(3)) for c in cs]


X, Y = [[0, 0, 0], [1, 0, 0], [0, 0, 0]], [[0, 1, 0], [0, 0, 0], [0, 0, 0]]
GRAPHS = [[[0, 0, a], [0, b, 0], [c, 0, 0]] for a in (-1, 0, 1) for b in (0, 1) for c in (-1, 0, 2)]
SURFS = [[X, Y, g] for g in GRAPHS] + [
    [X, Y, [[0, 0, 0], [0, 1, 0], [0, 0, 1]]],
    [[[0, 1, 0], [1, 0, 1], [0, 0, 0]], [[0, 2, 0], [0, 1, 0], [1, 0, 0]], [[1, 0, 1], [0, 0, 0], [0, 1, 0]]],
    [[[0, 0, 0], [2, 0, 0], [0, 0, 0]], [[0, 1, 0], [1, 0, 0], [0, 0, 0]], [[0, 0, 1], [0, 1, 0], [1, 0, 0]]],
    [[[1, 0, 0], [-1, 1, 0], [0, 0, 1]], [[0, -1, 0], [0, 0, 2], [1, 0, 0]], [[0, 3, 0], [1, 0, 0], [0, 1, 1]]],
    [[[0, 0, 0], [1, 1, 0], [0, 0, 0]], [[0, 1, 0], [-1, 0, 0], [0, 0, 0]], [[0, 0, 0], [1, 0, 0], [0, 0, 0]]],
    [Y, X, [[0, 0, 1], [0, 0, 0], [1, 0, 0]]],
]
PTS = [(F(a), F(b)) for a in (F(1, 2), 0, F(-3, 4)) for b in (F(1, 4), 0, 1)]


def t_surface(ctx, i):
    cs = SURFS[i]
    s = Poly(cs)
    uu, vv = np.array([float(p[0]) for p in PTS]), np.array([float(p[1]) for p in PTS])
    jets = []
    for u, v in PTS:
        o, du, dv, duu, dvv, duv = (exact(cs, u, v, *k) for k in ((0, 0), (1, 0), (0, 1), (2, 0), (0, 2), (1, 1)))
        nn = icross(du, dv)
        jet = np.array([[float(x) for x in r] for r in (o, du, dv, duu, dvv, duv)])
        jets.append((jet, A([float(x) for x in nn])))
        sig = f"surface {i} at {float(u), float(v)}"
        ctx.state((i, u, v))
        fu, fv = float(u), float(v)
        with ctx.at(sig):
            ctx.expect(close(SE.second_derivatives(s.evaluate_v2, fu, fv), jet, 1e-6), sig, "second_derivatives")
            ctx.expect(close(SE.derivatives(s.evaluate_v2, fu, fv), jet[1:3], 1e-8), sig, "derivatives")
            for k, name in ((1, "u"), (2, "v"), (3, "uu"), (4, "vv"), (5, "uv")):
                res = np.full(3, 7.0)
                getattr(SE, f"c_derivative_{name}")(s.evaluate_v2, fu, fv, res)
                ctx.expect(close(res, jet[k], 1e-6), sig, f"c_derivative_{name}: {res}, want {jet[k]}")
            if not any(nn):
                continue
            un = jets[-1][1] / np.linalg.norm(jets[-1][1])
            ctx.expect(close(SE.derivatives_normal(s.evaluate_v2, fu, fv), np.vstack([jet[1:3], un]), 1e-7), sig, "derivatives_normal")
            ctx.expect(close(SE.origin_derivatives_normal(s.evaluate_v2, fu, fv), np.vstack([jet[:3], un]), 1e-7), sig, "origin_derivatives_normal")
            forms, ders = FF.fundamental_forms_from_surface(s, fu, fv)
            want1 = [idot(du, du), idot(du, dv), idot(dv, dv)]
            r = math.sqrt(idot(nn, nn))
            want2 = [float(idot(nn, x)) / r for x in (duu, duv, dvv)]
            ctx.expect(close(forms, [float(x) for x in want1] + want2, 1e-6), sig, lambda: f"forms {forms}, want {want1} {want2}")
            ctx.expect(all(close(x, y, 1e-6) for x, y in zip(ders, (jet[0], jet[1], jet[2], jet[3], jet[5], jet[4], un))), sig, "derivatives of the forms")
            ctx.expect(close(FF.first_fundamental_form_from_surface(s, fu, fv), [float(x) for x in want1], 1e-7), sig, "first form of the surface")
            K, H, k1, k2 = check_forms(ctx, sig, du, dv, [idot(nn, x) for x in (duu, duv, dvv)], 1e-6)  # scaled by r, K by r^2
            ctx.expect(FF.classify_point_on_surface(s, fu, fv) == kind(K, H), sig, f"classified as {FF.classify_point_on_surface(s, fu, fv)}")
            if K:
                ctx.expect(FF.classify_point_on_surface(s, fu, fv, use_dupin=True) == kind(K, H), sig, "classified by the principal curvatures")
                typ, _ = FF.classify_point_on_surface(s, fu, fv, use_dupin=True, return_indicatrix=True)
                typ2, curve = FF.dupin_indicatrix_on_surface(s, fu, fv)
                ctx.expect(typ == typ2 == kind(K, H), sig, "classified by the indicatrix")
                x, y = curve(0.5)
                ctx.expect(abs(abs(k1 / r * x * x + k2 / r * y * y) - 1) < 1e-4 * (1 + abs(k1 / r) * x * x), sig, "the indicatrix of the surface")
        ctx.step()
    sig = f"surface {i}"
    with ctx.at(sig):
        jet = np.array([j for j, _ in jets])
        ctx.expect(close(SE.second_derivatives_array(s.evaluate_v2, uu, vv), jet, 1e-6), sig, "second_derivatives_array")
        ctx.expect(close(SE.derivatives_array(s.evaluate_v2, uu, vv), jet[:, 1:3], 1e-7), sig, "derivatives_array")
        reg = [k for k, (_, n) in enumerate(jets) if np.any(n)]
        un = np.array([jets[k][1] / np.linalg.norm(jets[k][1]) for k in reg])[:, None, :]
        got = SE.derivatives_normal_array(s.evaluate_v2, uu[reg], vv[reg])
        ctx.expect(close(got, np.concatenate([jet[reg][:, 1:3], un], axis=1), 1e-6), sig, "derivatives_normal_array")
        got = SE.origin_derivatives_normal_array(s.evaluate_v2, uu[reg], vv[reg])
        ctx.expect(close(got, np.concatenate([jet[reg][:, :3], un], axis=1), 1e-6), sig, "origin_derivatives_normal_array")
        # distances along straight lines of the parameters: the left sum of n steps is off by less than the variation of the speed / n
        for (u0, v0), (u1, v1) in (((0, 0), (1, 0)), ((0, 1), (1, 0)), ((-0.5, 0.25), (0.5, 0.75)), ((0.25, 0.5), (0.25, -0.5))):
            ts = np.linspace(0, 1, 2001)
            sp = np.array([np.linalg.norm([float(x) * (u1 - u0) + float(y) * (v1 - v0) for x, y in zip(
                exact_f(cs, u0 + t * (u1 - u0), v0 + t * (v1 - v0), 1, 0), exact_f(cs, u0 + t * (u1 - u0), v0 + t * (v1 - v0), 0, 1))]) for t in ts])
            length = np.trapezoid(sp, ts) if hasattr(np, "trapezoid") else np.trapz(sp, ts)
            var = np.abs(np.diff(sp)).sum()
            for n in (100, 20):
                d = FF.surface_distance(s, u0, v0, u1, v1, **({} if n == 100 else {"num_steps": n}))
                ctx.expect(abs(d - length) <= var / (n - 1) + 1e-5 * (1 + length), f"{sig} {u0, v0}->{u1, v1}", f"distance {d} in {n} steps, it is {length}")
            ctx.step()


def exact_f(cs, u, v, du, dv):
    U = {0: [1, u, u * u], 1: [0, 1, 2 * u]}[du]
    V = {0: [1, v, v * v], 1: [0, 1, 2 * v]}[dv]
    return [sum(U[i] * V[j] * c[i][j] for i in range(3) for j in range(3) if c[i][j]) for c in cs]


class Trig(Surface):
    def __init__(self, f):
        self.f = f
        super().__init__()

    def evaluate(self, uv):
        return np.array(self.f(*uv), dtype=float)


def t_classical(ctx):
    T = FF.PointOnSurfaceType
    c, s = math.cos, math.sin
    for R in (0.5, 1.0, 3.0):
        sphere = Trig(lambda u, v: (R * c(u) * c(v), R * s(u) * c(v), R * s(v)))
        cyl = Trig(lambda u, v: (R * c(u), R * s(u), v))
        torus = Trig(lambda u, v: ((4 * R + R * c(v)) * c(u), (4 * R + R * c(v)) * s(u), R * s(v)))
        plane = Trig(lambda u, v: (R * u, R * u + v, 2 * v))
        for u in (0.0, 0.75, 2.5, -1.25):
            for v in (0.0, 0.5, -1.0, 2.25):
                sig = f"R={R} at {u, v}"
                ctx.state((R, u, v))
                with ctx.at(sig):
                    cos = c(v)
                    for name, surf, want, typ in (
                            ("sphere", sphere, {1 / R}, T.ELLIPTIC), ("cylinder", cyl, {1 / R, 0.0}, T.PARABOLIC),
                            ("torus", torus, {1 / R, cos / (4 * R + R * cos)}, T.ELLIPTIC if cos > 0 else T.HYPERBOLIC), ("plane", plane, {0.0}, T.FLAT)):
                        forms, ders = FF.fundamental_forms_from_surface(surf, u, v)
                        k = FF.principal_curvatures(*forms)
                        # up to the orientation of the normal
                        got = sorted(k)
                        ok = any(np.allclose(got, sorted([sgn * min(want), sgn * max(want)]), atol=3e-4 + 3e-4 / R) for sgn in (1, -1))
                        ctx.expect(ok, sig, f"{name}: principal curvatures {k}, want {want} up to sign")
                        ctx.expect(FF.classify_point_on_surface(surf, u, v) == typ, sig, f"{name}: {FF.classify_point_on_surface(surf, u, v)}")
                    # the plane and the cylinder are developable: going a distance in a direction
                    for surf in (plane, cyl):
                        for dist in (0.25, 1.0):
                            for direction in (0.0, 1.0, 2.5):
                                a, b = FF.predict_point(surf, u, v, dist, direction)
                                d = FF.surface_distance(surf, u, v, a, b)
                                ctx.expect(abs(d - dist) <= 1e-3 * dist, sig, f"predict_point {direction}: {a, b} is at the distance {d}, not {dist}")
                ctx.step()


def chunks(seq, n):
    return [seq[i::n] for i in range(n)]


def tasks(tier):
    out = [(f"curve/3d{d1}", t_curve, (d1, R3)) for d1 in R3]
    out += [(f"curve/2d{d1}", t_curve, (d1, R2)) for d1 in R2]
    out += [(f"jacobian/{k}", t_jacobian, (us,)) for k, us in enumerate(chunks(R3, 16))]
    out += [(f"singular/{du}{dv}", t_singular, (du, dv)) for du, dv in SINGULAR]
    out += [(f"solve/{k}", t_solve, (us,)) for k, us in enumerate(chunks(R3, 16))]
    out += [(f"section/{su}{sv}", t_section, (su, sv)) for su, sv in FRAMES]
    out += [(f"intersection/{i}", t_intersection, (i,)) for i in range(len(jets()))]
    r1 = list(itertools.product((-1, 0, 1), repeat=3))
    for i, ru in enumerate(r1):
        if any(ru):
            rvs = r1 if tier == "thorough" else r1[i % 5::5]
            out.append((f"forms/{ru}", t_forms, (ru, rvs)))
    out += [("kinds", t_kinds, ()), ("classical", t_classical, ())]
    out += [(f"surface/{i}", t_surface, (i,)) for i in range(len(SURFS))]
    return out
