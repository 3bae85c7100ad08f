"""C20: numerical derivatives are exact on the polynomials they are exact for; Newton's method finds the root or the stationary point."""
import importlib
import itertools
import warnings
from fractions import Fraction as F
from functools import lru_cache

import numpy as np

from mmcore.numeric.divide_and_conquer import (iterative_divide_and_conquer_min, recursive_divide_and_conquer_max,
                                               recursive_divide_and_conquer_min)
from mmcore.numeric.newton import bounded as B
from mmcore.numeric.newton import cnewton as C

M = importlib.import_module("mmcore.numeric.fdm")  # the package has a function of the same name
warnings.simplefilter("ignore")

PID = "C20"
ASSUMPTIONS = [
    "with integer polynomials, points of small dyadic coordinates and steps that are powers of two every intermediate result is a double, so equality is asked for; with the default steps, agreement to 1e-5 of the size of the values",
    "the Newton iterations are asked for nonsingular Hessians and Jacobians with entries up to 3",
]
BOUNDS = {
    "derivatives in one variable": "every quadratic with coefficients -2..2 and cubic of a family, every affine function, scalar and array arguments, steps 2^-3, 2^-6 and the default; bounded_fdm at every point of a grid of the interval",
    "gradients and Hessians": "every quadratic in 1, 2 (coefficients -2..2) and 3 (quick: -1..1) variables at a grid of points, in both implementations, one point and many points at a time, float and integer points",
    "critical points": "every symmetric 2x2 matrix with entries -4..4, integer and float",
    "roots of systems": "every nonsingular 1x1, 2x2 (entries -3..3), 3x3 (entries -1..2; thorough -2..2) and every row permutation of nine 4x4 systems with 2 right-hand sides and 2 starts; quadratic systems with known roots",
    "stationary points": "every nonsingular quadratic in 1 and 2 variables with entries -2..2 and in 3 variables with entries -1..1 x starts",
    "bounded": "every positive definite quadratic with entries -3..3 x boxes x starts; every quartic in one variable with coefficients -2..2 (thorough 6 starts, else 3) and quartic surfaces for the bounds and the descent",
    "divide and conquer": "every V-shaped and quartic valley with minimum on a grid of [0, 2], slopes 1..4 to either side",
}


def close(a, b, tol):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


# ---- one variable -----------------------------------------------------------------------------------------------------------

def curves(c):
    """The space curve with the polynomial c and two relatives of it as its components; works on numbers and arrays of them."""
    c0, c1, c2 = c
    return lambda t: np.stack([c0 + c1 * t + c2 * t * t, 3 + 2 * t - c2 * t * t + 0 * c1, c1 + c0 * t + t * t], axis=-1)


def d_curves(c):
    c0, c1, c2 = c
    return lambda t: np.stack([c1 + 2 * c2 * t, 2 - 2 * c2 * t, c0 + 2 * t], axis=-1)


TS = [-1.5, -0.25, 0.0, 0.5, 1.0, 2.75]


def t_one(ctx, c2):
    for c0, c1 in itertools.product(range(-2, 3), repeat=2):
        c = (c0, c1, c2)
        f = lambda t: c0 + c1 * t + c2 * t * t
        d = lambda t: c1 + 2 * c2 * t + 0 * t
        g, dg = curves(c), d_curves(c)
        ctx.state(c)
        sig = f"polynomial {c}"
        args = TS + [2, np.array(TS)]
        for h in (0.125, 2.0 ** -6, None):
            kw = {} if h is None else {"h": h}
            tol = 0 if h else 1e-5
            shift = (h or 1e-3) * c2  # what the one-sided differences of a quadratic are off by
            obj = M.FDM(f)
            cur = M.FDM(g)
            for t in args:
                w = f"{sig} t={t} h={h}"
                with ctx.at(w):
                    for how, off in (("central", 0), ("forward", shift), ("backward", -shift)):
                        want = d(np.asarray(t, dtype=float)) + off
                        ctx.expect(close(M.fdm(f, how, **kw)(t), want, tol), w, f"fdm {how}")
                        ctx.expect(close(obj(t, method=how, **kw), want, tol), w, f"FDM {how}")
                        wantc = dg(np.asarray(t, dtype=float))
                        if how == "central":
                            ctx.expect(close(M.fdm(g, how, **kw)(t), wantc, tol), w, "fdm of a curve")
                            ctx.expect(close(cur(t, **kw), wantc, tol), w, "FDM of a curve")
                    ctx.expect(close(M.derivate(f, t, **kw), d(np.asarray(t, dtype=float)), tol), w, "derivate")
                    if h is None:
                        D = np.atleast_2d(dg(np.asarray(t, dtype=float)))
                        for name, i, j in (("dydx", 1, 0), ("dzdx", 2, 0), ("dzdy", 2, 1)):
                            ok = np.abs(D[:, j]) > 0.2
                            if ok.all():
                                ctx.expect(close(getattr(cur, name)(t), D[:, i] / D[:, j], 1e-4), w, name)
                ctx.step(6)
        # near the ends of its interval the difference is one-sided, and nothing is evaluated outside
        for lo, hi in ((0.0, 1.0), (-1.0, 2.0)):
            for h in (0.125, 0.25):
                seen = []

                def inside(t):
                    seen.append(t)
                    return f(t)

                got = M.bounded_fdm(inside, h=h, bounds=(lo, hi))
                for i in range(33):
                    t = lo + (hi - lo) * i / 32
                    del seen[:]
                    v = got(t)
                    off = h * c2 if t - lo <= h else -h * c2 if hi - t <= h else 0
                    w = f"{sig} t={t} h={h} in [{lo}, {hi}]"
                    ctx.expect(v == d(t) + off, w, f"bounded_fdm gives {v}, the derivative is {d(t)}, a one-sided difference may be off by {off}")
                    ctx.expect(lo <= min(seen) and max(seen) <= hi, w, "bounded_fdm evaluates outside the bounds")
                    ctx.step()
    ctx.trace()


# ---- several variables ------------------------------------------------------------------------------------------------------

def quadratic(A, b, c):
    """x'Ax/2 + b'x + c for integer symmetric A; its gradient A x + b."""
    A = np.array(A, dtype=float)
    b = np.array(b, dtype=float)
    n = len(b)

    def f(x):
        s = c + 0.0
        for i in range(n):
            s = s + b[i] * x[i]
            for j in range(n):
                s = s + 0.5 * A[i, j] * x[i] * x[j]
        return s

    return f, (lambda x: A @ np.asarray(x, dtype=float) + b), A


def symmetric(n, vals):
    pairs = [(i, j) for i in range(n) for j in range(i, n)]
    for v in itertools.product(vals, repeat=len(pairs)):
        A = [[0] * n for _ in range(n)]
        for (i, j), x in zip(pairs, v):
            A[i][j] = A[j][i] = x
        yield tuple(map(tuple, A))


POINTS = {1: [(0.5,), (-2.0,), (3.0,)], 2: [(0.5, -1.0), (2.0, 3.0), (0.0, 0.0)], 3: [(0.5, -1.0, 2.0), (1.0, 2.0, -3.0)]}


def t_grad(ctx, n, vals, first):
    for A in symmetric(n, vals):
        if A[0][0] != first:
            continue
        b = [1, -2, 3][:n]
        f, g, H = quadratic(A, b, 1)
        ctx.state(A)
        P = np.array(POINTS[n])
        sig = f"Hessian {A}"
        with ctx.at(sig):
            for p in POINTS[n]:
                w = f"{sig} at {p}"
                want = g(p)
                x = np.array(p)
                asked = [("fdm.gradient", M.gradient(f, x, 0.125), want, 0), ("fdm.hessian", M.hessian(f, x, 0.125), H, 0),
                         ("cnewton.gradient", C.gradient(f, x, 0.125), want, 0), ("cnewton.hessian", C.hessian(f, x, 0.125), H, 0),
                         ("pde", M.pde(f, x, 0.125), want, 0), ("Grad", M.Grad(f)(x, h=0.125), want, 0),
                         ("Hess", M.Hess(f, 0.125)(x), H, 0),
                         ("Grad forward", M.Grad(f).forward(x, h=0.125), want + 0.0625 * np.diag(H), 0),
                         ("Grad backward", M.Grad(f).backward(x, h=0.125), want - 0.0625 * np.diag(H), 0),
                         ("fdm.gradient, default step", M.gradient(f, x), want, 1e-5),
                         ("fdm.hessian, default step", M.hessian(f, x), H, 1e-5),
                         ("cnewton.gradient, default step", C.gradient(f, x), want, 1e-5),
                         ("cnewton.hessian, default step", C.hessian(f, x), H, 1e-4)]
                if all(float(v).is_integer() for v in p):
                    q = np.array(p, dtype=int)
                    asked += [("fdm.gradient of an integer point", M.gradient(f, q, 0.125), want, 0),
                              ("fdm.hessian of an integer point", M.hessian(f, q, 0.125), H, 0)]
                    ctx.expect(q.tolist() == list(p), w, "the point was changed")
                for name, got, exp, tol in asked:
                    ctx.expect(close(got, exp, tol), w, lambda: f"{name} = {np.asarray(got).tolist()}, not {np.asarray(exp).tolist()}")
                    ctx.step()
                ctx.expect(x.tolist() == list(p), w, "the point was changed")
            Q = P.copy()
            ctx.expect(close(M.gradient_multi(f, Q, 0.125), np.array([g(p) for p in P]), 0), sig, "gradient_multi")
            ctx.expect(close(M.hessian_multi(f, Q, 0.125), np.array([H for _ in P]), 0), sig, "hessian_multi")
            ctx.expect((Q == P).all(), sig, "the points were changed")
    ctx.trace()


def t_classify(ctx):
    T = M.CriticalPointType
    for a, b, c in itertools.product(range(-4, 5), repeat=3):
        det = a * c - b * b
        want = T.UNDEFINED if det == 0 else T.SADDLE_POINT if det < 0 else T.LOCAL_MINIMUM if a > 0 else T.LOCAL_MAXIMUM
        ctx.state((a, b, c))
        for dt in (int, float):
            ctx.expect(M.classify_critical_point_2d(np.array([[a, b], [b, c]], dtype=dt)) == want, f"{(a, b, c)} {dt.__name__}", f"not {want}")
            ctx.step()
    for shape in ((2, 3), (3, 3), (2,)):
        try:
            M.classify_critical_point_2d(np.zeros(shape))
            ctx.fail(str(shape), "a Hessian that is not 2x2 is accepted")
        except ValueError:
            pass
    ctx.trace()


# ---- roots and stationary points -----------------------------------------------------------------------------------------------

def solve(A, b):
    """Exact solution of A x = b, or None."""
    n = len(A)
    R = [[F(v) for v in row] + [F(w)] for row, w in zip(A, b)]
    for k in range(n):
        p = next((i for i in range(k, n) if R[i][k] != 0), None)
        if p is None:
            return None
        R[k], R[p] = R[p], R[k]
        for i in range(n):
            if i != k and R[i][k] != 0:
                m = R[i][k] / R[k][k]
                R[i] = [x - m * y for x, y in zip(R[i], R[k])]
    return [float(R[i][n] / R[i][i]) for i in range(n)]


def singular_is_refused(ctx, A, sig):
    n = len(A)
    J = np.array(A, dtype=float)
    try:
        C.newton_method2(lambda x: J @ x + 1.0, lambda x: J, np.zeros(n))
    except ValueError:
        return
    ctx.fail(sig, "a system with a singular Jacobian is said to be solved")


def affine(ctx, A, sig):
    n = len(A)
    J = np.array(A, dtype=float)
    for b in ([1, -2, 3, 5][:n], [0, 1, 0, -4][:n]):
        x = solve(A, b)
        if x is None:
            return
        x = np.array(x)
        for x0 in (np.zeros(n), np.array([5.0, -7.0, 2.0, 11.0][:n])):
            start = x0.copy()
            got = C.newton_method2(lambda y: J @ y - np.array(b, dtype=float), lambda y: J, start)
            size = 1 + np.abs(x).max()
            ctx.expect(close(got, x, 1e-7 * size), sig, lambda: f"newton_method2 for right-hand side {b} from {x0.tolist()}: {np.asarray(got).tolist()}, the root is {x.tolist()}")
            ctx.expect((start == x0).all(), sig, "the start was changed")
            ctx.step()
    ctx.state(A)


def t_roots(ctx, n, vals, first):
    for row in itertools.product(vals, repeat=n * n - len(first)):
        v = first + row
        A = tuple(v[i * n:(i + 1) * n] for i in range(n))
        with ctx.at(str(A)):
            affine(ctx, A, str(A))
    ctx.trace()


FOURS = [((4, 1, 0, 0), (1, 4, 1, 0), (0, 1, 4, 1), (0, 0, 1, 4)), ((0, 1, 0, 0), (0, 0, 2, 0), (0, 0, 0, 3), (4, 0, 0, 0)),
         ((1, 1, 1, 1), (1, 2, 3, 4), (1, 3, 6, 10), (1, 4, 10, 20)), ((2, -1, 0, 3), (2, -1, 5, 1), (-4, 3, 1, 0), (6, 0, 1, 2)),
         ((0, 0, 1, 1), (0, 0, 1, -1), (1, 1, 0, 0), (1, -1, 0, 0)), ((1, 2, 0, 1), (2, 4, 1, 0), (3, 1, 1, 1), (0, 5, 2, 7)),
         ((5, 0, 0, 1), (0, 0, 3, 0), (0, 2, 0, 0), (1, 0, 0, 0)), ((1, -1, 1, -1), (1, 1, -1, -1), (1, -1, -1, 1), (1, 1, 1, 1)),
         ((3, 3, 3, 1), (3, 3, 1, 3), (3, 1, 3, 3), (1, 3, 3, 3))]


def t_fours(ctx):
    for A in FOURS:
        for p in itertools.permutations(range(4)):
            R = tuple(A[i] for i in p)
            with ctx.at(str(R)):
                affine(ctx, R, str(R))
    # circles, lines and hyperbolas with known crossings: the root next to the start
    for cx, cy, r in itertools.product(range(-1, 2), range(-1, 2), (1, 2)):
        f = lambda x: np.array([(x[0] - cx) ** 2 + (x[1] - cy) ** 2 - r * r, x[0] - cx - (x[1] - cy)])
        J = lambda x: np.array([[2 * (x[0] - cx), 2 * (x[1] - cy)], [1.0, -1.0]])
        for s in (1, -1):
            want = np.array([cx, cy]) + s * r / 2 ** 0.5
            got = C.newton_method2(f, J, np.array([cx + s * r, cy + s * 0.5 * r]))
            ctx.expect(close(got, want, 1e-7), f"circle {(cx, cy, r)} {s}", lambda: f"{np.asarray(got).tolist()}, not {want.tolist()}")
            ctx.step()
    # singular systems are refused
    for A in itertools.product((-1, 0, 1), repeat=4):
        if A[0] * A[3] == A[1] * A[2]:
            singular_is_refused(ctx, (A[:2], A[2:]), f"singular {A}")
    ctx.trace()


def t_stationary(ctx, n, vals, first, thorough):
    for A in symmetric(n, vals):
        if A[0][0] != first:
            continue
        b = [1, -2, 3][:n]
        x = solve(A, [-v for v in b])
        if x is None:
            continue
        f, g, H = quadratic(A, b, 1)
        x = np.array(x)
        ctx.state(A)
        sig = f"Hessian {A}"
        tol = 1e-4 * (1 + np.abs(x).max())
        starts = [np.array(p) for p in POINTS[n][:(3 if thorough else 2)]]
        with ctx.at(sig):
            for x0 in starts:
                s = x0.copy()
                for name, got in (("newtons_method", M.newtons_method(f, s)), ("cnewton.newtons_method", C.newtons_method(f, s)),
                                  ("newtons_method with derivatives", M.newtons_method(f, s, grad=g, hess=lambda p: H))):
                    ctx.expect(got is not None and close(got, x, tol), sig, lambda: f"{name} from {x0.tolist()}: {None if got is None else np.asarray(got).tolist()}, not {x.tolist()}")
                    ctx.step()
                full = M.newtons_method(f, s, full_return=True)
                ctx.expect(close(full[0], x, tol) and close(full[2], H, 1e-3), sig, "newtons_method with full_return")
                full = C.newtons_method(f, s, full_return=True)
                ctx.expect(close(full[0], x, tol) and close(full[2], H, 1e-3), sig, "cnewton.newtons_method with full_return")
                ctx.expect((s == x0).all(), sig, "the start was changed")
            got = M.multi_newtons_method(f, np.array(starts))
            ctx.expect(close(got, np.array([x] * len(starts)), tol), sig, lambda: f"multi_newtons_method: {got.tolist()}, not {x.tolist()}")
    ctx.trace()


# ---- bounded ---------------------------------------------------------------------------------------------------------------

def judge_bounded(ctx, f, x0, box, sig, want=None, tol=1e-5, **kw):
    lo, hi = np.array(box, dtype=float).T
    seen = {"out": None}
    x0 = np.array(x0, dtype=float)
    s = x0.copy()
    got = B.bounded_newtons_method(f, s, box, no_warn=True, **kw)
    ctx.step()
    sig = f"{sig} in {box} from {x0.tolist()}"
    ctx.expect((s == x0).all(), sig, "the start was changed")
    if got is None:
        ctx.count("gave up")
        ctx.expect(want is None, sig, "no minimum is found")
        return
    got = np.asarray(got)
    ctx.expect(bool(np.all(got >= lo) and np.all(got <= hi)), sig, lambda: f"{got.tolist()} is outside the bounds")
    start = np.clip(x0, lo, hi)
    ctx.expect(f(got) <= f(start), sig, lambda: f"the value rises from {f(start)} to {f(got)} at {got.tolist()}")
    if want is not None:
        ctx.expect(bool(np.all(np.abs(got - want) <= tol * (1 + np.abs(want)))), sig, lambda: f"{got.tolist()} is not the minimum {np.asarray(want).tolist()}")


def t_bounded_quadratics(ctx, first, thorough):
    # one variable: the minimum on the interval, inside it or at its end
    for b, (lo, hi) in itertools.product(range(-4, 5), [(0, 1), (-1, 1), (-2, 0.5), (1, 3)]):
        f = lambda x: 0.5 * first * x[0] * x[0] + b * x[0]
        want = min(max(-b / first, lo), hi)
        for x0 in (lo, (lo + hi) / 2, hi, lo - 1, hi + 2):
            judge_bounded(ctx, f, [x0], [(lo, hi)], f"{first}/2 x^2 + {b}x", [want])
        ctx.state((first, b, lo, hi))
    # two variables, minimum inside the box; separable ones anywhere
    for bxy, c in itertools.product(range(-3, 4), range(1, 4)):
        if first * c - bxy * bxy <= 0:
            continue
        A = ((first, bxy), (bxy, c))
        for x in ((0, 0), (0.5, -1), (1, 2), (-3, 0.25)):
            lin = [-sum(A[i][j] * x[j] for j in range(2)) for i in range(2)]
            f = quadratic(A, lin, 0)[0]
            for box in ([(-4, 2), (-3, 4)], [(-2, 2), (-2, 2)]):
                inside = all(l < v < h for v, (l, h) in zip(x, box))
                if not inside and bxy:
                    want = None
                else:
                    want = [min(max(v, l), h) for v, (l, h) in zip(x, box)]
                for x0 in ((1, 1), (-2, 1.5), (2, -3)):
                    judge_bounded(ctx, f, x0, box, f"Hessian {A} minimum {x}", want, 1e-5 if inside else 1e-3)
            ctx.state((A, x))
    ctx.trace()


def t_bounded_quartics(ctx, c4, thorough):
    for c in itertools.product(range(-2, 3), repeat=3):
        f = lambda x: c4 * x[0] ** 4 + c[0] * x[0] ** 3 + c[1] * x[0] ** 2 + c[2] * x[0]
        ctx.state((c4, c))
        for x0 in ([-1.0, -0.3, 0.0, 0.25, 1.0, 1.5] if thorough else [-1.0, -0.3, 0.25]):
            with ctx.at(f"quartic {c4} {c}"):
                judge_bounded(ctx, f, [x0], [(-1, 1.5)], f"quartic {c4} {c}")
    for c in itertools.product((-1, 0, 1), repeat=2 if not thorough else 3):
        c = c + (0,) * (3 - len(c))
        f = lambda x: c4 * x[0] ** 4 + x[1] ** 4 + c[0] * x[0] * x[1] + c[1] * x[0] ** 2 * x[1] + c[2] * x[1]
        for x0 in ((1, 1), (-0.5, 2)):
            with ctx.at(f"surface {c4} {c}"):
                judge_bounded(ctx, f, x0, [(-1, 2), (-2, 2)], f"surface {c4} {c}")
    ctx.trace()


# ---- divide and conquer ------------------------------------------------------------------------------------------------------

def t_divide(ctx):
    for i in range(33):
        x = i / 16
        for a, b in itertools.product(range(1, 5), repeat=2):
            for name, f in ((f"V {a} {b}", lambda t: a * (x - t) if t < x else b * (t - x)), (f"quartic {a} {b}", lambda t: a * (t - x) ** 2 + b * (t - x) ** 4)):
                for tol in (0.01, 1e-5):
                    w = f"{name} with minimum at {x}, tol {tol}"
                    ctx.state((x, a, b, name[0]))
                    for how, (t, v) in (("recursive min", recursive_divide_and_conquer_min(f, (0.0, 2.0), tol)),
                                        ("iterative min", iterative_divide_and_conquer_min(f, (0.0, 2.0), tol)),
                                        ("recursive max", recursive_divide_and_conquer_max(lambda s: -f(s), (0.0, 2.0), tol))):
                        ctx.expect(abs(t - x) <= tol, w, lambda: f"{how} finds {t}")
                        ctx.expect(abs(v) == f(t), w, lambda: f"{how} says the value at {t} is {v}")
                        ctx.step()
    ctx.trace()


def tasks(tier):
    th = tier == "thorough"
    r2, r1 = range(-2, 3), range(-1, 2)
    out = [(f"one variable/{c2}", t_one, (c2,)) for c2 in r2]
    out += [(f"gradients/1/{a}", t_grad, (1, range(-4, 5), a)) for a in range(-4, 5)]
    out += [(f"gradients/2/{a}", t_grad, (2, r2, a)) for a in r2]
    v3 = r2 if th else r1
    out += [(f"gradients/3/{a}", t_grad, (3, v3, a)) for a in v3]
    out += [("critical points", t_classify, ())]
    out += [(f"roots/1/{a}", t_roots, (1, range(-3, 4), (a,))) for a in range(-3, 4) if a]
    out += [(f"roots/2/{a}", t_roots, (2, range(-3, 4), (a,))) for a in range(-3, 4)]
    w3 = r2 if th else range(-1, 3)
    out += [(f"roots/3/{a} {b}", t_roots, (3, w3, (a, b))) for a in w3 for b in w3]
    out += [("roots/4", t_fours, ())]
    out += [(f"stationary/1/{a}", t_stationary, (1, r2, a, th)) for a in r2 if a]
    out += [(f"stationary/2/{a}", t_stationary, (2, r2, a, th)) for a in r2]
    out += [(f"stationary/3/{a}", t_stationary, (3, r1, a, th)) for a in r1]
    out += [(f"bounded/{a}", t_bounded_quadratics, (a, th)) for a in (1, 2, 3)]
    out += [(f"bounded quartics/{a}", t_bounded_quartics, (a, th)) for a in r2]
    out += [("divide and conquer", t_divide, ())]
    return out
