"""C25: points found or traced on implicit curves, surfaces and their intersections lie on them, and traces cover them."""
import itertools
import math

import numpy as np

from mmcore.geom.circle import Circle2D, circle_intersection2d, closest_point_on_circle_2d, tangents_lines
from mmcore.geom.implicit import implicit as I
from mmcore.geom.primitives import ImplicitCylinder, Sphere, Tube
from mmcore.numeric import calgorithms
from mmcore.numeric.algorithms.implicit_point import curve_point, intersection_curve_point, surface_plane, surface_point
from mmcore.numeric.intersection.implicit_implicit import ImplicitIntersectionCurve, iterate_curves
from mmcore.numeric.marching import marching_implicit_curve_points, marching_intersection_curve_points, raster_algorithm_2d

PID = "C25"
ASSUMPTIONS = [
    "points are asked for to the tolerance given; where only a first-order distance is known (not a signed distance) it is value / gradient length",
    "traces are asked to cover curves whose radius of curvature is at least 3 steps; two parts of a curve nearer than a step, and lenses smaller than the cells of the tree, are not claimed",
    "Newton iterations are asked to succeed from starts within a tenth of the size of the surfaces, where these cross at 30 degrees or more",
]
BOUNDS = {
    "points": "9 circles, 12 ellipses and ovals, 12 surfaces and 3 ellipsoids x a lattice of starts and starts along the axes, with gradients given or computed",
    "intersection points": "every ordered pair of 12 surfaces x a lattice of 125 starts x 2 tolerances (quick: one each), Python and compiled, all four signatures",
    "circles": "every ordered pair of 36 circles (9 centres, 4 radii); every circle x 49 points",
    "traces": "12 curves x steps x starts x ends x limits; the curves of 16 pairs of surfaces in 6 orientations (quick: 3) x 2 places x both orders x steps; 10 pairs that do not meet",
    "raster": "12 curves x 3 grids x 3 neighbourhoods",
}


def A(*v):
    return np.array(v, dtype=float)


# ---- points on one curve or surface -----------------------------------------------------------------------------------------

class Oval:
    """(x/a)^2 + (y/b)^2 = 1 about a centre, or a Cassini oval: not signed distances."""

    def __init__(self, name, f, g, size):
        self.name, self.f, self.g, self.size = name, f, g, size

    def __call__(self, p):
        return self.f(p)

    def grad(self, p):
        return self.g(p)

    def dist(self, p):
        g = np.linalg.norm(self.g(p))
        return abs(self.f(p)) / g if g else math.inf


def ellipse(cx, cy, a, b):
    return Oval(f"ellipse {cx, cy, a, b}", lambda p: ((p[0] - cx) / a) ** 2 + ((p[1] - cy) / b) ** 2 - 1,
                lambda p: A(2 * (p[0] - cx) / a ** 2, 2 * (p[1] - cy) / b ** 2), min(a, b))


def cassini(a, c):
    def g(p):
        x, y = p
        return A(4 * x * (x * x + y * y) - 4 * c * c * x, 4 * y * (x * x + y * y) + 4 * c * c * y)
    return Oval(f"cassini {a, c}", lambda p: (p[0] ** 2 + p[1] ** 2) ** 2 - 2 * c * c * (p[0] ** 2 - p[1] ** 2) - (a ** 4 - c ** 4), g, 0.5)


OVALS = [ellipse(cx, cy, a, b) for cx, cy in ((0, 0), (1, -2)) for a, b in ((1.5, 1), (1, 2), (2, 2), (3, 1.5), (1, 1))] + [cassini(1.5, 1), cassini(1.2, 1)]
CIRCLES = [(A(cx, cy), r) for cx, cy in ((0, 0), (1, -0.5), (-2, 1)) for r in (0.5, 1.0, 2.0)]
LAT2 = [A(x, y) for x in (-2.5, -1, -0.3, 0.4, 1, 2.2) for y in (-2.0, -0.9, 0.1, 0.6, 1.7)]
LAT3 = [A(x, y, z) for x in (-2.1, -0.7, 0.2, 1.1, 2.6) for y in (-1.6, -0.4, 0.5, 0.9, 2.3) for z in (-1.9, -0.6, 0.3, 1.2, 2.4)]


def t_curve_point(ctx, k):
    o, r = CIRCLES[k]
    c = Circle2D(o, r)
    for p in LAT2:
        if np.linalg.norm(p - o) < 0.1:
            continue
        want = o + (p - o) / np.linalg.norm(p - o) * r
        for given in (True, False):
            sig = f"curve point circle {o.tolist()} {r} from {p.tolist()} grad {given}"
            ctx.state(sig)
            with ctx.at(sig):
                q = p.copy()
                # with numerical gradients the point wanders by the curvature over the step of the derivative
                got = curve_point(c.implicit, q, grad=c.gradient if given else None)
                ctx.expect(np.allclose(got, want, atol=1e-9 if given else 1e-3), sig, lambda: f"{got}, want {want}")
                ctx.expect(abs(c.implicit(got)) <= 1e-3, sig, lambda: f"off the curve by {c.implicit(got)}")
                ctx.expect(np.array_equal(q, p), sig, "the start was changed")
            ctx.step()


def t_curve_point_oval(ctx, k):
    f = OVALS[k]
    for p in LAT2:
        g = np.linalg.norm(f.grad(p))
        if g < 1e-1:
            continue
        for delta in (1e-2, 1e-3, 1e-6):
            for given in (True, False):
                sig = f"curve point {f.name} from {p.tolist()} delta {delta} grad {given}"
                ctx.state(sig)
                with ctx.at(sig):
                    q = p.copy()
                    got = curve_point(f, q, delta, grad=f.grad if given else None)
                    ctx.expect(f.dist(got) <= delta, sig, lambda: f"{got}: off the curve by {f.dist(got)}")
                    ctx.expect(np.array_equal(q, p), sig, "the start was changed")
                    d = f.dist(p)
                    if d < 0.2 * f.size:
                        ctx.expect(np.linalg.norm(got - p) <= 2 * d + delta, sig, lambda: f"{got} is {np.linalg.norm(got - p)} away from a start {d} off")
                ctx.step()


def cyl_point(p, a, b, r):
    d = (b - a) / np.linalg.norm(b - a)
    v = (p - a) - d * np.dot(p - a, d)
    return p - v + v / np.linalg.norm(v) * r


class Surf:
    """A surface: the object, its closest point where the surface has one there, its name."""

    def __init__(self, name, obj, closest, lipschitz=True):
        self.name, self.obj, self.closest = name, obj, closest


def sphere(o, r):
    o = A(*o)
    return Surf(f"sphere {o.tolist()} {r}", Sphere(o, r), lambda p: o + (p - o) / np.linalg.norm(p - o) * r)


def cylinder(a, b, r):
    a, b = A(*a), A(*b)
    return Surf(f"cylinder {a.tolist()} {b.tolist()} {r}", ImplicitCylinder(a, b, r), lambda p: cyl_point(p, a, b, r))


def tube(a, b, r, t):
    a, b = A(*a), A(*b)

    def closest(p):
        d = (b - a) / np.linalg.norm(b - a)
        v = (p - a) - d * np.dot(p - a, d)
        return cyl_point(p, a, b, r + t / 2 if np.linalg.norm(v) >= r else r - t / 2)
    return Surf(f"tube {a.tolist()} {b.tolist()} {r} {t}", Tube(a, b, r, t), closest)


class Ellipsoid:
    def __init__(self, a, b, c):
        self.k = A(a, b, c) ** -2

    def implicit(self, p):
        return float(np.sum(self.k * p * p) - 1)

    def gradient(self, p):
        return 2 * self.k * p


SURFACES = [
    sphere((0, 0, 0), 1.0), sphere((1, -0.5, 0.25), 2.0), sphere((-1, 1, 1), 0.5), sphere((0.5, 0.5, 0.5), 1.5),
    cylinder((0, 0, -2), (0, 0, 2), 1.0), cylinder((-3, 0, 0), (3, 0, 0), 0.5), cylinder((0, 1, 0.5), (0, -2, 0.5), 1.5), cylinder((-1, -1, -1), (1, 1, 1), 1.0),
    cylinder((1, 0, -1), (1, 1, 2), 2.0),
    tube((0, 0, -2), (0, 0, 2), 1.0, 0.5), tube((-3, 0.5, 0), (3, 0, 0), 1.5, 0.5), tube((0, -1, 0), (1, 1, 0.5), 2.0, 0.25),
]


def t_surface_point(ctx, k):
    s = SURFACES[k]
    o = A(*(s.obj.origin if isinstance(s.obj, Sphere) else s.obj.start))
    for p in LAT3 + [o + 1.75 * e for e in np.vstack([np.eye(3), -np.eye(3)])]:
        try:
            want = s.closest(p)
        except FloatingPointError:
            continue
        g = s.obj.gradient(p)
        if not np.isfinite(want).all() or abs(s.obj.implicit(p)) < 1e-6 or abs(np.linalg.norm(p - want) - abs(s.obj.implicit(p))) > 1e-9 or np.linalg.norm(g) < 0.5:
            continue
        for given in (True, False):
            sig = f"surface point {s.name} from {p.tolist()} grad {given}"
            ctx.state(sig)
            with ctx.at(sig):
                q = p.copy()
                got = surface_point(s.obj.implicit, q, grad=s.obj.gradient if given else None)
                ctx.expect(np.allclose(got, want, atol=1e-7 if given else 2e-3), sig, lambda: f"{got}, want {want}")
                ctx.expect(abs(s.obj.implicit(got)) <= 1e-7, sig, lambda: f"off the surface by {s.obj.implicit(got)}")
                ctx.expect(np.array_equal(q, p), sig, "the start was changed")
                got, n, u, v = surface_plane(s.obj.implicit, q, s.obj.gradient)
                ctx.expect(abs(s.obj.implicit(got)) <= 1e-5, sig, lambda: f"plane off the surface by {s.obj.implicit(got)}")
                m = np.array([u, v, n])
                ctx.expect(np.allclose(m @ m.T, np.eye(3), atol=1e-9) and np.linalg.det(m) > 0, sig, lambda: f"not a right-handed frame: {m}")
                gg = s.obj.gradient(got)
                ctx.expect(np.allclose(n, gg / np.linalg.norm(gg), atol=1e-9), sig, lambda: f"normal {n}, gradient {gg}")
            ctx.step()


def t_surface_point_ellipsoid(ctx, abc):
    e = Ellipsoid(*abc)
    for p in LAT3:
        for given in (True, False):
            for tol in (1e-3, 1e-8):
                sig = f"surface point ellipsoid {abc} from {p.tolist()} grad {given} tol {tol}"
                ctx.state(sig)
                with ctx.at(sig):
                    got = surface_point(e.implicit, p, grad=e.gradient if given else None, tol=tol)
                    ctx.expect(abs(e.implicit(got)) / np.linalg.norm(e.gradient(got)) <= tol, sig, lambda: f"off the surface by {e.implicit(got)}")
                ctx.step()


# ---- points on two surfaces --------------------------------------------------------------------------------------------------

def t_pair_points(ctx, i, j, tol):
    a, b = SURFACES[i].obj, SURFACES[j].obj
    f1, f2, g1, g2 = a.implicit, b.implicit, a.gradient, b.gradient
    for p in LAT3:
        sig = f"{SURFACES[i].name} x {SURFACES[j].name} from {p.tolist()} tol {tol}"
        ctx.state(sig)
        with ctx.at(sig):
            q = p.copy()
            ok, got = intersection_curve_point(f1, f2, q, g1, g2, tol=tol, no_err=True)
            out = np.zeros(3)
            cok = calgorithms.intersection_curve_point(a, b, q, out, tol, 100)
            ctx.expect(np.array_equal(q, p), sig, "the start was changed")
            ctx.expect(bool(ok) == bool(cok), sig, lambda: f"Python {ok}, compiled {cok}")
            ok2, res = intersection_curve_point(f1, f2, q, g1, g2, tol=tol, no_err=True, return_grads=True)
            ctx.expect(ok2 == ok and len(res) == 5 and np.array_equal(res[0], got, equal_nan=True), sig, lambda: f"with gradients {ok2} {res}, without {ok} {got}")
            if ok:
                e = max(abs(f1(got)), abs(f2(got)))
                ctx.expect(e <= 2 * tol, sig, lambda: f"{got} is off by {e}")
                ctx.expect(np.allclose(got, out, atol=10 * tol), sig, lambda: f"Python {got}, compiled {out}")
                r = intersection_curve_point(f1, f2, q, g1, g2, tol=tol)
                ctx.expect(np.array_equal(r, got), sig, lambda: f"{r}, with no_err {got}")
                r = intersection_curve_point(f1, f2, q, g1, g2, tol=tol, return_grads=True)
                ctx.expect(len(r) == 5 and np.array_equal(r[0], got), sig, lambda: f"{r}, with no_err {got}")
                ctx.expect(max(abs(r[1] - f1(got)), abs(r[2] - f2(got))) <= 10 * tol and np.allclose(r[3], g1(got), atol=100 * tol) and np.allclose(r[4], g2(got), atol=100 * tol),
                           sig, lambda: f"values and gradients {r[1:]} at {got}")
                # from a start near the curve, where the surfaces cross, the same curve is found, near
                n1, n2 = g1(got), g2(got)
                if np.linalg.norm(np.cross(n1, n2)) > 0.5:
                    for d in (A(0.03, 0, 0), A(0, -0.02, 0.03), A(-0.02, 0.02, 0.01)):
                        s = got + d
                        ok3, near = intersection_curve_point(f1, f2, s, g1, g2, tol=tol, no_err=True)
                        ctx.expect(ok3 and np.linalg.norm(near - s) <= 0.1 and max(abs(f1(near)), abs(f2(near))) <= 2 * tol, sig, lambda: f"from {s} near the curve: {ok3} {near}")
                        cok3 = calgorithms.intersection_curve_point(a, b, s, out, tol, 100)
                        ctx.expect(cok3 and np.allclose(out, near, atol=10 * tol), sig, lambda: f"compiled from {s}: {cok3} {out}, Python {near}")
            else:
                for grads in (False, True):
                    try:
                        r = intersection_curve_point(f1, f2, q, g1, g2, tol=tol, return_grads=grads)
                        ctx.fail(sig, f"{r} and no error, with no_err a failure")
                    except ValueError:
                        pass
        ctx.step()


# ---- circles ----------------------------------------------------------------------------------------------------------------

def t_circles(ctx, r1):
    os = [(0, 0), (1, 0), (2, 0), (0, -1), (1, 1), (-1.5, 2), (3, 4), (0.5, 0.25), (-2, 0)]
    for r2 in (0.5, 1.0, 1.5, 3.0):
        for o1, o2 in itertools.product(os, repeat=2):
            sig = f"circles {o1} {r1} and {o2} {r2}"
            ctx.state(sig)
            with ctx.at(sig):
                c1, c2 = Circle2D(A(*o1), r1), Circle2D(A(*o2), r2)
                d = math.hypot(o1[0] - o2[0], o1[1] - o2[1])
                meets = d > 0 and abs(r1 - r2) <= d <= r1 + r2
                try:
                    pts = circle_intersection2d(c1, c2)
                except ValueError:
                    ctx.expect(not meets, sig, "no points, but the circles meet")
                    ctx.step()
                    continue
                ctx.expect(meets and pts.shape == (2, 3), sig, lambda: f"{pts}")
                for q in pts:
                    ctx.expect(abs(math.dist(q[:2], o1) - r1) < 1e-7 and abs(math.dist(q[:2], o2) - r2) < 1e-7 and q[2] == 0, sig, lambda: f"{q} is not on both")
                same = np.allclose(pts[0], pts[1], atol=1e-6)
                ctx.expect(same == (min(abs(d - r1 - r2), abs(d - abs(r1 - r2))) < 1e-12), sig, lambda: f"{pts}: the same point twice, or one of two")
            ctx.step()


def t_circle(ctx, k):
    o, r = CIRCLES[k]
    c = Circle2D(o, r)
    lo, hi = c.interval()
    ctx.expect((lo, hi) == (0.0, 2 * math.pi), f"circle {k}", f"interval {lo, hi}")
    for i in range(25):
        t = i * math.pi / 12
        sig = f"circle {o.tolist()} {r} at {i}/24"
        ctx.state(sig)
        with ctx.at(sig):
            p = c.evaluate(t)
            ctx.expect(np.allclose(p, o + r * A(math.cos(t), math.sin(t)), atol=1e-12) and p[0] == c.x(t) and p[1] == c.y(t), sig, lambda: f"{p}")
            ctx.expect(abs(c.implicit(p)) < 1e-12, sig, lambda: f"implicit {c.implicit(p)}")
            for s in (0.25, 1.0, 3.0):
                q = o + (p - o) * s
                ctx.expect(abs(c.implicit(q) - r * (s - 1)) < 1e-12, sig, lambda: f"implicit {c.implicit(q)} at {q}")
                ctx.expect(np.allclose(c.gradient(q), (p - o) / r, atol=1e-12) and np.allclose(c.normal(q), (p - o) / r, atol=1e-12), sig, lambda: f"gradient {c.gradient(q)}")
                pt, u = c.point_on_curve(q)
                ctx.expect(np.allclose(pt, p, atol=1e-12), sig, lambda: f"point on curve {pt}, want {p}")
                ctx.expect(0 <= u <= 2 * math.pi and np.allclose(c.evaluate(u), p, atol=1e-9), sig, lambda: f"parameter {u}")
                u = closest_point_on_circle_2d(c, q)
                ctx.expect(0 <= u <= 2 * math.pi and np.allclose(c.evaluate(u), p, atol=1e-9), sig, lambda: f"closest parameter {u}")
        ctx.step()
    for x, y in itertools.product((-4, -2.5, -0.75, 0.0, 1.25, 3.0, 4.5), repeat=2):
        p = A(x, y)
        d = np.linalg.norm(p - o)
        if d <= r + 1e-3:
            continue
        sig = f"tangents to circle {o.tolist()} {r} from {x, y}"
        ctx.state(sig)
        with ctx.at(sig):
            t = tangents_lines(c, p)
            ctx.expect(t.shape == (2, 3) and not t[:, 2].any(), sig, lambda: f"{t}")
            for q in t[:, :2]:
                ctx.expect(abs(np.linalg.norm(q - o) - r) < 1e-9 and abs(np.dot(q - o, q - p)) < 1e-8, sig, lambda: f"{q} does not touch")
            ctx.expect(np.linalg.norm(t[0] - t[1]) > 1e-6, sig, lambda: f"twice {t[0]}")
        ctx.step()


# ---- traces of curves -------------------------------------------------------------------------------------------------------

def params(k):
    """A closed curve of OVALS and its points at 400 angles."""
    name = OVALS[k].name
    t = np.arange(400) * (math.pi / 200)
    if name.startswith("ellipse"):
        cx, cy, a, b = eval(name[8:])
        return np.stack([cx + a * np.cos(t), cy + b * np.sin(t)], 1)
    a, c = eval(name[8:])
    m = c * c * np.cos(2 * t) + np.sqrt(a ** 4 - c ** 4 * np.sin(2 * t) ** 2)
    r = np.sqrt(m)
    return np.stack([r * np.cos(t), r * np.sin(t)], 1)


def gap(pts, to):
    """the largest distance from a point of pts to the nearest of to"""
    return max(np.min(np.linalg.norm(to - p, axis=1)) for p in pts)


def closed_trace(ctx, sig, pts, loop, step, dist, tol):
    pts = np.asarray(pts)
    ctx.expect(np.isfinite(pts).all() and max(map(dist, pts)) <= tol, sig, lambda: f"off by {max(map(dist, pts))}")
    d = np.linalg.norm(np.diff(pts, axis=0), axis=1)
    ctx.expect(d.max() <= 1.1 * step, sig, lambda: f"points {d.max()} apart, step {step}")
    ctx.expect(np.linalg.norm(pts[0] - pts[-1]) <= 1.6 * step, sig, lambda: f"the ends are {np.linalg.norm(pts[0] - pts[-1])} apart, step {step}")
    g = gap(loop, pts)
    ctx.expect(g <= 0.85 * step, sig, lambda: f"a point of the curve is {g} from the trace, step {step}")
    n = np.linalg.norm(np.diff(np.vstack([loop, loop[:1]]), axis=0), axis=1).sum()
    total = d.sum() + np.linalg.norm(pts[0] - pts[-1])
    ctx.expect(abs(total - n) <= 0.06 * n, sig, lambda: f"a trace of length {total} of a curve of length {n}")


def t_trace(ctx, k):
    f = OVALS[k]
    loop = params(k)
    for step in (0.05, 0.1, 0.2):
        for i in range(0, 400, 80):
            for off in (1.0, 0.9, 1.15):
                s = loop.mean(axis=0) + (loop[i] - loop.mean(axis=0)) * off
                for given in (True, False):
                    sig = f"trace {f.name} from {s.tolist()} step {step} grad {given}"
                    ctx.state(sig)
                    with ctx.at(sig):
                        q = s.copy()
                        pts = marching_implicit_curve_points(f, q, step=step, max_points=None, grad=f.grad if given else None)
                        ctx.expect(np.array_equal(q, s), sig, "the start was changed")
                        closed_trace(ctx, sig, pts, loop, step, f.dist, 1e-3)
                    ctx.step(len(pts))


def t_trace_part(ctx, k):
    """from one point to another, and with a limit of points"""
    f = OVALS[k]
    loop = params(k)
    n = len(loop)
    arc = np.linalg.norm(np.diff(np.vstack([loop, loop[:1]]), axis=0), axis=1)
    for i, j in itertools.permutations(range(0, n, 50), 2):
        step = 0.1
        s, e = loop[i], loop[j]
        sig = f"trace {f.name} from {s.tolist()} to {e.tolist()}"
        ctx.state(sig)
        with ctx.at(sig):
            pts = np.array(marching_implicit_curve_points(f, s, e, step=step, max_points=None, grad=f.grad))
            ctx.expect(max(map(f.dist, pts)) <= 1e-3, sig, lambda: f"off by {max(map(f.dist, pts))}")
            ctx.expect(np.linalg.norm(pts[0] - s) <= 1e-3 and np.linalg.norm(pts[-1] - e) <= 1e-3, sig, lambda: f"from {pts[0]} to {pts[-1]}")
            d = np.linalg.norm(np.diff(pts, axis=0), axis=1)
            ctx.expect(d.max() <= 1.1 * step, sig, lambda: f"points {d.max()} apart")
            fwd = arc[i:j].sum() if i < j else arc.sum() - arc[j:i].sum()
            ctx.expect(min(abs(d.sum() - fwd), abs(d.sum() - arc.sum() + fwd)) <= 0.05 * arc.sum(), sig, lambda: f"length {d.sum()}, the arc is {fwd} of {arc.sum()}")
        ctx.step(len(pts))
    for m in (2, 3, 5, 10, 30):
        sig = f"trace {f.name} {m} points"
        ctx.state(sig)
        with ctx.at(sig):
            s = loop[0]
            full = np.array(marching_implicit_curve_points(f, s, step=0.2, max_points=None, grad=f.grad))
            pts = np.array(marching_implicit_curve_points(f, s, step=0.2, max_points=m, grad=f.grad))
            want = full[:m] if m < len(full) else full
            ctx.expect(len(pts) <= m + 1 and np.array_equal(pts[:len(want) - 1], want[:len(pts)][:len(want) - 1]), sig, lambda: f"{len(pts)} points, not the first of the whole trace")
        ctx.step(len(pts))


class Implicit(I.Implicit2D):
    def __init__(self, f, box):
        super().__init__()
        self.f, self.box = f, box

    def implicit(self, p):
        return self.f(p)

    def bounds(self):
        return self.box


def t_trace_object(ctx, k):
    f = OVALS[k]
    loop = params(k)
    lo, hi = loop.min(axis=0), loop.max(axis=0)
    for step in (0.1, 0.2):
        sig = f"points of {f.name} step {step}"
        ctx.state(sig)
        with ctx.at(sig):
            pts = Implicit(f, (tuple(lo), tuple(hi))).points(step=step)
            closed_trace(ctx, sig, pts, loop, step, f.dist, 1e-3)
        ctx.step(len(pts))

# ---- traces of intersections -------------------------------------------------------------------------------------------------

T = np.arange(600) * (math.pi / 300)


def spheres(d, r1, r2):
    """spheres about 0 and (d, 0, 0)"""
    x = (d * d + r1 * r1 - r2 * r2) / (2 * d)
    h = math.sqrt(r1 * r1 - x * x)
    return ("spheres", (0, 0, 0), r1, (d, 0, 0), r2), [np.stack([0 * T + x, h * np.cos(T), h * np.sin(T)], 1)]


def sphere_cylinder(d, R, r):
    """a sphere about 0 and a cylinder along z at (d, 0)"""
    x, y = d + r * np.cos(T), r * np.sin(T)
    s = R * R - x * x - y * y
    spec = ("sphere cylinder", (0, 0, 0), R, (d, 0, -R - 1), (d, 0, R + 1), r)
    if d + r < R:
        return spec, [np.stack([x, y, np.sqrt(s)], 1), np.stack([x, y, -np.sqrt(s)], 1)]
    # one loop: over the angles where the cylinder is inside the sphere
    c = (R * R - d * d - r * r) / (2 * d * r)
    a = math.acos(c)
    t = np.pi + (np.pi - a) * np.sin(np.linspace(-np.pi / 2, np.pi / 2, 400))
    x, y = d + r * np.cos(t), r * np.sin(t)
    z = np.sqrt(np.maximum(R * R - x * x - y * y, 0))
    return spec, [np.vstack([np.stack([x, y, z], 1), np.stack([x, y, -z], 1)[::-1]])]


def loops_cylinders(r1, r2, d=0.0):
    """of the cylinder of radius r1 along x at y = d, and the thinner one of radius r2 along z: above and below"""
    x, y = r2 * np.cos(T), r2 * np.sin(T)
    z = np.sqrt(r1 * r1 - (y - d) ** 2)
    return [np.stack([x, y, z], 1), np.stack([x, y, -z], 1)]


def cylinders(r1, r2, d=0.0):
    L = r1 + r2 + 1
    return ("cylinders", (-L, d, 0), (L, d, 0), r1, (0, 0, -L), (0, 0, L), r2), loops_cylinders(r1, r2, d)


def loops_thicker_z(r1, r2):
    """the cylinder along z is the thicker one: left and right"""
    y, z = r1 * np.cos(T), r1 * np.sin(T)
    x = np.sqrt(r2 * r2 - y * y)
    return [np.stack([x, y, z], 1), np.stack([-x, y, z], 1)]


def tubes(r1, t1, r2, t2):
    L = r1 + r2 + 1
    loops = []
    for p, q in itertools.product((r1 - t1 / 2, r1 + t1 / 2), (r2 - t2 / 2, r2 + t2 / 2)):
        loops += loops_cylinders(p, q) if p > q else loops_thicker_z(p, q)
    return ("tubes", (-L, 0, 0), (L, 0, 0), r1, t1, (0, 0, -L), (0, 0, L), r2, t2), loops


def tube_cylinder(r1, t1, r2):
    L = r1 + r2 + 1
    loops = []
    for p in (r1 - t1 / 2, r1 + t1 / 2):
        loops += loops_cylinders(p, r2) if p > r2 else loops_thicker_z(p, r2)
    return ("tube cylinder", (-L, 0, 0), (L, 0, 0), r1, t1, (0, 0, -L), (0, 0, L), r2), loops


PAIRS = [spheres(1.5, 1.5, 1.5), spheres(1.0, 2.0, 1.5), spheres(2.0, 1.0, 2.0), spheres(2.5, 2.0, 1.5),
         sphere_cylinder(0.0, 2.0, 1.0), sphere_cylinder(0.3, 2.0, 1.0), sphere_cylinder(1.5, 2.0, 1.0), sphere_cylinder(0.5, 2.5, 1.5), sphere_cylinder(1.0, 1.5, 1.0),
         cylinders(1.5, 1.0), cylinders(1.6, 1.0, 0.2), cylinders(1.4, 0.8, 0.3),
         tubes(1.5, 0.5, 0.9, 0.4), tubes(1.2, 0.5, 2.0, 0.5), tube_cylinder(1.6, 0.6, 1.0), tube_cylinder(1.6, 0.6, 0.7)]
APART = [("spheres", (0, 0, 0), 1.0, (5, 0, 0), 1.0), ("spheres", (0, 0, 0), 3.0, (0.5, 0, 0), 1.0), ("spheres", (0, 0, 0), 3.0, (0, 0, 0), 1.0),
         ("spheres", (0, 0, 0), 1.0, (1.5, 1.5, 0), 1.0), ("spheres", (0, 0, 0), 1.0, (1.2, 1.2, 1.2), 1.0), ("sphere cylinder", (0, 0, 0), 1.0, (3, 1.5, -2), (3, 1.5, 2), 1.0),
         ("sphere cylinder", (0, 0, 0), 1.0, (1.5, 1.5, -2), (1.5, 1.5, 2), 1.0), ("sphere cylinder", (0, 0, 0), 1.0, (0, 0, -3), (0, 0, 3), 2.0),
         ("cylinders", (-3, 0, 0), (3, 0, 0), 1.0, (0, 2.5, -3), (0, 2.5, 3), 1.0), ("cylinders", (0, 0, -3), (0, 0, 3), 1.0, (0, 0, -3), (0, 0, 3), 2.0)]
PERMS = list(itertools.permutations(range(3)))


def make(spec, perm, shift):
    def at(p):
        return A(*[p[k] for k in perm]) + shift
    kind, *v = spec
    if kind == "spheres":
        return Sphere(at(v[0]), v[1]), Sphere(at(v[2]), v[3])
    if kind == "sphere cylinder":
        return Sphere(at(v[0]), v[1]), ImplicitCylinder(at(v[2]), at(v[3]), v[4])
    if kind == "cylinders":
        return ImplicitCylinder(at(v[0]), at(v[1]), v[2]), ImplicitCylinder(at(v[3]), at(v[4]), v[5])
    if kind == "tubes":
        return Tube(at(v[0]), at(v[1]), v[2], v[3]), Tube(at(v[4]), at(v[5]), v[6], v[7])
    return Tube(at(v[0]), at(v[1]), v[2], v[3]), ImplicitCylinder(at(v[4]), at(v[5]), v[6])


def t_intersections(ctx, k, perm, deep):
    spec, loops = PAIRS[k]
    for shift, swap, depth in itertools.product((A(0, 0, 0), A(1.3, -0.7, 2.1)), (False, True), (3, 4) if deep else (3,)):
        a, b = make(spec, perm, shift)
        if swap:
            a, b = b, a
        want = [np.array([l[:, i] for i in perm]).T + shift for l in loops]
        for step in (0.1, 0.15):
            sig = f"{spec} axes {perm} shift {shift.tolist()} swap {swap} depth {depth} step {step}"
            ctx.state(sig)
            with ctx.at(sig):
                crv = ImplicitIntersectionCurve(a, b)
                crv.build_tree(depth)
                out = [np.array(x) for x in iterate_curves(crv, step=step, workers=1)]
                check_loops(ctx, sig, out, want, step, a, b)
                if step == 0.1 and not swap:
                    one_loop(ctx, sig, crv, a, b, want, step)
                    queries(ctx, sig, crv, a, b, want)
            ctx.step(sum(map(len, out)))


def check_loops(ctx, sig, out, want, step, a, b):
    ctx.expect(len(out) == len(want), sig, lambda: f"{len(out)} curves of {[len(o) for o in out]} points, want {len(want)}")
    dist = lambda p: max(abs(a.implicit(p)), abs(b.implicit(p)))
    left = list(range(len(want)))
    for o in out:
        ctx.expect(len(o) > 3, sig, lambda: f"a curve of {len(o)} points")
        near = [i for i in left if gap(o[:: max(1, len(o) // 8)], want[i]) < 0.02]
        if len(near) != 1:
            ctx.fail(sig, f"a trace of {len(o)} points from {o[0]} belongs to {len(near)} of the curves left")
            return
        left.remove(near[0])
        closed_trace(ctx, sig, o, want[near[0]], step, dist, 2e-6)


def one_loop(ctx, sig, crv, a, b, want, step):
    for i, w in enumerate(want):
        for j in (0, 170, 300):
            s = w[j % len(w)]
            f = (a.implicit, b.implicit, a.gradient, b.gradient)
            seen = []
            pts = marching_intersection_curve_points(*f, s, step=step, point_callback=lambda p: seen.append(np.array(p)))
            ctx.expect(np.linalg.norm(pts[0] - s) < 1e-2, sig, lambda: f"asked to start at {s}, starts at {pts[0]}")
            ctx.expect(np.array_equal(np.array(seen), pts), sig, "the callback saw other points")
            closed_trace(ctx, sig, pts, w, step, lambda p: max(abs(a.implicit(p)), abs(b.implicit(p))), 2e-6)
            # as far as another point, and with a limit
            for m in (1, 2, 7):
                few = marching_intersection_curve_points(*f, s, step=step, max_points=m)
                ctx.expect(np.array_equal(few, pts[:m]), sig, lambda: f"{len(few)} points with a limit of {m}, not the first of the trace")
            e = pts[len(pts) // 3]
            part = marching_intersection_curve_points(*f, s, end_point=e, step=step)
            ctx.expect(len(part) < len(pts) // 2 and np.array_equal(part, pts[:len(part)]) and np.linalg.norm(part[-1] - e) <= 1.5 * step, sig,
                       lambda: f"to {e}: {len(part)} points up to {part[-1]}")
            lo, hi = pts[0] - 0.45, pts[0] + 0.45
            part = marching_intersection_curve_points(*f, s, step=step, bounds=(lo, hi))
            inside = [bool((p >= lo).all() and (p <= hi).all()) for p in pts]
            n = inside.index(False) + 1 if False in inside else len(pts)
            ctx.expect(np.array_equal(part, pts[:n]), sig, lambda: f"bounded: {len(part)} points, want {n}")


def queries(ctx, sig, crv, a, b, want):
    for w in want:
        for j in range(0, len(w), 97):
            p = w[j]
            ga, gb = a.gradient(p), b.gradient(p)
            if np.linalg.norm(np.cross(ga, gb)) < 0.5:
                continue
            t = np.cross(ga, gb)
            t /= np.linalg.norm(t)
            for d in (ga * 0.05, gb * -0.04, ga * 0.02 + gb * 0.03):
                q = p + d
                c = crv.closest_point(q)
                ctx.expect(max(abs(a.implicit(c)), abs(b.implicit(c))) <= 2e-6 and np.linalg.norm(c - q) <= 3 * np.linalg.norm(d), sig, lambda: f"closest point {c} to {q}")
                ctx.expect(abs(crv.implicit(q) - np.linalg.norm(q - c)) < 1e-9 and np.allclose(crv.gradient(q), q - c, atol=1e-9), sig, lambda: f"distance and gradient at {q}")
                tc = np.cross(a.gradient(c), b.gradient(c))
                tc /= np.linalg.norm(tc)
                ctx.expect(np.allclose(crv.tangent(q), tc, atol=1e-6), sig, lambda: f"tangent at {q}: {crv.tangent(q)}, want {tc}")
                pl = crv.plane(q)
                ctx.expect(np.allclose(pl[0], c, atol=1e-9) and np.allclose(pl[1:] @ pl[1:].T, np.eye(3), atol=1e-9) and np.allclose(pl[1], tc, atol=1e-6)
                           and np.linalg.det(pl[1:]) > 0, sig, lambda: f"plane at {q}: {pl}")


def t_apart(ctx, k, deep):
    for perm, shift, swap, depth in itertools.product(PERMS, (A(0, 0, 0), A(1.3, -0.7, 2.1)), (False, True), (2, 3, 4) if deep else (2, 3)):
        sig = f"{APART[k]} axes {perm} shift {shift.tolist()} swap {swap} depth {depth}"
        ctx.state(sig)
        with ctx.at(sig):
            a, b = make(APART[k], perm, shift)
            if swap:
                a, b = b, a
            crv = ImplicitIntersectionCurve(a, b)
            crv.build_tree(depth)
            out = list(iterate_curves(crv, step=0.2, workers=1))
            ctx.expect(not out, sig, lambda: f"{len(out)} curves of surfaces that do not meet")
        ctx.step()


# ---- raster -----------------------------------------------------------------------------------------------------------------

def t_raster(ctx, k):
    f = OVALS[k]
    loop = params(k)
    lo, hi = loop.min(axis=0) - 0.3, loop.max(axis=0) + 0.3
    for (nx, ny), gamma, given, move in itertools.product(((20, 20), (31, 24), (40, 40)), (0.5, 1.0, 1.5), (True, False), (True, False)):
        sig = f"raster {f.name} {nx}x{ny} gamma {gamma} grad {given} move {move}"
        ctx.state(sig)
        with ctx.at(sig):
            pts = raster_algorithm_2d(f, lo[0], hi[0], lo[1], hi[1], nx, ny, gamma=gamma, grad=f.grad if given else None, general_implicit=move)
            d = max((hi[0] - lo[0]) / nx, (hi[1] - lo[1]) / ny)
            nodes = [A(x, y) for x in np.linspace(lo[0], hi[0], nx) for y in np.linspace(lo[1], hi[1], ny)]
            dist = [f.dist(q) for q in nodes]
            sure, maybe = sum(v < gamma * d * 0.99 for v in dist), sum(v < gamma * d * 1.01 for v in dist)
            ctx.expect(sure <= len(pts) <= maybe, sig, lambda: f"{len(pts)} points, {sure} to {maybe} nodes are near")
            if move:
                ctx.expect(max(map(f.dist, pts)) <= 1e-3, sig, lambda: f"off by {max(map(f.dist, pts))}")
                if gamma >= 1:
                    g = gap(loop[::4], pts)
                    ctx.expect(g <= 1.6 * d, sig, lambda: f"a point of the curve is {g} from the points, cells {d}")
        ctx.step(nx * ny)


def tasks(tier):
    full = tier == "thorough"
    out = [(f"point/circle{k}", t_curve_point, (k,)) for k in range(len(CIRCLES))]
    out += [(f"point/oval{k}", t_curve_point_oval, (k,)) for k in range(len(OVALS))]
    out += [(f"point/surface{k}", t_surface_point, (k,)) for k in range(len(SURFACES))]
    out += [(f"point/ellipsoid{abc}", t_surface_point_ellipsoid, (abc,)) for abc in ((1, 1.5, 2), (2, 1, 1), (1, 3, 1.5))]
    n = len(SURFACES)
    out += [(f"pair/{i},{j},{t}", t_pair_points, (i, j, t)) for i in range(n) for j in range(n) if i != j for t in (1e-6, 1e-9) if full or (i + j) % 2 == (t == 1e-9)]
    out += [(f"circles/{r}", t_circles, (r,)) for r in (0.5, 1.0, 1.5, 3.0)]
    out += [(f"circle/{k}", t_circle, (k,)) for k in range(len(CIRCLES))]
    for k in range(len(OVALS)):
        out += [(f"trace/{k}", t_trace, (k,)), (f"part/{k}", t_trace_part, (k,)), (f"object/{k}", t_trace_object, (k,)), (f"raster/{k}", t_raster, (k,))]
    out += [(f"loops/{k}{p}", t_intersections, (k, p, full)) for k in range(len(PAIRS)) for p in PERMS if full or PERMS.index(p) % 2 == k % 2]
    out += [(f"apart/{k}", t_apart, (k, full)) for k in range(len(APART))]
    return out
