"""C37: lines, planes, circles, arcs and NURBS curves of mmcore.api, and their evaluators, against exact geometry, over every short history."""
import itertools
import math
from fractions import Fraction as F

import numpy as np

import ref
import shapes
from mmcore.api.curves import Arc3D, Circle2D, Circle3D, InfiniteLine3D, Line3D, NurbsCurve3D, line_line_intersection
from mmcore.api.plane import Plane
from mmcore.api.vectors import Point2D, Point3D, Vector3D

PID = "C37"
ASSUMPTIONS = [
    "lines have a direction, normals are not zero, the two directions of a plane or an arc are perpendicular, three given points are not on one line",
    "coordinates are small integers (agreement within 1e-9 relative); evaluator derivatives are central differences and agree within 1e-3 of the magnitude, away from knots",
    "whether segments meet exactly at an end is not asserted; skew lines of the lattice are at least 0.1 apart, far above the tolerance of the meeting test",
    "objects are changed through their methods and properties; NurbsCurve3D is not periodic",
]
BOUNDS = {
    "lines": "every pair of a segment or infinite line of 6 starts x 13 directions with one of 5 (thorough 12) others, all four combinations of kinds; every history of 3 (thorough 4) of 9 changes",
    "planes": "every pair of planes of 3 origins x 26 normals with 6 others; every such plane with lines of 4 starts x 13 directions x 2 lengths; every history of up to 2 (thorough 4) of 9 changes",
    "circles": "26 normals x 2 centers x 2 radii, every triple of 8 (thorough 12) lattice points not on one line, every history of up to 3 (thorough 4) of 7 changes; arcs: every history of up to 2 (thorough 4) of 9 changes",
    "curves": "NURBS curves of degree 1..3 over clamped knot vectors with up to 2 inner knots, 3 weight patterns; histories of 2 (thorough 4) of 4 changes",
}
DIRS = [d for d in itertools.product((-1, 0, 1), repeat=3) if d > (0, 0, 0)]
NORMALS = [d for d in itertools.product((-1, 0, 1), repeat=3) if any(d)]
ORIGINS = [(0, 0, 0), (1, 2, -1), (-2, 1, 3)]
TS = [i * math.pi / 4 + 0.1 for i in range(8)] + [0.0, math.pi / 2, 2 * math.pi]


def P(p):
    return Point3D(tuple(float(x) for x in p))


def V(v):
    return Vector3D(tuple(float(x) for x in v))


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def unit(a):
    n = math.sqrt(dot(a, a))
    return tuple(float(x) / n for x in a)


def near(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b), initial=0.0))))


def at(frame, q):
    return tuple(frame[0][k] + sum(q[i] * frame[i + 1][k] for i in range(3)) for k in range(3))


def xyz(v):
    return (v.x, v.y, v.z)


# --- lines -----------------------------------------------------------------------------------------------------

def closest(p, u, q, v):
    """Exact parameters of the closest points of two lines that are not parallel, and their squared distance."""
    c = cross(u, v)
    cc = dot(c, c)
    if cc == 0:
        return None
    w = sub(q, p)
    s, t = F(dot(cross(w, v), c), cc), F(dot(cross(w, u), c), cc)
    d = tuple(p[k] + s * u[k] - q[k] - t * v[k] for k in range(3))
    return s, t, dot(d, d)


def line(p, d, infinite):
    return InfiniteLine3D.create(P(p), V(d)) if infinite else Line3D.create(P(p), P([a + b for a, b in zip(p, d)]))


def lines(ctx, k, tier):
    q, v = OTHERS[k]
    for p in [(0, 0, 0), (1, 0, 0), (0, 2, 1), (-1, -1, 1), (2, 1, 3), (1, 2, 2)]:
        for d in DIRS:
            u = tuple(2 * x for x in d)
            E = closest(p, u, q, v)
            for ia, ib in itertools.product((False, True), repeat=2):
                sig = f"line {p}+{u}{' inf' if ia else ''} x {q}+{v}{' inf' if ib else ''}"
                ctx.state(sig)
                ctx.step(4)
                with ctx.at(sig):
                    a, b = line(p, u, ia), line(q, v, ib)
                    for t in (-1.0, 0.0, 0.25, 1.0):
                        want = [p[i] + t * u[i] for i in range(3)]
                        ctx.expect(near(a(t), want) and near(a.evaluate(t), want), f"{sig} point", lambda: str(a(t)))
                    ctx.expect(near(a(np.array([0.5, 2.0])), [[p[i] + t * u[i] for i in range(3)] for t in (0.5, 2.0)]), f"{sig} points", "")
                    ctx.expect(xyz(a.origin) == p and xyz(a.start_point) == p and near(xyz(a.direction), u) and near(xyz(a.end_point), [p[i] + u[i] for i in range(3)]), f"{sig} data", "")
                    for x, y in ((a, b), (b, a)):
                        L = line_line_intersection(x, y)
                        M = x.intersect_with_line(y)
                        if E is None:
                            ctx.expect(not L[0] and not M[0], f"{sig} parallel", f"{L} {M}")
                            continue
                        st = (float(E[0]), float(E[1])) if x is a else (float(E[1]), float(E[0]))
                        ctx.expect(bool(L[0]) and near(L[1:], st), f"{sig} parameters", lambda: f"{L}, exact {st}")
                        ctx.expect(near(M[1:], st), f"{sig} meeting parameters", lambda: f"{M}, exact {st}")
                        ends = [s for s, inf in ((E[0], ia), (E[1], ib)) if not inf]
                        if not any(s in (0, 1) for s in ends):
                            meet = E[2] == 0 and all(0 < s < 1 for s in ends)
                            ctx.expect(bool(M[0]) == meet, f"{sig} meet", lambda: f"{M}, should be {meet}")
                            if isinstance(x, Line3D) and isinstance(y, Line3D):
                                C = x.intersect_with_curve(y)
                                pt = [p[i] + float(E[0]) * u[i] for i in range(3)]
                                ctx.expect(len(C) == meet and (not meet or near(xyz(C[0][0]), pt) and near(C[0][1], st)), f"{sig} crossing", lambda: f"{C}")
                    col = E is None and cross(sub(q, p), u) == (0, 0, 0)
                    ctx.expect(bool(a.is_colinear(b)) == col == bool(b.is_colinear(a)), f"{sig} collinear", f"should be {col}")
    ctx.trace()


OTHERS = [((0, 0, 0), (2, 2, 0)), ((1, 1, 1), (0, 0, -3)), ((-1, 2, 0), (3, -1, 2)), ((2, 0, 0), (-3, 0, 0)), ((0, 0, 3), (1, 1, -1)),
          ((2, 2, 2), (-2, -2, -2)), ((1, 0, 0), (0, 3, 1)), ((0, 1, 2), (2, 0, 1)), ((3, 1, 0), (-1, 1, 1)), ((0, -1, 0), (0, 4, 0)), ((1, 1, 0), (1, -2, 3)), ((0, 0, 1), (4, 0, 0))]

LINE_OPS = ("start", "end", "origin", "origin y", "end z", "set", "copy", "infinite", "caller")


def line_histories(ctx, first, tier):
    """Lines through every sequence of changes."""
    for rest in itertools.product(LINE_OPS, repeat=2 if tier == "quick" else 3):
        seq = (first,) + rest
        sig = f"line history {' '.join(seq)}"
        with ctx.at(sig):
            a, b = (0.0, 0.0, 0.0), (1.0, 2.0, 3.0)
            x, inf = Line3D(P(a), P(b)), False
            old = []
            for k, op in enumerate(seq):
                ctx.step()
                q = (k + 1.0, 2.0 - k, k * k + 0.5)
                if op == "start" and not inf:
                    x.start_point = P(q)
                    a = q
                elif op == "end" and not inf:
                    x.end_point = P(q)
                    b = q
                elif op == "origin":
                    x.origin = P(q)
                    if inf:
                        b = tuple(b[i] + q[i] - a[i] for i in range(3))
                    a = q
                elif op == "origin y":  # in place
                    x.origin.y = 20.0 + k
                    if inf:
                        b = (b[0], b[1] + 20.0 + k - a[1], b[2])
                    a = (a[0], 20.0 + k, a[2])
                elif op == "end z":
                    if inf and k % 2:
                        x.direction = V((-1, 2, 30 + k))
                        b = (a[0] - 1, a[1] + 2, a[2] + 30.0 + k)
                    else:
                        y = x.direction if inf else x.end_point
                        y.z = 30.0 + k
                        b = (b[0], b[1], 30.0 + k + (a[2] if inf else 0.0))
                elif op == "set":
                    if inf:
                        ctx.expect(x.set(P(q), V((1, k, 2))) is True, f"{sig} set", "")
                        a, b = q, (q[0] + 1, q[1] + k, q[2] + 2)
                    else:
                        ctx.expect(x.set(P(q), P((5, k, 2))) is True, f"{sig} set", "")
                        a, b = q, (5.0, float(k), 2.0)
                elif op == "copy":
                    old.append((x, a, b))
                    x = x.copy()
                elif op == "infinite" and not inf:
                    old.append((x, a, b))
                    x, inf = x.as_infinite_line(), True
                elif op == "caller":  # a default line, changed, must leave other default lines alone
                    d = InfiniteLine3D()
                    d.origin.x, d.direction.y = 7.0, 7.0
                    e = InfiniteLine3D()
                    ctx.expect(xyz(e.origin) == (0, 0, 0) and xyz(e.direction) == (1, 0, 0), f"{sig} default", "a default line is not the x axis")
                for y, s, e in old + [(x, a, b)]:
                    ctx.expect(near(y(0.0), s) and near(y.evaluate(1.0), e) and near(xyz(y.start_point), s) and near(xyz(y.end_point), e) and near(xyz(y.origin), s)
                               and near(xyz(y.direction), sub(e, s)), f"{sig} step {k}", lambda: f"{y(0.0)} {y(1.0)} should be {s} {e}")
                    if isinstance(y, Line3D):
                        ctx.expect(near(xyz(y.evaluate_param(0.5)), [(s[i] + e[i]) / 2 for i in range(3)]), f"{sig} step {k} evaluate_param", "")
                        g = y.get_data()
                        ctx.expect(g[0] is True and near(xyz(g[1]), s) and near(xyz(g[2]), e), f"{sig} step {k} get_data", str(g))
                    else:
                        g = y.get_data()
                        ctx.expect(g[0] is True and near(xyz(g[1]), s) and near(xyz(g[2]), sub(e, s)), f"{sig} step {k} get_data", str(g))
                ctx.state((tuple(seq[: k + 1])))
    ctx.trace()


# --- planes ----------------------------------------------------------------------------------------------------

def is_frame(ctx, pl, o, n, sig):
    A = np.asarray(pl.as_array())
    R = A[1:]
    ctx.expect(near(A[0], o) and near(A[3], unit(n)) and near(R @ R.T, np.eye(3)) and near(np.cross(R[0], R[1]), R[2]), f"{sig} frame", lambda: f"{A.tolist()} for origin {o}, normal {n}")
    look(ctx, pl, A.copy(), sig)
    return A.copy()


def look(ctx, pl, A, sig):
    ctx.expect(near(pl.as_array(), A) and near(np.array(pl), A), f"{sig} array", lambda: f"{pl.as_array()} should be {A}")
    ctx.expect(near(xyz(pl.origin), A[0]) and near(xyz(pl.xaxis), A[1]) and near(xyz(pl.yaxis), A[2]) and near(xyz(pl.normal), A[3]), f"{sig} axes", lambda: f"{pl.origin} {pl.xaxis} {pl.yaxis} {pl.normal}")
    for q in ((0.0, 0.0, 0.0), (1.0, 2.0, 3.0), (-2.0, 0.5, 1.0)):
        w = at(A, q)
        ctx.expect(near(pl.evaluate(np.array(q)), w), f"{sig} evaluate", lambda: f"{list(pl.evaluate(np.array(q)))} should be {w}")
        ctx.expect(near(pl.evaluate_inverse(np.array(w)), q), f"{sig} evaluate_inverse", lambda: f"{list(pl.evaluate_inverse(np.array(w)))} should be {q}")
        ctx.expect(isinstance(pl.evaluate(np.array(q)), np.ndarray) and isinstance(pl.evaluate_inverse(np.array(w)), np.ndarray), f"{sig} points", "not arrays")


def planes(ctx, o, tier):
    other = [((0, 0, 0), (0, 0, 1)), ((1, 2, -1), (1, 1, 0)), ((0, 0, 4), (1, -1, 1)), ((1, 0, 2), (0, -2, 0)), ((2, 1, 0), (1, 2, 3)), ((0, 1, 1), (-1, 0, -1))]
    starts = [(0, 0, 0), (1, -1, 2), (-2, 1, 3), (3, 2, -1)]
    for n in NORMALS:
        sig = f"plane {o} {n}"
        with ctx.at(sig):
            pl = Plane.create_from_normal(P(o), V([2 * x for x in n]))
            A = is_frame(ctx, pl, o, n, sig)
            for make, name in ((lambda: Plane.create(P(o), V(2 * A[1]), V(3 * A[2])), "create"), (lambda: Plane.create_using_directions(P(o), V(2 * A[1]), V(3 * A[2])), "create_using_directions"),
                               (lambda: Plane.create_from_3pt(P(o), P(A[0] + 2 * A[1]), P(A[0] - A[1] + 3 * A[2])), "create_from_3pt"), (lambda: Plane.create_from_array(A.copy()), "create_from_array"),
                               (lambda: Plane.cast((P(o), V(2 * A[1]), V(3 * A[2]))), "cast directions"), (lambda: Plane.cast((P(o), P(A[0] + 2 * A[1]), P(A[0] + 3 * A[2] + A[1]))), "cast points"),
                               (lambda: Plane.cast(A.copy()), "cast array"), (lambda: Plane.cast(tuple(A.copy())), "cast rows"), (lambda: Plane.cast(tuple(r.tolist() for r in A)), "cast lists"),
                               (lambda: Plane.create_from_3pt_numeric(A[0], A[0] + 2 * A[1], A[0] + 3 * A[2]), "create_from_3pt_numeric"), (pl.copy, "copy")):
                ctx.step()
                look(ctx, make(), A, f"{sig} {name}")
            ctx.expect(near(Plane.cast((P(o), V(n))).as_array(), A), f"{sig} cast normal", "")
        for o2, n2 in other:
            sig2 = f"{sig} x plane {o2} {n2}"
            ctx.state(sig2)
            ctx.step(6)
            with ctx.at(sig2):
                p2 = Plane.create_from_normal(P(o2), V(n2))
                par, perp = cross(n, n2) == (0, 0, 0), dot(n, n2) == 0
                cop = par and dot(sub(o2, o), n) == 0
                for x, y in ((pl, p2), (p2, pl)):
                    ctx.expect(bool(x.is_parallel_plane(y)) == par and bool(x.is_perpendicular_plane(y)) == perp, f"{sig2} direction", f"parallel {par}, perpendicular {perp}")
                    ctx.expect(bool(x.is_coplanar(y)) == cop, f"{sig2} coplanar", f"should be {cop}")
                    I = x.intersect_with_plane(y)
                    if par:
                        ctx.expect(I is None, f"{sig2} no intersection", "")
                        continue
                    ctx.expect(near(np.cross(xyz(I.direction), cross(n, n2)), np.zeros(3)) and math.hypot(*xyz(I.direction)) > 1e-3, f"{sig2} line direction", f"{I.direction}")
                    for t in (-1.0, 0.0, 2.0):
                        q = I(t)
                        ctx.expect(abs(dot(q - np.array(o), n)) < 1e-9 and abs(dot(q - np.array(o2), n2)) < 1e-9, f"{sig2} line", lambda: f"{q} is not on both planes")
        for s in starts:
            for d in DIRS:
                for k in (1, -3):
                    u = tuple(k * x for x in d)
                    sig2 = f"{sig} x line {s}+{u}"
                    ctx.state(sig2)
                    ctx.step(2)
                    with ctx.at(sig2):
                        par, perp = dot(n, u) == 0, cross(n, u) == (0, 0, 0)
                        for inf in (False, True):
                            l = line(s, u, inf)
                            ctx.expect(bool(pl.is_parallel_line(l)) == par and bool(pl.is_perpendicular_line(l)) == perp, f"{sig2} direction", f"parallel {par}, perpendicular {perp}")
                            got = pl.intersect_with_line(l)
                            if not inf:
                                again = l.intersect_with_surface(pl)
                                ctx.expect(again == [None] or again == [] if got is None else len(again) == 1 and near(xyz(again[0]), xyz(got)), f"{sig2} from the line", f"{again} {got}")
                            if par:
                                ctx.expect(got is None, f"{sig2} parallel", f"{got}")
                                continue
                            t = F(dot(sub(o, s), n), dot(n, u))
                            if not inf and t in (0, 1):
                                continue
                            if not inf and not 0 < t < 1:
                                ctx.expect(got is None, f"{sig2} outside", f"{got}")
                            else:
                                want = [s[i] + float(t) * u[i] for i in range(3)]
                                ctx.expect(got is not None and near(xyz(got), want), f"{sig2} point", lambda: f"{got} should be {want}")
    ctx.trace()


def plane_histories(ctx, first, tier):
    ops = ["origin", "x", "normal (0, 0, -1)", "normal (1, 1, 0)", "normal (-1, 0, 0)", "normal (0, 3, 0)", "axes 1", "axes 2", "copy"]
    for rest in itertools.product(ops, repeat=1 if tier == "quick" else 3):
        for o0, n0 in (((0, 0, 0), (0, 0, 1)), ((1, 2, -1), (1, -1, 1))):
            seq = (ops[first],) + rest
            sig = f"plane history {o0} {n0}: {', '.join(seq)}"
            with ctx.at(sig):
                pl = Plane.create_from_normal(P(o0), V(n0))
                A = is_frame(ctx, pl, o0, n0, sig)
                old = []
                for k, op in enumerate(seq):
                    ctx.step()
                    if op == "origin":
                        q = P((k + 1, -2, 3))
                        pl.origin = q
                        A[0] = xyz(q)
                        q.x = 99.0
                    elif op == "x":
                        pl.origin.x = 5.5
                        A[0][0] = 5.5
                    elif op.startswith("normal"):
                        n = eval(op[7:])
                        pl.normal = V(n)
                        A = is_frame(ctx, pl, A[0], n, f"{sig} step {k}")
                    elif op.startswith("axes"):
                        a, b = ((0, 2, 0), (0, 0, 3)) if op == "axes 1" else ((1, 1, 0), (1, -1, 0))
                        ctx.expect(pl.set_xy_directions(V(a), V(b)) is True, f"{sig} set_xy_directions", "")
                        A[1], A[2] = unit(a), unit(b)
                        A[3] = cross(A[1], A[2])
                    else:
                        old.append((pl, A.copy()))
                        pl = pl.copy()
                    for y, B in old + [(pl, A)]:
                        look(ctx, y, B, f"{sig} step {k}")
                    ctx.state((o0, seq[: k + 1]))
    ctx.trace()


# --- circles ---------------------------------------------------------------------------------------------------

def round_(ctx, c, o, n, r, sig, frame=None):
    """The curve is the circle of that center, normal and radius, counterclockwise about the normal."""
    n = unit(n)
    if frame is None:
        x = [(a - b) / r for a, b in zip(c.evaluate(0.0), o)]
        frame = [o, x, cross(n, x), n]
        ctx.expect(abs(dot(x, x) - 1) < 1e-9 and abs(dot(x, n)) < 1e-9, f"{sig} start", lambda: f"{c.evaluate(0.0)} is not on the circle {o} {n} {r}")
    for t in TS:
        w = at(frame, (r * math.cos(t), r * math.sin(t), 0.0))
        ctx.expect(near(c.evaluate(t), w) and near(c(t), w), f"{sig} point", lambda: f"{c.evaluate(t)} at {t}, should be {w}")
    ctx.expect(near(c(np.array(TS)), [at(frame, (r * math.cos(t), r * math.sin(t), 0.0)) for t in TS]), f"{sig} points", "")
    ctx.expect(near(xyz(c.center), o) and near(xyz(c.normal), n) and abs(c.radius - r) <= 1e-9 * (1 + r), f"{sig} data", lambda: f"{c.center} {c.normal} {c.radius}")
    g = c.get_data()
    if isinstance(c, Arc3D):
        ctx.expect(len(g) == 7 and g[0] is True and near(xyz(g[1]), o) and near(xyz(g[2]), n) and near(xyz(g[3]), frame[1]) and near(g[4:], (r, c.start_angle, c.end_angle)), f"{sig} get_data", str(g))
    else:
        ctx.expect(len(g) == 4 and g[0] is True and near(xyz(g[1]), o) and near(xyz(g[2]), n) and near(g[3], r), f"{sig} get_data", str(g))
        ctx.expect(near(c.interval(), (0.0, 2 * math.pi)), f"{sig} interval", str(c.interval()))
    return frame


def arc_ends(ctx, c, frame, r, a, b, sig):
    ctx.expect(near(c.interval(), (a, b)) and near((c.start_angle, c.end_angle), (a, b)), f"{sig} angles", lambda: f"{c.interval()} should be {(a, b)}")
    for got, t in ((c.start_point, a), (c.end_point, b)):
        ctx.expect(near(xyz(got), at(frame, (r * math.cos(t), r * math.sin(t), 0.0))), f"{sig} ends", lambda: f"{got}")


def circles(ctx, o, tier):
    for n in NORMALS:
        for r in (0.5, 3.0):
            sig = f"circle {o} {n} {r}"
            ctx.state(sig)
            ctx.step(4)
            with ctx.at(sig):
                c = Circle3D.create_by_center(P(o), V([3 * x for x in n]), r)
                frame = round_(ctx, c, o, n, r, sig)
                round_(ctx, Circle3D(radius=r, plane=np.array(frame)), o, n, r, f"{sig} plane", frame)
                round_(ctx, c.copy(), o, n, r, f"{sig} copy", frame)
                for q in ((0.0, 0.0), (1.0, -2.0)):
                    d = Circle2D.create_by_center(Point2D(q), r).on_plane(np.array(frame))
                    oo = at(frame, q + (0.0,))
                    round_(ctx, d, oo, n, r, f"{sig} on_plane {q}", [oo] + list(frame[1:]))
                circular = lambda t: [at(frame, r_) for r_ in ((r * math.cos(t), r * math.sin(t), 0.0),)] + [tuple(sum(v[i] * frame[i + 1][k] for i in range(3)) for k in range(3))
                                     for v in ((-r * math.sin(t), r * math.cos(t), 0.0), (-r * math.cos(t), -r * math.sin(t), 0.0))]
                for a, b in ((0.0, 1.0), (-0.5, 4.0)):
                    arc = Arc3D.create_by_center(P(o), V([2 * x for x in n]), V([5 * x for x in frame[1]]), r, a, b)
                    round_(ctx, arc, o, n, r, f"{sig} arc", frame)
                    arc_ends(ctx, arc, frame, r, a, b, f"{sig} arc {a}")
                    evaluator(ctx, arc, [a + 0.3, b - 0.2], circular, (a, b), f"{sig} arc evaluator")
                    arc = arc.copy()
                    round_(ctx, arc, o, n, r, f"{sig} arc copy", frame)
                    arc_ends(ctx, arc, frame, r, a, b, f"{sig} arc copy {a}")
                evaluator(ctx, c, [0.3, 2.0, 5.0], circular, (0.0, 2 * math.pi), f"{sig} evaluator")
    for r in (1.0, 2.5):
        c = Circle2D.create(Point2D(o[:2]), r)
        sig = f"circle of the plane {o[:2]} {r}"
        with ctx.at(sig):
            for c in (c, c.copy()):
                for t in TS:
                    ctx.expect(near(np.asarray(c.evaluate(t))[:2], (o[0] + r * math.cos(t), o[1] + r * math.sin(t))), f"{sig} point", lambda: f"{c.evaluate(t)} at {t}")
                ctx.expect(near(c.interval(), (0.0, 2 * math.pi)), f"{sig} interval", str(c.interval()))
                round_(ctx, c.on_plane(), (o[0], o[1], 0.0), (0, 0, 1), r, f"{sig} on_plane", [(o[0], o[1], 0.0), (1, 0, 0), (0, 1, 0), (0, 0, 1)])
            ctx.expect(c.set(Point2D((4.0, 5.0)), 2 * r) is True and near(np.asarray(c.evaluate(0.0))[:2], (4 + 2 * r, 5.0)), f"{sig} set", "")
            g = c.get_data()
            ctx.expect(near((g[1].x, g[1].y, g[2]), (4.0, 5.0, 2 * r)), f"{sig} get_data", str(g))
    ctx.trace()


def three_points(ctx, k, tier):
    pts = [(0, 0, 0), (2, 0, 0), (0, 3, 0), (1, 1, 1), (-1, 2, 0), (0, 0, 4), (-2, -1, 1), (3, 2, -1)] + ([(5, 0, 0), (1, 0, 2), (-3, 3, 1), (0, -2, -2)] if tier != "quick" else [])
    for j, i in itertools.permutations([x for x in range(len(pts)) if x != k], 2):
        a, b, c = pts[k], pts[j], pts[i]
        n = cross(sub(b, a), sub(c, a))
        if n == (0, 0, 0):
            continue
        sig = f"through {a} {b} {c}"
        ctx.state(sig)
        ctx.step(3)
        # exact center
        u, v = sub(b, a), sub(c, a)
        nn = dot(n, n)
        w = [F(dot(u, u) * x + dot(v, v) * y, 2 * nn) for x, y in zip(cross(v, n), cross(n, u))]
        o = tuple(float(a[q] + w[q]) for q in range(3))
        r = math.sqrt(dot(w, w))
        with ctx.at(sig):
            round_(ctx, Circle3D.create_by_three_points(P(a), P(b), P(c)), o, n, r, f"{sig} circle")
            arc = Arc3D.create_by_three_points(P(a), P(b), P(c))
            frame = round_(ctx, arc, o, n, r, f"{sig} arc")
            ctx.expect(near(xyz(arc.start_point), a) and near(xyz(arc.end_point), c), f"{sig} arc ends", lambda: f"{arc.start_point} {arc.end_point}")
            s, e = arc.interval()
            d = [x - y for x, y in zip(b, o)]
            t = (math.atan2(dot(d, frame[2]), dot(d, frame[1])) - s) % (2 * math.pi)
            ctx.expect(0 < t < e - s < 2 * math.pi, f"{sig} arc middle", lambda: f"{s} {s + t} {e}")
            if a[2] == b[2] == c[2]:
                g = Circle2D.create_by_three_points(*(Point2D(x[:2]) for x in (a, b, c))).get_data()
                ctx.expect(near((g[1].x, g[1].y, g[2]), (o[0], o[1], r)), f"{sig} in the plane", str(g))
    ctx.trace()


def circle_histories(ctx, first, tier):
    ops = ["center", "center x", "normal 1", "normal 2", "radius", "set", "copy"]
    for rest in itertools.product(ops, repeat=2 if tier == "quick" else 3):
        seq = (ops[first],) + rest
        sig = f"circle history {', '.join(seq)}"
        with ctx.at(sig):
            p = P((1, 2, 3))
            c = Circle3D(p, 2.0)
            twin = Circle3D(p, 1.0)
            o, n, r = (1.0, 2.0, 3.0), (0, 0, 1), 2.0
            frame = round_(ctx, c, o, n, r, sig)
            old = [(twin, o, n, 1.0, round_(ctx, twin, o, n, 1.0, f"{sig} twin"))]
            for k, op in enumerate(seq):
                ctx.step()
                if op == "center":
                    q = P((k, 5, -2))
                    c.center = q
                    o = xyz(q)
                    q.y = 99.0
                elif op == "center x":
                    c.center.x = 0.5 + k
                    o = (0.5 + k,) + tuple(o[1:])
                elif op == "normal 1":
                    n = (1, 1, 0)
                    c.normal = V(n)
                elif op == "normal 2":
                    n = (0, -2, 1)
                    c.normal = V(n)
                elif op == "radius":
                    r = c.radius = 0.5 + k
                elif op == "set":
                    o, n, r = (3.0, float(k), 1.0), (1, 0, 0), 1.5
                    ctx.expect(c.set(P(o), V(n), r) is True, f"{sig} set", "")
                else:
                    old.append((c, o, n, r, frame))
                    c = c.copy()
                frame = round_(ctx, c, o, n, r, f"{sig} step {k}", None if "normal" in op or op == "set" else [o] + list(frame[1:]))
                for y in old:
                    round_(ctx, *y[:4], f"{sig} step {k} other", y[4])
                ctx.expect(xyz(p) == (1, 2, 3), f"{sig} step {k} caller", "the given point moved")
                ctx.state(seq[: k + 1])
    ctx.trace()


def arc_histories(ctx, first, tier):
    ops = ["center", "center x", "axes 1", "axes 2", "radius", "start", "end", "set", "copy"]
    for rest in itertools.product(ops, repeat=1 if tier == "quick" else 3):
        seq = (ops[first],) + rest
        sig = f"arc history {', '.join(seq)}"
        with ctx.at(sig):
            c = Arc3D(P((1, 2, 3)), 2.0)
            frame, r, a, b = [(1.0, 2.0, 3.0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], 2.0, 0.0, math.pi / 2
            old = []
            for k, op in enumerate(seq):
                ctx.step()
                if op == "center":
                    q = P((k, 5, -2))
                    c.center = q
                    frame = [xyz(q)] + frame[1:]
                    q.y = 99.0
                elif op == "center x":
                    c.center.x = 0.5 + k
                    frame = [(0.5 + k,) + tuple(frame[0][1:])] + frame[1:]
                elif op.startswith("axes"):
                    n, x = ((1, 1, 0), (0, 0, 2)) if op == "axes 1" else ((0, -2, 0), (3, 0, 1))
                    ctx.expect(c.set_axes(V(n), V(x)) is True, f"{sig} set_axes", "")
                    frame = [frame[0], unit(x), unit(cross(n, x)), unit(n)]
                elif op == "radius":
                    r = c.radius = 0.5 + k
                elif op == "start":
                    a = c.start_angle = -0.5 - k
                elif op == "end":
                    b = c.end_angle = 3.0 + k
                elif op == "set":
                    r, a, b = 1.5, 0.25, 1.25 + k
                    ctx.expect(c.set(P((3, k, 1)), V((0, 2, 0)), V((0, 0, 3)), r, a, b) is True, f"{sig} set", "")
                    frame = [(3.0, float(k), 1.0), (0, 0, 1), (1, 0, 0), (0, 1, 0)]
                else:
                    old.append((c, frame, r, a, b))
                    c = c.copy()
                for y, f, s, t, e in old + [(c, frame, r, a, b)]:
                    round_(ctx, y, f[0], f[3], s, f"{sig} step {k}", f)
                    arc_ends(ctx, y, f, s, t, e, f"{sig} step {k}")
                    ctx.expect(near(xyz(y.referenceVector), f[1]), f"{sig} step {k} reference", lambda: f"{y.referenceVector}")
                ctx.state(seq[: k + 1])
    ctx.trace()


# --- evaluators and NURBS curves -------------------------------------------------------------------------------

def evaluator(ctx, c, params, exact, interval, sig):
    """The evaluator of a curve against its exact point and derivatives."""
    e = c.evaluator
    ok, lo, hi = e.get_parameter_extents()
    ctx.expect(ok is True and near((lo, hi), interval), f"{sig} extents", f"{lo} {hi}")
    ok, s, t = e.get_end_points()
    ctx.expect(ok is True and near(xyz(s), exact(interval[0])[0]) and near(xyz(t), exact(interval[1])[0]), f"{sig} ends", f"{s} {t}")
    D = [exact(t) for t in params]
    T = [unit(d[1]) for d in D]
    K = [tuple((b - dot(d[2], u) * a) / dot(d[1], d[1]) for a, b in zip(u, d[2])) for d, u in zip(D, T)]
    one = lambda r: (r[0] in (True, np.True_), xyz(r[1]))
    many = lambda r: (r[0] in (True, np.True_), [xyz(x) for x in r[1]])
    for name, single, several, want, tol in (("point", e.get_point_at_parameter, e.get_point_at_parameters, [d[0] for d in D], 1e-9), ("first derivative", e.get_first_derivative, e.get_first_derivatives, [d[1] for d in D], 1e-3),
                                             ("second derivative", e.get_second_derivative, e.get_second_derivatives, [d[2] for d in D], 1e-3), ("tangent", e.get_tangent, e.get_tangents, T, 1e-3),
                                             ("curvature", e.get_curvature, e.get_curvatures, K, 1e-3)):
        ctx.step(2)
        for t, w in zip(params, want):
            ok, v = one(single(t))
            ctx.expect(ok and near(v, w, tol), f"{sig} {name}", lambda: f"{v} at {t}, exact {w}")
        ok, v = many(several(list(params)))
        ctx.expect(ok and near(v, want, tol), f"{sig} {name}s", lambda: f"{v}, exact {want}")
    ctx.expect(near([e.get_curvature(t)[2] for t in params], [math.hypot(*k) for k in K], 1e-3) and near(e.get_curvatures(list(params))[2], [math.hypot(*k) for k in K], 1e-3), f"{sig} curvature size", "")
    lo, hi = interval
    ok, S = many(e.get_strokes(lo, hi, 5))
    ctx.expect(ok and near(S, [exact(lo + (hi - lo) * i / 4)[0] for i in range(5)]), f"{sig} strokes", lambda: f"{S}")


def line_evaluators(ctx, tier):
    for p in ORIGINS:
        for d in NORMALS:
            u = tuple(2 * x for x in d)
            sig = f"line evaluator {p}+{u}"
            ctx.state(sig)
            with ctx.at(sig):
                f = lambda t: [tuple(p[i] + t * u[i] for i in range(3)), u, (0.0, 0.0, 0.0)]
                evaluator(ctx, line(p, u, False), [0.25, 0.5, 1.0], f, (0.0, 1.0), sig)
    ctx.trace()


def nurbs(ctx, p, wk, tier):
    for U in shapes.open_knots(p, tier, inner=2):
        n = len(U) - p - 1
        Q, W = shapes.points(n), shapes.weights(wk, n)
        mids = [float(a + (b - a) * k / 3) for a, b in zip(U, U[1:]) if a < b for k in (1, 2)]
        tag = f"nurbs p={p} U={[str(x) for x in U]} w={wk}"

        def build(how):
            if how == "points":
                return NurbsCurve3D([P(q) for q in Q], [float(w) for w in W], p, [float(x) for x in U] if False else shapes.knots(U))
            if how == "rational":
                return NurbsCurve3D.create_rational([P(q) for q in Q], p, shapes.knots(U), [float(w) for w in W], False)
            if how == "array":
                c = NurbsCurve3D(np.array([[float(x) for x in q] for q in Q]), degree=p, knots=shapes.knots(U))
                c.evaluate(mids[0])
                c.weights = [float(w) for w in W]
                return c
            c = NurbsCurve3D([P(q) for q in shapes.points(n + 1)], None, p)
            c.evaluate(0.0)
            ctx.expect(c.set([P(q) for q in Q], p, shapes.knots(U), True, [float(w) for w in W], False) is True, f"{tag} set", "")
            return c

        for how in ("points", "rational", "array", "set"):
            sig = f"{tag} {how}"
            ctx.state(sig)
            with ctx.at(sig):
                c = build(how)
                exact = lambda t: [tuple(map(float, r)) for r in (lambda D: D + [(F(0),) * 3] * (3 - len(D)))(ref.curve_ders(U, p, Q, W, F(t), 2))]
                ctx.expect(near(c.interval(), (float(U[p]), float(U[n]))), f"{sig} interval", str(c.interval()))
                for t in mids:
                    D = exact(t)
                    ctx.step(3)
                    s = 1 + max(abs(x) for d in D for x in d)
                    ctx.expect(near(c.evaluate(t), D[0]) and near(c(t), D[0]), f"{sig} point", lambda: f"{c.evaluate(t)} at {t}, exact {D[0]}")
                    ctx.expect(near(c.derivative(t), D[1], 1e-9 * s) and near(c.second_derivative(t), D[2], 1e-9 * s), f"{sig} derivatives", lambda: f"{c.derivative(t)} {c.second_derivative(t)}, exact {D}")
                    ctx.expect(near(c.tangent(t), unit(D[1]), 1e-6), f"{sig} tangent", lambda: f"{list(c.tangent(t))}")
                ctx.expect(near(c(np.array(mids)), [exact(t)[0] for t in mids]), f"{sig} points", "")
                g = c.get_data()
                rational = any(w != 1 for w in W)
                ctx.expect(g[0] is True and near([xyz(q) for q in g[1]], [[float(x) for x in q] for q in Q]) and g[2] == p and near(g[3], shapes.knots(U)) and bool(g[4]) == rational
                           and near(g[5], [float(w) for w in W]) and not g[6], f"{sig} get_data", lambda: str(g))
                ctx.expect(c.controlPointCount == n and c.knot_count == len(U) and c.degree == p and bool(c.is_rational) == rational, f"{sig} counts", "")
    ctx.trace()


def nurbs_histories(ctx, first, tier):
    p, n = 2, 5
    U0 = [F(0)] * 3 + [F(1), F(2)] + [F(3)] * 3
    ops = ("weights 1", "weights 2", "set", "set plain")
    for rest in itertools.product(ops, repeat=1 if tier == "quick" else 3):
        seq = (ops[first],) + rest
        sig = f"nurbs history {', '.join(seq)}"
        with ctx.at(sig):
            Q, W, U, d = shapes.points(n), [F(1)] * n, U0, p
            c = NurbsCurve3D([P(q) for q in Q], None, d, shapes.knots(U))
            for k, op in enumerate(("",) + seq):
                ctx.step()
                if op == "weights 1":
                    W = [F(1 + (i + k) % 3) for i in range(len(Q))]
                    c.weights = [float(w) for w in W]
                elif op == "weights 2":
                    W = [F(2 if i == k else 1) for i in range(len(Q))]
                    c.weights = np.array([float(w) for w in W])
                elif op:
                    m, d = n + k, 1 + k
                    Q, W = shapes.points(m), [F(1 + i % 2) for i in range(m)] if op == "set" else [F(1)] * m
                    U = [F(0)] * (d + 1) + [F(i + 1) for i in range(m - d - 1)] + [F(m - d)] * (d + 1)
                    ctx.expect(c.set([P(q) for q in Q], d, shapes.knots(U), op == "set", [float(w) for w in W], False) is True, f"{sig} set", "")
                lo, hi = float(U[d]), float(U[len(Q)])
                ctx.expect(near(c.interval(), (lo, hi)), f"{sig} step {k} interval", str(c.interval()))
                for i in range(9):
                    t = lo + (hi - lo) * i / 8
                    w = [float(x) for x in ref.curve_point(U, d, Q, W, F(t))]
                    ctx.expect(near(c.evaluate(t), w) and near(c(np.array([t]))[0], w), f"{sig} step {k} point", lambda: f"{c.evaluate(t)} at {t}, exact {w}")
                g = c.get_data()
                ctx.expect(near([xyz(q) for q in g[1]], [[float(x) for x in q] for q in Q]) and g[2] == d and near(g[5], [float(w) for w in W]), f"{sig} step {k} data", lambda: str(g))
                mids = [float(a + (b - a) / 2) for a, b in zip(U, U[1:]) if a < b]
                evaluator(ctx, c, mids, lambda t: [tuple(map(float, r)) for r in (lambda D: D + [(F(0),) * 3] * (3 - len(D)))(ref.curve_ders(U, d, Q, W, F(t), 2))], (lo, hi), f"{sig} step {k} evaluator") if d > 1 else None
                ctx.state(seq[:k])
    ctx.trace()


def tasks(tier):
    T = []
    for k in range(5 if tier == "quick" else len(OTHERS)):
        T.append((f"lines {k}", lines, (k, tier)))
    for op in LINE_OPS:
        T.append((f"line histories {op}", line_histories, (op, tier)))
    for o in ORIGINS:
        T.append((f"planes {o}", planes, (o, tier)))
    for k in range(9):
        T.append((f"plane histories {k}", plane_histories, (k, tier)))
        T.append((f"arc histories {k}", arc_histories, (k, tier)))
    for o in ORIGINS[:2]:
        T.append((f"circles {o}", circles, (o, tier)))
    for k in range(8 if tier == "quick" else 12):
        T.append((f"three points {k}", three_points, (k, tier)))
    for k in range(7):
        T.append((f"circle histories {k}", circle_histories, (k, tier)))
    T.append(("line evaluators", line_evaluators, (tier,)))
    for p in (1, 2, 3):
        for wk in ("one", "two", "mix"):
            T.append((f"nurbs p={p} w={wk}", nurbs, (p, wk, tier)))
    for k in range(4):
        T.append((f"nurbs histories {k}", nurbs_histories, (k, tier)))
    return T
