"""C29: polygons - areas, boolean operations, clipping, membership, hulls and corners."""
import contextlib
import io
import itertools
import math
from functools import lru_cache

import numpy as np

from mmcore.geom import features as FE
from mmcore.geom import polygon as P
from mmcore.geom.nurbs import NURBSCurve
from mmcore.geom.surfaces import BiLinear, CurveOnSurface
from mmcore.numeric.algorithms.point_in_curve import point_in_curve, point_in_parametric_curve

PID = "C29"
ASSUMPTIONS = [
    "boolean operations and clipping are claimed in general position: no corner of one polygon lies on the boundary of the other",
    "membership is not asked for on the boundary itself; at the height of corners it is",
    "a list of result polygons stands for the points that lie in an odd number of them (holes are polygons of their own)",
    "the hull merges what is closer to collinear than 1e-9 in the units of the coordinates",
]
BOUNDS = {
    "polygons": "every simple polygon with 3..5 (thorough 3..7) corners on the 3x3 grid, both directions",
    "membership": "each of them x every point of a quarter grid around it off the boundary, 4 placements, 6 tests; closed curves of degree 1..3 over 6 outlines",
    "booleans": "one polygon of every class of 3..4 (thorough 5) corners under translations and symmetries of the square (thorough: every one of 3..4 corners) with every polygon of 3..4 corners, shifted, shrunk, grown and parted; union, intersection and difference, compared in every cell of the arrangement of all edges; combs of 2..3 (4) teeth x 7 bars x directions x roles; every sequence of 3 operations on the same two objects",
    "clipping": "every simple polygon of 3..5 corners by every convex polygon of 3..4 shifted corners",
    "hulls": "every sequence of up to 4, every multiset of 5 and every set of 6 points of the 3x3 grid, 3 scales",
    "segments": "every pair of segments of the 3x3 grid in general position",
}
GRID = [(x, y) for x in range(3) for y in range(3)]


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def on(a, b, p):
    return orient(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def crossing(a, b, c, d):
    return orient(a, b, c) * orient(a, b, d) < 0 and orient(c, d, a) * orient(c, d, b) < 0


def simple(p):
    n = len(p)
    if any(orient(p[i - 1], p[i], p[(i + 1) % n]) == 0 for i in range(n)):
        return False
    for i in range(n):
        for j in range(i + 2, n - (i == 0)):
            a, b, c, d = p[i], p[i + 1], p[j], p[(j + 1) % n]
            if crossing(a, b, c, d) or on(a, b, c) or on(a, b, d) or on(c, d, a) or on(c, d, b):
                return False
    return True


@lru_cache(maxsize=None)
def polygons(n):
    """Every simple polygon with n corners on the grid, starting at its least corner, both directions."""
    return tuple(p for p in itertools.permutations(GRID, n) if p[0] == min(p) and simple(p))


def shape_class(p):
    """The same for polygons that the symmetries of the square and translations carry into each other."""
    forms = []
    for k in range(8):
        q = [(y, x) if k & 1 else (x, y) for x, y in p]
        q = [(-x if k & 2 else x, -y if k & 4 else y) for x, y in q]
        mx, my = min(x for x, _ in q), min(y for _, y in q)
        forms.append(tuple(sorted(tuple(sorted(((a[0] - mx, a[1] - my), (b[0] - mx, b[1] - my)))) for a, b in zip(q, q[1:] + q[:1]))))
    return min(forms)


@lru_cache(maxsize=None)
def shapes(n):
    """One polygon of every class, directions in turn."""
    seen = {}
    for p in polygons(n):
        seen.setdefault(shape_class(p), []).append(p)
    return tuple(next((p for p in ps if (area2(p) > 0) == (k % 2 == 0)), ps[0]) for k, (_, ps) in enumerate(sorted(seen.items())))


def area2(p):
    return sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(p, p[1:] + p[:1]))


def inside(p, q):
    """None on the boundary."""
    r = False
    for a, b in zip(p, p[1:] + p[:1]):
        if on(a, b, q):
            return None
        if (a[1] > q[1]) != (b[1] > q[1]) and (orient(a, b, q) > 0) == (b[1] > a[1]):
            r = not r
    return r


def move(p, s, dx, dy):
    return tuple((x * s + dx, y * s + dy) for x, y in p)


# ---- cells of an arrangement -----------------------------------------------------------------------------------------------------

def edges_of(loops):
    return [(a, b) for l in loops for a, b in zip(l, l[1:] + l[:1]) if a != b]


def cells(groups):
    """(x, y, parities) for a point in every cell the edges of the groups of loops cut the plane into."""
    es = [(a, b, g) if a[0] <= b[0] else (b, a, g) for g, loops in enumerate(groups) for a, b in edges_of(loops)]
    xs = sorted({round(p[0], 9) for e in es for p in e[:2]} | {
        round(x, 9) for (a, b, g), (c, d, h) in itertools.combinations(es, 2) if g != h for x in cross_x(a, b, c, d)})
    for x0, x1 in zip(xs, xs[1:]):
        if x1 - x0 < 1e-7:
            continue
        x = (x0 + x1) / 2
        ys = sorted((a[1] + (x - a[0]) * (b[1] - a[1]) / (b[0] - a[0]), g) for a, b, g in es if a[0] < x < b[0])
        par = [False] * len(groups)
        for (y0, g), (y1, g1) in zip(ys, ys[1:]):
            par[g] = not par[g]
            if y1 - y0 > 1e-7:
                yield x, (y0 + y1) / 2, tuple(par)
            elif g == g1 == 2 and y1 - y0 < 1e-11:
                yield x, y0, None


def cross_x(a, b, c, d):
    den = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
    if den:
        s = ((c[0] - a[0]) * (d[1] - c[1]) - (c[1] - a[1]) * (d[0] - c[0])) / den
        t = ((c[0] - a[0]) * (b[1] - a[1]) - (c[1] - a[1]) * (b[0] - a[0])) / den
        if 0 < s < 1 and 0 < t < 1:
            yield a[0] + s * (b[0] - a[0])


def general(a, b):
    """No corner of one polygon near the boundary of the other."""
    for p, q in ((a, b), (b, a)):
        for v in p:
            for c, d in zip(q, q[1:] + q[:1]):
                L = math.dist(c, d)
                if abs(orient(c, d, v)) < 1e-6 * L and -1e-6 < ((v[0] - c[0]) * (d[0] - c[0]) + (v[1] - c[1]) * (d[1] - c[1])) / L / L < 1 + 1e-6:
                    return False
    return True


# ---- membership ------------------------------------------------------------------------------------------------------------------

PLACES = [(1, 0, 0), (1, -4, -1), (2.0, 4194304.0, 1024.0), (0.25, -0.5, 0.75)]
QUERIES = [(x / 4, y / 4) for x in range(-1, 10) for y in range(-1, 10)]


def t_members(ctx, n, place, part, parts):
    s, dx, dy = place
    for i, p in enumerate(polygons(n)):
        if i % parts != part:
            continue
        ctx.state((n, place, p))
        m = move(p, s, dx, dy)
        pts = np.array(m, dtype=float)
        closed = np.array(m + m[:1], dtype=float)
        plain = [list(q) for q in m]
        with ctx.at("build"):
            tree = P.polygon_build_bvh(plain)
            poly = P.Polygon(m)
        seg, box = P.segments_by_loop(pts), P.aabb(pts)
        ctx.expect(seg.tolist() == [[k, (k + 1) % n] for k in range(n)], "segments_by_loop", lambda: f"{n}: {seg.tolist()}")
        if i % 8 == 0:
            ctx.expect(P.segments_by_loop(pts, 5).tolist() == [[k + 5, (k + 1) % n + 5] for k in range(n)], "segments_by_loop", "start_index")
        for j, q in enumerate(QUERIES):
            want = inside(p, q)
            if want is None:
                continue
            (u, v), = move((q,), s, dx, dy)
            ctx.step()
            sig = f"member{n}"
            with ctx.at(sig):
                got = {
                    "is_point_in_polygon": P.is_point_in_polygon((u, v), plain),
                    "Vertex.isInside": P.Vertex((u, v)).isInside(poly),
                    "is_point_in_polygon_bvh(tree)": P.is_point_in_polygon_bvh(tree, (u, v)),
                }
                k = (i + j) % 4
                if k == 0:
                    got["point_in_polygon"] = P.point_in_polygon(pts, np.array([u, v]))
                elif k == 1:
                    got["point_in_polygon(closed)"] = P.point_in_polygon(closed, np.array([u, v]))
                    got["point_in_polygon(closed, segments)"] = P.point_in_polygon(closed, np.array([u, v]), P.segments_by_loop(closed))
                    got["is_point_in_polygon_bvh"] = P.is_point_in_polygon_bvh(plain, (u, v))
                elif k == 2:
                    got["point_in_polygon(segments, box)"] = P.point_in_polygon(pts, np.array([u, v]), seg, box)
                else:
                    got["features"] = FE.point_in_polygon(pts, np.array([u, v]))
            for name, g in got.items():
                ctx.expect(bool(g) == want, sig, lambda: f"{name}: {(u, v)} in {m} is {g}")
        ctx.expect(np.array_equal(pts, np.array(m, dtype=float)) and plain == [list(q) for q in m] and poly.points == [tuple(map(float, q)) for q in m],
                   "arguments", lambda: f"a membership test changed {m}")
    ctx.trace()


OUTLINES = [
    [(0, 0), (4, 0), (4, 3), (0, 3)], [(0, 0), (4, 0), (2, 1), (4, 4), (0, 4)], [(0, 0), (3, 0), (3, 3), (2, 3), (2, 1), (1, 1), (1, 3), (0, 3)],
    [(0, 0), (0, 4), (4, 4), (4, 0)], [(1, 0), (3, 1), (0, 2)], [(0, 0), (2, 3), (4, 0), (4, 4), (0, 4)],
]


class Ellipse:
    """A closed curve that is no spline."""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def interval(self):
        return 0.0, 2 * math.pi

    def evaluate(self, t):
        return np.array([self.c[0] + self.a * math.cos(t), self.c[1] + self.b * math.sin(t), 0.0])

    def evaluate_multi(self, ts):
        return np.array([self.evaluate(t) for t in ts])


def t_curves(ctx, k, deg, tier):
    step = 0.25 if tier == "thorough" else 0.45
    if deg:
        out = OUTLINES[k]
        crv = NURBSCurve(np.array([(*q, 0.0) for q in out + out[:1]], dtype=float), deg)
    else:
        crv = Ellipse(*[((2, 2), 2.0, 1.0), ((1.5, 2), 1.0, 2.25), ((2, 2), 0.5, 0.5)][k])
    ctx.state((k, deg))
    a, b = crv.interval()
    pl = np.array(crv.evaluate_multi(np.linspace(a, b, 3000)))[:, :2]
    loop = [tuple(q) for q in pl[:-1].tolist()] if deg != 1 else [tuple(map(float, q)) for q in OUTLINES[k]]
    trim = CurveOnSurface(BiLinear(*np.array([(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)], dtype=float)), crv, interval=(a, b))
    for x in np.arange(-0.5, 5, step):
        for y in np.arange(-0.4, 5, step):
            if np.min(np.hypot(*(pl - [x, y]).T)) < 0.004:
                continue
            want = inside(loop, (x, y))
            ctx.step()
            sig = f"curve{deg}"
            with ctx.at(sig):
                got = (point_in_parametric_curve(crv, np.array([x, y, 0.0])), point_in_curve(crv, (x, y)), trim.point_inside(np.array([x, y])))
            ctx.expect(all(bool(g) == want for g in got), sig, lambda: f"{(x, y)} in the curve of degree {deg} over {OUTLINES[k]}: {got}")
    with ctx.at("open"):
        if deg:
            o = NURBSCurve(np.array([(*q, 0.0) for q in OUTLINES[k]], dtype=float), min(deg, 2))
            ctx.expect(not point_in_parametric_curve(o, (1.5, 1.5)), "open", "a point inside an open curve")
    with ctx.at("outline tree"):
        if deg:
            trim.build_uv_bvh()
            want = [tuple(map(float, q)) for q in OUTLINES[k]]
            for q in itertools.product(np.arange(-0.45, 4.6, 0.5), repeat=2):
                d = np.min(np.hypot(*(pl - q).T))
                if d > 0.35 if deg > 1 else d > 0.01:
                    g = P.is_point_in_polygon_bvh(trim._bvh_uv_root, q)
                    if deg == 1:
                        ctx.expect(g == inside(tuple(want), q), "outline tree", lambda: f"{q} in the outline of {want}: {g}")
    ctx.trace()


# ---- booleans --------------------------------------------------------------------------------------------------------------------

OPS = {"union": lambda a, b: a or b, "intersection": lambda a, b: a and b, "difference": lambda a, b: a and not b}
OTHERS = ([((x, y), s) for x, y, s in [(0.37, 0.29, 1), (-0.41, 0.63, 1), (0.83, -0.71, 1), (0.52, 0.61, 0.4), (1.02, 0.33, 0.3), (-0.9, -0.8, 2), (5.1, 0.2, 1)]])


def loops_of(res):
    return [[(float(v.x), float(v.y)) for v in r] for r in res]


def check_boolean(ctx, sig, a, b, op, res):
    fn = OPS[op]
    loops = loops_of(res)
    for x, y, par in cells([[list(a)], [list(b)], loops]):
        ctx.step()
        if par is None:
            ctx.fail(sig, f"{op} of {a} and {b}: two edges lie on each other at {(x, y)} in {loops}")
            return
        ia, ib, ir = par
        if bool(fn(ia, ib)) != ir:
            ctx.fail(sig, f"{op} of {a} and {b}: {(x, y)} should {'' if not ir else 'not '}be in {loops}")
            return


def t_boolean(ctx, n, m, other, full):
    (dx, dy), s = other
    quiet = io.StringIO()
    for i, (a, b0) in enumerate(itertools.product(polygons(n) if full else shapes(n), polygons(m))):
        b = move(b0, s, dx, dy)
        if not general(a, b):
            ctx.count("degenerate pairs left out")
            continue
        ctx.state((n, m, other, i))
        for k, op in enumerate(OPS):
            sig = f"{op} {n}-{m}"
            with ctx.at(sig):
                A, B = P.Polygon(a), P.Polygon(b)
                how = (i + k) % 4
                with contextlib.redirect_stdout(quiet):
                    if how == 0 and op != "intersection":
                        res = A + B if op == "union" else A - B
                    elif how == 1:
                        res = P.clip_polygon(a, b, op) if op != "difference" or i % 3 else P.clip_polygon(b, a, "reversed-diff")
                    else:
                        res = getattr(A, op)(B)
                check_boolean(ctx, sig, a, b, op, res)
                if how != 1:
                    ctx.expect(A.points == [tuple(map(float, q)) for q in a] and B.points == [tuple(map(float, q)) for q in b], "operands",
                               lambda: f"{op} changes {a} or {b}: {A.points} {B.points}")
    ctx.trace()


def t_combs(ctx, teeth, shift):
    """Edges that cross the other polygon many times, with long and short edges on either side."""
    for gaps in itertools.product((1, 3), repeat=teeth - 1):
        for heights in itertools.product((2, 5), repeat=teeth):
            xs, x = [], 0
            for g in gaps + (1,):
                xs.append(x)
                x += 1 + g
            comb = [(0, -1), (xs[-1] + 1, -1)]
            for k in range(teeth - 1, -1, -1):
                comb += [(xs[k] + 1, heights[k]), (xs[k], heights[k])]
                if k:
                    comb += [(xs[k], 0.25 * k), (xs[k - 1] + 1, 0.25 * k)]
            comb = comb[shift:] + comb[:shift]
            for x0, x1, y0, y1 in [(-1, x + 1, 1, 1.5), (-1, x + 60, 1, 1.5), (-70, x + 1, 1.25, 1.75), (0.5, x + 20, 1, 3), (-1, x - 0.5, 3, 1), (-3, x + 5, 0.4, 2.6), (-40, x + 40, -3, 7.3)]:
                bar = [(x0, y0), (x1, y1), (x1, y1 + 0.375), (x0, y0 + 0.375)]
                for a, b in itertools.product((comb, comb[::-1]), (bar, bar[::-1])):
                    for p, q in ((a, b), (b, a)):
                        p, q = tuple(p), tuple(q)
                        if not general(p, q):
                            continue
                        ctx.state((shift, p, q))
                        for op in OPS:
                            with ctx.at("combs"):
                                check_boolean(ctx, "combs", p, q, op, getattr(P.Polygon(p), op)(P.Polygon(q)))
    ctx.trace()


def t_history(ctx, first):
    pairs = [(((0, 0), (2, 0), (2, 2), (0, 2)), ((1, 1), (3, 1), (3, 3), (1, 3))),
             (((0, 0), (4, 0), (4, 3), (3, 3), (3, 1), (1, 1), (1, 3), (0, 3)), ((-1, 2), (5, 2), (5, 2.5), (-1, 2.5))),
             (((0, 0), (4, 0), (4, 4), (0, 4)), ((1, 1), (2, 1), (2, 2))), (((0, 0), (1, 0), (1, 1)), ((3, 3), (4, 3), (4, 4)))]
    names = [(op, rev) for op in OPS for rev in (False, True)]
    for a, b in pairs:
        for rest in itertools.product(names, repeat=2):
            seq = (names[first],) + rest
            A, B = P.Polygon(a), P.Polygon(b)
            ctx.state((a, seq))
            for step, (op, rev) in enumerate(seq):
                sig = "history"
                with ctx.at(sig):
                    x, y = (B, A) if rev else (A, B)
                    res = getattr(x, op)(y)
                    check_boolean(ctx, sig, b if rev else a, a if rev else b, op, res)
                    ctx.expect(abs(A.area - abs(area2(a)) / 2) < 1e-9 and abs(B.area - abs(area2(b)) / 2) < 1e-9, sig,
                               lambda: f"areas after {seq[:step + 1]}: {A.area} {B.area}")
                    ctx.expect(len(A.points) == len(a) and len(B.points) == len(b), sig, lambda: f"corners after {seq[:step + 1]}: {A.points} {B.points}")
            # results are polygons like any other
            with ctx.at("chain"):
                r = P.Polygon(a).union(P.Polygon(b))
                if len(r) == 1:
                    far = P.Polygon(move(a, 1, 0.53, -0.47))
                    out = r[0].intersection(far)
                    loop = loops_of(r)[0]
                    check_boolean(ctx, "chain", tuple(loop), tuple(far.points), "intersection", out)
    ctx.trace()


def convex(p):
    return all(orient(p[i - 2], p[i - 1], p[i]) > 0 for i in range(len(p)))


def t_clip(ctx, n, m, k):
    dx, dy, s = [(0.37, 0.29, 1), (0.41, 0.33, 0.5), (-0.9, -0.8, 2), (3.1, 0.7, 1)][k]
    for a in polygons(n):
        for b0 in polygons(m):
            if not convex(b0):
                continue
            b = move(b0, s, dx, dy)
            if not general(a, b):
                continue
            ctx.state((k, a, b0))
            sig = f"clip {n}-{m}"
            with ctx.at(sig):
                subject = [list(map(float, q)) for q in a]
                out = P.clip(subject, [list(q) for q in b])
            loops = [[(float(x), float(y)) for x, y in out]] if len(out) else []
            bad = False
            for x, y, par in cells([[list(a)], [list(b)], loops]):
                ctx.step()
                if par:
                    ia, ib, ir = par
                    bad |= (ia and ib) != ir
            ctx.expect(not bad, sig, lambda: f"{a} clipped by {b}: {out}")
            ctx.expect(subject == [list(map(float, q)) for q in a], "arguments", lambda: f"clip changes {a}")
    ctx.trace()


# ---- areas, corners, order ------------------------------------------------------------------------------------------------------

def t_measures(ctx, n):
    for i, p in enumerate(polygons(n)):
        ctx.state((n, p))
        want = abs(area2(p)) / 2
        ring = [list(q) for q in p + p[:1]]
        flat = np.array(p, dtype=float)
        deep = np.array([(*q, 7.0) for q in p])
        with ctx.at("area"):
            got = {
                "list": P.polygon_area(ring), "array": P.polygon_area(np.array(ring, dtype=float)),
                "uncast": P.polygon_area(np.array(ring, dtype=float), cast_to_numpy=False),
                "closed by to_polygon_area": P.polygon_area(P.to_polygon_area(flat)), "integers": P.polygon_area(P.to_polygon_area(np.array(p))),
                "with heights": P.polygon_area(P.to_polygon_area(deep)), "Polygon": P.Polygon(p).area,
            }
            many = P.polygon_area_vectorized(np.array([ring, ring[::-1], [[2 * x, y] for x, y in ring]], dtype=float))
            ctx.step()
            for name, g in got.items():
                ctx.expect(abs(g - want) <= 1e-12, "area", lambda: f"area of {p} ({name}): {g}, not {want}")
            ctx.expect(np.allclose(many, [want, want, 2 * want], atol=1e-12), "area", lambda: f"areas of {p}: {many}")
            col = P.PolygonCollection([P.Polygon(p), P.Polygon(move(p, 2, 1, 1))])
            ctx.expect(np.allclose(col.areas, [want, 4 * want]) and abs(col.area - 5 * want) < 1e-9, "area", lambda: f"collection over {p}: {col.areas} {col.area}")
            ctx.expect(col.tolist() == [[[x, y, 0] for x, y in q] for q in (p, move(p, 2, 1, 1))], "area", lambda: f"tolist of {p}: {col.tolist()}")
        with ctx.at("order"):
            want_o = FE.PointsOrder.CCW if area2(p) > 0 else FE.PointsOrder.CW
            ctx.expect(FE.points_order(flat) == want_o and FE.points_order(np.array(ring, dtype=float), close=False) == want_o, "order", lambda: f"order of {p}")
        with ctx.at("corners"):
            pg = P.Polygon(p)
            cosines, angles = [], []
            for k in range(n):
                u = [x - y for x, y in zip(p[k - 1], p[k])]
                v = [x - y for x, y in zip(p[(k + 1) % n], p[k])]
                c = (u[0] * v[0] + u[1] * v[1]) / math.hypot(*u) / math.hypot(*v)
                cosines.append(c)
                angles.append(math.acos(max(-1.0, min(1.0, c))))
            ctx.expect(np.allclose(pg.dots, cosines, atol=1e-9) and np.allclose(pg.angles, angles, atol=1e-7), "corners", lambda: f"{p}: {pg.dots} {pg.angles}")
            ctx.expect(all(abs(v.dot - c) < 1e-9 and abs(v.angle - t) < 1e-7 for v, c, t in zip(pg, cosines, angles)), "corners", lambda: f"corners of {p}")
            ctx.expect(np.array_equal(pg.corners, [(x, y, 0) for x, y in p]), "corners", lambda: f"corners of {p}: {pg.corners}")
        # every way to put up to two extra corners on each edge
        for extra in itertools.product(range(3), repeat=n):
            if n > 4 and sum(extra) > 3:
                continue
            for lead in {0, extra[-1]}:
                fat = []
                for (a, b), e in zip(zip(p, p[1:] + p[:1]), extra):
                    fat.append(a)
                    fat += [tuple(x + (y - x) * (t + 1) / (e + 1) for x, y in zip(a, b)) for t in range(e)]
                if lead:
                    fat = fat[-lead:] + fat[:-lead]
                with ctx.at("refine"):
                    pg = P.Polygon(fat)
                    pg.refine()
                    pts = pg.points
                    ctx.step()
                    ctx.expect(set(pts) == {tuple(map(float, q)) for q in p} and len(pts) == n, "refine", lambda: f"{fat} refined: {pts}")
                    ctx.expect(abs(pg.area - want) < 1e-9, "refine", lambda: f"{fat} refined has the area {pg.area}")
    ctx.trace()


def t_segments(ctx):
    segs = list(itertools.permutations(GRID, 2))
    for (a, b), (c, d) in itertools.product(segs, segs):
        o = [orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)]
        if 0 in o:
            continue
        ctx.step()
        want = crossing(a, b, c, d)
        x, y = np.array([a, b], dtype=float), np.array([c, d], dtype=float)
        with ctx.at("segments"):
            got = (P.intersects_segments(x, y), FE.intersects_segments(x, y))
            ctx.expect(all(bool(g) == want for g in got), "segments", lambda: f"{a}-{b} and {c}-{d}: {got}")
            r = P.intersect(P.Vertex(a), P.Vertex(b), P.Vertex(c), P.Vertex(d))
            if not want:
                ctx.expect(r is None, "intersect", lambda: f"{a}-{b} and {c}-{d} meet at {r}")
            else:
                (px, py), s, t = r
                ctx.expect(abs(a[0] + s * (b[0] - a[0]) - px) < 1e-12 and abs(a[1] + s * (b[1] - a[1]) - py) < 1e-12
                           and abs(c[0] + t * (d[0] - c[0]) - px) < 1e-12 and abs(c[1] + t * (d[1] - c[1]) - py) < 1e-12, "intersect",
                           lambda: f"{a}-{b} and {c}-{d} meet at {r}")
    for a, b, c in itertools.product(GRID, repeat=3):
        o = orient(a, b, c)
        ctx.state((a, b, c))
        with ctx.at("orientation"):
            g = P.orientation(*[np.array(q, dtype=float) for q in (a, b, c)])
            ctx.expect(g == (0 if o == 0 else 2 if o > 0 else 1), "orientation", lambda: f"orientation of {a} {b} {c}: {g}")
            if o:
                ctx.expect(bool(P.ccw(a, b, c)) == (o > 0) and bool(FE.ccw(a, b, c)) == (o > 0), "ccw", lambda: f"ccw of {a} {b} {c}")
            if o == 0:
                ctx.expect(FE.points_order(np.array([a, b, c], dtype=float)) == FE.PointsOrder.COLLINEAR, "order", lambda: f"order of {a} {b} {c}")
    ctx.trace()


# ---- hulls -----------------------------------------------------------------------------------------------------------------------

def chain(pts):
    """The corners of the hull, counterclockwise from the lowest, leftmost one (Andrew)."""
    pts = sorted(set(pts))
    if len(pts) < 3:
        return sorted(pts, key=lambda q: (q[1], q[0]))
    half = []
    for seq in (pts, pts[::-1]):
        h = []
        for q in seq:
            while len(h) > 1 and orient(h[-2], h[-1], q) <= 0:
                h.pop()
            h.append(q)
        half.append(h[:-1])
    out = half[0] + half[1]
    k = out.index(min(out, key=lambda q: (q[1], q[0])))
    return out[k:] + out[:k]


def t_hull(ctx, kind, n, scale, part=0, parts=1):
    gen = {"sequences": itertools.product(GRID, repeat=n), "multisets": itertools.combinations_with_replacement(GRID, n),
           "sets": itertools.combinations(GRID, n), "wide": itertools.combinations([(x, y) for x in range(4) for y in range(4)], n)}[kind]
    s, dx, dy = scale
    for i, pts in enumerate(gen):
        if i % parts != part:
            continue
        ctx.state((kind, n, scale, i))
        orders = (pts,) if kind == "sequences" else (pts, pts[::-1], pts[1::2] + pts[::2])
        for seq in orders:
            m = move(seq, s, dx, dy)
            want = [q for q in move(tuple(chain(seq)), s, dx, dy)]
            given = [list(q) for q in m] if i % 2 else np.array(m, dtype=float)
            with ctx.at(f"hull {kind}"):
                h = P.convex_hull2d(given)
                ctx.step()
                got = [tuple(map(float, q)) for q in h]
                if n < 3 or len(want) == 1:
                    ok = set(got) == set(want)
                else:
                    ok = got == want
                ctx.expect(ok, f"hull {kind}", lambda: f"the hull of {m} is {got}, not {want}")
                ctx.expect(np.array_equal(np.array(given, dtype=float), np.array(m, dtype=float)), "arguments", lambda: f"convex_hull2d changes {m}")
    ctx.trace()


# ---- tasks -----------------------------------------------------------------------------------------------------------------------

SCALES = [(1, 0, 0), (64.0, -100.0, 3.0), (0.0078125, 0.5, -0.25)]


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for n in range(3, 8 if deep else 6):
        parts = {3: 1, 4: 2, 5: 4, 6: 4, 7: 1}[n]
        for k, place in enumerate(PLACES):
            if n == 5 and k and not deep:
                continue
            out += [(f"members-{n}-{k}-{i}", t_members, (n, place, i, parts)) for i in range(parts)]
        out.append((f"measures-{n}", t_measures, (n,)))
    out += [(f"curves-{k}-{d}", t_curves, (k, d, tier)) for k in range(len(OUTLINES)) for d in (1, 2, 3)]
    out += [(f"ellipse-{k}", t_curves, (k, 0, tier)) for k in range(3)]
    for j, o in enumerate(OTHERS if deep else OTHERS[:1] + OTHERS[3:]):
        out += [(f"boolean-{n}-{m}-{j}", t_boolean, (n, m, o, deep and n + m < 8)) for n in ((3, 4, 5) if deep else (3, 4)) for m in (3, 4)]
    out += [(f"combs-{k}-{j}", t_combs, (k, j)) for k in ((2, 3, 4) if deep else (2, 3)) for j in ((0, 1, 2, 3, 4, 5) if deep else (0, 3))]
    out += [(f"history-{i}", t_history, (i,)) for i in range(6)]
    out += [(f"clip-{n}-{m}-{k}", t_clip, (n, m, k)) for n in ((3, 4, 5) if deep else (3, 4)) for m in (3, 4) for k in range(4)]
    out.append(("segments", t_segments, ()))
    for k, s in enumerate(SCALES):
        out += [(f"hull-seq-{n}-{k}", t_hull, ("sequences", n, s)) for n in range(1, 5)]
        out += [(f"hull-multi-5-{k}", t_hull, ("multisets", 5, s)), (f"hull-sets-6-{k}", t_hull, ("sets", 6, s)), (f"hull-sets-7-{k}", t_hull, ("sets", 7, s)),
                (f"hull-sets-9-{k}", t_hull, ("sets", 9, s))]
    if deep:
        out += [(f"hull-seq-5-{i}", t_hull, ("sequences", 5, SCALES[0], i, 8)) for i in range(8)] + [("hull-wide-5", t_hull, ("wide", 5, SCALES[0])), ("hull-wide-6", t_hull, ("wide", 6, SCALES[0]))]
    return out
