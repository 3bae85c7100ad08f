"""C35: planar triangulation, Voronoi diagrams, mesh files and tessellation of trimmed surfaces."""
import itertools
import math
from collections import Counter
from fractions import Fraction

import numpy as np

from mmcore.geom.nurbs import NURBSCurve, NURBSSurface
from mmcore.geom.surfaces import BiLinear, Coons, CurveOnSurface, Surface
from mmcore.topo.mesh import tess as TS
from mmcore.topo.mesh.triangle import tri as TR
from mmcore.topo.mesh.triangle.data import load, loads

PID = "C35"
ASSUMPTIONS = [
    "segments meet at most in exact grid points or cross where rounding keeps them apart from other vertices; a hole and a region are given by a simple polygon",
    "a quality of 20 degrees is claimed where no two segments meet at an angle below 60 degrees",
    "the sweepline algorithm (F) orders its events in rounded arithmetic: it is claimed for points that are not off a circle by rounding only",
    "trims stay inside the parameter rectangle and do not overlap its sides or each other along a stretch",
]
BOUNDS = {
    "points": "every set of 3..12 points of the 4x3 grid (quick: every set of up to 6, every 4th larger one), 4 placements (identity, shear, 2^-48 off the grid, large offset), 3 orders, 4 algorithms, every single repeated point for sets of 3..4",
    "tight": "4 lines and 4 circles of points, every point moved by 6 (19) numbers of up to 9 units in the last place along both axes, together with every other one",
    "outlines": "every simple polygon of 3..6 (7) vertices on the 3x3 grid, with its own vertices only or with all nine, options p, pq, pa, pD, pe, pn; every pair (triple) of segments of the grid",
    "holes": "every simple polygon of 3..5 (6) vertices on the inner 3x3 grid as a hole of a 5x5 square or notched outline, pairs of holes, open and closed loops, both directions",
    "surfaces": "3 kinds of surfaces, rectangles other than the unit square included; counts None, 1, 2, 3, 5; trims of 13 shapes, ends that miss a side by 1e-12 included, alone and in pairs, with and without density",
    "files": "every combination of first number 0 or 1, attributes 0..2, markers 0..1, comments and line ends for each kind of file",
}
GRID = [(x, y) for y in range(3) for x in range(4)]
G3 = [(x, y) for x in range(3) for y in range(3)]
PLACE = {
    "grid": lambda p: (p[0], p[1]),
    "shear": lambda p: (7 * p[0] + 2 * p[1], 5 * p[1] - 3 * p[0]),
    "near": lambda p: (p[0] * 2**48 + (p[0] * p[0] + 2 * p[1]) % 3, p[1] * 2**48 + (2 * p[0] + p[1] * p[1]) % 3),
    "far": lambda p: (1048576 + 3 * p[0], p[1] - 2097152),
}
SCALE = {"near": 2.0**-48}


# ---------------------------------------------------------------- exact plane geometry
def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def incircle(a, b, c, d):
    """> 0 when d lies inside the circle of the counter-clockwise a, b, c"""
    rows = [(p[0] - d[0], p[1] - d[1]) for p in (a, b, c)]
    m = [(x, y, x * x + y * y) for x, y in rows]
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def hull(pts):
    """Corners of the convex hull, counter-clockwise."""
    pts = sorted(set(pts))

    def half(ps):
        out = []
        for p in ps:
            while len(out) > 1 and orient(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out[:-1]

    return half(pts) + half(pts[::-1])


def area2(loop):
    return sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(loop, loop[1:] + loop[:1]))


def on(a, b, p):
    return orient(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def chain(a, b, pts):
    """The points of the segment a-b in order."""
    got = [p for p in set(pts) if on(a, b, p)]
    return sorted(got, key=lambda p: (p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1]))


def hull_edges(pts):
    h = hull(pts)
    out = set()
    for a, b in zip(h, h[1:] + h[:1]):
        c = chain(a, b, pts)
        out |= set(zip(c, c[1:]))
    return out


def crosses(a, b, c, d):
    """True when two segments that share no end have a common point, or overlap."""
    o = [orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)]
    s = [(x > 0) - (x < 0) for x in o]
    if s[0] * s[1] < 0 and s[2] * s[3] < 0:
        return True
    return on(a, b, c) or on(a, b, d) or on(c, d, a) or on(c, d, b)


def simple(loop):
    n = len(loop)
    for i in range(n):
        if orient(loop[i - 1], loop[i], loop[(i + 1) % n]) == 0:
            return False
        for j in range(i + 2, n):
            if (j + 1) % n != i and crosses(loop[i], loop[(i + 1) % n], loop[j], loop[(j + 1) % n]):
                return False
    return True


def polygons(grid, k):
    """Simple polygons of k vertices, counter-clockwise, each once."""
    for pts in itertools.combinations(grid, k):
        for rest in itertools.permutations(pts[1:]):
            if rest[0] > rest[-1]:
                continue
            loop = [pts[0], *rest]
            if simple(loop):
                yield loop if area2(loop) > 0 else [loop[0], *loop[:0:-1]]


def inside(loop, p):
    """-1 outside, 0 on the outline, 1 inside"""
    n, odd = len(loop), False
    for a, b in zip(loop, loop[1:] + loop[:1]):
        if on(a, b, p):
            return 0
        if (a[1] > p[1]) != (b[1] > p[1]):
            o = orient(a, b, p)
            if (o > 0) == (b[1] > a[1]):
                odd = not odd
    return 1 if odd else -1


# ---------------------------------------------------------------- judging a mesh
def edges_of(T):
    return [(t[i], t[(i + 1) % 3]) for t in T for i in range(3)]


def tiles(ctx, sig, V, T, outline, area, tol=0, twice=True):
    """The triangles T over the points V fill exactly what the directed outline edges enclose: positive triangles that
    meet edge to edge, whose free edges run along the outline, and whose areas add up."""
    ok = True
    total = 0
    for t in T:
        a, b, c = (V[i] for i in t)
        o = orient(a, b, c)
        total += o
        ok &= o > 0
    if not ctx.expect(ok, sig + " flipped", f"{V} {T}"):
        return False
    E = Counter(edges_of(T))
    if not ctx.expect(not E or max(E.values()) == 1, sig + " overlap", f"{V} {T}"):
        return False
    free = [(V[a], V[b]) for a, b in E if (b, a) not in E]
    if tol:
        fine = all(any(near(p, q, a, tol) and near(p, q, b, tol) for p, q in outline) for a, b in free)
    else:
        fine = all(any(on(p, q, a) and on(p, q, b) for p, q in outline) for a, b in free)
    if not ctx.expect(fine, sig + " outline", lambda: f"free edges {free} not on {outline}"):
        return False
    return ctx.expect(abs(total - area) <= tol, sig + " area", lambda: f"twice the area {total}, not {area}: {V} {T}")


def near(a, b, p, tol):
    """p within tol of the segment a-b"""
    dx, dy = b[0] - a[0], b[1] - a[1]
    l2 = dx * dx + dy * dy
    t = 0.0 if l2 == 0 else min(1.0, max(0.0, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l2))
    return math.hypot(a[0] + t * dx - p[0], a[1] + t * dy - p[1]) <= tol


def covered(V, T, a, b, tol=0):
    """Edges of the mesh cover the segment a-b."""
    if tol:
        ids = [i for t in T for i in t if near(a, b, V[i], tol)]
    else:
        ids = [i for t in T for i in t if on(a, b, V[i])]
    ids = sorted(set(ids), key=lambda i: (V[i][0] - a[0]) * (b[0] - a[0]) + (V[i][1] - a[1]) * (b[1] - a[1]))
    if not ids:
        return False
    if max(abs(V[ids[0]][0] - a[0]), abs(V[ids[0]][1] - a[1]), abs(V[ids[-1]][0] - b[0]), abs(V[ids[-1]][1] - b[1])) > tol:
        return False
    E = {frozenset(e) for e in edges_of(T)}
    return all(frozenset(e) in E for e in zip(ids, ids[1:]))


def ints(rows):
    return [tuple(int(x) for x in r) for r in np.asarray(rows).tolist()]


def floats(rows):
    return [tuple(r) for r in np.asarray(rows, dtype=float).tolist()]


# ---------------------------------------------------------------- Delaunay
def is_delaunay(ctx, sig, pts, T):
    if not tiles(ctx, sig, pts, T, hull_edges(pts), area2(hull(pts))):
        return False
    used = Counter(pts[i] for i in {i for t in T for i in t})
    ok = ctx.expect(set(used) == set(pts) and max(used.values()) == 1, sig + " points used", lambda: f"{pts} {T}")
    distinct = set(pts)
    for t in T:
        a, b, c = (pts[i] for i in t)
        for d in distinct:
            if d not in (a, b, c) and incircle(a, b, c, d) > 0:
                ctx.fail(sig + " circle not empty", f"{d} in {a} {b} {c}: {pts} {T}")
                return False
    return ok


def neighbors_ok(T, N):
    E = {}
    for k, t in enumerate(T):
        for a, b in ((t[i], t[(i + 1) % 3]) for i in range(3)):
            E[a, b] = k
    want = [[E.get((t[(i + 2) % 3], t[(i + 1) % 3]), -1) for i in range(3)] for t in T]
    return [list(n) for n in N] == want


def circle_center(a, b, c):
    d = 2 * orient(a, b, c)
    a2, b2, c2 = (p[0] * p[0] + p[1] * p[1] for p in (a, b, c))
    return ((a2 * (b[1] - c[1]) + b2 * (c[1] - a[1]) + c2 * (a[1] - b[1])) / d,
            (a2 * (c[0] - b[0]) + b2 * (a[0] - c[0]) + c2 * (b[0] - a[0])) / d)


def voronoi_ok(ctx, sig, pts):
    P, E, O, D = TR.voronoi(pts)
    P, D = floats(P), floats(D)
    E, O = np.asarray(E).tolist(), np.asarray(O).tolist()
    n, h = len(set(pts)), len(hull_edges(pts))
    size = max(max(abs(x) for p in pts for x in p), 1)
    tol = 1e-9 * size * max(1.0, max((abs(x) for p in P for x in p), default=1.0))
    ctx.expect(len(P) == 2 * n - 2 - h, sig + " corners", lambda: f"{len(P)} for {pts}")
    ctx.expect(len(E) + len(O) == 3 * n - 3 - h and len(O) == h, sig + " edges", lambda: f"{E} {O} for {pts}")

    def closest(q, slack):
        d = sorted((math.dist(q, s), s) for s in set(pts))
        return {s for x, s in d if x <= d[0][0] + slack}

    sites = []
    for p in P:
        c = closest(p, tol)
        sites.append(c)
        ctx.expect(len(c) >= 3, sig + " corner not between sites", lambda: f"{p} {pts}")
    pairs = []
    for a, b in E:
        common = sites[a] & sites[b]
        if not ctx.expect(len(common) >= 2, sig + " edge not between sites", lambda: f"{P[a]} {P[b]}: {pts}"):
            continue
        if math.dist(P[a], P[b]) > 10 * tol:
            c = closest(((P[a][0] + P[b][0]) / 2, (P[a][1] + P[b][1]) / 2), tol)
            if ctx.expect(len(c) == 2, sig + " edge not between sites", lambda: f"{P[a]} {P[b]}: {pts}"):
                pairs.append(frozenset(c))
    for o, d in zip(O, D):
        l = math.hypot(*d)
        if not ctx.expect(l > 0, sig + " ray without direction", lambda: f"{pts}"):
            continue
        # far out two sites remain; which side is right shows in that they stay the two closest
        c = sites[o]
        for reach in (0.5, 3.0):
            q = (P[o][0] + d[0] / l * reach * size, P[o][1] + d[1] / l * reach * size)
            c = c & closest(q, 10 * tol)
        if ctx.expect(len(c) == 2, sig + " ray not between sites", lambda: f"{P[o]} {d}: {pts}"):
            pairs.append(frozenset(c))
    ctx.expect(len(set(pairs)) == len(pairs), sig + " pair of sites twice", lambda: f"{pairs} {pts}")


ALGORITHMS = ("", "i", "F", "l")


def one_set(ctx, sig, pts, scale, full, algorithms=ALGORITHMS):
    """Every triangulation of one list of integer points (given to the code times scale)."""
    given = [(x * scale, y * scale) for x, y in pts] if scale != 1 else pts
    for opts in algorithms if full else ("",):
        s = f"{sig} {opts or 'd'}"
        with ctx.at(s):
            ctx.step()
            out = TR.triangulate({"vertices": given}, opts + "en")
            T = ints(out["triangles"])
            ctx.expect(floats(out["vertices"]) == floats(given), s + " vertices")
            if not is_delaunay(ctx, s, pts, T):
                continue
            E = {frozenset(e) for e in edges_of(T)}
            got = [frozenset(e) for e in ints(out["edges"])]
            ctx.expect(len(got) == len(E) and set(got) == E, s + " edge list", lambda: f"{got} {T}")
            H = {frozenset(e) for e in hull_edges(pts)}
            marks = {frozenset(pts[i] for i in e): m for e, (m,) in zip(ints(out["edges"]), ints(out["edge_markers"]))}
            ctx.expect(all((m == 1) == (e in H) for e, m in marks.items()), s + " edge markers")
            ctx.expect(neighbors_ok(T, ints(out["neighbors"])), s + " neighbors", lambda: f"{out['neighbors']} {T}")
    with ctx.at(sig + " delaunay"):
        ctx.step()
        is_delaunay(ctx, sig + " delaunay", pts, ints(TR.delaunay(given)))
    with ctx.at(sig + " hull"):
        ctx.step()
        got = [frozenset(pts[i] for i in e) for e in ints(TR.convex_hull(given))]
        want = {frozenset(e) for e in hull_edges(pts)}
        ctx.expect(len(got) == len(want) and set(got) == want, sig + " hull", lambda: f"{got} not {want}")


def all_collinear(pts):
    return len(hull(pts)) < 3


def task_sets(ctx, place, sizes, every, part, parts):
    f, scale = PLACE[place], SCALE.get(place, 1)
    k = 0
    for n in sizes:
        for m, sub in enumerate(itertools.combinations(GRID, n)):
            if n > 6 and m % every:
                continue
            k += 1
            if k % parts != part:
                continue
            pts = [f(p) for p in sub]
            sig = f"{place} {''.join(f'{x}{y},' for x, y in sub)}"
            ctx.state((place, sub))
            if all_collinear(pts):
                refused(ctx, sig, [(x * scale, y * scale) for x, y in pts])
                continue
            ctx.trace()
            one_set(ctx, sig, pts, scale, n <= 5 or m % 5 == 0)
            if n > 3:
                one_set(ctx, sig + "r", pts[::-1], scale, False)
                one_set(ctx, sig + "s", pts[2::3] + pts[::3] + pts[1::3], scale, False)
            if place in ("grid", "shear"):
                with ctx.at(sig + " voronoi"):
                    ctx.step()
                    voronoi_ok(ctx, sig + " voronoi", pts)
            if n <= 4 and place != "near":
                for again in range(n):
                    for where in (0, n):
                        one_set(ctx, f"{sig} twice {again} at {where}", pts[:where] + [pts[again]] + pts[where:], scale, True)


LINES = [[(1, 1), (24, 24), (48, 48)], [(1, 1), (24, 24), (48, 48), (6, 34)], [(-3, 5), (9, 9), (21, 13), (7, -20)], [(0, 1), (17, 1), (40, 1), (5, 9)]]
CIRCLES = [[(1, 1), (-1, 1), (-1, -1), (1, -1)], [(3, 4), (4, 3), (5, 0), (-3, 4)], [(3, 4), (-4, 3), (0, -5), (5, 0), (4, -3)], [(0, 0), (2, 0), (2, 1), (0, 1)]]


def task_tight(ctx, k, kind, reach):
    """Points off a common line or circle by a few units in the last place."""
    shape = (LINES if kind == "line" else CIRCLES)[k]
    unit, scale = (2**52, 2.0**-53) if kind == "line" else (2**49, 2.0**-50)
    base = [(x * unit, y * unit) for x, y in shape]
    n = len(base)
    for a in range(n):
        for i, j in itertools.product(reach, repeat=2):
            for b in ([n] if kind == "line" else []) + [x for x in range(n) if x != a]:
                for d in (-6, -2, 0, 1, 5):
                    pts = list(base)
                    if b == n:
                        # a further point beside the moved one
                        pts.append((pts[a][0] + d, pts[a][1] - i))
                    else:
                        pts[b] = (pts[b][0] + d, pts[b][1] - d)
                    pts[a] = (pts[a][0] + i, pts[a][1] + j)
                    # only what floats represent
                    pts = [tuple(int(float(v)) for v in p) for p in pts]
                    if len(set(pts)) < n or all_collinear(pts):
                        continue
                    sig = f"tight {kind} {k} {a} {i} {j} {b} {d}"
                    ctx.state(sig)
                    one_set(ctx, sig, pts, scale, d == 1 or i == j, ("", "i", "l"))


OPTIONS = ("", "p", "q", "n", "e", "v", "a0.1", "c", "r", "D", "s", "i", "F", "C", "pq", "S2")


def refused(ctx, sig, given):
    for opts in OPTIONS:
        s = f"{sig} refused {opts}"
        with ctx.at(s):
            ctx.step()
            try:
                TR.triangulate({"vertices": given, "segments": [[0, 1], [1, 2]]}, opts)
            except ValueError:
                continue
            ctx.fail(s, "points on one line were triangulated")
    for fn in (TR.delaunay, TR.convex_hull, TR.voronoi):
        s = f"{sig} refused {fn.__name__}"
        with ctx.at(s):
            try:
                fn(given)
            except ValueError:
                continue
            ctx.fail(s, "points on one line were triangulated")


def task_refused(ctx):
    for n in range(0, 3):
        refused(ctx, f"{n} points", [(i, i * i) for i in range(n)])
    for bad in (math.nan, math.inf, -math.inf):
        for at in range(4):
            pts = [[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0]]
            for k in range(2):
                q = [list(p) for p in pts]
                q[at][k] = bad
                refused(ctx, f"{bad} at {at}.{k}", q)
    for n in (3, 4, 7):
        refused(ctx, f"{n} times one point", [(1.5, 2.5)] * n)
        for d in ((1, 0), (0, 1), (0.1, 0.3), (-1, 3), (1e-8, 1e-8), (1e8, -1e8)):
            refused(ctx, f"{n} on a line {d}", [(d[0] * 2**i, d[1] * 2**i) for i in range(n)])
            if n > 3:
                refused(ctx, f"{n} with copies {d}", [(d[0] * (i % 2), d[1] * (i % 2)) for i in range(n)])


# ---------------------------------------------------------------- outlines
def quality(V, T):
    """The smallest angle of the mesh in degrees."""
    best = 180.0
    for t in T:
        for i in range(3):
            a, b, c = V[t[i]], V[t[(i + 1) % 3]], V[t[(i + 2) % 3]]
            best = min(best, math.degrees(abs(math.atan2(orient(a, b, c), (b[0] - a[0]) * (c[0] - a[0]) + (b[1] - a[1]) * (c[1] - a[1])))))
    return best


def corner_angles(loop):
    n = len(loop)
    out = []
    for i in range(n):
        a, b, c = loop[i - 1], loop[i], loop[(i + 1) % n]
        x = math.degrees(math.atan2(-orient(b, a, c), (a[0] - b[0]) * (c[0] - b[0]) + (a[1] - b[1]) * (c[1] - b[1])))
        out.append(min(x % 360, 360 - x % 360))
    return out


def constrained_delaunay(ctx, sig, V, T, fixed, tol=1e-9):
    """Across every edge that is not forced the far corner lies outside the circle."""
    E = {}
    for t in T:
        for i in range(3):
            E[t[i], t[(i + 1) % 3]] = t[(i + 2) % 3]
    for (a, b), c in E.items():
        d = E.get((b, a))
        if d is None or a > b or fixed(V[a], V[b]):
            continue
        if not ctx.expect(incircle(V[a], V[b], V[c], V[d]) <= tol, sig + " not Delaunay", lambda: f"{V[a]} {V[b]}: {V[c]} {V[d]} of {V} {T}"):
            return


def outline_mesh(ctx, sig, loop, extra, opts):
    """A simple polygon, possibly with further grid points: its inside and nothing else, edge by edge."""
    V0 = loop + [p for p in extra if p not in loop]
    n = len(loop)
    seg = [[i, (i + 1) % n] for i in range(n)]
    ctx.step()
    out = TR.triangulate({"vertices": V0, "segments": seg}, opts)
    V, T = floats(out["vertices"]), ints(out["triangles"])
    edges = list(zip(loop, loop[1:] + loop[:1]))
    ctx.expect(V[: len(V0)] == floats(V0), sig + " vertices", lambda: f"{V} {V0}")
    tol = 0 if len(V) == len(V0) else 1e-9
    tiles(ctx, sig, V, T, edges, area2(loop), tol)
    for a, b in edges:
        ctx.expect(covered(V, T, a, b, tol), sig + " segment missing", lambda: f"{a}-{b}: {V} {T}")
    used = {i for t in T for i in t}
    for i, p in enumerate(V0):
        ctx.expect((i in used) == (inside(loop, p) >= 0), sig + " point", lambda: f"{p} of {V0}: {T}")
    S = [frozenset(e) for e in ints(out["segments"])]
    free = {frozenset(e) for e in edges_of(T) if e[::-1] not in set(edges_of(T))}
    ctx.expect(len(S) == len(set(S)) and set(S) == free, sig + " segments", lambda: f"{S} {T}")
    if "q" not in opts and "a" not in opts and "D" not in opts:
        ctx.expect(len(V) == len(V0), sig + " new vertices")
    if "q" in opts and min(corner_angles(loop)) >= 60 - 1e-9:
        ctx.expect(quality(V, T) >= 20 - 1e-6, sig + " angle", lambda: f"{quality(V, T)}: {loop}")
    if "a" in opts:
        big = max(orient(*(V[i] for i in t)) / 2 for t in T)
        ctx.expect(big <= 0.3 + 1e-12, sig + " too large", lambda: f"{big}")
    constrained_delaunay(ctx, sig, V, T, lambda a, b: any(near(p, q, a, 1e-12) and near(p, q, b, 1e-12) for p, q in edges))
    if "e" in opts:
        E = {frozenset(e) for e in edges_of(T)}
        got = [frozenset(e) for e in ints(out["edges"])]
        ctx.expect(len(got) == len(E) and set(got) == E, sig + " edge list")
    if "n" in opts:
        ctx.expect(neighbors_ok(T, ints(out["neighbors"])), sig + " neighbors")


def name(loop):
    return "".join(f"{x}{y}," for x, y in loop)


def task_outlines(ctx, k, part, parts):
    for m, loop in enumerate(polygons(G3, k)):
        if m % parts != part:
            continue
        ctx.state(tuple(loop))
        ctx.trace()
        for extra in ((), G3):
            for opts in ("p", "pq", "pa0.3", "pen", "pD", "pqa0.3n"):
                for lp, tag in ((loop, ""), (loop[::-1], "-")):
                    sig = f"outline {name(loop)}{tag} {'+' if extra else ''}{opts}"
                    with ctx.at(sig):
                        if tag and opts != "p":
                            continue
                        if tag:
                            reverse_outline(ctx, sig, loop, extra)
                        else:
                            outline_mesh(ctx, sig, lp, list(extra), opts)
        for again in range(k):
            # the outline closed by a repeated vertex, which one segment ends at
            sig = f"outline {name(loop)} closed at {again}"
            with ctx.at(sig):
                lp = loop[again:] + loop[:again]
                V0 = lp + [lp[0]]
                ctx.step()
                out = TR.triangulate({"vertices": V0, "segments": [[i, i + 1] for i in range(k)]}, "p")
                V, T = floats(out["vertices"]), ints(out["triangles"])
                tiles(ctx, sig, V, T, list(zip(lp, lp[1:] + lp[:1])), area2(lp))
        split(ctx, loop)


def reverse_outline(ctx, sig, loop, extra):
    V0 = loop + [p for p in extra if p not in loop]
    n = len(loop)
    ctx.step()
    out = TR.triangulate({"vertices": V0, "segments": [[(i + 1) % n, i] for i in range(n)][::-1]}, "p")
    tiles(ctx, sig, floats(out["vertices"]), ints(out["triangles"]), list(zip(loop, loop[1:] + loop[:1])), area2(loop))


def interior(loop):
    """A point inside a grid polygon, away from its edges."""
    for d in (4, 8, 16):
        for x in range(0, 4 * d):
            for y in range(0, 4 * d):
                p = ((x + 0.5) / d, (y + 0.5) / d)
                if inside(loop, p) > 0:
                    return p
    raise AssertionError(loop)


def split(ctx, loop):
    """A diagonal divides the outline in two regions with an attribute and an area limit each."""
    n = len(loop)
    for i, j in itertools.combinations(range(n), 2):
        if j - i < 2 or j - i == n - 1:
            continue
        parts = [loop[i:j + 1], loop[j:] + loop[:i + 1]]
        if not all(simple(p) and area2(p) > 0 for p in parts):
            continue
        sig = f"regions {name(loop)} {i}-{j}"
        with ctx.at(sig):
            regions = [[*interior(parts[0]), 5.0, 0.2], [*interior(parts[1]), 7.0, 10.0]]
            seg = [[k, (k + 1) % n] for k in range(n)] + [[i, j]]
            for opts in ("pA", "pAa"):
                ctx.step()
                out = TR.triangulate({"vertices": loop, "segments": seg, "regions": regions}, opts)
                V, T = floats(out["vertices"]), ints(out["triangles"])
                A = np.asarray(out["triangle_attributes"]).ravel().tolist()
                tiles(ctx, f"{sig} {opts}", V, T, list(zip(loop, loop[1:] + loop[:1])), area2(loop), 0 if opts == "pA" else 1e-9)
                for p, mark, limit in ((parts[0], 5.0, 0.2), (parts[1], 7.0, 10.0)):
                    mine = [orient(*(V[v] for v in t)) for t, a in zip(T, A) if a == mark]
                    ctx.expect(abs(sum(mine) - area2(p)) < 1e-9, f"{sig} {opts} region", lambda: f"{mark}: {sum(mine)} not {area2(p)}")
                    if opts == "pAa":
                        ctx.expect(max(mine, default=0) / 2 <= limit + 1e-12, f"{sig} {opts} limit", lambda: f"{max(mine) / 2}")


def rounded_meeting(chosen, pts):
    """True when a crossing that floats do not represent lies on a segment with a further vertex or crossing inside."""
    at = {s: [] for s in chosen}
    for s, t in itertools.combinations(chosen, 2):
        (a, b), (c, d) = s, t
        den = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
        if den and crosses(a, b, c, d):
            u = Fraction((c[0] - a[0]) * (d[1] - c[1]) - (c[1] - a[1]) * (d[0] - c[0]), den)
            p = (a[0] + u * (b[0] - a[0]), a[1] + u * (b[1] - a[1]))
            at[s].append(p)
            at[t].append(p)
    for s, found in at.items():
        found += [p for p in pts if on(*s, p) and p not in s]
        if len(found) > 1 and any(x.denominator & (x.denominator - 1) for p in found for x in map(Fraction, p)):
            return True
    return False


def task_crossing(ctx, k, every, part, parts):
    segs = [s for s in itertools.combinations(G3, 2)]
    for m, chosen in enumerate(itertools.combinations(segs, k)):
        if m % every or (m // every) % parts != part:
            continue
        pts = sorted({p for s in chosen for p in s})
        if all_collinear(pts):
            continue
        for full, opts in ((False, "pc"), (True, "pc"), (False, "pcD"), (True, "pcD")):
            V0 = G3 if full else pts
            if rounded_meeting(chosen, V0):
                continue
            sig = f"segments {' '.join(name(s) for s in chosen)}{'all' if full else ''} {opts}"
            ctx.state((chosen, full))
            with ctx.at(sig):
                ctx.step()
                out = TR.triangulate({"vertices": V0, "segments": [[V0.index(a), V0.index(b)] for a, b in chosen]}, opts)
                V, T = floats(out["vertices"]), ints(out["triangles"])
                tol = 0 if len(V) == len(V0) else 1e-9
                tiles(ctx, sig, V, T, hull_edges(V0), area2(hull(V0)), tol)
                for a, b in chosen:
                    ctx.expect(covered(V, T, a, b, tol and 1e-9), sig + " segment missing", lambda: f"{a}-{b}: {V} {T}")
                constrained_delaunay(ctx, sig, V, T, lambda a, b: "D" not in opts and any(near(p, q, a, 1e-9) and near(p, q, b, 1e-9) for p, q in chosen))


# ---------------------------------------------------------------- holes
OUTER = {"square": [(0, 0), (4, 0), (4, 4), (0, 4)],
         "notched": [(0, 0), (4, 0), (4, 4), (2.5, 4), (2, 3.5), (1.5, 4), (0, 4)]}


def shift(loop, d=1):
    return [(x + d, y + d) for x, y in loop]


def holes_mesh(ctx, sig, outers, holes, closed, turned):
    def give(loop):
        loop = list(loop[::-1]) if turned else list(loop)
        return loop + loop[:1] if closed else loop

    ctx.step()
    args = TR.prepare_args([give(o) for o in outers], [give(h) for h in holes])
    out = TR.triangulate(args, "p")
    V, T = floats(out["vertices"]), ints(out["triangles"])
    want = {(float(x), float(y)) for l in (*outers, *holes) for x, y in l}
    ctx.expect(set(V) == want and len(V) == len(want), sig + " vertices", lambda: f"{V}")
    edges = [e for l in (*outers, *[h[::-1] for h in holes]) for e in zip(l, l[1:] + l[:1])]
    tiles(ctx, sig, V, T, edges, sum(map(area2, outers)) - sum(map(area2, holes)))
    P = TR.as_polygons(out)
    ctx.expect(np.array_equal(P, np.asarray(V)[np.asarray(T)]), sig + " polygons")


def task_holes(ctx, k, part, parts):
    for m, hole in enumerate(polygons(G3, k)):
        if m % parts != part:
            continue
        ctx.state(tuple(hole))
        ctx.trace()
        for which, outer in OUTER.items():
            for closed in (False, True):
                for turned in (False, True):
                    sig = f"hole {name(hole)} {which}{' closed' * closed}{' turned' * turned}"
                    with ctx.at(sig):
                        holes_mesh(ctx, sig, [outer], [shift(hole)], closed, turned)
        if k == 3:
            for other in polygons([(x, y) for x, y in G3], 3):
                a, b = shift(hole, 0.5), shift(other, 3.5)
                with ctx.at(f"holes {name(hole)} {name(other)}"):
                    holes_mesh(ctx, f"holes {name(hole)} {name(other)}", [[(0, 0), (6, 0), (6, 6), (0, 6)]], [a, b], True, False)
                with ctx.at(f"apart {name(hole)} {name(other)}"):
                    holes_mesh(ctx, f"apart {name(hole)} {name(other)}", [shift(hole, 0), shift(other, 4)], [], True, True)


# ---------------------------------------------------------------- refinement
def task_refine(ctx):
    for m, loop in enumerate(lp for k in (3, 4, 5) for lp in polygons(G3, k)):
        if m % 7:
            continue
        n = len(loop)
        edges = list(zip(loop, loop[1:] + loop[:1]))
        base = {"vertices": loop, "segments": [[i, (i + 1) % n] for i in range(n)],
                "vertex_attributes": [[float(3 * x - y), float(x + 1)] for x, y in loop]}
        for opts in ("p", "pn", "pen", "pnq"):
            for more in ("rpa0.1", "rpq", "rpnea0.15", "rpqa0.1"):
                sig = f"refine {name(loop)} {opts} {more}"
                ctx.state(sig)
                with ctx.at(sig):
                    ctx.step(2)
                    first = TR.triangulate(dict(base), opts)
                    out = TR.triangulate(first, more)
                    V, T = floats(out["vertices"]), ints(out["triangles"])
                    V1 = floats(first["vertices"])
                    ctx.expect(V[: len(V1)] == V1, sig + " vertices")
                    tiles(ctx, sig, V, T, edges, area2(loop), 1e-9)
                    if "a" in more:
                        limit = 0.15 if "0.15" in more else 0.1
                        big = max(orient(*(V[i] for i in t)) / 2 for t in T)
                        ctx.expect(big <= limit + 1e-12, sig + " too large", lambda: f"{big}")
                    if "n" in more:
                        ctx.expect(neighbors_ok(T, ints(out["neighbors"])), sig + " neighbors")
                    got = np.asarray(out["vertex_attributes"])
                    want = np.array([[3 * x - y, x + 1] for x, y in V])
                    ctx.expect(got.shape == want.shape and np.allclose(got, want, atol=1e-9), sig + " attributes", lambda: f"{got} {want}")
        sig = f"refine {name(loop)} each"
        with ctx.at(sig):
            first = TR.triangulate({k: v for k, v in base.items() if k != "vertex_attributes"}, "p")
            limits = [0.05] * len(first["triangles"])
            ctx.step(2)
            out = TR.triangulate({**first, "triangle_max_area": limits}, "rpa")
            V, T = floats(out["vertices"]), ints(out["triangles"])
            tiles(ctx, sig, V, T, edges, area2(loop), 1e-9)
            ctx.expect(max(orient(*(V[i] for i in t)) for t in T) / 2 <= 0.05 + 1e-12, sig + " limits")


# ---------------------------------------------------------------- surfaces
class Saddle(Surface):
    """A surface over a rectangle other than the unit square."""

    def __init__(self, box=((-1.0, 3.0), (2.0, 4.0))):
        self.box = box
        super().__init__()

    def interval(self):
        return self.box

    def evaluate(self, uv):
        u, v = uv
        return np.array([2 * u, v - u, u * v])


def surfaces():
    flat = np.array([[[3 * i, j, 0.5 * i * j + (i + j) % 2] for j in range(3)] for i in range(4)], dtype=float)
    line = lambda *p: NURBSCurve(np.array(p, dtype=float), degree=1)
    return {
        "saddle": Saddle(),
        "nurbs": NURBSSurface(flat, (3, 2)),
        "bilinear": BiLinear(np.array([0.0, 0, 0]), np.array([6.0, 0, 0]), np.array([5.0, 2, 1]), np.array([0.0, 2, 0])),
    }


def circle(cx, cy, r):
    return lambda t: np.array([cx + r * math.cos(2 * math.pi * t), cy + r * math.sin(2 * math.pi * t)])


def path(*pts):
    pts = np.array(pts, dtype=float)

    def f(t):
        k = min(int(t * (len(pts) - 1)), len(pts) - 2)
        s = t * (len(pts) - 1) - k
        return pts[k] * (1 - s) + pts[k + 1] * s

    return f


TRIMS = {  # over the unit square, stretched over the rectangle of the surface
    "diagonal": path((0.0, 0.0), (1.0, 1.0)),
    "level": path((0.0, 0.6), (1.0, 0.6)),
    "circle": circle(0.55, 0.45, 0.3),
    "small": circle(0.2, 0.75, 0.06),
    "square": path((0.3, 0.3), (0.7, 0.3), (0.7, 0.7), (0.3, 0.7), (0.3, 0.3)),
    "cw": path((0.3, 0.3), (0.3, 0.7), (0.7, 0.7), (0.7, 0.3), (0.3, 0.3)),
    "arrow": path((0.2, 0.2), (0.8, 0.5), (0.2, 0.8), (0.45, 0.5), (0.2, 0.2)),
    "across": path((0.0, 0.3), (1.0, 0.6)),
    "short": path((1e-12, 0.35), (1 - 1e-12, 0.55)),
    "long": path((-1e-12, 0.35), (1 + 1e-12, 0.55)),
    "bend": path((0.4, 0.0), (0.35, 0.6), (1.0, 0.7)),
    "inner": path((0.15, 0.45), (0.4, 0.9), (0.9, 0.85)),
    "thin": path((0.1, 0.48), (0.9, 0.5), (0.1, 0.52), (0.1, 0.48)),
}


def trim_on(surf, key, how="call"):
    (u0, u1), (v0, v1) = surf.interval()
    f = TRIMS[key]

    def g(t):
        x, y = f(t)
        return np.array([u0 + (u1 - u0) * x, v0 + (v1 - v0) * y])

    if how == "nurbs":
        return CurveOnSurface(surf, NURBSCurve(np.array([[*g(t), 0.0] for t in np.linspace(0, 1, 9)]), degree=1), interval=(0.0, 8.0))
    return CurveOnSurface(surf, g)


COUNTS = ((None, None), (None, 3), (3, None), (1, 1), (2, 5), (5, 2), (3, 3), (4, 1))


def surface_mesh(ctx, sig, surf, keys, nu, nv, density, how="call", count=13):
    (u0, u1), (v0, v1) = surf.interval()
    trims = [trim_on(surf, k, how) for k in keys]
    ctx.step()
    out = TS.tessellate_surface(surf, trims, nu, nv, boundary_count=count, calculate_density=density)
    V, T = floats(out["vertices"]), ints(out["triangles"])
    tol = 1e-9 * (1 + abs(u0) + abs(u1) + abs(v0) + abs(v1))
    rect = [(u0, v0), (u1, v0), (u1, v1), (u0, v1)]
    tiles(ctx, sig, V, T, list(zip(rect, rect[1:] + rect[:1])), 2 * (u1 - u0) * (v1 - v0), 4 * tol)
    P = np.asarray(out["position"])
    want = np.array([surf.evaluate(np.array(v)) for v in V])
    ctx.expect(P.shape == want.shape and np.allclose(P, want, atol=1e-9), sig + " positions")
    ctx.expect(np.array_equal(TS.as_polygons(out), P[np.asarray(out["triangles"])]), sig + " polygons")
    if not density or (nu and nv):
        cu, cv = (nu, nv) if nu and nv else ((nu or nv or 25),) * 2
        have = set((round(x / tol / 4), round(y / tol / 4)) for x, y in V)

        def at(x, y):
            a, b = round(x / tol / 4), round(y / tol / 4)
            return any((a + i, b + j) in have for i in (-1, 0, 1) for j in (-1, 0, 1))

        grid = [(u0 + (u1 - u0) * i / cu, v0 + (v1 - v0) * j / cv) for i in range(1, cu) for j in range(1, cv)]
        lines = []
        for trim in trims:
            pts = [tuple(trim.evaluate_curve(t)) for t in np.linspace(*trim.interval(), 200 if density else count)]
            lines += zip(pts, pts[1:])
        slack = (0.6 if density else 0.01) * min((u1 - u0) / cu, (v1 - v0) / cv)
        grid = [g for g in grid if not any(near(p, q, g, slack) for p, q in lines)]
        ctx.expect(all(at(*g) for g in grid), sig + " inner grid", lambda: f"{cu} x {cv}: {V}")
        side = [(u, v) for u in np.linspace(u0, u1, cu) for v in (v0, v1)] + [(u, v) for v in np.linspace(v0, v1, cv) for u in (u0, u1)]
        ctx.expect(all(at(*g) for g in side), sig + " sides", lambda: f"{cu} x {cv}: {V}")
    for key, trim in zip(keys, trims):
        a, b = trim.interval()
        if not density:
            line = [tuple(trim.evaluate_curve(t)) for t in np.linspace(a, b, count)]
            for p, q in zip(line, line[1:]):
                if not ctx.expect(covered(V, T, p, q, 4 * tol), sig + " trim not followed", lambda: f"{key} {p} {q}"):
                    break
        else:
            for t in (a, b):
                p = trim.evaluate_curve(t)
                ctx.expect(any(abs(p[0] - x) + abs(p[1] - y) < 4 * tol for x, y in V), sig + " trim end missing", lambda: f"{key} {p}")


def task_surface(ctx, which):
    surf = surfaces()[which]
    for nu, nv in COUNTS:
        for density in (False, True):
            for keys in [(), ("circle",), ("across",)]:
                sig = f"tess {which} {nu}x{nv}{' density' * density} {'+'.join(keys)}"
                ctx.state(sig)
                with ctx.at(sig):
                    surface_mesh(ctx, sig, surf, keys, nu, nv, density)


def task_trims(ctx, which, tier):
    surf = surfaces()[which]
    apart = {("circle", "small"), ("square", "small"), ("cw", "small"), ("across", "small"), ("bend", "small"), ("square", "across"),
             ("arrow", "across"), ("circle", "bend"), ("inner", "across"), ("circle", "square"), ("across", "bend"), ("thin", "small")}
    cases = [(k,) for k in TRIMS] + sorted(apart)
    for keys in cases:
        for nu, nv in ((3, 3), (5, 4)) if tier == "quick" else ((1, 1), (3, 3), (5, 4), (8, 8), (2, 9)):
            for count in (9, 17):
                for how in ("call", "nurbs") if len(keys) == 1 else ("call",):
                    for density in (False, True):
                        if density and "thin" in keys:
                            continue
                        sig = f"trims {which} {'+'.join(keys)} {nu}x{nv} {count} {how}{' density' * density}"
                        ctx.state(sig)
                        ctx.trace()
                        with ctx.at(sig):
                            surface_mesh(ctx, sig, surf, keys, nu, nv, density, how, count)


def task_inside(ctx, which, tier):
    """The part of a surface inside a closed trim."""
    surf = surfaces()[which]
    for key in ("circle", "small", "square", "cw", "arrow", "thin"):
        for nu, nv in ((1, 1), (4, 4), (7, 3)) if tier == "quick" else ((1, 1), (2, 2), (4, 4), (7, 3), (3, 11), (15, 15)):
            for count in (5, 9, 17):
                if key in ("circle", "small") and count == 5:
                    continue
                sig = f"inside {which} {key} {nu}x{nv} {count}"
                ctx.state(sig)
                with ctx.at(sig):
                    ctx.step()
                    trim = trim_on(surf, key)
                    out = TS.tessellate_curve_on_surface(trim, nu, nv, count)
                    V, T = floats(out["vertices"]), ints(out["triangles"])
                    line = [tuple(trim.evaluate_curve(t)) for t in np.linspace(*trim.interval(), count)]
                    loop = line[:-1]
                    if area2(loop) < 0:
                        loop = loop[::-1]
                    tol = 1e-9 * (1 + max(abs(x) for p in loop for x in p))
                    tiles(ctx, sig, V, T, list(zip(loop, loop[1:] + loop[:1])), area2(loop), 4 * tol)
                    P = np.asarray(out["position"])
                    want = np.array([surf.evaluate(np.array(v)) for v in V])
                    ctx.expect(P.shape == want.shape and np.allclose(P, want, atol=1e-9), sig + " positions")
                    (u0, u1), (v0, v1) = surf.interval()
                    for u in np.linspace(u0, u1, nu):
                        for v in np.linspace(v0, v1, nv):
                            if inside(loop, (u, v)) > 0 and not any(near(p, q, (u, v), 1e-6) for p, q in zip(loop, loop[1:] + loop[:1])):
                                ctx.expect(any(abs(u - x) + abs(v - y) < tol for x, y in V), sig + " inner grid", lambda: f"{u} {v}")


# ---------------------------------------------------------------- files
def task_files(ctx):
    import os
    import shutil
    import tempfile

    folder = tempfile.mkdtemp()
    try:
        for first, attrs, marks, note, tail, ext in itertools.product((0, 1), (0, 1, 2), (0, 1), ("", " # note", "# a 7 8"), ("\n", ""), (3, 6)):
            sig = f"file {first}{attrs}{marks} {note!r} {tail!r} {ext}"
            ctx.state(sig)
            ctx.step()
            ctx.trace()
            text = lambda rows: ("# top 1 2\n" if note else "") + "\n".join(" ".join(map(str, r)) + (note if i % 2 else "") for i, r in enumerate(rows)) + (note if note else "") + tail
            V = [(0.5 * i, i * i - 1.25) for i in range(5)]
            A = [[i + 0.25 * k for k in range(attrs)] for i in range(5)]
            M = [[i % 3] * marks for i in range(5)]
            T = [[0, 1, 2, 3, 4, 0][:ext], [2, 3, 4, 1, 0, 2][:ext]]
            TA = [[1.5 * k + i for k in range(attrs)] for i in range(2)]
            S = [(0, 1), (3, 4), (4, 0)]
            SM = [[7 - i] * marks for i in range(3)]
            H = [(0.5, 0.25), (1.5, -2.0)]
            R = [(0.1, 0.2, 3.0, 0.5), (0.6, 0.7, 4.0, -1.0)]
            N = [(1, -1, -1), (-1, 0, -1)]
            up = lambda r: [x + first for x in r]
            node = text([(5, 2, attrs, marks)] + [(first + i, *V[i], *A[i], *M[i]) for i in range(5)])
            ele = text([(2, ext, attrs)] + [(first + i, *up(T[i]), *TA[i]) for i in range(2)])
            rows = [(3, marks)] + [(first + i, *up(S[i]), *SM[i]) for i in range(3)] + [(2,)] + [(first + i, *H[i]) for i in range(2)]
            polys = {
                "own": text([(5, 2, attrs, marks)] + [(first + i, *V[i], *A[i], *M[i]) for i in range(5)] + rows),
                "node": text([(0, 2, 0, 0)] + rows),
                "regions": text([(0, 2, 0, 0)] + rows + [(2,)] + [(first + i, *R[i]) for i in range(2)]),
            }
            area = text([(2,), (first, 0.5), (first + 1, -1.0)])
            E = [(0, 1), (1, 2)]
            edge = text([(2, marks)] + [(first + i, *up(E[i]), *[5] * marks) for i in range(2)])
            vor = text([(3, 0), (first, *up((0, 1))), (first + 1, first + 1, -1, 0.5, -0.25), (first + 2, first, -1, 1.0, 2.0)])
            neigh = text([(2, 3)] + [(first + i, *[x + first if x >= 0 else -1 for x in N[i]]) for i in range(2)])

            def same(got, want, what):
                got = None if got is None else np.asarray(got)
                want = None if want is None else np.asarray(want)
                ok = (got is None) == (want is None) and (got is None or (got.shape == want.shape and np.array_equal(got, want)))
                ctx.expect(ok, f"{sig} {what}", lambda: f"{got} not {want}")

            for kind, poly in polys.items():
                with ctx.at(f"{sig} {kind}"):
                    d = loads(node=node, ele=ele, poly=poly, area=area, edge=edge, neigh=neigh)
                    same(d.get("vertices"), V, "vertices")
                    same(d.get("vertex_attributes"), A if attrs else None, "attributes")
                    same(d.get("vertex_markers"), M if marks else None, "markers")
                    same(d.get("triangles"), T, "triangles")
                    same(d.get("triangle_attributes"), TA if attrs else None, "triangle attributes")
                    same(d.get("segments"), S, "segments")
                    same(d.get("segment_markers"), SM if marks else None, "segment markers")
                    same(d.get("holes"), H, "holes")
                    same(d.get("regions"), R if kind == "regions" else None, "regions")
                    same(d.get("triangle_max_area"), [[0.5], [-1.0]], "areas")
                    same(d.get("edges"), E, "edges")
                    same(d.get("triangle_neighbors"), N, "neighbors")
            with ctx.at(sig + " rays"):
                d = loads(node=node, edge=vor)
                same(d.get("edges"), [(0, 1)], "voronoi edges")
                same(d.get("ray_origins"), [[1], [0]], "rays")
                same(d.get("ray_directions"), [(0.5, -0.25), (1.0, 2.0)], "ray directions")
            with ctx.at(sig + " folder"):
                for k, t in (("node", node), ("ele", ele), ("neigh", neigh)):
                    with open(os.path.join(folder, "m." + k), "w") as f:
                        f.write(t)
                d = load(folder, "m")
                same(d.get("vertices"), V, "vertices of a folder")
                same(d.get("triangles"), T, "triangles of a folder")
                same(d.get("triangle_neighbors"), N, "neighbors of a folder")
    finally:
        shutil.rmtree(folder)


def tasks(tier):
    quick = tier == "quick"
    out = []
    for place in PLACE:
        parts = 4 if quick else 8
        for part in range(parts):
            out.append((f"sets-{place}-{part}", task_sets, (place, range(3, 13) if quick else range(3, 13), 16 if quick else 1, part, parts)))
    for kind in ("line", "circle"):
        for k in range(4):
            out.append((f"tight-{kind}-{k}", task_tight, (k, kind, (-7, -4, -1, 0, 2, 6) if quick else range(-9, 10))))
    out.append(("refused", task_refused, ()))
    for k in (3, 4, 5, 6) if quick else (3, 4, 5, 6, 7):
        parts = {3: 1, 4: 1, 5: 3, 6: 4, 7: 8}[k]
        for part in range(parts):
            out.append((f"outlines-{k}-{part}", task_outlines, (k, part, parts)))
    out.append(("crossing-2", task_crossing, (2, 1, 0, 1)))
    for part in range(4):
        out.append((f"crossing-3-{part}", task_crossing, (3, 5 if quick else 1, part, 4)))
    for k in (3, 4, 5) if quick else (3, 4, 5, 6):
        for part in range(2):
            out.append((f"holes-{k}-{part}", task_holes, (k, part, 2)))
    out.append(("refine", task_refine, ()))
    for which in ("saddle", "nurbs", "bilinear"):
        out.append((f"surface-{which}", task_surface, (which,)))
        out.append((f"trims-{which}", task_trims, (which, tier)))
        out.append((f"inside-{which}", task_inside, (which, tier)))
    out.append(("files", task_files, ()))
    return out
