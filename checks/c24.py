"""C24: implicit shapes, their Boolean combinations, cell trees and outlines describe one region."""
import importlib
import bisect
import itertools
import math

import numpy as np

from mmcore.geom.circle import Circle2D
from mmcore.geom.implicit import dc as DC
from mmcore.geom.implicit import implicit as I
from mmcore.geom.implicit.tree import ImplicitTree2D, ImplicitTree3D
from mmcore.geom.implicit.tree import octree as O
from mmcore.geom.primitives import Cylinder, ImplicitCylinder, Sphere, Tube

T2 = importlib.import_module("mmcore.geom.implicit.tree.collapse2d")

PID = "C24"
ASSUMPTIONS = [
    "distances are compared to 1e-9; numerical gradients (steps of 1e-3) where one shape alone decides the combination within 5e-3 of the point",
    "the cells of a tree are classified by the signs at their corners; shapes smaller than a cell are not seen",
    "features of outlines are placed to 1e-2 of a cell: zeros on edges are bisected ten times",
]
BOUNDS = {
    "primitives": "spheres, cylinders (26 directions), tubes over grids of positions, radii and thicknesses x a lattice of points",
    "histories": "every sequence of at most 3 assignments of four origins, or starts and ends that differ in one or more coordinates, and radii",
    "combinations": "every expression of one or two operators over 4 shapes, in 2-D and 3-D, on a lattice",
    "trees": "depth 1 to 4 over 12 shapes in 2-D, 1 to 3 in 3-D; rebuilt at every other depth",
    "outlines": "every sign pattern on the 9 corners of 4 cells (512) and on the 14 corners of 3 cells and 4 quarters (4 x 16384, quick: an eighth); 2x2 grids refined on both sides of an edge; lines and rectangles over a grid",
    "octree": "boxes with sides 1, 2, 4 times the target in every combination and 3 positions",
}


def A(*v):
    return np.array(v, dtype=float)


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


LATTICE = [A(*p) for p in itertools.product((-2.5, -1.0, 0.25, 1.0, 2.0), repeat=3)]
DIRS = [d for d in itertools.product((-1, 0, 1), repeat=3) if any(d)]


# ---- primitives -------------------------------------------------------------------------------------------------------------

def check_sphere(ctx, sig, s, o, r, pts=LATTICE):
    o = A(*o)
    ctx.expect(close(s.bounds(), [o - r, o + r]), sig, f"bounds {np.asarray(s.bounds())}")
    ctx.expect(close(s.origin, o, 0) and s.radius == r and s.astuple() == (*o, r), sig, f"properties {s.astuple()}")
    for p in pts:
        n = np.linalg.norm(p - o)
        v = s.implicit(p)
        ctx.expect(abs(v - (n - r)) < 1e-9, sig, f"implicit at {p}: {v}, want {n - r}")
        if n:
            g = s.gradient(p)
            ctx.expect(close(g, (p - o) / n), sig, f"gradient at {p}: {g}")
        ctx.step()


def radial(p, a, d):
    d = d / np.linalg.norm(d)
    w = p - a
    return w - d * (w @ d)


def cyl_bounds(a, b, R):
    d = (b - a) / np.linalg.norm(b - a)
    e = R * np.sqrt(np.maximum(1 - d * d, 0))
    return [np.minimum(a, b) - e, np.maximum(a, b) + e]


def check_cylinder(ctx, sig, c, a, b, r, t=None, pts=LATTICE):
    a, b = A(*a), A(*b)
    ctx.expect(close(c.bounds(), cyl_bounds(a, b, r + (t or 0) / 2)), sig, f"bounds {np.asarray(c.bounds())}")
    ctx.expect(c.astuple() == (*a, *b, r) + ((t,) if t is not None else ()), sig, f"astuple {c.astuple()}")
    ctx.expect(close(c.start, a, 0) and close(c.end, b, 0) and close(c.direction, b - a, 0) and c.radius == r, sig, "properties")
    for p in pts:
        w = radial(p, a, b - a)
        n = np.linalg.norm(w)
        want = n - r if t is None else abs(n - r) - t / 2
        v = c.implicit(p)
        ctx.expect(abs(v - want) < 1e-9, sig, f"implicit at {p}: {v}, want {want}")
        if n > 0.05 and (t is None or abs(n - r) > 0.01):
            g = np.asarray(c.gradient(p))
            want = w / n if t is None else w / n * (1 if n > r else -1)
            ctx.expect(close(g, want, 1e-9 if t is None else 2e-4), sig, lambda: f"gradient at {p}: {g}, want {want}")
        ctx.step()


def t_sphere(ctx, o):
    for r in (0.5, 1.0, 2.0):
        sig = f"Sphere {o} {r}"
        ctx.state(sig)
        with ctx.at(sig):
            check_sphere(ctx, sig, Sphere(A(*o), r), o, r)


def t_cylinder(ctx, o, d):
    for k, r in itertools.product((0.75, 2.0), (0.5, 1.5)):
        b = tuple(x + k * y for x, y in zip(o, d))
        with ctx.at(f"cylinder {o} {b} {r}"):
            sig = f"ImplicitCylinder {o} {b} {r}"
            ctx.state(sig)
            check_cylinder(ctx, sig, ImplicitCylinder(A(*o), A(*b), r), o, b, r)
            for t in (0.25, 0.5):
                sig = f"Tube {o} {b} {r} {t}"
                ctx.state(sig)
                check_cylinder(ctx, sig, Tube(A(*o), A(*b), r, t), o, b, r, t)
            sig = f"Cylinder {o} {b} {r}"
            ctx.state(sig)
            c = Cylinder(A(*o), A(*b), r)
            a, e = A(*o), A(*b)
            L = float(np.linalg.norm(e - a))
            ax = (e - a) / L
            ctx.expect(close(c.bounds(), cyl_bounds(a, e, r)) and close(c.interval(), [[0, 2 * math.pi], [0, L]]), sig, "bounds, interval")
            uvs = [(u, v) for u in (0.0, 0.5, math.pi / 2, 3.0, 5.5, 2 * math.pi) for v in (0.0, 0.25 * L, 0.7 * L, L)]
            rads = []
            for u, v in uvs:
                p = c.evaluate(A(u, v))
                ctx.expect(abs((p - a) @ ax - v) < 1e-9 * (1 + L), sig, f"point {u, v} lies {(p - a) @ ax} along the axis")
                w = radial(p, a, ax) / r
                rads.append(w)
                ctx.expect(abs(c.implicit(p)) < 1e-9 and abs(np.linalg.norm(w) - 1) < 1e-9, sig, f"point {u, v} is {c.implicit(p)} off")
                lo, hi = np.asarray(c.bounds())
                ctx.expect(bool(np.all(p >= lo - 1e-9) and np.all(p <= hi + 1e-9)), sig, f"point {u, v} leaves the bounds")
                ctx.expect(close(c.gradient(p), w), sig, "gradient")
                dv = np.asarray(c.derivative_v(A(u, v)))
                du = np.asarray(c.derivative_u(A(u, v)))
                ctx.expect(close(dv, ax, 1e-6) and abs(np.linalg.norm(du) - r) < 1e-5 * (1 + r) and abs(du @ w) < 1e-2 * r, sig, f"derivatives at {u, v}: {du} {dv}")
                pl = np.asarray(c.plane_at(A(u, v)))
                ctx.expect(close(pl[0], p) and close(pl[1:] @ pl[1:].T, np.eye(3), 1e-9) and abs(abs(pl[3] @ w) - 1) < 1e-4, sig, f"plane at {u, v}")
                ctx.step()
            # the angle between two points of one circle is the difference of their parameters, in one sense
            side = np.cross(rads[0], rads[8]) @ ax
            for (u, v), w in zip(uvs, rads):
                ctx.expect(abs(w @ rads[0] - math.cos(u)) < 1e-9 and abs(np.cross(rads[0], w) @ ax - math.copysign(1, side) * math.sin(u)) < 1e-9, sig,
                           f"the angle at {u, v}")
            ctx.expect(close(c.evaluate_multi(np.array(uvs)), [c.evaluate(A(*uv)) for uv in uvs], 0), sig, "many points")
            for p in LATTICE[::7]:
                ctx.expect(abs(c.implicit(p) - (np.linalg.norm(radial(p, a, ax)) - r)) < 1e-9, sig, f"implicit at {p}")


def t_history(ctx, kind):
    sets = {"sphere": [("origin", (0.0, 1.0, 2.0)), ("origin", (-1.0, 0.5, 0.0)), ("origin", (-1.0, 0.5, 1.0)), ("origin", (0.0, 0.5, 0.0)), ("radius", 0.5), ("radius", 3.0)]}.get(
        kind, [("start", (0.0, 1.0, 2.0)), ("start", (-1.0, 0.5, 0.0)), ("start", (1.0, 1.0, -2.0)), ("start", (0.0, 1.0, 1.0)),
               ("end", (4.0, 1.0, -1.0)), ("end", (0.0, -3.0, 1.0)), ("end", (4.0, 3.0, -1.0)), ("radius", 0.5), ("radius", 3.0)])
    probes = LATTICE[::23]
    for n in (0, 1, 2, 3):
        for hist in itertools.product(sets, repeat=n):
            sig = f"{kind} {list(hist)}"
            ctx.state(sig)
            st = {"origin": (1.0, 1.0, 1.0), "start": (1.0, 1.0, 1.0), "end": (2.0, 3.0, 4.0), "radius": 1.0}
            with ctx.at(sig):
                if kind == "sphere":
                    s = Sphere(A(*st["origin"]), 1.0)
                elif kind == "tube":
                    s = Tube(A(*st["start"]), A(*st["end"]), 1.0, 0.5)
                else:
                    s = ImplicitCylinder(A(*st["start"]), A(*st["end"]), 1.0)
                for name, v in hist:
                    setattr(s, name, A(*v) if isinstance(v, tuple) else v)
                    st[name] = v
                if kind == "sphere":
                    check_sphere(ctx, sig, s, st["origin"], st["radius"], probes)
                else:
                    check_cylinder(ctx, sig, s, st["start"], st["end"], st["radius"], 0.5 if kind == "tube" else None, probes)
            ctx.trace()


# ---- Boolean combinations ---------------------------------------------------------------------------------------------------

CIRCLES = [((0.0, 0.0), 1.5), ((1.0, 0.5), 1.0), ((-1.0, 0.0), 1.25), ((0.5, -1.0), 0.75)]
SPHERES = [((0.0, 0.0, 0.0), 1.5), ((1.0, 0.5, 0.0), 1.0), ((-1.0, 0.0, 0.5), 1.25), ((0.5, -1.0, 0.0), 0.75)]
PTS2 = [A(x, y) for x in np.arange(-2.75, 3, 0.5) for y in np.arange(-2.75, 3, 0.5)]
PTS3 = [A(*p) for p in itertools.product((-2.125, -1.25, -0.5, 0.125, 0.75, 1.375, 2.25), repeat=3)]


class Disc(I.Implicit2D):
    def __init__(self, o, r):
        super().__init__()
        self.o, self.r = o, r

    def implicit(self, v):
        return math.hypot(v[0] - self.o[0], v[1] - self.o[1]) - self.r

    def bounds(self):
        return tuple(self.o - self.r), tuple(self.o + self.r)


def leaf(dim, i):
    """(shape, function giving (value, index of the deciding leaf, sign) margins)"""
    if dim == 2:
        o, r = CIRCLES[i]
        s = (Circle2D if i % 2 == 0 else Disc)(A(*o), r)
    else:
        o, r = SPHERES[i]
        s = Sphere(A(*o), r)
    o = A(*o)
    return s, lambda p: np.linalg.norm(p - o) - r, (o - r, o + r)


OPS = {
    "+": (lambda a, b: min(a, b), lambda s, t: s + t, lambda x, y: (np.minimum(x[0], y[0]), np.maximum(x[1], y[1]))),
    "&": (lambda a, b: max(a, b), lambda s, t: s & t, lambda x, y: (np.maximum(x[0], y[0]), np.minimum(x[1], y[1]))),
    "-": (lambda a, b: max(a, -b), lambda s, t: s - t, lambda x, y: x),
}
NAMES = {"+": ["union", "__add__", "Union"], "&": ["intersection", "__and__", "Intersection"], "-": ["substraction", "__sub__", "Sub"]}


def combine(dim, op, s, t, how):
    name = NAMES[op][how % 3]
    # (a Circle2D is a curve as well, and as a curve it has its own + and -)
    if how % 3 == 2 or not hasattr(s, name) or (isinstance(s, Circle2D) and how % 3 == 1):
        return getattr(I, NAMES[op][2] + f"{dim}D")(s, t)
    return getattr(s, name)(t)


def bounds_of(s):
    return [list(map(float, q)) for q in s.bounds()]


def check_shape(ctx, sig, s, f, box, pts, dim, margin):
    ctx.expect(close(bounds_of(s), box), sig, f"bounds {s.bounds()}, want {box}")
    lo, hi = np.asarray(box[0]), np.asarray(box[1])
    vals = []
    for p in pts:
        want = f(p)
        v = float(s.implicit(p))
        vals.append(want)
        ctx.expect(abs(v - want) < 1e-9, sig, lambda: f"implicit at {p}: {v}, want {want}")
        if want < 0:
            ctx.expect(bool(np.all(p >= lo) and np.all(p <= hi)), sig, f"{p} is inside and not in the bounds")
        if dim == 2:
            ctx.expect(s.point_inside(p) == (want <= 1e-8), sig, f"point_inside {p}")
        m, g = margin(p)
        if m:
            got = np.asarray(s.gradient(p))
            n = np.linalg.norm(got)
            ctx.expect(n > 0 and close(got / n, g, 1e-3), sig, lambda: f"gradient at {p}: {got}, want along {g}")
            if dim == 2 and not isinstance(s, Circle2D):
                t = np.asarray(s.tangent(p))
                ctx.expect(close(t, [-got[1], got[0]]), sig, f"tangent at {p}")
        ctx.step()
    if hasattr(s, "vimplicit") and not isinstance(s, Circle2D):
        ctx.expect(close(s(np.array(pts)), vals) and abs(float(s(pts[0])) - vals[0]) < 1e-9, sig, "many points at a time")


def margin_of(dim, parts, f):
    """the gradient where one leaf alone decides: parts are (function, centre, sign)"""
    def m(p):
        v = f(p)
        vs = [(abs(sg * q(p) - v), sg, o, q) for q, o, sg in parts]
        near = [x for x in vs if x[0] < 1e-12]
        rest = [abs(q(p) - v) for q, o, sg in parts] + [abs(-q(p) - v) for q, o, sg in parts]
        if len(near) != 1 or sorted(rest)[1] < 5e-3 or np.linalg.norm(p - near[0][2]) < 0.05:
            return False, None
        _, sg, o, _ = near[0]
        d = p - o
        return True, sg * d / np.linalg.norm(d)
    return m


def t_single(ctx, dim):
    pts = PTS2 if dim == 2 else PTS3
    for op1 in OPS:
        for i, j in itertools.permutations(range(4), 2):
            for how in range(3):
                sig = f"{dim}D {i} {op1} {j} ({how})"
                ctx.state(sig)
                with ctx.at(sig):
                    (s, f, bs), (t, g, bt) = leaf(dim, i), leaf(dim, j)
                    u = combine(dim, op1, s, t, how)
                    fn = OPS[op1][0]
                    h = lambda p: fn(f(p), g(p))
                    cs = [A(*(CIRCLES if dim == 2 else SPHERES)[k][0]) for k in (i, j)]
                    parts = [(f, cs[0], 1), (g, cs[1], -1 if op1 == "-" else 1)]
                    check_shape(ctx, sig, u, h, OPS[op1][2](bs, bt), pts if how == 0 else pts[::5], dim, margin_of(dim, parts, h))
                    if op1 == "+" and how == 0 and dim == 2:
                        for p in pts[::3]:
                            m, _ = margin_of(dim, parts, h)(p)
                            if h(p) > 0.05 and m:
                                q = u.point_on_curve(p)
                                ctx.expect(abs(h(q)) < 1e-5 * (1 + h(p)), sig, f"point_on_curve {p}: {q} is {h(q)} away")
    if dim == 2:
        for i in range(4):
            s, f, b = leaf(2, i)
            sig = f"circle {i}"
            with ctx.at(sig):
                check_shape(ctx, sig, s, f, b, pts, 2, margin_of(2, [(f, A(*CIRCLES[i][0]), 1)], f))


def t_double(ctx, dim, op1, op2):
    pts = (PTS2[::3] if dim == 2 else PTS3[::7])
    for i, j, k in itertools.permutations(range(4), 3):
        for left in (True, False):
            sig = f"{dim}D " + (f"({i} {op1} {j}) {op2} {k}" if left else f"{i} {op1} ({j} {op2} {k})")
            ctx.state(sig)
            with ctx.at(sig):
                (s, f, bs), (t, g, bt), (r, h, br) = leaf(dim, i), leaf(dim, j), leaf(dim, k)
                f1, b1 = OPS[op1][0], OPS[op1][2]
                f2, b2 = OPS[op2][0], OPS[op2][2]
                if left:
                    u = combine(dim, op2, combine(dim, op1, s, t, i + j), r, k)
                    fn, box = (lambda p: f2(f1(f(p), g(p)), h(p))), b2(b1(bs, bt), br)
                else:
                    u = combine(dim, op1, s, combine(dim, op2, t, r, i + j), k)
                    fn, box = (lambda p: f1(f(p), f2(g(p), h(p)))), b1(bs, b2(bt, br))
                check_shape(ctx, sig, u, fn, box, pts, dim, lambda p: (False, None))


# ---- trees ------------------------------------------------------------------------------------------------------------------

def half(dim, n, c):
    n = A(*n)[:dim]
    return lambda p: float(np.dot(np.asarray(p), n) - c)


def shapes(dim):
    out = []
    for i in range(4):
        s, f, b = leaf(dim, i)
        out.append((f"leaf {i}", s, f, None))
    (s, f, bs), (t, g, bt) = leaf(dim, 0), leaf(dim, 1)
    for op in OPS:
        h = OPS[op][0]
        out.append((f"0 {op} 1", combine(dim, op, s, t, 2), (lambda p, h=h: h(f(p), g(p))), None))
        out.append((f"0 {op} 1 in a box", combine(dim, op, s, t, 2), (lambda p, h=h: h(f(p), g(p))), ((-1.0,) * dim, (2.0, 3.0, 2.5)[:dim])))
    out.append(("half", half(dim, (1, 2, -1), 0.3), half(dim, (1, 2, -1), 0.3), ((0.0,) * dim, (1.0,) * dim)))
    out.append(("nothing", lambda p: 1.0, lambda p: 1.0, ((0.0,) * dim, (1.0, 2.0, 3.0)[:dim])))
    out.append(("everything", lambda p: -1.0, lambda p: -1.0, ((0.0,) * dim, (1.0, 2.0, 3.0)[:dim])))
    return out


def expected_tree(f, lo, hi, depth):
    """sets of cells by brute force, from the finest level up"""
    dim = len(lo)
    n = 2 ** depth
    vals = {}
    for ix in itertools.product(range(n + 1), repeat=dim):
        vals[ix] = f(tuple(lo[k] + (hi[k] - lo[k]) * ix[k] / n for k in range(dim))) < 0
    kinds = {}
    for ix in itertools.product(range(n), repeat=dim):
        c = [vals[tuple(a + b for a, b in zip(ix, d))] for d in itertools.product((0, 1), repeat=dim)]
        kinds[ix] = "full" if all(c) else "border" if any(c) else "empty"
    out = {"full": set(), "empty": set(), "border": set()}

    def walk(ix, size):
        if size > 1:
            sub = {kinds[tuple(a + b for a, b in zip(ix, d))] for d in itertools.product(range(size), repeat=dim)}
            if len(sub) == 1 and "border" not in sub:
                out[sub.pop()].add((ix, size))
                return
            for d in itertools.product((0, size // 2), repeat=dim):
                walk(tuple(a + b for a, b in zip(ix, d)), size // 2)
        else:
            out[kinds[ix]].add((ix, 1))
    walk((0,) * dim, n)
    return out


def cells(quads, lo, hi, depth):
    n = 2 ** depth
    out = []
    for a, b in quads:
        ix = tuple((x - l) / (h - l) * n for x, l, h in zip(a, lo, hi))
        jx = tuple((x - l) / (h - l) * n for x, l, h in zip(b, lo, hi))
        r = tuple(round(x) for x in ix)
        size = round(jx[0] - ix[0])
        if max(abs(x - y) for x, y in zip(ix, r)) > 1e-9 or max(abs(y - x - size) for x, y in zip(ix, jx)) > 1e-9:
            out.append(("crooked", a, b))
        else:
            out.append((r, size))
    return out


def t_tree(ctx, dim, k):
    name, s, f, box = shapes(dim)[k]
    depths = (1, 2, 3, 4) if dim == 2 else (1, 2, 3)
    cls = ImplicitTree2D if dim == 2 else ImplicitTree3D
    shp = I.Implicit2D if dim == 2 else I.Implicit3D
    for d in depths:
        ways = [("tree", lambda: cls(s, d, bounds=box))]
        if box is None:
            ways.append(("default", lambda: cls(s, depth=d)))
        lo, hi = box if box is not None else bounds_of(s)
        want = expected_tree(f, lo, hi, d)
        for way, make in ways:
            sig = f"{dim}D tree of {name} depth {d} ({way})"
            ctx.state(sig)
            with ctx.at(sig):
                t = make()
                t.build()
                for again in [None] + [x for x in depths if x != d]:
                    if again is not None:
                        t.build(depth=again)
                        t.build(depth=d)
                        ctx.trace()
                    for kind in ("full", "empty", "border"):
                        got = cells(getattr(t, kind), lo, hi, d)
                        ctx.expect(len(got) == len(set(got)) and set(got) == want[kind], sig,
                                   lambda: f"{kind}: {sorted(set(got) ^ want[kind], key=str)[:4]} differ, {len(got)} cells of {len(want[kind])}")
                    ctx.step()
        if isinstance(s, shp) and not isinstance(s, Circle2D):
            sig = f"{dim}D {name}.build_tree {d}"
            with ctx.at(sig):
                if box is None:
                    s.build_tree(depth=d)
                    for kind in ("full", "empty", "border"):
                        ctx.expect(set(cells(getattr(s.tree, kind), lo, hi, d)) == want[kind], sig, kind)
    if isinstance(s, shp) and not isinstance(s, Circle2D) and box is None:
        sig = f"{dim}D {name}.tree"
        with ctx.at(sig):
            fresh = shapes(dim)[k][1]
            t = fresh.tree
            ctx.expect(t is not None and fresh.tree is t and t.depth == 3 and len(t.border) + len(t.full) + len(t.empty) > 0, sig, "the tree of a shape")


# ---- outlines ---------------------------------------------------------------------------------------------------------------

def pl_shape(vals):
    """piecewise linear between given corner values along cell edges: bilinear in each smallest cell; vals: {(x, y): value}"""
    xs = sorted({x for x, _ in vals})
    ys = sorted({y for _, y in vals})
    full = dict(vals)
    for x in xs:
        for y in ys:
            if (x, y) not in vals:
                # a corner of the finer side only: the mean over the coarse cell
                x0, x1, y0, y1 = math.floor(x), math.ceil(x), math.floor(y), math.ceil(y)
                full[x, y] = (vals[x0, y0] + vals[x1, y0] + vals[x0, y1] + vals[x1, y1]) / 4
    nx, ny = len(xs) - 2, len(ys) - 2

    def f(p):
        x, y = p
        v = full.get((x, y))
        if v is not None:
            return v
        i = min(max(bisect.bisect_right(xs, x) - 1, 0), nx)
        j = min(max(bisect.bisect_right(ys, y) - 1, 0), ny)
        x0, x1, y0, y1 = xs[i], xs[i + 1], ys[j], ys[j + 1]
        a, b = (x - x0) / (x1 - x0), (y - y0) / (y1 - y0)
        return (full[x0, y0] * (1 - a) + full[x1, y0] * a) * (1 - b) + (full[x0, y1] * (1 - a) + full[x1, y1] * a) * b
    return f


def leaves(t):
    if isinstance(t, T2.Leaf):
        return [t.data]
    if isinstance(t, T2.Root):
        return sum((leaves(c) for c in (t.a, t.b, t.c, t.d)), [])
    return []


def expected_edges(f, cs):
    """every pair of leaf cells sharing a piece of border whose ends have different signs"""
    out = []
    for (a, b), (c, d) in itertools.permutations(cs, 2):
        if b[0] == c[0]:  # first left of second
            y0, y1 = max(a[1], c[1]), min(b[1], d[1])
            if y0 < y1 and (f((b[0], y0)) < 0) != (f((b[0], y1)) < 0):
                out.append(((a, b), (c, d)))
        if b[1] == c[1]:
            x0, x1 = max(a[0], c[0]), min(b[0], d[0])
            if x0 < x1 and (f((x0, b[1])) < 0) != (f((x1, b[1])) < 0):
                out.append(((a, b), (c, d)))
    return out


def key(p):
    return None if p is None else (round(p[0], 9), round(p[1], 9))


def check_outline(ctx, sig, f, tree):
    t = T2.collapse2d(f, tree)
    cs = leaves(t)
    feats = {c: DC.feature(f, c) for c in cs}
    for c, p in feats.items():
        ctx.expect(p is not None and all(map(math.isfinite, p)), sig, f"no feature in {c}")
    want = sorted((key(feats[a]), key(feats[b])) for a, b in expected_edges(f, cs))
    got = sorted((key(a), key(b)) for a, b in DC.dc(f, t))
    ctx.expect(got == want, sig, lambda: f"edges {got}, want {want}")
    return t


def leafq(a, b):
    return T2.Leaf((a, b))


def grid2():
    return [leafq((x, y), (x + 1, y + 1)) for y in (0, 1) for x in (0, 1)]


def fine(x, y):
    return T2.build_tree2d((x, y), (x + 1, y + 1), 1)


def t_outline(ctx):
    for bits in itertools.product((-1.0, 1.0), repeat=9):
        vals = {(x, y): bits[3 * y + x] for x in range(3) for y in range(3)}
        sig = f"corners {bits}"
        ctx.state(sig)
        f = pl_shape(vals)
        with ctx.at(sig):
            check_outline(ctx, sig, f, T2.Root(*grid2()))
        ctx.step()


def t_outline_fine(ctx, q, part):
    """one quadrant refined: 9 corners and 5 more"""
    qx, qy = q % 2, q // 2
    extra = [(qx + 0.5, qy), (qx, qy + 0.5), (qx + 0.5, qy + 0.5), (qx + 1, qy + 0.5), (qx + 0.5, qy + 1)]
    for bits in itertools.product((-1.0, 1.0), repeat=10):
        vals = {(x, y): b for (x, y), b in zip(itertools.product(range(3), repeat=2), part + bits[:5])}
        vals.update(zip(extra, bits[5:]))
        sig = f"corners {part + bits} quadrant {q}"
        ctx.state(sig)
        f = pl_shape(vals)
        with ctx.at(sig):
            kids = grid2()
            kids[q] = fine(qx, qy)
            check_outline(ctx, sig, f, T2.Root(*kids))
        ctx.step()


def t_outline_pair(ctx, a, b, first):
    """two neighbouring quadrants refined: 12 distinct patterns along their common border and its neighbours"""
    qs = [(a % 2, a // 2), (b % 2, b // 2)]
    pts = sorted({(x + dx, y + dy) for x, y in qs for dx in (0, 0.5, 1) for dy in (0, 0.5, 1)})
    shared = [p for p in pts if all(q[0] <= p[0] <= q[0] + 1 and q[1] <= p[1] <= q[1] + 1 for q in qs)]
    mids = [p for p in pts if p not in shared and (p[0] % 1 or p[1] % 1)]
    free = shared + mids
    for bits in itertools.product((-1.0, 1.0), repeat=len(free) - 2):
        bits = first + bits
        vals = {(x, y): 1.0 for x in range(3) for y in range(3)}
        vals.update(zip(free, bits))
        sig = f"refined {a} {b}: {bits}"
        ctx.state(sig)
        f = pl_shape(vals)
        with ctx.at(sig):
            kids = grid2()
            kids[a], kids[b] = fine(*qs[0]), fine(*qs[1])
            check_outline(ctx, sig, f, T2.Root(*kids))
        ctx.step()


def t_cell(ctx):
    """the 16 patterns of a cell: contour segments join zeros of the sides, with the inside on their left"""
    S = T2.Side
    for vals in itertools.product((-2.0, -1.0, 0.0, 1.0, 3.0), repeat=4):
        cell = ((1.0, 2.0), (3.0, 3.0))
        corners = {(1.0, 2.0): vals[0], (3.0, 2.0): vals[1], (1.0, 3.0): vals[2], (3.0, 3.0): vals[3]}

        def f(p):
            a, b = (p[0] - 1) / 2, p[1] - 2
            return (vals[0] * (1 - a) + vals[1] * a) * (1 - b) + (vals[2] * (1 - a) + vals[3] * a) * b
        sig = f"cell {vals}"
        ctx.state(sig)
        with ctx.at(sig):
            sides = {S.Lower: ((1.0, 2.0), (3.0, 2.0)), S.Upper: ((1.0, 3.0), (3.0, 3.0)), S.Left: ((1.0, 2.0), (1.0, 3.0)), S.Right: ((3.0, 2.0), (3.0, 3.0))}
            roots = {}
            for s, (a, b) in sides.items():
                va, vb = corners[a], corners[b]
                if (va < 0) != (vb < 0):
                    k = va / (va - vb)
                    roots[s] = (a[0] + k * (b[0] - a[0]), a[1] + k * (b[1] - a[1]))
                    z = DC.zero(f, a, b)
                    ctx.expect(math.dist(z, roots[s]) < 2 * 2 ** -10 * math.dist(a, b), sig, f"zero between {a} and {b}: {z}, it is {roots[s]}")
                    ctx.expect(close(DC.pt(f, cell, s), z, 2 ** -9), sig, f"pt {s}")
            e = DC.edges(f, cell)
            ends = [x for seg in e for x in seg]
            ctx.expect(sorted(map(str, ends)) == sorted(map(str, roots)), sig, f"segments {e}, zeros on {list(roots)}")
            inside = [p for p, v in corners.items() if v < 0]
            ctx.expect(DC.index(f, cell) == sum(8 >> i for i, v in enumerate(vals) if v < 0), sig, "index")
            segs = DC.contours(f, cell)
            for (s1, s2), (p, q) in zip(e, segs):
                ctx.expect(math.dist(p, roots[s1]) < 0.01 and math.dist(q, roots[s2]) < 0.01, sig, "contour ends")
                # corners left of the segment on the border of the cell between its ends: the side's left corner is inside
                a, b = sides[s1]
                ina = a if corners[a] < 0 else b
                cr = (q[0] - p[0]) * (ina[1] - p[1]) - (q[1] - p[1]) * (ina[0] - p[0])
                ctx.expect(cr > (0 if all(vals) else -0.02), sig, f"the inside is not left of {s1} -> {s2}")
            fe = DC.feature(f, cell)
            ctx.expect((fe is None) == (not e), sig, f"feature {fe}")
            for p in [(1.0, 2.0), (1.5, 2.25), (3.0, 2.5)]:
                ctx.expect(abs(DC.interpolate(f, cell, p) - f(p)) < 1e-9 and DC.score(f, cell, p) < 1e-9, sig, f"interpolate {p}")
                g = lambda p: f(p) + p[0] ** 2
                w = abs(DC.interpolate(g, cell, p) - g(p))
                ctx.expect(abs(w - abs(1 + 4 * (p[0] - 1) - p[0] ** 2)) < 1e-9 and abs(DC.score(g, cell, p) - w) < 1e-12, sig, f"score {p}")
        ctx.step()


def t_features(ctx, i):
    """lines and the corners of rectangles are found where they are"""
    n = 8
    angles = [k * math.pi / 8 + 0.1 for k in range(16)]
    a = angles[i]
    for c in (-0.9, -0.3, 0.2, 0.75):
        nx, ny = math.cos(a), math.sin(a)
        f = lambda p: nx * p[0] + ny * p[1] - c
        sig = f"line {a} {c}"
        ctx.state(sig)
        with ctx.at(sig):
            t = check_outline(ctx, sig, f, T2.build_tree2d((-1.0, -1.0), (1.0, 1.0), 3))
            for cell in leaves(t):
                fe = DC.feature(f, cell)
                ctx.expect(abs(f(fe)) < 0.0025 and all(x - 0.05 <= z <= y + 0.05 for z, x, y in zip(fe, *cell)), sig, f"feature {fe} of {cell}")
                d = DC.deriv(f, fe)
                ctx.expect(close(d, (nx, ny), 1e-6), sig, "deriv")
            # cells in which the shape is linear merge into one
            for depth in (1, 2, 3):
                m = DC.merge(f, T2.build_tree2d((-1.0, -1.0), (1.0, 1.0), depth))
                ctx.expect(isinstance(m, T2.Leaf) and m.data == ((-1.0, -1.0), (1.0, 1.0)), sig, "merge of a line")
            g = lambda p: f(p) + (3 * p[0] ** 2 if p[0] > 0 else 0)
            m = DC.merge(g, T2.build_tree2d((-1.0, -1.0), (1.0, 1.0), 2))
            got = sorted(leaves(m))
            want = sorted([((-1.0, y), (0.0, y + 1)) for y in (-1.0, 0.0)] + [((x, y), (x + 0.5, y + 0.5)) for x in (0.0, 0.5) for y in (-1.0, -0.5, 0.0, 0.5)])
            ctx.expect(got == want, sig, f"merge: {got}")
        ctx.step()
    x0, y0 = -0.9 + i * 0.05, -0.55 + (i % 4) * 0.11
    for w, h in ((0.77, 0.66), (1.02, 0.52), (0.6, 1.21)):
        x1, y1 = x0 + w, y0 + h
        sig = f"rectangle {x0, y0} {x1, y1}"
        ctx.state(sig)
        with ctx.at(sig):
            f = DC.rectangle((x0, y0), (x1, y1))
            for p in itertools.product(np.arange(-1.05, 1.3, 0.15), repeat=2):
                ctx.expect((f(p) < 0) == (x0 < p[0] < x1 and y0 < p[1] < y1), sig, f"{p}")
            t = check_outline(ctx, sig, f, T2.build_tree2d((-1.0, -1.0), (1.0, 1.0), 4))
            cs = leaves(t)
            for corner in itertools.product((x0, x1), (y0, y1)):
                for cell in cs:
                    if all(a + 0.02 < z < b - 0.02 for z, a, b in zip(corner, *cell)):
                        fe = DC.feature(f, cell)
                        ctx.expect(math.dist(fe, corner) < 0.004, sig, f"the corner {corner} is found at {fe}")
        ctx.step()


def t_sdf(ctx):
    c1, c2 = ((0.35, 0.4), 0.3), ((0.6, 0.5), 0.25)
    d = lambda c, p: math.dist(c[0], p) - c[1]
    a, b = DC.circle(*c1), DC.circle(*c2)
    pts = [(x / 8 - 0.1, y / 8) for x in range(10) for y in range(10)]
    arr = np.array(pts).T
    with ctx.at("sdf"):
        ctx.expect(close(a(arr), [d(c1, p) for p in pts]), "circle", "array of points")
        ctx.expect(close(a(arr.reshape(2, 10, 10)), np.reshape([d(c1, p) for p in pts], (10, 10))), "circle", "grid of points")
    for p in pts:
        sig = f"sdf at {p}"
        ctx.state(sig)
        with ctx.at(sig):
            A_, B = d(c1, p), d(c2, p)
            got = [a(p), DC.union(a, b)(p), DC.intersection(a, b)(p), DC.substract(a, b)(p), DC.inv(a)(p), DC.left(0.3)(p), DC.right(0.3)(p), DC.lower(0.4)(p), DC.upper(0.4)(p),
                   DC.opXor(A_, B)]
            want = [A_, min(A_, B), max(A_, B), max(A_, -B), -A_, p[0] - 0.3, 0.3 - p[0], p[1] - 0.4, 0.4 - p[1], max(min(A_, B), -max(A_, B))]
            ctx.expect(close(got, want, 1e-12), sig, f"{got}, want {want}")
        ctx.step()
    for depth in (0, 1, 2, 3):
        sig = f"fold {depth}"
        with ctx.at(sig):
            t = T2.collapse2d(DC.union(a, b), T2.build_tree2d((0.0, 0.0), (1.0, 2.0), depth))
            area = lambda q: (q[1][0] - q[0][0]) * (q[1][1] - q[0][1])
            zero = lambda q: 0.0
            parts = [DC.foldTree(t, ((0.0, 0.0), (1.0, 2.0)), zero, *(area if k == m else zero for k in range(3))) for m in range(3)]
            ctx.expect(abs(sum(parts) - 2.0) < 1e-12, sig, f"areas {parts}")
            want = expected_tree(DC.union(a, b), (0.0, 0.0), (1.0, 2.0), depth)
            for x, kind in zip(parts, ("empty", "full", "border")):
                ctx.expect(abs(x - sum(2.0 * s * s / 4 ** depth for _, s in want[kind])) < 1e-12, sig, f"area of {kind}")


# ---- octree -----------------------------------------------------------------------------------------------------------------

def t_octree(ctx, o):
    target = (1.0, 0.5, 0.75)
    for m in itertools.product((1, 2, 4), repeat=3):
        lo = list(o)
        hi = [a + k * t for a, k, t in zip(o, m, target)]
        sig = f"octree {lo} {hi}"
        ctx.state(sig)
        with ctx.at(sig):
            root = O.OCNode([lo, hi])
            O.create_octree(root, target)
            ls, stack = [], [root]
            while stack:
                nd = stack.pop()
                stack += nd.child
                if not nd.child:
                    ls.append(nd)
                for ch in nd.child:
                    ctx.expect(ch.parent is nd and ch.in_bbox((nd.min, nd.max)) and nd.contains_bbox((ch.min, ch.max)) and (ch.min, ch.max) in nd, sig, "children")
                    ctx.expect(close(ch.center, (np.array(ch.min) + ch.max) / 2), sig, "center")
            want = sorted(tuple(round((a + i * t) * 64) for a, i, t in zip(o, ix, target)) for ix in itertools.product(*(range(k) for k in m)))
            got = sorted(tuple(round(x * 64) for x in nd.min) for nd in ls)
            ctx.expect(got == want and all(close(np.subtract(nd.max, nd.min), target) for nd in ls), sig, lambda: f"leaves {got[:6]}, want {want[:6]}")
            for f in itertools.product((-0.1, 0.05, 0.45, 0.8, 1.1), repeat=3):
                p = tuple(a + k * (b - a) for a, b, k in zip(lo, hi, f))
                nd = O.closest_node(root, p)
                if min(f) < 0 or max(f) > 1:
                    ctx.expect(nd is None and not root.contains_point(p), sig, f"{p} is outside, {nd}")
                else:
                    ctx.expect(nd is not None and not nd.child and all(x <= z <= y for x, z, y in zip(nd.min, p, nd.max)), sig, f"{p} is not in {nd}")
                box = [list(p), [z + 0.3 for z in p]]
                ctx.expect(root.overlap(box) == all(q <= b and a <= q + 0.3 for a, b, q in zip(lo, hi, p)), sig, f"overlap with {box}")
                ctx.expect(root.contains_bbox(box) == all(a <= q and q + 0.3 <= b for a, b, q in zip(lo, hi, p)), sig, f"contains {box}")
        ctx.step()


def tasks(tier):
    full = tier == "thorough"
    out = [(f"sphere/{o}", t_sphere, (o,)) for o in itertools.product((0.0, -1.0, 0.5), repeat=3)]
    out += [(f"cylinder/{o}/{d}", t_cylinder, (o, d)) for o in ((0.0, 0.0, 0.0), (1.0, -0.5, 0.25)) for d in DIRS + [(1, 2, -3), (0.5, 0, 2)]]
    out += [(f"history/{k}", t_history, (k,)) for k in ("sphere", "cylinder", "tube")]
    out += [(f"single/{d}", t_single, (d,)) for d in (2, 3)]
    out += [(f"double/{d}{a}{b}", t_double, (d, a, b)) for d in (2, 3) for a in OPS for b in OPS]
    out += [(f"tree/{d}/{k}", t_tree, (d, k)) for d in (2, 3) for k in range(len(shapes(d)))]
    out += [("outline/plain", t_outline, ()), ("outline/cell", t_cell, ()), ("outline/sdf", t_sdf, ())]
    parts = list(itertools.product((-1.0, 1.0), repeat=4))
    for q in range(4):
        for k, p in enumerate(parts):
            if full or k % 8 == q:
                out.append((f"outline/fine{q}/{k}", t_outline_fine, (q, p)))
    out += [(f"outline/pair{a}{b}/{k}", t_outline_pair, (a, b, k)) for a, b in ((0, 1), (2, 3), (0, 2), (1, 3))
            for k in itertools.product((-1.0, 1.0), repeat=2)]
    out += [(f"features/{i}", t_features, (i,)) for i in range(16)]
    out += [(f"octree/{o}", t_octree, (o,)) for o in ((0.0, 0.0, 0.0), (-1.0, 2.0, 0.5), (-4.0, -2.0, -3.0))]
    return out
