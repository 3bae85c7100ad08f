"""C31: sorting, vector helpers, grids, bisection, antiderivatives, lengths and areas."""
import contextlib
import io
import itertools
import math

import numpy as np

from mmcore.geom import features as FE
from mmcore.geom import vec as V
from mmcore.geom.surfaces import BiLinear, Ruled
from mmcore.geom.nurbs import NURBSCurve, NURBSSurface
from mmcore.geom.vec import svm
from mmcore.numeric import arc_length as AL
from mmcore.numeric import bisection as BI
from mmcore.numeric import prime as PR
from mmcore.numeric import routines as R
from mmcore.numeric.fdm import FDM
from mmcore.numeric.algorithms.quicksort import argsort, quicksort, unique
from mmcore.numeric.algorithms.surface_area import surface_rect_area

PID = "C31"
ASSUMPTIONS = [
    "numbers are finite; nothing is claimed about NaN",
    "vectors that are normalised are not zero; angles are asked for unit vectors or distinct points",
    "bisection1d finds roots that are at least two steps apart; scalar_min_1d is for functions with one minimum on the interval and takes arrays",
]
BOUNDS = {
    "sorting": "every sequence of up to 6 (thorough 8) of 4 values (negative, zero, repeated, huge), as contiguous, strided, reversed and column views; sorted, reversed and equal arrays up to 2000",
    "vectors": "every pair of vectors of the grids -2..2 in the plane and -1..1 (-2..2) in space, single, as rows, integers and floats; every triple of -1..1 for frames",
    "grids": "every shape up to 5 x 5 and 4 pairs of bounds; every shape of up to 4 axes of length 1..4 and every splitting of it; every list of up to 4 parts",
    "bisection": "every polynomial with 1..3 roots of a grid, 3 steps; minima at every point of a grid and at the ends, 5 offsets, 3 scales",
    "integrals": "every cubic with coefficients -2..2 in two coordinates of 3 pairings, every start of 3 and array and number arguments; circles, helices, lines and a polyline; planar, ruled and curved patches on 4 parts of their domain",
}


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def near(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


# ---------------------------------------------------------------- sorting
VALUES = [-1.5, 0.0, 2.0, 1e18]


def views(seq):
    """The same sequence in differently laid out memory; what lies between must stay as it is."""
    n = len(seq)
    a = np.array(seq, float)
    yield "plain", a, None
    wide = np.full(2 * n + 1, 77.0)
    wide[0:2 * n:2] = seq
    yield "strided", wide[0:2 * n:2], wide
    back = np.array(seq[::-1], float)
    yield "reversed", back[::-1], None
    grid = np.full((max(n, 1), 3), 55.0)
    grid[:n, 1] = seq
    yield "column", grid[:n, 1], grid


def one_sort(ctx, seq):
    want = sorted(seq)
    for kind, a, whole in views(seq):
        gaps = None if whole is None else np.array(whole)
        ctx.state((seq, kind))
        with ctx.at("argsort"):
            order = np.array(argsort(a)).tolist()
            ctx.expect(sorted(order) == list(range(len(seq))) and [seq[i] for i in order] == want, "argsort %s" % kind, lambda: "%r: %r" % (seq, order))
        with ctx.at("unique"):
            u = np.array(unique(a)).tolist()
            ctx.expect(u == sorted(set(seq)), "unique %s" % kind, lambda: "%r: %r" % (seq, u))
            place = np.full(len(seq) + 2, -7.0)
            u = np.array(unique(a, place)).tolist()
            ctx.expect(u == sorted(set(seq)) and place[:len(u)].tolist() == u and place[len(seq):].tolist() == [-7.0, -7.0], "unique into %s" % kind, lambda: "%r: %r %r" % (seq, u, place))
            ctx.expect(a.tolist() == list(seq), "sort-input-changed %s" % kind, lambda: "%r -> %r" % (seq, a))
        with ctx.at("quicksort"):
            quicksort(a)
            ctx.expect(a.tolist() == want, "quicksort %s" % kind, lambda: "%r: %r" % (seq, a))
            if whole is not None:
                if kind == "strided":
                    same = np.array_equal(whole[1::2], gaps[1::2]) and whole[-1] == gaps[-1]
                else:
                    same = np.array_equal(whole[:, [0, 2]], gaps[:, [0, 2]])
                ctx.expect(same, "quicksort-neighbours %s" % kind, lambda: "%r: %r" % (seq, whole))
        ctx.step(4)


def sorts(ctx, length, first):
    for n in range(length + 1) if first is None else (length,):
        for seq in itertools.product(VALUES, repeat=n if first is None else n - 1):
            one_sort(ctx, seq if first is None else (VALUES[first],) + seq)
    ctx.trace(1)
    ctx.sample("%r" % (seq,))


def big_sorts(ctx):
    for n in (50, 500, 2000):
        for seq in ([float(i) for i in range(n)], [float(-i) for i in range(n)], [3.0] * n, [float(i * 7919 % n) for i in range(n)], [float(i % 5) for i in range(n)], [abs(i - n / 2) for i in range(n)]):
            one_sort(ctx, tuple(seq))
    with ctx.at("unique-memory"):
        for rounds in range(300):
            keep = []
            for n in (1, 2, 3, 5, 9, 30, 200):
                a = np.array([1.0] * n)
                keep.append(unique(a))
                del a
            ctx.expect(all(np.array(k).tolist() == [1.0] for k in keep), "unique-memory", "the result changed later")
    ctx.trace(1)


# ---------------------------------------------------------------- vectors
def ref_cross(a, b):
    a, b = (list(x) + [0] * (3 - len(x)) for x in (a, b))
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def vectors(ctx, dim, reach, kind):
    grid = [v for v in itertools.product(range(-reach, reach + 1), repeat=dim)]
    dt = float if kind == "float" else int
    for v in grid:
        a = np.array(v, dt)
        L = math.sqrt(sum(c * c for c in v))
        with ctx.at("vector"):
            ctx.expect(near(V.norm(a), L) and near(V.norm_sq(a), L * L) and near(V.norm(list(v)), L), "norm", lambda: "%r: %r" % (v, V.norm(a)))
            if L:
                ctx.expect(near(V.unit(a), np.array(v) / L) and near(V.unit(list(v)), np.array(v) / L), "unit", lambda: "%r: %r" % (v, V.unit(a)))
            ctx.expect(near(V.scale_vector(a, 3), np.array(v) * 3.0), "scale_vector", lambda: "%r" % (v,))
            if dim == 2:
                ctx.expect(near(V.perp2d(a), [-v[1], v[0]]), "perp2d", lambda: "%r: %r" % (v, V.perp2d(a)))
            ctx.expect(a.tolist() == list(v), "vector-changed", lambda: "%r" % (v,))
    A, B = [], []
    for v, w in itertools.product(grid, grid):
        a, b = np.array(v, dt), np.array(w, dt)
        ctx.state((v, w, kind))
        d = sum(x * y for x, y in zip(v, w))
        la, lb = math.sqrt(sum(c * c for c in v)), math.sqrt(sum(c * c for c in w))
        with ctx.at("pair"):
            ctx.expect(near(V.dot(a, b), d) and near(V.dot(list(v), list(w)), d), "dot", lambda: "%r %r: %r" % (v, w, V.dot(a, b)))
            ctx.expect(near(V.dist(a, b), math.sqrt(sum((x - y) ** 2 for x, y in zip(v, w)))), "dist", lambda: "%r %r: %r" % (v, w, V.dist(a, b)))
            ctx.expect(near(V.add_multiply_vectors(a, b), np.add(v, w)), "add", lambda: "%r %r" % (v, w))
            c = np.asarray(V.cross(a, b), float)
            want = ref_cross(v, w)
            ctx.expect(c.tolist() == want, "cross", lambda: "%r %r: %r" % (v, w, c))
            if lb:
                ctx.expect(near(V.projection_length(a, b), d / lb), "projection_length", lambda: "%r %r" % (v, w))
            if la and lb:
                cosine = max(-1.0, min(1.0, d / la / lb))
                ctx.expect(abs(float(V.angle(V.unit(a), V.unit(b))) - math.acos(cosine)) < 1e-7, "angle", lambda: "%r %r" % (v, w))
                o = np.array([5, -3, 2][:dim], dt)
                ctx.expect(abs(float(V.angle3pt(a + o, o, b + o)) - math.acos(cosine)) < 1e-7, "angle3pt", lambda: "%r %r: %r" % (v, w, V.angle3pt(a + o, o, b + o)))
                ctx.expect(near(V.dot3pt(a + o, o, b + o), d / la / lb), "dot3pt", lambda: "%r %r: %r" % (v, w, V.dot3pt(a + o, o, b + o)))
                g = np.array(w) / lb - np.array(v) / la * (d / la / lb)
                ctx.expect(near(V.gram_schmidt(a, b), g), "gram_schmidt", lambda: "%r %r: %r" % (v, w, V.gram_schmidt(a, b)))
                ctx.expect(near(V.make_perpendicular(a, b), [-v[1], v[0]] if dim == 2 else g), "make_perpendicular", lambda: "%r %r" % (v, w))
                A.append(v)
                B.append(w)
            lo, hi = np.minimum(a, b), np.maximum(a, b)
            if dim == 2:
                for p in ((-3, 3), (0, 0), (1, -2), (3, 1), (2, 2)):
                    wanted = [min(max(x, l), h) for x, l, h in zip(p, lo, hi)]
                    ctx.expect(near(V.clamp(np.array(p, dt), lo, hi), wanted) and near(FE.clamp(np.array(p, dt), lo, hi), wanted), "clamp",
                               lambda: "%r to %r %r: %r %r" % (p, lo, hi, V.clamp(np.array(p, dt), lo, hi), FE.clamp(np.array(p, dt), lo, hi)))
            ctx.expect(a.tolist() == list(v) and b.tolist() == list(w), "vector-changed", lambda: "%r %r" % (v, w))
        ctx.step(10)
    step = max(1, len(A) // 200)
    for n in (1, 2, 3, 5):
        for i in range(0, len(A) - n, step):
            a, b = np.array(A[i:i + n], dt), np.array(B[i:i + n], dt)
            with ctx.at("rows"):
                one = lambda f: np.array([f(x, y) for x, y in zip(a, b)])
                ctx.expect(near(V.dot(a, b), one(V.dot)) and near(V.dist(a, b), one(V.dist)) and near(V.unit(a), np.array([V.unit(x) for x in a])) and near(V.norm(b), np.array([V.norm(x) for x in b])), "rows", lambda: "%r %r" % (a, b))
                ctx.expect(near(V.projection_length(a, b), one(V.projection_length)) and near(V.angle(V.unit(a), V.unit(b)), one(lambda x, y: V.angle(V.unit(x), V.unit(y))), 1e-7), "rows of angles", lambda: "%r %r" % (a, b))
                ctx.expect(near(V.gram_schmidt(a, b), one(V.gram_schmidt)) and near(V.make_perpendicular(a, b), one(V.make_perpendicular)), "rows of perpendiculars", lambda: "%r %r: %r" % (a, b, V.gram_schmidt(a, b)))
                ctx.expect(near(V.cross(a, b), one(V.cross)), "rows of cross", lambda: "%r %r" % (a, b))
    ctx.trace(1)
    ctx.sample("%r %r as %s" % (v, w, kind))


def frames(ctx):
    grid = [v for v in itertools.product((-1, 0, 2), repeat=3) if any(v)]
    for u, v, w in itertools.product(grid, repeat=3):
        for dt in (float, int):
            a, b, c = (np.array(x, dt) for x in (u, v, w))
            ctx.state((u, v, w, dt.__name__))
            det = float(np.dot(ref_cross(u, v), w))
            if det == 0:
                continue
            with ctx.at("orthonormalize"):
                x, y, z = V.orthonormalize(a, b, c)
                m = np.array([x, y, z])
                # the classical result: the first direction is kept, every vector stays on its side of the previous ones
                ctx.expect(near(m @ m.T, np.eye(3)) and near(x, a / np.linalg.norm(a)) and np.dot(y, b) > 0 and np.dot(z, c) > 0 and abs(np.dot(np.cross(x, y), ref_cross(u, v)) - np.linalg.norm(ref_cross(u, v))) < 1e-9,
                           "orthonormalize", lambda: "%r %r %r: %r" % (u, v, w, m))
                ctx.expect(a.tolist() == list(u) and b.tolist() == list(v) and c.tolist() == list(w), "orthonormalize-changed", lambda: "%r %r %r" % (u, v, w))
        ctx.step(2)
    for u, v in ((grid[0], grid[0]), ((1, 0, 0), (2, 0, 0))):
        try:
            V.orthonormalize(np.array(u, float), np.array(v, float), np.array([0.0, 0, 1]))
            ctx.fail("orthonormalize-parallel", "no error for parallel vectors")
        except ValueError:
            pass
    for i in range(-16, 17):
        m = V.rotate_matrix(i * math.pi / 8)
        c, s = math.cos(i * math.pi / 8), math.sin(i * math.pi / 8)
        ctx.expect(near(m, [[c, -s, 0], [s, c, 0], [0, 0, 1]]), "rotate_matrix", lambda: "%d: %r" % (i, m))
    pts = list(itertools.product((-1.0, 0.0, 2.0), repeat=2))
    for n in (1, 2, 3):
        for sub in itertools.combinations(pts, n):
            for d in itertools.product((-2, -1, 0, 1, 3), repeat=2):
                if not any(d):
                    continue
                s = svm.support_vector(np.array(sub), np.array(d, float))
                best = max(p[0] * d[0] + p[1] * d[1] for p in sub)
                ctx.expect(tuple(s) in sub and s[0] * d[0] + s[1] * d[1] == best, "support_vector", lambda: "%r along %r: %r" % (sub, d, s))
    for d in itertools.product((-2, -1, 0, 1, 2), repeat=2):
        if not any(d):
            continue
        arc = lambda t: np.array([math.cos(t), math.sin(t)])
        with ctx.at("curve_support_vector"):
            t = svm.curve_support_vector(arc, np.array([math.atan2(d[1], d[0]) - 1.0, math.atan2(d[1], d[0]) + 1.5]))(np.array(d, float))
            ctx.expect(abs(float(np.dot(arc(t), d)) - math.hypot(*d)) < 1e-6, "curve_support_vector", lambda: "%r: %r" % (d, t))
    ctx.trace(1)


# ---------------------------------------------------------------- grids and shapes
def grids(ctx):
    bnds = [((0.0, 1.0), (0.0, 1.0)), ((-1.0, 2.0), (3.0, 5.0)), ((2.0, -2.0), (0.5, 0.25)), ((1.0, 1.0), (-4.0, 0.0))]
    for n, m, (bu, bv) in itertools.product(range(1, 6), range(1, 6), bnds):
        us = [bu[0] + (bu[1] - bu[0]) * i / (n - 1) for i in range(n)] if n > 1 else [bu[0]]
        vs = [bv[0] + (bv[1] - bv[0]) * i / (m - 1) for i in range(m)] if m > 1 else [bv[0]]
        ctx.state((n, m, bu, bv))
        with ctx.at("grid"):
            want = [(u, v) for u in us for v in vs]
            ctx.expect(near(R.uvs(n, m, bu, bv), want), "uvs", lambda: "%r: %r" % ((n, m, bu, bv), R.uvs(n, m, bu, bv)))
            ctx.expect(near(R.point_grid_2d(n, m, bu, bv), np.array(want).reshape(n, m, 2)), "point_grid_2d", lambda: "%r" % ((n, m, bu, bv),))
            if (bu, bv) == bnds[0]:
                ctx.expect(near(R.uvs(n, m), want) and near(R.point_grid_2d(n, m), np.array(want).reshape(n, m, 2)), "default bounds", lambda: "%r" % ((n, m),))
    lists = [[], [1], [0, 2], [3, 1, 2]]
    for k in (1, 2, 3):
        for combo in itertools.product(lists[1:], repeat=k):
            with ctx.at("cartesian_product"):
                got = R.cartesian_product(*[np.array(c) for c in combo])
                ctx.expect(got.tolist() == [list(p) for p in itertools.product(*combo)], "cartesian_product", lambda: "%r: %r" % (combo, got))
    for n in range(0, 5):
        t = tuple(range(n))
        for i in range(-n, n + 1):
            want = list(t)
            want.insert(i, "x")
            ctx.expect(R.insert_in_tuple(t, i, "x") == tuple(want), "insert_in_tuple", lambda: "%r %r" % (t, i))
    for axes in range(1, 5):
        for shape in itertools.product((1, 2, 4) if axes > 2 else (1, 2, 3, 4, 6, 12), repeat=axes):
            total = int(np.prod(shape))
            a = np.arange(total).reshape(shape)
            ctx.state(shape)
            with ctx.at("shapes"):
                for count in range(0, axes):
                    got = R.remove_dim(a, count)
                    want = (int(np.prod(shape[:count + 1])),) + shape[count + 1:]
                    ctx.expect(got.shape == want and got.ravel().tolist() == list(range(total)), "remove_dim", lambda: "%r %d: %r" % (shape, count, got.shape))
                for i in range(-axes, axes):
                    for v in range(1, shape[i] + 1):
                        if shape[i] % v:
                            continue
                        j = i % axes
                        for at, pair in (("before", (v, shape[i] // v)), ("after", (shape[i] // v, v))):
                            got = R.split_dim(a, i, v, at)
                            want = shape[:j] + pair + shape[j + 1:]
                            ctx.expect(got.shape == want and got.ravel().tolist() == list(range(total)), "split_dim", lambda: "%r axis %d by %d %s: %r" % (shape, i, v, at, got.shape))
                for v in range(1, shape[0] + 1):
                    if shape[0] % v:
                        continue
                    got = R.add_dim(a, v)
                    ctx.expect(got.shape == (shape[0] // v, v) + shape[1:], "add_dim", lambda: "%r %d: %r" % (shape, v, got.shape))
                    for w in range(1, shape[0] // v + 1):
                        if (shape[0] // v) % w:
                            continue
                        got = R.add_dim(a, (w, v))
                        ctx.expect(got.shape == (shape[0] // v // w, w, v) + shape[1:] and got.ravel().tolist() == list(range(total)), "add_dim twice", lambda: "%r %r: %r" % (shape, (w, v), got.shape))
    for parts in itertools.chain.from_iterable(itertools.product((1, 2, 3), repeat=k) for k in (1, 2, 3, 4)):
        rows = np.arange(2 * sum(parts)).reshape(-1, 2)
        with ctx.at("split_by_parts"):
            got = [g for g in R.split_by_parts(rows, list(parts)) if len(g)]
            ctx.expect([len(g) for g in got] == list(parts) and np.concatenate(got).tolist() == rows.tolist(), "split_by_parts", lambda: "%r: %r" % (parts, [len(g) for g in got]))
    for n, k, m in itertools.product((1, 2, 3, 4), (1, 2, 3), (1, 2, 3)):
        a = np.arange(n * k, dtype=float).reshape(n, k)
        b = -np.arange(n * m, dtype=float).reshape(n, m) - 1
        with ctx.at("column_concat"):
            got = R.column_concat(a, b)
            ctx.expect(got.tolist() == [list(x) + list(y) for x, y in zip(a, b)], "column_concat", lambda: "%r" % ((n, k, m),))
            row = np.arange(m, dtype=float) + 100
            if m != n:
                ctx.expect(R.column_concat(a, row).tolist() == [list(x) + list(row) for x in a], "column_concat row", lambda: "%r: %r" % ((n, k, m), R.column_concat(a, row)))
    for start, end, step in itertools.product((0.0, 1.0, -0.5), (1.3, 2.0, 3.25, 0.7), (0.1, 0.25, 0.3, 0.5, 1.0, 5.0, 0.2, 0.7)):
        if start >= end:
            continue
        with ctx.at("divide_interval"):
            d = R.divide_interval(start, end, step)
            ok = d.ndim == 2 and abs(d[0, 0] - start) < 1e-12 and abs(d[-1, 1] - end) < 1e-9 and bool(np.all(d[:, 0] < d[:, 1])) and near(d[1:, 0], d[:-1, 1]) and bool(np.all(d <= end)) and near(d[:-1, 1] - d[:-1, 0], np.full(len(d) - 1, step))
            ctx.expect(ok, "divide_interval", lambda: "%r: %r" % ((start, end, step), d))
    for vals in itertools.product((0.0, 1.0, 3.0), repeat=4):
        for x in (-1.0, 0.5, 1.0, 2.0, 9.0):
            got = R.find_similar(x, np.array(vals)).tolist()
            best = min(abs(v - x) for v in vals)
            ctx.expect(got == [i for i, v in enumerate(vals) if abs(v - x) == best], "find_similar", lambda: "%r %r: %r" % (x, vals, got))
    for p, q in itertools.product(itertools.product((-1, 0, 2), repeat=3), repeat=2):
        for dt in (int, float):
            a, b = np.array(p, dt), np.array(q, dt)
            ctx.expect(R.nd_min(a, b).tolist() == [min(x, y) for x, y in zip(p, q)] and R.nd_max(a, b).tolist() == [max(x, y) for x, y in zip(p, q)], "nd_min", lambda: "%r %r" % (p, q))
            for s in (0.5, -1.5, 1):
                ctx.expect(R.nd_min(a, s).tolist() == [min(x, s) for x in p] and R.nd_min(s, a).tolist() == [min(x, s) for x in p]
                           and R.nd_max(a, s).tolist() == [max(x, s) for x in p] and R.nd_max(s, a).tolist() == [max(x, s) for x in p], "nd_min number", lambda: "%r %r: %r" % (p, s, R.nd_min(a, s)))
            ctx.expect(a.tolist() == list(p) and b.tolist() == list(q), "nd_min-changed", lambda: "%r %r" % (p, q))
    ctx.expect(R.nd_min(1, 2) == 1 and R.nd_max(1, 2) == 2, "nd_min numbers", "")
    for cp in itertools.islice(itertools.product(itertools.product((-1.0, 0.0, 2.0), repeat=2), repeat=4), 0, None, 7):
        f = R.cubic_spline(np.array(cp))
        ts = np.array([0.0, 0.25, 0.5, 1.0, 1.5])
        want = [[sum(math.comb(3, i) * t ** i * (1 - t) ** (3 - i) * cp[i][k] for i in range(4)) for k in range(2)] for t in ts]
        ctx.expect(near(f(ts), want) and near(f(0.25), want[1]), "cubic_spline", lambda: "%r: %r" % (cp, f(ts)))
    ctx.trace(1)


# ---------------------------------------------------------------- bisection
def roots(ctx):
    places = [-1.5, -1.0, -0.3, 0.0, 0.25, 0.8, 1.0, 1.7, 2.5]
    for k in (0, 1, 2, 3):
        for rs in itertools.combinations(places, k):
            for sign in (1, -1):
                for step, start, stop in ((0.015625, -2, 3), (0.0625, -1.75, 2.75), (0.03, -2, 3)):
                    def f(x):
                        v = sign
                        for r in rs:
                            v *= x - r
                        return v
                    ctx.state((rs, sign, step))
                    with ctx.at("bisection1d"):
                        found, low = BI.bisection1d(f, step, start, stop)
                        xs = [x for x, _ in found]
                        ok = len(xs) == len(rs) and all(-1e-9 <= x - r <= step + 1e-9 for x, r in zip(xs, rs))
                        ctx.expect(ok, "bisection1d", lambda: "roots %r sign %d step %r from %r to %r: %r" % (rs, sign, step, start, stop, found))
                        ctx.expect(all(f(x) == v for x, v in found), "bisection1d-values", lambda: "%r" % (found,))
                        n = int((stop - start) / step + 1e-6)
                        least = min(f(start + i * step) for i in range(n + 1))
                        ctx.expect(abs(low - least) <= 1e-6 + abs(f(stop) - f(stop - step)), "bisection1d-minimum", lambda: "%r: %r, sampled %r" % (rs, low, least))
                ctx.step(3)
    for i in range(0, 41):
        c = i / 40 * 3 - 1
        for off, scale, step, divs in itertools.product((0.0, 1.0, 100.0, -5.0, 1e4), (1.0, 0.5, 40.0), (0.001, 0.03), (32, 7, 16)):
            for shape, f in (("square", lambda t: scale * (t - c) ** 2 + off), ("abs", lambda t: scale * np.abs(t - c) + off), ("up", lambda t: scale * (t + c) + off), ("down", lambda t: -scale * t ** 3 - t + off)):
                want = {"square": c, "abs": c, "up": -1.0, "down": 2.0}[shape]
                ctx.state((c, off, scale, step, divs, shape))
                with ctx.at("scalar_min_1d"):
                    got = float(BI.scalar_min_1d(f, -1.0, 2.0, step, divs))
                    ctx.expect(abs(got - want) <= step + 1e-5, "scalar_min_1d", lambda: "%s at %r + %r times %r, step %r: %r" % (shape, c, off, scale, step, got))
    for a, b, m, n in itertools.product((-1.0, 0.0, 2.0), (0.0, 1.5), (1.0, 3.0), (1.0, 0.5)):
        f = lambda x: m * (x[0] - a) ** 2 + n * (x[1] - b) ** 2 + 0.25 * (x[0] - a) * (x[1] - b)
        for x0 in ((0.0, 0.0), (3.0, -2.0), (a, b)):
            with ctx.at("closest_local_minimum"):
                x, v = BI.closest_local_minimum(f, np.array(x0))
                full = BI.closest_local_minimum(f, np.array(x0), True)
                ctx.expect(np.allclose(x, (a, b), atol=1e-4) and abs(v) < 1e-6 and np.allclose(full.x, x), "closest_local_minimum", lambda: "%r from %r: %r" % ((a, b, m, n), x0, x))
    ctx.trace(1)


# ---------------------------------------------------------------- integrals
def integrals(ctx):
    coefs = list(itertools.product((-2, 0, 1), repeat=4))
    for i, c in enumerate(coefs):
        e = coefs[(i * 7 + 3) % len(coefs)]
        fun = lambda t: np.array([sum(k * t ** n for n, k in enumerate(c)), sum(k * t ** n for n, k in enumerate(e))])
        prim = lambda t: np.array([sum(k * t ** (n + 1) / (n + 1) for n, k in enumerate(c)), sum(k * t ** (n + 1) / (n + 1) for n, k in enumerate(e))])
        for move in (None, (1.0, -2.0)):
            o = np.array(move if move else (0.0, 0.0))
            ctx.state((c, e, move))
            with ctx.at("antiderivative"):
                p = PR.Prime(fun, translate=move)
                for t in (0, 1, -1.5, 2.0, 0.25):
                    ctx.expect(near(p(t), prim(t) + o, 1e-7), "antiderivative", lambda: "%r %r at %r: %r, wanted %r" % (c, e, t, p(t), prim(t) + o))
                    ctx.expect(near(p.evaluate(t, 1.0), prim(t) - prim(1.0) + o, 1e-7) and near(p(t, t0=-1.0), prim(t) - prim(-1.0) + o, 1e-7), "antiderivative from", lambda: "%r %r at %r" % (c, e, t))
                for ts in (np.array([0.0, 1.0, -0.5]), np.array([2.0]), [0.5, 1.5]):
                    want = np.array([prim(t) + o for t in ts])
                    ctx.expect(near(p(ts), want, 1e-7), "antiderivative of array", lambda: "%r %r at %r: %r, wanted %r" % (c, e, ts, p(ts), want))
                p.translate = (5.0, 7.0)
                ctx.expect(near(p(1.0), prim(1.0) + (5.0, 7.0), 1e-7) and near(p.translate, (5.0, 7.0)), "antiderivative moved", lambda: "%r %r" % (c, e))
                ctx.expect(PR.Prime(FDM(fun)) is fun, "antiderivative of derivative", "a finite difference derivative is not simplified")
        ctx.step(8)

    class parametric:
        def __init__(self, a, b):
            self.a, self.b = a, b

        def interval(self):
            return (self.a, self.b)

        def __call__(self, t):
            return np.array([2 * t, 1.0])

    for a in (0.0, 1.0, -2.0):
        p = PR.Prime(parametric(a, a + 3))
        ctx.expect(near(p(2.0), [4 - a * a, 2 - a], 1e-7) and near(p(np.array([a, 2.0])), [[0, 0], [4 - a * a, 2 - a]], 1e-7), "antiderivative of interval", lambda: "%r: %r" % (a, p(2.0)))
    circle = lambda r: lambda t: np.array([r * math.cos(t), r * math.sin(t)])
    helix = lambda t: np.array([math.cos(t), math.sin(t), 0.5 * t])
    line = lambda t: np.array([3 * t, 4 * t, 0.0])
    wave = lambda t: np.array([t, abs(t - 1.0)])
    for a, b in ((0.0, 1.0), (0.5, 2.25), (-1.0, 3.0), (0.0, 0.0005), (1.0, 1.33337)):
        for dt in (1e-3, 1e-2, 0.0037):
            for name, f, speed in (("circle", circle(1.0), 1.0), ("large circle", circle(5.0), 5.0), ("helix", helix, math.sqrt(1.25)), ("line", line, 5.0), ("corner", wave, math.sqrt(2))):
                ctx.state((a, b, dt, name))
                with ctx.at("parametric_arc_length"):
                    with quiet():
                        got = float(AL.parametric_arc_length(f, a, b, dt))
                    want = speed * (b - a)
                    slack = want * dt * dt * (1 if name != "line" else 0) + 1e-9 + (2 * dt if name == "corner" else 0)
                    ctx.expect(abs(got - want) <= slack, "parametric_arc_length", lambda: "%s %r..%r by %r: %r, wanted %r" % (name, a, b, dt, got, want))
    for r in (0.5, 1.0, 4.0):
        for k in range(1, 16):
            tol = r * k / 16
            with ctx.at("chord"):
                chord = AL.curvature_based_step(tol, r)
                ctx.expect(near(AL.arc_height(chord, r), tol, 1e-9), "arc_height", lambda: "%r %r: %r" % (r, tol, AL.arc_height(chord, r)))
                phi = 2 * math.acos(1 - k / 16)
                ctx.expect(near(chord, 2 * r * math.sin(phi / 2), 1e-9), "curvature_based_step", lambda: "%r %r: %r" % (r, tol, chord))
    ctx.trace(1)


def areas(ctx):
    parts = [None, ((0.0, 0.5), (0.0, 1.0)), ((0.25, 1.0), (0.5, 0.75)), ((0.0, 1.0), (0.125, 0.25))]
    pts = [(0.0, 0.0), (3.0, 0.0), (4.0, 2.0), (0.0, 1.0), (1.0, 3.0)]
    for quad in itertools.permutations(pts, 4):
        # planar bilinear patches: the density is bilinear in the parameters when the quadrilateral is convex
        a, b, c, d = quad
        corner = [(q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0]) for p, q, r in ((a, b, d), (b, c, a), (c, d, b), (d, a, c))]
        if not (min(corner) > 0):
            continue
        s = BiLinear(*np.array([(x, y, 1.0) for x, y in (a, b, c, d)]))
        for bounds in parts:
            ctx.state((quad, bounds))
            bb = bounds or ((0.0, 1.0), (0.0, 1.0))

            def at(u, v):
                return np.array(s.evaluate(np.array([u, v], float)))
            outline = [at(bb[0][0], bb[1][0]), at(bb[0][1], bb[1][0]), at(bb[0][1], bb[1][1]), at(bb[0][0], bb[1][1])]
            want = abs(sum(p[0] * q[1] - p[1] * q[0] for p, q in zip(outline, outline[1:] + outline[:1]))) / 2
            with ctx.at("surface_rect_area"):
                got = surface_rect_area(s, bounds) if bounds else surface_rect_area(s)
                ctx.expect(abs(got[0] - want) < 1e-6, "surface_rect_area", lambda: "%r on %r: %r, wanted %r" % (quad, bounds, got, want))
    two = 2 * math.pi
    shapes = [
        ("cylinder", lambda uv: np.array((math.cos(uv[0]), math.sin(uv[0]), uv[1])), lambda u0, u1, v0, v1: (u1 - u0) * (v1 - v0)),
        ("flat", lambda uv: np.array((2 * uv[0], 3 * uv[1], 1.0)), lambda u0, u1, v0, v1: 6 * (u1 - u0) * (v1 - v0)),
        ("cone", lambda uv: np.array((uv[1] * math.cos(uv[0]), uv[1] * math.sin(uv[0]), uv[1])), lambda u0, u1, v0, v1: math.sqrt(2) * (u1 - u0) * (v1 ** 2 - v0 ** 2) / 2),
        ("sphere", lambda uv: np.array((math.cos(uv[1]) * math.cos(uv[0]), math.cos(uv[1]) * math.sin(uv[0]), math.sin(uv[1]))), lambda u0, u1, v0, v1: (u1 - u0) * (math.sin(v1) - math.sin(v0))),
    ]
    for name, f, exact in shapes:
        for bounds in (((0.0, two), (0.25, 1.0)), ((0.0, 1.0), (0.0, 0.5)), ((1.0, 3.0), (0.5, 1.25))):
            with ctx.at("surface_rect_area of a function"):
                got = surface_rect_area(f, bounds)
                want = exact(*bounds[0], *bounds[1])
                ctx.expect(abs(got[0] - want) < 1e-3 * (1 + want), "surface_rect_area of a function", lambda: "%s on %r: %r, wanted %r" % (name, bounds, got, want))
    # a NURBS patch of 2 x 3 over knots that are not 0..1, flat and sheared
    for w, h, k in itertools.product((1.0, 2.0), (1.0, 3.0), (0.0, 1.0)):
        cp = np.array([[[x * w + y * k, y * h, 0.0] for y in (0.0, 0.5, 1.0)] for x in (0.0, 1.0)])
        s = NURBSSurface(cp, (1, 2))
        (u0, u1), (v0, v1) = s.interval()
        with ctx.at("surface_rect_area of NURBS"):
            got = surface_rect_area(s)
            ctx.expect(abs(got[0] - w * h) < 1e-6, "surface_rect_area of NURBS", lambda: "%r: %r, wanted %r" % ((w, h, k), got, w * h))
            got = surface_rect_area(s, ((u0, (u0 + u1) / 2), (v0, v1)))
            ctx.expect(abs(got[0] - w * h / 2) < 1e-6, "surface_rect_area of half NURBS", lambda: "%r: %r" % ((w, h, k), got))
    ctx.trace(1)


def tasks(tier):
    deep = tier == "thorough"
    out = [("sorts", sorts, (5, None))] + [("sorts-%d" % i, sorts, (6, i)) for i in range(4)]
    if deep:
        out += [("sorts-%d-%d" % (n, i), sorts, (n, i)) for n in (7, 8) for i in range(4)]
    out += [("big-sorts", big_sorts, ())]
    out += [("vectors-%d-%s" % (d, k), vectors, (d, 2 if d == 2 or deep else 1, k)) for d in (2, 3) for k in ("float", "int")]
    out += [("frames", frames, ()), ("grids", grids, ()), ("roots", roots, ()), ("integrals", integrals, ()), ("areas", areas, ())]
    return out
