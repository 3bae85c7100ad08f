"""C11: axis-aligned boxes: predicates, clipping, box algebra and the boxes of curves and surfaces."""
import itertools
from fractions import Fraction as F

import numpy as np

import ref
import shapes
from c08 import grid, hom, wgrid
from mmcore.geom.bvh import BoundingBox, Segment, get_aabb_corners_numpy, sd_aabb
from mmcore.geom.nurbs import NURBSSurface
from mmcore.numeric.aabb import (
    aabb,
    aabb_intersect,
    aabb_intersect_fast_3d,
    aabb_intersection,
    aabb_overlap,
    aabb_segm3d,
    curve_aabb_eager,
    point_in_aabb,
    ray_aabb_intersect,
    segment_aabb_clip,
    segment_aabb_intersect,
)

PID = "C11"
ASSUMPTIONS = [
    "boxes are closed: touching boxes intersect; coordinates are finite; rays have a non-zero direction",
    "the boxes of curves and surfaces are those of their control points (positive weights)",
]
BOUNDS = {
    "pairs": "every pair of boxes of dimension 2 and 3 with coordinates 0..2 (empty volume included) and of dimension 1 and 4 with coordinates 0..1, for overlap, intersection, merge",
    "points": "every sequence of up to 3 points (2 for dimension 4) with coordinates 0..2 of dimension 1..4, as contiguous and strided arrays",
    "rays and segments": "every box with coordinates 0..2 x every origin with coordinates -1, 1/2, 2, 3 x every direction with components -2..1; the same for segments; 3 scales",
    "box objects": "every sequence of 3 operations (merge, intersection, expand, split on each axis and parameter, split4, split8, rebuilding) from 4 boxes",
    "geometry": "curves and surfaces of degree 1..3 with all weight patterns: every point is in the box; the box is tight on the control points",
}


def intervals(n):
    return [(a, b) for a in range(n) for b in range(a, n)]


def boxes(n, d):
    for c in itertools.product(intervals(n), repeat=d):
        yield np.array(c, dtype=float).T.copy()


def arr(x):
    return None if x is None else np.array(x)


def points_task(ctx, d, lead):
    pts = [p for p in itertools.product((0.0, 1.0, 2.0) if d < 4 else (0.0, 1.0), repeat=d)]
    for n in (1, 2, 3) if d < 4 else (1, 2):
        for rest in itertools.product(pts, repeat=n - 1):
            P = np.array((pts[lead],) + rest)
            sig = f"aabb of {P.tolist()}"
            ctx.step(3)
            ctx.state((d, lead, rest))
            want = np.array([P.min(0), P.max(0)])
            with ctx.at(sig):
                got = np.array(aabb(P))
                ctx.expect(got.shape == want.shape and (got == want).all(), sig, lambda: f"{got.tolist()} expected {want.tolist()}")
                wide = np.full((n, 2 * d), 7.0)
                wide[:, ::2] = P
                out = np.full((2, d), 9.0)
                back = aabb(wide[:, ::2], out)
                ctx.expect((out == want).all() and (np.array(back) == want).all(), f"{sig} (strided, result given)", lambda: f"{out.tolist()} expected {want.tolist()}")
                if d == 3 and n == 2:
                    out = np.full((2, 3), 9.0)
                    aabb_segm3d(P[0], P[1], out)
                    ctx.expect((out == want).all(), f"aabb_segm3d {P.tolist()}", lambda: f"{out.tolist()}")
                    s = Segment(P[0], P[1])
                    ctx.expect((np.array(s.bounding_box) == want).all(), f"Segment box {P.tolist()}", "")
    ctx.sample(sig)


def pairs_task(ctx, n, d, part, parts):
    bs = list(boxes(n, d))
    for i, a in enumerate(bs):
        if i % parts != part:
            continue
        for b in bs:
            lo, hi = np.maximum(a[0], b[0]), np.minimum(a[1], b[1])
            meet = bool((lo <= hi).all())
            sig = f"boxes {a.tolist()} {b.tolist()}"
            ctx.step(4)
            with ctx.at(sig):
                got = [bool(aabb_intersect(a, b))]
                if d in (2, 3):
                    got.append(bool(aabb_overlap(a, b)))
                if d == 3:
                    got.append(bool(aabb_intersect_fast_3d(a, b)))
                if got != [meet] * len(got):
                    ctx.fail(f"{sig}: overlap", f"{got} expected {meet}")
                x = arr(aabb_intersection(a, b))
                if (x is not None) != meet or meet and not np.array_equal(x, [lo, hi]):
                    ctx.fail(f"{sig}: intersection", f"{None if x is None else x.tolist()} expected {[lo.tolist(), hi.tolist()] if meet else None}")
                if d in (2, 3):
                    inside = bool((a[0] <= b[0]).all() and (b[0] <= a[1]).all())
                    if bool(point_in_aabb(a, b[0])) != inside:
                        ctx.fail(f"point {b[0].tolist()} in {a.tolist()}", f"expected {inside}")
        ctx.state(("pair", n, d, i))
        ctx.trace()
    ctx.sample(sig)


def objects_pairs(ctx):
    bs = list(boxes(2, 3)) + [np.array([[0.0, 0, 1], [2, 1, 3]]), np.array([[-1.0, 1, 2], [0, 1, 5]]), np.array([[1.0, 1, 1], [2, 2, 2]])]
    for a, b in itertools.product(bs, repeat=2):
        A, B = BoundingBox(*a), BoundingBox(*b)
        sig = f"BoundingBox {a.tolist()} {b.tolist()}"
        ctx.step(6)
        ctx.state((tuple(a.ravel()), tuple(b.ravel())))
        with ctx.at(sig):
            lo, hi = np.maximum(a[0], b[0]), np.minimum(a[1], b[1])
            meet = bool((lo <= hi).all())
            x = A & B
            ctx.expect((x is not None) == meet and (not meet or (np.array(x) == [lo, hi]).all()), f"{sig}: intersection", lambda: f"{x}")
            ctx.expect(bool(A.intersect(B)) == meet, f"{sig}: intersect", "")
            open_meet = bool((a[0] < b[1]).all() and (a[1] > b[0]).all())
            ctx.expect(bool(A.intersect_disjoint(B)) == open_meet, f"{sig}: intersect_disjoint", "")
            m = [np.minimum(a[0], b[0]), np.maximum(a[1], b[1])]
            ctx.expect((np.array(A | B) == m).all() and (np.array(A.merge(B)) == m).all(), f"{sig}: merge", lambda: f"{A | B}")
            ctx.expect((np.array(A) == a).all() and (np.array(B) == b).all(), f"{sig}: operands unchanged", "")
    ctx.sample(sig)


def ray_cases(part, parts):
    bs = list(boxes(3, 3))
    dirs = [x for x in itertools.product((-2.0, -1.0, 0.0, 1.0), repeat=3)]
    orgs = [x for x in itertools.product((-1.0, 0.5, 2.0, 3.0), repeat=3)]
    D, O = np.array(dirs), np.array(orgs)
    for i, b in enumerate(bs):
        if i % parts == part:
            yield b, O, D


def slab(b, O, D):
    """Exact parameter intervals of all lines O + t D in box b: arrays lo, hi of shape (origins, directions); exact in floats for these inputs."""
    lo = np.full((len(O), len(D)), -np.inf)
    hi = np.full((len(O), len(D)), np.inf)
    for k in range(3):
        with np.errstate(divide="ignore", invalid="ignore"):
            t1 = (b[0, k] - O[:, None, k]) / D[None, :, k]
            t2 = (b[1, k] - O[:, None, k]) / D[None, :, k]
        par = np.broadcast_to(D[None, :, k] == 0, lo.shape)
        inside = np.broadcast_to((O[:, None, k] >= b[0, k]) & (O[:, None, k] <= b[1, k]), lo.shape)
        a, c = np.minimum(t1, t2), np.maximum(t1, t2)
        lo = np.where(par, np.where(inside, lo, np.inf), np.fmax(lo, np.where(par, -np.inf, a)))
        hi = np.where(par, np.where(inside, hi, -np.inf), np.fmin(hi, np.where(par, np.inf, c)))
    return lo, hi


def rays(ctx, part, parts, scale):
    for b, O, D in ray_cases(part, parts):
        lo, hi = slab(b, O, D)
        bb, Os, Ds = b * scale, O * scale, D
        for i, o in enumerate(Os):
            for j, d in enumerate(Ds):
                ctx.step()
                l, h = lo[i, j], hi[i, j]
                seg = np.array([o, o + d * scale])
                try:
                    s = segment_aabb_intersect(bb, seg)
                    out = np.full((2, 3), 9.0)
                    c = segment_aabb_clip(bb, seg, out)
                    r = ray_aabb_intersect(bb, o, d) if d.any() else None
                except Exception as e:
                    ctx.fail(f"segment {seg.tolist()} and box {bb.tolist()}", f"{e!r}")
                    continue
                sl, sh = max(l, 0.0), min(h, 1.0)
                if sl > sh:
                    if s is not None or c is not None:
                        ctx.fail(f"segment {seg.tolist()} and box {bb.tolist()}", f"{s} {arr(c)} expected no intersection")
                else:
                    ends = np.array([seg[0] + (seg[1] - seg[0]) * sl, seg[0] + (seg[1] - seg[0]) * sh])
                    if s is None or abs(s[0] - sl) > 1e-12 or abs(s[1] - sh) > 1e-12:
                        ctx.fail(f"segment {seg.tolist()} and box {bb.tolist()}", f"{s} expected {[sl, sh]}")
                    elif c is None or np.abs(np.array(c) - ends).max() > 1e-9 * scale or np.abs(out - ends).max() > 1e-9 * scale:
                        ctx.fail(f"clip of {seg.tolist()} to {bb.tolist()}", f"{arr(c)} expected {ends.tolist()}")
                if not d.any():
                    continue
                rl = max(l, 0.0)
                if rl > h:
                    if r is not None:
                        ctx.fail(f"ray {o.tolist()} {d.tolist()} and box {bb.tolist()}", f"{r} expected no intersection")
                elif r is None or abs(r[0] - rl * scale) > 1e-12 * scale or abs(r[1] - h * scale) > 1e-12 * scale:
                    ctx.fail(f"ray {o.tolist()} {d.tolist()} and box {bb.tolist()}", f"{r} expected {[rl * scale, h * scale]}")
        ctx.state(("ray", tuple(bb.ravel())))
        ctx.trace()
    ctx.sample(f"rays and segments against box {b.tolist()} scale {scale}")


# ------------------------------------------------------------ box objects

def observe(ctx, o, m, sig):
    """o: BoundingBox, m: exact ((lo), (hi))"""
    lo, hi = np.array([float(x) for x in m[0]]), np.array([float(x) for x in m[1]])
    ctx.step()
    good = ctx.expect((np.array(o) == [lo, hi]).all() and (o.min_point == lo).all() and (o.max_point == hi).all(), f"{sig}: corners", lambda: f"{o} {np.array(o).tolist()} expected {lo.tolist()} {hi.tolist()}")
    c = [float((a + b) / 2) for a, b in zip(*m)]
    good &= ctx.expect((o.center == c).all() and (o.centroid() == c).all() and (o.dims == hi - lo).all(), f"{sig}: center and dims", lambda: f"{o.center} {o.centroid()} {o.dims} expected {c} {(hi - lo).tolist()}")
    v = 1.0
    for a, b in zip(*m):
        v *= float(b - a)
    good &= ctx.expect(abs(o.volume() - v) < 1e-12 and bool(o.is_non_zero_volume()) == bool((hi > lo).all()) and bool(o.is_finite()) and bool(o.is_consistency()) and bool(o.is_valid()) == bool((hi > lo).all()), f"{sig}: volume and validity", lambda: f"{o.volume()}")
    metric = 1.0
    for a, b in zip(*m):
        metric *= float(b - a) if a != b else 1.0
    good &= ctx.expect(abs(o.size_metric() - metric) < 1e-12, f"{sig}: size_metric", lambda: f"{o.size_metric()} expected {metric}")
    want = [tuple(x) for x in itertools.product(*zip(lo.tolist(), hi.tolist()))]
    cs = [tuple(x) for x in o.get_corners().tolist()]
    good &= ctx.expect(sorted(cs) == sorted(want), f"{sig}: corners", lambda: f"{cs}")
    # edges and faces, as combinatorial objects of the (degenerate or not) box
    edges = sorted(tuple(sorted(map(tuple, e.tolist()))) for e in o.get_edges())
    idx = list(itertools.product((0, 1), repeat=3))
    at = lambda i: tuple(float((lo, hi)[i[k]][k]) for k in range(3))
    wedges = sorted(tuple(sorted((at(i), at(j)))) for i, j in itertools.combinations(idx, 2) if sum(a != b for a, b in zip(i, j)) == 1)
    good &= ctx.expect(edges == wedges, f"{sig}: edges", lambda: f"{edges}")
    faces = o.get_faces()
    wf = sorted(tuple(sorted(at(i) for i in idx if i[k] == s)) for k in range(3) for s in (0, 1))
    good &= ctx.expect(sorted(tuple(sorted(map(tuple, f.tolist()))) for f in faces) == wf, f"{sig}: faces", lambda: f"{[f.tolist() for f in faces]}")
    for f in faces:  # consecutive corners are joined by an edge
        good &= ctx.expect(all((f[k] != f[(k + 1) % 4]).sum() <= 1 for k in range(4)), f"{sig}: face order", lambda: f"{f.tolist()}")
    for uvh in itertools.product((0.0, 0.25, 1.0), repeat=3):
        w = [float(a + (b - a) * F(t)) for a, b, t in zip(*m, uvh)]
        good &= ctx.expect(np.allclose(o.evaluate(np.array(uvh)), w, atol=1e-12), f"{sig}: evaluate", lambda: f"{o.evaluate(np.array(uvh))} at {uvh} expected {w}")
    pts = np.array(list(itertools.product(*[sorted({a - 1, a, (a + b) / 2, b, b + 1}) for a, b in zip(lo, hi)])))
    w = ((lo <= pts) & (pts <= hi)).all(1)
    good &= ctx.expect((o.contains_points(pts) == w).all() and all(o.contains_point(p) == x for p, x in zip(pts, w)), f"{sig}: contains", "")
    # the predicates that work on the stored array follow the box, too
    probe = BoundingBox(hi, hi + 1)
    far = BoundingBox(hi + 0.5, hi + 1)
    good &= ctx.expect(bool(o.intersect(probe)) and not o.intersect(far), f"{sig}: intersect after the history", "")
    sd = [sd_aabb(np.array(o), p) for p in pts]
    for p, s in zip(pts, sd):
        d = np.maximum(lo - p, p - hi)
        want_sd = np.linalg.norm(np.maximum(d, 0)) if (d > 0).any() else d.max()
        good &= ctx.expect(abs(s - want_sd) < 1e-12, f"{sig}: signed distance", lambda: f"{s} at {p} expected {want_sd}")
    return good


OTHER = [((F(0), F(0), F(0)), (F(1), F(2), F(4))), ((F(1, 2), F(-1), F(1)), (F(3), F(1), F(1))), ((F(5), F(5), F(5)), (F(6), F(7), F(8)))]


def box(m):
    return BoundingBox(*[[float(x) for x in p] for p in m])


def parts_of(m, axis, t):
    x = m[0][axis] + (m[1][axis] - m[0][axis]) * t
    a = (m[0], tuple(x if k == axis else c for k, c in enumerate(m[1])))
    b = (tuple(x if k == axis else c for k, c in enumerate(m[0])), m[1])
    return [a, b]


def operations(o, m):
    """(name, thunk) with thunk() -> list of (object, model) to continue with."""
    out = []
    for i, w in enumerate(OTHER):
        mg = (tuple(map(min, m[0], w[0])), tuple(map(max, m[1], w[1])))
        out.append((f"merge {i}", lambda w=w, mg=mg: [(o | box(w), mg), (o, m)]))

        def expand(w=w, mg=mg):
            o.expand(box(w))
            return [(o, mg)]

        out.append((f"expand {i}", expand))
        it = (tuple(map(max, m[0], w[0])), tuple(map(min, m[1], w[1])))
        if all(a <= b for a, b in zip(*it)):
            out.append((f"intersection {i}", lambda w=w, it=it: [(o & box(w), it), (o, m)]))
    for axis in range(3):
        for t in (F(1, 2), F(1, 4), F(1)):
            out.append((f"split {axis} {t}", lambda axis=axis, t=t: list(zip(o.split(axis, float(t)), parts_of(m, axis, t))) + [(o, m)]))
    for axes in ((0, 1), (2, 0)):
        w = [p for q in parts_of(m, axes[1], F(1, 4)) for p in parts_of(q, axes[0], F(1, 2))]
        out.append((f"split4 {axes}", lambda axes=axes, w=w: match(o.split4(*axes, 0.25, 0.5), w)))
    w = [p for r in parts_of(m, 0, F(1, 2)) for q in parts_of(r, 1, F(1, 2)) for p in parts_of(q, 2, F(1, 2))]
    out.append(("split8", lambda: match(o.split8(), w)))
    out.append(("rebuilt", lambda: [(BoundingBox(o.min_point, o.max_point), m), (o, m)]))
    return out


def match(objs, models):
    """Pair boxes with the exact parts whatever their order."""
    objs = list(objs)
    assert len(objs) == len(models), f"{len(objs)} parts"
    key = lambda m: tuple(float(x) for p in m for x in p)
    return [(o, m) for o, m in zip(sorted(objs, key=lambda o: tuple(np.array(o).ravel())), sorted(models, key=key))]


def box_histories(ctx, start, depth):
    frontier = [()]
    seen = set()
    n = 0
    for level in range(depth + 1):
        nxt = []
        for h in frontier:
            with ctx.at(f"box {start} history {h}"):
                o, m = box(start), start
                names, live = [], [(o, m)]
                for which, k in h:
                    o, m = live[which]
                    name, f = operations(o, m)[k]
                    names.append(name)
                    live = f()
                sig = f"box {[[str(x) for x in p] for p in start]}: {', '.join(names)}"
                ok = True
                for j, (o, m) in enumerate(live):
                    ctx.state((start, m))
                    ok &= observe(ctx, o, m, f"{sig}: result {j}")
                ctx.trace()
                if not ok or level == depth:
                    continue
                for j, (o, m) in enumerate(live):
                    k = (m, names[-1].split()[0] if names else "")
                    if k in seen:
                        continue
                    seen.add(k)
                    for i in range(len(operations(o, m))):
                        nxt.append(h + ((j, i),))
        frontier = nxt
    ctx.sample(sig)


def corners_task(ctx):
    """Corners of boxes of any dimension, given by any two opposite points."""
    for d in range(1, 6):
        for lo, hi in itertools.product(itertools.product((0.0, 1.0), repeat=d), itertools.product((0.0, 2.0), repeat=d)):
            a, b = np.array(lo), np.array(hi)
            sig = f"corners of {lo} {hi}"
            ctx.step()
            ctx.state((lo, hi))
            with ctx.at(sig):
                for _ in range(2):
                    got = sorted(map(tuple, get_aabb_corners_numpy(a, b).tolist()))
                    want = sorted(itertools.product(*zip(np.minimum(a, b).tolist(), np.maximum(a, b).tolist())))
                    ctx.expect(got == want, sig, lambda: f"{got}")
    ctx.sample(sig)


# ------------------------------------------------------------ geometry

def curves(ctx, tier, p):
    for U in list(shapes.open_knots(p, tier, 2)) + [u for n in (p + 1, p + 3) for u in shapes.unclamped_knots(p, n)]:
        n = len(U) - p - 1
        for wk in shapes.WEIGHTS:
            for kind in (0, 1):
                P, W = shapes.points(n, kind), shapes.weights(wk, n)
                sig = f"bbox of curve degree {p} U={[str(u) for u in U]} weights {wk} points {kind}"
                with ctx.at(sig):
                    c = shapes.curve(p, U, P, W)
                    bb = np.array(c.bbox())
                    A = shapes.arr(P)
                    ctx.state(sig)
                    ctx.expect(np.allclose(bb, [A.min(0), A.max(0)], atol=1e-12), sig, lambda: f"{bb.tolist()}")
                    out = np.full((2, 3), 9.0)
                    c.bbox(out)
                    ctx.expect((out == bb).all(), f"{sig} into an array", lambda: f"{out.tolist()}")
                    qs = ref.query_params(U, p, 3)
                    pts = np.array([[float(x) for x in ref.curve_point(U, p, P, W, t)] for t in qs])
                    ctx.step(len(qs))
                    ctx.expect((pts >= bb[0] - 1e-9).all() and (pts <= bb[1] + 1e-9).all(), f"{sig}: contains the curve", "")
                    # the box of samples: inside the box, spans the sampled points
                    e = np.array(curve_aabb_eager(c, cnt=5))
                    ts = np.linspace(*[float(x) for x in (U[p], U[-1 - p])], 5)
                    S = np.array([[float(x) for x in ref.curve_point(U, p, P, W, min(F(t), U[-1 - p]))] for t in ts])
                    ctx.expect(np.allclose(e, [S.min(0), S.max(0)], atol=1e-9), f"{sig}: curve_aabb_eager", lambda: f"{e.tolist()}")
    ctx.sample(sig)


def surfaces(ctx, p, q):
    for U in ((F(0),) * (p + 1) + (F(1),) * (p + 1), (F(-1),) * (p + 1) + (F(1, 3),) + (F(2),) * (p + 1), tuple(shapes.unclamped_knots(p, p + 2))[0]):
        for V in ((F(0),) * (q + 1) + (F(1),) + (F(2),) * (q + 1), tuple(shapes.unclamped_knots(q, q + 1))[1]):
            nu, nv = len(U) - p - 1, len(V) - q - 1
            for wk in ("one", "mix", "corner"):
                Hg = hom(grid(nu, nv), wgrid(wk, nu, nv))
                sig = f"bbox of surface degree {p},{q} U={[str(u) for u in U]} V={[str(u) for u in V]} weights {wk}"
                with ctx.at(sig):
                    s = NURBSSurface(np.array([[[float(x) for x in h] for h in r] for r in Hg]), (p, q), shapes.knots(U), shapes.knots(V))
                    bb = np.array(s.bbox())
                    C = np.array([[float(x / h[3]) for x in h[:3]] for r in Hg for h in r])
                    ctx.state(sig)
                    ctx.expect(np.allclose(bb, [C.min(0), C.max(0)], atol=1e-12), sig, lambda: f"{bb.tolist()}")
                    for u in ref.query_params(U, p, 2):
                        for v in ref.query_params(V, q, 2):
                            h = ref.surface_hom(U, V, p, q, Hg, u, v)
                            x = np.array([float(a / h[3]) for a in h[:3]])
                            ctx.step()
                            ctx.expect((x >= bb[0] - 1e-9).all() and (x <= bb[1] + 1e-9).all(), f"{sig}: contains the point at {u},{v}", "")
    ctx.sample(sig)


def tasks(tier):
    out = []
    for d in (1, 2, 3, 4):
        for lead in range((3 if d < 4 else 2) ** d):
            if tier != "quick" or d != 3 or lead % 3 == 0:
                out.append((f"points {d} {lead}", points_task, (d, lead)))
    out.append(("pairs 1", pairs_task, (3, 1, 0, 1)))
    out.append(("pairs 2", pairs_task, (4, 2, 0, 1)))
    out.append(("pairs 4", pairs_task, (2, 4, 0, 1)))
    out += [(f"pairs 3 {k}", pairs_task, (3, 3, k, 8)) for k in range(8)]
    out.append(("object pairs", objects_pairs, ()))
    out.append(("corners", corners_task, ()))
    for k in range(16):
        for scale in (1.0,) if tier == "quick" else (1.0, 2.0**-20, 2.0**30):
            out.append((f"rays {k} {scale}", rays, (k, 16, scale)))
    if tier == "quick":
        out += [(f"rays {k} {s}", rays, (k, 64, s)) for k, s in ((5, 2.0**-20), (11, 2.0**30))]
    for i, m in enumerate(OTHER):
        out.append((f"box histories {i}", box_histories, (m, 2 if tier == "quick" else 3)))
    out += [(f"curves {p}", curves, (tier, p)) for p in (1, 2, 3)]
    out += [(f"surfaces {p} {q}", surfaces, (p, q)) for p, q in itertools.product((1, 2, 3), repeat=2)]
    return out
