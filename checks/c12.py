"""C12: bounding volume hierarchies: every query answers exactly what brute force over the objects answers."""
import itertools
from fractions import Fraction as F

import numpy as np

from mmcore.geom import bvh as B
from mmcore.geom.bvh import (
    BoundingBox,
    Object3D,
    Ray,
    Segment,
    Triangle,
    build_bvh,
    build_bvh_from_mesh,
    build_bvh_from_triangles,
    bvh_ray_intersection,
    bvh_segment_intersection,
    bvh_segment_intersection_recursive,
    bvh_triangle_segment_intersection_one,
    contains_point,
    find_closest,
    intersect_bvh,
    intersect_bvh_objects,
    mesh_bvh_ray_intersection,
    mesh_bvh_segment_intersection_one,
    traverse_all_bbox,
    traverse_all_objects_in_node,
    traverse_bvh,
    traverse_leafs,
)
from mmcore.numeric.algorithms.moller import (
    intersect_triangle_segment,
    intersect_triangles_segment,
    intersect_triangles_segment_one,
    intersect_triangles_segment_parallel,
)

PID = "C12"
ASSUMPTIONS = [
    "boxes and triangles are closed; a segment parallel to a triangle's plane does not cross it; triangles are not degenerate",
    "coordinates are of unit scale: the triangle test uses an absolute tolerance of 1e-8",
]
BOUNDS = {
    "trees": "every multiset of up to 4 (quick) or 6 of 8 boxes (nested, touching, flat, point, equal centres), in every order up to 3, with 1..3 objects per leaf",
    "queries": "27 grid points, 8 boxes, 24 segments and 16 rays against every tree; every pair of trees of up to 3 boxes",
    "meshes": "every set of up to 3 (quick) or 4 of 14 triangles (axis-aligned, slanted, sharing edges, coplanar) with 1..3 triangles per leaf, every segment of a family of 150 and every ray of a family of 60",
    "kernels": "every triangle with vertices in {0,1}^3 and 10 larger ones x every directed segment with end points in {0,1,2}^3 and {-1/2, 1/2, 3/2}^3",
}

BOXES = [
    ((0, 0, 0), (1, 1, 1)),
    ((1, 0, 0), (2, 1, 1)),  # touches the first one
    ((0, 0, 0), (2, 2, 2)),  # contains both
    ((0.5, 0.5, 0.5), (0.5, 0.5, 0.5)),  # a point
    ((0, 2, 0), (2, 2, 1)),  # flat
    ((-2, -1, 3), (-1, 0, 4)),
    ((0.5, -3, 0.5), (1.5, 5, 0.5)),  # flat and long
    ((0.25, 0.25, 0.25), (0.75, 0.75, 0.75)),  # centred as the first and the fourth
]


def make(kinds):
    return [Object3D(BoundingBox(*BOXES[k]), value=i) for i, k in enumerate(kinds)]


def members(obj):
    return list(obj.objects) if hasattr(obj, "objects") else [obj]


def leaves(node):
    if node.object is not None:
        return [node]
    return leaves(node.left) + leaves(node.right)


def nodes(node):
    yield node
    if node.object is None:
        yield from nodes(node.left)
        yield from nodes(node.right)


def ids(xs):
    return sorted(id(x) for x in xs)


def lo_hi(boxes):
    return np.min([b[0] for b in boxes], 0) * 1.0, np.max([b[1] for b in boxes], 0) * 1.0


POINTS = [np.array(p, dtype=float) for p in itertools.product((0.5, 1.0, 2.5), (0.0, 0.5, 3.0), (-1.0, 0.5, 1.0))]
FAR = [np.array(p, dtype=float) for p in ((0.625, 0.5, 0.5), (-1.5, -0.5, 3.5), (1.0, 2.0, 0.25), (9.0, 0.5, 0.5), (0.5, 4.0, 0.25))]


def signed(b, p):
    d = np.maximum(b[0] - p, p - b[1])
    return float(np.linalg.norm(np.maximum(d, 0))) if (d > 0).any() else float(d.max())


def slab(b, s, d, t0, t1):
    """Exact closed parameter interval of s + t d in the box b, in [t0, t1]; None if empty."""
    lo, hi = t0, t1
    for k in range(3):
        a, c, x, y = F(float(b[0][k])), F(float(b[1][k])), F(float(s[k])), F(float(d[k]))
        if y == 0:
            if not a <= x <= c:
                return None
            continue
        u, v = sorted(((a - x) / y, (c - x) / y))
        lo, hi = max(lo, u), hi if hi is not None and hi <= v else v
    return (lo, hi) if lo <= hi else None


SEGS = [
    (s, tuple(a + b for a, b in zip(s, d)))
    for s, d in itertools.product(
        ((-1.0, 0.5, 0.5), (0.5, -4.0, 0.5), (0.5, 0.5, 0.25), (-1.5, -0.5, 3.5)),
        ((3.0, 0.0, 0.0), (0.0, 3.0, 0.0), (2.0, 1.0, -3.0), (1.0, 2.0, 0.0), (0.0, 0.0, -2.0), (6.0, 6.0, 6.0)),
    )
]
RAYS = [(s, d) for s in ((-1.0, 0.5, 0.5), (0.5, 4.0, 0.5), (0.5, 0.5, 0.25), (-1.5, -0.5, 3.5)) for d in ((1.0, 0.0, 0.0), (0.0, -1.0, 0.0), (0.0, 0.0, -1.0), (0.0, 0.0, 1.0))]


def trees(ctx, part, parts, size, leaf):
    seqs = list(itertools.combinations_with_replacement(range(8), size)) if size > 3 else list(itertools.product(range(8), repeat=size))
    for n, kinds in enumerate(seqs):
        if n % parts != part:
            continue
        sig = f"tree of boxes {kinds}, {leaf} per leaf"
        ctx.state((kinds, leaf))
        with ctx.at(sig):
            objs = make(kinds)
            given = list(objs)
            root = build_bvh(given, leaf)
            ctx.expect(len(given) == len(objs) and all(a is b for a, b in zip(given, objs)), f"{sig}: the caller's list is unchanged", lambda: f"{[o.value for o in given]}")
            queries(ctx, sig, root, objs, [BOXES[k] for k in kinds], leaf)
    ctx.sample(sig)


def queries(ctx, sig, root, objs, boxes, leaf):
    # structure: every object in exactly one leaf, boxes tight on their content
    lv = leaves(root)
    inside = [members(l.object) for l in lv]
    if not ctx.expect(ids(sum(inside, [])) == ids(objs) and all(1 <= len(m) <= leaf for m in inside), f"{sig}: every object is in one leaf", lambda: f"{[[o.value for o in m] for m in inside]}"):
        return
    for node in nodes(root):
        content = sum((members(l.object) for l in leaves(node)), [])
        lo, hi = lo_hi([boxes[o.value] for o in content])
        ctx.expect((np.array(node.bounding_box) == [lo, hi]).all(), f"{sig}: node box", lambda: f"{node.bounding_box} expected {lo} {hi}")
    got, all_ = [], []
    traverse_leafs(root, got)
    traverse_all_objects_in_node(root, all_)
    ctx.expect(ids(got) == ids(l.object for l in lv) == ids(all_), f"{sig}: traverse_leafs", "")
    bb = []
    traverse_all_bbox(root, bb)
    ctx.expect(sorted(map(repr, bb)) == sorted(repr([tuple(n.bounding_box.min_point), tuple(n.bounding_box.max_point)]) for n in nodes(root)), f"{sig}: traverse_all_bbox", "")
    lb = [lo_hi([boxes[o.value] for o in m]) for m in inside]
    for q in BOXES:
        ctx.step()
        got = []
        traverse_bvh(root, BoundingBox(*q), got)
        want = [l.object for l, b in zip(lv, lb) if (b[0] <= q[1]).all() and (b[1] >= q[0]).all()]
        if ids(got) != ids(want):
            ctx.fail(f"{sig}: box query {q}", f"{len(got)} leaves, expected {len(want)}")
    for p in POINTS + FAR:
        ctx.step()
        want = [l.object for l, b in zip(lv, lb) if (b[0] <= p).all() and (p <= b[1]).all()]
        got = contains_point(root, p)
        if ids(got) != ids(want):
            ctx.fail(f"{sig}: point query {p.tolist()}", f"{len(got)} leaves, expected {len(want)}")
        sd = [signed(b, p) for b in lb]
        best = min(sd)
        got, d = find_closest(root, p)
        want = [l.object for l, s in zip(lv, sd) if s == best]
        if abs(d - best) > 1e-12 or ids(got) != ids(want):
            ctx.fail(f"{sig}: closest to {p.tolist()}", f"{len(got)} at {d}, expected {len(want)} at {best}")
        if len(lv) > 1:
            r = find_closest(root, p, breadth=False)
            cand = [(s, l.object) for l, s in zip(lv, sd) if s <= 0]
            if not cand:
                if r is not None:
                    ctx.fail(f"{sig}: vicinity of {p.tolist()}", f"{r}, expected None")
            else:
                m = min(s for s, _ in cand)
                if r is None or abs(r[1] - m) > 1e-12 or ids(r[0]) != ids(o for s, o in cand if s == m):
                    ctx.fail(f"{sig}: vicinity of {p.tolist()}", f"{r}, expected {m}")
    for a, b in SEGS:
        ctx.step()
        seg = np.array([a, b])
        hits = [slab(x, seg[0], seg[1] - seg[0], F(0), F(1)) for x in lb]
        want = [l.object for l, h in zip(lv, hits) if h is not None]
        got = bvh_segment_intersection(root, seg.copy())
        if ids(o for o, _ in got) != ids(want) or not all((np.array(s) == seg).all() for _, s in got):
            ctx.fail(f"{sig}: segment {a} {b}", f"{len(got)} leaves, expected {len(want)}")
        got = bvh_segment_intersection_recursive(root, Segment(seg[0], seg[1]))
        if ids(n.object for n, _ in got) != ids(want):
            ctx.fail(f"{sig}: recursive segment {a} {b}", f"{len(got)} leaves, expected {len(want)}")
        else:
            w = {id(l): h for l, h in zip(lv, hits)}
            for n, s in got:
                ends = [seg[0] + (seg[1] - seg[0]) * float(t) for t in w[id(n)]]
                if np.abs(np.array([s.start, s.end]) - ends).max() > 1e-9:
                    ctx.fail(f"{sig}: recursive segment {a} {b}: clipped part", f"{s.start} {s.end} expected {ends}")
    for s, d in RAYS:
        ctx.step()
        want = [l.object for l, b in zip(lv, lb) if slab(b, s, d, F(0), None) is not None]
        got = bvh_ray_intersection(root, Ray(np.array(s), np.array(d) * 2.5))
        if ids(o for o, _ in got) != ids(want):
            ctx.fail(f"{sig}: ray {s} {d}", f"{len(got)} leaves, expected {len(want)}")
    ctx.trace()


def tree_pairs(ctx, part, parts):
    """All pairs of trees: the intersecting pairs of leaves, and their common boxes."""
    sets = [k for n in (1, 2, 3) for k in itertools.combinations(range(8), n)]
    built = {}
    for k in sets:
        for leaf in (1, 2):
            with ctx.at(f"tree of boxes {k}, {leaf} per leaf"):
                r = build_bvh(make(k), leaf)
                built[k, leaf] = (r, [(l, lo_hi([BOXES[k[o.value]] for o in members(l.object)])) for l in leaves(r)])
    for i, (ka, a) in enumerate(built.items()):
        if i % parts != part:
            continue
        for kb, b in built.items():
            sig = f"trees {ka} and {kb}"
            ctx.step()
            with ctx.at(sig):
                want = [(x, y) for x in a[1] for y in b[1] if (x[1][0] <= y[1][1]).all() and (x[1][1] >= y[1][0]).all()]
                got = intersect_bvh_objects(a[0], b[0])
                if sorted((id(x), id(y)) for x, y in got) != sorted((id(x[0]), id(y[0])) for x, y in want):
                    ctx.fail(sig, f"{len(got)} pairs of leaves, expected {len(want)}")
                common = sorted(map(repr, (np.array(x).tolist() for x in intersect_bvh(a[0], b[0]))))
                if common != sorted(repr([np.maximum(x[1][0], y[1][0]).tolist(), np.minimum(x[1][1], y[1][1]).tolist()]) for x, y in want):
                    ctx.fail(f"{sig}: boxes", f"{common}")
        ctx.state((ka,))
        ctx.trace()
    ctx.sample(sig)


# ------------------------------------------------------------ triangles

def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def ints(pts):
    return [tuple(int(round(4 * c)) for c in p) for p in pts]


def hit(tri, s, d, bounded=True):
    """Exact crossing parameter of s + t d (multiples of 1/4) with the closed triangle, or None."""
    (a, b, c), (s, d) = ints(tri), ints((s, d))
    e1, e2 = sub(b, a), sub(c, a)
    h = cross(d, e2)
    det = dot(e1, h)
    if det == 0:
        return None
    sg = 1 if det > 0 else -1
    det *= sg
    r = sub(s, a)
    u = sg * dot(r, h)
    if u < 0 or u > det:
        return None
    q = cross(r, e1)
    v = sg * dot(d, q)
    if v < 0 or u + v > det:
        return None
    t = sg * dot(e2, q)
    if t < 0 or bounded and t > det:
        return None
    return F(t, det)


UNIT = [t for t in itertools.combinations(list(itertools.product((0, 1), repeat=3)), 3)]
LARGE = [
    ((0, 0, 0), (2, 0, 0), (0, 2, 0)),
    ((0, 0, 1), (0, 2, 1), (2, 0, 1)),
    ((1, 0, 0), (1, 2, 0), (1, 0, 2)),
    ((0, 1, 0), (2, 1, 0), (2, 1, 2)),
    ((0, 0, 0), (2, 1, 0), (1, 2, 2)),
    ((2, 0, 0), (0, 2, 0), (0, 0, 2)),
    ((2, 2, 2), (0, 0, 1), (1, 0, 0)),
    ((-1, 0, 0.5), (2, 0.5, 0), (0, 1.5, 2)),
    ((0.5, -1, 0), (0.5, 2, 0), (0.5, 0, 2)),
    ((3, 3, 0), (-3, 3, 1), (0, -3, 1)),
]
GRIDS = [list(itertools.product((0.0, 1.0, 2.0), repeat=3)), list(itertools.product((-0.5, 0.5, 1.5), repeat=3))]


def kernels(ctx, part, parts):
    tris = [t for t in UNIT if any(cross(sub(t[1], t[0]), sub(t[2], t[0])))] + LARGE
    T = np.array(tris, dtype=float)
    V = [np.ascontiguousarray(T[:, k]) for k in range(3)]
    pairs = [(a, b) for g in GRIDS for a, b in itertools.permutations(g, 2)]
    for n, (a, b) in enumerate(pairs):
        if n % parts != part:
            continue
        S, E = np.array(a), np.array(b)
        sig = f"segment {a} {b}"
        ctx.state((a, b))
        ctx.step(len(tris))
        with ctx.at(sig):
            want = [hit(t, a, sub(b, a)) for t in tris]
            at = [None if t is None else S + (E - S) * float(t) for t in want]
            for name, f in (("all", intersect_triangles_segment), ("parallel", intersect_triangles_segment_parallel)):
                outs, flags = np.full((len(tris), 3), 9.0), np.full(len(tris), 77, dtype=np.intc)
                f(*V, S, E, outs, flags)
                for k, w in enumerate(at):
                    if (flags[k] != 0) != (w is not None) or w is not None and np.abs(outs[k] - w).max() > 1e-9:
                        ctx.fail(f"{sig} and triangle {tris[k]} ({name})", f"flag {flags[k]} {outs[k]} expected {w}")
            for k, w in enumerate(at):
                if k % 7 != n % 7:
                    continue
                out = np.full(3, 9.0)
                flag = intersect_triangle_segment(T[k, 0], T[k, 1], T[k, 2], S, E, out)
                if bool(flag) != (w is not None) or w is not None and np.abs(out - w).max() > 1e-9:
                    ctx.fail(f"{sig} and triangle {tris[k]}", f"flag {flag} {out} expected {w}")
            for k in range(n % 5, len(tris), 5):
                out = np.full(3, 9.0)
                p, flag = intersect_triangles_segment_one(V[0][k : k + 4], V[1][k : k + 4], V[2][k : k + 4], S, E, out)
                cand = [w for w in at[k : k + 4] if w is not None]
                if bool(flag) != bool(cand) or cand and (np.abs(out - cand[0]).max() > 1e-9 and all(np.abs(out - w).max() > 1e-9 for w in cand)):
                    ctx.fail(f"{sig} and triangles {tris[k:k+4]} (first)", f"flag {flag} {out} expected one of {cand}")
        ctx.trace()
    ctx.sample(sig)


MESH = LARGE + [
    ((0, 2, 0), (2, 2, 0), (2, 0, 0)),  # completes the first one to a square
    ((0, 0, 0), (1, 0, 0), (0, 1, 0)),  # coplanar overlap
    ((0, 0, 2), (2, 0, 2), (0, 2, 2)),
    ((2, 2, 0), (2, 2, 2), (2, 0, 0)),
]
MSEGS = [
    (s, tuple(a + b for a, b in zip(s, d)))
    for s, d in itertools.product(
        ((0.25, 0.5, -1.0), (0.0, 0.0, 0.0), (1.0, 1.0, 1.0), (-1.0, 0.5, 0.25), (0.5, -1.0, 0.5), (1.5, 0.25, 3.0)),
        [d for d in itertools.product((0.0, 1.0, -2.0), (0.0, 3.0, -1.0), (0.0, 2.0, -4.0)) if any(d)][:25],
    )
]
MRAYS = [(s, d) for s in ((0.25, 0.5, -1.0), (0.0, 0.0, 0.0), (1.0, 1.0, 1.0), (-1.0, 0.5, 0.25), (0.5, -1.0, 0.5), (1.5, 0.25, 3.0)) for d in ((0.0, 0.0, 1.0), (0.0, 0.0, -1.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (1.0, 1.0, 1.0), (1.0, 2.0, 0.0), (-1.0, 1.0, -2.0), (2.0, -1.0, 3.0), (-1.0, 0.0, 0.0), (0.0, -1.0, 2.0))]


def meshes(ctx, part, parts, sizes, leaf):
    sets = [k for n in sizes for k in itertools.combinations(range(len(MESH)), n)]
    seg_hits = {(k, j): hit(MESH[k], a, sub(b, a)) for k in range(len(MESH)) for j, (a, b) in enumerate(MSEGS)}
    ray_hits = {(k, j): hit(MESH[k], s, d, False) for k in range(len(MESH)) for j, (s, d) in enumerate(MRAYS)}
    for n, ks in enumerate(sets):
        if n % parts != part:
            continue
        sig = f"mesh of triangles {ks}, {leaf} per leaf"
        ctx.state((ks, leaf))
        with ctx.at(sig):
            T = np.array([MESH[k] for k in ks], dtype=float)
            if n % 2:
                root = build_bvh_from_triangles([Triangle(t.copy()) for t in T], leaf)
            else:
                root = build_bvh_from_mesh(T.reshape(-1, 3), np.arange(3 * len(ks)).reshape(-1, 3), leaf)
            inside = [t for l in leaves(root) for t in members(l.object)]
            num = {}
            for t in inside:
                m = [i for i in range(len(ks)) if np.array_equal(np.array(t.pts), T[i])]
                num[id(t)] = m[0] if len(m) == 1 else None
            if not ctx.expect(sorted(num.values(), key=repr) == list(range(len(ks))), f"{sig}: triangles", lambda: f"{num}"):
                continue
            for j, (a, b) in enumerate(MSEGS):
                ctx.step()
                S, E = np.array(a), np.array(b)
                want = {i: S + (E - S) * float(seg_hits[k, j]) for i, k in enumerate(ks) if seg_hits[k, j] is not None}
                ok, p, o = bvh_triangle_segment_intersection_one(root, np.array([S, E]))
                r = mesh_bvh_segment_intersection_one(root, np.array([S, E]))
                good = bool(ok) == bool(want) == (r is not None)
                if good and want:
                    for p, o in ((p, o), r):
                        good &= any(i in want and np.abs(want[i] - p).max() < 1e-9 for i in (num[id(t)] for t in members(o)))
                if not good:
                    ctx.fail(f"{sig}: segment {a} {b}", f"{ok} {p} {r} expected {want}")
            for j, (s, d) in enumerate(MRAYS):
                ctx.step()
                S, D = np.array(s), np.array(d)
                want = {i: S + D * float(ray_hits[k, j]) for i, k in enumerate(ks) if ray_hits[k, j] is not None}
                got = mesh_bvh_ray_intersection(root, Ray(S, D))
                good = sorted(num.get(id(t), -1) for _, t, _ in got) == sorted(want)
                if good:
                    good = all(np.abs(want[num[id(t)]] - p).max() < 1e-8 and abs(x - np.linalg.norm(want[num[id(t)]] - S)) < 1e-8 for p, t, x in got)
                    dist = [x for _, _, x in got]
                    good &= dist == sorted(dist)
                if not good:
                    ctx.fail(f"{sig}: ray {s} {d}", f"{[(p.tolist(), num.get(id(t)), x) for p, t, x in got]} expected {want}")
        ctx.trace()
    ctx.sample(sig)


def tasks(tier):
    out = []
    for leaf in (1, 2, 3):
        for size in (1, 2, 3):
            parts = 8 if size == 3 else 1
            out += [(f"trees {size} {leaf} {k}", trees, (k, parts, size, leaf)) for k in range(parts)]
        for size in (4,) if tier == "quick" else (4, 5, 6):
            parts = 4 if size < 6 else 12
            out += [(f"trees {size} {leaf} {k}", trees, (k, parts, size, leaf)) for k in range(parts)]
    out += [(f"tree pairs {k}", tree_pairs, (k, 8)) for k in range(8)]
    out += [(f"kernels {k}", kernels, (k, 8)) for k in range(8)]
    for leaf in (1, 2, 3):
        for sizes in ((1, 2), (3,)) if tier == "quick" else ((1, 2), (3,), (4,)):
            parts = 4 if len(sizes) == 2 else 8
            out += [(f"meshes {sizes} {leaf} {k}", meshes, (k, parts, sizes, leaf)) for k in range(parts)]
    return out
