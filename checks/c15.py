"""C15: the k-d tree and the R tree answer every query as a plain list of the stored items would."""
import itertools

from mmcore.ds.bkdtree import BalancedKDTree
from mmcore.ds.tree.rtree import Box, Rectangle, RStarTree

PID = "C15"
ASSUMPTIONS = [
    "points are tuples of one dimension; when several stored points are equally near, any of them may be returned",
    "R tree: max_children >= 2 * min_children; boxes of one kind in a tree",
]
BOUNDS = {
    "k-d build": "every sequence of up to 4 points of a 3 x 3 grid, up to 6 one-dimensional points with repeats, and every order of 6 points of general position; neighbours queried at every grid and half-grid point",
    "k-d histories": "every history of up to 5 insertions and deletions over 5 points with equal coordinates (duplicates included), from empty and from built trees, state by state; each followed by all neighbour queries (k = 0..n + 1)",
    "R tree": "every insertion order of up to 6 of 8 rectangles / boxes (nested, touching, flat, repeated), node sizes 2/1, 3/1, 4/2, then long sequences of 60 boxes in 24 orders; queried with every box of the grid",
    "observed": "sizes stored in every node, the ordering of the split planes, balance threshold, the points stored, all nearest and k nearest queries; for R trees the bounds of every node, the common depth of the leaves and the exact result sets",
}


def d2(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def stored(node):
    return [] if node is None else [node.point] + stored(node.left) + stored(node.right)


def shape(node):
    return None if node is None else (node.point, node.axis, shape(node.left), shape(node.right))


def check_kd(ctx, t, m, queries, sig, ks=True):
    ctx.step()
    pts = stored(t.root)
    if sorted(pts) != sorted(m):
        ctx.fail(f"{sig}: points", f"{sorted(pts)} expected {sorted(m)}")
        return
    stack = [t.root] if t.root else []
    while stack:
        n = stack.pop()
        l, r = stored(n.left), stored(n.right)
        if n.size != 1 + len(l) + len(r):
            ctx.fail(f"{sig}: size", f"node {n.point}: {n.size} stored, {1 + len(l) + len(r)} points")
        if any(p[n.axis] > n.point[n.axis] for p in l) or any(p[n.axis] < n.point[n.axis] for p in r):
            ctx.fail(f"{sig}: order", f"node {n.point} axis {n.axis}: left {l} right {r}")
        stack += [x for x in (n.left, n.right) if x]
    for q in queries:
        ctx.step()
        got = t.nearest_neighbor(q)
        ds = sorted(d2(p, q) for p in m)
        if not m:
            if got is not None or t.k_nearest_neighbors(q, 2) != []:
                ctx.fail(f"{sig}: nearest to {q}", f"{got} of no points")
            continue
        if got not in m or d2(got, q) != ds[0]:
            ctx.fail(f"{sig}: nearest to {q}", f"{got} at {None if got is None else d2(got, q)}, expected distance {ds[0]}")
        if ks:
            for k in range(len(m) + 2):
                ns = t.k_nearest_neighbors(q, k)
                rest = list(m)
                ok = True
                for p in ns:
                    if p in rest:
                        rest.remove(p)
                    else:
                        ok = False
                if not ok or [d2(p, q) for p in ns] != ds[:k]:
                    ctx.fail(f"{sig}: {k} nearest to {q}", f"{ns} expected distances {ds[:k]}")


G2 = [(x, y) for x in range(3) for y in range(3)]
Q2 = [(x / 2, y / 2) for x in range(-1, 6) for y in range(-1, 6)]


def build2(ctx, lead, n):
    for rest in itertools.product(G2, repeat=n - 1):
        pts = [G2[lead]] + list(rest)
        sig = f"k-d tree of {pts}"
        with ctx.at(sig):
            given = list(pts)
            t = BalancedKDTree(given)
            ctx.expect(given == pts, f"{sig}: the list given is not reordered", lambda: f"{given}")
            check_kd(ctx, t, pts, Q2[:: 1 if n < 4 else 5], sig, n < 4)
        ctx.state((lead, rest))
    ctx.trace()
    ctx.sample(sig)


def build1(ctx, n):
    for pts in itertools.product([(0,), (1,), (2,), (5,)], repeat=n):
        sig = f"k-d tree of {pts}"
        with ctx.at(sig):
            check_kd(ctx, BalancedKDTree(list(pts)), list(pts), [(x / 2,) for x in range(-1, 12, 2)], sig)
        ctx.state(pts)
    ctx.trace()
    ctx.sample(sig)


GEN = [(1, 7, 2), (3, 2, 9), (6, 6, 6), (8, 1, 4), (2, 9, 0), (7, 3, 5), (0, 4, 8)]


def orders3(ctx, lead, n):
    base = GEN[:n]
    for perm in itertools.permutations(range(n)):
        if perm[0] != lead:
            continue
        pts = [base[i] for i in perm]
        sig = f"insert {pts}"
        with ctx.at(sig):
            t = BalancedKDTree()
            for p in pts:
                t.insert(p)
            qs = [tuple(c + e for c, e in zip(p, (0.5, -1, 0.25))) for p in base]
            check_kd(ctx, t, pts, qs, sig, perm[1] < perm[2])
            if perm[1] > perm[2]:
                m = list(pts)
                for p in pts[: n // 2 + 1]:
                    t.delete(p)
                    m.remove(p)
                check_kd(ctx, t, m, qs, f"{sig} and delete {pts[: n // 2 + 1]}", False)
        ctx.state(perm)
    ctx.trace()
    ctx.sample(sig)


def kd_histories(ctx, start, points, depth):
    ops = [("insert", p) for p in points] + [("delete", p) for p in points] + [("delete", tuple(9 for _ in points[0]))]
    qs = [tuple(c + e for c in p) for p in points for e in (0, 0.4)] + [tuple(-3 for _ in points[0])]
    frontier = [()]
    seen = set()
    for level in range(depth + 1):
        nxt = []
        for h in frontier:
            sig = f"k-d tree of {list(start)} after {list(h)}"
            with ctx.at(sig):
                t, m = BalancedKDTree(list(start)), list(start)
                for o, p in h:
                    ctx.step()
                    if o == "insert":
                        t.insert(p)
                        m.append(p)
                    else:
                        t.delete(p)
                        if p in m:
                            m.remove(p)
                n = len(ctx.failures) if hasattr(ctx, "failures") else 0
                s = shape(t.root)
                ctx.trace()
                if s not in seen:
                    seen.add(s)
                    ctx.state(s)
                    check_kd(ctx, t, m, qs, sig)
                    if level < depth:
                        nxt += [h + (o,) for o in ops]
                elif sorted(stored(t.root)) != sorted(m):
                    ctx.fail(f"{sig}: points", f"{sorted(stored(t.root))} expected {sorted(m)}")
        frontier = nxt
    ctx.sample(sig)


def refused(ctx):
    for bad in ([(1, 2), (1,)], [(1,), (1, 2)]):
        with ctx.at(f"points {bad}"):
            try:
                BalancedKDTree(bad)
                ctx.fail(f"points {bad}", "accepted")
            except ValueError:
                pass
    for op in ("insert", "delete"):
        with ctx.at(f"{op} of another dimension"):
            t = BalancedKDTree([(1, 2)])
            try:
                getattr(t, op)((1, 2, 3))
                ctx.fail(f"{op} of another dimension", "accepted")
            except ValueError:
                pass
    ctx.state("refused")
    ctx.sample("dimension mismatches")


# ------------------------------------------------------------ R tree

def rects():
    return [(0, 0, 1, 1), (2, 2, 4, 3), (1, 1, 3, 2), (0, 3, 0, 4), (4, 0, 4, 0), (0, 0, 4, 4), (2, 2, 4, 3), (3, 4, 4, 4)]


def make(kind, c):
    return Rectangle(*c) if kind == "rect" else Box(c[0], c[1], (c[0] + c[1]) % 3, c[2], c[3], (c[0] + c[1]) % 3 + (c[2] - c[0]))


def coords(r):
    return (r.minx, r.miny, getattr(r, "minz", 0), r.maxx, r.maxy, getattr(r, "maxz", 0))


def meets(a, b):
    a, b = coords(a), coords(b)
    return all(a[k] <= b[k + 3] and b[k] <= a[k + 3] for k in range(3))


def check_r(ctx, t, items, queries, sig):
    ctx.step()
    got = []
    bad = []
    depths = set()

    def walk(n, top, depth=0):
        if not n.children and not top:
            bad.append("empty node")
        if len(n.children) > t.max_children:
            bad.append(f"{len(n.children)} children in a node of {t.max_children}")
        below = []
        if n.is_leaf:
            depths.add(depth)
        for c in n.children:
            x = [c.mbr] if n.is_leaf else walk(c, False, depth + 1)
            if not n.is_leaf:
                m = coords(c.mbr)
                for r in x:
                    r = coords(r)
                    if any(r[k] < m[k] or r[k + 3] > m[k + 3] for k in range(3)):
                        bad.append(f"{r} outside its node {m}")
            below += x
        return below

    got = walk(t.root, True)
    if sorted(map(id, got)) != sorted(map(id, items)):
        bad.append(f"holds {sorted(map(coords, got))}")
    if len(depths) > 1:
        bad.append(f"leaves at depths {sorted(depths)}")
    if bad:
        ctx.fail(f"{sig}: structure", "; ".join(bad[:3]))
    for q in queries:
        ctx.step()
        res = t.search(q)
        want = [r for r in items if meets(r, q)]
        if sorted(map(id, res)) != sorted(map(id, want)):
            ctx.fail(f"{sig}: search {coords(q)}", f"{sorted(map(coords, res))} expected {sorted(map(coords, want))}")


def queries(kind):
    iv = [(a, b) for a in (-1, 0, 1, 2, 3, 4, 5) for b in (a, a + 1)]
    out = []
    for (a, b), (c, d) in itertools.product(iv, repeat=2):
        if kind == "rect":
            out.append(Rectangle(a, c, b, d))
        else:
            out += [Box(a, c, 0, b, d, 1), Box(a, c, 2, b, d, 4)]
    return out[:: 3]


def rtree(ctx, kind, sizes, lead):
    qs = queries(kind)
    items = rects()
    for n in range(1, 7):
        for perm in itertools.permutations(range(len(items)), n):
            if perm[0] != lead or (n > 4 and any(perm[i] > perm[i + 2] for i in range(n - 2))):
                continue
            sig = f"R tree {sizes} of {kind} {[items[i] for i in perm]}"
            with ctx.at(sig):
                t = RStarTree(*sizes)
                rs = [make(kind, items[i]) for i in perm]
                was = [coords(r) for r in rs]
                for r in rs:
                    t.insert(r)
                check_r(ctx, t, rs, qs[(lead + n) % 3 :: 3 if n > 3 else 1], sig)
                ctx.expect([coords(r) for r in rs] == was, f"{sig}: the rectangles are unchanged", "")
            ctx.state((sizes, perm))
        ctx.trace()
    ctx.sample(sig)


def rtree_long(ctx, kind, sizes, count):
    qs = queries(kind)
    base = [((7 * i) % 11, (5 * i) % 13, (7 * i) % 11 + i % 4, (5 * i) % 13 + i % 3) for i in range(count)]
    big = [make(kind, (a, b, a + 3, b + 2)) for a in range(-2, 14, 2) for b in range(-2, 16, 2)]
    for mult in (1, 7, 11, 13, 17, 23, 29, 31, 37, 41, 43, 47):
        for sign in (1, -1):
            order = [(i * mult * sign) % count for i in range(count)]
            if len(set(order)) != count:
                continue
            sig = f"R tree {sizes} of {count} {kind} in order {mult * sign}"
            with ctx.at(sig):
                t, rs = RStarTree(*sizes), []
                for k, i in enumerate(order):
                    r = make(kind, base[i])
                    t.insert(r)
                    rs.append(r)
                    if k % 6 == 5:
                        check_r(ctx, t, rs, (qs[::9] + big)[:: 2], f"{sig} after {k + 1}")
                check_r(ctx, t, rs, qs + big, sig)
            ctx.state((sizes, mult, sign))
            ctx.trace()
    ctx.sample(sig)


def boxes(ctx):
    """The box operations behind the tree."""
    cs = [(a, b, c, d) for a in range(3) for b in range(2) for c in range(a, 3) for d in range(b, 2)]
    for kind in ("rect", "box"):
        for p, q in itertools.product(cs, repeat=2):
            a, b = make(kind, p), make(kind, q)
            sig = f"{kind} {coords(a)} {coords(b)}"
            ctx.step()
            u = coords(a.union(b))
            ca, cb = coords(a), coords(b)
            want = tuple(map(min, ca[:3], cb[:3])) + tuple(map(max, ca[3:], cb[3:]))
            ctx.expect(bool(a.intersect(b)) == meets(a, b), f"{sig}: intersect", "")
            ctx.expect(u == want, f"{sig}: union", lambda: f"{u}")
            e = [y - x for x, y in zip(ca[:3], ca[3:])]
            area, per = (e[0] * e[1], 2 * (e[0] + e[1])) if kind == "rect" else (e[0] * e[1] * e[2], 2 * sum(e))
            ctx.expect(a.area() == area and a.perimeter() == per, f"{sig}: area", lambda: f"{a.area()} {a.perimeter()}")
            a.enlarge(b)
            ctx.expect(coords(a) == want and coords(b) == cb, f"{sig}: enlarge", lambda: f"{coords(a)}")
            ctx.state((kind, p, q))
    ctx.sample(sig)


def tasks(tier):
    out = [("refused", refused, ()), ("boxes", boxes, ())]
    out += [(f"build2 {n} {k}", build2, (k, n)) for n in (1, 2, 3, 4) for k in range(9)]
    out += [(f"build1 {n}", build1, (n,)) for n in range(1, 6 if tier == "quick" else 7)]
    out += [(f"orders3 {k}", orders3, (k, 6 if tier == "quick" else 7)) for k in range(6 if tier == "quick" else 7)]
    P = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 1)]
    D = 5 if tier == "quick" else 7
    for start in ((), ((1, 1), (1, 0), (1, 1)), ((0, 1), (1, 1), (2, 1), (0, 0), (1, 0)), ((2, 1), (2, 1), (2, 1)), ((0, 0), (0, 1), (0, 1), (1, 1))):
        out.append((f"histories {start}", kd_histories, (start, P if len(start) < 4 else P[:4], D - (len(start) > 2) - (len(start) > 4))))
    out.append(("histories 1d", kd_histories, ((), [(0,), (1,), (2,)], D)))
    out.append(("histories 3d", kd_histories, (((0, 0, 0), (0, 1, 1), (1, 0, 1)), [(0, 0, 0), (0, 1, 1), (1, 1, 1)], D - 1)))
    for kind, sizes in itertools.product(("rect", "box"), ((2, 1), (3, 1), (4, 2))):
        out += [(f"rtree {kind} {sizes} {k}", rtree, (kind, sizes, k)) for k in range(0, 8, 1 if tier != "quick" else 3)]
        out.append((f"rtree long {kind} {sizes}", rtree_long, (kind, sizes, 30 if tier == "quick" else 60)))
    return out
