"""C30: sweep line - intersections of segments, its skip list and its queue."""
import copy
import itertools
from collections import Counter
from fractions import Fraction as F

import numpy as np

from mmcore.numeric.algorithms.sweep_line import skiplist as SK
from mmcore.numeric.algorithms.sweep_line.point import Point
from mmcore.numeric.algorithms.sweep_line.priority_queue import PriorityQueue
from mmcore.numeric.algorithms.sweep_line.segment import Segment
from mmcore.numeric.algorithms.sweep_line.sortseq import SortSeq
from mmcore.numeric.algorithms.sweep_line.sweep_intersector import SweepIntersector, find_intersection, polygon_segments

PID = "C30"
ASSUMPTIONS = [
    "the heights of the nodes of the skip list are random: the runs are explored for every sequence of heights within the bounds, fed in place of the generator SkipList.distribution",
    "contacts are claimed where the coordinates represent them exactly (grids with power-of-two steps) or where nothing is near to touching",
    "a node given to insertAt, delItem and reverseItems belongs to the sequence and satisfies their documented preconditions",
]
BOUNDS = {
    "sequence": "every reachable state of a sequence over 3 (thorough 5) keys and 3 node heights, orders made by reversals included, every operation from every state",
    "queue": "every sequence of up to 7 (8) insertions and removals over 3 priorities against a sorted list",
    "segments": "every set of 2..3 (4) segments of the 3x3 grid, every order and direction of the pairs, 5 exact placements; every 2nd (every) set of 4 (every 3rd of 5); overlaps, common ends, touching ends and points common to several included",
    "heights": "every sequence of 7 (9) heights below 2 and of 5 (6) below 3, repeated, for 14 arrangements of 2..5 segments",
    "crowds": "all segments of bundles through one point, grids of up to 6 x 6 lines, fans, zigzags and polygons",
}
GRID = [(x, y) for x in range(3) for y in range(3)]
SEGMENTS = list(itertools.combinations(GRID, 2))


# ---------------------------------------------------------------- exact contacts
def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def on(a, b, p):
    return orient(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def contacts(s, t):
    """Points at which two segments meet: all if they are finitely many, else the ends of the common part."""
    (a, b), (c, d) = s, t
    den = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
    if den:
        u = F((c[0] - a[0]) * (d[1] - c[1]) - (c[1] - a[1]) * (d[0] - c[0])) / den
        v = F((c[0] - a[0]) * (b[1] - a[1]) - (c[1] - a[1]) * (b[0] - a[0])) / den
        if 0 <= u <= 1 and 0 <= v <= 1:
            return {(a[0] + u * (b[0] - a[0]), a[1] + u * (b[1] - a[1]))}
        return set()
    return {p for p in (a, b) if on(c, d, p)} | {p for p in (c, d) if on(a, b, p)}


_cache = {}


def contacts_cached(s, t):
    k = (s, t)
    if k not in _cache:
        _cache[k] = contacts(s, t)
    return _cache[k]


def expected(segs):
    out = {}
    for i, s in enumerate(segs):
        if s[0] == s[1]:
            continue
        found = set()
        for j, t in enumerate(segs):
            if j != i and t[0] != t[1]:
                found |= contacts_cached(s, t)
        found -= set(s)
        if found:
            out[s] = sorted(found, key=lambda p: (p[0] - s[0][0]) ** 2 + (p[1] - s[0][1]) ** 2)
    return out


def kinds(segs):
    c = set()
    for s, t in itertools.combinations(segs, 2):
        p = contacts_cached(s, t)
        if len(p) > 1:
            c.add("overlap")
        elif p:
            q = next(iter(p))
            c.add(("cross", "touch", "corner")[(q in s) + (q in t)])
    return "+".join(sorted(c)) or "apart"


# dyadic maps: exact in floating point
PLACES = {
    "grid": lambda p: p,
    "float": lambda p: (float(p[0]), float(p[1])),
    "sheared": lambda p: (p[0] * 0.5 + p[1] * 0.125 - 3.0, p[1] * 0.25 - p[0] * 0.125),
    "turned": lambda p: (0.0 - p[1] - p[0] * 2.0, p[0] * 1.0 - p[1] * 2.0),
    "large": lambda p: (p[0] * 1024.0 + 512.0, 4096.0 - p[1] * 256.0),
}


def compare(ctx, got, segs, place, sig, tol=1e-9):
    f = PLACES[place]
    want = expected(segs)
    images = {s: tuple((f(s[0]), f(s[1]))) for s in want}
    ok = set(got) == set(images.values())
    if ok:
        for s, pts in want.items():
            g = list(got[images[s]])
            if len(g) != len(pts):
                ok = False
                break
            for a, b in zip(g, pts):
                b = f((float(b[0]), float(b[1])))
                if not (abs(a[0] - b[0]) <= tol * 1e3 ** (place == "large") and abs(a[1] - b[1]) <= tol * 1e3 ** (place == "large")):
                    ok = False
    ctx.expect(ok, sig, lambda: "segments %r at %s (%s): found %r, wanted %r"
               % (segs, place, kinds(segs), got, {k: [(float(x), float(y)) for x, y in v] for k, v in want.items()}))
    return ok


def run(ctx, segs, place="float", how=0, sig=None):
    f = PLACES[place]
    given = [tuple((f(s[0]), f(s[1]))) for s in segs]
    before = copy.deepcopy(given)
    sig = sig or "intersections:%s" % kinds(segs)
    with ctx.at(sig):
        if how == 0:
            got = find_intersection(given)
        elif how == 1:
            got = find_intersection([[list(p) for p in s] for s in given])
        elif how == 2:
            got = find_intersection(np.array(given, float))
            got = {tuple(tuple(float(c) for c in p) for p in k): v for k, v in got.items()}
        else:
            full = SweepIntersector().findIntersections(given)
            for k, v in full.items():
                ctx.expect(tuple(v[0]) == k[0] and tuple(v[-1]) == k[1], "result-ends", lambda: "%r -> %r" % (k, v))
            got = {k: v[1:-1] for k, v in full.items()}
    compare(ctx, got, segs, place, sig)
    ctx.expect(given == before, "input-changed", lambda: "%r" % (before,))
    ctx.trace(1)


def flip(segs, mask):
    return tuple(s[::-1] if mask >> i & 1 else s for i, s in enumerate(segs))


def pairs(ctx, place):
    for a, b in itertools.permutations(SEGMENTS, 2):
        for mask in range(4):
            segs = flip((a, b), mask)
            ctx.state((place, segs))
            run(ctx, segs, place, how=(0, 3, 1, 2)[mask] if place != "grid" or mask else 0)
        ctx.step(4)
    ctx.sample("segments %r at %s" % (segs, place))


def same(ctx):
    """The same segment twice, reversed copies, zero-length ones."""
    for a in SEGMENTS:
        for extra in ((), (((0, 0), (2, 2)),), (((0, 1), (2, 1)), ((1, 0), (1, 2)))):
            for dup in ((a, a), (a, a[::-1]), (a, a, a[::-1])):
                ctx.state((dup, extra))
                run(ctx, dup + extra, "float", sig="intersections:repeated")
    for p in GRID:
        for b in SEGMENTS:
            for order in (((p, p), b), (b, (p, p)), ((p, p), b, ((0, 2), (2, 0)))):
                ctx.state(order)
                run(ctx, order, "float", sig="intersections:zero-length")
    with ctx.at("no segments"):
        ctx.expect(dict(find_intersection([])) == {}, "no segments", "not empty")


def triples(ctx, part, parts, place):
    for i, segs in enumerate(itertools.combinations(SEGMENTS, 3)):
        if i % parts != part:
            continue
        k = i // parts
        ctx.state((place, segs))
        segs = flip(segs, k % 8)
        segs = list(itertools.permutations(segs))[k % 6]
        ctx.count("with " + kinds(segs))
        run(ctx, segs, place)
    ctx.sample("segments %r at %s" % (segs, place))


def fours(ctx, part, parts, stride, size=4):
    for i, segs in enumerate(itertools.combinations(SEGMENTS, size)):
        if i % (parts * stride) != part * stride:
            continue
        ctx.state(segs)
        segs = flip(segs, (i // stride) % 2 ** size)
        run(ctx, segs, "sheared" if i % 2 else "float", sig="intersections:%d" % size)
    ctx.sample("segments %r" % (segs,))


# ---------------------------------------------------------------- heights as nondeterminism
class feed:
    """Serves the enumerated heights where the lists draw random ones; counts the draws."""

    def __init__(self, seq):
        self.seq = seq
        self.drawn = 0

    def __iter__(self):
        return self

    def __next__(self):
        h = self.seq[self.drawn % len(self.seq)] if self.seq else 0
        self.drawn += 1
        return h


ARRANGEMENTS = {
    "cross": (((0, 0), (2, 2)), ((0, 2), (2, 0))),
    "touch start": (((0, 0), (0, 2)), ((0, 1), (1, 0))),
    "touch end": (((0, 1), (2, 1)), ((0, 0), (1, 1))),
    "overlap": (((0, 0), (2, 0)), ((1, 0), (3, 0))),
    "inside": (((0, 0), (3, 3)), ((1, 1), (2, 2))),
    "bundle": (((0, 0), (2, 2)), ((0, 2), (2, 0)), ((0, 1), (2, 1))),
    "vertical": (((1, 0), (1, 4)), ((0, 1), (2, 1)), ((0, 3), (2, 2))),
    "overlap cut": (((0, 0), (3, 0)), ((1, 0), (4, 0)), ((2, -1), (2, 1))),
    "overlap touched": (((0, 0), (4, 4)), ((1, 1), (3, 3)), ((2, 2), (2, 0))),
    "three levels": (((0, 0), (4, 0)), ((0, 1), (4, 1)), ((0, 2), (4, 2)), ((1, -1), (3, 3))),
    "grid": (((0, 1), (3, 1)), ((0, 2), (3, 2)), ((1, 0), (1, 3)), ((2, 0), (2, 3))),
    "star": (((0, 0), (4, 4)), ((0, 4), (4, 0)), ((0, 2), (4, 2)), ((2, 0), (2, 4))),
    "zigzag": (((0, 0), (1, 2)), ((1, 2), (2, 0)), ((2, 0), (3, 2)), ((0, 1), (3, 1))),
    "five": (((0, 0), (4, 1)), ((0, 1), (4, 0)), ((0, 2), (4, 2)), ((1, 0), (1, 3)), ((3, 0), (3, 2))),
}


def heights(ctx, name, long, short):
    segs = ARRANGEMENTS[name]
    old = SK.SkipList.__dict__.get("distribution")
    draws = Counter()
    try:
        for alphabet, length in ((2, long), (3, short)):
            for seq in itertools.product(range(alphabet), repeat=length):
                ctx.state((name, seq))
                source = feed(seq)
                SK.SkipList.distribution = source
                run(ctx, segs, "float", sig="heights:%s" % name)
                draws[source.drawn] += 1
                ctx.step(source.drawn)
    finally:
        if old is not None:
            SK.SkipList.distribution = old
    ctx.sample("%s with heights %r" % (name, seq))


def crowds(ctx):
    fams = {}
    for n in range(2, 7):
        fams["lines %d" % n] = [((0, i), (n + 1, i)) for i in range(1, n + 1)] + [((i, 0), (i, n + 1)) for i in range(1, n + 1)]
        fams["slanted %d" % n] = [((0, 4 * i), (4, 4 * i + 1)) for i in range(n)] + [((1 + i % 2, -1 - i), (3 - i % 2, 4 * n + i)) for i in range(min(n, 2))]
        fams["fan %d" % n] = [((0, 0), (4, i)) for i in range(n)] + [((2, -1), (2, 9)), ((1, -1), (4, 2))]
        fams["through a point %d" % n] = [((8 - d, 8 - e), (8 + d, 8 + e)) for d, e in ((1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (1, 2))[:n]]
        fams["ends at a point %d" % n] = [((8, 8), (8 + d, 8 + e)) for d, e in ((1, 0), (0, 1), (1, 1), (1, -1), (-2, 1), (-1, 2))[:n]] + [((4, 4), (12, 12))]
        fams["on a line %d" % n] = [((i, i), (2 * i + 2, 2 * i + 2)) for i in range(n)]
        fams["nested %d" % n] = [((i, 0), (16 - i, 0)) for i in range(n)] + [((8, -2), (8, 2)), ((2, 0), (2, 3)), ((6, 3), (10, -1))]
        fams["on a line apart %d" % n] = [((3 * i, i), (3 * i + 3, i + 1)) for i in range(n)] + [((0, 1), (3 * n, 1))]
        zig = [(2 * i, (i % 2) * 4) for i in range(n + 2)]
        fams["zigzag %d" % n] = list(zip(zig, zig[1:])) + [((0, 2), (2 * n + 2, 2)), ((1, 0), (1, 4))]
    for name, segs in fams.items():
        for shift in range(len(segs)):
            for rev in (False, True):
                for place in ("float", "sheared", "turned"):
                    order = segs[shift:] + segs[:shift]
                    order = [s[::-1] for s in order] if rev else order
                    ctx.state((name, shift, rev, place))
                    run(ctx, tuple(order), place, sig="crowd:%s" % name.rsplit(" ", 1)[0])
    for poly in ([(0, 0), (4, 4), (4, 0), (0, 4)], [(0, 0), (4, 0), (4, 4), (0, 4)], [(0, 0), (6, 2), (0, 4), (4, 0), (4, 6)], [(0, 0), (4, 0), (1, 3), (1, -3)]):
        segs = tuple(polygon_segments(poly))
        ctx.expect(segs == tuple(zip(poly, poly[1:] + poly[:1])), "polygon-segments", lambda: "%r -> %r" % (poly, segs))
        run(ctx, segs, "float", sig="crowd:polygon")


# ---------------------------------------------------------------- the sequence as a state machine
def build(state):
    """A sequence in the given state, reached through its own operations: sorted ones by insert, others by reversals."""
    s = SortSeq()
    source = feed([])
    s.distribution = source
    return s


def order_of(s):
    return [n for n in s._level()]


def observe(ctx, s, model, trail):
    """Compares everything the sequence shows with the model: a list of (key, value)."""
    sig = "sequence:%s" % (trail[-1][0] if trail else "new")
    nodes = []
    n = s.min()
    while n is not None and len(nodes) <= len(model) + 1:
        nodes.append(n)
        n = s.succ(n)
    back = []
    if nodes:
        n = nodes[-1]
        while n is not None and len(back) <= len(model) + 1:
            back.append(n)
            n = s.pred(n)
    keys = [k for k, _ in model]
    got = [(SortSeq.key(n), SortSeq.inf(n)) for n in nodes]
    ok = got == list(model) and [id(n) for n in back[::-1]] == [id(n) for n in nodes]
    ok = ok and list(s) == keys and list(s.iteritems()) == list(model) and list(s.iterkeys()) == keys and list(s.itervalues()) == [v for _, v in model]
    ok = ok and len(s) == len(model) and s.empty() == (not model)
    ctx.expect(ok, sig, lambda: "after %r: shows %r (back %r, len %d), should be %r" % (trail, got, [n.key for n in back[::-1]], len(s), model))
    return nodes


def sorted_model(model):
    return all(model[i][0] < model[i + 1][0] for i in range(len(model) - 1))


def machine(ctx, keys, levels):
    """All states reachable by every operation; in every state everything observable is compared with a list."""
    start = SortSeq()
    start.distribution = feed([0])

    def signature(s, model):
        try:
            return (tuple((k, len(n.succ)) for (k, _), n in zip(model, order_of(s))), len(s.head.succ), len(s.tail.prev))
        except AttributeError:
            return None

    seen = {}
    queue = [(start, (), ())]
    seen[signature(start, ())] = ()
    while queue:
        s, model, trail = queue.pop(0)
        ctx.state(signature(s, model))
        nodes = observe(ctx, s, model, trail)
        if len(nodes) != len(model):
            return
        kn = [k for k, _ in model]
        srt = sorted_model(model)
        if srt:
            for k in [k / 2 for k in range(-1, 2 * keys + 1)]:
                with ctx.at("sequence:queries"):
                    here = s.lookup(k)
                    at = kn.index(k) if k in kn else None
                    ctx.expect((here is None) if at is None else here is nodes[at], "sequence:lookup", lambda: "%r in %r after %r" % (k, kn, trail))
                    ctx.expect(s[k] == (None if at is None else model[at][1]), "sequence:getitem", lambda: "%r in %r after %r: %r" % (k, kn, trail, s[k]))
                    place = next((i for i, q in enumerate(kn) if q >= k), None)
                    loc = s.locate(k)
                    ctx.expect(loc is (None if place is None else nodes[place]), "sequence:locate",
                               lambda: "%r in %r after %r gave %r" % (k, kn, trail, getattr(loc, "key", loc)))
                    ctx.step(3)
        moves = []
        if srt:
            for k in range(keys):
                if k in kn:
                    moves += [("insert", k, 0), ("set", k, 0), ("delete", k), ("del", k)]
                    moves += [("insertAt", i, k) for i in (kn.index(k),)]
                else:
                    moves += [("insert", k, h) for h in range(levels)] + [("set", k, h) for h in range(levels)]
                    moves += [("delete", k)]
                    below = max((i for i, q in enumerate(kn) if q < k), default=None)
                    above = min((i for i, q in enumerate(kn) if q > k), default=None)
                    moves += [("insertAt", i, k) for i in (below, above) if i is not None]
        moves += [("delItem", i) for i in range(len(model))]
        moves += [("changeInf", i) for i in range(len(model))]
        moves += [("reverse", i, j) for i in range(len(model)) for j in range(i, len(model))]
        for mv in moves:
            t = copy.deepcopy(s)
            t.distribution = feed([mv[2]] if mv[0] in ("insert", "set") else [0])
            tn = order_of(t)
            m = list(model)
            value = "v%d" % ((len(trail) + mv[1]) % 2)
            op = mv[0]
            path = trail + (mv,)
            with ctx.at("sequence:%s" % op):
                ret = None
                if op in ("insert", "set"):
                    if op == "insert":
                        ret = t.insert(mv[1], value)
                    else:
                        t[mv[1]] = value
                    m = sorted([(k, v) for k, v in m if k != mv[1]] + [(mv[1], value)])
                elif op == "delete":
                    t.delete(mv[1])
                    m = [(k, v) for k, v in m if k != mv[1]]
                elif op == "del":
                    del t[mv[1]]
                    m = [(k, v) for k, v in m if k != mv[1]]
                elif op == "insertAt":
                    ret = t.insertAt(tn[mv[1]], mv[2], value)
                    m = sorted([(k, v) for k, v in m if k != mv[2]] + [(mv[2], value)])
                elif op == "delItem":
                    t.delItem(tn[mv[1]])
                    del m[mv[1]]
                elif op == "changeInf":
                    t.changeInf(tn[mv[1]], value)
                    m[mv[1]] = (m[mv[1]][0], value)
                else:
                    t.reverseItems(tn[mv[1]], tn[mv[2]])
                    m[mv[1]:mv[2] + 1] = m[mv[1]:mv[2] + 1][::-1]
                if op in ("insert", "insertAt"):
                    ctx.expect(ret is not None and ret.key == (mv[1] if op == "insert" else mv[2]) and ret.data == value, "sequence:returned", lambda: "%r returned %r" % (path, ret))
            ctx.step(1)
            observe(ctx, t, tuple(m), path)
            if ctx.fails:
                return
            key = signature(t, m)
            if key is None:
                if len(path) > 4:
                    continue
                key = path
            if key not in seen:
                seen[key] = path
                queue.append((t, tuple(m), path))
    ctx.sample("%d states, the deepest after %r" % (len(seen), max(seen.values(), key=len)))


def drawn(ctx):
    """The real source of heights: endless, never negative, and lists grown with it stay lists."""
    for rounds in range(20):
        with ctx.at("sequence:random"):
            s = SortSeq()
            model = {}
            for i in range(40):
                k = (i * 7 + rounds) % 11
                if i % 3 == 2:
                    s.delete(k)
                    model.pop(k, None)
                else:
                    s.insert(k, i)
                    model[k] = i
                ctx.expect(list(s.iteritems()) == sorted(model.items()) and len(s) == len(model), "sequence:random", lambda: "round %d step %d: %r" % (rounds, i, list(s.iteritems())))
        ctx.trace(1)
    named = SK.SkipList(b=1, a=2)
    ctx.expect(list(named.iteritems()) == [("a", 2), ("b", 1)] and named["a"] == 2 and named["c"] is None and len(named) == 2, "sequence:named", lambda: "%r" % (list(named.iteritems()),))


# ---------------------------------------------------------------- the queue
def priorities(ctx, depth):
    def walk(history, model, serial):
        q = PriorityQueue()
        mine = []
        n = 0
        for op in history:
            if op == "pop":
                first = q.min()
                got = q.delMin()
                least = min(p for p, _ in mine)
                item = (PriorityQueue.prio(got), PriorityQueue.inf(got))
                ctx.expect(got is first and item[0] == least and item in mine, "queue:delMin", lambda: "%r: %r of %r" % (history, item, mine))
                if item in mine:
                    mine.remove(item)
            else:
                node = q.insert(op, "n%d" % n)
                ctx.expect(PriorityQueue.prio(node) == op and PriorityQueue.inf(node) == "n%d" % n, "queue:insert", lambda: "%r" % (history,))
                mine.append((op, "n%d" % n))
                n += 1
            ctx.expect(q.size() == len(mine) and q.empty() == (not mine) and (q.min() is None if not mine else q.min().key == min(p for p, _ in mine)), "queue:state", lambda: "%r" % (history,))
        ctx.state(history)
        ctx.trace(1)
        if len(history) < depth:
            for op in (0, 1, 2) + (("pop",) if mine else ()):
                walk(history + (op,), None, 0)

    with ctx.at("queue"):
        walk((), [], 0)
    ctx.sample("depth %d" % depth)


def points(ctx):
    vals = [-1.0, 0.0, 0.5, 2.0]
    ps = [(x, y) for x in vals for y in vals]
    for a, b in itertools.product(ps, ps):
        p, q = Point(a), Point(b)
        got = (p < q, p > q, p <= q, p >= q, p == q, p != q)
        ctx.state((a, b))
        ctx.expect(got == (a < b, a > b, a <= b, a >= b, a == b, a != b), "points:order", lambda: "%r %r: %r" % (a, b, got))
        ctx.expect(tuple(p) == a, "points:tuple", lambda: "%r" % (a,))
        near = Point((a[0] + 1e-12, a[1] - 1e-12))
        ctx.expect(p == near and not p < near and not p > near, "points:near", lambda: "%r" % (a,))
    for a, b in itertools.product(SEGMENTS, SEGMENTS):
        for mask in range(4):
            s, t = flip((a, b), mask)
            S, T = Segment(Point(s[0]), Point(s[1])), Segment(Point(t[0]), Point(t[1]))
            den = (s[1][0] - s[0][0]) * (t[1][1] - t[0][1]) - (s[1][1] - s[0][1]) * (t[1][0] - t[0][0])
            x = S.intersectionOfLines(T)
            if den == 0:
                ctx.expect(x is None, "points:parallel", lambda: "%r %r: %r" % (s, t, x))
            else:
                u = F((t[0][0] - s[0][0]) * (t[1][1] - t[0][1]) - (t[0][1] - s[0][1]) * (t[1][0] - t[0][0]), den)
                w = (s[0][0] + u * (s[1][0] - s[0][0]), s[0][1] + u * (s[1][1] - s[0][1]))
                ctx.expect(x is not None and abs(x.x - w[0]) < 1e-9 and abs(x.y - w[1]) < 1e-9, "points:meeting", lambda: "%r %r: %r, wanted %r" % (s, t, x, w))
            for p in GRID:
                o = Segment.orientation(S, Point(p))
                ctx.expect((o > 0) - (o < 0) == (lambda v: (v > 0) - (v < 0))(orient(s[0], s[1], p)), "points:orientation", lambda: "%r %r: %r" % (s, p, o))
        ctx.step(40)


def tasks(tier):
    deep = tier == "thorough"
    out = [("pairs-%s" % p, pairs, (p,)) for p in PLACES]
    out += [("same", same, ()), ("crowds", crowds, ()), ("points", points, ()), ("drawn", drawn, ()), ("queue", priorities, (8 if deep else 7,))]
    out.append(("machine", machine, (5 if deep else 3, 3)))
    out += [("triples-%s-%d" % (p, i), triples, (i, 4, p)) for p in (PLACES if deep else ("float", "turned")) for i in range(4)]
    out += [("fours-%d" % i, fours, (i, 8, 1 if deep else 2)) for i in range(8)]
    if deep:
        out += [("fives-%d" % i, fours, (i, 16, 3, 5)) for i in range(16)]
    out += [("heights-%s" % n.replace(" ", "-"), heights, (n, 9 if deep else 7, 6 if deep else 5)) for n in ARRANGEMENTS]
    return out
