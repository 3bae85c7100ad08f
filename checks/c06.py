"""C06: a NURBS curve object always behaves as its current data says, whatever was read or changed before."""
import copy
import itertools
import pickle
from fractions import Fraction as F

import numpy as np

import ref
import shapes
from mmcore.geom.nurbs import NURBSCurve

PID = "C06"
TASK_LIMIT_S = 300
ASSUMPTIONS = [
    "agreement with the exact model within 1e-9; the arrays behind control_points / knots / weights views are not written to by the caller",
    "setters get data of a valid curve; parameters are inside the domain",
]
BOUNDS = {
    "start curves": "degrees 1..3, clamped / unclamped / periodic, with and without weights",
    "histories": "every sequence of 3 operations (thorough 4) of: reading everything (filling the evaluation cache and overwriting what was returned), the setters (points with 3 and 4 columns, weights, knots, set with one more point, degree with set), normalize, insert, multiply, make_periodic, make_open, copy, deepcopy, pickle, continuing with the copy or with the original",
    "observations": "after every history on every live object: degree, knots, points, weights, interval, Greville abscissae, evaluate / evaluate_multi / __call__ at all knots and mid-spans, derivative at mid-spans, equality and hash of every pair",
}


class M:
    """The model: exact degree, knots, cartesian points, weights, periodic flag."""

    def __init__(self, p, U, P, W, periodic=False):
        self.p, self.U, self.P, self.W, self.per = p, tuple(U), tuple(map(tuple, P)), tuple(W), periodic

    def but(self, **k):
        m = M(self.p, self.U, self.P, self.W, self.per)
        for a, b in k.items():
            setattr(m, a, b)
        return m

    def key(self):
        return self.p, self.U, self.P, self.W, self.per

    def hom(self):
        return [tuple(x * w for x in q) + (w,) for q, w in zip(self.P, self.W)]

    def inserted(self, t, r):
        U, H, p = list(self.U), self.hom(), self.p
        for _ in range(r):
            k = ref.span(U, p, t)
            s = U.count(t)
            Q = []
            for i in range(len(H) + 1):
                if i <= k - p:
                    Q.append(H[i])
                elif i > k - s:
                    Q.append(H[i - 1])
                else:
                    a = (t - U[i]) / (U[i + p] - U[i])
                    Q.append(tuple(a * x + (1 - a) * y for x, y in zip(H[i], H[i - 1])))
            H = Q
            U = U[: k + 1] + [t] + U[k + 1 :]
        return self.but(U=tuple(U), P=tuple(tuple(x / h[3] for x in h[:3]) for h in H), W=tuple(h[3] for h in H))

    def interval(self):
        return self.U[self.p], self.U[len(self.P)]

    def inner(self):
        a, b = self.interval()
        return (a * 3 + b * 2) / 5


_points = {}


def table(m):
    """Exact points at all knots and mid-spans; exact derivatives, of which only those inside spans are compared."""
    k = m.key()
    if k not in _points:
        rows = []
        fixed = set(m.U)
        for t in ref.query_params(m.U, m.p, 2):
            d = ref.curve_ders(m.U, m.p, m.P, m.W, t, 1)
            rows.append((float(t), [float(x) for x in d[0]], [float(x) for x in d[1]], t not in fixed))
        ts = np.array([r[0] for r in rows])
        _points[k] = (ts, np.array([r[1] for r in rows]), np.array([r[2] for r in rows]), shapes.knots(m.U), shapes.arr([tuple(q) + (w,) for q, w in zip(m.P, m.W)]), [i for i, r in enumerate(rows) if r[3]])
    return _points[k]


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool((np.abs(a - b) <= 1e-9 * (1 + np.abs(b))).all())


def observe(ctx, c, m, sig, deep=True):
    ts, pts, ders, U, R, mid = table(m)
    if m.per and (m.P[: m.p], m.W[: m.p]) != (m.P[-m.p :], m.W[-m.p :]):
        # the edited ends of a curve still marked periodic do not meet: only one of the two is the end
        mid = [i - 1 for i in mid]
        ts, pts, ders = ts[1:-1], pts[1:-1], ders[1:-1]
    ctx.step(2 * len(ts))
    ok = ctx.expect(c.degree == m.p and close(c.knots, U) and close(c.control_pointsw, R) and close(c.control_points, R[:, :3]) and close(c.weights, R[:, 3]),
                    f"{sig}: data", lambda: f"degree {c.degree} knots {list(c.knots)} points {c.control_pointsw.tolist()}\nexpected {m.p} {U.tolist()} {R.tolist()}")
    if not ok:
        return
    ctx.expect(bool(c.periodic) == m.per, f"{sig}: periodic", f"{c.periodic} expected {m.per}")
    ctx.expect(close(c.interval(), [float(x) for x in m.interval()]), f"{sig}: interval", lambda: f"{c.interval()} expected {[float(x) for x in m.interval()]}")
    p = m.p
    ctx.expect(close(c.greville_abscissae, [sum(U[i + 1 : i + p + 1]) / p for i in range(len(R))]), f"{sig}: greville", lambda: f"{list(c.greville_abscissae)}")
    ctx.expect(close([c.evaluate(t) for t in ts], pts), f"{sig}: evaluate", lambda: f"{[c.evaluate(t).tolist() for t in ts]} expected {pts.tolist()}")
    if deep:
        ctx.expect(close(c.evaluate_multi(ts), pts), f"{sig}: evaluate_multi", lambda: f"{c.evaluate_multi(ts)} expected {pts.tolist()}")
        ctx.expect(close(c(ts), pts), f"{sig}: call", "")
        ctx.expect(close([c.derivative(t) for t in ts[mid]], ders[mid]), f"{sig}: derivative", lambda: f"{[c.derivative(t).tolist() for t in ts[mid]]} expected {ders[mid].tolist()}")
        ctx.expect(len(ts) != len(table(m)[0]) or close(c.start(), pts[0]) and close(c.end(), pts[-1]), f"{sig}: ends", lambda: f"{c.start()} {c.end()}")


def scribble(*arrays):
    for a in arrays:
        a[...] = 77.0


def op_read(c, m):
    ts = table(m)[0]
    for t in ts:
        x = c.evaluate(t)
        scribble(x, c.derivative(t))
    scribble(c.evaluate_multi(ts), np.asarray(c(ts)))
    c.interval(), hash(c), c.greville_abscissae, c.bbox()
    return c, m


def op_points3(c, m):
    P = tuple((y + 1, x - 2, z * 2) for x, y, z in m.P)
    a = shapes.arr(P)
    c.control_points = a
    scribble(a)
    return c, m.but(P=P, W=(F(1),) * len(P))


def op_points4(c, m):
    P = tuple((z + 2, x, y - 3) for x, y, z in m.P)
    W = tuple(F(2) if i % 2 else F(1, 2) for i in range(len(P)))
    a = shapes.arr([q + (w,) for q, w in zip(P, W)])
    c.control_points = a
    scribble(a)
    return c, m.but(P=P, W=W)


def op_weights(c, m):
    W = tuple(F(3) if i % 2 else F(1) for i in range(len(m.P)))
    a = shapes.knots(W)
    c.weights = a
    scribble(a)
    return c, m.but(W=W)


def op_knots(c, m):
    U = tuple(2 * x + 1 for x in m.U)
    a = shapes.knots(U)
    c.knots = a
    scribble(a)
    return c, m.but(U=U)


def op_set(c, m):
    n = len(m.P) + 1
    if n > 9:
        return None
    P = tuple((x - 1, y + 2, z) for x, y, z in shapes.points(n))
    W = tuple(F(1) if i % 3 else F(2) for i in range(n))
    U = tuple(F(x) for x in [0] * m.p + list(range(n - m.p + 1)) + [n - m.p] * m.p)
    a, k = shapes.arr([q + (w,) for q, w in zip(P, W)]), shapes.knots(U)
    c.set(a, k)
    scribble(a, k)
    return c, m.but(P=P, W=W, U=U)


def op_degree(c, m):
    """Another degree together with the knots that go with it."""
    q = m.p + 1 if m.p < 3 else 2
    n = len(m.P)
    if n < q + 1 or m.per:
        return None
    U = tuple(F(x) for x in [0] * q + list(range(n - q + 1)) + [n - q] * q)
    c.degree = q
    k = shapes.knots(U)
    c.knots = k
    scribble(k)
    return c, m.but(p=q, U=U)


def op_normalize(c, m):
    a, b = m.U[0], m.U[-1]
    c.normalize_knots()
    return c, m.but(U=tuple((x - a) / (b - a) for x in m.U))


def op_insert(c, m):
    if len(m.P) > 10:
        return None
    t = F(float(m.inner()))
    if any(abs(t - u) < 1e-9 for u in m.U):
        return None
    c.insert_knot(float(t), 1)
    return c, m.inserted(t, 1)


def op_multiply(c, m):
    if len(m.P) > 10:
        return None
    inner = [u for u in m.U if m.interval()[0] < u < m.interval()[1]]
    t = inner[0] if inner else m.inner()
    t = F(float(t))
    if inner and t != inner[0]:
        return None
    r = m.p - m.U.count(t)
    c.multiply_knot(float(t))
    return c, m.inserted(t, max(r, 0))


def op_periodic(c, m):
    if m.per or len(m.P) > 8:
        return None
    c.make_periodic()
    P, W = m.P + m.P[: m.p], m.W + m.W[: m.p]
    return c, m.but(P=P, W=W, U=tuple(F(i - m.p) for i in range(len(P) + m.p + 1)), per=True)


def op_open(c, m):
    n = len(m.P) - (m.p if m.per else 0)
    if m.per and (n < m.p + 1 or m.P[: m.p] != m.P[n:]):
        return None
    c.make_open()
    if not m.per:
        return c, m
    U = [0] * m.p + list(range(n - m.p + 1)) + [n - m.p] * m.p
    return c, m.but(P=m.P[:n], W=m.W[:n], U=tuple(map(F, U)), per=False)


def op_reverse(c, m):
    """__deepcopy__, flip, split and the like build new objects: replace the object by its flip."""
    if m.per:
        return None
    s = m.U[0] + m.U[-1]
    return c.flip(), m.but(U=tuple(s - x for x in reversed(m.U)), P=m.P[::-1], W=m.W[::-1])


CHANGES = {
    "read": op_read, "points3": op_points3, "points4": op_points4, "weights": op_weights, "knots": op_knots, "set": op_set, "degree": op_degree,
    "normalize": op_normalize, "insert": op_insert, "multiply": op_multiply, "periodic": op_periodic, "open": op_open, "flip": op_reverse,
}
COPIES = {"copy": lambda c: c.copy(), "shallow": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda c: pickle.loads(pickle.dumps(c)), "serialize": lambda c: NURBSCurve.deserialize(c.serialize())}
ALPHABET = list(CHANGES) + list(COPIES) + ["swap"]


def start(kind, p, wk):
    n = p + 3
    W = shapes.weights(wk, n)
    P = shapes.points(n)
    if kind == "default":
        U = tuple(F(x) for x in [0] * p + list(range(n - p + 1)) + [n - p] * p)
        a = shapes.arr([q + (w,) for q, w in zip(P, W)])
        c = NURBSCurve(a, p)
        scribble(a)
        return c, M(p, U, P, W)
    if kind == "clamped":
        U = (F(-1),) * (p + 1) + (F(0), F(2)) + (F(5, 2),) * (p + 1)
    elif kind == "unclamped":
        U = tuple(shapes.unclamped_knots(p, n))[1]
    elif kind == "periodic":
        a = shapes.arr([q + (w,) for q, w in zip(P, W)])
        c = NURBSCurve(a, p, None, True)
        scribble(a)
        return c, M(p, tuple(F(i - p) for i in range(n + 2 * p + 1)), P + P[:p], W + W[:p], True)
    a, k = shapes.arr([q + (w,) for q, w in zip(P, W)]), shapes.knots(U)
    c = NURBSCurve(a, p, k)
    scribble(a, k)
    return c, M(p, U, P, W)


def run(ctx, kind, p, wk, history, tag):
    pool = [start(kind, p, wk)]
    for op in history:
        if op in COPIES:
            c, m = pool[0]
            pool = [(COPIES[op](c), m), (c, m)] + pool[1:]
        elif op == "swap":
            if len(pool) < 2:
                return False
            pool = pool[1:] + pool[:1]
        else:
            r = CHANGES[op](*pool[0])
            if r is None:
                return False
            pool[0] = r
    ctx.trace()
    ctx.state((kind, p, wk, tuple(x[1].key() for x in pool), history))
    for i, (c, m) in enumerate(pool):
        observe(ctx, c, m, f"{tag} object {i}")
    for i, j in itertools.combinations(range(len(pool)), 2):
        (a, ma), (b, mb) = pool[i], pool[j]
        # arrays made by the same operations are bitwise the same; anything else must differ beyond rounding
        same = a.degree == b.degree and np.array_equal(a.knots, b.knots) and np.array_equal(a.control_pointsw, b.control_pointsw)
        ctx.expect((a == b) == same and (not same or hash(a) == hash(b)), f"{tag} equality of objects {i} and {j}", f"== gives {a == b}, data equal: {same}")
        if ma.key() == mb.key() and history and history[-1] in COPIES and (i, j) == (0, 1):
            ctx.expect(same and a == b, f"{tag} the copy differs", "")
    return True


def explore(ctx, kind, p, wk, first, depth):
    todo = [(first,)]
    while todo:
        h = todo.pop()
        tag = f"{kind} degree {p} weights {wk}: {' '.join(h)}"
        with ctx.at(tag):
            if not run(ctx, kind, p, wk, h, tag):
                continue
        if len(h) < depth:
            todo += [h + (op,) for op in ALPHABET]


def tasks(tier):
    out = []
    depth = 3 if tier == "quick" else 4
    for kind in ("default", "clamped", "unclamped", "periodic"):
        for p, wk in ((1, "one"), (2, "mix"), (3, "mix")) if tier == "quick" else ((1, "one"), (2, "mix"), (3, "mix"), (2, "one")):
            for op in ALPHABET:
                if op != "swap":
                    out.append((f"{kind} p={p} w={wk} {op}", explore, (kind, p, wk, op, depth)))
    return out
