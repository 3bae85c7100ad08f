"""C33: vectors, points, matrices and bounding boxes of mmcore.api against plain models, over every short history."""
import itertools
import math

import numpy as np

from mmcore.api import vectors as AV
from mmcore.api.bbox import BoundingBox2D, BoundingBox3D

PID = "C33"
ASSUMPTIONS = [
    "vectors that are normalised, compared by direction or rotated onto each other are not zero, matrices that are inverted are regular, and an axis given for opposite vectors is perpendicular to them",
    "the minimum of a box is not above its maximum; operands have the dimension of the object",
]
BOUNDS = {
    "vectors": "every history of up to 3 (thorough 4; points 2 and 3) of about 20 operations on each of the 4 classes, and one less from a second start, every query after each of them against 9 operands; every pair of vectors of the grids -2..2 (plane) and -1..1 (thorough -2..2, space), 4 lengths",
    "matrices": "every history of up to 2 (thorough 3) of about 20 operations on both classes, every query after each; every pair of vectors of the grids -2..2 and -1..1 rotated onto each other, every axis of the grid by 6 angles about 3 origins, every pair of 7 frames aligned",
    "boxes": "every pair of boxes with corners 0, 1, 2 in the plane and (in space) 0, 1, 2 x 0, 1 x 0, 1 (thorough 0..3 and 0..2), every point of the half-step grid; every history of up to 3 (thorough 4) of 11 operations on both classes",
}
TOL = 1e-9


def near(a, b, tol=TOL):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b), initial=0.0))))


def coords(v):
    """The coordinates as a user reads them."""
    return [v.x, v.y] if isinstance(v, AV.Vector2D) else [v.x, v.y, v.z]


def mdot(a, b):
    return math.fsum(x * y for x, y in zip(a, b))


def mlen(a):
    return math.sqrt(mdot(a, a))


def mcross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def msin(a, b):
    """Sine of the angle between two vectors (not negative)."""
    a3, b3 = (list(v) + [0.0] * (3 - len(v)) for v in (a, b))
    return mlen(mcross(a3, b3)) / (mlen(a) * mlen(b))


class Watch:
    """Objects that must not change any more."""

    def __init__(self):
        self.items = []

    def add(self, label, read):
        self.items.append((label, read, [float(x) for x in np.ravel(read())]))

    def changed(self):
        return [l for l, read, was in self.items if not near(np.ravel(read()), was, 0.0)]


# ---------------------------------------------------------------- vectors
def transform_model(m, p):
    h = list(p) + [1.0]
    return [math.fsum(m[i][j] * h[j] for j in range(len(h))) for i in range(len(p))]


TM = {2: [[1.0, 2.0, 3.0], [0.0, -1.0, 0.5], [0.0, 0.0, 1.0]],
      3: [[1.0, 2.0, 0.0, 3.0], [0.0, -1.0, 1.0, 0.5], [0.5, 0.0, 1.0, -2.0], [0.0, 0.0, 0.0, 1.0]]}
W1 = {2: [1.0, -2.0], 3: [1.0, -2.0, 0.5]}
W2 = {2: [0.5, 4.0], 3: [0.5, 4.0, -1.0]}


def matrix(d):
    m = (AV.Matrix2D if d == 2 else AV.Matrix3D)()
    for i in range(d + 1):
        for j in range(d + 1):
            m.set_cell(i, j, TM[d][i][j])
    return m


def vector_ops(cls, d):
    """name -> function(vector, model, watch) -> (vector, model); None where it does not apply."""
    V, P = (AV.Vector2D, AV.Point2D) if d == 2 else (AV.Vector3D, AV.Point3D)
    ops = {}

    def inplace(name, make, f):
        def op(v, m, w):
            o = make()
            old = v
            if isinstance(o, AV.BaseVector):
                w.add("the operand of " + name, lambda: coords(o))
                b = coords(o)
            else:
                b = [float(x) for x in o] if isinstance(o, (list, np.ndarray)) else [float(o)] * d
            if name[0] == "+":
                v += o
            elif name[0] == "-":
                v -= o
            else:
                v *= o
            if v is not old:
                return v, "another object"
            return v, [f(x, y) for x, y in zip(m, b)]
        ops[name] = op

    inplace("+= vector", lambda: V(W1[d]), lambda a, b: a + b)
    inplace("+= point", lambda: P(W2[d]), lambda a, b: a + b)
    inplace("-= vector", lambda: V(W2[d]), lambda a, b: a - b)
    inplace("-= number", lambda: 1.5, lambda a, b: a - b)
    inplace("*= number", lambda: -2, lambda a, b: a * b)
    inplace("*= vector", lambda: V(W1[d]), lambda a, b: a * b)
    inplace("+= list", lambda: np.array(W1[d]), lambda a, b: a + b)

    def call(name, f):
        def op(v, m, w):
            r, m2 = f(v, m, w)
            return (v, m2) if r is True else (v, "returned %r" % (r,))
        ops[name] = op

    def with_other(v, w, o):
        w.add("the operand", lambda: coords(o))
        return o

    if d == 3:
        call("add", lambda v, m, w: (v.add(with_other(v, w, V(W2[d]))), [a + b for a, b in zip(m, W2[d])]))
    call("subtract", lambda v, m, w: (v.subtract(with_other(v, w, V(W1[d]))), [a - b for a, b in zip(m, W1[d])]))
    call("subtract itself halved", lambda v, m, w: (v.subtract(v * 0.5), [a * 0.5 for a in m]))
    call("scale", lambda v, m, w: (v.scale(-0.5), [-0.5 * a for a in m]))
    ops["normalize"] = lambda v, m, w: None if mlen(m) < 1e-6 else ((v, [a / mlen(m) for a in m]) if v.normalize() is True else (v, "no success"))
    call("set_with_array", lambda v, m, w: (v.set_with_array([7.0, -3.0, 2.0][:d]), [7.0, -3.0, 2.0][:d]))

    def setx(v, m, w):
        v.x = 3.25
        return v, [3.25] + m[1:]

    def setlast(v, m, w):
        if d == 2:
            v.y = -1.0
        else:
            v.z = -1.0
        return v, m[:-1] + [-1.0]

    def sety(v, m, w):
        v.y = 0.0
        return v, [m[0], 0.0] + m[2:]
    ops["x ="], ops["y ="], ops["last ="] = setx, sety, setlast
    call("transform", lambda v, m, w: (v.transform(matrix(d)), transform_model(TM[d], m)))

    def fresh(name, make, f):
        def op(v, m, w):
            n = make(v)
            w.add("the vector before " + name, lambda: coords(v))
            return n, f(m)
        ops[name] = op
    fresh("copy", lambda v: v.copy(), lambda m: m)
    fresh("as_point", lambda v: v.as_point(), lambda m: m)
    fresh("+", lambda v: v + V(W1[d]), lambda m: [a + b for a, b in zip(m, W1[d])])
    fresh("-", lambda v: v - P(W2[d]), lambda m: [a - b for a, b in zip(m, W2[d])])
    fresh("*", lambda v: v * 3.0, lambda m: [3.0 * a for a in m])
    fresh("from array", lambda v: cls(v.as_array()), lambda m: m)
    fresh("translation", lambda v: v.to_translation().translation, lambda m: m)
    if d == 3:
        fresh("cross", lambda v: v.cross(V(W1[d])), lambda m: mcross(m, W1[d]))
        fresh("plane and back", lambda v: v.to_vector2d().to_vector3d(), lambda m: m[:2] + [0.0])
        fresh("cast", lambda v: AV.Point3D.cast(AV.Point2D.cast(v)), lambda m: m[:2] + [0.0])
    else:
        fresh("space and back", lambda v: v.to_vector3d().to_vector2d(), lambda m: m)
        fresh("cast", lambda v: AV.Point2D.cast(AV.Point3D.cast(v)), lambda m: m)
    return ops


def operands(d):
    base = [[1.0, 0.0, 0.0], [0.0, -2.0, 0.0], [3.0, 4.0, 0.0], [-1.0, -1.0, 1.0], [0.001, 0.002, 0.0], [300.0, -400.0, 500.0], [0.0, 0.0, 2.0]]
    out = [b[:d] for b in base if mlen(b[:d]) > 0]
    return out


def relations(ctx, v, m, others, V, tag):
    """Everything that relates the vector v (model m) to others."""
    d = len(m)
    for b in others:
        o = V(b)
        ctx.step(8)
        ctx.expect(near(v.dot(o), mdot(m, b)), tag + " dot", lambda: "%r.%r = %r" % (m, b, v.dot(o)))
        same = all(abs(x - y) <= 1e-12 * (1 + abs(y)) for x, y in zip(m, b))
        apart = any(abs(x - y) > 1e-4 * (1 + abs(y)) for x, y in zip(m, b))
        if same or apart:
            ctx.expect((v == o) is not None and bool(v == o) == same and bool(v != o) != same and bool(v.is_equal(o)) == same, tag + " equality", lambda: "%r %r: %r" % (m, b, v == o))
        if mlen(m) < 1e-6 or mlen(b) < 1e-6:
            continue
        s, c = msin(m, b), mdot(m, b) / (mlen(m) * mlen(b))
        ctx.expect(near(v.angle_to(o), math.atan2(s, c), 1e-6), tag + " angle_to", lambda: "%r %r: %r" % (m, b, v.angle_to(o)))
        if s < 1e-10 or s > 0.02:
            ctx.expect(bool(v.is_parallel(o)) == (s < 1e-10), tag + " is_parallel", lambda: "%r %r: %r" % (m, b, v.is_parallel(o)))
        if abs(c) < 1e-12 or abs(c) > 1e-4:
            ctx.expect(bool(v.is_perpendicular(o)) == (abs(c) < 1e-12), tag + " is_perpendicular", lambda: "%r %r: %r" % (m, b, v.is_perpendicular(o)))
        if d == 3:
            ctx.expect(near(coords(v.cross(o)), mcross(m, b)), tag + " cross", lambda: "%r %r: %r" % (m, b, coords(v.cross(o))))
        ctx.expect(coords(o) == b and near(coords(v), m), tag + " operands", lambda: "%r %r: a query changed an operand" % (m, b))


def vector_queries(ctx, v, m, V, tag, where):
    d = len(m)
    ctx.step(10)
    ctx.expect(near(coords(v), m), tag + " coordinates", lambda: "%s: %r, expected %r" % (where(), coords(v), m))
    ctx.expect(near(v.as_array(), m) and near(np.array(v), m) and near(v.to_data(), m), tag + " as_array", lambda: "%s: %r" % (where(), v.as_array()))
    ctx.expect(near(v.length, mlen(m)), tag + " length", lambda: "%s: %r" % (where(), v.length))
    for o, b in ((V(W1[d]), W1[d]), (1.5, [1.5] * d), (np.array(W2[d]), W2[d])):
        ctx.expect(near(coords(v + o), [x + y for x, y in zip(m, b)]), tag + " sum", where)
        ctx.expect(near(coords(v - o), [x - y for x, y in zip(m, b)]), tag + " difference", where)
        ctx.expect(near(coords(v * o), [x * y for x, y in zip(m, b)]), tag + " product", where)
    ctx.expect((v == 3) is False and (v == None) is False and (v != "x") is True, tag + " equality with other things", where)  # noqa: E711
    ctx.expect((v == (AV.Vector3D((0, 0, 0)) if d == 2 else AV.Vector2D((0, 0)))) is False, tag + " equality of dimensions", where)
    if d == 2:
        ctx.expect(near(coords(v.to_vector3d()), m + [0.0]), tag + " to_vector3d", where)
    else:
        ctx.expect(near(coords(v.to_vector2d()), m[:2]), tag + " to_vector2d", where)
    relations(ctx, v, m, operands(d), V, tag)


def histories(ctx, kind, start, ops, depth, first, make, queries):
    """Every sequence of up to depth operations beginning with the first, on fresh objects each."""
    names = list(ops)
    for n in range(depth):
        for tail in itertools.product(names, repeat=n):
            seq = (first,) + tail
            ctx.trace()
            v, m = make(start)
            watch = Watch()
            done = []
            where = lambda: "%r then %s" % (start, " ; ".join(done))  # noqa: E731
            dead = False
            for name in seq:
                done.append(name)
                with ctx.at("%s %s" % (kind, name)):
                    r = ops[name](v, m, watch)
                    if r is None:
                        dead = True
                        break
                    v, m = r
                    if isinstance(m, str):
                        ctx.fail("%s %s" % (kind, name), "%s: %s" % (where(), m))
                        dead = True
                        break
            if dead or len(done) < len(seq):
                continue
            key = (kind, tuple(np.round(np.ravel(m), 9).tolist()), n)
            ctx.state(key)
            with ctx.at("%s query" % kind):
                queries(v, m, where)
            bad = watch.changed()
            ctx.expect(not bad, "%s leaves other objects alone" % kind, lambda: "%s: %r changed" % (where(), bad))


def vectors_histories(ctx, name, first, depth):
    cls = getattr(AV, name)
    d = 2 if name.endswith("2D") else 3
    V = AV.Vector2D if d == 2 else AV.Vector3D
    ops = vector_ops(cls, d)
    starts = [[2.0, -1.0, 0.5][:d], [0.0, 0.0, 3.0][3 - d:]]

    def make(start):
        v = cls.create(*start)
        return v, list(start)
    for start in starts:
        # (the second start without the longest histories)
        histories(ctx, name, start, ops, depth - (start is not starts[0]), first, make,
                  lambda v, m, where: vector_queries(ctx, v, m, V, name, where))


def vectors_pairs(ctx, d, r):
    V, P = (AV.Vector2D, AV.Point2D) if d == 2 else (AV.Vector3D, AV.Point3D)
    grid = [list(map(float, p)) for p in itertools.product(range(-r, r + 1), repeat=d)]
    for a in grid:
        for s in (1.0, 0.001, 1e3, 0.3):
            m = [s * x for x in a]
            ctx.state((d, tuple(m)))
            ctx.trace()
            with ctx.at("pairs"):
                v = (V, P)[s < 1](np.array(m))
                relations(ctx, v, m, grid, V, "pair %dD" % d)
                if mlen(m) > 0:
                    w = v.copy()
                    ctx.expect(w.normalize() is True and near(coords(w), [x / mlen(m) for x in m]) and near(w.length, 1.0) and near(coords(v), m), "pair normalize", lambda: "%r" % (m,))
        # rows and columns of other arrays, integers
        wide = np.arange(float(4 * d)).reshape(d, 4)
        wide[:, 2] = a
        with ctx.at("views"):
            for kind, src in (("column", wide[:, 2]), ("integers", np.array(a, int)), ("tuple", tuple(a)), ("reversed", np.array(a[::-1])[::-1])):
                v = V(src)
                v += 1.0
                ctx.expect(near(coords(v), [x + 1 for x in a]) and near(wide[:, 2], a) and near(v.length, mlen([x + 1 for x in a])), "vector of a %s" % kind, lambda: "%r: %r" % (a, coords(v)))


# ---------------------------------------------------------------- matrices
def mmul(a, b):
    n = len(a)
    return [[math.fsum(a[i][k] * b[k][j] for k in range(n)) for j in range(n)] for i in range(n)]


def mdet(a):
    if len(a) == 1:
        return a[0][0]
    return math.fsum((-1) ** j * a[0][j] * mdet([r[:j] + r[j + 1:] for r in a[1:]]) for j in range(len(a)))


def minv(a):
    n, dt = len(a), mdet(a)
    cof = [[(-1) ** (i + j) * (mdet([r[:j] + r[j + 1:] for k, r in enumerate(a) if k != i]) if n > 1 else 1.0) for j in range(n)] for i in range(n)]
    return [[cof[j][i] / dt for j in range(n)] for i in range(n)]


def eye(n):
    return [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]


def frame_matrix(origin, axes):
    d = len(origin)
    return [[axes[j][i] for j in range(d)] + [origin[i]] for i in range(d)] + [[0.0] * d + [1.0]]


def rotation2(angle, origin):
    c, s = math.cos(angle), math.sin(angle)
    x, y = origin
    return [[c, -s, x - c * x + s * y], [s, c, y - s * x - c * y], [0.0, 0.0, 1.0]]


def rotation3(angle, axis, origin):
    """Rodrigues' formula on the basis; the angle in radians."""
    k = [a / mlen(axis) for a in axis]
    c, s = math.cos(angle), math.sin(angle)

    def rot(p):
        kp, kd = mcross(k, p), mdot(k, p)
        return [p[i] * c + kp[i] * s + k[i] * kd * (1 - c) for i in range(3)]
    axes = [rot(e) for e in ([1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0])]
    ro = rot(origin)
    return frame_matrix([origin[i] - ro[i] for i in range(3)], axes)


FRAMES = {2: [((0.0, 0.0), ((1.0, 0.0), (0.0, 1.0))), ((1.0, 2.0), ((0.0, 1.0), (-1.0, 0.0))), ((-3.0, 0.5), ((2.0, 0.0), (1.0, 1.0))), ((0.0, 4.0), ((0.6, 0.8), (-0.8, 0.6))), ((1.0, 1.0), ((0.0, 1.0), (1.0, 0.0))), ((5.0, -1.0), ((0.5, 0.5), (3.0, -1.0)))],
          3: [((0.0, 0.0, 0.0), ((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0))), ((1.0, 2.0, 3.0), ((0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (1.0, 0.0, 0.0))),
              ((-3.0, 0.5, 0.0), ((2.0, 0.0, 0.0), (1.0, 1.0, 0.0), (0.0, 0.5, 1.0))), ((0.0, 4.0, 1.0), ((0.6, 0.8, 0.0), (-0.8, 0.6, 0.0), (0.0, 0.0, 1.0))),
              ((1.0, 1.0, 1.0), ((0.0, 1.0, 0.0), (1.0, 0.0, 0.0), (0.0, 0.0, 1.0))), ((0.0, 0.0, -2.0), ((0.0, 0.0, 2.0), (0.0, -1.0, 0.0), (3.0, 0.0, 1.0))), ((5.0, -1.0, 2.0), ((0.5, 0.5, 0.0), (3.0, -1.0, 1.0), (0.0, 1.0, 1.0)))]}


def objects(d, frame):
    V, P = (AV.Vector2D, AV.Point2D) if d == 2 else (AV.Vector3D, AV.Point3D)
    return [P(frame[0])] + [V(a) for a in frame[1]]


def cells_model(d, k):
    n = d + 1
    return [[float(((i * n + j) * (k + 2)) % 7 - 2 + (3 if i == j else 0)) for j in range(n)] for i in range(n)]


def matrix_ops(d):
    M = AV.Matrix2D if d == 2 else AV.Matrix3D
    V, P = (AV.Vector2D, AV.Point2D) if d == 2 else (AV.Vector3D, AV.Point3D)
    ops = {}

    def call(name, f):
        def op(x, m, w):
            r, m2 = f(x, m, w)
            return (x, m2) if r is True else (x, "returned %r" % (r,))
        ops[name] = op

    def put(m, i, j, v):
        m = [list(r) for r in m]
        m[i][j] = v
        return m

    def other(w, o, label="the other matrix"):
        w.add(label, lambda: np.array(o.as_array()))
        return o

    def args(w, f):
        os = objects(d, f)
        for o in os:
            w.add("a vector of the frame", lambda o=o: coords(o))
        return os
    call("identity", lambda x, m, w: (x.set_to_identity(), eye(d + 1)))
    call("set_cell", lambda x, m, w: (x.set_cell(0, d, -2.5), put(m, 0, d, -2.5)))
    call("set_cell last", lambda x, m, w: (x.set_cell(d - 1, 0, 4.0), put(m, d - 1, 0, 4.0)))
    call("set_with_array", lambda x, m, w: (x.set_with_array([c for r in cells_model(d, 1) for c in r]), cells_model(d, 1)))
    call("set_with_array rows", lambda x, m, w: (x.set_with_array(cells_model(d, 2)), cells_model(d, 2)))
    ops["invert"] = lambda x, m, w: None if abs(mdet(m)) < 1e-3 else ((x, minv(m)) if x.invert() is True else (x, "no success"))
    call("transform", lambda x, m, w: (x.transform(other(w, matrix(d))), mmul(m, TM[d])))
    call("transform by itself", lambda x, m, w: (x.transform(x), mmul(m, m)))
    for k in (1, 2):
        call("frame %d" % k, lambda x, m, w, k=k: (x.set_with_coordinate_system(*args(w, FRAMES[d][k])), frame_matrix(*FRAMES[d][k])))
    call("align", lambda x, m, w: (x.set_to_align_coordinate_systems(*args(w, FRAMES[d][2]), *args(w, FRAMES[d][3])), mmul(frame_matrix(*FRAMES[d][3]), minv(frame_matrix(*FRAMES[d][2])))))
    if d == 2:
        call("rotation", lambda x, m, w: (x.set_to_rotation(0.75), rotation2(0.75, (0.0, 0.0))))
        call("rotation about", lambda x, m, w: (x.set_to_rotation(-2.0, P((3.0, -1.0))), rotation2(-2.0, (3.0, -1.0))))
        call("rotate to", lambda x, m, w: (x.set_to_rotate_to(V((2.0, 0.0)), V((0.0, -3.0))), rotation2(-math.pi / 2, (0.0, 0.0))))
    else:
        call("rotation", lambda x, m, w: (x.set_to_rotation(30.0, V((0.0, 0.0, 2.0)), P((0.0, 0.0, 0.0))), rotation3(math.pi / 6, [0.0, 0.0, 1.0], [0.0, 0.0, 0.0])))
        call("rotation about", lambda x, m, w: (x.set_to_rotation(-120.0, V((1.0, 2.0, -2.0)), P((3.0, -1.0, 1.0))), rotation3(-2 * math.pi / 3, [1.0, 2.0, -2.0], [3.0, -1.0, 1.0])))
        call("rotate to", lambda x, m, w: (x.set_to_rotate_to(V((2.0, 0.0, 0.0)), V((0.0, -3.0, 0.0))), rotation3(math.pi / 2, [0.0, 0.0, -1.0], [0.0, 0.0, 0.0])))
        call("rotate to itself", lambda x, m, w: (x.set_to_rotate_to(V((2.0, 0.0, 1.0)), V((4.0, 0.0, 2.0))), eye(4)))

    def translate(x, m, w):
        t = V([5.0, -6.0, 7.0][:d])
        x.translation = t
        w.add("the translation", lambda: coords(t))
        for i in range(d):
            m = put(m, i, d, [5.0, -6.0, 7.0][i])
        return x, m
    ops["translation ="] = translate

    def fresh(name, make, f):
        def op(x, m, w):
            n = make(x)
            w.add("the matrix before " + name, lambda: np.array(x.as_array()))
            return n, f(m)
        ops[name] = op
    fresh("copy", lambda x: x.copy(), lambda m: m)
    fresh("from cells", lambda x: M(x.as_array()), lambda m: m)
    fresh("from rows", lambda x: M([[x.get_cell(i, j) for j in range(d + 1)] for i in range(d + 1)]), lambda m: m)
    fresh("product", lambda x: x @ matrix(d), lambda m: mmul(m, TM[d]))
    fresh("product on the right", lambda x: matrix(d) @ x, lambda m: mmul(TM[d], m))
    return ops


def matrix_queries(ctx, x, m, d, tag, where):
    V, P = (AV.Vector2D, AV.Point2D) if d == 2 else (AV.Vector3D, AV.Point3D)
    n = d + 1
    scale = 1 + max(abs(c) for r in m for c in r)
    ctx.step(n * n + 12)
    got = [[x.get_cell(i, j) for j in range(n)] for i in range(n)]
    ctx.expect(near(got, m), tag + " cells", lambda: "%s: %r, expected %r" % (where(), got, m))
    ctx.expect(near(x.as_array(), m), tag + " as_array", where)
    ctx.expect(abs(x.determinant - mdet(m)) <= 1e-9 * scale ** n, tag + " determinant", lambda: "%s: %r, expected %r" % (where(), x.determinant, mdet(m)))
    cs = [coords(o) for o in x.get_as_coordinate_system()]
    ctx.expect(near(cs, [[m[i][d] for i in range(d)]] + [[m[i][j] for i in range(d)] for j in range(d)]), tag + " get_as_coordinate_system", lambda: "%s: %r" % (where(), cs))
    ctx.expect(near(coords(x.translation), [m[i][d] for i in range(d)]), tag + " translation", where)
    for p in ([0.0] * d, [1.0, -2.0, 3.0][:d], [0.5, 0.25, -4.0][:d]):
        for C in (V, P):
            o = C(p)
            r = x @ o
            want = transform_model(m, p)
            ctx.expect(near(coords(r), want) and type(r) is C and coords(o) == p, tag + " times vector", lambda: "%s: %r to %r, expected %r" % (where(), p, coords(r), want))
            ctx.expect(o.transform(x) is True and near(coords(o), want), tag + " transform of a vector", lambda: "%s: %r to %r, expected %r" % (where(), p, coords(o), want))
    y = matrix(d)
    ctx.expect(near((x @ y).as_array(), mmul(m, TM[d])) and near(y.as_array(), TM[d]), tag + " times matrix", where)
    c = x.copy()
    ctx.expect(bool(x.is_equal_to(c)) and bool(c.is_equal_to(x)), tag + " is_equal_to its copy", where)
    c.set_cell(d - 1, d, c.get_cell(d - 1, d) + 1 + scale * 1e-3)
    ctx.expect(not x.is_equal_to(c), tag + " is_equal_to another", where)
    ctx.expect(near([[x.get_cell(i, j) for j in range(n)] for i in range(n)], m), tag + " unchanged by queries", where)


def matrices_histories(ctx, d, first, depth):
    M = AV.Matrix2D if d == 2 else AV.Matrix3D
    ops = matrix_ops(d)

    def make(start):
        x = M.create()
        if start:
            x.set_with_array(cells_model(d, start))
        return x, (cells_model(d, start) if start else eye(d + 1))
    for start in (0, 3):
        histories(ctx, M.__name__, start, ops, depth, first, make,
                  lambda v, m, where: matrix_queries(ctx, v, m, d, M.__name__, where))


def rotations(ctx, d, r):
    """Every pair of directions rotated onto each other; every rotation fixes its centre and axis."""
    V, P = (AV.Vector2D, AV.Point2D) if d == 2 else (AV.Vector3D, AV.Point3D)
    M = AV.Matrix2D if d == 2 else AV.Matrix3D
    grid = [list(map(float, p)) for p in itertools.product(range(-r, r + 1), repeat=d) if any(p)]
    for a in grid:
        for b in grid:
            axes = [None]
            opposite = d == 3 and mlen(mcross(a, b)) == 0 and mdot(a, b) < 0
            if opposite:
                axes += [e for e in grid if mdot(e, a) == 0]
            for axis in axes:
                ctx.trace()
                ctx.state((d, tuple(a), tuple(b), tuple(axis or ())))
                x = M()
                x.set_cell(0, d, 9.0)
                va, vb = V(a), V(b)
                tag = "rotate_to %dD" % d
                with ctx.at(tag):
                    ok = x.set_to_rotate_to(va, vb) if axis is None else x.set_to_rotate_to(va, vb, V(axis))
                    m = x.as_array()
                    want = [t * mlen(a) / mlen(b) for t in b]
                    ctx.expect(ok is True and near(coords(x @ va), want), tag, lambda: "%r to %r (%r): %r" % (a, b, axis, m))
                    R = m[:d, :d]
                    ctx.expect(near(R @ R.T, np.eye(d)) and near(np.linalg.det(R), 1.0) and near(m[:d, d], np.zeros(d)) and near(m[d], [0.0] * d + [1.0]), tag + " is a rotation", lambda: "%r to %r (%r): %r" % (a, b, axis, m))
                    if axis is not None:
                        ctx.expect(near(coords(x @ V(axis)), axis), tag + " about the axis", lambda: "%r to %r (%r): %r" % (a, b, axis, m))
                    elif d == 3 and mlen(mcross(a, b)) > 0:
                        n = mcross(a, b)
                        ctx.expect(near(coords(x @ V(n)), n), tag + " keeps the normal", lambda: "%r to %r: %r" % (a, b, m))
                    ctx.expect(coords(va) == a and coords(vb) == b, tag + " operands", lambda: "%r %r" % (a, b))
    for origin in ([0.0] * d, [1.0, -2.0, 0.5][:d], [10.0, 20.0, -30.0][:d]):
        for deg in (0.0, 30.0, 90.0, 180.0, -45.0, 400.0):
            for axis in (grid if d == 3 else [None]):
                for old in (0, 1):
                    ctx.trace()
                    ctx.state((d, deg, tuple(origin), tuple(axis or ()), old))
                    x = M()
                    if old:
                        x.set_with_array(cells_model(d, 1))
                    o = P(origin)
                    tag = "rotation %dD" % d
                    with ctx.at(tag):
                        if d == 3:
                            k = V(axis)
                            ok, want = x.set_to_rotation(deg, k, o), rotation3(math.radians(deg), axis, origin)
                            ctx.expect(coords(k) == axis, tag + " operands", "%r" % (axis,))
                        else:
                            ok, want = x.set_to_rotation(math.radians(deg), o), rotation2(math.radians(deg), origin)
                        ctx.expect(ok is True and near(x.as_array(), want), tag, lambda: "%r about %r through %r: %r, expected %r" % (deg, axis, origin, x.as_array().tolist(), want))
                        ctx.expect(near(coords(x @ o), origin) and coords(o) == origin, tag + " keeps its centre", lambda: "%r about %r through %r" % (deg, axis, origin))
    for f, g in itertools.product(FRAMES[d], repeat=2):
        ctx.trace()
        ctx.state((d, f, g))
        with ctx.at("align %dD" % d):
            x = M()
            ok = x.set_to_align_coordinate_systems(*objects(d, f), *objects(d, g))
            good = ok is True and near(coords(x @ P(f[0])), g[0])
            for af, ag in zip(f[1], g[1]):
                good = good and near(coords(x @ P([u + w for u, w in zip(f[0], af)])), [u + w for u, w in zip(g[0], ag)])
            ctx.expect(good, "align %dD" % d, lambda: "%r to %r: %r" % (f, g, x.as_array().tolist()))
            y, z = M(), M()
            y.set_with_coordinate_system(*objects(d, f))
            z.set_with_coordinate_system(*objects(d, g))
            ctx.expect(near([coords(o) for o in y.get_as_coordinate_system()], [list(f[0])] + [list(a) for a in f[1]]), "coordinate system %dD" % d, lambda: "%r" % (f,))
            y.invert()
            ctx.expect(bool((z @ y).is_equal_to(x)), "align %dD is the product" % d, lambda: "%r to %r" % (f, g))


# ---------------------------------------------------------------- boxes
def corners(b):
    return coords(b.min), coords(b.max)


def boxes_of(values):
    """Every box with corners on the given values per axis."""
    per = [[(a, b) for a in v for b in v if a <= b] for v in values]
    for spans in itertools.product(*per):
        yield tuple(float(s[0]) for s in spans), tuple(float(s[1]) for s in spans)


def build(d, box):
    B, P = (BoundingBox2D, AV.Point2D) if d == 2 else (BoundingBox3D, AV.Point3D)
    return B.create(P(box[0]), P(box[1]))


def is_box(b, lo, hi, B):
    return type(b) is B and near(coords(b.min), lo, 0.0) and near(coords(b.max), hi, 0.0)


def one_box(ctx, d, box, where, tag):
    """Everything about a single box."""
    B, P = (BoundingBox2D, AV.Point2D) if d == 2 else (BoundingBox3D, AV.Point3D)
    lo, hi = box
    b = where[1]
    text = where[0]
    ctx.step(12)
    size = [h - l for l, h in zip(lo, hi)]
    ctx.expect(is_box(b, lo, hi, B), tag + " corners", lambda: "%s: %r, expected %r" % (text(), corners(b), box))
    ctx.expect(coords(b.min_point) == coords(b.min) and coords(b.max_point) == coords(b.max), tag + " points", text)
    ctx.expect(near(b.sizes(), size), tag + " sizes", lambda: "%s: %r" % (text(), b.sizes()))
    content = b.area() if d == 2 else b.volume()
    ctx.expect(near(content, math.prod(size)), tag + " content", lambda: "%s: %r" % (text(), content))
    ctx.expect(near(b.centroid, [(l + h) / 2 for l, h in zip(lo, hi)]), tag + " centroid", text)
    vs = sorted(map(tuple, np.array(b.to_vertices(), float).tolist()))
    ctx.expect(vs == sorted(itertools.product(*zip(lo, hi))), tag + " vertices", lambda: "%s: %r" % (text(), vs))


def two_boxes(ctx, d, a, b, boxa, boxb, tag):
    B = BoundingBox2D if d == 2 else BoundingBox3D
    (la, ha), (lb, hb) = a, b
    text = lambda: "%r %r" % (a, b)  # noqa: E731
    lo, hi = [max(x, y) for x, y in zip(la, lb)], [min(x, y) for x, y in zip(ha, hb)]
    meet = all(l <= h for l, h in zip(lo, hi))
    ctx.step(5)
    ctx.expect(bool(boxa.intersects(boxb)) == meet, tag + " intersects", text)
    ctx.expect(bool(boxa.overlap(boxb)) == meet, tag + " overlap", text)
    i = boxa.intersection(boxb)
    ctx.expect((i is None) if not meet else i is not None and is_box(i, lo, hi, B), tag + " intersection", lambda: "%s: %r" % (text(), i))
    ul, uh = [min(x, y) for x, y in zip(la, lb)], [max(x, y) for x, y in zip(ha, hb)]
    u = boxa.union(boxb)
    ctx.expect(is_box(u, ul, uh, B), tag + " union", lambda: "%s: %r" % (text(), u))
    c = boxa.copy()
    ok = c.combine(boxb)
    ctx.expect(ok is True and is_box(c, ul, uh, B), tag + " combine", lambda: "%s: %r" % (text(), c))
    # the results are boxes of their own
    for r in (i, u, c):
        if r is not None:
            r.min.x = -99.0
            r.max.y = 99.0
    ctx.expect(is_box(boxa, la, ha, B) and is_box(boxb, lb, hb, B), tag + " operands", lambda: "%s became %r %r" % (text(), corners(boxa), corners(boxb)))


def boxes_pairs(ctx, d, values, part, parts):
    P = AV.Point2D if d == 2 else AV.Point3D
    B = BoundingBox2D if d == 2 else BoundingBox3D
    every = list(boxes_of(values))
    real = [build(d, b) for b in every]
    tag = "boxes %dD" % d
    half = [[x / 2 for x in range(2 * min(v) - 1, 2 * max(v) + 2)] for v in values]
    for n, a in enumerate(every):
        if n % parts != part:
            continue
        ctx.state((d, a))
        ctx.trace()
        with ctx.at(tag):
            one_box(ctx, d, a, (lambda: "%r" % (a,), real[n]), tag)
            for m, b in enumerate(every):
                two_boxes(ctx, d, a, b, real[n], real[m], tag)
            for p in itertools.product(*half):
                ctx.step(2)
                pt = P(p)
                inside = all(l <= x <= h for l, x, h in zip(a[0], p, a[1]))
                ctx.expect(bool(real[n].contains(pt)) == inside, tag + " contains", lambda: "%r %r" % (a, p))
                c = real[n].copy()
                lo, hi = [min(x, y) for x, y in zip(a[0], p)], [max(x, y) for x, y in zip(a[1], p)]
                ok = c.expand(pt)
                ctx.expect(ok is True and is_box(c, lo, hi, B) and coords(pt) == list(p) and c.contains(pt), tag + " expand", lambda: "%r %r: %r" % (a, p, c))
            ctx.expect(is_box(real[n], a[0], a[1], B), tag + " changed", lambda: "%r became %r" % (a, corners(real[n])))
            # the ways to make it
            p, q = P(a[0]), P(a[1])
            made = {"create": B.create(p, q), "min max": B.create_from_min_max_points(p, q), "many points": B.create_from_many_points([q, p, P([(x + y) / 2 for x, y in zip(*a)])]),
                    "array": B.create_from_array(np.array([a[1], a[0]])), "cast list": B.cast([list(a[1]), list(a[0])]), "constructor": B(list(itertools.product(*zip(*a)))), "copy": real[n].copy(),
                    "cast": B.cast((BoundingBox3D if d == 2 else BoundingBox2D).cast(real[n]))}
            for kind, c in made.items():
                lo, hi = list(a[0]), list(a[1])
                if kind == "cast" and d == 3:
                    lo[2] = hi[2] = 0.0
                ctx.expect(is_box(c, lo, hi, B), tag + " by " + kind, lambda: "%r: %r" % (a, corners(c)))
                c.expand(P([50.0] * d))
                ctx.expect(coords(p) == list(a[0]) and coords(q) == list(a[1]) and is_box(real[n], a[0], a[1], B), tag + " by " + kind + " aliases", lambda: "%r" % (a,))


def box_ops(d):
    B, P = (BoundingBox2D, AV.Point2D) if d == 2 else (BoundingBox3D, AV.Point3D)
    ops = {}

    def grow(m, p):
        return tuple(min(a, b) for a, b in zip(m[0], p)), tuple(max(a, b) for a, b in zip(m[1], p))

    def point(w, p):
        o = P(p[:d])
        w.add("the point", lambda: coords(o))
        return o

    def call(name, f):
        def op(b, m, w):
            r, m2 = f(b, m, w)
            return (b, m2) if r is True else (b, "returned %r" % (r,))
        ops[name] = op
    for p in ([3.0, 1.5, -1.0], [-2.0, 0.5, 0.5], [0.5, -4.0, 6.0]):
        call("expand %r" % (p[:d],), lambda b, m, w, p=p: (b.expand(point(w, p)), grow(m, p[:d])))

    def other(w, lo, hi):
        o = build(d, (lo[:d], hi[:d]))
        w.add("the other box", lambda: corners(o))
        return o
    call("combine", lambda b, m, w: (b.combine(other(w, (0.5, -1.0, -2.0), (0.75, 9.0, 0.5))), grow(grow(m, (0.5, -1.0, -2.0)[:d]), (0.75, 9.0, 0.5)[:d])))

    def fresh(name, make, f):
        def op(b, m, w):
            m2 = f(m)
            n = make(b, w)
            w.add("the box before " + name, lambda: corners(b))
            if m2 is None:
                return b, (m if n is None else "intersected")
            return n, m2
        ops[name] = op

    def meet(m, o):
        lo, hi = tuple(max(a, b) for a, b in zip(m[0], o[0])), tuple(min(a, b) for a, b in zip(m[1], o[1]))
        return (lo, hi) if all(a <= b for a, b in zip(lo, hi)) else None
    fresh("copy", lambda b, w: b.copy(), lambda m: m)
    fresh("union", lambda b, w: b.union(other(w, (2.0, 2.0, 2.0), (4.0, 3.0, 5.0))), lambda m: grow(grow(m, (2.0, 2.0, 2.0)[:d]), (4.0, 3.0, 5.0)[:d]))
    fresh("intersection", lambda b, w: b.intersection(other(w, (-1.0, 0.25, 0.0), (2.5, 0.75, 8.0))), lambda m: meet(m, ((-1.0, 0.25, 0.0)[:d], (2.5, 0.75, 8.0)[:d])))
    fresh("again", lambda b, w: B.create_from_min_max_points(b.min, b.max), lambda m: m)
    fresh("from vertices", lambda b, w: B.create_from_array(np.array(b.to_vertices())), lambda m: m)

    def setmin(b, m, w):
        b.min_point = P([-7.0, -7.5, -8.0][:d])
        return b, ((-7.0, -7.5, -8.0)[:d], m[1])

    def setmax(b, m, w):
        b.max_point = P([17.0, 17.5, 18.0][:d])
        return b, (m[0], (17.0, 17.5, 18.0)[:d])
    ops["min ="], ops["max ="] = setmin, setmax
    return ops


def boxes_histories(ctx, d, first, depth):
    ops = box_ops(d)
    B = BoundingBox2D if d == 2 else BoundingBox3D

    def make(start):
        return build(d, start), start

    def queries(b, m, where):
        one_box(ctx, d, m, (where, b), B.__name__)
        for lo, hi in (((-1.0, 0.25, 0.0), (2.5, 0.75, 8.0)), ((30.0,) * 3, (31.0,) * 3), ((0.5,) * 3, (0.5,) * 3)):
            two_boxes(ctx, d, m, (lo[:d], hi[:d]), b, build(d, (lo[:d], hi[:d])), B.__name__)
    for start in (((0.0, 0.0, 0.0)[:d], (1.0, 2.0, 3.0)[:d]), ((0.5, 0.5, 0.5)[:d], (0.5, 0.5, 0.5)[:d])):
        histories(ctx, B.__name__, start, ops, depth, first, make, queries)


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for name in ("Vector2D", "Vector3D", "Point2D", "Point3D"):
        for op in vector_ops(getattr(AV, name), 2 if name.endswith("2D") else 3):
            out.append(("%s %s" % (name, op), vectors_histories, (name, op, 4 if deep and name[0] == "V" else 3 if deep or name[0] == "V" else 2)))
    out.append(("pairs 2D", vectors_pairs, (2, 2)))
    out.append(("pairs 3D", vectors_pairs, (3, 2 if deep else 1)))
    for d in (2, 3):
        for op in matrix_ops(d):
            out.append(("Matrix%dD %s" % (d, op), matrices_histories, (d, op, 3 if deep else 2)))
        for op in box_ops(d):
            out.append(("BoundingBox%dD %s" % (d, op), boxes_histories, (d, op, 4 if deep else 3)))
    out.append(("rotations 2D", rotations, (2, 2)))
    out.append(("rotations 3D", rotations, (3, 2 if deep else 1)))
    flat = [range(4)] * 2 if deep else [range(3)] * 2
    solid = [range(3)] * 3 if deep else [range(3), range(2), range(2)]
    out.append(("boxes 2D", boxes_pairs, (2, flat, 0, 1)))
    parts = 16 if deep else 3
    for k in range(parts):
        out.append(("boxes 3D %d" % k, boxes_pairs, (3, solid, k, parts)))
    return out
