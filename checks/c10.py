"""C10: a NURBS surface object never answers from stale or shared state."""
import itertools
from fractions import Fraction as F

import numpy as np

import ref
import shapes
from c08 import grid, hom, wgrid
from mmcore.geom.nurbs import NURBSSurface

PID = "C10"
ASSUMPTIONS = [
    "reads agree with the exact surface of the current degree, knots and homogeneous control points within 1e-9",
    "control_points_w / control_points_flat_w are live views of the surface by design and are not written through",
]
BOUNDS = {
    "start surfaces": "degrees (1..3) x (1..3) with 1 interior knot or none, shifted and unclamped domains, 2 weight patterns; built from given and from default knots",
    "histories": "every sequence of up to 3 operations on up to 3 live surfaces: read everything, assign knots_u / knots_v (scaled, shifted, stretched), assign the degree and back, normalize_knots, insert_knot_u / v, copy, rebuild from the own data, writing to every array passed in or returned",
    "observed": "after each operation, on every live surface: knots, degree, shape, interval, control points (4 forms), bounding box, points at 9 parameter pairs, hash and equality with a freshly built surface and inequality with 4 neighbours",
}


def default_knots(p, n):
    return tuple([F(0)] * (p + 1) + [F(i) for i in range(1, n - p)] + [F(n - p)] * (p + 1))


class Obj:
    def __init__(self, s, p, U, V, Hg):
        self.s, self.p, self.U, self.V, self.H = s, p, tuple(U), tuple(V), Hg

    def copy(self, s):
        return Obj(s, self.p, self.U, self.V, self.H)


def build(p, U, V, Hg):
    a = np.array([[[float(x) for x in h] for h in r] for r in Hg])
    return NURBSSurface(a, p, shapes.knots(U), shapes.knots(V))


MEMO = {}


def exact_point(o, uv):
    k = (o.p, o.U, o.V, uv, tuple(h for r in o.H for h in r))
    if k not in MEMO:
        h = ref.surface_hom(o.U, o.V, *o.p, o.H, *uv)
        MEMO[k] = tuple(x / h[3] for x in h[:3])
    return MEMO[k]


def observe(ctx, o, sig, full):
    s = o.s
    n = (len(o.H), len(o.H[0]))
    W = np.array([[[float(x) for x in h] for h in r] for r in o.H])
    ctx.step()
    good = ctx.expect(tuple(s.degree) == o.p and tuple(s.shape) == n, f"{sig}: degree and shape", f"{tuple(s.degree)} {s.shape} expected {o.p} {n}")
    good &= ctx.expect(ref.near(s.knots_u, o.U, 1e-12) and ref.near(s.knots_v, o.V, 1e-12), f"{sig}: knots", lambda: f"{s.knots_u} {s.knots_v} expected {shapes.knots(o.U)} {shapes.knots(o.V)}")
    if not good:
        return False
    dom = ((o.U[o.p[0]], o.U[-1 - o.p[0]]), (o.V[o.p[1]], o.V[-1 - o.p[1]]))
    good &= ctx.expect(all(ref.near(a, b, 1e-12) for a, b in zip(s.interval(), dom)), f"{sig}: interval", lambda: f"{s.interval()} expected {[[float(x) for x in d] for d in dom]}")
    C = W[..., :3] / W[..., 3:]
    for name, got, want in (("control_points_w", s.control_points_w, W), ("control_points_flat_w", s.control_points_flat_w, W.reshape(-1, 4)), ("control_points", s.control_points, C), ("control_points_flat", s.control_points_flat, C.reshape(-1, 3))):
        good &= ctx.expect(np.allclose(np.array(got), want, atol=1e-9, rtol=0), f"{sig}: {name}", lambda: f"{np.array(got).tolist()} expected {want.tolist()}")
    bb = np.array(s.bbox())
    good &= ctx.expect(np.allclose(bb, [C.reshape(-1, 3).min(0), C.reshape(-1, 3).max(0)], atol=1e-9), f"{sig}: bbox", lambda: f"{bb.tolist()}")
    exact = list(itertools.product(*[(a, (a + b) / 2, b) for a, b in dom]))
    uv = [(float(x), float(y)) for x, y in exact]
    multi = s.evaluate_multi(np.array(uv))
    for k, (u, v) in enumerate(uv):
        want = exact_point(o, exact[k])
        good &= ctx.expect(ref.near(s.evaluate(np.array([u, v])), want) and ref.near(s.evaluate_v2(u, v), want) and ref.near(multi[k], want), f"{sig}: point at {u},{v}", lambda: f"{s.evaluate(np.array([u, v]))} exact {[float(x) for x in want]}")
    if full:
        args = (np.array(s.control_points_w), o.p, np.array(s.knots_u), np.array(s.knots_v))
        x = NURBSSurface(*args)
        good &= ctx.expect(hash(x) == hash(s) and x == s and not (x != s) and s == s.copy(), f"{sig}: equal to a surface of the same data", "")
        for i in range(4):
            b = [args[0].copy(), o.p, args[2].copy(), args[3].copy()]
            if i == 0:
                b[0][-1, -1, 3] += 0.5
            elif i == 1:
                b[0][0, -1, 1] += 0.5
            else:
                b[i] = b[i] * 2
            good &= ctx.expect(not (NURBSSurface(*b) == s), f"{sig}: unequal to a surface of other data ({i})", "")
    return good


def changes(o):
    """(name, f) pairs; f mutates o (object and model) or returns a new Obj."""
    s = o.s
    out = []

    def assign(d, K):
        if d == 0:
            s.knots_u = shapes.knots(K)
            o.U = tuple(K)
        else:
            s.knots_v = shapes.knots(K)
            o.V = tuple(K)

    def listed(d, K):
        # knots may be assigned as a list, too
        if d == 0:
            s.knots_u = [float(x) for x in K]
            o.U = tuple(K)
        else:
            s.knots_v = [float(x) for x in K]
            o.V = tuple(K)

    for d in (0, 1):
        K = (o.U, o.V)[d]
        out.append((f"knots_{'uv'[d]} scaled", lambda d=d, K=K: assign(d, [x * 2 for x in K])))
        out.append((f"knots_{'uv'[d]} shifted", lambda d=d, K=K: listed(d, [x - 3 for x in K])))
        out.append((f"knots_{'uv'[d]} mirrored", lambda d=d, K=K: assign(d, [K[0] + K[-1] - x for x in reversed(K)])))

    def degree(d):
        n = (len(o.H), len(o.H[0]))
        s.degree = d
        o.p = d
        o.U, o.V = default_knots(d[0], n[0]), default_knots(d[1], n[1])

    out.append(("degree lowered", lambda: degree((1, 1))))
    if len(o.H) > 2 and len(o.H[0]) > 2:
        out.append(("degree 2,1", lambda: degree((2, 1))))
        out.append(("degree 1,2", lambda: degree((1, 2))))

    def normalize():
        s.normalize_knots()
        o.U = tuple((x - o.U[0]) / (o.U[-1] - o.U[0]) for x in o.U)
        o.V = tuple((x - o.V[0]) / (o.V[-1] - o.V[0]) for x in o.V)

    out.append(("normalize", normalize))

    def insert(d, count):
        K, p = (o.U, o.V)[d], o.p[d]
        a, b = K[p], K[-1 - p]
        t = a + (b - a) * F(3, 8)
        (s.insert_knot_u, s.insert_knot_v)[d](float(t), count)
        new = tuple(sorted(K + (t,) * count))
        old = (o.U, o.V, o.H)
        o.U, o.V = (new, o.V) if d == 0 else (o.U, new)
        # the control net of the finer knots is the one that gives the same points: verified against the old surface, then taken over
        H = [[tuple(F(x) for x in h) for h in r] for r in np.array(s.control_points_w).tolist()]
        for x in (F(1, 8), F(1, 2), F(7, 8)):
            for y in (F(0), F(3, 4)):
                u, v = [K[q] + (K[-1 - q] - K[q]) * z for K, q, z in ((old[0], o.p[0], x), (old[1], o.p[1], y))]
                g = ref.surface_hom(o.U, o.V, *o.p, H, u, v)
                assert ref.near(g, ref.surface_hom(old[0], old[1], *o.p, old[2], u, v)), "insertion changed the surface"
        o.H = H

    for d in (0, 1):
        K = (o.U, o.V)[d]
        p = o.p[d]
        t = K[p] + (K[-1 - p] - K[p]) * F(3, 8)
        if t not in K:
            for c in {1, p}:
                out.append((f"insert_{'uv'[d]} {c}", lambda d=d, c=c: insert(d, c)))
    out.append(("copy", lambda: o.copy(s.copy())))
    out.append(("copy of copy", lambda: o.copy(s.copy().copy())))

    def rebuilt():
        w, ku, kv = np.array(s.control_points_w), s.knots_u, s.knots_v
        x = NURBSSurface(w, tuple(s.degree), ku, kv)
        w += 7
        ku[:] = 5
        kv += 1
        return o.copy(x)

    def written():
        for a in (s.knots_u, s.knots_v, s.control_points, s.control_points_flat, s.bbox(), s.evaluate(np.array([float(o.U[o.p[0]]), float(o.V[o.p[1]])]))):
            np.asarray(a)[...] = 99.0

    def passed():
        k = s.knots_u
        s.knots_u = k
        k[:] = 9.0
        k = s.knots_v
        s.knots_v = k
        k[:] = 9.0

    out.append(("rebuild from data written afterwards", rebuilt))
    out.append(("write to everything returned", written))
    out.append(("write to the knots passed in", passed))
    return out


def run(start, hist):
    """Execute a history: a list of (object index, operation index)."""
    objs = [start()]
    names = []
    for i, k in hist:
        name, f = changes(objs[i])[k]
        names.append(f"{i}.{name}")
        new = f()
        if isinstance(new, Obj):
            objs.append(new)
    return objs, names


def key(objs):
    return tuple((o.p, o.U, o.V, tuple(np.round([[float(x) for x in h] for r in o.H for h in r], 6).ravel())) for o in objs)


def explore(ctx, start, depth, tag):
    frontier = [()]
    seen = set()
    for level in range(depth + 1):
        new = []
        for h in frontier:
            sig = tag
            with ctx.at(f"{tag} {h}"):
                objs, names = run(start, h)
                ctx.step(len(h))
                sig = f"{tag}: {', '.join(names)}"
                k = key(objs)
                ctx.state((tag, k))
                good = True
                for i, o in enumerate(objs):
                    good &= observe(ctx, o, f"{sig} surface {i}", level <= 1)
                ctx.trace()
                # states reached by writes and reads are continued too: aliasing is not part of the key
                last = names[-1].split(".")[1] if names else ""
                if good and level < depth and (k, last) not in seen:
                    seen.add((k, last))
                    for i in range(len(objs)):
                        for j in range(len(changes(objs[i]))):
                            new.append(h + ((i, j),))
        frontier = new
    ctx.sample(sig)


def starts(tier):
    out = []
    for p, q in itertools.product((1, 2, 3), repeat=2):
        for n, (U, V) in enumerate(
            (
                ((F(0),) * (p + 1) + (F(1),) * (p + 1), (F(-1),) * (q + 1) + (F(1, 2),) + (F(3, 2),) * (q + 1)),
                (tuple(shapes.unclamped_knots(p, p + 2))[1], (F(2),) * (q + 1) + (F(3),) * (q + 1)),
            )
        ):
            for wk in ("one", "mix"):
                if tier == "quick" and (p + q + n + (wk == "mix")) % 2:
                    continue
                out.append((p, q, U, V, wk))
    return out


def given(ctx, p, q, U, V, wk, depth):
    nu, nv = len(U) - p - 1, len(V) - q - 1
    Hg = hom(grid(nu, nv), wgrid(wk, nu, nv))
    explore(ctx, lambda: Obj(build((p, q), U, V, Hg), (p, q), U, V, Hg), depth, f"degree {p},{q} U={[float(x) for x in U]} V={[float(x) for x in V]} w={wk}")


def default(ctx, p, q):
    for nu in range(p + 1, p + 4):
        for nv in range(q + 1, q + 3):
            P = grid(nu, nv)
            Hg = hom(P, wgrid("one", nu, nv))
            a = np.array([[[float(x) for x in h] for h in r] for r in P])
            # cartesian control points without weights, default knots; None for one direction only
            U, V = default_knots(p, nu), default_knots(q, nv)
            explore(ctx, lambda: Obj(NURBSSurface(a.copy(), (p, q)), (p, q), U, V, Hg), 1, f"default degree {p},{q} size {nu},{nv}")
            W = tuple(x * 3 for x in V)
            explore(ctx, lambda: Obj(NURBSSurface(a.copy(), (p, q), None, shapes.knots(W)), (p, q), U, W, Hg), 0, f"default u degree {p},{q} size {nu},{nv}")
            W = tuple(x - 3 for x in U)
            explore(ctx, lambda: Obj(NURBSSurface(a.copy(), (p, q), shapes.knots(W)), (p, q), W, V, Hg), 0, f"default v degree {p},{q} size {nu},{nv}")


def tasks(tier):
    out = []
    for p, q, U, V, wk in starts(tier):
        depth = 2 if tier == "quick" and (p, q) != (1, 1) else 3
        out.append((f"given {p},{q} {len(U)} {len(V)} {wk}", given, (p, q, U, V, wk, depth)))
    out += [(f"default {p},{q}", default, (p, q)) for p, q in itertools.product((1, 2, 3), repeat=2)]
    return out
