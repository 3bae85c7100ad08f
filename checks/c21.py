"""C21: the vector kernels and the plane tools compute what they are defined to compute."""
import itertools
import math

import numpy as np

from mmcore.numeric import plane as P
from mmcore.numeric import vectors as V
from mmcore.numeric.plane import cplane as CP

PID = "C21"
ASSUMPTIONS = [
    "coordinates are small integers (or such integers times 1/8 and 1000), so products are exact and equality is asked for wherever no root or quotient is involved, otherwise agreement to 1e-9 of the size of the values",
    "planes are (origin, x axis, y axis, normal) with orthonormal axes unless a plane is only asked for its origin and normal",
]
BOUNDS = {
    "products": "every pair of vectors with entries -2..2 in dimension 1..3 and with entries -1..1 (thorough -2..2) in dimension 4, one pair at a time and all at once, contiguous and strided",
    "2x2 systems": "every matrix and right-hand side with entries -4..4 (thorough -5..5), decompositions of every vector with entries -1..1 in every independent pair",
    "coordinates": "every point with entries -2..2, spherical and cylindrical, there and back",
    "planes": "24 right-handed frames with integer axes (scaled to unit length 1, 3, 5-12-13 ...) x 27 origins x 27 points: evaluate, invert, project, distance, equations",
    "intersections": "every pair of planes with normals -2..2 and triple with normals -1..1 (thorough -2..2) x origins, batches in every shape; every line and ray of a family with every plane",
}


def near(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(a == b))


def strided(A):
    A = np.asarray(A, dtype=float)
    if A.ndim == 1:
        w = np.full(2 * len(A), 1e3)
        w[::2] = A
        return w[::2]
    w = np.full((2 * A.shape[0], A.shape[1] + 2), 1e3)
    w[::2, 1:-1] = A
    return w[::2, 1:-1]


def trash():
    """Leave numbers in the memory that the next small arrays are taken from."""
    for n in (2, 3, 4, 6, 8, 9, 12, 16, 27, 64, 125):
        np.full(n, 7.5)


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


# ---- products ------------------------------------------------------------------------------------------------------------

def t_products(ctx, n, vals, part, parts):
    vecs = list(itertools.product(vals, repeat=n))
    mine = vecs[part::parts]
    B = np.array(vecs, dtype=float)
    for a in mine:
        fa = np.array(a, dtype=float)
        sig = f"vector {a}"
        ctx.state((n, a))
        with ctx.at(sig):
            trash()
            ctx.expect(V.scalar_norm(fa) == math.sqrt(dot(a, a)), sig, "scalar_norm")
            if any(a):
                ctx.expect(near(V.scalar_unit(fa), fa / math.sqrt(dot(a, a)), 1e-14), sig, "scalar_unit")
                c = fa.copy()
                ctx.expect(V.scalar_normalize(c) == 1 and near(c, fa / math.sqrt(dot(a, a)), 1e-14), sig, "scalar_normalize")
            else:
                c = fa.copy()
                ctx.expect(V.scalar_normalize(c) == 0 and same(c, fa), sig, "scalar_normalize of zero")
            for b in vecs:
                fb = np.array(b, dtype=float)
                w = f"{a} {b}"
                for x, y in ((fa, fb), (strided(a), strided(b))):
                    ctx.expect(V.scalar_dot(x, y) == dot(a, b), w, "scalar_dot")
                    if n == 3:
                        ctx.expect(same(V.scalar_cross(x, y), cross(a, b)), w, "scalar_cross")
                        if any(b):
                            s = dot(a, b) / dot(b, b)
                            ctx.expect(near(V.vector_projection(x, y), s * fb), w, "vector_projection")
                ctx.step()
            # all the vectors at once
            A = np.tile(fa, (len(vecs), 1))
            D = np.array([dot(a, b) for b in vecs], dtype=float)
            for x, y in ((A, B), (strided(A), strided(B))):
                trash()
                for name, got in (("dot", V.dot(x, y)), ("dot_array_x_array", V.dot_array_x_array(x, y)),
                                  ("dot_vec_x_array", V.dot_vec_x_array(fa, y)), ("dot_array_x_vec", V.dot_array_x_vec(y, fa))):
                    ctx.expect(same(got, D), sig, lambda: f"{name} gives {np.asarray(got).tolist()[:9]}..., not {D.tolist()[:9]}...")
                    ctx.step()
                ctx.expect(near(V.gram_schmidt(x, y), y - x * D[:, None]), sig, "gram_schmidt")
                ctx.expect(same(V.norm(y), np.sqrt((B * B).sum(1))), sig, "norm")
                nz = B[(B != 0).any(1)]
                ctx.expect(near(V.unit(nz), nz / np.sqrt((nz * nz).sum(1))[:, None], 1e-14), sig, "unit")
                if n == 3:
                    ctx.expect(same(V.cross(x, y), [cross(a, b) for b in vecs]), sig, "cross")
            # the farthest of a set of vectors in a direction
            for lo in range(0, len(vecs), max(1, len(vecs) // 5)):
                S = B[lo:lo + 7]
                best = max(dot(a, s) for s in S)
                ctx.expect(V.scalar_dot(np.asarray(V.support_vector(S, fa)), fa) == best, sig, "support_vector")
                M = np.asarray(V.multi_support_vector(S, B))
                ctx.expect(same((M * B).sum(1), (S @ B.T).max(0)) and all((m == S).all(1).any() for m in M), sig, "multi_support_vector")
                ctx.step(2)
    ctx.trace()


def t_gram(ctx):
    """Gram-Schmidt with unit vectors: what is left of b is perpendicular to a and differs from b by a multiple of a."""
    units = [(1, 0, 0), (0, 0, -1), (0.6, 0.8, 0), (0, -0.28, 0.96), (1 / 3, 2 / 3, -2 / 3), (2 / 7, -3 / 7, 6 / 7)]
    for a in units:
        for b in itertools.product(range(-2, 3), repeat=3):
            fa, fb = np.array(a, dtype=float), np.array(b, dtype=float)
            want = fb - fa * dot(a, b)
            w = f"{a} {b}"
            ctx.state((a, b))
            with ctx.at(w):
                r = np.full(3, 7.5)
                V.scalar_gram_schmidt(fa, fb, r)
                ctx.expect(near(r, want), w, "scalar_gram_schmidt")
                ctx.expect(near(V.gram_schmidt(fa[None], fb[None]), want[None]), w, "gram_schmidt")
                ctx.expect(abs(dot(r, a)) < 1e-9, w, "not perpendicular")
                ctx.step(2)
    ctx.trace()


def t_matmul(ctx, vals):
    mats = list(itertools.product(vals, repeat=4))
    L = np.array([np.reshape(m, (2, 2)) for m in mats], dtype=float)
    for m in mats:
        A = np.reshape(m, (2, 2)).astype(float)
        ctx.state(m)
        with ctx.at(str(m)):
            trash()
            ctx.expect(same(V.matmul_array(np.tile(A, (len(L), 1, 1)), L), A @ L), str(m), "matmul_array")
            ctx.step()
    for r, k, c in itertools.product(range(1, 4), repeat=3):
        A = np.arange(2.0 * r * k).reshape(2, r, k) - 3
        B = 2.0 - np.arange(2.0 * k * c).reshape(2, k, c)
        trash()
        ctx.expect(same(V.matmul_array(A, B), A @ B), str((r, k, c)), "matmul_array")
        ctx.step()
    ctx.trace()


def t_2x2(ctx, vals, first):
    ms = [(first,) + m for m in itertools.product(vals, repeat=3)]
    batch, wants = [], []
    for a, b, c, d in ms:
        det = a * d - b * c
        M = np.array([[a, b], [c, d]], dtype=float)
        sig = f"matrix {[[a, b], [c, d]]}"
        ctx.state((a, b, c, d))
        inv, status = V.invert_jacobian(M)
        batch.append(M)
        if det:
            want = np.array([[d, -b], [-c, a]]) / det
            ctx.expect(status == 0 and near(inv, want, 1e-14), sig, "invert_jacobian")
            wants.append(want)
        else:
            ctx.expect(status == -1, sig, "invert_jacobian does not report a singular matrix")
            wants.append(None)
        for y in itertools.product(vals[::2], repeat=2):
            r = np.full(2, 7.5)
            ok = V.solve2x2(M, np.array(y, dtype=float), r)
            ctx.expect(bool(ok) == (det != 0), sig, f"solve2x2 returns {ok}")
            if det:
                ctx.expect(near(r, [(y[0] * d - b * y[1]) / det, (a * y[1] - c * y[0]) / det], 1e-14), sig, lambda: f"solve2x2 of {y} gives {r.tolist()}")
            ctx.step()
    inv, status = V.invert_jacobian(np.array(batch))
    inv, status = np.asarray(inv), np.asarray(status)
    ctx.expect(status.shape == (len(ms),), "batch", "one status per matrix")
    for i, want in enumerate(wants):
        ctx.expect(status[i] == (0 if want is not None else -1), str(ms[i]), "invert_jacobian of many: status")
        ctx.expect(want is None or near(inv[i], want, 1e-14), str(ms[i]), "invert_jacobian of many")
    ctx.trace()


def t_decompose(ctx):
    vecs = list(itertools.product((-1, 0, 1), repeat=3)) + [(2, 1, 0), (0, 3, -1), (5, 0, 2)]
    for a, b in itertools.product(vecs, repeat=2):
        if not any(cross(a, b)):
            continue
        fa, fb = np.array(a, dtype=float), np.array(b, dtype=float)
        ctx.state((a, b))
        C = [(p, q) for p in (-2, 0, 1, 3) for q in (-1, 0, 2)]
        w = f"{a} {b}"
        with ctx.at(w):
            n = np.array(cross(a, b), dtype=float)
            T = np.array([p * fa + q * fb + n * ((p + q) % 3) for p, q in C])  # what is off their plane does not count
            for (p, q), t in zip(C, T):
                ctx.expect(near(V.decompose_vector(t, fa, fb), [p, q]), w, "decompose_vector")
                ctx.step()
            ctx.expect(near(V.decompose_vectors(T, fa, fb), C), w, "decompose_vectors")
            r = np.full((len(C), 2), 7.5)
            V.decompose_vectors(T, fa, fb, r)
            ctx.expect(near(r, C), w, "decompose_vectors into a given array")
    ctx.trace()


def t_coordinates(ctx):
    pts = list(itertools.product((-2, -1, 0, 0.5, 2), repeat=3))
    X = np.array(pts, dtype=float)
    S = np.asarray(V.cartesian_to_spherical(X))
    C = np.asarray(V.courtesan_to_cylindrical(X))
    for p, s, c in zip(pts, S, C):
        w = str(p)
        rho = math.hypot(p[0], p[1])
        ctx.state(p)
        ctx.expect(near(s, [math.sqrt(dot(p, p)), math.atan2(rho, p[2]), math.atan2(p[1], p[0])], 1e-14), w, f"cartesian_to_spherical gives {s.tolist()}")
        ctx.expect(near(c, [rho, math.atan2(p[1], p[0]), p[2]], 1e-14), w, f"courtesan_to_cylindrical gives {c.tolist()}")
        ctx.step(2)
    ctx.expect(near(V.spherical_to_cartesian(S), X, 1e-14), "points", "spherical_to_cartesian does not return")
    ctx.expect(near(V.cylindrical_to_xyz(C), X, 1e-14), "points", "cylindrical_to_xyz does not return")
    # polygons: the sign of the shoelace sum
    square = [(0, 0), (2, 0), (2, 1), (0, 1)]
    for shift in range(4):
        poly = square[shift:] + square[:shift]
        loop = np.array(poly + poly[:1], dtype=float)
        ctx.expect(V.det(loop) == -4 and V.points_order(loop) == 1, f"square {shift}", "points_order of a counterclockwise square")
        ctx.expect(V.det(loop[::-1].copy()) == 4 and V.points_order(loop[::-1].copy()) == 0, f"square {shift}", "points_order of a clockwise square")
        ctx.expect(V.multi_points_order([loop, loop[::-1].copy(), loop[:1]]).tolist() == [1, 0, -1], f"square {shift}", "multi_points_order")
    ctx.trace()


def t_closest(ctx):
    dirs = [d for d in itertools.product((-1, 0, 1), repeat=3) if any(d)] + [(2, 1, 0), (3, -1, 2)]
    starts = [(0, 0, 0), (1, -2, 3), (-0.5, 4, 0)]
    for d, s in itertools.product(dirs, starts):
        fd, fs = np.array(d, dtype=float), np.array(s, dtype=float)
        ctx.state((d, s))
        for p in itertools.product((-2, 0, 1, 3), repeat=3):
            fp = np.array(p, dtype=float)
            want = fs + fd * (dot(fp - fs, fd) / dot(d, d))
            w = f"start {s} direction {d} point {p}"
            ctx.expect(near(V.closest_point_on_ray(fs, fd, fp), want), w, "closest_point_on_ray")
            ctx.expect(near(V.closest_point_on_line(fs, fs + fd, fp), want), w, "closest_point_on_line")
            ctx.step(2)
    for q in itertools.product(itertools.product((-1, 0, 2), repeat=2), repeat=2):
        a, b = (*q[0], 1), (*q[1], -1)
        c, d = (1, 2, q[0][0]), (q[1][1], 0, 3)
        fa, fb, fc, fd = (np.array(x, dtype=float) for x in (a, b, c, d))
        ctx.expect(same(V.normal_from_4pt(fa, fb, fc, fd), cross(fc - fa, fd - fb)), str((a, b, c, d)), "normal_from_4pt")
        ctx.step()
    ctx.trace()


# ---- planes ----------------------------------------------------------------------------------------------------------------

TRIADS = [((1, 0, 0), (0, 1, 0)), ((0, 0, 1), (0, 1, 0)), ((1 / 3, 2 / 3, 2 / 3), (2 / 3, 1 / 3, -2 / 3)),
          ((0.6, 0.8, 0), (0, 0, 1)), ((0, 5 / 13, 12 / 13), (1, 0, 0)), ((2 / 7, 3 / 7, 6 / 7), (3 / 7, -6 / 7, 2 / 7)),
          ((-0.28, 0, 0.96), (0, -1, 0)), ((0.48, 0.6, -0.64), (0.8, 0, 0.6))]
FRAMES = []
for _x, _y in TRIADS:
    _z = cross(_x, _y)
    FRAMES += [(_x, _y, _z), (_y, _z, _x), (tuple(-v for v in _x), _z, _y)]
ORIGINS = [(0, 0, 0), (1, -2, 3), (-4, 0, 0.5)]


class Pln:
    def __init__(self, a):
        self.origin, self.xaxis, self.yaxis, self.zaxis = a


def t_planes(ctx):
    for F, o in itertools.product(FRAMES, ORIGINS):
        pln = np.array([o, *F], dtype=float)
        n = np.array(F[2], dtype=float)
        sig = f"frame {np.round(pln, 3).tolist()}"
        ctx.state((F, o))
        with ctx.at(sig):
            loc = np.array(list(itertools.product((-2, 0, 1.5), repeat=3)))
            wor = loc @ pln[1:] + pln[0]
            ctx.expect(near(P.evaluate_plane_arr(pln, loc), wor), sig, "evaluate_plane_arr")
            ctx.expect(near(P.inverse_evaluate_plane_arr(pln, wor), loc), sig, "inverse_evaluate_plane_arr")
            for l, p in zip(loc, wor):
                w = f"{sig} at {l.tolist()}"
                ctx.expect(near(P.evaluate_plane(pln, l), p), w, "evaluate_plane")
                ctx.expect(near(P.inverse_evaluate_plane(pln, p), l), w, "inverse_evaluate_plane")
                ctx.expect(near(P.local_to_world(l, Pln(pln)), p), w, "local_to_world")
                ctx.expect(near(P.world_to_local(p, Pln(pln)), l), w, "world_to_local")
                ctx.expect(near(P.distance(pln, p), abs(l[2])), w, "distance")
                ctx.expect(near(P.distance(np.array([o, *F[:2], 2.5 * n]), p), abs(l[2])), w, "distance from a plane with a longer normal")
                ctx.expect(near(P.project(pln, p), p - n * l[2]), w, "project")
                ctx.expect(near(P.project_point_by_normal(p, n, pln[0]), p - n * l[2]), w, "project_point_by_normal")
                ctx.step(7)
            # equations
            a, b = wor[2], wor[13]
            pts = [np.array(q) for q in ((pln[0]), pln[0] + pln[1] * 2 + pln[2], pln[0] - pln[1] + pln[2] * 3)]
            eq = P.plane_eq_from_pts(*pts)
            nn = np.cross(pts[1] - pts[0], pts[2] - pts[0])
            ctx.expect(near(eq[:3], nn) and near(eq[3], -nn @ pts[0]), sig, lambda: f"plane_eq_from_pts gives {eq.tolist()}")
            made, eq2 = P.plane_from_3pt(*pts)
            ctx.expect(near(eq2, eq), sig, "plane_from_3pt: equation")
            frame_is(ctx, made, pts[0], nn, sig, "plane_from_3pt")
            ctx.expect(near(made[1], (pts[1] - pts[0]) / np.linalg.norm(pts[1] - pts[0])), sig, "plane_from_3pt: x axis")
            for k in (1.0, -3.0, 0.25):
                e = k * np.array([*n, -n @ pln[0]])
                org, N = P.plane_from_eq(e)
                ctx.expect(near(N, n * np.sign(k)) and near(e[:3] @ org, -e[3]), sig, lambda: f"plane_from_eq of {e.tolist()} gives {org.tolist()}, {np.asarray(N).tolist()}")
                d = P.plane_signed_distance(e, wor)
                ctx.expect(near(d, k * loc[:, 2], 1e-8), sig, "plane_signed_distance")
                ctx.step(2)
            # frames from a normal
            for k in (1.0, 4.0):
                frame_is(ctx, P.plane_from_normal2(pln[0], k * n), pln[0], n, sig, "plane_from_normal2")
            frame_is(ctx, P.plane_from_normal_origin(n, pln[0]), pln[0], n, sig, "plane_from_normal_origin")
            frame_is(ctx, P.plane_from_normal_origin(n, n * 2.0), n * 2.0, n, sig, "plane_from_normal_origin at the foot of the world origin")
            pv = P.perp_to_vector(n)
            ctx.expect(abs(pv @ n) < 1e-12 and np.linalg.norm(pv) > 1e-3, sig, "perp_to_vector")
            ctx.step(6)
    frame_is(ctx, P.plane_from_normal2(np.array([1.0, 2, 3]), np.zeros(3)), np.array([1.0, 2, 3]), np.array([0, 0, 1.0]), "zero normal", "plane_from_normal2")
    ctx.trace()


def frame_is(ctx, pln, origin, normal, sig, what):
    """A right-handed orthonormal frame with that origin and the direction of that normal."""
    pln = np.asarray(pln, dtype=float)
    ctx.expect(pln.shape == (4, 3) and near(pln[0], origin), sig, f"{what}: origin")
    A = pln[1:]
    ctx.expect(near(A @ A.T, np.eye(3)), sig, lambda: f"{what}: axes {A.tolist()} are not orthonormal")
    ctx.expect(near(A[2], np.asarray(normal) / np.linalg.norm(normal)), sig, f"{what}: normal")
    ctx.expect(near(np.cross(A[0], A[1]), A[2]), sig, f"{what}: not right-handed")


def framed(origin, normal):
    """A plane array with that origin and normal; the axes are not looked at by the intersections."""
    z = np.array(normal, dtype=float)
    h = np.array([1.0, 0, 0]) if abs(z[0]) < np.linalg.norm(z) * 0.9 else np.array([0, 1.0, 0])
    x = np.cross(h, z)
    x /= np.linalg.norm(x)
    y = np.cross(z, x)
    return np.array([origin, x, y / np.linalg.norm(y), z], dtype=float)


def line_is(ctx, got, p, q, sig, what):
    got = np.asarray(got, dtype=float)
    o, d = got
    want = np.cross(p[3], q[3])
    ctx.expect(bool(np.isfinite(got).all()), sig, f"{what}: {got.tolist()}")
    size = 1 + np.abs(p[0]).max() + np.abs(q[0]).max()
    for k in (p, q):
        off = abs((o - k[0]) @ k[3])
        ctx.expect(off <= 1e-9 * size * np.linalg.norm(k[3]) * 10, sig, lambda: f"{what}: the point {o.tolist()} is {off} off a plane")
    c = np.linalg.norm(np.cross(d, want))
    ctx.expect(c <= 1e-9 * np.linalg.norm(want) * np.linalg.norm(d) and np.linalg.norm(d) > 0.1 * np.linalg.norm(want), sig, lambda: f"{what}: direction {d.tolist()}, not along {want.tolist()}")


def normals(vals, unit):
    out = [n for n in itertools.product(vals, repeat=3) if any(n)]
    return [tuple(np.array(n) / np.linalg.norm(n)) for n in out] if unit else out


def t_pairs(ctx, part, parts, vals):
    N = normals(vals, False)
    for i, n in enumerate(N):
        if i % parts != part:
            continue
        planes1, planes2 = [], []
        for m in N:
            if not any(cross(n, m)):
                continue
            for unit, (o, q) in itertools.product((False, True), (((0, 0, 0), (1, 2, -1)), ((3, -1, 0.5), (-2, 4, 1)))):
                a, b = (np.array(v, dtype=float) / (np.linalg.norm(v) if unit else 1) for v in (n, m))
                p, k = framed(o, a), framed(q, b)
                w = f"planes {o} {np.round(a, 3).tolist()} and {q} {np.round(b, 3).tolist()}"
                ctx.state((n, m, unit, o))
                line_is(ctx, CP.plane_plane_intersect(p, k), p, k, w, "plane_plane_intersect")
                line_is(ctx, CP.plane_plane_normal_intersect(p[0], p[3], k[0], k[3]), p, k, w, "plane_plane_normal_intersect")
                ctx.step(2)
                planes1.append(p)
                planes2.append(k)
        A, B = np.array(planes1), np.array(planes2)
        sig = f"planes with normal {n}"
        with ctx.at(sig):
            got = CP.planes_planes_intersect(A, B)
            for f, r in (("planes_planes_intersect", got), ("plane_plane_intersection", CP.plane_plane_intersection(A, B))):
                ctx.expect(np.asarray(r).shape == (len(A), 2, 3), sig, f"{f}: shape")
                for x, y, z in zip(np.asarray(r), A, B):
                    line_is(ctx, x, y, z, sig, f)
            one = A[0]
            ok = [k for k in B if np.linalg.norm(np.cross(one[3], k[3])) > 1e-6][:24]
            K = np.array(ok)
            for f, r in (("planes_plane_intersect", CP.planes_plane_intersect(K, one)), ("many x one", CP.plane_plane_intersection(K, one)),
                         ("one x many", CP.plane_plane_intersection(one, K))):
                for x, k in zip(np.asarray(r), K):
                    line_is(ctx, x, k, one, sig, f)
            line_is(ctx, CP.plane_plane_intersection(one, K[0]), one, K[0], sig, "one x one")
            G, H = A[:12].reshape(3, 4, 4, 3), B[:12].reshape(3, 4, 4, 3)
            for f, r, ref in (("grid x grid", CP.plane_plane_intersection(G, H), zip(A[:12], B[:12])),
                              ("grid x one", CP.plane_plane_intersection(K[:12].reshape(3, 4, 4, 3), one), ((k, one) for k in K[:12])),
                              ("one x grid", CP.plane_plane_intersection(one, K[:12].reshape(2, 6, 4, 3)), ((k, one) for k in K[:12]))):
                r = np.asarray(r)
                ctx.expect(r.shape == (((2, 6) if f == "one x grid" else (3, 4)) + (2, 3)), sig, lambda: f"{f}: shape {r.shape}")
                for x, (y, z) in zip(r.reshape(-1, 2, 3), ref):
                    line_is(ctx, x, y, z, sig, f)
            ctx.step(8)
    ctx.trace()


def t_triples(ctx, part, parts, vals):
    N = normals(vals, False)
    C = [(3, 2, -1), (1, -1, 2), (0, 2, 5)]
    for i, (n, m, k) in enumerate(itertools.product(N, repeat=3)):
        if i % parts != part:
            continue
        det = dot(n, cross(m, k))
        if det == 0:
            continue
        x = np.array((1.0, -2.0, 0.5))
        ctx.state((n, m, k))
        o = [x + np.array(cross(v, c), dtype=float) for v, c in zip((n, m, k), C)]  # points of the planes through x
        pl = [framed(q, v) for q, v in zip(o, (n, m, k))]
        w = f"planes with normals {n} {m} {k}"
        for name, got in (("plane_plane_plane_intersect", P.plane_plane_plane_intersect(*pl)),
                          ("plane_plane_plane_intersect_points_and_normals", P.plane_plane_plane_intersect_points_and_normals(*(v for p in pl for v in (p[0], p[3]))))):
            ctx.expect(near(got, x), w, lambda: f"{name} gives {np.asarray(got).tolist()}, the point is {x.tolist()}")
            ctx.step()
    ctx.trace()


def t_lines(ctx):
    dirs = [d for d in itertools.product((-1, 0, 1), repeat=3) if any(d)] + [(3, 1, -2)]
    for F, o in itertools.product(FRAMES[::2], ORIGINS[:2]):
        pln = np.array([o, *F], dtype=float)
        short = np.array([o, F[2]], dtype=float)
        for d, s in itertools.product(dirs, [(0.5, 0.25, -1), (2, -3, 4)]):
            fd, fs = np.array(d, dtype=float), np.array(s, dtype=float)
            w = f"frame {np.round(pln, 3).tolist()} line {s} {d}"
            ctx.state((F, o, d, s))
            den = fd @ pln[3]
            ray = np.array([fs, fd])
            with ctx.at(w):
                line = P.plane_line_intersection(pln, (fs, fd))
                hits = [("plane_ray_intersection", P.plane_ray_intersection(pln, ray)), ("plane_ray_intersection of a plane given by its normal", P.plane_ray_intersection(short, ray)),
                        ("ray_plane_intersection", P.ray_plane_intersection(short, ray))]
                par = CP.ray_plane_parametric_intersection(pln, ray)
                full = P.plane_line_intersection(pln, (fs, fd), full_return=True)
                if abs(den) < 1e-9:
                    if abs(den) < 1e-15:
                        ctx.expect(line is None and full == (None, None, None) and par is None and all(h is None for _, h in hits), w, "a parallel line is said to meet the plane")
                    continue
                t = ((pln[0] - fs) @ pln[3]) / den
                x = fs + t * fd
                ctx.expect(near(line, x), w, "plane_line_intersection")
                ctx.expect(near(full[1], t) and near(full[2], x) and near(full[0], fs - pln[0]), w, "plane_line_intersection with full_return")
                if t < -1e-9:
                    ctx.expect(par is None and all(h is None for _, h in hits), w, "a ray is said to meet a plane behind it")
                elif t > 1e-9:
                    for name, h in hits:
                        ctx.expect(h is not None and near(h, x), w, lambda: f"{name} gives {h}, not {x.tolist()}")
                    ctx.expect(par is not None and near(par[0], x) and near(par[1], pln[1:3] @ (x - pln[0])), w, lambda: f"ray_plane_parametric_intersection gives {par}")
                    skew = np.array([pln[0], pln[1] * 2 + pln[2], pln[2] * 3, pln[3]])
                    got = CP.ray_plane_parametric_intersection(skew, ray)
                    ctx.expect(got is not None and near(skew[0] + got[1][0] * skew[1] + got[1][1] * skew[2], x), w, "ray_plane_parametric_intersection with axes that are not orthonormal")
                ctx.step(5)
    ctx.trace()


def tasks(tier):
    th = tier == "thorough"
    out = [(f"products/{n}", t_products, (n, range(-2, 3), 0, 1)) for n in (1, 2)]
    out += [(f"products/3/{p}", t_products, (3, range(-2, 3), p, 5)) for p in range(5)]
    out += [(f"products/4/{p}", t_products, (4, range(-2, 3) if th else range(-1, 2), p, 9)) for p in range(9)]
    out += [("gram-schmidt", t_gram, ()), ("matrix products", t_matmul, (range(-2, 3),))]
    v = range(-5, 6) if th else range(-4, 5)
    out += [(f"2x2/{a}", t_2x2, (v, a)) for a in v]
    out += [("decompose", t_decompose, ()), ("coordinates", t_coordinates, ()), ("closest", t_closest, ()), ("frames", t_planes, ())]
    out += [(f"pairs/{p}", t_pairs, (p, 16, range(-2, 3))) for p in range(16)]
    n = 64 if th else 4
    out += [(f"triples/{p}", t_triples, (p, n, range(-2, 3) if th else range(-1, 2))) for p in range(n)]
    out += [("lines", t_lines, ())]
    return out
