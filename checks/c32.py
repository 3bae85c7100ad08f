"""C32: the intersection of two surfaces is found whole, once, and lies on both."""
import contextlib
import io
import itertools

import numpy as np
from scipy.interpolate import BSpline

from mmcore.geom.nurbs import NURBSSurface
from mmcore.numeric.intersection.ssx import ssx, surface_ppi
from mmcore.numeric.intersection.ssx._terminator import TerminatorType, surface_surface_boundary_intersection
from mmcore.numeric.intersection.ssx.boundary_intersection import find_boundary_intersections, sort_boundary_intersections

PID = "C32"
ASSUMPTIONS = [
    "surfaces are spline height fields over rectangles (moved, mirrored, turned, scaled, reparametrised), so that the zero set of the difference of the heights is the intersection",
    "pairs crossing at less than about 7 degrees somewhere on the intersection, or with two branches in one cell of a 48 x 48 grid, are left out (not transversal)",
    "the constants of the tolerance are those of the code: points within 17 tolerances of both surfaces, curves within 64 tolerances over the sine of the angle between the surfaces",
]
BOUNDS = {
    "nets": "biquadratic height fields with control heights 0 and 1: one of every symmetry class (quick), all 512 at three levels and three sizes (thorough), against a plane and against three curved surfaces; cubic nets; all 256 pairs of bilinear nets at several offsets",
    "frames": "12 pairs (one to four curves, loops, splines, partly overlapping, apart) under the axis permutations and reflections that keep the orientation, parameter ranges, flips, swaps, rational reparametrisations, sizes 0.1 to 1000, displacements, and tolerances 3e-4 to 3e-3 of the size",
    "outside": "coincident pieces, tangency, tolerances of 1e-2 of the size, and the normals of the known findings",
}
NEAR = 17       # tolerances between a reported point and a surface
GAP = 64        # tolerances between the intersection and the reported polyline, for surfaces at a right angle
N = 48


def clamped(n, p, inner=()):
    return np.array([0.0] * (p + 1) + list(inner) + [1.0] * (p + 1))


class Field:
    """A height field z = h(x, y) over a rectangle, x and y linear in u and v."""

    def __init__(self, Z, rect=(0, 1, 0, 1), inner=((), ()), degree=None):
        self.Z = np.array(Z, dtype=float)
        n, m = self.Z.shape
        self.p = (n - 1 - len(inner[0]), m - 1 - len(inner[1])) if degree is None else degree
        self.U, self.V = clamped(n, self.p[0], inner[0]), clamped(m, self.p[1], inner[1])
        self.rect = tuple(map(float, rect))
        self.bu = BSpline(self.U, np.eye(n), self.p[0])
        self.bv = BSpline(self.V, np.eye(m), self.p[1])

    def uv(self, x, y):
        x0, x1, y0, y1 = self.rect
        return np.clip((np.asarray(x) - x0) / (x1 - x0), 0, 1), np.clip((np.asarray(y) - y0) / (y1 - y0), 0, 1)

    def __call__(self, x, y):
        u, v = self.uv(x, y)
        return np.einsum("...i,ij,...j->...", self.bu(u), self.Z, self.bv(v))

    def grad(self, x, y):
        x0, x1, y0, y1 = self.rect
        u, v = self.uv(x, y)
        return (np.einsum("...i,ij,...j->...", self.bu(u, 1), self.Z, self.bv(v)) / (x1 - x0),
                np.einsum("...i,ij,...j->...", self.bu(u), self.Z, self.bv(v, 1)) / (y1 - y0))

    def net(self):
        n, m = self.Z.shape
        gu = [self.U[i + 1:i + 1 + self.p[0]].mean() for i in range(n)]
        gv = [self.V[j + 1:j + 1 + self.p[1]].mean() for j in range(m)]
        x0, x1, y0, y1 = self.rect
        return np.array([[[x0 + (x1 - x0) * gu[i], y0 + (y1 - y0) * gv[j], self.Z[i, j]] for j in range(m)] for i in range(n)])


class Frame:
    """An isometry with a scale, and a change of the parameters."""

    def __init__(self, perm=(0, 1, 2), signs=(1, 1, 1), K=1.0, T=(0, 0, 0), lo=(0, 0), size=(1, 1), flip="", rational=False, M=None):
        self.M = np.zeros((3, 3)) if M is None else M
        for i, (j, s) in enumerate(zip(perm, signs) if M is None else ()):
            self.M[i, j] = s
        self.K, self.T, self.lo, self.size, self.flip, self.rational = K, np.array(T, dtype=float), lo, size, flip, rational

    def surface(self, field):
        net = self.K * field.net() @ self.M.T + self.T
        U, V = field.U.copy(), field.V.copy()
        p = field.p
        if "u" in self.flip:
            net, U = net[::-1], 1 - U[::-1]
        if "v" in self.flip:
            net, V = net[:, ::-1], 1 - V[::-1]
        if "t" in self.flip:
            net, U, V, p = net.transpose(1, 0, 2), V, U, p[::-1]
        w = np.ones(net.shape[:2])
        if self.rational and len(U) == 2 * p[0] + 2 and len(V) == 2 * p[1] + 2:
            # weights in geometric progression only reparametrise a Bezier patch
            w = np.outer(2.0 ** -np.arange(net.shape[0]), 1.5 ** np.arange(net.shape[1]))
        hom = np.concatenate((net * w[..., None], w[..., None]), axis=2) if self.rational else np.ascontiguousarray(net)
        return NURBSSurface(np.ascontiguousarray(hom), p, np.ascontiguousarray(self.lo[0] + self.size[0] * U), np.ascontiguousarray(self.lo[1] + self.size[1] * V))

    def back(self, pts):
        return (np.asarray(pts, dtype=float) - self.T) @ self.M / self.K


def touching(f, g, F, rect, X, Y, S):
    """Whether the surfaces come close without crossing, inside or on one of the edges, or cross twice in one cell there."""
    x0, x1, y0, y1 = rect
    A, B = np.broadcast_arrays(X[:, None], Y[None, :])
    (fx, fy), (gx, gy) = f.grad(A, B), g.grad(A, B)
    slope = np.hypot(fx - gx, fy - gy)
    if np.any((np.abs(S) < 0.012) & (slope < 0.25)):
        return True
    fine = np.linspace(0, 1, 20 * N + 1)
    for line, (x, y) in ((S[0], (x0, y0 + (y1 - y0) * fine)), (S[-1], (x1, y0 + (y1 - y0) * fine)),
                         (S[:, 0], (x0 + (x1 - x0) * fine, y0)), (S[:, -1], (x0 + (x1 - x0) * fine, y1))):
        h = F(x, y)
        if ((h[:-1] > 0) != (h[1:] > 0)).sum() != ((line[:-1] > 0) != (line[1:] > 0)).sum():
            return True
        a = np.abs(h)
        low = (a[1:-1] <= a[:-2]) & (a[1:-1] <= a[2:]) & (a[1:-1] < 0.012)
        if np.any(low & ((h[:-2] > 0) == (h[1:-1] > 0)) & ((h[2:] > 0) == (h[1:-1] > 0))) or min(a[0], a[-1]) < 0.012:
            return True
    return False


def truth(f, g):
    """The components of {f = g} over the common rectangle: lists of points, and their ends; None if not transversal."""
    x0, x1 = max(f.rect[0], g.rect[0]), min(f.rect[1], g.rect[1])
    y0, y1 = max(f.rect[2], g.rect[2]), min(f.rect[3], g.rect[3])
    if x0 >= x1 or y0 >= y1:
        return []
    X, Y = np.linspace(x0, x1, N + 1), np.linspace(y0, y1, N + 1)

    def F(x, y):
        return f(x, y) - g(x, y)

    S = F(X[:, None], Y[None, :])
    if np.abs(S).min() < 1e-12 or touching(f, g, F, (x0, x1, y0, y1), X, Y, S):
        return None
    S = S > 0
    edges = [(i, j, 0) for i, j in np.argwhere(S[:-1] != S[1:])] + [(i, j, 1) for i, j in np.argwhere(S[:, :-1] != S[:, 1:])]
    if not edges:
        return []
    A = np.array([(X[i], Y[j]) for i, j, k in edges])
    B = np.array([(X[i + 1], Y[j]) if k == 0 else (X[i], Y[j + 1]) for i, j, k in edges])
    neg = F(*A.T) < 0
    A[~neg], B[~neg] = B[~neg].copy(), A[~neg].copy()
    for _ in range(50):
        mid = (A + B) / 2
        low = F(*mid.T) < 0
        A[low], B[~low] = mid[low], mid[~low]
    pts = (A + B) / 2
    z = f(*pts.T)
    (fx, fy), (gx, gy) = f.grad(*pts.T), g.grad(*pts.T)
    one = np.ones(len(pts))
    nf, ng = np.array((-fx, -fy, one)).T, np.array((-gx, -gy, one)).T
    sine = np.linalg.norm(np.cross(nf, ng), axis=1) / np.linalg.norm(nf, axis=1) / np.linalg.norm(ng, axis=1)
    if sine.min() < 0.12:
        return None
    cells = {}
    for e, (i, j, k) in enumerate(edges):
        for c in ((i, j), (i, j - 1)) if k == 0 else ((i, j), (i - 1, j)):
            if 0 <= c[0] < N and 0 <= c[1] < N:
                cells.setdefault(c, []).append(e)
    if any(len(c) != 2 for c in cells.values()):
        return None
    parent = list(range(len(edges)))

    def root(i):
        while parent[i] != i:
            i = parent[i]
        return i
    for a, b in cells.values():
        parent[root(a)] = root(b)
    comps = {}
    for e, (i, j, k) in enumerate(edges):
        comps.setdefault(root(e), []).append(e)
    out = []
    for es in comps.values():
        ends = [e for e in es if (edges[e][2] == 0 and edges[e][1] in (0, N)) or (edges[e][2] == 1 and edges[e][0] in (0, N))]
        P = np.column_stack((pts, z))
        out.append((P[es], P[ends], sine[es].min()))
    return out


def distance_to_polyline(Q, poly):
    """For every point of Q its distance from the polyline."""
    best = np.full(len(Q), np.inf)
    if len(poly) == 1:
        return np.linalg.norm(Q - poly[0], axis=1)
    for a, b in zip(poly[:-1], poly[1:]):
        d = b - a
        t = np.clip((Q - a) @ d / max(d @ d, 1e-300), 0, 1)
        best = np.minimum(best, np.linalg.norm(Q - a - t[:, None] * d, axis=1))
    return best


def deviation(h, P):
    """The distance of points from a height field, to first order, and how far they are outside of its rectangle."""
    gx, gy = h.grad(P[:, 0], P[:, 1])
    out = np.maximum(np.maximum(h.rect[0] - P[:, 0], P[:, 0] - h.rect[1]), np.maximum(h.rect[2] - P[:, 1], P[:, 1] - h.rect[3]))
    return np.maximum(np.abs(P[:, 2] - h(P[:, 0], P[:, 1])) / np.sqrt(1 + gx ** 2 + gy ** 2), out)


def same_points(A, B, tol):
    """Whether two sets of points agree to the tolerance, one to one."""
    A, B = [np.asarray(a) for a in A], [np.asarray(b) for b in B]
    if len(A) != len(B):
        return False
    for a in A:
        d = [np.linalg.norm(a - b) for b in B]
        k = int(np.argmin(d))
        if d[k] > tol:
            return False
        B.pop(k)
    return True


def check_pair(ctx, f, g, frames, tol, tag, curves=0, pre=""):
    comps = truth(f, g)
    if comps is None:
        ctx.label("not transversal")
        return
    F1, F2 = frames
    K = F1.K
    s1, s2 = F1.surface(f), F2.surface(g)
    name = lambda: f"{tag}: z1 = {f.Z.tolist()} over {f.rect}, z2 = {g.Z.tolist()} over {g.rect}, tol {tol}"
    res = bounds = ()
    with ctx.at(pre + "crash"), contextlib.redirect_stdout(io.StringIO()):
        ctx.step()
        bounds = find_boundary_intersections(s1, s2, tol=tol)
        ends = [e for c in comps for e in c[1]]
        got = F1.back([b.point for b in bounds]) if bounds else []
        ctx.expect(same_points(got, ends, 2 * tol / K / 0.12), pre + "ends", lambda: f"find_boundary_intersections of {name()}: {np.round(got, 6).tolist()}, not {np.round(ends, 6).tolist()}")
        for b in bounds:
            (a1, a2), (p1, p2) = b.get_start_params(), (b.surface1_params, b.surface2_params)
            ctx.expect(np.array_equal(a1, p1) and np.array_equal(a2, p2), pre + "start params", lambda: f"get_start_params {a1, a2} against {p1, p2}")
            d1 = np.linalg.norm(np.array(s1.evaluate(np.array(p1, dtype=float))) - b.point)
            d2 = np.linalg.norm(np.array(s2.evaluate(np.array(p2, dtype=float))) - b.point)
            ctx.expect(max(d1, d2) <= 2 * tol, pre + "end params", lambda: f"find_boundary_intersections of {name()}: point {b.point} is {d1}, {d2} from the points of its parameters {p1}, {p2}")
        seqs = sort_boundary_intersections(list(bounds))
        flat = [id(b) for s in seqs for b in s]
        ctx.expect(sorted(flat) == sorted(id(b) for b in bounds) and all(1 <= len(s) <= 2 for s in seqs) and sum(len(s) == 1 for s in seqs) == len(bounds) % 2,
                   pre + "sort", lambda: f"sort_boundary_intersections of {len(bounds)} points: {[len(s) for s in seqs]}")
        ctx.step()
        res = surface_ppi(s1, s2, tol=tol)
    if res == ():
        return
    polys, uvs, _, terms = ([], [], [], []) if res is None else res
    ctx.state((tag, f.Z.tobytes(), g.Z.tobytes(), f.rect, g.rect))
    ctx.label(f"{min(len(comps), 4)} curves")
    if len(polys) != len(comps):
        ctx.fail(pre + "count", f"surface_ppi of {name()}: {len(polys)} curves, not {len(comps)}: ends {[np.round(F1.back([p[0], p[-1]]), 4).tolist() for p in polys]}")
        return
    t = tol / K
    left = list(range(len(comps)))
    for poly, (uv1, uv2), term in zip(polys, uvs, terms):
        P = F1.back(poly)
        d = np.maximum(deviation(f, P), deviation(g, P))
        ctx.expect(bool(d.max() <= NEAR * t), pre + "point", lambda: f"surface_ppi of {name()}: point {P[d.argmax()]} is {d.max() / t:.3g} tolerances off")
        if len(uv1) == len(poly) == len(uv2):
            for s, uv in ((s1, uv1), (s2, uv2)):
                Q = F1.back([s.evaluate(np.array(x, dtype=float)) for x in uv])
                e = np.linalg.norm(Q - P, axis=1)
                ctx.expect(bool(e.max() <= 2 * NEAR * t), pre + "parameters", lambda: f"surface_ppi of {name()}: point {P[e.argmax()]} is {e.max() / t:.3g} tolerances from the point of its parameters {uv[e.argmax()]}")
        else:
            ctx.fail(pre + "parameters", f"surface_ppi of {name()}: {len(poly)} points, {len(uv1)} and {len(uv2)} parameters")
        gap, mine = min((distance_to_polyline(c[0], P).max() * c[2] / t, k) for k, c in enumerate(comps))
        if gap > GAP or mine not in left:
            ctx.fail(pre + "coverage", f"surface_ppi of {name()}: the curve from {P[0]} to {P[-1]} is {gap:.4g} tolerances from the closest piece of the intersection, left {left}")
            continue
        left.remove(mine)
        C, E, _ = comps[mine]
        if len(E):
            ctx.expect(same_points(P[[0, -1]], E, 2 * t / 0.12), pre + "open ends", lambda: f"surface_ppi of {name()}: ends {P[[0, -1]].tolist()}, not {E.tolist()}")
            ctx.expect(all(x is TerminatorType.EDGE for x in term), pre + "terminator", lambda: f"surface_ppi of {name()}: {term} for an open curve")
        else:
            ctx.expect(len(P) > 3 and np.linalg.norm(P[:2] - P[-1], axis=1).min() <= NEAR * t, pre + "closed", lambda: f"surface_ppi of {name()}: closed curve from {P[0]} to {P[-1]}")
            ctx.expect(all(x is TerminatorType.LOOP for x in term), pre + "terminator", lambda: f"surface_ppi of {name()}: {term} for a closed curve")
    if curves:
        found = None
        with ctx.at(pre + "crash"), contextlib.redirect_stdout(io.StringIO()):
            ctx.step()
            found = ssx(s1, s2, tol=tol)
        if found is None:
            return
        ctx.expect(len(found) == len(polys), pre + "ssx", lambda: f"ssx of {name()}: {len(found)} curves, not {len(polys)}")
        for (spatial, on1, on2), poly in zip(found, polys):
            P = F1.back(poly)
            for what, c in (("spatial", spatial), ("first", on1), ("second", on2)):
                ts = np.linspace(*c.interval(), 60)
                Q = F1.back([np.array(c.evaluate(x)) for x in ts])
                d = np.maximum(deviation(f, Q), deviation(g, Q))
                e = distance_to_polyline(Q, P)
                # the interpolation of parameters of different units may swing between the points
                ctx.expect(curves < 2 and what != "spatial" or bool(d.max() <= 6 * NEAR * t), pre + "ssx " + what, lambda: f"ssx of {name()}: the {what} curve is {d.max() / t:.3g} tolerances off at {ts[d.argmax()]}")
                ctx.expect(bool(np.linalg.norm(Q[[0, -1]] - P[[0, -1]], axis=1).max() <= 2 * NEAR * t), pre + "ssx ends", lambda: f"ssx of {name()}: the {what} curve runs from {Q[0]} to {Q[-1]}, not from {P[0]} to {P[-1]}")


def plane(c, a=0.0, b=0.0, rect=(-0.3, 1.2, -0.2, 1.4)):
    x0, x1, y0, y1 = rect
    return Field([[c + a * x + b * y for y in (y0, y1)] for x in (x0, x1)], rect)


def nets(n, m, values=(0, 1)):
    for bits in itertools.product(values, repeat=n * m):
        yield np.array(bits, dtype=float).reshape(n, m)


def classes(n, values=(0, 1)):
    """One net of every class under the symmetries of the square."""
    for Z in nets(n, n, values):
        images = [np.rot90(Y, k) for Y in (Z, Z.T) for k in range(4)]
        if all(tuple(Z.ravel()) <= tuple(Y.ravel()) for Y in images):
            yield Z


def t_levels(ctx, part, parts, levels, K, rel, every=classes):
    k = 0
    for Z in every(3):
        if Z.min() == Z.max():
            continue
        for c in levels:
            k += 1
            if k % parts == part:
                fr = Frame(K=K)
                check_pair(ctx, Field(Z), plane(c), (fr, fr), rel * K, f"K={K}", curves=2 * ((k // parts) % 4 == 0))


def bases():
    """Pairs crossing in one open curve, two, three, a loop, a loop and an open curve."""
    yield "one", Field([[0, 0.3, 1], [0.1, 0.6, 0.7], [0.2, 0, 0.9]]), plane(0.43, 0.11, -0.07)
    yield "two", Field([[0, 1, 0], [0.1, 1.1, 0.2], [0, 0.9, 0]]), plane(0.33, 0.05)
    yield "corners", Field([[1, 0, 1], [0, 0.5, 0], [1, 0, 1.2]]), plane(0.45, 0.02, 0.05)
    yield "loop", Field([[0, 0, 0.1], [0, 2, 0.2], [0, 0.1, 0]]), plane(0.25, 0.05)
    yield "bilinear", Field([[0, 1], [1.2, 0.1]]), plane(0.3, 0.2, 0.35)
    yield "cubic", Field([[0, 0.4, -0.3, 0.5], [0.2, 1.6, 0.1, 0.4], [-0.4, 0.3, 1.3, 0.1], [0.2, 0, 0.5, -0.4]]), plane(0.31)
    yield "curved", Field([[0, 0.6, 0.1], [0.5, 1.0, 0.4], [0, 0.7, 0.2]]), Field([[0.6, 0.3, 0.5], [0.2, 0, 0.4], [0.7, 0.2, 0.5]], (-0.25, 1.25, -0.25, 1.25))
    yield "overlap", Field([[0, 0.6, 0.1], [0.5, 1.0, 0.4], [0, 0.7, 0.2]]), Field([[0.6, 0.3, 0.5], [0.2, 0, 0.4], [0.7, 0.2, 0.5]], (0.2, 1.3, -0.4, 0.83))
    yield "apart", Field([[0, 0.6, 0.1], [0.5, 1.0, 0.4], [0, 0.7, 0.2]]), Field([[1.6, 1.3, 1.5], [1.2, 1.1, 1.4], [1.7, 1.2, 1.5]])
    yield "spans", Field([[0, 0.2, 0, 0.1], [0.1, 1.2, 0.9, 0], [0.2, 1.1, 1.3, 0.2], [0, 0.1, 0.2, 0]], inner=((0.4,), (0.55,))), plane(0.4, 0.1, 0.05)
    yield "waves", Field([[0, 1, 0, 1, 0.2]] * 3, inner=((), (0.35, 0.7))), plane(0.44, 0.1)
    yield "two loops", Field([[0, 0, 0, 0, 0], [0, 2, -0.5, 2, 0], [0, 0, 0, 0, 0]], inner=((), (0.5,))), plane(0.21)


# with the third axis along (1, 0, -1), so that normals along it and opposite to it are both oriented
TURNED = np.array([[2 ** -0.5, 0, 2 ** -0.5], [0, 1, 0], [2 ** -0.5, 0, -2 ** -0.5]])


def oriented(perm, signs):
    """Whether the normals of the height fields keep a positive z, a negative y or a positive x."""
    M = Frame(perm, signs).M
    x, y, z = np.linalg.det(M) * M[:, 2]
    return z > 0 or y < 0 or x > 0


def t_frames(ctx, part, parts, stride):
    k = 0
    for name, f, g in bases():
        for perm in itertools.permutations(range(3)):
            for signs in itertools.product((1, -1), repeat=3):
                if not oriented(perm, signs):
                    continue
                k += 1
                if k % parts != part or k // parts % stride:
                    continue
                for swap in (0, 1):
                    fr = Frame(perm, signs)
                    a, b = (g, f) if swap else (f, g)
                    check_pair(ctx, a, b, (fr, fr), 2e-3, f"{name}, axes {perm} {signs}", curves=2 * ((k // parts // stride) % 3 == 0))


def t_mirrored(ctx, name):
    """Pairs whose normals have a negative z and no other component to keep the orientation by."""
    for n, f, g in bases():
        if n == name:
            fr = Frame(signs=(-1, 1, 1))
            check_pair(ctx, f, g, (fr, fr), 2e-3, f"{name}, mirrored", pre=f"mirrored {name}: ")


def t_params(ctx, part, parts, stride):
    k = 0
    for name, f, g in bases():
        for flip in ("", "u", "v", "uv", "t", "tu", "tv", "tuv"):
            for lo, size in (((0, 0), (1, 1)), ((-2, 3), (5, 0.5)), ((10, -0.5), (2, 3))):
                for rational in (False, True):
                    for other in (0, 1):
                        k += 1
                        if k % parts != part or k // parts % stride:
                            continue
                        M = np.eye(3) if len(flip) % 2 == 0 else TURNED
                        fr = [Frame(lo=lo, size=size, flip=flip, rational=rational, M=M), Frame(M=M)]
                        if other:
                            fr.reverse()
                        check_pair(ctx, f, g, fr, 2e-3, f"{name}, flip {flip!r}, parameters from {lo} over {size}, rational {rational}", curves=(k // parts // stride) % 5 == 0)


def t_scales(ctx, part, parts, stride):
    k = 0
    for name, f, g in bases():
        for K in (0.1, 1.0, 7.0, 50.0, 1000.0):
            for T in ((0, 0, 0), (100, -200, 300)):
                for rel in (3e-3, 1e-3, 3e-4):
                    k += 1
                    if k % parts != part or k // parts % stride:
                        continue
                    fr = Frame(K=K, T=np.array(T) * K)
                    check_pair(ctx, f, g, (fr, fr), rel * K, f"{name}, scale {K}, moved by {T}, tol {rel}", curves=2 * ((k // parts // stride) % 3 == 0))


def t_bilinear(ctx, part, parts, shifts):
    k = 0
    for Z1 in nets(2, 2):
        for Z2 in nets(2, 2):
            for shift, c in itertools.product(shifts, (0.13, -0.37)):
                k += 1
                if k % parts == part:
                    fr = Frame()
                    check_pair(ctx, Field(Z1), Field(Z2 + c, (shift[0], shift[0] + 1.1, shift[1], shift[1] + 1.05)), (fr, fr), 2e-3, "bilinear")


def t_curved(ctx, part, parts, rels):
    """The classes of nets against curved surfaces."""
    k = 0
    others = [(np.array([[0.6, 0.3, 0.5], [0.2, 0, 0.4], [0.7, 0.2, 0.5]]), (-0.25, 1.25, -0.25, 1.25)),
              (np.array([[0.9, 0.1], [0.2, 0.8]]), (0.15, 1.3, -0.4, 0.83)),
              (np.array([[0.2, 0.9, 0.3], [0.4, 0.7, 0.6]]), (-0.3, 0.85, 0.1, 0.9))]
    for Z in classes(3):
        for W, rect in others:
            for rel in rels:
                k += 1
                if k % parts == part:
                    fr = Frame()
                    check_pair(ctx, Field(Z), Field(W, rect), (fr, fr), rel, "curved", curves=2 * ((k // parts) % 4 == 0))


def t_cubic(ctx, part, parts, levels):
    """Cubic nets with every pattern of the four inner heights, over frames of the outer ones."""
    k = 0
    for inner in nets(2, 2, (0, 1.7)):
        for outer in nets(1, 4, (0.0, 0.9)):
            Z = np.zeros((4, 4))
            Z[1:3, 1:3] = inner
            Z[0], Z[-1], Z[1:3, 0], Z[1:3, -1] = outer[0]
            for c in levels:
                k += 1
                if k % parts == part:
                    fr = Frame()
                    check_pair(ctx, Field(Z), plane(c, 0.03, -0.05), (fr, fr), 2e-3, "cubic", curves=2 * ((k // parts) % 4 == 0))


def every(n):
    return nets(n, n)


def tasks(tier):
    thorough = tier == "thorough"
    out = []
    parts = 64 if thorough else 16
    for name in ("two", "loop"):
        out.append((f"mirrored {name}", t_mirrored, (name,)))
    for p in range(parts):
        out.append((f"levels {p}", t_levels, (p, parts, (0.43,), 1.0, 1e-3)))
        out.append((f"frames {p}", t_frames, (p, parts, 1 if thorough else 4)))
        out.append((f"parameters {p}", t_params, (p, parts, 1 if thorough else 6)))
        out.append((f"scales {p}", t_scales, (p, parts, 1 if thorough else 3)))
        out.append((f"bilinear {p}", t_bilinear, (p, parts, ((-0.05, -0.02), (0.3, -0.4)))))
        out.append((f"curved {p}", t_curved, (p, parts, (2e-3,))))
        out.append((f"cubic {p}", t_cubic, (p, parts, (0.43, 0.29) if thorough else (0.43,))))
        if thorough:
            for K, rel in ((1.0, 1e-3), (30.0, 2e-3), (0.2, 5e-4)):
                out.append((f"all levels {K} {p}", t_levels, (p, parts, (0.27, 0.43, 0.61), K, rel, every)))
            out.append((f"all bilinear {p}", t_bilinear, (p, parts, ((0.12, 0.2), (-0.4, 0.35), (-0.2, -0.07)))))
            out.append((f"all curved {p}", t_curved, (p, parts, (3e-3, 1e-3, 3e-4))))
    return out
