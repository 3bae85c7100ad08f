"""C09: every history of shape-preserving operations on a NURBS surface leaves its points and parametrisation unchanged."""
import itertools
from fractions import Fraction as F

import numpy as np

import ref
import shapes
from c08 import grid, hom, wgrid
from mmcore.geom import nurbs
from mmcore.geom.nurbs import NURBSSurface
from mmcore.numeric.intersection.ssx.boundary_intersection import extract_isocurve, extract_surface_boundaries

PID = "C09"
ASSUMPTIONS = [
    "points agree with the exact original within 1e-8; weights are positive",
    "knots are inserted at most up to multiplicity = degree, at parameters strictly inside the domain",
    "operations are applied to a surface rebuilt from the data the previous operation returned; what the previous operation returned is itself evaluated",
]
BOUNDS = {
    "start surfaces": "degrees (1..3) x (1..3), every pair of knot vectors with up to 1 interior knot of every multiplicity (two for degree 1), shifted and unclamped domains, 2 weight patterns",
    "histories": "every sequence of 2 operations: insert_knot_u/v (every knot and mid-span, every count), split_surface_u/v (both halves), subdivide_surface (all quarters, normalising or not), decompose_surface u / v / uv (every piece, normalising or not), normalize_knots, copy",
    "isocurves": "in both directions at every knot and mid-span of every state, the four boundaries, and their intervals",
    "near": "insert and split also at the floats next to every knot",
    "queries": "every knot and mid-span pair after each operation, mapped back exactly to the original parameters; the parts of a split cover the whole",
}


class Model:
    """The original exact surface; per direction original = a + b * current on [lo, hi]."""

    def __init__(self, p, q, U, V, Hg):
        self.p, self.U, self.H = (p, q), (U, V), Hg
        self.dom = ((U[p], U[-1 - p]), (V[q], V[-1 - q]))
        self.map = ((F(0), F(1)), (F(0), F(1)))
        self.memo = {}

    def with_(self, d, lo=None, hi=None, map=None):
        m = Model.__new__(Model)
        m.__dict__.update(self.__dict__)
        dom, mp = list(m.dom), list(m.map)
        if lo is not None:
            dom[d] = (lo, hi)
        if map is not None:
            mp[d] = map
        m.dom, m.map = tuple(dom), tuple(mp)
        return m

    def orig(self, d, t):
        a, b = self.map[d]
        return a + b * F(t)

    def point(self, u, v):
        x = [min(max(self.orig(d, t), self.U[d][self.p[d]]), self.U[d][-1 - self.p[d]]) for d, t in ((0, u), (1, v))]
        k = tuple(x)
        if k not in self.memo:
            h = ref.surface_hom(self.U[0], self.U[1], *self.p, self.H, *x)
            self.memo[k] = tuple(c / h[3] for c in h[:3])
        return self.memo[k]

    def domain(self, d):
        a, b = self.map[d]
        return tuple((x - a) / b for x in self.dom[d])


def knots(s, d):
    return [float(k) for k in (s.knots_u, s.knots_v)[d]]


def params(s, d, inner=False):
    lo, hi = s.interval()[d]
    ks = sorted({k for k in knots(s, d) if lo <= k <= hi})
    ks = [k for i, k in enumerate(ks) if i == 0 or k - ks[i - 1] > 1e-9]
    out = []
    for a, b in zip(ks, ks[1:]):
        out += [a, (a + b) / 2]
    out.append(ks[-1])
    return out[1:-1] if inner else out


def fresh(s):
    return NURBSSurface(np.array(s.control_points_w), tuple(s.degree), np.array(s.knots_u), np.array(s.knots_v))


def key(s, m):
    return (tuple(np.round(knots(s, 0), 9)), tuple(np.round(knots(s, 1), 9)), tuple(np.round(np.array(s.control_points_w), 7).ravel()), m.map)


def verify(ctx, s, m, sig):
    W = np.array(s.control_points_w)
    for d in (0, 1):
        U, n, p = knots(s, d), W.shape[d], s.degree[d]
        if not ctx.expect(p == m.p[d] and s.shape[d] == n and len(U) == n + p + 1 and all(a <= b for a, b in zip(U, U[1:])), f"{sig}: knot vector {d}", f"degree {p}, {n} points, knots {U}"):
            return False
        ctx.expect(ref.near(s.interval()[d], m.domain(d), 1e-9), f"{sig}: interval {d}", f"{s.interval()[d]} expected {[float(x) for x in m.domain(d)]}")
    ctx.expect(np.allclose(np.array(s.control_points_flat_w), W.reshape(-1, 4)), f"{sig}: flat control points", "")
    ctx.expect(np.allclose(np.array(s.control_points), W[..., :3] / W[..., 3:]) and np.allclose(np.array(s.control_points_flat), (W[..., :3] / W[..., 3:]).reshape(-1, 3)), f"{sig}: cartesian control points", "")
    for u in params(s, 0):
        for v in params(s, 1):
            ctx.step()
            got, want = s.evaluate(np.array([u, v])), m.point(u, v)
            if not ctx.expect(ref.near(got, want, 1e-8), f"{sig}: point at {u!r},{v!r}", lambda: f"{list(got)}, exact {[float(x) for x in want]}"):
                return False
    return True


def isocurves(ctx, s, m, sig):
    with ctx.at(f"{sig} isocurves"):
        for d, name in ((0, "u"), (1, "v")):
            for t in params(s, d):
                c = extract_isocurve(s, t, name)
                isocurve(ctx, c, s, m, d, t, f"{sig}: isocurve {name}={t!r}")
        (u0, u1), (v0, v1) = s.interval()
        for c, d, t in zip(extract_surface_boundaries(s), (0, 0, 1, 1), (u0, u1, v0, v1)):
            isocurve(ctx, c, s, m, d, t, f"{sig}: boundary {d} {t!r}")


def isocurve(ctx, c, s, m, d, t, sig):
    o = 1 - d
    if not ctx.expect(c.degree == s.degree[o] and np.array_equal(np.array(c.knots), np.array(knots(s, o))) and ref.near(c.interval(), m.domain(o), 1e-9), f"{sig}: knots", f"degree {c.degree} knots {list(c.knots)} interval {c.interval()}"):
        return
    for x in params(s, o):
        ctx.step()
        got, want = c.evaluate(x), m.point(*((t, x) if d == 0 else (x, t)))
        ctx.expect(ref.near(got, want, 1e-8), f"{sig} at {x!r}", lambda: f"{list(got)}, exact {[float(y) for y in want]}")


def halves(s, m, d, t, norm):
    """Models of the two parts of a cut at t in direction d (norm: parts are normalised to their knot vectors)."""
    K = knots(s, d)
    x = m.orig(d, t)
    res = []
    for (l, h), (k0, k1) in (((m.dom[d][0], x), (F(K[0]), F(t))), ((x, m.dom[d][1]), (F(t), F(K[-1])))):
        mm = m.with_(d, l, h)
        if norm:
            a, b = m.map[d]
            mm = mm.with_(d, map=(a + b * k0, b * (k1 - k0)))
        res.append(mm)
    return res


def normalized_model(s, m, d):
    K = knots(s, d)
    a, b = m.map[d]
    return m.with_(d, map=(a + b * F(K[0]), b * (F(K[-1]) - F(K[0]))))


def pieces(s, m, d, norm):
    p = s.degree[d]
    lo, hi = s.interval()[d]
    K = knots(s, d)
    ks = sorted({k for k in K if lo <= k <= hi})
    out = []
    for i, (l, h) in enumerate(zip(ks, ks[1:])):
        mm = m.with_(d, m.orig(d, l), m.orig(d, h))
        if norm:
            k0 = F(K[0]) if i == 0 else F(l)
            k1 = F(K[-1]) if i == len(ks) - 2 else F(h)
            a, b = m.map[d]
            mm = mm.with_(d, map=(a + b * k0, b * (k1 - k0)))
        out.append(mm)
    return out


def moves(s, m, first):
    out = []
    INS, SPLIT = (NURBSSurface.insert_knot_u, NURBSSurface.insert_knot_v), (nurbs.split_surface_u, nurbs.split_surface_v)

    def inserted(d, t, k):
        x = fresh(s)
        INS[d](x, t, k)
        return [(x, m)]

    def subdivided(u, v, norm):
        parts = nurbs.subdivide_surface(s, u, v, normalize_knots=norm)
        out = []
        for mu in halves(s, m, 0, u, norm):
            mv = halves(s, m, 1, v, norm)
            for x in mv:
                out.append(x.with_(0, *mu.dom[0], map=mu.map[0]))
        assert len(parts) == 4
        return list(zip(parts, out))

    def decomposed(direction, norm):
        parts = nurbs.decompose_surface(s, direction, norm) if norm else nurbs.decompose_surface(s, direction)
        ms = [m]
        if norm:
            ms = [normalized_model(s, normalized_model(s, m, 0), 1)]
        if "u" in direction:
            ms = [x.with_(0, *y.dom[0], map=y.map[0]) for x in ms for y in pieces(s, m, 0, norm)]
        if "v" in direction:
            ms = [x.with_(1, *y.dom[1], map=y.map[1]) for x in ms for y in pieces(s, m, 1, norm)]
        assert len(parts) == len(ms), f"{len(parts)} pieces, expected {len(ms)}"
        return list(zip(parts, ms))

    def normalized():
        x = fresh(s)
        x.normalize_knots()
        return [(x, normalized_model(s, normalized_model(s, m, 0), 1))]

    ps = [params(s, d, inner=True) for d in (0, 1)]
    for d in (0, 1):
        p, K = s.degree[d], knots(s, d)
        for t in ps[d]:
            c = K.count(t)
            if any(abs(k - t) < 1e-9 and k != t for k in K):
                continue
            for k in range(1, p - c + 1):
                out.append((f"insert_{'uv'[d]}({t!r},{k})", lambda d=d, t=t, k=k: inserted(d, t, k)))
            out.append((f"split_{'uv'[d]}({t!r})", lambda d=d, t=t: list(zip(SPLIT[d](s, t), halves(s, m, d, t, False)))))
            if first and c:
                for x in (float(np.nextafter(t, -np.inf)), float(np.nextafter(t, np.inf))):
                    if c < p:
                        out.append((f"insert_{'uv'[d]}({x!r},{p - c})", lambda d=d, x=x, k=p - c: inserted(d, x, k)))
                    out.append((f"split_{'uv'[d]}({x!r})", lambda d=d, x=x: list(zip(SPLIT[d](s, x), halves(s, m, d, x, False)))))
    for u in ps[0]:
        for v in ps[1]:
            for norm in (False, True):
                out.append((f"subdivide({u!r},{v!r},{norm})", lambda u=u, v=v, n=norm: subdivided(u, v, n)))
    for direction in ("u", "v", "uv"):
        for norm in (False, True):
            out.append((f"decompose {direction} {norm}", lambda x=direction, n=norm: decomposed(x, n)))
    out.append(("normalize", normalized))
    out.append(("copy", lambda: [(s.copy(), m)]))
    return out


def explore(ctx, s, m, depth, tag):
    frontier = [((), s, m)]
    with ctx.at(tag):
        verify(ctx, s, m, tag)
        isocurves(ctx, s, m, tag)
    ctx.state((tag, key(s, m)))
    for level in range(depth):
        new = []
        for hist, s, m in frontier:
            before = key(s, m)
            for name, f in moves(s, m, level == 0):
                h = hist + (name,)
                sig = f"{tag} " + " ".join(h)
                with ctx.at(sig):
                    res = f()
                    ctx.step()
                    ctx.trace()
                    good = True
                    for x, mm in res:
                        good &= verify(ctx, x, mm, sig)
                    if good:
                        for i, (x, mm) in enumerate(res):
                            if ctx.state((tag, key(x, mm))):
                                isocurves(ctx, x, mm, f"{sig} [{i}]")
                                if level + 1 < depth and (i in (0, len(res) - 1)):
                                    new.append((h + ((f"[{i}]",) if len(res) > 1 else ()), x, mm))
            with ctx.at(f"{tag} {hist} unchanged"):
                ctx.expect(key(s, m) == before, f"{tag} {' '.join(hist)}: the operand changed", "an operation that returns a new surface changed its operand")
        frontier = new
    ctx.sample(sig)


def knot_choices(p):
    out = [(F(0),) * (p + 1) + (F(1),) * (p + 1), (F(-1),) * (p + 1) + (F(1, 2),) * p + (F(3, 2),) * (p + 1)]
    if p > 1:
        out.append((F(0),) * (p + 1) + (F(1),) + (F(4),) * (p + 1))
    if p > 2:
        out.append((F(0),) * (p + 1) + (F(2),) * 2 + (F(3),) * (p + 1))
    if p == 1:
        out.append((F(0), F(0), F(1), F(3), F(4), F(4)))
    out.append(tuple(shapes.unclamped_knots(p, p + 2))[1])
    return out


def surfaces(ctx, p, q, wk, i, tier):
    pairs = list(itertools.product(knot_choices(p), knot_choices(q)))
    for n, (U, V) in enumerate(pairs):
        if n % 6 != i:
            continue
        nu, nv = len(U) - p - 1, len(V) - q - 1
        Hg = hom(grid(nu, nv), wgrid(wk, nu, nv))
        tag = f"degree {p},{q} U={[float(x) for x in U]} V={[float(x) for x in V]} w={wk}"
        with ctx.at(tag):
            a = np.array([[[float(x) for x in h] for h in r] for r in Hg])
            s = NURBSSurface(a, (p, q), shapes.knots(U), shapes.knots(V))
            deep = 2 if tier != "quick" or nu * nv <= 6 and wk == "mix" else 1
            explore(ctx, s, Model(p, q, U, V, Hg), deep, tag)


def tasks(tier):
    return [(f"surface {p},{q} {wk} {i}", surfaces, (p, q, wk, i, tier)) for p, q in itertools.product((1, 2, 3), repeat=2) for wk in ("one", "mix") for i in range(6)]
