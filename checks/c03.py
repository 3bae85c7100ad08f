"""C03: every history of shape-preserving operations on a NURBS curve leaves its point set and parametrisation unchanged."""
from fractions import Fraction as F

import numpy as np

import ref
import shapes
from mmcore.geom import nurbs
from mmcore.geom.nurbs import NURBSCurve

PID = "C03"
ASSUMPTIONS = [
    "points agree with the exact original within 1e-8; weights are positive",
    "knots are inserted at most up to multiplicity = degree, at parameters strictly inside the domain",
    "operations are applied to a curve rebuilt from the data the previous operation returned; what the previous operation returned is itself evaluated",
]
BOUNDS = {
    "start curves": "degree 1..4, clamped knots with up to 2 interior knots in every multiplicity pattern, two spacings; unclamped, half-clamped and periodic ones; 3 weight patterns",
    "histories": "every sequence of 2 operations (thorough 3), operations: insert (each knot / mid-span, each count), multiply, split (2 variants, both halves, normalising or not), trim (all pairs of knots and mid-spans), decompose (each piece), reverse, flip, normalize, refine",
    "near": "as a first operation, insert / split / trim also at the floats next to every knot",
    "queries": "every knot and the middle of every span after each operation, mapped back exactly to the original parameter; the parts of a split cover the whole",
}


class Model:
    """The original exact curve, restricted to [lo, hi] and reparametrised by original = a + b * current."""

    def __init__(self, p, U, P, W, a=F(0), b=F(1), lo=None, hi=None, wrap=None):
        self.p, self.U, self.P, self.W, self.a, self.b = p, U, P, W, a, b
        self.lo = U[p] if lo is None else lo
        self.hi = U[len(P)] if hi is None else hi

    def with_(self, **k):
        m = Model(self.p, self.U, self.P, self.W, self.a, self.b, self.lo, self.hi)
        m.__dict__.update(k)
        return m

    def orig(self, t):
        return self.a + self.b * F(t)

    def point(self, t):
        s = min(max(self.orig(t), self.U[self.p]), self.U[len(self.P)])
        return ref.curve_point(self.U, self.p, self.P, self.W, s)

    def domain(self):
        x, y = (self.lo - self.a) / self.b, (self.hi - self.a) / self.b
        return (x, y) if x < y else (y, x)


def fresh(c):
    return NURBSCurve(np.array(c.control_pointsw), c.degree, np.array(c.knots))


def params(c, inner=False):
    """Distinct domain knots and mid-spans of the current curve, floats."""
    lo, hi = c.interval()
    ks = sorted({float(k) for k in c.knots if lo <= k <= hi})
    ks = [k for i, k in enumerate(ks) if i == 0 or k - ks[i - 1] > 1e-9]
    out = []
    for a, b in zip(ks, ks[1:]):
        out += [a, (a + b) / 2]
    out.append(ks[-1])
    return out[1:-1] if inner else out


def verify(ctx, c, m, sig):
    U = [float(x) for x in c.knots]
    n, p = len(c.control_pointsw), c.degree
    ok = ctx.expect(p == m.p and len(U) == n + p + 1 and all(a <= b for a, b in zip(U, U[1:])), f"{sig}: knot vector", f"degree {p}, {n} points, knots {U}")
    if not ok:
        return False
    d = m.domain()
    ctx.expect(ref.near(c.interval(), d, 1e-9), f"{sig}: interval", f"{c.interval()} expected {[float(x) for x in d]}")
    g = c.greville_abscissae
    ctx.expect(len(g) == n and np.allclose(g, [sum(U[i + 1 : i + p + 1]) / p for i in range(n)], atol=1e-9), f"{sig}: greville", f"{list(g)} for {U}")
    for t in params(c):
        ctx.step()
        got, want = c.evaluate(t), m.point(t)
        if not ctx.expect(ref.near(got, want, 1e-8), f"{sig}: point at {t!r}", f"{list(got)}, exact {[float(x) for x in want]}"):
            return False
    return True


def key(c, m):
    return (tuple(np.round(np.array(c.knots), 9)), tuple(np.round(np.array(c.control_pointsw), 7).ravel()), m.a, m.b)


def moves(c, m, near=False):
    """(name, producer) pairs; a producer returns [(curve, model)]."""
    p = c.degree
    lo, hi = c.interval()
    K = [float(k) for k in c.knots]
    ps = params(c, inner=True)
    out = []

    def inserted(t, k):
        d = fresh(c)
        d.insert_knot(t, k)
        return [(d, m)]

    def multiplied(t, s):
        d = fresh(c)
        r = d.multiply_knot(t)
        assert list(np.array(d.knots)).count(t) >= p and (r == p - s or s >= p), f"multiply_knot returned {r}"
        return [(d, m)]

    def parts(f, t, norm):
        a, b = f(c, t, normalize_knots=True) if norm else f(c, t)
        s = m.orig(t)
        ra, rb = ((m.lo, s), (s, m.hi)) if m.b > 0 else ((s, m.hi), (m.lo, s))
        res = []
        for x, (l, h) in ((a, ra), (b, rb)):
            mm = m.with_(lo=l, hi=h)
            if norm:
                # the clamped cut end and the (possibly unclamped) old end map to the ends of the knot vector
                k0, k1 = (F(K[0]), F(t)) if x is a else (F(t), F(K[-1]))
                mm = mm.with_(a=m.a + m.b * k0, b=m.b * (k1 - k0))
            res.append((x, mm))
        return res

    def trimmed(t1, t2):
        x = c.trim(t1, t2)
        first = F(K[0]) if t1 <= lo else F(t1)
        a, b = m.orig(t1), m.orig(t2)
        return [(x, m.with_(lo=min(a, b), hi=max(a, b), a=m.a + m.b * first))]

    def decomposed():
        xs = nurbs.decompose_curve(c)
        ks = sorted({k for k in K if lo <= k <= hi})
        assert len(xs) == len(ks) - 1, f"{len(xs)} pieces for {len(ks) - 1} spans"
        res = []
        for x, l, h in zip(xs, ks, ks[1:]):
            assert len(x.control_points) == p + 1
            a, b = m.orig(l), m.orig(h)
            res.append((x, m.with_(lo=min(a, b), hi=max(a, b))))
        return res

    def mirrored(f):
        s = F(K[0]) + F(K[-1])
        return [(f(c), m.with_(a=m.a + m.b * s, b=-m.b))]

    def normalized():
        d = fresh(c)
        d.normalize_knots()
        return [(d, m.with_(a=m.orig(K[0]), b=m.b * (F(K[-1]) - F(K[0]))))]

    def refined(density):
        R = np.array(c.control_pointsw)
        H = R.copy()
        H[:, :3] *= R[:, 3:]
        C, V = nurbs.knot_refinement(p, np.array(c.knots), H, density=density)
        C = np.array(C)
        C[:, :3] /= C[:, 3:]
        return [(NURBSCurve(C, p, np.array(V)), m)]

    clamped = K[0] == K[p] and K[-1] == K[-1 - p]
    fresh = (lambda c: c.copy()) if c.periodic else globals()["fresh"]
    for t in ps:
        s = K.count(t)
        if any(abs(k - t) < 1e-9 and k != t for k in K):
            continue
        for k in range(1, p - s + 1):
            out.append((f"insert({t!r},{k})", lambda t=t, k=k: inserted(t, k)))
        out.append((f"multiply({t!r})", lambda t=t, s=s: multiplied(t, s)))
        out.append((f"split({t!r})", lambda t=t: parts(nurbs.split_curve, t, False)))
        out.append((f"split2({t!r})", lambda t=t: parts(nurbs.split_curve2, t, False)))
        out.append((f"split normalized({t!r})", lambda t=t: parts(nurbs.split_curve, t, True)))
    if near:
        # parameters one rounding error away from a knot
        for k in ps:
            for t in (float(np.nextafter(k, -np.inf)), float(np.nextafter(k, np.inf))):
                if k in K:
                    if K.count(k) < p:
                        out.append((f"insert({t!r},{p - K.count(k)})", lambda t=t, k=k: inserted(t, p - K.count(k))))
                    out.append((f"split({t!r})", lambda t=t: parts(nurbs.split_curve, t, False)))
                    out.append((f"split2({t!r})", lambda t=t: parts(nurbs.split_curve2, t, False)))
                    out.append((f"trim({lo!r},{t!r})", lambda t=t: trimmed(lo, t)))
                    out.append((f"trim({t!r},{hi!r})", lambda t=t: trimmed(t, hi)))
    cuts = [lo] + ps + [hi]
    for i, a in enumerate(cuts):
        for b in cuts[i + 1 :]:
            out.append((f"trim({a!r},{b!r})", lambda a=a, b=b: trimmed(a, b)))
    out.append(("decompose", decomposed))
    if clamped:
        if any(0 < K.count(t) < p for t in ps):
            out.append(("refine", lambda: refined(1)))
        out.append(("refine dense", lambda: refined(2)))
    out.append(("reverse", lambda: mirrored(nurbs.reverse_curve)))
    out.append(("flip", lambda: mirrored(lambda x: x.flip())))
    out.append(("normalize", normalized))
    return out


def explore(ctx, c, m, depth, tag):
    frontier = [((), c, m)]
    with ctx.at(tag):
        verify(ctx, c, m, tag)
    ctx.state(key(c, m))
    for level in range(depth):
        new = []
        for hist, c, m in frontier:
            before = key(c, m)
            for name, f in moves(fresh(c) if hist and not c.periodic else c, m, near=level == 0):
                h = hist + (name,)
                sig = f"{tag} " + " ".join(h)
                with ctx.at(sig):
                    res = f()
                    ctx.step()
                    good = True
                    for x, mm in res:
                        good &= verify(ctx, x, mm, sig)
                    ctx.trace()
                    if good:
                        for i, (x, mm) in enumerate(res):
                            if ctx.state(key(x, mm)) and level + 1 < depth:
                                new.append((h + ((f"[{i}]",) if len(res) > 1 else ()), x, mm))
            with ctx.at(f"{tag} {hist} unchanged"):
                ctx.expect(key(c, m) == before, f"{tag} {' '.join(hist)}: the operand changed", "an operation that returns a new curve changed its operand")
        frontier = new
    ctx.sample(sig)


def clamped(ctx, p, wk, i, inner, tier):
    Us = [U for U in shapes.open_knots(p, tier, inner=inner)]
    depth = 2 if tier == "quick" else 3
    for U in Us[i::4]:
        n = len(U) - p - 1
        if n > 6 and depth > 1 and tier == "quick":
            depth_ = 1
        else:
            depth_ = depth if n <= 5 or tier != "quick" else 2
        P, W = shapes.points(n), shapes.weights(wk, n)
        explore(ctx, shapes.curve(p, U, P, W), Model(p, U, P, W), depth_, f"p={p} U={[float(x) for x in U]} w={wk}")


def others(ctx, p, wk, tier):
    for n in (p + 1, p + 2):
        for U in shapes.unclamped_knots(p, n):
            P, W = shapes.points(n), shapes.weights(wk, n)
            explore(ctx, shapes.curve(p, U, P, W), Model(p, U, P, W), 1, f"unclamped p={p} U={[float(x) for x in U]} w={wk}")


def periodic(ctx, p, wk, tier):
    for n in (p + 1, p + 2, p + 3):
        P, W = shapes.points(n), shapes.weights(wk, n)
        c = NURBSCurve(shapes.arr([q + (w,) for q, w in zip(P, W)]), p, None, True)
        U = tuple(F(i - p) for i in range(n + 2 * p + 1))
        explore(ctx, c, Model(p, U, P + P[:p], W + W[:p]), 1, f"periodic p={p} n={n} w={wk}")


def tasks(tier):
    out = []
    for p in (1, 2, 3, 4):
        for wk in ("one", "mix", "last"):
            for i in range(4):
                out.append((f"clamped p={p} {wk} {i}", clamped, (p, wk, i, 2 if p < 4 else 1, tier)))
            out.append((f"periodic p={p} {wk}", periodic, (p, wk, tier)))
            out.append((f"unclamped p={p} {wk}", others, (p, wk, tier)))
    return out
