"""C04: the algorithms on raw knot vectors and control points describe the same spline before and after."""
from fractions import Fraction as F

import numpy as np

import ref
import shapes
from mmcore.geom import nurbs
from mmcore.geom.curves import knot as K

PID = "C04"
ASSUMPTIONS = [
    "homogeneous control points of dimension 1..4; results agree with the exact spline within 1e-8",
    "a knot is inserted at most up to multiplicity = degree, strictly inside the domain of a clamped vector (compiled insertion: unclamped ones too)",
    "a refinement that has nothing to insert may refuse",
]
BOUNDS = {
    "degree": "1..4 (thorough 5)",
    "knots": "clamped, up to 2 interior knots (thorough 3) in every multiplicity pattern, two spacings; unclamped and half-clamped ones",
    "insertion": "at every knot and at 2 points of every span, every admissible count, compiled and Python version; then every history of a second insertion at every knot and mid-span (degree <= 3)",
    "removal": "every removal of every previously inserted knot, one by one and at once, in every order of two",
    "refinement": "density 1..3; default, explicit and additional knot lists (every subset of up to 2 candidates)",
}


def homogeneous(n, dim, wk):
    P, W = shapes.points(n), shapes.weights(wk, n)
    return [(tuple(x * w for x in q) + (w,))[-dim:] for q, w in zip(P, W)]


def same(ctx, p, U, H, K2, C2, sig, fine=3):
    """The spline (K2, C2) equals the exact (U, H) on its whole domain."""
    K2 = [float(x) for x in K2]
    C2 = [[float(x) for x in r] for r in np.asarray(C2)]
    if not ctx.expect(len(K2) == len(C2) + p + 1 and all(a <= b for a, b in zip(K2, K2[1:])), f"{sig}: knots", f"{K2} for {len(C2)} points"):
        return False
    Kx = tuple(F(x) for x in K2)
    Cx = [tuple(F(x) for x in r) for r in C2]
    for t in ref.query_params(Kx, p, fine):
        ctx.step()
        if not (U[p] <= t <= U[len(H)]):
            continue
        if not ctx.expect(ref.near(ref.spline(Kx, p, Cx, t), ref.spline(U, p, H, t), 1e-8), f"{sig}: at {float(t)!r}",
                          lambda: f"{[float(x) for x in ref.spline(Kx, p, Cx, t)]} instead of {[float(x) for x in ref.spline(U, p, H, t)]}; knots {K2}"):
            return False
    return True


def inserted(U, u, r):
    return sorted(list(U) + [u] * r)


def lookup(ctx, p, U, Uf, n, tag):
    for t in ref.query_params(U, p, 4):
        ctx.step()
        with ctx.at(f"{tag} lookups at {float(t)!r}"):
            k = ref.span(U, p, t)
            tf = float(t)
            spans = {"find_span_linear": K.find_span_linear(p, list(Uf), n, tf), "find_span_binsearch": K.find_span_binsearch(p, list(Uf), n, tf),
                     "find_knot_span": K.find_knot_span(n - 1, p, tf, Uf), "find_spans": K.find_spans(p, list(Uf), n, [tf])[0],
                     "find_span": nurbs.find_span(n - 1, p, tf, Uf, False)}
            for name, s in spans.items():
                ctx.expect(s == k, f"{tag} {name} at {tf!r}", f"span {s}, exact {k}, knots {list(Uf)}")
            ctx.expect(K.find_multiplicity(tf, list(Uf)) == U.count(t), f"{tag} multiplicity at {tf!r}", "")
            N = ref.basis(U, p, t)
            ctx.expect(ref.near(K.basis_function(p, list(Uf), k, tf), [N.get(k - p + j, F(0)) for j in range(p + 1)]), f"{tag} basis_function at {tf!r}", "")
    with ctx.at(f"{tag} normalize"):
        a, b = U[0], U[-1]
        ctx.expect(ref.near(K.normalize_knot(list(Uf)), [(x - a) / (b - a) for x in U]), f"{tag} normalize_knot", "")


def insert(ctx, p, U, Uf, H, Hf, u, r, sig, both=True):
    """All versions of the insertion; the compiled one's (knots, points) is returned when it is right."""
    k, s = ref.span(U, p, u), U.count(u)
    n = len(H)
    kv = nurbs.knot_insertion_kv(Uf, float(u), k, r)
    C = nurbs.knot_insertion(p, Uf, Hf, float(u), r, s, k)
    ctx.step(2)
    ok = ctx.expect(ref.near(kv, inserted(U, u, r)), f"{sig}: knot_insertion_kv", f"{list(kv)}")
    ok = ok and same(ctx, p, U, H, kv, C, f"{sig}: knot_insertion")
    if both and U[0] == U[p] and U[-1] == U[n]:
        C2, kv2 = K.knot_insertion(p, [float(x) for x in Uf], np.array(Hf), float(u), num=r)
        ctx.step()
        ctx.expect(ref.near(kv2, inserted(U, u, r)), f"{sig}: Python knots", f"{list(kv2)}")
        same(ctx, p, U, H, kv2, C2, f"{sig}: Python insertion", 2)
    return (np.array(kv), np.array(C)) if ok else None


def sites(U, p):
    return ref.query_params(U, p, 3)[1:-1]


def insertion(ctx, p, U, dim, wk, second, tier):
    n = len(U) - p - 1
    H = homogeneous(n, dim, wk)
    Uf, Hf = shapes.knots(U), shapes.arr(H)
    tag = f"p={p} U={[float(x) for x in U]} dim={dim} w={wk}"
    if wk == "mix":
        lookup(ctx, p, U, Uf, n, tag)
    U0, H0 = Uf.copy(), Hf.copy()
    for u in sites(U, p):
        for r in range(1, p - U.count(u) + 1):
            sig = f"{tag} insert {float(u)!r} x{r}"
            with ctx.at(sig):
                res = insert(ctx, p, U, Uf, H, Hf, u, r, sig)
                ctx.expect((Uf == U0).all() and (Hf == H0).all(), f"{sig}: operands changed", "")
                ctx.trace()
                if res is None:
                    continue
                kv, C = res
                ctx.state((tag, u, r))
                # take them out again: at once, and one by one
                for m in range(1, r + 1):
                    D = nurbs.knot_removal(p, kv, C, float(u), num=m)
                    same(ctx, p, U, H, inserted(U, u, r - m), D, f"{sig}: remove {m}", 2)
                KV, D = kv, C
                for m in range(1, r + 1):
                    D = np.array(nurbs.knot_removal(p, np.array(KV), np.array(D), float(u), num=1))
                    KV = [float(x) for x in inserted(U, u, r - m)]
                    if not same(ctx, p, U, H, KV, D, f"{sig}: remove 1 for the {m}th time", 2):
                        break
                ctx.expect((kv == np.array([float(x) for x in inserted(U, u, r)])).all(), f"{sig}: removal changed its operand", "")
                if not second:
                    continue
                U1 = tuple(inserted(U, u, r))
                H1 = [tuple(F(float(x)) for x in row) for row in C]
                for v in ref.query_params(U, p, 2)[1:-1]:
                    for q in range(1, p - U1.count(v) + 1):
                        sig2 = f"{sig}, {float(v)!r} x{q}"
                        with ctx.at(sig2):
                            res2 = insert(ctx, p, U1, kv, H1, C, v, q, sig2, both=False)
                            ctx.trace()
                            if res2 is None or not ctx.state((tag, u, r, v, q)) or v == u:
                                continue
                            for x, y, rx, ry in ((u, v, r, q), (v, u, q, r)):
                                D = np.array(nurbs.knot_removal(p, res2[0], res2[1], float(x), num=rx))
                                U3 = inserted(U, y, ry)
                                if same(ctx, p, U, H, U3, D, f"{sig2}: remove {float(x)!r}", 2):
                                    E = nurbs.knot_removal(p, np.array([float(t) for t in U3]), D, float(y), num=ry)
                                    same(ctx, p, U, H, U, E, f"{sig2}: remove both from {float(x)!r}", 2)
    ctx.sample(tag)


def unclamped(ctx, p, wk, tier):
    for n in (p + 1, p + 2, p + 3):
        for U in shapes.unclamped_knots(p, n):
            insertion(ctx, p, U, 4, wk, False, tier)


def refinement(ctx, p, U, dim, wk, tier):
    n = len(U) - p - 1
    H = homogeneous(n, dim, wk)
    Uf, Hf = shapes.knots(U), shapes.arr(H)
    tag = f"p={p} U={[float(x) for x in U]} dim={dim} w={wk}"
    cand = sorted(set(ref.query_params(U, p, 2)))
    lists = [[a] for a in cand[1:-1]] + [[a, b] for i, a in enumerate(cand) for b in cand[i + 1 :]]
    jobs = [("default", {}, cand[::2])]
    jobs += [("add " + str([float(x) for x in l]), {"add_knot_list": l}, sorted(set(cand[::2]) | set(l))) for l in lists]
    jobs += [("only " + str([float(x) for x in l]), {"knot_list": l}, l) for l in lists]
    for name, kw, base in jobs:
        for density in (1, 2, 3):
            want = list(base)
            for _ in range(density - 1):
                want = sorted(set(want) | {(a + b) / 2 for a, b in zip(want, want[1:])})
            new = []
            for t in want:
                if U[0] < t < U[-1]:
                    new += [t] * max(0, p - U.count(t))
            sig = f"{tag} refine {name} density {density}"
            with ctx.at(sig):
                k = {a: np.array([float(x) for x in b]) for a, b in kw.items()}
                if not new:
                    continue
                C, kv = nurbs.knot_refinement(p, Uf, Hf, density=density, **k)
                ctx.trace()
                ctx.state(sig)
                ctx.expect(ref.near(kv, sorted(list(U) + new)), f"{sig}: knots", f"{list(kv)} expected {[float(x) for x in sorted(list(U) + new)]}")
                same(ctx, p, U, H, kv, C, sig, 2)
                ctx.expect((Uf == shapes.knots(U)).all() and (Hf == shapes.arr(H)).all(), f"{sig}: operands changed", "")


def merging(ctx, p, tier):
    """merge_knot_vectors keeps the larger multiplicity of every knot; refine_curve to the merged vector keeps the curve."""
    Us = [U for U in shapes.open_knots(p, tier, inner=2)]
    base = {}
    for U in Us:
        # all on the domain [0, 1]
        U = tuple((x - U[0]) / (U[-1] - U[0]) for x in U)
        U = tuple(F(round(x * 8), 8) for x in U)
        base.setdefault(U, None)
    for A in base:
        n = len(A) - p - 1
        P, W = shapes.points(n), shapes.weights("mix", n)
        c = shapes.curve(p, A, P, W)
        for B in base:
            sig = f"p={p} merge {[float(x) for x in A]} with {[float(x) for x in B]}"
            with ctx.at(sig):
                want = []
                for t in sorted(set(A) | set(B)):
                    want += [t] * max(A.count(t), B.count(t))
                got = K.merge_knot_vectors(shapes.knots(A), shapes.knots(B))
                ctx.expect(ref.near(got, want), f"{sig}: knots", f"{list(got)}")
                r = K.refine_curve(c, got)
                ctx.state(sig)
                ctx.trace()
                ctx.expect(ref.near(r.knots, want), f"{sig}: refined knots", f"{list(r.knots)}")
                for t in ref.query_params(A, p, 3):
                    ctx.step()
                    ctx.expect(ref.near(r.evaluate(float(t)), ref.curve_point(A, p, P, W, t)), f"{sig}: refined curve at {float(t)!r}", "")
                ctx.expect(ref.near(c.knots, A), f"{sig}: the operand changed", "")
                # knots that differ by rounding only count as one
                e = np.array([np.nextafter(x, 2.0) if 0 < x < 1 else x for x in shapes.knots(B)])
                near = K.merge_knot_vectors(shapes.knots(A), e)
                ctx.step()
                if ctx.expect(len(near) == len(want) and ref.near(near, want), f"{sig}: knots off by rounding", f"{list(near)}"):
                    r = K.refine_curve(c, near)
                    ctx.expect(len(r.knots) == len(want) and ref.near(r.knots, want) and all(ref.near(r.evaluate(float(t)), ref.curve_point(A, p, P, W, t)) for t in ref.query_params(A, p, 2)), f"{sig}: refined with knots off by rounding", "")


def group(ctx, fn, items):
    for a in items:
        fn(ctx, *a)


def tasks(tier):
    out = []
    deep = tier != "quick"
    for p in (1, 2, 3, 4) + ((5,) if deep else ()):
        Us = list(shapes.open_knots(p, tier, inner=3 if deep and p < 4 else 2 if p < 4 else 1))
        for wk in ("one", "mix"):
            for i in range(6):
                second = p <= 3
                out.append((f"insertion p={p} {wk} {i}", group, (insertion, [(p, U, d, wk, second and len(U) < (2 * p + 7 if deep else (8, 9, 11, 10)[p]), tier) for U in Us[i::6] for d in ((4,) if wk == "mix" else (1, 3))])))
                out.append((f"refinement p={p} {wk} {i}", group, (refinement, [(p, U, 4, wk, tier) for U in Us[i::6]])))
        out.append((f"unclamped p={p}", unclamped, (p, "mix", tier)))
        if p <= (4 if deep else 3):
            out.append((f"merging p={p}", merging, (p, tier)))
    return out
