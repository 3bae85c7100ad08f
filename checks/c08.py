"""C08: every way of evaluating a parametric surface gives the point and derivatives of its definition."""
import itertools
from fractions import Fraction as F

import numpy as np

import ref
import shapes
from mmcore.geom import nurbs
from mmcore.geom.nurbs import CurveSurfaceEq, NURBSSurface, SurfaceSurfaceEq
from mmcore.geom.parametric import BiLinear, Ruled

PID = "C08"
H = 1e-3
ASSUMPTIONS = [
    "points agree with the exact definition within 1e-9, exact derivative routines within 1e-8",
    "derivative_u / derivative_v / second derivatives / normal / plane_at of NURBS surfaces are finite differences of step 1e-3: they are compared, where the surface is smooth, within the error such a difference has by Taylor's formula",
]
BOUNDS = {
    "NURBS surfaces": "degrees (1..3) x (1..3), every pair of knot vectors with up to 1 interior knot of every multiplicity, shifted and unclamped domains, 4 weight patterns",
    "parameters": "every pair of knots and mid-spans, and the floats next to every knot",
    "derivatives": "all partial orders up to 3 of the exact routines; first and second order of the surface objects",
    "others": "bilinear patches and ruled surfaces over pairs of curves of degree 1..3 with all parameter pairs",
}


def grid(nu, nv):
    return [[(F(i) + F((i * j * j) % 3, 2), F(j) - F((i * i + j) % 4, 4), F((3 * i + 5 * j + i * j * j) % 7, 2)) for j in range(nv)] for i in range(nu)]


def wgrid(kind, nu, nv):
    f = {
        "one": lambda i, j: F(1),
        "two": lambda i, j: F(2),
        "mix": lambda i, j: (F(1), F(2), F(1, 2), F(3), F(3, 2))[(i * 2 + j) % 5],
        "corner": lambda i, j: F(4) if (i, j) == (nu - 1, nv - 1) else F(1, 2) if (i, j) == (0, nv - 1) else F(1),
    }[kind]
    return [[f(i, j) for j in range(nv)] for i in range(nu)]


def hom(P, W):
    return [[tuple(x * w for x in q) + (w,) for q, w in zip(r, s)] for r, s in zip(P, W)]


def build(p, q, U, V, Hg):
    a = np.array([[[float(x) for x in h] for h in r] for r in Hg])
    return NURBSSurface(a, (p, q), shapes.knots(U), shapes.knots(V))


def exact_point(U, V, p, q, Hg, u, v):
    h = ref.surface_hom(U, V, p, q, Hg, u, v)
    return tuple(x / h[3] for x in h[:3])


def surface(ctx, p, q, U, V, wk, tier):
    nu, nv = len(U) - p - 1, len(V) - q - 1
    Hg = hom(grid(nu, nv), wgrid(wk, nu, nv))
    tag = f"degree {p},{q} U={[float(x) for x in U]} V={[float(x) for x in V]} w={wk}"
    with ctx.at(tag):
        s = build(p, q, U, V, Hg)
        flat = np.array(s.control_points_flat_w)
        Pw = np.array(s.control_points_w)
        dom = (U[p], U[nu]), (V[q], V[nv])
        ctx.expect(np.allclose(np.array(s.interval()), [[float(x) for x in d] for d in dom]), f"{tag}: interval", f"{s.interval()}")
        ctx.expect(np.allclose(s.control_points, shapes.arr([x for r in grid(nu, nv) for x in r]).reshape(nu, nv, 3)), f"{tag}: control points", "")
        pts = [(u, v) for u in ref.query_params(U, p, 2) for v in ref.query_params(V, q, 2)]
        multi = s.evaluate_multi(np.array([[float(u), float(v)] for u, v in pts]))
        ctx.trace()
        for k, (u, v) in enumerate(pts):
            uv = np.array([float(u), float(v)])
            sig = f"{tag} at {uv.tolist()}"
            ctx.state((tag, k))
            d = 3
            A = ref.surface_hom_ders(U, V, p, q, Hg, u, v, d)
            X = ref.surface_ders(U, V, p, q, Hg, u, v, d, A)
            want = X[0, 0]
            ctx.step(4)
            for name, got in (("evaluate", s.evaluate(uv)), ("evaluate_v2", s.evaluate_v2(*uv)), ("evaluate_multi", multi[k]),
                              ("surface_point", nurbs.surface_point_py(nu - 1, p, shapes.knots(U), nv - 1, q, shapes.knots(V), Pw, uv[0], uv[1]))):
                ctx.expect(ref.near(got, want), f"{sig}: {name}", lambda: f"{list(got)}, exact {[float(x) for x in want]}")
            # exact derivative routines
            S = nurbs.surface_derivatives_py((p, q), shapes.knots(U), shapes.knots(V), flat, (nu, nv), uv[0], uv[1], d)
            R = nurbs.rat_surface_derivs_py(S, d)
            for a in range(d + 1):
                for b in range(d + 1 - a):
                    ctx.step(2)
                    h = A[a, b]
                    ctx.expect(ref.near(S[a][b], h, 1e-8), f"{sig}: homogeneous derivative {a},{b}", lambda: f"{list(S[a][b])} exact {[float(x) for x in h]}")
                    ctx.expect(ref.near(R[a][b], X[a, b], 1e-7), f"{sig}: derivative {a},{b}", lambda: f"{list(R[a][b])} exact {[float(x) for x in X[a, b]]}")
            differences(ctx, s, U, V, p, q, Hg, u, v, sig, X)
        for u in shapes.near_knot_params(U, p)[:: 1 if tier != "quick" else 2]:
            for v in shapes.near_knot_params(V, q)[:: 2 if tier != "quick" else 3]:
                ctx.step()
                got = s.evaluate(np.array([u, v]))
                ctx.expect(ref.near(got, exact_point(U, V, p, q, Hg, F(u), F(v))), f"{tag} at {[u, v]}: evaluate", lambda: f"{list(got)}")
        derivative_net(ctx, p, q, U, V, flat, nu, nv, Hg, tag)


def smooth(U, p, n, u):
    """No knot within 3 steps except at the ends of the domain."""
    return all(abs(float(k - u)) > 3 * H for k in U if U[p] < k < U[n])


def differences(ctx, s, U, V, p, q, Hg, u, v, sig, X):
    nu, nv = len(U) - p - 1, len(V) - q - 1
    if not (smooth(U, p, nu, u) and smooth(V, q, nv, v)):
        return
    f = lambda *k: np.array([float(x) for x in X[k]])
    # size of the next derivatives: the difference quotients are off by at most a step times that (second order near the point)
    size = lambda *ks: max(float(np.abs(f(*k)).max()) for k in ks)
    e1u = 2 * H * size((2, 0)) + 4 * H * H * size((3, 0)) + 1e-7
    e1v = 2 * H * size((0, 2)) + 4 * H * H * size((0, 3)) + 1e-7
    uv = np.array([float(u), float(v)])
    far = 1e-3  # room for the next terms of Taylor's formula
    got = s.derivative_u(uv), s.derivative_v(uv)
    ctx.step(6)
    for g, w, e, n in ((got[0], f(1, 0), e1u, "derivative_u"), (got[1], f(0, 1), e1v, "derivative_v")):
        ctx.expect(np.abs(g - w).max() <= e + far * H * (1 + size((3, 0), (0, 3))), f"{sig}: {n}", lambda: f"{g} exact {w}, allowed error {e}")
    for g, k, t, n in ((s.second_derivative_uu(uv), (2, 0), ((3, 0),), "second_derivative_uu"), (s.second_derivative_vv(uv), (0, 2), ((0, 3),), "second_derivative_vv"),
                       (s.second_derivative_uv(uv), (1, 1), ((2, 1), (1, 2)), "second_derivative_uv")):
        e = 4 * H * (size(*t) + 0.1 * (1 + size(k))) + 1e-6
        ctx.expect(np.abs(g - f(*k)).max() <= e, f"{sig}: {n}", lambda: f"{g} exact {f(*k)}, allowed error {e}")
    d = np.array(s.derivatives(uv))
    lo = min(e1u, e1v)
    ctx.expect(np.abs(d[0] - f(1, 0)).max() <= e1u + 1e-6 and np.abs(d[1] - f(0, 1)).max() <= e1v + 1e-6, f"{sig}: derivatives", lambda: f"{d} exact {f(1, 0)} {f(0, 1)}")
    c = np.cross(f(1, 0), f(0, 1))
    e = (e1u * np.linalg.norm(f(0, 1)) + e1v * np.linalg.norm(f(1, 0)) + e1u * e1v) * 2
    n = np.array(s.normal(uv))
    ctx.expect(np.abs(n - c).max() <= e, f"{sig}: normal", lambda: f"{n} exact {c}, allowed error {e}")
    ctx.expect(np.allclose(s.normal_multi(uv[None])[0], n, atol=1e-12), f"{sig}: normal_multi", "")
    if np.linalg.norm(c) > 20 * e and np.linalg.norm(f(1, 0)) > 20 * e1u:
        B = np.array(s.plane_at(uv))
        x, y, z = B[1:]
        ok = np.allclose(B[0], f(0, 0), atol=1e-8) and np.allclose(B[1:] @ B[1:].T, np.eye(3), atol=1e-9) and np.allclose(np.cross(x, y), z, atol=1e-9)
        tx, tz = f(1, 0) / np.linalg.norm(f(1, 0)), c / np.linalg.norm(c)
        ok = ok and np.abs(x - tx).max() < 4 * e1u / np.linalg.norm(f(1, 0)) + 1e-6 and np.abs(z - tz).max() < 4 * e / np.linalg.norm(c) + 1e-6
        ctx.expect(ok, f"{sig}: plane_at", lambda: f"{B} for x {tx} z {tz}")


def derivative_net(ctx, p, q, U, V, flat, nu, nv, Hg, tag):
    """surface_deriv_cpts: the control nets of all partial derivatives."""
    for order in (1, 2, 3):
        du, dv = min(p, order), min(q, order)
        PKL = np.zeros((du + 1, dv + 1, nu, nv, 4))
        a = lambda *x: np.array(x, dtype=np.int32)
        nurbs.surface_deriv_cpts(4, a(p, q), shapes.knots(U), shapes.knots(V), flat, a(nu, nv), a(0, nu - 1), a(0, nv - 1), order, PKL)
        ctx.step()
        for k in range(du + 1):
            for l in range(min(order - k, dv) + 1):
                net = [list(r) for r in Hg]
                UU, pp = U, p
                for _ in range(k):
                    cols = list(zip(*net))
                    cols = [ref.derived(UU, pp, list(c))[2] for c in cols]
                    net = [list(r) for r in zip(*cols)]
                    UU, pp = UU[1:-1], pp - 1
                VV, qq = V, q
                for _ in range(l):
                    net = [ref.derived(VV, qq, r)[2] for r in net]
                    VV, qq = VV[1:-1], qq - 1
                want = np.array([[[float(x) for x in h] for h in r] for r in net])
                # control points of basis functions without support are free
                live = np.array([[U[i + k] < U[i + p + 1] and V[j + l] < V[j + q + 1] for j in range(nv - l)] for i in range(nu - k)])
                got = PKL[k, l, : nu - k, : nv - l]
                ok = np.abs(got - want)[live].max() <= 1e-8 * (1 + np.abs(want[live]).max()) if live.any() else True
                ctx.expect(ok, f"{tag}: derivative control net {k},{l} order {order}", lambda: f"{got.tolist()} expected {want.tolist()}")


def knot_choices(p, tier):
    out = [(F(0),) * (p + 1) + (F(1),) * (p + 1)]
    for m in range(1, p + 1):
        out.append((F(-1),) * (p + 1) + (F(1, 2),) * m + (F(3, 2),) * (p + 1))
    out.append((F(0),) * (p + 1) + (F(1), F(3)) + (F(4),) * (p + 1))
    out.append(tuple(shapes.unclamped_knots(p, p + 2))[1])
    if tier != "quick":
        out += [(F(2),) * (p + 1) + (F(3), F(4), F(17, 4)) + (F(5),) * (p + 1), tuple(shapes.unclamped_knots(p, p + 3))[2]]
    return out


def surfaces(ctx, p, q, wk, k, tier):
    pairs = list(itertools.product(knot_choices(p, tier), knot_choices(q, tier)))
    if tier == "quick" and wk != "mix":
        pairs = pairs[("one", "two", "corner").index(wk) :: 3]
    for U, V in pairs[k::2]:
        surface(ctx, p, q, U, V, wk, tier)


def bilinear(ctx, k):
    corners = [(F(0), F(0), F(0)), (F(2), F(1), F(0)), (F(3), F(4), F(1)), (F(-1), F(2), F(5)), (F(1), F(1), F(1))]
    ts = [F(0), F(1, 4), F(1, 2), F(7, 8), F(1)]
    for ids in list(itertools.product(range(5), repeat=4))[k::4]:
        a, b, c, d = (corners[i] for i in ids)
        sig = f"bilinear {ids}"
        with ctx.at(sig):
            s = BiLinear(*([float(x) for x in y] for y in (a, b, c, d)))
            ctx.trace()
            ctx.state(sig)
            for u, v in itertools.product(ts, repeat=2):
                ctx.step(6)
                uv = np.array([float(u), float(v)])
                comb = lambda wa, wb, wc, wd: tuple(wa * x + wb * y + wc * z + wd * t for x, y, z, t in zip(a, b, c, d))
                for n, got, want in (
                    ("evaluate", s.evaluate(uv), comb((1 - u) * (1 - v), u * (1 - v), u * v, (1 - u) * v)),
                    ("derivative_u", s.derivative_u(uv), comb(v - 1, 1 - v, v, -v)),
                    ("derivative_v", s.derivative_v(uv), comb(u - 1, -u, u, 1 - u)),
                    ("second_derivative_uv", s.second_derivative_uv(uv), comb(1, -1, 1, -1)),
                    ("second_derivative_uu", s.second_derivative_uu(uv), comb(0, 0, 0, 0)),
                    ("second_derivative_vv", s.second_derivative_vv(uv), comb(0, 0, 0, 0)),
                ):
                    ctx.expect(ref.near(got, want), f"{sig} at {uv.tolist()}: {n}", lambda: f"{got} exact {[float(x) for x in want]}")
            ctx.expect(np.allclose(s.interval(), ((0, 1), (0, 1))), f"{sig}: interval", "")


def ruled(ctx, p, q, tier):
    import pickle

    for U1, U2, wk in itertools.product(knot_choices(p, tier), knot_choices(q, tier), ("one", "mix")):
        n1, n2 = len(U1) - p - 1, len(U2) - q - 1
        P1, P2 = shapes.points(n1), [(y, x + 2, z + 3) for x, y, z in shapes.points(n2)]
        W1, W2 = shapes.weights(wk, n1), shapes.weights(wk, n2)
        tag = f"ruled degrees {p},{q} {[float(x) for x in U1]} {[float(x) for x in U2]} w={wk}"
        with ctx.at(tag):
            s = Ruled(shapes.curve(p, U1, P1, W1), shapes.curve(q, U2, P2, W2))
            t = pickle.loads(pickle.dumps(s))
            ctx.state(tag)
            ctx.trace()
            a1, l1, a2, l2 = U1[p], U1[n1] - U1[p], U2[q], U2[n2] - U2[q]
            for u in [F(i, 8) for i in range(9)]:
                A = ref.curve_ders(U1, p, P1, W1, a1 + l1 * u, 2)
                B = ref.curve_ders(U2, q, P2, W2, a2 + l2 * u, 2)
                for v in (F(0), F(1, 4), F(1, 2), F(1)):
                    ctx.step(5)
                    uv = np.array([float(u), float(v)])
                    mix = lambda k: tuple((1 - v) * x * l1**k + v * y * l2**k for x, y in zip(A[k], B[k]))
                    rows = [("evaluate", s.evaluate(uv), mix(0)), ("unpickled", t.evaluate(uv), mix(0)), ("derivative_v", s.derivative_v(uv), tuple(y - x for x, y in zip(A[0], B[0]))),
                            ("second_derivative_vv", s.second_derivative_vv(uv), (0, 0, 0)), ("evaluate_v2", s.evaluate_v2(*uv), mix(0))]
                    rows += [("derivative_u", s.derivative_u(uv), mix(1)), ("second_derivative_uu", s.second_derivative_uu(uv), mix(2))]
                    for n, got, want in rows:
                        ctx.expect(ref.near(got, want, 1e-7), f"{tag} at {uv.tolist()}: {n}", lambda: f"{got} exact {[float(x) for x in want]}")


def distances(ctx, tier):
    """CurveSurfaceEq and SurfaceSurfaceEq: squared distance of the two points."""
    for p, q in itertools.product((1, 2, 3), repeat=2):
        U, V = knot_choices(p, "quick")[1], knot_choices(q, "quick")[-2]
        nu, nv = len(U) - p - 1, len(V) - q - 1
        H1, H2 = hom(grid(nu, nv), wgrid("mix", nu, nv)), hom([[(z, x + 1, y) for x, y, z in r] for r in grid(nv, nu)], wgrid("corner", nv, nu))
        s1, s2 = build(p, q, U, V, H1), build(q, p, V, U, H2)
        P, W = shapes.points(nu), shapes.weights("mix", nu)
        c = shapes.curve(p, U, P, W)
        E, G = CurveSurfaceEq(c, s1), SurfaceSurfaceEq(s1, s2)
        for u in ref.query_params(U, p, 2):
            for v in ref.query_params(V, q, 2):
                a = exact_point(U, V, p, q, H1, u, v)
                for t in ref.query_params(U, p, 3):
                    sig = f"distance degrees {p},{q} {float(t)},{float(u)},{float(v)}"
                    with ctx.at(sig):
                        ctx.step(2)
                        ctx.state(sig)
                        b = ref.curve_point(U, p, P, W, t)
                        ctx.expect(ref.near([E(np.array([float(t), float(u), float(v)]))], [sum((x - y) ** 2 for x, y in zip(a, b))]), f"{sig} curve", "")
                        b = exact_point(V, U, q, p, H2, v, t)
                        ctx.expect(ref.near([G(np.array([float(u), float(v), float(v), float(t)]))], [sum((x - y) ** 2 for x, y in zip(a, b))]), f"{sig} surface", "")
        ctx.trace()


def tasks(tier):
    out = []
    for p, q in itertools.product((1, 2, 3), repeat=2):
        for wk in ("one", "mix", "corner", "two"):
            for k in range(2):
                out.append((f"surface {p},{q} {wk} {k}", surfaces, (p, q, wk, k, tier)))
        out.append((f"ruled {p},{q}", ruled, (p, q, tier)))
    out += [(f"bilinear {k}", bilinear, (k,)) for k in range(4)]
    out.append(("distances", distances, (tier,)))
    return out
