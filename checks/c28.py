"""C28: power basis, Bernstein basis and Gauss maps describe one surface."""
import itertools
import math
from fractions import Fraction as F

import numpy as np
from scipy.optimize import nnls

from mmcore.geom.nurbs import NURBSSurface
from mmcore.numeric import gauss_map as G
from mmcore.numeric import monomial as M
from mmcore.numeric.binom import binomial_coefficient_py

PID = "C28"
ASSUMPTIONS = [
    "conversions are linear and products bilinear, so that all the nets with a single 1 (and pairs of them) stand for every net of their size; nets of integers are run besides",
    "surfaces are polynomial Bezier patches over the unit square; Gauss maps are asked for on patches without vanishing normals",
]
BOUNDS = {
    "binomial coefficients": "all 31 x 31 of the table",
    "conversions": "every unit net of 1..5 x 1..5 points in 1 and 3 dimensions, integer nets, both methods; there and back up to degree 7 x 7",
    "values": "the same at every parameter of a 5 x 5 grid, with every weight pattern of 1, 2, 1/2 at the corners",
    "derivatives, products": "every unit net up to 4 x 4; every pair of unit nets up to 3 x 3, equal and different sizes",
    "Gauss maps": "every 3x3 net with heights 0, 1/2 at 5 (thorough 7) places, 2x2 and 3x2 nets, 16 (thorough 25) parameters, 2 levels of subdivision",
}
T5 = [F(0), F(1, 4), F(1, 2), F(7, 8), F(1)]


def bern(n, i, t):
    return math.comb(n, i) * t ** i * (1 - t) ** (n - i)


def near(a, b, tol=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b).max(initial=0))))


def power_row(n, i):
    """Power-basis coefficients of the Bernstein polynomial B(i, n)."""
    return [math.comb(n, j) * math.comb(j, i) * (-1) ** (j - i) if j >= i else 0 for j in range(n + 1)]


def unit_nets(n, m):
    for i, j in itertools.product(range(n), range(m)):
        net = np.zeros((n, m))
        net[i, j] = 1
        yield (i, j), net


def integer_net(n, m, dim, k):
    return np.array([[[((3 * i + 5 * j + 7 * d + k) % 11) - 4 for d in range(dim)] for j in range(m)] for i in range(n)], dtype=float)


def t_table(ctx):
    for n, k in itertools.product(range(31), repeat=2):
        ctx.state((n, k))
        with ctx.at("table"):
            ctx.step()
            ctx.expect(binomial_coefficient_py(n, k) == math.comb(n, k), "table", lambda: f"binomial({n}, {k}) = {binomial_coefficient_py(n, k)}")


def t_convert(ctx, n, m):
    for (i, j), net in unit_nets(n, m):
        want = np.outer(power_row(n - 1, i), power_row(m - 1, j))
        for dim in (1, 3):
            cp = np.zeros((n, m, dim))
            cp[..., dim - 1] = net
            for method in ("mmcore", "scipy"):
                ctx.state((n, m, i, j, dim, method))
                with ctx.at("convert"):
                    given = cp.copy()
                    got = M.bezier_to_monomial(given, bmethod=method)
                    ctx.step()
                    ok = got.shape == cp.shape and (got[..., dim - 1] == want).all() and not got[..., :dim - 1].any()
                    ctx.expect(ok, "to power", lambda: f"bezier_to_monomial of the unit net {i, j} of {n} x {m}: {got.tolist()}")
                    back = M.monomial_to_bezier(got, bmethod=method)
                    ctx.expect(near(back, cp, 1e-11), "there and back", lambda: f"the unit net {i, j} of {n} x {m} there and back: {back.tolist()}")
                    ctx.expect((given == cp).all(), "argument", lambda: "bezier_to_monomial changes its argument")
            # the net as coefficients: u^i v^j in the Bernstein basis
            with ctx.at("convert"):
                got = M.monomial_to_bezier(cp)
                bi = [F(math.comb(a, i), math.comb(n - 1, i)) if a >= i else F(0) for a in range(n)]
                bj = [F(math.comb(b, j), math.comb(m - 1, j)) if b >= j else F(0) for b in range(m)]
                ctx.expect(near(got[..., dim - 1], [[float(x * y) for y in bj] for x in bi], 1e-11), "to Bernstein", lambda: f"monomial_to_bezier of u^{i} v^{j}: {got.tolist()}")


def t_values(ctx, n, m):
    nets = [net[..., None] * np.array([0., 1, -2]) for _, net in unit_nets(n, m)] + [integer_net(n, m, 3, k) for k in range(3)]
    for net in nets:
        co = M.bezier_to_monomial(net)
        mono = M.Monomial2D(co)
        bz = mono.to_bezier() if n > 1 and m > 1 else None
        ctx.state((n, m, net.tobytes()))
        with ctx.at("values"):
            if bz is not None:
                s = NURBSSurface(net.copy(), (n - 1, m - 1))
                ctx.expect(near(mono.to_bernstein_basis(), net, 1e-10), "object", lambda: f"to_bernstein_basis of {net.tolist()}")
                for back in (M.Monomial2D.from_bezier(s), M.Monomial2D.from_nurbs(s), M.Monomial2D.from_bernstein_basis(net)):
                    ctx.expect(near(back.coeffs, co, 1e-10), "object", lambda: f"Monomial2D of the patch {net.tolist()}: {back.coeffs.tolist()}")
                for there in (bz, mono.to_nurbs()):
                    ctx.expect(there.degree == (n - 1, m - 1) and near(np.array(there.control_points), net, 1e-10), "object", lambda: f"to_bezier of the form of {net.tolist()}: {np.array(there.control_points).tolist()}")
        for u, v in itertools.product(T5, repeat=2):
            B = [[float(bern(n - 1, i, u) * bern(m - 1, j, v)) for j in range(m)] for i in range(n)]
            want = np.einsum("ij,ijd->d", np.array(B), net)
            q = (float(u), float(v))
            with ctx.at("values"):
                ctx.step(4)
                for name, got in (("evaluate_monomial2d", M.evaluate_monomial2d(co, *q)), ("evaluate_bezier_patch", M.evaluate_bezier_patch(net, *q)),
                                  ("Monomial2D.evaluate", mono.evaluate(np.array(q))), ("Monomial2D.evaluate_v2", mono.evaluate_v2(*q))):
                    ctx.expect(near(got, want, 1e-11), "value", lambda: f"{name} at {q} of {net.tolist()}: {got}, not {want}")
    net = integer_net(n, m, 3, 1)
    for ws in itertools.product((1., 2., .5), repeat=min(3, n * m)):
        W = np.ones((n, m))
        W.flat[:len(ws)] = ws
        hom = np.concatenate([net * W[..., None], W[..., None]], axis=2)
        with ctx.at("rational"):
            got = M.homogeneous_monomial_to_rational_bezier(M.bezier_to_monomial(hom))
            ctx.step()
            ctx.expect(near(got[..., :3], net, 1e-10) and near(got[..., 3], W, 1e-10), "rational", lambda: f"homogeneous_monomial_to_rational_bezier with the weights {ws}: {got.tolist()}")
            for u, v in itertools.product(T5[::2], repeat=2):
                B = np.array([[float(bern(n - 1, i, u) * bern(m - 1, j, v)) for j in range(m)] for i in range(n)]) * W
                got = M.evaluate_rational_bezier_patch(net, W, float(u), float(v))
                ctx.expect(near(got, np.einsum("ij,ijd->d", B, net) / B.sum(), 1e-12), "rational", lambda: f"evaluate_rational_bezier_patch with {ws} at {u, v}: {got}")


def t_derive(ctx, n, m):
    for (i, j), net in unit_nets(n, m):
        co = net[..., None] * np.array([1., -3, 2])
        ctx.state((n, m, i, j))
        with ctx.at("derive"):
            ctx.step()
            du, dv = M.monomial_partial_derivatives(co)
            wu, wv = np.zeros((n - 1, m, 3)), np.zeros((n, m - 1, 3))
            if i:
                wu[i - 1, j] = i * co[i, j]
            if j:
                wv[i, j - 1] = j * co[i, j]
            ctx.expect(np.array_equal(du, wu) and np.array_equal(dv, wv), "derive", lambda: f"derivatives of u^{i} v^{j}: {du.tolist()} {dv.tolist()}")
            a, b = M.Monomial2D(co).monomial_derivatives()
            ctx.expect(np.array_equal(a.coeffs, wu) and np.array_equal(b.coeffs, wv), "derive", lambda: f"monomial_derivatives of u^{i} v^{j}")
            for var, w in (("u", wu), ("v", wv)):
                got = G.compute_partial_derivative(co, var)
                full = np.zeros((n, m, 3))
                full[:w.shape[0], :w.shape[1]] = w
                ctx.expect(np.array_equal(got, full), "derive", lambda: f"compute_partial_derivative of u^{i} v^{j} by {var}: {got.tolist()}")


def t_cross(ctx, sa, sb):
    E = np.eye(3)
    vecs = [E[0], E[1], E[2], np.array([1., 2, -3])]
    for ((i, j), a), ((k, l), b) in itertools.product(unit_nets(*sa), unit_nets(*sb)):
        for x, y in itertools.product(vecs, repeat=2):
            A, B = a[..., None] * x, b[..., None] * y
            want = np.zeros((sa[0] + sb[0] - 1, sa[1] + sb[1] - 1, 3))
            want[i + k, j + l] = np.cross(x, y)
            ctx.state((sa, sb, i, j, k, l, tuple(x), tuple(y)))
            with ctx.at("cross"):
                ctx.step()
                got = M.cross_product_monomial(A, B)
                ctx.expect(np.array_equal(got, want), "cross", lambda: f"{x} u^{i} v^{j} x {y} u^{k} v^{l}: {got.tolist()}")
                if sa == sb:
                    got = G.cross_product(A, B)
                    ctx.expect(np.array_equal(got, want), "cross", lambda: f"gauss_map.cross_product: {x} u^{i} v^{j} x {y} u^{k} v^{l}: {got.tolist()}")
    A, B = integer_net(*sa, 3, 2), integer_net(*sb, 3, 5)
    for u, v in itertools.product((0.5, -2.0, 1.0), repeat=2):
        with ctx.at("cross"):
            got = M.Monomial2D(A).cross(M.Monomial2D(B)).evaluate((u, v))
            want = np.cross(M.evaluate_monomial2d(A, u, v), M.evaluate_monomial2d(B, u, v))
            ctx.expect(near(got, want, 1e-12), "cross", lambda: f"cross at {u, v}: {got}, not {want}")


# ---- Gauss maps --------------------------------------------------------------------------------------------------------------------

def nets(tier):
    places = [(0, 0), (1, 1), (0, 1), (2, 1), (2, 2)] + ([(1, 0), (1, 2)] if tier == "thorough" else [])
    for hs in itertools.product((0., .5), repeat=len(places)):
        net = np.array([[[i, j, 0.] for j in range(3)] for i in range(3)])
        for (i, j), h in zip(places, hs):
            net[i, j, 2] = h
        yield net
    for h in (0., .5, -1., 2.):
        yield np.array([[[0., 0, 0], [0, 1, h]], [[1, 0, 0], [1.5, 1, .25]]])
        yield np.array([[[0., 0, 0], [0, 1, h]], [[1, 0, .5], [1, 1.5, 0]], [[2, 0, h], [2, 1, 0]]])


def surface_normal(net, u, v):
    n, m, _ = net.shape
    du = np.einsum("i,j,ijd->d", *[np.array(x) for x in ([bern(n - 2, i, u) for i in range(n - 1)], [bern(m - 1, j, v) for j in range(m)])], np.diff(net, axis=0) * (n - 1))
    dv = np.einsum("i,j,ijd->d", *[np.array(x) for x in ([bern(n - 1, i, u) for i in range(n)], [bern(m - 2, j, v) for j in range(m - 1)])], np.diff(net, axis=1) * (m - 1))
    return np.cross(du, dv)


def unit(v):
    return v / np.linalg.norm(v)


def t_gauss(ctx, part, tier):
    ts = np.linspace(0, 1, 5 if tier == "thorough" else 4)
    for net in list(nets(tier))[part::4]:
        n, m, _ = net.shape
        ctx.state(net.tobytes())
        with ctx.at("gauss"):
            given = net.copy()
            maps = [G.compute_gauss_map(given), G.compute_gauss_mapw(given)]
            ctx.expect((given == net).all(), "argument", lambda: "compute_gauss_map changes its argument")
            mono = M.Monomial2D.from_bernstein_basis(net).monomial_normal()
            coeffs = M.normal_vector_monomial(M.bezier_to_monomial(net))
            g = G.GaussMap.from_surf(NURBSSurface(net.copy(), (n - 1, m - 1)))
            for u, v in itertools.product(ts, repeat=2):
                want = surface_normal(net, u, v)
                ctx.step()
                for mp in maps:
                    B = np.einsum("i,j,ijd->d", np.array([bern(mp.shape[0] - 1, i, u) for i in range(mp.shape[0])]), np.array([bern(mp.shape[1] - 1, j, v) for j in range(mp.shape[1])]), mp)
                    ctx.expect(near(B, want, 1e-9), "gauss", lambda: f"compute_gauss_map of {net.tolist()} at {u, v}: {B}, not {want}")
                for got in (mono.evaluate((u, v)), M.evaluate_monomial2d(coeffs, u, v)):
                    ctx.expect(near(got, want, 1e-9), "normal", lambda: f"monomial normal of {net.tolist()} at {u, v}: {got}, not {want}")
            level(ctx, g, net, ts, 2, ((0., 1.), (0., 1.)), net)


def level(ctx, g, net, ts, depth, box, key):
    """The bounds enclose the directions of the normals, and the parts of the patch are parts of it.

    The maps of the parts are not judged: they are cut from a map with control vectors of length one (see t_scaled)."""
    (u0, u1), (v0, v1) = box
    g.compute()
    hull = np.array(g.bounds())
    for a, b in itertools.product(ts, repeat=2):
        u, v = u0 + a * (u1 - u0), v0 + b * (v1 - v0)
        want = unit(surface_normal(net, u, v))
        q = np.array([u, v])
        ctx.step()
        p = np.einsum("i,j,ijd->d", np.array([bern(net.shape[0] - 1, i, u) for i in range(net.shape[0])]), np.array([bern(net.shape[1] - 1, j, v) for j in range(net.shape[1])]), net)
        ctx.expect(near(g.surface.evaluate(q), p, 1e-9), "part", lambda: f"the part {box} of {key.tolist()} at {u, v}: {np.array(g.surface.evaluate(q))}, not {p}")
        if depth == 2:
            res = nnls(hull.T, want)[1]
            ctx.expect(res <= 1e-6, "bounds", lambda: f"the normal {want} at {u, v} is outside the bounds of the Gauss map of the part {box} of {key.tolist()} by {res}")
    if depth:
        um, vm = (u0 + u1) / 2, (v0 + v1) / 2
        parts = [((a, b), (c, d)) for a, b in ((u0, um), (um, u1)) for c, d in ((v0, vm), (vm, v1))]
        children = g.subdivide()
        seen = sorted(tuple(tuple(float(x) for x in i) for i in c.surface.interval()) for c in children)
        ctx.expect(seen == sorted(parts), "parts", lambda: f"the part {box} is subdivided into {seen}")
        for c in children if depth == 2 else children[:1]:
            level(ctx, c, net, ts[::3], depth - 1, c.surface.interval(), key)


def t_scaled(ctx):
    """The one patch recorded as a finding: the map kept for subdivision is not the Gauss map of the patch."""
    net = np.array([[[0., 0, 0], [0, 1, 2]], [[1, 0, 0], [1.5, 1, .25]]])
    g = G.GaussMap.from_surf(NURBSSurface(net.copy(), (1, 1)))
    got, want = unit(np.array(g._map.evaluate(np.array([0.25, 0.5])))), unit(surface_normal(net, 0.25, 0.5))
    ctx.step()
    ctx.state("patch")
    ctx.expect(near(got, want, 1e-7), "map of scaled control vectors", f"the Gauss map of {net.tolist()} at 1/4, 1/2: {got}, not {want}")


def t_bezier(ctx):
    """A surface is one Bezier patch exactly when it has no inner knots."""
    for inner_u, inner_v in itertools.product(((), (.5,), (.25, .5)), repeat=2):
        for p, q in itertools.product((1, 2, 3), repeat=2):
            U = np.array([0.] * (p + 1) + list(inner_u) + [1.] * (p + 1))
            V = np.array([0.] * (q + 1) + list(inner_v) + [1.] * (q + 1))
            net = integer_net(len(U) - p - 1, len(V) - q - 1, 3, 0)
            ctx.state((inner_u, inner_v, p, q))
            with ctx.at("is_bezier"):
                s = NURBSSurface(net, (p, q), U, V)
                ctx.step()
                one = not inner_u and not inner_v
                ctx.expect(bool(G.is_bezier(s)) == one, "is_bezier", lambda: f"is_bezier with inner knots {inner_u}, {inner_v}: {G.is_bezier(s)}")
                try:
                    M.Monomial2D.from_nurbs(s)
                    ctx.expect(one, "from_nurbs", lambda: f"from_nurbs accepts a surface with inner knots {inner_u} {inner_v}")
                except NotImplementedError:
                    ctx.expect(not one, "from_nurbs", lambda: "from_nurbs refuses a Bezier patch")


def tasks(tier):
    top = 6 if tier == "thorough" else 5
    sizes = list(itertools.product(range(1, top + 1), repeat=2))
    out = [("table", t_table, ()), ("is_bezier", t_bezier, ()), ("scaled", t_scaled, ())]
    out += [(f"convert-{n}x{m}", t_convert, (n, m)) for n, m in sizes + [(8, 8), (8, 2), (1, 8)]]
    out += [(f"values-{n}x{m}", t_values, (n, m)) for n, m in sizes]
    out += [(f"derive-{n}x{m}", t_derive, (n, m)) for n, m in itertools.product(range(1, 5), repeat=2)]
    shapes = [(2, 2), (2, 3), (3, 2), (1, 3), (3, 3)] + ([(4, 3)] if tier == "thorough" else [])
    out += [(f"cross-{a}-{b}", t_cross, (a, b)) for a, b in itertools.product(shapes, repeat=2)]
    return out + [(f"gauss-{i}", t_gauss, (i, tier)) for i in range(4)]
