"""C34: boundary representations: every history of additions against a model; ends of edges; surfaces as B-reps."""
import itertools
import math

import numpy as np

from mmcore.geom.nurbs import NURBSCurve, NURBSSurface
from mmcore.topo import brep as T

PID = "C34"
ASSUMPTIONS = [
    "points closer than 1e-8 are the same point and others are at least 1e-7 apart",
    "vertices of edges are asked for on curves that are not closed; a vertex is on its edge within 1e-6 or at least 1e-3 off",
]
BOUNDS = {
    "geometry": "every history of up to 3 (thorough 4) of 27 additions of points (negative zeros, integers, tuples, lists, nearly equal ones, equal hashes), curves and surfaces (equal, moved, other weights, knots), with and without a check",
    "topology": "every history of up to 4 (thorough 5) additions of vertices and edges over 3 point and 2 curve representations; of up to 3 (thorough 4) faces over 2 surfaces and 9 lists of loops, shells and solids over every list of up to 2 of 3 parts",
    "ends": "quadratic and cubic curves of one and several spans, rational ones, every pair of 5 parameters, vertices on and off the curve",
    "surfaces": "bilinear, biquadratic, multi-span and rational patches, closed and degenerate ones",
    "pairs": "every history of up to 4 assignments of a symmetric table over 3 keys and 2 values",
}


def curve(k=0):
    P = [[0, 0, 0], [1, 2, 0], [3, 1, 1], [4, 0, 0.]]
    if k == 2:
        P[1][2] = 1.0
    c = NURBSCurve(np.array(P, float), 2 if k == 3 else 3)
    if k == 4:
        c.weights = np.array([1, 2.0, 1, 1])
    return c


def surface(k=0):
    P = np.array([[[i, j, (i * j) % 2] for j in range(3)] for i in range(3)], float)
    if k == 2:
        P[1, 1, 2] = 4.0
    return NURBSSurface(P, (1, 2) if k == 3 else (2, 2))


# ---------------------------------------------------------------- geometry
POINTS = [
    ("zero", lambda: np.array([0.0, 0.0, 0.0]), (0, 0, 0)),
    ("negative zero", lambda: np.array([-0.0, 0.0, -0.0]), (0, 0, 0)),
    ("integer zero", lambda: np.array([0, 0, 0]), (0, 0, 0)),
    ("nearly zero", lambda: np.array([1e-10, -1e-10, 0.0]), (0, 0, 0)),
    ("minus one", lambda: (-1.0, 0.0, 0.0), (-1, 0, 0)),
    ("minus two", lambda: (-2.0, 0.0, 0.0), (-2, 0, 0)),
    ("minus two array", lambda: np.array([-2.0, 0.0, 0.0]), (-2, 0, 0)),
    ("close", lambda: np.array([0.0, 0.0, 2e-7]), (0, 0, 2e-7)),
    ("of the plane", lambda: np.array([0.0, 0.0]), (0, 0)),
    ("swapped", lambda: [0.0, -2.0, 0.0], (0, -2, 0)),
]
CURVES = [("curve", lambda: curve(0), 0), ("equal curve", lambda: curve(0), 0), ("copied curve", lambda: curve(0).copy(), 0), ("other curve", lambda: curve(2), 2), ("degree", lambda: curve(3), 3), ("weights", lambda: curve(4), 4)]
SURFACES = [("surface", lambda: surface(0), 0), ("equal surface", lambda: surface(0).copy(), 0), ("other surface", lambda: surface(2), 2), ("degrees", lambda: surface(3), 3)]


def geometry_ops():
    ops = []
    for method, items in (("add_point", POINTS), ("add_curve", CURVES), ("add_surface", SURFACES)):
        for n, (name, make, key) in enumerate(items):
            ops.append(("%s %s" % (method, name), method, make, key, True))
            if n < 2:
                ops.append(("%s %s unchecked" % (method, name), method, make, key, False))
    ops.append(("add point", "add", POINTS[5][1], POINTS[5][2], True))
    return ops


def t_geometry(ctx, first, depth):
    ops = geometry_ops()
    for n in range(depth):
        for tail in itertools.product(range(len(ops)), repeat=n):
            seq = [ops[first]] + [ops[i] for i in tail]
            ctx.trace()
            g = T.BRepGeometry()
            model = {"points": [], "curves": [], "surfaces": []}
            got = []
            names = [o[0] for o in seq]
            with ctx.at("geometry"):
                for name, method, make, key, check in seq:
                    ctx.step()
                    kind = {"add_curve": "curves", "add_surface": "surfaces"}.get(method, "points")
                    value = make()
                    r = getattr(g, method)(value, check=check) if not check else getattr(g, method)(value)
                    box = getattr(g, kind)
                    old = [i for i, (k, _, _) in enumerate(model[kind]) if k == key]
                    if check and old:
                        ctx.expect(r is model[kind][old[0]][2], "an equal one is given back", lambda: "%r: %r" % (names, r))
                    else:
                        ctx.expect(len(box) == len(model[kind]) + 1 and box[-1] is r and r.value is value and all(r is not x[2] for x in model[kind]), "a new one is kept", lambda: "%r: %r in %r" % (names, r, box))
                        model[kind].append((key, value, r))
                    got.append((kind, key, r))
                for kind, items in model.items():
                    box = getattr(g, kind)
                    ctx.expect(len(box) == len(items) and all(b is r and b.index == i and b.value is v for i, (b, (k, v, r)) in enumerate(zip(box, items))), "the lists", lambda: "%r: %s are %r" % (names, kind, box))
                for (k1, a, r1), (k2, b, r2) in itertools.combinations(got, 2):
                    same = (k1, a) == (k2, b)
                    ctx.expect((r1 == r2) is same and (r1 != r2) is not same and (not same or hash(r1) == hash(r2)), "equality", lambda: "%r: %r and %r" % (names, r1, r2))
            ctx.state(tuple((k, tuple(x[0] for x in v)) for k, v in model.items()))


# ---------------------------------------------------------------- vertices and edges
def fixture():
    g = T.BRepGeometry()
    pts = [g.add_point(np.array([0.0, 0.0, 0.0])), g.add_point(np.array([4.0, 0.0, 0.0])), g.add_point(np.array([-0.0, 0.0, 0.0]), check=False)]
    crv = [g.add_curve(curve(0)), g.add_curve(curve(2))]
    return g, pts, crv, [0, 1, 0]  # which points are equal


def t_topology(ctx, first, depth):
    vops = [("v", p, check) for p in range(3) for check in (True, False)]

    def edge_ops(nv):
        # the check matters for pairs of the vertices there are
        return [("e", c, i, j, check) for c in (0, 1) for i in range(min(nv, 3)) for j in range(min(nv, 3)) for check in (True, False)]

    def run(seq):
        g, pts, crv, same = fixture()
        b = T.BRep(geometry=g)
        verts, edges = [], []  # model: the point class; (curve, start vertex, end vertex)
        objs, eobjs = [], []
        for op in seq:
            ctx.step()
            if op[0] == "v":
                _, p, check = op
                v = b.add_vertex(pts[p], check=check) if not check else b.add_vertex(pts[p])
                old = [i for i, q in enumerate(verts) if same[q] == same[p]]
                if check and old:
                    ctx.expect(v is objs[old[0]], "the vertex there is given back", lambda: "%r" % (seq,))
                else:
                    ctx.expect(all(v is not o for o in objs) and v.represented_by is pts[p], "a new vertex", lambda: "%r" % (seq,))
                    verts.append(p)
                    objs.append(v)
            else:
                _, c, i, j, check = op
                e = b.add_edge(crv[c], objs[i], objs[j], check=check) if not check else b.add_edge(crv[c], objs[i], objs[j])
                ends = sorted((same[verts[i]], same[verts[j]]))
                old = [k for k, (c2, s, t) in enumerate(edges) if c2 == c and sorted((same[verts[s]], same[verts[t]])) == ends]
                if check and old:
                    ctx.expect(e is eobjs[old[0]], "the edge there is given back", lambda: "%r" % (seq,))
                else:
                    ctx.expect(all(e is not o for o in eobjs) and e.represented_by is crv[c] and len(e.bounded_by) == 2 and e.bounded_by[0] is objs[i] and e.bounded_by[1] is objs[j], "a new edge", lambda: "%r: %r" % (seq, e))
                    edges.append((c, i, j))
                    eobjs.append(e)
        ctx.expect(len(b.vertices) == len(objs) and all(x is y for x, y in zip(b.vertices, objs)), "vertices", lambda: "%r" % (seq,))
        ctx.expect(len(b.edges) == len(eobjs) and all(x is y for x, y in zip(b.edges, eobjs)) and all(e.represented_by is crv[c] and e.bounded_by[0] is objs[i] and e.bounded_by[1] is objs[j] for e, (c, i, j) in zip(b.edges, edges)), "edges", lambda: "%r" % (seq,))
        ctx.expect(not (b.loops or b.faces or b.shells or b.solids) and len(g.points) == 3 and len(g.curves) == 2, "nothing else", lambda: "%r" % (seq,))
        ctx.state((tuple(verts), tuple(edges)))
        return len(verts)

    def grow(seq):
        ctx.trace()
        with ctx.at("topology"):
            nv = run(seq)
            if len(seq) < depth:
                # the last step is an addition with a check
                last = len(seq) == depth - 1
                for op in vops + edge_ops(nv):
                    if not last or op[-1]:
                        grow(seq + [op])
    grow([vops[first[0]]] + ([vops[first[1]]] if first[1] is not None else [])) if first[1] is not None else run([vops[first[0]]])


# ---------------------------------------------------------------- faces, shells and solids
def t_faces(ctx, first, depth):
    lists = [[0], [1], [0, 1], [0, 2], [0, 1, 2], [0, 2, 1], [1, 0], [2, 0], [2]]
    ops = [(s, k, check) for s in (0, 1) for k in range(len(lists)) for check in (True, False)]
    for n in range(depth):
        for tail in itertools.product(range(len(ops)), repeat=n):
            if n == depth - 1 and not ops[tail[-1]][2]:
                continue
            seq = [ops[first]] + [ops[i] for i in tail]
            ctx.trace()
            with ctx.at("faces"):
                g = T.BRepGeometry()
                b = T.BRep(geometry=g)
                surf = [g.add_surface(surface(0)), g.add_surface(surface(2))]
                p, q = b.add_vertex(g.add_point(np.zeros(3))), b.add_vertex(g.add_point(np.array([4.0, 0, 0])))
                e = [b.add_edge(g.add_curve(curve(k)), p, q) for k in (0, 2, 3)]
                loops = [b.add_loop([e[0], e[1]]), b.add_loop([e[0], e[1]]), b.add_loop([e[2]])]
                ctx.expect(all(x is y for x, y in zip(b.loops, loops)) and len(b.loops) == 3 and len({id(l) for l in loops}) == 3 and all(x is y for x, y in zip(loops[0].edges, e)), "loops", "")
                model, objs = [], []
                for s, k, check in seq:
                    ctx.step()
                    ls = [loops[i] for i in lists[k]]
                    f = b.add_face(surf[s], ls, check=check) if not check else b.add_face(surf[s], ls)
                    key = (s, lists[k][0], tuple(sorted(lists[k][1:])))
                    old = [i for i, m in enumerate(model) if m == key]
                    if check and old:
                        ctx.expect(f is objs[old[0]], "the face there is given back", lambda: "%r" % (seq,))
                    else:
                        ctx.expect(all(f is not o for o in objs) and f.represented_by is surf[s] and len(f.bounded_by) == len(ls) and all(x is y for x, y in zip(f.bounded_by, ls)), "a new face", lambda: "%r" % (seq,))
                        model.append(key)
                        objs.append(f)
                ctx.expect(len(b.faces) == len(objs) and all(x is y for x, y in zip(b.faces, objs)), "the list of faces", lambda: "%r" % (seq,))
                ctx.expect(not (b.shells or b.solids) and len(b.loops) == 3 and len(b.edges) == 3, "nothing else than faces", lambda: "%r" % (seq,))
                ctx.state(tuple(model))


def t_shells(ctx, depth):
    lists = [[0], [1], [0, 1], [1, 0], [2], [0, 2], [0, 1, 2]]
    ops = [(what, k, check) for what in ("shell", "solid") for k in range(len(lists)) for check in (True, False)]
    for n in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=n):
            ctx.trace()
            with ctx.at("shells"):
                g = T.BRepGeometry()
                b = T.BRep(geometry=g)
                s = g.add_surface(surface(0))
                faces = [b.add_face_unsafe(s, [b.add_loop([])]) for _ in range(3)]
                # three shells to make solids of, of one face each (the third of all)
                base = [b.add_shell([faces[0]], check=False), b.add_shell([faces[1]], check=False), b.add_shell(list(faces), check=False)]
                parts = {"shell": faces, "solid": base}
                model = {"shell": [((0,), base[0]), ((1,), base[1]), ((0, 1, 2), base[2])], "solid": []}
                for what, k, check in seq:
                    ctx.step()
                    add = b.add_shell if what == "shell" else b.add_solid
                    ls = [parts[what][i] for i in lists[k]]
                    r = add(ls) if check else add(ls, check=False)
                    key = tuple(sorted(lists[k]))
                    old = [o for m, o in model[what] if m == key]
                    if check and old:
                        ctx.expect(r is old[0], "the %s there is given back" % what, lambda: "%r" % (seq,))
                    else:
                        held = r.faces if what == "shell" else r.bounded_by
                        ctx.expect(all(r is not o for _, o in model[what]) and len(held) == len(ls) and all(x is y for x, y in zip(held, ls)), "a new %s" % what, lambda: "%r" % (seq,))
                        model[what].append((key, r))
                ctx.expect(len(b.shells) == len(model["shell"]) and all(x is y[1] for x, y in zip(b.shells, model["shell"])) and len(b.solids) == len(model["solid"]) and all(x is y[1] for x, y in zip(b.solids, model["solid"])) and len(b.faces) == 3, "the lists of shells and solids", lambda: "%r" % (seq,))
                ctx.state(tuple(tuple(m for m, _ in v) for v in model.values()))


# ---------------------------------------------------------------- the ends of edges
def end_curves():
    yield "line", NURBSCurve(np.array([[0, 0, 0], [3, 1, 2.]]), 1)
    for name, z in (("plane", 0.0), ("space", 1.5)):
        P = np.array([[0, 0, 0], [1, 2, z], [3, 1, 0], [4, 0, z], [5, 3, 0.]])
        yield "quadratic " + name, NURBSCurve(P[:3].copy(), 2)
        yield "cubic " + name, NURBSCurve(P[:4].copy(), 3)
        yield "spans " + name, NURBSCurve(P.copy(), 3)
        yield "knots " + name, NURBSCurve(P.copy(), 2, np.array([-1.0, -1, -1, 0.5, 2.5, 3, 3, 3]))
        c = NURBSCurve(P.copy(), 2)
        c.weights = np.array([1, 3.0, 0.5, 2, 1])
        yield "rational " + name, c
    yield "polyline", NURBSCurve(np.array([[0, 0, 0], [0, 2, 0], [2, 2, 0], [2, 0, 1.]]), 1)


def t_ends(ctx):
    for name, c in end_curves():
        a, b = c.interval()
        ts = [a + (b - a) * k for k in (0.0, 0.17, 0.5, 0.81, 1.0)]
        at = [np.array(c.evaluate(t)) for t in ts]
        g = T.BRepGeometry()
        B = T.BRep(geometry=g)
        r = g.add_curve(c)
        edges = []
        for i, j in itertools.permutations(range(5), 2):
            ctx.state((name, i, j))
            ctx.trace()
            where = lambda: "%s from %r to %r" % (name, ts[i], ts[j])  # noqa: E731
            with ctx.at("ends"):
                e = B.add_edge(r, B.add_vertex(g.add_point(at[i])), B.add_vertex(g.add_point(at[j])), check=False)
                for got in (e.get_ends_parameters(), e.get_ends_parameters(check=True), T.get_edge_ends_parameters(e)):
                    ctx.step()
                    ctx.expect(len(got) == 2 and all(a <= t <= b for t in got) and all(math.dist(c.evaluate(t), at[k]) <= 2e-6 for t, k in zip(got, (i, j))), "parameters of the ends", lambda: "%s: %r" % (where(), got))
                X = np.array(e.tessellate())
                t0, t1 = e.get_ends_parameters()
                want = np.array([np.array(c.evaluate(t)) for t in np.linspace(t0, t1, 100)])
                ctx.expect(X.shape == (100, 3) and np.allclose(X[0], at[i], atol=2e-6) and np.allclose(X[-1], at[j], atol=2e-6) and np.allclose(X, want, atol=1e-9), "tessellation", where)
                edges.append((e, X))
                # vertices off the curve
                off = np.array([0.01, -0.02, 0.5])
                for bad in ((1, 0), (0, 1), (1, 1)):
                    pts = [p + o * off for p, o in zip((at[i], at[j]), bad)]
                    far = [min(np.linalg.norm(np.array(c.evaluate(t)) - p) for t in np.linspace(a, b, 200)) for p in pts]
                    if any(o and d < 0.05 for o, d in zip(bad, far)):
                        ctx.count("beside the curve by chance")
                        continue
                    e = T.Edge(r, [T.Vertex(g.add_point(p)) for p in pts])
                    text = ""
                    try:
                        e.get_ends_parameters(check=True)
                    except ValueError as err:
                        text = str(err)
                    ctx.step()
                    said = ("starting" in text, "ending" in text)
                    ctx.expect(said == tuple(map(bool, bad)), "vertices off the curve", lambda: "%s moved %r: %r" % (where(), bad, text))
                    got = e.get_ends_parameters()
                    ctx.expect(all(a <= t <= b for t in got) and all(o or math.dist(c.evaluate(t), p) <= 2e-6 for t, p, o in zip(got, pts, bad)), "parameters beside the curve", lambda: "%s moved %r: %r" % (where(), bad, got))
        with ctx.at("loop"):
            for k in range(0, len(edges) - 2, 3):
                some = edges[k:k + 1 + k % 3]
                L = B.add_loop([e for e, _ in some])
                ctx.expect(np.allclose(L.tessellate(), np.concatenate([X for _, X in some]), atol=1e-9), "loop tessellation", lambda: "%s %d" % (name, k))


# ---------------------------------------------------------------- surfaces
def patches():
    def make(n, m, du, dv, f, ku=None, kv=None):
        P = np.array([[f(i / (n - 1), j / (m - 1)) for j in range(m)] for i in range(n)], float)
        return NURBSSurface(np.ascontiguousarray(P), (du, dv), *([] if ku is None else [np.array(ku, float), np.array(kv, float)]))
    yield "square", make(2, 2, 1, 1, lambda u, v: (u, v, 0)), 4
    yield "away", make(2, 2, 1, 1, lambda u, v: (100 + 3 * u, -50 + v, u * v)), 4
    yield "biquadratic", make(3, 3, 2, 2, lambda u, v: (2 * u, v, u * v - v * v)), 4
    yield "spans", make(5, 4, 2, 3, lambda u, v: (u, 3 * v, math.sin(3 * u) + v)), 4
    yield "ranges", make(3, 2, 2, 1, lambda u, v: (u, v, u * u), [-2, -2, -2, 5, 5, 5], [1, 1, 1.5, 1.5]), 4
    yield "triangle", make(2, 3, 1, 2, lambda u, v: (u, u * v, u * v * v)), 3
    yield "tube", make(5, 2, 2, 1, lambda u, v: (round(math.cos(2 * math.pi * u), 12), round(math.sin(2 * math.pi * u), 12), v)), 2
    yield "negative zeros", make(2, 2, 1, 1, lambda u, v: (-u, -v, -0.0)), 4
    yield "minus one and two", make(2, 2, 1, 1, lambda u, v: (-1 - u, 0, -1 - v)), 4


def t_surfaces(ctx):
    for name, s, corners in patches():
        ctx.state(name)
        ctx.trace()
        with ctx.at("surface"):
            shell, g = T.nurbs_surf_to_brep(s)
            ctx.step(4)
            (u0, u1), (v0, v1) = s.interval()
            ctx.expect(len(shell.faces) == 1 and len(shell.faces[0].bounded_by) == 1 and len(shell.faces[0].bounded_by[0].edges) == 4, "one face, one loop, four edges", name)
            face = shell.faces[0]
            ctx.expect(face.represented_by.value is s and len(g.surfaces) == 1 and g.surfaces[0] is face.represented_by, "the surface", name)
            edges = face.bounded_by[0].edges
            ctx.expect(len(g.curves) == 4 and all(any(r is e.represented_by for r in g.curves) for e in edges) and len({id(e.represented_by) for e in edges}) == 4, "the curves", name)
            ctx.expect(len(g.points) == corners, "corners once", lambda: "%s: %r" % (name, g.points))
            used = []
            sides = {}
            for e in edges:
                c = e.represented_by.value
                ends = [np.array(v.represented_by.value, float) for v in e.bounded_by]
                a, b = c.interval()
                ctx.expect(len(e.bounded_by) == 2 and np.allclose(ends[0], c.evaluate(a), atol=1e-8) and np.allclose(ends[1], c.evaluate(b), atol=1e-8), "ends of the edges", lambda: "%s: %r" % (name, ends))
                ctx.expect(all(any(v.represented_by is p for p in g.points) for v in e.bounded_by), "shared points", name)
                used += [id(v.represented_by) for v in e.bounded_by]
                # which side of the surface is it?
                X = np.array([np.array(c.evaluate(a + (b - a) * k / 8)) for k in range(9)])
                for side, f in (("u0", lambda w: (u0, v0 + w * (v1 - v0))), ("u1", lambda w: (u1, v0 + w * (v1 - v0))), ("v0", lambda w: (u0 + w * (u1 - u0), v0)), ("v1", lambda w: (u0 + w * (u1 - u0), v1))):
                    Y = np.array([np.array(s.evaluate(np.array(f(k / 8)))) for k in range(9)])
                    if np.allclose(X, Y, atol=1e-8) or np.allclose(X, Y[::-1], atol=1e-8):
                        sides.setdefault(side, []).append(id(e))
                if np.linalg.norm(ends[0] - ends[1]) > 1e-6:
                    with ctx.at("surface edge"):
                        t0, t1 = e.get_ends_parameters(check=True)
                        Z = np.array(e.tessellate())
                        ctx.expect(Z.shape == (100, 3) and np.allclose(Z[0], ends[0], atol=2e-6) and np.allclose(Z[-1], ends[1], atol=2e-6), "edge of the surface", lambda: "%s: %r" % (name, (t0, t1)))
            ctx.expect(set(used) == {id(p) for p in g.points}, "every point is used", name)
            ctx.expect(all(p.index == i for box in (g.points, g.curves, g.surfaces) for i, p in enumerate(box)), "indices", name)
            ctx.expect(sorted(sides) == ["u0", "u1", "v0", "v1"] and len({i for v in sides.values() for i in v}) == 4, "the four sides", lambda: "%s: %r" % (name, sides))


# ---------------------------------------------------------------- the symmetric table
def t_table(ctx):
    keys = [0, 1, 2]
    ops = [(a, b, v) for a in keys for b in keys for v in ("x", "y")]
    for n in range(5):
        for seq in itertools.product(ops, repeat=n):
            ctx.trace()
            with ctx.at("table"):
                d, m = T.Sparce(), {}
                for a, b, v in seq:
                    d[a, b] = v
                    m[a, b] = m[b, a] = v
                ctx.step(n)
                seen = {k for p in m for k in p}
                ctx.expect(all(d[p] == v for p, v in m.items()) and len(d) == len(m), "table entries", lambda: "%r: %r" % (seq, dict(d)))
                for k in seen:
                    ctx.expect(d[k] == {j: m.get((k, j)) for j in seen}, "table rows", lambda: "%r: row %r is %r" % (seq, k, d[k]))
                ctx.state(tuple(sorted(m.items())))


def tasks(tier):
    deep = tier == "thorough"
    out = [("geometry %s" % o[0], t_geometry, (i, 4 if deep else 3)) for i, o in enumerate(geometry_ops())]
    out += [("topology %d %s" % (i, j), t_topology, ((i, j), 5 if deep else 4)) for i in range(6) for j in [None] + list(range(6))]
    out += [("faces %d" % i, t_faces, (i, 4 if deep else 3)) for i in range(36)]
    out += [("shells", t_shells, (3 if deep else 2,)), ("ends", t_ends, ()), ("surfaces", t_surfaces, ()), ("table", t_table, ())]
    return out
