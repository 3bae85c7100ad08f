"""C07: what is written - serialised bytes, pickles, STEP files - describes exactly the geometry it was written from."""
import copy
import io
import itertools
import pickle
import re
import struct
from fractions import Fraction as F

import numpy as np

import ref
import shapes
from c08 import grid, hom, wgrid
from mmcore.compat.step.step_writer import StepWriter
from mmcore.geom.nurbs import NURBSCurve, NURBSSurface

PID = "C07"
ASSUMPTIONS = [
    "byte format of serialize(): magic, version, degree, periodic, counts (uint32 each, little endian), control points (x, y, z, weight), knots (doubles); files written by the pinned version stay readable",
    "STEP: knots that differ by less than 1e-8 are written as one (documented in the writer); closed / self-intersect flags are informative and not judged",
]
BOUNDS = {
    "curves": "degrees 1..4, all clamped knot vectors with up to 2 interior knots (multiplicities included), unclamped and periodic ones, 4 weight patterns, scales 1e-7 and 1e12, and the states after every sequence of two changes (knots, degree-keeping set, insert, normalise, make_periodic, make_open, weights)",
    "bytes": "round trip as bytes / bytearray, pickle protocols 0..5, copy, deepcopy; every truncation length; every other value of every header byte; wrong types",
    "STEP": "every curve and surface of the grid (degrees (1..3) x (1..3), weights, shifted and unclamped domains), 6 names, and every ordered pair of two objects written to one file; the text is parsed by an independent Part 21 parser",
}


# ---------------------------------------------------------------- curves

# the same knots on other scales: (factor, offset)
KNOT_MAPS = ((F(1), F(2) ** 31), (F(10) ** 9, F(0)), (F(1, 2**16), F(-3)))


def curve_cases(tier):
    """(label, degree, U, P, W)"""
    for p in range(1, 4 if tier == "quick" else 5):
        Us = list(shapes.open_knots(p, tier, 2)) + [u for n in (p + 1, p + 3) for u in shapes.unclamped_knots(p, n)]
        for i, U in enumerate(Us):
            n = len(U) - p - 1
            for wk in shapes.WEIGHTS:
                for e in (F(1), F(1, 10**7), F(10**12)):
                    if e != 1 and wk != sorted(shapes.WEIGHTS)[i % len(shapes.WEIGHTS)]:
                        continue
                    P = [tuple(x * e for x in q) for q in shapes.points(n, i % 2)]
                    yield f"degree {p} U={[str(u) for u in U]} weights {wk} scale {float(e)}", p, U, P, shapes.weights(wk, n)
            for e, o in KNOT_MAPS:
                P = shapes.points(n, i % 2)
                V = [u * e + o for u in U]
                yield f"degree {p} U={[str(u) for u in V]} weights a", p, V, P, shapes.weights(sorted(shapes.WEIGHTS)[i % len(shapes.WEIGHTS)], n)


def same(a, b):
    return (
        a.degree == b.degree
        and bool(a.periodic) == bool(b.periodic)
        and np.array_equal(np.array(a.knots), np.array(b.knots))
        and np.array_equal(np.array(a.control_pointsw), np.array(b.control_pointsw))
        and np.array_equal(np.array(a.interval()), np.array(b.interval()))
    )


def layout(c):
    W = np.array(c.control_pointsw)
    return struct.pack("<4sIIIII", MAGIC, VERSION, c.degree, int(c.periodic), len(W), len(c.knots)) + W.astype("<f8").tobytes() + np.array(c.knots).astype("<f8").tobytes()


MAGIC, VERSION = b"NRBC", 1


def ways(c):
    b = c.serialize()
    yield "bytes", lambda: NURBSCurve.deserialize(b)
    yield "bytes of the pinned version", lambda: NURBSCurve.deserialize(layout(c))
    yield "bytearray", lambda: NURBSCurve.deserialize(bytearray(b))
    for k in range(pickle.HIGHEST_PROTOCOL + 1):
        yield f"pickle protocol {k}", lambda k=k: pickle.loads(pickle.dumps(c, k))
    yield "copy", lambda: copy.copy(c)
    yield "deepcopy", lambda: copy.deepcopy(c)
    yield "copy()", lambda: c.copy()
    yield "from a list", lambda: pickle.loads(pickle.dumps([c, c]))[1]


def roundtrips(ctx, c, sig, ts):
    want = [np.array(c.evaluate(t)) for t in ts]
    for name, f in ways(c):
        with ctx.at(f"{sig}: {name}"):
            x = f()
            ctx.step()
            if not ctx.expect(same(c, x), f"{sig}: {name}: data", lambda: f"{x.degree} {x.periodic} {list(x.knots)} {np.array(x.control_pointsw).tolist()}"):
                continue
            ctx.expect(all(np.array_equal(np.array(x.evaluate(t)), w) for t, w in zip(ts, want)), f"{sig}: {name}: points", lambda: f"{[x.evaluate(t).tolist() for t in ts]} expected {[w.tolist() for w in want]}")
            ctx.expect(x == c and hash(x) == hash(c), f"{sig}: {name}: equal", "")
            ctx.expect(x.serialize() == c.serialize(), f"{sig}: {name}: serialised again", "")


def curves(ctx, tier, p, part, parts):
    for i, (label, deg, U, P, W) in enumerate(curve_cases(tier)):
        if deg != p or i % parts != part:
            continue
        c = shapes.curve(p, U, P, W)
        ctx.state(label)
        ts = [float(t) for t in ref.query_params(U, p, 2)]
        with ctx.at(label):
            roundtrips(ctx, c, label, ts)
        ctx.sample(label)


def changes(c):
    a, b = c.interval()
    t = a + (b - a) * 3 / 8
    if sum(abs(x - t) < 1e-9 for x in c.knots) >= c.degree:  # one more is not a valid insertion
        t = a + (b - a) * 11 / 16
    return {
        "knots": lambda: setattr(c, "knots", np.array(c.knots) * 2 - 1),
        "weights": lambda: setattr(c, "weights", np.array(c.weights) * np.linspace(1, 2, len(c.weights))),
        "points": lambda: setattr(c, "control_points", np.array(c.control_points)[:, ::-1].copy()),
        "insert": lambda: c.insert_knot(t, 1),
        "normalize": lambda: c.normalize_knots(),
        "periodic": lambda: c.make_periodic(),
        "open": lambda: c.make_open(),
        "none": lambda: None,
    }


def histories(ctx, p):
    U = (F(0),) * (p + 1) + (F(1), F(2)) + (F(3),) * (p + 1)
    n = len(U) - p - 1
    for wk in ("one", "mix"):
        for seq in itertools.product(sorted(changes(shapes.curve(p, U, shapes.points(n), shapes.weights(wk, n)))), repeat=2):
            sig = f"degree {p} weights {wk} after {', '.join(seq)}"
            if seq.count("periodic") == 2 or (seq[0] == "periodic") != (seq[1] == "open") and "open" in seq:
                continue
            with ctx.at(sig):
                c = shapes.curve(p, U, shapes.points(n), shapes.weights(wk, n))
                for name in seq:
                    changes(c)[name]()
                    ctx.step()
                ctx.state(sig)
                a, b = c.interval()
                roundtrips(ctx, c, sig, [a, a + (b - a) / 3, a + (b - a) * 0.7, b])
                ctx.trace()
    ctx.sample(sig)


def damaged(ctx, p, wk, periodic):
    U = (F(0),) * (p + 1) + (F(1),) + (F(2),) * (p + 1)
    n = len(U) - p - 1
    c = shapes.curve(p, U, shapes.points(n), shapes.weights(wk, n))
    if periodic:
        c.make_periodic()
    b = c.serialize()
    tag = f"degree {p} weights {wk} periodic {periodic}"

    def refused(data, sig, kinds=(ValueError,)):
        ctx.step()
        ctx.state(sig)
        with ctx.at(f"{tag}: {sig}"):
            try:
                x = NURBSCurve.deserialize(data)
            except kinds:
                return
            ctx.fail(f"{tag}: {sig}", f"was accepted as a curve of degree {x.degree} with {len(x.control_points)} points")

    for k in range(len(b)):
        refused(b[:k], f"truncated to {k} bytes")
    for i in range(24):
        for v in range(256):
            if v == b[i]:
                continue
            data = b[:i] + bytes([v]) + b[i + 1 :]
            if 12 <= i < 16:  # the periodic flag: any value reads back, with the same data
                with ctx.at(f"{tag}: flag byte {i} = {v}"):
                    x = NURBSCurve.deserialize(data)
                    ctx.expect(np.array_equal(np.array(x.knots), np.array(c.knots)) and np.array_equal(np.array(x.control_pointsw), np.array(c.control_pointsw)), f"{tag}: flag byte {i} = {v}", "")
                continue
            refused(data, f"header byte {i} = {v}")
    # pairs of consistent-looking counts: the totals fit the data, the curve does not
    for n, k in itertools.product(range(0, 12), range(0, 20)):
        if (n, k) != (len(c.control_points), len(c.knots)) and 4 * n + k <= 4 * len(c.control_points) + len(c.knots) and k != n + p + 1:
            refused(b[:16] + struct.pack("<II", n, k) + b[24:], f"counts {n}, {k}")
    for bad in (None, "text", 5, list(b), memoryview(b), np.frombuffer(b, np.uint8)):
        refused(bad, f"type {type(bad).__name__}", (TypeError,))
    with ctx.at(f"{tag}: followed by other data"):
        ctx.expect(same(NURBSCurve.deserialize(b + b), c), f"{tag}: followed by other data", "")
    ctx.trace()
    ctx.sample(tag)


# ---------------------------------------------------------------- STEP

TOKEN = re.compile(
    r"\s*(?:(?P<str>'(?:[^'\\]|''|\\\\|\\X2\\(?:[0-9A-F]{4})+\\X0\\|\\X4\\(?:[0-9A-F]{8})+\\X0\\|\\S\\.|\\X\\[0-9A-F]{2})*')|(?P<ref>\#\d+)|(?P<real>[+-]?\d+\.\d*(?:E[+-]?\d+)?)|(?P<int>[+-]?\d+)"
    r"|(?P<enum>\.[A-Z0-9_]+\.)|(?P<key>!?[A-Z_][A-Z0-9_\-]*)|(?P<sym>[()=,;$*]))"
)


def tokens(text):
    pos, out = 0, []
    text = text.rstrip()
    while pos < len(text):
        m = TOKEN.match(text, pos)
        assert m, f"not Part 21 at {text[pos:pos + 40]!r}"
        out.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    return out


def text_of(s):
    s = s[1:-1].replace("''", "'")
    s = re.sub(r"\\X2\\((?:[0-9A-F]{4})+)\\X0\\", lambda m: bytes.fromhex(m.group(1)).decode("utf-16-be"), s)
    s = re.sub(r"\\X4\\((?:[0-9A-F]{8})+)\\X0\\", lambda m: bytes.fromhex(m.group(1)).decode("utf-32-be"), s)
    return s.replace("\\\\", "\\")


class Ref(int):
    pass


class Enum(str):
    pass


def parse(text):
    """{id: [(keyword, parameters)]} of the DATA section."""
    t = tokens(text)
    i = 0

    def take(kind, val=None):
        nonlocal i
        k, v = t[i]
        assert k == kind and (val is None or v == val), f"expected {val or kind}, got {v!r} (token {i})"
        i += 1
        return v

    def value():
        nonlocal i
        k, v = t[i]
        i += 1
        if k == "str":
            return text_of(v)
        if k == "ref":
            return Ref(v[1:])
        if k == "real":
            return float(v)
        if k == "int":
            return int(v)
        if k == "enum":
            return Enum(v[1:-1])
        if v in "$*":
            return None
        if k == "key":
            return (v, params())
        assert v == "(", v
        i -= 1
        return params()

    def params():
        nonlocal i
        take("sym", "(")
        out = []
        while t[i][1] != ")" or t[i][0] != "sym":
            out.append(value())
            if t[i] == ("sym", ","):
                i += 1
                assert t[i] != ("sym", ")"), "trailing comma"
        take("sym", ")")
        return tuple(out)

    def record():
        return take("key"), params()

    take("key", "ISO-10303-21"), take("sym", ";"), take("key", "HEADER"), take("sym", ";")
    head = []
    while t[i][1] != "ENDSEC":
        head.append(record()[0])
        take("sym", ";")
    assert head == ["FILE_DESCRIPTION", "FILE_NAME", "FILE_SCHEMA"], head
    take("key"), take("sym", ";"), take("key", "DATA"), take("sym", ";")
    data = {}
    while t[i][1] != "ENDSEC":
        r = Ref(take("ref")[1:])
        assert r not in data, f"#{r} twice"
        take("sym", "=")
        if t[i] == ("sym", "("):
            i += 1
            data[r] = []
            while t[i] != ("sym", ")"):
                data[r].append(record())
            i += 1
        else:
            data[r] = [record()]
        take("sym", ";")
    take("key"), take("sym", ";"), take("key", "END-ISO-10303-21"), take("sym", ";")
    assert i == len(t), "text after the end"
    for r, recs in data.items():
        for _, ps in recs:
            for x in flat(ps):
                assert not isinstance(x, Ref) or x in data, f"#{r} refers to missing #{int(x)}"
    return data


def flat(x):
    if isinstance(x, tuple):
        for y in x:
            yield from flat(y)
    else:
        yield x


def entity(data, r, key):
    """Parameters of an instance by keyword: simple, or one record of a complex one."""
    for k, ps in data[r]:
        if k == key:
            return ps
    raise AssertionError(f"#{int(r)} is {[k for k, _ in data[r]]}, not {key}")


def has(data, r, key):
    return any(k == key for k, _ in data[r])


def point(data, r):
    n, c = entity(data, r, "CARTESIAN_POINT")
    assert all(isinstance(x, float) for x in c) and len(c) == 3, c
    return c


def knot_list(ks, ms):
    assert len(ks) == len(ms) and all(isinstance(m, int) and m > 0 for m in ms) and all(a < b for a, b in zip(ks, ks[1:])), (ks, ms)
    assert all(isinstance(k, float) for k in ks), ks
    return [k for k, m in zip(ks, ms) for _ in range(m)]


def read_curve(data, r):
    """(name, degree, knots, points, weights) of a B-spline curve instance."""
    rec = data[r]
    if len(rec) == 1:
        name, p, pts, form, closed, selfi, ms, ks, spec = entity(data, r, "B_SPLINE_CURVE_WITH_KNOTS")
        w = [1.0] * len(pts)
    else:
        assert [k for k, _ in rec] == sorted(k for k, _ in rec), "complex entity not in alphabetical order"
        assert {k for k, _ in rec} == {"BOUNDED_CURVE", "B_SPLINE_CURVE", "B_SPLINE_CURVE_WITH_KNOTS", "CURVE", "GEOMETRIC_REPRESENTATION_ITEM", "RATIONAL_B_SPLINE_CURVE", "REPRESENTATION_ITEM"}, rec
        p, pts, form, closed, selfi = entity(data, r, "B_SPLINE_CURVE")
        ms, ks, spec = entity(data, r, "B_SPLINE_CURVE_WITH_KNOTS")
        (w,) = entity(data, r, "RATIONAL_B_SPLINE_CURVE")
        (name,) = entity(data, r, "REPRESENTATION_ITEM")
    return name, p, knot_list(ks, ms), [point(data, x) for x in pts], list(w)


def read_surface(data, r):
    rec = data[r]
    if len(rec) == 1:
        name, p, q, pts, form, uc, vc, si, mu, mv, ku, kv, spec = entity(data, r, "B_SPLINE_SURFACE_WITH_KNOTS")
        w = [[1.0] * len(row) for row in pts]
    else:
        assert {k for k, _ in rec} == {"BOUNDED_SURFACE", "B_SPLINE_SURFACE", "B_SPLINE_SURFACE_WITH_KNOTS", "GEOMETRIC_REPRESENTATION_ITEM", "RATIONAL_B_SPLINE_SURFACE", "REPRESENTATION_ITEM", "SURFACE"}, rec
        p, q, pts, form, uc, vc, si = entity(data, r, "B_SPLINE_SURFACE")
        mu, mv, ku, kv, spec = entity(data, r, "B_SPLINE_SURFACE_WITH_KNOTS")
        (w,) = entity(data, r, "RATIONAL_B_SPLINE_SURFACE")
        (name,) = entity(data, r, "REPRESENTATION_ITEM")
    return name, (p, q), (knot_list(ku, mu), knot_list(kv, mv)), [[point(data, x) for x in row] for row in pts], [list(r) for r in w]


def rel(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-12, atol=1e-12 * (1 + np.abs(b).max(initial=0))))


def proportional(a, b):
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    return a.shape == b.shape and bool(np.allclose(a / a[0], b / b[0], rtol=1e-12, atol=0))


def vertex(data, r):
    return point(data, entity(data, r, "VERTEX_POINT")[1])


def oriented(data, r):
    """(start, end, curve) of an oriented edge."""
    name, a, b, edge, sense = entity(data, r, "ORIENTED_EDGE")
    n2, v0, v1, geom, same_sense = entity(data, edge, "EDGE_CURVE")
    s, e = vertex(data, v0), vertex(data, v1)
    if sense == "F":
        s, e = e, s
    assert sense in ("T", "F") and same_sense in ("T", "F")
    return s, e, geom, (sense == "T") == (same_sense == "T")


def check_curve_edge(ctx, data, r, deg, U, P, W, sig):
    """An oriented edge that is the curve, from its start to its end."""
    s, e, g, forward = oriented(data, r)
    name, p, K, pts, w = read_curve(data, g)
    ctx.step()
    good = ctx.expect(p == deg and rel(K, [float(x) for x in U]) and rel(pts, [[float(x) for x in q] for q in P]) and proportional(w, [float(x) for x in W]),
                      f"{sig}: curve data", lambda: f"read degree {p} knots {K} points {pts} weights {w}")
    ends = [[float(x) for x in ref.curve_point(U, deg, P, W, t)] for t in (U[deg], U[-1 - deg])]
    scale = max(1.0, max(abs(float(x)) for q in P for x in q))
    good &= ctx.expect(forward and np.allclose(s, ends[0], atol=1e-9 * scale) and np.allclose(e, ends[1], atol=1e-9 * scale), f"{sig}: vertices", lambda: f"{s} {e} expected {ends}")
    return good


def check_surface(ctx, data, shell, deg, U, V, Hg, name, sig):
    nm, shells = entity(data, shell, "SHELL_BASED_SURFACE_MODEL")
    ctx.expect(nm == name and len(shells) == 1, f"{sig}: name of the model", f"{nm!r}")
    faces = entity(data, shells[0], "OPEN_SHELL")[1]
    fname, bounds, geom, sense = entity(data, faces[0], "ADVANCED_FACE")
    sname, degree, (ku, kv), pts, w = read_surface(data, geom)
    ctx.step()
    P = [[[float(x / h[3]) for x in h[:3]] for h in r] for r in Hg]
    W = [[float(h[3]) for h in r] for r in Hg]
    ctx.expect(len(faces) == 1 and fname == name and sname == name, f"{sig}: names", f"{fname!r} {sname!r}")
    if not ctx.expect(tuple(degree) == deg and rel(ku, [float(x) for x in U]) and rel(kv, [float(x) for x in V]) and rel(pts, P) and proportional(w, W), f"{sig}: surface data", lambda: f"read {degree} {ku} {kv} {pts} {w}"):
        return
    # the boundary: one closed loop of the four edges, counterclockwise for a face of the same sense
    assert len(bounds) == 1
    bn, loop, bsense = entity(data, bounds[0], "FACE_BOUND")
    edges = [oriented(data, r) for r in entity(data, loop, "EDGE_LOOP")[1]]
    corner = lambda u, v: [float(x / h[3]) for h in [ref.surface_hom(U, V, *deg, Hg, u, v)] for x in h[:3]]
    u0, u1, v0, v1 = U[deg[0]], U[-1 - deg[0]], V[deg[1]], V[-1 - deg[1]]
    ring = [corner(u0, v0), corner(u1, v0), corner(u1, v1), corner(u0, v1)]
    scale = max(1.0, np.abs(np.array(P)).max())
    ok = len(edges) == 4
    k0 = next((k for k in range(4) if ok and np.allclose(edges[0][0], ring[k], atol=1e-9 * scale)), None)
    ok = ok and k0 is not None
    turn = [ring[(k0 + j) % 4] for j in range(5)] if ok else []
    sides = {0: ("v", v0), 1: ("u", u1), 2: ("v", v1), 3: ("u", u0)}
    for j in range(4 if ok else 0):
        s, e, g, forward = edges[j]
        ok = ok and np.allclose(s, turn[j], atol=1e-9 * scale) and np.allclose(e, turn[j + 1], atol=1e-9 * scale)
        if not ok:
            break
        cn, p, K, cp, cw = read_curve(data, g)
        direction, at = sides[(k0 + j) % 4]
        dom = (v0, v1) if direction == "u" else (u0, u1)
        if (k0 + j) % 4 >= 2:
            dom = dom[::-1]
        ck = [F(x) for x in K]
        CP, CW = [[F(x) for x in q] for q in cp], [F(x) for x in cw]
        for f in (F(0), F(1, 3), F(1, 2), F(3, 4), F(1)):
            t = ck[p] + (ck[-1 - p] - ck[p]) * (f if forward else 1 - f)
            x = dom[0] + (dom[1] - dom[0]) * f
            want = corner(at, x) if direction == "u" else corner(x, at)
            got = [float(y) for y in ref.curve_point(ck, p, CP, CW, t)]
            ctx.step()
            ok = ok and bool(np.allclose(got, want, atol=1e-9 * scale))
    ctx.expect(ok, f"{sig}: edge loop", lambda: f"edges {[(a, b, f) for a, b, _, f in edges]} corners {ring}")
    # reachable from the product
    reps = [ps for r, recs in data.items() for k, ps in recs if k == "MANIFOLD_SURFACE_SHAPE_REPRESENTATION" and shell in ps[1]]
    ctx.expect(len(reps) == 1, f"{sig}: one representation holds the model", f"{len(reps)}")


def written(w):
    f = io.StringIO()
    w.write(f)
    return parse(f.getvalue())


def step_curves(ctx, tier, p, part, parts):
    for i, (label, deg, U, P, W) in enumerate(curve_cases(tier)):
        if deg != p or i % parts != part:
            continue
        with ctx.at(f"STEP {label}"):
            w = StepWriter()
            r = w.add_nurbs_curve(shapes.curve(p, U, P, W))
            data = written(w)
            ctx.state(("curve", label))
            check_curve_edge(ctx, data, Ref(r[1:]), p, U, P, W, f"STEP {label}")
            ctx.trace()


NAMES = ["", "plain", "it's", "\\back ''", "\u00e9\u0416 \U0001F600", "a;b,(c)#1=$*"]


def surface_cases(tier):
    for p, q in itertools.product((1, 2, 3), repeat=2):
        kn = []
        for U in (
            (F(0),) * (p + 1) + (F(1),) * (p + 1),
            (F(-1),) * (p + 1) + (F(1, 3),) + (F(3, 2),) * (p + 1),
            tuple(shapes.unclamped_knots(p, p + 2))[1],
        ):
            for V in ((F(2),) * (q + 1) + (F(5, 2),) * min(2, q) + (F(3),) * (q + 1), tuple(shapes.unclamped_knots(q, q + 2))[0]):
                kn.append((U, V))
        for k, (U, V) in enumerate(kn):
            for j, wk in enumerate(("one", "two", "mix", "corner")):
                if tier == "quick" and (k + j + p) % 2:
                    continue
                e = (F(1), F(1, 10**7), F(10**9))[(k + j) % 3]
                nu, nv = len(U) - p - 1, len(V) - q - 1
                P = [[tuple(x * e for x in c) for c in r] for r in grid(nu, nv)]
                yield (p, q), U, V, hom(P, wgrid(wk, nu, nv)), NAMES[(k * 4 + j) % len(NAMES)]


def surf(deg, U, V, Hg):
    return NURBSSurface(np.array([[[float(x) for x in h] for h in r] for r in Hg]), deg, shapes.knots(U), shapes.knots(V))


def step_surfaces(ctx, tier, deg0):
    for deg, U, V, Hg, name in surface_cases(tier):
        if deg != deg0:
            continue
        sig = f"STEP surface degree {deg} U={[str(x) for x in U]} V={[str(x) for x in V]} weight {[str(h[3]) for h in Hg[0]]} scale {float(Hg[1][0][0])} name {name!r}"
        with ctx.at(sig):
            w = StepWriter()
            r = w.add_nurbs_surface(surf(deg, U, V, Hg), name=name)
            data = written(w)
            ctx.state(sig)
            check_surface(ctx, data, Ref(r[1:]), deg, U, V, Hg, name, sig)
            ctx.trace()
    ctx.sample(sig)


def step_pairs(ctx, tier):
    """Several objects in one file: all ordered pairs and the file written after every object."""
    C = [x for x in curve_cases("quick")][5::97][:6]
    S = [x for x in surface_cases("quick")][3::17][:6]
    objs = [("c", x) for x in C] + [("s", x) for x in S]
    for a, b in itertools.product(range(len(objs)), repeat=2):
        sig = f"STEP file with objects {a}, {b}"
        with ctx.at(sig):
            w = StepWriter()
            done = []
            for k in (a, b):
                kind, x = objs[k]
                if kind == "c":
                    done.append((kind, w.add_nurbs_curve(shapes.curve(*x[1:])), x))
                else:
                    done.append((kind, w.add_nurbs_surface(surf(*x[:4]), color=(0.25, 1e-05, 1.0), name=x[4]), x))
                data = written(w)
                ctx.state((a, b, len(done)))
                for kind, r, x in done:
                    if kind == "c":
                        check_curve_edge(ctx, data, Ref(r[1:]), *x[1:], sig)
                    else:
                        check_surface(ctx, data, Ref(r[1:]), *x[:4], x[4], sig)
                ctx.trace()
    ctx.sample(sig)


def tasks(tier):
    out = []
    for p in range(1, 4 if tier == "quick" else 5):
        for k in range(4):
            out.append((f"bytes {p} {k}", curves, (tier, p, k, 4)))
            out.append((f"step curves {p} {k}", step_curves, (tier, p, k, 4)))
        out.append((f"histories {p}", histories, (p,)))
    for p, wk, per in itertools.product((1, 2, 3), ("one", "mix"), (False, True)):
        out.append((f"damaged {p} {wk} {per}", damaged, (p, wk, per)))
    for deg in itertools.product((1, 2, 3), repeat=2):
        out.append((f"step surfaces {deg}", step_surfaces, (tier, deg)))
    out.append(("step pairs", step_pairs, (tier,)))
    return out
