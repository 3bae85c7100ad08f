"""C16: convex hulls: GJK and spatial separability report exactly the pairs of hulls that come within the tolerance."""
import itertools
from functools import lru_cache

import numpy as np

import ref
from mmcore.numeric.algorithms import gjk as pygjk
from mmcore.numeric.algorithms.cygjk import gjk
from mmcore.numeric.intersection.separability.spatial import spatial_separability

PID = "C16"
ASSUMPTIONS = [
    "the tolerance is far above the rounding error of the coordinates; a pair whose distance is within 2 % of the tolerance may go either way",
]
BOUNDS = {
    "cubes": "every set of up to 4 vertices of a cube up to symmetry x every set of up to 3 (quick) or all sets of vertices of an equal cube x every half-unit offset: apart, touching in a vertex, edge or face, crossing, nested",
    "nets": "every control polygon of a family of 40 (2..5 points, flat and spatial) x every 3x3 net with heights 0..1 (thorough 0..2) x 3 heights above each other",
    "hulls": "every pair of 11 solids and flat or thin sets of up to 16 points x every offset of a 5x5x5 grid",
    "images": "each pair as given, sheared, turned, scaled by 1/64 and 37 and up to a million times their size from the origin; both orders; strided input; tolerances 1e-6, 0.9 and 1.1 times the distance",
}

SHEAR = np.array([[3.0, 1, 0], [0, 2, 1], [1, 0, 3]])
TURN = np.array([[2.0, -2, 1], [1, 2, 2], [2, 1, -2]]) / 3  # orthogonal


@lru_cache(None)
def _dist2(M):
    return ref.hull_distance2(M)


def dist2(A, B):
    """Exact squared distance of the hulls of integer points."""
    return _dist2(tuple(sorted({(a[0] - b[0], a[1] - b[1], a[2] - b[2]) for a in A for b in B})))


def strided(A):
    wide = np.full((2 * len(A), 4), 1e3)
    wide[::2, :3] = A
    return wide[::2, :3]


def judge(ctx, A, B, full, unit=1.0):
    """A, B: integer points; the tools see them times `unit`."""
    d = float(dist2(A, B)) ** 0.5 * unit
    a, b = np.array(A, dtype=float) * unit, np.array(B, dtype=float) * unit
    sig = f"{A} {B} (unit {unit:g})"
    ctx.state((A, B))
    ask = [("", a, b, 1e-6, d <= 1e-6)]
    ask.append((" swapped", b, a, 1e-6, d <= 1e-6))
    if full:
        ask.append((" sheared", a @ SHEAR, b @ SHEAR, 1e-6, d == 0))
        ask.append((" turned", a @ TURN, b @ TURN, 1e-6, d <= 1e-6))
        ask.append((" small", a / 64, b / 64, 1e-7, d == 0))
        ask.append((" large, far, strided", strided(a * 37 + [1e3, -2e3, 5e2]), strided(b * 37 + [1e3, -2e3, 5e2]), 1e-6, d == 0))
        ask.append((" very far", a * 3 + [4e6, -3e6, 2e6], b * 3 + [4e6, -3e6, 2e6], 1e-5, d == 0))
        if d > 0:
            ask.append((" tolerance below the distance", a, b, 0.9 * d, False))
            ask.append((" tolerance above the distance", a @ TURN, b @ TURN, 1.1 * d, True))
    for what, x, y, tol, hit in ask:
        ctx.step()
        with ctx.at(sig + what):
            got = gjk(x, y, tol)
            ctx.expect(got == hit, f"gjk {sig}{what}", lambda: f"{got}, the distance is {d} of tolerance {tol}")
            got = spatial_separability(x, y, tol)
            ctx.expect(bool(got) != hit, f"spatial_separability {sig}{what}", lambda: f"{got}, the distance is {d} of tolerance {tol}")
    for what, x, y, tol, hit in ask[:1] + ask[3:4] + ask[6:7] + ask[8:] if full else ask[:1]:
        ctx.step()
        with ctx.at(f"python {sig}{what}"):
            got = pygjk.gjk_collision_detection(x, y, tol)
            ctx.expect(bool(got) == hit, f"gjk.py {sig}{what}", lambda: f"{got}, the distance is {d} of tolerance {tol}")
    return sig


CUBE = list(itertools.product((0, 2), repeat=3))


def canonical_sets(most):
    """One set of up to `most` cube vertices per class of the cube's 48 symmetries."""
    seen, out = set(), []
    maps = [
        (perm, flip) for perm in itertools.permutations(range(3)) for flip in itertools.product((0, 1), repeat=3)
    ]
    for n in range(1, most + 1):
        for s in itertools.combinations(CUBE, n):
            key = min(
                tuple(sorted(tuple(2 - v[i] if f else v[i] for i, f in zip(perm, flip)) for v in s)) for perm, flip in maps
            )
            if key not in seen:
                seen.add(key)
                out.append(s)
    return out


def cubes_task(ctx, i, j, offsets, most):
    A = canonical_sets(4)[i]
    sets = [s for n in range(1, most + 1) for s in itertools.combinations(CUBE, n)]
    for k, s in enumerate(sets):
        if k % 2 != j:
            continue
        for n, o in enumerate(itertools.product(offsets, repeat=3)):
            B = tuple(tuple(x + y for x, y in zip(v, o)) for v in s)
            sig = judge(ctx, A, B, (n + k) % 7 == 0, 0.5)
    ctx.sample(sig)


def polygons():
    """Control polygons on a grid of thirds: degree 1..4."""
    out = []
    for a, b in itertools.product([(1, 1, -1), (0, 5, 2), (-1, 3, 4), (3, 3, 3)], [(5, 2, 5), (4, 4, -2), (2, 0, 1)]):
        out.append((a, b))
    out += [
        (p, (1, 5, h), q)
        for p, q in itertools.combinations([(0, 0, 3), (6, 3, 0), (3, 6, -1), (3, 2, 5)], 2)
        for h in (0, 6)
    ]
    out += [
        ((0, 1, 1), (2, 5, h), (4, -1, 5 - h), (6, 4, k)) for h in (0, 2, 6) for k in (-2, 1, 4)
    ]
    out += [((1, 1, h), (1, 5, 1), (3, 3, 6), (5, 5, 1), (5, 1, h)) for h in range(-2, 5)]
    return out


def nets_task(ctx, i, j, parts, levels):
    A = polygons()[i]
    for k, hs in enumerate(itertools.product(range(levels), repeat=9)):
        if k % parts != j:
            continue
        for base, step in ((0, 1), (1, 2), (3, -1)):
            B = tuple((3 * x, 3 * y, base + step * hs[3 * x + y]) for x in range(3) for y in range(3))
            sig = judge(ctx, A, B, k % 13 == 0)
    ctx.sample(sig)


def solids():
    octa = [(3, 0, 0), (-3, 0, 0), (0, 3, 0), (0, -3, 0), (0, 0, 3), (0, 0, -3)]
    out = {
        "octahedron": octa,
        "cube with repeated and inner points": [(x, y, z) for x in (-2, 2) for y in (-2, 2) for z in (-2, 2)] + [(0, 0, 0), (2, 2, 2), (1, 0, -1)],
        "cuboctahedron": [p for p in itertools.product((-2, 0, 2), repeat=3) if sum(map(abs, p)) == 4],
        "twelve-sided prism": [(x, y, z) for x, y in ((3, 0), (2, 2), (0, 3), (-2, 2), (-3, 0), (-2, -2), (0, -3), (2, -2)) for z in (-1, 1)],
        "square": [(x, y, 0) for x in (-3, 3) for y in (-3, 3)],
        "slanted flat grid": [(x, y, x + y) for x in (-2, 0, 2) for y in (-2, 0, 2)],
        "needle": [(-5, -5, -5), (6, 5, 5), (0, 0, 1)],
        "points of one line": [(k, 2 * k, -k) for k in (-2, -1, 0, 1, 2)],
        "point three times": [(1, 0, -1)] * 3,
        "thin tetrahedron": [(-4, 0, 0), (4, 1, 0), (0, 0, 1), (0, 1, -1)],
        "saddle net": [(x, y, x * y // 2) for x in (-2, 0, 1, 2) for y in (-2, 0, 1, 2)],
    }
    return [tuple(v) for v in out.values()]


def solids_task(ctx, i, j, step):
    s = solids()
    A = s[i]
    for n, o in enumerate(itertools.product(range(-2 * step, 2 * step + 1, step), repeat=3)):
        B = tuple(tuple(x + y for x, y in zip(v, o)) for v in s[j])
        sig = judge(ctx, A, B, True)
    ctx.sample(sig)


def tasks(tier):
    quick = tier == "quick"
    n = len(canonical_sets(4))
    out = [
        (f"cubes {i} {j}", cubes_task, (i, j, (-2, -1, 0, 1) if quick else (-2, -1, 0, 1, 2, 3), 3 if quick else 8))
        for i in range(n)
        for j in range(2)
    ]
    parts = 1 if quick else 4
    out += [
        (f"nets {i} {j}", nets_task, (i, j, parts, 2 if quick else 3))
        for i in range(len(polygons()))
        for j in range(parts)
        if not quick or i % 2 == 0
    ]
    m = len(solids())
    out += [(f"solids {i} {j} {s}", solids_task, (i, j, s)) for i in range(m) for j in range(m) for s in ((2,) if quick else (1, 2, 3))]
    return out


TASK_LIMIT_S = 600
