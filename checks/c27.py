"""C27: interval arithmetic gives the exact range of every operation and encloses every expression."""
import itertools
import math
import operator
from fractions import Fraction as F

import numpy as np

from mmcore.numeric.interval import Comparison, Interval

PID = "C27"
ASSUMPTIONS = ["the ends are fractions, integers or dyadic doubles, for which every intermediate result is exact; rounding outwards is not claimed by the code and not asked for"]
BOUNDS = {
    "operations": "every pair of the 28 intervals with ends in {-2, -1, -1/2, 0, 1/2, 1, 3} (+ - * / & | merge in compare), every interval with every such number, fractions, integers and doubles; powers -3..5",
    "expressions": "every expression of up to 3 (thorough: all of 3 with both sides composite) operations over x, y, 2 and -1/2, for 9 (thorough 25) pairs of intervals, at every pair of 5x5 points of them",
    "histories": "every sequence of 3 (thorough 4) in-place operations with operands from 6 intervals and numbers, including the interval itself",
    "subdivision": "every interval, 0..5 halvings; evaluate at 9 parameters",
}
ENDS = [F(-2), F(-1), F(-1, 2), F(0), F(1, 2), F(1), F(3)]
PAIRS = [(a, b) for a in ENDS for b in ENDS if a <= b]
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}
INF = float("inf")


def num(kind, x):
    return {"fraction": x, "double": float(x), "numpy": np.float64(x)}[kind]


def iv(kind, p):
    return Interval(num(kind, p[0]), num(kind, p[1]))


def ends(i):
    return (i.low, i.upp)


def same(kind, got, want):
    """Doubles round the quotients only."""
    if kind == "fraction":
        return tuple(got) == tuple(want)
    return all(g == w or abs(float(g) - float(w)) <= 1e-14 * abs(float(w)) for g, w in zip(got, want))


def exact(op, a, b):
    """The exact range of a op b for exact pairs; None where it is undefined."""
    if op == "/":
        if b[0] == 0 or b[1] == 0:
            return None
        if b[0] < 0 < b[1]:
            return (-INF, INF)
    v = [OPS[op](x, y) for x in a for y in b]
    return (min(v), max(v))


def t_binary(ctx, kind):
    for a, b in itertools.product(PAIRS, repeat=2):
        ctx.state((kind, a, b))
        for op, fn in OPS.items():
            want = exact(op, a, b)
            if want is None:
                if kind != "numpy":
                    try:
                        r = fn(iv(kind, a), iv(kind, b))
                        ctx.fail("zero", f"{a} / {b} is {r}: the divisor ends at zero")
                    except ZeroDivisionError:
                        pass
                continue
            with ctx.at("binary"):
                x, y = iv(kind, a), iv(kind, b)
                r = fn(x, y)
                ctx.step()
                ctx.expect(same(kind, ends(r), want) if op == "/" else ends(r) == want, f"binary{op}", lambda: f"Interval{a} {op} Interval{b} = {r}, not {want}")
                ctx.expect(ends(x) == a and ends(y) == b, "operands", lambda: f"Interval{a} {op} Interval{b} changes an operand")
        with ctx.at("sets"):
            x, y = iv(kind, a), iv(kind, b)
            ctx.step()
            hull = (min(a[0], b[0]), max(a[1], b[1]))
            ctx.expect(ends(x | y) == hull and ends(x.merge(y)) == hull, "hull", lambda: f"hull of {a} and {b}: {x | y} {x.merge(y)}")
            if max(a[0], b[0]) <= min(a[1], b[1]):
                ctx.expect(ends(x & y) == (max(a[0], b[0]), min(a[1], b[1])), "common", lambda: f"{a} & {b} = {x & y}")
            ctx.expect((y in x) == (a[0] <= b[0] and b[1] <= a[1]), "in", lambda: f"{b} in {a}: {y in x}")
            less, more = a[1] < b[0], a[0] > b[1]
            order(ctx, x, y, less, more, (a, b))
            ctx.expect(ends(x) == a and ends(y) == b, "operands", lambda: f"comparing {a} and {b} changes an operand")


def order(ctx, x, y, less, more, key):
    """less: every x is below every y; more: every x is above every y."""
    want = Comparison.TRUE if less else Comparison.FALSE if more else Comparison.MAYBE
    ctx.expect(x.compare(y) == want, "compare", lambda: f"compare {key}: {x.compare(y)!r}, not {want!r}")
    ctx.expect((x < y) == less and (x > y) == more and (x <= y) == (not more) and (x >= y) == (not less), "order", lambda: f"order of {key}: {x < y, x > y, x <= y, x >= y}")


def t_number(ctx, kind):
    for a, k in itertools.product(PAIRS, ENDS):
        ctx.state((kind, a, k))
        forms = [num(kind, k)] + ([int(k)] if k == int(k) else [])
        for n in forms:
            for op, fn in OPS.items():
                if op == "/" and k == 0:
                    continue
                with ctx.at("number"):
                    x = iv(kind, a)
                    r = fn(x, n)
                    ctx.step()
                    want = exact(op, a, (k, k))
                    ctx.expect(same(kind, ends(r), want) if op == "/" else ends(r) == want, f"number{op}", lambda: f"Interval{a} {op} {n!r} = {r}, not {want}")
                    ctx.expect(ends(x) == a, "operands", lambda: f"Interval{a} {op} {n!r} changes its operand")
            with ctx.at("number"):
                x = iv(kind, a)
                if kind != "numpy" or type(n) is int:  # a numpy number takes the sum over and makes an array of it
                    ctx.expect(ends(n + x) == (k + a[0], k + a[1]), "radd", lambda: f"{n!r} + Interval{a} = {n + x}")
                ctx.expect((n in x) == (a[0] <= k <= a[1]), "in", lambda: f"{n!r} in {a}: {n in x}")
                order(ctx, x, n, a[1] < k, a[0] > k, (a, n))
                ctx.expect(ends(x | n) == (min(a[0], k), max(a[1], k)), "hull", lambda: f"hull of {a} and {n!r}: {x | n}")
                if a[0] <= k <= a[1]:
                    ctx.expect(ends(x & n) == (max(a[0], k), min(a[1], k)), "common", lambda: f"{a} & {n!r} = {x & n}")


def power(a, n):
    if n < 0:
        p = power(a, -n)
        if p[0] == 0 or p[1] == 0:
            return None
        return (-INF, INF) if p[0] < 0 < p[1] else (1 / p[1], 1 / p[0])
    v = [a[0] ** n, a[1] ** n] + ([F(0)] if n % 2 == 0 and n and a[0] < 0 < a[1] else [])
    return (min(v), max(v))


def t_unary(ctx, kind):
    for a in PAIRS:
        ctx.state((kind, a))
        for n in range(-3, 6):
            want = power(a, n)
            for how, fn in (("**", lambda x: x ** n), ("pow", lambda x: Interval.pow(x, n))):
                x = iv(kind, a)
                if want is None:
                    if kind != "numpy":
                        try:
                            ctx.fail("zero", f"Interval{a} {how} {n} = {fn(x)}: the range ends at 1/0")
                        except ZeroDivisionError:
                            pass
                    continue
                with ctx.at("power"):
                    r = fn(x)
                    ctx.step()
                    ctx.expect(same(kind, ends(r), want), "power", lambda: f"Interval{a} {how} {n} = {r}, not {want}")
                    ctx.expect(ends(x) == a, "operands", lambda: f"Interval{a} {how} {n} changes its operand")
        x = iv(kind, a)
        with ctx.at("invert"):
            if a[0] == 0 or a[1] == 0:
                try:
                    ctx.fail("zero", f"~Interval{a} = {~x}")
                except ZeroDivisionError:
                    pass
            else:
                want = (-INF, INF) if a[0] < 0 < a[1] else (1 / a[1], 1 / a[0])
                ctx.expect(all(math.isclose(g, w, rel_tol=1e-15) for g, w in zip(ends(~x), want)), "invert", lambda: f"~Interval{a} = {~x}, not {want}")
        with ctx.at("parts"):
            ctx.expect(ends(x.lower()) == (a[0], a[0]) and ends(x.upper()) == (a[1], a[1]), "parts", lambda: f"ends of {a}: {x.lower()} {x.upper()}")
            ctx.expect(kind == "fraction" or float(x) == float((a[0] + a[1]) / 2), "parts", lambda: f"middle of {a}: {float(x)}")
            ctx.expect(tuple(x) == a and x.to_tuple() == a and ends(Interval.from_tuple(x.to_tuple())) == a and ends(Interval(x.to_tuple())) == a, "parts", lambda: f"{a} as a tuple: {tuple(x)}")
            ctx.expect(np.array(x, dtype=float).tolist() == [float(a[0]), float(a[1])], "parts", lambda: f"{a} as an array: {np.array(x)}")
            if a[0] == a[1]:
                ctx.expect(ends(Interval(num(kind, a[0]))) == a, "parts", lambda: f"Interval of one number {a[0]}")
            for t in range(-2, 7):
                t = F(t, 4)
                ctx.expect(x.evaluate(num(kind, t)) == a[0] + (a[1] - a[0]) * t, "evaluate", lambda: f"{a} at {t}: {x.evaluate(num(kind, t))}")
            for n in range(6):
                got = x.subdivide(n)
                ctx.step()
                w = (a[1] - a[0]) / 2 ** n
                want = [(a[0] + w * i, a[0] + w * (i + 1)) for i in range(2 ** n)]
                ctx.expect([ends(g) for g in got] == want, "subdivide", lambda: f"{a} halved {n} times: {got}")
            ctx.expect(ends(x) == a, "parts", lambda: f"reading {a} changes it")


# ---- expressions -----------------------------------------------------------------------------------------------------------------

LEAVES = ["x", "y", F(2), F(-1, 2)]


def expressions(tier):
    one = [(op, l, r) for op in OPS for l in LEAVES for r in LEAVES if isinstance(l, str)]
    two = [(op, l, r) for op in OPS for l in one for r in LEAVES] + [("**", l, n) for l in one for n in (2, 3)]
    yield from one
    yield from two
    right = one if tier == "thorough" else [e for e in one if e[2] in ("x", "y")]
    for op in OPS:
        for l, r in itertools.product(one, right):
            yield (op, l, r)
    for op in OPS:
        for l in (two if tier == "thorough" else two[::3]):
            yield (op, l, "x")
            yield (op, l, F(-1, 2))


def evaluate(e, env):
    if isinstance(e, str):
        return env[e]
    if isinstance(e, F):
        return e
    op, l, r = e
    if op == "**":
        return evaluate(l, env) ** r
    return OPS[op](evaluate(l, env), evaluate(r, env))


def t_expr(ctx, part, tier):
    sample = [(F(-2), F(-1)), (F(-1), F(3)), (F(1, 2), F(1)), (F(0), F(2)), (F(1), F(1))]
    pairs = list(itertools.product(sample if tier == "thorough" else sample[:3], repeat=2))
    es = list(expressions(tier))[part::8]
    for a, b in pairs:
        pts = [(a[0] + (a[1] - a[0]) * F(i, 4), b[0] + (b[1] - b[0]) * F(j, 4)) for i in range(5) for j in range(5)]
        if tier != "thorough":
            pts = pts[::2]
        for e in es:
            try:
                r = evaluate(e, {"x": Interval(*a), "y": Interval(*b)})
            except ZeroDivisionError:
                ctx.count("division by an interval ending at zero")
                continue
            ctx.step()
            lo, hi = ends(r)
            if lo != lo or hi != hi:
                ctx.count("unbounded inside")
                continue
            for x, y in pts:
                try:
                    v = evaluate(e, {"x": x, "y": y})
                except ZeroDivisionError:
                    continue
                if not lo <= v <= hi:
                    ctx.fail("enclosure", f"{e} of {a}, {b} is {r}, but {v} at {x}, {y}")
                    break
            ctx.state((a, b, e))


def t_inplace(ctx, tier):
    ops = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv}
    operands = [(F(-1), F(2)), (F(1, 2), F(3)), (F(-2), F(-1)), F(2), F(-1, 2), "self"]
    steps = list(itertools.product(ops, operands))
    for start in ((F(-1), F(3)), (F(1), F(2))):
        for seq in itertools.product(steps, repeat=4 if tier == "thorough" else 3):
            x = Interval(*start)
            alias, val = x, start
            for op, o in seq:
                if val is None or INF in val:
                    break
                other = x if o == "self" else o if isinstance(o, F) else Interval(*o)
                pair = val if o == "self" else (o, o) if isinstance(o, F) else o
                want = exact(op, val, pair)
                if want is None:
                    break
                with ctx.at("inplace"):
                    x = ops[op](x, other)
                    ctx.step()
                    ctx.expect(ends(x) == want, "inplace", lambda: f"{start} {seq}: {x}, not {want}")
                    ctx.expect(x is alias, "alias", lambda: f"{start} {seq}: the operation in place made another interval")
                    if isinstance(other, Interval) and o != "self":
                        ctx.expect(ends(other) == o, "operands", lambda: f"{op}= changes its right operand {o}")
                val = want
            ctx.state((start, seq))


def tasks(tier):
    kinds = ("fraction", "double", "numpy")
    out = [(f"{n}-{k}", fn, (k,)) for n, fn in (("binary", t_binary), ("number", t_number), ("unary", t_unary)) for k in kinds]
    return out + [(f"expr-{i}", t_expr, (i, tier)) for i in range(8)] + [("inplace", t_inplace, (tier,))]
