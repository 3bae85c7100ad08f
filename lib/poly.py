"""Exact polynomials over the rationals, coefficients lowest first."""
from fractions import Fraction as F
from math import comb


def padd(a, b):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)]


def pmul(a, b):
    out = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                out[i + j] += x * y
    return out


def scale(a, k):
    return [k * x for x in a]


def trim(a):
    while len(a) > 1 and a[-1] == 0:
        a = a[:-1]
    return a


def pval(a, t):
    r = F(0)
    for c in reversed(a):
        r = r * t + c
    return r


def sturm_chain(p):
    chain = [p, [i * c for i, c in enumerate(p)][1:] or [F(0)]]
    while any(chain[-1]):
        a, b = chain[-2], trim(chain[-1])
        a = list(a)
        while len(a) >= len(b) and any(a):
            k = a[-1] / b[-1]
            for i in range(len(b)):
                a[len(a) - len(b) + i] -= k * b[i]
            a = a[:-1]
        chain.append(trim([-x for x in a]) if a else [F(0)])
    return chain


def changes(chain, t):
    s = [v > 0 for v in (pval(q, t) for q in chain) if v != 0]
    return sum(x != y for x, y in zip(s, s[1:]))


def sturm_count(p, lo, hi):
    """Number of distinct real roots in (lo, hi]."""
    chain = sturm_chain(p)
    return changes(chain, F(lo)) - changes(chain, F(hi))


def power(cp, w):
    """Homogeneous power-basis coordinates (X, Y, Z, W) of a rational Bezier curve."""
    n = len(cp) - 1
    rows = [[F(0)] * (n + 1) for _ in range(4)]
    for i, (p, wi) in enumerate(zip(cp, w)):
        h = [F(x) * F(wi) for x in p] + [F(wi)]
        for j in range(i, n + 1):
            k = comb(n, i) * comb(n - i, j - i) * (-1) ** (j - i)
            for c in range(4):
                rows[c][j] += k * h[c]
    return rows



def deriv(p):
    return [i * c for i, c in enumerate(p)][1:] or [F(0)]


def divmod_poly(a, b):
    a, b = trim(list(a)), trim(list(b))
    q = [F(0)] * max(1, len(a) - len(b) + 1)
    while len(a) >= len(b) and any(a):
        k = a[-1] / b[-1]
        q[len(a) - len(b)] = k
        for i in range(len(b)):
            a[len(a) - len(b) + i] -= k * b[i]
        a = a[:-1] or [F(0)]
    return q, trim(a)


def gcd_poly(a, b):
    a, b = trim(list(a)), trim(list(b))
    while any(b):
        a, b = b, divmod_poly(a, b)[1]
    return [x / a[-1] for x in a] if any(a) else a


def isolate(p, lo, hi, width=F(1, 2**40)):
    """Distinct real roots in [lo, hi] of a non-zero polynomial, each as an exact rational or within `width`."""
    p = trim(list(p))
    if len(p) == 1:
        return []
    p = divmod_poly(p, gcd_poly(p, deriv(p)))[0]
    lo, hi = F(lo), F(hi)
    out = [lo] if pval(p, lo) == 0 else []
    chain = sturm_chain(p)
    stack = [(lo, hi, changes(chain, lo), changes(chain, hi))]
    while stack:
        a, b, ca, cb = stack.pop()
        if ca == cb:
            continue
        if pval(p, b) == 0 and ca - cb == 1:
            out.append(b)
        elif b - a <= width and ca - cb == 1:
            out.append((a + b) / 2)
        else:
            m = (a + b) / 2
            cm = changes(chain, m)
            stack += [(a, m, ca, cm), (m, b, cm, cb)]
    return sorted(out)
