"""C14: the AVL tree is an ordered map that stays balanced, whatever is inserted and deleted."""
import itertools
from fractions import Fraction as F

from mmcore.ds.tree.avl import AVL, AVLNode

PID = "C14"
ASSUMPTIONS = [
    "keys are totally ordered; append() takes a key above every key of the tree",
    "inserting a key that is there with insert() is not judged (whether the first or the last value stays); assignment replaces the value",
]
BOUNDS = {
    "orders": "every insertion order of up to 7 keys (thorough 8), then deletion in every rotation of every second order (up to 5 keys: every deletion order)",
    "histories": "every history of up to 7 insertions, assignments and deletions (thorough 8) over 4 keys, explored state by state (states are the shape with keys and values)",
    "appends": "up to 40 appends, mixed with deletions of every key",
    "observed": "after each operation: inorder keys and values, lookup of every present and absent key, balance within one at every node, stored heights and balances exact, order of the keys",
    "keys": "int, float, str, tuple, Fraction",
}


def check(ctx, t, m, sig):
    """Compare tree t with the dict m; returns the shape."""
    ctx.step()
    bad = []

    def walk(a, lo, hi):
        if a.node is None:
            if a.height != -1 or a.balance != 0:
                bad.append(f"empty subtree with height {a.height}")
            return -1, None
        k = a.node.key
        if (lo is not None and not k > lo[0]) or (hi is not None and not k < hi[0]):
            bad.append(f"key {k} out of order")
        hl, sl = walk(a.node.left, lo, (k,))
        hr, sr = walk(a.node.right, (k,), hi)
        h = 1 + max(hl, hr)
        if abs(hl - hr) > 1:
            bad.append(f"unbalanced at {k}: {hl} and {hr}")
        if a.height != h or a.balance != hl - hr:
            bad.append(f"stored height {a.height}, balance {a.balance} at {k}: are {h}, {hl - hr}")
        return h, (k, a.node.data, sl, sr)

    shape = walk(t, None, None)[1]
    if bad:
        ctx.fail(f"{sig}: structure", "; ".join(bad))
    nodes = t.inorder_traverse()
    got = [(n.key, n.data) for n in nodes]
    if got != sorted(m.items()):
        ctx.fail(f"{sig}: content", f"{got} expected {sorted(m.items())}")
    for k, v in m.items():
        n = t.search(k)
        if n is None or n.key != k or n.data != v or t[k] != v:
            ctx.fail(f"{sig}: lookup of {k}", f"{n} expected {v}")
    return shape


def absent(ctx, t, keys, m, sig):
    for k in keys:
        if k not in m and t.search(k) is not None:
            ctx.fail(f"{sig}: lookup of absent {k}", f"{t.search(k)}")


def orders(ctx, n, lead, deletions):
    for perm in itertools.permutations([k for k in range(n) if k != lead]):
        perm = (lead,) + perm
        sig = f"insert {perm}"
        with ctx.at(sig):
            t, m = AVL(), {}
            for k in perm:
                t.insert(k * 2, f"v{k}")
                m[k * 2] = f"v{k}"
                check(ctx, t, m, sig)
            absent(ctx, t, range(-1, 2 * n + 1), m, sig)
        ctx.state(perm)
        if deletions == "all":
            dels = itertools.permutations(range(n))
        else:
            dels = [perm[i:] + perm[:i] for i in range(n)] + [tuple(sorted(perm))[i:] + tuple(sorted(perm))[:i] for i in range(n)]
        for d in dels:
            sig = f"insert {perm} delete {d}"
            with ctx.at(sig):
                t, m = AVL(), {}
                for k in perm:
                    t.insert(k * 2, f"v{k}")
                    m[k * 2] = f"v{k}"
                for k in d:
                    t.delete(k * 2)
                    del m[k * 2]
                    check(ctx, t, m, sig)
                    t.delete(k * 2)  # deleting an absent key changes nothing
                    t.delete(2 * n + 1)
                absent(ctx, t, range(0, 2 * n, 2), m, sig)
                ctx.trace()
    ctx.sample(sig)


def histories(ctx, keys, depth):
    """All histories; states are the trees, continued once each."""
    ops = [("insert", k) for k in keys] + [("set", k) for k in keys] + [("del", k) for k in keys]
    frontier = [()]
    seen = set()
    for level in range(depth + 1):
        nxt = []
        for h in frontier:
            sig = f"history {h}"
            with ctx.at(sig):
                t, m = AVL(), {}
                for i, (o, k) in enumerate(h):
                    if o == "insert":
                        if k not in m:
                            t.insert(k, i % 2)
                            m[k] = i % 2
                    elif o == "set":
                        t[k] = 2 + i % 2
                        m[k] = 2 + i % 2
                    else:
                        del t[k]
                        m.pop(k, None)
                    ctx.step()
                shape = check(ctx, t, m, sig)
                absent(ctx, t, keys, m, sig)
                ctx.trace()
                if shape not in seen:
                    seen.add(shape)
                    ctx.state(shape)
                    nxt += [h + (o,) for o in ops if o[0] != "insert" or o[1] not in m]
        frontier = nxt
    ctx.sample(sig)


def missing(ctx):
    for n in range(4):
        t = AVL()
        for k in range(n):
            t.insert(k, k)
        for k in (-1, n, 0.5):
            sig = f"missing key {k} of {n}"
            ctx.step()
            ctx.state((n, k))
            with ctx.at(sig):
                try:
                    x = t[k]
                    ctx.fail(sig, f"gave {x}")
                except KeyError:
                    pass
    a, b = AVLNode(1, "a"), AVLNode(2, "b")
    with ctx.at("nodes"):
        ctx.expect(a < b and b > a and a <= 1 and a == 1 and b != 1 and a != b and int(b) == 2 and a <= b and b >= a and hash(a) == hash(1), "comparison of nodes", "")
    ctx.sample("missing keys")


def appends(ctx, n):
    t, m = AVL(), {}
    with ctx.at("appends"):
        for i in range(n):
            t.append(f"a{i}")
            m[i] = f"a{i}"
            check(ctx, t, m, f"{i + 1} appends")
            ctx.state(i)
    for d in range(n):
        sig = f"{n} appends, delete {d}, append"
        with ctx.at(sig):
            t = AVL()
            m = {}
            for i in range(n):
                t.append(i)
                m[i] = i
            t.delete(d)
            del m[d]
            t.append("new")
            m[max(m) + 1] = "new"
            check(ctx, t, m, sig)
            ctx.trace()
    ctx.sample(sig)


def kinds(ctx):
    for keys in ([0.5, -1.25, 3.0, 2.5, 1e-9], ["b", "a", "", "ab", "c"], [(1, 2), (0,), (1,), (2, 0), (1, 2, 3)], [F(1, 3), F(1, 2), F(-1, 3), F(2, 3), F(0)]):
        for perm in itertools.permutations(keys):
            sig = f"keys {perm}"
            with ctx.at(sig):
                t, m = AVL(), {}
                for i, k in enumerate(perm):
                    t.insert(k, i)
                    m[k] = i
                check(ctx, t, m, sig)
                for k in perm[1::2]:
                    t.delete(k)
                    del m[k]
                    check(ctx, t, m, sig)
                absent(ctx, t, keys, m, sig)
            ctx.state(perm)
    ctx.sample(sig)


def tasks(tier):
    out = []
    top = 7 if tier == "quick" else 8
    for n in range(1, top + 1):
        for lead in range(n):
            out.append((f"orders {n} {lead}", orders, (n, lead, "all" if n <= (5 if tier == "quick" else 6) else "rotations")))
    out.append(("histories 4", histories, ((1, 2, 3, 4), 7 if tier == "quick" else 9)))
    out.append(("histories 6", histories, ((1, 2, 3, 4, 5, 6), 6 if tier == "quick" else 8)))
    out.append(("missing", missing, ()))
    out += [(f"appends {n}", appends, (n,)) for n in (3, 7, 12, 40)]
    out.append(("kinds", kinds, ()))
    return out
