"""C13: the circular linked list behaves as a sequence; union-find as a partition."""
import copy
import itertools

from mmcore.ds.cdll import CDLL, Node
from mmcore.ds.union_find import UnionFind, group_tuples

PID = "C13"
ASSUMPTIONS = ["indices and values are of the documented kind; a node is a member of one list at a time"]
BOUNDS = {
    "list": "every history of up to 4 (thorough 5) operations from lists of 0..3 values (with a repeated value): append, append_node, insert at every index, remove by value (present, repeated, missing), remove_by_index / del at every index, replace_node and assignment at every index, and the refused ones (index too large, negative, missing value)",
    "observed": "after each operation: length, iteration, indexing from both ends, get_node, index and membership, both link directions around the ring, the hooks called, the text form",
    "union-find": "every reachable state of a union-find of up to 6 (thorough: 7) elements under any number of unions and finds, every sequence of up to 4 unions and finds on 4 elements, and all graphs on 5 elements in two orders",
    "grouping": "every list of up to 4 tuples over the numbers 0..3 (up to 2 numbers each), and of up to 3 tuples with up to 3 numbers",
}


class Hooked(CDLL):
    def __init__(self, *a):
        self.log = []
        super().__init__(*a)

    def insert_hook(self, node):
        self.log.append(("insert", node.data))

    def remove_hook(self, node):
        self.log.append(("remove", node.data))


def operations(n):
    ops = [("append", v) for v in (7, 1)] + [("append_node", 8)]
    ops += [("insert", i, 9) for i in range(-1, n + 2)]
    ops += [("remove", v) for v in (1, 2, 5, 9)]
    ops += [(k, i) for k in ("remove_by_index", "del") for i in range(-1, n + 1)]
    ops += [(k, i, 6) for k in ("replace_node", "set") for i in range(-1, n + 1)]
    return ops


def apply_model(m, op):
    """Returns (new list, hooks) or None when the operation must be refused (ValueError), leaving the list as it was."""
    k = op[0]
    m = list(m)
    if k in ("append", "append_node"):
        return m + [op[1]], [("insert", op[1])]
    if k == "insert":
        if not 0 <= op[1] <= len(m):
            return None
        m.insert(op[1], op[2])
        return m, [("insert", op[2])]
    if k == "remove":
        if op[1] not in m:
            return None
        m.remove(op[1])
        return m, [("remove", op[1])]
    if not 0 <= op[1] < len(m):
        return None
    if k in ("remove_by_index", "del"):
        v = m.pop(op[1])
        return m, [("remove", v)]
    m[op[1]] = op[2]
    return m, []


def apply_real(c, op):
    k = op[0]
    if k == "append":
        c.append(op[1])
    elif k == "append_node":
        c.append_node(Node(op[1]))
    elif k == "insert":
        c.insert(op[2], op[1])
    elif k == "remove":
        c.remove(op[1])
    elif k == "remove_by_index":
        c.remove_by_index(op[1])
    elif k == "del":
        del c[op[1]]
    elif k == "replace_node":
        c.replace_node(op[1], Node(op[2]))
    else:
        c[op[1]] = op[2]


def walk(first, step, limit):
    out, x = [], first
    for _ in range(limit):
        out.append(x.data)
        x = getattr(x, step)
        if x is first:
            return out
    return out + ["..."]


def ring(c, m):
    """The list is well formed and holds m; checked on the links before anything that could loop on a broken ring."""
    if c.head is None:
        return not m and c.count == 0
    n = len(m)
    return (
        n > 0
        and walk(c.head, "next", n + 1) == list(m)
        and walk(c.head, "previous", n + 1) == [m[0]] + list(m)[:0:-1]
        and c.count == n
    )


def observe(ctx, c, m, sig):
    ctx.step()
    good = ctx.expect(ring(c, m), f"{sig}: links", lambda: f"count {c.count} next {None if c.head is None else walk(c.head, 'next', len(m) + 2)} previous {None if c.head is None else walk(c.head, 'previous', len(m) + 2)} expected {m}")
    if not good:
        return False
    n = len(m)
    ctx.expect(list(c) == list(m) and len(c) == n and c.size() == n, f"{sig}: iteration", lambda: f"{list(c)} expected {m}")
    ctx.expect([x.data for x in c.iter_nodes()] == list(m), f"{sig}: nodes", "")
    ctx.expect([c[i] for i in range(-n, n)] == [m[i] for i in range(-n, n)] and [c.get_node(i).data for i in range(n)] == list(m), f"{sig}: indexing", lambda: f"{[c[i] for i in range(-n, n)]} expected {m}")
    for v in (1, 2, 5, 6, 7, 8, 9):
        ctx.expect(c.index(v) == (m.index(v) if v in m else None) and (v in c) == (v in m), f"{sig}: index of {v}", lambda: f"{c.index(v)}")
    for i in (n, n + 1, -n - 1):
        try:
            x = c[i]
            ctx.fail(f"{sig}: index {i}", f"gave {x} for a list of {n}")
        except ValueError:
            pass
    if n:
        ctx.expect(repr(c).split("\n")[-1] == " -> ".join(map(str, m)), f"{sig}: text", lambda: repr(c))
    return True


def lists(ctx, start, first, depth):
    frontier = [(first,)]
    seen = set()
    for level in range(1, depth + 1):
        nxt = []
        for h in frontier:
            sig = f"list {list(start)} after {list(h)}"
            with ctx.at(sig):
                c, m = Hooked(list(start)), list(start)
                refused = None
                for j, op in enumerate(h):
                    c.log.clear()
                    want = apply_model(m, op)
                    try:
                        apply_real(c, op)
                        if want is None:
                            refused = f"{op} was accepted"
                    except ValueError as e:
                        if want is not None:
                            refused = f"{op} was refused: {e}"
                    if refused:
                        break
                    m, hooks = want if want is not None else (m, [])
                ctx.step(len(h))
                if refused:
                    ctx.fail(sig, refused)
                    continue
                ctx.expect(c.log == hooks, f"{sig}: hooks", lambda: f"{c.log} expected {hooks}")
                ok = observe(ctx, c, m, sig)
                ctx.trace()
                # the continuation depends on values and links only; both are checked above
                k = (tuple(m), h[-1][0], want is None)
                ctx.state((start, k))
                if ok and level < depth and k not in seen:
                    seen.add(k)
                    nxt += [h + (op,) for op in operations(len(m))]
        frontier = nxt
    ctx.sample(sig)


def creation(ctx):
    for n in range(5):
        for s in itertools.product((1, 2, 5), repeat=n):
            with ctx.at(f"list of {s}"):
                for src in (list(s), tuple(s), iter(s)):
                    observe(ctx, CDLL(src), list(s), f"list of {s}")
                ctx.state(s)
    with ctx.at("empty"):
        observe(ctx, CDLL(), [], "empty list")
        a, b = CDLL([1]), CDLL([2])
        a.append(5)
        observe(ctx, b, [2], "two lists are independent")
    # a node that comes from another place is relinked
    with ctx.at("used node"):
        a = CDLL([1, 2])
        n = a.get_node(1)
        a.remove_by_index(1)
        b = CDLL()
        b.append_node(n)
        observe(ctx, b, [2], "a node removed elsewhere, appended to an empty list")
        a.append_node(Node(5))
        observe(ctx, a, [1, 5], "the list it came from")
    ctx.sample("lists of up to 4 values")


# ------------------------------------------------------------ union-find

def union_find(ctx, n, depth):
    ops = [("u", a, b) for a in range(n) for b in range(n)] + [("f", a) for a in range(n)]
    for k in range(depth + 1):
        for h in itertools.product(ops, repeat=k):
            uf = UnionFind(n)
            m = list(range(n))
            for op in h:
                if op[0] == "u":
                    uf.union(op[1], op[2])
                    a, b = m[op[1]], m[op[2]]
                    m = [a if x == b else x for x in m]
                else:
                    uf.find(op[1])
            ctx.step(k)
            check_partition(ctx, uf, m, f"union-find of {n} after {h}")
        ctx.state(k)
    ctx.trace()
    ctx.sample(f"union-find of {n} after {h}")


def check_partition(ctx, uf, m, sig):
    n = len(m)
    r = [uf.find(i) for i in range(n)]
    if any((r[i] == r[j]) != (m[i] == m[j]) for i in range(n) for j in range(i)):
        ctx.fail(sig, f"representatives {r} expected the partition {m}")
    if any(uf.find(x) != x or m[x] != m[i] for i, x in enumerate(r)):
        ctx.fail(f"{sig}: representative", f"{r}")


def clone(uf):
    new = UnionFind.__new__(UnionFind)
    new.__dict__.update({k: copy.copy(x) for k, x in vars(uf).items()})
    return new


def union_states(ctx, n):
    """Every state of a union-find of n elements reachable by any number of unions and finds."""
    start = UnionFind(n)
    todo = [(start, tuple(range(n)), ())]
    seen = {repr(vars(start))}
    while todo:
        uf, m, h = todo.pop(0)
        for a in range(n):
            for b in range(n):
                new = clone(uf)
                ctx.step()
                if a == b:
                    new.find(a)
                    part = m
                else:
                    new.union(a, b)
                    part = tuple(m[a] if x == m[b] else x for x in m)
                key = repr(vars(new))
                if key in seen:
                    continue
                seen.add(key)
                ctx.state((n, key))
                hist = h + ((a, b) if a != b else (a,),)
                todo.append((new, part, hist))
                probe = clone(new)
                check_partition(ctx, probe, part, f"union-find of {n} after {hist}")
                for x in range(n):
                    probe = clone(new)
                    r = probe.find(x)
                    ctx.expect(part[r] == part[x], f"union-find of {n} after {hist}: find {x}", lambda: f"{r} expected in the class of {x} of {part}")
    ctx.trace()


def graphs(ctx, n):
    edges = list(itertools.combinations(range(n), 2))
    for mask in range(1 << len(edges)):
        es = [e for i, e in enumerate(edges) if mask >> i & 1]
        for order in (es, es[::-1]):
            uf = UnionFind(n)
            m = list(range(n))
            for a, b in order:
                uf.union(b, a)
                x, y = m[a], m[b]
                m = [x if z == y else z for z in m]
            ctx.step(len(es))
            check_partition(ctx, uf, m, f"union-find of {n} after unions {order}")
        ctx.state(mask)
    ctx.trace()


def groups(ctx, size, count, digits):
    alphabet = [t for k in range(1, size + 1) for t in itertools.combinations(range(digits), k)] + [(1, 1), ()]
    for k in range(count + 1):
        for ts in itertools.product(alphabet, repeat=k):
            got = group_tuples(list(ts))
            ctx.step()
            # model: closure by repeated merging
            cl = [(set(t), [i]) for i, t in enumerate(ts)]
            merged = True
            while merged:
                merged = False
                for a, b in itertools.combinations(range(len(cl)), 2):
                    if cl[a][0] & cl[b][0]:
                        cl[a] = (cl[a][0] | cl[b][0], cl[a][1] + cl[b][1])
                        del cl[b]
                        merged = True
                        break
            want = sorted(sorted(ts[i] for i in g) for _, g in cl)
            if sorted(sorted(g) for g in got) != want:
                ctx.fail(f"groups of {list(ts)}", f"{got} expected {want}")
        ctx.state(k)
    ctx.trace()
    ctx.sample(f"groups of {list(ts)}")


def tasks(tier):
    out = [("creation", creation, ())]
    for start in ((), (1,), (1, 2), (1, 2, 1)):
        for op in operations(len(start)):
            out.append((f"list {start} {op}", lists, (start, op, 4 if tier == "quick" else 5)))
    out.append(("union-find 4", union_find, (4, 3 if tier == "quick" else 4)))
    out.append(("union-find 3", union_find, (3, 4 if tier == "quick" else 5)))
    for n in range(1, 7 if tier == "quick" else 8):
        out.append((f"union-find states {n}", union_states, (n,)))
    out.append(("graphs", graphs, (5,)))
    out.append(("groups 2", groups, (2, 3 if tier == "quick" else 4, 4)))
    out.append(("groups 3", groups, (3, 3, 4)))
    return out
