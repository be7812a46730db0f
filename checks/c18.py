"""C18: containers behave as the abstract sequence, map, set or point set they stand for, after any history."""
import math

import numpy as np

from mmcore.ds.bkdtree import BalancedKDTree
from mmcore.ds.cdll import CDLL
from mmcore.ds.cdll.node import Node
from mmcore.ds.tree.avl import AVL
from mmcore.ds.tree.rtree import Box, Rectangle, RStarTree
from mmcore.ds.union_find import UnionFind, group_tuples

RULE = "one case = one random history of operations on one container, each followed by a comparison of its whole contents and structural invariants with a plain list, dict or set"
ASSUMPTIONS = [
    "AVL keys are comparable with <, > and ==; assigning to a key that is present replaces its data",
    "the k-d tree is a multiset of equal-length tuples; neighbours at equal distance may come in any order",
]


# ---- AVL -------------------------------------------------------------------
def avl_shape(ctx, t, what):
    """heights, balance, order"""
    def rec(t, lo, hi):
        if t.node is None:
            ctx.check("avl:height", t.height == -1 and t.balance == 0, "%s: empty subtree has height %r" % (what, t.height))
            return -1, 0
        k = t.node.key
        ctx.check("avl:order", (lo is None or lo < k) and (hi is None or k < hi), "%s: key %r outside (%r, %r)" % (what, k, lo, hi))
        a, na = rec(t.node.left, lo, k)
        b, nb = rec(t.node.right, k, hi)
        ctx.check("avl:balance", abs(a - b) <= 1, "%s: subtrees of %r have heights %d and %d" % (what, k, a, b))
        ctx.check("avl:height", t.height == 1 + max(a, b), "%s: recorded height %r at %r, is %d" % (what, t.height, k, 1 + max(a, b)))
        return 1 + max(a, b), na + nb + 1
    return rec(t, None, None)


def avl(ctx):
    rng = ctx.rng
    t, m = AVL(), {}
    n = int(rng.choice([8, 20, 60]))
    span = int(rng.choice([6, 15, 60]))
    fl = rng.integers(2)
    hist = []
    for step in range(n):
        k = int(rng.integers(-span, span + 1))
        if fl:
            k = k / 4.0
        op = str(rng.choice(["insert", "insert", "set", "delete", "del", "append"]))
        d = "d%d" % step
        hist.append((op, k))
        if op == "insert":
            t.insert(k, d)
            m[k] = d
        elif op == "set":
            t[k] = d
            m[k] = d
        elif op == "append":
            before = set(m)
            t.append(d)
            new = [x.key for x in t.inorder_traverse() if x.key not in before]
            ctx.check("avl:append", len(new) == 1 and all(new[0] > x for x in before), "append after %r added keys %r" % (sorted(before), new))
            if len(new) != 1:
                return
            m[new[0]] = d
        else:
            if m and rng.integers(3):
                k = list(m)[int(rng.integers(len(m)))]
            if op == "delete":
                t.delete(k)
            else:
                del t[k]
            m.pop(k, None)
        what = "after %r" % (hist[-8:],)
        got = [(x.key, x.data) for x in t.inorder_traverse()]
        ctx.check("avl:contents", got == sorted(m.items()), "%s: %r, expected %r" % (what, got, sorted(m.items())))
        h, cnt = avl_shape(ctx, t, what)
        ctx.check("avl:height bound", h <= 1.45 * math.log2(cnt + 2), "%s: height %d for %d keys" % (what, h, cnt))
        q = int(rng.integers(-span, span + 1))
        if fl:
            q = q / 4.0
        s = t.search(q)
        ctx.check("avl:search", (s is None) == (q not in m) and (s is None or (s.key == q and s.data == m[q])), "%s: search(%r) gave %r" % (what, q, s))
        if m:
            q = list(m)[int(rng.integers(len(m)))]
            ctx.check("avl:getitem", t[q] == m[q], "%s: [%r] gave %r, expected %r" % (what, q, t[q], m[q]))
        if ctx.violations:
            return
        ctx.state("avl", h, cnt, op)


# ---- circular list -----------------------------------------------------------
class Hooked(CDLL):
    def __init__(self, *a):
        self.log = []
        super().__init__(*a)

    def insert_hook(self, node):
        self.log.append(("+", node.data))

    def remove_hook(self, node):
        self.log.append(("-", node.data))


def ring(ctx, c, want, what):
    ctx.check("ring:len", len(c) == c.size() == len(want), "%s: length %d, expected %d" % (what, len(c), len(want)))
    got = []
    for x in c:
        got.append(x)
        if len(got) > len(want) + 2:
            break
    ctx.check("ring:order", got == want, "%s: %r, expected %r" % (what, got, want))
    if c.head is None:
        ctx.check("ring:empty", not want, "%s: empty, expected %r" % (what, want))
        return
    if not want:
        ctx.check("ring:empty", False, "%s: head is %r although the list is empty" % (what, c.head))
        return
    n, back = c.head, []
    for _ in range(len(want)):
        back.append(n.data)
        n = n.previous
    ctx.check("ring:backward", back == [want[0]] + want[:0:-1] and n is c.head, "%s: backwards %r of %r" % (what, back, want))
    ctx.check("ring:nodes", [x.data for x in c.iter_nodes()] == want, "%s: iter_nodes" % what)


def cdll(ctx):
    rng = ctx.rng
    init = [int(x) for x in rng.integers(0, 6, int(rng.integers(0, 5)))]
    c = Hooked(init if init or rng.integers(2) else None)
    m = list(init)
    log = [("+", x) for x in init]
    hist = [("init", init)]
    ring(ctx, c, m, "%r" % hist)
    for step in range(int(rng.choice([6, 14, 30]))):
        op = str(rng.choice(["append", "insert", "insert", "remove", "remove_by_index", "del", "set", "append_node", "replace", "bad", "get"]))
        v = int(rng.integers(0, 6))
        n = len(m)
        i = int(rng.integers(n)) if n else 0
        hist.append((op, i, v))
        what = "%r" % (hist[-6:],)
        if op == "append":
            c.append(v)
            m.append(v)
            log.append(("+", v))
        elif op == "insert":
            i = int(rng.choice([0, n, rng.integers(0, n + 1)]))
            hist[-1] = (op, i, v)
            c.insert(v, i)
            m.insert(i, v)
            log.append(("+", v))
        elif op == "append_node":
            c.append_node(Node(v))
            m.append(v)
            log.append(("+", v))
        elif op == "remove":
            if v in m:
                c.remove(v)
                m.remove(v)
                log.append(("-", v))
            else:
                ctx.raises("ring:missing", ValueError, c.remove, v)
        elif op in ("remove_by_index", "del") and n:
            if op == "del":
                del c[i]
            else:
                c.remove_by_index(i)
            log.append(("-", m.pop(i)))
        elif op == "set" and n:
            c[i] = v
            m[i] = v
        elif op == "replace" and n:
            node = Node(v)
            c.replace_node(i, node)
            m[i] = v
            ctx.check("ring:replace", c.get_node(i) is node, "%s: replace_node kept another node" % what)
        elif op == "bad":
            for j in (n, n + 3, -1):
                ctx.raises("ring:range", ValueError, c.remove_by_index, j)
                ctx.raises("ring:range", ValueError, c.get_node, j)
                if j != n:
                    ctx.raises("ring:range", ValueError, c.insert, v, j)
            ctx.raises("ring:range", ValueError, c.get, n)
            ctx.raises("ring:range", ValueError, c.get, -n - 1)
        elif op == "get" and n:
            ctx.check("ring:get", c[i] == m[i] and c.get(i - n) == m[i] and c.get_node(i).data == m[i], "%s: get(%d)" % (what, i))
        ctx.check("ring:index", c.index(v) == (m.index(v) if v in m else None) and (v in c) == (v in m), "%s: index(%r) of %r" % (what, v, m))
        ring(ctx, c, m, what)
        ctx.check("ring:hooks", c.log == log, "%s: hooks saw %r, expected %r" % (what, c.log[-3:], log[-3:]))
        if ctx.violations:
            return
        ctx.state("cdll", op, min(len(m), 4), i == 0)


# ---- union find ----------------------------------------------------------------
def union_find(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 5, 12, 40]))
    uf = UnionFind(n)
    comp = list(range(n))
    for _ in range(int(rng.integers(0, 2 * n))):
        a, b = int(rng.integers(n)), int(rng.integers(n))
        uf.union(a, b)
        old, new = comp[a], comp[b]
        comp = [new if x == old else x for x in comp]
        a, b = int(rng.integers(n)), int(rng.integers(n))
        ctx.check("union-find:same", (uf.find(a) == uf.find(b)) == (comp[a] == comp[b]), "find(%d)==find(%d)" % (a, b))
    roots = {}
    for x in range(n):
        roots.setdefault(uf.find(x), set()).add(x)
    want = {}
    for x in range(n):
        want.setdefault(comp[x], set()).add(x)
    ctx.check("union-find:partition", sorted(map(sorted, roots.values())) == sorted(map(sorted, want.values())), "partition %r, expected %r" % (list(roots.values()), list(want.values())))
    ctx.check("union-find:root", all(uf.find(r) == r and r in roots[r] for r in roots), "a representative is not its own root")
    ctx.state("uf", n, len(want))


def groups(ctx):
    rng = ctx.rng
    n = int(rng.choice([0, 1, 4, 9, 20]))
    sp = int(rng.choice([4, 12, 30, 80]))
    T = [tuple(int(x) for x in rng.integers(0, sp, int(rng.integers(0, 4)))) for _ in range(n)]
    got = group_tuples(list(T))
    # closure by repeated merging
    parts = [[i] for i in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(len(parts)):
            for j in range(i + 1, len(parts)):
                if any(set(T[a]) & set(T[b]) for a in parts[i] for b in parts[j]):
                    parts[i] = sorted(parts[i] + parts[j])
                    del parts[j]
                    ch = True
                    break
            if ch:
                break
    want = sorted(sorted(T[i] for i in p) for p in parts)
    ctx.check("groups", sorted(sorted(g) for g in got) == want, "group_tuples(%r) = %r, expected %r" % (T, got, want))
    ctx.state("groups", n, len(want))


# ---- R* tree --------------------------------------------------------------------
def rtree(ctx):
    rng = ctx.rng
    dim = int(rng.integers(2, 4))
    n = int(rng.choice([0, 3, 6, 20, 60]))
    mc = int(rng.choice([4, 4, 6, 8]))
    t = RStarTree(mc, int(rng.choice([2, 2, mc // 2])))
    mk = Rectangle if dim == 2 else Box
    R = []

    def rect():
        lo = rng.integers(-8, 9, dim).astype(float)
        ex = rng.integers(0, 4, dim) * float(rng.choice([1, 0.5]))
        return lo, lo + ex

    def hit(a, b):
        return bool(np.all(a[0] <= b[1]) and np.all(b[0] <= a[1]))
    for i in range(n):
        a = rect()
        o = mk(*a[0], *a[1])
        R.append((a, o))
        t.insert(o)
        if i % 5 == 4 or i == n - 1:
            # structure
            seen = []

            def rec(node, depth):
                if node is not t.root:
                    for c in node.children:
                        ok = all(getattr(node.mbr, "min" + x) <= getattr(c.mbr, "min" + x) and getattr(node.mbr, "max" + x) >= getattr(c.mbr, "max" + x) for x in "xyz"[:dim])
                        ctx.check("rtree:mbr", ok, "a node's box does not contain its child's after %d insertions" % (i + 1))
                ctx.check("rtree:fanout", len(node.children) <= mc, "a node has %d children (at most %d)" % (len(node.children), mc))
                if node.is_leaf:
                    seen.extend(c.mbr for c in node.children)
                    return depth
                ds = {rec(c, depth + 1) for c in node.children}
                ctx.check("rtree:depth", len(ds) == 1, "leaves at depths %r" % ds)
                return max(ds)
            rec(t.root, 0)
            ctx.check("rtree:contents", sorted(map(id, seen)) == sorted(id(o) for _, o in R), "%d entries stored, %d inserted" % (len(seen), len(R)))
            for _ in range(4):
                q = rect()
                got = t.search(mk(*q[0], *q[1]))
                want = [o for a, o in R if hit(a, q)]
                ctx.check("rtree:search", sorted(map(id, got)) == sorted(map(id, want)), "search in %d boxes found %d, expected %d" % (len(R), len(got), len(want)))
        if ctx.violations:
            return
    ctx.state("rtree", dim, n, mc, t.root.is_leaf)


# ---- k-d tree ------------------------------------------------------------------
def kd_points(node):
    return [] if node is None else kd_points(node.left) + [node.point] + kd_points(node.right)


def kd_shape(ctx, node, depth, k, what):
    if node is None:
        return 0
    a, b = kd_shape(ctx, node.left, depth + 1, k, what), kd_shape(ctx, node.right, depth + 1, k, what)
    ctx.check("kd:size", node.size == a + b + 1, "%s: recorded size %r, is %d" % (what, node.size, a + b + 1))
    ax = node.axis
    ctx.check("kd:sides", all(p[ax] <= node.point[ax] for p in kd_points(node.left)) and all(p[ax] >= node.point[ax] for p in kd_points(node.right)),
              "%s: a point is on the wrong side of %r (axis %d)" % (what, node.point, ax))
    return a + b + 1


def kdtree(ctx):
    rng = ctx.rng
    k = int(rng.integers(1, 4))
    lat = int(rng.integers(3))

    def pt():
        if lat == 2:
            return tuple(float(x) for x in rng.normal(size=k))
        return tuple(float(x) for x in rng.integers(0, 4 if lat else 12, k))
    P = [pt() for _ in range(int(rng.choice([0, 1, 4, 10, 30])))]
    t = BalancedKDTree(list(P) if P or rng.integers(2) else None)
    d2 = lambda a, b: sum((x - y) ** 2 for x, y in zip(a, b))
    hist = [("init", len(P))]
    for step in range(int(rng.choice([4, 12, 30]))):
        op = str(rng.choice(["insert", "insert", "delete", "delete missing"]))
        p = pt()
        if op == "insert":
            t.insert(p)
            P.append(p)
        elif op == "delete" and P:
            p = P[int(rng.integers(len(P)))]
            t.delete(p)
            P.remove(p)
        elif op == "delete missing":
            t.delete(p)
            if p in P:
                P.remove(p)
        hist.append((op, p))
        what = "%r" % (hist[-4:],)
        ctx.check("kd:contents", sorted(kd_points(t.root)) == sorted(P), "%s: holds %d points, expected %d" % (what, len(kd_points(t.root)), len(P)))
        kd_shape(ctx, t.root, 0, k, what)
        q = pt() if rng.integers(2) else tuple(x + 0.5 for x in pt())
        got = t.nearest_neighbor(q)
        if not P:
            ctx.check("kd:empty", got is None and t.k_nearest_neighbors(q, 3) == [], "%s: empty tree answered %r" % (what, got))
        else:
            best = min(d2(q, x) for x in P)
            ctx.check("kd:nearest", got in P and d2(q, got) == best, "%s: nearest to %r is %r at %r, expected distance %r" % (what, q, got, got and d2(q, got), best))
            kk = int(rng.choice([0, 1, 2, 3, 5, len(P), len(P) + 2]))
            got = t.k_nearest_neighbors(q, kk)
            want = sorted(d2(q, x) for x in P)[:kk]
            ctx.check("kd:k nearest", [d2(q, x) for x in got] == want, "%s: %d nearest to %r are at %r, expected %r" % (what, kk, q, [d2(q, x) for x in got], want))
            rest = list(P)
            ok = True
            for x in got:
                if x in rest:
                    rest.remove(x)
                else:
                    ok = False
            ctx.check("kd:k nearest members", ok, "%s: neighbours %r are not members" % (what, got))
        if ctx.violations:
            return
        ctx.state("kd", k, op, min(len(P), 6))


SCENARIOS = {
    "avl": (avl, 150, 6000),
    "cdll": (cdll, 300, 15000),
    "union_find": (union_find, 100, 5000),
    "groups": (groups, 150, 8000),
    "rtree": (rtree, 120, 4000),
    "kdtree": (kdtree, 200, 8000),
}
