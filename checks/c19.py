"""C19: the sweep line reports every shared point of the segments and nothing else; its containers are ordered maps"""
import random
from fractions import Fraction as F

import numpy as np

from mmcore.numeric.algorithms.sweep_line.point import Point
from mmcore.numeric.algorithms.sweep_line.priority_queue import PriorityQueue
from mmcore.numeric.algorithms.sweep_line.segment import Segment
from mmcore.numeric.algorithms.sweep_line.skiplist import SkipList
from mmcore.numeric.algorithms.sweep_line.sortseq import SortSeq
from mmcore.numeric.algorithms.sweep_line.sweep_intersector import SweepIntersector, find_intersection, polygon_segments

RULE = "one case = one set of segments swept twice and compared with the exact points found by rational arithmetic over all pairs, or one random history on a container compared after every step with a dict or list"
ASSUMPTIONS = [
    "segments that overlap along a stretch are left out (what is then reported is not specified), as are inputs with two distinct special points closer than 1e-6",
    "coordinates are of the size 1 to 3000: the sweep compares points with an absolute tolerance of 1e-10",
]


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def shared(segs):
    """for each segment the exact points strictly inside it that another segment holds; None when two overlap.
    Also how close two distinct special points come."""
    ex = [tuple(tuple(map(F, p)) for p in s) for s in segs]
    out = [set() for _ in segs]
    pts = {p for s in ex for p in s}
    for i, (a, b) in enumerate(ex):
        for j in range(i):
            c, d = ex[j]
            den = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
            if den == 0:
                if cross(a, b, c) == 0 and max(min(a, b), min(c, d)) <= min(max(a, b), max(c, d)):
                    if max(min(a, b), min(c, d)) < min(max(a, b), max(c, d)):
                        return None, 0
                continue
            if cross(c, d, a) * cross(c, d, b) > 0 or cross(a, b, c) * cross(a, b, d) > 0:
                continue
            t = ((c[0] - a[0]) * (d[1] - c[1]) - (c[1] - a[1]) * (d[0] - c[0])) / den
            q = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
            pts.add(q)
            if q not in (a, b):
                out[i].add(q)
            if q not in (c, d):
                out[j].add(q)
    P = np.array(sorted((float(x), float(y)) for x, y in pts))
    gap = min((np.abs(P[1:] - P[:-1]).max(1).min() if len(P) > 1 else 1.0), 1.0)
    # almost touching: an end very close to another segment without lying on it
    for a, b in ex:
        L = float((b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2) ** 0.5
        for p in pts:
            k = cross(a, b, p)
            if k != 0 and min(a, b)[0] - 1 <= p[0] <= max(a, b)[0] + 1:
                gap = min(gap, abs(float(k)) / L)
    return out, gap


def judge(ctx, tag, segs, want, got):
    keys = set(segs)
    ctx.check(tag + ":keys", set(got) <= keys, "a key that is none of the segments")
    bad = 0
    for s, w in zip(segs, want):
        g = np.array(got.get(s, []), float).reshape(-1, 2)
        w = np.array(sorted((float(x), float(y)) for x, y in w)).reshape(-1, 2)
        ok = len(g) == len(w)
        if ok and len(w):
            D = np.abs(g[:, None] - w[None]).max(-1)
            ok = D.min(1).max() < 1e-7 and D.min(0).max() < 1e-7
            d = np.array(s[1], float) - s[0]
            ctx.check(tag + ":order", np.all(np.diff(g @ d) > 0), "the points of %s do not run from its start to its end: %s" % (s, g.tolist()))
        ctx.check(tag + ":points", ok, "%s of %d segments: %s instead of %s" % (s, len(segs), g.tolist()[:6], w.tolist()[:6]))
        bad += not ok
    return bad


def run(ctx, tag, segs):
    want, gap = shared(segs)
    if want is None:
        return ctx.skip("segments overlap")
    if gap < 1e-6:
        return ctx.skip("points too close to each other")
    random.seed(int(ctx.rng.integers(1 << 30)))
    got = find_intersection(list(segs))
    judge(ctx, tag, segs, want, got)
    # the heights of the skip lists and the order of the input are of no consequence
    p = ctx.rng.permutation(len(segs))
    random.seed(int(ctx.rng.integers(1 << 30)))
    again = find_intersection([segs[i] for i in p])
    for s in segs:
        a, b = np.array(got.get(s, []), float).reshape(-1, 2), np.array(again.get(s, []), float).reshape(-1, 2)
        ctx.check(tag + ":repeat", a.shape == b.shape and (len(a) == 0 or np.abs(a - b).max() < 1e-7), "another order or other heights: %s, %s" % (a.tolist()[:5], b.tolist()[:5]))
    full = SweepIntersector().findIntersections(list(segs))
    for s, pts in full.items():
        ctx.check(tag + ":ends", pts[0] == s[0] and pts[-1] == s[1], "the list of %s runs from %s to %s" % (s, pts[0], pts[-1]))
    ctx.observe(tag + ":shared points", sum(len(w) for w in want))
    ctx.state(tag, len(segs), min(30, sum(len(w) for w in want)))


def general(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 5, 10, 25]))
    scale = 10.0 ** rng.uniform(-2, 3)
    o = rng.uniform(-1, 1, 2) * scale * rng.integers(0, 3)
    P = rng.uniform(-1, 1, (n, 2, 2)) * scale + o
    k = rng.integers(4, size=n)
    P[k == 0, 1, 0] = P[k == 0, 0, 0]                     # vertical
    P[k == 1, 1, 1] = P[k == 1, 0, 1]                     # horizontal
    if scale < 1:
        return ctx.skip("smaller than the tolerance of the sweep")
    run(ctx, "general", [tuple(map(tuple, s)) for s in P.tolist()])


def grid(ctx):
    """ends on a grid: many meet in one point, end on others, are vertical"""
    rng = ctx.rng
    n = int(rng.choice([2, 3, 5, 8, 15, 25]))
    w = int(rng.choice([3, 5, 9]))
    f = float(rng.choice([1.0, 0.5, 3.0]))
    segs = set()
    for _ in range(4 * n):
        a, b = [tuple((f * rng.integers(-w, w + 1, 2)).tolist()) for _ in range(2)]
        if a != b and (b, a) not in segs and len(segs) < n:
            segs.add((a, b))
    segs = sorted(segs)
    # drop what overlaps
    keep = []
    for s in segs:
        if shared(keep + [s])[0] is not None:
            keep.append(s)
    run(ctx, "grid", keep)


def polygon(ctx):
    rng = ctx.rng
    n = int(rng.integers(3, 20))
    P = [tuple(p) for p in rng.uniform(-9, 9, (n, 2)).tolist()]
    segs = list(polygon_segments(P))
    ctx.check("polygon:segments", segs == [(P[i], P[(i + 1) % n]) for i in range(n)], "segments of a polygon")
    if rng.integers(2):
        run(ctx, "polygon", segs)
    else:                                                 # a star-shaped, simple one against another
        def star(c):
            a = np.sort(rng.uniform(0, 2 * np.pi, int(rng.integers(4, 12))))
            return [tuple(p) for p in (c + rng.uniform(1, 4, len(a))[:, None] * np.c_[np.cos(a), np.sin(a)]).tolist()]
        run(ctx, "polygons", list(polygon_segments(star(np.zeros(2)))) + list(polygon_segments(star(rng.uniform(-2, 2, 2)))))


def queue(ctx):
    rng = ctx.rng
    q, model = PriorityQueue(), []
    for step in range(int(rng.integers(5, 80))):
        if model and rng.integers(3) == 0:
            n = q.delMin()
            k = min(model)[0]
            ctx.check("queue:delMin", PriorityQueue.prio(n) == k and (k, PriorityQueue.inf(n)) in model, "%r came out, the least is %r" % (n.key, k))
            if (k, n.inf) in model:
                model.remove((k, n.inf))
        else:
            k = int(rng.integers(20))
            n = q.insert(k, step)
            ctx.check("queue:insert", n.key == k and n.inf == step, "the node holds something else")
            model.append((k, step))
        m = q.min()
        ctx.check("queue:min", (m is None) == (not model) and (m is None or m.key == min(model)[0]), "wrong minimum")
        ctx.check("queue:size", q.size() == len(model) and q.empty() == (not model), "wrong size")
    ctx.state(len(model))


def same(ctx, tag, s, model):
    ctx.check(tag + ":contents", list(s.iteritems()) == sorted(model.items()) and list(s) == list(s.iterkeys()) == sorted(model) and
              list(s.itervalues()) == [model[k] for k in sorted(model)], "holds %s, not %s" % (list(s.iteritems())[:9], sorted(model.items())[:9]))
    ctx.check(tag + ":size", len(s) == len(model), "%d items, not %d" % (len(s), len(model)))


def links(ctx, tag, s):
    """every level is a sorted chain from head to tail, and its back links are the same chain"""
    for level in range(len(s.head.succ)):
        node, n, seen = s.head, 0, []
        while node is not s.tail and n < 10000:
            nx = node.succ[level]
            if nx.prev[level] is not node:
                return ctx.check(tag + ":links", False, "the back link of %r on level %d leads elsewhere" % (nx.key, level))
            node = nx
            seen.append(node)
            n += 1
    ctx.check(tag + ":links", True, "")


def skiplist(ctx):
    rng = ctx.rng
    random.seed(int(rng.integers(1 << 30)))
    init = {chr(97 + int(k)): int(k) for k in rng.integers(0, 20, 4)} if rng.integers(2) else {}
    s, model = SkipList(**init), dict(init)
    same(ctx, "skiplist", s, model)
    key = lambda: chr(97 + int(rng.integers(26)))
    for step in range(int(rng.integers(5, 60))):
        k = key()
        if rng.integers(5) < 3:
            s[k] = step
            model[k] = step
        else:
            del s[k]
            model.pop(k, None)
        same(ctx, "skiplist", s, model)
        k = key()
        ctx.check("skiplist:get", s[k] == model.get(k), "%r is %r, not %r" % (k, s[k], model.get(k)))
        links(ctx, "skiplist", s)
    ctx.state(len(model))


def sortseq(ctx):
    rng = ctx.rng
    random.seed(int(rng.integers(1 << 30)))
    s, model = SortSeq(), {}
    for step in range(int(rng.integers(5, 60))):
        k = int(rng.integers(40))
        op = int(rng.integers(6))
        if op < 2 or not model:
            n = s.insert(k, step)
            model[k] = step
            ctx.check("sortseq:insert", SortSeq.key(n) == k and SortSeq.inf(n) == step, "another node")
        elif op == 2:
            s.delete(k)
            model.pop(k, None)
        elif op == 3:
            k = list(model)[int(rng.integers(len(model)))]
            s.delItem(s.lookup(k))
            del model[k]
        elif op == 4:
            n = s.locate(k)
            if n is not s.tail:
                if rng.integers(2) and s.pred(n) is not None and n.key != k:
                    n = s.pred(n)
                m = s.insertAt(n, k, step)
                ctx.check("sortseq:insertAt", m.key == k and m.data == step, "another node")
                model[k] = step
        else:
            n = s.lookup(k)
            if n is not None:
                s.changeInf(n, -step)
                model[k] = -step
        same(ctx, "sortseq", s, model)
        links(ctx, "sortseq", s)
        ks = sorted(model)
        ctx.check("sortseq:empty", s.empty() == (not ks) and (s.min() is None if not ks else s.min().key == ks[0]), "wrong minimum")
        k = int(rng.integers(-2, 42))
        n = s.lookup(k)
        ctx.check("sortseq:lookup", (n is None) == (k not in model) and (n is None or (n.key == k and n.data == model[k])), "lookup of %d" % k)
        up = [x for x in ks if x >= k]
        n = s.locate(k)
        ctx.check("sortseq:locate", (n is s.tail) if not up else n.key == up[0], "locate of %d is %r" % (k, n.key))
        if ks:
            i = int(rng.integers(len(ks)))
            n = s.lookup(ks[i])
            a, b = s.succ(n), s.pred(n)
            ctx.check("sortseq:neighbours", (a is None if i + 1 == len(ks) else a is not None and a.key == ks[i + 1]) and (b is None if i == 0 else b is not None and b.key == ks[i - 1]),
                      "neighbours of %d" % ks[i])
    ks = sorted(model)
    if len(ks) > 2:
        i, j = sorted(rng.choice(len(ks), 2, replace=False).tolist())
        s.reverseItems(s.lookup(ks[i]), s.lookup(ks[j]))
        want = ks[:i] + ks[i:j + 1][::-1] + ks[j + 1:]
        ctx.check("sortseq:reverse", list(s) == want and len(s) == len(want), "%s, not %s" % (list(s), want))
        links(ctx, "sortseq", s)
        back, n = [], s.tail.prev[0]
        while n is not s.head and len(back) < 99:
            back.append(n.key)
            n = n.prev[0]
        ctx.check("sortseq:reverse", back[::-1] == want, "backwards: %s, not %s" % (back[::-1], want))
    ctx.state(len(ks))


def primitives(ctx):
    rng = ctx.rng
    a, b, c, d = [Point(p) for p in rng.integers(-4, 5, (4, 2)).astype(float).tolist()]
    ctx.check("point:order", (a < b) == (tuple(a) < tuple(b)) and (a > b) == (tuple(a) > tuple(b)) and (a == b) == (tuple(a) == tuple(b)) and (a <= b) == (tuple(a) <= tuple(b)) and
              (a >= b) == (tuple(a) >= tuple(b)), "%s and %s" % (a, b))
    if tuple(a) == tuple(b) or tuple(c) == tuple(d):
        return
    s, t = Segment(a, b), Segment(c, d)
    k = cross(tuple(a), tuple(b), tuple(c))
    ctx.check("segment:orientation", Segment.orientation(s, c) == np.sign(k), "orientation %r, cross %r" % (Segment.orientation(s, c), k))
    q = s.intersectionOfLines(t)
    den = (b.x - a.x) * (d.y - c.y) - (b.y - a.y) * (d.x - c.x)
    ctx.check("segment:parallel", (q is None) == (den == 0), "%r for a determinant %r" % (q, den))
    if q is not None and den:
        ctx.check("segment:lines", abs(cross(tuple(a), tuple(b), tuple(q))) < 1e-9 and abs(cross(tuple(c), tuple(d), tuple(q))) < 1e-9, "%r is not on both lines" % q)
    ctx.check("segment:ends", s.start() is a and s.end() is b and not s.isTrivial() and Segment(a, a).isTrivial(), "ends")
    ctx.state(k > 0, den > 0)


SCENARIOS = {
    "general": (general, 150, 6000),
    "grid": (grid, 250, 10000),
    "polygon": (polygon, 150, 6000),
    "queue": (queue, 80, 3000),
    "skiplist": (skiplist, 80, 3000),
    "sortseq": (sortseq, 120, 5000),
    "primitives": (primitives, 400, 10000),
}
