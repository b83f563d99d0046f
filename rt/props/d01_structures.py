"""D01 heaps, D02 union-find, D03 bit sieves, X02 memoization."""
import heapq
from collections import Counter

from rt.core import unit

from rosemary.data_structures import bit_sieve as BS
from rosemary.data_structures import heaps as H
from rosemary.data_structures import unionfind as UF
from rosemary import utilities as UT


# ------------------------------------------------------------------------------------- D01
def leftist_ok(ctx, h, n):
    """Representation monitor: heap order and leftist rank (iterative), when the tree is visible."""
    root = getattr(h, "root", None)
    if root is None or not hasattr(root, "left") or not hasattr(root, "right"):
        return
    order, stack = [], [root]
    while stack:
        x = stack.pop()
        order.append(x)
        for c in (x.left, x.right):
            if c is not None:
                ctx.check(not c.value < x.value, "leftist heap: a child is smaller than its parent", x.value, c.value)
                stack.append(c)
    ctx.eq(len(order), n, "leftist heap: number of reachable nodes")
    npl = {}
    for x in reversed(order):
        l = npl[id(x.left)] if x.left is not None else -1
        rr = npl[id(x.right)] if x.right is not None else -1
        ctx.check(l >= rr, "leftist heap: a right subtree is deeper (null path) than the left one", n)
        npl[id(x)] = min(l, rr) + 1


def values(r, k, kind):
    if kind == "int":
        return [r.randint(-50, 50) for _ in range(k)]
    if kind == "dups":
        return [r.randint(0, 3) for _ in range(k)]
    if kind == "sorted":
        return list(range(k))
    if kind == "rev":
        return list(range(k, 0, -1))
    if kind == "float":
        return [r.random() for _ in range(k)]
    return [(r.randint(0, 4), r.randint(0, 4)) for _ in range(k)]


VK = ("int", "dups", "sorted", "rev", "float", "tuple")


@unit("D01", shards=3)
def leftist_heap(ctx):
    r = ctx.rng
    for case in range(ctx.n(400)):
        kind = r.choice(VK)
        start = values(r, r.choice((0, 1, 1, 2, 3, 5, 17, 60)), kind)
        h = ctx.call("LeftistHeap", H.LeftistHeap, start)
        model = sorted(start)
        ctx.eq(len(h), len(model), "len after construction")
        leftist_ok(ctx, h, len(model))
        for _ in range(r.randint(0, 90)):
            op = r.random()
            if op < .4:
                v = values(r, 1, kind)[0] if kind not in ("sorted", "rev") else r.randint(-5, 70)
                ctx.call("insert", h.insert, v, _mutates=True)
                model.append(v)
                model.sort()
            elif op < .75:
                got = ctx.call("delete_min", h.delete_min, _mutates=True)
                if model:
                    ctx.eq(got, model.pop(0), "delete_min")
                else:
                    ctx.eq(got, None, "delete_min of an empty heap")
            elif op < .9:
                other = values(r, r.randint(0, 12), kind)
                if not other and r.random() < .8:
                    continue
                oh = ctx.call("LeftistHeap", H.LeftistHeap, other)
                ctx.call("merge", h.merge, oh, _mutates=True)
                model = sorted(model + other)
            elif model:
                ctx.eq(ctx.call("find_min", h.find_min), model[0], "find_min")
            ctx.eq(len(h), len(model), "len")
            if r.random() < .15:
                leftist_ok(ctx, h, len(model))
            if model:
                ctx.eq(h.find_min(), model[0], "find_min after an operation")
        leftist_ok(ctx, h, len(model))
        ctx.eq(ctx.call("iterate", list, h, _mutates=True), model, "iteration drains in sorted order")
        ctx.eq(len(h), 0, "len after draining")
    # deep heaps: monotone insertions (a degenerate merge path would exceed the recursion limit)
    n = ctx.n(30000, 120000)
    for seq in (range(n), range(n, 0, -1)):
        h = H.LeftistHeap([0])

        def fill(h, seq):
            for v in seq:
                h.insert(v)
        ctx.call("insert many", fill, h, seq, _mutates=True)
        out = ctx.call("drain many", list, h, _mutates=True)
        ctx.check(out == sorted([0] + list(seq)), "drain of %d monotone insertions is not sorted" % n)


@unit("D01", shards=3)
def pairing_heap(ctx):
    r = ctx.rng
    for case in range(ctx.n(500)):
        h = ctx.call("PairingHeap", H.PairingHeap)
        model = {}                  # value -> key
        nxt = 0
        keys = r.choice((3, 20, 1000))
        if r.random() < .4:
            init = [(r.randint(-keys, keys), i) for i in range(r.randint(0, 30))]
            ctx.call("insert_values", h.insert_values, init)
            model = {v: k for k, v in init}
            nxt = len(init)
        seen = []
        bias = r.random()
        for _ in range(r.randint(1, 150)):
            op = r.random()
            if op < .2 + .3 * bias:
                k = r.randint(-keys, keys)
                v = nxt if r.random() < .7 else "v%d" % nxt
                nxt += 1
                ctx.call("insert", h.insert, k, v)
                model[v] = k
            elif op < .75:
                if model:
                    v = r.choice(sorted(model, key=str))
                    k = model[v] - r.choice((0, 1, 1, r.randint(0, 2 * keys)))
                    ctx.call("decrease_key", h.decrease_key, v, k)
                    model[v] = k
            else:
                node = ctx.call("delete_min", h.delete_min)
                if not model:
                    ctx.check(node is None, "delete_min of an empty heap")
                else:
                    m = min(model.values())
                    ctx.check(node is not None and node.value in model and model[node.value] == node.key == m,
                              "delete_min returned (%r, %r), the least key is %r" % (getattr(node, "key", None), getattr(node, "value", None), m))
                    del model[node.value]
                    # re-insertion of a removed value
                    if r.random() < .1:
                        ctx.call("insert", h.insert, node.key, node.value)
                        model[node.value] = node.key
            if r.random() < .1:
                ctx.eq(sorted(ctx.call("list_elements", h.list_elements), key=str), sorted(((k, v) for v, k in model.items()), key=str), "list_elements")
        last = None
        while model:
            node = ctx.call("delete_min", h.delete_min)
            ctx.check(node is not None and model.get(node.value) == node.key, "drain: wrong node", model)
            ctx.check(last is None or node.key >= last, "drain: keys are not in order", last, node.key)
            last = node.key
            del model[node.value]
        ctx.check(ctx.call("delete_min", h.delete_min) is None, "heap not empty after draining")


class Recorder:
    """Class-level monitor: wraps the public methods of the heap classes while client algorithms run."""

    def __init__(self, ctx):
        self.ctx, self.saved, self.models, self.events = ctx, [], {}, Counter()

    def patch(self, cls, name, make):
        orig = cls.__dict__[name]
        self.saved.append((cls, name, orig))
        setattr(cls, name, make(orig))

    def __enter__(self):
        ctx, models, ev = self.ctx, self.models, self.events

        def p_insert(orig):
            def insert(h, key, value):
                models.setdefault(id(h), (h, {}))[1][value] = key
                ev["insert"] += 1
                return orig(h, key, value)
            return insert

        def p_dec(orig):
            def decrease_key(h, value, key):
                m = models.setdefault(id(h), (h, {}))[1]
                ev["decrease_key"] += 1
                ctx.check(value in m, "client decreases a key that is not in the heap", value)
                ctx.check(key <= m[value], "client 'decreases' a key upwards", value, m[value], key)
                m[value] = key
                return orig(h, value, key)
            return decrease_key

        def p_del(orig):
            def delete_min(h):
                m = models.setdefault(id(h), (h, {}))[1]
                ev["delete_min"] += 1
                node = orig(h)
                if not m:
                    ctx.check(node is None, "delete_min of an empty heap returned a node")
                else:
                    ctx.check(node is not None and m.get(node.value) == node.key == min(m.values()), "pairing heap under a client: delete_min is not the minimum", m)
                    del m[node.value]
                return node
            return delete_min
        self.patch(H.PairingHeap, "insert", p_insert)
        self.patch(H.PairingHeap, "decrease_key", p_dec)
        self.patch(H.PairingHeap, "delete_min", p_del)

        def l_init(orig):
            def __init__(h, vals):
                vals = list(vals)
                orig(h, vals)
                models[id(h)] = (h, sorted(vals))
                ev["LeftistHeap"] += 1
            return __init__

        def l_del(orig):
            def delete_min(h):
                m = models[id(h)][1]
                v = orig(h)
                ev["l_delete_min"] += 1
                w = m.pop(0) if m else None
                ctx.check(v == w or (v is not None and w is not None and not v < w and not w < v), "leftist heap under a client: delete_min is not the minimum", v, w)
                return v
            return delete_min

        def l_merge(orig):
            def merge(h, o):
                a, b = models[id(h)][1], models[id(o)][1]
                ev["l_merge"] += 1
                orig(h, o)
                a[:] = list(heapq.merge(a, b))
                ctx.eq(len(h), len(a), "leftist heap under a client: size after merge")
            return merge
        self.patch(H.LeftistHeap, "__init__", l_init)
        self.patch(H.LeftistHeap, "delete_min", l_del)
        self.patch(H.LeftistHeap, "merge", l_merge)
        return self

    def __exit__(self, *a):
        for cls, name, orig in self.saved:
            setattr(cls, name, orig)


@unit("D01")
def heaps_under_clients(ctx):
    """The heap classes observed from inside Dijkstra, Prim and Cheriton-Tarjan runs."""
    from rosemary.graphs.graphs import Graph
    from rosemary.graphs.algorithms import paths, spanning_trees
    r = ctx.rng
    total = Counter()
    for _ in range(ctx.n(60)):
        n = r.randint(2, 40)
        g = Graph()
        order = list(range(n))
        r.shuffle(order)
        for i in range(1, n):
            g.add_edge(order[i], r.choice(order[:i]), r.randint(1, 20))
        for _ in range(r.randint(0, 4 * n)):
            u, v = r.sample(range(n), 2)
            g.add_edge(u, v, r.randint(1, 20))
        with Recorder(ctx) as rec:
            for name, fn, args in (("dijkstra_pairing_heap", getattr(paths, "dijkstra_pairing_heap", None), (g, 0)),
                                   ("cheriton_tarjan", getattr(spanning_trees, "cheriton_tarjan", None), (g,))):
                if fn is not None:
                    ctx.call(name, fn, *args)
            total.update(rec.events)
    for k, v in total.items():
        ctx.count("event:" + k, v)


# ------------------------------------------------------------------------------------- D02
class Model:
    def __init__(self, xs):
        self.c = {x: frozenset([x]) for x in xs}

    def join(self, a, b):
        s = self.c[a] | self.c[b]
        for x in s:
            self.c[x] = s


def elements(r, n):
    k = r.randrange(4)
    if k == 0:
        return list(range(n))
    if k == 1:
        return ["n%d" % i for i in range(n)]
    if k == 2:
        return [(i % 5, i) for i in range(n)]
    return [i * 7 - 20 for i in range(n)]


@unit("D02", shards=2)
def union_find(ctx):
    r = ctx.rng
    for _ in range(ctx.n(300)):
        n = r.choice((1, 2, 3, 8, 30, 80))
        xs = elements(r, n)
        u = ctx.call("UnionFind", UF.UnionFind, xs)
        m = Model(xs)
        style = r.randrange(3)
        for step in range(r.randint(1, 3 * n)):
            if style == 0:
                a, b = r.choice(xs), r.choice(xs)
            elif style == 1:
                a, b = xs[step % n], xs[(step + 1) % n]         # chain
            else:
                a, b = xs[0], r.choice(xs)                      # star
            fa, fb = ctx.call("find", u.find, a), ctx.call("find", u.find, b)
            ctx.check((fa == fb) == (b in m.c[a]), "find(%r) == find(%r) is %s" % (a, b, fa == fb), m.c[a])
            ctx.check(fa in m.c[a], "the name of a set is not one of its elements", a, fa)
            if r.random() < .7 and fa != fb:
                ctx.call("union", u.union, fa, fb)
                m.join(a, b)
            elif fa == fb and r.random() < .1:
                ctx.call("union", u.union, fa, fb)          # a set with itself
            if r.random() < .15:
                names = {}
                for x in xs:
                    names.setdefault(ctx.call("find", u.find, x), set()).add(x)
                ctx.eq({frozenset(s) for s in names.values()}, set(m.c.values()), "the classes after a history of unions")
        names = {}
        for x in xs:
            names.setdefault(ctx.call("find", u.find, x), set()).add(x)
        ctx.eq({frozenset(s) for s in names.values()}, set(m.c.values()), "the classes at the end")


@unit("D02", shards=2)
def named_union_find(ctx):
    r = ctx.rng
    for _ in range(ctx.n(300)):
        n = r.choice((2, 3, 8, 30, 60))
        xs = elements(r, n)
        u = ctx.call("NamedUnionFind", UF.NamedUnionFind, xs)
        m = Model(xs)
        name = {x: x for x in xs}
        fresh = 0
        for _ in range(r.randint(1, 2 * n)):
            a, b = r.choice(xs), r.choice(xs)
            fa, fb = ctx.call("find", u.find, a), ctx.call("find", u.find, b)
            ctx.eq((fa, fb), (name[a], name[b]), "find(%r), find(%r)" % (a, b))
            if fa != fb:
                c = r.randrange(4)
                if c == 0:
                    w = fa
                elif c == 1:
                    w = fb
                else:
                    fresh += 1
                    w = "name%d" % fresh
                ctx.call("union", u.union, fa, fb, w)
                m.join(a, b)
                for x in m.c[a]:
                    name[x] = w
            if r.random() < .2:
                for x in xs:
                    ctx.eq(ctx.call("find", u.find, x), name[x], "find(%r)" % (x,))
        for x in xs:
            ctx.eq(ctx.call("find", u.find, x), name[x], "find(%r)" % (x,))
    # a final union under a name that was never used before
    u = UF.NamedUnionFind([1, 2, 3])
    ctx.call("union", u.union, 1, 2, "new")
    ctx.eq([ctx.call("find", u.find, x) for x in (1, 2, 3)], ["new", "new", 3], "a fresh name")
    ctx.call("union", u.union, 3, "new", 3)
    ctx.eq([ctx.call("find", u.find, x) for x in (1, 2, 3)], [3, 3, 3], "union with the fresh name")


# ------------------------------------------------------------------------------------- D03
@unit("D03", shards=2)
def bit_sieves(ctx):
    r = ctx.rng
    sizes = list(range(1, 70)) + [127, 128, 129, 255, 256, 257, 500, 1000, 1024, 2047, 2048, 4100]
    for n in sizes:
        for cls, off in ((BS.BITSieve, 0), (BS.BITSieveArray, 1)):
            if (n + off) % 2 != ctx.shard:
                continue
            for rep in range(ctx.n(6, 20)):
                s = ctx.call(cls.__name__, cls, n)
                model = [0] + [1] * n
                ops = [2, 3, 5, 7, 11, 13] if rep == 0 else [r.randint(1, n + 3) for _ in range(r.randint(0, 6))]
                if rep == 1:
                    ops = [2, 2, 4, 6, 3]
                for k, p in enumerate([None] + ops):
                    if p is not None:
                        ctx.call("mark_multiples", s.mark_multiples, p, _mutates=True)
                        for i in range(p, n + 1, p):
                            model[i] = 0
                    e = list(ctx.call("entries", s.entries))
                    ctx.eq(e[off:], model[1:], "%s(%d) entries after %s" % (cls.__name__, n, ops[:k]))
                    pre = 0
                    for m in range(0, n + 1):
                        pre += model[m]
                        if n < 70 or r.random() < .1 or m == n:
                            ctx.eq(ctx.call("partial_sum", s.partial_sum, m), pre, "%s(%d).partial_sum(%d) after %s" % (cls.__name__, n, m, ops[:k]))
                    if off == 0 and r.random() < .2:
                        ctx.call("update", s.update, _mutates=True)
                        ctx.eq(ctx.call("partial_sum", s.partial_sum, n), pre, "partial_sum after update()")
                # counts follow entries that were written directly once update() has run
                A = getattr(s, "A", None)
                if off == 0 and isinstance(A, dict) and [A.get((0, i)) for i in range(1, n + 1)] == model[1:]:
                    for i in r.sample(range(1, n + 1), min(n, r.randint(1, 5))):
                        A[0, i] = model[i] = 1 - model[i]
                    ctx.call("update", s.update, _mutates=True)
                    pre = 0
                    for m in range(1, n + 1):
                        pre += model[m]
                        if n < 70 or r.random() < .1 or m == n:
                            ctx.eq(ctx.call("partial_sum", s.partial_sum, m), pre, "partial_sum(%d) of %d after direct writes and update()" % (m, n))


# ------------------------------------------------------------------------------------- X02
@unit("X02")
def memoization(ctx):
    r = ctx.rng
    for _ in range(ctx.n(150)):
        calls = Counter()
        bad = r.randint(0, 9)

        def f(*a):
            """doc of f"""
            calls[a] += 1
            if a and a[0] == bad:
                raise KeyError(a)
            return (a, len(a), sum(hash(x) for x in a), None)
        g = ctx.call("cached_function", UT.cached_function, f)
        ctx.check(g.__name__ == "f" and g.__doc__ == f.__doc__, "the wrapper lost the name or documentation")
        ref = {}
        for _ in range(r.randint(1, 80)):
            a = tuple(r.choice((r.randint(0, 9), (1, 2), "x", None, -1, 2**70)) for _ in range(r.randint(0, 3)))
            o, v = ctx.outcome("cached call", g, *a)
            if a and a[0] == bad:
                ctx.check(o == "raise" and isinstance(v, KeyError), "the exception of the function was lost", a, v)
            else:
                ctx.eq((o, v), ("ok", (a, len(a), sum(hash(x) for x in a), None)), "cached value of %r" % (a,))
                ref.setdefault(a, v)
                ctx.check(v is ref[a], "a later call returned another object than the first", a)
                ctx.eq(calls[a], 1, "calls of the function for %r" % (a,))
    # different arguments with equal hashes, equal representations or equal concatenations stay apart
    P = 2**61 - 1
    class Twin:
        def __init__(self, tag):
            self.tag = tag
        def __hash__(self):
            return 7
        def __repr__(self):
            return "twin"
    twins = [Twin(i) for i in range(4)]
    rivals = [(-1,), (-2,), (0,), (P,), (2 * P,), (-P,), (1,), (P + 1,), ("1",), (1, 2), (12,), ("1", "2"), ("12",), ((1, 2),),
              ((1,), 2), (1, (2,)), (), (None,), ("",), ((),), (2, 1), ("a", "bc"), ("ab", "c"), (-1, -2), (-2, -1), (-1, -1),
              (-2, -2)] + [(t,) for t in twins] + [(t, u) for t in twins[:2] for u in twins[:2]]
    for _ in range(ctx.n(10)):
        seen = Counter()

        def ident(*a):
            seen[a] += 1
            return [a]
        g = UT.cached_function(ident)
        order = rivals * 2
        r.shuffle(order)
        for a in order:
            v = ctx.call("cached call", g, *a)
            ctx.check(v[0] == a, "the cached value belongs to other arguments", a, v)
        ctx.eq(set(seen.values()), {1}, "calls with colliding arguments")
    # falsy results are cached too, and two wrapped functions do not share a cache
    n = Counter()

    def zero(x):
        n["z"] += 1
        return x * 0 or None

    def one(x):
        n["o"] += 1
        return 1
    z, o = UT.cached_function(zero), UT.cached_function(one)
    for x in (3, 3, 4, 3):
        ctx.eq(ctx.call("cached call", z, x), None, "cached None")
        ctx.eq(ctx.call("cached call", o, x), 1, "separate caches")
    ctx.eq(dict(n), {"z": 2, "o": 2}, "calls")

    @UT.cached_function
    def fib(k):
        n["fib"] += 1
        return k if k < 2 else fib(k - 1) + fib(k - 2)
    a, b = 0, 1
    for _ in range(120):
        a, b = b, a + b
    ctx.eq(ctx.call("cached recursion", fib, 120), a, "memoized Fibonacci")
    ctx.eq(n["fib"], 121, "each argument evaluated once")
