"""G05 shortest paths.  G06 spanning trees.  G07 Steiner trees."""
import itertools
from collections import Counter
from fractions import Fraction

from rt import graphgen as GG
from rt.core import unit

from rosemary.graphs.algorithms import paths as PA
from rosemary.graphs.algorithms import spanning_trees as ST
from rosemary.graphs.algorithms import steiner_trees as SN

INF = float("inf")


# ------------------------------------------------------------------------------------- G05
def judge_tree(ctx, name, m, s, dist, prev, want):
    ctx.eq({v: dist[v] for v in dist}, want, "%s distances from %r" % (name, s))
    for v in m:
        if want[v] == INF or v == s:
            ctx.eq(prev.get(v), None, "%s: predecessor of the root or of an unreachable vertex" % name)
            continue
        p = prev[v]
        ctx.check(p in m[v], "%s: predecessor is not a neighbour" % name, v, p)
        ctx.eq(want[p] + m[p][v], want[v], "%s: edge to the predecessor is not tight" % name)
        x, hops = v, 0
        while x != s and hops <= len(m):
            x = prev[x]
            hops += 1
        ctx.eq(x, s, "%s: predecessors do not lead to the root" % name)


def judge_path(ctx, name, m, path, s, t, length):
    ctx.eq((path[0], path[-1]), (s, t), "%s: ends of the path" % name)
    total = 0
    for a, b in zip(path, path[1:]):
        ctx.check(b in m[a], "%s: path uses a missing edge" % name, path)
        total += m[a][b]
    ctx.eq(total, length, "%s: length of the path" % name)
    ctx.eq(len(set(path)), len(path), "%s: path repeats a vertex" % name)


TREES = ("dijkstra", "dijkstra_pairing_heap", "bellman_ford", "dijkstra_buckets")


@unit("G05", shards=8)
def shortest_paths(ctx):
    r = ctx.rng
    far = 0
    for i in range(ctx.n(1920)):
        n = r.choice((1, 2, 3, 4, 5, 6, 8, 12)) if i % 8 else r.randint(20, 60)
        wk = r.choice(("unit", "tiny", "tiny", "int", "zero", "big", "dyadic", "fraction"))
        m = GG.model(r, n, weights=wk)
        g = GG.build(r, m)
        s = r.choice(list(m))
        want = GG.distances(m, s)
        far += sum(1 for d in want.values() if d == INF)
        for name in TREES:
            if name == "dijkstra_buckets" and wk in ("big", "dyadic", "fraction"):
                continue
            dist, prev = ctx.call(name, getattr(PA, name), g, s)
            judge_tree(ctx, name, m, s, dist, prev, want)
        seq = ctx.take("dijkstra_iterator", len(m) + 2, PA.dijkstra_iterator, g, s)
        ctx.eq({v: d for v, d, _ in seq}, {v: d for v, d in want.items() if d < INF}, "dijkstra_iterator distances")
        ctx.eq(len(seq), len({v for v, _, _ in seq}), "dijkstra_iterator repeats a vertex")
        ctx.check(all(a[1] <= b[1] for a, b in zip(seq, seq[1:])), "dijkstra_iterator out of order", seq)
        for v, d, path in seq:
            judge_path(ctx, "dijkstra_iterator", m, path, s, v, d)
        targets = list(m) if n <= 6 else r.sample(list(m), 4)
        for t in targets + [s]:
            got = ctx.call("dijkstra_bidirectional", PA.dijkstra_bidirectional, g, s, t)
            if want[t] == INF:
                ctx.check(got == INF or tuple(got)[0] == INF, "distance to an unreachable vertex", got)
            else:
                d, path = got
                ctx.eq(d, want[t], "dijkstra_bidirectional distance")
                judge_path(ctx, "dijkstra_bidirectional", m, path, s, t, d)
        if n <= 12:
            dist, pred = ctx.call("floyd_warshall", PA.floyd_warshall, g)
            ctx.eq(len(dist), n * n, "floyd_warshall: number of pairs")
            for u in m:
                wu = GG.distances(m, u)
                judge_tree(ctx, "floyd_warshall", m, u, {v: dist[u, v] for v in m},
                           {v: pred[u, v] for v in m}, wu)
    ctx.count("unreachable vertices seen", far)


@unit("G05", shards=2)
def float_weights(ctx):
    """Sums of arbitrary floats: all methods agree with the reference up to rounding."""
    r = ctx.rng
    for _ in range(ctx.n(1440)):
        m = GG.model(r, r.randint(2, 25), weights="unit")
        for u, v, _w in GG.edges_of(m):
            GG.join(m, u, v, r.random() * 10)
        g = GG.build(r, m)
        s = r.choice(list(m))
        want = GG.distances(m, s)
        for name in TREES[:3]:
            dist, prev = ctx.call(name, getattr(PA, name), g, s)
            for v in m:
                ctx.check(dist[v] == want[v] or abs(dist[v] - want[v]) < 1e-9, "%s distance" % name, v, dist[v], want[v])
        t = r.choice(list(m))
        if want[t] < INF:
            d, path = ctx.call("dijkstra_bidirectional", PA.dijkstra_bidirectional, g, s, t)
            ctx.check(abs(d - want[t]) < 1e-9, "dijkstra_bidirectional distance", d, want[t])
            ctx.check(abs(sum(m[a][b] for a, b in zip(path, path[1:])) - d) < 1e-9 and path[0] == s and path[-1] == t,
                      "dijkstra_bidirectional path", path)


@unit("G05")
def refusals(ctx):
    r = ctx.rng
    for i in range(ctx.n(3600)):
        m = GG.model(r, r.randint(1, 8), weights=None)
        g = GG.build(r, m)
        s = r.choice(list(m))
        ghost = "#none"
        for name in TREES:
            ctx.raises(name, ValueError, getattr(PA, name), g, ghost)
        ctx.raises("dijkstra_iterator", ValueError, lambda: next(PA.dijkstra_iterator(g, ghost)))
        ctx.raises("dijkstra_bidirectional", ValueError, PA.dijkstra_bidirectional, g, ghost, s)
        ctx.raises("dijkstra_bidirectional", ValueError, PA.dijkstra_bidirectional, g, s, ghost)
        # a negative edge of an undirected graph is a negative cycle
        es = GG.edges_of(m)
        if es:
            u, v, w = r.choice(es)
            h = g.copy()
            h.add_edge(u, v, -r.choice((1, 2, 3, 5, Fraction(1, 4), Fraction(1, 16))))
            ctx.raises("floyd_warshall", ValueError, PA.floyd_warshall, h)
            reach = GG.levels(m, s)
            if u in reach:
                ctx.raises("bellman_ford", ValueError, PA.bellman_ford, h, s)
            else:
                dist, prev = ctx.call("bellman_ford", PA.bellman_ford, h, s)
                judge_tree(ctx, "bellman_ford beside a negative cycle", m, s, dist, prev, GG.distances(m, s))
            h = g.copy()
            h.add_edge(u, v, r.choice((1.5, Fraction(3, 2), 2.0)))
            if u in reach and all(isinstance(x, int) and x <= 10**4 for _, _, x in es):
                ctx.raises("dijkstra_buckets", ValueError, PA.dijkstra_buckets, h, s)


# ------------------------------------------------------------------------------------- G06
def judge_forest(ctx, name, m, total, edges, want, count):
    ctx.eq(len(edges), count, "%s: number of edges" % name)
    acc = 0
    for u, v in edges:
        ctx.check(v in m[u], "%s: edge not in the graph" % name, u, v)
        acc += m[u][v]
    sub = GG.empty(m)
    for u, v in edges:
        GG.join(sub, u, v)
    ctx.eq(sum(len(nb) for nb in sub.values()), 2 * count, "%s: repeated edge" % name)
    ctx.eq(len(GG.components(sub)), len(m) - count, "%s: the edges contain a cycle" % name)
    ctx.eq(acc, total, "%s: weight is not the sum of the edges" % name)
    ctx.eq(total, want, "%s: not of minimum weight" % name)
    ctx.eq(list(edges), sorted((min(e), max(e)) for e in edges), "%s: edge list not normalised" % name)


@unit("G06", shards=6)
def minimum_trees(ctx):
    r = ctx.rng
    split = 0
    for i in range(ctx.n(4200)):
        n = r.choice((1, 2, 3, 4, 5, 7, 10)) if i % 7 else r.randint(15, 50)
        wk = r.choice(("unit", "tiny", "int", "zero", "big", "dyadic", "fraction", "neg"))
        m = GG.model(r, n, weights=wk)
        g = GG.build(r, m)
        want, count = GG.forest_weight(m)
        comps = GG.components(m)
        split += len(comps) > 1
        for name in ("kruskal", "cheriton_tarjan"):
            total, edges = ctx.call(name, getattr(ST, name), g)
            judge_forest(ctx, name, m, total, edges, want, count)
        root = r.choice(list(m))
        comp = next(c for c in comps if root in c)
        sub = {u: m[u] for u in comp}
        want, count = GG.forest_weight(m, comp)
        total, edges = ctx.call("prim", ST.prim, g, root)
        judge_forest(ctx, "prim", sub, total, edges, want, count)
        total, prev = ctx.call("prim tree", ST.prim, g, root, edge_list=False)
        ctx.eq(total, want, "prim weight with predecessors")
        used = sorted((min(u, p), max(u, p)) for u, p in prev.items() if p is not None)
        judge_forest(ctx, "prim predecessors", sub, total, used, want, count)
        ctx.eq(prev[root], None, "prim: root has a predecessor")
        for v in comp:
            x, hops = v, 0
            while prev[x] is not None and hops <= n:
                x = prev[x]
                hops += 1
            ctx.eq(x, root, "prim: predecessors do not lead to the root")
        total, edges = ctx.call("prim default", ST.prim, g)
        if len(comps) == 1:
            judge_forest(ctx, "prim", m, total, edges, want, count)
        else:
            ends = {v for e in edges for v in e}
            home = [c for c in comps if ends <= c]
            ctx.check(bool(home), "prim without a root: not one component", edges)
            ctx.check(any((total, len(edges)) == GG.forest_weight(m, c) for c in home), "prim without a root", edges)
    ctx.count("disconnected graphs", split)


def spanning_trees(m):
    """Every spanning tree of a connected model as (weight, sorted edges), by deletion/contraction order."""
    es = sorted((u, v) for u, v, _ in GG.edges_of(m))
    out = []

    def rec(i, comp, used):
        if len(used) == len(m) - 1:
            out.append((sum(m[u][v] for u, v in used), used))
            return
        if i == len(es):
            return
        u, v = es[i]
        if comp[u] != comp[v]:
            a, b = comp[u], comp[v]
            rec(i + 1, {x: (b if c == a else c) for x, c in comp.items()}, used + [es[i]])
        rec(i + 1, comp, used)
    rec(0, {v: k for k, v in enumerate(m)}, [])
    return out


@unit("G06", shards=6)
def all_trees(ctx):
    r = ctx.rng
    trees = 0
    for i in range(ctx.n(720)):
        while True:
            n = r.choice((1, 2, 3, 4, 4, 5, 5, 6))
            wk = r.choice(("unit", "tiny", "tiny", "int", "zero", "dyadic", "fraction", "neg"))
            m = GG.model(r, n, weights=wk)
            if len(GG.components(m)) == 1 and len(GG.edges_of(m)) <= 12:
                break
        g = GG.build(r, m)
        want = spanning_trees(m)
        trees += len(want)
        got = ctx.take("gabow", len(want) + 2, ST.gabow, g)
        ctx.eq(Counter((w, tuple(e)) for w, e in got), Counter((w, tuple(e)) for w, e in want),
               "gabow: spanning trees")
        ctx.check(all(a[0] <= b[0] for a, b in zip(got, got[1:])), "gabow: trees not in order of weight",
                  [w for w, _ in got])
        k = r.randint(1, len(want) + 1)
        some = ctx.take("gabow k", len(want) + 2, ST.gabow, g, k)
        ctx.eq(len(some), min(k, len(want)), "gabow: number of trees for k=%d" % k)
        ctx.eq([w for w, _ in some], sorted(w for w, _ in want)[:k], "gabow: weights of the k best trees")
        ctx.eq(len({tuple(e) for _, e in some}), len(some), "gabow repeats a tree")
    ctx.count("spanning trees enumerated", trees)


def kirchhoff(m):
    vs = list(m)[1:]
    A = [[Fraction(len(m[u]) if u == v else -(v in m[u])) for v in vs] for u in vs]
    det = Fraction(1)
    n = len(vs)
    for c in range(n):
        p = next((i for i in range(c, n) if A[i][c]), None)
        if p is None:
            return 0
        if p != c:
            A[c], A[p] = A[p], A[c]
            det = -det
        det *= A[c][c]
        for i in range(c + 1, n):
            f = A[i][c] / A[c][c]
            if f:
                for j in range(c, n):
                    A[i][j] -= f * A[c][j]
    return int(det)


@unit("G06", shards=4)
def many_trees(ctx):
    """Larger graphs: the matrix-tree count, order and distinctness."""
    r = ctx.rng
    for _ in range(ctx.n(36)):
        while True:
            m = GG.model(r, r.randint(6, 9), kind=r.choice(("connected", "grid", "wheel", "regular", "sparse")),
                         weights=r.choice(("unit", "tiny", "int")))
            if len(GG.components(m)) == 1:
                t = kirchhoff(m)
                if 2 <= t <= 2500:
                    break
        g = GG.build(r, m)
        got = ctx.take("gabow", t + 2, ST.gabow, g)
        ctx.eq(len(got), t, "gabow: number of spanning trees")
        ctx.eq(len({tuple(e) for _, e in got}), t, "gabow repeats a tree")
        ctx.eq(got[0][0], GG.forest_weight(m)[0], "gabow: first tree is minimum")
        last = None
        for w, e in got:
            ctx.check(last is None or last <= w, "gabow: trees not in order of weight", last, w)
            last = w
            ctx.eq(sum(m[u][v] for u, v in e), w, "gabow: weight of a tree")
            ctx.eq(GG.forest_weight({x: {y: m[x][y] for y in m[x] if (x, y) in e or (y, x) in e} for x in m})[1],
                   len(m) - 1, "gabow: not a spanning tree")


# ------------------------------------------------------------------------------------- G07
def steiner_opt(m, terminals):
    rest = [v for v in m if v not in terminals]
    best = None
    for k in range(len(rest) + 1):
        for extra in itertools.combinations(rest, k):
            pool = set(terminals) | set(extra)
            if len(GG.components(m, pool)) == 1:
                w = GG.forest_weight(m, pool)[0]
                if best is None or w < best:
                    best = w
    return best


def ring(r):
    """A ring of weighted chains with heavy pendant terminals: the first tree takes a chain that the improvement
    step then opens, so that paths of several non-terminals are left hanging and have to be pruned."""
    hubs = r.choice((2, 3, 4))
    k, edges, terms = hubs, [], []
    for h in range(hubs):
        length = r.randint(1, 4)
        chain = [h] + list(range(k, k + length)) + [(h + 1) % hubs]
        k += length
        edges += [(u, v, r.randint(1, 6)) for u, v in zip(chain, chain[1:])]
        for x in chain[1:-1]:
            if r.random() < .35:
                edges.append((x, k, r.randint(8, 12)))
                terms.append(k)
                k += 1
        if r.random() < .7:
            terms.append(h)
    if r.random() < .5:         # a fixed shape that always leaves a chain of nonterminals hanging
        c = r.randint(1, 4)
        chain = [0] + list(range(6, 6 + c)) + [3]
        w = r.randint(1, 3)
        edges = [(u, v, w) for u, v in zip(chain[:-1], chain[1:-1])]
        edges += [(chain[-2], 3, 5 * w), (0, 1, 4 * w), (1, 2, 4 * w), (2, 3, 4 * w), (1, 4, 30 * w), (2, 5, 30 * w)]
        k, terms = 6 + c, [0, 3, 4, 5]
    m = GG.empty(range(k))
    for u, v, w in edges:
        GG.join(m, u, v, w)
    return m, terms or [0]


@unit("G07", shards=8)
def steiner(ctx):
    r = ctx.rng
    subopt = 0
    for i in range(ctx.n(1440)):
        small = i % 5
        n = r.randint(1, 8) if small else r.randint(10, 30)
        wk = r.choice(("unit", "tiny", "int", "big", "dyadic", "fraction"))
        shaped = None
        if i % 5 == 1:
            m, shaped = ring(r)
            n = len(m)
        else:
            m = GG.model(r, n, weights=wk)
        comp = sorted(r.choice(GG.components(m)))
        whole = len(comp) == n
        if not whole:
            m = {u: m[u] for u in comp}
            n = len(comp)
        g = GG.build(r, m)
        t = r.randint(1, min(n, 6))
        terms = r.sample(comp, t)
        if shaped:
            terms = r.sample(shaped, len(shaped))
            t = len(terms)
        form = r.choice((list, tuple, set))
        opt = steiner_opt(m, terms) if n <= 8 else None
        for name in ("distance_network_heuristic", "minimum_cost_paths_heuristic"):
            total, edges = ctx.call(name, getattr(SN, name), g, form(terms))
            acc = 0
            sub = {v: {} for v in terms}
            for u, v in edges:
                ctx.check(v in m[u], "%s: edge not in the graph" % name, u, v)
                acc += m[u][v]
                sub.setdefault(u, {})
                sub.setdefault(v, {})
                GG.join(sub, u, v)
            ctx.eq(acc, total, "%s: weight is not the sum of the edges" % name)
            ctx.eq(len(GG.components(sub)), 1, "%s: terminals not connected" % name)
            ctx.eq(len(edges), len(sub) - 1, "%s: not a tree" % name)
            ctx.check(all(len(nb) > 1 or v in terms for v, nb in sub.items()), "%s: a leaf is no terminal" % name, edges)
            ctx.eq(total, GG.forest_weight(m, sub)[0], "%s: not a minimum tree of its own vertices" % name)
            if opt is not None:
                ctx.check(total >= opt, "%s: lighter than the optimum" % name, total, opt)
                ctx.check(t * total <= 2 * (t - 1) * opt or t == 1 and total == 0,
                          "%s: beyond 2(1-1/t) of the optimum" % name, total, opt, t)
                subopt += total > opt
    ctx.count("trees above the optimum", subopt)
