"""Graphs at sizes, weights and densities where a cap, a tolerance, a table width or a truncated history would first
show: dense graphs of hundreds of vertices, weights at both ends of the floating point range, bounds met by a hair."""
import itertools
import os
import shutil
import tempfile
import math
from collections import Counter
from fractions import Fraction

from rt import graphgen as GG
from rt.core import unit
from rt.props import g05_optimal as G5
from rt.props import g08_hard as G8
from rt.props.g13_large import (INF, best_trees, dijkstra, dreyfus_wagner, dfs_tree, fast_dfs, interval, judge_tight,
                                large, model_forest, model_of, realise, shape)

from rosemary.graphs import graphs as G
from rosemary.graphs.algorithms import cliques as CL
from rosemary.graphs.algorithms import coloring as CO
from rosemary.graphs.algorithms import connectivity as CN
from rosemary.graphs.algorithms import hamiltonian_paths as HP
from rosemary.graphs.algorithms import independent_sets as IS
from rosemary.graphs.algorithms import paths as PA
from rosemary.graphs.algorithms import spanning_trees as ST
from rosemary.graphs.algorithms import steiner_trees as SN
from rosemary.graphs.algorithms import traversal as TR


def on(r, n, es, w=lambda: 1):
    """A model on n labelled vertices with the given edges, (i, j) or (i, j, weight)."""
    vs = GG.labels(r, n)
    m = GG.empty(vs)
    for e in es:
        if e[0] != e[1]:
            GG.join(m, vs[e[0]], vs[e[1]], e[2] if len(e) == 3 else w())
    return m, vs


def dense(r, n):
    """Edges of a dense graph on 0..n-1."""
    kind = r.choice(("complete", "co-matching", "gnp", "multipartite", "bipartite"))
    pairs = itertools.combinations(range(n), 2)
    if kind == "complete":
        return list(pairs)
    if kind == "co-matching":
        return [(u, v) for u, v in pairs if u // 2 != v // 2]
    if kind == "gnp":
        p = r.choice((.5, .8, .95))
        return [e for e in pairs if r.random() < p]
    k = r.randint(2, n) if kind == "multipartite" else 2
    home = [r.randrange(k) for _ in range(n)]
    return [(u, v) for u, v in pairs if home[u] != home[v]]


# ------------------------------------------------------------------------------------- G01, G02
@unit("G01", shards=2)
def dense_graphs(ctx):
    """Derived graphs, matrices and vertex orders of dense graphs and of graphs with hundreds of vertices."""
    r = ctx.rng
    for i in range(ctx.n(12)):
        n = r.choice((70, 110, 160))
        m, vs = on(r, n, dense(r, n) if i % 2 else shape(r, n, "connected"), GG.weight_fn(r))
        g = GG.build(r, m)
        ctx.eq(GG.read(g), m, "a dense graph read back")
        es = GG.edges_of(m)
        ctx.eq((g.num_vertices(), g.num_edges()), (n, len(es)), "order and size")
        ctx.eq(ctx.call("edges", g.edges), sorted((u, v) for u, v, _ in es), "edges")
        ctx.eq(ctx.call("edge_set", g.edge_set, weights=True), set(es), "weighted edges")
        ctx.eq(ctx.call("vertices", g.vertices), sorted(m), "vertices")
        up = ctx.call("vertices by degree", g.vertices, order="degree")
        ctx.check(sorted(up) == sorted(m) and all(len(m[a]) <= len(m[b]) for a, b in zip(up, up[1:])), "order='degree'")
        degs = [len(x) for x in m.values()]
        ctx.eq((g.maximum_degree(), g.minimum_degree()), (max(degs), min(degs)), "extreme degrees")
        ctx.eq(len(m[g.maximum_degree_vertex()]), max(degs), "maximum_degree_vertex")
        ctx.eq(len(m[g.minimum_degree_vertex()]), min(degs), "minimum_degree_vertex")
        some = r.sample(list(m), r.randint(1, n))
        ctx.eq(ctx.call("total_degree", g.total_degree, list(some)), sum(len(m[v]) for v in some), "total_degree")
        ctx.eq(ctx.call("total_degree", g.total_degree), 2 * len(es), "total_degree of the graph")
        ctx.check(abs(Fraction(ctx.call("density", g.density)) - Fraction(2 * len(es), n * (n - 1))) < Fraction(1, 10**12),
                  "density")
        c = ctx.call("complement", g.complement)
        ctx.eq({u: set(x) for u, x in GG.read(c).items()}, {u: set(m) - set(m[u]) - {u} for u in m}, "complement")
        keep = set(some)
        ctx.eq(GG.read(ctx.call("induced_subgraph", g.induced_subgraph, list(some))),
               {u: {v: w for v, w in m[u].items() if v in keep} for u in keep}, "induced_subgraph")
        u = r.choice(list(m))
        for name, gone in (("remove_vertex", {u}), ("remove_neighborhood", set(m[u])),
                           ("remove_closed_neighborhood", set(m[u]) | {u}), ("remove_vertices", keep)):
            arg = list(some) if name == "remove_vertices" else u
            ctx.eq(GG.read(ctx.call(name, getattr(g, name), arg)),
                   {a: {b: w for b, w in m[a].items() if b not in gone} for a in m if a not in gone}, name)
        if es:
            a, b, _ = r.choice(es)
            h = GG.read(ctx.call("remove_edge", g.remove_edge, a, b))
            ctx.eq(h, {x: {y: w for y, w in m[x].items() if {x, y} != {a, b}} for x in m}, "remove_edge")
        if n <= 110:
            order = sorted(m)
            adj = ctx.call("adjacency_matrix", g.adjacency_matrix)
            lap = ctx.call("laplacian_matrix", g.laplacian_matrix)
            for x, a in enumerate(order):
                ctx.eq([adj[x][y] for y in range(n)], [int(b in m[a]) for b in order], "adjacency_matrix row")
                ctx.eq([lap[x][y] for y in range(n)], [len(m[a]) if b == a else -int(b in m[a]) for b in order],
                       "laplacian_matrix row")
        if n == 70:
            got = ctx.call("induced order", g.vertices, order="induced")
            left = set(m)
            ctx.eq(sorted(got), sorted(m), "order='induced': vertices")
            for v in got:
                d = {x: len(left & set(m[x])) for x in left}
                ctx.eq(d[v], min(d.values()), "order='induced': not of minimum degree among the rest")
                left.discard(v)
        h = ctx.call("copy", g.copy)
        h.delete_vertices(list(some))
        h.add_edge(u, "other" if isinstance(u, str) else (-7, -7) if isinstance(u, tuple) else -10**6)
        ctx.eq(GG.read(g), m, "a graph after changes to its copy")
        a, b = r.sample(list(m), 2)
        g.add_edge(a, b, 77)                           # overwrites, or adds
        GG.join(m, a, b, 77)
        ctx.eq(GG.read(g), m, "after add_edge on an existing pair")


@unit("G02", shards=2)
def large_families(ctx):
    r = ctx.rng

    def agree(g, vs, adj, what):
        m = GG.read(g)
        ctx.eq(set(m), set(vs), "%s: vertices" % what)
        for u in m:
            ctx.eq(m[u], {v: 1 for v in vs if v != u and adj(u, v)}, "%s: neighbours" % what)
    n = r.choice((130, 180, 260))
    agree(ctx.call("complete_graph", G.complete_graph, n), range(n), lambda u, v: True, "complete_graph(%d)" % n)
    n = r.choice((200, 257, 300))
    agree(ctx.call("coprime_pairs_graph", G.coprime_pairs_graph, n), range(1, n + 1),
          lambda u, v: math.gcd(u, v) == 1, "coprime_pairs_graph(%d)" % n)
    n = r.randint(23, 36)
    g = ctx.call("grid_graph", G.grid_graph, n)
    m = GG.read(g)
    want = {u: {} for u in range(n * n)}
    for u in want:
        if (u + 1) % n:
            GG.join(want, u, u + 1)
        if u + n < n * n:
            GG.join(want, u, u + n)
    ctx.eq(m, want, "grid_graph(%d)" % n)
    for n in (120, 300):
        for d in (0, 1, r.random()):
            m = GG.read(ctx.call("random_graph", G.random_graph, n, d))
            ctx.eq(set(m), set(range(n)), "random_graph vertices")
            es = GG.edges_of(m)
            ctx.check(all(u not in m[u] for u in m), "random_graph: loop")
            ctx.check(all(m[v].get(u) == w == 1 for u in m for v, w in m[u].items()), "random_graph: symmetry, weights")
            pairs = n * (n - 1) // 2
            ctx.check(abs(len(es) - pairs * d) <= 9 * math.sqrt(pairs * d * (1 - d)), "random_graph(%d, %r)" % (n, d), len(es))
            if d not in (0, 1):                        # no part of the pairs is treated differently
                half = [e for e in es if e[1] < n // 2]
                p2 = (n // 2) * (n // 2 - 1) // 2
                ctx.check(abs(len(half) - p2 * d) <= 9 * math.sqrt(p2 * d * (1 - d)), "random_graph: first half", len(half))
                half = [e for e in es if e[0] >= n // 2]
                p2 = (n - n // 2) * (n - n // 2 - 1) // 2
                ctx.check(abs(len(half) - p2 * d) <= 9 * math.sqrt(p2 * d * (1 - d)), "random_graph: second half", len(half))
    base = tempfile.mkdtemp(prefix="rt-graphs-")
    try:
        for i in range(4):
            n = r.choice((400, 1500))
            m, _ = on(r, n, shape(r, n, "connected") + (dense(r, 120) if i % 2 else []))
            names = r.sample(range(1, r.choice((10**4, 10**18))), n)
            idx = dict(zip(m, names))
            es = [(idx[u], idx[v]) if r.random() < .5 else (idx[v], idx[u]) for u, v, _ in GG.edges_of(m)]
            r.shuffle(es)
            want = {}
            for u, v in es:
                want.setdefault(u, {})[v] = 1
                want.setdefault(v, {})[u] = 1
            path = os.path.join(base, "g%d.txt" % i)
            with open(path, "w") as f:
                f.writelines("%d %d\n" % e for e in es)
            ctx.eq(GG.read(ctx.call("load_graph", G.load_graph, path)), want, "load_graph of %d edges" % len(es))
            path = os.path.join(base, "d%d.col" % i)
            with open(path, "w") as f:
                f.writelines("c comment %d\n" % j for j in range(30))
                f.write("p edge %d %d\n" % (n, len(es)))
                f.writelines("e %d %d\n" % e for e in es)
            ctx.eq(GG.read(ctx.call("load_dimacs_graph", G.load_dimacs_graph, path)), want,
                   "load_dimacs_graph of %d edges" % len(es))
    finally:
        shutil.rmtree(base)


# ------------------------------------------------------------------------------------- G03, G04
@unit("G03", shards=2)
def dense_traversals(ctx):
    r = ctx.rng
    for i in range(ctx.n(10)):
        n = r.choice((90, 150, 220)) if i % 3 else 350
        p = r.choice((.07, .12, .2))
        m, _ = on(r, n, dense(r, n) if i % 3 else [e for e in itertools.combinations(range(n), 2) if r.random() < p])
        g = GG.build(r, m)
        s = r.choice(list(m))
        lev = GG.levels(m, s)
        order = ctx.take("breadth_first_search", n + 2, TR.breadth_first_search, g, s)
        ctx.check(len(order) == len(lev) and set(order) == set(lev) and order[0] == s, "BFS on a dense graph", len(order), len(lev))
        ctx.check(all(lev[a] <= lev[b] for a, b in zip(order, order[1:])), "BFS order on a dense graph")
        for depth in (0, 1, 2, n):
            got = ctx.take("breadth_first_search depth", n + 2, TR.breadth_first_search, g, s, depth)
            ctx.check(len(got) == len(set(got)) and set(got) == {v for v in lev if lev[v] <= depth}, "BFS to depth %d" % depth)
        prev = ctx.call("breadth_first_search_tree", TR.breadth_first_search_tree, g, s)
        ctx.check(set(prev) == set(lev) and prev[s] is None
                  and all(prev[v] in m[v] and lev[prev[v]] == lev[v] - 1 for v in lev if v != s), "BFS tree of a dense graph")
        order = ctx.take("depth_first_search", n + 2, TR.depth_first_search, g, s)
        ctx.check(len(order) == len(lev) and set(order) == set(lev) and order[0] == s, "DFS on a dense graph", len(order), len(lev))
        fast_dfs(ctx, m, order)
        prev = ctx.call("depth_first_search_tree", TR.depth_first_search_tree, g, s)
        ctx.check(set(prev) == set(lev) and prev[s] is None, "DFS tree of a dense graph")
        dfs_tree(ctx, m, prev, s)


@unit("G04")
def dense_components(ctx):
    r = ctx.rng
    for i in range(ctx.n(16)):
        parts = [r.choice((1, 2, 40, 90, 130)) for _ in range(r.choice((1, 2, 3, 5)))]
        es, at = [], 0
        for k in parts:
            es += [(u + at, v + at) for u, v in dense(r, k)] if k > 1 else []
            at += k
        m, _ = on(r, at, es)
        g = GG.build(r, m)
        comps = GG.components(m)
        ctx.eq(Counter(map(frozenset, ctx.call("connected_components", CN.connected_components, g))),
               Counter(map(frozenset, comps)), "components of a union of dense graphs")
        u = r.choice(list(m))
        ctx.eq(sorted(ctx.call("connected_component", CN.connected_component, g, u)),
               sorted(next(c for c in comps if u in c)), "connected_component in a union of dense graphs")
        ctx.eq(bool(ctx.call("is_connected", CN.is_connected, g)), len(comps) == 1, "is_connected")


# ------------------------------------------------------------------------------------- G05
@unit("G05", shards=3)
def far_paths(ctx):
    r = ctx.rng
    for i in range(ctx.n(30)):
        # wide gaps between the distances that occur
        n = r.randint(8, 60)
        hi = r.choice((60000, 20000, 5000))
        m, vs = on(r, n, [(r.randrange(max(0, j - r.choice((1, 4, n))), j), j) for j in range(1, n)]
                   + shape(r, n, "sparse"), lambda: r.choice((r.randint(1, 9), r.randint(hi // 2, hi), 4096, 8192)))
        for a in list(m):                              # short routes for all but the last edge
            if r.random() < .6 and a != vs[0]:
                GG.join(m, vs[0], a, r.randint(1, hi))
        g = GG.build(r, m)
        want = dijkstra(m, vs[0])
        for name in G5.TREES:
            judge_tight(ctx, name, m, vs[0], *ctx.call(name, getattr(PA, name), g, vs[0]), want)
    for i in range(ctx.n(6)):
        # a hub with costly spokes and a cheap rim: hundreds of open vertices, nearly all of them improved later on
        n = r.choice((800, 1300))
        w = r.choice((1, Fraction(1, 3), .125))
        ring = [(j, j + 1, w * r.randint(1, 3)) for j in range(1, n - 1)]
        m, vs = on(r, n, ring + [(0, j, 10 * n + r.randint(0, n) if j > 3 else 1) for j in range(1, n)])
        g = GG.build(r, m)
        want = dijkstra(m, vs[0])
        for name in G5.TREES:
            if name == "dijkstra_buckets" and w != 1:
                continue
            if name == "bellman_ford":
                continue
            judge_tight(ctx, name, m, vs[0], *ctx.call(name, getattr(PA, name), g, vs[0]), want)
        d, path = ctx.call("dijkstra_bidirectional", PA.dijkstra_bidirectional, g, vs[0], vs[-1])
        ctx.eq(d, want[vs[-1]], "dijkstra_bidirectional around the rim")
        G5.judge_path(ctx, "dijkstra_bidirectional", m, path, vs[0], vs[-1], d)
    for i in range(ctx.n(40)):
        # a target improved once for nearly every vertex: many passes, and no negative cycle
        k = r.randint(20, 70)
        c, t = r.randint(3, 9), k + r.randint(0, 3)
        m, vs = on(r, t + 1, [(j, j + 1, 1) for j in range(k - 1)] + [(j, t, c * (k - j)) for j in range(k)]
                   + [(t, j, 1) for j in range(k, t)])
        g = GG.build(r, m)
        if i % 2:                                      # the target's edges from the far end: one pass for each step
            g = G.Graph()
            for u, v, w in sorted(((vs.index(u), vs.index(v), w) for u, v, w in GG.edges_of(m)), key=lambda e: -min(e[:2])):
                g.add_edge(vs[u], vs[v], w)
            ctx.eq(GG.read(g), m, "the graph as built")
        want = dijkstra(m, vs[0])
        for name in G5.TREES:
            judge_tight(ctx, name, m, vs[0], *ctx.call(name, getattr(PA, name), g, vs[0]), want)
        # the least negative edge is a negative cycle
        kind, m = large(r, r.randint(4, 25), r.choice(("connected", "tree", "cycle")), weights=r.choice(("unit", "tiny")))
        u, v, _ = r.choice(GG.edges_of(m))
        GG.join(m, u, v, -r.choice((Fraction(1, 10**15), 2.0**-40, 2.0**-30, 1, 10**9)))
        h = GG.build(r, m)
        ctx.raises("floyd_warshall", ValueError, PA.floyd_warshall, h)
        ctx.raises("bellman_ford", ValueError, PA.bellman_ford, h, r.choice(list(m)))
        ctx.count("least negative cycles")
    for i in range(ctx.n(16)):
        # weights at both ends of the floating point range
        n = r.randint(5, 30)
        scale = r.choice((2.0**-1000, 2.0**900, 10**300, 10**200, Fraction(1, 10**400)))
        m, vs = on(r, n, shape(r, n, "connected") + shape(r, n, "sparse"), lambda: r.randint(1, 40) * scale)
        g = GG.build(r, m)
        s = r.choice(vs)
        want = dijkstra(m, s)
        for name in G5.TREES:
            if name != "dijkstra_buckets":
                judge_tight(ctx, name, m, s, *ctx.call(name, getattr(PA, name), g, s), want)
        t = r.choice(vs)
        d, path = ctx.call("dijkstra_bidirectional", PA.dijkstra_bidirectional, g, s, t)
        ctx.eq(d, want[t], "dijkstra_bidirectional at an extreme scale")
        dist, pred = ctx.call("floyd_warshall", PA.floyd_warshall, g)
        judge_tight(ctx, "floyd_warshall", m, s, {v: dist[s, v] for v in m}, {v: pred[s, v] for v in m}, want)
    for i in range(ctx.n(6)):
        n = r.choice((70, 120))
        m, vs = on(r, n, dense(r, n), GG.weight_fn(r, r.choice(("unit", "tiny", "int", "zero"))))
        g = GG.build(r, m)
        s = r.choice(vs)
        want = dijkstra(m, s)
        for name in G5.TREES:
            judge_tight(ctx, name, m, s, *ctx.call(name, getattr(PA, name), g, s), want)
        if n == 70:
            dist, pred = ctx.call("floyd_warshall", PA.floyd_warshall, g)
            for u in r.sample(vs, 5):
                judge_tight(ctx, "floyd_warshall", m, u, {v: dist[u, v] for v in m}, {v: pred[u, v] for v in m}, dijkstra(m, u))


# ------------------------------------------------------------------------------------- G06, G07
def judge_best(ctx, r, m, k, what):
    n = len(m)
    want = best_trees(m, k)
    got = ctx.take("gabow k", k + 2, ST.gabow, GG.build(r, m), k)
    ctx.eq([w for w, _ in got], want, "gabow: the %d lightest trees of %s" % (k, what))
    ctx.eq(len({tuple(e) for _, e in got}), len(got), "gabow repeats a tree")
    for w, e in got:
        ctx.check(all(v in m[u] for u, v in e), "gabow: edge not in the graph", e)
        ctx.eq(sum(m[u][v] for u, v in e), w, "gabow: weight of a tree")
        sub = GG.empty(m)
        for u, v in e:
            GG.join(sub, u, v)
        ctx.check(len(set(e)) == n - 1 and len(GG.components(sub)) == 1, "gabow: not a spanning tree", e)


@unit("G06", shards=3)
def hard_trees(ctx):
    r = ctx.rng
    for i in range(ctx.n(10)):
        # a backbone that is in every good tree and one vertex with many costly ways in: a chain of exclusions
        n = r.randint(16, 26)
        m, vs = on(r, n, [(j, j + 1, -1000 * r.randint(1, 4)) for j in range(n - 2)]
                   + [(j, n - 1, x) for j, x in enumerate(r.sample(range(1, 90), n - 1))])
        judge_best(ctx, r, m, r.randint(n - 4, n + 8), "a backbone with a costly vertex")
    for i in range(ctx.n(24)):
        n = r.randint(5, 16)
        scale = r.choice((2.0**-40, 2.0**-200, 2.0**-1000, Fraction(1, 10**12), Fraction(1, 10**40), 10**301, 10**30,
                          2.0**200))
        m, vs = on(r, n, shape(r, n, "connected"), lambda: r.randint(1, 40) * scale)
        judge_best(ctx, r, m, r.randint(1, 12), "a graph with weights in units of %r" % (scale,))
        g = GG.build(r, m)
        want, count = model_forest(m)
        for name in ("kruskal", "cheriton_tarjan", "prim"):
            total, edges = ctx.call(name, getattr(ST, name), g)
            G5.judge_forest(ctx, name, m, total, edges, want, count)
    for i in range(ctx.n(8)):
        n = r.choice((60, 110, 160))
        m, vs = on(r, n, dense(r, n), GG.weight_fn(r, r.choice(("unit", "tiny", "int", "neg", "big", "fraction"))))
        g = GG.build(r, m)
        want, count = model_forest(m)
        for name in ("kruskal", "cheriton_tarjan"):
            total, edges = ctx.call(name, getattr(ST, name), g)
            G5.judge_forest(ctx, name, m, total, edges, want, count)
        root = r.choice(list(m))
        sub = {u: m[u] for u in next(c for c in GG.components(m) if root in c)}
        want, count = model_forest(sub)
        total, edges = ctx.call("prim", ST.prim, g, root)
        G5.judge_forest(ctx, "prim", sub, total, edges, want, count)


@unit("G07", shards=2)
def many_terminals(ctx):
    """Many terminals: all vertices (a minimum spanning tree), and extreme scales against the exact optimum."""
    r = ctx.rng

    def judge(name, m, terms, low, high):
        total, edges = ctx.call(name, getattr(SN, name), GG.build(r, m), r.choice((list, tuple, set))(terms))
        sub = {v: {} for v in terms}
        for u, v in edges:
            ctx.check(v in m[u], "%s: edge not in the graph" % name, u, v)
            sub.setdefault(u, {})
            sub.setdefault(v, {})
            GG.join(sub, u, v, m[u][v])
        ctx.eq(sum(m[u][v] for u, v in edges), total, "%s: weight is not the sum of the edges" % name)
        ctx.check(len(GG.components(sub)) == 1 and len(edges) == len(sub) - 1, "%s: not a tree on the terminals" % name)
        hard = set(terms)
        ctx.check(all(len(nb) > 1 or v in hard for v, nb in sub.items()), "%s: a leaf is no terminal" % name, edges)
        own = {u: {v: w for v, w in m[u].items() if v in sub} for u in sub}
        ctx.eq(total, model_forest(own)[0], "%s: not a minimum tree of its own vertices" % name)
        ctx.check(low <= total <= high, "%s: weight out of bounds" % name, total, low, high)
    names = ("distance_network_heuristic", "minimum_cost_paths_heuristic")
    for i in range(ctx.n(14)):
        n = r.choice((15, 25, 40))
        m, vs = on(r, n, shape(r, n, "connected") + (dense(r, n) if n < 40 and i % 2 else []),
                   GG.weight_fn(r, r.choice(("unit", "tiny", "int", "fraction", "big"))))
        mst = model_forest(m)[0]
        for name in names:
            judge(name, m, vs, mst, mst)               # every vertex is a terminal
        terms = r.sample(vs, r.randint(n // 2, n - 1))
        # terminals alone: the least tree is at least half of the spanning tree of their distances
        far = {t: dijkstra(m, t) for t in terms}
        closure = {t: {u: far[t][u] for u in terms if u != t} for t in terms}
        top = model_forest(closure)[0]
        for name in names:
            judge(name, m, terms, Fraction(top) / 2, top)
    for i in range(ctx.n(20)):
        n = r.randint(6, 25)
        scale = r.choice((2.0**-40, 2.0**-1000, Fraction(1, 10**400), 10**300, 10**200))
        m, vs = on(r, n, shape(r, n, "connected"), lambda: r.randint(1, 30) * scale)
        terms = r.sample(vs, r.randint(2, 5))
        opt = dreyfus_wagner(m, terms)
        for name in names:
            judge(name, m, terms, opt, 2 * opt * (len(terms) - 1) / len(terms) if isinstance(scale, (float, Fraction))
                  else 2 * opt * (len(terms) - 1) // len(terms))


# ------------------------------------------------------------------------------------- G08
def planted_clique(r, n, k):
    es = set(map(tuple, map(sorted, shape(r, n, r.choice(("sparse", "connected", "grid", "tree"))))))
    es |= set(itertools.combinations(sorted(r.sample(range(n), k)), 2))
    if r.random() < .5:                                # a rival one smaller, or as large
        es |= set(itertools.combinations(sorted(r.sample(range(n), max(1, k - r.randint(0, 2)))), 2))
    return list(es)


@unit("G08", shards=4)
def wide_cliques(ctx):
    r = ctx.rng
    best = 0
    for i in range(ctx.n(16)):
        n = r.choice((180, 260, 330, 480))
        m, vs = on(r, n, planted_clique(r, n, r.randint(3, 9)))
        g = GG.build(r, m)
        want = G8.bk(m)
        top = max(map(len, want))
        best = max(best, top)
        for name in G8.MAXIMUM:
            if name.startswith("pardalos") and n > 260:
                continue
            size, clique = ctx.call(name, getattr(CL, name), g)
            G8.judge_max_clique(ctx, "%s on %d vertices" % (name, n), m, size, clique, top)
        for name in G8.MAXIMAL:
            if n > 260 and name != "tomita":
                continue
            G8.judge_maximal(ctx, name, getattr(CL, name), (g,), want)
        hi = r.choice((1, 5, 1000, 10**15))
        w = {v: r.randint(1, hi) for v in m}
        for v in r.sample(vs, 2):
            w[v] += hi * r.choice((0, 0, 2))
        total, clique = ctx.call("maximum_weight_clique", CL.maximum_weight_clique, g, dict(w))
        G8.judge_max_clique(ctx, "maximum_weight_clique", m, len(clique), clique, len(clique))
        ctx.eq(sum(w[v] for v in clique), total, "weight of the clique")
        ctx.eq(total, max(sum(w[v] for v in c) for c in want), "maximum weight on %d vertices" % n)
    for i in range(ctx.n(10)):
        n = r.choice((90, 140, 200))                   # interval graphs: one maximal clique for every peak
        k = interval(r, n)
        m, vs = model_of(r, k)
        g = GG.build(r, m)
        got = ctx.take("tomita", k.cliques + 2, CL.tomita, g)
        ctx.eq((len(got), len(set(map(frozenset, got))), max(map(len, got))), (k.cliques, k.cliques, k.omega),
               "maximal cliques of an interval graph on %d vertices" % n)
        for name in ("ostergard", "ostergard_binary"):
            size, clique = ctx.call(name, getattr(CL, name), g)
            G8.judge_max_clique(ctx, "%s on an interval graph" % name, m, size, clique, k.omega)
    ctx.count("largest clique", best)


# ------------------------------------------------------------------------------------- G09
@unit("G09", shards=3)
def wide_stable(ctx):
    r = ctx.rng
    tops = Counter()
    for i in range(ctx.n(60)):
        # a small hard core and many free vertices: large independent sets met by the last one
        core = r.randint(2, 11)
        free = r.randint(8, 45)
        es = GG.structure(r, core)
        stars = r.randint(0, 2)
        n = core + free
        at = core
        alpha_stars = 0
        for _ in range(stars):                         # stars among the free vertices
            k = r.randint(2, 3)
            if at + k + 1 > n:
                break
            es = es + [(at, at + j) for j in range(1, k + 1)]
            alpha_stars += k
            at += k + 1
        m, vs = on(r, n, es)
        g = GG.build(r, m)
        inner = {v: {u: 1 for u in m[v] if u in set(vs[:core])} for v in vs[:core]}
        alpha = max(map(len, GG.maximal_cliques(GG.complement(inner)))) + alpha_stars + n - at
        tops[min(alpha // 10 * 10, 40)] += 1
        names = ("branch_and_bound", "maximum_independent_set")
        for name in names:
            size, s = ctx.call(name, getattr(IS, name), g)
            G8.independent(ctx, name, m, size, s)
            ctx.eq(size, alpha, "%s on %d vertices" % (name, n))
        size, s = ctx.call("greedy", IS.greedy, g)
        G8.independent(ctx, "greedy", m, size, s)
        G8.maximal(ctx, "greedy", m, s)
    for i in range(ctx.n(10)):
        n = r.choice((80, 110, 150))                   # every vertex has many neighbours
        m, vs = on(r, n, dense(r, n))
        g = GG.build(r, m)
        size, s = ctx.call("greedy", IS.greedy, g)
        G8.independent(ctx, "greedy", m, size, s)
        G8.maximal(ctx, "greedy", m, s)
        if i % 2:
            k = interval(r, 120)
            m, vs = model_of(r, k)
            size, s = ctx.call("maximum_independent_set", IS.maximum_independent_set, GG.build(r, m))
            G8.independent(ctx, "maximum_independent_set", m, size, s)
            ctx.eq(size, k.alpha, "maximum_independent_set of an interval graph")
    for k, v in sorted(tops.items()):
        ctx.count("independence number %d+" % k, v)


# ------------------------------------------------------------------------------------- G10
@unit("G10", shards=3)
def wide_colorings(ctx):
    r = ctx.rng
    gaps = 0
    for i in range(ctx.n(90)):
        # k classes and a clique on k vertices: the chromatic number is k, and first choices often miss it
        k = r.choice((3, 4, 5, 6))
        n = r.randint(25, 60)
        home = [r.randrange(k) for _ in range(n)]
        home[:k] = range(k)
        p = {3: (.1, .15, .3), 4: (.2, .25, .3, .5), 5: (.25, .3, .4), 6: (.4, .5, .6)}[k]
        p = r.choice(p)
        m, vs = on(r, n, [(u, v) for u, v in itertools.combinations(range(n), 2)
                          if home[u] != home[v] and (v < k or r.random() < p)])
        g = GG.build(r, m)
        x, col = ctx.call("dsatur", CO.dsatur, g)
        G8.judge_coloring(ctx, "dsatur", m, x, col, True)
        ctx.check(x >= k, "dsatur: fewer colors than the clique", x, k)
        gaps += x > k
        for name in ("korman", "exact_coloring")[i % 2:i % 2 + 1]:
            kw = r.choice(({}, {"classes": False}))
            y, col = ctx.call(name, getattr(CO, name), g, **kw)
            G8.judge_coloring(ctx, name, m, y, col, kw.get("classes", True))
            ctx.eq(y, k, "%s: chromatic number on %d vertices" % (name, n))
    ctx.count("improved over dsatur", gaps)
    for i in range(ctx.n(6)):
        # many colors
        n = r.randint(68, 100)
        sizes = []
        while sum(sizes) < n:
            sizes.append(min(n - sum(sizes), r.choice((1, 1, 1, 2))))
        home = [j for j, k in enumerate(sizes) for _ in range(k)]
        m, vs = on(r, n, [(u, v) for u, v in itertools.combinations(range(n), 2) if home[u] != home[v]])
        g = GG.build(r, m)
        for name in ("dsatur", "greedy_sequential"):
            kw = r.choice(({}, {"classes": False}))
            x, col = ctx.call(name, getattr(CO, name), g, **kw)
            G8.judge_coloring(ctx, name, m, x, col, kw.get("classes", True))
            ctx.eq(x, len(sizes), "%s: colors of a complete multipartite graph" % name)
        if i % 2 and n < 85:
            x, col = ctx.call("korman", CO.korman, g)
            G8.judge_coloring(ctx, "korman", m, x, col, True)
            ctx.eq(x, len(sizes), "korman: colors of a complete multipartite graph")


# ------------------------------------------------------------------------------------- G11
def all_paths(m):
    out = []
    for s in m:
        stack = [(s,)]
        while stack:
            p = stack.pop()
            if len(p) == len(m):
                out.append(p)
                continue
            stack += [p + (v,) for v in m[p[-1]] if v not in p]
    return out


@unit("G11", shards=2)
def wide_hamiltonian(ctx):
    """Fans, wheels and friends: vertices of high degree and few enough Hamiltonian paths to list."""
    r = ctx.rng
    for i in range(ctx.n(8)):
        n = r.randint(14, 24)
        kind = r.choice(("fan", "fan", "wheel", "ladder", "lollipop", "two hubs"))
        if kind == "fan":
            es = [(j, j + 1) for j in range(1, n - 1)] + [(0, j) for j in range(1, n)]
        elif kind == "wheel":
            n = min(n, 20)
            es = [(j, j + 1) for j in range(1, n - 1)] + [(0, j) for j in range(1, n)] + [(1, n - 1)]
        elif kind == "ladder":
            n = r.choice((12, 14, 16))
            es = [(j, j + 2) for j in range(n - 2)] + [(j, j + 1) for j in range(0, n, 2)]
        elif kind == "lollipop":
            k = r.randint(3, 5)
            es = list(itertools.combinations(range(k), 2)) + [(j, j + 1) for j in range(k - 1, n - 1)]
        else:
            n = r.randint(12, 15)
            es = [(j, j + 1) for j in range(2, n - 1)] + [(0, j) for j in range(2, n)] + [(1, 2), (1, n - 1)]
        m, vs = on(r, n, es)
        g = GG.build(r, m)
        want = all_paths(m)
        names = ["number_of_hamiltonian_paths_bits", "number_of_hamiltonian_paths_bits_con"]
        names += ["number_of_hamiltonian_paths"]
        for name in names:
            ctx.eq(ctx.call(name, getattr(HP, name), g), len(want), "%s of a %s on %d vertices" % (name, kind, n))
        for name in ("hamiltonian_paths", "hamiltonian_paths_con"):
            got = ctx.take(name, len(want) + 2, getattr(HP, name), g)
            ctx.eq(Counter(map(tuple, got)), Counter(want), "%s of a %s on %d vertices" % (name, kind, n))
        ctx.count("paths", len(want))
    for i in range(ctx.n(10)):
        # walks on dense graphs: numbers far beyond the machine
        n = r.choice((30, 60))
        m, vs = on(r, n, dense(r, n))
        allowed = set(r.sample(vs, r.randint(n // 2, n)))
        s = r.choice(sorted(allowed))
        length = r.randint(20, 90)
        cur = Counter({s: 1})
        for _ in range(length):
            nxt = Counter()
            for u, c in cur.items():
                for v in m[u]:
                    if v in allowed:
                        nxt[v] += c
            cur = nxt
        got = ctx.call("walks", HP.walks, GG.build(r, m), s, length, set(allowed))
        ctx.eq({u: c for u, c in got.items() if c}, dict(cur), "walks of length %d on a dense graph" % length)


# ------------------------------------------------------------------------------------- G12
@unit("G12", shards=2)
def huge_sequences(ctx):
    r = ctx.rng
    kinds = Counter()
    for i in range(ctx.n(14)):
        n = r.choice((350, 500, 900))
        p = r.random()
        bits = [r.random() < p for _ in range(n)]
        right, seq = 0, [0] * n                        # the degrees of a threshold graph, from the last vertex back
        for v in range(n - 1, -1, -1):
            seq[v] = right + (v if bits[v] else 0)
            right += bits[v]
        r.shuffle(seq)
        kinds[True] += 1
        G8.both(ctx, list(seq), True)
        a, b = sorted(r.sample(range(n), 2), key=lambda j: seq[j])
        if seq[a] > 0:
            up = list(seq)
            up[a] -= 1
            up[b] += 1
            kinds[False] += 1
            G8.both(ctx, up, False)
        if seq[b] > seq[a] + 1:
            down = list(seq)
            down[a] += 1
            down[b] -= 1
            kinds[True] += 1
            G8.both(ctx, down, True)
        seq = [r.randint(1, r.choice((3, n // 3, n - 1))) for _ in range(n)]
        seq[0] += sum(seq) % 2
        want = realise(seq)
        kinds[want] += 1
        G8.both(ctx, seq, want)
    for k, v in kinds.items():
        ctx.count("huge sequences graphic=%s" % k, v)
