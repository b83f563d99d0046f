"""Graphs far beyond the exact tables: hundreds to thousands of vertices, against linear-time references and
families whose answers follow from how they were built."""
import heapq
import itertools
import math
from collections import Counter, deque
from fractions import Fraction

from rt import graphgen as GG
from rt.core import unit
from rt.props import g01_graphs as G1
from rt.props import g05_optimal as G5
from rt.props import g08_hard as G8

from rosemary.graphs.algorithms import cliques as CL
from rosemary.graphs.algorithms import coloring as CO
from rosemary.graphs.algorithms import connectivity as CN
from rosemary.graphs.algorithms import degree_sequences as DS
from rosemary.graphs.algorithms import hamiltonian_paths as HP
from rosemary.graphs.algorithms import independent_sets as IS
from rosemary.graphs.algorithms import paths as PA
from rosemary.graphs.algorithms import spanning_trees as ST
from rosemary.graphs.algorithms import steiner_trees as SN
from rosemary.graphs.algorithms import traversal as TR

INF = float("inf")


# ------------------------------------------------------------------------------------- workload
def shape(r, n, kind):
    """Edges of a sparse graph on 0..n-1 in about linear time."""
    if kind == "path":
        return [(i, i + 1) for i in range(n - 1)]
    if kind == "cycle":
        return [(i, (i + 1) % n) for i in range(n)]
    if kind == "star":
        return [(0, i) for i in range(1, n)]
    if kind == "tree":
        return [(r.randrange(i), i) for i in range(1, n)]
    if kind == "caterpillar":
        return [(i - 2 if i % 2 else max(0, i - 2), i) if i > 1 else (0, 1) for i in range(1, n)]
    if kind == "grid":
        c = r.choice((2, 3, max(2, math.isqrt(n))))
        return [(i, i + 1) for i in range(n - 1) if (i + 1) % c] + [(i, i + c) for i in range(n - c)]
    if kind == "sparse":
        return list({tuple(sorted(r.sample(range(n), 2))) for _ in range(int(n * r.choice((.4, .6, 1, 2, 4))))})
    if kind == "connected":
        e = {(r.randrange(max(0, i - r.choice((1, 3, n))), i), i) for i in range(1, n)}
        return list(e | {tuple(sorted(r.sample(range(n), 2))) for _ in range(r.choice((3, n // 4, n, 3 * n)))})
    if kind == "ladder":                               # many ties: parallel routes of equal length
        return [(i, i + 2) for i in range(n - 2)] + [(i, i + 3) for i in range(0, n - 3, 2)] + [(0, 1)]
    if kind == "islands":
        out, at = [], 0
        while at < n:
            k = min(n - at, r.choice((1, 1, 2, 3, 10, n // 3)))
            out += [(u + at, v + at) for u, v in shape(r, k, r.choice(("path", "tree")))] if k > 1 else []
            at += k
        return out
    raise AssertionError(kind)


KINDS = ("path", "cycle", "star", "tree", "caterpillar", "grid", "sparse", "connected", "connected", "ladder", "islands")


def large(r, n, kind=None, weights="unit"):
    kind = kind or r.choice(KINDS)
    vs = GG.labels(r, n)
    m = GG.empty(vs)
    w = GG.weight_fn(r, weights)
    for u, v in shape(r, n, kind):
        if u != v:
            GG.join(m, vs[u], vs[v], w())
    return kind, m


def dijkstra(m, s):
    d, heap, tick = {v: INF for v in m}, [(0, 0, s)], 0
    done = set()
    d[s] = 0
    while heap:
        x, _, u = heapq.heappop(heap)
        if u in done:
            continue
        done.add(u)
        for v, w in m[u].items():
            if x + w < d[v]:
                d[v] = x + w
                tick += 1
                heapq.heappush(heap, (x + w, tick, v))
    return d


def forest(edges, count):
    """Minimum spanning forest of (w, i, j) edges over range(count): (weight, chosen indices)."""
    up = list(range(count))

    def find(x):
        while up[x] != x:
            up[x] = up[up[x]]
            x = up[x]
        return x
    total, used = 0, []
    for k in sorted(range(len(edges)), key=lambda k: edges[k][0]):
        w, a, b = edges[k]
        a, b = find(a), find(b)
        if a != b:
            up[a] = b
            total += w
            used.append(k)
    return total, used


def model_forest(m):
    idx = {v: i for i, v in enumerate(m)}
    es = [(w, idx[u], idx[v]) for u, v, w in GG.edges_of(m)]
    total, used = forest(es, len(m))
    return total, len(used)


# ------------------------------------------------------------------------------------- G01
@unit("G01", shards=2)
def large_graphs(ctx):
    r = ctx.rng
    for i in range(ctx.n(24)):
        n = r.choice((150, 400, 900))
        kind, m = large(r, n, weights=None)
        g = GG.build(r, m)
        ctx.eq(GG.read(g), m, "a large %s read back" % kind)
        ctx.eq(g.num_edges(), len(GG.edges_of(m)), "num_edges of a large %s" % kind)
        ctx.eq(sorted(g.degree(v) for v in m), sorted(len(x) for x in m.values()), "degrees of a large %s" % kind)
        cut = r.sample(list(m), r.randint(1, n - 1))
        if r.random() < .5:
            ctx.call("delete_vertices", g.delete_vertices, cut, _mutates=True)
        else:
            for u in cut:
                ctx.call("delete_vertex", g.delete_vertex, u, _mutates=True)
        gone = set(cut)
        m = {u: {v: w for v, w in m[u].items() if v not in gone} for u in m if u not in gone}
        ctx.eq(GG.read(g), m, "after deleting %d of %d vertices" % (len(cut), n))
        es = GG.edges_of(m)
        for u, v, _w in r.sample(es, len(es) // 2):
            ctx.call("delete_edge", g.delete_edge, u, v, _mutates=True)
            del m[u][v], m[v][u]
        ctx.eq(GG.read(g), m, "after deleting edges of a large graph")
        ctx.eq(g.num_edges(), len(GG.edges_of(m)), "num_edges after deletions")
        ctx.eq(set(g.leaves()), {v for v in m if len(m[v]) == 1}, "leaves of a large graph")


# ------------------------------------------------------------------------------------- G03, G04
@unit("G03", shards=2)
def large_traversals(ctx):
    r = ctx.rng
    deep = 0
    for i in range(ctx.n(60)):
        n = r.choice((100, 300, 700)) if i % 6 else 1500
        kind, m = large(r, n)
        g = GG.build(r, m)
        s = r.choice(list(m))
        lev = GG.levels(m, s)
        deep = max(deep, max(lev.values()))
        order = ctx.take("breadth_first_search", n + 2, TR.breadth_first_search, g, s)
        ctx.check(len(order) == len(lev) and set(order) == set(lev), "BFS on a large %s" % kind, len(order), len(lev))
        ctx.check(order[0] == s and all(lev[a] <= lev[b] for a, b in zip(order, order[1:])), "BFS order on a large %s" % kind)
        pos = {v: k for k, v in enumerate(order)}
        parents = [min(pos[x] for x in m[v] if lev[x] == lev[v] - 1) for v in order[1:]]
        ctx.check(parents == sorted(parents), "BFS not in queue order on a large %s" % kind)
        top = max(lev.values())
        for depth in {r.randint(0, top), max(0, top - 1), top}:
            got = ctx.take("breadth_first_search depth", n + 2, TR.breadth_first_search, g, s, depth)
            ctx.check(len(got) == len(set(got)) and set(got) == {v for v in lev if lev[v] <= depth},
                      "BFS to depth %d of %d on a large %s" % (depth, top, kind))
        prev = ctx.call("breadth_first_search_tree", TR.breadth_first_search_tree, g, s)
        ctx.check(set(prev) == set(lev) and prev[s] is None, "BFS tree on a large %s" % kind)
        for v in lev:
            if v != s:
                ctx.check(prev[v] in m[v] and lev[prev[v]] == lev[v] - 1, "BFS tree parent", v, prev[v])
        order = ctx.take("depth_first_search", n + 2, TR.depth_first_search, g, s)
        ctx.check(len(order) == len(lev) and set(order) == set(lev) and order[0] == s, "DFS on a large %s" % kind)
        fast_dfs(ctx, m, order)
        prev = ctx.call("depth_first_search_tree", TR.depth_first_search_tree, g, s)
        ctx.check(set(prev) == set(lev) and prev[s] is None, "DFS tree on a large %s" % kind)
        dfs_tree(ctx, m, prev, s)
    ctx.count("deepest level", deep)


def fast_dfs(ctx, m, order):
    seen, stack = {order[0]}, [order[0]]
    left = {v: len(m[v]) for v in m}                   # unvisited neighbours
    for x in m[order[0]]:
        left[x] -= 1
    for v in order[1:]:
        while stack and not left[stack[-1]]:
            stack.pop()
        ctx.check(bool(stack) and v in m[stack[-1]] and v not in seen, "not a depth-first order", v)
        seen.add(v)
        for x in m[v]:
            left[x] -= 1
        stack.append(v)


def dfs_tree(ctx, m, prev, s):
    kids = {v: [] for v in prev}
    for v, p in prev.items():
        if v != s:
            ctx.check(p in m[v], "DFS tree parent is not a neighbour", v, p)
            kids[p].append(v)
    enter, leave, clock = {}, {}, 0
    todo = [(s, False)]
    while todo:
        v, out = todo.pop()
        clock += 1
        if out:
            leave[v] = clock
            continue
        enter[v] = clock
        todo.append((v, True))
        todo += [(x, False) for x in kids[v]]
    ctx.eq(len(enter), len(prev), "DFS tree: vertices below the root")
    for u in prev:
        for v in m[u]:
            ctx.check(enter[u] <= enter[v] and leave[v] <= leave[u] or enter[v] <= enter[u] and leave[u] <= leave[v],
                      "DFS tree has a cross edge", u, v)


@unit("G04", shards=2)
def large_components(ctx):
    r = ctx.rng
    sizes = Counter()
    for i in range(ctx.n(90)):
        n = r.choice((60, 200, 600)) if i % 6 else 2000 if i % 36 else 9000
        kind, m = large(r, n, r.choice(KINDS + ("islands", "sparse") if n < 9000 else ("islands", "sparse")))
        g = GG.build(r, m)
        comps = GG.components(m)
        sizes[min(10, len(comps))] += 1
        got = ctx.call("connected_components", CN.connected_components, g)
        ctx.eq(Counter(map(frozenset, got)), Counter(map(frozenset, comps)), "components of a large %s" % kind)
        ctx.eq(sum(len(c) for c in got), n, "components: total size")
        u = r.choice(list(m))
        c = ctx.call("connected_component", CN.connected_component, g, u)
        ctx.eq(sorted(c), sorted(next(x for x in comps if u in x)), "connected_component of a large %s" % kind)
        ctx.eq(bool(ctx.call("is_connected", CN.is_connected, g)), len(comps) == 1, "is_connected on a large %s" % kind)
        some = set(r.sample(list(m), r.randint(n // 2, n)))
        ctx.eq(bool(ctx.call("is_connected2", HP.is_connected2, g, some)),
               len(GG.components(m, some)) <= 1, "connectivity of a large induced subgraph")
        c = set(r.choice(comps))                       # a component, and one less or one more vertex
        for some in (c, c - {u}, c | {u}):
            if some:
                ctx.eq(bool(ctx.call("is_connected2", HP.is_connected2, g, set(some))),
                       len(GG.components(m, some)) <= 1, "connectivity of an induced subgraph")
    for k, v in sorted(sizes.items()):
        ctx.count("graphs with %s components" % ("10+" if k == 10 else k), v)


# ------------------------------------------------------------------------------------- G05
def judge_tight(ctx, name, m, s, dist, prev, want):
    ctx.check({v: dist[v] for v in dist} == want, "%s distances from %r on a large graph" % (name, s))
    depth = {s: 0}
    for v in m:
        if want[v] == INF or v == s:
            ctx.eq(prev.get(v), None, "%s: predecessor of the root or of an unreachable vertex" % name)
            continue
        ctx.check(prev[v] in m[v], "%s: predecessor is not a neighbour" % name, v, prev[v])
        ctx.eq(want[prev[v]] + m[prev[v]][v], want[v], "%s: edge to the predecessor is not tight" % name)
        chain = []
        while v not in depth and len(chain) <= len(m):
            chain.append(v)
            v = prev[v]
        ctx.check(v in depth, "%s: predecessors do not lead to the root" % name, v)
        for k, x in enumerate(reversed(chain)):
            depth[x] = depth[v] + k + 1


@unit("G05", shards=3)
def large_paths(ctx):
    r = ctx.rng
    for i in range(ctx.n(36)):
        n = r.choice((80, 200, 500))
        wk = r.choice(("unit", "tiny", "int", "zero", "big", "dyadic", "fraction"))
        kind, m = large(r, n, weights=wk)
        g = GG.build(r, m)
        s = r.choice(list(m))
        want = dijkstra(m, s)
        for name in G5.TREES:
            if name == "dijkstra_buckets" and wk in ("big", "dyadic", "fraction"):
                continue
            dist, prev = ctx.call(name, getattr(PA, name), g, s)
            judge_tight(ctx, name, m, s, dist, prev, want)
        seq = ctx.take("dijkstra_iterator", n + 2, PA.dijkstra_iterator, g, s)
        ctx.check({v: d for v, d, _ in seq} == {v: d for v, d in want.items() if d < INF}, "dijkstra_iterator distances")
        ctx.eq(len(seq), len({v for v, _, _ in seq}), "dijkstra_iterator repeats a vertex")
        ctx.check(all(a[1] <= b[1] for a, b in zip(seq, seq[1:])), "dijkstra_iterator out of order")
        for v, d, path in r.sample(seq, min(len(seq), 12)) + seq[-1:]:
            G5.judge_path(ctx, "dijkstra_iterator", m, path, s, v, d)
        far = max((v for v in m if want[v] < INF), key=lambda v: want[v])
        for t in r.sample(list(m), 6) + [far, s]:
            got = ctx.call("dijkstra_bidirectional", PA.dijkstra_bidirectional, g, s, t)
            if want[t] == INF:
                ctx.check(got == INF or tuple(got)[0] == INF, "distance to an unreachable vertex", got)
            else:
                d, path = got
                ctx.eq(d, want[t], "dijkstra_bidirectional distance on a large %s" % kind)
                G5.judge_path(ctx, "dijkstra_bidirectional", m, path, s, t, d)
        if i % 2 == 0:
            # a negative edge anywhere the source reaches is a negative cycle, and has to be noticed in good time
            kind, m = large(r, r.randint(25, 60), weights="int")
            h = GG.build(r, m)
            s = r.choice([v for v in m if m[v]] or list(m))
            inside = [v for v, d in dijkstra(m, s).items() if d < INF and m[v]]
            if inside:
                u = r.choice(inside)
                h.add_edge(u, r.choice(list(m[u])), -r.choice((1, 5, 10**6, Fraction(1, 4))))
                ctx.raises("bellman_ford", ValueError, PA.bellman_ford, h, s)
                ctx.count("negative cycles in large graphs")
        if i % 4 == 0:
            kind, m = large(r, r.randint(20, 45), weights=wk)
            dist, pred = ctx.call("floyd_warshall", PA.floyd_warshall, GG.build(r, m))
            for u in m:
                judge_tight(ctx, "floyd_warshall", m, u, {v: dist[u, v] for v in m}, {v: pred[u, v] for v in m},
                            dijkstra(m, u))


# ------------------------------------------------------------------------------------- G06
@unit("G06", shards=2)
def large_trees(ctx):
    r = ctx.rng
    for i in range(ctx.n(40)):
        n = r.choice((80, 200, 500, 900))
        wk = r.choice(("unit", "tiny", "int", "zero", "big", "dyadic", "fraction", "neg"))
        kind, m = large(r, n, weights=wk)
        g = GG.build(r, m)
        want, count = model_forest(m)
        for name in ("kruskal", "cheriton_tarjan"):
            total, edges = ctx.call(name, getattr(ST, name), g)
            G5.judge_forest(ctx, name, m, total, edges, want, count)
        root = r.choice(list(m))
        sub = {u: m[u] for u in next(c for c in GG.components(m) if root in c)}
        want, count = model_forest(sub)
        total, edges = ctx.call("prim", ST.prim, g, root)
        G5.judge_forest(ctx, "prim", sub, total, edges, want, count)
        total, prev = ctx.call("prim tree", ST.prim, g, root, edge_list=False)
        ctx.eq(total, want, "prim weight with predecessors")
        used = sorted((min(u, p), max(u, p)) for u, p in prev.items() if p is not None)
        G5.judge_forest(ctx, "prim predecessors", sub, total, used, want, count)


def best_trees(m, k):
    """Weights of the k lightest spanning trees (Lawler's partition over forced and forbidden edges)."""
    idx = {v: i for i, v in enumerate(m)}
    es = [(w, idx[u], idx[v]) for u, v, w in GG.edges_of(m)]
    lo = min([w for w, _, _ in es], default=0) - 1

    def solve(force, ban):
        live = [e for e in range(len(es)) if e not in ban]
        _, used = forest([(lo if e in force else es[e][0], es[e][1], es[e][2]) for e in live], len(m))
        used = [live[x] for x in used]
        return (sum(es[e][0] for e in used), used) if len(used) == len(m) - 1 and force <= set(used) else None
    first = solve(frozenset(), frozenset())
    heap, tick, out = [(first[0], 0, first[1], frozenset(), frozenset())], 0, []
    while heap and len(out) < k:
        w, _, tree, force, ban = heapq.heappop(heap)
        out.append(w)
        held = set(force)
        for e in tree:
            if e in force:
                continue
            nxt = solve(frozenset(held), ban | {e})
            if nxt:
                tick += 1
                heapq.heappush(heap, (nxt[0], tick, nxt[1], frozenset(held), ban | {e}))
            held.add(e)
    return out


@unit("G06", shards=3)
def best_of_many(ctx):
    """The k lightest spanning trees of graphs with far too many to list."""
    r = ctx.rng
    for i in range(ctx.n(60)):
        n = r.randint(8, 30)
        kind, m = large(r, n, r.choice(("connected", "grid", "cycle", "ladder")),
                        weights=r.choice(("unit", "tiny", "int", "dyadic", "fraction", "neg", "big")))
        k = r.randint(1, 40)
        want = best_trees(m, k)
        got = ctx.take("gabow k", k + 2, ST.gabow, GG.build(r, m), k)
        ctx.eq([w for w, _ in got], want, "gabow: the %d lightest trees of a %s on %d vertices" % (k, kind, n))
        ctx.eq(len({tuple(e) for _, e in got}), len(got), "gabow repeats a tree")
        for w, e in got:
            ctx.check(all(v in m[u] for u, v in e), "gabow: edge not in the graph", e)
            ctx.eq(sum(m[u][v] for u, v in e), w, "gabow: weight of a tree")
            sub = GG.empty(m)
            for u, v in e:
                GG.join(sub, u, v)
            ctx.check(len(set(e)) == n - 1 and len(GG.components(sub)) == 1, "gabow: not a spanning tree", e)


# ------------------------------------------------------------------------------------- G07
def dreyfus_wagner(m, terms):
    """Exact Steiner tree weight (few terminals, any number of other vertices)."""
    terms = list(terms)
    if len(terms) < 2:
        return 0
    root, rest = terms[0], terms[1:]
    full = (1 << len(rest)) - 1
    best = {1 << i: dijkstra(m, t) for i, t in enumerate(rest)}
    for mask in range(1, full + 1):
        if mask in best:
            continue
        d = {}
        for v in m:
            sub, x = (mask - 1) & mask, INF
            while sub:
                x = min(x, best[sub][v] + best[mask ^ sub][v])
                sub = (sub - 1) & mask
            d[v] = x
        heap = [(x, i, v) for i, (v, x) in enumerate(d.items()) if x < INF]
        heapq.heapify(heap)
        tick = len(heap) + len(d)
        while heap:
            x, _, u = heapq.heappop(heap)
            if x > d[u]:
                continue
            for v, w in m[u].items():
                if x + w < d[v]:
                    d[v] = x + w
                    tick += 1
                    heapq.heappush(heap, (d[v], tick, v))
        best[mask] = d
    return best[full][root]


@unit("G07", shards=3)
def large_steiner(ctx):
    """Many vertices, few terminals: both heuristics against the exact optimum by dynamic programming."""
    r = ctx.rng
    over = 0
    for i in range(ctx.n(60)):
        n = r.choice((15, 30, 60, 150))
        wk = r.choice(("unit", "tiny", "int", "big", "dyadic", "fraction"))
        kind, m = large(r, n, weights=wk)
        comp = max(GG.components(m), key=len)
        m = {u: m[u] for u in m if u in comp}
        terms = r.sample(list(m), min(len(m), r.randint(1, 6)))
        t = len(terms)
        opt = dreyfus_wagner(m, terms)
        g = GG.build(r, m)
        for name in ("distance_network_heuristic", "minimum_cost_paths_heuristic"):
            total, edges = ctx.call(name, getattr(SN, name), g, r.choice((list, tuple, set))(terms))
            sub = {v: {} for v in terms}
            for u, v in edges:
                ctx.check(v in m[u], "%s: edge not in the graph" % name, u, v)
                sub.setdefault(u, {})
                sub.setdefault(v, {})
                GG.join(sub, u, v, m[u][v])
            ctx.eq(sum(m[u][v] for u, v in edges), total, "%s: weight is not the sum of the edges" % name)
            ctx.eq(len(GG.components(sub)), 1, "%s: terminals not connected" % name)
            ctx.eq(len(edges), len(sub) - 1, "%s: not a tree" % name)
            ctx.check(all(len(nb) > 1 or v in terms for v, nb in sub.items()), "%s: a leaf is no terminal" % name, edges)
            own = {u: {v: w for v, w in m[u].items() if v in sub} for u in sub}
            ctx.eq(total, model_forest(own)[0], "%s: not a minimum tree of its own vertices" % name)
            ctx.check(total >= opt, "%s: lighter than the optimum" % name, total, opt)
            ctx.check(t * total <= 2 * (t - 1) * opt or t == 1 and total == 0,
                      "%s: beyond 2(1-1/t) of the optimum" % name, total, opt, t)
            over += total > opt
    ctx.count("trees above the optimum", over)


# ------------------------------------------------------------------------------------- G08, G09, G10
class Known:
    """A graph together with the answers its construction implies."""
    def __init__(self, n, edges, omega, alpha, cliques, stables, name):
        self.n, self.edges, self.omega, self.alpha = n, edges, omega, alpha
        self.cliques, self.stables, self.name = cliques, stables, name


def cograph(r, n, p=.5):
    """Random cotree: disjoint unions and joins of smaller cographs; perfect, every answer by recursion."""
    if n == 1:
        return Known(1, [], 1, 1, 1, 1, "cograph")
    a = r.randint(1, n - 1) if r.random() < .5 else r.randint(1, min(3, n - 1))
    x, y = cograph(r, a, 1 - p), cograph(r, n - a, 1 - p)
    es = x.edges + [(u + a, v + a) for u, v in y.edges]
    if r.random() < p:
        es += [(u, v) for u in range(a) for v in range(a, n)]
        return Known(n, es, x.omega + y.omega, max(x.alpha, y.alpha), x.cliques * y.cliques, x.stables + y.stables, "cograph")
    return Known(n, es, max(x.omega, y.omega), x.alpha + y.alpha, x.cliques + y.cliques, x.stables * y.stables, "cograph")


def blocks(r, n):
    """Disjoint cliques of given sizes, or the complement (complete multipartite)."""
    parts, left = [], n
    while left:
        k = min(left, r.choice((1, 2, 3, 5, 8, 13)))
        parts.append(k)
        left -= k
    home = [i for i, k in enumerate(parts) for _ in range(k)]
    same = r.random() < .5
    es = [(u, v) for u, v in itertools.combinations(range(n), 2) if (home[u] == home[v]) == same]
    a, b, c, d = max(parts), len(parts), len(parts), math.prod(parts)
    return Known(n, es, a, b, c, d, "disjoint cliques") if same else Known(n, es, b, a, d, c, "complete multipartite")


def interval(r, n):
    span = r.choice((n, 3 * n, n // 2 + 1))
    iv = []
    for _ in range(n):
        a = r.randint(0, span)
        iv.append((a, a + r.choice((0, 1, 2, 5, r.randint(0, span)))))
    es = [(i, j) for i, j in itertools.combinations(range(n), 2) if iv[i][0] <= iv[j][1] and iv[j][0] <= iv[i][1]]
    ev = sorted([(a, 0) for a, _ in iv] + [(b, 1) for _, b in iv])
    depth = top = peaks = 0
    last = 0
    for _, end in ev:
        depth += -1 if end else 1
        peaks += end and not last
        last = end
        top = max(top, depth)
    alpha, at = 0, -1
    for a, b in sorted(iv, key=lambda t: t[1]):
        if a > at:
            alpha, at = alpha + 1, b
    return Known(n, es, top, alpha, peaks, None, "interval")


def known(r, lo, hi):
    n = r.randint(lo, hi)
    return r.choice((cograph, cograph, blocks, interval))(r, n)


def model_of(r, k):
    vs = GG.labels(r, k.n)
    m = GG.empty(vs)
    for u, v in k.edges:
        GG.join(m, vs[u], vs[v])
    return m, vs


@unit("G08", shards=4)
def large_cliques(ctx):
    r = ctx.rng
    names = Counter()
    for i in range(ctx.n(120)):
        if i % 10 == 0:                                # cliques of more than fifty vertices
            n, j = r.randint(45, 75), r.randint(0, 5)
            vs = GG.labels(r, n)
            m = GG.empty(vs)
            for a, b in itertools.combinations(range(n), 2):
                if a // 2 != b // 2 or a >= 2 * j:
                    GG.join(m, vs[a], vs[b])
            g = GG.build(r, m)
            for name in G8.MAXIMUM:
                size, clique = ctx.call(name, getattr(CL, name), g)
                G8.judge_max_clique(ctx, "%s on a nearly complete graph" % name, m, size, clique, n - j)
            got = ctx.take("tomita", 2**j + 2, CL.tomita, g)
            ctx.eq((len(got), {len(c) for c in got}, len(set(map(frozenset, got)))), (2**j, {n - j}, 2**j),
                   "tomita on a nearly complete graph")
            size, s = ctx.call("branch_and_bound", IS.branch_and_bound, g)
            ctx.eq(size, 2 if j else 1, "independent set of a nearly complete graph")
        k = known(r, 25, 60)
        m, vs = model_of(r, k)
        g = GG.build(r, m)
        names[k.name] += 1
        what = "%s on %d vertices" % (k.name, k.n)
        if k.cliques <= 2500:
            for name in G8.MAXIMAL:
                if name != "tomita" and not GG.few_cliques(m, 6000):
                    continue
                for fn, kw in ((getattr(CL, name), {}), (CL.maximal_cliques, {"algorithm": name})):
                    got = ctx.take(name, k.cliques + 2, fn, g, **kw)
                    ctx.eq(len(got), k.cliques, "%s: number of maximal cliques of a %s" % (name, what))
                    sets = set(map(frozenset, got))
                    ctx.check(len(sets) == len(got), "%s repeats a clique" % name)
                    ctx.eq(max(map(len, sets)), k.omega, "%s: largest maximal clique of a %s" % (name, what))
                    for c, s in zip(got, sets):
                        ctx.eq(len(c), len(set(c)), "%s: repeated vertex" % name)
                    for s in r.sample(sorted(sets, key=sorted), min(len(sets), 40)):
                        ctx.check(all(len(s & set(m[v])) == len(s) - 1 for v in s), "%s: not a clique" % name, s)
                        ctx.check(not set.intersection(*(set(m[v]) for v in s)), "%s: not maximal" % name, s)
        for name in G8.MAXIMUM:
            if name.startswith("pardalos") and not GG.few_cliques(m, 6000):
                continue
            size, clique = ctx.call(name, getattr(CL, name), g)
            G8.judge_max_clique(ctx, "%s on a %s" % (name, what), m, size, clique, k.omega)
        size, clique = ctx.call("maximum_clique", CL.maximum_clique, g)
        G8.judge_max_clique(ctx, "maximum_clique on a %s" % what, m, size, clique, k.omega)
    for kk, v in names.items():
        ctx.count(kk, v)


def weigh(r, n, p, w):
    """A random cograph on the next len(w) weights: edges and the maximum weight of a clique."""
    if n == 1:
        return [], w[0]
    a = r.randint(1, n - 1)
    (e1, x), (e2, y) = weigh(r, a, 1 - p, w[:a]), weigh(r, n - a, 1 - p, w[a:])
    es = e1 + [(u + a, v + a) for u, v in e2]
    if r.random() < p:
        return es + [(u, v) for u in range(a) for v in range(a, n)], x + y
    return es, max(x, y)


@unit("G08", shards=2)
def large_weighted(ctx):
    r = ctx.rng
    for i in range(ctx.n(80)):
        n = r.randint(20, 45)
        hi = r.choice((1, 4, 100, 10**15))
        one = GG.weight_fn(r, r.choice(("dyadic", "fraction"))) if i % 4 == 0 else lambda: r.randint(1, hi)
        w = [one() for _ in range(n)]
        es, want = weigh(r, n, .5, w)
        vs = GG.labels(r, n)
        m = GG.empty(vs)
        for u, v in es:
            GG.join(m, vs[u], vs[v])
        wm = dict(zip(vs, w))
        total, clique = ctx.call("maximum_weight_clique", CL.maximum_weight_clique, GG.build(r, m), wm)
        G8.judge_max_clique(ctx, "maximum_weight_clique", m, len(clique), clique, len(clique))
        ctx.eq(sum(wm[v] for v in clique), total, "weight of the clique")
        ctx.eq(total, want, "maximum weight on a cograph of %d vertices" % n)


@unit("G09", shards=4)
def large_stable(ctx):
    r = ctx.rng
    for i in range(ctx.n(100)):
        k = known(r, 25, 55)
        m, vs = model_of(r, k)
        g = GG.build(r, m)
        what = "%s on %d vertices" % (k.name, k.n)
        if k.stables is not None and k.stables <= 2500:
            got = ctx.take("maximal_independent_sets", k.stables + 2, IS.maximal_independent_sets, g)
            ctx.eq(len(got), k.stables, "maximal independent sets of a %s" % what)
            ctx.eq(len(set(map(frozenset, got))), len(got), "maximal_independent_sets repeats a set")
            ctx.eq(max(map(len, got)), k.alpha, "largest independent set of a %s" % what)
            for s in r.sample(got, min(len(got), 40)):
                G8.independent(ctx, "maximal_independent_sets", m, len(s), s)
                G8.maximal(ctx, "maximal_independent_sets", m, s)
        few = GG.few_cliques(GG.complement(m), 30000)  # branch_and_bound may visit every independent set
        if few or k.stables is not None and k.stables <= 20000:
            for name in ("branch_and_bound", "maximum_independent_set")[not few:]:
                size, s = ctx.call(name, getattr(IS, name), g)
                G8.independent(ctx, name, m, size, s)
                ctx.eq(size, k.alpha, "%s on a %s" % (name, what))
        size, s = ctx.call("greedy", IS.greedy, g)
        G8.independent(ctx, "greedy", m, size, s)
        G8.maximal(ctx, "greedy", m, s)
        delta = max(len(nb) for nb in m.values())
        ctx.check(3 * k.alpha <= max(delta + 2, 3) * size, "greedy: beyond the (d + 2)/3 ratio", k.alpha, size, delta)
        kind, m = large(r, r.choice((100, 300)))
        size, s = ctx.call("greedy", IS.greedy, GG.build(r, m))
        G8.independent(ctx, "greedy", m, size, s)
        G8.maximal(ctx, "greedy", m, s)


@unit("G10", shards=4)
def large_colorings(ctx):
    """Perfect graphs (the chromatic number is the clique number) and long sparse ones."""
    r = ctx.rng
    for i in range(ctx.n(80)):
        if i % 2:
            k = known(r, 20, 45)
            m, _ = model_of(r, k)
            chi, what = k.omega, "%s on %d vertices" % (k.name, k.n)
        else:
            kind, m = large(r, r.choice((60, 150, 300)), r.choice(("path", "cycle", "star", "tree", "caterpillar", "islands")))
            chi = 3 if kind == "cycle" and len(m) % 2 else 2
            chi, what = chi if GG.edges_of(m) else 1, "%s on %d vertices" % (kind, len(m))
        g = GG.build(r, m)
        delta = max(len(nb) for nb in m.values())
        for kw in ({}, {"classes": False}):
            for name in ("dsatur", "greedy_sequential"):
                x, col = ctx.call(name, getattr(CO, name), g, **kw)
                G8.judge_coloring(ctx, name, m, x, col, kw.get("classes", True))
                ctx.check(chi <= x <= delta + 1, "%s: number of colors of a %s" % (name, what), x, chi, delta)
                if name == "dsatur" and (chi <= 2 or what.startswith("cycle")):
                    ctx.check(x <= max(2, chi), "dsatur: colors of a %s" % what, x)
            x2, col = ctx.call("greedy_sequential passes", CO.greedy_sequential, g, passes=4, **kw)
            G8.judge_coloring(ctx, "greedy_sequential passes", m, x2, col, kw.get("classes", True))
            ctx.check(chi <= x2 <= x, "greedy_sequential: further passes are worse", x2, x)
        order = list(m)
        r.shuffle(order)
        x, col = ctx.call("greedy_sequential order", CO.greedy_sequential, g, vertices=list(order), classes=False)
        ff = G8.first_fit(m, order)
        G8.judge_coloring(ctx, "greedy_sequential order", m, x, col, False)
        ctx.eq(x, len(set(ff.values())), "greedy_sequential: not the first-fit coloring of the order")


@unit("G10", shards=4)
def exact_large(ctx):
    """The exact methods on perfect graphs beyond the subset table."""
    r = ctx.rng
    for i in range(ctx.n(160)):
        k = known(r, 9, 24 if i % 3 else 11)
        m, _ = model_of(r, k)
        g = GG.build(r, m)
        for name in ("branch_and_bound", "korman", "exact_coloring")[k.n > 11:2 + (k.n <= 11)]:
            kw = r.choice(({}, {"classes": False}))
            x, col = ctx.call(name, getattr(CO, name), g, **kw)
            G8.judge_coloring(ctx, name, m, x, col, kw.get("classes", True))
            ctx.eq(x, k.omega, "%s: chromatic number of a %s on %d vertices" % (name, k.name, k.n))
        if i % 4 == 0:
            # many colors: a complete graph without j disjoint edges and without a triangle
            n, j, tri = r.randint(12, 24), r.randint(0, 4), r.randint(0, 1)
            m = GG.model(r, n, kind="complete")
            vs = list(m)
            for a, b in [(2 * x, 2 * x + 1) for x in range(j)] + [(n - 1, n - 2), (n - 2, n - 3), (n - 1, n - 3)] * tri:
                del m[vs[a]][vs[b]], m[vs[b]][vs[a]]
            g = GG.build(r, m)
            for name in ("branch_and_bound", "korman", "exact_coloring"):
                kw = r.choice(({}, {"classes": False}))
                x, col = ctx.call(name, getattr(CO, name), g, **kw)
                G8.judge_coloring(ctx, name, m, x, col, kw.get("classes", True))
                ctx.eq(x, n - j - 2 * tri, "%s: chromatic number of a nearly complete graph on %d vertices" % (name, n))


# ------------------------------------------------------------------------------------- G11
@unit("G11", shards=2)
def long_hamiltonian(ctx):
    """Families whose number of directed Hamiltonian paths is known."""
    r = ctx.rng

    def fam():
        yield "path", r.randint(10, 40), lambda n: 2
        yield "cycle", r.randint(10, 30), lambda n: 2 * n
        yield "star", r.randint(6, 25), lambda n: 0
        yield "islands", r.randint(12, 20), lambda n: 0
    for i in range(ctx.n(30)):
        for kind, n, count in fam():
            if kind == "islands":
                es = [(u, u + 1) for u in range(n - 1) if u != n // 2]
            else:
                es = shape(r, n, kind)
            vs = GG.labels(r, n)
            m = GG.empty(vs)
            for u, v in es:
                GG.join(m, vs[u], vs[v])
            g = GG.build(r, m)
            want = count(n)
            for name in ("number_of_hamiltonian_paths", "number_of_hamiltonian_paths_bits",
                         "number_of_hamiltonian_paths_bits_con"):
                ctx.eq(ctx.call(name, getattr(HP, name), g), want, "%s of a %s on %d vertices" % (name, kind, n))
            for name in ("hamiltonian_paths", "hamiltonian_paths_con"):
                got = ctx.take(name, want + 2, getattr(HP, name), g)
                ctx.eq(len(got), want, "%s of a %s on %d vertices" % (name, kind, n))
                ctx.eq(len(set(map(tuple, got))), want, "%s repeats a path" % name)
                for p in got:
                    ctx.check(len(p) == n == len(set(p)) and all(b in m[a] for a, b in zip(p, p[1:])),
                              "%s: not a Hamiltonian path" % name, p)
        a = r.randint(3, 4)
        b = a + r.randint(0, 1)
        want = math.factorial(a) * math.factorial(b) * (2 if a == b else 1)
        vs = GG.labels(r, a + b)
        m = GG.empty(vs)
        for u in range(a):
            for v in range(a, a + b):
                GG.join(m, vs[u], vs[v])
        g = GG.build(r, m)
        for name in ("number_of_hamiltonian_paths", "number_of_hamiltonian_paths_bits",
                     "number_of_hamiltonian_paths_bits_con", "number_of_hamiltonian_paths5",
                     "number_of_hamiltonian_paths5_con"):
            ctx.eq(ctx.call(name, getattr(HP, name), g), want, "%s of K(%d, %d)" % (name, a, b))
        # walks: exact big counts over many steps
        kind, m = large(r, r.choice((10, 25)))
        g = GG.build(r, m)
        allowed = set(r.sample(list(m), r.randint(len(m) // 2, len(m))))
        s = r.choice(sorted(allowed))
        length = r.randint(10, 120)
        cur = Counter({s: 1})
        for _ in range(length):
            nxt = Counter()
            for u, c in cur.items():
                for v in m[u]:
                    if v in allowed:
                        nxt[v] += c
            cur = nxt
        got = ctx.call("walks", HP.walks, g, s, length, allowed)
        ctx.eq({u: c for u, c in got.items() if c}, dict(cur), "walks of length %d" % length)


# ------------------------------------------------------------------------------------- G12
def realise(seq):
    """Constructive decision: lay off the smallest degree against the largest ones (Havel-Hakimi, smallest pivot)."""
    if sum(seq) % 2 or min(seq, default=0) < 0:
        return False
    left = sorted(seq)
    while left:
        d = left.pop(0)
        if d > len(left):
            return False
        for i in range(len(left) - d, len(left)):
            left[i] -= 1
            if left[i] < 0:
                return False
        left.sort()
    return True


@unit("G12", shards=2)
def long_sequences(ctx):
    r = ctx.rng
    kinds = Counter()
    for i in range(ctx.n(400)):
        n = r.choice((12, 30, 80, 200))
        # a threshold graph: each new vertex is isolated or dominates; its sequence is extreme, so that moving one
        # unit from a smaller degree to one at least as large leaves the graphic sequences
        seq = []
        p = r.random()
        for v in range(n):
            if r.random() < p:
                seq = [d + 1 for d in seq] + [v]
            else:
                seq.append(0)
        r.shuffle(seq)
        G8.both(ctx, list(seq), True)
        kinds[True] += 1
        a, b = r.sample(range(n), 2)
        if seq[a] > seq[b]:
            a, b = b, a
        if seq[a] > 0:
            up = list(seq)
            up[a] -= 1
            up[b] += 1
            G8.both(ctx, up, False)
            kinds[False] += 1
        a, b = (b, a)
        if seq[a] > seq[b] + 1:
            down = list(seq)
            down[a] -= 1
            down[b] += 1
            G8.both(ctx, down, True)
        top = r.choice((3, n // 4 + 1, n // 2, n - 1, n))
        for seq in ([r.randint(0, top) for _ in range(n)],
                    [r.choice((1, top, top)) for _ in range(n)],
                    [r.choice((n - 1, n - 2, n // 2)) if j < r.randint(0, n) else r.randint(1, 4) for j in range(n)]):
            want = realise(seq)
            kinds[want] += 1
            G8.both(ctx, list(seq), want)
            if sum(seq) % 2:
                seq[r.randrange(n)] += 1
                want = realise(seq)
                kinds[want] += 1
                G8.both(ctx, list(seq), want)
    for k, v in kinds.items():
        ctx.count("long sequences graphic=%s" % k, v)
