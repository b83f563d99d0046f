"""G01 Graph API.  G02 graph constructors and loaders.  G03 traversal.  G04 connectivity."""
import itertools
import math
import os
import random
import shutil
import tempfile

from rt import graphgen as GG
from rt.core import unit

from rosemary.graphs import graphs as G
from rosemary.graphs.algorithms import connectivity as CN
from rosemary.graphs.algorithms import hamiltonian_paths as HP
from rosemary.graphs.algorithms import traversal as TR


# ------------------------------------------------------------------------------------- G01
def cells(ctx, mat, n):
    return [[mat[i][j] for j in range(n)] for i in range(n)]


def audit(ctx, g, m, full):
    """Every query of the graph agrees with the model."""
    ctx.eq(GG.read(g), m, "graph and model")
    ctx.eq(ctx.call("num_vertices", g.num_vertices), len(m), "num_vertices")
    es = {(u, v) for u, v, _ in GG.edges_of(m)}
    ctx.eq(ctx.call("num_edges", g.num_edges), len(es), "num_edges")
    if not full:
        return
    vs = sorted(m)
    ctx.eq(ctx.call("vertices", g.vertices), vs, "vertices")
    ctx.eq(ctx.call("vertices reverse", g.vertices, reverse=True), vs[::-1], "vertices reversed")
    ctx.eq(ctx.call("vertex_set", g.vertex_set), set(m), "vertex_set")
    ctx.eq(sorted(ctx.call("iter", list, g)), vs, "iteration")
    ctx.eq(ctx.call("edge_set", g.edge_set), es, "edge_set")
    ctx.eq(ctx.call("edges", g.edges), sorted(es), "edges")
    wes = {(u, v, w) for u, v, w in GG.edges_of(m)}
    ctx.eq(ctx.call("edge_set weights", g.edge_set, weights=True), wes, "edge_set weights")
    ctx.eq(ctx.call("edges weights", g.edges, weights=True), sorted(wes), "edges weights")
    ctx.eq(ctx.call("leaves", g.leaves), {u for u in m if len(m[u]) == 1}, "leaves")
    ctx.eq(repr(g), "Graph on %d vertices" % len(m), "repr")
    deg = {u: len(m[u]) for u in m}
    for u in m:
        ctx.eq(ctx.call("degree", g.degree, u), deg[u], "degree")
        ctx.eq(ctx.call("neighbors", g.neighbors, u), set(m[u]), "neighbors")
        ctx.eq(ctx.call("neighborhood", g.neighborhood, u), set(m[u]), "neighborhood")
        ctx.eq(ctx.call("closed_neighborhood", g.closed_neighborhood, u), set(m[u]) | {u}, "closed_neighborhood")
    ctx.eq(ctx.call("total_degree", g.total_degree), sum(deg.values()), "total_degree")
    part = [u for u in m if ctx.rng.random() < .5]
    ctx.eq(ctx.call("total_degree list", g.total_degree, part), sum(deg[u] for u in part), "total_degree of a list")
    if m:
        hi, lo = max(deg.values()), min(deg.values())
        ctx.eq(ctx.call("maximum_degree", g.maximum_degree), hi, "maximum_degree")
        ctx.eq(ctx.call("minimum_degree", g.minimum_degree), lo, "minimum_degree")
        ctx.eq(deg[ctx.call("maximum_degree_vertex", g.maximum_degree_vertex)], hi, "maximum_degree_vertex")
        ctx.eq(deg[ctx.call("minimum_degree_vertex", g.minimum_degree_vertex)], lo, "minimum_degree_vertex")
    else:
        for f in (g.maximum_degree, g.minimum_degree, g.maximum_degree_vertex, g.minimum_degree_vertex):
            ctx.raises("degree of nothing", ValueError, f)
    if len(m) > 1:
        d = ctx.call("density", g.density)
        ctx.check(abs(d - 2.0 * len(es) / (len(m) * (len(m) - 1))) < 1e-12, "density", d)
    by = ctx.call("vertices degree", g.vertices, order="degree")
    ctx.eq(sorted(by), vs, "vertices by degree: set")
    ctx.check(all(deg[a] <= deg[b] for a, b in zip(by, by[1:])), "vertices not in order of degree", by)
    rev = ctx.call("vertices degree reverse", g.vertices, order="degree", reverse=True)
    ctx.check(all(deg[a] >= deg[b] for a, b in zip(rev, rev[1:])), "not in reverse order of degree", rev)
    ctx.eq(sorted(rev), vs, "vertices by degree reversed: set")
    ind = ctx.call("vertices induced", g.vertices, order="induced")
    ctx.eq(sorted(ind), vs, "vertices induced: set")
    left = set(m)
    for u in ind:
        d = {x: len(left & set(m[x])) for x in left}
        ctx.eq(d[u], min(d.values()), "induced order: not a vertex of least remaining degree")
        left.discard(u)
    n = len(vs)
    if n:
        A = cells(ctx, ctx.call("adjacency_matrix", g.adjacency_matrix), n)
        want = [[int(v in m[u]) for v in vs] for u in vs]
        ctx.eq(A, want, "adjacency_matrix")
        D = cells(ctx, ctx.call("degree_matrix", g.degree_matrix), n)
        ctx.eq(D, [[deg[u] if i == j else 0 for j in range(n)] for i, u in enumerate(vs)], "degree_matrix")
        L = cells(ctx, ctx.call("laplacian_matrix", g.laplacian_matrix), n)
        ctx.eq(L, [[D[i][j] - want[i][j] for j in range(n)] for i in range(n)], "laplacian_matrix")


def m_copy(m):
    return {u: dict(nb) for u, nb in m.items()}


def m_del(m, us):
    out = m_copy(m)
    for u in us:
        if u in out:
            for v in out.pop(u):
                out[v].pop(u, None)
    return out


def m_del_edge(m, u, v):
    out = m_copy(m)
    if u in out:
        out[u].pop(v, None)
    if v in out:
        out[v].pop(u, None)
    return out


def derived(ctx, g, m):
    """Operations returning a new graph leave this one alone, and the result is independent."""
    r = ctx.rng
    vs = list(m)
    some = r.sample(vs, r.randint(0, len(vs)))
    outs = []
    outs.append(("copy", ctx.call("copy", g.copy), m_copy(m)))
    u = r.choice(vs)
    outs.append(("remove_vertex", ctx.call("remove_vertex", g.remove_vertex, u), m_del(m, [u])))
    form = r.choice((list, set, tuple))
    outs.append(("remove_vertices", ctx.call("remove_vertices", g.remove_vertices, form(some)), m_del(m, some)))
    outs.append(("remove_neighborhood", ctx.call("remove_neighborhood", g.remove_neighborhood, u),
                 m_del(m, m[u])))
    outs.append(("remove_closed_neighborhood",
                 ctx.call("remove_closed_neighborhood", g.remove_closed_neighborhood, u),
                 m_del(m, list(m[u]) + [u])))
    keep = set(some)
    outs.append(("induced_subgraph", ctx.call("induced_subgraph", g.induced_subgraph, form(some)),
                 {x: {y: w for y, w in m[x].items() if y in keep} for x in keep}))
    outs.append(("complement", ctx.call("complement", g.complement), GG.complement(m)))
    if len(vs) > 1:
        a, b = r.sample(vs, 2)
        es = GG.edges_of(m)
        if es and r.random() < .7:
            a, b, _ = r.choice(es)
        if r.random() < .5:
            a, b = b, a
        style = r.randrange(3)
        args = ((a, b), ((a, b),), ((a, b, 1),))[style]
        outs.append(("remove_edge", ctx.call("remove_edge", g.remove_edge, *args), m_del_edge(m, a, b)))
    for name, h, want in outs:
        ctx.eq(GG.read(h), want, name)
        ctx.eq(GG.read(g), m, "%s changed the original" % name)
    # independence: edit the results, then look at the original, and vice versa
    name, h, want = r.choice(outs)
    for x in list(h.vertex_set())[:3]:
        h.add_edge(x, "#new" if isinstance(x, str) else (-99, -99) if isinstance(x, tuple) else 10**6)
    es = h.edges()
    if es:
        h.add_edge(es[0][0], es[0][1], 424242)
        h.delete_edge(es[-1])
    ctx.eq(GG.read(g), m, "editing the result of %s changed the original" % name)
    for what in (g.vertex_set, g.edge_set, g.leaves):
        s = what()
        s.clear()
    for v in vs[:3]:
        g.neighbors(v).clear()
        g.closed_neighborhood(v).add("#junk")
    g.vertices().clear()
    g.edges().clear()
    ctx.eq(GG.read(g), m, "clearing a returned collection changed the graph")


@unit("G01", shards=8)
def graph_model(ctx):
    r = ctx.rng
    for case in range(ctx.n(540)):
        pool = GG.labels(r, r.choice((2, 3, 5, 8, 12)))
        g, m = ctx.call("Graph", G.Graph), {}
        wf = GG.weight_fn(r)
        for step in range(r.randint(5, 40)):
            op = r.random()
            u, v = r.choice(pool), r.choice(pool)
            while u == v:
                v = r.choice(pool)
            some = r.sample(pool, r.randint(0, min(4, len(pool))))
            if op < .40:
                style = r.randrange(5)
                w = wf() if style in (1, 3) else 1
                args = ((u, v), (u, v, w), ((u, v),), ((u, v, w),), (u, v))[style]
                ctx.call("add_edge", g.add_edge, *args, _mutates=True)
                m.setdefault(u, {})[v] = w
                m.setdefault(v, {})[u] = w
            elif op < .48:
                ctx.call("add_vertex", g.add_vertex, u, _mutates=True)
                m.setdefault(u, {})
            elif op < .56:
                ctx.call("add_vertices", g.add_vertices, r.choice((list, set, tuple))(some), _mutates=True)
                for x in some:
                    m.setdefault(x, {})
            elif op < .66:
                es = []
                for _ in range(r.randint(0, 5)):
                    a, b = r.sample(pool, 2)
                    es.append((a, b) if r.random() < .5 else (a, b, wf()))
                ctx.call("add_edges", g.add_edges, es, _mutates=True)
                for e in es:
                    w = e[2] if len(e) == 3 else 1
                    m.setdefault(e[0], {})[e[1]] = w
                    m.setdefault(e[1], {})[e[0]] = w
            elif op < .76:
                ctx.call("delete_vertex", g.delete_vertex, u, _mutates=True)
                m = m_del(m, [u])
            elif op < .83:
                ctx.call("delete_vertices", g.delete_vertices, r.choice((list, set, tuple))(some), _mutates=True)
                m = m_del(m, some)
            else:
                es = GG.edges_of(m)
                if es and r.random() < .75:
                    u, v, _ = r.choice(es)
                    if r.random() < .5:
                        u, v = v, u
                args = ((u, v), ((u, v),), ((u, v, 1),))[r.randrange(3)]
                ctx.call("delete_edge", g.delete_edge, *args, _mutates=True)
                m = m_del_edge(m, u, v)
            if r.random() < .05:
                bad = r.choice(((u, v, 1, 1), (u,), (u, v, 1, v, u)))
                ctx.raises("malformed edge", ValueError, r.choice((g.delete_edge, g.remove_edge)), bad)
            audit(ctx, g, m, full=r.random() < .2)
        audit(ctx, g, m, True)
        if m:
            derived(ctx, g, m)
            audit(ctx, g, m, True)
        g = ctx.call("Graph", G.Graph)
        ctx.eq(g.num_vertices(), 0, "a new graph is empty")


@unit("G01")
def medium_graphs(ctx):
    r = ctx.rng
    for _ in range(ctx.n(144)):
        m = GG.model(r, r.randint(15, 40), weights=None)
        g = GG.build(r, m)
        audit(ctx, g, m, True)
        derived(ctx, g, m)
        big = set(m)
        vs = list(m)
        r.shuffle(vs)
        for u in vs[:6]:
            ctx.call("delete_vertex", g.delete_vertex, u, _mutates=True)
            m = m_del(m, [u])
        audit(ctx, g, m, True)
        ctx.check(big > set(m), "vertices removed")


# ------------------------------------------------------------------------------------- G02
def shape(ctx, g, vs, adjacent, what):
    m = {u: {} for u in vs}
    for u, v in itertools.combinations(vs, 2):
        if adjacent(u, v):
            GG.join(m, u, v)
    ctx.eq(GG.read(g), m, what)
    ctx.eq(g.num_vertices(), len(vs), what + " num_vertices")


@unit("G02", shards=2)
def families(ctx):
    r = ctx.rng
    for n in range(0, 14):
        g = ctx.call("complete_graph", G.complete_graph, n)
        shape(ctx, g, range(n), lambda u, v: True, "complete_graph(%d)" % n)
        g = ctx.call("coprime_pairs_graph", G.coprime_pairs_graph, n)
        shape(ctx, g, range(1, n + 1), lambda u, v: math.gcd(u, v) == 1, "coprime_pairs_graph(%d)" % n)
    for n in list(range(15)) + [20]:
        g = ctx.call("grid_graph", G.grid_graph, n)
        shape(ctx, g, range(n * n),
              lambda u, v: abs(u // n - v // n) + abs(u % n - v % n) == 1, "grid_graph(%d)" % n)
    for n in (40, 65):
        g = ctx.call("complete_graph", G.complete_graph, n)
        shape(ctx, g, range(n), lambda u, v: True, "complete_graph(%d)" % n)
    g = ctx.call("coprime_pairs_graph", G.coprime_pairs_graph, 120)
    shape(ctx, g, range(1, 121), lambda u, v: math.gcd(u, v) == 1, "coprime_pairs_graph(120)")
    p = ctx.call("petersen_graph", G.petersen_graph)
    ctx.eq((p.num_vertices(), p.num_edges()), (10, 15), "petersen order and size")
    m = GG.read(p)
    ctx.eq({len(nb) for nb in m.values()}, {3}, "petersen is cubic")
    # strongly regular (10, 3, 0, 1): this determines the graph
    for u, v in itertools.combinations(m, 2):
        ctx.eq(len(set(m[u]) & set(m[v])), 0 if v in m[u] else 1, "petersen common neighbours")
    for k in range(1, 8 if not ctx.thorough else 9):
        g = ctx.call("odd_graph", G.odd_graph, k)
        vs = g.vertices()
        ctx.eq(len(vs), math.comb(2 * k - 1, k - 1), "odd_graph(%d) order" % k)
        ctx.check(all(len(set(u)) == k - 1 for u in vs), "odd graph labels are (k-1)-subsets", k)
        ctx.eq(len({frozenset(u) for u in vs}), len(vs), "odd graph labels are distinct sets")
        ctx.eq(len(set().union(*map(set, vs))), 2 * k - 1 if k > 1 else 0, "odd graph ground set")
        ctx.check(all(g.degree(u) == k for u in vs) or k == 1, "odd graph is k-regular", k)
        sets = {u: frozenset(u) for u in vs}
        for u in vs if k < 6 else r.sample(vs, 40):
            ctx.eq(g.neighbors(u), {v for v in vs if v != u and not sets[u] & sets[v]}, "odd graph adjacency")


@unit("G02")
def random_graphs(ctx):
    r = ctx.rng
    for i in range(ctx.n(720)):
        n = r.choice((0, 1, 2, 3, 10, 60))
        d = r.choice((0, 0.0, 1, 1.0, .5, .1, .9, .3))
        g = ctx.call("random_graph", G.random_graph, n, d)
        m = GG.read(g)
        ctx.eq(set(m), set(range(n)), "random_graph vertices")
        for u in m:
            ctx.check(u not in m[u], "random_graph: loop", u)
            for v in m[u]:
                ctx.eq(m[v].get(u), m[u][v], "random_graph: asymmetric edge")
                ctx.eq(m[u][v], 1, "random_graph weight")
        pairs = n * (n - 1) // 2
        e = g.num_edges()
        if d == 1:
            ctx.eq(e, pairs, "random_graph with probability 1")
        elif d == 0:
            ctx.eq(e, 0, "random_graph with probability 0")
        elif n == 60:
            # 8 standard deviations
            ctx.check(abs(e - pairs * d) <= 8 * math.sqrt(pairs * d * (1 - d)), "random_graph density", n, d, e)


@unit("G02")
def loaders(ctx):
    r = ctx.rng
    base = tempfile.mkdtemp(prefix="rt-graphs-")
    try:
        for i in range(ctx.n(480)):
            n = r.randint(1, 30)
            m = GG.model(r, n, lab=r.sample(range(1, r.choice((50, 400, 10**5, 10**9))), n))
            es = [(u, v) if r.random() < .5 else (v, u) for u, v, _ in GG.edges_of(m)]
            r.shuffle(es)
            es += r.sample(es, min(len(es), r.randint(0, 3)))      # repeated lines
            want = {}
            for u, v in es:
                want.setdefault(u, {})[v] = 1
                want.setdefault(v, {})[u] = 1
            end = r.choice(("\n", ""))
            path = os.path.join(base, "g%d.txt" % i)
            with open(path, "w") as f:
                f.write("\n".join("%d %d" % e for e in es) + (end if es else ""))
            ctx.eq(GG.read(ctx.call("load_graph", G.load_graph, path)), want, "load_graph")
            path = os.path.join(base, "d%d.col" % i)
            lines = ["c a comment", "p edge %d %d" % (n, len(es))] + ["e %d %d" % e for e in es]
            if r.random() < .5:
                lines.insert(r.randint(0, len(lines)), "c another")
            if r.random() < .3:
                lines.append("")
            with open(path, "w") as f:
                f.write("\n".join(lines) + end)
            ctx.eq(GG.read(ctx.call("load_dimacs_graph", G.load_dimacs_graph, path)), want, "load_dimacs_graph")
    finally:
        shutil.rmtree(base)


# ------------------------------------------------------------------------------------- G03
def small(r, i):
    n = r.choice((1, 2, 3, 4, 5, 6, 8, 10, 14)) if i % 6 else r.randint(20, 60)
    return GG.model(r, n, weights=None)


@unit("G03", shards=4)
def breadth_first(ctx):
    r = ctx.rng
    for i in range(ctx.n(6000)):
        m = small(r, i)
        g = GG.build(r, m)
        s = r.choice(list(m))
        lev = GG.levels(m, s)
        order = ctx.take("breadth_first_search", len(m) + 2, TR.breadth_first_search, g, s)
        ctx.eq(len(order), len(lev), "BFS: number of vertices")
        ctx.eq(set(order), set(lev), "BFS: reachable set")
        ctx.eq(order[0], s, "BFS starts at the start")
        ctx.check(all(lev[a] <= lev[b] for a, b in zip(order, order[1:])), "BFS not in order of distance", order)
        # queue discipline: the first-visited neighbours appear in a monotone order
        pos = {v: k for k, v in enumerate(order)}
        parents = [min(pos[x] for x in m[v] if lev[x] == lev[v] - 1) for v in order[1:]]
        ctx.check(parents == sorted(parents), "BFS not in queue order", order)
        for depth in {0, 1, 2, r.randint(0, len(m)), max(lev.values()), max(lev.values()) + 1}:
            got = ctx.take("breadth_first_search depth", len(m) + 2, TR.breadth_first_search, g, s, depth)
            ctx.eq(len(got), len(set(got)), "BFS repeats a vertex")
            ctx.eq(set(got), {v for v in lev if lev[v] <= depth}, "BFS to depth %d" % depth)
        ctx.eq(ctx.take("bfs max_depth=None", len(m) + 2, TR.breadth_first_search, g, s, max_depth=None), order,
               "explicit default depth")
        prev = ctx.call("breadth_first_search_tree", TR.breadth_first_search_tree, g, s)
        ctx.eq(set(prev), set(lev), "BFS tree vertices")
        ctx.eq(prev[s], None, "root of the BFS tree")
        for v in lev:
            if v != s:
                ctx.check(prev[v] in m[v] and lev[prev[v]] == lev[v] - 1, "BFS tree parent", v, prev[v])


def dfs_order_ok(ctx, m, order):
    """Each next vertex is adjacent to the most recent vertex that still has an unvisited neighbour."""
    seen, stack = {order[0]}, [order[0]]
    for v in order[1:]:
        while stack and all(x in seen for x in m[stack[-1]]):
            stack.pop()
        ctx.check(bool(stack) and v in m[stack[-1]] and v not in seen, "not a depth-first order", order, v)
        seen.add(v)
        stack.append(v)


@unit("G03", shards=4)
def depth_first(ctx):
    r = ctx.rng
    for i in range(ctx.n(6000)):
        m = small(r, i)
        g = GG.build(r, m)
        s = r.choice(list(m))
        lev = GG.levels(m, s)
        order = ctx.take("depth_first_search", len(m) + 2, TR.depth_first_search, g, s)
        ctx.eq(len(order), len(lev), "DFS: number of vertices")
        ctx.eq(set(order), set(lev), "DFS: reachable set")
        ctx.eq(order[0], s, "DFS starts at the start")
        dfs_order_ok(ctx, m, order)
        for depth in {0, 1, 2, r.randint(0, len(m)), len(m)}:
            got = ctx.take("depth_first_search depth", len(m) + 2, TR.depth_first_search, g, s, depth)
            ctx.eq(len(got), len(set(got)), "DFS repeats a vertex")
            ctx.eq(got[0], s, "DFS starts at the start")
            ctx.check(all(lev.get(v, len(m) + 1) <= depth for v in got), "DFS beyond the depth limit", got, depth)
            for k in range(1, len(got)):
                ctx.check(any(x in m[got[k]] for x in got[:k]), "DFS jumps", got, k)
            if depth >= 1:
                ctx.check(set(m[s]) <= set(got), "DFS to depth >= 1 misses a neighbour of the start", got)
            if depth >= len(lev):
                ctx.eq(set(got), set(lev), "DFS with an ample depth limit")
        prev = ctx.call("depth_first_search_tree", TR.depth_first_search_tree, g, s)
        ctx.eq(set(prev), set(lev), "DFS tree vertices")
        ctx.eq(prev[s], None, "root of the DFS tree")
        anc = {}
        for v in prev:
            chain, x = [], v
            while x is not None and len(chain) <= len(m):
                chain.append(x)
                x = prev[x]
            ctx.check(chain[-1] == s, "DFS tree: not rooted at the start", prev)
            anc[v] = set(chain)
            ctx.check(v == s or prev[v] in m[v], "DFS tree parent is not a neighbour", v, prev[v])
        for u in lev:
            for v in m[u]:
                ctx.check(u in anc[v] or v in anc[u], "DFS tree has a cross edge", u, v, prev)


# ------------------------------------------------------------------------------------- G04
@unit("G04", shards=4)
def connectivity(ctx):
    r = ctx.rng
    kinds = {}
    for i in range(ctx.n(10800)):
        m = small(r, i) if i % 9 else GG.model(r, r.randint(1, 9), kind="sparse")
        if i == 0:
            m = {}
        g = GG.build(r, m)
        comps = GG.components(m)
        kinds[min(len(comps), 4)] = kinds.get(min(len(comps), 4), 0) + 1
        got = ctx.call("connected_components", CN.connected_components, g)
        ctx.eq(sum(len(c) for c in got), len(m), "components: total size")
        ctx.eq(sorted(sorted(c) for c in got), sorted(sorted(c) for c in comps), "connected_components")
        for u in r.sample(list(m), min(3, len(m))):
            c = ctx.call("connected_component", CN.connected_component, g, u)
            ctx.eq(sorted(c), sorted(next(x for x in comps if u in x)), "connected_component")
        ctx.eq(bool(ctx.call("is_connected", CN.is_connected, g)), len(comps) <= 1, "is_connected")
        for _ in range(2):
            some = set(r.sample(list(m), r.randint(0, len(m))))
            ctx.eq(bool(ctx.call("is_connected2", HP.is_connected2, g, some)),
                   len(GG.components(m, some)) <= 1, "connectivity of an induced subgraph")
    for k, v in kinds.items():
        ctx.count("graphs with %s components" % ("4+" if k == 4 else k), v)
