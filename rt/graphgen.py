"""Graph workloads and model-side graph helpers.

A model graph is a dict  vertex -> {neighbour: weight}.  The library graph is built from the model
through the public API in a random insertion order.
"""
import itertools
from fractions import Fraction

from rosemary.graphs.graphs import Graph

INF = float("inf")


def empty(vs):
    return {v: {} for v in vs}


def join(m, u, v, w=1):
    m[u][v] = w
    m[v][u] = w


def labels(r, n):
    k = r.randrange(6)
    if k in (0, 1):
        vs = list(range(n))
    elif k == 2:
        vs = r.sample(range(1, 10 * n + 2), n)
    elif k == 3:
        vs = ["v%d" % i for i in range(n)]
    elif k == 4:
        vs = [(i // 3, i % 3) for i in range(n)]
    else:
        vs = r.sample(range(-2 * n - 1, 2 * n + 2), n)
    if r.random() < .5:
        r.shuffle(vs)
    return vs


def structure(r, n, kind=None):
    """Edge list on 0..n-1 of a structured or random simple graph."""
    kinds = ("gnp", "gnp", "gnp", "complete", "edgeless", "path", "cycle", "star", "bipartite", "grid",
             "tree", "union", "multipartite", "wheel", "dense", "sparse", "connected", "regular",
             "cocktail", "pendant")
    kind = kind or r.choice(kinds)
    pairs = list(itertools.combinations(range(n), 2))
    if kind == "gnp":
        p = r.random()
        return [e for e in pairs if r.random() < p]
    if kind == "dense":
        return [e for e in pairs if r.random() < .85]
    if kind == "sparse":
        return [e for e in pairs if r.random() < 1.5 / max(2, n)]
    if kind == "complete":
        return pairs
    if kind == "edgeless":
        return []
    if kind == "path":
        return [(i, i + 1) for i in range(n - 1)]
    if kind == "cycle":
        return [(i, (i + 1) % n) for i in range(n)] if n > 2 else [(i, i + 1) for i in range(n - 1)]
    if kind == "star":
        return [(0, i) for i in range(1, n)]
    if kind == "wheel":
        return [(0, i) for i in range(1, n)] + [(i, i + 1) for i in range(1, n - 1)] + ([(n - 1, 1)] if n > 3 else [])
    if kind == "bipartite":
        a = r.randint(0, n)
        p = r.random()
        return [(i, j) for i in range(a) for j in range(a, n) if r.random() < p]
    if kind == "grid":
        c = max(1, int(n**.5))
        return [(i, i + 1) for i in range(n - 1) if (i + 1) % c] + [(i, i + c) for i in range(n - c)]
    if kind == "tree":
        return [(r.randrange(i), i) for i in range(1, n)]
    if kind == "pendant":                             # a clique with tails
        k = max(1, n // 2)
        return list(itertools.combinations(range(k), 2)) + [(r.randrange(i), i) for i in range(k, n)]
    if kind == "connected":
        e = {(r.randrange(i), i) for i in range(1, n)}
        p = r.random()**2
        return list(e | {x for x in pairs if r.random() < p})
    if kind == "union":
        a = r.randint(0, n)
        left = structure(r, a)
        right = structure(r, n - a)
        return left + [(u + a, v + a) for u, v in right]
    if kind == "multipartite":
        k = r.randint(1, max(1, n))
        part = [r.randrange(k) for _ in range(n)]
        return [(u, v) for u, v in pairs if part[u] != part[v]]
    if kind == "cocktail":                            # complement of a perfect matching
        return [(u, v) for u, v in pairs if u // 2 != v // 2]
    if kind == "regular":                             # circulant
        steps = r.sample(range(1, max(2, n // 2 + 1)), min(max(1, n // 2), r.randint(1, 3)))
        return [e for e in {tuple(sorted((i, (i + s) % n))) for i in range(n) for s in steps} if e[0] != e[1]]
    raise AssertionError(kind)


def weight_fn(r, kind=None):
    kind = kind or r.choice(("unit", "tiny", "tiny", "int", "zero", "big", "dyadic", "fraction"))
    if kind == "unit":
        return lambda: 1
    if kind == "tiny":
        return lambda: r.randint(1, 3)
    if kind == "int":
        return lambda: r.randint(1, 100)
    if kind == "zero":
        return lambda: r.choice((0, 0, 1, 2, 5))
    if kind == "big":
        return lambda: r.randint(1, 10**18)
    if kind == "dyadic":
        return lambda: r.randint(1, 64) / 8.0
    if kind == "fraction":
        return lambda: Fraction(r.randint(1, 30), r.randint(1, 7))
    if kind == "neg":
        return lambda: r.randint(-9, 9)
    raise AssertionError(kind)


def model(r, n, kind=None, weights="unit", lab=None):
    vs = lab or labels(r, n)
    m = empty(vs)
    w = weight_fn(r, weights)
    for u, v in structure(r, n, kind):
        if u != v:
            join(m, vs[u], vs[v], w())
    return m


def edges_of(m):
    return [(u, v, w) for u in m for v, w in m[u].items() if u < v]


def build(r, m):
    """The library graph of a model, built through the public API in random order."""
    g = Graph()
    vs = list(m)
    es = edges_of(m)
    if r.random() < .7:
        r.shuffle(vs)
        r.shuffle(es)
    first = r.random() < .5
    if first:
        g.add_vertices(vs)
    for u, v, w in es:
        if r.random() < .5:
            u, v = v, u
        if w == 1 and r.random() < .5:
            g.add_edge(u, v)
        else:
            g.add_edge(u, v, w)
    if not first:
        for v in vs:
            g.add_vertex(v)
    return g


def read(g):
    """The library graph as a model, through its public interface only."""
    return {u: {v: g[u][v] for v in g.neighbors(u)} for u in g.vertex_set()}


def components(m, among=None):
    left = set(m if among is None else among)
    pool = set(left)
    out = []
    while left:
        todo = [left.pop()]
        comp = set(todo)
        while todo:
            u = todo.pop()
            for v in m[u]:
                if v in pool and v not in comp:
                    comp.add(v)
                    todo.append(v)
        left -= comp
        out.append(comp)
    return out


def levels(m, s):
    d = {s: 0}
    frontier = [s]
    while frontier:
        nxt = []
        for u in frontier:
            for v in m[u]:
                if v not in d:
                    d[v] = d[u] + 1
                    nxt.append(v)
        frontier = nxt
    return d


def distances(m, s):
    """Shortest distances by repeated relaxation of every edge (nonnegative weights)."""
    d = {v: INF for v in m}
    d[s] = 0
    changed = True
    while changed:
        changed = False
        for u in m:
            if d[u] == INF:
                continue
            for v, w in m[u].items():
                if d[u] + w < d[v]:
                    d[v] = d[u] + w
                    changed = True
    return d


def forest_weight(m, among=None):
    """Weight and number of edges of a minimum spanning forest (component relabelling)."""
    pool = set(m if among is None else among)
    comp = {v: i for i, v in enumerate(pool)}
    total, count = 0, 0
    for w, u, v in sorted(((w, u, v) for u, v, w in edges_of(m) if u in pool and v in pool), key=lambda t: t[0]):
        a, b = comp[u], comp[v]
        if a != b:
            total += w
            count += 1
            for x in pool:
                if comp[x] == a:
                    comp[x] = b
    return total, count


def bits(m):
    """(vertex list, neighbour masks)"""
    vs = list(m)
    idx = {v: i for i, v in enumerate(vs)}
    return vs, [sum(1 << idx[x] for x in m[v]) for v in vs]


def clique_table(m):
    """For n <= ~14: list of all clique masks, by extension of smaller ones."""
    vs, nb = bits(m)
    out = [0]
    level = [(0, (1 << len(vs)) - 1)]
    while level:
        nxt = []
        for c, ext in level:
            e = ext
            while e:
                b = e & -e
                e ^= b
                i = b.bit_length() - 1
                # only extend by higher vertices
                nxt.append((c | b, ext & nb[i] & ~((b << 1) - 1)))
        out += [c for c, _ in nxt]
        level = nxt
    return vs, nb, out


def maximal_cliques(m):
    """Set of frozensets: the inclusion-maximal cliques."""
    vs, nb, cl = clique_table(m)
    out = set()
    for c in cl:
        common = (1 << len(vs)) - 1
        x = c
        while x:
            b = x & -x
            x ^= b
            common &= nb[b.bit_length() - 1]
        if not common & ~c:
            out.add(frozenset(vs[i] for i in range(len(vs)) if c >> i & 1))
    return out


def complement(m):
    c = empty(m)
    for u, v in itertools.combinations(m, 2):
        if v not in m[u]:
            join(c, u, v)
    return c


def chromatic(m):
    """Chromatic number by inclusion-exclusion over independent sets (n <= ~14)."""
    vs, nb = bits(m)
    n = len(vs)
    if n == 0:
        return 0
    ind = [1] * (1 << n)                               # independent subsets (empty included)
    for s in range(1, 1 << n):
        b = s & -s
        i = b.bit_length() - 1
        ind[s] = ind[s ^ b] + ind[(s ^ b) & ~nb[i]]
    for k in range(1, n + 1):
        total = 0
        for s in range(1 << n):
            total += (-1)**(n - bin(s).count("1")) * ind[s]**k
        if total > 0:
            return k
    return n


def backtracks(m, cap=4000):
    """Number of ordered independent sequences of the model, or cap: the cost of a naive backtracking."""
    vs, nb = bits(m)
    memo = {}

    def rec(mask):
        if not mask:
            return 1
        if mask not in memo:
            total, e = 1, mask
            while e and total < cap:
                b = e & -e
                e ^= b
                total += rec(mask & ~b & ~nb[b.bit_length() - 1])
            memo[mask] = min(total, cap)
        return memo[mask]
    return rec((1 << len(vs)) - 1)


def few_cliques(m, cap=20000):
    """Does the model have fewer than cap cliques (maximal or not)?"""
    vs, nb = bits(m)
    count, stack = 0, [(1 << len(vs)) - 1]
    while stack and count < cap:
        e = stack.pop()
        count += 1
        while e:
            b = e & -e
            e ^= b
            stack.append(e & nb[b.bit_length() - 1])
    return count < cap
