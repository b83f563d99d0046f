"""G08 cliques.  G09 independent sets.  G10 coloring.  G11 Hamiltonian paths.  G12 degree sequences."""
import itertools
from collections import Counter

from rt import graphgen as GG
from rt.core import unit

from rosemary.graphs.algorithms import cliques as CL
from rosemary.graphs.algorithms import coloring as CO
from rosemary.graphs.algorithms import degree_sequences as DS
from rosemary.graphs.algorithms import hamiltonian_paths as HP
from rosemary.graphs.algorithms import independent_sets as IS


def sizes(r, i, top=11):
    return r.choice((1, 2, 3, 4, 5, 6, 7, 8, 9, top))


def bk(m):
    """Reference enumeration with pivoting, for graphs too large for the subset table."""
    out = []

    def rec(R, P, X):
        if not P and not X:
            out.append(frozenset(R))
            return
        u = max(P | X, key=lambda v: len(P & set(m[v])))
        for v in list(P - set(m[u])):
            nb = set(m[v])
            rec(R | {v}, P & nb, X & nb)
            P = P - {v}
            X = X | {v}
    rec(frozenset(), set(m), set())
    return out


# ------------------------------------------------------------------------------------- G08
def judge_maximal(ctx, name, fn, args, want, kw={}):
    got = ctx.take(name, len(want) + 2, fn, *args, **kw)
    sets = [frozenset(c) for c in got]
    ctx.check(all(len(c) == len(s) for c, s in zip(got, sets)), "%s: repeated vertex" % name, got)
    ctx.eq(Counter(sets), Counter(want), "%s: the maximal sets" % name)
    return got


def judge_max_clique(ctx, name, m, size, clique, want):
    ctx.eq(size, want, "%s: size" % name)
    ctx.eq(len(clique), size, "%s: length of the list" % name)
    ctx.eq(len(set(clique)), size, "%s: repeated vertex" % name)
    ctx.check(set(clique) <= set(m), "%s: foreign vertex" % name, clique)
    for u, v in itertools.combinations(clique, 2):
        ctx.check(v in m[u], "%s: not a clique" % name, clique)


MAXIMAL = ("bron_kerbosch", "bron_kerbosch_binary", "tomita")
MAXIMUM = ("pardalos", "pardalos_binary", "ostergard", "ostergard_binary")


@unit("G08", shards=8)
def cliques(ctx):
    r = ctx.rng
    seen = 0
    for i in range(ctx.n(1800)):
        n = sizes(r, i) if i % 6 else r.randint(12, 24)
        m = GG.model(r, n)
        if i == 3:
            m = {}
        if i == 4:                                     # Moon-Moser: 3^4 maximal cliques
            vs = GG.labels(r, 12)
            m = GG.empty(vs)
            for a, b in itertools.combinations(range(12), 2):
                if a // 3 != b // 3:
                    GG.join(m, vs[a], vs[b])
        if not GG.few_cliques(m):
            continue
        g = GG.build(r, m)
        want = list(GG.maximal_cliques(m)) if len(m) <= 11 else bk(m)
        seen += len(want)
        for name in MAXIMAL:
            got = judge_maximal(ctx, name, getattr(CL, name), (g,), want)
            if name == "bron_kerbosch_binary":
                ctx.eq([sorted(c) for c in got], sorted(sorted(c) for c in got), "not in lexicographic order")
            judge_maximal(ctx, "maximal_cliques", CL.maximal_cliques, (g,), want, {"algorithm": name})
        judge_maximal(ctx, "maximal_cliques", CL.maximal_cliques, (g,), want)
        if not m:
            continue
        top = max(len(c) for c in want)
        for name in MAXIMUM:
            size, clique = ctx.call(name, getattr(CL, name), g)
            judge_max_clique(ctx, name, m, size, clique, top)
        for kw in ({}, {"algorithm": "ostergard"}, {"algorithm": "pardalos"}):
            size, clique = ctx.call("maximum_clique", CL.maximum_clique, g, **kw)
            judge_max_clique(ctx, "maximum_clique", m, size, clique, top)
    ctx.count("maximal cliques", seen)


@unit("G08", shards=4)
def weighted(ctx):
    r = ctx.rng
    for i in range(ctx.n(1800)):
        n = sizes(r, i) if i % 6 else r.randint(12, 20)
        m = GG.model(r, n)
        kind = r.randrange(4)
        if kind == 0:
            m = GG.model(r, n, lab=r.sample(range(1, 90), n))
            wm = None
            w = {v: v for v in m}
        else:
            hi = (3, 50, 10**12)[kind - 1]
            one = r.choice((None, None, "dyadic", "fraction", "zero"))
            one = GG.weight_fn(r, one) if one else lambda: r.randint(1, hi)
            w = {v: one() for v in m}
            wm = dict(w)
        g = GG.build(r, m)
        want = max(sum(w[v] for v in c) for c in (GG.maximal_cliques(m) if n <= 11 else bk(m)))
        args = (g,) if wm is None else (g, wm)
        total, clique = ctx.call("maximum_weight_clique", CL.maximum_weight_clique, *args)
        judge_max_clique(ctx, "maximum_weight_clique", m, len(clique), clique, len(clique))
        ctx.eq(sum(w[v] for v in clique), total, "weight of the clique")
        ctx.eq(total, want, "maximum weight")


# ------------------------------------------------------------------------------------- G09
def independent(ctx, name, m, size, s):
    ctx.eq(len(s), size, "%s: size" % name)
    ctx.eq(len(set(s)), size, "%s: repeated vertex" % name)
    ctx.check(set(s) <= set(m), "%s: foreign vertex" % name, s)
    for u, v in itertools.combinations(s, 2):
        ctx.check(v not in m[u], "%s: not independent" % name, s)


def maximal(ctx, name, m, s):
    ss = set(s)
    ctx.check(all(v in ss or ss & set(m[v]) for v in m), "%s: not maximal" % name, s)


@unit("G09", shards=8)
def independent_sets(ctx):
    r = ctx.rng
    for i in range(ctx.n(1440)):
        n = sizes(r, i) if i % 6 else r.randint(12, 22)
        m = GG.model(r, n)
        g = GG.build(r, m)
        c = GG.complement(m)
        if not GG.few_cliques(c):
            continue
        want = list(GG.maximal_cliques(c)) if n <= 11 else bk(c)
        judge_maximal(ctx, "maximal_independent_sets", IS.maximal_independent_sets, (g,), want)
        top = max(len(x) for x in want)
        for name in ("branch_and_bound", "maximum_independent_set"):
            size, s = ctx.call(name, getattr(IS, name), g)
            independent(ctx, name, m, size, s)
            ctx.eq(size, top, "%s: not maximum" % name)
        size, s = ctx.call("greedy", IS.greedy, g)
        independent(ctx, "greedy", m, size, s)
        maximal(ctx, "greedy", m, s)
        delta = max(len(nb) for nb in m.values())
        ctx.check(3 * top <= max(delta + 2, 3) * size, "greedy: beyond the (d + 2)/3 ratio", top, size, delta)
        if GG.backtracks(m) < 4000:                    # its exhaustive backtracking is exponential
            size, s = ctx.call("culberson", IS.culberson, g)
            independent(ctx, "culberson", m, size, s)
            maximal(ctx, "culberson", m, s)


# ------------------------------------------------------------------------------------- G10
def judge_coloring(ctx, name, m, k, col, classes):
    if classes:
        ctx.check(all(len(c) > 0 for c in col), "%s: empty color class" % name, col)
        ctx.eq(len(col), k, "%s: number of classes" % name)
        ctx.eq(sum(len(c) for c in col), len(m), "%s: classes are no partition" % name)
        cm = {v: i for i, c in enumerate(col) for v in c}
    else:
        cm = col
        ctx.eq(len(set(cm.values())), k, "%s: number of colors used" % name)
    ctx.eq(set(cm), set(m), "%s: colored vertices" % name)
    for u in m:
        for v in m[u]:
            ctx.check(cm[u] != cm[v], "%s: adjacent vertices share a color" % name, u, v)
    return cm


def is_bipartite(m):
    for comp in GG.components(m):
        lev = GG.levels(m, next(iter(comp)))
        if any((lev[u] - lev[v]) % 2 == 0 for u in comp for v in m[u]):
            return False
    return True


def first_fit(m, order):
    cm = {}
    for v in order:
        used = {cm[u] for u in m[v] if u in cm}
        cm[v] = next(c for c in itertools.count() if c not in used)
    return cm


@unit("G10", shards=8)
def coloring(ctx):
    r = ctx.rng
    chis = Counter()
    for i in range(ctx.n(1200)):
        n = sizes(r, i, 10)
        m = GG.model(r, n)
        if i == 2:                                     # Groetzsch graph: triangle free, 4-chromatic
            vs = GG.labels(r, 11)
            m = GG.empty(vs)
            for a in range(5):
                GG.join(m, vs[a], vs[(a + 1) % 5])
                GG.join(m, vs[a], vs[5 + (a + 1) % 5])
                GG.join(m, vs[a], vs[5 + (a + 4) % 5])
                GG.join(m, vs[5 + a], vs[10])
        g = GG.build(r, m)
        chi = GG.chromatic(m)
        chis[chi] += 1
        delta = max(len(nb) for nb in m.values())
        for name in ("branch_and_bound", "korman", "exact_coloring"):
            for kw in ({}, {"classes": False}):
                k, col = ctx.call(name, getattr(CO, name), g, **kw)
                judge_coloring(ctx, name, m, k, col, kw.get("classes", True))
                ctx.eq(k, chi, "%s: chromatic number" % name)
        heur(ctx, m, g, chi, delta)
    for k, v in sorted(chis.items()):
        ctx.count("graphs of chromatic number %d" % k, v)


def heur(ctx, m, g, chi, delta):
    r = ctx.rng
    for kw in ({}, {"classes": False}):
        k, col = ctx.call("dsatur", CO.dsatur, g, **kw)
        judge_coloring(ctx, "dsatur", m, k, col, kw.get("classes", True))
        ctx.check((chi is None or k >= chi) and k <= delta + 1, "dsatur: number of colors", k, chi, delta)
        if is_bipartite(m):
            ctx.check(k <= 2, "dsatur: more than two colors on a bipartite graph", k)
        k1, col = ctx.call("greedy_sequential", CO.greedy_sequential, g, **kw)
        judge_coloring(ctx, "greedy_sequential", m, k1, col, kw.get("classes", True))
        ctx.check((chi is None or k1 >= chi) and k1 <= delta + 1, "greedy_sequential: number of colors", k1, chi, delta)
        k2, col = ctx.call("greedy_sequential passes", CO.greedy_sequential, g, passes=2, **kw)
        judge_coloring(ctx, "greedy_sequential passes=2", m, k2, col, kw.get("classes", True))
        ctx.check((chi is None or k2 >= chi) and k2 <= k1, "greedy_sequential: a second pass is worse", k1, k2)
        p = r.randint(3, 9)
        k2, col = ctx.call("greedy_sequential more passes", CO.greedy_sequential, g, passes=p, **kw)
        judge_coloring(ctx, "greedy_sequential passes=%d" % p, m, k2, col, kw.get("classes", True))
        ctx.check((chi is None or k2 >= chi) and k2 <= k1, "greedy_sequential: further passes are worse", k1, k2, p)
    order = list(m)
    r.shuffle(order)
    k, col = ctx.call("greedy_sequential order", CO.greedy_sequential, g, vertices=list(order), classes=False)
    ff = first_fit(m, order)
    judge_coloring(ctx, "greedy_sequential order", m, k, col, False)
    ctx.eq(k, len(set(ff.values())), "greedy_sequential: not the first-fit coloring of the order")
    ctx.eq({frozenset(v for v in col if col[v] == c) for c in col.values()},
           {frozenset(v for v in ff if ff[v] == c) for c in ff.values()}, "first-fit classes")
    opts = r.choice(({}, {"color_limit": r.randint(0, 6)}, {"color_limit": r.randint(0, 6), "mis_limit": r.randint(0, 6)},
                     {"color_limit": r.randint(0, 6), "mis_limit": 0, "use_greedy": True}))
    if opts.get("mis_limit", 100) < len(m) and not opts.get("use_greedy") and GG.backtracks(m) >= 4000:
        opts["mis_limit"] = 100
    for kw in ({}, {"classes": False}):
        kw.update(opts)
        k, col = ctx.call("maxis", CO.maxis, g, **kw)
        judge_coloring(ctx, "maxis", m, k, col, kw.get("classes", True))
        ctx.check(chi is None or k >= chi, "maxis: fewer colors than possible", k, chi)
        if chi is not None and (not opts or len(m) <= opts["color_limit"]):
            ctx.eq(k, chi, "maxis: exact below the color limit")


@unit("G10", shards=3)
def larger_colorings(ctx):
    """Graphs beyond the exact table: families with known chromatic number and heuristics."""
    r = ctx.rng
    for i in range(ctx.n(168)):
        n = r.randint(12, 30)
        kind = r.choice(("bipartite", "cycle", "wheel", "complete", "tree", "grid", "cocktail", "gnp", "sparse", "edgeless"))
        m = GG.model(r, n, kind=kind)
        chi = {"tree": 2, "cycle": 2 + n % 2, "wheel": 3 + (n - 1) % 2, "complete": n, "cocktail": (n + 1) // 2,
               "edgeless": 1}.get(kind)
        if kind in ("bipartite", "grid") and is_bipartite(m):
            chi = 2 if GG.edges_of(m) else 1
        g = GG.build(r, m)
        if chi is not None:
            k, col = ctx.call("korman", CO.korman, g)
            judge_coloring(ctx, "korman", m, k, col, True)
            ctx.eq(k, chi, "korman: chromatic number of a %s graph" % kind)
        heur(ctx, m, g, chi, max(len(nb) for nb in m.values()))
    if ctx.shard == 0:
        # beyond mis_limit: the greedy phase on sparse graphs, the backtracking phase on dense ones
        m = GG.model(r, 120, kind="edgeless", lab=list(range(120)))
        for u, v in ((0, 1), (1, 2), (5, 9)):
            GG.join(m, u, v)
        k, col = ctx.call("maxis", CO.maxis, GG.build(r, m), use_greedy=True)
        judge_coloring(ctx, "maxis", m, k, col, True)
        m = GG.model(r, 104, kind="complete")
        vs = list(m)
        for a in range(0, 60, 2):
            del m[vs[a]][vs[a + 1]], m[vs[a + 1]][vs[a]]
        k, col = ctx.call("maxis", CO.maxis, GG.build(r, m))
        judge_coloring(ctx, "maxis", m, k, col, True)
        ctx.check(k >= 74, "maxis: fewer colors than possible", k)
        for n in (210, 505):                           # the other truncations of the backtracking
            m = GG.model(r, n, kind="complete")
            vs = list(m)
            for a, b in ((0, 1), (0, 2), (1, 2), (5, 6)):
                del m[vs[a]][vs[b]], m[vs[b]][vs[a]]
            size, s = ctx.call("culberson", IS.culberson, GG.build(r, m))
            independent(ctx, "culberson", m, size, s)
            maximal(ctx, "culberson", m, s)
        m = GG.model(r, 14, kind="gnp")
        a, b = (ctx.call("maxis", CO.maxis, GG.build(r, m), color_limit=5, mis_limit=k, use_greedy=k == 0, verbose=True)
                for k in (0, 100))
        judge_coloring(ctx, "maxis", m, a[0], a[1], True)
        judge_coloring(ctx, "maxis", m, b[0], b[1], True)


# ------------------------------------------------------------------------------------- G11
def ham_paths(m):
    out = []

    def rec(path, left):
        if not left:
            out.append(tuple(path))
        for v in m[path[-1]]:
            if v in left:
                rec(path + [v], left - {v})
    for v in m:
        rec([v], set(m) - {v})
    return out


def ham_count(m):
    vs, nb = GG.bits(m)
    n = len(vs)
    f = {(1 << i, i): 1 for i in range(n)}
    for mask in range(1, 1 << n):
        for i in range(n):
            c = f.get((mask, i))
            if c:
                e = nb[i] & ~mask
                while e:
                    b = e & -e
                    e ^= b
                    j = b.bit_length() - 1
                    f[mask | b, j] = f.get((mask | b, j), 0) + c
    return sum(f.get(((1 << n) - 1, i), 0) for i in range(n))


@unit("G11", shards=6)
def hamiltonian(ctx):
    r = ctx.rng
    kinds = Counter()
    for i in range(ctx.n(1200)):
        n = r.choice((1, 2, 3, 4, 5, 6, 7))
        m = GG.model(r, n)
        g = GG.build(r, m)
        want = ham_paths(m)
        kinds[bool(want)] += 1
        for name in ("hamiltonian_paths", "hamiltonian_paths_con"):
            got = ctx.take(name, len(want) + 2, getattr(HP, name), g)
            ctx.eq(Counter(map(tuple, got)), Counter(want), name)
        for name in ("number_of_hamiltonian_paths", "number_of_hamiltonian_paths_bits",
                     "number_of_hamiltonian_paths_bits_con", "number_of_hamiltonian_paths5",
                     "number_of_hamiltonian_paths5_con"):
            ctx.eq(ctx.call(name, getattr(HP, name), g), len(want), name)
        # walks by repeated adjacency steps
        allowed = set(r.sample(list(m), r.randint(1, n)))
        a = r.choice(sorted(allowed))
        length = r.randint(0, 6)
        cur = Counter({a: 1})
        for _ in range(length):
            nxt = Counter()
            for u, c in cur.items():
                for v in m[u]:
                    if v in allowed:
                        nxt[v] += c
            cur = nxt
        got = ctx.call("walks", HP.walks, g, a, length, allowed)
        ctx.eq({u: c for u, c in got.items() if c}, {u: c for u, c in cur.items() if c}, "walks of length %d" % length)
    ctx.count("graphs with a Hamiltonian path", kinds[True])
    ctx.count("graphs without", kinds[False])


@unit("G11", shards=4)
def counts(ctx):
    r = ctx.rng
    for i in range(ctx.n(144)):
        n = r.randint(8, 11)
        m = GG.model(r, n, kind=r.choice(("gnp", "connected", "grid", "cycle", "regular", "bipartite", "sparse", "union", "dense", "complete")))
        g = GG.build(r, m)
        want = ham_count(m)
        if n < 10 or i % 9 == 0:
            for name in ("number_of_hamiltonian_paths5", "number_of_hamiltonian_paths5_con"):
                ctx.eq(ctx.call(name, getattr(HP, name), g), want, "%s on %d vertices" % (name, n))
        if len(GG.edges_of(m)) > 24:
            for name in ("number_of_hamiltonian_paths_bits", "number_of_hamiltonian_paths_bits_con"):
                ctx.eq(ctx.call(name, getattr(HP, name), g), want, name)
            continue
        for name in ("number_of_hamiltonian_paths", "number_of_hamiltonian_paths_bits",
                     "number_of_hamiltonian_paths_bits_con"):
            ctx.eq(ctx.call(name, getattr(HP, name), g), want, name)
        if want <= 5000:
            for name in ("hamiltonian_paths", "hamiltonian_paths_con"):
                got = ctx.take(name, want + 2, getattr(HP, name), g)
                ctx.eq(len(got), want, name)
                ctx.eq(len(set(map(tuple, got))), want, "%s repeats a path" % name)
    ctx.check(True)


# ------------------------------------------------------------------------------------- G12
def graphic(seq):
    """Exact: search for a realisation degree by degree (memoised on the sorted sequence)."""
    memo = {}

    def rec(t):
        if not t:
            return True
        if t in memo:
            return memo[t]
        d, rest = t[0], t[1:]
        ok = False
        if d <= len(rest):
            for pick in set(itertools.combinations(range(len(rest)), d)):
                nt = list(rest)
                for i in pick:
                    nt[i] -= 1
                if min(nt, default=0) >= 0 and rec(tuple(sorted(nt))):
                    ok = True
                    break
        memo[t] = ok
        return ok
    return sum(seq) % 2 == 0 and rec(tuple(sorted(seq)))


def both(ctx, seq, want):
    for name in ("is_graphic", "is_graphic_erdos_gallai"):
        ctx.eq(bool(ctx.call(name, getattr(DS, name), seq)), want, "%s(%r)" % (name, seq))


@unit("G12", shards=4)
def exhaustive(ctx):
    """All degree sequences with entries up to n on n <= 5 (6) vertices, against all graphs."""
    r = ctx.rng
    both(ctx, [], True)
    for n in range(1, 6):
        pairs = list(itertools.combinations(range(n), 2))
        real = set()
        for mask in range(1 << len(pairs)):
            d = [0] * n
            for k, (u, v) in enumerate(pairs):
                if mask >> k & 1:
                    d[u] += 1
                    d[v] += 1
            real.add(tuple(sorted(d)))
        for i, seq in enumerate(itertools.combinations_with_replacement(range(n + 1), n)):
            if ctx.mine(i):
                s = list(seq)
                r.shuffle(s)
                both(ctx, s, seq in real)
                ctx.eq(DS.is_graphic(tuple(s)), seq in real, "tuple argument")
    for i, seq in enumerate(itertools.combinations_with_replacement(range(7), 6)):
        if ctx.mine(i):
            s = list(seq)
            r.shuffle(s)
            both(ctx, s, graphic(seq))


@unit("G12", shards=4)
def sampled(ctx):
    r = ctx.rng
    kinds = Counter()
    for i in range(ctx.n(6000)):
        n = r.randint(1, 60)
        m = GG.model(r, n)
        seq = [len(nb) for nb in m.values()]
        both(ctx, seq, True)
        n = r.randint(1, 9)
        seq = [r.randint(0, n) for _ in range(n)]
        if i % 3 == 0:                                 # near-misses: move one unit between two degrees
            m = GG.model(r, n)
            seq = [len(nb) for nb in m.values()]
            seq[r.randrange(n)] += 1
            k = r.randrange(n)
            seq[k] = max(0, seq[k] + r.choice((-1, 1)))
        want = graphic(seq)
        kinds[want] += 1
        both(ctx, seq, want)
        bad = list(seq)
        bad[r.randrange(n)] = -r.randint(1, 3)
        ctx.eq(ctx.call("is_graphic", DS.is_graphic, bad), False, "negative degree %r" % bad)
    for k, v in kinds.items():
        ctx.count("random sequences graphic=%s" % k, v)
