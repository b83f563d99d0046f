"""X03: documented running costs.  A step meter (interpreter branches, jumps and function entries inside the
library, plus comparisons and hashes of counting keys) observes each operation at growing sizes; the cost divided
by the documented bound may not grow.  The verdict is on growth, never on time or on a constant factor."""
import math
import os
import random
import sys

from rt import core
from rt import oracles as O
from rt.core import unit

from rosemary.data_structures import heaps as HE
from rosemary.data_structures import unionfind as UF
from rosemary.data_structures import bit_sieve as BS
from rosemary.graphs import graphs as GR
from rosemary.graphs.algorithms import connectivity as CN
from rosemary.graphs.algorithms import paths as PA
from rosemary.graphs.algorithms import spanning_trees as ST
from rosemary.graphs.algorithms import steiner_trees as SN
from rosemary.graphs.algorithms import traversal as TR
from rosemary.combinatorics.enumeration import enumeration as EN
from rosemary.combinatorics.optimization import knapsack as KN
from rosemary.number_theory import classification as KL
from rosemary.number_theory import core as NC
from rosemary.number_theory import zn_arithmetic as ZN
from rosemary.number_theory.arithmetic_functions import sieves as SV
from rosemary.number_theory.arithmetic_functions import sums as SU
from rosemary.number_theory.factorization import algorithms as FA
from rosemary.number_theory.primes import primality as PR
from rosemary.number_theory.primes import sieves as PV

ROOT = os.path.realpath(core.REPO) + os.sep
OPS = [0]


class K(int):
    """An integer that counts what is asked of it, also by code in C (dictionaries, sorting, membership)."""
    __slots__ = ()

    def __lt__(self, o):
        OPS[0] += 1
        return int.__lt__(self, o)

    def __gt__(self, o):
        OPS[0] += 1
        return int.__gt__(self, o)

    def __le__(self, o):
        OPS[0] += 1
        return int.__le__(self, o)

    def __ge__(self, o):
        OPS[0] += 1
        return int.__ge__(self, o)

    def __eq__(self, o):
        OPS[0] += 1
        return int.__eq__(self, o)

    def __ne__(self, o):
        OPS[0] += 1
        return int.__ne__(self, o)

    def __hash__(self):
        OPS[0] += 1
        return int.__hash__(self)


def metered(fn, *args):
    mon = sys.monitoring
    ev = mon.events
    n = 0

    def step(code, *_):
        nonlocal n
        if not code.co_filename.startswith(ROOT):
            return mon.DISABLE
        n += 1
    mon.use_tool_id(5, "rt-meter")
    mon.restart_events()
    evs = (ev.JUMP, ev.BRANCH, ev.PY_START, ev.PY_RESUME)
    for e in evs:
        mon.register_callback(5, e, step)
    OPS[0] = 0
    mon.set_events(5, ev.JUMP | ev.BRANCH | ev.PY_START | ev.PY_RESUME)
    try:
        out = fn(*args)
        if hasattr(out, "__next__"):
            for _ in out:
                pass
    finally:
        mon.set_events(5, 0)
        mon.free_tool_id(5)
    return n + OPS[0]


def growth(ctx, what, sizes, make, bound, slack=2.2, reps=3):
    """make(n) -> (callable, args); bound(n) the documented cost up to a constant."""
    ratios, costs = [], []
    for n in sizes:
        tot = 0
        for k in range(reps):
            fn, *args = make(n)
            random.seed("%s|%s|%d|%d" % (what, ctx.rng.random(), n, k))
            tot += ctx.call(what, metered, fn, *args, _mutates=True)
        costs.append(tot / reps)
        ratios.append((tot / reps) / bound(n))
    base = max(ratios[:-1])
    ctx.count("operations metered")
    ctx.count("steps observed", int(sum(costs) * reps))
    ctx.check(costs[-1] <= slack * base * bound(sizes[-1]) + 60,
              "%s: the work at sizes %s is %s; relative to the documented cost it grows as %s"
              % (what, list(sizes), [round(c) for c in costs], ["%.3g" % x for x in ratios]))


def nlogn(n):
    return n * math.log2(n + 2)


def lin(n):
    return n


SIZES = (150, 600, 2400)


# ---------------------------------------------------------------- structures
def keys(r, n, how):
    vals = list(range(n))
    if how == "random":
        r.shuffle(vals)
    elif how == "down":
        vals.reverse()
    elif how == "equal":
        vals = [7] * n
    elif how == "saw":
        vals = [i % 17 for i in vals]
    return [K(v) for v in vals]


def leftist_sort(vals):
    h = HE.LeftistHeap([])
    for v in vals:
        h.insert(v)
    for _ in vals:
        h.delete_min()


def leftist_build(vals):
    HE.LeftistHeap(vals)


def leftist_build_sort(vals):
    h = HE.LeftistHeap(vals)
    for _ in vals:
        h.delete_min()


def leftist_merges(parts):
    """Merging k one-by-one and pairwise, O(log n) each."""
    hs = [HE.LeftistHeap(p) for p in parts]
    while len(hs) > 1:
        a = hs.pop()
        hs[len(hs) // 2].merge(a)
    while hs[0].delete_min() is not None:
        pass


def leftist_peeks(h, n):
    for _ in range(n):
        h.find_min()
        len(h)


def pairing_sort(vals):
    h = HE.PairingHeap()
    for i, v in enumerate(vals):
        h.insert(v, i)
    for _ in vals:
        h.delete_min()


def pairing_decrease(vals, order):
    h = HE.PairingHeap()
    n = len(vals)
    for i in range(n):
        h.insert(int(vals[i]) + 3 * n, i)
    for i in order:
        h.decrease_key(i, int(vals[i]))
    for _ in range(n // 2):
        h.delete_min()


def unions(n, shape, r):
    u = UF.UnionFind(range(n))
    top = 0
    for i in range(1, n):
        if shape == "chain":
            a, b = top, i
        elif shape == "rchain":
            a, b = i, top
        else:
            a, b = u.find(r.randrange(n)), u.find(r.randrange(n))
        if a != b:
            u.union(a, b)
            if shape != "random":
                top = u.find(i)
    for i in range(3 * n):
        u.find(i % n if shape == "random" else (i * i) % n)


def deep_unions(n, k):
    """Union of sets by their names, without a find in between until the structure is complete; then the
    deepest elements are looked up again and again."""
    u = UF.UnionFind(range(n))
    step = 1
    while step < n:
        for i in range(0, n - step, 2 * step):
            u.union(u.find(i), u.find(i + step))
        step *= 2
    for _ in range(k):
        for i in range(n):
            u.find(i)


def named_unions(n, shape, r):
    u = UF.NamedUnionFind(range(n))
    name = 0
    for i in range(1, n):
        u.union(name, i, name) if shape == "chain" else u.union(i, name, name)
    for i in range(4 * n):
        u.find(i % n)


@unit("X03", shards=4)
def structures(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        for how in ("random", "up", "down", "equal", "saw"):
            growth(ctx, "LeftistHeap inserts and deletions (%s)" % how, SIZES, lambda n: (leftist_sort, keys(r, n, how)), nlogn)
            growth(ctx, "LeftistHeap construction (%s)" % how, SIZES, lambda n: (leftist_build, keys(r, n, how)), lin)
            growth(ctx, "LeftistHeap construction and deletions (%s)" % how, SIZES, lambda n: (leftist_build_sort, keys(r, n, how)), nlogn)
    elif ctx.shard == 1:
        growth(ctx, "LeftistHeap merges", SIZES, lambda n: (leftist_merges, [keys(r, r.randint(1, 9), "random") for _ in range(n // 5)]), nlogn)
        growth(ctx, "LeftistHeap find_min", SIZES, lambda n: (leftist_peeks, HE.LeftistHeap(keys(r, n, "random")), n), lin)
        for how in ("random", "up", "down", "equal", "saw"):
            growth(ctx, "PairingHeap inserts and deletions (%s)" % how, SIZES, lambda n: (pairing_sort, keys(r, n, how)), nlogn)
            growth(ctx, "PairingHeap decrease_key (%s)" % how, SIZES,
                   lambda n: (pairing_decrease, keys(r, n, how), r.sample(range(n), n)), nlogn)
    elif ctx.shard == 2:
        for shape in ("chain", "rchain", "random"):
            growth(ctx, "UnionFind (%s)" % shape, SIZES, lambda n: (unions, n, shape, r), nlogn)
            growth(ctx, "UnionFind repeated finds (%s)" % shape, SIZES, lambda n: (unions, n, shape, r), nlogn)
        growth(ctx, "UnionFind finds in a balanced forest", SIZES, lambda n: (deep_unions, n, 6), nlogn)
        for shape in ("chain", "rchain"):
            growth(ctx, "NamedUnionFind (%s)" % shape, SIZES, lambda n: (named_unions, n, shape, r), nlogn)
    else:
        def late(n):
            """A long chain built by names alone, then every element looked up many times."""
            def run(n):
                u = UF.UnionFind(range(n))
                for i in range(n - 1):
                    u.union(u.find(i), u.find(i + 1))
                for _ in range(8):
                    for i in range(n):
                        u.find(i)
            return run, n
        growth(ctx, "UnionFind chain then finds", SIZES, late, nlogn)
        for cls in (BS.BITSieve, BS.BITSieveArray):
            def sums(n):
                s = cls(n)

                def run(s, n):
                    for m in range(0, n, max(1, n // 300)):
                        s.partial_sum(m)
                return run, s, n
            growth(ctx, "%s.partial_sum" % cls.__name__, (10**3, 10**4, 10**5), sums, lambda n: math.log2(n))

            def marks(n):
                s = cls(n)

                def run(s):
                    for p in (2, 3, 5, 7, 11, 13):
                        s.mark_multiples(p)
                return run, s
            growth(ctx, "%s.mark_multiples" % cls.__name__, (10**3, 4 * 10**3, 16 * 10**3), marks, nlogn)


# ---------------------------------------------------------------- graphs
def graph(r, n, kind, wmax=50):
    g = GR.Graph()
    lab = [K(v) for v in range(n)]
    g.add_vertices(lab)
    es = []
    if kind == "path":
        es = [(v, v + 1) for v in range(n - 1)]
    elif kind == "star":
        es = [(0, v) for v in range(1, n)]
    elif kind == "caterpillar":
        es = [(v, v + 1) for v in range(n // 2 - 1)] + [(v, v + n // 2) for v in range(n // 2)]
    elif kind == "pairs":
        es = [(v, v + 1) for v in range(0, n - 1, 2)]
    elif kind == "double star":
        es = [(0, v) for v in range(2, n)] + [(1, v) for v in range(2, n)]
    elif kind != "empty":
        es = [(v, r.randrange(v)) for v in range(1, n)]
        es += [tuple(r.sample(range(n), 2)) for _ in range(2 * n)]
    for a, b in es:
        g.add_edge(lab[a], lab[b], r.randint(1, wmax))
    return g, lab


KINDS = ("sparse", "path", "star", "caterpillar", "double star")


@unit("X03", shards=4)
def graphs(ctx):
    r = ctx.rng
    S = SIZES
    for i, kind in enumerate(KINDS):
        if ctx.shard == 0 and i == 0:
            for kind2 in ("pairs", "empty"):
                growth(ctx, "connected_components on a graph of %s" % kind2, S, lambda n: (CN.connected_components, graph(r, n, kind2)[0]), lin)
                growth(ctx, "prim on a graph of %s" % kind2, S, lambda n: (ST.prim, graph(r, n, kind2)[0]), nlogn)
                growth(ctx, "kruskal on a graph of %s" % kind2, S, lambda n: (ST.kruskal, graph(r, n, kind2)[0]), nlogn)
        if ctx.shard == 0:
            for name in ("breadth_first_search", "breadth_first_search_tree", "depth_first_search", "depth_first_search_tree"):
                growth(ctx, "%s on a %s graph" % (name, kind), S, lambda n: (lambda g, s: getattr(TR, name)(g, s), *(lambda t: (t[0], t[1][0]))(graph(r, n, kind))), lin)
            growth(ctx, "connected_components on a %s graph" % kind, S, lambda n: (CN.connected_components, graph(r, n, kind)[0]), lin)
            growth(ctx, "is_connected on a %s graph" % kind, S, lambda n: (CN.is_connected, graph(r, n, kind)[0]), lin)
        elif ctx.shard == 1:
            for name in ("dijkstra", "dijkstra_iterator", "dijkstra_pairing_heap"):
                growth(ctx, "%s on a %s graph" % (name, kind), S, lambda n: (getattr(PA, name), *(lambda t: (t[0], t[1][0]))(graph(r, n, kind))), nlogn)
            growth(ctx, "dijkstra_buckets on a %s graph" % kind, S, lambda n: (PA.dijkstra_buckets, *(lambda t: (t[0], t[1][0]))(graph(r, n, kind))), lin)
            growth(ctx, "dijkstra_bidirectional on a %s graph" % kind, S, lambda n: (PA.dijkstra_bidirectional, *(lambda t: (t[0], t[1][0], t[1][-1]))(graph(r, n, kind))), nlogn)
        elif ctx.shard == 2:
            for name in ("prim", "kruskal"):
                growth(ctx, "%s on a %s graph" % (name, kind), S, lambda n: (getattr(ST, name), graph(r, n, kind)[0]), nlogn)
            growth(ctx, "cheriton_tarjan on a %s graph" % kind, S, lambda n: (ST.cheriton_tarjan, graph(r, n, kind)[0]), nlogn)
        else:
            growth(ctx, "bellman_ford on a %s graph" % kind, (40, 160, 640), lambda n: (PA.bellman_ford, *(lambda t: (t[0], t[1][0]))(graph(r, n, kind))), lambda n: n * n)
            growth(ctx, "floyd_warshall on a %s graph" % kind, (12, 24, 48), lambda n: (PA.floyd_warshall, graph(r, n, kind)[0]), lambda n: n**3, reps=1)
            growth(ctx, "distance_network_heuristic on a %s graph" % kind, (60, 240, 960), lambda n: (SN.distance_network_heuristic, *(lambda t: (t[0], t[1][:3] + t[1][-3:]))(graph(r, n, kind))), nlogn)
            growth(ctx, "minimum_cost_paths_heuristic on a %s graph" % kind, (60, 240, 960), lambda n: (SN.minimum_cost_paths_heuristic, *(lambda t: (t[0], t[1][:3] + t[1][-3:]))(graph(r, n, kind))), nlogn)


# ---------------------------------------------------------------- numbers
BITS = (64, 256, 1024, 4096)


def big(r, b):
    return r.getrandbits(b) | 1 | 1 << (b - 1)


def fib(b):
    x, y = 1, 1
    while y.bit_length() < b:
        x, y = y, x + y
    return y, x


@unit("X03", shards=4)
def numbers(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        for name in ("gcd", "ext_gcd", "lcm", "jacobi_symbol"):
            f = getattr(NC, name)
            growth(ctx, name, BITS, lambda b: (f, big(r, b), big(r, b)), lin)
            growth(ctx, name + " of Fibonacci numbers", BITS, lambda b: (f, fib(b)[0], fib(b)[1] | (name == "jacobi_symbol")), lin)
        growth(ctx, "inverse_mod", BITS, lambda b: (NC.inverse_mod, 2**(b - 2) + 1, 2**b), lin)
        growth(ctx, "power_mod", BITS, lambda b: (NC.power_mod, big(r, b), big(r, b), big(r, b)), lin)
        growth(ctx, "integer_sqrt", BITS, lambda b: (NC.integer_sqrt, big(r, b)), math.log2)
        growth(ctx, "integer_log", BITS, lambda b: (NC.integer_log, r.choice((2, 3, 10)), big(r, b)), math.log2)
        growth(ctx, "valuation", BITS, lambda b: (NC.valuation, 3, 3**b * 7), math.log2)
        for m in (2, 3, 7, 30):
            growth(ctx, "integer_nth_root %d" % m, BITS, lambda b: (NC.integer_nth_root, m, big(r, b)), lin)
        growth(ctx, "is_square", BITS, lambda b: (KL.is_square, big(r, b)**2), math.log2)
        growth(ctx, "is_power2", BITS, lambda b: (KL.is_power2, 1 << b), math.log2)
    elif ctx.shard == 1:
        for name in ("eratosthenes1", "eratosthenes2", "luo", "chartres"):
            growth(ctx, name, (10**3, 10**4, 10**5), lambda n: (getattr(PV, name), n), lambda n: n * math.log(math.log(n)))
        growth(ctx, "pritchard", (10**3, 10**4, 10**5), lambda n: (PV.pritchard, n), lambda n: n * math.log(math.log(n)))
        growth(ctx, "prime_range windows", (10**3, 4 * 10**3, 16 * 10**3), lambda n: (PV.prime_range, 10**8, 10**8 + n), lambda n: n + 10**4 / math.log(10**4))
        for name in ("euler_phi_sum", "euler_phi_weighted_sum", "moebius_sum", "mertens", "sigma_sum"):
            growth(ctx, name, (10**4, 10**6), lambda n: (getattr(SU, name), n + r.randrange(100)), lambda n: n**.77, slack=1.6, reps=1)
    elif ctx.shard == 2:
        def prime(n):
            return O.nextprime(r.randrange(n, 2 * n))
        growth(ctx, "trial_division", (10**3, 10**4, 10**5), lambda n: (FA.trial_division, prime(n) * prime(n)), lin)
        growth(ctx, "lehman", (10**3, 10**4, 10**6), lambda n: (FA.lehman, prime(n) * prime(n)), lambda n: n**(2 / 3), slack=4, reps=10)
        growth(ctx, "fermat", (10**3, 10**4, 10**5), lambda n: (FA.fermat, (lambda p: p * O.nextprime(3 * p))(prime(n))), lin)
        growth(ctx, "fermat (close factors)", (10**3, 10**5, 10**7), lambda n: (FA.fermat, (lambda p: p * O.nextprime(p))(prime(n))), lambda n: math.log(n))
        for name in ("pollard_rho", "pollard_rho_brent"):
            growth(ctx, name, (10**3, 10**5, 10**7), lambda n: (getattr(FA, name), prime(n) * prime(n * 1000)), lambda n: n**.5, slack=3, reps=12)
        growth(ctx, "discrete_log", (10**4, 10**6, 10**8), lambda n: (lambda p, a, b: ZN.discrete_log(a, b, p), *(lambda p: (p, 2, pow(2, r.randrange(1, p), p)))(prime(n))), lambda n: n**.5, slack=3, reps=5)
        growth(ctx, "sqrts_mod_p", BITS[:3], lambda b: (ZN.sqrts_mod_p, 4, r.choice(PRIMES[b])), lambda b: b**2)
        growth(ctx, "miller_rabin", BITS[:3], lambda b: (PR.miller_rabin, r.choice(PRIMES[b])), lambda b: b**2)
    else:
        for name in ("euler_phi_list", "moebius_list", "sigma_list", "tau_list"):
            growth(ctx, name, (10**3, 10**4, 10**5), lambda n: (getattr(SV, name), n), nlogn, reps=1)
        growth(ctx, "partition_number", (100, 400, 1600), lambda n: (EN.partition_number, n), lambda n: n * n, reps=1)
        growth(ctx, "partition_list", (100, 400, 1600), lambda n: (EN.partition_list, n), lambda n: n**1.5, reps=1)
        growth(ctx, "binomial", (100, 400, 1600), lambda n: (EN.binomial, n, n // 2), lin, reps=1)
        growth(ctx, "knapsack dynamic_programming", (20, 40, 80), lambda n: (KN.dynamic_programming, [(r.randint(1, 30), r.randint(1, 20)) for _ in range(n)], 5 * n), lambda n: n * n)


PRIMES = {64: [2**64 - 59, 2**64 - 83], 256: [2**255 - 19, 2**256 - 189], 1024: [2**1024 - 105, 2**1023 - 361]}
