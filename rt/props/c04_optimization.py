"""C04 knapsack.  C05 travelling salesman.  C06 exact cover.  C07 alphametics."""
import itertools
import math
import random
from collections import Counter
from fractions import Fraction

from rt.core import unit

from rosemary.combinatorics.optimization import exact_cover as EC
from rosemary.combinatorics.optimization import genetic_tsp as GT
from rosemary.combinatorics.optimization import knapsack as KN
from rosemary.combinatorics.optimization import tsp as TS
from rosemary.combinatorics.recreational import alphametics as AL


# ------------------------------------------------------------------------------------- C04
def knapsack_opt(items, cap):
    """Optimal value: best value per attainable weight, in exact arithmetic."""
    best = {0: 0}
    for v, w in items:
        nxt = dict(best)
        for tw, tv in best.items():
            if tw + w <= cap and nxt.get(tw + w, -1) < tv + v:
                nxt[tw + w] = tv + v
        best = nxt
    return max(best.values())


def make_items(r, n):
    kind = r.randrange(7)
    if kind == 0:
        items = [(r.randint(0, 30), r.randint(0, 30)) for _ in range(n)]
    elif kind == 1:                                  # value close to weight
        items = [(w + r.randint(0, 3), w) for w in (r.randint(1, 40) for _ in range(n))]
    elif kind == 2:                                  # subset sum
        items = [(w, w) for w in (r.randint(1, 60) for _ in range(n))]
    elif kind == 3:                                  # few distinct items
        pool = [(r.randint(1, 9), r.randint(1, 9)) for _ in range(3)]
        items = [r.choice(pool) for _ in range(n)]
    elif kind == 4:                                  # greedy trap
        items = [(r.randint(1, 4), 1) for _ in range(n - n // 2)] + \
                [(r.randint(20, 60), r.randint(10, 30)) for _ in range(n // 2)]
    elif kind == 5:                                  # inversely correlated
        items = [(61 - w, w) for w in (r.randint(1, 60) for _ in range(n))]
    else:
        items = [(r.randint(1, 10**9), r.randint(1, 30)) for _ in range(n)]
    total = sum(w for _, w in items)
    cap = r.choice((0, 1, total, total + 1, max(0, total - 1), total // 2, total // 3,
                    r.randint(0, total + 1), r.randint(0, total + 1), r.randint(0, total + 1)))
    return items, cap


def feasible(ctx, name, value, used, items, cap, opt):
    ctx.eq(value, opt, "%s: value" % name)
    ctx.check(not Counter(used) - Counter(items), "%s: uses an item that was not offered" % name, used)
    ctx.check(sum(w for _, w in used) <= cap, "%s: over capacity" % name, used, cap)
    ctx.eq(sum(v for v, _ in used), value, "%s: items do not sum to the value" % name)


@unit("C04", shards=4)
def exact(ctx):
    r = ctx.rng
    for i in range(ctx.n(1200)):
        items, cap = make_items(r, r.randint(0, 11))
        if i == 0:
            items, cap = [], 5
        opt = knapsack_opt(items, cap)
        for name in ("depth_first", "dynamic_programming", "branch_and_bound_depth_first"):
            got = ctx.call(name, getattr(KN, name), items, cap)
            value, used = got
            feasible(ctx, name, value, [tuple(t[:2]) for t in used], items, cap, opt)


@unit("C04")
def heavy(ctx):
    """Weights and values of any size, where the choice is decided by the low digits."""
    r = ctx.rng
    for _ in range(ctx.n(150)):
        n = r.randint(1, 12)
        s = r.choice((10**3, 10**6, 10**15, 2**70))
        k = r.randrange(3)
        if k == 0:
            items = [(r.randint(1, s), r.randint(1, s)) for _ in range(n)]
        elif k == 1:
            items = [(s + r.randint(0, 9), s + r.randint(0, 9)) for _ in range(n)]
        else:
            items = [(v * s + r.randint(0, 2), w * s) for v, w in make_items(r, n)[0]]
        total = sum(w for _, w in items)
        split = r.choice((1, 1, 8, 7, 60))
        if split != 1 and k:
            # values (and weights) that are not whole numbers: exact binary fractions and rationals
            part = (lambda x: x / 8.0) if split == 8 and s < 10**9 else (lambda x: Fraction(x, split))
            items = [(part(v), w) for v, w in items]
        cap = r.choice((total, total - 1, total // 2, total // 3, r.randint(0, total), sum(w for _, w in r.sample(items, r.randint(0, n)))))
        opt = knapsack_opt(items, cap)
        for name in ("depth_first", "branch_and_bound_depth_first"):
            value, used = ctx.call(name, getattr(KN, name), items, cap)
            feasible(ctx, name, value, [tuple(t[:2]) for t in used], items, cap, opt)
    for _ in range(ctx.n(3)):
        items = [(r.randint(1, 5000), r.randint(1, 900)) for _ in range(r.randint(8, 14))]
        if r.random() < .5:
            items = [(v / 16.0, w) for v, w in items]
        cap = r.randint(1000, 3500)
        opt = knapsack_opt(items, cap)
        value, used = ctx.call("dynamic_programming", KN.dynamic_programming, items, cap)
        feasible(ctx, "dynamic_programming", value, [tuple(t) for t in used], items, cap, opt)


@unit("C04", shards=2)
def larger(ctx):
    r = ctx.rng
    for _ in range(ctx.n(250)):
        items, cap = make_items(r, r.randint(12, 40))
        opt = knapsack_opt(items, cap)
        value, used = ctx.call("dynamic_programming", KN.dynamic_programming, items, cap)
        feasible(ctx, "dynamic_programming", value, [tuple(t) for t in used], items, cap, opt)
        if len(items) <= 22:
            value, used = ctx.call("branch_and_bound_depth_first", KN.branch_and_bound_depth_first, items, cap)
            feasible(ctx, "branch_and_bound", value, [tuple(t[:2]) for t in used], items, cap, opt)


@unit("C04", shards=4)
def annealing(ctx):
    r = ctx.rng
    for i in range(ctx.n(5)):
        items, cap = make_items(r, r.choice((1, 2, 4, 5, 8, 12)))
        if i == 0 and ctx.shard == 0:
            items, cap = [], 4
        opt = knapsack_opt(items, cap)
        value, bits = ctx.call("simulated_annealing", KN.simulated_annealing, items, cap)
        ctx.check(len(bits) == len(items) and set(bits) <= {0, 1}, "selection is not a 0/1 list", bits)
        ctx.eq(sum(b * it[0] for b, it in zip(bits, items)), value, "selection value")
        ctx.check(sum(b * it[1] for b, it in zip(bits, items)) <= cap, "over capacity", bits)
        ctx.check(value <= opt, "value above the optimum", value, opt)
        fits = [v for v, w in items if w <= cap]
        if fits and max(fits) > 0:
            ctx.check(value > 0, "nothing of value chosen although an item fits", items, cap)


# ------------------------------------------------------------------------------------- C05
def tour_cost(path, dm):
    return math.fsum(dm[path[i - 1]][path[i]] for i in range(len(path)))


def held_karp(dm):
    n = len(dm)
    if n == 2:
        return dm[0][1] + dm[1][0]
    best = {(1 << j, j): dm[0][j] for j in range(1, n)}
    for size in range(2, n):
        for sub in itertools.combinations(range(1, n), size):
            m = sum(1 << j for j in sub)
            for j in sub:
                best[m, j] = min(best[m ^ (1 << j), k] + dm[k][j] for k in sub if k != j)
    full = (1 << n) - 2
    return min(best[full, j] + dm[j][0] for j in range(1, n))


def make_points(r, n):
    k = r.randrange(6)
    if k == 0:
        return [(r.random() * 100, r.random() * 100) for _ in range(n)]
    if k == 1:
        return [(r.randint(0, 6), r.randint(0, 6)) for _ in range(n)]       # ties, repeated points
    if k == 2:
        return [(r.random() * 50, 0) for _ in range(n)]                     # collinear
    if k == 3:
        return [[r.choice((0, 100)) + r.random(), r.choice((0, 100)) + r.random()] for _ in range(n)]
    if k == 4:
        return [(math.cos(6.283 * i / n + r.random() / 9), math.sin(6.283 * i / n)) for i in range(n)]
    return [(r.randint(-10**6, 10**6), r.randint(-10**6, 10**6)) for _ in range(n)]


def dist_matrix(points):
    return [[math.hypot(a[0] - b[0], a[1] - b[1]) if i != j else float("inf")
             for j, b in enumerate(points)] for i, a in enumerate(points)]


def make_matrix(r, n, symmetric):
    hi = r.choice((5, 100, 10**6))
    split = r.choice((1, 1, 16.0))
    dm = [[r.randint(0 if hi == 5 else 1, hi) for _ in range(n)] for _ in range(n)]
    if split != 1:
        dm = [[x / split for x in row] for row in dm]
    diag = r.choice((0, float("inf")))
    for i in range(n):
        dm[i][i] = diag
        if symmetric:
            for j in range(i):
                dm[i][j] = dm[j][i]
    return dm


def close(a, b):
    return abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b))


def judge_tour(ctx, name, value, path, dm, opt=None, exact=False):
    n = len(dm)
    ctx.check(sorted(path) == list(range(n)), "%s: not a tour of all points" % name, path)
    ctx.check(close(value, tour_cost(path, dm)), "%s: reported cost is not the cost of the tour" % name,
              value, tour_cost(path, dm))
    if opt is not None:
        if exact:
            ctx.check(close(value, opt), "%s: not optimal" % name, value, opt)
        else:
            ctx.check(value >= opt or close(value, opt), "%s: cheaper than the optimum" % name, value, opt)


def two_opt_optimal(ctx, name, path, dm):
    n = len(path)
    for i in range(n):
        for j in range(i + 2, n):
            a, b, c, d = path[i], path[(i + 1) % n], path[j], path[(j + 1) % n]
            if len({a, b, c, d}) < 4:
                continue
            gain = dm[a][b] + dm[c][d] - dm[a][c] - dm[b][d]
            scale = 1e-6 + 1e-9 * (dm[a][b] + dm[c][d])
            ctx.check(gain <= scale, "%s: an improving 2-exchange is left" % name, path, (i, j), gain)


def problem(r, n, symmetric=True):
    """(args, kwargs, matrix)"""
    pts = make_points(r, n)
    if r.random() < .5:
        return (pts,), {}, dist_matrix(pts)
    dm = make_matrix(r, n, symmetric)
    return (pts,), {"distance_matrix": dm}, dm


@unit("C05", shards=4)
def exact_tours(ctx):
    r = ctx.rng
    for i in range(ctx.n(150)):
        n = r.choice((2, 3, 4, 5, 6, 7))
        a, k, dm = problem(r, n, symmetric=r.random() < .5)
        opt = held_karp(dm)
        if n <= 6 or i % 4 == 0:
            v, p = ctx.call("depth_first", TS.depth_first, *a, **k)
            judge_tour(ctx, "depth_first", v, p, dm, opt, True)
        v, p = ctx.call("branch_and_bound", TS.branch_and_bound, *a, **k)
        judge_tour(ctx, "branch_and_bound", v, p, dm, opt, True)
        if i % 5 == 0:
            # exact distances of any magnitude: powers of two times small whole numbers, nothing is rounded
            s = 2.0**r.choice((-60, -40, -20, 20, 60))
            dm = [[x * s for x in row] for row in make_matrix(r, n, r.random() < .5)]
            opt = held_karp(dm)
            for name in ("depth_first", "branch_and_bound"):
                v, p = ctx.call(name, getattr(TS, name), a[0], distance_matrix=dm)
                ctx.check(sorted(p) == list(range(n)), "%s: not a tour of all points" % name, p)
                ctx.check(abs(v - opt) <= 1e-9 * opt and abs(tour_cost(p, dm) - opt) <= 1e-9 * opt,
                          "%s: not optimal for distances of magnitude %g" % (name, s), v, tour_cost(p, dm), opt)
        if i % 10 == 0:
            a, k, dm = problem(r, r.choice((8, 9)), symmetric=r.random() < .7)
            v, p = ctx.call("branch_and_bound", TS.branch_and_bound, *a, **k)
            judge_tour(ctx, "branch_and_bound", v, p, dm, held_karp(dm), True)


def farthest_reference(dm):
    """Farthest insertion cost, or None when a choice is (nearly) tied."""
    n = len(dm)
    tour, left = [0], set(range(1, n))
    while left:
        near = sorted(((min(dm[u][v] for u in tour), v) for v in left), reverse=True)
        if len(near) > 1 and close(near[0][0], near[1][0]):
            return None
        f = near[0][1]
        best = []
        for i in range(len(tour)):
            t, h = tour[i], tour[(i + 1) % len(tour)]
            best.append((dm[t][f] + dm[f][h] - (dm[t][h] if t != h else 0), i))
        best.sort()
        if len(tour) > 2 and close(best[0][0], best[1][0]):
            return None
        tour.insert(best[0][1] + 1, f)
        left.discard(f)
    return tour_cost(tour, dm)


@unit("C05", shards=4)
def heuristics(ctx):
    r = ctx.rng
    for i in range(ctx.n(250)):
        n = r.choice((2, 3, 4, 5, 6, 7, 8, 14, 25))
        a, k, dm = problem(r, n)
        opt = held_karp(dm) if n <= 8 else None
        v, p = ctx.call("farthest_insertion", TS.farthest_insertion, *a, **k)
        judge_tour(ctx, "farthest_insertion", v, p, dm, opt)
        if opt is not None and not k:
            bound = (math.ceil(math.log2(n)) + 1) * opt
            ctx.check(v <= bound or close(v, bound), "insertion tour beyond (ceil(lg n)+1) * optimum", v, opt)
        if not k:
            ref = farthest_reference(dm)
            if ref is not None:
                ctx.count("farthest insertion steps replayed", n)
                ctx.check(close(v, ref), "not the farthest-insertion tour", v, ref)
        e = ctx.call("farthest_insertion edges", TS.farthest_insertion, *a, edges=True, **k)
        ctx.eq(len(e), n, "number of tour edges")
        ctx.check(close(math.fsum(dm[x][y] for x, y in e), v), "edges form a tour of another cost", e)
        ctx.eq(sorted(x for x, _ in e), list(range(n)), "tour edges leave every vertex once")
        ctx.eq(sorted(y for _, y in e), list(range(n)), "tour edges enter every vertex once")
        for name in ("steepest_ascent_two_opt", "two_opt"):
            v, p = ctx.call(name, getattr(TS, name), *a, **k)
            judge_tour(ctx, name, v, p, dm, opt)
            two_opt_optimal(ctx, name, p, dm)
        m = ctx.call("euclidean_distance_matrix", TS.euclidean_distance_matrix, a[0])
        want = dist_matrix(a[0])
        for x in range(n):
            for y in range(n):
                ctx.check(m[x][y] == want[x][y] or close(m[x][y], want[x][y]), "distance matrix", a[0], x, y)
        path = list(range(n))
        r.shuffle(path)
        ctx.check(close(ctx.call("cost", TS.cost, path, dm, n), tour_cost(path, dm)), "cost", path)
        for _ in range(4):
            q = ctx.call("random_two_opt", TS.random_two_opt, path)
            ctx.eq(sorted(q), list(range(n)), "random_two_opt: not a permutation")

            def edges(t):
                return {frozenset((t[i - 1], t[i])) for i in range(len(t))}
            ctx.check(len(edges(q) - edges(path)) <= 2, "random_two_opt exchanges more than two edges", path, q)
            path = q
        if n >= 5:
            seen = {tuple(ctx.call("random_two_opt", TS.random_two_opt, path)) for _ in range(12)}
            ctx.check(seen != {tuple(path)}, "random_two_opt never moves", path)


@unit("C05")
def annealed_tour(ctx):
    r = ctx.rng
    for i in range(ctx.n(2, 8)):
        if i % 2:
            # a small scale: any two tours cost nearly the same
            pts = [(r.random() / 16, r.random() / 16) for _ in range(r.randint(6, 9))]
            a, k, dm = (pts,), {}, dist_matrix(pts)
        else:
            a, k, dm = problem(r, (5, 6, 3, 4, 7)[i // 2 % 5])
        v, p = ctx.call("simulated_annealing_two_opt", TS.simulated_annealing_two_opt, *a, **k)
        judge_tour(ctx, "simulated_annealing_two_opt", v, p, dm, held_karp(dm))


@unit("C05", shards=3)
def genetic(ctx):
    r = ctx.rng
    for i in range(ctx.n(14)):
        n = r.choice((5, 7, 8, 20, 26)) if i else 8
        pts = make_points(r, n)
        dm = dist_matrix(pts)
        t = ctx.call("TravelingSalesman", GT.TravelingSalesman, pts)
        opt = held_karp(dm) if n <= 8 else None
        for _ in range(6):
            path = list(range(n))
            r.shuffle(path)
            ctx.check(close(ctx.call("cost", t.cost, path), tour_cost(path, dm)), "cost", path)
            v, q = ctx.call("two_opt", t.two_opt, path)
            judge_tour(ctx, "genetic two_opt", v, q, dm, opt)
            ctx.check(v <= tour_cost(path, dm) + 1e-6, "two_opt made the tour longer", path, q)
        A, B = list(range(n)), list(range(n))
        r.shuffle(A)
        r.shuffle(B)
        for v, q in ctx.call("mgkrec", t.mgkrec, A, B):
            judge_tour(ctx, "mgkrec", v, q, dm, opt)
        start = []
        if callable(getattr(t, "select", None)):
            orig = t.select

            def select(*a, **k):
                pop = orig(*a, **k)
                start.extend(pop)
                return pop
            t.select = select
        res = ctx.call("solve", t.solve, r.choice((2, 4, 6)), r.choice((0, 1, 4, 8)))
        v, q = res
        judge_tour(ctx, "genetic solve", v, q, dm, opt)
        if start:
            ctx.check(v <= min(c for c, _ in start) + 1e-6, "worse than the initial population", v)


# ------------------------------------------------------------------------------------- C06
def covers(target, rows):
    """All exact covers as sets of row indices: every subset of rows is tried."""
    full = 0
    bit = {x: 1 << i for i, x in enumerate(target)}
    full = (1 << len(bit)) - 1
    masks = [sum(bit[x] for x in set(s)) for s in rows]
    out = []

    def rec(i, acc, used):
        if i == len(masks):
            if acc == full:
                out.append(tuple(used))
            return
        rec(i + 1, acc, used)
        if masks[i] and not acc & masks[i]:
            rec(i + 1, acc | masks[i], used + [i])
    rec(0, 0, [])
    return out


def cover_instance(r):
    m = r.choice((r.randint(1, 8), r.randint(1, 8), r.randint(9, 16)))
    top = r.choice((4, 4, 6, 9))
    universe = r.choice((list(range(m)), list("abcdefghijklmnop")[:m], [(i, i % 2) for i in range(m)]))
    rows = []
    for _ in range(r.randint(1, 3)):                 # plant some exact covers
        u = list(universe)
        r.shuffle(u)
        while u:
            k = r.randint(1, min(top, len(u)))
            rows.append(u[:k])
            u = u[k:]
    for _ in range(r.randint(0, 6)):
        rows.append(r.sample(universe, r.randint(1, min(top, m))))
    r.shuffle(rows)
    rows = rows[:13 if m < 9 else 18]
    if r.random() < .3:
        rows.append(rows[0][:])                      # a repeated row
    if r.random() < .3:
        rows = rows[:r.randint(1, len(rows))]
    return universe, rows


@unit("C06", shards=4)
def algorithm_x(ctx):
    r = ctx.rng
    kinds = Counter()
    for i in range(ctx.n(2000)):
        universe, rows = cover_instance(r)
        want = Counter(tuple(sorted(tuple(sorted(rows[j])) for j in c)) for c in covers(universe, rows))
        kinds[min(sum(want.values()), 3)] += 1
        form = r.choice((list, set, frozenset, tuple))
        sets = [form(s) for s in rows]
        target = r.choice((list, set, tuple))(universe)
        for name in ("algorithmx", "algorithm_dlx"):
            sols = ctx.take(name, sum(want.values()) + 2, getattr(EC, name), target, sets)
            got = Counter(tuple(sorted(tuple(sorted(s)) for s in sol)) for sol in sols)
            ctx.eq(got, want, "%s solutions" % name)
        # the partially consumed search must not disturb a second one
        it = EC.algorithmx(target, sets)
        first = ctx.call("first cover", next, it, None, _mutates=True)
        ctx.eq(first is not None, bool(want), "first solution")
        again = ctx.take("algorithmx", sum(want.values()) + 2, EC.algorithmx, target, sets)
        ctx.eq(len(again), sum(want.values()), "solutions while another search is suspended")
        # the binary form of the same instance
        bit = {x: 1 << i for i, x in enumerate(universe)}
        ints = [sum(bit[x] for x in s) for s in rows]
        if len({x for s in rows for x in s}) == len(universe):
            e = ctx.call("ExactCoverBinary", EC.ExactCoverBinary, ints)
            ctx.eq(ctx.call("number_of_solutions", e.number_of_solutions), sum(want.values()), "number_of_solutions")
            sols = ctx.take("solutions", sum(want.values()) + 2, e.solutions)
            wantb = Counter(tuple(sorted(ints[j] for j in c)) for c in covers(universe, rows))
            ctx.eq(Counter(tuple(sorted(s)) for s in sols), wantb, "binary solutions")
            ctx.eq(ctx.call("number_of_solutions", e.number_of_solutions), sum(want.values()), "second count")
        d = {i: set(s) for i, s in enumerate(rows)}
        e = ctx.call("ExactCover", EC.ExactCover, d)
        ctx.eq(set(e.universe), {x for s in rows for x in s}, "universe")
        ctx.eq(e.num_cols, len({x for s in rows for x in s}), "num_cols")
    for k, v in kinds.items():
        ctx.count("instances with %s covers" % ("3+" if k == 3 else k), v)


def langford(n):
    seq = [0] * (2 * n)

    def rec(k):
        if k == 0:
            return 1
        t = 0
        for i in range(2 * n - k - 1):
            if not seq[i] and not seq[i + k + 1]:
                seq[i] = seq[i + k + 1] = k
                t += rec(k - 1)
                seq[i] = seq[i + k + 1] = 0
        return t
    return rec(n) // 2


def tilings(n):
    """Broken-profile count of domino tilings of an n x n board."""
    prof = {0: 1}
    for _ in range(n * n):
        nxt = Counter()
        for p, c in prof.items():
            # bit 0: current cell filled; bit n: cell below; bit 1: next cell
            nxt_p = p >> 1
            col = _ % n
            if p & 1:
                nxt[nxt_p] += c
            else:
                if _ // n + 1 < n:
                    nxt[nxt_p | (1 << (n - 1))] += c
                if col + 1 < n and not p & 2:
                    nxt[nxt_p | 1] += c
        prof = nxt
    return prof.get(0, 0)


@unit("C06")
def counts(ctx):
    for n in range(1, 12 if ctx.thorough else 10):
        ctx.eq(ctx.call("langford_pairings", EC.langford_pairings, n), langford(n), "langford_pairings(%d)" % n)
    for n in range(1, 11 if ctx.thorough else 9):
        ctx.eq(ctx.call("domino_tilings", EC.domino_tilings, n), tilings(n), "domino_tilings(%d)" % n)
    for n, want in ((1, 1), (2, 2), (3, 12), (4, 576)):
        ints = ctx.call("latin_square_ints", EC.latin_square_ints, n)
        e = EC.ExactCoverBinary(ints)
        ctx.eq(ctx.call("latin squares", e.number_of_solutions), want, "latin squares of order %d" % n)


def solved_grid(r):
    digits = list(range(1, 10))
    r.shuffle(digits)

    def lines():
        out = []
        for b in r.sample(range(3), 3):
            out += [3 * b + x for x in r.sample(range(3), 3)]
        return out
    rows, cols = lines(), lines()
    g = [[digits[(3 * (i % 3) + i // 3 + j) % 9] for j in cols] for i in rows]
    if r.random() < .5:
        g = [list(x) for x in zip(*g)]
    return g


@unit("C06", shards=3)
def sudoku(ctx):
    r = ctx.rng
    for i in range(ctx.n(100)):
        g = solved_grid(r)
        flat = [d for row in g for d in row]
        blanks = r.choice((0, 1, 9, 30, 45, 50, 54, 81))
        puzzle = list(flat)
        for p in r.sample(range(81), blanks):
            puzzle[p] = 0
        s = "".join(map(str, puzzle))
        ans = ctx.call("sudoku_dlx", EC.sudoku_dlx, s)
        ctx.eq(len(ans), 81, "length of the answer")
        a = [int(c) for c in ans]
        for x, y in zip(puzzle, a):
            ctx.check(x == 0 or x == y, "a given digit changed", s, ans)
        groups = [range(9 * k, 9 * k + 9) for k in range(9)] + [range(k, 81, 9) for k in range(9)] + \
                 [[9 * (3 * (k // 3) + x) + 3 * (k % 3) + y for x in range(3) for y in range(3)] for k in range(9)]
        for grp in groups:
            ctx.eq(sorted(a[p] for p in grp), list(range(1, 10)), "not a Sudoku grid: %s" % ans)
        if blanks <= 1:
            ctx.eq(a, flat, "the only completion")
        M = ctx.call("parse", EC.parse, s)
        ctx.eq(M, [puzzle[9 * k:9 * k + 9] for k in range(9)], "parse")
        ctx.eq(ctx.call("to_string", EC.to_string, M), s, "to_string")


# ------------------------------------------------------------------------------------- C07
def alpha_brute(lhs, rhs):
    letters = sorted(set("".join(lhs + rhs)))
    first = {w[0] for w in lhs + rhs}
    coef = Counter()
    for sign, words in ((1, lhs), (-1, rhs)):
        for w in words:
            for k, ch in enumerate(reversed(w)):
                coef[ch] += sign * 10**k
    cs = [coef[ch] for ch in letters]
    out = []
    for p in itertools.permutations(range(10), len(letters)):
        if sum(c * d for c, d in zip(cs, p)) == 0:
            m = dict(zip(letters, p))
            if all(m[ch] for ch in first):
                def num(w):
                    return int("".join(str(m[ch]) for ch in w))
                out.append(([num(w) for w in lhs], [num(w) for w in rhs]))
    return out


def alpha_puzzle(r):
    k = r.randint(1, 6)
    digits = r.sample(range(10), k)
    letters = r.sample("abcdefghijklmnopqrstuvwxyz", 10)
    for _ in range(200):
        if r.random() < .75:                        # plant a true equation
            a = [int("".join(str(r.choice(digits)) for _ in range(r.randint(1, 5)))) for _ in range(r.randint(1, 3))]
            t = sum(a)
            if r.random() < .3 and t > 1:
                x = r.randint(1, t - 1)
                b = [x, t - x]
            else:
                b = [t]
            lhs, rhs = [str(x) for x in a], [str(x) for x in b]
        else:
            lhs = ["".join(str(r.choice(digits)) for _ in range(r.randint(1, 5))) for _ in range(r.randint(1, 3))]
            rhs = ["".join(str(r.choice(digits)) for _ in range(r.randint(1, 5))) for _ in range(r.randint(1, 2))]
        if len(set("".join(lhs + rhs))) <= 7:
            def tr(w):
                return "".join(letters[int(c)] for c in w)
            return [tr(w) for w in lhs], [tr(w) for w in rhs]
    return ["a"], ["b"]


@unit("C07", shards=8)
def alphametics(ctx):
    r = ctx.rng
    kinds = Counter()
    fixed = [(["send", "more"], ["money"])] if ctx.shard == 0 else []
    for i in range(ctx.n(36)):
        lhs, rhs = fixed[i] if i < len(fixed) and ctx.thorough else alpha_puzzle(r)
        want = sorted(alpha_brute(lhs, rhs))
        kinds[min(len(want), 3)] += 1
        sols = ctx.take("solve", len(want) + 2, AL.solve, lhs, rhs)
        ctx.eq(sorted((list(a), list(b)) for a, b in sols), want, "all solutions of %r = %r" % (lhs, rhs))
    for k, v in kinds.items():
        ctx.count("puzzles with %s solutions" % ("3+" if k == 3 else k), v)


@unit("C07", shards=2)
def short_words(ctx):
    """Every shape of puzzle with words of one and two letters: the leading-digit rule at its smallest."""
    r = ctx.rng
    words = ["a", "b", "c", "d", "ab", "ba", "aa", "bc", "cd"]
    shapes = [(x, y) for x in range(1, 4) for y in range(1, 4)]
    seen = set()
    for lhs in ("a", "ab"):
        for rhs in ("a", "b", "ab", "ba"):
            seen.add(((lhs,), (rhs,)))
    while len(seen) < ctx.n(130):
        x, y = r.choice(shapes)
        lhs, rhs = [r.choice(words) for _ in range(x)], [r.choice(words) for _ in range(y)]
        if r.random() < .3:
            lhs = [w[0] for w in lhs]
            rhs = [w[0] for w in rhs]
        seen.add((tuple(lhs), tuple(rhs)))
    for i, (lhs, rhs) in enumerate(sorted(seen)):
        if ctx.mine(i):
            lhs, rhs = list(lhs), list(rhs)
            want = sorted(alpha_brute(lhs, rhs))
            sols = ctx.take("solve", len(want) + 2, AL.solve, lhs, rhs)
            ctx.eq(sorted((list(a), list(b)) for a, b in sols), want, "all solutions of %r = %r" % (lhs, rhs))


@unit("C07", shards=4)
def wide(ctx):
    """Up to ten letters and long words: each answer is verified, the planted one must appear."""
    r = ctx.rng
    for i in range(ctx.n(10)):
        letters = r.sample("abcdefghijklmnopqrstuvwxyz", 10)
        n = r.randint(2, 6)
        a = [r.randint(10**4, 10**r.randint(5, 12)) for _ in range(n)]
        b = [sum(a)]
        lhs = ["".join(letters[int(c)] for c in str(x)) for x in a]
        rhs = ["".join(letters[int(c)] for c in str(x)) for x in b]
        sols = ctx.take("solve", 10**4, AL.solve, lhs, rhs)
        seen = set()
        for x, y in sols:
            ctx.eq(sum(x), sum(y), "the equation does not hold")
            m = {}
            for w, v in zip(lhs + rhs, list(x) + list(y)):
                s = str(v)
                ctx.eq(len(s), len(w), "leading zero or wrong length")
                for ch, c in zip(w, s):
                    ctx.check(m.setdefault(ch, c) == c, "one letter, two digits", lhs, rhs, x, y)
            ctx.eq(len(set(m.values())), len(m), "two letters share a digit")
            key = (tuple(x), tuple(y))
            ctx.check(key not in seen, "repeated solution", key)
            seen.add(key)
        if len(sols) < 10**4:
            ctx.check((tuple(a), tuple(b)) in seen, "the planted solution is missing", lhs, rhs, a)
