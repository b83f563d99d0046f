"""C01 permutations, variations, tuples, combinations.  C02 partitions.  C03 enumeration counts."""
import itertools
import math
from collections import Counter
from fractions import Fraction

from rt.core import unit

from rosemary.combinatorics.enumeration import enumeration as E
from rosemary.combinatorics.generation import combinations as CO
from rosemary.combinatorics.generation import partitions as PT
from rosemary.combinatorics.generation import permutations as PM
from rosemary.combinatorics.generation import tuples as TU


def drain(fn, cap):
    def run(*a, **k):
        return list(itertools.islice(fn(*a, **k), cap))
    return run


def drain_clobber(fn, cap):
    """A consumer that overwrites every list it is given after recording it."""
    def run(*a, **k):
        out = []
        for x in itertools.islice(fn(*a, **k), cap):
            out.append(list(x))
            for i in range(len(x)):
                x[i] = -77
        return out
    return run


def judge_gen(ctx, label, fn, args, want, ordered, kw={}):
    """want: list of lists, the complete duplicate-free answer."""
    cap = len(want) + 2
    got = ctx.call(label, drain(fn, cap), *args, **kw)
    got = [list(g) for g in got]
    if ordered:
        ctx.eq(got, want, "%s%r%r" % (label, args, kw))
    else:
        ctx.eq(sorted(got), sorted(want), "%s%r%r" % (label, args, kw))
    if ctx.evals % 3 == 0:
        again = ctx.call(label + "/clobber", drain_clobber(fn, cap), *args, **kw)
        ctx.check([list(g) for g in again] == got, "%s%r: yielded lists share state with the generator" % (label, args), got[:5], again[:5])


def multisets(ctx, k, top):
    r = ctx.rng
    for n in range(0, top + 1):
        yield list(range(n))
        yield [7] * n
        yield [1, 2] * (n // 2)
    yield ["b", "a", "c", "a"]
    yield [Fraction(1, 2), 3, Fraction(1, 2)]
    yield [3, -1, -1, 0, 2]
    for _ in range(k):
        n = r.randint(0, top)
        yield [r.randint(0, r.choice((1, 2, 4, 9))) for _ in range(n)]


@unit("C01", shards=2)
def permutations(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        for k in range(0, 6):          # every multiset over 3 symbols, every input order class
            for m in itertools.product(range(3), repeat=k):
                if ctx.thorough or k < 5 or r.random() < .3:
                    w = [list(p) for p in sorted(set(itertools.permutations(m)))]
                    judge_gen(ctx, "phillips", PM.phillips, (list(m),), w, True)
                    judge_gen(ctx, "knuth_algorithm_l", PM.knuth_algorithm_l, (list(m),), w, True)
    else:
        for m in multisets(ctx, ctx.n(250), 7):
            w = [list(p) for p in sorted(set(itertools.permutations(m)))]
            judge_gen(ctx, "phillips", PM.phillips, (m,), w, True)
            judge_gen(ctx, "knuth_algorithm_l", PM.knuth_algorithm_l, (tuple(m) if r.random() < .3 else m,), w, True)


@unit("C01", shards=2)
def variations(ctx):
    for m in multisets(ctx, ctx.n(150), 6 if ctx.shard else 5):
        allv = set()
        for k in range(len(m) + 1):
            s = sorted(set(itertools.permutations(m, k)))
            if m:
                judge_gen(ctx, "knuth_algorithm_l_rvariations", PM.knuth_algorithm_l_rvariations, (m, k), [list(p) for p in s], True)
            allv.update(s)
        judge_gen(ctx, "knuth_algorithm_l_variations", PM.knuth_algorithm_l_variations, (m,), [list(p) for p in sorted(allv)], True)
        if m:
            judge_gen(ctx, "knuth_algorithm_l_rvariations", PM.knuth_algorithm_l_rvariations, (m, len(m) + 1), [], True)


@unit("C01")
def tuples_and_combinations(ctx):
    r = ctx.rng
    for n in range(0, 11):
        for t in range(0, n + 3):
            w = [sorted(c, reverse=True) for c in itertools.combinations(range(n), t)]
            judge_gen(ctx, "combinations", lambda *a: (sorted(c, reverse=True) for c in CO.combinations(*a)), (n, t), w, False)
    for t in (1, 2, 3):
        n = r.randint(15, 40)
        got = ctx.call("combinations", drain(CO.combinations, 20000), n, t)
        ctx.check(len(got) == math.comb(n, t) == len({frozenset(c) for c in got}) and all(len(set(c)) == t and 0 <= min(c) and max(c) < n for c in got), "combinations(%d, %d)" % (n, t))
    for n in range(0, 9):
        judge_gen(ctx, "n_tuples", TU.n_tuples, (n,), [list(x) for x in itertools.product((0, 1), repeat=n)], True)
    for b in range(1, 6):
        for n in range(0, 5):
            judge_gen(ctx, "n_tuples", TU.n_tuples, (n, b), [list(x) for x in itertools.product(range(b), repeat=n)], True)
    for _ in range(ctx.n(300)):
        n = r.randint(0, 6)
        M = [r.randint(1, 4) for _ in range(n)]
        judge_gen(ctx, "n_tuples", TU.n_tuples, (n, M), [list(x) for x in itertools.product(*map(range, M))], True)


def lex_words(items, k=None):
    """Arrangements of a multiset (of length k) in lexicographic order, lazily."""
    left = sorted(Counter(items).items())
    syms, cnt = [s for s, _ in left], [c for _, c in left]
    k = len(items) if k is None else k
    word = []

    def rec():
        if len(word) == k:
            yield list(word)
            return
        for i, s in enumerate(syms):
            if cnt[i]:
                cnt[i] -= 1
                word.append(s)
                yield from rec()
                word.pop()
                cnt[i] += 1
    return rec()


def judge_prefix(ctx, label, fn, args, want, n):
    """The first n items of a long generation."""
    w = list(itertools.islice(want, n + 1))
    got = [list(g) for g in ctx.call(label, drain(fn, n + 1), *args)]
    ctx.eq(got, w, "%s%r, first %d" % (label, args, n))


@unit("C01", shards=3)
def long_inputs(ctx):
    """Words much longer than a full enumeration allows: short multisets completely, others by prefix."""
    r = ctx.rng
    for _ in range(ctx.n(3)):
        n = r.randint(10, 80)
        big = r.choice((1, 13, 60, 2000))
        for m in ([big] * n, [0] * n + [big], [big + 1] + [big] * n, [3] * (n // 3) + [big + 9] * 2, [0] * (n // 3) + [1, big + 1]):
            r.shuffle(m)
            if big == 13:
                m = [Fraction(x, 7) for x in m]
            judge_prefix(ctx, "phillips", PM.phillips, (m,), lex_words(m), 2000)
            judge_prefix(ctx, "knuth_algorithm_l", PM.knuth_algorithm_l, (m,), lex_words(m), 2000)
            for k in (1, 2, len(m) - 1, len(m)):
                judge_prefix(ctx, "knuth_algorithm_l_rvariations", PM.knuth_algorithm_l_rvariations, (m, k), lex_words(m, k), 500)
        m = [r.randint(0, r.choice((2, 20, 3000))) for _ in range(n)]
        judge_prefix(ctx, "phillips", PM.phillips, (m,), lex_words(m), 1500)
        judge_prefix(ctx, "knuth_algorithm_l", PM.knuth_algorithm_l, (m,), lex_words(m), 1500)
        k = r.randint(1, n)
        judge_prefix(ctx, "knuth_algorithm_l_rvariations", PM.knuth_algorithm_l_rvariations, (m, k), lex_words(m, k), 1000)
        got = ctx.call("knuth_algorithm_l_variations", drain(PM.knuth_algorithm_l_variations, 600), m)
        want, w = [], []
        for _ in range(600):
            want.append(list(w))
            if len(w) < n:
                left = Counter(m) - Counter(w)
                w.append(min(left))
            else:
                break
        lim = min(len(want), 600)
        ctx.eq([list(x) for x in got[:lim]], want[:lim], "the first variations extend one another")
        ctx.check(all(a < b for a, b in zip(got, got[1:])) and all(not Counter(x) - Counter(m) for x in got), "variations increasing and within the multiset")
    for _ in range(ctx.n(2)):
        n = r.randint(12, 70)
        for t in (0, 1, 2, n - 2, n - 1, n, n + 1):
            w = [sorted(c, reverse=True) for c in itertools.combinations(range(n), t)]
            judge_gen(ctx, "combinations", lambda *a: (sorted(c, reverse=True) for c in CO.combinations(*a)), (n, t), w, False)
        t = r.randint(3, n - 3)
        got = ctx.call("combinations", drain(CO.combinations, 3000), n, t)
        ctx.check(len(got) == min(3000, math.comb(n, t)) == len({frozenset(c) for c in got}) and all(len(set(c)) == t and 0 <= min(c) and max(c) < n for c in got),
                  "combinations(%d, %d): first 3000" % (n, t))
        M = [r.choice((1, 2, 3, 60, 1500)) for _ in range(n)]
        judge_prefix(ctx, "n_tuples", TU.n_tuples, (n, M), lex_product(M), 3000)
        judge_prefix(ctx, "n_tuples", TU.n_tuples, (n,), lex_product([2] * n), 1100)
        judge_prefix(ctx, "n_tuples", TU.n_tuples, (3, 70), lex_product([70] * 3), 6000)
        M = [1] * n
        for i in r.sample(range(n), 3):
            M[i] = r.choice((2, 9, 14))
        judge_prefix(ctx, "n_tuples", TU.n_tuples, (n, M), lex_product(M), 3000)


def lex_product(M):
    """Tuples below the radices in M, in order, by counting."""
    tot = math.prod(M)
    for i in itertools.count():
        if i >= tot:
            return
        t = []
        for b in reversed(M):
            i, d = divmod(i, b)
            t.append(d)
        yield t[::-1]


# ------------------------------------------------------------------------------------- C02
def parts_brute(n, parts, distinct, num):
    """All partitions as multisets, by choosing a multiplicity for each part size."""
    parts = sorted(set(parts), reverse=True)
    out = []

    def rec(i, left, cur):
        if left == 0:
            if not num or len(cur) == num:
                out.append(cur)
            return
        if i == len(parts):
            return
        p = parts[i]
        top = left // p
        for m in range(min(top, 1) if distinct else top, -1, -1):
            rec(i + 1, left - m * p, cur + [p] * m)
    rec(0, n, [])
    return out


@unit("C02", shards=3)
def integer_partitions(ctx):
    r = ctx.rng
    f = PT.integer_partitions
    if ctx.shard == 0:
        for n in range(0, ctx.n(19, 26)):
            for d in (False, True):
                judge_gen(ctx, "integer_partitions", f, (n,), parts_brute(n, range(1, n + 1), d, 0), False, {"distinct": d} if d or n % 2 else {})
                for k in range(0, n + 3):
                    if n < 15 or k % 4 == 1:
                        kw = {"num_parts": k}
                        if d:
                            kw["distinct"] = True
                        judge_gen(ctx, "integer_partitions", f, (n,), parts_brute(n, range(1, n + 1), d, k), False, kw)
    elif ctx.shard == 1:
        for _ in range(ctx.n(4000)):
            n = r.randint(0, 20)
            top = r.choice((4, 8, 21))
            parts = r.sample(range(1, top + 1), r.randint(1, min(top, 6)))
            if r.random() < .2 and n:
                parts = list({n} | set(parts))
            d = r.random() < .5
            kw = {"parts": parts}
            if d or r.random() < .2:
                kw["distinct"] = d
            k = 0
            if r.random() < .5:
                k = r.randint(0, n + 1)
                kw["num_parts"] = k
            judge_gen(ctx, "integer_partitions", f, (n,), parts_brute(n, parts, d, k), False, kw)
    else:
        # larger n: counts through Euler's and the k-part recurrences, each partition well formed, no repeats
        N = 40
        p = [[0] * (N + 1) for _ in range(N + 1)]
        p[0][0] = 1
        for n in range(1, N + 1):
            for k in range(1, n + 1):
                p[n][k] = p[n - 1][k - 1] + (p[n - k][k] if n >= k else 0)
        for n in range(19, ctx.n(34, 41)):
            L = ctx.call("integer_partitions", drain(f, 10**6), n)
            ok(ctx, L, n, sum(p[n]))
            for k in (1, 2, 3, n // 2, n - 1, n):
                L = ctx.call("integer_partitions", drain(f, 10**6), n, num_parts=k)
                ok(ctx, L, n, p[n][k])
                ctx.check(all(len(x) == k for x in L), "num_parts=%d" % k, n)
            q = [1] + [0] * n
            for m in range(1, n + 1):
                for s in range(n, m - 1, -1):
                    q[s] += q[s - m]
            L = ctx.call("integer_partitions", drain(f, 10**6), n, distinct=True)
            ok(ctx, L, n, q[n])
            ctx.check(all(len(set(x)) == len(x) for x in L), "distinct partitions repeat a part", n)


@unit("C02")
def large_partitions(ctx):
    r = ctx.rng
    f = PT.integer_partitions
    for _ in range(ctx.n(8)):
        n = r.randint(41, 1500)
        L = ctx.call("integer_partitions", drain(f, 3000), n)
        ok(ctx, L, n, 3000)
        for k in (1, 2, 3, n - 2, n - 1, n, r.randint(4, n - 3)):
            L = ctx.call("integer_partitions", drain(f, 2000), n, num_parts=k)
            q = [1] + [0] * (n - k)             # n into exactly k parts: n - k into parts of size at most k
            for m in range(1, min(k, n - k) + 1):
                for s in range(m, n - k + 1):
                    q[s] += q[s - m]
            ok(ctx, L, n, min(2000, q[n - k]))
            ctx.check(all(len(x) == k for x in L), "num_parts=%d" % k, n)
        L = ctx.call("integer_partitions", drain(f, 500), min(n, 300), distinct=True)
        ok(ctx, L, min(n, 300), 500)
        ctx.check(all(len(set(x)) == len(x) for x in L), "distinct partitions repeat a part", n)
        for _ in range(6):
            n = r.randint(30, 3000)
            parts = r.sample(range(max(1, n // 14), n + 5), min(r.randint(1, 7), n // 2))
            d = r.random() < .4
            kw = {"parts": parts}
            if d:
                kw["distinct"] = True
            k = 0
            if r.random() < .5:
                k = kw["num_parts"] = r.randint(1, 9)
            w = parts_brute(n, parts, d, k)
            n2 = n
            if not w:
                pick = r.choices(parts, k=r.randint(1, 6)) if not d else r.sample(parts, r.randint(1, len(parts)))
                n2 = sum(pick)
                w = parts_brute(n2, parts, d, k)
            if len(w) < 4000:
                judge_gen(ctx, "integer_partitions", f, (n2,), w, False, kw)


def ok(ctx, L, n, cnt):
    ctx.check(all(sum(x) == n and x == sorted(x, reverse=True) and min(x) >= 1 for x in L), "malformed partition of %d" % n)
    ctx.check(len(L) == len({tuple(x) for x in L}) == cnt, "partitions of %d: %d yielded, %d exist" % (n, len(L), cnt))


# ------------------------------------------------------------------------------------- C03
@unit("C03", shards=2)
def sequences(ctx):
    N = ctx.n(60, 140)
    if ctx.shard == 0:
        tri = [1]               # Bell triangle
        bell = [1]
        for n in range(1, N + 1):
            nxt = [tri[-1]]
            for x in tri:
                nxt.append(nxt[-1] + x)
            tri = nxt
            bell.append(tri[0])
        for n in range(N + 1):
            ctx.eq(ctx.call("bell_number", E.bell_number, n), bell[n], "bell_number(%d)" % n)
        for bad in (-1, -10):
            ctx.raises("bell_number", ValueError, E.bell_number, bad)
        for n in range(0, ctx.n(26, 50)):
            for k in range(0, n + 4):
                # explicit inclusion-exclusion formula
                w = sum((-1)**(k - j) * math.comb(k, j) * j**n for j in range(k + 1)) // math.factorial(k)
                ctx.eq(ctx.call("stirling_number2", E.stirling_number2, n, k), w, "stirling_number2(%d, %d)" % (n, k))
        for n in range(0, ctx.n(45, 90)):
            for k in range(0, n + 4):
                ctx.eq(ctx.call("binomial", E.binomial, n, k), math.comb(n, k), "binomial(%d, %d)" % (n, k))
        for _ in range(ctx.n(200)):
            n = ctx.rng.randint(50, 3000)
            k = ctx.rng.choice((0, 1, 2, n, n - 1, n // 2, ctx.rng.randint(0, n)))
            ctx.eq(ctx.call("binomial", E.binomial, n, k), math.comb(n, k), "binomial(%d, %d)" % (n, k))
        for _ in range(ctx.n(500)):
            n = ctx.rng.randint(1, 40)
            ks, left = [], n
            while left and ctx.rng.random() < .8:
                ks.append(ctx.rng.randint(1, left))
                left -= ks[-1]
            if not ks:
                ctx.raises("multinomial", ValueError, E.multinomial, n, [])
                continue
            w = math.factorial(n)
            for k in ks:
                w //= math.factorial(k)
            ctx.eq(ctx.call("multinomial", E.multinomial, n, ks), w, "multinomial(%d, %s)" % (n, ks))
            ctx.raises("multinomial", ValueError, E.multinomial, n, ks + [left + 1])
    else:
        M = ctx.n(400, 1200)
        p = [1] + [0] * M                       # coin DP, not the pentagonal recurrence
        for part in range(1, M + 1):
            for s in range(part, M + 1):
                p[s] += p[s - part]
        for n in list(range(0, 130)) + [M // 2, M]:
            ctx.eq(ctx.call("partition_list", E.partition_list, n), p[:n + 1], "partition_list(%d)" % n)
            ctx.eq(ctx.call("partition_number", E.partition_number, n), p[n], "partition_number(%d)" % n)
        D = ctx.n(60, 80)
        pw = [1] + [0] * D
        for rr in range(1, 16):
            pw = [sum(pw[i] * p[n - i] for i in range(n + 1)) for n in range(D + 1)]
            for n in range(D + 1):
                ctx.eq(ctx.call("rth_power_partition_number", E.rth_power_partition_number, rr, n), pw[n], "p_%d(%d)" % (rr, n))
        # bipartitions: coefficient DP over all vector parts
        m0, n0 = 12, 10
        b = [[0] * (n0 + 1) for _ in range(m0 + 1)]
        b[0][0] = 1
        for i in range(m0 + 1):
            for j in range(n0 + 1):
                if i + j:
                    for k in range(i, m0 + 1):
                        for l in range(j, n0 + 1):
                            b[k][l] += b[k - i][l - j]
        for i in range(m0 + 1):
            for j in range(n0 + 1):
                ctx.eq(ctx.call("bipartitions", E.bipartitions, i, j), b[i][j], "bipartitions(%d, %d)" % (i, j))
        for i in range(0, 40, 3):
            ctx.eq(ctx.call("bipartitions", E.bipartitions, i, 0), p[i], "bipartitions(%d, 0)" % i)
            ctx.eq(ctx.call("bipartitions", E.bipartitions, i, 3), ctx.call("bipartitions", E.bipartitions, 3, i), "bipartitions symmetric")


def domino_profile(m, n):
    """Broken-profile DP."""
    m, n = max(m, n), min(m, n)
    cur = {0: 1}
    for i in range(m):
        for j in range(n):
            nxt = Counter()
            for mask, c in cur.items():
                if mask >> j & 1:
                    nxt[mask & ~(1 << j)] += c
                else:
                    nxt[mask | 1 << j] += c                             # vertical, into the next row
                    if j + 1 < n and not mask >> (j + 1) & 1:
                        nxt[mask | 1 << (j + 1)] += c                   # horizontal
            cur = nxt
    return cur.get(0, 0)


def triomino_count(nr, nc):
    shapes = [((0, 0), (0, 1), (1, 0)), ((0, 0), (0, 1), (1, 1)), ((0, 0), (1, 0), (1, 1)), ((0, 1), (1, 0), (1, 1)),
              ((0, 0), (0, 1), (0, 2)), ((0, 0), (1, 0), (2, 0))]
    pieces = {}
    for s in shapes:
        for i in range(nr):
            for j in range(nc):
                cells = [(i + a, j + b) for a, b in s]
                if all(x < nr and y < nc for x, y in cells):
                    mask = sum(1 << (x * nc + y) for x, y in cells)
                    low = (mask & -mask).bit_length() - 1
                    pieces.setdefault(low, []).append(mask)
    full = (1 << nr * nc) - 1
    memo = {full: 1}

    def rec(mask):
        if mask in memo:
            return memo[mask]
        low = (~mask & (mask + 1)).bit_length() - 1
        t = sum(rec(mask | p) for p in pieces.get(low, ()) if not mask & p)
        memo[mask] = t
        return t
    return rec(0)


@unit("C03", shards=2)
def tilings_and_necklaces(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        lim = ctx.n(36, 48)
        for m in range(1, 13):
            for n in range(1, 13):
                if m * n <= lim and min(m, n) <= 6:
                    ctx.eq(ctx.call("number_of_domino_tilings", E.number_of_domino_tilings, m, n), domino_profile(m, n), "domino tilings %dx%d" % (m, n))
        for m, n in ((1, 60), (61, 1), (1, 51), (2, 17), (40, 2), (61, 2), (16, 3), (26, 3), (14, 4), (4, 9)):
            ctx.eq(ctx.call("number_of_domino_tilings", E.number_of_domino_tilings, m, n), domino_profile(m, n), "domino tilings %dx%d" % (m, n))
        for m, n in ((1, 30), (45, 1), (1, 17), (2, 15), (18, 2), (3, 13), (3, 8), (10, 3), (4, 9), (15, 3)):
            ctx.eq(ctx.call("triomino_tilings", E.triomino_tilings, m, n), triomino_count(m, n), "triomino tilings %dx%d" % (m, n))
        for m in range(1, 9):
            for n in range(1, 9):
                if m * n <= ctx.n(28, 36):
                    ctx.eq(ctx.call("triomino_tilings", E.triomino_tilings, m, n), triomino_count(m, n), "triomino tilings %dx%d" % (m, n))
    else:
        for n in range(1, 10):
            for k in range(1, 5):
                if k**n > 5000:
                    continue
                reps = set()
                by = Counter()
                for w in itertools.product(range(k), repeat=n):
                    c = min(w[i:] + w[:i] for i in range(n))
                    if c not in reps:
                        reps.add(c)
                        cnt = tuple(c.count(x) for x in range(k))
                        by[cnt] += 1
                if k >= 2:
                    ctx.eq(ctx.call("necklaces", E.necklaces, n, k), len(reps), "necklaces(%d, %d)" % (n, k))
                for wts, c in by.items():
                    if min(wts) > 0:
                        ctx.eq(ctx.call("necklaces/w", E.necklaces, n, k, list(wts)), c, "necklaces(%d, %d, %s)" % (n, k, wts))
        for _ in range(ctx.n(300)):
            n, k = r.randint(1, 60), r.randint(2, 30)
            w = sum(k**math.gcd(n, i) for i in range(n)) // n        # Burnside over the n rotations
            ctx.eq(ctx.call("necklaces", E.necklaces, n, k), w, "necklaces(%d, %d)" % (n, k))
            ws = [r.randint(1, 6) * r.choice((1, 2, 3)) for _ in range(r.randint(1, 6))]
            g = r.choice((1, 2, 3, 4, 6))
            ws = [g * x for x in ws]
            n = sum(ws)
            tot = 0
            for i in range(n):
                d = math.gcd(n, i)                       # rotation with d cycles of length n/d
                L = n // d
                if all(x % L == 0 for x in ws):
                    t = math.factorial(d)
                    for x in ws:
                        t //= math.factorial(x // L)
                    tot += t
            ctx.eq(ctx.call("necklaces/w", E.necklaces, n, len(ws), ws), tot // n, "necklaces with weights %s" % ws)
