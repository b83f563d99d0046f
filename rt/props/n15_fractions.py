"""N15 continued fractions, N16 Pell equations, N17 divisor search, Bernoulli numbers, progressions."""
import itertools
import math
from fractions import Fraction

from rt.core import unit
from rt import oracles as O
from rt.gen import composite_int

from rosemary.number_theory import arithmetic_progressions as AP
from rosemary.number_theory import continued_fractions as CF
from rosemary.number_theory import misc as M
from rosemary.number_theory.diophantine_equations import pell as P


def nonsquare(r, hi):
    while True:
        d = r.randint(2, hi)
        if math.isqrt(d)**2 != d:
            return d


def expand(d, p, q, n):
    """First partial quotients of (p + sqrt d)/q by interval arithmetic (no P, Q recurrence)."""
    digits = 40 + 8 * n
    while True:
        S = 1 << digits
        s = math.isqrt(d * S * S)
        lo, hi = Fraction(p * S + s, q * S), Fraction(p * S + s + 1, q * S)
        if q < 0:
            lo, hi = hi, lo
        out = []
        while len(out) < n:
            a = lo.numerator // lo.denominator
            if a != hi.numerator // hi.denominator or hi == a:
                break
            out.append(a)
            if lo == a:
                break
            lo, hi = 1 / (hi - a), 1 / (lo - a)
        if len(out) >= n:
            return out[:n]
        digits *= 2


def judge_cf(ctx, d, p, q, maxterms=400):
    X = ctx.call("QuadraticIrrational", CF.QuadraticIrrational, d, p, q)
    fp, pre = list(X.fundamental_period), list(X.pre_period)
    ctx.check(len(fp) == X.period_length >= 1, "period_length differs from the period", d, p, q, fp)
    ctx.check(all(a >= 1 for a in (pre + fp)[1:]), "a partial quotient after the first is < 1", d, p, q, pre, fp)
    n = min(len(pre) + 2 * len(fp) + 2, maxterms)
    got = ctx.take("partial_quotients", n, X.partial_quotients)
    ctx.eq(got, expand(d, p, q, n), "partial quotients of (%d + sqrt(%d))/%d" % (p, d, q))
    want = [(pre + fp * (n // len(fp) + 2))[i] for i in range(n)]
    ctx.eq(got, want, "partial_quotients is not pre_period followed by the repeated period")
    # least period and pre-period
    L = len(fp)
    if L < 3000:
        ctx.check(not any(L % k == 0 and fp == fp[:k] * (L // k) for k in range(1, L)), "the period is not the least one", d, p, q, fp)
    ctx.check(not pre or pre[-1] != fp[-1] or (p, q) == (0, 1), "the pre-period is not the least one", d, p, q, pre, fp)
    # convergents: exact recurrence against a fold of the partial quotients, and approximation
    conv = ctx.take("convergents", min(n, 40), X.convergents)
    S = 1 << 600
    val = Fraction(p * S + math.isqrt(d * S * S), q * S)
    last = None
    for i, (a, b) in enumerate(conv):
        x = Fraction(got[i])
        for t in reversed(got[:i]):
            x = t + 1 / x
        ctx.check(b != 0 and math.gcd(a, b) == 1 and Fraction(a, b) == x and b > 0, "convergent %d of (%d + sqrt(%d))/%d is %d/%d, want %s" % (i, p, d, q, a, b, x))
        if i < 25 and b.bit_length() < 200:
            ctx.check(abs(val - x) < Fraction(1, b * b) + Fraction(1, 1 << 590), "convergent is not within 1/b^2", d, p, q, a, b)
        if last is not None and i >= 2:
            ctx.check(b > last, "denominators do not increase", d, p, q, conv)
        last = b
    return X


@unit("N15", shards=3)
def continued_fractions(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        for d in range(1, ctx.n(400, 3000)):
            if math.isqrt(d)**2 == d:
                ctx.raises("QuadraticIrrational", ValueError, CF.QuadraticIrrational, d)
                ctx.raises("QuadraticIrrational", ValueError, CF.QuadraticIrrational, d, 1, 2)
                continue
            X = judge_cf(ctx, d, 0, 1)
            per = X.fundamental_period
            ctx.check(X.pre_period == [math.isqrt(d)] and per[-1] == 2 * math.isqrt(d) and per[:-1] == per[:-1][::-1], "the expansion of sqrt(%d) is not [a0; palindrome, 2 a0]" % d, X.pre_period, per)
    elif ctx.shard == 1:
        for d in (2, 3, 5, 6, 7, 8, 13, 19, 31):
            for p in range(-9, 10):
                for q in itertools.chain(range(-9, 0), range(1, 10)):
                    judge_cf(ctx, d, p, q)
    else:
        for _ in range(ctx.n(400)):
            d = nonsquare(r, r.choice((50, 500, 5000)))
            p, q = r.randint(-60, 60), r.choice((1, -1)) * r.randint(1, 30)
            if r.random() < .4:
                q = r.choice([t for t in O.divisors(abs(d - p * p))]) * r.choice((1, -1))
            judge_cf(ctx, d, p, q)
        for _ in range(ctx.n(60)):
            d = nonsquare(r, 10**r.randint(6, 24))
            c = r.randint(1, 10**6)
            d = r.choice((c * c + 1, c * c + 2, c * c - 1 if c > 1 else 2, c * c + c))     # short period, large d
            if math.isqrt(d)**2 != d:
                judge_cf(ctx, d, 0, 1)


# ------------------------------------------------------------------------------------- N16
def least_pell(D, n, limit):
    for y in range(1, limit):
        t = D * y * y + n
        if t > 0 and math.isqrt(t)**2 == t:
            return math.isqrt(t), y
    return None


def minimal_positive(D, N, u, v):
    """Positive solutions from which no smaller positive solution is reached by the unit (u, v):
    exhaustive up to the theorem bound y <= v*sqrt(|N|)*... (one unit step past it)."""
    Y = 2 * v * (math.isqrt(abs(N)) + 1) + 5
    out = []
    for y in range(1, Y):
        t = N + D * y * y
        if t > 0:
            x = math.isqrt(t)
            if x * x == t and not (x * u - y * v * D > 0 and y * u - x * v > 0):
                out.append((x, y))
    return sorted(out)


@unit("N16", shards=3)
def fundamental(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        for D in range(-3, ctx.n(260, 1200)):
            if D <= 0 or math.isqrt(D)**2 == D:
                ctx.raises("pell_fundamental_solution", ValueError, P.pell_fundamental_solution, D)
                ctx.raises("PellEquation", ValueError, P.PellEquation, D, 1)
                continue
            x, y = ctx.call("pell_fundamental_solution", P.pell_fundamental_solution, D)
            ctx.check(x > 0 and y > 0 and x * x - D * y * y == 1, "not a solution of x^2 - %d y^2 = 1" % D, x, y)
            if y < 40000:
                ctx.eq((x, y), least_pell(D, 1, y + 1), "fundamental solution D=%d" % D)
            if y < 400:
                ctx.eq(ctx.call("farey", P.farey, D, 1), (x, y), "farey(%d, 1)" % D)
            ctx.eq(ctx.call("resolvent_solution", P.PellEquation(D, 7).resolvent_solution), (x, y), "resolvent D=%d" % D)
            o, m = ctx.outcome("pell_fundamental_solution/-1", P.pell_fundamental_solution, D, -1)
            if o == "ok":
                a, b = m
                ctx.check(a > 0 and b > 0 and a * a - D * b * b == -1, "not a solution of x^2 - %d y^2 = -1" % D, m)
                # the square of the least solution with norm -1 is the least one with norm +1
                ctx.eq((a * a + D * b * b, 2 * a * b), (x, y), "D=%d: norm -1 solution squared" % D)
            else:
                ctx.check(isinstance(m, ValueError), "wrong exception", m)
                if y < 10**7:
                    ctx.eq(least_pell(D, -1, math.isqrt(y) + 2), None, "D=%d: norm -1 solution exists" % D)
        for n in (2, -2, 0, 5):
            ctx.raises("pell_fundamental_solution", ValueError, P.pell_fundamental_solution, 15, n)
    elif ctx.shard == 1:
        # the period parity criterion decides norm -1, and the square of it is the +1 solution
        for _ in range(ctx.n(250)):
            D = nonsquare(r, 10**r.randint(3, 6))
            x, y = ctx.call("pell_fundamental_solution", P.pell_fundamental_solution, D)
            ctx.check(x > 0 and y > 0 and x * x - D * y * y == 1, "not a solution", D, x, y)
            # fundamental <=> not a proper power: no norm -1/+1 root among smaller convergents
            a0, a1, b0, b1 = 0, 1, 1, 0
            Pq, Q, s = 0, 1, math.isqrt(D)
            first = {}
            while True:
                a = (Pq + s) // Q
                a0, a1, b0, b1 = a1, a * a1 + a0, b1, a * b1 + b0
                k = a1 * a1 - D * b1 * b1
                first.setdefault(k, (a1, b1))
                if k == 1:
                    break
                Pq = a * Q - Pq
                Q = (D - Pq * Pq) // Q
            ctx.eq((x, y), first[1], "fundamental solution D=%d" % D)
            if -1 in first:
                ctx.eq(ctx.call("pell_fundamental_solution/-1", P.pell_fundamental_solution, D, -1), first[-1], "norm -1 D=%d" % D)
            else:
                ctx.raises("pell_fundamental_solution/-1", ValueError, P.pell_fundamental_solution, D, -1)
    else:
        for D in range(2, ctx.n(40, 90)):
            if math.isqrt(D)**2 == D:
                continue
            k = math.isqrt(D - 1)
            for N in range(-k, k + 1):
                if N == 0:
                    continue
                lim = 7
                L = ctx.take("pell_small", lim if N == 1 else 0 or lim, P.pell_small, D, N) if has_primitive(D, N) else []
                ctx.check(all(x > 0 and y >= 0 and x * x - D * y * y == N for x, y in L), "pell_small(%d, %d): not solutions" % (D, N), L)
                ctx.check(L == sorted(set(L)), "pell_small: not increasing", L)
                if L:
                    X = min(L[-1][0], 3000)
                    want = []
                    for y in range(0, X + 1):
                        t = N + D * y * y
                        if t > 0 and math.isqrt(t)**2 == t and math.isqrt(t) <= X and math.gcd(math.isqrt(t), y) == 1 and y > 0:
                            want.append((math.isqrt(t), y))
                    missing = [w for w in want if w not in L]
                    ctx.check(not missing, "pell_small(%d, %d) misses" % (D, N), missing, L)


def has_primitive(D, N):
    return any(t > 0 and math.isqrt(t)**2 == t and math.gcd(math.isqrt(t), y) == 1
               for y in range(1, 600) for t in (N + D * y * y,))


@unit("N16", shards=4)
def classes(ctx):
    r = ctx.rng
    Ds = [D for D in range(2, 110) if math.isqrt(D)**2 != D]
    i = 0
    for D in Ds:
        u, v = least_pell(D, 1, 3000) or (0, 0)
        if not u:
            continue
        for N in itertools.chain(range(-70, 71), [100, -100, 144, 225, -396, 400, 1024, -1331, 2025, 3600]):
            if N == 0:
                continue
            i += 1
            if i % 4 != ctx.shard or (v > 400 and N % 5) or (v * math.isqrt(abs(N)) > 30000):
                continue
            want = minimal_positive(D, N, u, v)
            got = ctx.call("pell_minimal_positive_solutions", P.pell_minimal_positive_solutions, D, N)
            ctx.eq(sorted(tuple(g) for g in got), want, "minimal positive solutions of x^2 - %d y^2 = %d" % (D, N))
            ctx.check(got == sorted(got), "not sorted", D, N, got)
            B = r.choice((5, 50, 500, 10**5, 10**12))
            sols = set()
            for x, y in want:
                while x <= B and y <= B:
                    sols.add((x, y))
                    x, y = x * u + y * v * D, x * v + y * u
            L = ctx.take("pell_solution_generator", 5000, P.pell_solution_generator, D, N, B)
            ctx.check(sorted(L) == sorted(sols), "pell_solution_generator(%d, %d, %d)" % (D, N, B), sorted(L)[:10], sorted(sols)[:10])


# ------------------------------------------------------------------------------------- N17
@unit("N17", shards=2)
def divisor_search(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        for n in range(1, ctx.n(400, 1500)):
            d = O.divisors(n)
            for b in range(1, n + 1):
                w = max(x for x in d if x <= b)
                ctx.eq(ctx.call("largest_divisor", M.largest_divisor, n, b), w, "largest_divisor(%d, %d)" % (n, b))
        best = 0
        for B in range(1, ctx.n(3000, 12000)):
            best = max(best, O.sigma(B, 0))
            t, m = ctx.call("maximize_divisors", M.maximize_divisors, B)
            ctx.check(t == best and 1 <= m <= B and O.sigma(m, 0) == t, "maximize_divisors(%d) = (%d, %d), best count %d" % (B, t, m, best))
    else:
        for _ in range(ctx.n(400)):
            n = composite_int(r, r.randint(10, 60))
            d = O.divisors(n)
            for _ in range(6):
                b = r.choice(d) + r.choice((-1, 0, 1)) if r.random() < .6 else r.randint(1, n)
                b = min(max(1, b), n)
                ctx.eq(ctx.call("largest_divisor", M.largest_divisor, n, b), max(x for x in d if x <= b), "largest_divisor(%d, %d)" % (n, b))
        # highly composite numbers (OEIS A002182): record holders
        hcn = [1, 2, 4, 6, 12, 24, 36, 48, 60, 120, 180, 240, 360, 720, 840, 1260, 1680, 2520, 5040, 7560,
               10080, 15120, 20160, 25200, 27720, 45360, 50400, 55440, 83160, 110880, 166320, 221760,
               277200, 332640, 498960, 554400, 665280, 720720, 1081080, 1441440, 2162160]
        for a, b in zip(hcn, hcn[1:]):
            for B in {a, b - 1, r.randint(a, b - 1)}:
                t, m = ctx.call("maximize_divisors", M.maximize_divisors, B)
                ctx.check(t == O.sigma(a, 0) == O.sigma(m, 0) and m <= B, "maximize_divisors(%d)" % B, t, m)
        prev = 0
        for _ in range(ctx.n(30, 60)):
            B = 10**r.randint(7, ctx.n(18, 25)) + r.getrandbits(20)
            t, m = ctx.call("maximize_divisors", M.maximize_divisors, B)
            ctx.check(m <= B and O.sigma(m, 0) == t, "maximize_divisors(%d): count" % B, t, m)
            t2, _ = ctx.call("maximize_divisors", M.maximize_divisors, 2 * B)
            ctx.check(t2 > t, "maximize_divisors: doubling the bound always gains (2m beats m)", B, t, t2)
            t3, m3 = ctx.call("maximize_divisors", M.maximize_divisors, m)
            ctx.eq((t3, O.sigma(m3, 0)), (t, t), "maximize_divisors at its own value")


@unit("N17")
def bernoulli_numbers(ctx):
    # Akiyama-Tanigawa, independent of the recursion in the docstring
    N = ctx.n(120, 260)
    A, B = [], []
    for m in range(N + 1):
        A.append(Fraction(1, m + 1))
        for j in range(m, 0, -1):
            A[j - 1] = j * (A[j - 1] - A[j])
        B.append(A[0])
    B[1] = Fraction(-1, 2)
    for n in range(N + 1):
        L = ctx.call("bernoulli_list", M.bernoulli_list, n)
        ctx.check(len(L) == n + 1 and all(x == y for x, y in zip(L, B)), "bernoulli_list(%d)" % n, L[-3:], B[n])


def ap_brute(A):
    S, out = set(A), []
    for i in range(len(A)):
        for j in range(i + 1, len(A)):
            d = A[j] - A[i]
            if A[i] - d in S:
                continue
            L = [A[i]]
            while L[-1] + d in S:
                L.append(L[-1] + d)
            out.append(tuple(L))
    m = max(map(len, out), default=0)
    return sorted(x for x in out if len(x) == m)


@unit("N17")
def progressions(ctx):
    r = ctx.rng
    cases = []
    for bits in range(1 << 10):
        cases.append([i + 1 for i in range(10) if bits >> i & 1])
    for _ in range(ctx.n(800)):
        A = set(r.sample(range(1, 300), r.randint(0, 40)))
        if r.random() < .5:
            a, d, k = r.randint(1, 50), r.randint(1, 20), r.randint(3, 12)
            A |= {a + i * d for i in range(k)}
        cases.append(sorted(A))
    cases.append(O.primes_upto(900))
    for A in cases:
        if len(A) >= 2:
            ctx.eq(ctx.call("longest_ap", AP.longest_ap, A), ap_brute(A), "longest_ap")
        got = ctx.call("has_three_term_ap", AP.has_three_term_ap, A)
        S = set(A)
        exists = any(2 * y - x in S for i, x in enumerate(A) for y in A[i + 1:])
        if not exists:
            ctx.eq(got, False, "has_three_term_ap(%s)" % A)
            ctx.eq(ctx.call("has_three_term_ap/i", AP.has_three_term_ap, A, indices=True), False)
        else:
            ctx.check(got is not False and len(got) == 3 and set(got) <= S and got[0] < got[1] < got[2] and got[0] + got[2] == 2 * got[1], "has_three_term_ap(%s)" % A, got)
            i, j, k = ctx.call("has_three_term_ap/i", AP.has_three_term_ap, A, indices=True)
            ctx.check(0 <= i < j < k < len(A) and A[i] + A[k] == 2 * A[j], "has_three_term_ap indices", A, (i, j, k))
