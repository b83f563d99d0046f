"""N03 primality, N04 prime enumeration, N05 prime counting and summing."""
import itertools
import math
from bisect import bisect_left, bisect_right

from rt.core import unit
from rt import oracles as O
from rt.gen import boundary_ints, composite_int

from rosemary.number_theory.primes import primality as P
from rosemary.number_theory.primes import sieves as S
from rosemary.number_theory.primes import prime_counting as PC

CARMICHAEL = [561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745,
              63973, 75361, 101101, 115921, 126217, 162401, 172081, 188461, 252601, 278545, 294409,
              314821, 334153, 340561, 399001, 410041, 449065, 488881, 512461, 1909001, 3057601,
              9439201, 118901521, 172947529, 216821881, 228842209, 56052361, 1590231231043178376951698401]
# smallest strong pseudoprimes to the first k prime bases, and other famous ones
PSI = [2047, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321]
SPSP2 = [2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489,
         88357, 90751, 1194649, 12327121]


def hard_composites(r, k, bits=40):
    """p*(c(p-1)+1) products (many liars), squares, near-equal factors."""
    out = []
    while len(out) < k:
        p = O.random_prime(r, r.randint(4, bits // 2))
        c = r.choice((1, 2, 3, 4, 5))
        q = c * (p - 1) + 1
        if c > 1 and O.isprime(q):
            out.append(p * q)
        elif r.random() < .3:
            out.append(p * p)
        elif r.random() < .3:
            out.append(p * O.nextprime(p))
    return out


@unit("N03", shards=3)
def is_prime(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        vals = list(range(-20, 6000)) + CARMICHAEL[:-1] + PSI[:6] + SPSP2
        s = O.sieve(1300000)
        # around the end of the built-in table
        vals += range(999000, 1002500)
        vals += [r.randrange(1300000) for _ in range(ctx.n(4000))]
        for n in vals:
            ctx.eq(ctx.call("is_prime", P.is_prime, n), n >= 2 and (bool(s[n]) if n < 1300000 else O.isprime(n)),
                   "is_prime(%d)" % n)
        ctx.check(ctx.call("is_prime", P.is_prime, PSI[6]) is False, "is_prime(341550071728321)")
    else:
        vals = hard_composites(r, ctx.n(250)) + [O.random_prime(r, r.randint(20, 36)) for _ in range(ctx.n(120))]
        vals += [r.randrange(10**6, 10**12) for _ in range(ctx.n(500))]
        vals += [2**k + d for k in range(1, 40) for d in (-1, 1)]
        vals += [boundary_ints(r, 42) for _ in range(ctx.n(300))]
        vals += [O.random_prime(r, 60) * O.random_prime(r, 60) for _ in range(20)]
        for n in vals:
            ctx.eq(ctx.call("is_prime", P.is_prime, n), O.isprime(n), "is_prime(%d)" % n)


@unit("N03", shards=2)
def probable_primes(ctx):
    r = ctx.rng
    s = O.sieve(1300000)
    if ctx.shard == 0:
        for n in range(2, 5000):
            ctx.eq(ctx.call("is_probable_prime", P.is_probable_prime, n), bool(s[n]), "is_probable_prime(%d)" % n)
        for n in range(-3, 3000):
            ctx.eq(ctx.call("miller_rabin_deterministic", P.miller_rabin_deterministic, n), n >= 2 and bool(s[n]),
                   "miller_rabin_deterministic(%d)" % n)
        for n in CARMICHAEL + PSI[:6] + SPSP2:
            if n < 3 * 10**14:
                ctx.eq(ctx.call("is_probable_prime", P.is_probable_prime, n), False, "is_probable_prime(%d)" % n)
            ctx.eq(ctx.call("miller_rabin_deterministic", P.miller_rabin_deterministic, n), False,
                   "miller_rabin_deterministic(%d)" % n)
        # 2^p - 1 for odd primes p
        mers = {3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279}
        for p in O.primes_upto(650)[1:] + [1277, 1279, 1283]:
            ctx.eq(bool(ctx.call("lucas_lehmer", P.lucas_lehmer, p)), p in mers, "lucas_lehmer(%d)" % p)
    else:
        for n in hard_composites(r, ctx.n(200), 46):
            ctx.eq(ctx.call("is_probable_prime", P.is_probable_prime, n), False, "is_probable_prime(%d)" % n)
            ctx.eq(ctx.call("miller_rabin_deterministic", P.miller_rabin_deterministic, n), False,
                   "miller_rabin_deterministic(%d)" % n)
        for b in list(range(3, 64)) * ctx.n(1, 4) + [80, 100, 128, 200, 256]:
            p = O.random_prime(r, b)
            ctx.eq(ctx.call("is_probable_prime", P.is_probable_prime, p), True, "is_probable_prime(%d) is prime" % p)
            if b < 100:
                ctx.eq(ctx.call("miller_rabin_deterministic", P.miller_rabin_deterministic, p), True,
                       "miller_rabin_deterministic(%d) is prime" % p)
            q = O.random_prime(r, b + 3)
            ctx.eq(ctx.call("is_probable_prime", P.is_probable_prime, p * q), False if p * q < 3 * 10**14 or b > 60
                   else P.is_probable_prime(p * q), "is_probable_prime(%d)" % (p * q))


def strong_test(n, a):
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    x = pow(a, d, n)
    if x == 1:
        return True
    for _ in range(s):
        if x == n - 1:
            return True
        x = x * x % n
    return False


@unit("N03", shards=2)
def single_base_tests(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        cases = [(n, a) for n in range(5, 200, 2) for a in range(2, n - 1)]
        cases += [(n, a) for n in CARMICHAEL + PSI + SPSP2 for a in (2, 3, 5, 7, 29, 61, n - 2)]
    else:
        cases = []
        for n in hard_composites(r, ctx.n(300)) + [O.random_prime(r, r.randint(4, 120)) for _ in range(ctx.n(300))]:
            if n > 5 and n % 2:
                cases += [(n, r.randint(2, n - 2)) for _ in range(4)]
    for n, a in cases:
        ctx.eq(bool(ctx.call("miller_rabin", P.miller_rabin, n, a)), strong_test(n, a), "miller_rabin(%d, %d)" % (n, a))
        j = O.jacobi(a, n)
        ctx.eq(bool(ctx.call("solovay_strassen", P.solovay_strassen, n, a)),
               j != 0 and j % n == pow(a, (n - 1) // 2, n), "solovay_strassen(%d, %d)" % (n, a))
    # random base: a prime always passes; a composite is exposed often enough
    for p in O.primes_upto(200)[2:] + [O.random_prime(r, r.randint(5, 90)) for _ in range(ctx.n(100))]:
        ctx.check(ctx.call("miller_rabin", P.miller_rabin, p), "prime failed miller_rabin with a random base", p)
        ctx.check(ctx.call("solovay_strassen", P.solovay_strassen, p), "prime failed solovay_strassen with a random base", p)
    for n in CARMICHAEL[:10] + [9, 15, 21, 25, 49, 3215031751]:
        mr = sum(bool(ctx.call("miller_rabin", P.miller_rabin, n)) for _ in range(60))
        ss = sum(bool(ctx.call("solovay_strassen", P.solovay_strassen, n)) for _ in range(60))
        ctx.check(mr < 40 and ss < 50, "composite passes random-base tests too often", n, mr, ss)


@unit("N03", shards=2)
def next_primes(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        vals = list(range(-10, 3000)) + [999981, 999982, 999983, 1000000, 1000003]
    else:
        vals = [boundary_ints(r, 38) for _ in range(ctx.n(120))] + [O.random_prime(r, 30) - d for d in (0, 1, 2)]
        vals += [1327, 31397, 370261, 2010733, 20831323]        # left ends of maximal prime gaps
    for n in vals:
        ctx.eq(ctx.call("next_prime", P.next_prime, n), O.nextprime(n), "next_prime(%d)" % n)
    for n in vals + [boundary_ints(r, 45) for _ in range(ctx.n(100))]:
        ctx.eq(ctx.call("next_probable_prime", P.next_probable_prime, n), O.nextprime(n), "next_probable_prime(%d)" % n)


@unit("N03")
def random_primes(ctx):
    r = ctx.rng
    for _ in range(ctx.n(100)):
        a = r.choice((0, 1, 2, r.randrange(1000), r.randrange(10**6)))
        b = O.nextprime(a + r.choice((0, 1, 5, 60)))
        seen = set()
        for _ in range(15):
            p = ctx.call("random_prime", P.random_prime, a, b)
            ctx.check(a <= p <= b and O.isprime(p), "random_prime outside [a, b] or composite", a, b, p)
            seen.add(p)
    # every prime of the closed interval is reachable
    seen = {ctx.call("random_prime", P.random_prime, 2, 13) for _ in range(400)}
    ctx.eq(seen, {2, 3, 5, 7, 11, 13}, "random_prime(2, 13) over 400 draws")


# ------------------------------------------------------------------------------------- N04
SIEVES = ["primes", "eratosthenes1", "eratosthenes2", "luo", "chartres", "pritchard"]


@unit("N04", shards=6)
def prime_lists(ctx):
    r = ctx.rng
    name = SIEVES[ctx.shard]
    fn = getattr(S, name)
    slow = name in ("chartres", "pritchard")
    top = 400000 if not slow else 60000
    allp = O.primes_upto(top)

    def judge(n):
        got = ctx.call(name, fn, n)
        want = allp[:bisect_right(allp, n)]
        ctx.checks += 1
        if got != want:
            ctx.fail("%s(%d) is not the list of primes <= %d: len %d want %d, first difference %s" % (
                name, n, n, len(got), len(want),
                next(((g, w) for g, w in zip(list(got) + [None], want + [None]) if g != w), "length")))
    for n in range(-5, 1500):
        judge(n)
    sq = [p * p for p in O.primes_upto(600 if not slow else 200)]
    for q in sq:
        for d in (-1, 0, 1):
            if q + d <= top and (ctx.thorough or r.random() < .25):
                judge(q + d)
    for _ in range(ctx.n(40)):
        judge(r.randrange(top))
    for p in r.sample(allp, ctx.n(25)):
        judge(p)
        judge(p - 1)


@unit("N04", shards=2)
def past_the_table(ctx):
    """Limits around and past the end of the built-in table of primes."""
    r = ctx.rng
    s = O.primes_upto(1400000)
    vals = [999982, 999983, 999984, 10**6, 1000002, 1000003, 1000004] + [r.randrange(999900, 1300000) for _ in range(ctx.n(6))]
    for n in vals:
        for name in (["primes", "eratosthenes2"], ["eratosthenes1", "luo"])[ctx.shard]:
            ctx.eq(ctx.call(name, getattr(S, name), n) == s[:bisect_right(s, n)], True, "%s(%d)" % (name, n))
    if ctx.shard == 0:
        for k in list(range(-2, 400)) + [r.randrange(70000) for _ in range(ctx.n(20))] + \
                [78496, 78497, 78498, 78499, 78500, 80000, 100000] + [r.randrange(78500, 100000) for _ in range(ctx.n(3))]:
            got = ctx.call("primes_first_n", S.primes_first_n, k)
            ctx.eq(got == s[:max(0, k)], True, "primes_first_n(%d): length %d" % (k, len(got)))


def segment(lo, hi):
    """primes in [lo, hi)"""
    lo = max(lo, 2)
    if hi <= lo:
        return []
    f = bytearray([1]) * (hi - lo)
    for p in O.primes_upto(math.isqrt(hi) + 1):
        st = max(p * p, (lo + p - 1) // p * p)
        if st < hi:
            f[st - lo::p] = bytes(len(range(st - lo, hi - lo, p)))
    return [lo + i for i, x in enumerate(f) if x]


@unit("N04", shards=4)
def prime_ranges(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        for a in range(1, 60):
            for b in range(a + 1, 64):
                ctx.eq(ctx.call("prime_range", lambda a, b: list(S.prime_range(a, b)), a, b), segment(a, b),
                       "prime_range(%d, %d)" % (a, b))
        for b in list(range(0, 400)) + [r.randrange(10**5) for _ in range(20)]:
            ctx.eq(ctx.call("prime_range", lambda b: list(S.prime_range(b)), b), segment(2, b), "prime_range(%d)" % b)
        for _ in range(ctx.n(150)):
            a = r.randrange(1, 990000)
            b = a + r.randint(1, 3000)
            if r.random() < .4:
                b = O.nextprime(b)
            if r.random() < .4:
                a = O.nextprime(a)
            if a < b:
                ctx.eq(ctx.call("prime_range", lambda a, b: list(S.prime_range(a, b)), a, b), segment(a, b),
                       "prime_range(%d, %d)" % (a, b))
    elif ctx.shard == 1:
        # segmented windows above 10**7
        for i in range(ctx.n(60)):
            k = r.choice((10**7, 10**7, 2 * 10**7, 10**8, 10**9, 10**10, 10**11, 10**12))
            if r.random() < .5:
                p = O.nextprime(r.randrange(3200, 10**5))
                a = p * p - r.randint(0, 400)
            else:
                a = k + r.randrange(k // 10)
            b = a + r.choice((1, 2, 3, 10, 101, 1000, 5000, 40000))
            if r.random() < .3:
                b = O.nextprime(b)
            if r.random() < .3:
                a = O.nextprime(a)
            if a < b:
                ctx.eq(ctx.call("prime_range", lambda a, b: list(S.prime_range(a, b)), a, b) == segment(a, b), True,
                       "prime_range(%d, %d)" % (a, b))
        # where the small primes end and the sieved blocks begin: lower ends around the square root of the
        # upper end. The ranges are lazy, so only the first few primes are drawn.
        def head(a, b, k=150):
            return list(itertools.islice(S.prime_range(a, b), k))
        qs = [3163, 3167, 10007, 31627, O.nextprime(r.randrange(3200, 10**5))]
        for q in qs:
            for b in (q * q - 1, q * q, q * q + 1, q * q + q, (q + 1)**2 - 1, (q + 1)**2):
                if b <= 10**7:
                    continue
                s = math.isqrt(b)
                for a in {s - 2, s - 1, s, s + 1, s + 2, q - 1, q, q + 1, O.nextprime(s), 2, s // 2}:
                    got = ctx.call("prime_range", head, a, b)
                    want = segment(a, min(b, a + 5000))[:150]
                    ctx.eq(got == want, True, "the first primes of prime_range(%d, %d)" % (a, b))
    elif ctx.shard == 2:
        # windows that span many sieve blocks, just above the segmented cutoff; a <= sqrt(b)
        big = segment(2, 10**7 + 60000)
        for i in range(ctx.n(2, 8)):
            a = r.choice((1, 2, 3, 3163, 3167, 3169, 1009, r.randrange(2, 3160)))
            b = 10**7 + r.randint(1, 60000)
            got = ctx.call("prime_range", lambda a, b: list(S.prime_range(a, b)), a, b)
            ctx.eq(got == big[bisect_left(big, a):bisect_left(big, b)], True, "prime_range(%d, %d)" % (a, b))
    else:
        big = segment(2, 10**7 + 60000)
        for i in range(ctx.n(3, 8)):
            a = r.choice((3164, r.randrange(4000, 10**5), r.randrange(9 * 10**6, 10**7), 10**7 - 1))
            b = 10**7 + r.choice((-20, -1, 0, 1, 2, 19, 20, 1000, 60000))
            if a < b:
                got = ctx.call("prime_range", lambda a, b: list(S.prime_range(a, b)), a, b)
                ctx.eq(got == big[bisect_left(big, a):bisect_left(big, b)], True, "prime_range(%d, %d)" % (a, b))


# ------------------------------------------------------------------------------------- N05
COUNTERS = ["legendre", "meissel", "lehmer", "lmo"]


@unit("N05", shards=4)
def counting(ctx):
    r = ctx.rng
    name = COUNTERS[ctx.shard]
    fn = getattr(PC, name)
    s = O.primes_upto(1300000)
    for n in list(range(-3, 400)) + [r.randrange(10**6) for _ in range(200)]:
        ctx.eq(ctx.call(name, fn, n), bisect_right(s, n), "%s(%d)" % (name, n))
    vals = [999983, 999984, 10**6, 1000003, 1000002, 1002000, 1002001, 1018081, 1030301, 1061208, 1060000]
    for n in vals + [r.randrange(10**6, 1300000) for _ in range(ctx.n(25))]:
        ctx.eq(ctx.call(name, fn, n), bisect_right(s, n), "%s(%d)" % (name, n))
    big = [p**k + d for p in (1009, 1013, 2003, 3001) for k in (2,) for d in (-1, 0, 1)]
    big += [p**3 + d for p in (101, 103, 199, 211, 307) for d in (-1, 0, 1)]
    big += [p**4 + d for p in (37, 41, 53, 59, 71) for d in (-1, 0, 1)]
    big = r.sample(big, ctx.n(9, len(big))) if not ctx.thorough else big
    lim = 3 * 10**7 if not ctx.thorough else 2 * 10**8
    big += [r.randrange(2 * 10**6, lim) for _ in range(ctx.n(5))]
    big += [10**7, 2**24]
    for n in big:
        w = O.PI_KNOWN.get(n) or O.prime_pi(n)
        ctx.eq(ctx.call(name, fn, n), w, "%s(%d)" % (name, n))


@unit("N05", shards=2)
def counting_other(ctx):
    r = ctx.rng
    s = O.primes_upto(1300000)
    if ctx.shard == 0:
        vals = list(range(2, 400)) + [r.randrange(10**5) for _ in range(30)] + [r.randrange(10**6, 5 * 10**6) for _ in range(ctx.n(3))]
        for n in vals:
            w = bisect_right(s, n) if n < 1300000 else O.prime_pi(n)
            d = ctx.call("prime_count", PC.prime_count, n)
            ctx.eq(d[n], w, "prime_count(%d)" % n)
            for v in (n // 2, n // 3, math.isqrt(n)):
                if v >= 2 and n < 1300000:
                    ctx.eq(d[v], bisect_right(s, v), "prime_count(%d)[%d]" % (n, v))
        for n in list(range(0, 300)) + [r.randrange(20000) for _ in range(30)]:
            ps, tab = ctx.call("pi_table", PC.pi_table, n)
            ctx.eq(ps, s[:bisect_right(s, n)], "pi_table(%d) primes" % n)
            ctx.eq(tab, [bisect_right(s, i) for i in range(n + 1)], "pi_table(%d) table" % n)
    else:
        for n in list(range(1, 400)) + [r.randrange(10**5) for _ in range(40)]:
            w = sum(s[:bisect_right(s, n)])
            ctx.eq(ctx.call("prime_sum", PC.prime_sum, n), w, "prime_sum(%d)" % n)
            ctx.eq(ctx.call("prime_sum2", PC.prime_sum2, n), w, "prime_sum2(%d)" % n)
        for n in [r.randrange(10**6, 2 * 10**7) for _ in range(ctx.n(3))] + [1002001, 1002000, 4012009]:
            w = O.prime_sum(n)
            ctx.eq(ctx.call("prime_sum", PC.prime_sum, n), w, "prime_sum(%d)" % n)
            ctx.eq(ctx.call("prime_sum2", PC.prime_sum2, n), w, "prime_sum2(%d)" % n)


def counting_points(r, top):
    """Arguments at which the recursions take unusual turns: perfect powers, products of prime powers with an offset
    below the cofactor (so that a floor quotient is an exact power), primes, and their neighbours."""
    while True:
        kind = r.randrange(6)
        if kind == 0:
            n = r.randrange(10**6, top)
        elif kind == 1:
            k = r.choice((2, 3, 3, 4))
            n = r.randint(2, int(top**(1 / k)))**k + r.choice((-2, -1, 0, 0, 1, 2))
        elif kind in (2, 3):
            k = r.choice((2, 2, 3, 3, 3, 4))
            p = O.nextprime(r.randint(2, max(3, int(5 * top**(.8 / k) / 9))))
            m = 1
            for _ in range(r.randint(1, 3)):
                m *= O.nextprime(r.choice((p - 1, p, r.randint(1, 300))))
            n = p**k * m + r.choice((-1, 0, 0, r.randrange(m), r.randrange(m)))
        elif kind == 4:
            n = 1
            while n < 10**6:
                n *= O.nextprime(r.choice((r.randint(1, 20), r.randint(1, 100), r.randint(1, 1000))))
            n += r.choice((-1, 0, 0, 1))
        else:
            n = O.nextprime(r.randrange(10**6, top)) + r.choice((-1, 0, 0, 1))
        if 10**6 <= n < top:
            return n


@unit("N05", shards=6)
def many_counts(ctx):
    """Thousands of arguments beyond the built-in table of primes."""
    r = ctx.rng
    top = 8 * 10**6 if not ctx.thorough else 10**8
    s = O.primes_upto(top)
    for _ in range(ctx.n(320)):
        n = counting_points(r, top)
        w = bisect_right(s, n)
        for name in ("meissel", "lehmer", "lmo"):
            ctx.eq(ctx.call(name, getattr(PC, name), n), w, "%s(%d)" % (name, n))
    total = list(itertools.accumulate(s))
    for _ in range(ctx.n(6)):
        n = counting_points(r, min(top, 4 * 10**6))
        w = bisect_right(s, n)
        for name in ("legendre", "lmo_bit"):
            ctx.eq(ctx.call(name, getattr(PC, name), n), w, "%s(%d)" % (name, n))
        d = ctx.call("prime_count", PC.prime_count, n)
        ctx.eq(d[n], w, "prime_count(%d)" % n)
        for k in r.sample(range(1, math.isqrt(n)), 20):
            ctx.eq(d[n // k], bisect_right(s, n // k), "prime_count(%d)[%d]" % (n, n // k))
        for name in ("prime_sum", "prime_sum2"):
            ctx.eq(ctx.call(name, getattr(PC, name), n), total[w - 1], "%s(%d)" % (name, n))


@unit("N05", shards=4)
def power_counts(ctx):
    """Arguments whose chain of floor quotients by decreasing primes ends exactly on a square, cube or fourth power of a
    prime: roots taken in floating point fall on the wrong side only there."""
    r = ctx.rng
    top = 24 * 10**6 if not ctx.thorough else 10**8
    ps = [p for p in O.primes_upto(3000) if p > 11]
    args = set()
    for p in ps:
        for k in (2, 3, 4, 5):
            # p^k met with the primes below p: the last prime divided by is p itself or a little larger
            qs = [q for q in ps if q >= p and q * p**k <= top][:200]
            for q in qs:
                for q2 in [1] + [x for x in qs if x >= q][:60]:
                    m = q * q2
                    if 10**6 < p**k * m <= top - m:
                        args.add((p, k, m))
    args = sorted(args)
    near = [a for a in args if a[1] >= 4 or (a[1] == 3 and a[2] % a[0] == 0)]
    far = [a for a in args if a[1] < 4 and (a[1] != 3 or a[2] % a[0])]
    args = [a for i, a in enumerate(near) if ctx.mine(i)] + r.sample(far, min(len(far), ctx.n(60)))
    b = bytearray([1]) * (top + 1)
    b[0:2] = b"\0\0"
    for i in range(2, math.isqrt(top) + 1):
        if b[i]:
            b[i * i::i] = bytes(len(range(i * i, top + 1, i)))
    want = {}
    at, seen = 0, 0
    points = sorted({p**k * m + d for p, k, m in args for d in (0, m - 1)})
    for n in points:
        seen += b.count(1, at, n + 1)
        at = n + 1
        want[n] = seen
    del b
    for n in points:
        for name in ("meissel", "lehmer", "lmo"):
            ctx.eq(ctx.call(name, getattr(PC, name), n), want[n], "%s(%d)" % (name, n))


@unit("N05")
def counting_lmo_bit(ctx):
    r = ctx.rng
    s = O.primes_upto(1300000)
    vals = list(range(2, 300)) + [r.randrange(300, 30000) for _ in range(ctx.n(120))]
    vals += [p**k + d for p in (7, 11, 13, 31, 101) for k in (2, 3) for d in (-1, 0, 1)]
    vals += [r.randrange(10**5, 10**6) for _ in range(ctx.n(10))] + [10**6, 10**5]
    for n in vals:
        ctx.eq(ctx.call("lmo_bit", PC.lmo_bit, n), bisect_right(s, n), "lmo_bit(%d)" % n)
