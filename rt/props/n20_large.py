"""Number theory far from the origin: operands of thousands of bits, long lists, high exponents, many prime factors.
The small cases are decided exhaustively elsewhere; these units watch for behaviour that changes with size."""
import itertools
import math
from bisect import bisect_right
from fractions import Fraction

from rt.core import unit
from rt import oracles as O
from rt.gen import composite_int
from rt.props.n13_zn import check_sqrts, count_sqrts, sorted_distinct_in_range
from rt.props.n15_fractions import ap_brute, minimal_positive, least_pell, nonsquare

from rosemary.number_theory import arithmetic_progressions as AP
from rosemary.number_theory import classification as K
from rosemary.number_theory import continued_fractions as CF
from rosemary.number_theory import core as C
from rosemary.number_theory import misc as M
from rosemary.number_theory import zn_arithmetic as Z
from rosemary.number_theory.arithmetic_functions import functions as AF
from rosemary.number_theory.arithmetic_functions import inverse_functions as IV
from rosemary.number_theory.arithmetic_functions import sieves as AS
from rosemary.number_theory.arithmetic_functions import sums as SU
from rosemary.number_theory.diophantine_equations import pell as PE
from rosemary.number_theory.factorization import algorithms as A
from rosemary.number_theory.factorization import factorization as F
from rosemary.number_theory.primes import primality as P
from rosemary.number_theory.primes import prime_counting as PC
from rosemary.number_theory.primes import sieves as S


def size(r, lo, hi):
    """A bit length, uniform on a logarithmic scale."""
    return int(lo * (hi / lo)**r.random())


def wide(r, lo, hi):
    """A positive integer of lo..hi bits: random, a power of two or ten, all ones, or with a long run of zeros."""
    b = size(r, lo, hi)
    k = r.randrange(6)
    if k == 0:
        return 1 << b
    if k == 1:
        return (1 << b) - 1
    if k == 2:
        return 10**(b * 3 // 10)
    if k == 3:
        return (r.getrandbits(12) | 1) << b | (r.getrandbits(12) | 1)
    return r.getrandbits(b) | 1 << b


def short(n):
    s = hex(n)
    return s if len(s) < 40 else "%s..%s (%d bits)" % (s[:14], s[-10:], n.bit_length())


# ------------------------------------------------------------------------------------- N01
@unit("N01", shards=2)
def wide_integers(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        for _ in range(ctx.n(250)):
            g = wide(r, 8, 1500)
            x, y = (r.choice((1, -1)) * g * wide(r, 8, 3000) for _ in range(2))
            d = math.gcd(x, y)
            ctx.check(ctx.call("gcd", C.gcd, x, y) == d, "gcd", short(x), short(y))
            ctx.check(ctx.call("lcm", C.lcm, x, y) == math.lcm(x, y), "lcm", short(x), short(y))
            a, b, e = ctx.call("ext_gcd", C.ext_gcd, x, y)
            ctx.check(e == d and a * x + b * y == d, "ext_gcd", short(x), short(y))
        for _ in range(ctx.n(60)):
            k = size(r, 5, 300)
            g = wide(r, 4, 300)
            L = [g * r.choice((1, -1)) * (r.getrandbits(r.choice((4, 30, 90))) | 1) for _ in range(k)]
            ctx.check(ctx.call("gcd_list", C.gcd_list, L) == math.gcd(*L), "gcd_list of %d numbers" % k)
            L = [r.choice((1, -1)) * r.choice((r.randint(1, 60), r.getrandbits(40) | 1)) for _ in range(k)]
            ctx.check(ctx.call("lcm_list", C.lcm_list, L) == math.lcm(*L), "lcm_list of %d numbers" % k)
        for _ in range(ctx.n(200)):
            p = r.choice((2, 3, 5, 7, 10, 12, 101, 65537, r.getrandbits(60) | 3))
            e = size(r, 20, 6000 if p < 20 else 700)
            m = r.getrandbits(r.choice((3, 40, 400))) * p + r.choice([t for t in (1, 2, 3, 5, p - 1) if 0 < t < p])
            n = r.choice((1, -1)) * p**e * m
            ctx.eq(ctx.call("valuation", C.valuation, p, n), e, "valuation of %d**%d times a cofactor" % (p, e))
            ctx.eq(ctx.call("valuation", C.valuation, p, n + 1), O.valuation(p, n + 1), "valuation of a large neighbour")
    else:
        for _ in range(ctx.n(300)):
            k = wide(r, 100, 3000)
            for n in (k, k * k - 1, k * k, k * k + 1, k * k + 2 * k):
                ctx.check(ctx.call("integer_sqrt", C.integer_sqrt, n) == math.isqrt(n), "integer_sqrt", short(n))
        for _ in range(ctx.n(300)):
            e = size(r, 3, 700)
            b = r.choice((2, 3, 10, r.getrandbits(size(r, 8, 400)) | 2))
            while b.bit_length() * e > 12000:
                e = max(3, e // 2)
                b = b >> b.bit_length() // 2 | 2
            n = b**e + r.choice((-1, 0, 1, r.getrandbits(20)))
            s = ctx.call("integer_nth_root", C.integer_nth_root, e, n)
            ctx.check(s >= 1 and s**e <= n < (s + 1)**e, "integer_nth_root(%d, %s)" % (e, short(n)), short(s))
        for _ in range(ctx.n(300)):
            b = r.choice((2, 3, 5, 7, 10, 1000, 2**64, r.getrandbits(20) + 2, r.getrandbits(100) + 2))
            e = size(r, 5, 3000 if b < 20 else 400 if b < 2**64 else 60)
            n = b**e + r.choice((-1, 0, 0, 1))
            ctx.eq(ctx.call("integer_log", C.integer_log, b, n), e if n >= b**e else e - 1, "integer_log to base %s near power %d" % (short(b), e))
            ctx.eq(ctx.call("bit_count", C.bit_count, -n), bin(n).count("1"), "bit_count")
        big = wide(r, 10**4, 3 * 10**4)
        ctx.eq(ctx.call("bit_count", C.bit_count, big), bin(big).count("1"), "bit_count of a large number")


# ------------------------------------------------------------------------------------- N02
@unit("N02")
def wide_moduli(ctx):
    r = ctx.rng
    for _ in range(ctx.n(120)):
        m = wide(r, 100, 1500)
        a, k = wide(r, 50, 1800), wide(r, 20, 1200)
        ctx.check(ctx.call("power_mod", C.power_mod, a, k, m) == pow(a, k, m), "power_mod", short(a), short(k), short(m))
        a = r.choice((1, -1)) * a
        if math.gcd(a, m) == 1:
            ctx.check(ctx.call("inverse_mod", C.inverse_mod, a, m) == pow(a, -1, m), "inverse_mod", short(a), short(m))
        else:
            ctx.raises("inverse_mod", ValueError, C.inverse_mod, a, m)
    odd = O.primes_upto(3000)[1:]
    large = [O.random_prime(r, b) for b in (40, 64, 65, 100, 200, 300, 400)]
    for _ in range(ctx.n(250)):
        f = [r.choice(odd) for _ in range(r.randint(0, 6))] + [r.choice(large) for _ in range(r.randint(1, 5))]
        m = math.prod(f)
        a = r.choice((1, -1)) * wide(r, 10, 1800)
        if r.random() < .3:
            a = a * r.choice(f) << r.randint(0, 200)
        ctx.eq(ctx.call("jacobi_symbol", C.jacobi_symbol, a, m), math.prod(O.legendre_symbol(a, p) for p in f), "jacobi_symbol(%s, %s)" % (short(a), short(m)))
    ps = O.primes_upto(2000)
    for _ in range(ctx.n(80)):
        k = size(r, 6, 90)
        ms = [p**r.randint(1, 3) for p in r.sample(ps, k)]
        if r.random() < .3:
            ms += [O.random_prime(r, r.randint(60, 200)) for _ in range(3)]
        r.shuffle(ms)
        W = math.prod(ms)
        x = r.randrange(W)
        cong = [(x + m * r.choice((0, 0, 5, -7)), m) if r.random() < .5 else (x % m, m) for m in ms]
        ctx.check(ctx.call("chinese", C.chinese, cong) == x, "chinese with %d moduli" % len(ms))
        data = ctx.call("crt_preconditioning_data", C.crt_preconditioning_data, ms)
        for _ in range(3):
            ctx.check(ctx.call("chinese_preconditioned", C.chinese_preconditioned, cong, data) == x,
                      "chinese_preconditioned with %d moduli" % len(ms))
            x = r.randrange(W)
            cong = [(x % m, m) for m in ms]


# ------------------------------------------------------------------------------------- N03
# least strong pseudoprimes to the first 9..13 primes, and Arnault's composite (all prime bases up to 200)
LIARS = {3825123056546413051: 31, 318665857834031151167461: 37, 3317044064679887385961981: 41}


@unit("N03")
def wide_primality(ctx):
    r = ctx.rng
    for n in LIARS:
        ctx.eq(ctx.call("is_probable_prime", P.is_probable_prime, n), False,
               "is_probable_prime(%d): a composite that passes every base below %d" % (n, LIARS[n]))
        ctx.eq(ctx.call("is_prime", P.is_prime, n), False, "is_prime(%d)" % n)
    for b in (128, 192, 300, 512, 700):
        p, q = O.random_prime(r, b), O.random_prime(r, b)
        ctx.eq(ctx.call("is_probable_prime", P.is_probable_prime, p), True, "is_probable_prime of a prime of %d bits" % b)
        ctx.eq(ctx.call("is_probable_prime", P.is_probable_prime, p * q), False, "is_probable_prime of a product")
        ctx.eq(ctx.call("is_prime", P.is_prime, p * q), False, "is_prime of a product of large primes")
        for a in (2, 3, r.randrange(2, p - 1), p - 2):
            ctx.eq(bool(ctx.call("miller_rabin", P.miller_rabin, p, a)), True, "miller_rabin of a prime of %d bits" % b)
            ctx.eq(bool(ctx.call("solovay_strassen", P.solovay_strassen, p, a)), True, "solovay_strassen of a prime of %d bits" % b)
            ctx.eq(bool(ctx.call("miller_rabin", P.miller_rabin, p * q, a)), False, "miller_rabin of a product")
            ctx.eq(bool(ctx.call("solovay_strassen", P.solovay_strassen, p * q, a)), False, "solovay_strassen of a product")
    # n - 1 divisible by a high power of two, and Fermat and Proth numbers
    for n in [2**32 + 1, 2**64 + 1, 2**128 + 1, 2**256 + 1] + [k << e | 1 for e in (40, 60, 90, 130) for k in range(1, 60, 2)]:
        ctx.eq(ctx.call("is_probable_prime", P.is_probable_prime, n), O.isprime(n), "is_probable_prime(%d)" % n)
    for _ in range(ctx.n(40)):
        n = wide(r, 45, 170)
        ctx.eq(ctx.call("next_probable_prime", P.next_probable_prime, n), O.nextprime(n), "next_probable_prime(%d)" % n)
    for p, w in ((2203, True), (2207, False), (2281, True), (2267, False), (3217, True), (3203, False)):
        ctx.eq(bool(ctx.call("lucas_lehmer", P.lucas_lehmer, p)), w, "lucas_lehmer(%d)" % p)
    p = O.random_prime(r, 160)
    ctx.eq(ctx.call("miller_rabin_deterministic", P.miller_rabin_deterministic, p), True, "miller_rabin_deterministic(%d)" % p)
    for _ in range(ctx.n(40)):
        a = r.randrange(10**6, 10**11)
        b = a + r.choice((300, 10**4, 10**6))
        p = ctx.call("random_prime", P.random_prime, a, b)
        ctx.check(a <= p <= b and O.isprime(p), "random_prime(%d, %d)" % (a, b), p)
    p = O.random_prime(r, 43)
    ctx.eq(ctx.call("is_prime", P.is_prime, p), True, "is_prime(%d)" % p)


# ------------------------------------------------------------------------------------- N04
@unit("N04", shards=6)
def long_lists(ctx):
    r = ctx.rng
    name = ["primes", "eratosthenes1", "eratosthenes2", "luo", "chartres", "pritchard"][ctx.shard]
    slow = ctx.shard > 3
    top = (1300000 if slow else 5 * 10**6) * (1 if not ctx.thorough else 4)
    allp = O.primes_upto(top)
    ns = [r.randrange(10**6, top), r.randrange(top // 2, top)]
    q = O.nextprime(r.randrange(1009, math.isqrt(top) - 30))
    ns += [q * q, q * q - 1] if not slow else [q * q]
    for n in ns:
        ctx.check(ctx.call(name, getattr(S, name), n) == allp[:bisect_right(allp, n)], "%s(%d) is not the list of primes <= %d" % (name, n, n))
    if ctx.shard == 0:
        for k in (100000, r.randrange(10**5, len(allp))):
            ctx.check(ctx.call("primes_first_n", S.primes_first_n, k) == allp[:k], "primes_first_n(%d)" % k)
    if ctx.shard == 3:
        for _ in range(3):
            # a range of many blocks away from zero
            a = r.randrange(10**6, 4 * 10**6)
            b = r.randrange(a + 10**5, 5 * 10**6)
            got = ctx.call("prime_range", lambda a, b: list(S.prime_range(a, b)), a, b)
            ctx.check(got == allp[bisect_right(allp, a - 1):bisect_right(allp, b - 1)], "prime_range(%d, %d)" % (a, b))


# ------------------------------------------------------------------------------------- N05
@unit("N05", shards=3)
def large_counts(ctx):
    r = ctx.rng
    name = ["meissel", "lehmer", "lmo"][ctx.shard]
    for n in [10**8] + [r.randrange(3 * 10**7, 4 * 10**8) for _ in range(ctx.n(2))] + ([10**9] if ctx.thorough else []):
        ctx.eq(ctx.call(name, getattr(PC, name), n), O.PI_KNOWN.get(n) or O.prime_pi(n), "%s(%d)" % (name, n))


# ------------------------------------------------------------------------------------- N06
@unit("N06", shards=3)
def many_factors(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        # many primes just past the table: a factor split off is usually composite itself
        for _ in range(ctx.n(45)):
            ps = sorted(O.nextprime(10**6 + r.randrange(10**r.randint(2, 6))) for _ in range(r.randint(3, 9)))
            if r.random() < .4:
                ps += [r.choice(ps)] * r.randint(1, 3)
            m = math.prod(ps)
            small = O.factorint(r.choice((1, 2, 60, 2**30, 3**20, 30030)))
            want = sorted({p: ps.count(p) for p in ps}.items())
            n = m * math.prod(p**e for p, e in small)
            kw = r.choice(({}, {}, {"skip_trial_division": True}, {"skip_power_detection": False}))
            got = ctx.call("factor", F.factor, n, **kw)
            ctx.eq([tuple(x) for x in got], small + want, "factor(%d, %r)" % (n, kw))
    elif ctx.shard == 1:
        # perfect powers of high degree
        for _ in range(ctx.n(120)):
            b = r.choice((2, 3, 6, 10, 12, 97, r.randint(2, 10**4), O.random_prime(r, r.randint(21, 26)), 1000003 * 1000033))
            e = size(r, 10, 900 if b < 100 else 150 if b < 10**7 else 40)
            want = [(p, k * e) for p, k in O.factorint(b)]
            got = ctx.call("factor/powers", F.factor, b**e, skip_power_detection=False)
            ctx.eq([tuple(x) for x in got], want, "factor(%d**%d) with power detection" % (b, e))
            if b < 10**6:
                ctx.eq([tuple(x) for x in ctx.call("factor", F.factor, -b**e)], [(-1, 1)] + want, "factor(-%d**%d)" % (b, e))
    else:
        shapes = [[(2, 3000)], [(p, 1) for p in O.primes_upto(40)], [(2, 60), (3, 30), (5, 8)], [(2, 9), (3, 5), (5, 3), (7, 2), (11, 1), (13, 1), (17, 1)],
                  [(1000003, 40), (1000033, 7)], [(O.random_prime(r, 90), 6), (O.random_prime(r, 95), 9), (O.random_prime(r, 100), 1)]]
        for fac in shapes:
            fac = sorted(fac)
            n = math.prod(p**e for p, e in fac)
            want = O.divisors_of(fac)
            ctx.check(ctx.call("divisors", F.divisors, factorization=fac) == want, "divisors of %s" % fac)
            ctx.check(sorted(ctx.take("xdivisors", 10**5, F.xdivisors, factorization=fac)) == want, "xdivisors of %s" % fac)
            ctx.check(ctx.call("divisor_pairs", F.divisor_pairs, factorization=fac) == [(d, n // d) for d in want if d * d <= n], "divisor_pairs of %s" % fac)
            ctx.check(ctx.call("unitary_divisors", F.unitary_divisors, factorization=fac) ==
                      sorted(math.prod(c) for k in range(len(fac) + 1) for c in itertools.combinations([p**e for p, e in fac], k)), "unitary_divisors of %s" % fac)
            ctx.check(ctx.call("factor_back", F.factor_back, fac) == n, "factor_back of %s" % fac)
        for a, k in ((10**6 + r.randrange(10**6), 4000), (10**8 + r.randrange(10**6), 500), (1, 20000),
                     *((b**e - r.randint(0, 4), 6) for b, e in ((2, 21), (2, r.randint(22, 29)), (3, r.randint(13, 18)), (6, 11), (5, 12)))):
            got = ctx.take("factored_range", 10**5, F.factored_range, a, a + k)
            ctx.eq([x[0] for x in got], list(range(a, a + k)), "factored_range(%d, %d): numbers covered" % (a, a + k))
            for n, fac in got:
                if n > 1:
                    ctx.check(math.prod(p**e for p, e in fac) == n and all(O.isprime(p) and e > 0 for p, e in fac) and
                              all(x[0] < y[0] for x, y in zip(fac, fac[1:])), "factored_range(%d, %d): wrong factorization" % (a, a + k), n, fac)


# ------------------------------------------------------------------------------------- N07
@unit("N07")
def large_relations(ctx):
    from rt.props.n06_factoring import z2rank
    r = ctx.rng
    if hasattr(A, "_z2_gaussian_elimination"):
        for _ in range(ctx.n(25)):
            c = r.randint(20, 90)
            m = [[r.choice((0, 0, 0, 1, 2, 3)) for _ in range(c)] for _ in range(c + r.randint(-10, 12))]
            ker = ctx.call("_z2_gaussian_elimination", A._z2_gaussian_elimination, m)
            ctx.eq(len(ker), len(m) - z2rank(m), "z2 elimination: number of relations")
            ctx.check(all(any(k) and all(sum(m[i][j] for i in range(len(m)) if k[i]) % 2 == 0 for j in range(c)) for k in ker), "z2 elimination: not a zero combination")
            ctx.eq(z2rank(ker) if ker else 0, len(ker), "z2 elimination: relations dependent")
    for _ in range(ctx.n(60)):
        fb = [-1] + O.primes_upto(r.choice((50, 200, 1000)))
        ex = [r.choice((0, 0, 0, 1, 2, 40)) if p != -1 else r.randint(0, 1) for p in fb]
        n = math.prod(p**e for p, e in zip(fb, ex))
        ctx.eq(ctx.call("smooth_factor", A.smooth_factor, n, fb), ex, "smooth_factor over %d primes" % len(fb))
        ctx.raises("smooth_factor", ValueError, A.smooth_factor, n * O.random_prime(r, 40), fb)
    for b in (36, 40, 44):
        n = O.random_prime(r, b) * O.random_prime(r, b)
        d = ctx.call("cfrac", A.cfrac, n)
        ctx.check(d is None or (1 < d < n and n % d == 0), "cfrac(%d): neither a proper divisor nor None" % n, d)
    for _ in range(ctx.n(12)):
        p, q = O.random_prime(r, r.randint(20, 30)), O.random_prime(r, r.randint(60, 200))
        for name in ("pollard_rho", "pollard_rho_brent"):
            d = ctx.call(name, getattr(A, name), p * q)
            ctx.check(d > 1 and p * q % d == 0, "%s(%d)" % (name, p * q), d)
        # a factor found by p - 1 far beyond the size of the limit
        lim = 2000
        m = 2 * math.prod(r.sample(O.primes_upto(lim)[1:], 12))
        k = 1
        while not O.isprime(m * k + 1):
            k += 1
        if all(a**e <= lim for a, e in O.factorint(m * k)):
            p = m * k + 1
            d = ctx.call("pollard_p_minus_1", A.pollard_p_minus_1, p * q, lim)
            ctx.check(p * q % d == 0 and d % p == 0 or any(a**e > lim for a, e in O.factorint(m * k)), "pollard_p_minus_1 misses a powersmooth factor", p, q, d)
    for _ in range(ctx.n(20)):
        p = O.random_prime(r, r.randint(100, 300))
        q = O.nextprime(p + r.getrandbits(20))
        d = ctx.call("fermat", A.fermat, p * q)
        ctx.check(1 < d < p * q and p * q % d == 0, "fermat of close factors", p, q, d)
        s = O.random_prime(r, r.randint(2, 19))
        ctx.eq(ctx.call("trial_division", A.trial_division, s * p * q, 10**6), s, "trial_division with a bound, large n")


# ------------------------------------------------------------------------------------- N08
@unit("N08")
def large_products(ctx):
    r = ctx.rng
    for n in [4095, 4096, 4097, 8191, 8192, 16383, 16384, 16385, 32768, 40000] + [r.randrange(4000, 40000) for _ in range(ctx.n(6))]:
        ctx.check(ctx.call("factorial", AF.factorial, n) == math.factorial(n), "factorial(%d)" % n)
    ps = O.primes_upto(1400000)
    for n in [500, 1000, 1023, 1024, 1025, 5000, r.randrange(500, 9000)]:
        ctx.check(ctx.call("primorial", AF.primorial, n) == math.prod(ps[:n]), "primorial(%d)" % n)


# ------------------------------------------------------------------------------------- N09
@unit("N09", shards=4)
def large_tables(ctx):
    r = ctx.rng
    n = 120000 + r.randrange(5000) if not ctx.thorough else 10**6
    if ctx.shard == 0:
        T = O.table(n)
        ctx.check(ctx.call("euler_phi_list", AS.euler_phi_list, n) == T.phi[:n + 1], "euler_phi_list(%d)" % n)
        ctx.check(ctx.call("moebius_list", AS.moebius_list, n) == T.mu[:n + 1], "moebius_list(%d)" % n)
        got = ctx.take("moebius_range", 10**6, AS.moebius_range, 77, n)
        ctx.check(got == [(i, T.mu[i]) for i in range(77, n)], "moebius_range(77, %d)" % n)
    elif ctx.shard == 1:
        T = O.table(n)
        ctx.check(ctx.call("tau_list", AS.tau_list, n) == T.tau[:n + 1], "tau_list(%d)" % n)
        ctx.check(ctx.call("sigma_list", AS.sigma_list, n) == T.sig[:n + 1], "sigma_list(%d)" % n)
        ctx.check(ctx.call("sigma_list", AS.sigma_list, n, 0) == T.tau[:n + 1], "sigma_list(%d, 0)" % n)
    elif ctx.shard == 2:
        n = n // 3
        for k in (2, 7):
            want = [0] * (n + 1)
            for d in range(1, n + 1):
                t = d**k
                for j in range(d, n + 1, d):
                    want[j] += t
            ctx.check(ctx.call("sigma_list", AS.sigma_list, n, k) == want, "sigma_list(%d, %d)" % (n, k))
    else:
        for a, k in ((10**6 + r.randrange(10**6), 5000), (10**9 + r.randrange(10**8), 2000), (10**12 + r.randrange(10**10), 60)):
            got = ctx.take("moebius_range", 10**5, AS.moebius_range, a, a + k)
            ctx.eq([x for x, _ in got], list(range(a, a + k)), "moebius_range(%d, %d): numbers covered" % (a, a + k))
            for x, m in got[::1 if k < 100 else 7]:
                ctx.eq(m, O.mobius(x), "moebius_range(%d, %d) at %d" % (a, a + k, x))


# ------------------------------------------------------------------------------------- N10
@unit("N10", shards=4)
def large_sums(ctx):
    """Exact differences F(n) - F(n - 1) = f(n) at every scale, and published or elementary totals."""
    r = ctx.rng
    name = ["euler_phi_sum", "euler_phi_weighted_sum", "moebius_sum", "sigma_sum"][ctx.shard]
    fn = getattr(SU, name)
    f = [O.phi, lambda n: n * O.phi(n), O.mobius, O.sigma][ctx.shard]
    if ctx.shard == 3:
        def total(n):
            s, i = 0, 1
            while i <= n:
                q = n // i
                j = n // q
                s += q * (i + j) * (j - i + 1) // 2
                i = j + 1
            return s
        for _ in range(ctx.n(8)):
            k = r.randrange(10, 10**r.randint(3, 5))
            for n in (k * k - 1, k * k, k * (k + 1), r.randrange(10**4, 10**10), wide(r, 20, 34)):
                ctx.eq(ctx.call(name, fn, n), total(n), "%s(%d)" % (name, n))
        for n in (10**12 + r.randrange(10**9),):
            ctx.eq(ctx.call(name, fn, n), total(n), "%s(%d)" % (name, n))
    else:
        if ctx.shard != 1:
            ctx.eq(ctx.call(name, fn, 10**8), {0: 3039635516365908, 2: 1928}[ctx.shard], "%s(10^8)" % name)
        top = 10**7 if ctx.shard != 1 else 4 * 10**6
        for _ in range(ctx.n(7)):
            k = r.randrange(250, math.isqrt(top))
            for n in (k * k, k * (k + 1), r.randrange(6 * 10**4, top)):
                d = ctx.call(name, fn, n) - ctx.call(name, fn, n - 1)
                ctx.eq(d, f(n), "%s(%d) - %s(%d)" % (name, n, name, n - 1))


# ------------------------------------------------------------------------------------- N11
def preimages(n):
    """All k with phi(k) = n, by descending over the admissible primes."""
    ps = [d + 1 for d in O.divisors(n) if O.isprime(d + 1)]
    out = []

    def rec(i, m, k):
        if m == 1:
            out.append(k)
        for j in range(i, len(ps)):
            p = ps[j]
            if p - 1 > m:
                break
            if m % (p - 1):
                continue
            q, t = m // (p - 1), k * p
            while True:
                rec(j + 1, q, t)
                if q % p:
                    break
                q //= p
                t *= p
    rec(0, n, 1)
    return sorted(out)


@unit("N11")
def rich_totients(ctx):
    r = ctx.rng
    fermat = [3, 5, 17, 257, 65537]
    for k in [r.randrange(10, 130) for _ in range(ctx.n(12))] + [31, 32, 33, 64]:
        want = []
        for c in itertools.product((0, 1), repeat=5):
            m = math.prod(p for p, t in zip(fermat, c) if t)
            e = sum((p - 1).bit_length() - 1 for p, t in zip(fermat, c) if t)
            if e <= k:
                want.append(m << k - e + 1)
                if e == k:
                    want.append(m)
        ctx.eq(ctx.call("euler_phi_inverse", IV.euler_phi_inverse, 2**k), sorted(want), "euler_phi_inverse(2^%d)" % k)
        ctx.eq(ctx.call("euler_phi_inverse/f", IV.euler_phi_inverse, [(2, k)]), sorted(want), "euler_phi_inverse([(2, %d)])" % k)
    vals = [math.factorial(k) for k in (6, 7, 8, 9)] + [2**k * 3**j for k in range(1, 14, 3) for j in (1, 4, 8)]
    for _ in range(ctx.n(40)):
        n = 2
        while n < 10**r.randint(4, 8):
            n *= r.choice((2, 2, 2, 3, 3, 5, 7, 11, 13))
        vals.append(n)
    for p in (3, 5, 7, 11, 13, 41):                    # a totient of a high power of p
        vals += [(p - 1) * p**k * r.choice((1, 1, 2, 4)) for k in (r.randint(3, 10), r.randint(10, 40))]
    for n in vals:
        if any(d > 10**12 and O.isprime(d + 1) for d in O.divisors(n)):
            continue                                   # primes are proved by trial division: out of reach
        want = preimages(n)
        ctx.check(ctx.call("euler_phi_inverse", IV.euler_phi_inverse, n) == want, "euler_phi_inverse(%d): %d preimages exist" % (n, len(want)))
        if n < 10**6 or len(O.divisors(n)) <= 120:
            ctx.check(list(ctx.call("inverse_phi", IV.inverse_phi, n)) == want, "inverse_phi(%d): %d preimages exist" % (n, len(want)))


# ------------------------------------------------------------------------------------- N12
@unit("N12")
def high_powers(ctx):
    r = ctx.rng
    for _ in range(ctx.n(120)):
        k = wide(r, 100, 2500)
        for n in (k * k, k * k - 1, k * k + 1):
            s = math.isqrt(n)
            w = s if s * s == n else False
            got = ctx.call("is_square", K.is_square, n)
            ctx.check(got == w and (w is not False or got is False), "is_square(%s)" % short(n))
    for i in range(ctx.n(25)):
        b = r.choice((2, 3, 5, 6, 7, 10, 13, r.randint(2, 500))) if i >= 3 else 2
        if O.perfect_power(b)[1] > 1:
            continue
        e = size(r, 17, 500 if b < 20 else 150)
        if i < 3:
            b, e = ((2, r.choice((1103, 1279))), (3, r.choice((709, 727))), (2, r.choice((2203, 1601))))[i]
        ctx.eq(ctx.call("is_power", K.is_power, b**e), (b, e), "is_power(%d**%d)" % (b, e))
        ctx.eq(ctx.call("is_power", K.is_power, b**e * O.nextprime(b)), False, "is_power(%d**%d * p)" % (b, e))
        got = ctx.call("is_power2", K.is_power2, b**e)
        ctx.check(got and got[1] > 1 and got[0]**got[1] == b**e, "is_power2(%d**%d)" % (b, e), got)
        for k in (2, 3, 5, e, 2 * e, r.randint(2, e)):
            ctx.eq(ctx.call("is_power/k", K.is_power, b**e, k), (b**(e // k), k) if e % k == 0 else False, "is_power(%d**%d, %d)" % (b, e, k))
    fac = [(p, 1) for p in O.primes_upto(4000)]
    ctx.eq(bool(ctx.call("is_squarefree/f", K.is_squarefree, fac)), True, "is_squarefree of a primorial")
    for i in (0, 1, len(fac) // 2, len(fac) - 1):
        f = fac[:i] + [(fac[i][0], 2)] + fac[i + 1:]
        ctx.eq(bool(ctx.call("is_squarefree/f", K.is_squarefree, f)), False, "is_squarefree of a primorial times a prime")
        f = [(p, 2) for p, _ in fac[:60]]
        ctx.eq(ctx.call("is_square/f", K.is_square, f), math.prod(p for p, _ in f), "is_square of a factored square")
        f[i % 60] = (f[i % 60][0], 3)
        ctx.eq(ctx.call("is_square/f", K.is_square, f), False, "is_square of a factored nonsquare")
        f = [(p, 6 * (j % 4 + 1)) for j, (p, _) in enumerate(fac[:40])]
        ctx.eq(ctx.call("is_power/f", K.is_power, f), (math.prod(p**(e // 6) for p, e in f), 6), "is_power of a factored sixth power")
        f[len(f) - 1 - i % 20] = (f[len(f) - 1 - i % 20][0], 6 * r.randint(1, 4) + r.choice((1, 5)))
        ctx.eq(ctx.call("is_power/f", K.is_power, f), False, "is_power of a factored number, one exponent out of step")
    for k in [60, 100, 150, 170, 171, 200, 255, 256, 300, r.randrange(40, 400)]:
        n = math.factorial(k)
        ctx.eq([bool(ctx.call("is_factorial", K.is_factorial, n + d)) for d in (-1, 0, 1)], [False, True, False], "is_factorial near %d!" % k)


# ------------------------------------------------------------------------------------- N13
@unit("N13", shards=2)
def wide_congruences(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        for b in (100, 200, 330, 521):
            for s in (1, 2, 3, 17, 60):
                p = (r.getrandbits(b) | 1) << s | 1
                while not O.isprime(p):
                    p += 1 << s + 1
                x = r.randrange(1, p)
                ctx.check(ctx.call("sqrts_mod_p", Z.sqrts_mod_p, x * x, p) == sorted((x, p - x)), "sqrts_mod_p", short(x), short(p))
                a = next(t for t in itertools.count(2) if O.jacobi(t, p) == -1)
                ctx.eq(ctx.call("sqrts_mod_p", Z.sqrts_mod_p, a * x * x, p), [], "sqrts_mod_p of a nonresidue")
        for _ in range(ctx.n(120)):
            n = wide(r, 100, 900) + 2
            g = math.gcd(n, 2**9 * 3**4 * 5 * 7)
            a = g * wide(r, 10, 1000) * r.choice((1, -1))
            d = math.gcd(a, n)
            if d > 3000:
                continue
            x = r.randrange(n)
            b = a * x - n * r.randint(-3, 3)
            L = ctx.call("linear_congruence", Z.linear_congruence, a, b, n)
            sorted_distinct_in_range(ctx, L, n, "linear_congruence")
            ctx.check(len(L) == d and all((a * y - b) % n == 0 for y in L), "linear_congruence", short(a), short(b), short(n), len(L), d)
            if d > 1:
                ctx.eq(ctx.call("linear_congruence", Z.linear_congruence, a, b + 1, n), [], "linear_congruence without solutions")
    else:
        # high prime powers and many prime factors
        for _ in range(ctx.n(120)):
            kind = r.randrange(4)
            if kind == 0:
                f = [(2, r.randint(5, 60))]
            elif kind == 1:
                f = [(r.choice((3, 5, 7, 13, 17, 101, 65537)), r.randint(2, 25))]
            elif kind == 2:
                f = sorted((p, r.randint(1, 2)) for p in r.sample(O.primes_upto(120), r.randint(5, 8)))
            else:
                f = sorted({(2, r.randint(1, 12)), (3, r.randint(1, 9)), (O.random_prime(r, 50), 1), (O.random_prime(r, 20), 2)})
            n = math.prod(p**e for p, e in f)
            x = r.randrange(n)
            while math.gcd(x, n) > 1:
                x = r.randrange(n)
            a = x * x + n * r.choice((0, 0, 3, -5))
            cnt = count_sqrts(a, f)
            L = ctx.call("sqrts_mod_n", Z.sqrts_mod_n, a, n, n_factorization=f)
            check_sqrts(ctx, "sqrts_mod_n", L, a, n, cnt)
            ctx.check(x in L, "sqrts_mod_n(%d, %d) misses %d" % (a, n, x))
            if kind != 0:
                # a nonresidue for the last prime power only
                q = f[-1][0]
                if q > 2:
                    z = next(t for t in itertools.count(2) if O.jacobi(t, q) == -1)
                    ctx.eq(ctx.call("sqrts_mod_n", Z.sqrts_mod_n, z * a, n, n_factorization=f) if math.gcd(z, n) == 1 else [], [], "sqrts_mod_n of a nonresidue")
            if n % 2:
                c, y = r.randrange(1, n), r.randrange(n)
                if math.gcd(c, n) == 1 and math.gcd(x - y, n) == 1:
                    co = [c, -c * (x + y), c * x * y]
                    L = ctx.call("quadratic_congruence", Z.quadratic_congruence, co, n, n_factorization=f)
                    sorted_distinct_in_range(ctx, L, n, "quadratic_congruence")
                    ctx.check(len(L) == 2**len(f) and x in L and y in L and all((co[0] * t * t + co[1] * t + co[2]) % n == 0 for t in L),
                              "quadratic_congruence(%s mod %d)" % (co, n), L[:9], len(L))
        for _ in range(ctx.n(10)):
            # even moduli and leading coefficients, where the roots are counted by brute force modulo small parts
            f = [(2, r.randint(1, 7)), (3, r.randint(1, 4)), (r.choice((5, 7, 11, 13)), r.randint(1, 2))]
            n = math.prod(p**e for p, e in f)
            co = [r.choice((2, 4, 6, 3, 12)) * r.randint(1, 50), r.randint(-n, n), r.randint(-n, n)]
            parts = [[x for x in range(p**e) if (co[0] * x * x + co[1] * x + co[2]) % p**e == 0] for p, e in f]
            L = ctx.call("quadratic_congruence", Z.quadratic_congruence, co, n)
            sorted_distinct_in_range(ctx, L, n, "quadratic_congruence")
            ctx.check(len(L) == math.prod(map(len, parts)) and all((co[0] * t * t + co[1] * t + co[2]) % n == 0 for t in L),
                      "quadratic_congruence(%s mod %d): %d roots exist" % (co, n, math.prod(map(len, parts))), L[:9])


# ------------------------------------------------------------------------------------- N14
@unit("N14")
def wide_groups(ctx):
    r = ctx.rng
    for _ in range(ctx.n(12)):
        # p - 1 known by construction, far beyond what could be factored again
        fac = {2: r.randint(1, 30)}
        for q in r.sample(O.primes_upto(60)[1:], r.randint(1, 3)) + [O.random_prime(r, 80)]:
            fac[q] = 1
        m = math.prod(q**e for q, e in fac.items())
        k = 1
        while not O.isprime(m * k + 1):
            k += 1
        p = m * k + 1
        for q, e in O.factorint(k):
            fac[q] = fac.get(q, 0) + e
        qs = sorted(fac)
        gen = lambda x: all(pow(x, (p - 1) // q, p) != 1 for q in qs)
        g = next(x for x in itertools.count(2) if gen(x))
        ctx.eq(ctx.call("primitive_root", Z.primitive_root, p, n_factorization=[(p, 1)], phi=p - 1, phi_divisors=qs), g, "primitive_root(%d) with data" % p)
        for q in [1] + qs:
            x = pow(g, q, p)
            ctx.eq(ctx.call("is_primitive_root", Z.is_primitive_root, x, p, phi=p - 1, phi_divisors=qs), q == 1, "is_primitive_root(%d, %d) with data" % (x, p))
        D = O.divisors_of(sorted(fac.items()))
        if len(D) < 4000:
            for _ in range(4):
                j = r.choice(D)
                x = pow(g, j, p)
                ctx.eq(ctx.call("multiplicative_order", Z.multiplicative_order, x, p, phi=p - 1, phi_divisors=D), (p - 1) // j, "multiplicative_order(%d, %d) with data" % (x, p))
    p = O.random_prime(r, 40)
    a, k = r.randrange(2, p), r.randrange(p // 2, p)
    b = pow(a, k, p)
    x = ctx.call("discrete_log", Z.discrete_log, a, b, p)
    ctx.check(x > 0 and pow(a, x, p) == b, "discrete_log(%d, %d, %d) = %d wrong" % (a, b, p, x))


# ------------------------------------------------------------------------------------- N15
def judge_expansion(ctx, r, d, p, q):
    X = ctx.call("QuadraticIrrational", CF.QuadraticIrrational, d, p, q)
    # exact complete quotients (P + sqrt D)/Q, D scaled so that Q divides D - P^2
    w = abs(q) if (d - p * p) % q else 1
    P0, Q0, D = p * w, q * w, d * w * w
    s = math.isqrt(D)
    seen, terms = {}, []
    while (P0, Q0) not in seen:
        seen[P0, Q0] = len(terms)
        a = (P0 + s) // Q0 if Q0 > 0 else (P0 + s + 1) // Q0
        terms.append(a)
        P0 = a * Q0 - P0
        Q0 = (D - P0 * P0) // Q0
    j = seen[P0, Q0]
    n = len(terms) - j
    ctx.eq(X.period_length, n, "period length of (%d + sqrt %d)/%d" % (p, d, q))
    ctx.check(list(X.fundamental_period) == terms[j:] if (p, q) != (0, 1) else list(X.fundamental_period) == terms[1:], "period of (%d + sqrt %d)/%d" % (p, d, q))
    if (p, q) != (0, 1):
        ctx.check(list(X.pre_period) == terms[:j], "pre-period of (%d + sqrt %d)/%d" % (p, d, q))
    got = ctx.take("partial_quotients", min(3 * len(terms), 3000), X.partial_quotients)
    ctx.check(got == [terms[t] if t < len(terms) else terms[j + (t - j) % n] for t in range(len(got))], "partial quotients of (%d + sqrt %d)/%d" % (p, d, q))
    m = r.choice((60, 150, 400))
    conv = ctx.take("convergents", m, X.convergents)
    h, k = [0, 1], [1, 0]
    for t in got[:m]:
        h.append(t * h[-1] + h[-2])
        k.append(t * k[-1] + k[-2])
    ctx.check(conv[:len(got)] == list(zip(h[2:], k[2:]))[:len(conv)], "convergents of (%d + sqrt %d)/%d" % (p, d, q))


@unit("N15")
def long_periods(ctx):
    r = ctx.rng
    for i in range(ctx.n(60)):
        d = nonsquare(r, 10**r.randint(5, 9))
        s = math.isqrt(d)
        p, q = 0, 1
        if i % 3:
            p = r.randint(-10**r.randint(1, 9), 10**r.randint(1, 9))
            ds = [t for t in range(1, 2000) if (d - p * p) % t == 0]
            q = r.choice(ds) * r.choice((1, -1)) if i % 3 == 1 else r.randint(1, 12) * r.choice((1, -1))
        judge_expansion(ctx, r, d, p, q)


@unit("N15")
def huge_radicands(ctx):
    """Radicands next to a square: the period is short, however large they are."""
    r = ctx.rng
    for i in range(ctx.n(80)):
        k = r.randint(1, 10**r.choice((3, 9, 16, 17, 27, 60, 120))) + 3
        d = k * k + r.choice((1, 1, 2, -1, -2, 4, -4, k, 2 * k))
        if d < 2 or math.isqrt(d)**2 == d:
            continue
        p, q = r.choice(((0, 1), (r.randint(-9, 9), r.choice((1, -1)) * r.randint(1, 9)),
                         (r.randint(-k, k), r.choice((1, -1, 2, -3, 5))), (r.randint(-9, 9) - k, r.randint(2, 6))))
        judge_expansion(ctx, r, d, p, q)


# ------------------------------------------------------------------------------------- N16
@unit("N16", shards=2)
def large_pell(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        # families whose least solutions are known in closed form
        for _ in range(ctx.n(60)):
            k = 2 + r.getrandbits(size(r, 3, 90))
            fam = [(k * k + 1, (2 * k * k + 1, 2 * k), (k, 1)), (k * k + 2, (k * k + 1, k), None)]
            if k > 2:
                fam += [(k * k - 1, (k, 1), None), (k * k - 2, (k * k - 1, k), None)]
            if k % 2 == 0 and k > 2:
                fam.append((k * k + k, (2 * k + 1, 2), None))
            for D, plus, minus in fam:
                ctx.eq(ctx.call("pell_fundamental_solution", PE.pell_fundamental_solution, D), plus, "fundamental solution D=%d" % D)
                if minus:
                    ctx.eq(ctx.call("pell_fundamental_solution/-1", PE.pell_fundamental_solution, D, -1), minus, "norm -1, D=%d" % D)
                elif D > 3 and (D % 4 == 3 or any(p % 4 == 3 for p in (3, 7, 11, 19) if D % p == 0)):
                    ctx.raises("pell_fundamental_solution/-1", ValueError, PE.pell_fundamental_solution, D, -1)
        for D, x in ((61, 1766319049), (109, 158070671986249), (181, 2469645423824185801), (277, 159150073798980475849),
                     (397, 838721786045180184649), (409, 25052977273092427986049), (421, 3879474045914926879468217167061449),
                     (541, 3707453360023867028800645599667005001), (661, 16421658242965910275055840472270471049)):
            ctx.eq(ctx.call("pell_fundamental_solution", PE.pell_fundamental_solution, D)[0], x, "fundamental solution D=%d" % D)
    else:
        for D in (2, 3, 5, 6, 7, 8, 10, 11, 12, 14, 15, 17, 18, 20, 21, 24, 30, 35, 37, 39):
            u, v = least_pell(D, 1, 3000)
            for _ in range(ctx.n(4)):
                # norms with many representations, primitive and not
                x, y = r.randint(0, 4000), r.randint(0, 900)
                N = x * x - D * y * y
                if r.random() < .5:
                    m = r.choice((2, 3, 5, 6, 7, 11, 35))
                    N *= m * m
                if N == 0 or abs(N) > 10**7 or v * math.isqrt(abs(N)) > 60000:
                    continue
                want = minimal_positive(D, N, u, v)
                got = ctx.call("pell_minimal_positive_solutions", PE.pell_minimal_positive_solutions, D, N)
                ctx.eq(sorted(tuple(g) for g in got), want, "minimal positive solutions of x^2 - %d y^2 = %d" % (D, N))
                B = 10**r.randint(3, 40)
                sols = set()
                for a, b in want:
                    while a <= B and b <= B:
                        sols.add((a, b))
                        a, b = a * u + b * v * D, a * v + b * u
                L = ctx.take("pell_solution_generator", 5000, PE.pell_solution_generator, D, N, B)
                ctx.check(sorted(L) == sorted(sols), "pell_solution_generator(%d, %d, %d)" % (D, N, B), len(L), len(sols))


# ------------------------------------------------------------------------------------- N17
def most_divisors(B):
    """Greatest number of divisors of any m <= B, over the Pareto front of (m, tau(m)) prime by prime."""
    front = [(1, 1)]
    for p in O.primes_upto(400):
        new = []
        for m, t in front:
            e, q = 0, 1
            while m * q <= B:
                new.append((m * q, t * (e + 1)))
                e += 1
                q *= p
        if len(new) == len(front):
            break
        new.sort(key=lambda x: (x[0], -x[1]))
        front, best = [], 0
        for m, t in new:
            if t > best:
                best = t
                front.append((m, t))
    return front[-1][1]


@unit("N17")
def large_searches(ctx):
    r = ctx.rng
    for _ in range(ctx.n(20)):
        B = r.choice((10**r.randint(4, 26), wide(r, 15, 85), 963761198400, 963761198399))
        t, m = ctx.call("maximize_divisors", M.maximize_divisors, B)
        w = most_divisors(B)
        ctx.check(t == w and 1 <= m <= B and math.prod(e + 1 for _, e in O.factorint(m)) == t, "maximize_divisors(%d) = (%d, %d), best count %d" % (B, t, m, w))
    for _ in range(ctx.n(25)):
        fac = sorted((p, r.randint(1, 5)) for p in r.sample(O.primes_upto(50), r.randint(3, 6)))
        if r.random() < .4:
            fac += [(O.random_prime(r, r.randint(21, 23)), 1), (O.random_prime(r, r.randint(24, 26)), 1)]
        n = math.prod(p**e for p, e in fac)
        d = O.divisors_of(fac)
        if len(d) > 5000:
            continue
        for _ in range(8):
            b = min(max(1, r.choice(d) + r.choice((-1, 0, 1))), n)
            ctx.eq(ctx.call("largest_divisor", M.largest_divisor, n, b), d[bisect_right(d, b) - 1], "largest_divisor(%d, %d)" % (n, b))
    for _ in range(ctx.n(12)):
        k = r.choice((60, 150, 260))
        top = r.choice((k * 2, 1000, 10**6, 10**18, 10**40))
        S_ = {r.randint(-top, top) for _ in range(k)}
        a, d, m = r.randint(-top, top), r.choice((1, 7, top // 50 or 1)), r.choice((3, 5, 12, 40, 100))
        S_ |= {a + d * i for i in range(m)}
        L = sorted(S_)
        ctx.check(ctx.call("longest_ap", AP.longest_ap, L) == ap_brute(L), "longest_ap of %d numbers" % len(L), L)
        got = ctx.call("has_three_term_ap", AP.has_three_term_ap, L)
        ctx.check(got is not False and set(got) <= S_ and got[0] < got[1] < got[2] and got[0] + got[2] == 2 * got[1], "has_three_term_ap", got)
        # no digit 2 in base three: free of three-term progressions
        F_ = sorted({int(bin(x)[2:], 3) * r.choice((1, 1)) for x in r.sample(range(1, 5000), k)})
        ctx.eq(ctx.call("has_three_term_ap", AP.has_three_term_ap, F_), False, "has_three_term_ap of a progression-free set")
        L = sorted(set(F_) | {3**9 * 5 + 1, 3**9 * 5 + 1 + F_[5] - F_[2], 3**9 * 5 + 1 + 2 * (F_[5] - F_[2])})
        ctx.check(ctx.call("has_three_term_ap/i", AP.has_three_term_ap, L, indices=True) is not False, "has_three_term_ap misses a progression", L)
    # von Staudt-Clausen: the denominator of B_2k and its fractional part
    n = ctx.n(300, 500)
    L = ctx.call("bernoulli_list", M.bernoulli_list, n)
    ctx.eq(len(L), n + 1, "bernoulli_list(%d): length" % n)
    for k in range(2, n + 1):
        if k % 2:
            ctx.eq(L[k], 0, "B_%d" % k)
        else:
            x = L[k] + sum(Fraction(1, p) for p in (d + 1 for d in O.divisors(k)) if O.isprime(p))
            ctx.check(x.denominator == 1 and (L[k] > 0) == (k % 4 == 2), "B_%d does not satisfy von Staudt-Clausen" % k, L[k])
