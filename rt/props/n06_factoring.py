"""N06 complete factorization and divisor enumeration, N07 the individual factor-finding methods."""
import itertools
import math

from rt.core import unit
from rt import oracles as O
from rt.gen import boundary_ints, composite_int

from rosemary.number_theory.factorization import factorization as F
from rosemary.number_theory.factorization import algorithms as A

# strong pseudoprimes to every prime base below 23 / 29 / 41, both factors beyond the trial-division table
TRAPS = [341550071728321, 3825123056546413051, 318665857834031151167461]


def judge_factor(ctx, n, fac):
    want = O.factorint(abs(n))
    if n < 0:
        want = [(-1, 1)] + want
    ctx.eq([tuple(x) for x in fac], want, "factor(%d)" % n)


def big_composites(r, k):
    """Composites whose least prime factor is beyond the library's table, and mixtures."""
    out = []
    while len(out) < k:
        b = r.randint(21, 27)
        p, q = O.random_prime(r, b), O.random_prime(r, r.randint(21, 30))
        out.append(r.choice((p * q, p * p, p * O.nextprime(p), p * q * r.choice((1, 2, 12, 999983, 360)),
                             p * p * q, p**3, 2**r.randint(1, 20) * p * q,
                             p * (2**61 - 1), 999983 * 1000003, 999983 * p, 999983**2)))
    return out


@unit("N06", shards=4)
def factor(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        for n in itertools.chain(range(1, 3000), range(-800, 0)):
            judge_factor(ctx, n, ctx.call("factor", F.factor, n))
        for n in (2**64 - 1, 2**64 + 1, 10**22 + 1, 10**18 + 9, math.factorial(50), 2**127 - 1, 2**400, 6**150, 999983**3, 1000003**2):
            judge_factor(ctx, n, ctx.call("factor", F.factor, n))
        for n in range(1, 400):
            judge_factor(ctx, n, ctx.call("factor/powers", F.factor, n, skip_power_detection=False))
            judge_factor(ctx, -n, ctx.call("factor/powers", F.factor, -n, skip_power_detection=False))
            judge_factor(ctx, n, ctx.call("factor/notrial", F.factor, n, skip_trial_division=True))
        ctx.raises("factor", ValueError, F.factor, 0)
    elif ctx.shard == 1:
        for _ in range(ctx.n(2500)):
            n = r.choice((1, 1, -1)) * (composite_int(r, 90) if r.random() < .7 else boundary_ints(r, 64) or 1)
            judge_factor(ctx, n, ctx.call("factor", F.factor, n))
    elif ctx.shard == 2:
        for n in big_composites(r, ctx.n(60)) + TRAPS[:2]:
            judge_factor(ctx, n, ctx.call("factor", F.factor, n))
    else:
        for n in big_composites(r, ctx.n(25)) + [composite_int(r, 60) for _ in range(100)] + TRAPS[:1]:
            judge_factor(ctx, n, ctx.call("factor/cfrac", F.factor, n, use_cfrac=True))
            judge_factor(ctx, n, ctx.call("factor/powers", F.factor, n, skip_power_detection=False))
        for _ in range(ctx.n(150)):
            n = (composite_int(r, 20) + 1)**r.randint(2, 9) * r.choice((1, 1, -1))
            judge_factor(ctx, n, ctx.call("factor/powers", F.factor, n, skip_power_detection=False))


@unit("N06", shards=2)
def divisor_lists(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        vals = list(range(1, 900)) + list(range(-150, 0))
    else:
        vals = [v for v in (composite_int(r, 44) for _ in range(ctx.n(500)))]
        vals += [math.factorial(k) for k in range(1, 13)] + [2**k for k in range(1, 60, 7)] + [30030, 510510]
        vals += [-v for v in vals[:40]]
    for n in vals:
        fac = O.factorint(abs(n))
        want = O.divisors_of(fac)
        if len(want) > 5000:
            continue
        sfac = ([(-1, 1)] if n < 0 else []) + fac
        ctx.eq(ctx.call("divisors", F.divisors, n), want, "divisors(%d)" % n)
        ctx.eq(ctx.call("divisors/f", F.divisors, factorization=sfac), want, "divisors(factorization of %d)" % n)
        ctx.eq(sorted(ctx.take("xdivisors", 10**5, F.xdivisors, n)), want, "xdivisors(%d)" % n)
        ctx.eq(sorted(ctx.take("xdivisors/f", 10**5, F.xdivisors, factorization=sfac)), want, "xdivisors(fact of %d)" % n)
        ps = [p for p, _ in fac]
        ctx.eq(ctx.call("prime_divisors", F.prime_divisors, n), ps, "prime_divisors(%d)" % n)
        ctx.eq(ctx.call("prime_divisors/f", F.prime_divisors, factorization=sfac), ps, "prime_divisors(fact of %d)" % n)
        m = abs(n)
        un = [d for d in want if math.gcd(d, m // d) == 1]
        ctx.eq(ctx.call("unitary_divisors", F.unitary_divisors, n), un, "unitary_divisors(%d)" % n)
        ctx.eq(ctx.call("unitary_divisors/f", F.unitary_divisors, factorization=sfac), un, "unitary_divisors(fact of %d)" % n)
        pr = [(d, m // d) for d in want if d * d <= m]
        ctx.eq(ctx.call("divisor_pairs", F.divisor_pairs, n), pr, "divisor_pairs(%d)" % n)
        ctx.eq(ctx.call("divisor_pairs/f", F.divisor_pairs, factorization=sfac), pr, "divisor_pairs(fact of %d)" % n)
        ctx.eq(ctx.call("factor_back", F.factor_back, sfac), n, "factor_back(%r)" % sfac)
    for fn in (F.divisors, F.divisor_pairs, F.prime_divisors, F.unitary_divisors):
        ctx.raises(fn.__name__, TypeError, fn)


@unit("N06", shards=2)
def factored_ranges(ctx):
    r = ctx.rng
    rng = []
    if ctx.shard == 0:
        for a in range(0, 30):
            for b in range(a + 1, 70, 3):
                rng.append((a, b))
        rng += [(n, None) for n in range(0, 300)] + [(4000, None)]
    else:
        for _ in range(ctx.n(220)):
            k = r.choice((100, 10**3, 10**4, 10**5, 10**6, 10**8, 10**10))
            a = r.randrange(2, k)
            if r.random() < .4:
                p = O.nextprime(r.randrange(2, math.isqrt(k) + 3))
                a = max(1, p * p - r.randint(0, 3))
            b = a + r.choice((1, 2, 5, 30, 100, 300))
            if b > 10**9:
                b = a + r.choice((1, 3, 20))
            rng.append((a, b))
    for a, b in rng:
        got = ctx.take("factored_range", 20000, F.factored_range, a, b)
        lo, hi = (a, b) if b is not None else (1, a)
        lo = max(1, lo)
        ctx.eq([x[0] for x in got], list(range(lo, hi)), "factored_range(%s,%s): numbers covered" % (a, b))
        for n, fac in got:
            if n > 1:
                ctx.check(list(map(tuple, fac)) == O.factorint(n), "factored_range(%s,%s): wrong factorization" % (a, b), n, fac)


# ------------------------------------------------------------------------------------- N07
def semiprimes(r, k, b0, b1):
    for _ in range(k):
        p, q = O.random_prime(r, r.randint(b0, b1)), O.random_prime(r, r.randint(b0, b1))
        yield r.choice((p * q, p * q, p * q, p * p, p * O.nextprime(p)))


@unit("N07", shards=2)
def deterministic_methods(ctx):
    """trial_division, fermat, lehman: n itself exactly when n is prime, else a proper divisor."""
    r = ctx.rng
    if ctx.shard == 0:
        vals = list(range(2, 4000))
    else:
        vals = list(semiprimes(r, ctx.n(250), 3, 9)) + [O.random_prime(r, r.randint(4, 18)) for _ in range(ctx.n(80))]
        vals += [composite_int(r, 18) for _ in range(ctx.n(100))]
    for n in vals:
        if n < 2:
            continue
        p = O.factorint(n)[0][0]
        ctx.eq(ctx.call("trial_division", A.trial_division, n), p, "trial_division(%d)" % n)
        for name in ("fermat", "lehman"):
            d = ctx.call(name, getattr(A, name), n)
            ctx.check(d == n if p == n else (1 < d < n and n % d == 0), "%s(%d): neither proven prime nor a proper divisor" % (name, n), d)
    if ctx.shard == 1:
        for n in semiprimes(r, ctx.n(120), 10, 22):
            d = ctx.call("lehman", A.lehman, n)
            ctx.check(1 < d < n and n % d == 0, "lehman(%d)" % n, d)
        for b in (30, 34):
            p = O.random_prime(r, b)
            ctx.eq(ctx.call("lehman", A.lehman, p), p, "lehman(prime %d)" % p)
        for _ in range(ctx.n(60)):        # close factors: Fermat's best case at any size
            p = O.random_prime(r, r.randint(12, 80))
            q = O.nextprime(p + r.randint(0, 300) if p < 10**5 else p + r.randint(0, 10**4))
            d = ctx.call("fermat", A.fermat, p * q)
            ctx.check(1 < d < p * q and p * q % d == 0, "fermat(%d)" % (p * q), d)
        # beyond the table of primes (wheel) and with an explicit bound
        for _ in range(ctx.n(25)):
            p, q = O.random_prime(r, 21), O.random_prime(r, 22)
            ctx.eq(ctx.call("trial_division", A.trial_division, p * q), min(p, q), "trial_division(%d)" % (p * q))
            ctx.eq(ctx.call("trial_division", A.trial_division, p * p), p, "trial_division(%d)" % (p * p))
        n = O.random_prime(r, 41)
        ctx.eq(ctx.call("trial_division", A.trial_division, n), n, "trial_division(prime %d)" % n)
        for _ in range(ctx.n(400)):
            n = composite_int(r, 60) + 1
            if n < 2:
                continue
            b = r.choice((2, 3, 7, 30, 100, 1000, 10**4))
            p = O.factorint(n)[0][0]
            d = ctx.call("trial_division/b", A.trial_division, n, b)
            ctx.eq(d, p if p <= b else n, "trial_division(%d, %d)" % (n, b))


@unit("N07", shards=3)
def random_methods(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        hits = {"pollard_rho": 0, "pollard_rho_brent": 0}
        tot = 0
        vals = [n for n in range(4, 700) if not O.isprime(n)]
        vals += list(semiprimes(r, ctx.n(120), 5, 22))
        for n in vals:
            tot += 1
            for name in hits:
                d = ctx.call(name, getattr(A, name), n)
                ctx.check(d > 1 and n % d == 0, "%s(%d) is not a divisor > 1" % (name, n), d)
                hits[name] += d < n and n > 10**4
        for n in semiprimes(r, ctx.n(60), 12, 25):
            d = ctx.call("pollard_rho/it", A.pollard_rho, n, r.choice((1, 50, 99, 100, 101, 500)))
            ctx.check(d > 1 and n % d == 0, "pollard_rho(%d, iterations) is not a divisor > 1" % n, d)
        big = sum(1 for n in vals if n > 10**4)
        for name, h in hits.items():
            ctx.check(h >= big * .5, "%s finds a proper divisor too rarely" % name, h, big)
    elif ctx.shard == 1:
        for _ in range(ctx.n(60)):
            lim = r.choice((100, 1000, 5000, 100000 if r.random() < .2 else 2000))
            # p - 1 powersmooth by construction, q - 1 not
            while True:
                m = 2
                for q0 in r.sample(O.primes_upto(lim)[1:], 4):
                    m *= q0
                m *= r.choice((1, 2, 3, 4))
                if O.isprime(m + 1) and all(a**e <= lim for a, e in O.factorint(m)):
                    break
            p = m + 1
            while True:
                q = O.random_prime(r, 40)
                if any(a**e > lim for a, e in O.factorint(q - 1)):
                    break
            n = p * q
            d = ctx.call("pollard_p_minus_1", A.pollard_p_minus_1, n, lim)
            ctx.check(n % d == 0 and d % p == 0, "pollard_p_minus_1(%d, %d) misses the factor %d whose p - 1 is powersmooth" % (n, lim, p), d)
        for n in semiprimes(r, ctx.n(20), 5, 30):
            d = ctx.call("pollard_p_minus_1", A.pollard_p_minus_1, n, r.choice((10, 100, 1000)))
            ctx.check(d >= 1 and n % d == 0, "pollard_p_minus_1(%d): not a divisor" % n, d)
    else:
        ok = tot = 0
        for n in list(semiprimes(r, ctx.n(150), 9, 34)) + [O.random_prime(r, 17)**2, 101 * O.random_prime(r, 30)**2] + \
                [n for n in range(4, 700) if not O.isprime(n)]:
            d = ctx.call("cfrac", A.cfrac, n)
            ctx.check(d is None or (1 < d < n and n % d == 0), "cfrac(%d): neither a proper divisor nor None" % n, d)
            if n > 10**4:
                tot += 1
                ok += d is not None
        ctx.check(ok >= tot * .5, "cfrac finds a factor too rarely", ok, tot)
        for _ in range(ctx.n(300)):
            fb = O.primes_upto(r.choice((5, 20, 60)))
            if r.random() < .5:
                fb = [-1] + fb
            ex = [r.choice((0, 0, 1, 2, 5)) if p != -1 else r.randint(0, 1) for p in fb]
            n = 1
            for p, e in zip(fb, ex):
                n *= p**e
            ctx.eq(ctx.call("smooth_factor", A.smooth_factor, n, fb), ex, "smooth_factor(%d)" % n)
            ctx.raises("smooth_factor", ValueError, A.smooth_factor, n * O.random_prime(r, 10), fb)
        if hasattr(A, "_z2_gaussian_elimination"):
            for _ in range(ctx.n(150)):
                c = r.randint(1, 9)
                m = [[r.randint(0, 3) for _ in range(c)] for _ in range(r.randint(1, 12))]
                ker = ctx.call("_z2_gaussian_elimination", A._z2_gaussian_elimination, m)
                rank = z2rank(m)
                ctx.eq(len(ker), len(m) - rank, "z2 elimination: number of relations")
                ctx.check(all(any(k) and all(sum(m[i][j] for i in range(len(m)) if k[i]) % 2 == 0 for j in range(c)) for k in ker),
                          "z2 elimination: not a zero combination", m, ker)
                ctx.eq(z2rank(ker) if ker else 0, len(ker), "z2 elimination: relations dependent")


def z2rank(rows):
    basis = []
    for row in rows:
        v = 0
        for x in row:
            v = v * 2 + x % 2
        for b in basis:
            v = min(v, v ^ b)
        if v:
            basis.append(v)
    return len(basis)
