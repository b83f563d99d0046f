"""N08 arithmetic functions, N09 tables of them, N10 summatory functions, N11 totient preimages,
N12 classification predicates."""
import math
from collections import defaultdict

from rt.core import unit
from rt import oracles as O
from rt.gen import boundary_ints, composite_int

from rosemary.number_theory.arithmetic_functions import functions as AF
from rosemary.number_theory.arithmetic_functions import sieves as AS
from rosemary.number_theory.arithmetic_functions import sums as SU
from rosemary.number_theory.arithmetic_functions import inverse_functions as IV
from rosemary.number_theory import classification as K


def shapes(ctx, k, bits=60):
    r = ctx.rng
    out = []
    for _ in range(k):
        c = r.randrange(6)
        if c == 0:
            n = 2**r.randint(0, 40) * (r.getrandbits(12) | 1)
        elif c == 1:
            n = O.random_prime(r, r.randint(2, 20))**r.randint(1, 5)
        elif c == 2:
            n = O.random_prime(r, r.randint(18, 40))
        elif c == 3:
            n = O.random_prime(r, 22) * O.random_prime(r, 24) * r.choice((1, 2, 4, 8, 9, 30))
        else:
            n = composite_int(r, bits)
        out.append(n)
    return out


@unit("N08", shards=2)
def pointwise(ctx):
    r = ctx.rng
    vals = list(range(1, 1500)) if ctx.shard == 0 else shapes(ctx, ctx.n(700))
    for n in vals:
        fac = O.factorint(n)
        phi = tau = 1
        lam = 1
        for p, e in fac:
            phi *= p**(e - 1) * (p - 1)
            tau *= e + 1
            lam = math.lcm(lam, p**(e - 1) * (p - 1) if p > 2 else (1 if e == 1 else 2 if e == 2 else 2**(e - 2)))
        mu = 0 if any(e > 1 for _, e in fac) else (-1)**len(fac)
        args = [("", n)] + ([("/f", fac)] if n > 1 else [])
        for tag, a in args:
            ctx.eq(ctx.call("euler_phi" + tag, AF.euler_phi, a), phi, "euler_phi(%d)" % n)
            ctx.eq(ctx.call("moebius_mu" + tag, AF.moebius_mu, a), mu, "moebius_mu(%d)" % n)
            ctx.eq(ctx.call("divisor_tau" + tag, AF.divisor_tau, a), tau, "divisor_tau(%d)" % n)
            ctx.eq(ctx.call("carmichael_lambda" + tag, AF.carmichael_lambda, a), lam, "carmichael_lambda(%d)" % n)
            for k in (0, 1, 2, r.randint(3, 9), r.choice((10, 17, 33, 51, 64, 100))):
                w = 1
                for p, e in fac:
                    w *= sum(p**(k * i) for i in range(e + 1))
                ctx.eq(ctx.call("divisor_sigma" + tag, AF.divisor_sigma, a, k), w, "divisor_sigma(%d, %d)" % (n, k))
            ctx.eq(ctx.call("divisor_sigma" + tag, AF.divisor_sigma, a), O.sigma(n) if tau < 3000 else AF.divisor_sigma(n, 1), "divisor_sigma(%d)" % n)
    # factorizations of numbers far too large to be written out: huge exponents, many primes, large primes
    big = O.primes_upto(4000)
    for i in range(ctx.n(60)):
        if i % 3 == 0:
            fac = [(p, r.choice((1, 2, 40, 300, 1100, 2500))) for p in sorted(r.sample(big, r.randint(1, 3)))]
        elif i % 3 == 1:
            fac = [(p, r.choice((1, 1, 1, 2, 5))) for p in sorted(r.sample(big, r.randint(20, 200)))]
            if r.random() < .5:
                fac = [(p, 1) for p, _ in fac]
        else:
            fac = sorted({(O.random_prime(r, r.randint(60, 120)), r.randint(1, 4)) for _ in range(r.randint(1, 5))} |
                         {(2, r.randint(1, 70))})
        phi = tau = lam = sig = 1
        for p, e in fac:
            phi *= p**(e - 1) * (p - 1)
            tau *= e + 1
            lam = math.lcm(lam, p**(e - 1) * (p - 1) if p > 2 else (1 if e == 1 else 2 if e == 2 else 2**(e - 2)))
            sig *= (p**(e + 1) - 1) // (p - 1)
        ctx.eq(ctx.call("euler_phi/F", AF.euler_phi, fac), phi, "euler_phi of %r" % fac[:6])
        ctx.eq(ctx.call("divisor_tau/F", AF.divisor_tau, fac), tau, "divisor_tau of %r" % fac[:6])
        ctx.eq(ctx.call("carmichael_lambda/F", AF.carmichael_lambda, fac), lam, "carmichael_lambda of %r" % fac[:6])
        ctx.eq(ctx.call("divisor_sigma/F", AF.divisor_sigma, fac), sig, "divisor_sigma of %r" % fac[:6])
        ctx.eq(ctx.call("moebius_mu/F", AF.moebius_mu, fac), 0 if any(e > 1 for _, e in fac) else (-1)**len(fac), "moebius_mu of %r" % fac[:6])
    for fn in (AF.euler_phi, AF.moebius_mu, AF.divisor_tau, AF.divisor_sigma, AF.carmichael_lambda):
        for bad in (0, -1, -r.randint(2, 10**6), "x", 2.5):
            ctx.raises(fn.__name__, ValueError, fn, bad)
    ctx.raises("divisor_sigma", ValueError, AF.divisor_sigma, 10, -r.randint(1, 9))


@unit("N08")
def lambda_is_least_exponent(ctx):
    """The defining property, by exhaustion over the unit group."""
    for n in range(2, ctx.n(420)):
        lam = ctx.call("carmichael_lambda", AF.carmichael_lambda, n)
        units = [a for a in range(1, n) if math.gcd(a, n) == 1] or [1]
        ctx.check(all(pow(a, lam, n) == 1 % n for a in units), "carmichael_lambda is not a universal exponent", n, lam)
        for p, _ in O.factorint(lam):
            ctx.check(any(pow(a, lam // p, n) != 1 for a in units), "carmichael_lambda not least", n, lam)


@unit("N08")
def factorial_primorial(ctx):
    r = ctx.rng
    for n in list(range(0, 700)) + [1000, 1023, 1024, 1025, 2047, 2048] + [r.randrange(700, 4000) for _ in range(ctx.n(10))]:
        ctx.eq(ctx.call("factorial", AF.factorial, n), math.factorial(n), "factorial(%d)" % n)
    ps = O.primes_upto(20000)
    w = 1
    for i in range(1, 500):
        w *= ps[i - 1]
        ctx.eq(ctx.call("primorial", AF.primorial, i), w, "primorial(%d)" % i)
    for n in (-1, -5):
        ctx.raises("factorial", ValueError, AF.factorial, n)
    for n in (0, -3):
        ctx.raises("primorial", ValueError, AF.primorial, n)


# ------------------------------------------------------------------------------------- N09
def list_sizes(ctx):
    r = ctx.rng
    ns = list(range(1, 260))
    for p in O.primes_upto(140):
        for e in (2, 3):
            if p**e < 14000:
                ns += [p**e - 1, p**e, p**e + 1]
    ns += [9999, 10000, 10001, 12321] + [r.randrange(260, 20000) for _ in range(ctx.n(10))]
    return [n for n in ns if n >= 1]


@unit("N09", shards=4)
def tables(ctx):
    T = O.table(20500)
    tau, sig = T.tau, T.sig
    ns = list_sizes(ctx)
    if ctx.shard == 0:
        for n in ns:
            ctx.eq(ctx.call("euler_phi_list", AS.euler_phi_list, n) == T.phi[:n + 1], True, "euler_phi_list(%d)" % n)
    elif ctx.shard == 1:
        for n in ns:
            ctx.eq(ctx.call("moebius_list", AS.moebius_list, n) == T.mu[:n + 1], True, "moebius_list(%d)" % n)
    elif ctx.shard == 2:
        for n in ns:
            ctx.eq(ctx.call("tau_list", AS.tau_list, n) == tau[:n + 1], True, "tau_list(%d)" % n)
            ctx.eq(ctx.call("sigma_list", AS.sigma_list, n) == sig[:n + 1], True, "sigma_list(%d)" % n)
    else:
        m = 3000
        sk = {k: [0] * (m + 1) for k in range(0, 6)}
        for k in sk:
            for d in range(1, m + 1):
                for j in range(d, m + 1, d):
                    sk[k][j] += d**k
        for n in [x for x in ns if x <= m]:
            k = ctx.rng.randrange(6)
            ctx.eq(ctx.call("sigma_list", AS.sigma_list, n, k) == sk[k][:n + 1], True, "sigma_list(%d, %d)" % (n, k))
        for n, k in ((10**4 - 1, 2), (10**4 + 1, 3), (20011, 2), (12000, 0), (700, 21), (350, 64), (120, 100)):
            want = [0] * (n + 1)
            for d in range(1, n + 1):
                t = d**k
                for j in range(d, n + 1, d):
                    want[j] += t
            ctx.eq(ctx.call("sigma_list", AS.sigma_list, n, k) == want, True, "sigma_list(%d, %d)" % (n, k))
        for n in (10**4 - 1, 10**4, 10**4 + 1, 20011):
            ctx.eq(ctx.call("sigma_list", AS.sigma_list, n) == sig[:n + 1], True, "sigma_list(%d)" % n)
        for fn in (AS.euler_phi_list, AS.moebius_list, AS.tau_list, AS.sigma_list):
            for bad in (0, -1, -7):
                ctx.raises(fn.__name__, ValueError, fn, bad)
        ctx.raises("sigma_list", ValueError, AS.sigma_list, 10, -1)


@unit("N09", shards=2)
def moebius_ranges(ctx):
    r = ctx.rng
    T = O.table(20500)
    cases = []
    if ctx.shard == 0:
        cases = [(a, b) for a in range(0, 40) for b in range(a + 1, 90, 2)] + [(n, None) for n in range(0, 300)]
    else:
        for _ in range(ctx.n(300)):
            k = r.choice((200, 10**4, 10**6, 10**8, 10**10, 10**12))
            a = r.randrange(1, k)
            if r.random() < .5:
                p = O.nextprime(r.randrange(2, min(math.isqrt(k), 10**5) + 2))
                a = max(1, p * p * r.randint(1, 3) - r.randint(0, 4))
            b = a + r.choice((1, 2, 3, 30, 200, 400))
            if k >= 10**10:
                b = a + r.randint(1, 12)
            cases.append((a, b))
    for a, b in cases:
        got = ctx.take("moebius_range", 10**5, AS.moebius_range, a, b)
        lo, hi = (max(a, 1), b) if b is not None else (1, a)
        ctx.eq(got, [(n, T.mu[n] if n <= 20000 else O.mobius(n)) for n in range(lo, hi)], "moebius_range(%s, %s)" % (a, b))


# ------------------------------------------------------------------------------------- N10
@unit("N10", shards=4)
def sums(ctx):
    r = ctx.rng
    top = 60000
    T = O.table(top)
    acc = {"phi": [0], "wphi": [0], "mu": [0], "sig": [0]}
    for n in range(1, top + 1):
        acc["phi"].append(acc["phi"][-1] + T.phi[n])
        acc["wphi"].append(acc["wphi"][-1] + n * T.phi[n])
        acc["mu"].append(acc["mu"][-1] + T.mu[n])
        acc["sig"].append(acc["sig"][-1] + T.sig[n])
    name, key = [("euler_phi_sum", "phi"), ("euler_phi_weighted_sum", "wphi"), ("moebius_sum", "mu"), ("sigma_sum", "sig")][ctx.shard]
    fn = getattr(SU, name)
    ns = list(range(1, 1500)) + [k * k + d for k in range(38, 240) for d in (-1, 0, 1)] + \
        [k * (k + 1) + d for k in range(38, 240, 3) for d in (-1, 0, 1)] + [r.randrange(1, top) for _ in range(ctx.n(120))]
    for n in ns:
        ctx.eq(ctx.call(name, fn, n), acc[key][n], "%s(%d)" % (name, n))
    # published values
    big = {"phi": {10**6: 303963552392, 10**7: 30396356427242}, "mu": {10**6: 212, 10**7: 1037},
           "sig": {10**6: 822468118437, 10**7: 82246711794796}, "wphi": {}}[key]
    for n, w in big.items():
        ctx.eq(ctx.call(name, fn, n), w, "%s(%d)" % (name, n))
    # self-consistency with the recurrences at sizes no table reaches: sum_d F(n//d) is elementary
    for n in [r.randrange(10**5, 10**6) for _ in range(ctx.n(2))]:
        tot = 0
        i = 1
        while i <= n:
            q = n // i
            j = n // q
            w = {"wphi": (i + j) * (j - i + 1) // 2}.get(key, j - i + 1)
            tot += w * ctx.call(name, fn, q) if key != "sig" else 0
            i = j + 1
            if i > 400 and key == "wphi" and n > 3 * 10**5:
                pass
        want = {"phi": n * (n + 1) // 2, "mu": 1, "wphi": n * (n + 1) * (2 * n + 1) // 6}.get(key)
        if want is not None:
            ctx.eq(tot, want, "%s: Dirichlet identity at %d" % (name, n))
        else:
            ctx.eq(ctx.call(name, fn, n), sum(d * (n // d) for d in range(1, n + 1)), "%s(%d)" % (name, n))
    for bad in (0, -1, -9):
        ctx.raises(name, ValueError, fn, bad)


# ------------------------------------------------------------------------------------- N11
@unit("N11", shards=2)
def totient_preimages(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        # exhaustive: phi(k) = n implies k <= bound(n); for n <= 2000 k < 20000 suffices (n/phi(n) < 6)
        top = 2000
        T = O.table(20500)
        pre = defaultdict(list)
        for k in range(1, 20500):
            if T.phi[k] <= top:
                pre[T.phi[k]].append(k)
        for n in range(1, top + 1):
            ctx.eq(ctx.call("euler_phi_inverse", IV.euler_phi_inverse, n), pre[n], "euler_phi_inverse(%d)" % n)
            if n > 1:
                ctx.eq(ctx.call("euler_phi_inverse/f", IV.euler_phi_inverse, O.factorint(n)), pre[n], "euler_phi_inverse(fact of %d)" % n)
            if n % 3 == 0 or n < 400:
                ctx.eq(list(ctx.call("inverse_phi", IV.inverse_phi, n)), pre[n], "inverse_phi(%d)" % n)
        for bad in (0, -1, -40, "x"):
            ctx.raises("euler_phi_inverse", ValueError, IV.euler_phi_inverse, bad)
    else:
        for _ in range(ctx.n(150)):
            k = composite_int(r, r.randint(8, 34))
            n = O.phi(k)
            if n > 10**11:
                continue
            vals = ctx.call("euler_phi_inverse", IV.euler_phi_inverse, n)
            ctx.check(k in vals, "euler_phi_inverse(%d) misses %d" % (n, k), vals[:20])
            ctx.check(vals == sorted(set(vals)), "euler_phi_inverse: not sorted/distinct", n)
            if len(vals) < 400:
                for v in vals:
                    ctx.check(O.phi(v) == n, "euler_phi_inverse(%d): phi(%d) differs" % (n, v))
            # closure: doubling an odd preimage
            s = set(vals)
            ctx.check(all(2 * v in s for v in vals if v % 2), "euler_phi_inverse(%d): odd v present, 2v missing" % n)


# ------------------------------------------------------------------------------------- N12
@unit("N12", shards=2)
def powers(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        vals = list(range(0, 4000))
    else:
        vals = [boundary_ints(r, 300) for _ in range(ctx.n(1200))]
        vals += [(r.getrandbits(r.randint(1, 45)) + 2)**r.choice((2, 2, 3, 4, 5, 6, 7, 11, 12, 16)) + r.choice((-1, 0, 0, 1)) for _ in range(ctx.n(1200))]
        vals += [k * k + d for k in [r.getrandbits(30) | 1 << 26 for _ in range(ctx.n(600))] for d in (-1, 0)]
    for n in vals:
        s = math.isqrt(n)
        w = s if s * s == n else False
        got = ctx.call("is_square", K.is_square, n)
        ctx.check(got == w and (w is not False or got is False), "is_square(%d)" % n, got, w)
        if n < 1:
            continue
        best = False
        for e in range(n.bit_length(), 1, -1):
            b = O.iroot(e, n)
            if b > 1 and b**e == n:
                best = (b, e)
                break
        ctx.eq(ctx.call("is_power", K.is_power, n), best, "is_power(%d)" % n)
        if n > 1:
            got = ctx.call("is_power2", K.is_power2, n)
            ctx.check(got is False and best is False or best and got and got[1] > 1 and got[0]**got[1] == n,
                      "is_power2(%d)" % n, got, best)
        for e in (1, 2, 3, r.randint(2, 8)):
            b = O.iroot(e, n)
            ctx.eq(ctx.call("is_power/k", K.is_power, n, e), (b, e) if b**e == n else False, "is_power(%d, %d)" % (n, e))
    for n in (-1, -4, -r.randint(1, 10**9)):
        ctx.eq(ctx.call("is_square", K.is_square, n), False, "is_square(%d)" % n)
        ctx.raises("is_power", ValueError, K.is_power, n)
    ctx.raises("is_power", ValueError, K.is_power, 0)
    ctx.raises("is_power", ValueError, K.is_power, 10, 0)


@unit("N12", shards=2)
def squares(ctx):
    """The square of every residue class of the moduli a square test filters by, near zero and far from it."""
    r = ctx.rng
    size = 1 << r.choice((20, 40, 100))
    for k in range(ctx.shard, 66000, 2):
        ctx.eq(ctx.call("is_square", K.is_square, k * k), k, "is_square(%d^2)" % k)
        if k % 7 == r.randrange(7) or any(k % d == 0 for d in (429, 455, 585, 693, 715, 819, 1001, 1287)):
            m = k + 45045 * r.randrange(1, size)
            ctx.eq(ctx.call("is_square", K.is_square, m * m), m, "is_square(%d^2)" % m)
        n = k * k + r.randint(1, 2 * k + 1)
        w = k + 1 if n == (k + 1)**2 else False
        got = ctx.call("is_square", K.is_square, n)
        ctx.check(got == w and (w is not False or got is False), "is_square(%d)" % n, got, w)
    for b in range(2 + ctx.shard, 700, 2):
        top = O.perfect_power(b)
        for k in range(2, 9):
            want = (top[0], top[1] * k)
            ctx.eq(ctx.call("is_power", K.is_power, b**k), want, "is_power(%d^%d)" % (b, k))


@unit("N12")
def factored_inputs(ctx):
    r = ctx.rng
    vals = list(range(2, 1200)) + [composite_int(r, 80) + 1 for _ in range(ctx.n(300))] + \
        [(composite_int(r, 20) + 1)**r.randint(2, 6) for _ in range(ctx.n(300))]
    for n in vals:
        fac = O.factorint(n)
        if n < 2:
            continue
        s = math.isqrt(n)
        w = s if s * s == n else False
        ctx.eq(ctx.call("is_square/f", K.is_square, fac), w, "is_square(factorization of %d)" % n)
        d = math.gcd(*[e for _, e in fac])
        ctx.eq(ctx.call("is_power/f", K.is_power, fac), (O.iroot(d, n), d) if d > 1 else False, "is_power(fact of %d)" % n)
        k = r.randint(1, 4)
        ctx.eq(ctx.call("is_power/fk", K.is_power, fac, k), (O.iroot(k, n), k) if d % k == 0 else False, "is_power(fact of %d, %d)" % (n, k))
        sf = all(e == 1 for _, e in fac)
        ctx.eq(bool(ctx.call("is_squarefree", K.is_squarefree, n)), sf, "is_squarefree(%d)" % n)
        ctx.eq(bool(ctx.call("is_squarefree/f", K.is_squarefree, fac)), sf, "is_squarefree(fact of %d)" % n)
    ctx.eq(ctx.call("is_square/f", K.is_square, [(-1, 1), (2, 2)]), False, "is_square(-4 factored)")
    ctx.raises("is_power/f", ValueError, K.is_power, [(-1, 1), (2, 2)])
    ctx.eq(bool(ctx.call("is_squarefree", K.is_squarefree, 1)), True, "is_squarefree(1)")
    facs = {math.factorial(k) for k in range(0, 40)}
    for n in list(range(1, 800)) + sorted(facs) + [f + d for f in facs for d in (-1, 1) if f + d > 0]:
        ctx.eq(bool(ctx.call("is_factorial", K.is_factorial, n)), n in facs, "is_factorial(%d)" % n)
