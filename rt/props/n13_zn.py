"""N13: roots and congruences modulo n.  N14: multiplicative orders, primitive roots, discrete logs."""
import math

from rt.core import unit
from rt import oracles as O
from rt.gen import rich_prime

from rosemary.number_theory import zn_arithmetic as Z
from rosemary.number_theory import core as C


def count_sqrts_pk(a, p, k):
    """Number of x mod p**k with x*x = a, from the structure of the unit group."""
    q = p**k
    a %= q
    if a == 0:
        return p**(k // 2)
    v = O.valuation(p, a)
    if v % 2:
        return 0
    m, a, j = v // 2, a // p**v, k - v
    if p > 2:
        return p**m * (2 if pow(a, (p - 1) // 2, p) == 1 else 0)
    if j == 1:
        return p**m
    if j == 2:
        return p**m * (2 if a % 4 == 1 else 0)
    return p**m * (4 if a % 8 == 1 else 0)


def count_sqrts(a, fac):
    c = 1
    for p, k in fac:
        c *= count_sqrts_pk(a, p, k)
    return c


def sorted_distinct_in_range(ctx, L, n, what):
    ctx.check(L == sorted(L) and len(set(L)) == len(L) and all(0 <= x < n for x in L), what + ": not sorted/distinct/reduced", L)


def check_sqrts(ctx, label, L, a, n, cnt):
    sorted_distinct_in_range(ctx, L, n, "%s(%d mod %d)" % (label, a, n))
    ctx.check(all((x * x - a) % n == 0 for x in L), "%s: not a root" % label, a, n, L[:20])
    ctx.check(len(L) == cnt, "%s(%d mod %d): %d roots returned, %d exist" % (label, a, n, len(L), cnt), L[:20])


def modulus(r, primes, cap):
    n, f = 1, []
    for p in r.sample(primes, r.randint(1, 4)):
        kmax = 1
        while p**(kmax + 1) <= 20000 and kmax < 9:
            kmax += 1
        k = r.randint(1, kmax)
        if n * p**k > cap:
            continue
        n *= p**k
        f.append((p, k))
    return n, sorted(f)


@unit("N13", shards=4)
def square_roots(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        for n in range(1, ctx.n(150, 500)):
            sq = {}
            for x in range(n):
                sq.setdefault(x * x % n, []).append(x)
            for a in range(n):
                b = a + n * r.choice((0, 0, 0, 1, -1, 7, -5))
                ctx.eq(ctx.call("sqrts_mod_n", Z.sqrts_mod_n, b, n), sq.get(a, []), "sqrts_mod_n(%d, %d)" % (b, n))
            if O.isprime(n):
                for a in range(-n, 2 * n):
                    ctx.eq(ctx.call("sqrts_mod_p", Z.sqrts_mod_p, a, n), sq.get(a % n, []), "sqrts_mod_p(%d, %d)" % (a, n))
        for bad in (1, 0, -7):
            ctx.raises("sqrts_mod_p", ValueError, Z.sqrts_mod_p, 3, bad)
    elif ctx.shard == 1:
        # large primes of every class modulo powers of two: p = 1 mod 2**s exercises Tonelli-Shanks depth
        special = [2**89 - 1, 2**61 - 1, 2**127 - 1, 2**16 + 1, 257, 17, 3 * 2**30 + 1, 5 * 2**25 + 1,
                   27 * 2**56 + 1 if O.isprime(27 * 2**56 + 1) else 7681, 2**64 - 2**32 + 1, 2**255 - 19]
        for _ in range(ctx.n(250)):
            s = r.randint(1, 40)
            while True:
                p = (r.getrandbits(r.randint(2, 60)) | 1) * 2**s + 1
                if O.isprime(p):
                    break
            special.append(p)
        for p in special:
            for _ in range(8):
                x = r.randrange(1, p)
                L = ctx.call("sqrts_mod_p", Z.sqrts_mod_p, x * x, p)
                ctx.eq(L, sorted({x, p - x}), "sqrts_mod_p(%d^2, %d)" % (x, p))
                a = r.randrange(-p, 2 * p)
                L = ctx.call("sqrts_mod_p", Z.sqrts_mod_p, a, p)
                check_sqrts(ctx, "sqrts_mod_p", L, a, p, count_sqrts_pk(a, p, 1))
            ctx.eq(ctx.call("sqrts_mod_p", Z.sqrts_mod_p, 0, p), [0])
            ctx.eq(ctx.call("sqrts_mod_p", Z.sqrts_mod_p, p, p), [0])
            ctx.eq(ctx.call("sqrts_mod_p", Z.sqrts_mod_p, 1, p), sorted({1, p - 1}))
    else:
        small = [2, 2, 3, 5, 7, 11, 13, 17, 29, 101, 257, 1009]
        for _ in range(ctx.n(900)):
            n, f = modulus(r, sorted(set(small)), 10**12)
            if n == 1:
                continue
            x = r.randrange(n)
            c = r.randrange(5)
            if c == 0:
                a = r.randrange(-n, n)
            elif c == 1:
                p, k = r.choice(f)          # root with a prime-power common factor
                x = x * p**r.randint(0, k)
                a = x * x
            elif c == 2:
                a = 0
            else:
                a = x * x % n
            cnt = count_sqrts(a, f)
            if cnt > 4000:
                continue
            if r.random() < .5:
                L = ctx.call("sqrts_mod_n", Z.sqrts_mod_n, a, n)
            else:
                L = ctx.call("sqrts_mod_n/f", Z.sqrts_mod_n, a, n, n_factorization=f)
            check_sqrts(ctx, "sqrts_mod_n", L, a, n, cnt)
            if c:
                ctx.check(a % n == 0 or x % n in L, "sqrts_mod_n(%d, %d) misses %d" % (a, n, x % n))


def quad_brute(a, b, c, n):
    return [x for x in range(n) if (a * x * x + b * x + c) % n == 0]


@unit("N13", shards=3)
def congruences(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        for n in range(1, ctx.n(60, 150)):
            for _ in range(60):
                a, b, c = (r.randint(-n - 3, n + 3) for _ in range(3))
                ctx.eq(ctx.call("quadratic_congruence", Z.quadratic_congruence, [a, b, c], n), quad_brute(a, b, c, n), "quadratic_congruence")
            if n >= 2:
                for a in range(-n, 2 * n, 1 if n < 25 else 3):
                    for b in range(-3, n + 3, 1 if n < 25 else 5):
                        ctx.eq(ctx.call("linear_congruence", Z.linear_congruence, a, b, n), [x for x in range(n) if (a * x - b) % n == 0], "linear_congruence")
        for bad in (1, 0, -5):
            ctx.raises("linear_congruence", ValueError, Z.linear_congruence, 3, 4, bad)
    elif ctx.shard == 1:
        for _ in range(ctx.n(500)):
            n, f = modulus(r, [2, 3, 5, 7, 11, 13, 29], 4000)
            if n == 1:
                continue
            x, y = r.randrange(n), r.randrange(n)
            a = r.choice((1, -1, 2, 4, 3, 6, 12, r.randint(1, 60), -r.randint(1, 60)))
            if r.random() < .6:
                co = [a, -a * (x + y), a * x * y]
            else:
                co = [a, r.randint(-n, n), r.randint(-n, n)]
            if r.random() < .3:
                g = r.choice((2, 3, 5, 8))
                co = [g * t for t in co]
            kw = {"n_factorization": f} if r.random() < .5 else {}
            ctx.eq(ctx.call("quadratic_congruence", Z.quadratic_congruence, co, n, **kw), quad_brute(*co, n), "quadratic_congruence(%s mod %d)" % (co, n))
    else:
        for _ in range(ctx.n(1500)):
            n = r.getrandbits(r.randint(2, 90)) + 2
            g = 1
            if r.random() < .6:
                g = math.gcd(n, r.choice((2, 3, 4, 6, 12, 30, 60, 64, 210)))
            a = g * r.getrandbits(100) * r.choice((1, -1))
            d = math.gcd(a, n)
            if d > 3000:
                continue
            x = r.randrange(n)
            b = a * x + (n * r.randint(-3, 3)) if r.random() < .7 else r.randrange(-n, n)
            L = ctx.call("linear_congruence", Z.linear_congruence, a, b, n)
            sorted_distinct_in_range(ctx, L, n, "linear_congruence")
            ctx.check(all((a * y - b) % n == 0 for y in L), "linear_congruence: not a solution", a, b, n)
            ctx.eq(len(L), d if b % d == 0 else 0, "linear_congruence(%d, %d, %d): number of solutions" % (a, b, n))
        # larger moduli with odd/unit leading coefficient: roots counted through the discriminant
        for _ in range(ctx.n(200)):
            n, f = modulus(r, [3, 5, 7, 11, 13, 101, 1009], 10**11)
            if n == 1:
                continue
            a = r.randint(1, 10**6)
            if math.gcd(2 * a, n) != 1:
                continue
            x, y = r.randrange(n), r.randrange(n)
            co = [a, -a * (x + y), a * x * y]
            cnt = count_sqrts(co[1]**2 - 4 * co[0] * co[2], f)
            if cnt > 3000:
                continue
            L = ctx.call("quadratic_congruence", Z.quadratic_congruence, co, n)
            sorted_distinct_in_range(ctx, L, n, "quadratic_congruence")
            ctx.check(all((co[0] * t * t + co[1] * t + co[2]) % n == 0 for t in L), "quadratic_congruence: not a root", co, n)
            ctx.check(x in L and y in L and len(L) == cnt, "quadratic_congruence(%s mod %d): %d roots, %d exist" % (co, n, len(L), cnt))


@unit("N13", shards=2)
def roots_of_unity(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        for p in O.primes_upto(ctx.n(130, 400)):
            for n in list(range(1, 40)) + [p - 1, 2 * (p - 1), p, (p - 1) // 2 or 1]:
                if n < 1:
                    continue
                pw = {x: pow(x, n, p) for x in range(1, p)}
                ctx.eq(ctx.call("nth_roots_of_unity_mod_p", Z.nth_roots_of_unity_mod_p, n, p), [x for x in pw if pw[x] == 1], "roots of unity n=%d p=%d" % (n, p))
                ctx.eq(ctx.call("nth_roots_of_minus1_mod_p", Z.nth_roots_of_minus1_mod_p, n, p), [x for x in pw if (pw[x] + 1) % p == 0], "roots of -1 n=%d p=%d" % (n, p))
    else:
        for _ in range(ctx.n(250)):
            m = 1
            for q in (2, 2, 2, 3, 3, 5, 7, 11, 13):
                m *= q**r.randint(0, 2)
            p = m * r.getrandbits(r.randint(2, 34)) + 1
            while not O.isprime(p):
                p += m
            n = r.choice([d for d in O.divisors(m) if d <= 600]) * r.choice((1, 1, 2, 5, 101))
            d = math.gcd(n, p - 1)
            if d > 1500:
                continue
            g = next(x for x in range(2, p) if all(pow(x, (p - 1) // q, p) != 1 for q, _ in O.factorint(p - 1)))
            kw = {"g": g} if r.random() < .5 else {}
            L = ctx.call("nth_roots_of_unity_mod_p", Z.nth_roots_of_unity_mod_p, n, p, **kw)
            sorted_distinct_in_range(ctx, L, p, "nth_roots_of_unity_mod_p")
            ctx.check(len(L) == d and all(pow(x, n, p) == 1 for x in L), "roots of unity n=%d p=%d: wrong set" % (n, p), L[:10])
            L = ctx.call("nth_roots_of_minus1_mod_p", Z.nth_roots_of_minus1_mod_p, n, p, **kw)
            sorted_distinct_in_range(ctx, L, p, "nth_roots_of_minus1_mod_p")
            want = d if ((p - 1) // d) % 2 == 0 else 0
            ctx.check(len(L) == want and all(pow(x, n, p) == p - 1 for x in L), "roots of -1 n=%d p=%d: wrong set (%d expected)" % (n, p, want), L[:10])


# ------------------------------------------------------------------------------------- N14
def order_of(a, n):
    """Multiplicative order by descending from the Carmichael exponent."""
    k = O.carmichael(n)
    for p, e in O.factorint(k):
        for _ in range(e):
            if pow(a, k // p, n) == 1 % n:
                k //= p
            else:
                break
    return k


@unit("N14", shards=3)
def orders_and_primitive_roots(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        for n in range(1, ctx.n(180, 600)):
            phi = O.phi(n)
            best = None
            for a in range(-3, n + 3):
                if math.gcd(a, n) == 1:
                    k, v = 1, a % n
                    while v != 1 % n:
                        v = v * a % n
                        k += 1
                    ctx.eq(ctx.call("multiplicative_order", Z.multiplicative_order, a, n), k, "multiplicative_order(%d, %d)" % (a, n))
                    isp = k == phi
                else:
                    ctx.raises("multiplicative_order", ValueError, Z.multiplicative_order, a, n)
                    isp = False
                if n >= 2:
                    ctx.eq(ctx.call("is_primitive_root", Z.is_primitive_root, a, n), isp, "is_primitive_root(%d, %d)" % (a, n))
                    if isp and best is None and a >= 1:
                        best = a
            if n >= 2:
                if best is None:
                    ctx.raises("primitive_root", ValueError, Z.primitive_root, n)
                else:
                    ctx.eq(ctx.call("primitive_root", Z.primitive_root, n), best, "primitive_root(%d)" % n)
                    f = O.factorint(n)
                    ctx.eq(ctx.call("primitive_root/f", Z.primitive_root, n, n_factorization=f, phi=phi,
                                    phi_divisors=[q for q, _ in O.factorint(phi)]), best, "primitive_root(%d) with data" % n)
        for bad in (1, 0, -2):
            ctx.raises("is_primitive_root", ValueError, Z.is_primitive_root, 3, bad)
    elif ctx.shard == 1:
        for _ in range(ctx.n(400)):
            n = r.getrandbits(r.randint(5, 44)) + 2
            if r.random() < .3:
                n = r.choice((3, 5, 7, 11, 29, 37))**r.randint(1, 7) * r.choice((1, 2))
            f = O.factorint(n)
            phi = O.phi(n)
            if O.sigma(phi, 0) > 20000:
                continue
            a = r.randrange(1, n)
            if math.gcd(a, n) != 1:
                ctx.raises("multiplicative_order", ValueError, Z.multiplicative_order, a, n)
                ctx.eq(ctx.call("is_primitive_root", Z.is_primitive_root, a, n), False, "is_primitive_root(%d, %d)" % (a, n))
                continue
            k = order_of(a, n)
            ctx.eq(ctx.call("multiplicative_order", Z.multiplicative_order, a, n), k, "multiplicative_order(%d, %d)" % (a, n))
            ctx.eq(ctx.call("multiplicative_order/d", Z.multiplicative_order, a, n, phi=phi, phi_divisors=O.divisors(phi)), k, "multiplicative_order(%d, %d) with data" % (a, n))
            ctx.eq(ctx.call("is_primitive_root", Z.is_primitive_root, a, n), k == phi, "is_primitive_root(%d, %d)" % (a, n))
            j = r.choice(O.divisors(k))
            b = pow(a, j, n)
            ctx.eq(ctx.call("multiplicative_order", Z.multiplicative_order, b, n), k // j, "order(a**j)")
    else:
        for _ in range(ctx.n(300)):
            p = O.nextprime(r.getrandbits(r.randint(2, 45)) + 2)
            if r.random() < .5:
                p = r.choice((3, 5, 7, 11, 13, 29, 37, 40487))
            e = r.randint(1, 6) if p < 1000 else r.randint(1, 2)
            n = p**e * r.choice((1, 2))
            g = ctx.call("primitive_root", Z.primitive_root, n)
            phi = O.phi(n)
            qs = [q for q, _ in O.factorint(phi)]
            isp = lambda x: math.gcd(x, n) == 1 and all(pow(x, phi // q, n) != 1 for q in qs)
            ctx.check(isp(g), "primitive_root(%d) = %d is not one" % (n, g))
            ctx.check(not any(isp(x) for x in range(1, g)), "primitive_root(%d) = %d is not the least" % (n, g))
        for p in O.primes_upto(ctx.n(1500, 6000)):
            L = ctx.call("fibonacci_primitive_roots", Z.fibonacci_primitive_roots, p)
            qs = [q for q, _ in O.factorint(p - 1)]
            want = [x for x in range(1, p) if (x * x - x - 1) % p == 0 and all(pow(x, (p - 1) // q, p) != 1 for q in qs)]
            ctx.eq(L, want, "fibonacci_primitive_roots(%d)" % p)


@unit("N14", shards=2)
def orders_in_rich_groups(ctx):
    """Moduli whose unit group has many prime divisors; elements missing exactly one of them."""
    r = ctx.rng
    for i in range(ctx.n(90)):
        p = rich_prime(r, O.isprime, r.choice((16, 24, 34, 44)))
        if i % 4 == 0:          # p = 1 or 9 mod 10, so that the golden ratio exists mod p
            while p % 5 not in (1, 4):
                p = rich_prime(r, O.isprime, r.choice((16, 24, 34)))
        fac = O.factorint(p - 1)
        qs = [q for q, _ in fac]
        gen = lambda x: x % p != 0 and all(pow(x, (p - 1) // q, p) != 1 for q in qs)
        g = next(x for x in range(1, p) if gen(x))
        ctx.eq(ctx.call("primitive_root", Z.primitive_root, p), g, "primitive_root(%d)" % p)
        while True:
            e = r.randrange(1, p)
            if math.gcd(e, p - 1) == 1:
                break
        h = pow(g, e, p)
        for q in [1] + qs:
            for mod, phi in ((p, p - 1),) if ctx.shard == 0 else ((2 * p, p - 1), (p * p, p * (p - 1)))[:1 if p > 1 << 22 else 2]:
                x = pow(h, q, p)
                if mod == 2 * p and x % 2 == 0:
                    x += p
                o = order_of(x, mod)
                ctx.eq(ctx.call("is_primitive_root", Z.is_primitive_root, x, mod), o == phi, "is_primitive_root(%d, %d)" % (x, mod))
                if mod == p:
                    kw = r.choice(({}, {"phi": p - 1}, {"phi_divisors": qs}, {"phi": p - 1, "phi_divisors": qs}))
                    ctx.eq(ctx.call("is_primitive_root/d", Z.is_primitive_root, x, p, **kw), q == 1, "is_primitive_root(%d, %d, %r)" % (x, p, kw))
                if mod < 1 << 64:
                    ctx.eq(ctx.call("multiplicative_order", Z.multiplicative_order, x, mod), o, "multiplicative_order(%d, %d)" % (x, mod))
        if p % 5 in (1, 4):
            L = ctx.call("fibonacci_primitive_roots", Z.fibonacci_primitive_roots, p)
            ctx.check(L == sorted(set(L)), "fibonacci_primitive_roots(%d): not sorted" % p, L)
            for x in L:
                ctx.check(0 < x < p and (x * x - x - 1) % p == 0 and gen(x), "fibonacci_primitive_roots(%d): %d is none" % (p, x))
            # the golden ratio mod p, found by a random equal-degree split rather than a square root routine
            want = sorted(x for x in golden(r, p) if gen(x))
            ctx.eq(L, want, "fibonacci_primitive_roots(%d)" % p)


def golden(r, p):
    """Roots of x**2 - x - 1 mod p (p = 1, 4 mod 5) by Cantor-Zassenhaus splitting."""
    if p % 5 not in (1, 4):
        return []
    while True:
        t = r.randrange(p)          # (x + t)**((p-1)/2) - 1 modulo x**2 - x - 1
        a, b = 0, 1                 # a*x + b
        c, d = 1, t
        e = (p - 1) // 2
        while e:
            if e & 1:
                a, b = (a * d + b * c + a * c) % p, (b * d + a * c) % p
            c, d = (2 * c * d + c * c) % p, (d * d + c * c) % p
            e >>= 1
        b -= 1
        if a:
            x = -b * pow(a, -1, p) % p
            if (x * x - x - 1) % p == 0:
                return sorted({x, (1 - x) % p})


@unit("N14", shards=2)
def discrete_logs(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        for p in O.primes_upto(ctx.n(60, 130)):
            for a in range(0, p + 2):
                pw = set()
                v = a % p
                for _ in range(p):
                    pw.add(v)
                    v = v * a % p
                for b in range(p):
                    o, x = ctx.outcome("discrete_log", Z.discrete_log, a, b, p)
                    if b in pw:
                        ctx.check(o == "ok" and isinstance(x, int) and x > 0 and pow(a, x, p) == b,
                                  "discrete_log(%d, %d, %d): a solution exists, got %s %r" % (a, b, p, o, x))
                    else:
                        ctx.check(o == "raise" and isinstance(x, ValueError), "discrete_log(%d, %d, %d): no solution, got" % (a, b, p), o, x)
    else:
        for _ in range(ctx.n(120)):
            p = O.nextprime(r.getrandbits(r.randint(3, 34)) + 2)
            a = r.randrange(1, p)
            k = r.randrange(1, p)
            if r.random() < .2:
                m = math.isqrt(p) + 1
                k = m * r.randint(1, m) - r.choice((0, 1, m - 1, m))
                k = max(1, k)
            elif r.random() < .3:
                # a generator, and a logarithm at either end of its range
                a = ctx.call("primitive_root", Z.primitive_root, p)
                k = max(1, r.choice((p - 1, p - 2, p - 3, 1, 2, p - 1 - r.randint(0, math.isqrt(p)))))
            b = pow(a, k, p)
            x = ctx.call("discrete_log", Z.discrete_log, a, b, p)
            ctx.check(x > 0 and pow(a, x, p) == b, "discrete_log(%d, %d, %d) = %d wrong" % (a, b, p, x))
            # a base generating a proper subgroup, target outside it
            q = O.factorint(p - 1)[0][0] if p > 3 else None
            if q:
                g = ctx.call("primitive_root", Z.primitive_root, p)
                a = pow(g, q, p)
                b = g * pow(a, r.randrange(p), p) % p
                ctx.raises("discrete_log", ValueError, Z.discrete_log, a, b, p)
