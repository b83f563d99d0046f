"""N01: integer arithmetic primitives are exact.  N02: modular arithmetic primitives are exact."""
import math

from rt.core import unit
from rt import oracles as O
from rt.gen import boundary_ints, log_int, smooth

from rosemary.number_theory import core as C
from rosemary.number_theory import classification as K


def ints(ctx, k, bits=200, signed=True):
    r = ctx.rng
    for _ in range(k):
        x = boundary_ints(r, bits)
        yield -x if signed and r.random() < .3 else x


@unit("N01", shards=2)
def gcd_lcm(ctx):
    r = ctx.rng
    lim = 26
    if ctx.shard == 0:
        pairs = [(x, y) for x in range(-lim, lim + 1) for y in range(-lim, lim + 1)]
    else:
        pairs = []
        a, b = 1, 1
        for _ in range(120):        # consecutive Fibonacci numbers: worst case quotients
            a, b = b, a + b
            pairs += [(a, b), (b, a), (-a, b), (a * 7, b * 7)]
        for _ in range(ctx.n(1500)):
            g = log_int(r, 1, 60)
            s, t = r.choice((1, -1)), r.choice((1, -1))
            pairs.append((s * g * log_int(r, 1, 120), t * g * log_int(r, 1, 120)))
        pairs += list(zip(ints(ctx, ctx.n(800)), ints(ctx, ctx.n(800))))
    for x, y in pairs:
        g = math.gcd(x, y)
        ctx.eq(ctx.call("gcd", C.gcd, x, y), g, "gcd")
        ctx.eq(ctx.call("lcm", C.lcm, x, y), math.lcm(x, y), "lcm")
        a, b, d = ctx.call("ext_gcd", C.ext_gcd, x, y)
        ctx.check(d == g and a * x + b * y == d, "ext_gcd: not a Bezout identity for the gcd", (a, b, d), g)


@unit("N01")
def gcd_lcm_lists(ctx):
    r = ctx.rng
    for i in range(ctx.n(1500)):
        k = r.randint(1, 8)
        g = r.choice((1, 1, 2, 6, 35, 2**20))
        L = [g * r.randint(-200, 200) if r.random() < .8 else g * log_int(r, 1, 90) for _ in range(k)]
        if r.random() < .2:
            L[r.randrange(k)] = 0
        ctx.eq(ctx.call("gcd_list", C.gcd_list, L), math.gcd(*L), "gcd_list")
        ctx.eq(ctx.call("lcm_list", C.lcm_list, L), math.lcm(*L), "lcm_list")
        if k >= 2:
            M = L[:]
            r.shuffle(M)
            ctx.eq(ctx.call("gcd_list", C.gcd_list, M), math.gcd(*L), "gcd_list order")


@unit("N01", shards=2)
def roots(ctx):
    r = ctx.rng
    vals = []
    if ctx.shard == 0:
        vals += list(range(0, 1200))
        for j in list(range(1, 70)) + [100, 200, 511, 512, 513]:
            for e in (-3, -1, 0, 1, 2):
                k = 2**j + e
                if k > 0:
                    vals += [k * k - 1, k * k, k * k + 1, k * k + 2 * k, k]
        vals += [2**e + d for e in (52, 53, 54, 60, 63, 64, 106) for d in range(-3, 4)]
    vals += [boundary_ints(r, 300) for _ in range(ctx.n(1500))]
    for _ in range(ctx.n(1500)):
        k = log_int(r, 20, 40)
        vals += [k * k - 1, k * k, k * k + 2 * k]
    for n in vals:
        if n < 0:
            continue
        s = ctx.call("integer_sqrt", C.integer_sqrt, n)
        ctx.check(type(s) is int and s >= 0 and s * s <= n < (s + 1) * (s + 1), "integer_sqrt not the floor root", n, s)
    k = 0
    for n in vals:
        if n < 0:
            continue
        k += 1
        m = r.choice((1, 2, 3, 3, 4, 5, 6, 7, 8, 10, 13, 32, n.bit_length() + r.randint(-1, 2) or 1))
        if m < 1:
            m = 1
        s = ctx.call("integer_nth_root", C.integer_nth_root, m, n)
        ctx.check(s >= 0 and s**m <= n < (s + 1)**m, "integer_nth_root not the floor root", m, n, s)
    for _ in range(ctx.n(900)):
        e = r.randint(2, 24)
        b = r.choice((2, 3, r.getrandbits(10) + 2, r.getrandbits(40) + 2))
        n = b**e + r.choice((-1, 0, 1))
        s = ctx.call("integer_nth_root", C.integer_nth_root, e, n)
        ctx.check(s**e <= n < (s + 1)**e, "integer_nth_root", e, n, s)
    ctx.raises("integer_sqrt", ValueError, C.integer_sqrt, -r.randint(1, 10**9))
    ctx.raises("integer_nth_root", ValueError, C.integer_nth_root, r.randint(1, 9), -r.randint(1, 10**9))
    ctx.raises("integer_nth_root", ValueError, C.integer_nth_root, -r.randint(0, 9), r.randint(1, 99))


@unit("N01")
def logs_bits(ctx):
    r = ctx.rng
    cases = [(b, n) for b in range(2, 12) for n in range(1, 130)]
    for b in [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 60, 97, 1000, 2**31, 10**20]:
        for k in range(1, 40):
            cases += [(b, b**k - 1), (b, b**k), (b, b**k + 1)]
    for _ in range(ctx.n(1500)):
        cases.append((r.choice((2, 3, 5, 10, r.getrandbits(12) + 2)), boundary_ints(r, 400) + 1))
    for b, n in cases:
        k = ctx.call("integer_log", C.integer_log, b, n)
        ctx.check(k >= 0 and b**k <= n < b**(k + 1), "integer_log", b, n, k)
    for n in list(range(-300, 301)) + list(ints(ctx, ctx.n(1500), 300)):
        ctx.eq(ctx.call("bit_count", C.bit_count, n), bin(abs(n)).count("1"), "bit_count %d" % n)
    ctx.raises("integer_log", ValueError, C.integer_log, r.choice((-3, 0, 1)), r.randint(1, 99))
    ctx.raises("integer_log", ValueError, C.integer_log, r.randint(2, 9), -r.randint(0, 99))


@unit("N01")
def valuations(ctx):
    r = ctx.rng
    cases = [(p, n) for p in range(2, 20) for n in range(-150, 151) if n]
    for _ in range(ctx.n(2500)):
        p = r.choice((2, 3, 4, 6, 10, 12, 101, 10007, r.getrandbits(20) + 2))
        e = r.choice((0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64))
        cases.append((p, r.choice((1, -1)) * p**e * (log_int(r, 1, 50) + 1)))
    for p, n in cases:
        ctx.eq(ctx.call("valuation", C.valuation, p, n), O.valuation(p, n), "valuation(%d,%d)" % (p, n))


# ------------------------------------------------------------------------------------- N02
@unit("N02")
def powers_inverses(ctx):
    r = ctx.rng
    for m in range(1, 31):
        for a in range(0, 34):
            for k in range(0, 9):
                ctx.eq(ctx.call("power_mod", C.power_mod, a, k, m), pow(a, k, m), "power_mod")
    for _ in range(ctx.n(2500)):
        m = max(1, boundary_ints(r, 120))
        a = r.choice((0, m, 2 * m, m - 1, boundary_ints(r, 130), boundary_ints(r, 20)))
        k = r.choice((0, 1, 2, r.getrandbits(8), r.getrandbits(60), 2**r.randint(0, 40)))
        ctx.eq(ctx.call("power_mod", C.power_mod, a, k, m), pow(a, k, m), "power_mod")
    for m in range(2, 60):
        for a in range(-30, 90):
            inv(ctx, a, m)
    for _ in range(ctx.n(4000)):
        m = max(2, boundary_ints(r, 150))
        a = r.choice((boundary_ints(r, 160), m - 1, m + 1, -boundary_ints(r, 100), smooth(r, 60)))
        inv(ctx, a, m)
    for m in (1, 0, -5):
        ctx.raises("inverse_mod", ValueError, C.inverse_mod, 3, m)
    for bad in ((-1, 2, 5), (2, -1, 5), (2, 3, 0), (2, 3, -4)):
        ctx.raises("power_mod", ValueError, C.power_mod, *bad)


def inv(ctx, a, m):
    if math.gcd(a, m) == 1:
        b = ctx.call("inverse_mod", C.inverse_mod, a, m)
        ctx.check(0 <= b < m and a * b % m == 1, "inverse_mod", a, m, b)
    else:
        ctx.raises("inverse_mod", ValueError, C.inverse_mod, a, m)


def coprime_moduli(r, k):
    ms, prod = [], 1
    while len(ms) < k:
        m = r.choice((1, 2, 3, 4, 5, 7, 8, 9, 11, 13, 16, 25, 27, r.getrandbits(8) + 1, r.getrandbits(40) + 1))
        if math.gcd(m, prod) == 1:
            ms.append(m)
            prod *= m
    return ms, prod


@unit("N02")
def crt(ctx):
    r = ctx.rng
    for i in range(ctx.n(1500)):
        ms, M = coprime_moduli(r, r.randint(1, 6))
        data = None
        if 1 not in ms[1:]:
            data = ctx.call("crt_preconditioning_data", C.crt_preconditioning_data, ms)
            ctx.eq(data[0], len(ms), "preconditioning: number of moduli")
            ctx.eq(data[4], M, "preconditioning: product")
        for _ in range(3):
            # residues are given unreduced and of both signs: the congruence class is what counts
            rs = [x % m if r.random() < .5 else x - 3 * m
                  for m, x in ((m, r.randrange(10 * m)) for m in ms)]
            cong = list(zip(rs, ms))
            x = ctx.call("chinese", C.chinese, cong)
            ctx.check(0 <= x < M and all((x - a) % m == 0 for a, m in cong), "chinese", cong, x)
            if data is not None:
                y = ctx.call("chinese_preconditioned", C.chinese_preconditioned, cong, data)
                ctx.check(y == x, "chinese_preconditioned differs from the unique solution", cong, y, x)
    for i in range(ctx.n(300)):
        g = r.choice((2, 3, 6, 35))
        ms = [g * r.randint(1, 20), r.choice((1, 5)) * g]
        cong = [(r.randrange(m), m) for m in ms] + [(0, 1)]
        r.shuffle(cong)
        ctx.raises("chinese", ValueError, C.chinese, cong)


@unit("N02", shards=2)
def jacobi(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        cases = [(a, m) for m in range(1, 120, 2) for a in range(-20, 2 * m + 3)]
    else:
        cases = []
        for _ in range(ctx.n(2500)):
            m = boundary_ints(r, 60) | 1
            if r.random() < .3:
                m = (r.getrandbits(20) | 1)**2
            cases.append((r.choice((boundary_ints(r, 80), m * r.randint(1, 5), -boundary_ints(r, 60), m - 1, 2, smooth(r, 30))), m))
    for a, m in cases:
        ctx.eq(ctx.call("jacobi_symbol", C.jacobi_symbol, a, m), O.jacobi(a, m), "jacobi(%d,%d)" % (a, m))
    for m in (2, 4, 100, 2**40):
        ctx.raises("jacobi_symbol", ValueError, C.jacobi_symbol, 3, m)
