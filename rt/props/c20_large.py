"""Algebra and combinatorics at sizes well above the exhaustive ranges: high degrees, long products, wide matrices,
deep enumerations, large counts and instances.  The small cases are decided elsewhere; these units watch for
behaviour that changes with size."""
import itertools
import math
from collections import Counter
from fractions import Fraction

from rt.core import unit
from rt.props import a01_algebra as A
from rt.props import c01_combinatorics as CC
from rt.props import c04_optimization as CO4
from rt.props.n20_large import size, short

from rosemary.algebra.matrices import matrices as MX
from rosemary.algebra.polynomials import algorithms as PA
from rosemary.algebra.polynomials import polynomials as PP
from rosemary.algebra.power_series import power_series as PS
from rosemary.combinatorics.enumeration import enumeration as E
from rosemary.combinatorics.generation import combinations as CO
from rosemary.combinatorics.generation import partitions as PT
from rosemary.combinatorics.generation import permutations as PM
from rosemary.combinatorics.generation import tuples as TU
from rosemary.combinatorics.optimization import exact_cover as EC
from rosemary.combinatorics.optimization import genetic_tsp as GT
from rosemary.combinatorics.optimization import knapsack as KN
from rosemary.combinatorics.optimization import tsp as TS
from rosemary.combinatorics.recreational import alphametics as AL
from rosemary.data_structures import bit_sieve as BS
from rosemary.data_structures import unionfind as UF
from rosemary import utilities as UT


# ------------------------------------------------------------------------------------- A01
@unit("A01")
def wide_matrices(ctx):
    r = ctx.rng
    for _ in range(ctx.n(6)):
        a, b, c = r.choice(((90, 90, 2), (3, 200, 90), (130, 4, 130), (70, 70, 70), (1, 900, 1), (300, 1, 40)))
        kind = r.choice(("small", "sparse", "big"))
        X, Y = A.entries(r, a, b, kind), A.entries(r, b, c, kind)
        mX, mY = ctx.call("Matrix", MX.Matrix, X), ctx.call("Matrix", MX.MatrixZZ, Y)
        T = list(zip(*Y))
        want = [[sum(map(int.__mul__, p, t)) for t in T] for p in X]
        A.same(ctx, ctx.call("mul", lambda x, y: x * y, mX, mY), want, "A * B (%dx%d times %dx%d)" % (a, b, b, c))
        A.same(ctx, ctx.call("rmul", mY.__rmul__, mX), want, "B.__rmul__(A) (%dx%d times %dx%d)" % (a, b, b, c))
        s = r.choice((0, -1, 3, 10**40, -2**700))
        A.same(ctx, ctx.call("scalar", lambda x, t: t * x, mX, s), [[x * s for x in p] for p in X], "scalar * A")
        A.same(ctx, ctx.call("neg", lambda x: -x, mX), [[-x for x in p] for p in X], "-A")
        Z = A.entries(r, a, b, "small")
        mZ = MX.Matrix(Z)
        A.same(ctx, ctx.call("add", lambda x, y: x + y, mX, mZ), [[x + y for x, y in zip(p, q)] for p, q in zip(X, Z)], "A + B")
        A.same(ctx, ctx.call("sub", lambda x, y: x - y, mX, mZ), [[x - y for x, y in zip(p, q)] for p, q in zip(X, Z)], "A - B")
    for bits in (40, 300, 1500):            # factors of any size: the determinant is the product of the pivots
        n = r.randint(8, 22)
        big = lambda: r.getrandbits(r.randint(1, bits)) * r.choice((1, -1))
        L = [[big() if j < i else int(i == j) for j in range(n)] for i in range(n)]
        U = [[big() if j > i else (r.getrandbits(bits) | 1 if i == j else 0) for j in range(n)] for i in range(n)]
        M = [[sum(map(int.__mul__, p, t)) for t in zip(*U)] for p in L]
        d = math.prod(U[i][i] for i in range(n))
        for _ in range(r.randint(0, 2)):
            i, j = r.sample(range(n), 2)
            M[i], M[j] = M[j], M[i]
            d = -d
        ctx.check(ctx.call("determinant", MX.Matrix(M).determinant) == d, "determinant of a %dx%d matrix with %d-bit factors" % (n, n, bits))
        k = r.randrange(n)
        M[k] = [sum(x) for x in zip(*(M[i] for i in range(n) if i != k))]
        ctx.eq(ctx.call("determinant", MX.Matrix(M).determinant), 0, "determinant of a singular %dx%d matrix with %d-bit factors" % (n, n, bits))
    for _ in range(ctx.n(20)):              # entries, and so pivots, of any magnitude
        n = r.randint(2, 7)
        tiny = lambda: Fraction(r.randint(-9, 9), 10**r.choice((0, 3, 12, 40)) * r.choice((1, 7)))
        M = [[tiny() if r.random() < .6 else Fraction(0) for _ in range(n)] for _ in range(n)]
        if r.random() < .5:
            M = [[x / 10**20 for x in row] for row in M]
        A.judge_det(ctx, M, MX.MatrixQQ)
    for _ in range(ctx.n(6)):
        a, b = r.randint(1, 9), r.randint(1, 9)
        M = [[r.getrandbits(r.choice((4, 200, 700))) * r.choice((1, -1)) for _ in range(b)] for _ in range(a)]
        text = ctx.call("repr", repr, MX.Matrix(M))
        ctx.check(A.repr_rows(text, int) == M and len({len(x) for x in text.split("\n")}) == 1, "repr with wide entries", short(M[0][0]))
    for n in (r.randint(61, 100), r.randint(61, 100)):
        A.det_of_product(ctx, r, n)
    for n in (40, 75, 120):
        A.det_far_pivots(ctx, r, n)


# ------------------------------------------------------------------------------------- A02
PRIMES = (2**61 - 1, 2**89 - 1, 2**31 - 1)


def coprime_mod(u, v, p):
    """gcd of u and v over GF(p) is constant (leading terms not vanishing): then they are coprime over Q."""
    u, v = A.trim([x % p for x in u]), A.trim([x % p for x in v])
    while v:
        inv = pow(v[-1], -1, p)
        while len(u) >= len(v):
            c, s = u[-1] * inv % p, len(u) - len(v)
            for i, x in enumerate(v):
                u[s + i] = (u[s + i] - c * x) % p
            u = A.trim(u)
        u, v = v, u
    return len(u) == 1


def primitive(u):
    c = math.gcd(*u) * (1 if u[-1] > 0 else -1)
    return [x // c for x in u]


@unit("A02", shards=2)
def high_degrees(ctx):
    r = ctx.rng

    def poly(n, kind):
        return A.coeffs(r, n, kind) + [r.choice((1, -1, 2, 3, -7))]
    if ctx.shard == 0:
        for _ in range(ctx.n(6)):
            n, m = size(r, 60, 1500), size(r, 2, 1500)
            X, Y = poly(n, r.choice(("small", "sparse", "big"))), poly(m, r.choice(("small", "sparse", "big", "nonneg")))
            if r.random() < .3:
                X = [x * r.choice((1, 10**60)) for x in X]
            f, g = PP.PolyZZ(X), PP.Polynomial(Y)
            ctx.check(f.degree == n and f.lead_coeff == X[-1], "degree", n)
            A.isP(ctx, ctx.call("mul", lambda x, y: x * y, f, g), A.p_mul(X, Y), "f * g (degrees %d, %d)" % (n, m))
            A.isP(ctx, ctx.call("mul", lambda x, y: x * y, g, f), A.p_mul(X, Y), "g * f (degrees %d, %d)" % (n, m))
            A.isP(ctx, ctx.call("add", lambda x, y: x + y, f, g), A.p_add(X, Y), "f + g")
            A.isP(ctx, ctx.call("sub", lambda x, y: x - y, g, f), A.p_add(Y, X, -1), "g - f")
            h = list(X)
            i = r.choice((0, n // 2, n - 1, r.randrange(n)))
            h[i] += r.choice((1, -1))
            ctx.check(not (f == PP.PolyZZ(h)) and f != PP.PolyZZ(h) and f == PP.PolyZZ(X), "degree %d: == when coefficient %d differs" % (n, i))
            low = [0] * (n - 4) + [1, 2]
            A.isP(ctx, ctx.call("sub", lambda x, y: x - y, f, PP.PolyZZ(X[:3] + [0] * (n - 2) + [X[-1]])),
                  A.p_add(X, X[:3] + [0] * (n - 2) + [X[-1]], -1), "f - g with the leading terms cancelling")
            A.isP(ctx, ctx.call("mul", lambda x, y: x * y, f, PP.PolyZZ(low)), A.p_mul(X, low), "f * (x^%d + 2 x^%d)" % (n - 4, n - 3))
            for x in (2, -1, 10**30, Fraction(-2, 3)):
                if abs(x) in (1, 2) or n < 300:
                    ctx.check(ctx.call("call", f, x) == sum(c * x**i for i, c in enumerate(X)), "degree %d evaluated at %s" % (n, x))
            s = ctx.call("repr", repr, f)
            ctx.check(s.count("x") == sum(1 for c in X[1:] if c), "repr of degree %d" % n)
            ctx.check(eval(s.replace("^", "**"), {"x": -1}) == sum(c * (-1)**i for i, c in enumerate(X)) if n < 80 else True, "repr of degree %d evaluated" % n)
        for _ in range(ctx.n(5)):
            X = r.choice((poly(r.randint(10, 60), "small"), poly(2, "big"), [0] * 40 + poly(3, "small"), [10**20, 1], [-1, 0, 0, 0, 0, 0, 0, 1]))
            k = r.choice((7, 8, 12, 25)) if len(X) > 4 else r.choice((131, 200, 257))
            A.isP(ctx, ctx.call("pow", lambda x, e: x**e, PP.PolyZZ(X), k), power(A.trim(X), k), "degree %d ** %d" % (len(X) - 1, k))
            A.isP(ctx, ctx.call("power_binary", PP.PolyZZ(X).power_binary, k), power(A.trim(X), k), "degree %d power_binary %d" % (len(X) - 1, k))
    else:
        for _ in range(ctx.n(12)):
            m, n = size(r, 15, 250), size(r, 5, 120)
            kind = r.choice(("small", "sparse", "big"))
            D = A.coeffs(r, n, kind) + [r.choice((1, -1))]
            U = poly(m, kind)
            q, rem = ctx.call("quo_rem", PP.PolyZZ(U).quo_rem, PP.PolyZZ(D))
            qc, rc = A.trim(q.coefficients()), A.trim(rem.coefficients())
            ctx.check(A.trim(A.p_add(A.p_mul(qc, D), rc)) == U and len(rc) < len(D), "quo_rem, degrees %d and %d, monic" % (m, n))
            D[-1] = r.choice((2, -3, 10**20))
            P = A.p_mul(U, D)
            q, rem = ctx.call("quo_rem exact", PP.PolyZZ(P).quo_rem, PP.PolyZZ(D))
            A.isP(ctx, q, U, "quo_rem of a product of degrees %d and %d" % (m, n))
            A.isP(ctx, rem, [0], "quo_rem of a product of degrees %d and %d: remainder" % (m, n))
            P[0] += 1
            q, rem = ctx.call("quo_rem exact", PP.PolyZZ(P).quo_rem, PP.PolyZZ(D))
            A.isP(ctx, q, U, "quo_rem of a product plus one")
            A.isP(ctx, rem, [1], "quo_rem of a product plus one: remainder")
        for _ in range(ctx.n(8)):
            m, n = size(r, 15, 70), size(r, 5, 40)
            U, V = poly(m, "small"), poly(n, "small")
            q, rem = ctx.call("pseudo_quo_rem", PP.PolyZZ(U).pseudo_quo_rem, PP.PolyZZ(V))
            l = V[-1]**(m - n + 1) if m >= n else 1
            rc = A.trim(rem.coefficients())
            ctx.check(A.trim(A.p_add(A.p_mul(A.trim(q.coefficients()), V), rc)) == [l * x for x in U] and (m < n or len(rc) <= n),
                      "pseudo_quo_rem, degrees %d and %d" % (m, n), U, V)
        for _ in range(ctx.n(60)):
            # built from its remainder sequence: the degrees may fall by any amount at each step
            C = primitive(poly(r.choice((0, 0, 1, 2, 5)), r.choice(("small", "sparse"))))
            lead = lambda: [(r.getrandbits(r.choice((1, 1, 30, 36))) | 1) * r.choice((1, -1))]
            u, v = A.p_mul(C, poly(r.randint(0, 3), "small")[:-1] + lead()), C
            for _ in range(r.randint(1, 3)):
                u, v = A.p_add(A.p_mul(u, poly(r.choice((1, 1, 2, 3, 5, 8, 12)), r.choice(("small", "sparse")))[:-1] + lead()), [r.choice((1, -1, 3)) * x for x in v]), u
            if r.random() < .5:
                u, v = [r.choice((1, -6)) * x for x in v], u
            want = A.zz_gcd(u, v)
            A.isP(ctx, ctx.call("gcd", PP.PolyZZ(u).gcd, PP.PolyZZ(v)), want, "gcd of %s and %s" % (u, v))
            ctx.count("gcds with chosen degree steps", 1)
        for _ in range(ctx.n(8)):
            C = primitive(poly(r.choice((0, 1, 6, 14, 25)), r.choice(("small", "sparse"))))
            U, V = primitive(poly(size(r, 3, 30), "small")), primitive(poly(size(r, 3, 30), "small"))
            if not any(U[-1] % p and V[-1] % p and coprime_mod(U, V, p) for p in PRIMES):
                continue
            c = r.choice((1, 1, 6, 10**25))
            u, v = r.choice((1, 2, 35)), r.choice((1, 3, 11))
            f, g = PP.PolyZZ([c * u * x for x in A.p_mul(C, U)]), PP.PolyZZ([c * v * x for x in A.p_mul(C, V)])
            A.isP(ctx, ctx.call("gcd", f.gcd, g), [c * x for x in C], "gcd with a common factor of degree %d" % (len(C) - 1))
            ctx.eq(ctx.call("content", f.content), c * u, "content")
            A.isP(ctx, ctx.call("primitive_part", f.primitive_part), A.p_mul(C, U), "primitive_part")


# ------------------------------------------------------------------------------------- A03
@unit("A03", shards=2)
def long_series(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        for _ in range(ctx.n(8)):
            m, n = size(r, 100, 1300), r.choice((28, 29, 30, 31, 39, 40, 41, 64, 65, 127, 128, 129, size(r, 200, 1300)))
            if r.random() < .5:
                m, n = n, m
            kind = r.choice(("small", "sparse", "big", "nonneg"))
            X, Y = A.coeffs(r, m, kind), A.coeffs(r, n, kind)
            P = A.p_mul(X, Y)
            A.padded(ctx, ctx.call("mul_karatsuba", PA.mul_karatsuba, X, Y), P, "mul_karatsuba %d x %d" % (m, n))
            t = r.choice((2, 3, 10, 40, 64, 100, 500, 5000))
            A.padded(ctx, ctx.call("ps_mult_karatsuba", PS.ps_mult_karatsuba, X, Y, t), P, "ps_mult_karatsuba %d x %d threshold %d" % (m, n, t))
            A.padded(ctx, ctx.call("ps_mult_karatsuba", PS.ps_mult_karatsuba, X, Y), P, "ps_mult_karatsuba %d x %d" % (m, n))
            ctx.check(ctx.call("list_add", PA.list_add, X, Y) == A.p_add(X, Y) and ctx.call("list_subtract", PA.list_subtract, X, Y) == A.p_add(X, Y, -1),
                      "list_add/list_subtract %d, %d" % (m, n))
            if m * n < 400000:
                ctx.check(ctx.call("mul_classical", PA.mul_classical, X, Y) == P, "mul_classical %d x %d" % (m, n))
                ctx.check(ctx.call("ps_mult_classical", PS.ps_mult_classical, X, Y) == P, "ps_mult_classical %d x %d" % (m, n))
        for C, k in (([r.choice((1, 2, -3)), r.choice((1, -1, 5))], r.randint(200, 700)), ([1, 1, 1], r.randint(100, 300)),
                     ([0] * 9 + [2, 0, -1], r.randint(50, 120)), (A.coeffs(r, 90, "small") + [1], 6), (A.coeffs(r, 8, "big") + [1], 20),
                     ([r.getrandbits(200), 1, -r.getrandbits(90)], 31), (A.coeffs(r, 400, "sparse") + [1], 2)):
            got = ctx.call("power_jcp", PA.power_jcp, C, k)
            ctx.check(A.trim(got) == A.trim(power(C, k)), "power_jcp of %d coefficients to the %d" % (len(C), k), C if len(C) < 10 else "")
    else:
        for kind in ("small", "big", "nonneg"):
            n = r.randint(150, 320)
            X = [r.choice((1, -1))] + A.coeffs(r, n - 1, kind)
            B = ctx.call("ps_invert", PS.ps_invert, X)
            ctx.check(len(B) == n and A.p_mul(X, B)[:n] == [1] + [0] * (n - 1), "ps_invert of %d terms" % n)
            k = r.choice((2, 3, 17, 100, 500))
            n = min(n, 200 if k < 50 else 90)
            C = [r.choice((1, -1, 2, 10**6))] + X[1:n]
            ctx.check(ctx.call("ps_power", PS.ps_power, C, k) == (A.p_pow(C, k, n) + [0] * n)[:n], "ps_power of %d terms to the %d" % (n, k))
        N = r.randint(30000, 90000)
        eta = A.euler_product(N + 1)
        ctx.check(ctx.call("eta_series", PS.eta_series, N) == eta[:N], "eta_series(%d)" % N)
        for m in range(90, 110):
            g = m * (3 * m - r.choice((1, -1))) // 2
            ctx.check(ctx.call("eta_series", PS.eta_series, g + 1) == eta[:g + 1], "eta_series(%d)" % (g + 1))
        n = r.randint(500, 900)
        ctx.check(ctx.call("delta_series", PS.delta_series, n) == A.p_pow(eta[:n], 24, n), "delta_series(%d)" % n)


# ------------------------------------------------------------------------------------- C01
def count_words(m, k):
    """Distinct arrangements of length k of a multiset, by exponential generating function."""
    p = [Fraction(1)]
    for c in Counter(m).values():
        q = [Fraction(1, math.factorial(i)) for i in range(c + 1)]
        p = [sum(p[i] * q[j - i] for i in range(len(p)) if 0 <= j - i < len(q)) for j in range(min(k, len(p) + len(q) - 2) + 1)]
    return int(p[k] * math.factorial(k)) if k < len(p) else 0


@unit("C01", shards=4)
def deep_enumeration(ctx):
    """Whole enumerations of tens of thousands of items."""
    r = ctx.rng
    i = ctx.shard

    def sweep(label, fn, args, want_len, ordered, ok):
        out = ctx.call(label, CC.drain(fn, want_len + 2), *args)
        ctx.eq(len(out), want_len, "%s%r: number of items" % (label, args))
        if ordered:
            ctx.check(all(a < b for a, b in zip(out, out[1:])), "%s%r: not in increasing order" % (label, args))
        else:
            ctx.eq(len({tuple(sorted(x)) for x in out}), want_len, "%s%r: items repeat" % (label, args))
        ctx.check(all(map(ok, out)), "%s%r: an item is malformed" % (label, args))
        ctx.count("items enumerated", want_len)

    if i < 2:
        for _ in range(ctx.n(2)):
            m = r.choice((list(range(8)), [0, 0, 1, 1, 2, 2, 3, 3, 4], [5] * 7 + [1] * 7 + [2] * 2, [1] * 9 + [0] * 9, list(range(7)) + [6, 6]))
            r.shuffle(m)
            s = sorted(m)
            name = ("phillips", "knuth_algorithm_l")[i]
            w = count_words(m, len(m))
            sweep(name, getattr(PM, name), (m,), w, True, lambda x: sorted(x) == s)
    elif i == 2:
        for _ in range(ctx.n(2)):
            m = r.choice((list(range(9)), [0, 0, 1, 1, 2, 2, 3, 4, 5], [5] * 5 + [1] * 4 + [2] * 4 + [0], [1] * 12 + [0] * 12))
            r.shuffle(m)
            k = r.choice([k for k in range(1, len(m)) if 2000 < count_words(m, k) < 70000] or [2])
            c = Counter(m)
            sweep("knuth_algorithm_l_rvariations", PM.knuth_algorithm_l_rvariations, (m, k), count_words(m, k), True,
                  lambda x: len(x) == k and not Counter(x) - c)
        m = r.choice((list(range(7)), [0, 0, 1, 1, 2, 2, 3, 3], [7] * 8 + [4] * 6))
        r.shuffle(m)
        c = Counter(m)
        sweep("knuth_algorithm_l_variations", PM.knuth_algorithm_l_variations, (m,), sum(count_words(m, k) for k in range(len(m) + 1)), True,
              lambda x: not Counter(x) - c)
    else:
        for n, t in ((18, r.choice((8, 9, 10))), (24, r.choice((5, 19))), (r.randint(60, 70), 3), (300, 2)):
            sweep("combinations", CO.combinations, (n, t), math.comb(n, t), False, lambda x: len(set(x)) == len(x) == t and 0 <= min(x) and max(x) < n)
        for n, t in ((r.randint(300, 420), r.randint(257, 299)), (r.randint(260, 400), 130), (500, 499)):
            out = ctx.call("combinations", CC.drain(CO.combinations, 300), n, t)
            ctx.eq(len(out), 300, "combinations(%d, %d): items" % (n, t))
            ctx.eq(len({tuple(sorted(x)) for x in out}), 300, "combinations(%d, %d): distinct" % (n, t))
            ctx.check(all(len(x) == len(set(x)) == t and 0 <= min(x) and max(x) < n for x in out), "combinations(%d, %d): an item is malformed" % (n, t))
        n = r.randint(13, 15)
        sweep("n_tuples", TU.n_tuples, (n,), 2**n, True, lambda x: len(x) == n and set(x) <= {0, 1})
        M = [r.randint(1, 6) for _ in range(9)]
        while math.prod(M) > 60000:
            M[r.randrange(9)] = 1
        sweep("n_tuples", TU.n_tuples, (9, M), math.prod(M), True, lambda x: len(x) == 9 and all(0 <= a < b for a, b in zip(x, M)))


# ------------------------------------------------------------------------------------- C02
def count_parts(n, parts, distinct, k):
    """Number of partitions of n into the given parts (k of them if k)."""
    if not k:
        p = [1] + [0] * n
        for m in parts:
            for s in (range(n, m - 1, -1) if distinct else range(m, n + 1)):
                p[s] += p[s - m]
        return p[n]
    p = [[0] * (k + 1) for _ in range(n + 1)]
    p[0][0] = 1
    for m in parts:
        for s in (range(n, m - 1, -1) if distinct else range(m, n + 1)):
            for j in range(1, k + 1):
                p[s][j] += p[s - m][j - 1]
    return p[n][k]


@unit("C02", shards=3)
def deep_partitions(ctx):
    r = ctx.rng
    f = PT.integer_partitions

    def sweep(n, want_len, parts=None, distinct=False, k=0):
        kw = {}
        if parts is not None:
            kw["parts"] = parts
        if distinct:
            kw["distinct"] = True
        if k:
            kw["num_parts"] = k
        L = ctx.call("integer_partitions", CC.drain(f, want_len + 2), n, **kw)
        CC.ok(ctx, L, n, want_len)
        ctx.check(not k or all(len(x) == k for x in L), "num_parts=%d" % k, n)
        ctx.check(not distinct or all(len(set(x)) == len(x) for x in L), "distinct partitions repeat a part", n)
        if parts is not None:
            s = set(parts)
            ctx.check(all(s.issuperset(x) for x in L), "parts outside the given set", n, parts)
        ctx.count("partitions enumerated", want_len)

    if ctx.shard == 0:
        n = r.randint(40, 46)
        sweep(n, count_parts(n, range(1, n + 1), False, 0))
        n = r.randint(55, 75)
        sweep(n, count_parts(n, range(1, n + 1), True, 0), distinct=True)
        n, k = r.randint(50, 60), r.randint(5, 8)
        sweep(n, count_parts(n, range(1, n + 1), True, k), distinct=True, k=k)
    elif ctx.shard == 1:
        for n, k in ((r.randint(50, 60), r.randint(6, 12)), (r.randint(300, 500), 3), (r.randint(100, 120), 4), (r.randint(50, 60), r.randint(25, 35))):
            w = count_parts(n, range(1, n + 1), False, k)
            if w < 90000:
                sweep(n, w, k=k)
    else:
        for _ in range(ctx.n(8)):
            n = r.choice((100, 150, 200, 365))
            parts = r.choice(([1, 2, 5, 10, 20, 50, 100], [1, 5, 10, 25, 50, 100], [3, 5, 7, 11, 13, 29], [p for p in range(2, 80) if all(p % q for q in range(2, p))],
                              r.sample(range(4, 60), 20)))
            d = r.random() < .4
            k = r.choice((0, 0, 4, 9))
            parts = list(parts)
            r.shuffle(parts)
            w = count_parts(n, parts, d, k)
            if w > 40000:
                n //= 3
                w = count_parts(n, parts, d, k)
            if w < 40000 and count_parts(n, parts, d, 0) < 10**5:
                sweep(n, w, parts, d, k)


# ------------------------------------------------------------------------------------- C03
@unit("C03", shards=3)
def large_enumerations(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        N = 320
        tri, bell = [1], [1]
        for n in range(1, N + 1):
            nxt = [tri[-1]]
            for x in tri:
                nxt.append(nxt[-1] + x)
            tri = nxt
            bell.append(tri[0])
        for n in [61, 64, 99, 100, 101, 128, 199, 200, 201, 256, 257, N] + [r.randint(61, N) for _ in range(6)]:
            ctx.check(ctx.call("bell_number", E.bell_number, n) == bell[n], "bell_number(%d)" % n)
        for _ in range(ctx.n(14)):
            n = size(r, 26, 300)
            k = r.choice((1, 2, 3, n // 3, n // 2, n - 2, n - 1, n, n + 1, r.randint(1, n)))
            w = sum((-1)**(k - j) * math.comb(k, j) * j**n for j in range(k + 1)) // math.factorial(k)
            ctx.check(ctx.call("stirling_number2", E.stirling_number2, n, k) == w, "stirling_number2(%d, %d)" % (n, k))
        for _ in range(ctx.n(60)):
            n = r.choice((size(r, 3000, 20000), 10**9 + r.randint(-5, 5), r.getrandbits(70) | 1 << 69, r.getrandbits(300) | 1 << 299, 2**r.randint(20, 200)))
            k = r.choice((0, 1, 2, 3, 17, 60, 200))
            if n > 10**9 and r.random() < .5:
                k = n - k if n < 10**6 else k
            elif n < 10**6:
                k = r.choice((k, n - k, n // 2, n - 1, n, n + 1, r.randint(0, n)))
            ctx.check(ctx.call("binomial", E.binomial, n, k) == math.comb(n, k), "binomial(%s, %d)" % (short(n), k))
        for _ in range(ctx.n(40)):
            n = size(r, 40, 4000)
            ks, left = [], n
            top = r.choice((1, 3, 40, 700, n))
            while left and r.random() < .98:
                ks.append(r.randint(0 if r.random() < .1 else 1, min(top, left)))
                left -= ks[-1]
            if not ks:
                continue
            w = math.factorial(n)
            for k in ks:
                w //= math.factorial(k)
            ctx.check(ctx.call("multinomial", E.multinomial, n, ks) == w, "multinomial(%d, %d parts)" % (n, len(ks)), ks[:20])
            ctx.raises("multinomial", ValueError, E.multinomial, n, ks + [left + 1])
    elif ctx.shard == 1:
        N = r.choice((3000, 4200, 6000))
        P = ctx.call("partition_list", E.partition_list, N)
        # the generating function is the reciprocal of Euler's product: the identity fixes every coefficient
        ctx.check(len(P) == N + 1 and A.p_mul(P, A.euler_product(N + 1))[:N + 1] == [1] + [0] * N, "partition_list(%d)" % N)
        for n in (r.randint(401, N), 500, 1000, 1024, 2000, r.randint(1000, N)):
            ctx.check(ctx.call("partition_number", E.partition_number, n) == P[n], "partition_number(%d)" % n)
        for rr, n in ((r.randint(16, 40), r.randint(61, 160)), (r.randint(50, 300), r.randint(40, 120)), (24, 200), (r.randint(2, 9), r.randint(161, 300)), (10**6, 12)):
            w = pow_series(P[:n + 1], rr, n + 1)[n]
            ctx.check(ctx.call("rth_power_partition_number", E.rth_power_partition_number, rr, n) == w, "p_%d(%d)" % (rr, n))
        m0, n0 = r.choice(((30, 30), (50, 12), (13, 45), (24, 40)))
        p = [[0] * (n0 + 1) for _ in range(m0 + 1)]
        p[0][0] = 1
        for i in range(m0 + 1):           # logarithmic derivative of the product over all vector parts
            for j in range(n0 + 1):
                if i + j:
                    x = i or j
                    p[i][j] = sum(sig(a, b, i != 0) * p[i - a][j - b] for a in range(i + 1) for b in range(j + 1) if (a if i else b)) // x
        for i, j in [(m0, n0), (n0 // 2, m0 // 3), (min(m0, n0),) * 2, (0, n0), (m0, 0), (m0, 1)] + [(r.randint(0, m0), r.randint(0, n0)) for _ in range(3)]:
            if i <= m0 and j <= n0:
                ctx.check(ctx.call("bipartitions", E.bipartitions, i, j) == p[i][j], "bipartitions(%d, %d)" % (i, j))
    else:
        for m, n in ((1, 240), (301, 1), (2, 19), (130, 2), (50, 3), (30, 4), (r.choice((62, 64, 90)), 2)):
            ctx.check(ctx.call("number_of_domino_tilings", E.number_of_domino_tilings, m, n) == CC.domino_profile(m, n), "domino tilings %dx%d" % (m, n))
        for m, n in ((1, 120), (151, 1), (36, 2), (2, 51), (20, 3), (3, 23), (10, 4)):
            ctx.check(ctx.call("triomino_tilings", E.triomino_tilings, m, n) == CC.triomino_count(max(m, n), min(m, n)), "triomino tilings %dx%d" % (m, n))
        for _ in range(ctx.n(60)):
            n, k = r.choice((size(r, 60, 3000), 720, 1024, 2310, 2520, 997)), r.choice((2, 3, 10, 31, 10**6, r.getrandbits(80) | 3))
            by = Counter(math.gcd(n, i) for i in range(n))
            ctx.check(ctx.call("necklaces", E.necklaces, n, k) == sum(c * k**g for g, c in by.items()) // n, "necklaces(%d, %s)" % (n, short(k)))
            g = r.choice((1, 2, 6, 12, 30, 60, 97))
            ws = [g * r.randint(1, 12) for _ in range(r.randint(1, 12))]
            n = sum(ws)
            tot = 0
            for d, c in Counter(math.gcd(n, i) for i in range(n)).items():
                L = n // d
                if all(x % L == 0 for x in ws):
                    t = math.factorial(d)
                    for x in ws:
                        t //= math.factorial(x // L)
                    tot += c * t
            ctx.check(ctx.call("necklaces/w", E.necklaces, n, len(ws), ws) == tot // n, "necklaces with weights %s" % ws)


def sig(a, b, first):
    """Sum of i over the vectors (i, j) that divide (a, b): (a, b) = k (i, j)."""
    g = math.gcd(a, b)
    return sum((a if first else b) // k for k in range(1, g + 1) if g % k == 0)


def power(P, k):
    return pow_series(P, k, len(P) * k + 1)


def pow_series(P, k, n):
    out = [1]
    sq = list(P)
    while k:
        if k & 1:
            out = A.p_mul(out, sq)[:n]
        k >>= 1
        if k:
            sq = A.p_mul(sq, sq)[:n]
    return out


# ------------------------------------------------------------------------------------- C04
@unit("C04", shards=3)
def many_items(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        for _ in range(ctx.n(8)):
            items, cap = CO4.make_items(r, size(r, 41, 160))
            cap = min(cap, 1500)
            value, used = ctx.call("dynamic_programming", KN.dynamic_programming, items, cap)
            CO4.feasible(ctx, "dynamic_programming", value, [tuple(t) for t in used], items, cap, CO4.knapsack_opt(items, cap))
        items = [(v * 10**12 + r.randint(0, 9), w) for v, w in CO4.make_items(r, 50)[0]]
        cap = sum(w for _, w in items) // 3
        value, used = ctx.call("dynamic_programming", KN.dynamic_programming, items, cap)
        CO4.feasible(ctx, "dynamic_programming", value, [tuple(t) for t in used], items, cap, CO4.knapsack_opt(items, cap))
    elif ctx.shard == 1:
        for _ in range(ctx.n(8)):
            # few items fit together, so that the search is short whatever their number
            n = size(r, 25, 70)
            w0 = r.choice((30, 10**9))
            items = [(r.randint(1, w0), r.randint(w0, 2 * w0)) for _ in range(n)]
            cap = r.randint(2 * w0, 3 * w0 - 1)
            value, used = ctx.call("depth_first", KN.depth_first, items, cap)
            CO4.feasible(ctx, "depth_first", value, [tuple(t[:2]) for t in used], items, cap, CO4.knapsack_opt(items, cap))
        items, cap = CO4.make_items(r, 15)
        value, used = ctx.call("depth_first", KN.depth_first, items, cap)
        CO4.feasible(ctx, "depth_first", value, [tuple(t[:2]) for t in used], items, cap, CO4.knapsack_opt(items, cap))
        for _ in range(ctx.n(14)):
            # the items of best ratio fill the knapsack exactly: the bound is met at once
            n = size(r, 23, 300)
            s = r.choice((1, 10**20))
            items = [(r.randint(1, 60) * s, r.randint(1, 60)) for _ in range(n)]
            order = sorted(items, key=lambda t: Fraction(t[0], t[1]), reverse=True)
            k = r.choice((n, n - 1, n // 2, 1, r.randint(1, n)))
            # ties in ratio may be taken in any order: fill up to a whole class of ratios
            while k < n and order[k][0] * order[k - 1][1] == order[k - 1][0] * order[k][1]:
                k += 1
            cap = sum(w for _, w in order[:k])
            opt = sum(v for v, _ in order[:k])
            r.shuffle(items)
            value, used = ctx.call("branch_and_bound_depth_first", KN.branch_and_bound_depth_first, items, cap)
            CO4.feasible(ctx, "branch_and_bound", value, [tuple(t[:2]) for t in used], items, cap, opt)
    else:
        for n in (14, 40):
            items = [(r.randint(1, 10**6), r.randint(1, 60)) for _ in range(n)]
            cap = sum(w for _, w in items) // 3
            value, bits = ctx.call("simulated_annealing", KN.simulated_annealing, items, cap)
            ctx.check(len(bits) == len(items) and set(bits) <= {0, 1}, "selection is not a 0/1 list", bits)
            ctx.eq(sum(b * it[0] for b, it in zip(bits, items)), value, "selection value")
            ctx.check(sum(b * it[1] for b, it in zip(bits, items)) <= cap, "over capacity", bits)
            ctx.check(value <= CO4.knapsack_opt(items, cap), "value above the optimum", value)


# ------------------------------------------------------------------------------------- C05
@unit("C05", shards=3)
def long_tours(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        for _ in range(ctx.n(3)):
            a, k, dm = CO4.problem(r, r.choice((10, 11)), symmetric=r.random() < .6)
            v, p = ctx.call("branch_and_bound", TS.branch_and_bound, *a, **k)
            CO4.judge_tour(ctx, "branch_and_bound", v, p, dm, CO4.held_karp(dm), True)
        a, k, dm = CO4.problem(r, 8, symmetric=r.random() < .5)
        v, p = ctx.call("depth_first", TS.depth_first, *a, **k)
        CO4.judge_tour(ctx, "depth_first", v, p, dm, CO4.held_karp(dm), True)
    elif ctx.shard == 1:
        for n in (26, 45, 70):
            a, k, dm = CO4.problem(r, n)
            v, p = ctx.call("farthest_insertion", TS.farthest_insertion, *a, **k)
            CO4.judge_tour(ctx, "farthest_insertion", v, p, dm)
            e = ctx.call("farthest_insertion edges", TS.farthest_insertion, *a, edges=True, **k)
            ctx.check(len(e) == n and CO4.close(math.fsum(dm[x][y] for x, y in e), v), "edges form another tour")
            ref = None if k else CO4.farthest_reference(dm)
            if ref is not None:
                ctx.count("farthest insertion steps replayed", n)
                ctx.check(CO4.close(v, ref), "not the farthest-insertion tour", v, ref)
            for name in ("steepest_ascent_two_opt", "two_opt"):
                v, p = ctx.call(name, getattr(TS, name), *a, **k)
                CO4.judge_tour(ctx, name, v, p, dm)
                CO4.two_opt_optimal(ctx, name, p, dm)
        n = 180
        a, k, dm = CO4.problem(r, n)
        v, p = ctx.call("farthest_insertion", TS.farthest_insertion, *a, **k)
        CO4.judge_tour(ctx, "farthest_insertion", v, p, dm)
        for _ in range(30):
            path = list(range(n))
            r.shuffle(path)
            q = ctx.call("random_two_opt", TS.random_two_opt, path)
            ctx.eq(sorted(q), list(range(n)), "random_two_opt: not a permutation")
            und = lambda t: {frozenset((t[i - 1], t[i])) for i in range(len(t))}
            ctx.check(len(und(q) - und(path)) <= 2, "random_two_opt exchanges more than two edges", path, q)
    else:
        n = r.choice((40, 60))
        pts = CO4.make_points(r, n)
        dm = CO4.dist_matrix(pts)
        t = ctx.call("TravelingSalesman", GT.TravelingSalesman, pts)
        for _ in range(4):
            path = list(range(n))
            r.shuffle(path)
            v, q = ctx.call("two_opt", t.two_opt, path)
            CO4.judge_tour(ctx, "genetic two_opt", v, q, dm)
            ctx.check(v <= CO4.tour_cost(path, dm) + 1e-6, "two_opt made the tour longer")
        X, Y = list(range(n)), list(range(n))
        r.shuffle(X)
        r.shuffle(Y)
        for v, q in ctx.call("mgkrec", t.mgkrec, X, Y):
            CO4.judge_tour(ctx, "mgkrec", v, q, dm)
        v, q = ctx.call("solve", t.solve, 4, 3)
        CO4.judge_tour(ctx, "genetic solve", v, q, dm)
        n = 12
        t = ctx.call("TravelingSalesman", GT.TravelingSalesman, pts[:n])
        v, q = ctx.call("solve", t.solve, 10, 25)
        CO4.judge_tour(ctx, "genetic solve", v, q, CO4.dist_matrix(pts[:n]))


# ------------------------------------------------------------------------------------- C06
def covers_by_lowest(target, rows, cap):
    """Exact covers found by always covering the first open element; None when more than cap."""
    bit = {x: 1 << i for i, x in enumerate(target)}
    by = [[] for _ in bit]
    for i, s in enumerate(rows):
        m = sum(bit[x] for x in s)
        by[(m & -m).bit_length() - 1].append((i, m))
    full = (1 << len(bit)) - 1
    out, stack, steps = [], [(0, ())], 0
    while stack:
        acc, used = stack.pop()
        steps += 1
        if steps > 60000 or len(out) > cap:
            return None
        if acc == full:
            out.append(used)
            continue
        low = (~acc & (acc + 1)).bit_length() - 1
        for i, m in by[low]:
            if not acc & m:
                stack.append((acc | m, used + (i,)))
    return out


@unit("C06", shards=3)
def large_covers(ctx):
    r = ctx.rng
    if ctx.shard < 2:
        for _ in range(ctx.n(10)):
            m = size(r, 17, 150)
            universe = list(range(m)) if r.random() < .5 else ["e%d" % i for i in range(m)]
            r.shuffle(universe)
            rows, top = [], r.choice((1, 3, 6, 12))
            for _ in range(r.randint(1, 4 if top > 3 else 2)):
                u = list(universe)
                if r.random() < .6:
                    # share long blocks with the previous covers
                    u.sort(key=universe.index)
                else:
                    r.shuffle(u)
                while u:
                    k = r.randint(1, min(top, len(u)))
                    rows.append(u[:k])
                    u = u[k:]
            for _ in range(r.randint(0, 20)):
                rows.append(r.sample(universe, r.randint(2, 7)))
            r.shuffle(rows)
            got = covers_by_lowest(universe, rows, 400)
            if got is None:
                continue
            want = Counter(tuple(sorted(tuple(sorted(rows[j])) for j in c)) for c in got)
            ctx.count("rows in large covers", len(rows))
            name = ("algorithmx", "algorithm_dlx")[ctx.shard]
            sols = ctx.take(name, sum(want.values()) + 2, getattr(EC, name), universe, rows)
            ctx.check(Counter(tuple(sorted(tuple(sorted(s)) for s in sol)) for sol in sols) == want, "%s: %d solutions, %d exist" % (name, len(sols), sum(want.values())), universe, rows)
            bit = {x: 1 << i for i, x in enumerate(universe)}
            ints = [sum(bit[x] for x in s) for s in rows]
            e = ctx.call("ExactCoverBinary", EC.ExactCoverBinary, ints)
            ctx.eq(ctx.call("number_of_solutions", e.number_of_solutions), sum(want.values()), "number_of_solutions")
            sols = ctx.take("solutions", sum(want.values()) + 2, e.solutions)
            ctx.check(Counter(tuple(sorted(s)) for s in sols) == Counter(tuple(sorted(ints[j] for j in c)) for c in got), "binary solutions")
            e = ctx.call("ExactCover", EC.ExactCover, {i: set(s) for i, s in enumerate(rows)})
            ctx.check(set(e.universe) == set(universe) and e.num_cols == m, "universe of %d elements" % m)
    else:
        for _ in range(ctx.n(20)):
            # rows that cover long stretches: universes and counts beyond any machine word
            m = size(r, 30, 260)
            rows = set()
            for _ in range(r.randint(m // 2, 6 * m)):
                a = r.randrange(m)
                b = r.choice((a + 1, min(m, a + r.randint(1, 6)), r.randint(a + 1, m), m))
                rows.add((a, b))
            rows |= {(i, i + 1) for i in range(m)} if r.random() < .7 else {(0, m)}
            rows = list(rows)
            if r.random() < .4:
                rows += rows[:r.randint(1, len(rows))]       # repeated rows count apart
            ways = [1] + [0] * m
            for a, b in sorted(rows):
                ways[b] += ways[a]
            r.shuffle(rows)
            e = ctx.call("ExactCoverBinary", EC.ExactCoverBinary, [(1 << b) - (1 << a) for a, b in rows])
            ctx.eq(ctx.call("number_of_solutions", e.number_of_solutions), ways[m], "number_of_solutions over %d elements" % m)
            if ways[m] >> 64:
                ctx.count("cover counts beyond 64 bits")
            first = ctx.take("solutions", 40, e.solutions)
            ctx.eq(len(first), min(40, ways[m]), "binary solutions over %d elements" % m)
            have = Counter((1 << b) - (1 << a) for a, b in rows)
            for sol in first:
                ctx.check(sum(sol) == (1 << m) - 1 and not Counter(sol) - have, "a binary solution is not a cover by the given rows", sol)
        for n in (10, 11):
            ctx.eq(ctx.call("langford_pairings", EC.langford_pairings, n), {10: 0, 11: 17792}[n], "langford_pairings(%d)" % n)
        for n in (9, 10):
            ctx.eq(ctx.call("domino_tilings", EC.domino_tilings, n), CO4.tilings(n), "domino_tilings(%d)" % n)


# ------------------------------------------------------------------------------------- C07
@unit("C07", shards=2)
def long_words(ctx):
    """Words far longer than the numbers machine words hold; many addends; both sides sums."""
    r = ctx.rng
    for _ in range(ctx.n(10)):
        digits = r.sample(range(10), r.randint(2, 8))
        letters = r.sample("abcdefghijklmnopqrstuvwxyzABCDEFGHIJ", 10)
        x = None
        for _ in range(300):
            L = size(r, 6, 140)
            a = [int("".join(str(r.choice(digits)) for _ in range(r.randint(1, L)))) for _ in range(r.choice((1, 1, 2, 3)))]
            if r.random() < .6:             # zones: letters that occur only far to the left
                z = r.randint(1, L)
                a = [v * 10**z for v in a]
                a[0] += r.choice(digits) * (10**r.randint(0, z) // 9)
            t = sum(a)
            if len(a) == 1 or r.random() < .3:
                b = [t]
            else:
                y = int("".join(str(r.choice(digits)) for _ in range(r.randint(1, L))))
                b = [y, t - y]
            if len(set("".join(map(str, a + b)))) <= 6 and min(a + b) > 0 and sorted(a) != sorted(b):
                x = a, b
                break
        if x is None:
            continue
        a, b = x
        tr = lambda v: "".join(letters[int(c)] for c in str(v))
        reps = r.choice((1, 1, 2, 5))
        lhs, rhs = [tr(v) for v in a] * reps, [tr(v) for v in b] * reps
        want = brute(lhs, rhs)
        if len(want) > 2000:            # an identity: every assignment solves it
            continue
        sols = ctx.take("solve", len(want) + 2, AL.solve, lhs, rhs)
        ctx.check(sorted((list(p), list(q)) for p, q in sols) == want, "all %d solutions (%d found) of %r = %r" % (len(want), len(sols), lhs, rhs))
        ctx.check((list(a) * reps, list(b) * reps) in [(list(p), list(q)) for p, q in sols], "the planted solution is missing", lhs, rhs)


def brute(lhs, rhs):
    """All solutions, by trying every assignment modulo a 61-bit prime first."""
    letters = sorted(set("".join(lhs + rhs)))
    first = {letters.index(w[0]) for w in lhs + rhs}
    coef = Counter()
    for sign, words in ((1, lhs), (-1, rhs)):
        for w in words:
            for k, ch in enumerate(reversed(w)):
                coef[ch] += sign * 10**k
    p = 2**61 - 1
    cs = [coef[ch] % p for ch in letters]
    out = []

    def rec(i, left, total, digs):
        if i == len(cs):
            if total % p == 0:
                m = dict(zip(letters, digs))
                if sum(coef[ch] * m[ch] for ch in letters) == 0:
                    num = lambda w: int("".join(str(m[ch]) for ch in w))
                    out.append(([num(w) for w in lhs], [num(w) for w in rhs]))
            return
        for d in left:
            if d or i not in first:
                rec(i + 1, left - {d}, total + cs[i] * d, digs + [d])
    if len(letters) <= 6:
        rec(0, frozenset(range(10)), 0, [])
        return sorted(out)
    # the last letter is forced
    inv = pow(cs[-1], -1, p) if cs[-1] else None
    last = len(cs) - 1

    def rec2(i, left, total, digs):
        if i == last:
            if inv is None:
                rec(i, left, total, digs)
                return
            d = -total * inv % p
            if d in left and (d or last not in first):
                rec(i + 1, left - {d}, total + cs[i] * d, digs + [d])
            return
        for d in left:
            if d or i not in first:
                rec2(i + 1, left - {d}, total + cs[i] * d, digs + [d])
    rec2(0, frozenset(range(10)), 0, [])
    return sorted(out)


# ------------------------------------------------------------------------------------- D02
@unit("D02", shards=2)
def long_histories(ctx):
    """Thousands of elements, classes merged in every shape (chains, stars, tournaments), many finds between."""
    r = ctx.rng
    for _ in range(ctx.n(4)):
        n = size(r, 500, 6000)
        xs = list(range(n)) if r.random() < .5 else [("v", i) for i in range(n)]
        named = ctx.shard == 1
        u = ctx.call("UnionFind", UF.NamedUnionFind if named else UF.UnionFind, xs)
        cls = {x: x for x in xs}                # element -> label, members by label: relabel the smaller
        mem = {x: [x] for x in xs}
        name = {x: x for x in xs}               # label -> set name
        style = r.choice(("random", "chain", "back", "star", "tournament"))
        order = {"random": lambda: [(r.choice(xs), r.choice(xs)) for _ in range(n)],
                 "chain": lambda: [(xs[i], xs[i + 1]) for i in range(n - 1)],
                 "back": lambda: [(xs[i + 1], xs[i]) for i in range(n - 2, -1, -1)],
                 "star": lambda: [(xs[i], xs[0]) for i in range(1, n)],
                 "tournament": lambda: [(xs[i], xs[i + s]) for s in (1 << k for k in range(14)) for i in range(0, n - s, 2 * s)]}[style]()
        for t, (a, b) in enumerate(order):
            fa, fb = ctx.call("find", u.find, a), ctx.call("find", u.find, b)
            if named:
                ctx.check((fa, fb) == (name[cls[a]], name[cls[b]]), "find of %r, %r after %d unions (%s)" % (a, b, t, style), fa, fb)
            else:
                ctx.check(cls[fa] == cls[a] and cls[fb] == cls[b], "find leaves the class after %d unions (%s)" % (t, style), a, b, fa, fb)
                ctx.check((fa == fb) == (cls[a] == cls[b]), "find(%r) == find(%r) after %d unions (%s)" % (a, b, t, style))
            la, lb = cls[a], cls[b]
            if la != lb:
                if named:
                    w = r.choice((fa, fb, "s%d" % t))
                    ctx.call("union", u.union, fa, fb, w)
                else:
                    ctx.call("union", u.union, fa, fb)
                if len(mem[la]) < len(mem[lb]):
                    la, lb = lb, la
                for x in mem[lb]:
                    cls[x] = la
                mem[la] += mem.pop(lb)
                if named:
                    name[la] = w
        roots = {}
        for x in r.sample(xs, n):
            f = ctx.call("find", u.find, x)
            if named:
                ctx.check(f == name[cls[x]], "find(%r) at the end (%s)" % (x, style), f)
            else:
                ctx.check(roots.setdefault(cls[x], f) == f and cls[f] == cls[x], "find(%r) at the end (%s)" % (x, style), f)
        ctx.check(named or len(set(roots.values())) == len(mem), "two classes share a representative (%s)" % style)


# ------------------------------------------------------------------------------------- D03
@unit("D03", shards=2)
def wide_sieves(ctx):
    r = ctx.rng
    for n in (r.choice((5000, 8191, 8192, 16383)), r.choice((16384, 32767, 32768, 40001)), r.choice((65535, 65536, 70001, 131072))):
        cls, off = (BS.BITSieve, 0) if ctx.shard else (BS.BITSieveArray, 1)
        s = ctx.call(cls.__name__, cls, n)
        model = [0] + [1] * n
        for p in (2, r.choice((3, 5, 7)), r.choice((11, 64, 97)), r.randint(100, n), n, n + 1, 3, r.randint(n // 4, n // 2)):
            ctx.call("mark_multiples", s.mark_multiples, p, _mutates=True)
            for i in range(p, n + 1, p):
                model[i] = 0
            pre = list(itertools.accumulate(model))
            ctx.check(list(ctx.call("entries", s.entries))[off:] == model[1:], "%s(%d) entries after marking %d" % (cls.__name__, n, p))
            for m in [0, 1, n, n - 1, n // 2] + [1 << k for k in range(18) if 1 << k <= n] + [(1 << k) - 1 for k in range(18) if (1 << k) - 1 <= n] + [r.randint(0, n) for _ in range(40)]:
                ctx.check(ctx.call("partial_sum", s.partial_sum, m) == pre[m], "%s(%d).partial_sum(%d) after marking %d" % (cls.__name__, n, m, p))
        if off == 0:
            ctx.call("update", s.update, _mutates=True)
            ctx.check(ctx.call("partial_sum", s.partial_sum, n) == pre[n], "partial_sum after update()")


# ------------------------------------------------------------------------------------- X02
@unit("X02")
def long_memory(ctx):
    """Tens of thousands of distinct calls, asked for again in other orders: still each computed once."""
    r = ctx.rng
    for n in (r.randint(1000, 3000), 20000, 70000):
        calls = Counter()

        def f(*a):
            calls[a] += 1
            if a[0] % 1013 == 5:
                raise ArithmeticError(a)
            return [a]
        g = UT.cached_function(f)
        args = [(i,) if i % 3 else (i, i * i) if i % 2 else (i, "x" * (i % 5), None) for i in range(n)]
        first = {}
        for turn in range(3):
            for i, a in enumerate(args):
                try:
                    if i % 50 == 0:
                        o, v = ctx.outcome("cached call", g, *a)
                        if o == "raise":
                            raise v
                    else:
                        v = g(*a)
                except ArithmeticError as e:
                    ctx.check(e.args == (a,) and a[0] % 1013 == 5, "an exception of other arguments", a, e)
                    continue
                ctx.check(v == [a], "the cached value belongs to other arguments", a, v)
                ctx.check(first.setdefault(a, v) is v, "a later call returned another object than the first", a)
            ctx.count("memoized calls judged", n)
            r.shuffle(args)
        ctx.eq({k for a, k in calls.items() if a[0] % 1013 != 5}, {1}, "calls of the function for each argument")
        ctx.eq({k for a, k in calls.items() if a[0] % 1013 == 5}, {3}, "calls of the function where it raises")
