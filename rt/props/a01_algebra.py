"""A01 matrices, A02 polynomial objects, A03 coefficient list algorithms and power series."""
import itertools
from fractions import Fraction

from rt.core import unit

from rosemary.algebra.matrices import matrices as MX
from rosemary.algebra.polynomials import algorithms as PA
from rosemary.algebra.polynomials import polynomials as PP
from rosemary.algebra.power_series import power_series as PS


# ------------------------------------------------------------------------------------- A01
def rows(M, nr, nc):
    return [[M[i, j] for j in range(nc)] for i in range(nr)]


def det_oracle(A):
    """Gaussian elimination over the rationals with partial swaps."""
    n = len(A)
    m = [[Fraction(x) for x in row] for row in A]
    d = Fraction(1)
    for k in range(n):
        p = next((i for i in range(k, n) if m[i][k] != 0), None)
        if p is None:
            return 0
        if p != k:
            m[p], m[k] = m[k], m[p]
            d = -d
        d *= m[k][k]
        for i in range(k + 1, n):
            f = m[i][k] / m[k][k]
            if f:
                m[i] = [a - f * b for a, b in zip(m[i], m[k])]
    return d


def entries(r, nr, nc, kind):
    def e():
        c = kind
        if c == "small":
            return r.randint(-4, 4)
        if c == "sparse":
            return r.choice((0, 0, 0, 0, 1, -1, 2, 5))
        if c == "big":
            return r.getrandbits(90) * r.choice((1, -1))
        return Fraction(r.randint(-9, 9), r.randint(1, 7))
    return [[e() for _ in range(nc)] for _ in range(nr)]


KINDS = ("small", "sparse", "big", "frac")


def same(ctx, M, want, what):
    nr, nc = len(want), len(want[0])
    got = ctx.call("read", rows, M, nr, nc)
    ctx.eq(got, want, what)
    for bad in ((nr, 0), (0, nc)):
        o, _ = ctx.outcome("read", lambda b: M[b], bad)
        ctx.check(o == "raise", "%s: the result has extra rows/columns" % what, bad)


def repr_rows(s, parse):
    return [[parse(x) for x in line.strip()[1:-1].split()] for line in s.split("\n")]


@unit("A01", shards=2)
def matrix_ops(ctx):
    r = ctx.rng
    for _ in range(ctx.n(1200)):
        kind = r.choice(KINDS)
        a, b, c = r.randint(1, 6), r.randint(1, 6), r.randint(1, 6)
        cls = r.choice((MX.Matrix, MX.Matrix, MX.MatrixZZ, MX.MatrixQQ))
        A, B, D = entries(r, a, b, kind), entries(r, a, b, kind), entries(r, b, c, kind)
        mA, mB, mD = (ctx.call("Matrix", cls, X) for X in (A, B, D))
        same(ctx, mA, A, "Matrix(list)")
        ctx.check(all(mA[i] == A[i] for i in range(a)), "M[i] is not row i")
        same(ctx, ctx.call("add", lambda x, y: x + y, mA, mB), [[x + y for x, y in zip(p, q)] for p, q in zip(A, B)], "A + B")
        same(ctx, ctx.call("sub", lambda x, y: x - y, mA, mB), [[x - y for x, y in zip(p, q)] for p, q in zip(A, B)], "A - B")
        same(ctx, ctx.call("neg", lambda x: -x, mA), [[-x for x in p] for p in A], "-A")
        prod = [[sum(A[i][k] * D[k][j] for k in range(b)) for j in range(c)] for i in range(a)]
        same(ctx, ctx.call("mul", lambda x, y: x * y, mA, mD), prod, "A * B (%dx%d times %dx%d)" % (a, b, b, c))
        same(ctx, ctx.call("rmul", mD.__rmul__, mA), prod, "B.__rmul__(A)")
        s = r.choice((0, 1, -1, 3, 10**20, Fraction(2, 3)))
        same(ctx, ctx.call("scalar", lambda x, t: x * t, mA, s), [[x * s for x in p] for p in A], "A * scalar")
        same(ctx, ctx.call("scalar", lambda x, t: t * x, mA, s), [[x * s for x in p] for p in A], "scalar * A")
        if (a, b) != (b, c):
            ctx.raises("add dims", ValueError, lambda x, y: x + y, mA, mD)
            ctx.raises("sub dims", ValueError, lambda x, y: x - y, mA, mD)
        if c != a:
            ctx.raises("mul dims", ValueError, lambda x, y: x * y, mD, mA)
        if a > 1:
            i = r.randrange(a)
            same(ctx, ctx.call("delete_row", mA.delete_row, i), A[:i] + A[i + 1:], "delete_row")
        if b > 1:
            j = r.randrange(b)
            same(ctx, ctx.call("delete_col", mA.delete_col, j), [p[:j] + p[j + 1:] for p in A], "delete_col")
        parse = Fraction if kind == "frac" else int
        text = ctx.call("repr", repr, mA)
        ctx.eq(repr_rows(text, parse), A, "repr")
        lines = text.split("\n")
        ctx.check(len({len(x) for x in lines}) == 1 and all(x[0] == "[" and x[-1] == "]" and x[-2] != " " for x in lines), "repr: rows are not aligned", text)
        # results are independent values: writing one does not reach another, nor the source lists
        snapA = [list(p) for p in A]
        S = mA + mB
        Mr = mA.delete_row(0) if a > 1 else None
        i, j = r.randrange(a), r.randrange(b)
        before = rows(S, a, b)
        rb = rows(Mr, a - 1, b) if Mr is not None else None
        ctx.call("setitem", mA.__setitem__, (i, j), 12345, _mutates=True)
        want = [list(p) for p in snapA]
        want[i][j] = 12345
        same(ctx, mA, want, "A[i, j] = v")
        ctx.eq(A, snapA, "writing the matrix changed the list it was made from")
        ctx.eq(rows(S, a, b), before, "writing A changed A + B")
        if Mr is not None:
            ctx.eq(rows(Mr, a - 1, b), rb, "writing A changed A.delete_row(0)")
        ctx.call("setitem", mA.__setitem__, i, list(B[i]), _mutates=True)
        want[i] = list(B[i])
        same(ctx, mA, want, "A[i] = row")
    for nr in range(1, 5):
        same(ctx, ctx.call("Matrix", MX.Matrix, nr), [[0] * nr for _ in range(nr)], "Matrix(n)")
        for nc in range(1, 5):
            Z = ctx.call("Matrix", MX.Matrix, nr, nc)
            same(ctx, Z, [[0] * nc for _ in range(nr)], "Matrix(m, n)")
            Z[nr - 1, nc - 1] = 7
            ctx.check(sum(sum(p) for p in rows(Z, nr, nc)) == 7, "rows of Matrix(m, n) share storage")


@unit("A01")
def large_matrices(ctx):
    r = ctx.rng
    for _ in range(ctx.n(4)):
        a, b, c = r.choice(((13, 60, 3), (55, 14, 2), (17, 18, 19), (2, 1100, 2), (1100, 2, 3), (52, 52, 3)))
        kind = r.choice(KINDS[:3])
        A, B, D = entries(r, a, b, kind), entries(r, a, b, kind), entries(r, b, c, kind)
        mA, mB, mD = (ctx.call("Matrix", MX.Matrix, X) for X in (A, B, D))
        same(ctx, ctx.call("add", lambda x, y: x + y, mA, mB), [[x + y for x, y in zip(p, q)] for p, q in zip(A, B)], "A + B")
        same(ctx, ctx.call("sub", lambda x, y: x - y, mA, mB), [[x - y for x, y in zip(p, q)] for p, q in zip(A, B)], "A - B")
        same(ctx, ctx.call("neg", lambda x: -x, mA), [[-x for x in p] for p in A], "-A")
        T = list(zip(*D))
        same(ctx, ctx.call("mul", lambda x, y: x * y, mA, mD), [[sum(map(int.__mul__, p, t)) for t in T] for p in A], "A * B (%dx%d times %dx%d)" % (a, b, b, c))
        for i in {0, 1, a - 1, a - 2, a // 2, r.randrange(a)}:
            same(ctx, ctx.call("delete_row", mA.delete_row, i), A[:i] + A[i + 1:], "delete_row")
        for j in {0, 1, b - 1, b - 2, b // 2, r.randrange(b)}:
            same(ctx, ctx.call("delete_col", mA.delete_col, j), [p[:j] + p[j + 1:] for p in A], "delete_col")
        ctx.eq(repr_rows(ctx.call("repr", repr, mA), int), A, "repr")
        n = r.randint(10, 60)
        d = det_of_product(ctx, r, n)
    for n in (r.randint(10, 16), r.randint(17, 24)):
        judge_det(ctx, entries(r, n, n, "small"))
        judge_det(ctx, entries(r, n, n, "sparse"))


def det_of_product(ctx, r, n):
    """Lower times upper triangular, rows permuted: the determinant is known from the factors."""
    L = [[r.randint(-2, 2) if j < i else int(i == j) for j in range(n)] for i in range(n)]
    U = [[r.randint(-2, 2) if j > i else (r.choice((1, -1, 1, 2)) if i == j else 0) for j in range(n)] for i in range(n)]
    d = 1
    for i in range(n):
        d *= U[i][i]
    A = [[sum(x * U[k][j] for k, x in enumerate(row) if x) for j in range(n)] for row in L]
    for _ in range(r.randint(0, 3)):
        i, j = r.sample(range(n), 2)
        A[i], A[j] = A[j], A[i]
        d = -d
    M = ctx.call("Matrix", MX.Matrix, A)
    ctx.eq(ctx.call("determinant", M.determinant), d, "determinant of a %dx%d product of triangular factors" % (n, n))
    return d


def det_far_pivots(ctx, r, n):
    """A sparse triangular matrix with its rows in any order: the pivot has to be fetched from far down."""
    frac = r.random() < .3
    dens = r.choice((0, .1, .4))
    num = (lambda lo, hi: Fraction(r.randint(lo, hi), r.choice((1, 2, 3)))) if frac else r.randint
    U = [[num(-3, 3) if j > i and r.random() < dens else (num(1, 3) * r.choice((1, -1)) if i == j else 0) for j in range(n)]
         for i in range(n)]
    perm = list(range(n))
    c = r.randrange(4)
    if c == 0:
        r.shuffle(perm)
    elif c == 1:
        perm.reverse()
    elif c == 2:
        k = r.randrange(n)
        perm = perm[k:] + perm[:k]
    else:
        for _ in range(r.randint(1, 3)):
            i, j = r.randrange(n), r.randrange(n)
            perm[i], perm[j] = perm[j], perm[i]
    d = 1
    seen = set()
    for i in range(n):
        d *= U[i][i]
        if i not in seen:               # a cycle of even length is an odd permutation
            length = 0
            while i not in seen:
                seen.add(i)
                i = perm[i]
                length += 1
            if length % 2 == 0:
                d = -d
    M = ctx.call("Matrix", MX.Matrix, [U[i] for i in perm])
    ctx.eq(ctx.call("determinant", M.determinant), d, "determinant of a %dx%d triangular matrix, rows %s" % (n, n, perm))


def judge_det(ctx, A, cls=MX.Matrix):
    M = ctx.call("Matrix", cls, A)
    n = len(A)
    d = ctx.call("determinant", M.determinant)
    ctx.eq(d, det_oracle(A), "determinant of %s" % (A,))
    ctx.check(rows(M, n, n) == A, "determinant changed the matrix", A)
    ctx.eq(ctx.call("determinant", M.determinant), d, "determinant called twice")
    return d


@unit("A01", shards=2)
def determinants(ctx):
    r = ctx.rng
    if ctx.shard == 0:
        for n in (1, 2):
            for v in itertools.product(range(-2, 3), repeat=n * n):
                judge_det(ctx, [list(v[i * n:(i + 1) * n]) for i in range(n)])
        for v in itertools.product((0, 1, -1), repeat=9):
            if ctx.thorough or r.random() < .2:
                judge_det(ctx, [list(v[i * 3:(i + 1) * 3]) for i in range(3)])
        for n in range(1, 7):           # signed permutation matrices: every pivot pattern
            for p in itertools.islice(itertools.permutations(range(n)), 200):
                judge_det(ctx, [[(i + 2) if j == p[i] else 0 for j in range(n)] for i in range(n)])
    else:
        for _ in range(ctx.n(1000)):
            n = r.randint(1, 9)
            kind = r.choice(KINDS)
            A = entries(r, n, n, kind)
            if r.random() < .3 and n > 1:
                i, j = r.sample(range(n), 2)
                A[i] = [3 * x for x in A[j]]
            judge_det(ctx, A, r.choice((MX.Matrix, MX.MatrixZZ, MX.MatrixQQ)))
            B = entries(r, n, n, kind)
            dA, dB = (MX.Matrix(X).determinant() for X in (A, B))
            ctx.eq(ctx.call("det(AB)", lambda x, y: (x * y).determinant(), MX.Matrix(A), MX.Matrix(B)), dA * dB, "det(AB) = det A det B")
        for _ in range(ctx.n(60)):
            det_far_pivots(ctx, r, r.choice((7, 10, 14, 20, 28)))
        for nr, nc in ((1, 2), (2, 1), (3, 4)):
            ctx.raises("determinant", ValueError, MX.Matrix(nr, nc).determinant)


# ------------------------------------------------------------------------------------- A02/A03
def trim(L):
    L = list(L)
    while L and L[-1] == 0:
        L.pop()
    return L


def p_add(A, B, s=1):
    return [a + s * b for a, b in itertools.zip_longest(A, B, fillvalue=0)]


def p_mul(A, B):
    """Products by Kronecker substitution for integers (independent of the schoolbook loop)."""
    if not A or not B:
        return []
    if all(isinstance(x, int) for x in itertools.chain(A, B)):
        m = max(map(abs, A)) * max(map(abs, B)) * min(len(A), len(B)) * 2 + 2
        k = m.bit_length() + 1
        a = sum(c << (k * i) for i, c in enumerate(A))
        b = sum(c << (k * i) for i, c in enumerate(B))
        n = a * b
        out = []
        half, full = 1 << (k - 1), 1 << k
        for _ in range(len(A) + len(B) - 1):
            d = n & (full - 1)
            if d >= half:
                d -= full
            out.append(d)
            n = (n - d) >> k
        return out
    out = [0] * (len(A) + len(B) - 1)
    for i, a in enumerate(A):
        for j, b in enumerate(B):
            out[i + j] += a * b
    return out


def p_pow(A, k, prec=None):
    out = [1]
    for _ in range(k):
        out = p_mul(out, A)[:prec]
    return out


def coeffs(r, n, kind):
    if kind == "small":
        return [r.randint(-5, 5) for _ in range(n)]
    if kind == "sparse":
        return [r.choice((0, 0, 0, 1, -1, 3)) for _ in range(n)]
    if kind == "big":
        return [r.getrandbits(r.randint(1, 120)) * r.choice((1, -1)) for _ in range(n)]
    if kind == "nonneg":
        return [r.randint(0, 9) for _ in range(n)]
    return [Fraction(r.randint(-9, 9), r.randint(1, 6)) for _ in range(n)]


PK = ("small", "sparse", "big", "frac", "nonneg")


def isP(ctx, f, want, what):
    got = ctx.call("coefficients", f.coefficients)
    w = trim(want) or [0]
    ctx.eq(got, w, what)
    ctx.check(f.lead_coeff == w[-1] and f.degree == (len(w) - 1 if w != [0] else -1), "%s: degree/lead_coeff" % what, f.degree, f.lead_coeff, w)


@unit("A02", shards=2)
def polynomial_ring(ctx):
    r = ctx.rng
    for it in range(ctx.n(1200)):
        kind = r.choice(PK)
        cls = r.choice((PP.Polynomial, PP.PolyZZ if kind != "frac" else PP.PolyQQ))
        A = coeffs(r, r.choice((0, 1, 1, 2, 3, 5, 8, 13, 31, 45, 64)), kind)
        B = coeffs(r, r.choice((0, 1, 1, 2, 3, 5, 8, 13, 29, 30, 31, 70)), kind)
        if r.random() < .2:
            A = A + [0] * r.randint(1, 4)
        if r.random() < .2:
            B = [-x for x in A]             # cancellation to zero
        if r.random() < .1:
            B = A[:-1] + [-x for x in A[-1:]]
        f, g = ctx.call("Polynomial", cls, A), ctx.call("Polynomial", cls, B)
        isP(ctx, f, A, "Polynomial(list)")
        isP(ctx, ctx.call("add", lambda x, y: x + y, f, g), p_add(A, B), "f + g")
        isP(ctx, ctx.call("sub", lambda x, y: x - y, f, g), p_add(A, B, -1), "f - g")
        isP(ctx, ctx.call("mul", lambda x, y: x * y, f, g), p_mul(trim(A), trim(B)), "f * g")
        isP(ctx, ctx.call("neg", lambda x: -x, f), [-x for x in A], "-f")
        s = r.choice((0, 1, -1, 7, -(10**18)))
        isP(ctx, ctx.call("add int", lambda x, t: x + t, f, s), p_add(A, [s]), "f + int")
        isP(ctx, ctx.call("radd int", lambda x, t: t + x, f, s), p_add(A, [s]), "int + f")
        isP(ctx, ctx.call("sub int", lambda x, t: x - t, f, s), p_add(A, [s], -1), "f - int")
        isP(ctx, ctx.call("rsub int", lambda x, t: t - x, f, s), p_add([s], A, -1), "int - f")
        isP(ctx, ctx.call("mul int", lambda x, t: x * t, f, s), [s * x for x in A], "f * int")
        isP(ctx, ctx.call("rmul int", lambda x, t: t * x, f, s), [s * x for x in A], "int * f")
        ctx.eq(ctx.call("eq", lambda x, y: x == y, f, g), trim(A) == trim(B), "f == g")
        ctx.eq(ctx.call("ne", lambda x, y: x != y, f, g), trim(A) != trim(B), "f != g")
        ctx.check(ctx.call("eq", lambda x, y: x == y, f, cls(A + [0, 0], "t")), "f != f with another variable/padding", A)
        if A:
            near = list(A)              # the same polynomial but for one coefficient
            near[r.randrange(len(A))] += r.choice((1, -1))
            h = cls(near)
            ctx.check(not ctx.call("eq", lambda x, y: x == y, f, h) and ctx.call("ne", lambda x, y: x != y, f, h),
                      "polynomials that differ in one coefficient compare equal", A, near)
        c = r.choice((0, 1, A[0] if A else 0))
        ctx.eq(ctx.call("eq const", lambda x, y: x == y, f, c), (trim(A) or [0]) == [c], "f == const")
        ctx.eq(ctx.call("ne const", lambda x, y: x != y, f, c), (trim(A) or [0]) != [c], "f != const")
        if B:
            isP(ctx, ctx.call("add list", lambda x, y: x + y, f, B), p_add(A, B), "f + list")
            isP(ctx, ctx.call("radd list", lambda x, y: y + x, f, B), p_add(A, B), "list + f")
            isP(ctx, ctx.call("sub list", lambda x, y: x - y, f, B), p_add(A, B, -1), "f - list")
            isP(ctx, ctx.call("rsub list", lambda x, y: y - x, f, B), p_add(B, A, -1), "list - f")
            ctx.eq(ctx.call("eq list", lambda x, y: x == y, f, B), trim(A) == trim(B), "f == list")
            ctx.eq(ctx.call("ne list", lambda x, y: x != y, f, B), trim(A) != trim(B), "f != list")
        for x in (0, 1, -1, 2, r.randint(-50, 50), Fraction(3, 7)):
            ctx.eq(ctx.call("call", f, x), sum(a * x**i for i, a in enumerate(A)), "f(%s)" % x)
        for i in range(len(trim(A))):
            ctx.eq(ctx.call("getitem", f.__getitem__, i), A[i], "f[i]")
        # coefficients() is a copy
        L = f.coefficients()
        L[0] = L[0] + 99
        isP(ctx, f, A, "after writing the returned coefficient list")
        if kind != "frac" or r.random() < .3:
            k = r.randint(0, 6)
            isP(ctx, ctx.call("pow", lambda x, e: x**e, f, k), p_pow(trim(A) or [0], k), "f ** %d" % k)
            if len(A) < 14:
                isP(ctx, ctx.call("power_binary", f.power_binary, k), p_pow(trim(A) or [0], k), "power_binary %d" % k)
        if kind != "frac":
            s = ctx.call("repr", repr, f)
            w = trim(A)
            nz = [c for c in w if c]
            ctx.check(s.count("x") == sum(1 for c in w[1:] if c) and s.count("^") == sum(1 for c in w[2:] if c)
                      and s.count("*") == sum(1 for c in w[1:] if c and abs(c) != 1) and s.count("-") == sum(1 for c in nz if c < 0)
                      and s.count("+") == sum(1 for c in nz[:-1] if c > 0), "repr %r spells the terms" % s, A)
            s = s.replace("^", "**")
            for x in (0, 1, -2, 3):
                ctx.eq(eval(s, {"x": x}), sum(a * x**i for i, a in enumerate(A)), "repr %r evaluated at %d" % (s, x))
    for _ in range(ctx.n(4)):               # long polynomials and large exponents
        n = r.choice((60, 140, 700, 1300))
        A, B = coeffs(r, n, "small") + [1], coeffs(r, r.choice((3, 40, n)), r.choice(("small", "big"))) + [2]
        f, g = PP.Polynomial(A), PP.Polynomial(B)
        isP(ctx, ctx.call("mul", lambda x, y: x * y, f, g), p_mul(A, B), "f * g")
        isP(ctx, ctx.call("mul", lambda x, y: x * y, g, f), p_mul(A, B), "g * f")
        isP(ctx, ctx.call("add", lambda x, y: x + y, f, g), p_add(A, B), "f + g")
        isP(ctx, ctx.call("sub", lambda x, y: x - y, f, g), p_add(A, B, -1), "f - g")
        k = r.randint(41, 130)
        C = [r.choice((1, -1, 2)), r.randint(-3, 3), r.choice((1, -1))][:r.randint(2, 3)]
        if C[-1]:
            isP(ctx, ctx.call("pow", lambda x, e: x**e, PP.Polynomial(C), k), p_pow(C, k), "f ** %d" % k)
            isP(ctx, ctx.call("power_binary", PP.Polynomial(C).power_binary, k), p_pow(C, k), "power_binary %d" % k)
    q, rem = ctx.call("pseudo_quo_rem list", PP.PolyZZ([1, 2, 3]).pseudo_quo_rem, [1, 2])
    ctx.eq(trim(p_add(p_mul(q.coefficients(), [1, 2]), rem.coefficients())), [4, 8, 12], "pseudo_quo_rem by a list")
    isP(ctx, ctx.call("Polynomial", PP.Polynomial), [0, 1], "Polynomial()")
    isP(ctx, ctx.call("Polynomial", PP.Polynomial, 5), [5], "Polynomial(5)")
    isP(ctx, ctx.call("Polynomial", PP.Polynomial, (1, 2, 0)), [1, 2], "Polynomial(tuple)")


def q_divmod(A, B):
    """Over Q: (quotient, remainder) coefficient lists."""
    A, B = [Fraction(x) for x in A], trim([Fraction(x) for x in B])
    q = [Fraction(0)] * max(0, len(A) - len(B) + 1)
    A = trim(A)
    while len(A) >= len(B):
        k = len(A) - len(B)
        c = A[-1] / B[-1]
        q[k] = c
        for i, b in enumerate(B):
            A[i + k] -= c * b
        A = trim(A)
    return trim(q), A


def q_gcd(A, B):
    A, B = trim(map(Fraction, A)), trim(map(Fraction, B))
    while B:
        A, B = B, q_divmod(A, B)[1]
    return [x / A[-1] for x in A]


def zz_gcd(A, B):
    """Primitive gcd over Q made primitive integral with positive lead, times gcd of the contents."""
    import math
    ca, cb = math.gcd(*A), math.gcd(*B)
    g = q_gcd(A, B)
    m = math.lcm(*(x.denominator for x in g))
    g = [int(x * m) for x in g]
    c = math.gcd(*g)
    d = math.gcd(ca, cb)
    s = 1 if g[-1] > 0 else -1
    return [s * d * x // c for x in g]


@unit("A02", shards=2)
def polynomial_division(ctx):
    r = ctx.rng
    import math
    for _ in range(ctx.n(1500)):
        kind = r.choice(("small", "sparse", "big", "nonneg"))
        A = trim(coeffs(r, r.randint(1, 14), kind)) or [r.randint(1, 9)]
        B = trim(coeffs(r, r.randint(1, 9), kind)) or [r.randint(1, 9)]
        f, g = PP.PolyZZ(A), PP.PolyZZ(B)
        # pseudo division
        q, rem = ctx.call("pseudo_quo_rem", f.pseudo_quo_rem, g)
        m, n = len(A) - 1, len(B) - 1
        if m >= n:
            l = B[-1]**(m - n + 1)
            rc = trim(rem.coefficients())
            ctx.eq(trim(p_add(p_mul(q.coefficients(), B), rc)), [l * x for x in A], "pseudo_quo_rem: l^(m-n+1) u = q v + r")
            ctx.check(len(rc) <= n, "pseudo_quo_rem: deg r >= deg v", A, B, rc)
        # quo_rem: monic divisor, exact multiple, general
        mon = B[:-1] + [r.choice((1, -1))]
        for D in (mon, B):
            o, v = ctx.outcome("quo_rem", f.quo_rem, PP.PolyZZ(D))
            Q, R = q_divmod(A, D)
            integral = all(x.denominator == 1 for x in Q)
            if o == "raise":
                ctx.check(isinstance(v, ValueError) and not integral, "quo_rem raised %r, the quotient is integral" % (v,), A, D)
            else:
                qc, rc = trim(v[0].coefficients()), trim(v[1].coefficients())
                ctx.eq(trim(p_add(p_mul(qc, D), rc)), A, "quo_rem: u = q v + r")
                if integral:
                    ctx.eq((qc, rc), (Q, R), "quo_rem: quotient and remainder of %s by %s" % (A, D))
                ctx.check(len(rc) < len(D), "quo_rem: deg r >= deg v", A, D, rc)
        P = p_mul(A, B)
        q, rem = ctx.call("quo_rem exact", PP.PolyZZ(P).quo_rem, g)
        isP(ctx, q, A, "quo_rem of a product")
        isP(ctx, rem, [0], "quo_rem of a product: remainder")
        # content and primitive part
        ctx.eq(ctx.call("content", f.content), math.gcd(*A), "content")
        c = math.gcd(*A) * (1 if A[-1] > 0 else -1)
        isP(ctx, ctx.call("primitive_part", f.primitive_part), [x // c for x in A], "primitive_part")
    for _ in range(ctx.n(1200)):
        C = trim(coeffs(r, r.randint(1, 5), "small")) or [1]
        A = p_mul(C, trim(coeffs(r, r.randint(1, 8), "small")) or [2])
        B = p_mul(C, trim(coeffs(r, r.randint(1, 8), "small")) or [-6])
        if r.random() < .2:
            A, B = coeffs(r, r.randint(1, 8), "big"), coeffs(r, r.randint(1, 8), "big")
            A, B = trim(A) or [4], trim(B) or [6]
        k = r.choice((1, 1, 2, -6))
        A = [k * x for x in A]
        f, g = PP.PolyZZ(A), PP.PolyZZ(B)
        isP(ctx, ctx.call("gcd", f.gcd, g), zz_gcd(A, B), "gcd of %s and %s" % (A, B))
    z = PP.PolyZZ([])
    f = PP.PolyZZ([2, 0, -4])
    for a, b in ((f, z), (z, f)):
        isP(ctx, ctx.call("gcd", a.gcd, b), [-2, 0, 4], "gcd with zero")


def padded(ctx, got, want, what):
    """Equal up to high zero coefficients."""
    got = list(got)
    ctx.eq((got[:len(want)], [x for x in got[len(want):] if x]), (want, []), what)


def euler_product(n):
    """prod (1 - q^m) to n terms: the exponents are m(3m -+ 1)/2 with sign (-1)^m (Euler)."""
    out = [0] * n
    for k in range(-n, n + 1):
        e = k * (3 * k - 1) // 2
        if e < n:
            out[e] += -1 if k % 2 else 1
    return out


@unit("A03", shards=2)
def coefficient_lists(ctx):
    r = ctx.rng
    sizes = (0, 1, 2, 3, 7, 15, 28, 29, 30, 31, 32, 45, 59, 60, 61, 90, 121, 200)
    for it in range(ctx.n(500)):
        kind = r.choice(PK)
        A = coeffs(r, r.choice(sizes), kind if kind != "frac" or r.random() < .2 else "small")
        B = coeffs(r, r.choice(sizes), kind if kind != "frac" or r.random() < .2 else "big")
        if r.random() < .2:
            A = tuple(A)
        P = p_mul(list(A), list(B))
        ctx.eq(ctx.call("mul_classical", PA.mul_classical, A, B), P, "mul_classical %d x %d" % (len(A), len(B)))
        padded(ctx, ctx.call("mul_karatsuba", PA.mul_karatsuba, A, B), P, "mul_karatsuba %d x %d" % (len(A), len(B)))
        ctx.eq(ctx.call("list_add", PA.list_add, A, B), p_add(A, B), "list_add")
        ctx.eq(ctx.call("list_subtract", PA.list_subtract, A, B), p_add(A, B, -1), "list_subtract")
        if A and B:
            ctx.eq(ctx.call("ps_mult_classical", PS.ps_mult_classical, A, B), P, "ps_mult_classical")
            t = r.choice((2, 3, 5, 17, 40))
            padded(ctx, ctx.call("ps_mult_karatsuba", PS.ps_mult_karatsuba, A, B, t), P, "ps_mult_karatsuba %d x %d threshold %d" % (len(A), len(B), t))
            padded(ctx, ctx.call("ps_mult_karatsuba", PS.ps_mult_karatsuba, A, B), P, "ps_mult_karatsuba %d x %d" % (len(A), len(B)))
        C = coeffs(r, r.choice((r.randint(1, 12), r.randint(1, 12), r.randint(13, 70))), kind)
        if r.random() < .3:
            C = [0] * r.randint(1, 3) + C
        k = r.randint(0, 9) if len(C) > 4 else r.randint(0, 40)
        if len(C) > 16:
            k = r.randint(0, 4)
        if any(C) :
            got = ctx.call("power_jcp", PA.power_jcp, C, k)
            ctx.eq(trim(got), trim(p_pow(C, k)), "power_jcp(%s, %d)" % (C, k))
    ctx.eq(trim(ctx.call("power_jcp", PA.power_jcp, [0, 0], 3)), [], "power of zero")


@unit("A03", shards=2)
def power_series(ctx):
    r = ctx.rng
    for _ in range(ctx.n(150)):
        n = r.randint(1, 40)
        A = [r.choice((1, -1))] + coeffs(r, n - 1, r.choice(("small", "sparse", "big", "nonneg")))
        B = ctx.call("ps_invert", PS.ps_invert, A)
        ctx.check(len(B) == n and p_mul(A, B)[:n] == [1] + [0] * (n - 1), "ps_invert: A * A^-1 != 1 + O(x^n)", A, B)
        k = r.randint(0, 12)
        a0 = r.choice((1, -1, 2, -3, 5))
        C = [a0] + A[1:]
        ctx.eq(ctx.call("ps_power", PS.ps_power, C, k), (p_pow(C, k) + [0] * n)[:n], "ps_power(%s, %d)" % (C, k))
    for n in (r.randint(60, 140), ctx.n(600, 1300)):
        A = [r.choice((1, -1))] + coeffs(r, n - 1, "sparse")
        B = ctx.call("ps_invert", PS.ps_invert, A)
        ctx.check(len(B) == n and p_mul(A, B)[:n] == [1] + [0] * (n - 1), "ps_invert: A * A^-1 != 1 + O(x^n), n = %d" % n)
        k = r.randint(13, 90)
        ctx.eq(ctx.call("ps_power", PS.ps_power, A[:100], k), (p_pow(A[:100], k, min(n, 100)) + [0] * 100)[:min(n, 100)], "ps_power k=%d" % k)
    if ctx.shard:
        return
    # eta: product formula prod (1 - q^n); delta: tau through Eisenstein series E4^3 - E6^2 = 1728 Delta
    N = ctx.n(220, 600)
    prod = [1] + [0] * (N - 1)
    for m in range(1, N):
        for i in range(N - 1, m - 1, -1):
            prod[i] -= prod[i - m]
    for n in list(range(1, 60)) + [N - 1, N]:
        ctx.eq(ctx.call("eta_series", PS.eta_series, n), prod[:n], "eta_series(%d)" % n)
    # at the precisions where a new term comes in: Euler's pentagonal numbers
    ctx.eq(ctx.call("eta_series", PS.eta_series), euler_product(1000), "eta_series()")
    for m in (10, 18, 19, 24, 40, 60):
        for g in (m * (3 * m - 1) // 2, m * (3 * m + 1) // 2):
            for n in (g, g + 1, g + 2):
                ctx.eq(ctx.call("eta_series", PS.eta_series, n), euler_product(n), "eta_series(%d)" % n)
    K = ctx.n(120, 300)
    s3 = [1] + [240 * sum(d**3 for d in range(1, i + 1) if i % d == 0) for i in range(1, K + 1)]
    s5 = [1] + [-504 * sum(d**5 for d in range(1, i + 1) if i % d == 0) for i in range(1, K + 1)]
    e4 = p_mul(p_mul(s3, s3)[:K + 1], s3)[:K + 1]
    e6 = p_mul(s5, s5)[:K + 1]
    tau = [(a - b) // 1728 for a, b in zip(e4, e6)]
    for n in (1, 2, 3, 10, 37, K):
        ctx.eq(ctx.call("delta_series", PS.delta_series, n), tau[1:n + 1], "delta_series(%d)" % n)
