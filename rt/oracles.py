"""Independent reference computations; nothing here imports the code under test."""
import math
import random
from collections import Counter
from functools import lru_cache


# ---------------------------------------------------------------- primes, factoring
_sieve_cache = {}


def sieve(n):
    """bytearray s with s[i] == 1 iff i is prime, 0 <= i <= n."""
    for k in _sieve_cache:
        if k >= n:
            return _sieve_cache[k]
    s = bytearray([1]) * (n + 1)
    s[0:2] = b"\x00\x00"[:min(2, n + 1)]
    for i in range(2, math.isqrt(n) + 1):
        if s[i]:
            s[i * i::i] = bytes(len(range(i * i, n + 1, i)))
    _sieve_cache.clear()
    _sieve_cache[n] = s
    return s


def primes_upto(n):
    if n < 2:
        return []
    s = sieve(n)
    return [i for i in range(2, n + 1) if s[i]]


_MR = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41)


def isprime(n):
    """Deterministic for n < 3.3e24; strong-probable-prime to 13 bases + random ones above."""
    if n < 2:
        return False
    for p in _MR:
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    bases = list(_MR)
    if n >= 3 * 10**24:
        r = random.Random(n)
        bases += [r.randrange(2, n - 1) for _ in range(12)]
    for a in bases:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def factorint(n):
    """Prime factorization of n >= 1 as sorted list of (p, e)."""
    c = Counter()

    def rec(m):
        if m == 1:
            return
        if isprime(m):
            c[m] += 1
            return
        r = math.isqrt(m)
        if r * r == m:
            rec(r)
            rec(r)
            return
        rnd = random.Random(m)
        while True:
            a = rnd.randrange(1, m)
            x = y = rnd.randrange(m)
            d = 1
            while d == 1:
                x = (x * x + a) % m
                y = (y * y + a) % m
                y = (y * y + a) % m
                d = math.gcd(x - y, m)
            if d != m:
                break
        rec(d)
        rec(m // d)

    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47):
        while n % p == 0:
            n //= p
            c[p] += 1
    rec(n)
    return sorted(c.items())


def random_prime(rng, bits):
    while True:
        n = rng.getrandbits(bits) | 1 | (1 << (bits - 1))
        if isprime(n):
            return n


def nextprime(n):
    n = max(n + 1, 2)
    while not isprime(n):
        n += 1
    return n


def divisors_of(fac):
    ds = [1]
    for p, e in fac:
        ds = [d * p**k for d in ds for k in range(e + 1)]
    return sorted(ds)


def divisors(n):
    return divisors_of(factorint(n))


def phi(n):
    r = n
    for p, _ in factorint(n):
        r = r // p * (p - 1)
    return r


def mobius(n):
    f = factorint(n)
    if any(e > 1 for _, e in f):
        return 0
    return -1 if len(f) % 2 else 1


def sigma(n, k=1):
    return sum(d**k for d in divisors(n))


def carmichael(n):
    lam = 1
    for p, e in factorint(n):
        if p == 2:
            t = 1 if e == 1 else 2 if e == 2 else 2**(e - 2)
        else:
            t = p**(e - 1) * (p - 1)
        lam = math.lcm(lam, t)
    return lam


def valuation(p, n):
    k = 0
    while n % p == 0:
        n //= p
        k += 1
    return k


def legendre_symbol(a, p):
    a %= p
    if a == 0:
        return 0
    return 1 if pow(a, (p - 1) // 2, p) == 1 else -1


def jacobi(a, m):
    r = 1
    for p, e in factorint(m):
        r *= legendre_symbol(a, p)**e
    return r


def iroot(n, m):
    """floor(m ** (1/n)) by bisection."""
    lo, hi = 0, 1 << (m.bit_length() // n + 1)
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if mid**n <= m:
            lo = mid
        else:
            hi = mid - 1
    return lo


def spf_table(n):
    s = list(range(n + 1))
    for i in range(2, math.isqrt(n) + 1):
        if s[i] == i:
            for j in range(i * i, n + 1, i):
                if s[j] == j:
                    s[j] = i
    return s


class Table:
    """phi, mu, tau, sigma and factorizations for 1..n from a smallest-prime-factor table."""

    def __init__(self, n):
        self.n = n
        self.spf = spf_table(n)
        self.phi = [0] * (n + 1)
        self.mu = [0] * (n + 1)
        self.tau = [0] * (n + 1)
        self.sig = [0] * (n + 1)
        self.phi[1] = self.mu[1] = self.tau[1] = self.sig[1] = 1
        for m in range(2, n + 1):
            p = self.spf[m]
            r, e = m // p, 1
            while r % p == 0:
                r //= p
                e += 1
            self.phi[m] = self.phi[r] * p**(e - 1) * (p - 1)
            self.mu[m] = 0 if e > 1 else -self.mu[r]
            self.tau[m] = self.tau[r] * (e + 1)
            self.sig[m] = self.sig[r] * (p**(e + 1) - 1) // (p - 1)

    def fac(self, m):
        out = []
        while m > 1:
            p = self.spf[m]
            e = 0
            while m % p == 0:
                m //= p
                e += 1
            out.append((p, e))
        return out


@lru_cache(maxsize=None)
def table(n):
    return Table(n)


# prime counts from the literature (pi(10^k), pi(2^k), and other published values)
PI_KNOWN = {10**1: 4, 10**2: 25, 10**3: 168, 10**4: 1229, 10**5: 9592, 10**6: 78498, 10**7: 664579,
            10**8: 5761455, 10**9: 50847534, 10**10: 455052511, 10**11: 4118054813,
            2**20: 82025, 2**24: 1077871, 2**28: 14630843, 2**30: 54400028}


def prime_pi(x):
    """Lucy-style counting, exact integers, independent of the code under test."""
    return _lucy(x, 0)


def prime_sum(x):
    return _lucy(x, 1)


def _lucy(x, k):
    if x < 2:
        return 0
    r = math.isqrt(x)
    small = [0] * (r + 1)
    large = [0] * (r + 2)
    f = (lambda v: v - 1) if k == 0 else (lambda v: v * (v + 1) // 2 - 1)
    for v in range(1, r + 1):
        small[v] = f(v)
        large[v] = f(x // v)
    for p in range(2, r + 1):
        if small[p] == small[p - 1]:
            continue
        q, g = small[p - 1], p**k
        p2 = p * p
        for i in range(1, min(r, x // p2) + 1):
            d = i * p
            large[i] -= g * ((large[d] if d <= r else small[x // d]) - q)
        for v in range(r, p2 - 1, -1):
            small[v] -= g * (small[v // p] - q)
    return large[1]


def perfect_power(n):
    """(base, exponent) with the largest exponent, for n >= 2."""
    for e in range(n.bit_length(), 1, -1):
        b = iroot(e, n)
        if b > 1 and b**e == n:
            return b, e
    return n, 1
