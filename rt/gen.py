"""Workload generators shared by several properties."""
import math


def log_int(rng, lo_bits, hi_bits):
    return rng.getrandbits(rng.randint(lo_bits, hi_bits))


def boundary_ints(rng, hi_bits=200):
    """An integer near a structurally interesting value."""
    k = rng.randint(1, hi_bits)
    c = rng.randrange(7)
    if c == 0:
        v = 1 << k
    elif c == 1:
        v = rng.getrandbits(max(1, k // 2))**2
    elif c == 2:
        e = rng.randint(2, 9)
        v = rng.getrandbits(max(1, k // e))**e
    elif c == 3:
        v = 10**(k // 4)
    elif c == 4:
        v = math.factorial(min(40, k // 4))
    elif c == 5:
        v = rng.randrange(60)
    else:
        v = rng.getrandbits(k)
    return max(0, v + rng.choice((-2, -1, 0, 0, 0, 1, 2)))


def smooth(rng, bits, plist=(2, 3, 5, 7, 11, 13)):
    n = 1
    while n.bit_length() < bits:
        n *= rng.choice(plist)
    return n


PRIMORIAL_PARTS = (2, 3, 5, 7, 11, 13, 17, 19, 23)


def rich_prime(rng, isprime, bits=44):
    """A prime p whose p - 1 has many distinct small prime divisors, some repeated."""
    m = 2
    for q in rng.sample(PRIMORIAL_PARTS[1:], rng.randint(3, 8)):
        if m * q < 1 << (bits - 4):
            m *= q
    while rng.random() < .5 and m < 1 << (bits - 9):
        m *= rng.choice((2, 2, 3, 5, 7))
    p = m * rng.randint(1, 1 << max(1, bits - m.bit_length())) + 1
    while not isprime(p):
        p += m
    return p


def composite_int(rng, bits):
    """Products with varied shapes: prime powers, smooth * prime, squares, squarefree..."""
    n = 1
    while True:
        c = rng.randrange(4)
        if c == 0:
            f = rng.choice((2, 3, 5, 7, 11, 13, 17))**rng.randint(1, 6)
        elif c == 1:
            f = rng.getrandbits(rng.randint(2, 10)) or 1
        elif c == 2:
            f = (rng.getrandbits(rng.randint(2, 8)) or 1)**2
        else:
            f = rng.getrandbits(rng.randint(2, 24)) or 1
        if (n * f).bit_length() > bits:
            return n
        n *= f
