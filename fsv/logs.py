"""Base-2 logarithms of rational constants: integer combinations of the
logarithms of primes, each an unknown confined to a tight enclosure."""
import math
from fractions import Fraction

import z3

W = Fraction(1, 10 ** 9)


def factors(n):
    p = 2
    while p * p <= n:
        while n % p == 0:
            yield p
            n //= p
        p += 1
    if n > 1:
        yield n


def prime(ex, p):
    from .engine import R
    key = ("log2prime", p)
    hit = ex.memo.get(key)
    if hit is None:
        v = z3.Real(f"log2_{p}")
        c = Fraction(math.log2(p)).limit_denominator(10 ** 12)
        for e in (v >= z3.RealVal(str(c - W)), v <= z3.RealVal(str(c + W))):
            ex.add(e)
        ex.model = None
        hit = (v, R(v))
        ex.memo[key] = hit
    return hit[1]


def log2(ex, q):
    from .engine import R, NAN
    if q <= 0:
        return R(-math.inf if q == 0 else NAN)
    if q.denominator > 10 ** 6 or q.numerator > 10 ** 6:
        # quotient of small integers that went through floating point
        c = q.limit_denominator(10 ** 4)
        if c == 0 or abs(c - q) > Fraction(1, 10 ** 13) * q or c.numerator > 10 ** 6:
            return R(math.log2(q))
        q = c
    out = R(0)
    for n, s in ((q.numerator, 1), (q.denominator, -1)):
        for p in factors(n):
            out = out + (R(s) if p == 2 else R(s) * prime(ex, p))
    return out
