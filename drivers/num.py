"""Exact numbers for the Big module."""
from fractions import Fraction


def big(n):
    n = int(n)
    neg, n, out = n < 0, abs(n), []
    while n:
        out.append(n % 10000)
        n //= 10000
    return {"neg": neg, "n": out}


def common(*xs):
    """Integers over a common denominator: (D, [x * D ...])."""
    fs = [Fraction(x) for x in xs]
    d = 1
    for f in fs:
        d = d * f.denominator // __import__("math").gcd(d, f.denominator)
    return d, [f * d for f in fs]
