"""A reference model of products of powers, independent of goats.

A value is (coefficient, {base: exponent}).  Exponents are exact fractions;
the coefficient is an exact fraction until an irrational root makes it a float.
"""

import math
from fractions import Fraction


class Product:
    """coefficient * prod(base ** exponent)"""

    __slots__ = ('coef', 'powers')

    def __init__(self, coef=1, powers=None):
        self.coef = coef if isinstance(coef, float) else Fraction(coef)
        self.powers = {k: Fraction(v) for k, v in (powers or {}).items() if v != 0}

    def __mul__(self, other):
        powers = dict(self.powers)
        for k, v in other.powers.items():
            powers[k] = powers.get(k, Fraction(0)) + v
        if isinstance(self.coef, float) or isinstance(other.coef, float):
            coef = float(self.coef) * float(other.coef)
        else:
            coef = self.coef * other.coef
        return Product(coef, powers)

    def __pow__(self, n):
        n = Fraction(n)
        if n.denominator == 1 and not isinstance(self.coef, float):
            coef = self.coef ** int(n)
        else:
            coef = root(self.coef, n)
        return Product(coef, {k: v * n for k, v in self.powers.items()})

    def __truediv__(self, other):
        return self * other ** -1

    def __repr__(self):
        inner = ' '.join(f"{k}^{v}" for k, v in sorted(self.powers.items()))
        return f"<{self.coef} {inner}>"


def root(c, n):
    """c ** n, exact if both parts of a fraction are perfect powers."""
    if not isinstance(c, float) and c >= 0:
        num = exact_root(c.numerator, n.denominator)
        den = exact_root(c.denominator, n.denominator)
        if num is not None and den is not None:
            return Fraction(num, den) ** n.numerator
    return float(c) ** float(n)


def exact_root(k, d):
    r = round(k ** (1.0 / d))
    for x in (r - 1, r, r + 1):
        if x >= 0 and x ** d == k:
            return x
    return None


def close(a, b, rel=1e-9, abs_=0.0):
    return math.isclose(float(a), float(b), rel_tol=rel, abs_tol=abs_)
