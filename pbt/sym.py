"""Compare goats expressions with the reference model."""

from .model import Product, close


def value_of(expression):
    """The product that a goats expression represents."""
    out = Product()
    for term in expression:
        powers = {} if term.base == '1' else {term.base: term.exponent}
        out = out * Product(term.coefficient, powers)
    return out


def same(a, b):
    return a.powers == b.powers and close(a.coef, b.coef)


def exact(a, b):
    return a.powers == b.powers and float(a.coef) == float(b.coef)
