"""Generate symbolic expressions as trees, with their text and their value."""

import math
import re
from fractions import Fraction

from .model import Product

NAMES = [
    'a', 'b', 'c', 'x', 'y', 'ab', 'a1', 'b2', 'km', 'kg', 'e', 'E', 'E2',
    'Mx', 'eV', 'x_y', '_q', '#', 'T', 'd', 'J', 'cm', 'rho', 'B0',
]

DEFAULT = {
    'multiply': '*', 'divide': '/', 'opening': '(', 'closing': ')',
    'raising': '^',
}

DENOMINATORS = [2, 3, 4, 5, 7, 10, 12, 16, 25, 100, 128]


def exponent(g, zero=False):
    """(text, value) of an exponent."""
    kind = g.weighted([
        (6, 'int'), (4, 'neg'), (4, 'frac'), (2, 'dec'), (1, 'plus'),
        (1 if zero else 0, 'zero'),
    ])
    if kind == 'int':
        n = g.weighted([(8, g.int(1, 4)), (1, g.int(5, 30))])
        return str(n), Fraction(n)
    if kind == 'neg':
        n = g.int(1, 6)
        return f'-{n}', Fraction(-n)
    if kind == 'plus':
        n = g.int(1, 6)
        return f'+{n}', Fraction(n)
    if kind == 'zero':
        return '0', Fraction(0)
    if kind == 'frac':
        n, d = g.int(1, 23), g.choice(DENOMINATORS)
        s = g.choice(['', '-'])
        return f'{s}{n}/{d}', Fraction(int(f'{s}{n}'), d)
    text = g.choice(['1.5', '0.5', '2.0', '.5', '-1.5', '0.25', '1e0', '-0.75', '12.5'])
    return text, Fraction(text)


def number(g, sign=False):
    """(text, value) of a numerical constant."""
    kind = g.weighted([(6, 'int'), (2, 'frac'), (2, 'dec'), (2, 'sci')])
    if kind == 'int':
        text = str(g.weighted([(6, g.int(2, 12)), (1, g.int(13, 5000)), (1, 1)]))
    elif kind == 'frac':
        text = f"{g.int(1, 20)}/{g.int(2, 40)}"
    elif kind == 'dec':
        text = g.choice(['0.5', '1.5', '2.25', '.5', '10.0', '0.125', '3.0', '0.1', '12.75'])
    else:
        text = g.choice([
            '1e3', '2e-3', '1.5e2', '1E+2', '2.5e-1', '1e-6', '4e0', '3e-18', '6.02e23',
        ])
    if sign and g.bool(0.2):
        text = '-' + text
    return text, Fraction(text)


def negative(text):
    """True if a negative constant occurs, which has no real root."""
    return re.search(r'(?<![eE^~!])-', text) is not None


def magnitude(value):
    """Decades between the coefficient and unity."""
    c = value.coef
    if isinstance(c, float):
        return abs(math.log10(abs(c))) if c else 0
    return max(c.numerator.bit_length(), c.denominator.bit_length()) * 0.302


class Tree:
    """Text, value, and structural facts of a generated expression."""

    def __init__(self, text, value, ambiguous=False, depth=0, terms=1, roots=0, consts=False):
        self.text = text
        self.value = value
        self.ambiguous = ambiguous      # violates the strict operator order
        self.depth = depth
        self.terms = terms
        self.roots = roots
        self.consts = consts            # a number occurs somewhere


def operand(g, depth, tok, names, first, roots=True, zero=False, divided=False, exact=False):
    """One operand: a constant, a variable, or a group."""
    kinds = [(2, 'number'), (6, 'variable')]
    if depth > 0:
        kinds.append((4, 'group'))
    kind = g.weighted(kinds)
    up = tok['raising']
    if kind == 'number':
        text, value = number(g, sign=first)
        if g.bool(0.2):
            et, ev = exponent(g)
            if ev.denominator != 1:
                # keep values of fractional powers inside the reals
                text, value = text.lstrip('-'), abs(value)
            if abs(ev) < 8 and not (exact and ev.denominator != 1):
                return Tree(f'{text}{up}{et}', Product(value) ** ev, consts=True)
        return Tree(text, Product(value), consts=True)
    if kind == 'variable':
        name = g.choice(names)
        text, value = name, Product(1, {name: 1})
        if g.bool(0.6):
            et, ev = exponent(g, zero)
            text, value = f'{text}{up}{et}', value ** ev
        if g.bool(0.25) and not re.match(r'[eE]\d', name):
            nt, nv = number(g, sign=first)
            text, value = f'{nt}{text}', value * Product(nv)
            return Tree(text, value, consts=True)
        return Tree(text, value)
    inner = product(g, depth - 1, tok, names, roots=roots, zero=zero, exact=exact)
    consts = inner.consts
    pad = g.weighted([(4, ''), (1, ' ')])
    text = f"{tok['opening']}{pad}{inner.text}{pad}{tok['closing']}"
    value = inner.value
    if g.bool(0.6):
        et, ev = exponent(g, zero)
        if ev.denominator != 1 and (negative(inner.text) or exact and consts):
            et, ev = '2', Fraction(2)
        if abs(float(ev)) > 4:
            et, ev = '3', Fraction(3)
        if magnitude(value) * abs(float(ev)) > 40:
            et, ev = '1', Fraction(1)
        text, value = f'{text}{up}{et}', value ** ev
    # The reach of a division over a coefficient next to a group, as in
    # 'a / 2(b)', is a matter of convention, so that text is not generated.
    if not divided and g.bool(0.25):
        nt, nv = number(g)
        text, value = f'{nt}{text}', value * Product(nv)
        consts = True
    return Tree(
        text, value, inner.ambiguous, inner.depth + 1, inner.terms,
        inner.roots, consts,
    )


def product(g, depth, tok=DEFAULT, names=None, roots=True, lo=1, hi=5, zero=False, exact=False):
    """A product of operands on one level."""
    names = names or NAMES
    n = g.size(lo, hi, 2.5)
    text, value, ambiguous = '', Product(), False
    level, terms, nroots, consts = 0, 0, 0, False
    previous = None
    for i in range(n):
        op = 'none' if i == 0 else g.weighted([(4, '*'), (4, '/'), (3, ' ')])
        node = operand(
            g, depth, tok, names, first=(i == 0 or op == '*'),
            roots=roots, zero=zero, divided=(op == '/'), exact=exact,
        )
        root = roots and not negative(node.text) and not (exact and node.consts) and g.bool(0.08)
        body = node.text
        if root:
            if not body.startswith(tok['opening']):
                body = f"{tok['opening']}{body}{tok['closing']}"
                node.depth += 1
            body = f"sqrt{g.choice(['', ' '])}{body}"
            node.value = node.value ** Fraction(1, 2)
            nroots += 1
        if op == 'none':
            text = body
        elif op == '*':
            text += g.choice([' {} ', '{}', '{} ']).format(tok['multiply']) + body
        elif op == '/':
            tight = not (body[0].isdigit() or body[0] in '.+-')
            form = g.choice([' {} ', '{}']) if tight else ' {} '
            text += form.format(tok['divide']) + body
        else:
            # Juxtaposition: a sign would read as part of a number, so none.
            body = body.lstrip('+')
            text += ' ' + body
        if previous == '/' and op in '*/':
            ambiguous = True
        current = 'sqrt' if root and op in ('none', ' ') else op
        previous = current
        value = value / node.value if op == '/' else value * node.value
        ambiguous = ambiguous or node.ambiguous
        level = max(level, node.depth)
        terms += node.terms
        nroots += node.roots
        consts = consts or node.consts
        if magnitude(value) > 40:
            break
    return Tree(text, value, ambiguous, level, terms, nroots, consts)
