"""Canonical form: text, equality, and hash of expressions agree."""

from fractions import Fraction

from goats.core import symbolic

from pbt.case import Cases
from pbt.engine import check, discard
from pbt.exprs import product
from pbt.model import Product
from pbt.sym import same, value_of

CASES = Cases()
RULE = (
    "the pair (or the expression) has at least two distinct bases or a"
    " coefficient; distinct by the texts"
)

SIMPLE = ['a', 'b', 'c', 'km', 'x_y', 'b2']


def rational_tree(g, depth=2, **kw):
    """An expression without roots of constants, so that values are exact."""
    return product(g, g.int(0, depth), exact=True, **kw)


def exactly_rational(value):
    return not isinstance(value.coef, float)


@CASES.add(12000)
def round_trip(g):
    tree = product(g, g.int(0, 3), zero=True, exact=True)
    g.note(repr(tree.text))
    if len(tree.value.powers) > 1 or tree.value.coef != 1:
        g.nontrivial(tree.text)
    e = symbolic.Expression(tree.text)
    text = str(e)
    again = symbolic.Expression(text)
    check(value_of(again).powers == value_of(e).powers, f"{text!r} lost powers:", str(again))
    check(float(value_of(again).coef) == float(value_of(e).coef), f"{text!r} changed its coefficient", str(again))
    check(again == e and e == again, f"{text!r} is not equal to its source")
    check(str(again) == text, f"{text!r} is not a fixed point: {again}")
    check(hash(again) == hash(e), f"{text!r} hashes differently from its source")
    check(e == text, "expression is not equal to its text")
    sep = g.choice([' * ', ' ', '*'])
    joined = symbolic.Expression(e.format(separator=sep))
    check(value_of(joined).powers == value_of(e).powers, "separator changed the value", e.format(separator=sep))
    # each term survives on its own, in each position
    for i, term in enumerate(e):
        check(e[i] is term or e[i] == term, "iteration and indexing disagree")
        check(e[i - len(e)] == term, "negative index disagrees")
        one = symbolic.Expression([term])
        check(same(value_of(one), value_of([term])), "term", str(term), "became", str(one))
    check(len(e) == len(list(e)), "length and iteration disagree")
    check(symbolic.Expression(e) is e, "copying an expression made a new one")


@CASES.add(4800)
def single_terms(g):
    """A term survives being written and read, alone or in a list."""
    name = g.choice(['a', 'km', 'b2', 'x_y', '1'])
    coef = Fraction(g.int(-40, 40), g.choice([1, 1, 2, 3, 5, 8, 7]))
    discard(coef == 0)
    expo = Fraction(g.int(-6, 6), g.choice([1, 1, 2, 3]))
    discard(expo == 0)
    if name == '1':
        expo = Fraction(1)
    as_float = g.bool(0.2) and coef.denominator in (1, 2, 8)
    t = symbolic.Term(float(coef) if as_float else coef, name, expo)
    text = str(t)
    g.note(repr(text), coef, name, expo)
    if coef.denominator != 1 or expo.denominator != 1:
        g.nontrivial(text)
    powers = {} if name == '1' else {name: expo}
    for what, again in (
        ('text', symbolic.Expression(text)),
        ('term', symbolic.Expression(t)),
        ('list', symbolic.Expression([t])),
        ('text list', symbolic.Expression([text])),
    ):
        v = value_of(again)
        check(v.powers == powers and v.coef == coef, f"{what}: {text!r} became {str(again)!r}")
    other = product(g, 0, exact=True)
    got = value_of(symbolic.Expression([text, other.text]))
    check(same(got, Product(coef, powers) * other.value), f"{text!r} and {other.text!r} became", got)
    tex = t.format(style='tex')
    check(tex == text if expo == 1 or name == '1' else tex.endswith(f'^{{{expo}}}'), f"{text!r} in tex is {tex!r}")


def respell(g, value):
    """Write the same product in another way."""
    parts = []
    for base, exp in value.powers.items():
        # split the exponent in two, or leave it
        if g.bool(0.4):
            x = Fraction(g.int(-6, 6), g.choice([1, 2, 4]))
            for y in (x, exp - x):
                if y:
                    parts.append((base, y))
            if not x and not exp - x:
                parts.append((base, exp))
        else:
            parts.append((base, exp))
    coef = value.coef
    texts = []
    k = Fraction(g.int(1, 9), g.int(1, 5))
    if coef != 1 or g.bool(0.2):
        if g.bool(0.5):
            texts += [f"{coef / k}", f"{k}"]
        else:
            texts.append(f"{coef}")
    texts += [f"{b}^{e}" if e != 1 or g.bool(0.2) else b for b, e in parts]
    texts = g.shuffle(texts)
    if not texts:
        return '1'
    style = g.choice(['product', 'group', 'list', 'inverse'])
    if style == 'product':
        return ' * '.join(texts)
    if style == 'group':
        i = g.int(0, len(texts))
        a, b = texts[:i], texts[i:]
        return ' * '.join(f"({' * '.join(x)})" for x in (a, b) if x)
    if style == 'list':
        return texts
    n = g.choice([2, 3, 4])
    out = Product(coef ** 1, {b: e * n for b, e in value.powers.items()})
    body = ' * '.join(f"{b}^{e}" for b, e in out.powers.items()) or '1'
    return f"{coef} * ({body})^1/{n}"


@CASES.add(12000)
def spellings(g):
    """Different ways to write one product compare equal."""
    tree = rational_tree(g)
    if not exactly_rational(tree.value) or tree.value.coef <= 0:
        tree.text, tree.value = 'a^2 / b', Product(1, {'a': 2, 'b': -1})
    other = respell(g, tree.value)
    g.note(repr(tree.text), '=', repr(other))
    if len(tree.value.powers) > 1 or tree.value.coef != 1:
        g.nontrivial(tree.text, other)
    a, b = symbolic.Expression(tree.text), symbolic.Expression(other)
    check(a == b, f"{tree.text!r} != {other!r}: {a} vs {b}")
    check(b == a, "equality is not symmetric")
    check(not (a != b), "== and != agree")
    check(hash(a) == hash(b), f"equal expressions hash differently: {a} and {b}")
    check(str(a) == str(b), f"equal expressions print differently: {a} and {b}")
    check(a == other, "equality with text fails", str(a), other)
    check(symbolic.equality(tree.text, other), "equality() disagrees")
    check(not a.difference(b, symmetric=True), "equal expressions differ by", a.difference(b, symmetric=True))


@CASES.add(12000)
def inequality(g):
    """Equality holds only between equal products."""
    tree = rational_tree(g)
    value = tree.value
    kind = g.choice(['exponent', 'coefficient', 'drop', 'add', 'rename', 'other'])
    powers, coef = dict(value.powers), value.coef
    if not exactly_rational(value):
        powers, coef, tree.text = {'a': Fraction(2)}, Fraction(1), 'a^2'
    if kind == 'exponent' and powers:
        k = g.choice(sorted(powers))
        powers[k] += Fraction(g.choice([1, -1, 2]), g.choice([1, 2, 10]))
    elif kind == 'coefficient':
        coef = coef * Fraction(g.choice([2, 3, -1, 10]), g.choice([1, 7]))
    elif kind == 'drop' and powers:
        powers.pop(g.choice(sorted(powers)))
    elif kind == 'add':
        powers['zz'] = Fraction(g.choice([1, -1, 2]))
    elif kind == 'rename' and powers:
        k = g.choice(sorted(powers))
        powers['zz'] = powers.pop(k)
    else:
        t = rational_tree(g)
        if not exactly_rational(t.value):
            return
        powers, coef = t.value.powers, t.value.coef
    powers = {k: v for k, v in powers.items() if v}
    text = ' * '.join([f"{coef}"] + [f"{k}^{v}" for k, v in powers.items()])
    a, b = symbolic.Expression(tree.text), symbolic.Expression(text)
    g.note(kind, repr(tree.text), repr(text))
    want = value_of(a).powers == powers and value_of(a).coef == coef
    g.event('equal' if want else 'unequal')
    g.nontrivial(tree.text, text)
    check((a == b) is want, f"{a} == {b} is {a == b}, expected {want}")
    check((b == a) is want, "equality is not symmetric")
    if want:
        check(hash(a) == hash(b), "equal but hash differs")
    # Set differences follow the terms.
    ta = {(t.base, t.exponent, t.coefficient) for t in a}
    tb = {(t.base, t.exponent, t.coefficient) for t in b}
    key = lambda ts: {(t.base, t.exponent, t.coefficient) for t in ts}
    check(key(a.difference(b)) == ta - tb, "one-sided difference is wrong", a.difference(b))
    check(key(a.difference(b, symmetric=True)) == ta ^ tb, "symmetric difference is wrong")
    left, right = a.difference(b, split=True)
    check((key(left), key(right)) == (ta - tb, tb - ta), "split difference is wrong", left, right)
