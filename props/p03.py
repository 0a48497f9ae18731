"""Algebra: products, quotients, and powers of expressions obey the model."""

from fractions import Fraction

from goats.core import symbolic

from pbt.case import Cases
from pbt.engine import check, raises
from pbt.exprs import product
from pbt.model import Product
from pbt.sym import same, value_of

CASES = Cases()
RULE = (
    "a history of at least two operations on expressions with at least two"
    " bases in all; distinct by the history"
)

NAMES = ['a', 'b', 'c', 'km', 'x_y', 'b2', 'eV']


def operand(g):
    tree = product(g, g.int(0, 2), names=NAMES, roots=False, hi=4)
    coef = tree.value.coef
    if isinstance(coef, float) or not Fraction(1, 10**25) < coef < 10**25:
        tree.text, tree.value = 'a^1/12 / b', Product(1, {'a': Fraction(1, 12), 'b': -1})
    return tree


def power(g):
    return g.choice([
        2, 3, -1, -2, 1, Fraction(1, 2), Fraction(3, 2), 0.5, 1.5, -0.5, 0.25,
        Fraction(1, 3), Fraction(-2, 3), Fraction(1, 10), 4, 2.0,
        Fraction(3, 128), Fraction(1, 250), 0.0078125,
    ])


@CASES.add(16000)
def histories(g):
    """Every step of a chain of operations has the value of the model."""
    t = operand(g)
    e, v = symbolic.Expression(t.text), t.value
    log = [t.text]
    bases = set(v.powers)
    snapshots = [(e, str(e))]
    for _ in range(g.size(1, 6, 3)):
        op = g.choice(['mul', 'div', 'pow', 'rmul', 'rdiv', 'mul_text', 'div_text', 'f_mul', 'f_div', 'f_pow', 'scalar'])
        if op in ('pow', 'f_pow'):
            n = power(g)
            frac = Fraction(n)
            if any((x * frac).denominator > 2000 or abs(x * frac) > 200 for x in v.powers.values()):
                continue
            if abs(float(v.coef)) > 1e8 or abs(float(v.coef)) < 1e-8:
                continue
            log.append(f"** {n!r}")
            e = e ** n if op == 'pow' else symbolic.power(e, n)
            v = v ** frac
        elif op == 'scalar':
            k = g.choice([2, 3, 0.5, 10, 0.25, Fraction(3, 4)])
            side = g.choice(['mul', 'rmul', 'div', 'rdiv'])
            log.append(f"{side} {k!r}")
            c = Product(Fraction(k))
            if side == 'mul':
                e, v = e * k, v * c
            elif side == 'rmul':
                e, v = k * e, c * v
            elif side == 'div':
                e, v = e / k, v / c
            else:
                e, v = k / e, c / v
        else:
            o = operand(g)
            oe = symbolic.Expression(o.text)
            before = str(oe)
            log.append(f"{op} {o.text!r}")
            bases |= set(o.value.powers)
            if op == 'mul':
                e, v = e * oe, v * o.value
            elif op == 'div':
                e, v = e / oe, v / o.value
            elif op == 'rmul':
                e, v = oe * e, o.value * v
            elif op == 'rdiv':
                e, v = oe / e, o.value / v
            elif op == 'mul_text':
                e, v = g.choice([lambda: e * o.text, lambda: o.text * e])(), v * o.value
            elif op == 'div_text':
                if g.bool():
                    e, v = e / o.text, v / o.value
                else:
                    e, v = o.text / e, o.value / v
            elif op == 'f_mul':
                e, v = symbolic.product(e, o.text), v * o.value
            else:
                e, v = symbolic.ratio(o.text, e), o.value / v
            check(str(oe) == before, "an operand changed:", before, "->", str(oe))
        check(
            same(value_of(e), v),
            f"after {log}: {value_of(e)} instead of {v}",
        )
        snapshots.append((e, str(e)))
        if max(abs(float(v.coef)), 1 / abs(float(v.coef))) > 1e30:
            break
    g.note(' , '.join(log))
    if len(log) > 2 and len(bases) > 1:
        g.nontrivial(tuple(log))
    g.event(f'steps {len(log) - 1}')
    for old, text in snapshots:
        check(str(old) == text, "an earlier result changed:", text, "->", str(old))


@CASES.add(8000)
def laws(g):
    a, b, c = (symbolic.Expression(operand(g).text) for _ in range(3))
    g.note(str(a), '|', str(b), '|', str(c))
    g.nontrivial(str(a), str(b), str(c))

    def eq(x, y, law):
        check(same(value_of(x), value_of(y)), f"{law} fails: {x} vs {y}")

    eq(a * b, b * a, 'commutativity')
    eq((a * b) * c, a * (b * c), 'associativity')
    eq((a * b) / b, a, 'cancellation')
    eq(a / b, a * b ** -1, 'division as inverse power')
    eq((a / b) ** -1, b / a, 'inverse of a ratio')
    eq(a * '1', a, 'identity')
    check(a / a == '1', "a / a is", str(a / a))
    eq(a * a, a ** 2, 'square')
    eq((a * b) ** 2, a ** 2 * b ** 2, 'power of a product')
    eq((a ** 2) ** Fraction(1, 2), a, 'root of a square')
    eq((a ** Fraction(1, 3)) ** 3, a, 'cube of a cube root')


@CASES.add(4000)
def combining(g):
    """Reduction of any grouping of terms has the value of their product."""
    groups, want, texts = [], Product(), []
    for _ in range(g.int(1, 4)):
        group = []
        for _ in range(g.int(1, 4)):
            base = g.choice(NAMES + ['1'])
            coef = Fraction(g.int(1, 9), g.choice([1, 2, 5, 8]))
            exp = Fraction(g.choice([1, -1, 2, -2, 3, 5]), g.choice([1, 1, 2, 3, 10]))
            group.append(symbolic.Term(coefficient=coef, base=base, exponent=exp))
            want = want * Product(coef, {} if base == '1' else {base: exp})
            texts.append(f"{coef}*{base}^{exp}")
        groups.append(group)
    g.note(' , '.join(texts))
    if len(texts) > 1:
        g.nontrivial(tuple(texts))
    got = symbolic.reduce(*groups)
    check(same(value_of(got), want), "reduced to", value_of(got), "not", want)
    bases = [t.base for t in got]
    check(len(set(bases)) == len(bases), "bases repeat", bases)


@CASES.add(4000)
def parts(g):
    """An expression is a sequence of its terms, and maps term by term."""
    t = operand(g)
    e = symbolic.Expression(t.text)
    terms = list(e)
    n = len(terms)
    i, j = g.int(-n - 3, n + 3), g.int(-n - 3, n + 3)
    g.note(str(e), i, j)
    if n > 1:
        g.nontrivial(str(e), i, j)
    check(n == len(e), "iterates over", n, "terms but has length", len(e))
    if -n <= i < n:
        check(e[i] == terms[i] and e[i] is not None, f"term {i} of {e} is {e[i]}")
    else:
        with raises(IndexError, what=f"term {i} of {n}"):
            e[i]
    check(list(e[i:j]) == terms[i:j], f"terms {i}:{j} of {e} are {e[i:j]}")
    # Update each base; the coefficient and the exponents stay.
    def update(base):
        return symbolic.Expression(base if base == '1' else f'new_{base}')
    got = e.apply(update)
    want = Product(t.value.coef, {f'new_{k}': v for k, v in t.value.powers.items()})
    check(same(value_of(got), want), f"renaming the bases of {e} gave {got}")
    check(list(e) == terms, f"renaming the bases changed {e}")
    # A numerical term is a number; no other term is.
    c = g.choice([2, 2.7, -1.6, 0.5, Fraction(7, 4), 1e3, -3])
    number = symbolic.Term(coefficient=c)
    check(float(number) == float(c), f"float of {c!r} is {float(number)}")
    check(int(number) == int(c), f"int of {c!r} is {int(number)}")
    for convert in (int, float):
        with raises(TypeError, what=f"{convert.__name__} of a variable"):
            convert(symbolic.Term(coefficient=c, base='a'))
