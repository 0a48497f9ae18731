"""Parsing: the value of an expression is the product that its text denotes."""

from goats.core import symbolic

from pbt.case import Cases
from pbt.engine import check, raises
from pbt.exprs import DEFAULT, product, exponent, number
from pbt.model import close, Product
from pbt.sym import same, value_of

CASES = Cases()
RULE = (
    "an expression with at least two operands, or a nested group, a root, a"
    " fractional exponent or a non-default token; distinct by its text"
)
ASSUMPTIONS = [
    "numeric coefficients compare with a relative tolerance of 1e-9 once a"
    " fractional power of a constant has been taken, exactly otherwise",
]


def declare(g, tree):
    if tree.terms > 1 or tree.depth or tree.roots or tree.value.powers:
        g.nontrivial(tree.text)
    g.event(f'depth {tree.depth}')
    if tree.roots:
        g.event('root')
    if any(v.denominator > 9 for v in tree.value.powers.values()):
        g.event('multi-digit denominator')


@CASES.add(24000)
def text_to_value(g):
    tree = product(g, g.int(0, 4), zero=True)
    g.note(repr(tree.text))
    declare(g, tree)
    got = symbolic.Expression(tree.text)
    check(
        same(value_of(got), tree.value),
        f"{tree.text!r} parsed as", value_of(got), "instead of", tree.value,
    )
    # Each base occurs once, no null powers, at most one numerical term, first.
    bases = [t.base for t in got]
    check(len(set(bases)) == len(bases), "repeated base in", bases)
    check(all(t.exponent != 0 for t in got), "null power in", str(got))
    check(len(got) >= 1, "no terms")
    check('1' not in bases[1:], "numerical term is not first", str(got))
    if len(bases) > 1 and bases[0] == '1':
        check(got[0].coefficient != 1, "redundant unity in", str(got))
    exps = [t.exponent for t in got if t.base != '1']
    check(exps == sorted(exps, reverse=True), "terms are out of order", str(got))


TOKENS = [
    dict(DEFAULT, multiply='&'), dict(DEFAULT, divide='|'),
    dict(DEFAULT, opening='[', closing=']'), dict(DEFAULT, raising='~'),
    dict(multiply='@', divide='%', opening='<', closing='>', raising='!'),
]


@CASES.add(4800)
def custom_tokens(g):
    tok = g.choice(TOKENS)
    tree = product(g, g.int(0, 3), tok)
    g.note(repr(tree.text), repr(tok))
    g.nontrivial(tree.text, sorted(tok.items()))
    got = symbolic.Expression(tree.text, **tok)
    check(
        same(value_of(got), tree.value),
        f"{tree.text!r} parsed as", value_of(got), "instead of", tree.value,
    )


@CASES.add(7200)
def strict_order(g):
    tok = g.choice(TOKENS) if g.bool(0.3) else DEFAULT
    tree = product(g, g.int(0, 3), tok, lo=2, hi=6)
    options = dict(tok, operator_order='error')
    g.note(repr(tree.text), 'ambiguous' if tree.ambiguous else 'clear')
    g.event('ambiguous' if tree.ambiguous else 'clear')
    declare(g, tree)
    if tree.ambiguous:
        with raises(symbolic.ParsingError, what=repr(tree.text)):
            symbolic.Expression(tree.text, **options)
    else:
        got = symbolic.Expression(tree.text, **options)
        check(same(value_of(got), tree.value), f"{tree.text!r} parsed as", value_of(got))


@CASES.add(7200)
def from_parts(g):
    parts = [product(g, g.int(0, 2), hi=3) for _ in range(g.int(1, 5))]
    want = Product()
    for p in parts:
        want = want * p.value
    kind = g.choice(['list', 'tuple', 'expressions', 'iterator'])
    items = [p.text for p in parts]
    g.note(kind, repr(items))
    if len(parts) > 1:
        g.nontrivial(kind, tuple(items))
    if kind == 'tuple':
        arg = tuple(items)
    elif kind == 'expressions':
        arg = [symbolic.Expression(i) for i in items]
    elif kind == 'iterator':
        arg = iter(items)
    else:
        arg = items
    got = symbolic.Expression(arg)
    check(same(value_of(got), want), f"{items} combined as", value_of(got), "not", want)


@CASES.add(4800)
def malformed(g):
    """Text with a token out of place is refused, not read as something else."""
    tree = product(g, g.int(0, 3))
    text = tree.text
    kind = g.choice(['open', 'close', 'dangling', 'raise', 'double', 'symbol', 'end'])
    if kind == 'open':
        bad = '(' + text
    elif kind == 'close':
        bad = text + ')'
    elif kind == 'dangling':
        bad = text + g.choice([' *', ' /', '*', ' / '])
    elif kind == 'raise':
        bad = 'a' + g.choice(['^', '^b', '^(2)', '^{2}', '^^2']) + ' * ' + text
    elif kind == 'double':
        bad = 'a ' + g.choice(['**', '//', '*/', '/*']) + ' ' + text
    elif kind == 'symbol':
        bad = 'a ' + g.choice(['+', '-', '?', '|v|', ',', '=', '$']) + ' b ' + text
    else:
        bad = text + g.choice([' ^', ' ?', ' )', ' +'])
    g.note(kind, repr(bad))
    g.nontrivial(bad)
    g.event(kind)
    with raises(symbolic.ParsingValueError, symbolic.ParsingError, what=repr(bad)):
        symbolic.Expression(bad)


@CASES.add(7200)
def terms(g):
    """A single operand resolves to its coefficient, base, and exponent."""
    name = g.choice(['a', 'km', 'b2', 'x_y', '#'])
    ct, cv = number(g, sign=True)
    et, ev = exponent(g, zero=True)
    form = g.int(0, 6)
    factory = symbolic.OperandFactory()
    g.note('form', form, ct, name, et)
    g.nontrivial(form, ct, name, et)
    if form == 0:
        t, want = factory.create(f'{ct}{name}^{et}'), (cv, name, ev)
    elif form == 1:
        t, want = factory.create(cv, name, ev), (cv, name, ev)
    elif form == 2:
        t, want = factory.create(name, ev), (1, name, ev)
    elif form == 3:
        t, want = factory.create(cv, name), (cv, name, 1)
    elif form == 4:
        t, want = symbolic.Term(coefficient=cv, base=name, exponent=ev), (cv, name, ev)
    elif form == 5:
        k = g.int(1, 4)
        t, want = symbolic.Term(cv, name, ev) ** k, (cv ** k, name, ev * k)
    else:
        k = g.int(1, 9)
        t = symbolic.Term(cv, name, ev)
        t, want = g.choice([lambda: t * k, lambda: k * t])(), (cv * k, name, ev)
    check(
        (t.base, t.exponent) == want[1:] and close(t.coefficient, want[0]),
        f"got {t.coefficient}, {t.base!r}, {t.exponent}; expected {want}",
    )
    v = g.choice([1, 2, 0.5, 4])
    try:
        expected = float(t.coefficient) * float(v) ** float(t.exponent)
    except OverflowError:
        return
    check(close(float(t(v)), expected), "evaluated", str(t), "at", v, "as", float(t(v)))
