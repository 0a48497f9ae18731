"""Unit identity: one unit per meaning, equality by size, exact algebra."""

import math
from fractions import Fraction

from goats.core import metric

from pbt.case import Cases
from pbt.engine import check, discard
from pbt import units
from pbt.units import Factor

CASES = Cases()
RULE = (
    "at least two unit terms, or two different spellings; distinct by texts"
)
ASSUMPTIONS = [
    "algebra and equality by size are generated over mks and system-independent"
    " units; Gaussian electromagnetic units take part in spelling and identity",
]

MECH = [
    u for u in units.UNITS
    if not u.gaussian and u.symbol not in ('e', 'lm', 'lx')
]


def factors(g, lo=1, hi=3, pool=MECH):
    chosen = g.sample(pool, g.size(lo, hi, 2))
    return [Factor(units.prefix(g, u), u, g.choice(units.EXPONENTS)) for u in chosen]


def scaled(g, text, chance=0.15):
    """Perhaps the same unit with a numerical factor in front."""
    if not g.bool(chance):
        return text, 0.0
    c = g.choice(['2', '3', '0.5', '1000', '7', '0.25', '1e-3', '1.001', '0.999999'])
    form = g.choice(['{} * ({})', '{} ({})'])
    return form.format(c, text), math.log10(float(c))


@CASES.add(8000)
def spellings(g):
    """All ways to write one product of units give one object."""
    a = factors(g, 1, 4, units.UNITS)
    texts = [units.text(g, a, names=False) for _ in range(g.int(2, 4))]
    g.note(*[repr(t) for t in texts])
    if len(set(texts)) > 1:
        g.nontrivial(tuple(texts))
    made = [metric.Unit(t) for t in texts]
    for t, u in zip(texts, made):
        check(u is made[0], f"{texts[0]!r} and {t!r} are different objects: {made[0]} and {u}")
        check(u == t and t == u, f"{t!r} is not equal to its text")
        check(metric.Unit(u) is u, "a unit of a unit is another unit")
        check(metric.Unit(str(u)) is u, f"{str(u)!r} is not the unit that printed it")
    size, vector = units.read(made[0])
    check(units.near(size, units.log_si(a)) and vector == units.dims(a), f"{texts[0]!r} became {made[0]}")


@CASES.add(4800)
def names(g):
    """The symbol, the name, and the aliases of a unit are one unit."""
    u = g.choice(units.UNITS)
    p = units.prefix(g, u)
    f = Factor(p, u, 1)
    forms = [f.symbol, f.name]
    if p == 'u':
        forms.append('μ' + u.symbol)
    forms = g.shuffle(forms)
    g.note(*[repr(t) for t in forms])
    g.nontrivial(tuple(forms))
    named = [metric.NamedUnit(t) for t in forms]
    for t, n in zip(forms, named):
        check(n is named[0], f"{t!r} is another unit than {forms[0]!r}")
        check(n == t and n == named[0], f"{t!r} is unequal to itself")
        check(hash(n) == hash(named[0]), "hash differs")
        check(n.symbol == f.symbol.replace('u', 'μ', 1) if p == 'u' else n.symbol == f.symbol, f"symbol of {t!r} is {n.symbol!r}")
        check(units.same(n.scale, 10.0 ** units.PREFIXES[p][1]), f"scale of {t!r} is {n.scale}")
        check(n.base.symbol == u.symbol, f"base of {t!r} is {n.base.symbol!r}")
    if p != 'u':
        made = [metric.Unit(t) for t in forms]
        check(all(m is made[0] for m in made), f"units differ: {forms}")


@CASES.add(8000)
def algebra(g):
    """Products, quotients, and powers have the right size and dimension."""
    a, b = factors(g), factors(g)
    discard(not units.moderate(a, b, limit=60))
    (ta, ca), (tb, cb) = (scaled(g, units.text(g, f)) for f in (a, b))
    n = g.choice([2, 3, -1, -2, 0.5, -0.5, Fraction(1, 3), 1])
    op = g.choice(['mul', 'div', 'pow', 'mul text', 'div text', 'rmul text', 'rdiv text', 'self mul', 'self div'])
    x, y = metric.Unit(ta), metric.Unit(tb)
    la, lb = ca + units.log_si(a), cb + units.log_si(b)
    da, db = units.dims(a), units.dims(b)
    plus = tuple(i + j for i, j in zip(da, db))
    minus = tuple(i - j for i, j in zip(da, db))
    if op == 'mul':
        got, size, vec = x * y, la + lb, plus
    elif op == 'mul text':
        got, size, vec = x * tb, la + lb, plus
    elif op == 'rmul text':
        got, size, vec = ta * y, la + lb, plus
    elif op == 'div':
        got, size, vec = x / y, la - lb, minus
    elif op == 'div text':
        got, size, vec = x / tb, la - lb, minus
    elif op == 'rdiv text':
        got, size, vec = ta / y, la - lb, minus
    elif op == 'self mul':
        got, size, vec = x * metric.Unit(ta), 2 * la, tuple(2 * i for i in da)
    elif op == 'self div':
        got, size, vec = x / metric.Unit(ta), 0.0, (0,) * 7
    else:
        got, size, vec = x ** n, la * float(n), tuple(i * Fraction(n) for i in da)
    g.note(op, repr(ta), repr(tb) if op != 'pow' else repr(n), '=', str(got))
    g.nontrivial(op, ta, tb if op != 'pow' else repr(n))
    check(isinstance(got, metric.Unit), f"{op} made a {type(got).__name__}")
    s, v = units.read(got)
    check(v == tuple(Fraction(i) for i in vec), f"{op} of {ta!r}, {tb!r}, {n}: {got} has dimension {v}")
    check(abs(s - size) < 1e-9 * max(1, abs(s), abs(size)), f"{op} of {ta!r}, {tb!r}, {n}: {got} is 10^{s}, expected 10^{size}")
    check((str(x), str(y)) == (str(metric.Unit(ta)), str(metric.Unit(tb))), "an operand changed")


@CASES.add(6400)
def equality(g):
    """Units are equal exactly when they have one dimension and one size."""
    a = factors(g)
    kind = g.choice(['same', 'expand', 'rescale', 'other', 'count', 'repower', 'reprefix', 'balance', 'factor', 'ratio'])
    want = None
    if kind == 'same':
        b, want = list(a), True
    elif kind == 'expand':
        u = units.BY_SYMBOL[g.choice(['N', 'J', 'Pa', 'W', 'V', 'Wb', 'T', 'F', 'H', 'C'])]
        e = g.choice([1, -1, 2, Fraction(1, 2)])
        a = [Factor('', u, e)]
        b, want = units.base_factors(units.dims(a)), True
    elif kind == 'rescale':
        b = units.substitute(g, a)
        discard(any(f.unit.gaussian or f.unit.symbol == 'e' for f in b))
        want = abs(units.log_si(a) - units.log_si(b)) < 1e-12
    elif kind in ('repower', 'reprefix'):
        # The same symbols to other powers, or the same powers of other scales.
        b = [
            Factor(f.prefix, f.unit, g.choice(units.EXPONENTS)) if kind == 'repower'
            else Factor(units.prefix(g, f.unit), f.unit, f.exp)
            for f in a
        ]
        if units.dims(a) != units.dims(b) or abs(units.log_si(a) - units.log_si(b)) > 1e-6:
            want = False
    elif kind == 'ratio':
        # A dimensionless ratio, with one side reduced to base units.
        u = units.BY_SYMBOL[g.choice(['N', 'J', 'Pa', 'W', 'V', 'Wb', 'T', 'F', 'H', 'C'])]
        top = Factor(units.prefix(g, u), u, 1)
        below = Factor('' if g.bool(0.7) else units.prefix(g, u), u, -1)
        a = [top, below]
        b, want = [top] + units.base_factors(units.dims([below])), below.prefix == ''
    elif kind in ('count', 'factor'):
        b, want = list(a), True
    elif kind == 'balance':
        # Prefixes move from one factor to another without a change in size.
        a = units.compound(g, 2, 2, ['length', 'mass', 'time', 'energy', 'force', 'current', 'temperature', 'induction', 'charge', 'amount'], [1, -1])
        total = sum(units.PREFIXES[f.prefix][1] * f.exp for f in a)
        options = [
            (p, q)
            for p, (_, m) in sorted(units.PREFIXES.items())
            for q, (_, n) in sorted(units.PREFIXES.items())
            if m * a[0].exp + n * a[1].exp == total
            and (p, a[0].unit.symbol) not in units.AMBIGUOUS
            and (q, a[1].unit.symbol) not in units.AMBIGUOUS
        ]
        p, q = g.choice(options)
        b, want = [Factor(p, a[0].unit, a[0].exp), Factor(q, a[1].unit, a[1].exp)], True
    else:
        b = factors(g)
        if units.dims(a) != units.dims(b):
            want = False
        elif abs(units.log_si(a) - units.log_si(b)) > 1e-6:
            want = False
    discard(not units.moderate(a, b, limit=60))
    ta, tb = units.text(g, a), units.text(g, b)
    if want:
        ta, ca = scaled(g, ta, 0.7 if kind == 'factor' else 0.1)
        tb, cb = scaled(g, tb, 0.7 if kind == 'factor' else 0.1)
        want = ca == cb
    if kind == 'count':
        tb = f"# * {tb}" if g.bool() else f"({tb}) / #"
    g.note(kind, repr(ta), repr(tb), want)
    g.event(kind)
    if want is None:
        return
    if ta != tb:
        g.nontrivial(ta, tb)
    x, y = metric.Unit(ta), metric.Unit(tb)
    check((x == y) is want, f"{ta!r} == {tb!r} is {x == y}, expected {want}")
    check((y == x) is want, f"{tb!r} == {ta!r} is {y == x}, expected {want}")
    check((x == tb) is want and (x != tb) is not want, f"comparison of {ta!r} with text {tb!r}")
