"""Soundness: no conversion factor exists between different physical kinds."""

import math
from fractions import Fraction

from goats.core import metric

from pbt.case import Cases
from pbt.engine import check, discard, raises
from pbt import units
from pbt.units import Factor

CASES = Cases()
RULE = (
    "both units have at least one dimensional term, and they are not spelled"
    " alike; distinct by both texts"
)
ASSUMPTIONS = [
    "Gaussian electromagnetic units, and the mks units that correspond to a"
    " Gaussian unit of another dimension (F, S, ohm, H, Wb), are outside the"
    " generated domain, because the correspondence makes units of different"
    " dimensions convertible on purpose",
]

FAMS = [
    'length', 'mass', 'time', 'current', 'temperature', 'amount', 'intensity',
    'energy', 'force', 'pressure', 'power', 'charge', 'potential',
    'induction', 'dosage', 'viscosity', 'angle', 'solid angle', 'frequency',
    'activity', 'illuminance',
]
POOL = [
    u for u in units.UNITS
    if u.family in FAMS and not u.gaussian and u.symbol != 'e'
]
INTEGER = [1, 1, 1, -1, -1, 2, -2, 3, -3]


def factors(g, lo=1, hi=3):
    chosen = g.sample(POOL, g.size(lo, hi, 2))
    return [Factor(units.prefix(g, u), u, g.choice(INTEGER)) for u in chosen]


def ask(g, t0, t1):
    """The factor, or None if it is refused in the documented way."""
    way = g.choice(['conversion', 'strict', 'floordiv', 'text'])
    if way == 'conversion':
        return way, metric.conversion(t0, t1)
    try:
        if way == 'strict':
            return way, metric.conversion(t0, t1, strict=True)
        if way == 'floordiv':
            return way, metric.Unit(t1) // metric.Unit(t0)
        return way, metric.Unit(t1) // t0
    except metric.UnitConversionError:
        return way, None


@CASES.add(8000)
def unlike(g):
    """Units of different dimension do not convert and are not consistent."""
    a, b = factors(g), factors(g)
    if g.bool(0.5):
        # a near miss: one exponent or one kind apart
        b = units.substitute(g, a)
        b = [f for f in b if not f.unit.gaussian and f.unit.symbol != 'e']
        discard(len(b) != len(a))
        i = g.int(0, len(b) - 1)
        if g.bool():
            b[i].exp += g.choice([1, -1, 2, -2])
        else:
            u = g.choice(POOL)
            b[i] = Factor('', u, b[i].exp)
        b = [f for f in b if f.exp]
    discard(units.dims(a) == units.dims(b))
    discard(not units.moderate(a, b))
    if g.bool(0.25):
        # Roots of unlike units are unlike.
        n = g.choice([2, 3, Fraction(2, 3)])
        a, b = ([Factor(f.prefix, f.unit, Fraction(f.exp) / n) for f in x] for x in (a, b))
        g.event('roots')
    t0, t1 = units.text(g, a), units.text(g, b)
    way, got = ask(g, t0, t1)
    g.note(way, repr(t0), '->', repr(t1))
    if any(units.dims(a)) and any(units.dims(b)):
        g.nontrivial(t0, t1)
    check(got is None, f"{way}: {t0!r} converts to {t1!r} with factor {got!r}")
    check(not (metric.Unit(t0) | t1), f"{t0!r} is said to be consistent with {t1!r}")
    check(not (metric.Unit(t0) == metric.Unit(t1)), f"{t0!r} equals {t1!r}")
    check(metric.Unit(t0) != t1, f"{t0!r} equals text {t1!r}")


@CASES.add(8000)
def alike(g):
    """Between units of one dimension, a factor is right whenever it exists."""
    a = factors(g, 1, 3)
    b = factors(g, 0, 2)
    rest = [x - y for x, y in zip(units.dims(a), units.dims(b))]
    for f in units.base_factors(rest):
        fam = [
            x for x in units.FAMILIES[f.unit.family] if not x.gaussian
        ]
        v = f.unit if g.bool(0.7) else g.choice(fam)
        p = f.prefix if v is f.unit and g.bool(0.6) else units.prefix(g, v)
        b.append(Factor(p, v, f.exp))
    discard(not units.moderate(a, b))
    t0, t1 = units.text(g, a), units.text(g, b)
    if g.bool():
        a, b, t0, t1 = b, a, t1, t0
    way, got = ask(g, t0, t1)
    g.note(way, repr(t0), '->', repr(t1), '=', repr(got))
    g.event('refused' if got is None else 'converted')
    if any(units.dims(a)):
        g.nontrivial(t0, t1)
    check(metric.Unit(t0) | t1, f"{t0!r} and {t1!r} have one dimension but are inconsistent")
    if got is None:
        return
    d = units.log_si(a) - units.log_si(b)
    check(got > 0, f"{t0!r} -> {t1!r}: {got!r}")
    check(
        abs(math.log10(got) - d) < 1e-9 * max(1.0, abs(d)),
        f"{way}: {t0!r} -> {t1!r}: got {got!r}, expected {10.0 ** d!r}",
    )


@CASES.add(3200)
def unknown(g):
    """Text that names no unit is refused as a unit, wherever it occurs."""
    bad = g.choice(['foo', 'parsec', 'qm', 'kkm', 'mmx', 'xs', 'Km', 'seconds', 'meters', 'kq', 'blah2', 'ccm'])
    a = units.compound(g, 0, 2)
    t = units.text(g, a)
    t0 = f"{t} * {bad}^{g.choice([1, -1, 2])}" if a else bad
    good = units.text(g, units.compound(g, 1, 2))
    g.note(repr(t0), repr(good))
    g.nontrivial(t0, good)
    for u0, u1 in ((t0, good), (good, t0)):
        with raises(metric.UnitParsingError, metric.UnitConversionError, what=f"{u0!r} -> {u1!r}"):
            got = metric.conversion(u0, u1, strict=True)
    with raises(metric.UnitParsingError, what=bad):
        metric.NamedUnit(bad)
