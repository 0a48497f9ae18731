"""Conversion factors equal the ratio of the physical sizes of the units."""

import math
from fractions import Fraction

from goats.core import metric

from pbt.case import Cases
from pbt.engine import check
from pbt import units
from pbt.units import Factor

CASES = Cases()
RULE = "the two units differ in spelling and in size; distinct by both texts"
ASSUMPTIONS = [
    "factors agree with an independent table to 1e-9 relative; constants"
    " that goats takes from the NRL formulary (1 eV = 1.6022e-19 J) use the"
    " same published digits",
]


def expected(a, b):
    d = units.log_si(a) - units.log_si(b)
    return d


def verify(got, a, b, what):
    check(isinstance(got, float), f"{what}: expected a number, got {got!r}")
    check(got > 0, f"{what}: factor {got}")
    d = expected(a, b)
    check(
        abs(math.log10(got) - d) < 1e-9 * max(1.0, abs(d)),
        f"{what}: got {got!r}, expected {10.0 ** d!r}",
    )


def apis(g, t0, t1):
    """One of the ways to ask for the factor from `t0` to `t1`."""
    way = g.choice(['conversion', 'unit', 'strict', 'floordiv', 'floordiv text', 'text floordiv', 'Conversion'])
    if way == 'conversion':
        return way, lambda: metric.conversion(t0, t1)
    if way == 'unit':
        return way, lambda: metric.conversion(metric.Unit(t0), metric.Unit(t1))
    if way == 'strict':
        return way, lambda: metric.conversion(t0, t1, strict=True)
    if way == 'floordiv':
        return way, lambda: metric.Unit(t1) // metric.Unit(t0)
    if way == 'floordiv text':
        return way, lambda: metric.Unit(t1) // t0
    if way == 'text floordiv':
        return way, lambda: t1 // metric.Unit(t0)
    return way, lambda: float(metric.Conversion(t0, t1))


def record(g, kind, t0, t1, a, b):
    g.note(kind, repr(t0), '->', repr(t1))
    if t0 != t1 and abs(expected(a, b)) > 1e-12:
        g.nontrivial(t0, t1)


@CASES.add(4800)
def single(g):
    """Units of one kind, with any prefixes."""
    fam = g.choice(sorted(units.FAMILIES))
    u, v = (g.choice(units.FAMILIES[fam]) for _ in range(2))
    a, b = [Factor(units.prefix(g, u), u, 1)], [Factor(units.prefix(g, v), v, 1)]
    t0, t1 = ((f.name if g.bool(0.3) else f.symbol) for f in (a[0], b[0]))
    way, ask = apis(g, t0, t1)
    record(g, way, t0, t1, a, b)
    g.event(f'{fam}')
    verify(ask(), a, b, f"{way} {t0!r} -> {t1!r}")


@CASES.add(8000)
def compound(g):
    """Products of powers of units, converted term by term."""
    a = units.compound(g)
    b = units.substitute(g, a)
    t0, t1 = units.text(g, a), units.text(g, b)
    way, ask = apis(g, t0, t1)
    record(g, way, t0, t1, a, b)
    g.event(f'{len(a)} terms')
    verify(ask(), a, b, f"{way} {t0!r} -> {t1!r}")


MKS = ['N', 'J', 'Pa', 'W', 'C', 'V', 'F', 'Wb', 'H', 'T', 'S', 'Gy']
CGS = ['erg', 'dyn', 'P']


@CASES.add(4800)
def derived(g):
    """A derived unit and base units of its dimension, with any prefixes."""
    u = units.BY_SYMBOL[g.choice(MKS + CGS)]
    exp = g.choice([1, 1, 1, -1, 2, -2, Fraction(1, 2)])
    a = [Factor(units.prefix(g, u), u, exp)]
    b = []
    for f in units.base_factors(units.dims(a)):
        fam = [x for x in units.FAMILIES[f.unit.family] if not x.gaussian]
        v = f.unit if g.bool(0.6) else g.choice(fam)
        p = f.prefix if v is f.unit and g.bool(0.6) else units.prefix(g, v)
        b.append(Factor(p, v, f.exp))
    extra = []
    if g.bool(0.4):
        used = {f.unit.family for f in a + b}
        fams = [n for n in ('temperature', 'amount', 'angle', 'solid angle') if n not in used]
        extra = units.compound(g, 1, 1, fams)
    a, b = a + extra, b + extra
    t0, t1 = units.text(g, a), units.text(g, b)
    if g.bool():
        a, b, t0, t1 = b, a, t1, t0
    way, ask = apis(g, t0, t1)
    record(g, way, t0, t1, a, b)
    g.event(u.symbol)
    verify(ask(), a, b, f"{way} {t0!r} -> {t1!r}")


PAIRS = [
    # Relations between compound units of the two metric systems.
    ('F', 'cm', C2 := units.C ** 2 * 1e-9),
    ('S', 'cm / s', C2),
    ('ohm', 's / cm', 1 / C2),
    ('H', 's^2 / cm', 1 / C2),
    ('A / m', 'Oe', 4 * math.pi * 1e-3),
    ('H / m', '1', 1e7 / (4 * math.pi)),
    ('F / m', '1', 36 * math.pi * 1e9),
    ('A / Wb', '1 / cm', 4 * math.pi * 1e-9),
    ('Wb / m', 'G * cm', 1e6),
    ('kg / (m * s)', 'P', 10.0),
    ('W', 'erg / s', 1e7),
    ('Pa', 'dyn / cm^2', 10.0),
    ('Gy', 'erg / g', 1e4),
    ('nuc', 'kg', 1.6605e-27),
    ('amu', 'kg', 1.6605e-27),
    ('V / m', 'statV / cm', 1e6 / units.C),
    ('C / m^3', 'statC / cm^3', units.C * 1e-7),
    ('A / m^2', 'statA / cm^2', units.C * 1e-5),
    ('kg m / (s C)', 'g cm / (s statC)', 1e5 / (units.C * 0.1)),
    ('1 / (m^2 * sr * s * J)', '1 / (cm^2 * sr * s * erg)', 1e-11),
    ('1 / (m^2 * sr * s * J / nuc)', '1 / (cm^2 * sr * s * MeV / nuc)', 1e-4 * 1.6022e-13),
    ('s^3 / m^6', 's^3 / cm^6', 1e-12),
    ('J / m^3', 'erg / cm^3', 10.0),
    ('kg / m^3', 'g / cm^3', 1e-3),
    ('T', 'G', 1e4),
]


def respell(g, t):
    style = g.int(0, 2)
    if style == 0:
        return t
    if style == 1:
        return str(metric.Unit(t))
    return t.replace(' * ', ' ') if ' / ' in t or ' * ' in t else t


@CASES.add(1600)
def systems(g):
    """Electromagnetic and compound units of the mks and cgs systems."""
    u, v, f = g.choice(PAIRS)
    if g.bool():
        u, v, f = v, u, 1 / f
    t0, t1 = respell(g, u), respell(g, v)
    way, ask = apis(g, t0, t1)
    g.note(way, repr(t0), '->', repr(t1))
    g.nontrivial(way, t0, t1)
    got = ask()
    check(isinstance(got, float) and units.same(got, f), f"{way} {t0!r} -> {t1!r}: {got!r}, expected {f!r}")


@CASES.add(2400)
def coefficients(g):
    """Numerical factors in a unit expression count."""
    a = units.compound(g, 1, 3)
    b = units.substitute(g, a)
    j, k = g.choice([1, 2, 10, 1000, Fraction(1, 2), 60]), g.choice([1, 3, 100, Fraction(1, 4)])
    t0, t1 = f"{j} {units.text(g, a)}", f"{k} {units.text(g, b)}"
    way, ask = apis(g, t0, t1)
    g.note(way, repr(t0), '->', repr(t1))
    g.nontrivial(t0, t1)
    got = ask()
    check(isinstance(got, float) and got > 0, f"{t0!r} -> {t1!r}: {got!r}")
    d = expected(a, b) + math.log10(j) - math.log10(k)
    check(
        abs(math.log10(got) - d) < 1e-9 * max(1.0, abs(d)),
        f"{way} {t0!r} -> {t1!r}: got {got!r}, expected {10.0 ** d!r}",
    )


@CASES.add(3200)
def ratios(g):
    """Prefixes alone: the ratio of two scales of one named unit."""
    u = g.choice(units.UNITS)
    a, b = (Factor(units.prefix(g, u), u, 1) for _ in range(2))
    t0, t1 = ((f.name if g.bool(0.3) else f.symbol) for f in (a, b))
    g.note(repr(t0), repr(t1))
    if t0 != t1:
        g.nontrivial(t0, t1)
    want = a.si / b.si
    got = metric.ratio(t0, t1)
    check(units.same(got, want), f"ratio({t0!r}, {t1!r}) = {got}, expected {want}")
    n0, n1 = metric.NamedUnit(t0), metric.NamedUnit(t1)
    check(units.same(n1 // n0, want), f"{t1!r} // {t0!r} = {n1 // n0}, expected {want}")
    check(units.same(t1 // n0, want), f"text // {t0!r} = {t1 // n0}, expected {want}")
    check(units.same(n0.scale, 10.0 ** units.PREFIXES[a.prefix][1]), "scale of", t0, "is", n0.scale)
    check((n0 == n1) is (a.symbol == b.symbol), "equality of named units", t0, t1)
    check((n0 is n1) is (a.symbol == b.symbol), "identity of named units", t0, t1)


@CASES.add(3000)
def unpaired(g):
    """A dimensionless angle on one side only, wherever that is defined."""
    angle = Factor('', units.BY_SYMBOL[g.choice(['deg', 'rad', 'deg'])], g.choice([1, -1, 2, -2]))
    a = units.compound(g, 1, 3, ['length', 'mass', 'time', 'energy', 'temperature', 'amount'], [1, -1, 2, -2, Fraction(1, 2)])
    b = units.substitute(g, a)
    if g.bool():
        a = a + [angle]
    else:
        b = b + [angle]
    t0, t1 = units.text(g, a), units.text(g, b)
    way, ask = apis(g, t0, t1)
    g.note(way, repr(t0), '->', repr(t1))
    try:
        got = ask()
    except metric.UnitConversionError:
        return
    if got is None:
        return
    record(g, 'defined', t0, t1, a, b)
    verify(got, a, b, f"{way} {t0!r} -> {t1!r}")
