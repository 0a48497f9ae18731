"""Physical constants, chemical elements, and plasma species."""

import numpy

from goats.core import fundamental, metadata, physical, plasma

from pbt.case import Cases
from pbt.engine import check, raises

CASES = Cases()
RULE = (
    "constants, relations between constants, and lists of masses and charges;"
    " distinct by their names or symbols"
)
ASSUMPTIONS = [
    "constants are accurate to four digits; electromagnetic units of the two"
    " systems are not converted into each other",
    "elements with the same rounded mass resolve to the first of them in order"
    " of mass",
]

PI = numpy.pi
# Value in SI units and the exponents of kg, m, s, K; None: electromagnetic.
REFERENCE = {
    'pi': (PI, (0, 0, 0, 0)),
    'k': (1.380649e-23, (1, 2, -2, -1)),
    'e': (1.602177e-19, None),
    'me': (9.109384e-31, (1, 0, 0, 0)),
    'mp': (1.672622e-27, (1, 0, 0, 0)),
    'G': (6.6743e-11, (-1, 3, -2, 0)),
    'g': (9.80665, (0, 1, -2, 0)),
    'h': (6.62607e-34, (1, 2, -1, 0)),
    'c': (2.99792458e8, (0, 1, -1, 0)),
    'epsilon0': (8.854188e-12, None),
    'mu0': (1.256637e-6, None),
    'Rinfinity': (1.0973732e7, (0, -1, 0, 0)),
    'a0': (5.291772e-11, (0, 1, 0, 0)),
    're': (2.81794e-15, (0, 1, 0, 0)),
    'alpha': (7.297353e-3, (0, 0, 0, 0)),
    'c1': (3.741772e-16, (1, 4, -3, 0)),
    'c2': (1.438777e-2, (0, 1, 0, 1)),
    'sigma': (5.670374e-8, (1, 0, -3, -4)),
    'eV': (1.602177e-19, (1, 2, -2, 0)),
    'amu': (1.660539e-27, (1, 0, 0, 0)),
    'au': (1.495978707e11, (0, 1, 0, 0)),
    'H+': (13.6 * 1.602177e-19, (1, 2, -2, 0)),
}
# Relative tolerances: published to five digits, unless listed here.
TOLERANCE = {'G': 5e-4, 'H+': 5e-4, 'pi': 1e-12, 'au': 1e-9, 'mu0': 1e-6}
GAUSSIAN = {'e': 4.80320e-10, 'epsilon0': 1.0, 'mu0': 1.0}
MECHANICAL = [k for k, v in REFERENCE.items() if v[1] is not None]
BASE = {'mks': ('kg', 'm', 's', 'K'), 'cgs': ('g', 'cm', 's', 'K')}

RELATIONS = [
    ('c1', lambda k: 2 * PI * k['h'] * k['c'] ** 2),
    ('c2', lambda k: k['h'] * k['c'] / k['k']),
    ('sigma', lambda k: 2 * PI ** 5 * k['k'] ** 4 / (15 * k['h'] ** 3 * k['c'] ** 2)),
    ('re', lambda k: k['alpha'] ** 2 * k['a0']),
    ('a0', lambda k: k['alpha'] / (4 * PI * k['Rinfinity'])),
    ('Rinfinity', lambda k: k['alpha'] ** 2 * k['me'] * k['c'] / (2 * k['h'])),
]


def size(k, system):
    """The value of a constant in the base units of a system."""
    x, d = REFERENCE[k]
    if system == 'mks':
        return x
    if d is None:
        return GAUSSIAN[k]
    return x * 1e3 ** d[0] * 1e2 ** d[1]


def unit(d, system):
    return ' '.join(f"{u}^{n}" for u, n in zip(BASE[system], d) if n) or '1'


@CASES.add(600)
def constants(g):
    """Each constant in each system, and products of them."""
    system = g.choice(['mks', 'cgs'])
    c = physical.Constants(g.choice([system, system.upper()]))
    check(set(c) == set(REFERENCE) and len(c) == len(REFERENCE), f"constants {set(c) ^ set(REFERENCE)}")
    name = g.choice(list(REFERENCE))
    x = c[name]
    tol = TOLERANCE.get(name, 5e-5)
    want = size(name, system)
    check(numpy.isclose(float(x), want, rtol=tol, atol=0), f"{name} ({system}) is {x}, expected {want}")
    if name in MECHANICAL:
        d = REFERENCE[name][1]
        u = metadata.Unit(unit(d, system))
        base = x[u] if any(d) else x
        check(numpy.isclose(float(base), want, rtol=tol, atol=0), f"{name} ({system}) in base units is {base}, expected {want} {u}")
        # The same constant in the other system.
        other = {'mks': 'cgs', 'cgs': 'mks'}[system]
        v = metadata.Unit(unit(d, other))
        if any(d):
            moved = x[v]
            check(numpy.isclose(float(moved), size(name, other), rtol=tol, atol=0), f"{name} ({system}) in {v} is {moved}, expected {size(name, other)}")
        there = physical.Constants(other)[name]
        if any(d):
            there = there[v]
            x = x[v]
        check(numpy.isclose(float(x), float(there), rtol=1e-9, atol=0), f"{name} is {x} in {system} and {there} in {other}")
    g.nontrivial(name, system)
    # Products of powers of constants.
    factors = [(g.choice(MECHANICAL), g.choice([-2, -1, 1, 2])) for _ in range(g.int(2, 4))]
    value, want, d = None, 1.0, numpy.zeros(4, int)
    for k, n in factors:
        f = c[k] ** n
        value = f if value is None else value * f
        want *= size(k, system) ** n
        d += n * numpy.array(REFERENCE[k][1])
    check(numpy.isclose(float(value), want, rtol=1e-2, atol=0), f"product of {factors} ({system}) is {value}, expected {want}")
    if any(d):
        u = metadata.Unit(unit(d, system))
        check(numpy.isclose(float(value[u]), want, rtol=1e-2, atol=0), f"product of {factors} in {u} is {value[u]}, expected {want}")
    g.nontrivial(system, str(factors))
    for bad in ['', 'C', 'q', 'no such']:
        check(bad not in c, f"{bad!r} is a constant")
        with raises(KeyError, what=f"constant {bad!r}"):
            c[bad]


@CASES.add(60)
def relations(g):
    """Definitions of constants in terms of others."""
    system = g.choice(['mks', 'cgs'])
    c = {k: float(v) for k, v in physical.Constants(system).items()}
    name, f = g.choice(RELATIONS)
    check(numpy.isclose(c[name], f(c), rtol=3e-4, atol=0), f"{name} ({system}) is {c[name]}, but its definition gives {f(c)}")
    g.nontrivial('relation', name, system)


SYMBOLS = (
    "H 1.00797 He 4.0026 Li 6.941 Be 9.01218 B 10.81 C 12.011 N 14.0067 O"
    " 15.9994 F 18.998403 Ne 20.179 Na 22.98977 Mg 24.305 Al 26.98154 Si 28.0855"
    " P 30.97376 S 32.06 Cl 35.453 K 39.0983 Ar 39.948 Ca 40.08 Sc 44.9559 Ti"
    " 47.9 V 50.9415 Cr 51.996 Mn 54.938 Fe 55.847 Ni 58.7 Co 58.9332 Cu 63.546"
    " Zn 65.38 Ga 69.72 Ge 72.59 As 74.9216 Se 78.96 Br 79.904 Kr 83.8 Rb 85.4678"
    " Sr 87.62 Y 88.9059 Zr 91.22 Nb 92.9064 Mo 95.94 Tc 98 Ru 101.07 Rh 102.9055"
    " Pd 106.4 Ag 107.868 Cd 112.41 In 114.82 Sn 118.69 Sb 121.75 I 126.9045 Te"
    " 127.6 Xe 131.3 Cs 132.9054 Ba 137.33 La 138.9055 Ce 140.12 Pr 140.9077 Nd"
    " 144.24 Pm 145 Sm 150.4 Eu 151.96 Gd 157.25 Tb 158.9254 Dy 162.5 Ho 164.9304"
    " Er 167.26 Tm 168.9342 Yb 173.04 Lu 174.967 Hf 178.49 Ta 180.9479 W 183.85"
    " Re 186.207 Os 190.2 Ir 192.22 Pt 195.09 Au 196.9665 Hg 200.59 Tl 204.37 Pb"
    " 207.2 Bi 208.9804 Po 209 At 210 Rn 222 Fr 223 Ra 226.0254 Ac 227.0278 Pa"
    " 231.0359 Th 232.0381 Np 237.0482 U 238.029"
).split()
MASSES = dict(zip(SYMBOLS[::2], map(float, SYMBOLS[1::2])))
NUMBERS = {}
for _k, _m in MASSES.items():
    NUMBERS.setdefault(round(_m), _k)
KNOWN = {k: n for n, k in NUMBERS.items()}


def sign(q):
    return ('+' if q > 0 else '-') * abs(q)


@CASES.add(600)
def elements(g):
    """Symbols from masses and charges."""
    n = g.int(1, 6)
    chosen = [(g.choice(list(KNOWN)), g.choice([-2, -1, 0, 1, 2, 3, g.int(0, 30)])) for _ in range(n)]
    masses = [KNOWN[k] + g.choice([0, 0, 0.3, -0.3, 0.01]) for k, _ in chosen]
    charges = [q if g.bool() else float(q) for _, q in chosen]
    want = [k + sign(q) for k, q in chosen]
    form = g.choice([list, tuple, numpy.array])
    found = fundamental.elements(form(masses), form(charges))
    check(list(found) == want, f"elements({masses}, {charges}) is {found}, expected {want}")
    if n == 1:
        found = fundamental.elements(masses[0], charges[0])
        check(list(found) == want, f"elements({masses[0]}, {charges[0]}) is {found}, expected {want}")
    g.nontrivial(str(want))
    with raises(TypeError, what="unequal numbers of masses and charges"):
        fundamental.elements(masses + [1], charges)
    bad = list(masses)
    bad[g.int(0, n - 1)] = g.choice([2, 3, 5, 8, 300, 0])
    with raises(fundamental.MassValueError, what=f"elements({bad}, {charges})"):
        fundamental.elements(bad, charges)


@CASES.add(400)
def species(g):
    """Species from a symbol, or from mass and charge."""
    k = g.choice(list(MASSES))
    q = g.choice([-2, -1, 0, 1, 2, 3, g.int(0, 26), -g.int(0, 5)])
    symbol = k + sign(q)
    s = plasma.Species(symbol)
    order = g.shuffle(['mass', 'm', 'charge', 'q', 'symbol'])
    want = {'mass': MASSES[k], 'm': MASSES[k], 'charge': q, 'q': q, 'symbol': symbol}
    for name in order:
        x = getattr(s, name)
        if name == 'symbol':
            check(x == symbol, f"symbol of {symbol} is {x!r}")
        else:
            check(numpy.isclose(float(x), want[name], atol=0), f"{name} of {symbol} is {x}, expected {want[name]}")
            expected = 'nucleon' if name in ('mass', 'm') else 'e'
            check(x.unit == metadata.Unit(expected), f"unit of {name} of {symbol} is {x.unit}")
    g.nontrivial('species', symbol)
    e = g.choice(list(KNOWN))
    s = plasma.Species(mass=MASSES[e] if g.bool() else KNOWN[e], charge=g.choice([q, float(q)]))
    check(s.symbol == e + sign(q), f"symbol of mass {MASSES[e]} and charge {q} is {s.symbol!r}, expected {e + sign(q)!r}")
    check(numpy.isclose(float(s.charge), q) and round(float(s.mass)) == KNOWN[e], f"{s.symbol}: mass {s.mass}, charge {s.charge}")
    with raises(ValueError, what="a species without any property"):
        plasma.Species()
    with raises(Exception, what="the mass of an unknown element"):
        plasma.Species('Xx' + sign(q)).mass
