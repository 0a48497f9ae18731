"""Dimensions of units, and canonical units of quantities in both systems."""

import math
from fractions import Fraction

from goats.core import metric, symbolic

from pbt.case import Cases
from pbt.engine import check, discard, raises
from pbt import units
from pbt.units import D, Factor

CASES = Cases()
RULE = (
    "a unit of at least two terms, a quantity defined through other quantities,"
    " or a prefixed unit; distinct by text and system"
)
ASSUMPTIONS = [
    "the reference dimension of every quantity and unit is transcribed from the"
    " SI brochure and the NRL formulary's Gaussian table",
    "impedance, resistance, resistivity and the ohm are left out of the search:"
    " see known finding F01",
]

H = Fraction(1, 2)
E3 = Fraction(3, 2)
E5 = Fraction(5, 2)
MECH = object()

# quantity: (SI dimension, SI unit factors, Gaussian dimension, cgs factors)
# where a factor is (symbol, exponent), and MECH means "as in SI".
SI = {
    'amount': (D(N=1), [('mol', 1)], MECH, [('mol', 1)]),
    'capacitance': (D(T=4, I=2, M=-1, L=-2), [('F', 1)], D(L=1), [('cm', 1)]),
    'charge': (D(I=1, T=1), [('C', 1)], D(M=H, L=E3, T=-1), [('statC', 1)]),
    'conductance': (D(T=3, I=2, M=-1, L=-2), [('S', 1)], D(L=1, T=-1), [('cm', 1), ('s', -1)]),
    'current': (D(I=1), [('A', 1)], D(M=H, L=E3, T=-2), [('statA', 1)]),
    'displacement': (D(I=1, T=1, L=-2), [('C', 1), ('m', -2)], D(M=H, L=-H, T=-1), [('statC', 1), ('cm', -2)]),
    'dosage': (D(L=2, T=-2), [('Gy', 1)], MECH, [('erg', 1), ('g', -1)]),
    'energy': (D(M=1, L=2, T=-2), [('J', 1)], MECH, [('erg', 1)]),
    'force': (D(M=1, L=1, T=-2), [('N', 1)], MECH, [('dyn', 1)]),
    'frequency': (D(T=-1), [('Hz', 1)], MECH, [('Hz', 1)]),
    'identity': (D(), [], MECH, []),
    'illuminance': (D(J=1, L=-2), [('cd', 1), ('sr', 1), ('m', -2)], MECH, [('cd', 1), ('sr', 1), ('cm', -2)]),
    'inductance': (D(M=1, L=2, I=-2, T=-2), [('H', 1)], D(T=2, L=-1), [('s', 2), ('cm', -1)]),
    'length': (D(L=1), [('m', 1)], MECH, [('cm', 1)]),
    'luminous flux': (D(J=1), [('cd', 1), ('sr', 1)], MECH, [('cd', 1), ('sr', 1)]),
    'luminous intensity': (D(J=1), [('cd', 1)], MECH, [('cd', 1)]),
    'magnetic flux': (D(M=1, L=2, T=-2, I=-1), [('Wb', 1)], D(M=H, L=E3, T=-1), [('Mx', 1)]),
    'magnetic induction': (D(M=1, T=-2, I=-1), [('T', 1)], D(M=H, L=-H, T=-1), [('G', 1)]),
    'magnetic intensity': (D(I=1, L=-1), [('A', 1), ('m', -1)], D(M=H, L=-H, T=-1), [('Oe', 1)]),
    'magnetic moment': (D(I=1, L=2), [('A', 1), ('m', 2)], D(M=H, L=E5, T=-1), [('Oe', 1), ('cm', 3)]),
    'mass': (D(M=1), [('kg', 1)], MECH, [('g', 1)]),
    'momentum': (D(M=1, L=1, T=-1), [('kg', 1), ('m', 1), ('s', -1)], MECH, [('g', 1), ('cm', 1), ('s', -1)]),
    'permeability': (D(M=1, L=1, I=-2, T=-2), [('H', 1), ('m', -1)], D(), []),
    'permittivity': (D(T=4, I=2, M=-1, L=-3), [('F', 1), ('m', -1)], D(), []),
    'plane angle': (D(), [('rad', 1)], MECH, [('rad', 1)]),
    'potential': (D(M=1, L=2, T=-3, I=-1), [('V', 1)], D(M=H, L=H, T=-1), [('statV', 1)]),
    'power': (D(M=1, L=2, T=-3), [('W', 1)], MECH, [('erg', 1), ('s', -1)]),
    'pressure': (D(M=1, L=-1, T=-2), [('Pa', 1)], MECH, [('dyn', 1), ('cm', -2)]),
    'radioactivity': (D(T=-1), [('Bq', 1)], MECH, [('Ci', 1)]),
    'reluctance': (D(I=2, T=2, M=-1, L=-2), [('A', 1), ('Wb', -1)], D(L=-1), [('cm', -1)]),
    'temperature': (D(H=1), [('K', 1)], MECH, [('K', 1)]),
    'time': (D(T=1), [('s', 1)], MECH, [('s', 1)]),
    'solid angle': (D(), [('sr', 1)], MECH, [('sr', 1)]),
    'vector potential': (D(M=1, L=1, T=-2, I=-1), [('Wb', 1), ('m', -1)], D(M=H, L=H, T=-1), [('G', 1), ('cm', 1)]),
    'viscosity': (D(M=1, L=-1, T=-1), [('kg', 1), ('m', -1), ('s', -1)], MECH, [('P', 1)]),
}
# quantities defined through others, as products of the above
DERIVED = {
    'acceleration': [('length', 1), ('time', -2)],
    'area': [('length', 2)],
    'charge density': [('charge', 1), ('length', -3)],
    'conductivity': [('conductance', 1), ('length', -1)],
    'current density': [('current', 1), ('length', -2)],
    'electric charge': [('charge', 1)],
    'electric field': [('potential', 1), ('length', -1)],
    'electromotance': [('potential', 1)],
    'energy density': [('energy', 1), ('length', -3)],
    'fluence': [('length', -2), ('solid angle', -1), ('energy', -1)],
    'flux': [('length', -2), ('solid angle', -1), ('energy', -1), ('time', -1)],
    'induction': [('magnetic induction', 1)],
    'integral flux': [('length', -2), ('solid angle', -1), ('time', -1)],
    'magnetic field': [('magnetic induction', 1)],
    'magnetization': [('magnetic intensity', 1)],
    'magnetomotance': [('current', 1)],
    'mass density': [('mass', 1), ('length', -3)],
    'mass number': [],
    'momentum density': [('momentum', 1), ('length', -3)],
    'number': [],
    'number density': [('length', -3)],
    'particle distribution': [('length', -6), ('time', 3)],
    'particle fluence': [('length', -2), ('solid angle', -1), ('energy', -1)],
    'particle flux': [('length', -2), ('solid angle', -1), ('energy', -1), ('time', -1)],
    'polarization': [('charge', 1), ('length', -2)],
    'power density': [('power', 1), ('length', -3)],
    'ratio': [],
    'speed': [('length', 1), ('time', -1)],
    'thermal conductivity': [('power', 1), ('length', -1), ('temperature', -1)],
    'velocity': [('length', 1), ('time', -1)],
    'volume': [('length', 3)],
    'vorticity': [('frequency', 1)],
    'wavenumber': [('length', -1)],
    'work': [('energy', 1)],
}
NAMES = sorted(SI) + sorted(DERIVED)
SYSTEMS = ('mks', 'cgs')
EXCLUDED = {'impedance', 'resistance', 'resistivity'}


def parts(name):
    return DERIVED[name] if name in DERIVED else [(name, 1)]


def add(x, y, n=1):
    return tuple(i + j * n for i, j in zip(x, y))


def dimension(terms, system):
    """The dimension of a product of quantities."""
    out = D()
    for name, exp in terms:
        for base, e in parts(name):
            si, _, cgs, _ = SI[base]
            d = si if system == 'mks' or cgs is MECH else cgs
            out = add(out, d, Fraction(e) * exp)
    return out


def canonical(terms, system):
    """Exponents of the unit symbols of a product of quantities."""
    out = {}
    for name, exp in terms:
        for base, e in parts(name):
            for symbol, n in SI[base][1 if system == 'mks' else 3]:
                out[symbol] = out.get(symbol, 0) + Fraction(n) * e * exp
    return {k: v for k, v in out.items() if v}


def symbols(unit):
    """Exponents of the unit symbols in a goats unit."""
    out = {}
    for term in unit:
        if term.base != '1':
            p, u = units.LOOKUP.get(term.base, ('', None))
            base = p + u.symbol if u else term.base
            out[base] = out.get(base, 0) + term.exponent
    return {k: v for k, v in out.items() if v}


def unity(unit):
    return all(float(t.coefficient) == 1.0 for t in unit)


@CASES.add(2400)
def quantities(g):
    """The canonical unit and the dimension of each known quantity."""
    name = g.choice(NAMES)
    system = g.choice(SYSTEMS)
    spelled = g.choice([name, name.upper(), name.title()])
    how = g.choice(['quantity', 'system', 'get_unit'])
    terms = [(name, 1)]
    g.note(spelled, system, how)
    if name in DERIVED:
        g.nontrivial(spelled, system, how)
    if how == 'quantity':
        q = metric.Quantity(spelled)
        check(metric.Quantity(name) is q and metric.Quantity(q) is q, "quantities are not unique")
        check(q == name and q == spelled, "a quantity is unequal to its name")
        p = q[g.choice([system, system.upper()])]
        unit, dim = p.unit, p.dimension
        got = units.vector(symbolic.Expression(q.dimensions[system]))
        check(got == dimension(terms, system), f"dimension of {name!r} in {system}: {q.dimensions[system]}")
    elif how == 'system':
        p = metric.System(g.choice([system, system.upper()]))[spelled]
        unit, dim = p.unit, p.dimension
    else:
        unit = metric.System(system).get_unit(quantity=spelled)
        dim = unit.dimensions[system]
    check(symbols(unit) == canonical(terms, system) and unity(unit), f"unit of {name!r} in {system}: {unit}")
    want = dimension(terms, system)
    if dim is not None:
        check(units.vector(dim) == want, f"dimension of the {system} unit {unit} of {name!r}: {dim}")


@CASES.add(4000)
def composites(g):
    """A product of quantities has the product of their units."""
    pool = [n for n in NAMES if n not in ('identity', 'number', 'ratio', 'mass number')]
    terms = [
        (n, g.choice([1, 1, -1, 2, -2, 3, Fraction(1, 2)]))
        for n in g.sample(pool, g.size(1, 3, 2))
    ]
    top = [(n, e) for n, e in terms if e > 0]
    low = [(n, -e) for n, e in terms if e < 0]

    def spell(n, e):
        return n if e == 1 else f"{n}^{e}"

    text = ' * '.join(spell(n, e) for n, e in top) or '1'
    if low:
        text += f" / ({' * '.join(spell(n, e) for n, e in low)})"
    g.note(repr(text))
    g.nontrivial(text)
    q = metric.Quantity(text)
    for system in SYSTEMS:
        d = units.vector(symbolic.Expression(q.dimensions[system]))
        check(d == dimension(terms, system), f"{text!r} in {system}: dimension {q.dimensions[system]}")
        unit = q[system].unit
        check(symbols(unit) == canonical(terms, system) and unity(unit), f"{text!r} in {system}: unit {unit}")


GAUSSIAN = {
    'statC': D(M=H, L=E3, T=-1), 'statA': D(M=H, L=E3, T=-2), 'statV': D(M=H, L=H, T=-1),
    'Mx': D(M=H, L=E3, T=-1), 'G': D(M=H, L=-H, T=-1), 'e': D(M=H, L=E3, T=-1),
}
ONE_SYSTEM = {
    # base units that only one of the systems defines
    'A': 'mks', 'C': 'mks', 'F': 'mks', 'S': 'mks', 'V': 'mks', 'Wb': 'mks', 'H': 'mks', 'T': 'mks',
    'J': 'mks', 'N': 'mks', 'Pa': 'mks', 'W': 'mks', 'Gy': 'mks', 'Bq': 'mks',
    'statC': 'cgs', 'statA': 'cgs', 'statV': 'cgs', 'Mx': 'cgs', 'G': 'cgs',
    'erg': 'cgs', 'dyn': 'cgs', 'Ci': 'cgs', 'P': 'cgs',
}


def electromagnetic(u):
    return u.gaussian or u.dims[3] != 0


@CASES.add(8000)
def dimensions(g):
    """The dimension of a product of units."""
    kind = g.choice(['mechanical', 'mechanical', 'mks', 'cgs'])
    if kind == 'mechanical':
        pool = [u for u in units.UNITS if not electromagnetic(u)]
    elif kind == 'mks':
        pool = [u for u in units.UNITS if not u.gaussian]
    else:
        pool = [u for u in units.UNITS if not electromagnetic(u) or u.symbol in GAUSSIAN]
    chosen = g.sample(pool, g.size(1, 4, 2))
    a = [Factor(units.prefix(g, u), u, g.choice(units.EXPONENTS)) for u in chosen]
    text = units.text(g, a)
    g.note(kind, repr(text))
    if len(a) > 1:
        g.nontrivial(text)
    unit = metric.Unit(text)
    for system in ('mks', 'cgs') if kind == 'mechanical' else (kind,):
        got = unit.dimensions[system]
        want = D()
        for f in a:
            d = GAUSSIAN[f.unit.symbol] if system == 'cgs' and f.unit.symbol in GAUSSIAN else f.unit.dims
            want = add(want, d, f.exp)
        if all(ONE_SYSTEM.get(f.unit.symbol, system) == system for f in a):
            check(got is not None, f"{text!r} has no dimension in {system}")
        if got is not None:
            check(units.vector(got) == want, f"dimension of {text!r} in {system} is {got}")
            check(all(t.coefficient == 1 for t in got), f"dimension {got} has a coefficient")
            check(metric.Dimension.fromunit(unit, system) == got, "fromunit disagrees")
    if kind == 'mechanical':
        check(any(unit.dimensions[s] is not None for s in SYSTEMS), f"{text!r} has no dimension at all")
        if any(units.dims(a)):
            check(not unit.dimensionless, f"{text!r} is called dimensionless")
        elif all(unit.dimensions[s] is not None for s in SYSTEMS):
            check(unit.dimensionless, f"{text!r} is not called dimensionless")


FAMILY = {
    'angle': 'plane angle', 'activity': 'radioactivity', 'intensity': 'luminous intensity',
    'induction': 'magnetic induction',
}


@CASES.add(6400)
def normalised(g):
    """The canonical unit corresponding to a unit, in either system."""
    a = units.compound(g, 1, 3)
    discard(not units.moderate(a, limit=60))
    system = g.choice(SYSTEMS)
    text = units.text(g, a)
    g.note(repr(text), system)
    if len(a) > 1 or a[0].prefix:
        g.nontrivial(text, system)
    terms = [(FAMILY.get(f.unit.family, f.unit.family), f.exp) for f in a]
    want = canonical(terms, system)
    arg = metric.Unit(text) if g.bool() else text
    how = g.choice(['get_unit', 'norm'])
    got = metric.System(system).get_unit(unit=arg) if how == 'get_unit' else metric.Unit(arg).norm[system]
    check(isinstance(got, metric.Unit), f"{how} returned {type(got).__name__}")
    check(symbols(got) == want and unity(got), f"{system} unit of {text!r} is {got}, expected {want}")
    if how == 'get_unit' and len(a) == 1 and a[0].exp == 1:
        check(metric.System(system).get_unit(unit=got) == got, "the canonical unit of a canonical unit is another")


@CASES.add(2400)
def bydimension(g):
    """Searching for a unit or for quantities by dimension."""
    system = g.choice(SYSTEMS)
    known = g.bool(0.7)
    if known:
        name = g.choice(NAMES)
        vec = dimension([(name, 1)], system)
    else:
        vec = tuple(Fraction(g.choice([0, 1, -1, 2, -2, 3]), g.choice([1, 1, 2])) for _ in range(7))
    terms = [f"{x}^{e}" for x, e in zip(units.LETTERS, vec) if e]
    text = ' * '.join(g.shuffle(terms)) or '1'
    g.note(repr(text), system)
    if len(terms) > 1:
        g.nontrivial(text, system)
    matches = {n for n in NAMES if dimension([(n, 1)], system) == vec}
    dim = metric.Dimension(text)
    for s in g.list(lambda g: g.choice(SYSTEMS), 0, 3) + [system]:
        want = {n for n in NAMES if dimension([(n, 1)], s) == vec}
        got = {q for q in dim.quantities(s) if q not in EXCLUDED}
        check(got == want, f"quantities of {text!r} in {s}: {sorted(got ^ want)} differ")
    sysm = metric.System(system)
    arg = text if g.bool() else dim
    if not any(vec):
        unit = sysm.get_unit(dimension=arg)
        check(not symbols(unit), f"unit of dimension 1: {unit}")
        return
    try:
        unit = sysm.get_unit(dimension=arg)
    except metric.SearchError:
        check(not matches, f"no {system} unit for {text!r}, the dimension of {sorted(matches)}")
        return
    options = [canonical([(n, 1)], system) for n in matches]
    check(symbols(unit) in options or not matches, f"{system} unit of {text!r}: {unit}, expected one of {options}")
    if not matches:
        check(units.vector(unit.dimensions[system]) == vec, f"{system} unit of {text!r}: {unit}")


def dimtext(g):
    vec = tuple(Fraction(g.choice([0, 1, -1, 2, -2, 3]), g.choice([1, 1, 2])) for _ in range(7))
    terms = [f"{x}^{e}" for x, e in zip(units.LETTERS, vec) if e]
    return vec, ' * '.join(g.shuffle(terms)) or '1'


@CASES.add(1600)
def bysystem(g):
    """Dimensions given for all systems at once, or for each."""
    common = dimtext(g) if g.bool(0.7) else None
    named = {s: (dimtext(g) if g.bool(0.8) else None) for s in g.subset(SYSTEMS)}
    want = {s: named.get(s) or common for s in SYSTEMS}
    given = {s: v and v[1] for s, v in named.items()}
    g.note(common and common[1], given)
    args = [] if common is None and g.bool() else [common and common[1]]
    if common and args and g.bool(0.3):
        args = [metric.Dimension(args[0])]
    if not any(want.values()):
        raises(TypeError, lambda: metric.Dimensions(*args, **given), "dimensions of nothing")
        return
    if common and named:
        g.nontrivial(common[1], str(given))
    dims = metric.Dimensions(*args, **given)
    check(set(dims) == set(SYSTEMS) and len(dims) == len(SYSTEMS), f"systems {list(dims)}")
    for s in SYSTEMS:
        got = dims[g.choice([s, s.upper()])]
        if want[s] is None:
            check(got is None, f"{s} dimension {got} from {given}")
        else:
            check(got is not None, f"no {s} dimension from {args} and {given}")
            check(units.vector(got) == want[s][0], f"{s} dimension {got}, expected {want[s][1]!r}")
    raises(KeyError, lambda: dims['ABC'], "dimension in an unknown system")


@CASES.add(1600)
def equivalence(g):
    """Two quantities are equivalent iff their dimensions agree everywhere."""
    a, b = g.choice(NAMES), g.choice(NAMES)
    if g.bool(0.4):
        same = [n for n in NAMES if dimension([(n, 1)], 'mks') == dimension([(a, 1)], 'mks')]
        b = g.choice(same)
    discard(any(symbols(metric.Quantity(n)[s].unit) == {} and n not in ('identity', 'number', 'ratio', 'mass number') for n in (a, b) for s in SYSTEMS))
    discard(any(metric.Quantity(n)[s].dimension is None for n in (a, b) for s in SYSTEMS))
    want = all(dimension([(a, 1)], s) == dimension([(b, 1)], s) for s in SYSTEMS)
    g.note(a, b, want)
    g.nontrivial(a, b)
    x, y = metric.Quantity(a), metric.Quantity(b)
    check((x | y) is want and (y | x) is want, f"{a!r} | {b!r} is {x | y}, expected {want}")
    check((x == y) is (a == b), f"{a!r} == {b!r} is {x == y}")
    if symbols(x['mks'].unit) == symbols(y['mks'].unit):
        check(metric.System('mks')[a] == metric.System('mks')[b], f"properties of {a!r} and {b!r} differ")


BASES = {'mks': [('kg', 1), ('m', 0), ('s', 2)], 'cgs': [('g', 1), ('cm', 0), ('s', 2)]}
COHERENT_CGS = {'erg', 'dyn', 'P', 'statC', 'statA', 'statV', 'Mx', 'G', 'Hz', 'K', 's', 'mol', 'cd', 'rad', 'sr'}


@CASES.add(3200)
def reductions(g):
    """Reducing or decomposing a unit to base units keeps its size."""
    u = g.choice([u for u in units.UNITS if u.symbol != 'e'])
    f = Factor(units.prefix(g, u), u, 1)
    system = g.choice(['mks', 'cgs', None])
    text = g.choice([f.symbol, f.name])
    g.note(repr(text), system)
    g.nontrivial(text, system)
    try:
        got = metric.NamedUnit(text).reduce(system=system)
    except metric.SystemAmbiguityError:
        check(system is None, f"{text!r} is ambiguous in {system}")
        got = None
    if got is not None:
        check(system is None or got.system == system, f"reduced {text!r} in {got.system}, not {system}")
        size = symbolic_size(got.units) if got.system == 'mks' or not electromagnetic(u) else None
        if size is not None:
            total = size[0] + math.log10(got.scale)
            # A reduction carries its scale in the first term as well.
            alt = size[0]
            want = units.log_si([f])
            check(units.near(total, want) or units.near(alt, want), f"{text!r} reduced to {got}: 10^{total}, expected 10^{want}")
            check(size[1] == u.dims, f"{text!r} reduced to {got}")
        else:
            bases = {t.base: t.exponent for t in got.units}
            want = {b: GAUSSIAN[u.symbol][i] for b, i in (('g', 1), ('cm', 0), ('s', 2)) if GAUSSIAN[u.symbol][i]}
            if bases != {u.symbol: 1}:
                check(bases == want, f"{text!r} reduced to {got}")
            check(units.same(got.scale, 10.0 ** units.PREFIXES[f.prefix][1]), f"{text!r} reduced to {got}")
    if not electromagnetic(u) or not u.gaussian:
        parts = metric.Unit(text).decomposed
        s, v = symbolic_size(parts)
        check(units.near(s, units.log_si([f])) and v == u.dims, f"{text!r} decomposed to {parts}")


def symbolic_size(terms):
    return units.read(terms)


@CASES.add(2400)
def ratios(g):
    """The relative magnitude of two prefixes of one unit."""
    u = g.choice(units.UNITS)
    a, b = Factor(units.prefix(g, u), u, 1), Factor(units.prefix(g, u), u, 1)
    ta, tb = g.choice([a.symbol, a.name]), g.choice([b.symbol, b.name])
    g.note(repr(ta), repr(tb))
    if a.prefix != b.prefix:
        g.nontrivial(ta, tb)
    want = 10.0 ** (units.PREFIXES[a.prefix][1] - units.PREFIXES[b.prefix][1])
    x = ta if g.bool() else metric.NamedUnit(ta)
    y = tb if g.bool() else metric.NamedUnit(tb)
    got = metric.ratio(x, y)
    check(units.same(got, want), f"ratio({ta!r}, {tb!r}) is {got}, expected {want}")
    check(units.same(metric.NamedUnit(tb) // ta, want), f"{tb!r} // {ta!r}")
    check(units.same(tb // metric.NamedUnit(ta), want), f"{tb!r} // {ta!r} reflected")
    other = g.choice([v for v in units.UNITS if v is not u])
    with raises(ValueError, what=f"ratio({ta!r}, {other.symbol!r})"):
        metric.ratio(ta, other.symbol)


@CASES.add(2400)
def converters(g):
    """Conversions within a quantity, to units and to metric systems."""
    family = g.choice(sorted(units.FAMILIES))
    quantity = FAMILY.get(family, family)
    u, v = g.choice(units.FAMILIES[family]), g.choice(units.FAMILIES[family])
    a, b = Factor(units.prefix(g, u), u, 1), Factor(units.prefix(g, v), v, 1)
    discard(not units.moderate([a], [b], limit=60))
    target = g.choice([b.symbol, 'mks', 'cgs'])
    want = units.log_si([a])
    if target == b.symbol:
        want -= units.log_si([b])
    elif target == 'cgs':
        discard(any(s not in units.LOOKUP for s in canonical([(quantity, 1)], 'cgs')))
        discard(quantity in ('capacitance', 'conductance', 'inductance'))
        want -= sum(float(e) * units.log_si([Factor(*units.split(s), 1)]) for s, e in canonical([(quantity, 1)], 'cgs').items())
    g.note(quantity, a.symbol, target)
    if a.symbol != target:
        g.nontrivial(quantity, a.symbol, target)
    got = metric.Quantity(quantity).convert(a.symbol).to(target)
    check(units.near(math.log10(got), want), f"{quantity} {a.symbol} -> {target}: {got}, expected 10^{want}")


@CASES.add(400)
def unknown(g):
    """Unknown quantities, systems, and searches are refused."""
    word = g.text('bcdfghjklmnpqrstvwxz', 3, 8)
    discard(word in NAMES)
    g.note(word)
    g.nontrivial(word)
    for f in (
        lambda: metric.Quantity(word),
        lambda: metric.Quantity('length')[word],
        lambda: metric.System(word),
        lambda: metric.System('mks')[word],
        lambda: metric.System('mks').get_unit(quantity=word),
        lambda: metric.System('cgs').get_unit(),
        lambda: metric.NamedUnit(word + '9'),
    ):
        try:
            got = f()
        except Exception:
            continue
        check(False, f"{word!r} was accepted and gave {got}")


def _ohm(g):
    got = metric.Unit('ohm').dimensions['mks']
    check(units.vector(got) == D(M=1, L=2, T=-3, I=-2), f"dimension of ohm: {got}")


PROBES = {'F01': _ohm}
