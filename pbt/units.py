"""An independent table of units, and generators of unit expressions.

Values come from the SI definitions and from the Gaussian-SI correspondence in
the NRL Plasma Formulary, not from goats.  Every unit has a dimension vector
(length, mass, time, current, temperature, amount, luminous intensity) and a
factor to the coherent SI unit of that dimension.  The Gaussian electromagnetic
units carry the dimension of their SI counterpart, because the correspondence
(and not dimensional analysis) is what converts between the two.
"""

import math
from fractions import Fraction

C = 2.99792458e10

PREFIXES = {
    'Y': ('yotta', 24), 'Z': ('zetta', 21), 'E': ('exa', 18), 'P': ('peta', 15),
    'T': ('tera', 12), 'G': ('giga', 9), 'M': ('mega', 6), 'k': ('kilo', 3),
    'h': ('hecto', 2), 'da': ('deca', 1), '': ('', 0), 'd': ('deci', -1),
    'c': ('centi', -2), 'm': ('milli', -3), 'u': ('micro', -6),
    'n': ('nano', -9), 'p': ('pico', -12), 'f': ('femto', -15),
    'a': ('atto', -18), 'z': ('zepto', -21), 'y': ('yocto', -24),
}
COMMON = ['', '', '', '', 'k', 'k', 'M', 'G', 'c', 'm', 'n', 'd', 'u', 'p', 'T', 'h', 'da']


def D(**k):
    return tuple(Fraction(k.get(x, 0)) for x in 'LMTIHNJ')


class U:
    """One named unit without a prefix."""

    def __init__(self, symbol, name, family, si, dims, gaussian=False):
        self.symbol = symbol
        self.name = name
        self.family = family
        self.si = si
        self.dims = dims
        self.gaussian = gaussian


UNITS = [
    U('m', 'meter', 'length', 1.0, D(L=1)),
    U('au', None, 'length', 1.495978707e11, D(L=1)),
    U('g', 'gram', 'mass', 1e-3, D(M=1)),
    U('s', 'second', 'time', 1.0, D(T=1)),
    U('min', 'minute', 'time', 60.0, D(T=1)),
    U('h', 'hour', 'time', 3600.0, D(T=1)),
    U('d', 'day', 'time', 86400.0, D(T=1)),
    U('A', 'ampere', 'current', 1.0, D(I=1)),
    U('statA', 'statampere', 'current', 10 / C, D(I=1), True),
    U('K', 'kelvin', 'temperature', 1.0, D(H=1)),
    U('mol', 'mole', 'amount', 1.0, D(N=1)),
    U('cd', 'candela', 'intensity', 1.0, D(J=1)),
    U('rad', 'radian', 'angle', 1.0, D()),
    U('deg', 'degree', 'angle', math.pi / 180, D()),
    U('sr', 'steradian', 'solid angle', 1.0, D()),
    U('Hz', 'hertz', 'frequency', 1.0, D(T=-1)),
    U('J', 'joule', 'energy', 1.0, D(M=1, L=2, T=-2)),
    U('erg', 'erg', 'energy', 1e-7, D(M=1, L=2, T=-2)),
    U('eV', 'electronvolt', 'energy', 1.6022e-19, D(M=1, L=2, T=-2)),
    U('N', 'newton', 'force', 1.0, D(M=1, L=1, T=-2)),
    U('dyn', 'dyne', 'force', 1e-5, D(M=1, L=1, T=-2)),
    U('Pa', 'pascal', 'pressure', 1.0, D(M=1, L=-1, T=-2)),
    U('W', 'watt', 'power', 1.0, D(M=1, L=2, T=-3)),
    U('C', 'coulomb', 'charge', 1.0, D(I=1, T=1)),
    U('statC', 'statcoulomb', 'charge', 10 / C, D(I=1, T=1), True),
    U('e', None, 'charge', 1.6022e-19, D(I=1, T=1)),
    U('V', 'volt', 'potential', 1.0, D(M=1, L=2, T=-3, I=-1)),
    U('statV', 'statvolt', 'potential', C / 1e8, D(M=1, L=2, T=-3, I=-1), True),
    U('S', None, 'conductance', 1.0, D(M=-1, L=-2, T=3, I=2)),
    U('F', 'farad', 'capacitance', 1.0, D(M=-1, L=-2, T=4, I=2)),
    U('Wb', 'weber', 'magnetic flux', 1.0, D(M=1, L=2, T=-2, I=-1)),
    U('Mx', 'maxwell', 'magnetic flux', 1e-8, D(M=1, L=2, T=-2, I=-1), True),
    U('H', 'henry', 'inductance', 1.0, D(M=1, L=2, T=-2, I=-2)),
    U('T', 'tesla', 'induction', 1.0, D(M=1, T=-2, I=-1)),
    U('G', 'gauss', 'induction', 1e-4, D(M=1, T=-2, I=-1), True),
    U('lm', 'lumen', 'luminous flux', 1.0, D(J=1)),
    U('lx', 'lux', 'illuminance', 1.0, D(J=1, L=-2)),
    U('Bq', 'becquerel', 'activity', 1.0, D(T=-1)),
    U('Ci', None, 'activity', 3.7e10, D(T=-1)),
    U('Gy', 'gray', 'dosage', 1.0, D(L=2, T=-2)),
    U('P', 'poise', 'viscosity', 0.1, D(M=1, L=-1, T=-1)),
]
BY_SYMBOL = {u.symbol: u for u in UNITS}
FAMILIES = {}
for _u in UNITS:
    FAMILIES.setdefault(_u.family, []).append(_u)

# 'cd' is candela, so centi-day has no symbol of its own.
AMBIGUOUS = {('c', 'd')}


class Factor:
    """A prefixed unit raised to a power."""

    def __init__(self, prefix, unit, exp):
        self.prefix, self.unit, self.exp = prefix, unit, Fraction(exp)

    @property
    def symbol(self):
        return self.prefix + self.unit.symbol

    @property
    def name(self):
        if self.unit.name is None:
            return self.symbol
        return PREFIXES[self.prefix][0] + self.unit.name

    @property
    def si(self):
        return self.unit.si * 10.0 ** PREFIXES[self.prefix][1]

    def __repr__(self):
        return f"{self.symbol}^{self.exp}"


def si(factors):
    """The amount of coherent SI units in one of the compound unit."""
    out = 1.0
    for f in factors:
        out *= f.si ** float(f.exp)
    return out


def log_si(factors):
    """The decimal logarithm of `si`, immune to overflow."""
    return sum(math.log10(f.si) * float(f.exp) for f in factors)


def dims(factors):
    out = [Fraction(0)] * 7
    for f in factors:
        for i, x in enumerate(f.unit.dims):
            out[i] += x * f.exp
    return tuple(out)


def prefix(g, unit):
    p = g.choice(COMMON if g.bool(0.85) else sorted(PREFIXES))
    return '' if (p, unit.symbol) in AMBIGUOUS else p


EXPONENTS = [1, 1, 1, -1, -1, 2, -2, 3, -3, 4, Fraction(1, 2), Fraction(-1, 2), Fraction(3, 2), Fraction(2, 3)]


def compound(g, lo=1, hi=4, families=None, exponents=EXPONENTS):
    """Factors of distinct families."""
    names = g.sample(sorted(families or FAMILIES), g.size(lo, hi, 2))
    return [
        Factor(prefix(g, u), u, g.choice(exponents))
        for u in (g.choice(FAMILIES[n]) for n in names)
    ]


def substitute(g, factors):
    """The same kinds of unit with other members and prefixes."""
    out = []
    for f in factors:
        u = g.choice(FAMILIES[f.unit.family])
        out.append(Factor(prefix(g, u), u, f.exp))
    return out


def text(g, factors, names=True, plain=False):
    """One of the spellings of the compound unit."""
    if not factors:
        return '1'
    factors = list(factors) if plain else g.shuffle(factors)

    def one(f, e):
        s = f.name if names and g.bool(0.2) else f.symbol
        return s if e == 1 and not g.bool(0.1) else f"{s}^{e}"

    style = g.int(0, 3)
    if style == 0:
        return ' * '.join(one(f, f.exp) for f in factors)
    if style == 1:
        return ' '.join(one(f, f.exp) for f in factors)
    top = [one(f, f.exp) for f in factors if f.exp > 0]
    low = [one(f, -f.exp) for f in factors if f.exp < 0]
    joiner = ' * ' if style == 2 else ' '
    head = joiner.join(top) or '1'
    if not low:
        return head
    if len(low) == 1:
        return f"{head} / {low[0]}"
    if g.bool(0.7):
        return f"{head} / ({joiner.join(low)})"
    return ' / '.join([head] + low)


BASE_FAMILY = ['length', 'mass', 'time', 'current', 'temperature', 'amount', 'intensity']
BASE_MKS = ['m', 'kg', 's', 'A', 'K', 'mol', 'cd']


def split(symbol):
    """Factor parts of an ordinary symbol such as 'kg'."""
    if symbol in BY_SYMBOL:
        return '', BY_SYMBOL[symbol]
    return symbol[0], BY_SYMBOL[symbol[1:]]


def base_factors(vector):
    """Coherent SI base units with the given dimension."""
    return [
        Factor(*split(BASE_MKS[i]), x) for i, x in enumerate(vector) if x
    ]


def same(a, b, rel=1e-9):
    return math.isclose(a, b, rel_tol=rel)


def moderate(*groups, limit=120.0):
    """True if no partial product of the factors can leave the float range."""
    return sum(
        abs(math.log10(f.si) * float(f.exp)) for fs in groups for f in fs
    ) < limit and all(
        abs(PREFIXES[f.prefix][1] * float(f.exp)) < 100 for fs in groups for f in fs
    )


# --- reading units that goats produces ---------------------------------------

LOOKUP = {}
for _u in UNITS:
    for _p, (_n, _e) in PREFIXES.items():
        if (_p, _u.symbol) not in AMBIGUOUS:
            LOOKUP.setdefault(_p + _u.symbol, (_p, _u))
        if _u.name:
            LOOKUP.setdefault(_n + _u.name, (_p, _u))
for _u in UNITS:
    LOOKUP[_u.symbol] = ('', _u)
for _u in UNITS:
    LOOKUP['μ' + _u.symbol] = ('u', _u)
IGNORED = {'1', '#', 'nuc', 'amu'}


def read(unit):
    """(log10 of SI size, SI dimension) of a goats unit expression."""
    size, vector = 0.0, [Fraction(0)] * 7
    for term in unit:
        size += math.log10(abs(float(term.coefficient)))
        if term.base in IGNORED:
            continue
        p, u = LOOKUP[term.base]
        f = Factor(p, u, term.exponent)
        size += log_si([f])
        for i, x in enumerate(u.dims):
            vector[i] += x * term.exponent
    return size, tuple(vector)


LETTERS = 'LMTIHNJ'


def vector(expression):
    """The exponent vector of a goats dimension."""
    out = [Fraction(0)] * 7
    for term in expression:
        if term.base == '1':
            continue
        out[LETTERS.index(term.base)] += term.exponent
    return tuple(out)


def near(x, y, tol=1e-9):
    return abs(x - y) < tol * max(1.0, abs(x), abs(y))
