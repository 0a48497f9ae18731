"""An observation holds exactly the requested part of a quantity."""

import warnings

import numpy

from goats import eprem
from goats.core import measurable
from goats.core import metadata
from goats.core import physical

from pbt import eprem as data
from pbt import physics
from pbt.case import Cases
from pbt.engine import check, raises

CASES = Cases()
RULE = (
    "observations with at least one constraint on an axis of the observed"
    " quantity; distinct by quantity, array sizes, and constraints"
)
ASSUMPTIONS = [
    "all species share one energy grid when energies are given by value",
    "integers are positions along an axis; other numbers are values of that"
    " axis, which here coincide with grid points; empty selections are not"
    " requested",
]

T, S, P, E, M = data.AXES
FILE = {T: 'time', S: 'shell', E: 'egrid', M: 'mu'}
UNITS = {
    T: [('s', 86400.0), ('day', 1.0), ('hour', 24.0), ('minute', 1440.0)],
    E: [('MeV', 1.0), ('keV', 1e3), ('eV', 1e6), ('J', data.MEV), ('erg', 1e7 * data.MEV)],
    M: [('1', 1.0)],
}
NAMES = {
    T: ['time', 't', 'times'],
    S: ['shell', 'shells'],
    P: ['species'],
    E: ['energy', 'energies', 'E', 'egrid'],
    M: ['mu', 'mus', 'pitch angle', 'pitch-angle cosine', 'pitch angles'],
}
PLAIN = list(data.VARIABLES)
DERIVED = ['B', 'V', 'Vpara', 'flow angle', 'rigidity', 'mean free path', 'flux', 'isotropic distribution', 'energy density', 'x', 'density ratio']


class World:
    """One observer and what its dataset holds."""

    def __init__(self, g, sizes=None, flux=True, same_energy=True):
        self.observer = g.weighted([(3, 'stream'), (1, 'point')])
        self.kind = 'obs' if self.observer == 'point' or not flux else g.weighted([(3, 'obs'), (1, 'flux')])
        self.d = data.make(g, observer=self.observer, kind=self.kind, config='lamo=1.0\n', sizes=sizes, same_energy=same_energy)
        self.system = g.choice(['mks', 'cgs'])
        cls = eprem.Stream if self.observer == 'stream' else eprem.Point
        self.o = cls(self.d.ident, source=self.d.path, config=self.d.config, system=self.system)
        self.ph = physics.Physics(self.d)
        self.sizes = self.d.sizes
        self.reused = {}

    def names(self):
        out = [n for n in PLAIN if n in self.d.arrays]
        return out + [n for n in DERIVED if n not in out and not (self.kind == 'flux' and n in physics.FROM_DIST)]

    def truth(self, name):
        """Axes, values, and unit of a whole quantity."""
        if name in self.d.arrays:
            return self.d.dims(name), self.d.values(name, self.system), self.d.unit(name, self.system)
        dims, values = self.ph(name)
        _, mks, cgs, f = physics.DERIVED[name]
        return (dims, values, mks) if self.system == 'mks' else (dims, values * f, cgs)

    def aliases(self, name):
        return data.ALIASES[name] if name in self.d.arrays else physics.DERIVED[name][0]

    def observable(self, g, name):
        alias = g.choice([name] + self.aliases(name))
        if alias in self.reused and g.bool():
            return alias, self.reused[alias]
        self.reused[alias] = self.o[alias]
        return alias, self.reused[alias]

    def axis(self, name):
        """Values of an axis in the observer's metric system."""
        if name == P:
            return list(self.d.species)
        if name == S:
            return numpy.arange(self.sizes[S])
        a = self.d.values(FILE[name], self.system)
        return a[0] if a.ndim == 2 else a


def positions(g, n):
    """Some positions along an axis, in any order."""
    return [g.int(0, n - 1) for _ in range(g.int(1, 3))]


def quantity(g, values, unit):
    """The given values and unit as some measurable object."""
    forms = ['vector', 'array', 'measurement', 'list']
    form = g.choice(forms + ['scalar'] * 3 if len(values) == 1 else forms)
    if form == 'scalar':
        return physical.Scalar(values[0], unit=unit)
    if form == 'vector':
        return physical.Vector(values, unit=unit)
    if form == 'array':
        return physical.Array(values, unit=unit)
    if form == 'measurement':
        return measurable.measure(*values, unit)
    return [physical.Scalar(v, unit=unit) for v in values]


def constraint(g, w, axis):
    """A constraint and the positions that it selects."""
    n = w.sizes[axis]
    forms = ['int', 'ints', 'slice', 'range', 'negative']
    forms += {P: ['name', 'names'], S: []}.get(axis, ['value', 'values', 'nested', 'bare', 'axis', 'quantity'])
    form = g.choice(forms)
    if form == 'int':
        i = g.int(0, n - 1)
        return form, (i if g.bool() else numpy.int64(i)), [i]
    if form == 'ints':
        k = positions(g, n)
        return form, g.choice([list, tuple])(k), k
    if form == 'negative':
        i = -g.int(1, n)
        return form, i, [n + i]
    if form == 'slice':
        start = g.choice([None] + list(range(-n, n)))
        stop = g.choice([None] + list(range(-n, n + 2)))
        s = slice(start, stop, g.choice([None, 1, 2, -1]))
        k = list(range(n))[s]
        if not k:
            s, k = slice(None), list(range(n))
        return form, s, k
    if form == 'range':
        a = g.int(0, n - 1)
        r = range(a, g.int(a + 1, n), g.choice([1, 1, 2]))
        return form, r, list(r)
    if form == 'name':
        i = g.int(0, n - 1)
        return form, w.d.species[i], [i]
    if form == 'names':
        k = positions(g, n)
        return form, [w.d.species[i] for i in k], k
    if form == 'axis':
        this = getattr(w.o, axis)
        unit = g.choice([None] + [u for u, _ in UNITS[axis]])
        return form, (this if unit is None else this[unit]), list(range(n))
    unit, f = g.choice(UNITS[axis])
    raw = w.d.arrays[FILE[axis]]
    raw = (raw[0] if raw.ndim == 2 else raw) * f
    k = positions(g, n) if form != 'value' else [g.int(0, n - 1)]
    values = [float(raw[i]) for i in k]
    if form == 'bare' or axis == M:
        values = [float(w.axis(axis)[i]) for i in k]
        if len(values) == 1:
            return 'bare', values[0], k
        return 'bare', values, k
    if form == 'nested':
        return form, [tuple(values), unit], k
    if form == 'quantity':
        return form, quantity(g, values, unit), k
    return form, g.choice([list, tuple])([*values, unit]), k


def take(array, dims, picks):
    for i, d in enumerate(dims):
        if d in picks:
            array = numpy.take(array, picks[d], axis=i)
    return array


def verify(w, result, name, picks, what):
    dims, full, unit = w.truth(name)
    want = take(full, dims, picks)
    check(tuple(result.dimensions) == tuple(dims), f"{what}: axes {result.dimensions}, expected {dims}")
    check(result.unit == metadata.Unit(unit), f"{what}: unit {result.unit}, expected {unit}")
    got = numpy.array(result.data)
    check(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
    scale = numpy.max(numpy.abs(full)) if name in ('Vperp', 'flow angle', 'Vpara') else 0.0
    check(numpy.allclose(got, want, rtol=1e-7, atol=1e-9 * scale), f"{what}: {got.tolist()}, expected {want.tolist()}")
    check(numpy.shape(result.array) == want.squeeze().shape, f"{what}: bare array {numpy.shape(result.array)}")
    check(numpy.allclose(result.array, want.squeeze(), rtol=1e-7, atol=1e-9 * scale), f"{what}: values of the bare array")
    for axis in dims:
        expect = w.axis(axis)
        k = picks.get(axis, range(len(expect)))
        expect = [expect[i] for i in k]
        if axis == P:
            # Symbols are not numbers, so they can't form a numerical array.
            values = list(result[axis].data)
            check(list(values) == expect, f"{what}: {axis} axis {list(values)}, expected {expect}")
        else:
            values = numpy.array(result[axis])
            check(values.shape == (len(expect),) and numpy.allclose(values, expect, rtol=1e-9, atol=0), f"{what}: {axis} axis {values.tolist()}, expected {expect}")


@CASES.add(700)
def parts(g):
    """A sequence of observations, each independent of the previous ones."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        w = World(g)
        g.event(w.system)
        for _ in range(g.int(1, 5)):
            name = g.choice(w.names())
            alias, q = w.observable(g, name)
            dims = w.truth(name)[0]
            chosen, picks = {}, {}
            for axis in data.AXES:
                if not g.bool(0.55 if axis in dims else 0.1):
                    continue
                if axis == E and w.sizes[P] > 1 and 'egrid' not in w.d.arrays:
                    continue
                key = g.choice(NAMES[axis])
                form, chosen[key], k = constraint(g, w, axis)
                picks[axis] = k
                g.event(f'{axis} by {form}')
            what = f"{alias!r}.observe({chosen}) with sizes {w.sizes}"
            g.note(alias, {k: str(v) for k, v in chosen.items()})
            result = q.observe(**chosen)
            verify(w, result, name, picks, what)
            if set(picks) & set(dims):
                g.nontrivial(alias, tuple(w.sizes.values()), tuple((k, str(v)) for k, v in chosen.items()))


@CASES.add(150)
def equality(g):
    """Observations are equal when they hold the same part of a quantity."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        w = World(g, flux=False)
        name = g.choice([n for n in ('Vr', 'Br', 'Dist', 'R', 'Rho', 'mass') if n in w.d.arrays])
        dims = w.truth(name)[0]
        parts = []
        for _ in range(2):
            picks = {a: [g.int(0, w.sizes[a] - 1)] for a in dims if g.bool()}
            parts.append(picks)
        twice = []
        for picks in parts:
            keys = {g.choice(NAMES[a]): k[0] if g.bool() else list(k) for a, k in picks.items()}
            twice.append([w.observable(g, name)[1].observe(**keys) for _ in range(2)])
        g.note(name, w.sizes, parts)
        a, b = twice[0]
        check(a == b and not a != b, f"{name}: two observations of {parts[0]} differ")
        check(a == a, f"{name}: an observation differs from itself")
        c = twice[1][0]
        x, y = numpy.array(a.data), numpy.array(c.data)
        axes = [(numpy.array(a[d]), numpy.array(c[d])) for d in dims if d != P]
        same = x.shape == y.shape and numpy.array_equal(x, y) and all(numpy.array_equal(*p) for p in axes)
        if not same:
            check(a != c and not a == c, f"{name}: {parts[0]} and {parts[1]} are equal")
            g.nontrivial(name, str(w.sizes), str(parts))
        unit = {'Vr': 'km / hour', 'Br': 'mG', 'R': 'km', 'mass': 'mg'}.get(name)
        if unit:
            check(a != a[unit] and a[unit] == b[unit], f"{name}: in {unit}")
        other = {'Vr': 'Vt', 'Br': 'Bt'}.get(name)
        if other:
            keys = dict(parts[0])
            d = w.observable(g, other)[1].observe(**keys)
            if not numpy.array_equal(numpy.array(d.data), x):
                check(a != d, f"{name} equals {other}")
        for thing in (a.data, x, None, name):
            check((a == thing) is False or not isinstance(a == thing, bool), f"{name}: an observation equals {type(thing)}")


@CASES.add(150)
def refused(g):
    """Requests outside the dataset are refused, and do not affect later ones."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        w = World(g, flux=False)
        for _ in range(g.int(1, 3)):
            name = g.choice(['Dist', 'Dist', 'Vr', 'time', 'mass'])
            alias, q = w.observable(g, name)
            dims = w.truth(name)[0]
            axis = g.choice(dims)
            n = w.sizes[axis]
            if axis == P and g.bool():
                bad = g.choice([s for s, _, _ in data.SYMBOLS if s not in w.d.species] + ['Xx'])
            elif axis in (T, E) and g.bool(0.4):
                bad = (1.0, 'm' if axis == E else 'MeV')
                if g.bool():
                    bad = quantity(g, [1.0], bad[1])
            else:
                bad = g.choice([n, n + 3, -n - 1])
            what = f"{alias!r}.observe({axis}={bad!r}) with {n} points"
            g.note(what)
            with raises(IndexError, ValueError, KeyError, TypeError, what=what):
                q.observe(**{g.choice(NAMES[axis]): bad})
            g.nontrivial(alias, axis, str(bad), n)
            result = q.observe()
            verify(w, result, name, {}, f"{alias!r}.observe() after a refusal")
