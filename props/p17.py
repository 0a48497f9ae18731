"""Sessions with one observer: units, metric systems, parameters, and updates."""

import pathlib
import warnings

import numpy

from goats import eprem
from goats.core import metadata
from goats.core import physical

from pbt import eprem as data
from pbt import physics
from pbt.case import Cases
from pbt.engine import check, raises

CASES = Cases()
RULE = (
    "observations that follow at least one unit change, parameter, or update of"
    " the observer; distinct by quantity, units, parameters, and number of"
    " updates"
)
ASSUMPTIONS = [
    "parameters of one observation are given by their name in the configuration"
    " file or by any documented alias, with a unit unless dimensionless",
    "a configuration that is only a file name is looked up beside the data; it"
    " is given again whenever the data source changes",
    "observables created before an update of the observer are not used after it",
]

T, S, P, E, M = data.AXES
MEV, AU, DAY = data.MEV, data.AU, data.DAY

# Units of each kind with their number per SI unit.
UNITS = {
    'time': [('s', 1.0), ('hour', 1 / 3600.0), ('day', 1 / DAY), ('minute', 1 / 60.0), ('ms', 1e3)],
    'mass': [('kg', 1.0), ('g', 1e3), ('mg', 1e6)],
    'energy': [('J', 1.0), ('MeV', 1 / MEV), ('erg', 1e7), ('keV', 1e3 / MEV), ('eV', 1e6 / MEV)],
    'velocity': [('m/s', 1.0), ('km/s', 1e-3), ('cm/s', 1e2), ('au/day', DAY / AU), ('km/h', 3.6)],
    'length': [('m', 1.0), ('au', 1 / AU), ('km', 1e-3), ('cm', 1e2)],
    'angle': [('rad', 1.0), ('deg', 180 / numpy.pi)],
    'magnetic field': [('T', 1.0), ('nT', 1e9), ('G', 1e4), ('mT', 1e3)],
    'number density': [('m^-3', 1.0), ('cm^-3', 1e-6), ('1/cm^3', 1e-6), ('km^-3', 1e9)],
    'distribution': [('s^3/m^6', 1.0), ('s^3/km^6', 1e18), ('s^3/cm^6', 1e-12)],
    'flux': [('1/(s sr m^2 J)', 1.0), ('1/(cm^2 s sr MeV)', MEV * 1e-4), ('1/(cm^2 s sr erg)', 1e-11)],
    'energy density': [('J/m^3', 1.0), ('erg/cm^3', 10.0), ('MeV/cm^3', 1e-6 / MEV)],
    'rate': [('1/s', 1.0), ('1/hour', 3600.0), ('1/day', DAY)],
}
KIND = {
    'B': 'magnetic field', 'V': 'velocity', 'Vpara': 'velocity', 'x': 'length',
    'z': 'length', 'flow angle': 'angle', 'mean free path': 'length',
    'acceleration rate': 'rate', 'energy density': 'energy density',
    'isotropic distribution': 'distribution', 'flux': 'flux',
}
PARAMETERS = {
    'lambda0': [(('au',), AU), (('m',), 1.0), (('cm',), 0.01)],
    'mfp_radial_power': None, 'rigidity_power': None, 'kper_kpar': None,
}
USES = {
    'mean free path': ('lambda0', 'mfp_radial_power', 'rigidity_power'),
    'acceleration rate': ('kper_kpar',),
}
KEYS = {'lambda0': 'lamo', 'mfp_radial_power': 'mfpRadialPower', 'rigidity_power': 'rigidityPower', 'kper_kpar': 'kperxkpar'}
NAMES = {
    'lambda0': ['lambda0', 'lamo', 'lam0'],
    'mfp_radial_power': ['mfp_radial_power', 'mfpRadialPower'],
    'rigidity_power': ['rigidity_power', 'rigidityPower'],
    'kper_kpar': ['kper_kpar', 'kperxkpar'],
}
DEFAULTS = {'lambda0': AU, 'mfp_radial_power': 2.0, 'rigidity_power': 1.0 / 3.0, 'kper_kpar': 0.01}


def configuration(g):
    """Text of a configuration file and its parameters in SI units."""
    lines, si = [f"lamo={g.choice(['0.1', '0.4', '1.0', '3'])}"], dict(DEFAULTS)
    for name, values in [('mfp_radial_power', ['1.0', '0.5']), ('rigidity_power', ['0.5', '1.0']), ('kper_kpar', ['0.1', '0.5'])]:
        if g.bool():
            lines.append(f"{KEYS[name]} = {g.choice(values)}")
    for line in lines:
        k, v = (s.strip() for s in line.split('='))
        name = next(n for n, key in KEYS.items() if key == k)
        si[name] = float(v) * (AU if name == 'lambda0' else 1.0)
    return '\n'.join(g.shuffle(lines)) + '\n', si


class Session:
    def __init__(self, g):
        self.g = g
        self.observer = g.weighted([(3, 'stream'), (1, 'point')])
        self.ident = g.choice([0, 3, 42])
        self.places = []
        for _ in range(g.int(1, 3)):
            text, si = configuration(g)
            d = data.make(g, observer=self.observer, ident=self.ident, config=text)
            extra = {}
            for k in range(g.int(0, 2)):
                text, values = configuration(g)
                path = d.path / f'run{k}.cfg'
                path.write_text(text)
                extra[path] = values
            self.places.append((d, si, extra))
        self.system = g.choice(['mks', 'cgs', 'MKS', None])
        self.low = (self.system or 'mks').lower()
        self.updates = 0
        self.failed = False
        source, config = self.pick()
        cls = eprem.Stream if self.observer == 'stream' else eprem.Point
        options = {} if self.system is None else {'system': self.system}
        self.o = cls(self.ident, source=source, config=config, **options)

    def files(self):
        """Every configuration file as an absolute path, with its values."""
        out = {}
        for d, si, extra in self.places:
            out[d.path / d.config] = si
            out.update(extra)
        return out

    def pick(self):
        """Choose a source and a configuration, and remember what they hold."""
        g = self.g
        self.d, si, extra = g.choice(self.places)
        source = g.choice([str, pathlib.Path])(self.d.path)
        if g.bool(0.4):
            names = {self.d.config: si, **{p.name: v for p, v in extra.items()}}
            config = g.choice(list(names))
            self.si, self.bare = names[config], True
        else:
            config, self.bare = self.config(), False
        return source, config

    def config(self):
        files = self.files()
        path = self.g.choice(list(files))
        self.si = files[path]
        return self.g.choice([str, pathlib.Path])(path)

    def update(self):
        g = self.g
        how = 'both' if self.failed else g.choice(['both', 'source', 'config'])
        self.failed = False
        if how == 'source' and not self.bare:
            self.d = g.choice(self.places)[0]
            self.o.update(source=g.choice([str, pathlib.Path])(self.d.path))
        elif how == 'config':
            self.bare = False
            self.o.update(config=self.config())
        else:
            source, config = self.pick()
            result = self.o.update(source=source, config=config)
            check(result is self.o, "update returned another object")
        self.updates += 1
        g.event('update')

    def names(self):
        plain = [n for n in self.d.arrays if data.VARIABLES[n][2] in UNITS]
        return plain + ['mean free path', 'mean free path', 'acceleration rate'] + list(KIND)

    def kind(self, name):
        return data.VARIABLES[name][2] if name in self.d.arrays else KIND[name]

    def aliases(self, name):
        return [name] + (data.ALIASES[name] if name in self.d.arrays else physics.DERIVED[name][0])

    def system_units(self, name):
        """(mks unit, 1), (cgs unit, cgs per mks)"""
        if name in self.d.arrays:
            _, mks, cgs, f = data.QUANTITIES[data.VARIABLES[name][2]]
        else:
            _, mks, cgs, f = physics.DERIVED[name]
        return {'mks': (mks, 1.0), 'cgs': (cgs, f)}

    def truth(self, name, parameters):
        if name in self.d.arrays:
            return self.d.dims(name), self.d.si[name]
        return physics.Physics(self.d, **{**self.si, **parameters})(name)


def compare(s, q, name, unit, factor, dims, si, what):
    check(q.unit == metadata.Unit(unit), f"{what}: unit {q.unit}, expected {unit}")
    check(tuple(q.dimensions) == tuple(dims), f"{what}: axes {q.dimensions}, expected {dims}")
    got, want = numpy.array(q.data), si * factor
    check(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
    scale = numpy.max(numpy.abs(want))
    check(numpy.allclose(got, want, rtol=1e-6, atol=1e-7 * scale), f"{what}: {got.ravel()[:4].tolist()}, expected {want.ravel()[:4].tolist()}")


def chain(s, name, q, what, start):
    """Change the unit a few times; yield each new object."""
    g = s.g
    unit, factor = start
    steps = []
    for _ in range(g.weighted([(3, 0), (3, 1), (2, 2), (1, 3)])):
        if g.bool(0.3):
            system = g.choice(['mks', 'cgs', 'MKS', 'CGS'])
            unit, factor = s.system_units(name)[system.lower()]
            new, spelled = q[system], system
        else:
            unit, factor = g.choice(UNITS[s.kind(name)])
            spelled = unit
            new = q[metadata.Unit(unit)] if g.bool(0.2) else q[unit]
        before = str(q.unit)
        steps.append(spelled)
        check(new.unit == metadata.Unit(unit), f"{what}{steps}: unit {new.unit}, expected {unit}")
        check(str(q.unit) == before, f"{what}{steps} changed the unit of the original to {q.unit}")
        q = new
    return q, unit, factor, steps


def observe(s):
    g = s.g
    name = g.choice(s.names())
    alias = g.choice(s.aliases(name))
    start = s.system_units(name)[s.low]
    q0 = s.o[alias]
    q, unit, factor, steps = chain(s, name, q0, f"observer[{alias!r}]", start)
    given, parameters = {}, {}
    for p in USES.get(name, ()):
        if g.bool(0.4):
            if p == 'lambda0':
                (u,), f = g.choice(PARAMETERS[p])
                value = g.choice([0.05, 0.7, 2.0]) * AU / f
                key = g.choice(NAMES[p])
                given[key] = g.choice([(value, u), [value, u], physical.Scalar(value, unit=u)])
                parameters[p] = value * f
                if g.bool(0.15):
                    bad = {key: (value, g.choice(['s', 'MeV', 'm^2', 'nT']))}
                    with raises(ValueError, what=f"{alias!r}{steps}.observe({bad})"):
                        q.observe(**bad)
            else:
                parameters[p] = given[g.choice(NAMES[p])] = g.choice([0.25, 1.5, 3.0])
    if parameters:
        g.event('parameters')
    dims, si = s.truth(name, parameters)
    if name in s.d.arrays or name == 'mean free path':
        # Positions along some of the axes, in this observation only.
        for i, (axis, n) in enumerate(zip(dims, numpy.shape(si))):
            if axis in data.AXES[:2] and g.bool(0.25):
                picks = [g.int(0, n - 1) for _ in range(g.int(1, 3))]
                given[axis] = picks
                si = numpy.take(si, picks, axis=i)
                g.event('positions')
    what = f"{alias!r}{steps}.observe({given})"
    g.note(what)
    result = q.observe(**given)
    compare(s, result, name, unit, factor, dims, si, what)
    check(q0.unit == metadata.Unit(start[0]), f"{what}: the unit of the first observable is now {q0.unit}")
    def reported(result, what):
        for p in USES.get(name, ()):
            want = {**s.si, **parameters}[p]
            got = result[p]
            f = 100.0 if p == 'lambda0' and s.low == 'cgs' else 1.0
            u = {'mks': 'm', 'cgs': 'cm'}[s.low] if p == 'lambda0' else '1'
            check(numpy.isclose(float(got), want * f, rtol=1e-9, atol=0) and got.unit == u, f"{what}: parameter {p} is {got}, expected {want * f} {u}")
            check(p in result.parameters, f"{what}: {p} is not among {result.parameters}")
    reported(result, what)
    later, unit2, factor2, more = chain(s, name, result, what, (unit, factor))
    compare(s, later, name, unit2, factor2, dims, si, f"{what}{more}")
    reported(later, f"{what}{more}")
    compare(s, result, name, unit, factor, dims, si, f"{what} after {more}")
    if steps or more or parameters or s.updates:
        g.nontrivial(alias, tuple(steps), tuple(more), tuple(given), s.updates)


def references(s):
    """The arrays that describe the axes of the current dataset."""
    g = s.g
    name, file, kind = g.choice([
        ('time', 'time', 'time'), ('energy', 'egrid', 'energy'), ('mu', 'mu', None),
        ('radius', 'R', 'length'), ('theta', 'T', 'angle'), ('phi', 'P', 'angle'),
        ('shell', 'shell', None), ('species', None, None),
    ])
    g.note(name)
    this = getattr(s.o, name)
    if name == 'species':
        check(list(this.values) == list(s.d.species), f"observer.species: {list(this.values)}, expected {s.d.species}")
        return
    si = s.d.si[file]
    if name == 'energy' and si.ndim == 2:
        si = si[0]
    unit, factor = s.system_units(file)[s.low]
    what = f"observer.{name}"
    if kind and g.bool(0.7):
        unit, factor = g.choice(UNITS[kind])
        what += f"[{unit!r}]"
        this = this[unit]
    check(this.unit == metadata.Unit(unit), f"{what}: unit {this.unit}, expected {unit}")
    got = numpy.array(this)
    check(got.shape == si.shape and numpy.allclose(got, si * factor, rtol=1e-8, atol=0), f"{what}: {got.tolist()}, expected {(si * factor).tolist()}")


def parameter(s):
    """Run parameters by name, in the unit of the configuration."""
    g = s.g
    name, key = g.choice(list(KEYS.items()))
    alias = g.choice([name, key])
    got = s.o[alias]
    want = s.si[name] / (AU if name == 'lambda0' else 1.0)
    g.note(alias)
    check(numpy.isclose(float(got), want, rtol=1e-9, atol=0), f"observer[{alias!r}] is {got}, expected {want}")
    check(got.unit == ('au' if name == 'lambda0' else '1'), f"observer[{alias!r}] has unit {got.unit}")


def refused(s):
    """Something that cannot work, and must not affect what follows."""
    g = s.g
    what = g.choice(['source', 'config', 'unit', 'result'])
    g.note('refused', what)
    if what == 'unit':
        name = g.choice(s.names())
        kind = s.kind(name)
        unit = g.choice([u for k, v in UNITS.items() if k not in (kind, 'angle') for u, _ in v])
        alias = g.choice(s.aliases(name))
        if kind == 'angle' or {kind, unit} <= {'magnetic field'}:
            return
        with raises(Exception, what=f"observer[{alias!r}][{unit!r}].observe()"):
            s.o[alias][unit].observe()
    elif what == 'result':
        name = g.choice(s.names())
        kind = s.kind(name)
        unit = g.choice([u for k, v in UNITS.items() if k not in (kind, 'angle') for u, _ in v])
        if kind == 'angle':
            return
        result = s.o[name].observe()
        with raises(Exception, what=f"observer[{name!r}].observe()[{unit!r}]"):
            result[unit]
        unit, factor = s.system_units(name)[s.low]
        compare(s, result, name, unit, factor, *s.truth(name, {}), f"{name!r}.observe() after a refusal")
    else:
        bad = s.d.path / g.choice(['missing', 'no/such/place'])
        with raises(Exception, what=f"update({what}={str(bad)!r})"):
            s.o.update(**{what: g.choice([str, pathlib.Path])(bad)})
        s.failed = True
        name = g.choice(s.names())
        unit, factor = s.system_units(name)[s.low]
        compare(s, s.o[name].observe(), name, unit, factor, *s.truth(name, {}), f"{name!r}.observe() after a refused update")


@CASES.add(500)
def session(g):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = Session(g)
        for _ in range(g.int(1, 7)):
            op = g.weighted([(5, observe), (2, references), (1, parameter), (2, Session.update), (1, refused)])
            op(s)
