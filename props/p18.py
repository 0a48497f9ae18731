"""A dataset is represented faithfully under every name."""

import os
import pathlib
import warnings

import netCDF4
import numpy

from goats import eprem
from goats.core import datafile, metadata, variable

from pbt import eprem as data
from pbt import physics
from pbt.case import Cases
from pbt.engine import check, raises

CASES = Cases()
RULE = (
    "names (canonical, alias, or unknown) looked up in a generated dataset;"
    " distinct by the set of variables in the file and the name"
)
ASSUMPTIONS = [
    "data files are NetCDF files with axes of fixed size; a variable may"
    " give its unit as 'unit' or 'units', or not at all",
    "names that no table lists as an alias resolve only to themselves",
]

T, S, P, E, M = data.AXES
EXTRA = ['alpha', 'foo_bar', 'Zeta2', 'counts']
AXIS_ALIASES = {T: ['t', 'times'], S: ['shells'], P: [], E: ['energies', 'E', 'egrid'], M: ['mus', 'pitch angle']}
UNKNOWN = ['no_such_name', 'qqq', 'Brr', 'velocity', '']


def generic(g):
    """An arbitrary file and what it holds."""
    path = data.scratch(g)
    name = g.choice(['a.nc', 'obs000001.nc', 'data.v2.nc'])
    sizes = {a: g.int(1, 4) for a in g.subset(list(data.AXES), 0.7) + g.subset(['layer', 'n1'], 0.3)}
    if not sizes:
        sizes = {T: 2}
    names = g.subset(list(data.VARIABLES), 0.4) + g.subset(EXTRA, 0.3)
    names = g.shuffle(names or ['Vr'])
    content = {}
    with netCDF4.Dataset(str(path / name), 'w') as ds:
        unlimited = g.choice(list(sizes)) if g.bool(0.3) else None
        if unlimited and g.bool(0.3):
            sizes[unlimited] = 0
        for a, n in sizes.items():
            ds.createDimension(a, None if a == unlimited else n)
        for k in names:
            dims = tuple(g.sample(list(sizes), g.int(0, min(3, len(sizes)))))
            v = ds.createVariable(k, g.choice(['f8', 'f8', 'i4']), dims)
            values = data.noise(g, [sizes[d] for d in dims], -50.0, 90.0)
            if v.dtype == 'i4':
                values = numpy.round(values)
            attribute = g.choice(['unit', 'units', None])
            unit = g.choice(['m', 'km/s', 'julian date', 's^3/km^6', 'e-'])
            if attribute:
                setattr(v, attribute, unit)
            if values.size:
                v[...] = values
            content[k] = (values, unit if attribute else None, dims)
        for a in sizes:
            # no variable uses an unlimited axis: it has no points
            sizes[a] = len(ds.dimensions[a])
    return path / name, sizes, content


@CASES.add(250)
def views(g):
    """The generic view of a file."""
    path, sizes, content = generic(g)
    how = g.choice(['str', 'path', 'relative'])
    if how == 'relative':
        cwd = os.getcwd()
        g.cleanup(lambda: os.chdir(cwd))
        os.chdir(path.parent)
        f = datafile.Interface(path.name)
    else:
        f = datafile.Interface(str(path) if how == 'str' else path)
    g.note(sorted(content), how)
    key = tuple(sorted(content))
    # Axes that share a group of aliases keep their own names.
    for k, (values, unit, dims) in content.items():
        for alias in [k] + [a for a in data.ALIASES.get(k, []) if a not in content]:
            check(alias in f.variables, f"{alias!r} is not a variable of a file with {k!r}")
            v = f.variables[alias]
            what = f"variables[{alias!r}]"
            check(v.name == k, f"{what} is {v.name!r}, expected {k!r}")
            check(v.unit == unit, f"{what}: unit {v.unit!r}, expected {unit!r}")
            check(tuple(v.dimensions) == dims, f"{what}: axes {v.dimensions}, expected {dims}")
            got = numpy.array(v.data[...])
            check(got.shape == values.shape and numpy.array_equal(got, values), f"{what}: {got.tolist()}, expected {values.tolist()}")
            check(f.units[alias] == unit, f"units[{alias!r}] is {f.units[alias]!r}, expected {unit!r}")
            g.nontrivial(key, alias)
    for a, n in sizes.items():
        for alias in [a] + AXIS_ALIASES.get(a, []):
            check(alias in f.axes, f"{alias!r} is not an axis of a file with {a!r}")
            x = f.axes[alias]
            check((x.name, x.size) == (a, n), f"axes[{alias!r}] is {x}, expected {a!r} with {n} points")
    for kind, mapping, names in [('variables', f.variables, list(content)), ('axes', f.axes, list(sizes))]:
        keys = f.available(g.choice([kind, 'variable'] if kind == 'variables' else [kind, 'axis', 'dimension', 'dimensions']))
        check(list(keys.canonical) == names, f"available({kind!r}).canonical: {keys.canonical}, expected {names}")
        check(sorted(keys.full) == sorted(mapping), f"available({kind!r}).full: {keys.full}")
        flat = [k for group in keys.grouped for k in group]
        check(sorted(flat) == sorted(keys.full) and len(set(flat)) == len(flat), f"available({kind!r}).grouped: {keys.grouped}")
        check(len(keys.grouped) == len(names), f"{len(keys.grouped)} groups of {kind} for {names}")
        for group in keys.grouped:
            owners = {mapping[k].name for k in group}
            check(len(owners) == 1, f"group {group} names {owners}")
        for bad in g.sample(UNKNOWN, 2):
            check(bad not in mapping, f"{bad!r} is among the {kind}")
            with raises(KeyError, what=f"{kind}[{bad!r}]"):
                mapping[bad]


@CASES.add(150)
def quantities(g):
    """Variables as quantities, and axes, of an EPREM dataset."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d = data.make(g, kind=g.choice(['obs', 'flux']))
        f = datafile.Interface(d.path / d.file)
        system = g.choice(['mks', 'cgs'])
        v = eprem.Variables(f, system=system)
        for _ in range(g.int(1, 5)):
            name = g.choice(list(d.arrays))
            alias = g.choice([name] + data.ALIASES[name])
            q = v[alias]
            what = f"Variables[{alias!r}] ({system})"
            want = d.values(name, system)
            check(alias in v, f"{alias!r} is not in Variables")
            check(tuple(q.dimensions) == d.dims(name), f"{what}: axes {q.dimensions}")
            check(q.unit == metadata.Unit(d.unit(name, system)), f"{what}: unit {q.unit}, expected {d.unit(name, system)}")
            check(q.shape == want.shape and numpy.allclose(numpy.array(q), want, rtol=1e-9, atol=0), f"{what}: {numpy.array(q).tolist()}, expected {want.tolist()}")
            g.nontrivial(name, alias, system)
        for bad in g.sample(UNKNOWN + ['B', 'mean free path'], 2):
            check(bad not in v, f"{bad!r} is in Variables")
            with raises(KeyError, what=f"Variables[{bad!r}]"):
                v[bad]
        axes = eprem.Axes(f, **({'system': system} if g.bool() else {}))
        for a in data.AXES:
            for alias in [a] + [x for x in AXIS_ALIASES[a]]:
                check(alias in axes, f"{alias!r} is not in Axes")
                k = list(axes[alias].index())
                check(k == list(range(d.sizes[a])), f"Axes[{alias!r}].index() gives {k} for {d.sizes[a]} points")
        names = g.shuffle(g.subset(list(data.AXES), 0.6))
        extra = g.subset(['minimum energy', 'other'], 0.4)
        ordered = [a for a in data.AXES if a in names]
        check(list(axes.resolve(names + extra)) == ordered, f"resolve({names + extra}) gives {axes.resolve(names + extra)}")
        check(list(axes.resolve(names + extra, mode='append')) == ordered + extra, f"resolve({names + extra}, mode='append') gives {axes.resolve(names + extra, mode='append')}")
        # The general interface keeps units unless a system is given.
        base = variable.Interface(f, **({'system': 'cgs'} if g.bool() else {}))
        name = g.choice(['Vr', 'Br', 'R', 'Rho'])
        alias = g.choice([name] + data.ALIASES[name])
        q = base[alias]
        si = d.si[name] * (data.QUANTITIES[data.VARIABLES[name][2]][3] if base.system else 1.0)
        want = si if base.system else d.arrays[name]
        unit = d.unit(name, 'cgs') if base.system else data.VARIABLES[name][1]
        check(q.unit == metadata.Unit(unit), f"unit of {alias!r} in the general interface: {q.unit}, expected {unit}")
        check(tuple(q.dimensions) == d.dims(name) and numpy.allclose(numpy.array(q), want, rtol=1e-9, atol=0), f"{alias!r} in the general interface: {numpy.array(q).tolist()}, expected {want.tolist()}")


HIDDEN = ['preEruption', 'phiOffset']


@CASES.add(120)
def observers(g):
    """Which file an observer reads, and which names it observes."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        path = data.scratch(g)
        made = {}
        wanted = g.subset([(o, k, i) for o, k in [('stream', 'obs'), ('stream', 'flux'), ('point', 'obs')] for i in (0, 4, 123)], 0.35)
        for o, k, i in wanted:
            made[o, k, i] = data.make(g, observer=o, kind=k, ident=i, directory=path, config='lamo=1.0\n')
        (path / 'eprem_input_file').write_text('lamo=1.0\n')
        hidden = g.subset(HIDDEN, 0.5)
        for d in made.values():
            with netCDF4.Dataset(str(path / d.file), 'a') as ds:
                for h in hidden:
                    x = ds.createVariable(h, 'f8', ('time',))
                    x.units = 'radian'
                    x[...] = numpy.arange(float(d.sizes[T]))
        observer = g.choice(['stream', 'point'])
        ident = g.choice([0, 4, 123])
        cls = eprem.Stream if observer == 'stream' else eprem.Point
        o = cls(ident, source=g.choice([str(path), path]), config='eprem_input_file')
        d = made.get((observer, 'obs', ident)) or made.get((observer, 'flux', ident))
        g.note(observer, ident, sorted(made))
        if d is None:
            g.event('no file')
            with raises(Exception, what=f"{observer} {ident} without a file"):
                o['Vr']
            return
        check(o.datapath.name == d.file and o.datapath.parent == path.resolve(), f"{observer} {ident} reads {o.datapath}, expected {d.file}")
        kind = 'obs' if 'Dist' in d.arrays else 'flux'
        known = [[n] + data.ALIASES[n] for n in d.arrays]
        known += [[n] + physics.DERIVED[n][0] for n in physics.DERIVED if n not in d.arrays]
        observables = o.observables
        for group in known:
            for alias in group:
                check(alias in observables, f"{alias!r} is not observable ({kind})")
                check(o.observes(alias), f"observes({alias!r}) is false ({kind})")
        for alias in g.sample([a for group in known for a in group], 3):
            q = o[alias]
            check(q.name == alias and type(q).__name__ == 'Observable', f"observer[{alias!r}] is {q!r}")
            g.nontrivial(kind, alias, observer)
        name = g.choice([n for n in d.arrays if n not in ('shell',)])
        alias = g.choice([name] + data.ALIASES[name])
        result = o[alias].observe()
        check(numpy.allclose(numpy.array(result.data), d.values(name), rtol=1e-9, atol=0), f"{observer} {ident} observes {alias!r} from another file")
        for h in HIDDEN:
            check(h not in observables, f"{h!r} is observable")
            if h in hidden:
                q = o[h]
                check(numpy.allclose(numpy.array(q), numpy.arange(float(d.sizes[T]))), f"observer[{h!r}] is {q!r}")
        for bad in g.sample(['xyz1', 'Vx2', 'qqq'], 1):
            check(bad not in observables and not o.observes(bad), f"{bad!r} is observable")
            with raises(Exception, what=f"observer[{bad!r}]"):
                o[bad]


class Doubled(datafile.NetCDFVariables):
    """A viewer that gives another unit to every variable."""

    def __getitem__(self, name):
        return super().__getitem__(name)._replace(unit='other')


@CASES.add(40)
def viewers(g):
    """Replacing the viewer of one dataset."""
    path, _, content = generic(g)
    other, _, rest = generic(g)
    f = datafile.Interface(path)
    f.use(variables=Doubled)
    h = datafile.Interface(other)
    for k in content:
        check(f.variables[k].unit == 'other', f"the viewer of {k!r} was not replaced")
    for k, (_, unit, _) in rest.items():
        check(h.variables[k].unit == unit, f"unit of {k!r} is {h.variables[k].unit!r} after another dataset replaced its viewers, expected {unit!r}")
        g.nontrivial('viewer', k)
