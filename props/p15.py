"""Values between grid points are linear interpolations of the neighbours."""

import warnings

import numpy

from goats import eprem
from goats.core import metadata
from goats.core import physical

from pbt import eprem as data
from pbt import physics
from pbt.case import Cases
from pbt.engine import check, raises

from . import p14

CASES = Cases()
RULE = (
    "observations with at least one requested value strictly between grid"
    " points of an axis of the quantity; distinct by quantity, array sizes, and"
    " requested axes"
)
ASSUMPTIONS = [
    "requested values lie within the range of the axis, for radius at every"
    " time; quantities that define an axis (time, radius, energy, ...) are not"
    " interpolated",
    "an energy request with several species uses one energy grid for all of"
    " them, or a value between grid points of every species",
]

T, S, P, E, M = data.AXES
SKIP = {'time', 'shell', 'mu', 'egrid', 'R', 'T', 'P', 'mass', 'charge'}
LENGTHS = [('au', 1.0), ('m', data.AU), ('km', data.AU / 1e3), ('cm', data.AU * 1e2)]


def between(g, lo, hi):
    return lo + (hi - lo) * g.choice([0.5, 0.25, 0.1, 0.9, 0.001, 0.999, 0.37])


def some_values(g, grid):
    """Values within a grid, at least one of them between grid points."""
    n = len(grid)
    out = []
    for i in range(g.int(1, 3)):
        if i and g.bool(0.4):
            out.append(float(grid[g.int(0, n - 1)]))
        else:
            k = g.int(0, n - 2)
            out.append(float(between(g, grid[k], grid[k + 1])))
    return g.shuffle(out)


def spell(g, w, axis, values):
    """A constraint with the given values in the unit of the file."""
    if axis == M:
        return values[0] if len(values) == 1 and g.bool() else values
    unit, f = g.choice(p14.UNITS[axis])
    scaled = [v * f for v in values]
    form = g.choice(['flat', 'nested', 'pairs', 'bare', 'quantity'])
    if form == 'bare':
        f = {T: data.DAY, E: data.MEV * (1.0 if w.system == 'mks' else 1e7)}[axis]
        scaled = [v * f for v in values]
        return scaled[0] if len(scaled) == 1 else scaled
    if form == 'quantity':
        return p14.quantity(g, scaled, unit)
    if form == 'nested':
        return [tuple(scaled), unit]
    if form == 'pairs' and len(scaled) > 1:
        return [(v, unit) for v in scaled]
    return (*scaled, unit)


def linear(x, y, at):
    """Linear interpolation along the first axis of `y`."""
    out = []
    for v in at:
        k = int(numpy.clip(numpy.searchsorted(x, v) - 1, 0, len(x) - 2))
        a = (v - x[k]) / (x[k + 1] - x[k])
        out.append(y[k] + (y[k + 1] - y[k]) * a)
    return numpy.array(out)


def along(array, position, function):
    return numpy.moveaxis(function(numpy.moveaxis(array, position, 0)), 0, position)


def expected(w, name, wanted, picks, radius):
    """Interpolated and selected values, from whole arrays."""
    dims, array, _ = w.truth(name)
    dims = list(dims)
    if radius is not None:
        t, s = dims.index(T), dims.index(S)
        moved = numpy.moveaxis(array, (t, s), (0, 1))
        grid = w.d.arrays['R']
        rows = numpy.array([linear(grid[i], moved[i], [radius]) for i in range(len(grid))])
        array = numpy.moveaxis(rows, (0, 1), (t, s))
    for axis, values in wanted.items():
        if axis not in dims:
            continue
        i = dims.index(axis)
        grid = w.d.arrays[p14.FILE[axis]]
        if axis == E and grid.ndim == 2 and P in dims:
            p = dims.index(P)
            moved = numpy.moveaxis(array, (p, i), (0, 1))
            rows = numpy.array([linear(grid[k], moved[k], values) for k in range(len(grid))])
            array = numpy.moveaxis(rows, (0, 1), (p, i))
        else:
            grid = grid[0] if grid.ndim == 2 else grid
            array = along(array, i, lambda a: linear(grid, a, values))
    return p14.take(array, dims, picks)


@CASES.add(800)
def interpolated(g):
    """A sequence of observations that mix interpolated and selected axes."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sizes = {T: g.int(2, 5), S: g.int(2, 6), E: g.int(2, 6), M: g.int(2, 4)}
        w = p14.World(g, sizes=sizes, same_energy=g.bool(0.7))
        egrid = w.d.arrays['egrid']
        rows = egrid if egrid.ndim == 2 else egrid[None, :]
        same = all(numpy.array_equal(r, rows[0]) for r in rows)
        g.event('same energies' if same else 'energies per species')
        for _ in range(g.int(1, 4)):
            name = g.choice([n for n in w.names() if n not in SKIP])
            alias, q = w.observable(g, name)
            dims = w.truth(name)[0]
            chosen, picks, wanted, radius = {}, {}, {}, None
            # A radius at every time.
            lo, hi = w.d.arrays['R'][:, 0].max(), w.d.arrays['R'][:, -1].min()
            if T in dims and S in dims and lo < hi and g.bool(0.4):
                radius = float(between(g, lo, hi))
                key = g.choice(['radius', 'r', 'R'])
                unit, f = g.choice(LENGTHS)
                chosen[key] = g.choice([(radius * f, unit), [radius * f, unit], physical.Scalar(radius * f, unit=unit)])
                if g.bool(0.2):
                    chosen[key] = radius * data.AU * (1.0 if w.system == 'mks' else 1e2)
                    chosen[key] = (chosen[key], 'm' if w.system == 'mks' else 'cm')
                g.event('radius')
                if g.bool(0.15):
                    bad = g.choice(['s', 'MeV', 'm^2', 'nT'])
                    bad = g.choice([(radius, bad), physical.Scalar(radius, unit=bad)])
                    with raises(ValueError, TypeError, what=f"{alias!r}.observe({key}={bad!r})"):
                        q.observe(**{key: bad})
            for axis in data.AXES:
                if axis == S and radius is not None:
                    continue
                mode = g.weighted([(4, 'free'), (3, 'value'), (2, 'pick')])
                if axis not in dims and mode != 'free' and not g.bool(0.2):
                    continue
                if mode == 'free':
                    continue
                if mode == 'value' and axis in (T, E, M):
                    grid = w.d.arrays[p14.FILE[axis]]
                    if axis == E and not same:
                        low, high = rows[:, 0].max(), rows[:, -1].min()
                        if low >= high:
                            continue
                        values = [float(between(g, low, high)) for _ in range(g.int(1, 2))]
                        every = rows.ravel()
                        if any(numpy.isclose(v, every, rtol=1e-4, atol=0).any() for v in values):
                            continue
                    else:
                        values = some_values(g, grid[0] if grid.ndim == 2 else grid)
                    wanted[axis] = values
                    chosen[g.choice(p14.NAMES[axis])] = spell(g, w, axis, values)
                    g.event(f'{axis} between')
                else:
                    form, chosen[axis], picks[axis] = p14.constraint(g, w, axis) if axis in (S, P) else ('ints', *[p14.positions(g, w.sizes[axis])] * 2)
            what = f"{alias!r}.observe({chosen}) with sizes {w.sizes}"
            g.note(alias, {k: str(v) for k, v in chosen.items()})
            result = q.observe(**chosen)
            want = expected(w, name, wanted, picks, radius)
            unit = w.truth(name)[2]
            check(tuple(result.dimensions) == tuple(dims), f"{what}: axes {result.dimensions}, expected {dims}")
            check(result.unit == metadata.Unit(unit), f"{what}: unit {result.unit}, expected {unit}")
            got = numpy.array(result.data)
            check(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
            scale = numpy.max(numpy.abs(w.truth(name)[1]))
            check(numpy.allclose(got, want, rtol=1e-6, atol=1e-9 * scale), f"{what}: {got.tolist()}, expected {want.tolist()}")
            for axis, values in wanted.items():
                if axis not in dims:
                    continue
                shown = numpy.array(result[axis])
                f = {T: data.DAY, E: data.MEV * (1.0 if w.system == 'mks' else 1e7), M: 1.0}[axis]
                check(shown.shape == (len(values),) and numpy.allclose(shown, [v * f for v in values], rtol=1e-9, atol=0), f"{what}: {axis} axis {shown.tolist()}")
            used = set(wanted) & set(dims) | ({'radius'} if radius is not None else set())
            if used:
                g.event('axes: %d' % len(used))
                g.nontrivial(alias, tuple(w.sizes.values()), tuple(sorted(used)), tuple(sorted(picks)), tuple(map(str, wanted.values())))
