"""Derived quantities follow their physical definitions."""

import warnings

import numpy

from goats import eprem

from pbt import eprem as data
from pbt import physics
from pbt.case import Cases
from pbt.engine import check

CASES = Cases()
RULE = (
    "observations of derived quantities of a synthetic dataset; distinct by"
    " quantity, alias, metric system, array sizes, and run parameters"
)
ASSUMPTIONS = [
    "the definitions are those in the documentation of each function: SI"
    " formulas with the constants of the NRL formulary, Simpson integrals over"
    " time and energy, and a power law at the lower bound of integral flux",
    "time grids have at least two points for time derivatives and integrals",
]

T, S, P, E, M = data.AXES


def parameters(g):
    """Configuration text and the same parameters in SI units."""
    text, si = [], {'lambda0': physics.AU}
    for key, name, values, unit in [
        ('lamo', 'lambda0', ['0.1', '1.0', '0.25', '2'], physics.AU),
        ('mfpRadialPower', 'mfp_radial_power', ['2.0', '1.0', '0', '0.5', '-1.0'], 1.0),
        ('rigidityPower', 'rigidity_power', ['0.5', '1.0', '0.25', '0'], 1.0),
        ('kperxkpar', 'kper_kpar', ['0.01', '0.5', '1.0', '0.0'], 1.0),
    ]:
        if g.bool(0.7):
            v = g.choice(values)
            text.append(f"{key}={v}")
            si[name] = float(v) * unit
    return '\n'.join(text + ['numSpecies=1', '']), si


def bound(g, d):
    """A minimum energy in MeV, on, between, below, or above grid points."""
    grid = d.arrays['egrid'].reshape(-1)
    how = g.choice(['between', 'grid', 'below', 'above', 'apart'])
    if how == 'apart':
        # Below or above the grid of one species but not of another.
        rows = d.arrays['egrid'].reshape(-1, d.sizes[E])
        ends = sorted(rows[:, g.choice([0, -1])])
        i = g.int(0, len(ends) - 1)
        return how, 0.5 * float(ends[i] + ends[max(i - 1, 0)])
    if how == 'below':
        return how, 0.5 * float(min(grid))
    if how == 'above':
        return how, 2.0 * float(max(grid))
    i = g.int(0, len(grid) - 1)
    if how == 'grid':
        return how, float(grid[i])
    return how, float(grid[i]) * g.choice([1.1, 1.37, 0.9])


def tolerance(name, ph, want):
    """Absolute errors that rounding may cause in differences of large terms."""
    if name == 'Vperp':
        return 1e-6 * ph.mag('V')
    if name == 'flow angle':
        return 1e-6
    if name == 'acceleration rate':
        # The difference of neighbouring velocities may vanish.
        n = ph.d.sizes[S]
        ahead = [min(s + 1, n - 1) for s in range(n)]
        behind = [max(s - 1, 0) for s in range(n)]
        v, k = ph.mag('V'), ph.kxx()
        return 1e-9 * v[:, ahead, None, None] / (k[:, ahead] + k[:, behind])
    if name == 'div(V)':
        return 1e-9 * numpy.max(numpy.abs(want)) + 1e-20
    return 0.0


def observed(g, o, name, d, ph, system):
    aliases, mks, cgs, factor = physics.DERIVED[name]
    alias = g.choice([name] + aliases)
    quantity = o[alias]
    constraints = {}
    if name == 'integral flux' and g.bool(0.8):
        how, e = bound(g, d)
        g.event(f'bound {how}')
        unit, f = g.choice([('MeV', 1.0), ('eV', 1e6), ('keV', 1e3)])
        constraints['minimum_energy'] = g.choice([list, tuple])((e * f, unit))
        ph.p['minimum_energy'] = e * data.MEV
    g.note(alias, constraints)
    result = quantity.observe(**constraints)
    dims, want = ph(name)
    ph.p['minimum_energy'] = 0.0
    atol = tolerance(name, ph, want)
    if system == 'cgs':
        want, atol = want * factor, atol * factor
    unit = mks if system == 'mks' else cgs
    what = f"{alias!r} {d.sizes} ({system})"
    got = numpy.array(result.data)
    check(tuple(result.dimensions) == dims, f"{what}: axes {result.dimensions}, expected {dims}")
    check(tuple(quantity.dimensions) == dims, f"{what}: axes of the observable {quantity.dimensions}, expected {dims}")
    check(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
    check(result.unit == unit, f"{what}: unit {result.unit}, expected {unit}")
    check(quantity.unit == unit, f"{what}: unit of the observable {quantity.unit}, expected {unit}")
    ok = numpy.abs(got - want) <= 1e-6 * numpy.abs(want) + atol
    check(bool(numpy.all(ok)), f"{what}: {got[~ok].tolist()[:3]}, expected {want[~ok].tolist()[:3]}" if not numpy.all(ok) else what)
    g.nontrivial(alias, system, tuple(d.sizes.values()), tuple(sorted(ph.p.items())))
    g.event(name)


@CASES.add(160)
def bounds(g):
    """Integral flux above several bounds, each with its own species grids."""
    text, si = parameters(g)
    kind = g.weighted([(2, 'obs'), (1, 'flux')])
    d = data.make(g, observer='stream', kind=kind, config=text, same_energy=False, spread=True)
    system = g.choice(['mks', 'cgs'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        o = eprem.Stream(d.ident, source=d.path, config=d.config, system=system)
        ph = physics.Physics(d, **si)
        for _ in range(g.int(1, 4)):
            observed(g, o, 'integral flux', d, ph, system)


@CASES.add(600)
def derived(g):
    """Every derived quantity matches an independent SI computation."""
    text, si = parameters(g)
    observer = g.weighted([(3, 'stream'), (1, 'point')])
    kind = 'obs' if observer == 'point' else g.weighted([(3, 'obs'), (1, 'flux')])
    d = data.make(g, observer=observer, kind=kind, config=text, aligned=g.bool(0.2))
    system = g.choice(['mks', 'cgs'])
    cls = eprem.Stream if observer == 'stream' else eprem.Point
    names = [n for n in physics.DERIVED if not (kind == 'flux' and n in physics.FROM_DIST)]
    if d.sizes[T] < 2:
        names = [n for n in names if n not in ('div(V)', 'fluence')]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        o = cls(d.ident, source=d.path, config=d.config, system=system)
        ph = physics.Physics(d, **si)
        for name in g.sample(names, g.int(1, 6)):
            observed(g, o, name, d, ph, system)
