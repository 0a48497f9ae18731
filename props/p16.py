"""A composed observable is the product of its factors."""

import fractions
import re
import warnings

import numpy

from goats.core import metadata

from pbt import eprem as data
from pbt import physics
from pbt.case import Cases
from pbt.engine import check, raises

from . import p14, p15

CASES = Cases()
RULE = (
    "compositions of at least two factors with known values; distinct by"
    " expression, array sizes, and constrained axes"
)
ASSUMPTIONS = [
    "compositions are products and quotients of named quantities with rational"
    " powers; names contain only letters, digits, and underscores",
    "fractional powers apply to positive quantities only",
    "axes are compared by name, because the order of factors is not preserved",
]

T, S, P, E, M = data.AXES
POSITIVE = {'mass', 'charge', 'egrid', 'vgrid', 'R', 'Vr', 'Rho', 'Dist', 'flux', 'B', 'V', 'rigidity', 'mean free path', 'isotropic distribution', 'energy density', 'average energy'}
EXCLUDED = {'shell', 'density ratio', 'flow angle', 'Vpara', 'Vperp', 'div(V)', 'acceleration rate', 'fluence', 'integral flux'}
NAME = re.compile(r'^[A-Za-z_][A-Za-z_0-9]*$')


class Factors:
    """A product of powers and a way to write it."""

    def __init__(self, powers, text):
        self.powers, self.text = powers, text


def times(a, b, sign=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + sign * v
    return out


def composition(g, names):
    """A random composition; `names` maps each alias to a quantity."""
    inverse = g.bool(0.15)
    used = g.sample(list(names), min(len(names), g.int(1 if inverse else 2, 4)))

    def atom(alias):
        positive = names[alias] in POSITIVE
        p = g.weighted([(4, '1'), (2, '2'), (1, '-1'), (1, '3'), (1, '1/2')])
        if p == '1/2' and not positive:
            p = '2'
        if p == '1':
            return Factors({alias: fractions.Fraction(1)}, alias)
        return Factors({alias: fractions.Fraction(p)}, f'{alias}^{p}')

    def join(parts):
        if len(parts) == 1:
            return parts[0]
        k = g.int(1, len(parts) - 1)
        left, right = join(parts[:k]), join(parts[k:])
        op = g.choice(['*', '/'])
        space = g.choice([' ', ''])
        rtext = right.text
        if len(right.powers) > 1 or op == '/' and '^' in rtext:
            rtext = f'({rtext})'
            if len(right.powers) > 1 and g.bool(0.4):
                p = g.choice([2, -1])
                rtext += f'^{p}'
                right = Factors({k: v * p for k, v in right.powers.items()}, '')
        ltext = left.text
        if len(left.powers) > 1 and g.bool(0.3):
            ltext = f'({ltext})'
        elif len(left.powers) > 1 and '/' in ltext:
            ltext = f'({ltext})'
        elif '^1/2' in ltext and len(left.powers) == 1 and op == '/':
            ltext = f'({ltext})'
        return Factors(times(left.powers, right.powers, 1 if op == '*' else -1), f'{ltext}{space}{op}{space}{rtext}')

    out = join([atom(a) for a in used])
    if inverse:
        text = out.text if len(used) == 1 and '^' not in out.text and g.bool() else f'({out.text})'
        return Factors({k: -v for k, v in out.powers.items()}, g.choice(['1 / ', '1/']) + text)
    return out


def combine(w, names, powers):
    """Axes, values, and unit of a product of powers."""
    dims = []
    for alias in powers:
        dims += [d for d in w.truth(names[alias])[0] if d not in dims]
    dims = [d for d in data.AXES if d in dims]
    out = numpy.ones([w.sizes[d] for d in dims])
    units = []
    for alias, p in powers.items():
        if p == 0:
            continue
        d, values, unit = w.truth(names[alias])
        shape = [w.sizes[k] if k in d else 1 for k in dims]
        order = [d.index(k) for k in dims if k in d]
        out = out * numpy.transpose(values, order).reshape(shape) ** float(p)
        units.append(f'({unit})^{p}')
    return tuple(dims), out, ' * '.join(units)


def assumed(w, alias):
    """The parameters and their values for a single factor."""
    result = w.o[alias].observe(**{a: 0 for a in data.AXES})
    return {k: result[k] for k in result.parameters}


@CASES.add(350)
def composed(g):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        w = p14.World(g, sizes={T: g.int(2, 4), S: g.int(2, 4), E: g.int(2, 4), M: g.int(2, 3)})
        names = {}
        for name in w.names():
            if name in EXCLUDED:
                continue
            for alias in [name] + w.aliases(name):
                # Single letters 'e' and 'E' could read as numbers elsewhere.
                if NAME.match(alias):
                    names[alias] = name
        for _ in range(g.int(1, 3)):
            f = composition(g, names)
            powers = {k: v for k, v in f.powers.items() if v}
            what = f"{f.text!r}"
            g.note(f.text)
            dims, full, unit = combine(w, names, powers)
            if not numpy.all(numpy.isfinite(full)) or numpy.max(numpy.abs(full)) > 1e200 or numpy.min(numpy.abs(full[full != 0]), initial=1.0) < 1e-200:
                g.event('extreme values')
                continue
            check(w.o.observes(f.text), f"{what} is not observable")
            q = w.o[f.text]
            check(q.unit == metadata.Unit(unit), f"unit of {what}: {q.unit}, expected {unit}")
            check(set(q.dimensions) == set(dims), f"axes of {what}: {q.dimensions}, expected {dims}")
            check(len(q.dimensions) == len(dims), f"axes of {what}: {q.dimensions}, expected {dims}")
            union = set().union(*[set(w.o[a].parameters) for a in powers])
            check(set(q.parameters) == union, f"parameters of {what}: {q.parameters}, expected {union}")
            picks, wanted, chosen = {}, {}, {}
            for axis in dims:
                mode = g.weighted([(3, 'free'), (2, 'pick'), (1, 'value')])
                if mode == 'pick':
                    form, chosen[axis], picks[axis] = p14.constraint(g, w, axis)
                elif mode == 'value' and axis in (T, E, M):
                    grid = w.d.arrays[p14.FILE[axis]]
                    wanted[axis] = p15.some_values(g, grid[0] if grid.ndim == 2 else grid)
                    chosen[axis] = p15.spell(g, w, axis, wanted[axis])
            result = q.observe(**chosen)
            what += f".observe({chosen}) with sizes {w.sizes}"
            want = full
            for axis, values in wanted.items():
                grid = w.d.arrays[p14.FILE[axis]]
                grid = grid[0] if grid.ndim == 2 else grid
                want = p15.along(want, dims.index(axis), lambda a: p15.linear(grid, a, values))
            want = p14.take(want, dims, picks)
            check(result.unit == metadata.Unit(unit), f"{what}: unit {result.unit}, expected {unit}")
            check(sorted(result.dimensions) == sorted(dims), f"{what}: axes {result.dimensions}, expected {dims}")
            got = numpy.transpose(numpy.array(result.data), [tuple(result.dimensions).index(d) for d in dims])
            check(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
            scale = numpy.max(numpy.abs(full)) if wanted else 0.0
            check(numpy.allclose(got, want, rtol=1e-6, atol=1e-9 * scale), f"{what}: {got.tolist()}, expected {want.tolist()}")
            union = {k: v for a in powers for k, v in assumed(w, a).items()}
            check(set(result.parameters) == set(union), f"{what}: parameters {result.parameters}, expected {set(union)}")
            for k, v in union.items():
                check(result[k] == v, f"{what}: parameter {k}: {result[k]}, expected {v}")
            g.event('%d factors' % len(powers))
            if len(powers) > 1:
                g.nontrivial(f.text, tuple(w.sizes.values()), tuple(chosen))


@CASES.add(40)
def unknown(g):
    """A composition with an unknown factor is refused."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        w = p14.World(g)
        names = [n for n in w.names() if NAME.match(n) and n not in EXCLUDED]
        parts = g.sample(names, min(len(names), g.int(1, 3)))
        bad = g.choice(['Vx', 'foo', 'Qq', 'radii', 'B_0'])
        parts.insert(g.int(0, len(parts)), bad)
        text = g.choice([' * ', ' / ']).join(parts)
        g.note(text)
        check(not w.o.observes(text), f"{text!r} is observable although {bad!r} is unknown")
        if len(text) < 9:
            # The search for similar names takes minutes for long texts.
            with raises(Exception, what=f"observer[{text!r}]"):
                w.o[text]
        g.nontrivial(text)
