"""Changing the unit of a quantity never changes the amount it represents."""

import math

import numpy

from goats.core import measurable, metadata, metric, physical, variable

from pbt.case import Cases
from pbt.engine import check, discard, raises
from pbt import units

CASES = Cases()
RULE = (
    "at least one step changes the unit to one of another size; distinct by"
    " kind of quantity, the chain of steps, and the units"
)
ASSUMPTIONS = [
    "amounts agree with an independent table of SI sizes to 1e-9 relative",
]

KINDS = ['measurable.Scalar', 'physical.Scalar', 'physical.Vector', 'physical.Array', 'variable.Quantity']
NAMES = [None, 'r', 'v', 'flux', ['b', 'B'], 'mass density']


def value(g):
    return g.float(-1e3, 1e3)


class Model:
    """What the quantity must still be after any number of steps."""

    def __init__(self, kind, si, name, dims, shape):
        self.kind, self.si, self.name, self.dims, self.shape = kind, si, name, dims, shape


def create(g, kind, text, factors):
    name = g.choice(NAMES)
    if kind.endswith('Scalar'):
        x = value(g)
        array = numpy.array(x)
        kw = {'unit': text}
        if kind == 'physical.Scalar':
            if name is not None:
                kw['name'] = name
            q = physical.Scalar(x, **kw)
        else:
            name = None
            q = measurable.Scalar(x, **kw)
        dims = None
    else:
        ndim = 1 if kind == 'physical.Vector' else g.int(1, 3)
        shape = tuple(g.int(1, 4) for _ in range(ndim))
        array = numpy.array([value(g) for _ in range(int(numpy.prod(shape)))]).reshape(shape)
        kw = {'unit': text}
        dims = None
        given = array.copy() if g.bool() else array.tolist()
        if kind == 'physical.Vector':
            if name is not None:
                kw['name'] = name
            q = physical.Vector(given, **kw)
        elif kind == 'physical.Array':
            if name is not None:
                kw['name'] = name
            q = physical.Array(given, **kw)
        else:
            name = None
            dims = tuple(['x', 'y', 'z'][:ndim])
            q = variable.Quantity(given, dimensions=dims, unit=text)
    size = units.si(factors)
    return q, Model(kind, array * size, name, dims, array.shape)


def values(q):
    """The numbers that the quantity shows."""
    if isinstance(q, (physical.Array, variable.Quantity)):
        return numpy.array(q)
    return numpy.array(q.data, dtype=float)


def verify(q, model, what):
    size, _ = units.read(q.unit)
    got = values(q)
    check(got.shape == model.shape, f"{what}: shape {got.shape}, expected {model.shape}")
    want = model.si / 10.0 ** size
    check(
        numpy.allclose(got, want, rtol=1e-9, atol=0.0),
        f"{what}: values {got.tolist()} in {str(q.unit)!r}, expected {want.tolist()}",
    )
    if model.name is not None:
        expected = {model.name} if isinstance(model.name, str) else set(model.name)
        check(set(q.name) == expected, f"{what}: name {set(q.name)}, expected {expected}")
    if model.dims is not None:
        check(tuple(q.dimensions) == model.dims, f"{what}: dimensions {q.dimensions}")


def other_kind(g, factors):
    """A unit of another dimension."""
    # Gaussian and SI electromagnetic units mix dimensions, so both sides of a
    # refused change are free of them (P05 covers the rest).
    dim = units.dims(factors)
    for _ in range(6):
        fs = units.compound(g, 1, 2)
        if units.dims(fs) != dim and not any(f.unit.dims[3] for f in fs):
            return fs
    discard()


@CASES.add(4200)
def chain(g):
    """Random unit changes, copies, and refused changes, checked each time."""
    kind = g.choice(KINDS)
    factors = units.compound(g, 1, 3)
    discard(not units.moderate(factors, limit=80))
    text = units.text(g, factors)
    q, model = create(g, kind, text, factors)
    g.note(kind, text, (model.si / units.si(factors)).tolist())
    g.event(kind)
    # Numbers may be computed when they are first read.
    eager = g.bool(0.6)
    if eager:
        verify(q, model, 'new')
    history = [(q, str(q.unit))]
    changed, label = False, []
    # These are covered by P08, or have no conversion term by term.
    em = any(f.unit.dims[3] or f.unit.symbol in ('lm', 'lx', 'Bq', 'Ci') for f in factors)
    for _ in range(g.int(1, 6)):
        step = g.weighted([(6, 'unit'), (2, 'copy'), (2, 'refuse'), (2, 'system'), (2, 'same'), (1, 'earlier')])
        if step == 'unit':
            factors = units.substitute(g, factors)
            discard(not units.moderate(factors, limit=80))
            text = units.text(g, factors)
            arg = g.choice([str, metric.Unit, metadata.Unit])(text)
            g.note(f"[{text!r}]")
            new = q[arg]
            check(
                units.near(units.read(new.unit)[0], units.log_si(factors)),
                f"asked for {text!r}, got the unit {str(new.unit)!r}",
            )
            check(new.unit == text, f"asked for {text!r}, got the unit {str(new.unit)!r}")
            changed = changed or abs(units.log_si(factors) - units.read(q.unit)[0]) > 1e-9
            q = new
        elif step == 'copy':
            g.note('copy')
            new = type(q)(q)
            if eager:
                verify(new, model, 'copy')
            check(str(new.unit) == str(q.unit), f"the copy of a quantity in {str(q.unit)!r} is in {str(new.unit)!r}")
            q = new
        elif step == 'same':
            g.note('same')
            q = q[str(q.unit)]
        elif step == 'refuse':
            if any(f.unit.dims[3] for f in factors):
                continue
            bad = units.text(g, other_kind(g, factors))
            g.note('refuse', bad)
            with raises(ValueError, metric.UnitConversionError, what=f"{str(q.unit)!r} to {bad!r}"):
                q[bad]
        elif step == 'earlier':
            i = g.int(0, len(history) - 1)
            q = history[i][0]
            factors = None
            g.note('go back')
        else:
            if em:
                continue
            system = g.choice(['mks', 'cgs'])
            arg = g.choice([system, system.upper(), system.capitalize()])
            g.note('system', arg)
            before = units.read(q.unit)
            try:
                q = q[arg]
            except metric.UnitConversionError:
                # The search for a factor may give up on a product of units.
                check(len(list(q.unit)) > 1, f"{str(q.unit)!r} has no {system} unit")
                g.event('no canonical conversion')
                continue
            size, dim = units.read(q.unit)
            want = 0.0 if system == 'mks' else float(-2 * dim[0] - 3 * dim[1])
            check(dim == before[1], f"[{arg!r}] changed the dimension: {str(q.unit)!r}")
            check(units.near(size, want), f"[{arg!r}] gave the unit {str(q.unit)!r}")
            changed = changed or abs(before[0] - size) > 1e-9
            factors = None
        label.append(step)
        if eager or g.bool(0.2):
            verify(q, model, ' '.join(label))
        history.append((q, str(q.unit)))
        if factors is None:
            factors = [
                units.Factor(*units.LOOKUP[t.base], t.exponent)
                for t in q.unit if t.base not in units.IGNORED
            ]
            if not factors or any(t.coefficient != 1 for t in q.unit):
                break
    for old, unit in history:
        check(str(old.unit) == unit, f"an earlier quantity changed its unit from {unit!r} to {str(old.unit)!r}")
        verify(old, model, f"earlier quantity in {unit!r}")
    if changed:
        g.nontrivial(kind, label, [u for _, u in history])


@CASES.add(2400)
def parts(g):
    """Elements and sub-arrays represent the same amounts as the whole."""
    kind = g.choice(['physical.Vector', 'physical.Array', 'variable.Quantity'])
    factors = units.compound(g, 1, 2)
    other = units.substitute(g, factors)
    discard(not units.moderate(factors, other, limit=80))
    t0, t1 = units.text(g, factors), units.text(g, other)
    q, model = create(g, kind, t0, factors)
    first = g.bool()
    i = g.int(-model.shape[0], model.shape[0] - 1)
    g.note(kind, t0, '->', t1, f'[{i}]', 'convert first' if first else 'index first', values(q).tolist())
    part = q[t1][i] if first else q[i][t1]
    want = model.si[i] / units.si(other)
    got = values(part)
    check(
        numpy.allclose(got.reshape(numpy.shape(want)), want, rtol=1e-9, atol=0.0),
        f"element {i}: {got.tolist()} {str(part.unit)!r}, expected {want.tolist()}",
    )
    check(part.unit == t1, f"the element has the unit {str(part.unit)!r}")
    measured = measurable.measure(q[t1])
    if len(model.shape) == 1:
        check(
            numpy.allclose(measured.data, model.si / units.si(other), rtol=1e-9, atol=0.0)
            and measured.unit == t1,
            f"measuring gave {measured}",
        )
        n = len(q)
        check(n == model.shape[0], f"len is {n}")
        for bad in (n, -n - 1):
            with raises(IndexError, what=f"index {bad} of {n} values"):
                q[bad]
    verify(q, model, 'original')
    if abs(units.log_si(factors) - units.log_si(other)) > 1e-9:
        g.nontrivial(kind, t0, t1, i, first)


@CASES.add(1200)
def names(g):
    """Vectors made from scalars and measurements keep unit and name."""
    factors = units.compound(g, 1, 2)
    other = units.substitute(g, factors)
    discard(not units.moderate(factors, other, limit=80))
    t0, t1 = units.text(g, factors), units.text(g, other)
    name = g.choice(NAMES[1:])
    how = g.choice(['scalar', 'measurement', 'vector', 'scalar of vector', 'scalar of measurement', 'array of number'])
    x = value(g)
    g.note(how, x, t0, t1, name)
    wanted = {name} if isinstance(name, str) else set(name)
    if how == 'scalar':
        q = physical.Vector(physical.Scalar(x, unit=t0, name=name))
    elif how == 'measurement':
        q = physical.Vector(measurable.measure(x, t0), name=name)
    elif how == 'vector':
        q = physical.Vector(physical.Vector([x], unit=t0, name=name))
    elif how == 'scalar of vector':
        q = physical.scalar(physical.Vector([x], unit=t0, name=name))
        wanted = None
    elif how == 'scalar of measurement':
        q = physical.scalar(measurable.measure(x, t0))
        wanted = None
    else:
        q = physical.Array(x, unit=t0, name=name)
    check(q.unit == t0, f"the unit became {str(q.unit)!r}")
    q = q[t1]
    got = values(q).reshape(-1)
    want = x * units.si(factors) / units.si(other)
    check(len(got) == 1 and math.isclose(got[0], want, rel_tol=1e-9), f"value {got.tolist()}, expected {want}")
    if wanted is not None:
        check(set(q.name) == wanted, f"the name became {set(q.name)}")
    if abs(units.log_si(factors) - units.log_si(other)) > 1e-9:
        g.nontrivial(how, t0, t1, name)
