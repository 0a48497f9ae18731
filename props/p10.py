"""Arithmetic and comparison of quantities follow their numbers and units."""

import math
import operator
from fractions import Fraction

import numpy

from goats.core import measurable, metadata, metric, physical, variable

from pbt.case import Cases
from pbt.engine import check, discard, raises
from pbt import units
from pbt.units import Factor

CASES = Cases()
RULE = (
    "chains with at least two operations, comparisons of unequal values, and"
    " refused operations; distinct by kind, operations, units, and values"
)
ASSUMPTIONS = [
    "numbers are compared with the same numpy or Python operation on the bare"
    " values, to 1e-12 relative",
]

KINDS = ['measurable.Scalar', 'physical.Scalar', 'physical.Vector', 'physical.Array', 'variable.Quantity']
FAMS = ['length', 'mass', 'time', 'temperature', 'energy', 'force', 'angle', 'pressure', 'amount']


class Q:
    """A quantity together with the numbers and unit it must have."""

    def __init__(self, obj, data, factors):
        self.obj, self.data, self.factors = obj, data, factors


def values(q):
    if isinstance(q, (physical.Array, variable.Quantity)):
        return numpy.array(q)
    return numpy.array(q.data, dtype=float)


def data(g, kind, shape, positive=False):
    if g.bool(0.2):
        # whole numbers, which numpy keeps as integers
        x = [g.int(1, 9) if positive else g.int(-9, 9) for _ in range(int(numpy.prod(shape)))]
        return x[0] if kind.endswith('Scalar') else numpy.array(x).reshape(shape)
    if kind.endswith('Scalar'):
        return g.float(0.5, 50) if positive else g.float(-50, 50)
    n = int(numpy.prod(shape))
    return numpy.array([g.float(0.5, 50) if positive else g.float(-50, 50) for _ in range(n)]).reshape(shape)


def make(g, kind, x, text):
    unit = g.choice([str, metric.Unit, metadata.Unit])(text)
    if kind == 'measurable.Scalar':
        return measurable.Scalar(x, unit=unit)
    if kind == 'physical.Scalar':
        return physical.Scalar(x, unit=unit)
    if kind == 'physical.Vector':
        return physical.Vector(x, unit=unit)
    if kind == 'physical.Array':
        return physical.Array(x.copy(), unit=unit)
    dims = ['x', 'y', 'z'][:x.ndim]
    return variable.Quantity(x.copy(), dimensions=dims, unit=unit)


def shape_of(g, kind):
    if kind.endswith('Scalar'):
        return ()
    if kind == 'physical.Vector':
        return (g.int(1, 4),)
    return tuple(g.int(1, 3) for _ in range(g.int(1, 3)))


def verify(q, want, factors, what):
    got = values(q)
    check(got.shape == numpy.shape(want), f"{what}: shape {got.shape}, expected {numpy.shape(want)}")
    check(
        numpy.allclose(got, want, rtol=1e-12, atol=0.0, equal_nan=True),
        f"{what}: values {got.tolist()}, expected {numpy.asarray(want).tolist()}",
    )
    size, dim = units.read(q.unit)
    check(
        dim == units.dims(factors) and units.near(size, units.log_si(factors)),
        f"{what}: unit {str(q.unit)!r}, expected {factors}",
    )


def combine(a, b, sign):
    out = [Factor(f.prefix, f.unit, f.exp) for f in a]
    out += [Factor(f.prefix, f.unit, sign * f.exp) for f in b]
    merged = {}
    for f in out:
        merged.setdefault((f.prefix, f.unit.symbol), Factor(f.prefix, f.unit, 0)).exp += f.exp
    return [f for f in merged.values() if f.exp]


def respell(g, factors):
    """Another spelling of a unit of the same size."""
    return units.text(g, factors)


def operand(g, kind, shape, factors=None, positive=False):
    fs = factors if factors is not None else units.compound(g, 1, 2, FAMS, [1, 1, -1, 2, -2])
    x = data(g, kind, shape, positive)
    text = respell(g, fs)
    obj = make(g, kind, x, text)
    return Q(obj, x, fs), text


NUMBERS = [2, 3, -1, 0.5, 10.0, -2.5, 1e3, Fraction(1, 4), 7]
POWERS = [2, 3, -1, 1, 0.5, -2, 1.5, -0.5, 4]


@CASES.add(6000)
def chain(g):
    """A chain of operations keeps the numbers and the unit right."""
    kind = g.choice(KINDS)
    shape = shape_of(g, kind)
    q, text = operand(g, kind, shape, positive=True)
    g.note(kind, text, numpy.asarray(q.data).tolist())
    g.event(kind)
    verify(q.obj, q.data, q.factors, 'new')
    ops = []
    for _ in range(g.int(1, 5)):
        op = g.choice(['add', 'sub', 'mul', 'div', 'mul number', 'number mul', 'div number', 'pow', 'neg', 'pos', 'abs', 'self add', 'self mul', 'self div'])
        inplace = op in ('add', 'sub', 'mul', 'div', 'mul number', 'div number', 'pow') and g.bool(0.25)
        before = q.obj
        keep = (values(before).copy(), str(before.unit))
        other = None
        with numpy.errstate(all='ignore'):
            if op in ('add', 'sub'):
                f = operator.add if op == 'add' else operator.sub
                mixed = kind == 'measurable.Scalar' and not inplace and g.bool(0.3)
                as_kind = 'physical.Scalar' if mixed else kind
                other, t = operand(g, as_kind, shape, q.factors, positive=g.bool())
                if not q.factors:
                    other = Q(make(g, as_kind, other.data, '1'), other.data, [])
                want, factors, arg = f(q.data, other.data), q.factors, other.obj
            elif op in ('mul', 'div'):
                f = operator.mul if op == 'mul' else operator.truediv
                mixed = kind == 'measurable.Scalar' and not inplace and g.bool(0.3)
                other, t = operand(g, 'physical.Scalar' if mixed else kind, shape, positive=True)
                want = f(q.data, other.data)
                factors = combine(q.factors, other.factors, 1 if op == 'mul' else -1)
                arg = other.obj
            elif op == 'mul number':
                f, arg = operator.mul, g.choice(NUMBERS)
                want, factors = q.data * float(arg), q.factors
            elif op == 'number mul':
                arg = g.choice(NUMBERS)
                f = lambda a, b: b * a
                want, factors = q.data * float(arg), q.factors
            elif op == 'div number':
                f, arg = operator.truediv, g.choice(NUMBERS)
                want, factors = q.data / float(arg), q.factors
            elif op == 'pow':
                f, arg = operator.pow, g.choice(POWERS)
                if numpy.any(numpy.asarray(q.data) <= 0) and not isinstance(arg, int):
                    continue
                want = numpy.asarray(q.data, dtype=float) ** float(arg)
                e = Fraction(arg)
                factors = [Factor(x.prefix, x.unit, x.exp * e) for x in q.factors if e]
            elif op.startswith('self'):
                f = {'add': operator.add, 'mul': operator.mul, 'div': operator.truediv}[op[5:]]
                if op == 'self div' and numpy.any(numpy.asarray(q.data) == 0):
                    break
                arg = q.obj
                want = f(q.data, q.data)
                factors = q.factors if op == 'self add' else combine(q.factors, q.factors, 1 if op == 'self mul' else -1)
            else:
                f = {'neg': operator.neg, 'pos': operator.pos, 'abs': abs}[op]
                g0 = f
                f = lambda a, b: g0(a)
                arg, want, factors = None, g0(q.data), q.factors
            if not numpy.all(numpy.isfinite(want)) or numpy.max(numpy.abs(want)) > 1e100 or not units.moderate(factors, limit=150):
                break
            if isinstance(arg, Fraction) and kind in ('physical.Array', 'variable.Quantity', 'physical.Vector'):
                arg = float(arg)
            g.note(op, 'in place' if inplace else '', arg if not hasattr(arg, 'unit') else f"{values(arg).tolist()} {arg.unit}")
            if inplace:
                target = type(before)(before)
                new = getattr(operator, {'add': 'iadd', 'sub': 'isub', 'mul': 'imul', 'div': 'itruediv', 'mul number': 'imul', 'div number': 'itruediv', 'pow': 'ipow'}[op])(target, arg)
            else:
                new = f(before, arg)
        ops.append(op + ('=' if inplace else ''))
        what = f"{kind} {' '.join(ops)}"
        check(type(new) is type(before), f"{what}: result is {type(new)}")
        verify(new, want, factors, what)
        check(
            numpy.array_equal(values(before), keep[0], equal_nan=True) and str(before.unit) == keep[1],
            f"{what}: the left operand changed",
        )
        if other is not None:
            verify(other.obj, other.data, other.factors, f"{what}: right operand")
        if kind == 'variable.Quantity':
            check(tuple(new.dimensions) == ('x', 'y', 'z')[:len(shape)], f"{what}: dimensions {new.dimensions}")
        q = Q(new, want if kind.endswith('Scalar') else numpy.asarray(want), factors)
        g.event(op)
    if len(ops) > 1:
        g.nontrivial(kind, ops, text, numpy.asarray(q.data).tolist())


ERRORS = (metadata.UnitError, metadata.MetadataError, metadata.OperandTypeError, TypeError, ValueError)


@CASES.add(3600)
def refused(g):
    """Operations without a meaning are refused and leave operands alone."""
    kind = g.choice(KINDS)
    shape = shape_of(g, kind)
    q, t0 = operand(g, kind, shape, positive=True)
    how = g.choice(['scale', 'dimension', 'number', 'order', 'number div', 'number pow', 'pow quantity'])
    if how in ('scale', 'order'):
        fs = units.substitute(g, q.factors)
        discard(abs(units.log_si(fs) - units.log_si(q.factors)) < 1e-6)
        if how == 'order' and g.bool():
            fs = units.compound(g, 1, 2, FAMS, [1, -1, 2])
            discard(units.dims(fs) == units.dims(q.factors))
    elif how == 'dimension':
        fs = units.compound(g, 1, 2, FAMS, [1, -1, 2])
        discard(units.dims(fs) == units.dims(q.factors))
    else:
        fs = q.factors
    p, t1 = operand(g, kind, shape, fs, positive=True)
    x = g.choice(NUMBERS)
    x = float(x) if isinstance(x, Fraction) else x
    op = {
        'scale': [operator.add, operator.sub, operator.iadd, operator.isub],
        'dimension': [operator.add, operator.sub, operator.iadd, operator.isub],
        'order': [operator.lt, operator.le, operator.gt, operator.ge],
        'number': [lambda a, b: a + x, lambda a, b: x + a, lambda a, b: a - x, lambda a, b: x - a],
        'number div': [lambda a, b: x / a],
        'number pow': [lambda a, b: x ** a],
        'pow quantity': [lambda a, b: a ** b],
    }[how]
    i = g.int(0, len(op) - 1)
    g.note(kind, how, i, t0, t1, x)
    g.event(how)
    with raises(*ERRORS, what=f"{kind} {how} #{i}: {t0!r}, {t1!r}"):
        op[i](q.obj, p.obj)
    verify(q.obj, q.data, q.factors, 'after a refusal, the left operand')
    verify(p.obj, p.data, p.factors, 'after a refusal, the right operand')
    g.nontrivial(kind, how, i, t0, t1)


@CASES.add(3600)
def compared(g):
    """Comparisons of like quantities are those of their values."""
    kind = g.choice(KINDS)
    shape = shape_of(g, kind)
    q, t0 = operand(g, kind, shape)
    same = g.choice(['identical', 'one differs', 'other values', 'number', 'other unit', 'equivalent unit'])
    x = q.data
    number = None
    fs = q.factors
    if same == 'one differs' and shape:
        x = q.data.copy()
        flat = x.reshape(-1)
        flat[g.int(0, flat.size - 1)] += g.choice([1.0, -1.0, 0.5, -1e-6])
    elif same in ('other values', 'one differs'):
        x = data(g, kind, shape)
    elif same == 'number':
        number = g.float(-50, 50) if g.bool() else float(numpy.asarray(q.data).reshape(-1)[0])
    elif same == 'other unit':
        fs = units.substitute(g, q.factors)
        discard(abs(units.log_si(fs) - units.log_si(q.factors)) < 1e-6)
    t1 = respell(g, fs)
    if same == 'equivalent unit':
        expand = g.choice([('N', 'kg * m / s^2'), ('J', 'N * m'), ('W', 'J / s'), ('Pa', 'N / m^2'), ('Pa', 'kg / (m s^2)')])
        t0, t1 = expand if g.bool() else expand[::-1]
        q = Q(make(g, kind, q.data, t0), q.data, None)
        fs = None
    p = number if number is not None else make(g, kind, x if kind.endswith('Scalar') else x.copy(), t1)
    a, b = numpy.asarray(q.data), numpy.asarray(x if number is None else number)
    g.note(kind, same, t0, t1, a.tolist(), b.tolist())
    g.event(same)
    for name in ('lt', 'le', 'gt', 'ge'):
        f = getattr(operator, name)
        if same == 'other unit':
            continue
        want = f(a, b)
        got = f(q.obj, p)
        check(numpy.array_equal(numpy.asarray(got), want), f"{kind} {name}: {got!r}, expected {want.tolist()}")
        if number is not None and kind.endswith('Scalar'):
            check(bool(f(number, q.obj)) == bool(f(b, a)), f"{kind} number {name} quantity")
    if number is None:
        want = bool(numpy.array_equal(a, b)) and same != 'other unit'
        eq, ne = q.obj == p, q.obj != p
        check(eq in (True, False) and bool(eq) is want, f"{kind}: {t0!r} == {t1!r} is {eq!r}, expected {want}")
        check(ne in (True, False) and bool(ne) is not want, f"{kind}: {t0!r} != {t1!r} is {ne!r}, expected {not want}")
        if not want:
            g.nontrivial(kind, same, t0, t1, a.tolist(), b.tolist())
    elif kind.endswith('Scalar'):
        want = float(a) == number
        check((q.obj == number) is want and (q.obj != number) is not want, f"{kind} == number")
        g.nontrivial(kind, number, a.tolist())


@CASES.add(1500)
def casts(g):
    """Scalars round and cast like their numbers and stay truthy."""
    kind = g.choice(['measurable.Scalar', 'physical.Scalar'])
    q, t = operand(g, kind, ())
    if g.bool(0.3):
        q = Q(make(g, kind, g.choice([0.0, 0.5, -0.5, 2.5, -3.0]), t), None, q.factors)
        q.data = float(q.obj)
    g.note(kind, q.data, t)
    check(float(q.obj) == q.data and isinstance(float(q.obj), float), "float()")
    check(int(q.obj) == int(q.data), "int()")
    check(bool(q.obj) is True, "a quantity must be truthy")
    for f in (round, math.floor, math.ceil, math.trunc, abs, operator.neg, operator.pos):
        got = f(q.obj)
        verify(got, float(f(q.data)), q.factors, f"{f.__name__} of {q.data}")
    g.nontrivial(kind, q.data, t)
