"""Every documented way to give values with a unit means the same thing."""

import numpy

from goats.core import constant
from goats.core import measurable
from goats.core import metadata
from goats.core import operational
from goats.core import physical

from pbt.case import Cases
from pbt.engine import check, raises

CASES = Cases()
RULE = (
    "measurements with at least two parts, an explicit unit, or a refusal;"
    " arguments with more than one value or a unit; distinct by structure and"
    " values"
)
ASSUMPTIONS = [
    "values come in lists, tuples, ranges, or numerical arrays with at least"
    " one element",
]

# The spellings of one unit.
UNITS = {
    '1': ['1'],
    'm': ['m'],
    'MeV': ['MeV'],
    'm/s': ['m/s', 'm s^-1', 'm / s', 's^-1 m'],
    'nT': ['nT'],
    'cm^-3': ['cm^-3', '1/cm^3'],
    'J/(s sr)': ['J/(s sr)', 'J s^-1 sr^-1'],
}


class Own:
    """Something that knows how to measure itself."""

    def __init__(self, values, unit):
        self.values, self.unit = values, unit

    def __measure__(self):
        return measurable.Measurement(self.values, self.unit)

    def __repr__(self):
        return f"Own({self.values}, {self.unit!r})"


def number(g):
    return g.weighted([
        (3, g.choice([0, 1, -2, 7])),
        (4, g.choice([0.0, 1.5, -2.25, 1e-30, 3e20])),
        (1, numpy.float64(0.75)), (1, numpy.int64(-4)), (1, numpy.float32(2.5)),
    ])


def unit_like(g, unit):
    spelled = g.choice(UNITS[unit])
    return metadata.Unit(spelled) if g.bool(0.3) else spelled


def container(g, values):
    form = g.weighted([(3, list), (3, tuple), (1, numpy.array)])
    if form is numpy.array:
        return numpy.array([float(v) for v in values])
    return form(values)


def wrapped(g, this):
    for _ in range(g.weighted([(5, 0), (2, 1), (1, 2)])):
        this = g.choice([list, tuple])([this])
    return this


def part(g):
    """One measurable object, its values, and its unit."""
    values = [number(g) for _ in range(g.weighted([(3, 1), (2, 2), (1, 4)]))]
    unit = g.choice(list(UNITS))
    form = g.choice(['number', 'numbers', 'range', 'flat', 'nested', 'ranged', 'scalar', 'vector', 'array', 'own'])
    if form == 'number':
        return wrapped(g, values[0]), values[:1], '1'
    if form == 'numbers':
        return wrapped(g, container(g, values)), values, '1'
    if form in ('range', 'ranged'):
        r = range(g.int(0, 2), g.int(3, 5))
        return (r, list(r), '1') if form == 'range' else (wrapped(g, (r, unit_like(g, unit))), list(r), unit)
    if form == 'flat':
        return wrapped(g, g.choice([list, tuple])([*values, unit_like(g, unit)])), values, unit
    if form == 'nested':
        return wrapped(g, g.choice([list, tuple])([container(g, values), unit_like(g, unit)])), values, unit
    if form == 'scalar':
        return wrapped(g, physical.Scalar(float(values[0]), unit=g.choice(UNITS[unit]))), values[:1], unit
    if form == 'vector':
        return wrapped(g, physical.Vector([float(v) for v in values], unit=g.choice(UNITS[unit]))), values, unit
    if form == 'array':
        return wrapped(g, physical.Array([float(v) for v in values], unit=g.choice(UNITS[unit]))), values, unit
    return wrapped(g, Own(tuple(values), g.choice(UNITS[unit]))), values, unit


def same(got, want):
    return len(got) == len(want) and all(float(a) == float(b) for a, b in zip(got, want))


def show(m):
    return f"{list(m.data)} [{m.unit}]"


@CASES.add(2500)
def measured(g):
    """All documented forms, alone and combined."""
    n = g.weighted([(5, 1), (3, 2), (1, 3)])
    parts = [part(g) for _ in range(n)]
    if n > 1 and g.bool(0.6):
        # Give every part the unit of the first one, if possible.
        unit = parts[0][2]
        parts = [p for p in parts if p[2] == unit]
        parts += [(physical.Scalar(2.0, unit=unit), [2.0], unit)]
        parts = g.shuffle(parts)
        g.event('one unit')
    n = len(parts)
    this = parts[0][0] if n == 1 else g.choice([list, tuple])([p[0] for p in parts])
    values = [v for p in parts for v in p[1]]
    units = [p[2] for p in parts]
    what = f"of {this!r}"
    g.note(repr(this))
    check(measurable.ismeasurable(this), f"ismeasurable {what} is False")
    spread = n > 1 and isinstance(this, (list, tuple)) and g.bool()
    args = tuple(this) if spread else (this,)
    pairs = measurable.parse_measurable(args, distribute=True)
    expected = [(v, u) for p in parts for v in p[1] for u in [p[2]]]
    check(len(pairs) == len(expected), f"pairs {what}: {pairs}, expected {expected}")
    for (v, u), (x, y) in zip(pairs, expected):
        check(float(v) == float(x) and metadata.Unit(u) == metadata.Unit(y), f"pairs {what}: {pairs}, expected {expected}")
    if n > 1 or units[0] != '1':
        g.nontrivial(repr(this))
    if len(set(units)) > 1:
        g.event('several units')
        with raises(TypeError, what=f"measurement {what}"):
            measurable.measure(*args)
        return
    m = measurable.measure(*args)
    check(m.unit == metadata.Unit(units[0]) and same(m.data, values), f"measurement {what}: {show(m)}, expected {values} {units[0]}")
    check(len(m) == len(values), f"measurement {what}: length {len(m)}")
    k = g.int(-len(values) - 1, len(values))
    if -len(values) <= k < len(values):
        (v, u), = m[k]
        check(float(v) == float(values[k]) and metadata.Unit(u) == m.unit, f"measurement {what}: item {k} is {m[k]}")
    else:
        with raises(IndexError, what=f"item {k} of measurement {what}"):
            m[k]
    s = slice(g.choice([None, 0, 1, -1, -2]), g.choice([None, 1, -1, 3]), g.choice([None, 2, -1]))
    got = m[s]
    check(same([v for v, _ in got], values[s]), f"measurement {what}: items {s} are {got}")
    again = measurable.measure(*m.data, str(m.unit))
    check(again.unit == m.unit and same(again.data, m.data), f"measuring the measurement {what}: {show(again)}")


JUNK = [None, 'm', 'MeV', object, dict(), [], (), [[]], '1']


def tree(g, depth):
    """Any structure of numbers, units, and other things."""
    if depth == 0 or g.bool(0.4):
        return g.weighted([(4, number(g)), (3, g.choice(['m', 's', '1', metadata.Unit('m')])), (2, g.choice(JUNK)), (1, physical.Scalar(1.0, unit='m'))])
    return g.choice([list, tuple])([tree(g, depth - 1) for _ in range(g.int(0, 3))])


def isnumber(x):
    return isinstance(x, (int, float, numpy.number))


def isunit(x):
    return isinstance(x, (str, metadata.Unit))


def grammar(this):
    """The (value, unit) pairs in `this`, according to the documentation."""
    while isinstance(this, (list, tuple)) and len(this) == 1:
        this = this[0]
    if isinstance(this, physical.Scalar):
        return [(1.0, 'm')]
    if isnumber(this):
        return [(this, '1')]
    if not isinstance(this, (list, tuple)) or not len(this):
        return None
    if all(isnumber(x) for x in this):
        return [(x, '1') for x in this]
    if isunit(this[-1]):
        if all(isnumber(x) for x in this[:-1]):
            return [(x, str(this[-1])) for x in this[:-1]]
        if len(this) == 2 and isinstance(this[0], (list, tuple)) and this[0] and all(isnumber(x) for x in this[0]):
            return [(x, str(this[-1])) for x in this[0]]
        return None
    out = []
    for x in this:
        inner = grammar(x)
        if inner is None:
            return None
        out += inner
    return out


def awkward(this):
    """Nothing but a unit, where the documentation does not say what it means."""
    if not isinstance(this, (list, tuple)):
        return False
    if len(this) == 2 and isunit(this[1]):
        inner = this[0]
        if isinstance(inner, (list, tuple)) and not inner:
            return True
        if isinstance(inner, (dict, physical.Scalar)):
            return True
    return any(awkward(x) for x in this)


@CASES.add(4000)
def grammatical(g):
    """Any structure is either measured as documented or refused."""
    this = tree(g, 3)
    if awkward(this):
        return
    what = f"of {this!r}"
    g.note(repr(this))
    want = grammar(this)
    check(measurable.ismeasurable(this) == (want is not None), f"ismeasurable {what} is {want is None}, expected {want is not None}")
    g.event('measurable' if want is not None else 'not measurable')
    g.nontrivial(repr(this))
    for args in ((this,), tuple(this) if isinstance(this, (list, tuple)) else (this,)):
        if want is None:
            with raises(measurable.Unmeasurable, measurable.MeasuringTypeError, what=f"measurement {what}"):
                measurable.measure(*args)
            with raises(measurable.Unmeasurable, measurable.MeasuringTypeError, what=f"pairs {what}"):
                measurable.parse_measurable(args, distribute=True)
            continue
        pairs = measurable.parse_measurable(args, distribute=True)
        check([(float(v), metadata.Unit(u)) for v, u in pairs] == [(float(v), metadata.Unit(u)) for v, u in want], f"pairs {what}: {pairs}, expected {want}")
        if len({str(metadata.Unit(u)) for _, u in want}) > 1:
            with raises(measurable.MeasuringTypeError, what=f"measurement {what}"):
                measurable.measure(*args)
        else:
            m = measurable.measure(*args)
            check(same(m.data, [v for v, _ in want]) and m.unit == metadata.Unit(want[0][1]), f"measurement {what}: {show(m)}, expected {want}")


# A different unit of the same quantity.
OTHER = {'m': 'km', 'MeV': 'J', 'm/s': 'cm/s', 'nT': 'T', 'cm^-3': 'm^-3'}
FACTORS = [('m', 'cm', 100.0), ('s', 'ms', 1e3), ('au', 'au', 1.0), ('J', 'erg', 1e7), ('1', '1', 1.0)]


@CASES.add(2500)
def arguments(g):
    """Physical and other arguments of an operation."""
    n = g.weighted([(4, 1), (2, 2), (1, 3)])
    if g.bool(0.6):
        values = [float(number(g)) for _ in range(n)]
        unit = g.choice(list(UNITS))
        spelled = unit_like(g, unit)
        data = values[0] if n == 1 and g.bool() else g.choice([list, tuple, numpy.array])(values)
        form = g.choice(['positional', 'keyword', 'object'])
        if form == 'object':
            data = physical.Scalar(values[0], unit=spelled) if n == 1 and g.bool() else physical.Vector(values, unit=spelled)
            a = operational.Argument(data)
        elif form == 'keyword':
            a = operational.Argument(data, unit=spelled)
        else:
            a = operational.Argument(data, spelled)
        what = f"Argument({data!r}, {spelled!r})"
        check(a.unit == metadata.Unit(unit), f"{what}: unit {a.unit}")
        check(same(list(numpy.atleast_1d(a.data)), values), f"{what}: data {a.data}")
        items = [physical.Scalar(v, unit=unit) for v in values]
        for other, equal in [
            (operational.Argument(list(values), UNITS[unit][-1]), True),
            (operational.Argument([v + 1.0 if abs(v) < 1e10 else 0.0 for v in values], unit), False),
            (operational.Argument([*values, 1.0], unit), False),
            (operational.Argument(values, 'K'), False),
            (operational.Argument(1), False),
            *([(operational.Argument(values, OTHER[unit]), False)] if unit in OTHER else []),
        ]:
            check((a == other) is equal or (a == other) == equal, f"{what} == {other!r} is {a == other}")
            check((other == a) == equal, f"{other!r} == {what} is {other == a}")
        if n == 1:
            check(float(a) == values[0], f"float of {what}: {float(a)}")
            if abs(values[0]) < 1e15:
                check(int(a) == int(values[0]), f"int of {what}: {int(a)}")
            check(bool(a), f"bool of {what} is False")
        else:
            with raises(Exception, what=f"float of {what}"):
                float(a)
            with raises(Exception, what=f"int of {what}"):
                int(a)
    else:
        values = [g.choice([3, 0, -7, '33', 'abc', 'x', '', '  ', 'a b', True, False]) for _ in range(n)]
        data = values[0] if n == 1 else g.choice([list, tuple])(values)
        a = operational.Argument(data)
        what = f"Argument({data!r})"
        check(a.unit is None, f"{what}: unit {a.unit}")
        check(a.data == data, f"{what}: data {a.data!r}")
        items = values
        check(a == data and a == operational.Argument(data), f"{what} is not equal to {data!r}")
        check(not a == operational.Argument(data + 1 if isinstance(data, int) else (data + 'y' if isinstance(data, str) else [*data, 1])), f"{what} is equal to something else")
        if n == 1:
            truth = data if isinstance(data, bool) else True if isinstance(data, int) else bool(data.strip())
            check(bool(a) == truth, f"bool of {what}: {bool(a)}")
            if isinstance(data, int) or data == '33':
                check(int(a) == int(data), f"int of {what}: {int(a)}")
            else:
                with raises(ValueError, what=f"int of {what}"):
                    int(a)
            with raises(TypeError, what=f"float of {what}"):
                float(a)
    g.note(what)
    if n > 1 or a.unit:
        g.nontrivial(what)
    g.event('physical' if a.unit else 'option')
    check(len(a) == n, f"length of {what}: {len(a)}, expected {n}")
    got = list(a)
    check(got == values or same(got, values), f"values of {what}: {got}")
    k = g.int(-n - 1, n)
    if -n <= k < n:
        check(a[k] == items[k], f"item {k} of {what}: {a[k]!r}, expected {items[k]!r}")
    else:
        with raises(IndexError, what=f"item {k} of {what}"):
            a[k]
    got = list(a[:]) if n > 1 or a.unit else items
    check(got == list(items), f"all items of {what}: {got}")


@CASES.add(150)
def untyped(g):
    """A real value that is not an integer must come with a unit."""
    bad = g.choice([1.5, [1.5], [1, 2.5], (0.5, 'a'), None, [None], 2j, {'a': 1.5}.values(), numpy.float64(3.0)])
    g.note(repr(bad))
    g.nontrivial(repr(bad))
    with raises(TypeError, what=f"Argument({bad!r})"):
        operational.Argument(bad)


@CASES.add(800)
def constants(g):
    """Assumptions and options by any of their names."""
    entries, names = {}, {}
    for i in range(g.int(1, 4)):
        aliases = [f'{c}{i}' for c in g.subset(['a', 'b', 'c'])] or [f'z{i}']
        if g.bool(0.6):
            unit, other, f = g.choice(FACTORS)
            values = [float(number(g)) for _ in range(g.int(1, 3))]
            entry = {'value': values if len(values) > 1 else g.choice([values[0], values]), 'unit': unit}
            names[tuple(aliases)] = (values, unit, other, f)
        else:
            entry = {'value': g.choice(['abc', 3, None, True, '']), 'unit': None}
            names[tuple(aliases)] = entry['value']
        entries[tuple(aliases)] = entry
    face = constant.Interface(entries)
    for aliases, want in g.shuffle(list(names.items())):
        key = g.choice(list(aliases))
        what = f"Interface({entries})[{key!r}]"
        g.note(what)
        got = face[key]
        g.nontrivial(what)
        if not isinstance(want, tuple):
            check(isinstance(got, constant.Option), f"{what}: {type(got)}")
            check(got == want and got == constant.Option(want), f"{what}: {got}, expected {want}")
            check(got != constant.Option('other') and got != 'other', f"{what}: {got} equals something else")
            continue
        values, unit, other, f = want
        check(isinstance(got, constant.Assumption), f"{what}: {type(got)}")
        check(set(got.name) == set(aliases), f"{what}: names {got.name}")
        check(got.unit == metadata.Unit(unit) and same(list(got.data), values), f"{what}: {got}, expected {values} {unit}")
        if len(values) == 1:
            check(float(got) == values[0], f"float of {what}: {float(got)}")
            if abs(values[0]) < 1e15:
                check(int(got) == int(values[0]), f"int of {what}: {int(got)}")
        else:
            with raises(TypeError, what=f"float of {what}"):
                float(got)
        k = g.int(-len(values), len(values) - 1)
        item = got[k]
        check(float(item) == values[k] and item.unit == metadata.Unit(unit), f"{what}[{k}]: {item}")
        items = got[:]
        check(same([float(x) for x in items], values) and all(x.unit == metadata.Unit(unit) for x in items), f"{what}[:]: {items}")
        new = got[other]
        check(new.unit == metadata.Unit(other) and numpy.allclose([float(x) for x in new.data], [v * f for v in values], rtol=1e-12, atol=0), f"{what}[{other!r}]: {new}")
        check(same(list(got.data), values), f"{what} changed by conversion: {got}")
    with raises(KeyError, what="a name that is not there"):
        face['nothing']
