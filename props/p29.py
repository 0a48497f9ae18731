"""An axis maps requests to positions, and positions to values, in any unit."""

import warnings

import numpy

from goats import eprem
from goats.core import axis
from goats.core import datafile
from goats.core import index
from goats.core import metadata

from pbt import eprem as data
from pbt.case import Cases
from pbt.engine import check, raises

CASES = Cases()
RULE = (
    "requests by value, in another unit, or for several positions; distinct by"
    " axis, request, and grid"
)
ASSUMPTIONS = [
    "values that are requested lie within an axis of at least one point;"
    " integers are positions",
]

# Units of each measurable axis, and their sizes in SI.
UNITS = {
    'time': {'s': 1.0, 'day': data.DAY, 'ms': 1e-3, 'min': 60.0},
    'energy': {'J': 1.0, 'MeV': data.MEV, 'erg': 1e-7, 'keV': 1e3 * data.EV},
    'mu': {'1': 1.0},
}
DEFAULT = {'time': ('s', 's'), 'energy': ('J', 'erg'), 'mu': ('1', '1')}
NAMES = {'time': ['time', 't', 'times'], 'energy': ['energy', 'E', 'energies'], 'mu': ['mu', 'pitch angle']}
WRONG = {'time': ['m', 'J'], 'energy': ['s', 'J/s'], 'mu': ['m', 'J']}


def close(a, b):
    return numpy.allclose(numpy.array(a, dtype=float), numpy.array(b, dtype=float), rtol=1e-9, atol=0)


def verify(got, points, values, unit, n, what):
    check(isinstance(got, index.Quantity), f"{what}: {got!r}")
    check([p % n for p in got] == [p % n for p in points], f"{what}: points {list(got)}, expected {points}")
    check(len(got) == len(points), f"{what}: length {len(got)}")
    check(close(got.values, values), f"{what}: values {list(got.values)}, expected {list(values)}")
    check(got.unit == metadata.Unit(unit), f"{what}: unit {got.unit}, expected {unit}")


@CASES.add(300)
def coordinates(g):
    """Requests to the measurable axes of a dataset."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d = data.make(g, kind='obs')
        system = g.choice(['mks', 'cgs'])
        axes = eprem.Axes(datafile.Interface(d.path / d.file), system=system)
        for _ in range(g.int(1, 4)):
            name = g.choice(list(UNITS))
            kw, rows = {}, 0
            if name == 'energy':
                grid = d.values('egrid', 'mks')
                if g.bool():
                    rows = g.int(0, len(d.species) - 1)
                    kw['species'] = g.choice([rows, d.species[rows][0] if isinstance(d.species[rows], tuple) else d.species[rows]])
                    g.event('species given')
                grid = grid[rows] if grid.ndim == 2 else grid
            else:
                grid = d.values(name, 'mks')
            grid = numpy.array(grid, dtype=float)
            n = len(grid)
            unit = DEFAULT[name][system == 'cgs']
            q = axes[g.choice(NAMES[name])] if g.bool() else axes[name]
            what = f"{name} axis ({system})"
            check(q.unit == metadata.Unit(unit), f"{what}: unit {q.unit}, expected {unit}")
            first = d.values('egrid', 'mks') if name == 'energy' else grid
            first = numpy.array(first[0] if first.ndim == 2 else first, dtype=float)
            if g.bool():
                # the full array must not follow the axis to another unit
                check(close(numpy.array(q.reference), first / UNITS[name][unit]), f"{what}: reference {numpy.array(q.reference)} before any request")
                g.event('reference before')
            original = q, unit
            if g.bool():
                # another unit for all further requests
                new = g.choice(list(UNITS[name]))
                before = q
                q = q[new if g.bool() else metadata.Unit(new)]
                check(before.unit == metadata.Unit(unit), f"{what}: the original has the unit {before.unit}")
                unit = new
                what += f"[{new!r}]"
                g.event('unit changed')
            elif g.bool(0.3):
                other = g.choice(['mks', 'cgs', 'MKS'])
                q = q[other]
                unit = DEFAULT[name][other.lower() == 'cgs']
                what += f"[{other!r}]"
            check(axis.Quantity(q) is q, f"{what}: a copy is another object")
            if g.bool():
                for this, its in [(q, unit), original]:
                    r = numpy.array(this.reference)
                    check(close(r, first / UNITS[name][its]), f"{what}: reference {r} of the axis in {its}")
                    check(this.reference.unit == metadata.Unit(its), f"{what}: reference in {this.reference.unit} of the axis in {its}")
            scaled = grid / UNITS[name][unit]
            form = g.choice(['all', 'integers', 'range', 'slice', 'values', 'with unit', 'list with unit', 'keyword', 'exact'])
            g.event(form)
            g.note(what, form, kw)
            what += f" {form}"
            if form == 'all':
                verify(q.index(**kw), list(range(n)), scaled, unit, n, what)
                r = q.reference
                base = scaled
                if name == 'energy' and d.values('egrid', 'mks').ndim == 2:
                    base = d.values('egrid', 'mks')[0] / UNITS[name][unit]
                check(close(numpy.array(r), base), f"{what}: reference {numpy.array(r)}")
                new = g.choice(list(UNITS[name]))
                c = r[new]
                check(close(numpy.array(c), base * UNITS[name][unit] / UNITS[name][new]), f"{what}: reference[{new!r}] is {numpy.array(c)}")
                check(c.unit == metadata.Unit(new) and list(c) == list(range(n)), f"{what}: reference[{new!r}] has unit {c.unit}")
                check(close(numpy.array(r), base), f"{what}: the reference was changed")
                with raises(ValueError, what=f"{what}: reference in another kind of unit"):
                    r[g.choice(WRONG[name])]
            elif form == 'integers':
                points = [g.int(-n, n - 1) for _ in range(g.int(1, 3))]
                verify(q.index(*points, **kw), points, scaled[points], unit, n, f"{what} {points}")
                with raises(IndexError, what=f"{what}: beyond the end"):
                    q.index(n + g.int(0, 2), **kw)
            elif form == 'range':
                a, b = sorted(g.sample(range(n + 1), 2))
                r = g.choice([range(a, b), range(a, b, 2), range(a, b, 3), range(b - 1, a - 1 if a else -1, -1)])
                points = list(r)
                verify(q.index(r, **kw), points, scaled[points], unit, n, f"{what} {points}")
            elif form == 'slice':
                s = slice(g.choice([None, 0, g.int(0, n - 1)]), None, g.choice([None, 1, 2, -1]))
                points = list(range(n))[s]
                verify(q.index(s, **kw), points, scaled[points], unit, n, f"{what} {s}")
            else:
                wanted = []
                for _ in range(g.int(1, 3)):
                    i = g.int(0, n - 1)
                    x = grid[i]
                    if form != 'exact' and i + 1 < n:
                        x = grid[i] + g.choice([0.1, 0.3, 0.8]) * (grid[i + 1] - grid[i])
                    wanted.append(float(x))
                asked = unit
                if form in ('with unit', 'list with unit', 'keyword'):
                    asked = g.choice(list(UNITS[name]))
                values = [x / UNITS[name][asked] for x in wanted]
                expected = [x / UNITS[name][unit] for x in wanted]
                if form == 'with unit':
                    got = q.index(*values, asked, **kw)
                elif form == 'list with unit':
                    got = q.index(values, asked, **kw)
                elif form == 'keyword':
                    got = q.index(*values, unit=asked, **kw)
                    unit, expected = asked, values
                else:
                    got = q.index(*values, **kw)
                points = [int(numpy.argmin(abs(grid - x))) for x in wanted]
                for p, x in zip(got, wanted):
                    check(abs(grid[p] - x) <= abs(grid - x).min() * (1 + 1e-9) + 1e-9 * abs(x), f"{what}: {x} (SI) has point {p} of {grid.tolist()}")
                verify(got, list(got), expected, unit, n, f"{what} {values} {asked!r}")
                g.nontrivial(name, form, repr(values), asked, repr(grid.tolist()))
            with raises(ValueError, what=f"{what}: another kind of unit"):
                q[g.choice(WRONG[name])]
            with raises(ValueError, what=f"{what}: a value in another kind of unit"):
                q.index(float(scaled[0]), g.choice(WRONG[name]), **kw)
            g.nontrivial(name, form, unit, n, system)


@CASES.add(200)
def symbolic(g):
    """Requests to the axes of species and shells."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d = data.make(g, kind=g.choice(['obs', 'flux']))
        axes = eprem.Axes(datafile.Interface(d.path / d.file))
        symbols = [s[0] if isinstance(s, tuple) else s for s in d.species]
        q = axes['species']
        n = len(symbols)
        check(q.unit is None, f"unit of species: {q.unit}")
        points = [g.int(0, n - 1) for _ in range(g.int(1, 3))]
        request = [symbols[p] if g.bool() else p for p in points]
        got = q.index(*request)
        g.note('species', request, symbols)
        g.nontrivial('species', repr(request), repr(symbols))
        check(list(got) == points, f"species {request} of {symbols}: {list(got)}")
        check(list(got.values) == [symbols[p] for p in points], f"species {request} of {symbols}: {got.values}")
        check(got.unit is None, f"species {request}: unit {got.unit}")
        check(list(q.index().values) == symbols, f"all species: {q.index().values}")
        check(list(numpy.array(q.reference)) == symbols, f"reference: {numpy.array(q.reference)}")
        with raises(TypeError, what="the unit of species"):
            q[g.choice(['m', '1', 'mks'])]
        with raises(TypeError, what="the unit of an array of species"):
            q.reference['m']
        with raises(ValueError, what="an unknown species"):
            q.index(g.choice([x for x in ('Fe', 'H', 'xx', symbols[0].lower(), symbols[-1] + '+') if x not in symbols]))
        with raises(IndexError, what="a species beyond the end"):
            q.index(n)
        s = axes['shell']
        n = d.sizes['shell']
        points = [g.int(0, n - 1) for _ in range(g.int(1, 4))]
        got = s.index(*points)
        g.nontrivial('shell', repr(points), n)
        check(list(got) == points and [int(v) for v in got.values] == points, f"shells {points}: {list(got)} {got.values}")
        check(list(s.index()) == list(range(n)), f"all shells: {list(s.index())}")
        with raises(IndexError, what="a shell beyond the end"):
            s.index(n + g.int(0, 3))


@CASES.add(800)
def default(g):
    """The default indexer, index data, and arrays of index values."""
    n = g.int(1, 6)
    unit = None
    q = axis.Quantity(axis.indexer(n))
    points = [g.int(-1, n) for _ in range(g.int(1, 4))]
    given = [g.choice([int, numpy.int64])(p) for p in points]
    g.note('default', n, points)
    if len(points) > 1:
        g.nontrivial('default', n, repr(points))
    if all(0 <= p < n for p in points):
        got = q.index(*given)
        check(list(got) == points and list(got.values) == points, f"default {points}: {list(got)}")
    else:
        with raises(ValueError, what=f"default of {n}: {points}"):
            q.index(*given)
    check(list(q.index()) == list(range(n)), f"default of {n}: {list(q.index())}")
    check(list(q.index(slice(None, None, 2))) == list(range(0, n, 2)), "default of a slice")
    with raises(axis.IndexTypeError, what="an index that is no number"):
        q.index(None)
    # Index data
    values = [g.choice([0.5, -1.0, 2.0, 7.25]) for _ in points]
    form = g.choice([list, tuple, numpy.array])
    a = index.Array(index.Data(points, values=form(values)), unit='m')
    check(len(a) == len(points) and list(a) == points, f"{points}: {list(a)}")
    check(numpy.array(a).tolist() == values, f"{values}: {numpy.array(a)}")
    check(index.Array(a) is a, "a copy of an index array is another object")
    b = index.Array(index.Quantity(index.Data(points, values=values), unit='m'))
    check(numpy.array(b).tolist() == values and list(b) == points and b.unit == metadata.Unit('m'), f"from a quantity: {b!r}")
    c = a['cm']
    check(close(numpy.array(c), [v * 100 for v in values]) and list(c) == points, f"{values} m in cm: {numpy.array(c)}")
    check(close(numpy.array(c['mks']), values), f"{values} m in cm in mks: {numpy.array(c['mks'])}")
    check(numpy.array(a).tolist() == values and a['m'] is a, "the original was changed")
    i = g.int(0, len(points) - 1)
    check(a[i] == points[i] and a[i - len(points)] == points[i], f"position {i} of {points}: {a[i]}")
    bare = index.Data(points)
    check(tuple(bare.points) == tuple(points) and tuple(bare.values) == tuple(points), f"data of {points}: {bare}")
    bad = list(points)
    bad[i] = g.choice([1.5, '1', None])
    with raises(ValueError, what=f"index data of {bad}"):
        index.Data(bad)
    e = index.Array(index.Data(points))
    with raises(TypeError, what="the unit of an array without unit"):
        e['m']
