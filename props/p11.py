"""Extracting part of an array keeps its values, axes, unit, and identity."""

import numpy

from goats.core import physical, variable

from pbt.case import Cases
from pbt.engine import check, discard, raises
from pbt import units

CASES = Cases()
RULE = (
    "extractions that select a proper, non-empty part with at least one index"
    " other than a full slice; distinct by shape, indices, and container"
)
ASSUMPTIONS = [
    "a list-like index selects along its own axis only (orthogonal selection),"
    " as documented for variables; an integer keeps a length-one axis of a"
    " variable and drops the axis of a plain physical array",
]

NAMES = ['time', 'shell', 'species', 'energy', 'mu']


class Lazy:
    """A minimal viewer of data, like one backed by a file."""

    def __init__(self, array):
        self._a = array
        self.shape, self.ndim, self.dtype = array.shape, array.ndim, array.dtype

    def __len__(self):
        return len(self._a)

    def __getitem__(self, idx):
        return self._a[idx]

    def __array__(self, *args, **kwargs):
        return numpy.array(self._a, *args, **kwargs)


def contain(g, array):
    kind = g.choice(['ndarray', 'list', 'lazy', 'variable'])
    if kind == 'list':
        return kind, array.tolist()
    if kind == 'lazy':
        return kind, Lazy(array)
    return kind, array.copy()


def index_slice(g, n):
    lo = g.choice([None, None, g.int(-n - 1, n + 1)])
    hi = g.choice([None, None, g.int(-n - 1, n + 1)])
    step = g.choice([None, None, 1, 2, 3, -1, -2])
    return slice(lo, hi, step)


def index_list(g, n):
    picked = [g.int(-n, n - 1) for _ in range(g.int(1, n + 1))]
    kind = g.choice(['list', 'array', 'mask', 'masklist', 'range', 'tuple'])
    if kind == 'array':
        return numpy.array(picked), picked
    if kind.startswith('mask'):
        mask = [g.bool(0.6) for _ in range(n)]
        if not any(mask):
            mask[0] = True
        where = [i for i, b in enumerate(mask) if b]
        return (numpy.array(mask) if kind == 'mask' else mask), where
    if kind == 'range':
        lo = g.int(0, n - 1)
        r = range(lo, g.int(lo + 1, n))
        return r, list(r)
    if kind == 'tuple':
        return tuple(picked), picked
    return picked, picked


def show(index):
    def one(i):
        if isinstance(i, slice):
            return ':'.join('' if x is None else str(x) for x in (i.start, i.stop, i.step))
        if i is Ellipsis:
            return '...'
        return repr(i)
    return ', '.join(one(i) for i in index)


def indices(g, shape, keep, lists=True, ints=True):
    """User indices, and the equivalent sequence of per-axis selections."""
    n = len(shape)
    used = g.int(1, n)
    dots = g.bool(0.4)
    split = g.int(0, used) if dots else used
    left = used if not dots else split
    axes = list(range(left)) + list(range(n - (used - left), n))
    user, select = [], [slice(None)] * n
    for a in axes:
        kinds = ['slice', 'full']
        if ints:
            kinds += ['int', 'int']
        if lists:
            kinds += ['list', 'list']
        kind = g.choice(kinds)
        if kind == 'int':
            i = g.int(-shape[a], shape[a] - 1)
            user.append(g.choice([int, numpy.int64, numpy.int32])(i))
            select[a] = i
        elif kind == 'list':
            u, s = index_list(g, shape[a])
            user.append(u)
            select[a] = s
        elif kind == 'slice':
            s = index_slice(g, shape[a])
            user.append(s)
            select[a] = s
        else:
            user.append(slice(None))
    if dots:
        user.insert(left, Ellipsis)
    return user, select


def expected(array, select, keep):
    out = array
    for a in reversed(range(array.ndim)):
        s = select[a]
        if isinstance(s, int):
            out = numpy.take(out, [s] if keep else s, axis=a)
        elif isinstance(s, slice):
            out = out[(slice(None),) * a + (s,)]
        else:
            out = numpy.take(out, s, axis=a)
    return out


def subscript(obj, user):
    return obj[user[0] if len(user) == 1 else tuple(user)]


def rescale(g, obj, array):
    """Perhaps change the unit before extracting."""
    unit = g.choice([None, None, 'cm', 'km'])
    if unit is None:
        return obj, array, 'm'
    for other in g.choice([(), (), ('km',), ('mm', 'cm')]):
        obj = obj[other]
    return obj[unit], array * {'cm': 100.0, 'km': 1e-3}[unit], unit


def make_array(g, lo=1, hi=4):
    shape = tuple(g.int(1, 4) for _ in range(g.int(lo, hi)))
    base = numpy.arange(numpy.prod(shape), dtype=float).reshape(shape) * g.choice([1.0, 0.5, -2.0]) + g.int(0, 3)
    return shape, base


def same(got, want):
    return got.shape == want.shape and numpy.allclose(got, want, rtol=1e-14, atol=0)


@CASES.add(9000)
def variables(g):
    """A part of a variable has the selected values along every axis."""
    shape, base = make_array(g)
    kind, data = contain(g, base)
    names = g.sample(NAMES, 4)[:len(shape)]
    v = variable.Quantity(data, dimensions=names, unit='m')
    if kind == 'variable':
        v = variable.Quantity(v)
    v, array, unit = rescale(g, v, base)
    history = []
    warmed = g.bool()
    if warmed:
        numpy.array(v)
    for _ in range(g.int(1, 3)):
        user, select = indices(g, array.shape, True)
        if len(user) == 1 and isinstance(user[0], tuple):
            user = [list(user[0])]
        g.note(shape, kind, unit, 'loaded' if warmed else '', '[' + show(user) + ']')
        history.append(show(user))
        want = expected(array, select, True)
        before = numpy.array(v) if warmed else None
        got = subscript(v, user)
        what = f"{array.shape}[{show(user)}] of {kind} in {unit}"
        check(isinstance(got, variable.Quantity), f"{what}: {type(got)}")
        check(tuple(got.shape) == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
        check(same(numpy.array(got), want), f"{what}: {numpy.array(got).tolist()}, expected {want.tolist()}")
        check(got.unit == unit and tuple(got.dimensions) == tuple(names), f"{what}: {got.unit} {got.dimensions}")
        check(got.ndim == want.ndim, f"{what}: ndim {got.ndim}")
        again = numpy.array(v)
        check(same(again, array), f"{what}: the original changed")
        if before is not None:
            check(numpy.array_equal(before, again), f"{what}: the original changed")
        if want.size and want.size < array.size:
            g.nontrivial(shape, kind, unit, history)
        if want.size == 0:
            g.event('empty')
            break
        if g.bool():
            v, array = got, want
            if g.bool(0.3):
                v, array, unit = v['cm'], array * {'m': 100.0, 'cm': 1.0, 'km': 1e5}[unit], 'cm'
        g.event('step')


@CASES.add(4000)
def arrays(g):
    """A part of a physical array keeps unit and name."""
    shape, base = make_array(g, 1, 3)
    kind, data = contain(g, base)
    name = g.choice(['', 'a', 'density'])
    p = physical.Array(data, unit='m', name=name)
    if kind == 'variable':
        p = physical.Array(p)
    p, array, unit = rescale(g, p, base)
    lists = g.bool()
    # Whether an integer beside a list drops its axis is left open.
    mixed = g.bool(0.25)
    user, select = indices(g, shape, False, lists=lists or mixed, ints=not lists or mixed)
    if len(user) == 1 and not isinstance(user[0], (int, numpy.integer, slice)) and user[0] is not Ellipsis:
        discard(len(user[0]) == 1 or isinstance(user[0], tuple))
    g.note(shape, kind, unit, name, '[' + show(user) + ']')
    want = expected(array, select, False)
    got = subscript(p, user)
    what = f"{shape}[{show(user)}] of {kind} in {unit}"
    if mixed and want.ndim and isinstance(got, physical.Array):
        values = numpy.array(got)
        check([n for n in values.shape if n != 1] == [n for n in want.shape if n != 1], f"{what}: shape {values.shape}")
        check(same(values.reshape(-1), want.reshape(-1)), f"{what}: {values.tolist()}, expected {want.tolist()}")
        g.event('mixed')
    elif want.ndim:
        check(isinstance(got, physical.Array), f"{what}: {type(got)}")
        check(same(numpy.array(got), want), f"{what}: {numpy.array(got).tolist()}, expected {want.tolist()}")
    else:
        check(isinstance(got, physical.Scalar), f"{what}: {type(got)}")
        check(same(numpy.array(float(got)), want), f"{what}: {float(got)}, expected {want.tolist()}")
        g.event('scalar')
    check(got.unit == unit, f"{what}: unit {got.unit}")
    check(list(got.name) == list(p.name), f"{what}: name {got.name}, expected {p.name}")
    check(same(numpy.array(p), array), f"{what}: the original changed")
    if want.size and want.size < array.size:
        g.nontrivial(shape, kind, unit, show(user))


@CASES.add(2500)
def vectors(g):
    """Indexing a vector gives scalars with its unit."""
    n = g.int(1, 6)
    x = [g.float(-50, 50) for _ in range(n)]
    v = physical.Vector(x, unit='m')
    unit = g.choice(['m', 'cm'])
    scale = 100.0 if unit == 'cm' else 1.0
    v = v[unit]
    check(len(v) == n, "len")
    i = g.int(-n, n - 1)
    s = index_slice(g, n)
    g.note(x, unit, i, show([s]))
    got = v[i]
    check(isinstance(got, physical.Scalar) and numpy.isclose(float(got), scale * x[i], rtol=1e-14, atol=0) and got.unit == unit, f"v[{i}] is {got!r}")
    part = v[s]
    want = [scale * t for t in x[s]]
    check(
        len(part) == len(want) and all(
            isinstance(p, physical.Scalar) and numpy.isclose(float(p), w, rtol=1e-14, atol=0) and p.unit == unit
            for p, w in zip(part, want)
        ),
        f"v[{show([s])}] is {part!r}, expected {want}",
    )
    if 0 < len(want) < n:
        g.nontrivial(n, x, show([s]))


@CASES.add(2500)
def outside(g):
    """An index outside the array is refused."""
    shape, base = make_array(g, 1, 3)
    kind, data = contain(g, base)
    which = g.choice(['variable', 'array', 'vector'])
    a = g.int(0, len(shape) - 1)
    bad = g.choice([shape[a], shape[a] + g.int(0, 5), -shape[a] - 1, -shape[a] - g.int(1, 5)])
    user = [slice(None)] * a
    user.append([0, bad] if g.bool(0.4) and which == 'variable' else bad)
    g.note(which, shape, kind, show(user))
    if which == 'vector':
        v = physical.Vector(base.reshape(-1), unit='m')
        n = base.size
        with raises(IndexError, what=f"vector of {n}"):
            v[n + g.int(0, 3)]
        with raises(IndexError, what=f"vector of {n}"):
            v[-n - g.int(1, 3)]
        return
    if which == 'array':
        obj = physical.Array(data, unit='m')
    else:
        obj = variable.Quantity(data, dimensions=NAMES[:len(shape)], unit='m')
    if g.bool():
        numpy.array(obj)
    with raises(IndexError, what=f"{which} {shape} of {kind} [{show(user)}]"):
        subscript(obj, user)
    check(same(numpy.array(obj), base), "the original changed")
    g.nontrivial(which, shape, kind, show(user))
