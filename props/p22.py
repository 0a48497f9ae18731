"""Numerical searches, casts, and coordinate transformations."""

import numpy

from goats.core import numerical

from pbt.case import Cases
from pbt.engine import check, raises

CASES = Cases()
RULE = (
    "searches in arrays of more than one element and transformations of points"
    " off the axes; distinct by the generated numbers"
)
ASSUMPTIONS = [
    "bounding indices are requested in strictly increasing arrays",
    "points are farther from the origin than the spacing of floating-point"
    " numbers at 1, or at the origin",
]


def numbers(g, n, increasing):
    pool = [g.choice([0.0, 1.0, -1.0, 2.5, g.float(-50, 50), float(g.int(-5, 5))]) for _ in range(n)]
    if not increasing:
        return pool
    base = sorted(set(pool))
    while len(base) < n:
        base.append(base[-1] + g.choice([0.5, 1.0, 3.25]))
    return base


def target(g, flat):
    low, high = min(flat), max(flat)
    return g.choice([g.choice(flat), low, high, low - 1.5, high + 1.5, g.float(low - 2, high + 2), (flat[0] + flat[-1]) / 2])


@CASES.add(2500)
def nearest(g):
    """The nearest value, with or without a bound."""
    shape = [g.int(1, 5) for _ in range(g.choice([1, 1, 2, 3]))]
    n = int(numpy.prod(shape))
    scale = g.weighted([(6, 1.0), (1, 1e-30), (1, 1e12), (1, 1e40)])
    flat = [scale * v for v in numbers(g, n, g.bool())]
    array = numpy.array(flat).reshape(shape)
    values = array if g.bool() else array.tolist()
    x = target(g, flat) if scale == 1 else g.choice([g.choice(flat), min(flat), max(flat), scale * g.float(-60, 60)])
    bound = g.choice([None, 'lower', 'upper'])
    g.note(array.tolist(), x, bound)
    found = numerical.find_nearest(values, x, **({'bound': bound} if bound or g.bool() else {}))
    allowed = [v for v in flat if bound is None or (v >= x if bound == 'lower' else v <= x)] or flat
    best = min(abs(v - x) for v in allowed)
    what = f"find_nearest({array.tolist()}, {x}, bound={bound!r})"
    check(found.value in allowed and abs(found.value - x) == best, f"{what} is {found}")
    if len(shape) == 1:
        check(0 <= found.index < n, f"{what} has index {found.index}")
    else:
        check(len(found.index) == len(shape), f"{what} has index {found.index}")
    check(array[found.index] == found.value, f"{what}: the value at {found.index} is {array[found.index]}")
    if n > 1:
        g.nontrivial(str(array.tolist()), x, bound)


@CASES.add(2000)
def bounds(g):
    """The indices around a target along one axis."""
    shape = [g.int(1, 5) for _ in range(g.choice([1, 1, 2, 3]))]
    axis = g.int(0, len(shape) - 1)
    n = shape[axis]
    rest = shape[:axis] + shape[axis + 1:]
    rows = [numbers(g, n, True) for _ in range(int(numpy.prod(rest)))]
    array = numpy.moveaxis(numpy.array(rows).reshape(rest + [n]), -1, axis)
    flat = [v for r in rows for v in r]
    x = target(g, flat)
    opts = {'axis': axis - (len(shape) if g.bool() else 0)}
    if axis == len(shape) - 1 and g.bool():
        opts = {}
    g.note(array.tolist(), x, opts)
    found = numerical.get_bounding_indices(array if g.bool() else array.tolist(), x, **opts)
    what = f"get_bounding_indices({array.tolist()}, {x}, {opts})"
    expected = list(shape)
    expected[axis] = 2
    check(list(numpy.shape(found)) == expected, f"{what} has shape {numpy.shape(found)}")
    pairs = numpy.moveaxis(found, axis, -1).reshape(-1, 2)
    for row, (i, j) in zip(rows, pairs):
        if x in row:
            want = (row.index(x),) * 2
        elif x < row[0]:
            want = (0, 0)
        elif x > row[-1]:
            want = (n - 1, n - 1)
        else:
            j0 = min(k for k, v in enumerate(row) if v > x)
            want = (j0 - 1, j0)
        check((i, j) == want, f"{what} gives {(i, j)} for {row}, expected {want}")
    if n > 1:
        g.nontrivial(str(rows), x, axis)


@CASES.add(1500)
def casts(g):
    """Numbers from text and other objects."""
    kind = g.choice(['int', 'float', 'complex', 'number', 'other'])
    if kind == 'int':
        x = g.choice([0, g.int(-10**6, 10**6)])
        text = g.choice([str(x), f" {x} ", f"{x:+d}"])
    elif kind == 'float':
        x = g.choice([0.0, g.float(-100, 100), g.pos(), 1e300])
        text = g.choice([repr(x), f" {x!r}", f"{x:.17e}"])
    elif kind == 'complex':
        x = complex(g.int(-9, 9), g.float(-5, 5))
        text = str(x)
    elif kind == 'number':
        x = g.choice([3, 0, 2.5, 0.0, True, 1 + 2j, numpy.float64(2.5), numpy.int64(4)])
        found = numerical.cast(x, strict=g.bool())
        check(found is x, f"cast({x!r}) is {found!r}")
        return
    else:
        bad = g.choice(['a', '', '1 2', 'one', '1.2.3', None, [1], [], {}, (1, 2), object])
        check(numerical.cast(bad, strict=False) is None, f"cast({bad!r}, strict=False) is {numerical.cast(bad, strict=False)!r}")
        with raises(TypeError, what=f"cast({bad!r})"):
            numerical.cast(bad)
        return
    found = numerical.cast(text, strict=g.bool())
    same = numpy.isclose(found, x, rtol=1e-12) if kind == 'complex' else found == x
    check(same and type(found) is type(x), f"cast({text!r}) is {found!r}, expected {x!r}")
    g.nontrivial(kind, text)


@CASES.add(2500)
def points(g):
    """Cartesian to spherical coordinates and back."""
    shape = g.choice([(), (1,), (3,), (2, 2), (4,)])
    n = int(numpy.prod(shape))
    size = g.choice([1.0, 1.0, 1e-3, 1e11])
    def coordinate():
        return size * g.choice([0.0, 1.0, -1.0, g.float(-5, 5), g.float(-5, 5)])
    raw = [(coordinate(), coordinate(), coordinate()) for _ in range(n)]
    raw = [p if any(abs(i) > 1e-6 * size for i in p) else (0.0, 0.0, 0.0) for p in raw]
    xyz = [numpy.array([p[i] for p in raw]).reshape(shape) for i in range(3)]
    if not shape:
        xyz = [float(i) for i in xyz]
    g.note(raw)
    before = [numpy.copy(i) for i in xyz]
    r, t, p = numerical.xyz2rtp(*xyz) if g.bool() else numerical.xyz2rtp(tuple(xyz))
    check(all(numpy.array_equal(a, b) for a, b in zip(xyz, before)), "xyz2rtp changes its arguments")
    check(all(numpy.shape(i) == shape for i in (r, t, p)), f"xyz2rtp({raw}) has shapes {[numpy.shape(i) for i in (r, t, p)]}")
    for q, a, b, c in zip(raw, *(numpy.ravel(i) for i in (r, t, p))):
        check(numpy.isclose(a, numpy.linalg.norm(q), rtol=1e-9, atol=0), f"r of {q} is {a}")
        check(0 <= b <= numpy.pi and 0 <= c <= 2 * numpy.pi, f"angles of {q} are {b}, {c}")
        if not any(q):
            check(b == 0, f"θ of the origin is {b}")
        back = (a * numpy.sin(b) * numpy.cos(c), a * numpy.sin(b) * numpy.sin(c), a * numpy.cos(b))
        check(numpy.allclose(back, q, rtol=0, atol=1e-7 * numpy.linalg.norm(q)), f"xyz2rtp({q}) is {(a, b, c)}, which is {back}")
        if not q[0] and not q[1]:
            check(c == 0, f"φ of {q} is {c}")
        if all(q):
            g.nontrivial(q)
    x, y, z = numerical.rtp2xyz(r, t, p) if g.bool() else numerical.rtp2xyz((r, t, p))
    for q, got in zip(raw, zip(*(numpy.ravel(i) for i in (x, y, z)))):
        check(numpy.allclose(got, q, rtol=0, atol=1e-9 * numpy.linalg.norm(q)), f"rtp2xyz(xyz2rtp({q})) is {got}")
    for f in (numerical.xyz2rtp, numerical.rtp2xyz):
        with raises(numerical.MissingArgsError, what="no coordinates"):
            f()
        with raises(numerical.ArgsNumberError, what="two coordinates"):
            f(1.0, 2.0)


@CASES.add(300)
def floors(g):
    """Small numbers become zero."""
    values = [g.choice([1e-17, -1e-17, 1.0, -2.0, 0.0, 1e-3, 1e-15]) for _ in range(g.int(1, 5))]
    want = [0.0 if abs(v) < 2e-16 else v for v in values]
    found = numerical.zero_floor(numpy.array(values))
    check(list(found) == want, f"zero_floor({values}) is {found}")
    for v, w in zip(values, want):
        check(numerical.zero_floor(v) == w and numerical.zero_floor(numpy.float64(v)) == w, f"zero_floor({v}) is {numerical.zero_floor(v)}")
    g.nontrivial(str(values))
