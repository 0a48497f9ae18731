"""Arithmetic of variables aligns their axes by name."""

import numpy

from goats.core import metadata, variable

from pbt.case import Cases
from pbt.engine import check, discard, raises

CASES = Cases()
RULE = (
    "products of variables with different axes, refusals, and reductions of"
    " variables with at least two axes; distinct by axes, shapes, and operations"
)
ASSUMPTIONS = [
    "the axes of a product are those of the first operand, then the new axes"
    " of each later operand, as documented",
]

NAMES = ['t', 'r', 's', 'e', 'mu']
UNITS = [('m', 'km', 1e-3), ('s', 'ms', 1e3), ('kg', 'g', 1e3), ('J', 'erg', 1e7), ('1', '1', 1.0)]


class V:
    def __init__(self, obj, array, dims, exps):
        self.obj, self.array, self.dims, self.exps = obj, array, tuple(dims), exps


def make(g, sizes, dims=None, unit=None):
    if dims is None:
        dims = g.sample(NAMES, g.int(1, 3))
    shape = tuple(sizes[d] for d in dims)
    n = int(numpy.prod(shape))
    start, step = g.int(1, 9), g.choice([1.0, 0.5, 0.25, 3.0])
    array = (start + step * numpy.arange(n)).reshape(shape)
    if n > 1 and g.bool(0.3):
        array = array.reshape(-1)[::-1].reshape(shape).copy()
    if unit is None:
        unit = g.choice(UNITS)
    data = g.choice(['array', 'list'])
    obj = variable.Quantity(array.tolist() if data == 'list' else array.copy(), dimensions=list(dims), unit=unit[0])
    exps = {unit[0]: 1} if unit[0] != '1' else {}
    if unit[0] != unit[1] and g.bool(0.3):
        obj = obj[unit[1]]
        array = array * unit[2]
        exps = {unit[1]: 1}
    if g.bool(0.2):
        numpy.array(obj)
    return V(obj, array, dims, exps)


def align(array, dims, all_dims):
    """View an array with named axes along a longer list of axes."""
    order = [d for d in all_dims if d in dims]
    out = numpy.transpose(array, [dims.index(d) for d in order])
    shape, k = [], 0
    for d in all_dims:
        if d in dims:
            shape.append(out.shape[k])
            k += 1
        else:
            shape.append(1)
    return out.reshape(shape)


def merged(a, b):
    return tuple(a) + tuple(d for d in b if d not in a)


def unit_text(exps):
    parts = [f"{u}^{e}" for u, e in exps.items() if e]
    return ' * '.join(parts) or '1'


def verify(obj, array, dims, exps, what):
    check(isinstance(obj, variable.Quantity), f"{what}: {type(obj)}")
    check(tuple(obj.dimensions) == tuple(dims), f"{what}: axes {obj.dimensions}, expected {dims}")
    got = numpy.array(obj)
    check(got.shape == array.shape, f"{what}: shape {got.shape}, expected {array.shape}")
    check(tuple(obj.shape) == array.shape, f"{what}: reported shape {obj.shape}, expected {array.shape}")
    check(numpy.allclose(got, array, rtol=1e-12, atol=0), f"{what}: {got.tolist()}, expected {array.tolist()}")
    check(obj.unit == metadata.Unit(unit_text(exps)), f"{what}: unit {str(obj.unit)!r}, expected {unit_text(exps)!r}")
    check(dict(obj.shape_dict) == dict(zip(dims, array.shape)), f"{what}: {obj.shape_dict}")


def sizes_for(g):
    # Equal lengths are common, so that misaligned axes still fit together.
    n = g.int(1, 4)
    return {d: n if g.bool(0.4) else g.int(1, 4) for d in NAMES}


@CASES.add(5000)
def products(g):
    """Products and quotients pair up axes with the same name."""
    sizes = sizes_for(g)
    v = make(g, sizes)
    g.note(v.dims, v.array.shape, unit_text(v.exps))
    ops = []
    verify(v.obj, v.array, v.dims, v.exps, 'new')
    for _ in range(g.int(1, 3)):
        op = g.choice(['mul', 'div', 'mul', 'div', 'scale', 'pow', 'sqrt'])
        if op in ('mul', 'div'):
            w = make(g, sizes)
            dims = merged(v.dims, w.dims)
            discard(int(numpy.prod([sizes[d] for d in dims])) > 600)
            a, b = align(v.array, v.dims, dims), align(w.array, w.dims, dims)
            form = g.choice(['operator', 'ufunc'])
            if op == 'mul':
                obj = v.obj * w.obj if form == 'operator' else numpy.multiply(v.obj, w.obj)
                array, sign = a * b, 1
            else:
                obj = v.obj / w.obj if form == 'operator' else numpy.true_divide(v.obj, w.obj)
                array, sign = a / b, -1
            exps = dict(v.exps)
            for u, e in w.exps.items():
                exps[u] = exps.get(u, 0) + sign * e
            ops.append((op, w.dims))
            what = f"{v.dims}{v.array.shape} {op} {w.dims}{w.array.shape}"
            g.note(what, form)
            verify(obj, array, dims, exps, what)
            verify(v.obj, v.array, v.dims, v.exps, f"left operand of {what}")
            verify(w.obj, w.array, w.dims, w.exps, f"right operand of {what}")
            if set(w.dims) != set(v.dims) or w.dims != v.dims:
                g.nontrivial(tuple(ops), v.array.shape, w.array.shape)
            v = V(obj, array, dims, exps)
        elif op == 'scale':
            x = g.choice([2, 0.5, -3.0, 10])
            v = V(v.obj * x if g.bool() else x * v.obj, v.array * x, v.dims, v.exps)
            ops.append((op, x))
            verify(v.obj, v.array, v.dims, v.exps, op)
        elif op == 'pow':
            n = g.choice([2, -1, 3])
            discard(numpy.max(numpy.abs(v.array)) > 1e20)
            v = V(v.obj ** n, v.array ** float(n), v.dims, {u: n * e for u, e in v.exps.items()})
            ops.append((op, n))
            verify(v.obj, v.array, v.dims, v.exps, op)
        else:
            if numpy.any(v.array < 0) or any(e % 2 for e in v.exps.values()):
                continue
            v = V(numpy.sqrt(v.obj), numpy.sqrt(v.array), v.dims, {u: e // 2 for u, e in v.exps.items()})
            ops.append((op,))
            verify(v.obj, v.array, v.dims, v.exps, op)
        g.event(op)


@CASES.add(2500)
def sums(g):
    """Sums need the same axes in the same order."""
    sizes = sizes_for(g)
    unit = g.choice(UNITS)
    v = make(g, sizes, unit=(unit[0], unit[0], 1.0))
    f = numpy.add if g.bool() else numpy.subtract
    how = g.choice(['same', 'permuted', 'renamed', 'fewer'])
    dims = v.dims
    if how == 'permuted':
        dims = tuple(g.shuffle(dims))
    elif how == 'renamed':
        i = g.int(0, len(dims) - 1)
        new = g.choice([d for d in NAMES if d not in dims])
        sizes[new] = sizes[dims[i]]
        dims = dims[:i] + (new,) + dims[i+1:]
    elif how == 'fewer' and len(dims) > 1:
        dims = dims[1:]
    w = make(g, sizes, dims, unit=(unit[0], unit[0], 1.0))
    g.note(how, v.dims, v.array.shape, w.dims, w.array.shape)
    what = f"{v.dims}{v.array.shape} {f.__name__} {w.dims}{w.array.shape}"
    g.event(how)
    if dims == v.dims:
        verify(f(v.obj, w.obj), f(v.array, w.array), v.dims, v.exps, what)
    else:
        with raises(ValueError, TypeError, metadata.MetadataError, what=what):
            f(v.obj, w.obj)
        g.nontrivial(f.__name__, v.dims, v.array.shape, dims)
    verify(v.obj, v.array, v.dims, v.exps, f"left operand of {what}")
    verify(w.obj, w.array, w.dims, w.exps, f"right operand of {what}")


@CASES.add(2000)
def conflicts(g):
    """Axes with one name and two lengths are never combined."""
    sizes = sizes_for(g)
    v = make(g, sizes)
    d = g.choice(v.dims)
    other = dict(sizes)
    other[d] = g.choice([n for n in range(1, 6) if n != sizes[d]])
    extra = g.sample([x for x in NAMES if x != d], g.int(0, 2))
    w = make(g, other, g.shuffle([d] + extra))
    a, b = (v, w) if g.bool() else (w, v)
    f = numpy.multiply if g.bool() else numpy.true_divide
    what = f"{a.dims}{a.array.shape} {f.__name__} {b.dims}{b.array.shape}"
    g.note(what)
    with raises(ValueError, IndexError, what=what):
        f(a.obj, b.obj)
    verify(a.obj, a.array, a.dims, a.exps, f"left operand of {what}")
    g.nontrivial(a.dims, a.array.shape, b.dims, b.array.shape)


@CASES.add(4000)
def reductions(g):
    """Reduced arrays keep the names of the remaining axes."""
    sizes = {d: g.choice([1, 1, 2, 3]) for d in NAMES}
    v = make(g, sizes, g.sample(NAMES, g.int(1, 4)))
    n = v.array.ndim
    op = g.choice(['mean', 'mean axis', 'mean keep', 'squeeze', 'squeeze axis'])
    g.event(op)
    g.note(op, v.dims, v.array.shape, unit_text(v.exps))
    if op == 'mean':
        got = numpy.mean(v.obj)
        check(numpy.isclose(float(got), v.array.mean(), rtol=1e-12, atol=0), f"mean of {v.array.tolist()} is {got!r}")
        return
    if op == 'squeeze':
        keep = [i for i in range(n) if v.array.shape[i] != 1]
        got = numpy.squeeze(v.obj)
        want = v.array.squeeze()
        if not keep:
            check(float(numpy.array(got)) == float(want), "squeeze to one value")
            return
        verify(got, want, [v.dims[i] for i in keep], v.exps, f"squeeze {v.array.shape}")
        g.nontrivial(op, v.dims, v.array.shape)
        return
    if op == 'squeeze axis':
        axes = [i for i in range(n) if v.array.shape[i] == 1]
        discard(not axes or n == 1)
        gone = g.sample(axes, g.int(1, len(axes)))
        discard(len(gone) == n)
        f, where = numpy.squeeze, gone
    else:
        gone = g.sample(list(range(n)), g.int(1, max(1, n - 1)))
        discard(len(gone) == n and op != 'mean keep')
        f, where = numpy.mean, gone
    spelled = tuple(i - n if g.bool() else i for i in where)
    axis = spelled[0] if len(spelled) == 1 and g.bool(0.7) else spelled
    what = f"{op} {axis} of {v.dims}{v.array.shape}"
    g.note('axis', axis)
    if op == 'mean keep':
        got = f(v.obj, axis=axis, keepdims=True)
        want = f(v.array, axis=axis, keepdims=True)
        dims = v.dims
    else:
        got = f(v.obj, axis=axis) if g.bool() else f(v.obj, axis)
        want = f(v.array, axis=axis)
        dims = [v.dims[i] for i in range(n) if i not in gone]
    verify(got, want, dims, v.exps, what)
    verify(v.obj, v.array, v.dims, v.exps, f"operand of {what}")
    g.nontrivial(op, v.dims, v.array.shape, axis)


@CASES.add(2500)
def bare(g):
    """Other functions of the values act on the values in the current unit."""
    sizes = sizes_for(g)
    v = make(g, sizes)
    name = g.choice(['sum', 'max', 'min', 'std', 'median', 'argmax', 'sort', 'cumsum', 'transpose', 'ravel', 'shape', 'ndim', 'size', 'diff', 'allclose', 'array'])
    g.note(name, v.dims, v.array.shape, unit_text(v.exps))
    if name == 'array':
        got = numpy.asarray(v.obj, dtype=g.choice([float, 'float32']))
        check(numpy.allclose(got, v.array, rtol=1e-6, atol=0), "conversion to an array")
    elif name == 'allclose':
        check(bool(numpy.allclose(v.obj, v.array, rtol=1e-12, atol=0)), "allclose")
    else:
        f = getattr(numpy, name)
        got, want = f(v.obj), f(v.array)
        check(numpy.shape(got) == numpy.shape(want) and numpy.allclose(got, want, rtol=1e-9, atol=1e-12), f"numpy.{name}: {got!r}, expected {want!r}")
    x = g.choice(list(v.array.reshape(-1)))
    check(bool(v.obj.array_contains(float(x))), f"array_contains({x})")
    check(bool(v.obj.array_contains(float(x) * (1 + 1e-14))), "array_contains within rounding")
    scale = g.choice([1.0, 1e-9, 1e-20])
    w = v.obj * scale
    y = float(x) * scale * g.choice([1.01, 0.5, 1.0001, -1.0]) + g.choice([0.0, 1e-3])
    missing = not numpy.isclose(y, v.array * scale, rtol=1e-4, atol=0).any()
    check(not (missing and w.array_contains(y)), f"array_contains({y}) in {(v.array * scale).tolist()}")
    check(len(v.obj) == v.array.shape[0], f"len is {len(v.obj)}")
    g.nontrivial(name, v.dims, v.array.shape, x)
