"""What is shown is what is held."""

import contextlib
import io
import re
import warnings

import numpy

from goats import eprem
from goats.core import aliased, constant, datafile, fundamental, index, iterables
from goats.core import measurable, metadata, operational, physical, plasma, variable

from pbt import eprem as data
from pbt.case import Cases
from pbt.engine import check

CASES = Cases()
RULE = (
    "objects with several values, a name, or a changed unit, and registered"
    " displays of at least two parts; distinct by content"
)
ASSUMPTIONS = [
    "the values of variables are shown to three decimals (in scientific"
    " notation, to four figures), without the middle part of longer axes; the"
    " layout of text is otherwise left open",
]

NUMBER = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'
CHANGES = [
    ('m', 'km', 1e-3), ('m', 'cm', 100.0), ('J', 'erg', 1e7), ('s', 'minute', 1 / 60),
    ('km / s', 'm / s', 1e3), ('kg m^-3', 'g cm^-3', 1e-3), ('nT', 'G', 1e-5),
]


def numbers(text):
    return re.findall(NUMBER, text)


def inner(text):
    """The text between the parentheses of an unambiguous representation."""
    found = re.fullmatch(r"(?:[\w.]+)\((.*)\)", text, re.DOTALL)
    return found.group(1) if found else text


def shown_unit(text, unit, what):
    """The unit in some text, between brackets or quotes."""
    found = re.findall(r"unit='([^']*)'", text) or re.findall(r"\[([^\[\]]+)\]$", inner(text).strip())
    check(len(found) > 0, f"{what} shows no unit: {text!r}")
    for u in found:
        check(metadata.Unit(u) == unit, f"{what} shows the unit {u!r}, not {str(unit)!r}")


@CASES.add(1500)
def values(g):
    """Scalars, vectors, measurements, arguments, and indices."""
    kind = g.choice(['measurable', 'scalar', 'vector', 'measurement', 'argument', 'assumption', 'index', 'axis'])
    n = 1 if kind in ('measurable', 'scalar') else g.int(1, 4)
    xs = [g.choice([g.int(-20, 20), g.float(-50, 50), 0.5, 1e-8, 2.5e9]) for _ in range(n)]
    u0, u1, f = g.choice(CHANGES)
    change = g.bool() and kind in ('measurable', 'scalar', 'vector', 'assumption', 'axis')
    names = g.subset(['a', 'b', 'mfp', 'J(E)'], 0.4) if kind in ('scalar', 'vector', 'assumption') else []
    if kind == 'measurable':
        q = measurable.Scalar(xs[0], unit=u0)
    elif kind == 'scalar':
        q = physical.Scalar(xs[0], unit=u0, name=names)
    elif kind == 'vector':
        q = physical.Vector(xs, unit=u0, name=names)
    elif kind == 'measurement':
        q = measurable.measure(*xs, u0)
    elif kind == 'argument':
        q = operational.Argument(xs[0] if n == 1 else xs, u0)
    elif kind == 'assumption':
        q = constant.Assumption(measurable.measure(*xs, u0), name=names)
    elif kind == 'axis':
        # Shown with three decimal places.
        xs = [g.int(-80, 80) / 4 for _ in xs]
        q = index.Array(index.Data([g.int(0, 30) for _ in xs], values=xs), unit=u0)
    else:
        xs = [float(x) for x in xs]
        q = index.Quantity(index.Data([g.int(0, 30) for _ in xs], values=xs), unit=u0)
        xs = list(q)
    unit = u0
    if change:
        q, unit = q[u1], u1
        xs = [x * f for x in xs]
    g.note(kind, xs, unit, names)
    g.event(kind)
    texts = [str(q), repr(q)]
    for text in texts:
        what = f"{kind} of {xs} {unit!r}"
        if kind == 'argument':
            check(metadata.Unit(re.findall(r"'([^']*)'", text)[-1]) == metadata.Unit(unit), f"{what} is shown as {text!r}")
        else:
            shown_unit(text, metadata.Unit(unit), what)
        bare = inner(text)
        for name in names:
            bare = bare.replace(name, '')
        bare = re.sub(r"unit='[^']*'|'[^']*'", '', bare)
        if kind not in ('index', 'argument', 'axis'):
            bare = re.sub(r"\[[^\[\]]*\]$", '', bare.strip()) if text is texts[0] or kind == 'measurement' else bare
        got = [float(x) for x in numbers(bare)]
        check(
            len(got) == len(xs) and (
                numpy.allclose(got, xs, rtol=1e-7, atol=1.1e-8) if kind != 'axis'
                else numpy.allclose(got, xs, rtol=0, atol=1e-3 * max(1.0, *map(abs, xs)))
            ),
            f"{what} is shown as {text!r}",
        )
        for name in names:
            check(f"'{name}'" in text, f"{what}: no {name!r} in {text!r}")
    if change or names or n > 1:
        g.nontrivial(kind, str(xs), unit, str(names))


def edges(n, cut):
    return list(range(n)) if n <= 4 or not cut else [0, 1, n - 2, n - 1]


@CASES.add(1000)
def variables(g):
    """The text of a variable has its values, axes, and unit."""
    shape = tuple(g.int(1, 7) for _ in range(g.int(1, 3)))
    axes = g.sample(['time', 'shell', 'energy', 'mu'], len(shape))
    n = int(numpy.prod(shape))
    scale = g.choice([1.0, 1.0, 1e-9, 1e12])
    array = (numpy.arange(n) * g.choice([1.0, 0.37, 12.5]) + g.int(-20, 20)).reshape(shape) * scale
    u0, u1, f = g.choice(CHANGES)
    v = variable.Quantity(array, dimensions=axes, unit=u0)
    if g.bool():
        v, u0, array = v[u1], u1, array * f
    if g.bool(0.3):
        cuts = tuple(slice(0, g.int(1, k)) for k in shape)
        v, array = v[cuts], array[cuts]
    g.note(shape, axes, u0, array.tolist())
    text = repr(v)
    cut = array.size > 4
    ks = [edges(k, cut) for k in array.shape]
    want = array[numpy.ix_(*ks)].reshape(-1)
    head = text[:text.index('dimensions')]
    tokens = numbers(head)
    check(len(tokens) == len(want), f"{text!r} shows {len(tokens)} values, expected {len(want)}")
    for token, x in zip(tokens, want):
        close = abs(float(token) - x) <= (1e-3 * abs(x) if 'e' in token else 6e-4 + 1e-9 * abs(x))
        check(close, f"{x} is shown as {token} in {text!r}")
    found = re.search(r"dimensions=\[([^\]]*)\]", text)
    check(found and re.findall(r"'([^']*)'", found.group(1)) == axes, f"axes {axes} are shown as {text!r}")
    shown_unit(text, metadata.Unit(u0), f"a variable in {u0!r}")
    g.nontrivial(shape, str(axes), u0, text)


class Thing(iterables.ReprStrMixin):
    def __init__(self, **attrs):
        self.__dict__.update(attrs)

    def size(self):
        return 'computed'


@CASES.add(1500)
def displays(g):
    """Registered displays: parts in order, with current attribute values."""
    attrs = {k: g.choice([1, 'text', 2.5, [1, 2], None]) for k in ('a', 'b', 'c', 'd')}
    t, other = Thing(**attrs), Thing(**attrs)
    sep = {'__str__': ' ', '__repr__': ' '}
    parts = {'__str__': [], '__repr__': []}
    names = {}
    for k in ('a', 'b', 'size'):
        t.display.register(k)
        names[k] = k
    history = []
    for m in ('__str__', '__repr__'):
        start = g.sample(['{a}', '{b}', 'a={a}', '[{size}]', 'word'], g.int(1, 3))
        sep[m] = g.choice([' ', ', ', ' | '])
        t.display[m] = sep[m].join(start)
        t.display[m].separator = sep[m]
        parts[m] = list(start)
    for _ in range(g.int(0, 5)):
        op = g.choice(['append', 'insert', 'register', 'replace', 'attribute', 'get'])
        m = g.choice(list(parts))
        history.append(op)
        if op in ('append', 'insert'):
            k = g.choice(['c', 'd', 'a'])
            t.display.register(k)
            names.setdefault(k, k)
            if names[k] != k:
                names[k] = k
            text = g.choice([f'{{{k}}}', f"{k}='{{{k}}}'"])
            if op == 'append':
                t.display[m].append(text)
                parts[m].append(text)
            else:
                i = g.int(0, len(parts[m]))
                t.display[m].insert(i, text)
                parts[m].insert(i, text)
        elif op == 'register':
            k, v = g.choice(list(names)), g.choice(['a', 'b', 'c', 'd', 'size'])
            t.display.register(**{k: v})
            names[k] = v
        elif op == 'replace':
            t.display[m] = '{a}'
            sep[m], parts[m] = ' ', ['{a}']
        elif op == 'attribute':
            k = g.choice(list(attrs))
            attrs[k] = g.choice(['new', 7, -1.5])
            setattr(t, k, attrs[k])
        else:
            i = g.int(-len(parts[m]), len(parts[m]) - 1)
            check(t.display[m][i] == parts[m][i], f"part {i} of {parts[m]} is {t.display[m][i]!r}")
        shown = {k: 'computed' if v == 'size' else attrs[v] for k, v in names.items()}
        want = {m: sep[m].join(parts[m]).format(**shown) for m in parts}
        check(str(t) == want['__str__'], f"after {history}: {str(t)!r}, expected {want['__str__']!r}")
        check(repr(t).endswith(f"Thing({want['__repr__']})"), f"after {history}: {repr(t)!r}, expected {want['__repr__']!r}")
    check(str(other) == '', f"another object shows {str(other)!r}")
    g.note(history, parts)
    if len(history) > 1:
        g.nontrivial(str(history), str(parts))


def printed(f, *args, **kwargs):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f(*args, **kwargs)
    return out.getvalue()


@CASES.add(800)
def tables(g):
    """A printed table has the requested columns of every entry."""
    columns = ['name', 'symbol', 'x', 'longer_name']
    n = g.int(1, 5)
    entries = [{c: g.choice([g.int(-99, 99), g.text('abcXYZ', 1, 6), 2.5, 'a' * g.int(1, 14)]) for c in columns} for _ in range(n)]
    if g.bool(0.3):
        entries[0]['extra'] = 1
    t = iterables.Table(entries)
    names = g.sample(columns + ['extra', 'nothing'], g.int(1, 4))
    lines = printed(t.show, names=names).splitlines()
    common = set.intersection(*[set(e) for e in entries])
    names = [k for k in names if k in common]
    g.note(names, entries)
    if not names:
        check(not any(line.strip() for line in lines), f"no columns, but {lines}")
        return
    check(len(lines) == n + 2, f"{n} entries in {lines}")
    check(lines[0].split() == names, f"columns {names} in {lines[0]!r}")
    check(lines[1].split() == ['-' * len(k) for k in names], f"columns {names} in {lines[1]!r}")
    for e, line in zip(entries, lines[2:]):
        check(line.split() == [str(e[k]) for k in names], f"{e} is shown as {line!r}")
    check(len({len(line) for line in lines}) == 1, f"the columns are not aligned: {lines}")
    # each cell is centered below the header of its column
    start = 0
    for k in names:
        width = 4 + max(len(k), *[len(str(e[k])) for e in entries])
        for line, cell in zip(lines, [k, '-' * len(k)] + [str(e[k]) for e in entries]):
            check(line[start:start + width].strip() == cell, f"column {k!r} of {line!r} is not {cell!r}")
        start += width
    g.nontrivial(str(names), str(entries))


@CASES.add(60)
def references(g):
    """The printed constants and elements."""
    subsets = g.sample(['constants', 'elements', 'others'], g.int(0, 3))
    text = printed(fundamental.show, *subsets)
    wanted = subsets or ['constants', 'elements']
    g.note(subsets)
    g.nontrivial(str(subsets), text)
    check(('others' in text) == ('others' in subsets), f"{subsets}: the unknown subset")
    for entry in fundamental.ELEMENTS:
        line = [s.split() for s in text.splitlines() if s.split()[:1] == [entry['symbol']]]
        check(
            line == ([[entry['symbol'], entry['name'], str(entry['mass'])]] if 'elements' in wanted else []),
            f"{subsets}: {entry['symbol']} is shown as {line}",
        )
    blocks = {b.split(':')[0].strip(): b for b in re.split(r'\n\s*\n', text)} if 'constants' in wanted else {}
    for names, entry in fundamental.CONSTANTS.items(aliased=True):
        found = [b for b in blocks.values() if entry['info'] in b and all(f"'{k}'" in b for k in names)]
        check(len(found) == ('constants' in wanted), f"{subsets}: {names} is shown {len(found)} times")
        for b in found:
            for system in ('mks', 'cgs'):
                line = [s for s in b.splitlines() if s.strip().startswith(system)]
                check(len(line) == 1, f"{names} in {system}: {line}")
                c = physical.Scalar(entry[system]['value'], unit=entry[system]['unit'])
                check(float(numbers(line[0])[0]) == float(c) and f"[{entry[system]['unit']}]" in line[0], f"{names} in {system}: {line}")


@CASES.add(200)
def datasets(g):
    """Views of a dataset, observers, observables, and observations."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d = data.make(g, observer='stream', kind='obs', config='lamo=1.0\n')
        path = d.path / f'obs{d.ident:06}.nc'
        view = datafile.Interface(path)
        check(str(path.name) in str(view), f"{path} is shown as {str(view)!r}")
        text = str(view.viewers['variables'])
        blocks = {}
        for b in text.split('\n\n'):
            blocks[b.split(':')[0]] = b
        check(set(blocks) == set(d.arrays), f"variables {sorted(d.arrays)} are shown as {sorted(blocks)}")
        for k, b in blocks.items():
            v = view.variables[k]
            check(f"{v.unit!r}" in b and repr(k) in b, f"{k} with unit {v.unit!r} is shown as {b!r}")
            check(re.findall(r"'([^']*)'", b[b.index('dimensions'):b.index('name=')]) == list(d.dims(k)), f"axes {d.dims(k)} of {k} are shown as {b!r}")
            check(str(v) in repr(v) or all(s.strip() in repr(v) for s in str(v).splitlines()), f"{k}: {str(v)!r} and {repr(v)!r}")
        text = str(view.viewers['axes'])
        for axis, n in d.sizes.items():
            found = [b for b in text.split('\n\n') if b.split(':')[0] == axis]
            check(len(found) == 1 and repr(axis) in found[0] and f"{n}" in numbers(found[0]), f"axis {axis} of size {n} is shown as {text!r}")
        system = g.choice(['mks', 'cgs'])
        o = eprem.Stream(d.ident, source=d.path, config=d.config, system=system)
        check(str(d.ident) in str(o) and str(d.ident) in repr(o), f"observer {d.ident} is shown as {o!r}")
        name = g.choice([k for k in data.VARIABLES if k in d.arrays] + ['mean free path', 'energy density'])
        alias = g.choice([name] + (data.ALIASES[name] if name in data.ALIASES else []))
        q = o[alias]
        check(repr(alias) in repr(q), f"{alias!r} is shown as {q!r}")
        shown_unit(repr(q), q.unit, alias)
        r = q.observe()
        shown_unit(repr(r), r.unit, f"an observation of {alias!r}")
        for k in r.dimensions:
            check(repr(str(k)) in repr(r), f"axis {k} of {alias!r} in {r!r}")
        for k in r.parameters:
            check(str(k) in repr(r), f"parameter {k} of {alias!r} in {r!r}")
        check(not r.parameters or name == 'mean free path' or name not in d.arrays, f"{alias!r} has parameters {r.parameters}")
        g.note(alias, system, d.sizes)
        g.nontrivial(alias, system, str(d.sizes))


@CASES.add(1000)
def aliases(g):
    """Groups of names, aliased mappings, and species."""
    pool = ['a', 'b', 'c c', 'd-1', 'J(E)', 'x', 'y']
    groups, rest = [], g.shuffle(list(pool))
    while rest:
        n = min(g.int(1, 3), len(rest))
        groups.append(rest[:n])
        rest = rest[n:]
    held = {tuple(k): g.choice([1, 2.5, 'v', [1]]) for k in groups}
    m = g.choice([aliased.Mapping, aliased.MutableMapping])(held)
    for text in (str(m), repr(m)):
        for k, v in held.items():
            check(all(repr(n) in text for n in k), f"{k} is shown as {text!r}")
            check(repr(v) in text or str(v) in text, f"{v!r} of {k} is shown as {text!r}")
    k = g.choice(groups)
    for text in (str(aliased.Group(*k)), repr(aliased.Group(*k))):
        check(sorted(re.findall(r"'([^']*)'", text)) == sorted(k), f"the group {k} is shown as {text!r}")
    g.note(groups)
    g.nontrivial(str(held))
    symbol = g.choice(['H+', 'He++', 'O+++', 'Fe', 'C-'])
    s = plasma.Species(symbol)
    check(repr(symbol) in str(s) and all(x in str(s) for x in (str(float(s.m)), str(float(s.q)))), f"{symbol} is shown as {s}")
