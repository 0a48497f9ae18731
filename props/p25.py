"""Look-up tables, registries, and other containers behave as documented."""

import contextlib
import fractions
import io
import typing

import numpy

from goats.core import fundamental
from goats.core import iterables

from pbt.case import Cases
from pbt.engine import check, raises

CASES = Cases()
RULE = "containers or arguments with at least two members; distinct by content"
ASSUMPTIONS = [
    "tables have at least one entry and requests at least one criterion; graph"
    " weights are not zero",
]

KEYS = ['name', 'symbol', 'kind', 'size']
VALUES = [0, 1, 2, 'a', 'b', '', None, 2.5]


def a_table(g):
    keys = g.subset(KEYS) or ['name']
    extra = [k for k in KEYS if k not in keys]
    entries = []
    for _ in range(g.weighted([(1, 1), (2, 2), (4, 4), (3, 6)])):
        entry = {k: g.choice(VALUES[:g.choice([2, 4, 8])]) for k in keys}
        if extra and g.bool(0.3):
            entry[g.choice(extra)] = g.choice(VALUES)
        entries.append({k: entry[k] for k in g.shuffle(list(entry))})
    return entries


@CASES.add(2500)
def tables(g):
    """Columns, entries by value, and entries by criteria."""
    entries = a_table(g)
    table = iterables.Table(g.choice([list, tuple])(entries))
    common = set(entries[0]).intersection(*entries)
    what = f"Table({entries})"
    g.note(entries)
    if len(entries) > 1:
        g.nontrivial(repr(entries))
    check(set(table.keys) == common, f"{what}: keys {table.keys}, expected {common}")
    check(len(table) == len(entries), f"{what}: length {len(table)}")
    check(list(table) == entries, f"{what}: members {list(table)}")
    for _ in range(g.int(1, 4)):
        key = g.choice(KEYS)
        if key in common:
            check(tuple(table[key]) == tuple(e[key] for e in entries), f"{what}[{key!r}]: {table[key]}")
        else:
            with raises(iterables.TableKeyError, what=f"{what}[{key!r}]"):
                table[key]
        check(tuple(table.get(key, 'no')) == tuple(e.get(key, 'no') for e in entries), f"{what}.get({key!r}): {table.get(key, 'no')}")
        value = g.choice(VALUES)
        found = [e for e in entries if value in e.values()]
        call = f"{what}.find({value!r})"
        if not found:
            with raises(iterables.MissingValueError, what=call):
                table.find(value)
            with raises(iterables.MissingValueError, what=call):
                table.find(value, unique=True)
        else:
            check(table.find(value) == found, f"{call}: {table.find(value)}")
            if len(found) > 1:
                with raises(iterables.AmbiguousValueError, what=f"unique {call}"):
                    table.find(value, unique=True)
            else:
                check(table.find(value, unique=True) == found[0], f"unique {call}")
        # Criteria, often those of an actual entry.
        likely = g.choice(entries)
        request = {k: likely[k] if k in likely and g.bool(0.8) else g.choice(VALUES) for k in g.shuffle(g.subset(KEYS) or ['name'])}
        strict = g.bool()
        call = f"{what}(strict={strict}, {request})"
        g.event('strict' if strict else 'iterative')
        error, answer, left = None, None, entries
        for k, v in request.items():
            if k not in common:
                error = iterables.TableKeyError
                break
            left = [e for e in left if e[k] == v]
            if not strict and len(left) == 1:
                answer = left[0]
                break
        if error is None and answer is None:
            if len(left) == 1:
                answer = left[0]
            elif len(left) > 1 and not strict:
                error = iterables.AmbiguousRequestError
            else:
                error = iterables.TableLookupError
        if error is None:
            g.event('entry found')
            got = table(strict=strict, **request)
            check(got is answer or got == answer, f"{call}: {got}, expected {answer}")
        else:
            g.event(error.__name__)
            with raises(error, what=call):
                table(strict=strict, **request)
            try:
                table(strict=strict, **request)
            except Exception as err:
                text = str(err)
                missing = [k for k in request if k not in text] if error is not iterables.TableKeyError else []
                check(not missing, f"{call}: the message {text!r} does not mention {missing}")


@CASES.add(300)
def shown(g):
    """A printed table has one row per entry, with the requested columns."""
    entries = [{k: g.choice([1, 22, 'abc', 'x', 3.5]) for k in KEYS} for _ in range(g.int(1, 4))]
    names = g.subset(KEYS) or ['size']
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        iterables.Table(entries).show(names + ['nothing'])
    lines = out.getvalue().splitlines()
    what = f"Table({entries}).show({names}): {lines}"
    g.note(what)
    g.nontrivial(what)
    check(len(lines) == len(entries) + 2, what)
    check(lines[0].split() == list(names), what)
    check(all(set(s) == {'-'} for s in lines[1].split()), what)
    for line, entry in zip(lines[2:], entries):
        check(line.split() == [str(entry[n]) for n in names], what)


@CASES.add(250)
def elements(g):
    """The table of chemical elements is consistent."""
    table = fundamental.ELEMENTS
    entries = list(table)
    e = g.choice(entries)
    g.note(e)
    g.nontrivial(repr(e))
    keys = [k for k in g.shuffle(list(e)) if list(table[k]).count(e[k]) == 1]
    check(keys, f"no unique property of {e}")
    for k in keys:
        check(table(**{k: e[k]}) == e, f"elements({k}={e[k]!r}): {table(**{k: e[k]})}")
        check(table(strict=True, **e) == e, f"elements({e})")


@CASES.add(1500)
def bijections(g):
    keys = g.subset(['a', 'b', 'c', 1, 2, (1, 2)])
    pool = [1, 2, 'x', 'y', (3,), None, 'a']
    one_to_one = g.bool(0.7)
    values = g.shuffle(pool)[:len(keys)] if one_to_one else [g.choice(pool[:3]) for _ in keys]
    mapping = dict(zip(keys, values))
    what = f"Bijection({mapping})"
    g.note(what)
    if len(mapping) > 1:
        g.nontrivial(what)
    if len(set(mapping.values())) < len(mapping):
        with raises(TypeError, what=what):
            iterables.Bijection(mapping)
        return
    source = dict(mapping)
    b = iterables.Bijection(source)
    check(dict(b) == mapping and len(b) == len(mapping), f"{what}: {dict(b)}")
    inverse = b.invert()
    check(dict(inverse) == {v: k for k, v in mapping.items()}, f"inverse of {what}: {dict(inverse)}")
    check(dict(inverse.invert()) == mapping, f"inverse of the inverse of {what}: {dict(inverse.invert())}")
    source['new'] = 'new'
    check('new' not in b and dict(b) == mapping, f"{what} follows changes of its source")
    with raises(KeyError, what=f"{what}['nothing']"):
        b['nothing']


@CASES.add(1500)
def graphs(g):
    """Connections: every link has an inverse and keeps its first weight."""
    names = ['a', 'b', 'c', 'd', 'e']
    links, base = {}, {}
    graph = None
    steps = [(g.choice(names), g.choice(names), g.choice([2.0, 0.5, 10.0, None, -4.0, 1.0])) for _ in range(g.int(0, 7))]
    n = g.int(0, len(steps))
    for a, b, w in steps[:n]:
        base.setdefault((a, b), w)
    graph = iterables.Connections(base)
    for (a, b), w in [*base.items(), *(((a, b), w) for a, b, w in steps[n:])]:
        links.setdefault((a, b), w)
        links.setdefault((b, a), 1 / w if w else w)
    for a, b, w in steps[n:]:
        graph.add_connection(a, b, w)
    what = f"Connections({steps}, {n})"
    g.note(what)
    if len(links) > 2:
        g.nontrivial(what)
    check(len(graph) == len(links) and set(graph) == set(links), f"{what}: {set(graph)}")
    check(graph.nodes == {x for link in links for x in link}, f"{what}: nodes {graph.nodes}")
    for a in names:
        want = {y: w for (x, y), w in links.items() if x == a}
        check(graph.get_adjacencies(a) == want, f"{what}: adjacent to {a}: {graph.get_adjacencies(a)}, expected {want}")
        for b in names:
            check(((a, b) in graph) == ((a, b) in links), f"{what}: contains {(a, b)}")
            if (a, b) in links:
                check(graph.get_weight(a, b) == links[(a, b)], f"{what}: weight of {(a, b)}: {graph.get_weight(a, b)}")
            else:
                with raises(KeyError, what=f"{what}: weight of {(a, b)}"):
                    graph.get_weight(a, b)


@CASES.add(1500)
def registries(g):
    """No object is lost from a registry unless it is overwritten on request."""
    base = {k: k.upper() for k in g.subset(['f', 'g', 'f_1', 'f_2', 'other'])}
    key = g.choice(['object', 'method'])
    registry = iterables.ObjectRegistry(base, object_key=key)
    start = {k: {key: v} for k, v in base.items()}
    model = dict(start)
    history = []
    for _ in range(g.int(1, 7)):
        if g.bool(0.1):
            registry.reset()
            model = dict(start)
            history.append('reset')
        else:
            def this(): return None
            this.__qualname__ = this.__name__ = g.choice(['f', 'g', 'f_1', 'h'])
            name = g.choice([None, None, 'f', 'h', 'named', 'f_3'])
            overwrite = g.bool(0.3)
            extra = {'unit': 'm'} if g.bool(0.3) else {}
            history.append((this.__name__, name, overwrite, extra))
            before = set(model)
            if name is None and not extra and g.bool():
                got = registry.register(this)
            else:
                got = registry.register(name=name, overwrite=overwrite, **extra)(this)
            check(got is this, f"registry {list(base)} {history}: register returned {got}")
            new = [k for k in registry if registry[k].get(key) is this]
            check(len(new) == 1, f"registry {list(base)} {history}: registered under {new}")
            if name and (name not in before or overwrite):
                check(new == [name], f"registry {list(base)} {history}: registered under {new}, expected {name}")
            else:
                check(new[0] not in before, f"registry {list(base)} {history}: {new[0]!r} replaced another object")
                if this.__name__ not in before:
                    check(new == [this.__name__], f"registry {list(base)} {history}: registered under {new}")
            model[new[0]] = {key: this, **extra}
        check({k: registry[k] for k in registry} == model and len(registry) == len(model), f"registry {list(base)} {history}: {list(registry)}, expected {list(model)}")
        check(all(k in registry for k in model) and 'nothing' not in registry, f"registry {list(base)} {history}: membership")
    copy = registry.copy()
    check({k: copy[k] for k in copy} == model, f"registry {list(base)} {history}: the copy has {list(copy)}")
    def more(): return None
    copy.register(name='more')(more)
    check(copy['more'] == {key: more} and 'more' not in registry, f"registry {list(base)} {history}: 'more' in a copy is {copy['more']}")
    g.note(list(base), history)
    if len(history) > 1:
        g.nontrivial(repr((list(base), history)))


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(E2):
    pass


@CASES.add(1500)
def guards(g):
    """A guarded call substitutes for known exceptions only."""
    known = {}
    raised = g.choice([None, E1, E2, E3, ValueError, KeyError, LookupError])

    def call(*args, **kwargs):
        if raised:
            raise raised('message')
        return ('result', args, kwargs)

    guard = iterables.Guard(call)
    for e in g.shuffle([E1, E2, E3, ValueError, KeyError, LookupError])[:g.int(0, 3)]:
        known[e] = g.choice([..., None, 0, 'default', numpy.array([1, 2])])
        if known[e] is None and g.bool():
            guard.catch(e)
        else:
            guard.catch(e, known[e])
    args = tuple(g.choice([1, 'a', None, [1]]) for _ in range(g.int(0, 2)))
    kwargs = {k: 1 for k in g.subset(['x', 'y'])}
    what = f"guard of {raised} with {known} called with {args}, {kwargs}"
    g.note(what)
    g.nontrivial(what)
    if raised is None:
        check(guard.call(*args, **kwargs) == ('result', args, kwargs), what)
        return
    match = next((c for c in raised.mro() if c in known), None)
    if match is None:
        g.event('unknown')
        with raises(raised, what=what):
            guard.call(*args, **kwargs)
        return
    got = guard.call(*args, **kwargs)
    if known[match] is not ...:
        g.event('default value')
        check(got is known[match], f"{what}: {got}")
        return
    g.event('arguments')
    want = (args, kwargs) if args and kwargs else kwargs if kwargs else args[0] if len(args) == 1 else args
    check(got == want, f"{what}: {got!r}, expected {want!r}")


def nested(g, depth):
    if depth == 0 or g.bool(0.3):
        return g.choice([0, 1, 2.5, 'ab', '', None, [], (), {'k': 1}, {1, 2}])
    return g.choice([list, tuple])([nested(g, depth - 1) for _ in range(g.weighted([(1, 0), (4, 1), (2, 2)]))])


@CASES.add(3000)
def helpers(g):
    """Small operations on iterables."""
    this = nested(g, 4)
    what = f"of {this!r}"
    g.note(repr(this))
    inner = this
    while isinstance(inner, (list, tuple)) and len(inner) == 1:
        inner = inner[0]
    got = iterables.unwrap(this)
    check(got == inner and type(got) is type(inner), f"unwrapping {what}: {got!r}")
    kind = g.choice([list, tuple])
    if inner is not None:
        want = kind([inner]) if isinstance(inner, (int, float, str)) else kind(inner)
        got = iterables.unwrap(this, wrap=kind)
        check(got == want and type(got) is kind, f"unwrapping {what} into {kind}: {got!r}")
    empty = this is None or (not isinstance(this, (int, float)) and len(this) == 0)
    check(iterables.missing(this) == empty, f"missing {what}: {iterables.missing(this)}")
    zero = g.choice([0, 0.0, 0j, fractions.Fraction(0), numpy.float32(0), numpy.int16(0), numpy.zeros(1), numpy.zeros((2, 2)), False])
    check(not iterables.missing(zero), f"missing({zero!r}) is True")
    void = g.choice([None, '', [], (), {}, set(), numpy.zeros(0), numpy.zeros((0, 2))])
    check(iterables.missing(void), f"missing({void!r}) is False")
    if isinstance(this, (list, tuple)) and len(this) > 1:
        g.nontrivial(repr(this))
    items = [g.choice([1, 2, 'a', [1], (1,), None]) for _ in range(g.int(0, 6))]
    first = [x for i, x in enumerate(items) if x not in items[:i]]
    check(iterables.unique(*items) == first, f"unique{tuple(items)}: {iterables.unique(*items)}")
    n = g.int(2, 5)
    sep = g.choice([',', ', ', ' | '])
    text = iterables.show_at_most(n, items, separator=sep)
    shown = text.split(sep) if items else []
    strings = [str(x) for x in items]
    if len(items) <= n:
        check(text == sep.join(strings), f"show at most {n} of {items}: {text!r}")
    else:
        check(text == sep.join([*strings[:n - 1], '...', strings[-1]]), f"show at most {n} of {items}: {text!r}")
    rows, columns = g.int(1, 3), g.int(1, 3)
    matrix = [[g.choice([1, 'a', None]) for _ in range(columns)] for _ in range(rows)]
    turned = iterables.transpose_list(matrix)
    check(turned == [list(c) for c in zip(*matrix)], f"transpose of {matrix}: {turned}")
    check(iterables.transpose_list(turned) == matrix, f"transpose of the transpose of {matrix}")
    a = g.choice([1, 'xy', [1, 2], (3,), [], 'z', range(2)])
    b = g.choice([2, 'm', ['p', 'q'], ('r',), None])
    whole_a, whole_b = (isinstance(x, (list, tuple, range)) for x in (a, b))
    what = f"distribute({a!r}, {b!r})"
    if not whole_a and not whole_b:
        with raises(TypeError, what=what):
            iterables.distribute(a, b)
    else:
        got = list(iterables.distribute(a, b))
        want = [(x, y) for x in (a if whole_a else [a]) for y in (b if whole_b else [b])]
        check(got == want, f"{what}: {got}")


@CASES.add(2500)
def lists(g):
    """Slices, text, and types of sequences."""
    n = g.int(0, 6)
    start = g.choice([None, *range(0, n + 1)])
    stop = g.choice([None, *range(0, n + 1)])
    step = g.choice([None, 1, 2, 3])
    s = slice(start, stop, step)
    got = list(iterables.slice_to_range(s, n))
    want = list(range(n))[s]
    check(got == want, f"range of {s} within {n}: {got}, expected {want}")
    items = [g.choice([0, -3, 12345678901234567890, 1.5, -2e-30, 1e20]) for _ in range(g.int(0, 5))]
    if len(items) > 1:
        g.nontrivial(repr(items))
    g.note(items)
    text = g.choice([str(items), '[' + ','.join(str(i) for i in items) + ']', '[' + ' , '.join(str(i) for i in items) + ' ]'])
    got = iterables.string_to_list(text)
    check(got == items and [type(x) for x in got] == [type(x) for x in items], f"list of {text!r}: {got}")
    bad = g.choice(['1, 2', '[1, 2', '1]', '', '(1, 2)', '[abc]', '[1, x]'])
    with raises(TypeError, what=f"list of {bad!r}"):
        iterables.string_to_list(bad)
    members = [g.choice([1, 2.5, 'a', None]) for _ in range(g.int(0, 3))]
    members = g.choice([list, tuple])(members)
    types = g.choice([int, (int, float), str, (str, int)])
    wrappers = g.subset([list, tuple])
    strict = g.bool()
    truth = type(members) in wrappers and (all if strict else any)(isinstance(m, types) for m in members)
    got = iterables.hastype(members, types, *wrappers, strict=strict)
    check(got == truth, f"hastype({members}, {types}, *{wrappers}, strict={strict}) is {got}")
    single = g.choice([1, 'a', 2.5])
    check(iterables.hastype(single, types, *wrappers, strict=strict) == isinstance(single, types), f"hastype({single!r}, {types})")
    check(iterables.allinstance(members, types) == all(isinstance(m, types) for m in members), f"allinstance({members}, {types})")
    w = iterables.whole(members)
    check(list(w) == list(members) and len(w) == len(members), f"whole({members}): {list(w)}")
    check(list(iterables.whole(single)) == [single] and single in iterables.whole(single), f"whole({single!r})")
    check(len(iterables.whole(None)) == 0, "whole(None) is not empty")
    digits, others = ([g.int(0, 2) for _ in range(g.int(0, 4))] for _ in range(2))
    for y in (others, g.shuffle(digits)):
        got = iterables.whole(digits) == iterables.whole(tuple(y))
        check(got is (sorted(digits) == sorted(y)), f"whole({digits}) == whole({y}) is {got}")
    check(isinstance(members, iterables.whole) and not isinstance(single, iterables.whole), f"wholeness of {members} or {single!r}")
    got = iterables.extract_single(members)
    check(got == (members[0] if len(members) == 1 else members), f"extract_single({members}): {got}")
    these = list(members)
    got = iterables.pop(these, 'default')
    check((got, these) == ((members[0], list(members[1:])) if len(members) else ('default', [])), f"pop({members}): {got}, {these}")
    target = g.choice([int, str])
    if all(isinstance(m, target) for m in members):
        if members:
            got = iterables.oftype(target)(*members)
            check((got if len(members) == 1 else list(got)) == (members[0] if len(members) == 1 else list(members)), f"oftype({target})(*{members})")
    else:
        with raises(TypeError, what=f"oftype({target})(*{members})"):
            iterables.oftype(target)(*members)


@CASES.add(800)
def uniform(g):
    """A uniform mapping creates its values from interior mappings."""

    class Plain:
        def __init__(self, value, name) -> None:
            self.value, self.name = value, name

    class Named(typing.NamedTuple):
        value: int
        name: str

    Kind = g.choice([Plain, Named])
    mapping = {k: {f: g.int(0, 9) for f in g.subset(['value', 'name', 'unused'])} for k in g.subset(['a', 'b', 'c'])}
    u = iterables.UniformMapping(mapping, Kind)
    g.note(mapping)
    g.nontrivial(repr(mapping))
    check(set(u) == set(mapping) and len(u) == len(mapping), f"uniform mapping of {mapping}: {set(u)}")
    for k, v in mapping.items():
        got = u[k]
        check(isinstance(got, Kind) and got.value == v.get('value') and got.name == v.get('name'), f"uniform mapping of {mapping}: item {k} {got}")
    with raises(KeyError, what=f"uniform mapping of {mapping}: item 'x'"):
        u['x']
    path = {'a': {'b': {'c': 1}, 'd': 2}}
    levels = g.choice([['a'], ['a', 'b'], ['a', 'd'], ('a', 'b', 'c')])
    want = path
    for level in levels:
        want = want[level]
    check(iterables.get_nested_element(path, levels) == want, f"element at {levels}")
