"""The metadata of a result follows from the metadata of the operands."""

import fractions
import math
import operator

import numpy

from goats.core import metadata
from goats.core import observing
from goats.core import physical

from pbt.case import Cases
from pbt.engine import check, raises

CASES = Cases()
RULE = (
    "operands with more than one alias or axis, histories with at least two"
    " declarations, and chains of at least two operations; distinct by content"
)
ASSUMPTIONS = [
    "names are not operated on with zero or with a purely numerical name;"
    " operands of one declared operation all have one number of types",
]

WORDS = ['a', 'A', 'b', 'B', 'flux', 'J(E)', 'mfp', 'r', 'Vr', 'V^2']

BINARY = {
    operator.add: ' + ', operator.sub: ' - ',
    operator.mul: ' * ', operator.truediv: ' / ', pow: '^',
}
UNARY = {
    operator.pos: '+{}', operator.neg: '-{}', abs: 'abs({})',
    round: 'round({})', math.floor: 'floor({})', math.ceil: 'ceil({})',
    math.trunc: 'trunc({})',
}


def aliases(g, empty=0.1):
    if empty and g.bool(empty):
        return {''}
    return set(g.sample(WORDS, g.weighted([(3, 1), (3, 2), (1, 3)])))


def a_name(g, these):
    these = g.shuffle(sorted(these))
    if len(these) == 1 and g.bool():
        return metadata.Name(these[0])
    how = g.choice([list, tuple, set, 'starred', 'name'])
    if how == 'starred':
        return metadata.Name(*these)
    if how == 'name':
        return metadata.Name(metadata.Name(*these))
    return metadata.Name(how(these))


def combined(symbol, x, y):
    """The aliases of the result of an operation between sets of aliases."""
    if x == {''} or y == {''}:
        return {''}
    if x == y:
        if symbol in (' + ', ' - '):
            return x
        return {f'{i}{symbol}{i}' for i in x}
    return {f'{i}{symbol}{j}' for i in x for j in y}


def numerical(symbol, x, number, reverse=False):
    if x == {''} or number == 1:
        return x
    n = fractions.Fraction(number)
    return {f'{n}{symbol}{i}' if reverse else f'{i}{symbol}{n}' for i in x}


def a_number(g):
    return g.choice([1, 2, 3, -1, -2, 0.5, 1.5, -0.25, 2.0, 1.0, 10])


def same(got, expected, what):
    check(isinstance(got, metadata.Name), f"{what}: {got!r}")
    check(set(got) == expected, f"{what}: {sorted(got)}, expected {sorted(expected)}")
    check(got == metadata.Name(*expected), f"{what}: equality with {expected}")


@CASES.add(3000)
def names(g):
    """Symbolic operations on names."""
    x, y = aliases(g), aliases(g)
    a, b = a_name(g, x), a_name(g, y)
    g.note(('names', sorted(x), sorted(y)))
    if len(x | y) > 1:
        g.nontrivial(sorted(x), sorted(y))
    check(len(a) == len(x) and all(i in a for i in x), f"{x}: {a!r}")
    check(all((w in a) == (w in x) for w in WORDS), f"members of {x}")
    check(bool(a) == (x != {''}), f"truth of {x}")
    check((a == b) == (x == y) and (a != b) == (x != y), f"{x} == {y}")
    check(x != y or hash(a) == hash(b), f"hash of {x}")
    f = g.choice(list(BINARY))
    s = BINARY[f]
    additive = s in (' + ', ' - ')
    what = f"{sorted(x)}{s}{sorted(y)}"
    same(f(a, b), combined(s, x, y), what)
    # with other objects
    other = g.choice(['text', 'list', 'tuple', 'number', 'fraction'])
    left = g.bool()
    if other == 'number':
        that = a_number(g)
        expected = numerical(s, x, that, left)
    elif other == 'fraction':
        that = g.choice(['1/2', '3/2', '2', '1'])
        expected = numerical(s, x, fractions.Fraction(that), left)
    elif other == 'text':
        that = g.choice(WORDS)
        expected = combined(s, {that}, x) if left else combined(s, x, {that})
    else:
        z = aliases(g, 0)
        that = (list if other == 'list' else tuple)(g.shuffle(sorted(z)))
        expected = combined(s, z, x) if left else combined(s, x, z)
    what = f"{that!r}{s}{sorted(x)}" if left else f"{sorted(x)}{s}{that!r}"
    if additive:
        if x != {''}:
            with raises(TypeError, what=what):
                f(that, a) if left else f(a, that)
    else:
        same(f(that, a) if left else f(a, that), expected, what)
    f = g.choice(list(UNARY))
    if x != {''}:
        same(f(a), {UNARY[f].format(i) for i in x}, f"{f.__name__} {x}")
        same(numpy.sqrt(a), {f'{i}^1/2' for i in x}, f"sqrt {x}")
    # The operands are as before.
    same(a, x, 'first operand')
    same(b, y, 'second operand')
    # More aliases
    copy = metadata.Name(a)
    copy.add(g.choice(WORDS))
    same(a, x, 'after adding to a copy')
    w = aliases(g, 0)
    same(a.add(g.choice([list, tuple, set])(w)), x | w, f"{x} add {w}")


AXES = ['time', 'shell', 'x', 'y', 'species', 'energy']


@CASES.add(2000)
def axes(g):
    """Products unite axes in order; sums need the same axes."""
    parts = [g.sample(AXES, g.int(0, 4)) for _ in range(g.int(1, 4))]
    dims = [
        metadata.Dimensions(*p) if g.bool() else metadata.Dimensions(g.choice([list, tuple])(p))
        for p in parts
    ]
    g.note(('axes', parts))
    if len(parts) > 1 and sum(map(len, parts)) > 1:
        g.nontrivial(repr(parts))
    for d, p in zip(dims, parts):
        check(list(d) == p and len(d) == len(p), f"{p}: {d!r}")
        check(d == p and d == tuple(p) and d == metadata.Dimensions(*p), f"{p}: equality")
        check(not d != p, f"{p}: inequality")
        check(hash(d) == hash(metadata.Dimensions([''.join(list(n)) for n in p])), f"{p}: hash")
        check(all((n in d) == (n in p) for n in AXES), f"{p}: members")
        check(all(d[i] == p[i] and d[i - len(p)] == p[i] for i in range(len(p))), f"{p}: positions")
        if len(p) == 1:
            check(d == p[0], f"{p}: equality with text")
        else:
            check(not any(d == n for n in AXES), f"{p}: equal to one name")
        n = g.choice([2, -1.5])
        for f in (operator.pos, operator.neg, abs, lambda d: d ** n, lambda d: d * n, lambda d: n * d, lambda d: d / n):
            check(list(f(d)) == p, f"unary operation or number on {p}: {f(d)}")
    union = []
    for p in parts:
        union.extend(n for n in p if n not in union)
    check(list(dims[0].merge(*dims[1:])) == union, f"merge {parts}: {dims[0].merge(*dims[1:])}")
    product = dims[0]
    for d in dims[1:]:
        product = g.choice([operator.mul, operator.truediv])(product, d)
    check(list(product) == union, f"product of {parts}: {product}")
    for d, p in zip(dims, parts):
        check(list(d) == p, f"{p} was changed")
    f = g.choice([operator.add, operator.sub])
    if len(dims) > 1:
        if parts[0] == parts[1]:
            check(list(f(dims[0], dims[1])) == parts[0], f"sum of {parts[0]}")
        else:
            with raises(TypeError, what=f"sum of {parts[0]} and {parts[1]}"):
                f(dims[0], dims[1])
        with raises(TypeError, what="power of dimensions"):
            dims[0] ** dims[1]
    bad = g.choice([[1], ['x', 2], [['x'], ['y']], [None, 'x']])
    with raises(TypeError, what=f"Dimensions of {bad}"):
        metadata.Dimensions(*bad)


GROUPS = {
    'length': ['m', 'cm', 'km', 'au'], 'energy': ['J', 'erg', 'MeV'],
    'speed': ['m/s', 'km/s', 'cm s^-1'], 'time': ['s', 'day', 'ms'], 'none': ['1'],
}


@CASES.add(1500)
def units(g):
    """Unit attributes are added only to themselves and ignore plain numbers."""
    k0 = g.choice(list(GROUPS))
    k1 = k0 if g.bool() else g.choice(list(GROUPS))
    t0, t1 = g.choice(GROUPS[k0]), g.choice(GROUPS[k1])
    a, b = metadata.Unit(t0), metadata.Unit(t1)
    g.note(('units', t0, t1))
    if t0 != t1:
        g.nontrivial(t0, t1)
    f = g.choice([operator.add, operator.sub])
    what = f"{f.__name__} {t0!r} {t1!r}"
    if t0 == t1:
        check(f(a, b) == a, what)
    else:
        error = metadata.ScaleMismatch if k0 == k1 else metadata.DimensionMismatch
        with raises(error, what=what):
            f(a, b)
    with raises(TypeError, what=f"{t0!r} with a number"):
        f(a, g.choice([1, 1.0, 2.5]))
    n = g.choice([2, 0.5, 1])
    for r in (a * n, n * a, a / n):
        check(r == a, f"{t0!r} and {n}: {r}")
    for r, e in ((a * b, f'({t0}) * ({t1})'), (a / b, f'({t0}) / ({t1})'), (a * t1, f'({t0}) * ({t1})'), (t1 / a, f'({t1}) / ({t0})')):
        check(isinstance(r, metadata.Unit) and r == metadata.Unit(e), f"{e}: {r!r}")
    check(metadata.Unit(a) == a and numpy.sqrt(a * a) == a, f"{t0!r} and its square")
    a *= b
    check(a == metadata.Unit(f'({t0}) * ({t1})'), 'in-place product')
    a /= b
    check(a == metadata.Unit(t0), 'in-place quotient')


class A: pass
class B(A): pass
class C(B): pass
class D: pass
class E(D): pass


KINDS = [A, B, C, D, E, int, float]


@CASES.add(2500)
def operations(g):
    """Which operand types an operation supports after any declarations."""
    kind = g.choice([A, B, D])
    n = g.choice([1, 2, 2, 2, 3])
    subject = metadata.Operation(kind, name='mul')
    yes, no = set(), set()
    log = []
    kept = []

    def spec():
        return tuple(g.choice(KINDS) for _ in range(n))

    def supports(types, yes=yes, no=no):
        below = lambda s: all(issubclass(t, u) for t, u in zip(types, s))
        if yes and len(types) != n:
            return False
        if any(below(s) for s in no):
            return False
        if any(below(s) for s in yes):
            return True
        if kind in types:
            return True
        # Subtypes of the operation's own type are left open.
        return None if any(issubclass(t, kind) for t in types) else False

    def verify(subject, yes, no):
        for _ in range(3):
            types = spec()
            want = supports(types, yes, no)
            if want is not None:
                got = subject.supports(*types)
                check(got is want, f"{kind.__name__}: {log}: {[t.__name__ for t in types]} gives {got}")
        if yes:
            check(not subject.supports(*(kind,) * (n + 1)), f"{log}: another number of types")
        check(subject.implemented == bool(yes), f"{log}: implemented")

    for _ in range(g.int(1, 5)):
        how = g.choice(['support', 'suppress'])
        target = yes if how == 'support' else no
        symmetric = g.bool(0.3)
        if g.bool(0.7):
            specs = [spec()]
            args = specs[0]
        else:
            specs = [spec() for _ in range(g.int(1, 3))]
            args = specs if g.bool() else [list(s) for s in specs]
        log.append((how, [[t.__name__ for t in s] for s in specs], symmetric))
        r = getattr(subject, how)(*args, symmetric=symmetric)
        check(r is subject, f"{how} returns {r!r}")
        for s in specs:
            target.add(s)
            if symmetric:
                target.add(s[::-1])
        verify(subject, yes, no)
        if g.bool(0.2):
            kept.append((subject.copy(), set(yes), set(no)))
    g.note((kind.__name__, log))
    if len(log) > 1:
        g.nontrivial(kind.__name__, repr(log))
    if yes:
        with raises(metadata.NTypesError, what="a rule of another length"):
            subject.support(*(A,) * (n + 1))
        verify(subject, yes, no)
    for copy, y, x in kept:
        check(copy is not subject, 'copy is the operation')
        verify(copy, y, x)
        check((copy == subject) is ((y, x) == (yes, no)), f"{log}: the copy with {y}, {x} is equal or not")
    check(subject.copy() == subject, f"{log}: a copy is not equal")


class Bare:
    """An object with some attributes."""

    def __init__(self, **attributes):
        self.__dict__.update(attributes)

    def __repr__(self):
        return f"Bare({self.__dict__})"


@CASES.add(1500)
def operands(g):
    """Attributes of a sequence of operands."""
    names = ['p', 'q', 'r']
    these = [Bare(**{k: g.choice([1, 1, 2, 0, 'a']) for k in g.subset(names, 0.7)}) for _ in range(g.int(1, 4))]
    reference = Bare(**{k: f'reference {k}' for k in names}) if g.bool() else None
    ops = metadata.Operands(*these, reference=reference) if reference else metadata.Operands(*these)
    what = f"{these}"
    g.note(what)
    if len(these) > 1:
        g.nontrivial(what, reference is None)
    check(list(ops) == these and len(ops) == len(these) and ops.reference is (reference or these[0]), f"operands {what}")
    i = g.int(-len(these), len(these) - 1)
    check(ops[i] is these[i] and list(ops[1:]) == these[1:], f"parts of operands {what}")
    check(ops.types == (Bare,) * len(these), f"types of {what}: {ops.types}")
    check(ops == metadata.Operands(*g.shuffle(these)), f"{what} is not equal to itself in another order")
    check(not ops == metadata.Operands(*these[1:]), f"{what} is equal to fewer operands")
    if reference is not None:
        check(not ops == metadata.Operands(*these[1:], reference), f"{what} is equal to other operands")
    asked = g.sample(names, g.int(1, 3))
    has = lambda x, k: k in x.__dict__
    having = [x for x in these if all(has(x, k) for k in asked)]
    check(ops.find(*asked) == having, f"find{tuple(asked)} in {what}: {ops.find(*asked)}")
    check(ops.allhave(*asked) is (len(having) == len(these)), f"allhave{tuple(asked)} in {what}")
    agree = lambda xs: all(getattr(x, k) == getattr(xs[0], k) for x in xs for k in asked)
    if having and len(these) > 1:
        check(ops.agree(*asked) is agree(having), f"agree{tuple(asked)} of {what}: {ops.agree(*asked)}")
    if len(these) == 1:
        check(ops.agree(*asked) is True, f"one operand disagrees: {what}")
    elif len(having) == len(these):
        check(ops.agree(*asked, strict=True) is agree(these), f"strict agree{tuple(asked)} of {what}")
    k = asked[0]
    if not all(has(x, k) for x in these) and len(these) > 1:
        with raises(AttributeError, what=f"strict agree({k!r}) of {what}"):
            ops.agree(k, strict=True)
    own = [getattr(x, k) for x in these if has(x, k)]
    check(ops.getany(k) == next((v for v in own if v), None), f"getany({k!r}) of {what}: {ops.getany(k)}")
    check(metadata.consistent(k, *these) is (not own or all(v == own[0] for v in own)), f"consistent({k!r}) of {what}")
    if reference is not None:
        want = [getattr(x, k) if has(x, k) else getattr(reference, k) for x in these]
        check(ops.getall(k) == want, f"getall({k!r}) of {what}: {ops.getall(k)}, expected {want}")
    want = [getattr(x, k) if has(x, k) else x for x in these]
    check(ops.getall(k, mode='force') == want, f"getall({k!r}, 'force') of {what}")
    if len(own) == len(these):
        check(ops.getall(k, mode='strict') == own, f"getall({k!r}, 'strict') of {what}")
    else:
        with raises(AttributeError, what=f"getall({k!r}, 'strict') of {what}"):
            ops.getall(k, mode='strict')


class Thing:
    """An object with attributes that are numbers or text."""

    def __init__(self, value, label):
        self.value, self.label = value, label


@CASES.add(1500)
def factories(g):
    """Operators compute each registered attribute from those of the operands."""
    start = g.subset(['value', 'label'])
    factory = metadata.OperatorFactory(Thing, *start)
    other = metadata.OperatorFactory(Thing, 'value')
    known = list(start)
    if g.bool():
        factory['mul']
    for name in g.shuffle(['value', 'label']):
        if g.bool():
            if name not in known:
                known.append(name)
                r = factory.register(name)
                check(r is factory, 'register')
    g.note((start, known))
    check(factory.parameters == tuple(known), f"{known}: {factory.parameters}")
    pairs = [('mul', 'multiply'), ('sub', 'subtract'), ('truediv', 'true divide'), ('pow', 'power'), ('abs', 'absolute'), ('neg', 'negative'), ('lt', 'less')]
    key, alias = g.choice(pairs)
    check(factory[key] is factory[alias], f"{key} and {alias}")
    check(factory[key].parameters == tuple(known), f"{key}: {factory[key].parameters}")
    with raises(KeyError, what="unknown operation"):
        factory[g.choice(['', 'times', 'rmul'])]
    x, y = (Thing(g.choice([1, 2.5, -3]), g.choice(['a', 'b'])) for _ in range(2))
    g.nontrivial(repr((known, key, x.value, y.value, x.label, y.label)))
    got = factory.consistent(x, y)
    want = all(getattr(x, k) == getattr(y, k) for k in known)
    check(got is want, f"{known}: consistent {got}")
    check(factory.consistent(x, 2.0) and factory.consistent(x), "consistent with a number")
    if not want:
        with raises(ValueError, what="check of inconsistent operands"):
            factory.check(x, y)
    fs = {'mul': operator.mul, 'sub': operator.sub, 'truediv': operator.truediv, 'pow': pow, 'abs': abs, 'neg': operator.neg}
    if key == 'lt':
        check(factory[key].evaluate(x, y) is None, 'metadata of a comparison')
        return
    f = fs[key]
    unary = key in ('abs', 'neg')
    args = (x,) if unary else (x, y) if g.bool() else (x, 2)
    if unary:
        got = factory[key].evaluate(*args)
        want = {k: f(x.value) if k == 'value' else x.label for k in known}
        check(got == want, f"{key}: {got}, expected {want}")
        return
    vals = {k: [getattr(a, k) if isinstance(a, Thing) else a for a in args] for k in known}
    try:
        want = {k: f(*v) for k, v in vals.items()}
    except TypeError:
        want = None
    if want is None:
        with raises(TypeError, metadata.MetadataError, what=f"{key} of {vals}"):
            factory[key].evaluate(*args)
    else:
        got = factory[key].evaluate(*args)
        check(got == want, f"{key}: {got}, expected {want}")
    # Other types, and types that were suppressed, are refused.
    with raises(metadata.OperandTypeError, what="no operand of the type"):
        factory[key].evaluate(1, 2.0)
    factory[alias].suppress(Thing, type(args[1]))
    with raises(metadata.OperandTypeError, what="suppressed types"):
        factory[key].evaluate(*args)
    check(other[key].supports(Thing, type(args[1])), "another factory is affected")
    check(other.parameters == ('value',), "parameters of another factory")


def build(g, kind, unit, these):
    n = 1 if kind == 'Scalar' else 3
    data = [g.choice([1.5, 2.0, 0.25, 4.0]) for _ in range(n)]
    given = g.shuffle(sorted(these))
    name = given[0] if len(given) == 1 and g.bool() else g.choice([list, tuple])(given)
    meta = dict(unit=unit)
    if these != {''} or g.bool():
        meta['name'] = name
    if kind == 'Scalar':
        return physical.Scalar(data[0], **meta)
    return getattr(physical, kind)(data, **meta)


@CASES.add(2500)
def quantities(g):
    """The name of a quantity through a chain of operations."""
    kind = g.choice(['Scalar', 'Vector', 'Array'])
    x = aliases(g)
    q = build(g, kind, 'm', x)
    log = [kind, sorted(x)]
    steps = g.weighted([(2, 1), (3, 2), (1, 3)])
    for _ in range(steps):
        before, old = q, set(x)
        how = g.choice(['quantity', 'number', 'left', 'power', 'unary', 'inplace', 'alias', 'reset', 'sum', 'unit', 'copy'])
        log.append(how)
        if how == 'quantity':
            y = aliases(g)
            p = build(g, kind, 's', y)
            f = g.choice([operator.mul, operator.truediv])
            q, x = f(q, p), combined(BINARY[f], x, y)
            check(set(p.name) == y, f"{log}: the operand has the name {p.name}")
        elif how == 'sum':
            y = aliases(g) if g.bool(0.7) else set(x)
            p = build(g, kind, str(q.unit), y)
            f = g.choice([operator.add, operator.sub])
            q, x = f(q, p), combined(BINARY[f], x, y)
        elif how == 'number':
            f, n = g.choice([operator.mul, operator.truediv]), a_number(g)
            q, x = f(q, n), numerical(BINARY[f], x, n)
        elif how == 'left':
            n = a_number(g)
            q, x = n * q, numerical(' * ', x, n, True)
        elif how == 'power':
            positive = bool(numpy.all(numpy.asarray(q.data) > 0))
            n = g.choice([2, 3, -1, 0.5, 1] if positive else [2, 3, 1])
            if kind == 'Array' and n == 0.5 and g.bool():
                q, x = numpy.sqrt(q), (x if x == {''} else {f'{i}^1/2' for i in x})
            else:
                q, x = q ** n, numerical('^', x, n)
        elif how == 'unary':
            f = g.choice([operator.pos, operator.neg, abs])
            if kind == 'Scalar' and g.bool(0.3):
                f = g.choice([round, math.floor, math.ceil, math.trunc])
            q, x = f(q), (x if x == {''} else {UNARY[f].format(i) for i in x})
        elif how == 'inplace':
            n = a_number(g)
            if kind == 'Array':
                q = q * n
            else:
                # In-place operations change the object itself.
                q = type(q)(q)
                before = None
                q *= n
            x = numerical(' * ', x, n)
        elif how in ('alias', 'reset'):
            y = aliases(g, 0)
            before = None
            q = type(q)(q)
            r = q.alias(*sorted(y), reset=(how == 'reset'))
            check(r is q, f"{log}: alias returns another object")
            if how == 'alias':
                x = x | y
            else:
                x = y
        elif how == 'unit':
            q = q[str(q.unit)]
        else:
            q = type(q)(q)
        check(set(q.name) == x, f"{log}: name {sorted(q.name)}, expected {sorted(x)}")
        if g.bool(0.2):
            # What is done to the name that was read does not rename the quantity.
            q.name.add('another')
            check(set(q.name) == x, f"{log}: name {sorted(q.name)} after adding to a copy of it, expected {sorted(x)}")
        if before is not None:
            check(set(before.name) == old, f"{log}: the operand now has the name {before.name}")
        if len(next(iter(x))) > 60:
            break
    g.note(log)
    if steps > 1:
        g.nontrivial(repr(log))


PARAMETERS = ['lamo', 'mfp', 'E0', 'gamma', 'kper']


@CASES.add(1500)
def parameters(g):
    """Results depend on the parameters of all operands, in order."""
    sets = [g.sample(PARAMETERS, g.int(0, 3)) for _ in range(g.int(1, 4))]
    ps = []
    for names in sets:
        given = list(names) + (g.subset(names, 0.3) if names else [])
        p = g.choice([lambda: observing.Parameters(*given), lambda: observing.Parameters(given)])()
        check(list(p) == names and len(p) == len(names), f"{given} became {p}")
        check(all(n in p for n in names) and not any(n in p for n in PARAMETERS if n not in names), f"{given}: membership in {p}")
        ps.append(p)
    a = ps[0]
    other = g.shuffle(list(sets[0]))
    check(a == other and not a != other and a == observing.Parameters(*other), f"{a} and {other} are different")
    check(hash(a) == hash(observing.Parameters(*other)), f"{a} and {other} have different hashes")
    for names, p in zip(sets[1:], ps[1:]):
        check((a == p) == (set(names) == set(sets[0])), f"{a} == {p} is {a == p}")
        want = sets[0] + [n for n in names if n not in sets[0]]
        for f in (operator.mul, operator.truediv):
            check(list(f(a, p)) == want, f"{f.__name__} of {a} and {p} has {f(a, p)}")
        for f in (operator.add, operator.sub):
            if set(names) == set(sets[0]):
                check(f(a, p) == a, f"{f.__name__} of {a} and {p} has {f(a, p)}")
            else:
                with raises(TypeError, what=f"{f.__name__} of {a} and {p}"):
                    f(a, p)
    x = g.choice([2, 0.5, -1, 3.0])
    for what, r in (('a number times', x * a), ('times a number', a * x), ('over a number', a / x), ('power', a ** x), ('minus', -a), ('plus', +a), ('size', abs(a))):
        check(list(r) == sets[0], f"{what}: {a} became {r}")
    with raises(TypeError, what='a name that is no text'):
        observing.Parameters(*sets[0], g.choice([1, 2.5, b'lamo']))
    # variables with parameters
    qs = [observing.Quantity(numpy.array([1.0, 2.0]), dimensions=['x'], unit='m', parameters=names) for names in sets]
    q, want = qs[0], list(sets[0])
    for names, other in zip(sets[1:], qs[1:]):
        f = g.choice([operator.mul, operator.truediv])
        q = f(q, other)
        want = want + [n for n in names if n not in want]
    if g.bool():
        q = g.choice([lambda: q ** 2, lambda: 3 * q, lambda: q / 2.0, lambda: -q, lambda: q['cm' if len(sets) == 1 else str(q.unit)]])()
    check(list(q.parameters) == want, f"a chain over {sets} depends on {q.parameters}")
    copied = observing.Quantity(q)
    check(list(copied.parameters) == want, f"the copy of a quantity that depends on {want} depends on {copied.parameters}")
    check(copied.unit == q.unit and tuple(copied.dimensions) == tuple(q.dimensions), f"a copy has {copied.unit} {copied.dimensions}")
    g.note(sets)
    if len(sets) > 1:
        g.nontrivial(str(sets))
