"""Groups of aliases, and mappings with aliased keys."""

from goats.core import aliased

from pbt.case import Cases
from pbt.engine import check, raises

CASES = Cases()
RULE = (
    "histories in which a group of several names is used, and collections with"
    " at least two groups; distinct by the generated operations"
)
ASSUMPTIONS = [
    "keys are strings; definitions give each name to at most one group",
    "aliases are requested for existing keys; registering a name that is already"
    " in use for the same key is left open",
    "mappings that are combined have equal or disjoint groups",
]

NAMES = ['a', 'b', 'c', 'ab', 'bc', 'A', 'B', 'time', 't', 'T', 'x y', 'r', 'radius', 'R', 'v', 'name']


def partition(g, names=None, most=4):
    """Disjoint non-empty groups of names."""
    names = g.shuffle(list(NAMES if names is None else names))
    groups = []
    for _ in range(g.int(0 if most > 1 else 1, most)):
        n = g.int(1, 4)
        if len(names) < n:
            break
        groups.append([names.pop() for _ in range(n)])
    return groups


def form(g, names):
    """An object equivalent to a group of names."""
    names = g.shuffle(list(names))
    kinds = ['tuple', 'list', 'set', 'group', 'starred']
    if len(names) == 1:
        kinds.append('str')
    kind = g.choice(kinds)
    if kind == 'str':
        return names[0]
    if kind == 'list':
        return list(names)
    if kind == 'set':
        return set(names)
    if kind == 'group':
        return aliased.Group(tuple(names))
    if kind == 'starred':
        return aliased.Group(*names)
    return tuple(names)


@CASES.add(2500)
def groups(g):
    """The algebra of groups is that of sets."""
    x = g.subset(NAMES[:6], 0.5) or ['a']
    y = g.subset(NAMES[:6], 0.5) or ['b']
    left = aliased.Group(form(g, x))
    right = form(g, y)
    sx, sy = set(x), set(y)
    g.note(('group', x, y))
    g.nontrivial(len(sx | sy) > 1, ('group', tuple(sorted(x)), tuple(sorted(y)), str(type(right))))
    check(len(left) == len(sx), 'length')
    check(set(left) == sx, 'members')
    for n in NAMES[:6]:
        check((n in left) == (n in sx), f'membership of {n}')
    for name, result, expected in [
        ('or', left | right, sx | sy),
        ('and', left & right, sx & sy),
        ('sub', left - right, sx - sy),
        ('xor', left ^ right, sx ^ sy),
    ]:
        check(set(result) == expected, f'{name}: {set(result)} instead of {expected}')
        check(isinstance(result, aliased.Group), f'{name}: type')
    check((left == right) == (sx == sy), 'equality')
    check((left != right) == (sx != sy), 'inequality')
    check(left.isdisjoint(right) == sx.isdisjoint(sy), 'disjoint')
    check(set(left) == sx, 'an operation changed its operand')
    same = aliased.Group(tuple(g.shuffle(list(sx))))
    check(left == same and hash(left) == hash(same), 'hash of equal groups')
    check(len({left, same}) == 1, 'equal groups in a set')
    for n in sx:
        check(repr(n) in str(left) and repr(n) in repr(left), 'representation')
    with raises(TypeError):
        aliased.Group()


def find(model, name):
    for s in model:
        if name in s:
            return s


def same_groups(these, model, what):
    got = [set(i) for i in these]
    check(len(got) == len(model) and all(s in got for s in model), f'{what}: {got} instead of {model}')
    check(all(isinstance(i, aliased.Group) for i in these), f'{what}: not groups')


@CASES.add(2500)
def collections(g):
    """Histories of a collection of groups."""
    start = partition(g)
    these = aliased.Groups(*[form(g, s) for s in start])
    model = [set(s) for s in start]
    used = []
    for _ in range(g.int(1, 8)):
        op = g.choice(['add', 'discard', 'find', 'without', 'merge', 'update', 'contains'])
        if op == 'add':
            new = g.choice(partition(g, most=3) or [['zz']])
            f = form(g, new)
            if isinstance(f, str):
                f = (f,)
            if any(find(model, n) for n in new):
                with raises(ValueError):
                    these.add(f)
            else:
                these.add(f)
                model.append(set(new))
        elif op == 'discard':
            n = g.choice(NAMES)
            if model and g.bool(0.4):
                s = g.choice(model)
                these.discard(aliased.Group(tuple(s)))
                model.remove(s)
            else:
                these.discard(n)
                model = [s for s in model if n not in s]
        elif op == 'find':
            n = g.choice(NAMES)
            default = g.choice([None, 'nothing'])
            found = these.find(n, default)
            s = find(model, n)
            check(found == default if s is None else set(found) == s, f'find {n}: {found}')
            if model:
                s = g.choice(model)
                check(set(these.find(form(g, s))) == s, 'find a group')
        elif op == 'without':
            names = g.subset(NAMES, 0.2)
            keys = list(names)
            expected = [s for s in model if not s & set(names)]
            if expected and g.bool():
                s = g.choice(expected)
                keys.append(aliased.Group(tuple(g.shuffle(list(s)))))
                expected = [e for e in expected if e != s]
            if keys:
                same_groups(these.without(*keys), expected, 'without')
        elif op in ('merge', 'update'):
            others, flat = [], []
            for _ in range(g.int(0, 3)):
                part = partition(g, most=2)
                if g.bool(0.4):
                    others.append(aliased.Groups(*[form(g, s) for s in part]))
                    flat += part
                elif part:
                    others.append(form(g, part[0]))
                    flat.append(part[0])
            expected = [set(s) for s in model]
            for s in flat:
                shared = [e for e in expected if e & set(s)]
                expected = [e for e in expected if e not in shared]
                expected.append(set(s).union(*shared))
            if op == 'merge':
                same_groups(these.merge(*others), expected, 'merge')
            else:
                these.update(*others)
                model = expected
        else:
            n = g.choice(NAMES)
            check((n in these) == (find(model, n) is not None), f'contains {n}')
            if model:
                s = sorted(g.choice(model))
                check(form(g, s) in these, 'contains a group')
                if len(s) > 2:
                    check(tuple(s[1:]) not in these, 'contains a part of a group')
                check((*s, 'nowhere') not in these, 'contains more than a group')
        used.append(op)
        check(len(these) == len(model), f'length after {op}')
        same_groups(these, model, op)
        check(sorted(these.flat) == sorted(n for s in model for n in s), f'flat after {op}')
    g.note(('groups', start, used))
    g.nontrivial(len(start) > 1, ('groups', str(start), tuple(used)))
    other = aliased.Groups(*[form(g, s) for s in g.shuffle(list(model))])
    check(these == other, 'equal collections')


class Model:
    """A list of groups and values."""

    def __init__(self, pairs=()):
        self.pairs = [[set(s), v] for s, v in pairs]

    def find(self, n):
        for p in self.pairs:
            if n in p[0]:
                return p

    def copy(self):
        return Model(self.pairs)


def text(v):
    return repr(sorted(v.items()) if isinstance(v, dict) else v)


def same_mapping(g, m, model, what):
    """The mapping shows the contents of the model."""
    flat = {n: v for s, v in model.pairs for n in s}
    check(len(m) == len(flat), f'{what}: length')
    check(sorted(m) == sorted(flat), f'{what}: {sorted(m)} instead of {sorted(flat)}')
    check(m.flat == flat, f'{what}: {m.flat} instead of {flat}')
    check(dict(m.items()) == flat, f'{what}: items')
    check(sorted(m.keys()) == sorted(flat), f'{what}: keys')
    check(len(m.keys()) == len(flat) and len(m.values()) == len(flat), f'{what}: length of a view')
    check(sorted(map(text, m.values())) == sorted(map(text, flat.values())), f'{what}: values')
    grouped = [set(k) for k in m.keys(aliased=True)]
    check(sorted(map(sorted, grouped)) == sorted(sorted(s) for s, _ in model.pairs), f'{what}: grouped keys {grouped}')
    check(len(m.values(aliased=True)) == len(model.pairs), f'{what}: number of grouped values')
    check(
        sorted((sorted(k), text(v)) for k, v in m.items(aliased=True))
        == sorted((sorted(s), text(v)) for s, v in model.pairs),
        f'{what}: grouped items',
    )
    for n in NAMES:
        p = model.find(n)
        check((n in m) == (p is not None), f'{what}: contains {n}')
        if p is None:
            check(m.get(n, 'nothing') == 'nothing', f'{what}: get {n}')
            with raises(KeyError):
                m[n]
        else:
            check(m[n] is p[1] or m[n] == p[1], f'{what}: item {n}')
            check(m.get(n) == p[1], f'{what}: get {n}')
            check(set(m.alias(n)) == p[0] - {n}, f'{what}: alias of {n}')
            check(set(m.alias(n, include=True)) == p[0], f'{what}: all aliases of {n}')
    for s, v in model.pairs:
        k = aliased.Group(tuple(g.shuffle(list(s))))
        check(k in m and m[k] == v, f'{what}: item of a group')
        if len(s) > 1:
            with raises(KeyError):
                m[tuple(s)]
        longer = aliased.Group(*s, 'nowhere')
        check(longer not in m, f'{what}: contains a group that it does not have')


def value(g):
    return g.choice([g.int(-99, 99), g.text('abc', 3), None, 0.0, {'n': g.int(0, 3)}, {'aliases': 'q', 'n': 1}])


def definition(g, groups, values, kind):
    """Arguments that define a mapping of groups to values."""
    if kind == 'grouped':
        keys = []
        for s in groups:
            f = form(g, s)
            keys.append(tuple(g.shuffle(list(s))) if isinstance(f, (list, set)) else f)
        return ({k: v for k, v in zip(keys, values)},)
    if kind == 'interior':
        key = g.choice(['aliases', 'other'])
        out = {}
        for s, v in zip(groups, values):
            first, rest = s[0], s[1:]
            d = dict(v)
            if rest or g.bool():
                d[key] = rest[0] if len(rest) == 1 and g.bool() else g.choice([tuple, list])(rest)
            if not rest and key in d:
                d[key] = g.choice([first, (first,)])
            out[first] = dict(g.shuffle(list(d.items())))
        return (out, key) if key == 'other' or g.bool() else (out,)
    keyed = {s[0]: v for s, v in zip(groups, values)}
    every = [tuple(s) for s in groups if len(s) > 1 or g.bool()]
    if kind == 'groups':
        return keyed, aliased.Groups(*every, ('p', 'q'))
    return keyed, aliased.Mapping({t: 0 for t in [*every, ('p', 'q')]})


def build(g, cls):
    groups = partition(g)
    kind = g.choice(['grouped', 'grouped', 'interior', 'groups', 'mapping'])
    if kind == 'interior':
        values = [{'n': g.int(0, 9), **({'m': 2} if g.bool() else {})} for _ in groups]
        implicit = True
    else:
        values = [value(g) for _ in groups]
        implicit = False
    if kind == 'grouped':
        # A value with 'aliases' is a definition of aliases.
        values = [v if not (isinstance(v, dict) and 'aliases' in v) else 'v' for v in values]
    args = definition(g, groups, values, kind)
    if kind == 'interior' and len(args) == 1 and not any('aliases' in v for v in args[0].values()):
        args = (*args, 'aliases')
    return cls(*args), Model(zip(groups, values)), (kind, groups, implicit)


@CASES.add(3000)
def mappings(g):
    """A mapping gives the value of each group under every name."""
    m, model, info = build(g, aliased.Mapping)
    g.note(('mapping', info))
    g.nontrivial(any(len(s) > 1 for s in info[1]), ('mapping', str(info)))
    same_mapping(g, m, model, f'{info[0]} definition')
    same_mapping(g, m.copy(), model, 'copy')
    same_mapping(g, aliased.Mapping(m), model, 'mapping of a mapping')
    again = aliased.Mapping(aliased.MutableMapping(m))
    check(m == again, 'equal mappings')
    check(m == m.flat, 'equal to the flat dictionary')
    check(repr(m) and str(m) is not None, 'representation')
    if model.pairs:
        different = model.copy()
        different.pairs[0][1] = 'something else'
        other = aliased.Mapping({tuple(s): v if not isinstance(v, dict) else 1 for s, v in different.pairs})
        check(m != other, 'different mappings')
    # Keys alone
    fill = g.choice([None, 0, -1.0, 'x'])
    filled = Model((s, fill) for s, _ in model.pairs)
    same_mapping(g, aliased.Mapping.fromkeys([tuple(s) for s, _ in model.pairs], value=fill), filled, 'fromkeys of tuples')
    same_mapping(g, aliased.Mapping.fromkeys(aliased.Groups(*[tuple(s) for s, _ in model.pairs]), value=fill), filled, 'fromkeys of groups')
    same_mapping(g, aliased.Mapping.fromkeys(m, value=fill), filled, 'fromkeys of a mapping')
    keys = aliased.keysfrom(m)
    check(sorted(sorted(k) for k in keys) == sorted(sorted(s) for s, _ in model.pairs), 'keysfrom')
    # Combinations
    rest = [n for n in NAMES if not model.find(n)]
    extra = partition(g, rest, most=2)
    shared = g.subset(model.pairs, 0.3)
    pairs = [(s, g.int(100, 200)) for s in [*extra, *[list(p[0]) for p in shared]]]
    second = aliased.Mapping({tuple(g.shuffle(list(s))): v for s, v in pairs})
    expected = model.copy()
    for s, v in pairs:
        p = expected.find(list(s)[0])
        if p:
            p[1] = v
        else:
            expected.pairs.append([set(s), v])
    same_mapping(g, m | second, expected, 'combination')
    same_mapping(g, m, model, 'operand of a combination')


@CASES.add(500)
def squeezed(g):
    """Squeezing replaces singleton interior mappings."""
    groups = partition(g) or [['a', 'b']]
    keys = g.choice([['n'], ['n', 'm']])
    values = [{g.choice(keys): g.int(0, 9)} for _ in groups]
    if g.bool(0.3):
        values[g.int(0, len(values) - 1)] = {'n': 1, 'm': 2}
    g.note(('squeeze', groups, values))
    g.nontrivial(len(groups) > 1, ('squeeze', str(groups), str(values)))
    strict = g.bool()
    model = Model(zip(groups, values))
    m = aliased.Mapping({tuple(s): dict(v) for s, v in zip(groups, values)})
    if all(len(v) == 1 for v in values):
        if strict and len({k for v in values for k in v}) > 1:
            with raises(TypeError):
                m.squeeze(strict=True)
        else:
            model = Model((s, list(v.values())[0]) for s, v in zip(groups, values))
            m = m.squeeze(strict=strict)
    else:
        m = m.squeeze(strict=strict)
    same_mapping(g, m, model, 'squeeze')


@CASES.add(4000)
def histories(g):
    """A mutable mapping under any sequence of operations."""
    m, model, info = build(g, aliased.MutableMapping)
    others = []
    ops = []
    for _ in range(g.int(1, 9)):
        op = g.choice(['set', 'del', 'alias', 'conflict', 'pop', 'update', 'setdefault', 'copy', 'freeze', 'clear', 'popitem'])
        n = g.choice(NAMES)
        p = model.find(n)
        if op == 'set':
            v = value(g)
            m[n] = v
            if p:
                p[1] = v
            else:
                model.pairs.append([{n}, v])
        elif op == 'del':
            if p:
                del m[n]
                model.pairs.remove(p)
            else:
                with raises(KeyError):
                    del m[n]
        elif op == 'alias' and p:
            free = [x for x in NAMES if not model.find(x)]
            new = g.subset(free, 0.2)
            if new:
                m.alias(n, *g.shuffle(list(new)))
                p[0] |= set(new)
        elif op == 'conflict' and p:
            taken = [x for q in model.pairs if q is not p for x in q[0]]
            if taken:
                with raises(KeyError):
                    m.alias(n, g.choice(taken))
        elif op == 'pop':
            if p:
                got = m.pop(n)
                check(got == p[1], f'pop {n}: {got}')
                model.pairs.remove(p)
            else:
                with raises(KeyError):
                    m.pop(n)
                check(m.pop(n, 'nothing') == 'nothing', 'pop with a default')
        elif op == 'update':
            new = {x: g.int(0, 99) for x in g.subset(NAMES, 0.15)}
            m.update(new)
            for x, v in new.items():
                q = model.find(x)
                if q:
                    q[1] = v
                else:
                    model.pairs.append([{x}, v])
        elif op == 'setdefault':
            got = m.setdefault(n, 7)
            check(got == (p[1] if p else 7), f'setdefault {n}')
            if not p:
                model.pairs.append([{n}, 7])
        elif op == 'copy':
            others.append((m.copy(), model.copy(), 'copy'))
            if g.bool():
                new, old = others[-1], (m, model, 'original')
                m, model = new[0], new[1]
                others[-1] = old
        elif op == 'freeze':
            others.append((aliased.Mapping(m), model.copy(), 'frozen mapping'))
        elif op == 'clear' and g.bool(0.2):
            m.clear()
            model.pairs.clear()
        elif op == 'popitem' and model.pairs:
            k, v = m.popitem()
            q = model.find(k)
            check(q is not None and q[1] == v, f'popitem: {k}, {v}')
            model.pairs.remove(q)
        ops.append(op)
        same_mapping(g, m, model, f'after {op}')
    g.note(('history', info, ops))
    g.nontrivial(any(len(s) > 1 for s, _ in model.pairs), ('history', str(info), tuple(ops)))
    for other, known, what in others:
        same_mapping(g, other, known, what)


@CASES.add(1500)
def names(g):
    """A map of aliases to canonical names."""
    groups = partition(g, most=5)
    refs = [g.choice(s) for s in groups]
    kind = g.choice(['iterables', 'names', 'mapping', 'interior'])
    key = 'aliases'
    if kind == 'iterables':
        # Definitions may include groups without a canonical name.
        used = {n for s in groups for n in s}
        spare = [n for n in NAMES if n not in used][:2]
        defs = [tuple(g.shuffle(list(s))) for s in groups if len(s) > 1 or g.bool()]
        if len(spare) == 2 and g.bool():
            defs.append(tuple(spare))
        defs = g.shuffle(defs)
        r = g.choice([list(refs), tuple(refs), {n: 0 for n in refs}])
        nm = aliased.NameMap(defs, r)
    elif kind == 'names':
        defs = {n: tuple(x for x in s if x != n or g.bool()) for n, s in zip(refs, groups)}
        nm = aliased.NameMap(defs, refs) if g.bool() else aliased.NameMap(defs)
    elif kind == 'mapping':
        defs = {n: tuple(x for x in s if x != n) for n, s in zip(refs, groups)}
        defs = {n: v[0] if len(v) == 1 and g.bool() else list(v) for n, v in defs.items()}
        nm = aliased.NameMap(defs)
    else:
        key = g.choice(['aliases', 'also'])
        defs = {}
        for n, s in zip(refs, groups):
            v = [x for x in s if x != n]
            defs[n] = {'unit': 'm', 'also' if key == 'aliases' else 'aliases': ['zzz']}
            if v or g.bool():
                defs[n][key] = v[0] if len(v) == 1 and g.bool() else v
        nm = aliased.NameMap(defs, key=key)
    g.note(('names', kind, groups, refs))
    g.nontrivial(any(len(s) > 1 for s in groups), ('names', kind, str(groups), tuple(refs)))
    expected = {x: n for n, s in zip(refs, groups) for x in s}

    def same(nm, what):
        check(len(nm) == len(expected), f'{what}: length')
        check(sorted(nm) == sorted(expected), f'{what}: {sorted(nm)} instead of {sorted(expected)}')
        check(dict(nm.items()) == expected, f'{what}: items')
        check(
            sorted((sorted(k), v) for k, v in nm.items(aliased=True))
            == sorted((sorted(s), n) for n, s in zip(refs, groups)),
            f'{what}: grouped items',
        )
        for x in NAMES:
            check((x in nm) == (x in expected), f'{what}: contains {x}')
            if x in expected:
                check(nm[x] == expected[x], f'{what}: {x} is {nm[x]}')
            else:
                with raises(KeyError):
                    nm[x]

    same(nm, 'name map')
    same(nm.copy(), 'copy of a name map')
    other = nm.copy().invert()
    for n, s in zip(refs, groups):
        check(sorted(other[n]) == sorted(s), f'inverted: {n} is {other[n]}')
    same(nm, 'name map after inverting a copy')
