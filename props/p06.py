"""Conversions cohere with each other, whatever was asked for before."""

import math
from fractions import Fraction

from goats.core import metric

from pbt.case import Cases
from pbt.engine import check
from pbt import units

CASES = Cases()
RULE = (
    "a history of at least four requests over at least two units of different"
    " size; distinct by the history"
)


def triple(g):
    a = units.compound(g, 1, 3)
    return a, units.substitute(g, a), units.substitute(g, a)


def same(x, y, rel=1e-9):
    return units.same(x, y, rel)


@CASES.add(4800)
def coherence(g):
    """Inverse, chain, product, and power relations between factors."""
    a, b, c = triple(g)
    ta, tb, tc = (units.text(g, x) for x in (a, b, c))
    g.note(repr(ta), repr(tb), repr(tc))
    g.nontrivial(ta, tb, tc)
    conv = metric.conversion
    if g.bool():
        back = float(metric.Conversion(ta, tb).inverse)
        check(same(back, conv(tb, ta)), f"the inverse of {ta!r} -> {tb!r} is {back}")
    ab, ba, bc, ac = conv(ta, tb), conv(tb, ta), conv(tb, tc), conv(ta, tc)
    for name, f in (('a->b', ab), ('b->a', ba), ('b->c', bc), ('a->c', ac)):
        check(f is not None, f"{name} is undefined for {ta!r}, {tb!r}, {tc!r}")
    check(same(ab * ba, 1.0), f"{ta!r} -> {tb!r} -> {ta!r} is {ab * ba}")
    check(same(ab * bc, ac), f"{ta!r} -> {tb!r} -> {tc!r}: {ab * bc} but directly {ac}")
    check(same(conv(ta, ta), 1.0), "identity factor")
    check(same(float(metric.Conversion(ta, tb).inverse), ba), "inverse property")
    check(bool(metric.Conversion(ta, tb)), "a defined conversion is falsy")
    n = g.choice([2, 3, -1, -2, Fraction(1, 2)])
    if units.moderate([units.Factor(f.prefix, f.unit, f.exp * n) for f in a + b]):
        pa, pb = f"({ta})^{n}", f"({tb})^{n}"
        got = conv(pa, pb)
        check(got is not None and same(got, ab ** float(n)), f"{pa!r} -> {pb!r}: {got}, expected {ab ** float(n)}")


OPS = ['unit', 'named', 'convert', 'convert', 'inverse', 'ratio', 'refuse', 'algebra', 'again', 'equal', 'consistent', 'properties']


@CASES.add(4800)
def histories(g):
    """The answer to a request does not depend on earlier requests."""
    pool = []
    for _ in range(g.int(2, 4)):
        a = units.compound(g, 1, 2)
        pool.append((a, units.substitute(g, a)))
    seen, log = {}, []
    for _ in range(g.size(4, 16, 8)):
        op = g.choice(OPS)
        a, b = g.choice(pool)
        ta, tb = units.text(g, a), units.text(g, b)
        if op == 'unit':
            # One object per product of unit symbols, however it is arranged.
            ta = units.text(g, a, names=False)
            u = metric.Unit(ta)
            text = str(u)
            key = ('unit', units.dims(a), tuple(sorted(f.symbol + str(f.exp) for f in a)))
            check(seen.setdefault(key, u) is u, f"{ta!r} made another instance of {text!r}")
            log.append(f"Unit({ta!r})")
        elif op == 'named':
            f = g.choice(a)
            u = metric.NamedUnit(g.choice([f.symbol, f.name]))
            key = ('named', f.symbol)
            check(seen.setdefault(key, u) is u, f"{f.symbol!r} made another instance")
            log.append(f"NamedUnit({f.symbol!r})")
        elif op == 'convert':
            got = metric.conversion(ta, tb)
            want = units.log_si(a) - units.log_si(b)
            check(got is not None, f"{ta!r} -> {tb!r} is undefined after {log}")
            check(units.near(math.log10(got), want), f"{ta!r} -> {tb!r}: {got} after {log}")
            key = ('convert', ta, tb)
            check(seen.setdefault(key, got) == got, f"{ta!r} -> {tb!r} changed: {seen[key]} then {got}")
            log.append(f"{ta!r}->{tb!r}")
        elif op == 'inverse':
            c = metric.Conversion(ta, tb)
            if g.bool():
                c, a, b = c.inverse, b, a
            got = float(c.inverse)
            want = units.log_si(b) - units.log_si(a)
            check(units.near(math.log10(got), want), f"the inverse of {ta!r} -> {tb!r} is {got} after {log}")
            log.append(f"inverse({ta!r}->{tb!r})")
        elif op == 'ratio':
            got = metric.Unit(ta) // metric.Unit(tb)
            want = units.log_si(b) - units.log_si(a)
            check(units.near(math.log10(got), want), f"{ta!r} // {tb!r} is {got} after {log}")
            log.append(f"{ta!r}//{tb!r}")
        elif op == 'refuse':
            other = f"({ta}) * {g.choice(['K^5', 'mol^7', 'K^-5'])}"
            got = metric.conversion(other, tb)
            check(got is None, f"{other!r} -> {tb!r}: {got}")
            log.append(f"{other!r}-/>{tb!r}")
        elif op == 'algebra':
            other = g.choice(pool)[0]
            to = units.text(g, other)
            u, v = metric.Unit(ta), metric.Unit(to)
            before = (str(u), str(v))
            (u * v, u / v, u ** 2)
            check((str(u), str(v)) == before, f"an operand changed: {before} -> {(str(u), str(v))}")
            log.append(f"algebra({ta!r}, {to!r})")
        elif op == 'equal':
            u = metric.Unit(ta)
            got = (u == tb, metric.Unit(tb) == ta)
            key = ('equal', str(u), str(metric.Unit(tb)))
            check(seen.setdefault(key, got) == got, f"{ta!r} == {tb!r} changed to {got}")
            log.append(f"{ta!r}=={tb!r}")
        elif op == 'consistent':
            check(metric.Unit(ta) | tb, f"{ta!r} | {tb!r} is false")
            log.append(f"{ta!r}|{tb!r}")
        elif op == 'properties':
            u = metric.Unit(ta)
            got = (str(u), str(u.quantity), {k: str(v) for k, v in u.dimensions.items()}, u.dimensionless)
            # The returned collections are private copies.
            norm = u.norm
            norm.clear()
            check(set(u.norm) == {'mks', 'cgs'}, "clearing a copy of the norm changed the unit")
            named = metric.NamedUnit(g.choice(['km', 'm', 'eV', 'day', 'nT', 'uC', 'G', 'erg']))
            norm = named.norm
            norm.clear()
            check(set(named.norm) == {'mks', 'cgs'}, "clearing a copy of the norm changed the named unit")
            key = ('properties', str(u))
            check(seen.setdefault(key, got) == got, f"properties of {ta!r} changed: {seen[key]} then {got}")
            log.append(f"properties({ta!r})")
        else:
            for key, got in list(seen.items()):
                if key[0] == 'convert':
                    check(metric.conversion(key[1], key[2]) == got, f"{key[1:]} changed after {log}")
            log.append('again')
    g.note(' ; '.join(log))
    if len(log) > 3:
        g.nontrivial(tuple(log))
