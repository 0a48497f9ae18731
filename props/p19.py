"""Run parameters: configuration files, defaults, names, and units."""

import math
import os
import re

import numpy

from goats.core import metadata
from goats.core import operational
from goats.core import physical
from goats.eprem import runtime

from pbt import eprem as data
from pbt.case import Cases
from pbt.defaults import CONSTANTS, LOCAL, PARAMETERS
from pbt.engine import check, raises

CASES = Cases()
RULE = (
    "parameters read after a generated configuration file gave them, or"
    " something their default depends on, a value; distinct by parameter and"
    " value"
)
ASSUMPTIONS = [
    "configuration files hold one 'name = value' per line, with literal values"
    " of the kind of the parameter; lists are in brackets; names are not"
    " repeated; comment characters occur only in comments",
    "an integer parameter given as a decimal number keeps its size; its type is"
    " not checked",
    "the units of speeds whose published default is in cm/s (flowMag,"
    " idealShockSpeed) are not checked",
]

PROCS = object()


def constant(name):
    """The value of a published constant, evaluated as C would."""
    text = CONSTANTS[name]
    if re.fullmatch(r'\d+', text):
        return int(text)
    return evaluate(text)


def evaluate(text, parameters=None):
    """Evaluate a C expression of constants and other parameters."""
    if text == 'N_PROCS':
        return None
    if text == 'third':
        return 1 / 3
    def name(m):
        k = m.group()
        if k.startswith('config.'):
            return f"parameter({k[7:]!r})"
        return f"constant({k!r})" if k in CONSTANTS else k
    text = re.sub(r'(?<![\w.])[A-Za-z_][\w.]*', name, text)
    return eval(text, {'constant': constant, 'parameter': parameters, 'sqrt': math.sqrt})


def values(given):
    """The expected value of every parameter."""
    def parameter(k):
        kind, default, _, _ = PARAMETERS[k]
        if k in given:
            return given[k]
        if kind == 'String':
            return default
        if kind == 'DoubleArray':
            return [float(i) for i in default.strip('[]').split(',')]
        value = evaluate(default, parameter)
        return int(value) if kind == 'Int' and value is not None else value
    return {k: parameter(k) for k in PARAMETERS}


def number(g, kind):
    """A number and its text."""
    if kind == 'Int':
        n = g.choice([0, 1, 2, g.int(-9, 9), g.int(0, 10**6)])
        if g.bool(0.1):
            return float(n), g.choice([f"{n}.0", f"{float(n):e}" if abs(n) < 10 else f"{n}."])
        return n, g.choice([str(n), f"{n:+d}" if n > 0 else str(n)])
    form = g.int(0, 5)
    x = g.choice([0.0, 1.0, 0.5, g.pos(), -g.pos(), float(g.int(0, 300))])
    text = [repr(x), f"{x:.6e}", f"{x:.3f}", f"{x:.2E}", str(int(x)) if abs(x) < 1e15 else repr(x), f"{x:g}"][form]
    return float(text), text


def setting(g, name):
    """A value for a parameter and its text."""
    kind = PARAMETERS[name][0]
    if kind == 'String':
        text = g.choice(['/a/b', 'my file.txt', 'x=1', '12', 'lamo', '0', 'config.lamo', '[1, 2]'])
        return text, text
    if kind == 'DoubleArray':
        items = [number(g, 'Double') for _ in range(g.int(1, 4))]
        return [x for x, _ in items], '[' + g.choice([', ', ',', ' , ']).join(t for _, t in items) + ']'
    return number(g, kind)


LIKELY = ['lamo', 'simStartTime', 'tDel', 'simStopTime', 'mass', 'charge', 'numNodesPerStream', 'rigidityPower', 'epCalcStartTime', 'idealShockInitTime', 'omegaSun', 'masDirectory', 'warningsFile', 'useStochastic', 'unifiedOutput']


def configuration(g, path, marks=('#',)):
    """Write a configuration file; return the values, texts, and names in order."""
    names = g.subset(LIKELY, 0.4) + [k for k in g.sample(list(PARAMETERS), g.int(0, 6))]
    names = g.shuffle(sorted(set(names)))
    given, texts, lines = {}, {}, []
    for k in names:
        if g.bool(0.3):
            lines.append(g.choice(['', '   ', g.choice(marks) + ' note', '  ' + g.choice(marks) + 'lamo = 77', g.choice(marks)]))
        given[k], texts[k] = setting(g, k)
        line = k + g.choice(['=', ' = ', '= ', '\t=\t']) + texts[k]
        if g.bool(0.3):
            line += g.choice([' ', ' ', '']) + g.choice(marks) + g.choice([' km', ' a=b', '', ' # x'])
        lines.append(g.choice(['', '', '  ']) + line + g.choice(['', '', '  ']))
    path.write_text('\n'.join(lines) + g.choice(['', '\n']))
    return given, texts, names


def same(got, want):
    if want is None or isinstance(want, str):
        return got is want or got == want and type(got) is type(want)
    if isinstance(want, list):
        got = numpy.array(got, ndmin=1)
        return got.shape == (len(want),) and numpy.allclose(got, want, rtol=1e-12, atol=0)
    return numpy.ndim(got) == 0 and numpy.allclose(got, want, rtol=1e-12, atol=0)


def dependent(name, given):
    return name in given or 'config.simStartTime' in PARAMETERS[name][1] and ('simStartTime' in given or 'tDel' in given)


@CASES.add(220)
def runs(g):
    """Runtime mappings through changes of their configuration file."""
    where = data.scratch(g)
    r = None
    marks = g.choice([('#',), ('#', '!'), ('!',)])
    opts = {} if marks == ('#',) and g.bool() else {'comments': list(marks)}
    for i in range(g.int(1, 3)):
        path = where / f'config{i}'
        given, texts, names = configuration(g, path, marks)
        g.note(path.read_text())
        if g.bool(0.15):
            given, texts, names, path = {}, {}, [], None
        if r is None:
            r = runtime.Runtime(config_path=path, **opts)
        else:
            check(r.path_to(config=path) is r, "path_to does not return the mapping")
        check(r.path_to('config') == path, f"path_to('config') is {r.path_to('config')}")
        want = values(given)
        check(set(r) == set(want), f"parameters {set(r) ^ set(want)}")
        for k in want:
            got = r[k]
            check(same(got, want[k]), f"{k} is {got!r} with {texts}, expected {want[k]!r}")
            if PARAMETERS[k][0] == 'Int' and isinstance(want[k], int):
                check(isinstance(got, int), f"{k} is {got!r}, not an integer")
            if dependent(k, given):
                g.nontrivial(k, str(want[k]))
        with raises(KeyError, what="an unknown parameter"):
            r['no such parameter']


@CASES.add(220)
def interfaces(g):
    """The aliased interface: names, values, and units."""
    path = data.scratch(g) / g.choice(['config', 'eprem_input_file', 'a b.cfg'])
    marks = g.choice([('#',), ('#', '!'), ('!',)])
    opts = {} if marks == ('#',) and g.bool() else {'comments': list(marks)}
    given, texts, names = configuration(g, path, marks)
    g.note(path.read_text())
    if g.bool(0.1):
        given, texts, names = {}, {}, []
        i = runtime.Interface()
    else:
        i = runtime.Interface(g.choice([str(path), path]), **opts)
    want = values(given)
    table = {**PARAMETERS, **LOCAL}
    for k, (v, _, _, _) in ((k, (float(t[1]),) + t[1:]) for k, t in LOCAL.items()):
        want[k] = v
    for k in want:
        unit, aliases = table[k][2:]
        for alias in [k] + aliases:
            check(alias in i, f"{alias!r} is not a parameter")
            got = i[alias]
            check(isinstance(got, operational.Argument), f"{alias!r} is {got!r}")
            x = want[k][0] if isinstance(want[k], list) and len(want[k]) == 1 else want[k]
            check(same(got.data, x), f"{alias!r} is {got.data!r} with {texts}, expected {x!r}")
            if k not in ('flowMag', 'idealShockSpeed'):
                check((got.unit is None) if unit is None else got.unit == metadata.Unit(unit), f"unit of {alias!r} is {got.unit!r}, expected {unit!r}")
            check(i.get(alias) == got if numpy.ndim(got.data) == 0 else True, f"get({alias!r}) differs")
        if k in PARAMETERS and dependent(k, given):
            g.nontrivial('interface', k, str(want[k]))
        if k in given:
            check(same(i.config(k).data, want[k][0] if isinstance(want[k], list) and len(want[k]) == 1 else want[k]), f"config({k!r}) is {i.config(k)}")
        else:
            check(i.config(k) is None and i.config(k, -5) == -5, f"config({k!r}) is {i.config(k)} although the file does not give it")
    for bad in ['no such parameter', '']:
        check(bad not in i and i.get(bad, 3) == 3, f"{bad!r} is a parameter")
        with raises(KeyError, what=f"parameter {bad!r}"):
            i[bad]


@CASES.add(160)
def files(g):
    """Configuration files as mappings of text."""
    where = data.scratch(g)
    path = where / 'config'
    marks = g.choice([('#',), ('#', '!'), (';',)])
    _, texts, names = configuration(g, path, marks)
    g.note(path.read_text())
    how = g.choice(['str', 'path', 'relative'])
    if how == 'relative':
        cwd = os.getcwd()
        g.cleanup(lambda: os.chdir(cwd))
        os.chdir(str(where))
        c = runtime.ConfigFile('config', comments=list(marks))
    else:
        c = runtime.ConfigFile(str(path) if how == 'str' else path, comments=list(marks))
    check(list(c) == names and len(c) == len(names), f"names {list(c)}, expected {names}")
    check(dict(c) == texts, f"content {dict(c)}, expected {texts}")
    for k in g.sample(list(PARAMETERS), 5):
        if k not in texts:
            check(k not in c and c.get(k, 'x') == 'x', f"{k!r} is in the file")
            with raises(KeyError, what=f"absent {k!r}"):
                c[k]
    other = where / 'other'
    _, rest, more = configuration(g, other, marks)
    found = c.compare(g.choice([str(other), other, runtime.ConfigFile(other, comments=list(marks))]), **({'comments': list(marks)}))
    want = {k: (texts.get(k), rest.get(k)) for k in set(texts) | set(rest)}
    check(found == want, f"compare: {found}, expected {want}")
    keys = c.diff(other, comments=list(marks))['keys']
    check(keys == {0: set(texts) - set(rest), 1: set(rest) - set(texts)}, f"diff: {keys}")
    g.nontrivial('file', str(texts))
    with raises(Exception, what="a missing configuration file"):
        runtime.ConfigFile(where / 'missing')
    with raises(Exception, what="a missing configuration file"):
        runtime.Interface(where / 'missing')


@CASES.add(140)
def assumptions(g):
    """Parameters as assumptions (with a unit) or options (without)."""
    path = data.scratch(g) / 'config'
    given, texts, names = configuration(g, path)
    g.note(path.read_text())
    a = runtime.Arguments(runtime.Runtime(config_path=path)) if g.bool() else runtime.Arguments(config_path=path)
    want = values(given)
    for k in g.sample(LIKELY, 8) + names:
        unit, aliases = PARAMETERS[k][2:]
        if k in ('flowMag', 'idealShockSpeed'):
            continue
        got = a[g.choice([k] + aliases)]
        if unit:
            x = want[k] if isinstance(want[k], list) else [want[k]]
            check(type(got).__name__ == 'Assumption' and got.unit == metadata.Unit(unit), f"{k} is {got!r}")
            check(numpy.allclose([float(v) for v in got[:]], x, rtol=1e-12, atol=0), f"{k} is {got!r}, expected {x}")
            i = g.int(0, len(x) - 1)
            for v, y in [*zip(got[:], x), (got[i], x[i])]:
                check(isinstance(v, physical.Scalar) and v.unit == metadata.Unit(unit) and numpy.isclose(float(v), y, rtol=1e-12, atol=0), f"{v!r} of {k}, expected {y} {unit}")
            if len(x) == 1:
                check(numpy.isclose(float(got), x[0], rtol=1e-12, atol=0) and int(got) == int(x[0]), f"{k} as a number: {float(got)}")
            else:
                with raises(TypeError, what=f"float of {x}"):
                    float(got)
        else:
            check(type(got).__name__ == 'Option' and same(got.value, want[k]) and got == got.value, f"{k} is {got!r}, expected {want[k]!r}")
        if dependent(k, given):
            g.nontrivial('argument', k, str(want[k]))


@CASES.add(60)
def constants(g):
    """Constants of the EPREM source code, in any order."""
    b = runtime.BaseTypesH()
    check(set(b) == set(CONSTANTS), f"constants {set(b) ^ set(CONSTANTS)}")
    for k in g.shuffle(list(CONSTANTS))[:g.int(3, 12)]:
        x = constant(k)
        check(numpy.isclose(b[k], x, rtol=1e-12, atol=0) and isinstance(b[k], type(x)), f"{k} is {b[k]!r}, expected {x!r}")
        g.nontrivial('constant', k)
    with raises(KeyError, what="an unknown constant"):
        b['NO_SUCH']
