"""Parameters defined in EPREM source code, and the tools that report them."""

import contextlib
import io
import json
import os
import pathlib
import re
import runpy
import shutil
import sys

import numpy

from goats.eprem import runtime

from pbt import eprem as data
from pbt.case import Cases
from pbt.defaults import CONSTANTS, PARAMETERS
from pbt.engine import check, raises
from props import p19

CASES = Cases()
RULE = (
    "parameters or constants read from a generated source file, and parameters"
    " reported for generated configuration files; distinct by name, definition,"
    " and value"
)
ASSUMPTIONS = [
    "constants are those of EPREM; a definition is a literal or a product of"
    " powers of literals and constants; one definition per line, no comments",
    "a default is a literal, a constant, another parameter, a sum or difference"
    " of two of them, or a product; arrays have one value",
    "files that are compared have different names relative to their common"
    " directory",
]

INTS = [k for k, v in CONSTANTS.items() if re.fullmatch(r'\d+', v)]
REALS = [k for k in CONSTANTS if k not in INTS]
MODES = {'Int': int, 'Double': float, 'String': str, 'DoubleArray': list}


def real(g):
    x = g.choice([1.0, 2.0, 0.5, g.pos()])
    return g.choice([f"{x:.6f}", f"{x:.4e}", repr(x), f"{x:.3E}"]) if x < 1e6 else repr(x)


def header(g):
    """A generated baseTypes.h and the value of each constant."""
    names = g.shuffle(g.subset(REALS, 0.5) + g.subset(INTS, 0.5)) or ['PI']
    lines, known = ['#ifndef BASETYPES_H', '#define BASETYPES_H', ''], {}
    for k in names:
        if k in INTS:
            n = g.int(0, 5000)
            text, value = str(n), n
        else:
            usable = [n for n in known if n in REALS and known[n] > 0 and 1e-60 < known[n] < 1e60]
            if usable and g.bool(0.5):
                factors = [g.choice(usable) if g.bool(0.7) else f"{g.int(1, 99)}.{g.int(0, 9)}" for _ in range(g.int(2, 4))]
                numbers = [known.get(f) or float(f) for f in factors]
                form = g.int(0, 4)
                rest = factors[1:]
                value = numbers[0]
                if form == 0:
                    text = g.choice([' * ', '*']).join(factors)
                    for n in numbers[1:]:
                        value *= n
                elif form == 1:
                    text = factors[0] + ' / (' + ' * '.join(rest) + ')'
                    for n in numbers[1:]:
                        value /= n
                elif form == 2:
                    text = '( ' + '*'.join(factors[:-1]) + g.choice([' / ', '/']) + factors[-1] + ' )'
                    for n in numbers[1:-1]:
                        value *= n
                    value /= numbers[-1]
                elif form == 3:
                    text = 'sqrt(' + '*'.join(factors) + ')'
                    for n in numbers[1:]:
                        value *= n
                    value = value ** 0.5
                else:
                    text = '(' + factors[0] + ' / ' + factors[1] + ')' + ''.join(' / ' + f for f in factors[2:])
                    for n in numbers[1:]:
                        value /= n
                if g.bool(0.15):
                    text, value = f"(-1.0 * {g.choice(usable)})", None
                    value = -known[text[8:-1]]
            else:
                text = real(g)
                value = float(text)
        known[k] = value
        lines.append('#define' + g.choice([' ', '  ', '\t']) + k + g.choice([' ', '   ', '\t']) + text + g.choice(['', '  ']))
        if g.bool(0.2):
            lines.append(g.choice(['', 'typedef double Scalar_t;', '/* a comment */', 'int x = 3;']))
    if g.bool():
        # Definitions may come in any order.
        lines = lines[:3] + g.shuffle(lines[3:])
    return '\n'.join(lines + ['#endif', '']), known


@CASES.add(300)
def headers(g):
    """Constants of a generated header."""
    where = data.scratch(g)
    text, known = header(g)
    g.note(text)
    (where / 'baseTypes.h').write_text(text)
    source = g.choice([str(where), where, where / 'baseTypes.h'])
    b = runtime.BaseTypesH(source)
    check(set(b) == set(known), f"constants {sorted(b)}, expected {sorted(known)}")
    for k in g.shuffle(list(known)):
        check(numpy.isclose(b[k], known[k], rtol=1e-10, atol=0), f"{k} is {b[k]!r}, expected {known[k]!r}")
        g.nontrivial('constant', k, known[k])
    with raises(KeyError, what='an unknown constant'):
        b['NO_SUCH']


def source(g, constants=None, aliases=True):
    """A generated configuration.c and the definition of each parameter.

    Defaults may use the given constants instead of the published ones.
    """
    usable = [k for k, x in (constants or {}).items() if k in REALS and 1e-60 < abs(x) < 1e60]
    names = g.sample(list(PARAMETERS), g.int(3, 14)) + g.subset(['newOne', 'other_2', 'zz'], 0.3)
    lines = ['#include "configuration.h"', 'void getParams( void ) {', '']
    want, arrays, values = {}, 0, {}
    for k in names:
        kind = PARAMETERS[k][0] if k in PARAMETERS else g.choice(list(MODES))
        attrs, value = {'type': MODES[kind]}, None
        if kind in ('Int', 'Double'):
            reals = [n for n in values if want[n]['type'] is float]
            form = g.int(0, 7)
            if kind == 'Int':
                value = g.int(0, 400)
                default = str(value)
                if form == 1:
                    default, value = 'N_PROCS', None
                low, high = g.choice([('0', '1'), ('0', '1000000'), ('1', 'BADINT'), ('N_PROCS', 'BADINT')])
            else:
                default = g.choice(['0.0', '1.0', '-1.5', '2.5e-4', '400.0e5', f"{g.int(0, 99)}.{g.int(0, 99)}"])
                value = float(default)
                if form == 1:
                    default, value = 'third', 1 / 3
                elif form == 2 and reals:
                    n = g.choice(reals)
                    default, value = f"config.{n}", values[n]
                elif form == 3 and reals:
                    n, m = g.choice(reals), g.choice(reals)
                    sign = g.choice(['+', '-'])
                    gap = g.choice([' ', ''])
                    default = f"config.{n}{gap}{sign}{gap}config.{m}"
                    value = values[n] + values[m] if sign == '+' else values[n] - values[m]
                elif form in (4, 5) and len(usable) > 1:
                    n, m = g.sample(usable, 2)
                    x, y = constants[n], constants[m]
                    default, value = g.choice([(f"{n} * {m}", x * y), (f"2.0 * {n} / {m}", 2 * x / y), (f"(1.5/{n})*{m}", 1.5 / x * y), (n, x)])
                elif form == 4 and constants is None:
                    n, m = g.choice(['PI', 'TAU', 'AU', 'MAS_TIME_NORM']), g.choice(['C', 'RSUN', 'DAY'])
                    default = g.choice([f"({g.int(1, 9)}.5/{n})*{m}", f"2.0 * {n} / {m}", f"{n} * {m}", f"({n}/{m})"])
                    value = p19.evaluate(default)
                low, high = g.choice([('0.0', 'BADVALUE'), ('VERYSMALL', 'BADVALUE'), ('-1.0 * BADVALUE', 'BADVALUE'), ('0.0', '2.0 * PI')])
            attrs.update(default=default, minimum=low, maximum=high)
            args = g.choice([', ', ',']).join([default, low, high])
            cast = ''
        elif kind == 'String':
            value = g.choice(['', 'warnings.txt', 'a b', '/x/y.z', 'N_PROCS'])
            attrs.update(default=value)
            args, cast = f'"{value}"', g.choice(['(char*)', ''])
        else:
            arrays += 1
            array = g.choice([f"default{arrays}", k, f"{k}Default"])
            item = g.choice(['1.0', '0', '2.5', '12', '.5', f"{g.int(0, 20)}.{g.int(1, 9)}"])
            lines.append(f"  Scalar_t {array}[1]{g.choice([' = ', '='])}{{{item}}};")
            attrs.update(default=f"[{item}]")
            value = [float(item)]
            args, cast = f"1, {array}", ''
        label = g.choice([k] * 5 + [k[0].swapcase() + k[1:], k + 'X', 'the' + k]) if aliases and kind != 'DoubleArray' else k
        if label != k:
            attrs['alias'] = label
        want[k], values[k] = attrs, value
        lines.append(f"{g.choice(['', '  ', '    '])}config.{k}{g.choice([' = ', '='])}{cast}read{kind}(\"{label}\",{g.choice(['', ' '])}{args});")
        if g.bool(0.2):
            lines.append(g.choice(['', '  // a comment', '  config.useAll = 1;', '  if (config.lamo < 0) panic("bad");']))
    return '\n'.join(lines + ['}', '']), want, values


@CASES.add(400)
def sources(g):
    """Parameters of generated source code, and values of a run with it."""
    where = data.scratch(g)
    r = None
    for i in range(g.int(1, 2)):
        home = where / f'src{i}'
        home.mkdir()
        constants = None
        if g.bool(0.4):
            top, constants = header(g)
            (home / 'baseTypes.h').write_text(top)
            g.note(top)
        text, want, values = source(g, constants)
        g.note(text)
        (home / 'configuration.c').write_text(text)
        c = runtime.ConfigurationC(g.choice([str(home), home, home / 'configuration.c']))
        check(set(c) == set(want), f"parameters {sorted(c)}, expected {sorted(want)}")
        for k in want:
            check(dict(c[k]) == want[k], f"{k} is defined by {c[k]}, expected {want[k]}")
        with raises(KeyError, what='an unknown parameter'):
            c['noSuchParameter']
        # Without a header, the constants are the published ones.
        if r is None:
            r = runtime.Runtime(g.choice([str(home), home]))
        else:
            r.path_to(source=home)
        given = {}
        if g.bool():
            config = where / f'config{i}'
            known = [k for k in want if k in PARAMETERS and 'alias' not in want[k]]
            chosen = {k: p19.setting(g, k) for k in g.subset(known, 0.4)}
            config.write_text('\n'.join(f"{k} = {t}" for k, (_, t) in chosen.items()) + '\n')
            r.path_to(config=config)
            given = {k: v for k, (v, _) in chosen.items()}
            if given:
                g.note(config.read_text())
        elif r.path_to('config') is not None:
            r.path_to(config=None)
        def parameter(k):
            if k in given:
                return given[k]
            default = want[k]['default']
            return p19.evaluate(default, parameter) if 'config.' in default else values[k]
        for k in want:
            x = parameter(k)
            check(p19.same(r[k], x), f"{k} is {r[k]!r}, expected {x!r}")
            g.nontrivial('parameter', k, want[k]['default'], str(x))


@CASES.add(110)
def databases(g):
    """A generated database of parameters holds the source's definitions."""
    where = data.scratch(g)
    home = where / 'src'
    home.mkdir()
    text, known = header(g)
    (home / 'baseTypes.h').write_text(text)
    code, want, _ = source(g)
    (home / 'configuration.c').write_text(code)
    out = where / g.choice(['out', 'db.json', 'x.y'])
    # A copy of the module, so that nothing can overwrite its own database.
    module = where / 'module' / 'runtime.py'
    module.parent.mkdir()
    shutil.copy(runtime.__file__, module)
    shutil.copy(pathlib.Path(runtime.__file__).with_suffix('.json'), module.with_suffix('.json'))
    g.note(code, text)
    action = g.choice([None, 'write', 'append'])
    more = {}
    if action == 'append' or g.bool(0.3):
        # What the file held remains only if it is appended to.
        old = {'other': {'x': g.int(0, 9)}, 'more': [1, 2.5, 'a']}
        more = old if action == 'append' else {}
        out.with_suffix('.json').write_text(json.dumps(old))
    if g.bool():
        run(module, ['-s', str(home), 'generate', '-o', str(out)] + (['-a', action] if action else []))
    else:
        namespace = runpy.run_path(str(module))
        namespace['generate_defaults'](home, out, **({'action': action} if action else {}))
    found = json.loads(out.with_suffix('.json').read_text())
    for k, x in more.items():
        check(found.pop(k, None) == x, f"{k} was lost from the file")
    check(set(found) == {'_BASETYPES_H', '_CONFIGURATION_C'}, f"sections {list(found)}")
    modes = {v: 'read' + k for k, v in MODES.items()}
    expected = {k: {'mode': modes[v['type']], **{a: x for a, x in v.items() if a != 'type'}} for k, v in want.items()}
    check(found['_CONFIGURATION_C'] == expected, f"parameters in the database: {found['_CONFIGURATION_C']}, expected {expected}")
    check(set(found['_BASETYPES_H']) == set(known), f"constants in the database: {found['_BASETYPES_H']}")
    # A module with this database works as with the source code.
    # (other entries are of no use to it)
    shutil.copy(out.with_suffix('.json'), module.with_suffix('.json'))
    namespace = runpy.run_path(str(module))
    b = namespace['BaseTypesH']()
    for k, x in known.items():
        check(numpy.isclose(b[k], x, rtol=1e-10, atol=0), f"{k} is {b[k]!r} from the database, expected {x!r}")
        g.nontrivial('database', k, x)
    c = namespace['ConfigurationC']()
    check({k: dict(c[k]) for k in c} == want, "parameters from the database differ")


def run(module, argv):
    """Run the command line and return what it prints."""
    old = sys.argv
    out = io.StringIO()
    try:
        sys.argv = ['runtime', *argv]
        with contextlib.redirect_stdout(out):
            runpy.run_path(str(module), run_name='__main__')
    finally:
        sys.argv = old
    return out.getvalue()


def printed(text):
    """Parse a report of parameters."""
    found = {}
    for block in re.split(r'\n\s*\n', text.strip('\n')):
        if not block.strip():
            continue
        lines = block.strip('\n').split('\n')
        check(re.fullmatch(r'-+', lines[1].strip()) is not None, f"report: {block!r}")
        found[lines[0].strip()] = lines[2:]
    return found


def matches(text, k, x):
    """Whether a printed value is the given one."""
    unit = PARAMETERS[k][2]
    if x is None:
        return text == 'None'
    if isinstance(x, str):
        return text == repr(x)
    if unit and unit != '1':
        m = re.fullmatch(r"(.*) '([^']*)'", text)
        if not m:
            return False
        text = m.group(1)
    numbers = [float(n) for n in re.findall(r'[-+\d.e]+', text)]
    return len(numbers) == numpy.size(x) and numpy.allclose(numbers, x, rtol=1e-6, atol=0)


@CASES.add(130)
def comparisons(g):
    """Reports of the values in several configuration files."""
    where = data.scratch(g)
    n = g.int(1, 3)
    files, settings = [], []
    for i in range(n):
        home = where / g.choice(['.', 'a', 'a/b', 'c'])
        home.mkdir(parents=True, exist_ok=True)
        path = home / f"file{i}"
        if i and g.bool(0.2):
            path.write_text(files[0].read_text())
            settings.append(settings[0])
        else:
            settings.append(p19.configuration(g, path)[0])
        files.append(path)
    for f in files:
        g.note(f.read_text())
    common = os.path.commonpath([str(f.parent) for f in files])
    labels = [os.path.relpath(str(f), common) for f in files]
    action = g.choice(['show', 'diff', None])
    cwd = os.getcwd()
    if g.bool():
        g.cleanup(lambda: os.chdir(cwd))
        os.chdir(str(where))
        names = [os.path.relpath(str(f), str(where)) for f in files]
    else:
        names = [str(f) for f in files]
    if g.bool(0.3):
        argv = ['compare', '-c', *names] + (['-a', action] if action else [])
        text = run(runtime.__file__, argv)
    else:
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            runtime.compare_arguments(names, action=action)
        text = out.getvalue()
    found = printed(text)
    actual = [p19.values(s) for s in settings]
    expected = {}
    for k in PARAMETERS:
        row = [a[k] if k in s else None for a, s in zip(actual, settings)]
        if action == 'diff' and k in found and len({type(x) for x in row}) > 1 and all(x == row[0] for x in row):
            # Whether 1 and 1.0 differ is left open.
            expected[k] = row
        if action != 'diff' or any((x is None) != (row[0] is None) or x != row[0] for x in row):
            expected[k] = row
    check(set(found) == set(expected), f"{action} lists {sorted(set(found) ^ set(expected))} wrongly")
    default = p19.values({})
    for k, row in expected.items():
        lines = found[k]
        check(len(lines) == n + 1, f"{k}: {lines}")
        for label, x, line in zip(['default'] + labels, [default[k]] + row, lines):
            check(line.startswith(label), f"{k}: {line!r} is not about {label!r}")
            check(matches(line[len(label):].strip(), k, x), f"{k}: {line!r}, expected {x!r}")
        if any(x is not None for x in row):
            g.nontrivial('report', k, str(row))
    with raises(ValueError, what='an unknown action'):
        runtime.compare_arguments(names, action='nothing')
