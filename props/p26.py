"""Files are located as documented, and never written."""

import os
import pathlib
import shutil
import tempfile
import warnings

from goats import eprem
from goats.core import datafile
from goats.core import iotools
from goats.eprem import runtime

from pbt import eprem as data
from pbt.case import Cases
from pbt.engine import check, raises

CASES = Cases()
RULE = (
    "attempts to write, or searches with more than one place or more than one"
    " candidate; distinct by path, mode, and places"
)
ASSUMPTIONS = [
    "writing means write_text, write_bytes, or open with a writable mode, the"
    " methods that the documentation names",
]

TEXTS = ['', 'a\n', 'one\ntwo\n', 'key=value\n# comment\nother = 3\n', 'no newline']


class Scratch:
    """A directory tree, a current directory, and a home directory."""

    def __init__(self, g):
        self.root = pathlib.Path(tempfile.mkdtemp(prefix='vp-')).resolve()
        self.home, self.cwd = os.environ.get('HOME'), os.getcwd()
        g.cleanup(self.close)
        os.environ['HOME'] = str(self.root)
        self.dirs = [self.root / d for d in ('.', 'a', 'b', 'a/deep', 'b/with space')]
        for d in self.dirs:
            d.mkdir(parents=True, exist_ok=True)

    def close(self):
        os.chdir(self.cwd)
        if self.home is None:
            os.environ.pop('HOME', None)
        else:
            os.environ['HOME'] = self.home
        shutil.rmtree(self.root, ignore_errors=True)

    def spell(self, g, path):
        """One of the ways to name a path."""
        path = pathlib.Path(path)
        form = g.choice(['absolute', 'relative', 'home', 'dots', 'link', 'path'])
        g.event(form)
        if form == 'relative':
            where = g.choice(self.dirs)
            os.chdir(where)
            return os.path.relpath(path, where)
        if form == 'home':
            return os.path.join('~', os.path.relpath(path, self.root))
        if form == 'dots':
            return str(self.root / 'a' / 'deep' / '..' / '..' / os.path.relpath(path, self.root))
        if form == 'link':
            link = self.root / f'link{len(list(self.root.iterdir()))}'
            link.symlink_to(path)
            return str(link)
        if form == 'path':
            return path
        return str(path)


MODES = ['w', 'a', 'x', 'wb', 'ab', 'w+', 'r+', 'rb+', 'r+b', 'wt', 'a+', 'xb']


def attempt(g, path):
    """Try to write to a path in some way."""
    how = g.choice(['text', 'bytes', 'positional', 'keyword', 'child'])
    if how == 'text':
        return 'write_text', lambda: path.write_text('changed')
    if how == 'bytes':
        return 'write_bytes', lambda: path.write_bytes(b'changed')
    mode = g.choice(MODES)
    keyword = how == 'keyword'

    def call():
        with (path.open(mode=mode) if keyword else path.open(mode)) as fp:
            fp.write(b'changed' if 'b' in mode else 'changed')
    return f'open({"mode=" if keyword else ""}{mode!r})', call


@CASES.add(1500)
def protected(g):
    """Whoever gets a path from the package cannot change the file."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = Scratch(g)
        target = g.choice(s.dirs) / g.choice(['x.txt', 'y.cfg', 'with blank'])
        text = g.choice(TEXTS)
        target.write_text(text)
        spelled = s.spell(g, target)
        owner = g.weighted([(3, 'path'), (1, 'child'), (1, 'parent'), (1, 'text'), (1, 'config')])
        if owner == 'path':
            path = iotools.ReadOnlyPath(spelled)
        elif owner == 'child':
            path = iotools.ReadOnlyPath(target.parent) / target.name
        elif owner == 'parent':
            path = iotools.ReadOnlyPath(spelled).parent / target.name
        elif owner == 'config':
            target.write_text(text := 'lamo=1.0\n')
            path = runtime.ConfigManager(target).filepath if hasattr(runtime, 'ConfigManager') else iotools.ReadOnlyPath(spelled)
        else:
            path = iotools.TextFile(spelled).path
        what = f"{owner} from {spelled!r}"
        check(isinstance(path, pathlib.Path), f"{what}: not a path")
        check(pathlib.Path(path) == target and path == target, f"{what}: {path}, expected {target}")
        check(path.exists() and path.is_file(), f"{what}: does not exist")
        for _ in range(g.int(1, 3)):
            how, call = attempt(g, path)
            g.note(owner, str(spelled), how)
            with raises(Exception, what=f"{what}: {how}"):
                call()
            check(target.read_text() == text, f"{what}: {how} changed the file")
            g.nontrivial(owner, str(spelled), how)
        check(path.read_text() == text and path.read_bytes() == text.encode(), f"{what}: can't read the file")
        for mode in ('r', 'rt', 'rb'):
            with (path.open(mode) if g.bool() else path.open(mode=mode)) as fp:
                got = fp.read()
            check(got == (text.encode() if 'b' in mode else text), f"{what}: {got!r} with mode {mode!r}")
        with path.open() as fp:
            check(fp.read() == text, f"{what}: can't read the file by default")


@CASES.add(60)
def datasets(g):
    """The paths of an observer's dataset are protected, too."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d = data.make(g, observer='stream', kind='obs', config='lamo=1.0\n')
        o = eprem.Stream(d.ident, source=d.path, config=d.config)
        path = g.choice([o.datapath, o.confpath, datafile.Interface(o.datapath).path])
        before = pathlib.Path(path).read_bytes()
        how, call = attempt(g, path)
        g.note(path.name, how)
        g.nontrivial(path.suffix, how)
        with raises(Exception, what=f"{path.name}: {how}"):
            call()
        check(pathlib.Path(path).read_bytes() == before, f"{path.name}: {how} changed the file")


@CASES.add(500)
def missing(g):
    """A path that does not exist is refused, also after it is removed."""
    s = Scratch(g)
    target = g.choice(s.dirs) / 'x.txt'
    if g.bool():
        target.write_text('a')
        check(iotools.ReadOnlyPath(target) == target, f"{target} does not exist")
        target.unlink()
    spelled = s.spell(g, target)
    g.note(str(spelled))
    g.nontrivial(str(spelled))
    with raises(iotools.NonExistentPathError, what=f"ReadOnlyPath({spelled!r})"):
        iotools.ReadOnlyPath(spelled)
    with raises(iotools.NonExistentPathError, what=f"TextFile({spelled!r}).lines"):
        iotools.TextFile(spelled).lines


@CASES.add(1500)
def searched(g):
    """The first place with the file, or the first template that matches."""
    s = Scratch(g)
    names = ['data.nc', 'flux.nc', 'obs3.nc', 'p 3.nc']
    files = set()
    for d in s.dirs:
        for name in g.subset(names):
            (d / name).write_text('x')
            files.add((d / name).resolve())
    places = [g.choice(s.dirs) for _ in range(g.int(1, 4))]
    name = g.choice(names)
    given = [s.spell(g, p) if i == len(places) - 1 else g.choice([str, pathlib.Path])(p) for i, p in enumerate(places)]
    if g.bool(0.3):
        extra = s.root / 'file'
        extra.write_text('not a directory')
        given.insert(0, extra)
    want = next(((p / name).resolve() for p in places if (p / name).resolve() in files), None)
    got = iotools.search(given, g.choice([str, pathlib.Path])(name))
    what = f"search({[str(x) for x in given]}, {name!r}) with {sorted(str(f.relative_to(s.root)) for f in files)}"
    g.note(what)
    g.nontrivial(what)
    check((got is None) == (want is None) and (got is None or pathlib.Path(got).resolve() == want), f"{what}: {got}, expected {want}")
    # Templates
    templates = [lambda n: f'obs{n}.nc', lambda n: f'p {n}.nc', lambda n: pathlib.Path(f'flux.nc')]
    order = g.shuffle([0, 1, 2])[:g.int(1, 3)]
    results = ['obs3.nc', 'p 3.nc', 'flux.nc']
    place = g.choice(s.dirs)
    use = [templates[i] for i in order]
    want = next(((place / results[i]).resolve() for i in order if (place / results[i]).resolve() in files), None)
    if g.bool(0.3):
        os.chdir(place)
        got, what = iotools.find_file_by_template(use, 3), f"templates {order} in the current directory {place}"
    else:
        spelled = s.spell(g, place)
        got, what = iotools.find_file_by_template(use, 3, directory=spelled), f"templates {order} in {spelled!r}"
    check((got is None) == (want is None) and (got is None or pathlib.Path(got).resolve() == want), f"{what}: {got}, expected {want}")


@CASES.add(1000)
def texts(g):
    """Lines, key-value pairs, and comments of text files."""
    s = Scratch(g)
    lines, pairs = [], {}
    for _ in range(g.int(0, 6)):
        kind = g.choice(['pair', 'pair', 'comment', 'blank'])
        if kind == 'pair':
            k, v = g.choice(['a', 'b', 'c', 'long key']), g.choice(['1', 'x y', '2.5'])
            pairs[k] = v
            lines.append(f'{k}={v}')
        else:
            lines.append('# nothing' if kind == 'comment' else '')
    text = '\n'.join(lines) + ('\n' if lines and g.bool(0.7) else '')
    path = g.choice(s.dirs) / 'x.txt'
    path.write_text(text)
    spelled = s.spell(g, path)
    f = iotools.TextFile(spelled)
    what = f"text {text!r}"
    g.note(text)
    if len(lines) > 1:
        g.nontrivial(text)
    n = iotools.file_lines(path)
    check(n == len(text.splitlines(True)), f"{what}: {n} lines")
    got = f.extract(lambda line: line.split('=') if '=' in line else None, lambda m: (m[0], m[1].strip()))
    check(got == pairs, f"{what}: pairs {got}, expected {pairs}")
    check(list(f.lines) == text.splitlines(True), f"{what}: lines {f.lines}")
    path.write_text('changed')
    check(list(f.lines) == text.splitlines(True), f"{what}: lines changed after reading")
    body = g.choice(['value', ' 1.0 , 2.0', '', 'a b'])
    marks = g.subset(['#', '!', '//']) or ['#']
    mark = g.choice(['#', '!', '//'])
    whole = f'{body} {mark} comment {g.choice(["", "! again", "# x"])}'
    cut = min([whole.index(m) for m in marks if m in whole], default=len(whole))
    got = iotools.strip_inline_comments(whole, marks)
    check(got == whole[:cut].strip(), f"{whole!r} without {marks} comments: {got!r}")


@CASES.add(800)
def instances(g):
    """One object per file, however its path is given."""
    s = Scratch(g)

    class Thing(metaclass=iotools.PathSet):
        def __init__(self, path):
            self.path = path

    files = [d / 'x' for d in s.dirs]
    for f in files:
        f.write_text(str(f))
    known = {}
    n = g.int(2, 6)
    for _ in range(n):
        f = g.choice(files).resolve()
        spelled = s.spell(g, f)
        thing = Thing(spelled)
        g.note(str(spelled))
        if f in known:
            check(known[f] is thing, f"two objects for {spelled!r}")
        else:
            check(all(t is not thing for t in known.values()), f"{spelled!r} gave the object of another file")
        known[f] = thing
    g.nontrivial(tuple(str(k.relative_to(s.root)) for k in known), n)
