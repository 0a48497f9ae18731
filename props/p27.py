"""Unknown names are refused with the right suggestions."""

import warnings

from goats import eprem
from goats.core import spelling

from pbt import eprem as data
from pbt import physics
from pbt.case import Cases
from pbt.engine import check, raises

CASES = Cases()
RULE = "names that are not known; distinct by name and known words"
ASSUMPTIONS = [
    "an edit removes a character, inserts or replaces one by a letter, or swaps"
    " two adjacent characters",
]

LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def one(a, b):
    """True if one edit turns `a` into `b`."""
    if len(b) == len(a) - 1:
        return any(a[:i] + a[i + 1:] == b for i in range(len(a)))
    if len(b) == len(a) + 1:
        return any(b[i] in LETTERS and b[:i] + b[i + 1:] == a for i in range(len(b)))
    if len(a) != len(b):
        return False
    d = [i for i in range(len(a)) if a[i] != b[i]]
    if not d:
        # Replacing a letter by itself.
        return any(c in LETTERS for c in a) or any(x == y for x, y in zip(a, a[1:]))
    if len(d) == 1:
        return b[d[0]] in LETTERS
    return len(d) == 2 and d[1] == d[0] + 1 and a[d[0]] == b[d[1]] and a[d[1]] == b[d[0]]


def edits(word):
    """All results of one edit."""
    out = set()
    for i in range(len(word) + 1):
        out.update(word[:i] + c + word[i:] for c in LETTERS)
        if i < len(word):
            out.add(word[:i] + word[i + 1:])
            out.update(word[:i] + c + word[i + 1:] for c in LETTERS)
        if i < len(word) - 1:
            out.add(word[:i] + word[i + 1] + word[i] + word[i + 2:])
    return out


def edited(g, word):
    i = g.int(0, len(word))
    c = g.choice(['a', 'b', 'z', 'A', 'Q', 'e', 'r'])
    how = g.choice(['insert', 'delete', 'replace', 'swap'])
    if how == 'insert':
        return word[:i] + c + word[i:]
    if how == 'delete':
        return word[:i] + word[i + 1:]
    if how == 'replace':
        return word[:i] + c + word[i + 1:]
    return word[:i] + word[i + 1:i + 2] + word[i:i + 1] + word[i + 2:]


def a_word(g, most=5):
    return ''.join(g.choice('abBr 1_') for _ in range(g.int(1, most)))


@CASES.add(2500)
def suggested(g):
    """Suggestions are the known words within one edit, else within two."""
    words = {a_word(g) for _ in range(g.int(0, 6))}
    words |= set(g.subset(['flux', 'Br', 'Bt', 'density', 'energy']))
    base = g.choice(sorted(words)) if words and g.bool(0.8) else a_word(g)
    name = base
    for _ in range(g.weighted([(1, 0), (4, 1), (2, 2), (1, 3)])):
        name = edited(g, name)
    first = words if g.bool(0.7) else set(list(sorted(words))[:2])
    checker = spelling.SpellChecker(*sorted(first))
    if first is not words:
        checker.words |= words
        g.event('more words later')
    what = f"{name!r} among {sorted(words)}"
    g.note(what)
    if name in words:
        want = set()
        g.event('known')
    else:
        want = {w for w in words if one(name, w)}
        g.event('one edit' if want else 'more edits')
        if not want and len(name) <= 4:
            near = edits(name)
            want = {w for w in words if any(one(e, w) for e in near if abs(len(e) - len(w)) <= 1)}
            g.event('two edits' if want else 'far away')
        elif not want:
            return
        g.nontrivial(what)
    got = checker.check(name, mode='suggest')
    check(len(got) == len(set(got)) and set(got) == want, f"{what}: suggestions {got}, expected {sorted(want)}")
    check(checker.check(name, mode='truth') == (not want), f"{what}: truth {not want}")
    if not want:
        check(checker.check(name) is None, f"{what}: {checker.check(name)}")
        return
    with raises(spelling.SpellingError, what=what):
        checker.check(name)
    try:
        checker.check(name)
    except spelling.SpellingError as err:
        text = str(err)
        check(name in text and all(w in text for w in want), f"{what}: message {text!r}")
    with raises(ValueError, what="an unknown mode"):
        checker.check(name, mode='other')


@CASES.add(60)
def observed(g):
    """An observer refuses unknown names and keeps working."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d = data.make(g, observer='stream', kind='obs', config='lamo=1.0\n')
        o = eprem.Stream(d.ident, source=d.path, config=d.config)
        known = {n: [n] + data.ALIASES[n] for n in d.arrays}
        known.update({n: [n] + physics.DERIVED[n][0] for n in ('mean free path', 'rigidity', 'isotropic distribution', 'energy density')})
        every = [a for group in known.values() for a in group]
        for _ in range(g.int(1, 4)):
            name = g.choice([a for a in every if len(a) > 3])
            bad = edited(g, name)
            if bad in o.context.keys or any(c in bad for c in '*/^()') or not one(bad, name):
                continue
            what = f"observer[{bad!r}]"
            g.note(what)
            g.nontrivial(bad)
            check(not o.observes(bad), f"observer.observes({bad!r}) is True")
            try:
                o[bad]
            except spelling.SpellingError as err:
                check(name in str(err), f"{what}: the message {err} does not mention {name!r}")
            except Exception as err:
                check(False, f"{what}: {type(err).__name__} instead of a suggestion")
            else:
                check(False, f"{what} is not refused")
            check(o.observes(name), f"observer.observes({name!r}) is False")
            check(o.observes((name, bad)) and o.observes([bad, name]) and not o.observes([bad]), f"observer.observes([{bad!r}, {name!r}])")
            check(o[name] is not None, f"observer[{name!r}] after a refusal")
