"""Choice-sequence generators, shrinking, replay, sharded runs.

Hypothesis cannot be loaded by the interpreter that runs the code under test
(PyPy 3.9, see DESIGN.md), so this module implements the part of it that the
checks need, in the style of minithesis: every random decision made by a
property is one bounded integer in a recorded sequence.  A test case *is* that
sequence, so generation, shrinking and replay all act on the same object, and
nothing inside a property may use any other source of randomness.
"""

import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback


class Discard(Exception):
    """The generated case is outside the domain of the property."""


class Violation(Exception):
    """The property does not hold for the generated case."""


class HarnessError(Exception):
    """The machinery itself failed; this is never evidence of a violation."""


class Hang(BaseException):
    """One generated case ran for longer than the per-case allowance."""


HANG_SECONDS = 150


class Gen:
    """The source of every choice that a property makes."""

    def __init__(self, rng=None, prefix=(), limit=20000):
        self.rng = rng
        self.prefix = list(prefix)
        self.limit = limit
        self.choices = []
        self.bounds = []
        self.events = {}
        self.notes = []
        self.nontrivial_keys = []
        self.cleanups = []

    # --- primitive -------------------------------------------------------
    def _raw(self, n, pick=None):
        """One integer in [0, n]; 0 is the simplest choice."""
        i = len(self.choices)
        if i >= self.limit:
            raise Discard("choice limit")
        if i < len(self.prefix):
            v = self.prefix[i]
            if v > n or v < 0:
                v = n if v > n else 0
        elif self.rng is None:
            v = 0
        elif pick is not None:
            v = pick(self.rng)
        else:
            v = self.rng.randint(0, n)
        self.choices.append(v)
        self.bounds.append(n)
        return v

    # --- derived ---------------------------------------------------------
    def int(self, lo, hi):
        """An integer in [lo, hi]; shrinks to `lo`."""
        return lo + self._raw(hi - lo)

    def sint(self, lo, hi):
        """An integer in [lo, hi] that shrinks toward zero."""
        if lo >= 0 or hi <= 0:
            v = self._raw(hi - lo)
            return lo + v if lo >= 0 else hi - v
        n = hi - lo
        v = self._raw(n)
        # order 0, 1, -1, 2, -2, ...
        m = min(hi, -lo)
        if v <= 2 * m:
            k = (v + 1) // 2
            return k if v % 2 else -k
        k = m + (v - 2 * m)
        return k if hi > -lo else -k

    def bool(self, p=0.5):
        """True with probability `p`; shrinks to False."""
        return bool(self._raw(1, lambda r: int(r.random() < p)))

    def choice(self, seq):
        if not seq:
            raise HarnessError("choice from an empty sequence")
        return seq[self._raw(len(seq) - 1)]

    def weighted(self, pairs):
        """Pick from (weight, value) pairs; shrinks to the first."""
        total = sum(w for w, _ in pairs)

        def pick(r):
            x = r.random() * total
            for i, (w, _) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1
        return pairs[self._raw(len(pairs) - 1, pick)][1]

    def size(self, lo, hi, mean=None):
        """A length in [lo, hi], biased to be short."""
        if hi <= lo:
            return lo
        if mean is None:
            mean = lo + (hi - lo) / 3.0
        p = 1.0 / (1.0 + max(mean - lo, 0.1))

        def pick(r):
            n = 0
            while n < hi - lo and r.random() > p:
                n += 1
            return n
        return lo + self._raw(hi - lo, pick)

    def list(self, f, lo=0, hi=8, mean=None):
        """A list of items made by `f(self)`."""
        return [f(self) for _ in range(self.size(lo, hi, mean))]

    def shuffle(self, seq):
        out = list(seq)
        for i in range(len(out) - 1):
            j = i + self._raw(len(out) - 1 - i)
            out[i], out[j] = out[j], out[i]
        return out

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.bool(p)]

    def text(self, alphabet, lo=0, hi=8, mean=None):
        return ''.join(self.list(lambda g: g.choice(alphabet), lo, hi, mean))

    def float(self, lo=-1e6, hi=1e6, digits=4):
        """A decimal float with a few significant digits; shrinks to simple."""
        kind = self.weighted([(5, 'simple'), (4, 'digits'), (2, 'wide')])
        if kind == 'simple':
            a, b = max(lo, -20), min(hi, 20)
            if a <= b and int(b) >= int(a):
                k = self.sint(int(-(-a // 1)), int(b // 1))
                return float(k)
        if kind == 'wide' and hi >= 1:
            e = self.sint(-12, 12)
            m = self.int(1, 9999) / 1000.0
            s = -1.0 if lo < 0 and self.bool() else 1.0
            v = s * m * 10.0 ** e
            if lo <= v <= hi:
                return v
        n = 10 ** digits
        return lo + (hi - lo) * self._raw(n) / n

    def pos(self, emin=-6, emax=6):
        """A positive float spread over decades."""
        if self.bool(0.3):
            return float(self.int(1, 12))
        return self.int(1000, 9999) / 1000.0 * 10.0 ** self.sint(emin, emax)

    # --- reporting -------------------------------------------------------
    def event(self, name):
        """Count a class of generated case."""
        self.events[name] = self.events.get(name, 0) + 1

    def note(self, *what):
        """Record what this case is, for samples and for the replay file."""
        self.notes.append(' '.join(
            w if isinstance(w, str) else repr(w) for w in what
        )[:600])

    def nontrivial(self, *key):
        """Declare this case non-trivial, with a key that identifies it."""
        self.nontrivial_keys.append(repr(key))

    def cleanup(self, f):
        self.cleanups.append(f)


def discard(condition=True):
    if condition:
        raise Discard()


def check(condition, *message):
    """Fail the property unless `condition` is true."""
    if not condition:
        raise Violation(' '.join(
            m if isinstance(m, str) else _repr(m) for m in message
        ))


def _repr(x):
    try:
        return repr(x)
    except Exception as err:  # a broken repr must not hide the violation
        return f"<unprintable {type(x).__name__}: {err!r}>"


class raises:
    """Require that a block raises one of the given exception types."""

    def __init__(self, *types, what=''):
        self.types = types
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, kind, value, tb):
        if kind is None:
            raise Violation(
                f"expected {'/'.join(t.__name__ for t in self.types)}"
                f" but nothing was raised: {self.what}"
            )
        return issubclass(kind, self.types)


class Outcome:
    __slots__ = ('status', 'message', 'gen', 'trace')

    def __init__(self, status, message, gen, trace=''):
        self.status = status   # ok | discard | fail | error
        self.message = message
        self.gen = gen
        self.trace = trace


def _alarm(signum, frame):
    raise Hang()


def execute(fn, gen, hang=HANG_SECONDS):
    """Run one case and classify what happened."""
    if hang:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(hang)
    try:
        try:
            fn(gen)
        finally:
            if hang:
                signal.alarm(0)
            for f in reversed(gen.cleanups):
                try:
                    f()
                except Exception:
                    pass
    except Discard:
        return Outcome('discard', '', gen)
    except Violation as err:
        return Outcome('fail', str(err), gen, traceback.format_exc())
    except HarnessError as err:
        return Outcome('error', str(err), gen, traceback.format_exc())
    except Hang:
        return Outcome(
            'fail', f"did not finish within {hang} s", gen,
            traceback.format_exc(),
        )
    except (MemoryError, KeyboardInterrupt, SystemExit) as err:
        return Outcome('error', repr(err), gen, traceback.format_exc())
    except Exception as err:
        tb = err.__traceback__
        last = None
        while tb is not None:
            last = tb.tb_frame.f_code.co_filename
            tb = tb.tb_next
        trace = traceback.format_exc()
        if last == __file__:
            return Outcome('error', repr(err), gen, trace)
        return Outcome(
            'fail', f"unexpected {type(err).__name__}: {err}", gen, trace,
        )
    return Outcome('ok', '', gen)


def seed_for(*parts):
    digest = hashlib.sha256('|'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(digest[:8], 'big')


# --- isolated execution (fork) ------------------------------------------------

def in_child(f, timeout=None):
    """Run `f` in a forked child; return its JSON-able result or None."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            data = json.dumps(f()).encode()
            with os.fdopen(w, 'wb') as fp:
                fp.write(data)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    chunks = []
    with os.fdopen(r, 'rb') as fp:
        chunks.append(fp.read())
    _, status = os.waitpid(pid, 0)
    data = b''.join(chunks)
    if not data:
        return None
    return json.loads(data.decode())


def run_choices(fn, choices, hang=HANG_SECONDS):
    """Execute one recorded case in a pristine child process."""
    def job():
        out = execute(fn, Gen(prefix=choices), hang)
        return {
            'status': out.status,
            'message': out.message,
            'choices': out.gen.choices,
            'notes': out.gen.notes,
            'trace': out.trace,
        }
    return in_child(job)


def shrink(fn, choices, budget=60.0, maxruns=600):
    """Minimise a failing choice sequence (lexicographic, shortest first)."""
    deadline = time.time() + budget
    best = run_choices(fn, choices)
    if not best or best['status'] != 'fail':
        return None
    runs = [0]

    def key(c):
        return (len(c), c)

    def attempt(c):
        nonlocal best
        if time.time() > deadline or runs[0] >= maxruns:
            return False
        runs[0] += 1
        res = run_choices(fn, c, hang=20)
        if (
            res and res['status'] == 'fail'
            and key(res['choices']) < key(best['choices'])
        ):
            best = res
            return True
        return False

    improved = True
    while improved and time.time() < deadline and runs[0] < maxruns:
        improved = False
        # delete spans
        for k in (32, 16, 8, 4, 3, 2, 1):
            i = len(best['choices']) - k
            while i >= 0:
                cur = best['choices']
                if i + k <= len(cur) and attempt(cur[:i] + cur[i+k:]):
                    improved = True
                elif (
                    i + k < len(cur) and i > 0 and cur[i-1] > 0
                    and attempt(cur[:i-1] + [cur[i-1]-1] + cur[i+k:])
                ):
                    improved = True
                i -= 1
                if time.time() > deadline or runs[0] >= maxruns:
                    break
        # zero spans, then lower values
        for k in (8, 4, 2, 1):
            i = 0
            while i + k <= len(best['choices']):
                cur = best['choices']
                if any(cur[i:i+k]) and attempt(cur[:i] + [0]*k + cur[i+k:]):
                    improved = True
                i += 1
        i = 0
        while i < len(best['choices']):
            lo, cur = 0, best['choices']
            hi = cur[i]
            while lo < hi:
                mid = (lo + hi) // 2
                cur = best['choices']
                if i < len(cur) and attempt(cur[:i] + [mid] + cur[i+1:]):
                    improved = True
                    hi = mid
                else:
                    lo = mid + 1
                if time.time() > deadline or runs[0] >= maxruns:
                    break
            i += 1
    best['shrink_runs'] = runs[0]
    return best
