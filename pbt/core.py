"""Violations, checks and the per-case recorder shared by all properties."""
import contextlib
import io
import json
import hashlib
import warnings


class Violation(Exception):
    """The property is broken on this case (raised by oracles only)."""


class HarnessError(Exception):
    """The machinery itself failed; never reported as a violation."""


def check(cond, *msg):
    if not cond:
        raise Violation(" ".join(str(m) for m in msg))


def rejected(fn):
    """Runs fn; True iff it refuses its input with an ordinary exception."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn()
    except Violation:
        raise
    except Exception:
        return True
    return False


def key(sub, spec):
    s = json.dumps([sub, spec], sort_keys=True, default=str)
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(),
                          "big")


class Rec:
    """Collects, for one case, its labels and whether it is non-trivial."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def note(self, *labels):
        self.labels.extend(labels)

    def hard(self, cond=True):
        """Marks the case non-trivial (by the property's stated rule)."""
        if cond:
            self.nontrivial = True


class Sub:
    """One generated check: a strategy of JSON-able specs and an oracle."""

    def __init__(self, name, strategy, fn, quick):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick


@contextlib.contextmanager
def muted():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            yield
