"""Violation type, case recorder, and helpers every check uses."""
import contextlib
import hashlib
import json


class Violation(Exception):
    """The property under test does not hold for this case."""


class HarnessError(Exception):
    """The harness itself went wrong (never reported as a violation)."""


def require(cond, fmt, *args):
    """Raise Violation with a formatted message unless cond."""
    if not cond:
        raise Violation(fmt % args if args else fmt)


def same(actual, expected, fmt, *args):
    """Raise Violation unless actual == expected (and both are not confused by bool/int)."""
    if not actual == expected:
        what = fmt % args if args else fmt
        raise Violation("%s: expected %r, got %r" % (what, expected, actual))


@contextlib.contextmanager
def observing(what):
    """Reading the outcome: an object of the wrong shape is a wrong outcome, not a harness error."""
    try:
        yield
    except (Violation, HarnessError):
        raise
    except Exception as error:  # pylint: disable=broad-except
        raise Violation("%s: %s: %s" % (what, type(error).__name__, error)) from error


class Recorder:
    """Collects what a case turned out to be: labels, and whether it was non-trivial."""

    def __init__(self):
        self.labels = {}
        self.interesting = False

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def nontrivial(self, cond=True):
        if cond:
            self.interesting = True


def case_hash(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
