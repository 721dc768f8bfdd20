"""Exhaustive bounded exploration: case enumeration, sharding, evidence.

A property module defines a class with

    ID, LEVEL, RULE, ASSUMPTIONS
    cases(tier)        -> iterator of cases (plain literals, simplest first)
    check(case, ctx)   -> raises Violation when the property does not hold

The cases of a tier are enumerated completely and in the same order in every
worker; worker i decides cases i, i+N, i+2N, ...  Nothing is sampled and no
case is skipped: a run that cannot finish its enumeration reports an error.
"""

import hashlib


class Violation(Exception):
    """The property does not hold for this case."""


class TooLong(BaseException):
    """A case did not terminate in the time a case may take."""


class Ctx:
    """What a worker measures while it decides its cases."""

    def __init__(self, scratch=None):
        self.counts = {}
        self.hashes = set()
        self.states = set()
        self.outcomes = set()
        self.scratch = scratch
        self.note = None

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def nontrivial(self, key):
        self.hashes.add(digest(key))

    def state(self, key):
        """Record a (canonical) state; True if this worker had not seen it."""
        h = digest(key)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def outcome(self, key):
        self.outcomes.add(digest(key))


def digest(key):
    if not isinstance(key, bytes):
        key = repr(key).encode("utf-8", "surrogatepass")
    return hashlib.blake2b(key, digest_size=8).digest()


def require(condition, message, *details):
    if not condition:
        raise Violation(message + (": " + "; ".join(show(d) for d in details) if details else ""))


def show(x, limit=300):
    s = x if isinstance(x, str) and len(x) < 40 else repr(x)
    return s if len(s) <= limit else s[: limit // 2] + "..." + s[-limit // 2 :]
