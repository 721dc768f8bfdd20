"""Counting the work of the package: executed lines and token operations."""

import os
import sys
from collections.abc import Sequence

import gaspra

PACKAGE = os.path.dirname(os.path.abspath(gaspra.__file__)) + os.sep


class Work:
    amount = 0


class CountedToken:
    __slots__ = ("value",)

    def __init__(self, value):
        self.value = value

    def __hash__(self):
        Work.amount += 1
        return hash(self.value)

    def __eq__(self, other):
        Work.amount += 1
        return isinstance(other, CountedToken) and self.value == other.value

    def __repr__(self):
        return f"T{self.value}"


class CountedSequence(Sequence):
    """A sequence of tokens that counts what is read and copied."""

    def __init__(self, tokens):
        self.tokens = tokens

    @classmethod
    def of(cls, word):
        return cls(tuple(CountedToken(c) for c in word))

    def __len__(self):
        return len(self.tokens)

    def __getitem__(self, key):
        part = self.tokens[key]
        if isinstance(key, slice):
            Work.amount += len(part)
            return CountedSequence(part)
        Work.amount += 1
        return part

    def __iter__(self):
        for t in self.tokens:
            Work.amount += 1
            yield t

    def __add__(self, other):
        Work.amount += len(self.tokens) + len(other)
        return CountedSequence(self.tokens + tuple(other))

    def __eq__(self, other):
        Work.amount += len(self.tokens)
        return isinstance(other, CountedSequence) and self.tokens == other.tokens

    def __hash__(self):
        Work.amount += len(self.tokens)
        return hash(self.tokens)


def counting(action):
    """The work of an action."""

    def local(frame, event, arg):
        if event == "line":
            Work.amount += 1
        return local

    def trace(frame, event, arg):
        if frame.f_code.co_filename.startswith(PACKAGE):
            Work.amount += 1
            return local
        return None

    Work.amount = 0
    previous = sys.gettrace()
    sys.settrace(trace)
    try:
        action()
    finally:
        sys.settrace(previous)
    return Work.amount
