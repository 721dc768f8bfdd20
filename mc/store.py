"""Version stores on both backends, and the model they are compared with."""

import os
import sqlite3

from gaspra.db_collections import DBCollection
from gaspra.db_tree import DBTree
from gaspra.memory_tree import MemoryTree
from gaspra.tokenizers import CharTokenizer, LineTokenizer, NullTokenizer, SymbolTokenizer
from gaspra.versions import Versions

TOKENIZERS = {"null": NullTokenizer, "char": CharTokenizer, "line": LineTokenizer, "symbol": SymbolTokenizer}


class Faults:
    """Counts the operations on the database, and lets one of them fail."""

    def __init__(self):
        self.count = 0
        self.fail_at = None
        self.failed = 0

    def step(self):
        self.count += 1
        if self.fail_at is not None and self.count == self.fail_at:
            self.failed += 1
            raise sqlite3.OperationalError("injected fault")


class FaultyCursor(sqlite3.Cursor):
    def execute(self, *args):
        self.connection.faults.step()
        return super().execute(*args)

    def executemany(self, *args):
        self.connection.faults.step()
        return super().executemany(*args)


class FaultyConnection(sqlite3.Connection):
    faults = None

    def __init__(self, *args, **options):
        super().__init__(*args, **options)
        # Python runs now and then, so that an endless query can be ended.
        self.set_progress_handler(lambda: 0, 1_000_000)

    def cursor(self, factory=FaultyCursor):
        return super().cursor(factory)

    def execute(self, *args):
        return self.cursor().execute(*args)

    def commit(self):
        # A commit that fails, as one does when the disk is full: nothing
        # of the transaction is stored.
        if self.faults is not None and self.in_transaction:
            self.faults.step()
        super().commit()

    def __enter__(self):
        super().__enter__()
        return self

    def __exit__(self, kind, value, tb):
        if kind is None:
            try:
                self.commit()
            except BaseException:
                self.rollback()
                raise
        else:
            self.rollback()
        return False


def memory_store(tokenizer="null"):
    return Versions(tokenizer_factory=TOKENIZERS[tokenizer])


class Database:
    """A private in-memory database, closed at the end of the case."""

    def __init__(self, faults=None):
        self.connection = sqlite3.connect(":memory:", factory=FaultyConnection)
        self.connection.faults = faults if faults is not None else Faults()

    def __call__(self):
        return self.connection

    def store(self, tokenizer="null"):
        return Versions(
            head_version=DBCollection("heads", connection_factory=self),
            diffs=DBCollection("diffs", connection_factory=self),
            tree=DBTree(connection_factory=self),
            tokenizer_factory=TOKENIZERS[tokenizer],
        )

    def close(self):
        self.connection.close()


class Connections:
    """A database in memory that several connections share, and a factory of
    connections to it:

    fresh       a new connection for each use
    reopened    one connection, closed (without a commit) and opened again
                between operations
    autocommit  one connection that commits each statement by itself
    one         one connection
    """

    MODES = ("one", "fresh", "reopened", "autocommit")
    made = 0

    def __init__(self, mode, faults=None):
        Connections.made += 1
        self.uri = f"file:/mc-{os.getpid()}-{Connections.made}?vfs=memdb"
        self.mode, self.faults = mode, faults
        self.anchor = self.open()
        self.current = self.open()

    def open(self):
        options = {"isolation_level": None} if self.mode == "autocommit" else {}
        connection = sqlite3.connect(self.uri, uri=True, timeout=0, factory=FaultyConnection, **options)
        connection.faults = self.faults if self.faults is not None else Faults()
        return connection

    def __call__(self):
        return self.open() if self.mode == "fresh" else self.current

    def between(self):
        if self.mode == "reopened":
            self.current.close()
            self.current = self.open()

    store = Database.store

    def close(self):
        self.current.close()
        self.anchor.close()


def make(backend, tokenizer="null", faults=None):
    """A store, and what to call when it is no longer needed."""
    if backend == "memory":
        return memory_store(tokenizer), lambda: None
    database = Database(faults)
    return database.store(tokenizer), database.close


class Model:
    """What a version store is: contents and bases, and which are heads."""

    def __init__(self):
        self.contents, self.base, self.heads = {}, {}, []

    def add(self, tag, contents, base):
        self.contents[tag], self.base[tag] = contents, base
        if base is not None:
            self.heads.remove(base)
        self.heads.append(tag)


def shapes(n):
    """All histories of n additions: for each one its base, None or a head
    (given by its position in the order of addition)."""

    def extend(bases, heads):
        if len(bases) == n:
            yield tuple(bases)
            return
        for base in [None, *heads]:
            rest = [h for h in heads if h != base]
            yield from extend(bases + [base], rest + [len(bases)])

    return extend([], [])
