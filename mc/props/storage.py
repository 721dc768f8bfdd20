"""C21: version trees.  C24: database collections.  C26: connections.  C27: manifests."""

import itertools
import os
import subprocess
import sys
import tempfile
import textwrap

from gaspra.db_collections import DBCollection
from gaspra.db_tree import DBTree
from gaspra.manifest import add_manifest, doc_to_manifest, get_manifest, manifest_to_doc
from gaspra.memory_tree import MemoryTree

from mc.core import require
from mc import space
from mc.props.versions import contents_for, long_document, sized
from mc.store import Connections, Database, Model, make, shapes


class ReferenceTree:
    """Parents only; everything else follows from them and the order of addition."""

    def __init__(self):
        self.parent, self.base = {}, {}

    def add(self, tag, base):
        self.parent[tag], self.base[tag] = None, base

    def children(self, tag):
        return [t for t, p in self.parent.items() if p == tag]

    def heights(self):
        height = {}

        def of(tag):
            if tag not in height:
                height[tag] = 1 + max((of(c) for c in self.children(tag)), default=0)
            return height[tag]

        for tag in self.parent:
            of(tag)
        return height

    def path_to(self, tag):
        path = []
        while tag is not None:
            path.append(tag)
            tag = self.parent[tag]
        return tuple(reversed(path))

    def split(self, tag):
        """Half way along a longest path down (of several, along the versions
        that were added last)."""
        height, order = self.heights(), list(self.parent)
        path, depth = [tag], 1
        while depth < height[tag]:
            tag = max(self.children(tag), key=lambda c: (height[c], order.index(c)))
            path.append(tag)
            depth += 1
        return tag, tuple(path)


class Trees:
    ID = "C21"
    LEVEL = "model_checking"
    RULE = (
        "A state is a tree (the parents of all tags, and their order); a transition is the addition of a version as the store makes it "
        "(add, find the split, move it (twice, as the store does), move the old head), carried out by both trees and the model; a trace is a complete history."
    )
    ASSUMPTIONS = ["Trees are used as the version store uses them: each addition is followed by moving the split and the old head below the new version."]
    TAGS = ("m", "z", "a", "", "B", "b", "y'", "c", "q", "n", "A", "o", "e", "d")

    def bounds(self, tier):
        n, m = self.sizes(tier)
        return f"all shapes of histories of up to {n} additions; every state of histories of {m} additions on 1, 2 and 3 branches, on alternating branches, and of branches that end; paths of up to {2049 if tier == 'quick' else 10001} versions that are never split"

    def sizes(self, tier):
        return (8, 60) if tier == "quick" else (10, 250)

    def cases(self, tier):
        n, m = self.sizes(tier)
        for k in range(1, n + 1):
            for bases in shapes(k):
                yield "shape", bases
        for size in (16, 30, m):
            for branches in (1, 2, 3):
                yield "branches", size, branches
            for phase in (1, 2, 3, 5, 8, 13):
                yield "phases", size, phase

        for size in (33, 65, 129, 257, 513, 1025, 2049) if tier == "quick" else (33, 65, 129, 257, 513, 1025, 2049, 4097, 10001):
            yield "chain", size

    def chain(self, case, ctx):
        """A path that is never split, so that it gets long."""
        n = case[1]
        database = Database()
        try:
            for name, tree in {"memory": MemoryTree(), "database": DBTree(connection_factory=database)}.items():
                tags = [f"t{(i * 37) % 20011}" for i in range(n)]
                for i, tag in enumerate(tags):
                    tree.add(tag, tags[i - 1] if i else None)
                    if i:
                        tree.change_parent(tags[i - 1], tag)
                    ctx.count("transitions")
                    ctx.state((case, name, i))
                    if i in (n // 3, n - 2, n - 1):
                        steps = 0
                        while 1 + steps < i + 1 - steps:
                            steps += 1
                        split, path = tree.get_split(tag)
                        want = tuple(tags[i - k] for k in range(steps + 1))
                        require((split, tuple(path)) == (want[-1], want), "the split of a long path", name, case, i, split, len(path), want[-1], len(want))
                for k in {0, 1, 2, n // 2, n - 2, n - 1} | {n - 1 - (1 << e) for e in range(n.bit_length() - 1)}:
                    got = tuple(tree.path_to(tags[k]))
                    require(got == tuple(reversed(tags[k:])), "a long path", name, case, k, len(got), n - k)
                    require(tree.base_version(tags[k]) == (tags[k - 1] if k else None) and tags[k] in tree, "the base", name, case, k)
        finally:
            database.close()
        ctx.count("traces", 2)

    def bases(self, case):
        if case[0] == "shape":
            return case[1]
        if case[0] == "branches":
            return tuple(i - case[2] if i >= case[2] else None for i in range(case[1]))
        # A new branch after each `phase` additions; then the older ones go on.
        heads, out = [], []
        for i in range(case[1]):
            if i % case[2] == 0 and len(heads) < 4:
                out.append(None)
                heads.append(i)
            else:
                k = (i // case[2]) % len(heads)
                out.append(heads[k])
                heads[k] = i
        return tuple(out)

    def check(self, case, ctx):
        if case[0] == "chain":
            return self.chain(case, ctx)
        bases = self.bases(case)
        tags = self.TAGS if len(bases) <= len(self.TAGS) else [f"t{(i * 37) % 1000}" for i in range(len(bases))]
        database = Database()
        try:
            trees = {"memory": MemoryTree(), "database": DBTree(connection_factory=database)}
            model = ReferenceTree()
            for i, base in enumerate(bases):
                tag, base = tags[i], None if base is None else tags[base]
                for name, tree in trees.items():
                    require(tag not in tree, "a tag that was not added is reported", name, tag)
                    tree.add(tag, base)
                model.add(tag, base)
                if base is not None:
                    split, path = model.split(base)
                    for name, tree in trees.items():
                        got_split, got_path = tree.get_split(base)
                        require((got_split, tuple(got_path)) == (split, path), "the split", name, base, bases[: i + 1], got_split, got_path, split, path)
                        # The store tells a tree about the split twice.
                        for child in (split, split, base) if split != base else (base,):
                            tree.change_parent(child, tag)
                    if split != base:
                        model.parent[split] = tag
                    model.parent[base] = tag
                ctx.count("transitions")
                ctx.state((list(model.parent.items()), model.base))
                if case[0] == "shape" or i < 30 or i % 8 == 0:
                    for name, tree in trees.items():
                        for t in model.parent:
                            require(t in tree, "a tag is missing", name, t, bases[: i + 1])
                            require(tree.base_version(t) == model.base[t], "the base", name, t, bases[: i + 1])
                            got = tree.path_to(t)
                            require(tuple(got) == model.path_to(t), "the path to a tag", name, t, bases[: i + 1], got, model.path_to(t))
                            if case[0] == "shape" or model.parent[t] is None:
                                split, path = tree.get_split(t)
                                require((split, tuple(path)) == model.split(t), "the split", name, t, bases[: i + 1], split, path, model.split(t))
                        require("no such tag" not in tree, "an unknown tag is reported", name)
                        require(not tree.path_to("no such tag"), "a path to an unknown tag", name)
        finally:
            database.close()
        ctx.count("traces")
        ctx.note = model.path_to(tags[0])


KEYS = ("a", "", "A")
VALUES = (b"", b"x", b"\0\xff")
MISSING = object()
WRAPPED = ((b"", b""), (b"\xff\xfe", b""), (b"'", b"'"), (b"\0\0\0\0", b"\0\0\0\0"), (b"\x1f\x8b\x08", b"\r\n"), (b"SQLite format 3\0", b"\n"))


class Collections:
    ID = "C24"
    LEVEL = "model_checking"
    RULE = (
        "A state is the contents of a collection (in the model, a dict); a transition is an operation, carried out by the collection and by a "
        "dict, with the same result or the same exception; a trace is a sequence of operations after which everything observable is the same."
    )
    ASSUMPTIONS = ["Keys are texts that UTF-8 can encode (SQLite refuses lone surrogates) and values bytes. The order of iteration is not part of the property."]

    def operations(self):
        for key in KEYS:
            for value in VALUES:
                yield "set", key, value
            yield "del", key
            yield "pop", key
            yield "pop default", key, b"default"
            yield "setdefault", key, b"y"
            yield "get", key
        yield ("clear",)
        yield ("popitem",)
        yield ("replace all",)
        yield ("iterate twice",)
        yield "update", (("a", b"1"), ("", b"2"))

    def bounds(self, tier):
        n = 2 if tier == "quick" else 3
        return (
            f"from each of the {(len(VALUES) + 1) ** len(KEYS)} contents over keys {KEYS} and values {VALUES}, every sequence of {n} of the "
            f"{len(list(self.operations()))} operations; 24 unusual keys and values of sizes up to {'100000' if tier == 'quick' else '16777217'}; up to {'2049' if tier == 'quick' else '70000'} keys of 3 kinds, and {len(space.unusual_texts(False))} unusual keys, "
            "stored, replaced, iterated over and deleted; every value of up to two bytes, runs of every byte, and the unusual texts in 3 encodings in 6 frames as values; two collections in one database, and on the default connection"
        )

    def cases(self, tier):
        operations = list(self.operations())
        for contents in itertools.product((None, *VALUES), repeat=len(KEYS)):
            for n in range(0, (2 if tier == "quick" else 3) + 1):
                for sequence in itertools.product(operations, repeat=n):
                    yield "sequence", contents, sequence
        for i in range(len(self.ODD)):
            for j in range(len(self.ODD)):
                yield "keys", i, j
        for size in (0, 1, 255, 256, 257, 1000, 4095, 4096, 65536, 100000, *(() if tier == "quick" else (1 << 20, (1 << 24) + 1))):
            yield "value", size, 0
        for count in (10, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1025, 2049, *(() if tier == "quick" else (4097, 10000, 33000, 70000))):
            for kind in self.MANY:
                if kind != "unusual":
                    yield "many", count, kind
        yield "many", len(space.unusual_texts(False)), "unusual"
        for first in range(256):
            yield "bytes", first, 0
        for kind in range(len(WRAPPED)):
            yield "wrapped", kind, 0
        yield "default", 0, 0

    ODD = ("a ", " a", "a'b", 'a"b', "%", "_", ";", "--", "\n", "\u00e9", "e\u0301", "\U0001f600", "0", "00", "1.0", "1", "None", "NULL", "tag", "?", ":a", "a" * 300, "\u0130", "i")

    def check(self, case, ctx):
        database = Database()
        try:
            collection = DBCollection("first", connection_factory=database)
            other = DBCollection("second", connection_factory=database)
            model, second = {}, {"a": b"of the second", "z": b""}
            other.update(second)
            self.same(collection, model, case)
            if case[0] == "sequence":
                _, contents, sequence = case
                for key, value in zip(KEYS, contents):
                    if value is not None:
                        collection[key] = model[key] = value
                ctx.state(sorted(model.items()))
                if not sequence:
                    self.same(collection, model, case)
                for k, operation in enumerate(sequence):
                    result, expected = self.apply(collection, operation), None
                    if operation[0] == "popitem" and model:
                        require(isinstance(result, tuple) and result[0] in model and model.pop(result[0]) == result[1], "popitem", case, result)
                    else:
                        expected = self.apply(model, operation)
                        require(result == expected, "an operation does not do what it does on a dict", case, k, result, expected)
                    ctx.count("transitions")
                    ctx.state(sorted(model.items()))
                    self.same(collection, model, case)
            elif case[0] == "keys":
                x, y = self.ODD[case[1]], self.ODD[case[2]]
                for key, value in ((x, b"1"), (y, b"2"), (x, b"3")):
                    collection[key] = model[key] = value
                    ctx.count("transitions")
                    self.same(collection, model, case)
                del collection[x], model[x]
                self.same(collection, model, case)
                ctx.state(sorted(model.items()))
            elif case[0] == "many":
                self.many(collection, model, case, ctx)
            elif case[0] == "default":
                self.default(case)
            elif case[0] in ("bytes", "wrapped"):
                # Every value comes back as it is, alone and after another one.
                found, kept = [], list(self.values(case))
                for value in kept:
                    collection["k"] = value
                    found.append(collection["k"])
                    ctx.count("transitions")
                for i, (value, got) in enumerate(zip(kept, found)):
                    require(got == value and type(got) is bytes, "a value is not what was stored", case, i, value[:50], repr(got)[:200])
                for i, value in enumerate(kept):
                    collection[f"k{i}"] = model[f"k{i}"] = value
                model["k"] = kept[-1]
                self.same(collection, model, case)
            else:
                value = bytes(i * 7 % 256 for i in range(case[1]))
                collection["k"] = model["k"] = value
                self.same(collection, model, case)
            self.same(other, second, case)
        finally:
            database.close()
        ctx.count("traces")
        ctx.note = model if len(repr(model)) < 300 else None

    def values(self, case):
        if case[0] == "bytes":
            # Every value of up to two bytes, and runs of a byte at either end.
            first = bytes([case[1]])
            yield first
            for second in range(256):
                yield first + bytes([second])
            for n in (2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 255, 256, 257, 1000):
                run = first * n
                yield from (run, b"x" + run, run + b"x", b"x" + run + b"y", run + b"\0" + run, run + b"\xff")
        else:
            before, after = WRAPPED[case[1]]
            for text in space.unusual_texts(False):
                for encoding in ("utf-8", "utf-16", "utf-8-sig"):
                    yield before + text.encode(encoding) + after

    MANY = {
        "numbered": lambda i: f"key{i}",
        "unusual": lambda i: space.unusual_texts(False)[i],
        "scattered": lambda i: f"{i * 2654435761 % (1 << 32):08x}",
        "long": lambda i: "x" * (i % 97) + f"\u00e9{i}",
    }

    def many(self, collection, model, case, ctx):
        """A collection of very many keys, against a dict."""
        _, count, kind = case
        keys = [self.MANY[kind](i) for i in range(count)]

        def same():
            ctx.count("transitions")
            ctx.state((case, len(model)))
            require(len(collection) == len(model), "the length", case, len(collection), len(model))
            require(sorted(collection) == sorted(model), "the keys", case)
            require(dict(collection.items()) == model, "the items", case)

        for i, key in enumerate(keys):
            collection[key] = model[key] = b"%d" % i
            require(len(collection) == i + 1, "the length", case, i)
        same()
        for i, key in enumerate(keys):
            require(key in collection and collection[key] == model[key], "a value", case, key)
            require(key + "\u2603" not in collection and collection.get(key + "\u2603") is None, "a key that is not there", case, key)
            if i % 3 == 0:
                collection[key] = model[key] = b"again"
            elif i % 3 == 1:
                del collection[key], model[key]
                require(key not in collection, "a deleted key", case, key)
        same()
        for mapping in (collection, model):
            mapping.update({key: b"new" for key in keys[::2]})
        same()
        for key in list(collection):
            require(collection.pop(key) == model.pop(key), "a value", case, key)
        same()

    def default(self, case):
        """Collections on the connection that the package makes by itself."""
        program = textwrap.dedent(
            """
            import sys
            from gaspra import db_connections
            db_connections.DATABASE = sys.argv[1]
            from gaspra.db_collections import DBCollection
            x, y = DBCollection("x"), DBCollection("y")
            x["a"], y["a"], y["b"] = b"1", b"2", b"3"
            assert dict(x) == {"a": b"1"} and dict(y) == {"a": b"2", "b": b"3"}, (dict(x), dict(y))
            del y["a"]
            x.update(y)
            assert dict(x) == {"a": b"1", "b": b"3"} and dict(y) == {"b": b"3"}, (dict(x), dict(y))
            """
        )
        with tempfile.TemporaryDirectory() as scratch:
            path = os.pathsep.join(p for p in sys.path if p)
            run = subprocess.run([sys.executable, "-c", program, os.path.join(scratch, "default.db")], capture_output=True, text=True, cwd=scratch, env={**os.environ, "PYTHONPATH": path})
        require(run.returncode == 0, "collections on the default connection", case, run.stderr[-500:])

    def apply(self, mapping, operation):
        name, *args = operation
        try:
            if name == "set":
                mapping[args[0]] = args[1]
                return None
            if name == "del":
                del mapping[args[0]]
                return None
            if name == "replace all":
                for key in mapping:
                    mapping[key] = mapping[key] + b"!"
                return None
            if name == "iterate twice":
                return sorted((x, y) for x in mapping for y in mapping)
            if name == "update":
                return mapping.update(dict(args[0]))
            return getattr(mapping, name.split()[0])(*args)
        except KeyError as e:
            return "KeyError"

    def same(self, collection, model, case):
        require(len(collection) == len(model), "the length", case, len(collection), model)
        require(sorted(collection) == sorted(model), "the keys", case, list(collection), model)
        require(dict(collection.items()) == model and collection == model, "the items", case, dict(collection.items()), model)
        require(sorted(collection.values()) == sorted(model.values()), "the values", case)
        require(bool(collection) == bool(model), "the truth value", case)
        for key in (*KEYS, "b", *model):
            require((key in collection) == (key in model), "membership", case, key)
            require(collection.get(key, MISSING) == model.get(key, MISSING) if key in model else collection.get(key, MISSING) is MISSING, "get", case, key)
            require(collection.get(key) == model.get(key), "get without a default", case, key)
            try:
                got = collection[key]
            except KeyError:
                got = MISSING
            require(got is MISSING if key not in model else (got == model[key] and type(got) is bytes), "a value", case, key, got)


class Committed:
    """What was done is committed, whatever the connections are like."""

    ID = "C26"
    LEVEL = "model_checking"
    RULE = (
        "A state is what is stored (in the model: a dict, or the versions with their bases) and the kind of connections; a transition is an operation on it, "
        "after which another connection must see all of it; a trace is a sequence of operations."
    )
    ASSUMPTIONS = [
        "All connections are to one SQLite database (here, in memory and shared between connections), and used by one thread.",
        "A collection is not changed while it is iterated over, which SQLite does not allow between connections.",
    ]

    def bounds(self, tier):
        n, m = (6, 60) if tier == "quick" else (8, 200)
        return (
            f"factories of connections {Connections.MODES}; from each of {(len(VALUES) + 1) ** len(KEYS)} contents of a collection, every operation, and every sequence of 2 from 3 of them; "
            f"all shapes of histories of up to {n} additions, with two tokenizers, and of {m} additions on 1, 2 and 3 branches; all histories of 2 manifests over 2 files with 3 contents each"
        )

    def cases(self, tier):
        operations = [o for o in Collections().operations() if o[0] != "replace all"]
        n, m = (6, 60) if tier == "quick" else (8, 200)
        for mode in Connections.MODES:
            for contents in itertools.product((None, *VALUES), repeat=len(KEYS)):
                for operation in operations:
                    yield "collection", mode, contents, (operation,)
            for contents in ((None, None, None), (VALUES[1], None, VALUES[0]), VALUES):
                for sequence in itertools.product(operations, repeat=2):
                    yield "collection", mode, contents, sequence
            for k in range(1, n + 1):
                for bases in shapes(k):
                    for tokenizer in ("null", "line"):
                        yield "history", mode, tokenizer, bases, "documents"
            for branches in (1, 2, 3):
                for kind in ("growing", "moving", "bytes"):
                    yield "history", mode, "line", tuple(i - branches if i >= branches else None for i in range(m)), kind
            for first, second in itertools.product(itertools.product(range(4), repeat=2), repeat=2):
                for based in (False, True):
                    yield "manifests", mode, first, second, based

    def check(self, case, ctx):
        connections = Connections(case[1])
        try:
            getattr(self, case[0])(connections, ctx, case)
        finally:
            connections.close()
        ctx.count("traces")

    def collection(self, connections, ctx, case):
        _, mode, contents, sequence = case
        collection, other = (DBCollection(name, connection_factory=connections) for name in ("first", "second"))
        model = {}
        connections.between()
        for key, value in zip(KEYS, contents):
            if value is not None:
                collection[key] = model[key] = value
                connections.between()
        other["a"] = b"other"
        connections.between()
        for k, operation in enumerate(sequence):
            apply = Collections().apply
            result = apply(collection, operation)
            connections.between()
            if operation[0] == "popitem" and model:
                require(isinstance(result, tuple) and result[0] in model and model.pop(result[0]) == result[1], "popitem", case, result)
            else:
                expected = apply(model, operation)
                require(result == expected, "an operation does not do what it does on a dict", case, k, result, expected)
            Collections().same(collection, model, case)
            self.seen(connections, collection, model, case)
            ctx.count("transitions")
            ctx.state(("collection", mode, sorted(model.items())))
        require(dict(other) == {"a": b"other"}, "the other collection", case, dict(other))

    def seen(self, connections, collection, model, case):
        """Another connection sees the same."""
        current, mode = connections.current, connections.mode
        connections.current = connections.open()
        try:
            require(dict(collection.items()) == dict(model), "another connection does not see what was stored", case, dict(collection.items()), dict(model))
        finally:
            connections.current.close()
            connections.current = current

    def history(self, connections, ctx, case):
        _, mode, tokenizer, bases, kind = case
        store, (twin, close) = connections.store(tokenizer), make("memory", tokenizer)
        model = Model()
        for i, base in enumerate(bases):
            tag, base = f"t{i * 37 % 1009}", None if base is None else f"t{base * 37 % 1009}"
            contents = contents_for(i) if kind == "documents" else long_document(i, kind)
            connections.between()
            store.add(tag, contents, base)
            connections.between()
            twin.add(tag, contents, base)
            model.add(tag, contents, base)
            ctx.count("transitions")
            ctx.state((mode, tokenizer, bases[: i + 1], kind))
            # Shorter histories are cases of their own.
            if i < len(bases) - 1 and (kind == "documents" or i % 8):
                continue
            current = connections.current
            for other in (False, True):
                if other:
                    connections.current = connections.open()
                try:
                    require(set(store.head_version) == set(model.heads), "not exactly the heads are stored in full", case, i, set(store.head_version))
                    require(dict(store.diffs) == dict(twin.diffs) and dict(store.head_version) == dict(twin.head_version), "what is stored depends on the connections", case, i)
                    for t, c in model.contents.items():
                        require(t in store and store.get(t) == c, "a version is not what was added", case, i, t, store.get(t), c)
                        require(store.version_info(t) == twin.version_info(t) and store.version_info(t).base_version == model.base[t], "the information on a version", case, i, t)
                        got = store.tree.get_split(t), tuple(store.tree.path_to(t))
                        want = twin.tree.get_split(t), tuple(twin.tree.path_to(t))
                        require((got[0][0], tuple(got[0][1]), got[1]) == (want[0][0], tuple(want[0][1]), want[1]), "the tree depends on the connections", case, i, t, got, want)
                    require("none" not in store and store.get("none") is None and store.version_info("none") is None, "an unknown version is reported", case)
                finally:
                    if other:
                        connections.current.close()
                        connections.current = current
        close()

    def manifests(self, connections, ctx, case):
        _, mode, first, second, based = case
        store = connections.store("line")
        names, contents = ("f", "g/h"), {}
        added = []
        for i, choice in enumerate((first, second)):
            manifest = {}
            for name, k in zip(names, choice):
                if k:
                    tag = f"{name} {k}"
                    manifest[name], contents[tag] = tag, b"file %d\nof it\n" % k + name.encode()
            connections.between()
            add_manifest(f"m{i}", manifest, store, contents, "m0" if i and based else None)
            connections.between()
            added.append(manifest)
            ctx.count("transitions")
            ctx.state((mode, first, second if i else None, based))
        current = connections.current
        connections.current = connections.open()
        try:
            for i, manifest in enumerate(added):
                require(get_manifest(store, f"m{i}") == manifest, "another connection does not see a manifest", case, i)
                for tag in manifest.values():
                    require(store.get(tag) == contents[tag], "another connection does not see a file", case, tag)
        finally:
            connections.current.close()
            connections.current = current


FILES = ("f", "g/h")
FILE_DOCS = (b"one\ntwo\n", b"one\n2\ntwo\n", b"")


class Manifests:
    ID = "C27"
    LEVEL = "model_checking"
    RULE = (
        "A state is a history of manifests; a transition is add_manifest(), carried out by the implementation and by the model (which just keeps the manifests and the contents); a trace is a complete history."
    )
    ASSUMPTIONS = ["The base of a manifest is None or a manifest that is the head of its branch, as the store demands."]

    def bounds(self, tier):
        return (
            f"all histories of {self.depth(tier)} manifests (each on no base or on any head) over the files {FILES}, each of which is absent, at one of {len(FILE_DOCS)} "
            "contents with a tag of its own, or shares its version with the other file; in memory and (shorter) on SQLite; "
            f"{len(space.unusual_texts())} unusual names and tags; manifests with {len(self.NAMES)} unusual tags based on one another; manifests of up to {'300' if tier == 'quick' else '3000'} files (SQLite: 19); files of up to {'65537' if tier == 'quick' else '300000'} bytes"
        )

    def depth(self, tier):
        return 3 if tier == "quick" else 4

    def options(self):
        """What a commit can contain: name -> version tag."""
        per_file = [
            [None, *(f"{name}@{d}" for d in range(len(FILE_DOCS))), "shared@1"]
            for name in FILES
        ]
        for choice in itertools.product(*per_file):
            manifest = {n: t for n, t in zip(FILES, choice) if t is not None}
            yield manifest
            # The order of the files is kept, too.
            if len(manifest) > 1 and choice[1] != choice[0]:
                if choice[0][-1] == "0" and choice[1][-1] == "1":
                    yield dict(reversed(manifest.items()))

    def cases(self, tier):
        options = range(len(list(self.options())))
        depth = self.depth(tier)
        for n in range(1, depth + 1):
            for bases in shapes(n):
                if n == 4 and bases not in ((None, 0, 1, 2), (None, 0, None, 1)):
                    continue
                some = options if n < 4 else [o for o in options if o % 3 == 0]
                for choice in itertools.product(some, repeat=n):
                    yield "memory", bases, choice
                    if n < depth and n < 3:
                        yield "database", bases, choice
        for backend in ("memory", "database"):
            for half in (0, 1):
                yield backend, "many names", half
            for i in range(len(self.NAMES)):
                yield backend, "names", i
                yield backend, "tags", i
            for size in (1, 16, 17, 64, 65, 100, 255, 256, 257, 300):
                if backend == "memory" or size < 20:
                    yield backend, "files", size
                    yield backend, "commits", size
            for size in (1000, 1025, 2049, 3000) if tier != "quick" and backend == "memory" else ():
                yield backend, "files", size
            for size in (255, 1025, 2289, 8193, 65537, *(() if tier == "quick" else (300000,))):
                yield backend, "size", size

    NAMES = ("", " ", "a b", "a,b", 'a"b', "a:b", "a\nb", ",\n", '",\n"', "\u00e9", "\U0001f600", "\\", "\\n", "{}", "[]", "null", "0", "a/b/c", "..", "\0", "\u2028", "\x7f", "caf\udce9", "\ud800")

    def check(self, case, ctx):
        backend, what = case[:2]
        store, close = make(backend, "line" if what in ("files", "commits") else "null")
        commits, contents = [], {}
        try:
            if what == "names":
                name = self.NAMES[case[2]]
                # SQLite has no text with surrogates.
                tag = name if backend == "memory" else name.encode("utf-8", "replace").decode()
                first = {name: "t" + tag, "x": "tx"}
                self.commit(store, commits, contents, first, None, {"t" + tag: b"1\n", "tx": b"2\n"})
                self.commit(store, commits, contents, {name: "u" + tag, "x": "tx"}, 0, {"u" + tag: b"1\n3\n"})
                self.compare(store, commits, contents, case)
            elif what == "tags":
                # Manifests with unusual tags, one based on the other.
                names = [self.NAMES[(case[2] + k) % len(self.NAMES)] for k in range(3)]
                if backend == "database":
                    names = [n.encode("utf-8", "replace").decode() for n in names]
                for k, tag in enumerate([*names, "last"]):
                    manifest = {"f": f"f@{k // 2}", "g": f"g@{k}"}
                    new = {t: b"line\n" * 5 + t.encode() for t in manifest.values()}
                    self.commit(store, commits, contents, manifest, k - 1 if k else None, new, tag=tag)
                    ctx.count("transitions")
                    ctx.state((case, k))
                    self.compare(store, commits, contents, case)
            elif what == "many names":
                # Names and tags that differ little, all in one manifest.
                names, tags = space.unusual_texts(), space.unusual_texts(backend == "memory")
                names = names[case[2] :: 2]
                for i in range(3):
                    manifest = {name: tags[(7 * k + i // 2) % len(tags)] for k, name in enumerate(names) if k % 5 or i != 1}
                    self.commit(store, commits, contents, manifest, i - 1 if i else None, {t: contents.get(t, b"contents of %d\n" % len(t) + repr(t).encode()) for t in manifest.values()}, "commit ")
                    ctx.count("transitions")
                    ctx.state((case, i))
                self.compare(store, commits, contents, case)
            elif what == "size":
                for i in range(4):
                    big = {f"{f}@{i}": sized(case[2] + i, (i + k) % 4) for k, f in enumerate(("f", "g", "h"))}
                    manifest = {f: f"{f}@{i - i % (k + 1)}" for k, f in enumerate(("f", "g", "h"))}
                    self.commit(store, commits, contents, manifest, i - 1 if i else None, {t: big.get(t, contents.get(t)) for t in manifest.values()})
                    ctx.count("transitions")
                    ctx.state((case, i))
                    self.compare(store, commits, contents, (case, i))
            elif what in ("files", "commits"):
                n = case[2]
                if what == "files":
                    first = {f"file{i}": f"file{i}@0" for i in range(n)}
                    second = {f: t if int(f[4:]) % 3 else f + "@1" for f, t in first.items()}
                    third = {f: t for f, t in second.items() if int(f[4:]) % 5}
                    history = [first, second, third, first]
                else:
                    history = [{"f": f"f@{i}", "g": f"g@{i // 4}"} for i in range(n)]
                for i, manifest in enumerate(history):
                    self.commit(store, commits, contents, manifest, i - 1 if i else None, {t: (t + "\nbody\n").encode() for t in manifest.values()})
                    ctx.count("transitions")
                    ctx.state((case, i))
                    if i % 16 == 0:
                        self.compare(store, commits, contents, case)
                self.compare(store, commits, contents, case)
            else:
                options = list(self.options())
                for i, (base, choice) in enumerate(zip(what, case[2])):
                    manifest = options[choice]
                    self.commit(store, commits, contents, manifest, base, {t: FILE_DOCS[int(t[-1])] for t in manifest.values()})
                    ctx.count("transitions")
                    ctx.state((backend, what[: i + 1], case[2][: i + 1]))
                    self.compare(store, commits, contents, case)
        finally:
            close()
        ctx.count("traces")
        ctx.note = commits if len(commits) < 5 and len(repr(commits)) < 500 else None

    def commit(self, store, commits, contents, manifest, base, new, prefix="m", tag=None):
        tag = f"{prefix}{len(commits)}" if tag is None else tag
        given, contents_given = dict(manifest), dict(new)
        base = None if base is None else commits[base][0]
        add_manifest(tag, manifest, store, new, base)
        require(manifest == given, "the manifest passed to add_manifest() was changed", given, manifest)
        require(new == contents_given, "the contents passed to add_manifest() were changed", given, new)
        commits.append((tag, given, base))
        for t in manifest.values():
            if t not in contents:
                contents[t] = new[t]

    def compare(self, store, commits, contents, case):
        for tag, manifest, base in commits:
            got = get_manifest(store, tag)
            require(got == manifest, "a manifest is not what was added", case, tag, got, manifest)
            require(list(got) == list(manifest), "a manifest is not in the order it was added", case, tag, got, manifest)
            require(store.version_info(tag).base_version == base, "the base of a manifest", case, tag)
            require(doc_to_manifest(manifest_to_doc(manifest)) == manifest, "a manifest changes when it is stored", case, manifest)
        for tag, expected in contents.items():
            got = store.get(tag)
            require(got == expected, "a file of a manifest is not what was added", case, tag, got, expected)
