"""The version store: C19, C20, C22, C23, C25."""

import itertools
from collections.abc import MutableMapping

from gaspra.serialize import deserialize_changeset
from gaspra.versions import Versions

from mc.core import require
from mc import space
from mc.store import Connections, Database, Faults, Model, TOKENIZERS, make, shapes

DOCS = (b"", b"a", b"a\n", b"b\na\n", b"a\nb", b"a\na\nb\n", b"b a\nb")
BINARY = (b"\xff", b"\0\xff\n", b"", b"\n\xfe\0\n")
SHAPE_DOCS = (b"one\ntwo\nthree\n", b"one\n2\nthree\n", b"zero\none\n2\nthree\n", b"", b"2\nthree\nzero\none", b"one\ntwo\nthree\n", b"three\n\n", b"x", b"zero\n2\nx\n", b"y z")
TAGS = {
    "text": ("a", "b", "c", "d", "e", "f", "g", "h", "i"),
    "unordered": ("m", "z", "a", "k", "b", "y", "c", "q", "l"),
    "odd text": ("", " ", "A", "a", "a ", "'; DROP TABLE graph; --", "%", "\u00e9", "None", "0"),
    "numbers": (0, 1, -1, 2, -2, 1 << 61, 5, 3, 4),
    "mixed": (0, "", (), "0", False + 1, (0,), b"", frozenset(), 0.5),
}


def contents_for(i):
    return SHAPE_DOCS[i % len(SHAPE_DOCS)]


def long_document(i, kind):
    """The i-th version of a long history."""
    if kind == "growing":
        return b"".join(b"line %d\n" % k for k in range(i + 1))
    if kind == "shrinking":
        return b"".join(b"line %d\n" % k for k in range(i, 40))
    if kind == "moving":
        return b"".join(b"line %d\n" % ((k * 7 + i) % 23) for k in range(20))
    if kind == "alternating":
        return (b"left\nright\n", b"right\nleft\n", b"")[i % 3]
    if kind == "constant":
        return b"the same\n"
    return bytes((i * i + k * (i % 5 + 1)) % 256 for k in range(i % 37))


def sized(size, k):
    """Documents whose length is exactly `size`, with a few edits."""
    unit = [b"%05x" % (i * 2654435761 % 1048576) for i in range(size // 5 + 3)]
    if k == 1:
        unit[len(unit) // 2] = b"-----"
    if k == 2:
        unit[0], unit[-2] = b"=====", b"====="
    if k == 3:
        unit = unit[len(unit) // 2 :] + unit[: len(unit) // 2]
    return b"".join(unit)[:size]


def history(case):
    """(backend, tokenizer, [(tag, contents, base)])"""
    kind, backend, tokenizer = case[:3]
    if kind == "words":
        steps = [(f"v{i}", word.encode(), f"v{i - 1}" if i else None) for i, word in enumerate(case[3])]
    elif kind == "shape":
        bases, tags = case[3], TAGS[case[4]]
        steps = [(tags[i], contents_for(i), None if b is None else tags[b]) for i, b in enumerate(bases)]
    elif kind == "contents":
        bases, docs = case[3], case[4]
        pool = BINARY if case[5] else DOCS
        steps = [(f"v{i}", pool[d], None if b is None else f"v{b}") for i, (b, d) in enumerate(zip(bases, docs))]
    elif kind == "long":
        _, _, _, branches, n, which = case
        steps = [(f"v{i}", long_document(i, which), f"v{i - branches}" if i >= branches else None) for i in range(n)]
    elif kind == "names":
        branches = case[3]
        tags = space.unusual_texts(backend == "memory")
        steps = [(tag, b"contents %d\n" % i, tags[i - branches] if i >= branches else None) for i, tag in enumerate(tags)]
    elif kind == "texts":
        branches = case[3]
        texts = space.unusual_texts(False)
        steps = [(f"text {i}", text.encode(), f"text {i - branches}" if i >= branches else None) for i, text in enumerate(texts)]
    elif kind == "size":
        size, order = case[3], case[4]
        steps = [(f"v{i}", sized(s, k), f"v{i - 1}" if i else None) for i, (s, k) in enumerate(zip((size, size + 1, size, size - 1 if size else 0, 3), order))]
    return backend, tokenizer, steps


class History:
    LEVEL = "model_checking"
    UNUSUAL = True
    RULE = (
        "A state is a store reached by a history of additions (in the model: the sequence of contents and bases); a transition is an addition to "
        "it, carried out by the implementation and by the model; a trace is a complete history whose every state was compared."
    )
    ASSUMPTIONS = [
        "Histories are sequences of add() calls on one store by one thread; a base is None or a head, as the store demands.",
        "Databases are private SQLite databases in memory, given to the store as its connection factory.",
    ]
    SIZES = dict(quick=dict(shape=8, db_shape=7, words=(8, 7), linear=4, tree=3, long=(60,), sizes=(0, 1, 16, 64, 239, 240, 241, 242, 255, 256, 257, 2287, 2288, 2289, 8191, 8193, 65537)),
                 thorough=dict(shape=9, db_shape=8, words=(10, 9), linear=5, tree=4, long=(60, 200), sizes=(0, 1, 2, 15, 16, 17, 63, 64, 65, 127, 128, 129, 239, 240, 241, 242, 255, 256, 257, 1023, 1024, 1025, 2286, 2287, 2288, 2289, 4096, 65535, 65536, 67823, 67824, 67825, 262145, 1 << 20)))

    def bounds(self, tier):
        s = self.SIZES[tier]
        return (
            f"all shapes of histories (every addition on no base or on any head) of up to {s['shape']} additions in memory and {s['db_shape']} on SQLite, with 5 sets of tags; "
            f"all pairs and triples of words of at most {s['words']} letters in all on one branch; all sequences of {s['linear']} of 7 contents on one branch and of {s['tree']} on all shapes (4 binary ones too), for each of 4 tokenizers; histories of {s['long']} additions on 1, 2 and 3 "
            f"branches with 6 kinds of contents; contents of sizes {s['sizes']}"
            + (f"; {len(space.unusual_texts())} unusual tags, or texts, in one store" if self.UNUSUAL else "")
        )

    def cases(self, tier):
        s = self.SIZES[tier]
        for n in range(1, s["shape"] + 1):
            for bases in shapes(n):
                yield "shape", "memory", "null", bases, "text"
                if n <= s["db_shape"]:
                    yield "shape", "database", "null", bases, "unordered"
                if n <= 4:
                    for tags in TAGS:
                        yield "shape", "memory", "line", bases, tags
                    yield "shape", "database", "symbol", bases, "odd text"
        for parts, most in zip((2, 3), s["words"]):
            for words in space.word_tuples(parts, most, 4):
                yield "words", "memory", "null", words
                if sum(map(len, words)) < most - 1:
                    yield "words", "database", "char", words
        for tokenizer in TOKENIZERS:
            for n in range(1, s["linear"] + 1):
                bases = (None, *range(n - 1))
                for docs in itertools.product(range(len(DOCS)), repeat=n):
                    yield "contents", "memory", tokenizer, bases, docs, False
                    if n <= 3 and (tier != "quick" or n < 3 or tokenizer == "line"):
                        yield "contents", "database", tokenizer, bases, docs, False
            for bases in shapes(s["tree"]):
                for docs in itertools.product(range(len(DOCS)), repeat=s["tree"]):
                    yield "contents", "memory", tokenizer, bases, docs, False
        for tokenizer in ("null", "line"):
            for n in (3, 4):
                for docs in itertools.product(range(len(BINARY)), repeat=n):
                    yield "contents", "memory" if n == 4 else "database", tokenizer, (None, *range(n - 1)), docs, True
        for n in s["long"]:
            for branches in (1, 2, 3):
                for which in ("growing", "shrinking", "moving", "alternating", "constant", "bytes"):
                    for tokenizer in ("null", "line") if which == "bytes" else TOKENIZERS:
                        yield "long", "memory", tokenizer, branches, n, which
                    yield "long", "database", "line", branches, n, which
        for size in s["sizes"]:
            for tokenizer in TOKENIZERS if size < 3000 else ("null",):
                for order in ((0, 1, 2, 0, 3), (3, 0, 0, 1, 2)):
                    yield "size", "memory", tokenizer, size, order
                yield "size", "database", tokenizer, size, (1, 0, 2, 1, 0)
        if self.UNUSUAL:
            for branches in (1, 100, 1000):
                yield "names", "memory", "null", branches
                yield "names", "database", "line", branches
                for tokenizer in TOKENIZERS:
                    yield "texts", "memory" if branches == 1 else "database", tokenizer, branches

    def check(self, case, ctx):
        backend, tokenizer, steps = history(case)
        model = Model()
        store, close = make(backend, tokenizer)
        try:
            self.begin(store, steps, ctx)
            for i, (tag, contents, base) in enumerate(steps):
                self.before(store, model, tag, contents, base, ctx)
                store.add(tag, contents, base)
                model.add(tag, contents, base)
                ctx.count("transitions")
                last = i == len(steps) - 1
                if case[0] in ("names", "texts") and not last:
                    continue
                ctx.state((backend, tokenizer, [(t, model.base[t], c if len(c) < 99 else len(c)) for t, c in model.contents.items()]))
                # All prefixes of a history are histories of their own for
                # the short kinds; for the long ones every state is compared.
                if last or case[0] in ("long", "size") or i % 2:
                    self.compare(store, model, ctx, tokenizer, last)
            self.end(store, model, case, ctx)
        finally:
            close()
        ctx.count("traces")
        ctx.note = [(t, b) for t, _, b in steps][:8]

    def begin(self, store, steps, ctx):
        pass

    def before(self, store, model, tag, contents, base, ctx):
        pass

    def compare(self, store, model, ctx, tokenizer, last):
        pass

    def end(self, store, model, case, ctx):
        pass


class Retrieval(History):
    ID = "C19"

    def before(self, store, model, tag, contents, base, ctx):
        require(tag not in store, "a version that was not added is reported", tag, model.base)
        require(store.get(tag) is None, "a version that was not added is retrieved", tag, model.base)

    def compare(self, store, model, ctx, tokenizer, last):
        for tag, contents in model.contents.items():
            got = store.get(tag)
            require(got == contents, "a version is not what was added", tag, got, contents, model.base)
            require(type(got) is bytes, "a version is not bytes", tag, got)
            require(tag in store, "a version is missing", tag, model.base)
        if last:
            # Retrieval changes nothing, whatever the order.
            for tag in reversed(list(model.contents)):
                require(store.get(tag) == model.contents[tag], "a version is not what was added, the second time", tag, model.base)
            for tag in ("no such version", "v999"):
                require(store.get(tag) is None and tag not in store, "an unknown version is reported", tag)


class CountingMapping(MutableMapping):
    """A mapping of the caller's that records which values are read."""

    def __init__(self):
        self.data, self.reads = {}, set()

    def __getitem__(self, key):
        value = self.data[key]
        self.reads.add(key)
        return value

    def __setitem__(self, key, value):
        self.data[key] = value

    def __delitem__(self, key):
        del self.data[key]

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)

    def __contains__(self, key):
        return key in self.data


class Economy:
    """Full copies of the heads only, and few changes to apply."""

    ID = "C22"
    LEVEL = "model_checking"
    RULE = History.RULE
    ASSUMPTIONS = History.ASSUMPTIONS

    def bounds(self, tier):
        n, m = (7, 2000) if tier == "quick" else (9, 8000)
        return f"all shapes of histories of up to {n} additions (SQLite: {n - 1}); every state of single-branch histories of up to {m} versions (SQLite: {m * 5 // 8}) and of 2 and 3 branches (SQLite: {m // 8})"

    def cases(self, tier):
        n, m = (7, 2000) if tier == "quick" else (9, 8000)
        for k in range(1, n + 1):
            for bases in shapes(k):
                yield "shape", "memory", bases
                if k < n:
                    yield "shape", "database", bases
        for branches in (1, 2, 3):
            for size in (30, 90, m):
                yield "long", "memory", branches, size
            for size in (30, m // 8) if branches > 1 else (30, m // 8, m * 5 // 8):
                yield "long", "database", branches, size

    CASE_CPU = 200

    def check(self, case, ctx):
        kind, backend = case[:2]
        if kind == "shape":
            bases = case[2]
        else:
            bases = tuple(i - case[2] if i >= case[2] else None for i in range(case[3]))
        heads, diffs = CountingMapping(), CountingMapping()
        if backend == "memory":
            store, close = Versions(head_version=heads, diffs=diffs), lambda: None
        else:
            from gaspra.db_tree import DBTree
            database = Database()
            store, close = Versions(head_version=heads, diffs=diffs, tree=DBTree(connection_factory=database)), database.close
        model, lengths, branch = Model(), {}, {}
        try:
            for i, base in enumerate(bases):
                tag, base = f"t{i}", None if base is None else f"t{base}"
                contents = contents_for(i) if kind == "shape" else b"%d %d\n" % (i, i % 7)
                store.add(tag, contents, base)
                model.add(tag, contents, base)
                branch[tag] = branch[base] if base is not None else tag
                lengths[branch[tag]] = lengths.get(branch[tag], 0) + 1
                ctx.count("transitions")
                ctx.state((backend, bases[: i + 1]))
                require(set(heads.data) == set(model.heads), "not exactly the heads are stored in full", bases[: i + 1], sorted(heads.data), model.heads)
                require(set(diffs.data) == set(model.base) - set(model.heads), "not exactly the other versions are stored as changes", bases[: i + 1])
                if kind == "shape" or i % (16 if len(bases) < 900 or backend == "memory" else 128) == 0 or i > len(bases) - 40 or i < 60:
                    for t in model.contents:
                        if kind == "long" and i > 100 and int(t[1:]) % 5 and i < len(bases) - 2:
                            continue
                        heads.reads, diffs.reads = set(), set()
                        got = store.get(t)
                        require(got == model.contents[t], "a version is not what was added", t, bases[: i + 1])
                        n = lengths[branch[t]]
                        ctx.count("retrievals")
                        require(len(heads.reads) == 1, "not one full copy read", t, heads.reads)
                        # At most 2 sqrt(n) versions on the way, the head one of them.
                        require((len(diffs.reads) + 1) ** 2 <= 4 * n, "more than 2 sqrt(n) versions read to retrieve one of n", t, len(diffs.reads) + 1, n, bases[: i + 1])
        finally:
            close()
        ctx.count("traces")
        ctx.note = f"{len(bases)} versions"


class Information(History):
    ID = "C23"

    def begin(self, store, steps, ctx):
        self.steps = steps

    def before(self, store, model, tag, contents, base, ctx):
        require(store.version_info(tag) is None, "information on a version that was not added", tag, model.base)

    def compare(self, store, model, ctx, tokenizer, last):
        for tag, contents in model.contents.items():
            info = store.version_info(tag)
            require(info is not None, "no information on a version", tag, model.base)
            require(info.base_version == model.base[tag], "the base is not the one given", tag, info, model.base)
            if tag in model.heads:
                require((info.token_count, info.change_count) == (len(contents), 0), "the information on a head", tag, info, contents)
            else:
                stored = list(deserialize_changeset(store.diffs[tag]))
                literal = sum(len(p) for p in stored if not isinstance(p, slice))
                require((info.token_count, info.change_count) == (literal, len(stored)), "the information on a stored change", tag, info, stored)
                require(info.token_count <= len(contents), "a stored change is larger than the version", tag, info, contents)
                require(info.change_count > 0 or not contents, "a version that is not empty is stored as nothing", tag, info, contents)
        require(store.version_info("no such version") is None, "information on an unknown version")


class Rejected(History):
    """Every operation that the store must refuse, in every state."""

    ID = "C20"
    UNUSUAL = False
    SIZES = dict(quick=dict(shape=6, db_shape=5, words=(5, 5), linear=3, tree=3, long=(20,), sizes=(241, 2288)),
                 thorough=dict(shape=7, db_shape=6, words=(8, 7), linear=4, tree=3, long=(60,), sizes=(240, 241, 2287, 2288, 67824)))

    def bounds(self, tier):
        return History.bounds(self, tier) + "; in each state: every tag again (on no base and on every version), every base that is not a head, an unknown base, contents that the tokenizer cannot encode or that are not bytes, and None as the tag (on no base and on every head)"

    def refused(self, store, model, tag, tokenizer):
        """Operations that must fail in this state."""
        last = tag
        for existing in model.contents:
            yield existing, b"other contents\n", None
            yield existing, model.contents[existing], None
            for base in model.contents:
                yield existing, b"other contents\n", base
        for base in model.contents:
            if base not in model.heads:
                yield "new tag", b"new contents\n", base
        yield "new tag", b"new contents\n", "no such version"
        yield "new tag", b"new contents\n", "new tag"
        for base in (None, *model.heads):
            # No tag, and no contents.
            yield None, b"new contents\n", base
            yield "new tag", "not bytes\n", base
            yield "new tag", None, base
        if tokenizer in ("char", "symbol"):
            for base in (None, *model.heads):
                yield "new tag", b"\xff\xfe", base
                yield "new tag", b"ok\n\xc3", base

    def check(self, case, ctx):
        backend, tokenizer, steps = history(case)
        self.tokenizer = tokenizer
        self.twin, close = make(backend, tokenizer)
        try:
            super().check(case, ctx)
        finally:
            close()

    def begin(self, store, steps, ctx):
        pass

    def before(self, store, model, tag, contents, base, ctx):
        operations = list(self.refused(store, model, tag, self.tokenizer))
        if len(model.contents) > 6:
            # Long histories: every tag once, instead of with every base.
            operations = [o for o in operations if o[2] is None or o[0] not in model.contents]
        for operation in operations:
            try:
                store.add(*operation)
            except Exception:
                ctx.count("refused")
            else:
                require(False, "an addition that must be refused was accepted", operation, model.base)
        self.twin.add(tag, contents, base)

    def compare(self, store, model, ctx, tokenizer, last):
        for tag, contents in model.contents.items():
            got = store.get(tag)
            require(got == contents, "a version is not what was added after a refused addition", tag, got, contents, model.base)
            require(tag in store, "a version is missing", tag, model.base)
            mine, twins = store.version_info(tag), self.twin.version_info(tag)
            require(mine == twins, "the store is not what it is without the refused additions", tag, mine, twins)
        require(None not in store and store.get(None) is None, "a refused version is in the store", None, model.base)
        require("new tag" not in store and store.get("new tag") is None and store.version_info("new tag") is None, "a refused version is in the store", model.base)
        require(dict(store.diffs) == dict(self.twin.diffs) and dict(store.head_version) == dict(self.twin.head_version), "the stored data is not what it is without the refused additions", model.base)

    def end(self, store, model, case, ctx):
        # Every head can still be extended.
        for head in list(model.heads):
            store.add(("after", head) if case[1] == "memory" else f"after {head}", b"after\n", head)
        for tag, contents in model.contents.items():
            require(store.get(tag) == contents, "a version is not what was added", tag, contents, model.base)


class StorageFaults:
    ID = "C25"
    LEVEL = "fault_enumeration"
    RULE = (
        "A case is a history; in each of its additions, each statement and each commit fails once (one execution for each). "
        "An execution is non-trivial when a fault was injected."
    )
    ASSUMPTIONS = [
        "A failing statement or commit raises sqlite3.OperationalError, and its transaction is rolled back; single faults.",
    ]

    def bounds(self, tier):
        n, m = self.sizes(tier)
        return f"all shapes of histories of up to {n} additions (up to {n - 1} also with a new connection for each use) and one branch of {m}, on SQLite, tokenizers null and line; every statement and commit of every addition fails in turn, then every head is extended"

    def sizes(self, tier):
        return (5, 40) if tier == "quick" else (6, 80)

    def cases(self, tier):
        n, m = self.sizes(tier)
        for k in range(1, n + 1):
            for bases in shapes(k):
                yield "line" if sum(b is None for b in bases) % 2 else "null", bases
                if k < n:
                    yield "null" if sum(b is None for b in bases) % 2 else "line", bases, "fresh"
        for k in range(n + 1, m + 1):
            yield "line", (None, *range(k - 1))
            yield "null", (None, None, *range(k - 2))

    def check(self, case, ctx):
        tokenizer, bases = case[:2]
        tags = TAGS["unordered"] if len(bases) < 9 else [f"v{i}" for i in range(len(bases))]
        # Shorter histories are cases of their own: only the last addition fails.
        fail_at, outcomes = 0, []
        while True:
            fail_at += 1
            faults, model = Faults(), Model()
            database = Connections(case[2], faults) if len(case) > 2 else Database(faults)
            try:
                store = database.store(tokenizer)
                for i, base in enumerate(bases):
                    tag, contents = tags[i], contents_for(i)
                    base = None if base is None else tags[base]
                    if i < len(bases) - 1:
                        store.add(tag, contents, base)
                        model.add(tag, contents, base)
                        continue
                    faults.count, faults.fail_at = 0, fail_at
                    try:
                        store.add(tag, contents, base)
                    except Exception:
                        raised = True
                    else:
                        raised = False
                    faults.fail_at = None
                if not faults.failed:
                    require(not raised, "an addition failed without a fault", case)
                    break
                ctx.count("executions")
                ctx.count("faults_injected")
                ctx.nontrivial((case, fail_at))
                outcomes.append(raised)
                info = (case, f"fault {fail_at} in the last addition")
                self.intact(store, model, *info)
                if not raised:
                    require(store.get(tag) == contents, "an addition that succeeded is lost", *info)
                # The store can still be used: each head can be extended, if it
                # still is a head.
                for head in list(model.heads):
                    if head in store.head_version:
                        store.add(f"after {head}", b"after\n", head)
                        self.intact(store, model, *info)
                        require(store.get(f"after {head}") == b"after\n", "a version added after a fault is lost", *info)
                store.add("fresh", b"fresh\n")
                self.intact(store, model, *info)
            finally:
                database.close()
        ctx.note = f"{fail_at - 1} faults, {sum(outcomes)} reported"
        require(fail_at > 3, "no operation on the database was seen", case)

    def intact(self, store, model, *info):
        for tag, contents in model.contents.items():
            require(tag in store, "a version is missing after a fault", tag, *info)
            got = store.get(tag)
            require(got == contents, "a version is not what was added after a fault", tag, got, contents, *info)
            require(store.version_info(tag).base_version == model.base[tag], "a base is lost after a fault", tag, *info)
