"""C14: tokens are opaque.  C33: no input is too deep."""

from fractions import Fraction
import os
import resource
import sys
import threading

from gaspra.changesets import apply_forward, apply_reverse, diff_token_sequences, find_changeset, strip_forward
from gaspra.diff_to_lines import consolidated_line_diff
from gaspra.db_tree import DBTree
from gaspra.memory_tree import MemoryTree
from gaspra.markup import markup_changes
from gaspra.merge import merge_token_sequence
from gaspra.multiple_strings import find_lcs as find_lcs_n
from gaspra.serialize import deserialize_changeset, serialize_changeset
from gaspra.suffix_automaton import build, find_lcs, find_substring, find_substring_all
from gaspra.tokenizers import CharTokenizer, LineTokenizer, NullTokenizer, SymbolTokenizer, decode_changes
from gaspra.types import Change, CommonSlice
from gaspra.versions import Versions

from mc.core import require
from mc import space
from mc.store import Database

# Every alphabet has three tokens that are different but easily confused.
ALPHABETS = {
    "falsy": (0, "", None),
    "tuples": ((), (0,), ((0,),)),
    "equal hashes": (-1, -2, ((1 << 61) - 1) * 3 - 2),
    "equal hashes 2": (1, 1 << 61, (1 << 62) - 1),
    "mixed types": ("1", 1, b"1"),
    "frozen sets": (frozenset(), frozenset({0}), frozenset({1})),
    "named tuples": (Change("a", "b"), CommonSlice("c", "d"), Change("b", "a")),
    "booleans": (False, True, None),
    "floats": (0.5, -0.5, float("inf")),
    "words": ("ab", "abc", "b"),
    "lines": ("\n", "a\n", ""),
    "large": (1 << 80, (1 << 80) + 1, -(1 << 80)),
    "bytes": (b"", b"\0", b"\xff"),
    # A partial order, and none at all.
    "sets": (frozenset({1}), frozenset({2}), frozenset({2, 3})),
    "complex": (1j, -1j, 1 + 1j),
    "types": (int, Ellipsis, len),
    "negative": (-1, -3, 0),
    "slices": (slice(0, 1), slice(None), range(3)),
}


class Word(str):
    """Not the same type, but equal to a text."""


# Every occurrence of a token is another object, equal to the others.
EQUALS = {
    "fresh numbers": tuple(lambda i, k=k: int(f"{k}" * 20) for k in (1, 2, 3)),
    "fresh words": tuple(lambda i, k=k: "".join([k, "x"]) for k in "abc"),
    "fresh tuples": tuple(lambda i, k=k: tuple([k, "x"]) for k in (0, 1, None)),
    "equal numbers": tuple(lambda i, k=k: (k, float(k), complex(k), Fraction(k), bool(k) if k < 2 else k)[i % 5] for k in (0, 1, 2)),
    "equal texts": tuple(lambda i, k=k: (k, Word(k))[i % 2] for k in ("a", "ab", "")),
    "equal sets": tuple(lambda i, k=k: (set(k), frozenset(k))[1] for k in ("ab", "bc", "")),
}
CHARACTERS = {
    "space": "\n \t",
    "controls": "\0\x01\x7f",
    "lines": "\r\n\x85",
    "case": "aA\u0130",
    "composed": "e\u0301\u00e9",
    "astral": "\U0001f600\U0010ffff\U00010000",
    "surrogates": "\ud800\udfff\udc80",
    "markup": "[]\\",
    "digits": "0\u0660\u0967",
    "private": "\ue000\uf8ff\U000f0000",
    "noncharacters": "\uffff\ufffe\ufdd0",
}
OCTETS = {"low": b"\0\x01\n", "high": b"\xff\xfe\x80", "text": b"abc", "escapes": b"\r\n\\"}

REPRESENTATIONS = (
    [("tuple", name) for name in ALPHABETS]
    + [("tuple", name) for name in EQUALS]
    + [("list", name) for name in ("falsy", "words", "tuples", "fresh words")]
    + [("str", name) for name in CHARACTERS]
    + [("bytes", name) for name in OCTETS]
)


def represent(word, kind, name):
    """The word in another representation (the letters a, b, c become tokens)."""
    if kind in ("tuple", "list"):
        if name in EQUALS:
            tokens = [EQUALS[name]["abc".index(c)](i) for i, c in enumerate(word)]
        else:
            tokens = [ALPHABETS[name]["abc".index(c)] for c in word]
        return tokens if kind == "list" else tuple(tokens)
    if kind == "str":
        return "".join(CHARACTERS[name]["abc".index(c)] for c in word)
    return bytes(OCTETS[name]["abc".index(c)] for c in word)


class Opaque:
    ID = "C14"
    LEVEL = "exploration"
    RULE = (
        "A case is a triple of words over three letters, as str and in another representation; all results must be the same up to the "
        "representation. Non-trivial when some letter occurs twice."
    )
    ASSUMPTIONS = ["Tokens have consistent equality and hash (no NaN)."]

    def bounds(self, tier):
        n = 5 if tier == "quick" else 7
        return (
            f"all triples of words of at most {n} tokens in all, and all pairs of {n + 1}, over 3 letters up to renaming, in each of {len(REPRESENTATIONS)} "
            f"representations {REPRESENTATIONS}, with every assignment of the letters to the tokens (3 rotations); 4 (thorough: 15) families of words of 60 tokens with 23 edits"
        )

    def cases(self, tier):
        n = 5 if tier == "quick" else 7
        for words in space.word_tuples(3, n, 3):
            for kind, name in REPRESENTATIONS:
                yield kind, name, words
        for words in space.word_tuples(2, n + 1, 3):
            if len(words[0] + words[1]) == n + 1:
                for kind, name in REPRESENTATIONS:
                    yield kind, name, (*words, words[0][1:])
        for family in ("ab", "fibonacci", "half", "lcg2") if tier == "quick" else space.families(4):
            for edit in space.edits("abcd"):
                for kind, name in REPRESENTATIONS:
                    yield kind, name, (family, edit)

    def check(self, case, ctx):
        kind, name, words = case
        if len(words) == 2:
            w = space.families(60)[words[0]]
            e = space.edits(w)[words[1]].replace("X", "c").replace("Y", "a").lower()
            if words[1] == "upper every 7th":
                e = "".join("c" if i % 7 == 6 else t for i, t in enumerate(w))
            words = (w, e, w[:20] + w[25:])
            rotations = (0, 1)
        else:
            rotations = (0, 1, 2) if len(set("".join(words))) > 1 else (0, 1)
        for rotation in rotations:
            rotate = str.maketrans("abc", "abc"[rotation:] + "abc"[:rotation])
            self.compare(kind, name, tuple(w.translate(rotate) for w in words))
        if len(set("".join(words))) < len("".join(words)):
            ctx.nontrivial(case)

    def compare(self, kind, name, words):
        p, a, b = words
        rp, ra, rb = (represent(w, kind, name) for w in words)
        other = lambda w: tuple(represent(w, kind, name))

        def items(stream):
            return [(tuple(i.a), tuple(i.b)) if isinstance(i, Change) else tuple(i) for i in stream]

        def expected(stream):
            return [(other(i.a), other(i.b)) if isinstance(i, Change) else other(i) for i in stream]

        got, want = items(diff_token_sequences(rp, ra)), expected(diff_token_sequences(p, a))
        require(got == want, "the diff depends on the representation of the tokens", words, rp, ra, got, want)
        got, want = items(merge_token_sequence(rp, ra, rb)), expected(merge_token_sequence(p, a, b))
        require(got == want, "the merge depends on the representation of the tokens", words, rp, ra, rb, got, want)
        stream = list(find_changeset(rp, ra).as_change_stream())
        require(tuple(apply_forward(stream, rp)) == tuple(ra), "patching depends on the representation of the tokens", rp, ra)
        require(tuple(apply_reverse(stream, ra)) == tuple(rp), "patching back depends on the representation of the tokens", rp, ra)
        got, want = find_lcs(build(rp), ra), find_lcs(build(p), a)
        require(got == want, "the longest common block depends on the representation of the tokens", rp, ra, got, want)
        got, want = find_lcs_n(rp, ra, rb), find_lcs_n(p, a, b)
        require(got == want, "the longest block common to three depends on the representation of the tokens", rp, ra, rb, got, want)
        for text, pattern, rt, rp_ in ((p, a, rp, ra), (p + a, b, rp + ra, rb), (a, p[:2], ra, rp[:2]), (b, p[-1:], rb, rp[-1:])):
            got, want = list(find_substring_all(build(rt), rp_)), list(find_substring_all(build(text), pattern))
            require(got == want, "the occurrences depend on the representation of the tokens", rt, rp_, got, want)
            got, want = find_substring(build(rt), rp_), find_substring(build(text), pattern)
            require(got == want, "the first occurrence depends on the representation of the tokens", rt, rp_, got, want)


class Deep:
    ID = "C33"
    LEVEL = "exploration"
    RULE = (
        "A case is an operation on an input that repeats a pattern of edits; the stack may grow by a fixed number of frames only, fewer than "
        "the pattern has repetitions. Non-trivial: every case (each has more repetitions than frames)."
    )
    ASSUMPTIONS = ["A bound on the stack in the number of frames stands for Python's recursion limit."]
    OPERATIONS = ("diff", "patch", "merge", "merge conflicts", "lines")
    # With a C stack of this size, for code that is not recursive in Python.
    STACK = 256 * 1024
    SMALL = ("diff", "patch", "merge", "merge conflicts", "lines", "apply", "decode", "codec", "search", "tokenize", "join")
    SHAPES = ("constant", "growing", "shrinking", "sawtooth")
    KINDS = ("insert", "delete", "replace")
    FRAMES = 80

    def bounds(self, tier):
        return (
            f"{self.OPERATIONS} on edits {self.KINDS} between blocks of {self.SHAPES} lengths, {self.counts(tier)} repetitions of the edit, {self.FRAMES} frames of stack; "
            f"{self.SMALL} on {self.many(tier)} edits with {self.STACK // 1024} KiB of C stack; automata of 15 families of long words; version histories of 300 versions; trees with a path of 1000 (5000) versions; changesets of 3000 fragments; thorough: 1200 edits with Python's default limit"
        )

    def many(self, tier):
        return 3000 if tier == "quick" else 12000

    def counts(self, tier):
        return (100, 140) if tier == "quick" else (100, 140, 250)

    def cases(self, tier):
        for count in self.counts(tier):
            for kind in self.KINDS:
                for shape in self.SHAPES:
                    for operation in self.OPERATIONS:
                        yield operation, shape, kind, count, self.FRAMES
        for operation in self.SMALL:
            for kind in self.KINDS:
                yield "stack", operation, kind, self.many(tier), self.FRAMES
        for family in space.families(4):
            for operation in ("search", "lcs", "lcs n"):
                yield operation, family, "", 1500 if tier == "quick" else 4000, self.FRAMES
        yield "codec", "", "", 3000, self.FRAMES
        for backend in ("memory", "database"):
            yield "tree", backend, "", 1000 if tier == "quick" else 5000, self.FRAMES
        for base in ("linear", "branches"):
            yield "versions", base, "", 200 if tier == "quick" else 400, self.FRAMES
        if tier != "quick":
            for kind in self.KINDS:
                for operation in self.OPERATIONS[:4]:
                    yield operation, "constant", kind, 1200, 900

    CASE_CPU = 200

    def check(self, case, ctx):
        operation, shape, kind, count, frames = case
        if operation == "stack":
            self.stack(shape, kind, count, case)
            ctx.nontrivial(case)
            return
        action = self.action(*case[:4])
        depth, frame = 0, sys._getframe()
        while frame:
            depth, frame = depth + 1, frame.f_back
        limit = sys.getrecursionlimit()
        sys.setrecursionlimit(depth + frames)
        try:
            observed = action()
        except RecursionError:
            observed = RecursionError
        finally:
            sys.setrecursionlimit(limit)
        require(observed is not RecursionError, "the stack grows with the input", case)
        require(observed is True, "wrong result for a long input", case, observed)
        ctx.nontrivial(case)

    def stack(self, operation, kind, count, case):
        """In a process of its own, in a thread with a small stack."""
        pid = os.fork()
        if not pid:
            status = 3
            try:
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
                action = self.linear(operation, kind, count)
                found = []

                def work():
                    try:
                        found.append(action() is True)
                    except RecursionError:
                        found.append(None)

                threading.stack_size(self.STACK)
                thread = threading.Thread(target=work)
                thread.start()
                thread.join()
                status = {(True,): 0, (False,): 4, (None,): 5}.get(tuple(found), 3)
            finally:
                os._exit(status)
        _, status = os.waitpid(pid, 0)
        require(not os.WIFSIGNALED(status), "the stack grows with the input", case, os.WTERMSIG(status))
        require(os.WEXITSTATUS(status) != 5, "the stack grows with the input", case)
        require(status == 0, "wrong result for a long input", case, os.WEXITSTATUS(status))

    def linear(self, operation, kind, count):
        """Operations on inputs of any number of parts in linear time."""
        if operation in ("diff", "patch", "merge", "merge conflicts"):
            return self.action(operation, "ruler", kind, count)
        if operation == "codec":
            return self.action(operation, "", "", count)
        if operation == "lines":
            return self.action(operation, "constant", kind, 10 * count)
        count *= 10
        new = [("n%d" % i if kind != "delete" else "") for i in range(count)]
        old = [("o%d" % i if kind != "insert" else "") for i in range(count)]
        if operation == "apply":
            parent, modified, stream = "", "", []
            parts, at, to = [[], []], 0, 0
            for n, o in zip(new, old):
                stream += [CommonSlice(slice(at, at + 1), slice(to, to + 1)), Change(n, o)]
                parts[0].append("," + o)
                parts[1].append("," + n)
                at, to = at + 1 + len(o), to + 1 + len(n)
            parent, modified = map("".join, parts)
            return lambda: apply_forward(stream, parent) == modified and apply_reverse(stream, modified) == parent
        if operation == "decode":
            tokenizer = SymbolTokenizer()
            words = [w for w in new + old if w]
            code = dict(zip(words, ((t,) for t in tokenizer.encode(",".join(words))[::2])))
            codes = [(code.get(n, ()), code.get(o, ())) for n, o in zip(new, old)]
            return lambda: list(decode_changes((Change(*c) for c in codes), tokenizer)) == [Change(n, o) for n, o in zip(new, old)]
        text = ",\n".join(new + old)
        if operation == "tokenize":
            def tokenize():
                for tokenizer in (SymbolTokenizer(), LineTokenizer(), CharTokenizer(), NullTokenizer()):
                    if tokenizer.decode(tokenizer.encode(text)) != text:
                        return False
                return True
            return tokenize
        if operation == "search":
            text = ",\n".join(n + o for n, o in zip(new, old))[: 2 * count]
            def search():
                root = build(text)
                return (
                    list(find_substring_all(root, ",\n")) == [i for i in range(len(text)) if text.startswith(",\n", i)]
                    and find_substring(root, text) == 0
                    and find_lcs(root, text[3:] + "X") == (3, 0, len(text) - 3)
                    and find_lcs_n(text, "Y" + text)[1] == len(text)
                )
            return search
        stream = []
        for i, (n, o) in enumerate(zip(new, old)):
            stream += ["%d," % i + "\n" * (i % 2), Change(n, o)]
        def join():
            out = list(consolidated_line_diff(iter(stream)))
            return all(
                text(out, s) in (want, want + "\n") for s in (0, 1) for want in ["".join(x[s] if isinstance(x, Change) else x for x in stream)]
            )
        def text(item, s):
            parts, pending = [], [item]
            while pending:
                item = pending.pop()
                if isinstance(item, str):
                    parts.append(item)
                elif isinstance(item, Change):
                    pending.append(item[s])
                else:
                    pending += reversed(item)
            return "".join(parts)
        return join

    def action(self, operation, shape, kind, count):
        if operation in ("search", "lcs", "lcs n"):
            word = space.families(count)[shape]
            if operation == "search":
                def search():
                    root = build(word)
                    last = word[-5:]
                    ends = [i for i in range(len(word) - 4) if word.startswith(last, i)]
                    return list(find_substring_all(root, last)) == ends and find_substring(root, word) == 0
                return search
            if operation == "lcs":
                return lambda: find_lcs(build(word), "Y" + word[3:])[1:] == (1, len(word) - 3)
            return lambda: find_lcs_n(word, "Y" + word[3:], word[3:] + "X")[1] == len(word) - 3
        if operation == "codec":
            changes = [b"x" * (i % 5) if i % 2 and i % 5 else slice(i, i + 1) for i in range(count)]
            return lambda: list(deserialize_changeset(serialize_changeset(changes))) == changes
        if operation == "tree":
            def tree():
                # A path that is never split.
                t = MemoryTree() if shape == "memory" else DBTree(Database())
                for i in range(count):
                    t.add(f"t{i}", f"t{i - 1}" if i else None)
                    if i:
                        t.change_parent(f"t{i - 1}", f"t{i}")
                split, half = t.get_split(f"t{count - 1}")
                path = tuple(t.path_to("t0"))
                if shape == "memory":
                    # Moving the end of it changes the heights of all.
                    t.change_parent("t0", "t2")
                    t.change_parent("t0", "t1")
                return path == tuple(f"t{i}" for i in range(count - 1, -1, -1)) and tuple(half) == path[: len(half)] and split == half[-1] and abs(len(half) - count / 2) <= 1
            return tree
        if operation == "versions":
            def history():
                v, contents = Versions(), {}
                for i in range(count):
                    contents[i] = b"".join(b"%d," % k for k in range(max(0, i - 5), i))
                    base = i - 1 if shape == "linear" else i - 2
                    v.add(i, contents[i], base if base >= 0 else None)
                return all(v.get(i) == contents[i] for i in contents)
            return history

        def size(i):
            return {"constant": 2, "growing": i + 1, "shrinking": count - i, "sawtooth": 1 + i % 7, "ruler": 1 + (i & -i).bit_length()}[shape]

        parent, branch, other = [], [], []
        for i in range(count):
            common = [(i, k) for k in range(size(i))]
            old = [("old", i)] if kind != "insert" else []
            new = [("new", i)] if kind != "delete" else []
            parent += common + old
            branch += common + new
            if operation == "merge conflicts":
                other += common + [("other", i)]
            elif operation == "merge":
                other += common[:1] + [("mine", i)] * (len(common) > 1) + common[1:] + old
        parent, branch, other = map(tuple, (parent, branch, other))
        if operation == "diff":
            def run():
                out = list(diff_token_sequences(parent, branch))
                return tuple(t for i in out for t in (i.a if isinstance(i, Change) else i)) == branch and len(out) == 2 * count
            return run
        if operation == "patch":
            def run():
                stream = list(find_changeset(parent, branch).as_change_stream())
                return (
                    apply_forward(stream, parent) == branch
                    and apply_reverse(stream, branch) == parent
                    and len(list(strip_forward(stream))) >= count
                )
            return run
        if operation in ("merge", "merge conflicts"):
            expected_conflicts = operation == "merge conflicts" and kind in ("insert", "replace")
            def run_checked():
                out = list(merge_token_sequence(parent, branch, other))
                conflicts = sum(isinstance(i, Change) for i in out)
                if expected_conflicts:
                    return conflicts == count
                if operation == "merge":
                    return conflicts == 0
                return True
            return run_checked
        def run():
            def changes():
                for i in range(count):
                    yield "text %d\n" % i if shape != "growing" else "x" * (i % 9)
                    yield Change("new\n" if kind != "delete" else "", "old" if kind != "insert" else "")
            out = []
            markup_changes(
                out.append, consolidated_line_diff(changes()),
                markup0={"into": {"prefix": lambda _: "<", "suffix": lambda _: ""}, "from": {"prefix": lambda _: "", "suffix": lambda _: ">"}, "separator": "="},
                markup1={"into": {"prefix": lambda _: "", "suffix": lambda _: ""}, "from": {"prefix": lambda _: "", "suffix": lambda _: ""}, "separator": ""},
            )
            return len(out) > 0
        return run
