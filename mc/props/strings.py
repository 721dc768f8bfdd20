"""Suffix automata, substring search and common substrings: C04 .. C08."""

import gc
import itertools
import time
import tracemalloc

from gaspra.changesets import apply, apply_forward, apply_reverse, diff_token_sequences, strip_forward
from gaspra.diff_to_lines import consolidated_line_diff, to_line_diff
from gaspra.merge import merge_token_sequence
from gaspra.multiple_strings import find_lcs as find_lcs_n
from gaspra.suffix_automaton import all_suffixes, build, find_lcs, find_substring, find_substring_all
from gaspra.types import Change, CommonSlice
from gaspra.wrappers import find_lcs as wrapped_lcs, find_substring as wrapped_substring

from mc.core import require
from mc import space
from mc.store import TOKENIZERS


def occurrences(text, pattern):
    n = len(pattern)
    if isinstance(text, str):
        found, at = [], text.find(pattern)
        while at >= 0:
            found.append(at)
            at = text.find(pattern, at + 1)
        return found
    return [i for i in range(len(text) - n + 1) if text[i : i + n] == pattern]


class Base:
    LEVEL = "exploration"
    ASSUMPTIONS = [
        "Tokens are only compared and hashed (C14 checks this), so words that differ by a renaming of the letters are decided once.",
    ]


class Automaton(Base):
    ID = "C04"
    RULE = "A case is a word; it is non-trivial when some letter occurs twice."

    def bounds(self, tier):
        n, k, m = (9, 4, 5) if tier == "quick" else (11, 5, 6)
        return (
            f"every word of at most {n} letters over at most {k} letters, up to renaming, as str, bytes and tuple; against it, every "
            f"word of at most {m} letters over one letter more; every long word of 15 families of 30 sizes, "
            "against all its substrings of selected lengths, each also with one letter changed; texts of "
            f"{self.HUGE if tier == 'quick' else self.HUGE_THOROUGH} tokens (of 8 families, and all different as str and tuple), against some of their substrings"
        )

    HUGE = (2049, 4097, 8193, 16385, 32769, 65537)
    HUGE_THOROUGH = (1500, 2048, *HUGE, 3000, 5001, 8192, 10001, 16384, 20001, 32768, 50001, 65535, 65536, 100001, 131073)
    HUGE_FAMILIES = ("unary", "ab", "fibonacci", "thue-morse", "counter2", "lcg2", "lcg4", "lcg26", "str", "tuple")

    @classmethod
    def huge_text(cls, family, size):
        if family == "tuple":
            return tuple(range(size))
        return "".join(map(chr, range(0x10000, 0x10000 + size))) if family == "str" else space.families(size)[family]

    @classmethod
    def huge_patterns(cls, text):
        size, none = len(text), ("X" if isinstance(text, str) else (-1,))
        for length in (1, 2, 16, 17, 257, size // 2, size - 1, size):
            for start in sorted({0, size // 3, (size - length) // 2, size - length}):
                if start + length <= size:
                    part = text[start : start + length]
                    yield part
                    if length > 1:
                        yield part[:-1] + none
                    if start == 0:
                        yield part + text[:1]

    def cases(self, tier):
        n, k, m = (9, 4, 5) if tier == "quick" else (11, 5, 6)
        for length in range(n + 1):
            for word in space.rgs(length, k):
                yield "word", word, m if length < 8 else m - 1
        sizes = [*range(14, 19), *range(30, 35), *range(62, 67), *range(126, 131), *range(254, 259), 300, 400, 512, 513, 600]
        for size in sizes if tier == "quick" else sizes + [1023, 1024, 1025, 2000]:
            for family in space.families(4):
                yield "long", family, size
        for size in Automaton.HUGE if tier == "quick" else Automaton.HUGE_THOROUGH:
            for family in Automaton.HUGE_FAMILIES:
                yield "huge", family, size

    def check(self, case, ctx):
        if case[0] == "huge":
            text = self.huge_text(*case[1:])
            roots = build(text), build(text, reverse_links=False, mark_terminals=False)
            for pattern in self.huge_patterns(text):
                if isinstance(text, str):
                    expected = text.find(pattern)
                    expected = None if expected < 0 else expected
                else:
                    at = pattern[0]
                    expected = at if text[at : at + len(pattern)] == pattern else None
                for root in roots:
                    got = find_substring(root, pattern)
                    require(got == expected, "first occurrence", text, pattern, got, expected)
            ctx.nontrivial(case)
            return
        if case[0] == "word":
            _, word, m = case
            letters = sorted(set(word)) + ["z"]
            patterns = space.words(letters, m)
            for text in (word, word.encode(), tuple(word)):
                root = build(text)
                got = list(all_suffixes(root))
                expected = [text[i:] for i in range(len(text) + 1)]
                require(sorted(got) == sorted(expected), "the automaton does not accept exactly the suffixes", text, got)
            patterns = itertools.chain(patterns, (word[i:j] for i in range(len(word)) for j in range(i + m, len(word) + 1)))
        else:
            word = space.families(case[2])[case[1]]
            root = build(word)
            if len(word) < 200:
                got = list(all_suffixes(root))
                require(sorted(got) == sorted(word[i:] for i in range(len(word) + 1)), "the automaton does not accept exactly the suffixes", word)
            patterns = []
            for length in sorted({1, 2, 3, 5, 8, 15, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, len(word) - 1, len(word)}):
                for start in range(0, len(word) - length + 1, max(1, len(word) // 16)):
                    part = word[start : start + length]
                    patterns += [part, part[:-1] + "X", "X" + part[1:], part + "a", part + "b", "b" + part]
        root = build(word)
        plain = build(word, reverse_links=False, mark_terminals=False)
        for pattern in patterns:
            first = word.find(pattern)
            got = find_substring(root, pattern)
            expected = None if first < 0 else first
            require(got == expected, "first occurrence", word, pattern, got, expected)
            got = find_substring(plain, pattern)
            require(got == expected, "first occurrence in an automaton without links", word, pattern, got, expected)
        if len(set(word)) < len(word):
            ctx.nontrivial(case)


class Occurrences(Base):
    ID = "C05"
    RULE = "A case is a text; it is non-trivial when some letter occurs twice."

    def cases(self, tier):
        return Automaton.cases(self, tier)

    def bounds(self, tier):
        return Automaton.bounds(Automaton(), tier)

    def check(self, case, ctx):
        if case[0] == "huge":
            text = Automaton.huge_text(*case[1:])
            root = build(text)
            for pattern in Automaton.huge_patterns(text):
                if isinstance(text, str):
                    expected = occurrences(text, pattern)
                else:
                    at = pattern[0]
                    expected = [at] if text[at : at + len(pattern)] == pattern else []
                got = list(find_substring_all(root, pattern))
                require(got == expected, "occurrences", text, pattern, got, expected)
            ctx.nontrivial(case)
            return
        if case[0] == "word":
            _, word, m = case
            patterns = itertools.chain(
                space.words(sorted(set(word)) + ["z"], m),
                (word[i:j] for i in range(len(word)) for j in range(i + m, len(word) + 1)),
                (word + "a",),
            )
        else:
            word = space.families(case[2])[case[1]]
            patterns = [""]
            for length in sorted({1, 2, 3, 8, 16, 17, 33, 64, 65, 128, 129, 255, 256, len(word) - 1, len(word)}):
                for start in range(0, len(word) - length + 1, max(1, len(word) // 4)):
                    part = word[start : start + length]
                    patterns += [part, part[:-1] + "X", part + "a"]
        root = build(word)
        count = 0
        for pattern in patterns:
            expected = occurrences(word, pattern)
            got = list(find_substring_all(root, pattern))
            require(got == expected, "occurrences", word, pattern, got, expected)
            count += len(expected) > 1
            if count % 16 == 1:
                got = list(wrapped_substring(word, pattern))
                require(got == expected, "occurrences", word, pattern, got, expected)
                got = list(find_substring_all(build(tuple(word)), tuple(pattern)))
                require(got == expected, "occurrences in a tuple", word, pattern, got, expected)
        ctx.note = f"{count} patterns with several occurrences"
        if len(set(word)) < len(word):
            ctx.nontrivial(case)


def lcs_length(a, b):
    best = 0
    previous = [0] * (len(b) + 1)
    for x in a:
        current = [0] * (len(b) + 1)
        for j, y in enumerate(b, 1):
            if x == y:
                current[j] = previous[j - 1] + 1
                best = max(best, current[j])
        previous = current
    return best


class PairwiseLCS(Base):
    ID = "C06"
    RULE = "A case is a pair of words; it is non-trivial when they differ and share a letter."

    def bounds(self, tier):
        from mc.props import diff
        return diff.PairProperty.bounds(self, tier)

    def cases(self, tier):
        from mc.props import diff
        return diff.pair_cases(tier)

    def check(self, case, ctx):
        from mc.props import diff
        a, b = diff.pair(case)
        if case[0] == "words" or len(a) * len(b) < 3000:
            length = lcs_length(a, b)
        else:
            length = None
        for got in (find_lcs(build(a), b), wrapped_lcs(a, b)):
            require(len(got) == 3, "not three numbers", got)
            at_a, at_b, n = got
            require(0 <= at_a <= len(a) - n and 0 <= at_b <= len(b) - n and n >= 0, "out of range", a, b, got)
            block = a[at_a : at_a + n]
            require(block == b[at_b : at_b + n], "not a common block", a, b, got)
            if length is not None:
                require(n == length, "not the longest common block", a, b, got, length)
            else:
                require(not diff.has_common_block(a, b, n + 1), "not the longest common block", a, b, got)
            if isinstance(a, str):
                first_a, first_b = a.find(block), b.find(block)
            else:
                first_a = next(i for i in range(len(a) + 1) if n == 0 or a[i] == block[0] and a[i : i + n] == block)
                first_b = next(i for i in range(len(b) + 1) if n == 0 or b[i] == block[0] and b[i : i + n] == block)
            require((at_a, at_b) == (first_a, first_b), "not the first occurrences", a, b, got)
        ctx.note = got
        if a != b and set(a) & set(b):
            ctx.nontrivial(case)
        if case[0] == "words":
            ctx.outcome(got)


class ManyLCS(Base):
    ID = "C07"
    RULE = "A case is a list of up to five words; it is non-trivial when they share a letter and are not all equal."
    # Tokens that could be confused with the marks between the words.
    ODD = {"a": (0,), "b": 0, "c": (1,), "d": 1}
    # In texts, bytes, and others.
    MARKS = (
        "\ue000\ue001\ue002a", "\U000f0000\U000f0001\U000f0002a", "\U00100000\U00100001\U00100002\0", "\U0010ffff\U0010fffe\U0010fffda",
        "\0\x01\x02\x03", "\ud800\ud801\ud802a", "\udfff\udffe\udffda", "\udc80\udc81\udc82\x80", "\uffff\ufffe\ufffd\ufeff", "\ufdd0\ufdd1\ufdd2a",
        "$#|,", "\n\r\x85\u2028", "\x1c\x1d\x1e\x1f", "\x7f\x80\xff\u0100", " \t\n\xa0", "\u20ac\u2400\u2401\u241e",
        b"\0\x01\x02\x03", b"\xff\xfe\xfd\xfc", b"\n\r ,",
        (-1, -2, -3, -4), (0, 1, 2, 3), (256, 257, 258, 255), (0x110000, 0x110001, 0x110002, 0x10FFFF), ((1 << 63) - 1, -(1 << 63), 1 << 63, (1 << 64) - 1), (1 << 31, 1 << 32, (1 << 32) + 1, -(1 << 31)),
        (None, "", (), b""), ("\0", "\ue000", "0", "1"), ("Separator(index=0)", "Separator(index=1)", "$", "|"), ((0,), (1,), (2,), ("", 0)), (-0.5, 0.5, float("inf"), float("-inf")),
        (frozenset(), frozenset({0}), True, 0), (Ellipsis, NotImplemented, None, type(None)), (slice(0), slice(1), range(0), range(1)),
    )
    MANY = (6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300)

    def bounds(self, tier):
        t = self.totals(tier)
        return (
            f"all lists of 1, 2, 3, 4 and 5 words with at most {t} letters in all, over 3 letters up to renaming; as str and as tuples and lists of "
            f"tokens like 0, (0,), 1, (1,) that look like separators; those of at most {self.MARKED[tier]} letters in {len(self.MARKS)} more alphabets; lists of long words cut from 15 families; "
            f"{self.MANY} words with a common block that some of them have shorter, or not at all; 2, 3 and 5 words (over 10000 tokens in quick runs: 3, of 3 kinds) with a block of "
            f"{Automaton.HUGE if tier == 'quick' else Automaton.HUGE_THOROUGH} tokens in common"
        )

    # Lists of 1, 2, ... words of so many letters in all are also tried in all MARKS.
    MARKED = dict(quick=(5, 6, 6, 5, 4), thorough=(6, 7, 7, 6, 5))

    def totals(self, tier):
        return (8, 9, 8, 7, 6) if tier == "quick" else (10, 11, 10, 9, 8)

    def cases(self, tier):
        yield ("words",)
        for parts, total in enumerate(self.totals(tier), 1):
            for words in space.word_tuples(parts, total, 4 if parts < 3 else 3):
                yield ("words", *words)
                if len("".join(words)) <= self.MARKED[tier][parts - 1]:
                    yield ("marks", *words)
        for size in (30, 65, 129, 300) if tier == "quick" else (30, 64, 65, 129, 257, 300, 1025):
            for family in space.families(4):
                for shape in range(6):
                    yield "long", family, size, shape
        for k in self.MANY if tier == "quick" else (*self.MANY, *range(6, 200), 511, 512, 513, 1000, 1023, 1024, 1025):
            for shape in range(6):
                yield "many", k, shape

        for size in Automaton.HUGE if tier == "quick" else Automaton.HUGE_THOROUGH:
            for family in Automaton.HUGE_FAMILIES[:-1] if size < 10000 or tier != "quick" else ("str", "lcg4", "unary"):
                for words in (2, 3, 5) if size < 10000 or tier != "quick" else (3,):
                    for cut in (None, 1, size // 3):
                        yield "huge", family, size, words, cut

    def huge(self, family, size, count, cut):
        """Words that have one long block in common, with letters of their own
        around it (and, in the last word, also in it)."""
        block = Automaton.huge_text(family, size)
        words = [chr(0x50 + i) * (7 * i + 1) + block + chr(0x40 + i) * 3 for i in range(count)]
        longest = block
        if cut is not None:
            words[-1] = block[:cut] + "!" + block[cut:]
            longest = block[cut:]
        expected = tuple(w.find(longest) for w in words), len(longest)
        positions, length = find_lcs_n(*words)
        require((tuple(positions), length) == expected, "the longest common block", words, positions, length, expected)

    def many(self, k, shape):
        """k words, each with letters of its own around a common block."""
        own = [chr(0x100 + i) for i in range(k)]
        words = [o + "abcab" + o for o in own]
        if shape == 1:
            words = ["ab"] * k
        elif shape == 2:
            words[-1] = "xbcx"
        elif shape == 3:
            words[0] = "cab"
        elif shape == 4:
            words[k // 2] = "no"
        elif shape == 5:
            words = [o + "ab" + "abc"[i % 3] for i, o in enumerate(own)]
        return words

    def check(self, case, ctx):
        if case[0] == "huge":
            ctx.nontrivial(case)
            return self.huge(*case[1:])
        if case[0] in ("words", "marks"):
            words = case[1:]
        elif case[0] == "many":
            words = self.many(*case[1:])
        else:
            _, family, size, shape = case
            w = space.families(size)[family]
            h = size // 2
            words = [
                (w, w[h:], w[:h]),
                (w[1:], w[:-1], w),
                (w[:h] + "X" + w[h:], w, w[: h + 3]),
                (w, "Z" + w[h:] + "Y", w[h - 7 :], w[5:]),
                (w, w[: h + 9] + "X", "Y" + w[h - 9 :], w[::-1]),
                (w[::2], w[h:], w, w, w[:h] + w[:h]),
            ][shape]
        variants = [words]
        if case[0] == "words":
            variants.append(tuple(tuple(self.ODD[c] for c in w) for w in words))
            # Sequences that are not hashable.
            variants.append(tuple([self.ODD[c] for c in w] for w in words))
        elif case[0] == "marks":
            variants = []
            for marks in self.MARKS:
                join = {str: "".join, bytes: bytes, tuple: tuple}[type(marks)]
                for order in ("abcd", "bcda"):
                    variants.append(tuple(join([marks[order.index(c)] for c in w]) for w in words))
        for variant in variants:
            positions, length = find_lcs_n(*variant)
            if not variant:
                require((tuple(positions), length) == ((), None), "of no words", positions, length)
                return
            require(len(positions) == len(variant), "not one position for each word", variant, positions)
            block = variant[0][positions[0] : positions[0] + length]
            require(len(block) == length, "out of range", variant, positions, length)
            for word, at in zip(variant, positions):
                require(word[at : at + length] == block, "not a common block", variant, positions, length)
                first = next(i for i in range(len(word) + 1) if word[i : i + length] == block)
                require(at == first, "not the first occurrence", variant, positions, length)
            sets = []
            for word in variant:
                key = tuple if isinstance(word, list) else lambda block: block
                sets.append({key(word[i : i + length + 1]) for i in range(len(word) - length)})
            require(not set.intersection(*sets), "not the longest block common to all", variant, positions, length)
            ctx.note = (positions, length)
        if set.intersection(*map(set, words)) and len(set(words)) > 1:
            ctx.nontrivial(case)
        if case[0] == "words":
            ctx.outcome((positions, length))


class Linear(Base):
    """Work is counted: every line of the package that is executed and every
    time a token is hashed or compared.  Work inside built-ins is only visible
    as time, so that is measured too, with much more tolerance."""

    ID = "C08"
    CASE_CPU = 120
    TIMED = (3000, 48000)
    OPERATIONS = ("build", "first", "all", "lcs", "lcs of others", "lcs n", "diff of equal", "diff of one edit", "merge", "patch", "line diff", "tokenize")
    # What is only about text, and works on pieces of it.
    PIECES = ("text\n", "word ", "\n", "two\nlines\n")
    CHANGES = (Change("x\n", "y\n"), Change("in", ""), Change("", "out\n"), Change("\n", " z"))
    RULE = (
        "A case is an operation on a family of inputs of size n, 2n, 4n; the work is the number of executed lines of the package plus "
        "token hashings and comparisons plus tokens copied out of the input by slicing (for the operation 'space': the bytes / 10 that an automaton occupies). The 'time of' an operation is the CPU time that inputs of size 3000 and of 48000 take (each the least of several runs). Non-trivial: every case (each does work on at least n tokens)."
    )
    ASSUMPTIONS = [
        "Work done inside a single call of a built-in (sorting, copying a dict) is not counted, except for hashing, comparing and slicing of the tokens; it only shows in the CPU time, for which 16 times the input may take at most 80 times as long (time in proportion: 16 times, to its square: 256 times).",
    ]

    def sizes(self, tier):
        return (300, 600, 1200, 2400, 4800) if tier == "quick" else (500, 1000, 2000, 4000, 8000, 16000)

    def bounds(self, tier):
        return (
            f"{len(self.OPERATIONS) + 1} operations x 15 families of words, sizes {self.sizes(tier)}; work(2n) <= 2.6 work(n) + 200; "
            f"{len(self.OPERATIONS)} operations x 15 families, sizes {self.TIMED}: CPU time(16n) <= 80 CPU time(n)"
        )

    def cases(self, tier):
        for operation in (*self.OPERATIONS, "space"):
            for family in space.families(4):
                yield operation, family, self.sizes(tier)
        for operation in self.OPERATIONS:
            for family in space.families(4):
                yield "time of " + operation, family, self.TIMED

    def check_time(self, operation, family, sizes, ctx):
        actions = [
            self.action(operation, space.families(n)[family], str) for n in sizes
        ]
        times = [[], []]
        gc.collect()
        gc.disable()
        try:
            for attempt in range(5):
                # Noise only adds to the time: keep the least.
                times[0].append(self.seconds(actions[0]))
                times[1].append(self.seconds(actions[1]))
                if min(times[1]) <= 80 * min(times[0]):
                    break
                gc.collect()
            else:
                require(False, "more than linear time", operation, family, list(zip(sizes, map(min, times))))
            ctx.note = [(n, round(min(t), 5)) for n, t in zip(sizes, times)]
        finally:
            gc.enable()
        ctx.nontrivial((operation, family))

    def seconds(self, action):
        # The clock may tick only every 10 ms.
        start, runs, spent = time.process_time(), 0, 0
        while spent < 0.1:
            action()
            runs += 1
            spent = time.process_time() - start
        return spent / runs

    def check(self, case, ctx):
        operation, family, sizes = case
        if operation.startswith("time of "):
            return self.check_time(operation.removeprefix("time of "), family, sizes, ctx)
        costs = []
        for n in sizes:
            word = space.families(n)[family]
            costs.append(self.measure(operation, word))
        for i, (small, large) in enumerate(zip(costs, costs[1:])):
            # Twice the input: at most 2.6 times the work.
            require(large <= 2.6 * small + 200, "more than linear work", operation, family, list(zip(sizes, costs)))
        per_token = max(c / n for c, n in zip(costs, sizes))
        require(per_token < 1500, "work per token", operation, family, list(zip(sizes, costs)))
        ctx.nontrivial(case)
        ctx.note = list(zip(sizes, costs))

    def measure(self, operation, word):
        from mc.counting import CountedSequence, counting

        if operation == "space":
            gc.collect()
            tracemalloc.start()
            try:
                root = build(word)
                used = tracemalloc.get_traced_memory()[0]
            finally:
                tracemalloc.stop()
            del root
            return used // 10
        return counting(self.action(operation, word, CountedSequence.of))

    def action(self, operation, word, counted):
        h = len(word) // 2

        if operation == "build":
            w = counted(word)
            action = lambda: build(w)
        elif operation == "first":
            root, w = build(counted(word)), counted(word[h:])
            action = lambda: find_substring(root, w)
        elif operation == "all":
            root, w = build(counted(word)), counted(word[: max(1, len(word) // 50)])
            action = lambda: list(find_substring_all(root, w))
        elif operation == "lcs":
            w, x = counted(word), counted(word[h:] + "X" + word[:h])
            action = lambda: find_lcs(build(w), x)
        elif operation == "lcs n":
            ws = [counted(word), counted(word[h:]), counted("X" + word[: h + 3])]
            action = lambda: find_lcs_n(*ws)
        elif operation == "lcs of others":
            w, x = counted(word), counted(word[::-1] + "X" + word[::2])
            action = lambda: find_lcs(build(w), x)
        elif operation == "merge":
            p, w, x = counted(word), counted(word[:h] + "X" + word[h + 1 :]), counted(word[: h // 2] + word[h // 2 + 1 :] + "Y")
            action = lambda: list(merge_token_sequence(p, w, x))
        elif operation == "patch":
            w = counted(word)
            patch = [CommonSlice(slice(i, i + 1), slice(i, i + 1)) if i % 2 else Change(w[i : i + 1], w[i : i + 1]) for i in range(len(word))]
            action = lambda: (apply_forward(patch, w), apply_reverse(patch, w), apply(list(strip_forward(patch)), w))
        elif operation == "line diff":
            stream = []
            for i, c in enumerate(word):
                stream += [self.PIECES[ord(c) % 4], self.CHANGES[(i + ord(c)) % 4]]
            action = lambda: (list(to_line_diff(iter(stream))), list(consolidated_line_diff(iter(stream))))
        elif operation == "tokenize":
            text = "".join(self.PIECES[ord(c) % 4] if i % 3 else f"{i}\n" for i, c in enumerate(word))
            tokenizers = [tokenizer() for tokenizer in TOKENIZERS.values()]
            action = lambda: [tokenizer.decode(tokenizer.encode(text)) for tokenizer in tokenizers]
        elif operation == "diff of equal":
            w, x = counted(word), counted(word)
            action = lambda: list(diff_token_sequences(w, x))
        else:
            w, x = counted(word), counted(word[:h] + "X" + word[h + 1 :])
            action = lambda: list(diff_token_sequences(w, x))
        return action
