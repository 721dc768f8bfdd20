"""Diffs of token sequences: C01, C02, C03."""

from gaspra.changesets import (
    apply,
    apply_forward,
    apply_reverse,
    diff_token_sequences,
    find_changeset,
    strip_forward,
    strip_reverse,
)
from gaspra import changesets
from gaspra.types import Change

from mc.core import require
from mc import space

QUICK = dict(total=9, letters=4, block_total=6, blocks=(2, 3, 15, 16, 17, 31, 33, 64, 65, 128, 129),
             sizes=(31, 32, 33, 64, 65, 100), big=(255, 256, 257, 513, 1025), many=(300, 1100), spots=(65, 600), huge=(2049, 4097, 8193, 16385, 32769, 65537))
THOROUGH = dict(total=11, letters=4, block_total=6, blocks=(2, 3, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257),
                sizes=(10, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129), big=(255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 2049), many=(130, 300, 520, 1030, 1100, 2100), spots=(33, 65, 129, 257, 600, 1100),
                huge=(2048, 2049, 3000, 4096, 4097, 5001, 8192, 8193, 10001, 16384, 16385, 20001, 32767, 32768, 32769, 50001, 65535, 65536, 65537, 100001, 131073))

# Very long words: all tokens different (as a tuple, as a str), or of a family.
HUGE = ("tuple", "str", "unary", "ab", "fibonacci", "lcg4", "lcg26")
HUGE_EDITS = ("same", "append", "prepend", "cut first", "cut last", "replace middle", "two edits", "swap", "every 1000th", "drop half", "nothing in common")


def huge_pair(n, kind, edit):
    if kind == "tuple":
        word, x, y = tuple(range(n)), (-1,), (-2,)
    elif kind == "str":
        word, x, y = "".join(map(chr, range(0x10000, 0x10000 + n))), "X", "Y"
    else:
        word, x, y = space.families(n)[kind], "X", "Y"
    h, q = n // 2, n // 5
    if edit == "every 1000th":
        return word, join([part for i in range(0, n, 1000) for part in (x, word[i + 1 : i + 1000])], word)
    return word, {
        "same": lambda: word[:0] + word[:h] + word[h:],
        "append": lambda: word + x,
        "prepend": lambda: x + word,
        "cut first": lambda: word[1:],
        "cut last": lambda: word[:-1],
        "replace middle": lambda: word[:h] + x + word[h + 1 :],
        "two edits": lambda: word[:q] + x + word[q : n - q] + y + word[n - q + 1 :],
        "swap": lambda: word[h:] + word[:h],
        "drop half": lambda: word[h:],
        "nothing in common": lambda: x * h + y * (n - h),
    }[edit]()


def pair_cases(tier):
    p = QUICK if tier == "quick" else THOROUGH
    for a, b in space.word_tuples(2, p["total"], p["letters"]):
        yield "words", a, b
    for block in p["blocks"]:
        for a, b in space.word_tuples(2, p["block_total"], 3):
            if len(set(a + b)) > 1:
                for distinct in (True, False):
                    yield "blocks", a, b, block, distinct
    for name in space.long_pairs(p["sizes"], p["big"]):
        yield ("long", *name)
    for n in p["many"]:
        for shape in ("insert", "delete", "replace"):
            yield "many", n, shape
    for n in p["spots"]:
        for shape in ("insert", "delete", "replace", "repeat"):
            for i in range(n):
                yield "spot", n, shape, i
    for n in p["huge"]:
        for kind in HUGE:
            for edit in HUGE_EDITS:
                if tier != "quick" or (
                    n < 10000 or (edit != "every 1000th" and (kind in HUGE[:2] or n == 65537 and edit in HUGE_EDITS[1:6:2]))
                ):
                    yield "huge", n, kind, edit


def pair(case):
    if case[0] == "words":
        return case[1:]
    if case[0] == "blocks":
        _, a, b, block, distinct = case
        return space.expand(a, block, distinct), space.expand(b, block, distinct)
    if case[0] == "huge":
        return huge_pair(*case[1:])
    if case[0] == "spot":
        _, n, shape, i = case
        whole = tuple(range(n))
        new = {"insert": (-1, i), "delete": (), "replace": (-1,), "repeat": (whole[i - 1],)}[shape]
        return whole, whole[:i] + new + whole[i + 1 :]
    if case[0] == "many":
        _, n, shape = case
        few = tuple(range(n))
        both = tuple(t for i in few for t in (i, -1 - i))
        other = tuple(t for i in few for t in (i, -1 - n - i))
        return {"insert": (few, both), "delete": (both, few), "replace": (both, other)}[shape]
    return space.long_pair(*case[1:])


BOUNDS = (
    "all pairs of words with at most {total} tokens in all over at most {letters} letters, up to a renaming of the letters; "
    "all pairs of at most {block_total} tokens over 3 letters with each letter expanded to a block of {blocks} equal or "
    "distinct tokens; 15 families of long words (unary, periodic, Fibonacci, Thue-Morse, ...) of sizes {sizes} and {big} "
    "under 23 edits (19 for the largest sizes); {many} insertions, deletions or replacements of one token between tokens that are all different; "
    "one edit of 4 kinds at every place of {spots} tokens that are all different; "
    f"and 7 kinds of words of {{huge}} tokens (all different as tuple and str, and 5 of the families) under {len(HUGE_EDITS)} edits (quick: from 10000 tokens on, 10 edits, and few of those of the families)"
)


class PairProperty:
    LEVEL = "exploration"
    ASSUMPTIONS = [
        "Tokens are only compared and hashed (C14 checks this), so words that differ by a renaming of the letters are decided once.",
    ]

    def cases(self, tier):
        return pair_cases(tier)

    def bounds(self, tier):
        return BOUNDS.format(**(QUICK if tier == "quick" else THOROUGH))


def join(parts, like):
    if isinstance(like, (str, bytes)):
        return like[0:0].join(parts)
    return tuple(t for part in parts for t in part)


class LosslessDiff(PairProperty):
    ID = "C01"
    RULE = "A case is a pair of token sequences; it is non-trivial when the two differ and share a token."

    def check(self, case, ctx):
        a, b = pair(case)
        items = list(diff_token_sequences(a, b))
        for item in items:
            parts = item if isinstance(item, Change) else (item,)
            for part in parts:
                require(type(part) is type(a), "a fragment is not of the type of the input", item, a, b)
        old = join((i.b if isinstance(i, Change) else i for i in items), a)
        new = join((i.a if isinstance(i, Change) else i for i in items), a)
        require(old == a, "the deleted and common parts are not the original", a, b, items)
        require(new == b, "the inserted and common parts are not the modified version", a, b, items)
        again = list(diff_token_sequences(a, b))
        require(items == again, "the same diff gave another result", a, b, items, again)
        if a != b and set(a) & set(b):
            ctx.nontrivial(case)
        ctx.note = items if len(a) < 40 else f"{len(items)} items"
        if case[0] == "words":
            ctx.outcome([("C", len(i.a), len(i.b)) if isinstance(i, Change) else len(i) for i in items])


def longest_common_block(a, b):
    """Length of the longest common substring, by definition (dynamic programming)."""
    best = 0
    previous = [0] * (len(b) + 1)
    for x in a:
        current = [0] * (len(b) + 1)
        for j, y in enumerate(b, 1):
            if x == y:
                current[j] = length = previous[j - 1] + 1
                if length > best:
                    best = length
        previous = current
    return best


def has_common_block(a, b, length):
    """Do a and b share a block of this length?"""
    if length > min(len(a), len(b)):
        return False
    if len(a) + len(b) > 4000:
        return has_common_block_hashed(a, b, length)
    if isinstance(a, str):
        seen = {a[i : i + length] for i in range(len(a) - length + 1)}
    else:
        a, b = tuple(a), tuple(b)
        seen = {a[i : i + length] for i in range(len(a) - length + 1)}
    return any(b[i : i + length] in seen for i in range(len(b) - length + 1))


def has_common_block_hashed(a, b, length):
    """The same for long words.  Exact: hashes only choose what is compared."""
    prime, base = (1 << 61) - 1, 1_000_003
    code = {token: k for k, token in enumerate(dict.fromkeys(a), 1)}
    if length == 1:
        return any(token in code for token in b)
    top = pow(base, length, prime)

    def hashes(word):
        value = 0
        for i, token in enumerate(word):
            value = (value * base + code.get(token, 0)) % prime
            if i >= length:
                value = (value - top * code.get(word[i - length], 0)) % prime
            if i >= length - 1:
                yield i - length + 1, value

    found = {}
    for i, value in hashes(a):
        places = found.setdefault(value, [])
        if not places or not any(a[k : k + length] == a[i : i + length] for k in places):
            places.append(i)
    return any(a[k : k + length] == b[i : i + length] for i, value in hashes(b) for k in found.get(value, ()))


class CanonicalDiff(PairProperty):
    ID = "C02"
    RULE = "A case is a pair of token sequences; it is non-trivial when the two differ and share a token."

    def check(self, case, ctx):
        a, b = pair(case)
        items = list(diff_token_sequences(a, b))
        previous = None
        for item in items:
            kind = isinstance(item, Change)
            require(kind != previous, "two changes or two common parts in a row", a, b, items)
            previous = kind
            if kind:
                require(len(item.a) or len(item.b), "an empty change", a, b, items)
                require(not set(item.a) & set(item.b), "the sides of a change share a token", a, b, items)
            else:
                require(len(item), "an empty common part", a, b, items)
        if a == b:
            require(not any(isinstance(i, Change) for i in items), "a change between equal sequences", a, items)
        # The longest common part is a longest common block, and so on to
        # the left and to the right of it.
        pending = [items]
        while pending:
            part = pending.pop()
            at = max(
                (k for k, i in enumerate(part) if not isinstance(i, Change)),
                key=lambda k: len(part[k]),
                default=None,
            )
            old = join((i.b if isinstance(i, Change) else i for i in part), a)
            new = join((i.a if isinstance(i, Change) else i for i in part), a)
            length = len(part[at]) if at is not None else 0
            require(
                not has_common_block(old, new, length + 1),
                "a longer common block exists than the diff keeps", old, new, part,
            )
            if at is not None:
                pending += [part[:at], part[at + 1 :]]
        if a != b and set(a) & set(b):
            ctx.nontrivial(case)
        ctx.note = items if len(a) < 40 else f"{len(items)} items"
        if case[0] == "words":
            ctx.outcome([("C", len(i.a), len(i.b)) if isinstance(i, Change) else len(i) for i in items])


class Patches(PairProperty):
    ID = "C03"
    RULE = "A case is a pair of token sequences; it is non-trivial when the two differ and share a token."

    def check(self, case, ctx):
        a, b = pair(case)
        changeset = find_changeset(a, b)
        stream = list(changeset.as_change_stream())
        # The stream describes both versions completely and in order.
        at_a = at_b = 0
        for item in stream:
            if isinstance(item, Change):
                require(item.a or item.b, "an empty change", a, b, stream)
                require(item.b == a[at_a : at_a + len(item.b)], "deleted part is not what the original has there", a, b, stream)
                require(item.a == b[at_b : at_b + len(item.a)], "inserted part is not what the modified version has there", a, b, stream)
                at_a, at_b = at_a + len(item.b), at_b + len(item.a)
            else:
                sa, sb = item
                require((sa.start, sb.start) == (at_a, at_b), "a common slice does not start where the part before it ends", a, b, stream)
                require(a[sa] == b[sb] and len(a[sa]) == sa.stop - sa.start > 0, "common slices are not equal", a, b, stream)
                require(sa.stop - sa.start == sb.stop - sb.start, "common slices of unequal length", a, b, stream)
                at_a, at_b = sa.stop, sb.stop
        require((at_a, at_b) == (len(a), len(b)), "the change stream ends early", a, b, stream)

        forward, reverse = list(strip_forward(stream)), list(strip_reverse(stream))
        checks = [
            ("apply_forward", apply_forward(stream, a), b),
            ("apply_reverse", apply_reverse(stream, b), a),
            ("apply_forward of the unconsumed stream", apply_forward(changeset.as_change_stream(), a), b),
            ("apply_reverse of the unconsumed stream", apply_reverse(changeset.as_change_stream(), b), a),
            ("apply of the forward patch", apply(forward, a), b),
            ("apply of the reverse patch", apply(reverse, b), a),
            ("second apply of the forward patch", apply(tuple(forward), a), b),
        ]
        for name, version, expected in (("old_apply_forward", a, b), ("old_apply_reverse", b, a)):
            if hasattr(changesets, name):
                checks.append((name, getattr(changesets, name)(changeset, version), expected))
        for name, got, expected in checks:
            require(got == expected and type(got) is type(expected), name + " gives another version", a, b, got)
        # One direction is enough to go in that direction: no tokens of the
        # version it is applied to are in a patch, only slices of it.
        for patch, version, other in ((forward, a, b), (reverse, b, a)):
            literal = sum(len(p) for p in patch if not isinstance(p, slice))
            common = sum(len(version[p]) for p in patch if isinstance(p, slice))
            require(literal + common == len(other), "a patch is not exactly slices and new tokens", a, b, patch)
            require(all(len(version[p]) if isinstance(p, slice) else len(p) for p in patch), "an empty item in a patch", a, b, patch)
        if a != b and set(a) & set(b):
            ctx.nontrivial(case)
        ctx.note = forward if len(a) < 40 else f"{len(forward)} items"
        if case[0] == "words":
            ctx.outcome([(p.start, p.stop) if isinstance(p, slice) else len(p) for p in forward])
