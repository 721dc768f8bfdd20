"""C17: variable-length integers.  C18: serialized changesets."""

import itertools

from gaspra.changesets import apply, find_changeset, strip_forward, strip_reverse
from gaspra.serialize import (
    deserialize_changeset,
    serialize_changeset,
    vdeserialize_int,
    vserialize_int,
)

from mc.core import require
from mc import space


def reference(v):
    """The variable-length integers of SQLite4, from their documentation."""
    if v <= 240:
        return bytes([v])
    if v <= 2287:
        return bytes([(v - 240) // 256 + 241, (v - 240) % 256])
    if v <= 67823:
        return bytes([249, (v - 2288) // 256, (v - 2288) % 256])
    for n in range(3, 9):
        if v < 1 << (8 * n):
            return bytes([247 + n]) + v.to_bytes(n, "big")
    raise OverflowError


BOUNDARIES = sorted(
    {240, 241, 2287, 2288, 67823, 67824}
    | {1 << k for k in range(8, 65)}
    | {(1 << k) + (1 << j) for k in range(17, 64) for j in range(0, k, 3)}
    | {b << (8 * k) for b in range(1, 256) for k in range(8)}
    | {int("%02x" % b * n, 16) for b in range(1, 256) for n in range(1, 9)}
    | {(1 << 64) - 1 - (b << (8 * k)) for b in range(256) for k in range(8)}
)
SUFFIXES = (b"", b"\0", b"\xff", b"\xf9\x00", bytes(range(12)))


class Varint:
    ID = "C17"
    LEVEL = "exploration"
    RULE = "A case is a range of integers or of byte strings; non-trivial cases contain integers that need more than one byte (all but the first)."
    ASSUMPTIONS = ["The format is that of SQLite4's variable-length integers, as the documentation of the functions says."]

    def bounds(self, tier):
        return (
            f"every integer below {1 << (20 if tier == 'quick' else 24)}; {len(BOUNDARIES)} larger integers (powers of two, all one-byte patterns) and their "
            "neighbours within 3, up to 2^64 - 1; every byte string of length up to 2 (thorough: 3)"
        )

    def cases(self, tier):
        for start in range(0, 1 << (20 if tier == "quick" else 24), 1024):
            yield "below", start, start + 1024
        for i in range(0, len(BOUNDARIES), 64):
            yield "boundary", i, i + 64
        for first in range(256):
            yield "bytes", first, 2 if tier == "quick" else 3
        yield "outside", 0, 0

    def check(self, case, ctx):
        kind, x, y = case
        if kind == "below":
            previous = vserialize_int(x - 1) if x else None
            for v in range(x, y):
                previous = self.one(v, previous, v % 64 == 0)
        elif kind == "boundary":
            for b in BOUNDARIES[x:y]:
                for v in range(max(0, b - 3), b + 4):
                    if v < 1 << 64:
                        self.one(v, vserialize_int(v - 1) if v else None, True)
        elif kind == "bytes":
            for n in range(y):
                for rest in itertools.product(range(256), repeat=n):
                    self.decode(bytes((x, *rest)))
        else:
            for v in (1 << 64, (1 << 64) + 1, 1 << 65, 1 << 72, 1 << 100, -1, -240, -(1 << 70)):
                try:
                    got = vserialize_int(v)
                except Exception:
                    continue
                require(vdeserialize_int(got) == (v, b""), "an integer outside the range is encoded as another", v, got)
            for v in (b"",):
                self.fails(v)
        if (kind, x) != ("below", 0):
            ctx.nontrivial(case)

    def one(self, v, previous, thorough):
        encoded = vserialize_int(v)
        require(encoded == reference(v), "not SQLite's encoding", v, encoded)
        require(previous is None or previous < encoded, "the encodings are not in the order of the integers", v, encoded)
        for suffix in SUFFIXES if thorough else SUFFIXES[:2]:
            got = vdeserialize_int(encoded + suffix)
            require(got == (v, suffix), "decoding does not give the integer and the rest back", v, encoded, suffix, got)
        if thorough or len(encoded) > 3:
            for n in range(len(encoded)):
                self.fails(encoded[:n])
        return encoded

    def fails(self, stream):
        try:
            got = vdeserialize_int(stream)
        except Exception:
            return
        require(False, "a truncated integer is decoded", stream, got)

    def decode(self, stream):
        a0 = stream[0]
        need = 1 if a0 <= 240 else 2 if a0 <= 248 else 3 if a0 == 249 else a0 - 246
        if len(stream) < need:
            return self.fails(stream)
        if a0 <= 240:
            v = a0
        elif a0 <= 248:
            v = 240 + 256 * (a0 - 241) + stream[1]
        elif a0 == 249:
            v = 2288 + 256 * stream[1] + stream[2]
        else:
            v = int.from_bytes(stream[1:need], "big")
        got = vdeserialize_int(stream)
        require(got == (v, stream[need:]), "decoding", stream, got, v)


SIZES = (1, 2, 240, 241, 2287, 2288, 67823, 67824)
ITEMS = tuple([("b", 1), ("b", 2), ("s", 0, 1), ("s", 5, 9), ("b", 241), ("s", 240, 241), ("s", 2287, 70000), ("s", 0, 1 << 32)])
EMPTY = (("b", 0), ("s", 3, 3))


def item(spec, k):
    if spec[0] == "s":
        return slice(spec[1], spec[2])
    # Bytes that look like lengths.
    return bytes((k * 7 + i * 5 + (249 if i == 0 else 0)) % 256 for i in range(spec[1]))


class Changesets:
    ID = "C18"
    LEVEL = "exploration"
    RULE = "A case is a changeset: a sequence of literal bytes and slices, or one made by diffing two byte strings; non-trivial when it has two or more parts."
    ASSUMPTIONS = ["Slices have a start and a stop, as those of a diff do."]

    def bounds(self, tier):
        n = 4 if tier == "quick" else 5
        return (
            f"all sequences of at most {n} parts from {ITEMS}, and of at most 3 with empty parts {EMPTY}; all literals and slices of sizes {SIZES}; "
            "the patches in both directions between all pairs of words of at most 7 letters in all, and 15 families of long words under 23 edits, with every truncation of the short ones"
        )

    def cases(self, tier):
        for n in range((4 if tier == "quick" else 5) + 1):
            for specs in itertools.product(ITEMS, repeat=n):
                yield "parts", *specs
        for n in range(1, 4):
            for specs in itertools.product(ITEMS[:4] + EMPTY, repeat=n):
                if any(s in EMPTY for s in specs):
                    yield "parts", *specs
        for size in SIZES + (255, 256, 257, 2286, 2289, 65535, 65536, 65537, 67822, 67825, 100000):
            for specs in itertools.product((("b", size), ("s", 0, size), ("s", size, size + 1), ("b", 1), ("s", size - 1, 2 * size)), repeat=2):
                yield "parts", *specs
        for a, b in space.word_tuples(2, 7 if tier == "quick" else 8, 3):
            yield "pair", a, b
        for size in (100, 241, 300) if tier == "quick" else (100, 240, 241, 242, 256, 300, 513, 1025, 2300):
            for family in space.families(4):
                for edit in space.edits("abcd"):
                    if size <= 300 or edit not in space.MANY_EDITS:
                        yield "long", family, size, edit
        for size in (2287, 2288, 2289, 67823, 67824, 67825):
            for edit in ("cut first", "cut last", "cut middle", "insert", "append", "prepend", "two edits", "cut half"):
                yield "huge", size, edit

    def check(self, case, ctx):
        kind = case[0]
        if kind == "parts":
            parts = [item(s, k) for k, s in enumerate(case[1:])]
            self.round_trip(parts, sum(s[1] for s in case[1:] if s[0] == "b") < 600)
            if len(parts) > 1:
                ctx.nontrivial(case)
            return
        if kind == "huge":
            _, size, edit = case
            # Distinct pieces, so that diffing is fast.
            a = "".join(map(chr, range(0x100, 0x100 + 2000))) * (size // 2000 + 1)
            a = "".join(chr(0x4E00 + i % 20000) if i % 3 else chr(0xAC00 + i // 3 % 11000) for i in range(size))
            b = space.edits(a)[edit]
            patch = [p if isinstance(p, slice) else p.encode() for p in strip_forward(find_changeset(a, b).as_change_stream())]
            self.round_trip(patch, False)
            got = apply([p if isinstance(p, slice) else p.decode() for p in deserialize_changeset(serialize_changeset(patch))], a)
            require(got == b, "a stored patch gives another version", case)
            ctx.nontrivial(case)
            return
        a, b = case[1:] if kind == "pair" else space.long_pair(*case[1:])
        a, b = a.encode(), b.encode()
        stream = list(find_changeset(a, b).as_change_stream())
        for patch, version, expected in ((strip_forward(stream), a, b), (strip_reverse(stream), b, a)):
            patch = list(patch)
            self.round_trip(patch, kind == "pair")
            got = apply(deserialize_changeset(serialize_changeset(tuple(patch))), version)
            require(got == expected, "a stored patch gives another version", a, b, patch, got)
            got = apply(deserialize_changeset(serialize_changeset(iter(patch))), version)
            require(got == expected, "a stored patch gives another version", a, b, patch, got)
        if a != b and set(a) & set(b):
            ctx.nontrivial(case)

    def round_trip(self, parts, truncate):
        stream = serialize_changeset(parts)
        require(type(stream) is bytes, "not bytes", parts, stream)
        # Empty parts say nothing and are not kept.
        expected = [p for p in parts if (p.start != p.stop if isinstance(p, slice) else p)]
        got = list(deserialize_changeset(stream))
        require(got == expected, "the parts are not the same after storing them", parts, stream, got)
        require(serialize_changeset(parts) == stream, "serializing again gives other bytes", parts, stream)
        if truncate:
            for n in range(len(stream)):
                got, failed = [], False
                try:
                    for part in deserialize_changeset(stream[:n]):
                        got.append(part)
                except Exception:
                    failed = True
                require(got == expected[: len(got)], "a truncated changeset gives other parts", parts, stream[:n], got)
                if not failed and len(expected) == len(parts):
                    # It can only have been cut between parts.
                    whole = serialize_changeset(got)
                    require(
                        stream[:n].startswith(whole) and len(stream[:n]) - len(whole) <= 2 and not any(stream[len(whole) : n]),
                        "a truncated changeset is read as if it were complete", parts, stream[:n], got,
                    )
