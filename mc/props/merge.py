"""Three-way merges of token sequences: C09 .. C13."""

import itertools

from gaspra.changesets import diff_token_sequences
from gaspra.merge import merge_token_sequence
from gaspra.types import Change

from mc.core import require
from mc import space


def merge(parent, a, b):
    return list(merge_token_sequence(parent, a, b))


def join(parts, like):
    if isinstance(like, (str, bytes)):
        return like[0:0].join(parts)
    return tuple(t for part in parts for t in part)


def resolve(items, side, like):
    """The merged text when every conflict is resolved to one side."""
    return join((i[side] if isinstance(i, Change) else i for i in items), like)


def hunks(parent, branch):
    """The edits of a branch: (start, stop, inserted) with respect to the parent."""
    at, found = 0, []
    for item in diff_token_sequences(parent, branch):
        if isinstance(item, Change):
            found.append((at, at + len(item.b), item.a))
            at += len(item.b)
        else:
            at += len(item)
    return found


def touching(x, y):
    return max(x[0], y[0]) <= min(x[1], y[1])


def clashing(x, y):
    """Both put something in the place of overlapping parts of the parent (or
    at the very same place), and not the same edit."""
    return (
        x != y
        and len(x[2]) > 0
        and len(y[2]) > 0
        and (max(x[0], y[0]) < min(x[1], y[1]) or x[0] == x[1] == y[0] == y[1])
    )


# --- edit scripts over a parent of distinct tokens --------------------------
#
# A script says for every token of the parent whether it is deleted (0, 1) and
# for every gap what is inserted: 0 nothing, 1 tokens of the branch's own,
# 2 tokens that the other branch also inserts there (if its script says 2).
# Tokens are expanded to blocks: (parent block, own block 0, own block 1).

PARENT, SHARED, OWN = 0x10000, 0x40000, (0x70000, 0xA0000)
STRIDE = 0x2000


# Styles give the tokens of such scripts (with blocks of one token) a look that
# code might be tempted to treat specially: white space, line ends, markup,
# falsy tokens.  They are still all different.
STYLES = (
    dict(PARENT=" \n\t.", SHARED="pqrst", OWN=("abcde", "01234")),
    dict(PARENT="abcd", SHARED="pqrst", OWN=(" \n\t\r\x0b", "[]\\<>")),
    dict(PARENT="\r\0[=", SHARED=" \n\t\v\f", OWN=("ABCDE", "abcde")),
    dict(PARENT=(0, "", None, ()), SHARED=("\n", b"", 0.5, -1, -2), OWN=((b"\n", "a\n", (0,), (None,), 1), (2, "b\n", frozenset(), "<<<<<<<\n", "b"))),
    dict(PARENT=(1, 2, 3, 4), SHARED=((), "", None, 0, -1), OWN=((-2, -3, -4, -5, -6), ("\n", " ", "\r\n", "\n\n", b"\n"))),
)


def scripts(n, inserts):
    for deleted in itertools.product((0, 1), repeat=n):
        for inserted in itertools.product(inserts, repeat=n + 1):
            yield deleted, inserted


def block(base, i, size, stride=STRIDE):
    return [base + i * stride + k for k in range(size)]


# Combs: long parents with a short pattern of edits that is repeated.
PATTERNS = [(deleted, inserted) for deleted in itertools.product((0, 1), repeat=2) for inserted in itertools.product((0, 1), repeat=2)]
FEW_PATTERNS = (((0, 0), (1, 0)), ((1, 0), (0, 0)), ((0, 1), (1, 0)), ((1, 0), (1, 0)))


def comb(n, pattern):
    deleted, inserted = pattern
    return tuple(deleted[i % 2] for i in range(n)), tuple(inserted[i % 2] for i in range(n + 1))


# Spots: one edit of either branch in a long parent, wherever they are.
SPOTS = (((1, 0), (1, 0)), ((0, 0), (1, 0)), ((1, 0), (0, 0)))


def spot(n, pattern, at):
    deleted, inserted = pattern
    return tuple(deleted[0] if i == at else 0 for i in range(n)), tuple(inserted[0] if i == at else 0 for i in range(n + 1))


# One branch edits a long parent everywhere, and the other one replaces (nearly)
# all of it: by what, given the parent, the first branch, tokens that the
# first branch has inserted, and new tokens.
AGAINST = (
    lambda p, a, own, new: new,
    lambda p, a, own, new: [],
    lambda p, a, own, new: new + own[-1:],
    lambda p, a, own, new: new + own[:1],
    lambda p, a, own, new: own[-1:] + new,
    lambda p, a, own, new: own[::2],
    lambda p, a, own, new: own[::-1],
    lambda p, a, own, new: p[:1] + new + p[-1:],
    lambda p, a, own, new: new[:3] + p[len(p) // 2 :][:1] + new[3:],
    lambda p, a, own, new: own[len(own) // 2 :] + new,
    lambda p, a, own, new: new + p[::-1],
    lambda p, a, own, new: [t for pair in zip(new, own) for t in pair],
    lambda p, a, own, new: new[:1] + a[1:-1:2] + new[1:2],
)
MOVING = (10,)


class Script:
    """The parent and a branch of an edit script, and its hunks by construction."""

    def __init__(self, n, branch, script, blocks, as_text):
        deleted, inserted = script
        size = blocks[0]
        stride = STRIDE if n < 10 else 1
        make = (lambda t: "".join(map(chr, t))) if as_text else tuple
        if len(blocks) > 3:
            style = STYLES[blocks[3]]
            tables = {PARENT: style["PARENT"], SHARED: style["SHARED"], OWN[0]: style["OWN"][0], OWN[1]: style["OWN"][1]}

            def make(codes):
                return join([tables[c & 0xF0000][(c & 0xFFFF) // STRIDE :][:1] for c in codes], style["PARENT"][:0])
        tokens, pending, at = [], None, 0
        self.hunks = []
        for i in range(n + 1):
            new = (
                [],
                block(OWN[branch], i, blocks[1 + branch], stride),
                block(SHARED, i, blocks[1], stride),
                # Insertions of which the branches share the beginning, or the end.
                block(SHARED, i, blocks[1], stride) + block(OWN[branch], i, 1, stride),
                block(OWN[branch], i, 1, stride) + block(SHARED, i, blocks[1], stride),
            )[inserted[i]]
            gone = i < n and deleted[i]
            if new or gone:
                pending = pending or [at, at, []]
                pending[2] += new
            tokens += new
            if i < n:
                at += size
                if gone:
                    pending[1] = at
                else:
                    tokens += block(PARENT, i, size, stride)
            if pending and not gone:
                self.hunks.append((pending[0], pending[1], make(pending[2])))
                pending = None
        self.text = make(tokens)
        self.parent = make([t for i in range(n) for t in block(PARENT, i, size, stride)])


QUICK = dict(total=8, letters=4, long=(33, 100), own=((1, 3), (2, 3), (3, 3)), shared=2,
             blocks=((1, 1, 1), (2, 1, 3), (1, 2, 2), (3, 2, 1)), big=((17, 33, 9), (65, 20, 129), (130, 257, 64), (257, 1, 1), (1, 300, 300), (3000, 1100, 1), (1, 4097, 2049)))
THOROUGH = dict(total=9, letters=4, long=(16, 33, 64, 100, 257), own=((1, 3), (2, 3), (3, 3), (4, 2)), shared=3,
                blocks=((1, 1, 1), (2, 1, 3), (1, 2, 2), (3, 2, 1), (2, 2, 2), (5, 1, 7)),
                big=((16, 16, 16), (17, 33, 9), (32, 33, 31), (64, 65, 63), (65, 20, 129), (130, 257, 64), (257, 1, 1), (1, 300, 300), (500, 600, 700)))

QUICK.update(partly=(16, 33, 65, 129, 257, 513, 1025, 2049, 4097), expanded=(5, 3, (17, 65, 257)))
THOROUGH.update(partly=(15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1025, 2048, 2049, 3000, 4096, 4097, 5001, 8191), expanded=(6, 3, (16, 17, 33, 64, 65, 129, 256, 257, 513, 1025)))
QUICK.update(combs=(17, 33, 65, 129, 257), long_combs=(600,))
THOROUGH.update(combs=(15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300), long_combs=(600, 1100, 2100))
QUICK.update(against=(17, 65, 129, 257, 600))
THOROUGH.update(against=(16, 17, 33, 64, 65, 129, 255, 257, 300, 513, 600, 1100, 2100))
QUICK.update(spots=((130, 3, (0, 2, 65)), (600, 1, (2,))), huge=(2049, 4097, 8193, 16385, 32769, 65537))
THOROUGH.update(spots=((130, 3, (0, 1, 2, 3, 65)), (300, 3, (0, 2, 150)), (1100, 1, (2, 550))),
                huge=(2048, 2049, 3000, 4096, 4097, 5001, 8192, 8193, 10001, 16384, 16385, 20001, 32768, 32769, 50001, 65535, 65536, 65537, 100001))

BOUNDS = (
    "all triples of words with at most {total} tokens in all over at most {letters} letters up to renaming; all triples of at most {expanded[0]} tokens over {expanded[1]} letters, with one letter or all of them expanded to blocks of {expanded[2]} equal or distinct tokens (over 100: one token less); the families of long words of "
    "sizes {long} under all pairs of 23 edits; all pairs of edit scripts over parents of up to 3 blocks of distinct tokens (every block kept or "
    "deleted, every gap with or without an insertion), block sizes (parent, branch 0, branch 1) in {blocks}, single tokens also of 5 alphabets of white space, markup and falsy tokens, and up to 2 blocks for {big} (over 1000 in quick runs: 1); with "
    "insertions shared by the branches for parents of up to {shared} blocks, and ones that are shared in part ({partly} tokens) for parents of up to 1 (over 1000 in quick runs: 0); parents of {combs} distinct tokens in which either branch repeats "
    "one of 16 patterns of edits ({long_combs} tokens: 4 patterns); for parents of {against} tokens such repeated edits (over 300 in quick runs: of 4 patterns) in one branch where the other one replaces nearly everything, in 13 ways; one edit (of 3 kinds, or 1) of either branch at every place of a long parent, at several distances: (size, kinds, distances) in {spots}; one edit of either branch of "
    "parents of {huge} tokens, at the first, the middle and the last, 0, 2 and a third of the tokens apart, of 3 kinds (from 10000 tokens on: 1)"
)


def triple_cases(tier, parts=("words", "scripts", "long")):
    p = QUICK if tier == "quick" else THOROUGH
    if "words" in parts:
        for words in space.word_tuples(3, p["total"], p["letters"]):
            yield ("words", *words)
        total, letters, sizes = p["expanded"]
        for words in space.word_tuples(3, total, letters):
            present = "".join(sorted(set("".join(words))))
            for big in sorted({*present, present}) if present else ():
                for size in sizes:
                    if size > 100 and sum(map(len, words)) == total:
                        continue
                    for distinct in (True, False):
                        yield "expanded", words, big, size, distinct
    if "scripts" in parts:
        for n in range(0, 4):
            both = list(itertools.product(scripts(n, (0, 1)), repeat=2))
            for blocks in p["blocks"] if n < 3 or tier != "quick" else p["blocks"][:3]:
                for s0, s1 in both:
                    yield "script", n, s0, s1, blocks
            for style in range(len(STYLES)):
                for s0, s1 in both:
                    yield "script", n, s0, s1, (1, 1, 1, style)
            if n < 3:
                for blocks in p["big"]:
                    if n == 2 and max(blocks) > 1000 and tier == "quick":
                        continue
                    for s0, s1 in both:
                        yield "script", n, s0, s1, blocks
        if tier != "quick":
            for s0, s1 in itertools.product(scripts(4, (0, 1)), repeat=2):
                yield "script", 4, s0, s1, (1, 1, 1)
        for n in range(p["shared"] + 1):
            for s0, s1 in itertools.product(scripts(n, (0, 1, 2)), repeat=2):
                # Only scripts that do share an insertion are new.
                if any(x == y == 2 for x, y in zip(s0[1], s1[1])):
                    for blocks in ((1, 1, 1), (2, 3, 1), (20, 33, 33), *((1, 1, 1, style) for style in range(len(STYLES)))):
                        if (n < 2 or blocks[0] < 20) and (n < 3 or blocks == (1, 1, 1)):
                            yield "script", n, s0, s1, blocks
        for n in range(2):
            for s0, s1 in itertools.product(scripts(n, (0, 1, 2, 3, 4)), repeat=2):
                if any(min(x, y) >= 2 and max(x, y) >= 3 for x, y in zip(s0[1], s1[1])):
                    for blocks in ((1, 1, 1), (2, 3, 1), *((1, size, 1) for size in p["partly"] if n == 0 or size < 1000 or tier != "quick")):
                        yield "script", n, s0, s1, blocks
        for n in p["combs"]:
            for p0, p1 in itertools.product(PATTERNS, repeat=2):
                yield "comb", n, p0, p1
        for n in p["long_combs"]:
            for p0, p1 in itertools.product(FEW_PATTERNS, repeat=2):
                yield "comb", n, p0, p1
        for n in p["against"]:
            for pattern in PATTERNS[1:] if n < 300 or tier != "quick" else FEW_PATTERNS:
                for other in range(len(AGAINST)):
                    for swap in (False, True):
                        yield "against", n, pattern, other, swap
        for n, patterns, distances in p["spots"]:
            for p0, p1 in itertools.product(SPOTS[:patterns], repeat=2):
                for i in range(n):
                    for d in distances:
                        yield "spots", n, p0, p1, i, (i + d) % n
        for n in p["huge"]:
            for p0, p1 in itertools.product(SPOTS[: 3 if n < 10000 or tier != "quick" else 1], repeat=2):
                for i in (0, n // 2, n - 1):
                    for d in (0, 2, n // 3):
                        yield "spots", n, p0, p1, i, (i + d) % n
    if "long" in parts:
        for size in p["long"]:
            for family in space.families(4):
                for e0 in space.edits("abcd"):
                    for e1 in space.edits("abcd"):
                        if size < 64 or not (e0 in space.MANY_EDITS and e1 in space.MANY_EDITS):
                            yield "long", family, size, e0, e1


def triple(case):
    """Parent, branches, and their hunks."""
    kind = case[0]
    if kind == "words":
        parent, a, b = case[1:]
    elif kind == "expanded":
        _, words, big, size, distinct = case
        if distinct:
            parent, a, b = (tuple(t for c in w for t in ((c, i) for i in range(size if c in big else 1))) for w in words)
        else:
            parent, a, b = ("".join(c * (size if c in big else 1) for c in w) for w in words)
    elif kind == "long":
        _, family, size, e0, e1 = case
        parent = space.families(size)[family]
        edits = space.edits(parent)
        a, b = edits[e0], edits[e1].replace("X", "Z")
        if e0 == e1 or size % 2:
            b = edits[e1]
    elif kind == "against":
        _, n, pattern, other, swap = case
        script = Script(n, 0, comb(n, pattern), (1, 1, 1), other % 2 == 0)
        like = script.parent
        parent, a = list(like), list(script.text)
        make = "".join if isinstance(like, str) else tuple
        new = [chr(OWN[1] + i) if isinstance(like, str) else OWN[1] + i for i in range(max(5, n // 3))]
        present = set(parent)
        b = AGAINST[other](parent, a, [t for t in a if t not in present], new)
        parent, a, b = map(make, (parent, a, b))
        if swap:
            a, b = b, a
    else:
        if kind == "comb":
            _, n, p0, p1 = case
            s0, s1, blocks = comb(n, p0), comb(n, p1), (1, 1, 1)
        elif kind == "spots":
            _, n, p0, p1, i, j = case
            s0, s1, blocks = spot(n, p0, i), spot(n, p1, j), (1, 1, 1)
        else:
            _, n, s0, s1, blocks = case
        as_text = sum(s0[0]) % 2 == 0
        s0, s1 = Script(n, 0, s0, blocks, as_text), Script(n, 1, s1, blocks, as_text)
        return s0.parent, s0.text, s1.text, s0.hunks, s1.hunks
    return parent, a, b, hunks(parent, a), hunks(parent, b)


class MergeProperty:
    LEVEL = "exploration"
    ASSUMPTIONS = [
        "Tokens are only compared and hashed (C14 checks this), so words that differ by a renaming of the letters are decided once.",
        "For words with repeated tokens, the edits of a branch are those that the (separately checked, C01 and C02) diff reports.",
    ]
    RULE = "A case is a parent and two branches; it is non-trivial when both branches differ from the parent and from one another."

    def cases(self, tier):
        return triple_cases(tier)

    def bounds(self, tier):
        return BOUNDS.format(**(QUICK if tier == "quick" else THOROUGH))

    def note(self, case, ctx, parent, a, b, items):
        if a != parent != b != a:
            ctx.nontrivial(case)
        ctx.note = items if len(parent) + len(a) + len(b) < 60 else f"{len(items)} items"
        if case[0] not in ("long", "comb", "expanded", "spots", "against"):
            ctx.outcome([("C", len(i.a), len(i.b)) if isinstance(i, Change) else len(i) for i in items][:20])


class OneSided(MergeProperty):
    ID = "C09"
    RULE = "A case is a pair (parent, branch) of token sequences, merged in the three ways in which at most one side has anything to say; non-trivial when they differ and share a token."

    def bounds(self, tier):
        from mc.props import diff
        return diff.PairProperty.bounds(self, tier) + ("; but very long words of the families only up to 10000 tokens" if tier == "quick" else "")

    def cases(self, tier):
        from mc.props import diff
        for case in diff.pair_cases(tier):
            # Three merges of very long words take long.
            if tier != "quick" or case[0] != "huge" or case[1] < 10000 or case[2] in diff.HUGE[:2]:
                yield case

    def check(self, case, ctx):
        from mc.props import diff
        parent, branch = diff.pair(case)
        expected = [branch]
        got = merge(parent, parent, branch)
        require(got == expected, "only the second branch is edited, but the merge is not that branch", parent, branch, got)
        got = merge(parent, branch, parent)
        require(got == expected, "only the first branch is edited, but the merge is not that branch", parent, branch, got)
        got = merge(parent, branch, branch)
        require(got == expected, "both branches are the same, but the merge is not that version", parent, branch, got)
        require(type(got[0]) is type(parent), "the merge is of another type than its input", parent, branch, got)
        if parent != branch and set(parent) & set(branch):
            ctx.nontrivial(case)


def compose(parent, edits):
    parts, at = [], 0
    for start, stop, new in edits:
        parts += [parent[at:start], new]
        at = stop
    return join([*parts, parent[at:]], parent)


def concatenate(lists, like):
    """Join the results of merges of consecutive parts."""
    out = []
    for item in itertools.chain(*lists):
        if isinstance(item, Change):
            out.append(item)
        elif len(item):
            if out and not isinstance(out[-1], Change):
                out[-1] = join((out[-1], item), like)
            else:
                out.append(item)
    return out or [like[0:0]]


class Separated(MergeProperty):
    ID = "C10"

    def check(self, case, ctx):
        parent, a, b, ha, hb = triple(case)
        items = merge(parent, a, b)
        if not any(x != y and touching(x, y) for x in ha for y in hb):
            expected = compose(parent, sorted(set(ha) | set(hb), key=lambda h: h[:2]))
            require(items == [expected], "edits that do not touch are not merged cleanly", parent, a, b, items, expected)
            ctx.count("clean_by_construction")
        elif case[0] in ("script", "comb", "spots"):
            # Conflicts stay local: wherever neither branch has an edit, the
            # merge can be cut, and is the merge of the parts.
            groups = []
            for h in sorted(ha + hb, key=lambda h: h[:2]):
                if groups and h[0] <= groups[-1][1]:
                    groups[-1][1] = max(groups[-1][1], h[1])
                else:
                    groups.append([h[0], h[1]])
            if len(groups) > 1:
                parts, at = [], 0
                for start, stop in groups:
                    parts.append([parent[at:start]])
                    local = [[(s - start, e - start, new) for s, e, new in hs if start <= s and e <= stop] for hs in (ha, hb)]
                    p = parent[start:stop]
                    parts.append(merge(p, compose(p, local[0]), compose(p, local[1])))
                    at = stop
                parts.append([parent[at:]])
                expected = concatenate(parts, parent)
                require(items == expected, "a conflict changes how edits elsewhere are merged", parent, a, b, items, expected)
                ctx.count("cut_into_parts")
        self.note(case, ctx, parent, a, b, items)


class Accounting(MergeProperty):
    ID = "C11"
    RULE = "A case is a pair of edit scripts over a parent of distinct tokens; non-trivial when both branches differ from the parent and from one another."
    ASSUMPTIONS = [
        "Tokens are only compared and hashed (C14 checks this). All tokens of the parent and of the insertions are distinct, so that each can be followed through the merge.",
    ]

    def cases(self, tier):
        # A token that a branch moves is deleted and inserted: it has no one
        # place to follow it to.
        return (c for c in triple_cases(tier, ("scripts",)) if c[0] != "against" or c[3] not in MOVING)

    def check(self, case, ctx):
        parent, a, b, ha, hb = triple(case)
        items = merge(parent, a, b)
        info = (parent, a, b, items)
        ra, rb = resolve(items, 0, parent), resolve(items, 1, parent)
        sp, sa, sb, sra, srb = map(set, (parent, a, b, ra, rb))
        shared = (sa & sb) - sp
        require(sra | srb <= sp | sa | sb, "the merge has a token that no version has", *info)
        require(sa - sp <= sra, "an insertion of the first branch is missing from its side", *info)
        require(sb - sp <= srb, "an insertion of the second branch is missing from its side", *info)
        require(sp - sa <= sp - sra, "a deletion of the first branch is missing from its side", *info)
        require(sp - sb <= sp - srb, "a deletion of the second branch is missing from its side", *info)
        require(sa & sb <= sra & srb, "what both branches have is missing", *info)
        if not shared:
            require(len(sra) == len(ra) and len(srb) == len(rb), "the merge repeats a token", *info)
            for r in (ra, rb):
                for branch, members in ((a, sa), (b, sb), (parent, sp)):
                    require(space.is_subsequence([t for t in r if t in members], branch), "the merge changes the order of a version", *info)
            # An edit that touches no edit of the other branch is on both sides.
            for mine, other in ((ha, hb), (hb, ha)):
                for h in mine:
                    if not any(touching(h, o) for o in other):
                        require(set(h[2]) <= sra & srb, "an insertion without a counterpart is not on both sides", *info)
                        require(not set(parent[h[0] : h[1]]) & (sra | srb), "a deletion without a counterpart is not on both sides", *info)
        self.note(case, ctx, *info)


class Symmetry(MergeProperty):
    ID = "C12"

    def check(self, case, ctx):
        parent, a, b, ha, hb = triple(case)
        items, swapped = merge(parent, a, b), merge(parent, b, a)
        require(
            resolve(items, 0, parent) == resolve(swapped, 1, parent),
            "the first branch's side is not the same when the branches are swapped", parent, a, b, items, swapped,
        )
        require(
            resolve(items, 1, parent) == resolve(swapped, 0, parent),
            "the second branch's side is not the same when the branches are swapped", parent, a, b, items, swapped,
        )
        conflict = any(isinstance(i, Change) for i in items)
        require(conflict == any(isinstance(i, Change) for i in swapped), "there is a conflict only in one order of the branches", parent, a, b, items, swapped)
        require(items == merge(parent, a, b), "the same merge gave another result", parent, a, b)
        # What is on a side of a conflict comes from that branch, or the parent.
        for item in items:
            if isinstance(item, Change):
                require(set(item.a) <= set(a) | set(parent), "a conflict shows the first branch something it does not have", parent, a, b, items)
                require(set(item.b) <= set(b) | set(parent), "a conflict shows the second branch something it does not have", parent, a, b, items)
        if case[0] in ("script", "comb", "spots"):
            own_a, own_b = set(a) - set(b) - set(parent), set(b) - set(a) - set(parent)
            for item in items:
                if isinstance(item, Change):
                    require(not own_b & set(item.a) and not own_a & set(item.b), "an insertion is on the other branch's side of a conflict", parent, a, b, items)
        self.note(case, ctx, parent, a, b, items)


class Conflicts(MergeProperty):
    ID = "C13"

    def check(self, case, ctx):
        parent, a, b, ha, hb = triple(case)
        items = merge(parent, a, b)
        info = (parent, a, b, items)
        conflicts = [i for i in items if isinstance(i, Change)]
        if any(clashing(x, y) for x in ha for y in hb):
            require(conflicts, "edits that exclude one another were merged without a conflict", *info)
            ctx.count("clashes")
        if not any(x != y and touching(x, y) for x in ha for y in hb):
            require(not conflicts, "a conflict between edits that do not touch", *info)
        require(len(items) > 0, "an empty result", *info)
        previous = None
        for item in items:
            kind = isinstance(item, Change)
            require(kind != previous, "two conflicts or two texts in a row", *info)
            previous = kind
            if kind:
                require(item.a != item.b, "a conflict between equal sides", *info)
                require(not set(item.a) & set(item.b), "the sides of a conflict share a token", *info)
                for part in item:
                    require(type(part) is type(parent), "a fragment is not of the type of the input", *info)
            else:
                require(type(item) is type(parent), "a fragment is not of the type of the input", *info)
                require(len(item) or len(items) == 1, "an empty text", *info)
        self.note(case, ctx, *info)
