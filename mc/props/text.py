"""C15: tokenizers.  C16: diffs and merges of texts through tokenizers."""

import itertools
import re

from gaspra.changesets import diff_token_sequences
from gaspra.diff_to_lines import consolidated_line_diff
from gaspra.merge import merge_token_sequence
from gaspra.tokenizers import (
    CharTokenizer,
    LineTokenizer,
    NullTokenizer,
    SymbolTokenizer,
    decode_changes,
    diff,
    line_encode_strings,
    merged,
)
from gaspra.types import Change

from mc.core import require
from mc import space

TOKENIZERS = {"null": NullTokenizer, "char": CharTokenizer, "line": LineTokenizer, "symbol": SymbolTokenizer}


def is_word(c):
    # As the documentation of \w puts it, and "$" and "-".
    return c.isalnum() or c == "_" or c in "$-"


def atoms(name, text):
    """The pieces a tokenizer must keep whole, by definition."""
    if name == "line":
        newline = b"\n" if isinstance(text, bytes) else "\n"
        parts = text.split(newline)
        return [p + newline for p in parts[:-1]] + [parts[-1]]
    if isinstance(text, bytes):
        if name == "null":
            return [text[i : i + 1] for i in range(len(text))]
        return [a.encode() for a in atoms(name, text.decode())]
    if name in ("null", "char"):
        return list(text)
    out, word = [], ""
    for c in text:
        if is_word(c):
            word += c
            continue
        if word:
            out.append(word)
            word = ""
        out.append(c)
    if word:
        out.append(word)
    return out


ALPHABET = ("a", "b", "\n", " ", "-", "\r", "\u00e9", "")
TEXTS = (
    "", "a", "\n", "a\n", "a\nb", "a\nb\n", "ab ab", "a-b", "$x_1 = y", "\r\n", "a\r\nb\r\n", "\u00e9t\u00e9", "a\n\n\nb", " a", "\ta ",
    "\U0001f600x", "\0", "\x85\u2028", "\x0b\x0c", "a\rb", "\ufeffa", "e\u0301", "x\ny", "if (a) { b(); }\n",
)


# The first and last of the surrogates, of what UTF-8 and UTF-16 encode in
# different ways, and characters that are combined, or take part in others.
POINTS = tuple(map(chr, (
    0, 0x7F, 0x80, 0xFF, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xD83D, 0xDBFF, 0xDC00, 0xDE00, 0xDFFF, 0xE000, 0xFEFF, 0xFFFE, 0xFFFF, 0x10000, 0x1F600,
    0x10FFFF, 0x301, 0x345, 0x200D, 0x200B, 0x2060, 0xFE0F, 0xFE0E, 0x1F3FB, 0x1F1E9, 0x1F1EA, 0x1100, 0x1161, 0x11A8, 0x3B1, 0x130, 0x131, 0xDF, 0x2028, 10, 13, 32, 45, 36, 95, 97)))


class Tokenizers:
    ID = "C15"
    LEVEL = "exploration"
    RULE = (
        "A case is a sequence of texts given to one tokenizer (or a range of code points); non-trivial when a token occurs twice, "
        "or for a range of code points."
    )
    ASSUMPTIONS = ["Texts given as bytes to the character and symbol tokenizers are UTF-8."]

    def bounds(self, tier):
        n = 5 if tier == "quick" else 6
        return (
            f"{len(space.unusual_texts())} unusual texts, each and all in one; every text of at most {n} characters over {ALPHABET[:7]}; every sequence of 3 texts from a list of {len(TEXTS)}, as str and as bytes; "
            f"all 1,114,112 code points; all pairs of {len(POINTS)} code points (surrogates, combining ones, the limits of the encodings), alone and with a third; every tokenizer"
        )

    def cases(self, tier):
        for name in TOKENIZERS:
            for text in space.words(ALPHABET[:7], 5 if tier == "quick" else 6):
                yield "text", name, text
        for name in TOKENIZERS:
            for texts in itertools.product(range(len(TEXTS)), repeat=3):
                yield "texts", name, texts
        for texts in itertools.product(range(len(TEXTS)), repeat=3 if tier != "quick" else 2):
            yield "encode lines", "", texts
        for name in ("char", "symbol", "line"):
            for start in range(0, 0x110000, 1024):
                yield "range", name, start
        for size in (15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 1023, 1024, 1025, 4097, 65535, 65536, 65537, 70000):
            for name in TOKENIZERS:
                yield "many", name, size
        for name in TOKENIZERS:
            for start in range(0, len(space.unusual_texts()), 40):
                yield "unusual", name, start
            yield "unusual", name, None
            for i in range(len(POINTS)):
                yield "pairs", name, i

    def check(self, case, ctx):
        kind, name, data = case
        if kind == "encode lines":
            texts = [TEXTS[i] for i in data]
            decoding, *encoded = line_encode_strings(*texts)
            require(len(encoded) == len(texts), "not one sequence for each text", texts)
            for text, tokens in zip(texts, encoded):
                require("\n".join(decoding[t] for t in tokens) == text, "the lines are not those of the text", text, tokens, decoding)
            require(len(set(decoding)) == len(decoding), "a line has two tokens", texts, decoding)
            ctx.nontrivial(case)
            return
        if kind == "unusual":
            texts = space.unusual_texts() if data is None else space.unusual_texts()[data : data + 40]
            self.session(name, texts)
            texts = [t for t in texts if not any(0xD800 <= ord(c) < 0xE000 for c in t)]
            self.session(name, [t.encode() for t in texts])
            for text in texts if data is not None else ("\n".join(texts), " ".join(texts), "".join(texts)):
                self.session(name, [text])
                self.session(name, [text.encode()])
            ctx.nontrivial(case)
        elif kind == "pairs":
            # Characters that belong together stay apart, and in order.
            texts = [POINTS[data] + p + tail for p in POINTS for tail in ("", "x", POINTS[data])]
            self.session(name, texts)
            for text in texts:
                self.session(name, [text])
            for text in texts:
                if not any(0xD800 <= ord(c) < 0xE000 for c in text):
                    self.session(name, [text.encode()])
            ctx.nontrivial(case)
        elif kind == "text":
            self.session(name, [data])
            self.session(name, [data.encode()])
            self.session(name, [data, data[::-1], data])
            if len(set(data)) < len(data):
                ctx.nontrivial(case)
        elif kind == "texts":
            texts = [TEXTS[i] for i in data]
            self.session(name, texts)
            self.session(name, [t.encode() for t in texts])
            ctx.nontrivial(case)
        elif kind == "range":
            points = [chr(c) for c in range(data, data + 1024)]
            if name == "line":
                self.session(name, ["\n".join(points)], exact=False)
                return
            self.session(name, ["".join(points), " ".join(points), "\n".join(points[::-1]), "a".join(points)])
            if not 0xD800 <= data < 0xE000:
                self.session(name, ["".join(points).encode(), "".join(points[::-1]).encode()])
            ctx.nontrivial(case)
        else:
            lines = ["%d x\n" % i for i in range(data)]
            text = "".join(lines)
            self.session(name, [text, lines[-1] + lines[0], text + "1", ""])
            self.session(name, [b"x" * data, text.encode()])
            ctx.nontrivial(case)

    def session(self, name, texts, exact=True):
        tokenizer = TOKENIZERS[name]()
        token_of, atom_of, encoded = {}, {}, []
        for text in texts:
            tokens = tokenizer.encode(text)
            back = tokenizer.decode(tokens)
            require(back == text and type(back) is type(text), "decoding does not give the text back", name, text, back)
            encoded.append(tokens)
            if not exact:
                continue
            pieces = atoms(name, text)
            require(len(tokens) == len(pieces), "the tokens are not the pieces of the text", name, text, tokens, pieces)
            for token, piece in zip(tokens, pieces):
                hash(token)
                require(token_of.setdefault(piece, token) == token, "the same piece has two tokens", name, texts, piece)
                require(atom_of.setdefault(token, piece) == piece, "two pieces have the same token", name, texts, piece, atom_of[token])
        # What it refuses changes nothing.
        if texts:
            other = b"x\ny" if isinstance(texts[0], str) else "x\ny"
            bad = [other, other[:0]]
            if isinstance(other, str) and name in ("char", "symbol"):
                bad += [b"new\xff", b"\xc3"]
            for text in bad:
                try:
                    tokenizer.encode(text)
                except Exception:
                    pass
                else:
                    require(False, "text and bytes are mixed in one tokenizer, or bytes are not UTF-8, and it is not refused", name, texts, text)
            for text, tokens in zip(texts[:4], encoded):
                require(tokenizer.encode(text) == tokens, "a text has other tokens after a refused one", name, texts, text)
        # What was encoded before can still be decoded.
        for text, tokens in zip(texts, encoded):
            back = tokenizer.decode(tokens)
            require(back == text, "a text encoded earlier is decoded to something else", name, texts, back)
            half = len(tokens) // 2
            back = tokenizer.decode(tokens[:half]) + tokenizer.decode(tokens[half:])
            require(back == text, "decoding in two parts does not give the text back", name, text, back)


def items_text(items, side):
    return "".join(i[side] if isinstance(i, Change) else i for i in items)


PIECES = {
    "line": ("a\n", "b\n", "a", ""),
    "symbol": ("ab", " ", "ba", "\n", "a-b"),
    "char": ("a", "\n", "\u00e9", "ab"),
    "null": ("a", "\n", "b", "aa"),
}


class TextLevel:
    ID = "C16"
    LEVEL = "exploration"
    RULE = "A case is a pair or triple of texts with a tokenizer, or a history of calls; non-trivial when the texts differ."
    ASSUMPTIONS = ["Texts given as bytes to the character and symbol tokenizers are UTF-8."]

    SIZES = dict(
        quick=(16, 17, 64, 65, 128, 129, 256, 257, 300, 1000, 2049, 4097, 8193, 16385),
        thorough=(16, 17, 31, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1025, 2000, 2049, 4096, 4097, 8192, 8193, 16385, 32769, 65537),
    )

    def bounds(self, tier):
        n, m = (4, 3) if tier == "quick" else (5, 3)
        return (
            f"all pairs of texts of at most {n} pieces and all triples of at most {m} pieces in all from {PIECES}, with a fresh tokenizer, with one "
            f"used before, and (null) with the default; as str and bytes; all pairs and selected triples of 24 texts, and {len(space.unusual_texts(False))} triples made of unusual texts, with every tokenizer; "
            f"{self.SIZES[tier]} lines under 6 edits (from 2000 on with the line and symbol tokenizers, in quick runs from 3000 on with the line tokenizer)"
        )

    def cases(self, tier):
        n, m = (4, 3) if tier == "quick" else (5, 4)
        for name, pieces in PIECES.items():
            for words in space.word_tuples(2, 2 * n - 2, 4):
                if max(map(len, words)) <= n:
                    yield name, tuple("".join(pieces["abcd".index(c)] for c in w) for w in words)
            for words in space.word_tuples(3, m + 3, 3):
                yield name, tuple("".join(pieces["abc".index(c)] for c in w) for w in words)
        for name in TOKENIZERS:
            for i, j in itertools.product(range(len(TEXTS)), repeat=2):
                yield name, (TEXTS[i], TEXTS[j])
                for k in (0, 5, 10, 15, 23) if tier == "quick" else range(len(TEXTS)):
                    yield name, (TEXTS[i], TEXTS[j], TEXTS[k])
        for size in self.SIZES[tier]:
            for name in TOKENIZERS if size < 2000 else ("line", "symbol") if size < 3000 or tier != "quick" else ("line",):
                for edit in range(6):
                    yield name, ("size", size, edit)
        texts = space.unusual_texts(False)
        for name in TOKENIZERS:
            for i in range(0, len(texts) - 3):
                yield name, (texts[i] + texts[i + 1], texts[i] + "a\n" + texts[i + 1], texts[i + 2] + texts[i])

    def texts(self, spec):
        if spec[:1] != ("size",):
            return spec
        _, size, edit = spec
        lines = ["line %d of it\n" % i for i in range(size)]
        h = size // 2
        a = list(lines)
        a[h] = "changed\n"
        b = [lines[1:], lines[:-1], ["new\n"] + lines, lines + ["no newline"], lines[:2] + ["new\n"] + lines[2:], lines[:h] + ["other\n"] + lines[h + 1 :]][edit]
        return "".join(lines), "".join(a), "".join(b)

    def check(self, case, ctx):
        name, spec = case
        texts = self.texts(spec)
        results = []
        for make in (lambda t: t, lambda t: t.encode()):
            results.append(self.one(name, [make(t) for t in texts]))
        if name != "null" or all(t.isascii() for t in texts):
            as_text = [
                [Change(i.a.decode(), i.b.decode()) if isinstance(i, Change) else i.decode() for i in items]
                for items in results[1]
            ]
            require(as_text == results[0], "the result for bytes is not the one for text", name, texts, as_text, results[0])
        if len(set(texts)) > 1:
            ctx.nontrivial(case)
        ctx.note = results[0] if len("".join(texts)) < 100 else None
        if len("".join(texts)) < 60:
            ctx.outcome(results[0])

    def one(self, name, texts):
        fresh = TOKENIZERS[name]
        empty = texts[0][:0]
        out = []
        used = fresh()
        # A tokenizer that has seen other texts before (also in between).
        list(diff(texts[-1] + texts[0], texts[1], used))
        choices = [("fresh", fresh), ("used", lambda: used)]
        if name == "null":
            choices.append(("default", lambda: None))

        parent, a = texts[0], texts[1]
        expected_tokens = fresh()
        tokens = [expected_tokens.encode(t) for t in texts]
        expected = list(decode_changes(diff_token_sequences(tokens[0], tokens[1]), expected_tokens))
        # The tokens are the lines, symbols, or characters (so they might as well be these themselves).
        pieces = [tuple(atoms(name, t)) for t in texts]
        join = lambda items: [Change(empty.join(i.a), empty.join(i.b)) if isinstance(i, Change) else empty.join(i) for i in items]
        of_pieces = join(diff_token_sequences(pieces[0], pieces[1]))
        require(expected == of_pieces, "the diff is not that of the pieces", name, texts, expected, of_pieces)
        for how, tokenizer in choices:
            items = list(diff(parent, a, tokenizer()))
            self.well_formed(name, items, texts)
            require(empty.join(i.b if isinstance(i, Change) else i for i in items) == parent, "the diff does not contain the original", name, how, texts, items)
            require(empty.join(i.a if isinstance(i, Change) else i for i in items) == a, "the diff does not contain the modified text", name, how, texts, items)
            require(items == expected, "the diff is not that of the tokens", name, how, texts, items, expected)
        # The pieces of both versions are kept whole.
        for side, text in ((1, parent), (0, a)):
            cuts, at = {0}, 0
            for piece in atoms(name, text):
                at += len(piece)
                cuts.add(at)
            at = 0
            for i in items:
                at += len(i[side] if isinstance(i, Change) else i)
                require(at in cuts, "a piece of the text is cut", name, texts, items)
        out.append(items)

        triples = [texts] if len(texts) == 3 else [(parent, parent, a), (parent, a, parent), (parent, a, a)]
        for p, x, y in triples:
            tokens = [expected_tokens.encode(t) for t in (p, x, y)]
            expected = list(decode_changes(merge_token_sequence(*tokens), expected_tokens))
            for how, tokenizer in choices:
                items = list(merged(p, x, y, tokenizer()))
                self.well_formed(name, items, texts)
                require(items == expected, "the merge is not that of the tokens", name, how, p, x, y, items, expected)
                if len(texts) == 2:
                    require(empty.join(items) == a, "a one-sided merge is not the edited text", name, how, p, x, y, items)
                if p == x:
                    require(items == [y], "a one-sided merge is not the edited text", name, how, p, x, y, items)
            if len(texts) == 3:
                of_pieces = join(merge_token_sequence(*pieces))
                require(items == of_pieces, "the merge is not that of the pieces", name, texts, items, of_pieces)
            if type(p) is str:
                # A function of the caller's on the decoded merge.
                lines = list(merged(p, x, y, fresh(), transformer=consolidated_line_diff))
                require(lines == list(consolidated_line_diff(iter(items))), "the merge is not transformed as asked for", name, p, x, y, lines)
            out.append(items)
        return out

    def well_formed(self, name, items, texts):
        kind = type(texts[0])
        for i in items:
            for part in i if isinstance(i, Change) else (i,):
                require(type(part) is kind, "a fragment is not of the type of the texts", name, texts, items)
            require(not isinstance(i, Change) or i.a != i.b, "a change between equal texts", name, texts, items)
