"""Enumerators shared by the properties.  All deterministic, simplest first."""

import itertools

LETTERS = "abcdefghijklmnopqrstuvwxyz"


def rgs(n, k):
    """Words of length n over at most k letters, up to renaming the letters.

    The letters appear for the first time in alphabetical order (restricted
    growth strings), so each class of words that differ only by a renaming is
    produced once.
    """
    def extend(prefix, used):
        if len(prefix) == n:
            yield prefix
            return
        for i in range(min(used + 1, k)):
            yield from extend(prefix + LETTERS[i], max(used, i + 1))

    return extend("", 0)


def words(alphabet, max_length, min_length=0):
    for n in range(min_length, max_length + 1):
        for letters in itertools.product(alphabet, repeat=n):
            yield "".join(letters)


def sequences(alphabet, max_length, min_length=0):
    for n in range(min_length, max_length + 1):
        yield from itertools.product(alphabet, repeat=n)


def splits(n, parts):
    """All ways to cut a word of length n into consecutive parts."""
    for cuts in itertools.combinations_with_replacement(range(n + 1), parts - 1):
        yield cuts


def word_tuples(parts, max_total, k):
    """All `parts`-tuples of words, up to a renaming of the (at most k) letters,
    with at most max_total letters in all."""
    for total in range(max_total + 1):
        for cuts in splits(total, parts):
            bounds = (0, *cuts, total)
            for word in rgs(total, k):
                yield tuple(word[i:j] for i, j in zip(bounds, bounds[1:]))


def expand(word, block, distinct):
    """Replace every letter by a block of tokens: `block` copies of the letter,
    or `block` distinct tokens of its own."""
    if distinct:
        return tuple(ord(c) * 10000 + i for c in word for i in range(block))
    return "".join(c * block for c in word)


def is_subsequence(small, large):
    it = iter(large)
    return all(token in it for token in small)


def fibonacci_word(n):
    a, b = "b", "a"
    while len(b) < n:
        a, b = b, b + a
    return b[:n]


def thue_morse(n):
    return "".join("ab"[bin(i).count("1") & 1] for i in range(n))


def de_bruijn_like(n, base=2):
    """Binary (or base-k) counters written out: many repeated substrings."""
    out, i = [], 1
    while len(out) < n:
        m = i
        while m:
            out.append(LETTERS[m % base])
            m //= base
        i += 1
    return "".join(out[:n])


def linear_congruential(n, k):
    """A fixed word without short periods (not random: always the same)."""
    x, out = 12345, []
    for _ in range(n):
        x = (x * 1103515245 + 12345) & 0x7FFFFFFF
        out.append(LETTERS[(x >> 16) % k])
    return "".join(out)


def families(n):
    """Named words of length n with very different repetition structure."""
    return {
        "unary": "a" * n,
        "ab": ("ab" * n)[:n],
        "abc": ("abc" * n)[:n],
        "a^n-1 b": "a" * (n - 1) + "b" if n else "",
        "b a^n-1": "b" + "a" * (n - 1) if n else "",
        "half": "a" * (n // 2) + "b" * (n - n // 2),
        "abb": ("abb" + "a" * max(0, n - 3))[:n],
        "ab^n-2 c": "a" + "b" * max(0, n - 2) + "c" if n > 1 else "a"[:n],
        "fibonacci": fibonacci_word(n) if n else "",
        "thue-morse": thue_morse(n),
        "counter2": de_bruijn_like(n),
        "counter4": de_bruijn_like(n, 4),
        "lcg2": linear_congruential(n, 2),
        "lcg4": linear_congruential(n, 4),
        "lcg26": linear_congruential(n, 26),
    }


def edits(word):
    """Named edits of a word (X, Y: letters that no family contains)."""
    n, h = len(word), len(word) // 2
    return {
        "same": word,
        "empty": "",
        "cut first": word[1:],
        "cut last": word[:-1],
        "cut middle": word[:h] + word[h + 1 :],
        "cut half": word[:h],
        "cut other half": word[h:],
        "cut inner": word[: n // 3] + word[2 * n // 3 :],
        "prepend": "X" + word,
        "append": word + "X",
        "insert": word[:h] + "X" + word[h:],
        "insert run": word[:h] + "X" * 40 + word[h:],
        "replace first": "X" + word[1:],
        "replace last": word[:-1] + "X",
        "replace middle": word[:h] + "X" + word[h + 1 :],
        "two edits": word[: n // 4] + "X" + word[n // 4 + 1 : 3 * n // 4] + "Y" + word[3 * n // 4 :],
        "swap halves": word[h:] + word[:h],
        "double": word + word,
        "unrelated": "X" * n,
        "reverse": word[::-1],
        "upper every 7th": "".join(c.upper() if i % 7 == 6 else c for i, c in enumerate(word)),
        "drop every 5th": "".join(c for i, c in enumerate(word) if i % 5),
        "insert every 11th": "".join(c + ("X" if i % 11 == 10 else "") for i, c in enumerate(word)),
    }


MANY_EDITS = ("reverse", "upper every 7th", "drop every 5th", "insert every 11th")


def long_pairs(sizes, big_sizes):
    """Names (family, size, edit) of pairs of long words; see long_pair()."""
    for n in sizes:
        for family in families(4):
            for edit in edits("abcd"):
                yield family, n, edit
    for n in big_sizes:
        for family in families(4):
            for edit in edits("abcd"):
                if edit not in MANY_EDITS and (edit != "swap halves" or n < 2000):
                    yield family, n, edit


def long_pair(family, n, edit):
    word = families(n)[family]
    return word, edits(word)[edit]


# --- names, keys and tags -----------------------------------------------------

CHARACTERS = "a Ab0./\\-_:,;\"'%?*&<[{}\n\r\t\0\x7f\u00e9\u0301\u0130\u2028\U0001f600"


def unusual_texts(surrogates=True):
    """Texts that code might be tempted to change, or to take for each other:
    all those of at most two of 32 characters, and several of more."""
    texts = ["", *CHARACTERS]
    texts += [x + y for x in CHARACTERS for y in CHARACTERS]
    texts += ["./a", "../a", "a/./b", "a/../b", "a//b", "a/b/", "/a/b", "~/a", "C:\\a", "a\\b\\c", "a.txt", "A.TXT", "e\u0301", "%20", "%61", "&amp;", "\\u0061"]
    texts += ["None", "null", "NULL", "True", "true", "nan", "00", "1.0", "0x1", "1e3", "[]", "{}", '",\n"', "\\n", "\ufeffa", "\u1e9e", "ss", "\u00df", "\uff21", "\ufb01", "fi"]
    for n in (31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4097):
        texts += ["x" * n, "x" * n + "y", "y" + "x" * n]
    if surrogates:
        texts += ["caf\udce9", "\ud800", "\udce9"]
    return list(dict.fromkeys(texts))
