"""C28: line diffs.  C29: git-compatible markup.  C30: gaspra-merge.
C31: gaspra-diff.  C32: console output."""

import contextlib
import io
import itertools
import os
import re
import subprocess
import sys
import threading

from gaspra import merge_tool, torture_test
from gaspra.changesets import diff_token_sequences
from gaspra.diff_to_lines import consolidated_line_diff, to_line_diff
from gaspra.markup import COLORED_LEVEL0, COLORED_LEVEL1, GIT_MARKUP_LEVEL0, PLAIN_LEVEL1, console_writer, file_writer, markup_changes
from gaspra.merge import merge_token_sequence
from gaspra.tokenizers import CharTokenizer, LineTokenizer, SymbolTokenizer, decode_and_line_diff_changes, decode_changes
from gaspra.types import Change

from mc.core import require
from mc import space

TOKENIZERS = {"c": CharTokenizer, "w": SymbolTokenizer, "l": LineTokenizer}


def side(x, s):
    """What a diff, or a part of one, says about one side."""
    if isinstance(x, str):
        return x
    if isinstance(x, Change):
        return side(x[s], s)
    return "".join(side(y, s) for y in x)


def shown(x):
    """Everything that is shown of a diff, or of a part of one."""
    if isinstance(x, str):
        return x
    return "".join(shown(y) for y in x)


def token_diff(parent, text, how):
    if how == "":
        return list(diff_token_sequences(parent, text))
    tokenizer = TOKENIZERS[how]()
    tokens = [tokenizer.encode(t) for t in (parent, text)]
    return list(decode_changes(diff_token_sequences(*tokens), tokenizer))


def token_merge(parent, current, other, how):
    if how == "":
        return list(merge_token_sequence(parent, current, other))
    tokenizer = TOKENIZERS[how]()
    tokens = [tokenizer.encode(t) for t in (parent, current, other)]
    return list(decode_changes(merge_token_sequence(*tokens), tokenizer))


def complete(*texts):
    return all(not t or t.endswith("\n") for t in texts)


def check_extent(change, what, lines):
    """A change has no lines before its first and (except for blank ones)
    after its last edit."""
    leads, tails = [], []
    for s in (0, 1):
        edited = [i for i, p in enumerate(change[s]) if isinstance(p, Change) and side(p, s)]
        if edited:
            leads.append(side(change[s][: edited[0]], s))
            tails.append(side(change[s][edited[-1] + 1 :], s))
    lead, tail = min(leads, key=len), min(tails, key=len)
    require("\n" not in lead, "a change begins with a line that has no edit", what, change, lines)
    if tail.strip():
        require("\n" not in tail[:-1], "a change ends with lines that have no edit", what, change, lines)
        texts = [side(change[s], s) for s in (0, 1)]
        before = [t[: len(t) - len(tail)] for t in texts]
        require(not complete(*before), "a change ends with a line that has no edit", what, change, lines)


def check_line_diff(stream, lines, what, consolidated=True):
    texts = [side(stream, s) for s in (0, 1)]
    at = ["", ""]
    previous = None
    for item in lines:
        if not isinstance(item, Change):
            require(isinstance(item, str), "neither text nor a change", what, lines)
            require(item or len(lines) == 1, "an empty text between changes", what, lines)
            for s in (0, 1):
                at[s] += item
            previous = item
            continue
        require(not consolidated or not isinstance(previous, Change), "two changes in a row", what, lines)
        inner = False
        for s in (0, 1):
            require(at[s] == "" or at[s].endswith("\n"), "a change starts within a line", what, lines)
            part = item[s]
            require(isinstance(part, (str, tuple)), "the side of a change is neither a text nor a tuple of its parts", what, lines)
            text = side(part, s)
            require(shown(part) == text, "one side of a change shows text of the other", what, lines)
            require(text == "" or text.endswith("\n"), "a change ends within a line", what, lines)
            if not isinstance(part, str):
                inner = inner or any(isinstance(p, Change) and p != ("", "") for p in part)
            at[s] += text
        require(inner or not consolidated, "a change without any changed text", what, lines)
        if inner and not isinstance(item.a, str) and not isinstance(item.b, str):
            check_extent(item, what, lines)
        previous = item
    for s in (0, 1):
        extra = "" if complete(*texts) else "\n"
        require(at[s] in (texts[s], texts[s] + extra), "the line diff does not contain the text of a side", what, s, texts[s], at[s], lines)
    if not any(isinstance(x, Change) for x in stream):
        require(not any(isinstance(x, Change) for x in lines), "a change between equal texts", what, lines)


STREAM_TEXT = ("a", " ", "\n", "a\n", "\na", "\n\n", "a\nb", "\n ")
STREAM_CHANGE = tuple(
    (x, y) for x in ("", "c", "c\n", "\nc", "\n") for y in ("", "d", "d\n", "\nd", " ") if x or y
)


# White space and line boundaries other than a newline.
ODD_TEXT = ("\r", "\r\n", "a\r\n", "\x0c", "a\x0cb\n", "\u2028", "\t", "\xa0\n", "\x1c", "\n\x85", "\v\n", "a")
ODD_CHANGE = (("", "\r"), ("\r\n", ""), ("c\r", "d\r\n"), ("\x0c\n", "\x0c"), ("\x85", "d\u2028"), ("\u2028\n", "\n"), ("c", "\t"), ("\xa0", ""))
ODD = "\r\x0c\u2028\x85\x1c\t"


def streams(length, texts=STREAM_TEXT, changes=STREAM_CHANGE):
    """Every diff of at most `length` items: text and changes take turns."""
    for n in range(length + 1):
        for first in (0, 1):
            if n or not first:
                yield from itertools.product(*[(texts, changes)[(first + i) % 2] for i in range(n)])


def unusual_streams():
    texts = [t for t in space.unusual_texts() if t]
    for i in range(len(texts) - 2):
        a, b, c = texts[i : i + 3]
        yield a, (b, c), a
        yield "x" + a + "\n", (b + "\n", ""), c, ("", a)


def as_stream(spec):
    return [Change(*x) if isinstance(x, tuple) else x for x in spec]


# Long ones: sizes around the powers of two that code may be tempted to use as
# the size of a buffer, and shapes that have one dimension of that size.
def sizes(tier, most):
    exponents = (4, 6, 7, 8, 10, 12, 13, 16) if tier == "quick" else range(3, 18)
    found = {2**k + d for k in exponents for d in (-1, 0, 1)} | {100, 101, 1000, 1001, 10000}
    return sorted(n for n in found if n <= most)


def lines_of(n, letter="l"):
    return "".join(f"{letter}{i}\n" for i in range(n))


LARGE = {
    "long line": lambda n: ["x" * n, ("c", "d"), "y" * n + "\n", ("", "e\n"), "z" * n],
    "long insertion": lambda n: ["a\nb", ("c" * n, ""), "d\n"],
    "long deletion": lambda n: ["a\nb", ("", "c" * n), "d\n"],
    "long replacement": lambda n: ["a\nb", ("c" * n, "d" * (n - 3)), "d\n", ("e" * n, "f"), "\n"],
    "long names": lambda n: ["[a]" * (n // 3), ("[b]" * (n // 3), "\\[c]" * (n // 4)), "\\" * n, ("[", "\\" * n)],
    "many lines": lambda n: [lines_of(n), ("c\n", "d\n"), lines_of(n), ("c", "d"), lines_of(n)[:-1]],
    "many inserted lines": lambda n: ["a\nb", (lines_of(n), ""), "d\n"],
    "many deleted lines": lambda n: ["a\nb", ("", "\n" + lines_of(n)[:-1]), "\nd\n"],
    "many replaced lines": lambda n: ["a\n", (lines_of(n), lines_of(n - 2, "m")), "b\n"],
    "many blank lines": lambda n: ["a", ("c", "d"), "\n" * n, ("e\n", "f\n" + "\n" * n), "x"],
    "long white space": lambda n: ["a", ("c", "d"), " " * n, ("e", " " * n), "\n", (" " * n + "\n", "\n")],
    "many changes": lambda n: [x for i in range(n) for x in (("c", "d"), "a\n")],
    "many changes in a line": lambda n: [x for i in range(n) for x in ("a", ("c", "d"))] + ["\n"],
    "many changes between spaces": lambda n: [x for i in range(n) for x in (("c", "d"), " ")] + ["end\n"],
    "many insertions": lambda n: ["a\n"] + [x for i in range(n) for x in (("c\n", ""), "ab\n")],
    "many deletions": lambda n: ["a\n"] + [x for i in range(n) for x in ("ab\nq", ("", "c"))],
    "many replacements": lambda n: [x for i in range(n) for x in (f"a{i}\nb", ("c\nd", "e\n\nf"))],
}


def large_streams(tier, most_length, most_items):
    for shape in LARGE:
        for n in sizes(tier, most_items if shape.startswith("many") else most_length):
            yield "large", shape, n


def large(case):
    return as_stream(LARGE[case[1]](case[2]))


class LineDiff:
    ID = "C28"
    LEVEL = "exploration"
    RULE = "A case is a diff, a pair or a triple of texts; non-trivial when there is a change in the line diff."
    ASSUMPTIONS = []

    def bounds(self, tier):
        n, m, k = (8, 7, 4) if tier == "quick" else (10, 9, 5)
        return (
            f"every diff of at most {k} items over {len(STREAM_TEXT)} texts and {len(STREAM_CHANGE)} changes, and over {len(ODD_TEXT)} and {len(ODD_CHANGE)} with other white space, and two for each of {len(space.unusual_texts())} unusual texts; the diffs of every pair of texts of at most {n} characters in all "
            f"and the merges of every triple of at most {m} characters in all over (a, newline, space) and (a, b, newline), as characters and (2 characters fewer) as symbols and lines, and (2 fewer) over a, newline and each of {ODD!r}; "
            f"{len(LARGE)} shapes of diffs with pieces of up to 65537 characters, or up to {65537 if tier == "quick" else 131073} pieces or lines"
        )

    def cases(self, tier):
        n, m, k = (8, 7, 4) if tier == "quick" else (10, 9, 5)
        for alphabet in ("a\n ", "ab\n"):
            for how in ("", "w", "l"):
                for parts, most in ((2, n), (3, m)):
                    for total in range(most + 1 - (2 if how else 0)):
                        for text in itertools.product(alphabet, repeat=total):
                            yield "texts", how, parts, "".join(text)
        for spec in streams(k):
            yield "stream", spec
        for spec in streams(k, ODD_TEXT, ODD_CHANGE):
            yield "stream", spec
        for spec in unusual_streams():
            yield "stream", spec
        for odd in ODD:
            for how in ("", "w", "l"):
                for parts, most in ((2, n - 2), (3, m - 2)):
                    for total in range(most + 1):
                        for text in itertools.product("a\n" + odd, repeat=total):
                            if odd in text:
                                yield "texts", how, parts, "".join(text)
        yield from large_streams(tier, 200000, 100000 if tier == "quick" else 200000)

    def check(self, case, ctx):
        if case[0] == "large":
            self.one(large(case), case, ctx)
            return
        if case[0] == "stream":
            self.one(as_stream(case[1]), case[1], ctx)
            return
        _, how, parts, text = case
        for cuts in space.splits(len(text), parts):
            bounds = (0, *cuts, len(text))
            texts = [text[i:j] for i, j in zip(bounds, bounds[1:])]
            stream = token_diff(*texts, how) if parts == 2 else token_merge(*texts, how)
            self.one(stream, texts, ctx)
            if how:
                tokenizer = TOKENIZERS[how]()
                tokens = [tokenizer.encode(t) for t in texts]
                tokens = diff_token_sequences(*tokens) if parts == 2 else merge_token_sequence(*tokens)
                lines = list(decode_and_line_diff_changes(tokens, tokenizer))
                require(lines == list(to_line_diff(iter(stream))), "the line diff of tokens is not that of the text", how, texts, lines)

    def one(self, stream, what, ctx):
        ctx.count("executions")
        lines = list(consolidated_line_diff(iter(stream)))
        check_line_diff(stream, lines, what)
        # The changes of this one are not yet joined to those next to them.
        check_line_diff(stream, list(to_line_diff(iter(stream))), what, consolidated=False)
        if any(isinstance(x, Change) for x in lines):
            ctx.nontrivial(what)
            ctx.note = lines if what[:1] != ("large",) else f"{len(lines)} items"
        ctx.outcome(lines if what[:1] != ("large",) else what)


# --- Git-compatible markup ------------------------------------------------


def parse_git(text, name_a, name_b):
    """The two sides of a text with conflict markers, and how many there are."""
    sides, state, blocks = ["", ""], None, 0
    for line in re.findall(r"[^\n]*\n|[^\n]+\Z", text):
        if state is None and line == f"<<<<<<< {name_a}\n":
            state = 0
        elif state == 0 and line == "=======\n":
            state = 1
        elif state == 1 and line == f">>>>>>> {name_b}\n":
            state = None
            blocks += 1
        elif state is None:
            sides = [sides[0] + line, sides[1] + line]
        else:
            sides[state] += line
    require(state is None, "a conflict without its end", text)
    return sides, blocks


def same_text(shown_text, text, *others):
    """Text, with a last newline if a text compared was without."""
    return shown_text == text or (not complete(text, *others) and shown_text == text + "\n")


BRANCHES = (
    "a.txt", "", "n" * 60, "n" * 64, "n" * 73, "n" * 81, "n" * 128, "n" * 255, "n" * 5000, "two words", " a ", "a\t", "HEAD~1", "feature/x", "%s %d", "{0}{}", "$a\\1",
    "[red]", "\\", "=======", "<<<<<<< a", ">", "\u00e9t\u00e9", "e\u0301", "\U0001f600", "\u2028", "a\r", "'\"", ":smile:", "0", "-", "None",
)


class GitMarkup:
    ID = "C29"
    LEVEL = "exploration"
    RULE = "A case is a diff, a pair or a triple of texts; non-trivial when there is a conflict block."
    ASSUMPTIONS = ["No line of the texts looks like a conflict marker."]

    def bounds(self, tier):
        n, m, k = (8, 7, 3) if tier == "quick" else (9, 8, 4)
        return (
            f"all pairs of {len(BRANCHES)} branch names; every diff of at most {k} items over {len(STREAM_TEXT)} texts and {len(STREAM_CHANGE)} changes, and over {len(ODD_TEXT)} and {len(ODD_CHANGE)} with other white space, and two for each of {len(space.unusual_texts())} unusual texts; the diffs of every pair of texts of at most {n} characters in all "
            f"and the merges of every triple of at most {m} characters in all over (a, newline, '<'), and (2 fewer) over a, newline and each of {ODD!r}; "
            f"{len(LARGE)} shapes of diffs with pieces of up to 65537 characters, or up to {65537 if tier == "quick" else 131073} pieces or lines"
        )

    def cases(self, tier):
        n, m, k = (8, 7, 3) if tier == "quick" else (9, 8, 4)
        for parts, most in ((2, n), (3, m)):
            for total in range(most + 1):
                for text in itertools.product("a\n<", repeat=total):
                    yield "texts", parts, "".join(text)
        for spec in streams(k):
            yield "stream", spec
        for spec in streams(k, ODD_TEXT, ODD_CHANGE):
            yield "stream", spec
        for spec in unusual_streams():
            yield "stream", spec
        for odd in ODD:
            for parts, most in ((2, n - 2), (3, m - 2)):
                for total in range(most + 1):
                    for text in itertools.product("a\n" + odd, repeat=total):
                        if odd in text:
                            yield "texts", parts, "".join(text)
        yield from large_streams(tier, 200000, 100000 if tier == "quick" else 200000)
        for names in itertools.product(BRANCHES, repeat=2):
            yield "names", *names

    def check(self, case, ctx):
        if case[0] == "large":
            self.one(large(case), None, case, ctx)
            return
        if case[0] == "names":
            self.one([Change("b\n", "c\n"), "a\n", Change("b\n", ""), "a\n", Change("", "b")], None, case, ctx, case[1:])
            return
        if case[0] == "stream":
            self.one(as_stream(case[1]), None, case[1], ctx)
            return
        _, parts, text = case
        for cuts in space.splits(len(text), parts):
            bounds = (0, *cuts, len(text))
            texts = [text[i:j] for i, j in zip(bounds, bounds[1:])]
            if parts == 2:
                self.one(token_diff(*texts, ""), (texts[1], texts[0]), texts, ctx)
            else:
                self.one(token_merge(*texts, ""), None, texts, ctx)

    def one(self, stream, texts, what, ctx, names=("X", "Y")):
        ctx.count("executions")
        if texts is None:
            texts = [side(stream, s) for s in (0, 1)]
        out = []
        markup_changes(
            out.append, consolidated_line_diff(iter(stream)), markup0=GIT_MARKUP_LEVEL0, markup1=PLAIN_LEVEL1,
            name_into=names[0], name_from=names[1],
        )
        out = "".join(out)
        sides, blocks = parse_git(out, *names)
        for s in (0, 1):
            require(same_text(sides[s], texts[s], texts[1 - s]), "the conflict blocks do not give a side back", what, s, texts[s], out)
        if blocks:
            ctx.nontrivial(what)
        require(blocks or texts[0] == texts[1] or texts[0] + "\n" == texts[1] or texts[1] + "\n" == texts[0],
                "no conflict block, but the sides differ", what, out)
        ctx.note = out[:2000]
        ctx.outcome(out if len(out) < 2000 else what)


# --- The command line tools -----------------------------------------------


CLIS = {"gaspra-merge": merge_tool.merge_cli, "gaspra-diff": merge_tool.diff_cli, "gaspra-torture": merge_tool.torture_cli}


def is_refused(tool, args):
    """Whether a tool fails, as the shell sees it."""
    saved = sys.argv, sys.stdout, sys.stderr
    sys.argv = [tool, *args]
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        status = CLIS[tool]()
    except SystemExit as e:
        status = e.code
    except Exception:
        status = 1
    finally:
        sys.argv, sys.stdout, sys.stderr = saved
    return bool(status)


def run_tool(tool, args):
    """Run a command line tool in this process; what it prints."""
    function = CLIS[tool]
    saved = sys.argv, sys.stdout, sys.stderr
    sys.argv = [tool, *args]
    sys.stdout, sys.stderr = out, err = io.StringIO(), io.StringIO()
    try:
        status = function()
    except SystemExit as e:
        status = e.code
    finally:
        sys.argv, sys.stdout, sys.stderr = saved
    require(not status, "the tool fails", tool, args, status, err.getvalue())
    require(err.getvalue() == "", "the tool complains", tool, args, err.getvalue())
    return out.getvalue()


def run_process(tool, args, env=None, **more):
    code = "from gaspra.merge_tool import %s as f; import sys; sys.argv[0] = %r; sys.exit(f())" % (
        {"gaspra-merge": "merge_cli", "gaspra-diff": "diff_cli"}[tool], tool)
    # (Compiled once, in the scratch directory.)
    own = {"PYTHONPYCACHEPREFIX": os.path.abspath("bytecode"), "PYTHONDONTWRITEBYTECODE": ""}
    done = subprocess.run([sys.executable, "-c", code, *args], capture_output=True, env={**os.environ, **own, **(env or {})}, timeout=60, **more)
    require(done.returncode == 0, "the tool fails", tool, args, done.stderr.decode(errors="replace"))
    return done.stdout.decode("utf-8")


def write(path, data):
    os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode("utf-8"))


def read(path):
    with open(path, "rb") as f:
        return f.read().decode("utf-8")


def printable(*texts):
    """Texts a console shows as they are (no tabs or control characters)."""
    return all(c == "\n" or c.isprintable() for t in texts for c in t)


def option_sets(flags):
    for how in ("", "-c", "-w", "-l"):
        for chosen in itertools.product((False, True), repeat=len(flags)):
            yield ([how] if how else []) + [f for f, c in zip(flags, chosen) if c]


def spellings(options):
    long = {"-c": "--characters", "-w": "--words", "-l": "--lines", "-L": "--show-lines", "-g": "--git-compatible", "-s": "--strikeout", "-d": "--diff"}
    return [long[o] for o in options]


TEXT_POOL = (
    "", "\n", "a", "a\n", "a\nb\n", "a\nb", "b\na\n", "a b\nc d\n", "a b\nc e\n", "a x b\nc d\n", "a\n\n\nb\n", "one\ntwo\nthree\n", "one\n2\nthree\n",
    "one\ntwo\n3\n", "\none\ntwo\nthree\nfour", "<<< a\n", "== =\na\n", "[b]\n", "[/]\n", "\\[red]\\\n", "x = [1]\n\ny\n", "\u00e9t\u00e9\n",
    "\u00e9t\u00e8\nb\n", "a\r\nb\r\n", "a\r\nc\r\n", ":smile: [/b]\n", "\ttab\n", "   a\n", "a   \n", "\ufeffa\n", "a\rb\r", "a\x0cb\n\x1c", "a\u2028b\n",
)
NAMES = (("p", "a", "b"), ("dir one/parent.txt", "x/same.c", "y/same.c"), ("p [1].txt", "[red]a", "b[/]"), ("./p", "\u00e9.txt", "a&b:smile:"), ("x/f", "y/f", "z/f"), ("p" * 255, "long/" + "n" * 250 + ".txt", "m" * 73))
TORTURE = {
    "chunks": ("chunks_1_0.c", "chunks_1_1.c", "chunks_1_2.c"),
    "ReleaseNotes": ("ReleaseNotes 9_4.html", "ReleaseNotes 9_4_1.html", "ReleaseNotes 9_4_2.html"),
    "Bug_ReporterApp": ("Bug_ReporterApp_Parent.h", "Bug_ReporterApp_BranchA.h", "Bug_ReporterApp_BranchB.h"),
}
BYTES = (b"\xe9t\xe9\n", b"caf\xe9\r\n", b"\xff\xfe\n", "caf\u00e9\n".encode(), b"cafe\n", b"\x80a\nb\n")


def decoded(data):
    try:
        return data.decode("utf-8")
    except UnicodeDecodeError:
        return data.decode("iso-8859-1")


def tokens_of(options):
    return {"-w": "w", "-l": "l"}.get(next((o for o in options if o in ("-c", "-w", "-l")), ""), "c")


def plain(items):
    """What is printed for the items of a diff without colors."""
    return "".join(shown(i) for i in items)


# Large files: characters and line ends that buffers may cut, and long diffs.
FEW_OPTIONS = ([], ["-g"], ["-l"], ["-l", "-g"], ["-w", "-L"])
FILES = {
    "accent": lambda n: "a" * (n - 1) + "\u00e9\nb\n",
    "latin": lambda n: b"a" * n + b"\xe9\nb\n",
    "latin last": lambda n: b"a\n" * (n // 2) + b"\xe9",
    "accents": lambda n: "\u00e9" * (n // 2) + "\n",
    "astral": lambda n: "a" * (n - 2) + "\U0001f600" * 3 + "\n",
    "windows": lambda n: "a" * (n - 1) + "\r\nb\r\n",
    "windows lines": lambda n: "a\r\n" * (n // 3) + "\r\n",
    "brackets": lambda n: "[b]" * (n // 3) + "\\" * 9 + "[x]\n",
    "words": lambda n: "ab " * (n // 3) + "\n",
    "lines": lambda n: lines_of(n // 5),
    "blank": lambda n: "\n" * n + "a",
    "unusual": lambda n: "\n".join(space.unusual_texts(False))[-n:] + "\n",
}


def large_files(tier):
    """Names (shape, size) of large texts; see large_texts()."""
    for n in (1025, 8192, 8193, 65537) if tier == "quick" else [n for n in sizes(tier, 70000) if n > 500]:
        for shape in FILES:
            yield shape, n
    for n in (65, 129) if tier == "quick" else [n for n in sizes(tier, 300) if n > 60]:
        for shape in LARGE:
            yield shape, n


def large_texts(shape, n):
    if shape in FILES:
        text = FILES[shape](n)
        if isinstance(text, bytes):
            return text, text + b"b", b"c\n" + text
        return text, text + "b", "c\n" + text
    stream = large(("large", shape, n))
    original, modified = side(stream, 1), side(stream, 0)
    return original, modified, original + modified[-1:] + "x\n"


# Environments that must not matter, and ways to name the files.
ENVIRONMENTS = (
    {}, {"LC_ALL": "C"}, {"LC_ALL": "POSIX", "LANG": ""}, {"LC_ALL": "", "LC_CTYPE": "C.UTF-8", "LANG": "C"}, {"PYTHONUTF8": "0"}, {"PYTHONUTF8": "1", "LC_ALL": "C"},
    {"PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "LC_ALL": "C"}, {"PYTHONIOENCODING": "utf-8"}, {"COLUMNS": "10", "LINES": "2"}, {"COLUMNS": "0"}, {"COLUMNS": "x"},
    {"TERM": "dumb"}, {"TERM": ""}, {"TERM": "xterm-256color", "COLORTERM": "truecolor"}, {"NO_COLOR": "1"}, {"PYTHONOPTIMIZE": "1"}, {"PYTHONOPTIMIZE": "2"},
    {"PYTHONDEVMODE": "1"}, {"PYTHONUNBUFFERED": "1"}, {"PYTHONHASHSEED": "0"}, {"PYTHONHASHSEED": "1"}, {"PYTHONHASHSEED": "4294967295"}, {"HOME": "/nowhere", "TMPDIR": "/nowhere"},
    {"TZ": "Asia/Tokyo"}, {"USER": "", "LOGNAME": ""}, {"PAGER": "false", "EDITOR": "false"}, {"LANG": "de_DE.ISO-8859-1"}, {"LANGUAGE": "de"},
)
PLACES = ("relative", "absolute", "above", "link", "hard link", "pipe", "descriptor", "standard input")
PLACED = (
    ("one\ntwo\nthree\n", "one\n2\nthree\n", "one\nzwei \u00e9\nthree\n"),
    ("\u00e9t\u00e9 \U0001f600\n\nx", "\u00e9t\u00e9 \u6f22\n\nx\n", "et\u00e9 \U0001f600\n\n"),
    ("a\nb c\n", "b c\nd\n", ""),
    (b"caf\xe9\n" * 20, b"caf\xe9\n" * 19 + b"\xe8\n", b"th\xe9\n" + b"caf\xe9\n" * 20),
    (lines_of(9000), lines_of(8990) + "c\n" * 10, "x\n" + lines_of(9000)),
)
PLACED_OPTIONS = ([], ["-g"], ["-l", "-L"], ["-w", "-g"], ["-l", "-g"])


@contextlib.contextmanager
def placed(names, texts, place, which):
    """The files named in another way (`which` of them as the standard input):
    names, and arguments for the process."""
    stack = contextlib.ExitStack()
    os.makedirs("other/deep", exist_ok=True)
    paths, more, feeders = list(names), {}, []

    def feed(open_it, text):
        def run():
            with open_it() as f:
                try:
                    f.write(text if isinstance(text, bytes) else text.encode())
                except BrokenPipeError:
                    pass

        thread = threading.Thread(target=run, daemon=True)
        thread.start()
        feeders.append(thread)

    with stack:
        for k, (name, text) in enumerate(zip(names, texts)):
            other = os.path.join("other", name)
            if place == "absolute":
                paths[k] = os.path.abspath(name)
            elif place == "above":
                paths[k] = os.path.join("other/deep/../..", name)
            elif place in ("link", "hard link"):
                target = os.path.abspath(name)
                os.symlink(target, other) if place == "link" else os.link(target, other)
                stack.callback(os.remove, os.path.abspath(other))
                paths[k] = other
            elif place == "pipe":
                os.mkfifo(other)
                stack.callback(os.remove, os.path.abspath(other))
                paths[k] = other
                feed(lambda path=os.path.abspath(other): open(path, "wb"), text)
            elif place == "descriptor" or k == which and place == "standard input":
                end, start = os.pipe()
                stack.callback(os.close, end)
                feed(lambda start=start: open(start, "wb"), text)
                if place == "descriptor":
                    more.setdefault("pass_fds", []).append(end)
                    paths[k] = f"/dev/fd/{end}"
                else:
                    more["stdin"] = end
                    paths[k] = "/dev/stdin"
        yield paths, more


class Tools:
    """What the two tools have in common: files, options, output."""

    LEVEL = "exploration"
    RULE = "A case is one set of input files; it is decided with all combinations of options. Non-trivial when the files differ."
    ASSUMPTIONS = [
        "Console output is only compared for texts that a console shows as they are (printable characters and newlines).",
        "With git-compatible output, no line of the texts looks like a conflict marker.",
        "Inputs are UTF-8 or else ISO-8859-1.",
    ]

    def files(self, texts, names):
        for name, text in zip(names, texts):
            write(name, text)

    def outputs(self, names, options, texts):
        """The output on the console (None if it cannot be compared) and in a file."""
        order = list(self.argument_order(names))
        to_file = "out.txt"
        write(to_file, "what was there before\n" * 50)
        printed = run_tool(self.TOOL, [*options, "-o", to_file, *order])
        require(printed == "", "prints although there is an output file", options, texts, printed)
        in_file = read(to_file)
        os.remove(to_file)
        console = run_tool(self.TOOL, [*order, *options])
        for name, text in zip(names, texts):
            data = open(name, "rb").read()
            require(data == (text if isinstance(text, bytes) else text.encode()), "an input file was changed", options, texts, name, data)
        return console, in_file

    def other_ways(self, names, options, texts, console, in_file):
        """The same with long options, with the output in place of an input,
        and in a process of its own."""
        order = list(self.argument_order(names))
        require(run_tool(self.TOOL, [*spellings(options), *order]) == console, "long options do something else", options, texts)
        for name, text in zip(names, texts):
            run_tool(self.TOOL, ["--output", name, *order, *options])
            out = read(name)
            write(name, text)
            require(out == in_file, "the output is different when it replaces an input", options, texts, name, out, in_file)

    def process(self, names, options, texts, console, in_file):
        order = list(self.argument_order(names))
        out = run_process(self.TOOL, [*options, *order])
        require(out == console, "a process of its own prints something else", options, texts, out, console)
        out = run_process(self.TOOL, [*options, *order, "-o", "out.txt"])
        require(out == "" and read("out.txt") == in_file, "a process of its own writes something else", options, texts, out)


    def elsewhere(self, case, ctx):
        """Neither the environment nor where the files are matters."""
        _, what, number = case
        for k, texts in enumerate(PLACED):
            names = ("p", "a", "b")[: 2 if self.ID == "C31" else 3]
            texts = texts[: len(names)]
            self.files(texts, names)
            for n, options in enumerate(PLACED_OPTIONS):
                if len(texts[0]) > 10000 and ("-l" not in options or what == "environment"):
                    continue
                if what == "environment":
                    if (n + number + k) % 3:
                        continue
                    console, in_file = self.outputs(names, options, texts)
                    env = ENVIRONMENTS[number]
                    order = self.argument_order(names)
                    out = run_process(self.TOOL, [*options, *order, "-o", "out.txt"], env)
                    require(out == "" and read("out.txt") == in_file, "another output in this environment", env, options, texts, out)
                    # (There, Python cannot print other characters.)
                    if "PYTHONCOERCECLOCALE" not in env or console.isascii():
                        out = run_process(self.TOOL, [*options, *order], env)
                        require(out == console, "something else is printed in this environment", env, options, texts, console, out)
                else:
                    place, which = PLACES[number], (n + k) % len(names)
                    for to_file in (False, True):
                        with placed(names, texts, place, which) as (paths, more):
                            # The names (not the places) of files are part of the output.
                            shown_as = [os.path.join("other", os.path.basename(p)) for p in paths]
                            for path, text in zip(shown_as, texts):
                                if not os.path.lexists(path):
                                    write(path, text)
                                    more.setdefault("made", []).append(path)
                            if place in ("link", "hard link", "pipe"):
                                shown_as = names
                            console, in_file = self.outputs(shown_as, options, texts)
                            for path in more.pop("made", ()):
                                os.remove(path)
                            args = [*options, *self.argument_order(paths)]
                            if to_file:
                                write("target.txt", "what was there\n" * 9)
                                os.symlink(os.path.abspath("target.txt"), "other/out.txt")
                                out = run_process(self.TOOL, [*args, "-o", "other/out.txt"], **more)
                                os.remove("other/out.txt")
                                require(out == "" and read("target.txt") == in_file, "another output for files that are elsewhere", place, options, texts, out, read("target.txt"))
                            else:
                                out = run_process(self.TOOL, args, **more)
                                require(out == console, "something else is printed for files that are elsewhere", place, options, texts, console, out)
                    if place == "relative":
                        out = run_process(self.TOOL, [*options, *self.argument_order(names), "-o", "/dev/stdout"])
                        require(out == in_file, "another output when it is the standard output", options, texts, out)
                ctx.count("executions", 2)
                ctx.nontrivial((case, k, n))
        ctx.outcome(case)

    def refused(self, case, ctx):
        """The tool is called with arguments that it must refuse."""
        count = 2 if self.ID == "C31" else 3
        names = NAMES[0][:count]
        texts = ("one\ntwo\n", "one\n2\n", "zero\none\n")[:count]
        order = list(self.argument_order(names))
        os.makedirs("directory", exist_ok=True)
        calls = []
        for missing in ("no such file", "directory", "directory/no such file"):
            for k in range(count):
                calls.append([*order[:k], missing, *order[k + 1 :]])
        calls += [order[:k] for k in range(count)]
        calls += [[*order, names[0]], ["-c", "-w", *order], ["-w", "-l", *order], [*order, "-l", "-c"], ["--no-such-option", *order], [*order, "-o"]]
        if self.ID == "C31":
            calls.append(["-d", *order])
        for options in ([], ["-g"], ["-L", "-s"]):
            for call in calls:
                for output in ([], ["-o", "out.txt"], ["-o", names[0]], ["-o", names[-1]]):
                    if output and call[-1:] == ["-o"]:
                        continue
                    self.files(texts, names)
                    write("out.txt", "kept\n")
                    args = [*options, *output, *call]
                    require(is_refused(self.TOOL, args), "a call that must be refused succeeds", args)
                    ctx.count("executions")
                    ctx.nontrivial(args)
                    require(read("out.txt") == "kept\n", "the output file of a refused call was changed", args)
                    for name, text in zip(names, texts):
                        require(read(name) == text, "an input file of a refused call was changed", args, name)
            args = [*options, *order, "-o", "no such directory/out.txt"]
            require(is_refused(self.TOOL, args), "the output cannot be written, and the call succeeds", args)
        os.remove("out.txt")
        ctx.outcome(case)
        ctx.note = calls[:5]


class MergeTool(Tools):
    ID = "C30"
    TOOL = "gaspra-merge"

    def bounds(self, tier):
        return (
            f"every triple of texts of at most {4 if tier == 'quick' else 6} characters in all over (a, newline, b) in order of first use, all triples of {6 if tier == 'quick' else 18} texts and of {3 if tier == 'quick' else 6} byte strings, selected triples of {len(TEXT_POOL)} texts, "
            f"{len(NAMES)} sets of file names; all 64 combinations of -c/-w/-l, -L, -g, -s, -d, each to the console and to a file (selected cases: in place, long options, in a process of its own); {len(FILES)} shapes of files of up to 65537 bytes and {len(LARGE)} of up to 129 (thorough: 257) pieces, with 5 combinations; {len(ENVIRONMENTS)} environments, and files in {len(PLACES)} ways (links, pipes, standard input ...), in processes of their own; calls that must be refused"
        )

    def argument_order(self, names):
        return names[0], names[2], names[1]

    def cases(self, tier):
        pieces = {"a": "a", "b": "\n", "c": "b", "d": " "}
        most = 4 if tier == "quick" else 6
        for words in space.word_tuples(3, most, 3):
            yield "texts", tuple("".join(pieces[c] for c in w) for w in words), 0
        for texts in itertools.product(TEXT_POOL[8:14] if tier == "quick" else TEXT_POOL[:18], repeat=3):
            yield "texts", texts, 0
        for i, text in enumerate(TEXT_POOL):
            for j in range(1, 4):
                other = TEXT_POOL[(i + j * 3) % len(TEXT_POOL)]
                for texts in ((text, other, text), (text, text, other), (other, text, text), (text, text + other, other + text)):
                    yield "texts", texts, j % len(NAMES)
        for texts in itertools.product(BYTES[2:5] if tier == "quick" else BYTES, repeat=3):
            yield "texts", texts, 0
        for j in range(len(NAMES)):
            for texts in (("one\ntwo\n", "one\n2\n", "one\nzwei\n"), ("a\n", "a\nb\n", "a\n"), ("", "", ""), ("a\n", "b\n", "b\n")):
                yield "ways", texts, j
        for shape, n in large_files(tier):
            if shape in FILES or n < 70:
                yield "large", (shape, n), 0
        yield "refused", (), 0
        for number in range(len(ENVIRONMENTS)):
            yield "elsewhere", "environment", number
        for number in range(len(PLACES)):
            yield "elsewhere", "place", number
        yield "torture", (), 0

    def torture(self, case, ctx):
        """gaspra-torture CASE is gaspra-merge of the three files of CASE."""
        scratch = os.path.abspath("test-cases")
        saved = getattr(torture_test, "TEST_CASE_DIRECTORY", None)
        torture_test.TEST_CASE_DIRECTORY = scratch
        try:
            for test_case in ("About.java", *TORTURE):
                names = TORTURE.get(test_case) or [f"{test_case}.{x}" for x in ("parent", "1st", "2nd")]
                names = [os.path.join(scratch, n) for n in names]
                self.files(("one\ntwo\nthree\n", "one\n2\nthree\n", "one\nzwei\nthree\nfour\n"), names)
                if not all(name.startswith(scratch) for name in torture_test.get_filenames(test_case)):
                    # The directory is chosen in some other way: the test
                    # cases, which are not part of the repository, cannot
                    # be supplied.
                    continue
                for options in option_sets(("-L", "-g", "-s", "-d")):
                    want = run_tool(self.TOOL, [*options, *self.argument_order(names)])
                    got = run_tool("gaspra-torture", [*options, test_case])
                    require(got == want, "gaspra-torture is not gaspra-merge of the files of the test case", test_case, options, got, want)
                    ctx.count("executions", 2)
                    ctx.nontrivial((test_case, options))
            require(is_refused("gaspra-torture", ["no such case"]) and is_refused("gaspra-torture", []), "an unknown test case is accepted")
        finally:
            torture_test.TEST_CASE_DIRECTORY = saved
        ctx.outcome(case)

    def check(self, case, ctx):
        kind, texts, names = case
        if kind == "refused":
            return self.refused(case, ctx)
        if kind == "elsewhere":
            return self.elsewhere(case, ctx)
        if kind == "torture":
            return self.torture(case, ctx)
        sets = option_sets(("-L", "-g", "-s", "-d"))
        if kind == "large":
            texts = large_texts(*texts)
            sets = [[], ["-g"], ["-l", "-d"], ["-l", "-g", "-d"], ["-w", "-L"]]
        names = NAMES[names]
        self.files(texts, names)
        ways = kind == "ways"
        read_as = [decoded(t) if isinstance(t, bytes) else t for t in texts]
        items = {}
        for n, options in enumerate(sets):
            console, in_file = self.outputs(names, options, texts)
            ctx.count("executions", 2)
            self.one(read_as, names, options, console, in_file, items)
            if ways:
                self.other_ways(names, options, texts, console, in_file)
                if n % 9 == 0:
                    self.process(names, options, texts, console, in_file)
            if "-s" in options and "-g" in options:
                less = [o for o in options if o != "-s"]
                order = list(self.argument_order(names))
                require(run_tool(self.TOOL, [*less, *order]) == console, "-s changes git-compatible output", texts, options)
            ctx.outcome(in_file if kind != "large" else case)
        if len(set(read_as)) > 1:
            ctx.nontrivial(case)
        ctx.note = in_file[:2000]

    def one(self, texts, names, options, console, in_file, items):
        parent, current, other = texts
        base = [os.path.basename(n) for n in names]
        how = tokens_of(options)
        if how not in items:
            items[how] = (token_diff(parent, current, how), token_diff(parent, other, how), token_merge(parent, current, other, how))
        lines = "-L" in options or "-g" in options
        git = "-g" in options
        what = (texts, options)

        for output in ("console", "file"):
            out = console if output == "console" else in_file
            if output == "console" and not printable(*texts, *base):
                continue
            sections = [(items[how][2], base[1], base[2], None, None)]
            if "-d" in options:
                sections = [
                    (items[how][0], base[1], base[0], f"\n<<<{base[1]}>>>\n", (current, parent)),
                    (items[how][1], base[2], base[0], f"\n<<<{base[2]}>>>\n", (other, parent)),
                    (items[how][2], base[1], base[2], "\n<<<Merged>>>\n", None),
                ]
            if output == "file" and not git and "-d" in options:
                # Headers and changes are marked up in a way that is not
                # specified.
                continue
            at = 0
            for k, (stream, name_a, name_b, header, sides) in enumerate(sections):
                if header is not None:
                    require(out.startswith(header, at), "a section without its header", what, output, header, out)
                    at += len(header)
                clean = not any(isinstance(x, Change) for x in stream)
                if lines:
                    stream_lines = list(consolidated_line_diff(iter(stream)))
                else:
                    stream_lines = stream
                if output == "file" and not git and not clean:
                    return
                if git:
                    end = self.git_end(stream_lines, name_a, name_b)
                    part = out[at : at + end]
                    at += end
                    got, blocks = parse_git(part, name_a, name_b)
                    want = sides or [side(stream, 0), side(stream, 1)]
                    for s in (0, 1):
                        require(same_text(got[s], want[s], want[1 - s]), "the output does not give a side back", what, output, s, want[s], out)
                    if clean:
                        require(not blocks, "a conflict in a merge without conflicts", what, output, out)
                else:
                    expected = plain(stream_lines)
                    part = out[at : at + len(expected)]
                    at += len(expected)
                    require(part == expected, "the output is not the diff or merge", what, output, expected, out)
                if header in (None, "\n<<<Merged>>>\n") and clean:
                    self.clean_merge(texts, part, lines, what)
            require(at == len(out), "there is more output than the merge", what, output, out[at:], out)

    def git_end(self, lines, name_a, name_b):
        n = 0
        for item in lines:
            n += len(shown(item))
            if isinstance(item, Change):
                n += len(f"<<<<<<< {name_a}\n=======\n>>>>>>> {name_b}\n")
        return n

    def clean_merge(self, texts, part, lines, what):
        parent, current, other = texts
        want = None
        if parent == current or current == other:
            want = other
        elif parent == other:
            want = current
        if want is not None:
            require(part == want or (lines and same_text(part, want)), "a merge of one change is not the changed text", what, want, part)


class DiffTool(Tools):
    ID = "C31"
    TOOL = "gaspra-diff"

    def bounds(self, tier):
        return (
            f"every pair of texts of at most {6 if tier == 'quick' else 8} characters in all over (a, newline, b, space) up to the order of first use, all pairs of {len(TEXT_POOL)} texts and of {len(BYTES)} byte strings, "
            f"{len(NAMES)} sets of file names; all 32 combinations of -c/-w/-l, -L, -g, -s, each to the console and to a file (selected cases: in place, long options, in a process of its own); {len(FILES)} shapes of files of up to 65537 bytes and {len(LARGE)} of up to 129 (thorough: 257) pieces, with 5 combinations; {len(ENVIRONMENTS)} environments, and files in {len(PLACES)} ways (links, pipes, standard input ...), in processes of their own; calls that must be refused"
        )

    def argument_order(self, names):
        return names

    def cases(self, tier):
        pieces = {"a": "a", "b": "\n", "c": "b", "d": " "}
        for words in space.word_tuples(2, 6 if tier == "quick" else 8, 4):
            yield "texts", tuple("".join(pieces[c] for c in w) for w in words), 0
        for i, texts in enumerate(itertools.product(TEXT_POOL, repeat=2)):
            yield "texts", texts, i % len(NAMES)
        for i, texts in enumerate(itertools.product(BYTES, repeat=2)):
            yield "texts", texts, 0
        for j in range(len(NAMES)):
            for texts in (("one\ntwo\n", "one\n2\n"), ("a\n", "a\nb\n"), ("", ""), ("a\n", "b\nc")):
                yield "ways", texts, j
        for shape, n in large_files(tier):
            yield "large", (shape, n), 0
        yield "refused", (), 0
        for number in range(len(ENVIRONMENTS)):
            yield "elsewhere", "environment", number
        for number in range(len(PLACES)):
            yield "elsewhere", "place", number

    def check(self, case, ctx):
        kind, texts, names = case
        if kind == "refused":
            return self.refused(case, ctx)
        if kind == "elsewhere":
            return self.elsewhere(case, ctx)
        sets = option_sets(("-L", "-g", "-s"))
        if kind == "large":
            texts = large_texts(*texts)[:2]
            sets = FEW_OPTIONS
        names = NAMES[names][:2]
        self.files(texts, names)
        original, modified = [decoded(t) if isinstance(t, bytes) else t for t in texts]
        base = [os.path.basename(n) for n in names]
        by_options = {}
        for n, options in enumerate(sets):
            console, in_file = self.outputs(names, options, texts)
            ctx.count("executions", 2)
            what = (texts, options)
            stream = token_diff(original, modified, tokens_of(options))
            if "-L" in options or "-g" in options:
                stream = list(consolidated_line_diff(iter(stream)))
            by_options[tuple(options)] = console, in_file
            if "-g" in options:
                got, blocks = parse_git(in_file, base[1], base[0])
                for s, text, against in ((0, modified, original), (1, original, modified)):
                    require(same_text(got[s], text, against), "the output does not give a file back", what, names[1 - s], text, in_file)
                require(blocks == sum(isinstance(x, Change) for x in stream), "not one conflict block for each change", what, in_file)
                if printable(original, modified, *base):
                    require(console == in_file, "the console and the file are not the same", what, console, in_file)
                less = tuple(o for o in options if o not in ("-s", "-L"))
                require(by_options[less] == (console, in_file), "-s or -L changes git-compatible output", what)
            elif printable(original, modified):
                require(console == plain(stream), "the output is not the diff", what, plain(stream), console)
            if original == modified:
                require(in_file == original or (len(options) > 0 and same_text(in_file, original)), "the diff of equal files is not the file", what, in_file)
            if kind == "ways":
                self.other_ways(names, options, texts, console, in_file)
                if n % 5 == 0:
                    self.process(names, options, texts, console, in_file)
            ctx.outcome(in_file if kind != "large" else case)
        if original != modified:
            ctx.nontrivial(case)
        ctx.note = in_file[:2000]


# --- Colors ----------------------------------------------------------------

SGR = re.compile(r"\x1b\[([0-9;]*)m|\x1b\]8;[^\x1b]*\x1b\\\\")
INSERTED = {"38;5;28", "38;5;120"}
DELETED = {"38;5;88", "38;5;218"}


def segments(text):
    """(attributes, text) of a text with SGR sequences."""
    attributes, at = set(), 0
    for match in SGR.finditer(text):
        if match.start() > at:
            yield frozenset(attributes), text[at : match.start()]
        codes = match[1]
        if codes in ("", "0"):
            attributes = set()
        else:
            color = re.search(r"38;5;\d+", codes)
            if color:
                attributes.add(color[0])
                codes = codes.replace(color[0], "")
            attributes.update(c for c in codes.split(";") if c)
        at = match.end()
    if at < len(text):
        yield frozenset(attributes), text[at:]


def colored_sides(text, what):
    """The two sides as the colors show them (without newlines), the text
    without the colors, and the deleted text that is struck out."""
    sides, bare, struck, deleted = ["", ""], "", "", ""
    for attributes, part in segments(text):
        require("\x1b" not in part, "an escape sequence that is not a style", what, part)
        inserted, removed = bool(attributes & INSERTED), bool(attributes & DELETED)
        require(not (inserted and removed), "text shown as inserted and deleted", what, text)
        bare += part
        words = part.replace("\n", "")
        if not removed:
            sides[0] += words
        if not inserted:
            sides[1] += words
        if removed:
            deleted += words
        if "9" in attributes:
            struck += words
            require(removed or not words, "text is struck out that was not deleted", what, text)
    return sides, bare, struck, deleted


CONSOLE_TEXTS = (
    "", "a", "a\n", "[", "]", "[]", "[a]", "[/]", "[/a]", "[red]x[/red]", "[b", "b]", "[[a]]", "\\", "\\\\", "\\[", "\\[a]", "\\\\[a]\\", "a\\", "[a]\\", "\\[/]",
    ":smile:", ":a:", "http://x.org/[a]", "'q' 1 None True", "\u00e9", "\u6f22\u5b57", "\U0001f600", "e\u0301", "a" * 200, "a " * 150, "[a] " * 60, "\u6f22" * 90,
    "a\n\n\nb", "  a  ", "a \n b", "[link=x]y[/link]", "[@click=a]b", "[#ff0000]x", "<a>", "{x}", "%s", "[none]", "a[none][/none]", "[bold]\n[/bold]\n", "\\\n", "[\n", "\\[\n]",
)


class Console:
    ID = "C32"
    LEVEL = "exploration"
    RULE = "A case is a pair of texts (or a word printed through a writer); non-trivial when a text has a character that has a meaning in console markup."
    ASSUMPTIONS = ["The texts have no tabs or control characters other than newlines.", "A console of 256 colors or none."]

    def bounds(self, tier):
        n, m = (6, 4) if tier == "quick" else (7, 5)
        return (
            f"every pair of texts of at most {m} characters in all over ([, ], \\, /, a, newline), every word of at most {n} of these, and unusual texts, through the console writer, and so every character that can be printed; "
            f"all pairs of {len(CONSOLE_TEXTS)} texts (gaspra-merge: {24 if tier == 'quick' else len(CONSOLE_TEXTS)}); {len(LARGE)} shapes of diffs and line diffs with pieces of up to 65537 characters, or up to {1025 if tier == 'quick' else 16385} pieces or lines; with and without colors, -s, -L, -g, for gaspra-diff, and gaspra-merge with -d"
        )

    def cases(self, tier):
        n, m = (6, 4) if tier == "quick" else (7, 5)
        alphabet = "a[]\\/\n"
        for length in range(n - 1):
            for word in itertools.product(alphabet, repeat=length):
                yield "write", "".join(word)
        for text in space.unusual_texts(False):
            if printable(text):
                yield "write", text
        for start in range(0, 0x110000, 2048):
            yield "characters", start
        for total in range(m + 1):
            for cut in range(total + 1):
                for word in itertools.product(alphabet, repeat=total):
                    yield "diff", "".join(word[:cut]), "".join(word[cut:])
        for a, b in itertools.product(CONSOLE_TEXTS, repeat=2):
            yield "diff", a, b
        yield from large_streams(tier, 70000 if tier == "quick" else 200000, 1100 if tier == "quick" else 20000)
        for a, b in itertools.product(CONSOLE_TEXTS[:24] if tier == "quick" else CONSOLE_TEXTS, repeat=2):
            yield "merge", a, b

    def check(self, case, ctx):
        if case[0] == "large":
            self.show(large(case), case, ctx)
            self.show(list(consolidated_line_diff(large(case))), case, ctx)
            ctx.nontrivial(case)
            return
        if case[0] == "characters":
            self.characters(case[1], ctx)
            ctx.nontrivial(case)
            return
        if case[0] == "write":
            self.write(case[1], ctx)
        else:
            self.tool(case, ctx)
        if any(c in "".join(case[1:]) for c in "[]\\:"):
            ctx.nontrivial(case)

    def colors(self, on):
        for name in ("FORCE_COLOR", "COLORTERM", "NO_COLOR"):
            os.environ.pop(name, None)
        os.environ["TERM"] = "xterm-256color" if on else "dumb"
        if on:
            os.environ["FORCE_COLOR"] = "1"

    def write(self, prefix, ctx):
        """Words and changes through the writer, in one console."""
        words = [prefix] + [prefix + c for c in "a[]\\/\n"]
        stream = []
        for word in words:
            stream += [word, Change(word, word + "x"), Change("", word), Change(("a", Change(word, "")), (Change("", word), word))]
        self.show(stream, prefix, ctx)

    def characters(self, start, ctx):
        """Every character that can be printed, in a text and in changes."""
        points = [c for c in map(chr, range(start, start + 2048)) if c.isprintable()]
        for k in range(0, len(points), 512):
            some = points[k : k + 512]
            text = "".join(some)
            stream = ["a".join(some), Change(text, "x"), text, Change("x", " ".join(some)), "\n"]
            stream += [Change(("a", Change(text, ""), text), (text, Change("", text), "b"))]
            self.show(stream, ("characters", start, k), ctx)

    def show(self, stream, what, ctx):
        for on in (False, True):
            self.colors(on)
            saved = sys.stdout
            sys.stdout = out = io.StringIO()
            try:
                with console_writer() as (put, escape):
                    markup_changes(put, stream, markup0=COLORED_LEVEL0, markup1=COLORED_LEVEL1, escape=escape)
            finally:
                sys.stdout = saved
                self.colors(False)
            ctx.count("executions")
            sides, bare, struck, _ = colored_sides(out.getvalue(), what)
            require(bare == plain(stream), "the console does not show the text", what, plain(stream), bare)
            if on:
                for s in (0, 1):
                    require(sides[s] == side(stream, s).replace("\n", ""), "the colors do not show the sides", what, s, sides[s])
                require(not struck, "text is struck out", what, struck)

    def tool(self, case, ctx):
        kind, a, b = case
        write("p", a)
        write("m", b)
        write("o", b + a)
        for options in ([], ["-L"], ["-s"], ["-g"], ["-s", "-L", "-w"], ["-l", "-s"]):
            lines = "-L" in options or "-g" in options
            if kind == "diff":
                tool, args = "gaspra-diff", ["p", "m"]
            else:
                tool, args = "gaspra-merge", ["p", "o", "m", "-d"]
            printed = {}
            for on in (False, True):
                self.colors(on)
                try:
                    printed[on] = run_tool(tool, [*args, *options])
                finally:
                    self.colors(False)
                ctx.count("executions")
            ctx.outcome(printed[True])
            what = (case, options)
            _, bare, _, _ = colored_sides(printed[True], what)
            require(bare == printed[False], "with colors, another text is shown", what, printed[False], bare)
            require("\x1b" not in printed[False], "styles on a console without", what, printed[False])
            if "-g" in options:
                continue
            how = tokens_of(options)
            if kind == "diff":
                sections = [(None, printed[True], token_diff(a, b, how), (b, a), True)]
            else:
                # Each section has a header.
                parts = re.split(r"\n<<<(?:\x1b\[[0-9;]*m)?(m|o|Merged)(?:\x1b\[0?m)?>>>\n", printed[True])
                if len(parts) != 7:
                    continue  # The texts look like headers.
                require(parts[0] == "" and parts[1::2] == ["m", "o", "Merged"], "not the sections of a merge", what, printed[True])
                sections = [
                    ("m", parts[2], token_diff(a, b, how), (b, a), True),
                    ("o", parts[4], token_diff(a, b + a, how), (b + a, a), True),
                    ("Merged", parts[6], token_merge(a, b, b + a, how), None, False),
                ]
            for name, part, stream, texts, strike in sections:
                sides, bare, struck, deleted = colored_sides(part, what)
                texts = texts or [side(stream, s) for s in (0, 1)]
                for s in (0, 1):
                    require(sides[s] == texts[s].replace("\n", ""), "the colors do not show the sides", what, name, s, texts[s], part)
                if lines:
                    stream = list(consolidated_line_diff(iter(stream)))
                require(bare == plain(stream), "the console does not show the text", what, name, plain(stream), bare)
                if "-s" in options and strike:
                    require(struck == deleted, "deleted text is not struck out", what, name, part)
                else:
                    require(struck == "", "text is struck out", what, name, part)
