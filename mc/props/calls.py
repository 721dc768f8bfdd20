"""C34: calls do not influence each other."""

import os
import pickle
import signal
import sys
import tempfile
import threading

import gaspra
from gaspra.changesets import apply_forward, apply_reverse, diff_token_sequences, find_changeset
from gaspra.diff_to_lines import consolidated_line_diff
from gaspra.manifest import add_manifest, get_manifest
from gaspra.markup import GIT_MARKUP_LEVEL0, PLAIN_LEVEL1, markup_changes
from gaspra.merge import merge_token_sequence
from gaspra.multiple_strings import find_lcs as find_lcs_multiple
from gaspra.serialize import deserialize_changeset, serialize_changeset
from gaspra.suffix_automaton import build, find_lcs
from gaspra.tokenizers import CharTokenizer, LineTokenizer, SymbolTokenizer, decode_changes, diff, merged

from gaspra.diff_to_lines import to_line_diff

from mc.core import TooLong, Violation, require, show
from mc.store import make

A, B, C = "one two\nthree\n", "one 2\nthree\nfour\n", "zero\none two\n3\n"


def t_diff(a, b):
    def task():
        yield from diff_token_sequences(a, b)
    return task


def t_merge(p, a, b):
    def task():
        yield from merge_token_sequence(p, a, b)
    return task


def t_text_diff(a, b, tokenizer):
    def task():
        yield from diff(a, b, tokenizer()) if tokenizer else diff(a, b)
    return task


def t_text_merge(p, a, b, tokenizer):
    def task():
        yield from merged(p, a, b, tokenizer()) if tokenizer else merged(p, a, b)
    return task


def t_lines(a, b):
    def task():
        out = []
        stream = consolidated_line_diff(diff_token_sequences(a, b))
        for item in stream:
            markup_changes(out.append, [item], markup0=GIT_MARKUP_LEVEL0, markup1=PLAIN_LEVEL1, name_into="x", name_from="y")
            yield item, "".join(out)
    return task


def t_line_diff(a, b):
    def task():
        yield from to_line_diff(diff_token_sequences(a, b))
    return task


def t_fresh(n):
    """Many diffs and merges of sequences that are gone afterwards."""
    def task():
        for i in range(n):
            a, b = ["x", i, "y"], [i, i + 1, "x"]
            yield list(diff_token_sequences(tuple(a), tuple(b))), list(merge_token_sequence(list(a), list(b), list(a[1:])))
    return task


def t_tool(tool, *args, **files):
    """A command line tool, on files of its own."""
    def task():
        from mc.props.output import run_tool
        for i in range(2):
            with tempfile.TemporaryDirectory(dir=".") as d:
                for name, text in files.items():
                    with open(os.path.join(d, name), "w") as f:
                        f.write(text)
                os.environ.update(TERM="xterm-256color", FORCE_COLOR="1")
                try:
                    printed = run_tool(tool, [*args, *(os.path.join(d, name) for name in files)])
                finally:
                    os.environ.pop("FORCE_COLOR")
                    os.environ["TERM"] = "dumb"
            yield printed
    return task


def t_tokenizer(tokenizer, *texts):
    def task():
        t = tokenizer()
        tokens = []
        for text in texts:
            tokens.append(t.encode(text))
            yield tokens[-1]
        yield [t.decode(x) for x in tokens]
    return task


def t_automaton(a, b):
    def task():
        automaton = build(a)
        yield find_lcs(automaton, b)
        yield find_lcs(build(b), a), find_lcs(automaton, a)
    return task


def t_strings(*strings):
    def task():
        yield gaspra.find_lcs(strings[0], strings[1])
        yield find_lcs_multiple(*strings)
        yield sorted(gaspra.find_substring(strings[0], strings[1][:1]))
    return task


def t_changeset(a, b):
    def task():
        changeset = find_changeset(a, b)
        yield list(changeset.as_diff_stream(a))
        changes = list(changeset.as_change_stream())
        yield len(changes)
        yield apply_forward(changes, a)
        yield apply_reverse(changes, b)
    return task


def t_codec(*changesets):
    def task():
        for c in changesets:
            data = serialize_changeset(c)
            yield data
            yield list(deserialize_changeset(data))
    return task


def t_manifest(*docs):
    def task():
        store, close = make("memory", "line")
        try:
            for i, doc in enumerate(docs):
                contents = {f"{name}{i}": text for name, text in doc.items()}
                add_manifest(i, {name: f"{name}{i}" for name in doc}, store, contents, i - 1 if i else None)
                yield get_manifest(store, i)
            yield [(get_manifest(store, i), [store.get(f"{name}{i}") for name in doc]) for i, doc in enumerate(docs)]
        finally:
            close()
    return task


def t_store(backend, tokenizer, *contents):
    def task():
        store, close = make(backend, tokenizer)
        try:
            for i, c in enumerate(contents):
                store.add(i, c, i - 1 if i else None)
                yield store.get(0), store.get(i)
            yield [store.get(i) for i in range(len(contents))], store.version_info(0)
        finally:
            close()
    return task


TASKS = {
    "diff": t_diff("abcab", "acbxb"),
    "diff again": t_diff("acbxb", "abcab"),
    "diff of tokens": t_diff((1, 2, 3, 1), (2, 9, 1, 1)),
    "diff of the same": t_diff("abcab", "bcaab"),
    "diff to the same": t_diff("bbacx", "acbxb"),
    "diff of equal tokens": t_diff((True, 2.0, 3, 1), (2.0, 9, 1.0, True)),
    "diff of -1": t_diff((-1, 2), (3, -1)),
    "diff of -2": t_diff((-2, 2), (3, -2)),
    "fresh": t_fresh(3),
    "merge": t_merge("abcd", "axcd", "aycde"),
    "merge of the same": t_merge("abcd", "axcd", "abyde"),
    "merge of equal tokens": t_merge((1, 2, 0), (1, 3, 0), (1, 2.0, 4)),
    "merge of tokens": t_merge((True, 2, 0), (1, 3, False), (True, 2, 4)),
    "merge other": t_merge("dcba", "abcd", "ddba"),
    "text diff": t_text_diff(A, B, None),
    "line diff": t_text_diff(A, B, LineTokenizer),
    "other line diff": t_text_diff(C, A, LineTokenizer),
    "symbol diff": t_text_diff(A, C, SymbolTokenizer),
    "bytes diff": t_text_diff(A.encode(), C.encode(), CharTokenizer),
    "text merge": t_text_merge(A, B, C, None),
    "line merge": t_text_merge(A, B, C, LineTokenizer),
    "git": t_lines(A, B),
    "other git": t_lines(B, C),
    "line by line": t_line_diff(A, B),
    "other line by line": t_line_diff("a b\nc\nd e", "a x\nc\nd y"),
    "lines": t_tokenizer(LineTokenizer, A, B),
    "lines of bytes": t_tokenizer(LineTokenizer, B.encode(), C.encode()),
    "other lines": t_tokenizer(LineTokenizer, C, A),
    "symbols": t_tokenizer(SymbolTokenizer, B, C),
    "automaton": t_automaton("abcbc", "bcab"),
    "other automaton": t_automaton("cbcba", "acb"),
    "strings": t_strings("abcb", "cbab", "bcb"),
    "other strings": t_strings("bcb", "abcb"),
    "changeset": t_changeset("abcab", "acbb"),
    "codec": t_codec((slice(0, 3), b"ab"), (b"", slice(300, 70000), b"c" * 300)),
    "other codec": t_codec((b"c" * 3, slice(0, 300)),),
    "manifest": t_manifest({"f": b"a\nb\n", "g": b"b"}, {"f": b"a\n", "h": b"b"}),
    "other manifest": t_manifest({"f": b"b\n", "h": b"a\n"}, {"f": b"a\nb\n", "g": b""}),
    "diff tool": t_tool("gaspra-diff", a=A, b=B),
    "diff tool -s": t_tool("gaspra-diff", "-s", "-L", a=A, b=B),
    "merge tool": t_tool("gaspra-merge", "-d", a=A, b=B, c=C),
    "merge tool -g": t_tool("gaspra-merge", "-d", "-s", "-g", "-w", a=A, b=B, c=C),
    "store": t_store("memory", "line", b"a\nb\n", b"b\nc\n", b"a\nc\n"),
    "other store": t_store("memory", "line", b"b\nc\n", b"c\n", b"b\n"),
    "database": t_store("database", "symbol", b"a b", b"b c", b"a c"),
    "other database": t_store("database", "null", b"abc", b"b"),
}
NAMES = tuple(TASKS)
# Tools print all at once: nothing can come in between.
LAZY = tuple(n for n in NAMES if "tool" not in n)
FEW = tuple(n for i, n in enumerate(NAMES) if i % 4 == 0 or n in ("diff tool", "merge tool -g"))

# What two threads run (pure calls on data of their own).
THREADS = {
    "diff": t_diff("aba", "bab"),
    "merge": t_merge("ab", "axb", "aby"),
    "conflict": t_merge("abcd", "xyd", "abuv"),
    "lines": t_text_diff("a\nb\n", "b\nc\n", LineTokenizer),
    "symbols": t_text_merge("a b", "a c", "d b", SymbolTokenizer),
    "default": t_text_diff("ab", "cb", None),
    "strings": t_strings("ab", "ba"),
    "git": t_lines("a\n", "b\n"),
    "codec": t_codec((b"ab", slice(0, 300))),
    "store": t_store("memory", "line", b"a\nb\n", b"b\n"),
}
SMALL = tuple(n for n in THREADS if n != "store")
SMALLEST = tuple(n for n in SMALL if n != "symbols")


def in_child(function):
    """The result of a function, called in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_VIRTUAL, 60)
            try:
                result = True, function()
            except (Exception, TooLong) as e:
                result = False, f"{type(e).__name__}: {show(str(e), 2000)}" if not isinstance(e, Violation) else str(e)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            with os.fdopen(w, "wb") as f:
                pickle.dump(result, f)
            status = 0
        finally:
            os._exit(status)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    require(status == 0 and data, "the process ends", status)
    ok, result = pickle.loads(data)
    require(ok, result)
    return result


def observed(value):
    """A value as it is now: generators and lists can change later."""
    return repr(value)


def alone(task):
    return [observed(x) for x in task()]


class Stepper:
    def __init__(self, task):
        self.task, self.seen, self.ended = task, [], False
        self.generator = None

    def step(self):
        if self.generator is None:
            self.generator = self.task()
        try:
            self.seen.append(observed(next(self.generator)))
        except StopIteration:
            self.ended = True


def interleavings(counts):
    """All orders of the steps of several tasks."""
    if not any(counts):
        yield ()
        return
    for i, n in enumerate(counts):
        if n:
            rest = list(counts)
            rest[i] -= 1
            for order in interleavings(rest):
                yield (i, *order)


def count_interleavings(counts):
    total, n = 1, 0
    for c in counts:
        for k in range(1, c + 1):
            n += 1
            total = total * n // k
    return total


class Schedule:
    """Runs threads one at a time.  A thread can be stopped at every bytecode
    ("opcode"), line or call of the code under test; `switches` tells after
    how many of these points each turn ends.  Without any, the points are
    counted."""

    def __init__(self, tasks, switches, grain):
        self.tasks, self.grain = tasks, grain
        self.plan = list(switches)
        self.turns = [threading.Event() for _ in tasks]
        self.done = [False] * len(tasks)
        self.seen = [None] * len(tasks)
        self.errors = []
        self.left = None
        self.count_only = not switches
        self.points = [0] * len(tasks)
        self.root = os.path.dirname(gaspra.__file__)

    def run(self):
        warm_up()
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.tasks))]
        for t in threads:
            t.start()
        self.left = self.plan.pop(0) if self.plan else None
        self.turns[0].set()
        for t in threads:
            t.join(60)
            require(not t.is_alive(), "the threads do not end")
        if self.errors:
            raise self.errors[0]
        return self

    def body(self, me):
        self.turns[me].wait()

        def trace(frame, event, arg):
            if event == "call":
                if not frame.f_code.co_filename.startswith(self.root):
                    return None
                if self.grain == "opcode":
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
            if event == self.grain:
                self.point(me)
            return trace

        sys.settrace(trace)
        try:
            self.seen[me] = alone(self.tasks[me])
        except BaseException as e:
            self.errors.append(e)
        finally:
            sys.settrace(None)
            self.done[me] = True
            self.left = None
            self.hand_over(me)

    def point(self, me):
        self.points[me] += 1
        if self.left is None:
            if self.count_only or self.grain == "opcode":
                return
            # There are no more switches.
            sys.settrace(None)
            return
        if self.left == 0:
            self.left = self.plan.pop(0) if self.plan else None
            if not all(self.done[i] for i in range(len(self.tasks)) if i != me):
                self.turns[me].clear()
                self.hand_over(me)
                self.turns[me].wait()
            return
        self.left -= 1

    def hand_over(self, me):
        for k in range(1, len(self.tasks)):
            other = (me + k) % len(self.tasks)
            if not self.done[other]:
                self.turns[other].set()
                return


def warm_up(warm=[]):
    """The first frame that asks for bytecode events does not get any."""
    if warm:
        return
    warm.append(1)

    def trace(frame, event, arg):
        frame.f_trace_opcodes = True
        return trace

    def body():
        sys.settrace(trace)
        sum([1])
        (lambda: 1)()
        sys.settrace(None)

    for _ in range(2):
        thread = threading.Thread(target=body)
        thread.start()
        thread.join()


PARTS = 16


class Calls:
    ID = "C34"
    LEVEL = "model_checking"
    RULE = (
        "A state is what the tasks have observed so far; a transition is a step of one task (up to its next result), or a turn of a thread; a trace is a complete "
        "interleaving of the steps of two or three tasks, or a complete schedule of two threads, compared with what each task observes alone in a new process."
    )
    ASSUMPTIONS = [
        "Each call is given arguments, tokenizers and stores of its own.",
        "Threads are switched between two lines (bytecodes, calls) of the package, one thread at a time.",
    ]

    def bounds(self, tier):
        return (
            f"all interleavings of the results of every ordered pair of {len(LAZY)} tasks of at most {5 if tier == 'quick' else 6} steps (at most {2 if tier == 'quick' else 4}: each in a new process); every pair of {len(NAMES)} tasks and every triple "
            f"of {len(FEW) if tier == 'quick' else len(NAMES)}, one after the other; every pair of {len(THREADS)} threads with at most 1 preemption at every line, and at every {'call' if tier == 'quick' else 'line'} in a new process each"
            + (f"; every pair of {SMALL} with 1 at every bytecode and of {SMALLEST} with 2 at every call" if tier != "quick" else "")
        )

    def cases(self, tier):
        for a in LAZY:
            for b in LAZY:
                yield "interleave", a, b, 5 if tier == "quick" else 6
        for a in LAZY:
            for b in LAZY:
                yield "interleave afresh", a, b, 2 if tier == "quick" else 4
        for a in NAMES:
            for b in NAMES:
                yield "pair", a, b
        some = NAMES if tier != "quick" else FEW
        for a in some:
            for b in some:
                yield "histories", a, b, len(some)
        for a in THREADS:
            for b in THREADS:
                for part in range(PARTS):
                    yield "threads", a, b, "line", part
                    yield "threads afresh", a, b, "call" if tier == "quick" else "line", part
        if tier != "quick":
            for kind, grain, some in (("threads", "opcode", SMALL), ("threads twice", "call", SMALLEST)):
                for a in some:
                    for b in some:
                        for part in range(PARTS):
                            yield kind, a, b, grain, part

    def baseline(self, tasks, name):
        key = (id(tasks), name)
        if not hasattr(self, "known"):
            self.known = {}
        if key not in self.known:
            self.known[key] = in_child(lambda: alone(tasks[name]))
        return self.known[key]

    def check(self, case, ctx):
        kind = case[0]
        result = in_child_with_baselines(self, case)
        steps, traces, states, outcomes, note = result
        ctx.count("transitions", steps)
        ctx.count("traces", traces)
        ctx.count(kind.replace(" ", "_"), traces)
        for s in states:
            ctx.state(s)
        for o in outcomes:
            ctx.outcome(o)
        ctx.note = note


def in_child_with_baselines(prop, case):
    kind = case[0]
    if kind == "pair":
        kind, case = "histories", ("histories", *case[1:], 0)
    tasks = THREADS if kind.startswith("threads") else TASKS
    some = case[1:3] if kind != "histories" else third(case[3])
    expected = {name: prop.baseline(tasks, name) for name in (*some, *case[1:3])}
    run = {"interleave": interleave, "interleave afresh": interleave_afresh, "histories": histories, "threads": one_preemption, "threads afresh": one_preemption, "threads twice": two_preemptions}[kind]
    return in_child(lambda: run(case, expected))


def compare(name, seen, expected, how):
    require(seen == expected, "a call has another result than alone", name, how, expected, seen)


def interleave_afresh(case, expected):
    """Each interleaving in a process of its own, where nothing was called before."""
    names = case[1:3]
    limit = [min(len(expected[n]) + 1, case[3]) for n in names]
    traces = steps = 0
    states = set()
    for order in interleavings(limit):
        result = in_child(lambda: interleave(case, expected, [order]))
        steps, traces = steps + result[0], traces + 1
        states.update(result[2])
    return steps, traces, sorted(states), [(names, order)], order


def interleave(case, expected, orders=None):
    names = case[1:3]
    counts = [len(expected[n]) + 1 for n in names]
    # The first steps of a long task are interleaved; the rest is one step.
    limit = [min(c, case[3]) for c in counts]
    steps = traces = 0
    states = set()
    for order in orders or interleavings(limit):
        tasks = [Stepper(TASKS[n]) for n in names]
        for i in order:
            tasks[i].step()
            steps += 1
            states.add((names[0], names[1], len(tasks[0].seen), tasks[0].ended, len(tasks[1].seen), tasks[1].ended))
            for n, t in zip(names, tasks):
                compare(n, t.seen, expected[n][: len(t.seen)], (names, order))
        for n, t in zip(names, tasks):
            while not t.ended:
                t.step()
                steps += 1
            compare(n, t.seen, expected[n], (names, order))
        traces += 1
    return steps, traces, sorted(states), [(names, order)], order


def third(n):
    return {len(NAMES): NAMES, len(FEW): FEW, 0: ()}[n]


def histories(case, expected):
    _, a, b, n = case
    traces = steps = 0
    states = []
    for c in third(n) or (b,):
        for name in (a, b, c, a):
            compare(name, alone(TASKS[name]), expected[name], ("after", a, b, c))
            steps += 1
        states.append((a, b, c))
        traces += 1
    return steps, traces, states, states, states[-1]


def one_preemption(case, expected):
    kind, a, b, grain, part = case
    tasks = [THREADS[a], THREADS[b]]
    n = in_child(lambda: Schedule(tasks, [], grain).run().points[0])
    require(n > 0, "no point where a thread can be stopped", a)
    traces = 0
    def one(at):
        s = Schedule(tasks, [at], grain).run()
        for name, seen in zip((a, b), s.seen):
            compare(name, seen, expected[name], ("threads", a, b, "preempted after", at))
        return s.points

    for at in range(part, n, PARTS):
        if kind == "threads afresh":
            # In a process of its own, where nothing was called before.
            points = in_child(lambda: one(at))
        else:
            points = one(at)
        traces += 1
        if at == part:
            # The schedule decides everything.
            again = one(at)
            require(again == points, "the same schedule runs differently", a, b, at, again, points)
    return 2 * traces, traces, [(a, b, at) for at in range(part, n, PARTS)], [], (n, "points")


def two_preemptions(case, expected):
    _, a, b, grain, part = case
    tasks = [THREADS[a], THREADS[b]]
    n, m = Schedule(tasks, [], grain).run().points
    traces, states = 0, []
    for at in range(part, n, PARTS):
        for then in range(m):
            s = Schedule(tasks, [at, then], grain).run()
            for name, seen in zip((a, b), s.seen):
                compare(name, seen, expected[name], ("threads", a, b, "preempted after", at, then))
            traces += 1
            states.append((a, b, at, then))
    return 3 * traces, traces, states, [], (n, m, "points")
