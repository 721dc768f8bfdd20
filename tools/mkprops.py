"""Writes properties.jsonl and MANIFEST.json from the table below."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/gaspra/"
INPUTS, HISTORIES, SCHEDULES, CONFIGS, FAULTS = "inputs", "histories", "schedules", "configurations", "fault_sequences"

# id, title, statement, over, quantifier text, why tests cannot, files, [(mechanism, where)], technique, level note
TABLE = [
    ("C01", "A diff loses nothing",
     "For any two token sequences (text, bytes, or any sequence of hashable tokens), the diff is a sequence of common parts and changes such that the common parts and the deleted sides, in order, are exactly the original, and the common parts and the inserted sides are exactly the modified version. Every part has the type of the input, and diffing again gives the same result.",
     [INPUTS], "all pairs of token sequences",
     "The tests diff about twenty fixed pairs; the recursion splits differ for every pattern of repeated tokens.",
     ["changesets.py", "suffix_automaton.py"], [("recursive split at a longest common block", S + "changesets.py:find_changeset"), ("as_diff_stream", S + "changesets.py:Changeset")],
     "exhaustive enumeration of input pairs up to a size, run on the code, against the definition", "Complete for all pairs up to the bound (up to renaming of tokens); larger inputs only in the listed families."),
    ("C02", "A diff is canonical and keeps longest common blocks",
     "A diff alternates between non-empty common parts and non-empty changes, and the two sides of a change have no token in common; equal sequences have no change. Its longest common part is a longest block that the two sequences have in common, and the same holds for the parts to the left and to the right of it.",
     [INPUTS], "all pairs of token sequences",
     "Tests compare whole expected results for a few pairs; that no longer block or no common token is overlooked is a statement about all of them.",
     ["changesets.py", "suffix_automaton.py"], [("longest common block first", S + "changesets.py:_find_longest_common"), ("joining of adjacent changes", S + "changesets.py:join_changes")],
     "exhaustive enumeration of input pairs up to a size, run on the code, against a dynamic-programming oracle", "Complete for all pairs up to the bound; larger inputs only in the listed families."),
    ("C03", "Patches take either version to the other",
     "The change stream between two token sequences lists, in order and without gaps, equal slices of both and what is deleted and inserted between them, nothing of it empty. Applied forward to the original it gives the modified version, and applied in reverse to the modified version it gives the original, also after it was reduced to one direction, which needs only slices of the version it is applied to and the tokens that are new in the other.",
     [INPUTS], "all pairs of token sequences, both directions",
     "Tests apply patches for a handful of pairs; offsets go wrong only for particular arrangements of empty, leading and trailing parts.",
     ["changesets.py"], [("apply", S + "changesets.py:apply"), ("strip_forward/strip_reverse", S + "changesets.py:strip_forward")],
     "exhaustive enumeration of input pairs up to a size, run on the code, patches replayed in both directions", "Complete for all pairs up to the bound; larger inputs only in the listed families."),
    ("C04", "Substring search finds the first occurrence, or nothing",
     "The automaton built from a sequence accepts exactly its suffixes. Searching it for any pattern gives the position of the pattern's first occurrence, or nothing exactly when the pattern does not occur; both also hold for automata that are built without links or terminal marks, as far as those serve the search.",
     [INPUTS], "all texts and all patterns, occurring or not",
     "The tests search in a few words; clones of states, on which positions depend, arise from particular repetitions.",
     ["suffix_automaton.py", "wrappers.py"], [("online construction with cloning", S + "suffix_automaton.py:build"), ("find_substring", S + "suffix_automaton.py:find_substring")],
     "exhaustive enumeration of texts and patterns up to a size, run on the code, against str.find", "Complete for all words and patterns up to the bound; longer words only in the listed families."),
    ("C05", "All occurrences of a pattern are found, in order",
     "Searching for all occurrences of a pattern gives every position at which it occurs in the text, overlapping ones too, each once and in increasing order. The empty pattern occurs at every position, the end included.",
     [INPUTS], "all texts and all patterns",
     "The tests use few texts; the reverse links through which positions are collected depend on the whole structure of repetitions.",
     ["suffix_automaton.py", "wrappers.py"], [("reverse suffix links", S + "suffix_automaton.py:add_reverse_links"), ("find_substring_all", S + "suffix_automaton.py:find_substring_all")],
     "exhaustive enumeration of texts and patterns up to a size, run on the code, against a naive scan", "Complete for all words and patterns up to the bound; longer words only in the listed families."),
    ("C06", "The longest common substring of two sequences is right",
     "For any two sequences the longest common substring that is reported has the maximal length, occurs at both reported positions, and these are the first occurrences of that block in either sequence.",
     [INPUTS], "all pairs of sequences",
     "Tests compare a few pairs; ties, overlaps and repeated blocks decide which positions are reported.",
     ["suffix_automaton.py", "wrappers.py"], [("scan along suffix links", S + "suffix_automaton.py:find_lcs")],
     "exhaustive enumeration of input pairs up to a size, run on the code, against a dynamic-programming oracle", "Complete for all pairs up to the bound; larger inputs only in the listed families."),
    ("C07", "The longest block common to many sequences is right",
     "For any number of sequences, the longest block common to all of them is reported with its length and one position in each sequence, where it occurs for the first time; of no sequences, there is no length. No token of the input can be confused with the marks that separate the sequences inside.",
     [INPUTS], "all lists of sequences, with any tokens",
     "Tests use a few lists of words; which automaton states are shared by all strings depends on all repetitions in all of them.",
     ["multiple_strings.py", "suffix_automaton.py"], [("generalised automaton with separators", S + "multiple_strings.py:concatenate_strings"), ("search for shared states", S + "multiple_strings.py:find_lcs")],
     "exhaustive enumeration of lists of words up to a size, run on the code, against a naive oracle", "Complete for all lists up to the bound; longer words only in the listed families."),
    ("C08", "Searching takes linear time and space",
     "Building the automaton, searching for the first or all occurrences, finding the longest common block of two or more sequences, diffing or merging equal or almost equal sequences, applying patches, making line diffs of diffs, and tokenizing take time proportional to the length of the input, and the automaton takes space proportional to it, for inputs of every repetition structure over a small alphabet.",
     [INPUTS], "all inputs; explored: all combinations of an operation and a family of words, sizes doubling",
     "Tests do not measure work; a quadratic path shows only on long inputs of particular structure.",
     ["suffix_automaton.py", "multiple_strings.py", "changesets.py"], [("linear-size automaton", S + "suffix_automaton.py:build"), ("no copying of the input", S + "changesets.py:_find_longest_common")],
     "exhaustive run of all (operation, family, size) combinations under a deterministic work counter", "Counts executed lines, hashings, comparisons and copied tokens instead of time, so it is deterministic; only the listed families and sizes, and work inside one built-in call is not seen."),
    ("C09", "A merge of one-sided edits is that edit",
     "If only one branch differs from the parent, or both branches are the same, the merge is exactly that version, in one part and without a conflict.",
     [INPUTS], "all parents and branches, either side",
     "Tests cover single examples on one side.",
     ["merge.py", "changesets.py"], [("fragment-wise merging of two changesets", S + "merge.py:merge_token_sequence")],
     "exhaustive enumeration of input pairs up to a size, run on the code", "Complete for all pairs up to the bound; larger inputs only in the listed families."),
    ("C10", "Edits that do not touch are merged cleanly and locally",
     "If no edit of one branch overlaps or adjoins a different edit of the other, the merge is, without a conflict, the parent with all the edits of both branches. A conflict stays local: wherever neither branch has an edit, the merge can be cut, and it is the merges of the pieces joined together.",
     [INPUTS], "all parents and pairs of branches",
     "Tests have fewer than twenty merges; the alignment of two fragment streams has many cases that depend on lengths and order.",
     ["merge.py"], [("merging of aligned fragments", S + "merge.py:_merge"), ("splitting of fragments", S + "merge.py")],
     "exhaustive enumeration of triples and of pairs of edit scripts up to a size, run on the code, against composition of the edits", "Complete for all triples and scripts up to the bound; larger inputs only in the listed families."),
    ("C11", "A merge accounts for every token of every version",
     "On either side of a merge, every insertion and every deletion of that branch has been made, what both branches kept is kept, nothing is repeated, and nothing appears that no version has; edits without a counterpart in the other branch are made on both sides. Tokens keep the order that they have in each version.",
     [INPUTS], "all pairs of edit scripts over a parent of distinct tokens",
     "Tests check final texts of a few merges; a token lost or duplicated needs a particular arrangement of adjacent edits.",
     ["merge.py"], [("merging of aligned fragments", S + "merge.py:_merge"), ("conflict consolidation", S + "merge.py")],
     "exhaustive enumeration of pairs of edit scripts up to a size, run on the code, tokens traced through the merge", "Complete for all scripts up to the bound. Repeated tokens are left to C09, C10, C12 and C13."),
    ("C12", "Merging is symmetric and attributes sides correctly",
     "Exchanging the branches of a merge exchanges its sides and changes nothing else: whether there are conflicts, and what either branch's side is. In a conflict, a branch's side only shows what that branch or the parent has, never an insertion that only the other branch made.",
     [INPUTS], "all parents and pairs of branches, in both orders",
     "Tests run merges in one order with fixed expectations.",
     ["merge.py"], [("conflict fragments and their sides", S + "merge.py")],
     "exhaustive enumeration of triples and edit scripts up to a size, run on the code in both orders", "Complete for all triples and scripts up to the bound; larger inputs only in the listed families."),
    ("C13", "Exactly the edits that exclude one another are conflicts",
     "If both branches put different text in the place of overlapping parts of the parent, or at the same place, the merge has a conflict; edits that do not touch never make one. Conflicts and texts alternate, no conflict is between equal sides or sides that share a token, no text is empty (unless the whole merge is), and every part has the type of the input.",
     [INPUTS], "all parents and pairs of branches",
     "Tests show a few conflicts; silently merging exclusive edits needs a particular overlap.",
     ["merge.py"], [("conflict detection", S + "merge.py"), ("diffing of conflict sides", S + "merge.py")],
     "exhaustive enumeration of triples and edit scripts up to a size, run on the code", "Complete for all triples and scripts up to the bound. Whether touching edits of which one only deletes conflict is not specified."),
    ("C14", "Only equality of tokens matters",
     "Diffs, merges, patches, searches and longest common blocks depend only on which tokens are equal: representing the same sequences as text, bytes, lists or tuples of any hashable tokens (falsy ones, ones with equal hashes, tuples, mixed types) gives the same result up to the representation.",
     [INPUTS], "all sequences in all representations",
     "Tests use text nearly everywhere.",
     ["changesets.py", "merge.py", "suffix_automaton.py", "multiple_strings.py"], [("tokens are only hashed and compared", S + "suffix_automaton.py")],
     "exhaustive enumeration of triples up to a size in every representation, compared with the result on text", "Complete up to the bound for the listed representations; C01-C13 rely on it to decide words up to renaming."),
    ("C15", "Tokenizers are reversible and consistent",
     "Each tokenizer gives a text or byte string back exactly when its tokens are decoded, as a whole or in parts. A tokenizer gives the same token to the same piece (line, symbol, character or byte) and different tokens to different pieces, in all texts it is given, and what it encoded earlier can still be decoded later. Mixing text and bytes in one tokenizer, or bytes it cannot decode, are refused, and change nothing.",
     [INPUTS, HISTORIES], "all texts, all sequences of texts given to one tokenizer",
     "Tests encode a few ASCII texts with a fresh tokenizer.",
     ["tokenizers.py"], [("token tables", S + "tokenizers.py")],
     "exhaustive enumeration of texts and sessions up to a size (and of all code points), run on the code, against the definition of the pieces", "Complete for all texts up to the bound over the alphabet; sessions over 24 texts."),
    ("C16", "Text-level diff and merge are those of the tokens",
     "Diffing or merging texts (or byte strings) with a tokenizer gives the diff or merge of their tokens, decoded: nothing is lost, whole pieces stay whole, and the parts have the type of the input. It makes no difference whether the tokenizer is new, was used before, or is the default one.",
     [INPUTS, HISTORIES], "all texts, all tokenizers, all earlier uses",
     "Tests diff a few texts with fresh tokenizers.",
     ["tokenizers.py", "changesets.py", "merge.py"], [("decoding of changes", S + "tokenizers.py:decode_changes"), ("diff/merged", S + "tokenizers.py:diff")],
     "exhaustive enumeration of texts up to a size for every tokenizer, new and used, run on the code", "Complete up to the bound over the listed pieces."),
    ("C17", "Variable-length integers are a lossless, ordered code",
     "Every integer from 0 to 2^64-1 is encoded in SQLite's variable-length format, and decoding gives it back together with what followed it. Encodings are in the order of the integers, a truncated one is rejected, and integers outside the range are never encoded as others.",
     [INPUTS], "all integers of the range, all byte strings",
     "Tests encode a few values at boundaries.",
     ["serialize.py"], [("vserialize_int/vdeserialize_int", S + "serialize.py")],
     "exhaustive enumeration of integers and byte strings, run on the code, against an independent encoder", "Complete below 2^20 (thorough: more), near all boundaries, and for all short byte strings."),
    ("C18", "Stored changes are read back as they were",
     "Serialising a patch of literal bytes and slices and reading it back gives the same parts (empty ones, which say nothing, excepted), so that applying it still gives the same version. A truncated patch is never read as other parts.",
     [INPUTS], "all patches",
     "Tests round-trip a few patches with short parts.",
     ["serialize.py"], [("serialize_changeset/deserialize_changeset", S + "serialize.py")],
     "exhaustive enumeration of patches up to a size, with all truncations, run on the code", "Complete for all sequences of the listed parts up to the bound."),
    ("C19", "Every version can be retrieved exactly as it was added",
     "After any history of additions (new branches, or extensions of heads) to a version store, in memory or on SQLite, with any tokenizer, every version added so far is retrieved byte for byte, in any order and any number of times; and versions that were not added are not found.",
     [HISTORIES, INPUTS, CONFIGS], "all histories of additions, contents, tags, tokenizers, both kinds of storage",
     "Tests add a few versions to one branch; each addition re-parents earlier versions in a way that depends on the whole history.",
     ["versions.py", "memory_tree.py", "db_tree.py", "db_collections.py", "serialize.py", "tokenizers.py"], [("reverse deltas along a spanning tree", S + "versions.py:Versions.add"), ("retrieval along the path", S + "versions.py:Versions.get")],
     "explicit-state exploration of all histories up to a depth, every transition run on the real store and compared with a reference model", "Complete up to the depth for all shapes of histories and over the listed contents; deeper histories only of regular shapes."),
    ("C20", "A refused addition leaves the store as it was",
     "Adding a tag again or None as a tag, extending a version that is not a head or does not exist, or adding contents that are not bytes or that the tokenizer cannot encode is refused, and afterwards the store is exactly what it was: every version, its information and what is stored are unchanged, and every head can still be extended.",
     [HISTORIES, FAULTS], "all histories, with every refusable operation tried in every state",
     "Tests do not add anything invalid.",
     ["versions.py", "db_tree.py", "memory_tree.py"], [("checks before anything is stored", S + "versions.py:Versions.add")],
     "explicit-state exploration of all histories up to a depth, all invalid operations injected in every state, compared with a twin store", "Complete up to the depth."),
    ("C21", "Both kinds of version tree agree and stay consistent",
     "The in-memory tree and the SQLite tree give the same answers as a plain tree of parents after any history: which tags are in it, what each was based on, the path from the root to any version, and the midpoint of the longest path below any version at which it is split.",
     [HISTORIES, CONFIGS], "all histories of additions as the store makes them",
     "Tests check single small trees of either kind.",
     ["memory_tree.py", "db_tree.py"], [("height and size metrics", S + "memory_tree.py:MemoryTree._update_metrics"), ("SQL tree", S + "db_tree.py")],
     "explicit-state exploration of all histories up to a depth, both implementations and a reference model in lock step", "Complete up to the depth; deeper histories only of regular shapes."),
    ("C22", "Only heads are stored in full, and retrieval stays cheap",
     "A version store keeps full copies of exactly the heads of its branches, and changes for all other versions. Retrieving any version of a branch of n versions reads one full copy and no more than about twice the square root of n versions in all.",
     [HISTORIES], "all histories of additions",
     "Tests do not look at what is stored or read for long histories.",
     ["versions.py", "memory_tree.py", "db_tree.py"], [("re-rooting and splitting at each addition", S + "versions.py:Versions.add"), ("get_split", S + "memory_tree.py:MemoryTree.get_split")],
     "explicit-state exploration of all histories up to a depth and every state of long ones, with reads recorded", "Complete up to the depth for all shapes; every state of up to 600 (3000) versions on 1-3 branches."),
    ("C23", "Version information matches what is stored",
     "For every version in a store, the reported information has the base that the version was added to; for a head, the size of its contents and no changes, and for another version, the number of parts and the amount of literal content of the change that is stored for it, which never is more than the version has. There is none for a version that was not added.",
     [HISTORIES], "all histories of additions, in every state",
     "Tests look at the information of a few versions after one history.",
     ["versions.py", "db_tree.py", "memory_tree.py"], [("version_info", S + "versions.py:Versions.version_info")],
     "explicit-state exploration of all histories up to a depth, compared with a reference model", "Complete up to the depth."),
    ("C24", "A database collection behaves like a dictionary",
     "A collection of byte strings kept in SQLite gives the same result, or raises KeyError in the same cases, as a dictionary for every sequence of operations (storing, replacing, deleting, popping, updating, clearing, lookup, iteration, length), for all text keys (that UTF-8 can encode) and byte values. Two collections in one database do not influence each other.",
     [HISTORIES, INPUTS], "all sequences of operations, keys and values",
     "Tests store and read a few items.",
     ["db_collections.py"], [("MutableMapping over a table", S + "db_collections.py:DBCollection")],
     "explicit-state exploration of all operation sequences up to a depth from every state, against a dict", "Complete up to the depth over the listed keys and values."),
    ("C25", "A storage error loses no other version",
     "If a single database statement or commit fails while a version is added, every version that was in the store before can still be retrieved exactly, with its base, and the store can still be extended. An addition that does not report an error has taken place.",
     [FAULTS, HISTORIES], "every statement and commit of every addition of every history, failing in turn",
     "Tests never make the database fail.",
     ["versions.py", "db_tree.py", "db_collections.py"], [("order of writes", S + "versions.py:Versions._add_edge"), ("transactions", S + "db_tree.py")],
     "exhaustive single-fault injection at every database operation of all histories up to a depth", "Complete for single faults up to the depth. Errors, not crashes: the constructors drop existing tables, so no persistence across restarts is offered."),
    ("C26", "What was stored is committed, whatever the connections are like",
     "When an operation on a database collection, a version store or a manifest returns, everything it did is committed: closing the connection loses nothing, and another connection sees it. Results of operations that follow one another are the same whether the factory of connections always gives the same connection, opens a new one to the same database for each use, or gives connections that commit each statement by themselves.",
     [HISTORIES, FAULTS], "all operations in all states, and all histories of additions, with each kind of connection factory",
     "Tests use one connection, which sees its own uncommitted changes.",
     ["db_collections.py", "db_tree.py", "versions.py", "manifest.py"], [("transactions of a collection", S + "db_collections.py"), ("transactions of a tree", S + "db_tree.py")],
     "explicit-state exploration of all operations and histories up to a depth on four kinds of connections, against a reference model and a store in memory", "Complete up to the depth, on one database and in one thread."),
    ("C27", "Manifests and their files are retrieved as added",
     "After any history of manifests, each of which adds files, changes some, drops some or shares versions between them, every manifest is retrieved exactly as it was added, with its base, and every version of every file it names has the contents it was added with. Adding a manifest does not change the caller's data.",
     [HISTORIES, INPUTS], "all histories of manifests over a set of files",
     "Tests add two or three manifests.",
     ["manifest.py", "versions.py"], [("add_manifest", S + "manifest.py:add_manifest")],
     "explicit-state exploration of all histories of manifests up to a depth, against a reference model", "Complete up to the depth for two files and three contents."),
    ("C28", "Line diffs show whole lines and lose nothing",
     "Turning any diff or merge into a line-oriented one keeps the text of each side exactly, except that one newline may be appended when a side does not end in one. Its changes consist of whole lines, are separated by text, each begin and end with a line that has an edit (blank lines at the end excepted), and each side of one, a tuple of texts and changes, only shows text of that side; without changes in the diff there are none in the line diff.",
     [INPUTS], "all diffs and merges of texts",
     "Tests convert a few diffs; newlines at the edges of changes can be arranged in many ways.",
     ["diff_to_lines.py"], [("accumulation of partial lines", S + "diff_to_lines.py:DiffAccumulator"), ("consolidation", S + "diff_to_lines.py:consolidate")],
     "exhaustive enumeration of diffs (as input sequences of the transducer) and of texts up to a size, run on the code", "Complete up to the bound."),
    ("C29", "Git-compatible markup can be resolved to either side",
     "A diff or merge written with git-compatible conflict markers can be parsed: each conflict has its three marker lines on lines of their own in the right order with the right names, and resolving all conflicts to one side gives the text of that side (with at most one newline added at the end). There is a conflict whenever the sides differ.",
     [INPUTS], "all diffs and merges of texts without marker-like lines",
     "Tests compare the markup of a few merges.",
     ["markup.py", "diff_to_lines.py"], [("marker placement", S + "markup.py:markup_stream"), ("line-wise conflicts", S + "diff_to_lines.py")],
     "exhaustive enumeration of diffs and texts up to a size, run on the code, output parsed back", "Complete up to the bound; texts with marker-like lines are excluded."),
    ("C30", "gaspra-merge writes the merge that its options ask for",
     "For any parent and two branch files and any combination of options, gaspra-merge writes exactly the merge at the chosen granularity, to the console or the given file (which may be one of the inputs): a merge without conflicts byte for byte, in git-compatible format one that resolves to either side, with --diff each branch's diff under its header and then the merge. Line endings and text are kept (inputs are UTF-8 or else Latin-1, output files UTF-8), and the input files are not changed. Calls with a missing file or wrong arguments fail, and change no file.",
     [INPUTS, CONFIGS], "all input files and all combinations of options",
     "No test runs the tool.",
     ["merge_tool.py", "markup.py", "diff_to_lines.py", "tokenizers.py", "merge.py"], [("merge_cli", S + "merge_tool.py:merge_cli"), ("get_text", S + "merge_tool.py:get_text")],
     "exhaustive enumeration of input files up to a size times all option combinations, tool run on scratch files, output parsed", "Complete up to the bound for all 64 option combinations. Conflicts written to a file without -g are marked up in an unspecified way and only compared on the console."),
    ("C31", "gaspra-diff writes the diff that its options ask for",
     "For any two files and any combination of options, gaspra-diff writes exactly the diff at the chosen granularity, to the console or the given file; in git-compatible format it resolves to either of the two files and does not depend on the color options. Equal files give the file itself; the input files are not changed. Calls with a missing file or wrong arguments fail, and change no file.",
     [INPUTS, CONFIGS], "all input files and all combinations of options",
     "No test runs the tool.",
     ["merge_tool.py", "markup.py", "diff_to_lines.py", "tokenizers.py"], [("diff_cli", S + "merge_tool.py:diff_cli"), ("get_text", S + "merge_tool.py:get_text")],
     "exhaustive enumeration of input files up to a size times all option combinations, tool run on scratch files, output parsed", "Complete up to the bound for all 32 option combinations."),
    ("C32", "Console output shows the text as it is, and colors the sides",
     "On the console, with or without colors, every printable character and newline of the texts is shown as it is, whatever it would mean in console markup, and no matter how long the line. With colors, the text not colored as deleted is exactly one side of the diff or merge and the text not colored as inserted is the other; deleted text, and only that, is struck out if and only if asked for.",
     [INPUTS, CONFIGS], "all texts of printable characters and newlines",
     "No test looks at console output of texts with markup characters, or at the styles.",
     ["markup.py", "merge_tool.py"], [("rich_escape", S + "markup.py:rich_escape"), ("console_writer", S + "markup.py:console_writer")],
     "exhaustive enumeration of texts over the markup characters up to a size, output decoded from terminal sequences", "Complete up to the bound; tabs and control characters are excluded."),
    ("C33", "The number of changes is not limited by the stack",
     "Diffs, patches, merges with and without conflicts, line diffs, searches, version histories and stored changes work for inputs with any number of changes: the depth of the call stack does not grow with the input.",
     [INPUTS], "all inputs; explored: all combinations of operation, kind of edit and arrangement of lengths",
     "Tests have few changes per diff; the depth of recursion shows only with hundreds.",
     ["changesets.py", "merge.py", "suffix_automaton.py", "multiple_strings.py", "diff_to_lines.py", "versions.py"], [("explicit stack instead of recursion", S + "changesets.py:find_changeset")],
     "exhaustive run of all (operation, edit, arrangement) combinations under a bound on stack frames", "All listed combinations with more repetitions than allowed frames."),
    ("C34", "Calls do not influence each other",
     "Each diff, merge, search, tokenizer, patch, manifest or version store gives the same results as it does alone in a new process, whatever other calls (on other data, tokenizers and stores) were made before, are consumed in turns with it, or run at the same time in another thread.",
     [SCHEDULES, HISTORIES], "all interleavings of the results of two lazily consumed calls, all histories of calls, all schedules of two threads",
     "Tests consume each result at once, one call after the other in one thread.",
     ["changesets.py", "merge.py", "tokenizers.py", "diff_to_lines.py", "markup.py", "suffix_automaton.py", "multiple_strings.py", "versions.py", "db_collections.py"], [("no state outside of the call", S + "tokenizers.py:diff")],
     "stateless exploration of all interleavings of result steps, and of all thread schedules with a bounded number of preemptions, on the real code under a controlled scheduler", "Complete for the listed pairs of tasks and preemption bounds (1 at every line; thorough: 1 at every bytecode, 2 at every call)."),
]

LEVELS = {"C25": "fault_enumeration", **{c: "model_checking" for c in ("C19", "C20", "C21", "C22", "C23", "C24", "C26", "C27", "C34")}}

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for pid, title, statement, over, text, why, files, mechanism, _, _ in TABLE:
            assert len(title) <= 80, title
            f.write(json.dumps({
                "id": pid, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": {"files": [S + x for x in files], "mechanism": [{"name": n, "where": w} for n, w in mechanism]},
            }) + "\n")
    checks = [
        {
            "property": row[0],
            "quick_cmd": f"./check {row[0]} quick",
            "thorough_cmd": f"./check {row[0]} thorough",
            "evidence_file": f"evidence/{row[0]}.json",
            "technique": row[8],
            "level": LEVELS.get(row[0], "exploration"),
            "level_note": row[9],
        }
        for row in TABLE
    ]
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c \"import rich, sqlite3, sys; sys.path.insert(0, '/repo/src'); import gaspra\"",
        "checks": checks,
        "not_applicable": NOT_APPLICABLE,
        "notes": "Every check runs the real code of /repo/src in place (pure Python, nothing to build) and enumerates its bounded space completely; nothing is sampled, so VERIF_SEED changes nothing but is recorded.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
