From a2e44af4b561456bfebe15ab505b4a55b7ee0773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 01/22] fix: merge of bytes no longer mixes str into conflicts

The empty side of a pending conflict was always the str "", so merging
bytes raised TypeError when the conflicts were joined.
---
 src/gaspra/merge.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gaspra/merge.py b/src/gaspra/merge.py
index 5598fa0..183c5ed 100644
--- a/src/gaspra/merge.py
+++ b/src/gaspra/merge.py
@@ -165,9 +165,9 @@ def flush_remaining(fragments0, fragments1, within_conflict):
     remaining = fragments0 or fragments1
     for item in reversed(remaining):
         if within_conflict and remaining == fragments0:
-            yield ConflictFragment(item.insert, "")
+            yield ConflictFragment(item.insert, item.insert[0:0])
         elif within_conflict:
-            yield ConflictFragment("", item.insert)
+            yield ConflictFragment(item.insert[0:0], item.insert)
         else:
             yield item
 
@@ -203,8 +203,8 @@ def pending_conflict(fragment0: InputType, fragment1: InputType):
     head0, tail0 = split_fragment(fragment0, min_length)
     head1, tail1 = split_fragment(fragment1, min_length)
 
-    from0 = head0.insert if head0 else ""
-    from1 = head1.insert if head1 else ""
+    from0 = head0.insert if head0 else fragment0.insert[0:0]
+    from1 = head1.insert if head1 else fragment1.insert[0:0]
 
     output = ConflictFragment(from0, from1)
     return output, tail0, tail1
-- 
2.43.0


From d1de86a5b65be1df645d93673d0ce8643a1d5e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 02/22] fix: attribute conflict sides to the right branch

When a change in the second branch covered unchanged text of the first
one, the two sides of the reported conflict were swapped.
---
 src/gaspra/merge.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gaspra/merge.py b/src/gaspra/merge.py
index 183c5ed..c966137 100644
--- a/src/gaspra/merge.py
+++ b/src/gaspra/merge.py
@@ -187,6 +187,10 @@ def process_fragments(fragment0, fragment1, within_conflict: bool):
 
     elif isinstance(fragment0, CopyFragment) and isinstance(fragment1, ChangeFragment):
         output, tail0, tail1 = copy_change(fragment0, fragment1)
+        # copy_change() puts the change first, but the change came from
+        # the second branch here.
+        if isinstance(output, ConflictFragment):
+            output = ConflictFragment(output.version2, output.version1)
 
     elif isinstance(fragment0, ChangeFragment) and isinstance(fragment1, CopyFragment):
         output, tail1, tail0 = copy_change(fragment1, fragment0)
-- 
2.43.0


From e330f24da0db93ecf0325ea7c4f4bc4a6b4c8e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 03/22] fix: tokenizers.merged() raised TypeError on every call

decode_changes() takes no transformer.
---
 src/gaspra/tokenizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index 357cb8b..2684d31 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -259,5 +259,5 @@ def merged(
     encoded_other = tokenizer.encode(other)
 
     changes = merge_token_sequence(encoded_parent, encoded_current, encoded_other)
-    merged = decode_changes(changes, tokenizer, transformer)
+    merged = transformer(decode_changes(changes, tokenizer))
     return merged
-- 
2.43.0


From b6e09205de308b5de3d493b1639183b66068f547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 04/22] fix: default tokenizer of diff() and merged() is not
 shared between calls

The default NullTokenizer remembers the type of its input, so a diff of
two str made every later diff of two bytes raise RuntimeError.
---
 src/gaspra/tokenizers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index 2684d31..9dbfb25 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -226,13 +226,16 @@ def decode_and_line_diff_changes(
     yield from to_line_diff(decoded_and_transformed)
 
 
-def diff(original, modified, tokenizer: Tokenizer = NullTokenizer()):
+def diff(original, modified, tokenizer: Tokenizer | None = None):
     """
     High level diff() call that optionally encodes the sequences to be
     compared, compares the sequences, decodes, and transforms the
     result.  This is the diff() function for most use cases.
 
     """
+    if tokenizer is None:
+        tokenizer = NullTokenizer()
+
     encoded_original = tokenizer.encode(original)
     encoded_modified = tokenizer.encode(modified)
 
@@ -245,7 +248,7 @@ def merged(
     parent,
     current,
     other,
-    tokenizer: Tokenizer = NullTokenizer(),
+    tokenizer: Tokenizer | None = None,
     transformer=lambda _: _,
 ):
     """
@@ -254,6 +257,9 @@ def merged(
     result.  This is the diff() function for most use cases.
 
     """
+    if tokenizer is None:
+        tokenizer = NullTokenizer()
+
     encoded_parent = tokenizer.encode(parent)
     encoded_current = tokenizer.encode(current)
     encoded_other = tokenizer.encode(other)
-- 
2.43.0


From ad0ee6342ff8f999a16257f61ca60e32c5538e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 05/22] fix: separators cannot be confused with tuple tokens

Separator was a named tuple, so Separator(0) was equal to a token (0,)
and find_lcs_multiple() reported matches that are not there.
---
 src/gaspra/types.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/types.py b/src/gaspra/types.py
index 0234675..d1a4cc4 100644
--- a/src/gaspra/types.py
+++ b/src/gaspra/types.py
@@ -1,5 +1,6 @@
 from collections.abc import Hashable, Iterable, Sequence
 from collections import namedtuple
+from dataclasses import dataclass
 from typing import TypeVar
 
 Token = Hashable
@@ -13,7 +14,13 @@ StringIterable = Iterable[str]
 BytesIterable = Iterable[bytes]
 TokenSequenceIterable = Iterable[TokenSequence]
 
-Separator = namedtuple("Separator", "index")
+
+# Not a named tuple: Separator(0) would be equal to a token (0,).
+@dataclass(frozen=True)
+class Separator:
+    index: int
+
+
 Change = namedtuple("Change", ["a", "b"])
 CommonSlice = namedtuple("Common", ["a_slice", "b_slice"])
 
-- 
2.43.0


From bb72074080a3a5aaf4ae82ef4fd4e13a93dad666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 06/22] fix: DBCollection is a MutableMapping

Versions uses get() of its collections, which DBCollection did not have,
so version_info() raised AttributeError.
---
 src/gaspra/db_collections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/db_collections.py b/src/gaspra/db_collections.py
index e0bc021..0f81210 100644
--- a/src/gaspra/db_collections.py
+++ b/src/gaspra/db_collections.py
@@ -1,3 +1,4 @@
+from collections.abc import MutableMapping
 from typing import Callable
 
 from sqlite3 import Connection
@@ -34,7 +35,7 @@ FROM {table}
 """
 
 
-class DBCollection:
+class DBCollection(MutableMapping):
     table: str
     connection_factory: Callable[[], Connection]
 
-- 
2.43.0


From 1c9d1f1cc0c4362124e99a449ff3d21640050ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 07/22] fix: a manifest can add files and share versions

add_manifest() raised KeyError for a file that the base manifest does
not have, and for a file whose base version already has a successor (as
when two files share a version and then diverge).
---
 src/gaspra/manifest.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gaspra/manifest.py b/src/gaspra/manifest.py
index c6400f2..3293d3a 100644
--- a/src/gaspra/manifest.py
+++ b/src/gaspra/manifest.py
@@ -21,11 +21,11 @@ def add_manifest(
 
     for name, tag in manifest.items():
         if tag not in versions:
-            versions.add(
-                tag,
-                contents[tag],
-                base_manifest[name] if base_manifest is not None else None,
-            )
+            base = base_manifest.get(name) if base_manifest is not None else None
+            # Only the head of a branch can be extended.
+            if base not in versions.head_version:
+                base = None
+            versions.add(tag, contents[tag], base)
 
     manifest_doc = manifest_to_doc(manifest)
     versions.add(
-- 
2.43.0


From af6ac62233568f747776772ec6ed751a7232d6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 08/22] fix: versions stored with LineTokenizer were corrupted

LineTokenizer encodes a fragment that ends a line with an additional
empty token, which shifted the slices of all changesets that followed.
---
 src/gaspra/versions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gaspra/versions.py b/src/gaspra/versions.py
index 987b5bd..896b20c 100644
--- a/src/gaspra/versions.py
+++ b/src/gaspra/versions.py
@@ -110,6 +110,10 @@ class Versions:
                 for c in stripped_changeset
             )
             encoded_patched = apply(encoded_stripped_changeset, encoded_patched)
+            # A fragment encoded by itself can have other tokens than it
+            # has within the version, so encode the version anew: the
+            # next changeset counts the tokens of the whole version.
+            encoded_patched = tokenizer.encode(tokenizer.decode(encoded_patched))
 
         return tokenizer.decode(encoded_patched)
 
-- 
2.43.0


From 15c4ccd49ffac8f73fd860f664e76c3ac517056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 09/22] fix: an add that fails does not break the version store

Adding a tag again replaced the version that others are stored as changes
to, so these could not be retrieved any more.  An unknown or superseded
base, or a version the tokenizer cannot encode, raised only after the
version was stored (in the first case as an additional head).
---
 src/gaspra/versions.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gaspra/versions.py b/src/gaspra/versions.py
index 896b20c..ff3e78d 100644
--- a/src/gaspra/versions.py
+++ b/src/gaspra/versions.py
@@ -32,6 +32,15 @@ class Versions:
     tokenizer_factory: Callable[[], Tokenizer] = NullTokenizer
 
     def add(self, tag: Hashable, version: bytes, existing_head: Hashable | None = None):
+        # Reject what cannot be added before anything is stored.  Storing a
+        # tag again would break the versions that are stored as changes to
+        # it, and only the head of a branch can be extended.
+        if tag in self.tree:
+            raise ValueError(f"Version already exists: {tag!r}")
+        if existing_head is not None and existing_head not in self.head_version:
+            raise KeyError(existing_head)
+        self.tokenizer_factory().encode(version)
+
         self.head_version[tag] = version
         self.tree.add(tag, existing_head)
 
-- 
2.43.0


From fc4571a4e10c401203814b3ac7b4a00154848ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 10/22] fix: a storage error while adding a version loses no
 other version

A version's changeset was replaced before it was moved to its new parent,
so an error in between (or in the metrics of the tree, which were in
separate transactions) left it with the changeset of another parent.
---
 src/gaspra/db_tree.py  | 23 ++++++++++-------------
 src/gaspra/versions.py | 11 ++++++++++-
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/gaspra/db_tree.py b/src/gaspra/db_tree.py
index ac4963d..8b8d3db 100644
--- a/src/gaspra/db_tree.py
+++ b/src/gaspra/db_tree.py
@@ -108,8 +108,9 @@ class DBTree:
                 ADD_CHILDx.format(x=child), (tag_rid, new_parent_rid)
             )
 
-        self._update_metrics(original_parent, original_parent_rid)
-        self._update_metrics(new_parent, new_parent_rid)
+            # The metrics belong to the same transaction.
+            self._update_metrics(connection, original_parent_rid)
+            self._update_metrics(connection, new_parent_rid)
 
     def get_split(self, tag: Hashable):
         return self.new_get_split(tag)
@@ -126,17 +127,13 @@ class DBTree:
                 depth += 1
         return tag, path
 
-    def _update_metrics(self, tag: str, tag_rid: int):
-        self._new_update_metrics(tag, tag_rid)
-
-    def _new_update_metrics(self, tag: str, tag_rid: int):
-        with self.connection_factory() as connection:
-            while tag_rid is not None:
-                _, parent_rid, height, size = connection.execute(
-                    GET_NODE_METRICS, (tag_rid,)
-                ).fetchone()
-                connection.execute(UPDATE_METRICS, (height, size, tag_rid))
-                tag_rid = parent_rid
+    def _update_metrics(self, connection: Connection, tag_rid: int | None):
+        while tag_rid is not None:
+            _, parent_rid, height, size = connection.execute(
+                GET_NODE_METRICS, (tag_rid,)
+            ).fetchone()
+            connection.execute(UPDATE_METRICS, (height, size, tag_rid))
+            tag_rid = parent_rid
 
     def old_get_split(self, tag: Hashable):
         with self.connection_factory() as connection:
diff --git a/src/gaspra/versions.py b/src/gaspra/versions.py
index ff3e78d..2b67b0c 100644
--- a/src/gaspra/versions.py
+++ b/src/gaspra/versions.py
@@ -88,12 +88,21 @@ class Versions:
         return changeset
 
     def _add_edge(self, parent_tag, child_tag, changeset):
+        previous = self.diffs.get(child_tag)
         self.diffs[child_tag] = serialize_changeset(changeset)
 
         # It's a spanning tree so a node can have only one
         # parent.  When adding an edge, the new parent
         # steals the child from any pre-existing parent.
-        self.tree.change_parent(child_tag, parent_tag)
+        try:
+            self.tree.change_parent(child_tag, parent_tag)
+        except BaseException:
+            # The child keeps its parent, so it needs its old changeset.
+            if previous is None:
+                del self.diffs[child_tag]
+            else:
+                self.diffs[child_tag] = previous
+            raise
 
         # Older tag is no longer at the head of a branch
         # so remove it from versions.
-- 
2.43.0


From 622616e286cd71bf6ec343919221a0dea17495dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 11/22] fix: --strikeout raised TypeError on every deletion

The strikeout markup was a function where a prefix and a suffix were
expected, and it was put into the module's own markup, which also broke
the merge that is shown after the diffs.
---
 src/gaspra/markup.py     | 13 ++++++++-----
 src/gaspra/merge_tool.py | 15 +++++++++------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index 29a9af6..f433678 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -38,12 +38,15 @@ COLORED_LEVEL1 = {
 }
 
 
-def strikeout_level0() -> str:
-    return "[dark_red strike]"
-
+STRIKEOUT_FROM_LEVEL0 = {
+    "prefix": lambda _: "[dark_red strike]",
+    "suffix": lambda _: "[/]",
+}
 
-def strikeout_level1() -> str:
-    return "[pink1 strike]"
+STRIKEOUT_FROM_LEVEL1 = {
+    "prefix": lambda _: "[pink1 strike]",
+    "suffix": lambda _: "[/]",
+}
 
 
 def show_header(print, header, markup={}):
diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index 2b3f55d..2c2c7c9 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -9,8 +9,8 @@ from gaspra.markup import (
     COLORED_LEVEL0,
     PLAIN_LEVEL1,
     COLORED_LEVEL1,
-    strikeout_level0,
-    strikeout_level1,
+    STRIKEOUT_FROM_LEVEL0,
+    STRIKEOUT_FROM_LEVEL1,
     markup_changes,
 )
 
@@ -152,13 +152,16 @@ def get_markup_style(arguments, allow_strikeout=True):
     else:
         level1 = COLORED_LEVEL1
 
-    markup = {"level0": level0, "level1": level1}
+    markup = copy.deepcopy({"level0": level0, "level1": level1})
 
+    # Don't replace the git markers, or the plain level1 markup of a file.
     if arguments.strikeout and allow_strikeout:
-        markup["level0"]["from"] = strikeout_level0
-        markup["level1"]["from"] = strikeout_level1
+        if not arguments.git_compatible:
+            markup["level0"]["from"] = STRIKEOUT_FROM_LEVEL0
+        if not arguments.output:
+            markup["level1"]["from"] = STRIKEOUT_FROM_LEVEL1
 
-    return copy.deepcopy(markup)
+    return markup
 
 
 def get_writer(arguments):
-- 
2.43.0


From a1dbb5f00ba9dc40bad3175d77472eedeb50112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 12/22] fix: end the line of a git-compatible header

With both -g and -d the header ran into the first line of the text.
---
 src/gaspra/markup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index f433678..8470e0a 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -21,6 +21,7 @@ GIT_MARKUP_LEVEL0 = {
     "into": {"prefix": lambda s: f"<<<<<<< {s}\n", "suffix": lambda _: ""},
     "from": {"prefix": lambda _: "", "suffix": lambda s: f">>>>>>> {s}\n"},
     "separator": "=======\n",
+    "header": {"prefix": "<<<", "suffix": ">>>\n"},
 }
 
 PLAIN_LEVEL1 = {
-- 
2.43.0


From 5e66bab9cb71f929649901a02f53d9de5f5ef488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 13/22] fix: text with backslashes is shown as it is on the
 console

A backslash before a bracket, or at the end of a marked-up fragment, made
rich take text for markup or markup for text ("\[a-z]" was shown as
"\").
---
 src/gaspra/markup.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index 8470e0a..d5db535 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -1,5 +1,6 @@
 from contextlib import contextmanager
 import io
+import re
 
 from rich.console import Console
 
@@ -7,7 +8,15 @@ from gaspra.types import Change
 
 
 def rich_escape(s):
-    return s.replace("[", r"\[")
+    def escape(match):
+        if match[0] == "[":
+            return r"\["
+        # Backslashes just before a bracket (possibly that of markup that
+        # follows `s`) would escape it.  Double them and make them part of
+        # an empty tag instead.
+        return 2 * match[0] + "[none][/none]"
+
+    return re.sub(r"\\+(?=\[|\Z)|\[", escape, s)
 
 
 COLORED_LEVEL0 = {
-- 
2.43.0


From a80929e7becf0157d18e4edb6ec54c0696c320b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 14/22] fix: no line wrapping and no emoji in the text on the
 console

Lines longer than 80 columns were broken when the output is a pipe, and
":smile:" in a text was replaced.
---
 src/gaspra/markup.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index d5db535..b6f0886 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -77,7 +77,12 @@ def file_writer(filename):
 
 @contextmanager
 def console_writer():
-    console = Console(force_terminal=None, highlight=False)
+    console = Console(
+        force_terminal=None,
+        highlight=False,
+        emoji=False,
+        soft_wrap=True,
+    )
 
     def print(s):
         console.print(s, end="")
-- 
2.43.0


From 0065951083e5145f2a65fa78645125fbdfcac6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 15/22] fix: file names with brackets are shown as they are by
 gaspra-merge

Only gaspra-diff escaped them (except in headers).
---
 src/gaspra/merge_tool.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index 2c2c7c9..6b3a9d8 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -133,9 +133,9 @@ def get_markup_function(arguments, escape, allow_strikeout=True):
             changeset,
             markup0=markup["level0"],
             markup1=markup["level1"],
-            name_into=os.path.basename(branch0),
-            name_from=os.path.basename(branch1),
-            header=os.path.basename(header) if header else None,
+            name_into=escape(os.path.basename(branch0)),
+            name_from=escape(os.path.basename(branch1)),
+            header=escape(os.path.basename(header)) if header else None,
             escape=escape,
         )
 
@@ -275,8 +275,8 @@ def diff_cli():
         display_function(
             writer,
             changes,
-            escape(modified_name),
-            escape(original_name),
+            modified_name,
+            original_name,
         )
 
 
-- 
2.43.0


From 0ad57cc2f91075b6e7494d5bc2fb24f0a4babd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 16/22] fix: gaspra-diff and gaspra-merge keep line endings

Files were read with newline translation, so a merge of files with CRLF
(or a lone CR) was written with LF, and files that differ only in their
line endings were shown as equal.
---
 src/gaspra/markup.py     | 2 +-
 src/gaspra/merge_tool.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index b6f0886..15e8bb6 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -69,7 +69,7 @@ def show_header(print, header, markup={}):
 
 @contextmanager
 def file_writer(filename):
-    file = open(filename, "wt", encoding="utf-8")
+    file = open(filename, "wt", encoding="utf-8", newline="")
 
     yield file.write, lambda _: _
     file.close()
diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index 6b3a9d8..1dce48e 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -284,11 +284,11 @@ def get_text(*filenames: str) -> tuple[str, ...]:
     data = []
     for filename in filenames:
         try:
-            with open(filename, "rt", encoding="utf-8") as f:
+            with open(filename, "rt", encoding="utf-8", newline="") as f:
                 data.append(f.read())
 
         except UnicodeDecodeError:
-            with open(filename, "rt", encoding="iso-8859-1") as f:
+            with open(filename, "rt", encoding="iso-8859-1", newline="") as f:
                 data.append(f.read())
 
     return tuple(data)
-- 
2.43.0


From ebbb5a2fef6a9cdd2265eb3c95fa06c3c2807729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 17/22] fix: diffs and merges with more than 1000 changes

The tree of changes was built and read recursively.  It gets as deep as
there are changes when the unchanged parts have the same length (as with
"1,2,3,..." and "1;2;3;..."), which raised RecursionError.
---
 src/gaspra/changesets.py | 109 +++++++++++++++++++++++++++------------
 1 file changed, 77 insertions(+), 32 deletions(-)

diff --git a/src/gaspra/changesets.py b/src/gaspra/changesets.py
index 9704f5b..bf22996 100644
--- a/src/gaspra/changesets.py
+++ b/src/gaspra/changesets.py
@@ -103,8 +103,24 @@ class Changeset:
     common_original: slice
     common_modified: slice
 
-    prefix: Changeset | ChangesetLeaf
-    suffix: Changeset | ChangesetLeaf
+    prefix: Changeset | ChangesetLeaf | None = None
+    suffix: Changeset | ChangesetLeaf | None = None
+
+    def _in_order(self) -> Iterable[Changeset | ChangesetLeaf]:
+        """Iterate over the tree from left to right.  It can be as deep
+        as the sequences are long, so this can't be recursive."""
+        ancestors = []
+        current = self
+        while True:
+            while isinstance(current, Changeset):
+                ancestors.append(current)
+                current = current.prefix
+            yield current
+            if not ancestors:
+                return
+            current = ancestors.pop()
+            yield current
+            current = current.suffix
 
     def _stream(
         self, original: str | TokenSequence
@@ -114,10 +130,12 @@ class Changeset:
         # Construction of the tree creates "empty" changesets.  Omit
         # those from the output stream.
 
-        yield from self.prefix._stream(original)
-        copy = original[self.common_original]
-        yield CopyFragment(insert=copy, length=len(copy))
-        yield from self.suffix._stream(original)
+        for node in self._in_order():
+            if isinstance(node, ChangesetLeaf):
+                yield from node._stream(original)
+            else:
+                copy = original[node.common_original]
+                yield CopyFragment(insert=copy, length=len(copy))
 
     def as_change_stream(self) -> ChangeIterable:
         """Produce a simple output stream containing changes.
@@ -128,9 +146,11 @@ class Changeset:
         different.  The simpler objects can returned to a caller without
         exposing the Change tree implementation."""
 
-        yield from self.prefix.as_change_stream()
-        yield CommonSlice(self.common_original, self.common_modified)
-        yield from self.suffix.as_change_stream()
+        for node in self._in_order():
+            if isinstance(node, ChangesetLeaf):
+                yield from node.as_change_stream()
+            else:
+                yield CommonSlice(node.common_original, node.common_modified)
 
     def as_diff_stream(self, original: str | TokenSequence) -> DiffIterable:
         """Produce a simpler output stream than _stream() suitable
@@ -141,19 +161,25 @@ class Changeset:
         different.  The simpler objects can returned to a caller without
         exposing the Change tree implementation."""
 
-        yield from self.prefix.as_diff_stream(original)
-        yield original[self.common_original]
-        yield from self.suffix.as_diff_stream(original)
+        for node in self._in_order():
+            if isinstance(node, ChangesetLeaf):
+                yield from node.as_diff_stream(original)
+            else:
+                yield original[node.common_original]
 
     def old_apply_forward(self, original: str | TokenSequence):
-        yield from self.prefix.old_apply_forward(original)
-        yield original[self.common_original]
-        yield from self.suffix.old_apply_forward(original)
+        for node in self._in_order():
+            if isinstance(node, ChangesetLeaf):
+                yield from node.old_apply_forward(original)
+            else:
+                yield original[node.common_original]
 
     def old_apply_reverse(self, modified: str | TokenSequence):
-        yield from self.prefix.old_apply_reverse(modified)
-        yield modified[self.common_modified]
-        yield from self.suffix.old_apply_reverse(modified)
+        for node in self._in_order():
+            if isinstance(node, ChangesetLeaf):
+                yield from node.old_apply_reverse(modified)
+            else:
+                yield modified[node.common_modified]
 
     # Exclude __str__ from coverage because it's only used for debugging.
     def __str__(self):  # pragma: no cover
@@ -216,6 +242,39 @@ def find_changeset(
     original_slice: slice = slice(0, None),
     modified_slice: slice = slice(0, None),
 ) -> Changeset | ChangesetLeaf:
+    root = _find_longest_common(original, modified, original_slice, modified_slice)
+
+    # The tree can be as deep as the sequences are long, so this can't
+    # be recursive.
+    pending = [(root, original_slice, modified_slice)]
+    while pending:
+        changeset, original_slice, modified_slice = pending.pop()
+        if isinstance(changeset, ChangesetLeaf):
+            continue
+
+        prefix_slices = (
+            slice(original_slice.start, changeset.common_original.start),
+            slice(modified_slice.start, changeset.common_modified.start),
+        )
+        suffix_slices = (
+            slice(changeset.common_original.stop, original_slice.stop),
+            slice(changeset.common_modified.stop, modified_slice.stop),
+        )
+        changeset.prefix = _find_longest_common(original, modified, *prefix_slices)
+        changeset.suffix = _find_longest_common(original, modified, *suffix_slices)
+        pending.append((changeset.prefix, *prefix_slices))
+        pending.append((changeset.suffix, *suffix_slices))
+
+    return root
+
+
+def _find_longest_common(
+    original: TokenSequence,
+    modified: TokenSequence,
+    original_slice: slice,
+    modified_slice: slice,
+) -> Changeset | ChangesetLeaf:
+    """Find a node of the changeset tree, without its children."""
     automaton_original = build(original[original_slice])
 
     common_offset_original, common_offset_modified, common_length = find_lcs(
@@ -239,21 +298,7 @@ def find_changeset(
             modified_slice.start + common_offset_modified + common_length,
         )
 
-        prefix = find_changeset(
-            original,
-            modified,
-            slice(original_slice.start, common_original.start),
-            slice(modified_slice.start, common_modified.start),
-        )
-        suffix = find_changeset(
-            original,
-            modified,
-            slice(common_original.stop, original_slice.stop),
-            slice(common_modified.stop, modified_slice.stop),
-        )
         changeset = Changeset(
-            prefix=prefix,
-            suffix=suffix,
             common_original=common_original,
             common_modified=common_modified,
         )
-- 
2.43.0


From 67ca72af4313755818b37b765686c3f58e2df5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 18/22] fix: an insertion next to a deletion stays with its own
 branch

---
 src/gaspra/merge.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/gaspra/merge.py b/src/gaspra/merge.py
index c966137..fd03d9a 100644
--- a/src/gaspra/merge.py
+++ b/src/gaspra/merge.py
@@ -279,14 +279,12 @@ def change_change(fragment0: ChangeFragment, fragment1: ChangeFragment):
 def has_composable_changes(fragment0, fragment1):
     # This is an edge case that showed up in testing. If one change is a
     # pure insertion (no deletion) and the other is a pure deletion (no
-    # insertion), they can be combined into a single conflict-free
-    # change.  It needs to be pushed back onto the input list to be
-    # processed properly One input sequence was [insert x/delete
-    # nothing][s] The other input sequence was [insert nothing/delete
-    # s]. These are transformed to the sequences 1) [s] and 2) [insert
-    # x/delete s] by pushing [insert x/delete s] back onto the input
-    # queue which has the affect of inserting 's' at position where 's'
-    # was.  See compose_changes() for how the changes are composed.
+    # insertion), they can be combined conflict-free.  One input
+    # sequence was [insert x/delete nothing][s].  The other input
+    # sequence was [insert nothing/delete s].  The insertion is output
+    # and the deletion is pushed back onto its own input list to be
+    # processed with whatever follows the insertion.  See
+    # compose_changes() for how the changes are composed.
 
     return (fragment0.length == 0 and len(fragment1.insert) == 0) or (
         len(fragment0.insert) == 0 and fragment1.length == 0
@@ -295,19 +293,9 @@ def has_composable_changes(fragment0, fragment1):
 
 def compose_changes(fragment0, fragment1):
     if fragment0.length == 0 and len(fragment1.insert) == 0:
-        tail1 = ChangeFragment(
-            fragment0.insert,
-            fragment1.delete,
-            fragment1.length,
-        )
-        return None, None, tail1
+        return fragment0, None, fragment1
     elif len(fragment0.insert) == 0 and fragment1.length == 0:
-        tail0 = ChangeFragment(
-            fragment1.insert,
-            fragment0.delete,
-            fragment0.length,
-        )
-        return None, tail0, None
+        return fragment1, fragment0, None
     else:  # pragma: no cover
         raise ValueError("Changes are not composable")
 
-- 
2.43.0


From 32ec676419f135628e27f12fe4ac2151c7cf3e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 19/22] fix: keep spaces at the end of long text on the console

Rich removes the spaces at the end of what it prints beyond the width of
the console, even without wrapping, so the words before and after them
were run together.
---
 src/gaspra/markup.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index 15e8bb6..a1d233e 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -1,6 +1,7 @@
 from contextlib import contextmanager
 import io
 import re
+import sys
 
 from rich.console import Console
 
@@ -82,6 +83,8 @@ def console_writer():
         highlight=False,
         emoji=False,
         soft_wrap=True,
+        # Even without wrapping, trailing spaces beyond the width are lost.
+        width=sys.maxsize,
     )
 
     def print(s):
-- 
2.43.0


From d296065b0aaef09e103142ccf74b17a3979c8c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:44 +0000
Subject: [PATCH 20/22] fix: refuse None as the tag of a version

Such a version was stored, but could not be retrieved, because None ends
the path to a version.
---
 src/gaspra/versions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gaspra/versions.py b/src/gaspra/versions.py
index 2b67b0c..fb2f130 100644
--- a/src/gaspra/versions.py
+++ b/src/gaspra/versions.py
@@ -37,6 +37,8 @@ class Versions:
         # it, and only the head of a branch can be extended.
         if tag in self.tree:
             raise ValueError(f"Version already exists: {tag!r}")
+        if tag is None:
+            raise ValueError("None is not a tag: it stands for no version")
         if existing_head is not None and existing_head not in self.head_version:
             raise KeyError(existing_head)
         self.tokenizer_factory().encode(version)
-- 
2.43.0


From 28525f4b8779c23e69d0cdcc5cdeafa4e34b6d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:56 +0000
Subject: [PATCH 21/22] fix: refuse contents that are not bytes before anything
 is stored

The error came after the version had been made a head, which then was not
connected to the version it was based on.
---
 src/gaspra/versions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gaspra/versions.py b/src/gaspra/versions.py
index fb2f130..ab54d56 100644
--- a/src/gaspra/versions.py
+++ b/src/gaspra/versions.py
@@ -41,6 +41,8 @@ class Versions:
             raise ValueError("None is not a tag: it stands for no version")
         if existing_head is not None and existing_head not in self.head_version:
             raise KeyError(existing_head)
+        if not isinstance(version, bytes):
+            raise TypeError(f"Contents must be bytes: {type(version).__name__}")
         self.tokenizer_factory().encode(version)
 
         self.head_version[tag] = version
-- 
2.43.0


From 2b658c85d82604daa22c235b6f859daf65498010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:55 +0000
Subject: [PATCH 22/22] fix: read each input of the tools once, so that none is
 lost when it is a pipe

get_text() opened a file again when it was not UTF-8.  A pipe (as from
process substitution) has no contents left by then.
---
 src/gaspra/merge_tool.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index 1dce48e..271c723 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -282,14 +282,12 @@ def diff_cli():
 
 def get_text(*filenames: str) -> tuple[str, ...]:
     data = []
-    for filename in filenames:
+    # What comes from a pipe can be read only once.
+    for content in get_bytes(*filenames):
         try:
-            with open(filename, "rt", encoding="utf-8", newline="") as f:
-                data.append(f.read())
-
+            data.append(content.decode("utf-8"))
         except UnicodeDecodeError:
-            with open(filename, "rt", encoding="iso-8859-1", newline="") as f:
-                data.append(f.read())
+            data.append(content.decode("iso-8859-1"))
 
     return tuple(data)
 
-- 
2.43.0

