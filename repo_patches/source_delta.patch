From 5aae8864c6d3621ec4f4e30a5caae2fddeba558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:00 +0000
Subject: [PATCH 001/166] fix: refused move of a node to another tree must not
 detach it from its parent

---
 udapi/core/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 3897c3a..c4aadfb 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -334,10 +334,10 @@ class Node(object):
         # Remove the current Node from the children of the old parent.
         # Forbid moving nodes from one tree to another using parent setter.
         if self._parent:
-            self._parent._children.remove(self)
             if self._parent._root is not new_parent._root:
                 raise ValueError('Cannot move nodes between trees with parent setter, '
                                  'use new_root.steal_nodes(nodes_to_be_moved) instead')
+            self._parent._children.remove(self)
         # Set the new parent.
         self._parent = new_parent
 
-- 
2.43.0


From ffbf6ef90a473d3c67c1ae9a4eb799e44335ed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:36 +0000
Subject: [PATCH 002/166] fix: steal_nodes must renumber the words which remain
 in the old tree

---
 udapi/core/root.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index abf36a7..095398f 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -292,6 +292,8 @@ class Root(Node):
             old_root.multiword_tokens = []
         else:
             old_root._descendants = [n for n in old_root._descendants if n not in nodes]
+            for (new_ord, remaining) in enumerate(old_root._descendants, 1):
+                remaining.ord = new_ord
             mwt = node.multiword_token
             for node in nodes:
                 if mwt:
-- 
2.43.0


From 6512ebe874f012438950a2a0550513193ef0a198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:11 +0000
Subject: [PATCH 003/166] fix: read.Conllu fix_cycles=1 must break also a
 self-loop (node attached to itself)

---
 udapi/block/read/conllu.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index b485c17..0881d43 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -197,8 +197,7 @@ class Conllu(BaseReader):
             if node is parent:
                 if self.fix_cycles:
                     logging.warning("Ignoring a cycle (attaching to the root instead):\n%s", node)
-                    node._parent = root
-                    root._children.append(node)
+                    parent = root
                 else:
                     raise ValueError(f"Detected a cycle: {node} attached to itself")
             elif node._children:
-- 
2.43.0


From 0660be5b2595320d6e222238d2a420d23a08dd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:11 +0000
Subject: [PATCH 004/166] fix: read.Conllu must reject a negative HEAD as out
 of range

---
 udapi/block/read/conllu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 0881d43..9f3ac41 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -191,6 +191,8 @@ class Conllu(BaseReader):
         # Set dependency parents (now, all nodes of the tree are created).
         for node_ord, node in enumerate(nodes[1:], 1):
             try:
+                if parents[node_ord] < 0:
+                    raise IndexError
                 parent = nodes[parents[node_ord]]
             except IndexError:
                 raise ValueError("Node %s HEAD is out of range (%d)" % (node, parents[node_ord]))
-- 
2.43.0


From 06d120c9b33525a837563306e7e4381e6bb69ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:54 +0000
Subject: [PATCH 005/166] fix: write.Conllu print_text=0 must not print the
 internal $TEXT placeholder

---
 udapi/block/write/conllu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index 2573b5a..8b7f427 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -38,6 +38,8 @@ class Conllu(BaseWriter):
                         comment_lines[i] = ' text = ' + tree.compute_text()
                     else:
                         comment_lines[i] = ' text = ' + tree.text.replace('\n', '').replace('\r', '').rstrip()
+                else:
+                    comment_lines[i] = None
             elif c_line == '$NEWDOC':
                 i_newdoc = i
                 if self.print_sent_id and tree.newdoc:
-- 
2.43.0


From 6ddd8334d7a564c36f3018529a0df69f9cb0943c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:54 +0000
Subject: [PATCH 006/166] fix: write.Conllu must not break comments on Unicode
 line separators

---
 udapi/block/write/conllu.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index 8b7f427..9b95063 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -25,7 +25,10 @@ class Conllu(BaseWriter):
 
         # If tree.comment contains placeholders $NEWDOC,...$TEXT, replace them with the actual
         # value of the attribute and make note on which line (i_*) they were present.
-        comment_lines = tree.comment.splitlines()
+        # Note that str.splitlines() would split the comments also on e.g. U+2028 or U+0085.
+        comment_lines = tree.comment.split('\n')
+        if comment_lines[-1] == '':
+            comment_lines.pop()
         i_newdoc, i_newpar, i_sent_id, i_text, i_global_entity = -1, -1, -1, -1, -1
         for i, c_line in enumerate(comment_lines):
             if c_line == '$SENT_ID':
-- 
2.43.0


From e8fae7ac7de1b51d1f195671981f26b018b4880d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:06 +0000
Subject: [PATCH 007/166] fix: write.Conllu must keep empty comment lines (#)

---
 udapi/block/write/conllu.py | 10 +++++-----
 udapi/core/root.py          |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index 9b95063..a687fc4 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -78,7 +78,7 @@ class Conllu(BaseWriter):
                 else:
                     while printed_i < i_newdoc:
                         printed_i += 1
-                        if comment_lines[printed_i]:
+                        if comment_lines[printed_i] is not None:
                             print('#' + comment_lines[printed_i])
                 ge = tree.document.meta.get('global.Entity')
                 if ge:
@@ -87,7 +87,7 @@ class Conllu(BaseWriter):
                     else:
                         while printed_i < i_global_entity:
                             printed_i += 1
-                            if comment_lines[printed_i]:
+                            if comment_lines[printed_i] is not None:
                                 print('#' + comment_lines[printed_i])
             if tree.newpar:
                 if i_newpar == -1:
@@ -95,20 +95,20 @@ class Conllu(BaseWriter):
                 else:
                     while printed_i < i_newpar:
                         printed_i += 1
-                        if comment_lines[printed_i]:
+                        if comment_lines[printed_i] is not None:
                             print('#' + comment_lines[printed_i])
             if i_sent_id == -1:
                 print('# sent_id = ' + tree.sent_id)
             else:
                 while printed_i < i_sent_id:
                     printed_i += 1
-                    if comment_lines[printed_i]:
+                    if comment_lines[printed_i] is not None:
                         print('#' + comment_lines[printed_i])
         if self.print_text and i_text == -1:
             print('# text = ' + (tree.compute_text() if tree.text is None else tree.text.replace('\n', '').replace('\r', '').rstrip()))
 
         for c_line in comment_lines[printed_i + 1:]:
-            if c_line:
+            if c_line is not None:
                 print('#' + c_line)
 
         # Special-purpose json_* comments should always be at the end of the comment block.
diff --git a/udapi/core/root.py b/udapi/core/root.py
index 095398f..e581ab9 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -224,8 +224,8 @@ class Root(Node):
 
     def add_comment(self, string):
         """Add a given `string` to `root.comment` separated by a newline and space."""
-        if self.comment is None:
-            self.comment = string
+        if not self.comment:
+            self.comment = " " + string
         else:
             self.comment = self.comment.rstrip() + "\n " + string
 
-- 
2.43.0


From b5c4069d236557d6e4aa5ca3a7c80d90b4837989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:18 +0000
Subject: [PATCH 008/166] fix: write.Conllu must not crash if the first comment
 is not to be printed (print_sent_id=0)

---
 udapi/block/write/conllu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index a687fc4..1a04724 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -68,7 +68,7 @@ class Conllu(BaseWriter):
         # keep them at their original position and print also all comment lines preceding them.
         # It they were missing, try to print them at the correct position.
         printed_i = -1
-        if comment_lines and comment_lines[0].startswith(' global.columns'):
+        if comment_lines and comment_lines[0] is not None and comment_lines[0].startswith(' global.columns'):
             printed_i += 1
             print('#' + comment_lines[printed_i])
         if self.print_sent_id:
-- 
2.43.0


From 98fcfe865584ca37fdd7e264e86045ba79fab0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:28 +0000
Subject: [PATCH 009/166] fix: read.Conllu must not crash on files without the
 final empty line or with a leading empty line

---
 udapi/block/read/conllu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 9f3ac41..e23bacc 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -88,7 +88,7 @@ class Conllu(BaseReader):
             # as s.split('\n\n') and this time is negligble
             # relative to the main CoNLL-U parsing in read_tree_from_lines().
             return [self.read_tree_from_lines(s.split('\n')) for s in
-                    re.split(r'\n\n+', self.filehandle.read()) if s]
+                    re.split(r'\n\n+', self.filehandle.read().strip('\n')) if s]
         # udapi.core.basereader takes care about the max_docs parameter.
         # However, we can make the loading much faster by not reading
         # the whole file if the user wants just first N documents.
-- 
2.43.0


From 2865f5f6cb24b6561821e7de3ce433899b052b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:28 +0000
Subject: [PATCH 010/166] fix: read.Conllu max_docs must not lose the last
 sentence nor crash on repeated empty lines

---
 udapi/block/read/conllu.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index e23bacc..e9a2527 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -1,4 +1,5 @@
 """"Conllu is a reader block for the CoNLL-U files."""
+import itertools
 import json
 import logging
 import re
@@ -93,17 +94,18 @@ class Conllu(BaseReader):
         # However, we can make the loading much faster by not reading
         # the whole file if the user wants just first N documents.
         trees, lines, loaded_docs = [], [], 0
-        for line in self.filehandle:
+        for line in itertools.chain(self.filehandle, ['']):
             line = line.rstrip()
             if line == '':
                 tree = self.read_tree_from_lines(lines)
                 lines = []
+                if tree is None:
+                    continue
                 if tree.newdoc:
                     if loaded_docs == self.max_docs:
                         return trees
                     loaded_docs += 1
-                if tree:
-                    trees.append(tree)
+                trees.append(tree)
             else:
                 lines.append(line)
         return trees
-- 
2.43.0


From 454c085eaf617df340460bcaa5671a2f991e34fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:28 +0000
Subject: [PATCH 011/166] fix: read.Conllu must not treat repeated empty lines
 as the end of file when reading tree by tree

---
 udapi/block/read/conllu.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index e9a2527..414589b 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -114,12 +114,17 @@ class Conllu(BaseReader):
         if self.filehandle is None:
             return None
         lines = []
-        for line in self.filehandle:
+        for line in itertools.chain(self.filehandle, ['']):
             line = line.rstrip()
             if line == '':
-                break
-            lines.append(line)
-        return self.read_tree_from_lines(lines)
+                # Blocks with no nodes (e.g. repeated empty lines) are skipped, as in read_trees().
+                root = self.read_tree_from_lines(lines)
+                if root is not None:
+                    return root
+                lines = []
+            else:
+                lines.append(line)
+        return None
 
     # pylint: disable=too-many-locals,too-many-branches,too-many-statements
     # Maybe the code could be refactored, but it is speed-critical,
-- 
2.43.0


From b55e882ca5e9d48116c35cffb37842e82537f1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:28 +0000
Subject: [PATCH 012/166] fix: read.Conllu must keep trailing whitespace also
 when reading tree by tree

---
 udapi/block/read/conllu.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 414589b..11a203c 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -95,8 +95,8 @@ class Conllu(BaseReader):
         # the whole file if the user wants just first N documents.
         trees, lines, loaded_docs = [], [], 0
         for line in itertools.chain(self.filehandle, ['']):
-            line = line.rstrip()
-            if line == '':
+            line = line.rstrip('\r\n')
+            if line.strip() == '':
                 tree = self.read_tree_from_lines(lines)
                 lines = []
                 if tree is None:
@@ -115,8 +115,8 @@ class Conllu(BaseReader):
             return None
         lines = []
         for line in itertools.chain(self.filehandle, ['']):
-            line = line.rstrip()
-            if line == '':
+            line = line.rstrip('\r\n')
+            if line.strip() == '':
                 # Blocks with no nodes (e.g. repeated empty lines) are skipped, as in read_trees().
                 root = self.read_tree_from_lines(lines)
                 if root is not None:
-- 
2.43.0


From 05ee06721dcac6db2127cce4c813c213cf058b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:28 +0000
Subject: [PATCH 013/166] fix: a document starting with the last sentence of a
 file must not continue with the next file

---
 udapi/core/basereader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index c3bcf91..5997035 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -216,7 +216,7 @@ class BaseReader(Block):
             while True:
                 root = self.filtered_read_tree()
                 if root is None:
-                    if (trees_loaded == 0 or self.merge) and self.files.has_next_file():
+                    if ((trees_loaded == 0 and not bundle) or self.merge) and self.files.has_next_file():
                         filehandle = self.next_filehandle()
                         logging.info(f"Reading {self.files.filename}")
                         continue
-- 
2.43.0


From 3e3aa4f111bfd77d2f7551f704304feca02e1deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:28 +0000
Subject: [PATCH 014/166] fix: split_docs and bundles_per_doc must keep all
 zones of the first bundle of a document together

---
 udapi/core/basereader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index 5997035..5816ca5 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -197,6 +197,9 @@ class BaseReader(Block):
                     if root._sent_id is not None:
                         bundle.bundle_id = root._sent_id.split('/', 1)[0]
                 bundle.add_tree(root)
+                # The following trees may belong to the same bundle.
+                if root._sent_id is not None:
+                    last_bundle_id = root._sent_id.split('/', 1)[0]
                 if root.newdoc:
                     self._docs_loaded += 1
                     if root.newdoc is not True:
-- 
2.43.0


From bd97f4df5b07558af6bba176a84afe80104cb987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:44 +0000
Subject: [PATCH 015/166] fix: max_docs must not count the documents starting
 with a buffered tree twice (or never)

---
 udapi/core/basereader.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index 5816ca5..d97a7b9 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -200,10 +200,8 @@ class BaseReader(Block):
                 # The following trees may belong to the same bundle.
                 if root._sent_id is not None:
                     last_bundle_id = root._sent_id.split('/', 1)[0]
-                if root.newdoc:
-                    self._docs_loaded += 1
-                    if root.newdoc is not True:
-                        document.meta["docname"] = root.newdoc
+                if root.newdoc and root.newdoc is not True:
+                    document.meta["docname"] = root.newdoc
                 document.meta['global.Entity'] = self._global_entity
                 document.meta['loaded_from'] = self.filename
 
@@ -233,7 +231,7 @@ class BaseReader(Block):
                     # e.g. when using files='!*.conllu' or bundles_per_doc, in which case we count the Udapi documents
                     # so even if the first tree in udapi.Document does not have newdoc, we count it as a new document.
                     # The cases where newdoc is used are checked further below.
-                    if not root.newdoc:
+                    if not root.newdoc and not bundle:
                         if self.max_docs and self._docs_loaded >= self.max_docs:
                             self.finished = True
                             return
@@ -260,6 +258,7 @@ class BaseReader(Block):
                     if self.max_docs and self._docs_loaded >= self.max_docs:
                         self.finished = True
                         return
+                    self._docs_loaded += 1
                     if not bundle and root.newdoc is not True:
                         document.meta["docname"] = root.newdoc
                     if bundle and self.split_docs:
@@ -269,11 +268,15 @@ class BaseReader(Block):
                                             len(orig_bundles))
                         self.finished = False
                         return
-                    self._docs_loaded += 1
 
                 # assign new/next bundle to `bundle` if needed
                 if not bundle or not add_to_the_last_bundle:
                     if self.bundles_per_doc and bundle and self.bundles_per_doc == bundle.number:
+                        if not root.newdoc:
+                            if self.max_docs and self._docs_loaded >= self.max_docs:
+                                self.finished = True
+                                return
+                            self._docs_loaded += 1
                         self._buffer = root
                         if orig_bundles:
                             logging.warning("bundles_per_doc=%d but the doc had contained %d bundles",
-- 
2.43.0


From e9a4c13a0f840467f0009817926be2e58bdfc334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:44 +0000
Subject: [PATCH 016/166] fix: a sentence without sent_id must not get the id
 of the previous sentence

---
 udapi/core/basereader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index d97a7b9..7c791c2 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -154,6 +154,8 @@ class BaseReader(Block):
                         root.zone = parts[1]
                     add_to_the_last_bundle = bundle_id == last_bundle_id
                     last_bundle_id = bundle_id
+                else:
+                    last_bundle_id = ''
                 if self.zone != 'keep':
                     root.zone = self.zone
 
@@ -249,6 +251,8 @@ class BaseReader(Block):
                         root.zone = parts[1]
                     add_to_the_last_bundle = bundle_id == last_bundle_id
                     last_bundle_id = bundle_id
+                else:
+                    last_bundle_id = ''
 
                 if self.zone != 'keep':
                     root.zone = self.zone
-- 
2.43.0


From 597b3a092371a0e9e14f4c29414cc596ccd4c451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:36 +0000
Subject: [PATCH 017/166] fix: ignore_sent_id must be respected also for
 documents starting with a buffered tree

---
 udapi/core/basereader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index 7c791c2..3bb3e85 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -198,10 +198,10 @@ class BaseReader(Block):
                     bundle = document.create_bundle()
                     if root._sent_id is not None:
                         bundle.bundle_id = root._sent_id.split('/', 1)[0]
-                bundle.add_tree(root)
                 # The following trees may belong to the same bundle.
                 if root._sent_id is not None:
                     last_bundle_id = root._sent_id.split('/', 1)[0]
+                bundle.add_tree(root)
                 if root.newdoc and root.newdoc is not True:
                     document.meta["docname"] = root.newdoc
                 document.meta['global.Entity'] = self._global_entity
-- 
2.43.0


From 020bcf6368d365f13ca8757ce54cedd0ccdae0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:36 +0000
Subject: [PATCH 018/166] fix: a reader must be finished after loading max_docs
 documents

---
 udapi/core/basereader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index 3bb3e85..513313a 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -167,6 +167,9 @@ class BaseReader(Block):
 
                 bundle.add_tree(root)
 
+            if self.max_docs and self._docs_loaded >= self.max_docs:
+                self.finished = True
+                return True
             self.next_filehandle()
             if self.filehandle is None:
                 self.finished = True
-- 
2.43.0


From e45e98b86a24836d023f864090b5c29a2e4b9258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:12 +0000
Subject: [PATCH 019/166] fix: feats and misc must be comparable with strings
 as documented

---
 udapi/core/dualdict.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/udapi/core/dualdict.py b/udapi/core/dualdict.py
index ba0129e..31e6f8c 100644
--- a/udapi/core/dualdict.py
+++ b/udapi/core/dualdict.py
@@ -91,6 +91,11 @@ class DualDict(collections.abc.MutableMapping):
         self._deserialize_if_empty()
         return self._dict.__contains__(key)
 
+    def __eq__(self, other):
+        if isinstance(other, str):
+            return str(self) == other
+        return super().__eq__(other)
+
     def clear(self):
         self._string = '_'
         self._dict.clear()
-- 
2.43.0


From 24049cab1af0f50e52d61a4332544fc41c889447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:12 +0000
Subject: [PATCH 020/166] fix: setdefault must store the default value in feats
 and misc

---
 udapi/core/dualdict.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/udapi/core/dualdict.py b/udapi/core/dualdict.py
index 31e6f8c..cc78dab 100644
--- a/udapi/core/dualdict.py
+++ b/udapi/core/dualdict.py
@@ -96,6 +96,12 @@ class DualDict(collections.abc.MutableMapping):
             return str(self) == other
         return super().__eq__(other)
 
+    def setdefault(self, key, default=None):
+        # The inherited implementation relies on KeyError, which is never raised by __getitem__.
+        if key not in self:
+            self[key] = default
+        return self[key]
+
     def clear(self):
         self._string = '_'
         self._dict.clear()
-- 
2.43.0


From 1a0d717290de96afff80cf081eb4c8f019f3cd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:12 +0000
Subject: [PATCH 021/166] fix: clearing mention.other must not create an
 attribute named _

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index aa27e6a..ace6578 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -1058,7 +1058,7 @@ class OtherDualDict(collections.abc.MutableMapping):
         return self._dict.__contains__(key)
 
     def clear(self):
-        self._string = '_'
+        self._string = ''
         self._dict.clear()
 
     def copy(self):
-- 
2.43.0


From 136db041b8cef4025af6f6f3f4b7678dffe633fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:12 +0000
Subject: [PATCH 022/166] fix: mention.other must allow setting attributes with
 no value (True)

---
 udapi/core/coref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index ace6578..49b1ade 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -1034,7 +1034,8 @@ class OtherDualDict(collections.abc.MutableMapping):
         if value is None or value == '':
             self.__delitem__(key)
         else:
-            value = value.replace(',', '%2C') # TODO report a warning? Escape also '|' and '-'?
+            if value is not True:
+                value = value.replace(',', '%2C') # TODO report a warning? Escape also '|' and '-'?
             self._dict[key] = value
 
     def __delitem__(self, key):
-- 
2.43.0


From 260ccefa7c6a8130bac261185ee30e781dc1ceab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:39 +0000
Subject: [PATCH 023/166] fix: assigning feats or misc (not deserialized yet)
 to itself must not lose its content

---
 udapi/core/coref.py    | 2 +-
 udapi/core/dualdict.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 49b1ade..1de7f9f 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -1081,7 +1081,7 @@ class OtherDualDict(collections.abc.MutableMapping):
             self._dict.clear()
             self._string = value
         elif isinstance(value, collections.abc.Mapping):
-            self._string = None
             self._dict = dict(value)
+            self._string = None
         else:
             raise ValueError("Unsupported value type " + str(value))
diff --git a/udapi/core/dualdict.py b/udapi/core/dualdict.py
index cc78dab..bde98e5 100644
--- a/udapi/core/dualdict.py
+++ b/udapi/core/dualdict.py
@@ -126,7 +126,7 @@ class DualDict(collections.abc.MutableMapping):
             self._dict.clear()
             self._string = value if value != '' else '_'
         elif isinstance(value, collections.abc.Mapping):
-            self._string = None
             self._dict = dict(value)
+            self._string = None
         else:
             raise ValueError("Unsupported value type " + str(value))
-- 
2.43.0


From eab7b104cd5ff2c7317817c19cf0ddc653ef74b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:31 +0000
Subject: [PATCH 024/166] fix: ten or more consecutive empty nodes (ords such
 as 1.10) must be supported

---
 udapi/core/node.py | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index c4aadfb..5863c0c 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -6,6 +6,7 @@ and function `find_minimal_common_treelet`.
 """
 import logging
 import functools
+import re
 
 import udapi.core.coref
 from udapi.block.write.textmodetrees import TextModeTrees
@@ -455,18 +456,13 @@ class Node(object):
         new_node.deps = [{'parent': self, 'deprel': deprel}]
         # self.enh_children.append(new_node) TODO
         # new_node.enh_parents.append(self) TODO
-        base_ord = self._ord if after else self._ord - 1
-        new_ord = base_ord + 0.1
+        major = _major_ord(self._ord) if after or self.is_empty() else self._ord - 1
+        new_ord = _empty_ord(major, _minor_ord(self._ord) + 1 if after else 1)
         for empty in self._root.empty_nodes:
             if empty._ord > new_ord:
                 break
             if empty._ord == new_ord:
-                if isinstance(new_ord, OrdTuple):
-                    new_ord.increase()
-                elif new_ord == base_ord + 0.9:
-                    new_ord = OrdTuple(base_ord, 10)
-                else:
-                    new_ord = round(new_ord+0.1, 1)
+                new_ord = _empty_ord(major, _minor_ord(new_ord) + 1)
         new_node._ord = new_ord
         if not self._root.empty_nodes or new_node > self._root.empty_nodes[-1]:
             self._root.empty_nodes.append(new_node)
@@ -1052,8 +1048,9 @@ class EmptyNode(Node):
     def ord(self, new_ord):
         """Empty node's ord setter accepts float and str."""
         if isinstance(new_ord, str):
-            self._ord = float(new_ord)
-        elif isinstance(new_ord, float):
+            minor = new_ord.partition('.')[2]
+            self._ord = OrdTuple(new_ord) if minor.isdigit() and int(minor) >= 10 else float(new_ord)
+        elif isinstance(new_ord, (float, OrdTuple)):
             self._ord = new_ord
         else:
             raise ValueError('Only str and float are allowed for EmptyNode ord setter,'
@@ -1104,7 +1101,7 @@ class OrdTuple:
         if isinstance(other, int):
             return False
         elif isinstance(other, float):
-            return self._key == (int(other), int(10*other - 10*int(other)))
+            return self._key == (_major_ord(other), _minor_ord(other))
         elif isinstance(other, OrdTuple):
             return self._key == other._key
         else:
@@ -1114,7 +1111,7 @@ class OrdTuple:
         if isinstance(other, int):
             return self._key < (other, 0)
         elif isinstance(other, float):
-            return self._key < (int(other), int(10*other - 10*int(other)))
+            return self._key < (_major_ord(other), _minor_ord(other))
         elif isinstance(other, OrdTuple):
             return self._key < other._key
         else:
@@ -1122,7 +1119,22 @@ class OrdTuple:
 
     def increase(self):
         """Increment the decimal part of this ord."""
-        self._key = (self.key[0], self._key[1]+1)
+        self._key = (self._key[0], self._key[1]+1)
+
+
+def _major_ord(any_ord):
+    """Return the integer part of an ord (of an empty or non-empty node)."""
+    return any_ord._key[0] if isinstance(any_ord, OrdTuple) else int(any_ord)
+
+
+def _minor_ord(any_ord):
+    """Return the part of an ord after the decimal dot (0 for non-empty nodes)."""
+    return any_ord._key[1] if isinstance(any_ord, OrdTuple) else round(10 * (any_ord - int(any_ord)))
+
+
+def _empty_ord(major, minor):
+    """Return the ord of an empty node, e.g. 1.9 as float and 1.10 as OrdTuple."""
+    return round(major + minor / 10, 1) if minor < 10 else OrdTuple(f"{major}.{minor}")
 
 
 # Implementation note on ListOfNodes
-- 
2.43.0


From 69d8fd76bbf9202029c37189db8a9307dbd73af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:31 +0000
Subject: [PATCH 025/166] fix: raw_deps must be up-to-date (_) also after
 removing all items from deps

---
 udapi/core/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 5863c0c..b74a6f4 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -252,8 +252,8 @@ class Node(object):
         # Afterwards, we can use the following optimization
         #if self._raw_deps is not None:
         #    return self._raw_deps
-        if self._deps:
-            self._raw_deps = '|'.join(f"{dep['parent']._ord}:{dep['deprel']}" for dep in self._deps)
+        if self._deps is not None:
+            self._raw_deps = '|'.join(f"{dep['parent']._ord}:{dep['deprel']}" for dep in self._deps) or '_'
         return self._raw_deps
 
     @raw_deps.setter
-- 
2.43.0


From 6282a64f28e0a7d0f43f9875ec3e7efd54920d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:31 +0000
Subject: [PATCH 026/166] fix: enhanced dependencies which cannot be
 deserialized must not be silently truncated

---
 udapi/core/node.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index b74a6f4..d4abc43 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -275,9 +275,10 @@ class Node(object):
         """
         if self._deps is None:
             # Create a list of secondary dependencies.
-            self._deps = list()
+            deps = list()
 
             if self._raw_deps == '_':
+                self._deps = deps
                 return self._deps
 
             # Obtain a list of all nodes in the dependency tree.
@@ -294,7 +295,8 @@ class Node(object):
                         raise ValueError(f'Empty node with ord={head} not found')
                 else:
                     parent = nodes[int(head)]
-                self._deps.append({'parent': parent, 'deprel': deprel})
+                deps.append({'parent': parent, 'deprel': deprel})
+            self._deps = deps
 
         return self._deps
 
-- 
2.43.0


From 4cb2d0ce330e6896d8048aafdad587aab3855aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 027/166] fix: removing an empty node must keep enhanced
 dependencies between the remaining nodes

---
 udapi/core/node.py | 17 ++++++++---------
 udapi/core/root.py | 19 +++++++++++++++++++
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index d4abc43..882769a 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1064,16 +1064,15 @@ class EmptyNode(Node):
 
     def remove(self):
         """Delete this empty node."""
-        to_reorder = [e for e in self._root.empty_nodes if e._ord > self._ord and e._ord < self.ord+1]
-        for empty in to_reorder:
-            empty._ord = round(empty._ord - 0.1, 1)
-        try:
-            self._root.empty_nodes.remove(self)
-        except ValueError:
+        if not any(empty is self for empty in self._root.empty_nodes):
             return # self may be an already deleted node e.g. if n.remove() called twice
-        for n in self._root.empty_nodes + self._root._descendants:
-            if n._deps:
-                n._deps = {(deprel, parent) for deprel, parent in n._deps if parent != self}
+        self._root._deserialize_all_deps()
+        self._root.empty_nodes.remove(self)
+        major, minor = _major_ord(self._ord), _minor_ord(self._ord)
+        for empty in self._root.empty_nodes:
+            if _major_ord(empty._ord) == major and _minor_ord(empty._ord) > minor:
+                empty._ord = _empty_ord(major, _minor_ord(empty._ord) - 1)
+        self._root._forget_deps_to([self])
 
 @functools.total_ordering
 class OrdTuple:
diff --git a/udapi/core/root.py b/udapi/core/root.py
index e581ab9..8e7ce4e 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -259,6 +259,25 @@ class Root(Node):
                 result.append(node)
         return result
 
+    def _deserialize_all_deps(self):
+        """Make sure all enhanced dependencies are stored as links to nodes.
+
+        This is needed before changing ords of any nodes in the tree,
+        because the ords in the serialized dependencies would become invalid.
+        """
+        for node in self._descendants + self.empty_nodes:
+            if node._deps is None and node._raw_deps not in ('_', None):
+                try:
+                    node.deps
+                except (ValueError, IndexError):
+                    logging.warning(f"Invalid enhanced dependencies {node._raw_deps} of {node}")
+
+    def _forget_deps_to(self, removed_nodes):
+        """Delete all (deserialized) enhanced dependencies with a parent among `removed_nodes`."""
+        for node in self._descendants + self.empty_nodes:
+            if node._deps:
+                node._deps = [dep for dep in node._deps if dep['parent'] not in removed_nodes]
+
     @property
     def descendants_and_empty(self):
         return sorted(self._descendants + self.empty_nodes)
-- 
2.43.0


From ef251985ac27bab15658fef2a1979d0ef6e45010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 028/166] fix: enhanced dependencies and empty nodes must keep
 their meaning after removing a word

---
 udapi/core/node.py | 39 ++++++++-------------------------------
 udapi/core/root.py | 32 +++++++++++++++++++++++++++++++-
 2 files changed, 39 insertions(+), 32 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 882769a..dba2852 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -527,6 +527,10 @@ class Node(object):
                 logging.warning('%s is being removed by remove(children=%s), '
                                 ' but it has (unexpected) children', self, children)
 
+        # Remember the position of empty nodes, so we can reorder them as well.
+        self._root._deserialize_all_deps()
+        empty_follows = self._root._empty_nodes_follow(self.unordered_descendants() + [self])
+
         # When self is the only node being removed, it is faster to root._descendants.remove(self)
         # and update the ords only where necessary (from self._ord further).
         # When removing also its children+descendants, it is faster to recompute root._descendants
@@ -539,43 +543,16 @@ class Node(object):
             else:
                 for (new_ord, node) in enumerate(self._root._descendants[self._ord - 1:], self._ord):
                     node.ord = new_ord
-                last_ord = 0
-                for empty in self._root.empty_nodes:
-                    if empty._ord > self._ord:
-                        new_ord = round(empty._ord - 1, 1)
-                        if new_ord <= last_ord:
-                            new_ord = round(last_ord + 0.1, 1)
-                        empty.ord = new_ord
-                    last_ord = empty._ord
+                # Make sure that e.g. after deleting node with ord=2
+                # ords "1 1.1 1.2 2 2.1" will become "1 1.1 1.2 1.3".
+                self._root._reorder_empty_nodes(empty_follows)
         else:
-            # Remember the position of empty nodes, so we can reorder them as well.
-            empty_follows = None
-            if self._root.empty_nodes:
-                will_be_removed = self if children and children.startswith('rehang') else self.descendants(add_self=1)
-                prev_nonempty = self._root
-                empty_follows = {}
-                for node in self._root.descendants_and_empty:
-                    if node.is_empty():
-                        empty_follows[node] = prev_nonempty
-                    elif node not in will_be_removed:
-                        prev_nonempty = node
-
             # TODO nodes_to_remove = self.unordered_descendants()
             # and mark all nodes as deleted, remove them from MWT and coref mentions
             self._root._descendants = sorted(self._root.unordered_descendants())
             for (new_ord, node) in enumerate(self._root._descendants, 1):
                 node.ord = new_ord
-            # Decrease ord of empty nodes (keep their fractional part)
-            # Make sure that e.g. after deleting node with ord=2
-            # ords "1 1.1 1.2 2 2.1" will become "1 1.1 1.2 1.3".
-            if empty_follows:
-                last_ord = 0
-                for empty in self._root.empty_nodes:
-                    prev_nonempty = empty_follows[empty]
-                    new_ord = round(prev_nonempty._ord + (empty._ord % 1), 1)
-                    while new_ord <= last_ord:
-                        new_ord = round(new_ord + 0.1, 1)
-                    last_ord, empty.ord = new_ord, new_ord
+            self._root._reorder_empty_nodes(empty_follows)
 
     def _shift_before_ord(self, reference_ord, without_children=False):
         """Internal method for changing word order."""
diff --git a/udapi/core/root.py b/udapi/core/root.py
index 8e7ce4e..953022d 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -1,7 +1,7 @@
 """Root class represents the technical root node in each tree."""
 import logging
 
-from udapi.core.node import Node, EmptyNode, ListOfNodes
+from udapi.core.node import Node, EmptyNode, ListOfNodes, _empty_ord, _minor_ord
 from udapi.core.mwt import MWT
 
 # 7 instance attributes is too low (CoNLL-U has 10 columns)
@@ -278,6 +278,36 @@ class Root(Node):
             if node._deps:
                 node._deps = [dep for dep in node._deps if dep['parent'] not in removed_nodes]
 
+    def _empty_nodes_follow(self, nodes):
+        """Remember the position of empty nodes before removing or moving `nodes`.
+
+        Return a list of pairs: an empty node and the closest preceding node (or this root)
+        which is not empty and not among `nodes`.
+        """
+        if not self.empty_nodes:
+            return []
+        follows, previous = [], self
+        for node in self.descendants_and_empty:
+            if node.is_empty():
+                follows.append((node, previous))
+            elif node not in nodes:
+                previous = node
+        return follows
+
+    @staticmethod
+    def _reorder_empty_nodes(follows):
+        """Set ords of empty nodes, so that they follow the nodes computed by _empty_nodes_follow().
+
+        The decimal part of each ord is kept, unless it would clash with the previous empty node.
+        """
+        last_major, last_minor = 0, 0
+        for (empty, previous) in follows:
+            major, minor = previous._ord, _minor_ord(empty._ord)
+            if major == last_major and minor <= last_minor:
+                minor = last_minor + 1
+            empty._ord = _empty_ord(major, minor)
+            last_major, last_minor = major, minor
+
     @property
     def descendants_and_empty(self):
         return sorted(self._descendants + self.empty_nodes)
-- 
2.43.0


From 893256c01ed0c8bc4628a0b319d9e520a904d703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 029/166] fix: empty nodes and enhanced dependencies must keep
 their meaning after changing word order

---
 udapi/core/node.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index dba2852..be23f50 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -557,10 +557,22 @@ class Node(object):
     def _shift_before_ord(self, reference_ord, without_children=False):
         """Internal method for changing word order."""
         all_nodes = self._root._descendants
-        empty_nodes = self._root.empty_nodes
+        nodes_to_move = [self] if without_children else self.descendants(add_self=True)
+        first_ord, last_ord = nodes_to_move[0]._ord, nodes_to_move[-1]._ord
+        if last_ord - first_ord + 1 == len(nodes_to_move) and first_ord <= reference_ord <= last_ord + 1:
+            return # already there
+        self._root._deserialize_all_deps()
+        empty_follows = self._root._empty_nodes_follow(nodes_to_move)
+        self._shift_nonempty(all_nodes, nodes_to_move, reference_ord)
+        # Empty nodes keep their position relative to the nodes which were not moved.
+        self._root._reorder_empty_nodes(empty_follows)
+        self._parent._children.sort()
+
+    def _shift_nonempty(self, all_nodes, nodes_to_move, reference_ord):
+        """Internal method for moving `nodes_to_move` before the position `reference_ord`."""
 
         # Moving a single node can be faster than nodes_to_move = [self]
-        if without_children or not self._children:
+        if len(nodes_to_move) == 1:
             my_ord = self._ord
             if reference_ord > my_ord + 1:
                 for i_ord in range(my_ord, reference_ord - 1):
@@ -568,26 +580,14 @@ class Node(object):
                     all_nodes[i_ord - 1]._ord = i_ord
                 all_nodes[reference_ord - 2] = self
                 self._ord = reference_ord - 1
-                for en in empty_nodes:
-                    if en._ord > my_ord and en._ord < reference_ord:
-                        en._ord -= 1
             elif reference_ord < my_ord:
                 for i_ord in range(my_ord, reference_ord, -1):
                     all_nodes[i_ord - 1] = all_nodes[i_ord - 2]
                     all_nodes[i_ord - 1]._ord = i_ord
                 all_nodes[reference_ord - 1] = self
                 self._ord = reference_ord
-                for en in empty_nodes:
-                    # Empty nodes before the first overt token (ID=0.X) will be never moved this way.
-                    # We cannot know whether the caller wanted to place the shifted node before or after them.
-                    if en._ord < my_ord and en._ord > reference_ord:
-                        en._ord += 1
-            self._parent._children.sort()
             return
 
-        #TODO: Updating ords of empty nodes is implemented only for the simple case above,
-        # but it has to be implemented also for the complex case below!
-        nodes_to_move = self.descendants(add_self=True)
         first_ord, last_ord = nodes_to_move[0]._ord, nodes_to_move[-1]._ord
 
         # If there are no "gaps" in nodes_to_move (e.g. when it is projective),
@@ -610,7 +610,6 @@ class Node(object):
             for node in nodes_to_move:
                 all_nodes[trg_ord - 1], node._ord = node, trg_ord
                 trg_ord += 1
-            self._parent._children.sort()
             return
 
         # First, move a node from position src_ord to position trg_ord RIGHT-ward.
@@ -644,7 +643,6 @@ class Node(object):
         for node in nodes_to_move:
             all_nodes[trg_ord - 1], node._ord = node, trg_ord
             trg_ord += 1
-        self._parent._children.sort()
 
     def shift_after_node(self, reference_node, without_children=False, skip_if_descendant=False):
         """Shift this node after the reference_node."""
-- 
2.43.0


From 8873307e9ce28c906aef6ae3ce0fe098ed4a41b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:15 +0000
Subject: [PATCH 030/166] fix: node.remove() must not leave the removed words
 in multi-word tokens and enhanced dependencies

---
 udapi/core/mwt.py  |  8 +++++++-
 udapi/core/node.py | 11 ++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/udapi/core/mwt.py b/udapi/core/mwt.py
index 3cc95ca..ed7c360 100644
--- a/udapi/core/mwt.py
+++ b/udapi/core/mwt.py
@@ -43,6 +43,13 @@ class MWT(object):
             word._mwt = None  # pylint: disable=W0212
         self.root.multiword_tokens.remove(self)
 
+    def _remove_word(self, word):
+        """Delete a word (which is being removed from the tree) from this multi-word token."""
+        self.words.remove(word)
+        word._mwt = None  # pylint: disable=W0212
+        if not self.words:
+            self.root.multiword_tokens.remove(self)
+
     def address(self):
         """Full (document-wide) id of the multi-word token."""
         return self.root.address + '#' + self.ord_range
@@ -61,7 +68,6 @@ class MWT(object):
         """Boolean property as a shortcut for `node.misc["SpaceAfter"] == "No"`."""
         return self.misc["SpaceAfter"] == "No"
 
-# TODO: node.remove() should check if the node is not part of any MWT
 # TODO: Document that editing words by mwt.words.append(node), del or remove(node) is not supported
 # TODO: Make mwt._words private and provide a setter
 # TODO: What to do when mwt.words = []? (It is allowed after mwt=MWT().)
diff --git a/udapi/core/node.py b/udapi/core/node.py
index be23f50..ad54093 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -528,8 +528,9 @@ class Node(object):
                                 ' but it has (unexpected) children', self, children)
 
         # Remember the position of empty nodes, so we can reorder them as well.
+        nodes_to_remove = self.unordered_descendants() + [self]
         self._root._deserialize_all_deps()
-        empty_follows = self._root._empty_nodes_follow(self.unordered_descendants() + [self])
+        empty_follows = self._root._empty_nodes_follow(nodes_to_remove)
 
         # When self is the only node being removed, it is faster to root._descendants.remove(self)
         # and update the ords only where necessary (from self._ord further).
@@ -547,13 +548,17 @@ class Node(object):
                 # ords "1 1.1 1.2 2 2.1" will become "1 1.1 1.2 1.3".
                 self._root._reorder_empty_nodes(empty_follows)
         else:
-            # TODO nodes_to_remove = self.unordered_descendants()
-            # and mark all nodes as deleted, remove them from MWT and coref mentions
+            # TODO mark all nodes_to_remove as deleted, remove them from coref mentions
             self._root._descendants = sorted(self._root.unordered_descendants())
             for (new_ord, node) in enumerate(self._root._descendants, 1):
                 node.ord = new_ord
             self._root._reorder_empty_nodes(empty_follows)
 
+        self._root._forget_deps_to(nodes_to_remove)
+        for node in nodes_to_remove:
+            if node._mwt is not None:
+                node._mwt._remove_word(node)
+
     def _shift_before_ord(self, reference_ord, without_children=False):
         """Internal method for changing word order."""
         all_nodes = self._root._descendants
-- 
2.43.0


From e010efd8af2087bce818bd413560b70d55c65708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:15 +0000
Subject: [PATCH 031/166] fix: mwt.address() must not crash

---
 udapi/core/mwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/mwt.py b/udapi/core/mwt.py
index ed7c360..4484570 100644
--- a/udapi/core/mwt.py
+++ b/udapi/core/mwt.py
@@ -52,7 +52,7 @@ class MWT(object):
 
     def address(self):
         """Full (document-wide) id of the multi-word token."""
-        return self.root.address + '#' + self.ord_range
+        return self.root.address() + '#' + self.ord_range
 
     @staticmethod
     def is_mwt():
-- 
2.43.0


From cfb00490275a04084fa5e87b14a6a86f59d0966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:15 +0000
Subject: [PATCH 032/166] fix: EmptyNode.shift must raise NotImplementedError

---
 udapi/core/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index ad54093..4073f12 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1040,7 +1040,7 @@ class EmptyNode(Node):
 
     def shift(self, reference_node, after=0, move_subtree=0, reference_subtree=0):
         """Attempts at changing the word order of EmptyNode result in NotImplemented exception."""
-        raise NotImplemented('Empty nodes cannot be re-order using shift* methods yet.')
+        raise NotImplementedError('Empty nodes cannot be re-order using shift* methods yet.')
 
     def remove(self):
         """Delete this empty node."""
-- 
2.43.0


From 07bee7da02fcd256eec05b246f81a353d4ae4e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 033/166] fix: words of multi-word tokens must stay sorted
 after changing word order

---
 udapi/core/mwt.py  | 1 -
 udapi/core/node.py | 2 ++
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/core/mwt.py b/udapi/core/mwt.py
index 4484570..d74781b 100644
--- a/udapi/core/mwt.py
+++ b/udapi/core/mwt.py
@@ -73,5 +73,4 @@ class MWT(object):
 # TODO: What to do when mwt.words = []? (It is allowed after mwt=MWT().)
 # TODO: words.setter and node.shift* should check if the MWT does not contain gaps
 #       and is still multi-word
-# TODO: Make sure mwt.words are always sorted (even after node.shift*).
 # TODO: Check if one word is not included in multiple multi-word tokens.
diff --git a/udapi/core/node.py b/udapi/core/node.py
index 4073f12..5c3bd1a 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -572,6 +572,8 @@ class Node(object):
         # Empty nodes keep their position relative to the nodes which were not moved.
         self._root._reorder_empty_nodes(empty_follows)
         self._parent._children.sort()
+        for mwt in self._root._mwts:
+            mwt.words.sort()
 
     def _shift_nonempty(self, all_nodes, nodes_to_move, reference_ord):
         """Internal method for moving `nodes_to_move` before the position `reference_ord`."""
-- 
2.43.0


From 121824843cc0da41260944ad45de8133bf155bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:26 +0000
Subject: [PATCH 034/166] fix: ud.RemoveMwt must remove all multi-word tokens,
 not every other

---
 udapi/block/ud/removemwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/removemwt.py b/udapi/block/ud/removemwt.py
index 99c37b4..80615b5 100644
--- a/udapi/block/ud/removemwt.py
+++ b/udapi/block/ud/removemwt.py
@@ -6,7 +6,7 @@ class RemoveMwt(Block):
     """Substitute MWTs with one word representing the whole MWT."""
 
     def process_tree(self, root):
-        for mwt in root.multiword_tokens:
+        for mwt in list(root.multiword_tokens):
             words = mwt.words
             words[0].form = mwt.form
             words[0].misc = mwt.misc
-- 
2.43.0


From 6e7fb002acb0be85d79981095010e1f65fbc4200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:26 +0000
Subject: [PATCH 035/166] fix: create_multiword_token must work also if the
 words are not given in the word order

---
 udapi/core/mwt.py  | 2 +-
 udapi/core/root.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/core/mwt.py b/udapi/core/mwt.py
index d74781b..412c8d3 100644
--- a/udapi/core/mwt.py
+++ b/udapi/core/mwt.py
@@ -7,7 +7,7 @@ class MWT(object):
     __slots__ = ['words', 'form', '_misc', 'root']
 
     def __init__(self, words=None, form=None, misc=None, root=None):
-        self.words = words if words is not None else []
+        self.words = sorted(words) if words is not None else []
         self.form = form
         self._misc = DualDict(misc) if misc and misc != '_' else None
         self.root = root
diff --git a/udapi/core/root.py b/udapi/core/root.py
index 953022d..cc02c09 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -178,6 +178,7 @@ class Root(Node):
         """
         # Nested or overlapping MWTs are not allowed in CoNLL-U,
         # so first remove all previous MWTs containing any of words.
+        words = sorted(words)
         for w in words:
             if w.multiword_token:
                 w.multiword_token.remove()
-- 
2.43.0


From e00afb7b8bf7d26b0e9ee2315f875b304c567d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:29 +0000
Subject: [PATCH 036/166] fix: loading mentions with a field preceding the
 other field in global.Entity must not crash

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 1de7f9f..7b1fbf3 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -664,7 +664,7 @@ def load_coref_from_misc(doc, strict=True):
                     elif name == 'other':
                         if other:
                             new_other = OtherDualDict(value)
-                            for k,v in other.values():
+                            for k,v in other.items():
                                 new_other[k] = v
                             other = new_other
                         else:
-- 
2.43.0


From 75e00160d0b9ae5ad334e0e331d92e2aede77d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:29 +0000
Subject: [PATCH 037/166] fix: storing coreference must not delete attributes
 such as head or etype from the other field

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 7b1fbf3..5e8ef04 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -784,7 +784,7 @@ def store_coref_to_misc(doc):
 
     fields = global_entity.split('-')
     # GRP and entity are legacy names for eid and etype, respectively.
-    other_fields = [f for f in fields if f not in ('eid etype head other GRP entity'.split(), )]
+    other_fields = [f for f in fields if f not in 'eid etype head other GRP entity'.split()]
 
     attrs = "Entity SplitAnte Bridge".split()
     for node in doc.nodes_and_empty:
-- 
2.43.0


From 9018e19060bbd3905f6bf63de92125fc53e60851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:29 +0000
Subject: [PATCH 038/166] fix: storing coreference must delete the old
 annotation also if no entities are left

---
 udapi/core/coref.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 5e8ef04..64b7c7e 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -769,6 +769,14 @@ def load_coref_from_misc(doc, strict=True):
 
 
 def store_coref_to_misc(doc):
+    if doc._eid_to_entity is None:
+        return
+
+    attrs = "Entity SplitAnte Bridge".split()
+    for node in doc.nodes_and_empty:
+        for attr in attrs:
+            del node.misc[attr]
+
     if not doc._eid_to_entity:
         return
 
@@ -786,11 +794,6 @@ def store_coref_to_misc(doc):
     # GRP and entity are legacy names for eid and etype, respectively.
     other_fields = [f for f in fields if f not in 'eid etype head other GRP entity'.split()]
 
-    attrs = "Entity SplitAnte Bridge".split()
-    for node in doc.nodes_and_empty:
-        for attr in attrs:
-            del node.misc[attr]
-
     # Convert each subspan of each discontinuous mention into a fake CorefMention instance,
     # so that we can sort both real and fake mentions and process them in the correct order.
     doc_mentions = []
-- 
2.43.0


From cc39fecec811b6be987646174784cc5f4e788bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:29 +0000
Subject: [PATCH 039/166] fix: storing Bridge and SplitAnte of entities with
 several deleted antecedents or no mentions

---
 udapi/core/coref.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 64b7c7e..a88fc9d 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -525,7 +525,7 @@ class BridgingLinks(collections.abc.MutableSequence):
         return [link.target for link in self._data]
 
     def _delete_targets_without_mentions(self, warn=True):
-        for link in self._data:
+        for link in list(self._data):
             if not link.target.mentions:
                 if warn:
                     logging.warning(f"Entity {link.target.eid} has no mentions, but is referred to in bridging of {self.src_mention.entity.eid}")
@@ -896,6 +896,7 @@ def store_coref_to_misc(doc):
         # Bridge=e1<e5:subset,e2<e6:subset|Entity=(e5(e6
         if mention._bridging:
             mention._bridging._delete_targets_without_mentions()
+        if mention._bridging:
             str_bridge = str(mention._bridging)
             if firstword.misc['Bridge']:
                 str_bridge = firstword.misc['Bridge'] + ',' + str_bridge
@@ -904,13 +905,16 @@ def store_coref_to_misc(doc):
     # SplitAnte=e5<e61,e10<e61
     for entity in doc.coref_entities:
         if entity.split_ante:
-            for ante_entity in entity.split_ante:
+            for ante_entity in list(entity.split_ante):
                 if not ante_entity.mentions:
                     logging.warning(f"Entity {ante_entity.eid} has no mentions, but is referred to in SplitAnte of {entity.eid}")
                     entity.split_ante.remove(ante_entity)
             if not entity.split_ante or len(entity.split_ante) < 2:
                 logging.warning(f"SplitAnte of {entity.eid} has less than two antecedents, omitting")
                 continue
+            if not entity.mentions:
+                logging.warning(f"Entity {entity.eid} has no mentions, omitting its SplitAnte")
+                continue
             first_word = entity.mentions[0].words[0]
             if tree2docid:
                 strs = ','.join(f'{sa.eid_or_grp}<{entity.eid_or_grp}' for sa in entity.split_ante)
-- 
2.43.0


From e1e72a09557929524124549dfa7cb1b6fc1d7ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:29 +0000
Subject: [PATCH 040/166] fix: mention.bridging must return the same object
 even if it is empty

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index a88fc9d..a118e41 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -213,7 +213,7 @@ class CorefMention(object):
 
     @property
     def bridging(self):
-        if not self._bridging:
+        if self._bridging is None:
             self._bridging = BridgingLinks(self)
         return self._bridging
 
-- 
2.43.0


From 17dd06cd0eee485778b7908f285668a1cfcdea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:29 +0000
Subject: [PATCH 041/166] fix: iterating over and filtering bridging links must
 work as documented

---
 udapi/core/coref.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index a118e41..71d0df9 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -417,6 +417,9 @@ class BridgingLink:
         self.target = target
         self.relation = '' if relation is None else relation
 
+    def __iter__(self):
+        return iter((self.target, self.relation))
+
     def __lt__(self, another):
         if self.target == another.target:
             return self.relation < another.relation
@@ -517,7 +520,12 @@ class BridgingLinks(collections.abc.MutableSequence):
         """
         if relations_re is None:
             return self
-        return BridgingLinks(self.src_mention, [l for l in self._data if re.match(relations_re, l.relation)])
+        attached = self.src_mention._bridging
+        result = BridgingLinks(self.src_mention, strict=self.strict)
+        result._data = [l for l in self._data if re.match(relations_re, l.relation)]
+        # The result is just a filtered view, don't attach it to the mention.
+        self.src_mention._bridging = attached
+        return result
 
     @property
     def targets(self):
-- 
2.43.0


From daeb898999fa77a79fec55d5d7484bcc40de2555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:29 +0000
Subject: [PATCH 042/166] fix: mentions of an entity and of a word must stay
 sorted after changing mention.words

---
 udapi/core/coref.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 71d0df9..09d8570 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -247,7 +247,11 @@ class CorefMention(object):
                     new_word._mentions.append(self)
                 else:
                     new_word._mentions.append(self)
-                    new_word._mentions.sort()
+        # The changed span may affect the ordering of mentions.
+        for word in new_words:
+            word._mentions.sort()
+        if self._entity is not None:
+            self._entity._mentions.sort()
 
     @property
     def span(self):
-- 
2.43.0


From 4bfb0210818a6cfc1d164541753dec812d053cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 043/166] fix: span_to_nodes must distinguish empty nodes such
 as 1.1 and 1.10

---
 udapi/core/coref.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 09d8570..120a695 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -936,14 +936,20 @@ def store_coref_to_misc(doc):
                 strs = first_word.misc['SplitAnte'] + ',' + strs
             first_word.misc['SplitAnte'] = strs
 
+def _ord_key(any_ord):
+    # Ords of empty nodes must not be compared as floats: 1.10 is not 1.1.
+    major, _, minor = str(any_ord).partition('.')
+    return int(major), int(minor or 0)
+
+
 def span_to_nodes(root, span):
     ranges = []
     for span_str in span.split(','):
         try:
             if '-' not in span_str:
-                lo = hi = float(span_str)
+                lo = hi = _ord_key(span_str)
             else:
-                lo, hi = (float(x) for x in span_str.split('-'))
+                lo, hi = (_ord_key(x) for x in span_str.split('-'))
         except ValueError as e:
             raise ValueError(f"Cannot parse '{span}': {e}")
         ranges.append((lo, hi))
@@ -957,7 +963,7 @@ def span_to_nodes(root, span):
                 return True
         return False
 
-    return [w for w in root.descendants_and_empty if _num_in_ranges(w.ord)]
+    return [w for w in root.descendants_and_empty if _num_in_ranges(_ord_key(w.ord))]
 
 
 def nodes_to_span(nodes):
-- 
2.43.0


From cd090cdfcac313cb55d9a4b5d6c2d3ac9d64fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 044/166] fix: loading discontinuous mentions without head
 index ending with a single-word part must not crash

---
 udapi/core/coref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 120a695..c6df56d 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -716,7 +716,8 @@ def load_coref_from_misc(doc, strict=True):
                         if m is not mention:
                             _error(f"{node}: closing mention {mention.entity.eid} ({mention.words}), but it has an unfinished nested mention ({m.words})", 1)
                         try:
-                            mention.head = mention._words[head_idx - 1]
+                            if head_idx:
+                                mention.head = mention._words[head_idx - 1]
                         except IndexError as err:
                             _error(f"Invalid head_idx={head_idx} for {mention.entity.eid} "
                                     f"closed at {node} with words={mention._words}", 1)
-- 
2.43.0


From 854799b3cdcac7b2437fc30b6cccd6566ee2f6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:10 +0000
Subject: [PATCH 045/166] fix: loading a discontinuous mention nested in a gap
 of another discontinuous mention of the same entity

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index c6df56d..d598ee3 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -709,7 +709,7 @@ def load_coref_from_misc(doc, strict=True):
 
                 if subspan_idx and subspan_idx != '1':
                     opened = [pair[0] for pair in unfinished_mentions[eid]]
-                    mention = next(m for m in discontinuous_mentions[eid] if m not in opened)
+                    mention = next(m for m in reversed(discontinuous_mentions[eid]) if m not in opened)
                     mention._words.append(node)
                     if closing and subspan_idx == total_subspans:
                         m = discontinuous_mentions[eid].pop()
-- 
2.43.0


From 01ff2fd923084abf23180cdf014e99bbbc731dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:38 +0000
Subject: [PATCH 046/166] fix: create_mention with a span not including the
 head must not create an incomplete mention

---
 udapi/core/coref.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index d598ee3..c343f78 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -383,12 +383,14 @@ class CorefEntity(object):
             raise ValueError("Either head or words must be specified")
         if head is None:
             head = words[0]
+        if span:
+            words = span_to_nodes(head.root, span)
+            if head not in words:
+                raise ValueError(f"Head {head} is not within the specified span {span}")
 
         mention = CorefMention(words=[head], head=head, entity=self)
         if words:
             mention.words = words
-        if span:
-            mention.span = span
         self._mentions.sort()
         return mention
 
-- 
2.43.0


From 3a8f270fcb267c3d6b55c787ff261d86c128e598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:54 +0000
Subject: [PATCH 047/166] fix: storing coreference after changing word order
 must sort words of mentions first

---
 udapi/core/coref.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index c343f78..6cf1b2c 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -812,7 +812,11 @@ def store_coref_to_misc(doc):
     # Convert each subspan of each discontinuous mention into a fake CorefMention instance,
     # so that we can sort both real and fake mentions and process them in the correct order.
     doc_mentions = []
-    for mention in doc.coref_mentions:
+    all_mentions = doc.coref_mentions
+    # Word order may have been changed, but sorting the mentions relies on the sorted words.
+    for mention in all_mentions:
+        mention._words.sort()
+    for mention in all_mentions:
         if ',' not in mention.span:
             doc_mentions.append(mention)
         else:
-- 
2.43.0


From aa1c1e5aa9ca57cce839ed676074565d0bac0f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 048/166] fix: find_minimal_common_treelet must not ignore the
 last component after reaching the technical root

---
 udapi/core/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 5c3bd1a..2c56705 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1204,7 +1204,8 @@ def find_minimal_common_treelet(*args):
     # If we climb up to the root of the whole tree, we save the root in `highest`.
     new_nodes = {}
     highest = None
-    while len(nodes) > 1:
+    # If one of the components has reached the root, all the others have to be merged with it.
+    while len(nodes) > 1 or (highest and nodes):
         node = nodes.pop(0)  # TODO deque
         parent = node._parent
         if parent is None:
-- 
2.43.0


From 49491a26f66c4830aa61491bbf5540a5d6de728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 049/166] fix: transform.Flatten oneroot=1 must not crash on
 empty trees

---
 udapi/block/transform/flatten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/transform/flatten.py b/udapi/block/transform/flatten.py
index d218ad2..5fefff0 100644
--- a/udapi/block/transform/flatten.py
+++ b/udapi/block/transform/flatten.py
@@ -18,7 +18,7 @@ class Flatten(Block):
         for node in tree.descendants:
             node.parent = node.root
             node.deprel = 'root'
-        if self.oneroot:
+        if self.oneroot and tree.descendants:
             first = tree.descendants[0]
             for node in tree.descendants[1:]:
                 node.parent = first
-- 
2.43.0


From c0f2bf0688c1bc8951f0770d3ad5d2fe4b54aee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 050/166] fix: transform.Proj must lift also the edges which
 become non-projective by lifting other edges

---
 udapi/block/transform/proj.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/udapi/block/transform/proj.py b/udapi/block/transform/proj.py
index 6e284b4..3b4f2b9 100644
--- a/udapi/block/transform/proj.py
+++ b/udapi/block/transform/proj.py
@@ -29,9 +29,15 @@ class Proj(Block):
         self.label = label
 
     def process_tree(self, tree):
+        orig_parents = {}
         nonprojs = [self.nonproj_info(n) for n in tree.descendants if n.is_nonprojective()]
-        for nonproj in sorted(nonprojs, key=lambda info: info[0]):
-            self.lift(nonproj[1])
+        # Lifting a node may make other (originally projective) edges non-projective.
+        while nonprojs:
+            for nonproj in sorted(nonprojs, key=lambda info: info[0]):
+                self.lift(nonproj[1], orig_parents)
+            nonprojs = [self.nonproj_info(n) for n in tree.descendants if n.is_nonprojective()]
+        for node, orig_parent in orig_parents.items():
+            self.mark(node, orig_parent.udeprel)
 
     def nonproj_info(self, node):
         if self.lifting_order == 'shortest':
@@ -45,15 +51,10 @@ class Proj(Block):
         node.parent = orig_parent
         return (-depth, node)
 
-    def lift(self, node):
-        orig_parent = node.parent
-        depth = 0
+    def lift(self, node, orig_parents):
         while node.is_nonprojective():
+            orig_parents.setdefault(node, node.parent)
             node.parent = node.parent.parent
-            depth += 1
-        if depth == 0:
-            return
-        self.mark(node, orig_parent.udeprel)
 
     def mark(self, node, label):
         if self.label == 'misc':
-- 
2.43.0


From e083f9a29fb2eddef8faac48ac5d830f440c0f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 051/166] fix: Bundle.remove must number the remaining bundles
 from 1 (as create_bundle does)

---
 udapi/core/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index 0a637f0..52625da 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -106,7 +106,7 @@ class Bundle(object):
     def remove(self):
         """Remove a bundle from the document."""
         self._document.bundles = [bundle for bundle in self._document.bundles if bundle != self]
-        for i, bundle in enumerate(self._document.bundles):
+        for i, bundle in enumerate(self._document.bundles, 1):
             bundle.number = i
 
     def address(self):
-- 
2.43.0


From 2cb51d01f12ba40452f360e06923cba00852d79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 052/166] fix: util.SplitSentence must not give the new bundle
 the number of the original bundle

---
 udapi/block/util/splitsentence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/util/splitsentence.py b/udapi/block/util/splitsentence.py
index b6ca57d..3940765 100644
--- a/udapi/block/util/splitsentence.py
+++ b/udapi/block/util/splitsentence.py
@@ -85,7 +85,7 @@ class SplitSentence(Block):
                     self.make_zeros_roots(root)
                     root.text = root.compute_text()
                     # Update the bundle numbers of the new bundles and all bundles after them.
-                    updated_no = bundle_no + 1
+                    updated_no = bundle_no + 2
                     for b in document.bundles[(bundle_no+1):]:
                         b.number = updated_no
                         updated_no += 1
@@ -101,7 +101,7 @@ class SplitSentence(Block):
                 new_bundle_no = bundle_no + 1
                 document.bundles.pop()
                 document.bundles.insert(new_bundle_no, new_bundle)
-                updated_no = new_bundle_no
+                updated_no = new_bundle_no + 1
                 for b in document.bundles[new_bundle_no:]:
                     b.number = updated_no
                     updated_no += 1
-- 
2.43.0


From 14e346311c32a5b57e07a41af2558ef9fccf961b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 053/166] fix: segment.Merge and segment.Simple must update
 bundle numbers

---
 udapi/block/segment/merge.py  | 4 +++-
 udapi/block/segment/simple.py | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/udapi/block/segment/merge.py b/udapi/block/segment/merge.py
index 9ada45f..59d120c 100644
--- a/udapi/block/segment/merge.py
+++ b/udapi/block/segment/merge.py
@@ -43,4 +43,6 @@ class Merge(Block):
             else:
                 new_bundles.append(bundle)
                 prev_bundle = bundle
-        doc.bundles = new_bundles
\ No newline at end of file
+        doc.bundles = new_bundles
+        for number, bundle in enumerate(new_bundles, 1):
+            bundle.number = number
diff --git a/udapi/block/segment/simple.py b/udapi/block/segment/simple.py
index 58be9b6..127d738 100644
--- a/udapi/block/segment/simple.py
+++ b/udapi/block/segment/simple.py
@@ -89,3 +89,5 @@ class Simple(Block):
                             new_bundle.create_tree(tree.zone).text = sentence
                             new_bundles.append(new_bundle)
         doc.bundles = new_bundles
+        for number, bundle in enumerate(new_bundles, 1):
+            bundle.number = number
-- 
2.43.0


From 9cce69bc44b6a76fae2d5ca7f77bee7d83bb9012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 054/166] fix: util.Split must link the bundles with the
 document they are moved to

---
 udapi/block/util/split.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/block/util/split.py b/udapi/block/util/split.py
index 6eb2f65..d3ebe5c 100644
--- a/udapi/block/util/split.py
+++ b/udapi/block/util/split.py
@@ -36,4 +36,7 @@ class Split(BaseReader):
         self.buffer.extend(document.bundles)
         document.bundles = self.buffer[:self.bundles_per_doc]
         self.buffer = self.buffer[self.bundles_per_doc:]
+        for number, bundle in enumerate(document.bundles, 1):
+            bundle.number = number
+            bundle._document = document  # pylint: disable=protected-access
         self.finished = not self.buffer
-- 
2.43.0


From 7037d7fb395257c47bb8ff2dd312f2656d6b45b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 055/166] fix: setting bundle_id must not add a slash to
 sent_id of trees with the empty zone

---
 udapi/core/bundle.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index 52625da..140cc9c 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -32,11 +32,9 @@ class Bundle(object):
     @bundle_id.setter
     def bundle_id(self, bundle_id):
         self._bundle_id = bundle_id
-        if len(self.trees) == 1 and self.trees[0].zone == '':
-            self.trees[0]._sent_id = bundle_id
-        else:
-            for tree in self.trees:
-                tree._sent_id = bundle_id + '/' + tree.zone  # pylint: disable=protected-access
+        for tree in self.trees:
+            # pylint: disable=protected-access
+            tree._sent_id = bundle_id + '/' + tree.zone if tree.zone else bundle_id
 
     def __str__(self):
         if self._bundle_id is None:
-- 
2.43.0


From f1cae94a717503ccaeaeb424e106044aee25598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 056/166] fix: assigning the current zone of a tree (e.g. via
 sent_id) must not raise an exception

---
 udapi/core/root.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index cc02c09..4249695 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -55,9 +55,9 @@ class Root(Node):
     def sent_id(self, sent_id):
         if self._bundle is not None:
             parts = sent_id.split('/', 1)
-            self._bundle.bundle_id = parts[0]
             if len(parts) == 2:
                 self.zone = parts[1]
+            self._bundle.bundle_id = parts[0]
         self._sent_id = sent_id
 
     def address(self):
@@ -92,7 +92,7 @@ class Root(Node):
     @zone.setter
     def zone(self, zone):
         """Specify which zone the root belongs to."""
-        if self._bundle:
+        if self._bundle and zone != self._zone:
             self._bundle.check_zone(zone)
         self._zone = zone
         slashzone = '/' + zone if zone else ''
-- 
2.43.0


From 82522e8641ebd3e46f95647c7845ff3deebcda1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 057/166] fix: Root.flatten must set deprels as documented

---
 udapi/core/root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 4249695..fd7b83d 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -366,3 +366,4 @@ class Root(Node):
         for node in self._children:
             node._parent = self
             node._children.clear()
+            node.deprel = deprel
-- 
2.43.0


From 3c5a6a7862433f3fdb0e73ac2ac6526c975325b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:03 +0000
Subject: [PATCH 058/166] fix: Root.steal_nodes must move also MWTs, empty
 nodes and enhanced dependencies

---
 udapi/core/root.py | 59 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index fd7b83d..d88c40b 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -314,7 +314,15 @@ class Root(Node):
         return sorted(self._descendants + self.empty_nodes)
 
     def steal_nodes(self, nodes):
-        """Move nodes from another tree to this tree (append)."""
+        """Move nodes from another tree to this tree (append).
+
+        Multi-word tokens are moved together with their words
+        and empty nodes are moved together with the closest preceding word.
+        Basic and enhanced dependencies between a moved and a not moved node
+        are substituted with dependencies on the root of the given tree.
+        """
+        if not nodes:
+            return
         old_root = nodes[0].root
         for node in nodes[1:]:
             if node.root != old_root:
@@ -323,6 +331,22 @@ class Root(Node):
         whole_tree = nodes == old_root.descendants
         new_ord = len(self._descendants)
         # pylint: disable=protected-access
+        self._deserialize_all_deps()
+        old_root._deserialize_all_deps()
+        moved = set(nodes)
+        follows, old_follows = self._empty_nodes_follow([]), []
+        for (empty, previous) in old_root._empty_nodes_follow([]):
+            if previous in moved:
+                follows.append((empty, previous))
+            elif whole_tree:
+                follows.append((empty, self._descendants[-1] if self._descendants else self))
+            else:
+                old_follows.append((empty, previous))
+                continue
+            empty._root = self
+            moved.add(empty)
+            self.empty_nodes.append(empty)
+        old_root.empty_nodes = [empty for (empty, _) in old_follows]
         for node in nodes:
             new_ord += 1
             node.ord = new_ord
@@ -336,21 +360,26 @@ class Root(Node):
                 node.parent._children = [n for n in node.parent._children if n != node]
                 node._parent = self
                 self._children.append(node)
-        if whole_tree:
-            old_root._descendants = []
-            self._mwts += old_root.multiword_tokens
-            old_root.multiword_tokens = []
-        else:
-            old_root._descendants = [n for n in old_root._descendants if n not in nodes]
-            for (new_ord, remaining) in enumerate(old_root._descendants, 1):
-                remaining.ord = new_ord
-            mwt = node.multiword_token
-            for node in nodes:
-                if mwt:
-                    words = [w for w in mwt.words if w in nodes]
-                    mwt.remove()
-                    self.create_multiword_token(words=words, form=mwt.form, misc=mwt.misc)
+        old_root._descendants = [n for n in old_root._descendants if n not in moved]
+        for (new_ord, remaining) in enumerate(old_root._descendants, 1):
+            remaining.ord = new_ord
         self._descendants += nodes
+        for mwt in old_root._mwts[:]:
+            words = [w for w in mwt.words if w in moved]
+            if len(words) == len(mwt.words):
+                old_root._mwts.remove(mwt)
+                self._mwts.append(mwt)
+                mwt.root = self
+            elif words:
+                mwt.remove()
+                self.create_multiword_token(words=words, form=mwt.form, misc=mwt.misc)
+        self._reorder_empty_nodes(follows)
+        old_root._reorder_empty_nodes(old_follows)
+        for tree in (self, old_root):
+            for node in tree._descendants + tree.empty_nodes:
+                for dep in node._deps or []:
+                    if dep['parent']._root is not tree:
+                        dep['parent'] = tree
         # pylint: enable=protected-access
 
     def flatten(self, deprel='root'):
-- 
2.43.0


From ac8cefa706e094e9742740bf844d5bd4d99f458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:50 +0000
Subject: [PATCH 059/166] fix: read.Sentences newdoc_if_empty_line=1 must not
 crash on empty input (and at the end of any input)

---
 udapi/block/read/sentences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/sentences.py b/udapi/block/read/sentences.py
index 7487d58..2d25cf5 100644
--- a/udapi/block/read/sentences.py
+++ b/udapi/block/read/sentences.py
@@ -59,5 +59,5 @@ class Sentences(BaseReader):
 
     # The first line in a file also marks a start of new document
     def after_process_document(self, document):
-        if self.newdoc_if_empty_line:
+        if self.newdoc_if_empty_line and document.bundles:
             document.bundles[0].trees[0].newdoc = True
-- 
2.43.0


From 5d388dda0c37d39bda8edffb64673001bac0a687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:50 +0000
Subject: [PATCH 060/166] fix: segment.Simple must not split after e.g. (the
 final period is not passed to is_nonfinal_abbrev)

---
 udapi/block/segment/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/segment/simple.py b/udapi/block/segment/simple.py
index 127d738..91f5994 100644
--- a/udapi/block/segment/simple.py
+++ b/udapi/block/segment/simple.py
@@ -22,7 +22,7 @@ class Simple(Block):
     @staticmethod
     def is_nonfinal_abbrev(token):
         """Is a given token an abbreviation (without the final period) which cannot end a sentence?"""
-        if re.search('(např|e.g.)$', token):
+        if re.search(r'(např|e\.g)$', token):
             return True
         return False
 
-- 
2.43.0


From e316dfd7e7ca3e77a4ab6f78d3e135d9d2a7bdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:34 +0000
Subject: [PATCH 061/166] fix: util.SplitSentence with misc_value must not
 split before the first word

---
 udapi/block/util/splitsentence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/util/splitsentence.py b/udapi/block/util/splitsentence.py
index 3940765..2e62451 100644
--- a/udapi/block/util/splitsentence.py
+++ b/udapi/block/util/splitsentence.py
@@ -52,7 +52,7 @@ class SplitSentence(Block):
                 logging.fatal('Cannot process bundles that do not have the zone with empty zone id')
             if self.misc_name:
                 root = bundle.get_tree()
-                split_points = [n for n in root.descendants if n.ord > 1 and n.misc[self.misc_name] and self.misc_value == None or n.misc[self.misc_name] == self.misc_value]
+                split_points = [n for n in root.descendants if n.ord > 1 and (n.misc[self.misc_name] and self.misc_value == None or n.misc[self.misc_name] == self.misc_value)]
                 if split_points:
                     # Create as many new bundles as there are split points.
                     n_new = len(split_points)
-- 
2.43.0


From 38dff1fd15ea1c993034043dedaabd257a430d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:34 +0000
Subject: [PATCH 062/166] fix: util.JoinSentence with sent_id must remember the
 previous sentence

---
 udapi/block/util/joinsentence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/util/joinsentence.py b/udapi/block/util/joinsentence.py
index 578f386..3b084ba 100644
--- a/udapi/block/util/joinsentence.py
+++ b/udapi/block/util/joinsentence.py
@@ -75,3 +75,5 @@ class JoinSentence(Block):
                 bundle.remove()
                 # We have found our sentence. No need to process the rest of the document.
                 break
+            else:
+                previous_tree = bundle.get_tree()
-- 
2.43.0


From 3b9a3253cab59cf947c947ef3e89577bce82d468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:34 +0000
Subject: [PATCH 063/166] fix: segment.Merge must not crash on empty documents

---
 udapi/block/segment/merge.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/segment/merge.py b/udapi/block/segment/merge.py
index 59d120c..9f9c0d0 100644
--- a/udapi/block/segment/merge.py
+++ b/udapi/block/segment/merge.py
@@ -32,6 +32,8 @@ class Merge(Block):
 
     def process_document(self, doc):
         old_bundles = doc.bundles
+        if not old_bundles:
+            return
         prev_bundle = old_bundles[0]
         new_bundles = [prev_bundle]
         for bundle in old_bundles[1:]:
-- 
2.43.0


From 22e3e667bb14ff14e2f0bcc568ea81c7ea6a619a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:55 +0000
Subject: [PATCH 064/166] fix: ud.ComplyWithText must not crash or create empty
 forms when a part of the tree is missing in the text

---
 udapi/block/ud/complywithtext.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/block/ud/complywithtext.py b/udapi/block/ud/complywithtext.py
index b36b251..d91f8a7 100644
--- a/udapi/block/ud/complywithtext.py
+++ b/udapi/block/ud/complywithtext.py
@@ -166,6 +166,7 @@ class ComplyWithText(Block):
                     tree_lo += 1
                 if tree_chars[tree_hi - 1] == ' ':
                     tree_hi -= 1
+            if edit not in ('insert', 'delete'):
                 if text[text_lo] == ' ':
                     text_lo += 1
                 if text[text_hi - 1] == ' ':
@@ -178,6 +179,8 @@ class ComplyWithText(Block):
                 edit = 'equal'
             elif old == '':
                 edit = 'insert'
+            elif new == '':
+                edit = 'delete'
             diffs.append((edit, tree_lo, tree_hi, text_lo, text_hi))
         return diffs
 
-- 
2.43.0


From 43376a43f58af3dd4ecbb36b69d4bc42e96e2895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:44 +0000
Subject: [PATCH 065/166] fix: ud.ComplyWithText must not crash on multi-word
 tokens which do not match the text

---
 udapi/block/ud/complywithtext.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/udapi/block/ud/complywithtext.py b/udapi/block/ud/complywithtext.py
index d91f8a7..c3894e6 100644
--- a/udapi/block/ud/complywithtext.py
+++ b/udapi/block/ud/complywithtext.py
@@ -101,7 +101,7 @@ class ComplyWithText(Block):
         """Store the previous form of this node into MISC, unless the change is common&expected."""
         if node.form not in ("''", "``") and self.previous_form_label:
             node.misc[self.previous_form_label] = node.form
-            if self.previous_form_label == 'CorrectForm':
+            if self.previous_form_label == 'CorrectForm' and not node.is_mwt():
                 node.feats['Typo'] = 'Yes'
 
     def process_tree(self, root):
@@ -230,6 +230,8 @@ class ComplyWithText(Block):
                 forms = text[text_lo:text_hi].split(' ')
                 if all(regex.fullmatch('\p{P}+', f) for f in forms) and self.allow_add_punct:
                     next_node = char_nodes[tree_lo]
+                    if next_node.is_mwt():
+                        next_node = next_node.words[0]
                     for f in reversed(forms):
                         new = next_node.create_child(form=f, deprel='punct', upos='PUNCT')
                         new.shift_before_node(next_node)
@@ -242,7 +244,8 @@ class ComplyWithText(Block):
                 if all(regex.fullmatch('\p{P}+', n.form) for n in nodes):
                     if self.allow_delete_punct:
                         for node in nodes:
-                            node.remove(children='rehang')
+                            for word in node.words[:] if node.is_mwt() else [node]:
+                                word.remove(children='rehang')
                     else:
                         logging.warning('Unable to delete punctuation nodes (try ud.ComplyWithText allow_delete_punct=1)\n%s',
                                         _diff2str(diff, tree_chars, text))
@@ -260,6 +263,7 @@ class ComplyWithText(Block):
         """Fix a given (minimal) tokens-vs-text inconsistency."""
         nodes_str = ' '.join([n.form for n in nodes])  # just for debugging
         node = nodes[0]
+        last_word = node.words[-1] if node.is_mwt() else node
 
         # First, solve the cases when the text contains a space.
         if ' ' in form:
@@ -271,7 +275,7 @@ class ComplyWithText(Block):
                     if self.allow_space(form):
                         self.store_previous_form(node)
                         node.form = form
-                    elif self.allow_goeswith:
+                    elif self.allow_goeswith and not node.is_mwt():
                         self.store_previous_form(node)
                         forms = form.split()
                         node.form = forms[0]
@@ -283,8 +287,8 @@ class ComplyWithText(Block):
                         logging.warning('Unable to solve 1:m diff:\n%s -> %s', nodes_str, form)
                 elif self.allow_add_punct and form.startswith(node.form) and regex.fullmatch('[ \p{P}]+', form[len(node.form):]):
                     for punct_form in reversed(form[len(node.form):].split()):
-                        new = node.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
-                        new.shift_after_node(node)
+                        new = last_word.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
+                        new.shift_after_node(last_word)
                         new.misc[self.added_label] = 1
                 else:
                     logging.warning('Unable to solve 1:m diff:\n%s -> %s', nodes_str, form)
@@ -312,8 +316,8 @@ class ComplyWithText(Block):
         else:
             if self.allow_add_punct and form.startswith(node.form) and regex.fullmatch('\p{P}+', form[len(node.form):]):
                 punct_form = form[len(node.form):]
-                new = node.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
-                new.shift_after_node(node)
+                new = last_word.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
+                new.shift_after_node(last_word)
                 new.misc[self.added_label] = 1
             else:
                 self.store_previous_form(node)
-- 
2.43.0


From f0680a9b168d8a1e8f1836d570e39d4db006de03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:44 +0000
Subject: [PATCH 066/166] fix: ud.SetSpaceAfter must not treat quotes according
 to the previous sentences

---
 udapi/block/ud/setspaceafter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/ud/setspaceafter.py b/udapi/block/ud/setspaceafter.py
index 04c9fff..090bb4a 100644
--- a/udapi/block/ud/setspaceafter.py
+++ b/udapi/block/ud/setspaceafter.py
@@ -31,7 +31,7 @@ class SetSpaceAfter(Block):
         # and treat odd-indexed ones as opening and even-indexed ones as closing.
         # Otherwise (odd number, e.g. when quoting multiple sentences), don't remove any space.
         matching_quotes = not bool(count_of_form['"'] % 2)
-        not_after, not_before = self.not_after, self.not_before
+        not_after, not_before = self.not_after[:], self.not_before[:]
         odd_indexed_quote = True
 
         # Some languages use directed „quotes“ and some “quotes”,
@@ -43,7 +43,7 @@ class SetSpaceAfter(Block):
 
         for i, node in enumerate(nodes[:-1]):
             next_form = nodes[i + 1].form
-            if node.form in self.not_after or next_form in not_before:
+            if node.form in not_after or next_form in not_before:
                 self.mark_no_space(node)
             if node.form == '"':
                 if matching_quotes:
-- 
2.43.0


From 0f2dd686306e26b52e979fa70f9136f8aaf23556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:44 +0000
Subject: [PATCH 067/166] fix: ud.SetSpaceAfter must not crash on sentences
 with no or one word

---
 udapi/block/ud/setspaceafter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/setspaceafter.py b/udapi/block/ud/setspaceafter.py
index 090bb4a..248efe6 100644
--- a/udapi/block/ud/setspaceafter.py
+++ b/udapi/block/ud/setspaceafter.py
@@ -55,7 +55,7 @@ class SetSpaceAfter(Block):
                 elif i==0:
                     self.mark_no_space(node)
 
-        if nodes[-1].form == '"':
+        if len(nodes) > 1 and nodes[-1].form == '"':
             self.mark_no_space(nodes[-2])
 
         if self.fix_text and self.changed:
-- 
2.43.0


From 8bd2909de9ef356db61625e7d115e17b2c55e04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:44 +0000
Subject: [PATCH 068/166] fix: ud.FixMwtSpace must keep SpaceAfter=No

---
 udapi/block/ud/fixmwtspace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/fixmwtspace.py b/udapi/block/ud/fixmwtspace.py
index a2b7b87..b1355bc 100644
--- a/udapi/block/ud/fixmwtspace.py
+++ b/udapi/block/ud/fixmwtspace.py
@@ -19,4 +19,6 @@ class FixMwtSpace(Block):
                 if node == mwt.words[0]:
                     wordforms = [x.form for x in mwt.words]
                     if ' '.join(wordforms) == mwt.form:
+                        if mwt.misc['SpaceAfter'] == 'No':
+                            mwt.words[-1].misc['SpaceAfter'] = 'No'
                         mwt.remove()
-- 
2.43.0


From 3bcbfa997d43d2f809a70392d6981a219c2c230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:44 +0000
Subject: [PATCH 069/166] fix: read.AddText must not crash at the end of the
 text

---
 udapi/block/read/addtext.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/read/addtext.py b/udapi/block/read/addtext.py
index 040174b..d001474 100644
--- a/udapi/block/read/addtext.py
+++ b/udapi/block/read/addtext.py
@@ -33,7 +33,7 @@ class AddText(BaseReader):
             return
         text = ''.join(self.filehandle.readlines())
         i, end, was_newpar = 0, len(text), True
-        while i <= end and text[i].isspace():
+        while i < end and text[i].isspace():
             i += 1
 
         for bundle in document.bundles:
@@ -44,10 +44,10 @@ class AddText(BaseReader):
             for node in root.token_descendants:
                 if text[i:i+len(node.form)] == node.form:
                     i += len(node.form)
-                    if i > end or text[i].isspace():
+                    if i >= end or text[i].isspace():
                         del node.misc['SpaceAfter']
                         was_newpar = i+1 < end and text[i+1] == '\n' and text[i] == '\n'
-                        while i <= end and text[i].isspace():
+                        while i < end and text[i].isspace():
                             i += 1
                     else:
                         node.misc['SpaceAfter'] = 'No'
-- 
2.43.0


From 89f272acbb03c121c988183e53ea3e0eb8557945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:04 +0000
Subject: [PATCH 070/166] fix: read.AddSentences must not append to the last
 comment line

---
 udapi/block/read/addsentences.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/read/addsentences.py b/udapi/block/read/addsentences.py
index f676fbe..2ec7b66 100644
--- a/udapi/block/read/addsentences.py
+++ b/udapi/block/read/addsentences.py
@@ -50,5 +50,7 @@ class AddSentences(BaseReader):
             if self.into == 'text':
                 root.text = line.rstrip()
             else:
+                if root.comment and not root.comment.endswith("\n"):
+                    root.comment += "\n"
                 root.comment += ' ' + self.into + " = " + line.rstrip() + "\n"
         self.finished = not self.files.has_next_file()
-- 
2.43.0


From 5bbbef9134a5187cdc059fcbd8e856ee7dfc44f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:02 +0000
Subject: [PATCH 071/166] fix: ud.es.AddMwt and ud.fr.AddMwt must not crash on
 contractions at the end of sentence

---
 udapi/block/ud/es/addmwt.py | 2 ++
 udapi/block/ud/fr/addmwt.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/block/ud/es/addmwt.py b/udapi/block/ud/es/addmwt.py
index 92f8016..67d439b 100644
--- a/udapi/block/ud/es/addmwt.py
+++ b/udapi/block/ud/es/addmwt.py
@@ -101,6 +101,8 @@ class AddMwt(udapi.block.ud.addmwt.AddMwt):
     def postprocess_mwt(self, mwt):
         if mwt.form.lower() in {'al', 'del'} and mwt.words[1].parent.precedes(mwt.words[1]):
             head = mwt.words[1].next_node
+            if head is None:
+                return
             while head.upos not in {'NOUN', 'PROPN'}:
                 if head.parent.precedes(head) or head.is_root():
                     head = mwt.words[1].next_node
diff --git a/udapi/block/ud/fr/addmwt.py b/udapi/block/ud/fr/addmwt.py
index 948a927..f8c9653 100644
--- a/udapi/block/ud/fr/addmwt.py
+++ b/udapi/block/ud/fr/addmwt.py
@@ -64,7 +64,7 @@ class AddMwt(udapi.block.ud.addmwt.AddMwt):
                 pass
             elif mwt.words[0].precedes(mwt.words[0].parent):
                 mwt.words[1].parent = mwt.words[0].parent
-            else:
+            elif mwt.words[1].next_node is not None:
                 head = mwt.words[1].next_node
                 while head.upos not in {'NOUN', 'PROPN'} and not head.is_root():
                     if head.parent.precedes(head):
-- 
2.43.0


From a6c160bebc81ec90398dce0312a48c37d150cc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:02 +0000
Subject: [PATCH 072/166] fix: ud.JoinToken must recognize the first token of a
 sentence

---
 udapi/block/ud/jointoken.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/jointoken.py b/udapi/block/ud/jointoken.py
index 43d2b30..a59c60e 100644
--- a/udapi/block/ud/jointoken.py
+++ b/udapi/block/ud/jointoken.py
@@ -59,7 +59,7 @@ class JoinToken(Block):
         if self.misc_value and node.misc[self.misc_name] != self.misc_value:
             return
         prevnode = node.prev_node
-        if not prevnode:
+        if not prevnode or prevnode.is_root():
             logging.warning("MISC %s cannot be used at the first token of a sentence." % self.misc_name)
             node.misc['Bug'] = 'JoiningTokenNotSupportedHere'
             return
-- 
2.43.0


From 70974ce41f8c7bd8f8a04a076533c2594cca98e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:03 +0000
Subject: [PATCH 073/166] fix: ud.SplitUnderscoreTokens must not create words
 without form

---
 udapi/block/ud/splitunderscoretokens.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/block/ud/splitunderscoretokens.py b/udapi/block/ud/splitunderscoretokens.py
index 44575e0..a00bf26 100644
--- a/udapi/block/ud/splitunderscoretokens.py
+++ b/udapi/block/ud/splitunderscoretokens.py
@@ -51,6 +51,9 @@ class SplitUnderscoreTokens(Block):
                 logging.warning("Different number of underscores in %s and %s, skipping.",
                                 node.form, node.lemma)
                 return
+            if not all(forms):
+                logging.warning("Splitting %s would create an empty word, skipping.", node.form)
+                return
 
             last_node = node
             deprel = self.deprel_for(node)
-- 
2.43.0


From b1fec4380024cd17de2b24ee307e94d9c21cf443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:58 +0000
Subject: [PATCH 074/166] fix: blocks removing empty nodes or mentions must not
 skip the following ones

---
 udapi/core/block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/core/block.py b/udapi/core/block.py
index d293df6..19af047 100644
--- a/udapi/core/block.py
+++ b/udapi/core/block.py
@@ -101,7 +101,7 @@ class Block(object):
                 if p_entity:
                     self.process_coref_entity(entity)
                 else:
-                    for mention in entity.mentions:
+                    for mention in list(entity.mentions):
                         self.process_coref_mention(mention)
 
         if p_bundle or p_tree or p_node or p_empty_node:
@@ -120,13 +120,13 @@ class Block(object):
                                     for node in tree.descendants:
                                         self.process_node(node)
                                 if p_empty_node:
-                                    for empty_node in tree.empty_nodes:
+                                    for empty_node in list(tree.empty_nodes):
                                         self.process_empty_node(empty_node)
 
     @not_overridden
     def process_coref_entity(self, entity):
         """This method is called on each coreference entity in the document."""
-        for mention in entity.mentions:
+        for mention in list(entity.mentions):
             self.process_coref_mention(mention)
 
     @not_overridden
-- 
2.43.0


From 9d467e5ec0bb2ca3b0e3991d91b8a4cd28ea6686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:58 +0000
Subject: [PATCH 075/166] fix: parameter values such as superscript digits must
 not crash the scenario parser

---
 udapi/core/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/run.py b/udapi/core/run.py
index 8ac63e1..1a4e9d6 100644
--- a/udapi/core/run.py
+++ b/udapi/core/run.py
@@ -60,7 +60,7 @@ def _parse_command_line_arguments(scenario):
                 'Block attribute pair %r without a prior block name', token)
 
         # Put it as a new argument for the previous block
-        if attribute_value.isdigit():
+        if attribute_value.isdecimal():
             attribute_value = int(attribute_value)
         block_args[-1][attribute_name] = attribute_value
 
-- 
2.43.0


From 25a959bf2a49336798824ef1922758a5c5d38eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:58 +0000
Subject: [PATCH 076/166] fix: absolute filenames in file lists must be kept
 and @- must read the list from standard input

---
 udapi/core/files.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/udapi/core/files.py b/udapi/core/files.py
index be59b2c..6eaf8b3 100644
--- a/udapi/core/files.py
+++ b/udapi/core/files.py
@@ -69,12 +69,15 @@ class Files(object):
             if not filenames:
                 raise RuntimeError('No filenames matched "%s" pattern' % pattern)
         elif token[0] == '@':
-            filelist_name = sys.stdin if token == '@-' else token[1:]
-            with open(filelist_name) as filelist:
-                filenames = [line.rstrip('\n') for line in filelist]
-            directory = os.path.dirname(token[1:])
-            if directory != '.':
-                filenames = [f if f[0] != '/' else directory + '/' + f for f in filenames]
+            if token == '@-':
+                filenames = [line.rstrip('\n') for line in sys.stdin]
+            else:
+                with open(token[1:]) as filelist:
+                    filenames = [line.rstrip('\n') for line in filelist]
+                # Relative filenames are relative to the directory of the filelist.
+                directory = os.path.dirname(token[1:])
+                filenames = [os.path.join(directory, f) if f else f for f in filenames]
+            filenames = [f for f in filenames if f]
         else:
             filenames = [token]
         return filenames
-- 
2.43.0


From b43832fd33dfd392313b5831651a7057bb13eda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:58 +0000
Subject: [PATCH 077/166] fix: writers must not close the filehandle supplied
 by the user after the first document

---
 udapi/core/basewriter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/core/basewriter.py b/udapi/core/basewriter.py
index 071ec12..721125b 100644
--- a/udapi/core/basewriter.py
+++ b/udapi/core/basewriter.py
@@ -108,5 +108,6 @@ class BaseWriter(Block):
     def after_process_document(self, document):
         sys.stdout.flush()
         if sys.stdout != self.orig_stdout:
-            sys.stdout.close()
+            if self.orig_files != '<filehandle>':
+                sys.stdout.close()
             sys.stdout = self.orig_stdout
-- 
2.43.0


From 578d171a7b7efb281e87dc9808a96bff06384707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:58 +0000
Subject: [PATCH 078/166] fix: writers must report incompatible parameters also
 with filehandle

---
 udapi/core/basewriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/core/basewriter.py b/udapi/core/basewriter.py
index 721125b..1b10acf 100644
--- a/udapi/core/basewriter.py
+++ b/udapi/core/basewriter.py
@@ -25,10 +25,10 @@ class BaseWriter(Block):
         self.newline = newline
         self.docname_as_file = docname_as_file
         if docname_as_file and files != '-':
-            raise ValueError("docname_as_file=1 is not compatible with files=" + files)
+            raise ValueError("docname_as_file=1 is not compatible with files=" + str(self.orig_files))
         self.overwrite = overwrite
         if overwrite and files != '-':
-            raise ValueError("overwrite=1 is not compatible with files=" + files)
+            raise ValueError("overwrite=1 is not compatible with files=" + str(self.orig_files))
         if overwrite and docname_as_file:
             raise ValueError("overwrite=1 is not compatible with docname_as_file=1")
         # interpret path=my_dir/my_subdir as path=my_dir/my_subdir/
-- 
2.43.0


From 73b7885d00846435710fe4fa550d091a2d59f872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:32 +0000
Subject: [PATCH 079/166] fix: write.TextModeTrees hints=0: draw whole edges to
 non-leaf children
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The horizontal line after the symbol ├ (used instead of ┡ and ┢ with hints=0) was replaced
with spaces (or with a vertical line without the bridge symbol).
---
 udapi/block/write/textmodetrees.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index 885f797..c3d1528 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -276,7 +276,7 @@ class TextModeTrees(BaseWriter):
             max_length = max([self.lengths[i] for i in range(min_idx, max_idx + 1)])
             for idx in range(min_idx, max_idx + 1):
                 idx_node = allnodes[idx]
-                filler = '─' if self._ends(idx, '─╭╰╪┡┢') else ' '
+                filler = '─' if self._ends(idx, '─╭╰╪├┡┢') else ' '
                 self._add(idx, filler * (max_length - self.lengths[idx]))
 
                 topmost = idx == min_idx
@@ -287,7 +287,7 @@ class TextModeTrees(BaseWriter):
                         self.add_node(idx, node)
                 else:
                     if idx_node.parent is not node:
-                        self._add(idx, self._vert[self._ends(idx, '─╭╰╪┡┢')])
+                        self._add(idx, self._vert[self._ends(idx, '─╭╰╪├┡┢')])
                     else:
                         precedes_parent = idx < self._index_of[node.ord]
                         self._add(idx, self._space[precedes_parent][topmost or botmost])
-- 
2.43.0


From 5967bdf5f629cad20f22afcc93ac84703334e698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:32 +0000
Subject: [PATCH 080/166] fix: write.TextModeTrees: highlight marked comments
 as documented

Comments like `# Mark = 1` were never highlighted, because the regex for MISC was used
(and the comment prefixes were added already). No colors without color=1.
---
 udapi/block/write/textmodetrees.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index c3d1528..a6c3a4c 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -332,7 +332,7 @@ class TextModeTrees(BaseWriter):
         if self.print_text:
             print("# text = " + (root.get_sentence() if root.is_root() else root.compute_text()))
         if self.print_comments and root.comment:
-            print('#' + self.colorize_comment(root.comment.rstrip().replace('\n', '\n#')))
+            print('#' + self.colorize_comment(root.comment).rstrip().replace('\n', '\n#'))
 
     def _ends(self, idx, chars):
         return bool(self.lines[idx] and self.lines[idx][-1] in chars)
@@ -382,9 +382,9 @@ class TextModeTrees(BaseWriter):
 
     def colorize_comment(self, comment):
         """Return a string with color markup for a given comment."""
-        if self.mark_re is None:
+        if self.mark_re is None or not self.color:
             return comment
-        return self.mark_re.sub(colored(r'\g<0>', None, None, ['reverse', 'bold']), comment)
+        return self.comment_mark_re.sub(colored(r'\g<0>', None, None, ['reverse', 'bold']), comment)
 
     @staticmethod
     def colorize_attr(attr, value, marked):
-- 
2.43.0


From d8b7db71e26510e119d5814bbecada681a903ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:32 +0000
Subject: [PATCH 081/166] fix: write.TextModeTreesHtml: do not print trees of
 zones which are not selected

The parameter zones either caused UnboundLocalError (if the first tree was not selected),
or it was ignored.
---
 udapi/block/write/textmodetreeshtml.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/udapi/block/write/textmodetreeshtml.py b/udapi/block/write/textmodetreeshtml.py
index 0ad39da..79d7ac6 100644
--- a/udapi/block/write/textmodetreeshtml.py
+++ b/udapi/block/write/textmodetreeshtml.py
@@ -91,18 +91,20 @@ class TextModeTreesHtml(TextModeTrees):
     def process_bundle(self, bundle):
         if self.zones_in_rows:
             # Don't print <table><tr></tr></table> if no tree will be printed in this bundle.
-            marked_trees = []
+            marked_trees, selected_trees = [], []
             for tree in bundle:
-                if self._should_process_tree(tree):
-                    if self.print_empty:
-                        allnodes = [tree] + tree.descendants_and_empty
-                    else:
-                        allnodes = tree.descendants(add_self=1)
+                if not self._should_process_tree(tree):
+                    continue
+                selected_trees.append(tree)
+                if self.print_empty:
+                    allnodes = [tree] + tree.descendants_and_empty
+                else:
+                    allnodes = tree.descendants(add_self=1)
                 if self.should_print_tree(tree, allnodes):
                     marked_trees.append(tree)
             if marked_trees:
                 if self.whole_bundle:
-                    marked_trees = bundle
+                    marked_trees = selected_trees
                 print("<table><tr>")
                 for tree in marked_trees:
                     print("<td>")
-- 
2.43.0


From 54511058af6db32354997b07e7e64ae4dff3cf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:59 +0000
Subject: [PATCH 082/166] fix: eval.F1: print (zero) results if there are no
 predicted trees

StopIteration was raised after the warning.
---
 udapi/block/eval/f1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/eval/f1.py b/udapi/block/eval/f1.py
index e488977..9fa23b2 100644
--- a/udapi/block/eval/f1.py
+++ b/udapi/block/eval/f1.py
@@ -175,8 +175,8 @@ class F1(BaseWriter):
                             'The results are mixed together. Check the parameter zones=%s',
                             list(self.visited_zones.elements()), self.zones)
         print('Comparing predicted trees (zone=%s) with gold trees (zone=%s), sentences=%d'
-              % (next(self.visited_zones.elements()), self.gold_zone,
-                 self.visited_zones.most_common(1)[0][1]))
+              % (next(self.visited_zones.elements(), None), self.gold_zone,
+                 max(self.visited_zones.values(), default=0)))
         if self.details:
             print('=== Details ===')
             print('%-10s %5s %5s %5s %6s  %6s  %6s'
-- 
2.43.0


From 69180155d8f8ceffd44332a59cd7bf2e42e36c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:59 +0000
Subject: [PATCH 083/166] fix: eval.Parsing: do not divide by zero if there are
 no nodes

---
 udapi/block/eval/parsing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/udapi/block/eval/parsing.py b/udapi/block/eval/parsing.py
index 6923c1f..5bd637e 100644
--- a/udapi/block/eval/parsing.py
+++ b/udapi/block/eval/parsing.py
@@ -35,6 +35,7 @@ class Parsing(BaseWriter):
         # Redirect the default filehandle to the file specified by self.files
         self.before_process_document(None)
         print('nodes = %d' % self.total)
-        print('UAS           = %6.2f' % (100 * self.correct_uas / self.total))
-        print('LAS (deprel)  = %6.2f' % (100 * self.correct_las / self.total))
-        print('LAS (udeprel) = %6.2f' % (100 * self.correct_ulas / self.total))
+        total = self.total or 1  # prevent division by zero
+        print('UAS           = %6.2f' % (100 * self.correct_uas / total))
+        print('LAS (deprel)  = %6.2f' % (100 * self.correct_las / total))
+        print('LAS (udeprel) = %6.2f' % (100 * self.correct_ulas / total))
-- 
2.43.0


From fce4ac3cea9bbf88378cb91c6dbd9f03b54a1c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:03 +0000
Subject: [PATCH 084/166] fix: util.MarkDiff: one-to-one alignment of replaced
 segments of different lengths

Predicted nodes without a counterpart were aligned with gold nodes after the segment,
which resulted in IndexError, two nodes aligned with one, and wrong marks of changed parents.
---
 udapi/block/util/markdiff.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/util/markdiff.py b/udapi/block/util/markdiff.py
index e102ca9..7dea30f 100644
--- a/udapi/block/util/markdiff.py
+++ b/udapi/block/util/markdiff.py
@@ -71,7 +71,8 @@ class MarkDiff(Block):
         for diff in diffs:
             edit, pred_lo, pred_hi, gold_lo, gold_hi = diff
             if edit in {'equal', 'replace'}:
-                for i in range(pred_lo, pred_hi):
+                # If a replaced segment has different lengths, only the first n nodes are treated as aligned.
+                for i in range(pred_lo, min(pred_hi, pred_lo + gold_hi - gold_lo)):
                     alignment[i] = i - pred_lo + gold_lo
                     if self.align in ("both", "from-pred"):
                         pred_nodes[i].misc[self.align_attr] = i - pred_lo + gold_lo + 1
-- 
2.43.0


From 3b91579b54dd8a90e7764a2caad3be9388d9bc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:03 +0000
Subject: [PATCH 085/166] fix: util.MarkDiff: do not include the stored marks
 and alignment in the statistics of MISC changes

---
 udapi/block/util/markdiff.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/udapi/block/util/markdiff.py b/udapi/block/util/markdiff.py
index 7dea30f..e88f1dd 100644
--- a/udapi/block/util/markdiff.py
+++ b/udapi/block/util/markdiff.py
@@ -67,6 +67,10 @@ class MarkDiff(Block):
         matcher = difflib.SequenceMatcher(None, pred_tokens, gold_tokens, autojunk=False)
         diffs = list(matcher.get_opcodes())
 
+        # Remember the original values, before MISC is changed.
+        pred_values = [[str(n._get_attr(attr)) for attr in self.attrs] for n in pred_nodes] if self.print_stats else []
+        gold_values = [[str(n._get_attr(attr)) for attr in self.attrs] for n in gold_nodes] if self.print_stats else []
+
         alignment = {-1: -1}
         for diff in diffs:
             edit, pred_lo, pred_hi, gold_lo, gold_hi = diff
@@ -97,8 +101,7 @@ class MarkDiff(Block):
                         # first n nodes are treated as aligned, the rest is treated as ADDED/DELETED
                         n = min(pred_hi - pred_lo, gold_hi - gold_lo)
                         for p_node, g_node in zip(pred_nodes[pred_lo:pred_lo + n], gold_nodes[gold_lo:gold_lo + n]):
-                            for attr in self.attrs:
-                                p_value, g_value = p_node._get_attr(attr), g_node._get_attr(attr)
+                            for attr, p_value, g_value in zip(self.attrs, pred_values[p_node.ord - 1], gold_values[g_node.ord - 1]):
                                 if p_value != g_value:
                                     self.stats[f'{attr.upper()}: {p_value} -> {g_value}'] += 1
                             if not self.ignore_parent and alignment.get(p_node.parent.ord - 1) != g_node.parent.ord - 1:
-- 
2.43.0


From acac208796773d399aa05733e44bdfd53d9b67ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:01 +0000
Subject: [PATCH 086/166] fix: util.MarkDiff: statistics of nodes without lemma

---
 udapi/block/util/markdiff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/util/markdiff.py b/udapi/block/util/markdiff.py
index e88f1dd..e650093 100644
--- a/udapi/block/util/markdiff.py
+++ b/udapi/block/util/markdiff.py
@@ -109,10 +109,10 @@ class MarkDiff(Block):
                         pred_lo, gold_lo = pred_lo + n, gold_lo + n
                     for node in gold_nodes[gold_lo:gold_hi]:
                         self.stats['ADD-WORD'] += 1
-                        self.stats['ADD-LEMMA: ' + node.lemma] += 1
+                        self.stats[f'ADD-LEMMA: {node.lemma}'] += 1
                     for node in pred_nodes[pred_lo:pred_hi]:
                         self.stats['DELETE-WORD'] += 1
-                        self.stats['DELETE-LEMMA: ' + node.lemma] += 1
+                        self.stats[f'DELETE-LEMMA: {node.lemma}'] += 1
 
     def process_end(self):
         if self.print_stats:
-- 
2.43.0


From c13b0ce457cc8ac2261c293a17a418eee1f62837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:39 +0000
Subject: [PATCH 087/166] fix: util.Eval removing multi-word tokens or mentions
 must not skip the following ones

---
 udapi/block/util/eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/util/eval.py b/udapi/block/util/eval.py
index 6e4f2ac..2ab311c 100644
--- a/udapi/block/util/eval.py
+++ b/udapi/block/util/eval.py
@@ -82,7 +82,7 @@ class Eval(Block):
                     this = entity
                     exec(self.expand_eval_code(self.coref_entity))
                 if self.coref_mention:
-                    for mention in entity.mentions:
+                    for mention in list(entity.mentions):
                         this = mention
                         exec(self.expand_eval_code(self.coref_mention))
 
@@ -123,7 +123,7 @@ class Eval(Block):
                 exec(self.expand_eval_code(self.node))
 
         if self.mwt:
-            for mwt in tree.multiword_tokens:
+            for mwt in list(tree.multiword_tokens):
                 this = mwt
                 exec(self.expand_eval_code(self.mwt))
 
-- 
2.43.0


From 8aa061c23a3c23912f05ce44f3e5ce31ea3e13e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:39 +0000
Subject: [PATCH 088/166] fix: util.See: division by zero if there are no nodes

---
 udapi/block/util/see.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/util/see.py b/udapi/block/util/see.py
index 9a895b8..8fa990f 100644
--- a/udapi/block/util/see.py
+++ b/udapi/block/util/see.py
@@ -105,10 +105,10 @@ class See(Block):
         print("matches %d out of %d nodes (%.1f%%) in %d out of %d trees (%.1f%%)"
               % (self.overall['matching_nodes'],
                  self.overall['nodes'],
-                 self.overall['matching_nodes'] * 100 / self.overall['nodes'],
+                 self.overall['matching_nodes'] * 100 / (self.overall['nodes'] or 1),
                  self.overall['matching_trees'],
                  self.overall['trees'],
-                 self.overall['matching_trees'] * 100 / self.overall['trees']))
+                 self.overall['matching_trees'] * 100 / (self.overall['trees'] or 1)))
         for stat in self.stats:
             vals = len(self.match[stat].keys()) - 1
             print("=== %s (%d value%s) ===" % (stat, vals, 's' if vals > 1 else ''))
-- 
2.43.0


From 63d38133e420776253e4145429a37f8d7e842568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:39 +0000
Subject: [PATCH 089/166] fix: util.See: "-1 value" if there are no matching
 nodes

---
 udapi/block/util/see.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/util/see.py b/udapi/block/util/see.py
index 8fa990f..4a87639 100644
--- a/udapi/block/util/see.py
+++ b/udapi/block/util/see.py
@@ -110,7 +110,7 @@ class See(Block):
                  self.overall['trees'],
                  self.overall['matching_trees'] * 100 / (self.overall['trees'] or 1)))
         for stat in self.stats:
-            vals = len(self.match[stat].keys()) - 1
+            vals = len(self.match[stat].keys() - {'T O T A L'})
             print("=== %s (%d value%s) ===" % (stat, vals, 's' if vals > 1 else ''))
             match_total = self.match[stat]['T O T A L'] or 1
             every_total = self.every[stat]['T O T A L'] or 1
-- 
2.43.0


From 7c8627012e044b3b9810ac2e9006edee3fb1a2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:39 +0000
Subject: [PATCH 090/166] fix: util.Wc: crash if the first bundle has no trees

---
 udapi/block/util/wc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/util/wc.py b/udapi/block/util/wc.py
index 9920d0b..0f28d28 100644
--- a/udapi/block/util/wc.py
+++ b/udapi/block/util/wc.py
@@ -23,7 +23,7 @@ class Wc(Block):
         self.mwts += mwtoks
         self.tokens += len(tree.token_descendants) if mwtoks else len(tree.descendants)
         self.empty += len(tree.empty_nodes)
-        if tree.newdoc or tree == tree.document[0].trees[0]:
+        if tree.newdoc or tree == next(t for bundle in tree.document for t in bundle):
             self.docs += 1
         if tree.newpar:
             self.paragraphs += 1
-- 
2.43.0


From 97d07fbb10532b84a70c108ade5ecb224ddb399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 091/166] fix: util.Normalize: normalize also empty nodes and
 MISC of multi-word tokens

---
 udapi/block/util/normalize.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/udapi/block/util/normalize.py b/udapi/block/util/normalize.py
index 4cce4ab..ef0728a 100644
--- a/udapi/block/util/normalize.py
+++ b/udapi/block/util/normalize.py
@@ -85,8 +85,12 @@ class Normalize(Block):
                 else:
                     empty_ord = 0
                     node_ord = node.ord
-        for node in tree.descendants:
+        for node in tree.descendants_and_empty:
             self.process_node(node)
+        if self.misc:
+            for mwt in tree.multiword_tokens:
+                mwt.misc._deserialize_if_empty()
+                mwt.misc._string = None
 
     def process_node(self, node):
         if self.feats:
-- 
2.43.0


From 2779c71fbea19ef6346d9ae58bd9d6b79a4550d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:47 +0000
Subject: [PATCH 092/166] fix: ud.FixPunct: crash (cycle) on brackets with
 upos!=PUNCT enclosing only punctuation

---
 udapi/block/ud/fixpunct.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/block/ud/fixpunct.py b/udapi/block/ud/fixpunct.py
index 854a24a..acbd15b 100644
--- a/udapi/block/ud/fixpunct.py
+++ b/udapi/block/ud/fixpunct.py
@@ -209,6 +209,9 @@ class FixPunct(Block):
         node.deprel = 'punct'
 
     def _will_be_projective(self, node, cand):
+        # Paired marks with upos!=PUNCT may have been attached to the punctuation they enclose.
+        if cand.is_descendant_of(node):
+            return False
         node.parent = cand
         return not node.is_nonprojective() and not self._causes_gap(node)
 
-- 
2.43.0


From 7ff49c0e568cb7d8a0dda4100dea38c4b4d5751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:24 +0000
Subject: [PATCH 093/166] fix: ud.FixPunct: check UPOS of the closing mark as
 well (it could result in a crash)

---
 udapi/block/ud/fixpunct.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/udapi/block/ud/fixpunct.py b/udapi/block/ud/fixpunct.py
index acbd15b..7b4cc10 100644
--- a/udapi/block/ud/fixpunct.py
+++ b/udapi/block/ud/fixpunct.py
@@ -219,11 +219,13 @@ class FixPunct(Block):
         return node.is_nonprojective_gap() and not node.parent.is_nonprojective_gap()
 
     def _fix_paired_punct(self, root, opening_node, closing_punct):
-        if (self.check_paired_punct_upos
-            or opening_node.form in "'\"") and opening_node.upos != 'PUNCT':
+        check_upos = self.check_paired_punct_upos or opening_node.form in "'\""
+        if check_upos and opening_node.upos != 'PUNCT':
             return
         nested_level = 0
         for node in root.descendants[opening_node.ord:]:
+            if check_upos and node.upos != 'PUNCT':
+                continue
             if node.form == closing_punct:
                 if nested_level > 0:
                     nested_level -= 1
-- 
2.43.0


From e181878247d6ffe5c5c36d155df822ef57fea0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:56 +0000
Subject: [PATCH 094/166] fix: ud.SetTranslation: do not add empty comment
 lines

---
 udapi/block/ud/settranslation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/ud/settranslation.py b/udapi/block/ud/settranslation.py
index 487cca0..06a407b 100644
--- a/udapi/block/ud/settranslation.py
+++ b/udapi/block/ud/settranslation.py
@@ -38,11 +38,11 @@ class SetTranslation(Block):
 
     def process_tree(self, tree):
         if self.iline < self.nlines:
-            translation = self.trlines[self.iline]
+            translation = self.trlines[self.iline].rstrip('\r\n')
             self.iline += 1
             comments = []
             if tree.comment:
-                comments = tree.comment.split('\n')
+                comments = tree.comment.rstrip('\n').split('\n')
             i_tr = -1
             for i in range(len(comments)):
                 # The initial '#' character has been stripped.
-- 
2.43.0


From d1782bc9d94b6a8fc8a8b5e1b8c0ee9c7fdab01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:56 +0000
Subject: [PATCH 095/166] fix: ud.FixChain: chains of more than two edges with
 the head on the right

---
 udapi/block/ud/fixchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/fixchain.py b/udapi/block/ud/fixchain.py
index b3a586f..ed5a0de 100644
--- a/udapi/block/ud/fixchain.py
+++ b/udapi/block/ud/fixchain.py
@@ -14,5 +14,5 @@ class FixChain(Block):
 
     def process_node(self, node):
         for deprel in self.deprels:
-            if node.udeprel == deprel and node.parent.udeprel == deprel:
+            while node.udeprel == deprel and node.parent.udeprel == deprel:
                 node.parent = node.parent.parent
-- 
2.43.0


From 01640ad8256c722990aad77aa1c07d96f52903b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:56 +0000
Subject: [PATCH 096/166] fix: ud.FixRoot: crash on empty trees

---
 udapi/block/ud/fixroot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/fixroot.py b/udapi/block/ud/fixroot.py
index be972d8..8477156 100644
--- a/udapi/block/ud/fixroot.py
+++ b/udapi/block/ud/fixroot.py
@@ -26,6 +26,8 @@ class FixRoot(Block):
 
     def process_tree(self, root):
         rchildren = root.children
+        if not rchildren:
+            return
         if len(rchildren) > 1:
             for i in range(len(rchildren)-1):
                 rchildren[i+1].parent = rchildren[0]
-- 
2.43.0


From 2622087dd84555f0d8d799749ad85e9da62ed1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:56 +0000
Subject: [PATCH 097/166] fix: ud.FixCompoundName: skip names with numbers
 instead of converting only them

---
 udapi/block/ud/fixcompoundname.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/fixcompoundname.py b/udapi/block/ud/fixcompoundname.py
index 90596e3..4ac6a6c 100644
--- a/udapi/block/ud/fixcompoundname.py
+++ b/udapi/block/ud/fixcompoundname.py
@@ -29,7 +29,7 @@ class FixCompoundName(Block):
             # The Hindi treebank tags dates (['30', 'navaṁbara'], ['disaṁbara', '1993']) as PROPN compounds.
             # This is wrong but it is also different from personal names we are targeting here.
             # Hence, we will skip "names" that contain numbers.
-            if any(re.search(r"\d", x.form) for x in namewords):
+            if not any(re.search(r"\d", x.form) for x in namewords):
                 #logging.info(str([x.misc['Translit'] for x in namewords]))
                 ###!!! We currently cannot transform enhanced dependencies.
                 ###!!! If we proceed, the basic tree would diverge from the enhanced dependencies.
-- 
2.43.0


From 0c723c2aaffcfd054ecae9d9ec838f767d4752f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:56 +0000
Subject: [PATCH 098/166] fix: ud.FixAdvmodByUpos: keep advmod of adverbs

---
 udapi/block/ud/fixadvmodbyupos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/fixadvmodbyupos.py b/udapi/block/ud/fixadvmodbyupos.py
index d020b55..50da8af 100644
--- a/udapi/block/ud/fixadvmodbyupos.py
+++ b/udapi/block/ud/fixadvmodbyupos.py
@@ -27,7 +27,7 @@ class FixAdvmodByUpos(Block):
                 node.deprel = 'cc'
             elif node.upos == 'INTJ':
                 node.deprel = 'discourse'
-            else:
+            elif node.upos != 'ADV':
                 node.deprel = 'dep'
         ###!!! The following are not advmod so they should probably have their
         ###!!! own block or this block should have a different name.
-- 
2.43.0


From 50265d84f8aa96c1a5836be68d6468b584f1ff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:12 +0000
Subject: [PATCH 099/166] fix: ud.FixRightheaded: the new deprel of the
 promoted node may be right-headed as well

---
 udapi/block/ud/fixrightheaded.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/udapi/block/ud/fixrightheaded.py b/udapi/block/ud/fixrightheaded.py
index 045278d..a02f820 100644
--- a/udapi/block/ud/fixrightheaded.py
+++ b/udapi/block/ud/fixrightheaded.py
@@ -20,14 +20,14 @@ class FixRightheaded(Block):
         self.deprels = deprels.split(',')
 
     def process_node(self, node):
-        for deprel in self.deprels:
-            if node.udeprel == deprel and node.precedes(node.parent):
-                orig_parent = node.parent
-                node.parent = orig_parent.parent
-                if deprel != 'conj':
-                    for child in orig_parent.children:
-                        child.parent = node
-                orig_parent.parent = node
-                head_deprel = orig_parent.deprel
-                orig_parent.deprel = node.deprel
-                node.deprel = head_deprel
+        # The new deprel (and parent) of the node may need to be fixed as well.
+        while node.udeprel in self.deprels and node.precedes(node.parent):
+            orig_parent = node.parent
+            node.parent = orig_parent.parent
+            if node.udeprel != 'conj':
+                for child in orig_parent.children:
+                    child.parent = node
+            orig_parent.parent = node
+            head_deprel = orig_parent.deprel
+            orig_parent.deprel = node.deprel
+            node.deprel = head_deprel
-- 
2.43.0


From 645541ac79a1ff211b431376d2798265a34d4cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:08 +0000
Subject: [PATCH 100/166] fix: is_nonprojective_gap() of the technical root

---
 udapi/core/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 2c56705..4e14a8b 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -945,7 +945,7 @@ class Node(object):
             node = node._parent
             ancestors.add(node)
         all_nodes = node._descendants
-        for left_node in all_nodes[:self._ord - 1]:
+        for left_node in all_nodes[:max(self._ord - 1, 0)]:
             if self.precedes(left_node._parent) and left_node._parent not in ancestors:
                 return True
         for right_node in all_nodes[self._ord:]:
-- 
2.43.0


From 4069c3801ebfac09ceb15941b7d3c42996d6e353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:38 +0000
Subject: [PATCH 101/166] fix: write.Tikz: escape all characters special in
 LaTeX

---
 udapi/block/write/tikz.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/udapi/block/write/tikz.py b/udapi/block/write/tikz.py
index 4007173..87966a5 100644
--- a/udapi/block/write/tikz.py
+++ b/udapi/block/write/tikz.py
@@ -3,6 +3,11 @@ import logging
 
 from udapi.core.basewriter import BaseWriter
 
+TEX_ESCAPES = {
+    '_': r'\_', '$': r'\$', '[': '$[$', ']': '$]$', '&': r'\&', '%': r'\%', '#': r'\#',
+    '{': r'\{', '}': r'\}', '\\': r'\textbackslash{}', '~': r'\textasciitilde{}', '^': r'\textasciicircum{}',
+}
+
 
 class Tikz(BaseWriter):
     r"""A writer of files in the LaTeX with tikz-dependency format.
@@ -97,7 +102,7 @@ class Tikz(BaseWriter):
         super().after_process_document(doc)
 
     def _tex_escape(self, string):
-        return string.replace('_', r'\_').replace('$', '\$').replace('[', '$[$').replace(']', '$]$')
+        return ''.join(TEX_ESCAPES.get(char, char) for char in string)
 
     def process_tree(self, tree):
         print(r'\begin{dependency}')
@@ -138,19 +143,21 @@ class Tikz(BaseWriter):
                     print('')
                 else:
                     print(r' \draw[depedge] (w%d)--node[deplabel] {%s} (w%d);'
-                          % (node.ord, node.deprel, node.parent.ord))
+                          % (node.ord, self._tex_escape(node.deprel or '_'), node.parent.ord))
         else:
             for node in nodes:
                 if node.parent.is_root():
                     print(r'\deproot{%d}{root}' % node.ord)
                 else:
-                    print(r'\depedge{%d}{%d}{%s}' % (node.parent.ord, node.ord, node.deprel))
+                    print(r'\depedge{%d}{%d}{%s}'
+                          % (node.parent.ord, node.ord, self._tex_escape(node.deprel or '_')))
                 if self.enhanced:
                     for dep in node.deps:
                         if dep['parent'].is_root():
                             print(r'\deproot[edge below]{%d}{root}' % node.ord)
                         else:
-                            print(r'\depedge[edge below]{%d}{%d}{%s}' % (dep['parent'].ord, node.ord, dep['deprel']))
+                            print(r'\depedge[edge below]{%d}{%d}{%s}'
+                                  % (dep['parent'].ord, node.ord, self._tex_escape(dep['deprel'])))
         if self.comment_attribute and tree.comment:
             start_pos = tree.comment.find(self.comment_attribute + ' = ')
             if start_pos != -1:
-- 
2.43.0


From 374c595df34a4be5e3a2d05f9bb0aa9c9494b518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:38 +0000
Subject: [PATCH 102/166] fix: write.Tikz: crash on nodes with missing
 attributes

---
 udapi/block/write/tikz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/tikz.py b/udapi/block/write/tikz.py
index 87966a5..4d38eb1 100644
--- a/udapi/block/write/tikz.py
+++ b/udapi/block/write/tikz.py
@@ -122,7 +122,7 @@ class Tikz(BaseWriter):
 
         lines = ['' for _ in self.node_attributes]
         for node in nodes:
-            values = [self._tex_escape(v) for v in node.get_attrs(self.node_attributes)]
+            values = [self._tex_escape(v) for v in node.get_attrs(self.node_attributes, undefs='_')]
             max_len = max(len(value) for value in values)
             for index, value in enumerate(values):
                 if node.ord > 1:
-- 
2.43.0


From 2f9193a25c20b5178a12593f815571462cc0148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:38 +0000
Subject: [PATCH 103/166] fix: write.Tikz: crash with as_tree=1 on empty trees

---
 udapi/block/write/tikz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/tikz.py b/udapi/block/write/tikz.py
index 4d38eb1..9b72735 100644
--- a/udapi/block/write/tikz.py
+++ b/udapi/block/write/tikz.py
@@ -133,7 +133,7 @@ class Tikz(BaseWriter):
         print(r'\end{deptext}')
         if self.as_tree:
             depths = [n._get_attr('depth') for n in nodes]
-            max_depth = max(depths)
+            max_depth = max(depths, default=0)
             for node in nodes:
                 print(r'\node (w%d) [yshift=\depskip+%s\deplevel,depnode] at (\wordref{1}{%d}) {};'
                       % (node.ord, max_depth - depths[node.ord - 1], node.ord))
-- 
2.43.0


From 0e66cb3d9aafbff5241314c6c59659f0320e862b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:01 +0000
Subject: [PATCH 104/166] fix: write.Tikz: comment_attribute produced an
 unclosed brace

---
 udapi/block/write/tikz.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/udapi/block/write/tikz.py b/udapi/block/write/tikz.py
index 9b72735..0c9995f 100644
--- a/udapi/block/write/tikz.py
+++ b/udapi/block/write/tikz.py
@@ -1,5 +1,6 @@
 """Tikz class is a writer for LaTeX with tikz-dependency."""
 import logging
+import re
 
 from udapi.core.basewriter import BaseWriter
 
@@ -159,11 +160,9 @@ class Tikz(BaseWriter):
                             print(r'\depedge[edge below]{%d}{%d}{%s}'
                                   % (dep['parent'].ord, node.ord, self._tex_escape(dep['deprel'])))
         if self.comment_attribute and tree.comment:
-            start_pos = tree.comment.find(self.comment_attribute + ' = ')
-            if start_pos != -1:
-                start_pos += len(self.comment_attribute) + 3
-                end_pos = tree.comment.find('\n', start_pos)
-                print(r'\deptrans{' + tree.comment[start_pos:end_pos])
+            match = re.search(r'^\s*' + re.escape(self.comment_attribute) + ' = (.*)', tree.comment, re.M)
+            if match:
+                print(r'\deptrans{' + self._tex_escape(match.group(1)) + '}')
 
         print(r'\end{dependency}')
         print('')  # empty line marks a new paragraph in LaTeX, but multi=dependency causes newpage
-- 
2.43.0


From 85a6014fbf7ca2f1e3955b97e4da9cadfd0347c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:01 +0000
Subject: [PATCH 105/166] fix: write.Treex: escape characters special in XML

---
 udapi/block/write/treex.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/udapi/block/write/treex.py b/udapi/block/write/treex.py
index 7faea41..8eb1394 100644
--- a/udapi/block/write/treex.py
+++ b/udapi/block/write/treex.py
@@ -1,4 +1,6 @@
 """write.Treex is a writer block for Treex XML (e.g. for TrEd editing)."""
+from html import escape
+
 from udapi.core.basewriter import BaseWriter
 
 
@@ -20,7 +22,7 @@ class Treex(BaseWriter):
         super().after_process_document(doc)
 
     def process_bundle(self, bundle):
-        print('    <LM id="%s">\n      <zones>' % bundle.bundle_id)
+        print('    <LM id="%s">\n      <zones>' % escape(str(bundle.bundle_id)))
         super().process_bundle(bundle)
         print('      </zones>\n    </LM>')
 
@@ -29,30 +31,30 @@ class Treex(BaseWriter):
         language, selector = zone_parts if len(zone_parts) == 2 else ('und', tree.zone)
         tree_id = tree.bundle.bundle_id + '-' + language
         ind = ' ' * 8
-        print(ind + "<zone language='%s' selector='%s'>" % (language, selector))
+        print(ind + "<zone language='%s' selector='%s'>" % (escape(language), escape(selector)))
         if tree.text:
-            print(ind + "  <sentence>%s</sentence>" % tree.text)
-        print(ind + "  <trees>\n" + ind + "    <a_tree id='%s'>" % tree_id)
+            print(ind + "  <sentence>%s</sentence>" % escape(tree.text))
+        print(ind + "  <trees>\n" + ind + "    <a_tree id='%s'>" % escape(tree_id))
         self.print_subtree(tree, tree_id, ' ' * 12)
         print(ind + "    </a_tree>\n" + ind + "  </trees>\n" + ind + "</zone>")
 
     def print_subtree(self, node, tree_id, indent):
         """Recrsively print trees in Treex format."""
         if not node.is_root():
-            print(indent + "<LM id='%s-n%s'>" % (tree_id, node.ord))
+            print(indent + "<LM id='%s-n%s'>" % (escape(tree_id), node.ord))
         ind = indent + '  '
         print(ind + "<ord>%s</ord>" % node.ord)
         if not node.is_root():
             if node.form:
-                print(ind + "<form>%s</form>" % node.form)
+                print(ind + "<form>%s</form>" % escape(node.form))
             if node.lemma:
-                print(ind + "<lemma>%s</lemma>" % node.lemma)
+                print(ind + "<lemma>%s</lemma>" % escape(node.lemma))
             if node.upos:
-                print(ind + "<tag>%s</tag>" % node.upos)
+                print(ind + "<tag>%s</tag>" % escape(node.upos))
             if node.deprel:
-                print(ind + "<deprel>%s</deprel>" % node.deprel)
+                print(ind + "<deprel>%s</deprel>" % escape(node.deprel))
             print(ind + "<conll><pos>%s</pos><feat>%s</feat></conll>"
-                  % (node.xpos, str(node.feats)))
+                  % (escape(node.xpos or '_'), escape(str(node.feats))))
 
         # TODO misc and deps into wild, but probably need to encode ř as \x{159} etc.
         if node.children:
-- 
2.43.0


From c977814c0ee399e23ea53ad96652d02eea21f626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:01 +0000
Subject: [PATCH 106/166] fix: write.Treex: unique ids of trees in the same
 bundle

---
 udapi/block/write/treex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/treex.py b/udapi/block/write/treex.py
index 8eb1394..34e40af 100644
--- a/udapi/block/write/treex.py
+++ b/udapi/block/write/treex.py
@@ -29,7 +29,7 @@ class Treex(BaseWriter):
     def process_tree(self, tree):
         zone_parts = tree.zone.split('_')
         language, selector = zone_parts if len(zone_parts) == 2 else ('und', tree.zone)
-        tree_id = tree.bundle.bundle_id + '-' + language
+        tree_id = '%s-%s' % (tree.bundle.bundle_id, tree.zone or language)
         ind = ' ' * 8
         print(ind + "<zone language='%s' selector='%s'>" % (escape(language), escape(selector)))
         if tree.text:
-- 
2.43.0


From 42e9f8ad078ca39a82086307a4837a5820765c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:02 +0000
Subject: [PATCH 107/166] fix: write.Html: forms like "</script>" broke the
 page

---
 udapi/block/write/html.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/write/html.py b/udapi/block/write/html.py
index ae85d43..8a41b76 100644
--- a/udapi/block/write/html.py
+++ b/udapi/block/write/html.py
@@ -163,4 +163,5 @@ def _id(node):
 def _esc(string):
     if string is None:
         string = ''
-    return string.replace('\\', '\\\\').replace('"', r'\"')
+    # "</script>" in the sentences must not end the script element
+    return string.replace('\\', '\\\\').replace('"', r'\"').replace('</', r'<\/').replace('<!--', r'\u003c!--')
-- 
2.43.0


From be40c1a5f1da45d4cd44f5915bc8973839642241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:02 +0000
Subject: [PATCH 108/166] fix: write.SentencesHtml: escape characters special
 in HTML

---
 udapi/block/write/sentenceshtml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/sentenceshtml.py b/udapi/block/write/sentenceshtml.py
index e0f8724..b29e5e7 100644
--- a/udapi/block/write/sentenceshtml.py
+++ b/udapi/block/write/sentenceshtml.py
@@ -1,4 +1,6 @@
 """SentencesHtml class is a writer for sentences in HTML list (could be Google-translated, remembering sentence correspondence)."""
+from html import escape
+
 from udapi.core.basewriter import BaseWriter
 
 
@@ -26,7 +28,7 @@ class SentencesHtml(BaseWriter):
     def before_process_document(self, document):
         super().before_process_document(document)
         print('<!DOCTYPE html>\n<html>\n<head>\n<meta charset="utf-8">')
-        print('<title>' + self.title + '</title>')
+        print('<title>' + escape(self.title, quote=False) + '</title>')
         print('</head>\n<body>\n<ul>\n')
 
     def after_process_document(self, document):
@@ -34,4 +36,4 @@ class SentencesHtml(BaseWriter):
         super().after_process_document(document)
 
     def process_tree(self, tree):
-        print('  <li id="%s">%s</li>' % (tree.sent_id, tree.get_sentence(self.if_missing)))
+        print('  <li id="%s">%s</li>' % (escape(str(tree.sent_id)), escape(tree.get_sentence(self.if_missing), quote=False)))
-- 
2.43.0


From faac8d2d642f83c8916febef60ae884bff3e64dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 109/166] fix: read.Vislcg: multi-word token at the end of a
 sentence

---
 udapi/block/read/vislcg.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/udapi/block/read/vislcg.py b/udapi/block/read/vislcg.py
index 4c5a87a..5028577 100644
--- a/udapi/block/read/vislcg.py
+++ b/udapi/block/read/vislcg.py
@@ -30,24 +30,11 @@ class Vislcg(BaseReader):
                 parents.append(parent_ord)
                 continue
 
-            if words:
-                words[0].form = form
-                if len(words) > 1:
-                    split_forms = form.split()
-                    if len(words) == len(split_forms):
-                        for word, split_form in zip(words, split_forms):
-                            word.form = split_form
-                    else:
-                        for word in words[1:]:
-                            word.form = '_'
-                    root.create_multiword_token(words, form=form)
-                words = []
+            self._set_forms(words, form, root)
+            words = []
             form = line[2:-2]
 
-        if words:
-            words[0].form = form
-            for word in words[1:]:
-                word.form = '_'
+        self._set_forms(words, form, root)
 
         nodes = root.descendants(add_self=True)
         if len(nodes) == 1:
@@ -60,6 +47,21 @@ class Vislcg(BaseReader):
 
         return root
 
+    @staticmethod
+    def _set_forms(words, form, root):
+        if not words:
+            return
+        words[0].form = form
+        if len(words) > 1:
+            split_forms = form.split()
+            if len(words) == len(split_forms):
+                for word, split_form in zip(words, split_forms):
+                    word.form = split_form
+            else:
+                for word in words[1:]:
+                    word.form = '_'
+            root.create_multiword_token(words, form=form)
+
     @staticmethod
     def _node(line, root):
         # line contains "lemma" xpos feat1 feat2 .. featN @deprel #ord->parent.ord
-- 
2.43.0


From 00aac41f72011a6764abb9573d84fd50ae9c064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 110/166] fix: read.Vislcg: the first two features were lost

---
 udapi/block/read/vislcg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/vislcg.py b/udapi/block/read/vislcg.py
index 5028577..b1089e3 100644
--- a/udapi/block/read/vislcg.py
+++ b/udapi/block/read/vislcg.py
@@ -72,7 +72,7 @@ class Vislcg(BaseReader):
         lemma = line[1:end_quote_pos]
         fields = line[end_quote_pos + 1:].split()
         xpos = fields[0]
-        feats_list = fields[3:-2]
+        feats_list = fields[1:-2]
         feats = '|'.join(feats_list) if feats_list else '_'
         deprel = fields[-2][1:]
         parent_ord = int(fields[-1].split('->')[1])
-- 
2.43.0


From 89538f42c38c4f5023533f92ea66e7220ac4fa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 111/166] fix: read.Vislcg: unescape the characters escaped by
 write.Vislcg

---
 udapi/block/read/vislcg.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/udapi/block/read/vislcg.py b/udapi/block/read/vislcg.py
index b1089e3..7571471 100644
--- a/udapi/block/read/vislcg.py
+++ b/udapi/block/read/vislcg.py
@@ -1,6 +1,15 @@
 """Vislcg is a reader block the VISL-cg format."""
+import re
+
 from udapi.core.basereader import BaseReader
 from udapi.core.root import Root
+from udapi.block.write.vislcg import ESCAPE_TABLE
+
+UNESCAPE_TABLE = {escaped: char for char, escaped in ESCAPE_TABLE.items()}
+
+
+def _unescape(string):
+    return re.sub(r'§\w+\.', lambda match: UNESCAPE_TABLE.get(match.group(), match.group()), string)
 
 
 class Vislcg(BaseReader):
@@ -32,7 +41,7 @@ class Vislcg(BaseReader):
 
             self._set_forms(words, form, root)
             words = []
-            form = line[2:-2]
+            form = _unescape(line[2:-2])
 
         self._set_forms(words, form, root)
 
@@ -69,11 +78,11 @@ class Vislcg(BaseReader):
         # so we cannot use fields = shlex.split(line)
         # Let's hope that xpos, feats and deprel do not contain any quotes.
         end_quote_pos = line.rfind('"')
-        lemma = line[1:end_quote_pos]
+        lemma = _unescape(line[1:end_quote_pos])
         fields = line[end_quote_pos + 1:].split()
-        xpos = fields[0]
+        xpos = _unescape(fields[0])
         feats_list = fields[1:-2]
-        feats = '|'.join(feats_list) if feats_list else '_'
+        feats = _unescape('|'.join(feats_list)) if feats_list else '_'
         deprel = fields[-2][1:]
         parent_ord = int(fields[-1].split('->')[1])
         node = root.create_child(lemma=lemma, xpos=xpos, feats=feats, deprel=deprel)
-- 
2.43.0


From 3c80a3a3b7a8512b5fcb48b3530c264ed64a6f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:49 +0000
Subject: [PATCH 112/166] fix: read.Conll: report negative HEAD

---
 udapi/block/read/conll.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index d0aef1e..7456d94 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -130,6 +130,8 @@ class Conll(udapi.block.read.conllu.Conllu):
         # Set dependency parents (now, all nodes of the tree are created).
         for node_ord, node in enumerate(nodes[1:], 1):
             try:
+                if parents[node_ord] < 0:
+                    raise IndexError
                 parent = nodes[parents[node_ord]]
             except IndexError:
                 raise ValueError("Node %s HEAD is out of range (%d)" % (node, parents[node_ord]))
-- 
2.43.0


From 1d05f1638572d5a89d9151d15b2d889e0e6b7711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:49 +0000
Subject: [PATCH 113/166] fix: read.Conll: forms "_" were read as None

---
 udapi/block/read/conll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index 7456d94..910bc06 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -95,7 +95,7 @@ class Conll(udapi.block.read.conllu.Conllu):
                     raise ValueError(f"Node {node} ord mismatch: {value}, but expecting {node._ord} at:\n{line}")
             elif attribute_name == 'deps':
                 setattr(node, 'raw_deps', value)
-            elif attribute_name != '_' and value != '_':
+            elif attribute_name in ('form', 'lemma') or (attribute_name != '_' and value != '_'):
                 setattr(node, attribute_name, value)
 
         nodes.append(node)
-- 
2.43.0


From 4c77af3022068bc6b2bd012789af5bf73c809cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:49 +0000
Subject: [PATCH 114/166] fix: read.Conll, read.Conllup: multi-word tokens and
 empty nodes with non-default columns

---
 udapi/block/read/conll.py   | 27 +++++++++++++++++----------
 udapi/block/read/conllup.py | 11 +++++++----
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index 910bc06..113694c 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -64,15 +64,14 @@ class Conll(udapi.block.read.conllu.Conllu):
             if self.strict:
                 raise RuntimeError('Wrong number of columns in %r' % line)
             fields.extend(['_'] * (len(self.node_attributes) - len(fields)))
+        values = dict(zip(self.node_attributes, fields))
+        node_id = values.get('ord', '')
         # multi-word tokens will be processed later
-        if '-' in fields[0]:
-            mwts.append(fields)
+        if '-' in node_id:
+            mwts.append(values)
             return
-        if '.' in fields[0]:
-            empty = root.create_empty_child(form=fields[1], lemma=fields[2], upos=fields[3],
-                                            xpos=fields[4], feats=fields[5], misc=fields[9])
-            empty.ord = fields[0]
-            empty.raw_deps = fields[8]  # TODO
+        if '.' in node_id:
+            self.create_empty_node(values, root)
             return
 
         # This implementation is slower than in read.Conllu,
@@ -100,6 +99,14 @@ class Conll(udapi.block.read.conllu.Conllu):
 
         nodes.append(node)
 
+    @staticmethod
+    def create_empty_node(values, root):
+        attrs = ('form', 'lemma', 'upos', 'xpos', 'feats', 'misc')
+        empty = root.create_empty_child(**{a: values.get(a, '_') for a in attrs})
+        empty.ord = values['ord']
+        empty.raw_deps = values.get('deps', '_')
+        return empty
+
     # Acknowledged code duplication with read.Conllu
     def read_tree_from_lines(self, lines):
         root = Root()
@@ -156,9 +163,9 @@ class Conll(udapi.block.read.conllu.Conllu):
             parent._children.append(node)
 
         # Create multi-word tokens.
-        for fields in mwts:
-            range_start, range_end = fields[0].split('-')
+        for values in mwts:
+            range_start, range_end = values['ord'].split('-')
             words = nodes[int(range_start):int(range_end) + 1]
-            root.create_multiword_token(words, form=fields[1], misc=fields[-1])
+            root.create_multiword_token(words, form=values.get('form', '_'), misc=values.get('misc', '_'))
 
         return root
diff --git a/udapi/block/read/conllup.py b/udapi/block/read/conllup.py
index 16d83d0..4dcdef0 100644
--- a/udapi/block/read/conllup.py
+++ b/udapi/block/read/conllup.py
@@ -61,12 +61,15 @@ class Conllup(udapi.block.read.conll.Conll):
                 raise RuntimeError('Wrong number of columns in %r' % line)
             fields.extend(['_'] * (len(self.node_attributes) - len(fields)))
 
+        values = dict(zip(self.node_attributes, fields))
+        node_id = values.get('ord', '')
         # multi-word tokens will be processed later
-        if '-' in fields[0]:
-            mwts.append(fields)
+        if '-' in node_id:
+            mwts.append(values)
+            return
+        if '.' in node_id:
+            self.create_empty_node(values, root)
             return
-        if '.' in fields[0]:
-            raise NotImplementedError("Empty nodes in CoNLL-UPlus not implement yet in read.Conllup")
 
         # This implementation is slower than in read.Conllu,
         # but it allows for arbitrary columns
-- 
2.43.0


From 880b1679dfe55422e696ba053d86889d4bfe872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:05 +0000
Subject: [PATCH 115/166] fix: read.Conllup: columns of each file, not only the
 first one

---
 udapi/block/read/conllup.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/udapi/block/read/conllup.py b/udapi/block/read/conllup.py
index 4dcdef0..1b9892a 100644
--- a/udapi/block/read/conllup.py
+++ b/udapi/block/read/conllup.py
@@ -37,22 +37,22 @@ class Conllup(udapi.block.read.conll.Conll):
         """
         super().__init__(**kwargs)
         self.save_global_columns = save_global_columns
-        if attributes == 'autodetect':
+        self.autodetect = attributes == 'autodetect'
+        if self.autodetect:
             self.node_attributes = None
         else:
             self.node_attributes = attributes.split(',')
 
     def parse_comment_line(self, line, root):
-        if self.node_attributes is None:
-            global_columns_match = RE_GLOBAL_COLUMNS.match(line)
-            if global_columns_match is None:
-                return super().parse_comment_line(line, root)
+        global_columns_match = RE_GLOBAL_COLUMNS.match(line)
+        if global_columns_match is None:
+            return super().parse_comment_line(line, root)
+        # Each file may have different columns.
+        if self.autodetect:
             global_columns = global_columns_match.group(1)
             self.node_attributes = [COLUMN_MAP.get(v, v.lower()) for v in global_columns.split(" ")]
-            if self.save_global_columns:
-                root.comment += line[1:] + '\n'
-            return
-        return super().parse_comment_line(line, root)
+        if self.save_global_columns:
+            root.comment += line[1:] + '\n'
 
     def parse_node_line(self, line, root, nodes, parents, mwts):
         fields = line.split('\t')
-- 
2.43.0


From 938c7c6fa1ca6eb49a0f911643f71d2eabb91146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:40 +0000
Subject: [PATCH 116/166] fix: read.Conll, read.Conllup: all words were among
 the children of the root

---
 udapi/block/read/conll.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index 113694c..9d42b63 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -135,6 +135,8 @@ class Conll(udapi.block.read.conllu.Conllu):
             root._descendants = []
 
         # Set dependency parents (now, all nodes of the tree are created).
+        # All the nodes have been created as children of the root.
+        root._children = []
         for node_ord, node in enumerate(nodes[1:], 1):
             try:
                 if parents[node_ord] < 0:
-- 
2.43.0


From cff021e0de5f2395884bc4efaf7eaf9e6047f668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:22 +0000
Subject: [PATCH 117/166] fix: read.Ccv: crash when not reading the whole file
 into one document

---
 udapi/block/read/ccv.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/udapi/block/read/ccv.py b/udapi/block/read/ccv.py
index eb44936..2efa88f 100644
--- a/udapi/block/read/ccv.py
+++ b/udapi/block/read/ccv.py
@@ -18,6 +18,7 @@ class Ccv(BaseReader):
     def __init__(self, tokenize=True, **kwargs):
         self.tokenize = tokenize
         self._cache = None
+        self._cached_filehandle = None
         super().__init__(**kwargs)
 
     @staticmethod
@@ -29,14 +30,10 @@ class Ccv(BaseReader):
         return False
 
     def read_tree(self):
-        if self._cache:
-            return self._cache.pop()
-        else:
-            trees = self.read_trees()
-            if not trees:
-                return None
-            self._cache = list(reversed(trees[1:]))
-            return trees[0]
+        if self.filehandle is not self._cached_filehandle:
+            self._cached_filehandle = self.filehandle
+            self._cache = list(reversed(self.read_trees() or []))
+        return self._cache.pop() if self._cache else None
 
     def read_trees(self):
         if self.filehandle is None:
-- 
2.43.0


From 4f99cf3f545cd1d6e627664d653ef56d7079f398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:01 +0000
Subject: [PATCH 118/166] fix: write.CorefHtml: more mentions crossing the same
 mention

---
 udapi/block/write/corefhtml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/corefhtml.py b/udapi/block/write/corefhtml.py
index 1d5d471..7bfbc3b 100644
--- a/udapi/block/write/corefhtml.py
+++ b/udapi/block/write/corefhtml.py
@@ -442,7 +442,7 @@ class CorefHtml(BaseWriter):
                 print('</span>' * (len(endings) + len(brokens)), end='')
                 for broken in brokens:
                     self._start_subspan(broken, True)
-                    opened.append(subspan)
+                    opened.append(broken)
 
             if not node.no_space_after:
                 print(' ', end='')
-- 
2.43.0


From 88cfc4f8e7a041bfcc5e92d3e51e3628a2937bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:01 +0000
Subject: [PATCH 119/166] fix: write.CorefHtml: unclosed spans of crossing
 mentions with rtl=1

---
 udapi/block/write/corefhtml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/corefhtml.py b/udapi/block/write/corefhtml.py
index 7bfbc3b..3130c74 100644
--- a/udapi/block/write/corefhtml.py
+++ b/udapi/block/write/corefhtml.py
@@ -439,7 +439,7 @@ class CorefHtml(BaseWriter):
                     else:
                         new_opened.append(subspan)
                 opened = new_opened
-                print('</span>' * (len(endings) + len(brokens)), end='')
+                print('</span>' * (len(endings) + len(brokens)) * (2 if self.rtl else 1), end='')
                 for broken in brokens:
                     self._start_subspan(broken, True)
                     opened.append(broken)
-- 
2.43.0


From 50b9d9ccf825fc90b43e7500dce01cc6df0b0277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:01 +0000
Subject: [PATCH 120/166] fix: write.CorefHtml: crash on documents without
 trees

---
 udapi/block/write/corefhtml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/corefhtml.py b/udapi/block/write/corefhtml.py
index 3130c74..dc2fe7e 100644
--- a/udapi/block/write/corefhtml.py
+++ b/udapi/block/write/corefhtml.py
@@ -310,7 +310,7 @@ class CorefHtml(BaseWriter):
               )
 
         # The first ud_doc will be printed to the main html file.
-        self.process_ud_doc(ud_docs[0], 1)
+        self.process_ud_doc(ud_docs[0] if ud_docs else [], 1)
         print('</div>') # id=main
 
         # Other ud_docs will be printed into separate files (so they can be loaded lazily)
@@ -327,7 +327,7 @@ class CorefHtml(BaseWriter):
         print(SCRIPT_BASE)
         if self.show_trees:
             print('docs_json = [false, ', end='') # 1-based index, so dummy docs_json[0]
-            WRITE_HTML.print_doc_json(ud_docs[0])
+            WRITE_HTML.print_doc_json(ud_docs[0] if ud_docs else [])
             print('];')
             try:
                 for i, ud_doc in enumerate(ud_docs[1:], 2):
-- 
2.43.0


From 5d1717efef69cfecca81ca7e1ed1bfba72b07055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:01 +0000
Subject: [PATCH 121/166] fix: write.CorefHtml: crash on entities without
 mentions

---
 udapi/block/write/corefhtml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/corefhtml.py b/udapi/block/write/corefhtml.py
index dc2fe7e..d431e7a 100644
--- a/udapi/block/write/corefhtml.py
+++ b/udapi/block/write/corefhtml.py
@@ -218,7 +218,7 @@ class CorefHtml(BaseWriter):
             nodes = [n for n in heads if n.upos == upos]
             if nodes:
                 return lemma_or_form(nodes[0])
-        return lemma_or_form(heads[0])
+        return lemma_or_form(heads[0]) if heads else ''
 
     def process_ud_doc(self, ud_doc, doc_num):
         print(f'<div class="doc" id="doc{doc_num}">')
-- 
2.43.0


From 1ada37e159521187c0fbcce9de77f15813706f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:01 +0000
Subject: [PATCH 122/166] fix: write.CorefHtml: escape characters special in
 HTML

---
 udapi/block/write/corefhtml.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/udapi/block/write/corefhtml.py b/udapi/block/write/corefhtml.py
index d431e7a..dd9c933 100644
--- a/udapi/block/write/corefhtml.py
+++ b/udapi/block/write/corefhtml.py
@@ -16,6 +16,7 @@ Non-recommended solution is to run
 from udapi.core.basewriter import BaseWriter
 from udapi.core.coref import span_to_nodes, CorefEntity, CorefMention
 from collections import Counter
+from html import escape
 import udapi.block.write.html
 import gzip
 import sys
@@ -283,7 +284,7 @@ class CorefHtml(BaseWriter):
         for entity in doc.coref_entities:
             print(f'<tr><td><a href="#{_dom_esc(entity.eid)}">{entity.eid}</a></td>'
                   f'<td>{len(entity.mentions)}</td>'
-                  f'<td>{self._representative_word(entity)}</td></tr>')
+                  f'<td>{escape(self._representative_word(entity))}</td></tr>')
         print('</tbody></table>')
         print('</div>')
 
@@ -359,6 +360,7 @@ class CorefHtml(BaseWriter):
             title += '\ncrossing'
         if m.other:
             title += f'\n{m.other}'
+        title = escape(title)
         span_id = ''
         if (subspan.subspan_id == '' or subspan.subspan_id.startswith('[1/')) and e.mentions[0] == m:
             span_id = f'id="{_dom_esc(e.eid)}" '
@@ -386,7 +388,7 @@ class CorefHtml(BaseWriter):
         subspans.sort(reverse=True)
 
         if tree.newdoc:
-            print(f'<hr><h1>{tree.newdoc if tree.newdoc is not True else ""}</h1><hr>')
+            print(f'<hr><h1>{escape(tree.newdoc) if tree.newdoc is not True else ""}</h1><hr>')
         elif tree.newpar:
             print('<hr class="par">')
         opened, prev_node_mention = [], True
@@ -408,7 +410,7 @@ class CorefHtml(BaseWriter):
                 print('<b class="head">', end='')
             if node.is_empty():
                 print('<i class="empty">', end='')
-            print(node.form, end='')
+            print(escape(node.form, quote=False), end='')
             if node.is_empty():
                 print('</i>', end='')
             if is_head:
-- 
2.43.0


From 18cd4f31d99461f2fa9d3a73d23d904821791898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:01 +0000
Subject: [PATCH 123/166] fix: read.OldCorefUD: do not merge clusters whose ids
 differ only in hyphens

---
 udapi/block/read/oldcorefud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/oldcorefud.py b/udapi/block/read/oldcorefud.py
index 73e05f3..c7b5779 100644
--- a/udapi/block/read/oldcorefud.py
+++ b/udapi/block/read/oldcorefud.py
@@ -20,7 +20,7 @@ class OldCorefUD(udapi.block.read.conllu.Conllu):
         self.new2orig = {}
 
     def _fix_id(self, cid):
-        if not cid or '-' not in cid:
+        if not cid:
             return cid
         new_cid = self.orig2new.get(cid)
         if new_cid is None:
-- 
2.43.0


From 3b990f43534698edfd6d56e991e088348104cd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:25 +0000
Subject: [PATCH 124/166] fix: corefud.RemoveNoCorefEntities: nodes kept
 mentions of the removed entities

---
 udapi/block/corefud/removenocorefentities.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/udapi/block/corefud/removenocorefentities.py b/udapi/block/corefud/removenocorefentities.py
index 4551873..3acd8f6 100644
--- a/udapi/block/corefud/removenocorefentities.py
+++ b/udapi/block/corefud/removenocorefentities.py
@@ -18,4 +18,9 @@ class RemoveNoCorefEntities(Block):
         entities = doc.coref_entities
         if not entities:
             return
+        for entity in entities:
+            if re.match(r'^NOCOREF', entity.eid):
+                # Nodes, bridging and split antecedents should not refer to the removed mentions any more.
+                for mention in list(entity.mentions):
+                    mention.remove()
         doc._eid_to_entity = {e._eid: e for e in entities if not re.match(r'^NOCOREF', e.eid)}
-- 
2.43.0


From 6990176d210110e2f574766597eecc99cca48327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:25 +0000
Subject: [PATCH 125/166] fix: corefud.Delete: empty=1 could attach a node to
 itself in DEPS

---
 udapi/block/corefud/delete.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/block/corefud/delete.py b/udapi/block/corefud/delete.py
index 4e68e8d..c23157c 100644
--- a/udapi/block/corefud/delete.py
+++ b/udapi/block/corefud/delete.py
@@ -51,6 +51,9 @@ class Delete(Block):
                 newdeps.append({'parent': node.root, 'deprel': 'root'})
                 continue
             for dep in proc_node.deps:
+                # the node cannot depend on itself
+                if dep['parent'] is node:
+                    continue
                 # keep deps with a parent that shouldn't be ignored
                 if not dep['parent'] in parents_to_ignore:
                     newdeps.append(dep)
-- 
2.43.0


From 68574e0f2e68a93f7862977bb999e53880a14036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:25 +0000
Subject: [PATCH 126/166] fix: corefud.MergeSameSpan: nondeterminism and errors
 with three same-span mentions

---
 udapi/block/corefud/mergesamespan.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/udapi/block/corefud/mergesamespan.py b/udapi/block/corefud/mergesamespan.py
index 61b613c..1e09079 100644
--- a/udapi/block/corefud/mergesamespan.py
+++ b/udapi/block/corefud/mergesamespan.py
@@ -16,12 +16,15 @@ class MergeSameSpan(Block):
         self.same_entity_only = same_entity_only
 
     def process_tree(self, tree):
-        mentions = set()
+        # Use dict instead of set, so the order of mentions is deterministic.
+        mentions, removed = {}, set()
         for node in tree.descendants_and_empty:
             for m in node.coref_mentions:
-                mentions.add(m)
+                mentions[m] = True
 
         for mA, mB in itertools.combinations(mentions, 2):
+            if mA in removed or mB in removed:
+                continue
             if self.same_entity_only and mA.entity != mB.entity:
                 continue
             # Reduce non-determinism in which mention is removed:
@@ -42,11 +45,7 @@ class MergeSameSpan(Block):
                 ###!!! TODO: As of now, changing the entity of a mention is not supported in the API.
                 #for m in mB.entity.mentions:
                 #    m.entity = mA.entity
-            # Remove mention B. It may have been removed earlier because of
-            # another duplicate, that is the purpose of try-except.
+            # Remove mention B.
             ###!!! TODO: If we remove a singleton, we are destroying the entity. Then we must also handle possible bridging and split antecedents pointing to that entity!
-            mB.words = []
-            try:
-                mB.entity.mentions.remove(mB)
-            except ValueError:
-                pass
+            mB.remove()
+            removed.add(mB)
-- 
2.43.0


From f2d9168f0dbdb8de1b996d26c950fea0bb8a9bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:25 +0000
Subject: [PATCH 127/166] fix: corefud.FixInterleaved: nondeterminism,
 interleaved mentions left, deleted mentions changed

---
 udapi/block/corefud/fixinterleaved.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/udapi/block/corefud/fixinterleaved.py b/udapi/block/corefud/fixinterleaved.py
index b4a42a4..2cb4950 100644
--- a/udapi/block/corefud/fixinterleaved.py
+++ b/udapi/block/corefud/fixinterleaved.py
@@ -16,10 +16,16 @@ class FixInterleaved(Block):
         self.nested_same_subspan = nested_same_subspan
 
     def process_tree(self, tree):
-        mentions, deleted = set(), set()
+        # A fixed mention may be interleaved with another mention checked before.
+        while self._fix_mentions(tree):
+            pass
+
+    def _fix_mentions(self, tree):
+        # Use dict instead of set, so the order of mentions is deterministic.
+        mentions, deleted = {}, set()
         for node in tree.descendants_and_empty:
             for m in node.coref_mentions:
-                mentions.add(m)
+                mentions[m] = True
 
         for mA, mB in itertools.combinations(mentions, 2):
             if mA in deleted or mB in deleted:
@@ -80,5 +86,6 @@ class FixInterleaved(Block):
                     mA.entity.mentions.remove(mA)
                 except ValueError:
                     pass
-                break
                 deleted.add(mA)
+                break
+        return bool(deleted)
-- 
2.43.0


From 3c364a1d3a7fe1c34f81d7893a72ba87fe76d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:25 +0000
Subject: [PATCH 128/166] fix: corefud.Link2Cluster: crash on cycles of links

---
 udapi/block/corefud/link2cluster.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/udapi/block/corefud/link2cluster.py b/udapi/block/corefud/link2cluster.py
index 0829653..56be547 100644
--- a/udapi/block/corefud/link2cluster.py
+++ b/udapi/block/corefud/link2cluster.py
@@ -99,12 +99,14 @@ class Link2Cluster(Block):
                     self._new_mention(entity, ante_node)
                     self._new_mention(entity, this_node)
                 elif this_node.coref_mentions and ante_node.coref_mentions:
-                    # Both of the nodes are part of mentions in different entities.
+                    # Both of the nodes are part of mentions.
+                    e_ante, e_this = this_node.coref_entities[0], ante_node.coref_entities[0]
+                    if e_ante is e_this:
+                        continue # e.g. a cycle of links
+                    # The entities are different.
                     # Let's merge the two entities (i.e. "steal" all mentions from the "ante" entity to "this" entity).
                     # While the official API supports "stealing" a single mention (m.entity = another_entity),
                     # the implementation below using _mentions and _entity is a bit faster.
-                    e_ante, e_this = this_node.coref_entities[0], ante_node.coref_entities[0]
-                    assert e_ante != e_this
                     for mention in e_ante.mentions:
                         mention._entity = e_this
                     e_this._mentions.extend(e_ante.mentions)
-- 
2.43.0


From 0ad006b4e1e50c9906ac7fb34bfd22cd961d3674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:25 +0000
Subject: [PATCH 129/166] fix: corefud.Link2Cluster: entities without mentions
 left after merging

---
 udapi/block/corefud/link2cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/corefud/link2cluster.py b/udapi/block/corefud/link2cluster.py
index 56be547..8f0342e 100644
--- a/udapi/block/corefud/link2cluster.py
+++ b/udapi/block/corefud/link2cluster.py
@@ -111,7 +111,8 @@ class Link2Cluster(Block):
                         mention._entity = e_this
                     e_this._mentions.extend(e_ante.mentions)
                     e_this._mentions.sort()
-                    e_ante._mentions.clear()
+                    e_ante._mentions = []
+                    del doc.eid_to_entity[e_ante.eid]
                 else:
                     # Only one of the nodes is part of an entity. Let's add the second one to this entity.
                     if ante_node.coref_mentions:
-- 
2.43.0


From 98b033046589ac7970d8d1f60da2ecc337c0c4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:25 +0000
Subject: [PATCH 130/166] fix: corefud.MoveHead: crashes on empty nodes without
 non-empty parents

---
 udapi/block/corefud/movehead.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/movehead.py b/udapi/block/corefud/movehead.py
index 00a32e9..8cda92f 100644
--- a/udapi/block/corefud/movehead.py
+++ b/udapi/block/corefud/movehead.py
@@ -53,12 +53,14 @@ class MoveHead(Block):
                     if 'warn' in self.bugs:
                         logging.warning(f"could not find non-empty parent of {empty_node} for mention {mention.head}")
                     if 'mark' in self.bugs:
-                        node.misc['Bug'] = 'no-parent-of-empty'
+                        empty_node.misc['Bug'] = 'no-parent-of-empty'
             non_empty.sort()
 
         # Fourth, check if there is a node within the enh_heads governing all the mention nodes
         # and forming thus a "gappy treelet", where the head is clearly the "highest" node.
-        (highest, added_nodes) = find_minimal_common_treelet(*non_empty)
+        highest = None
+        if non_empty:
+            (highest, added_nodes) = find_minimal_common_treelet(*non_empty)
         if highest in enh_heads:
             return highest, 'gappy'
         if highest in mwords:
-- 
2.43.0


From c6b4c185ef679a0ebda2afecb13e72670d55a89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:25 +0000
Subject: [PATCH 131/166] fix: corefud.FixToValidate: children of the root with
 deprel other than root

---
 udapi/block/corefud/fixtovalidate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/corefud/fixtovalidate.py b/udapi/block/corefud/fixtovalidate.py
index 48a3608..21f3921 100644
--- a/udapi/block/corefud/fixtovalidate.py
+++ b/udapi/block/corefud/fixtovalidate.py
@@ -14,7 +14,8 @@ class FixToValidate(Block):
             parent = node.parent
             if node.deprel == "root" and parent is not None and not parent.is_root():
                 #print("\t".join(['Non-0-root:', node.address(), node.upos, str(node.feats), node.parent.upos, str(node.parent.feats)]))
-                if parent.upos == "PUNCT" and parent.parent is not None:
+                # Do not create another child of the technical root (with deprel other than "root").
+                if parent.upos == "PUNCT" and not parent.parent.is_root():
                     node.parent = parent.parent
                 if node.upos == "CCONJ":
                     node.deprel = "cc"
-- 
2.43.0


From a8cddf6173ec072add5c5cf0758bd0b3f9c3f886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:25 +0000
Subject: [PATCH 132/166] fix: corefud.FixToValidate: crash on empty trees

---
 udapi/block/corefud/fixtovalidate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/fixtovalidate.py b/udapi/block/corefud/fixtovalidate.py
index 21f3921..6cb102f 100644
--- a/udapi/block/corefud/fixtovalidate.py
+++ b/udapi/block/corefud/fixtovalidate.py
@@ -30,9 +30,10 @@ class FixToValidate(Block):
         last_node = None
         for i, tree in enumerate(doc.trees):
             if i > 0:
-                if (tree.newdoc is not None or tree.newpar is not None) and last_node.no_space_after:
+                if (tree.newdoc is not None or tree.newpar is not None) and last_node is not None and last_node.no_space_after:
                     del last_node.misc["SpaceAfter"]
-            last_node = tree.descendants[-1]
+            if tree.descendants:
+                last_node = tree.descendants[-1]
 
     def process_document(self, doc):
         self._set_root_deprel(doc)
-- 
2.43.0


From f7649c7cde9632e83383c20d5e05376719ad909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:25 +0000
Subject: [PATCH 133/166] fix: corefud.FixParentheses: added parentheses did
 not know their mentions

---
 udapi/block/corefud/fixparentheses.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/fixparentheses.py b/udapi/block/corefud/fixparentheses.py
index bc8e650..a6d404e 100644
--- a/udapi/block/corefud/fixparentheses.py
+++ b/udapi/block/corefud/fixparentheses.py
@@ -18,7 +18,7 @@ class FixParentheses(Block):
                     if mention.words[-1].ord == int(mention.words[-1].ord) and mention.words[-1].next_node and \
                             mention.words[-1].next_node.lemma == pair[1]:
                         next_node = mention.words[-1].next_node
-                        mention.words.append(next_node)
+                        mention.words = mention.words + [next_node]
                         if self.mark:
                             next_node.misc['Mark'] = 1
 
@@ -26,6 +26,6 @@ class FixParentheses(Block):
                 if mention.words[0].ord == int(mention.words[0].ord) and mention.words[0].prev_node \
                         and mention.words[0].prev_node.lemma == pair[0]:
                     prev_node = mention.words[0].prev_node
-                    mention.words.append(prev_node)
+                    mention.words = mention.words + [prev_node]
                     if self.mark:
                         prev_node.misc['Mark'] = 1
-- 
2.43.0


From 15cbe7bce3036de1315cc07735118a9c3d776e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:25 +0000
Subject: [PATCH 134/166] fix: corefud.FixEntityAcrossNewdoc: nodes kept
 mentions of the original entities

---
 udapi/block/corefud/fixentityacrossnewdoc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/corefud/fixentityacrossnewdoc.py b/udapi/block/corefud/fixentityacrossnewdoc.py
index 61e5e4f..e36e088 100644
--- a/udapi/block/corefud/fixentityacrossnewdoc.py
+++ b/udapi/block/corefud/fixentityacrossnewdoc.py
@@ -21,5 +21,7 @@ class FixEntityAcrossNewdoc(Block):
         udapi.core.coref.store_coref_to_misc(doc)
         assert doc.meta["global.Entity"].startswith("eid")
         doc.meta["global.Entity"] = "GRP" + doc.meta["global.Entity"][3:]
+        for node in doc.nodes_and_empty:
+            node._mentions = []
         udapi.core.coref.load_coref_from_misc(doc)
         doc.meta["global.Entity"] = "eid" + doc.meta["global.Entity"][3:]
-- 
2.43.0


From 6dc849dd7d7797ee8d8ce4585c377242256ec110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:21 +0000
Subject: [PATCH 135/166] fix: prev_node and next_node of empty nodes

---
 udapi/core/node.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 4e14a8b..7282e4a 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -706,7 +706,8 @@ class Node(object):
     @property
     def prev_node(self):
         """Return the previous node according to word order."""
-        new_ord = self._ord - 1
+        # The previous node of an empty node n.m is the word n.
+        new_ord = _major_ord(self._ord) if self.is_empty() else self._ord - 1
         if new_ord < 0:
             return None
         if new_ord == 0:
@@ -718,7 +719,7 @@ class Node(object):
         """Return the following node according to word order."""
         # Note that all_nodes[n].ord == n+1
         try:
-            return self._root._descendants[self._ord]
+            return self._root._descendants[_major_ord(self._ord) if self.is_empty() else self._ord]
         except IndexError:
             return None
 
-- 
2.43.0


From 17157d91bdba9f87ee9e2c82b87507750a110e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 136/166] fix: corefud.Mark*: results depended on hashes of
 mentions

---
 udapi/block/corefud/markinterleaved.py | 4 ++--
 udapi/block/corefud/marknested.py      | 4 ++--
 udapi/block/corefud/markpairs.py       | 4 ++--
 udapi/block/corefud/marksamesubspan.py | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/udapi/block/corefud/markinterleaved.py b/udapi/block/corefud/markinterleaved.py
index c00f73b..19c0fa8 100644
--- a/udapi/block/corefud/markinterleaved.py
+++ b/udapi/block/corefud/markinterleaved.py
@@ -21,10 +21,10 @@ class MarkInterleaved(Block):
             return mention.entity.eid + ':' + mention.span
 
     def process_tree(self, tree):
-        mentions = set()
+        mentions = {}  # used as an ordered set, so that the result does not depend on hashes
         for node in tree.descendants_and_empty:
             for m in node.coref_mentions:
-                mentions.add(m)
+                mentions[m] = True
         if len(mentions) > 1:
             for mA, mB in itertools.combinations(mentions, 2):
                 if set(mA.words).intersection(set(mB.words)):
diff --git a/udapi/block/corefud/marknested.py b/udapi/block/corefud/marknested.py
index 8db8a65..84b942c 100644
--- a/udapi/block/corefud/marknested.py
+++ b/udapi/block/corefud/marknested.py
@@ -22,10 +22,10 @@ class MarkNested(Block):
             return mention.entity.eid + ':' + mention.span
 
     def process_tree(self, tree):
-        mentions = set()
+        mentions = {}  # used as an ordered set, so that the result does not depend on hashes
         for node in tree.descendants_and_empty:
             for m in node.coref_mentions:
-                mentions.add(m)
+                mentions[m] = True
         for mA, mB in itertools.combinations(mentions, 2):
             if self.same_entity_only and mA.entity != mB.entity:
                 continue
diff --git a/udapi/block/corefud/markpairs.py b/udapi/block/corefud/markpairs.py
index cc63b38..24c264e 100644
--- a/udapi/block/corefud/markpairs.py
+++ b/udapi/block/corefud/markpairs.py
@@ -84,10 +84,10 @@ class MarkPairs(Block):
             return mention.entity.eid + ':' + mention.span
 
     def process_tree(self, tree):
-        mentions = set()
+        mentions = {}  # used as an ordered set, so that the result does not depend on hashes
         for node in tree.descendants_and_empty:
             for m in node.coref_mentions:
-                mentions.add(m)
+                mentions[m] = True
         self.counter['mentions'] += len(mentions)
 
         for mA, mB in itertools.combinations(mentions, 2):
diff --git a/udapi/block/corefud/marksamesubspan.py b/udapi/block/corefud/marksamesubspan.py
index f3cfd7b..3d6991c 100644
--- a/udapi/block/corefud/marksamesubspan.py
+++ b/udapi/block/corefud/marksamesubspan.py
@@ -22,10 +22,10 @@ class MarkSameSubSpan(Block):
             return mention.entity.eid + ':' + mention.span
 
     def process_tree(self, tree):
-        mentions = set()
+        mentions = {}  # used as an ordered set, so that the result does not depend on hashes
         for node in tree.descendants_and_empty:
             for m in node.coref_mentions:
-                mentions.add(m)
+                mentions[m] = True
         if len(mentions) > 1:
             for mA, mB in itertools.combinations(mentions, 2):
                 if self.same_entity_only and mA.entity != mB.entity:
-- 
2.43.0


From 2ccbaff8af2d676f08240a41b3ec06367d332bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 137/166] fix: corefud.MarkCrossing: some crossing mentions
 were not printed

---
 udapi/block/corefud/markcrossing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/markcrossing.py b/udapi/block/corefud/markcrossing.py
index 8064e67..1064089 100644
--- a/udapi/block/corefud/markcrossing.py
+++ b/udapi/block/corefud/markcrossing.py
@@ -33,7 +33,7 @@ class MarkCrossing(Block):
                     if self.mark:
                         node.misc['Mark'] = f"{self._print(mA)}+{self._print(mB)}"
                     if self.log:
-                        cross_id = node.root.sent_id + mA.span + mB.span
+                        cross_id = (node.root, mA.span, mB.span)
                         if cross_id not in self._logged:
                             self._logged[cross_id] = True
                             print(f"crossing mentions at {node}: {self._print(mA)} + {self._print(mB)}")
-- 
2.43.0


From fdc216180121f22061e70f9b900bdda58dda79e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 138/166] fix: corefud.MarkCrossing: mentions crossing at empty
 nodes only

---
 udapi/block/corefud/markcrossing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/block/corefud/markcrossing.py b/udapi/block/corefud/markcrossing.py
index 1064089..5e5d97f 100644
--- a/udapi/block/corefud/markcrossing.py
+++ b/udapi/block/corefud/markcrossing.py
@@ -22,6 +22,9 @@ class MarkCrossing(Block):
         else:
             return mention.span
 
+    def process_empty_node(self, empty_node):
+        self.process_node(empty_node)
+
     def process_node(self, node):
         if len(node.coref_mentions) > 1:
             for mA, mB in itertools.combinations(node.coref_mentions, 2):
-- 
2.43.0


From 6767d1041a84ccf78e794ae0ca34dafc6a2b5e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 139/166] fix: corefud.MarkPairs: same_subspan matched pairs of
 continuous mentions

---
 udapi/block/corefud/markpairs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/corefud/markpairs.py b/udapi/block/corefud/markpairs.py
index 24c264e..e56ddde 100644
--- a/udapi/block/corefud/markpairs.py
+++ b/udapi/block/corefud/markpairs.py
@@ -106,7 +106,8 @@ class MarkPairs(Block):
                     continue
                 if not self._ok(sA == sB, self.same_span):
                     continue
-                if not self._ok(set(sA.split(',')).intersection(set(sB.split(','))), self.same_subspan):
+                same_subspan = not (cA and cB) and set(sA.split(',')).intersection(set(sB.split(',')))
+                if not self._ok(same_subspan, self.same_subspan):
                     continue
 
             if self.nested or self.crossing or self.interleaved:
-- 
2.43.0


From 3ea936e818cc4972098b6ccb1b1e6bfe5fdeb966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 140/166] fix: corefud.CountGaps: wrong numbers of paragraphs
 without mentions

---
 udapi/block/corefud/countgaps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/countgaps.py b/udapi/block/corefud/countgaps.py
index fc45540..955ee36 100644
--- a/udapi/block/corefud/countgaps.py
+++ b/udapi/block/corefud/countgaps.py
@@ -54,7 +54,7 @@ class CountGaps(Block):
                 curr_par = []
                 is_empty_par = True
             if tree.newpar:
-                if not tree.newdoc and is_empty_par:
+                if curr_par and is_empty_par:
                     empty_pars.append(curr_par)
                 curr_par = []
                 is_empty_par = True
@@ -73,7 +73,7 @@ class CountGaps(Block):
             empty_seqs.append(curr_seq)
         newdoc_seq_counter = self._count_empty_seqs(empty_seqs)
         file_counters["seq"].update(newdoc_seq_counter)
-        if curr_par:
+        if curr_par and is_empty_par:
             empty_pars.append(curr_par)
         newdoc_par_counter = self._count_empty_seqs(empty_pars)
         file_counters["par"].update(newdoc_par_counter)
-- 
2.43.0


From 9142bee4865419779fdb45feca4d45ac5bd17b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 141/166] fix: corefud.CountGaps: mentions consisting of empty
 nodes ignored

---
 udapi/block/corefud/countgaps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/countgaps.py b/udapi/block/corefud/countgaps.py
index 955ee36..f3664ea 100644
--- a/udapi/block/corefud/countgaps.py
+++ b/udapi/block/corefud/countgaps.py
@@ -59,7 +59,7 @@ class CountGaps(Block):
                 curr_par = []
                 is_empty_par = True
 
-            has_mention = any(node.coref_mentions for node in tree.descendants)
+            has_mention = any(node.coref_mentions for node in tree.descendants_and_empty)
             if not has_mention:
                 curr_seq.append(tree.sent_id)
                 curr_par.append(tree.sent_id)
-- 
2.43.0


From e3e9ef4a5b7187ea0020404648f70601a7f008c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 142/166] fix: corefud.PrintMentions: print_total and
 print_should could not be switched off

---
 udapi/block/corefud/printmentions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/printmentions.py b/udapi/block/corefud/printmentions.py
index d011f68..072c8a2 100644
--- a/udapi/block/corefud/printmentions.py
+++ b/udapi/block/corefud/printmentions.py
@@ -32,8 +32,8 @@ class PrintMentions(Block):
         if shuffle:
             random.seed(42)
         self.print_other_forms = print_other_forms
-        self.print_total = print_total,
-        self.print_should = print_should,
+        self.print_total = print_total
+        self.print_should = print_should
         print_class = TextModeTreesHtml if html else TextModeTrees
         self.print_block = print_class(
                 print_sent_id=print_sent_id, print_text=print_text, add_empty_line=add_empty_line, indent=indent,
-- 
2.43.0


From 0d9e37a052ae2d0d49dff18c455dabf15e9e0ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 143/166] fix: corefud.PrintMentions: Mark left in MISC with
 max_trees

---
 udapi/block/corefud/printmentions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/udapi/block/corefud/printmentions.py b/udapi/block/corefud/printmentions.py
index 072c8a2..610d281 100644
--- a/udapi/block/corefud/printmentions.py
+++ b/udapi/block/corefud/printmentions.py
@@ -153,9 +153,6 @@ class PrintMentions(Block):
             if self.almost_forest != 'include' and not self._ok(self._is_forest(mention, mwords, True), self.almost_forest):
                 continue
 
-            for w in mention.words:
-                w.misc['Mark'] = 1
-
             seen_trees += 1
             if self.max_trees and seen_trees > self.max_trees:
                 if not self.print_total:
@@ -175,6 +172,8 @@ class PrintMentions(Block):
                         for form, count in counter.most_common(self.print_other_forms):
                             print(f' "{form}"({count})', end='')
                         print()
+                for w in mention.words:
+                    w.misc['Mark'] = 1
                 self.print_block.process_tree(mention.head.root)
                 for w in mention.words:
                     del w.misc['Mark']
-- 
2.43.0


From 10b5575f0bc1dad5d8a77824bde409e886294aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 144/166] fix: corefud.Stats: mention heads without UPOS

---
 udapi/block/corefud/stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/corefud/stats.py b/udapi/block/corefud/stats.py
index 5368cab..9d1b102 100644
--- a/udapi/block/corefud/stats.py
+++ b/udapi/block/corefud/stats.py
@@ -68,9 +68,9 @@ class Stats(Block):
                 self.counter['m_total_len'] += non_empty
                 self.counter[f"m_len_{min(non_empty, self.m_len_max)}"] += 1
                 if self.report_details:
-                    upos = 'other'
-                    if not self.selected_upos or mention.head.upos in self.selected_upos:
-                        upos = mention.head.upos
+                    upos = mention.head.upos or '_'
+                    if self.selected_upos and upos not in self.selected_upos:
+                        upos = 'other'
                     self.counter['m_head_upos_' + upos] += 1
                     self.counter['m_with_empty'] += 1 if all_words > non_empty else 0
                     self.counter['m_with_gaps'] += 1 if ',' in mention.span else 0
-- 
2.43.0


From 774d6acd8cfe3c942b9a2be4968be223ece46ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 145/166] fix: corefud.Stats: crash with per_doc and unnamed
 documents

---
 udapi/block/corefud/stats.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/block/corefud/stats.py b/udapi/block/corefud/stats.py
index 9d1b102..a445533 100644
--- a/udapi/block/corefud/stats.py
+++ b/udapi/block/corefud/stats.py
@@ -111,7 +111,9 @@ class Stats(Block):
                 return
             else:
                 docname = doc.meta['loaded_from'] if self.docname == 'filename' else doc[0].trees[0].newdoc
-                print(f"{docname:{self.docname_len}}", end='&' if self.style.startswith('tex') else '\n')
+                if docname is None:
+                    docname = ''
+                print(f"{str(docname):{self.docname_len}}", end='&' if self.style.startswith('tex') else '\n')
         elif self.style.startswith('tex-'):
             print(f"{self.counter['documents']:4} documents &")
         self._lines_printed += 1
-- 
2.43.0


From bd17e3ca1e19b7c166087547fee46312189f831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 146/166] fix: corefud.Stats: one row more than
 max_rows_per_page

---
 udapi/block/corefud/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/stats.py b/udapi/block/corefud/stats.py
index a445533..2101ca2 100644
--- a/udapi/block/corefud/stats.py
+++ b/udapi/block/corefud/stats.py
@@ -163,7 +163,7 @@ class Stats(Block):
                 print(f"{c[0]:>15} = {c[1].strip():>10}")
         if not self.per_doc:
             self.print_footer()
-        elif self._lines_printed > self.max_rows_per_page:
+        elif self._lines_printed >= self.max_rows_per_page:
             self.print_footer(False)
             self._lines_printed = 0
 
-- 
2.43.0


From f84eec3ebd58757b19252e3fe8ae4393950f0b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:11 +0000
Subject: [PATCH 147/166] fix: ud.FixPunct: keep the head of paired punctuation
 if all other candidates cause gaps

---
 udapi/block/ud/fixpunct.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/udapi/block/ud/fixpunct.py b/udapi/block/ud/fixpunct.py
index 7b4cc10..f1809e9 100644
--- a/udapi/block/ud/fixpunct.py
+++ b/udapi/block/ud/fixpunct.py
@@ -293,15 +293,16 @@ class FixPunct(Block):
         # should be attached to "of" rather than to "lack"
         # -- breaking the paired-marks-have-same-parent rule
         # in order to prevent the punct-nonproj-gap bug (recently checked by validator.py).
+        # If there is no better parent (e.g. because the gap is caused by another punctuation,
+        # which will be fixed later), keep the head.
+        inside = root.descendants[opening_node.ord:closing_node.ord - 1]
         if self._causes_gap(opening_node):
-            opening_node.parent = opening_node.next_node
-            while (opening_node.parent.ord < closing_node.ord - 1
-                and (opening_node.parent.upos == 'PUNCT' or opening_node.is_nonprojective()
-                or self._causes_gap(opening_node))):
-                    opening_node.parent = opening_node.parent.next_node
+            self._attach_to_first_suitable(opening_node, inside, heads[0])
         if self._causes_gap(closing_node):
-            closing_node.parent = closing_node.prev_node
-            while (closing_node.parent.ord > opening_node.ord + 1
-                and (closing_node.parent.upos == 'PUNCT' or closing_node.is_nonprojective()
-                or self._causes_gap(closing_node))):
-                    closing_node.parent = closing_node.parent.prev_node
+            self._attach_to_first_suitable(closing_node, reversed(inside), heads[-1])
+
+    def _attach_to_first_suitable(self, node, candidates, default):
+        for candidate in candidates:
+            if candidate.upos != 'PUNCT' and self._will_be_projective(node, candidate):
+                return
+        node.parent = default
-- 
2.43.0


From cd2fe63b26c343915dd74a6bb55451d64d65290f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:26 +0000
Subject: [PATCH 148/166] fix: udpipe.Base: bundles with several trees were
 duplicated and bundles not renumbered

---
 udapi/block/udpipe/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/udapi/block/udpipe/base.py b/udapi/block/udpipe/base.py
index 069fc9f..4bec27a 100644
--- a/udapi/block/udpipe/base.py
+++ b/udapi/block/udpipe/base.py
@@ -154,8 +154,8 @@ class Base(Block):
         old_bundles = doc.bundles
         new_bundles = []
         for bundle in old_bundles:
-            for tree in bundle:
-                new_bundles.append(bundle)
+            new_bundles.append(bundle)
+            for tree in list(bundle):
                 if self._should_process_tree(tree):
                     if self.delete_nodes:
                         for subroot in tree.children:
@@ -187,6 +187,8 @@ class Base(Block):
                     else:
                         raise ValueError(f"Unimplemented tokenize={tok} tag={tag} parse={par} resegment={reseg}")
         doc.bundles = new_bundles
+        for number, bundle in enumerate(new_bundles, 1):
+            bundle.number = number
 
 '''
 Udapi::Block::UDPipe::Base - tokenize, tag and parse into UD
-- 
2.43.0


From a327feb0ab37d70fffeb0afe8354c3f0a4392070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:26 +0000
Subject: [PATCH 149/166] fix: udpipe online: ranges=1 segmented the text
 exactly if resegment=0

---
 udapi/tool/udpipeonline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/tool/udpipeonline.py b/udapi/tool/udpipeonline.py
index f0a835c..70b429f 100644
--- a/udapi/tool/udpipeonline.py
+++ b/udapi/tool/udpipeonline.py
@@ -107,7 +107,7 @@ class UDPipeOnline:
         if parse:
             params["parser"] = ""
         if ranges:
-            params["tokenizer"] = "presegmented;ranges" if resegment else "ranges"
+            params["tokenizer"] = "ranges" if resegment else "presegmented;ranges"
         out_data = self.perform_request(params=params)
         conllu_reader = ConlluReader(empty_parent="ignore")
         conllu_reader.files.filehandle = io.StringIO(out_data)
-- 
2.43.0


From 6037afc29b92011ce270ff0aee2f9a5d68975494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:26 +0000
Subject: [PATCH 150/166] fix: udpipe online: multi-word tokens referred to a
 wrong root

---
 udapi/tool/udpipeonline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/tool/udpipeonline.py b/udapi/tool/udpipeonline.py
index 70b429f..ef78a46 100644
--- a/udapi/tool/udpipeonline.py
+++ b/udapi/tool/udpipeonline.py
@@ -120,6 +120,8 @@ class UDPipeOnline:
             node._parent = root
         for node in root._descendants:
             node._root = root
+        for mwt in root._mwts:
+            mwt.root = root
         trees[0] = root
         return trees
 
-- 
2.43.0


From 8f3b608a24ab2ed7c34c1f6c3551a7fc5043ab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:26 +0000
Subject: [PATCH 151/166] fix: udpipe online: crash on trees with an empty text

---
 udapi/tool/udpipeonline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/tool/udpipeonline.py b/udapi/tool/udpipeonline.py
index ef78a46..ae6cc55 100644
--- a/udapi/tool/udpipeonline.py
+++ b/udapi/tool/udpipeonline.py
@@ -112,6 +112,8 @@ class UDPipeOnline:
         conllu_reader = ConlluReader(empty_parent="ignore")
         conllu_reader.files.filehandle = io.StringIO(out_data)
         trees = conllu_reader.read_trees()
+        if not trees:
+            return [root]
 
         # The input "root" object must be the first item in "trees".
         for attr in ('_children', '_descendants', '_mwts', 'text', 'comment'):
-- 
2.43.0


From ce2b3d2cff67fc530abf8b3b69f11c7fb2b86b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:44 +0000
Subject: [PATCH 152/166] fix: udpipe: attributes not filled by the model led
 to empty columns in CoNLL-U

---
 udapi/tool/udpipe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/tool/udpipe.py b/udapi/tool/udpipe.py
index 83e289a..caf7850 100644
--- a/udapi/tool/udpipe.py
+++ b/udapi/tool/udpipe.py
@@ -107,8 +107,8 @@ class UDPipe:
             for i in range(1, u_words.size()):
                 u_w = u_words[i]
                 node = new_root.create_child(
-                    form=u_w.form, lemma=u_w.lemma, upos=u_w.upostag,
-                    xpos=u_w.xpostag, feats=u_w.feats, deprel=u_w.deprel, misc=u_w.misc,
+                    form=u_w.form, lemma=u_w.lemma or '_', upos=u_w.upostag or None,
+                    xpos=u_w.xpostag or None, feats=u_w.feats, deprel=u_w.deprel or None, misc=u_w.misc,
                 )
                 if parse:
                     heads.append(u_w.head)
-- 
2.43.0


From 422b5cc1dd767c9ae5b53997e17b25c421e03854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:44 +0000
Subject: [PATCH 153/166] fix: udpipe: multi-word tokens found by the tokenizer
 were lost

---
 udapi/tool/udpipe.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/udapi/tool/udpipe.py b/udapi/tool/udpipe.py
index caf7850..cdd02d9 100644
--- a/udapi/tool/udpipe.py
+++ b/udapi/tool/udpipe.py
@@ -79,6 +79,10 @@ class UDPipe:
             n_words = first_sent.words.size() - 1
             for other_sent in u_sentences[1:]:
                 other_words = other_sent.words.size() - 1
+                for u_mwt in other_sent.multiwordTokens:
+                    u_mwt.idFirst += n_words
+                    u_mwt.idLast += n_words
+                    first_sent.multiwordTokens.append(u_mwt)
                 for i in range(1, other_words + 1):
                     u_w = other_sent.words[i]
                     n_words += 1
@@ -110,9 +114,12 @@ class UDPipe:
                     form=u_w.form, lemma=u_w.lemma or '_', upos=u_w.upostag or None,
                     xpos=u_w.xpostag or None, feats=u_w.feats, deprel=u_w.deprel or None, misc=u_w.misc,
                 )
+                nodes.append(node)
                 if parse:
                     heads.append(u_w.head)
-                    nodes.append(node)
+            for u_mwt in u_sentence.multiwordTokens:
+                new_root.create_multiword_token(nodes[u_mwt.idFirst:u_mwt.idLast + 1],
+                                                form=u_mwt.form, misc=u_mwt.misc)
             if parse:
                 for node in nodes[1:]:
                     head = heads.pop(0)
-- 
2.43.0


From 1e0f149c3829c3d4850bde7f362bb9b534115f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:44 +0000
Subject: [PATCH 154/166] fix: udpipe: tagging and parsing of words with spaces

---
 udapi/tool/udpipe.py       | 3 ++-
 udapi/tool/udpipeonline.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/udapi/tool/udpipe.py b/udapi/tool/udpipe.py
index cdd02d9..074bfe3 100644
--- a/udapi/tool/udpipe.py
+++ b/udapi/tool/udpipe.py
@@ -30,7 +30,8 @@ class UDPipe:
         if not descendants:
             return
         pipeline = Pipeline(self.tool, 'horizontal', Pipeline.DEFAULT, Pipeline.DEFAULT, 'conllu')
-        in_data = " ".join([n.form for n in descendants])
+        # In the horizontal format, spaces within words are represented by no-break spaces.
+        in_data = " ".join([n.form.replace(' ', '\u00a0') for n in descendants])
         out_data = pipeline.process(in_data, self.error)
         if self.error.occurred():
             raise IOError("UDPipe error " + self.error.message)
diff --git a/udapi/tool/udpipeonline.py b/udapi/tool/udpipeonline.py
index ae6cc55..07f3922 100644
--- a/udapi/tool/udpipeonline.py
+++ b/udapi/tool/udpipeonline.py
@@ -69,7 +69,8 @@ class UDPipeOnline:
         descendants = root.descendants
         if not descendants:
             return
-        in_data = " ".join([n.form for n in descendants])
+        # In the horizontal format, spaces within words are represented by no-break spaces.
+        in_data = " ".join([n.form.replace(' ', '\u00a0') for n in descendants])
         params = {"model": self.model, "data": in_data, "input":"horizontal", "tagger":""}
         attrs = 'upos xpos lemma feats'.split() if tag else []
         if parse:
@@ -154,7 +155,7 @@ class UDPipeOnline:
             params["data"] = "\n".join(root.text for root in doc.trees) + "\n"
         else:
             params["input"] = "horizontal"
-            params["data"] = "\n".join(" ".join([n.form for n in root.descendants]) for root in doc.trees) + "\n"
+            params["data"] = "\n".join(" ".join([n.form.replace(' ', '\u00a0') for n in root.descendants]) for root in doc.trees) + "\n"
 
         out_data = self.perform_request(params=params)
         conllu_reader = ConlluReader(empty_parent="ignore")
-- 
2.43.0


From fb2460601e20a9244c2e55fd5f7fa1bb54f7d975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:34 +0000
Subject: [PATCH 155/166] fix: ud.ComplyWithText marked an unchanged word as a
 typo when the text only has a space the tree does not have

---
 udapi/block/ud/complywithtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/complywithtext.py b/udapi/block/ud/complywithtext.py
index c3894e6..7257ef4 100644
--- a/udapi/block/ud/complywithtext.py
+++ b/udapi/block/ud/complywithtext.py
@@ -319,7 +319,7 @@ class ComplyWithText(Block):
                 new = last_word.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
                 new.shift_after_node(last_word)
                 new.misc[self.added_label] = 1
-            else:
+            elif form != node.form:
                 self.store_previous_form(node)
                 node.form = form
 
-- 
2.43.0


From 0c09a07773aafd5ffe0ea39809e167caa0eb2bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:08 +0000
Subject: [PATCH 156/166] fix: corefud.Stats TeX header declared one column too
 many and misplaced a rule with report_basics

---
 udapi/block/corefud/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/stats.py b/udapi/block/corefud/stats.py
index 2101ca2..e4cffa4 100644
--- a/udapi/block/corefud/stats.py
+++ b/udapi/block/corefud/stats.py
@@ -211,7 +211,7 @@ class Stats(Block):
                 lines[0] += " "
                 lines[1] += r'& \MC{' + str(self.m_len_max + 1) + r'}{distribution of mention lengths}' + " "*7
         if self.report_details:
-            lines[0] += "rrrr "
+            lines[0] += "rrr "
             lines[1] += r'& \MC{3}{mention type}       '
             lines[2] += r'&w/empty& w/gap&non-tree'
             lines[3] += r'&  [\%] ' * 3
@@ -236,8 +236,8 @@ class Stats(Block):
             lines[2] += r'\cmidrule(lr){' + f"{last_col+3}-{last_col+4}" + '}'
             last_col += 4
             if self.e_len_max:
+                lines[1] += r'\cmidrule(lr){' + f"{last_col+1}-{last_col+self.e_len_max}" + '}'
                 last_col += self.e_len_max
-                lines[1] += r'\cmidrule(lr){6-' + str(last_col) + '}'
         if self.report_mentions:
             lines[1] += r'\cmidrule(lr){' + f"{last_col+1}-{last_col+4}" + '}'
             lines[2] += r'\cmidrule(lr){' + f"{last_col+3}-{last_col+4}" + '}'
-- 
2.43.0


From c12cc56e124563f8657c72c6e4d0470d756a6883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:13 +0000
Subject: [PATCH 157/166] fix: ud.Convert1to2 decided about neg and nmod
 according to UPOS of the parent which was not converted yet

---
 udapi/block/ud/convert1to2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/block/ud/convert1to2.py b/udapi/block/ud/convert1to2.py
index d76c50b..4eac816 100644
--- a/udapi/block/ud/convert1to2.py
+++ b/udapi/block/ud/convert1to2.py
@@ -62,6 +62,9 @@ class Convert1to2(Block):
                 self.change_upos_copula(node)
             if 'deprel_simple' not in self.skip:
                 self.change_deprel_simple(node)
+
+        # edits which check the parent and its children, so these should be already fixed
+        for node in tree.descendants:
             if 'neg' not in self.skip:
                 self.change_neg(node)
             if 'nmod' not in self.skip:
-- 
2.43.0


From 5497faef44aa779f2a2cd7df1cfa93d4f59a9829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:16 +0000
Subject: [PATCH 158/166] fix: ud.Convert1to2 left head-final goeswith and flat
 inside of other head-final goeswith and flat

---
 udapi/block/ud/convert1to2.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/udapi/block/ud/convert1to2.py b/udapi/block/ud/convert1to2.py
index 4eac816..56ca62c 100644
--- a/udapi/block/ud/convert1to2.py
+++ b/udapi/block/ud/convert1to2.py
@@ -74,9 +74,10 @@ class Convert1to2(Block):
 
         # semi-local edits: the neighboring nodes should have fixed deprel before running this
         for node in tree.descendants:
-            for deprel in ('goeswith', 'flat'):
-                if deprel not in self.skip:
-                    self.change_headfinal(node, deprel)
+            deprels = [d for d in ('goeswith', 'flat') if d not in self.skip]
+            # The new head may be head-final again, if it got the deprel of the old head.
+            while any(self.change_headfinal(node, deprel) for deprel in deprels):
+                pass
 
         # edits which need access to the whole tree.
         if 'remnants' not in self.skip:
@@ -223,17 +224,22 @@ class Convert1to2(Block):
 
     @staticmethod
     def change_headfinal(node, deprel):
-        """deprel=goeswith|flat|fixed|appos must be a head-initial flat structure."""
-        if node.udeprel == deprel and node.precedes(node.parent):
-            full_deprel = node.deprel
-            old_head = node.parent
-            all_goeswith = [n for n in old_head.children if n.udeprel == deprel]
-            other_children = [n for n in old_head.children if n.udeprel != deprel]
-            all_goeswith[0].parent = old_head.parent
-            all_goeswith[0].deprel = old_head.deprel
-            old_head.deprel = full_deprel
-            for a_node in all_goeswith[1:] + other_children + [old_head]:
-                a_node.parent = all_goeswith[0]
+        """deprel=goeswith|flat|fixed|appos must be a head-initial flat structure.
+
+        Returns True if the structure has been changed.
+        """
+        if node.udeprel != deprel or not node.precedes(node.parent):
+            return False
+        old_head = node.parent
+        all_goeswith = [n for n in old_head.children if n.udeprel == deprel]
+        other_children = [n for n in old_head.children if n.udeprel != deprel]
+        full_deprel = all_goeswith[0].deprel
+        all_goeswith[0].parent = old_head.parent
+        all_goeswith[0].deprel = old_head.deprel
+        old_head.deprel = full_deprel
+        for a_node in all_goeswith[1:] + other_children + [old_head]:
+            a_node.parent = all_goeswith[0]
+        return True
 
     def reattach_coordinations(self, node):
         """cc and punct in coordinations should depend on the immediately following conjunct."""
-- 
2.43.0


From 4bf376f60bcdf00bf8fa79a09720fb716c30f7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:16 +0000
Subject: [PATCH 159/166] fix: ud.Convert1to2 crashed on a remnant attached to
 the root or to a word attached to a remnant

---
 udapi/block/ud/convert1to2.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/udapi/block/ud/convert1to2.py b/udapi/block/ud/convert1to2.py
index 56ca62c..b50a342 100644
--- a/udapi/block/ud/convert1to2.py
+++ b/udapi/block/ud/convert1to2.py
@@ -306,7 +306,13 @@ class Convert1to2(Block):
         if not remnants:
             return
 
-        (first_conjunct, _) = find_minimal_common_treelet(remnants[0].parent.parent, *remnants)
+        # The same node should not be given twice (the grandpa may be another remnant),
+        # and there is no grandpa if the remnant depends on the root.
+        grandpa = remnants[0].parent.parent or root
+        others = [n for n in remnants if n is not grandpa]
+        (first_conjunct, _) = find_minimal_common_treelet(grandpa, *others)
+        while first_conjunct.deprel == 'remnant':
+            first_conjunct = first_conjunct.parent
         if first_conjunct == root:
             self.log(remnants[0], 'remnant', "remnants' (+their grandpas') common governor is root")
             return
-- 
2.43.0


From e6cf99e14c74fec4680646dea3d5c9eb6046c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:26 +0000
Subject: [PATCH 160/166] fix: corefud.Load strict=0 really deletes
 cross-sentence mentions (words of the last sentence kept them)

---
 udapi/core/coref.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 6cf1b2c..e383f0e 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -640,6 +640,7 @@ def load_coref_from_misc(doc, strict=True):
                         entity._mentions.remove(mention)
                         if not entity._mentions:
                             del entities[entity.eid]
+                        continue
                 for w in node.root.descendants_and_empty:
                     if last_word.precedes(w):
                         mention._words.append(w)
-- 
2.43.0


From a0afd82e40344f3c2e636e45db10eae60926de63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:48 +0000
Subject: [PATCH 161/166] fix: empty_node.create_empty_child(after=False)
 creates the new node before the empty node, as documented

---
 udapi/core/node.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 7282e4a..824a5c4 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -460,6 +460,13 @@ class Node(object):
         # new_node.enh_parents.append(self) TODO
         major = _major_ord(self._ord) if after or self.is_empty() else self._ord - 1
         new_ord = _empty_ord(major, _minor_ord(self._ord) + 1 if after else 1)
+        if self.is_empty() and not after:
+            # Make place for the new node by moving this node and the empty nodes following it.
+            self._root._deserialize_all_deps()
+            new_ord = self._ord
+            for empty in self._root.empty_nodes:
+                if _major_ord(empty._ord) == major and empty._ord >= new_ord:
+                    empty._ord = _empty_ord(major, _minor_ord(empty._ord) + 1)
         for empty in self._root.empty_nodes:
             if empty._ord > new_ord:
                 break
-- 
2.43.0


From 908f402771b8e7e3d12d1a704c56700d3e2ae2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:58 +0000
Subject: [PATCH 162/166] fix: ud.FixPunct leaves no non-projective punctuation
 because of other punctuation which is fixed later

---
 udapi/block/ud/fixpunct.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/udapi/block/ud/fixpunct.py b/udapi/block/ud/fixpunct.py
index f1809e9..d2b9293 100644
--- a/udapi/block/ud/fixpunct.py
+++ b/udapi/block/ud/fixpunct.py
@@ -98,6 +98,12 @@ class FixPunct(Block):
             if node.upos == 'PUNCT' and not self._punct_type[node.ord]:
                 self._fix_subord_punct(node)
 
+        # Some punctuation may have had no suitable parent because of another punctuation, which was fixed later.
+        # The parents of paired punctuation are changed only if there is no other way.
+        for node in sorted(root.descendants, key=lambda n: self._punct_type[n.ord] is not None):
+            if node.upos == 'PUNCT' and (node.is_nonprojective() or self._causes_gap(node)):
+                self._fix_subord_punct(node, any_side=True)
+
         # UD requires "exactly one word is the head of the sentence, dependent on a notional ROOT", i.e. a single "subroot".
         # This seems to be a stronger rule than no-PUNCT-children because it is checked by the validator.
         # So lets prevent multiple subroots (at the cost of possibly re-introducing PUNCT-children).
@@ -123,7 +129,7 @@ class FixPunct(Block):
                 if node.upos == 'PUNCT':
                     node.deps = [{'parent': node.parent, 'deprel': node.deprel}]
 
-    def _fix_subord_punct(self, node):
+    def _fix_subord_punct(self, node, any_side=False):
         # Dot used as the ordinal-number marker (in some languages) or abbreviation marker.
         # TODO: detect these cases somehow
         # Numbers can be detected with `node.parent.form.isdigit()`,
@@ -142,7 +148,7 @@ class FixPunct(Block):
         # Initialize the candidates (left and right) with the nearest nodes excluding punctuation.
         # Final punctuation should not be attached to any following, so exclude r_cand there.
         l_cand, r_cand = node.prev_node, node.next_node
-        if node.form in FINAL_PUNCT:
+        if node.form in FINAL_PUNCT and not any_side:
             r_cand = None
         while l_cand.ord > 0 and l_cand.upos == 'PUNCT':
             if self._punct_type[l_cand.ord] == 'opening' and l_cand.parent != node:
@@ -255,7 +261,8 @@ class FixPunct(Block):
             # they also must not cause non-projectivity of other relations. This could
             # happen if an outside node is attached to an inside node. To account for
             # this, mark the inside parent as a head, too.
-            elif node.parent > opening_node and node.parent < closing_node:
+            # (Other punctuation is going to be attached properly later, unless it is an already fixed pair.)
+            elif node.parent > opening_node and node.parent < closing_node and not self._is_unfixed(node):
                 if node.parent.upos == 'PUNCT':
                     punct_heads.append(node.parent)
                 else:
@@ -296,11 +303,19 @@ class FixPunct(Block):
         # If there is no better parent (e.g. because the gap is caused by another punctuation,
         # which will be fixed later), keep the head.
         inside = root.descendants[opening_node.ord:closing_node.ord - 1]
-        if self._causes_gap(opening_node):
+        if self._causes_gap(opening_node) and self._is_in_fixed_gap(opening_node):
             self._attach_to_first_suitable(opening_node, inside, heads[0])
-        if self._causes_gap(closing_node):
+        if self._causes_gap(closing_node) and self._is_in_fixed_gap(closing_node):
             self._attach_to_first_suitable(closing_node, reversed(inside), heads[-1])
 
+    def _is_unfixed(self, node):
+        return node.upos == 'PUNCT' and not self._punct_type[node.ord]
+
+    def _is_in_fixed_gap(self, node):
+        # Is the gap caused also by other edges than those of the punctuation to be fixed later?
+        return any(min(n, n.parent) < node < max(n, n.parent) and not node.is_descendant_of(n.parent)
+                   for n in node.root.descendants if not self._is_unfixed(n))
+
     def _attach_to_first_suitable(self, node, candidates, default):
         for candidate in candidates:
             if candidate.upos != 'PUNCT' and self._will_be_projective(node, candidate):
-- 
2.43.0


From d874c9ba9ece406306266e4a52299ba46f5ae2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:51 +0000
Subject: [PATCH 163/166] fix: util.ResegmentGold does not leave Rehanged=Yes
 on an original root which is finally a root again

---
 udapi/block/util/resegmentgold.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/block/util/resegmentgold.py b/udapi/block/util/resegmentgold.py
index 383510b..927e714 100644
--- a/udapi/block/util/resegmentgold.py
+++ b/udapi/block/util/resegmentgold.py
@@ -137,6 +137,7 @@ class ResegmentGold(Block):
             possible_subroots = sorted([n for n in possible_subroots if n.form == g_subroot.form],
                                        key=lambda n: abs(n.ord - g_subroot.ord))
             the_subroot = possible_subroots[0] if possible_subroots else the_subroot
+            del the_subroot.misc['Rehanged']
         else:
             the_subroot = p_tree.children[0]
             the_subroot.misc['Rehanged'] = 'Yes'
-- 
2.43.0


From 19df126568beecc5e4633f74943470e39d858443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:44 +0000
Subject: [PATCH 164/166] fix: mwe.Normalize and mwe.ToSubDeprels add no colon
 for expressions of unknown type ("Mwe=1:" cannot be read again)

---
 udapi/block/mwe/normalize.py    | 2 +-
 udapi/block/mwe/tosubdeprels.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/mwe/normalize.py b/udapi/block/mwe/normalize.py
index e7ebf24..1eb739e 100644
--- a/udapi/block/mwe/normalize.py
+++ b/udapi/block/mwe/normalize.py
@@ -60,7 +60,7 @@ class Normalize(Block):
             # There may be multiple MWEs this node is member of.
             annotations = []
             for m in mwes_by_nodes[n.ord]:
-                if n.ord == mwes[m]['nodes'][0]:
+                if n.ord == mwes[m]['nodes'][0] and mwes[m]['type']:
                     annotations.append("%s:%s" % (m, mwes[m]['type']))
                 else:
                     annotations.append(m)
diff --git a/udapi/block/mwe/tosubdeprels.py b/udapi/block/mwe/tosubdeprels.py
index 3682c0c..beff06a 100644
--- a/udapi/block/mwe/tosubdeprels.py
+++ b/udapi/block/mwe/tosubdeprels.py
@@ -58,5 +58,5 @@ class ToSubDeprels(Block):
                 for m in mwes_by_nodes[n.ord]:
                     type = re.sub(r"\.", '', mwes[m]['type'].lower())
                     # Add the MWE type to the DEPREL if the parent is also in the same MWE.
-                    if n.parent.ord > 0 and m in mwes_by_nodes[n.parent.ord]:
+                    if type and n.parent.ord > 0 and m in mwes_by_nodes[n.parent.ord]:
                         n.deprel += ':' + type
-- 
2.43.0


From 20b4d16e803a72fffca8fd850f318162c97dce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:22 +0000
Subject: [PATCH 165/166] fix: eval.* writes its report into the file given by
 the parameter files

---
 udapi/block/eval/conll17.py | 2 ++
 udapi/block/eval/conll18.py | 2 ++
 udapi/block/eval/f1.py      | 3 +++
 udapi/block/eval/parsing.py | 3 +++
 udapi/core/basewriter.py    | 6 ++++++
 5 files changed, 16 insertions(+)

diff --git a/udapi/block/eval/conll17.py b/udapi/block/eval/conll17.py
index 61e8638..a0b67d9 100644
--- a/udapi/block/eval/conll17.py
+++ b/udapi/block/eval/conll17.py
@@ -113,6 +113,7 @@ class Conll17(BaseWriter):
         self.gold_zone = gold_zone
         self.total_count = Counter()
         self.print_raw = print_raw
+        self.report_only = not print_raw
         self.print_results = print_results
 
     def process_tree(self, tree):
@@ -180,6 +181,7 @@ class Conll17(BaseWriter):
             fscore = 2 * correct / (pred + gold) if pred + gold else 0
             print("{:11}|{:10.2f} |{:10.2f} |{:10.2f} |{:10.2f}".format(
                 metric, 100 * precision, 100 * recall, 100 * fscore, 100 * alignacc))
+        self.after_process_document(None)
 
 
 def prec_rec_f1(correct, pred, gold, alig=0):
diff --git a/udapi/block/eval/conll18.py b/udapi/block/eval/conll18.py
index 22f42a4..ea17e4b 100644
--- a/udapi/block/eval/conll18.py
+++ b/udapi/block/eval/conll18.py
@@ -122,6 +122,7 @@ class Conll18(BaseWriter):
         self.gold_zone = gold_zone
         self.total_count = Counter()
         self.print_raw = print_raw
+        self.report_only = not print_raw
         self.print_results = print_results
         self.print_counts = print_counts
 
@@ -229,6 +230,7 @@ class Conll18(BaseWriter):
                 alignacc = "{:10.2f}".format(100 * alignacc) if metric != 'Words' else ""
                 print("{:11}|{:10.2f} |{:10.2f} |{:10.2f} |{}".format(
                     metric, 100 * precision, 100 * recall, 100 * fscore, alignacc))
+        self.after_process_document(None)
 
 
 def prec_rec_f1(correct, pred, gold, alig=0):
diff --git a/udapi/block/eval/f1.py b/udapi/block/eval/f1.py
index 9fa23b2..13f5fd0 100644
--- a/udapi/block/eval/f1.py
+++ b/udapi/block/eval/f1.py
@@ -87,6 +87,8 @@ class F1(BaseWriter):
              The tokens are sorted according to the sum of their *predicted* and *gold* counts.
     """
 
+    report_only = True
+
     def __init__(self, gold_zone, attributes='form', focus=None, details=4, **kwargs):
         """Create the eval.F1 block object."""
         super().__init__(**kwargs)
@@ -199,6 +201,7 @@ class F1(BaseWriter):
         f1 = 2 * precision * recall / ((precision + recall) or 1)
         print("%-9s = %6.2f%%\n" * 3
               % ('precision', 100 * precision, 'recall', 100 * recall, 'F1', 100 * f1), end='')
+        self.after_process_document(None)
 
 
 # difflib.SequenceMatcher does not compute LCS, so let's implement it here
diff --git a/udapi/block/eval/parsing.py b/udapi/block/eval/parsing.py
index 5bd637e..a2e1db0 100644
--- a/udapi/block/eval/parsing.py
+++ b/udapi/block/eval/parsing.py
@@ -5,6 +5,8 @@ from udapi.core.basewriter import BaseWriter
 class Parsing(BaseWriter):
     """Evaluate labeled and unlabeled attachment score (LAS and UAS)."""
 
+    report_only = True
+
     def __init__(self, gold_zone, **kwargs):
         """Create the eval.Parsing block object."""
         super().__init__(**kwargs)
@@ -39,3 +41,4 @@ class Parsing(BaseWriter):
         print('UAS           = %6.2f' % (100 * self.correct_uas / total))
         print('LAS (deprel)  = %6.2f' % (100 * self.correct_las / total))
         print('LAS (udeprel) = %6.2f' % (100 * self.correct_ulas / total))
+        self.after_process_document(None)
diff --git a/udapi/core/basewriter.py b/udapi/core/basewriter.py
index 1b10acf..5c3c4c2 100644
--- a/udapi/core/basewriter.py
+++ b/udapi/core/basewriter.py
@@ -12,6 +12,10 @@ from udapi.core.files import Files
 class BaseWriter(Block):
     """Base class for all writer blocks."""
 
+    # Writers which print nothing but a report in their process_end() set this to True,
+    # so that all the files specified are left for the report.
+    report_only = False
+
     def __init__(self, files='-', filehandle=None, docname_as_file=False, encoding='utf-8',
                  newline='\n', overwrite=False, path=None, **kwargs):
         super().__init__(**kwargs)
@@ -53,6 +57,8 @@ class BaseWriter(Block):
     def before_process_document(self, document):
         if document:
             udapi.core.coref.store_coref_to_misc(document)
+        if self.report_only and document is not None:
+            return
         if self.orig_files == '<filehandle>':
             logging.info('Writing to filehandle.')
             sys.stdout = self.files.filehandle
-- 
2.43.0


From bb019b606ddfaa88c8bc0b2203eaf6845f277d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:03 +0000
Subject: [PATCH 166/166] fix: ud.ComplyWithText must add punctuation before
 the first word also with spaces and in the right order

---
 udapi/block/ud/complywithtext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/ud/complywithtext.py b/udapi/block/ud/complywithtext.py
index 7257ef4..befd808 100644
--- a/udapi/block/ud/complywithtext.py
+++ b/udapi/block/ud/complywithtext.py
@@ -227,12 +227,12 @@ class ComplyWithText(Block):
             if edit == 'equal':
                 pass
             elif edit == 'insert':
-                forms = text[text_lo:text_hi].split(' ')
+                forms = text[text_lo:text_hi].split()
                 if all(regex.fullmatch('\p{P}+', f) for f in forms) and self.allow_add_punct:
                     next_node = char_nodes[tree_lo]
                     if next_node.is_mwt():
                         next_node = next_node.words[0]
-                    for f in reversed(forms):
+                    for f in forms:
                         new = next_node.create_child(form=f, deprel='punct', upos='PUNCT')
                         new.shift_before_node(next_node)
                         new.misc[self.added_label] = 1
-- 
2.43.0

