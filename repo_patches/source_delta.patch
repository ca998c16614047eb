From 34d29c2ec87cb8e722bdb178c2f1de5904f50f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:28 +0000
Subject: [PATCH 001/147] fix: refuse cross-tree attachment before detaching
 the node from its parent

---
 udapi/core/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 3897c3a..c4aadfb 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -334,10 +334,10 @@ class Node(object):
         # Remove the current Node from the children of the old parent.
         # Forbid moving nodes from one tree to another using parent setter.
         if self._parent:
-            self._parent._children.remove(self)
             if self._parent._root is not new_parent._root:
                 raise ValueError('Cannot move nodes between trees with parent setter, '
                                  'use new_root.steal_nodes(nodes_to_be_moved) instead')
+            self._parent._children.remove(self)
         # Set the new parent.
         self._parent = new_parent
 
-- 
2.43.0


From c319812ea1734b145cfb8fdc676848871692e48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 002/147] fix: ten and more empty nodes between two words

---
 udapi/core/node.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index c4aadfb..9a0469e 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -6,6 +6,7 @@ and function `find_minimal_common_treelet`.
 """
 import logging
 import functools
+import re
 
 import udapi.core.coref
 from udapi.block.write.textmodetrees import TextModeTrees
@@ -464,7 +465,7 @@ class Node(object):
                 if isinstance(new_ord, OrdTuple):
                     new_ord.increase()
                 elif new_ord == base_ord + 0.9:
-                    new_ord = OrdTuple(base_ord, 10)
+                    new_ord = OrdTuple(f'{base_ord}.10')
                 else:
                     new_ord = round(new_ord+0.1, 1)
         new_node._ord = new_ord
@@ -1052,8 +1053,8 @@ class EmptyNode(Node):
     def ord(self, new_ord):
         """Empty node's ord setter accepts float and str."""
         if isinstance(new_ord, str):
-            self._ord = float(new_ord)
-        elif isinstance(new_ord, float):
+            self._ord = OrdTuple(new_ord) if re.match(r'\d+\.[1-9]\d+$', new_ord) else float(new_ord)
+        elif isinstance(new_ord, (float, OrdTuple)):
             self._ord = new_ord
         else:
             raise ValueError('Only str and float are allowed for EmptyNode ord setter,'
@@ -1122,7 +1123,7 @@ class OrdTuple:
 
     def increase(self):
         """Increment the decimal part of this ord."""
-        self._key = (self.key[0], self._key[1]+1)
+        self._key = (self._key[0], self._key[1]+1)
 
 
 # Implementation note on ListOfNodes
-- 
2.43.0


From 46977fb60614ca205b50d96b28b12bbe312dee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 003/147] fix: removing an already removed node again changes
 nothing

---
 udapi/core/node.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 9a0469e..e9a5eb6 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -516,7 +516,10 @@ class Node(object):
             `warn` means to issue a warning if any children are present and delete them.
             `rehang_warn` means to rehang and warn:-).
         """
-        self._parent._children.remove(self)
+        try:
+            self._parent._children.remove(self)
+        except ValueError:
+            return # self may be an already deleted node e.g. if n.remove() called twice
 
         # If there are any children, do the action specified in the "children" parameter.
         if children is not None and self._children:
-- 
2.43.0


From f3b6a20b1025e483c797581e40ecdff1293a86f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:33 +0000
Subject: [PATCH 004/147] fix: removing an empty node keeps the other enhanced
 dependencies

---
 udapi/core/node.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index e9a5eb6..3e1877b 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -252,8 +252,8 @@ class Node(object):
         # Afterwards, we can use the following optimization
         #if self._raw_deps is not None:
         #    return self._raw_deps
-        if self._deps:
-            self._raw_deps = '|'.join(f"{dep['parent']._ord}:{dep['deprel']}" for dep in self._deps)
+        if self._deps is not None:
+            self._raw_deps = '|'.join(f"{dep['parent']._ord}:{dep['deprel']}" for dep in self._deps) or '_'
         return self._raw_deps
 
     @raw_deps.setter
@@ -1069,16 +1069,29 @@ class EmptyNode(Node):
 
     def remove(self):
         """Delete this empty node."""
-        to_reorder = [e for e in self._root.empty_nodes if e._ord > self._ord and e._ord < self.ord+1]
-        for empty in to_reorder:
-            empty._ord = round(empty._ord - 0.1, 1)
-        try:
-            self._root.empty_nodes.remove(self)
-        except ValueError:
+        if self not in self._root.empty_nodes:
             return # self may be an already deleted node e.g. if n.remove() called twice
         for n in self._root.empty_nodes + self._root._descendants:
-            if n._deps:
-                n._deps = {(deprel, parent) for deprel, parent in n._deps if parent != self}
+            # Deserialize enhanced dependencies on empty nodes before changing the ord of any empty node.
+            if n._deps is None and '.' not in n._raw_deps:
+                continue
+            if any(dep['parent'] is self for dep in n.deps):
+                n.deps = [dep for dep in n._deps if dep['parent'] is not self]
+        self._root.empty_nodes.remove(self)
+        major, minor = _split_ord(self._ord)
+        for empty in self._root.empty_nodes:
+            empty_major, empty_minor = _split_ord(empty._ord)
+            if empty_major == major and empty_minor > minor:
+                empty._ord = _join_ord(empty_major, empty_minor - 1)
+
+def _split_ord(node_ord):
+    """Split an ord (int, float or OrdTuple) into its integer and decimal part, e.g. 1.2 into (1, 2)."""
+    major, _, minor = str(node_ord).partition('.')
+    return int(major), int(minor or 0)
+
+def _join_ord(major, minor):
+    """Return the ord of an empty node, e.g. 1.2 or OrdTuple('1.10')."""
+    return float(f"{major}.{minor}") if minor < 10 else OrdTuple(f"{major}.{minor}")
 
 @functools.total_ordering
 class OrdTuple:
-- 
2.43.0


From 40f58aa29a7d9f6847476b5f054942cd0683f6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:59 +0000
Subject: [PATCH 005/147] fix: keep positions of empty nodes unique and in
 order after removing words

---
 udapi/core/node.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 3e1877b..a451884 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -543,16 +543,14 @@ class Node(object):
             except ValueError:
                 pass # self may be an already deleted node e.g. if n.remove() called twice
             else:
+                nodes = [self._root] + self._root._descendants
+                empty_follows = {}
+                for empty in self._root.empty_nodes:
+                    old_ord = _split_ord(empty._ord)[0]
+                    empty_follows[empty] = nodes[old_ord if old_ord < self._ord else old_ord - 1]
                 for (new_ord, node) in enumerate(self._root._descendants[self._ord - 1:], self._ord):
                     node.ord = new_ord
-                last_ord = 0
-                for empty in self._root.empty_nodes:
-                    if empty._ord > self._ord:
-                        new_ord = round(empty._ord - 1, 1)
-                        if new_ord <= last_ord:
-                            new_ord = round(last_ord + 0.1, 1)
-                        empty.ord = new_ord
-                    last_ord = empty._ord
+                _reorder_empty_nodes(self._root.empty_nodes, empty_follows)
         else:
             # Remember the position of empty nodes, so we can reorder them as well.
             empty_follows = None
@@ -575,13 +573,7 @@ class Node(object):
             # Make sure that e.g. after deleting node with ord=2
             # ords "1 1.1 1.2 2 2.1" will become "1 1.1 1.2 1.3".
             if empty_follows:
-                last_ord = 0
-                for empty in self._root.empty_nodes:
-                    prev_nonempty = empty_follows[empty]
-                    new_ord = round(prev_nonempty._ord + (empty._ord % 1), 1)
-                    while new_ord <= last_ord:
-                        new_ord = round(new_ord + 0.1, 1)
-                    last_ord, empty.ord = new_ord, new_ord
+                _reorder_empty_nodes(self._root.empty_nodes, empty_follows)
 
     def _shift_before_ord(self, reference_ord, without_children=False):
         """Internal method for changing word order."""
@@ -1093,6 +1085,19 @@ def _join_ord(major, minor):
     """Return the ord of an empty node, e.g. 1.2 or OrdTuple('1.10')."""
     return float(f"{major}.{minor}") if minor < 10 else OrdTuple(f"{major}.{minor}")
 
+def _reorder_empty_nodes(empty_nodes, empty_follows):
+    """Place each empty node after the node `empty_follows[empty]`.
+
+    The decimal part of the ord is increased only if needed for keeping the order of empty nodes.
+    """
+    last_major, last_minor = None, 0
+    for empty in empty_nodes:
+        major, minor = empty_follows[empty]._ord, _split_ord(empty._ord)[1]
+        if major == last_major:
+            minor = max(minor, last_minor + 1)
+        empty._ord = _join_ord(major, minor)
+        last_major, last_minor = major, minor
+
 @functools.total_ordering
 class OrdTuple:
     """Class for the rare case of 9+ consecutive empty nodes, i.e. ords x.10, x.11 etc.
-- 
2.43.0


From 75084a992dbbd633499074a0b3c037c19a963287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 006/147] fix: keep empty nodes between the same words when
 shifting words and subtrees

---
 udapi/core/node.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index a451884..f48ed6c 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -577,8 +577,28 @@ class Node(object):
 
     def _shift_before_ord(self, reference_ord, without_children=False):
         """Internal method for changing word order."""
+        if not self._root.empty_nodes:
+            self._shift_words_before_ord(reference_ord, without_children)
+            return
+
+        # Empty nodes stay between the same words (except for the words being moved).
+        # Empty nodes before the first overt token (ID=0.X) will be never moved this way.
+        # We cannot know whether the caller wanted to place the shifted node before or after them.
+        old_nodes = [self._root] + self._root._descendants
+        to_move = [self] if without_children else self.descendants(add_self=True)
+        empty_follows = {}
+        for empty in self._root.empty_nodes:
+            prev_ord = _split_ord(empty._ord)[0]
+            while old_nodes[prev_ord] in to_move:
+                prev_ord -= 1
+            empty_follows[empty] = old_nodes[prev_ord]
+        self._shift_words_before_ord(reference_ord, without_children)
+        if self._root._descendants != old_nodes[1:]:
+            _reorder_empty_nodes(self._root.empty_nodes, empty_follows)
+
+    def _shift_words_before_ord(self, reference_ord, without_children=False):
+        """Internal method for changing word order of non-empty nodes."""
         all_nodes = self._root._descendants
-        empty_nodes = self._root.empty_nodes
 
         # Moving a single node can be faster than nodes_to_move = [self]
         if without_children or not self._children:
@@ -589,25 +609,15 @@ class Node(object):
                     all_nodes[i_ord - 1]._ord = i_ord
                 all_nodes[reference_ord - 2] = self
                 self._ord = reference_ord - 1
-                for en in empty_nodes:
-                    if en._ord > my_ord and en._ord < reference_ord:
-                        en._ord -= 1
             elif reference_ord < my_ord:
                 for i_ord in range(my_ord, reference_ord, -1):
                     all_nodes[i_ord - 1] = all_nodes[i_ord - 2]
                     all_nodes[i_ord - 1]._ord = i_ord
                 all_nodes[reference_ord - 1] = self
                 self._ord = reference_ord
-                for en in empty_nodes:
-                    # Empty nodes before the first overt token (ID=0.X) will be never moved this way.
-                    # We cannot know whether the caller wanted to place the shifted node before or after them.
-                    if en._ord < my_ord and en._ord > reference_ord:
-                        en._ord += 1
             self._parent._children.sort()
             return
 
-        #TODO: Updating ords of empty nodes is implemented only for the simple case above,
-        # but it has to be implemented also for the complex case below!
         nodes_to_move = self.descendants(add_self=True)
         first_ord, last_ord = nodes_to_move[0]._ord, nodes_to_move[-1]._ord
 
-- 
2.43.0


From 23e8717d1fce72487fd807994342000b93e01753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:08 +0000
Subject: [PATCH 007/147] fix: steal_nodes renumbers the source tree and moves
 the right multi-word tokens

---
 udapi/core/root.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index abf36a7..2c755b4 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -288,13 +288,17 @@ class Root(Node):
                 self._children.append(node)
         if whole_tree:
             old_root._descendants = []
+            for mwt in old_root.multiword_tokens:
+                mwt.root = self
             self._mwts += old_root.multiword_tokens
             old_root.multiword_tokens = []
         else:
             old_root._descendants = [n for n in old_root._descendants if n not in nodes]
-            mwt = node.multiword_token
+            for old_ord, node in enumerate(old_root._descendants, 1):
+                node.ord = old_ord
             for node in nodes:
-                if mwt:
+                mwt = node.multiword_token
+                if mwt and mwt.root is old_root:
                     words = [w for w in mwt.words if w in nodes]
                     mwt.remove()
                     self.create_multiword_token(words=words, form=mwt.form, misc=mwt.misc)
-- 
2.43.0


From 7171eb85601ffb8fd372a6a5f173d30aa50044aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:22 +0000
Subject: [PATCH 008/147] fix: Root.flatten resets deprels as documented

---
 udapi/core/root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 2c755b4..583c146 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -318,3 +318,4 @@ class Root(Node):
         for node in self._children:
             node._parent = self
             node._children.clear()
+            node.deprel = deprel
-- 
2.43.0


From 5f0d41c1a359495d0ff3fa2e0f6cf652821f6871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:18 +0000
Subject: [PATCH 009/147] fix: minimal common treelet of nodes joined only by
 the root

---
 udapi/core/node.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index f48ed6c..7029a78 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1238,14 +1238,13 @@ def find_minimal_common_treelet(*args):
     # For unsure members we need to mark from which of its children
     # we climbed to it (`in_treelet[paren.ord] = the_child`).
     # In `new_nodes` dict, we note which nodes were tentatively added to the treelet.
-    # If we climb up to the root of the whole tree, we save the root in `highest`.
+    # If we climb up to the root of the whole tree, we let it wait for the other components.
     new_nodes = {}
-    highest = None
     while len(nodes) > 1:
         node = nodes.pop(0)  # TODO deque
         parent = node._parent
         if parent is None:
-            highest = node
+            nodes.append(node)
         elif in_treelet.get(parent._ord, False):
             in_treelet[parent._ord] = 1
         else:
@@ -1253,9 +1252,8 @@ def find_minimal_common_treelet(*args):
             in_treelet[parent._ord] = node
             nodes.append(parent)
 
-    # In most cases, `nodes` now contain just one node -- the one we were looking for.
-    # Only if we climbed up to the root, then the `highest` one is the root, of course.
-    highest = highest or nodes[0]
+    # Now, `nodes` contain just one node -- the one we were looking for.
+    highest = nodes[0]
 
     # Step 2: Find the lowest node which is governing all the original input `nodes`.
     # If the `highest` node is unsure, climb down using poiners stored in `in_treelet`.
-- 
2.43.0


From 56316374e8aed612ed1ba6cb98fa32a353792f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:24 +0000
Subject: [PATCH 010/147] fix: creating an empty node as a child of an empty
 node gives it a valid position

---
 udapi/core/node.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 7029a78..011575b 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1067,7 +1067,36 @@ class EmptyNode(Node):
 
     def shift(self, reference_node, after=0, move_subtree=0, reference_subtree=0):
         """Attempts at changing the word order of EmptyNode result in NotImplemented exception."""
-        raise NotImplemented('Empty nodes cannot be re-order using shift* methods yet.')
+        raise NotImplementedError('Empty nodes cannot be re-order using shift* methods yet.')
+
+    def create_empty_child(self, deprel, after=True, **kwargs):
+        """Create and return a new empty node child of the current empty node.
+
+        Args:
+            deprel, form, lemma, upos, xpos, feats, misc: as in `Node.create_empty_child()`
+            after: If True (default), the new node will have the first free `ord` after this node.
+                If False, the new node will be placed immediately before this node,
+                i.e. `ord` of this node and of the following empty nodes will be increased.
+        """
+        root = self._root
+        new_node = EmptyNode(root=root, **kwargs)
+        new_node.deps = [{'parent': self, 'deprel': deprel}]
+        major, minor = _split_ord(self._ord)
+        following = [e for e in root.empty_nodes if _split_ord(e._ord)[0] == major and not e < self]
+        if after:
+            used = {_split_ord(e._ord)[1] for e in following}
+            minor = next(i for i in range(minor + 1, minor + len(used) + 1) if i not in used)
+        else:
+            for n in root.empty_nodes + root._descendants:
+                # Deserialize enhanced dependencies on empty nodes before changing the ord of any empty node.
+                if n._deps is None and '.' in n._raw_deps:
+                    n.deps  # pylint: disable=pointless-statement
+            for empty in following:
+                empty._ord = _join_ord(major, _split_ord(empty._ord)[1] + 1)
+        new_node._ord = _join_ord(major, minor)
+        root.empty_nodes.append(new_node)
+        root.empty_nodes.sort()
+        return new_node
 
     def remove(self):
         """Delete this empty node."""
-- 
2.43.0


From cbe6f8c26fff862a02178e333ab35086c91d55bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:28 +0000
Subject: [PATCH 011/147] fix: a failed parsing of enhanced dependencies does
 not leave a partial list

---
 udapi/core/node.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 011575b..241280f 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -275,9 +275,10 @@ class Node(object):
         """
         if self._deps is None:
             # Create a list of secondary dependencies.
-            self._deps = list()
+            deps = list()
 
             if self._raw_deps == '_':
+                self._deps = deps
                 return self._deps
 
             # Obtain a list of all nodes in the dependency tree.
@@ -294,7 +295,8 @@ class Node(object):
                         raise ValueError(f'Empty node with ord={head} not found')
                 else:
                     parent = nodes[int(head)]
-                self._deps.append({'parent': parent, 'deprel': deprel})
+                deps.append({'parent': parent, 'deprel': deprel})
+            self._deps = deps
 
         return self._deps
 
-- 
2.43.0


From 5621b2577dbbe440239fbcea1b70d6cb77a54153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:13 +0000
Subject: [PATCH 012/147] fix: cleared other attributes of a mention are an
 empty string

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index aa27e6a..ace6578 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -1058,7 +1058,7 @@ class OtherDualDict(collections.abc.MutableMapping):
         return self._dict.__contains__(key)
 
     def clear(self):
-        self._string = '_'
+        self._string = ''
         self._dict.clear()
 
     def copy(self):
-- 
2.43.0


From b5f01232b4b1df6162d01fc520e00541349abf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 013/147] fix: assigning a DualDict to itself does not delete
 its content

---
 udapi/core/coref.py    | 2 +-
 udapi/core/dualdict.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index ace6578..15fc2de 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -1080,7 +1080,7 @@ class OtherDualDict(collections.abc.MutableMapping):
             self._dict.clear()
             self._string = value
         elif isinstance(value, collections.abc.Mapping):
-            self._string = None
             self._dict = dict(value)
+            self._string = None
         else:
             raise ValueError("Unsupported value type " + str(value))
diff --git a/udapi/core/dualdict.py b/udapi/core/dualdict.py
index ba0129e..1b6a649 100644
--- a/udapi/core/dualdict.py
+++ b/udapi/core/dualdict.py
@@ -115,7 +115,7 @@ class DualDict(collections.abc.MutableMapping):
             self._dict.clear()
             self._string = value if value != '' else '_'
         elif isinstance(value, collections.abc.Mapping):
-            self._string = None
             self._dict = dict(value)
+            self._string = None
         else:
             raise ValueError("Unsupported value type " + str(value))
-- 
2.43.0


From 9f783eb1048f1d0eef166e5681b0614b150c80bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 014/147] fix: address of a multi-word token

---
 udapi/core/mwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/mwt.py b/udapi/core/mwt.py
index 3cc95ca..95dc093 100644
--- a/udapi/core/mwt.py
+++ b/udapi/core/mwt.py
@@ -45,7 +45,7 @@ class MWT(object):
 
     def address(self):
         """Full (document-wide) id of the multi-word token."""
-        return self.root.address + '#' + self.ord_range
+        return self.root.address() + '#' + self.ord_range
 
     @staticmethod
     def is_mwt():
-- 
2.43.0


From a3bf6574a9f9e3d3d3cd054137ef06bade756e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:24 +0000
Subject: [PATCH 015/147] fix: multi-word token created from words in another
 order than word order

---
 udapi/core/root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 583c146..17fd040 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -182,6 +182,7 @@ class Root(Node):
             if w.multiword_token:
                 w.multiword_token.remove()
         # Now, create the new MWT.
+        words = sorted(words)
         mwt = MWT(words, form, misc, root=self)
         self._mwts.append(mwt)
         if words[-1].misc["SpaceAfter"] == "No":
-- 
2.43.0


From 7c54474ead1a8d86c4dae28b5aefa3e83e938705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 016/147] fix: renaming a bundle with several trees keeps the
 id of the tree without zone

---
 udapi/core/bundle.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index 0a637f0..006616e 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -32,11 +32,9 @@ class Bundle(object):
     @bundle_id.setter
     def bundle_id(self, bundle_id):
         self._bundle_id = bundle_id
-        if len(self.trees) == 1 and self.trees[0].zone == '':
-            self.trees[0]._sent_id = bundle_id
-        else:
-            for tree in self.trees:
-                tree._sent_id = bundle_id + '/' + tree.zone  # pylint: disable=protected-access
+        for tree in self.trees:
+            slashzone = '/' + tree.zone if tree.zone else ''
+            tree._sent_id = bundle_id + slashzone  # pylint: disable=protected-access
 
     def __str__(self):
         if self._bundle_id is None:
-- 
2.43.0


From 420415cec6245ae069f3cc968525a8eb7f68be1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 017/147] fix: bundles are numbered from one also after
 removing a bundle

---
 udapi/core/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index 006616e..5d78420 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -104,7 +104,7 @@ class Bundle(object):
     def remove(self):
         """Remove a bundle from the document."""
         self._document.bundles = [bundle for bundle in self._document.bundles if bundle != self]
-        for i, bundle in enumerate(self._document.bundles):
+        for i, bundle in enumerate(self._document.bundles, 1):
             bundle.number = i
 
     def address(self):
-- 
2.43.0


From 99af6eb96fa339b89511d51f307d4fb0e5f8e417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 018/147] fix: a zone name must not end with a newline

---
 udapi/core/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index 5d78420..10fde22 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -5,7 +5,7 @@ import re
 from udapi.core.root import Root
 from udapi.block.write.textmodetrees import TextModeTrees
 
-VALID_ZONE_REGEX = re.compile("^[a-z-]*(_[A-Za-z0-9-]+)?$")
+VALID_ZONE_REGEX = re.compile(r"^[a-z-]*(_[A-Za-z0-9-]+)?\Z")
 
 
 class Bundle(object):
-- 
2.43.0


From 30b7d2824c356ba31fed346cb54e359a484f4395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 019/147] fix: setting sent_id of a tree in a bundle keeps ids
 and zones consistent

---
 udapi/core/root.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 17fd040..acbc235 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -58,7 +58,8 @@ class Root(Node):
             self._bundle.bundle_id = parts[0]
             if len(parts) == 2:
                 self.zone = parts[1]
-        self._sent_id = sent_id
+        else:
+            self._sent_id = sent_id
 
     def address(self):
         """Full (document-wide) id of the root.
@@ -92,7 +93,7 @@ class Root(Node):
     @zone.setter
     def zone(self, zone):
         """Specify which zone the root belongs to."""
-        if self._bundle:
+        if self._bundle and zone != self._zone:
             self._bundle.check_zone(zone)
         self._zone = zone
         slashzone = '/' + zone if zone else ''
-- 
2.43.0


From 1d90900820f85bd562000f255370d3db2e85a596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 020/147] fix: deleting a missing key of FEATS or MISC does not
 reformat its text

---
 udapi/core/coref.py    | 2 +-
 udapi/core/dualdict.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 15fc2de..7ccaa7b 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -1030,10 +1030,10 @@ class OtherDualDict(collections.abc.MutableMapping):
 
     def __setitem__(self, key, value):
         self._deserialize_if_empty()
-        self._string = None
         if value is None or value == '':
             self.__delitem__(key)
         else:
+            self._string = None
             value = value.replace(',', '%2C') # TODO report a warning? Escape also '|' and '-'?
             self._dict[key] = value
 
diff --git a/udapi/core/dualdict.py b/udapi/core/dualdict.py
index 1b6a649..bddb141 100644
--- a/udapi/core/dualdict.py
+++ b/udapi/core/dualdict.py
@@ -65,8 +65,8 @@ class DualDict(collections.abc.MutableMapping):
 
     def __setitem__(self, key, value):
         self._deserialize_if_empty()
-        self._string = None
         if value is not None and value != '':
+            self._string = None
             self._dict[key] = value
         else:
             self.__delitem__(key)
-- 
2.43.0


From 048a6c6ab6261be3cdbf26dae23c09ef9a9f730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:08 +0000
Subject: [PATCH 021/147] fix: write.Conllu keeps comments with unusual line
 separators and omits text if print_text=0

---
 udapi/block/write/conllu.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index 2573b5a..af41b3c 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -1,5 +1,6 @@
 """Conllu class is a a writer of files in the CoNLL-U format."""
 import json
+import re
 from udapi.core.basewriter import BaseWriter
 
 class Conllu(BaseWriter):
@@ -25,7 +26,8 @@ class Conllu(BaseWriter):
 
         # If tree.comment contains placeholders $NEWDOC,...$TEXT, replace them with the actual
         # value of the attribute and make note on which line (i_*) they were present.
-        comment_lines = tree.comment.splitlines()
+        # Don't use splitlines() because it splits also on e.g. U+2028, which is allowed within a comment.
+        comment_lines = re.split(r'\r\n|\r|\n', tree.comment)
         i_newdoc, i_newpar, i_sent_id, i_text, i_global_entity = -1, -1, -1, -1, -1
         for i, c_line in enumerate(comment_lines):
             if c_line == '$SENT_ID':
@@ -38,6 +40,8 @@ class Conllu(BaseWriter):
                         comment_lines[i] = ' text = ' + tree.compute_text()
                     else:
                         comment_lines[i] = ' text = ' + tree.text.replace('\n', '').replace('\r', '').rstrip()
+                else:
+                    comment_lines[i] = None
             elif c_line == '$NEWDOC':
                 i_newdoc = i
                 if self.print_sent_id and tree.newdoc:
-- 
2.43.0


From ed69df9683965cfb30bea68428f79c0f1f31a8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 022/147] fix: reading CoNLL-U tree by tree gives the same
 trees as reading all at once

---
 udapi/block/read/conllu.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index b485c17..e356be7 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -88,35 +88,35 @@ class Conllu(BaseReader):
             # as s.split('\n\n') and this time is negligble
             # relative to the main CoNLL-U parsing in read_tree_from_lines().
             return [self.read_tree_from_lines(s.split('\n')) for s in
-                    re.split(r'\n\n+', self.filehandle.read()) if s]
+                    re.split(r'\n\n+', self.filehandle.read().strip('\n')) if s]
         # udapi.core.basereader takes care about the max_docs parameter.
         # However, we can make the loading much faster by not reading
         # the whole file if the user wants just first N documents.
-        trees, lines, loaded_docs = [], [], 0
-        for line in self.filehandle:
-            line = line.rstrip()
-            if line == '':
-                tree = self.read_tree_from_lines(lines)
-                lines = []
-                if tree.newdoc:
-                    if loaded_docs == self.max_docs:
-                        return trees
-                    loaded_docs += 1
-                if tree:
-                    trees.append(tree)
-            else:
-                lines.append(line)
-        return trees
+        trees, loaded_docs = [], 0
+        while True:
+            tree = self.read_tree()
+            if tree is None:
+                return trees
+            if tree.newdoc:
+                if loaded_docs == self.max_docs:
+                    return trees
+                loaded_docs += 1
+            trees.append(tree)
 
     def read_tree(self):
         if self.filehandle is None:
             return None
         lines = []
         for line in self.filehandle:
-            line = line.rstrip()
+            line = line.rstrip('\n')
             if line == '':
-                break
-            lines.append(line)
+                # Skip blocks without any nodes, e.g. if there are more than one empty lines.
+                tree = self.read_tree_from_lines(lines)
+                if tree is not None:
+                    return tree
+                lines = []
+            else:
+                lines.append(line)
         return self.read_tree_from_lines(lines)
 
     # pylint: disable=too-many-locals,too-many-branches,too-many-statements
-- 
2.43.0


From 7aa380655a0addf1de91363c2e6fac8b971f4304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 023/147] fix: a sentence without sent_id does not get the id
 of the previous sentence

---
 udapi/core/basereader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index c3bcf91..0a682f6 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -154,6 +154,8 @@ class BaseReader(Block):
                         root.zone = parts[1]
                     add_to_the_last_bundle = bundle_id == last_bundle_id
                     last_bundle_id = bundle_id
+                else:
+                    last_bundle_id = ''
                 if self.zone != 'keep':
                     root.zone = self.zone
 
@@ -248,6 +250,8 @@ class BaseReader(Block):
                         root.zone = parts[1]
                     add_to_the_last_bundle = bundle_id == last_bundle_id
                     last_bundle_id = bundle_id
+                else:
+                    last_bundle_id = ''
 
                 if self.zone != 'keep':
                     root.zone = self.zone
-- 
2.43.0


From 567fe3e8d1476f537334782cd8cbfc16f39a2d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:18 +0000
Subject: [PATCH 024/147] fix: comments like sent_id_orig are not taken for
 sent_id

---
 udapi/block/read/conllu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index e356be7..2d01c7f 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -10,7 +10,7 @@ from udapi.core.node import Node
 # Compile a set of regular expressions that will be searched over the lines.
 # The equal sign after sent_id was added to the specification in UD v2.0.
 # This reader accepts also older-style sent_id (until UD v2.0 treebanks are released).
-RE_SENT_ID = re.compile(r'^# sent_id\s*=?\s*(\S+)')
+RE_SENT_ID = re.compile(r'^# sent_id(?:\s*=\s*|\s+)(\S+)')
 RE_TEXT = re.compile(r'^# text\s*=\s*(.*)')
 RE_NEWPARDOC = re.compile(r'^# (newpar|newdoc)(?:\s+id\s*=\s*(.+))?$')
 RE_JSON = re.compile(r'^# (doc_)?json_([^ =]+)\s*=\s*(.+)')
-- 
2.43.0


From 62fa9cfa669b2de8b79480ecd37830e39e767b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:24 +0000
Subject: [PATCH 025/147] fix: a negative HEAD in CoNLL-U is out of range

---
 udapi/block/read/conllu.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 2d01c7f..1099a1c 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -190,10 +190,9 @@ class Conllu(BaseReader):
 
         # Set dependency parents (now, all nodes of the tree are created).
         for node_ord, node in enumerate(nodes[1:], 1):
-            try:
-                parent = nodes[parents[node_ord]]
-            except IndexError:
+            if not 0 <= parents[node_ord] < len(nodes):
                 raise ValueError("Node %s HEAD is out of range (%d)" % (node, parents[node_ord]))
+            parent = nodes[parents[node_ord]]
             if node is parent:
                 if self.fix_cycles:
                     logging.warning("Ignoring a cycle (attaching to the root instead):\n%s", node)
-- 
2.43.0


From f5385595dd66b63c3a58c4a94ecb06cf065d6f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:24 +0000
Subject: [PATCH 026/147] fix: read.Conllu fix_cycles=1 with a node attached to
 itself

---
 udapi/block/read/conllu.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 1099a1c..4a257e7 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -196,8 +196,7 @@ class Conllu(BaseReader):
             if node is parent:
                 if self.fix_cycles:
                     logging.warning("Ignoring a cycle (attaching to the root instead):\n%s", node)
-                    node._parent = root
-                    root._children.append(node)
+                    parent = root
                 else:
                     raise ValueError(f"Detected a cycle: {node} attached to itself")
             elif node._children:
-- 
2.43.0


From 1de574ba5e56be4e3783dce3e26879805a7c0373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:24 +0000
Subject: [PATCH 027/147] fix: MISC of a multi-word token in a line with
 additional columns

---
 udapi/block/read/conllu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 4a257e7..ea101d0 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -221,6 +221,6 @@ class Conllu(BaseReader):
                 logging.warning(f"Wrong MWT range in\n{fields[0]}\n\n{lines}")
                 raise
             words = nodes[int(range_start):int(range_end) + 1]
-            root.create_multiword_token(words, form=fields[1], misc=fields[-1])
+            root.create_multiword_token(words, form=fields[1], misc=fields[9])
 
         return root
-- 
2.43.0


From 967ce6f98f7f9da1fcdbf524624353c705e38287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 028/147] fix: reading documents from a filehandle does not
 deliver an additional empty document

---
 udapi/core/basereader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index 0a682f6..a9e4a58 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -19,6 +19,8 @@ class BaseReader(Block):
         if filehandle is not None:
             files = None
         self.files = Files(filenames=files, filehandle=filehandle, encoding=encoding)
+        if filehandle is not None:
+            self.next_filehandle()  # the given filehandle is the first (and only) file
         self.zone = zone
         self.bundles_per_doc = bundles_per_doc
         self._buffer = None
-- 
2.43.0


From ff58b15bc146228d60eb8e5919923c5c88cd080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:04 +0000
Subject: [PATCH 029/147] fix: the tree buffered for the next document counts
 as loaded, once, and keeps its bundle id

---
 udapi/core/basereader.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index a9e4a58..7b40f6f 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -188,23 +188,22 @@ class BaseReader(Block):
             if self.try_fast_load(document):
                 return
             orig_bundles = document.bundles[:]
-            bundle, last_bundle_id = None, ''
+            bundle, last_bundle_id, trees_loaded = None, '', 0
 
             # There may be a tree left in the buffer when reading the last doc.
             if self._buffer:
-                root = self._buffer
+                root, last_bundle_id = self._buffer
                 self._buffer = None
+                trees_loaded = 1
                 if orig_bundles:
                     bundle = orig_bundles.pop(0)
                 else:
                     bundle = document.create_bundle()
-                    if root._sent_id is not None:
-                        bundle.bundle_id = root._sent_id.split('/', 1)[0]
+                    if last_bundle_id != '':
+                        bundle.bundle_id = last_bundle_id
                 bundle.add_tree(root)
-                if root.newdoc:
-                    self._docs_loaded += 1
-                    if root.newdoc is not True:
-                        document.meta["docname"] = root.newdoc
+                if root.newdoc and root.newdoc is not True:
+                    document.meta["docname"] = root.newdoc
                 document.meta['global.Entity'] = self._global_entity
                 document.meta['loaded_from'] = self.filename
 
@@ -216,7 +215,6 @@ class BaseReader(Block):
                     return
                 logging.info(f"Reading {self.files.filename}")
 
-            trees_loaded = 0
             while True:
                 root = self.filtered_read_tree()
                 if root is None:
@@ -265,19 +263,25 @@ class BaseReader(Block):
                         return
                     if not bundle and root.newdoc is not True:
                         document.meta["docname"] = root.newdoc
+                    self._docs_loaded += 1
                     if bundle and self.split_docs:
-                        self._buffer = root
+                        self._buffer = (root, last_bundle_id)
                         if orig_bundles:
                             logging.warning("split_docs=1 but the doc had contained %d bundles",
                                             len(orig_bundles))
                         self.finished = False
                         return
-                    self._docs_loaded += 1
 
                 # assign new/next bundle to `bundle` if needed
                 if not bundle or not add_to_the_last_bundle:
                     if self.bundles_per_doc and bundle and self.bundles_per_doc == bundle.number:
-                        self._buffer = root
+                        # The tree starts a new Udapi document (see the comment on max_docs above).
+                        if not root.newdoc:
+                            if self.max_docs and self._docs_loaded >= self.max_docs:
+                                self.finished = True
+                                return
+                            self._docs_loaded += 1
+                        self._buffer = (root, last_bundle_id)
                         if orig_bundles:
                             logging.warning("bundles_per_doc=%d but the doc had contained %d bundles",
                                             self.bundles_per_doc, len(orig_bundles))
-- 
2.43.0


From e95ab443389d10acbecf9e015f183b0669d3ee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:43 +0000
Subject: [PATCH 030/147] fix: a block parameter with a digit that is not
 decimal stays a string

---
 udapi/core/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/run.py b/udapi/core/run.py
index 8ac63e1..1a4e9d6 100644
--- a/udapi/core/run.py
+++ b/udapi/core/run.py
@@ -60,7 +60,7 @@ def _parse_command_line_arguments(scenario):
                 'Block attribute pair %r without a prior block name', token)
 
         # Put it as a new argument for the previous block
-        if attribute_value.isdigit():
+        if attribute_value.isdecimal():
             attribute_value = int(attribute_value)
         block_args[-1][attribute_name] = attribute_value
 
-- 
2.43.0


From 1fdb35babb03424a9184e2434004fa8bf9ded0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:05 +0000
Subject: [PATCH 031/147] fix: relative names in a filelist are relative to it,
 absolute ones stay, empty lines are skipped

---
 udapi/core/files.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/udapi/core/files.py b/udapi/core/files.py
index be59b2c..edcbd92 100644
--- a/udapi/core/files.py
+++ b/udapi/core/files.py
@@ -73,8 +73,7 @@ class Files(object):
             with open(filelist_name) as filelist:
                 filenames = [line.rstrip('\n') for line in filelist]
             directory = os.path.dirname(token[1:])
-            if directory != '.':
-                filenames = [f if f[0] != '/' else directory + '/' + f for f in filenames]
+            filenames = [os.path.join(directory, f) for f in filenames if f]
         else:
             filenames = [token]
         return filenames
-- 
2.43.0


From ebd407903a4161dfdd948905dc67814453ef05dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:05 +0000
Subject: [PATCH 032/147] fix: files=@- reads the list of files from the
 standard input

---
 udapi/core/files.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/udapi/core/files.py b/udapi/core/files.py
index edcbd92..4812760 100644
--- a/udapi/core/files.py
+++ b/udapi/core/files.py
@@ -69,9 +69,11 @@ class Files(object):
             if not filenames:
                 raise RuntimeError('No filenames matched "%s" pattern' % pattern)
         elif token[0] == '@':
-            filelist_name = sys.stdin if token == '@-' else token[1:]
-            with open(filelist_name) as filelist:
-                filenames = [line.rstrip('\n') for line in filelist]
+            if token == '@-':
+                filenames = [line.rstrip('\n') for line in sys.stdin]
+            else:
+                with open(token[1:]) as filelist:
+                    filenames = [line.rstrip('\n') for line in filelist]
             directory = os.path.dirname(token[1:])
             filenames = [os.path.join(directory, f) for f in filenames if f]
         else:
-- 
2.43.0


From 4c6e5eb3f3e11464aac895769332ad67cea40491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:47 +0000
Subject: [PATCH 033/147] fix: path=dir/*.* keeps the extension of the loaded
 file

---
 udapi/core/basewriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/basewriter.py b/udapi/core/basewriter.py
index 071ec12..7052706 100644
--- a/udapi/core/basewriter.py
+++ b/udapi/core/basewriter.py
@@ -78,7 +78,7 @@ class BaseWriter(Block):
                             new_dir = old_dir
                         if new_file in ('', '*'):
                             new_file = old_file
-                        if new_ext in ('', '*'):
+                        if new_ext in ('', '.*'):
                             new_ext = old_ext
                         docname = os.path.join(new_dir, new_file + new_ext)
                     logging.info('Writing to file %s.', docname)
-- 
2.43.0


From 08d861bf04e46621fba9e28ff0a9a91a915f4525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:56 +0000
Subject: [PATCH 034/147] fix: horizontal lines of trees drawn without hints
 are not interrupted

---
 udapi/block/write/textmodetrees.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index 885f797..c3d1528 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -276,7 +276,7 @@ class TextModeTrees(BaseWriter):
             max_length = max([self.lengths[i] for i in range(min_idx, max_idx + 1)])
             for idx in range(min_idx, max_idx + 1):
                 idx_node = allnodes[idx]
-                filler = '─' if self._ends(idx, '─╭╰╪┡┢') else ' '
+                filler = '─' if self._ends(idx, '─╭╰╪├┡┢') else ' '
                 self._add(idx, filler * (max_length - self.lengths[idx]))
 
                 topmost = idx == min_idx
@@ -287,7 +287,7 @@ class TextModeTrees(BaseWriter):
                         self.add_node(idx, node)
                 else:
                     if idx_node.parent is not node:
-                        self._add(idx, self._vert[self._ends(idx, '─╭╰╪┡┢')])
+                        self._add(idx, self._vert[self._ends(idx, '─╭╰╪├┡┢')])
                     else:
                         precedes_parent = idx < self._index_of[node.ord]
                         self._add(idx, self._space[precedes_parent][topmost or botmost])
-- 
2.43.0


From 50dbe8fb74f0ca52ad495e169c13bd344b876e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:41 +0000
Subject: [PATCH 035/147] fix: transform.Flatten oneroot=1 accepts empty trees

---
 udapi/block/transform/flatten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/transform/flatten.py b/udapi/block/transform/flatten.py
index d218ad2..5fefff0 100644
--- a/udapi/block/transform/flatten.py
+++ b/udapi/block/transform/flatten.py
@@ -18,7 +18,7 @@ class Flatten(Block):
         for node in tree.descendants:
             node.parent = node.root
             node.deprel = 'root'
-        if self.oneroot:
+        if self.oneroot and tree.descendants:
             first = tree.descendants[0]
             for node in tree.descendants[1:]:
                 node.parent = first
-- 
2.43.0


From 0a7b98c5bd2d8d4db94ae569a029c9d4611b074a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:40 +0000
Subject: [PATCH 036/147] fix: projectivization repeats until every edge is
 projective

---
 udapi/block/transform/proj.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/udapi/block/transform/proj.py b/udapi/block/transform/proj.py
index 6e284b4..1b5686c 100644
--- a/udapi/block/transform/proj.py
+++ b/udapi/block/transform/proj.py
@@ -29,9 +29,17 @@ class Proj(Block):
         self.label = label
 
     def process_tree(self, tree):
+        orig_parents = {}
+        # Lifting a node may make other edges non-projective, so repeat until there are none.
         nonprojs = [self.nonproj_info(n) for n in tree.descendants if n.is_nonprojective()]
-        for nonproj in sorted(nonprojs, key=lambda info: info[0]):
-            self.lift(nonproj[1])
+        while nonprojs:
+            for nonproj in sorted(nonprojs, key=lambda info: info[0]):
+                node, orig_parent = nonproj[1], nonproj[1].parent
+                if self.lift(node):
+                    orig_parents.setdefault(node, orig_parent)
+            nonprojs = [self.nonproj_info(n) for n in tree.descendants if n.is_nonprojective()]
+        for node, orig_parent in orig_parents.items():
+            self.mark(node, orig_parent.udeprel)
 
     def nonproj_info(self, node):
         if self.lifting_order == 'shortest':
@@ -46,14 +54,11 @@ class Proj(Block):
         return (-depth, node)
 
     def lift(self, node):
-        orig_parent = node.parent
         depth = 0
         while node.is_nonprojective():
             node.parent = node.parent.parent
             depth += 1
-        if depth == 0:
-            return
-        self.mark(node, orig_parent.udeprel)
+        return depth
 
     def mark(self, node, label):
         if self.label == 'misc':
-- 
2.43.0


From 362d6a51066908c304bf31c99a7f1c14dd4a9b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:18 +0000
Subject: [PATCH 037/147] =?UTF-8?q?fix:=20ud.SetSpaceAfter=20decides=20abo?=
 =?UTF-8?q?ut=20=E2=80=9C=20in=20each=20sentence=20anew?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 udapi/block/ud/setspaceafter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/ud/setspaceafter.py b/udapi/block/ud/setspaceafter.py
index 04c9fff..85376eb 100644
--- a/udapi/block/ud/setspaceafter.py
+++ b/udapi/block/ud/setspaceafter.py
@@ -37,13 +37,13 @@ class SetSpaceAfter(Block):
         # Some languages use directed „quotes“ and some “quotes”,
         # so the symbol “ (U+201C) is ambiguous and we heuristically check for presence of „.
         if count_of_form['„']:
-            not_before += ['“']
+            not_before = not_before + ['“']
         else:
-            not_after += ['“']
+            not_after = not_after + ['“']
 
         for i, node in enumerate(nodes[:-1]):
             next_form = nodes[i + 1].form
-            if node.form in self.not_after or next_form in not_before:
+            if node.form in not_after or next_form in not_before:
                 self.mark_no_space(node)
             if node.form == '"':
                 if matching_quotes:
-- 
2.43.0


From 080bc88b44f0a7e83805ccdaed7328b388f0a0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:18 +0000
Subject: [PATCH 038/147] fix: ud.SetSpaceAfter accepts empty trees and a
 single quotation mark

---
 udapi/block/ud/setspaceafter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/setspaceafter.py b/udapi/block/ud/setspaceafter.py
index 85376eb..c7eedca 100644
--- a/udapi/block/ud/setspaceafter.py
+++ b/udapi/block/ud/setspaceafter.py
@@ -55,7 +55,7 @@ class SetSpaceAfter(Block):
                 elif i==0:
                     self.mark_no_space(node)
 
-        if nodes[-1].form == '"':
+        if len(nodes) > 1 and nodes[-1].form == '"':
             self.mark_no_space(nodes[-2])
 
         if self.fix_text and self.changed:
-- 
2.43.0


From d9d32022ed984652d1d139e3e9cc8c99da6dbc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:13 +0000
Subject: [PATCH 039/147] fix: ud.GoeswithFromText reports a multi-word token
 with spaces instead of crashing

---
 udapi/block/ud/goeswithfromtext.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/udapi/block/ud/goeswithfromtext.py b/udapi/block/ud/goeswithfromtext.py
index fe419fa..2a532ea 100644
--- a/udapi/block/ud/goeswithfromtext.py
+++ b/udapi/block/ud/goeswithfromtext.py
@@ -8,6 +8,7 @@ Author: Martin Popel
 import logging
 
 from udapi.core.block import Block
+from udapi.core.mwt import MWT
 
 
 class GoeswithFromText(Block):
@@ -81,6 +82,14 @@ class GoeswithFromText(Block):
                 raw_form = text[:len_raw_form]
                 text = text[len_raw_form:]
                 tokens = raw_form.split(' ')
+                if isinstance(node, MWT):
+                    logging.warning('Unable to split multi-word token %s -> %s', node, raw_form)
+                    if not text or text[0].isspace():
+                        del node.misc['SpaceAfter']
+                        text = text.lstrip()
+                    else:
+                        node.misc['SpaceAfter'] = 'No'
+                    continue
                 node.form = tokens[0]
                 if not self.keep_lemma:
                     node.lemma = tokens[0].lower()
-- 
2.43.0


From b2ab8be49e9a2a690799e3582d0d90cd8d321ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:13 +0000
Subject: [PATCH 040/147] fix: ud.ComplyWithText does not look behind the end
 of the text or of the words

---
 udapi/block/ud/complywithtext.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/udapi/block/ud/complywithtext.py b/udapi/block/ud/complywithtext.py
index b36b251..57eb5a9 100644
--- a/udapi/block/ud/complywithtext.py
+++ b/udapi/block/ud/complywithtext.py
@@ -162,13 +162,13 @@ class ComplyWithText(Block):
         for diff in orig_diffs:
             edit, tree_lo, tree_hi, text_lo, text_hi = diff
             if edit != 'insert':
-                if tree_chars[tree_lo] == ' ':
+                if tree_lo < tree_hi and tree_chars[tree_lo] == ' ':
                     tree_lo += 1
-                if tree_chars[tree_hi - 1] == ' ':
+                if tree_lo < tree_hi and tree_chars[tree_hi - 1] == ' ':
                     tree_hi -= 1
-                if text[text_lo] == ' ':
+                if text_lo < text_hi and text[text_lo] == ' ':
                     text_lo += 1
-                if text[text_hi - 1] == ' ':
+                if text_lo < text_hi and text[text_hi - 1] == ' ':
                     text_hi -= 1
             old = tree_chars[tree_lo:tree_hi]
             new = text[text_lo:text_hi]
-- 
2.43.0


From 3146b4822d43204208f5ff970b161528e4d33b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 041/147] fix: ud.ComplyWithText works with multi-word tokens

---
 udapi/block/ud/complywithtext.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/udapi/block/ud/complywithtext.py b/udapi/block/ud/complywithtext.py
index 57eb5a9..a3f60a7 100644
--- a/udapi/block/ud/complywithtext.py
+++ b/udapi/block/ud/complywithtext.py
@@ -101,7 +101,7 @@ class ComplyWithText(Block):
         """Store the previous form of this node into MISC, unless the change is common&expected."""
         if node.form not in ("''", "``") and self.previous_form_label:
             node.misc[self.previous_form_label] = node.form
-            if self.previous_form_label == 'CorrectForm':
+            if self.previous_form_label == 'CorrectForm' and not isinstance(node, MWT):
                 node.feats['Typo'] = 'Yes'
 
     def process_tree(self, root):
@@ -226,7 +226,7 @@ class ComplyWithText(Block):
             elif edit == 'insert':
                 forms = text[text_lo:text_hi].split(' ')
                 if all(regex.fullmatch('\p{P}+', f) for f in forms) and self.allow_add_punct:
-                    next_node = char_nodes[tree_lo]
+                    next_node = _words(char_nodes[tree_lo])[0]
                     for f in reversed(forms):
                         new = next_node.create_child(form=f, deprel='punct', upos='PUNCT')
                         new.shift_before_node(next_node)
@@ -239,7 +239,11 @@ class ComplyWithText(Block):
                 if all(regex.fullmatch('\p{P}+', n.form) for n in nodes):
                     if self.allow_delete_punct:
                         for node in nodes:
-                            node.remove(children='rehang')
+                            words = _words(node)
+                            if isinstance(node, MWT):
+                                node.remove()
+                            for word in words:
+                                word.remove(children='rehang')
                     else:
                         logging.warning('Unable to delete punctuation nodes (try ud.ComplyWithText allow_delete_punct=1)\n%s',
                                         _diff2str(diff, tree_chars, text))
@@ -268,7 +272,7 @@ class ComplyWithText(Block):
                     if self.allow_space(form):
                         self.store_previous_form(node)
                         node.form = form
-                    elif self.allow_goeswith:
+                    elif self.allow_goeswith and not isinstance(node, MWT):
                         self.store_previous_form(node)
                         forms = form.split()
                         node.form = forms[0]
@@ -280,8 +284,9 @@ class ComplyWithText(Block):
                         logging.warning('Unable to solve 1:m diff:\n%s -> %s', nodes_str, form)
                 elif self.allow_add_punct and form.startswith(node.form) and regex.fullmatch('[ \p{P}]+', form[len(node.form):]):
                     for punct_form in reversed(form[len(node.form):].split()):
-                        new = node.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
-                        new.shift_after_node(node)
+                        last_word = _words(node)[-1]
+                        new = last_word.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
+                        new.shift_after_node(last_word)
                         new.misc[self.added_label] = 1
                 else:
                     logging.warning('Unable to solve 1:m diff:\n%s -> %s', nodes_str, form)
@@ -309,14 +314,20 @@ class ComplyWithText(Block):
         else:
             if self.allow_add_punct and form.startswith(node.form) and regex.fullmatch('\p{P}+', form[len(node.form):]):
                 punct_form = form[len(node.form):]
-                new = node.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
-                new.shift_after_node(node)
+                last_word = _words(node)[-1]
+                new = last_word.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
+                new.shift_after_node(last_word)
                 new.misc[self.added_label] = 1
             else:
                 self.store_previous_form(node)
                 node.form = form
 
 
+def _words(token):
+    """Return a list of the words of a given token (i.e. of a node or a multi-word token)."""
+    return list(token.words) if isinstance(token, MWT) else [token]
+
+
 def _nodes_to_chars(nodes):
     chars, char_nodes = [], []
     for node in nodes:
-- 
2.43.0


From 7ab0b0c93f36f91f12451c761c9d8cedc524c2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:05 +0000
Subject: [PATCH 042/147] fix: ud.ComplyWithText leaves words that agree with
 the text alone

---
 udapi/block/ud/complywithtext.py | 49 ++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/udapi/block/ud/complywithtext.py b/udapi/block/ud/complywithtext.py
index a3f60a7..f4293ae 100644
--- a/udapi/block/ud/complywithtext.py
+++ b/udapi/block/ud/complywithtext.py
@@ -119,21 +119,9 @@ class ComplyWithText(Block):
         if text == root.compute_text():
             return
 
-        tree_chars, char_nodes = _nodes_to_chars(root.token_descendants)
-
-        # Align. difflib may not give LCS, but usually it is good enough.
-        matcher = difflib.SequenceMatcher(None, tree_chars, text, autojunk=False)
-        diffs = list(matcher.get_opcodes())
-        _log_diffs(diffs, tree_chars, text, 'matcher')
-
-        diffs = self.unspace_diffs(diffs, tree_chars, text)
-        _log_diffs(diffs, tree_chars, text, 'unspace')
-
-        diffs = self.merge_diffs(diffs, char_nodes)
-        _log_diffs(diffs, tree_chars, text, 'merge')
-
-        # Solve diffs.
-        self.solve_diffs(diffs, tree_chars, char_nodes, text)
+        # If the forms agree with the text, no heuristics are needed, just SpaceAfter=No.
+        if not _forms_match_text(root.token_descendants, text):
+            self.adapt_nodes(root, text)
 
         # Fill SpaceAfter=No.
         tmp_text = text
@@ -157,6 +145,24 @@ class ComplyWithText(Block):
                     root.add_comment(f'{self.previous_text_label} = {root.text}')
                 root.text = computed_text
 
+    def adapt_nodes(self, root, text):
+        """Align the nodes with the text and solve the differences."""
+        tree_chars, char_nodes = _nodes_to_chars(root.token_descendants)
+
+        # Align. difflib may not give LCS, but usually it is good enough.
+        matcher = difflib.SequenceMatcher(None, tree_chars, text, autojunk=False)
+        diffs = list(matcher.get_opcodes())
+        _log_diffs(diffs, tree_chars, text, 'matcher')
+
+        diffs = self.unspace_diffs(diffs, tree_chars, text)
+        _log_diffs(diffs, tree_chars, text, 'unspace')
+
+        diffs = self.merge_diffs(diffs, char_nodes)
+        _log_diffs(diffs, tree_chars, text, 'merge')
+
+        # Solve diffs.
+        self.solve_diffs(diffs, tree_chars, char_nodes, text)
+
     def unspace_diffs(self, orig_diffs, tree_chars, text):
         diffs = []
         for diff in orig_diffs:
@@ -262,6 +268,10 @@ class ComplyWithText(Block):
         nodes_str = ' '.join([n.form for n in nodes])  # just for debugging
         node = nodes[0]
 
+        # Just spaces around the node differ, SpaceAfter=No will be fixed later on.
+        if len(nodes) == 1 and node.form == form:
+            return
+
         # First, solve the cases when the text contains a space.
         if ' ' in form:
             node_form = node.form
@@ -328,6 +338,15 @@ def _words(token):
     return list(token.words) if isinstance(token, MWT) else [token]
 
 
+def _forms_match_text(nodes, text):
+    """Does the text consist of the forms of the nodes in this order (with optional spaces)?"""
+    for node in nodes:
+        if not text.startswith(node.form):
+            return False
+        text = text[len(node.form):].lstrip()
+    return not text
+
+
 def _nodes_to_chars(nodes):
     chars, char_nodes = [], []
     for node in nodes:
-- 
2.43.0


From 0654af2bc2f391a4985e0cb966019e98013f8a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:40 +0000
Subject: [PATCH 043/147] fix: segment.Simple numbers the bundles and keeps the
 ids if several zones are segmented

---
 udapi/block/segment/simple.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/udapi/block/segment/simple.py b/udapi/block/segment/simple.py
index 58be9b6..8803029 100644
--- a/udapi/block/segment/simple.py
+++ b/udapi/block/segment/simple.py
@@ -74,18 +74,21 @@ class Simple(Block):
         old_bundles = doc.bundles
         new_bundles = []
         for bundle in old_bundles:
-            new_bundles.append(bundle)
-            for tree in bundle:
+            orig_bundle_id = bundle.bundle_id
+            part_bundles = [bundle]
+            for tree in list(bundle):
                 if self._should_process_tree(tree):
                     if tree.children:
                         raise ValueError("Segmenting already tokenized text is not supported.")
                     sentences = self.segment_string(tree.text)
-                    orig_bundle_id = bundle.bundle_id
                     bundle.bundle_id = orig_bundle_id + '-1'
                     if len(sentences) > 1:
                         tree.text = sentences[0]
                         for i, sentence in enumerate(sentences[1:], 2):
-                            new_bundle = Bundle(document=doc, bundle_id=orig_bundle_id + '-' + str(i))
-                            new_bundle.create_tree(tree.zone).text = sentence
-                            new_bundles.append(new_bundle)
+                            if i > len(part_bundles):
+                                part_bundles.append(Bundle(document=doc, bundle_id=orig_bundle_id + '-' + str(i)))
+                            part_bundles[i - 1].create_tree(tree.zone).text = sentence
+            new_bundles.extend(part_bundles)
         doc.bundles = new_bundles
+        for number, bundle in enumerate(doc.bundles, 1):
+            bundle.number = number
-- 
2.43.0


From 350ff54b88a3d974ecfb121e2957a20ef1703b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:40 +0000
Subject: [PATCH 044/147] fix: util.SplitSentence numbers the bundles from 1
 and never splits before the first word

---
 udapi/block/util/splitsentence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/util/splitsentence.py b/udapi/block/util/splitsentence.py
index b6ca57d..2e62451 100644
--- a/udapi/block/util/splitsentence.py
+++ b/udapi/block/util/splitsentence.py
@@ -52,7 +52,7 @@ class SplitSentence(Block):
                 logging.fatal('Cannot process bundles that do not have the zone with empty zone id')
             if self.misc_name:
                 root = bundle.get_tree()
-                split_points = [n for n in root.descendants if n.ord > 1 and n.misc[self.misc_name] and self.misc_value == None or n.misc[self.misc_name] == self.misc_value]
+                split_points = [n for n in root.descendants if n.ord > 1 and (n.misc[self.misc_name] and self.misc_value == None or n.misc[self.misc_name] == self.misc_value)]
                 if split_points:
                     # Create as many new bundles as there are split points.
                     n_new = len(split_points)
@@ -85,7 +85,7 @@ class SplitSentence(Block):
                     self.make_zeros_roots(root)
                     root.text = root.compute_text()
                     # Update the bundle numbers of the new bundles and all bundles after them.
-                    updated_no = bundle_no + 1
+                    updated_no = bundle_no + 2
                     for b in document.bundles[(bundle_no+1):]:
                         b.number = updated_no
                         updated_no += 1
@@ -101,7 +101,7 @@ class SplitSentence(Block):
                 new_bundle_no = bundle_no + 1
                 document.bundles.pop()
                 document.bundles.insert(new_bundle_no, new_bundle)
-                updated_no = new_bundle_no
+                updated_no = new_bundle_no + 1
                 for b in document.bundles[new_bundle_no:]:
                     b.number = updated_no
                     updated_no += 1
-- 
2.43.0


From 65f3a9552f43cda981582ff797ba07efee4b25a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:40 +0000
Subject: [PATCH 045/147] fix: util.JoinSentence sent_id=... finds the previous
 sentence

---
 udapi/block/util/joinsentence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/util/joinsentence.py b/udapi/block/util/joinsentence.py
index 578f386..3b084ba 100644
--- a/udapi/block/util/joinsentence.py
+++ b/udapi/block/util/joinsentence.py
@@ -75,3 +75,5 @@ class JoinSentence(Block):
                 bundle.remove()
                 # We have found our sentence. No need to process the rest of the document.
                 break
+            else:
+                previous_tree = bundle.get_tree()
-- 
2.43.0


From b674c38135c755f364c538d12bfed2c0834f0aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:40 +0000
Subject: [PATCH 046/147] fix: util.SplitSentence and util.JoinSentence accept
 sent_id and misc_value consisting of digits

---
 udapi/block/util/joinsentence.py  | 5 +++--
 udapi/block/util/splitsentence.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/udapi/block/util/joinsentence.py b/udapi/block/util/joinsentence.py
index 3b084ba..508304e 100644
--- a/udapi/block/util/joinsentence.py
+++ b/udapi/block/util/joinsentence.py
@@ -33,9 +33,10 @@ class JoinSentence(Block):
         else:
             if not sent_id:
                 logging.fatal('Missing parameter sent_id')
-        self.sent_id = sent_id
+        # Numbers in the scenario are converted to int, but the ids and MISC values are strings.
+        self.sent_id = sent_id if sent_id is None else str(sent_id)
         self.misc_name = misc_name
-        self.misc_value = misc_value
+        self.misc_value = misc_value if misc_value is None else str(misc_value)
 
     def process_document(self, document):
         previous_tree = None
diff --git a/udapi/block/util/splitsentence.py b/udapi/block/util/splitsentence.py
index 2e62451..7eef9bf 100644
--- a/udapi/block/util/splitsentence.py
+++ b/udapi/block/util/splitsentence.py
@@ -34,10 +34,11 @@ class SplitSentence(Block):
                 logging.fatal('Missing parameter sent_id')
             if not word_id:
                 logging.fatal('Missing parameter word_id')
-        self.sent_id = sent_id
+        # Numbers in the scenario are converted to int, but the ids and MISC values are strings.
+        self.sent_id = sent_id if sent_id is None else str(sent_id)
         self.word_id = word_id
         self.misc_name = misc_name
-        self.misc_value = misc_value
+        self.misc_value = misc_value if misc_value is None else str(misc_value)
 
     def process_document(self, document):
         for bundle_no, bundle in enumerate(document.bundles):
-- 
2.43.0


From 800db70e734bd710dfd03b0784dfe255a9f8896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:40 +0000
Subject: [PATCH 047/147] fix: bundles of the documents created by util.Split
 belong to them and are numbered

---
 udapi/block/util/split.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/block/util/split.py b/udapi/block/util/split.py
index 6eb2f65..df9b862 100644
--- a/udapi/block/util/split.py
+++ b/udapi/block/util/split.py
@@ -36,4 +36,7 @@ class Split(BaseReader):
         self.buffer.extend(document.bundles)
         document.bundles = self.buffer[:self.bundles_per_doc]
         self.buffer = self.buffer[self.bundles_per_doc:]
+        for number, bundle in enumerate(document.bundles, 1):
+            bundle.number = number
+            bundle._document = document
         self.finished = not self.buffer
-- 
2.43.0


From 0555e5d9d82b4fb57182529ca0e4d40652445f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:40 +0000
Subject: [PATCH 048/147] fix: segment.Merge numbers the bundles and accepts
 empty documents

---
 udapi/block/segment/merge.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/udapi/block/segment/merge.py b/udapi/block/segment/merge.py
index 9ada45f..c287654 100644
--- a/udapi/block/segment/merge.py
+++ b/udapi/block/segment/merge.py
@@ -31,6 +31,8 @@ class Merge(Block):
 
 
     def process_document(self, doc):
+        if not doc.bundles:
+            return
         old_bundles = doc.bundles
         prev_bundle = old_bundles[0]
         new_bundles = [prev_bundle]
@@ -43,4 +45,6 @@ class Merge(Block):
             else:
                 new_bundles.append(bundle)
                 prev_bundle = bundle
-        doc.bundles = new_bundles
\ No newline at end of file
+        doc.bundles = new_bundles
+        for number, bundle in enumerate(doc.bundles, 1):
+            bundle.number = number
-- 
2.43.0


From ef1fefa203e5519415f134afd9ee315ceb2742f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:36 +0000
Subject: [PATCH 049/147] fix: segment.Simple does not end a sentence after
 e.g.

---
 udapi/block/segment/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/segment/simple.py b/udapi/block/segment/simple.py
index 8803029..b40ec7c 100644
--- a/udapi/block/segment/simple.py
+++ b/udapi/block/segment/simple.py
@@ -22,7 +22,7 @@ class Simple(Block):
     @staticmethod
     def is_nonfinal_abbrev(token):
         """Is a given token an abbreviation (without the final period) which cannot end a sentence?"""
-        if re.search('(např|e.g.)$', token):
+        if re.search(r'(např|e\.g)$', token):
             return True
         return False
 
-- 
2.43.0


From 7c82b1fea69a10661040a924a02eef616c5b93df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:48 +0000
Subject: [PATCH 050/147] fix: read.Conll and read.Conllup do not list words as
 children of the root in addition to their heads

---
 udapi/block/read/conll.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index d0aef1e..6e8cc97 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -128,6 +128,8 @@ class Conll(udapi.block.read.conllu.Conllu):
             root._descendants = []
 
         # Set dependency parents (now, all nodes of the tree are created).
+        # So far, all nodes were attached to the root by root.create_child().
+        root._children = []
         for node_ord, node in enumerate(nodes[1:], 1):
             try:
                 parent = nodes[parents[node_ord]]
-- 
2.43.0


From a630408aefb964cec46a15137ef9e526e26dde7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:48 +0000
Subject: [PATCH 051/147] fix: a negative HEAD in CoNLL-like formats is out of
 range

---
 udapi/block/read/conll.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index 6e8cc97..192d13d 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -131,10 +131,9 @@ class Conll(udapi.block.read.conllu.Conllu):
         # So far, all nodes were attached to the root by root.create_child().
         root._children = []
         for node_ord, node in enumerate(nodes[1:], 1):
-            try:
-                parent = nodes[parents[node_ord]]
-            except IndexError:
+            if not 0 <= parents[node_ord] < len(nodes):
                 raise ValueError("Node %s HEAD is out of range (%d)" % (node, parents[node_ord]))
+            parent = nodes[parents[node_ord]]
             if node is parent:
                 if self.fix_cycles:
                     logging.warning("Ignoring a cycle (attaching to the root instead):\n%s", node)
-- 
2.43.0


From 67192b04c773f3cf6de0af79a5171a91391e49ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:48 +0000
Subject: [PATCH 052/147] fix: form and lemma consisting of an underscore are
 read by read.Conll in the same way as by read.Conllu

---
 udapi/block/read/conll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index 192d13d..012c3ba 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -95,7 +95,7 @@ class Conll(udapi.block.read.conllu.Conllu):
                     raise ValueError(f"Node {node} ord mismatch: {value}, but expecting {node._ord} at:\n{line}")
             elif attribute_name == 'deps':
                 setattr(node, 'raw_deps', value)
-            elif attribute_name != '_' and value != '_':
+            elif attribute_name in ('form', 'lemma') or (attribute_name != '_' and value != '_'):
                 setattr(node, attribute_name, value)
 
         nodes.append(node)
-- 
2.43.0


From b3a4897cdc02f22a0bdf8136a5ff7bbda01efeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:59 +0000
Subject: [PATCH 053/147] fix: read.Conll and read.Conllup with other column
 orders find the columns of multi-word tokens and empty nodes by their names

---
 udapi/block/read/conll.py   | 23 +++++++++++++++--------
 udapi/block/read/conllup.py |  5 +++--
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index 012c3ba..42d892d 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -51,6 +51,12 @@ class Conll(udapi.block.read.conllu.Conllu):
     # Maybe the code could be refactored, but it is speed-critical,
     # so benchmarking is needed because calling extra methods may result in slowdown.
 
+    def _field(self, fields, name):
+        """Return the value of the column with a given name or '_' if there is no such column."""
+        if name not in self.node_attributes:
+            return '_'
+        return fields[self.node_attributes.index(name)]
+
     def parse_node_line(self, line, root, nodes, parents, mwts):
         if self.separator == 'tab':
             fields = line.split('\t')
@@ -65,14 +71,15 @@ class Conll(udapi.block.read.conllu.Conllu):
                 raise RuntimeError('Wrong number of columns in %r' % line)
             fields.extend(['_'] * (len(self.node_attributes) - len(fields)))
         # multi-word tokens will be processed later
-        if '-' in fields[0]:
+        ord_field = self._field(fields, 'ord')
+        if '-' in ord_field:
             mwts.append(fields)
             return
-        if '.' in fields[0]:
-            empty = root.create_empty_child(form=fields[1], lemma=fields[2], upos=fields[3],
-                                            xpos=fields[4], feats=fields[5], misc=fields[9])
-            empty.ord = fields[0]
-            empty.raw_deps = fields[8]  # TODO
+        if '.' in ord_field:
+            attrs = {name: self._field(fields, name) for name in ('form', 'lemma', 'upos', 'xpos', 'feats', 'misc')}
+            empty = root.create_empty_child(**attrs)
+            empty.ord = ord_field
+            empty.raw_deps = self._field(fields, 'deps')  # TODO
             return
 
         # This implementation is slower than in read.Conllu,
@@ -156,8 +163,8 @@ class Conll(udapi.block.read.conllu.Conllu):
 
         # Create multi-word tokens.
         for fields in mwts:
-            range_start, range_end = fields[0].split('-')
+            range_start, range_end = self._field(fields, 'ord').split('-')
             words = nodes[int(range_start):int(range_end) + 1]
-            root.create_multiword_token(words, form=fields[1], misc=fields[-1])
+            root.create_multiword_token(words, form=self._field(fields, 'form'), misc=self._field(fields, 'misc'))
 
         return root
diff --git a/udapi/block/read/conllup.py b/udapi/block/read/conllup.py
index 16d83d0..b3b5671 100644
--- a/udapi/block/read/conllup.py
+++ b/udapi/block/read/conllup.py
@@ -62,10 +62,11 @@ class Conllup(udapi.block.read.conll.Conll):
             fields.extend(['_'] * (len(self.node_attributes) - len(fields)))
 
         # multi-word tokens will be processed later
-        if '-' in fields[0]:
+        ord_field = self._field(fields, 'ord')
+        if '-' in ord_field:
             mwts.append(fields)
             return
-        if '.' in fields[0]:
+        if '.' in ord_field:
             raise NotImplementedError("Empty nodes in CoNLL-UPlus not implement yet in read.Conllup")
 
         # This implementation is slower than in read.Conllu,
-- 
2.43.0


From 19e39a0055c3519148c070fff1f5e27e0a843382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:59 +0000
Subject: [PATCH 054/147] fix: read.AddText does not read behind the end of the
 text

---
 udapi/block/read/addtext.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/read/addtext.py b/udapi/block/read/addtext.py
index 040174b..d001474 100644
--- a/udapi/block/read/addtext.py
+++ b/udapi/block/read/addtext.py
@@ -33,7 +33,7 @@ class AddText(BaseReader):
             return
         text = ''.join(self.filehandle.readlines())
         i, end, was_newpar = 0, len(text), True
-        while i <= end and text[i].isspace():
+        while i < end and text[i].isspace():
             i += 1
 
         for bundle in document.bundles:
@@ -44,10 +44,10 @@ class AddText(BaseReader):
             for node in root.token_descendants:
                 if text[i:i+len(node.form)] == node.form:
                     i += len(node.form)
-                    if i > end or text[i].isspace():
+                    if i >= end or text[i].isspace():
                         del node.misc['SpaceAfter']
                         was_newpar = i+1 < end and text[i+1] == '\n' and text[i] == '\n'
-                        while i <= end and text[i].isspace():
+                        while i < end and text[i].isspace():
                             i += 1
                     else:
                         node.misc['SpaceAfter'] = 'No'
-- 
2.43.0


From 3b996d5eab3e006d0c9c944ad111ec6afc2d5235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:59 +0000
Subject: [PATCH 055/147] fix: read.Sentences newdoc_if_empty_line=1 accepts
 empty files

---
 udapi/block/read/sentences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/sentences.py b/udapi/block/read/sentences.py
index 7487d58..2d25cf5 100644
--- a/udapi/block/read/sentences.py
+++ b/udapi/block/read/sentences.py
@@ -59,5 +59,5 @@ class Sentences(BaseReader):
 
     # The first line in a file also marks a start of new document
     def after_process_document(self, document):
-        if self.newdoc_if_empty_line:
+        if self.newdoc_if_empty_line and document.bundles:
             document.bundles[0].trees[0].newdoc = True
-- 
2.43.0


From 5b79a5b1c758d7d6bf1f4345f259852b9f821738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:39 +0000
Subject: [PATCH 056/147] fix: util.Filter keep_tree_if_node does not disable
 keep_subtree and keep_node

---
 udapi/block/util/filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/util/filter.py b/udapi/block/util/filter.py
index 811973e..1603674 100644
--- a/udapi/block/util/filter.py
+++ b/udapi/block/util/filter.py
@@ -111,10 +111,10 @@ class Filter(Block):
                     if self.mark:
                         node.misc['Mark'] = self.mark
                     else:
-                        return
+                        break
             if not found:
                 tree.remove()
-            return
+                return
 
         if self.keep_subtree is not None:
             kept_subtrees = []
-- 
2.43.0


From 792990be80764ac34e82194d4ad645f2f865c7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:01 +0000
Subject: [PATCH 057/147] fix: util.MarkDiff aligns the words of a replaced
 segment with the words of its replacement only

---
 udapi/block/util/markdiff.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/udapi/block/util/markdiff.py b/udapi/block/util/markdiff.py
index e102ca9..3c8f929 100644
--- a/udapi/block/util/markdiff.py
+++ b/udapi/block/util/markdiff.py
@@ -71,7 +71,8 @@ class MarkDiff(Block):
         for diff in diffs:
             edit, pred_lo, pred_hi, gold_lo, gold_hi = diff
             if edit in {'equal', 'replace'}:
-                for i in range(pred_lo, pred_hi):
+                # If a replaced segment is longer than its replacement, the rest of it is not aligned.
+                for i in range(pred_lo, min(pred_hi, pred_lo + gold_hi - gold_lo)):
                     alignment[i] = i - pred_lo + gold_lo
                     if self.align in ("both", "from-pred"):
                         pred_nodes[i].misc[self.align_attr] = i - pred_lo + gold_lo + 1
@@ -105,10 +106,10 @@ class MarkDiff(Block):
                         pred_lo, gold_lo = pred_lo + n, gold_lo + n
                     for node in gold_nodes[gold_lo:gold_hi]:
                         self.stats['ADD-WORD'] += 1
-                        self.stats['ADD-LEMMA: ' + node.lemma] += 1
+                        self.stats[f'ADD-LEMMA: {node.lemma}'] += 1
                     for node in pred_nodes[pred_lo:pred_hi]:
                         self.stats['DELETE-WORD'] += 1
-                        self.stats['DELETE-LEMMA: ' + node.lemma] += 1
+                        self.stats[f'DELETE-LEMMA: {node.lemma}'] += 1
 
     def process_end(self):
         if self.print_stats:
-- 
2.43.0


From e9c93d06ae1c86ce5c04a1eb540f41a0b1738412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:20 +0000
Subject: [PATCH 058/147] fix: ud.RemoveMwt removes all multi-word tokens of a
 sentence

---
 udapi/block/ud/removemwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/removemwt.py b/udapi/block/ud/removemwt.py
index 99c37b4..80615b5 100644
--- a/udapi/block/ud/removemwt.py
+++ b/udapi/block/ud/removemwt.py
@@ -6,7 +6,7 @@ class RemoveMwt(Block):
     """Substitute MWTs with one word representing the whole MWT."""
 
     def process_tree(self, root):
-        for mwt in root.multiword_tokens:
+        for mwt in list(root.multiword_tokens):
             words = mwt.words
             words[0].form = mwt.form
             words[0].misc = mwt.misc
-- 
2.43.0


From 06ddf81828ec68e59f05ee76ccc5caed9f14f903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:20 +0000
Subject: [PATCH 059/147] fix: ud.FixMwtSpace keeps SpaceAfter=No of the
 removed multi-word token

---
 udapi/block/ud/fixmwtspace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/fixmwtspace.py b/udapi/block/ud/fixmwtspace.py
index a2b7b87..b1355bc 100644
--- a/udapi/block/ud/fixmwtspace.py
+++ b/udapi/block/ud/fixmwtspace.py
@@ -19,4 +19,6 @@ class FixMwtSpace(Block):
                 if node == mwt.words[0]:
                     wordforms = [x.form for x in mwt.words]
                     if ' '.join(wordforms) == mwt.form:
+                        if mwt.misc['SpaceAfter'] == 'No':
+                            mwt.words[-1].misc['SpaceAfter'] = 'No'
                         mwt.remove()
-- 
2.43.0


From c03b56f78c8e4ef12a3c15dacd053a6e43d74e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:20 +0000
Subject: [PATCH 060/147] fix: ud.JoinToken recognizes the first word of a
 sentence and numeric misc_value

---
 udapi/block/ud/jointoken.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/ud/jointoken.py b/udapi/block/ud/jointoken.py
index 43d2b30..6224412 100644
--- a/udapi/block/ud/jointoken.py
+++ b/udapi/block/ud/jointoken.py
@@ -56,10 +56,10 @@ class JoinToken(Block):
         """
         if node.misc[self.misc_name] == '':
             return
-        if self.misc_value and node.misc[self.misc_name] != self.misc_value:
+        if self.misc_value and node.misc[self.misc_name] != str(self.misc_value):
             return
         prevnode = node.prev_node
-        if not prevnode:
+        if prevnode.is_root():
             logging.warning("MISC %s cannot be used at the first token of a sentence." % self.misc_name)
             node.misc['Bug'] = 'JoiningTokenNotSupportedHere'
             return
-- 
2.43.0


From 332d684432ab805290358460d5dfd714cee348c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:20 +0000
Subject: [PATCH 061/147] fix: ud.SplitUnderscoreTokens creates no words
 without a form and accepts unset lemmas

---
 udapi/block/ud/splitunderscoretokens.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/udapi/block/ud/splitunderscoretokens.py b/udapi/block/ud/splitunderscoretokens.py
index 44575e0..2d75b98 100644
--- a/udapi/block/ud/splitunderscoretokens.py
+++ b/udapi/block/ud/splitunderscoretokens.py
@@ -46,7 +46,13 @@ class SplitUnderscoreTokens(Block):
             forms = node.form.split('_')
             if self.lemma == 'form':
                 node.lemma = node.form
-            lemmas = node.lemma.split('_')
+            if node.lemma is None or node.lemma == '_':
+                lemmas = [node.lemma] * len(forms)
+            else:
+                lemmas = node.lemma.split('_')
+            if '' in forms or '' in lemmas:
+                logging.warning("Empty part in %s or %s, skipping.", node.form, node.lemma)
+                return
             if len(forms) != len(lemmas):
                 logging.warning("Different number of underscores in %s and %s, skipping.",
                                 node.form, node.lemma)
-- 
2.43.0


From 9c8605b409a6f6baa1fcedec94b35effac1337ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:20 +0000
Subject: [PATCH 062/147] fix: ud.SplitUnderscoreTokens keeps the new words in
 the multi-word token of the split word

---
 udapi/block/ud/splitunderscoretokens.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/block/ud/splitunderscoretokens.py b/udapi/block/ud/splitunderscoretokens.py
index 2d75b98..351a776 100644
--- a/udapi/block/ud/splitunderscoretokens.py
+++ b/udapi/block/ud/splitunderscoretokens.py
@@ -59,11 +59,15 @@ class SplitUnderscoreTokens(Block):
                 return
 
             last_node = node
+            mwt = node.multiword_token
             deprel = self.deprel_for(node)
             for form, lemma in zip(forms[1:], lemmas[1:]):
                 new_node = node.create_child(form=form, lemma=lemma, upos=node.upos,
                                              xpos=node.xpos, deprel=deprel)
                 new_node.shift_after_node(last_node)
+                if mwt:
+                    mwt.words.insert(mwt.words.index(last_node) + 1, new_node)
+                    new_node._mwt = mwt
                 last_node = new_node
             node.form = forms[0]
             node.lemma = lemmas[0]
-- 
2.43.0


From 9ee69b7ae43763202892dc69a5750cea31d5c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:31 +0000
Subject: [PATCH 063/147] fix: ud.AddMwt does not duplicate the MISC attributes
 copied to a word on the token

---
 udapi/block/ud/addmwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/ud/addmwt.py b/udapi/block/ud/addmwt.py
index 996f4dc..d5942af 100644
--- a/udapi/block/ud/addmwt.py
+++ b/udapi/block/ud/addmwt.py
@@ -56,10 +56,10 @@ class AddMwt(Block):
                         # However, SpaceAfter should be annotated only on the token level,
                         # so make sure it is not accidentally copied on the word level.
                         if attr == 'misc':
-                            orig_attr['misc'].clear()
+                            mwt_misc.clear()
                             for a in 'SpaceAfter SpacesAfter SpacesBefore'.split():
                                 if new_node.misc[a]:
-                                    orig_attr['misc'][a] = new_node.misc[a]
+                                    mwt_misc[a] = new_node.misc[a]
                                     del new_node.misc[a]
 
                     elif attr == 'feats' and '*' in values[i]:
-- 
2.43.0


From 18476efac2f7628ccd0c744bf2e76922826ea43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:20 +0000
Subject: [PATCH 064/147] fix: ud.es.AddMwt, ud.fr.AddMwt and ud.cs.AddMwt
 accept contractions at the end of a sentence or under the root

---
 udapi/block/ud/cs/addmwt.py | 5 +++--
 udapi/block/ud/es/addmwt.py | 3 ++-
 udapi/block/ud/fr/addmwt.py | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/udapi/block/ud/cs/addmwt.py b/udapi/block/ud/cs/addmwt.py
index 7f3a428..2a56851 100644
--- a/udapi/block/ud/cs/addmwt.py
+++ b/udapi/block/ud/cs/addmwt.py
@@ -184,5 +184,6 @@ class AddMwt(udapi.block.ud.addmwt.AddMwt):
         return None
 
     def postprocess_mwt(self, mwt):
-        if mwt.words[0].deprel == 'fixed' and mwt.words[0].parent.parent.upos == 'VERB':
-            mwt.words[1].parent = mwt.words[0].parent.parent
+        grandparent = mwt.words[0].parent.parent
+        if mwt.words[0].deprel == 'fixed' and grandparent and grandparent.upos == 'VERB':
+            mwt.words[1].parent = grandparent
diff --git a/udapi/block/ud/es/addmwt.py b/udapi/block/ud/es/addmwt.py
index 92f8016..8fe05f8 100644
--- a/udapi/block/ud/es/addmwt.py
+++ b/udapi/block/ud/es/addmwt.py
@@ -99,7 +99,8 @@ class AddMwt(udapi.block.ud.addmwt.AddMwt):
     # "del" = "de el", but
     # "de" is attached to "a" (as fixed), while "el" is attached to the NOUN.
     def postprocess_mwt(self, mwt):
-        if mwt.form.lower() in {'al', 'del'} and mwt.words[1].parent.precedes(mwt.words[1]):
+        if (mwt.form.lower() in {'al', 'del'} and mwt.words[1].next_node
+                and mwt.words[1].parent.precedes(mwt.words[1])):
             head = mwt.words[1].next_node
             while head.upos not in {'NOUN', 'PROPN'}:
                 if head.parent.precedes(head) or head.is_root():
diff --git a/udapi/block/ud/fr/addmwt.py b/udapi/block/ud/fr/addmwt.py
index 948a927..370e463 100644
--- a/udapi/block/ud/fr/addmwt.py
+++ b/udapi/block/ud/fr/addmwt.py
@@ -64,7 +64,7 @@ class AddMwt(udapi.block.ud.addmwt.AddMwt):
                 pass
             elif mwt.words[0].precedes(mwt.words[0].parent):
                 mwt.words[1].parent = mwt.words[0].parent
-            else:
+            elif mwt.words[1].next_node:
                 head = mwt.words[1].next_node
                 while head.upos not in {'NOUN', 'PROPN'} and not head.is_root():
                     if head.parent.precedes(head):
-- 
2.43.0


From 32efbee3f5334a19bb122ad960da5d5dbd655139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:26 +0000
Subject: [PATCH 065/147] fix: ud.FixChain flattens also chains of preceding
 dependents

---
 udapi/block/ud/fixchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/fixchain.py b/udapi/block/ud/fixchain.py
index b3a586f..ed5a0de 100644
--- a/udapi/block/ud/fixchain.py
+++ b/udapi/block/ud/fixchain.py
@@ -14,5 +14,5 @@ class FixChain(Block):
 
     def process_node(self, node):
         for deprel in self.deprels:
-            if node.udeprel == deprel and node.parent.udeprel == deprel:
+            while node.udeprel == deprel and node.parent.udeprel == deprel:
                 node.parent = node.parent.parent
-- 
2.43.0


From 5ba53315342b8f1982c09cd8c6d1d6e115218058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:26 +0000
Subject: [PATCH 066/147] fix: ud.FixRightheaded turns also chains of relations

---
 udapi/block/ud/fixrightheaded.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/udapi/block/ud/fixrightheaded.py b/udapi/block/ud/fixrightheaded.py
index 045278d..0e98041 100644
--- a/udapi/block/ud/fixrightheaded.py
+++ b/udapi/block/ud/fixrightheaded.py
@@ -20,14 +20,15 @@ class FixRightheaded(Block):
         self.deprels = deprels.split(',')
 
     def process_node(self, node):
-        for deprel in self.deprels:
-            if node.udeprel == deprel and node.precedes(node.parent):
-                orig_parent = node.parent
-                node.parent = orig_parent.parent
-                if deprel != 'conj':
-                    for child in orig_parent.children:
-                        child.parent = node
-                orig_parent.parent = node
-                head_deprel = orig_parent.deprel
-                orig_parent.deprel = node.deprel
-                node.deprel = head_deprel
+        # The node takes over the deprel of its parent, which may have to be fixed as well.
+        while node.udeprel in self.deprels and node.precedes(node.parent):
+            orig_parent = node.parent
+            deprel = node.udeprel
+            node.parent = orig_parent.parent
+            if deprel != 'conj':
+                for child in orig_parent.children:
+                    child.parent = node
+            orig_parent.parent = node
+            head_deprel = orig_parent.deprel
+            orig_parent.deprel = node.deprel
+            node.deprel = head_deprel
-- 
2.43.0


From f7a5ce5cfb249ed1e1632c1c2e8ed069fd0619b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:33 +0000
Subject: [PATCH 067/147] fix: ud.Basic2Enhanced does not look for basic
 dependencies of empty nodes

---
 udapi/block/ud/basic2enhanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/basic2enhanced.py b/udapi/block/ud/basic2enhanced.py
index bc5c8b2..6267a31 100644
--- a/udapi/block/ud/basic2enhanced.py
+++ b/udapi/block/ud/basic2enhanced.py
@@ -18,6 +18,6 @@ class Basic2Enhanced(Block):
     """Make sure DEPS column is always filled."""
 
     def process_tree(self, tree):
-        for node in tree.descendants_and_empty:
+        for node in tree.descendants:
             if node.raw_deps == "_":
                 node.raw_deps = f"{node.parent.ord}:{node.deprel}"
-- 
2.43.0


From 417bd90148b6deebbad084468bb8d1ad5e08310d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:33 +0000
Subject: [PATCH 068/147] fix: ud.FixRoot accepts empty trees

---
 udapi/block/ud/fixroot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/fixroot.py b/udapi/block/ud/fixroot.py
index be972d8..1b2f8e1 100644
--- a/udapi/block/ud/fixroot.py
+++ b/udapi/block/ud/fixroot.py
@@ -30,7 +30,7 @@ class FixRoot(Block):
             for i in range(len(rchildren)-1):
                 rchildren[i+1].parent = rchildren[0]
                 rchildren[i+1].deprel = 'parataxis'
-        if rchildren[0].udeprel != 'root':
+        if rchildren and rchildren[0].udeprel != 'root':
             rchildren[0].deprel = 'root'
         for n in root.descendants:
             if not n.parent == root and n.udeprel == 'root':
-- 
2.43.0


From b0e642b5b378baae23d0d742d3fd70e3c62ed252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:33 +0000
Subject: [PATCH 069/147] fix: ud.FixCompoundName converts names without
 numbers, not those with numbers

---
 udapi/block/ud/fixcompoundname.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/fixcompoundname.py b/udapi/block/ud/fixcompoundname.py
index 90596e3..4ac6a6c 100644
--- a/udapi/block/ud/fixcompoundname.py
+++ b/udapi/block/ud/fixcompoundname.py
@@ -29,7 +29,7 @@ class FixCompoundName(Block):
             # The Hindi treebank tags dates (['30', 'navaṁbara'], ['disaṁbara', '1993']) as PROPN compounds.
             # This is wrong but it is also different from personal names we are targeting here.
             # Hence, we will skip "names" that contain numbers.
-            if any(re.search(r"\d", x.form) for x in namewords):
+            if not any(re.search(r"\d", x.form) for x in namewords):
                 #logging.info(str([x.misc['Translit'] for x in namewords]))
                 ###!!! We currently cannot transform enhanced dependencies.
                 ###!!! If we proceed, the basic tree would diverge from the enhanced dependencies.
-- 
2.43.0


From 67c44ab6b2a872260f55a0bcda874a4a13978b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:33 +0000
Subject: [PATCH 070/147] fix: ud.FixAdvmodByUpos keeps advmod of adverbs

---
 udapi/block/ud/fixadvmodbyupos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/fixadvmodbyupos.py b/udapi/block/ud/fixadvmodbyupos.py
index d020b55..50da8af 100644
--- a/udapi/block/ud/fixadvmodbyupos.py
+++ b/udapi/block/ud/fixadvmodbyupos.py
@@ -27,7 +27,7 @@ class FixAdvmodByUpos(Block):
                 node.deprel = 'cc'
             elif node.upos == 'INTJ':
                 node.deprel = 'discourse'
-            else:
+            elif node.upos != 'ADV':
                 node.deprel = 'dep'
         ###!!! The following are not advmod so they should probably have their
         ###!!! own block or this block should have a different name.
-- 
2.43.0


From dc0b97fa6a01056ac2e30380ca2997738fafd568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:09 +0000
Subject: [PATCH 071/147] fix: ud.FixCompoundName converts also chains of
 compounds

---
 udapi/block/ud/fixcompoundname.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/block/ud/fixcompoundname.py b/udapi/block/ud/fixcompoundname.py
index 4ac6a6c..97a1f7a 100644
--- a/udapi/block/ud/fixcompoundname.py
+++ b/udapi/block/ud/fixcompoundname.py
@@ -44,3 +44,6 @@ class FixCompoundName(Block):
                 for n in rest:
                     n.parent = head
                     n.deprel = 'flat:name'
+                # The new head took over the relation of its former parent, which may be a compound as well.
+                if head != origparent:
+                    self.process_node(head)
-- 
2.43.0


From 9feb2fa1b3b2b53e7ee8e775cf0046ecda3e0045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:18 +0000
Subject: [PATCH 072/147] fix: span_to_nodes understands ords such as 3.10

---
 udapi/core/coref.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 7ccaa7b..efb5090 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -917,14 +917,20 @@ def store_coref_to_misc(doc):
                 strs = first_word.misc['SplitAnte'] + ',' + strs
             first_word.misc['SplitAnte'] = strs
 
+def _ord_key(node_ord):
+    """Convert an ord (int, float, OrdTuple or str) to a comparable tuple, so that 3.9 < 3.10 < 4."""
+    major, _, minor = str(node_ord).partition('.')
+    return int(major), int(minor or 0)
+
+
 def span_to_nodes(root, span):
     ranges = []
     for span_str in span.split(','):
         try:
             if '-' not in span_str:
-                lo = hi = float(span_str)
+                lo = hi = _ord_key(span_str)
             else:
-                lo, hi = (float(x) for x in span_str.split('-'))
+                lo, hi = (_ord_key(x) for x in span_str.split('-'))
         except ValueError as e:
             raise ValueError(f"Cannot parse '{span}': {e}")
         ranges.append((lo, hi))
@@ -938,7 +944,7 @@ def span_to_nodes(root, span):
                 return True
         return False
 
-    return [w for w in root.descendants_and_empty if _num_in_ranges(w.ord)]
+    return [w for w in root.descendants_and_empty if _num_in_ranges(_ord_key(w.ord))]
 
 
 def nodes_to_span(nodes):
-- 
2.43.0


From 1bc02bfafe5b7aecd9eeaf9d819aba86e76ce8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:18 +0000
Subject: [PATCH 073/147] fix: order of mentions respects changes of the word
 order

---
 udapi/core/coref.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index efb5090..46c2c65 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -162,17 +162,19 @@ class CorefMention(object):
         if not another._words:
             another._words = [another._head]
 
-        if self._words[0] is another._words[0]:
-            if len(self._words) > len(another._words):
+        # Words could have been reordered, so we need the sorted lists (cf. the words property).
+        words, another_words = self.words, another.words
+        if words[0] is another_words[0]:
+            if len(words) > len(another_words):
                 return True
-            if  len(self._words) < len(another._words):
+            if  len(words) < len(another_words):
                 return False
-            if self._words[-1].precedes(another._words[-1]):
+            if words[-1].precedes(another_words[-1]):
                 return True
-            if another._words[-1].precedes(self._words[-1]):
+            if another_words[-1].precedes(words[-1]):
                 return False
             return self._entity.eid < another._entity.eid
-        return self._words[0].precedes(another._words[0])
+        return words[0].precedes(another_words[0])
 
     @property
     def other(self):
-- 
2.43.0


From 3578545d8347bb7aa9801563695463bb05918578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:41 +0000
Subject: [PATCH 074/147] fix: keep the lists of mentions sorted when the words
 of a mention change

---
 udapi/core/coref.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 46c2c65..1ff178d 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -245,11 +245,11 @@ class CorefMention(object):
         self._words = new_words
         for new_word in new_words:
             if new_word not in kept_words:
-                if not new_word._mentions or self > new_word._mentions[-1]:
-                    new_word._mentions.append(self)
-                else:
-                    new_word._mentions.append(self)
-                    new_word._mentions.sort()
+                new_word._mentions.append(self)
+            # Changing the words may change the order of this mention also within the kept words.
+            new_word._mentions.sort()
+        if new_words and self._entity is not None:
+            self._entity._mentions.sort()
 
     @property
     def span(self):
-- 
2.43.0


From de1de8e4ba771bef968f7895482d120fccc31590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:32 +0000
Subject: [PATCH 075/147] fix: a refused create_mention leaves no mention
 behind

---
 udapi/core/coref.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 1ff178d..d77b6a2 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -381,12 +381,14 @@ class CorefEntity(object):
             raise ValueError("Either head or words must be specified")
         if head is None:
             head = words[0]
+        if span:
+            words = span_to_nodes(head.root, span)
+            if head not in words:
+                raise ValueError(f"Head {head} is not within the specified span {span}")
 
         mention = CorefMention(words=[head], head=head, entity=self)
         if words:
             mention.words = words
-        if span:
-            mention.span = span
         self._mentions.sort()
         return mention
 
-- 
2.43.0


From 617d382a2b2b5b20b164bdb42d593e213dd25592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:04 +0000
Subject: [PATCH 076/147] fix: load mentions with both further named fields and
 other attributes

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index d77b6a2..86336c4 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -668,7 +668,7 @@ def load_coref_from_misc(doc, strict=True):
                     elif name == 'other':
                         if other:
                             new_other = OtherDualDict(value)
-                            for k,v in other.values():
+                            for k, v in other.items():
                                 new_other[k] = v
                             other = new_other
                         else:
-- 
2.43.0


From 3e26d03123bc1d19dfd0f33ea53b69ec80059f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:56 +0000
Subject: [PATCH 077/147] fix: keep mention attributes named as fixed fields of
 the header

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 86336c4..066cbd9 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -788,7 +788,7 @@ def store_coref_to_misc(doc):
 
     fields = global_entity.split('-')
     # GRP and entity are legacy names for eid and etype, respectively.
-    other_fields = [f for f in fields if f not in ('eid etype head other GRP entity'.split(), )]
+    other_fields = [f for f in fields if f not in 'eid etype head other GRP entity'.split()]
 
     attrs = "Entity SplitAnte Bridge".split()
     for node in doc.nodes_and_empty:
-- 
2.43.0


From 506981931e08e370fd0bd803fe8287e858cd05e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:56 +0000
Subject: [PATCH 078/147] fix: do not add words to a deleted cross-sentence
 mention

---
 udapi/core/coref.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 066cbd9..9bcab52 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -630,6 +630,7 @@ def load_coref_from_misc(doc, strict=True):
                         entity._mentions.remove(mention)
                         if not entity._mentions:
                             del entities[entity.eid]
+                        continue
                 for w in node.root.descendants_and_empty:
                     if last_word.precedes(w):
                         mention._words.append(w)
-- 
2.43.0


From e467fca30ef1d29c0882ab7cf2c558af5d9113d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:43 +0000
Subject: [PATCH 079/147] fix: mention.bridging returns the same list also when
 it is empty

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 9bcab52..2dd84a9 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -215,7 +215,7 @@ class CorefMention(object):
 
     @property
     def bridging(self):
-        if not self._bridging:
+        if self._bridging is None:
             self._bridging = BridgingLinks(self)
         return self._bridging
 
-- 
2.43.0


From 8742550889674cf0c871560ffaf644428eb3f754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:43 +0000
Subject: [PATCH 080/147] fix: filtering of bridging links by relation

---
 udapi/core/coref.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 2dd84a9..992b934 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -521,7 +521,9 @@ class BridgingLinks(collections.abc.MutableSequence):
         """
         if relations_re is None:
             return self
-        return BridgingLinks(self.src_mention, [l for l in self._data if re.match(relations_re, l.relation)])
+        links = copy.copy(self)
+        links._data = [l for l in self._data if re.match(relations_re, l.relation)]
+        return links
 
     @property
     def targets(self):
-- 
2.43.0


From 5692ddf930d5c859d74185160500bf4082ae4d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:43 +0000
Subject: [PATCH 081/147] fix: allow unpacking of bridging links

---
 udapi/core/coref.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 992b934..47b9b11 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -421,6 +421,10 @@ class BridgingLink:
         self.target = target
         self.relation = '' if relation is None else relation
 
+    def __iter__(self):
+        """Allow `for entity, relation in mention.bridging`."""
+        return iter((self.target, self.relation))
+
     def __lt__(self, another):
         if self.target == another.target:
             return self.relation < another.relation
-- 
2.43.0


From 438c6172ad202bfe6343a1679074b234717addc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:59 +0000
Subject: [PATCH 082/147] fix: drop all bridging links to entities without
 mentions

---
 udapi/core/coref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 47b9b11..2bc84ea 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -535,7 +535,7 @@ class BridgingLinks(collections.abc.MutableSequence):
         return [link.target for link in self._data]
 
     def _delete_targets_without_mentions(self, warn=True):
-        for link in self._data:
+        for link in list(self._data):
             if not link.target.mentions:
                 if warn:
                     logging.warning(f"Entity {link.target.eid} has no mentions, but is referred to in bridging of {self.src_mention.entity.eid}")
@@ -904,6 +904,7 @@ def store_coref_to_misc(doc):
         # Bridge=e1<e5:subset,e2<e6:subset|Entity=(e5(e6
         if mention._bridging:
             mention._bridging._delete_targets_without_mentions()
+        if mention._bridging:
             str_bridge = str(mention._bridging)
             if firstword.misc['Bridge']:
                 str_bridge = firstword.misc['Bridge'] + ',' + str_bridge
-- 
2.43.0


From 1391d876be5d47e9e67bfb8e538473bcb4635586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:59 +0000
Subject: [PATCH 083/147] fix: drop all split antecedents without mentions

---
 udapi/core/coref.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 2bc84ea..623643b 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -912,8 +912,8 @@ def store_coref_to_misc(doc):
 
     # SplitAnte=e5<e61,e10<e61
     for entity in doc.coref_entities:
-        if entity.split_ante:
-            for ante_entity in entity.split_ante:
+        if entity.split_ante and entity.mentions:
+            for ante_entity in list(entity.split_ante):
                 if not ante_entity.mentions:
                     logging.warning(f"Entity {ante_entity.eid} has no mentions, but is referred to in SplitAnte of {entity.eid}")
                     entity.split_ante.remove(ante_entity)
-- 
2.43.0


From df15bc84e4724e41dee778f19529e9d06d237311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:01 +0000
Subject: [PATCH 084/147] fix: process_coref_mention is called on each mention
 also if some are removed or moved

---
 udapi/core/block.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/udapi/core/block.py b/udapi/core/block.py
index d293df6..04d7905 100644
--- a/udapi/core/block.py
+++ b/udapi/core/block.py
@@ -101,7 +101,8 @@ class Block(object):
                 if p_entity:
                     self.process_coref_entity(entity)
                 else:
-                    for mention in entity.mentions:
+                    # Processing may remove or re-order the mentions, so iterate over a copy.
+                    for mention in list(entity.mentions):
                         self.process_coref_mention(mention)
 
         if p_bundle or p_tree or p_node or p_empty_node:
@@ -126,7 +127,7 @@ class Block(object):
     @not_overridden
     def process_coref_entity(self, entity):
         """This method is called on each coreference entity in the document."""
-        for mention in entity.mentions:
+        for mention in list(entity.mentions):
             self.process_coref_mention(mention)
 
     @not_overridden
-- 
2.43.0


From 88fe3842791ca33bfae44e8ea4d0aea523172d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:01 +0000
Subject: [PATCH 085/147] fix: corefud.IndexClusters numbers entities in their
 order

---
 udapi/block/corefud/indexclusters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/indexclusters.py b/udapi/block/corefud/indexclusters.py
index 3f5d74d..1f5c2f1 100644
--- a/udapi/block/corefud/indexclusters.py
+++ b/udapi/block/corefud/indexclusters.py
@@ -23,7 +23,7 @@ class IndexClusters(Block):
         self.prefix = prefix
 
     def process_document(self, doc):
-        entities = doc.coref_entities
+        entities = sorted(doc.coref_entities)
         if not entities:
             return
         new_eid_to_entity = {}
-- 
2.43.0


From 56799643a3c82afb2e70654eef93ae965419e751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:01 +0000
Subject: [PATCH 086/147] fix: corefud.FixParentheses adds mentions also to the
 added words

---
 udapi/block/corefud/fixparentheses.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/fixparentheses.py b/udapi/block/corefud/fixparentheses.py
index bc8e650..a6d404e 100644
--- a/udapi/block/corefud/fixparentheses.py
+++ b/udapi/block/corefud/fixparentheses.py
@@ -18,7 +18,7 @@ class FixParentheses(Block):
                     if mention.words[-1].ord == int(mention.words[-1].ord) and mention.words[-1].next_node and \
                             mention.words[-1].next_node.lemma == pair[1]:
                         next_node = mention.words[-1].next_node
-                        mention.words.append(next_node)
+                        mention.words = mention.words + [next_node]
                         if self.mark:
                             next_node.misc['Mark'] = 1
 
@@ -26,6 +26,6 @@ class FixParentheses(Block):
                 if mention.words[0].ord == int(mention.words[0].ord) and mention.words[0].prev_node \
                         and mention.words[0].prev_node.lemma == pair[0]:
                     prev_node = mention.words[0].prev_node
-                    mention.words.append(prev_node)
+                    mention.words = mention.words + [prev_node]
                     if self.mark:
                         prev_node.misc['Mark'] = 1
-- 
2.43.0


From f2262ac59de6fcc881e1159a08f8a4e7473224f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:20 +0000
Subject: [PATCH 087/147] fix: fix: corefud.RemoveNoCorefEntities removes also
 the mentions

---
 udapi/block/corefud/removenocorefentities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/block/corefud/removenocorefentities.py b/udapi/block/corefud/removenocorefentities.py
index 4551873..6228f0c 100644
--- a/udapi/block/corefud/removenocorefentities.py
+++ b/udapi/block/corefud/removenocorefentities.py
@@ -18,4 +18,8 @@ class RemoveNoCorefEntities(Block):
         entities = doc.coref_entities
         if not entities:
             return
+        for entity in entities:
+            if re.match(r'^NOCOREF', entity.eid):
+                for mention in list(entity.mentions):
+                    mention.remove()
         doc._eid_to_entity = {e._eid: e for e in entities if not re.match(r'^NOCOREF', e.eid)}
-- 
2.43.0


From 7f0e02cd97c70397fb186bc26558b599672f0f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:37 +0000
Subject: [PATCH 088/147] fix: corefud.MoveHead considers also enhanced
 dependencies added by node.deps.append

---
 udapi/block/corefud/movehead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/movehead.py b/udapi/block/corefud/movehead.py
index 00a32e9..0109750 100644
--- a/udapi/block/corefud/movehead.py
+++ b/udapi/block/corefud/movehead.py
@@ -13,7 +13,7 @@ class MoveHead(Block):
         super().__init__(**kwargs)
 
     def _eparents(self, node):
-        if node._raw_deps != '_':
+        if node.raw_deps != '_':
             return [d['parent'] for d in node.deps]
         if node.parent:
             return [node.parent]
-- 
2.43.0


From 18ec5d6db552ee26aef7fa706823f9701c77970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:14 +0000
Subject: [PATCH 089/147] fix: fix: corefud.MoveHead bugs=mark marks the empty
 node

---
 udapi/block/corefud/movehead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/movehead.py b/udapi/block/corefud/movehead.py
index 0109750..021b77e 100644
--- a/udapi/block/corefud/movehead.py
+++ b/udapi/block/corefud/movehead.py
@@ -53,7 +53,7 @@ class MoveHead(Block):
                     if 'warn' in self.bugs:
                         logging.warning(f"could not find non-empty parent of {empty_node} for mention {mention.head}")
                     if 'mark' in self.bugs:
-                        node.misc['Bug'] = 'no-parent-of-empty'
+                        empty_node.misc['Bug'] = 'no-parent-of-empty'
             non_empty.sort()
 
         # Fourth, check if there is a node within the enh_heads governing all the mention nodes
-- 
2.43.0


From 8740c7feea5d9acc2449365e6ce694266e2ba174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:12 +0000
Subject: [PATCH 090/147] fix: fix: corefud.FixInterleaved does not go on with
 a deleted mention

---
 udapi/block/corefud/fixinterleaved.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/fixinterleaved.py b/udapi/block/corefud/fixinterleaved.py
index b4a42a4..a3ba158 100644
--- a/udapi/block/corefud/fixinterleaved.py
+++ b/udapi/block/corefud/fixinterleaved.py
@@ -80,5 +80,5 @@ class FixInterleaved(Block):
                     mA.entity.mentions.remove(mA)
                 except ValueError:
                     pass
-                break
                 deleted.add(mA)
+                break
-- 
2.43.0


From 6c1697ed5802d0369cd875da3322945bfdfbf19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:49 +0000
Subject: [PATCH 091/147] fix: fix: corefud.FixInterleaved gives the same
 result in each run

---
 udapi/block/corefud/fixinterleaved.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/fixinterleaved.py b/udapi/block/corefud/fixinterleaved.py
index a3ba158..8622105 100644
--- a/udapi/block/corefud/fixinterleaved.py
+++ b/udapi/block/corefud/fixinterleaved.py
@@ -16,10 +16,10 @@ class FixInterleaved(Block):
         self.nested_same_subspan = nested_same_subspan
 
     def process_tree(self, tree):
-        mentions, deleted = set(), set()
+        mentions, deleted = {}, set()  # dict keeps the word order of mentions
         for node in tree.descendants_and_empty:
             for m in node.coref_mentions:
-                mentions.add(m)
+                mentions[m] = True
 
         for mA, mB in itertools.combinations(mentions, 2):
             if mA in deleted or mB in deleted:
-- 
2.43.0


From f8cb2384001f6e2d29cd9794962abaf030884f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:15 +0000
Subject: [PATCH 092/147] fix: fix: load_coref_from_misc replaces mentions
 loaded before

---
 udapi/core/coref.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 623643b..5bb1476 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -581,6 +581,7 @@ def load_coref_from_misc(doc, strict=True):
     fields = global_entity.split('-')
 
     for node in doc.nodes_and_empty:
+        node._mentions = []
         misc_entity = node.misc["Entity"]
         if not misc_entity:
             continue
-- 
2.43.0


From b5147932fc81ab3f09dfa2bed05458bea868b6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:38 +0000
Subject: [PATCH 093/147] fix: fix: corefud.Link2Cluster accepts cycles of
 links

---
 udapi/block/corefud/link2cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/corefud/link2cluster.py b/udapi/block/corefud/link2cluster.py
index 0829653..41041f1 100644
--- a/udapi/block/corefud/link2cluster.py
+++ b/udapi/block/corefud/link2cluster.py
@@ -104,7 +104,8 @@ class Link2Cluster(Block):
                     # While the official API supports "stealing" a single mention (m.entity = another_entity),
                     # the implementation below using _mentions and _entity is a bit faster.
                     e_ante, e_this = this_node.coref_entities[0], ante_node.coref_entities[0]
-                    assert e_ante != e_this
+                    if e_ante is e_this:
+                        continue  # the nodes are linked already, e.g. by a cycle of links
                     for mention in e_ante.mentions:
                         mention._entity = e_this
                     e_this._mentions.extend(e_ante.mentions)
-- 
2.43.0


From a50629cc01cd4609c3397a76fc8e5dd4d5a57d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:47 +0000
Subject: [PATCH 094/147] fix: fix: corefud.Link2Cluster leaves no empty
 entities

---
 udapi/block/corefud/link2cluster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/block/corefud/link2cluster.py b/udapi/block/corefud/link2cluster.py
index 41041f1..1198993 100644
--- a/udapi/block/corefud/link2cluster.py
+++ b/udapi/block/corefud/link2cluster.py
@@ -111,6 +111,7 @@ class Link2Cluster(Block):
                     e_this._mentions.extend(e_ante.mentions)
                     e_this._mentions.sort()
                     e_ante._mentions.clear()
+                    del doc.eid_to_entity[e_ante.eid]
                 else:
                     # Only one of the nodes is part of an entity. Let's add the second one to this entity.
                     if ante_node.coref_mentions:
-- 
2.43.0


From e7e9c1ed1e7d4c5a5464424f2b28e65de5408911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:08 +0000
Subject: [PATCH 095/147] fix: fix: corefud.MarkCrossing considers also empty
 nodes

---
 udapi/block/corefud/markcrossing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/block/corefud/markcrossing.py b/udapi/block/corefud/markcrossing.py
index 8064e67..cab7557 100644
--- a/udapi/block/corefud/markcrossing.py
+++ b/udapi/block/corefud/markcrossing.py
@@ -22,6 +22,10 @@ class MarkCrossing(Block):
         else:
             return mention.span
 
+    def process_tree(self, tree):
+        for node in tree.descendants_and_empty:
+            self.process_node(node)
+
     def process_node(self, node):
         if len(node.coref_mentions) > 1:
             for mA, mB in itertools.combinations(node.coref_mentions, 2):
-- 
2.43.0


From 4672287e6aba28690a2d894d4c909c31613469ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:28 +0000
Subject: [PATCH 096/147] fix: fix: util.See works also without any nodes or
 trees

---
 udapi/block/util/see.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/util/see.py b/udapi/block/util/see.py
index 9a895b8..8fa990f 100644
--- a/udapi/block/util/see.py
+++ b/udapi/block/util/see.py
@@ -105,10 +105,10 @@ class See(Block):
         print("matches %d out of %d nodes (%.1f%%) in %d out of %d trees (%.1f%%)"
               % (self.overall['matching_nodes'],
                  self.overall['nodes'],
-                 self.overall['matching_nodes'] * 100 / self.overall['nodes'],
+                 self.overall['matching_nodes'] * 100 / (self.overall['nodes'] or 1),
                  self.overall['matching_trees'],
                  self.overall['trees'],
-                 self.overall['matching_trees'] * 100 / self.overall['trees']))
+                 self.overall['matching_trees'] * 100 / (self.overall['trees'] or 1)))
         for stat in self.stats:
             vals = len(self.match[stat].keys()) - 1
             print("=== %s (%d value%s) ===" % (stat, vals, 's' if vals > 1 else ''))
-- 
2.43.0


From 611fcd2061723478888e92af1a25c780a49b099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:46 +0000
Subject: [PATCH 097/147] fix: fix: util.Wc works also if the first bundle has
 no trees

---
 udapi/block/util/wc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/util/wc.py b/udapi/block/util/wc.py
index 9920d0b..2303873 100644
--- a/udapi/block/util/wc.py
+++ b/udapi/block/util/wc.py
@@ -23,7 +23,7 @@ class Wc(Block):
         self.mwts += mwtoks
         self.tokens += len(tree.token_descendants) if mwtoks else len(tree.descendants)
         self.empty += len(tree.empty_nodes)
-        if tree.newdoc or tree == tree.document[0].trees[0]:
+        if tree.newdoc or tree is next(tree.document.trees):
             self.docs += 1
         if tree.newpar:
             self.paragraphs += 1
-- 
2.43.0


From d489045073614c52c19d855e93ca7f84fa271a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:16 +0000
Subject: [PATCH 098/147] fix: fix: util.See prints 0 values for statistics
 without values

---
 udapi/block/util/see.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/util/see.py b/udapi/block/util/see.py
index 8fa990f..4a87639 100644
--- a/udapi/block/util/see.py
+++ b/udapi/block/util/see.py
@@ -110,7 +110,7 @@ class See(Block):
                  self.overall['trees'],
                  self.overall['matching_trees'] * 100 / (self.overall['trees'] or 1)))
         for stat in self.stats:
-            vals = len(self.match[stat].keys()) - 1
+            vals = len(self.match[stat].keys() - {'T O T A L'})
             print("=== %s (%d value%s) ===" % (stat, vals, 's' if vals > 1 else ''))
             match_total = self.match[stat]['T O T A L'] or 1
             every_total = self.every[stat]['T O T A L'] or 1
-- 
2.43.0


From 7ede954999a67fa298ede8f6a13e3d81b3764dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:28 +0000
Subject: [PATCH 099/147] fix: escape special characters in write.SentencesHtml

---
 udapi/block/write/sentenceshtml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/sentenceshtml.py b/udapi/block/write/sentenceshtml.py
index e0f8724..fdc6870 100644
--- a/udapi/block/write/sentenceshtml.py
+++ b/udapi/block/write/sentenceshtml.py
@@ -1,4 +1,6 @@
 """SentencesHtml class is a writer for sentences in HTML list (could be Google-translated, remembering sentence correspondence)."""
+from html import escape
+
 from udapi.core.basewriter import BaseWriter
 
 
@@ -26,7 +28,7 @@ class SentencesHtml(BaseWriter):
     def before_process_document(self, document):
         super().before_process_document(document)
         print('<!DOCTYPE html>\n<html>\n<head>\n<meta charset="utf-8">')
-        print('<title>' + self.title + '</title>')
+        print('<title>' + escape(self.title) + '</title>')
         print('</head>\n<body>\n<ul>\n')
 
     def after_process_document(self, document):
@@ -34,4 +36,5 @@ class SentencesHtml(BaseWriter):
         super().after_process_document(document)
 
     def process_tree(self, tree):
-        print('  <li id="%s">%s</li>' % (tree.sent_id, tree.get_sentence(self.if_missing)))
+        text = tree.get_sentence(self.if_missing)
+        print('  <li id="%s">%s</li>' % (escape(str(tree.sent_id)), escape(text)))
-- 
2.43.0


From a04c84a6dd5a55a580f39ee6515cd9e324063547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:51 +0000
Subject: [PATCH 100/147] fix: escape sentence ids and script end tags in
 write.Html

---
 udapi/block/write/html.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/udapi/block/write/html.py b/udapi/block/write/html.py
index ae85d43..55f1d9f 100644
--- a/udapi/block/write/html.py
+++ b/udapi/block/write/html.py
@@ -114,7 +114,7 @@ class Html(BaseWriter):
                 print('"trees":{"a":{"language":"%s","nodes":[' % zone)
                 print('{"id":%s,"parent":null,' % _id(tree), end='')
                 print('"firstson":' + _id(tree.children[0] if tree.children else None), end=',')
-                print('"labels":["zone=%s","id=%s"]}' % (zone, tree.address()))
+                print('"labels":["zone=%s","id=%s"]}' % (zone, _esc(tree.address())))
                 desc += ',["[%s]","label"],[" ","space"]' % zone
                 for node in tree.descendants:
                     desc += self.print_node_json(node)
@@ -133,7 +133,7 @@ class Html(BaseWriter):
         names = ['ord', 'misc', 'form', 'lemma', 'upos', 'xpos', 'feats', 'deprel']
         values = node.get_attrs(names, undefs='')
         order, misc, form, lemma, upos, xpos, feats, deprel = [_esc(x) for x in values]
-        address = node.address()
+        address = _esc(node.address())
         id_node, id_parent = _id(node), _id(node.parent)
         firstson = node.children[0] if node.children else None
         rbrother = next((n for n in node.parent.children if node.precedes(n)), None)
@@ -157,10 +157,11 @@ class Html(BaseWriter):
 def _id(node):
     if node is None:
         return 'null'
-    return '"n%s"' % node.address().replace('#', '-').replace('/', '-')
+    return '"n%s"' % _esc(node.address().replace('#', '-').replace('/', '-'))
 
 
 def _esc(string):
     if string is None:
         string = ''
-    return string.replace('\\', '\\\\').replace('"', r'\"')
+    # The json is printed within a script element, so it must not contain its end tag.
+    return string.replace('\\', '\\\\').replace('"', r'\"').replace('</', r'<\/')
-- 
2.43.0


From 8541373b25bce70948f68904cb03bd7b497936f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:12 +0000
Subject: [PATCH 101/147] fix: write.Tikz escapes all special characters,
 closes deptrans, and copes with unset attributes and empty trees

---
 udapi/block/write/tikz.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/udapi/block/write/tikz.py b/udapi/block/write/tikz.py
index 4007173..e6670fe 100644
--- a/udapi/block/write/tikz.py
+++ b/udapi/block/write/tikz.py
@@ -1,9 +1,21 @@
 """Tikz class is a writer for LaTeX with tikz-dependency."""
 import logging
+import re
 
 from udapi.core.basewriter import BaseWriter
 
 
+TEX_ESCAPE = {
+    '\\': r'\textbackslash{}',
+    '~': r'\textasciitilde{}',
+    '^': r'\textasciicircum{}',
+    '&': r'\symbol{38}',  # \& separates the columns of deptext
+    '[': '$[$',
+    ']': '$]$',
+}
+TEX_ESCAPE.update((char, '\\' + char) for char in '#$%_{}')
+
+
 class Tikz(BaseWriter):
     r"""A writer of files in the LaTeX with tikz-dependency format.
 
@@ -97,7 +109,7 @@ class Tikz(BaseWriter):
         super().after_process_document(doc)
 
     def _tex_escape(self, string):
-        return string.replace('_', r'\_').replace('$', '\$').replace('[', '$[$').replace(']', '$]$')
+        return ''.join(TEX_ESCAPE.get(char, char) for char in string)
 
     def process_tree(self, tree):
         print(r'\begin{dependency}')
@@ -117,7 +129,7 @@ class Tikz(BaseWriter):
 
         lines = ['' for _ in self.node_attributes]
         for node in nodes:
-            values = [self._tex_escape(v) for v in node.get_attrs(self.node_attributes)]
+            values = [self._tex_escape(v) for v in node.get_attrs(self.node_attributes, undefs='_')]
             max_len = max(len(value) for value in values)
             for index, value in enumerate(values):
                 if node.ord > 1:
@@ -128,7 +140,7 @@ class Tikz(BaseWriter):
         print(r'\end{deptext}')
         if self.as_tree:
             depths = [n._get_attr('depth') for n in nodes]
-            max_depth = max(depths)
+            max_depth = max(depths, default=0)
             for node in nodes:
                 print(r'\node (w%d) [yshift=\depskip+%s\deplevel,depnode] at (\wordref{1}{%d}) {};'
                       % (node.ord, max_depth - depths[node.ord - 1], node.ord))
@@ -138,25 +150,24 @@ class Tikz(BaseWriter):
                     print('')
                 else:
                     print(r' \draw[depedge] (w%d)--node[deplabel] {%s} (w%d);'
-                          % (node.ord, node.deprel, node.parent.ord))
+                          % (node.ord, self._tex_escape(node.deprel or '_'), node.parent.ord))
         else:
             for node in nodes:
                 if node.parent.is_root():
                     print(r'\deproot{%d}{root}' % node.ord)
                 else:
-                    print(r'\depedge{%d}{%d}{%s}' % (node.parent.ord, node.ord, node.deprel))
+                    print(r'\depedge{%d}{%d}{%s}' % (node.parent.ord, node.ord, self._tex_escape(node.deprel or '_')))
                 if self.enhanced:
                     for dep in node.deps:
                         if dep['parent'].is_root():
                             print(r'\deproot[edge below]{%d}{root}' % node.ord)
                         else:
-                            print(r'\depedge[edge below]{%d}{%d}{%s}' % (dep['parent'].ord, node.ord, dep['deprel']))
+                            print(r'\depedge[edge below]{%d}{%d}{%s}'
+                                  % (dep['parent'].ord, node.ord, self._tex_escape(dep['deprel'])))
         if self.comment_attribute and tree.comment:
-            start_pos = tree.comment.find(self.comment_attribute + ' = ')
-            if start_pos != -1:
-                start_pos += len(self.comment_attribute) + 3
-                end_pos = tree.comment.find('\n', start_pos)
-                print(r'\deptrans{' + tree.comment[start_pos:end_pos])
+            match = re.search(r'^ *%s = (.*)$' % re.escape(self.comment_attribute), tree.comment, re.M)
+            if match:
+                print(r'\deptrans{' + self._tex_escape(match.group(1)) + '}')
 
         print(r'\end{dependency}')
         print('')  # empty line marks a new paragraph in LaTeX, but multi=dependency causes newpage
-- 
2.43.0


From 5a0e70a6655a00c0971a553e78b97d680df9343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:12 +0000
Subject: [PATCH 102/147] fix: write.Tikz enhanced=1 drew an edge from an empty
 node as an edge from the preceding word

---
 udapi/block/write/tikz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/write/tikz.py b/udapi/block/write/tikz.py
index e6670fe..43a4cb5 100644
--- a/udapi/block/write/tikz.py
+++ b/udapi/block/write/tikz.py
@@ -159,6 +159,8 @@ class Tikz(BaseWriter):
                     print(r'\depedge{%d}{%d}{%s}' % (node.parent.ord, node.ord, self._tex_escape(node.deprel or '_')))
                 if self.enhanced:
                     for dep in node.deps:
+                        if dep['parent'].is_empty():
+                            continue  # empty nodes are not in the picture
                         if dep['parent'].is_root():
                             print(r'\deproot[edge below]{%d}{root}' % node.ord)
                         else:
-- 
2.43.0


From 7d863ad2c1323c936391de993297d3e70d00cf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:12 +0000
Subject: [PATCH 103/147] fix: write.Sdparse crashed on nodes without form or
 upos

---
 udapi/block/write/sdparse.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/udapi/block/write/sdparse.py b/udapi/block/write/sdparse.py
index 1348773..7ed3976 100644
--- a/udapi/block/write/sdparse.py
+++ b/udapi/block/write/sdparse.py
@@ -66,12 +66,12 @@ class Sdparse(BaseWriter):
         forms = collections.Counter()
         if not self.always_ord:
             for node in nodes:
-                forms[node.form] += 1
+                forms[self._attr(node, 'form')] += 1
         for node in nodes:
             if not node.parent.is_root():
                 gov = self._form(node.parent, forms)
                 dep = self._form(node, forms)
-                print('%s(%s, %s)' % (node.deprel, gov, dep))
+                print('%s(%s, %s)' % (self._attr(node, 'deprel'), gov, dep))
 
         print('~~~')
         print('')
@@ -80,15 +80,21 @@ class Sdparse(BaseWriter):
     def _escape(string):
         return string.replace('\\', '\\\\').replace('/', '\\/')
 
+    @staticmethod
+    def _attr(node, name):
+        value = getattr(node, name)
+        return '_' if value is None else value
+
     def _form(self, node, forms):
-        if self.always_ord or forms[node.form] > 1:
-            return self._escape('%s-%d' % (node.form, node.ord))
-        return self._escape(node.form)
+        form = self._attr(node, 'form')
+        if self.always_ord or forms[form] > 1:
+            return self._escape('%s-%d' % (form, node.ord))
+        return self._escape(form)
 
     def _node(self, node):
-        string = self._escape(node.form)
+        string = self._escape(self._attr(node, 'form'))
         if self.print_upos:
-            string += '/' + node.upos
+            string += '/' + self._attr(node, 'upos')
         if self.print_feats:
             feats = str(node.feats)
             if feats != '_':
-- 
2.43.0


From a554f2665005ddf5c26a776d24581e64fada4973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:29 +0000
Subject: [PATCH 104/147] fix: write.Treex escapes special characters, and the
 ids of trees are unique

---
 udapi/block/write/treex.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/udapi/block/write/treex.py b/udapi/block/write/treex.py
index 7faea41..8ec0c49 100644
--- a/udapi/block/write/treex.py
+++ b/udapi/block/write/treex.py
@@ -1,4 +1,6 @@
 """write.Treex is a writer block for Treex XML (e.g. for TrEd editing)."""
+from html import escape
+
 from udapi.core.basewriter import BaseWriter
 
 
@@ -20,18 +22,18 @@ class Treex(BaseWriter):
         super().after_process_document(doc)
 
     def process_bundle(self, bundle):
-        print('    <LM id="%s">\n      <zones>' % bundle.bundle_id)
+        print('    <LM id="%s">\n      <zones>' % escape(bundle.bundle_id))
         super().process_bundle(bundle)
         print('      </zones>\n    </LM>')
 
     def process_tree(self, tree):
         zone_parts = tree.zone.split('_')
         language, selector = zone_parts if len(zone_parts) == 2 else ('und', tree.zone)
-        tree_id = tree.bundle.bundle_id + '-' + language
+        tree_id = escape(tree.bundle.bundle_id + '-' + tree.zone)
         ind = ' ' * 8
         print(ind + "<zone language='%s' selector='%s'>" % (language, selector))
         if tree.text:
-            print(ind + "  <sentence>%s</sentence>" % tree.text)
+            print(ind + "  <sentence>%s</sentence>" % escape(tree.text))
         print(ind + "  <trees>\n" + ind + "    <a_tree id='%s'>" % tree_id)
         self.print_subtree(tree, tree_id, ' ' * 12)
         print(ind + "    </a_tree>\n" + ind + "  </trees>\n" + ind + "</zone>")
@@ -44,15 +46,15 @@ class Treex(BaseWriter):
         print(ind + "<ord>%s</ord>" % node.ord)
         if not node.is_root():
             if node.form:
-                print(ind + "<form>%s</form>" % node.form)
+                print(ind + "<form>%s</form>" % escape(node.form))
             if node.lemma:
-                print(ind + "<lemma>%s</lemma>" % node.lemma)
+                print(ind + "<lemma>%s</lemma>" % escape(node.lemma))
             if node.upos:
-                print(ind + "<tag>%s</tag>" % node.upos)
+                print(ind + "<tag>%s</tag>" % escape(node.upos))
             if node.deprel:
-                print(ind + "<deprel>%s</deprel>" % node.deprel)
+                print(ind + "<deprel>%s</deprel>" % escape(node.deprel))
             print(ind + "<conll><pos>%s</pos><feat>%s</feat></conll>"
-                  % (node.xpos, str(node.feats)))
+                  % (escape(node.xpos or '_'), escape(str(node.feats))))
 
         # TODO misc and deps into wild, but probably need to encode ř as \x{159} etc.
         if node.children:
-- 
2.43.0


From aacfc9518e03be55625f7a93661d9f1394573c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:48 +0000
Subject: [PATCH 105/147] fix: write.TextModeTreesHtml with zones=... printed
 trees of other zones

---
 udapi/block/write/textmodetreeshtml.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/udapi/block/write/textmodetreeshtml.py b/udapi/block/write/textmodetreeshtml.py
index 0ad39da..bb1ac5e 100644
--- a/udapi/block/write/textmodetreeshtml.py
+++ b/udapi/block/write/textmodetreeshtml.py
@@ -91,18 +91,20 @@ class TextModeTreesHtml(TextModeTrees):
     def process_bundle(self, bundle):
         if self.zones_in_rows:
             # Don't print <table><tr></tr></table> if no tree will be printed in this bundle.
-            marked_trees = []
+            trees, marked_trees = [], []
             for tree in bundle:
-                if self._should_process_tree(tree):
-                    if self.print_empty:
-                        allnodes = [tree] + tree.descendants_and_empty
-                    else:
-                        allnodes = tree.descendants(add_self=1)
+                if not self._should_process_tree(tree):
+                    continue
+                trees.append(tree)
+                if self.print_empty:
+                    allnodes = [tree] + tree.descendants_and_empty
+                else:
+                    allnodes = tree.descendants(add_self=1)
                 if self.should_print_tree(tree, allnodes):
                     marked_trees.append(tree)
             if marked_trees:
                 if self.whole_bundle:
-                    marked_trees = bundle
+                    marked_trees = trees
                 print("<table><tr>")
                 for tree in marked_trees:
                     print("<td>")
-- 
2.43.0


From f04ef6ea6bceac1693d8aecfe309f15de349e74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:31 +0000
Subject: [PATCH 106/147] fix: escape attribute values also in
 write.TextModeTreesHtml color=0, and the title and metadata

---
 udapi/block/write/textmodetrees.py     |  6 ++++++
 udapi/block/write/textmodetreeshtml.py | 11 ++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index c3d1528..41f23c5 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -366,6 +366,7 @@ class TextModeTrees(BaseWriter):
         if not node.is_root():
             values = node.get_attrs(self.attrs, undefs=self.print_undef_as)
             self.lengths[idx] += 1 + len(' '.join(values))
+            values = [self.escape(value) for value in values]
             marked = self.is_marked(node)
             if self.color:
                 for i, attr in enumerate(self.attrs):
@@ -376,6 +377,11 @@ class TextModeTrees(BaseWriter):
             else:
                 self.lines[idx] += ' ' + ' '.join(values)
 
+    @staticmethod
+    def escape(string):
+        """Escape a value for the format that is printed."""
+        return string
+
     def is_marked(self, node):
         """Should a given node be highlighted?"""
         return self.mark_re.search(str(node.misc)) if self.mark_re is not None else False
diff --git a/udapi/block/write/textmodetreeshtml.py b/udapi/block/write/textmodetreeshtml.py
index bb1ac5e..b4d3800 100644
--- a/udapi/block/write/textmodetreeshtml.py
+++ b/udapi/block/write/textmodetreeshtml.py
@@ -50,12 +50,13 @@ class TextModeTreesHtml(TextModeTrees):
         # pylint: disable=bad-super-call
         super(TextModeTrees, self).before_process_document(document)
         print('<!DOCTYPE html>\n<html>\n<head>\n<meta charset="utf-8">')
-        print('<title>' + self.title + '</title>')
+        print('<title>' + escape(self.title) + '</title>')
         print('<style>' + STYLE)
         print('</style>\n</head>\n<body>\n<pre>')
         if self.print_doc_meta:
             for key, value in sorted(document.meta.items()):
-                print('%s = %s' % (key, value))
+                if key[0] != '_':
+                    print(escape('%s = %s' % (key, value)))
 
     def after_process_document(self, document):
         print("</pre>\n</body>\n</html>")
@@ -77,7 +78,11 @@ class TextModeTreesHtml(TextModeTrees):
     @staticmethod
     def colorize_attr(attr, value, marked):
         """Return a string with color markup for a given attr and its value."""
-        return "<span class='%s'>%s</span>" % (attr, escape(value))
+        return "<span class='%s'>%s</span>" % (attr, value)
+
+    @staticmethod
+    def escape(string):
+        return escape(string)
 
     def print_headers(self, root):
         if self.print_sent_id:
-- 
2.43.0


From 9edab2c763ad8ac1e68184c3a92fbf4ada657b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:31 +0000
Subject: [PATCH 107/147] fix: write.Vislcg crashed on words without lemma,
 xpos, form or deprel

---
 udapi/block/write/vislcg.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/udapi/block/write/vislcg.py b/udapi/block/write/vislcg.py
index acdf1e8..986b320 100644
--- a/udapi/block/write/vislcg.py
+++ b/udapi/block/write/vislcg.py
@@ -63,7 +63,7 @@ class Vislcg(BaseWriter):
     def process_tree(self, tree):
         # Print the line with forms and optional upos tags and feats.
         for token in tree.token_descendants:
-            print('"<%s>"' % self._escape(token.form))
+            print('"<%s>"' % self._escape('_' if token.form is None else token.form))
             words = token.words
             print('\t' + self._node(words[0]))
             for nonfirst_mwt_word in words[1:]:
@@ -75,11 +75,12 @@ class Vislcg(BaseWriter):
         return ''.join(ESCAPE_TABLE.get(c, c) for c in string)
 
     def _node(self, node):
-        attrs = ['"%s"' % self._escape(node.lemma)]
-        attrs.append(self._escape(node.xpos))
+        lemma, xpos, deprel = node.get_attrs(['lemma', 'xpos', 'deprel'], undefs='_')
+        attrs = ['"%s"' % self._escape(lemma)]
+        attrs.append(self._escape(xpos))
         feats = str(node.feats).replace('|', ' ')
         if feats != '_':
             attrs.append(self._escape(feats))
-        attrs.append('@' + node.deprel)
+        attrs.append('@' + deprel)
         attrs.append('#%d->%d' % (node.ord, node.parent.ord))
         return ' '.join(attrs)
-- 
2.43.0


From 63fc92411548ca40c766cf80b4500d658ffe6d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:31 +0000
Subject: [PATCH 108/147] fix: read.Vislcg did not unescape what write.Vislcg
 escapes

---
 udapi/block/read/vislcg.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/udapi/block/read/vislcg.py b/udapi/block/read/vislcg.py
index 4c5a87a..9bfed6a 100644
--- a/udapi/block/read/vislcg.py
+++ b/udapi/block/read/vislcg.py
@@ -1,7 +1,13 @@
 """Vislcg is a reader block the VISL-cg format."""
+import re
+
+from udapi.block.write.vislcg import ESCAPE_TABLE
 from udapi.core.basereader import BaseReader
 from udapi.core.root import Root
 
+UNESCAPE_TABLE = {escaped: char for char, escaped in ESCAPE_TABLE.items()}
+RE_ESCAPED = re.compile('|'.join(re.escape(escaped) for escaped in UNESCAPE_TABLE))
+
 
 class Vislcg(BaseReader):
     """A reader of the VISL-cg format, suitable for VISL Constraint Grammer Parser."""
@@ -42,7 +48,7 @@ class Vislcg(BaseReader):
                             word.form = '_'
                     root.create_multiword_token(words, form=form)
                 words = []
-            form = line[2:-2]
+            form = self._unescape(line[2:-2])
 
         if words:
             words[0].form = form
@@ -60,6 +66,10 @@ class Vislcg(BaseReader):
 
         return root
 
+    @staticmethod
+    def _unescape(string):
+        return RE_ESCAPED.sub(lambda match: UNESCAPE_TABLE[match.group(0)], string)
+
     @staticmethod
     def _node(line, root):
         # line contains "lemma" xpos feat1 feat2 .. featN @deprel #ord->parent.ord
@@ -67,11 +77,11 @@ class Vislcg(BaseReader):
         # so we cannot use fields = shlex.split(line)
         # Let's hope that xpos, feats and deprel do not contain any quotes.
         end_quote_pos = line.rfind('"')
-        lemma = line[1:end_quote_pos]
+        lemma = Vislcg._unescape(line[1:end_quote_pos])
         fields = line[end_quote_pos + 1:].split()
-        xpos = fields[0]
+        xpos = Vislcg._unescape(fields[0])
         feats_list = fields[3:-2]
-        feats = '|'.join(feats_list) if feats_list else '_'
+        feats = '|'.join(Vislcg._unescape(feat) for feat in feats_list) if feats_list else '_'
         deprel = fields[-2][1:]
         parent_ord = int(fields[-1].split('->')[1])
         node = root.create_child(lemma=lemma, xpos=xpos, feats=feats, deprel=deprel)
-- 
2.43.0


From 38a9b1f6c5fa5c8c79b622982cabecc146cd8043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:31 +0000
Subject: [PATCH 109/147] fix: read.Vislcg lost the first two features of each
 word

---
 udapi/block/read/vislcg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/vislcg.py b/udapi/block/read/vislcg.py
index 9bfed6a..c821ca2 100644
--- a/udapi/block/read/vislcg.py
+++ b/udapi/block/read/vislcg.py
@@ -80,7 +80,7 @@ class Vislcg(BaseReader):
         lemma = Vislcg._unescape(line[1:end_quote_pos])
         fields = line[end_quote_pos + 1:].split()
         xpos = Vislcg._unescape(fields[0])
-        feats_list = fields[3:-2]
+        feats_list = fields[1:-2]
         feats = '|'.join(Vislcg._unescape(feat) for feat in feats_list) if feats_list else '_'
         deprel = fields[-2][1:]
         parent_ord = int(fields[-1].split('->')[1])
-- 
2.43.0


From 4b3af092fa6f226d22695e8d3075332e4daa13e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:31 +0000
Subject: [PATCH 110/147] fix: read.Vislcg lost a multi-word token at the end
 of a sentence

---
 udapi/block/read/vislcg.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/udapi/block/read/vislcg.py b/udapi/block/read/vislcg.py
index c821ca2..e0a51ba 100644
--- a/udapi/block/read/vislcg.py
+++ b/udapi/block/read/vislcg.py
@@ -36,25 +36,11 @@ class Vislcg(BaseReader):
                 parents.append(parent_ord)
                 continue
 
-            if words:
-                words[0].form = form
-                if len(words) > 1:
-                    split_forms = form.split()
-                    if len(words) == len(split_forms):
-                        for word, split_form in zip(words, split_forms):
-                            word.form = split_form
-                    else:
-                        for word in words[1:]:
-                            word.form = '_'
-                    root.create_multiword_token(words, form=form)
-                words = []
+            self._finish_token(root, words, form)
+            words = []
             form = self._unescape(line[2:-2])
 
-        if words:
-            words[0].form = form
-            for word in words[1:]:
-                word.form = '_'
-
+        self._finish_token(root, words, form)
         nodes = root.descendants(add_self=True)
         if len(nodes) == 1:
             return None
@@ -66,6 +52,21 @@ class Vislcg(BaseReader):
 
         return root
 
+    @staticmethod
+    def _finish_token(root, words, form):
+        if not words:
+            return
+        words[0].form = form
+        if len(words) > 1:
+            split_forms = form.split()
+            if len(words) == len(split_forms):
+                for word, split_form in zip(words, split_forms):
+                    word.form = split_form
+            else:
+                for word in words[1:]:
+                    word.form = '_'
+            root.create_multiword_token(words, form=form)
+
     @staticmethod
     def _unescape(string):
         return RE_ESCAPED.sub(lambda match: UNESCAPE_TABLE[match.group(0)], string)
-- 
2.43.0


From 8fa5676e64be1044c1c23e32c3304f0148d71b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:31 +0000
Subject: [PATCH 111/147] fix: read.Vislcg ended at a second empty line

---
 udapi/block/read/vislcg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/read/vislcg.py b/udapi/block/read/vislcg.py
index e0a51ba..4510121 100644
--- a/udapi/block/read/vislcg.py
+++ b/udapi/block/read/vislcg.py
@@ -25,6 +25,8 @@ class Vislcg(BaseReader):
         for line in self.filehandle:
             line = line.rstrip()
             if line == '':
+                if form is None:
+                    continue
                 break
             if line[0] == '#':
                 root.comment += line[1:] + "\n"
-- 
2.43.0


From 7039a0dc23d3ac0f99c3302fc2f51c26ca60ed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:40 +0000
Subject: [PATCH 112/147] fix: write.CorefHtml ended the wrong mentions when
 more than one mention was broken at a crossing

---
 udapi/block/write/corefhtml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/corefhtml.py b/udapi/block/write/corefhtml.py
index 1d5d471..7bfbc3b 100644
--- a/udapi/block/write/corefhtml.py
+++ b/udapi/block/write/corefhtml.py
@@ -442,7 +442,7 @@ class CorefHtml(BaseWriter):
                 print('</span>' * (len(endings) + len(brokens)), end='')
                 for broken in brokens:
                     self._start_subspan(broken, True)
-                    opened.append(subspan)
+                    opened.append(broken)
 
             if not node.no_space_after:
                 print(' ', end='')
-- 
2.43.0


From 64d5e353a22c0b59254092cb64b61eea34cb239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:40 +0000
Subject: [PATCH 113/147] fix: write.CorefHtml rtl=1 left elements open at a
 crossing

---
 udapi/block/write/corefhtml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/write/corefhtml.py b/udapi/block/write/corefhtml.py
index 7bfbc3b..52ad946 100644
--- a/udapi/block/write/corefhtml.py
+++ b/udapi/block/write/corefhtml.py
@@ -439,7 +439,8 @@ class CorefHtml(BaseWriter):
                     else:
                         new_opened.append(subspan)
                 opened = new_opened
-                print('</span>' * (len(endings) + len(brokens)), end='')
+                end_tags = '</span></span>' if self.rtl else '</span>'
+                print(end_tags * (len(endings) + len(brokens)), end='')
                 for broken in brokens:
                     self._start_subspan(broken, True)
                     opened.append(broken)
-- 
2.43.0


From 37843f3fe1205ceb836d7df96ae5371e086012f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:40 +0000
Subject: [PATCH 114/147] fix: write.CorefHtml crashed on empty documents and
 on entities without mentions

---
 udapi/block/write/corefhtml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/corefhtml.py b/udapi/block/write/corefhtml.py
index 52ad946..b180c11 100644
--- a/udapi/block/write/corefhtml.py
+++ b/udapi/block/write/corefhtml.py
@@ -281,6 +281,8 @@ class CorefHtml(BaseWriter):
               '<th title="number of mentions">#m</th>'
               '<th title="a word best representing the entity">word</th></tr></thead>\n<tbody>')
         for entity in doc.coref_entities:
+            if not entity.mentions:
+                continue
             print(f'<tr><td><a href="#{_dom_esc(entity.eid)}">{entity.eid}</a></td>'
                   f'<td>{len(entity.mentions)}</td>'
                   f'<td>{self._representative_word(entity)}</td></tr>')
@@ -310,7 +312,8 @@ class CorefHtml(BaseWriter):
               )
 
         # The first ud_doc will be printed to the main html file.
-        self.process_ud_doc(ud_docs[0], 1)
+        if ud_docs:
+            self.process_ud_doc(ud_docs[0], 1)
         print('</div>') # id=main
 
         # Other ud_docs will be printed into separate files (so they can be loaded lazily)
@@ -327,7 +330,7 @@ class CorefHtml(BaseWriter):
         print(SCRIPT_BASE)
         if self.show_trees:
             print('docs_json = [false, ', end='') # 1-based index, so dummy docs_json[0]
-            WRITE_HTML.print_doc_json(ud_docs[0])
+            WRITE_HTML.print_doc_json(ud_docs[0] if ud_docs else [])
             print('];')
             try:
                 for i, ud_doc in enumerate(ud_docs[1:], 2):
-- 
2.43.0


From 09eab6d41e773cba23e880ea06f71223088e093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:40 +0000
Subject: [PATCH 115/147] fix: write.CorefHtml escapes forms, ids, types and
 attributes

---
 udapi/block/write/corefhtml.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/udapi/block/write/corefhtml.py b/udapi/block/write/corefhtml.py
index b180c11..e59032f 100644
--- a/udapi/block/write/corefhtml.py
+++ b/udapi/block/write/corefhtml.py
@@ -16,6 +16,7 @@ Non-recommended solution is to run
 from udapi.core.basewriter import BaseWriter
 from udapi.core.coref import span_to_nodes, CorefEntity, CorefMention
 from collections import Counter
+from html import escape
 import udapi.block.write.html
 import gzip
 import sys
@@ -283,9 +284,9 @@ class CorefHtml(BaseWriter):
         for entity in doc.coref_entities:
             if not entity.mentions:
                 continue
-            print(f'<tr><td><a href="#{_dom_esc(entity.eid)}">{entity.eid}</a></td>'
+            print(f'<tr><td><a href="#{_dom_esc(entity.eid)}">{escape(entity.eid)}</a></td>'
                   f'<td>{len(entity.mentions)}</td>'
-                  f'<td>{self._representative_word(entity)}</td></tr>')
+                  f'<td>{escape(str(self._representative_word(entity)))}</td></tr>')
         print('</tbody></table>')
         print('</div>')
 
@@ -347,7 +348,7 @@ class CorefHtml(BaseWriter):
     def _start_subspan(self, subspan, crossing=False):
         m = subspan.mention
         e = m.entity
-        classes = f'{_dom_esc(e.eid)} {self._mention_ids[m]} {e.etype or "other"} m'
+        classes = f'{_dom_esc(e.eid)} {self._mention_ids[m]} {escape(e.etype or "other")} m'
         title = f'eid={subspan.subspan_eid}\netype={e.etype}\nhead={m.head.form}'
         classes += f" {m.head.upos if m.head.upos in HTYPES else 'OTHER'}"
         title += f'\nhead-upos={m.head.upos}'
@@ -362,6 +363,8 @@ class CorefHtml(BaseWriter):
             title += '\ncrossing'
         if m.other:
             title += f'\n{m.other}'
+        title = escape(title)
+        etype = escape(str(e.etype))
         span_id = ''
         if (subspan.subspan_id == '' or subspan.subspan_id.startswith('[1/')) and e.mentions[0] == m:
             span_id = f'id="{_dom_esc(e.eid)}" '
@@ -370,11 +373,11 @@ class CorefHtml(BaseWriter):
         if self.rtl:
             print(f'<span {span_id}class="{classes}" title="{title}" dir="ltr">'
                   f'<span class="labels"><b class="eid">{_dom_esc(subspan.subspan_eid)}</b>'
-                  f' <i class="etype">{e.etype}</i></span><span dir="rtl">', end='')
+                  f' <i class="etype">{etype}</i></span><span dir="rtl">', end='')
         else:
             print(f'<span {span_id}class="{classes}" title="{title}">'
                   f'<span class="labels"><b class="eid">{_dom_esc(subspan.subspan_eid)}</b>'
-                  f' <i class="etype">{e.etype}</i></span>', end='')
+                  f' <i class="etype">{etype}</i></span>', end='')
 
     def process_tree(self, tree):
         mentions = set()
@@ -389,12 +392,12 @@ class CorefHtml(BaseWriter):
         subspans.sort(reverse=True)
 
         if tree.newdoc:
-            print(f'<hr><h1>{tree.newdoc if tree.newdoc is not True else ""}</h1><hr>')
+            print(f'<hr><h1>{escape(tree.newdoc) if tree.newdoc is not True else ""}</h1><hr>')
         elif tree.newpar:
             print('<hr class="par">')
         opened, prev_node_mention = [], True
         rtl = ' dir="rtl"' if self.rtl else ""
-        print(f'<p class="sentence" data-id="{tree.sent_id}" id="{_id(tree)}"{rtl}>')
+        print(f'<p class="sentence" data-id="{escape(str(tree.sent_id))}" id="{_id(tree)}"{rtl}>')
         for node in nodes_and_empty:
             if not prev_node_mention and subspans and subspans[-1].words[0] == node:
                 print('</span>', end='')
@@ -411,7 +414,7 @@ class CorefHtml(BaseWriter):
                 print('<b class="head">', end='')
             if node.is_empty():
                 print('<i class="empty">', end='')
-            print(node.form, end='')
+            print(escape(str(node.form)), end='')
             if node.is_empty():
                 print('</i>', end='')
             if is_head:
-- 
2.43.0


From af9172a4b8438f282654e3dbda645cfd9a5fb7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:19 +0000
Subject: [PATCH 116/147] fix: write.TextModeTrees highlighted other comments
 than documented, also without colours

---
 udapi/block/write/textmodetrees.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index 41f23c5..823e718 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -332,7 +332,7 @@ class TextModeTrees(BaseWriter):
         if self.print_text:
             print("# text = " + (root.get_sentence() if root.is_root() else root.compute_text()))
         if self.print_comments and root.comment:
-            print('#' + self.colorize_comment(root.comment.rstrip().replace('\n', '\n#')))
+            print('#' + self.colorize_comment(root.comment).rstrip().replace('\n', '\n#'))
 
     def _ends(self, idx, chars):
         return bool(self.lines[idx] and self.lines[idx][-1] in chars)
@@ -388,9 +388,9 @@ class TextModeTrees(BaseWriter):
 
     def colorize_comment(self, comment):
         """Return a string with color markup for a given comment."""
-        if self.mark_re is None:
+        if self.mark_re is None or not self.color:
             return comment
-        return self.mark_re.sub(colored(r'\g<0>', None, None, ['reverse', 'bold']), comment)
+        return self.comment_mark_re.sub(colored(r'\g<0>', None, None, ['reverse', 'bold']), comment)
 
     @staticmethod
     def colorize_attr(attr, value, marked):
-- 
2.43.0


From 54b3268ca3da91c5eaa058333e3f6fbffad4e22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:20 +0000
Subject: [PATCH 117/147] fix: drawing a subtree with print_comments=1 crashed

---
 udapi/block/write/textmodetrees.py     | 4 ++--
 udapi/block/write/textmodetreeshtml.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index 823e718..641dc0d 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -241,7 +241,7 @@ class TextModeTrees(BaseWriter):
             return True
         if any(self.is_marked(n) for n in allnodes):
             return True
-        if not self.print_comments or root.comment is None or self.mark_re is None:
+        if not self.print_comments or not root.is_root() or root.comment is None or self.mark_re is None:
             return False
         return self.comment_mark_re.search(root.comment)
 
@@ -331,7 +331,7 @@ class TextModeTrees(BaseWriter):
             print('# sent_id = ' + root.address())
         if self.print_text:
             print("# text = " + (root.get_sentence() if root.is_root() else root.compute_text()))
-        if self.print_comments and root.comment:
+        if self.print_comments and root.is_root() and root.comment:
             print('#' + self.colorize_comment(root.comment).rstrip().replace('\n', '\n#'))
 
     def _ends(self, idx, chars):
diff --git a/udapi/block/write/textmodetreeshtml.py b/udapi/block/write/textmodetreeshtml.py
index b4d3800..faec2d8 100644
--- a/udapi/block/write/textmodetreeshtml.py
+++ b/udapi/block/write/textmodetreeshtml.py
@@ -90,7 +90,7 @@ class TextModeTreesHtml(TextModeTrees):
         if self.print_text:
             text = "# text = " + (root.get_sentence() if root.is_root() else root.compute_text())
             print(escape(text))
-        if self.print_comments and root.comment:
+        if self.print_comments and root.is_root() and root.comment:
             print('#' + self.colorize_comment(escape(root.comment)).rstrip().replace('\n', '\n#'))
 
     def process_bundle(self, bundle):
-- 
2.43.0


From bf2196f7d5750dc0964ff0e23c843a5d6bdf5baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:20 +0000
Subject: [PATCH 118/147] fix: read.OldCorefUD keeps clusters apart whose ids
 differ in hyphens only

---
 udapi/block/read/oldcorefud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/oldcorefud.py b/udapi/block/read/oldcorefud.py
index 73e05f3..c7b5779 100644
--- a/udapi/block/read/oldcorefud.py
+++ b/udapi/block/read/oldcorefud.py
@@ -20,7 +20,7 @@ class OldCorefUD(udapi.block.read.conllu.Conllu):
         self.new2orig = {}
 
     def _fix_id(self, cid):
-        if not cid or '-' not in cid:
+        if not cid:
             return cid
         new_cid = self.orig2new.get(cid)
         if new_cid is None:
-- 
2.43.0


From 6809baa5ed5fd2690ed6ebdc658173434657630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:20 +0000
Subject: [PATCH 119/147] fix: read.Ccv with bundles_per_doc or split_docs

---
 udapi/block/read/ccv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/udapi/block/read/ccv.py b/udapi/block/read/ccv.py
index eb44936..34e5cee 100644
--- a/udapi/block/read/ccv.py
+++ b/udapi/block/read/ccv.py
@@ -41,7 +41,10 @@ class Ccv(BaseReader):
     def read_trees(self):
         if self.filehandle is None:
             return None
-        poems = json.load(self.filehandle)
+        content = self.filehandle.read()
+        if not content.strip():
+            return None     # the whole file has been read already
+        poems = json.loads(content)
         all_trees = []
         for poem in poems:
             poem_trees = []
-- 
2.43.0


From aa6f92d3c1c6037b0bd34e1b898b68b5a39ea83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:40 +0000
Subject: [PATCH 120/147] fix: the technical root is never in a non-projective
 gap

---
 udapi/core/node.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 241280f..1c4de94 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -967,6 +967,9 @@ class Node(object):
         - this node is within span of X, i.e. it is between (word-order-wise)
           X's leftmost descendant (or X itself) and X's rightmost descendant (or X itself).
         """
+        # Root precedes all words, so it is never within the span of any subtree.
+        if not self._parent:
+            return False
         ancestors = set([self])
         node = self
         while node._parent:
-- 
2.43.0


From 755e90479f66d2dc8c31de983176ded1e71a82e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:40 +0000
Subject: [PATCH 121/147] fix: ud.MarkBugs adds a mark whose name is a part of
 another mark

---
 udapi/block/ud/markbugs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/markbugs.py b/udapi/block/ud/markbugs.py
index bf47ed7..9aca336 100644
--- a/udapi/block/ud/markbugs.py
+++ b/udapi/block/ud/markbugs.py
@@ -73,7 +73,7 @@ class MarkBugs(Block):
             return
         logging.debug('node %s %s: %s', node.address(), short_msg, long_msg)
         if node.misc['Bug']:
-            if short_msg not in node.misc['Bug']:
+            if short_msg not in node.misc['Bug'].split(','):
                 node.misc['Bug'] += ',' + short_msg
         else:
             node.misc['Bug'] = short_msg
-- 
2.43.0


From 2080daeeb25cf034ed3546cb61fc3fa5022a108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:46 +0000
Subject: [PATCH 122/147] fix: ud.Convert1to2 crashed on a remnant that depends
 on the root

---
 udapi/block/ud/convert1to2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/block/ud/convert1to2.py b/udapi/block/ud/convert1to2.py
index d76c50b..ed0d268 100644
--- a/udapi/block/ud/convert1to2.py
+++ b/udapi/block/ud/convert1to2.py
@@ -297,7 +297,9 @@ class Convert1to2(Block):
         if not remnants:
             return
 
-        (first_conjunct, _) = find_minimal_common_treelet(remnants[0].parent.parent, *remnants)
+        # If the remnant depends on the root, there is no grandpa.
+        grandpa = remnants[0].parent.parent or root
+        (first_conjunct, _) = find_minimal_common_treelet(grandpa, *remnants)
         if first_conjunct == root:
             self.log(remnants[0], 'remnant', "remnants' (+their grandpas') common governor is root")
             return
-- 
2.43.0


From 04846a0e264919b312afaaefbb6aa383063b684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:36 +0000
Subject: [PATCH 123/147] fix: corefud.PrintMentions ignored print_total=0 and
 print_should=0

---
 udapi/block/corefud/printmentions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/printmentions.py b/udapi/block/corefud/printmentions.py
index d011f68..072c8a2 100644
--- a/udapi/block/corefud/printmentions.py
+++ b/udapi/block/corefud/printmentions.py
@@ -32,8 +32,8 @@ class PrintMentions(Block):
         if shuffle:
             random.seed(42)
         self.print_other_forms = print_other_forms
-        self.print_total = print_total,
-        self.print_should = print_should,
+        self.print_total = print_total
+        self.print_should = print_should
         print_class = TextModeTreesHtml if html else TextModeTrees
         self.print_block = print_class(
                 print_sent_id=print_sent_id, print_text=print_text, add_empty_line=add_empty_line, indent=indent,
-- 
2.43.0


From f97c75b80a761d41aea24bdf06dd284b8b5be4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:28 +0000
Subject: [PATCH 124/147] fix: corefud.PrintMentions left marks on mentions
 over max_trees

---
 udapi/block/corefud/printmentions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/udapi/block/corefud/printmentions.py b/udapi/block/corefud/printmentions.py
index 072c8a2..6cdd464 100644
--- a/udapi/block/corefud/printmentions.py
+++ b/udapi/block/corefud/printmentions.py
@@ -153,15 +153,14 @@ class PrintMentions(Block):
             if self.almost_forest != 'include' and not self._ok(self._is_forest(mention, mwords, True), self.almost_forest):
                 continue
 
-            for w in mention.words:
-                w.misc['Mark'] = 1
-
             seen_trees += 1
             if self.max_trees and seen_trees > self.max_trees:
                 if not self.print_total:
                     print(f'######## Only first {self.max_trees} matching mentions printed. Use max_trees=0 to see all.')
                     return
             else:
+                for w in mention.words:
+                    w.misc['Mark'] = 1
                 this_form = ' '.join([w.form for w in mention.words])
                 print("# Mention = " + this_form)
                 if self.print_other_forms:
-- 
2.43.0


From f19e966a3534bb1f38ecaec847bcc5ee6a10b6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:35 +0000
Subject: [PATCH 125/147] fix: corefud.CountGaps counted a last paragraph with
 mentions and an empty paragraph before the first sentence

---
 udapi/block/corefud/countgaps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/countgaps.py b/udapi/block/corefud/countgaps.py
index fc45540..955ee36 100644
--- a/udapi/block/corefud/countgaps.py
+++ b/udapi/block/corefud/countgaps.py
@@ -54,7 +54,7 @@ class CountGaps(Block):
                 curr_par = []
                 is_empty_par = True
             if tree.newpar:
-                if not tree.newdoc and is_empty_par:
+                if curr_par and is_empty_par:
                     empty_pars.append(curr_par)
                 curr_par = []
                 is_empty_par = True
@@ -73,7 +73,7 @@ class CountGaps(Block):
             empty_seqs.append(curr_seq)
         newdoc_seq_counter = self._count_empty_seqs(empty_seqs)
         file_counters["seq"].update(newdoc_seq_counter)
-        if curr_par:
+        if curr_par and is_empty_par:
             empty_pars.append(curr_par)
         newdoc_par_counter = self._count_empty_seqs(empty_pars)
         file_counters["par"].update(newdoc_par_counter)
-- 
2.43.0


From 96b7295e4dc262a1f1260b0699725ced96a4df36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:50 +0000
Subject: [PATCH 126/147] fix: corefud.CountGaps ignored mentions of empty
 nodes

---
 udapi/block/corefud/countgaps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/countgaps.py b/udapi/block/corefud/countgaps.py
index 955ee36..f3664ea 100644
--- a/udapi/block/corefud/countgaps.py
+++ b/udapi/block/corefud/countgaps.py
@@ -59,7 +59,7 @@ class CountGaps(Block):
                 curr_par = []
                 is_empty_par = True
 
-            has_mention = any(node.coref_mentions for node in tree.descendants)
+            has_mention = any(node.coref_mentions for node in tree.descendants_and_empty)
             if not has_mention:
                 curr_seq.append(tree.sent_id)
                 curr_par.append(tree.sent_id)
-- 
2.43.0


From 940fec65844e0af1e7de1ed92e8500aac7257306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:51 +0000
Subject: [PATCH 127/147] fix: corefud.FixToValidate attached words to the root
 with a relation other than root

---
 udapi/block/corefud/fixtovalidate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/fixtovalidate.py b/udapi/block/corefud/fixtovalidate.py
index 48a3608..732cf4b 100644
--- a/udapi/block/corefud/fixtovalidate.py
+++ b/udapi/block/corefud/fixtovalidate.py
@@ -14,7 +14,7 @@ class FixToValidate(Block):
             parent = node.parent
             if node.deprel == "root" and parent is not None and not parent.is_root():
                 #print("\t".join(['Non-0-root:', node.address(), node.upos, str(node.feats), node.parent.upos, str(node.parent.feats)]))
-                if parent.upos == "PUNCT" and parent.parent is not None:
+                if parent.upos == "PUNCT" and not parent.parent.is_root():
                     node.parent = parent.parent
                 if node.upos == "CCONJ":
                     node.deprel = "cc"
-- 
2.43.0


From 25912d215891a406db618f0bd0659cf410314618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:20 +0000
Subject: [PATCH 128/147] fix: corefud.FixToValidate crashed on empty trees and
 kept SpaceAfter=No of a last multi-word token

---
 udapi/block/corefud/fixtovalidate.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/udapi/block/corefud/fixtovalidate.py b/udapi/block/corefud/fixtovalidate.py
index 732cf4b..3812717 100644
--- a/udapi/block/corefud/fixtovalidate.py
+++ b/udapi/block/corefud/fixtovalidate.py
@@ -27,11 +27,12 @@ class FixToValidate(Block):
 
     def _space_before_pardoc(self, doc):
         last_node = None
-        for i, tree in enumerate(doc.trees):
-            if i > 0:
+        for tree in doc.trees:
+            if last_node is not None:
                 if (tree.newdoc is not None or tree.newpar is not None) and last_node.no_space_after:
                     del last_node.misc["SpaceAfter"]
-            last_node = tree.descendants[-1]
+            if tree.descendants:
+                last_node = tree.token_descendants[-1]
 
     def process_document(self, doc):
         self._set_root_deprel(doc)
-- 
2.43.0


From 59452538981de280e3d0c95aab5c70797b0f423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:31 +0000
Subject: [PATCH 129/147] fix: mwe.Normalize made Mwe=1: of a multiword
 expression without a type

---
 udapi/block/mwe/normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/mwe/normalize.py b/udapi/block/mwe/normalize.py
index e7ebf24..1eb739e 100644
--- a/udapi/block/mwe/normalize.py
+++ b/udapi/block/mwe/normalize.py
@@ -60,7 +60,7 @@ class Normalize(Block):
             # There may be multiple MWEs this node is member of.
             annotations = []
             for m in mwes_by_nodes[n.ord]:
-                if n.ord == mwes[m]['nodes'][0]:
+                if n.ord == mwes[m]['nodes'][0] and mwes[m]['type']:
                     annotations.append("%s:%s" % (m, mwes[m]['type']))
                 else:
                     annotations.append(m)
-- 
2.43.0


From 4bf99dcf056437f0e51b50688decce36a47aa324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:00 +0000
Subject: [PATCH 130/147] fix: mwe.ToSubDeprels added an empty subtype for a
 multiword expression without a type

---
 udapi/block/mwe/tosubdeprels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/mwe/tosubdeprels.py b/udapi/block/mwe/tosubdeprels.py
index 3682c0c..beff06a 100644
--- a/udapi/block/mwe/tosubdeprels.py
+++ b/udapi/block/mwe/tosubdeprels.py
@@ -58,5 +58,5 @@ class ToSubDeprels(Block):
                 for m in mwes_by_nodes[n.ord]:
                     type = re.sub(r"\.", '', mwes[m]['type'].lower())
                     # Add the MWE type to the DEPREL if the parent is also in the same MWE.
-                    if n.parent.ord > 0 and m in mwes_by_nodes[n.parent.ord]:
+                    if type and n.parent.ord > 0 and m in mwes_by_nodes[n.parent.ord]:
                         n.deprel += ':' + type
-- 
2.43.0


From 69b22a0b63a86e90dd6afebd26721403016a013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:20 +0000
Subject: [PATCH 131/147] fix: UDPipeOnline.tokenize_tag_parse_tree with ranges
 segmented the text exactly when it should not

---
 udapi/tool/udpipeonline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/tool/udpipeonline.py b/udapi/tool/udpipeonline.py
index f0a835c..70b429f 100644
--- a/udapi/tool/udpipeonline.py
+++ b/udapi/tool/udpipeonline.py
@@ -107,7 +107,7 @@ class UDPipeOnline:
         if parse:
             params["parser"] = ""
         if ranges:
-            params["tokenizer"] = "presegmented;ranges" if resegment else "ranges"
+            params["tokenizer"] = "ranges" if resegment else "presegmented;ranges"
         out_data = self.perform_request(params=params)
         conllu_reader = ConlluReader(empty_parent="ignore")
         conllu_reader.files.filehandle = io.StringIO(out_data)
-- 
2.43.0


From 20e1fb510f497b3ea0070c1d320516737f9b763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:20 +0000
Subject: [PATCH 132/147] fix: UDPipeOnline left multi-word tokens of the first
 tree linked to a tree which is not in the document

---
 udapi/tool/udpipeonline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/tool/udpipeonline.py b/udapi/tool/udpipeonline.py
index 70b429f..ef78a46 100644
--- a/udapi/tool/udpipeonline.py
+++ b/udapi/tool/udpipeonline.py
@@ -120,6 +120,8 @@ class UDPipeOnline:
             node._parent = root
         for node in root._descendants:
             node._root = root
+        for mwt in root._mwts:
+            mwt.root = root
         trees[0] = root
         return trees
 
-- 
2.43.0


From d66303c505f10ce40e6edf9b9378f72c40124ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:20 +0000
Subject: [PATCH 133/147] fix: udpipe.Base repeated bundles with more zones and
 did not number the new bundles

---
 udapi/block/udpipe/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/block/udpipe/base.py b/udapi/block/udpipe/base.py
index 069fc9f..ee5d3f8 100644
--- a/udapi/block/udpipe/base.py
+++ b/udapi/block/udpipe/base.py
@@ -154,8 +154,8 @@ class Base(Block):
         old_bundles = doc.bundles
         new_bundles = []
         for bundle in old_bundles:
+            new_bundles.append(bundle)
             for tree in bundle:
-                new_bundles.append(bundle)
                 if self._should_process_tree(tree):
                     if self.delete_nodes:
                         for subroot in tree.children:
@@ -187,6 +187,8 @@ class Base(Block):
                     else:
                         raise ValueError(f"Unimplemented tokenize={tok} tag={tag} parse={par} resegment={reseg}")
         doc.bundles = new_bundles
+        for number, bundle in enumerate(doc.bundles, 1):
+            bundle.number = number
 
 '''
 Udapi::Block::UDPipe::Base - tokenize, tag and parse into UD
-- 
2.43.0


From 5b20c650239e2e1b768506a86ab07d5be2e75c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:01 +0000
Subject: [PATCH 134/147] fix: the UDPipe wrapper stored undefined attributes
 as empty strings, which are written as empty columns

---
 udapi/tool/udpipe.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/udapi/tool/udpipe.py b/udapi/tool/udpipe.py
index 83e289a..0afc48a 100644
--- a/udapi/tool/udpipe.py
+++ b/udapi/tool/udpipe.py
@@ -106,9 +106,10 @@ class UDPipe:
             u_words = u_sentence.words
             for i in range(1, u_words.size()):
                 u_w = u_words[i]
+                # UDPipe uses empty strings for undefined attributes.
                 node = new_root.create_child(
-                    form=u_w.form, lemma=u_w.lemma, upos=u_w.upostag,
-                    xpos=u_w.xpostag, feats=u_w.feats, deprel=u_w.deprel, misc=u_w.misc,
+                    form=u_w.form, lemma=u_w.lemma or None, upos=u_w.upostag or None,
+                    xpos=u_w.xpostag or None, feats=u_w.feats, deprel=u_w.deprel or None, misc=u_w.misc,
                 )
                 if parse:
                     heads.append(u_w.head)
-- 
2.43.0


From 35efae05adc8572b2f25bbeb08a3f362839c1c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:42 +0000
Subject: [PATCH 135/147] fix: ud.zh.Lemmatize did not lemmatize ordinary verbs

---
 udapi/block/ud/zh/lemmatize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/zh/lemmatize.py b/udapi/block/ud/zh/lemmatize.py
index abacf29..b3c15dc 100644
--- a/udapi/block/ud/zh/lemmatize.py
+++ b/udapi/block/ud/zh/lemmatize.py
@@ -75,6 +75,8 @@ class Lemmatize(Block):
                 node.lemma = m3.group(1)
                 if node.lemma == '爲':
                     node.lemma = '為'
+            else:
+                node.lemma = node.form
         elif node.form in self.lemma:
             node.lemma = self.lemma[node.form]
         else:
-- 
2.43.0


From 2997bd99f7feb605fccab0d7b359604c038fc0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:43 +0000
Subject: [PATCH 136/147] fix: ud.en.SetSpaceAfter and ud.ro.SetSpaceAfter
 forgot to update the text

---
 udapi/block/ud/setspaceafter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/ud/setspaceafter.py b/udapi/block/ud/setspaceafter.py
index c7eedca..5e1b40a 100644
--- a/udapi/block/ud/setspaceafter.py
+++ b/udapi/block/ud/setspaceafter.py
@@ -24,7 +24,6 @@ class SetSpaceAfter(Block):
     def process_tree(self, root):
         nodes = root.descendants
         count_of_form = collections.Counter([n.form for n in nodes])
-        self.changed = False
 
         # Undirected double quotes are ambiguous.
         # If there is an even number of quotes in a sentence, suppose they are not nested
@@ -58,8 +57,10 @@ class SetSpaceAfter(Block):
         if len(nodes) > 1 and nodes[-1].form == '"':
             self.mark_no_space(nodes[-2])
 
+        # Subclasses may have marked some nodes before calling this method.
         if self.fix_text and self.changed:
             root.text = root.compute_text()
+        self.changed = False
 
     def mark_no_space(self, node):
         """Mark a node with SpaceAfter=No unless it is a goeswith exception."""
-- 
2.43.0


From 3f355c9f77553474a6b5fc1ff95b9c4441de99a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:43 +0000
Subject: [PATCH 137/147] fix: ud.de.FixGSD crashed when a number was attached
 to the following period

---
 udapi/block/ud/de/fixgsd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/block/ud/de/fixgsd.py b/udapi/block/ud/de/fixgsd.py
index 65d1268..bdd2a52 100644
--- a/udapi/block/ud/de/fixgsd.py
+++ b/udapi/block/ud/de/fixgsd.py
@@ -21,6 +21,9 @@ class FixGSD(Block):
                 # Merge the number and the period into one token.
                 number = node.prev_node
                 period = node
+                # The number may have been attached under the period.
+                if number.is_descendant_of(period):
+                    number.parent = period.parent
                 # The period should not have any children but if it does, re-attach them to the number.
                 for c in period.children:
                     c.parent = number
-- 
2.43.0


From c176da1e5c6e83d127e2df5f309963b98f2e3db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:10 +0000
Subject: [PATCH 138/147] fix: ud.Lemmatize took comparative, superlative and
 negative adjectives for base forms

---
 udapi/block/ud/lemmatize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/ud/lemmatize.py b/udapi/block/ud/lemmatize.py
index a234256..7328097 100644
--- a/udapi/block/ud/lemmatize.py
+++ b/udapi/block/ud/lemmatize.py
@@ -34,8 +34,8 @@ class Lemmatize(Block):
             # ADJ: use masculine singular nominative positive affirmative
             elif re.match(r'^(ADJ)$', node.upos) and re.match(r'^(Masc)?$', node.feats['Gender']) and re.match(r'^(Sing)?$', node.feats['Number']) and re.match(r'^(Nom)?$', node.feats['Case']) and re.match(r'^(Pos)?$', node.feats['Degree']) and re.match(r'^(Pos)?$', node.feats['Polarity']):
                 node.lemma = node.form.lower()
-            # ADJ, PRON, DET: use masculine singular nominative (pronouns: each person has its own lemma)
-            elif re.match(r'^(ADJ|PRON|DET)$', node.upos) and re.match(r'^(Masc)?$', node.feats['Gender']) and re.match(r'^(Sing)?$', node.feats['Number']) and re.match(r'^(Nom)?$', node.feats['Case']):
+            # PRON, DET: use masculine singular nominative (pronouns: each person has its own lemma)
+            elif re.match(r'^(PRON|DET)$', node.upos) and re.match(r'^(Masc)?$', node.feats['Gender']) and re.match(r'^(Sing)?$', node.feats['Number']) and re.match(r'^(Nom)?$', node.feats['Case']):
                 node.lemma = node.form.lower()
             # NUM: use masculine nominative (number, if present at all, is lexical)
             elif re.match(r'^(NUM)$', node.upos) and re.match(r'^(Masc)?$', node.feats['Gender']) and re.match(r'^(Nom)?$', node.feats['Case']):
-- 
2.43.0


From cb6386deae45345b0f32b85425d96402a3567dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:13 +0000
Subject: [PATCH 139/147] fix: ud.FixPunct attached paired punctuation
 non-projectively when the words inside are non-projective

---
 udapi/block/ud/fixpunct.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/udapi/block/ud/fixpunct.py b/udapi/block/ud/fixpunct.py
index 854a24a..66e3d8e 100644
--- a/udapi/block/ud/fixpunct.py
+++ b/udapi/block/ud/fixpunct.py
@@ -215,6 +215,11 @@ class FixPunct(Block):
     def _causes_gap(self, node):
         return node.is_nonprojective_gap() and not node.parent.is_nonprojective_gap()
 
+    def _skips_word(self, node):
+        first, last = sorted((node.ord, node.parent.ord))
+        return any(not self._is_punct(n) and not n.is_descendant_of(node.parent)
+                   for n in node.root.descendants[first:last-1])
+
     def _fix_paired_punct(self, root, opening_node, closing_punct):
         if (self.check_paired_punct_upos
             or opening_node.form in "'\"") and opening_node.upos != 'PUNCT':
@@ -288,13 +293,14 @@ class FixPunct(Block):
         # should be attached to "of" rather than to "lack"
         # -- breaking the paired-marks-have-same-parent rule
         # in order to prevent the punct-nonproj-gap bug (recently checked by validator.py).
-        if self._causes_gap(opening_node):
+        # Similarly, the nearest head may be too far if the words inside are non-projective themselves.
+        if self._causes_gap(opening_node) or self._skips_word(opening_node):
             opening_node.parent = opening_node.next_node
             while (opening_node.parent.ord < closing_node.ord - 1
                 and (opening_node.parent.upos == 'PUNCT' or opening_node.is_nonprojective()
                 or self._causes_gap(opening_node))):
                     opening_node.parent = opening_node.parent.next_node
-        if self._causes_gap(closing_node):
+        if self._causes_gap(closing_node) or self._skips_word(closing_node):
             closing_node.parent = closing_node.prev_node
             while (closing_node.parent.ord > opening_node.ord + 1
                 and (closing_node.parent.upos == 'PUNCT' or closing_node.is_nonprojective()
-- 
2.43.0


From 2af3ffdcc1e0ca301398688a3e438804b96d4b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:12 +0000
Subject: [PATCH 140/147] fix: readers merging files joined the trees at the
 boundary of two files if they had the same sent_id

---
 udapi/core/basereader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index 7b40f6f..945ddba 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -221,6 +221,7 @@ class BaseReader(Block):
                     if (trees_loaded == 0 or self.merge) and self.files.has_next_file():
                         filehandle = self.next_filehandle()
                         logging.info(f"Reading {self.files.filename}")
+                        last_bundle_id = '' # the same sent_id in the next file means another sentence
                         continue
                     self.finished = not self.files.has_next_file()
                     break
-- 
2.43.0


From 60025c5010e1543a49c55d05b623a743a75034fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:05 +0000
Subject: [PATCH 141/147] fix: ud.es.ElQue and ud.ca.ElQue with fix=1 failed if
 the determiner depended on the preposition or governed the clause

---
 udapi/block/ud/ca/elque.py | 6 ++++++
 udapi/block/ud/es/elque.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/udapi/block/ud/ca/elque.py b/udapi/block/ud/ca/elque.py
index 6b3ad22..a9d3770 100644
--- a/udapi/block/ud/ca/elque.py
+++ b/udapi/block/ud/ca/elque.py
@@ -72,6 +72,9 @@ class ElQue(Block):
     def fix_pattern(self, adp, el, que, verb):
         if adp:
             if adp.parent == que or adp.parent == verb:
+                if el.is_descendant_of(adp):
+                    # Prevent a cycle.
+                    attach(el, adp.parent)
                 attach(adp, el, 'case')
         if el.parent == que:
             ###!!! Just a temporary change. In the end it will be attached elsewhere.
@@ -79,6 +82,9 @@ class ElQue(Block):
             el.parent = verb
             if len(el.deps) == 1:
                 el.deps[0]['parent'] = verb
+        if verb.is_descendant_of(el):
+            # Prevent a cycle (the clause already modifies the determiner).
+            return
         if verb.parent != adp and verb.parent != el and verb.parent != que:
             eldeprel = None
             if re.match(r'^[nc]subj$', verb.udeprel):
diff --git a/udapi/block/ud/es/elque.py b/udapi/block/ud/es/elque.py
index 4d14b98..097e0f4 100644
--- a/udapi/block/ud/es/elque.py
+++ b/udapi/block/ud/es/elque.py
@@ -72,6 +72,9 @@ class ElQue(Block):
     def fix_pattern(self, adp, el, que, verb):
         if adp:
             if adp.parent == que or adp.parent == verb:
+                if el.is_descendant_of(adp):
+                    # Prevent a cycle.
+                    attach(el, adp.parent)
                 attach(adp, el, 'case')
         if el.parent == que:
             ###!!! Just a temporary change. In the end it will be attached elsewhere.
@@ -79,6 +82,9 @@ class ElQue(Block):
             el.parent = verb
             if len(el.deps) == 1:
                 el.deps[0]['parent'] = verb
+        if verb.is_descendant_of(el):
+            # Prevent a cycle (the clause already modifies the determiner).
+            return
         if verb.parent != adp and verb.parent != el and verb.parent != que:
             eldeprel = None
             if re.match(r'^[nc]subj$', verb.udeprel):
-- 
2.43.0


From 3bf2e195e2f0a370997492b5eda71dba247952e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:50 +0000
Subject: [PATCH 142/147] fix: ud.pt.AddHyphenMwt deleted also the words
 depending on the hyphen

---
 udapi/block/ud/pt/addhyphenmwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/pt/addhyphenmwt.py b/udapi/block/ud/pt/addhyphenmwt.py
index 9492b1a..ed0f03a 100644
--- a/udapi/block/ud/pt/addhyphenmwt.py
+++ b/udapi/block/ud/pt/addhyphenmwt.py
@@ -31,7 +31,7 @@ class AddHyphenMwt(Block):
                 else:
                     compound_form = "".join(t.form for t in compound)
                     for hyphen in compound[1::2]:
-                        hyphen.remove()
+                        hyphen.remove(children="rehang")
                     root.create_multiword_token([w for w in words if w.form != '-'], compound_form)
                     root.text = None
             i += 1
-- 
2.43.0


From f09a9fa4546ddb92ec31ad48c84a29b521e0626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:30 +0000
Subject: [PATCH 143/147] fix: ud.gl.To2 relabelled a copula after its
 complement as xcomp

---
 udapi/block/ud/gl/to2.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/udapi/block/ud/gl/to2.py b/udapi/block/ud/gl/to2.py
index 81a17c6..725da2c 100644
--- a/udapi/block/ud/gl/to2.py
+++ b/udapi/block/ud/gl/to2.py
@@ -16,11 +16,16 @@ ADP_HEAD_PREFERENCES = {
 class To2(Block):
     """Block for fixing the remaining cases (before ud.Convert1to2) in UD_Galician."""
 
+    def __init__(self, **kwargs):
+        super().__init__(**kwargs)
+        # Copulas whose complement precedes them must not be processed again as its complements.
+        self.converted = set()
+
     def process_node(self, node):
 
         # UD_Galician v1.4 uses incorrectly deprel=cop not for the copula verb,
         # but for its complement (typically ADJ) and also copula is the head.
-        if node.deprel == 'cop':
+        if node.deprel == 'cop' and node not in self.converted:
             copula = node.parent
             # In UDv2 discussions it has been decided that only a limited set of verbs
             # can be annotated as copula. For Spanish, "estar" was questionable, but accepted.
@@ -34,6 +39,7 @@ class To2(Block):
                 copula.parent = node
                 node.deprel = copula.deprel
                 copula.deprel = 'cop'
+                self.converted.add(copula)
             else:
                 node.deprel = 'xcomp'
 
-- 
2.43.0


From 68df4d01dfb273029c5f3a5d66d8cb5c2bf33ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:40 +0000
Subject: [PATCH 144/147] fix: process_document: iterate over a copy of the
 empty nodes

---
 udapi/core/block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/block.py b/udapi/core/block.py
index 04d7905..9dddbac 100644
--- a/udapi/core/block.py
+++ b/udapi/core/block.py
@@ -121,7 +121,7 @@ class Block(object):
                                     for node in tree.descendants:
                                         self.process_node(node)
                                 if p_empty_node:
-                                    for empty_node in tree.empty_nodes:
+                                    for empty_node in list(tree.empty_nodes):
                                         self.process_empty_node(empty_node)
 
     @not_overridden
-- 
2.43.0


From 944097cda28c96c69d6b6bd84ab8db590de3f535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:03 +0000
Subject: [PATCH 145/147] fix: msf.CreateAbstract: look for the abstract
 subject of the verb, not at the incoming edges of the verb

---
 udapi/block/msf/createabstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/msf/createabstract.py b/udapi/block/msf/createabstract.py
index fbdf73e..f042e74 100644
--- a/udapi/block/msf/createabstract.py
+++ b/udapi/block/msf/createabstract.py
@@ -21,7 +21,7 @@ class CreateAbstract(Block):
             # Current node is a finite predicate. Does it have a subject? If not, create an abstract one.
             if not any([x.udeprel in ['nsubj', 'csubj'] for x in node.children]):
                 # There could already be an abstract subject. We have to look for it in the enhanced graph.
-                if not any([re.match(r"^[nc]subj", edep['deprel']) for edep in node.deps]):
+                if not any([edep['parent'] is node and re.match(r"^[nc]subj", edep['deprel']) for x in node.root.descendants_and_empty for edep in x.deps]):
                     # Create an abstract subject.
                     subject = node.create_empty_child('nsubj')
                     subject.upos = 'PRON'
-- 
2.43.0


From fb5169261fb3957d4220f5a01ec888f14d43ebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:29 +0000
Subject: [PATCH 146/147] fix: words of a multi-word token stay sorted when
 they are shifted (compute_text and token_descendants repeated the token)

---
 udapi/core/node.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 1c4de94..284ee83 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -581,6 +581,7 @@ class Node(object):
         """Internal method for changing word order."""
         if not self._root.empty_nodes:
             self._shift_words_before_ord(reference_ord, without_children)
+            self._sort_mwt_words()
             return
 
         # Empty nodes stay between the same words (except for the words being moved).
@@ -597,6 +598,12 @@ class Node(object):
         self._shift_words_before_ord(reference_ord, without_children)
         if self._root._descendants != old_nodes[1:]:
             _reorder_empty_nodes(self._root.empty_nodes, empty_follows)
+        self._sort_mwt_words()
+
+    def _sort_mwt_words(self):
+        """Internal method: keep the words of each multi-word token sorted after the word order changed."""
+        for mwt in self._root._mwts:
+            mwt.words.sort()
 
     def _shift_words_before_ord(self, reference_ord, without_children=False):
         """Internal method for changing word order of non-empty nodes."""
-- 
2.43.0


From 51d220accaf124afed35caac14ef874d7ff7430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:10 +0000
Subject: [PATCH 147/147] fix: corefud.Delete: delete also MISC[Functor] of
 nodes without enhanced dependencies on empty nodes

---
 udapi/block/corefud/delete.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/udapi/block/corefud/delete.py b/udapi/block/corefud/delete.py
index 4e68e8d..3f7774e 100644
--- a/udapi/block/corefud/delete.py
+++ b/udapi/block/corefud/delete.py
@@ -66,6 +66,8 @@ class Delete(Block):
         for root in doc.trees:
             if self.empty:
                 for node in root.descendants:
+                    if '.' in node.misc['Functor'].split(':')[0]:
+                        del node.misc['Functor']
                     # process only the nodes dependent on empty nodes
                     if not '.' in node.raw_deps:
                         continue
@@ -77,9 +79,6 @@ class Delete(Block):
                         newdeps = self._deps_ignore_nodes(node, root.empty_nodes)
                         newdeps_sorted = sorted(set((dep['parent'].ord, dep['deprel']) for dep in newdeps))
                         node.raw_deps = '|'.join(f"{p}:{r}" for p, r in newdeps_sorted)
-
-                    if '.' in node.misc['Functor'].split(':')[0]:
-                        del node.misc['Functor']
                 root.empty_nodes = []
 
             if self.coref or self.misc:
-- 
2.43.0

