From cefa3e46c8d9eb99e3dad39b036980198bb7a64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 1/9] fix: keep sibling links intact when a node is inserted
 where it already is

Inserting a node next to its own sibling (or as the first/last child it
already is) detached the node and then skipped relinking it, so that the
node disappeared from forward or backward sibling traversal, or hit a
[consistency] panic for an only child.
---
 src/dynamic/hierarchy.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/dynamic/hierarchy.rs b/src/dynamic/hierarchy.rs
index 91fe0d0..6acc796 100644
--- a/src/dynamic/hierarchy.rs
+++ b/src/dynamic/hierarchy.rs
@@ -802,6 +802,12 @@ impl<Id: InternalNodeId> SiblingsRange<Id> {
             return Err(StructureError::AncestorDescendantLoop);
         }
 
+        // If the destination is right after or right before the range itself,
+        // the range is already at the requested place.
+        if prev_sibling == Some(self.last) || next_sibling == Some(self.first) {
+            return Ok(());
+        }
+
         // Detach the nodes.
         {
             let first_nbs = hier
@@ -837,16 +843,10 @@ impl<Id: InternalNodeId> SiblingsRange<Id> {
         }
 
         // Connect the first node in the range to the previous sibling.
-        // If they are identical, no need to update neighbors info.
-        if prev_sibling != Some(self.first) {
-            hier.connect_triangle(Some(parent), prev_sibling, Some(self.first));
-        }
+        hier.connect_triangle(Some(parent), prev_sibling, Some(self.first));
 
         // Connect the last node in the range to the next sibling.
-        // If they are identical, no need to update neighbors info.
-        if next_sibling != Some(self.last) {
-            hier.connect_triangle(Some(parent), Some(self.last), next_sibling);
-        }
+        hier.connect_triangle(Some(parent), Some(self.last), next_sibling);
 
         Ok(())
     }
-- 
2.43.0


From 2c51c4ccc3ab1f79e27b72c476602be0c1460f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 2/9] fix: return SiblingsWithoutParent instead of panicking on
 sibling of a root

Forest::insert and NodeMut::try_adopt document this error for a destination
next to a node without a parent, but panicked.
---
 src/dynamic/hierarchy.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dynamic/hierarchy.rs b/src/dynamic/hierarchy.rs
index 6acc796..ebaabcd 100644
--- a/src/dynamic/hierarchy.rs
+++ b/src/dynamic/hierarchy.rs
@@ -414,11 +414,12 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
     ///
     /// Returns [`StructureError::UnorderableSiblings`] error when `node` and
     /// `next_sibling` are identical.
+    /// Returns [`StructureError::SiblingsWithoutParent`] error when
+    /// `next_sibling` does not have a parent.
     ///
     /// # Panics
     ///
     /// Panics if any of the given nodes are not alive.
-    /// Panics if the `next_sibling` does not have a parent.
     fn insert_before(&mut self, node: Id, next_sibling: Id) -> Result<(), StructureError> {
         if node == next_sibling {
             return Err(StructureError::UnorderableSiblings);
@@ -429,7 +430,7 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
             .expect("[precondition] the next sibling must be alive");
         let parent = next_nbs
             .parent()
-            .expect("[precondition] the parent must be alive to have siblings");
+            .ok_or(StructureError::SiblingsWithoutParent)?;
         let prev_sibling = next_nbs.prev_sibling(self);
         SiblingsRange::with_single_toplevel(self, node).transplant(
             self,
@@ -445,11 +446,12 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
     ///
     /// Returns [`StructureError::UnorderableSiblings`] error when `node` and
     /// `prev_sibling` are identical.
+    /// Returns [`StructureError::SiblingsWithoutParent`] error when
+    /// `prev_sibling` does not have a parent.
     ///
     /// # Panics
     ///
     /// Panics if any of the given nodes are not alive.
-    /// Panics if the `prev_sibling` does not have a parent.
     fn insert_after(&mut self, node: Id, prev_sibling: Id) -> Result<(), StructureError> {
         if node == prev_sibling {
             return Err(StructureError::UnorderableSiblings);
@@ -460,7 +462,7 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
             .expect("[precondition] the previous sibling must be alive");
         let parent = prev_nbs
             .parent()
-            .expect("[precondition] the parent must be alive to have siblings");
+            .ok_or(StructureError::SiblingsWithoutParent)?;
         let next_sibling = prev_nbs.next_sibling();
         SiblingsRange::with_single_toplevel(self, node).transplant(
             self,
-- 
2.43.0


From 2e670ec2dc0738ff926905fc0a8ac2bb0615a78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 3/9] fix: do not leave an unreachable node behind when
 create_insert panics

A removed anchor, or a sibling destination next to a root, was detected only
after the new node had been created, so the panic left an orphan root (and
its data and ID) in the forest.
---
 src/dynamic/forest.rs    | 25 +++++++++++++++----------
 src/dynamic/hierarchy.rs |  6 ------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/dynamic/forest.rs b/src/dynamic/forest.rs
index f02d8b4..62c7cdb 100644
--- a/src/dynamic/forest.rs
+++ b/src/dynamic/forest.rs
@@ -353,6 +353,8 @@ impl<Id: NodeId, T> Forest<Id, T> {
     ///
     /// * Panics if the node (the anchor of the destination) is not alive.
     /// * Panics if the node (the anchor of the destination) is not from this forest.
+    /// * Panics if `dest` is `PreviousSiblingOf(v)` or `NextSiblingOf(v)`, and
+    ///   `v` does not have a parent.
     #[inline]
     #[must_use = "newly created node cannot be accessed without the returned node ID"]
     pub fn create_insert(&mut self, data: T, dest: InsertAs<Id>) -> Id {
@@ -1929,19 +1931,22 @@ fn create_insert_momo<Id: InternalNodeId, T>(
     data: T,
     dest: InsertAs<Id>,
 ) -> Id {
-    assert!(
-        hierarchy.is_valid(dest.to_anchor()),
-        "[precondition] the anchor must be valid for this forest"
-    );
+    // Reject invalid destinations before creating the node. Otherwise, the new
+    // node and its data would be left in the forest with nobody knowing its ID.
+    let anchor_nbs = hierarchy
+        .neighbors(dest.to_anchor())
+        .expect("[precondition] the anchor must be alive and valid for this forest");
+    if let InsertAs::PreviousSiblingOf(_) | InsertAs::NextSiblingOf(_) = dest {
+        assert!(
+            anchor_nbs.parent().is_some(),
+            "[precondition] the anchor must have a parent to have siblings"
+        );
+    }
     let new_id = hierarchy.create_root();
     storage.push(Some(data));
-    // This insert must not fail if the anchor of `dest` is alive and from the forest.
-    // If the anchor is not alive, `insert()` itself panics.
-    //
-    // If the anchor is from other forest but accidentally valid as the node ID
-    // as this forest, `insert()` could return `Err(_)`.
+    // This insert must not fail since the destination is already tested.
     hierarchy.insert(new_id, dest).expect(
-        "[precondition] newly created node is independent from the destination \
+        "[consistency] newly created node is independent from the destination \
          and the anchor has been valid before the new node is created",
     );
 
diff --git a/src/dynamic/hierarchy.rs b/src/dynamic/hierarchy.rs
index ebaabcd..3ec1c1e 100644
--- a/src/dynamic/hierarchy.rs
+++ b/src/dynamic/hierarchy.rs
@@ -49,12 +49,6 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
             .filter(|v| v.is_alive())
     }
 
-    /// Returns true if the ID is valid inside this forest.
-    #[must_use]
-    pub(crate) fn is_valid(&self, id: Id) -> bool {
-        id.to_usize() < self.neighbors.len()
-    }
-
     /// Returns true if the node is alive.
     #[must_use]
     pub(crate) fn is_alive(&self, id: Id) -> bool {
-- 
2.43.0


From b649cf26c27b1205cb34ac21dcbdffeeb4602dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 4/9] fix: keep node data and hierarchy in step when an
 allocation fails

When handle_alloc_error unwinds (no_std, or an allocation error hook), a
failure to grow the data storage after the hierarchy had grown shifted the
data of every node created later.
---
 src/dynamic/forest.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dynamic/forest.rs b/src/dynamic/forest.rs
index 62c7cdb..513d8d5 100644
--- a/src/dynamic/forest.rs
+++ b/src/dynamic/forest.rs
@@ -332,6 +332,9 @@ impl<Id: NodeId, T> Forest<Id, T> {
     /// ```
     #[must_use = "newly created node cannot be accessed without the returned node ID"]
     pub fn create_root(&mut self, data: T) -> Id {
+        // Allocate beforehand, so that a failure cannot let `data` and
+        // `hierarchy` have different lengths.
+        self.data.reserve(1);
         let new_id = self.hierarchy.create_root();
         assert_eq!(
             self.data.len(),
@@ -1942,6 +1945,9 @@ fn create_insert_momo<Id: InternalNodeId, T>(
             "[precondition] the anchor must have a parent to have siblings"
         );
     }
+    // Allocate beforehand, so that a failure cannot let `storage` and
+    // `hierarchy` have different lengths.
+    storage.reserve(1);
     let new_id = hierarchy.create_root();
     storage.push(Some(data));
     // This insert must not fail since the destination is already tested.
-- 
2.43.0


From dc775d4b3a97a7b5db1b11ae2295d938f6cf13f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 5/9] fix: report use of a removed node as [precondition], not
 [consistency]

Cloning a removed node, and moving a chain builder whose current node was
removed through forest_mut(), are caller errors, but were reported as bugs of
the crate.
---
 src/dynamic/forest.rs               | 2 +-
 src/dynamic/forest/chain_builder.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamic/forest.rs b/src/dynamic/forest.rs
index 513d8d5..5a84d28 100644
--- a/src/dynamic/forest.rs
+++ b/src/dynamic/forest.rs
@@ -1714,7 +1714,7 @@ impl<Id: NodeId, T: Clone> Forest<Id, T> {
 
         let root_data = self
             .data(src_id)
-            .expect("[consistency] the node must be alive")
+            .expect("[precondition] the node must be alive")
             .clone();
         let root_id = self.create_root(root_data);
         add_mapping(src_id, root_id);
diff --git a/src/dynamic/forest/chain_builder.rs b/src/dynamic/forest/chain_builder.rs
index 26d54d2..018a210 100644
--- a/src/dynamic/forest/chain_builder.rs
+++ b/src/dynamic/forest/chain_builder.rs
@@ -219,7 +219,7 @@ impl<'a, Id: NodeId, T> ChainTreeBuilder<'a, Id, T> {
         let parent = self
             .forest
             .node(self.current)
-            .expect("[consistency] nodes in the tree must be alive")
+            .expect("[precondition] the current node must be alive")
             .parent_id()?;
         self.current = parent;
         Some(self)
@@ -234,7 +234,7 @@ impl<'a, Id: NodeId, T> ChainTreeBuilder<'a, Id, T> {
         let parent = self
             .forest
             .node(self.current)
-            .expect("[consistency] nodes in the tree must be alive")
+            .expect("[precondition] the current node must be alive")
             .parent_id()
             .expect("[precondition] the current node should not be the root");
         self.current = parent;
-- 
2.43.0


From 3daa528c760ef37f463141f1af65d3b439822b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 6/9] fix: debug printer indent no longer depends on how a node
 writes its lines

A node whose first line was written in the same write_str call as its line
break got the continuation-line spacing on the first line.
---
 src/dynamic/forest/debug_print.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/dynamic/forest/debug_print.rs b/src/dynamic/forest/debug_print.rs
index 4c88855..990cef0 100644
--- a/src/dynamic/forest/debug_print.rs
+++ b/src/dynamic/forest/debug_print.rs
@@ -160,12 +160,7 @@ impl fmt::Write for IndentWriter<'_, '_> {
             }
 
             let (line_end, ends_with_newline) = match s.find('\n') {
-                Some(pos) => {
-                    if let Some(level) = self.indents.last_mut() {
-                        level.is_first_line = false;
-                    }
-                    (pos + 1, true)
-                }
+                Some(pos) => (pos + 1, true),
                 None => (s.len(), false),
             };
             let content = &s[..line_end];
@@ -181,6 +176,10 @@ impl fmt::Write for IndentWriter<'_, '_> {
                 self.fmt.write_str(content)?;
 
                 self.line_state = if ends_with_newline {
+                    // Only after the indent of the line has been completed.
+                    if let Some(level) = self.indents.last_mut() {
+                        level.is_first_line = false;
+                    }
                     LineState::BeforeIndent
                 } else {
                     LineState::Content
-- 
2.43.0


From 568e09a937b33b627c10edb848ad246ce960dadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 7/9] fix: align continuation lines in debug printer

The whitespace-only part of an indent spanning two or more levels was
dropped, so the second and later lines of a node were indented less than its
first line.
---
 src/dynamic/forest/debug_print.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/dynamic/forest/debug_print.rs b/src/dynamic/forest/debug_print.rs
index 990cef0..e99c09a 100644
--- a/src/dynamic/forest/debug_print.rs
+++ b/src/dynamic/forest/debug_print.rs
@@ -122,12 +122,18 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
         }
     }
 
+    /// Returns the number of the indents up to the last one that has something
+    /// other than whitespaces.
+    fn visible_indents_len(&self) -> usize {
+        self.indents
+            .iter()
+            .rposition(|i| !i.is_all_whitespace())
+            .map_or(0, |pos| pos + 1)
+    }
+
     /// Writes the indent except for the trailing whitespaces.
     fn write_indent_partial(&mut self) -> fmt::Result {
-        let mut indents = &self.indents[..];
-        while indents.last().map_or(false, |i| i.is_all_whitespace()) {
-            indents = &indents[..(indents.len() - 1)];
-        }
+        let indents = &self.indents[..self.visible_indents_len()];
         if let Some(last) = indents.last() {
             for indent in &indents[..(indents.len() - 1)] {
                 self.fmt.write_str(indent.as_str())?;
@@ -141,8 +147,12 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
     /// Writes the rest of the indents which are partially written.
     fn complete_partial_indent(&mut self) -> fmt::Result {
         debug_assert_eq!(self.line_state, LineState::PartialIndent);
-        if let Some(indent) = self.indents.last() {
-            self.fmt.write_str(indent.as_str_trailing_spaces())?;
+        let (visible, whitespaces) = self.indents.split_at(self.visible_indents_len());
+        if let Some(last) = visible.last() {
+            self.fmt.write_str(last.as_str_trailing_spaces())?;
+        }
+        for indent in whitespaces {
+            self.fmt.write_str(indent.as_str())?;
         }
 
         Ok(())
-- 
2.43.0


From 841009f04b71f7d0ff06a7406bd3806014b72bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 8/9] fix: print nodes without text in debug printer

A node whose data is formatted to an empty string got no line, and the first
child of such a root was put on the line of the root.
---
 src/dynamic/forest/debug_print.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dynamic/forest/debug_print.rs b/src/dynamic/forest/debug_print.rs
index e99c09a..fe4f050 100644
--- a/src/dynamic/forest/debug_print.rs
+++ b/src/dynamic/forest/debug_print.rs
@@ -84,7 +84,8 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
     fn new(fmt: &'b mut fmt::Formatter<'a>) -> Self {
         Self {
             fmt,
-            line_state: LineState::BeforeIndent,
+            // The indent of the root item is empty and needs no writing.
+            line_state: LineState::PartialIndent,
             indents: Vec::new(),
         }
     }
@@ -106,6 +107,9 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
             is_last_item,
             is_first_line: true,
         });
+        // Write the indent now, since the item may write nothing.
+        self.write_indent_partial()?;
+        self.line_state = LineState::PartialIndent;
 
         Ok(())
     }
-- 
2.43.0


From 9eefd30b94bfb42f61a8d8b386c1a15ba8ee62af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:57 +0000
Subject: [PATCH 9/9] fix: removing a node that is not alive panics as
 documented

---
 src/dynamic/forest.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/dynamic/forest.rs b/src/dynamic/forest.rs
index 5a84d28..ac83746 100644
--- a/src/dynamic/forest.rs
+++ b/src/dynamic/forest.rs
@@ -776,9 +776,6 @@ impl<Id: NodeId, T> Forest<Id, T> {
             node: InternalId,
             mut f: F,
         ) {
-            if !hierarchy.is_alive(node) {
-                return;
-            }
             hierarchy.detach(node);
 
             let mut traverser = SafeModeDepthFirstTraverser::new(node, hierarchy);
@@ -891,9 +888,6 @@ impl<Id: NodeId, T> Forest<Id, T> {
             node: InternalId,
             mut f: F,
         ) {
-            if !hierarchy.is_alive(node) {
-                return;
-            }
             hierarchy.detach(node);
 
             let mut traverser = SafeModeDepthFirstTraverser::new(node, hierarchy);
-- 
2.43.0

