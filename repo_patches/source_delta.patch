From fbd464906a0f18c0195bbe73fa9071c461d9dc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 01/14] fix: deleting a missing key removed a neighbouring
 entry

---
 src/generic_impl/ord.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generic_impl/ord.rs b/src/generic_impl/ord.rs
index cd570fe..7d3f04e 100644
--- a/src/generic_impl/ord.rs
+++ b/src/generic_impl/ord.rs
@@ -77,6 +77,10 @@ impl<Key: Clone + Ord + Debug + 'static, Value: Clone + Debug + 'static> OrdTree
     #[inline(always)]
     pub fn delete(&mut self, key: &Key) -> Option<(Key, Value)> {
         let q = self.tree.query::<OrdTrait<Key, Value>>(key)?;
+        if !q.found {
+            return None;
+        }
+
         match self.tree.remove_leaf(q.cursor) {
             Some(v) => {
                 self.len -= 1;
-- 
2.43.0


From d39081af0e02ec210e171950a4463d4f0fe7f30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 02/14] fix: dropping an empty Drain panicked

---
 src/iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/iter.rs b/src/iter.rs
index e8314a9..09a810f 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -134,12 +134,16 @@ impl<'a, B: BTreeTrait> Drain<'a, B> {
 impl<'a, B: BTreeTrait> Drop for Drain<'a, B> {
     fn drop(&mut self) {
         self.ensure_finished();
+        let Some(store) = self.store.take() else {
+            // nothing to drain
+            return;
+        };
         let TempStore {
             start_path,
             end_path,
             leaf_before_drain_range,
             leaf_after_drain_range,
-        } = *self.store.take().unwrap();
+        } = *store;
         // the deepest internal node level
         let mut level = start_path.len() - 2;
         let mut deleted = Vec::new();
-- 
2.43.0


From 456e67e1704ba0a993592cc1e5cc3a7f62a44a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 03/14] fix: prepend to an empty tree left the root cache stale

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index d6f97d0..80d3dd0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2526,6 +2526,7 @@ impl<B: BTreeTrait> BTree<B> {
             let parent = self.in_nodes.get_mut(parent_idx.unwrap()).unwrap();
             let ans = data.arena;
             parent.children.push(data).unwrap();
+            self.recursive_update_cache(parent_idx, B::USE_DIFF, None);
             return Cursor {
                 leaf: ans.unwrap().into(),
                 offset: 0,
-- 
2.43.0


From b534fce72298775b0031f8d030e783f171a003c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 04/14] fix: Rope::clear kept a cursor into the discarded tree

---
 src/generic_impl/rope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generic_impl/rope.rs b/src/generic_impl/rope.rs
index e1c0c71..645dd6c 100644
--- a/src/generic_impl/rope.rs
+++ b/src/generic_impl/rope.rs
@@ -240,6 +240,7 @@ impl Rope {
     }
 
     pub fn clear(&mut self) {
+        self.cursor = None;
         self.tree.clear();
     }
 
-- 
2.43.0


From 60987c38267f96d97cb06f069786c0eab374f581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 05/14] fix: merge_adj reordered elements

---
 src/lib.rs | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 80d3dd0..d91ce57 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2734,28 +2734,15 @@ impl<B: BTreeTrait> BTree<B> {
 
 fn merge_adj<E: Mergeable + Debug>(data: &mut Vec<E>) {
     // Merge adjacent elements
-    let mut i = 0;
-    let last = data.len() - 1;
-    let mut to_delete_start = 0;
-    let mut del_len = 0;
-    while i < last {
-        if data[i].can_merge(&data[i + 1]) {
-            let (a, b) = arref::mut_twice(data.as_mut_slice(), i, i + 1).unwrap();
-            a.merge_right(b);
-            if del_len == 0 {
-                to_delete_start = i + 1;
-            }
-
-            data.swap(i + 1, to_delete_start + del_len);
-            del_len += 1;
-            i += 1;
+    let mut merged: Vec<E> = Vec::with_capacity(data.len());
+    for elem in data.drain(..) {
+        match merged.last_mut() {
+            Some(last) if last.can_merge(&elem) => last.merge_right(&elem),
+            _ => merged.push(elem),
         }
-        i += 1;
     }
 
-    if del_len > 0 {
-        data.drain(to_delete_start..to_delete_start + del_len);
-    }
+    *data = merged;
 }
 
 pub enum PreviousCache<'a, B: BTreeTrait> {
-- 
2.43.0


From 7a726c9dbf499645dcc4f5c9eef2af993e485c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 06/14] fix: bulk insertion into an empty tree panicked

---
 src/lib.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d91ce57..1ebd947 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -716,6 +716,7 @@ impl<B: BTreeTrait> BTree<B> {
             let (new_root, _) = self.create_subtrees_from_elem(data);
             self.in_nodes.remove(self.root.unwrap()).unwrap();
             self.root = new_root;
+            self.update_root_cache();
             return;
         }
 
@@ -754,7 +755,7 @@ impl<B: BTreeTrait> BTree<B> {
     fn create_subtrees_from_elem(&mut self, data: Vec<B::Elem>) -> (ArenaIndex, usize) {
         let mut height = 0;
         let mut nodes = Vec::with_capacity(data.len() / MAX_CHILDREN_NUM + 1);
-        for elem in data.into_iter().chunks(MAX_CHILDREN_NUM).into_iter() {
+        for elem in data.into_iter().chunks(MAX_CHILDREN_NUM - 2).into_iter() {
             let parent_index = self.in_nodes.insert(Node {
                 parent: None,
                 parent_slot: 0,
@@ -763,7 +764,7 @@ impl<B: BTreeTrait> BTree<B> {
 
             nodes.push(parent_index);
             let parent = self.in_nodes.get_mut(parent_index).unwrap();
-            for (i, elem) in elem.enumerate() {
+            for elem in elem {
                 let leaf = {
                     // alloc new leaf child
                     let elem_cache = B::get_elem_cache(&elem);
@@ -780,13 +781,13 @@ impl<B: BTreeTrait> BTree<B> {
                         cache: elem_cache,
                     }
                 };
-                parent.children[i] = leaf;
+                parent.children.push(leaf).unwrap();
             }
         }
 
         while nodes.len() > 1 {
             let mut new_nodes = Vec::with_capacity(nodes.len() / MAX_CHILDREN_NUM + 1);
-            for chunk in nodes.into_iter().chunks(MAX_CHILDREN_NUM).into_iter() {
+            for chunk in nodes.into_iter().chunks(MAX_CHILDREN_NUM - 2).into_iter() {
                 let parent_index = self.in_nodes.insert(Node {
                     parent: None,
                     parent_slot: 0,
@@ -800,10 +801,13 @@ impl<B: BTreeTrait> BTree<B> {
                     let child = child.unwrap();
                     let mut cache = B::Cache::default();
                     B::calc_cache_internal(&mut cache, &child.children);
-                    parent.children[i] = Child {
-                        arena: ArenaIndex::Internal(child_idx),
-                        cache,
-                    };
+                    parent
+                        .children
+                        .push(Child {
+                            arena: ArenaIndex::Internal(child_idx),
+                            cache,
+                        })
+                        .unwrap();
                     child.parent = Some(ArenaIndex::Internal(parent_index));
                     child.parent_slot = i as u8;
                 }
-- 
2.43.0


From 399344de51df75b71812bb80b0394d766ca283ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 07/14] fix: batch insertion merged into the wrong left
 neighbour

---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1ebd947..fbdfd99 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -597,7 +597,9 @@ impl<B: BTreeTrait> BTree<B> {
             .iter()
             .position(|x| x.arena.unwrap() == pos.leaf.0)
             .unwrap();
-        let left_neighbour = if leaf_slot == 0 {
+        let left_neighbour = if pos.offset > 0 {
+            Some(pos.leaf)
+        } else if leaf_slot == 0 {
             None
         } else {
             Some(parent.children[leaf_slot - 1].arena.unwrap().into())
@@ -741,7 +743,8 @@ impl<B: BTreeTrait> BTree<B> {
             inserted = i;
         }
 
-        let mut pos = new_pos.unwrap_or(cursor);
+        // the left neighbour may have grown, so `cursor.offset` may not be the end any more
+        let mut pos = new_pos.unwrap_or_else(|| self.end_cursor().unwrap());
         // TODO: PERF this can be optimized further
         for item in data.drain(inserted..).rev() {
             let (p, _) = self.insert_by_path(pos, item);
-- 
2.43.0


From 781e0f147323f10cfce74c5f7070802378509232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 08/14] fix: NodePath was too short for trees of 20 million
 leaves

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index fbdfd99..8231431 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -117,7 +117,7 @@ impl Idx {
     }
 }
 
-type NodePath = HeaplessVec<Idx, 10>;
+type NodePath = HeaplessVec<Idx, 16>;
 
 #[derive(Debug, Clone, PartialEq, Eq, Copy, Hash)]
 pub struct Cursor {
-- 
2.43.0


From 7e82819ea7fdcb03c24914f2398bfaab2eb44ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 09/14] fix: update_leaf left caches stale after removing the
 leaf

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8231431..0f29cb0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1319,6 +1319,9 @@ impl<B: BTreeTrait> BTree<B> {
             let slot = Self::get_leaf_slot(node_idx.0, parent);
             parent.children.remove(slot);
             let is_lack = parent.is_lack();
+
+            // The caches should not contain the removed leaf
+            self.recursive_update_cache(parent_idx, B::USE_DIFF, None);
             if is_lack {
                 self.handle_lack_recursively(parent_idx);
             }
-- 
2.43.0


From 52199510cfca426a319c864eeb696e5da4642add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 10/14] fix: iter_range(..) panicked on an empty tree

---
 src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0f29cb0..e1358d1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1731,16 +1731,20 @@ impl<B: BTreeTrait> BTree<B> {
         range: impl RangeBounds<Cursor>,
     ) -> impl Iterator<Item = ElemSlice<'_, B::Elem>> + '_ {
         let start = match range.start_bound() {
-            std::ops::Bound::Included(start) => *start,
+            std::ops::Bound::Included(start) => Some(*start),
             std::ops::Bound::Excluded(_) => unreachable!(),
-            std::ops::Bound::Unbounded => self.start_cursor().unwrap(),
+            std::ops::Bound::Unbounded => self.start_cursor(),
         };
         let (inclusive, end) = match range.end_bound() {
-            std::ops::Bound::Included(end) => (true, *end),
-            std::ops::Bound::Excluded(end) => (false, *end),
-            std::ops::Bound::Unbounded => (true, self.end_cursor().unwrap()),
+            std::ops::Bound::Included(end) => (true, Some(*end)),
+            std::ops::Bound::Excluded(end) => (false, Some(*end)),
+            std::ops::Bound::Unbounded => (true, self.end_cursor()),
         };
-        self._iter_range(start, end, inclusive)
+        // there is nothing to iterate over if the tree is empty
+        start
+            .zip(end)
+            .into_iter()
+            .flat_map(move |(start, end)| self._iter_range(start, end, inclusive))
     }
 
     fn _iter_range(
-- 
2.43.0


From 8405a25e3e90c908e4c165b623a6da7e76658494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 11/14] fix: depth panicked on an empty tree

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e1358d1..5affbb1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2727,7 +2727,10 @@ impl<B: BTreeTrait> BTree<B> {
         let mut node = self.in_nodes.get(index.unwrap_internal()).unwrap();
         loop {
             depth += 1;
-            index = node.children.first().unwrap().arena;
+            let Some(child) = node.children.first() else {
+                return depth;
+            };
+            index = child.arena;
             match index {
                 ArenaIndex::Leaf(_) => return depth,
                 ArenaIndex::Internal(index) => {
-- 
2.43.0


From 61586e4255650c518d258586f4b6dfa3aeb47405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 12/14] fix: update_leaf_by_search ignored misses above the
 leaf level

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5affbb1..de9e2b3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1128,6 +1128,7 @@ impl<B: BTreeTrait> BTree<B> {
         let mut path = NodePath::default();
         let mut node_idx = self.root;
         let mut child_arr_pos = 0;
+        let mut found = true;
         while let ArenaIndex::Internal(node_idx_inner) = node_idx {
             path.push(Idx {
                 arena: ArenaIndex::Internal(node_idx_inner),
@@ -1136,18 +1137,19 @@ impl<B: BTreeTrait> BTree<B> {
             .unwrap();
             let node = self.in_nodes.get(node_idx_inner).unwrap();
             let result = finder.find_node(q, &node.children);
+            found = found && result.found;
             child_arr_pos = result.index as u8;
             node_idx = node.children[result.index].arena;
         }
 
         let leaf = self.get_leaf_mut(node_idx);
-        let (offset, found) = finder.confirm_elem(q, &leaf.elem);
+        let (offset, leaf_found) = finder.confirm_elem(q, &leaf.elem);
         let ans = QueryResult {
             cursor: Cursor {
                 leaf: node_idx.unwrap_leaf().into(),
                 offset,
             },
-            found,
+            found: found && leaf_found,
         };
         let Some((diff, new_insert_1, new_insert_2)) = f(&mut leaf.elem, ans) else {
             return (Some(ans.cursor), splitted);
-- 
2.43.0


From 0f62611df25c35bfbbcf9cea85be53b07f4193ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:04 +0000
Subject: [PATCH 13/14] fix: shift_path_by_one_offset lost an offset when
 crossing into the next node

---
 src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index de9e2b3..ca52e94 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -843,7 +843,6 @@ impl<B: BTreeTrait> BTree<B> {
             if elem_slot_index == parent.children.len() {
                 if let Some(next) = self.next_same_level_in_node(ArenaIndex::Internal(parent_idx)) {
                     elem_slot_index = 0;
-                    path.offset = 0;
                     parent_idx = next.unwrap_internal();
                     parent = self.in_nodes.get(parent_idx).unwrap();
                 } else {
-- 
2.43.0


From d4b16476929df2c5c68ab3e54850a5574574fc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 14/14] fix: update_leaf left the summary of a replaced element
 stale

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ca52e94..3dbc233 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1271,7 +1271,7 @@ impl<B: BTreeTrait> BTree<B> {
         let mut splitted = SplittedLeaves::default();
         let node = self.leaf_nodes.get_mut(node_idx.0).unwrap();
         let mut parent_idx = node.parent();
-        let (need_update_cache, mut new_insert_1, mut new_insert_2) = f(&mut node.elem);
+        let (mut need_update_cache, mut new_insert_1, mut new_insert_2) = f(&mut node.elem);
         {
             // Normalize returned values
             //
@@ -1301,6 +1301,7 @@ impl<B: BTreeTrait> BTree<B> {
             if node.elem.can_remove() {
                 if let Some(new_1) = new_insert_1 {
                     node.elem = new_1;
+                    need_update_cache = true;
                     new_insert_1 = new_insert_2.take();
                 }
             }
-- 
2.43.0

