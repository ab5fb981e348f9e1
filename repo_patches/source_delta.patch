From 85a484cd20053fb1043a00bd86c2c2b6d7ccb448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 01/10] hook: cfg(kani) verification modules at the end of each
 source file

---
 src/base_node.rs  | 5 +++++
 src/lib.rs        | 7 +++++++
 src/lock.rs       | 5 +++++
 src/node_16.rs    | 5 +++++
 src/node_256.rs   | 5 +++++
 src/node_4.rs     | 5 +++++
 src/node_48.rs    | 5 +++++
 src/node_ptr.rs   | 5 +++++
 src/range_scan.rs | 5 +++++
 src/stats.rs      | 5 +++++
 src/tree.rs       | 5 +++++
 src/utils.rs      | 5 +++++
 12 files changed, 62 insertions(+)

diff --git a/src/base_node.rs b/src/base_node.rs
index 3b3c385..08fa42e 100644
--- a/src/base_node.rs
+++ b/src/base_node.rs
@@ -400,3 +400,8 @@ impl BaseNode {
         }
     }
 }
+
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("CONGEE_VERIF_DIR"), "/base_node.rs"));
+}
diff --git a/src/lib.rs b/src/lib.rs
index 619312b..1537fe2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,6 +2,8 @@
 #![allow(clippy::comparison_chain)]
 #![allow(clippy::len_without_is_empty)]
 #![cfg_attr(docsrs, feature(doc_cfg))]
+// `cfg(kani)` guards the verification hooks at the end of the modules.
+#![allow(unexpected_cfgs)]
 
 mod base_node;
 mod error;
@@ -472,3 +474,8 @@ where
         }
     }
 }
+
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("CONGEE_VERIF_DIR"), "/common.rs"));
+}
diff --git a/src/lock.rs b/src/lock.rs
index 6bab45c..3e4a297 100644
--- a/src/lock.rs
+++ b/src/lock.rs
@@ -169,3 +169,8 @@ impl Drop for WriteGuard<'_> {
             .fetch_add(0b10, Ordering::Release);
     }
 }
+
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("CONGEE_VERIF_DIR"), "/lock.rs"));
+}
diff --git a/src/node_16.rs b/src/node_16.rs
index d52ea4f..d9cb90b 100644
--- a/src/node_16.rs
+++ b/src/node_16.rs
@@ -146,3 +146,8 @@ impl Node for Node16 {
         Some(*child)
     }
 }
+
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("CONGEE_VERIF_DIR"), "/node_16.rs"));
+}
diff --git a/src/node_256.rs b/src/node_256.rs
index 646f3e3..a533e2b 100644
--- a/src/node_256.rs
+++ b/src/node_256.rs
@@ -125,3 +125,8 @@ impl Node for Node256 {
         }
     }
 }
+
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("CONGEE_VERIF_DIR"), "/node_256.rs"));
+}
diff --git a/src/node_4.rs b/src/node_4.rs
index bdfb735..c1d2967 100644
--- a/src/node_4.rs
+++ b/src/node_4.rs
@@ -128,3 +128,8 @@ impl Node for Node4 {
             .map(|(_, c)| *c)
     }
 }
+
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("CONGEE_VERIF_DIR"), "/node_4.rs"));
+}
diff --git a/src/node_48.rs b/src/node_48.rs
index 91b6133..367b479 100644
--- a/src/node_48.rs
+++ b/src/node_48.rs
@@ -124,3 +124,8 @@ impl Node for Node48 {
         }
     }
 }
+
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("CONGEE_VERIF_DIR"), "/node_48.rs"));
+}
diff --git a/src/node_ptr.rs b/src/node_ptr.rs
index 87e29e0..683f123 100644
--- a/src/node_ptr.rs
+++ b/src/node_ptr.rs
@@ -121,3 +121,8 @@ impl<N: Node> Drop for AllocatedNode<N> {
         }
     }
 }
+
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("CONGEE_VERIF_DIR"), "/node_ptr.rs"));
+}
diff --git a/src/range_scan.rs b/src/range_scan.rs
index 401a3c1..d38e8c9 100644
--- a/src/range_scan.rs
+++ b/src/range_scan.rs
@@ -395,3 +395,8 @@ impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
         PrefixCheckEqualsResult::BothMatch
     }
 }
+
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("CONGEE_VERIF_DIR"), "/range_scan.rs"));
+}
diff --git a/src/stats.rs b/src/stats.rs
index a4a0af9..3b27bbe 100644
--- a/src/stats.rs
+++ b/src/stats.rs
@@ -208,3 +208,8 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
         visitor.node_stats
     }
 }
+
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("CONGEE_VERIF_DIR"), "/stats.rs"));
+}
diff --git a/src/tree.rs b/src/tree.rs
index a25157f..082a97d 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -585,3 +585,8 @@ enum VisitingEntry<const K_LEN: usize> {
     SubNode(NonNull<BaseNode>),
     Payload(([u8; K_LEN], usize)),
 }
+
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("CONGEE_VERIF_DIR"), "/tree.rs"));
+}
diff --git a/src/utils.rs b/src/utils.rs
index 0770ce1..bf8eb21 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -231,3 +231,8 @@ pub(crate) mod leak_check {
         }
     }
 }
+
+#[cfg(kani)]
+pub(crate) mod verif {
+    include!(concat!(env!("CONGEE_VERIF_DIR"), "/utils.rs"));
+}
-- 
2.43.0


From caae51366b50a89bc259bfc43214f19a63a3aa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:15 +0000
Subject: [PATCH 02/10] hook: cfg(kani) recursion limit for stubbed harnesses

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 1537fe2..b96bfa9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4,6 +4,7 @@
 #![cfg_attr(docsrs, feature(doc_cfg))]
 // `cfg(kani)` guards the verification hooks at the end of the modules.
 #![allow(unexpected_cfgs)]
+#![cfg_attr(kani, recursion_limit = "1024")]
 
 mod base_node;
 mod error;
-- 
2.43.0


From b4740cdbb49d4bfa793a77b519364b8f207c8404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 03/10] hook: cfg(congee_verif) names the out-of-memory error
 for replay programs

---
 src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index b96bfa9..6e428e9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -476,6 +476,16 @@ where
     }
 }
 
+// Lets the replay programs of the verification implement `Allocator`.
+#[cfg(congee_verif)]
+pub mod verif_hooks {
+    pub use crate::error::OOMError;
+
+    pub fn oom_error() -> OOMError {
+        OOMError::new()
+    }
+}
+
 #[cfg(kani)]
 pub(crate) mod verif {
     include!(concat!(env!("CONGEE_VERIF_DIR"), "/common.rs"));
-- 
2.43.0


From bb99c6582a33d4a03bf9c062d8e701ba5118dfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 04/10] fix: give back the middle node when splitting a prefix
 runs out of memory

---
 src/tree.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 082a97d..f3e01f6 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -333,8 +333,21 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
                             .insert(k[next_level], NodePtr::from_payload(tid_func(None)));
                     } else {
                         // otherwise create a new node
-                        let mut single_new_node =
-                            BaseNode::make_node::<Node4>(&k[..k.len() - 1], &self.allocator)?;
+                        let mut single_new_node = match BaseNode::make_node::<Node4>(
+                            &k[..k.len() - 1],
+                            &self.allocator,
+                        ) {
+                            Ok(n) => n,
+                            Err(e) => {
+                                unsafe {
+                                    BaseNode::drop_node(
+                                        new_middle_node.into_non_null().cast(),
+                                        self.allocator.clone(),
+                                    );
+                                }
+                                return Err(e);
+                            }
+                        };
 
                         single_new_node
                             .as_mut()
-- 
2.43.0


From bc1c5b66352796dbbb742405d13f000ade67a785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 05/10] fix: is_empty holds again after all keys have been
 removed

---
 src/tree.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index f3e01f6..3004449 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -99,15 +99,13 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
 }
 
 impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
-    pub(crate) fn is_empty(&self, _guard: &Guard) -> bool {
-        loop {
-            if let Ok(node) = BaseNode::read_lock_root(self.root) {
-                let is_empty = node.as_ref().meta.count == 0;
-                if node.check_version().is_ok() {
-                    return is_empty;
-                }
-            }
-        }
+    pub(crate) fn is_empty(&self, guard: &Guard) -> bool {
+        // Removing the last key below an inner node leaves that node in place, so the number
+        // of children of the root does not tell; look for a key instead.
+        // The end of a range is exclusive, the largest key is looked up on its own.
+        let mut first = [([0; K_LEN], 0)];
+        self.get(&[u8::MAX; K_LEN], guard).is_none()
+            && self.range(&[u8::MIN; K_LEN], &[u8::MAX; K_LEN], &mut first, guard) == 0
     }
 
     #[inline]
-- 
2.43.0


From 53f27853315f4a303079cd6ce98c38291a5f6ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 06/10] fix: stats retries under concurrent writers and follows
 only validated children

---
 src/stats.rs | 31 +++++++++++++++++--------------
 src/tree.rs  |  4 +++-
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/stats.rs b/src/stats.rs
index 3b27bbe..7510ea3 100644
--- a/src/stats.rs
+++ b/src/stats.rs
@@ -126,14 +126,15 @@ struct StatsVisitor {
 
 impl<const K_LEN: usize> CongeeVisitor<K_LEN> for StatsVisitor {
     fn pre_visit_sub_node(&mut self, node: NonNull<BaseNode>, tree_level: usize) {
-        let node = BaseNode::read_lock(node).unwrap();
+        // the traversal holds a read lock on the node and validates it afterwards
+        let node = unsafe { node.as_ref() };
 
         self.node_stats
             .levels
             .entry(tree_level)
             .or_insert_with(|| LevelStats::new_level(tree_level));
 
-        match node.as_ref().get_type() {
+        match node.get_type() {
             crate::base_node::NodeType::N4 => {
                 self.node_stats
                     .levels
@@ -146,7 +147,7 @@ impl<const K_LEN: usize> CongeeVisitor<K_LEN> for StatsVisitor {
                     .get_mut(&tree_level)
                     .unwrap()
                     .n4
-                    .value_count += node.as_ref().value_count();
+                    .value_count += node.value_count();
             }
             crate::base_node::NodeType::N16 => {
                 self.node_stats
@@ -160,7 +161,7 @@ impl<const K_LEN: usize> CongeeVisitor<K_LEN> for StatsVisitor {
                     .get_mut(&tree_level)
                     .unwrap()
                     .n16
-                    .value_count += node.as_ref().value_count();
+                    .value_count += node.value_count();
             }
             crate::base_node::NodeType::N48 => {
                 self.node_stats
@@ -174,7 +175,7 @@ impl<const K_LEN: usize> CongeeVisitor<K_LEN> for StatsVisitor {
                     .get_mut(&tree_level)
                     .unwrap()
                     .n48
-                    .value_count += node.as_ref().value_count();
+                    .value_count += node.value_count();
             }
             crate::base_node::NodeType::N256 => {
                 self.node_stats
@@ -188,7 +189,7 @@ impl<const K_LEN: usize> CongeeVisitor<K_LEN> for StatsVisitor {
                     .get_mut(&tree_level)
                     .unwrap()
                     .n256
-                    .value_count += node.as_ref().value_count();
+                    .value_count += node.value_count();
             }
         }
     }
@@ -197,15 +198,17 @@ impl<const K_LEN: usize> CongeeVisitor<K_LEN> for StatsVisitor {
 impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
     /// Returns the node stats for the tree.
     pub fn stats(&self) -> NodeStats {
-        let mut visitor = StatsVisitor {
-            node_stats: NodeStats::default(),
-        };
-
-        self.dfs_visitor_slow(&mut visitor).unwrap();
         let pin = crossbeam_epoch::pin();
-        visitor.node_stats.kv_pairs = self.value_count(&pin);
-
-        visitor.node_stats
+        loop {
+            let mut visitor = StatsVisitor {
+                node_stats: NodeStats::default(),
+            };
+
+            if self.dfs_visitor_slow(&mut visitor).is_ok() {
+                visitor.node_stats.kv_pairs = self.value_count(&pin);
+                return visitor.node_stats;
+            }
+        }
     }
 }
 
diff --git a/src/tree.rs b/src/tree.rs
index 3004449..c311918 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -179,10 +179,12 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
                 visitor.visit_payload(k, v);
             }
             VisitingEntry::SubNode(node_ptr) => {
-                visitor.pre_visit_sub_node(node_ptr, tree_level);
                 let node_lock = BaseNode::read_lock(node_ptr)?;
+                visitor.pre_visit_sub_node(node_ptr, tree_level);
                 let children = node_lock.as_ref().get_children(0, 255);
                 for (k, child_ptr) in children {
+                    // a child may only be followed if a writer did not touch the node meanwhile
+                    node_lock.check_version()?;
                     let next = match child_ptr.downcast::<K_LEN>(node_lock.as_ref().prefix().len())
                     {
                         PtrType::Payload(tid) => {
-- 
2.43.0


From d6f887b8a3ed7d9704c8b531c8ba2e4159d476d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 07/10] fix: the default allocator reports exhausted memory
 instead of panicking

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6e428e9..6c7abc2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -64,7 +64,7 @@ impl Allocator for DefaultAllocator {
     fn allocate(&self, layout: std::alloc::Layout) -> Result<std::ptr::NonNull<[u8]>, OOMError> {
         let ptr = unsafe { std::alloc::alloc(layout) };
         let ptr_slice = std::ptr::slice_from_raw_parts_mut(ptr, layout.size());
-        Ok(std::ptr::NonNull::new(ptr_slice).unwrap())
+        std::ptr::NonNull::new(ptr_slice).ok_or_else(OOMError::new)
     }
 
     unsafe fn deallocate(&self, ptr: std::ptr::NonNull<u8>, layout: std::alloc::Layout) {
-- 
2.43.0


From 5e0a485422f45faa418115128b43e3f4c49c35e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 08/10] fix: a range scan validates a node after its last
 child, too

A scan that came to the end of a node's children returned without checking
that the node had not changed meanwhile.  When a concurrent removal moves the
children of a small node down by one place, the iteration can step over a key
that is stored all along, and the scan missed it.
---
 src/range_scan.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/range_scan.rs b/src/range_scan.rs
index d38e8c9..4ddfad5 100644
--- a/src/range_scan.rs
+++ b/src/range_scan.rs
@@ -106,13 +106,16 @@ impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
                                 return Ok(self.result_found);
                             }
                         }
+                        // that there are no more children has been read from the node, too
+                        node.check_version()?;
                     } else {
-                        let next_node_tmp = if let Some(n) = node.as_ref().get_child(start_level) {
+                        let next_node_tmp = node.as_ref().get_child(start_level);
+                        node.check_version()?;
+                        let next_node_tmp = if let Some(n) = next_node_tmp {
                             n
                         } else {
                             return Ok(0);
                         };
-                        node.check_version()?;
 
                         if key_tracker.len() == (K_LEN - 1) {
                             self.copy_node_recursive(next_node_tmp, &key_tracker)?;
@@ -193,6 +196,7 @@ impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
                         break;
                     }
                 }
+                node.check_version()?;
                 Ok(())
             }
             cmp::Ordering::Less => {
@@ -251,6 +255,7 @@ impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
                         break;
                     }
                 }
+                node.check_version()?;
                 Ok(())
             }
             cmp::Ordering::Less => Ok(()),
@@ -299,6 +304,7 @@ impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
 
                     key_tracker.pop();
                 }
+                node.check_version()?;
             }
         };
 
-- 
2.43.0


From b741f7f6f86952e1564e38751b2bafd791b7f997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 09/10] fix: a lookup in a 48-way node reads the slot index
 once

It was compared with the empty marker and then read again, so that a removal in between
made the optimistic reader index out of bounds.
---
 src/node_48.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/node_48.rs b/src/node_48.rs
index 367b479..0b7a30f 100644
--- a/src/node_48.rs
+++ b/src/node_48.rs
@@ -115,11 +115,12 @@ impl Node for Node48 {
     }
 
     fn get_child(&self, key: u8) -> Option<NodePtr> {
-        let pos = unsafe { self.child_idx.get_unchecked(key as usize) };
-        if *pos == EMPTY_MARKER {
+        // read the slot once: a concurrent removal may empty it after the comparison
+        let pos = unsafe { *self.child_idx.get_unchecked(key as usize) };
+        if pos == EMPTY_MARKER {
             None
         } else {
-            let child = unsafe { self.children.get_unchecked(*pos as usize) };
+            let child = unsafe { self.children.get_unchecked(pos as usize) };
             Some(*child)
         }
     }
-- 
2.43.0


From bcebae62591f952f172721419e9d8cc24788c4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 10/10] fix: a scan of a 16-way node reads the number of
 children once

It was compared with zero and then read again, so that the removal of the last child in between
made the optimistic reader overflow (a panic in debug builds).
---
 src/node_16.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/node_16.rs b/src/node_16.rs
index d9cb90b..aff70a4 100644
--- a/src/node_16.rs
+++ b/src/node_16.rs
@@ -65,7 +65,9 @@ impl Node for Node16 {
     }
 
     fn get_children(&self, start: u8, end: u8) -> NodeIter {
-        if self.base.meta.count == 0 {
+        // read the count once: a concurrent removal may empty the node after the comparison
+        let count = self.base.meta.count as usize;
+        if count == 0 {
             // FIXME: the node may be empty due to deletion, this is not intended, we should fix the delete logic
             return NodeIter::N16(Node16Iter {
                 node: self,
@@ -74,9 +76,7 @@ impl Node for Node16 {
             });
         }
         let start_pos = self.get_child_pos(start).unwrap_or(0);
-        let end_pos = self
-            .get_child_pos(end)
-            .unwrap_or(self.base.meta.count as usize - 1);
+        let end_pos = self.get_child_pos(end).unwrap_or(count - 1);
 
         debug_assert!(end_pos < 16);
 
-- 
2.43.0

