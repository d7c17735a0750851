From 44571d792a34166be070ae1a0aed601b5f3834ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:36 +0000
Subject: [PATCH 01/34] fix: skiplist difference dereferenced an exhausted
 right operand

When the right map ran out before the left one, map_difference advanced the
(null) right cursor instead of the left one.
---
 src/skiplist/map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index f191732..be70f34 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -798,8 +798,8 @@ impl<T, U> SkipMap<T, U> {
                         }
                     }
                     (false, true) => {
-                        let next_right_node = *(*right.head).get_pointer(0);
-                        next_node = mem::replace(&mut right.head, next_right_node);
+                        let next_left_node = *(*left.head).get_pointer(0);
+                        next_node = mem::replace(&mut left.head, next_left_node);
                     }
                 }
                 ret.len += 1;
-- 
2.43.0


From 599472dbcde4d593e8a7bb1955e43ad9e0d7e357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:36 +0000
Subject: [PATCH 02/34] fix: skiplist intersection wrote one link past the end
 of a node

---
 src/skiplist/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index be70f34..7659349 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -729,7 +729,7 @@ impl<T, U> SkipMap<T, U> {
                 );
 
                 let links_len = (*next_node).links_len;
-                for (i, curr_node) in curr_nodes.iter_mut().enumerate().take(links_len + 1) {
+                for (i, curr_node) in curr_nodes.iter_mut().enumerate().take(links_len) {
                     *(**curr_node).get_pointer_mut(i) = next_node;
                     *curr_node = next_node;
                 }
-- 
2.43.0


From 01eaf309117354f17f2f12111b2d1471505f215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:36 +0000
Subject: [PATCH 03/34] fix: skiplist owning iterators dropped unconsumed
 elements twice

Node::free already drops the element before releasing the node.
---
 src/skiplist/list.rs | 1 -
 src/skiplist/map.rs  | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 8689be6..fcbffe1 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -576,7 +576,6 @@ impl<T> Drop for SkipListIntoIter<T> {
     fn drop(&mut self) {
         unsafe {
             while !self.current.is_null() {
-                ptr::drop_in_place(&mut (*self.current).value);
                 let next_node = (*self.current).get_pointer(0).next;
                 Node::free(mem::replace(&mut self.current, next_node));
             }
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 7659349..5c3ad07 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -1018,7 +1018,6 @@ impl<T, U> Drop for SkipMapIntoIter<T, U> {
     fn drop(&mut self) {
         unsafe {
             while !self.current.is_null() {
-                ptr::drop_in_place(&mut (*self.current).entry);
                 let next_node = *(*self.current).get_pointer(0);
                 Node::free(mem::replace(&mut self.current, next_node));
             }
-- 
2.43.0


From 29c309ee64602f00138b2015b2c9bad6f8f4889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:36 +0000
Subject: [PATCH 04/34] fix: skiplist list removal left stale distances on
 trailing links

Trailing links count the elements up to the end of the list (insert maintains
them and concatenation relies on them), but remove did not decrement them.
---
 src/skiplist/list.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index fcbffe1..80815e5 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -228,6 +228,8 @@ impl<T> SkipList<T> {
                     } else {
                         next_link.distance -= 1;
                     }
+                } else {
+                    next_link.distance -= 1;
                 }
 
                 curr_height -= 1;
-- 
2.43.0


From bcb8be8e8ef2232be7f782923e16897d85ece5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:49 +0000
Subject: [PATCH 05/34] fix: stack dropped popped values a second time when
 reclaiming nodes

try_pop moves the value out of the node and later reclaims the node, whose
destructor dropped the already moved-out value again.
---
 src/sync/stack.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sync/stack.rs b/src/sync/stack.rs
index 6570afa..eb86025 100644
--- a/src/sync/stack.rs
+++ b/src/sync/stack.rs
@@ -1,9 +1,10 @@
 use crossbeam_epoch::{self, Atomic, Owned};
+use std::mem::ManuallyDrop;
 use std::ptr;
 use std::sync::atomic::{AtomicUsize, Ordering};
 
 struct Node<T> {
-    value: T,
+    value: ManuallyDrop<T>,
     next: Atomic<Node<T>>,
 }
 
@@ -61,7 +62,7 @@ impl<T> Stack<T> {
     /// ```
     pub fn push(&self, value: T) {
         let mut new_node = Owned::new(Node {
-            value,
+            value: ManuallyDrop::new(value),
             next: Atomic::null(),
         });
 
@@ -112,7 +113,7 @@ impl<T> Stack<T> {
                         unsafe {
                             self.len.fetch_sub(1, Ordering::Release);
                             guard.defer(move || head_shared.into_owned());
-                            return Some(ptr::read(&(*head).value));
+                            return Some(ptr::read(&*head.value));
                         }
                     }
                 }
-- 
2.43.0


From 250dab4f05ce7f0a35a5fcbb5f658b4b1e3af7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:07 +0000
Subject: [PATCH 06/34] fix: stack leaked the elements it still held when
 dropped

---
 src/sync/stack.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sync/stack.rs b/src/sync/stack.rs
index eb86025..a8ea4b7 100644
--- a/src/sync/stack.rs
+++ b/src/sync/stack.rs
@@ -157,6 +157,12 @@ impl<T> Stack<T> {
     }
 }
 
+impl<T> Drop for Stack<T> {
+    fn drop(&mut self) {
+        while self.try_pop().is_some() {}
+    }
+}
+
 impl<T> Default for Stack<T> {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 853f8587494a9d3b4496ea1e19c863400af749d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:07 +0000
Subject: [PATCH 07/34] fix: stack length could wrap below zero under
 concurrency

A pop could subtract an element from the length before the push of that same
element had added it.
---
 src/sync/stack.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sync/stack.rs b/src/sync/stack.rs
index a8ea4b7..9b4e45d 100644
--- a/src/sync/stack.rs
+++ b/src/sync/stack.rs
@@ -67,6 +67,8 @@ impl<T> Stack<T> {
         });
 
         let guard = &crossbeam_epoch::pin();
+        // Count the element before it can be popped, so that the length never wraps below zero.
+        self.len.fetch_add(1, Ordering::Release);
         loop {
             let head_shared = self.head.load(Ordering::Relaxed, guard);
             new_node.next.store(head_shared, Ordering::Relaxed);
@@ -74,10 +76,7 @@ impl<T> Stack<T> {
                 .head
                 .compare_and_set(head_shared, new_node, Ordering::Release, guard)
             {
-                Ok(_) => {
-                    self.len.fetch_add(1, Ordering::Release);
-                    break;
-                }
+                Ok(_) => break,
                 Err(e) => new_node = e.new,
             }
         }
-- 
2.43.0


From 52a05e31ae4dea783cd9d317a51d06f00333a67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:07 +0000
Subject: [PATCH 08/34] fix: radix insert panicked after the tree had been
 emptied by removals

---
 src/radix/tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/radix/tree.rs b/src/radix/tree.rs
index 980fefd..4c843d3 100644
--- a/src/radix/tree.rs
+++ b/src/radix/tree.rs
@@ -5,7 +5,8 @@ use std::mem;
 pub type Tree<T> = Option<Box<Node<T>>>;
 
 pub fn insert<T>(tree: &mut Tree<T>, mut key: &[u8], value: T) -> Option<T> {
-    let node = tree.as_mut().expect("Expected non-empty tree.");
+    // The root is vacated when the last key is removed.
+    let node = tree.get_or_insert_with(|| Box::new(Node::new(Vec::new(), None)));
     let split_index = node
         .key
         .iter()
-- 
2.43.0


From a2e1542f60186105be544bd3da87744102e3b4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:30 +0000
Subject: [PATCH 09/34] fix: radix longest-prefix lookup missed or
 over-reported keys

The lookup returned only the key stored at the divergence point when the next
byte had no branch, instead of every key sharing that prefix, and returned
every key when nothing matched but the root had been merged with its child.
---
 src/radix/tree.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/radix/tree.rs b/src/radix/tree.rs
index 4c843d3..a0bcd89 100644
--- a/src/radix/tree.rs
+++ b/src/radix/tree.rs
@@ -147,6 +147,7 @@ pub fn get_longest_prefix<T>(
         .zip(key[index..].iter())
         .position(|pair| pair.0 != pair.1);
     match split_index {
+        Some(split_index) if index + split_index == 0 => {}
         Some(_) => {
             if node.value.is_some() {
                 keys.push(curr_key.clone());
@@ -161,7 +162,10 @@ pub fn get_longest_prefix<T>(
                     Some(_) => get_longest_prefix(next_child, key, index, curr_key, keys),
                     None => {
                         if node.value.is_some() {
-                            keys.push(curr_key)
+                            keys.push(curr_key.clone());
+                        }
+                        if index > 0 {
+                            node.push_all_children(curr_key, keys);
                         }
                     }
                 }
-- 
2.43.0


From 5781586234c6624d462b639e5f62c96738d9fccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:41 +0000
Subject: [PATCH 10/34] fix: avl removal left the path to the successor
 unbalanced

Detaching the minimum of the right subtree updated neither heights nor balance
on the way back up, so the tree lost its height bound.
---
 src/avl_tree/tree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avl_tree/tree.rs b/src/avl_tree/tree.rs
index 9809776..8e4bf1b 100644
--- a/src/avl_tree/tree.rs
+++ b/src/avl_tree/tree.rs
@@ -44,7 +44,9 @@ fn balance<T, U>(tree: &mut Tree<T, U>) {
 fn remove_min<T, U>(tree: &mut Tree<T, U>) -> Box<Node<T, U>> {
     if let Some(ref mut node) = tree {
         if node.left.is_some() {
-            return remove_min(&mut node.left);
+            let ret = remove_min(&mut node.left);
+            balance(tree);
+            return ret;
         }
     }
 
-- 
2.43.0


From 1c52b94f6ca427ae4c7c6ddbb517ce57e4bbc61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:40 +0000
Subject: [PATCH 11/34] fix: bp_tree lost entries when overwriting a key in a
 full leaf

A full leaf started moving entries to a new node before noticing that the key
already existed, and the moved entries were then dropped.
---
 src/bp_tree/node.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bp_tree/node.rs b/src/bp_tree/node.rs
index e4f79b1..c3e1748 100644
--- a/src/bp_tree/node.rs
+++ b/src/bp_tree/node.rs
@@ -247,6 +247,12 @@ impl<T, U> LeafNode<T, U> {
         }
         // node is full; have to split
         else {
+            // an existing key is replaced in place and does not need a split
+            if let Some(index) = self.search(&new_entry.key) {
+                return self.entries[index]
+                    .replace(new_entry)
+                    .map(InsertCases::Entry);
+            }
             let mut split_node = LeafNode::new(leaf_degree);
             for index in 0..leaf_degree {
                 if let Some(ref mut entry) = self.entries[index] {
-- 
2.43.0


From 3c94f13c32976c5feb17ae46dc3f119c54f1869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:02 +0000
Subject: [PATCH 12/34] fix: bp_tree pages were too small for keys and values
 with niches

The page size was derived from the in-memory size of Option<T>, which is zero
for types such as String, while the encoding always spends a tag byte, so a
full node of maximum-size entries overflowed into the next page.
---
 src/bp_tree/node.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/bp_tree/node.rs b/src/bp_tree/node.rs
index c3e1748..cc71b89 100644
--- a/src/bp_tree/node.rs
+++ b/src/bp_tree/node.rs
@@ -377,10 +377,17 @@ impl<T, U> Node<T, U> {
         leaf_degree: usize,
         internal_degree: usize,
     ) -> u64 {
-        cmp::max(
+        let size = cmp::max(
             LeafNode::<T, U>::get_max_size(leaf_degree, key_size, value_size),
             InternalNode::<T, U>::get_max_size(internal_degree, key_size),
-        )
+        );
+        // The sizes above underestimate the encoded size when the in-memory tag of an `Option` is
+        // smaller than its encoded tag (1 byte). The enum tag is encoded as u32 (4 bytes).
+        let leaf_encoded_size =
+            4 + U64_SIZE * 2 + (1 + U64_SIZE) + leaf_degree as u64 * (1 + key_size + value_size);
+        let internal_encoded_size =
+            4 + U64_SIZE * 4 + internal_degree as u64 * (1 + key_size + U64_SIZE);
+        cmp::max(size, cmp::max(leaf_encoded_size, internal_encoded_size))
     }
 }
 
-- 
2.43.0


From 5b34051953ec5ae3946d0ca3dee87479dcafe0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:26 +0000
Subject: [PATCH 13/34] fix: bp_tree with two keys per internal node kept nodes
 without keys

The minimum number of children rounded down to one, so an internal node could
lose all its keys and the next removal below it read an unrelated page as its
sibling.
---
 src/bp_tree/map.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bp_tree/map.rs b/src/bp_tree/map.rs
index 80e2f8a..f7596e8 100644
--- a/src/bp_tree/map.rs
+++ b/src/bp_tree/map.rs
@@ -4,6 +4,7 @@ use crate::entry::Entry;
 use serde::de::DeserializeOwned;
 use serde::ser::Serialize;
 use std::borrow::Borrow;
+use std::cmp;
 use std::mem;
 use std::path::Path;
 
@@ -376,7 +377,9 @@ impl<T, U> BpMap<T, U> {
             delete_entry = None;
             curr_node.remove_at(delete_index, true);
 
-            let is_underflow = curr_node.len + 1 < (self.pager.get_internal_degree() + 1) / 2;
+            // an internal node always needs two children to have a sibling to borrow from
+            let min_children = cmp::max((self.pager.get_internal_degree() + 1) / 2, 2);
+            let is_underflow = curr_node.len + 1 < min_children;
             if is_underflow {
                 if let Some((parent_page, parent_node, curr_index)) = stack.pop() {
                     let mut parent_node = {
@@ -400,7 +403,7 @@ impl<T, U> BpMap<T, U> {
                         }
                     };
 
-                    if sibling_node.len + 1 == (self.pager.get_internal_degree() + 1) / 2 {
+                    if sibling_node.len + 1 == min_children {
                         if sibling_index == curr_index + 1 {
                             let parent_key = parent_node.keys[curr_index]
                                 .clone()
-- 
2.43.0


From ecbdae493e44edbb1b8f54418e5eba68059b9db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:16 +0000
Subject: [PATCH 14/34] fix: lsm min and max ignored entries hidden by the
 in-memory tree

A key removed in memory but still present on disk was reported. Flush first,
as len and iter do.
---
 src/lsm_tree/map.rs | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/src/lsm_tree/map.rs b/src/lsm_tree/map.rs
index a5a38d0..b013b43 100644
--- a/src/lsm_tree/map.rs
+++ b/src/lsm_tree/map.rs
@@ -4,7 +4,6 @@ use bincode::serialized_size;
 use serde::de::DeserializeOwned;
 use serde::ser::Serialize;
 use std::borrow::Borrow;
-use std::cmp;
 use std::collections::BTreeMap;
 use std::hash::Hash;
 use std::mem;
@@ -401,20 +400,8 @@ where
     /// # foo().unwrap();
     /// ```
     pub fn min(&mut self) -> Result<Option<T>> {
-        let in_memory_min = self
-            .in_memory_tree
-            .iter()
-            .find(|entry| entry.1.data.is_some())
-            .map(|entry| entry.0.clone());
-        let disk_min = self.compaction_strategy.min()?;
-
-        if in_memory_min.is_none() {
-            Ok(disk_min)
-        } else if disk_min.is_none() {
-            Ok(in_memory_min)
-        } else {
-            Ok(cmp::min(in_memory_min, disk_min))
-        }
+        self.flush()?;
+        self.compaction_strategy.min()
     }
 
     /// Returns the maximum key of the map. Returns `None` if the map is empty.
@@ -440,14 +427,8 @@ where
     /// # foo().unwrap();
     /// ```
     pub fn max(&mut self) -> Result<Option<T>> {
-        Ok(cmp::max(
-            self.in_memory_tree
-                .iter()
-                .rev()
-                .find(|entry| entry.1.data.is_some())
-                .map(|entry| entry.0.clone()),
-            self.compaction_strategy.max()?,
-        ))
+        self.flush()?;
+        self.compaction_strategy.max()
     }
 
     /// Flushes the in-memory tree into a SSTable if it is not empty. The map must be flushed
-- 
2.43.0


From f8d0c9081326a8c1fffc885715beed7eeecd4a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:17 +0000
Subject: [PATCH 15/34] fix: lsm store could not be opened before its first
 write

The logical time file stayed empty until the first operation, and open failed
to read it.
---
 src/lsm_tree/compaction/leveled.rs     | 2 ++
 src/lsm_tree/compaction/size_tiered.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index ac7bd62..1bad9db 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -190,6 +190,8 @@ where
             ret.metadata_file.seek(SeekFrom::Start(0))?;
             ret.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
         }
+        ret.logical_time_file
+            .write_u64::<BigEndian>(ret.curr_logical_time)?;
 
         Ok(ret)
     }
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index bd44d8d..c9614da 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -244,6 +244,8 @@ impl<T, U> SizeTieredStrategy<T, U> {
             ret.metadata_file.seek(SeekFrom::Start(0))?;
             ret.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
         }
+        ret.logical_time_file
+            .write_u64::<BigEndian>(ret.curr_logical_time)?;
 
         Ok(ret)
     }
-- 
2.43.0


From c4ec0e9cf71e54c2e6ee16191a5d6aed855a66d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:56 +0000
Subject: [PATCH 16/34] fix: size-tiered compaction could bring a removed key
 back

When a compaction purged its newest tombstones, a stale table could look newer
than the compaction result and was kept, while the table holding the tombstone
that hid one of its entries was dropped. Keep exactly the tables flushed after
the compaction snapshot was taken.
---
 src/lsm_tree/compaction/size_tiered.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index c9614da..f287aa1 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -176,6 +176,8 @@ pub struct SizeTieredStrategy<T, U> {
     metadata_file: fs::File,
     curr_metadata: Arc<Mutex<SizeTieredMetadata<T, U>>>,
     next_metadata: Arc<Mutex<Option<SizeTieredMetadata<T, U>>>>,
+    // newest logical time that the last spawned compaction started from
+    snapshot_logical_time: Option<u64>,
 }
 
 impl<T, U> SizeTieredStrategy<T, U> {
@@ -237,6 +239,7 @@ impl<T, U> SizeTieredStrategy<T, U> {
                 bucket_high,
             ))),
             next_metadata: Arc::new(Mutex::new(None)),
+            snapshot_logical_time: None,
         };
 
         {
@@ -293,6 +296,7 @@ impl<T, U> SizeTieredStrategy<T, U> {
             metadata_file,
             curr_metadata: Arc::new(Mutex::new(deserialize(&buffer)?)),
             next_metadata: Arc::new(Mutex::new(None)),
+            snapshot_logical_time: None,
         })
     }
 
@@ -329,6 +333,11 @@ impl<T, U> SizeTieredStrategy<T, U> {
         let path = self.path.clone();
         let next_metadata = self.next_metadata.clone();
         let is_compacting = self.is_compacting.clone();
+        self.snapshot_logical_time = metadata_snapshot
+            .sstables
+            .iter()
+            .map(|sstable| sstable.summary.logical_time_range.1)
+            .max();
         self.is_compacting.store(true, Ordering::Release);
         self.compaction_thread_join_handle = Some(thread::spawn(move || {
             let compaction_result = SizeTieredStrategy::compact(
@@ -356,11 +365,8 @@ impl<T, U> SizeTieredStrategy<T, U> {
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
         if let Some(next_metadata) = next_metadata.take() {
-            let logical_time_opt = next_metadata
-                .sstables
-                .iter()
-                .map(|sstable| sstable.summary.logical_time_range.1)
-                .max();
+            // SSTables flushed after the snapshot was taken are not part of the compaction
+            let logical_time_opt = self.snapshot_logical_time;
             let old_sstables = mem::replace(&mut curr_metadata.sstables, next_metadata.sstables);
             curr_metadata.sstables.extend(
                 old_sstables
-- 
2.43.0


From 67b5321727988ea54d6889ed53e858404d0fd61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:18 +0000
Subject: [PATCH 17/34] fix: lsm stores could not be reopened after a crash
 during cleanup

Old SSTables were removed before the metadata stopped referring to them, so a
process killed in between left a store that open rejects.
---
 src/lsm_tree/compaction/leveled.rs     | 18 ++++++++++++++----
 src/lsm_tree/compaction/size_tiered.rs | 18 ++++++++++++++----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 1bad9db..8722bb7 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -245,7 +245,11 @@ where
     fn try_replace_metadata(
         &self,
         curr_metadata: &mut MutexGuard<'_, LeveledMetadata<T, U>>,
-    ) -> Result<bool> {
+    ) -> Result<bool>
+    where
+        T: Serialize,
+        U: Serialize,
+    {
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
         if let Some(next_metadata) = next_metadata.take() {
@@ -281,6 +285,11 @@ where
                 .iter()
                 .flat_map(|level| level.iter().map(|level_entry| &level_entry.1.path));
 
+            // the metadata must stop referring to the old SSTables before they are removed
+            let mut metadata_file = &self.metadata_file;
+            metadata_file.seek(SeekFrom::Start(0))?;
+            metadata_file.write_all(&serialize(&**curr_metadata)?)?;
+
             for path in old_path_iter.chain(old_level_path_iter) {
                 if !new_sstable_paths.contains(path) {
                     fs::remove_dir_all(path)?;
@@ -614,6 +623,10 @@ where
         curr_metadata.levels.clear();
         *next_metadata = None;
 
+        // the metadata must stop referring to the SSTables before they are removed
+        self.metadata_file.seek(SeekFrom::Start(0))?;
+        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+
         for dir_entry in fs::read_dir(self.path.as_path())? {
             let dir_path = dir_entry?.path();
             if dir_path.is_dir() {
@@ -621,9 +634,6 @@ where
             }
         }
 
-        self.metadata_file.seek(SeekFrom::Start(0))?;
-        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-
         Ok(())
     }
 
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index f287aa1..13b7859 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -361,7 +361,11 @@ impl<T, U> SizeTieredStrategy<T, U> {
     fn try_replace_metadata(
         &self,
         curr_metadata: &mut MutexGuard<'_, SizeTieredMetadata<T, U>>,
-    ) -> Result<bool> {
+    ) -> Result<bool>
+    where
+        T: Serialize,
+        U: Serialize,
+    {
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
         if let Some(next_metadata) = next_metadata.take() {
@@ -378,6 +382,11 @@ impl<T, U> SizeTieredStrategy<T, U> {
             let new_sstable_iter = curr_metadata.sstables.iter().map(|sstable| &sstable.path);
             let new_sstable_paths: HashSet<&PathBuf> = HashSet::from_iter(new_sstable_iter);
 
+            // the metadata must stop referring to the old SSTables before they are removed
+            let mut metadata_file = &self.metadata_file;
+            metadata_file.seek(SeekFrom::Start(0))?;
+            metadata_file.write_all(&serialize(&**curr_metadata)?)?;
+
             for old_sstable in old_sstables {
                 if !new_sstable_paths.contains(&old_sstable.path) {
                     fs::remove_dir_all(old_sstable.path.as_path())?;
@@ -516,6 +525,10 @@ where
         curr_metadata.sstables.clear();
         *next_metadata = None;
 
+        // the metadata must stop referring to the SSTables before they are removed
+        self.metadata_file.seek(SeekFrom::Start(0))?;
+        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+
         for dir_entry in fs::read_dir(self.path.as_path())? {
             let dir_path = dir_entry?.path();
             if dir_path.is_dir() {
@@ -523,9 +536,6 @@ where
             }
         }
 
-        self.metadata_file.seek(SeekFrom::Start(0))?;
-        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-
         Ok(())
     }
 
-- 
2.43.0


From b6dc2097a54fcaf1701b1af2e518f5ce3ba4229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:42 +0000
Subject: [PATCH 18/34] fix: lsm compaction left empty SSTable directories
 behind

A builder that received no entries was never turned into an SSTable, but its
directory stayed on disk.
---
 src/lsm_tree/compaction/leveled.rs     | 7 +++++--
 src/lsm_tree/compaction/size_tiered.rs | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 8722bb7..66ed2c8 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -358,6 +358,8 @@ where
         if sstable_builder.key_range.is_some() {
             let new_sstable = Arc::new(SSTable::new(sstable_builder.flush()?)?);
             metadata_snapshot.insert_sstable(0, new_sstable);
+        } else {
+            fs::remove_dir_all(&sstable_builder.sstable_path)?;
         }
 
         // compacting L1 and onwards
@@ -388,13 +390,12 @@ where
                         .expect("Expected SSTable to remove to exist.")
                 };
 
-                let mut sstable_builder = SSTableBuilder::new(path.as_ref(), entry_count_hint)?;
-
                 if index + 1 == metadata_snapshot.levels.len() {
                     metadata_snapshot.insert_sstable(index + 1, sstable);
                     continue;
                 }
 
+                let mut sstable_builder = SSTableBuilder::new(path.as_ref(), entry_count_hint)?;
                 let sstable_data_iter = sstable.data_iter();
                 let level = mem::replace(&mut metadata_snapshot.levels[index + 1], BTreeMap::new());
                 let (old_level, new_level): (BTreeMap<_, _>, BTreeMap<_, _>) =
@@ -433,6 +434,8 @@ where
                 if sstable_builder.key_range.is_some() {
                     let new_sstable = Arc::new(SSTable::new(sstable_builder.flush()?)?);
                     metadata_snapshot.insert_sstable(index + 1, new_sstable);
+                } else {
+                    fs::remove_dir_all(&sstable_builder.sstable_path)?;
                 }
             }
         }
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 13b7859..669dade 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -145,6 +145,8 @@ impl<T, U> SizeTieredMetadata<T, U> {
 
         if sstable_builder.key_range.is_some() {
             self.push_sstable(Arc::new(SSTable::new(sstable_builder.flush()?)?));
+        } else {
+            fs::remove_dir_all(&sstable_builder.sstable_path)?;
         }
 
         Ok(())
-- 
2.43.0


From bdcc12a13b7c7cb0c1ee826d5ce543efcf93c1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:10 +0000
Subject: [PATCH 19/34] fix: splay trees overflowed the stack on long chains

Ascending insertions build a chain of any length; dropping, clearing, searching
or abandoning an owning iterator over it recursed once per node.
---
 src/splay_tree/map.rs  | 22 +++++++++++++---
 src/splay_tree/tree.rs | 60 +++++++++++++++++++++++++-----------------
 2 files changed, 55 insertions(+), 27 deletions(-)

diff --git a/src/splay_tree/map.rs b/src/splay_tree/map.rs
index caa7d40..a64f25a 100644
--- a/src/splay_tree/map.rs
+++ b/src/splay_tree/map.rs
@@ -216,7 +216,11 @@ impl<T, U> SplayMap<T, U> {
     /// assert_eq!(map.is_empty(), true);
     /// ```
     pub fn clear(&mut self) {
-        self.tree = None;
+        // a splay tree can degenerate into a long chain, so the nodes must not be dropped recursively
+        drop(SplayMapIntoIter {
+            current: self.tree.take(),
+            stack: Vec::new(),
+        });
         self.len = 0;
     }
 
@@ -357,13 +361,19 @@ impl<T, U> SplayMap<T, U> {
     }
 }
 
+impl<T, U> Drop for SplayMap<T, U> {
+    fn drop(&mut self) {
+        self.clear();
+    }
+}
+
 impl<T, U> IntoIterator for SplayMap<T, U> {
     type IntoIter = SplayMapIntoIter<T, U>;
     type Item = (T, U);
 
-    fn into_iter(self) -> Self::IntoIter {
+    fn into_iter(mut self) -> Self::IntoIter {
         Self::IntoIter {
-            current: self.tree,
+            current: self.tree.take(),
             stack: Vec::new(),
         }
     }
@@ -423,6 +433,12 @@ impl<T, U> Iterator for SplayMapIntoIter<T, U> {
     }
 }
 
+impl<T, U> Drop for SplayMapIntoIter<T, U> {
+    fn drop(&mut self) {
+        while self.next().is_some() {}
+    }
+}
+
 /// An iterator for `SplayMap<T, U>`.
 ///
 /// This iterator traverses the elements of the map in-order and yields immutable references.
diff --git a/src/splay_tree/tree.rs b/src/splay_tree/tree.rs
index de3b3a5..190d893 100644
--- a/src/splay_tree/tree.rs
+++ b/src/splay_tree/tree.rs
@@ -136,12 +136,16 @@ where
     T: Borrow<V>,
     V: Ord + ?Sized,
 {
-    tree.as_ref()
-        .and_then(|node| match key.cmp(node.entry.key.borrow()) {
-            Ordering::Less => get(&node.left, key),
-            Ordering::Greater => get(&node.right, key),
-            Ordering::Equal => Some(&node.entry),
-        })
+    // a splay tree can degenerate into a long chain, so the descent must not recurse
+    let mut curr = tree;
+    while let Some(ref node) = curr {
+        match key.cmp(node.entry.key.borrow()) {
+            Ordering::Less => curr = &node.left,
+            Ordering::Greater => curr = &node.right,
+            Ordering::Equal => return Some(&node.entry),
+        }
+    }
+    None
 }
 
 pub fn get_mut<'a, T, U, V>(tree: &'a mut Tree<T, U>, key: &V) -> Option<&'a mut Entry<T, U>>
@@ -163,15 +167,19 @@ where
     T: Borrow<V>,
     V: Ord + ?Sized,
 {
-    tree.as_ref()
-        .and_then(|node| match key.cmp(node.entry.key.borrow()) {
-            Ordering::Greater => ceil(&node.right, key),
-            Ordering::Less => match ceil(&node.left, key) {
-                None => Some(&node.entry),
-                res => res,
-            },
-            Ordering::Equal => Some(&node.entry),
-        })
+    let mut curr = tree;
+    let mut ret = None;
+    while let Some(ref node) = curr {
+        match key.cmp(node.entry.key.borrow()) {
+            Ordering::Greater => curr = &node.right,
+            Ordering::Less => {
+                ret = Some(&node.entry);
+                curr = &node.left;
+            }
+            Ordering::Equal => return Some(&node.entry),
+        }
+    }
+    ret
 }
 
 pub fn floor<'a, T, U, V>(tree: &'a Tree<T, U>, key: &V) -> Option<&'a Entry<T, U>>
@@ -179,15 +187,19 @@ where
     T: Borrow<V>,
     V: Ord + ?Sized,
 {
-    tree.as_ref()
-        .and_then(|node| match key.cmp(node.entry.key.borrow()) {
-            Ordering::Less => floor(&node.left, key),
-            Ordering::Greater => match floor(&node.right, key) {
-                None => Some(&node.entry),
-                res => res,
-            },
-            Ordering::Equal => Some(&node.entry),
-        })
+    let mut curr = tree;
+    let mut ret = None;
+    while let Some(ref node) = curr {
+        match key.cmp(node.entry.key.borrow()) {
+            Ordering::Less => curr = &node.left,
+            Ordering::Greater => {
+                ret = Some(&node.entry);
+                curr = &node.right;
+            }
+            Ordering::Equal => return Some(&node.entry),
+        }
+    }
+    ret
 }
 
 pub fn min<T, U>(tree: &Tree<T, U>) -> Option<&Entry<T, U>>
-- 
2.43.0


From 61f56e3e5bdf7afbed6830c6e091107687b7daf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:29 +0000
Subject: [PATCH 20/34] fix: skip lists indexed past a zero-length array

Reaching the trailing links through a slice index of a zero-length array is
undefined behaviour; optimized builds looped forever in intersection and newer
toolchains abort. Use the array's raw pointer instead.
---
 src/skiplist/list.rs | 12 ++++++------
 src/skiplist/map.rs  | 30 +++++++++++++++---------------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 80815e5..eff07b5 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -30,11 +30,11 @@ impl<T> Node<T> {
     }
 
     pub fn get_pointer(&self, height: usize) -> &Link<T> {
-        unsafe { self.links.get_unchecked(height) }
+        unsafe { &*self.links.as_ptr().add(height) }
     }
 
     pub fn get_pointer_mut(&mut self, height: usize) -> &mut Link<T> {
-        unsafe { self.links.get_unchecked_mut(height) }
+        unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
     fn get_size_in_u64s(links_len: usize) -> usize {
@@ -51,7 +51,7 @@ impl<T> Node<T> {
         mem::forget(v);
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
-        ptr::write_bytes((*ptr).links.get_unchecked_mut(0), 0, links_len);
+        ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
         ptr
     }
 
@@ -441,7 +441,7 @@ impl<T> SkipList<T> {
                 let next_node = (*curr_node).get_pointer(0).next;
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
@@ -518,9 +518,9 @@ impl<T> IntoIterator for SkipList<T> {
     fn into_iter(self) -> Self::IntoIter {
         unsafe {
             let ret = Self::IntoIter {
-                current: (*self.head).links.get_unchecked_mut(0).next,
+                current: (*(*self.head).links.as_ptr()).next,
             };
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             ret
         }
     }
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 5c3ad07..17bedff 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -26,11 +26,11 @@ impl<T, U> Node<T, U> {
     }
 
     pub fn get_pointer(&self, height: usize) -> &*mut Node<T, U> {
-        unsafe { self.links.get_unchecked(height) }
+        unsafe { &*self.links.as_ptr().add(height) }
     }
 
     pub fn get_pointer_mut(&mut self, height: usize) -> &mut *mut Node<T, U> {
-        unsafe { self.links.get_unchecked_mut(height) }
+        unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
     fn get_size_in_u64s(links_len: usize) -> usize {
@@ -47,7 +47,7 @@ impl<T, U> Node<T, U> {
         mem::forget(v);
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
-        ptr::write_bytes((*ptr).links.get_unchecked_mut(0), 0, links_len);
+        ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
         ptr
     }
 
@@ -396,7 +396,7 @@ impl<T, U> SkipMap<T, U> {
                 let next_node = *(*curr_node).get_pointer(0);
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
@@ -589,8 +589,8 @@ impl<T, U> SkipMap<T, U> {
             let left_head = mem::replace(&mut left.head, next_left_node);
             let next_right_node = *(*right.head).get_pointer(0);
             let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
 
             loop {
                 let next_node;
@@ -626,7 +626,7 @@ impl<T, U> SkipMap<T, U> {
                 ret.len += 1;
 
                 ptr::write_bytes(
-                    (*next_node).links.get_unchecked_mut(0),
+                    (*next_node).links.as_mut_ptr(),
                     0,
                     (*next_node).links_len,
                 );
@@ -681,8 +681,8 @@ impl<T, U> SkipMap<T, U> {
             let left_head = mem::replace(&mut left.head, next_left_node);
             let next_right_node = *(*right.head).get_pointer(0);
             let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
 
             loop {
                 let next_node;
@@ -723,7 +723,7 @@ impl<T, U> SkipMap<T, U> {
                 ret.len += 1;
 
                 ptr::write_bytes(
-                    (*next_node).links.get_unchecked_mut(0),
+                    (*next_node).links.as_mut_ptr(),
                     0,
                     (*next_node).links_len,
                 );
@@ -756,8 +756,8 @@ impl<T, U> SkipMap<T, U> {
             let left_head = mem::replace(&mut left.head, next_left_node);
             let next_right_node = *(*right.head).get_pointer(0);
             let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
 
             loop {
                 let next_node;
@@ -805,7 +805,7 @@ impl<T, U> SkipMap<T, U> {
                 ret.len += 1;
 
                 ptr::write_bytes(
-                    (*next_node).links.get_unchecked_mut(0),
+                    (*next_node).links.as_mut_ptr(),
                     0,
                     (*next_node).links_len,
                 );
@@ -956,9 +956,9 @@ impl<T, U> IntoIterator for SkipMap<T, U> {
     fn into_iter(self) -> Self::IntoIter {
         unsafe {
             let ret = Self::IntoIter {
-                current: *(*self.head).links.get_unchecked_mut(0),
+                current: *(*self.head).links.as_mut_ptr(),
             };
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             ret
         }
     }
-- 
2.43.0


From 88f462c2ac694c042fb6fdefae96c43353c3ddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:06 +0000
Subject: [PATCH 21/34] fix: TreapList get and get_mut overflowed on the
 largest index

---
 src/treap/list.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/treap/list.rs b/src/treap/list.rs
index ef672dd..2897326 100644
--- a/src/treap/list.rs
+++ b/src/treap/list.rs
@@ -181,7 +181,8 @@ impl<T> TreapList<T> {
     /// assert_eq!(list.get(1), None);
     /// ```
     pub fn get(&self, index: usize) -> Option<&T> {
-        implicit_tree::get(&self.tree, index + 1)
+        let index = index.checked_add(1)?;
+        implicit_tree::get(&self.tree, index)
     }
 
     /// Returns a mutable reference to the value at a particular index. Returns `None` if the
@@ -198,7 +199,8 @@ impl<T> TreapList<T> {
     /// assert_eq!(list.get(0), Some(&2));
     /// ```
     pub fn get_mut(&mut self, index: usize) -> Option<&mut T> {
-        implicit_tree::get_mut(&mut self.tree, index + 1)
+        let index = index.checked_add(1)?;
+        implicit_tree::get_mut(&mut self.tree, index)
     }
 
     /// Returns the number of elements in the list.
-- 
2.43.0


From 29dc8121de0dfe7598d06accb1a848c9e5373a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:47 +0000
Subject: [PATCH 22/34] fix: freeing a vacant arena entry lost the arena's free
 list

---
 src/arena.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arena.rs b/src/arena.rs
index 264ad3d..b24e9ae 100644
--- a/src/arena.rs
+++ b/src/arena.rs
@@ -138,6 +138,10 @@ impl<T> TypedArena<T> {
         if !self.is_valid_entry(entry) {
             panic!("Error: attempting to free invalid block.");
         }
+        // Refuse before the free list is touched, so that the arena stays usable.
+        if let Block::Vacant(_) = self.chunks[entry.chunk_index][entry.block_index] {
+            panic!("Error: attempting to free vacant block.");
+        }
         let old_block = mem::replace(
             &mut self.chunks[entry.chunk_index][entry.block_index],
             Block::Vacant(self.head.take()),
-- 
2.43.0


From 71927f0802aefe3c020dc23abd69ddc91b245921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:22 +0000
Subject: [PATCH 23/34] fix: leveled compaction kept SSTables it had already
 merged when their newest entries were purged

---
 src/lsm_tree/compaction/leveled.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 66ed2c8..3ace953 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -119,6 +119,8 @@ where
     metadata_file: fs::File,
     curr_metadata: Arc<Mutex<LeveledMetadata<T, U>>>,
     next_metadata: Arc<Mutex<Option<LeveledMetadata<T, U>>>>,
+    // newest logical time that the last spawned compaction started from
+    snapshot_logical_time: Option<u64>,
 }
 
 impl<T, U> LeveledStrategy<T, U>
@@ -183,6 +185,7 @@ where
                 growth_factor,
             ))),
             next_metadata: Arc::new(Mutex::new(None)),
+            snapshot_logical_time: None,
         };
 
         {
@@ -239,6 +242,7 @@ where
             metadata_file,
             curr_metadata: Arc::new(Mutex::new(deserialize(&buffer)?)),
             next_metadata: Arc::new(Mutex::new(None)),
+            snapshot_logical_time: None,
         })
     }
 
@@ -253,23 +257,14 @@ where
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
         if let Some(next_metadata) = next_metadata.take() {
-            let logical_time_opt = next_metadata
-                .levels
-                .iter()
-                .map(|level_entry| {
-                    level_entry
-                        .iter()
-                        .map(|level_entry| level_entry.1.summary.logical_time_range.1)
-                        .max()
-                })
-                .max()
-                .and_then(|max_opt| max_opt);
+            // SSTables flushed after the snapshot was taken are not part of the compaction
+            let logical_time_opt = self.snapshot_logical_time;
             let old_sstables = mem::replace(&mut curr_metadata.sstables, next_metadata.sstables);
             let old_levels = mem::replace(&mut curr_metadata.levels, next_metadata.levels);
             curr_metadata.sstables.extend(
                 old_sstables
                     .iter()
-                    .filter(|sstable| Some(sstable.summary.logical_time_range.0) > logical_time_opt)
+                    .filter(|sstable| Some(sstable.summary.logical_time_range.1) > logical_time_opt)
                     .map(|sstable| Arc::clone(sstable)),
             );
 
@@ -456,6 +451,11 @@ where
         let path = self.path.clone();
         let next_metadata = self.next_metadata.clone();
         let is_compacting = self.is_compacting.clone();
+        self.snapshot_logical_time = metadata_snapshot
+            .sstables
+            .iter()
+            .map(|sstable| sstable.summary.logical_time_range.1)
+            .max();
         self.is_compacting.store(true, Ordering::Release);
         self.compaction_thread_join_handle = Some(thread::spawn(move || {
             let compaction_result =
-- 
2.43.0


From d2eec05889176ffe6eb0ae1540083269ea4f1d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:04 +0000
Subject: [PATCH 24/34] fix: leveled compaction leaked the SSTables it wrote
 and merged again

---
 src/lsm_tree/compaction/leveled.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 3ace953..a475f54 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -14,6 +14,7 @@ use std::fmt::{self, Debug};
 use std::fs;
 use std::hash::Hash;
 use std::io::{Read, Seek, SeekFrom, Write};
+use std::iter;
 use std::mem;
 use std::ops::Bound::{Included, Unbounded};
 use std::path::{Path, PathBuf};
@@ -314,6 +315,12 @@ where
             metadata_snapshot.levels.push(BTreeMap::new());
         }
 
+        let snapshot_paths: HashSet<_> = metadata_snapshot
+            .levels
+            .iter()
+            .flat_map(|level| level.values().map(|sstable| sstable.path.clone()))
+            .collect();
+
         // compacting L0
         let mut entry_count_hint = 0;
         let sstable_data_iters: Vec<_> = metadata_snapshot
@@ -403,6 +410,14 @@ where
 
                 metadata_snapshot.levels[index + 1] = new_level;
 
+                // SSTables written by this compaction are not referred to by the current metadata
+                let obsolete_paths: Vec<_> = old_level
+                    .values()
+                    .chain(iter::once(&sstable))
+                    .map(|sstable| sstable.path.clone())
+                    .filter(|path| !snapshot_paths.contains(path))
+                    .collect();
+
                 let compaction_iter = LeveledIter::new(
                     None,
                     vec![sstable_data_iter],
@@ -432,6 +447,10 @@ where
                 } else {
                     fs::remove_dir_all(&sstable_builder.sstable_path)?;
                 }
+
+                for obsolete_path in obsolete_paths {
+                    fs::remove_dir_all(obsolete_path)?;
+                }
             }
         }
 
-- 
2.43.0


From 660bbcb63d451a98f2d26857e0313fd05a54ef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:47 +0000
Subject: [PATCH 25/34] fix: a dropped compaction strategy left its compaction
 thread running in the folder

---
 src/lsm_tree/compaction/leveled.rs     | 12 ++++++++++++
 src/lsm_tree/compaction/size_tiered.rs |  9 +++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index a475f54..a80709e 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -715,6 +715,18 @@ where
     }
 }
 
+impl<T, U> Drop for LeveledStrategy<T, U>
+where
+    T: Ord,
+{
+    fn drop(&mut self) {
+        // the compaction thread must not outlive the strategy as the folder may be opened again
+        if let Some(compaction_thread_join_handle) = self.compaction_thread_join_handle.take() {
+            let _ = compaction_thread_join_handle.join();
+        }
+    }
+}
+
 #[derive(Eq, Ord, PartialEq, PartialOrd)]
 enum LeveledIterEntryIndex {
     SSTableIndex(usize),
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 669dade..7cc7edf 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -583,6 +583,15 @@ where
     }
 }
 
+impl<T, U> Drop for SizeTieredStrategy<T, U> {
+    fn drop(&mut self) {
+        // the compaction thread must not outlive the strategy as the folder may be opened again
+        if let Some(compaction_thread_join_handle) = self.compaction_thread_join_handle.take() {
+            let _ = compaction_thread_join_handle.join();
+        }
+    }
+}
+
 type SizeTieredIterEntry<T, U> = cmp::Reverse<(T, SSTableValue<U>, usize)>;
 
 struct SizeTieredIter<T, U> {
-- 
2.43.0


From 4b45d304e71f680c194e1e655dfb07b757e4355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:45 +0000
Subject: [PATCH 26/34] fix: joining many small treaps or skip lists
 degenerated to a linear list

Every new collection drew its random numbers from the same unseeded generator, so collections built
by concatenating or uniting small ones had equal priorities and levels throughout.
---
 src/lib.rs           |  1 +
 src/rng.rs           | 17 +++++++++++++++++
 src/skiplist/list.rs |  3 ++-
 src/skiplist/map.rs  |  9 +++++----
 src/treap/list.rs    |  3 ++-
 src/treap/map.rs     |  7 ++++---
 6 files changed, 31 insertions(+), 9 deletions(-)
 create mode 100644 src/rng.rs

diff --git a/src/lib.rs b/src/lib.rs
index df252d6..e96300c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -56,6 +56,7 @@ mod entry;
 pub mod lsm_tree;
 pub mod radix;
 pub mod red_black_tree;
+mod rng;
 pub mod skiplist;
 pub mod splay_tree;
 pub mod sync;
diff --git a/src/rng.rs b/src/rng.rs
new file mode 100644
index 0000000..d1936e7
--- /dev/null
+++ b/src/rng.rs
@@ -0,0 +1,17 @@
+use rand::{SeedableRng, XorShiftRng};
+use std::sync::atomic::{AtomicUsize, Ordering};
+
+/// Returns a generator whose numbers differ from those of every generator returned before, so that
+/// collections that are joined do not share the random choices that keep them balanced.
+pub fn new_rng() -> XorShiftRng {
+    static COUNT: AtomicUsize = AtomicUsize::new(0);
+    let mut state = COUNT.fetch_add(1, Ordering::Relaxed) as u64;
+    let mut next = || {
+        state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
+        let mut z = state;
+        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
+        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
+        (z ^ (z >> 31)) as u32
+    };
+    XorShiftRng::from_seed([next(), next(), next(), next() | 1])
+}
diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index eff07b5..ecfa3fe 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -1,3 +1,4 @@
+use crate::rng::new_rng;
 use rand::Rng;
 use rand::XorShiftRng;
 use std::mem;
@@ -117,7 +118,7 @@ impl<T> SkipList<T> {
     pub fn new() -> Self {
         SkipList {
             head: unsafe { Node::allocate(MAX_HEIGHT + 1) },
-            rng: XorShiftRng::new_unseeded(),
+            rng: new_rng(),
             len: 0,
         }
     }
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 17bedff..935f991 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -1,4 +1,5 @@
 use crate::entry::Entry;
+use crate::rng::new_rng;
 use rand::Rng;
 use rand::XorShiftRng;
 use std::borrow::Borrow;
@@ -111,7 +112,7 @@ impl<T, U> SkipMap<T, U> {
     pub fn new() -> Self {
         SkipMap {
             head: unsafe { Node::allocate(MAX_HEIGHT + 1) },
-            rng: XorShiftRng::new_unseeded(),
+            rng: new_rng(),
             len: 0,
         }
     }
@@ -579,7 +580,7 @@ impl<T, U> SkipMap<T, U> {
     {
         let mut ret = SkipMap {
             head: unsafe { Node::allocate(MAX_HEIGHT + 1) },
-            rng: XorShiftRng::new_unseeded(),
+            rng: new_rng(),
             len: 0,
         };
         let mut curr_nodes = [ret.head; MAX_HEIGHT + 1];
@@ -671,7 +672,7 @@ impl<T, U> SkipMap<T, U> {
     {
         let mut ret = SkipMap {
             head: unsafe { Node::allocate(MAX_HEIGHT + 1) },
-            rng: XorShiftRng::new_unseeded(),
+            rng: new_rng(),
             len: 0,
         };
         let mut curr_nodes = [ret.head; MAX_HEIGHT + 1];
@@ -746,7 +747,7 @@ impl<T, U> SkipMap<T, U> {
     {
         let mut ret = SkipMap {
             head: unsafe { Node::allocate(MAX_HEIGHT + 1) },
-            rng: XorShiftRng::new_unseeded(),
+            rng: new_rng(),
             len: 0,
         };
         let mut curr_nodes = [ret.head; MAX_HEIGHT + 1];
diff --git a/src/treap/list.rs b/src/treap/list.rs
index 2897326..7c6b297 100644
--- a/src/treap/list.rs
+++ b/src/treap/list.rs
@@ -1,3 +1,4 @@
+use crate::rng::new_rng;
 use crate::treap::implicit_tree;
 use crate::treap::node::ImplicitNode;
 use rand::Rng;
@@ -52,7 +53,7 @@ impl<T> TreapList<T> {
     pub fn new() -> Self {
         TreapList {
             tree: None,
-            rng: XorShiftRng::new_unseeded(),
+            rng: new_rng(),
         }
     }
 
diff --git a/src/treap/map.rs b/src/treap/map.rs
index 6feee4d..836f6cb 100644
--- a/src/treap/map.rs
+++ b/src/treap/map.rs
@@ -1,4 +1,5 @@
 use crate::entry::Entry;
+use crate::rng::new_rng;
 use crate::treap::node::Node;
 use crate::treap::tree;
 use rand::Rng;
@@ -52,7 +53,7 @@ impl<T, U> TreapMap<T, U> {
     pub fn new() -> Self {
         TreapMap {
             tree: None,
-            rng: XorShiftRng::new_unseeded(),
+            rng: new_rng(),
         }
     }
 
@@ -331,13 +332,13 @@ impl<T, U> TreapMap<T, U> {
             tree::merge(tree, split_node);
             TreapMap {
                 tree: ret,
-                rng: XorShiftRng::new_unseeded(),
+                rng: new_rng(),
             }
         } else {
             tree::merge(&mut split_node, ret);
             TreapMap {
                 tree: split_node,
-                rng: XorShiftRng::new_unseeded(),
+                rng: new_rng(),
             }
         }
     }
-- 
2.43.0


From a87eac4be09098294f9075018d6a277c8a28fd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:53 +0000
Subject: [PATCH 27/34] hooks: a generator whose numbers the harness can choose
 (cfg ecd_hooks)

---
 src/lib.rs           |  4 ++++
 src/rng.rs           | 51 +++++++++++++++++++++++++++++++++++++++++++-
 src/skiplist/list.rs |  3 +++
 src/skiplist/map.rs  |  3 +++
 src/treap/list.rs    |  3 +++
 src/treap/map.rs     |  3 +++
 6 files changed, 66 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e96300c..92ab74a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -56,7 +56,11 @@ mod entry;
 pub mod lsm_tree;
 pub mod radix;
 pub mod red_black_tree;
+#[cfg(not(ecd_hooks))]
 mod rng;
+#[cfg(ecd_hooks)]
+#[doc(hidden)]
+pub mod rng;
 pub mod skiplist;
 pub mod splay_tree;
 pub mod sync;
diff --git a/src/rng.rs b/src/rng.rs
index d1936e7..3d39f20 100644
--- a/src/rng.rs
+++ b/src/rng.rs
@@ -1,4 +1,8 @@
-use rand::{SeedableRng, XorShiftRng};
+#[cfg(ecd_hooks)]
+pub use self::chosen::XorShiftRng;
+use rand::SeedableRng;
+#[cfg(not(ecd_hooks))]
+use rand::XorShiftRng;
 use std::sync::atomic::{AtomicUsize, Ordering};
 
 /// Returns a generator whose numbers differ from those of every generator returned before, so that
@@ -15,3 +19,48 @@ pub fn new_rng() -> XorShiftRng {
     };
     XorShiftRng::from_seed([next(), next(), next(), next() | 1])
 }
+
+/// Verification builds only: a generator whose next numbers the harness can choose.
+#[cfg(ecd_hooks)]
+pub mod chosen {
+    use rand::{Rng, SeedableRng};
+    use std::cell::RefCell;
+    use std::collections::VecDeque;
+
+    thread_local! {
+        static NEXT: RefCell<VecDeque<u32>> = RefCell::new(VecDeque::new());
+    }
+
+    /// Queues a number for the next draw on this thread; returns how many are waiting.
+    pub fn choose(value: u32) -> usize {
+        NEXT.with(|next| {
+            next.borrow_mut().push_back(value);
+            next.borrow().len()
+        })
+    }
+
+    /// Forgets the numbers not drawn.
+    pub fn forget() {
+        NEXT.with(|next| next.borrow_mut().clear());
+    }
+
+    #[derive(Clone, Debug)]
+    pub struct XorShiftRng(rand::XorShiftRng);
+
+    impl SeedableRng<[u32; 4]> for XorShiftRng {
+        fn reseed(&mut self, seed: [u32; 4]) {
+            self.0.reseed(seed);
+        }
+
+        fn from_seed(seed: [u32; 4]) -> Self {
+            XorShiftRng(rand::XorShiftRng::from_seed(seed))
+        }
+    }
+
+    impl Rng for XorShiftRng {
+        fn next_u32(&mut self) -> u32 {
+            let drawn = self.0.next_u32();
+            NEXT.with(|next| next.borrow_mut().pop_front()).unwrap_or(drawn)
+        }
+    }
+}
diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index ecfa3fe..9ed958d 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -1,5 +1,8 @@
 use crate::rng::new_rng;
+#[cfg(ecd_hooks)]
+use crate::rng::XorShiftRng;
 use rand::Rng;
+#[cfg(not(ecd_hooks))]
 use rand::XorShiftRng;
 use std::mem;
 use std::ops::{Add, Index, IndexMut};
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 935f991..5dc655a 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -1,6 +1,9 @@
 use crate::entry::Entry;
 use crate::rng::new_rng;
+#[cfg(ecd_hooks)]
+use crate::rng::XorShiftRng;
 use rand::Rng;
+#[cfg(not(ecd_hooks))]
 use rand::XorShiftRng;
 use std::borrow::Borrow;
 use std::cmp;
diff --git a/src/treap/list.rs b/src/treap/list.rs
index 7c6b297..042e01a 100644
--- a/src/treap/list.rs
+++ b/src/treap/list.rs
@@ -1,7 +1,10 @@
 use crate::rng::new_rng;
+#[cfg(ecd_hooks)]
+use crate::rng::XorShiftRng;
 use crate::treap::implicit_tree;
 use crate::treap::node::ImplicitNode;
 use rand::Rng;
+#[cfg(not(ecd_hooks))]
 use rand::XorShiftRng;
 use std::ops::{Add, Index, IndexMut};
 
diff --git a/src/treap/map.rs b/src/treap/map.rs
index 836f6cb..d8ff602 100644
--- a/src/treap/map.rs
+++ b/src/treap/map.rs
@@ -1,8 +1,11 @@
 use crate::entry::Entry;
 use crate::rng::new_rng;
+#[cfg(ecd_hooks)]
+use crate::rng::XorShiftRng;
 use crate::treap::node::Node;
 use crate::treap::tree;
 use rand::Rng;
+#[cfg(not(ecd_hooks))]
 use rand::XorShiftRng;
 use std::borrow::Borrow;
 use std::ops::{Add, Index, IndexMut, Sub};
-- 
2.43.0


From 6e31e076e1cbb84cb44877167738dbbd0efc38f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:21 +0000
Subject: [PATCH 28/34] fix: skiplist nodes are aligned for the elements they
 hold

---
 src/skiplist/list.rs | 21 +++++++++++++--------
 src/skiplist/map.rs  | 21 +++++++++++++--------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 9ed958d..5a2f2bc 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -4,6 +4,7 @@ use crate::rng::XorShiftRng;
 use rand::Rng;
 #[cfg(not(ecd_hooks))]
 use rand::XorShiftRng;
+use std::alloc::{self, Layout};
 use std::mem;
 use std::ops::{Add, Index, IndexMut};
 use std::ptr;
@@ -41,18 +42,23 @@ impl<T> Node<T> {
         unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
-    fn get_size_in_u64s(links_len: usize) -> usize {
+    fn get_layout(links_len: usize) -> Layout {
         let base_size = mem::size_of::<Node<T>>();
         let link_size = mem::size_of::<Link<T>>();
-        let u64_size = mem::size_of::<u64>();
 
-        (base_size + link_size * links_len + u64_size - 1) / u64_size
+        Layout::from_size_align(
+            base_size + link_size * links_len,
+            mem::align_of::<Node<T>>(),
+        )
+        .expect("Error: node layout is invalid.")
     }
 
     unsafe fn allocate(links_len: usize) -> *mut Self {
-        let mut v = Vec::<u64>::with_capacity(Self::get_size_in_u64s(links_len));
-        let ptr = v.as_mut_ptr() as *mut Node<T>;
-        mem::forget(v);
+        let layout = Self::get_layout(links_len);
+        let ptr = alloc::alloc(layout) as *mut Node<T>;
+        if ptr.is_null() {
+            alloc::handle_alloc_error(layout);
+        }
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
         ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
@@ -61,8 +67,7 @@ impl<T> Node<T> {
 
     unsafe fn deallocate(ptr: *mut Self) {
         let links_len = (*ptr).links_len;
-        let cap = Self::get_size_in_u64s(links_len);
-        drop(Vec::from_raw_parts(ptr as *mut u64, 0, cap));
+        alloc::dealloc(ptr as *mut u8, Self::get_layout(links_len));
     }
 
     unsafe fn free(ptr: *mut Self) {
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 5dc655a..6d5c2e1 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -5,6 +5,7 @@ use crate::rng::XorShiftRng;
 use rand::Rng;
 #[cfg(not(ecd_hooks))]
 use rand::XorShiftRng;
+use std::alloc::{self, Layout};
 use std::borrow::Borrow;
 use std::cmp;
 use std::mem;
@@ -37,18 +38,23 @@ impl<T, U> Node<T, U> {
         unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
-    fn get_size_in_u64s(links_len: usize) -> usize {
+    fn get_layout(links_len: usize) -> Layout {
         let base_size = mem::size_of::<Node<T, U>>();
         let ptr_size = mem::size_of::<*mut Node<T, U>>();
-        let u64_size = mem::size_of::<u64>();
 
-        (base_size + ptr_size * links_len + u64_size - 1) / u64_size
+        Layout::from_size_align(
+            base_size + ptr_size * links_len,
+            mem::align_of::<Node<T, U>>(),
+        )
+        .expect("Error: node layout is invalid.")
     }
 
     unsafe fn allocate(links_len: usize) -> *mut Self {
-        let mut v = Vec::<u64>::with_capacity(Self::get_size_in_u64s(links_len));
-        let ptr = v.as_mut_ptr() as *mut Node<T, U>;
-        mem::forget(v);
+        let layout = Self::get_layout(links_len);
+        let ptr = alloc::alloc(layout) as *mut Node<T, U>;
+        if ptr.is_null() {
+            alloc::handle_alloc_error(layout);
+        }
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
         ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
@@ -57,8 +63,7 @@ impl<T, U> Node<T, U> {
 
     unsafe fn deallocate(ptr: *mut Self) {
         let links_len = (*ptr).links_len;
-        let cap = Self::get_size_in_u64s(links_len);
-        drop(Vec::from_raw_parts(ptr as *mut u64, 0, cap));
+        alloc::dealloc(ptr as *mut u8, Self::get_layout(links_len));
     }
 
     unsafe fn free(ptr: *mut Self) {
-- 
2.43.0


From 7a4662469803feca8f5d956292d03368752216ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:10 +0000
Subject: [PATCH 29/34] fix: entries stay in memory when flushing them to an
 SSTable fails

---
 src/lsm_tree/map.rs     | 13 ++++++++-----
 src/lsm_tree/sstable.rs |  2 +-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lsm_tree/map.rs b/src/lsm_tree/map.rs
index b013b43..396301a 100644
--- a/src/lsm_tree/map.rs
+++ b/src/lsm_tree/map.rs
@@ -6,7 +6,6 @@ use serde::ser::Serialize;
 use std::borrow::Borrow;
 use std::collections::BTreeMap;
 use std::hash::Hash;
-use std::mem;
 
 /// An ordered map implemented using a log structured merge-tree.
 ///
@@ -87,16 +86,20 @@ where
     }
 
     fn try_compact(&mut self) -> Result<()> {
-        self.in_memory_usage = 0;
         let mut sstable_builder = SSTableBuilder::new(
             self.compaction_strategy.get_path(),
             self.in_memory_tree.len(),
         )?;
-        for entry in mem::replace(&mut self.in_memory_tree, BTreeMap::new()) {
-            sstable_builder.append(entry.0, entry.1)?;
+        for (key, value) in &self.in_memory_tree {
+            sstable_builder.append(key.clone(), value.clone())?;
         }
         let sstable = SSTable::new(sstable_builder.flush()?)?;
-        self.compaction_strategy.try_compact(sstable)
+        self.compaction_strategy.try_compact(sstable)?;
+
+        // the entries must stay in memory until the strategy refers to the new SSTable
+        self.in_memory_usage = 0;
+        self.in_memory_tree.clear();
+        Ok(())
     }
 
     /// Inserts a key-value pair into the map. If the key-value pair causes the size of the
diff --git a/src/lsm_tree/sstable.rs b/src/lsm_tree/sstable.rs
index c33a9d3..96951c7 100644
--- a/src/lsm_tree/sstable.rs
+++ b/src/lsm_tree/sstable.rs
@@ -36,7 +36,7 @@ where
     l <= r
 }
 
-#[derive(Deserialize, Serialize)]
+#[derive(Clone, Deserialize, Serialize)]
 pub struct SSTableValue<U> {
     pub data: Option<U>,
     pub logical_time: u64,
-- 
2.43.0


From 459e30b2191383f19be2d017f3be8a702137983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:10 +0000
Subject: [PATCH 30/34] fix: len and max of LSM maps report read errors

---
 src/lsm_tree/compaction/leveled.rs     | 14 ++++++++++----
 src/lsm_tree/compaction/size_tiered.rs | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index a80709e..7907af6 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -624,7 +624,12 @@ where
     }
 
     fn len(&mut self) -> Result<usize> {
-        Ok(self.iter()?.count())
+        let mut len = 0;
+        for entry in self.iter()? {
+            entry?;
+            len += 1;
+        }
+        Ok(len)
     }
 
     fn is_empty(&mut self) -> Result<bool> {
@@ -667,10 +672,11 @@ where
     }
 
     fn max(&mut self) -> Result<Option<T>> {
-        match self.iter()?.last() {
-            Some(entry) => Ok(Some(entry?.0)),
-            None => Ok(None),
+        let mut max = None;
+        for entry in self.iter()? {
+            max = Some(entry?.0);
         }
+        Ok(max)
     }
 
     fn iter(&mut self) -> Result<Box<CompactionIter<T, U>>> {
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 7cc7edf..c012db3 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -507,7 +507,12 @@ where
     }
 
     fn len(&mut self) -> Result<usize> {
-        Ok(self.iter()?.count())
+        let mut len = 0;
+        for entry in self.iter()? {
+            entry?;
+            len += 1;
+        }
+        Ok(len)
     }
 
     fn is_empty(&mut self) -> Result<bool> {
@@ -549,10 +554,11 @@ where
     }
 
     fn max(&mut self) -> Result<Option<T>> {
-        match self.iter()?.last() {
-            Some(entry) => Ok(Some(entry?.0)),
-            None => Ok(None),
+        let mut max = None;
+        for entry in self.iter()? {
+            max = Some(entry?.0);
         }
+        Ok(max)
     }
 
     fn iter(&mut self) -> Result<Box<CompactionIter<T, U>>> {
-- 
2.43.0


From c5a66cbcf9f39339bba9b77f934e2a174c7f94cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:10 +0000
Subject: [PATCH 31/34] fix: clearing an LSM map that fails keeps memory,
 metadata and file in step

---
 src/lsm_tree/compaction/leveled.rs     | 18 +++++++++++++-----
 src/lsm_tree/compaction/size_tiered.rs | 15 +++++++++++----
 src/lsm_tree/map.rs                    |  4 +++-
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 7907af6..b30961e 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -646,13 +646,21 @@ where
 
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
         let mut next_metadata = self.next_metadata.lock().unwrap();
-        curr_metadata.sstables.clear();
-        curr_metadata.levels.clear();
-        *next_metadata = None;
+        let old_sstables = mem::replace(&mut curr_metadata.sstables, Vec::new());
+        let old_levels = mem::replace(&mut curr_metadata.levels, Vec::new());
+        let serialized_metadata = serialize(&*curr_metadata)?;
 
         // the metadata must stop referring to the SSTables before they are removed
-        self.metadata_file.seek(SeekFrom::Start(0))?;
-        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+        let mut metadata_file = &self.metadata_file;
+        let write_result = metadata_file
+            .seek(SeekFrom::Start(0))
+            .and_then(|_| metadata_file.write_all(&serialized_metadata));
+        if let Err(error) = write_result {
+            curr_metadata.sstables = old_sstables;
+            curr_metadata.levels = old_levels;
+            return Err(error.into());
+        }
+        *next_metadata = None;
 
         for dir_entry in fs::read_dir(self.path.as_path())? {
             let dir_path = dir_entry?.path();
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index c012db3..2a04e46 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -529,12 +529,19 @@ where
 
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
         let mut next_metadata = self.next_metadata.lock().unwrap();
-        curr_metadata.sstables.clear();
-        *next_metadata = None;
+        let old_sstables = mem::replace(&mut curr_metadata.sstables, Vec::new());
+        let serialized_metadata = serialize(&*curr_metadata)?;
 
         // the metadata must stop referring to the SSTables before they are removed
-        self.metadata_file.seek(SeekFrom::Start(0))?;
-        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+        let mut metadata_file = &self.metadata_file;
+        let write_result = metadata_file
+            .seek(SeekFrom::Start(0))
+            .and_then(|_| metadata_file.write_all(&serialized_metadata));
+        if let Err(error) = write_result {
+            curr_metadata.sstables = old_sstables;
+            return Err(error.into());
+        }
+        *next_metadata = None;
 
         for dir_entry in fs::read_dir(self.path.as_path())? {
             let dir_path = dir_entry?.path();
diff --git a/src/lsm_tree/map.rs b/src/lsm_tree/map.rs
index 396301a..1779f10 100644
--- a/src/lsm_tree/map.rs
+++ b/src/lsm_tree/map.rs
@@ -376,8 +376,10 @@ where
     /// # foo().unwrap();
     /// ```
     pub fn clear(&mut self) -> Result<()> {
+        self.compaction_strategy.clear()?;
+        self.in_memory_usage = 0;
         self.in_memory_tree.clear();
-        self.compaction_strategy.clear()
+        Ok(())
     }
 
     /// Returns the minimum key of the map. Returns `None` if the map is empty.
-- 
2.43.0


From 7327d8e311acc5bf822ad88074a37d1e59611a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:33 +0000
Subject: [PATCH 32/34] fix: an LSM iterator that cannot be made does not hold
 compaction off

---
 src/lsm_tree/compaction/leveled.rs     | 9 +++++----
 src/lsm_tree/compaction/size_tiered.rs | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index b30961e..4aec575 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -783,10 +783,6 @@ where
         mut sstable_data_iters: Vec<SSTableDataIter<T, U>>,
         mut level_data_iters: Vec<VecDeque<SSTableDataIter<T, U>>>,
     ) -> Result<Self> {
-        if let Some(ref metadata_lock_count) = metadata_lock_count {
-            metadata_lock_count.set(metadata_lock_count.get() + 1);
-        }
-
         let mut entries = BinaryHeap::new();
 
         for (index, sstable_data_iter) in sstable_data_iters.iter_mut().enumerate() {
@@ -811,6 +807,11 @@ where
             }
         }
 
+        // held only by an iterator that can release it
+        if let Some(ref metadata_lock_count) = metadata_lock_count {
+            metadata_lock_count.set(metadata_lock_count.get() + 1);
+        }
+
         Ok(LeveledIter {
             metadata_lock_count,
             sstable_data_iters,
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 2a04e46..65e4319 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -623,10 +623,6 @@ where
         metadata_lock_count: Option<Rc<Cell<u64>>>,
         mut sstable_data_iters: Vec<SSTableDataIter<T, U>>,
     ) -> Result<Self> {
-        if let Some(ref metadata_lock_count) = metadata_lock_count {
-            metadata_lock_count.set(metadata_lock_count.get() + 1);
-        }
-
         let mut entries = BinaryHeap::new();
 
         for (index, sstable_data_iter) in sstable_data_iters.iter_mut().enumerate() {
@@ -636,6 +632,11 @@ where
             }
         }
 
+        // held only by an iterator that can release it
+        if let Some(ref metadata_lock_count) = metadata_lock_count {
+            metadata_lock_count.set(metadata_lock_count.get() + 1);
+        }
+
         Ok(SizeTieredIter {
             metadata_lock_count,
             sstable_data_iters,
-- 
2.43.0


From e8814de60a88b7b433c3e12d7c55ff632c212dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:16 +0000
Subject: [PATCH 33/34] fix: unlink skip list nodes before destroying their
 elements

---
 src/skiplist/list.rs | 3 ++-
 src/skiplist/map.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 5a2f2bc..67e7027 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -446,11 +446,12 @@ impl<T> SkipList<T> {
         self.len = 0;
         unsafe {
             let mut curr_node = (*self.head).get_pointer(0).next;
+            // unlink the nodes first: an element's destructor may panic
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             while !curr_node.is_null() {
                 let next_node = (*curr_node).get_pointer(0).next;
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 6d5c2e1..c47ebd1 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -401,11 +401,12 @@ impl<T, U> SkipMap<T, U> {
         self.len = 0;
         unsafe {
             let mut curr_node = *(*self.head).get_pointer(0);
+            // unlink the nodes first: an element's destructor may panic
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             while !curr_node.is_null() {
                 let next_node = *(*curr_node).get_pointer(0);
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
-- 
2.43.0


From 800a6e98a64926a5a819f52aaa49bd55b6bad103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:26 +0000
Subject: [PATCH 34/34] fix: drop a skip map whose set operation was broken off

---
 src/skiplist/map.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index c47ebd1..a569dcc 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -948,6 +948,11 @@ impl<T, U> SkipMap<T, U> {
 
 impl<T, U> Drop for SkipMap<T, U> {
     fn drop(&mut self) {
+        // the maps given to a set operation have no head once their nodes have been taken, and an
+        // element's destructor may panic then
+        if self.head.is_null() {
+            return;
+        }
         unsafe {
             let next_node = *(*self.head).get_pointer(0);
             Node::deallocate(mem::replace(&mut self.head, next_node));
-- 
2.43.0

