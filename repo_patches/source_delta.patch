From f90fde36b1ed81fa253b173bb2f385c4569179ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 01/31] fix: removing the only element of a queue by index
 corrupted its bounds

---
 src/queues.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/queues.rs b/src/queues.rs
index 7575a72..16a1a1b 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -270,8 +270,7 @@ impl CandyStore {
             let queue = from_bytes_mut::<Queue>(&mut queue_bytes);
             if queue.head_idx == idx {
                 queue.head_idx += 1;
-            }
-            if queue.tail_idx == idx + 1 {
+            } else if queue.tail_idx == idx + 1 {
                 queue.tail_idx -= 1;
             }
             queue.num_items -= 1;
-- 
2.43.0


From ab3d85b563b2d43b849b936df120ee5f1510b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 02/31] fix: replace_in_list compared the expected value with
 the item's index

---
 src/lists.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lists.rs b/src/lists.rs
index 51eefc5..f49ae19 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -163,7 +163,7 @@ impl CandyStore {
                 }
                 InsertMode::Replace(expected_val) => {
                     if let Some(expected_val) = expected_val {
-                        if expected_val != &existing_val[existing_val.len() - size_of::<u64>()..] {
+                        if expected_val != &existing_val[..existing_val.len() - size_of::<u64>()] {
                             existing_val.truncate(existing_val.len() - size_of::<u64>());
                             return Ok(InsertToListStatus::WrongValue(existing_val));
                         }
-- 
2.43.0


From 27f445ec466efd0f541f4dea88a4ca7557e275d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 03/31] fix: the cookie of an exhausted iterator restarted the
 iteration

---
 src/store.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/store.rs b/src/store.rs
index 74d9877..310c2e8 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -134,7 +134,7 @@ impl<'a> CandyStoreIterator<'a> {
     /// Returns the cookie of the next item in the store. This can be used later to construct an iterator
     /// that starts at the given point.
     pub fn cookie(&self) -> u64 {
-        ((self.shard_selector as u64 & 0xffff) << 32)
+        ((self.shard_selector as u64 & 0x1ffff) << 32)
             | ((self.row_idx as u64 & 0xffff) << 16)
             | (self.entry_idx as u64 & 0xffff)
     }
@@ -143,7 +143,7 @@ impl<'a> CandyStoreIterator<'a> {
     pub fn from_cookie(store: &'a CandyStore, cookie: u64, raw: bool) -> Self {
         Self {
             store,
-            shard_selector: ((cookie >> 32) & 0xffff) as u32,
+            shard_selector: ((cookie >> 32) & 0x1ffff) as u32,
             row_idx: ((cookie >> 16) & 0xffff) as usize,
             entry_idx: (cookie & 0xffff) as usize,
             raw,
-- 
2.43.0


From bddf1b07f84580edff4bd9b37019fab5fecbefc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 04/31] fix: iteration skipped untouched entries when a
 compaction, split or merge moved them

---
 src/shard.rs | 20 ++++++++-----
 src/store.rs | 79 ++++++++++++++++++++++++++++++----------------------
 2 files changed, 59 insertions(+), 40 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 6859359..9897efd 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -3,6 +3,7 @@ use bytemuck::{bytes_of_mut, Pod, Zeroable};
 use parking_lot::{Mutex, RwLock, RwLockWriteGuard};
 use simd_itertools::PositionSimd;
 use std::{
+    collections::VecDeque,
     fs::{File, OpenOptions},
     io::Read,
     ops::Range,
@@ -756,15 +757,20 @@ impl Shard {
         )
     }
 
-    pub(crate) fn read_at(&self, row_idx: usize, entry_idx: usize) -> Result<Option<KVPair>> {
+    // reads all the entries of the given row, starting at `first_idx`
+    pub(crate) fn read_row(
+        &self,
+        row_idx: usize,
+        first_idx: usize,
+    ) -> Result<VecDeque<(usize, Result<KVPair>)>> {
         self.operate_on_row(row_idx, |file, row| {
-            if row.signatures[entry_idx] != INVALID_SIG {
-                Ok(Some(
-                    file.read_kv(&self.stats, row.offsets_and_sizes[entry_idx])?,
-                ))
-            } else {
-                Ok(None)
+            let mut entries = VecDeque::new();
+            for (idx, &sig) in row.signatures.iter().enumerate().skip(first_idx) {
+                if sig != INVALID_SIG {
+                    entries.push_back((idx, file.read_kv(&self.stats, row.offsets_and_sizes[idx])));
+                }
             }
+            Ok(entries)
         })
     }
 
diff --git a/src/store.rs b/src/store.rs
index 310c2e8..3bcef0e 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -2,6 +2,7 @@ use anyhow::{anyhow, bail, ensure};
 use fslock::LockFile;
 use parking_lot::Mutex;
 use std::{
+    collections::VecDeque,
     path::{Path, PathBuf},
     sync::Arc,
 };
@@ -12,10 +13,7 @@ use crate::{
     shard::{CompactionThreadPool, InsertMode, InsertStatus, KVPair},
     Stats, MAX_KEY_SIZE, MAX_TOTAL_VALUE_SIZE,
 };
-use crate::{
-    shard::{NUM_ROWS, ROW_WIDTH},
-    stats::InternalStats,
-};
+use crate::{shard::NUM_ROWS, stats::InternalStats};
 
 use crate::{CandyError, Config, Result, MAX_TOTAL_KEY_SIZE, MAX_VALUE_SIZE};
 
@@ -118,6 +116,11 @@ pub struct CandyStoreIterator<'a> {
     row_idx: usize,
     entry_idx: usize,
     raw: bool,
+    // end of the span of the shard we're currently in (0 = we're not in the middle of a shard)
+    span_end: u32,
+    // the remaining entries of the current row. a row is read as a whole because a concurrent compaction,
+    // split or merge may move its entries around, which would cause us to miss some of them
+    row: VecDeque<(usize, Result<KVPair>)>,
 }
 
 impl<'a> CandyStoreIterator<'a> {
@@ -128,6 +131,8 @@ impl<'a> CandyStoreIterator<'a> {
             row_idx: 0,
             entry_idx: 0,
             raw,
+            span_end: 0,
+            row: VecDeque::new(),
         }
     }
 
@@ -147,6 +152,8 @@ impl<'a> CandyStoreIterator<'a> {
             row_idx: ((cookie >> 16) & 0xffff) as usize,
             entry_idx: (cookie & 0xffff) as usize,
             raw,
+            span_end: 0,
+            row: VecDeque::new(),
         }
     }
 }
@@ -155,47 +162,53 @@ impl<'a> Iterator for CandyStoreIterator<'a> {
     type Item = Result<KVPair>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        while self.shard_selector < ShardRouter::END_OF_SHARDS {
-            let res = self.store.root.shared_op(self.shard_selector, |sh| {
-                while self.row_idx < NUM_ROWS {
-                    let row_idx = self.row_idx;
-                    let entry_idx = self.entry_idx;
-
-                    self.entry_idx += 1;
-                    if self.entry_idx >= ROW_WIDTH {
-                        self.entry_idx = 0;
-                        self.row_idx += 1;
+        loop {
+            while let Some((idx, res)) = self.row.pop_front() {
+                self.entry_idx = idx + 1;
+                match res {
+                    Ok((mut k, v)) => {
+                        if self.raw {
+                            return Some(Ok((k, v)));
+                        } else if k.ends_with(USER_NAMESPACE) {
+                            k.truncate(k.len() - USER_NAMESPACE.len());
+                            return Some(Ok((k, v)));
+                        }
                     }
+                    Err(e) => return Some(Err(e)),
+                }
+            }
+
+            if self.shard_selector >= ShardRouter::END_OF_SHARDS {
+                return None;
+            }
+
+            let res = self.store.root.shared_op(self.shard_selector, |sh| {
+                if self.span_end != 0 && sh.span.end > self.span_end {
+                    // this shard was merged with the next one, whose rows we haven't visited yet
+                    self.row_idx = 0;
+                    self.entry_idx = 0;
+                }
+                self.span_end = sh.span.end;
 
-                    let Some((mut k, v)) = sh.read_at(row_idx, entry_idx)? else {
-                        continue;
-                    };
-                    if self.raw {
-                        return Ok((sh.span.start, Some((k, v))));
-                    } else if k.ends_with(USER_NAMESPACE) {
-                        k.truncate(k.len() - USER_NAMESPACE.len());
-                        return Ok((sh.span.start, Some((k, v))));
+                while self.row_idx < NUM_ROWS {
+                    self.row = sh.read_row(self.row_idx, self.entry_idx)?;
+                    if !self.row.is_empty() {
+                        return Ok(sh.span.start);
                     }
+                    self.entry_idx = 0;
+                    self.row_idx += 1;
                 }
 
-                self.entry_idx = 0;
                 self.row_idx = 0;
-                Ok((sh.span.end, None))
+                self.span_end = 0;
+                Ok(sh.span.end)
             });
 
             match res {
-                Ok((shard_selector, kv)) => {
-                    self.shard_selector = shard_selector;
-                    if let Some(kv) = kv {
-                        return Some(Ok(kv));
-                    }
-                    // continue
-                }
+                Ok(shard_selector) => self.shard_selector = shard_selector,
                 Err(e) => return Some(Err(e)),
             }
         }
-
-        None
     }
 }
 
-- 
2.43.0


From b814c7a0b5c45939a0c86ed0e34cc4eec279ef26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 05/31] fix: merging small shards deadlocked when the shard
 tree was not balanced

---
 src/router.rs | 96 ++++++++++++++-------------------------------------
 1 file changed, 25 insertions(+), 71 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index f0e819c..6ff9917 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -393,67 +393,36 @@ impl ShardRouter {
         }
     }
 
-    fn _merge(
-        &self,
-        bottom: &ShardRouter,
-        top: &ShardRouter,
-        max_fill: usize,
-        shards_to_remove: &mut u32,
-    ) -> Result<Option<ShardRouter>> {
-        if *shards_to_remove == 0 {
-            return Ok(None);
-        }
+    // merges small sibling shards, bottom up. returns whether this node is a single shard
+    fn merge_siblings(&self, max_fill: usize, shards_to_remove: &mut u32) -> Result<bool> {
+        let mut guard = self.node.write();
+        let ShardNode::Vertex(bottom, top) = &*guard else {
+            return Ok(true);
+        };
 
-        let bottom_guard = bottom.node.write();
-        let top_guard = top.node.write();
+        let is_bottom_leaf = bottom.merge_siblings(max_fill, shards_to_remove)?;
+        let is_top_leaf = top.merge_siblings(max_fill, shards_to_remove)?;
+        if !is_bottom_leaf || !is_top_leaf || *shards_to_remove == 0 {
+            return Ok(false);
+        }
 
-        match (&*bottom_guard, &*top_guard) {
+        let merged = match (&*bottom.node.read(), &*top.node.read()) {
             (ShardNode::Leaf(b), ShardNode::Leaf(t)) => {
-                if b.get_stats()?.num_items() > max_fill {
-                    return Ok(None);
-                }
-                if t.get_stats()?.num_items() > max_fill {
-                    return Ok(None);
-                }
-                if let Some(sh) = Shard::merge(b, t)? {
-                    *shards_to_remove = *shards_to_remove - 1;
-                    let span = sh.span.clone();
-                    Ok(Some(ShardRouter {
-                        config: self.config.clone(),
-                        node: RwLock::new(ShardNode::Leaf(sh)),
-                        span,
-                        stats: self.stats.clone(),
-                        threadpool: self.threadpool.clone(),
-                    }))
+                if b.get_stats()?.num_items() > max_fill || t.get_stats()?.num_items() > max_fill {
+                    None
                 } else {
-                    Ok(None)
+                    Shard::merge(b, t)?
                 }
             }
-            (ShardNode::Leaf(_), ShardNode::Vertex(b, t)) => {
-                if let Some(merged_top) = self._merge(&b, &t, max_fill, shards_to_remove)? {
-                    self._merge(bottom, &merged_top, max_fill, shards_to_remove)
-                } else {
-                    Ok(None)
-                }
-            }
-            (ShardNode::Vertex(b, t), ShardNode::Leaf(_)) => {
-                if let Some(merged_bottom) = self._merge(&b, &t, max_fill, shards_to_remove)? {
-                    self._merge(&merged_bottom, top, max_fill, shards_to_remove)
-                } else {
-                    Ok(None)
-                }
-            }
-            (ShardNode::Vertex(b1, t1), ShardNode::Vertex(b2, t2)) => {
-                let m1 = self._merge(b1, t1, max_fill, shards_to_remove)?;
-                let m2 = self._merge(b2, t2, max_fill, shards_to_remove)?;
-                match (m1, m2) {
-                    (Some(m1), Some(m2)) => self._merge(&m1, &m2, max_fill, shards_to_remove),
-                    (Some(m1), None) => self._merge(&m1, top, max_fill, shards_to_remove),
-                    (None, Some(m2)) => self._merge(bottom, &m2, max_fill, shards_to_remove),
-                    (None, None) => Ok(None),
-                }
-            }
-        }
+            _ => None,
+        };
+        let Some(merged) = merged else {
+            return Ok(false);
+        };
+
+        *shards_to_remove -= 1;
+        *guard = ShardNode::Leaf(merged);
+        Ok(true)
     }
 
     pub(crate) fn merge_small_shards(&self, max_fill_level: f32) -> Result<bool> {
@@ -475,22 +444,7 @@ impl ShardRouter {
         }
         let mut shards_to_remove = starting_num_shards - needed_shards;
 
-        {
-            let mut guard = self.node.write();
-
-            match &*guard {
-                ShardNode::Leaf(_) => None,
-                ShardNode::Vertex(bottom, top) => {
-                    self._merge(&bottom, &top, max_fill, &mut shards_to_remove)?
-                }
-            };
-
-            *guard = Self::treeify(
-                Self::load(&self.config, &self.stats, &self.threadpool)?,
-                &self.stats,
-                &self.threadpool,
-            );
-        }
+        self.merge_siblings(max_fill, &mut shards_to_remove)?;
 
         let new_num_shards: u32 = self.call_on_all_shards(|_| Ok(1))?.iter().sum();
 
-- 
2.43.0


From de9ae0fda4920ff4730eec929abadf8e1c15a84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 06/31] fix: a failure to remove the old files of merged shards
 lost later updates

---
 src/shard.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 9897efd..69c23d1 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -704,8 +704,10 @@ impl Shard {
             .join(format!("shard_{:04x}-{:04x}", top.span.start, top.span.end));
 
         std::fs::rename(tmp_filename, dst_filename)?;
-        std::fs::remove_file(bottom_filename)?;
-        std::fs::remove_file(top_filename)?;
+        // from here on we must not fail: the merged file takes precedence over the two halves, which will be
+        // removed when the store is next opened
+        _ = std::fs::remove_file(bottom_filename);
+        _ = std::fs::remove_file(top_filename);
 
         drop(combined_files);
 
-- 
2.43.0


From e97ba411f942dc312d728c5b371ae26ef4392e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 07/31] fix: crashing while removing or discarding list items
 left items the list did not account for

---
 src/lists.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index f49ae19..3552cbf 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -437,6 +437,17 @@ impl CandyStore {
         );
         existing_val.truncate(existing_val.len() - size_of::<u64>());
 
+        // remove item first and update the list last. crashing in between leaves a hole, which is harmless,
+        // whereas an item that's no longer accounted for is not
+        self.remove_raw(&item_key)?;
+
+        // remove chain
+        self.remove_raw(bytes_of(&ChainKey {
+            list_ph,
+            idx: item_idx,
+            namespace: CHAIN_NAMESPACE,
+        }))?;
+
         // update list, if the item was the head/tail
         if let Some(list_bytes) = self.get_raw(&list_key)? {
             let mut list = *from_bytes::<List>(&list_bytes);
@@ -457,16 +468,6 @@ impl CandyStore {
             }
         }
 
-        // remove chain
-        self.remove_raw(bytes_of(&ChainKey {
-            list_ph,
-            idx: item_idx,
-            namespace: CHAIN_NAMESPACE,
-        }))?;
-
-        // remove item
-        self.remove_raw(&item_key)?;
-
         Ok(Some(existing_val))
     }
 
@@ -638,12 +639,12 @@ impl CandyStore {
             let Some((_, full_key, _)) = self.get_from_list_at_index(list_ph, idx, false)? else {
                 continue;
             };
+            self.remove_raw(&full_key)?;
             self.remove_raw(bytes_of(&ChainKey {
                 list_ph,
                 idx,
                 namespace: CHAIN_NAMESPACE,
             }))?;
-            self.remove_raw(&full_key)?;
         }
         self.remove_raw(&list_key)?;
 
-- 
2.43.0


From 90e04bdfb530f09d6fab21d0055c2d13bfc4bfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 08/31] fix: crashing while inserting a new key made the number
 of items of the shard underflow

---
 src/shard.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 69c23d1..01b5173 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -1021,6 +1021,9 @@ impl Shard {
                         if let Some(idx) = row.lookup(INVALID_SIG, &mut start) {
                             let new_off = file.write_kv(&self.stats, &full_key, val)?;
 
+                            // count it before it becomes visible, or crashing in between will make the number of
+                            // removals exceed the number of inserts
+                            file.header().num_inserts.fetch_add(1, Ordering::Relaxed);
                             // we don't want a reorder to happen here - first write the offset, then the signature
                             row.offsets_and_sizes[idx] = new_off;
                             std::sync::atomic::fence(Ordering::SeqCst);
@@ -1028,7 +1031,6 @@ impl Shard {
                             if had_collision {
                                 self.stats.num_collisions.fetch_add(1, Ordering::Relaxed);
                             }
-                            file.header().num_inserts.fetch_add(1, Ordering::Relaxed);
                             #[cfg(feature = "flush_aggregation")]
                             {
                                 drop(_guard);
-- 
2.43.0


From cda121cf68c41f4d09da9ac3c6555efc6d611444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 09/31] fix: popping or peeking a list could return nothing
 although the list was never empty, or a stale value

---
 src/lists.rs | 80 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 55 insertions(+), 25 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index 3552cbf..0a6bd8a 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -425,8 +425,17 @@ impl CandyStore {
         let (_, item_key) = self.make_item_key(list_ph, item_key);
 
         let _guard = self.lock_list(list_ph);
+        self.remove_item_locked(list_ph, &list_key, &item_key)
+    }
 
-        let Some(mut existing_val) = self.get_raw(&item_key)? else {
+    // the caller must hold the list's lock
+    fn remove_item_locked(
+        &self,
+        list_ph: PartedHash,
+        list_key: &[u8],
+        item_key: &[u8],
+    ) -> Result<Option<Vec<u8>>> {
+        let Some(mut existing_val) = self.get_raw(item_key)? else {
             return Ok(None);
         };
 
@@ -439,7 +448,7 @@ impl CandyStore {
 
         // remove item first and update the list last. crashing in between leaves a hole, which is harmless,
         // whereas an item that's no longer accounted for is not
-        self.remove_raw(&item_key)?;
+        self.remove_raw(item_key)?;
 
         // remove chain
         self.remove_raw(bytes_of(&ChainKey {
@@ -449,7 +458,7 @@ impl CandyStore {
         }))?;
 
         // update list, if the item was the head/tail
-        if let Some(list_bytes) = self.get_raw(&list_key)? {
+        if let Some(list_bytes) = self.get_raw(list_key)? {
             let mut list = *from_bytes::<List>(&list_bytes);
 
             list.num_items -= 1;
@@ -462,9 +471,9 @@ impl CandyStore {
                 }
             }
             if list.is_empty() {
-                self.remove_raw(&list_key)?;
+                self.remove_raw(list_key)?;
             } else {
-                self.set_raw(&list_key, bytes_of(&list))?;
+                self.set_raw(list_key, bytes_of(&list))?;
             }
         }
 
@@ -658,10 +667,32 @@ impl CandyStore {
 
     /// Owned version of [Self::peek_list_head]
     pub fn owned_peek_list_head(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
-        let Some(kv) = self.owned_iter_list(list_key).next() else {
+        let (list_ph, list_key) = self.make_list_key(list_key);
+        let _guard = self.lock_list(list_ph);
+        self.peek_list_locked(list_ph, list_key, true)
+    }
+
+    // the caller must hold the list's lock, so that the item cannot be removed or moved between reading
+    // the list's bounds and reading the item itself
+    fn peek_list_locked(
+        &self,
+        list_ph: PartedHash,
+        list_key: Vec<u8>,
+        fwd: bool,
+    ) -> Result<Option<KVPair>> {
+        let Some(list_bytes) = self.get_raw(&list_key)? else {
             return Ok(None);
         };
-        Ok(Some(kv?))
+        let list = *from_bytes::<List>(&list_bytes);
+        ListIterator {
+            store: self,
+            list_key,
+            list_ph,
+            range: Some(list.head_idx..list.tail_idx),
+            fwd,
+        }
+        .next()
+        .transpose()
     }
 
     /// Returns the last (tail) element of the list
@@ -671,10 +702,9 @@ impl CandyStore {
 
     /// Owned version of [Self::peek_list_tail]
     pub fn owned_peek_list_tail(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
-        for kv in self.owned_iter_list_backwards(list_key) {
-            return Ok(Some(kv?));
-        }
-        Ok(None)
+        let (list_ph, list_key) = self.make_list_key(list_key);
+        let _guard = self.lock_list(list_ph);
+        self.peek_list_locked(list_ph, list_key, false)
     }
 
     /// Removes and returns the first (head) element of the list
@@ -684,13 +714,19 @@ impl CandyStore {
 
     /// Owned version of [Self::peek_list_tail]
     pub fn owned_pop_list_head(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
-        for kv in self.owned_iter_list(list_key.clone()) {
-            let (k, v) = kv?;
-            if let Some(_) = self.owned_remove_from_list(list_key.clone(), k.clone())? {
-                return Ok(Some((k, v)));
-            }
-        }
-        Ok(None)
+        self.pop_list(list_key, true)
+    }
+
+    fn pop_list(&self, list_key: Vec<u8>, fwd: bool) -> Result<Option<KVPair>> {
+        let (list_ph, list_key) = self.make_list_key(list_key);
+        let _guard = self.lock_list(list_ph);
+
+        let Some((k, v)) = self.peek_list_locked(list_ph, list_key.clone(), fwd)? else {
+            return Ok(None);
+        };
+        let (_, item_key) = self.make_item_key(list_ph, k.clone());
+        self.remove_item_locked(list_ph, &list_key, &item_key)?;
+        Ok(Some((k, v)))
     }
 
     /// Removes and returns the last (tail) element of the list
@@ -700,13 +736,7 @@ impl CandyStore {
 
     /// Owned version of [Self::peek_list_tail]
     pub fn owned_pop_list_tail(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
-        for kv in self.owned_iter_list_backwards(list_key.clone()) {
-            let (k, v) = kv?;
-            if let Some(_) = self.owned_remove_from_list(list_key.clone(), k.clone())? {
-                return Ok(Some((k, v)));
-            }
-        }
-        Ok(None)
+        self.pop_list(list_key, false)
     }
 
     /// Returns the estimated list length
-- 
2.43.0


From 9b39fc40ed6f081e64e8a205d209c400228f28be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:51 +0000
Subject: [PATCH 10/31] fix: peeking a queue could return nothing although the
 queue was never empty

---
 src/queues.rs | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/queues.rs b/src/queues.rs
index 16a1a1b..019e5b0 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -361,15 +361,32 @@ impl CandyStore {
         Ok(indices)
     }
 
+    fn _peek_queue(&self, queue_key: &[u8], fwd: bool) -> Result<Option<(usize, Vec<u8>)>> {
+        let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
+        // hold the lock so that the element cannot be removed between reading the queue's bounds and reading
+        // the element itself
+        let _guard = self.lock_list(queue_ph);
+
+        let Some(queue_bytes) = self.get_raw(&full_queue_key)? else {
+            return Ok(None);
+        };
+        let queue = *from_bytes::<Queue>(&queue_bytes);
+        QueueIterator {
+            store: self,
+            queue_key: queue_key.to_owned(),
+            range: Some(queue.head_idx..queue.tail_idx),
+            fwd,
+        }
+        .next()
+        .transpose()
+    }
+
     /// Returns (without removing) the head element of the queue and its index, or None if the queue is empty
     pub fn peek_queue_head_with_idx<B: AsRef<[u8]> + ?Sized>(
         &self,
         queue_key: &B,
     ) -> Result<Option<(usize, Vec<u8>)>> {
-        for res in self.iter_queue(queue_key) {
-            return Ok(Some(res?));
-        }
-        Ok(None)
+        self._peek_queue(queue_key.as_ref(), true)
     }
 
     /// Returns (without removing) the head element of the queue, or None if the queue is empty
@@ -377,10 +394,7 @@ impl CandyStore {
         &self,
         queue_key: &B,
     ) -> Result<Option<Vec<u8>>> {
-        for res in self.iter_queue(queue_key) {
-            return Ok(Some(res?.1));
-        }
-        Ok(None)
+        Ok(self._peek_queue(queue_key.as_ref(), true)?.map(|iv| iv.1))
     }
 
     /// Returns (without removing) the head element of the queue and its index, or None if the queue is empty
@@ -388,10 +402,7 @@ impl CandyStore {
         &self,
         queue_key: &B,
     ) -> Result<Option<(usize, Vec<u8>)>> {
-        for res in self.iter_queue_backwards(queue_key) {
-            return Ok(Some(res?));
-        }
-        Ok(None)
+        self._peek_queue(queue_key.as_ref(), false)
     }
 
     /// Returns (without removing) the tail element of the queue, or None if the queue is empty
@@ -399,10 +410,7 @@ impl CandyStore {
         &self,
         queue_key: &B,
     ) -> Result<Option<Vec<u8>>> {
-        for res in self.iter_queue_backwards(queue_key) {
-            return Ok(Some(res?.1));
-        }
-        Ok(None)
+        Ok(self._peek_queue(queue_key.as_ref(), false)?.map(|iv| iv.1))
     }
 
     /// Returns a forward iterator (head to tail) over the elements of the queue. If the queue does not exist,
-- 
2.43.0


From b50aa9c960092c9b44eeff7eeb51e79747a4823e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 11/31] fix: with no compaction threads configured, writes
 failed as soon as a compaction was due

---
 src/store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store.rs b/src/store.rs
index 3bcef0e..7f99f3c 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -250,7 +250,7 @@ impl CandyStore {
         }
 
         let stats = Arc::new(InternalStats::default());
-        let threadpool = Arc::new(CompactionThreadPool::new(config.num_compaction_threads));
+        let threadpool = Arc::new(CompactionThreadPool::new(config.num_compaction_threads.max(1)));
         let root = ShardRouter::new(config.clone(), stats.clone(), threadpool.clone())?;
 
         Ok(Self {
-- 
2.43.0


From 17bc531795b953311b5853d469a4fe5d9dd29b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:29 +0000
Subject: [PATCH 12/31] fix: updating an entry larger than half the maximal
 shard size split its shard forever

---
 src/shard.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 01b5173..1d7a214 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -1,4 +1,4 @@
-use anyhow::bail;
+use anyhow::{bail, ensure};
 use bytemuck::{bytes_of_mut, Pod, Zeroable};
 use parking_lot::{Mutex, RwLock, RwLockWriteGuard};
 use simd_itertools::PositionSimd;
@@ -535,6 +535,12 @@ impl Shard {
     }
 
     pub(crate) fn split(&self) -> Result<(Shard, Shard)> {
+        ensure!(
+            self.span.len() > 1,
+            "shard {:?} is full and cannot be split",
+            self.span
+        );
+
         let mut handle_guard = self.compaction_handle.lock();
         if let Some(handle) = handle_guard.take() {
             handle.wait()?;
@@ -1004,7 +1010,10 @@ impl Shard {
                     } else if file.header().write_offset.load(Ordering::Relaxed)
                         + (full_key.len() + val.len()) as u64
                         > self.config.max_shard_size as u64
+                        && self.span.len() > 1
                     {
+                        // a shard that spans a single selector cannot be split, let it exceed its size until enough
+                        // space is wasted for it to be compacted
                         return Ok(InsertStatus::SplitNeeded);
                     }
                 }
-- 
2.43.0


From e95ef4516c1f2a1c35d0b05bcb3ade9aefb0f592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:30 +0000
Subject: [PATCH 13/31] fix: clearing the store wiped the counters of
 concurrent operations that took place after it

---
 src/router.rs | 3 +++
 src/store.rs  | 5 +----
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 6ff9917..d21afcc 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -321,6 +321,9 @@ impl ShardRouter {
         let shards = Self::create_initial_shards(&self.config, &self.stats, &self.threadpool)?;
         *guard = Self::treeify(shards, &self.stats, &self.threadpool);
 
+        // while no one else can access the shards, so that nothing that's done later is discarded
+        self.stats.clear();
+
         Ok(())
     }
 
diff --git a/src/store.rs b/src/store.rs
index 7f99f3c..a3beb5b 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -273,10 +273,7 @@ impl CandyStore {
 
     /// Clears the store (erasing all keys), and removing all shard files
     pub fn clear(&self) -> Result<()> {
-        self.root.clear()?;
-        self.stats.clear();
-
-        Ok(())
+        self.root.clear()
     }
 
     pub(crate) fn ensure_sizes(key: &[u8], val: &[u8]) -> Result<()> {
-- 
2.43.0


From f96584c0350f53e315087ccf873ba22636ffc4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 14/31] fix: clearing the store could fail, leaving it half
 deleted, while a shard was being compacted

---
 src/router.rs | 13 +++++++++++++
 src/shard.rs  |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index d21afcc..c5cacab 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -297,6 +297,19 @@ impl ShardRouter {
     pub(crate) fn clear(&self) -> Result<()> {
         let mut guard = self.node.write();
 
+        // background compactions rename the very files that we're about to remove
+        match &*guard {
+            ShardNode::Leaf(sh) => _ = sh.wait_for_compaction(),
+            ShardNode::Vertex(bottom, top) => {
+                for router in [bottom, top] {
+                    _ = router.call_on_all_shards(|sh| {
+                        _ = sh.wait_for_compaction();
+                        Ok(())
+                    });
+                }
+            }
+        }
+
         for res in std::fs::read_dir(&self.config.dir_path)? {
             let entry = res?;
             let filename = entry.file_name();
diff --git a/src/shard.rs b/src/shard.rs
index 1d7a214..44fff34 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -908,7 +908,7 @@ impl Shard {
         Ok(TryReplaceStatus::KeyDoesNotExist(row_guard, had_collision))
     }
 
-    fn wait_for_compaction(&self) -> Result<()> {
+    pub(crate) fn wait_for_compaction(&self) -> Result<()> {
         let mut handle_guard = self.compaction_handle.lock();
         if let Some(handle) = handle_guard.take() {
             handle.wait()?;
-- 
2.43.0


From a8261ee3fae4ede4ef3f6732a91d2016c502211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 15/31] fix: crashing while creating or clearing a store of
 several shards left it unopenable

---
 src/router.rs | 60 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index c5cacab..39f1193 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -78,6 +78,9 @@ pub(crate) struct ShardRouter {
 impl ShardRouter {
     pub(crate) const END_OF_SHARDS: u32 = 1u32 << 16;
 
+    // exists while the set of shards is incomplete, i.e., while they're being created or cleared
+    const INIT_MARKER: &'static str = ".init";
+
     pub(crate) fn new(
         config: Arc<InternalConfig>,
         stats: Arc<InternalStats>,
@@ -102,6 +105,11 @@ impl ShardRouter {
         stats: &Arc<InternalStats>,
         threadpool: &Arc<CompactionThreadPool>,
     ) -> Result<Vec<Shard>> {
+        if config.dir_path.join(Self::INIT_MARKER).exists() {
+            // we crashed while clearing the store or while creating it for the first time
+            Self::remove_all_files(config)?;
+        }
+
         let mut found_shards = vec![];
         for res in std::fs::read_dir(&config.dir_path)? {
             let entry = res?;
@@ -180,6 +188,10 @@ impl ShardRouter {
     ) -> Result<Vec<Shard>> {
         let step = Self::calc_step(config.expected_number_of_keys);
 
+        // until all shards exist there are gaps between them
+        let marker = config.dir_path.join(Self::INIT_MARKER);
+        std::fs::File::create(&marker)?;
+
         let mut shards = vec![];
         let mut start = 0;
         while start < Self::END_OF_SHARDS {
@@ -194,9 +206,34 @@ impl ShardRouter {
             start = end;
         }
 
+        std::fs::remove_file(marker)?;
         Ok(shards)
     }
 
+    fn remove_all_files(config: &InternalConfig) -> Result<()> {
+        for res in std::fs::read_dir(&config.dir_path)? {
+            let entry = res?;
+            let filename = entry.file_name();
+            let Some(filename) = filename.to_str() else {
+                continue;
+            };
+            let Ok(filetype) = entry.file_type() else {
+                continue;
+            };
+            if !filetype.is_file() {
+                continue;
+            }
+            if filename.starts_with("shard_")
+                || filename.starts_with("compact_")
+                || filename.starts_with("bottom_")
+                || filename.starts_with("top_")
+            {
+                std::fs::remove_file(entry.path())?;
+            }
+        }
+        Ok(())
+    }
+
     fn from_shardnode(
         n: ShardNode,
         stats: Arc<InternalStats>,
@@ -310,26 +347,9 @@ impl ShardRouter {
             }
         }
 
-        for res in std::fs::read_dir(&self.config.dir_path)? {
-            let entry = res?;
-            let filename = entry.file_name();
-            let Some(filename) = filename.to_str() else {
-                continue;
-            };
-            let Ok(filetype) = entry.file_type() else {
-                continue;
-            };
-            if !filetype.is_file() {
-                continue;
-            }
-            if filename.starts_with("shard_")
-                || filename.starts_with("compact_")
-                || filename.starts_with("bottom_")
-                || filename.starts_with("top_")
-            {
-                std::fs::remove_file(entry.path())?;
-            }
-        }
+        // from here on, if we crash, clearing the store is completed when it's next opened
+        std::fs::File::create(self.config.dir_path.join(Self::INIT_MARKER))?;
+        Self::remove_all_files(&self.config)?;
 
         let shards = Self::create_initial_shards(&self.config, &self.stats, &self.threadpool)?;
         *guard = Self::treeify(shards, &self.stats, &self.threadpool);
-- 
2.43.0


From e7109a11b7dab71b642b1e2a6a57be18abc152ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 16/31] fix: crashing before the header of a new shard file was
 written left the store unopenable

---
 src/shard.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 44fff34..9429386 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -166,9 +166,11 @@ impl MmapFile {
             libc::posix_fallocate(file.as_raw_fd(), 0, HEADER_SIZE as i64)
         };
 
+        // the magic is written last, see `is_uninitialized`
         let header = unsafe { &mut *(mmap.as_ptr() as *mut ShardHeader) };
-        header.metadata.magic = SHARD_FILE_MAGIC;
         header.metadata.version = SHARD_FILE_VERSION;
+        std::sync::atomic::fence(Ordering::SeqCst);
+        header.metadata.magic = SHARD_FILE_MAGIC;
 
         Ok(Self { file, mmap })
     }
@@ -191,6 +193,20 @@ impl MmapFile {
         Self::new(file, config.mlock_headers)
     }
 
+    // returns true if we crashed after setting the length of a new file, but before its magic was written
+    fn is_uninitialized(file: &File) -> Result<bool> {
+        let mut header = vec![0u8; HEADER_SIZE as usize];
+        if file.metadata()?.len() < HEADER_SIZE {
+            return Ok(false);
+        }
+        file.read_exact_at(&mut header, 0)?;
+        let (metadata, rest) = header.split_at(size_of::<MetaHeader>());
+        let metadata: MetaHeader = bytemuck::pod_read_unaligned(metadata);
+        Ok(metadata.magic == [0; 8]
+            && (metadata.version == 0 || metadata.version == SHARD_FILE_VERSION)
+            && rest.iter().all(|&b| b == 0))
+    }
+
     #[inline(always)]
     fn header(&self) -> &ShardHeader {
         unsafe { &*(self.mmap.as_ptr() as *const ShardHeader) }
@@ -377,7 +393,7 @@ impl Shard {
                 || meta_header.magic != SHARD_FILE_MAGIC
                 || meta_header.version != SHARD_FILE_VERSION
             {
-                if config.clear_on_unsupported_version {
+                if config.clear_on_unsupported_version || MmapFile::is_uninitialized(&file)? {
                     file.set_len(0)?;
                     file_size = 0;
                 } else {
-- 
2.43.0


From 78e49d5f96cc44ec0c15e684ac2db5ae1d7633a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 17/31] fix: big items with an empty value did not exist

---
 src/store.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/store.rs b/src/store.rs
index a3beb5b..9f57ef7 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -539,8 +539,14 @@ impl CandyStore {
         key: &B1,
         val: &B2,
     ) -> Result<bool> {
+        let val = val.as_ref();
         let existed = self.discard_queue(key)?;
-        self.extend_queue(key, val.as_ref().chunks(MAX_VALUE_SIZE))?;
+        if val.is_empty() {
+            // no chunks at all would mean the item doesn't exist
+            self.push_to_queue_tail(key, val)?;
+        } else {
+            self.extend_queue(key, val.chunks(MAX_VALUE_SIZE))?;
+        }
         Ok(existed)
     }
 
-- 
2.43.0


From b27ffc4b93d62afa1b87682a10c17f1b48478f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 18/31] fix: rejected list and queue operations left phantom
 items or removed the existing ones

---
 src/lists.rs  |  7 +++++++
 src/queues.rs | 11 +++++++++++
 src/store.rs  | 39 +++++++++++++++++++++++----------------
 3 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index 0a6bd8a..945d2c1 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -186,6 +186,8 @@ impl CandyStore {
             return Ok(InsertToListStatus::DoesNotExist);
         }
 
+        self.ensure_entry_fits(item_key.len(), val.len() + size_of::<u64>())?;
+
         // get of create the list
         let res = self.get_or_create_raw(
             &list_key,
@@ -297,6 +299,11 @@ impl CandyStore {
         promote: bool,
     ) -> Result<SetStatus> {
         if promote {
+            // don't remove the existing item if we wouldn't be able to insert the new one
+            self.ensure_entry_fits(
+                item_key.len() + size_of::<PartedHash>() + ITEM_NAMESPACE.len(),
+                val.len() + size_of::<u64>(),
+            )?;
             self.owned_remove_from_list(list_key.clone(), item_key.clone())?;
         }
         match self._insert_to_list(list_key, item_key, val, InsertMode::Set)? {
diff --git a/src/queues.rs b/src/queues.rs
index 019e5b0..c0fa447 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -111,7 +111,13 @@ impl CandyStore {
         item_key
     }
 
+    pub(crate) fn ensure_queue_item_fits(&self, queue_key: &[u8], val_len: usize) -> Result<()> {
+        let item_key_len = queue_key.len() + size_of::<u64>() + QUEUE_ITEM_NAMESPACE.len();
+        self.ensure_entry_fits(item_key_len, val_len)
+    }
+
     fn _push_to_queue(&self, queue_key: &[u8], val: &[u8], pos: QueuePos) -> Result<usize> {
+        self.ensure_queue_item_fits(queue_key, val.len())?;
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
         let _guard = self.lock_list(queue_ph);
 
@@ -328,6 +334,11 @@ impl CandyStore {
         items: impl Iterator<Item = impl AsRef<[u8]>>,
     ) -> Result<Range<usize>> {
         let queue_key = queue_key.as_ref();
+        let items = items.collect::<Vec<_>>();
+        for item in items.iter() {
+            self.ensure_queue_item_fits(queue_key, item.as_ref().len())?;
+        }
+
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
         let _guard = self.lock_list(queue_ph);
 
diff --git a/src/store.rs b/src/store.rs
index 9f57ef7..9ff983d 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -1,4 +1,4 @@
-use anyhow::{anyhow, bail, ensure};
+use anyhow::{bail, ensure};
 use fslock::LockFile;
 use parking_lot::Mutex;
 use std::{
@@ -286,6 +286,26 @@ impl CandyStore {
         Ok(())
     }
 
+    // operations made of several writes call this up front, so that they're rejected as a whole
+    pub(crate) fn ensure_entry_fits(&self, full_key_len: usize, val_len: usize) -> Result<()> {
+        ensure!(
+            full_key_len <= MAX_TOTAL_KEY_SIZE,
+            CandyError::KeyTooLong(full_key_len)
+        );
+        ensure!(
+            val_len <= MAX_TOTAL_VALUE_SIZE,
+            CandyError::ValueTooLong(val_len)
+        );
+        ensure!(
+            full_key_len + val_len <= self.config.max_shard_size as usize,
+            CandyError::EntryCannotFitInShard(
+                full_key_len + val_len,
+                self.config.max_shard_size as usize
+            )
+        );
+        Ok(())
+    }
+
     pub(crate) fn make_user_key(&self, mut key: Vec<u8>) -> Vec<u8> {
         key.extend_from_slice(USER_NAMESPACE);
         key
@@ -349,21 +369,7 @@ impl CandyStore {
     ) -> Result<InsertStatus> {
         let ph = PartedHash::new(&self.config.hash_seed, full_key);
 
-        ensure!(
-            full_key.len() <= MAX_TOTAL_KEY_SIZE,
-            CandyError::KeyTooLong(full_key.len())
-        );
-        ensure!(
-            val.len() <= MAX_TOTAL_VALUE_SIZE,
-            CandyError::ValueTooLong(val.len())
-        );
-
-        if full_key.len() + val.len() > self.config.max_shard_size as usize {
-            return Err(anyhow!(CandyError::EntryCannotFitInShard(
-                full_key.len() + val.len(),
-                self.config.max_shard_size as usize
-            )));
-        }
+        self.ensure_entry_fits(full_key.len(), val.len())?;
 
         self.root.insert(ph, full_key, val, mode)
     }
@@ -540,6 +546,7 @@ impl CandyStore {
         val: &B2,
     ) -> Result<bool> {
         let val = val.as_ref();
+        self.ensure_queue_item_fits(key.as_ref(), val.len().min(MAX_VALUE_SIZE))?;
         let existed = self.discard_queue(key)?;
         if val.is_empty() {
             // no chunks at all would mean the item doesn't exist
-- 
2.43.0


From 4e7c085fd7f460d0ec231061578eb32393e41424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 19/31] fix: a background compaction that failed was never
 retried, and broke splitting, merging and statistics

---
 src/shard.rs | 121 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 81 insertions(+), 40 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 9429386..4b0beca 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -10,7 +10,7 @@ use std::{
     os::{fd::AsRawFd, unix::fs::FileExt},
     path::{Path, PathBuf},
     sync::{
-        atomic::{AtomicU64, AtomicUsize, Ordering},
+        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
         Arc,
     },
     thread::JoinHandle,
@@ -271,9 +271,6 @@ impl TPHandle {
     fn wait(&self) -> Result<()> {
         self.rx.recv()?
     }
-    fn finished(&self) -> bool {
-        !self.rx.is_empty()
-    }
 }
 
 struct CompactionInfo {
@@ -281,6 +278,7 @@ struct CompactionInfo {
     stats: Arc<InternalStats>,
     files: Arc<RwLock<(MmapFile, Option<MmapFile>)>>,
     row_locks: Arc<[RwLock<()>; NUM_ROWS]>,
+    failed: Arc<AtomicBool>,
     t0: Instant,
     src_filename: PathBuf,
     target_filename: PathBuf,
@@ -304,7 +302,11 @@ impl CompactionThreadPool {
                     let Some((info, handle_tx)) = elem else {
                         break;
                     };
+                    let failed = info.failed.clone();
                     let res = Shard::background_compact(info);
+                    if res.is_err() {
+                        failed.store(true, Ordering::Release);
+                    }
                     handle_tx.send(res)?;
                 }
                 Ok(())
@@ -359,6 +361,8 @@ pub(crate) struct Shard {
     row_locks: Arc<[RwLock<()>; NUM_ROWS]>,
     threadpool: Arc<CompactionThreadPool>,
     compaction_handle: Arc<Mutex<Option<TPHandle>>>,
+    // the last compaction failed midway, i.e., its target exists but no one is working on it
+    compaction_failed: Arc<AtomicBool>,
     #[cfg(feature = "flush_aggregation")]
     sync_agg_mutex: parking_lot::Mutex<()>,
     #[cfg(feature = "flush_aggregation")]
@@ -460,6 +464,7 @@ impl Shard {
             row_locks: Arc::new(row_locks),
             threadpool,
             compaction_handle: Arc::new(Mutex::new(None)),
+            compaction_failed: Arc::new(AtomicBool::new(false)),
             #[cfg(feature = "flush_aggregation")]
             sync_agg_mutex: parking_lot::Mutex::new(()),
             #[cfg(feature = "flush_aggregation")]
@@ -488,6 +493,7 @@ impl Shard {
             row_locks: Arc::new(row_locks),
             threadpool,
             compaction_handle: Arc::new(Mutex::new(None)),
+            compaction_failed: Arc::new(AtomicBool::new(false)),
             #[cfg(feature = "flush_aggregation")]
             sync_agg_mutex: parking_lot::Mutex::new(()),
             #[cfg(feature = "flush_aggregation")]
@@ -514,6 +520,17 @@ impl Shard {
             let target_row = target.row_mut(row_idx);
             let mut target_col = 0;
 
+            if first_row {
+                // if we're resuming a compaction that stopped in the middle of this row, the source row may have
+                // changed since
+                for sig in target_row.signatures.iter_mut() {
+                    if *sig != INVALID_SIG {
+                        *sig = INVALID_SIG;
+                        target.header().num_inserts.fetch_sub(1, Ordering::Relaxed);
+                    }
+                }
+            }
+
             for (src_col, &sig) in src_row.signatures.iter().enumerate() {
                 if sig == INVALID_SIG {
                     continue;
@@ -521,16 +538,16 @@ impl Shard {
                 let (k, v) = src.read_kv(&stats, src_row.offsets_and_sizes[src_col])?;
 
                 assert!(
-                    first_row || target_row.signatures[target_col] == INVALID_SIG,
+                    target_row.signatures[target_col] == INVALID_SIG,
                     "row={row_idx} col={target_col} sig={}",
                     target_row.signatures[target_col]
                 );
                 let ph = PartedHash::new(&config.hash_seed, &k);
                 assert_eq!(ph.row_selector(), row_idx);
                 target_row.offsets_and_sizes[target_col] = target.write_kv(&stats, &k, &v)?;
+                target.header().num_inserts.fetch_add(1, Ordering::Relaxed);
                 std::sync::atomic::fence(Ordering::SeqCst);
                 target_row.signatures[target_col] = ph.signature();
-                target.header().num_inserts.fetch_add(1, Ordering::Relaxed);
                 target_col += 1;
             }
 
@@ -557,10 +574,7 @@ impl Shard {
             self.span
         );
 
-        let mut handle_guard = self.compaction_handle.lock();
-        if let Some(handle) = handle_guard.take() {
-            handle.wait()?;
-        }
+        self.finish_compaction()?;
 
         let files_guard = self.files.write();
 
@@ -655,6 +669,9 @@ impl Shard {
     }
 
     pub(crate) fn merge(bottom: &Shard, top: &Shard) -> Result<Option<Shard>> {
+        bottom.finish_compaction()?;
+        top.finish_compaction()?;
+
         let bottom_files = bottom.files.write();
         let top_files = top.files.write();
 
@@ -932,50 +949,71 @@ impl Shard {
         Ok(())
     }
 
-    fn begin_compaction(&self, min_write_offset: u64) -> Result<()> {
+    fn compaction_filenames(&self) -> (PathBuf, PathBuf) {
+        let span = format!("{:04x}-{:04x}", self.span.start, self.span.end);
+        (
+            self.config.dir_path.join(format!("shard_{span}")),
+            self.config.dir_path.join(format!("compact_{span}")),
+        )
+    }
+
+    // waits for the background compaction, and if it had failed, completes it
+    fn finish_compaction(&self) -> Result<()> {
         let mut handle_guard = self.compaction_handle.lock();
-        let mut files_guard = self.files.write();
+        if let Some(handle) = handle_guard.take() {
+            _ = handle.wait();
+        }
 
-        if files_guard.0.header().write_offset.load(Ordering::Relaxed) < min_write_offset {
-            // already compacted by someone else
+        if !self.compaction_failed.load(Ordering::Acquire) {
             return Ok(());
         }
 
+        let mut files_guard = self.files.write();
+        let (src_filename, target_filename) = self.compaction_filenames();
+        let target = files_guard.1.as_ref().unwrap();
+        Self::do_compaction(
+            &self.row_locks,
+            &files_guard.0,
+            target,
+            &self.stats,
+            &self.config,
+        )?;
+        std::fs::rename(target_filename, src_filename)?;
+        files_guard.0 = files_guard.1.take().unwrap();
+        self.compaction_failed.store(false, Ordering::Release);
+
+        Ok(())
+    }
+
+    fn begin_compaction(&self, min_write_offset: u64) -> Result<()> {
+        let mut handle_guard = self.compaction_handle.lock();
+        let mut files_guard = self.files.write();
+
+        let t0 = Instant::now();
+        let (src_filename, target_filename) = self.compaction_filenames();
+
         if files_guard.1.is_some() {
-            // if the compaction target exists and the thread is still running -- all good
-            if let Some(ref handle) = *handle_guard {
-                if !handle.finished() {
-                    return Ok(());
-                }
-            } else {
+            // if the compaction target exists and the thread is still running -- all good. otherwise, it had failed
+            // in the middle, and we'll pick up from there
+            if !self.compaction_failed.swap(false, Ordering::AcqRel) {
+                return Ok(());
+            }
+        } else {
+            if files_guard.0.header().write_offset.load(Ordering::Relaxed) < min_write_offset {
+                // already compacted by someone else
                 return Ok(());
             }
-        }
 
-        // the thread could've crashed in the middle of a compaction, and here's the place to extract the error
-        if let Some(handle) = handle_guard.take() {
-            handle.wait()?;
+            let target = MmapFile::create(&target_filename, &self.config)?;
+            target.header().compacted_up_to.store(0, Ordering::Release);
+            files_guard.1 = Some(target);
         }
 
-        assert!(files_guard.1.is_none());
-
-        let t0 = Instant::now();
-        let src_filename = self.config.dir_path.join(format!(
-            "shard_{:04x}-{:04x}",
-            self.span.start, self.span.end
-        ));
-        let target_filename = self.config.dir_path.join(format!(
-            "compact_{:04x}-{:04x}",
-            self.span.start, self.span.end
-        ));
-        let target = MmapFile::create(&target_filename, &self.config)?;
-        target.header().compacted_up_to.store(0, Ordering::Release);
-        files_guard.1 = Some(target);
-
         let handle = self.threadpool.submit(CompactionInfo {
             files: self.files.clone(),
             stats: self.stats.clone(),
             row_locks: self.row_locks.clone(),
+            failed: self.compaction_failed.clone(),
             config: self.config.clone(),
             t0,
             src_filename,
@@ -1032,6 +1070,8 @@ impl Shard {
                         // space is wasted for it to be compacted
                         return Ok(InsertStatus::SplitNeeded);
                     }
+                } else if self.compaction_failed.load(Ordering::Acquire) {
+                    should_compact = Some(0);
                 }
 
                 let status = self.try_replace(file, row_guard, row, ph, &full_key, val, mode)?;
@@ -1109,7 +1149,8 @@ impl Shard {
     }
 
     pub(crate) fn get_stats(&self) -> Result<ShardStats> {
-        self.wait_for_compaction()?;
+        // if it fails, it will be retried by the next insert
+        _ = self.finish_compaction();
         let files_guard = self.files.read();
         let hdr = files_guard.0.header();
         Ok(ShardStats {
-- 
2.43.0


From f8747e202558e90bd0415174ab3a6cec655acc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:17 +0000
Subject: [PATCH 20/31] fix: a short read of a shard's header was mistaken for
 an unsupported version, clearing the shard

---
 src/shard.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 4b0beca..427301d 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -5,7 +5,6 @@ use simd_itertools::PositionSimd;
 use std::{
     collections::VecDeque,
     fs::{File, OpenOptions},
-    io::Read,
     ops::Range,
     os::{fd::AsRawFd, unix::fs::FileExt},
     path::{Path, PathBuf},
@@ -382,7 +381,7 @@ impl Shard {
         let filename = config
             .dir_path
             .join(format!("shard_{:04x}-{:04x}", span.start, span.end));
-        let mut file = OpenOptions::new()
+        let file = OpenOptions::new()
             .create(true)
             .read(true)
             .write(true)
@@ -392,8 +391,12 @@ impl Shard {
         let mut file_size = file.metadata()?.len();
         if file_size != 0 {
             let mut meta_header = MetaHeader::default();
-            let sz = file.read(bytes_of_mut(&mut meta_header))?;
-            if sz != size_of::<MetaHeader>()
+            // a short read must not be mistaken for an unsupported file
+            let is_short = file_size < size_of::<MetaHeader>() as u64;
+            if !is_short {
+                file.read_exact_at(bytes_of_mut(&mut meta_header), 0)?;
+            }
+            if is_short
                 || meta_header.magic != SHARD_FILE_MAGIC
                 || meta_header.version != SHARD_FILE_VERSION
             {
-- 
2.43.0


From b17d82f368d8ae241d10728a950eefa4c51792fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:38 +0000
Subject: [PATCH 21/31] fix: opening a store on a full disk could crash with
 SIGBUS if it was interrupted when a compaction began

---
 src/shard.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 427301d..8e5b46d 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -452,10 +452,15 @@ impl Shard {
                 .write(true)
                 .open(&compacted_filename)
             {
-                let target = MmapFile::new(compacted_file, config.mlock_headers)?;
-                Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
-                std::fs::rename(compacted_filename, filename)?;
-                mmap_file = target;
+                if compacted_file.metadata()?.len() < HEADER_SIZE {
+                    // we crashed right when the compaction began. mapping it would crash us if it can't be extended
+                    std::fs::remove_file(compacted_filename)?;
+                } else {
+                    let target = MmapFile::new(compacted_file, config.mlock_headers)?;
+                    Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
+                    std::fs::rename(compacted_filename, filename)?;
+                    mmap_file = target;
+                }
             }
         }
 
-- 
2.43.0


From c198fdead5049eccdef34c9536d1ae00be9ded9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 22/31] fix: failing to open the file of an unfinished
 compaction lost the updates it held

---
 src/shard.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 8e5b46d..7984498 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -447,11 +447,17 @@ impl Shard {
         if truncate {
             _ = std::fs::remove_file(compacted_filename);
         } else {
-            if let Ok(compacted_file) = OpenOptions::new()
+            // ignoring the file for any other reason would lose what was written to it
+            let compacted_file = match OpenOptions::new()
                 .read(true)
                 .write(true)
                 .open(&compacted_filename)
             {
+                Ok(compacted_file) => Some(compacted_file),
+                Err(e) if e.kind() == std::io::ErrorKind::NotFound => None,
+                Err(e) => return Err(e.into()),
+            };
+            if let Some(compacted_file) = compacted_file {
                 if compacted_file.metadata()?.len() < HEADER_SIZE {
                     // we crashed right when the compaction began. mapping it would crash us if it can't be extended
                     std::fs::remove_file(compacted_filename)?;
-- 
2.43.0


From f1d2afd89a1b0882179c354e9d2f3ba0050a5236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 23/31] fix: splitting, merging or compacting flushed shards
 lost their contents in a power failure

---
 src/shard.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/shard.rs b/src/shard.rs
index 7984498..dc5241f 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -464,6 +464,7 @@ impl Shard {
                 } else {
                     let target = MmapFile::new(compacted_file, config.mlock_headers)?;
                     Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
+                    target.file.sync_data()?;
                     std::fs::rename(compacted_filename, filename)?;
                     mmap_file = target;
                 }
@@ -641,6 +642,10 @@ impl Shard {
             }
         }
 
+        // they replace a file that may have been flushed
+        bottom_file.file.sync_data()?;
+        top_file.file.sync_data()?;
+
         std::fs::rename(
             bottom_filename,
             self.config
@@ -756,6 +761,9 @@ impl Shard {
             .dir_path
             .join(format!("shard_{:04x}-{:04x}", top.span.start, top.span.end));
 
+        // it replaces files that may have been flushed
+        combined_files.0.file.sync_data()?;
+
         std::fs::rename(tmp_filename, dst_filename)?;
         // from here on we must not fail: the merged file takes precedence over the two halves, which will be
         // removed when the store is next opened
@@ -992,6 +1000,7 @@ impl Shard {
             &self.stats,
             &self.config,
         )?;
+        target.file.sync_data()?;
         std::fs::rename(target_filename, src_filename)?;
         files_guard.0 = files_guard.1.take().unwrap();
         self.compaction_failed.store(false, Ordering::Release);
@@ -1045,6 +1054,8 @@ impl Shard {
 
         Self::do_compaction(&info.row_locks, src, target, &info.stats, &info.config)?;
 
+        // it replaces a file that may have been flushed
+        target.file.sync_data()?;
         std::fs::rename(&info.target_filename, &info.src_filename)?;
 
         info.stats.report_compaction(
-- 
2.43.0


From 864717e7da51d46f4225d197d57ac12328e4d09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:44 +0000
Subject: [PATCH 24/31] fix: flushing during a compaction did not sync the
 changes made to compacted rows

---
 src/shard.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index dc5241f..3788fb3 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -578,7 +578,12 @@ impl Shard {
 
     pub(crate) fn flush(&self) -> Result<()> {
         //self.mmap.flush()? -- fdatasync should take care of that as well
-        self.files.read().0.file.sync_data()?;
+        let files_guard = self.files.read();
+        files_guard.0.file.sync_data()?;
+        // when compacting, changes to rows that were already compacted are written to the target
+        if let Some(ref target) = files_guard.1 {
+            target.file.sync_data()?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 3c579903c7578fb1afa8671abde0bb21440c7065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:04 +0000
Subject: [PATCH 25/31] fix: with flush aggregation, a write concurrent with a
 compaction deadlocked

---
 src/shard.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 3788fb3..99f4c34 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -578,7 +578,8 @@ impl Shard {
 
     pub(crate) fn flush(&self) -> Result<()> {
         //self.mmap.flush()? -- fdatasync should take care of that as well
-        let files_guard = self.files.read();
+        // recursive, because flush_aggregation is called while the files are locked for reading
+        let files_guard = self.files.read_recursive();
         files_guard.0.file.sync_data()?;
         // when compacting, changes to rows that were already compacted are written to the target
         if let Some(ref target) = files_guard.1 {
-- 
2.43.0


From cf32286e9234f0bf3beefc7e585076482cf29faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:50 +0000
Subject: [PATCH 26/31] fix: with flush aggregation, setting a key to the value
 it already has returned before that value was synced

---
 src/shard.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 99f4c34..8be9680 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -957,11 +957,12 @@ impl Shard {
                     .wasted_bytes
                     .fetch_add((k.len() + existing_val.len()) as u64, Ordering::Relaxed);
                 self.stats.num_updates.fetch_add(1, Ordering::Relaxed);
-                #[cfg(feature = "flush_aggregation")]
-                {
-                    drop(row_guard);
-                    self.flush_aggregation()?;
-                }
+            }
+            // even if the value is the same, whoever has written it may not have synced it yet
+            #[cfg(feature = "flush_aggregation")]
+            {
+                drop(row_guard);
+                self.flush_aggregation()?;
             }
             return Ok(TryReplaceStatus::KeyExistsReplaced(existing_val));
         }
-- 
2.43.0


From 53ab9893d92ef7eb37033164bae813b0b5b0bf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:19 +0000
Subject: [PATCH 27/31] fix: with flush aggregation, a failed sync was reported
 only to one of the writers relying on it

---
 src/shard.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 8be9680..9c80f77 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -363,7 +363,8 @@ pub(crate) struct Shard {
     // the last compaction failed midway, i.e., its target exists but no one is working on it
     compaction_failed: Arc<AtomicBool>,
     #[cfg(feature = "flush_aggregation")]
-    sync_agg_mutex: parking_lot::Mutex<()>,
+    // holds whether the last sync failed
+    sync_agg_mutex: parking_lot::Mutex<bool>,
     #[cfg(feature = "flush_aggregation")]
     in_sync_agg_delay: std::sync::atomic::AtomicBool,
 }
@@ -481,7 +482,7 @@ impl Shard {
             compaction_handle: Arc::new(Mutex::new(None)),
             compaction_failed: Arc::new(AtomicBool::new(false)),
             #[cfg(feature = "flush_aggregation")]
-            sync_agg_mutex: parking_lot::Mutex::new(()),
+            sync_agg_mutex: parking_lot::Mutex::new(false),
             #[cfg(feature = "flush_aggregation")]
             in_sync_agg_delay: std::sync::atomic::AtomicBool::new(false),
         })
@@ -510,7 +511,7 @@ impl Shard {
             compaction_handle: Arc::new(Mutex::new(None)),
             compaction_failed: Arc::new(AtomicBool::new(false)),
             #[cfg(feature = "flush_aggregation")]
-            sync_agg_mutex: parking_lot::Mutex::new(()),
+            sync_agg_mutex: parking_lot::Mutex::new(false),
             #[cfg(feature = "flush_aggregation")]
             in_sync_agg_delay: std::sync::atomic::AtomicBool::new(false),
         })
@@ -891,24 +892,26 @@ impl Shard {
             return Ok(());
         };
 
-        let do_sync = || {
+        let do_sync = |failed: &mut bool| {
             self.in_sync_agg_delay.store(true, Ordering::SeqCst);
             std::thread::sleep(delay);
             self.in_sync_agg_delay.store(false, Ordering::SeqCst);
-            self.flush()
+            let res = self.flush();
+            *failed = res.is_err();
+            res
         };
 
-        if let Some(_guard) = self.sync_agg_mutex.try_lock() {
+        if let Some(mut failed) = self.sync_agg_mutex.try_lock() {
             // we're the first ones here. wait for the aggregation duration and sync the file
-            do_sync()?;
+            do_sync(&mut failed)?;
         } else {
             // another thread is currently sync'ing, we're waiting in line. if the holder of the lock is in the
             // sleep (aggregation) phase, we can just wait for it to finish and return -- the other thread will
-            // have sync'ed us by the time we got the lock. otherwise, we'll need to sync as well
+            // have sync'ed us by the time we got the lock. otherwise (or if it failed), we'll need to sync as well
             let was_in_delay = self.in_sync_agg_delay.load(Ordering::Relaxed);
-            let _guard = self.sync_agg_mutex.lock();
-            if !was_in_delay {
-                do_sync()?;
+            let mut failed = self.sync_agg_mutex.lock();
+            if !was_in_delay || *failed {
+                do_sync(&mut failed)?;
             }
         }
         Ok(())
-- 
2.43.0


From 099b35eaded7ab69b8b0168a9aafaf202280df28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 28/31] fix: a compaction that began as the previous one ended
 could kill the compaction thread, failing later writes

---
 src/shard.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 9c80f77..141b9a6 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -306,7 +306,8 @@ impl CompactionThreadPool {
                     if res.is_err() {
                         failed.store(true, Ordering::Release);
                     }
-                    handle_tx.send(res)?;
+                    // the next compaction of this shard may begin before we get here, dropping our handle
+                    _ = handle_tx.send(res);
                 }
                 Ok(())
             });
-- 
2.43.0


From f002679e60f82bf6148148597074ced30f05eb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:15 +0000
Subject: [PATCH 29/31] fix: a file whose name resembles a shard's made opening
 the store panic or was deleted

---
 src/router.rs | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 39f1193..d090d86 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -100,6 +100,16 @@ impl ShardRouter {
         })
     }
 
+    // splits the name of a file of ours into its prefix and span, e.g., `shard_0000-8000`. other files that happen to be
+    // named similarly are not to be touched
+    fn parse_filename(filename: &str) -> Option<(&str, Range<u32>)> {
+        let (prefix, span) = filename.split_once('_')?;
+        let (start, end) = span.split_once('-')?;
+        let start = u32::from_str_radix(start, 16).ok()?;
+        let end = u32::from_str_radix(end, 16).ok()?;
+        (span == format!("{start:04x}-{end:04x}")).then_some((prefix, start..end))
+    }
+
     fn load(
         config: &Arc<InternalConfig>,
         stats: &Arc<InternalStats>,
@@ -123,23 +133,18 @@ impl ShardRouter {
             if !filetype.is_file() {
                 continue;
             }
-            if filename.starts_with("bottom_")
-                || filename.starts_with("top_")
-                || filename.starts_with("merge_")
-            {
-                std::fs::remove_file(entry.path())?;
-                continue;
-            } else if !filename.starts_with("shard_") {
-                continue;
-            }
-            let Some((_, span)) = filename.split_once("_") else {
-                continue;
-            };
-            let Some((start, end)) = span.split_once("-") else {
+            let Some((prefix, Range { start, end })) = Self::parse_filename(filename) else {
+                // not one of our files
                 continue;
             };
-            let start = u32::from_str_radix(start, 16).expect(filename);
-            let end = u32::from_str_radix(end, 16).expect(filename);
+            match prefix {
+                "bottom" | "top" | "merge" => {
+                    std::fs::remove_file(entry.path())?;
+                    continue;
+                }
+                "shard" => {}
+                _ => continue,
+            }
 
             ensure!(
                 start < end && end <= Self::END_OF_SHARDS,
@@ -223,11 +228,10 @@ impl ShardRouter {
             if !filetype.is_file() {
                 continue;
             }
-            if filename.starts_with("shard_")
-                || filename.starts_with("compact_")
-                || filename.starts_with("bottom_")
-                || filename.starts_with("top_")
-            {
+            if matches!(
+                Self::parse_filename(filename),
+                Some(("shard" | "compact" | "bottom" | "top", _))
+            ) {
                 std::fs::remove_file(entry.path())?;
             }
         }
-- 
2.43.0


From 355c172762a4a8fc4c52570760fc45b41d6047a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:09 +0000
Subject: [PATCH 30/31] fix: clearing a shard of an unsupported version kept
 its unfinished compaction, misreading its contents

---
 src/shard.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 141b9a6..8a7df00 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -383,6 +383,9 @@ impl Shard {
         let filename = config
             .dir_path
             .join(format!("shard_{:04x}-{:04x}", span.start, span.end));
+        let compacted_filename = config
+            .dir_path
+            .join(format!("compact_{:04x}-{:04x}", span.start, span.end));
         let file = OpenOptions::new()
             .create(true)
             .read(true)
@@ -390,6 +393,14 @@ impl Shard {
             .truncate(truncate)
             .open(&filename)?;
 
+        // an unfinished compaction of the cleared file goes with it
+        let clear_file = |file: &File| -> Result<()> {
+            match std::fs::remove_file(&compacted_filename) {
+                Err(e) if e.kind() != std::io::ErrorKind::NotFound => return Err(e.into()),
+                _ => Ok(file.set_len(0)?),
+            }
+        };
+
         let mut file_size = file.metadata()?.len();
         if file_size != 0 {
             let mut meta_header = MetaHeader::default();
@@ -403,7 +414,7 @@ impl Shard {
                 || meta_header.version != SHARD_FILE_VERSION
             {
                 if config.clear_on_unsupported_version || MmapFile::is_uninitialized(&file)? {
-                    file.set_len(0)?;
+                    clear_file(&file)?;
                     file_size = 0;
                 } else {
                     bail!(
@@ -417,7 +428,7 @@ impl Shard {
 
             if file_size != 0 && file_size < HEADER_SIZE {
                 if config.clear_on_unsupported_version {
-                    file.set_len(0)?;
+                    clear_file(&file)?;
                     file_size = 0;
                 } else {
                     bail!("corrupt shard file (size={})", file_size);
@@ -443,11 +454,8 @@ impl Shard {
 
         let mut mmap_file = MmapFile::new(file, config.mlock_headers)?;
 
-        let compacted_filename = config
-            .dir_path
-            .join(format!("compact_{:04x}-{:04x}", span.start, span.end));
         if truncate {
-            _ = std::fs::remove_file(compacted_filename);
+            _ = std::fs::remove_file(&compacted_filename);
         } else {
             // ignoring the file for any other reason would lose what was written to it
             let compacted_file = match OpenOptions::new()
@@ -462,12 +470,12 @@ impl Shard {
             if let Some(compacted_file) = compacted_file {
                 if compacted_file.metadata()?.len() < HEADER_SIZE {
                     // we crashed right when the compaction began. mapping it would crash us if it can't be extended
-                    std::fs::remove_file(compacted_filename)?;
+                    std::fs::remove_file(&compacted_filename)?;
                 } else {
                     let target = MmapFile::new(compacted_file, config.mlock_headers)?;
                     Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
                     target.file.sync_data()?;
-                    std::fs::rename(compacted_filename, filename)?;
+                    std::fs::rename(&compacted_filename, filename)?;
                     mmap_file = target;
                 }
             }
-- 
2.43.0


From 597f7134f05753217ece5ea0937bc754d00fddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:36 +0000
Subject: [PATCH 31/31] fix: iterators over lists and queues announced more
 items than they return when there are holes

---
 src/lists.rs  | 3 ++-
 src/queues.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index 945d2c1..2e89cdc 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -108,7 +108,8 @@ impl<'a> Iterator for ListIterator<'a> {
 
     fn size_hint(&self) -> (usize, Option<usize>) {
         if let Some(ref range) = self.range {
-            range.size_hint()
+            // any of the remaining indices may be a hole
+            (0, range.size_hint().1)
         } else {
             (0, None)
         }
diff --git a/src/queues.rs b/src/queues.rs
index c0fa447..0d1f4b9 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -86,7 +86,8 @@ impl<'a> Iterator for QueueIterator<'a> {
 
     fn size_hint(&self) -> (usize, Option<usize>) {
         if let Some(ref range) = self.range {
-            range.size_hint()
+            // any of the remaining indices may be a hole
+            (0, range.size_hint().1)
         } else {
             (0, None)
         }
-- 
2.43.0

