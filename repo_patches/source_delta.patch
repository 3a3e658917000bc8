From cd930b4fbf15ad3789fd4164c20c2b85ed46522a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:22 +0000
Subject: [PATCH 01/12] fix: log synchronisation must not lower the decided
 index

---
 omnipaxos/src/storage/internal_storage.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index 39b6f48..793306e 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -316,6 +316,9 @@ where
         decided_idx: usize,
         log_sync: Option<LogSync<T>>,
     ) -> StorageResult<usize> {
+        // The decided index never regresses: a leader that got its quorum without us may know of
+        // fewer decided entries than we do.
+        let decided_idx = decided_idx.max(self.get_decided_idx());
         self.state_cache.accepted_round = accepted_round;
         self.state_cache.decided_idx = decided_idx;
         let mut sync_txn: Vec<StorageOp<T>> = vec![
-- 
2.43.0


From 10a03f253febd90821199074683c896d8cba00b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:22 +0000
Subject: [PATCH 02/12] fix: merge a delta snapshot into the decided log before
 the sync

---
 omnipaxos/src/storage/internal_storage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index 793306e..4029bcc 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -319,8 +319,6 @@ where
         // The decided index never regresses: a leader that got its quorum without us may know of
         // fewer decided entries than we do.
         let decided_idx = decided_idx.max(self.get_decided_idx());
-        self.state_cache.accepted_round = accepted_round;
-        self.state_cache.decided_idx = decided_idx;
         let mut sync_txn: Vec<StorageOp<T>> = vec![
             StorageOp::SetAcceptedRound(accepted_round),
             StorageOp::SetDecidedIndex(decided_idx),
@@ -358,6 +356,9 @@ where
                 None => (),
             }
         }
+        // Updated only here, as the base of a delta snapshot is our decided log before the sync.
+        self.state_cache.accepted_round = accepted_round;
+        self.state_cache.decided_idx = decided_idx;
         self.storage.write_atomically(sync_txn)?;
         Ok(self.state_cache.accepted_idx)
     }
-- 
2.43.0


From f6d7aaf9a20ed4ade84a99d206d526de4e6aa908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:22 +0000
Subject: [PATCH 03/12] fix: do not add entries to an AcceptDecide queued
 before a re-sync

---
 omnipaxos/src/sequence_paxos/leader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index fd9379f..08db54e 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -174,6 +174,8 @@ where
         };
         let log_sync = self.create_log_sync(followers_valid_entries_idx, followers_decided_idx);
         self.leader_state.increment_seq_num_session(to);
+        // Entries accepted from now on must not be added to an AcceptDecide of the old session
+        self.leader_state.set_latest_accept_meta(to, None);
         let acc_sync = AcceptSync {
             n: current_n,
             seq_num: self.leader_state.next_seq_num(to),
-- 
2.43.0


From 9e49beb7d65246e174fb18b152db2da94dd40b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:22 +0000
Subject: [PATCH 04/12] fix: forward a buffered reconfiguration to the new
 leader

---
 omnipaxos/src/sequence_paxos/follower.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/follower.rs b/omnipaxos/src/sequence_paxos/follower.rs
index e363e33..3fca8d1 100644
--- a/omnipaxos/src/sequence_paxos/follower.rs
+++ b/omnipaxos/src/sequence_paxos/follower.rs
@@ -83,6 +83,9 @@ where
         if !proposals.is_empty() {
             self.forward_proposals(proposals);
         }
+        if let Some(ss) = self.buffered_stopsign.take() {
+            self.forward_stopsign(ss);
+        }
     }
 
     pub(crate) fn handle_acceptdecide(&mut self, acc_dec: AcceptDecide<T>) {
-- 
2.43.0


From 5b2d4d175149e66c03a27de74361448e912b3232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:22 +0000
Subject: [PATCH 05/12] fix: a storage error while applying a forwarded trim
 must not be ignored

---
 omnipaxos/src/sequence_paxos/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index 3692820..28e48d2 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -215,10 +215,13 @@ where
     }
 
     fn handle_compaction(&mut self, c: Compaction) {
-        // try trimming and snapshotting forwarded compaction. Errors are ignored as that the data will still be kept.
+        // try trimming and snapshotting forwarded compaction. Rejections are ignored as that the data will still be kept.
         match c {
             Compaction::Trim(idx) => {
-                let _ = self.internal_storage.try_trim(idx);
+                let _ = self.internal_storage.try_trim(idx).map_err(|e| {
+                    e.downcast::<CompactionErr>()
+                        .expect("storage error while trying to trim log")
+                });
             }
             Compaction::Snapshot(idx) => {
                 let _ = self.snapshot(idx, true);
-- 
2.43.0


From 20dcdabd3d58c88896db6dc20294f4eb93a51e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:58 +0000
Subject: [PATCH 06/12] fix: an unreadable log must not be taken for an empty
 one on open

---
 omnipaxos_storage/src/persistent_storage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omnipaxos_storage/src/persistent_storage.rs b/omnipaxos_storage/src/persistent_storage.rs
index a117f46..9194f93 100644
--- a/omnipaxos_storage/src/persistent_storage.rs
+++ b/omnipaxos_storage/src/persistent_storage.rs
@@ -143,6 +143,10 @@ where
                 key[0], key[1], key[2], key[3], key[4], key[5], key[6], key[7],
             ]) + 1
         } else {
+            // The iterator is also invalid if reading the log failed.
+            log_iter
+                .status()
+                .expect("Couldn't recover storage: Reading the log failed.");
             // No max key in the database. Either there's no entry yet added or they have been
             // trimmed away.
             match db
-- 
2.43.0


From f60830d8711a1f963b91f81dea390f64cffa847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:49 +0000
Subject: [PATCH 07/12] fix: a failed atomic write must not leave operations
 for the next one

---
 omnipaxos_storage/src/persistent_storage.rs | 47 ++++++++++++++-------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/omnipaxos_storage/src/persistent_storage.rs b/omnipaxos_storage/src/persistent_storage.rs
index 9194f93..07e4a7c 100644
--- a/omnipaxos_storage/src/persistent_storage.rs
+++ b/omnipaxos_storage/src/persistent_storage.rs
@@ -184,6 +184,26 @@ where
             .expect("Couldn't find RocksDB log column family")
     }
 
+    fn batch_ops(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
+        for op in ops {
+            match op {
+                StorageOp::AppendEntry(entry) => self.batch_append_entry(entry)?,
+                StorageOp::AppendEntries(entries) => self.batch_append_entries(entries)?,
+                StorageOp::AppendOnPrefix(from_idx, entries) => {
+                    self.batch_append_on_prefix(from_idx, entries)?
+                }
+                StorageOp::SetPromise(bal) => self.batch_set_promise(bal)?,
+                StorageOp::SetDecidedIndex(idx) => self.batch_set_decided_idx(idx)?,
+                StorageOp::SetAcceptedRound(bal) => self.batch_set_accepted_round(bal)?,
+                StorageOp::SetCompactedIdx(idx) => self.batch_set_compacted_idx(idx)?,
+                StorageOp::Trim(idx) => self.batch_trim(idx)?,
+                StorageOp::SetStopsign(ss) => self.batch_set_stopsign(ss)?,
+                StorageOp::SetSnapshot(snap) => self.batch_set_snapshot(snap)?,
+            }
+        }
+        Ok(())
+    }
+
     fn batch_append_entry(&mut self, entry: T) -> StorageResult<()> {
         self.write_batch.put_cf(
             self.db.cf_handle(LOG).unwrap(),
@@ -280,23 +300,18 @@ where
     T::Snapshot: Serialize + for<'a> Deserialize<'a>,
 {
     fn write_atomically(&mut self, ops: Vec<StorageOp<T>>) -> StorageResult<()> {
-        for op in ops {
-            match op {
-                StorageOp::AppendEntry(entry) => self.batch_append_entry(entry)?,
-                StorageOp::AppendEntries(entries) => self.batch_append_entries(entries)?,
-                StorageOp::AppendOnPrefix(from_idx, entries) => {
-                    self.batch_append_on_prefix(from_idx, entries)?
-                }
-                StorageOp::SetPromise(bal) => self.batch_set_promise(bal)?,
-                StorageOp::SetDecidedIndex(idx) => self.batch_set_decided_idx(idx)?,
-                StorageOp::SetAcceptedRound(bal) => self.batch_set_accepted_round(bal)?,
-                StorageOp::SetCompactedIdx(idx) => self.batch_set_compacted_idx(idx)?,
-                StorageOp::Trim(idx) => self.batch_trim(idx)?,
-                StorageOp::SetStopsign(ss) => self.batch_set_stopsign(ss)?,
-                StorageOp::SetSnapshot(snap) => self.batch_set_snapshot(snap)?,
-            }
+        let old_next_log_key = self.next_log_key;
+        let batched = self.batch_ops(ops);
+        // Leave nothing of this write behind for the next one, also if batching failed halfway.
+        let batch = std::mem::take(&mut self.write_batch);
+        let result = match batched {
+            Ok(_) => self.db.write(batch).map_err(|e| e.into()),
+            Err(e) => Err(e),
+        };
+        if result.is_err() {
+            self.next_log_key = old_next_log_key;
         }
-        Ok(self.db.write(std::mem::take(&mut self.write_batch))?)
+        result
     }
 
     fn append_entry(&mut self, entry: T) -> StorageResult<()> {
-- 
2.43.0


From 3bd6d0a24d57debae34dcbaf8e0533c69af7a982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:55 +0000
Subject: [PATCH 08/12] fix: reject out-of-range quorum sizes before adding
 them

ClusterConfig::validate added the two flexible quorum sizes before checking
that they lie in 2..=number of nodes, so sizes whose sum exceeds usize::MAX
made it panic (overflow checks on) instead of returning an error. Check the
ranges first; the set of accepted configurations is unchanged.
---
 omnipaxos/src/omni_paxos.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omnipaxos/src/omni_paxos.rs b/omnipaxos/src/omni_paxos.rs
index f98c9ba..8ccd873 100644
--- a/omnipaxos/src/omni_paxos.rs
+++ b/omnipaxos/src/omni_paxos.rs
@@ -110,10 +110,6 @@ impl ClusterConfig {
             write_quorum_size,
         }) = self.flexible_quorum
         {
-            valid_config!(
-                read_quorum_size + write_quorum_size > num_nodes,
-                "The quorums must overlap i.e., the sum of their sizes must exceed the # of nodes"
-            );
             valid_config!(
                 read_quorum_size >= 2 && read_quorum_size <= num_nodes,
                 "Read quorum must be in range 2 to # of nodes in the cluster"
@@ -122,6 +118,10 @@ impl ClusterConfig {
                 write_quorum_size >= 2 && write_quorum_size <= num_nodes,
                 "Write quorum must be in range 2 to # of nodes in the cluster"
             );
+            valid_config!(
+                read_quorum_size + write_quorum_size > num_nodes,
+                "The quorums must overlap i.e., the sum of their sizes must exceed the # of nodes"
+            );
             valid_config!(
                 read_quorum_size >= write_quorum_size,
                 "Read quorum size must be >= the write quorum size."
-- 
2.43.0


From 8f854dbf3f8e9a503d55278ac9555f64557f6150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:53 +0000
Subject: [PATCH 09/12] fix: a received LRU UniCache keeps its capacity

Deserializing an LRU cache took the number of its elements for its capacity: an empty cache panicked and a
partly filled one evicted entries that the leader still encodes.
---
 omnipaxos/src/unicache/lru_cache.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omnipaxos/src/unicache/lru_cache.rs b/omnipaxos/src/unicache/lru_cache.rs
index 87b9ff2..7124e96 100644
--- a/omnipaxos/src/unicache/lru_cache.rs
+++ b/omnipaxos/src/unicache/lru_cache.rs
@@ -206,8 +206,8 @@ mod serialization {
         where
             S: SeqAccess<'de>,
         {
-            let size = seq.size_hint().unwrap_or(u8::MAX as usize);
-            let mut lru = LruCache::new(NonZeroUsize::new(size).unwrap());
+            // The number of elements is not the capacity: it is bounded by the size of the UniCache
+            let mut lru = LruCache::unbounded();
             while let Some((key, value)) = seq.next_element::<(Encodable, Encoded)>()? {
                 lru.push(key, value);
             }
-- 
2.43.0


From 02270da9a415a8722045e2d6a4cc6c4ea76819d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:53 +0000
Subject: [PATCH 10/12] fix: the LFU UniCache sent to a follower keeps
 frequencies and eviction order

The decoder was rebuilt in the iteration order of a hash map with all frequencies reset, so that the next
eviction chose another entry than the leader's encoder.
---
 omnipaxos/src/unicache/lfu/mod.rs   | 22 ++++++++++++++++++++++
 omnipaxos/src/unicache/lfu_cache.rs |  8 +-------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/omnipaxos/src/unicache/lfu/mod.rs b/omnipaxos/src/unicache/lfu/mod.rs
index f280dab..84a28f9 100644
--- a/omnipaxos/src/unicache/lfu/mod.rs
+++ b/omnipaxos/src/unicache/lfu/mod.rs
@@ -144,6 +144,28 @@ impl<K: Hash + Eq + Clone, V> LFUCache<K, V> {
         }
     }
 
+    /// Returns a cache that maps the values back to their keys, with the same frequencies and eviction order.
+    pub fn inverted(&self) -> LFUCache<V, K>
+    where
+        V: Hash + Eq + Clone,
+    {
+        let values = self.values.iter().map(|(key, counter)| {
+            let value = key.clone();
+            let count = counter.count;
+            (counter.value.clone(), ValueCounter { value, count })
+        });
+        let frequency_bin = self.frequency_bin.iter().map(|(frequency, keys)| {
+            let bin = keys.0.iter().map(|key| self.values[key].value.clone());
+            (*frequency, LinkedHashSetWrapper(bin.collect()))
+        });
+        LFUCache {
+            values: values.collect(),
+            frequency_bin: frequency_bin.collect(),
+            capacity: self.capacity,
+            min_frequency: self.min_frequency,
+        }
+    }
+
     pub fn set(&mut self, key: K, value: V) {
         if let Some(value_counter) = self.values.get_mut(&key) {
             value_counter.value = value;
diff --git a/omnipaxos/src/unicache/lfu_cache.rs b/omnipaxos/src/unicache/lfu_cache.rs
index f7e9530..01c71d9 100644
--- a/omnipaxos/src/unicache/lfu_cache.rs
+++ b/omnipaxos/src/unicache/lfu_cache.rs
@@ -22,15 +22,9 @@ where
 {
     /// A cloned version of the cache but *ONLY* with the decoder. The clone is used to send the cache to followers, who will only use the decoder.
     fn clone(&self) -> Self {
-        let mut lfu_cache_decoder = LFUCache::with_capacity(self.size);
-        self.lfu_cache_encoder
-            .iter()
-            .for_each(|(encodable, encoded)| {
-                lfu_cache_decoder.set(encoded.clone(), encodable.clone());
-            });
         Self {
             lfu_cache_encoder: LFUCache::with_capacity(1),
-            lfu_cache_decoder,
+            lfu_cache_decoder: self.lfu_cache_encoder.inverted(),
             encoding: self.encoding.clone(),
             size: self.size,
         }
-- 
2.43.0


From e8326237478769a0747587a96533019d1e55cd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:53 +0000
Subject: [PATCH 11/12] fix: a new leader starts with an empty UniCache

The cache received as follower holds an encoder of capacity one that does not match its decoder.
---
 omnipaxos/src/sequence_paxos/leader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index 08db54e..7dc25b3 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -25,6 +25,9 @@ where
             // Flush any pending writes
             // Don't have to handle flushed entries here because we will sync with followers
             let _ = self.internal_storage.flush_batch().expect(WRITE_ERROR_MSG);
+            // A cache received as follower can only decode
+            #[cfg(feature = "unicache")]
+            self.internal_storage.set_unicache(crate::unicache::UniCache::new());
             self.internal_storage.set_promise(n).expect(WRITE_ERROR_MSG);
             /* insert my promise */
             let na = self.internal_storage.get_accepted_round();
-- 
2.43.0


From 18ea5344dbc521c6d99973db7a8f996bd4e71ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:53 +0000
Subject: [PATCH 12/12] fix: flush the batch before sending the UniCache to a
 late follower

The cache reflected the encodings of batched entries, which were sent to the follower once more afterwards.
---
 omnipaxos/src/sequence_paxos/leader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index 7dc25b3..fc7cd6f 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -313,6 +313,9 @@ where
             );
         }
         if prom.n == self.leader_state.n_leader {
+            // The cache sent in AcceptSync must not be ahead of the log sent with it
+            #[cfg(feature = "unicache")]
+            self.flush_batch_leader();
             self.leader_state.set_promise(prom, from, false);
             self.send_accsync(from);
         }
-- 
2.43.0

