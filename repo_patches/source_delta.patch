From 570b24252008f5ee01040e75e37cb654418c9464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:37 +0000
Subject: [PATCH 01/24] fix: exclude the StopSign when computing the synced log
 prefix

Accepted and decided indexes count an accepted StopSign. When such an index was
used as the prefix for syncing a log (Promise or AcceptSync), the receiver's
accepted index ended up one past its log.
---
 omnipaxos/src/sequence_paxos/mod.rs       |  7 ++++++-
 omnipaxos/src/storage/internal_storage.rs | 10 +++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index 3692820..56e0ada 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -402,7 +402,12 @@ where
         common_prefix_idx: usize,
         other_logs_decided_idx: usize,
     ) -> LogSync<T> {
-        let decided_idx = self.internal_storage.get_decided_idx();
+        // Accepted and decided indexes count an accepted StopSign, but the StopSign is synced separately
+        // from the log entries.
+        let log_len = self.internal_storage.get_accepted_idx_without_stopsign();
+        let common_prefix_idx = common_prefix_idx.min(log_len);
+        let other_logs_decided_idx = other_logs_decided_idx.min(log_len);
+        let decided_idx = self.internal_storage.get_decided_idx_without_stopsign();
         let (decided_snapshot, suffix, sync_idx) =
             if T::Snapshot::use_snapshots() && decided_idx > common_prefix_idx {
                 // Note: We snapshot from the other log's decided index and not the common prefix because
diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index 39b6f48..9eeb9f5 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -466,7 +466,7 @@ where
         self.state_cache.decided_idx
     }
 
-    fn get_decided_idx_without_stopsign(&self) -> usize {
+    pub(crate) fn get_decided_idx_without_stopsign(&self) -> usize {
         match self.stopsign_is_decided() {
             true => self.get_decided_idx() - 1,
             false => self.get_decided_idx(),
@@ -486,6 +486,14 @@ where
         self.state_cache.accepted_idx
     }
 
+    /// The length of the replicated log without the StopSign, as if log was never compacted.
+    pub(crate) fn get_accepted_idx_without_stopsign(&self) -> usize {
+        match self.state_cache.stopsign {
+            Some(_) => self.get_accepted_idx() - 1,
+            None => self.get_accepted_idx(),
+        }
+    }
+
     pub(crate) fn get_suffix(&self, from: usize) -> StorageResult<Vec<T>> {
         self.storage.get_suffix(from)
     }
-- 
2.43.0


From 9d0feb8efdf7ee58b05c4e4cb4855f9cf6b68bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:37 +0000
Subject: [PATCH 02/24] fix: never lower the decided index when syncing the log

The leader of a new round may have a lower decided index than a follower whose
promise was not part of the leader's quorum.
---
 omnipaxos/src/storage/internal_storage.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index 9eeb9f5..bc8f269 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -316,6 +316,8 @@ where
         decided_idx: usize,
         log_sync: Option<LogSync<T>>,
     ) -> StorageResult<usize> {
+        // A leader might not have learned about everything this server knows is decided
+        let decided_idx = decided_idx.max(self.get_decided_idx());
         self.state_cache.accepted_round = accepted_round;
         self.state_cache.decided_idx = decided_idx;
         let mut sync_txn: Vec<StorageOp<T>> = vec![
-- 
2.43.0


From 96de00af6008ea5224df520daf07ead7e45357c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:54 +0000
Subject: [PATCH 03/24] fix: merge delta snapshots onto what was decided before
 the sync

The decided index was updated before the base snapshot was created, so the base
lacked decided entries (or covered them twice).
---
 omnipaxos/src/storage/internal_storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omnipaxos/src/storage/internal_storage.rs b/omnipaxos/src/storage/internal_storage.rs
index bc8f269..d3b4ea8 100644
--- a/omnipaxos/src/storage/internal_storage.rs
+++ b/omnipaxos/src/storage/internal_storage.rs
@@ -319,7 +319,6 @@ where
         // A leader might not have learned about everything this server knows is decided
         let decided_idx = decided_idx.max(self.get_decided_idx());
         self.state_cache.accepted_round = accepted_round;
-        self.state_cache.decided_idx = decided_idx;
         let mut sync_txn: Vec<StorageOp<T>> = vec![
             StorageOp::SetAcceptedRound(accepted_round),
             StorageOp::SetDecidedIndex(decided_idx),
@@ -333,6 +332,7 @@ where
                     sync_txn.push(StorageOp::SetSnapshot(Some(c)));
                 }
                 Some(SnapshotType::Delta(d)) => {
+                    // A delta extends what was decided before this sync
                     let mut snapshot = self.create_decided_snapshot()?;
                     snapshot.merge(d);
                     self.state_cache.compacted_idx = sync.sync_idx;
@@ -357,6 +357,7 @@ where
                 None => (),
             }
         }
+        self.state_cache.decided_idx = decided_idx;
         self.storage.write_atomically(sync_txn)?;
         Ok(self.state_cache.accepted_idx)
     }
-- 
2.43.0


From 6716f1f00fc2d1cffd57a84a2dec041bd15d0aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:54 +0000
Subject: [PATCH 04/24] fix: sync servers from the trimmed index instead of
 below it

A server whose decided index is below the trimmed index of the server it syncs
with got a suffix starting at the wrong index, or the sender crashed.
---
 omnipaxos/src/sequence_paxos/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index 56e0ada..5b5c622 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -422,11 +422,13 @@ where
                     .expect(READ_ERROR_MSG);
                 (delta_snapshot, suffix, compacted_idx)
             } else {
+                // Trimmed entries are stored by all servers, so the other log also has them.
+                let sync_idx = common_prefix_idx.max(self.internal_storage.get_compacted_idx());
                 let suffix = self
                     .internal_storage
-                    .get_suffix(common_prefix_idx)
+                    .get_suffix(sync_idx)
                     .expect(READ_ERROR_MSG);
-                (None, suffix, common_prefix_idx)
+                (None, suffix, sync_idx)
             };
         LogSync {
             decided_snapshot,
-- 
2.43.0


From 838358389bd708dfd714dcec096dfd4bf16c4555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:59 +0000
Subject: [PATCH 05/24] fix: adopt the decided index that came with the adopted
 log

When the server with the most updated log resets its promise (PrepareReq)
before the leader has a majority of promises, the leader kept its log but
not its decided index. If that log came as a snapshot, the leader ended up
with a decided index below its compacted index.
---
 omnipaxos/src/util.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos/src/util.rs b/omnipaxos/src/util.rs
index 561c349..381fe51 100644
--- a/omnipaxos/src/util.rs
+++ b/omnipaxos/src/util.rs
@@ -174,6 +174,8 @@ where
             })
             .max()
             .unwrap_or_default()
+            // The server whose log was adopted might have reset its promise since then
+            .max(self.max_promise_meta.decided_idx)
     }
 
     pub fn get_promise_meta(&self, pid: NodeId) -> &PromiseMetaData {
-- 
2.43.0


From 4291ef026bf36cce6c30874f46ca331d5381405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:11 +0000
Subject: [PATCH 06/24] fix: trim by the servers' accepted indexes when pids
 have gaps

The minimum accepted index ranged over every slot up to the largest pid,
including pids without a server. Trimming was thus refused forever unless
the pids were 1..n.
---
 omnipaxos/src/sequence_paxos/mod.rs | 9 +++++----
 omnipaxos/src/util.rs               | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index 5b5c622..7a6f936 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -141,9 +141,10 @@ where
     pub(crate) fn trim(&mut self, trim_idx: Option<usize>) -> Result<(), CompactionErr> {
         match self.state {
             (Role::Leader, _) => {
-                let min_all_accepted_idx = self.leader_state.get_min_all_accepted_idx();
+                let all_pids = self.peers.iter().copied().chain([self.pid]);
+                let min_all_accepted_idx = self.leader_state.get_min_all_accepted_idx(all_pids);
                 let trimmed_idx = match trim_idx {
-                    Some(idx) if idx <= *min_all_accepted_idx => idx,
+                    Some(idx) if idx <= min_all_accepted_idx => idx,
                     None => {
                         #[cfg(feature = "logging")]
                         trace!(
@@ -151,10 +152,10 @@ where
                             "No trim index provided, using min_las_idx: {:?}",
                             min_all_accepted_idx
                         );
-                        *min_all_accepted_idx
+                        min_all_accepted_idx
                     }
                     _ => {
-                        return Err(CompactionErr::NotAllDecided(*min_all_accepted_idx));
+                        return Err(CompactionErr::NotAllDecided(min_all_accepted_idx));
                     }
                 };
                 let result = self.internal_storage.try_trim(trimmed_idx);
diff --git a/omnipaxos/src/util.rs b/omnipaxos/src/util.rs
index 381fe51..50c8181 100644
--- a/omnipaxos/src/util.rs
+++ b/omnipaxos/src/util.rs
@@ -185,11 +185,12 @@ where
         }
     }
 
-    pub fn get_min_all_accepted_idx(&self) -> &usize {
-        self.accepted_indexes
-            .iter()
+    /// The minimum index accepted by all of `pids`. There might be pids without a server among the
+    /// slots in `accepted_indexes`, as pids do not have to be consecutive.
+    pub fn get_min_all_accepted_idx(&self, pids: impl Iterator<Item = NodeId>) -> usize {
+        pids.map(|pid| self.get_accepted_idx(pid))
             .min()
-            .expect("Should be all initialised to 0!")
+            .unwrap_or_default()
     }
 
     pub fn reset_latest_accept_meta(&mut self) {
-- 
2.43.0


From 777d21717fabb41e004080bef7ee2cd8333eeb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:39 +0000
Subject: [PATCH 07/24] fix: do not get stuck with the ballot of a leader that
 crashed

A server that has promised the ballot of a candidate that crashed before it
reached a majority could never follow the current leader, whose ballot is
lower, and never took over either, because its neighbors were happy.
---
 omnipaxos/src/ballot_leader_election.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/omnipaxos/src/ballot_leader_election.rs b/omnipaxos/src/ballot_leader_election.rs
index 1a9c677..6e6443b 100644
--- a/omnipaxos/src/ballot_leader_election.rs
+++ b/omnipaxos/src/ballot_leader_election.rs
@@ -200,8 +200,9 @@ impl BallotLeaderElection {
         seq_paxos_promise: Ballot,
     ) -> Option<Ballot> {
         self.update_leader();
+        let was_happy = self.happy;
         self.update_happiness(seq_paxos_state);
-        self.check_takeover();
+        self.check_takeover(was_happy);
         self.new_hb_round();
         if seq_paxos_promise > self.leader {
             // Sync leader with Paxos promise in case ballot didn't make it to BLE followers
@@ -257,9 +258,14 @@ impl BallotLeaderElection {
         };
     }
 
-    fn check_takeover(&mut self) {
+    fn check_takeover(&mut self, was_happy: bool) {
         if !self.happy {
-            let all_neighbors_unhappy = self.heartbeat_replies.iter().all(|r| !r.happy);
+            // If we stay unhappy, then neighbors that are happy with a lower ballot than our leader's
+            // cannot lead us to a leader. The server of our leader ballot might have lost it by crashing.
+            let all_neighbors_unhappy = self
+                .heartbeat_replies
+                .iter()
+                .all(|r| !r.happy || (!was_happy && r.leader < self.leader));
             let im_quorum_connected = self
                 .quorum
                 .is_prepare_quorum(self.heartbeat_replies.len() + 1);
-- 
2.43.0


From e4cf801d5f3c74c4df84a4d0a3eefe7ff2b5b390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:03 +0000
Subject: [PATCH 08/24] fix: elect a server whose own ballot becomes the
 highest by set_priority

A server did not consider its own ballot when looking for the highest one.
When raising its priority made it the highest, it kept following the old
leader while the others waited for it, and no leader was elected.
---
 omnipaxos/src/ballot_leader_election.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omnipaxos/src/ballot_leader_election.rs b/omnipaxos/src/ballot_leader_election.rs
index 6e6443b..310c511 100644
--- a/omnipaxos/src/ballot_leader_election.rs
+++ b/omnipaxos/src/ballot_leader_election.rs
@@ -222,10 +222,10 @@ impl BallotLeaderElection {
 
     fn update_leader(&mut self) {
         let max_reply_ballot = self.heartbeat_replies.iter().map(|r| r.ballot).max();
-        if let Some(max) = max_reply_ballot {
-            if max > self.leader {
-                self.leader = max;
-            }
+        // Our own ballot might be the maximum if our priority was changed
+        let max = max_reply_ballot.map_or(self.current_ballot, |b| b.max(self.current_ballot));
+        if max > self.leader {
+            self.leader = max;
         }
     }
 
-- 
2.43.0


From 5a10ee59d89535dcfcd5a1f1549213be7464c904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:45 +0000
Subject: [PATCH 09/24] fix: do not add entries to an AcceptDecide of the
 previous session

A follower that promises again is synced with a new AcceptSync. Entries that
were appended after that could still be added to an AcceptDecide that was
queued before the AcceptSync. The follower drops that message but accepts
the following ones, and ends up with a different log than the leader.
---
 omnipaxos/src/sequence_paxos/leader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index fd9379f..5cd563c 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -174,6 +174,8 @@ where
         };
         let log_sync = self.create_log_sync(followers_valid_entries_idx, followers_decided_idx);
         self.leader_state.increment_seq_num_session(to);
+        // Following entries must not be added to an AcceptDecide of the previous session
+        self.leader_state.set_latest_accept_meta(to, None);
         let acc_sync = AcceptSync {
             n: current_n,
             seq_num: self.leader_state.next_seq_num(to),
-- 
2.43.0


From fecb1f1c69f530c014d2c38425f84a694905acf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:00 +0000
Subject: [PATCH 10/24] fix: do not bound a deserialised LRU cache by its
 current length

---
 omnipaxos/src/unicache/lru_cache.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omnipaxos/src/unicache/lru_cache.rs b/omnipaxos/src/unicache/lru_cache.rs
index 87b9ff2..6dbc80d 100644
--- a/omnipaxos/src/unicache/lru_cache.rs
+++ b/omnipaxos/src/unicache/lru_cache.rs
@@ -206,8 +206,9 @@ mod serialization {
         where
             S: SeqAccess<'de>,
         {
-            let size = seq.size_hint().unwrap_or(u8::MAX as usize);
-            let mut lru = LruCache::new(NonZeroUsize::new(size).unwrap());
+            // The number of serialized items says nothing about the capacity. `LRUniCache` bounds
+            // the number of items by its own `size`.
+            let mut lru = LruCache::unbounded();
             while let Some((key, value)) = seq.next_element::<(Encodable, Encoded)>()? {
                 lru.push(key, value);
             }
-- 
2.43.0


From 22a526ea3508fd5b03b049da50b1163f6be7fe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:03 +0000
Subject: [PATCH 11/24] fix: keep frequencies and eviction order when cloning
 the LFU cache

---
 omnipaxos/src/unicache/lfu/mod.rs   | 32 +++++++++++++++++++++++++++++
 omnipaxos/src/unicache/lfu_cache.rs |  8 +-------
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/omnipaxos/src/unicache/lfu/mod.rs b/omnipaxos/src/unicache/lfu/mod.rs
index f280dab..d890702 100644
--- a/omnipaxos/src/unicache/lfu/mod.rs
+++ b/omnipaxos/src/unicache/lfu/mod.rs
@@ -144,6 +144,38 @@ impl<K: Hash + Eq + Clone, V> LFUCache<K, V> {
         }
     }
 
+    /// Returns the cache with keys and values swapped, which has the same frequencies and eviction order.
+    pub fn inverted(&self) -> LFUCache<V, K>
+    where
+        V: Hash + Eq + Clone,
+    {
+        let values = self
+            .values
+            .iter()
+            .map(|(key, vc)| {
+                let inverted_vc = ValueCounter {
+                    value: key.clone(),
+                    count: vc.count,
+                };
+                (vc.value.clone(), inverted_vc)
+            })
+            .collect();
+        let frequency_bin = self
+            .frequency_bin
+            .iter()
+            .map(|(frequency, keys)| {
+                let inverted_keys = keys.0.iter().map(|k| self.values[k].value.clone());
+                (*frequency, LinkedHashSetWrapper(inverted_keys.collect()))
+            })
+            .collect();
+        LFUCache {
+            values,
+            frequency_bin,
+            capacity: self.capacity,
+            min_frequency: self.min_frequency,
+        }
+    }
+
     pub fn set(&mut self, key: K, value: V) {
         if let Some(value_counter) = self.values.get_mut(&key) {
             value_counter.value = value;
diff --git a/omnipaxos/src/unicache/lfu_cache.rs b/omnipaxos/src/unicache/lfu_cache.rs
index f7e9530..01c71d9 100644
--- a/omnipaxos/src/unicache/lfu_cache.rs
+++ b/omnipaxos/src/unicache/lfu_cache.rs
@@ -22,15 +22,9 @@ where
 {
     /// A cloned version of the cache but *ONLY* with the decoder. The clone is used to send the cache to followers, who will only use the decoder.
     fn clone(&self) -> Self {
-        let mut lfu_cache_decoder = LFUCache::with_capacity(self.size);
-        self.lfu_cache_encoder
-            .iter()
-            .for_each(|(encodable, encoded)| {
-                lfu_cache_decoder.set(encoded.clone(), encodable.clone());
-            });
         Self {
             lfu_cache_encoder: LFUCache::with_capacity(1),
-            lfu_cache_decoder,
+            lfu_cache_decoder: self.lfu_cache_encoder.inverted(),
             encoding: self.encoding.clone(),
             size: self.size,
         }
-- 
2.43.0


From 670c8f476aba4cd4652d513b88b4085f606c943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:35 +0000
Subject: [PATCH 12/24] fix: start a leader's round with an empty UniCache

---
 omnipaxos/src/sequence_paxos/leader.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index 5cd563c..e319819 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -2,6 +2,8 @@ use super::super::{
     ballot_leader_election::Ballot,
     util::{LeaderState, PromiseMetaData},
 };
+#[cfg(feature = "unicache")]
+use crate::unicache::UniCache;
 use crate::util::{AcceptedMetaData, WRITE_ERROR_MSG};
 
 use super::*;
@@ -25,6 +27,9 @@ where
             // Flush any pending writes
             // Don't have to handle flushed entries here because we will sync with followers
             let _ = self.internal_storage.flush_batch().expect(WRITE_ERROR_MSG);
+            // The cache we got as follower can only decode, followers get a new one in the AcceptSync
+            #[cfg(feature = "unicache")]
+            self.internal_storage.set_unicache(T::UniCache::new());
             self.internal_storage.set_promise(n).expect(WRITE_ERROR_MSG);
             /* insert my promise */
             let na = self.internal_storage.get_accepted_round();
-- 
2.43.0


From 612620a79a94a185050fe2ef33a08354d8749b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:09 +0000
Subject: [PATCH 13/24] fix: sync a follower's UniCache together with the
 batched entries

---
 omnipaxos/src/sequence_paxos/leader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index e319819..57a07e6 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -315,6 +315,9 @@ where
             );
         }
         if prom.n == self.leader_state.n_leader {
+            // The cache sent in the AcceptSync must not be ahead of the entries that are sent
+            #[cfg(feature = "unicache")]
+            self.flush_batch_leader();
             self.leader_state.set_promise(prom, from, false);
             self.send_accsync(from);
         }
-- 
2.43.0


From 062eeb39b71a6820a991fec9301c4d419346e4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:41 +0000
Subject: [PATCH 14/24] fix: end the chain of causes of an InvalidConfig error

ConfigError::source returned the error itself, so printing an invalid
config together with its causes never ended.
---
 omnipaxos/src/errors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omnipaxos/src/errors.rs b/omnipaxos/src/errors.rs
index b5bcf0b..d4ff1f8 100644
--- a/omnipaxos/src/errors.rs
+++ b/omnipaxos/src/errors.rs
@@ -36,7 +36,7 @@ impl error::Error for ConfigError {
             ConfigError::ReadFile(ref err) => Some(err),
             #[cfg(feature = "toml_config")]
             ConfigError::Parse(ref err) => Some(err),
-            ConfigError::InvalidConfig(_) => Some(self),
+            ConfigError::InvalidConfig(_) => None,
         }
     }
 }
-- 
2.43.0


From 66a89218b3babe06f368ddfaa938e7f9e624d1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:41 +0000
Subject: [PATCH 15/24] fix: do not overflow on oversized quorums in a config

Quorum sizes whose sum overflows made validate panic (or wrap) instead of
returning the error for a quorum larger than the cluster.
---
 omnipaxos/src/omni_paxos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omnipaxos/src/omni_paxos.rs b/omnipaxos/src/omni_paxos.rs
index f98c9ba..dfae395 100644
--- a/omnipaxos/src/omni_paxos.rs
+++ b/omnipaxos/src/omni_paxos.rs
@@ -111,7 +111,7 @@ impl ClusterConfig {
         }) = self.flexible_quorum
         {
             valid_config!(
-                read_quorum_size + write_quorum_size > num_nodes,
+                read_quorum_size.saturating_add(write_quorum_size) > num_nodes,
                 "The quorums must overlap i.e., the sum of their sizes must exceed the # of nodes"
             );
             valid_config!(
-- 
2.43.0


From ecd9f4ae448f3eed00b6f5f816ad27926eea1912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:41 +0000
Subject: [PATCH 16/24] fix: reject cluster configs with repeated or zero node
 pids

A repeated pid counts twice towards the quorum sizes, so the majority of
the listed nodes need not be a majority of the servers, and a cluster of
only repetitions of one pid made build panic.
---
 omnipaxos/src/omni_paxos.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/omnipaxos/src/omni_paxos.rs b/omnipaxos/src/omni_paxos.rs
index dfae395..7edffce 100644
--- a/omnipaxos/src/omni_paxos.rs
+++ b/omnipaxos/src/omni_paxos.rs
@@ -104,6 +104,14 @@ impl ClusterConfig {
     pub fn validate(&self) -> Result<(), ConfigError> {
         let num_nodes = self.nodes.len();
         valid_config!(num_nodes > 1, "Need more than 1 node");
+        valid_config!(!self.nodes.contains(&0), "Node pid cannot be 0");
+        valid_config!(
+            self.nodes
+                .iter()
+                .enumerate()
+                .all(|(i, pid)| !self.nodes[..i].contains(pid)),
+            "Nodes must have different pids"
+        );
         valid_config!(self.configuration_id != 0, "Configuration ID cannot be 0");
         if let Some(FlexibleQuorum {
             read_quorum_size,
-- 
2.43.0


From 78271866815bf577f807ed564310e21ef5f502e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 17/24] fix: do not send a delta snapshot in a repeated sync of
 a round

---
 omnipaxos/src/sequence_paxos/leader.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/omnipaxos/src/sequence_paxos/leader.rs b/omnipaxos/src/sequence_paxos/leader.rs
index 57a07e6..b960c63 100644
--- a/omnipaxos/src/sequence_paxos/leader.rs
+++ b/omnipaxos/src/sequence_paxos/leader.rs
@@ -177,7 +177,13 @@ where
         } else {
             followers_decided_idx
         };
-        let log_sync = self.create_log_sync(followers_valid_entries_idx, followers_decided_idx);
+        // A repeated sync in this round might answer an old promise of a follower that has decided more
+        // since then, so its snapshot must not be a delta to the decided index in the promise.
+        let snapshot_from_idx = match self.leader_state.get_seq_num(to).session {
+            0 => followers_decided_idx,
+            _ => 0,
+        };
+        let log_sync = self.create_log_sync(followers_valid_entries_idx, snapshot_from_idx);
         self.leader_state.increment_seq_num_session(to);
         // Following entries must not be added to an AcceptDecide of the previous session
         self.leader_state.set_latest_accept_meta(to, None);
-- 
2.43.0


From 142b38e49d4e20b2e470ec84225a62b9513bb6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:22 +0000
Subject: [PATCH 18/24] fix: show the role of the current leader, not of the
 previous one, in the dashboard

---
 omnipaxos_ui/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omnipaxos_ui/src/lib.rs b/omnipaxos_ui/src/lib.rs
index 4e5d576..527b2c4 100644
--- a/omnipaxos_ui/src/lib.rs
+++ b/omnipaxos_ui/src/lib.rs
@@ -167,9 +167,9 @@ impl OmniPaxosUI {
             let ballot = op_states.current_ballot;
             self.app.current_node.ballot_number = ballot.n;
             self.app.set_decided_idx(op_states.decided_idx);
+            self.update_leader(&op_states);
             self.update_progress(&op_states);
             self.update_active_peers(&op_states);
-            self.update_leader(&op_states);
             self.update_ui();
         }
     }
-- 
2.43.0


From fa356abe2aec08aaedf3d5f51d1da509fc38e365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:22 +0000
Subject: [PATCH 19/24] fix: let a stopped dashboard be started again

---
 omnipaxos_ui/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omnipaxos_ui/src/lib.rs b/omnipaxos_ui/src/lib.rs
index 527b2c4..b449d54 100644
--- a/omnipaxos_ui/src/lib.rs
+++ b/omnipaxos_ui/src/lib.rs
@@ -47,12 +47,15 @@ impl OmniPaxosUI {
     /// Start the UI, do nothing if already started
     pub fn start(&mut self) {
         if !self.started {
-            init_logger(LevelFilter::Trace).unwrap();
+            // The logger of the process can only be set once, it stays when the UI is stopped
+            let _ = init_logger(LevelFilter::Trace);
             set_default_level(LevelFilter::Debug);
             let mut stdout = stdout();
             crossterm::execute!(stdout, EnterAlternateScreen, EnableMouseCapture).unwrap();
             enable_raw_mode().unwrap();
             self.terminal.hide_cursor().unwrap();
+            // Nothing of an earlier start is left on the screen
+            self.terminal.clear().unwrap();
             self.update_ui();
             self.started = true;
             debug!(Self::logger(), "UI started with slog");
-- 
2.43.0


From 40558a8935838b871cd67def1b2c3144805222ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:22 +0000
Subject: [PATCH 20/24] fix: derive UniCacheEntry for types with a field named
 entry

---
 omnipaxos_macros/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omnipaxos_macros/src/lib.rs b/omnipaxos_macros/src/lib.rs
index 421b10c..aab62ef 100644
--- a/omnipaxos_macros/src/lib.rs
+++ b/omnipaxos_macros/src/lib.rs
@@ -177,9 +177,9 @@ pub fn unicache_entry_derive(input: TokenStream) -> TokenStream {
                         }
                     }
 
-                    fn try_encode(&mut self, entry: &Self::T) -> <Self::T as Entry>::EncodeResult {
-                        #(let #encodable_field_names = self.#encodable_field_names.try_encode(&entry.#encodable_field_names);)*
-                        #(let #non_encodable_field_names = entry.#non_encodable_field_names.clone();)*
+                    fn try_encode(&mut self, __entry: &Self::T) -> <Self::T as Entry>::EncodeResult {
+                        #(let #encodable_field_names = self.#encodable_field_names.try_encode(&__entry.#encodable_field_names);)*
+                        #(let #non_encodable_field_names = __entry.#non_encodable_field_names.clone();)*
                         (#(#field_names,)*)
                     }
 
-- 
2.43.0


From 71c1fa103b13af81a619ee9739916522d74eb6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:22 +0000
Subject: [PATCH 21/24] fix: do not apply the cache policy of a field to the
 fields after it

---
 omnipaxos_macros/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omnipaxos_macros/src/lib.rs b/omnipaxos_macros/src/lib.rs
index aab62ef..838dc3c 100644
--- a/omnipaxos_macros/src/lib.rs
+++ b/omnipaxos_macros/src/lib.rs
@@ -68,7 +68,6 @@ pub fn unicache_entry_derive(input: TokenStream) -> TokenStream {
     let (impl_generics, ty_generics, where_clause) = ast.generics.split_for_impl();
 
     let snapshot_type = get_snapshot_type(&ast);
-    let mut cache_type = None;
 
     match ast.data {
         syn::Data::Struct(data) => {
@@ -96,6 +95,7 @@ pub fn unicache_entry_derive(input: TokenStream) -> TokenStream {
                 if let Some(attr) = attr {
                     let mut encoding_type = None;
                     let mut cache_size = None;
+                    let mut cache_type = None;
                     attr.parse_nested_meta(|meta| {
                         let path = meta.path;
                         if path.is_ident("size") {
-- 
2.43.0


From 2e9a816b2c5e35b4dc47ea1b163d146539406c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:22 +0000
Subject: [PATCH 22/24] fix: share one default logger between the components of
 a server

---
 omnipaxos/src/omni_paxos.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/omnipaxos/src/omni_paxos.rs b/omnipaxos/src/omni_paxos.rs
index 7edffce..2215cf4 100644
--- a/omnipaxos/src/omni_paxos.rs
+++ b/omnipaxos/src/omni_paxos.rs
@@ -10,6 +10,8 @@ use crate::{
     },
     utils::{ui, ui::ClusterState},
 };
+#[cfg(feature = "logging")]
+use crate::utils::logger::create_logger;
 #[cfg(any(feature = "toml_config", feature = "serde"))]
 use serde::Deserialize;
 #[cfg(feature = "serde")]
@@ -64,20 +66,38 @@ impl OmniPaxosConfig {
         B: Storage<T>,
     {
         self.validate()?;
+        #[cfg(feature = "logging")]
+        let config = self.with_shared_logger();
+        #[cfg(not(feature = "logging"))]
+        let config = self;
         // Use stored ballot as initial BLE leader
         let recovered_leader = storage
             .get_promise()
             .expect("storage error while trying to read promise");
         Ok(OmniPaxos {
-            ble: BallotLeaderElection::with(self.clone().into(), recovered_leader),
-            election_clock: LogicalClock::with(self.server_config.election_tick_timeout),
+            ble: BallotLeaderElection::with(config.clone().into(), recovered_leader),
+            election_clock: LogicalClock::with(config.server_config.election_tick_timeout),
             resend_message_clock: LogicalClock::with(
-                self.server_config.resend_message_tick_timeout,
+                config.server_config.resend_message_tick_timeout,
             ),
-            flush_batch_clock: LogicalClock::with(self.server_config.flush_batch_tick_timeout),
-            seq_paxos: SequencePaxos::with(self.into(), storage),
+            flush_batch_clock: LogicalClock::with(config.server_config.flush_batch_tick_timeout),
+            seq_paxos: SequencePaxos::with(config.into(), storage),
         })
     }
+
+    /// Both components log through one logger: separate ones would truncate and overwrite each other's file.
+    #[cfg(feature = "logging")]
+    fn with_shared_logger(mut self) -> Self {
+        let server = &mut self.server_config;
+        if server.custom_logger.is_none() {
+            let path = match &server.logger_file_path {
+                Some(path) => path.clone(),
+                None => format!("logs/paxos_{}.log", server.pid),
+            };
+            server.custom_logger = Some(create_logger(&path));
+        }
+        self
+    }
 }
 
 /// Configuration for an `OmniPaxos` cluster.
-- 
2.43.0


From d969714986360641f2816c4c117af49971fa8b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:21 +0000
Subject: [PATCH 23/24] fix: forward a buffered reconfiguration to the leader
 like buffered proposals

---
 omnipaxos/src/sequence_paxos/follower.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omnipaxos/src/sequence_paxos/follower.rs b/omnipaxos/src/sequence_paxos/follower.rs
index e363e33..3fca8d1 100644
--- a/omnipaxos/src/sequence_paxos/follower.rs
+++ b/omnipaxos/src/sequence_paxos/follower.rs
@@ -83,6 +83,9 @@ where
         if !proposals.is_empty() {
             self.forward_proposals(proposals);
         }
+        if let Some(ss) = self.buffered_stopsign.take() {
+            self.forward_stopsign(ss);
+        }
     }
 
     pub(crate) fn handle_acceptdecide(&mut self, acc_dec: AcceptDecide<T>) {
-- 
2.43.0


From 8a05b4051892949d300d8709fcfeac05034b0dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:51 +0000
Subject: [PATCH 24/24] fix: only report and use decided indexes as the highest
 trimmable index

---
 omnipaxos/src/sequence_paxos/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omnipaxos/src/sequence_paxos/mod.rs b/omnipaxos/src/sequence_paxos/mod.rs
index 7a6f936..a890aee 100644
--- a/omnipaxos/src/sequence_paxos/mod.rs
+++ b/omnipaxos/src/sequence_paxos/mod.rs
@@ -142,7 +142,11 @@ where
         match self.state {
             (Role::Leader, _) => {
                 let all_pids = self.peers.iter().copied().chain([self.pid]);
-                let min_all_accepted_idx = self.leader_state.get_min_all_accepted_idx(all_pids);
+                // an index accepted by all is not necessarily decided (yet)
+                let min_all_accepted_idx = self
+                    .leader_state
+                    .get_min_all_accepted_idx(all_pids)
+                    .min(self.internal_storage.get_decided_idx());
                 let trimmed_idx = match trim_idx {
                     Some(idx) if idx <= min_all_accepted_idx => idx,
                     None => {
-- 
2.43.0

