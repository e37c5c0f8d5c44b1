From c3f9a91fa3ff4d97d7d6650144d4d83359b7f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:17 +0000
Subject: [PATCH 1/8] fix: read back empty data and empty keyword pointers

An empty data (or a pointer to the empty keyword) is accepted and stored by
add(), but made every later search and compact operation on its keyword fail.
---
 src/findex_graph/structs.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/findex_graph/structs.rs b/src/findex_graph/structs.rs
index 00481d3..f723c47 100644
--- a/src/findex_graph/structs.rs
+++ b/src/findex_graph/structs.rs
@@ -64,11 +64,10 @@ impl<Tag: From<Vec<u8>>, Data: From<Vec<u8>>> TryFrom<&[u8]> for IndexedValue<Ta
     type Error = CoreError;
 
     fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
-        if value.len() < 2 {
-            return Err(Self::Error::Conversion(format!(
-                "indexed values should be at least two bytes long, {} given",
-                value.len()
-            )));
+        if value.is_empty() {
+            return Err(Self::Error::Conversion(
+                "indexed values should be at least one byte long, 0 given".to_string(),
+            ));
         }
         // TODO: change the leading value in v.7
         match value[0] {
-- 
2.43.0


From b62ddcd642d3eeed468c6645feb0dd1d7ae1ed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:47 +0000
Subject: [PATCH 2/8] fix: write the size of the values when serializing an
 InMemoryDb

read() consumes the size of each value, which write() had stopped to emit: a
serialized InMemoryDb could not be read back.
---
 src/edx/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index 0f64cae..c035aa6 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -254,6 +254,8 @@ pub mod in_memory {
             let mut n = ser.write_leb128_u64(table.len() as u64)?;
             for (k, v) in table.iter() {
                 n += ser.write_array(k)?;
+                // the size of the value is part of the format expected by `read()`.
+                n += ser.write_leb128_u64(EncryptedValue::<VALUE_LENGTH>::LENGTH as u64)?;
                 n += ser.write_array(&v.nonce.0)?;
                 n += ser.write_array(&v.ciphertext)?;
                 n += ser.write_array(&v.tag)?;
-- 
2.43.0


From cc39e320a5938b1e5a2f967edc1f7281b5e1cb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:54 +0000
Subject: [PATCH 3/8] fix: make InMemoryDb::fetch atomic

The lock was taken once per token: a fetch concurrent with the insertion or
the deletion of several lines could return only some of them, hence a
truncated chain.
---
 src/edx/mod.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index c035aa6..5017c2e 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -308,16 +308,12 @@ pub mod in_memory {
             &self,
             tokens: Tokens,
         ) -> Result<TokenWithEncryptedValueList<VALUE_LENGTH>, InMemoryDbError> {
+            // Hold the lock for the entire operation: reads should be atomic too.
+            let edx = self.lock().expect("couldn't lock the table");
             Ok(TokenWithEncryptedValueList::from(
                 tokens
                     .into_iter()
-                    .filter_map(|token| {
-                        self.lock()
-                            .expect("couldn't lock the table")
-                            .get(&token)
-                            .cloned()
-                            .map(|v| (token, v))
-                    })
+                    .filter_map(|token| edx.get(&token).cloned().map(|v| (token, v)))
                     .collect::<Vec<_>>(),
             ))
         }
-- 
2.43.0


From d7f60921a38463b4e12e8a767f0bb71a987574d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 4/8] fix: do not overflow the stack when searching deep graphs

walk() recursed once per pointer: searching a keyword at the head of a long
chain of pointers aborted the process.
---
 src/findex_graph/graph.rs | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/findex_graph/graph.rs b/src/findex_graph/graph.rs
index b6a7915..a1279da 100644
--- a/src/findex_graph/graph.rs
+++ b/src/findex_graph/graph.rs
@@ -132,32 +132,28 @@ impl<
     ///
     /// In order not to enter cycles, the same node is not visited twice. This
     /// is ensured by maintaining a set of visited nodes.
-    #[allow(clippy::only_used_in_recursion)]
     pub fn walk<'a, Tag: Hash + Eq + Clone, Item: Clone + Hash + Eq>(
         &self,
         graph: &'a HashMap<Tag, HashSet<IndexedValue<Tag, Item>>>,
         entry: &'a Tag,
         visited: &mut HashSet<&'a Tag>,
     ) -> HashSet<Item> {
-        if visited.contains(&entry) {
-            // Results associated to this tag have already been recovered.
-            return HashSet::new();
-        }
-
-        visited.insert(entry);
-
-        let indexed_values = match graph.get(entry) {
-            Some(values) => values,
-            None => return HashSet::new(),
-        };
-
-        let mut res = HashSet::with_capacity(indexed_values.len());
+        let mut res = HashSet::new();
+        // Iterate rather than recurse: the depth of the graph is not bounded.
+        let mut to_visit = vec![entry];
+
+        while let Some(tag) = to_visit.pop() {
+            if !visited.insert(tag) {
+                // Results associated to this tag have already been recovered.
+                continue;
+            }
 
-        for value in indexed_values {
-            match value {
-                IndexedValue::Pointer(child) => res.extend(self.walk(graph, child, visited)),
-                IndexedValue::Data(data) => {
-                    res.insert(data.clone());
+            for value in graph.get(tag).into_iter().flatten() {
+                match value {
+                    IndexedValue::Pointer(child) => to_visit.push(child),
+                    IndexedValue::Data(data) => {
+                        res.insert(data.clone());
+                    }
                 }
             }
         }
-- 
2.43.0


From fdee00ebd09ada244eab83a09a5541c3c2befb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:22 +0000
Subject: [PATCH 5/8] fix: do not delete foreign entries when reverting a
 compact operation

When the insertion of the new entries fails because some of the new tokens are
already used (retry of an interrupted compact operation, concurrent compact
operations, target label already in use), the revert deleted the entries stored
for these tokens even though they were not written by this operation, which
made all the associations they lead to unreachable.
---
 src/edx/mod.rs           |  2 +-
 src/findex_mm/compact.rs | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/edx/mod.rs b/src/edx/mod.rs
index 5017c2e..3d531ee 100644
--- a/src/edx/mod.rs
+++ b/src/edx/mod.rs
@@ -39,7 +39,7 @@ pub trait DxEnc<const VALUE_LENGTH: usize> {
     type Error: std::error::Error;
 
     /// Fixed length encrypted value stored inside the encrypted dictionary.
-    type EncryptedValue: Debug + Sized + Clone;
+    type EncryptedValue: Debug + Sized + Clone + PartialEq;
 
     /// Backend storage.
     type Database: DbInterface<VALUE_LENGTH>;
diff --git a/src/findex_mm/compact.rs b/src/findex_mm/compact.rs
index 32d5d42..ae591b2 100644
--- a/src/findex_mm/compact.rs
+++ b/src/findex_mm/compact.rs
@@ -221,7 +221,7 @@ impl<
             )));
         };
 
-        let res = self.entry_table.insert(new_entries).await.map_err(|e| {
+        let res = self.entry_table.insert(new_entries.clone()).await.map_err(|e| {
             Error::Crypto(format!(
                 "An error occurred during the `insert` operation, all modifications were reverted: {e}"
             ))
@@ -231,8 +231,18 @@ impl<
             self.chain_table.delete(old_links).await?;
             self.entry_table.delete(old_entries).await?;
         } else {
+            // Only revert the modifications of this operation: the failure may precisely be due
+            // to entries already stored for some of these tokens.
+            let inserted_tokens = self
+                .entry_table
+                .get(new_entry_tokens)
+                .await?
+                .into_iter()
+                .filter(|(token, entry)| new_entries.get(token) == Some(entry))
+                .map(|(token, _)| token)
+                .collect::<HashSet<_>>();
+            self.entry_table.delete(inserted_tokens).await?;
             self.chain_table.delete(new_links_tokens).await?;
-            self.entry_table.delete(new_entry_tokens).await?;
         }
 
         res
-- 
2.43.0


From 2ea9fe519446cccd6b7b70f1d9f0e6a865f49e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:14 +0000
Subject: [PATCH 6/8] fix: only compact the entries of the old label

compact() used its `old_label` argument for nothing but a sanity check: the
entries of all the labels used with the old key were moved to the new label,
and when a keyword was indexed under several labels all but one of its entries
were silently lost.
---
 src/findex_graph/compact.rs |  3 ++-
 src/findex_mm/compact.rs    | 13 +++++++++++--
 src/index/mod.rs            | 11 ++++++++++-
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/findex_graph/compact.rs b/src/findex_graph/compact.rs
index d0a0b5d..651167f 100644
--- a/src/findex_graph/compact.rs
+++ b/src/findex_graph/compact.rs
@@ -31,6 +31,7 @@ impl<
     >(
         &self,
         key: &<Self as GxEnc<UserError>>::Key,
+        label: &Label,
         tokens: HashSet<Token>,
         compact_target: &HashSet<Token>,
     ) -> Result<
@@ -42,7 +43,7 @@ impl<
     > {
         let (indexed_values, data) = self
             .findex_mm
-            .prepare_compacting(key, tokens, compact_target)
+            .prepare_compacting(key, label, tokens, compact_target)
             .await?;
         let indexed_values = indexed_values
             .into_iter()
diff --git a/src/findex_mm/compact.rs b/src/findex_mm/compact.rs
index ae591b2..c6f64fc 100644
--- a/src/findex_mm/compact.rs
+++ b/src/findex_mm/compact.rs
@@ -25,7 +25,8 @@ impl<
         Ok(self.entry_table.dump_tokens().await?.into_iter().collect())
     }
 
-    /// Fetches all chains associated to the given tokens.
+    /// Fetches all chains associated to the given tokens. The tokens which do
+    /// not belong to the index associated to the given `label` are ignored.
     ///
     /// # Returns
     ///
@@ -33,11 +34,19 @@ impl<
     pub async fn prepare_compacting(
         &self,
         key: &<Self as MmEnc<SEED_LENGTH, UserError>>::Key,
+        label: &Label,
         tokens: HashSet<Token>,
         compact_target: &HashSet<Token>,
     ) -> Result<(HashMap<Token, HashSet<Vec<u8>>>, CompactingData<ChainTable>), Error<UserError>>
     {
-        let entries = self.fetch_entries(key, tokens).await?;
+        let mut entries = self.fetch_entries(key, tokens).await?;
+
+        // Do not mix indexes: the Entry Table may store entries for other labels.
+        entries.retain(|(token, entry)| {
+            self.entry_table
+                .tokenize(key, &entry.tag_hash, Some(label))
+                == *token
+        });
 
         let n_entries = entries.len();
         let entries = entries.into_iter().try_fold(
diff --git a/src/index/mod.rs b/src/index/mod.rs
index 442cc95..766c7fb 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -303,6 +303,7 @@ impl<
             self.compact_batch(
                 &old_key,
                 &new_key,
+                old_label,
                 new_label,
                 &entries_to_compact,
                 entry_tokens[i * Self::COMPACT_BATCH_SIZE..(i + 1) * Self::COMPACT_BATCH_SIZE]
@@ -317,6 +318,7 @@ impl<
         self.compact_batch(
             &old_key,
             &new_key,
+            old_label,
             new_label,
             &entries_to_compact,
             entry_tokens
@@ -382,6 +384,7 @@ impl<
         (n_draws * compacting_rate) as usize
     }
 
+    #[allow(clippy::too_many_arguments)]
     #[instrument(ret, err, skip_all)]
     async fn compact_batch<
         F: Future<Output = Result<HashSet<Data>, String>>,
@@ -390,6 +393,7 @@ impl<
         &self,
         old_key: &<FindexGraph<UserError, EntryTable, ChainTable> as GxEnc<UserError>>::Key,
         new_key: &<FindexGraph<UserError, EntryTable, ChainTable> as GxEnc<UserError>>::Key,
+        old_label: &Label,
         new_label: &Label,
         tokens_to_compact: &Tokens,
         tokens_to_fetch: Tokens,
@@ -400,7 +404,12 @@ impl<
         trace!("compact_batch: entering: tokens_to_fetch: {tokens_to_fetch}");
         let (indexed_values, data) = self
             .findex_graph
-            .prepare_compact::<Keyword, Data>(old_key, tokens_to_fetch.into(), tokens_to_compact)
+            .prepare_compact::<Keyword, Data>(
+                old_key,
+                old_label,
+                tokens_to_fetch.into(),
+                tokens_to_compact,
+            )
             .await?;
 
         let indexed_data = indexed_values
-- 
2.43.0


From 8222f9ea2cf303238921a9f9989c39776740d909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 7/8] fix: eventually compact small indexes whatever the
 compacting rate

The number of lines to compact was rounded down: an index small enough with
respect to the compacting rate was never compacted (e.g. one keyword and a rate
of 1/2).
---
 src/index/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 766c7fb..98971bf 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -381,7 +381,8 @@ impl<
         // [coupon collector's problem](https://en.wikipedia.org/wiki/Coupon_collector%27s_problem).
         let n_draws = length.mul_add(length.log2() + GAMMA, 0.5);
         // Split this number among the given number of compact operations.
-        (n_draws * compacting_rate) as usize
+        // Round up: a portion of a small index should not always be empty.
+        (n_draws * compacting_rate).ceil() as usize
     }
 
     #[allow(clippy::too_many_arguments)]
-- 
2.43.0


From 7429ed9a27adf7579b014c46d51c17c0b5b1510d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 8/8] verif: small compact batches under --cfg findex_verif

Lets the verification harness exercise compact operations spanning several
batches. Nothing changes when the flag is not set.
---
 src/index/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 98971bf..033d457 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -346,7 +346,8 @@ impl<
     /// the memory used by the compact operation is:
     ///
     /// N * 32 + BS * EB + f * BS * LB
-    const COMPACT_BATCH_SIZE: usize = 1_000_000;
+    #[allow(unexpected_cfgs)]
+    const COMPACT_BATCH_SIZE: usize = if cfg!(findex_verif) { 3 } else { 1_000_000 };
 
     /// Draw `n` tokens at random among the given `tokens`. The same token may
     /// be drawn several times, thus the number of tokens returned may be
-- 
2.43.0

