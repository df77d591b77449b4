From 179bf35ec85b0cd1f8fdd089d2c5dea0ab28c8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 01/25] fix: refuse level-cache reads that touch discarded rows

A read at the first discarded node, or a range that runs from the base
layer into the discarded rows, passed the bounds check (which only looked
at the start, with <=) and returned unrelated data.
---
 src/store/level_cache.rs | 41 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 8275fef..c8fa12f 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -351,10 +351,7 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        ensure!(self.is_range_available(start, end), "out of bounds");
 
         Ok(E::from_slice(&self.store_read_range(start, end)?))
     }
@@ -366,10 +363,7 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        ensure!(self.is_range_available(start, end), "out of bounds");
 
         self.store_read_into(start, end, buf)
     }
@@ -381,10 +375,7 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        ensure!(self.is_range_available(start, end), "out of bounds");
 
         self.store_read_into(start, end, buf)
     }
@@ -396,10 +387,7 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        ensure!(self.is_range_available(start, end), "out of bounds");
 
         Ok(self
             .store_read_range(start, end)?
@@ -703,15 +691,23 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
         Ok(store_size == cache_size)
     }
 
+    // Only the base layer and the cached rows can be read: a byte range
+    // must lie within one of them.  (They are adjacent, also on disk, if
+    // no rows are discarded and the base layer is part of the file.)
+    fn is_range_available(&self, start: usize, end: usize) -> bool {
+        let base_end = self.data_width * self.elem_len;
+
+        end <= base_end
+            || start >= self.cache_index_start
+            || (self.reader.is_none() && base_end == self.cache_index_start)
+    }
+
     pub fn store_read_range(&self, start: usize, end: usize) -> Result<Vec<u8>> {
         let read_len = end - start;
         let mut read_data = vec![0; read_len];
         let mut adjusted_start = start;
 
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        ensure!(self.is_range_available(start, end), "out of bounds");
 
         // If an external reader was specified for the base layer, use it.
         if start < self.data_width * self.elem_len && self.reader.is_some() {
@@ -810,10 +806,7 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
     }
 
     pub fn store_read_into(&self, start: usize, end: usize, buf: &mut [u8]) -> Result<()> {
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "Invalid read start"
-        );
+        ensure!(self.is_range_available(start, end), "Invalid read start");
 
         // If an external reader was specified for the base layer, use it.
         if start < self.data_width * self.elem_len && self.reader.is_some() {
-- 
2.43.0


From 463c7b41bb95bf93034a8c3ae7c9430ce7cfa3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 02/25] fix: validate proofs with the heights used to build the
 tree

The height given to the algorithm was the lemma position (wrong for
arities above 2) and 0 instead of 1 for compound layers, so honest proofs
failed to validate with algorithms that use the height.
---
 src/proof.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/proof.rs b/src/proof.rs
index 2a56d9a..18dcd95 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -119,7 +119,8 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
                 return Ok(false);
             }
 
-            a.multi_node(&nodes, 0)
+            // The same height as used when the trees were combined.
+            a.multi_node(&nodes, 1)
         };
 
         Ok(h == self.root())
@@ -187,7 +188,7 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
                 }
 
                 path_index += 1;
-                a.multi_node(&nodes, i - 1)
+                a.multi_node(&nodes, path_index - 2)
             };
         }
 
-- 
2.43.0


From b437dd415aaaf899e6c59f957d89683b1d30a717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 03/25] fix: return the target leaf as the item of a compound
 proof

The first lemma element of a compound layer is the root of another
sub-tree, so validate_with_data failed for every compound proof.
---
 src/proof.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/proof.rs b/src/proof.rs
index 18dcd95..4802606 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -60,6 +60,11 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
 
     /// Return proof target leaf
     pub fn item(&self) -> T {
+        // The leaf is part of the innermost proof.
+        if let Some(sub_tree_proof) = &self.sub_tree_proof {
+            return sub_tree_proof.item();
+        }
+
         self.lemma
             .first()
             .expect("[item] requested element is empty")
-- 
2.43.0


From 2ed898203f2ac670f40cd1b3e2ed080c768b1173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 04/25] fix: reject proofs whose lemma does not match their
 path

A lemma reduced to two equal elements validated for any tree, additional
elements in a compound layer were ignored.
---
 src/proof.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/proof.rs b/src/proof.rs
index 4802606..e331c55 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -99,6 +99,11 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
             return Ok(valid);
         }
 
+        // The layer consists of the other roots and the resulting root.
+        if self.lemma.len() != arity || self.path.len() != 1 {
+            return Ok(false);
+        }
+
         // Validate top-most/current layer
         //
         // Check that the remaining proof matches the tree root (note
@@ -170,6 +175,10 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
         }
 
         let branches = BaseTreeArity::to_usize();
+        if size != get_merkle_proof_lemma_len(self.path.len() + 1, branches) {
+            return Ok(false);
+        }
+
         let mut a = A::default();
         let mut h = self.item();
         let mut path_index = 1;
-- 
2.43.0


From bd8d7e552f9b7c830e68ac46f7686d9f68f678bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 05/25] fix: reject even lengths of binary trees in
 get_merkle_tree_leafs

Lengths such as 14 were taken for the 15 nodes of a tree with 8 leafs.
---
 src/merkle.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index ba17492..219e3c1 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1969,6 +1969,10 @@ pub fn get_merkle_tree_leafs(len: usize, branches: usize) -> Result<usize> {
     let leafs = {
         // Optimization:
         if branches == 2 {
+            ensure!(
+                len % 2 == 1,
+                "Invalid tree length provided for the specified arity"
+            );
             (len >> 1) + 1
         } else {
             let mut leafs = 1;
-- 
2.43.0


From 6ca0e049def4a94cf8c51867d82d1f6d40a1ddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 06/25] fix: report compound trees as not empty

---
 src/merkle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index 219e3c1..f114bd4 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1399,8 +1399,8 @@ impl<
     #[inline]
     pub fn is_empty(&self) -> bool {
         match &self.data {
-            Data::TopTree(_) => true,
-            Data::SubTree(_) => true,
+            Data::TopTree(_) => self.len == 0,
+            Data::SubTree(_) => self.len == 0,
             Data::BaseTree(store) => store.is_empty(),
         }
     }
-- 
2.43.0


From b078542c4a0ace1a3c515d73fe06909f556f8ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 07/25] fix: remove the data file when deleting an MmapStore

---
 src/store/mmap.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index b2abbd3..84edc5a 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -1,4 +1,4 @@
-use std::fs::{File, OpenOptions};
+use std::fs::{remove_file, File, OpenOptions};
 use std::marker::PhantomData;
 use std::ops;
 use std::path::Path;
@@ -279,8 +279,9 @@ impl<E: Element> Store<E> for MmapStore<E> {
         Ok(())
     }
 
-    fn delete(_config: StoreConfig) -> Result<()> {
-        Ok(())
+    fn delete(config: StoreConfig) -> Result<()> {
+        let path = StoreConfig::data_path(&config.path, &config.id);
+        remove_file(&path).with_context(|| format!("Failed to delete {:?}", &path))
     }
 
     fn is_empty(&self) -> bool {
-- 
2.43.0


From caeb2a634cfdfbf0156af54048b545d46935903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:16 +0000
Subject: [PATCH 08/25] fix: return from is_merkle_tree_size_valid for an arity
 of one

The loop never ended when the number of branches is 1.
---
 src/merkle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index f114bd4..f449653 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1933,7 +1933,7 @@ pub fn is_merkle_tree_size_valid(leafs: usize, branches: usize) -> bool {
     let shift = log2_pow2(branches);
     while cur != 1 {
         cur >>= shift; // cur /= branches
-        if cur > leafs || cur == 0 {
+        if cur >= leafs || cur == 0 {
             return false;
         }
     }
-- 
2.43.0


From fd6a9f73b448f642bd1e52f4520521c43e688817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:16 +0000
Subject: [PATCH 09/25] fix: refuse invalid leaf counts before creating the
 store

For a leaf count that is not a power of the arity the constructors failed
only after the store was created. With a config, the file left behind had
the full size and the next call with that config loaded it as a tree. For
an arity of one they never returned.
---
 src/merkle.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index f449653..525c581 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1516,6 +1516,11 @@ impl<
             "branches MUST be a power of 2"
         );
 
+        ensure!(
+            is_merkle_tree_size_valid(leafs_count, branches),
+            "MerkleTree size is invalid given the arity"
+        );
+
         let size = get_merkle_tree_len(leafs_count, branches)?;
         let row_count = get_merkle_tree_row_count(leafs_count, branches);
 
@@ -1558,6 +1563,11 @@ impl<
             "branches MUST be a power of 2"
         );
 
+        ensure!(
+            is_merkle_tree_size_valid(leafs_count, branches),
+            "MerkleTree size is invalid given the arity"
+        );
+
         let size = get_merkle_tree_len(leafs_count, branches)?;
         let row_count = get_merkle_tree_row_count(leafs_count, branches);
 
@@ -1624,6 +1634,11 @@ impl<
             "branches MUST be a power of 2"
         );
 
+        ensure!(
+            is_merkle_tree_size_valid(leafs, branches),
+            "MerkleTree size is invalid given the arity"
+        );
+
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
 
@@ -1664,6 +1679,11 @@ impl<
             "branches MUST be a power of 2"
         );
 
+        ensure!(
+            is_merkle_tree_size_valid(leafs, branches),
+            "MerkleTree size is invalid given the arity"
+        );
+
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
 
@@ -1732,6 +1752,11 @@ impl<
             "branches MUST be a power of 2"
         );
 
+        ensure!(
+            is_merkle_tree_size_valid(leafs, branches),
+            "MerkleTree size is invalid given the arity"
+        );
+
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
 
@@ -1773,6 +1798,11 @@ impl<
             "branches MUST be a power of 2"
         );
 
+        ensure!(
+            is_merkle_tree_size_valid(leafs, branches),
+            "MerkleTree size is invalid given the arity"
+        );
+
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
 
-- 
2.43.0


From 8ec4e63cc2e6d03cf050f719f83f01935cf11f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:16 +0000
Subject: [PATCH 10/25] fix: return the iterator's error in
 try_from_iter_with_config

It panicked instead, and left a store of full size on disk that the next
call with the same config loaded as a complete tree.
---
 src/merkle.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index 525c581..ae9e3ab 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1828,9 +1828,23 @@ impl<
             });
         }
 
-        populate_data::<E, A, S, BaseTreeArity, I>(&mut data, iter)
-            .expect("failed to populate data");
-        let root = S::build::<A, BaseTreeArity>(&mut data, leafs, row_count, Some(config))?;
+        let newly_created = data.is_empty();
+        let root = populate_data::<E, A, S, BaseTreeArity, I>(&mut data, iter)
+            .context("failed to populate data")
+            .and_then(|_| {
+                S::build::<A, BaseTreeArity>(&mut data, leafs, row_count, Some(config.clone()))
+            });
+        let root = match root {
+            Ok(root) => root,
+            Err(err) => {
+                // Do not leave an incomplete store behind, as it would be loaded as a
+                // complete one the next time that this config is used.
+                if newly_created {
+                    let _ = S::delete(config);
+                }
+                return Err(err);
+            }
+        };
 
         Ok(MerkleTree {
             data: Data::BaseTree(data),
-- 
2.43.0


From 3458d37658711b14bb9dc24792eda0d68a2759f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:08 +0000
Subject: [PATCH 11/25] fix: keep only base and cached rows when a level cache
 is given a complete tree

---
 src/store/level_cache.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index c8fa12f..40d2fc2 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -235,7 +235,19 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         // since it can be assumed by the config that the data is
         // already correct).
         if !store.loaded_from_disk {
-            store.store_copy_from_slice(0, data)?;
+            let base_end = store.data_width * store.elem_len;
+
+            if data.len() == store.store_size && base_end < store.cache_index_start {
+                // The data is a complete tree: only the base layer and
+                // the cached rows are kept (as in a v1 compacted store).
+                let cached = &data[store.cache_index_start..];
+                store.store_copy_from_slice(0, &data[..base_end])?;
+                store.store_copy_from_slice(base_end, cached)?;
+                store.store_size = base_end + cached.len();
+                store.file.set_len(store.store_size as u64)?;
+            } else {
+                store.store_copy_from_slice(0, data)?;
+            }
             store.len = data.len() / store.elem_len;
         }
 
-- 
2.43.0


From 6e44de4d393229dca4deba478ce9d22a5869feae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:00 +0000
Subject: [PATCH 12/25] fix: refuse compound trees whose layers do not match
 the declared arities

---
 src/merkle.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index ae9e3ab..f3e871c 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -521,6 +521,10 @@ impl<
             SubTreeArity::to_usize() > 0,
             "Cannot use from_trees if not constructing a structure with sub-trees"
         );
+        ensure!(
+            TopTreeArity::to_usize() == 0,
+            "Cannot use from_trees if constructing a structure with a top layer"
+        );
         ensure!(
             trees
                 .iter()
@@ -587,6 +591,10 @@ impl<
             TopTreeArity::to_usize() > 0,
             "Cannot use from_sub_trees if not constructing a structure with sub-trees"
         );
+        ensure!(
+            SubTreeArity::to_usize() > 0,
+            "Cannot use from_sub_trees if the trees have no sub-trees"
+        );
         ensure!(
             trees
                 .iter()
-- 
2.43.0


From 4a8d9f53e77339fe212a513f2152e00d68dfed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:54 +0000
Subject: [PATCH 13/25] fix: report a top layer proof without sub-tree arity as
 an error

Validating a proof created with a top layer arity but no sub-tree arity
panicked in sub_tree_root instead of returning an error.
---
 src/proof.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/proof.rs b/src/proof.rs
index e331c55..bd08486 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -144,6 +144,10 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
                 self.sub_tree_proof.is_some(),
                 "Sub tree proof must be present for validation"
             );
+            ensure!(
+                self.sub_tree_layer_nodes > 0,
+                "Top layer proof must have a sub-tree layer node count"
+            );
 
             return self.validate_sub_tree_proof::<A>(self.top_layer_nodes);
         }
-- 
2.43.0


From 1fd63b17f3a4b6bd57e6aabb49482ce430ba3524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:02 +0000
Subject: [PATCH 14/25] fix: refuse surplus store configs of compound trees

from_sub_tree_store_configs and from_sub_tree_store_configs_and_replica
divided the configs among the sub-trees and silently ignored the remainder.
---
 src/merkle.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index f3e871c..708290d 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -292,6 +292,10 @@ impl<
         );
 
         let sub_tree_count = TopTreeArity::to_usize();
+        ensure!(
+            configs.len() == sub_tree_count * SubTreeArity::to_usize(),
+            "Length of configs MUST equal the number of base trees"
+        );
 
         let mut start = 0;
         let mut end = configs.len() / sub_tree_count;
@@ -813,6 +817,10 @@ impl<
         configs: &[StoreConfig],
     ) -> Result<MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity>> {
         let tree_count = TopTreeArity::to_usize();
+        ensure!(
+            configs.len() == tree_count * SubTreeArity::to_usize(),
+            "Length of configs MUST equal the number of base trees"
+        );
 
         let mut start = 0;
         let mut end = configs.len() / tree_count;
-- 
2.43.0


From 0a3acf5eee2cd284c030602dd7740434ef4893ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:50 +0000
Subject: [PATCH 15/25] fix: return from get_merkle_tree_leafs for lengths near
 the word size

The number of leafs was shifted out of the word and became zero, after
which the loop never ended.
---
 src/merkle.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index 708290d..630d990 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -2039,6 +2039,10 @@ pub fn get_merkle_tree_leafs(len: usize, branches: usize) -> Result<usize> {
             let mut cur = len;
             let shift = log2_pow2(branches);
             while cur != 1 {
+                ensure!(
+                    leafs <= usize::MAX >> shift,
+                    "Invalid tree length provided for the specified arity"
+                );
                 leafs <<= shift; // leafs *= branches
                 ensure!(
                     cur > leafs,
-- 
2.43.0


From 6324cf925da011e0267ecaf54f2ce8a7a7dec9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:54 +0000
Subject: [PATCH 16/25] fix: count the rows of large trees with integer
 arithmetic

get_merkle_tree_row_count(1 << 42, 1 << 21) was 2 instead of 3 because of
rounding.
---
 src/merkle.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index 630d990..1691b92 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -2006,6 +2006,10 @@ pub fn get_merkle_tree_row_count(leafs: usize, branches: usize) -> usize {
     // Optimization
     if branches == 2 {
         (leafs * branches).trailing_zeros() as usize
+    } else if branches > 2 && branches == next_pow2(branches) && leafs > 0 {
+        // The floating point logarithm below is not exact for large values.
+        let log2_leafs = (usize::BITS - 1 - leafs.leading_zeros()) as usize;
+        log2_leafs / log2_pow2(branches) + 1
     } else {
         (branches as f64 * leafs as f64).log(branches as f64) as usize
     }
-- 
2.43.0


From e88f60edba580781194c4bd46d0d57684df2efa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:26 +0000
Subject: [PATCH 17/25] fix: a level cache store created without a
 configuration can be read

LevelCacheStore::new placed the cached rows at position 0, so every read of
such a store was shifted past the end of its file.
---
 src/store/level_cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 40d2fc2..7866fd0 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -208,7 +208,8 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
             elem_len: E::byte_len(),
             file,
             data_width: size,
-            cache_index_start: 0,
+            // Without a configuration there are no cached rows.
+            cache_index_start: store_size,
             store_size,
             loaded_from_disk: false,
             reader: None,
-- 
2.43.0


From 313376f53f4fbcd5d27158eaa4a0361854e99a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:11 +0000
Subject: [PATCH 18/25] fix: store iterators report their exact size

They implement ExactSizeIterator but kept the default size_hint of
(0, None), so the default ExactSizeIterator::len of adapters over them
(e.g. zip) failed its assertion.
---
 src/store/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/store/mod.rs b/src/store/mod.rs
index 4e6aae7..8fec935 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -594,6 +594,12 @@ macro_rules! impl_parallel_iter {
                     }
                 }
             }
+
+            fn size_hint(&self) -> (usize, Option<usize>) {
+                let len = ExactSizeIterator::len(self);
+
+                (len, Some(len))
+            }
         }
 
         impl<'data, E: 'data + Element> ExactSizeIterator for $iter<'data, E> {
-- 
2.43.0


From 7223fe397ebd82ce0b73330bd12db755135c7abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:42 +0000
Subject: [PATCH 19/25] fix: refuse to build a single tree where a compound
 shape is declared

from_data_store and from_tree_slice refuse it; the other constructors of
single trees returned a tree for which no proof can be generated.
---
 src/merkle.rs | 54 +++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index 1691b92..7bf0567 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1513,6 +1513,15 @@ impl<
 
     /// Build the tree given a slice of all leafs, in bytes form.
     pub fn from_byte_slice_with_config(leafs: &[u8], config: StoreConfig) -> Result<Self> {
+        ensure!(
+            SubTreeArity::to_usize() == 0,
+            "Leaf data must not have sub-tree layers"
+        );
+        ensure!(
+            TopTreeArity::to_usize() == 0,
+            "Leaf data must not have a top layer"
+        );
+
         ensure!(
             leafs.len() % E::byte_len() == 0,
             "{} ist not a multiple of {}",
@@ -1560,6 +1569,15 @@ impl<
 
     /// Build the tree given a slice of all leafs, in bytes form.
     pub fn from_byte_slice(leafs: &[u8]) -> Result<Self> {
+        ensure!(
+            SubTreeArity::to_usize() == 0,
+            "Leaf data must not have sub-tree layers"
+        );
+        ensure!(
+            TopTreeArity::to_usize() == 0,
+            "Leaf data must not have a top layer"
+        );
+
         ensure!(
             leafs.len() % E::byte_len() == 0,
             "{} is not a multiple of {}",
@@ -1639,6 +1657,15 @@ impl<
         I: IntoParallelIterator<Item = E>,
         I::Iter: IndexedParallelIterator,
     {
+        ensure!(
+            SubTreeArity::to_usize() == 0,
+            "Leaf data must not have sub-tree layers"
+        );
+        ensure!(
+            TopTreeArity::to_usize() == 0,
+            "Leaf data must not have a top layer"
+        );
+
         let iter = into.into_par_iter();
 
         let leafs = iter.opt_len().expect("must be sized");
@@ -1684,6 +1711,15 @@ impl<
         I: IntoParallelIterator<Item = E>,
         I::Iter: IndexedParallelIterator,
     {
+        ensure!(
+            SubTreeArity::to_usize() == 0,
+            "Leaf data must not have sub-tree layers"
+        );
+        ensure!(
+            TopTreeArity::to_usize() == 0,
+            "Leaf data must not have a top layer"
+        );
+
         let iter = into.into_par_iter();
 
         let leafs = iter.opt_len().expect("must be sized");
@@ -1756,6 +1792,15 @@ impl<
     /// the provided iterator. This method returns the first error yielded by
     /// the iterator, if the iterator yielded an error.
     pub fn try_from_iter<I: IntoIterator<Item = Result<E>>>(into: I) -> Result<Self> {
+        ensure!(
+            SubTreeArity::to_usize() == 0,
+            "Leaf data must not have sub-tree layers"
+        );
+        ensure!(
+            TopTreeArity::to_usize() == 0,
+            "Leaf data must not have a top layer"
+        );
+
         let iter = into.into_iter();
 
         let (_, n) = iter.size_hint();
@@ -1802,6 +1847,15 @@ impl<
         into: I,
         config: StoreConfig,
     ) -> Result<Self> {
+        ensure!(
+            SubTreeArity::to_usize() == 0,
+            "Leaf data must not have sub-tree layers"
+        );
+        ensure!(
+            TopTreeArity::to_usize() == 0,
+            "Leaf data must not have a top layer"
+        );
+
         let iter = into.into_iter();
 
         let (_, n) = iter.size_hint();
-- 
2.43.0


From d0145cbb190761a4901db76aa5014617ed36b266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:02 +0000
Subject: [PATCH 20/25] fix: VecStore refuses slices that are not whole
 elements

new_from_slice dropped the trailing bytes, the other stores refuse them.
---
 src/store/vec.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/store/vec.rs b/src/store/vec.rs
index 9bf42a1..08c5da4 100644
--- a/src/store/vec.rs
+++ b/src/store/vec.rs
@@ -68,6 +68,12 @@ impl<E: Element> Store<E> for VecStore<E> {
     }
 
     fn new_from_slice(size: usize, data: &[u8]) -> Result<Self> {
+        ensure!(
+            data.len() % E::byte_len() == 0,
+            "data size must be a multiple of {}",
+            E::byte_len()
+        );
+
         let mut v: Vec<_> = data
             .chunks_exact(E::byte_len())
             .map(E::from_slice)
-- 
2.43.0


From ecd650c9d67ced66e5af6fa693f1f60239ae32b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:58 +0000
Subject: [PATCH 21/25] fix: no tree size is valid with fewer than two branches

---
 src/merkle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index 7bf0567..4a99564 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -2039,7 +2039,7 @@ pub fn get_merkle_tree_cache_size(
 }
 
 pub fn is_merkle_tree_size_valid(leafs: usize, branches: usize) -> bool {
-    if branches == 0 || leafs != next_pow2(leafs) || branches != next_pow2(branches) {
+    if branches < 2 || leafs != next_pow2(leafs) || branches != next_pow2(branches) {
         return false;
     }
 
-- 
2.43.0


From a7dc8d3af277f1f688ddc123bc21d7505270cbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:58 +0000
Subject: [PATCH 22/25] fix: from_store_configs no longer creates the stores
 that it is asked to load

---
 src/merkle.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index 4a99564..5a3a148 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -792,12 +792,8 @@ impl<
         let branches = BaseTreeArity::to_usize();
         let mut trees = Vec::with_capacity(configs.len());
         for config in configs {
-            let data = S::new_with_config(
-                get_merkle_tree_len(leafs, branches)?,
-                branches,
-                config.clone(),
-            )
-            .context("failed to create data store")?;
+            let data = S::new_from_disk(get_merkle_tree_len(leafs, branches)?, branches, config)
+                .context("failed to load data store")?;
             trees.push(MerkleTree::<E, A, S, BaseTreeArity>::from_data_store(
                 data, leafs,
             )?);
-- 
2.43.0


From 0e5d83e538452757c7396bc3acdbfee3d5c02180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:13 +0000
Subject: [PATCH 23/25] fix: a refused construction leaves no incomplete store
 behind

---
 src/merkle.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index 5a3a148..6218a66 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1547,7 +1547,19 @@ impl<
 
         let mut data = S::new_from_slice_with_config(size, branches, leafs, config.clone())
             .context("failed to create data store")?;
-        let root = S::build::<A, BaseTreeArity>(&mut data, leafs_count, row_count, Some(config))?;
+        let root =
+            S::build::<A, BaseTreeArity>(&mut data, leafs_count, row_count, Some(config.clone()));
+        let root = match root {
+            Ok(root) => root,
+            Err(err) => {
+                // Do not leave an incomplete store behind, as it would be loaded as a
+                // complete one the next time that this config is used.
+                if !data.loaded_from_disk() {
+                    let _ = S::delete(config);
+                }
+                return Err(err);
+            }
+        };
 
         Ok(MerkleTree {
             data: Data::BaseTree(data),
@@ -1757,8 +1769,21 @@ impl<
             });
         }
 
-        populate_data_par::<E, A, S, BaseTreeArity, _>(&mut data, iter)?;
-        let root = S::build::<A, BaseTreeArity>(&mut data, leafs, row_count, Some(config))?;
+        let newly_created = data.is_empty();
+        let root = populate_data_par::<E, A, S, BaseTreeArity, _>(&mut data, iter).and_then(|_| {
+            S::build::<A, BaseTreeArity>(&mut data, leafs, row_count, Some(config.clone()))
+        });
+        let root = match root {
+            Ok(root) => root,
+            Err(err) => {
+                // Do not leave an incomplete store behind, as it would be loaded as a
+                // complete one the next time that this config is used.
+                if newly_created {
+                    let _ = S::delete(config);
+                }
+                return Err(err);
+            }
+        };
 
         Ok(MerkleTree {
             data: Data::BaseTree(data),
-- 
2.43.0


From 6a7d53dac89c695a97098c2f8ba218bba8aecef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:35 +0000
Subject: [PATCH 24/25] fix: refuse positions whose byte address exceeds the
 machine word

In a build without overflow checks read_at, read_into, read_range,
read_range_into, write_at and copy_from_slice of the disk, level cache and
memory map stores multiplied the position with the element size without
noticing an overflow, so that for instance position 1 << 59 of a store of
32 byte elements gave (or overwrote) element 0.
---
 src/store/disk.rs        | 36 ++++++++++++++++++++++++++++--------
 src/store/level_cache.rs | 36 ++++++++++++++++++++++++++++--------
 src/store/mmap.rs        | 26 ++++++++++++++++++++------
 3 files changed, 76 insertions(+), 22 deletions(-)

diff --git a/src/store/disk.rs b/src/store/disk.rs
index 592c2ec..d7dd839 100644
--- a/src/store/disk.rs
+++ b/src/store/disk.rs
@@ -133,7 +133,10 @@ impl<E: Element> Store<E> for DiskStore<E> {
     }
 
     fn write_at(&mut self, el: E, index: usize) -> Result<()> {
-        self.store_copy_from_slice(index * self.elem_len, el.as_ref())?;
+        let pos = index
+            .checked_mul(self.elem_len)
+            .context("position out of range")?;
+        self.store_copy_from_slice(pos, el.as_ref())?;
         self.len = std::cmp::max(self.len, index + 1);
         Ok(())
     }
@@ -144,14 +147,19 @@ impl<E: Element> Store<E> for DiskStore<E> {
             "buf size must be a multiple of {}",
             self.elem_len
         );
-        self.store_copy_from_slice(start * self.elem_len, buf)?;
+        let pos = start
+            .checked_mul(self.elem_len)
+            .context("position out of range")?;
+        self.store_copy_from_slice(pos, buf)?;
         self.len = std::cmp::max(self.len, start + buf.len() / self.elem_len);
 
         Ok(())
     }
 
     fn read_at(&self, index: usize) -> Result<E> {
-        let start = index * self.elem_len;
+        let start = index
+            .checked_mul(self.elem_len)
+            .context("position out of range")?;
         let end = start + self.elem_len;
 
         let len = self.len * self.elem_len;
@@ -162,7 +170,9 @@ impl<E: Element> Store<E> for DiskStore<E> {
     }
 
     fn read_into(&self, index: usize, buf: &mut [u8]) -> Result<()> {
-        let start = index * self.elem_len;
+        let start = index
+            .checked_mul(self.elem_len)
+            .context("position out of range")?;
         let end = start + self.elem_len;
 
         let len = self.len * self.elem_len;
@@ -173,8 +183,12 @@ impl<E: Element> Store<E> for DiskStore<E> {
     }
 
     fn read_range_into(&self, start: usize, end: usize, buf: &mut [u8]) -> Result<()> {
-        let start = start * self.elem_len;
-        let end = end * self.elem_len;
+        let start = start
+            .checked_mul(self.elem_len)
+            .context("position out of range")?;
+        let end = end
+            .checked_mul(self.elem_len)
+            .context("position out of range")?;
 
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
@@ -184,8 +198,14 @@ impl<E: Element> Store<E> for DiskStore<E> {
     }
 
     fn read_range(&self, r: ops::Range<usize>) -> Result<Vec<E>> {
-        let start = r.start * self.elem_len;
-        let end = r.end * self.elem_len;
+        let start = r
+            .start
+            .checked_mul(self.elem_len)
+            .context("position out of range")?;
+        let end = r
+            .end
+            .checked_mul(self.elem_len)
+            .context("position out of range")?;
 
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 7866fd0..5fef056 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -339,7 +339,10 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
     }
 
     fn write_at(&mut self, el: E, index: usize) -> Result<()> {
-        self.store_copy_from_slice(index * self.elem_len, el.as_ref())?;
+        let pos = index
+            .checked_mul(self.elem_len)
+            .context("position out of range")?;
+        self.store_copy_from_slice(pos, el.as_ref())?;
         self.len = std::cmp::max(self.len, index + 1);
 
         Ok(())
@@ -351,14 +354,19 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
             "buf size must be a multiple of {}",
             self.elem_len
         );
-        self.store_copy_from_slice(start * self.elem_len, buf)?;
+        let pos = start
+            .checked_mul(self.elem_len)
+            .context("position out of range")?;
+        self.store_copy_from_slice(pos, buf)?;
         self.len = std::cmp::max(self.len, start + buf.len() / self.elem_len);
 
         Ok(())
     }
 
     fn read_at(&self, index: usize) -> Result<E> {
-        let start = index * self.elem_len;
+        let start = index
+            .checked_mul(self.elem_len)
+            .context("position out of range")?;
         let end = start + self.elem_len;
 
         let len = self.len * self.elem_len;
@@ -370,7 +378,9 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
     }
 
     fn read_into(&self, index: usize, buf: &mut [u8]) -> Result<()> {
-        let start = index * self.elem_len;
+        let start = index
+            .checked_mul(self.elem_len)
+            .context("position out of range")?;
         let end = start + self.elem_len;
 
         let len = self.len * self.elem_len;
@@ -382,8 +392,12 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
     }
 
     fn read_range_into(&self, start: usize, end: usize, buf: &mut [u8]) -> Result<()> {
-        let start = start * self.elem_len;
-        let end = end * self.elem_len;
+        let start = start
+            .checked_mul(self.elem_len)
+            .context("position out of range")?;
+        let end = end
+            .checked_mul(self.elem_len)
+            .context("position out of range")?;
 
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
@@ -394,8 +408,14 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
     }
 
     fn read_range(&self, r: ops::Range<usize>) -> Result<Vec<E>> {
-        let start = r.start * self.elem_len;
-        let end = r.end * self.elem_len;
+        let start = r
+            .start
+            .checked_mul(self.elem_len)
+            .context("position out of range")?;
+        let end = r
+            .end
+            .checked_mul(self.elem_len)
+            .context("position out of range")?;
 
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index 84edc5a..0b4e6d5 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -112,7 +112,9 @@ impl<E: Element> Store<E> for MmapStore<E> {
     }
 
     fn write_at(&mut self, el: E, index: usize) -> Result<()> {
-        let start = index * E::byte_len();
+        let start = index
+            .checked_mul(E::byte_len())
+            .context("position out of range")?;
         let end = start + E::byte_len();
 
         if self.map.is_none() {
@@ -133,7 +135,9 @@ impl<E: Element> Store<E> for MmapStore<E> {
             E::byte_len()
         );
 
-        let map_start = start * E::byte_len();
+        let map_start = start
+            .checked_mul(E::byte_len())
+            .context("position out of range")?;
         let map_end = map_start + buf.len();
 
         if self.map.is_none() {
@@ -199,7 +203,9 @@ impl<E: Element> Store<E> for MmapStore<E> {
     }
 
     fn read_at(&self, index: usize) -> Result<E> {
-        let start = index * E::byte_len();
+        let start = index
+            .checked_mul(E::byte_len())
+            .context("position out of range")?;
         let end = start + E::byte_len();
         let len = self.len * E::byte_len();
 
@@ -214,7 +220,9 @@ impl<E: Element> Store<E> for MmapStore<E> {
     }
 
     fn read_into(&self, index: usize, buf: &mut [u8]) -> Result<()> {
-        let start = index * E::byte_len();
+        let start = index
+            .checked_mul(E::byte_len())
+            .context("position out of range")?;
         let end = start + E::byte_len();
         let len = self.len * E::byte_len();
 
@@ -235,8 +243,14 @@ impl<E: Element> Store<E> for MmapStore<E> {
     }
 
     fn read_range(&self, r: ops::Range<usize>) -> Result<Vec<E>> {
-        let start = r.start * E::byte_len();
-        let end = r.end * E::byte_len();
+        let start = r
+            .start
+            .checked_mul(E::byte_len())
+            .context("position out of range")?;
+        let end = r
+            .end
+            .checked_mul(E::byte_len())
+            .context("position out of range")?;
         let len = self.len * E::byte_len();
 
         ensure!(start < len, "start out of range {} >= {}", start, len);
-- 
2.43.0


From ec67d10881ba5c332503d44aeb6d5556c22a86e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:03 +0000
Subject: [PATCH 25/25] fix: refuse short reads of the external reader

The base layer of a level cache store is read by a function of the user,
which returns how many bytes it read.  The count was ignored: where the
replica ends early and the function says so, the rest was taken to be zero
and a wrong leaf returned.
---
 src/store/level_cache.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 5fef056..7eb2996 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -744,7 +744,8 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
 
         // If an external reader was specified for the base layer, use it.
         if start < self.data_width * self.elem_len && self.reader.is_some() {
-            self.reader
+            let count = self
+                .reader
                 .as_ref()
                 .unwrap() // unwrap is safe as we checked reader to be initialised
                 .read(start, end, &mut read_data)
@@ -755,6 +756,7 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
                         start
                     )
                 })?;
+            ensure!(count == read_len, "Failed to read the full range");
 
             return Ok(read_data);
         }
@@ -843,7 +845,8 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
 
         // If an external reader was specified for the base layer, use it.
         if start < self.data_width * self.elem_len && self.reader.is_some() {
-            self.reader
+            let count = self
+                .reader
                 .as_ref()
                 .unwrap() // unwrap is safe as we checked reader to be initialised
                 .read(start, end, buf)
@@ -854,6 +857,7 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
                         start
                     )
                 })?;
+            ensure!(count == end - start, "Failed to read the full range");
         } else {
             // Adjust read index if in the cached ranged to be shifted
             // over since the data stored is compacted.
-- 
2.43.0

