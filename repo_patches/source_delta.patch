From a6461e8e12024e8d181d95740996e503ed395e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:59 +0000
Subject: [PATCH 01/18] fix: check the length of every signature of a bulk
 insert

par_bulk_insert looked at the first signature only and par_bulk_insert_pairs
at none, so a bad batch was accepted, or panicked half-way through the bands.
---
 gaoya/src/minhash/minhash_index.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 8a7d996..2b257bd 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -430,8 +430,8 @@ where
         Id: Hash + Eq + Clone + Send + Sync,
         T: Send + Sync,
     {
-        if !signatures.is_empty() {
-            assert_eq!(self.num_hashes(), signatures[0].len());
+        for signature in &signatures {
+            assert_eq!(self.num_hashes(), signature.len());
         }
 
         self.bands.par_iter_mut().for_each(|band| {
@@ -452,6 +452,10 @@ where
         Id: Hash + Eq + Clone + Send + Sync,
         T: Send + Sync,
     {
+        for (_, signature) in &id_signature_pairs {
+            assert_eq!(self.num_hashes(), signature.len());
+        }
+
         self.bands.par_iter_mut().for_each(|band| {
             for item in id_signature_pairs.iter() {
                 let i: &(Id, Vec<T>) = item;
-- 
2.43.0


From c836d9c0d3e74182bbfbba084709eb4c0dc0351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:59 +0000
Subject: [PATCH 02/18] fix: bulk_remove pairs each removed signature with its
 own id

Absent or repeated ids shifted the pairing, leaving stale band entries.
---
 gaoya/src/minhash/minhash_index.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 2b257bd..da1ebf2 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -704,13 +704,13 @@ where
         where
             Id: Hash + Eq + Clone + Send + Sync,
             T: Send + Sync {
-        let sigs: Vec<Vec<T>> = ids.iter()
-            .filter_map(|id| self.id_signatures.remove(id))
-            .collect();
+        let (ids, sigs): (Vec<&Id>, Vec<Vec<T>>) = ids.iter()
+            .filter_map(|id| self.id_signatures.remove(id).map(|sig| (id, sig)))
+            .unzip();
 
         self.bands.par_iter_mut()
             .for_each(|band| {
-                sigs.iter().zip(ids)
+                sigs.iter().zip(&ids)
                     .for_each(|(sig, id)| band.remove(id, sig))
             });
         sigs
-- 
2.43.0


From 95dc5fe03c1271d1982d1dc7e9c02b0e68cd0c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:59 +0000
Subject: [PATCH 03/18] fix: overwriting an id drops the band entries of its
 old signature

Stale entries made query_owned_return_similarity and query_top_k panic after the
id was removed, returned ids that no longer share a band, and leaked memory.
---
 gaoya/src/minhash/minhash_index.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index da1ebf2..241ecdf 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -419,12 +419,28 @@ where
     #[inline]
     pub fn insert(&mut self, id: Id, signature: Vec<T>) {
         assert_eq!(self.num_hashes(), signature.len());
+        // an existing id must not keep the band entries of its previous signature
+        self.remove(&id);
         for band in &mut self.bands {
             band.insert(id.clone(), &signature);
         }
         self.id_signatures.insert(id, signature);
     }
 
+    /// Removes the ids that are about to be inserted again and returns the position of the last
+    /// occurrence of every id, which is the one that counts.
+    fn prepare_bulk_insert<'a>(&mut self, ids: impl Iterator<Item = &'a Id>) -> HashMap<&'a Id, usize>
+    where
+        Id: 'a
+    {
+        let mut last_position = HashMap::new();
+        for (position, id) in ids.enumerate() {
+            self.remove(id);
+            last_position.insert(id, position);
+        }
+        last_position
+    }
+
     pub fn par_bulk_insert(&mut self, ids: Vec<Id>, signatures: Vec<Vec<T>>)
     where
         Id: Hash + Eq + Clone + Send + Sync,
@@ -434,8 +450,12 @@ where
             assert_eq!(self.num_hashes(), signature.len());
         }
 
+        let last_position = self.prepare_bulk_insert(ids.iter().take(signatures.len()));
         self.bands.par_iter_mut().for_each(|band| {
-            for item in signatures.iter().zip(ids.iter()) {
+            for (position, item) in signatures.iter().zip(ids.iter()).enumerate() {
+                if last_position[item.1] != position {
+                    continue;
+                }
                 let hashes = item.0;
                 let id = item.1.clone();
                 band.insert(id, hashes);
@@ -456,10 +476,14 @@ where
             assert_eq!(self.num_hashes(), signature.len());
         }
 
+        let last_position = self.prepare_bulk_insert(id_signature_pairs.iter().map(|pair| &pair.0));
         self.bands.par_iter_mut().for_each(|band| {
-            for item in id_signature_pairs.iter() {
+            for (position, item) in id_signature_pairs.iter().enumerate() {
                 let i: &(Id, Vec<T>) = item;
                 let (a, b) = i;
+                if last_position[a] != position {
+                    continue;
+                }
                 let k: Id = a.clone();
                 band.insert(k, b);
             }
-- 
2.43.0


From 37a6b3b2bc1a2051ef4ca139e66bfb13cbe2af5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:59 +0000
Subject: [PATCH 04/18] fix: query_one includes points exactly at the
 threshold, like query

---
 gaoya/src/minhash/minhash_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 241ecdf..c100d7a 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -567,7 +567,7 @@ where
             .map(|id| (id, self.id_signatures.get(&id)))
             .filter(|(id, sig)| sig.is_some())
             .map(|(id, sig)| (id, compute_minhash_similarity(sig.unwrap(), query_signature)))
-            .filter(|pair| pair.1 > self.threshold)
+            .filter(|pair| pair.1 >= self.threshold)
             .max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())
     }
 
-- 
2.43.0


From 5dd05032f48c0efef09d724f831458d3e325eb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:59 +0000
Subject: [PATCH 05/18] fix: shrink_to accepts empty indexes and all-distinct
 bands

Both made the ratio assertion fail and the call panic.
---
 gaoya/src/minhash/minhash_index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index c100d7a..4ee433c 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -514,8 +514,8 @@ where
             .for_each(|band| {
                 // On average the size of every band will be lower than the size of
                 // id_signatures. We adjust the desired capacity.
-                let ratio = band.hash_table.len() as f64 / self.id_signatures.len() as f64;
-                assert!(ratio < 1.0);
+                let ratio = band.hash_table.len() as f64 / self.id_signatures.len().max(1) as f64;
+                assert!(ratio <= 1.0);
                 let adjusted_capacity = (min_capacity as f64 * ratio) as usize;
                 band.shrink_to(adjusted_capacity)
             });
-- 
2.43.0


From dd6928a0bbea9efd0287f44455c516b0f16401ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:26 +0000
Subject: [PATCH 06/18] fix: similarity_greater_than_threshold no longer rounds
 the threshold down

The number of required matches was truncated, so pairs below the threshold passed.
---
 gaoya/src/minhash/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gaoya/src/minhash/mod.rs b/gaoya/src/minhash/mod.rs
index d8f69d1..1ef1d08 100644
--- a/gaoya/src/minhash/mod.rs
+++ b/gaoya/src/minhash/mod.rs
@@ -147,13 +147,12 @@ pub fn similarity_greater_than_threshold<T>(
 {
     assert_eq!(min_hashes_1.len(), min_hashes_2.len());
     let num_hashes = min_hashes_1.len();
-    let expected_matches = (num_hashes as f64 * threshold) as u32;
     let mut num_matches: u32 = 0;
     for pair in min_hashes_1.iter().zip(min_hashes_2.iter()) {
         if pair.0 == pair.1 {
             num_matches += 1;
         }
-        if num_matches >= expected_matches {
+        if num_matches as f64 / num_hashes as f64 >= threshold {
             return true;
         }
     }
-- 
2.43.0


From 6feecad91d7929d945146a1246146c03d6bb2cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:26 +0000
Subject: [PATCH 07/18] fix: MultiShingles yields the n-grams at the end of the
 data

The iterators ended at the first size that no longer fits, so with three or more
sizes the smaller n-grams of the last positions were lost.
---
 gaoya/src/text/multi_shingles.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/gaoya/src/text/multi_shingles.rs b/gaoya/src/text/multi_shingles.rs
index ff8ab62..2e88636 100644
--- a/gaoya/src/text/multi_shingles.rs
+++ b/gaoya/src/text/multi_shingles.rs
@@ -28,6 +28,11 @@ impl<'a, T> Iterator for MultiShingles<'a, [T]> {
     type Item = &'a [T];
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.size > self.from_size && self.size > self.data.len() {
+            // the rest is too short for this size, go on with the smallest at the next position
+            self.size = self.from_size;
+            self.data = &self.data[self.step..];
+        }
         if self.data.len() >= self.size {
             let ret = &self.data[0..self.size];
             self.size += 1;
@@ -78,6 +83,12 @@ impl<'a> Iterator for MultiShingles<'a, str> {
             None
         };
 
+        // the rest is too short for this size, go on with the smallest at the next position
+        let too_short = ret.is_none() && self.size > self.from_size;
+        if too_short {
+            self.size = self.to_size;
+        }
+
         // move data slice to next step position
         self.size += 1;
         if self.size > self.to_size {
@@ -89,6 +100,9 @@ impl<'a> Iterator for MultiShingles<'a, str> {
             }
         }
 
+        if too_short {
+            return self.next();
+        }
         ret
     }
 }
-- 
2.43.0


From 154f9829f53235df2a0fc781a7a6504c8e1d659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:26 +0000
Subject: [PATCH 08/18] fix: SimHashIndex::size reports the number of stored
 ids

The counter it returned was never updated.
---
 gaoya/src/simhash/sim_hash_index.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gaoya/src/simhash/sim_hash_index.rs b/gaoya/src/simhash/sim_hash_index.rs
index ac56fe0..66ebc3e 100644
--- a/gaoya/src/simhash/sim_hash_index.rs
+++ b/gaoya/src/simhash/sim_hash_index.rs
@@ -102,7 +102,6 @@ where
     hash_tables: Vec<SimHashTable<S, Id>>,
     id_signatures: AHashMap<Id, S>,
     marker: PhantomData<(S, Id)>,
-    size: usize,
 }
 
 impl<S, Id> SimHashIndex<S, Id>
@@ -123,7 +122,6 @@ where
                 .collect()),
             id_signatures: AHashMap::default(),
             marker: PhantomData,
-            size: 0,
         }
     }
 
@@ -225,7 +223,7 @@ where
     }
 
     pub fn size(&self) -> usize {
-        self.size
+        self.id_signatures.len()
     }
 
     fn avg_bucket_count(&self) -> usize {
-- 
2.43.0


From 582abe5935df86d23f65daec610f0d949622f427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:26 +0000
Subject: [PATCH 09/18] fix: SimHashIndex queries include the configured
 distance

Documented as less than or equal; with distance 0 not even an equal signature was found.
---
 gaoya/src/simhash/sim_hash_index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gaoya/src/simhash/sim_hash_index.rs b/gaoya/src/simhash/sim_hash_index.rs
index 66ebc3e..1a3b542 100644
--- a/gaoya/src/simhash/sim_hash_index.rs
+++ b/gaoya/src/simhash/sim_hash_index.rs
@@ -54,7 +54,7 @@ where
                     .iter()
                     .filter(|id| {
                         let signature = id_signatures.get(id).unwrap();
-                        query_signature.hamming_distance(signature) < max_distance
+                        query_signature.hamming_distance(signature) <= max_distance
                     });
                 match_ids.extend(matches);
             }
@@ -75,7 +75,7 @@ where
                     .iter()
                     .filter(|id| {
                         let signature = id_signatures.get(id).unwrap();
-                        query_signature.hamming_distance(signature) < max_distance
+                        query_signature.hamming_distance(signature) <= max_distance
                     }).cloned();
                 match_ids.extend(matches);
             }
-- 
2.43.0


From d97d051f671590a116eb87caa93bc6c4b79e5db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:26 +0000
Subject: [PATCH 10/18] fix: loading lines into MinHashStringIndex loses no
 documents and terminates

The parallel load reused the id of the last document and panicked on lines that are
not UTF-8; the serial load never ended on a source that keeps failing.
---
 gaoya/src/minhash/string_index.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/gaoya/src/minhash/string_index.rs b/gaoya/src/minhash/string_index.rs
index 4f8e947..0d4d4f2 100644
--- a/gaoya/src/minhash/string_index.rs
+++ b/gaoya/src/minhash/string_index.rs
@@ -51,11 +51,8 @@ impl MinHashStringIndex {
     }
 
     pub fn load_from_lines<R: Read>(&mut self, reader: &mut BufReader<R>) {
-        for line_result in reader.lines() {
-            match line_result {
-                Ok(line) => self.insert(line),
-                Err(e) => (),
-            }
+        for line in valid_lines(reader) {
+            self.insert(line);
         }
     }
 
@@ -77,10 +74,9 @@ impl MinHashStringIndex {
             Ok(file) => {
                 let current_size = self.size();
                 let mut reader: BufReader<File> = BufReader::new(file);
-                let lines: Vec<(u64, String)> = reader
-                    .lines()
+                let lines: Vec<(u64, String)> = valid_lines(&mut reader)
                     .enumerate()
-                    .map(|v| (v.0 as u64 + self.doc_id, v.1.unwrap()))
+                    .map(|v| (v.0 as u64 + self.doc_id + 1, v.1))
                     .collect();
                 let minhashes = lines
                     .par_iter()
@@ -108,6 +104,19 @@ impl MinHashStringIndex {
     }
 }
 
+/// Returns the lines that are valid UTF-8. A read error ends the input.
+fn valid_lines<R: Read>(reader: &mut BufReader<R>) -> impl Iterator<Item = String> + '_ {
+    reader
+        .split(b'\n')
+        .map_while(|line| line.ok())
+        .filter_map(|mut line| {
+            if line.last() == Some(&b'\r') {
+                line.pop();
+            }
+            String::from_utf8(line).ok()
+        })
+}
+
 #[cfg(test)]
 mod tests {
     use super::MinHashStringIndex;
-- 
2.43.0


From eea83c5fa62c202711cae491ce45dc0eaf2d246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:26 +0000
Subject: [PATCH 11/18] fix: serial clustering accepts clusters of exactly the
 minimum size

Like the parallel clusterer does.
---
 gaoya/src/clustering/clustering_serial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/clustering/clustering_serial.rs b/gaoya/src/clustering/clustering_serial.rs
index 492ba30..e29e54a 100644
--- a/gaoya/src/clustering/clustering_serial.rs
+++ b/gaoya/src/clustering/clustering_serial.rs
@@ -99,7 +99,7 @@ impl<Id> Clusterer<Id>
             let similar_points: Vec<_> = query_index.query(point).into_iter()
                 .filter(|point| point.cluster.get().is_none())
                 .map(|p| p.clone()).collect();
-            if similar_points.len() > self.min_cluster_size {
+            if similar_points.len() >= self.min_cluster_size {
                 cluster_id_seq += 1;
                 let cluster = self.create_new_cluster(similar_points, cluster_id_seq);
                 clusters.push(cluster);
-- 
2.43.0


From 89dfa3a6018bf48304f74fe24c292bc342eb5307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:26 +0000
Subject: [PATCH 12/18] fix: the serial clusterer does not reuse cluster ids
 across calls

---
 gaoya/src/clustering/clustering_serial.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gaoya/src/clustering/clustering_serial.rs b/gaoya/src/clustering/clustering_serial.rs
index e29e54a..f909e83 100644
--- a/gaoya/src/clustering/clustering_serial.rs
+++ b/gaoya/src/clustering/clustering_serial.rs
@@ -90,7 +90,6 @@ impl<Id> Clusterer<Id>
                    points: &mut Vec<ClusterPoint<Id>>,
                    query_index: & (dyn QueryIndex<Id=ClusterPoint<Id>> )) -> Vec<Box<Cluster<Id>>> {
         let mut clusters = Vec::new();
-        let mut cluster_id_seq = self.cluster_id_sequence;
         for point in points {
             if point.cluster.get().is_some() {
                 continue;
@@ -100,8 +99,8 @@ impl<Id> Clusterer<Id>
                 .filter(|point| point.cluster.get().is_none())
                 .map(|p| p.clone()).collect();
             if similar_points.len() >= self.min_cluster_size {
-                cluster_id_seq += 1;
-                let cluster = self.create_new_cluster(similar_points, cluster_id_seq);
+                let cluster_id = self.new_cluster_id();
+                let cluster = self.create_new_cluster(similar_points, cluster_id);
                 clusters.push(cluster);
             }
         }
-- 
2.43.0


From 02c34e95b565d1573d28446d5d2332197623a10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:26 +0000
Subject: [PATCH 13/18] fix: cluster_par accepts fewer points than threads

---
 gaoya/src/clustering/clusterer_parallel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/clustering/clusterer_parallel.rs b/gaoya/src/clustering/clusterer_parallel.rs
index ef5ede1..e08045e 100644
--- a/gaoya/src/clustering/clusterer_parallel.rs
+++ b/gaoya/src/clustering/clusterer_parallel.rs
@@ -167,7 +167,7 @@ where
         points: &mut Vec<ClusterPoint<Id>>,
         query_index: &MinHashIndex<T, ClusterPoint<Id>, C>,
     ) -> Vec<Box<Cluster<Id>>> {
-        let chunk_size = points.len() / self.n_threads;
+        let chunk_size = (points.len() / self.n_threads.max(1)).max(1);
         let result: Vec<_> = points.par_chunks_mut(chunk_size)
             .map(|chunk| self.cluster_slice(chunk, query_index))
             .collect();
-- 
2.43.0


From 3a465cc65b3f349169125d18067989baa130bed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:10 +0000
Subject: [PATCH 14/18] fix: parallel clustering assigns every point to at most
 one, live cluster

The commit/rollback protocol could not tell the two states apart, dereferenced clusters
that another thread had already freed, put points into two clusters and forgot others.
Clusters are now created under a lock; the queries still run in parallel.
---
 gaoya/src/clustering/clusterer_parallel.rs | 83 +++++-----------------
 1 file changed, 17 insertions(+), 66 deletions(-)

diff --git a/gaoya/src/clustering/clusterer_parallel.rs b/gaoya/src/clustering/clusterer_parallel.rs
index e08045e..a9ba08d 100644
--- a/gaoya/src/clustering/clusterer_parallel.rs
+++ b/gaoya/src/clustering/clusterer_parallel.rs
@@ -8,7 +8,8 @@ use std::marker::PhantomData;
 use std::pin::Pin;
 use std::ptr;
 use std::ptr::null_mut;
-use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU8, Ordering};
+use std::sync::atomic::{AtomicPtr, AtomicU32, Ordering};
+use std::sync::Mutex;
 use triomphe::Arc;
 
 /// Implementation of a parallel,  multi-threaded clustering algorithm.
@@ -85,13 +86,9 @@ impl<Id> Eq for ClusterPointInner<Id> where Id: Eq {}
 
 pub type ClusterPoint<Id> = Arc<ClusterPointInner<Id>>;
 
-const COMMITTED: u8 = 1;
-const ROLLED_BACK: u8 = 1;
-
 pub struct Cluster<Id> {
     pub points: Vec<ClusterPoint<Id>>,
     pub cluster_id: u32,
-    state: AtomicU8,
 }
 
 impl<Id> Cluster<Id> {
@@ -99,33 +96,8 @@ impl<Id> Cluster<Id> {
         Cluster {
             points: Vec::with_capacity(cluster_size),
             cluster_id: cluster_id,
-            state: AtomicU8::new(0),
         }
     }
-
-    /// cluster state machine is simple. There are only 3 possible states and 2 transitions:
-    /// NEW -> COMMITTED, NEW -> ROLLED_BACK
-
-
-    fn commit(&self) -> bool {
-        self.state
-            .compare_exchange(0, COMMITTED, Ordering::Relaxed, Ordering::Relaxed)
-            .is_ok()
-    }
-
-    fn rollback(&self) -> bool {
-        self.state
-            .compare_exchange(0, ROLLED_BACK, Ordering::Relaxed, Ordering::Relaxed)
-            .is_ok()
-    }
-
-    fn is_rolled_back(&self) -> bool {
-        self.state.load(Ordering::Relaxed) == ROLLED_BACK
-    }
-
-    fn is_commited(&self) -> bool {
-        self.state.load(Ordering::Relaxed) == COMMITTED
-    }
 }
 
 /// Parallel Clusterer searches clusters using multiple threads
@@ -138,6 +110,8 @@ pub struct Clusterer<T, Id> {
     phandom: PhantomData<(T, Id)>,
     n_threads: usize,
     min_cluster_size: usize,
+    /// Held while points are assigned to a new cluster
+    assignment_lock: Mutex<()>,
 }
 
 impl<T, Id> Clusterer<T, Id>
@@ -151,6 +125,7 @@ where
             phandom: PhantomData,
             n_threads: n_threads,
             min_cluster_size: min_cluster_size,
+            assignment_lock: Mutex::new(()),
         }
     }
 
@@ -221,56 +196,32 @@ where
 
     /// Creates a new cluster given the points.
     /// During parallel clustering two threads may attempt to create a cluster from
-    /// similar points.
+    /// similar points. Points that another thread has assigned in the meantime are left out,
+    /// and no cluster is created if too few remain.
     fn try_create_cluster(&self, points: &mut Vec<ClusterPoint<Id>>) -> Option<Box<Cluster<Id>>> {
+        let _guard = self.assignment_lock.lock().unwrap();
+        points.retain(|point| !point.is_cluster_assigned());
+        if points.len() < self.min_cluster_size {
+            return None;
+        }
         let cluster_id = self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1;
         let mut cluster: Box<Cluster<Id>> =
             Box::new(Cluster::new(cluster_id, self.min_cluster_size));
         let cluster_const_ptr: *const Cluster<Id> = &*cluster;
         let cluster_ptr = cluster_const_ptr as *mut Cluster<Id>;
 
-        for mut i in 0..points.len() {
-            // Another thread may rolled us back
-            if cluster.is_rolled_back() {
-                self.rollback_cluster_points(&mut cluster, cluster_ptr);
-            }
-            let point = &points[i];
+        for point in points.iter() {
             match point.assign_cluster(cluster_ptr) {
                 Ok(_) => {
                     cluster.points.push(point.clone());
                 }
-                Err(conflict_ptr) => {
-                    // This point has already been assigned a cluster by another thread,
-                    // but if the conflict cluster has not been commited we still can win this point
-                    let conflict_cluster: &mut Cluster<Id> = unsafe { &mut *conflict_ptr };
-                    if conflict_cluster.is_commited() {
-                        cluster.rollback();
-                        self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                        return None;
-                    } else if conflict_cluster.is_rolled_back() {
-                        i = i - 1; // go back and retry
-                    } else if (cluster_id > conflict_cluster.cluster_id) {
-                        // We loose because conflict_cluster was first
-                        cluster.rollback();
-                        self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                        return None;
-                    } else {
-                        if conflict_cluster.rollback() {
-                            cluster.points.push(point.clone());
-                        } else {
-                            // We are too late
-                            cluster.rollback();
-                            self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                            return None;
-                        }
-                    }
+                Err(_) => {
+                    // Only another clusterer working on the same points can get here
+                    self.rollback_cluster_points(&mut cluster, cluster_ptr);
+                    return None;
                 }
             }
         }
-        if !cluster.commit() {
-            self.rollback_cluster_points(&mut cluster, cluster_ptr);
-            return None;
-        }
         Some(cluster)
     }
 
-- 
2.43.0


From 0868045665b3c803a40b728b79612bde5be9557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:10 +0000
Subject: [PATCH 15/18] fix: SimHashStringIndex rejects num_blocks outside 3 to
 32 with ValueError

The test could never be true.
---
 py-gaoya/gaoya/simhash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py-gaoya/gaoya/simhash.py b/py-gaoya/gaoya/simhash.py
index 3c53b67..02b32a7 100644
--- a/py-gaoya/gaoya/simhash.py
+++ b/py-gaoya/gaoya/simhash.py
@@ -50,7 +50,7 @@ class SimHashStringIndex:
 
         if hash_size not in [64, 128]:
             raise ValueError(f"Invalid hash_size {hash_size}. hash_size must be one of of 64 or 128")
-        if num_blocks < 3 and num_blocks > 32:
+        if num_blocks < 3 or num_blocks > 32:
             raise ValueError(f"Invalid num_blocks {num_blocks}. num_blocks must be between 3 and 32")
         if hamming_distance >= num_blocks:
             raise ValueError(f"Number of blocks must be greater than hamming distance")
-- 
2.43.0


From 98fe2240e00db58addd3c831f5324fc52382eb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:10 +0000
Subject: [PATCH 16/18] fix: SimHashStringIndex queries call methods that exist

Queries with distances, and parallel queries with a callable analyzer, raised
AttributeError.
---
 py-gaoya/gaoya/simhash.py |  6 +++---
 py-gaoya/src/sim_hash.rs  | 12 +++++++++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/py-gaoya/gaoya/simhash.py b/py-gaoya/gaoya/simhash.py
index 02b32a7..b5811d7 100644
--- a/py-gaoya/gaoya/simhash.py
+++ b/py-gaoya/gaoya/simhash.py
@@ -102,12 +102,12 @@ class SimHashStringIndex:
         """
         if callable(self.analyzer):
             if return_hamming_distance:
-                return self.index.query_tokens_return_similarity(self.analyzer(doc))
+                return self.index.query_tokens_return_distance(self.analyzer(doc))
             else:
                 return self.index.query_tokens(self.analyzer(doc))
         else:
             if return_hamming_distance:
-                return self.index.query_return_similarity(doc)
+                return self.index.query_return_distance(doc)
             else:
                 return self.index.query(doc)
 
@@ -137,6 +137,6 @@ class SimHashStringIndex:
                 return self.index.par_bulk_query_tokens(analyzed_docs)
         else:
             if return_similarity:
-                return self.index.par_bulk_query_tokens_return_distance(docs)
+                return self.index.par_bulk_query_return_distance(docs)
             else:
                 return self.index.par_bulk_query(docs)
diff --git a/py-gaoya/src/sim_hash.rs b/py-gaoya/src/sim_hash.rs
index 1fc9454..364f118 100644
--- a/py-gaoya/src/sim_hash.rs
+++ b/py-gaoya/src/sim_hash.rs
@@ -156,7 +156,17 @@ macro_rules! py_simhash_index {
                 self.inner.par_bulk_query_return_distance(&signatures)
             }
 
-            pub fn par_bulk_query_tokens_return_similarity(&self, doc_tokens: Vec<Vec<&str>>) -> Vec<Vec<(i64, usize)>> {
+            pub fn par_bulk_query_tokens(&self, doc_tokens: Vec<Vec<&str>>) -> Vec<Vec<i64>> {
+                let signatures = doc_tokens.par_iter()
+                    .map(|tokens| self.sim_hash.create_signature(tokens.iter()))
+                    .collect();
+                self.inner.par_bulk_query(&signatures)
+                    .into_iter()
+                    .map(|set| set.into_iter().collect())
+                    .collect()
+            }
+
+            pub fn par_bulk_query_tokens_return_distance(&self, doc_tokens: Vec<Vec<&str>>) -> Vec<Vec<(i64, usize)>> {
                 let signatures = doc_tokens.par_iter()
                     .map(|tokens| self.sim_hash.create_signature(tokens.iter()))
                     .collect();
-- 
2.43.0


From 7cf1e5fee456bd5c442b38654a7641939e1732a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:13 +0000
Subject: [PATCH 17/18] fix: overwriting an id in a SimHash index left its
 previous table entries behind

---
 gaoya/src/simhash/sim_hash_index.rs | 44 +++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/gaoya/src/simhash/sim_hash_index.rs b/gaoya/src/simhash/sim_hash_index.rs
index 1a3b542..7df55cd 100644
--- a/gaoya/src/simhash/sim_hash_index.rs
+++ b/gaoya/src/simhash/sim_hash_index.rs
@@ -41,6 +41,19 @@ where
             .push(id);
     }
 
+    fn remove(&mut self, id: &Id, simhash: &S) {
+        let key = *simhash & self.permutation.simple_mask;
+        if let Entry::Occupied(mut entry) = self.table.entry(key) {
+            let ids = entry.get_mut();
+            if let Some(position) = ids.iter().position(|x| x == id) {
+                ids.swap_remove(position);
+            }
+            if ids.is_empty() {
+                entry.remove();
+            }
+        }
+    }
+
     fn query<'a, B: BuildHasher>(&'a self,
                                  query_signature: &S,
                                  id_signatures: &AHashMap<Id, S>,
@@ -129,7 +142,11 @@ where
         for table in &mut self.hash_tables {
             table.insert(id.clone(), &signature);
         }
-        self.id_signatures.insert(id, signature);
+        if let Some(replaced) = self.id_signatures.insert(id.clone(), signature) {
+            for table in &mut self.hash_tables {
+                table.remove(&id, &replaced);
+            }
+        }
     }
 
     pub fn par_bulk_insert(&mut self, ids: Vec<Id>, signatures: Vec<S>)
@@ -143,9 +160,13 @@ where
             }
         });
 
+        let mut replaced = Vec::new();
         for id_hash in ids.into_iter().zip(signatures.into_iter()) {
-            self.id_signatures.insert(id_hash.0, id_hash.1);
+            if let Some(signature) = self.id_signatures.insert(id_hash.0.clone(), id_hash.1) {
+                replaced.push((id_hash.0, signature));
+            }
         }
+        self.remove_replaced(&replaced);
         self.id_signatures.shrink_to_fit();
     }
 
@@ -163,12 +184,29 @@ where
             }
         });
 
+        let mut replaced = Vec::new();
         for id_hash in id_signature_pairs {
-            self.id_signatures.insert(id_hash.0, id_hash.1);
+            if let Some(signature) = self.id_signatures.insert(id_hash.0.clone(), id_hash.1) {
+                replaced.push((id_hash.0, signature));
+            }
         }
+        self.remove_replaced(&replaced);
         self.id_signatures.shrink_to_fit();
     }
 
+    /// Removes the table entries of signatures which have been overwritten
+    fn remove_replaced(&mut self, replaced: &[(Id, S)])
+    where
+        S: Send + Sync,
+        Id: Send + Sync,
+    {
+        self.hash_tables.par_iter_mut().for_each(|table| {
+            for (id, signature) in replaced {
+                table.remove(id, signature);
+            }
+        });
+    }
+
     pub fn query_one(&self, query_signature: &S) -> Option<(&Id, usize)> {
         let match_ids = self.query(query_signature);
         match_ids.into_iter()
-- 
2.43.0


From e782e4424232cdf2c1e3e184c6614cd9f1987350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:37 +0000
Subject: [PATCH 18/18] fix: a bucket that stays in use gives back the room of
 removed ids

Near duplicates that were inserted together and then removed but for one left every
bucket they had shared with its largest capacity, in every band; likewise for ids of
a SimHash index whose signatures are replaced.
---
 gaoya/src/minhash/id_container.rs   | 15 +++++++++++++++
 gaoya/src/simhash/sim_hash_index.rs |  3 +++
 2 files changed, 18 insertions(+)

diff --git a/gaoya/src/minhash/id_container.rs b/gaoya/src/minhash/id_container.rs
index 6f05689..4bb3555 100644
--- a/gaoya/src/minhash/id_container.rs
+++ b/gaoya/src/minhash/id_container.rs
@@ -36,6 +36,12 @@ pub trait IdContainer<T>: Sync + Send {
     }
 }
 
+/// Whether most of the room of a container is left over from removed ids.
+/// The room is given back then, since the container may stay in use for one of many ids it once held.
+fn is_sparse(len: usize, capacity: usize) -> bool {
+    capacity > 4 * len + 16
+}
+
 
 pub struct HashSetContainer<T> {
     set: HashSet<T>
@@ -67,6 +73,9 @@ impl<T: Hash + Eq + Send + Sync + Clone> IdContainer<T> for HashSetContainer<T>
 
     fn remove(&mut self, item: &T) {
         self.set.remove(item);
+        if is_sparse(self.set.len(), self.set.capacity()) {
+            self.set.shrink_to_fit();
+        }
     }
 }
 
@@ -103,6 +112,9 @@ impl<T: Hash + Eq + Send + Sync + Clone> IdContainer<T> for  VecContainer<T> {
         if let Some(index) =  self.vec.iter().position(|x| x == item) {
             self.vec.swap_remove(index);
         }
+        if is_sparse(self.vec.len(), self.vec.capacity()) {
+            self.vec.shrink_to_fit();
+        }
     }
 }
 
@@ -141,6 +153,9 @@ impl<T: Hash + Eq + Send + Sync + Clone, const N: usize> IdContainer<T> for Smal
         if let Some(index) = self.vec.iter().position(|x| x == item) {
             self.vec.swap_remove(index);
         };
+        if is_sparse(self.vec.len(), self.vec.capacity()) {
+            self.vec.shrink_to_fit();
+        }
     }
 }
 
diff --git a/gaoya/src/simhash/sim_hash_index.rs b/gaoya/src/simhash/sim_hash_index.rs
index 7df55cd..b717e8e 100644
--- a/gaoya/src/simhash/sim_hash_index.rs
+++ b/gaoya/src/simhash/sim_hash_index.rs
@@ -50,6 +50,9 @@ where
             }
             if ids.is_empty() {
                 entry.remove();
+            } else if ids.capacity() > 4 * ids.len() + 16 {
+                // the room of the ids that have moved is not kept
+                ids.shrink_to_fit();
             }
         }
     }
-- 
2.43.0

