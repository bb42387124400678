From ba1d91a519070ea00743b3f74fa55b8010e08044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 01/14] fix: don't try to enumerate combinations for
 unreachable quorum set thresholds

---
 src/core_types/quorum_set.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core_types/quorum_set.rs b/src/core_types/quorum_set.rs
index ac834de..b4357b6 100644
--- a/src/core_types/quorum_set.rs
+++ b/src/core_types/quorum_set.rs
@@ -50,6 +50,9 @@ impl QuorumSet {
     /// Each valid quorum slice for this quorum set is a superset (i.e., equal to or a proper superset of)
     /// of at least one of the sets returned by this function.
     pub fn to_quorum_slices(&self) -> Vec<NodeIdSet> {
+        if self.threshold > self.validators.len() + self.inner_quorum_sets.len() {
+            return vec![]; // can never be satisfied
+        }
         let mut subslice_groups: Vec<Vec<NodeIdSet>> = vec![];
         subslice_groups.extend(
             self.validators
-- 
2.43.0


From de0e5f118b51379944f6a44b8be6af7f47a9f465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 02/14] fix: report minimal quorums of symmetric clusters with
 repeated members only once

---
 src/analysis/quorums.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/analysis/quorums.rs b/src/analysis/quorums.rs
index 0c990bd..9921fee 100644
--- a/src/analysis/quorums.rs
+++ b/src/analysis/quorums.rs
@@ -33,7 +33,7 @@ fn minimal_quorums_finder(consensus_clusters: Vec<NodeIdSet>, fbas: &Fbas) -> Ve
 
         if let Some(symmetric_cluster) = find_symmetric_cluster_in_consensus_cluster(&nodes, fbas) {
             debug!("Cluster contains a symmetric quorum cluster! Extracting quorums...");
-            found_quorums.append(&mut symmetric_cluster.to_minimal_quorums(fbas));
+            found_quorums.append(&mut symmetric_cluster.to_minimal_quorums());
         } else {
             debug!("Sorting nodes by rank...");
             let sorted_nodes = sort_by_rank(nodes.into_iter().collect(), fbas);
@@ -96,10 +96,10 @@ fn minimal_quorums_finder_step(
 
 impl QuorumSet {
     /// Makes sense if the quorum set represents a symmetric quorum cluster...
-    fn to_minimal_quorums(&self, fbas: &Fbas) -> Vec<NodeIdSet> {
+    fn to_minimal_quorums(&self) -> Vec<NodeIdSet> {
         let quorums = self.to_quorum_slices();
         if self.contains_duplicates() {
-            remove_non_minimal_x(quorums, is_minimal_for_quorum, fbas)
+            remove_non_minimal_node_sets(quorums)
         } else {
             quorums
         }
-- 
2.43.0


From baad49798c27294af98dcd85e455adde891780f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 03/14] fix: find all minimal blocking sets of symmetric
 clusters with repeated members

---
 src/analysis/blocking_sets.rs | 11 +++--------
 src/analysis/sets.rs          | 24 ------------------------
 2 files changed, 3 insertions(+), 32 deletions(-)

diff --git a/src/analysis/blocking_sets.rs b/src/analysis/blocking_sets.rs
index e935948..006ddda 100644
--- a/src/analysis/blocking_sets.rs
+++ b/src/analysis/blocking_sets.rs
@@ -20,7 +20,7 @@ fn minimal_blocking_sets_finder(consensus_clusters: Vec<NodeIdSet>, fbas: &Fbas)
 
         if let Some(symmetric_cluster) = find_symmetric_cluster_in_consensus_cluster(&nodes, fbas) {
             debug!("Cluster contains a symmetric quorum cluster! Extracting blocking sets...");
-            found_blocking_sets_per_cluster.push(symmetric_cluster.to_minimal_blocking_sets(fbas));
+            found_blocking_sets_per_cluster.push(symmetric_cluster.to_minimal_blocking_sets());
         } else {
             debug!("Sorting nodes by rank...");
             let sorted_nodes = sort_by_rank(nodes.into_iter().collect(), fbas);
@@ -115,10 +115,10 @@ fn minimal_blocking_sets_finder_step(
 
 impl QuorumSet {
     /// If `self` represents a symmetric quorum cluster, this function returns all minimal blocking sets of the induced FBAS.
-    fn to_minimal_blocking_sets(&self, fbas: &Fbas) -> Vec<NodeIdSet> {
+    fn to_minimal_blocking_sets(&self) -> Vec<NodeIdSet> {
         let blocking_sets = self.to_blocking_sets();
         if self.contains_duplicates() {
-            remove_non_minimal_x(blocking_sets, is_minimal_for_blocking_set, fbas)
+            remove_non_minimal_node_sets(blocking_sets)
         } else {
             blocking_sets
         }
@@ -165,11 +165,6 @@ impl QuorumSet {
     }
 }
 
-fn is_minimal_for_blocking_set(blocking_set: &NodeIdSet, fbas: &Fbas) -> bool {
-    let mut blocked_set = fbas.all_nodes();
-    blocked_set.difference_with(&blocking_set);
-    is_minimal_for_blocking_set_with_precomputed_blocked_set(blocking_set, &blocking_set, fbas)
-}
 fn is_minimal_for_blocking_set_with_precomputed_blocked_set(
     blocking_set: &NodeIdSet,
     blocked_set: &NodeIdSet,
diff --git a/src/analysis/sets.rs b/src/analysis/sets.rs
index 60e40f1..8fcadda 100644
--- a/src/analysis/sets.rs
+++ b/src/analysis/sets.rs
@@ -98,30 +98,6 @@ pub fn remove_non_minimal_node_sets(mut node_sets: Vec<NodeIdSet>) -> Vec<NodeId
     remove_non_minimal_node_sets_from_buckets(buckets_by_len)
 }
 
-pub(crate) fn remove_non_minimal_x<F>(
-    node_sets: Vec<NodeIdSet>,
-    is_minimal: F,
-    fbas: &Fbas,
-) -> Vec<NodeIdSet>
-where
-    F: Fn(&NodeIdSet, &Fbas) -> bool,
-{
-    let mut minimal_x = vec![];
-
-    debug!("Filtering out non-minimal node sets...");
-    for (i, node_set) in node_sets.into_iter().enumerate() {
-        if i % 100_000 == 0 {
-            debug!("...at set {}; {} minimal sets", i, minimal_x.len());
-        }
-        if is_minimal(&node_set, fbas) {
-            minimal_x.push(node_set);
-        }
-    }
-    debug!("Filtering done.");
-    debug_assert!(is_set_of_minimal_node_sets(&minimal_x));
-    minimal_x
-}
-
 pub fn is_set_of_minimal_node_sets(node_sets: &[NodeIdSet]) -> bool {
     node_sets.iter().enumerate().all(|(i, x)| {
         node_sets
-- 
2.43.0


From cf2a9504f140b5fea3c82e1451e84edd645f700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 04/14] fix: count unsatisfiable inner quorum sets as blocked
 when extracting blocking sets

---
 src/analysis/blocking_sets.rs | 11 +++--------
 src/core_types/quorum_set.rs  |  4 ++++
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/analysis/blocking_sets.rs b/src/analysis/blocking_sets.rs
index 006ddda..4ae165e 100644
--- a/src/analysis/blocking_sets.rs
+++ b/src/analysis/blocking_sets.rs
@@ -135,11 +135,13 @@ impl QuorumSet {
         subslice_groups.extend(
             self.inner_quorum_sets
                 .iter()
+                .filter(|qset| qset.is_satisfiable()) // others are blocked anyway
                 .map(|qset| qset.to_blocking_sets()),
         );
+        let blocking_threshold = (subslice_groups.len() + 1).saturating_sub(self.threshold);
         subslice_groups
             .into_iter()
-            .combinations(self.blocking_threshold())
+            .combinations(blocking_threshold)
             .map(|group_combination| {
                 group_combination
                     .into_iter()
@@ -156,13 +158,6 @@ impl QuorumSet {
             })
             .concat()
     }
-    fn blocking_threshold(&self) -> usize {
-        if self.validators.len() + self.inner_quorum_sets.len() >= self.threshold {
-            self.validators.len() + self.inner_quorum_sets.len() - self.threshold + 1
-        } else {
-            0
-        }
-    }
 }
 
 fn is_minimal_for_blocking_set_with_precomputed_blocked_set(
diff --git a/src/core_types/quorum_set.rs b/src/core_types/quorum_set.rs
index b4357b6..a37d45d 100644
--- a/src/core_types/quorum_set.rs
+++ b/src/core_types/quorum_set.rs
@@ -27,6 +27,10 @@ impl QuorumSet {
         let nodes_set: NodeIdSet = nodes_vec.iter().copied().collect();
         nodes_vec.len() != nodes_set.len()
     }
+    /// Whether there is any node set that satisfies this quorum set
+    pub(crate) fn is_satisfiable(&self) -> bool {
+        self.is_quorum_slice(&self.contained_nodes())
+    }
     pub fn is_quorum_slice(&self, node_set: &NodeIdSet) -> bool {
         if self.threshold == 0 {
             false // badly configured quorum set
-- 
2.43.0


From 47cab21eee3f8c31dd468f3dd6b1922813a4719c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 05/14] fix: avoid overflow in splitting threshold for very
 large thresholds

---
 src/analysis/splitting_sets.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/analysis/splitting_sets.rs b/src/analysis/splitting_sets.rs
index 19460df..c831334 100644
--- a/src/analysis/splitting_sets.rs
+++ b/src/analysis/splitting_sets.rs
@@ -202,11 +202,9 @@ impl QuorumSet {
         }
     }
     fn splitting_threshold(&self) -> usize {
-        if 2 * self.threshold > (self.validators.len() + self.inner_quorum_sets.len()) {
-            2 * self.threshold - (self.validators.len() + self.inner_quorum_sets.len())
-        } else {
-            0
-        }
+        self.threshold
+            .saturating_mul(2)
+            .saturating_sub(self.validators.len() + self.inner_quorum_sets.len())
     }
 }
 
-- 
2.43.0


From a59e7b4b8f562a2eaa3e5c767b57eeb3cb72de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 06/14] fix: minimal splitting sets of symmetric clusters with
 inner quorum sets

---
 src/analysis/splitting_sets.rs | 46 +++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/analysis/splitting_sets.rs b/src/analysis/splitting_sets.rs
index c831334..42a4a9e 100644
--- a/src/analysis/splitting_sets.rs
+++ b/src/analysis/splitting_sets.rs
@@ -25,7 +25,11 @@ fn minimal_splitting_sets_finder(
     for (i, nodes) in consensus_clusters.into_iter().enumerate() {
         debug!("Finding minimal splitting sets in cluster {}...", i);
 
-        if let Some(symmetric_cluster) = find_symmetric_cluster_in_consensus_cluster(&nodes, fbas) {
+        // if nodes appear more than once, we can't treat the branches of a quorum set separately
+        let symmetric_cluster = find_symmetric_cluster_in_consensus_cluster(&nodes, fbas)
+            .filter(|qset| !qset.contains_duplicates());
+
+        if let Some(symmetric_cluster) = symmetric_cluster {
             debug!("Cluster contains a symmetric quorum cluster! Extracting splitting sets...");
             found_splitting_sets.append(&mut symmetric_cluster.to_minimal_splitting_sets());
         } else {
@@ -153,16 +157,21 @@ impl QuorumSet {
         }
     }
     /// If `self` represents a symmetric quorum cluster, this function returns all minimal splitting sets of the induced FBAS.
+    /// Assumes that no node appears more than once.
     fn to_minimal_splitting_sets(&self) -> Vec<NodeIdSet> {
         let splitting_sets = self.to_splitting_sets();
-        if self.contains_duplicates() {
-            remove_non_minimal_node_sets(splitting_sets)
+        // check to see if we aren't split already or really a 1-quorum quorum set
+        if splitting_sets
+            .iter()
+            .any(|node_set| node_set.is_empty() || self.is_quorum_slice(node_set))
+        {
+            vec![]
         } else {
             splitting_sets
         }
     }
-    /// If `self` represents a symmetric quorum cluster, this function returns all minimal splitting sets of the induced FBAS,
-    /// but perhaps also a few extra...
+    /// Minimal intersections between two minimal quorum slices of `self`. If there is only one
+    /// minimal quorum slice, this is the slice itself.
     fn to_splitting_sets(&self) -> Vec<NodeIdSet> {
         let mut subslice_groups: Vec<Vec<NodeIdSet>> = vec![];
         subslice_groups.extend(
@@ -173,11 +182,25 @@ impl QuorumSet {
         subslice_groups.extend(
             self.inner_quorum_sets
                 .iter()
+                .filter(|qset| qset.is_satisfiable()) // others are not part of any slice
                 .map(|qset| qset.to_splitting_sets()),
         );
-        let potential_splitting_sets: Vec<NodeIdSet> = subslice_groups
+        let splitting_threshold = self
+            .threshold
+            .saturating_mul(2)
+            .saturating_sub(subslice_groups.len());
+
+        // two slices can agree on these groups without having any nodes in common
+        let number_of_groups = subslice_groups.len();
+        subslice_groups.retain(|group| !group.contains(&bitset![]));
+        let number_of_split_groups = number_of_groups - subslice_groups.len();
+
+        if splitting_threshold <= number_of_split_groups {
+            return vec![bitset![]]; // everything is splitting what is already split
+        }
+        subslice_groups
             .into_iter()
-            .combinations(self.splitting_threshold())
+            .combinations(splitting_threshold - number_of_split_groups)
             .map(|group_combination| {
                 group_combination
                     .into_iter()
@@ -192,14 +215,7 @@ impl QuorumSet {
                     })
                     .collect()
             })
-            .concat();
-        // check to see if we aren't really a 1-quorum quorum set
-        if potential_splitting_sets.len() == 1 && self.is_quorum_slice(&potential_splitting_sets[0])
-        {
-            vec![]
-        } else {
-            potential_splitting_sets
-        }
+            .concat()
     }
     fn splitting_threshold(&self) -> usize {
         self.threshold
-- 
2.43.0


From 421dc09b16d21d8ce8d9978cc474b3d73781ee7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 07/14] fix: alternative quorum intersection check on FBASs
 without quorums

---
 src/analysis/front_end.rs | 4 +++-
 src/analysis/quorums.rs   | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/analysis/front_end.rs b/src/analysis/front_end.rs
index ee7e45e..5cb9a66 100644
--- a/src/analysis/front_end.rs
+++ b/src/analysis/front_end.rs
@@ -68,7 +68,9 @@ impl Analysis {
                 Some(self.make_shrunken_set_vec_result(quorums.to_vec())),
             )
         } else {
-            (true, None)
+            // there is no quorum intersection if there are no quorums
+            let fbas = self.fbas_shrunken.borrow();
+            (contains_quorum(&fbas.all_nodes(), &fbas), None)
         }
     }
     /// Minimal quorums - no proper subset of any of these node sets is a quorum.
diff --git a/src/analysis/quorums.rs b/src/analysis/quorums.rs
index 9921fee..1ea0b94 100644
--- a/src/analysis/quorums.rs
+++ b/src/analysis/quorums.rs
@@ -110,7 +110,10 @@ fn nonintersecting_quorums_finder(
     consensus_clusters: Vec<NodeIdSet>,
     fbas: &Fbas,
 ) -> Vec<NodeIdSet> {
-    if consensus_clusters.len() > 1 {
+    if consensus_clusters.is_empty() {
+        debug!("No consensus clusters - there are no quorums.");
+        vec![]
+    } else if consensus_clusters.len() > 1 {
         debug!("More than one consensus clusters - reducing to maximal quorums.");
         consensus_clusters
             .into_iter()
-- 
2.43.0


From ff9eaa010e69e5020c7369bf651572158a0a756f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 08/14] fix: return original node IDs as the involved nodes of
 a result

---
 src/analysis/results.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/analysis/results.rs b/src/analysis/results.rs
index b677109..93fd16b 100644
--- a/src/analysis/results.rs
+++ b/src/analysis/results.rs
@@ -83,7 +83,12 @@ impl NodeIdSetVecResult {
             .collect()
     }
     pub fn involved_nodes(&self) -> NodeIdSet {
-        involved_nodes(&self.node_sets)
+        let involved_nodes = involved_nodes(&self.node_sets);
+        if let Some(unshrink_table) = &self.unshrink_table {
+            unshrink_set(&involved_nodes, unshrink_table)
+        } else {
+            involved_nodes
+        }
     }
     pub fn len(&self) -> usize {
         self.node_sets.len()
-- 
2.43.0


From dbf9597ab871028ec4b98e938801e12928b71fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 09/14] fix: don't panic on empty grouping names and names
 ending in non-ASCII characters

---
 src/io/groupings.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/groupings.rs b/src/io/groupings.rs
index 59bd877..97020c3 100644
--- a/src/io/groupings.rs
+++ b/src/io/groupings.rs
@@ -167,9 +167,9 @@ impl RawGroupings {
 
 fn remove_special_chars_from_grouping_name(mut name: String) -> String {
     name.retain(|c| c != ',');
-    let mut maybe_fullstop = name.split_off(name.len() - 1);
-    maybe_fullstop.retain(|c| c != '.');
-    name.push_str(&maybe_fullstop);
+    if name.ends_with('.') {
+        name.pop();
+    }
     name
 }
 
-- 
2.43.0


From f73d59b111979aa356b06a2becd380f9070d7373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 10/14] fix: make nodes of a shrunken FBAS discoverable by
 their public keys

---
 src/core_types/shrinking.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core_types/shrinking.rs b/src/core_types/shrinking.rs
index 3f9d28b..ec77275 100644
--- a/src/core_types/shrinking.rs
+++ b/src/core_types/shrinking.rs
@@ -96,6 +96,12 @@ impl Fbas {
                 fbas_shrunken.nodes[new_id] = Node::shrunken(&self.nodes[old_id], &shrink_map);
             }
         }
+        fbas_shrunken.pk_to_id = fbas_shrunken
+            .nodes
+            .iter()
+            .enumerate()
+            .map(|(new_id, node)| (node.public_key.clone(), new_id))
+            .collect();
         (fbas_shrunken, shrink_manager)
     }
 }
-- 
2.43.0


From e1a303807663767010c5f35e628696b8470f1517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 11/14] fix: don't lose nested inner quorum sets when merging
 by group

---
 src/analysis/merge_by_group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis/merge_by_group.rs b/src/analysis/merge_by_group.rs
index 93aeb3f..28f31e0 100644
--- a/src/analysis/merge_by_group.rs
+++ b/src/analysis/merge_by_group.rs
@@ -36,7 +36,7 @@ impl<'fbas> Groupings<'fbas> {
                 .inner_quorum_sets
                 .into_iter()
                 .map(|q| self.merge_quorum_set(q))
-                .partition(|q| q.validators.len() == 1);
+                .partition(|q| q.validators.len() == 1 && q.inner_quorum_sets.is_empty());
 
         validators.extend(
             new_validator_candidates
-- 
2.43.0


From 319b231e1d3c143abe2e0390d0af00582fe1f2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 12/14] fix: number the nodes of tiers after an empty tier
 correctly

---
 src/simulation/graph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/graph.rs b/src/simulation/graph.rs
index 1620b63..5470402 100644
--- a/src/simulation/graph.rs
+++ b/src/simulation/graph.rs
@@ -26,14 +26,15 @@ impl Graph {
     pub fn new_tiered_full_mesh(tier_sizes: &[usize]) -> Self {
         let mut outlinks: Vec<Vec<NodeId>> = vec![vec![]; tier_sizes.iter().sum()];
         let mut higher_tier_node_ids = vec![];
+        let mut i0: usize = 0;
         for tier_size in tier_sizes.iter() {
-            let i0: usize = higher_tier_node_ids.last().map_or(0, |x| x + 1);
             let n = i0.checked_add(*tier_size).unwrap();
             for i in i0..n {
                 outlinks[i].extend_from_slice(&higher_tier_node_ids);
                 outlinks[i].extend((i0..i).chain(i + 1..n));
             }
             higher_tier_node_ids = (i0..n).collect();
+            i0 = n;
         }
         Self::new(outlinks)
     }
-- 
2.43.0


From 146095a1fb075a84b15192ad3dafe0e2c0fc8a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:17 +0000
Subject: [PATCH 13/14] fix: don't panic when growing a scale-free graph from a
 single node

---
 src/simulation/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/graph.rs b/src/simulation/graph.rs
index 5470402..b870582 100644
--- a/src/simulation/graph.rs
+++ b/src/simulation/graph.rs
@@ -69,7 +69,7 @@ impl Graph {
             let mut possible_targets: Vec<NodeId> = (0..i).collect();
             for _ in 0..m {
                 let j = possible_targets
-                    .choose_weighted(&mut rng, |&x| outlinks[x].len())
+                    .choose_weighted(&mut rng, |&x| outlinks[x].len().max(1))
                     .unwrap()
                     .to_owned();
                 connect!(i, j);
-- 
2.43.0


From 4d25077c058da7a93e82148afc113ab8f71ce4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:57 +0000
Subject: [PATCH 14/14] fix: give new nodes a threshold when RandomQsc's
 desired size is one

A node without validators became its own only validator, but with a desired
quorum set size of one its threshold stayed at zero and the change was not
reported.
---
 src/simulation/qsc/random.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simulation/qsc/random.rs b/src/simulation/qsc/random.rs
index ac24100..cbf939a 100644
--- a/src/simulation/qsc/random.rs
+++ b/src/simulation/qsc/random.rs
@@ -27,13 +27,14 @@ impl QuorumSetConfigurator for RandomQsc {
         let existing_quorum_set = &mut fbas.nodes[node_id].quorum_set;
 
         // we add nodes to their own quorum sets, for better comparability with other Qsc
-        if existing_quorum_set.validators.is_empty() {
+        let is_new = existing_quorum_set.validators.is_empty();
+        if is_new {
             existing_quorum_set.validators = vec![node_id];
         }
 
         let current_quorum_set_size = existing_quorum_set.validators.len();
 
-        if current_quorum_set_size < self.desired_quorum_set_size {
+        if is_new || current_quorum_set_size < self.desired_quorum_set_size {
             let target_quorum_set_size = cmp::min(self.desired_quorum_set_size, n);
 
             let threshold = self
-- 
2.43.0

