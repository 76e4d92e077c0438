From d2553f300bb120b44433bebf345883c283ae5dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:53 +0000
Subject: [PATCH 1/2] fix: bulk loading places all objects at the same depth

Clusters were loaded recursively with a height depending on their own size, so
e.g. 25 elements gave leaves at depths 2 and 3. Insertion relies on a uniform
depth: forced reinsertion then placed objects next to inner nodes and later
insertions panicked with 'This is a bug in rstar'. The height of the tree is
now fixed before partitioning.
---
 .../bulk_load/bulk_load_sequential.rs         | 24 +++---
 .../bulk_load/cluster_group_iterator.rs       | 75 +++++++++++++++----
 2 files changed, 73 insertions(+), 26 deletions(-)

diff --git a/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs b/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs
index 3ea6789..15ec995 100644
--- a/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs
+++ b/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs
@@ -7,19 +7,19 @@ use crate::point::Point;
 #[cfg(not(test))]
 use alloc::{vec, vec::Vec};
 
-#[allow(unused_imports)] // Import is required when building without std
-use num_traits::Float;
+use super::cluster_group_iterator::{
+    calculate_height, calculate_number_of_clusters_on_axis, ClusterGroupIterator,
+};
 
-use super::cluster_group_iterator::{calculate_number_of_clusters_on_axis, ClusterGroupIterator};
-
-fn bulk_load_recursive<T, Params>(mut elements: Vec<T>) -> ParentNode<T>
+/// Builds a subtree with exactly `height` levels of parent nodes. All leaves of a tree must be on
+/// the same level, hence the height is fixed in advance and doesn't depend on the cluster size.
+fn bulk_load_recursive<T, Params>(mut elements: Vec<T>, height: usize) -> ParentNode<T>
 where
     T: RTreeObject,
     <T::Envelope as Envelope>::Point: Point,
     Params: RTreeParams,
 {
-    let m = Params::MAX_SIZE;
-    if elements.len() <= m {
+    if height <= 1 {
         // Reached leaf level. Shrink excess capacity so the in-place collect
         // (which reuses the allocation when size_of::<T> == size_of::<RTreeNode<T>>)
         // doesn't preserve a massively over-sized buffer in the final tree node.
@@ -28,7 +28,7 @@ where
         return ParentNode::new_parent(elements);
     }
     let number_of_clusters_on_axis =
-        calculate_number_of_clusters_on_axis::<T, Params>(elements.len()).max(2);
+        calculate_number_of_clusters_on_axis::<T, Params>(elements.len(), height);
 
     let iterator = PartitioningTask::<_, Params> {
         number_of_clusters_on_axis,
@@ -36,6 +36,7 @@ where
             current_axis: <T::Envelope as Envelope>::Point::DIMENSIONS,
             elements,
         }],
+        height,
         _params: Default::default(),
     };
     ParentNode::new_parent(iterator.collect())
@@ -54,6 +55,8 @@ struct PartitioningState<T: RTreeObject> {
 struct PartitioningTask<T: RTreeObject, Params: RTreeParams> {
     work_queue: Vec<PartitioningState<T>>,
     number_of_clusters_on_axis: usize,
+    /// The height of the node whose elements are being partitioned
+    height: usize,
     _params: core::marker::PhantomData<Params>,
 }
 
@@ -68,7 +71,7 @@ impl<T: RTreeObject, Params: RTreeParams> Iterator for PartitioningTask<T, Param
             } = next;
             if current_axis == 0 {
                 // Partitioning finished successfully on all axis. The remaining cluster forms a new node
-                let data = bulk_load_recursive::<_, Params>(elements);
+                let data = bulk_load_recursive::<_, Params>(elements, self.height - 1);
                 return RTreeNode::Parent(data).into();
             } else {
                 // The cluster group needs to be partitioned further along the next axis
@@ -97,7 +100,8 @@ where
     <T::Envelope as Envelope>::Point: Point,
     Params: RTreeParams,
 {
-    bulk_load_recursive::<_, Params>(elements)
+    let height = calculate_height::<T, Params>(elements.len());
+    bulk_load_recursive::<_, Params>(elements, height)
 }
 
 #[cfg(test)]
diff --git a/rstar/src/algorithm/bulk_load/cluster_group_iterator.rs b/rstar/src/algorithm/bulk_load/cluster_group_iterator.rs
index 07125c7..6514d07 100644
--- a/rstar/src/algorithm/bulk_load/cluster_group_iterator.rs
+++ b/rstar/src/algorithm/bulk_load/cluster_group_iterator.rs
@@ -3,9 +3,6 @@ use crate::{Envelope, Point, RTreeObject, RTreeParams};
 #[cfg(not(test))]
 use alloc::vec::Vec;
 
-#[allow(unused_imports)] // Import is required when building without std
-use num_traits::Float;
-
 /// Partitions elements into groups of clusters along a specific axis.
 pub struct ClusterGroupIterator<T: RTreeObject> {
     remaining: Vec<T>,
@@ -57,25 +54,71 @@ impl<T: RTreeObject> Iterator for ClusterGroupIterator<T> {
     }
 }
 
-/// Calculates the desired number of clusters on any axis
+/// Returns how many clusters a number of clusters on each axis amounts to.
+fn total_number_of_clusters<T>(number_of_clusters_on_axis: usize) -> usize
+where
+    T: RTreeObject,
+{
+    let dimension = <T::Envelope as Envelope>::Point::DIMENSIONS as u32;
+    number_of_clusters_on_axis.saturating_pow(dimension)
+}
+
+/// Returns the number of elements that fit into a subtree of the given height.
 ///
-/// A 'cluster' refers to a set of elements that will finally form an rtree node.
-pub fn calculate_number_of_clusters_on_axis<T, Params>(number_of_elements: usize) -> usize
+/// A node of height 1 holds up to `MAX_SIZE` elements. Any other node is divided into the same
+/// number of clusters on each axis, as many as possible without exceeding `MAX_SIZE` children
+/// (but at least two per axis).
+fn subtree_capacity<T, Params>(height: usize) -> usize
+where
+    T: RTreeObject,
+    Params: RTreeParams,
+{
+    if height <= 1 {
+        return Params::MAX_SIZE;
+    }
+    let mut clusters_on_axis = 2;
+    while total_number_of_clusters::<T>(clusters_on_axis + 1) <= Params::MAX_SIZE {
+        clusters_on_axis += 1;
+    }
+    let max_children = total_number_of_clusters::<T>(clusters_on_axis);
+    (1..height).fold(Params::MAX_SIZE, |capacity, _| {
+        capacity.saturating_mul(max_children)
+    })
+}
+
+/// Calculates the height of a tree large enough to hold the given number of elements.
+pub fn calculate_height<T, Params>(number_of_elements: usize) -> usize
 where
     T: RTreeObject,
     Params: RTreeParams,
 {
-    let max_size = Params::MAX_SIZE as f32;
-    // The depth of the resulting tree, assuming all leaf nodes will be filled up to MAX_SIZE
-    let depth = (number_of_elements as f32).log(max_size).ceil() as i32;
-    // The number of elements each subtree will hold
-    let n_subtree = max_size.powi(depth - 1);
-    // How many clusters will this node contain
-    let number_of_clusters = (number_of_elements as f32 / n_subtree).ceil();
+    let mut height = 1;
+    while subtree_capacity::<T, Params>(height) < number_of_elements {
+        height += 1;
+    }
+    height
+}
 
-    let max_dimension = <T::Envelope as Envelope>::Point::DIMENSIONS as f32;
-    // Try to split all clusters among all dimensions as evenly as possible by taking the nth root.
-    number_of_clusters.powf(1. / max_dimension).floor() as usize
+/// Calculates the desired number of clusters on any axis for a node of the given height (at least 2)
+///
+/// A 'cluster' refers to a set of elements that will finally form an rtree node. The returned
+/// number is chosen such that any cluster will fit into a subtree of height `height - 1`.
+pub fn calculate_number_of_clusters_on_axis<T, Params>(
+    number_of_elements: usize,
+    height: usize,
+) -> usize
+where
+    T: RTreeObject,
+    Params: RTreeParams,
+{
+    let cluster_capacity = subtree_capacity::<T, Params>(height - 1);
+    let mut clusters_on_axis = 2;
+    while number_of_elements.div_ceil(total_number_of_clusters::<T>(clusters_on_axis))
+        > cluster_capacity
+    {
+        clusters_on_axis += 1;
+    }
+    clusters_on_axis
 }
 
 #[cfg(test)]
-- 
2.43.0


From 5aff61a6a05779e65d4bac01ede1e89e2978aa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:02 +0000
Subject: [PATCH 2/2] fix: draining an empty tree does not compute with its
 empty envelope

---
 rstar/src/algorithm/removal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rstar/src/algorithm/removal.rs b/rstar/src/algorithm/removal.rs
index bcbd058..6414123 100644
--- a/rstar/src/algorithm/removal.rs
+++ b/rstar/src/algorithm/removal.rs
@@ -174,7 +174,11 @@ where
             let (node, idx, remove_count) = self.node_stack.last_mut()?;
 
             // Try to find a selected item to return.
-            if *idx > 0 || self.removal_function.should_unpack_parent(&node.envelope) {
+            // (The envelope of a node without children must not be passed to the removal
+            // function, computing with it could overflow.)
+            if !node.children.is_empty()
+                && (*idx > 0 || self.removal_function.should_unpack_parent(&node.envelope))
+            {
                 while *idx < node.children.len() {
                     match &mut node.children[*idx] {
                         RTreeNode::Parent(_) => {
-- 
2.43.0

