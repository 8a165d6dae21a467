From 63f889963f4390b8f071d646c7599bca2914ddee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 1/7] fix: a bounding box contains the points between its
 corners

---
 src/bounds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 0bb0faf..36c5b44 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -54,7 +54,7 @@ where
     V: Vector,
 {
     fn contains(&self, point: &V) -> bool {
-        self.min.all_ge(point) && self.max.all_le(point)
+        self.min.all_le(point) && self.max.all_ge(point)
     }
 }
 
-- 
2.43.0


From f8067029f8b727e985f5c06630630ffbd137d681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 2/7] fix: a bounding box does not contain boxes that it merely
 intersects

---
 src/bounds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 36c5b44..8cb220f 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -63,7 +63,7 @@ where
     V: Vector,
 {
     fn contains(&self, bounds: &AABB<V>) -> bool {
-        self.min.all_le(&bounds.max) && self.max.all_ge(&bounds.min)
+        self.min.all_le(&bounds.min) && self.max.all_ge(&bounds.max)
     }
 }
 
-- 
2.43.0


From 08c046b7ad344eda221ae47769f55ab2e42bce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 3/7] fix: leave no inner root with an only child after a
 removal

---
 src/node.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index e3d564c..e60d3a9 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -770,7 +770,9 @@ where
             let level = children.level();
             reinsert_entries[level] = Some(children.leak());
         }) {
-            self.try_unbranch();
+            // With a minimum of one child per node, the only child of the root may
+            // itself have an only child, so unbranch until the root has several.
+            while self.try_unbranch() {}
 
             for (level, entries) in reinsert_entries.iter_mut().enumerate() {
                 if let Some(entries) = entries.take() {
@@ -841,7 +843,9 @@ impl<B, Key, Value> NodeContainer<B, Key, Value> {
         self.level += 1;
     }
 
-    fn try_unbranch(&mut self) {
+    /// Replaces an inner root node that has an only child by that child.
+    /// Returns `true` if the root node was replaced.
+    fn try_unbranch(&mut self) -> bool {
         let new_root = match self.borrow_mut().children_mut() {
             NodeChildrenRefMut::Inner(mut children) => {
                 if children.len() == 1 {
@@ -857,6 +861,9 @@ impl<B, Key, Value> NodeContainer<B, Key, Value> {
         };
         if let Some(new_root) = new_root {
             *self = new_root;
+            true
+        } else {
+            false
         }
     }
 
-- 
2.43.0


From 7910430fa17a758da1ff6d68c691f9527bc25557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 4/7] fix: do not evaluate filters and rankings on the bounds
 of an empty tree

---
 src/iter.rs      | 56 +++++++++++++++++++++++++++---------------------
 src/join.rs      |  5 ++++-
 src/left_join.rs | 14 ++++++++----
 src/node.rs      |  4 ++++
 4 files changed, 50 insertions(+), 29 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 2bdccc8..991e78d 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -131,7 +131,7 @@ where
 {
     pub(crate) fn new(root: NodeRef<'a, B, Key, Value>, filter: F) -> Self {
         Self {
-            iter: if filter.test_bounds(&root.node().bounds) {
+            iter: if !root.is_empty() && filter.test_bounds(&root.node().bounds) {
                 Iter::new(root)
             } else {
                 Iter::new_empty()
@@ -278,7 +278,7 @@ where
 {
     pub(crate) fn new(root: NodeRefMut<'a, B, Key, Value>, filter: F) -> Self {
         Self {
-            iter: if filter.test_bounds(&root.node().bounds) {
+            iter: if !root.is_empty() && filter.test_bounds(&root.node().bounds) {
                 IterMut::new(root)
             } else {
                 IterMut::new_empty()
@@ -361,10 +361,12 @@ where
 {
     pub(crate) fn new(root: NodeRef<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        entries.push(Ranked {
-            score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
-            value: SortedIterItem { node: root.node() },
-        });
+        if !root.is_empty() {
+            entries.push(Ranked {
+                score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
+                value: SortedIterItem { node: root.node() },
+            });
+        }
         SortedIter {
             ranking,
             entries,
@@ -433,12 +435,14 @@ where
 {
     pub(crate) fn new(root: NodeRefMut<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        entries.push(Ranked {
-            score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
-            value: SortedIterItemMut {
-                node: root.into_node(),
-            },
-        });
+        if !root.is_empty() {
+            entries.push(Ranked {
+                score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
+                value: SortedIterItemMut {
+                    node: root.into_node(),
+                },
+            });
+        }
         SortedIterMut {
             ranking,
             entries,
@@ -504,11 +508,13 @@ where
 {
     pub(crate) fn new(root: NodeRef<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        if let Some(score) = ranking.bounds_min(&root.node().bounds) {
-            entries.push(Ranked {
-                score: Reverse((score, root.level() + 1)),
-                value: SortedIterItem { node: root.node() },
-            });
+        if !root.is_empty() {
+            if let Some(score) = ranking.bounds_min(&root.node().bounds) {
+                entries.push(Ranked {
+                    score: Reverse((score, root.level() + 1)),
+                    value: SortedIterItem { node: root.node() },
+                });
+            }
         }
         Self {
             ranking,
@@ -580,13 +586,15 @@ where
 {
     pub(crate) fn new(root: NodeRefMut<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        if let Some(score) = ranking.bounds_min(&root.node().bounds) {
-            entries.push(Ranked {
-                score: Reverse((score, root.level() + 1)),
-                value: SortedIterItemMut {
-                    node: root.into_node(),
-                },
-            });
+        if !root.is_empty() {
+            if let Some(score) = ranking.bounds_min(&root.node().bounds) {
+                entries.push(Ranked {
+                    score: Reverse((score, root.level() + 1)),
+                    value: SortedIterItemMut {
+                        node: root.into_node(),
+                    },
+                });
+            }
         }
         Self {
             ranking,
diff --git a/src/join.rs b/src/join.rs
index 7c2c756..08e1073 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -127,7 +127,10 @@ where
         root1: NodeRef<'b, B1, Key1, Value1>,
         filter: Filter,
     ) -> Self {
-        if !filter.test_bounds(&root0.node().bounds, &root1.node().bounds) {
+        if root0.is_empty()
+            || root1.is_empty()
+            || !filter.test_bounds(&root0.node().bounds, &root1.node().bounds)
+        {
             return Self {
                 stack: IterStack::empty_box(),
                 padding0: 0,
diff --git a/src/left_join.rs b/src/left_join.rs
index 6e76c3e..64290a5 100644
--- a/src/left_join.rs
+++ b/src/left_join.rs
@@ -114,15 +114,21 @@ where
             empty_slice().iter(),
             (0..root_left.level() + 1).map(|_| empty_slice().iter()),
         );
-        left[NonZeroUsize::new(root_left.level() + 1).unwrap()] =
-            slice::from_ref(root_left.node()).iter();
+        // The bounds of an empty root are not the bounds of any key, so they are
+        // never tested against the filter.
+        if !root_left.is_empty() {
+            left[NonZeroUsize::new(root_left.level() + 1).unwrap()] =
+                slice::from_ref(root_left.node()).iter();
+        }
 
         let mut right = IterStack::new_box(
             RewindableIter::new(empty_slice()),
             (0..root_right.level() + 1).map(|_| RewindableIter::new(empty_slice())),
         );
-        right[NonZeroUsize::new(root_right.level() + 1).unwrap()] =
-            RewindableIter::new(slice::from_ref(root_right.node()));
+        if !root_right.is_empty() {
+            right[NonZeroUsize::new(root_right.level() + 1).unwrap()] =
+                RewindableIter::new(slice::from_ref(root_right.node()));
+        }
 
         let right_alloc = unsafe {
             let alloc_helper = IterStackAllocHelper::new(root_right.level() + 2);
diff --git a/src/node.rs b/src/node.rs
index e60d3a9..6e4f66f 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -633,6 +633,10 @@ impl<'a, B, Key, Value> NodeRefMut<'a, B, Key, Value> {
         }
     }
 
+    pub(crate) fn is_empty(&self) -> bool {
+        self.shallow_len() == 0
+    }
+
     fn shallow_len(&self) -> usize {
         if self.level > 0 {
             // SAFETY: The node is an inner node, so the children are
-- 
2.43.0


From fa9fb79bd6f2fc887613509735061661b57dec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 5/7] fix: intersect a ray with the boxes it passes through and
 no box behind it

---
 src/intersects.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/intersects.rs b/src/intersects.rs
index afbebd3..2cb7749 100644
--- a/src/intersects.rs
+++ b/src/intersects.rs
@@ -38,14 +38,10 @@ pub(crate) fn ray_bounds_intersect<N, const D: usize>(
 where
     N: Clone + Sub<Output = N> + Into<f64>,
 {
-    let n_inv = 1.0 / (delta[0].clone()).into();
-    let t1 = (b.min[0].clone() - origin[0].clone()).into() * n_inv;
-    let t2 = (b.max[0].clone() - origin[0].clone()).into() * n_inv;
-
-    let mut tmin = f64_min(t1, t2);
-    let mut tmax = f64_max(t1, t2);
+    let mut tmin: f64 = 0.0;
+    let mut tmax: f64 = f64::INFINITY;
 
-    for dim in 1..D {
+    for dim in 0..D {
         let n_inv = 1.0 / (delta[dim].clone()).into();
         let t1 = (b.min[dim].clone() - origin[dim].clone()).into() * n_inv;
         let t2 = (b.max[dim].clone() - origin[dim].clone()).into() * n_inv;
@@ -54,7 +50,7 @@ where
         tmax = f64_max(f64_min(t1, tmax), f64_min(t2, tmax));
     }
 
-    tmin < tmax
+    tmin <= tmax
 }
 
 pub(crate) fn line_bounds_intersect<N, const D: usize>(
-- 
2.43.0


From 3e508d843c7b843a480bda1a048feea1aeff7b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 6/7] fix: remove the first of several equal keys, the one that
 lookups return

---
 src/node.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 6e4f66f..94a79ed 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -524,9 +524,7 @@ where
         let min_children = self.alloc.min_children;
         match self.children_mut() {
             NodeChildrenRefMut::Inner(mut children) => {
-                let mut i = children.len();
-                while i > 0 {
-                    i -= 1;
+                for i in 0..children.len() {
                     let mut child = children.at_mut(i);
                     if child.bounds().intersects(&key.bounds()) {
                         let value = child.remove(key, on_underfull);
-- 
2.43.0


From aaea1c486775dd6a6edc2d354683b1fcde99f681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:53 +0000
Subject: [PATCH 7/7] fix: a ray without direction meets only boxes at its
 origin

With delta zero and the origin before a box, the slab's entry distance is
+inf, and inf <= tmax held for tmax = inf.
---
 src/intersects.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/intersects.rs b/src/intersects.rs
index 2cb7749..c5e0a5b 100644
--- a/src/intersects.rs
+++ b/src/intersects.rs
@@ -39,7 +39,8 @@ where
     N: Clone + Sub<Output = N> + Into<f64>,
 {
     let mut tmin: f64 = 0.0;
-    let mut tmax: f64 = f64::INFINITY;
+    // Finite, so that a direction of zero does not reach what lies infinitely far along it.
+    let mut tmax: f64 = f64::MAX;
 
     for dim in 0..D {
         let n_inv = 1.0 / (delta[dim].clone()).into();
-- 
2.43.0

