From eff385bd2cae17c9ce1910c689085fce9afe7556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 01/10] fix: compute volumes and box distances without
 overflowing the scalar type

The side lengths of a box, and the gaps between two boxes, were computed in
the scalar type before being converted to f64. They need not be
representable in it: inserting two i32 keys more than i32::MAX apart
overflowed (a panic in debug builds, a wrong volume in release builds), as
did sq_dist_to for any two overlapping boxes of unsigned coordinates.
Convert to f64 first.
---
 src/bounds.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 0bb0faf..0023549 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -140,7 +140,8 @@ where
 
         self.min
             .zip(&self.max)
-            .map(|(min, max)| n64((max.clone() - min.clone()).into()))
+            // Convert before subtracting: the difference may not be representable in N
+            .map(|(min, max)| n64(max.clone().into()) - n64(min.clone().into()))
             .reduce(|acc, length| acc * length)
             .unwrap()
     }
@@ -158,10 +159,11 @@ where
             other.max.0.iter()
         )
         .map(|(lhs_min, lhs_max, rhs_min, rhs_max)| {
+            // Convert before subtracting: the differences may not be representable in N
             // If lhs < rhs, lhs_then_rhs is a positive number representing the distance between the two
-            let lhs_then_rhs = n64((rhs_min.clone() - lhs_max.clone()).into());
+            let lhs_then_rhs = n64(rhs_min.clone().into()) - n64(lhs_max.clone().into());
             // If lhs > rhs, rhs_then_lhs is a positive number representing the distance between the two
-            let rhs_then_lhs = n64((lhs_min.clone() - rhs_max.clone()).into());
+            let rhs_then_lhs = n64(lhs_min.clone().into()) - n64(rhs_max.clone().into());
 
             // The distance between the two bounds is the maximum of the two distances, or 0 if they overlap
             let dist = cmp::max(cmp::max(lhs_then_rhs, rhs_then_lhs), n64(0.0));
-- 
2.43.0


From 091057cc4e29995a3e6d7a5825d1aca15ab8293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 02/10] fix: remove the same entry that get finds

remove visited the children of inner nodes in reverse, so that among entries
with equal keys it removed another one than the first, contrary to its
documentation and to get, get_mut and insert_unique. It also looked only in
nodes whose bounds intersect the bounds of the key, where lookups require
that they contain them, so that a key with empty bounds (which intersect
nothing) could be found but not removed.
---
 src/node.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index e3d564c..d648879 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -524,11 +524,9 @@ where
         let min_children = self.alloc.min_children;
         match self.children_mut() {
             NodeChildrenRefMut::Inner(mut children) => {
-                let mut i = children.len();
-                while i > 0 {
-                    i -= 1;
+                for i in 0..children.len() {
                     let mut child = children.at_mut(i);
-                    if child.bounds().intersects(&key.bounds()) {
+                    if child.bounds().contains(&key.bounds()) {
                         let value = child.remove(key, on_underfull);
                         if let Some(value) = value {
                             if child.shallow_len() < min_children {
-- 
2.43.0


From a8f9a164455812af4c96a55b1507e9f3070f7c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 03/10] fix: keep no childless nodes and no inner roots with a
 single child

With min_children 0 a leaf emptied by removals stayed in the tree, so that
is_empty() kept returning false and its empty bounds reached the volume
computations; with min_children <= 1 (or more than half of max_children) the
root could be left with a single child, then with none, after which the next
insertion panicked.
---
 src/node.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index d648879..37a48bb 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -521,7 +521,8 @@ where
         Key: Eq + Borrow<Q>,
         Q: Bounded<B> + Eq + ?Sized,
     {
-        let min_children = self.alloc.min_children;
+        // A node without children must never remain, whatever is configured.
+        let min_children = self.alloc.min_children.max(1);
         match self.children_mut() {
             NodeChildrenRefMut::Inner(mut children) => {
                 for i in 0..children.len() {
@@ -793,6 +794,10 @@ where
                 }
             }
 
+            // If nodes may have a single child, so may the new root. It must
+            // keep its level until all entries have been reinserted.
+            while self.try_unbranch() {}
+
             Some(value)
         } else {
             None
@@ -839,7 +844,9 @@ impl<B, Key, Value> NodeContainer<B, Key, Value> {
         self.level += 1;
     }
 
-    fn try_unbranch(&mut self) {
+    /// Replaces an inner root node that has a single child by that child.
+    /// Returns `true` if it did.
+    fn try_unbranch(&mut self) -> bool {
         let new_root = match self.borrow_mut().children_mut() {
             NodeChildrenRefMut::Inner(mut children) => {
                 if children.len() == 1 {
@@ -855,6 +862,9 @@ impl<B, Key, Value> NodeContainer<B, Key, Value> {
         };
         if let Some(new_root) = new_root {
             *self = new_root;
+            true
+        } else {
+            false
         }
     }
 
-- 
2.43.0


From 6c84310813297bfc3b6e090c5c89b77f0f92c192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 04/10] fix: support zero-sized entries

With zero-sized keys and values (or max_children 0) leaves asked the
allocator for zero bytes, which is undefined behaviour. IntoIter compared
pointers to find its end, so that of a leaf of zero-sized entries it yielded
none: entries of underfull leaves were lost (and not dropped) instead of
being reinserted; its size_hint divided by zero.
---
 src/fc_vec.rs | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/fc_vec.rs b/src/fc_vec.rs
index e02d8c8..aaf3a6c 100644
--- a/src/fc_vec.rs
+++ b/src/fc_vec.rs
@@ -128,9 +128,14 @@ impl Alloc {
     /// Alloc in a safe [FCVecContainer<T>].
     pub(crate) fn new_vec<T>(&self) -> FCVecContainer<T> {
         let layout = alloc::Layout::array::<T>(self.cap).unwrap();
-        let buf = match NonNull::new(unsafe { alloc::alloc(layout) } as *mut T) {
-            Some(ptr) => ptr,
-            None => alloc::handle_alloc_error(layout),
+        let buf = if layout.size() == 0 {
+            // Zero-sized allocations are not allowed
+            NonNull::dangling()
+        } else {
+            match NonNull::new(unsafe { alloc::alloc(layout) } as *mut T) {
+                Some(ptr) => ptr,
+                None => alloc::handle_alloc_error(layout),
+            }
         };
         FCVecContainer {
             data: FCVec { buf, len: 0 },
@@ -334,7 +339,9 @@ impl<'a, T> FCVecRefMut<'a, T> {
         while self.pop().is_some() {}
 
         let layout = alloc::Layout::array::<T>(self.ops.cap).unwrap();
-        alloc::dealloc(self.data.buf.as_ptr() as *mut u8, layout);
+        if layout.size() != 0 {
+            alloc::dealloc(self.data.buf.as_ptr() as *mut u8, layout);
+        }
     }
 }
 
@@ -441,13 +448,11 @@ impl<T> IntoIterator for FCVecContainer<T> {
         let ops = unsafe { ptr::read(&self.ops) };
         mem::forget(self);
 
-        let start = data.buf.as_ptr();
-        let end = unsafe { start.add(data.len) };
         IntoIter {
             buf: data.buf,
             cap: ops.cap,
-            start,
-            end,
+            start: 0,
+            end: data.len,
         }
     }
 }
@@ -500,8 +505,9 @@ impl<T> FCVecContainer<T> {
 pub(crate) struct IntoIter<T> {
     buf: NonNull<T>,
     cap: usize,
-    start: *const T,
-    end: *const T,
+    // The range of indices of the items that remain
+    start: usize,
+    end: usize,
 }
 
 impl<T> Iterator for IntoIter<T> {
@@ -512,15 +518,15 @@ impl<T> Iterator for IntoIter<T> {
             None
         } else {
             unsafe {
-                let result = ptr::read(self.start);
-                self.start = self.start.add(1);
+                let result = ptr::read(self.buf.as_ptr().add(self.start));
+                self.start += 1;
                 Some(result)
             }
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let len = (self.end as usize - self.start as usize) / std::mem::size_of::<T>();
+        let len = self.end - self.start;
         (len, Some(len))
     }
 }
@@ -531,8 +537,8 @@ impl<T> DoubleEndedIterator for IntoIter<T> {
             None
         } else {
             unsafe {
-                self.end = self.end.sub(1);
-                let result = ptr::read(self.end);
+                self.end -= 1;
+                let result = ptr::read(self.buf.as_ptr().add(self.end));
                 Some(result)
             }
         }
@@ -543,8 +549,10 @@ impl<T> Drop for IntoIter<T> {
     fn drop(&mut self) {
         for _ in &mut *self {}
         let layout = alloc::Layout::array::<T>(self.cap).unwrap();
-        unsafe {
-            alloc::dealloc(self.buf.as_ptr() as *mut u8, layout);
+        if layout.size() != 0 {
+            unsafe {
+                alloc::dealloc(self.buf.as_ptr() as *mut u8, layout);
+            }
         }
     }
 }
-- 
2.43.0


From c5e46b78c1a33f471b8ae0af84cdc443baa235e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 05/10] fix: do not evaluate the empty bounds of an empty tree
 in queries

Filtered and ranked iteration and joins presented the root of an empty tree
to the filter or ranking. Its inverted bounds overflow distance and
intersection computations in integer coordinates: with the provided
EuclideanDistanceRanking, nearest neighbour search on an empty tree over i32
panicked in debug builds, as did line and ray queries.
---
 src/iter.rs      | 48 ++++++++++++++++++++++++++++++++++--------------
 src/join.rs      |  6 +++++-
 src/left_join.rs | 13 +++++++++----
 src/node.rs      |  4 ++++
 4 files changed, 52 insertions(+), 19 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 2bdccc8..cdfbdbc 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -131,7 +131,8 @@ where
 {
     pub(crate) fn new(root: NodeRef<'a, B, Key, Value>, filter: F) -> Self {
         Self {
-            iter: if filter.test_bounds(&root.node().bounds) {
+            // The bounds of an empty root are empty, and not to be tested.
+            iter: if !root.is_empty() && filter.test_bounds(&root.node().bounds) {
                 Iter::new(root)
             } else {
                 Iter::new_empty()
@@ -278,7 +279,8 @@ where
 {
     pub(crate) fn new(root: NodeRefMut<'a, B, Key, Value>, filter: F) -> Self {
         Self {
-            iter: if filter.test_bounds(&root.node().bounds) {
+            // The bounds of an empty root are empty, and not to be tested.
+            iter: if !root.is_empty() && filter.test_bounds(&root.node().bounds) {
                 IterMut::new(root)
             } else {
                 IterMut::new_empty()
@@ -361,10 +363,13 @@ where
 {
     pub(crate) fn new(root: NodeRef<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        entries.push(Ranked {
-            score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
-            value: SortedIterItem { node: root.node() },
-        });
+        // The bounds of an empty root are empty, and not to be ranked.
+        if !root.is_empty() {
+            entries.push(Ranked {
+                score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
+                value: SortedIterItem { node: root.node() },
+            });
+        }
         SortedIter {
             ranking,
             entries,
@@ -433,12 +438,15 @@ where
 {
     pub(crate) fn new(root: NodeRefMut<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        entries.push(Ranked {
-            score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
-            value: SortedIterItemMut {
-                node: root.into_node(),
-            },
-        });
+        // The bounds of an empty root are empty, and not to be ranked.
+        if !root.is_empty() {
+            entries.push(Ranked {
+                score: Reverse((ranking.bounds_min(&root.node().bounds), root.level() + 1)),
+                value: SortedIterItemMut {
+                    node: root.into_node(),
+                },
+            });
+        }
         SortedIterMut {
             ranking,
             entries,
@@ -504,7 +512,13 @@ where
 {
     pub(crate) fn new(root: NodeRef<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        if let Some(score) = ranking.bounds_min(&root.node().bounds) {
+        // The bounds of an empty root are empty, and not to be ranked.
+        let score = if root.is_empty() {
+            None
+        } else {
+            ranking.bounds_min(&root.node().bounds)
+        };
+        if let Some(score) = score {
             entries.push(Ranked {
                 score: Reverse((score, root.level() + 1)),
                 value: SortedIterItem { node: root.node() },
@@ -580,7 +594,13 @@ where
 {
     pub(crate) fn new(root: NodeRefMut<'a, B, Key, Value>, ranking: R) -> Self {
         let mut entries = BinaryHeap::new();
-        if let Some(score) = ranking.bounds_min(&root.node().bounds) {
+        // The bounds of an empty root are empty, and not to be ranked.
+        let score = if root.is_empty() {
+            None
+        } else {
+            ranking.bounds_min(&root.node().bounds)
+        };
+        if let Some(score) = score {
             entries.push(Ranked {
                 score: Reverse((score, root.level() + 1)),
                 value: SortedIterItemMut {
diff --git a/src/join.rs b/src/join.rs
index 7c2c756..e99e8e4 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -127,7 +127,11 @@ where
         root1: NodeRef<'b, B1, Key1, Value1>,
         filter: Filter,
     ) -> Self {
-        if !filter.test_bounds(&root0.node().bounds, &root1.node().bounds) {
+        // The bounds of an empty root are empty, and not to be tested.
+        if root0.is_empty()
+            || root1.is_empty()
+            || !filter.test_bounds(&root0.node().bounds, &root1.node().bounds)
+        {
             return Self {
                 stack: IterStack::empty_box(),
                 padding0: 0,
diff --git a/src/left_join.rs b/src/left_join.rs
index 6e76c3e..2d0ea17 100644
--- a/src/left_join.rs
+++ b/src/left_join.rs
@@ -114,15 +114,20 @@ where
             empty_slice().iter(),
             (0..root_left.level() + 1).map(|_| empty_slice().iter()),
         );
-        left[NonZeroUsize::new(root_left.level() + 1).unwrap()] =
-            slice::from_ref(root_left.node()).iter();
+        // The bounds of an empty root are empty, and not to be tested.
+        if !root_left.is_empty() {
+            left[NonZeroUsize::new(root_left.level() + 1).unwrap()] =
+                slice::from_ref(root_left.node()).iter();
+        }
 
         let mut right = IterStack::new_box(
             RewindableIter::new(empty_slice()),
             (0..root_right.level() + 1).map(|_| RewindableIter::new(empty_slice())),
         );
-        right[NonZeroUsize::new(root_right.level() + 1).unwrap()] =
-            RewindableIter::new(slice::from_ref(root_right.node()));
+        if !root_right.is_empty() {
+            right[NonZeroUsize::new(root_right.level() + 1).unwrap()] =
+                RewindableIter::new(slice::from_ref(root_right.node()));
+        }
 
         let right_alloc = unsafe {
             let alloc_helper = IterStackAllocHelper::new(root_right.level() + 2);
diff --git a/src/node.rs b/src/node.rs
index 37a48bb..56e690d 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -632,6 +632,10 @@ impl<'a, B, Key, Value> NodeRefMut<'a, B, Key, Value> {
         }
     }
 
+    pub(crate) fn is_empty(&self) -> bool {
+        self.shallow_len() == 0
+    }
+
     fn shallow_len(&self) -> usize {
         if self.level > 0 {
             // SAFETY: The node is an inner node, so the children are
-- 
2.43.0


From 763fa9d1ff6ac3491004f34b2caab8a0640ebc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 06/10] fix: do not drop the root bounds twice when
 max_children is 1

Splitting the root requires room for two children. With max_children 1,
branch panicked on the second push, after the root had been moved into the
vector that is dropped by the unwinding, so that the bounds of the root were
dropped twice. Panic before anything is moved.
---
 src/fc_vec.rs | 5 +++++
 src/node.rs   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/fc_vec.rs b/src/fc_vec.rs
index aaf3a6c..2f3e6fe 100644
--- a/src/fc_vec.rs
+++ b/src/fc_vec.rs
@@ -124,6 +124,11 @@ impl Alloc {
         Alloc { cap }
     }
 
+    /// Returns the capacity of the vectors allocated by this Alloc.
+    pub(crate) fn cap(&self) -> usize {
+        self.cap
+    }
+
     /// Allocates an empty [FCVec<T>] with the capacity specified by this
     /// Alloc in a safe [FCVecContainer<T>].
     pub(crate) fn new_vec<T>(&self) -> FCVecContainer<T> {
diff --git a/src/node.rs b/src/node.rs
index 56e690d..60530ef 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -821,6 +821,11 @@ impl<B, Key, Value> NodeContainer<B, Key, Value> {
             )
         }
 
+        if self.alloc.children.cap() < 2 {
+            // Must not panic while the root node is moved below
+            panic!("cannot branch with max_children less than 2")
+        }
+
         let bounds = B::union(&self.node.bounds, &sibling.node.bounds);
         let mut next_root_children = self.alloc.children.new_vec();
         // The below operation redefines the root node to be an inner node that
-- 
2.43.0


From 8a4aa534073c884cb6e0e5024e13dc4359ed41fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 07/10] fix: a box contains the points within its corners

The comparison was reversed, so that a box contained no point other than its
only one, and points intersected no boxes.
---
 src/bounds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index 0023549..ddae34f 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -54,7 +54,7 @@ where
     V: Vector,
 {
     fn contains(&self, point: &V) -> bool {
-        self.min.all_ge(point) && self.max.all_le(point)
+        self.min.all_le(point) && self.max.all_ge(point)
     }
 }
 
-- 
2.43.0


From 281e06327cf12ccc06b9d8a63de79402a678e14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 08/10] fix: a box contains another only when it covers it

Containment of boxes was implemented as intersection, so that contains
filters yielded boxes that merely intersect the given space, and lookups
searched nodes that cannot hold the key.
---
 src/bounds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounds.rs b/src/bounds.rs
index ddae34f..9d5ce1f 100644
--- a/src/bounds.rs
+++ b/src/bounds.rs
@@ -63,7 +63,7 @@ where
     V: Vector,
 {
     fn contains(&self, bounds: &AABB<V>) -> bool {
-        self.min.all_le(&bounds.max) && self.max.all_ge(&bounds.min)
+        self.min.all_le(&bounds.min) && self.max.all_ge(&bounds.max)
     }
 }
 
-- 
2.43.0


From 8a514e0ad4fd6d491b320cc74d21516f4ffccaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 09/10] fix: rays start at their origin and hit boxes of no
 thickness

The ray test treated the ray as an infinite line, reporting boxes behind its
origin, and required a non-empty open interval, missing points and boxes
that are flat in a dimension. A ray lying exactly in a side of a box was
missed, too, if that is in the first dimension, where the resulting NaN was
kept.
---
 src/intersects.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/intersects.rs b/src/intersects.rs
index afbebd3..f12b968 100644
--- a/src/intersects.rs
+++ b/src/intersects.rs
@@ -38,14 +38,12 @@ pub(crate) fn ray_bounds_intersect<N, const D: usize>(
 where
     N: Clone + Sub<Output = N> + Into<f64>,
 {
-    let n_inv = 1.0 / (delta[0].clone()).into();
-    let t1 = (b.min[0].clone() - origin[0].clone()).into() * n_inv;
-    let t2 = (b.max[0].clone() - origin[0].clone()).into() * n_inv;
-
-    let mut tmin = f64_min(t1, t2);
-    let mut tmax = f64_max(t1, t2);
+    let mut tmin: f64 = 0.0;
+    // Finite, so that it is less than the infinite distance to a box beside a
+    // ray that is parallel to its side
+    let mut tmax: f64 = f64::MAX;
 
-    for dim in 1..D {
+    for dim in 0..D {
         let n_inv = 1.0 / (delta[dim].clone()).into();
         let t1 = (b.min[dim].clone() - origin[dim].clone()).into() * n_inv;
         let t2 = (b.max[dim].clone() - origin[dim].clone()).into() * n_inv;
@@ -54,7 +52,7 @@ where
         tmax = f64_max(f64_min(t1, tmax), f64_min(t2, tmax));
     }
 
-    tmin < tmax
+    tmin <= tmax
 }
 
 pub(crate) fn line_bounds_intersect<N, const D: usize>(
-- 
2.43.0


From 82583a40a3e2b79e6617c1188fe6a71e2baadc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:12 +0000
Subject: [PATCH 10/10] fix: do not invalidate boxes in the bounds of nodes
 that are moved out

NodeContainer::leak and NodeContainer::children read the node before moving
self into mem::forget. If the bounds own a Box, that move invalidates the copy
that was read (undefined behaviour under Stacked Borrows, seen with Miri).
---
 src/node.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 60530ef..3b3ad3e 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -896,11 +896,10 @@ impl<B, Key, Value> NodeContainer<B, Key, Value> {
         let level = self.level;
         let alloc = self.alloc;
         let node = {
-            // SAFETY: self.node is not read after being moved out of the
-            // container - self is dropped immediately afterwards.
-            let node = unsafe { ptr::read(&self.node) };
-            mem::forget(self);
-            node
+            // SAFETY: this.node is not read after being moved out of the
+            // container - this is never dropped, nor moved afterwards.
+            let this = ManuallyDrop::new(self);
+            unsafe { ptr::read(&this.node) }
         };
         if let Some(level) = NonZeroUsize::new(level) {
             NodeChildrenContainer::Inner(InnerNodeChildrenContainer {
@@ -926,11 +925,10 @@ impl<B, Key, Value> NodeContainer<B, Key, Value> {
     /// node can only be wrapped again with the same level and [`Alloc`] that
     /// were used to create the container.
     pub(crate) fn leak(self) -> Node<B, Key, Value> {
-        // SAFETY: self.node is not read after being moved out of the
-        // container - self is dropped immediately afterwards.
-        let node = unsafe { ptr::read(&self.node) };
-        mem::forget(self);
-        node
+        // SAFETY: this.node is not read after being moved out of the
+        // container - this is never dropped, nor moved afterwards.
+        let this = ManuallyDrop::new(self);
+        unsafe { ptr::read(&this.node) }
     }
 
     pub(crate) fn _debug_assert_eq(&self, other: &NodeContainer<B, Key, Value>)
-- 
2.43.0

