From 778c32a931b218e88b099d4839adf1c3be55d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 01/28] fix: keep AABB order equal to primitive order when
 aabbs are omitted

par_bridge() does not preserve the order of the source iterator, so the
AABBs computed by Builder could belong to other primitives.
---
 src/bvh.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/bvh.rs b/src/bvh.rs
index 5ff07ae..0fc96a0 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -76,8 +76,7 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
         } else {
             let aabbs = self
                 .primitives
-                .iter()
-                .par_bridge()
+                .par_iter()
                 .map(|p| p.aabb())
                 .collect::<Vec<_>>();
             Ok(SpatialSahBuilder::new(&aabbs, self.primitives, self.primitives_per_leaf).build())
@@ -101,8 +100,7 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
         } else {
             let aabbs = self
                 .primitives
-                .iter()
-                .par_bridge()
+                .par_iter()
                 .map(|p| p.aabb())
                 .collect::<Vec<_>>();
 
@@ -127,8 +125,7 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
         } else {
             let aabbs = self
                 .primitives
-                .iter()
-                .par_bridge()
+                .par_iter()
                 .map(|p| p.aabb())
                 .collect::<Vec<_>>();
 
-- 
2.43.0


From dbf452c4e3f082be96cee10cf1d1a45e01f0311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 02/28] fix: compute left child bounds of the binned SAH
 fallback split from the bins it was split at

---
 src/builders/binned_sah.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builders/binned_sah.rs b/src/builders/binned_sah.rs
index 3bf88c3..c1e6c54 100644
--- a/src/builders/binned_sah.rs
+++ b/src/builders/binned_sah.rs
@@ -230,7 +230,7 @@ impl<'a, T: Primitive<i32>> Task for BinnedSahBuildTask<'a, T> {
             let mut right_box = Aabb::empty();
 
             let bins = &self.bins_per_axis[best_axis];
-            for bin in bins[0..(best_splits[best_axis].count as usize)].iter() {
+            for bin in bins[0..split_index].iter() {
                 left_box.grow_bb(&bin.aabb);
             }
 
-- 
2.43.0


From b023e869407c61b2dd74e31e702fc34f5b2e938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 03/28] fix: hand each spatial SAH child the reference range
 its references live in

allocate_children moves the references of the right child towards the end of
the range to leave free space for the left child, but the work items still
described the old ranges, so references were lost.
---
 src/builders/spatial_sah.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index b27d21f..ad467b8 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -427,15 +427,15 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
             new_nodes.left,
             self.work_item.begin,
             left_end,
-            right_begin,
+            right_begin + left_split_count,
             self.work_item.depth + 1,
             is_sorted,
         );
 
         let right_item = WorkItem::new(
             new_nodes.right,
-            right_begin,
-            right_end ,
+            right_begin + left_split_count,
+            right_end + left_split_count,
             self.work_item.split_end,
             self.work_item.depth + 1,
             is_sorted,
-- 
2.43.0


From f44ec392c03c92035b025f039d762dd7b888002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 04/28] fix: compute the intersection of a triangle edge and a
 split plane correctly

---
 src/builders/spatial_sah.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index ad467b8..6d089cd 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -90,7 +90,7 @@ pub trait SpatialTriangle {
 
         let split_edge = |a: Vec3, b: Vec3| -> Vec3 {
             let t = (Vec3::splat(position) - Vec3::splat(a[axis])) / Vec3::splat(b[axis] - a[axis]);
-            a * t * (b - a)
+            a + t * (b - a)
         };
 
         let q0 = p[0][axis] <= position;
-- 
2.43.0


From 0f8dcab39d468c30fcc0c2f200b25d6f453d306c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 05/28] fix: median fallback of the spatial split is relative
 to the begin of the work item

---
 src/builders/spatial_sah.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 6d089cd..9bd7257 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -647,7 +647,7 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
             // references are on a single side. This code block splits the number of primitives
             // equally to either side to prevent every primitive going to one side.
             if left_count > 0 {
-                left_end = left_count / 2;
+                left_end = self.work_item.begin + left_count / 2;
             } else {
                 left_end += right_count / 2;
             }
-- 
2.43.0


From 5a8801a922065e4ebb7dac020178ab94c7d5af13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 06/28] fix: sort spatial SAH references with a total order

The comparison with a tolerance is not transitive, which makes sort_by panic
on some inputs.
---
 src/builders/spatial_sah.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 9bd7257..5a453d1 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -317,16 +317,7 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
             for axis in 0..3 {
                 let slice = self.references[axis].range(begin, end);
                 slice.sort_by(|a, b| {
-                    let a_center = a.center[axis];
-                    let b_center = b.center[axis];
-
-                    if a_center < b_center {
-                        std::cmp::Ordering::Less
-                    } else if (a_center - b_center).abs() < 0.0001 {
-                        std::cmp::Ordering::Equal
-                    } else {
-                        std::cmp::Ordering::Greater
-                    }
+                    a.center[axis].total_cmp(&b.center[axis])
                 });
             }
         }
-- 
2.43.0


From 54bdd5d7ea020402469be84a4f455b839706adb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 07/28] fix: never hand out more split space than is left in
 the spatial SAH builder

---
 src/builders/spatial_sah.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 5a453d1..5e9d4e2 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -382,7 +382,9 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
         let left_split_count = if remaining_split_count == 0 {
             0
         } else {
-            (remaining_split_count as f32 * (left_cost / (left_cost + right_cost))) as usize
+            // Boxes of split references can be empty, in which case the costs are meaningless
+            ((remaining_split_count as f32 * (left_cost / (left_cost + right_cost))) as usize)
+                .min(remaining_split_count)
         };
 
         // Move references of the right child to end of the list to leave some split space for the left one
-- 
2.43.0


From 92123ec222ec812de7904ac79ea71f50a3d9f998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 08/28] fix: pad leaf bounds of the spatial SAH builder like
 all other nodes

---
 src/builders/spatial_sah.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 5e9d4e2..d363bc8 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -731,6 +731,7 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> Task for SpatialSahBuildTask<'a, T
                 prim_indices.set(first_prim + i, references[0][begin + i].prim_id);
             }
 
+            node.bounds.offset_by(0.0001);
             node.set_left_first(Some(first_prim as u32));
             node.set_count(Some(prim_count as u32));
         };
-- 
2.43.0


From 519541d711ca7fa3d80cbe23489e67bca70d1ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 09/28] fix: drop unused entries from the index list of the
 spatial SAH builder

---
 src/builders/spatial_sah.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index d363bc8..dc11cfd 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -1017,6 +1017,7 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> BuildAlgorithm for SpatialSahBuild
         task_spawner.run(root_task);
 
         nodes.resize(node_count.load(SeqCst), BvhNode::new());
+        prim_indices.truncate(reference_count.load(SeqCst));
 
         // Compose bvh
         Bvh {
-- 
2.43.0


From b3894d0bf88d3e47b44364badbc0ad3ee03c6162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 10/28] fix: packet box tests accept rays through boxes without
 extent like single rays do

A flat box has equal entry and exit distances, the strict comparison rejected
every ray through it.
---
 src/aabb.rs      | 2 +-
 src/mbvh_node.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aabb.rs b/src/aabb.rs
index 7635d2f..276bc12 100644
--- a/src/aabb.rs
+++ b/src/aabb.rs
@@ -235,7 +235,7 @@ impl<E: Debug + Copy> Aabb<E> {
         let t_min = t_min_x.max(t_min_y.max(t_min_z));
         let t_max = t_max_x.min(t_max_y.min(t_max_z));
 
-        let mask = t_max.cmpgt(Vec4::ZERO) & t_max.cmpgt(t_min) & t_min.cmplt(packet.t);
+        let mask = t_max.cmpgt(Vec4::ZERO) & t_max.cmpge(t_min) & t_min.cmplt(packet.t);
         if mask.any() {
             Some(t_min.into())
         } else {
diff --git a/src/mbvh_node.rs b/src/mbvh_node.rs
index b4b3713..d4064f4 100644
--- a/src/mbvh_node.rs
+++ b/src/mbvh_node.rs
@@ -274,7 +274,7 @@ impl MbvhNode {
             let t_min: Vec4 = t_min.max(t1.min(t2));
             let t_max: Vec4 = t_max.min(t1.max(t2));
 
-            let greater_than_min = t_max.cmpgt(t_min);
+            let greater_than_min = t_max.cmpge(t_min);
             let less_than_t = t_min.cmplt(Vec4::splat(packet.t[i]));
             result |= greater_than_min & less_than_t;
 
-- 
2.43.0


From 43868c80ef448bea94abb12d2bbf51e99daea49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 11/28] fix: refit must not overwrite the tree structure stored
 in the node bounds

---
 src/bvh.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bvh.rs b/src/bvh.rs
index 0fc96a0..430be27 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -196,8 +196,9 @@ impl Bvh {
                 aabb.offset_by(0.0001);
             }
 
-            // Overwrite AABB
-            self.nodes[i].bounds = aabb;
+            // Overwrite AABB, but keep the primitive count and child index stored in its extra fields
+            self.nodes[i].bounds.min = aabb.min;
+            self.nodes[i].bounds.max = aabb.max;
         }
     }
 
-- 
2.43.0


From 2064a11f8064849cf7fac2925528e6bc8e198ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 12/28] fix: treat negative zero direction components as
 negative

Their inverse is negative infinity, so the slab order must be swapped for them
too. Rays with such a component missed every box.
---
 src/ray.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/ray.rs b/src/ray.rs
index 5e7defd..27d0d4a 100644
--- a/src/ray.rs
+++ b/src/ray.rs
@@ -18,9 +18,9 @@ pub struct Ray {
 impl From<(Vec3, Vec3)> for Ray {
     fn from(vectors: (Vec3, Vec3)) -> Self {
         let signs = [
-            (vectors.1.x < 0.0) as u8,
-            (vectors.1.y < 0.0) as u8,
-            (vectors.1.z < 0.0) as u8,
+            vectors.1.x.is_sign_negative() as u8,
+            vectors.1.y.is_sign_negative() as u8,
+            vectors.1.z.is_sign_negative() as u8,
             0,
         ];
 
@@ -131,9 +131,9 @@ impl RayPacket4 {
         );
 
         let signs = [
-            (direction.x < 0.0) as u8,
-            (direction.y < 0.0) as u8,
-            (direction.z < 0.0) as u8,
+            direction.x.is_sign_negative() as u8,
+            direction.y.is_sign_negative() as u8,
+            direction.z.is_sign_negative() as u8,
             0,
         ];
 
@@ -165,9 +165,9 @@ impl Ray {
 
     pub fn new(origin: Vec3, direction: Vec3) -> Ray {
         let signs = [
-            (direction.x < 0.0) as u8,
-            (direction.y < 0.0) as u8,
-            (direction.z < 0.0) as u8,
+            direction.x.is_sign_negative() as u8,
+            direction.y.is_sign_negative() as u8,
+            direction.z.is_sign_negative() as u8,
             0,
         ];
 
@@ -187,9 +187,9 @@ impl Ray {
         let direction = self.direction - tmp;
 
         let signs = [
-            (direction.x < 0.0) as u8,
-            (direction.y < 0.0) as u8,
-            (direction.z < 0.0) as u8,
+            direction.x.is_sign_negative() as u8,
+            direction.y.is_sign_negative() as u8,
+            direction.z.is_sign_negative() as u8,
             0,
         ];
 
-- 
2.43.0


From 0036558ad29bc6b0c70d8347a41f5dca372e7d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 13/28] fix: compute AABBs of FFI triangles from the vertices
 of the triangle

vertex0_offset and vertex_stride are already in floats, the AABB was read from
a different (possibly out of bounds) address than the vertices.
---
 rtbvh_ffi/src/lib.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 4a5d8df..3bc4fd1 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -280,18 +280,9 @@ impl Primitive for RTTriangleWrapper {
 
     fn aabb(&self) -> Aabb {
         let mut aabb = Aabb::empty();
-        unsafe {
-            let ptr0 = self
-                .vertices
-                .add((self.vertex0_offset * self.vertex_stride / 4) as usize);
-            let ptr1 = ptr0.add((self.vertex_stride / 4) as usize);
-            let ptr2 = ptr0.add((self.vertex_stride / 4) as usize * 2);
-
-            aabb.grow(vec3(*ptr0, *ptr0.add(1), *ptr0.add(2)));
-            aabb.grow(vec3(*ptr1, *ptr1.add(1), *ptr1.add(2)));
-            aabb.grow(vec3(*ptr2, *ptr2.add(1), *ptr2.add(2)));
-        }
-
+        aabb.grow(self.vertex0());
+        aabb.grow(self.vertex1());
+        aabb.grow(self.vertex2());
         aabb
     }
 }
-- 
2.43.0


From 990e20e4bd3f6736111802632478b503f465c63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 14/28] fix: validate does not panic on an empty bvh

---
 src/bvh.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bvh.rs b/src/bvh.rs
index 430be27..f06b30d 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -229,7 +229,9 @@ impl Bvh {
     /// tree structure
     pub fn validate(&self, prim_count: usize) -> bool {
         let mut found_indices = vec![0_u8; prim_count];
-        self.traverse_check(&self.nodes[0], found_indices.as_mut());
+        if let Some(root) = self.nodes.get(0) {
+            self.traverse_check(root, found_indices.as_mut());
+        }
 
         let mut valid = true;
         for (i, index) in found_indices.iter().copied().enumerate() {
-- 
2.43.0


From e6a29e64191a572b10f396a1ae942d9fc00eb5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 15/28] fix: do not use aligned loads on MbvhNode, which is not
 16-byte aligned

---
 src/mbvh_node.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/mbvh_node.rs b/src/mbvh_node.rs
index d4064f4..8f4dff3 100644
--- a/src/mbvh_node.rs
+++ b/src/mbvh_node.rs
@@ -84,12 +84,12 @@ impl MbvhNode {
         ))]
         {
             (
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_x.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_x.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_y.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_y.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_z.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_z.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_x.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_x.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_y.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_y.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_z.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_z.as_ptr()) }),
             )
         }
         #[cfg(any(
@@ -115,9 +115,9 @@ impl MbvhNode {
         ))]
         {
             (
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_x.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_y.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_z.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_x.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_y.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_z.as_ptr()) }),
             )
         }
         #[cfg(any(
@@ -140,9 +140,9 @@ impl MbvhNode {
         ))]
         {
             (
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_x.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_y.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_z.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_x.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_y.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_z.as_ptr()) }),
             )
         }
         #[cfg(any(
-- 
2.43.0


From 2925828dfeb6fa97ac132d5ae06ad5708208473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 16/28] fix: skip only the missing primitive when a primitive
 slice is shorter than the index list

The Bvh iterators restarted the leaf forever and the Mbvh iterators dropped the
rest of the leaf.
---
 src/iter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iter.rs b/src/iter.rs
index eda2d61..43cfa88 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -111,6 +111,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhIterator<'a, 'b, T> {
                             std::mem::transmute::<&mut Ray, &'b mut Ray>(self.ray)
                         }));
                     }
+                    continue;
                 }
                 self.i = 0;
             } else if left_first > -1 {
@@ -226,6 +227,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhPacketIterator<'a, 'b, T> {
                             std::mem::transmute::<&mut RayPacket4, &'b mut RayPacket4>(self.ray)
                         }));
                     }
+                    continue;
                 }
                 self.i = 0;
             } else if left_first > -1 {
@@ -339,6 +341,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
                                     std::mem::transmute::<&mut Ray, &'b mut Ray>(self.ray)
                                 }));
                             }
+                            continue;
                         }
                         self.j = 0;
                     } else if left_first > -1 {
@@ -453,6 +456,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
                                     )
                                 }));
                             }
+                            continue;
                         }
                         self.j = 0;
                     } else if left_first > -1 {
-- 
2.43.0


From 47fcccdd934141d53fdbd03c6d6dad8b58d5ce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 17/28] fix: traversing an empty Mbvh yields nothing instead of
 reading out of bounds

---
 src/iter.rs         | 4 ++--
 src/iter_indices.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 43cfa88..43ad352 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -309,7 +309,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
+            let node = self.nodes.get(self.current as usize)?;
 
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
@@ -422,7 +422,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
+            let node = self.nodes.get(self.current as usize)?;
 
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
diff --git a/src/iter_indices.rs b/src/iter_indices.rs
index 9e603c7..e94a149 100644
--- a/src/iter_indices.rs
+++ b/src/iter_indices.rs
@@ -266,7 +266,7 @@ impl<'a> Iterator for MbvhIndexIterator<'a> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
+            let node = self.nodes.get(self.current as usize)?;
 
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
@@ -369,7 +369,7 @@ impl<'a> Iterator for MbvhPacketIndexIterator<'a> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
+            let node = self.nodes.get(self.current as usize)?;
 
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
-- 
2.43.0


From f5259860cdb6054ca13d18ab4fc89e95f8a544a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 18/28] fix: traverse trees of any depth

The traversal stack had room for 32 entries, deeper trees (e.g. locally ordered
clustering over duplicate primitives) caused a panic or out of bounds writes.
---
 src/bvh_node.rs     | 29 +++++++++++++++--------------
 src/iter.rs         | 41 +++++++++++++++++++----------------------
 src/iter_indices.rs | 41 +++++++++++++++++++----------------------
 src/utils.rs        | 41 +++++++++++++++++++++++++++++++++++++++++
 4 files changed, 94 insertions(+), 58 deletions(-)

diff --git a/src/bvh_node.rs b/src/bvh_node.rs
index 6723328..3fd0146 100644
--- a/src/bvh_node.rs
+++ b/src/bvh_node.rs
@@ -1,6 +1,7 @@
 use glam::*;
 use std::fmt::{Display, Formatter};
 
+use crate::utils::TraversalStack;
 use crate::{Aabb, Ray, RayPacket4};
 
 #[cfg(feature = "serde")]
@@ -150,27 +151,27 @@ impl BvhNode {
     pub(crate) fn sort_nodes(
         left: Option<f32>,
         right: Option<f32>,
-        hit_stack: &mut [i32],
+        hit_stack: &mut TraversalStack,
         mut stack_ptr: i32,
         left_first: i32,
     ) -> i32 {
         if let (Some(t_near_left), Some(t_near_right)) = (left, right) {
             stack_ptr += 1;
             if t_near_left < t_near_right {
-                hit_stack[stack_ptr as usize] = left_first;
+                hit_stack.set(stack_ptr, left_first);
                 stack_ptr += 1;
-                hit_stack[stack_ptr as usize] = left_first + 1;
+                hit_stack.set(stack_ptr, left_first + 1);
             } else {
-                hit_stack[stack_ptr as usize] = left_first + 1;
+                hit_stack.set(stack_ptr, left_first + 1);
                 stack_ptr += 1;
-                hit_stack[stack_ptr as usize] = left_first;
+                hit_stack.set(stack_ptr, left_first);
             }
         } else if left.is_some() {
             stack_ptr += 1;
-            hit_stack[stack_ptr as usize] = left_first;
+            hit_stack.set(stack_ptr, left_first);
         } else if right.is_some() {
             stack_ptr += 1;
-            hit_stack[stack_ptr as usize] = left_first + 1;
+            hit_stack.set(stack_ptr, left_first + 1);
         }
 
         stack_ptr
@@ -180,7 +181,7 @@ impl BvhNode {
     pub(crate) fn sort_nodes4(
         left: Option<[f32; 4]>,
         right: Option<[f32; 4]>,
-        hit_stack: &mut [i32],
+        hit_stack: &mut TraversalStack,
         mut stack_ptr: i32,
         left_first: i32,
     ) -> i32 {
@@ -191,20 +192,20 @@ impl BvhNode {
 
             stack_ptr += 1;
             if t_near_left.cmplt(t_near_right).bitmask() > 0 {
-                hit_stack[stack_ptr as usize] = left_first;
+                hit_stack.set(stack_ptr, left_first);
                 stack_ptr += 1;
-                hit_stack[stack_ptr as usize] = left_first + 1;
+                hit_stack.set(stack_ptr, left_first + 1);
             } else {
-                hit_stack[stack_ptr as usize] = left_first + 1;
+                hit_stack.set(stack_ptr, left_first + 1);
                 stack_ptr += 1;
-                hit_stack[stack_ptr as usize] = left_first;
+                hit_stack.set(stack_ptr, left_first);
             }
         } else if left.is_some() {
             stack_ptr += 1;
-            hit_stack[stack_ptr as usize] = left_first;
+            hit_stack.set(stack_ptr, left_first);
         } else if right.is_some() {
             stack_ptr += 1;
-            hit_stack[stack_ptr as usize] = left_first + 1;
+            hit_stack.set(stack_ptr, left_first + 1);
         }
 
         stack_ptr
diff --git a/src/iter.rs b/src/iter.rs
index 43ad352..cf494f5 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -1,3 +1,4 @@
+use crate::utils::TraversalStack;
 use crate::*;
 
 pub trait RayIterator<'a, 'b, T: 'a + Primitive>: Iterator<Item = (&'a T, &'b mut Ray)> {}
@@ -22,7 +23,7 @@ pub trait IntoPacketIterator<'a, 'b, T: 'a + Primitive> {
 pub struct BvhIterator<'a, 'b, T: 'a + Primitive> {
     ray: &'b mut Ray,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -46,7 +47,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: bvh.nodes(),
             indices: bvh.indices(),
@@ -73,7 +74,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -93,7 +94,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhIterator<'a, 'b, T> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack.get(self.stack_ptr) as usize)
             };
             self.stack_ptr -= 1;
 
@@ -132,7 +133,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhIterator<'a, 'b, T> {
 pub struct BvhPacketIterator<'a, 'b, T: 'a + Primitive> {
     ray: &'b mut RayPacket4,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -159,7 +160,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhPacketIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: bvh.nodes(),
             indices: bvh.indices(),
@@ -189,7 +190,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhPacketIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -209,7 +210,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhPacketIterator<'a, 'b, T> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack.get(self.stack_ptr) as usize)
             };
             self.stack_ptr -= 1;
 
@@ -251,7 +252,7 @@ pub struct MbvhIterator<'a, 'b, T: 'a + Primitive> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -273,7 +274,7 @@ impl<'a, 'b, T: Primitive> MbvhIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -295,7 +296,7 @@ impl<'a, 'b, T: Primitive> MbvhIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -316,7 +317,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
                     return None;
                 }
 
-                self.current = self.stack[self.stack_ptr as usize];
+                self.current = self.stack.get(self.stack_ptr);
                 self.stack_ptr -= 1;
                 self.hit = unsafe {
                     self.nodes
@@ -346,9 +347,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack.set(self.stack_ptr, left_first);
                     }
                 }
                 self.i += 1;
@@ -364,7 +363,7 @@ pub struct MbvhPacketIterator<'a, 'b, T: 'a + Primitive> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -386,7 +385,7 @@ impl<'a, 'b, T: 'a + Primitive> MbvhPacketIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -408,7 +407,7 @@ impl<'a, 'b, T: 'a + Primitive> MbvhPacketIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -429,7 +428,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
                     return None;
                 }
 
-                self.current = self.stack[self.stack_ptr as usize];
+                self.current = self.stack.get(self.stack_ptr);
                 self.stack_ptr -= 1;
                 self.hit = unsafe {
                     self.nodes
@@ -461,9 +460,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack.set(self.stack_ptr, left_first);
                     }
                 }
                 self.i += 1;
diff --git a/src/iter_indices.rs b/src/iter_indices.rs
index e94a149..b5888ba 100644
--- a/src/iter_indices.rs
+++ b/src/iter_indices.rs
@@ -1,3 +1,4 @@
+use crate::utils::TraversalStack;
 use crate::*;
 
 pub trait RayIndexIterator<'a>: Iterator<Item = (u32, &'a mut Ray)> {}
@@ -19,7 +20,7 @@ pub trait IntoPacketIndexIterator<'a> {
 pub struct BvhIndexIterator<'a> {
     ray: &'a mut Ray,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -38,7 +39,7 @@ impl<'a> BvhIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: &bvh.nodes,
             indices: &bvh.prim_indices,
@@ -55,7 +56,7 @@ impl<'a> BvhIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -74,7 +75,7 @@ impl<'a> Iterator for BvhIndexIterator<'a> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack.get(self.stack_ptr) as usize)
             };
             self.stack_ptr -= 1;
 
@@ -110,7 +111,7 @@ impl<'a> Iterator for BvhIndexIterator<'a> {
 pub struct BvhPacketIndexIterator<'a> {
     ray: &'a mut RayPacket4,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -135,7 +136,7 @@ impl<'a> BvhPacketIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: &bvh.nodes,
             indices: &bvh.prim_indices,
@@ -158,7 +159,7 @@ impl<'a> BvhPacketIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -177,7 +178,7 @@ impl<'a> Iterator for BvhPacketIndexIterator<'a> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack.get(self.stack_ptr) as usize)
             };
             self.stack_ptr -= 1;
 
@@ -216,7 +217,7 @@ pub struct MbvhIndexIterator<'a> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -237,7 +238,7 @@ impl<'a> MbvhIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -253,7 +254,7 @@ impl<'a> MbvhIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -273,7 +274,7 @@ impl<'a> Iterator for MbvhIndexIterator<'a> {
                     return None;
                 }
 
-                self.current = self.stack[self.stack_ptr as usize];
+                self.current = self.stack.get(self.stack_ptr);
                 self.stack_ptr -= 1;
                 self.hit = unsafe {
                     self.nodes
@@ -301,9 +302,7 @@ impl<'a> Iterator for MbvhIndexIterator<'a> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack.set(self.stack_ptr, left_first);
                     }
                 }
                 self.i += 1;
@@ -319,7 +318,7 @@ pub struct MbvhPacketIndexIterator<'a> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -340,7 +339,7 @@ impl<'a> MbvhPacketIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -356,7 +355,7 @@ impl<'a> MbvhPacketIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -376,7 +375,7 @@ impl<'a> Iterator for MbvhPacketIndexIterator<'a> {
                     return None;
                 }
 
-                self.current = self.stack[self.stack_ptr as usize];
+                self.current = self.stack.get(self.stack_ptr);
                 self.stack_ptr -= 1;
                 self.hit = unsafe {
                     self.nodes
@@ -403,9 +402,7 @@ impl<'a> Iterator for MbvhPacketIndexIterator<'a> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack.set(self.stack_ptr, left_first);
                     }
                 }
                 self.i += 1;
diff --git a/src/utils.rs b/src/utils.rs
index 79f7c8f..079ff01 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -186,6 +186,47 @@ unsafe impl<'a, T> Send for UnsafeSliceWrapper<'a, T> {}
 
 unsafe impl<'a, T> Sync for UnsafeSliceWrapper<'a, T> {}
 
+/// Stack of node indices used during traversal.
+/// Entries past the inline capacity are stored on the heap, as the depth of a tree is not bounded.
+#[derive(Debug, Clone)]
+pub struct TraversalStack {
+    inline: [i32; Self::INLINE_CAPACITY],
+    spilled: Vec<i32>,
+}
+
+impl TraversalStack {
+    const INLINE_CAPACITY: usize = 32;
+
+    #[inline(always)]
+    pub fn new() -> Self {
+        Self {
+            inline: [0; Self::INLINE_CAPACITY],
+            spilled: Vec::new(),
+        }
+    }
+
+    #[inline(always)]
+    pub fn get(&self, ptr: i32) -> i32 {
+        let ptr = ptr as usize;
+        match self.inline.get(ptr) {
+            Some(value) => *value,
+            None => self.spilled[ptr - Self::INLINE_CAPACITY],
+        }
+    }
+
+    #[inline(always)]
+    pub fn set(&mut self, ptr: i32, value: i32) {
+        let ptr = ptr as usize;
+        match self.inline.get_mut(ptr) {
+            Some(entry) => *entry = value,
+            None => {
+                self.spilled.truncate(ptr - Self::INLINE_CAPACITY);
+                self.spilled.push(value);
+            }
+        }
+    }
+}
+
 pub struct TaskSpawner {
     pub threads_in_flight: Arc<AtomicUsize>,
     config: TaskConfig,
-- 
2.43.0


From 3e5ed8b68bee31cdfe6173f869ddf236aefb161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 19/28] fix: binned SAH builder respects the leaf size for
 primitives with the same center

---
 src/builders/binned_sah.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/builders/binned_sah.rs b/src/builders/binned_sah.rs
index c1e6c54..adf286a 100644
--- a/src/builders/binned_sah.rs
+++ b/src/builders/binned_sah.rs
@@ -210,7 +210,7 @@ impl<'a, T: Primitive<i32>> Task for BinnedSahBuildTask<'a, T> {
         }
 
         let primitives = self.builder.primitives;
-        let begin_right = self.begin
+        let mut begin_right = self.begin
             + partition(self.prim_indices, 0..(self.end - self.begin), |i| {
                 let i = *i;
                 let center = primitives[i as usize].center();
@@ -218,6 +218,13 @@ impl<'a, T: Primitive<i32>> Task for BinnedSahBuildTask<'a, T> {
                     < split_index
             });
 
+        // The centers cannot be told apart, split the primitives in half if they do not fit in a leaf
+        let split_in_half = (begin_right == self.begin || begin_right == self.end)
+            && self.work_size() > self.builder.max_leaf_size;
+        if split_in_half {
+            begin_right = self.begin + self.work_size() / 2;
+        }
+
         // Check if the split does not leave one side empty
         if begin_right > self.begin && begin_right < self.end {
             // Allocate two nodes
@@ -229,13 +236,24 @@ impl<'a, T: Primitive<i32>> Task for BinnedSahBuildTask<'a, T> {
             let mut left_box = Aabb::empty();
             let mut right_box = Aabb::empty();
 
-            let bins = &self.bins_per_axis[best_axis];
-            for bin in bins[0..split_index].iter() {
-                left_box.grow_bb(&bin.aabb);
-            }
+            if split_in_half {
+                for (i, prim_id) in self.prim_indices.iter().enumerate() {
+                    let prim_box = &self.builder.aabbs[*prim_id as usize];
+                    if self.begin + i < begin_right {
+                        left_box.grow_bb(prim_box);
+                    } else {
+                        right_box.grow_bb(prim_box);
+                    }
+                }
+            } else {
+                let bins = &self.bins_per_axis[best_axis];
+                for bin in bins[0..split_index].iter() {
+                    left_box.grow_bb(&bin.aabb);
+                }
 
-            for bin in bins[split_index..bin_count].iter() {
-                right_box.grow_bb(&bin.aabb);
+                for bin in bins[split_index..bin_count].iter() {
+                    right_box.grow_bb(&bin.aabb);
+                }
             }
 
             // Retrieve references to new nodes
-- 
2.43.0


From 739d2c54e80a317a1d405cbb4b232cf2af089c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 20/28] Scheduling hooks for verification, guarded by --cfg
 rtbvh_verif

---
 src/builders/mod.rs |  2 ++
 src/lib.rs          |  2 ++
 src/utils.rs        | 13 +++++++++++++
 src/verif.rs        | 35 +++++++++++++++++++++++++++++++++++
 4 files changed, 52 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/builders/mod.rs b/src/builders/mod.rs
index b94868f..1e6593f 100644
--- a/src/builders/mod.rs
+++ b/src/builders/mod.rs
@@ -59,6 +59,8 @@ impl<'a> AtomicNodeStack<'a> {
     pub fn allocate(&self) -> Option<AllocatedNodes<'a>> {
         let left = self.counter.fetch_add(2, SeqCst);
         let right = left + 1;
+        #[cfg(rtbvh_verif)]
+        crate::verif::schedule_point();
 
         if self.nodes.len() <= left {
             return None;
diff --git a/src/lib.rs b/src/lib.rs
index 6518d1d..7c5778f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,6 +8,8 @@ mod mbvh_node;
 mod morton;
 mod ray;
 mod utils;
+#[cfg(rtbvh_verif)]
+pub mod verif;
 
 pub use crate::bvh::*;
 pub use aabb::*;
diff --git a/src/utils.rs b/src/utils.rs
index 079ff01..5ef33dd 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -275,7 +275,18 @@ impl TaskSpawner {
 
     pub fn run<T: Task>(&self, first_task: T) {
         let thread_count = self.threads_in_flight.clone();
+        #[cfg(rtbvh_verif)]
+        let verif_config = TaskConfig {
+            work_size_threshold: self
+                .config
+                .work_size_threshold
+                .min(crate::verif::spawn_threshold()),
+            ..self.config
+        };
         crossbeam::scope(move |s| {
+            #[cfg(rtbvh_verif)]
+            Self::run_task(first_task, verif_config, thread_count, s);
+            #[cfg(not(rtbvh_verif))]
             Self::run_task(first_task, self.config, thread_count, s);
         })
         .unwrap();
@@ -295,6 +306,8 @@ impl TaskSpawner {
         while !stack.is_empty() {
             let work_item = stack.pop().unwrap();
             debug_assert!(work_item.depth() <= config.max_depth);
+            #[cfg(rtbvh_verif)]
+            crate::verif::schedule_point();
 
             if let Some((mut task_a, mut task_b)) = work_item.run() {
                 if task_a.work_size() < task_b.work_size() {
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..f8e058e
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,35 @@
+//! Scheduling controls for verification, only compiled with `--cfg rtbvh_verif`.
+use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
+
+static SPAWN_THRESHOLD: AtomicUsize = AtomicUsize::new(1024);
+static PERTURB: AtomicU64 = AtomicU64::new(0);
+
+/// Tasks with more work than this are run on a new thread.
+pub fn set_spawn_threshold(threshold: usize) {
+    SPAWN_THRESHOLD.store(threshold, Ordering::SeqCst);
+}
+
+pub(crate) fn spawn_threshold() -> usize {
+    SPAWN_THRESHOLD.load(Ordering::SeqCst)
+}
+
+/// Seed for random delays at scheduling points, 0 turns delays off.
+pub fn set_perturb(seed: u64) {
+    PERTURB.store(seed, Ordering::SeqCst);
+}
+
+pub(crate) fn schedule_point() {
+    let mut x = PERTURB.load(Ordering::Relaxed);
+    if x == 0 {
+        return;
+    }
+    x ^= x << 13;
+    x ^= x >> 7;
+    x ^= x << 17;
+    PERTURB.store(x, Ordering::Relaxed);
+    match x % 8 {
+        0 => std::thread::sleep(std::time::Duration::from_micros(x >> 8 & 63)),
+        1..=4 => std::thread::yield_now(),
+        _ => {}
+    }
+}
-- 
2.43.0


From 4cc8093a7824d15fc0d9705e119c962f0145a11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 21/28] fix: packet queries of the C API write distances to
 arrays of any alignment

---
 rtbvh_ffi/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 3bc4fd1..fae0031 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -671,7 +671,7 @@ pub unsafe extern "C" fn intersect_packet(
         }
     }
 
-    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4, t as *mut Vec4, 1);
+    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4 as *const f32, t, 4);
 
     ResultCode::Ok
 }
@@ -820,7 +820,7 @@ pub unsafe extern "C" fn intersect_mbvh_packet(
         }
     }
 
-    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4, t as *mut Vec4, 1);
+    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4 as *const f32, t, 4);
 
     ResultCode::Ok
 }
-- 
2.43.0


From 54e6111269a8d10e1c9a19f41d5e9fbdc96fe4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 22/28] fix: do not split references that are on one side of
 the plane in the spatial SAH builder

---
 src/builders/spatial_sah.rs | 62 +++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index dc11cfd..e940725 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -635,29 +635,6 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
 
         let mut left_count = left_end - self.work_item.begin;
         let mut right_count = right_end - right_begin;
-        if (left_count == 0 || right_count == 0) && left_end == right_begin {
-            // Sometimes the algorithm will suggest a spatial split is possible, but all
-            // references are on a single side. This code block splits the number of primitives
-            // equally to either side to prevent every primitive going to one side.
-            if left_count > 0 {
-                left_end = self.work_item.begin + left_count / 2;
-            } else {
-                left_end += right_count / 2;
-            }
-            right_begin = left_end;
-
-            // Recompute the left and right bounding boxes
-            left_box = Aabb::empty();
-            right_box = Aabb::empty();
-
-            for r in &references_to_split[self.work_item.begin..left_end] {
-                left_box.grow_bb(&r.aabb);
-            }
-
-            for r in &references_to_split[left_end..self.work_item.end] {
-                right_box.grow_bb(&r.aabb);
-            }
-        }
 
         // Handle straddling references
         while left_end < right_begin {
@@ -669,6 +646,21 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
             left_prim_box.shrink(&reference.aabb);
             right_prim_box.shrink(&reference.aabb);
 
+            // The box can reach beyond the triangle (or what is left of it), so the triangle
+            // itself might still be on a single side.
+            if !left_prim_box.is_valid() {
+                right_box.grow_bb(&reference.aabb);
+                right_begin -= 1;
+                references_to_split.swap(right_begin, left_end);
+                right_count += 1;
+                continue;
+            } else if !right_prim_box.is_valid() {
+                left_box.grow_bb(&reference.aabb);
+                left_end += 1;
+                left_count += 1;
+                continue;
+            }
+
             // Make sure there is enough space to split reference
             if self.work_item.split_end - right_end > 0 {
                 left_box.grow_bb(&left_prim_box);
@@ -703,6 +695,30 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
             }
         }
 
+        if left_count == 0 || right_count == 0 {
+            // Sometimes the algorithm will suggest a spatial split is possible, but all
+            // references are on a single side. This code block splits the number of primitives
+            // equally to either side to prevent every primitive going to one side.
+            if left_count > 0 {
+                left_end = self.work_item.begin + left_count / 2;
+            } else {
+                left_end += right_count / 2;
+            }
+            right_begin = left_end;
+
+            // Recompute the left and right bounding boxes
+            left_box = Aabb::empty();
+            right_box = Aabb::empty();
+
+            for r in &references_to_split[self.work_item.begin..left_end] {
+                left_box.grow_bb(&r.aabb);
+            }
+
+            for r in &references_to_split[left_end..self.work_item.end] {
+                right_box.grow_bb(&r.aabb);
+            }
+        }
+
         self.references[(split.axis + 1) % 3].as_mut()[self.work_item.begin..right_end]
             .copy_from_slice(&references_to_split[self.work_item.begin..right_end]);
         self.references[(split.axis + 2) % 3].as_mut()[self.work_item.begin..right_end]
-- 
2.43.0


From 1f4e4124d436173b83a257d980ef5040e13b430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 23/28] fix: C API copies the caller's boxes instead of
 assuming 16 byte alignment

---
 rtbvh_ffi/src/lib.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index fae0031..26509ad 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -172,6 +172,14 @@ impl From<RTAabb> for Aabb {
     }
 }
 
+/// Copies boxes of the caller, which are not necessarily aligned like Aabb.
+unsafe fn copy_aabbs(aabbs: *const RTAabb, count: usize) -> Vec<Aabb> {
+    slice::from_raw_parts(aabbs, count)
+        .iter()
+        .map(|bb| Aabb::from(*bb))
+        .collect()
+}
+
 #[derive(Debug, Copy, Clone)]
 #[repr(C)]
 pub struct RTBvhNode {
@@ -347,10 +355,11 @@ pub unsafe extern "C" fn create_spatial_Bvh(
     assert_eq!(stride % 4, 0);
 
     let aabbs = if !aabbs.is_null() {
-        Some(slice::from_raw_parts(aabbs as *const Aabb, prim_count))
+        Some(copy_aabbs(aabbs, prim_count))
     } else {
         None
     };
+    let aabbs = aabbs.as_deref();
 
     let primitives: Vec<RTTriangleWrapper> = (0..prim_count)
         .into_iter()
@@ -440,10 +449,11 @@ pub unsafe extern "C" fn create_bvh(
     );
 
     let aabbs = if !aabbs.is_null() {
-        Some(slice::from_raw_parts(aabbs as *const Aabb, prim_count))
+        Some(copy_aabbs(aabbs, prim_count))
     } else {
         None
     };
+    let aabbs = aabbs.as_deref();
 
     let bvh = match center_stride {
         12 => {
@@ -514,10 +524,9 @@ pub unsafe extern "C" fn refit(aabbs: *const RTAabb, bvh: RTBvh) -> ResultCode {
 
     let refitted = MANAGER
         .get_mut(bvh.id, |bvh| {
-            bvh.refit(slice::from_raw_parts(
-                aabbs as *const Aabb,
-                bvh.prim_count(),
-            ));
+            // A primitive may be referenced more than once
+            let prim_count = bvh.indices().iter().max().map_or(0, |i| *i as usize + 1);
+            bvh.refit(&copy_aabbs(aabbs, prim_count));
         })
         .is_some();
 
-- 
2.43.0


From 3018c62843ab091bfa5d0847f8ff5ead69b40acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:14 +0000
Subject: [PATCH 24/28] fix: locally ordered clustering panicked when areas of
 bounds overflow

---
 src/builders/locb.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/builders/locb.rs b/src/builders/locb.rs
index 2934edf..6df8bad 100644
--- a/src/builders/locb.rs
+++ b/src/builders/locb.rs
@@ -60,6 +60,16 @@ impl<'a, T: Primitive<i32>> LocallyOrderedClusteringBuilder<'a, T> {
 
         let par_neighbours = UnsafeSliceWrapper::new(neighbours);
 
+        // The area of huge bounds overflows, which must not keep a node from having a neighbour
+        let distance_between = |i: usize, j: usize| {
+            let distance = input[i].bounds.union_of(&input[j].bounds).half_area();
+            if distance < std::f32::MAX {
+                distance
+            } else {
+                std::f32::MAX
+            }
+        };
+
         (0..num_threads).into_iter().for_each(|thread_id| {
             let chunk_begin = begin + thread_id * chunk_size;
             let chunk_end = if thread_id != (num_threads - 1) {
@@ -83,8 +93,7 @@ impl<'a, T: Primitive<i32>> LocallyOrderedClusteringBuilder<'a, T> {
             for i in self.search_range(chunk_begin, begin, end).0..chunk_begin {
                 for j in (i + 1)..self.search_range(i, begin, end).1 {
                     unsafe {
-                        (*distance_matrix[chunk_begin - i].add(j - i - 1)) =
-                            input[i].bounds.union_of(&input[j].bounds).half_area();
+                        (*distance_matrix[chunk_begin - i].add(j - i - 1)) = distance_between(i, j);
                     }
                 }
             }
@@ -98,9 +107,8 @@ impl<'a, T: Primitive<i32>> LocallyOrderedClusteringBuilder<'a, T> {
                 // Backward search
                 for j in search_begin..i {
                     let distance = unsafe { *distance_matrix[i - j].add(i - j - 1) };
-                    debug_assert!(!distance.is_infinite());
 
-                    if distance < best_distance {
+                    if best_neighbour == -1 || distance < best_distance {
                         best_distance = distance;
                         best_neighbour = j as i32;
                     }
@@ -108,19 +116,11 @@ impl<'a, T: Primitive<i32>> LocallyOrderedClusteringBuilder<'a, T> {
 
                 // Forward search
                 for j in (i + 1)..search_end {
-                    let distance = input[i].bounds.union_of(&input[j].bounds).half_area();
-                    debug_assert!(
-                        !distance.is_infinite(),
-                        "i {}, j {}, bounds1 {}, bound2 {}",
-                        i,
-                        j,
-                        &input[i].bounds,
-                        &input[j].bounds
-                    );
+                    let distance = distance_between(i, j);
                     unsafe {
                         (*distance_matrix[0].add(j - i - 1)) = distance;
                     }
-                    if distance < best_distance {
+                    if best_neighbour == -1 || distance < best_distance {
                         best_distance = distance;
                         best_neighbour = j as i32;
                     }
-- 
2.43.0


From 7f7987025947ad35acee473f79fc839d3f98083e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:14 +0000
Subject: [PATCH 25/28] fix: spatial SAH put all primitives into one leaf when
 areas of bounds overflow

---
 src/builders/spatial_sah.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index e940725..f7c0c3d 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -778,7 +778,8 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> Task for SpatialSahBuildTask<'a, T
         let max_split_cost = node.bounds.half_area()
             * (self.work_item.work_size() as f32 - self.builder.traversal_cost);
         // Make sure the cost of splitting does not exceed the cost of not splitting
-        if best_cost >= max_split_cost {
+        let no_split = !use_spatial_split && best_object_split.index.is_none();
+        if best_cost >= max_split_cost || no_split {
             // In case splitting results in worse node costs, use median split as fallback strategy
             if self.work_item.work_size() > self.builder.max_leaf_size {
                 use_spatial_split = false;
-- 
2.43.0


From 740fb6c7f8594b29f8bd0be21ca2c6e8c78e56ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:25 +0000
Subject: [PATCH 26/28] fix: yes/no box test respects the ray's minimum
 distance

---
 src/aabb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aabb.rs b/src/aabb.rs
index 276bc12..a4b3011 100644
--- a/src/aabb.rs
+++ b/src/aabb.rs
@@ -211,7 +211,7 @@ impl<E: Debug + Copy> Aabb<E> {
             ray_max = z_max;
         }
 
-        ray_max > 0.0
+        ray_max > ray.t_min
     }
 
     #[inline]
-- 
2.43.0


From bbeb1db3496d3ab3206eb17ad941f49f4123a2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:03 +0000
Subject: [PATCH 27/28] fix: records of a triangle array may lie more than 4
 GiB apart

---
 rtbvh_ffi/src/lib.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 26509ad..87ffab0 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -266,19 +266,17 @@ impl Default for RTMbvh {
 #[derive(Debug, Copy, Clone)]
 struct RTTriangleWrapper {
     centers: *const f32,
-    center_stride: u32,
-    center_i: u32,
+    center_stride: usize,
+    center_i: usize,
     vertices: *const f32,
-    vertex0_offset: u32,
-    vertex_stride: u32,
+    vertex0_offset: usize,
+    vertex_stride: usize,
 }
 
 impl Primitive for RTTriangleWrapper {
     fn center(&self) -> Vec3 {
         unsafe {
-            let ptr = self
-                .centers
-                .add((self.center_i * self.center_stride / 4) as usize);
+            let ptr = self.centers.add(self.center_i * self.center_stride / 4);
             let x = *ptr.as_ref().unwrap();
             let y = *ptr.add(1).as_ref().unwrap();
             let z = *ptr.add(2).as_ref().unwrap();
@@ -301,7 +299,7 @@ unsafe impl Sync for RTTriangleWrapper {}
 impl SpatialTriangle for RTTriangleWrapper {
     fn vertex0(&self) -> Vec3 {
         unsafe {
-            let ptr = self.vertices.add(self.vertex0_offset as usize);
+            let ptr = self.vertices.add(self.vertex0_offset);
             let x = *ptr.as_ref().unwrap();
             let y = *ptr.add(1).as_ref().unwrap();
             let z = *ptr.add(2).as_ref().unwrap();
@@ -311,9 +309,7 @@ impl SpatialTriangle for RTTriangleWrapper {
 
     fn vertex1(&self) -> Vec3 {
         unsafe {
-            let ptr = self
-                .vertices
-                .add((self.vertex0_offset + self.vertex_stride) as usize);
+            let ptr = self.vertices.add(self.vertex0_offset + self.vertex_stride);
             let x = *ptr.as_ref().unwrap();
             let y = *ptr.add(1).as_ref().unwrap();
             let z = *ptr.add(2).as_ref().unwrap();
@@ -325,7 +321,7 @@ impl SpatialTriangle for RTTriangleWrapper {
         unsafe {
             let ptr = self
                 .vertices
-                .add((self.vertex0_offset + 2 * self.vertex_stride) as usize);
+                .add(self.vertex0_offset + 2 * self.vertex_stride);
             let x = *ptr.as_ref().unwrap();
             let y = *ptr.add(1).as_ref().unwrap();
             let z = *ptr.add(2).as_ref().unwrap();
@@ -366,10 +362,10 @@ pub unsafe extern "C" fn create_spatial_Bvh(
         .map(|i| RTTriangleWrapper {
             vertices,
             centers,
-            center_stride: stride as u32,
-            center_i: i as u32,
-            vertex0_offset: (i * triangle_stride / 4) as u32,
-            vertex_stride: (vertex_stride / 4) as u32,
+            center_stride: stride,
+            center_i: i,
+            vertex0_offset: i * triangle_stride / 4,
+            vertex_stride: vertex_stride / 4,
         })
         .collect();
 
-- 
2.43.0


From 3db256dc2bdbea9a94c6052a47da41071e73b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:39 +0000
Subject: [PATCH 28/28] fix: deep trees overflow the stack when they are
 converted or validated

---
 src/bvh.rs       | 19 ++++++++++++++++---
 src/mbvh_node.rs | 17 ++++++++++++++++-
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/bvh.rs b/src/bvh.rs
index f06b30d..310113d 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -202,7 +202,20 @@ impl Bvh {
         }
     }
 
-    fn traverse_check(&self, cur_node: &BvhNode, checks: &mut [u8]) {
+    fn traverse_check(&self, root: &BvhNode, checks: &mut [u8]) {
+        // The depth of a tree is not bounded, so this does not use recursion
+        let mut stack = vec![root];
+        while let Some(cur_node) = stack.pop() {
+            self.check_node(cur_node, checks, &mut stack);
+        }
+    }
+
+    fn check_node<'a>(
+        &'a self,
+        cur_node: &BvhNode,
+        checks: &mut [u8],
+        stack: &mut Vec<&'a BvhNode>,
+    ) {
         if let Some(left_first) = cur_node.get_left_first() {
             if cur_node.is_leaf() {
                 for i in 0..cur_node.get_count_unchecked() {
@@ -219,8 +232,8 @@ impl Bvh {
                 let left_node = &self.nodes[left_first as usize];
                 let right_node = &self.nodes[left_first as usize + 1];
 
-                self.traverse_check(left_node, checks);
-                self.traverse_check(right_node, checks);
+                stack.push(right_node);
+                stack.push(left_node);
             }
         }
     }
diff --git a/src/mbvh_node.rs b/src/mbvh_node.rs
index 8f4dff3..70c8dff 100644
--- a/src/mbvh_node.rs
+++ b/src/mbvh_node.rs
@@ -300,6 +300,21 @@ impl MbvhNode {
         bvh_pool: &[BvhNode],
         mbvh_pool: &mut [MbvhNode],
         pool_ptr: &mut usize,
+    ) {
+        // The depth of a tree is not bounded, so this does not use recursion
+        let mut stack = vec![(m_index, cur_node)];
+        while let Some((m_index, cur_node)) = stack.pop() {
+            Self::merge_node(m_index, cur_node, bvh_pool, mbvh_pool, pool_ptr, &mut stack);
+        }
+    }
+
+    fn merge_node(
+        m_index: usize,
+        cur_node: usize,
+        bvh_pool: &[BvhNode],
+        mbvh_pool: &mut [MbvhNode],
+        pool_ptr: &mut usize,
+        stack: &mut Vec<(usize, usize)>,
     ) {
         for i in 0..4 {
             mbvh_pool[m_index].set_bounds_bb(i, &bvh_pool[cur_node].bounds);
@@ -405,7 +420,7 @@ impl MbvhNode {
                 *pool_ptr += 1;
                 mbvh_pool[m_index].children[i] = new_m_index as i32;
                 mbvh_pool[m_index].set_bounds_bb(i, &bvh_pool[node as usize].bounds);
-                Self::merge_nodes(new_m_index, node as usize, bvh_pool, mbvh_pool, pool_ptr);
+                stack.push((new_m_index, node as usize));
             }
         }
     }
-- 
2.43.0

