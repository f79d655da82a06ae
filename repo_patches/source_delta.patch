From b666cbe304813a91747f3a0250f94c93a61b7204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 01/22] fix: segment-disk intersection is empty when the line
 meets the disk outside the segment

---
 fenris-geometry/src/primitives/line.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fenris-geometry/src/primitives/line.rs b/fenris-geometry/src/primitives/line.rs
index 3d66e8e..5dc411c 100644
--- a/fenris-geometry/src/primitives/line.rs
+++ b/fenris-geometry/src/primitives/line.rs
@@ -153,6 +153,10 @@ where
     #[replace_float_literals(T::from_f64(literal).unwrap())]
     pub fn intersect_disk_parametric(&self, disk: &Disk<T>) -> Option<[T; 2]> {
         let [t1, t2] = self.to_line().intersect_disk_parametric(disk)?;
+        if t2 < 0.0 || t1 > 1.0 {
+            // The line intersects the disk, but only outside of the segment
+            return None;
+        }
         let t1 = clamp(t1, 0.0, 1.0);
         let t2 = clamp(t2, 0.0, 1.0);
         Some([t1, t2])
-- 
2.43.0


From 05b845730c7c1cdbb18cd2ca6cb74e317868ea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:08 +0000
Subject: [PATCH 02/22] fix: Quad2d::concave_corner compares the corner with
 its actual predecessor and wraps the index

---
 fenris-geometry/src/primitives/quad.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/fenris-geometry/src/primitives/quad.rs b/fenris-geometry/src/primitives/quad.rs
index 8b41b0d..e25bb95 100644
--- a/fenris-geometry/src/primitives/quad.rs
+++ b/fenris-geometry/src/primitives/quad.rs
@@ -51,17 +51,20 @@ where
 {
     /// Returns the index of a concave corner of the quadrilateral, if there is any.
     pub fn concave_corner(&self) -> Option<usize> {
+        // Twice the signed area of the quad, used to determine its winding order
+        let winding = (self.0[2] - self.0[0]).perp(&(self.0[3] - self.0[1]));
+
         for i in 0..4 {
             let x_next = self.0[(i + 2) % 4];
             let x_curr = self.0[(i + 1) % 4];
-            let x_prev = self.0[(i + 1) % 4];
+            let x_prev = self.0[i];
 
             let a = x_next - x_curr;
             let b = x_prev - x_curr;
-            // perp gives "2d cross product", which when negative means that the interior angle
-            // is creater than 180 degrees, and so the corner must be concave
-            if a.perp(&b) < T::zero() {
-                return Some(i + 1);
+            // perp gives "2d cross product", which when negative (relative to the winding order) means
+            // that the interior angle is greater than 180 degrees, and so the corner must be concave
+            if a.perp(&b) * winding < T::zero() {
+                return Some((i + 1) % 4);
             }
         }
 
-- 
2.43.0


From f0af1cb597e90796cad79bae43127bf8ef48bd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 03/22] fix: Permutation::from_vec reports out-of-range indices
 as InvalidPermutation instead of panicking

---
 src/mesh/reorder.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mesh/reorder.rs b/src/mesh/reorder.rs
index 307c735..56bc64a 100644
--- a/src/mesh/reorder.rs
+++ b/src/mesh/reorder.rs
@@ -119,10 +119,9 @@ impl Permutation {
     pub fn from_vec(perm: Vec<usize>) -> Result<Self, InvalidPermutation> {
         let mut visited = vec![false; perm.len()];
         for &index in &perm {
-            if visited[index] {
-                return Err(InvalidPermutation { marker: PhantomData });
-            } else {
-                visited[index] = true;
+            match visited.get_mut(index) {
+                Some(visited) if !*visited => *visited = true,
+                _ => return Err(InvalidPermutation { marker: PhantomData }),
             }
         }
         Ok(Self { perm })
-- 
2.43.0


From e9906a17adf9f5d01a8123413fd6cdbe6803e775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 04/22] fix: Polygon2d::intersects_segment reports segments
 that cross an edge

---
 fenris-geometry/src/polygon.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fenris-geometry/src/polygon.rs b/fenris-geometry/src/polygon.rs
index f65bb5d..c40a8d9 100644
--- a/fenris-geometry/src/polygon.rs
+++ b/fenris-geometry/src/polygon.rs
@@ -140,6 +140,10 @@ where
             }
         });
 
+        if intersects {
+            return true;
+        }
+
         for (endpoint, closest_edge_idx) in izip!(&endpoints, &closest_edges) {
             // We can unwrap here, because we know that the Polygon has at least one edge
             let closest_edge = self.get_edge(*closest_edge_idx).unwrap();
-- 
2.43.0


From 048243a54739f1e9fc91cde0f224e2683923e59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 05/22] fix: Triangle3d::compute_solid_angle uses the right
 quadrant for large solid angles

---
 fenris-geometry/src/primitives/triangle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fenris-geometry/src/primitives/triangle.rs b/fenris-geometry/src/primitives/triangle.rs
index f27d472..e507c37 100644
--- a/fenris-geometry/src/primitives/triangle.rs
+++ b/fenris-geometry/src/primitives/triangle.rs
@@ -279,8 +279,8 @@ impl<T: Real> Triangle3d<T> {
         let cnorm = c.norm();
 
         let denominator = anorm * bnorm * cnorm + a.dot(&b) * cnorm + b.dot(&c) * anorm + c.dot(&a) * bnorm;
-        let tan_omega_half = abc_matrix.determinant() / denominator;
-        2.0 * tan_omega_half.atan()
+        // The denominator may be negative (solid angles larger than pi), so the quadrant matters
+        2.0 * abc_matrix.determinant().atan2(denominator)
     }
 }
 
-- 
2.43.0


From 209578c60588a3967cae47a10b64fdb9620477e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:50 +0000
Subject: [PATCH 06/22] fix: PolyMesh3d::intersect_half_space orients the faces
 it adds out of the half space

---
 fenris-geometry/src/polymesh.rs | 45 +++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/fenris-geometry/src/polymesh.rs b/fenris-geometry/src/polymesh.rs
index 4dd017c..4771518 100644
--- a/fenris-geometry/src/polymesh.rs
+++ b/fenris-geometry/src/polymesh.rs
@@ -12,7 +12,9 @@ use std::fmt::Display;
 use std::hash::Hash;
 
 // use crate::connectivity::Connectivity;
-use crate::{compute_polyhedron_volume_from_faces, ConvexPolygon3d, ConvexPolyhedron, HalfSpace, LineSegment3d};
+use crate::{
+    compute_polyhedron_volume_from_faces, ConvexPolygon3d, ConvexPolyhedron, HalfSpace, LineSegment3d, SimplePolygon3d,
+};
 // use crate::mesh::Mesh;
 use fenris_nested_vec::NestedVec;
 
@@ -584,6 +586,19 @@ where
         // A vertex is a member of the half space if the half space contains the vertex.
         let vertex_half_space_membership = mark_vertices(&self.vertices, half_space);
 
+        // Compute the physical coordinates of a vertex in edge representation
+        let vertex_coords = |edge_rep: &UndirectedEdge| {
+            let [a, b] = *edge_rep.indices();
+            if a == b {
+                self.vertices[a]
+            } else {
+                let v_a = self.vertices[a];
+                let v_b = self.vertices[b];
+                let segment = LineSegment3d::from_end_points(v_a, v_b);
+                segment.closest_point_to_plane(&half_space.plane())
+            }
+        };
+
         let mut new_faces = NestedVec::new();
         let mut face_classifications = Vec::with_capacity(self.num_faces());
 
@@ -671,9 +686,7 @@ where
                 // faces that we have picked?
 
                 let new_face_index = new_faces.len();
-                let mut new_face_vertices = new_faces.begin_array();
-
-                new_face_vertices.push_single(start_edge.a);
+                let mut new_face_vertices = vec![start_edge.a];
                 let mut next_vertex = start_edge.b;
 
                 while let Some(next_local_idx) = intersection_edges
@@ -682,14 +695,23 @@ where
                 {
                     let next_edge = intersection_edges.swap_remove(next_local_idx);
                     if next_edge.a == next_vertex {
-                        new_face_vertices.push_single(next_edge.a);
+                        new_face_vertices.push(next_edge.a);
                         next_vertex = next_edge.b;
                     } else {
-                        new_face_vertices.push_single(next_edge.b);
+                        new_face_vertices.push(next_edge.b);
                         next_vertex = next_edge.a;
                     }
                 }
 
+                // The new face lies on the surface of the half space, and must be oriented
+                // such that its normal points out of the half space
+                let new_face_polygon =
+                    SimplePolygon3d::from_vertices(new_face_vertices.iter().map(vertex_coords).collect());
+                if new_face_polygon.area_vector().dot(half_space.normal()) < T::zero() {
+                    new_face_vertices.reverse();
+                }
+
+                new_faces.push(&new_face_vertices);
                 new_cell_faces.push_single(new_face_index);
             }
         }
@@ -708,16 +730,7 @@ where
         // Compute new vertex coordinates where necessary
         let mut final_vertices = vec![Point3::origin(); vertex_label_map.len()];
         for (edge_rep, new_vertex_idx) in &vertex_label_map {
-            let [a, b] = *edge_rep.indices();
-            let vertex_coords = if a == b {
-                self.vertices[a]
-            } else {
-                let v_a = self.vertices[a];
-                let v_b = self.vertices[b];
-                let segment = LineSegment3d::from_end_points(v_a, v_b);
-                segment.closest_point_to_plane(&half_space.plane())
-            };
-            final_vertices[*new_vertex_idx] = vertex_coords;
+            final_vertices[*new_vertex_idx] = vertex_coords(edge_rep);
         }
 
         // Convert faces from edge representation to new indices,
-- 
2.43.0


From 1cff80539c9b77fd7e2a1579b925f00900ad829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 07/22] fix: PolyMesh3d::compute_volume does not depend on the
 orientation of shared faces

---
 fenris-geometry/src/polymesh.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/fenris-geometry/src/polymesh.rs b/fenris-geometry/src/polymesh.rs
index 4771518..6dbfa1c 100644
--- a/fenris-geometry/src/polymesh.rs
+++ b/fenris-geometry/src/polymesh.rs
@@ -12,9 +12,7 @@ use std::fmt::Display;
 use std::hash::Hash;
 
 // use crate::connectivity::Connectivity;
-use crate::{
-    compute_polyhedron_volume_from_faces, ConvexPolygon3d, ConvexPolyhedron, HalfSpace, LineSegment3d, SimplePolygon3d,
-};
+use crate::{ConvexPolygon3d, ConvexPolyhedron, HalfSpace, LineSegment3d, SimplePolygon3d};
 // use crate::mesh::Mesh;
 use fenris_nested_vec::NestedVec;
 
@@ -555,12 +553,24 @@ where
 
     #[replace_float_literals(T::from_f64(literal).unwrap())]
     pub fn compute_volume(&self) -> T {
-        let boundary_faces = self.find_boundary_faces();
-        let face_iter = boundary_faces
-            .iter()
-            .map(|face_idx| self.get_face(*face_idx).unwrap());
-
-        compute_polyhedron_volume_from_faces(face_iter)
+        // Faces may be shared by cells, so we cannot rely on the orientation of a face with respect
+        // to any particular cell (or the boundary). However, since cells are convex, each cell
+        // is the union of the (disjoint) pyramids that connect its faces to any one of its points.
+        let mut volume = T::zero();
+        for cell_faces in self.cell_connectivity_iter() {
+            let faces = || {
+                cell_faces
+                    .iter()
+                    .map(|face_idx| self.get_face(*face_idx).unwrap())
+            };
+            if let Some(apex) = faces().find_map(|face| face.get_vertex(0)) {
+                for face in faces().filter(|face| face.num_vertices() > 2) {
+                    let height_vector = face.get_vertex(0).unwrap() - apex;
+                    volume += face.compute_area_vector().dot(&height_vector).abs() / 3.0;
+                }
+            }
+        }
+        volume
     }
 
     pub fn intersect_convex_polyhedron<'a>(&self, polyhedron: &impl ConvexPolyhedron<'a, T>) -> Self {
-- 
2.43.0


From 36662178c3bb05bd4233e14fcd3a724eeec73a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 08/22] fix: create_simple_stupid_sphere keeps the inside of
 the sphere's tangent planes

---
 src/mesh/procedural.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/procedural.rs b/src/mesh/procedural.rs
index 99c01e0..4aa4467 100644
--- a/src/mesh/procedural.rs
+++ b/src/mesh/procedural.rs
@@ -421,8 +421,8 @@ pub fn create_simple_stupid_sphere(center: &Point3<f64>, radius: f64, num_sweeps
             let z = r * theta.cos();
 
             let x = Point3::new(x, y, z);
-            // Normal must point inwards
-            let n = -x.coords.normalize();
+            // Normal must point outwards, since the half space is on the negative side of its surface
+            let n = x.coords.normalize();
             let half_space = HalfSpace::from_point_and_normal(x, Unit::new_normalize(n));
             mesh = mesh.intersect_half_space(&half_space);
         }
-- 
2.43.0


From 50a7552030eef936816091e3d9382abd0a4856ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 09/22] fix: log_det_F uses det(I + du/dX) in one dimension

---
 fenris-solid/src/logdet.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fenris-solid/src/logdet.rs b/fenris-solid/src/logdet.rs
index 2d8723c..bb492ad 100644
--- a/fenris-solid/src/logdet.rs
+++ b/fenris-solid/src/logdet.rs
@@ -23,8 +23,9 @@ where
     match D::USIZE {
         1 => {
             let du_dX: &Matrix1<T> = try_transmute_ref(du_dX).unwrap();
-            let det = du_dX[(0, 0)];
-            (det > 0.0).then(|| det.ln())
+            // det(F) = 1 + u11
+            let gamma = du_dX[(0, 0)];
+            (gamma > -1.0).then(|| T::ln_1p(gamma))
         }
         2 => log_det_F_2d(try_transmute_ref(du_dX).unwrap()),
         3 => log_det_F_3d(try_transmute_ref(du_dX).unwrap()),
-- 
2.43.0


From 11a8f4143076dcd8fbf85fb0419a1342f9d9f8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 10/22] fix: conjugate gradient resets its stopping criterion
 at the start of a solve

---
 fenris-sparse/src/cg.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fenris-sparse/src/cg.rs b/fenris-sparse/src/cg.rs
index 8ab9fb2..0bdfc04 100644
--- a/fenris-sparse/src/cg.rs
+++ b/fenris-sparse/src/cg.rs
@@ -379,6 +379,9 @@ where
             marker: PhantomData,
         };
 
+        self.stopping_criterion
+            .reset(&self.operator, (&x).into(), (&b).into());
+
         let Buffers { r, z, p, Ap } = self.workspace.prepare_buffers(x.len());
 
         // r = b - Ax
-- 
2.43.0


From a3eb4243c5d3d21642f3a220afd1dc79058780c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 11/22] fix: parallel iterators over disjoint subsets can be
 split at their end

---
 fenris-paradis/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fenris-paradis/src/lib.rs b/fenris-paradis/src/lib.rs
index 959a1fe..eb7878b 100644
--- a/fenris-paradis/src/lib.rs
+++ b/fenris-paradis/src/lib.rs
@@ -356,7 +356,7 @@ impl<'a, Access: Send + Clone> Producer for DisjointSubsetsProducer<'a, Access>
 
     fn split_at(self, index: usize) -> (Self, Self) {
         let producer_len = self.range_len;
-        assert!(index < producer_len);
+        assert!(index <= producer_len);
         let global_subset_idx = self.range_start_idx + index;
 
         let producer_left = DisjointSubsetsProducer {
-- 
2.43.0


From c44a231558d5ec49c97ecb156fa19d90187ae424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 12/22] fix: parallel iteration accepts disjoint subsets that
 are all empty

---
 fenris-paradis/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fenris-paradis/src/lib.rs b/fenris-paradis/src/lib.rs
index eb7878b..2771c33 100644
--- a/fenris-paradis/src/lib.rs
+++ b/fenris-paradis/src/lib.rs
@@ -266,8 +266,8 @@ impl DisjointSubsets {
             self.max_index.is_none() || storage.len() > self.max_index.unwrap(),
             "Subsets contain indices out of bounds."
         );
-        // Sanity check: if we don't have a max index, then we also cannot have any subsets
-        debug_assert_eq!(self.max_index.is_none(), self.subsets.len() == 0);
+        // Sanity check: if we don't have a max index, then all subsets must be empty
+        debug_assert_eq!(self.max_index.is_none(), self.subsets.total_num_elements() == 0);
         let access = unsafe { storage.create_access() };
 
         DisjointSubsetsParIter {
-- 
2.43.0


From a0f79a436a2cea706d06a940c7a5cf7d2ef6fac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:02 +0000
Subject: [PATCH 13/22] fix: interpolators of empty spaces accept more than one
 point

---
 src/space/fixed_interpolator.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/space/fixed_interpolator.rs b/src/space/fixed_interpolator.rs
index faa7961..75c0732 100644
--- a/src/space/fixed_interpolator.rs
+++ b/src/space/fixed_interpolator.rs
@@ -269,9 +269,9 @@ impl<T: Real> FixedInterpolator<T> {
             supported_node_offsets.push(point_node_support_begin);
 
             let Some((element_idx, xi)) = space.find_closest_element_and_reference_coords(point)
-            // break out of the loop if there are no elements in the space
+            // There is no closest element if there are no elements in the space
             else {
-                break;
+                continue;
             };
 
             let element_node_count = space.element_node_count(element_idx);
@@ -351,9 +351,9 @@ impl<T: Real> FixedInterpolator<T> {
             supported_node_offsets.push(point_node_support_begin);
 
             let Some((element_idx, xi)) = closest_element_and_ref_coord
-            // break out of the loop if there are no elements in the space
+            // There is no closest element if there are no elements in the space
             else {
-                break;
+                continue;
             };
 
             let element_node_count = space.element_node_count(element_idx);
-- 
2.43.0


From feb35d93df62139948c08ab436537c9e0cebe8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:02 +0000
Subject: [PATCH 14/22] fix: write 9-node quadrilaterals as VTK biquadratic
 quads

---
 src/io/vtk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/vtk.rs b/src/io/vtk.rs
index 9fd4b2e..a707c0b 100644
--- a/src/io/vtk.rs
+++ b/src/io/vtk.rs
@@ -71,7 +71,7 @@ impl VtkCellConnectivity for Quad4d2Connectivity {
 
 impl VtkCellConnectivity for Quad9d2Connectivity {
     fn cell_type(&self) -> CellType {
-        CellType::QuadraticQuad
+        CellType::BiquadraticQuad
     }
 }
 
-- 
2.43.0


From f6031653241487e2e517f1a61c930bd21ee74793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:14 +0000
Subject: [PATCH 15/22] fix: number MSH nodes from the smallest node tag and
 refuse unknown node tags

---
 src/io/msh.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/io/msh.rs b/src/io/msh.rs
index a3409ff..d69fe11 100644
--- a/src/io/msh.rs
+++ b/src/io/msh.rs
@@ -98,7 +98,8 @@ where
 
     // Collect all connectivity matching the target connectivity
     for element_block in &msh_elements.element_blocks {
-        let block_connectivity = connectivity_from_element_block(element_block)?;
+        let block_connectivity =
+            connectivity_from_element_block(element_block, msh_nodes.min_node_tag, msh_nodes.num_nodes)?;
         connectivity.extend(block_connectivity);
     }
 
@@ -154,7 +155,13 @@ where
 }
 
 /// Tries to convert a `mshio::ElementBlock` to a `Vec<Connectivity>`.
-fn connectivity_from_element_block<C, I>(element_block: &mshio::ElementBlock<u64, I>) -> eyre::Result<Vec<C>>
+///
+/// The nodes of the file are numbered consecutively, starting with the given smallest node tag.
+fn connectivity_from_element_block<C, I>(
+    element_block: &mshio::ElementBlock<u64, I>,
+    min_node_tag: u64,
+    num_nodes: u64,
+) -> eyre::Result<Vec<C>>
 where
     C: MshConnectivity,
     I: mshio::MshIntT,
@@ -179,7 +186,16 @@ where
             if element.nodes.len() < requested_nodes {
                 return Err(eyre!("not enough nodes to initialize connectivity"));
             }
-            connectivity.push(C::try_connectivity_from_msh_element(element)?);
+            // Shift the tags so that the first node has tag 1
+            let mut element = element.clone();
+            for tag in &mut element.nodes {
+                *tag = tag
+                    .checked_sub(min_node_tag)
+                    .filter(|index| *index < num_nodes)
+                    .ok_or_else(|| eyre!("element refers to the unknown node tag {}", tag))?
+                    + 1;
+            }
+            connectivity.push(C::try_connectivity_from_msh_element(&element)?);
         }
 
         return Ok(connectivity);
-- 
2.43.0


From 59b0e43b9d50d4cbecb1fb0f281ad28e41473c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:15 +0000
Subject: [PATCH 16/22] fix: condition number of matrices with negative
 eigenvalues

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 4ea831d..50548be 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -470,12 +470,12 @@ where
     let (min, max) = matrix
         .symmetric_eigenvalues()
         .into_iter()
-        .cloned()
+        .map(|eigenvalue| eigenvalue.clone().abs())
         .minmax_by(|a, b| a.partial_cmp(b).unwrap_or(Ordering::Less))
         .into_option()
         .expect("Currently don't support empty matrices");
 
-    max.abs() / min.abs()
+    max / min
 }
 
 /*
-- 
2.43.0


From 4f2a2c6c1e3035e7cf3348c48c6c84b751afe200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:30 +0000
Subject: [PATCH 17/22] fix: sign of the off-diagonal Hessian entries of the
 polar decomposition

---
 src/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 50548be..ad37d6f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -196,9 +196,9 @@ pub fn apd<T: Real>(
         let h00 = B1[1] + B2[2];
         let h11 = B0[0] + B2[2];
         let h22 = B0[0] + B1[1];
-        let h01 = (B1[0] + B0[1]) * 0.5;
-        let h02 = (B2[0] + B0[2]) * 0.5;
-        let h12 = (B2[1] + B1[2]) * 0.5;
+        let h01 = (B1[0] + B0[1]) * (-0.5);
+        let h02 = (B2[0] + B0[2]) * (-0.5);
+        let h12 = (B2[1] + B1[2]) * (-0.5);
 
         let detH =
             -(h02 * h02 * h11) + (h01 * h02 * h12) * 2.0 - (h00 * h12 * h12) - (h01 * h01 * h22) + (h00 * h11 * h22);
-- 
2.43.0


From 2274b04fc6d817565c8ab7f089e0bf860f9fa743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:36 +0000
Subject: [PATCH 18/22] fix: containment and intersection of empty and
 degenerate convex polygons

---
 fenris-geometry/src/polytope.rs        | 21 +++++++++++----------
 fenris-geometry/src/primitives/line.rs |  3 +++
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/fenris-geometry/src/polytope.rs b/fenris-geometry/src/polytope.rs
index 2cc654b..056b6f7 100644
--- a/fenris-geometry/src/polytope.rs
+++ b/fenris-geometry/src/polytope.rs
@@ -1,4 +1,4 @@
-use crate::{HalfPlane, Line2d, LineSegment2d, SimplePolygon2d, Triangle, Triangle2d};
+use crate::{AxisAlignedBoundingBox2d, HalfPlane, Line2d, LineSegment2d, SimplePolygon2d, Triangle, Triangle2d};
 use fenris_traits::Real;
 use itertools::Itertools;
 use nalgebra::{Point2, Scalar, Unit, Vector2};
@@ -96,14 +96,13 @@ where
 
     /// Determines if the (closed) convex polygon contains the given point.
     pub fn contains_point(&self, point: &Point2<T>) -> bool {
-        if self.is_point() {
-            self.vertices.first().unwrap() == point
-        } else if self.is_line_segment() {
-            unimplemented!()
-        } else {
-            self.half_planes()
-                .all(|half_plane| half_plane.contains_point(point))
-        }
+        // The half planes alone do not describe polygons that are empty or degenerate to a point or a line segment
+        // (possibly with repeated vertices), but together with the bounding box they do
+        self.half_planes()
+            .all(|half_plane| half_plane.contains_point(point))
+            && AxisAlignedBoundingBox2d::from_points(&self.vertices)
+                .map(|bounding_box| bounding_box.contains_point(point))
+                .unwrap_or(false)
     }
 
     /// Computes the intersection with the current polygon and the given half plane,
@@ -151,7 +150,9 @@ where
     /// Computes the intersection of this polygon and the given convex polygon.
     pub fn intersect_polygon(&self, other: &ConvexPolygon<T>) -> Self {
         // TODO: Deal with degeneracies
-        if self.is_point() || other.is_point() {
+        if self.is_empty() || other.is_empty() {
+            ConvexPolygon::from_vertices(Vec::new())
+        } else if self.is_point() || other.is_point() {
             unimplemented!()
         } else if self.is_line_segment() {
             let segment = LineSegment2d::from_end_points(self.vertices[0], self.vertices[1]);
diff --git a/fenris-geometry/src/primitives/line.rs b/fenris-geometry/src/primitives/line.rs
index 5dc411c..03a068b 100644
--- a/fenris-geometry/src/primitives/line.rs
+++ b/fenris-geometry/src/primitives/line.rs
@@ -260,6 +260,9 @@ where
     }
 
     pub fn intersect_polygon(&self, other: &ConvexPolygon<T>) -> Option<LineSegment2d<T>> {
+        if other.is_empty() {
+            return None;
+        }
         let mut result = self.clone();
         for half_plane in other.half_planes() {
             result = result.intersect_half_plane(&half_plane)?;
-- 
2.43.0


From e9ed77fde39a5dadd495bd4422c3b41453639947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:36 +0000
Subject: [PATCH 19/22] fix: no element or cell for vertex indices which are
 out of bounds

---
 src/connectivity.rs          | 8 ++++----
 src/element/quadrilateral.rs | 2 +-
 src/element/segment.rs       | 8 ++++----
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/connectivity.rs b/src/connectivity.rs
index 1e9e54c..0299ef8 100644
--- a/src/connectivity.rs
+++ b/src/connectivity.rs
@@ -562,7 +562,7 @@ where
     fn cell(&self, vertices: &[Point3<T>]) -> Option<Self::Cell> {
         let mut tet_vertices = [Point3::origin(); 4];
         for (tet_v, idx) in izip!(&mut tet_vertices, &self.0) {
-            *tet_v = vertices[*idx];
+            *tet_v = *vertices.get(*idx)?;
         }
         Some(Tetrahedron::from_vertices(tet_vertices))
     }
@@ -653,7 +653,7 @@ where
     fn cell(&self, vertices: &[Point3<T>]) -> Option<Self::Cell> {
         let mut hex_vertices = [Point3::origin(); 8];
         for (v, idx) in izip!(&mut hex_vertices, &self.0) {
-            *v = vertices[*idx];
+            *v = *vertices.get(*idx)?;
         }
         Some(Hexahedron::from_vertices(hex_vertices))
     }
@@ -716,7 +716,7 @@ where
         let mut hex_vertices = [Point3::origin(); 8];
         // The first 8 vertices are the same as the linear hex element
         for (v, idx) in izip!(&mut hex_vertices, &self.0) {
-            *v = vertices[*idx];
+            *v = *vertices.get(*idx)?;
         }
         Some(Hexahedron::from_vertices(hex_vertices))
     }
@@ -782,7 +782,7 @@ where
         let mut hex_vertices = [Point3::origin(); 8];
         // The first 8 vertices are the same as the linear hex element
         for (v, idx) in izip!(&mut hex_vertices, &self.0) {
-            *v = vertices[*idx];
+            *v = *vertices.get(*idx)?;
         }
         Some(Hexahedron::from_vertices(hex_vertices))
     }
diff --git a/src/element/quadrilateral.rs b/src/element/quadrilateral.rs
index ddefbc9..f73710c 100644
--- a/src/element/quadrilateral.rs
+++ b/src/element/quadrilateral.rs
@@ -373,7 +373,7 @@ where
         let mut vertices_array: [Point2<T>; 9] = [Point2::origin(); 9];
 
         for (v, global_index) in vertices_array.iter_mut().zip(indices) {
-            *v = vertices[*global_index];
+            *v = *vertices.get(*global_index)?;
         }
 
         Some(Quad9d2Element::from_vertices(vertices_array))
diff --git a/src/element/segment.rs b/src/element/segment.rs
index 6474c7d..9e15a03 100644
--- a/src/element/segment.rs
+++ b/src/element/segment.rs
@@ -200,8 +200,8 @@ where
     type GeometryDim = U2;
 
     fn element(&self, vertices: &[Point2<T>]) -> Option<Self::Element> {
-        let a = vertices[self.0[0]].clone();
-        let b = vertices[self.0[1]].clone();
+        let a = vertices.get(self.0[0])?.clone();
+        let b = vertices.get(self.0[1])?.clone();
         let segment = LineSegment2d::from_end_points(a, b);
         Some(Segment2d2Element::from(segment))
     }
@@ -216,8 +216,8 @@ where
     type ReferenceDim = U1;
 
     fn element(&self, vertices: &[Point1<T>]) -> Option<Self::Element> {
-        let a = vertices[self.0[0]].clone();
-        let b = vertices[self.0[1]].clone();
+        let a = vertices.get(self.0[0])?.clone();
+        let b = vertices.get(self.0[1])?.clone();
         Some(Segment2d1Element::from_vertices([a, b]))
     }
 }
-- 
2.43.0


From 7601ae0def8ffd1d790520015e9ffef1a1bf890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:36 +0000
Subject: [PATCH 20/22] fix: report failure of the projection to reference
 coordinates instead of iterating forever

---
 src/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/element.rs b/src/element.rs
index b9f650a..d617ec3 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -450,7 +450,7 @@ where
         // TODO: Should better handle degenerate/problematic cases. For now we just want to
         // avoid infinite loops
         if iter > 1000 {
-            eprintln!("Exceeded 1000 iterations for project_physical_coordinates");
+            return Err(Box::from("Exceeded 1000 iterations for project_physical_coordinates"));
         }
     }
 
-- 
2.43.0


From 51e9c95282764bcae197730aaa3000de68ad95cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:36 +0000
Subject: [PATCH 21/22] fix: refuse polyhedral cells with non-triangular faces
 in the conversion to tetrahedra

---
 src/mesh_convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh_convert.rs b/src/mesh_convert.rs
index 7942fbe..a895312 100644
--- a/src/mesh_convert.rs
+++ b/src/mesh_convert.rs
@@ -585,7 +585,7 @@ where
         };
 
         for (cell_idx, cell) in poly_mesh.cell_connectivity_iter().enumerate() {
-            if cell.len() == 4 {
+            if cell.len() == 4 && cell.iter().all(|&idx| get_face(idx).len() == 3) {
                 // We construct a tetrahedron by taking the first face
                 // (which becomes the base of the tetrahedron) and then
                 // finding the remaining apex vertex which is not referenced by the other faces,
-- 
2.43.0


From 3dcb3e9a36589705bff3fc16c0ff34b137ec01cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:45 +0000
Subject: [PATCH 22/22] fix: report failure of Newton's method when the
 residual is not a number

---
 fenris-optimize/src/newton.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/fenris-optimize/src/newton.rs b/fenris-optimize/src/newton.rs
index 00da70b..efd4175 100644
--- a/fenris-optimize/src/newton.rs
+++ b/fenris-optimize/src/newton.rs
@@ -97,7 +97,20 @@ where
 
     let mut iter = 0;
 
-    while f.norm() > settings.tolerance {
+    loop {
+        let f_norm = f.norm();
+        if f_norm <= settings.tolerance {
+            break;
+        }
+
+        // The residual is not a number, so that further iterations (which involve the residual) are futile
+        if f_norm.partial_cmp(&settings.tolerance).is_none() {
+            return Err(NewtonError::JacobianError(Box::from(format!(
+                "The residual is not a number at iteration {}.",
+                iter
+            ))));
+        }
+
         if settings
             .max_iterations
             .map(|max_iter| iter == max_iter)
-- 
2.43.0

