From e3125c169f620783fbda1653bd5fa0e9e97b77e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 01/42] fix: evaluate determinants relative to a vertex

Orientation, in-circle, area and circumcenter used absolute coordinates, so
rounding made them wrong for small shapes away from the origin.
---
 src/properties/area.rs         |  5 ++---
 src/properties/circumcenter.rs |  9 +++++----
 src/properties/continence.rs   | 17 ++++++++---------
 src/properties/orientation.rs  |  5 ++---
 4 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/properties/area.rs b/src/properties/area.rs
index e15661f..0cde8d3 100644
--- a/src/properties/area.rs
+++ b/src/properties/area.rs
@@ -1,5 +1,4 @@
 use crate::elements::vertex::*;
-use nalgebra::Matrix3;
 use std::rc::Rc;
 
 pub fn area_segments(segments_list: &Vec<(Rc<Vertex>, Rc<Vertex>)>) -> f64 {
@@ -18,8 +17,8 @@ pub fn area_triangle(v1: &Vertex, v2: &Vertex, v3: &Vertex) -> f64 {
     let x3 = v3.x;
     let y3 = v3.y;
 
-    let matrix = Matrix3::new(x1, y1, 1.0, x2, y2, 1.0, x3, y3, 1.0);
-    return matrix.determinant() / 2.0;
+    /* Relative to v1, so that the result does not degrade away from the origin */
+    return ((x2 - x1) * (y3 - y1) - (y2 - y1) * (x3 - x1)) / 2.0;
 }
 
 #[cfg(test)]
diff --git a/src/properties/circumcenter.rs b/src/properties/circumcenter.rs
index 8ab06c4..a0181bb 100644
--- a/src/properties/circumcenter.rs
+++ b/src/properties/circumcenter.rs
@@ -27,15 +27,16 @@ pub fn circumcenter(v1: &Vertex, v2: &Vertex, v3: &Vertex) -> Option<Vertex> {
 
     let matrix_a_inv = matrix_a.try_inverse().unwrap();
 
+    /* Relative to v1, so that the result does not degrade away from the origin */
     let matrix_b = Matrix2x1::new(
-        x3.powi(2) - x1.powi(2) + y3.powi(2) - y1.powi(2),
-        x2.powi(2) - x1.powi(2) + y2.powi(2) - y1.powi(2),
+        (x3 - x1).powi(2) + (y3 - y1).powi(2),
+        (x2 - x1).powi(2) + (y2 - y1).powi(2),
     );
 
     let center_matrix = 0.5 * matrix_a_inv * matrix_b;
 
-    let xc = center_matrix[0];
-    let yc = center_matrix[1];
+    let xc = x1 + center_matrix[0];
+    let yc = y1 + center_matrix[1];
 
     return Some(Vertex::new(xc, yc));
 }
diff --git a/src/properties/continence.rs b/src/properties/continence.rs
index 5d8767a..af01892 100644
--- a/src/properties/continence.rs
+++ b/src/properties/continence.rs
@@ -2,8 +2,6 @@ extern crate nalgebra;
 
 use crate::elements::vertex::*;
 
-use nalgebra::Matrix4;
-
 #[derive(PartialEq, Debug)]
 pub enum Continence {
     Inside,
@@ -22,13 +20,14 @@ pub enum BoundaryInclusion {
  * Vertices a, b and c must be in counterclockwise order.
  */
 pub fn continence(a: &Vertex, b: &Vertex, c: &Vertex, d: &Vertex) -> Continence {
-    let matrix = Matrix4::new(
-        a.x, a.y, a.x.powi(2) + a.y.powi(2), 1.0,
-        b.x, b.y, b.x.powi(2) + b.y.powi(2), 1.0,
-        c.x, c.y, c.x.powi(2) + c.y.powi(2), 1.0,
-        d.x, d.y, d.x.powi(2) + d.y.powi(2), 1.0,
-    );
-    let det = matrix.determinant();
+    /* Relative to d, so that the result does not degrade away from the origin */
+    let (ax, ay) = (a.x - d.x, a.y - d.y);
+    let (bx, by) = (b.x - d.x, b.y - d.y);
+    let (cx, cy) = (c.x - d.x, c.y - d.y);
+
+    let det = (ax * ax + ay * ay) * (bx * cy - cx * by)
+        + (bx * bx + by * by) * (cx * ay - ax * cy)
+        + (cx * cx + cy * cy) * (ax * by - bx * ay);
 
     if float_cmp::approx_eq!(f64, det, 0.0, epsilon = 1.0E-14f64) {
         return Continence::Boundary;
diff --git a/src/properties/orientation.rs b/src/properties/orientation.rs
index 37fa199..2058855 100644
--- a/src/properties/orientation.rs
+++ b/src/properties/orientation.rs
@@ -3,7 +3,6 @@ extern crate float_cmp;
 extern crate nalgebra;
 
 use crate::elements::vertex::*;
-use nalgebra::Matrix3;
 
 #[derive(PartialEq, Debug)]
 pub enum Orientation {
@@ -17,8 +16,8 @@ pub enum Orientation {
  * in the circumcircle they define.
  */
 pub fn orientation(a: &Vertex, b: &Vertex, c: &Vertex) -> Orientation {
-    let matrix = Matrix3::new(a.x, a.y, 1.0, b.x, b.y, 1.0, c.x, c.y, 1.0);
-    let det: f64 = matrix.determinant();
+    /* Relative to a, so that the result does not degrade away from the origin */
+    let det: f64 = (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x);
 
     if float_cmp::approx_eq!(f64, det, 0.0, epsilon = 1.0E-14f64) {
         return Orientation::Colinear;
-- 
2.43.0


From 273c213b62a6bd23aa5dcedd83776920e3f888a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:15 +0000
Subject: [PATCH 02/42] fix: return end vertices exactly when segments touch at
 them

The matrix inverse left intersections off the segments by a few ulps, so a
touching end vertex was reported as another, nearly equal one.
---
 src/properties/intersection.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/properties/intersection.rs b/src/properties/intersection.rs
index 6e1244a..84fffe9 100644
--- a/src/properties/intersection.rs
+++ b/src/properties/intersection.rs
@@ -5,6 +5,7 @@ extern crate nalgebra;
 
 use crate::elements::bounding_box::*;
 use crate::elements::vertex::*;
+use crate::properties::orientation::*;
 
 use nalgebra::{Matrix2, Matrix2x1};
 use std::rc::Rc;
@@ -109,12 +110,23 @@ fn intersection_vertex(
         return None;
     }
 
-    let matrix_a_inv = matrix_a.try_inverse().unwrap();
+    /* A vertex that lies on the other line is the intersection itself */
+    for vertex in [v1, v2].iter() {
+        if orientation(v3, v4, vertex) == Orientation::Colinear {
+            return Some(Vertex::new(vertex.x, vertex.y));
+        }
+    }
+    for vertex in [v3, v4].iter() {
+        if orientation(v1, v2, vertex) == Orientation::Colinear {
+            return Some(Vertex::new(vertex.x, vertex.y));
+        }
+    }
 
-    let intersection_matrix = matrix_a_inv * matrix_b;
+    let t = ((x3 - x1) * (y4 - y3) - (y3 - y1) * (x4 - x3))
+        / ((x2 - x1) * (y4 - y3) - (y2 - y1) * (x4 - x3));
 
-    let intersection_x = intersection_matrix[0];
-    let intersection_y = intersection_matrix[1];
+    let intersection_x = x1 + t * (x2 - x1);
+    let intersection_y = y1 + t * (y2 - y1);
 
     return Some(Vertex::new(intersection_x, intersection_y));
 }
-- 
2.43.0


From cd17834c0b7efc9855c9eb22b38a05f9db650759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 03/42] fix: angle of straight vertices is not NaN

---
 src/properties/angle.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/properties/angle.rs b/src/properties/angle.rs
index 88a0ee8..068877a 100644
--- a/src/properties/angle.rs
+++ b/src/properties/angle.rs
@@ -14,7 +14,8 @@ pub fn angle(a: &Vertex, b: &Vertex, c: &Vertex) -> Option<f64> {
     let bc: Vector2<f64> = Vector2::new(c.x - b.x, c.y - b.y);
 
     let cos_theta = ba.dot(&bc) / (ba.norm() * bc.norm());
-    let theta = cos_theta.acos();
+    /* rounding must not push a straight angle out of the domain */
+    let theta = cos_theta.max(-1.0).min(1.0).acos();
 
     if orientation(a, b, c) == Orientation::Clockwise {
         return Some(2.0 * std::f64::consts::PI - theta);
-- 
2.43.0


From 7e9098edc33fb9ce964ac80236cf1b2831b876bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 04/42] fix: sort vertices by their x coordinates

---
 src/elements/vertex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/vertex.rs b/src/elements/vertex.rs
index a95cf75..4883dcd 100644
--- a/src/elements/vertex.rs
+++ b/src/elements/vertex.rs
@@ -122,7 +122,7 @@ impl Vertex {
     pub fn sort(vertex_list: &mut Vec<Rc<Vertex>>) {
         vertex_list.sort_by(|v1, v2| match v1.x.partial_cmp(&v2.x) {
             Some(Ordering::Equal) => v1.y.partial_cmp(&v2.y).unwrap(),
-            _ => v1.x.partial_cmp(&v2.y).unwrap(),
+            _ => v1.x.partial_cmp(&v2.x).unwrap(),
         });
     }
 }
-- 
2.43.0


From 45f6f77777df3253564444fe389447c48b6adf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 05/42] fix: hash -0.0 and 0.0 coordinates alike, as they are
 equal

---
 src/elements/vertex.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/elements/vertex.rs b/src/elements/vertex.rs
index 4883dcd..dc2f282 100644
--- a/src/elements/vertex.rs
+++ b/src/elements/vertex.rs
@@ -17,12 +17,13 @@ pub struct Vertex {
 
 impl Hash for Vertex {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        let (m, e, s) = Float::integer_decode(self.x);
+        /* adding zero turns -0.0 into 0.0, as both are the same coordinate */
+        let (m, e, s) = Float::integer_decode(self.x + 0.0);
         m.hash(state);
         e.hash(state);
         s.hash(state);
 
-        let (m, e, s) = Float::integer_decode(self.y);
+        let (m, e, s) = Float::integer_decode(self.y + 0.0);
         m.hash(state);
         e.hash(state);
         s.hash(state);
-- 
2.43.0


From 99a3c2224307803beb458a69b9d4fb1077c98bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 06/42] fix: hash equal triangles alike, whichever vertex they
 start at

---
 src/elements/triangle.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/elements/triangle.rs b/src/elements/triangle.rs
index d30539d..8482283 100644
--- a/src/elements/triangle.rs
+++ b/src/elements/triangle.rs
@@ -2,18 +2,32 @@ use crate::elements::{edge::*, polyline::*, vertex::*};
 use crate::properties::{area::*, circumcenter::*, continence::*, distance::*, orientation::*};
 
 use std::cmp::Eq;
+use std::collections::hash_map::DefaultHasher;
 use std::fmt;
 use std::fmt::Debug;
-use std::hash::Hash;
+use std::hash::{Hash, Hasher};
 use std::rc::Rc;
 
-#[derive(Hash, Debug)]
+#[derive(Debug)]
 pub struct Triangle {
     pub v1: Rc<Vertex>,
     pub v2: Rc<Vertex>,
     pub v3: Rc<Vertex>,
 }
 
+impl Hash for Triangle {
+    /* Equal triangles may start at different vertices, so the order of vertices must not matter. */
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        let mut sum: u64 = 0;
+        for vertex in [&self.v1, &self.v2, &self.v3].iter() {
+            let mut vertex_hasher = DefaultHasher::new();
+            vertex.hash(&mut vertex_hasher);
+            sum = sum.wrapping_add(vertex_hasher.finish());
+        }
+        sum.hash(state);
+    }
+}
+
 impl PartialEq for Triangle {
     fn eq(&self, other: &Self) -> bool {
         self.v1 == other.v1 && self.v2 == other.v2 && self.v3 == other.v3
-- 
2.43.0


From af2ffabee8c6a55b999c07be52cf26f9ee5c9cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 07/42] fix: no union for polylines that only overlap their
 bounding boxes

---
 src/elements/polyline.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 4592e97..169414c 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -402,6 +402,17 @@ impl Polyline {
             return None;
         }
 
+        /* overlapping bounding boxes do not imply intersection */
+        let begins_inside = |inner: &Self, outer: &Self| {
+            outer.contains(inner.vertices.first().unwrap()) == Some(Continence::Inside)
+        };
+        if Self::intersection_vertices(p1, p2).is_empty()
+            && !begins_inside(p1, p2)
+            && !begins_inside(p2, p1)
+        {
+            return None;
+        }
+
         /* splits segments at the beginning makes it easy to avoid outer boundary  */
         let p1_segments = vertex_pairs(&p1.vertices, p1.opened);
         let p2_segments = vertex_pairs(&p2.vertices, p2.opened);
-- 
2.43.0


From 5d56851c990e4a2d9885feb960ee40a4a1702d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:23 +0000
Subject: [PATCH 08/42] fix: evaluate continence at the tail vertex and at
 touching vertices

The last vertex of an opened polyline was never evaluated, and a vertex
touching an edge was noticed only at its midpoint.
---
 src/elements/polyline.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 169414c..4e3994f 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -719,7 +719,7 @@ impl Polyline {
         for critial_vertex in p2
             .into_edges()
             .iter()
-            .map(|e| vec![Rc::new(e.midpoint()), Rc::clone(&e.v1)])
+            .map(|e| vec![Rc::new(e.midpoint()), Rc::clone(&e.v1), Rc::clone(&e.v2)])
             .flatten()
         {
             let continence = p1.contains(&critial_vertex).unwrap();
@@ -738,6 +738,13 @@ impl Polyline {
             }
         }
 
+        /* a vertex of p1 may touch p2 anywhere along its edges */
+        for edge in p2.into_edges().iter() {
+            if p1.vertices.iter().any(|v| edge.contains(v)) {
+                possible_boundary = BoundaryInclusion::Closed;
+            }
+        }
+
         let p1_pairs = vertex_pairs(&p1.vertices, p1.opened);
         let p2_pairs = vertex_pairs(&p2.vertices, p2.opened);
 
-- 
2.43.0


From b6a22c2c2d473bdbe7f10850254e3eebdf85fac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 09/42] fix: a vertex does not conflict with triangles behind a
 segment constraint

---
 .../triangulation_procedures/vertices.rs      | 59 +++++++++++++++++--
 1 file changed, 55 insertions(+), 4 deletions(-)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index ea0780a..25098da 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -1,6 +1,6 @@
 use crate::elements::{edge::*, polyline::*, triangle::*, vertex::*};
 use crate::planar::{triangulation::*, triangulation_procedures};
-use crate::properties::continence::*;
+use crate::properties::{continence::*, intersection::*};
 
 use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
@@ -27,10 +27,11 @@ pub fn include(
         if vertices.is_empty() {
             break;
         }
-        distribute_conflicts(
+        distribute_visible_conflicts(
             possible_triangle,
             &mut conflict_map,
             &mut vertices,
+            segment_constraints,
             boundary,
             holes,
         );
@@ -173,10 +174,11 @@ pub fn solve_conflicts(
                 triangulation.include_triangle(&new_triangle);
                 included_triangles.insert(Rc::clone(&new_triangle));
 
-                distribute_conflicts(
+                distribute_visible_conflicts(
                     &new_triangle,
                     conflict_map,
                     remaining_vertices,
+                    segment_constraints,
                     boundary,
                     holes,
                 );
@@ -198,6 +200,28 @@ fn distribute_conflicts(
     vertices: &mut Vec<Rc<Vertex>>,
     boundary: &Option<Rc<Polyline>>,
     holes: &HashSet<Rc<Polyline>>,
+) {
+    distribute_visible_conflicts(
+        triangle,
+        conflict_map,
+        vertices,
+        &HashSet::new(),
+        boundary,
+        holes,
+    );
+}
+
+/**
+ * Distributes conflicts, as above, avoiding those between a triangle and a
+ * vertex separated by a segment constraint.
+ */
+fn distribute_visible_conflicts(
+    triangle: &Rc<Triangle>,
+    conflict_map: &mut HashMap<Rc<Triangle>, Vec<Rc<Vertex>>>,
+    vertices: &mut Vec<Rc<Vertex>>,
+    segment_constraints: &HashSet<Rc<Edge>>,
+    boundary: &Option<Rc<Polyline>>,
+    holes: &HashSet<Rc<Polyline>>,
 ) {
     let mut distributed_conflicts: Vec<Rc<Vertex>> = Vec::new();
 
@@ -207,7 +231,10 @@ fn distribute_conflicts(
 
         let may_insert = may_insert_triangle(&triangle, &pending_vertex, boundary, holes);
 
-        if has_conflict && may_insert {
+        if has_conflict
+            && may_insert
+            && is_visible(&triangle, &pending_vertex, segment_constraints)
+        {
             distributed_conflicts.push(pending_vertex);
             continue;
         }
@@ -261,6 +288,30 @@ pub fn distribute_conflicts_over_triangulation(
     }
 }
 
+/**
+ * Evaluates if no segment constraint separates the triangle from the vertex
+ */
+fn is_visible(
+    triangle: &Rc<Triangle>,
+    vertex: &Rc<Vertex>,
+    segment_constraints: &HashSet<Rc<Edge>>,
+) -> bool {
+    let center = Rc::new(triangle.center());
+
+    /* The center of a ghost triangle belongs to its own solid edge */
+    let is_own_edge = |e: &Edge| {
+        triangle.is_ghost()
+            && (e.v1 == triangle.v1 || e.v2 == triangle.v1)
+            && (e.v1 == triangle.v2 || e.v2 == triangle.v2)
+    };
+
+    return segment_constraints
+        .iter()
+        .filter(|e| !is_own_edge(e))
+        .filter_map(|e| intersection(&center, vertex, &e.v1, &e.v2))
+        .all(|obstacle| obstacle == **vertex);
+}
+
 /**
  * Evaluates if triangle is inside boudanry and outside holes
  */
-- 
2.43.0


From 6ff1b29fc0157b9e34be14dbe308b836f8531cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 10/42] fix: distribute vertices left without any conflicting
 triangle

A vertex released by a removed triangle was lost, if only triangles left
untouched conflicted with it.
---
 .../triangulation_procedures/vertices.rs      | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index 25098da..f369bb4 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -184,6 +184,26 @@ pub fn solve_conflicts(
                 );
             }
         } /* end - while pending edges */
+
+        /*
+            A vertex released by a removed triangle may conflict only with
+            triangles left untouched.
+        */
+        if conflict_map.is_empty() {
+            for triangle in triangulation.triangles.iter() {
+                if remaining_vertices.is_empty() {
+                    break;
+                }
+                distribute_visible_conflicts(
+                    triangle,
+                    conflict_map,
+                    remaining_vertices,
+                    segment_constraints,
+                    boundary,
+                    holes,
+                );
+            }
+        }
     } /* end - distributing vertices */
 
     return (included_triangles, removed_triangles);
-- 
2.43.0


From a5fbc1d304509381a63e32320f16d7cef2e93714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 11/42] fix: split again triangles that outlive the splits of
 encroached segments

---
 src/planar/refine_procedures/triangle_split.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/planar/refine_procedures/triangle_split.rs b/src/planar/refine_procedures/triangle_split.rs
index ab2a047..def9402 100644
--- a/src/planar/refine_procedures/triangle_split.rs
+++ b/src/planar/refine_procedures/triangle_split.rs
@@ -164,6 +164,15 @@ pub fn split_irregular(
                         large_triangles.remove(old_triangle);
                     }
                 }
+
+                /* Tries again, if the triangle outlives the splits */
+                if triangulation.triangles.contains(&triangle) {
+                    if is_irregular_triangle(&triangle, params) {
+                        irregular_triangles.insert(triangle);
+                    } else {
+                        large_triangles.insert(triangle);
+                    }
+                }
             }
         }
     }
-- 
2.43.0


From a339670d279a62c01d4094e4d8173659bbb368bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 12/42] fix: output coordinates in the order triangles refer to

---
 src/json_serializar/models/output.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/json_serializar/models/output.rs b/src/json_serializar/models/output.rs
index 17e1a76..5acd2c6 100644
--- a/src/json_serializar/models/output.rs
+++ b/src/json_serializar/models/output.rs
@@ -71,8 +71,8 @@ impl TriangulationOutput {
             id: input.id,
             name: input.name.clone(),
             date: input.date.clone(),
-            coordinates: vertices_map
-                .keys()
+            coordinates: vertices_vec
+                .iter()
                 .map(|v| point::Point::from_vertex(v))
                 .collect(),
             triangles: triangulator
-- 
2.43.0


From 6b74ef88ca05dca16ca517d1314b4bc42a091eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 13/42] fix: do not split a segment at its own end vertex

---
 src/planar/triangulator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index 8962f84..df32cea 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -155,6 +155,7 @@ impl Triangulator {
                 if &segment.v1 == vertex || &segment.v2 == vertex {
                     /* Ignore vertices if they are an end vertex */
                     self.vertices.remove(vertex);
+                    continue;
                 }
                 if segment.contains(vertex) {
                     /* splits segment if contained */
-- 
2.43.0


From 04199ed2bdd794ccd613f53f7f7ead6fc4ba4ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 14/42] fix: reject holes that surround an existing hole

---
 src/planar/triangulator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index df32cea..dd77d83 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -218,7 +218,12 @@ impl Triangulator {
             let is_hole_outside_existing_hole = Polyline::continence(existing_hole, hole)
                 == Some((Continence::Outside, BoundaryInclusion::Open));
 
-            if !is_hole_outside_existing_hole {
+            let surrounds_existing_hole = existing_hole
+                .vertices
+                .iter()
+                .any(|v| hole.contains(v) != Some(Continence::Outside));
+
+            if !is_hole_outside_existing_hole || surrounds_existing_hole {
                 conflicting_vertices = conflicting_vertices
                     .iter()
                     .chain(existing_hole.vertices.iter())
-- 
2.43.0


From f555f7d0865bf94c2be6943f458ae440bff47ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 15/42] fix: remove the vertices that belong to an inserted
 hole

---
 src/planar/triangulator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index dd77d83..5045a6e 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -251,6 +251,8 @@ impl Triangulator {
             return Err(conflicting_vertices);
         }
 
+        self.vertices
+            .retain(|v| hole.contains(v) == Some(Continence::Outside));
         self.holes.insert(Rc::clone(hole));
         return Ok(self);
     }
-- 
2.43.0


From 9caeb5498a09f57a99c9a565cb5eea8593c6ab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 16/42] fix: do not keep a removal united to an existing hole

---
 src/triangulator_interface/domain_evaluator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/triangulator_interface/domain_evaluator.rs b/src/triangulator_interface/domain_evaluator.rs
index 28edcad..bfd71e3 100644
--- a/src/triangulator_interface/domain_evaluator.rs
+++ b/src/triangulator_interface/domain_evaluator.rs
@@ -80,15 +80,19 @@ pub fn holes(boundary: &Rc<Polyline>, removes: &Vec<Rc<Polyline>>) -> HashSet<Rc
             continue;
         }
 
+        let mut was_united = false;
         for existing_hole in holes.iter().cloned() {
             if let Some((union, _)) = Polyline::union(&existing_hole, &possible_removal) {
                 holes.remove(&existing_hole);
                 removes.push(Rc::new(union));
+                was_united = true;
                 break;
             }
         }
 
-        holes.insert(possible_removal);
+        if !was_united {
+            holes.insert(possible_removal);
+        }
     }
 
     return holes;
-- 
2.43.0


From 3e81964bb21ba1a2037103744e82fca58a54b4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:34 +0000
Subject: [PATCH 17/42] fix: subtract removals that meet the boundary left by
 other removals

---
 .../domain_evaluator.rs                       | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/triangulator_interface/domain_evaluator.rs b/src/triangulator_interface/domain_evaluator.rs
index bfd71e3..9930624 100644
--- a/src/triangulator_interface/domain_evaluator.rs
+++ b/src/triangulator_interface/domain_evaluator.rs
@@ -40,18 +40,30 @@ pub fn boundary(
         return Err(());
     }
 
-    for possible_removal in removes.iter() {
-        let (subtraction_list, _) = Polyline::subtraction(&boundary, possible_removal);
-        
-        if subtraction_list.len() > 1 {
-            /* divided union in more than 1 */
-            return Err(());
+    /* A removal inside the domain may meet the boundary left by another removal */
+    let mut pending_removals: Vec<Rc<Polyline>> = removes.iter().cloned().collect();
+    loop {
+        let mut did_subtract = false;
+
+        for possible_removal in pending_removals.iter() {
+            let (subtraction_list, _) = Polyline::subtraction(&boundary, possible_removal);
+
+            if subtraction_list.len() > 1 {
+                /* divided union in more than 1 */
+                return Err(());
+            }
+            if subtraction_list.len() == 1 {
+                boundary = Rc::clone(subtraction_list.get(0).unwrap());
+                did_subtract = true;
+                continue;
+            }
+            unused_removals.push(Rc::clone(possible_removal));
         }
-        if subtraction_list.len() == 1 {
-            boundary = Rc::clone(subtraction_list.get(0).unwrap());
-            continue;
+
+        if !did_subtract {
+            break;
         }
-        unused_removals.push(Rc::clone(possible_removal));
+        pending_removals = unused_removals.drain(..).collect();
     }
 
     return Ok((boundary, unused_removals));
-- 
2.43.0


From adb8bb49fa6bb25d794ef80c867ebe8368bdb4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 18/42] fix: include segments by flipping the edges they cross

The cavity taken around the segment could be pinched or not simple, which
hung or panicked when its hull was arranged, or left out Delaunay triangles.
---
 .../triangulation_procedures/segment.rs       | 258 +++++++++++-------
 1 file changed, 159 insertions(+), 99 deletions(-)

diff --git a/src/planar/triangulation_procedures/segment.rs b/src/planar/triangulation_procedures/segment.rs
index c6efc8d..db8b14e 100644
--- a/src/planar/triangulation_procedures/segment.rs
+++ b/src/planar/triangulation_procedures/segment.rs
@@ -1,4 +1,4 @@
-use crate::elements::{edge::*, polyline::*, triangle::*, vertex::*};
+use crate::elements::{edge::*, triangle::*, vertex::*};
 use crate::planar::triangulation::*;
 use crate::properties::{continence::*, orientation::*};
 
@@ -9,121 +9,181 @@ use std::rc::Rc;
 
 /**
  * Includes Segment.
- * Takes all triangles that intercept the segment or whose circumcircle encircles
- * one of its end vertices, retriangulates the vertices of the triangle around the
- * segment having the segment as constraint. Reinserts the taken triangulation into
- * the main triangulation.
+ * Includes its end vertices, flips the edges that cross the segment until it
+ * becomes an edge of the triangulation, and then flips the remaining edges of the
+ * crossed region back to Delaunay, having the segment as constraint.
  */
 pub fn include(
     triangulation: &mut Triangulation,
     segment: &Rc<Edge>,
     segment_constraints: &HashSet<Rc<Edge>>,
 ) {
-    let conflicting_triangles: HashSet<Rc<Triangle>> = triangulation
-        .triangles
-        .iter()
-        .filter(|t| !t.is_ghost())
-        .filter(|triangle| {
-            let polyline = triangle.as_polyline().unwrap();
-            let segment_polyline = segment.as_polyline().unwrap();
-
-            let contains_segment = Polyline::continence(&polyline, &segment_polyline)
-                != Some((Continence::Outside, BoundaryInclusion::Open));
-
-            let conflicts_v1 = triangle.encircles(&segment.v1) != Continence::Outside;
-            let conflicts_v2 = triangle.encircles(&segment.v2) != Continence::Outside;
-
-            return conflicts_v1 || conflicts_v2 || contains_segment;
-        })
-        .filter(|triangle| {
-            let (e1, e2, e3) = triangle.outer_edges();
-            let is_constrained = vec![e1, e2, e3]
-                .iter()
-                .filter(|&edge| {
-                    segment_constraints.contains(edge)
-                        || segment_constraints.contains(&edge.opposite())
-                })
-                .fold(false, |acc, edge| {
-                    if acc == true {
-                        return true;
-                    }
-                    let faces_v1 = orientation(&edge.v1, &edge.v2, &segment.v1)
-                        == Orientation::Counterclockwise;
-                    let faces_v2 = orientation(&edge.v1, &edge.v2, &segment.v2)
-                        == Orientation::Counterclockwise;
-
-                    return faces_v1 || faces_v2;
-                });
-            return !is_constrained;
-        })
-        .cloned()
-        .collect();
+    triangulation_procedures::vertices::include(
+        triangulation,
+        vec![Rc::clone(&segment.v1), Rc::clone(&segment.v2)],
+        segment_constraints,
+        &None,
+        &HashSet::new(),
+    );
 
-    // Uncomment to debug
-    // println!("\n\nSolid Triangles");
-    // for t in triangulation.triangles.iter().filter(|t| !t.is_ghost()) {
-    //     println!("{}", t);
-    // }
-    // println!("\nConflicting Triangles against {}", segment);
-    // for t in conflicting_triangles.iter() {
-    //     println!("{}", t);
-    // }
-
-    for conflicting_triangle in conflicting_triangles.iter() {
-        triangulation.remove_triangle(conflicting_triangle);
+    let mut pending_segments: Vec<Rc<Edge>> = vec![Rc::clone(segment)];
+    while let Some(pending_segment) = pending_segments.pop() {
+        match crossings(triangulation, &pending_segment) {
+            Crossings::Edges(crossed_edges) => {
+                flip_crossed_edges(triangulation, &pending_segment, crossed_edges);
+            }
+            Crossings::Vertex(vertex) => {
+                pending_segments.push(Rc::new(Edge::new(&pending_segment.v1, &vertex)));
+                pending_segments.push(Rc::new(Edge::new(&vertex, &pending_segment.v2)));
+            }
+            Crossings::Outside => {}
+        }
     }
+} /* end - include segment */
 
-    let triangles_boundary: Rc<Polyline> =
-        Rc::new(Polyline::triangles_hull(&conflicting_triangles).unwrap());
+/**
+ * What a segment finds on its way from an end vertex to the other
+ */
+enum Crossings {
+    /* Crossed edges, none if the segment is already an edge */
+    Edges(Vec<Rc<Edge>>),
+    /* Vertex lying on the segment */
+    Vertex(Rc<Vertex>),
+    /* The segment leaves the triangulated region */
+    Outside,
+}
+
+fn crossings(triangulation: &Triangulation, segment: &Rc<Edge>) -> Crossings {
+    let mut crossed_edges: Vec<Rc<Edge>> = Vec::new();
+
+    if triangulation.adjacency.contains_key(segment)
+        || triangulation
+            .adjacency
+            .contains_key(&Rc::new(segment.opposite()))
+    {
+        return Crossings::Edges(crossed_edges);
+    }
 
-    let conflicting_vertices: HashSet<Rc<Vertex>> = conflicting_triangles
-        .iter()
-        .map(|triangle| {
-            vec![
-                Rc::clone(&triangle.v1),
-                Rc::clone(&triangle.v2),
-                Rc::clone(&triangle.v3),
-            ]
-        })
-        .flatten()
-        .collect();
+    let (v1, v2) = (&segment.v1, &segment.v2);
+
+    /* First edge crossed, it is opposite to the first end vertex */
+    let mut next_edge: Option<Rc<Edge>> = None;
+    for triangle in triangulation.triangles.iter().filter(|t| !t.is_ghost()) {
+        if let Some(edge) = triangle.opposite_edge(v1) {
+            for vertex in vec![&edge.v1, &edge.v2] {
+                if segment.contains(vertex) {
+                    return Crossings::Vertex(Rc::clone(vertex));
+                }
+            }
+            if orientation(v1, v2, &edge.v1) == Orientation::Clockwise
+                && orientation(v1, v2, &edge.v2) == Orientation::Counterclockwise
+            {
+                next_edge = Some(edge);
+            }
+        }
+    }
 
-    let mut segment_triangulation = Triangulation::from_initial_segment((&segment.v1, &segment.v2));
+    while let Some(edge) = next_edge {
+        let edge = Rc::new(edge.opposite());
+        let triangle = match triangulation.adjacency.get(&edge) {
+            Some(triangle) if !triangle.is_ghost() => triangle,
+            _ => return Crossings::Outside,
+        };
+        let vertex = triangle.opposite_vertex(&edge).unwrap();
+        crossed_edges.push(Rc::clone(&edge));
+
+        if vertex == *v2 {
+            return Crossings::Edges(crossed_edges);
+        }
 
-    let new_segment_constraint: HashSet<Rc<Edge>> =
-        vec![Rc::clone(&segment)].iter().cloned().collect();
+        next_edge = match orientation(v1, v2, &vertex) {
+            Orientation::Colinear => return Crossings::Vertex(vertex),
+            Orientation::Clockwise => Some(Rc::new(Edge::new(&vertex, &edge.v1))),
+            Orientation::Counterclockwise => Some(Rc::new(Edge::new(&edge.v2, &vertex))),
+        };
+    }
 
-    triangulation_procedures::boundary::include(
-        &mut segment_triangulation,
-        &triangles_boundary,
-        &new_segment_constraint,
-    );
+    return Crossings::Outside;
+}
 
-    triangulation_procedures::vertices::include(
-        &mut segment_triangulation,
-        conflicting_vertices.iter().cloned().collect(),
-        &new_segment_constraint,
-        &Some(Rc::clone(&triangles_boundary)),
-        &HashSet::new(),
-    );
-
-    let new_solid_triangles: HashSet<Rc<Triangle>> = segment_triangulation
-        .triangles
-        .iter()
-        .filter(|t| !t.is_ghost())
-        .cloned()
-        .collect();
+fn flip_crossed_edges(
+    triangulation: &mut Triangulation,
+    segment: &Rc<Edge>,
+    crossed_edges: Vec<Rc<Edge>>,
+) {
+    let (v1, v2) = (&segment.v1, &segment.v2);
+    let mut crossed_edges = crossed_edges;
+    let mut new_edges: Vec<Rc<Edge>> = Vec::new();
+
+    while !crossed_edges.is_empty() {
+        let edge = crossed_edges.remove(0);
+        match flip(triangulation, &edge, |_| true) {
+            None => crossed_edges.push(edge),
+            Some(new_edge) => {
+                let o1 = orientation(v1, v2, &new_edge.v1);
+                let o2 = orientation(v1, v2, &new_edge.v2);
+                let is_touching = vec![v1, v2]
+                    .iter()
+                    .any(|&v| *v == new_edge.v1 || *v == new_edge.v2);
+
+                if !is_touching && o1 != o2 {
+                    crossed_edges.push(new_edge);
+                } else {
+                    new_edges.push(new_edge);
+                }
+            }
+        }
+    }
 
-    // Uncomment to debug
-    // println!("\nNew Solid Triangles");
-    // for t in new_solid_triangles.iter() {
-    //     println!("{}", t);
-    // }
+    /* Restores Delaunay, each edge flips at most once with every other */
+    new_edges.retain(|e| *e != *segment && *e != Rc::new(segment.opposite()));
+    for _ in 0..new_edges.len() * new_edges.len() {
+        let mut has_flipped = false;
+        for edge in new_edges.iter_mut() {
+            let is_encircled = |(triangle, vertex): (&Rc<Triangle>, &Rc<Vertex>)| {
+                triangle.encircles(vertex) == Continence::Inside
+            };
+            if let Some(new_edge) = flip(triangulation, edge, is_encircled) {
+                *edge = new_edge;
+                has_flipped = true;
+            }
+        }
+        if !has_flipped {
+            break;
+        }
+    }
+}
 
-    for new_triangle in new_solid_triangles.iter() {
-        triangulation.include_triangle(new_triangle);
+/**
+ * Replaces the edge between two triangles by the other diagonal of the
+ * quadrilateral they form, as long as it is strictly convex and the given
+ * condition holds for one of the triangles and the vertex opposite to it.
+ */
+fn flip(
+    triangulation: &mut Triangulation,
+    edge: &Rc<Edge>,
+    should_flip: impl Fn((&Rc<Triangle>, &Rc<Vertex>)) -> bool,
+) -> Option<Rc<Edge>> {
+    let opposite = Rc::new(edge.opposite());
+    let t1 = Rc::clone(triangulation.adjacency.get(edge)?);
+    let t2 = Rc::clone(triangulation.adjacency.get(&opposite)?);
+    let v1 = t1.opposite_vertex(edge)?;
+    let v2 = t2.opposite_vertex(&opposite)?;
+
+    let is_convex = orientation(&v1, &edge.v1, &v2) == Orientation::Counterclockwise
+        && orientation(&v2, &edge.v2, &v1) == Orientation::Counterclockwise;
+
+    if !is_convex || !should_flip((&t1, &v2)) {
+        return None;
     }
-} /* end - include segment */
+
+    triangulation.remove_triangle(&t1);
+    triangulation.remove_triangle(&t2);
+    triangulation.include_triangle(&Rc::new(Triangle::new(&v1, &edge.v1, &v2)));
+    triangulation.include_triangle(&Rc::new(Triangle::new(&v2, &edge.v2, &v1)));
+
+    return Some(Rc::new(Edge::new(&v1, &v2)));
+}
 
 #[cfg(test)]
 mod include_segment {
-- 
2.43.0


From 77d3fed12f3573717e1db4a61d49d69041461c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 19/42] fix: arrange only edges that close a loop, without
 walking forever

---
 src/elements/polyline.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 4e3994f..213c3d6 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -91,20 +91,21 @@ impl Polyline {
             hash_edges.insert(Rc::clone(&edge.v1), Rc::clone(&edge.v2));
         }
 
-        let head: Rc<Vertex> = Rc::clone(hash_edges.keys().next().unwrap());
+        let head: Rc<Vertex> = Rc::clone(hash_edges.keys().next()?);
         let mut tail: Rc<Vertex> = Rc::clone(&head);
         arranged_vertices.push(Rc::clone(&head));
 
+        /* walks until it returns to the head, unless it can not */
         loop {
-            if let Some(next) = hash_edges.get(&tail) {
-                if next == &head {
-                    break;
-                }
-                arranged_vertices.push(Rc::clone(next));
-                tail = Rc::clone(next);
-                continue;
+            let next = hash_edges.get(&tail)?;
+            if next == &head {
+                break;
+            }
+            if arranged_vertices.len() == edges.len() {
+                return None;
             }
-            break;
+            arranged_vertices.push(Rc::clone(next));
+            tail = Rc::clone(next);
         }
 
         if arranged_vertices.len() == edges.len() {
-- 
2.43.0


From 1a31d2786b4e8d5d82573dbe5924e44e9caebaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 20/42] fix: include boundary edges missing from the
 triangulation of its vertices

Non convex boundaries lost, or kept outside of them, triangles whenever an
edge was missing.
---
 .../triangulation_procedures/boundary.rs      | 25 +++++++------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/planar/triangulation_procedures/boundary.rs b/src/planar/triangulation_procedures/boundary.rs
index d7b9639..bbd4e6a 100644
--- a/src/planar/triangulation_procedures/boundary.rs
+++ b/src/planar/triangulation_procedures/boundary.rs
@@ -31,22 +31,15 @@ pub fn include(
     );
 
     /* Inserts missing segments */
-    // let existing_segments: HashSet<Rc<Edge>> = triangulation.edges();
-    // let missing_segments: HashSet<Rc<Edge>> = boundary_segments
-    //     .iter()
-    //     .filter(|&e| !existing_segments.contains(e))
-    //     .cloned()
-    //     .collect();
-
-    // let segment_contraints = segment_constraints
-    //     .iter()
-    //     .chain(boundary_segments.iter())
-    //     .cloned()
-    //     .collect();
-
-    // for segment in missing_segments.iter() {
-    //     Self::include_segment(triangulation, segment, &segment_contraints);
-    // }
+    let constraints: HashSet<Rc<Edge>> = segment_constraints
+        .iter()
+        .chain(boundary_segments.iter())
+        .cloned()
+        .collect();
+
+    for segment in boundary_segments.iter() {
+        triangulation_procedures::segment::include(triangulation, segment, &constraints);
+    }
 
     /* Inserting outer hole */
     let mut pending_edges: Vec<Rc<Edge>> = Vec::new();
-- 
2.43.0


From b5077683816f2543a5cbb2f3b1354ef0ae9e305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:45 +0000
Subject: [PATCH 21/42] fix: evaluate triangles against every hole, not only
 the last one

---
 src/planar/triangulation_procedures/vertices.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index f369bb4..44997ca 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -367,7 +367,7 @@ fn may_insert_triangle(
 
     for hole in holes.iter() {
         if let Some((continence, _)) = Polyline::continence(&hole, &p2) {
-            is_outside_holes = continence != Continence::Inside;
+            is_outside_holes &= continence != Continence::Inside;
         } else {
             is_outside_holes = false;
         }
-- 
2.43.0


From bd82f1c1637498ac2b6b8ccd6764354de3acca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:47 +0000
Subject: [PATCH 22/42] fix: a vertex may encroach a pending half of the
 segment being split

---
 src/planar/refine_procedures/encroachment.rs | 24 ++++----------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/src/planar/refine_procedures/encroachment.rs b/src/planar/refine_procedures/encroachment.rs
index 469c39d..2d6cac9 100644
--- a/src/planar/refine_procedures/encroachment.rs
+++ b/src/planar/refine_procedures/encroachment.rs
@@ -112,28 +112,12 @@ pub fn unencroach_segment(
             .cloned()
             .collect();
 
-        let mut is_h1_encroached = false;
-        let mut is_h2_encroached = false;
-
-        for v in encroaching_vertices
+        let is_h1_encroached = encroaching_vertices
             .iter()
-            .cloned()
-            .collect::<HashSet<Rc<Vertex>>>()
+            .any(|v| h1.encroach(v) == Continence::Inside);
+        let is_h2_encroached = encroaching_vertices
             .iter()
-        {
-            let mut v_encroaches_any = false;
-            if h1.encroach(&v) == Continence::Inside {
-                is_h1_encroached = true;
-                v_encroaches_any = true;
-            }
-            if h2.encroach(&v) == Continence::Inside {
-                is_h2_encroached = true;
-                v_encroaches_any = true;
-            }
-            if !v_encroaches_any {
-                encroaching_vertices.remove(v);
-            }
-        }
+            .any(|v| h2.encroach(v) == Continence::Inside);
 
         if is_h1_encroached {
             pending_edges.push(h1);
-- 
2.43.0


From 7e4d6c86727be9c9f30e413c6d0d347ba5fa08b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:47 +0000
Subject: [PATCH 23/42] fix: split segments that get encroached while splitting
 others

Refinement left encroached segments, and triangles whose circumcenter lies
behind them out of the quality and area bounds, panicked or did not finish.
---
 src/planar/refine_procedures/encroachment.rs  | 84 +++++++++++++++++--
 .../refine_procedures/triangle_split.rs       | 59 ++++++-------
 2 files changed, 108 insertions(+), 35 deletions(-)

diff --git a/src/planar/refine_procedures/encroachment.rs b/src/planar/refine_procedures/encroachment.rs
index 2d6cac9..823392d 100644
--- a/src/planar/refine_procedures/encroachment.rs
+++ b/src/planar/refine_procedures/encroachment.rs
@@ -18,10 +18,6 @@ pub fn unencroach(
     HashSet<Rc<Triangle>>,
     HashSet<Rc<Triangle>>,
 ) {
-    let mut included_triangles: HashSet<Rc<Triangle>> = HashSet::new();
-    let mut removed_triangles: HashSet<Rc<Triangle>> = HashSet::new();
-
-    let mut split_map: HashMap<Rc<Edge>, Rc<Edge>> = HashMap::new();
     let mut encroach_map: HashMap<Rc<Edge>, HashSet<Rc<Vertex>>> = HashMap::new();
 
     distribute_encroachments(
@@ -30,6 +26,37 @@ pub fn unencroach(
         &mut encroach_map,
     );
 
+    return unencroach_segments(
+        triangulation,
+        &mut encroach_map,
+        segment_contraints,
+        boundary,
+        holes,
+    );
+}
+
+/**
+ * Splits the given encroached segments, and those that get encroached by the
+ * vertices included while splitting. Returns the segment that each new subsegment
+ * belongs to.
+ */
+pub fn unencroach_segments(
+    triangulation: &mut Triangulation,
+    encroach_map: &mut HashMap<Rc<Edge>, HashSet<Rc<Vertex>>>,
+    segment_contraints: &HashSet<Rc<Edge>>,
+    boundary: &Option<Rc<Polyline>>,
+    holes: &HashSet<Rc<Polyline>>,
+) -> (
+    HashMap<Rc<Edge>, Rc<Edge>>,
+    HashSet<Rc<Triangle>>,
+    HashSet<Rc<Triangle>>,
+) {
+    let mut included_triangles: HashSet<Rc<Triangle>> = HashSet::new();
+    let mut removed_triangles: HashSet<Rc<Triangle>> = HashSet::new();
+
+    let mut segments: HashSet<Rc<Edge>> = segment_contraints.iter().cloned().collect();
+    let mut split_map: HashMap<Rc<Edge>, Rc<Edge>> = HashMap::new();
+
     while !encroach_map.is_empty() {
         let encroached_edge = Rc::clone(encroach_map.keys().next().unwrap());
         let mut encroaching_vertices = encroach_map.remove(&encroached_edge).unwrap();
@@ -38,19 +65,26 @@ pub fn unencroach(
             triangulation,
             &encroached_edge,
             &mut encroaching_vertices,
-            segment_contraints,
+            &segments,
             boundary,
             holes,
         );
 
+        let origin = split_map
+            .remove(&encroached_edge)
+            .unwrap_or(Rc::clone(&encroached_edge));
+
+        segments.remove(&encroached_edge);
+        segments.remove(&Rc::new(encroached_edge.opposite()));
         for e in new_edges.iter() {
-            split_map.insert(Rc::clone(e), Rc::clone(&encroached_edge));
+            split_map.insert(Rc::clone(e), Rc::clone(&origin));
+            segments.insert(Rc::clone(e));
         }
 
         included_triangles = included_triangles
             .iter()
             .chain(new_triangles.iter())
-            .filter(|&t| old_triangles.contains(t))
+            .filter(|&t| !old_triangles.contains(t))
             .cloned()
             .collect();
 
@@ -59,11 +93,47 @@ pub fn unencroach(
             .chain(old_triangles.iter())
             .cloned()
             .collect();
+
+        /* Segments encroached by the vertices just included */
+        let new_vertices: HashSet<Rc<Vertex>> = new_edges
+            .iter()
+            .flat_map(|e| vec![Rc::clone(&e.v1), Rc::clone(&e.v2)])
+            .filter(|v| *v != encroached_edge.v1 && *v != encroached_edge.v2)
+            .collect();
+        let mut new_encroachments: HashMap<Rc<Edge>, HashSet<Rc<Vertex>>> = HashMap::new();
+        let segments_apart: HashSet<Rc<Edge>> = segments
+            .iter()
+            .filter(|s| !meets_at_small_angle(s, &encroached_edge))
+            .cloned()
+            .collect();
+        distribute_encroachments(&segments_apart, &new_vertices, &mut new_encroachments);
+        for (edge, vertices) in new_encroachments {
+            encroach_map
+                .entry(edge)
+                .or_insert(HashSet::new())
+                .extend(vertices);
+        }
     }
 
     return (split_map, included_triangles, removed_triangles);
 }
 
+/**
+ * Evaluates if segments meet at less than 45 degrees. Splitting one of them would
+ * encroach the other for ever.
+ */
+fn meets_at_small_angle(s1: &Rc<Edge>, s2: &Rc<Edge>) -> bool {
+    for (v1, v2) in vec![(&s1.v1, &s1.v2), (&s1.v2, &s1.v1)] {
+        for (v3, v4) in vec![(&s2.v1, &s2.v2), (&s2.v2, &s2.v1)] {
+            if v1 == v3 {
+                let product = (v2.x - v1.x) * (v4.x - v3.x) + (v2.y - v1.y) * (v4.y - v3.y);
+                return product > s1.length() * s2.length() * std::f64::consts::FRAC_1_SQRT_2;
+            }
+        }
+    }
+    return false;
+}
+
 /**
  * Splits the segment and its subsegments until none is encroached.
  * Returns new subsegments.
diff --git a/src/planar/refine_procedures/triangle_split.rs b/src/planar/refine_procedures/triangle_split.rs
index def9402..4b027ce 100644
--- a/src/planar/refine_procedures/triangle_split.rs
+++ b/src/planar/refine_procedures/triangle_split.rs
@@ -126,44 +126,47 @@ pub fn split_irregular(
                 }
             }
             Err(encroachments) => {
-                let mut vertices = vec![Rc::new(triangle.circumcenter().unwrap())]
+                let circumcenter = Rc::new(triangle.circumcenter().unwrap());
+                let mut encroach_map: HashMap<Rc<Edge>, HashSet<Rc<Vertex>>> = encroachments
                     .iter()
-                    .cloned()
+                    .map(|e| match segment_contraints.contains(e) {
+                        true => Rc::clone(e),
+                        false => Rc::new(e.opposite()),
+                    })
+                    .map(|e| (e, vec![Rc::clone(&circumcenter)].into_iter().collect()))
                     .collect();
 
-                for encroached_edge in encroachments.iter() {
-                    let (new_edges, included_triangles, removed_triangles) =
-                        encroachment::unencroach_segment(
-                            triangulation,
-                            &encroached_edge,
-                            &mut vertices,
-                            &segment_contraints,
-                            boundary,
-                            holes,
-                        );
+                let (subsegments, included_triangles, removed_triangles) =
+                    encroachment::unencroach_segments(
+                        triangulation,
+                        &mut encroach_map,
+                        &segment_contraints,
+                        boundary,
+                        holes,
+                    );
 
+                for (subsegment, encroached_edge) in subsegments.iter() {
                     segment_contraints.remove(encroached_edge);
+                    segment_contraints.remove(&Rc::new(encroached_edge.opposite()));
                     split_map.remove(encroached_edge);
-                    for subsegment in new_edges.iter() {
-                        split_map.insert(Rc::clone(subsegment), Rc::clone(encroached_edge));
-                        segment_contraints.insert(Rc::clone(subsegment));
-                    }
+                    split_map.insert(Rc::clone(subsegment), Rc::clone(encroached_edge));
+                }
+                segment_contraints.extend(subsegments.keys().cloned());
 
-                    for new_triangle in included_triangles.iter().filter(|t| !t.is_ghost()) {
-                        if is_irregular_triangle(new_triangle, params) {
-                            irregular_triangles.insert(Rc::clone(new_triangle));
-                            continue;
-                        }
-                        if is_large_triangle(new_triangle, params) {
-                            large_triangles.insert(Rc::clone(new_triangle));
-                            continue;
-                        }
+                for new_triangle in included_triangles.iter().filter(|t| !t.is_ghost()) {
+                    if is_irregular_triangle(new_triangle, params) {
+                        irregular_triangles.insert(Rc::clone(new_triangle));
+                        continue;
                     }
-                    for old_triangle in removed_triangles.iter() {
-                        irregular_triangles.remove(old_triangle);
-                        large_triangles.remove(old_triangle);
+                    if is_large_triangle(new_triangle, params) {
+                        large_triangles.insert(Rc::clone(new_triangle));
+                        continue;
                     }
                 }
+                for old_triangle in removed_triangles.iter() {
+                    irregular_triangles.remove(old_triangle);
+                    large_triangles.remove(old_triangle);
+                }
 
                 /* Tries again, if the triangle outlives the splits */
                 if triangulation.triangles.contains(&triangle) {
-- 
2.43.0


From 63407dafdd0e362cfa67d87039bd6e66f508a5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:36 +0000
Subject: [PATCH 24/42] fix: split the segment that hides the circumcenter of a
 triangle

---
 src/planar/refine_procedures/triangle_split.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/planar/refine_procedures/triangle_split.rs b/src/planar/refine_procedures/triangle_split.rs
index 4b027ce..62a437f 100644
--- a/src/planar/refine_procedures/triangle_split.rs
+++ b/src/planar/refine_procedures/triangle_split.rs
@@ -4,7 +4,7 @@ use crate::planar::{
     triangulation_procedures,
 };
 
-use crate::properties::continence::*;
+use crate::properties::{continence::*, intersection::*};
 
 use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
@@ -226,6 +226,19 @@ fn try_circumcenter_insertion(
         .filter(|e| e.encroach(&circumcenter) == Continence::Inside)
         .collect();
 
+    /* A circumcenter out of reach lies at or behind a segment */
+    if included_triangles.is_empty() {
+        let center = Rc::new(triangle.center());
+        let obstacles: HashSet<Rc<Edge>> = segment_constraints
+            .iter()
+            .filter(|e| intersection(&center, &circumcenter, &e.v1, &e.v2).is_some())
+            .cloned()
+            .collect();
+        if !obstacles.is_empty() {
+            return Err(obstacles);
+        }
+    }
+
     if !encroachments.is_empty() {
         for t in included_triangles.iter() {
             triangulation.remove_triangle(t);
-- 
2.43.0


From f63f5657b7096044613f500a322712a2331753ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 25/42] fix: split a segment once for each circumcenter that
 encroaches it

---
 src/planar/refine_procedures/triangle_split.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/planar/refine_procedures/triangle_split.rs b/src/planar/refine_procedures/triangle_split.rs
index 62a437f..b68488f 100644
--- a/src/planar/refine_procedures/triangle_split.rs
+++ b/src/planar/refine_procedures/triangle_split.rs
@@ -126,14 +126,17 @@ pub fn split_irregular(
                 }
             }
             Err(encroachments) => {
-                let circumcenter = Rc::new(triangle.circumcenter().unwrap());
+                /*
+                    Each segment is split once, since the circumcenter isn't included:
+                    its subsegments needn't get as small as to avoid encroaching it.
+                */
                 let mut encroach_map: HashMap<Rc<Edge>, HashSet<Rc<Vertex>>> = encroachments
                     .iter()
                     .map(|e| match segment_contraints.contains(e) {
                         true => Rc::clone(e),
                         false => Rc::new(e.opposite()),
                     })
-                    .map(|e| (e, vec![Rc::clone(&circumcenter)].into_iter().collect()))
+                    .map(|e| (e, HashSet::new()))
                     .collect();
 
                 let (subsegments, included_triangles, removed_triangles) =
-- 
2.43.0


From a5e17ed63806993b149ee2533471a8526eeb4f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 26/42] fix: look for the segment that hides a circumcenter
 before its insertion

---
 .../refine_procedures/triangle_split.rs       | 42 ++++++++++++-------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/planar/refine_procedures/triangle_split.rs b/src/planar/refine_procedures/triangle_split.rs
index b68488f..9299b5d 100644
--- a/src/planar/refine_procedures/triangle_split.rs
+++ b/src/planar/refine_procedures/triangle_split.rs
@@ -4,7 +4,7 @@ use crate::planar::{
     triangulation_procedures,
 };
 
-use crate::properties::{continence::*, intersection::*};
+use crate::properties::{continence::*, distance::*, intersection::*};
 
 use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
@@ -201,6 +201,11 @@ fn try_circumcenter_insertion(
     holes: &HashSet<Rc<Polyline>>,
 ) -> Result<(HashSet<Rc<Triangle>>, HashSet<Rc<Triangle>>), HashSet<Rc<Edge>>> {
     let circumcenter = Rc::new(triangle.circumcenter().unwrap());
+
+    if let Some(segment) = hiding_segment(triangle, &circumcenter, segment_constraints) {
+        return Err(vec![segment].into_iter().collect());
+    }
+
     let mut conflict_map: HashMap<Rc<Triangle>, Vec<Rc<Vertex>>> = HashMap::new();
 
     triangulation_procedures::vertices::distribute_conflicts_over_triangulation(
@@ -229,19 +234,6 @@ fn try_circumcenter_insertion(
         .filter(|e| e.encroach(&circumcenter) == Continence::Inside)
         .collect();
 
-    /* A circumcenter out of reach lies at or behind a segment */
-    if included_triangles.is_empty() {
-        let center = Rc::new(triangle.center());
-        let obstacles: HashSet<Rc<Edge>> = segment_constraints
-            .iter()
-            .filter(|e| intersection(&center, &circumcenter, &e.v1, &e.v2).is_some())
-            .cloned()
-            .collect();
-        if !obstacles.is_empty() {
-            return Err(obstacles);
-        }
-    }
-
     if !encroachments.is_empty() {
         for t in included_triangles.iter() {
             triangulation.remove_triangle(t);
@@ -256,6 +248,28 @@ fn try_circumcenter_insertion(
     return Ok((included_triangles, removed_triangles));
 }
 
+/**
+ * Finds the first segment, from the center of the triangle, that the vertex is
+ * at or behind.
+ */
+fn hiding_segment(
+    triangle: &Rc<Triangle>,
+    vertex: &Rc<Vertex>,
+    segment_constraints: &HashSet<Rc<Edge>>,
+) -> Option<Rc<Edge>> {
+    let center = Rc::new(triangle.center());
+
+    return segment_constraints
+        .iter()
+        .filter_map(|e| intersection(&center, vertex, &e.v1, &e.v2).map(|obstacle| (e, obstacle)))
+        .min_by(|(_, o1), (_, o2)| {
+            let d1 = distance(&center, o1);
+            let d2 = distance(&center, o2);
+            return d1.partial_cmp(&d2).unwrap();
+        })
+        .map(|(e, _)| Rc::clone(e));
+}
+
 #[cfg(test)]
 mod split {
     use super::*;
-- 
2.43.0


From 7f9a61992fc949b0f03178be8cc1f4b271288b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 27/42] fix: segments meeting at a point share its vertex

---
 src/elements/polyline.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 213c3d6..f62eecd 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -879,6 +879,12 @@ pub fn split_intersections(
     let mut splited_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
     let mut aux_set: Vec<(Rc<Vertex>, Rc<Vertex>)> = segments.iter().cloned().collect();
 
+    /* Segments meeting at a point must share its vertex */
+    let mut known_vertices: Vec<Rc<Vertex>> = segments
+        .iter()
+        .flat_map(|(v1, v2)| vec![Rc::clone(v1), Rc::clone(v2)])
+        .collect();
+
     while !aux_set.is_empty() {
         let (v1, v2) = aux_set.pop().unwrap();
         if let Some(index) = splited_segments.iter().position(|(v3, v4)| {
@@ -893,7 +899,17 @@ pub fn split_intersections(
         }) {
             let (v3, v4) = splited_segments.remove(index);
             let intersection_vertex = intersection(&v1, &v2, &v3, &v4).unwrap();
-            let intersection_vertex = Rc::new(intersection_vertex);
+            let known_vertex = known_vertices
+                .iter()
+                .find(|v| ***v == intersection_vertex)
+                .cloned();
+            let intersection_vertex = match known_vertex {
+                Some(vertex) => vertex,
+                None => {
+                    known_vertices.push(Rc::new(intersection_vertex));
+                    Rc::clone(known_vertices.last().unwrap())
+                }
+            };
             if v3 != intersection_vertex {
                 aux_set.push((Rc::clone(&v3), Rc::clone(&intersection_vertex)));
             }
-- 
2.43.0


From 42eee760880960c8e5cd45f611f785adef8b8d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 28/42] fix: cross edges turned away from the vertex being
 inserted

---
 src/planar/triangulation_procedures/vertices.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index 44997ca..a725bc1 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -1,6 +1,6 @@
 use crate::elements::{edge::*, polyline::*, triangle::*, vertex::*};
 use crate::planar::{triangulation::*, triangulation_procedures};
-use crate::properties::{continence::*, intersection::*};
+use crate::properties::{continence::*, intersection::*, orientation::*};
 
 use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
@@ -123,6 +123,12 @@ pub fn solve_conflicts(
                 // );
             }
 
+            /* Vertices that are almost cocircular may leave an edge turned away */
+            if !edge.v1.is_ghost && !edge.v2.is_ghost && !is_conflicting {
+                is_conflicting = orientation(&edge.v1, &edge.v2, &conflict_vertex)
+                    == Orientation::Clockwise;
+            }
+
             let is_constrained = segment_constraints.contains(&edge_to_outer_triangle)
                 || segment_constraints.contains(&edge);
 
-- 
2.43.0


From e0b8561bd43fa01e54994ca2de5e4f6a5241b542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 29/42] fix: rounding does not hide the intersection with an
 axis parallel segment

---
 src/properties/intersection.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/properties/intersection.rs b/src/properties/intersection.rs
index 84fffe9..fbc6ed8 100644
--- a/src/properties/intersection.rs
+++ b/src/properties/intersection.rs
@@ -128,6 +128,17 @@ fn intersection_vertex(
     let intersection_x = x1 + t * (x2 - x1);
     let intersection_y = y1 + t * (y2 - y1);
 
+    /* Both segments cross the line of the other */
+    if orientation(v1, v2, v3) == orientation(v1, v2, v4)
+        || orientation(v3, v4, v1) == orientation(v3, v4, v2)
+    {
+        return None;
+    }
+
+    /* Rounding must not push the vertex out of the region */
+    let intersection_x = intersection_x.max(bbox.origin.x).min(bbox.destin.x);
+    let intersection_y = intersection_y.max(bbox.origin.y).min(bbox.destin.y);
+
     return Some(Vertex::new(intersection_x, intersection_y));
 }
 
-- 
2.43.0


From 4ae44e4b778e275e9cbd8093c64e87e1de2a6562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 30/42] fix: split segments at their own intersections

---
 src/elements/polyline.rs | 81 +++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 38 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index f62eecd..721ce98 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -877,7 +877,6 @@ pub fn split_intersections(
     segments: &Vec<(Rc<Vertex>, Rc<Vertex>)>,
 ) -> Vec<(Rc<Vertex>, Rc<Vertex>)> {
     let mut splited_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
-    let mut aux_set: Vec<(Rc<Vertex>, Rc<Vertex>)> = segments.iter().cloned().collect();
 
     /* Segments meeting at a point must share its vertex */
     let mut known_vertices: Vec<Rc<Vertex>> = segments
@@ -885,47 +884,53 @@ pub fn split_intersections(
         .flat_map(|(v1, v2)| vec![Rc::clone(v1), Rc::clone(v2)])
         .collect();
 
-    while !aux_set.is_empty() {
-        let (v1, v2) = aux_set.pop().unwrap();
-        if let Some(index) = splited_segments.iter().position(|(v3, v4)| {
-            if !intersection(&v1, &v2, &v3, &v4).is_none() {
-                return &v1 != v3
-                    && &v1 != v4
-                    && &v2 != v3
-                    && &v2 != v4
-                    && !parallel(&v1, &v2, &v3, &v4);
-            }
-            return false;
-        }) {
-            let (v3, v4) = splited_segments.remove(index);
-            let intersection_vertex = intersection(&v1, &v2, &v3, &v4).unwrap();
-            let known_vertex = known_vertices
-                .iter()
-                .find(|v| ***v == intersection_vertex)
-                .cloned();
-            let intersection_vertex = match known_vertex {
-                Some(vertex) => vertex,
-                None => {
-                    known_vertices.push(Rc::new(intersection_vertex));
-                    Rc::clone(known_vertices.last().unwrap())
-                }
-            };
-            if v3 != intersection_vertex {
-                aux_set.push((Rc::clone(&v3), Rc::clone(&intersection_vertex)));
-            }
-            if v4 != intersection_vertex {
-                aux_set.push((Rc::clone(&intersection_vertex), Rc::clone(&v4)));
+    /*
+        Intersections are evaluated between the given segments, as their pieces
+        may not be exactly colinear to them.
+    */
+    let mut splitting_vertices: Vec<Vec<Rc<Vertex>>> = vec![Vec::new(); segments.len()];
+
+    for (index, (v1, v2)) in segments.iter().enumerate() {
+        for (other_index, (v3, v4)) in segments.iter().enumerate().skip(index + 1) {
+            if v1 == v3 || v1 == v4 || v2 == v3 || v2 == v4 || parallel(v1, v2, v3, v4) {
+                continue;
             }
-            if v1 != intersection_vertex {
-                aux_set.push((Rc::clone(&v1), Rc::clone(&intersection_vertex)));
+
+            if let Some(intersection_vertex) = intersection(v1, v2, v3, v4) {
+                let known_vertex = known_vertices
+                    .iter()
+                    .find(|v| ***v == intersection_vertex)
+                    .cloned();
+
+                let intersection_vertex = match known_vertex {
+                    Some(vertex) => vertex,
+                    None => {
+                        known_vertices.push(Rc::new(intersection_vertex));
+                        Rc::clone(known_vertices.last().unwrap())
+                    }
+                };
+
+                splitting_vertices[index].push(Rc::clone(&intersection_vertex));
+                splitting_vertices[other_index].push(intersection_vertex);
             }
-            if v2 != intersection_vertex {
-                aux_set.push((Rc::clone(&intersection_vertex), Rc::clone(&v2)));
+        }
+    }
+
+    for ((v1, v2), mut vertices) in segments.iter().zip(splitting_vertices) {
+        vertices.sort_by(|a, b| {
+            let a_position = dot(v1, v2, v1, a);
+            let b_position = dot(v1, v2, v1, b);
+            return a_position.partial_cmp(&b_position).unwrap();
+        });
+
+        let mut head = Rc::clone(v1);
+        for vertex in vertices {
+            if vertex != head && &vertex != v2 {
+                splited_segments.push((head, Rc::clone(&vertex)));
+                head = vertex;
             }
-        } else {
-            /* no intersection, just segment continuation */
-            splited_segments.push((Rc::clone(&v1), Rc::clone(&v2)));
         }
+        splited_segments.push((head, Rc::clone(v2)));
     }
 
     return splited_segments;
-- 
2.43.0


From 43cd8791c48edf8ec6412a95bf736ee5c02bdc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 31/42] fix: a vertex within rounding of a polyline lies on its
 boundary

---
 src/elements/polyline.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 721ce98..6f98ee4 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -1,8 +1,9 @@
 use crate::elements::{bounding_box::*, edge::*, triangle::*, vertex::*};
 
 use crate::properties::angle::*;
-use crate::properties::area::area_segments;
+use crate::properties::area::*;
 use crate::properties::continence::*;
+use crate::properties::distance::*;
 use crate::properties::dot::*;
 use crate::properties::intersection::*;
 use crate::properties::midpoint::*;
@@ -176,6 +177,15 @@ impl Polyline {
                 continue;
             }
 
+            /* rounding must not take a vertex evaluated over the segment out of it */
+            let magnitude = [v1.x, v1.y, v2.x, v2.y, vertex.x, vertex.y]
+                .iter()
+                .fold(0.0, |acc: f64, coordinate| acc.max(coordinate.abs()));
+            let rounding = 8.0 * std::f64::EPSILON * magnitude * distance(&v1, &v2);
+            if 2.0 * area_triangle(&v1, &v2, vertex).abs() <= rounding {
+                return Some(Continence::Boundary);
+            }
+
             match orientation(&v1, &v2, vertex) {
                 Orientation::Colinear => {
                     return Some(Continence::Boundary);
-- 
2.43.0


From f654c7ebcfd354cc285d03afce7110970d87e445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 32/42] fix: overlapping segments of polylines are split alike

---
 src/elements/polyline.rs | 126 +++++++++++----------------------------
 1 file changed, 35 insertions(+), 91 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 6f98ee4..66e4fe7 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -244,56 +244,19 @@ impl Polyline {
 
         if !BoundingBox::intersection(&p1_bbox, &p2_bbox).is_none() {
             /*
-                Removes pairs of colinear segments in opposed direction
+                Removes pairs of segments in opposed direction, as overlapping segments are already split alike
             */
             let mut read_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
             read_segments.push(possible_segments.pop().unwrap());
             while !possible_segments.is_empty() {
                 let (v1, v2) = possible_segments.pop().unwrap();
-                match read_segments.iter().position(|(v3, v4)| {
-                    if !intersection(&v1, &v2, v3, v4).is_none() {
-                        let is_parallel = parallel(&v1, &v2, v3, v4);
-                        let have_opposite_directions = dot(&v1, &v2, v3, v4) < 0.0;
-
-                        let is_polyline_continuation = &v1 == v4 || &v2 == v3;
-                        let is_outside = p1.contains(&v1).unwrap() == Continence::Outside
-                            || p2.contains(&v1).unwrap() == Continence::Outside
-                            || p1.contains(&v2).unwrap() == Continence::Outside
-                            || p2.contains(&v2).unwrap() == Continence::Outside
-                            || p1.contains(&v3).unwrap() == Continence::Outside
-                            || p2.contains(&v3).unwrap() == Continence::Outside
-                            || p1.contains(&v4).unwrap() == Continence::Outside
-                            || p2.contains(&v4).unwrap() == Continence::Outside;
-
-                        return is_parallel
-                            && have_opposite_directions
-                            && (is_polyline_continuation || is_outside);
-                    }
-                    return false;
-                }) {
+                match read_segments
+                    .iter()
+                    .position(|(v3, v4)| &v1 == v4 && &v2 == v3)
+                {
                     Some(index) => {
-                        let (v3, v4) = read_segments.remove(index);
-
-                        unused_segments.insert((Rc::clone(&v1), Rc::clone(&v2)));
-                        unused_segments.insert((Rc::clone(&v3), Rc::clone(&v4)));
-                        if v2 != v3
-                            && (v1 == v4
-                                || p1.contains(&v1).unwrap() == Continence::Outside
-                                || p2.contains(&v1).unwrap() == Continence::Outside
-                                || p1.contains(&v4).unwrap() == Continence::Outside
-                                || p2.contains(&v4).unwrap() == Continence::Outside)
-                        {
-                            possible_segments.push((Rc::clone(&v3), Rc::clone(&v2)));
-                        }
-                        if v1 != v4
-                            && (v2 == v3
-                                || p1.contains(&v2).unwrap() == Continence::Outside
-                                || p2.contains(&v2).unwrap() == Continence::Outside
-                                || p1.contains(&v3).unwrap() == Continence::Outside
-                                || p2.contains(&v3).unwrap() == Continence::Outside)
-                        {
-                            possible_segments.push((Rc::clone(&v1), Rc::clone(&v4)));
-                        }
+                        unused_segments.insert(read_segments.remove(index));
+                        unused_segments.insert((v1, v2));
                     }
                     None => {
                         read_segments.push((v1, v2));
@@ -444,7 +407,12 @@ impl Polyline {
             let dont_contains_mid = p1.contains(&midpoint).unwrap() == Continence::Outside
                 || p2.contains(&midpoint).unwrap() == Continence::Outside;
 
-            if dont_contains_mid {
+            /* both polylines are on the same side of a segment they share */
+            let is_shared = possible_segments
+                .iter()
+                .any(|(v3, v4)| &v1 == v3 && &v2 == v4);
+
+            if dont_contains_mid || is_shared {
                 read_segments.push((v1, v2));
             } else {
                 unused_segments.insert((v1, v2));
@@ -566,56 +534,19 @@ impl Polyline {
         }
 
         /*
-            Removes pairs of colinear segments in opposed direction
+            Removes pairs of segments in opposed direction, as overlapping segments are already split alike
         */
         let mut read_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
         read_segments.push(possible_segments.pop().unwrap());
         while !possible_segments.is_empty() {
             let (v1, v2) = possible_segments.pop().unwrap();
-            match read_segments.iter().position(|(v3, v4)| {
-                if intersection(&v1, &v2, v3, v4).is_none() {
-                    return false;
-                }
-                let is_parallel = parallel(&v1, &v2, v3, v4);
-                let have_opposite_directions = dot(&v1, &v2, v3, v4) < 0.0;
-
-                let is_polyline_continuation = &v1 == v4 || &v2 == v3;
-                let is_outside = p1.contains(&v1).unwrap() == Continence::Outside
-                    || p2.contains(&v1).unwrap() == Continence::Outside
-                    || p1.contains(&v2).unwrap() == Continence::Outside
-                    || p2.contains(&v2).unwrap() == Continence::Outside
-                    || p1.contains(&v3).unwrap() == Continence::Outside
-                    || p2.contains(&v3).unwrap() == Continence::Outside
-                    || p1.contains(&v4).unwrap() == Continence::Outside
-                    || p2.contains(&v4).unwrap() == Continence::Outside;
-
-                return is_parallel
-                    && have_opposite_directions
-                    && (is_polyline_continuation || is_outside);
-            }) {
+            match read_segments
+                .iter()
+                .position(|(v3, v4)| &v1 == v4 && &v2 == v3)
+            {
                 Some(index) => {
-                    let (v3, v4) = read_segments.remove(index);
-
-                    unused_segments.insert((Rc::clone(&v1), Rc::clone(&v2)));
-                    unused_segments.insert((Rc::clone(&v3), Rc::clone(&v4)));
-                    if v2 != v3
-                        && (v1 == v4
-                            || p1.contains(&v1).unwrap() == Continence::Outside
-                            || p2.contains(&v1).unwrap() == Continence::Outside
-                            || p1.contains(&v4).unwrap() == Continence::Outside
-                            || p2.contains(&v4).unwrap() == Continence::Outside)
-                    {
-                        possible_segments.push((Rc::clone(&v3), Rc::clone(&v2)));
-                    }
-                    if v1 != v4
-                        && (v2 == v3
-                            || p1.contains(&v2).unwrap() == Continence::Outside
-                            || p2.contains(&v2).unwrap() == Continence::Outside
-                            || p1.contains(&v3).unwrap() == Continence::Outside
-                            || p2.contains(&v3).unwrap() == Continence::Outside)
-                    {
-                        possible_segments.push((Rc::clone(&v1), Rc::clone(&v4)));
-                    }
+                    unused_segments.insert(read_segments.remove(index));
+                    unused_segments.insert((v1, v2));
                 }
                 None => {
                     read_segments.push((v1, v2));
@@ -902,7 +833,20 @@ pub fn split_intersections(
 
     for (index, (v1, v2)) in segments.iter().enumerate() {
         for (other_index, (v3, v4)) in segments.iter().enumerate().skip(index + 1) {
-            if v1 == v3 || v1 == v4 || v2 == v3 || v2 == v4 || parallel(v1, v2, v3, v4) {
+            if parallel(v1, v2, v3, v4) {
+                /* Overlapping segments end each other */
+                let edge = Edge::new(v1, v2);
+                let other_edge = Edge::new(v3, v4);
+                for vertex in [v3, v4].iter().filter(|v| edge.contains(v)) {
+                    splitting_vertices[index].push(Rc::clone(vertex));
+                }
+                for vertex in [v1, v2].iter().filter(|v| other_edge.contains(v)) {
+                    splitting_vertices[other_index].push(Rc::clone(vertex));
+                }
+                continue;
+            }
+
+            if v1 == v3 || v1 == v4 || v2 == v3 || v2 == v4 {
                 continue;
             }
 
@@ -935,7 +879,7 @@ pub fn split_intersections(
 
         let mut head = Rc::clone(v1);
         for vertex in vertices {
-            if vertex != head && &vertex != v2 {
+            if vertex != head && &vertex != v1 && &vertex != v2 {
                 splited_segments.push((head, Rc::clone(&vertex)));
                 head = vertex;
             }
-- 
2.43.0


From 257f54c961d72a96f3cf394782a3ee0b8487e919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 33/42] fix: equal intersections of a segment share a vertex in
 spite of rounding

---
 src/elements/polyline.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 66e4fe7..6dce53d 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -851,9 +851,15 @@ pub fn split_intersections(
             }
 
             if let Some(intersection_vertex) = intersection(v1, v2, v3, v4) {
+                /* the same point, evaluated from other segments, differs by rounding */
+                let magnitude = [v1, v2, v3, v4]
+                    .iter()
+                    .fold(1.0, |acc: f64, v| acc.max(v.x.abs()).max(v.y.abs()));
+                let rounding = 64.0 * std::f64::EPSILON * magnitude;
+
                 let known_vertex = known_vertices
                     .iter()
-                    .find(|v| ***v == intersection_vertex)
+                    .find(|v| distance(v, &intersection_vertex) <= rounding)
                     .cloned();
 
                 let intersection_vertex = match known_vertex {
-- 
2.43.0


From e8812eca69ee2c01b74816eecad44c8ca99c1bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 34/42] fix: rounding does not take a vertex out of the edge it
 splits

---
 src/elements/edge.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/elements/edge.rs b/src/elements/edge.rs
index 9fa5282..b0de8bf 100644
--- a/src/elements/edge.rs
+++ b/src/elements/edge.rs
@@ -1,6 +1,6 @@
 use crate::elements::{bounding_box::*, polyline::*, vertex::*};
 use crate::properties::{
-    continence::*, distance::*, dot::*, encroachment::*, intersection::*, orientation::*,
+    area::*, continence::*, distance::*, dot::*, encroachment::*, intersection::*, orientation::*,
     parallel::*,
 };
 use std::rc::Rc;
@@ -128,6 +128,15 @@ impl Edge {
             return false;
         }
 
+        /* rounding must not take a vertex evaluated over the edge out of it */
+        let magnitude = [self.v1.x, self.v1.y, self.v2.x, self.v2.y, vertex.x, vertex.y]
+            .iter()
+            .fold(0.0, |acc: f64, coordinate| acc.max(coordinate.abs()));
+        let rounding = 8.0 * std::f64::EPSILON * magnitude * self.length();
+        if 2.0 * area_triangle(&self.v1, &self.v2, vertex).abs() <= rounding {
+            return true;
+        }
+
         if orientation(&self.v1, &self.v2, vertex) != Orientation::Colinear {
             return false;
         }
-- 
2.43.0


From b9227396212cbd8974a822bbdca03078b905f0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 35/42] fix: splitting a segment spares the ghosts in line with
 it

---
 .../triangulation_procedures/vertices.rs      | 36 +++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index a725bc1..cf838b3 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -1,6 +1,6 @@
 use crate::elements::{edge::*, polyline::*, triangle::*, vertex::*};
 use crate::planar::{triangulation::*, triangulation_procedures};
-use crate::properties::{continence::*, intersection::*, orientation::*};
+use crate::properties::{area::*, continence::*, distance::*, intersection::*, orientation::*};
 
 use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
@@ -130,7 +130,8 @@ pub fn solve_conflicts(
             }
 
             let is_constrained = segment_constraints.contains(&edge_to_outer_triangle)
-                || segment_constraints.contains(&edge);
+                || segment_constraints.contains(&edge)
+                || is_behind_segment(&outer_triangle, &conflict_vertex, segment_constraints);
 
             let may_insert =
                 may_insert_triangle(&outer_triangle, &conflict_vertex, boundary, holes);
@@ -260,6 +261,7 @@ fn distribute_visible_conflicts(
         if has_conflict
             && may_insert
             && is_visible(&triangle, &pending_vertex, segment_constraints)
+            && !is_behind_segment(&triangle, &pending_vertex, segment_constraints)
         {
             distributed_conflicts.push(pending_vertex);
             continue;
@@ -314,6 +316,36 @@ pub fn distribute_conflicts_over_triangulation(
     }
 }
 
+/**
+ * Evaluates if the triangle is a ghost whose solid edge is a segment constraint in
+ * line with the vertex, yet apart from it. Rounding may place the vertex slightly
+ * beyond that line.
+ */
+fn is_behind_segment(
+    triangle: &Rc<Triangle>,
+    vertex: &Rc<Vertex>,
+    segment_constraints: &HashSet<Rc<Edge>>,
+) -> bool {
+    if !triangle.is_ghost() {
+        return false;
+    }
+
+    let (e12, e23, e31) = triangle.inner_edges();
+    return vec![e12, e23, e31]
+        .iter()
+        .filter(|e| !e.v1.is_ghost && !e.v2.is_ghost)
+        .filter(|&e| segment_constraints.contains(e) || segment_constraints.contains(&e.opposite()))
+        .any(|e| {
+            let magnitude = [e.v1.x, e.v1.y, e.v2.x, e.v2.y, vertex.x, vertex.y]
+                .iter()
+                .fold(0.0, |acc: f64, coordinate| acc.max(coordinate.abs()));
+            let reach = e.length() + distance(&e.v1, vertex);
+            let rounding = 8.0 * std::f64::EPSILON * magnitude * reach;
+            return 2.0 * area_triangle(&e.v1, &e.v2, vertex).abs() <= rounding
+                && !e.contains(vertex);
+        });
+}
+
 /**
  * Evaluates if no segment constraint separates the triangle from the vertex
  */
-- 
2.43.0


From 17ca88fe493a627e9d6eb278daf08ded7bbd2364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 36/42] fix: a half of a segment stays constrained while the
 other half is split

---
 src/planar/refine_procedures/encroachment.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/planar/refine_procedures/encroachment.rs b/src/planar/refine_procedures/encroachment.rs
index 823392d..ed8746c 100644
--- a/src/planar/refine_procedures/encroachment.rs
+++ b/src/planar/refine_procedures/encroachment.rs
@@ -155,6 +155,7 @@ pub fn unencroach_segment(
 
     let mut new_edges: HashSet<Rc<Edge>> = HashSet::new();
     let mut pending_edges: Vec<Rc<Edge>> = Vec::new();
+    let mut segments: HashSet<Rc<Edge>> = segment_contraints.iter().cloned().collect();
 
     pending_edges.push(Rc::clone(&encroached_edge));
 
@@ -164,11 +165,17 @@ pub fn unencroach_segment(
         let (h1, h2, new_triangles, old_triangles) = split_segment(
             triangulation,
             &pending_edge,
-            segment_contraints,
+            &segments,
             boundary,
             holes,
         );
 
+        /* a half remains a constraint, while the other one is split */
+        segments.remove(&pending_edge);
+        segments.remove(&Rc::new(pending_edge.opposite()));
+        segments.insert(Rc::clone(&h1));
+        segments.insert(Rc::clone(&h2));
+
         included_triangles = included_triangles
             .iter()
             .chain(new_triangles.iter())
-- 
2.43.0


From 363e638a989d6b40d51eea5eb6d49cdf336d4729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:20 +0000
Subject: [PATCH 37/42] fix: rounding does not turn away a vertex evaluated
 over a line

---
 src/properties/orientation.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/properties/orientation.rs b/src/properties/orientation.rs
index 2058855..401a02e 100644
--- a/src/properties/orientation.rs
+++ b/src/properties/orientation.rs
@@ -23,6 +23,17 @@ pub fn orientation(a: &Vertex, b: &Vertex, c: &Vertex) -> Orientation {
         return Orientation::Colinear;
     }
 
+    /* No vertex evaluated over a line may be told apart from it due to rounding */
+    let magnitude = [a.x, a.y, b.x, b.y, c.x, c.y]
+        .iter()
+        .fold(0.0, |acc: f64, coordinate| acc.max(coordinate.abs()));
+    let reach = [b.x - a.x, b.y - a.y, c.x - a.x, c.y - a.y]
+        .iter()
+        .fold(0.0, |acc: f64, difference| acc.max(difference.abs()));
+    if det.abs() <= 8.0 * std::f64::EPSILON * magnitude * reach {
+        return Orientation::Colinear;
+    }
+
     if det > 0.0 {
         return Orientation::Counterclockwise;
     } else {
-- 
2.43.0


From 58db12a1c529959828e602017d6f8906e0642e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:06 +0000
Subject: [PATCH 38/42] fix: a vertex above or below a nearly vertical segment
 is not on it

---
 src/elements/polyline.rs | 66 +++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 35 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 6dce53d..db5b5c0 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -156,16 +156,25 @@ impl Polyline {
         let mut parity: isize = 0;
 
         for (v1, v2) in segments {
+            /* rounding must not take a vertex evaluated over the segment out of it */
+            let magnitude = [v1.x, v1.y, v2.x, v2.y, vertex.x, vertex.y]
+                .iter()
+                .fold(0.0, |acc: f64, coordinate| acc.max(coordinate.abs()));
+            let margin = 8.0 * std::f64::EPSILON * magnitude;
+            let is_colinear = 2.0 * area_triangle(&v1, &v2, vertex).abs()
+                <= margin * distance(&v1, &v2)
+                || orientation(&v1, &v2, vertex) == Orientation::Colinear;
+
+            let is_in_horizontal_interval =
+                v1.x.min(v2.x) - margin <= vertex.x && vertex.x <= v1.x.max(v2.x) + margin;
+            let is_in_vertical_interval =
+                v1.y.min(v2.y) - margin <= vertex.y && vertex.y <= v1.y.max(v2.y) + margin;
+            if is_colinear && is_in_horizontal_interval && is_in_vertical_interval {
+                return Some(Continence::Boundary);
+            }
+
             let is_vertical_segment = v1.x == v2.x;
             if is_vertical_segment {
-                let points_to_vertex = v1.x == vertex.x;
-                let contains_vertex_in_vertical_interval = (v1.y <= vertex.y && vertex.y <= v2.y)
-                    || (v2.y <= vertex.y && vertex.y <= v1.y);
-
-                if points_to_vertex && contains_vertex_in_vertical_interval {
-                    /* intersection case */
-                    return Some(Continence::Boundary);
-                }
                 /* skips vertical segments */
                 continue;
             }
@@ -177,33 +186,20 @@ impl Polyline {
                 continue;
             }
 
-            /* rounding must not take a vertex evaluated over the segment out of it */
-            let magnitude = [v1.x, v1.y, v2.x, v2.y, vertex.x, vertex.y]
-                .iter()
-                .fold(0.0, |acc: f64, coordinate| acc.max(coordinate.abs()));
-            let rounding = 8.0 * std::f64::EPSILON * magnitude * distance(&v1, &v2);
-            if 2.0 * area_triangle(&v1, &v2, vertex).abs() <= rounding {
-                return Some(Continence::Boundary);
-            }
-
-            match orientation(&v1, &v2, vertex) {
-                Orientation::Colinear => {
-                    return Some(Continence::Boundary);
-                }
-                Orientation::Counterclockwise => {
-                    if v1.x == vertex.x || v2.x == vertex.x {
-                        parity = parity + 1;
-                    } else {
-                        parity = parity + 2;
-                    }
-                }
-                Orientation::Clockwise => {
-                    if v1.x == vertex.x || v2.x == vertex.x {
-                        parity = parity - 1;
-                    } else {
-                        parity = parity - 2;
-                    }
-                }
+            let is_counterclockwise = match is_colinear {
+                /* above or below a nearly vertical segment */
+                true => (vertex.y > v1.y) == (v2.x > v1.x),
+                false => orientation(&v1, &v2, vertex) == Orientation::Counterclockwise,
+            };
+
+            let weight = match v1.x == vertex.x || v2.x == vertex.x {
+                true => 1,
+                false => 2,
+            };
+            if is_counterclockwise {
+                parity = parity + weight;
+            } else {
+                parity = parity - weight;
             }
         }
 
-- 
2.43.0


From 857d4f71750adb67952169542ec193686dca55d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 39/42] fix: rounding does not hide where segments that are not
 axis parallel touch

---
 src/properties/intersection.rs | 86 +++++++++++++++++++++-------------
 1 file changed, 53 insertions(+), 33 deletions(-)

diff --git a/src/properties/intersection.rs b/src/properties/intersection.rs
index fbc6ed8..5260e73 100644
--- a/src/properties/intersection.rs
+++ b/src/properties/intersection.rs
@@ -7,7 +7,7 @@ use crate::elements::bounding_box::*;
 use crate::elements::vertex::*;
 use crate::properties::orientation::*;
 
-use nalgebra::{Matrix2, Matrix2x1};
+use nalgebra::Matrix2;
 use std::rc::Rc;
 
 /**
@@ -24,14 +24,7 @@ pub fn intersection(
 ) -> Option<Vertex> {
     if let Some(bbox) = intersection_region(v1, v2, v3, v4) {
         if let Some(vertex) = intersection_vertex(v1, v2, v3, v4, &bbox) {
-            let in_interval_x = (vertex.x >= bbox.origin.x && vertex.x <= bbox.destin.x)
-                || float_cmp::approx_eq!(f64, bbox.origin.x, vertex.x, epsilon = 1.0E-14f64)
-                || float_cmp::approx_eq!(f64, bbox.destin.x, vertex.x, epsilon = 1.0E-14f64);
-            let in_interval_y = (vertex.y >= bbox.origin.y && vertex.y <= bbox.destin.y)
-                || float_cmp::approx_eq!(f64, bbox.origin.y, vertex.y, epsilon = 1.0E-14f64)
-                || float_cmp::approx_eq!(f64, bbox.destin.y, vertex.y, epsilon = 1.0E-14f64);
-
-            if in_interval_x && in_interval_y {
+            if is_in_region(&vertex, &bbox, rounding(&vec![v1, v2, v3, v4])) {
                 return Some(vertex);
             }
         }
@@ -40,6 +33,23 @@ pub fn intersection(
     return None;
 }
 
+/**
+ * Determines how far rounding may take a coordinate evaluated from the vertices
+ */
+fn rounding(vertices: &Vec<&Rc<Vertex>>) -> f64 {
+    let magnitude = vertices
+        .iter()
+        .fold(0.0, |acc: f64, v| acc.max(v.x.abs()).max(v.y.abs()));
+    return (8.0 * std::f64::EPSILON * magnitude).max(1.0E-14f64);
+}
+
+fn is_in_region(vertex: &Vertex, bbox: &BoundingBox, margin: f64) -> bool {
+    return bbox.origin.x - margin <= vertex.x
+        && vertex.x <= bbox.destin.x + margin
+        && bbox.origin.y - margin <= vertex.y
+        && vertex.y <= bbox.destin.y + margin;
+}
+
 /**
  * Determines the possible region where a intersection may occur
  */
@@ -55,7 +65,21 @@ fn intersection_region(
     let e1_bbox: BoundingBox = BoundingBox::from_vertices(e1_vertices).unwrap();
     let e2_bbox: BoundingBox = BoundingBox::from_vertices(e2_vertices).unwrap();
 
-    return BoundingBox::intersection(&e1_bbox, &e2_bbox);
+    let origin_x = e1_bbox.origin.x.max(e2_bbox.origin.x);
+    let origin_y = e1_bbox.origin.y.max(e2_bbox.origin.y);
+    let destin_x = e1_bbox.destin.x.min(e2_bbox.destin.x);
+    let destin_y = e1_bbox.destin.y.min(e2_bbox.destin.y);
+
+    let margin = rounding(&vec![v1, v2, v3, v4]);
+    if origin_x > destin_x + margin || origin_y > destin_y + margin {
+        return None;
+    }
+
+    /* rounding may leave a gap between segments that touch */
+    return BoundingBox::from_vertices(vec![
+        Rc::new(Vertex::new(origin_x, origin_y)),
+        Rc::new(Vertex::new(destin_x, destin_y)),
+    ]);
 }
 
 /**
@@ -82,42 +106,38 @@ fn intersection_vertex(
 
     let matrix_a = Matrix2::new(-(y2 - y1), x2 - x1, -(y4 - y3), x4 - x3);
 
-    let matrix_b = Matrix2x1::new(
-        y1 * (x2 - x1) - x1 * (y2 - y1),
-        y3 * (x4 - x3) - x3 * (y4 - y3),
-    );
-
-    if !matrix_a.is_invertible() {
-        /* Lines are coincident */
-        let possible_middle_point = Matrix2x1::new(
+    let are_coincident = [v1, v2]
+        .iter()
+        .all(|v| orientation(v3, v4, v) == Orientation::Colinear)
+        && [v3, v4]
+            .iter()
+            .all(|v| orientation(v1, v2, v) == Orientation::Colinear);
+    if are_coincident {
+        /* Return mid-point as intersection representation */
+        return Some(Vertex::new(
             (bbox.origin.x + bbox.destin.x) / 2.0,
             (bbox.origin.y + bbox.destin.y) / 2.0,
-        );
-
-        let eval = matrix_a * possible_middle_point - matrix_b;
-
-        if float_cmp::approx_eq!(f64, eval[0], 0.0, epsilon = 1.0E-14f64)
-            && float_cmp::approx_eq!(f64, eval[1], 0.0, epsilon = 1.0E-14f64)
-        {
-            /* Return mid-point as intersection representation */
-            return Some(Vertex::new(
-                possible_middle_point[0],
-                possible_middle_point[1],
-            ));
-        }
+        ));
+    }
 
+    if !matrix_a.is_invertible() {
         /* Lines are parallel */
         return None;
     }
 
     /* A vertex that lies on the other line is the intersection itself */
+    let margin = rounding(&vec![v1, v2, v3, v4]);
     for vertex in [v1, v2].iter() {
-        if orientation(v3, v4, vertex) == Orientation::Colinear {
+        if orientation(v3, v4, vertex) == Orientation::Colinear
+            && is_in_region(vertex, bbox, margin)
+        {
             return Some(Vertex::new(vertex.x, vertex.y));
         }
     }
     for vertex in [v3, v4].iter() {
-        if orientation(v1, v2, vertex) == Orientation::Colinear {
+        if orientation(v1, v2, vertex) == Orientation::Colinear
+            && is_in_region(vertex, bbox, margin)
+        {
             return Some(Vertex::new(vertex.x, vertex.y));
         }
     }
-- 
2.43.0


From a2df76f5c6f6f44bf57ee4873cede1b5f345e246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:07 +0000
Subject: [PATCH 40/42] fix: segments that overlap are split although they
 share an end

---
 src/elements/polyline.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index db5b5c0..baf4f39 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -829,20 +829,22 @@ pub fn split_intersections(
 
     for (index, (v1, v2)) in segments.iter().enumerate() {
         for (other_index, (v3, v4)) in segments.iter().enumerate().skip(index + 1) {
-            if parallel(v1, v2, v3, v4) {
+            let is_connected = v1 == v3 || v1 == v4 || v2 == v3 || v2 == v4;
+
+            let edge = Edge::new(v1, v2);
+            let other_edge = Edge::new(v3, v4);
+            let inner_vertices: Vec<&Rc<Vertex>> =
+                vec![v3, v4].into_iter().filter(|v| edge.contains(v)).collect();
+            let other_inner_vertices: Vec<&Rc<Vertex>> =
+                vec![v1, v2].into_iter().filter(|v| other_edge.contains(v)).collect();
+
+            if is_connected
+                || parallel(v1, v2, v3, v4)
+                || inner_vertices.len() + other_inner_vertices.len() > 1
+            {
                 /* Overlapping segments end each other */
-                let edge = Edge::new(v1, v2);
-                let other_edge = Edge::new(v3, v4);
-                for vertex in [v3, v4].iter().filter(|v| edge.contains(v)) {
-                    splitting_vertices[index].push(Rc::clone(vertex));
-                }
-                for vertex in [v1, v2].iter().filter(|v| other_edge.contains(v)) {
-                    splitting_vertices[other_index].push(Rc::clone(vertex));
-                }
-                continue;
-            }
-
-            if v1 == v3 || v1 == v4 || v2 == v3 || v2 == v4 {
+                splitting_vertices[index].extend(inner_vertices.into_iter().cloned());
+                splitting_vertices[other_index].extend(other_inner_vertices.into_iter().cloned());
                 continue;
             }
 
-- 
2.43.0


From 50e565b112b55c9fb48205954c4fc225695b5f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:24 +0000
Subject: [PATCH 41/42] fix: tolerances follow small domains

---
 src/properties/continence.rs   | 11 ++++++++++-
 src/properties/encroachment.rs | 11 ++++++++++-
 src/properties/orientation.rs  | 10 ++++++----
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/properties/continence.rs b/src/properties/continence.rs
index af01892..418ddec 100644
--- a/src/properties/continence.rs
+++ b/src/properties/continence.rs
@@ -29,7 +29,16 @@ pub fn continence(a: &Vertex, b: &Vertex, c: &Vertex, d: &Vertex) -> Continence
         + (bx * bx + by * by) * (cx * ay - ax * cy)
         + (cx * cx + cy * cy) * (ax * by - bx * ay);
 
-    if float_cmp::approx_eq!(f64, det, 0.0, epsilon = 1.0E-14f64) {
+    /* The tolerance follows the vertices, when they are too close to each other for it */
+    let magnitude = [a.x, a.y, b.x, b.y, c.x, c.y, d.x, d.y]
+        .iter()
+        .fold(0.0, |acc: f64, coordinate| acc.max(coordinate.abs()));
+    let reach = [ax, ay, bx, by, cx, cy]
+        .iter()
+        .fold(0.0, |acc: f64, difference| acc.max(difference.abs()));
+    let rounding = 64.0 * std::f64::EPSILON * magnitude * reach.powi(3);
+
+    if float_cmp::approx_eq!(f64, det, 0.0, epsilon = rounding.min(1.0E-14f64)) {
         return Continence::Boundary;
     }
 
diff --git a/src/properties/encroachment.rs b/src/properties/encroachment.rs
index d7ac446..7798193 100644
--- a/src/properties/encroachment.rs
+++ b/src/properties/encroachment.rs
@@ -11,7 +11,16 @@ pub fn encroach(v1: &Vertex, v2: &Vertex, vertex: &Vertex) -> Continence {
 
     let measure = (x - x2) * (x - x1) + (y - y2) * (y - y1);
 
-    if float_cmp::approx_eq!(f64, measure, 0.0, epsilon = 1.0E-14f64) {
+    /* The tolerance follows the vertices, when they are too close to each other for it */
+    let magnitude = [x, y, x1, y1, x2, y2]
+        .iter()
+        .fold(0.0, |acc: f64, coordinate| acc.max(coordinate.abs()));
+    let reach = [x - x1, y - y1, x - x2, y - y2]
+        .iter()
+        .fold(0.0, |acc: f64, difference| acc.max(difference.abs()));
+    let rounding = 64.0 * std::f64::EPSILON * magnitude * reach;
+
+    if float_cmp::approx_eq!(f64, measure, 0.0, epsilon = rounding.min(1.0E-14f64)) {
         return Continence::Boundary;
     }
 
diff --git a/src/properties/orientation.rs b/src/properties/orientation.rs
index 401a02e..204798a 100644
--- a/src/properties/orientation.rs
+++ b/src/properties/orientation.rs
@@ -19,10 +19,6 @@ pub fn orientation(a: &Vertex, b: &Vertex, c: &Vertex) -> Orientation {
     /* Relative to a, so that the result does not degrade away from the origin */
     let det: f64 = (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x);
 
-    if float_cmp::approx_eq!(f64, det, 0.0, epsilon = 1.0E-14f64) {
-        return Orientation::Colinear;
-    }
-
     /* No vertex evaluated over a line may be told apart from it due to rounding */
     let magnitude = [a.x, a.y, b.x, b.y, c.x, c.y]
         .iter()
@@ -34,6 +30,12 @@ pub fn orientation(a: &Vertex, b: &Vertex, c: &Vertex) -> Orientation {
         return Orientation::Colinear;
     }
 
+    /* The tolerance follows the vertices, when they are too close to each other for it */
+    let rounding = 64.0 * std::f64::EPSILON * magnitude * reach;
+    if float_cmp::approx_eq!(f64, det, 0.0, epsilon = rounding.min(1.0E-14f64)) {
+        return Orientation::Colinear;
+    }
+
     if det > 0.0 {
         return Orientation::Counterclockwise;
     } else {
-- 
2.43.0


From 031a7bda0cf03109f3d3889520477263056ab757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:48 +0000
Subject: [PATCH 42/42] fix: a polyline whose vertices and middles all lie on
 the boundary has a side

Its ends and middles on the boundary told nothing, and the parts between them
were then taken to conflict.
---
 src/elements/polyline.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index baf4f39..6b82edb 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -696,6 +696,10 @@ impl Polyline {
             if continence == Continence::Boundary {
                 continue;
             }
+            if possible_continence.is_none() {
+                possible_continence = Some(continence);
+                continue;
+            }
             if Some(continence) != possible_continence {
                 return None;
             }
-- 
2.43.0

