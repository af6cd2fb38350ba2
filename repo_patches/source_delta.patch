From 39775e4d3352e991d93b16f79fbc0ad006f82062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 01/30] fix: redistribute pending vertices over every remaining
 triangle

---
 src/planar/triangulation_procedures/vertices.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index ea0780a..ff49826 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -182,6 +182,14 @@ pub fn solve_conflicts(
                 );
             }
         } /* end - while pending edges */
+
+        /* conflicts of removed triangles may belong to any triangle left */
+        for triangle in triangulation.triangles.iter() {
+            if remaining_vertices.is_empty() {
+                break;
+            }
+            distribute_conflicts(triangle, conflict_map, remaining_vertices, boundary, holes);
+        }
     } /* end - distributing vertices */
 
     return (included_triangles, removed_triangles);
-- 
2.43.0


From 8f157f1a210eb4e7d71d5580a0152ba3510f9eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 02/30] fix: in-circle test misjudged cocircular vertices
 because of LU rounding

---
 src/properties/continence.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/properties/continence.rs b/src/properties/continence.rs
index 5d8767a..3cfee28 100644
--- a/src/properties/continence.rs
+++ b/src/properties/continence.rs
@@ -2,7 +2,7 @@ extern crate nalgebra;
 
 use crate::elements::vertex::*;
 
-use nalgebra::Matrix4;
+use nalgebra::Matrix3;
 
 #[derive(PartialEq, Debug)]
 pub enum Continence {
@@ -22,11 +22,14 @@ pub enum BoundaryInclusion {
  * Vertices a, b and c must be in counterclockwise order.
  */
 pub fn continence(a: &Vertex, b: &Vertex, c: &Vertex, d: &Vertex) -> Continence {
-    let matrix = Matrix4::new(
-        a.x, a.y, a.x.powi(2) + a.y.powi(2), 1.0,
-        b.x, b.y, b.x.powi(2) + b.y.powi(2), 1.0,
-        c.x, c.y, c.x.powi(2) + c.y.powi(2), 1.0,
-        d.x, d.y, d.x.powi(2) + d.y.powi(2), 1.0,
+    /* coordinates relative to d, so that cocircular vertices result in no rounding residue */
+    let (ax, ay) = (a.x - d.x, a.y - d.y);
+    let (bx, by) = (b.x - d.x, b.y - d.y);
+    let (cx, cy) = (c.x - d.x, c.y - d.y);
+    let matrix = Matrix3::new(
+        ax, ay, ax.powi(2) + ay.powi(2),
+        bx, by, bx.powi(2) + by.powi(2),
+        cx, cy, cx.powi(2) + cy.powi(2),
     );
     let det = matrix.determinant();
 
-- 
2.43.0


From 9ed64963e6fd9b2bd985a6bc2626778c289c52cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 03/30] fix: vertex sort compared x against y

---
 src/elements/vertex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/vertex.rs b/src/elements/vertex.rs
index a95cf75..4883dcd 100644
--- a/src/elements/vertex.rs
+++ b/src/elements/vertex.rs
@@ -122,7 +122,7 @@ impl Vertex {
     pub fn sort(vertex_list: &mut Vec<Rc<Vertex>>) {
         vertex_list.sort_by(|v1, v2| match v1.x.partial_cmp(&v2.x) {
             Some(Ordering::Equal) => v1.y.partial_cmp(&v2.y).unwrap(),
-            _ => v1.x.partial_cmp(&v2.y).unwrap(),
+            _ => v1.x.partial_cmp(&v2.x).unwrap(),
         });
     }
 }
-- 
2.43.0


From 192c20f5768f8411efb8151c076b1d0fdcbc12f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 04/30] fix: output coordinates follow the order of the
 triangle indices

---
 src/json_serializar/models/output.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/json_serializar/models/output.rs b/src/json_serializar/models/output.rs
index 17e1a76..5acd2c6 100644
--- a/src/json_serializar/models/output.rs
+++ b/src/json_serializar/models/output.rs
@@ -71,8 +71,8 @@ impl TriangulationOutput {
             id: input.id,
             name: input.name.clone(),
             date: input.date.clone(),
-            coordinates: vertices_map
-                .keys()
+            coordinates: vertices_vec
+                .iter()
                 .map(|v| point::Point::from_vertex(v))
                 .collect(),
             triangles: triangulator
-- 
2.43.0


From d306ac2b4b07147c29eb458bc312f859a50593a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 05/30] fix: equal vertices hash equally whatever the sign of a
 zero coordinate

---
 src/elements/vertex.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/elements/vertex.rs b/src/elements/vertex.rs
index 4883dcd..6526bf7 100644
--- a/src/elements/vertex.rs
+++ b/src/elements/vertex.rs
@@ -17,12 +17,13 @@ pub struct Vertex {
 
 impl Hash for Vertex {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        let (m, e, s) = Float::integer_decode(self.x);
+        /* adding zero turns -0.0 into 0.0, as both are equal */
+        let (m, e, s) = Float::integer_decode(self.x + 0.0);
         m.hash(state);
         e.hash(state);
         s.hash(state);
 
-        let (m, e, s) = Float::integer_decode(self.y);
+        let (m, e, s) = Float::integer_decode(self.y + 0.0);
         m.hash(state);
         e.hash(state);
         s.hash(state);
-- 
2.43.0


From 052340e6a3b19d27aa99ea1b12a7209308b7c91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:01 +0000
Subject: [PATCH 06/30] fix: equal triangles hash equally whichever vertex they
 start from

---
 src/elements/triangle.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/elements/triangle.rs b/src/elements/triangle.rs
index d30539d..948164f 100644
--- a/src/elements/triangle.rs
+++ b/src/elements/triangle.rs
@@ -2,18 +2,31 @@ use crate::elements::{edge::*, polyline::*, vertex::*};
 use crate::properties::{area::*, circumcenter::*, continence::*, distance::*, orientation::*};
 
 use std::cmp::Eq;
+use std::collections::hash_map::DefaultHasher;
 use std::fmt;
 use std::fmt::Debug;
-use std::hash::Hash;
+use std::hash::{Hash, Hasher};
 use std::rc::Rc;
 
-#[derive(Hash, Debug)]
+#[derive(Debug)]
 pub struct Triangle {
     pub v1: Rc<Vertex>,
     pub v2: Rc<Vertex>,
     pub v3: Rc<Vertex>,
 }
 
+impl Hash for Triangle {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        /* equality ignores which vertex comes first, thus the hash must ignore it too */
+        let vertices_hash = [&self.v1, &self.v2, &self.v3].iter().fold(0, |acc: u64, v| {
+            let mut hasher = DefaultHasher::new();
+            v.hash(&mut hasher);
+            acc.wrapping_add(hasher.finish())
+        });
+        vertices_hash.hash(state);
+    }
+}
+
 impl PartialEq for Triangle {
     fn eq(&self, other: &Self) -> bool {
         self.v1 == other.v1 && self.v2 == other.v2 && self.v3 == other.v3
-- 
2.43.0


From 859f047aae68c5be1306fb1f2e712fc1fee41912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 07/30] fix: a ghost vertex is not ordered as equal to a vertex
 at the origin

---
 src/elements/vertex.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/elements/vertex.rs b/src/elements/vertex.rs
index 6526bf7..d108b23 100644
--- a/src/elements/vertex.rs
+++ b/src/elements/vertex.rs
@@ -52,6 +52,11 @@ impl Ord for Vertex {
             return Ordering::Equal;
         }
 
+        /* a ghost differs from every vertex: it comes last */
+        if self.is_ghost != other.is_ghost {
+            return self.is_ghost.cmp(&other.is_ghost);
+        }
+
         if self.x > other.x {
             return Ordering::Greater;
         } else if self.x < other.x {
-- 
2.43.0


From 23f6acaf36bcdf8337ac7d4ef9ab582f13c15b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 08/30] fix: the angle of colinear vertices was not a number

---
 src/properties/angle.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/properties/angle.rs b/src/properties/angle.rs
index 88a0ee8..6252f69 100644
--- a/src/properties/angle.rs
+++ b/src/properties/angle.rs
@@ -14,7 +14,8 @@ pub fn angle(a: &Vertex, b: &Vertex, c: &Vertex) -> Option<f64> {
     let bc: Vector2<f64> = Vector2::new(c.x - b.x, c.y - b.y);
 
     let cos_theta = ba.dot(&bc) / (ba.norm() * bc.norm());
-    let theta = cos_theta.acos();
+    /* rounding must not leave the domain of acos, as it does for colinear vertices */
+    let theta = cos_theta.max(-1.0).min(1.0).acos();
 
     if orientation(a, b, c) == Orientation::Clockwise {
         return Some(2.0 * std::f64::consts::PI - theta);
-- 
2.43.0


From 6229285e87272bf39e2e0effb43681ba9598a2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 09/30] fix: segments that touch or cross at a rounded vertex
 had no intersection

---
 src/properties/intersection.rs | 41 ++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/properties/intersection.rs b/src/properties/intersection.rs
index 6e1244a..17fe76e 100644
--- a/src/properties/intersection.rs
+++ b/src/properties/intersection.rs
@@ -5,6 +5,7 @@ extern crate nalgebra;
 
 use crate::elements::bounding_box::*;
 use crate::elements::vertex::*;
+use crate::properties::{orientation::*, parallel::*};
 
 use nalgebra::{Matrix2, Matrix2x1};
 use std::rc::Rc;
@@ -21,22 +22,38 @@ pub fn intersection(
     v3: &Rc<Vertex>,
     v4: &Rc<Vertex>,
 ) -> Option<Vertex> {
-    if let Some(bbox) = intersection_region(v1, v2, v3, v4) {
-        if let Some(vertex) = intersection_vertex(v1, v2, v3, v4, &bbox) {
-            let in_interval_x = (vertex.x >= bbox.origin.x && vertex.x <= bbox.destin.x)
-                || float_cmp::approx_eq!(f64, bbox.origin.x, vertex.x, epsilon = 1.0E-14f64)
-                || float_cmp::approx_eq!(f64, bbox.destin.x, vertex.x, epsilon = 1.0E-14f64);
-            let in_interval_y = (vertex.y >= bbox.origin.y && vertex.y <= bbox.destin.y)
-                || float_cmp::approx_eq!(f64, bbox.origin.y, vertex.y, epsilon = 1.0E-14f64)
-                || float_cmp::approx_eq!(f64, bbox.destin.y, vertex.y, epsilon = 1.0E-14f64);
-
-            if in_interval_x && in_interval_y {
-                return Some(vertex);
+    let bbox = intersection_region(v1, v2, v3, v4)?;
+    let mut vertex = intersection_vertex(v1, v2, v3, v4, &bbox)?;
+
+    if parallel(v1, v2, v3, v4) {
+        return Some(vertex);
+    }
+
+    /* Which side of a segment a vertex is at does not depend on the rounding of the vertex */
+    let sides = [
+        (v1, orientation(v3, v4, v1)),
+        (v2, orientation(v3, v4, v2)),
+        (v3, orientation(v1, v2, v3)),
+        (v4, orientation(v1, v2, v4)),
+    ];
+
+    /* A segment that ends at the other meets it at its end vertex */
+    for (end_vertex, side) in sides.iter() {
+        if *side == Orientation::Colinear {
+            if !bbox.contains(end_vertex) {
+                return None;
             }
+            return Some(Vertex::new(end_vertex.x, end_vertex.y));
         }
     }
 
-    return None;
+    if sides[0].1 == sides[1].1 || sides[2].1 == sides[3].1 {
+        return None;
+    }
+
+    vertex.x = vertex.x.max(bbox.origin.x).min(bbox.destin.x);
+    vertex.y = vertex.y.max(bbox.origin.y).min(bbox.destin.y);
+    return Some(vertex);
 }
 
 /**
-- 
2.43.0


From 3a2f29e70058695c25ef68b67f2e8fbae163ccfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 10/30] fix: a vertex was inserted through a triangle across a
 constraint

---
 src/planar/triangulation_procedures/vertices.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index ff49826..d962648 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -1,6 +1,6 @@
 use crate::elements::{edge::*, polyline::*, triangle::*, vertex::*};
 use crate::planar::{triangulation::*, triangulation_procedures};
-use crate::properties::continence::*;
+use crate::properties::{continence::*, orientation::*};
 
 use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
@@ -211,7 +211,9 @@ fn distribute_conflicts(
 
     for _ in 0..vertices.len() {
         let pending_vertex: Rc<Vertex> = vertices.remove(0);
-        let has_conflict = triangle.encircles(&pending_vertex) == Continence::Inside;
+        /* the triangle a vertex is in, unlike others it encircles, is never across a constraint */
+        let has_conflict = triangle.encircles(&pending_vertex) == Continence::Inside
+            && (triangle.is_ghost() || encloses(triangle, &pending_vertex));
 
         let may_insert = may_insert_triangle(&triangle, &pending_vertex, boundary, holes);
 
@@ -233,6 +235,15 @@ fn distribute_conflicts(
     }
 } /* end - distribute conflicts  */
 
+/**
+ * Evaluates if vertex is inside or at the sides of a solid triangle
+ */
+fn encloses(triangle: &Triangle, vertex: &Vertex) -> bool {
+    return orientation(&triangle.v1, &triangle.v2, vertex) != Orientation::Clockwise
+        && orientation(&triangle.v2, &triangle.v3, vertex) != Orientation::Clockwise
+        && orientation(&triangle.v3, &triangle.v1, vertex) != Orientation::Clockwise;
+}
+
 pub fn distribute_conflicts_over_triangulation(
     triangulation: &mut Triangulation,
     initial_triangle: Option<Rc<Triangle>>,
-- 
2.43.0


From e3eda1739a88c76f5cc784de53f3690558bf5364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:12 +0000
Subject: [PATCH 11/30] fix: segment inclusion left vertices out, removed
 constraints or panicked

---
 .../triangulation_procedures/segment.rs       | 229 ++++++++++--------
 1 file changed, 130 insertions(+), 99 deletions(-)

diff --git a/src/planar/triangulation_procedures/segment.rs b/src/planar/triangulation_procedures/segment.rs
index c6efc8d..48d7771 100644
--- a/src/planar/triangulation_procedures/segment.rs
+++ b/src/planar/triangulation_procedures/segment.rs
@@ -1,130 +1,161 @@
-use crate::elements::{edge::*, polyline::*, triangle::*, vertex::*};
+use crate::elements::{edge::*, triangle::*, vertex::*};
 use crate::planar::triangulation::*;
 use crate::properties::{continence::*, orientation::*};
 
 use crate::planar::triangulation_procedures;
 
-use std::collections::HashSet;
+use std::collections::{HashSet, VecDeque};
 use std::rc::Rc;
 
 /**
  * Includes Segment.
- * Takes all triangles that intercept the segment or whose circumcircle encircles
- * one of its end vertices, retriangulates the vertices of the triangle around the
- * segment having the segment as constraint. Reinserts the taken triangulation into
- * the main triangulation.
+ * Inserts the end vertices of the segment, then flips every edge that crosses the
+ * segment until none does, and at last flips the edges so created that are not
+ * locally Delaunay. Neither the segment nor any segment constraint is ever flipped.
  */
 pub fn include(
     triangulation: &mut Triangulation,
     segment: &Rc<Edge>,
     segment_constraints: &HashSet<Rc<Edge>>,
 ) {
-    let conflicting_triangles: HashSet<Rc<Triangle>> = triangulation
-        .triangles
-        .iter()
-        .filter(|t| !t.is_ghost())
-        .filter(|triangle| {
-            let polyline = triangle.as_polyline().unwrap();
-            let segment_polyline = segment.as_polyline().unwrap();
-
-            let contains_segment = Polyline::continence(&polyline, &segment_polyline)
-                != Some((Continence::Outside, BoundaryInclusion::Open));
-
-            let conflicts_v1 = triangle.encircles(&segment.v1) != Continence::Outside;
-            let conflicts_v2 = triangle.encircles(&segment.v2) != Continence::Outside;
-
-            return conflicts_v1 || conflicts_v2 || contains_segment;
-        })
-        .filter(|triangle| {
-            let (e1, e2, e3) = triangle.outer_edges();
-            let is_constrained = vec![e1, e2, e3]
-                .iter()
-                .filter(|&edge| {
-                    segment_constraints.contains(edge)
-                        || segment_constraints.contains(&edge.opposite())
-                })
-                .fold(false, |acc, edge| {
-                    if acc == true {
-                        return true;
-                    }
-                    let faces_v1 = orientation(&edge.v1, &edge.v2, &segment.v1)
-                        == Orientation::Counterclockwise;
-                    let faces_v2 = orientation(&edge.v1, &edge.v2, &segment.v2)
-                        == Orientation::Counterclockwise;
-
-                    return faces_v1 || faces_v2;
-                });
-            return !is_constrained;
-        })
-        .cloned()
-        .collect();
-
-    // Uncomment to debug
-    // println!("\n\nSolid Triangles");
-    // for t in triangulation.triangles.iter().filter(|t| !t.is_ghost()) {
-    //     println!("{}", t);
-    // }
-    // println!("\nConflicting Triangles against {}", segment);
-    // for t in conflicting_triangles.iter() {
-    //     println!("{}", t);
-    // }
-
-    for conflicting_triangle in conflicting_triangles.iter() {
-        triangulation.remove_triangle(conflicting_triangle);
-    }
-
-    let triangles_boundary: Rc<Polyline> =
-        Rc::new(Polyline::triangles_hull(&conflicting_triangles).unwrap());
+    triangulation_procedures::vertices::include(
+        triangulation,
+        vec![Rc::clone(&segment.v1), Rc::clone(&segment.v2)],
+        segment_constraints,
+        &None,
+        &HashSet::new(),
+    );
 
-    let conflicting_vertices: HashSet<Rc<Vertex>> = conflicting_triangles
+    let mut fixed_edges: HashSet<Rc<Edge>> = segment_constraints
         .iter()
-        .map(|triangle| {
-            vec![
-                Rc::clone(&triangle.v1),
-                Rc::clone(&triangle.v2),
-                Rc::clone(&triangle.v3),
-            ]
-        })
+        .map(|e| vec![Rc::clone(e), Rc::new(e.opposite())])
         .flatten()
         .collect();
+    fixed_edges.insert(Rc::clone(segment));
+    fixed_edges.insert(Rc::new(segment.opposite()));
 
-    let mut segment_triangulation = Triangulation::from_initial_segment((&segment.v1, &segment.v2));
-
-    let new_segment_constraint: HashSet<Rc<Edge>> =
-        vec![Rc::clone(&segment)].iter().cloned().collect();
-
-    triangulation_procedures::boundary::include(
-        &mut segment_triangulation,
-        &triangles_boundary,
-        &new_segment_constraint,
-    );
-
-    triangulation_procedures::vertices::include(
-        &mut segment_triangulation,
-        conflicting_vertices.iter().cloned().collect(),
-        &new_segment_constraint,
-        &Some(Rc::clone(&triangles_boundary)),
-        &HashSet::new(),
-    );
-
-    let new_solid_triangles: HashSet<Rc<Triangle>> = segment_triangulation
-        .triangles
+    /* crossing edges, each of them in the direction that leaves the segment to its left */
+    let mut crossing_edges: VecDeque<Rc<Edge>> = triangulation
+        .edges()
         .iter()
-        .filter(|t| !t.is_ghost())
+        .filter(|e| !e.v1.is_ghost && !e.v2.is_ghost)
+        .filter(|e| crosses(segment, e))
+        .filter(|e| orientation(&e.v1, &e.v2, &segment.v1) == Orientation::Counterclockwise)
         .cloned()
         .collect();
 
-    // Uncomment to debug
-    // println!("\nNew Solid Triangles");
-    // for t in new_solid_triangles.iter() {
-    //     println!("{}", t);
-    // }
+    let mut new_edges: VecDeque<Rc<Edge>> = VecDeque::new();
+    let mut postponed = 0;
+
+    while postponed < crossing_edges.len() {
+        let edge = crossing_edges.pop_front().unwrap();
+        match flip(triangulation, &edge, &fixed_edges) {
+            Some(flipped_edge) => {
+                postponed = 0;
+                if crosses(segment, &flipped_edge) {
+                    crossing_edges.push_back(flipped_edge);
+                } else {
+                    new_edges.push_back(flipped_edge);
+                }
+            }
+            None => {
+                /* flips of other edges may turn it into the diagonal of a convex quadrilateral */
+                postponed += 1;
+                crossing_edges.push_back(edge);
+            }
+        }
+    }
 
-    for new_triangle in new_solid_triangles.iter() {
-        triangulation.include_triangle(new_triangle);
+    /* an edge flipped away is never taken back, so that this comes to an end */
+    let mut discarded_edges: HashSet<Rc<Edge>> = HashSet::new();
+    let mut untouched = 0;
+
+    while untouched < new_edges.len() {
+        let edge = new_edges.pop_front().unwrap();
+        let flipped_edge = match facing_vertices(triangulation, &edge) {
+            Some((left, right))
+                if Triangle::new(&edge.v1, &edge.v2, &left).encircles(&right)
+                    == Continence::Inside
+                    && !discarded_edges.contains(&Rc::new(Edge::new(&left, &right)))
+                    && !discarded_edges.contains(&Rc::new(Edge::new(&right, &left))) =>
+            {
+                flip(triangulation, &edge, &fixed_edges)
+            }
+            _ => None,
+        };
+        match flipped_edge {
+            Some(flipped_edge) => {
+                untouched = 0;
+                discarded_edges.insert(edge);
+                new_edges.push_back(flipped_edge);
+            }
+            None => {
+                untouched += 1;
+                new_edges.push_back(edge);
+            }
+        }
     }
 } /* end - include segment */
 
+/**
+ * Evaluates if segments cross each other at a vertex that is an end of neither
+ */
+fn crosses(s1: &Edge, s2: &Edge) -> bool {
+    let faces = |e: &Edge, v: &Vertex| orientation(&e.v1, &e.v2, v);
+    let separates = |e: &Edge, a: &Vertex, b: &Vertex| {
+        faces(e, a) != Orientation::Colinear
+            && faces(e, b) != Orientation::Colinear
+            && faces(e, a) != faces(e, b)
+    };
+
+    return separates(s1, &s2.v1, &s2.v2) && separates(s2, &s1.v1, &s1.v2);
+}
+
+/**
+ * Finds the vertices opposite to the edge in the triangles at its left and at its right,
+ * as long as both are solid.
+ */
+fn facing_vertices(
+    triangulation: &Triangulation,
+    edge: &Rc<Edge>,
+) -> Option<(Rc<Vertex>, Rc<Vertex>)> {
+    let opposite = Rc::new(edge.opposite());
+    let left = triangulation.adjacency.get(edge)?.opposite_vertex(edge)?;
+    let right = triangulation
+        .adjacency
+        .get(&opposite)?
+        .opposite_vertex(&opposite)?;
+
+    if left.is_ghost || right.is_ghost {
+        return None;
+    }
+    return Some((left, right));
+}
+
+/**
+ * Replaces the edge by the other diagonal of the quadrilateral its triangles compose.
+ * Returns the diagonal, or nothing if the edge can not be flipped.
+ */
+fn flip(
+    triangulation: &mut Triangulation,
+    edge: &Rc<Edge>,
+    fixed_edges: &HashSet<Rc<Edge>>,
+) -> Option<Rc<Edge>> {
+    let (left, right) = facing_vertices(triangulation, edge)?;
+    let diagonal = Rc::new(Edge::new(&right, &left));
+
+    if fixed_edges.contains(edge) || !crosses(edge, &diagonal) {
+        return None;
+    }
+
+    triangulation.remove_triangle(&Rc::new(Triangle::new(&edge.v1, &edge.v2, &left)));
+    triangulation.remove_triangle(&Rc::new(Triangle::new(&edge.v2, &edge.v1, &right)));
+    triangulation.include_triangle(&Rc::new(Triangle::new(&right, &left, &edge.v1)));
+    triangulation.include_triangle(&Rc::new(Triangle::new(&left, &right, &edge.v2)));
+
+    return Some(diagonal);
+}
+
 #[cfg(test)]
 mod include_segment {
     use super::*;
-- 
2.43.0


From d2064fb4d76d42ff020dc01f9fc7ab87daad531d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:12 +0000
Subject: [PATCH 12/30] fix: edges of a concave boundary were not included

---
 .../triangulation_procedures/boundary.rs      | 31 +++++++++----------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/planar/triangulation_procedures/boundary.rs b/src/planar/triangulation_procedures/boundary.rs
index d7b9639..a872fb0 100644
--- a/src/planar/triangulation_procedures/boundary.rs
+++ b/src/planar/triangulation_procedures/boundary.rs
@@ -31,22 +31,21 @@ pub fn include(
     );
 
     /* Inserts missing segments */
-    // let existing_segments: HashSet<Rc<Edge>> = triangulation.edges();
-    // let missing_segments: HashSet<Rc<Edge>> = boundary_segments
-    //     .iter()
-    //     .filter(|&e| !existing_segments.contains(e))
-    //     .cloned()
-    //     .collect();
-
-    // let segment_contraints = segment_constraints
-    //     .iter()
-    //     .chain(boundary_segments.iter())
-    //     .cloned()
-    //     .collect();
-
-    // for segment in missing_segments.iter() {
-    //     Self::include_segment(triangulation, segment, &segment_contraints);
-    // }
+    let segment_constraints: HashSet<Rc<Edge>> = segment_constraints
+        .iter()
+        .chain(boundary_segments.iter())
+        .cloned()
+        .collect();
+
+    for segment in boundary_segments.iter() {
+        if !triangulation.edges().contains(segment) {
+            triangulation_procedures::segment::include(
+                triangulation,
+                segment,
+                &segment_constraints,
+            );
+        }
+    }
 
     /* Inserting outer hole */
     let mut pending_edges: Vec<Rc<Edge>> = Vec::new();
-- 
2.43.0


From 3439c9d501247b174a4008073f0d2ea3dda3bc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:12 +0000
Subject: [PATCH 13/30] fix: hole inclusion did not end when a hole edge could
 not be included

---
 src/planar/triangulation_procedures/hole.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/planar/triangulation_procedures/hole.rs b/src/planar/triangulation_procedures/hole.rs
index 697e862..9c3b35f 100644
--- a/src/planar/triangulation_procedures/hole.rs
+++ b/src/planar/triangulation_procedures/hole.rs
@@ -48,21 +48,14 @@ pub fn include(
     // }
 
     /* Inserts missing segments */
-    loop {
-        let existing_segments: HashSet<Rc<Edge>> = triangulation.edges();
-        let missing_segment = hole_segments
-            .iter()
-            .find(|&e| !existing_segments.contains(e));
-
-        if missing_segment.is_none() {
-            break;
+    for segment in hole_segments.iter() {
+        if !triangulation.edges().contains(segment) {
+            triangulation_procedures::segment::include(
+                triangulation,
+                segment,
+                &segment_constraints,
+            );
         }
-
-        triangulation_procedures::segment::include(
-            triangulation,
-            missing_segment.unwrap(),
-            &segment_constraints,
-        );
     }
 
     /* Inserting ghost triangles into holes */
-- 
2.43.0


From 0028b01570d14d80ae1d0100a945c101525f25de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:12 +0000
Subject: [PATCH 14/30] fix: vertices were inserted through ghost triangles of
 holes they are out of

---
 .../triangulation_procedures/vertices.rs      | 70 ++++++++++++-------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index d962648..3200850 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -23,18 +23,13 @@ pub fn include(
         .collect();
 
     let mut conflict_map: HashMap<Rc<Triangle>, Vec<Rc<Vertex>>> = HashMap::new();
-    for possible_triangle in triangulation.triangles.iter() {
-        if vertices.is_empty() {
-            break;
-        }
-        distribute_conflicts(
-            possible_triangle,
-            &mut conflict_map,
-            &mut vertices,
-            boundary,
-            holes,
-        );
-    }
+    distribute_conflicts_solid_first(
+        triangulation,
+        &mut conflict_map,
+        &mut vertices,
+        boundary,
+        holes,
+    );
 
     return solve_conflicts(
         triangulation,
@@ -173,23 +168,26 @@ pub fn solve_conflicts(
                 triangulation.include_triangle(&new_triangle);
                 included_triangles.insert(Rc::clone(&new_triangle));
 
-                distribute_conflicts(
-                    &new_triangle,
-                    conflict_map,
-                    remaining_vertices,
-                    boundary,
-                    holes,
-                );
+                if !new_triangle.is_ghost() {
+                    distribute_conflicts(
+                        &new_triangle,
+                        conflict_map,
+                        remaining_vertices,
+                        boundary,
+                        holes,
+                    );
+                }
             }
         } /* end - while pending edges */
 
         /* conflicts of removed triangles may belong to any triangle left */
-        for triangle in triangulation.triangles.iter() {
-            if remaining_vertices.is_empty() {
-                break;
-            }
-            distribute_conflicts(triangle, conflict_map, remaining_vertices, boundary, holes);
-        }
+        distribute_conflicts_solid_first(
+            triangulation,
+            conflict_map,
+            remaining_vertices,
+            boundary,
+            holes,
+        );
     } /* end - distributing vertices */
 
     return (included_triangles, removed_triangles);
@@ -235,6 +233,28 @@ fn distribute_conflicts(
     }
 } /* end - distribute conflicts  */
 
+/**
+ * Distributes the conflicts over the solid triangles, then over the ghost ones. A vertex may
+ * face the ghost triangle of a hole or of a concave boundary and be in a solid one.
+ */
+fn distribute_conflicts_solid_first(
+    triangulation: &Triangulation,
+    conflict_map: &mut HashMap<Rc<Triangle>, Vec<Rc<Vertex>>>,
+    vertices: &mut Vec<Rc<Vertex>>,
+    boundary: &Option<Rc<Polyline>>,
+    holes: &HashSet<Rc<Polyline>>,
+) {
+    let solid_triangles = triangulation.triangles.iter().filter(|t| !t.is_ghost());
+    let ghost_triangles = triangulation.triangles.iter().filter(|t| t.is_ghost());
+
+    for triangle in solid_triangles.chain(ghost_triangles) {
+        if vertices.is_empty() {
+            break;
+        }
+        distribute_conflicts(triangle, conflict_map, vertices, boundary, holes);
+    }
+}
+
 /**
  * Evaluates if vertex is inside or at the sides of a solid triangle
  */
-- 
2.43.0


From 59d35d5c510b606e808c5d209e189ca591433aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 15/30] fix: polylines that touch each other were judged apart

---
 src/elements/polyline.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 4592e97..22787ab 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -708,7 +708,7 @@ impl Polyline {
         for critial_vertex in p2
             .into_edges()
             .iter()
-            .map(|e| vec![Rc::new(e.midpoint()), Rc::clone(&e.v1)])
+            .map(|e| vec![Rc::new(e.midpoint()), Rc::clone(&e.v1), Rc::clone(&e.v2)])
             .flatten()
         {
             let continence = p1.contains(&critial_vertex).unwrap();
@@ -727,6 +727,13 @@ impl Polyline {
             }
         }
 
+        /* vertices of p1 may be at the boundary of p2, be none of p2 at the boundary of p1 */
+        for edge in p2.into_edges().iter() {
+            if p1.vertices.iter().any(|v| edge.contains(v)) {
+                possible_boundary = BoundaryInclusion::Closed;
+            }
+        }
+
         let p1_pairs = vertex_pairs(&p1.vertices, p1.opened);
         let p2_pairs = vertex_pairs(&p2.vertices, p2.opened);
 
-- 
2.43.0


From 58220a51d3cee125bf97e6782b4e4e75041abe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 16/30] fix: a hole around an existing hole was accepted

---
 src/planar/triangulator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index 8962f84..855a596 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -214,8 +214,11 @@ impl Triangulator {
         }
 
         for existing_hole in self.holes.iter() {
+            /* a hole around an existing one has every vertex outside it */
             let is_hole_outside_existing_hole = Polyline::continence(existing_hole, hole)
-                == Some((Continence::Outside, BoundaryInclusion::Open));
+                == Some((Continence::Outside, BoundaryInclusion::Open))
+                && Polyline::continence(hole, existing_hole)
+                    == Some((Continence::Outside, BoundaryInclusion::Open));
 
             if !is_hole_outside_existing_hole {
                 conflicting_vertices = conflicting_vertices
-- 
2.43.0


From 72f7f8d9fd1d83ad90c8d35617a0fa7906d86330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 17/30] fix: only the last hole kept vertices out

---
 src/planar/triangulation_procedures/vertices.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index 3200850..6306c9c 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -335,7 +335,7 @@ fn may_insert_triangle(
 
     for hole in holes.iter() {
         if let Some((continence, _)) = Polyline::continence(&hole, &p2) {
-            is_outside_holes = continence != Continence::Inside;
+            is_outside_holes &= continence != Continence::Inside;
         } else {
             is_outside_holes = false;
         }
-- 
2.43.0


From c0d99b6fd36668d7b3ac383226a98d06ffc2838f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 18/30] fix: refine gave up triangles whose circumcenter is
 beyond a segment

---
 .../refine_procedures/triangle_split.rs       | 70 ++++++++++++++++++-
 1 file changed, 67 insertions(+), 3 deletions(-)

diff --git a/src/planar/refine_procedures/triangle_split.rs b/src/planar/refine_procedures/triangle_split.rs
index ab2a047..a925b58 100644
--- a/src/planar/refine_procedures/triangle_split.rs
+++ b/src/planar/refine_procedures/triangle_split.rs
@@ -4,7 +4,7 @@ use crate::planar::{
     triangulation_procedures,
 };
 
-use crate::properties::continence::*;
+use crate::properties::{continence::*, distance::*, dot::*, intersection::*};
 
 use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
@@ -40,6 +40,49 @@ fn is_large_triangle(triangle: &Triangle, params: &RefineParams) -> bool {
     return greater_area;
 }
 
+/**
+ * Determines if any two segments meet at an angle under 60 degrees, in which case splitting
+ * them until no triangle is irregular may never end.
+ */
+fn has_sharp_corner(segment_constraints: &HashSet<Rc<Edge>>) -> bool {
+    let arms: Vec<(Rc<Vertex>, Rc<Vertex>)> = segment_constraints
+        .iter()
+        .map(|s| {
+            vec![
+                (Rc::clone(&s.v1), Rc::clone(&s.v2)),
+                (Rc::clone(&s.v2), Rc::clone(&s.v1)),
+            ]
+        })
+        .flatten()
+        .collect();
+
+    return arms.iter().any(|(corner, end)| {
+        arms.iter().any(|(other_corner, other_end)| {
+            other_corner == corner
+                && other_end != end
+                && dot(corner, end, corner, other_end)
+                    > 0.5 * distance(corner, end) * distance(corner, other_end)
+        })
+    });
+}
+
+/**
+ * Finds the segments between the triangle and its circumcenter
+ */
+fn segments_before_circumcenter(
+    triangle: &Triangle,
+    segment_constraints: &HashSet<Rc<Edge>>,
+) -> HashSet<Rc<Edge>> {
+    let center = Rc::new(triangle.center());
+    let circumcenter = Rc::new(triangle.circumcenter().unwrap());
+
+    return segment_constraints
+        .iter()
+        .filter(|s| intersection(&center, &circumcenter, &s.v1, &s.v2).is_some())
+        .cloned()
+        .collect();
+}
+
 /**
  * Refines specified triangles, according to Rupperts refinement.
  * If the triangle's circumcenter is encroached, it splits the corresponding
@@ -76,6 +119,7 @@ pub fn split_irregular(
         .collect();
 
     let mut split_map: HashMap<Rc<Edge>, Rc<Edge>> = HashMap::new();
+    let is_insistent = !has_sharp_corner(&segment_contraints);
 
     loop {
         let triangle;
@@ -102,13 +146,24 @@ pub fn split_irregular(
         //     println!("{}", t);
         // }
 
-        match try_circumcenter_insertion(
+        let mut insertion = try_circumcenter_insertion(
             triangulation,
             &triangle,
             &segment_contraints,
             boundary,
             holes,
-        ) {
+        );
+
+        /* a circumcenter that no triangle takes is beyond the segments to be split */
+        let is_beyond_segment = insertion.as_ref().map_or(false, |(t, _)| t.is_empty());
+        if is_beyond_segment && is_insistent {
+            let obstacles = segments_before_circumcenter(&triangle, &segment_contraints);
+            if !obstacles.is_empty() {
+                insertion = Err(obstacles);
+            }
+        }
+
+        match insertion {
             Ok((included_triangles, removed_triangles)) => {
                 for new_triangle in included_triangles.iter().filter(|t| !t.is_ghost()) {
                     if is_irregular_triangle(new_triangle, params) {
@@ -164,6 +219,15 @@ pub fn split_irregular(
                         large_triangles.remove(old_triangle);
                     }
                 }
+
+                /* the splits may not have reached the triangle */
+                if is_insistent && triangulation.triangles.contains(&triangle) {
+                    if is_irregular_triangle(&triangle, params) {
+                        irregular_triangles.insert(triangle);
+                    } else {
+                        large_triangles.insert(triangle);
+                    }
+                }
             }
         }
     }
-- 
2.43.0


From 64f45251280d96d9923760e0572c2c47e52e9dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:41 +0000
Subject: [PATCH 19/30] fix: boolean operations left out segments whose rounded
 midpoint is off the boundary

---
 src/elements/polyline.rs | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 22787ab..591f51a 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -1,8 +1,9 @@
 use crate::elements::{bounding_box::*, edge::*, triangle::*, vertex::*};
 
 use crate::properties::angle::*;
-use crate::properties::area::area_segments;
+use crate::properties::area::{area_segments, area_triangle};
 use crate::properties::continence::*;
+use crate::properties::distance::*;
 use crate::properties::dot::*;
 use crate::properties::intersection::*;
 use crate::properties::midpoint::*;
@@ -202,6 +203,29 @@ impl Polyline {
         return Some(Continence::Inside);
     }
 
+    /**
+     * Locates a vertex computed from the segments of this polyline and of another one. The
+     * rounding of a vertex of one of these segments must not take it off the boundary.
+     */
+    fn locates(&self, vertex: &Vertex) -> Continence {
+        let is_at_boundary = vertex_pairs(&self.vertices, self.opened)
+            .iter()
+            .any(|(v1, v2)| {
+                let length = distance(v1, v2);
+                let deviation = area_triangle(v1, v2, vertex).abs() * 2.0 / length;
+                let projection = dot(v1, v2, v1, vertex);
+
+                return deviation <= length * 1.0E-12
+                    && 0.0 <= projection
+                    && projection <= length * length;
+            });
+
+        if is_at_boundary {
+            return Continence::Boundary;
+        }
+        return self.contains(vertex).unwrap();
+    }
+
     /**
      * Determines the intersection between two closed polylines clockwise oriented.
      * Returns a Vec of polylines that results from the intersection operation and
@@ -297,8 +321,8 @@ impl Polyline {
                 let (v1, v2) = possible_segments.pop().unwrap();
                 let midpoint = midpoint(&v1, &v2);
 
-                let contains_mid = p1.contains(&midpoint).unwrap() != Continence::Outside
-                    && p2.contains(&midpoint).unwrap() != Continence::Outside;
+                let contains_mid = p1.locates(&midpoint) != Continence::Outside
+                    && p2.locates(&midpoint) != Continence::Outside;
 
                 if contains_mid {
                     read_segments.push((v1, v2));
@@ -419,8 +443,8 @@ impl Polyline {
             let (v1, v2) = possible_segments.pop().unwrap();
             let midpoint = midpoint(&v1, &v2);
 
-            let dont_contains_mid = p1.contains(&midpoint).unwrap() == Continence::Outside
-                || p2.contains(&midpoint).unwrap() == Continence::Outside;
+            let dont_contains_mid = p1.locates(&midpoint) == Continence::Outside
+                || p2.locates(&midpoint) == Continence::Outside;
 
             if dont_contains_mid {
                 read_segments.push((v1, v2));
@@ -608,8 +632,8 @@ impl Polyline {
             let (v1, v2) = possible_segments.pop().unwrap();
             let midpoint = midpoint(&v1, &v2);
 
-            let inside_p1 = p1.contains(&midpoint).unwrap() != Continence::Outside;
-            let not_inside_p2 = p2.contains(&midpoint).unwrap() != Continence::Inside;
+            let inside_p1 = p1.locates(&midpoint) != Continence::Outside;
+            let not_inside_p2 = p2.locates(&midpoint) != Continence::Inside;
 
             if inside_p1 && not_inside_p2 {
                 read_segments.push((v1, v2));
-- 
2.43.0


From d82cf38399e3f8a90ff6f346d1a1ddff27f6f399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 20/30] fix: union of polylines apart returned one of them

---
 src/elements/polyline.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 591f51a..e734f55 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -453,6 +453,11 @@ impl Polyline {
             }
         }
 
+        /* bounding boxes may meet, be the polylines apart */
+        if unused_segments.is_empty() && Self::intersection_vertices(p1, p2).is_empty() {
+            return None;
+        }
+
         let mut possible_segments: HashSet<(Rc<Vertex>, Rc<Vertex>)> =
             read_segments.iter().cloned().collect();
 
-- 
2.43.0


From 88c741ef5d4d29ae74fe735f80339bcddf37690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:24 +0000
Subject: [PATCH 21/30] fix: intersection and subtraction of polylines that
 touch end to end did not end

---
 src/elements/polyline.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index e734f55..9143d34 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -267,6 +267,7 @@ impl Polyline {
                     if !intersection(&v1, &v2, v3, v4).is_none() {
                         let is_parallel = parallel(&v1, &v2, v3, v4);
                         let have_opposite_directions = dot(&v1, &v2, v3, v4) < 0.0;
+                        let do_overlap = &v1 != v3 && &v2 != v4;
 
                         let is_polyline_continuation = &v1 == v4 || &v2 == v3;
                         let is_outside = p1.contains(&v1).unwrap() == Continence::Outside
@@ -280,6 +281,7 @@ impl Polyline {
 
                         return is_parallel
                             && have_opposite_directions
+                            && do_overlap
                             && (is_polyline_continuation || is_outside);
                     }
                     return false;
@@ -585,6 +587,7 @@ impl Polyline {
                 }
                 let is_parallel = parallel(&v1, &v2, v3, v4);
                 let have_opposite_directions = dot(&v1, &v2, v3, v4) < 0.0;
+                let do_overlap = &v1 != v3 && &v2 != v4;
 
                 let is_polyline_continuation = &v1 == v4 || &v2 == v3;
                 let is_outside = p1.contains(&v1).unwrap() == Continence::Outside
@@ -598,6 +601,7 @@ impl Polyline {
 
                 return is_parallel
                     && have_opposite_directions
+                    && do_overlap
                     && (is_polyline_continuation || is_outside);
             }) {
                 Some(index) => {
-- 
2.43.0


From e26e173c622d1bca0120f8b965d571cf6d6e1cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:46 +0000
Subject: [PATCH 22/30] fix: union lost the sides both polylines share

---
 src/elements/polyline.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 9143d34..3e87431 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -438,6 +438,8 @@ impl Polyline {
                 .cloned()
                 .collect(),
         );
+        let splited_segments: HashSet<(Rc<Vertex>, Rc<Vertex>)> =
+            possible_segments.iter().cloned().collect();
         let mut read_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
 
         /* Filters by continence */
@@ -448,7 +450,12 @@ impl Polyline {
             let dont_contains_mid = p1.locates(&midpoint) == Continence::Outside
                 || p2.locates(&midpoint) == Continence::Outside;
 
-            if dont_contains_mid {
+            /* a side of both polylines, as long as they are at the same side of it */
+            let is_common_side = p1.locates(&midpoint) == Continence::Boundary
+                && p2.locates(&midpoint) == Continence::Boundary
+                && !splited_segments.contains(&(Rc::clone(&v2), Rc::clone(&v1)));
+
+            if dont_contains_mid || is_common_side {
                 read_segments.push((v1, v2));
             } else {
                 unused_segments.insert((v1, v2));
-- 
2.43.0


From 1371c03c4995021a13fed159c6302c0cd89935ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:09 +0000
Subject: [PATCH 23/30] fix: a hole united with others was also kept on its own

---
 src/triangulator_interface/domain_evaluator.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/triangulator_interface/domain_evaluator.rs b/src/triangulator_interface/domain_evaluator.rs
index 28edcad..9a1899b 100644
--- a/src/triangulator_interface/domain_evaluator.rs
+++ b/src/triangulator_interface/domain_evaluator.rs
@@ -80,15 +80,19 @@ pub fn holes(boundary: &Rc<Polyline>, removes: &Vec<Rc<Polyline>>) -> HashSet<Rc
             continue;
         }
 
-        for existing_hole in holes.iter().cloned() {
+        let mut is_united = false;
+        for existing_hole in holes.iter().cloned().collect::<Vec<Rc<Polyline>>>() {
             if let Some((union, _)) = Polyline::union(&existing_hole, &possible_removal) {
                 holes.remove(&existing_hole);
                 removes.push(Rc::new(union));
+                is_united = true;
                 break;
             }
         }
 
-        holes.insert(possible_removal);
+        if !is_united {
+            holes.insert(possible_removal);
+        }
     }
 
     return holes;
-- 
2.43.0


From da19049d589dbb455f26f8cbd7ce80d14f317226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:10 +0000
Subject: [PATCH 24/30] fix: a removal inside the boundary was dropped once
 another one reached it

---
 src/triangulator_interface/domain_evaluator.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/triangulator_interface/domain_evaluator.rs b/src/triangulator_interface/domain_evaluator.rs
index 9a1899b..cc7b008 100644
--- a/src/triangulator_interface/domain_evaluator.rs
+++ b/src/triangulator_interface/domain_evaluator.rs
@@ -1,6 +1,6 @@
 use nlsn_delaunay::{elements::polyline::*, properties::continence::*};
 
-use std::collections::HashSet;
+use std::collections::{HashSet, VecDeque};
 use std::rc::Rc;
 
 /**
@@ -40,18 +40,22 @@ pub fn boundary(
         return Err(());
     }
 
-    for possible_removal in removes.iter() {
-        let (subtraction_list, _) = Polyline::subtraction(&boundary, possible_removal);
-        
+    let mut removes: VecDeque<Rc<Polyline>> = removes.iter().cloned().collect();
+
+    while let Some(possible_removal) = removes.pop_front() {
+        let (subtraction_list, _) = Polyline::subtraction(&boundary, &possible_removal);
+
         if subtraction_list.len() > 1 {
             /* divided union in more than 1 */
             return Err(());
         }
         if subtraction_list.len() == 1 {
             boundary = Rc::clone(subtraction_list.get(0).unwrap());
+            /* removals left unused may reach the new boundary */
+            removes.extend(unused_removals.drain(..));
             continue;
         }
-        unused_removals.push(Rc::clone(possible_removal));
+        unused_removals.push(possible_removal);
     }
 
     return Ok((boundary, unused_removals));
-- 
2.43.0


From c0c03bc701bd16df5fa82631c39f4214d672cecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:11 +0000
Subject: [PATCH 25/30] fix: input with missing vertices was not rejected but
 panicked

---
 src/triangulator_interface/interpreter/circle_parser.rs   | 2 +-
 src/triangulator_interface/interpreter/polyline_parser.rs | 2 +-
 src/triangulator_interface/interpreter/segments_parser.rs | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/triangulator_interface/interpreter/circle_parser.rs b/src/triangulator_interface/interpreter/circle_parser.rs
index c3c66af..d910baf 100644
--- a/src/triangulator_interface/interpreter/circle_parser.rs
+++ b/src/triangulator_interface/interpreter/circle_parser.rs
@@ -23,7 +23,7 @@ pub fn parse(action: &Action) -> Result<Polyline, ()> {
             vertices.push(Rc::new(vertex));
         }
 
-        return Ok(Polyline::new_closed(vertices).unwrap());
+        return Polyline::new_closed(vertices).ok_or(());
     }
     return Err(());
 }
diff --git a/src/triangulator_interface/interpreter/polyline_parser.rs b/src/triangulator_interface/interpreter/polyline_parser.rs
index 19783b1..734b681 100644
--- a/src/triangulator_interface/interpreter/polyline_parser.rs
+++ b/src/triangulator_interface/interpreter/polyline_parser.rs
@@ -25,7 +25,7 @@ pub fn parse(action: &Action) -> Result<Polyline, ()> {
         return Err(());
     }
 
-    return Ok(Polyline::new_closed(vertices).unwrap());
+    return Polyline::new_closed(vertices).ok_or(());
 } /* end - parse */
 
 fn point_to_vertex(point: &Point) -> Vertex {
diff --git a/src/triangulator_interface/interpreter/segments_parser.rs b/src/triangulator_interface/interpreter/segments_parser.rs
index bd26c42..c1f720b 100644
--- a/src/triangulator_interface/interpreter/segments_parser.rs
+++ b/src/triangulator_interface/interpreter/segments_parser.rs
@@ -16,8 +16,8 @@ pub fn parse(action: &Action) -> Result<HashSet<Rc<Edge>>, ()> {
             let p1_index: usize = *set.get(0).unwrap();
             let p2_index: usize = *set.get(1).unwrap();
 
-            let p1 = action.points.get(p1_index).unwrap();
-            let p2 = action.points.get(p2_index).unwrap();
+            let p1 = action.points.get(p1_index).ok_or(())?;
+            let p2 = action.points.get(p2_index).ok_or(())?;
 
             let v1 = Rc::new(point_to_vertex(p1));
             let v2 = Rc::new(point_to_vertex(p2));
-- 
2.43.0


From 32ea31f15164dd486586b4a2f92a730095e4f058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:40 +0000
Subject: [PATCH 26/30] fix: edges that do not close were arranged into a
 closed polyline

---
 src/elements/polyline.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 3e87431..c2fb905 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -92,13 +92,15 @@ impl Polyline {
             hash_edges.insert(Rc::clone(&edge.v1), Rc::clone(&edge.v2));
         }
 
-        let head: Rc<Vertex> = Rc::clone(hash_edges.keys().next().unwrap());
+        let head: Rc<Vertex> = Rc::clone(hash_edges.keys().next()?);
         let mut tail: Rc<Vertex> = Rc::clone(&head);
         arranged_vertices.push(Rc::clone(&head));
 
-        loop {
+        let mut is_closed = false;
+        while arranged_vertices.len() <= edges.len() {
             if let Some(next) = hash_edges.get(&tail) {
                 if next == &head {
+                    is_closed = true;
                     break;
                 }
                 arranged_vertices.push(Rc::clone(next));
@@ -108,8 +110,8 @@ impl Polyline {
             break;
         }
 
-        if arranged_vertices.len() == edges.len() {
-            return Some(Polyline::new_closed(arranged_vertices).unwrap());
+        if is_closed && arranged_vertices.len() == edges.len() {
+            return Polyline::new_closed(arranged_vertices);
         }
 
         return None;
-- 
2.43.0


From 23c4a41ce8220088144fc0adf3dc883c71dfb2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 27/30] fix: a segment was split at its own end

---
 src/planar/triangulator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index 855a596..4693964 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -155,6 +155,7 @@ impl Triangulator {
                 if &segment.v1 == vertex || &segment.v2 == vertex {
                     /* Ignore vertices if they are an end vertex */
                     self.vertices.remove(vertex);
+                    continue;
                 }
                 if segment.contains(vertex) {
                     /* splits segment if contained */
-- 
2.43.0


From 5b7f8b827ae452344a2a5052a9785b38a76e4e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:57 +0000
Subject: [PATCH 28/30] fix: a circumcenter inserted beyond a segment left its
 triangle irregular

---
 src/planar/refine_procedures/triangle_split.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/planar/refine_procedures/triangle_split.rs b/src/planar/refine_procedures/triangle_split.rs
index a925b58..5a31a10 100644
--- a/src/planar/refine_procedures/triangle_split.rs
+++ b/src/planar/refine_procedures/triangle_split.rs
@@ -289,6 +289,18 @@ fn try_circumcenter_insertion(
         return Err(encroachments);
     }
 
+    /* the circumcenter is beyond a segment and leaves the triangle as it was */
+    if !included_triangles.is_empty() && !removed_triangles.contains(triangle) {
+        for t in included_triangles.iter() {
+            triangulation.remove_triangle(t);
+        }
+
+        for t in removed_triangles.iter() {
+            triangulation.include_triangle(t);
+        }
+        return Ok((HashSet::new(), HashSet::new()));
+    }
+
     return Ok((included_triangles, removed_triangles));
 }
 
-- 
2.43.0


From ab26aae0a35e56191bffdab31407ced3e6991f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:00 +0000
Subject: [PATCH 29/30] fix: a removal of the whole domain was ignored

---
 src/triangulator_interface/domain_evaluator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/triangulator_interface/domain_evaluator.rs b/src/triangulator_interface/domain_evaluator.rs
index cc7b008..6d47ffb 100644
--- a/src/triangulator_interface/domain_evaluator.rs
+++ b/src/triangulator_interface/domain_evaluator.rs
@@ -11,6 +11,7 @@ use std::rc::Rc;
  * If includes is empty, Err is returned.
  * If any include is sepparated from the remaining, Err is returned.
  * If any removal, splits the union in two or more, Err is returned.
+ * If any removal leaves nothing of the union, Err is returned.
  */
 pub fn boundary(
     includes: &Vec<Rc<Polyline>>,
@@ -55,6 +56,11 @@ pub fn boundary(
             removes.extend(unused_removals.drain(..));
             continue;
         }
+        match Polyline::continence(&possible_removal, &boundary) {
+            /* nothing is left of the union */
+            Some((Continence::Inside, _)) | Some((Continence::Boundary, _)) => return Err(()),
+            _ => {}
+        }
         unused_removals.push(possible_removal);
     }
 
-- 
2.43.0


From 405ee88b248bd13916529b539c03b0acbb3cfa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:34 +0000
Subject: [PATCH 30/30] fix: the triangles included by unencroach were told to
 be those it removes

---
 src/planar/refine_procedures/encroachment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planar/refine_procedures/encroachment.rs b/src/planar/refine_procedures/encroachment.rs
index 469c39d..cc8d6a0 100644
--- a/src/planar/refine_procedures/encroachment.rs
+++ b/src/planar/refine_procedures/encroachment.rs
@@ -50,7 +50,7 @@ pub fn unencroach(
         included_triangles = included_triangles
             .iter()
             .chain(new_triangles.iter())
-            .filter(|&t| old_triangles.contains(t))
+            .filter(|&t| !old_triangles.contains(t))
             .cloned()
             .collect();
 
-- 
2.43.0

