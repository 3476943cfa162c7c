From 7eb950ee7d9c52720276a88376f94ce7a4113cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 01/38] fix: grow vertex cavities from the containing triangle
 and never lose a vertex

---
 .../triangulation_procedures/vertices.rs      | 140 +++++++++++-------
 1 file changed, 88 insertions(+), 52 deletions(-)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index ea0780a..5083072 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -1,6 +1,6 @@
 use crate::elements::{edge::*, polyline::*, triangle::*, vertex::*};
 use crate::planar::{triangulation::*, triangulation_procedures};
-use crate::properties::continence::*;
+use crate::properties::{continence::*, orientation::*};
 
 use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
@@ -23,18 +23,13 @@ pub fn include(
         .collect();
 
     let mut conflict_map: HashMap<Rc<Triangle>, Vec<Rc<Vertex>>> = HashMap::new();
-    for possible_triangle in triangulation.triangles.iter() {
-        if vertices.is_empty() {
-            break;
-        }
-        distribute_conflicts(
-            possible_triangle,
-            &mut conflict_map,
-            &mut vertices,
-            boundary,
-            holes,
-        );
-    }
+    distribute_conflicts_over_triangles(
+        &triangulation.triangles.iter().cloned().collect(),
+        &mut conflict_map,
+        &mut vertices,
+        boundary,
+        holes,
+    );
 
     return solve_conflicts(
         triangulation,
@@ -98,6 +93,8 @@ pub fn solve_conflicts(
             remaining_vertices.append(&mut conflicting_vertices);
         }
 
+        let mut cavity_triangles: Vec<Rc<Triangle>> = Vec::new();
+
         while !pending_cavities.is_empty() {
             let edge: Rc<Edge> = pending_cavities.pop().unwrap();
             let edge_to_outer_triangle: Rc<Edge> = Rc::new(edge.opposite());
@@ -112,21 +109,23 @@ pub fn solve_conflicts(
             let mut is_conflicting =
                 outer_triangle.encircles(&conflict_vertex) == Continence::Inside;
 
-            if outer_triangle.is_ghost() && !is_conflicting {
+            let mut is_constrained = segment_constraints.contains(&edge_to_outer_triangle)
+                || segment_constraints.contains(&edge);
+
+            let mut may_insert = true;
+
+            if outer_triangle.is_ghost() {
                 let outer_edge = Edge::new(&outer_triangle.v1, &outer_triangle.v2);
-                is_conflicting = outer_edge.contains(&conflict_vertex);
-                // Uncomment to debug
-                // println!(
-                //     "{} {} conflicting: {}",
-                //     outer_triangle, conflict_vertex, is_conflicting
-                // );
-            }
+                is_conflicting = is_conflicting || outer_edge.contains(&conflict_vertex);
 
-            let is_constrained = segment_constraints.contains(&edge_to_outer_triangle)
-                || segment_constraints.contains(&edge);
+                /* a ghost never moves away from a constrained segment */
+                is_constrained = is_constrained
+                    || segment_constraints.contains(&outer_edge)
+                    || segment_constraints.contains(&outer_edge.opposite());
 
-            let may_insert =
-                may_insert_triangle(&outer_triangle, &conflict_vertex, boundary, holes);
+                may_insert =
+                    may_insert_triangle(&outer_triangle, &conflict_vertex, boundary, holes);
+            }
 
             // Uncomment to debug
             // println!(
@@ -172,25 +171,53 @@ pub fn solve_conflicts(
                 }
                 triangulation.include_triangle(&new_triangle);
                 included_triangles.insert(Rc::clone(&new_triangle));
-
-                distribute_conflicts(
-                    &new_triangle,
-                    conflict_map,
-                    remaining_vertices,
-                    boundary,
-                    holes,
-                );
+                cavity_triangles.push(new_triangle);
             }
         } /* end - while pending edges */
+
+        /* every vertex left without triangle is inside of the retriangulated cavity */
+        distribute_conflicts_over_triangles(
+            &cavity_triangles,
+            conflict_map,
+            remaining_vertices,
+            boundary,
+            holes,
+        );
     } /* end - distributing vertices */
 
     return (included_triangles, removed_triangles);
 }
 
+/**
+ * Distributes the available vertices over the given triangles. The solid
+ * triangles take precedence, once ghost triangles are in conflict with the
+ * half plane that lies outside of them.
+ */
+fn distribute_conflicts_over_triangles(
+    triangles: &Vec<Rc<Triangle>>,
+    conflict_map: &mut HashMap<Rc<Triangle>, Vec<Rc<Vertex>>>,
+    vertices: &mut Vec<Rc<Vertex>>,
+    boundary: &Option<Rc<Polyline>>,
+    holes: &HashSet<Rc<Polyline>>,
+) {
+    let solid_triangles = triangles.iter().filter(|t| !t.is_ghost());
+    let ghost_triangles = triangles.iter().filter(|t| t.is_ghost());
+
+    for triangle in solid_triangles.chain(ghost_triangles) {
+        if vertices.is_empty() {
+            break;
+        }
+        distribute_conflicts(triangle, conflict_map, vertices, boundary, holes);
+    }
+}
+
 /**
  * Includes into the conflit_map the conflicts between the given triangle
- * and the available vertices. The conflict will be avoided if it violates
- * boudanry or hole constraints.
+ * and the available vertices. A solid triangle conflicts to the vertices
+ * it contains, so the cavity of a vertex always grows from where it is,
+ * instead of from the opposite side of some constrained segment. The conflict
+ * to a ghost triangle will be avoided if it violates boundary or hole
+ * constraints.
  */
 fn distribute_conflicts(
     triangle: &Rc<Triangle>,
@@ -203,11 +230,16 @@ fn distribute_conflicts(
 
     for _ in 0..vertices.len() {
         let pending_vertex: Rc<Vertex> = vertices.remove(0);
-        let has_conflict = triangle.encircles(&pending_vertex) == Continence::Inside;
 
-        let may_insert = may_insert_triangle(&triangle, &pending_vertex, boundary, holes);
+        let has_conflict;
+        if triangle.is_ghost() {
+            has_conflict = triangle.encircles(&pending_vertex) == Continence::Inside
+                && may_insert_triangle(&triangle, &pending_vertex, boundary, holes);
+        } else {
+            has_conflict = contains_vertex(&triangle, &pending_vertex);
+        }
 
-        if has_conflict && may_insert {
+        if has_conflict {
             distributed_conflicts.push(pending_vertex);
             continue;
         }
@@ -262,26 +294,30 @@ pub fn distribute_conflicts_over_triangulation(
 }
 
 /**
- * Evaluates if triangle is inside boudanry and outside holes
+ * Evaluates if the solid triangle contains the vertex, edges included
+ */
+fn contains_vertex(triangle: &Triangle, vertex: &Vertex) -> bool {
+    return orientation(&triangle.v1, &triangle.v2, vertex) != Orientation::Clockwise
+        && orientation(&triangle.v2, &triangle.v3, vertex) != Orientation::Clockwise
+        && orientation(&triangle.v3, &triangle.v1, vertex) != Orientation::Clockwise;
+}
+
+/**
+ * Evaluates if the triangle, which replaces the ghost triangle when the
+ * target vertex is inserted, is inside boundary and outside holes
  */
 fn may_insert_triangle(
-    triangle: &Rc<Triangle>,
+    ghost_triangle: &Rc<Triangle>,
     target_vertex: &Rc<Vertex>,
     boundary: &Option<Rc<Polyline>>,
     holes: &HashSet<Rc<Polyline>>,
 ) -> bool {
-    let p2: Polyline;
-    if triangle.is_ghost() {
-        p2 = Polyline::new_closed(vec![
-            Rc::clone(&triangle.v1),
-            Rc::clone(&triangle.v2),
-            Rc::clone(target_vertex),
-        ])
-        .unwrap();
-    } else {
-        p2 = Polyline::new_opened(vec![Rc::new(triangle.center()), Rc::clone(target_vertex)])
-            .unwrap();
-    }
+    let p2 = Polyline::new_closed(vec![
+        Rc::clone(&ghost_triangle.v1),
+        Rc::clone(&ghost_triangle.v2),
+        Rc::clone(target_vertex),
+    ])
+    .unwrap();
 
     let mut is_inside_boundary = true;
     let mut is_outside_holes = true;
-- 
2.43.0


From 3a6b87f6b2170b3461ab7415cd46353c68d61a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:27 +0000
Subject: [PATCH 02/38] fix: include segments by retriangulating only the
 triangles they cross

---
 src/planar/triangulation_procedures/hole.rs   |  30 +--
 .../triangulation_procedures/segment.rs       | 219 ++++++++++--------
 2 files changed, 123 insertions(+), 126 deletions(-)

diff --git a/src/planar/triangulation_procedures/hole.rs b/src/planar/triangulation_procedures/hole.rs
index 697e862..1fc9c1c 100644
--- a/src/planar/triangulation_procedures/hole.rs
+++ b/src/planar/triangulation_procedures/hole.rs
@@ -34,35 +34,9 @@ pub fn include(
         .cloned()
         .collect();
 
-    // Uncomment to debug
-    // let existing_segments: HashSet<Rc<Edge>> = triangulation.edges();
-    // let missing_segments: Vec<Rc<Edge>> = hole_segments
-    //     .iter()
-    //     .filter(|&e| !existing_segments.contains(e))
-    //     .cloned()
-    //     .collect();
-
-    // println!("\n\nMissing segments");
-    // for e in missing_segments.iter() {
-    //     println!("{}", e);
-    // }
-
     /* Inserts missing segments */
-    loop {
-        let existing_segments: HashSet<Rc<Edge>> = triangulation.edges();
-        let missing_segment = hole_segments
-            .iter()
-            .find(|&e| !existing_segments.contains(e));
-
-        if missing_segment.is_none() {
-            break;
-        }
-
-        triangulation_procedures::segment::include(
-            triangulation,
-            missing_segment.unwrap(),
-            &segment_constraints,
-        );
+    for segment in hole_segments.iter() {
+        triangulation_procedures::segment::include(triangulation, segment, &segment_constraints);
     }
 
     /* Inserting ghost triangles into holes */
diff --git a/src/planar/triangulation_procedures/segment.rs b/src/planar/triangulation_procedures/segment.rs
index c6efc8d..950ce68 100644
--- a/src/planar/triangulation_procedures/segment.rs
+++ b/src/planar/triangulation_procedures/segment.rs
@@ -1,4 +1,4 @@
-use crate::elements::{edge::*, polyline::*, triangle::*, vertex::*};
+use crate::elements::{edge::*, triangle::*, vertex::*};
 use crate::planar::triangulation::*;
 use crate::properties::{continence::*, orientation::*};
 
@@ -9,121 +9,144 @@ use std::rc::Rc;
 
 /**
  * Includes Segment.
- * Takes all triangles that intercept the segment or whose circumcircle encircles
- * one of its end vertices, retriangulates the vertices of the triangle around the
- * segment having the segment as constraint. Reinserts the taken triangulation into
- * the main triangulation.
+ * Inserts the end vertices, if they are missing, and takes all solid triangles
+ * that are crossed by the segment. The vertices at each side of the segment are
+ * retriangulated having the segment as constraint.
  */
 pub fn include(
     triangulation: &mut Triangulation,
     segment: &Rc<Edge>,
     segment_constraints: &HashSet<Rc<Edge>>,
 ) {
-    let conflicting_triangles: HashSet<Rc<Triangle>> = triangulation
-        .triangles
-        .iter()
-        .filter(|t| !t.is_ghost())
-        .filter(|triangle| {
-            let polyline = triangle.as_polyline().unwrap();
-            let segment_polyline = segment.as_polyline().unwrap();
-
-            let contains_segment = Polyline::continence(&polyline, &segment_polyline)
-                != Some((Continence::Outside, BoundaryInclusion::Open));
-
-            let conflicts_v1 = triangle.encircles(&segment.v1) != Continence::Outside;
-            let conflicts_v2 = triangle.encircles(&segment.v2) != Continence::Outside;
-
-            return conflicts_v1 || conflicts_v2 || contains_segment;
-        })
-        .filter(|triangle| {
-            let (e1, e2, e3) = triangle.outer_edges();
-            let is_constrained = vec![e1, e2, e3]
-                .iter()
-                .filter(|&edge| {
-                    segment_constraints.contains(edge)
-                        || segment_constraints.contains(&edge.opposite())
-                })
-                .fold(false, |acc, edge| {
-                    if acc == true {
-                        return true;
-                    }
-                    let faces_v1 = orientation(&edge.v1, &edge.v2, &segment.v1)
-                        == Orientation::Counterclockwise;
-                    let faces_v2 = orientation(&edge.v1, &edge.v2, &segment.v2)
-                        == Orientation::Counterclockwise;
-
-                    return faces_v1 || faces_v2;
-                });
-            return !is_constrained;
-        })
-        .cloned()
-        .collect();
+    triangulation_procedures::vertices::include(
+        triangulation,
+        vec![Rc::clone(&segment.v1), Rc::clone(&segment.v2)],
+        segment_constraints,
+        &None,
+        &HashSet::new(),
+    );
 
-    // Uncomment to debug
-    // println!("\n\nSolid Triangles");
-    // for t in triangulation.triangles.iter().filter(|t| !t.is_ghost()) {
-    //     println!("{}", t);
-    // }
-    // println!("\nConflicting Triangles against {}", segment);
-    // for t in conflicting_triangles.iter() {
-    //     println!("{}", t);
-    // }
-
-    for conflicting_triangle in conflicting_triangles.iter() {
-        triangulation.remove_triangle(conflicting_triangle);
+    /* A vertex over the segment splits it */
+    let mut head = Rc::clone(&segment.v1);
+    while head != segment.v2 {
+        head = include_until_next_vertex(triangulation, &head, &segment.v2);
     }
+} /* end - include segment */
 
-    let triangles_boundary: Rc<Polyline> =
-        Rc::new(Polyline::triangles_hull(&conflicting_triangles).unwrap());
+/**
+ * Crosses the triangulation from head towards tail until it reaches a vertex,
+ * so the edge between head and such vertex is included. Returns the vertex.
+ */
+fn include_until_next_vertex(
+    triangulation: &mut Triangulation,
+    head: &Rc<Vertex>,
+    tail: &Rc<Vertex>,
+) -> Rc<Vertex> {
+    let mut crossed_triangles: Vec<Rc<Triangle>> = Vec::new();
+    let mut right_chain: Vec<Rc<Vertex>> = Vec::new();
+    let mut left_chain: Vec<Rc<Vertex>> = Vec::new();
+
+    /* Searches for the triangle at head that faces tail */
+    for triangle in triangulation.triangles.iter() {
+        if triangle.is_ghost() {
+            continue;
+        }
+        let (e1, e2, e3) = triangle.inner_edges();
+        let (right, left) = match vec![e1, e2, e3].iter().position(|e| &e.v1 == head) {
+            Some(0) => (&triangle.v2, &triangle.v3),
+            Some(1) => (&triangle.v3, &triangle.v1),
+            Some(_) => (&triangle.v1, &triangle.v2),
+            None => continue,
+        };
+
+        for vertex in vec![right, left] {
+            if vertex == tail || Edge::new(head, tail).contains(vertex) {
+                return Rc::clone(vertex); /* edge already exists */
+            }
+        }
 
-    let conflicting_vertices: HashSet<Rc<Vertex>> = conflicting_triangles
-        .iter()
-        .map(|triangle| {
-            vec![
-                Rc::clone(&triangle.v1),
-                Rc::clone(&triangle.v2),
-                Rc::clone(&triangle.v3),
-            ]
-        })
-        .flatten()
-        .collect();
+        if orientation(head, tail, right) == Orientation::Clockwise
+            && orientation(head, tail, left) == Orientation::Counterclockwise
+        {
+            crossed_triangles.push(Rc::clone(triangle));
+            right_chain.push(Rc::clone(right));
+            left_chain.push(Rc::clone(left));
+        }
+    }
 
-    let mut segment_triangulation = Triangulation::from_initial_segment((&segment.v1, &segment.v2));
+    if crossed_triangles.is_empty() {
+        return Rc::clone(tail); /* segment leaves the domain */
+    }
 
-    let new_segment_constraint: HashSet<Rc<Edge>> =
-        vec![Rc::clone(&segment)].iter().cloned().collect();
+    let reached_vertex: Rc<Vertex>;
+    loop {
+        let right = right_chain.last().unwrap();
+        let left = left_chain.last().unwrap();
+        let crossing_edge = Rc::new(Edge::new(left, right));
+        let next_triangle = Rc::clone(triangulation.adjacency.get(&crossing_edge).unwrap());
+        if next_triangle.is_ghost() {
+            return Rc::clone(tail); /* segment leaves the domain */
+        }
 
-    triangulation_procedures::boundary::include(
-        &mut segment_triangulation,
-        &triangles_boundary,
-        &new_segment_constraint,
-    );
+        let vertex = next_triangle.opposite_vertex(&crossing_edge).unwrap();
 
-    triangulation_procedures::vertices::include(
-        &mut segment_triangulation,
-        conflicting_vertices.iter().cloned().collect(),
-        &new_segment_constraint,
-        &Some(Rc::clone(&triangles_boundary)),
-        &HashSet::new(),
-    );
+        crossed_triangles.push(next_triangle);
 
-    let new_solid_triangles: HashSet<Rc<Triangle>> = segment_triangulation
-        .triangles
-        .iter()
-        .filter(|t| !t.is_ghost())
-        .cloned()
-        .collect();
+        if &vertex == tail {
+            reached_vertex = vertex;
+            break;
+        }
+        match orientation(head, tail, &vertex) {
+            Orientation::Clockwise => right_chain.push(vertex),
+            Orientation::Counterclockwise => left_chain.push(vertex),
+            Orientation::Colinear => {
+                reached_vertex = vertex;
+                break;
+            }
+        }
+    }
+
+    for triangle in crossed_triangles.iter() {
+        triangulation.remove_triangle(triangle);
+    }
 
-    // Uncomment to debug
-    // println!("\nNew Solid Triangles");
-    // for t in new_solid_triangles.iter() {
-    //     println!("{}", t);
-    // }
+    right_chain.reverse();
+    fill_chain(triangulation, (head, &reached_vertex), &left_chain);
+    fill_chain(triangulation, (&reached_vertex, head), &right_chain);
 
-    for new_triangle in new_solid_triangles.iter() {
-        triangulation.include_triangle(new_triangle);
+    return reached_vertex;
+}
+
+/**
+ * Triangulates the area between the base and the chain of vertices at its left,
+ * which goes from the first to the second vertex of the base.
+ */
+fn fill_chain(
+    triangulation: &mut Triangulation,
+    (v1, v2): (&Rc<Vertex>, &Rc<Vertex>),
+    chain: &[Rc<Vertex>],
+) {
+    let mut apex_index: Option<usize> = None;
+    for (index, vertex) in chain.iter().enumerate() {
+        if orientation(v1, v2, vertex) != Orientation::Counterclockwise {
+            continue;
+        }
+        let is_apex = match apex_index {
+            Some(apex) => continence(v1, v2, &chain[apex], vertex) == Continence::Inside,
+            None => true,
+        };
+        if is_apex {
+            apex_index = Some(index);
+        }
     }
-} /* end - include segment */
+
+    if let Some(apex_index) = apex_index {
+        let apex = &chain[apex_index];
+        triangulation.include_triangle(&Rc::new(Triangle::new(v1, v2, apex)));
+        fill_chain(triangulation, (v1, apex), &chain[..apex_index]);
+        fill_chain(triangulation, (apex, v2), &chain[apex_index + 1..]);
+    }
+}
 
 #[cfg(test)]
 mod include_segment {
-- 
2.43.0


From 2d6917152437834a41d805a4d19c2ab2db776812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 03/38] fix: insert the boundary segments that the Delaunay
 hull misses

---
 .../triangulation_procedures/boundary.rs      | 25 +++++++------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/planar/triangulation_procedures/boundary.rs b/src/planar/triangulation_procedures/boundary.rs
index d7b9639..318afd3 100644
--- a/src/planar/triangulation_procedures/boundary.rs
+++ b/src/planar/triangulation_procedures/boundary.rs
@@ -31,22 +31,15 @@ pub fn include(
     );
 
     /* Inserts missing segments */
-    // let existing_segments: HashSet<Rc<Edge>> = triangulation.edges();
-    // let missing_segments: HashSet<Rc<Edge>> = boundary_segments
-    //     .iter()
-    //     .filter(|&e| !existing_segments.contains(e))
-    //     .cloned()
-    //     .collect();
-
-    // let segment_contraints = segment_constraints
-    //     .iter()
-    //     .chain(boundary_segments.iter())
-    //     .cloned()
-    //     .collect();
-
-    // for segment in missing_segments.iter() {
-    //     Self::include_segment(triangulation, segment, &segment_contraints);
-    // }
+    let segment_constraints: HashSet<Rc<Edge>> = segment_constraints
+        .iter()
+        .chain(boundary_segments.iter())
+        .cloned()
+        .collect();
+
+    for segment in boundary_segments.iter() {
+        triangulation_procedures::segment::include(triangulation, segment, &segment_constraints);
+    }
 
     /* Inserting outer hole */
     let mut pending_edges: Vec<Rc<Edge>> = Vec::new();
-- 
2.43.0


From b8d0fc9ea9b9cb841230836004ad0ef35a87813a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 04/38] fix: keep subsegments constrained while unencroaching
 and split by the facing triangle

---
 src/planar/refine_procedures/encroachment.rs  | 146 ++++++++++++++----
 .../triangulation_procedures/vertices.rs      |  16 +-
 2 files changed, 119 insertions(+), 43 deletions(-)

diff --git a/src/planar/refine_procedures/encroachment.rs b/src/planar/refine_procedures/encroachment.rs
index 469c39d..baf2df5 100644
--- a/src/planar/refine_procedures/encroachment.rs
+++ b/src/planar/refine_procedures/encroachment.rs
@@ -17,51 +17,117 @@ pub fn unencroach(
     HashMap<Rc<Edge>, Rc<Edge>>,
     HashSet<Rc<Triangle>>,
     HashSet<Rc<Triangle>>,
+) {
+    let encroached_segments = segment_contraints
+        .iter()
+        .filter(|segment| is_encroached(triangulation, segment, segment_contraints))
+        .cloned()
+        .collect();
+
+    return unencroach_segments(
+        triangulation,
+        encroached_segments,
+        &mut segment_contraints.iter().cloned().collect(),
+        boundary,
+        holes,
+    );
+}
+
+/**
+ * Splits the given segments, and the ones that become encroached by doing so,
+ * until no subsegment is encroached. The segment constraints are replaced by
+ * their subsegments. Returns the mapping from each new subsegment to the segment
+ * it belongs to, the included and the removed triangles.
+ */
+pub fn unencroach_segments(
+    triangulation: &mut Triangulation,
+    mut encroached_segments: Vec<Rc<Edge>>,
+    segment_constraints: &mut HashSet<Rc<Edge>>,
+    boundary: &Option<Rc<Polyline>>,
+    holes: &HashSet<Rc<Polyline>>,
+) -> (
+    HashMap<Rc<Edge>, Rc<Edge>>,
+    HashSet<Rc<Triangle>>,
+    HashSet<Rc<Triangle>>,
 ) {
     let mut included_triangles: HashSet<Rc<Triangle>> = HashSet::new();
     let mut removed_triangles: HashSet<Rc<Triangle>> = HashSet::new();
-
     let mut split_map: HashMap<Rc<Edge>, Rc<Edge>> = HashMap::new();
-    let mut encroach_map: HashMap<Rc<Edge>, HashSet<Rc<Vertex>>> = HashMap::new();
-
-    distribute_encroachments(
-        segment_contraints,
-        &triangulation.vertices(),
-        &mut encroach_map,
-    );
 
-    while !encroach_map.is_empty() {
-        let encroached_edge = Rc::clone(encroach_map.keys().next().unwrap());
-        let mut encroaching_vertices = encroach_map.remove(&encroached_edge).unwrap();
+    while let Some(segment) = encroached_segments.pop() {
+        if !segment_constraints.contains(&segment) {
+            continue; /* already split */
+        }
 
-        let (new_edges, new_triangles, old_triangles) = unencroach_segment(
+        let (h1, h2, new_triangles, old_triangles) = split_segment(
             triangulation,
-            &encroached_edge,
-            &mut encroaching_vertices,
-            segment_contraints,
+            &segment,
+            segment_constraints,
             boundary,
             holes,
         );
 
-        for e in new_edges.iter() {
-            split_map.insert(Rc::clone(e), Rc::clone(&encroached_edge));
-        }
+        segment_constraints.remove(&segment);
+        segment_constraints.insert(Rc::clone(&h1));
+        segment_constraints.insert(Rc::clone(&h2));
 
-        included_triangles = included_triangles
-            .iter()
-            .chain(new_triangles.iter())
-            .filter(|&t| old_triangles.contains(t))
-            .cloned()
-            .collect();
+        let origin = split_map.remove(&segment).unwrap_or(segment);
+        split_map.insert(Rc::clone(&h1), Rc::clone(&origin));
+        split_map.insert(Rc::clone(&h2), origin);
 
-        removed_triangles = removed_triangles
+        /* The subsegments and the segments that face the midpoint */
+        let possible_segments: Vec<Rc<Edge>> = new_triangles
             .iter()
-            .chain(old_triangles.iter())
-            .cloned()
+            .filter_map(|t| t.opposite_edge(&h1.v2))
+            .chain(vec![Rc::clone(&h1), Rc::clone(&h2)])
+            .map(|e| vec![Rc::new(e.opposite()), e])
+            .flatten()
+            .filter(|e| segment_constraints.contains(e))
             .collect();
+
+        for possible_segment in possible_segments {
+            if is_encroached(triangulation, &possible_segment, segment_constraints) {
+                encroached_segments.push(possible_segment);
+            }
+        }
+
+        for t in old_triangles {
+            if !included_triangles.remove(&t) {
+                removed_triangles.insert(t);
+            }
+        }
+        included_triangles.extend(new_triangles);
     }
 
     return (split_map, included_triangles, removed_triangles);
+} /* end - unencroach_segments */
+
+/**
+ * Evaluates if the segment is encroached by the vertices that face it. When the
+ * vertex is connected to the segment by other constrained segment, the encroachment
+ * is only accepted if the subsegments remain longer than the other one. This
+ * prevents segments that meet at small angles from splitting each other endlessly.
+ */
+fn is_encroached(
+    triangulation: &Triangulation,
+    segment: &Rc<Edge>,
+    segment_constraints: &HashSet<Rc<Edge>>,
+) -> bool {
+    let facing_vertices = vec![Rc::clone(segment), Rc::new(segment.opposite())]
+        .into_iter()
+        .filter_map(|e| triangulation.adjacency.get(&e)?.opposite_vertex(&e))
+        .filter(|v| !v.is_ghost && segment.encroach(v) == Continence::Inside)
+        .collect::<Vec<Rc<Vertex>>>();
+
+    return facing_vertices.iter().any(|v| {
+        !vec![&segment.v1, &segment.v2].iter().any(|end| {
+            let neighbour = Edge::new(end, v);
+            let is_constrained = segment_constraints.contains(&neighbour)
+                || segment_constraints.contains(&neighbour.opposite());
+
+            return is_constrained && 2.001 * neighbour.length() > segment.length();
+        })
+    });
 }
 
 /**
@@ -200,13 +266,25 @@ fn split_segment(
     let half_1 = Rc::new(Edge::new(&segment.v1, &segment_midpoint));
     let half_2 = Rc::new(Edge::new(&segment_midpoint, &segment.v2));
 
-    let (included_triangles, removed_triangles) = triangulation_procedures::vertices::include(
-        triangulation,
-        vec![segment_midpoint],
-        &segment_constraints,
-        boundary,
-        holes,
-    );
+    let mut conflict_map: HashMap<Rc<Triangle>, Vec<Rc<Vertex>>> = HashMap::new();
+    for edge in vec![Rc::clone(segment), Rc::new(segment.opposite())] {
+        match triangulation.adjacency.get(&edge) {
+            Some(triangle) if !triangle.is_ghost() && conflict_map.is_empty() => {
+                conflict_map.insert(Rc::clone(triangle), vec![Rc::clone(&segment_midpoint)]);
+            }
+            _ => (),
+        }
+    }
+
+    let (included_triangles, removed_triangles) =
+        triangulation_procedures::vertices::solve_conflicts(
+            triangulation,
+            &mut conflict_map,
+            &mut Vec::new(),
+            &segment_constraints,
+            boundary,
+            holes,
+        );
     return (half_1, half_2, included_triangles, removed_triangles);
 } /* end - split_segment */
 
diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index 5083072..c1cace6 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -112,33 +112,31 @@ pub fn solve_conflicts(
             let mut is_constrained = segment_constraints.contains(&edge_to_outer_triangle)
                 || segment_constraints.contains(&edge);
 
-            let mut may_insert = true;
-
             if outer_triangle.is_ghost() {
                 let outer_edge = Edge::new(&outer_triangle.v1, &outer_triangle.v2);
-                is_conflicting = is_conflicting || outer_edge.contains(&conflict_vertex);
+
+                is_conflicting = outer_edge.contains(&conflict_vertex)
+                    || outer_edge.midpoint() == *conflict_vertex
+                    || is_conflicting
+                        && may_insert_triangle(&outer_triangle, &conflict_vertex, boundary, holes);
 
                 /* a ghost never moves away from a constrained segment */
                 is_constrained = is_constrained
                     || segment_constraints.contains(&outer_edge)
                     || segment_constraints.contains(&outer_edge.opposite());
-
-                may_insert =
-                    may_insert_triangle(&outer_triangle, &conflict_vertex, boundary, holes);
             }
 
             // Uncomment to debug
             // println!(
-            //     "{}, {} x {}: {} {} {}",
+            //     "{}, {} x {}: {} {}",
             //     edge,
             //     outer_triangle,
             //     conflict_vertex,
             //     is_conflicting,
             //     is_constrained,
-            //     may_insert,
             // );
 
-            if is_conflicting && !is_constrained && may_insert {
+            if is_conflicting && !is_constrained {
                 triangulation.remove_triangle(&outer_triangle);
                 removed_triangles.insert(Rc::clone(&outer_triangle));
 
-- 
2.43.0


From fbf8fb3b725f859e6e5b8e4ddecc2ac2f4df88e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 05/38] fix: refine until the triangles conform, and stop near
 to small input angles

---
 .../refine_procedures/triangle_split.rs       | 206 +++++++++++++-----
 1 file changed, 146 insertions(+), 60 deletions(-)

diff --git a/src/planar/refine_procedures/triangle_split.rs b/src/planar/refine_procedures/triangle_split.rs
index ab2a047..f4dc60f 100644
--- a/src/planar/refine_procedures/triangle_split.rs
+++ b/src/planar/refine_procedures/triangle_split.rs
@@ -4,7 +4,7 @@ use crate::planar::{
     triangulation_procedures,
 };
 
-use crate::properties::continence::*;
+use crate::properties::{continence::*, distance::*, orientation::*};
 
 use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
@@ -102,6 +102,13 @@ pub fn split_irregular(
         //     println!("{}", t);
         // }
 
+        if !is_large_triangle(&triangle, params) && triangle.quality().unwrap() < 1.0 - 1.0E-9 {
+            continue; /* circumcenter would be too close to the vertices */
+        }
+
+        let included_triangles;
+        let removed_triangles;
+
         match try_circumcenter_insertion(
             triangulation,
             &triangle,
@@ -109,63 +116,68 @@ pub fn split_irregular(
             boundary,
             holes,
         ) {
-            Ok((included_triangles, removed_triangles)) => {
-                for new_triangle in included_triangles.iter().filter(|t| !t.is_ghost()) {
-                    if is_irregular_triangle(new_triangle, params) {
-                        irregular_triangles.insert(Rc::clone(new_triangle));
-                        continue;
-                    }
-                    if is_large_triangle(new_triangle, params) {
-                        large_triangles.insert(Rc::clone(new_triangle));
-                        continue;
-                    }
-                }
-                for old_triangle in removed_triangles.iter() {
-                    irregular_triangles.remove(old_triangle);
-                    large_triangles.remove(old_triangle);
-                }
+            Ok((new_triangles, old_triangles)) => {
+                included_triangles = new_triangles;
+                removed_triangles = old_triangles;
             }
             Err(encroachments) => {
-                let mut vertices = vec![Rc::new(triangle.circumcenter().unwrap())]
+                /* splits a single segment, because it affects the remaining ones */
+                let encroached_segment = encroachments
                     .iter()
-                    .cloned()
-                    .collect();
-
-                for encroached_edge in encroachments.iter() {
-                    let (new_edges, included_triangles, removed_triangles) =
-                        encroachment::unencroach_segment(
-                            triangulation,
-                            &encroached_edge,
-                            &mut vertices,
-                            &segment_contraints,
-                            boundary,
-                            holes,
-                        );
-
-                    segment_contraints.remove(encroached_edge);
-                    split_map.remove(encroached_edge);
-                    for subsegment in new_edges.iter() {
-                        split_map.insert(Rc::clone(subsegment), Rc::clone(encroached_edge));
-                        segment_contraints.insert(Rc::clone(subsegment));
-                    }
+                    .filter(|e| may_split(triangulation, &triangle, e, params))
+                    .map(|e| vec![Rc::clone(e), Rc::new(e.opposite())])
+                    .flatten()
+                    .find(|e| segment_contraints.contains(e));
+
+                let encroached_segment = match encroached_segment {
+                    Some(segment) => segment,
+                    None => continue,
+                };
+
+                let (new_segments, new_triangles, old_triangles) =
+                    encroachment::unencroach_segments(
+                        triangulation,
+                        vec![encroached_segment],
+                        &mut segment_contraints,
+                        boundary,
+                        holes,
+                    );
+
+                for (subsegment, segment) in new_segments.iter() {
+                    let origin = split_map.get(segment).unwrap_or(segment);
+                    let origin = Rc::clone(origin);
+                    split_map.insert(Rc::clone(subsegment), origin);
+                }
+                split_map.retain(|subsegment, _| segment_contraints.contains(subsegment));
 
-                    for new_triangle in included_triangles.iter().filter(|t| !t.is_ghost()) {
-                        if is_irregular_triangle(new_triangle, params) {
-                            irregular_triangles.insert(Rc::clone(new_triangle));
-                            continue;
-                        }
-                        if is_large_triangle(new_triangle, params) {
-                            large_triangles.insert(Rc::clone(new_triangle));
-                            continue;
-                        }
-                    }
-                    for old_triangle in removed_triangles.iter() {
-                        irregular_triangles.remove(old_triangle);
-                        large_triangles.remove(old_triangle);
+                included_triangles = new_triangles;
+                removed_triangles = old_triangles;
+
+                /* tries again once segments are split */
+                if triangulation.triangles.contains(&triangle) {
+                    if is_irregular_triangle(&triangle, params) {
+                        irregular_triangles.insert(Rc::clone(&triangle));
+                    } else {
+                        large_triangles.insert(Rc::clone(&triangle));
                     }
                 }
             }
         }
+
+        for old_triangle in removed_triangles.iter() {
+            irregular_triangles.remove(old_triangle);
+            large_triangles.remove(old_triangle);
+        }
+        for new_triangle in included_triangles.iter().filter(|t| !t.is_ghost()) {
+            if is_irregular_triangle(new_triangle, params) {
+                irregular_triangles.insert(Rc::clone(new_triangle));
+                continue;
+            }
+            if is_large_triangle(new_triangle, params) {
+                large_triangles.insert(Rc::clone(new_triangle));
+                continue;
+            }
+        }
     }
     return split_map;
 } /* end - split */
@@ -185,17 +197,18 @@ fn try_circumcenter_insertion(
     boundary: &Option<Rc<Polyline>>,
     holes: &HashSet<Rc<Polyline>>,
 ) -> Result<(HashSet<Rc<Triangle>>, HashSet<Rc<Triangle>>), HashSet<Rc<Edge>>> {
-    let circumcenter = Rc::new(triangle.circumcenter().unwrap());
-    let mut conflict_map: HashMap<Rc<Triangle>, Vec<Rc<Vertex>>> = HashMap::new();
+    let circumcenter = match triangle.circumcenter() {
+        Some(circumcenter) => Rc::new(circumcenter),
+        None => return Ok((HashSet::new(), HashSet::new())),
+    };
+
+    let containing_triangle =
+        walk_to_vertex(triangulation, triangle, &circumcenter, segment_constraints)?;
 
-    triangulation_procedures::vertices::distribute_conflicts_over_triangulation(
-        triangulation,
-        Some(Rc::clone(triangle)),
-        &mut conflict_map,
-        &mut vec![Rc::clone(&circumcenter)],
-        boundary,
-        holes,
-    );
+    let mut conflict_map: HashMap<Rc<Triangle>, Vec<Rc<Vertex>>> = HashMap::new();
+    if let Some(containing_triangle) = containing_triangle {
+        conflict_map.insert(containing_triangle, vec![Rc::clone(&circumcenter)]);
+    }
 
     let (included_triangles, removed_triangles) =
         triangulation_procedures::vertices::solve_conflicts(
@@ -228,6 +241,79 @@ fn try_circumcenter_insertion(
     return Ok((included_triangles, removed_triangles));
 }
 
+/**
+ * Walks straight from the triangle towards the vertex and returns the triangle
+ * that contains it. If the way is blocked by a constrained segment, the segment
+ * is returned as error. Returns None if the vertex is not reached.
+ */
+fn walk_to_vertex(
+    triangulation: &Triangulation,
+    triangle: &Rc<Triangle>,
+    vertex: &Rc<Vertex>,
+    segment_constraints: &HashSet<Rc<Edge>>,
+) -> Result<Option<Rc<Triangle>>, HashSet<Rc<Edge>>> {
+    let origin = triangle.center();
+    let mut visited_triangles: HashSet<Rc<Triangle>> = HashSet::new();
+    let mut next_triangle = Rc::clone(triangle);
+
+    while visited_triangles.insert(Rc::clone(&next_triangle)) {
+        let (e1, e2, e3) = next_triangle.inner_edges();
+        let crossed_edge = vec![e1, e2, e3].into_iter().find(|e| {
+            orientation(&e.v1, &e.v2, vertex) == Orientation::Clockwise
+                && orientation(&origin, vertex, &e.v1) != Orientation::Counterclockwise
+                && orientation(&origin, vertex, &e.v2) != Orientation::Clockwise
+        });
+
+        match crossed_edge {
+            None => return Ok(Some(next_triangle)),
+            Some(edge) => {
+                let opposite = Rc::new(edge.opposite());
+                if segment_constraints.contains(&edge) || segment_constraints.contains(&opposite) {
+                    return Err(vec![edge].into_iter().collect());
+                }
+                match triangulation.adjacency.get(&opposite) {
+                    Some(outer_triangle) if !outer_triangle.is_ghost() => {
+                        next_triangle = Rc::clone(outer_triangle)
+                    }
+                    _ => return Ok(None),
+                }
+            }
+        }
+    }
+    return Ok(None);
+}
+
+/**
+ * Evaluates if the segment encroached by the circumcenter of the triangle may be split.
+ * While quality is pursued, the split must not bring vertices closer than they already
+ * are in the triangle, otherwise it would never end near to small input angles.
+ */
+fn may_split(
+    triangulation: &Triangulation,
+    triangle: &Rc<Triangle>,
+    segment: &Rc<Edge>,
+    params: &RefineParams,
+) -> bool {
+    let (e1, e2, e3) = triangle.inner_edges();
+    let shortest_length = e1.length().min(e2.length()).min(e3.length());
+    let circumradius = triangle.quality().unwrap() * shortest_length;
+    let half_length = segment.length() / 2.0;
+
+    if is_large_triangle(triangle, params) {
+        return half_length.powi(2) >= triangle.area().unwrap() / 4.0;
+    }
+
+    let midpoint = segment.midpoint();
+    let closest_distance = vec![Rc::clone(segment), Rc::new(segment.opposite())]
+        .into_iter()
+        .filter_map(|e| triangulation.adjacency.get(&e)?.opposite_vertex(&e))
+        .filter(|v| !v.is_ghost)
+        .map(|v| distance(&v, &midpoint))
+        .fold(half_length, f64::min);
+
+    return closest_distance >= shortest_length.min(circumradius / 1.5);
+}
+
 #[cfg(test)]
 mod split {
     use super::*;
-- 
2.43.0


From 0cb9608b840eb4620e5286abb4ced799576aacf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 06/38] fix: keep the subsegments constrained when refining
 again

---
 src/planar/triangulator.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index 8962f84..65d020a 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -14,6 +14,7 @@ pub struct Triangulator {
     pub holes: HashSet<Rc<Polyline>>,
     pub vertices: HashSet<Rc<Vertex>>,
     pub segments: HashSet<Rc<Edge>>,
+    subsegments: HashSet<Rc<Edge>>, /* constrained edges of the triangulation */
 }
 
 impl Triangulator {
@@ -24,6 +25,7 @@ impl Triangulator {
             holes: HashSet::new(),
             vertices: HashSet::new(),
             segments: HashSet::new(),
+            subsegments: HashSet::new(),
         }
     }
 
@@ -254,14 +256,8 @@ impl Triangulator {
      * Else refines ans returns the triangulation.
      */
     pub fn refine(&mut self, params: RefineParams) -> &Self {
-        let mut segment_constraints: HashSet<Rc<Edge>> = self
-            .holes
-            .iter()
-            .map(|hole| hole.into_edges())
-            .flatten()
-            .chain(self.boundary.into_edges())
-            .chain(self.segments.iter().cloned())
-            .collect();
+        let mut segment_constraints: HashSet<Rc<Edge>> =
+            self.subsegments.iter().cloned().collect();
 
         let (segments_splitting, included_triangles, removed_triangles) =
             refine_procedures::encroachment::unencroach(
@@ -305,6 +301,8 @@ impl Triangulator {
             .cloned()
             .collect();
 
+        self.subsegments = segment_constraints;
+
         return self;
     }
 
@@ -359,6 +357,7 @@ impl Triangulator {
         );
 
         self.triangulation = RefCell::new(triangulation);
+        self.subsegments = segment_constraints;
 
         return self;
     }
-- 
2.43.0


From e92b7351ccf52895caa074391accaecc421c8f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 07/38] fix: grow vertex cavities over the edges that don't
 face the vertex

---
 src/planar/triangulation_procedures/vertices.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index c1cace6..c6de957 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -112,6 +112,13 @@ pub fn solve_conflicts(
             let mut is_constrained = segment_constraints.contains(&edge_to_outer_triangle)
                 || segment_constraints.contains(&edge);
 
+            /* an edge that doesn't face the vertex would hold a flat triangle */
+            if !edge.v1.is_ghost && !edge.v2.is_ghost && !outer_triangle.is_ghost() {
+                is_conflicting = is_conflicting
+                    || orientation(&edge.v1, &edge.v2, &conflict_vertex)
+                        != Orientation::Counterclockwise;
+            }
+
             if outer_triangle.is_ghost() {
                 let outer_edge = Edge::new(&outer_triangle.v1, &outer_triangle.v2);
 
-- 
2.43.0


From 2d2025de0695a63ba1eb5f76c095aec61a194d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 08/38] fix: compute circumcenters and areas relative to a
 vertex

---
 src/properties/area.rs         |  4 +---
 src/properties/circumcenter.rs | 12 ++++++------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/properties/area.rs b/src/properties/area.rs
index e15661f..af6f1b5 100644
--- a/src/properties/area.rs
+++ b/src/properties/area.rs
@@ -1,5 +1,4 @@
 use crate::elements::vertex::*;
-use nalgebra::Matrix3;
 use std::rc::Rc;
 
 pub fn area_segments(segments_list: &Vec<(Rc<Vertex>, Rc<Vertex>)>) -> f64 {
@@ -18,8 +17,7 @@ pub fn area_triangle(v1: &Vertex, v2: &Vertex, v3: &Vertex) -> f64 {
     let x3 = v3.x;
     let y3 = v3.y;
 
-    let matrix = Matrix3::new(x1, y1, 1.0, x2, y2, 1.0, x3, y3, 1.0);
-    return matrix.determinant() / 2.0;
+    return ((x2 - x1) * (y3 - y1) - (y2 - y1) * (x3 - x1)) / 2.0;
 }
 
 #[cfg(test)]
diff --git a/src/properties/circumcenter.rs b/src/properties/circumcenter.rs
index 8ab06c4..7be2df5 100644
--- a/src/properties/circumcenter.rs
+++ b/src/properties/circumcenter.rs
@@ -6,8 +6,8 @@ pub fn circumcenter(v1: &Vertex, v2: &Vertex, v3: &Vertex) -> Option<Vertex> {
         Let (x1,y1), (x2,y2), (x3,y3) be the vertices of a triangle.self
             then (xc,yc) is the circumcenter, if it exists:
 
-        [xc] =  1/2  * [x3^2 - x1^2 + y3^2 - y1^2] * [x3-x1 y3-y1] ^ -1
-        [yc] =         [x2^2 - x1^2 + y2^2 - y1^2] * [x2-x1 y2-y1]
+        [xc] = [x1] + 1/2 * [(x3-x1)^2 + (y3-y1)^2] * [x3-x1 y3-y1] ^ -1
+        [yc]   [y1]         [(x2-x1)^2 + (y2-y1)^2] * [x2-x1 y2-y1]
     */
 
     let x1 = v1.x;
@@ -28,14 +28,14 @@ pub fn circumcenter(v1: &Vertex, v2: &Vertex, v3: &Vertex) -> Option<Vertex> {
     let matrix_a_inv = matrix_a.try_inverse().unwrap();
 
     let matrix_b = Matrix2x1::new(
-        x3.powi(2) - x1.powi(2) + y3.powi(2) - y1.powi(2),
-        x2.powi(2) - x1.powi(2) + y2.powi(2) - y1.powi(2),
+        (x3 - x1).powi(2) + (y3 - y1).powi(2),
+        (x2 - x1).powi(2) + (y2 - y1).powi(2),
     );
 
     let center_matrix = 0.5 * matrix_a_inv * matrix_b;
 
-    let xc = center_matrix[0];
-    let yc = center_matrix[1];
+    let xc = x1 + center_matrix[0];
+    let yc = y1 + center_matrix[1];
 
     return Some(Vertex::new(xc, yc));
 }
-- 
2.43.0


From 0238156fcd5544b6a19272ea8da79f99fe7d98f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 09/38] fix: judge the predicates relative to the precision of
 the coordinates

---
 .../refine_procedures/triangle_split.rs       |  2 +-
 src/properties/continence.rs                  | 36 ++++++++++++-------
 src/properties/encroachment.rs                |  9 ++++-
 src/properties/orientation.rs                 | 21 ++++++-----
 4 files changed, 44 insertions(+), 24 deletions(-)

diff --git a/src/planar/refine_procedures/triangle_split.rs b/src/planar/refine_procedures/triangle_split.rs
index f4dc60f..5f04bb1 100644
--- a/src/planar/refine_procedures/triangle_split.rs
+++ b/src/planar/refine_procedures/triangle_split.rs
@@ -31,7 +31,7 @@ fn is_large_triangle(triangle: &Triangle, params: &RefineParams) -> bool {
     let this_area = triangle.area().unwrap();
     let greater_area: bool = match params.max_area {
         Some(max_area) => {
-            float_cmp::approx_eq!(f64, this_area, max_area, epsilon = 1.0E-14f64)
+            float_cmp::approx_eq!(f64, this_area / max_area, 1.0, epsilon = 1.0E-14f64)
                 || this_area >= max_area
         }
         _ => false,
diff --git a/src/properties/continence.rs b/src/properties/continence.rs
index 5d8767a..d6dee1d 100644
--- a/src/properties/continence.rs
+++ b/src/properties/continence.rs
@@ -1,9 +1,5 @@
-extern crate nalgebra;
-
 use crate::elements::vertex::*;
 
-use nalgebra::Matrix4;
-
 #[derive(PartialEq, Debug)]
 pub enum Continence {
     Inside,
@@ -19,18 +15,32 @@ pub enum BoundaryInclusion {
 
 /**
  * Checks whether Vertex d is contained by the circumcircle defined by triangle(a,b,c).
- * Vertices a, b and c must be in counterclockwise order.
+ * Vertices a, b and c must be in counterclockwise order. Vertex d is at the boundary
+ * if it can't be told apart from it given the precision of the coordinates.
  */
 pub fn continence(a: &Vertex, b: &Vertex, c: &Vertex, d: &Vertex) -> Continence {
-    let matrix = Matrix4::new(
-        a.x, a.y, a.x.powi(2) + a.y.powi(2), 1.0,
-        b.x, b.y, b.x.powi(2) + b.y.powi(2), 1.0,
-        c.x, c.y, c.x.powi(2) + c.y.powi(2), 1.0,
-        d.x, d.y, d.x.powi(2) + d.y.powi(2), 1.0,
-    );
-    let det = matrix.determinant();
+    let (ad_x, ad_y) = (a.x - d.x, a.y - d.y);
+    let (bd_x, bd_y) = (b.x - d.x, b.y - d.y);
+    let (cd_x, cd_y) = (c.x - d.x, c.y - d.y);
+
+    let ad_lift = ad_x * ad_x + ad_y * ad_y;
+    let bd_lift = bd_x * bd_x + bd_y * bd_y;
+    let cd_lift = cd_x * cd_x + cd_y * cd_y;
+
+    let det = ad_lift * (bd_x * cd_y - bd_y * cd_x)
+        - bd_lift * (ad_x * cd_y - ad_y * cd_x)
+        + cd_lift * (ad_x * bd_y - ad_y * bd_x);
+
+    let magnitude = [a, b, c, d]
+        .iter()
+        .fold(0.0, |max: f64, v| max.max(v.x.abs()).max(v.y.abs()));
+    let extent = [ad_lift, bd_lift, cd_lift]
+        .iter()
+        .fold(0.0, |max: f64, lift| max.max(*lift))
+        .sqrt();
+    let tolerance = 4.0 * f64::EPSILON * magnitude * extent.powi(3);
 
-    if float_cmp::approx_eq!(f64, det, 0.0, epsilon = 1.0E-14f64) {
+    if det.abs() <= tolerance {
         return Continence::Boundary;
     }
 
diff --git a/src/properties/encroachment.rs b/src/properties/encroachment.rs
index d7ac446..1044531 100644
--- a/src/properties/encroachment.rs
+++ b/src/properties/encroachment.rs
@@ -11,7 +11,14 @@ pub fn encroach(v1: &Vertex, v2: &Vertex, vertex: &Vertex) -> Continence {
 
     let measure = (x - x2) * (x - x1) + (y - y2) * (y - y1);
 
-    if float_cmp::approx_eq!(f64, measure, 0.0, epsilon = 1.0E-14f64) {
+    /* precision of the coordinates */
+    let magnitude = [x, y, x1, y1, x2, y2]
+        .iter()
+        .fold(0.0, |max: f64, coordinate| max.max(coordinate.abs()));
+    let extent = (x - x2).abs() + (x - x1).abs() + (y - y2).abs() + (y - y1).abs();
+    let tolerance = 4.0 * f64::EPSILON * magnitude * extent;
+
+    if measure.abs() <= tolerance {
         return Continence::Boundary;
     }
 
diff --git a/src/properties/orientation.rs b/src/properties/orientation.rs
index 37fa199..5c93fdd 100644
--- a/src/properties/orientation.rs
+++ b/src/properties/orientation.rs
@@ -1,9 +1,4 @@
-#![macro_use]
-extern crate float_cmp;
-extern crate nalgebra;
-
 use crate::elements::vertex::*;
-use nalgebra::Matrix3;
 
 #[derive(PartialEq, Debug)]
 pub enum Orientation {
@@ -14,13 +9,21 @@ pub enum Orientation {
 
 /**
  * Checks whether Vertices a, b and c are in counterclockwise order,
- * in the circumcircle they define.
+ * in the circumcircle they define. They are colinear if they can't be
+ * told apart from colinear ones given the precision of their coordinates.
  */
 pub fn orientation(a: &Vertex, b: &Vertex, c: &Vertex) -> Orientation {
-    let matrix = Matrix3::new(a.x, a.y, 1.0, b.x, b.y, 1.0, c.x, c.y, 1.0);
-    let det: f64 = matrix.determinant();
+    let (ab_x, ab_y) = (b.x - a.x, b.y - a.y);
+    let (ac_x, ac_y) = (c.x - a.x, c.y - a.y);
+    let det: f64 = ab_x * ac_y - ab_y * ac_x;
+
+    let magnitude = [a, b, c]
+        .iter()
+        .fold(0.0, |max: f64, v| max.max(v.x.abs()).max(v.y.abs()));
+    let extent = ab_x.abs() + ab_y.abs() + ac_x.abs() + ac_y.abs();
+    let tolerance = 4.0 * f64::EPSILON * magnitude * extent;
 
-    if float_cmp::approx_eq!(f64, det, 0.0, epsilon = 1.0E-14f64) {
+    if det.abs() <= tolerance {
         return Orientation::Colinear;
     }
 
-- 
2.43.0


From 125a670dba010de50e9ce3abb5cc1b2c36600887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 10/38] fix: don't split segments by turns near to small input
 angles

---
 .../refine_procedures/triangle_split.rs       | 54 ++++++++++++++++++-
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/src/planar/refine_procedures/triangle_split.rs b/src/planar/refine_procedures/triangle_split.rs
index 5f04bb1..3241066 100644
--- a/src/planar/refine_procedures/triangle_split.rs
+++ b/src/planar/refine_procedures/triangle_split.rs
@@ -4,7 +4,7 @@ use crate::planar::{
     triangulation_procedures,
 };
 
-use crate::properties::{continence::*, distance::*, orientation::*};
+use crate::properties::{continence::*, distance::*, dot::*, orientation::*};
 
 use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
@@ -124,7 +124,7 @@ pub fn split_irregular(
                 /* splits a single segment, because it affects the remaining ones */
                 let encroached_segment = encroachments
                     .iter()
-                    .filter(|e| may_split(triangulation, &triangle, e, params))
+                    .filter(|e| may_split(triangulation, &triangle, e, &segment_contraints, params))
                     .map(|e| vec![Rc::clone(e), Rc::new(e.opposite())])
                     .flatten()
                     .find(|e| segment_contraints.contains(e));
@@ -292,6 +292,7 @@ fn may_split(
     triangulation: &Triangulation,
     triangle: &Rc<Triangle>,
     segment: &Rc<Edge>,
+    segment_constraints: &HashSet<Rc<Edge>>,
     params: &RefineParams,
 ) -> bool {
     let (e1, e2, e3) = triangle.inner_edges();
@@ -302,6 +303,9 @@ fn may_split(
     if is_large_triangle(triangle, params) {
         return half_length.powi(2) >= triangle.area().unwrap() / 4.0;
     }
+    if meets_sharply(triangulation, segment, segment_constraints, params) {
+        return false;
+    }
 
     let midpoint = segment.midpoint();
     let closest_distance = vec![Rc::clone(segment), Rc::new(segment.opposite())]
@@ -314,6 +318,52 @@ fn may_split(
     return closest_distance >= shortest_length.min(circumradius / 1.5);
 }
 
+/**
+ * Evaluates if the segment, with no constrained segment in-between, meets another one
+ * that is not much shorter, at an angle so small that no isosceles triangle fits there
+ * with the required quality. Splitting such segments by turns would never end.
+ */
+fn meets_sharply(
+    triangulation: &Triangulation,
+    segment: &Rc<Edge>,
+    segment_constraints: &HashSet<Rc<Edge>>,
+    params: &RefineParams,
+) -> bool {
+    let sharp_cosine = f64::max(0.5, 1.0 - 0.5 / params.quality_ratio.powi(2));
+
+    for edge in vec![Rc::clone(segment), Rc::new(segment.opposite())] {
+        for (end, tip) in vec![(&edge.v1, &edge.v2), (&edge.v2, &edge.v1)] {
+            /* turns around the end, from the segment to the next constrained one */
+            let mut next_edge = Rc::clone(&edge);
+            while let Some(triangle) = triangulation.adjacency.get(&next_edge) {
+                let vertex = match triangle.opposite_vertex(&next_edge) {
+                    Some(vertex) if !triangle.is_ghost() => vertex,
+                    _ => break,
+                };
+
+                let lengths = distance(end, tip) * distance(end, &vertex);
+                if dot(end, tip, end, &vertex) <= (sharp_cosine + 1.0E-9) * lengths {
+                    break;
+                }
+
+                next_edge = match *end == edge.v1 {
+                    true => Rc::new(Edge::new(end, &vertex)),
+                    false => Rc::new(Edge::new(&vertex, end)),
+                };
+                if segment_constraints.contains(&next_edge)
+                    || segment_constraints.contains(&next_edge.opposite())
+                {
+                    if 2.001 * next_edge.length() > segment.length() {
+                        return true;
+                    }
+                    break;
+                }
+            }
+        }
+    }
+    return false;
+}
+
 #[cfg(test)]
 mod split {
     use super::*;
-- 
2.43.0


From ea63d7c4e86bb7c18811746a84dcfcc97540f8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 11/38] fix: output the coordinates in the order the triangles
 refer to

---
 src/json_serializar/models/output.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/json_serializar/models/output.rs b/src/json_serializar/models/output.rs
index 17e1a76..5acd2c6 100644
--- a/src/json_serializar/models/output.rs
+++ b/src/json_serializar/models/output.rs
@@ -71,8 +71,8 @@ impl TriangulationOutput {
             id: input.id,
             name: input.name.clone(),
             date: input.date.clone(),
-            coordinates: vertices_map
-                .keys()
+            coordinates: vertices_vec
+                .iter()
                 .map(|v| point::Point::from_vertex(v))
                 .collect(),
             triangles: triangulator
-- 
2.43.0


From c940f637fe5a7e3cc53af66440bcc06810b02845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 12/38] fix: sort the vertices by their abscissas

---
 src/elements/vertex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/vertex.rs b/src/elements/vertex.rs
index a95cf75..4883dcd 100644
--- a/src/elements/vertex.rs
+++ b/src/elements/vertex.rs
@@ -122,7 +122,7 @@ impl Vertex {
     pub fn sort(vertex_list: &mut Vec<Rc<Vertex>>) {
         vertex_list.sort_by(|v1, v2| match v1.x.partial_cmp(&v2.x) {
             Some(Ordering::Equal) => v1.y.partial_cmp(&v2.y).unwrap(),
-            _ => v1.x.partial_cmp(&v2.y).unwrap(),
+            _ => v1.x.partial_cmp(&v2.x).unwrap(),
         });
     }
 }
-- 
2.43.0


From fc2f8434c522ef3927476c15696483381383def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 13/38] fix: don't evaluate the angle of colinear vertices to
 NaN

---
 src/properties/angle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties/angle.rs b/src/properties/angle.rs
index 88a0ee8..73adbda 100644
--- a/src/properties/angle.rs
+++ b/src/properties/angle.rs
@@ -14,7 +14,7 @@ pub fn angle(a: &Vertex, b: &Vertex, c: &Vertex) -> Option<f64> {
     let bc: Vector2<f64> = Vector2::new(c.x - b.x, c.y - b.y);
 
     let cos_theta = ba.dot(&bc) / (ba.norm() * bc.norm());
-    let theta = cos_theta.acos();
+    let theta = cos_theta.max(-1.0).min(1.0).acos(); /* rounding may exceed the unit */
 
     if orientation(a, b, c) == Orientation::Clockwise {
         return Some(2.0 * std::f64::consts::PI - theta);
-- 
2.43.0


From e713b48b85711d74dff36cd590c8190e165e51eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:49 +0000
Subject: [PATCH 14/38] fix: hash equal vertices and equal triangles alike

---
 src/elements/triangle.rs | 18 ++++++++++++++++--
 src/elements/vertex.rs   |  5 +++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/elements/triangle.rs b/src/elements/triangle.rs
index d30539d..896975c 100644
--- a/src/elements/triangle.rs
+++ b/src/elements/triangle.rs
@@ -4,16 +4,30 @@ use crate::properties::{area::*, circumcenter::*, continence::*, distance::*, or
 use std::cmp::Eq;
 use std::fmt;
 use std::fmt::Debug;
-use std::hash::Hash;
+use std::collections::hash_map::DefaultHasher;
+use std::hash::{Hash, Hasher};
 use std::rc::Rc;
 
-#[derive(Hash, Debug)]
+#[derive(Debug)]
 pub struct Triangle {
     pub v1: Rc<Vertex>,
     pub v2: Rc<Vertex>,
     pub v3: Rc<Vertex>,
 }
 
+impl Hash for Triangle {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        /* equal triangles may begin at different vertices */
+        let mut sum: u64 = 0;
+        for vertex in [&self.v1, &self.v2, &self.v3].iter() {
+            let mut hasher = DefaultHasher::new();
+            vertex.hash(&mut hasher);
+            sum = sum.wrapping_add(hasher.finish());
+        }
+        sum.hash(state);
+    }
+}
+
 impl PartialEq for Triangle {
     fn eq(&self, other: &Self) -> bool {
         self.v1 == other.v1 && self.v2 == other.v2 && self.v3 == other.v3
diff --git a/src/elements/vertex.rs b/src/elements/vertex.rs
index 4883dcd..ac88d39 100644
--- a/src/elements/vertex.rs
+++ b/src/elements/vertex.rs
@@ -17,12 +17,13 @@ pub struct Vertex {
 
 impl Hash for Vertex {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        let (m, e, s) = Float::integer_decode(self.x);
+        /* adding zero makes negative zero positive, as they are equal */
+        let (m, e, s) = Float::integer_decode(self.x + 0.0);
         m.hash(state);
         e.hash(state);
         s.hash(state);
 
-        let (m, e, s) = Float::integer_decode(self.y);
+        let (m, e, s) = Float::integer_decode(self.y + 0.0);
         m.hash(state);
         e.hash(state);
         s.hash(state);
-- 
2.43.0


From 25afe86c5544d9bafd6b0bd96eb6ca810458c689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 15/38] fix: don't unite polylines that have no intersection

---
 src/elements/polyline.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 4592e97..16d1294 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -412,6 +412,17 @@ impl Polyline {
                 .cloned()
                 .collect(),
         );
+
+        /* No segment crosses the other polyline and no vertex belongs to it */
+        let is_split = possible_segments.len() > p1_segments.len() + p2_segments.len();
+        let is_apart = |p: &Self, q: &Self| {
+            let mut vertices = q.vertices.iter();
+            return vertices.all(|v| p.contains(v) == Some(Continence::Outside));
+        };
+        if !is_split && is_apart(p1, p2) && is_apart(p2, p1) {
+            return None;
+        }
+
         let mut read_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
 
         /* Filters by continence */
-- 
2.43.0


From 1bc812281f1badc69dbf90b2bb011e300aac7bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 16/38] fix: insert the union of the holes that overlap instead
 of both

---
 src/triangulator_interface/domain_evaluator.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/triangulator_interface/domain_evaluator.rs b/src/triangulator_interface/domain_evaluator.rs
index 28edcad..3a3ceac 100644
--- a/src/triangulator_interface/domain_evaluator.rs
+++ b/src/triangulator_interface/domain_evaluator.rs
@@ -80,15 +80,21 @@ pub fn holes(boundary: &Rc<Polyline>, removes: &Vec<Rc<Polyline>>) -> HashSet<Rc
             continue;
         }
 
-        for existing_hole in holes.iter().cloned() {
-            if let Some((union, _)) = Polyline::union(&existing_hole, &possible_removal) {
+        let possible_union = holes.iter().cloned().find_map(|existing_hole| {
+            Polyline::union(&existing_hole, &possible_removal)
+                .map(|(union, _)| (existing_hole, Rc::new(union)))
+        });
+
+        match possible_union {
+            Some((existing_hole, union)) => {
+                /* the union replaces both */
                 holes.remove(&existing_hole);
-                removes.push(Rc::new(union));
-                break;
+                removes.push(union);
+            }
+            None => {
+                holes.insert(possible_removal);
             }
         }
-
-        holes.insert(possible_removal);
     }
 
     return holes;
-- 
2.43.0


From 3c8446027562bd3bf7367149caa2c1284b3b9e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 17/38] fix: evaluate the removals again after the boundary
 moves

---
 .../domain_evaluator.rs                       | 41 +++++++++++++------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/triangulator_interface/domain_evaluator.rs b/src/triangulator_interface/domain_evaluator.rs
index 3a3ceac..639d57a 100644
--- a/src/triangulator_interface/domain_evaluator.rs
+++ b/src/triangulator_interface/domain_evaluator.rs
@@ -10,7 +10,7 @@ use std::rc::Rc;
  * subtracted from union of includes.
  * If includes is empty, Err is returned.
  * If any include is sepparated from the remaining, Err is returned.
- * If any removal, splits the union in two or more, Err is returned.
+ * If any removal, splits the union in two or more, or covers it, Err is returned.
  */
 pub fn boundary(
     includes: &Vec<Rc<Polyline>>,
@@ -40,21 +40,36 @@ pub fn boundary(
         return Err(());
     }
 
-    for possible_removal in removes.iter() {
-        let (subtraction_list, _) = Polyline::subtraction(&boundary, possible_removal);
-        
-        if subtraction_list.len() > 1 {
-            /* divided union in more than 1 */
-            return Err(());
-        }
-        if subtraction_list.len() == 1 {
-            boundary = Rc::clone(subtraction_list.get(0).unwrap());
-            continue;
+    let mut removes: Vec<Rc<Polyline>> = removes.iter().cloned().collect();
+    let mut should_evaluate = true;
+
+    /* Subtractions move the boundary, which may then cross unused removals */
+    while should_evaluate {
+        should_evaluate = false;
+
+        for possible_removal in removes.iter() {
+            let (subtraction_list, _) = Polyline::subtraction(&boundary, possible_removal);
+
+            if subtraction_list.len() > 1 {
+                /* divided union in more than 1 */
+                return Err(());
+            }
+            if subtraction_list.len() == 1 {
+                boundary = Rc::clone(subtraction_list.get(0).unwrap());
+                should_evaluate = true;
+                continue;
+            }
+            match Polyline::continence(possible_removal, &boundary) {
+                Some((Continence::Outside, _)) | None => {}
+                _ => return Err(()), /* nothing remains */
+            }
+            unused_removals.push(Rc::clone(possible_removal));
         }
-        unused_removals.push(Rc::clone(possible_removal));
+
+        removes = unused_removals.drain(..).collect();
     }
 
-    return Ok((boundary, unused_removals));
+    return Ok((boundary, removes));
 }
 
 /**
-- 
2.43.0


From 9bbdb131c5770c574f78a9a0225324536afbec76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 18/38] fix: don't split the new segments at their own end
 vertices

---
 src/planar/triangulator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index 65d020a..2e122f1 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -157,6 +157,7 @@ impl Triangulator {
                 if &segment.v1 == vertex || &segment.v2 == vertex {
                     /* Ignore vertices if they are an end vertex */
                     self.vertices.remove(vertex);
+                    continue;
                 }
                 if segment.contains(vertex) {
                     /* splits segment if contained */
-- 
2.43.0


From b0d99777a3b8099ecdeb9bcabd74ca74e100ea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 19/38] fix: judge intersections relative to the precision of
 the coordinates

---
 src/properties/intersection.rs | 114 ++++++++++-----------------------
 1 file changed, 33 insertions(+), 81 deletions(-)

diff --git a/src/properties/intersection.rs b/src/properties/intersection.rs
index 6e1244a..6190f24 100644
--- a/src/properties/intersection.rs
+++ b/src/properties/intersection.rs
@@ -1,12 +1,7 @@
-#![macro_use]
-extern crate float_cmp;
-
-extern crate nalgebra;
-
 use crate::elements::bounding_box::*;
 use crate::elements::vertex::*;
+use crate::properties::{area::*, midpoint::*, orientation::*};
 
-use nalgebra::{Matrix2, Matrix2x1};
 use std::rc::Rc;
 
 /**
@@ -21,22 +16,41 @@ pub fn intersection(
     v3: &Rc<Vertex>,
     v4: &Rc<Vertex>,
 ) -> Option<Vertex> {
-    if let Some(bbox) = intersection_region(v1, v2, v3, v4) {
-        if let Some(vertex) = intersection_vertex(v1, v2, v3, v4, &bbox) {
-            let in_interval_x = (vertex.x >= bbox.origin.x && vertex.x <= bbox.destin.x)
-                || float_cmp::approx_eq!(f64, bbox.origin.x, vertex.x, epsilon = 1.0E-14f64)
-                || float_cmp::approx_eq!(f64, bbox.destin.x, vertex.x, epsilon = 1.0E-14f64);
-            let in_interval_y = (vertex.y >= bbox.origin.y && vertex.y <= bbox.destin.y)
-                || float_cmp::approx_eq!(f64, bbox.origin.y, vertex.y, epsilon = 1.0E-14f64)
-                || float_cmp::approx_eq!(f64, bbox.destin.y, vertex.y, epsilon = 1.0E-14f64);
-
-            if in_interval_x && in_interval_y {
-                return Some(vertex);
-            }
+    let bbox = intersection_region(v1, v2, v3, v4)?;
+
+    let v1_side = orientation(v3, v4, v1);
+    let v2_side = orientation(v3, v4, v2);
+    let v3_side = orientation(v1, v2, v3);
+    let v4_side = orientation(v1, v2, v4);
+
+    let are_coincident = (v1_side == Orientation::Colinear && v2_side == Orientation::Colinear)
+        || (v3_side == Orientation::Colinear && v4_side == Orientation::Colinear);
+    if are_coincident {
+        /* Return mid-point as intersection representation */
+        return Some(midpoint(&bbox.origin, &bbox.destin));
+    }
+
+    if v1_side == v2_side || v3_side == v4_side {
+        /* one segment is at a single side of the other */
+        return None;
+    }
+
+    /* an end vertex over the other segment is the intersection itself */
+    let ends = [(v1, v1_side), (v2, v2_side), (v3, v3_side), (v4, v4_side)];
+    for (vertex, side) in ends.iter() {
+        if side == &Orientation::Colinear {
+            return Some(Vertex::new(vertex.x, vertex.y));
         }
     }
 
-    return None;
+    /* v1 + t * (v2 - v1) is over the line v3v4 */
+    let area_v1 = area_triangle(v3, v4, v1);
+    let area_v2 = area_triangle(v3, v4, v2);
+    let t = area_v1 / (area_v1 - area_v2);
+    return Some(Vertex::new(
+        v1.x + t * (v2.x - v1.x),
+        v1.y + t * (v2.y - v1.y),
+    ));
 }
 
 /**
@@ -57,68 +71,6 @@ fn intersection_region(
     return BoundingBox::intersection(&e1_bbox, &e2_bbox);
 }
 
-/**
- * Determines the exact intersection vertex between lines
- */
-fn intersection_vertex(
-    v1: &Rc<Vertex>,
-    v2: &Rc<Vertex>,
-    v3: &Rc<Vertex>,
-    v4: &Rc<Vertex>,
-    bbox: &BoundingBox,
-) -> Option<Vertex> {
-    let x1 = v1.x;
-    let y1 = v1.y;
-
-    let x2 = v2.x;
-    let y2 = v2.y;
-
-    let x3 = v3.x;
-    let y3 = v3.y;
-
-    let x4 = v4.x;
-    let y4 = v4.y;
-
-    let matrix_a = Matrix2::new(-(y2 - y1), x2 - x1, -(y4 - y3), x4 - x3);
-
-    let matrix_b = Matrix2x1::new(
-        y1 * (x2 - x1) - x1 * (y2 - y1),
-        y3 * (x4 - x3) - x3 * (y4 - y3),
-    );
-
-    if !matrix_a.is_invertible() {
-        /* Lines are coincident */
-        let possible_middle_point = Matrix2x1::new(
-            (bbox.origin.x + bbox.destin.x) / 2.0,
-            (bbox.origin.y + bbox.destin.y) / 2.0,
-        );
-
-        let eval = matrix_a * possible_middle_point - matrix_b;
-
-        if float_cmp::approx_eq!(f64, eval[0], 0.0, epsilon = 1.0E-14f64)
-            && float_cmp::approx_eq!(f64, eval[1], 0.0, epsilon = 1.0E-14f64)
-        {
-            /* Return mid-point as intersection representation */
-            return Some(Vertex::new(
-                possible_middle_point[0],
-                possible_middle_point[1],
-            ));
-        }
-
-        /* Lines are parallel */
-        return None;
-    }
-
-    let matrix_a_inv = matrix_a.try_inverse().unwrap();
-
-    let intersection_matrix = matrix_a_inv * matrix_b;
-
-    let intersection_x = intersection_matrix[0];
-    let intersection_y = intersection_matrix[1];
-
-    return Some(Vertex::new(intersection_x, intersection_y));
-}
-
 #[cfg(test)]
 mod intersection {
     use super::*;
-- 
2.43.0


From 5733c21d1ce496a2d9b359410f077378cbaa9df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 20/38] fix: judge whether an edge contains a vertex by the
 precision of the coordinates

---
 src/elements/edge.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/elements/edge.rs b/src/elements/edge.rs
index 9fa5282..525bdc0 100644
--- a/src/elements/edge.rs
+++ b/src/elements/edge.rs
@@ -1,4 +1,4 @@
-use crate::elements::{bounding_box::*, polyline::*, vertex::*};
+use crate::elements::{polyline::*, vertex::*};
 use crate::properties::{
     continence::*, distance::*, dot::*, encroachment::*, intersection::*, orientation::*,
     parallel::*,
@@ -121,10 +121,8 @@ impl Edge {
     }
 
     pub fn contains(&self, vertex: &Vertex) -> bool {
-        let bbox =
-            BoundingBox::from_vertices(vec![Rc::clone(&self.v1), Rc::clone(&self.v2)]).unwrap();
-
-        if !bbox.contains(vertex) {
+        /* in-between both ends, up to the precision of the coordinates */
+        if self.encroach(vertex) == Continence::Outside {
             return false;
         }
 
-- 
2.43.0


From 7a62e3a08eedac7dba31ce295bff8503f3dba221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 21/38] fix: refuse a hole that encloses an existing hole

---
 src/planar/triangulator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index 2e122f1..4599432 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -220,7 +220,10 @@ impl Triangulator {
             let is_hole_outside_existing_hole = Polyline::continence(existing_hole, hole)
                 == Some((Continence::Outside, BoundaryInclusion::Open));
 
-            if !is_hole_outside_existing_hole {
+            let is_existing_hole_outside_hole = Polyline::continence(hole, existing_hole)
+                == Some((Continence::Outside, BoundaryInclusion::Open));
+
+            if !is_hole_outside_existing_hole || !is_existing_hole_outside_hole {
                 conflicting_vertices = conflicting_vertices
                     .iter()
                     .chain(existing_hole.vertices.iter())
-- 
2.43.0


From a3b82c4912d677f85fc3e9d7562f0603728151e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 22/38] fix: remove the vertices that belong to an inserted
 hole

---
 src/planar/triangulator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index 4599432..2970400 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -251,6 +251,10 @@ impl Triangulator {
             return Err(conflicting_vertices);
         }
 
+        /* Removes the vertices that belong to the hole */
+        self.vertices
+            .retain(|vertex| hole.contains(vertex) == Some(Continence::Outside));
+
         self.holes.insert(Rc::clone(hole));
         return Ok(self);
     }
-- 
2.43.0


From 3ee7a217ebd3c5a91e6e3a4813c9bc589521a174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 23/38] fix: include the tail and the touched vertices in the
 continence between polylines

---
 src/elements/polyline.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 16d1294..031b153 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -721,6 +721,7 @@ impl Polyline {
             .iter()
             .map(|e| vec![Rc::new(e.midpoint()), Rc::clone(&e.v1)])
             .flatten()
+            .chain(p2.tail())
         {
             let continence = p1.contains(&critial_vertex).unwrap();
             if continence == Continence::Boundary {
@@ -738,6 +739,13 @@ impl Polyline {
             }
         }
 
+        /* p2 may also meet the vertices of p1 along its edges */
+        for edge in p2.into_edges().iter() {
+            if p1.vertices.iter().any(|vertex| edge.contains(vertex)) {
+                possible_boundary = BoundaryInclusion::Closed;
+            }
+        }
+
         let p1_pairs = vertex_pairs(&p1.vertices, p1.opened);
         let p2_pairs = vertex_pairs(&p2.vertices, p2.opened);
 
-- 
2.43.0


From 0db083d9142a6a54a7780276c1745eb07a7c101a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 24/38] fix: don't take vertices over or under almost vertical
 segments for boundary ones

---
 src/elements/polyline.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 031b153..57f192e 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -4,6 +4,7 @@ use crate::properties::angle::*;
 use crate::properties::area::area_segments;
 use crate::properties::continence::*;
 use crate::properties::dot::*;
+use crate::properties::encroachment::*;
 use crate::properties::intersection::*;
 use crate::properties::midpoint::*;
 use crate::properties::orientation::*;
@@ -175,10 +176,21 @@ impl Polyline {
                 continue;
             }
 
-            match orientation(&v1, &v2, vertex) {
-                Orientation::Colinear => {
+            let mut side = orientation(&v1, &v2, vertex);
+            if side == Orientation::Colinear {
+                if encroach(&v1, &v2, vertex) != Continence::Outside {
                     return Some(Continence::Boundary);
                 }
+                /* over or under a segment that is almost vertical */
+                side = if (v1.x < v2.x) == (v1.y < vertex.y) {
+                    Orientation::Counterclockwise
+                } else {
+                    Orientation::Clockwise
+                };
+            }
+
+            match side {
+                Orientation::Colinear => {}
                 Orientation::Counterclockwise => {
                     if v1.x == vertex.x || v2.x == vertex.x {
                         parity = parity + 1;
-- 
2.43.0


From cb98e25abdf08c0998218ff0059ade975b95f6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 25/38] fix: take vertices by vertical polyline segments for
 boundary ones

---
 src/elements/polyline.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 57f192e..ecd4324 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -4,7 +4,6 @@ use crate::properties::angle::*;
 use crate::properties::area::area_segments;
 use crate::properties::continence::*;
 use crate::properties::dot::*;
-use crate::properties::encroachment::*;
 use crate::properties::intersection::*;
 use crate::properties::midpoint::*;
 use crate::properties::orientation::*;
@@ -155,17 +154,12 @@ impl Polyline {
         let mut parity: isize = 0;
 
         for (v1, v2) in segments {
+            if Edge::new(&v1, &v2).contains(vertex) {
+                return Some(Continence::Boundary);
+            }
+
             let is_vertical_segment = v1.x == v2.x;
             if is_vertical_segment {
-                let points_to_vertex = v1.x == vertex.x;
-                let contains_vertex_in_vertical_interval = (v1.y <= vertex.y && vertex.y <= v2.y)
-                    || (v2.y <= vertex.y && vertex.y <= v1.y);
-
-                if points_to_vertex && contains_vertex_in_vertical_interval {
-                    /* intersection case */
-                    return Some(Continence::Boundary);
-                }
-                /* skips vertical segments */
                 continue;
             }
 
@@ -178,9 +172,6 @@ impl Polyline {
 
             let mut side = orientation(&v1, &v2, vertex);
             if side == Orientation::Colinear {
-                if encroach(&v1, &v2, vertex) != Continence::Outside {
-                    return Some(Continence::Boundary);
-                }
                 /* over or under a segment that is almost vertical */
                 side = if (v1.x < v2.x) == (v1.y < vertex.y) {
                     Orientation::Counterclockwise
-- 
2.43.0


From afec4ad17bc393b4de3753230338039010082d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 26/38] fix: evaluate the continence of polylines whose edges
 are split by the other's vertices

---
 src/elements/polyline.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index ecd4324..021e963 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -762,6 +762,10 @@ impl Polyline {
             if continence == Continence::Boundary {
                 continue;
             }
+            if possible_continence.is_none() {
+                possible_continence = Some(continence);
+                continue;
+            }
             if Some(continence) != possible_continence {
                 return None;
             }
-- 
2.43.0


From 74a478b5fd0e439e9c74dc68f855414b9b6d1c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 27/38] fix: evaluate polylines that share parts of their edges

---
 src/elements/polyline.rs | 213 +++++++++++++--------------------------
 1 file changed, 71 insertions(+), 142 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 021e963..2a643aa 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -235,65 +235,8 @@ impl Polyline {
         let p2_bbox = p2.bounding_box().unwrap();
 
         if !BoundingBox::intersection(&p1_bbox, &p2_bbox).is_none() {
-            /*
-                Removes pairs of colinear segments in opposed direction
-            */
+            let all_segments = possible_segments.clone();
             let mut read_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
-            read_segments.push(possible_segments.pop().unwrap());
-            while !possible_segments.is_empty() {
-                let (v1, v2) = possible_segments.pop().unwrap();
-                match read_segments.iter().position(|(v3, v4)| {
-                    if !intersection(&v1, &v2, v3, v4).is_none() {
-                        let is_parallel = parallel(&v1, &v2, v3, v4);
-                        let have_opposite_directions = dot(&v1, &v2, v3, v4) < 0.0;
-
-                        let is_polyline_continuation = &v1 == v4 || &v2 == v3;
-                        let is_outside = p1.contains(&v1).unwrap() == Continence::Outside
-                            || p2.contains(&v1).unwrap() == Continence::Outside
-                            || p1.contains(&v2).unwrap() == Continence::Outside
-                            || p2.contains(&v2).unwrap() == Continence::Outside
-                            || p1.contains(&v3).unwrap() == Continence::Outside
-                            || p2.contains(&v3).unwrap() == Continence::Outside
-                            || p1.contains(&v4).unwrap() == Continence::Outside
-                            || p2.contains(&v4).unwrap() == Continence::Outside;
-
-                        return is_parallel
-                            && have_opposite_directions
-                            && (is_polyline_continuation || is_outside);
-                    }
-                    return false;
-                }) {
-                    Some(index) => {
-                        let (v3, v4) = read_segments.remove(index);
-
-                        unused_segments.insert((Rc::clone(&v1), Rc::clone(&v2)));
-                        unused_segments.insert((Rc::clone(&v3), Rc::clone(&v4)));
-                        if v2 != v3
-                            && (v1 == v4
-                                || p1.contains(&v1).unwrap() == Continence::Outside
-                                || p2.contains(&v1).unwrap() == Continence::Outside
-                                || p1.contains(&v4).unwrap() == Continence::Outside
-                                || p2.contains(&v4).unwrap() == Continence::Outside)
-                        {
-                            possible_segments.push((Rc::clone(&v3), Rc::clone(&v2)));
-                        }
-                        if v1 != v4
-                            && (v2 == v3
-                                || p1.contains(&v2).unwrap() == Continence::Outside
-                                || p2.contains(&v2).unwrap() == Continence::Outside
-                                || p1.contains(&v3).unwrap() == Continence::Outside
-                                || p2.contains(&v3).unwrap() == Continence::Outside)
-                        {
-                            possible_segments.push((Rc::clone(&v1), Rc::clone(&v4)));
-                        }
-                    }
-                    None => {
-                        read_segments.push((v1, v2));
-                    }
-                }
-            } /* end - removes pair of intersecting colinear segments in opposed direction */
-            possible_segments = read_segments.iter().cloned().collect();
-            read_segments = Vec::new();
 
             /* Filters by continence */
             while !possible_segments.is_empty() {
@@ -303,7 +246,10 @@ impl Polyline {
                 let contains_mid = p1.contains(&midpoint).unwrap() != Continence::Outside
                     && p2.contains(&midpoint).unwrap() != Continence::Outside;
 
-                if contains_mid {
+                /* both polylines run there, in opposed directions */
+                let is_opposed = all_segments.iter().any(|(v3, v4)| v3 == &v2 && v4 == &v1);
+
+                if contains_mid && !is_opposed {
                     read_segments.push((v1, v2));
                 } else {
                     unused_segments.insert((v1, v2));
@@ -426,6 +372,7 @@ impl Polyline {
             return None;
         }
 
+        let all_segments = possible_segments.clone();
         let mut read_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
 
         /* Filters by continence */
@@ -436,7 +383,12 @@ impl Polyline {
             let dont_contains_mid = p1.contains(&midpoint).unwrap() == Continence::Outside
                 || p2.contains(&midpoint).unwrap() == Continence::Outside;
 
-            if dont_contains_mid {
+            /* both polylines run there, in the same direction */
+            let is_shared = p1.contains(&midpoint).unwrap() == Continence::Boundary
+                && p2.contains(&midpoint).unwrap() == Continence::Boundary
+                && !all_segments.iter().any(|(v3, v4)| v3 == &v2 && v4 == &v1);
+
+            if dont_contains_mid || is_shared {
                 read_segments.push((v1, v2));
             } else {
                 unused_segments.insert((v1, v2));
@@ -557,65 +509,8 @@ impl Polyline {
             return (polyline_intersection_list, unused_segments);
         }
 
-        /*
-            Removes pairs of colinear segments in opposed direction
-        */
+        let all_segments = possible_segments.clone();
         let mut read_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
-        read_segments.push(possible_segments.pop().unwrap());
-        while !possible_segments.is_empty() {
-            let (v1, v2) = possible_segments.pop().unwrap();
-            match read_segments.iter().position(|(v3, v4)| {
-                if intersection(&v1, &v2, v3, v4).is_none() {
-                    return false;
-                }
-                let is_parallel = parallel(&v1, &v2, v3, v4);
-                let have_opposite_directions = dot(&v1, &v2, v3, v4) < 0.0;
-
-                let is_polyline_continuation = &v1 == v4 || &v2 == v3;
-                let is_outside = p1.contains(&v1).unwrap() == Continence::Outside
-                    || p2.contains(&v1).unwrap() == Continence::Outside
-                    || p1.contains(&v2).unwrap() == Continence::Outside
-                    || p2.contains(&v2).unwrap() == Continence::Outside
-                    || p1.contains(&v3).unwrap() == Continence::Outside
-                    || p2.contains(&v3).unwrap() == Continence::Outside
-                    || p1.contains(&v4).unwrap() == Continence::Outside
-                    || p2.contains(&v4).unwrap() == Continence::Outside;
-
-                return is_parallel
-                    && have_opposite_directions
-                    && (is_polyline_continuation || is_outside);
-            }) {
-                Some(index) => {
-                    let (v3, v4) = read_segments.remove(index);
-
-                    unused_segments.insert((Rc::clone(&v1), Rc::clone(&v2)));
-                    unused_segments.insert((Rc::clone(&v3), Rc::clone(&v4)));
-                    if v2 != v3
-                        && (v1 == v4
-                            || p1.contains(&v1).unwrap() == Continence::Outside
-                            || p2.contains(&v1).unwrap() == Continence::Outside
-                            || p1.contains(&v4).unwrap() == Continence::Outside
-                            || p2.contains(&v4).unwrap() == Continence::Outside)
-                    {
-                        possible_segments.push((Rc::clone(&v3), Rc::clone(&v2)));
-                    }
-                    if v1 != v4
-                        && (v2 == v3
-                            || p1.contains(&v2).unwrap() == Continence::Outside
-                            || p2.contains(&v2).unwrap() == Continence::Outside
-                            || p1.contains(&v3).unwrap() == Continence::Outside
-                            || p2.contains(&v3).unwrap() == Continence::Outside)
-                    {
-                        possible_segments.push((Rc::clone(&v1), Rc::clone(&v4)));
-                    }
-                }
-                None => {
-                    read_segments.push((v1, v2));
-                }
-            }
-        } /* end - removes pair of intersecting colinear segments in opposed direction */
-        possible_segments = read_segments.iter().cloned().collect();
-        read_segments = Vec::new();
 
         /* Filters by continence */
         while !possible_segments.is_empty() {
@@ -625,7 +520,10 @@ impl Polyline {
             let inside_p1 = p1.contains(&midpoint).unwrap() != Continence::Outside;
             let not_inside_p2 = p2.contains(&midpoint).unwrap() != Continence::Inside;
 
-            if inside_p1 && not_inside_p2 {
+            /* both polylines run there, in opposed directions */
+            let is_opposed = all_segments.iter().any(|(v3, v4)| v3 == &v2 && v4 == &v1);
+
+            if inside_p1 && not_inside_p2 && !is_opposed {
                 read_segments.push((v1, v2));
             } else {
                 unused_segments.insert((v1, v2));
@@ -888,30 +786,22 @@ pub fn split_intersections(
 
     while !aux_set.is_empty() {
         let (v1, v2) = aux_set.pop().unwrap();
-        if let Some(index) = splited_segments.iter().position(|(v3, v4)| {
-            if !intersection(&v1, &v2, &v3, &v4).is_none() {
-                return &v1 != v3
-                    && &v1 != v4
-                    && &v2 != v3
-                    && &v2 != v4
-                    && !parallel(&v1, &v2, &v3, &v4);
-            }
-            return false;
-        }) {
+        let possible_split = splited_segments
+            .iter()
+            .enumerate()
+            .find_map(|(index, (v3, v4))| Some((index, splitting_vertex(&v1, &v2, v3, v4)?)));
+
+        if let Some((index, (vertex, splits_first, splits_second))) = possible_split {
             let (v3, v4) = splited_segments.remove(index);
-            let intersection_vertex = intersection(&v1, &v2, &v3, &v4).unwrap();
-            let intersection_vertex = Rc::new(intersection_vertex);
-            if v3 != intersection_vertex {
-                aux_set.push((Rc::clone(&v3), Rc::clone(&intersection_vertex)));
-            }
-            if v4 != intersection_vertex {
-                aux_set.push((Rc::clone(&intersection_vertex), Rc::clone(&v4)));
-            }
-            if v1 != intersection_vertex {
-                aux_set.push((Rc::clone(&v1), Rc::clone(&intersection_vertex)));
-            }
-            if v2 != intersection_vertex {
-                aux_set.push((Rc::clone(&intersection_vertex), Rc::clone(&v2)));
+            for (head, tail, is_split) in
+                vec![(v3, v4, splits_second), (v1, v2, splits_first)].into_iter()
+            {
+                if is_split {
+                    aux_set.push((head, Rc::clone(&vertex)));
+                    aux_set.push((Rc::clone(&vertex), tail));
+                } else {
+                    aux_set.push((head, tail));
+                }
             }
         } else {
             /* no intersection, just segment continuation */
@@ -922,6 +812,45 @@ pub fn split_intersections(
     return splited_segments;
 }
 
+/**
+ * Determines the vertex at which the segments split each other, and which of them
+ * it splits. Segments that are over one another split at their end vertices.
+ */
+fn splitting_vertex(
+    v1: &Rc<Vertex>,
+    v2: &Rc<Vertex>,
+    v3: &Rc<Vertex>,
+    v4: &Rc<Vertex>,
+) -> Option<(Rc<Vertex>, bool, bool)> {
+    let vertex = Rc::new(intersection(v1, v2, v3, v4)?);
+
+    let splits = |head: &Rc<Vertex>, tail: &Rc<Vertex>, vertex: &Rc<Vertex>| {
+        return vertex != head && vertex != tail && Edge::new(head, tail).contains(vertex);
+    };
+    for end in vec![v3, v4] {
+        if splits(v1, v2, end) {
+            return Some((Rc::clone(end), true, false));
+        }
+    }
+    for end in vec![v1, v2] {
+        if splits(v3, v4, end) {
+            return Some((Rc::clone(end), false, true));
+        }
+    }
+
+    let are_connected = v1 == v3 || v1 == v4 || v2 == v3 || v2 == v4;
+    if are_connected || parallel(v1, v2, v3, v4) {
+        return None;
+    }
+
+    let splits_first = v1 != &vertex && v2 != &vertex;
+    let splits_second = v3 != &vertex && v4 != &vertex;
+    if !splits_first && !splits_second {
+        return None;
+    }
+    return Some((vertex, splits_first, splits_second));
+}
+
 pub fn segments_orientation(vertex_pairs: &Vec<(Rc<Vertex>, Rc<Vertex>)>) -> Orientation {
     let area = area_segments(vertex_pairs);
     if area < 0.0 {
-- 
2.43.0


From 8a64dede3e870af09ebcbc10b765a0a9b0f01d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 28/38] fix: parse clockwise polylines and repeated vertices,
 and refuse geometries that enclose nothing

---
 .../interpreter/circle_parser.rs                  |  5 +++++
 .../interpreter/polyline_parser.rs                | 15 +++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/triangulator_interface/interpreter/circle_parser.rs b/src/triangulator_interface/interpreter/circle_parser.rs
index c3c66af..d9b64d2 100644
--- a/src/triangulator_interface/interpreter/circle_parser.rs
+++ b/src/triangulator_interface/interpreter/circle_parser.rs
@@ -16,6 +16,11 @@ pub fn parse(action: &Action) -> Result<Polyline, ()> {
             None => 100,
         };
 
+        if radius == 0.0 || resolution < 3 {
+            /* encloses nothing */
+            return Err(());
+        }
+
         let dphi = std::f64::consts::PI * 2.0 / resolution as f64;
         for index in 0..resolution {
             let angle: f64 = dphi * index as f64;
diff --git a/src/triangulator_interface/interpreter/polyline_parser.rs b/src/triangulator_interface/interpreter/polyline_parser.rs
index 19783b1..1b706c9 100644
--- a/src/triangulator_interface/interpreter/polyline_parser.rs
+++ b/src/triangulator_interface/interpreter/polyline_parser.rs
@@ -2,16 +2,23 @@ use crate::json_serializar::models::{action::Action, point::Point};
 use std::rc::Rc;
 
 use nlsn_delaunay::elements::{polyline::*, vertex::*};
+use nlsn_delaunay::properties::orientation::*;
 
 pub fn parse(action: &Action) -> Result<Polyline, ()> {
-    let vertices: Vec<Rc<Vertex>> = action
+    let mut vertices: Vec<Rc<Vertex>> = action
         .points
         .iter()
         .map(|p| point_to_vertex(p))
         .map(|v| Rc::new(v))
         .collect();
 
-    if vertices.is_empty() {
+    /* Repeated vertices, as the first one at the end, define no segment */
+    vertices.dedup();
+    if vertices.len() > 1 && vertices.first() == vertices.last() {
+        vertices.pop();
+    }
+
+    if vertices.len() < 3 {
         return Err(());
     }
 
@@ -25,6 +32,10 @@ pub fn parse(action: &Action) -> Result<Polyline, ()> {
         return Err(());
     }
 
+    if segments_orientation(&segments) == Orientation::Clockwise {
+        vertices.reverse();
+    }
+
     return Ok(Polyline::new_closed(vertices).unwrap());
 } /* end - parse */
 
-- 
2.43.0


From a5eef3c8c057dc4c92a51954f84c110039dd5563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 29/38] fix: include once the vertices that are repeated in a
 batch

---
 src/planar/triangulation_procedures/vertices.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index c6de957..b87c8b8 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -15,10 +15,10 @@ pub fn include(
     boundary: &Option<Rc<Polyline>>,
     holes: &HashSet<Rc<Polyline>>,
 ) -> (HashSet<Rc<Triangle>>, HashSet<Rc<Triangle>>) {
-    let existing_vertices: HashSet<Rc<Vertex>> = triangulation.vertices();
+    let mut existing_vertices: HashSet<Rc<Vertex>> = triangulation.vertices();
     let mut vertices: Vec<Rc<Vertex>> = vertices
         .iter()
-        .filter(|&v| !existing_vertices.contains(v)) /* filters existing vertices */
+        .filter(|&v| existing_vertices.insert(Rc::clone(v))) /* filters existing and repeated vertices */
         .cloned()
         .collect();
 
-- 
2.43.0


From 62de67712d0962f5a061144acc8896b907f87b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 30/38] fix: leave no vertex inside of the triangles that fill
 along a segment

---
 src/planar/triangulation_procedures/segment.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/planar/triangulation_procedures/segment.rs b/src/planar/triangulation_procedures/segment.rs
index 950ce68..a44b22c 100644
--- a/src/planar/triangulation_procedures/segment.rs
+++ b/src/planar/triangulation_procedures/segment.rs
@@ -132,7 +132,13 @@ fn fill_chain(
             continue;
         }
         let is_apex = match apex_index {
-            Some(apex) => continence(v1, v2, &chain[apex], vertex) == Continence::Inside,
+            Some(apex) => {
+                /* no vertex is left inside of the triangle, even if it is too close to its circle */
+                continence(v1, v2, &chain[apex], vertex) == Continence::Inside
+                    || vertex != &chain[apex]
+                        && orientation(v2, &chain[apex], vertex) != Orientation::Clockwise
+                        && orientation(&chain[apex], v1, vertex) != Orientation::Clockwise
+            }
             None => true,
         };
         if is_apex {
-- 
2.43.0


From 69437da2199ff7dbe591ecb09d748ec9087477bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 31/38] fix: arrange no polyline from edges that run into
 themselves or don't close

---
 src/elements/polyline.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 2a643aa..cdb45d1 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -91,24 +91,25 @@ impl Polyline {
             hash_edges.insert(Rc::clone(&edge.v1), Rc::clone(&edge.v2));
         }
 
-        let head: Rc<Vertex> = Rc::clone(hash_edges.keys().next().unwrap());
+        let head: Rc<Vertex> = Rc::clone(hash_edges.keys().next()?);
         let mut tail: Rc<Vertex> = Rc::clone(&head);
         arranged_vertices.push(Rc::clone(&head));
 
         loop {
-            if let Some(next) = hash_edges.get(&tail) {
-                if next == &head {
-                    break;
-                }
-                arranged_vertices.push(Rc::clone(next));
-                tail = Rc::clone(next);
-                continue;
+            let next = hash_edges.get(&tail)?;
+            if next == &head {
+                break;
+            }
+            if arranged_vertices.len() == edges.len() {
+                /* runs into itself before it closes */
+                return None;
             }
-            break;
+            arranged_vertices.push(Rc::clone(next));
+            tail = Rc::clone(next);
         }
 
         if arranged_vertices.len() == edges.len() {
-            return Some(Polyline::new_closed(arranged_vertices).unwrap());
+            return Polyline::new_closed(arranged_vertices);
         }
 
         return None;
-- 
2.43.0


From a9086a861d67a283a5d59d5e7510b2d03cbf4a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 32/38] fix: keep opened the polylines without their colinear
 vertices

---
 src/elements/polyline.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index cdb45d1..a4f3618 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -140,6 +140,7 @@ impl Polyline {
         if self.opened {
             minified.insert(0, Rc::clone(&head));
             minified.push(Rc::clone(&tail));
+            return Polyline::new_opened(minified).unwrap();
         }
 
         return Polyline::new_closed(minified).unwrap();
-- 
2.43.0


From fb0f6460c06abf02c9b46da976492152694799c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 33/38] fix: split a segment until none of the vertices
 encroaches on any part of it

---
 src/planar/refine_procedures/encroachment.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/planar/refine_procedures/encroachment.rs b/src/planar/refine_procedures/encroachment.rs
index baf2df5..9175f47 100644
--- a/src/planar/refine_procedures/encroachment.rs
+++ b/src/planar/refine_procedures/encroachment.rs
@@ -181,23 +181,12 @@ pub fn unencroach_segment(
         let mut is_h1_encroached = false;
         let mut is_h2_encroached = false;
 
-        for v in encroaching_vertices
-            .iter()
-            .cloned()
-            .collect::<HashSet<Rc<Vertex>>>()
-            .iter()
-        {
-            let mut v_encroaches_any = false;
+        for v in encroaching_vertices.iter() {
             if h1.encroach(&v) == Continence::Inside {
                 is_h1_encroached = true;
-                v_encroaches_any = true;
             }
             if h2.encroach(&v) == Continence::Inside {
                 is_h2_encroached = true;
-                v_encroaches_any = true;
-            }
-            if !v_encroaches_any {
-                encroaching_vertices.remove(v);
             }
         }
 
-- 
2.43.0


From 23134b8f2325433c8571dcbf479b1dab49fdc3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:47 +0000
Subject: [PATCH 34/38] fix: keep vertices out of every hole, and distribute
 them over solid triangles

---
 src/planar/triangulation_procedures/vertices.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index b87c8b8..fe9b429 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -277,7 +277,12 @@ pub fn distribute_conflicts_over_triangulation(
         visited_triangles.insert(Rc::clone(&initial_triangle));
         pending_triangles.push(Rc::clone(&initial_triangle));
     } else {
-        let initial_triangle = triangulation.triangles.iter().next().unwrap();
+        let initial_triangle = triangulation
+            .triangles
+            .iter()
+            .find(|t| !t.is_ghost())
+            .or(triangulation.triangles.iter().next())
+            .unwrap();
         visited_triangles.insert(Rc::clone(&initial_triangle));
         pending_triangles.push(Rc::clone(&initial_triangle));
     }
@@ -337,7 +342,7 @@ fn may_insert_triangle(
 
     for hole in holes.iter() {
         if let Some((continence, _)) = Polyline::continence(&hole, &p2) {
-            is_outside_holes = continence != Continence::Inside;
+            is_outside_holes = is_outside_holes && continence != Continence::Inside;
         } else {
             is_outside_holes = false;
         }
-- 
2.43.0


From 4b1216d40b163bccab1afc5400f55cba0213fe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 35/38] fix: split every segment that contains an inserted
 vertex, segments may overlap

---
 src/planar/triangulator.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index 2970400..8fb4f1e 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -79,7 +79,7 @@ impl Triangulator {
                 if &segment.v1 == vertex || &segment.v2 == vertex {
                     /* Ignore vertices if they are and end vertex */
                     should_insert = false;
-                    break;
+                    continue;
                 }
                 if segment.contains(vertex) {
                     /* splits segment if contained */
@@ -89,7 +89,6 @@ impl Triangulator {
                     self.segments
                         .insert(Rc::new(Edge::new(vertex, &segment.v2)));
                     should_insert = false;
-                    break;
                 }
             }
             if should_insert {
-- 
2.43.0


From 0a485b6752a07d9743d42581824c951395c73155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:17 +0000
Subject: [PATCH 36/38] fix: split segments at vertices over them even if their
 bounding boxes are apart by a rounding

---
 src/elements/polyline.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index a4f3618..6019dce 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -824,8 +824,6 @@ fn splitting_vertex(
     v3: &Rc<Vertex>,
     v4: &Rc<Vertex>,
 ) -> Option<(Rc<Vertex>, bool, bool)> {
-    let vertex = Rc::new(intersection(v1, v2, v3, v4)?);
-
     let splits = |head: &Rc<Vertex>, tail: &Rc<Vertex>, vertex: &Rc<Vertex>| {
         return vertex != head && vertex != tail && Edge::new(head, tail).contains(vertex);
     };
@@ -845,6 +843,8 @@ fn splitting_vertex(
         return None;
     }
 
+    let vertex = Rc::new(intersection(v1, v2, v3, v4)?);
+
     let splits_first = v1 != &vertex && v2 != &vertex;
     let splits_second = v3 != &vertex && v4 != &vertex;
     if !splits_first && !splits_second {
-- 
2.43.0


From d2f70cef51095d01b0ebb24fc584c0c3852c55df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:16 +0000
Subject: [PATCH 37/38] fix: refuse polylines that run back over their own
 segments, they were meshed as nothing

---
 .../interpreter/polyline_parser.rs                     | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/triangulator_interface/interpreter/polyline_parser.rs b/src/triangulator_interface/interpreter/polyline_parser.rs
index 1b706c9..8e1036c 100644
--- a/src/triangulator_interface/interpreter/polyline_parser.rs
+++ b/src/triangulator_interface/interpreter/polyline_parser.rs
@@ -31,6 +31,16 @@ pub fn parse(action: &Action) -> Result<Polyline, ()> {
         */
         return Err(());
     }
+    if segments
+        .iter()
+        .any(|s1| segments.iter().any(|s2| s1.0 == s2.1 && s1.1 == s2.0))
+    {
+        /*
+            Corrupted data
+            It runs back over itself and has no inner side there
+        */
+        return Err(());
+    }
 
     if segments_orientation(&segments) == Orientation::Clockwise {
         vertices.reverse();
-- 
2.43.0


From 5cd46b9b58bc460ee51478872fc028b749de13f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:16 +0000
Subject: [PATCH 38/38] fix: refuse a maximum area that isn't positive,
 refining for it never ends

---
 src/triangulator_interface/interpreter/mod.rs                | 2 +-
 .../interpreter/refine_params_parser.rs                      | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/triangulator_interface/interpreter/mod.rs b/src/triangulator_interface/interpreter/mod.rs
index ce7a048..aa8230f 100644
--- a/src/triangulator_interface/interpreter/mod.rs
+++ b/src/triangulator_interface/interpreter/mod.rs
@@ -95,7 +95,7 @@ pub fn parse(
         } /* end - match geometry */
     } /* end - for action */
 
-    let refine_params = refine_params_parser::parse(&input.params).unwrap();
+    let refine_params = refine_params_parser::parse(&input.params)?;
 
     return Ok((
         inclusion_domains,
diff --git a/src/triangulator_interface/interpreter/refine_params_parser.rs b/src/triangulator_interface/interpreter/refine_params_parser.rs
index fdbf357..4e9cb66 100644
--- a/src/triangulator_interface/interpreter/refine_params_parser.rs
+++ b/src/triangulator_interface/interpreter/refine_params_parser.rs
@@ -3,6 +3,11 @@ use crate::json_serializar::models::input;
 use nlsn_delaunay::planar::refine_params;
 
 pub fn parse(params: &input::RefineParams) -> Result<refine_params::RefineParams, ()> {
+    if params.max_area.map_or(false, |max_area| max_area <= 0.0) {
+        /* no triangle satisfies it */
+        return Err(());
+    }
+
     return Ok(refine_params::RefineParams {
         max_area: params.max_area,
         quality_ratio: params.quality,
-- 
2.43.0

