From 540e2cc24248e249cbe3a290e8a924bdf2f03f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:18 +0000
Subject: [PATCH 01/37] fix: keep the border ring intact when split_edge splits
 a border edge

The two border half-edges created by the open-border branch were left as
self-loops and their old neighbours still pointed at the removed half-edge.
Link them into the ring and refresh the end vertices' representatives.
---
 src/mesh/core.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 85eebc1..ecdb841 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -857,15 +857,19 @@ impl_mesh! {
                 self.half_edges[ex_he_cb].twin = he_bc;
             }
 
-            // Create two new null faces for border half-edges bhe_wc (w->c) and bhe_aw (a->w)
+            // Border half-edges a->w and w->c take the place of a->c in its border ring
+            let border_prev = self.half_edges[he_ac].prev;
+            let border_next = self.half_edges[he_ac].next;
             self.half_edges[bhe_wc].face = None;
-            // self-loop
-            self.half_edges[bhe_wc].next = bhe_wc;
-            self.half_edges[bhe_wc].prev = bhe_wc;
+            self.half_edges[bhe_wc].next = border_next;
+            self.half_edges[bhe_wc].prev = bhe_aw;
 
             self.half_edges[bhe_aw].face = None;
-            self.half_edges[bhe_aw].next = bhe_aw;
-            self.half_edges[bhe_aw].prev = bhe_aw;
+            self.half_edges[bhe_aw].next = bhe_wc;
+            self.half_edges[bhe_aw].prev = border_prev;
+
+            self.half_edges[border_prev].next = bhe_aw;
+            self.half_edges[border_next].prev = bhe_wc;
 
             // Edge map updates
             self.edge_map.insert((c, w), he_cw);
@@ -880,6 +884,12 @@ impl_mesh! {
             self.vertices[a].half_edge.get_or_insert(he_ab);
             self.vertices[b].half_edge.get_or_insert(he_bc);
             self.vertices[c].half_edge.get_or_insert(he_cw);
+            if self.vertices[a].half_edge == Some(he_ac) {
+                self.vertices[a].half_edge = Some(he_ab);
+            }
+            if self.vertices[c].half_edge == Some(he_ca) {
+                self.vertices[c].half_edge = Some(he_cw);
+            }
 
             if update_tree {
                 // AABB tree updates (invalidate old real face; null face not in tree originally)
-- 
2.43.0


From aa9f58777ee78519f5ae3e645fb1db6b34757cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:18 +0000
Subject: [PATCH 02/37] fix: keep collapse_edge_commit from corrupting borders
 and tetrahedra

Collapsing a border edge removed two unrelated border half-edges and left the
ring broken. Only remove half-edges of faces that exist and bridge the border
ring instead. Refuse collapses that leave a non-manifold mesh, including
plans that went stale because the mesh changed after begin.
---
 src/mesh/edge_collapse.rs | 53 ++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/mesh/edge_collapse.rs b/src/mesh/edge_collapse.rs
index 34a7c9d..5f1929e 100644
--- a/src/mesh/edge_collapse.rs
+++ b/src/mesh/edge_collapse.rs
@@ -200,6 +200,24 @@ impl_mesh! {
         }
     }
 
+    /// (B3) Configurations the neighbor-set link condition cannot see:
+    /// a tetrahedron, an interior edge joining two border vertices, and a
+    /// collapsing face whose two other edges are both on the border.
+    fn would_break_manifold(&self, pr: &PairRing, v0: usize, v1: usize) -> bool {
+        if let (Some(_), Some(_)) = (pr.opposite_a, pr.opposite_b) {
+            if pr.ring0.is_border && pr.ring1.is_border { return true; }
+            if pr.ring0.neighbors_ccw.len() == 3 && pr.ring1.neighbors_ccw.len() == 3 { return true; }
+        }
+        for (s, t) in [(v0, v1), (v1, v0)] {
+            let Some(h) = self.half_edge_between(s, t) else { return true; };
+            if !self.face_ok(h) { continue; }
+            let n = self.half_edges[self.half_edges[h].next].twin;
+            let p = self.half_edges[self.half_edges[h].prev].twin;
+            if !self.face_ok(n) && !self.face_ok(p) { return true; }
+        }
+        false
+    }
+
     /// Full check (topology + geometry) with **border inferred from opposites**.
     pub fn verify_collapse_prereqs(
         &self,
@@ -398,6 +416,13 @@ impl_mesh! {
         let v = plan.v_gone;
         if u == v { return Err(CollapseReject::InternalError); }
 
+        // The mesh may have changed since the plan was made, and `begin` only looks at
+        // neighbor sets: refuse anything that would leave a non-manifold mesh behind.
+        let Some(pr) = self.ring_pair(u, v) else { return Err(CollapseReject::NotAdjacent); };
+        if !self.check_link_condition_triangle(u, v) || self.would_break_manifold(&pr, u, v) {
+            return Err(CollapseReject::LinkCondition);
+        }
+
         // ---------- 1. Locate collapsing directed half-edge pair (u->v , v->u) ----------
         let he_uv = match self.edge_map.get(&(u, v)) {
             Some(&h) => h,
@@ -421,14 +446,16 @@ impl_mesh! {
         let left_exists  = f_left.is_some()  && !self.faces[f_left.unwrap()].removed;
         let right_exists = f_right.is_some() && !self.faces[f_right.unwrap()].removed;
 
-        // Splice anchors (only valid if respective face exists)
-        let splice_l_from = if left_exists  { self.half_edges[he_au].prev } else { usize::MAX };
-        let splice_l_to   = if left_exists  { self.half_edges[he_va].next } else { usize::MAX };
-        let splice_r_from = if right_exists { self.half_edges[he_bv].prev } else { usize::MAX };
-        let splice_r_to   = if right_exists { self.half_edges[he_ub].next } else { usize::MAX };
+        // Splice anchors (a side without a face is a border ring: bridge over the edge itself)
+        let splice_l_from = if left_exists  { self.half_edges[he_au].prev } else { he_au };
+        let splice_l_to   = if left_exists  { self.half_edges[he_va].next } else { he_va };
+        let splice_r_from = if right_exists { self.half_edges[he_bv].prev } else { he_bv };
+        let splice_r_to   = if right_exists { self.half_edges[he_ub].next } else { he_ub };
 
-        // Half-edges to remove (the two faces' 6 interior half-edges)
-        let remove_set = [he_uv, he_vu, he_va, he_au, he_ub, he_bv];
+        // Half-edges to remove (the existing faces' interior half-edges)
+        let mut remove_set = [he_uv, he_vu, he_va, he_au, he_ub, he_bv];
+        if !left_exists  { remove_set[2] = he_uv; remove_set[3] = he_uv; }
+        if !right_exists { remove_set[4] = he_vu; remove_set[5] = he_vu; }
 
         // ---------- 2b. Collect all half-edges incident to u or v (for retargeting) ----------
         let affected_u = self.collect_incident_half_edges(u);
@@ -457,14 +484,10 @@ impl_mesh! {
         }
 
         // ---------- 6. Splice out the two faces locally (bridge the gaps) ----------
-        if left_exists {
-            self.half_edges[splice_l_from].next = splice_l_to;
-            self.half_edges[splice_l_to].prev = splice_l_from;
-        }
-        if right_exists {
-            self.half_edges[splice_r_from].next = splice_r_to;
-            self.half_edges[splice_r_to].prev = splice_r_from;
-        }
+        self.half_edges[splice_l_from].next = splice_l_to;
+        self.half_edges[splice_l_to].prev = splice_l_from;
+        self.half_edges[splice_r_from].next = splice_r_to;
+        self.half_edges[splice_r_to].prev = splice_r_from;
 
         // ---------- 7. Mark faces removed ----------
         if left_exists  { self.faces[f_left.unwrap()].removed = true; }
-- 
2.43.0


From 23be6d97c07957fae5a3a8e55371cda780b0c3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:18 +0000
Subject: [PATCH 03/37] fix: split border edges from the face side in
 isotropic_remesh

A long border edge could be picked through its faceless half-edge, which makes
split_edge unwrap a missing face.
---
 src/mesh_processing/remesh.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh_processing/remesh.rs b/src/mesh_processing/remesh.rs
index f09f11b..2842b18 100644
--- a/src/mesh_processing/remesh.rs
+++ b/src/mesh_processing/remesh.rs
@@ -336,6 +336,8 @@ impl_mesh! {
         for h in candidates {
             if h >= self.half_edges.len() { continue; }
             if self.half_edges[h].removed { continue; }
+            // split_edge wants the side that has a face
+            let h = if self.half_edges[h].face.is_none() { self.half_edges[h].twin } else { h };
             let v0 = self.source(h);
             let v1 = self.half_edges[h].vertex;
             if self.vertices[v0].removed || self.vertices[v1].removed { continue; }
-- 
2.43.0


From 80df3cb6e17e1fec7ae8f00f39aad4a3a262eec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:58 +0000
Subject: [PATCH 04/37] fix: return errors for malformed OBJ, OFF and STL input
 instead of panicking

Bad or missing numbers, out-of-range or repeated face indices, non-finite
coordinates and truncated polygons now yield InvalidData. The OBJ reader
panicked on these, the OFF reader panicked or looped on them.
---
 src/io/obj.rs | 38 +++++++++++++++++++++++++++++---------
 src/io/off.rs | 18 +++++++++++++++++-
 src/io/stl.rs |  7 +++++++
 3 files changed, 53 insertions(+), 10 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index cd6fe3e..f31769d 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -78,6 +78,24 @@ where
     out.flush()
 }
 
+fn bad_data(msg: &str) -> io::Error {
+    io::Error::new(io::ErrorKind::InvalidData, msg)
+}
+
+fn parse_coord(tok: Option<&str>) -> io::Result<f64> {
+    tok.and_then(|t| t.parse::<f64>().ok())
+        .filter(|x| x.is_finite())
+        .ok_or_else(|| bad_data("OBJ: missing or bad vertex coordinate"))
+}
+
+/// Parse a 1-based vertex index and return it zero-based.
+fn parse_index(tok: Option<&str>, vertex_count: usize) -> io::Result<usize> {
+    tok.and_then(|t| t.parse::<usize>().ok())
+        .filter(|&i| i >= 1 && i <= vertex_count)
+        .map(|i| i - 1)
+        .ok_or_else(|| bad_data("OBJ: missing or bad face index"))
+}
+
 /// Read a mesh from a Wavefront OBJ file.
 /// Only supports `v x y z` and `f i j k` lines; ignores others.
 pub fn read_obj<T: Scalar, P: AsRef<Path>>(path: P) -> io::Result<Mesh<T, 3>>
@@ -102,19 +120,21 @@ where
         match parts.next() {
             Some("v") => {
                 // parse three floats
-                let x: f64 = parts.next().unwrap().parse().unwrap();
-                let y: f64 = parts.next().unwrap().parse().unwrap();
-                let z: f64 = parts.next().unwrap().parse().unwrap();
+                let x = parse_coord(parts.next())?;
+                let y = parse_coord(parts.next())?;
+                let z = parse_coord(parts.next())?;
                 let vid = mesh.add_vertex(Point3::<T>::from_vals([x, y, z]));
                 vertex_map.push(vid);
             }
             Some("f") => {
-                // parse three vertex indices (1-based OBJ)
-                let i: usize = parts.next().unwrap().parse().unwrap();
-                let j: usize = parts.next().unwrap().parse().unwrap();
-                let k: usize = parts.next().unwrap().parse().unwrap();
-                // subtract 1 for zero-based
-                mesh.add_triangle(i - 1, j - 1, k - 1);
+                // parse three vertex indices (1-based OBJ), converted to zero-based
+                let i = parse_index(parts.next(), vertex_map.len())?;
+                let j = parse_index(parts.next(), vertex_map.len())?;
+                let k = parse_index(parts.next(), vertex_map.len())?;
+                if i == j || j == k || k == i {
+                    return Err(bad_data("OBJ: face repeats a vertex"));
+                }
+                mesh.add_triangle(i, j, k);
             }
             _ => {
                 // ignore comments, normals, etc.
diff --git a/src/io/off.rs b/src/io/off.rs
index 7509a44..0815b78 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -190,6 +190,13 @@ where
             .parse()
             .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "OFF: bad vertex z"))?;
 
+        if !(x.is_finite() && y.is_finite() && z.is_finite()) {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "OFF: vertex coordinate is not finite",
+            ));
+        }
+
         // Assuming Point3::<T>::from_vals accepts f64s as in your OBJ reader
         let _vid = mesh.add_vertex(Point::<T, 3>::from_vals([x, y, z]));
         // We don't need to store a map because OFF face indices are zero-based
@@ -230,11 +237,20 @@ where
                 })?
                 .parse()
                 .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "OFF: bad index c"))?;
+            if a >= vcount || b >= vcount || c >= vcount || a == b || b == c || c == a {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    "OFF: face index out of range or repeated",
+                ));
+            }
             mesh.add_triangle(a, b, c);
         } else {
             // Skip non-triangle indices
             for _ in 0..poly_size {
-                let _ = it.next(); // discard
+                // discard
+                it.next().ok_or_else(|| {
+                    io::Error::new(io::ErrorKind::InvalidData, "OFF: incomplete face")
+                })?;
             }
         }
     }
diff --git a/src/io/stl.rs b/src/io/stl.rs
index 4a5b6b5..06be0ed 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -173,6 +173,13 @@ where
                     .parse()
                     .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "STL: bad vertex z"))?;
 
+                if !(x.is_finite() && y.is_finite() && z.is_finite()) {
+                    return Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "STL: vertex coordinate is not finite",
+                    ));
+                }
+
                 let vid = mesh.add_vertex(Point::<T, 3>::from_vals([x, y, z]));
                 vertices.push(vid);
             }
-- 
2.43.0


From f42db95fe08ea67ea7608506fb7995fcc675afd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:18 +0000
Subject: [PATCH 05/37] fix: remeshing no longer panics when two neighbouring
 vertices coincide

---
 src/mesh_processing/remesh.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mesh_processing/remesh.rs b/src/mesh_processing/remesh.rs
index 2842b18..87c226c 100644
--- a/src/mesh_processing/remesh.rs
+++ b/src/mesh_processing/remesh.rs
@@ -219,13 +219,12 @@ impl_mesh! {
         if v2 == v3 { return false; } // would collapse
 
         // Old triangles: (v0,v1,v2) and (v1,v0,v3)
-        let old1 = self.tri_min_angle_cos_f64(v0,v1,v2).unwrap();
-        let old2 = self.tri_min_angle_cos_f64(v1,v0,v3).unwrap();
+        // (coincident vertices have no angles to improve)
+        let (Some(old1), Some(old2)) = (self.tri_min_angle_cos_f64(v0,v1,v2), self.tri_min_angle_cos_f64(v1,v0,v3)) else { return false; };
         let old_min = old1.max(old2); // since each returns cos(minAngle of tri), worst small angle
 
         // New triangles after flip: (v0,v2,v3) and (v1,v3,v2)
-        let new1 = self.tri_min_angle_cos_f64(v0,v2,v3).unwrap();
-        let new2 = self.tri_min_angle_cos_f64(v1,v3,v2).unwrap();
+        let (Some(new1), Some(new2)) = (self.tri_min_angle_cos_f64(v0,v2,v3), self.tri_min_angle_cos_f64(v1,v3,v2)) else { return false; };
         let new_min = new1.max(new2);
 
         // Require a strict improvement with a small epsilon
-- 
2.43.0


From b9b9f011b4ee202dc1710ff63f207eff90191333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:25 +0000
Subject: [PATCH 06/37] fix: a point addressed through a removed face is found
 on the face that holds it

---
 src/mesh/topology.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 7854153..bd035b3 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -1428,13 +1428,26 @@ impl_mesh! {
         }
 
         // --- Global fallback: scan all live faces and pick the first match by priority ---
+        // Barycentrics only see the projection onto a face, so the first pass is
+        // limited to faces whose plane holds the point.
+        let on_plane = |f: usize| -> bool {
+            let [i0,i1,i2] = self.face_vertices(f);
+            let a = &self.vertices[i0].position;
+            let ab = (&self.vertices[i1].position - a).as_vector().0.as_vector_3();
+            let ac = (&self.vertices[i2].position - a).as_vector().0.as_vector_3();
+            let ap = (point - a).as_vector().0.as_vector_3();
+            ab.cross(&ac).dot(&ap).is_zero()
+        };
+        let nf = self.faces.len();
         let mut best_edge:   Option<(usize, usize, T)> = None; // (f, he, u)
         let mut best_vertex: Option<(usize, usize)>    = None; // (f, v_id)
         let mut best_inside: Option<(usize, (T, T, T))> = None; // (f, bary)
 
-        for f in 0..self.faces.len() {
+        for (in_plane, f) in (0..nf).map(|f| (true, f)).chain((0..nf).map(|f| (false, f))) {
+            if !in_plane && (best_vertex.is_some() || best_inside.is_some()) { break; }
             if self.faces[f].removed { continue; }
             if live_face_degenerate(self, f) { continue; }
+            if in_plane && !on_plane(f) { continue; }
 
             let (l0,l1,l2) = bary_live(f);
             let neg = |x: &T| -> bool { x.is_negative() };
-- 
2.43.0


From b28fc43b18f64f5acc3bc53e6a199a0bb112c88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:18 +0000
Subject: [PATCH 07/37] fix: the error bound of an exact leaf covers its
 rounding to f64

---
 src/numeric/ball.rs       | 11 +++++++++++
 src/numeric/lazy_exact.rs |  6 +++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/numeric/ball.rs b/src/numeric/ball.rs
index 6593619..ecc1b57 100644
--- a/src/numeric/ball.rs
+++ b/src/numeric/ball.rs
@@ -46,6 +46,17 @@ impl Ball {
     pub fn from_f64(x: f64) -> Self {
         Ball { m: x, r: 0.0 }
     }
+    /// `x` is a neighbour of a value that has no exact f64.
+    #[inline]
+    pub fn from_f64_inexact(x: f64) -> Self {
+        if !x.is_finite() {
+            return Ball::unknown();
+        }
+        Ball {
+            m: x,
+            r: Self::widen_ulp(x),
+        }
+    }
     #[inline]
     pub fn unknown() -> Self {
         Ball {
diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index 82cafe5..5811313 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -825,7 +825,11 @@ impl LazyExact {
         use Kind::*;
         match kind {
             LeafApprox(a) => Ball::from_f64(a.0),
-            LeafExact(e) => Ball::from_f64(e.to_f64().unwrap_or(0.0)),
+            LeafExact(e) => match e.to_f64() {
+                Some(v) if v.is_finite() && CgarRational::from(v) == **e => Ball::from_f64(v),
+                Some(v) => Ball::from_f64_inexact(v),
+                None => Ball::unknown(),
+            },
             Add(a, b) => a.ball_ref().add(b.ball()),
             Sub(a, b) => a.ball_ref().sub(b.ball()),
             Mul(a, b) => a.ball_ref().mul(b.ball()),
-- 
2.43.0


From ccfb74fddc973f81585568e387524bc9bccc987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:19 +0000
Subject: [PATCH 08/37] fix: comparing lazy numbers treats negative zero as
 zero

---
 src/numeric/lazy_exact.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index 5811313..75e6ce7 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -159,7 +159,8 @@ impl Scalar for LazyExact {
 
         // 2) If both are exact doubles (or both reduced to machine floats)
         if let (Some(da), Some(db)) = (a.as_f64_if_exact(), b.as_f64_if_exact()) {
-            return da.total_cmp(&db);
+            // not total_cmp: -0.0 equals 0.0
+            return da.partial_cmp(&db).unwrap_or(Equal);
         }
 
         // 3) Exact comparator WITHOUT building (a-b) node.
-- 
2.43.0


From 4d7ad41f91b54015765f339741ae102656cf4221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:21 +0000
Subject: [PATCH 09/37] fix: tree search bounds cover lazily evaluated
 coordinates

---
 src/geometry/aabb_tree.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/geometry/aabb_tree.rs b/src/geometry/aabb_tree.rs
index 8d0f4a5..df5e8fd 100644
--- a/src/geometry/aabb_tree.rs
+++ b/src/geometry/aabb_tree.rs
@@ -588,8 +588,15 @@ fn approx_from_exact<T: Scalar, const N: usize, P: SpatialElement<T, N>>(
     let mut mx = [0.0; N];
     for i in 0..N {
         // outward-safe: step one ULP past the rounded extremes
-        let lo = as_f64(&a.min[i]);
-        let hi = as_f64(&a.max[i]);
+        let mut lo = as_f64(&a.min[i]);
+        let mut hi = as_f64(&a.max[i]);
+        // as_f64 of a lazy number can be off by more than one ULP
+        if let Some((l, _)) = a.min[i].double_interval() {
+            lo = lo.min(l);
+        }
+        if let Some((_, h)) = a.max[i].double_interval() {
+            hi = hi.max(h);
+        }
         mn[i] = f64_next_down(lo);
         mx[i] = f64_next_up(hi);
     }
-- 
2.43.0


From f28dfccfd13c638da0bd2971bfc261a6c762ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:34 +0000
Subject: [PATCH 10/37] fix: inserting next to an invalidated tree entry counts
 the valid entries

---
 src/geometry/aabb_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/aabb_tree.rs b/src/geometry/aabb_tree.rs
index df5e8fd..514c12c 100644
--- a/src/geometry/aabb_tree.rs
+++ b/src/geometry/aabb_tree.rs
@@ -276,7 +276,7 @@ where
                     aabb: node_aabb,
                     left: left_child,
                     right: right_child,
-                    valid_count: total_items,
+                    valid_count: *valid as usize + 1,
                     total_count: total_items,
                     amin: amin_u,
                     amax: amax_u,
-- 
2.43.0


From 8334cfc38e7b34bc3e1223fb46e4cd0d7e558f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:16 +0000
Subject: [PATCH 11/37] fix: lazy numbers beyond the range of f64 can be
 compared

---
 src/numeric/lazy_exact.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index 75e6ce7..2ad8c2a 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -358,7 +358,7 @@ impl LazyExact {
             Kind::LeafExact(e) => {
                 if let Some(v) = e.to_f64() {
                     // accept only if round-trip is exact (dyadic)
-                    if CgarRational::from(v) == **e {
+                    if v.is_finite() && CgarRational::from(v) == **e {
                         Some(v)
                     } else {
                         None
-- 
2.43.0


From 0f5792af2aadd623e0678dd86341a7e2725dafe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:50 +0000
Subject: [PATCH 12/37] fix: the error bound of a reciprocal covers rounding
 and overflow

---
 src/numeric/ball.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numeric/ball.rs b/src/numeric/ball.rs
index ecc1b57..0dda0d1 100644
--- a/src/numeric/ball.rs
+++ b/src/numeric/ball.rs
@@ -110,9 +110,9 @@ impl Ball {
         if self.m.abs() <= self.r {
             return Ball::unknown();
         }
-        let denom = self.m.abs() * (self.m.abs() - self.r);
         let m = 1.0 / self.m;
-        let r = self.r / denom; // outward-bound
+        // outward-bound; two divisions so that the denominator cannot overflow
+        let r = self.r / self.m.abs() / (self.m.abs() - self.r) + Self::widen_ulp(m);
         Ball { m, r }
     }
 
-- 
2.43.0


From f0a52ab2cef5779a2ae931fad6a9aeb97bf9e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:56 +0000
Subject: [PATCH 13/37] fix: the fast f64 view of a lazy number no longer
 depends on earlier evaluations

---
 src/numeric/lazy_exact.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index 2ad8c2a..5d781ec 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -174,14 +174,10 @@ impl Scalar for LazyExact {
         }
     }
 
-    /// Try to get f64 value without forcing exact computation
+    /// Try to get f64 value without forcing exact computation.
+    /// Depends on the expression only, not on what has been evaluated so far.
     fn as_f64_fast(&self) -> Option<f64> {
-        // Fast path: check if we already have exact computed
-        if let Some(exact) = self.0.exact.get() {
-            return exact.to_f64();
-        }
-
-        // Even faster path: check if this is already an f64 leaf
+        // Fast path: check if this is already an f64 leaf
         if let Kind::LeafApprox(a) = &self.0.kind {
             return Some(a.0);
         }
-- 
2.43.0


From 07ea0cf0e9b2fc9c1c40e9244c9ca2d7215d1d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:10 +0000
Subject: [PATCH 14/37] fix: merging duplicate vertices no longer loses face
 edges depending on map order

---
 src/mesh/core.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index ecdb841..1b49774 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -357,7 +357,16 @@ impl_mesh! {
 
                 if new_v1 != usize::MAX && new_v2 != usize::MAX && new_v1 != new_v2 {
                     // Only keep edges that don't become self-loops
-                    new_edge_map.insert((new_v1, new_v2), he_idx);
+                    // and, of several half-edges now joining the same two vertices,
+                    // the one bounding a face
+                    let slot = new_edge_map.entry((new_v1, new_v2)).or_insert(he_idx);
+                    let rank = |h: usize| {
+                        let he: &HalfEdge = &self.half_edges[h];
+                        (he.removed, he.face.is_none(), h)
+                    };
+                    if rank(he_idx) < rank(*slot) {
+                        *slot = he_idx;
+                    }
                 }
             }
         }
-- 
2.43.0


From ea6527f4f1b533b45d8a04e2b72ec2c4a2e9aaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:48 +0000
Subject: [PATCH 15/37] fix: duplicate removal also merges equal vertices whose
 approximations fall into neighbouring cells

---
 src/mesh/core.rs | 61 ++++++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 1b49774..d2a0569 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -260,44 +260,43 @@ impl_mesh! {
 
         let initial_count = self.vertices.len();
 
-        // Build spatial hash for efficient duplicate detection
+        // Spatial hash of the vertices kept so far
         let mut spatial_groups: AHashMap<u128, Bucket> = AHashMap::new();
-
-        for (vertex_idx, vertex) in self.vertices.iter().enumerate() {
-            let hash_key = self.position_to_packed_key(&vertex.position);
-            spatial_groups.entry(hash_key).or_default().push(vertex_idx);
-        }
-
-        // Find duplicates within each spatial group
         let mut vertex_mapping = (0..self.vertices.len()).collect::<Vec<_>>();
         let mut duplicates = AHashSet::new();
 
-        for group in spatial_groups.values() {
-            if group.len() < 2 {
-                continue;
-            }
-
-            // Check all pairs within the group
-            for i in 0..group.len() {
-                if duplicates.contains(&group[i]) {
-                    continue;
-                }
-
-                for j in (i + 1)..group.len() {
-                    if duplicates.contains(&group[j]) {
-                        continue;
-                    }
-
-                    let pos_i = &self.vertices[group[i]].position;
-                    let pos_j = &self.vertices[group[j]].position;
-
-                    if kernel::are_equal(pos_i, pos_j) {
-                        // Mark j as duplicate of i
-                        vertex_mapping[group[j]] = group[i];
-                        duplicates.insert(group[j]);
+        for (vertex_idx, vertex) in self.vertices.iter().enumerate() {
+            let (kx, ky, kz) = self.position_to_hash_key(&vertex.position);
+
+            // Equal positions may have approximations on either side of a cell border
+            let mut canonical = None;
+            'cells: for dx in [0, -1, 1] {
+                for dy in [0, -1, 1] {
+                    for dz in [0, -1, 1] {
+                        let key = Self::pack_key3(
+                            kx.saturating_add(dx),
+                            ky.saturating_add(dy),
+                            kz.saturating_add(dz),
+                        );
+                        if let Some(group) = spatial_groups.get(&key) {
+                            canonical = group.iter().copied().find(|&other| {
+                                kernel::are_equal(&self.vertices[other].position, &vertex.position)
+                            });
+                            if canonical.is_some() {
+                                break 'cells;
+                            }
+                        }
                     }
                 }
             }
+
+            if let Some(canonical_idx) = canonical {
+                vertex_mapping[vertex_idx] = canonical_idx;
+                duplicates.insert(vertex_idx);
+            } else {
+                let hash_key = Self::pack_key3(kx, ky, kz);
+                spatial_groups.entry(hash_key).or_default().push(vertex_idx);
+            }
         }
 
         if duplicates.is_empty() {
-- 
2.43.0


From 9e7f1aa61c508e729dca4cfde3dd9abfe65e559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:45 +0000
Subject: [PATCH 16/37] fix: vertex lookup by position ignores removed vertices
 and follows moved ones

---
 src/mesh/core.rs          | 21 +++++++++++++++++++--
 src/mesh/edge_collapse.rs |  1 +
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index d2a0569..3651b11 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -266,6 +266,9 @@ impl_mesh! {
         let mut duplicates = AHashSet::new();
 
         for (vertex_idx, vertex) in self.vertices.iter().enumerate() {
+            if vertex.removed {
+                continue;
+            }
             let (kx, ky, kz) = self.position_to_hash_key(&vertex.position);
 
             // Equal positions may have approximations on either side of a cell border
@@ -528,7 +531,9 @@ impl_mesh! {
         // center cell first
         if let Some(bucket) = self.vertex_spatial_hash.get(&center_key) {
             for &vi in bucket {
-                if kernel::are_approximately_equal(&self.vertices[vi].position, pos) {
+                if !self.vertices[vi].removed
+                    && kernel::are_approximately_equal(&self.vertices[vi].position, pos)
+                {
                     return (vi, true);
                 }
             }
@@ -565,7 +570,9 @@ impl_mesh! {
             let key = Self::pack_key3(kx + dx, ky + dy, kz + dz);
             if let Some(bucket) = self.vertex_spatial_hash.get(&key) {
                 for &vi in bucket {
-                    if kernel::are_equal(&self.vertices[vi].position, pos) {
+                    if !self.vertices[vi].removed
+                        && kernel::are_equal(&self.vertices[vi].position, pos)
+                    {
                         return (vi, true);
                     }
                 }
@@ -579,6 +586,15 @@ impl_mesh! {
         (idx, false)
     }
 
+    /// Makes a vertex that changed position findable by `get_or_insert_vertex`.
+    pub(crate) fn register_moved_vertex(&mut self, v: usize) {
+        let key = self.position_to_packed_key(&self.vertices[v].position);
+        let bucket = self.vertex_spatial_hash.entry(key).or_default();
+        if !bucket.contains(&v) {
+            bucket.push(v);
+        }
+    }
+
     pub fn add_vertex(&mut self, position: Point<T, N>) -> usize {
         let idx = self.vertices.len();
         self.vertices.push(Vertex::new(position));
@@ -1389,6 +1405,7 @@ impl_mesh! {
         self.vertices[v].position[0] = axp;
         self.vertices[v].position[1] = ayp;
         self.vertices[v].position[2] = azp;
+        self.register_moved_vertex(v);
 
         true
     }
diff --git a/src/mesh/edge_collapse.rs b/src/mesh/edge_collapse.rs
index 5f1929e..178cb90 100644
--- a/src/mesh/edge_collapse.rs
+++ b/src/mesh/edge_collapse.rs
@@ -509,6 +509,7 @@ impl_mesh! {
 
         // ---------- 9. Retire v, move position into u ----------
         self.vertices[u].position = plan.p_star;
+        self.register_moved_vertex(u);
         self.vertices[v].removed = true;
         self.vertices[v].half_edge = None;
 
-- 
2.43.0


From 84005845eda7de114d1534df8289ef44a73bb661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:23 +0000
Subject: [PATCH 17/37] fix: the fast f64 view of a lazy number accepts exact
 zeros

---
 src/numeric/lazy_exact.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index 5d781ec..92cc13e 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -181,11 +181,14 @@ impl Scalar for LazyExact {
         if let Kind::LeafApprox(a) = &self.0.kind {
             return Some(a.0);
         }
+        if let Kind::LeafExact(r) = &self.0.kind {
+            return r.to_f64();
+        }
 
         // Use ball approximation directly if tight enough
         let ball = self.ball_ref();
         let abs_m = ball.m.abs();
-        if abs_m != 0.0 && ball.r <= EPS * abs_m {
+        if ball.r == 0.0 || (abs_m != 0.0 && ball.r <= EPS * abs_m) {
             return Some(ball.m);
         }
 
-- 
2.43.0


From dfeaba89ceb7c569353b1e73ba45cd5854071b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:23 +0000
Subject: [PATCH 18/37] fix: constraint insertion no longer depends on which
 coordinates have been evaluated

---
 src/operations/triangulation/delaunay.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 5421113..49acd8b 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -878,12 +878,15 @@ where
         + std::ops::Neg<Output = T>,
 {
     // Fast path using ball centers
-    if let (Some(ax), Some(ay), Some(bx), Some(by)) = (
-        points[a][0].as_f64_fast(),
-        points[a][1].as_f64_fast(),
-        points[b][0].as_f64_fast(),
-        points[b][1].as_f64_fast(),
-    ) {
+    let (ax, ay) = (
+        points[a][0].ball_center_f64(),
+        points[a][1].ball_center_f64(),
+    );
+    let (bx, by) = (
+        points[b][0].ball_center_f64(),
+        points[b][1].ball_center_f64(),
+    );
+    if ax.is_finite() && ay.is_finite() && bx.is_finite() && by.is_finite() {
         // Use fast f64 computation for edge selection
         return exit_edge_fast_f64(points, adj, tris, ti, ax, ay, bx, by);
     }
-- 
2.43.0


From aa9d71e2c5957b5837528cce4071f4066a5d00f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:47 +0000
Subject: [PATCH 19/37] fix: batch triangulation returns its results in job
 order

---
 src/operations/triangulation/delaunay.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 49acd8b..05403f8 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -127,10 +127,6 @@ where
         let mut super_triangles = Vec::with_capacity(jobs.len());
         for job in jobs {
             if job.points_uv.len() < 3 {
-                results.push(Self {
-                    points: job.points_uv.clone(),
-                    triangles: Vec::new(),
-                });
                 super_triangles.push(None);
                 continue;
             }
@@ -148,11 +144,11 @@ where
 
         // Process each job with pre-computed super-triangle
         for (job_idx, job) in jobs.iter().enumerate() {
-            if job.points_uv.len() < 3 {
-                continue;
-            }
-
             let Some((cx, cy, r)) = &super_triangles[job_idx] else {
+                results.push(Self {
+                    points: job.points_uv.clone(),
+                    triangles: Vec::new(),
+                });
                 continue;
             };
 
-- 
2.43.0


From 85589dbc592504f3c5065b65b2ec7d755c16e62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:49 +0000
Subject: [PATCH 20/37] fix: the triangulation's enclosing triangle contains
 the points wherever they lie

---
 src/operations/triangulation/delaunay.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 05403f8..4ffc029 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -135,8 +135,8 @@ where
             let dx = &max[0] - &min[0];
             let dy = &max[1] - &min[1];
             let delta = dx.max(dy);
-            let cx = (&min[0] + &max[0]) * T::from_num_den(2, 1);
-            let cy = (&min[1] + &max[1]) * T::from_num_den(2, 1);
+            let cx = (&min[0] + &max[0]) * T::from_num_den(1, 2);
+            let cy = (&min[1] + &max[1]) * T::from_num_den(1, 2);
             let r = &(&T::from_num_den(64, 1) * &delta) + &T::from_num_den(1, 1);
 
             super_triangles.push(Some((cx, cy, r)));
@@ -161,7 +161,7 @@ where
             points.extend([
                 Point2::<T>::from_vals([
                     T::from(cx.clone()),
-                    T::from(&(cy + &T::from_num_den(2, 1)) * &r),
+                    T::from(cy + &(&T::from_num_den(2, 1) * r)),
                 ]),
                 Point2::<T>::from_vals([T::from(cx - &(&sqrt_3 * &r)), T::from(cy - &r)]),
                 Point2::<T>::from_vals([T::from(cx + &(&sqrt_3 * &r)), T::from(cy - &r)]),
@@ -252,7 +252,7 @@ where
         let sqrt_3 = T::from(SQRT_3);
         let p_super0 = Point2::<T>::from_vals([
             T::from(cx.clone()),
-            T::from(&(&cy + &T::from_num_den(2, 1)) * &r),
+            T::from(&cy + &(&T::from_num_den(2, 1) * &r)),
         ]);
         let p_super1 = Point2::<T>::from_vals([T::from(&cx - &(&sqrt_3 * &r)), T::from(&cy - &r)]);
         let p_super2 = Point2::<T>::from_vals([T::from(&cx + &(&sqrt_3 * &r)), T::from(&cy - &r)]);
-- 
2.43.0


From 6eb61f5f3687a13e303536544482e58e9492c757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:43 +0000
Subject: [PATCH 21/37] fix: prescribed edges are always inserted and never by
 folding triangles over

---
 src/operations/triangulation/delaunay.rs | 61 ++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 4ffc029..2aca488 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -492,6 +492,10 @@ where
             return Ok(());
         }
 
+        if self.insert_constraint_by_flips(a, b, adj, constrained) {
+            return Ok(());
+        }
+
         // Choose a starting triangle that actually faces toward the segment (a,b).
         // Prefer a's incident triangles; if none useful, swap endpoints and try b.
         let pick_start = |end: usize, other: usize| -> Option<usize> {
@@ -616,6 +620,56 @@ where
         Ok(())
     }
 
+    /// Makes (a,b) an edge by flipping every edge that crosses it. Returns false if one of
+    /// those edges has to stay, because it is constrained or has only one triangle.
+    fn insert_constraint_by_flips(
+        &mut self,
+        a: usize,
+        b: usize,
+        adj: &mut Adj,
+        constrained: &AHashSet<Edge>,
+    ) -> bool {
+        let crosses = |points: &[Point2<T>], e: Edge| {
+            let (u, v) = (e.a(), e.b());
+            if u == a || u == b || v == a || v == b {
+                return false;
+            }
+            let s = orient2d(&points[a], &points[b], &points[u])
+                * orient2d(&points[a], &points[b], &points[v]);
+            let t = orient2d(&points[u], &points[v], &points[a])
+                * orient2d(&points[u], &points[v], &points[b]);
+            s.is_negative() && t.is_negative()
+        };
+
+        let mut queue = std::collections::VecDeque::new();
+        for t in &self.triangles {
+            for (u, v) in tri_edges(*t) {
+                let e = Edge::new(u, v);
+                if crosses(&self.points, e) && !queue.contains(&e) {
+                    queue.push_back(e);
+                }
+            }
+        }
+
+        let mut budget = 4 * (queue.len() + 4) * (queue.len() + 4);
+        while let Some(e) = queue.pop_front() {
+            if budget == 0 || constrained.contains(&e) {
+                return false;
+            }
+            budget -= 1;
+            let (t0, t1) = match adj.edge2tris.get(&e) {
+                Some(ts) if ts.len() == 2 => (ts[0], ts[1]),
+                _ => return false,
+            };
+            match self.flip_shared_edge_with_adj(e, t0, t1, constrained, adj) {
+                Some(new_e) if crosses(&self.points, new_e) => queue.push_back(new_e),
+                Some(_) => {}
+                None => queue.push_back(e), // not convex yet
+            }
+        }
+        self.edge_exists(Edge::new(a, b))
+    }
+
     /// After (a,b) exists, if it has only one incident triangle, add the missing one.
     /// Prefer the recorded apexes from the walk; otherwise choose the best common neighbor on the opposite side.
     fn add_missing_triangle_for_edge(
@@ -800,6 +854,13 @@ where
             return None;
         }
 
+        // Only a strictly convex quadrilateral can be flipped
+        let s = orient2d(&self.points[x], &self.points[y], &self.points[u])
+            * orient2d(&self.points[x], &self.points[y], &self.points[v]);
+        if !s.is_negative() {
+            return None;
+        }
+
         // Build new triangles (preserve CCW)
         let a0 = orient2d(&self.points[x], &self.points[u], &self.points[y]);
         let a1 = orient2d(&self.points[x], &self.points[y], &self.points[v]);
-- 
2.43.0


From a812e7f39467040617fb55268c344029a9ceab6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:02 +0000
Subject: [PATCH 22/37] fix: set operations classify every region when the
 intersection has several loops

---
 src/mesh_processing/boolean.rs | 53 +++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index e16a2c6..69090a4 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -231,27 +231,46 @@ where
             queue.push_back(selected_face);
             let mut num_visited = 1;
 
-            while let Some(curr) = queue.pop_front() {
-                for nbr in self.adjacent_faces(curr) {
-                    if visited[nbr] {
-                        continue;
-                    }
-
-                    let paired = face_pairs.get(&curr);
-                    // skip exactly the neighbor that comes from the same segment split
-                    if let Some(pv) = paired {
-                        if pv.iter().any(|&pf| pf == nbr) {
-                            // this nbr is the other half of a segment splitting curr
+            // the intersection may consist of several loops, each one enclosing its own region
+            loop {
+                while let Some(curr) = queue.pop_front() {
+                    for nbr in self.adjacent_faces(curr) {
+                        if visited[nbr] {
                             continue;
                         }
-                    }
 
-                    // otherwise, it's a genuine inside‐region adjacency
-                    visited[nbr] = true;
-                    inside[nbr] = true;
-                    num_visited += 1;
-                    queue.push_back(nbr);
+                        let paired = face_pairs.get(&curr);
+                        // skip exactly the neighbor that comes from the same segment split
+                        if let Some(pv) = paired {
+                            if pv.iter().any(|&pf| pf == nbr) {
+                                // this nbr is the other half of a segment splitting curr
+                                continue;
+                            }
+                        }
+
+                        // otherwise, it's a genuine inside‐region adjacency
+                        visited[nbr] = true;
+                        inside[nbr] = true;
+                        num_visited += 1;
+                        queue.push_back(nbr);
+                    }
                 }
+
+                boundary_faces.retain(|&f| !visited[f]);
+                let Some((_, next_face)) = Self::get_seed_face_3(
+                    &self,
+                    &other,
+                    &tree_b,
+                    intersection_segments,
+                    &boundary_faces,
+                    include_on_surface,
+                ) else {
+                    break;
+                };
+                visited[next_face] = true;
+                inside[next_face] = true;
+                num_visited += 1;
+                queue.push_back(next_face);
             }
 
             println!(
-- 
2.43.0


From 8f85aa3bd74d6b0e45c0d469166fbd8e68933406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:31 +0000
Subject: [PATCH 23/37] fix: set operations accept an operand without faces

---
 src/mesh_processing/boolean.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index 69090a4..2489bb4 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -752,6 +752,18 @@ where
         let mut a = self;
         let mut b = other;
 
+        // An operand without faces bounds no volume and there is nothing to intersect
+        let a_empty = a.faces.iter().all(|f| f.removed);
+        if a_empty || b.faces.iter().all(|f| f.removed) {
+            let mut result = match op {
+                BooleanOp::Union if a_empty => b.clone(),
+                BooleanOp::Intersection => Mesh::new(),
+                _ => a.clone(),
+            };
+            result.remove_unused_vertices();
+            return result;
+        }
+
         let start = Instant::now();
         let (mut intersection_segments_a, mut intersection_segments_b) = {
             if N == 3 {
-- 
2.43.0


From f61db1b8f21e1d1ce2469d3a71f301072179d6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:28 +0000
Subject: [PATCH 24/37] fix: the triangulation keeps flat triangles along the
 hull

---
 src/operations/triangulation/delaunay.rs | 152 ++++++++++-------------
 1 file changed, 66 insertions(+), 86 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 2aca488..f35bf46 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -27,7 +27,7 @@ use crate::geometry::Point2;
 use crate::geometry::point::Point;
 use crate::geometry::spatial_element::SpatialElement;
 use crate::geometry::util::EPS;
-use crate::kernel::predicates::{bbox_approx2d, incircle, orient2d};
+use crate::kernel::predicates::{incircle, orient2d};
 use crate::mesh::basic_types::{Edge, Mesh, Triangle};
 use crate::mesh_processing::batching::FaceJobUV;
 use crate::numeric::scalar::Scalar;
@@ -123,51 +123,18 @@ where
         // Pre-allocate results
         let mut results = Vec::with_capacity(jobs.len());
 
-        // Batch super-triangle computation using single bbox pass
-        let mut super_triangles = Vec::with_capacity(jobs.len());
         for job in jobs {
             if job.points_uv.len() < 3 {
-                super_triangles.push(None);
-                continue;
-            }
-
-            let (min, max) = bbox_approx2d(&job.points_uv);
-            let dx = &max[0] - &min[0];
-            let dy = &max[1] - &min[1];
-            let delta = dx.max(dy);
-            let cx = (&min[0] + &max[0]) * T::from_num_den(1, 2);
-            let cy = (&min[1] + &max[1]) * T::from_num_den(1, 2);
-            let r = &(&T::from_num_den(64, 1) * &delta) + &T::from_num_den(1, 1);
-
-            super_triangles.push(Some((cx, cy, r)));
-        }
-
-        // Process each job with pre-computed super-triangle
-        for (job_idx, job) in jobs.iter().enumerate() {
-            let Some((cx, cy, r)) = &super_triangles[job_idx] else {
                 results.push(Self {
                     points: job.points_uv.clone(),
                     triangles: Vec::new(),
                 });
                 continue;
-            };
+            }
 
-            let mut points = job.points_uv.clone();
-            let sqrt_3 = T::from(SQRT_3);
+            let points = job.points_uv.clone();
             let s0 = points.len();
-            let s1 = s0 + 1;
-            let s2 = s0 + 2;
-
-            points.extend([
-                Point2::<T>::from_vals([
-                    T::from(cx.clone()),
-                    T::from(cy + &(&T::from_num_den(2, 1) * r)),
-                ]),
-                Point2::<T>::from_vals([T::from(cx - &(&sqrt_3 * &r)), T::from(cy - &r)]),
-                Point2::<T>::from_vals([T::from(cx + &(&sqrt_3 * &r)), T::from(cy - &r)]),
-            ]);
-
-            let mut triangles = vec![Triangle(s0, s1, s2)];
+            let mut triangles = vec![Triangle(s0, s0 + 1, s0 + 2)];
 
             // Bowyer-Watson insertion
             for pid in 0..s0 {
@@ -176,7 +143,6 @@ where
 
             // Remove super-triangles and finalize
             triangles.retain(|t| t.0 < s0 && t.1 < s0 && t.2 < s0);
-            points.truncate(s0);
 
             let mut dt = Self { points, triangles };
 
@@ -232,7 +198,7 @@ where
 
     /// Build Delaunay triangulation of `pts`. Duplicates are ignored.
     pub fn build(pts: &[Point2<T>]) -> Self {
-        let mut points = pts.to_vec();
+        let points = pts.to_vec();
         if points.len() < 3 {
             return Self {
                 points,
@@ -240,33 +206,9 @@ where
             };
         }
 
-        // Create super-triangle that contains all points
-        let (min, max) = bbox_approx2d(&points);
-        let dx = &max[0] - &min[0];
-        let dy = &max[1] - &min[1];
-        let delta = dx.max(dy);
-        let cx = &(&min[0] + &max[0]) * &T::from_num_den(1, 2);
-        let cy = &(&min[1] + &max[1]) * &T::from_num_den(1, 2);
-
-        let r = &(&T::from_num_den(64, 1) * &delta) + &T::from_num_den(1, 1);
-        let sqrt_3 = T::from(SQRT_3);
-        let p_super0 = Point2::<T>::from_vals([
-            T::from(cx.clone()),
-            T::from(&cy + &(&T::from_num_den(2, 1) * &r)),
-        ]);
-        let p_super1 = Point2::<T>::from_vals([T::from(&cx - &(&sqrt_3 * &r)), T::from(&cy - &r)]);
-        let p_super2 = Point2::<T>::from_vals([T::from(&cx + &(&sqrt_3 * &r)), T::from(&cy - &r)]);
-
+        // Initialize with the super-triangle that contains all points
         let s0 = points.len();
-        let s1 = s0 + 1;
-        let s2 = s0 + 2;
-
-        points.push(p_super0);
-        points.push(p_super1);
-        points.push(p_super2);
-
-        // Initialize with super-triangle
-        let mut triangles = vec![Triangle(s0, s1, s2)];
+        let mut triangles = vec![Triangle(s0, s0 + 1, s0 + 2)];
 
         // Insert each point using Bowyer-Watson
         for pid in 0..s0 {
@@ -275,19 +217,22 @@ where
 
         // Remove super-triangles
         triangles.retain(|t| t.0 < s0 && t.1 < s0 && t.2 < s0);
-        points.truncate(s0);
 
         Self { points, triangles }
     }
 
-    /// Insert a single point using Bowyer-Watson algorithm
+    /// Insert a single point using Bowyer-Watson algorithm.
+    /// The corners of the super-triangle follow the points and lie at infinity: with finite ones
+    /// flat triangles along the hull would be lost.
     fn bowyer_watson_insert_point(pid: usize, points: &[Point2<T>], triangles: &mut Vec<Triangle>) {
         let p = &points[pid];
 
         // Find triangles whose circumcircle contains p
         let mut bad_triangles = Vec::new();
         for (i, &t) in triangles.iter().enumerate() {
-            if Self::point_in_circumcircle_fast(p, t, points) {
+            if Self::point_in_super_circle(p, t, points)
+                .unwrap_or_else(|| Self::point_in_circumcircle_fast(p, t, points))
+            {
                 bad_triangles.push(i);
             }
         }
@@ -296,23 +241,19 @@ where
             return; // Point already well-positioned
         }
 
-        // Find cavity boundary
+        // Find cavity boundary, keeping the direction of its edges
         let mut edge_count = std::collections::HashMap::new();
         for &i in &bad_triangles {
-            let t = triangles[i];
-            for edge in [
-                Edge::new(t.0, t.1),
-                Edge::new(t.1, t.2),
-                Edge::new(t.2, t.0),
-            ] {
-                *edge_count.entry(edge).or_insert(0) += 1;
+            for (u, v) in tri_edges(triangles[i]) {
+                let entry = edge_count.entry(Edge::new(u, v)).or_insert((0, u, v));
+                entry.0 += 1;
             }
         }
 
         // Boundary edges appear exactly once
-        let boundary_edges: Vec<Edge> = edge_count
-            .into_iter()
-            .filter_map(|(edge, count)| if count == 1 { Some(edge) } else { None })
+        let boundary_edges: Vec<(usize, usize)> = edge_count
+            .into_values()
+            .filter_map(|(count, u, v)| if count == 1 { Some((u, v)) } else { None })
             .collect();
 
         // Remove bad triangles (in reverse order to preserve indices)
@@ -322,13 +263,52 @@ where
         }
 
         // Create new triangles by connecting boundary edges to new point
-        for edge in boundary_edges {
-            let new_triangle = if orient2d(&points[edge.a()], &points[edge.b()], p).is_positive() {
-                Triangle(edge.a(), edge.b(), pid)
-            } else {
-                Triangle(edge.a(), pid, edge.b())
-            };
-            triangles.push(new_triangle);
+        for (u, v) in boundary_edges {
+            triangles.push(Triangle(u, v, pid));
+        }
+    }
+
+    /// `point_in_circumcircle` for triangles with corners of the super-triangle, `None` for others.
+    /// These corners are infinitely far away in the directions (0, 5), (-4, -3) and (4, -3),
+    /// so that the circle is a half-plane.
+    fn point_in_super_circle(p: &Point2<T>, t: Triangle, points: &[Point2<T>]) -> Option<bool> {
+        let s0 = points.len();
+        let mut v = tri_as_array(t);
+        match v.iter().filter(|&&i| i >= s0).count() {
+            0 => None,
+            1 => {
+                while v[2] < s0 {
+                    v.rotate_left(1);
+                }
+                let (a, b) = (&points[v[0]], &points[v[1]]);
+                let side = orient2d(a, b, p);
+                if !side.is_zero() {
+                    return Some(side.is_positive());
+                }
+                let along = &(&(&a[0] - &p[0]) * &(&b[0] - &p[0]))
+                    + &(&(&a[1] - &p[1]) * &(&b[1] - &p[1]));
+                Some(along.is_negative())
+            }
+            2 => {
+                while v[0] >= s0 {
+                    v.rotate_left(1);
+                }
+                let a = &points[v[0]];
+                let (dx, dy) = (&p[0] - &a[0], &p[1] - &a[1]);
+                // towards the bisector of the two directions
+                let two = T::from_num_den(2, 1);
+                let ahead = match v[1] + v[2] - 2 * s0 {
+                    1 => &dy - &(&two * &dx),
+                    2 => &dy + &(&two * &dx),
+                    _ => -dy,
+                };
+                if !ahead.is_zero() {
+                    return Some(ahead.is_positive());
+                }
+                let norm = |q: &Point2<T>| &(&q[0] * &q[0]) + &(&q[1] * &q[1]);
+                Some((&norm(p) - &norm(a)).is_negative())
+            }
+            _ => Some(true),
         }
     }
 
-- 
2.43.0


From c0adc4675122d78c17115e701a97c0d0dd650d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:53 +0000
Subject: [PATCH 25/37] fix: set operations classify shells that the
 intersection does not touch

---
 src/mesh_processing/boolean.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index 2489bb4..10774e2 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -273,6 +273,40 @@ where
                 queue.push_back(next_face);
             }
 
+            // Shells of the mesh that the intersection does not touch are inside or outside as a whole
+            let mut seen = visited.clone();
+            for start in 0..self.faces.len() {
+                if seen[start] || self.faces[start].removed {
+                    continue;
+                }
+                seen[start] = true;
+                let mut shell = vec![start];
+                let mut touched = false;
+                let mut i = 0;
+                while i < shell.len() {
+                    let curr = shell[i];
+                    i += 1;
+                    touched |= face_pairs.contains_key(&curr);
+                    for nbr in self.adjacent_faces(curr) {
+                        touched |= visited[nbr];
+                        if !seen[nbr] {
+                            seen[nbr] = true;
+                            shell.push(nbr);
+                        }
+                    }
+                }
+                if touched {
+                    continue;
+                }
+                let c = self.face_centroid_fast(start);
+                if let PointInMeshResult::Inside = other.point_in_mesh_3(&tree_b, &c) {
+                    num_visited += shell.len();
+                    for f in shell {
+                        inside[f] = true;
+                    }
+                }
+            }
+
             println!(
                 "Flood-fill visited {} faces out of {}",
                 num_visited,
-- 
2.43.0


From 771daf5c4995e2da4246d5b1626949392c8a892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:48 +0000
Subject: [PATCH 26/37] fix: the bounding box of a face contains the exact
 positions of its corners

---
 src/mesh/core.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 3651b11..4e92287 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -29,6 +29,7 @@ use crate::{
         Aabb, AabbTree,
         point::{Point, PointOps},
         spatial_element::SpatialElement,
+        util::{f64_next_down, f64_next_up},
         vector::VectorOps,
     },
     impl_mesh, kernel,
@@ -1439,22 +1440,26 @@ pub fn compute_triangle_aabb_fast<T: Scalar, const N: usize>(
 where
     T: From<f64>,
 {
-    // Single allocation for all coordinates
-    let mut coords = [[0.0; N]; 3];
-
-    // Batch extract all coordinates
-    for i in 0..N {
-        coords[0][i] = p0[i].as_f64_fast()?;
-        coords[1][i] = p1[i].as_f64_fast()?;
-        coords[2][i] = p2[i].as_f64_fast()?;
+    let mut lo = [f64::INFINITY; N];
+    let mut hi = [f64::NEG_INFINITY; N];
+
+    for p in [p0, p1, p2] {
+        for i in 0..N {
+            let c = p[i].as_f64_fast()?;
+            let (mut l, mut h) = p[i].double_interval().unwrap_or((c, c));
+            // The box has to contain the exact position
+            if l != h || T::from(c) != p[i] {
+                l = f64_next_down(l.min(c));
+                h = f64_next_up(h.max(c));
+            }
+            lo[i] = lo[i].min(l);
+            hi[i] = hi[i].max(h);
+        }
     }
 
-    // Vectorized min/max computation
-    let min_coords =
-        std::array::from_fn(|i| T::from(coords[0][i].min(coords[1][i]).min(coords[2][i])));
+    let min_coords = std::array::from_fn(|i| T::from(lo[i]));
 
-    let max_coords =
-        std::array::from_fn(|i| T::from(coords[0][i].max(coords[1][i]).max(coords[2][i])));
+    let max_coords = std::array::from_fn(|i| T::from(hi[i]));
 
     Some(Aabb::new(
         Point::<T, N>::from_vals(min_coords),
-- 
2.43.0


From 1f3e05005847a9b0f533cd6a5a2a150a10f83fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:41 +0000
Subject: [PATCH 27/37] fix: point-in-mesh counts crossings instead of rays
 that hit anything

---
 src/mesh/topology.rs | 79 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 61 insertions(+), 18 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index bd035b3..46ff7a6 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -563,37 +563,74 @@ impl_mesh! {
             Vector::<T, N>::from_vals(from_fn(|i| [T::from(-1.0), T::zero(), T::zero()][i].clone())),
             Vector::<T, N>::from_vals(from_fn(|i| [T::zero(), T::from(-1.0), T::zero()][i].clone())),
             Vector::<T, N>::from_vals(from_fn(|i| [T::zero(), T::zero(), T::from(-1.0)][i].clone())),
+            Vector::<T, N>::from_vals(from_fn(|i| [T::one(), T::from(0.28125), T::from(0.171875)][i].clone())),
+            Vector::<T, N>::from_vals(from_fn(|i| [T::from(-0.203125), T::one(), T::from(-0.328125)][i].clone())),
+            Vector::<T, N>::from_vals(from_fn(|i| [T::from(0.140625), T::from(-0.234375), T::from(-1.0)][i].clone())),
         ];
 
-        let total_rays = rays.len();
+        // Rays through an edge or a vertex do not tell anything, hence the odd directions at the end
         let mut inside_count = 0usize;
-        let mut on_surface = false;
+        let mut outside_count = 0usize;
 
-        for r in rays {
-            match self.cast_ray_3(p, &r, tree, &None) {
-                IntersectionResult::Hit(_hit, t) => {
-                    if t.is_zero() {
-                        on_surface = true; // optionally: return PointInMeshResult::OnSurface immediately
-                    } else {
-                        // odd parity for this direction
-                        inside_count += 1;
-                    }
-                }
-                IntersectionResult::Miss => {
-                    // even parity for this direction (0), do nothing
-                }
+        for (i, r) in rays.iter().enumerate() {
+            if i >= 6 && inside_count + outside_count > 0 {
+                break;
+            }
+            match self.ray_crossings_3(p, r, tree) {
+                RayCrossings::Surface => return PointInMeshResult::OnSurface,
+                RayCrossings::Count(n) if n % 2 == 1 => inside_count += 1,
+                RayCrossings::Count(_) => outside_count += 1,
+                RayCrossings::Unclear => {}
             }
         }
 
-        if on_surface {
-            PointInMeshResult::OnSurface
-        } else if inside_count > total_rays / 2 {
+        if inside_count > outside_count {
             PointInMeshResult::Inside
         } else {
             PointInMeshResult::Outside
         }
     }
 
+    /// How many faces the ray from `p` in direction `dir` passes through
+    fn ray_crossings_3(
+        &self,
+        p: &Point<T, N>,
+        dir: &Vector<T, N>,
+        tree: &AabbTree<T, N, Point<T, N>, usize>,
+    ) -> RayCrossings where Vector<T, N>: VectorOps<T, N>,
+    {
+        let far_multiplier = T::from(10e6);
+        let far_point = Point::<T, N>::from_vals(from_fn(|i| &p[i] + &(&dir[i] * &far_multiplier)));
+        let ray_aabb = Aabb::<T, N, Point<T, N>>::from_points(p, &far_point);
+
+        let mut candidate_faces = Vec::new();
+        tree.query_valid(&ray_aabb, &mut candidate_faces);
+
+        let one = T::one();
+        let tol = T::query_tolerance();
+        let mut count = 0;
+        let mut unclear = false;
+        for &&fi in &candidate_faces {
+            if self.faces[fi].removed {
+                continue;
+            }
+            let vs = self.face_vertices(fi);
+            let tri: [&Point<T, N>; N] = from_fn(|i| &self.vertices[vs[i]].position);
+            if let Some((t, u, v)) = ray_triangle_intersection(p, dir, tri, &None) {
+                if t.is_zero() {
+                    return RayCrossings::Surface;
+                }
+                let l0 = &one - &(&u + &v);
+                if [&l0, &u, &v].iter().any(|l| !(*l - &tol).is_positive()) {
+                    unclear = true;
+                } else {
+                    count += 1;
+                }
+            }
+        }
+        if unclear { RayCrossings::Unclear } else { RayCrossings::Count(count) }
+    }
+
     fn get_boundary_half_edges(&self) -> Vec<usize> {
         let mut boundary_edges = Vec::new();
 
@@ -2116,6 +2153,12 @@ where
     Some((t, u))
 }
 
+enum RayCrossings {
+    Surface,
+    Unclear,
+    Count(usize),
+}
+
 /// Robust ray-triangle intersection using Möller-Trumbore algorithm
 fn ray_triangle_intersection<T: Scalar, const N: usize>(
     ray_origin: &Point<T, N>,
-- 
2.43.0


From 8b80dda2ff3b9016dd43a1f89d21e8d8086c888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:08 +0000
Subject: [PATCH 28/37] fix: diagnostics that cannot be written no longer panic

---
 src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 392b492..53add37 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -20,6 +20,20 @@
 // OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
 // SOFTWARE.
 
+// Diagnostics are best effort: the standard macros panic if the console is closed or full
+macro_rules! println {
+    ($($arg:tt)*) => {{
+        use std::io::Write as _;
+        let _ = writeln!(std::io::stdout(), $($arg)*);
+    }};
+}
+macro_rules! eprintln {
+    ($($arg:tt)*) => {{
+        use std::io::Write as _;
+        let _ = writeln!(std::io::stderr(), $($arg)*);
+    }};
+}
+
 pub mod geometry;
 pub mod io;
 pub mod kernel;
-- 
2.43.0


From 71110e04dae469ba92ddf9c0e34e2525c65af0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:53:43 +0000
Subject: [PATCH 29/37] fix: list the faces across the three edges in
 faces_around_face

It walked around a vertex instead and listed the face itself.
---
 src/mesh/topology.rs | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 46ff7a6..3f8c4e4 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -818,33 +818,23 @@ impl_mesh! {
 
     pub fn faces_around_face(&self, face: usize) -> [usize; 3] {
         let mut result = [usize::MAX; 3];
-        let mut current_he_idx = self.faces[face].half_edge;
-        if current_he_idx == usize::MAX {
+        let starting_he_idx = self.faces[face].half_edge;
+        if starting_he_idx == usize::MAX {
             panic!("Face has no half-edge.");
         }
-        let starting_he_idx = current_he_idx;
+        let mut current_he_idx = starting_he_idx;
 
         let mut i = 0;
-        loop {
+        for _ in 0..3 {
             let current_he = &self.half_edges[current_he_idx];
-            if let Some(face_idx) = current_he.face
+            // the face on the other side of this edge
+            if let Some(face_idx) = self.half_edges[current_he.twin].face
                 && !self.faces[face_idx].removed
             {
-                result[i] = face_idx; // valid half_edges should always point to valid faces
+                result[i] = face_idx;
                 i += 1;
-                if i == 3 {
-                    break; // we only need 3 faces
-                }
-            }
-
-            let twin_idx = current_he.twin;
-            let next_idx = self.half_edges[twin_idx].next;
-
-            if next_idx == starting_he_idx {
-                break;
             }
-
-            current_he_idx = next_idx;
+            current_he_idx = current_he.next;
         }
 
         result
-- 
2.43.0


From 603f8523f6a83c7af0e31b85989312699217b310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:53:43 +0000
Subject: [PATCH 30/37] fix: rotate around one vertex when building border
 loops

From the second face on the walk left the vertex, so borders were linked to other loops.
---
 src/mesh/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 4e92287..960dedb 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -142,8 +142,8 @@ impl_mesh! {
                     break cand;
                 }
 
-                // Keep rotating around the same vertex via the interior side of `cand`
-                t = self.half_edges[cand].twin;
+                // Keep rotating around the same vertex from `cand`, which leaves it
+                t = cand;
                 if t >= m || self.half_edges[t].removed || !self.face_ok(t) {
                     // If we lose a valid interior, bail to self-loop
                     break b;
-- 
2.43.0


From 6b1896930def62337cb8866a463b729f9404cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:53:43 +0000
Subject: [PATCH 31/37] fix: treat vertices without edges as having an empty
 ring

boundary_vertices() panicked on any mesh with a loose vertex.
---
 src/mesh/topology.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 3f8c4e4..a3c8376 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -406,10 +406,10 @@ impl_mesh! {
     /// in CCW order.  Works even on meshes with open boundaries,
     /// *provided* you’ve first called `build_boundary_loops()`.
     pub fn outgoing_half_edges(&self, v: usize) -> Vec<usize> {
-        let start = self.vertices[v]
-            .half_edge
-            .expect("vertex has no incident edges");
         let mut result = Vec::new();
+        let Some(start) = self.vertices[v].half_edge else {
+            return result; // no incident edges
+        };
         let mut h = start;
         loop {
             result.push(h);
-- 
2.43.0


From 426a5e77df8f194c999c6e2b2b8a5843c3b31db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:53:43 +0000
Subject: [PATCH 32/37] fix: skip removed faces when listing the half-edges of
 a face

Their first half-edge may meanwhile lie on a border, so building the adjacency graph panicked.
---
 src/mesh/topology.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index a3c8376..784eb31 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -1836,7 +1836,7 @@ impl_mesh! {
         }
 
         let face = &self.faces[face_idx];
-        if face.half_edge == usize::MAX || self.half_edges[face.half_edge].removed {
+        if face.removed || face.half_edge == usize::MAX || self.half_edges[face.half_edge].removed {
             return None;
         }
 
-- 
2.43.0


From 7bce86b5ee5299abaabb3ca37166ef3ac00e2bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:53:43 +0000
Subject: [PATCH 33/37] fix: record the halves of a split half-edge

find_valid_half_edge follows half_edge_split_map from a removed
half-edge to its descendants, but nothing ever filled that map.
A point on an old edge was looked up through faces instead, which
could return the opposite half-edge.
---
 src/mesh/core.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 960dedb..7c776bd 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -896,6 +896,10 @@ impl_mesh! {
             self.half_edges[border_prev].next = bhe_aw;
             self.half_edges[border_next].prev = bhe_wc;
 
+            // Old half-edges lead to their two halves
+            self.half_edge_split_map.insert(he_ca, (he_cw, he_wa));
+            self.half_edge_split_map.insert(he_ac, (bhe_aw, bhe_wc));
+
             // Edge map updates
             self.edge_map.insert((c, w), he_cw);
             self.edge_map.insert((w, a), he_wa);
@@ -1001,6 +1005,10 @@ impl_mesh! {
             self.half_edges[base_half_edge_idx + twins[i].1].twin = base_half_edge_idx + twins[i].0;
         }
 
+        // Old half-edges lead to their two halves
+        self.half_edge_split_map.insert(he_ca, (base_half_edge_idx + 1, base_half_edge_idx + 2)); // c -> w, w -> a
+        self.half_edge_split_map.insert(he_ac, (base_half_edge_idx + 7, base_half_edge_idx + 4)); // a -> w, w -> c
+
         // Update vertices half-edges
         self.vertices[w].half_edge = Some(base_half_edge_idx); // w -> b
         self.vertices[a].half_edge = Some(he_ab); // a -> b
-- 
2.43.0


From 5a567a3924dba4778c8be07a003d4a60dcaac26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:13:32 +0000
Subject: [PATCH 34/37] fix: point_in_mesh_2 tests the border edges and counts
 corners once

cast_ray_2 took the ends of the half-edge after the given one on its face.
Meshes other than a triangle or a single quad were therefore tested against
edges that are not on their border. A corner level with the point was counted
by both of its edges.
---
 src/mesh/topology.rs | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 784eb31..1d82b05 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -780,34 +780,22 @@ impl_mesh! {
             + Mul<&'a T, Output = T>
             + Div<&'a T, Output = T>
     {
-        let v1 = self.half_edges[he].vertex;
-        let v2 = self.half_edges[self.half_edges[he].next].vertex;
+        // The ends of this half-edge, not of the next one on its face
+        let v1 = self.source(he);
+        let v2 = self.target(he);
 
         let p1 = &self.vertices[v1].position;
         let p2 = &self.vertices[v2].position;
 
-        // Ray casting from point horizontally to the right
-        // Check if edge crosses the horizontal ray
-
-        // Both points above or below the ray
-        if ((&p1[1] - &point[1]).is_positive() && (&p2[1] - &point[1]).is_positive()) ||
-        ((&p1[1] - &point[1]).is_negative() && (&p2[1] - &point[1]).is_negative()) {
+        // Ray casting from point horizontally to the right.
+        // An end level with the ray counts as below it, so that a corner on the
+        // ray is counted by exactly one of its edges and a level edge never.
+        if (&p1[1] - &point[1]).is_positive() == (&p2[1] - &point[1]).is_positive() {
             return false;
         }
 
-        // Edge is horizontal and at same y-level as point
-        if (&p1[1] - &p2[1]).is_zero() && (&p1[1] - &point[1]).is_zero() {
-            // Check if point is between edge endpoints
-            let min_x = if (&p1[0] - &p2[0]).is_negative() { &p1[0] } else { &p2[0] };
-            let max_x = if (&p1[0] - &p2[0]).is_positive() { &p1[0] } else { &p2[0] };
-            return !(&point[0] - min_x).is_negative() && !(&point[0] - max_x).is_positive();
-        }
-
         // Calculate intersection x-coordinate
         let dy = &p2[1] - &p1[1];
-        if dy.is_zero() {
-            return false;
-        }
 
         let t = &(&point[1] - &p1[1]) / &dy;
         let x_intersect = &p1[0] + &(&t * &(&p2[0] - &p1[0]));
-- 
2.43.0


From 3f281e2cbb586110cdafca569ff951dff9fca2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:18:15 +0000
Subject: [PATCH 35/37] fix: splitting a planar mesh through an outdated face
 no longer panics

Searching for the face that holds a point views 2D points as points of the
plane z = 0, but the conversion was not implemented.
---
 src/geometry/point.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/geometry/point.rs b/src/geometry/point.rs
index 7b3b138..628b946 100644
--- a/src/geometry/point.rs
+++ b/src/geometry/point.rs
@@ -235,7 +235,12 @@ where
     }
 
     fn as_vector_3(&self) -> Vector<T, 3> {
-        panic!("as_vector_3 is not implemented for 2D points");
+        // a point of the plane z = 0
+        Vector(Point::<T, 3>::from_vals([
+            self[0].clone(),
+            self[1].clone(),
+            T::zero(),
+        ]))
     }
 
     fn add_vector(&self, v: &Self::Vector) -> Self
-- 
2.43.0


From c1ba1ce84735774dbd98ac181068cf63859ba370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:53:31 +0000
Subject: [PATCH 36/37] fix: flip_edge refuses flat faces whose normal is a
 negative zero

Floating-point numbers compare by their bits, so a normal of -0.0 passed
the test for a degenerate face and the flip made a face without area.
---
 src/mesh/core.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 7c776bd..6ba8e80 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -693,8 +693,9 @@ impl_mesh! {
             let n2z = &cb0 * &db1 - &cb1 * &db0;
 
             let zero = n1x.clone() - n1x.clone(); // cheap zero
-            let tri1_degenerate = n1x == zero && n1y == zero && n1z == zero;
-            let tri2_degenerate = n2x == zero && n2y == zero && n2z == zero;
+            // abs: a negative zero does not compare equal to zero
+            let tri1_degenerate = n1x.abs() == zero && n1y.abs() == zero && n1z.abs() == zero;
+            let tri2_degenerate = n2x.abs() == zero && n2y.abs() == zero && n2z.abs() == zero;
             if tri1_degenerate || tri2_degenerate {
                 return Err("flip_edge: degenerate area");
             }
-- 
2.43.0


From cc5c475b98765884c8c60ab88f4a8ce0b50a2abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:53:05 +0000
Subject: [PATCH 37/37] fix: build_face_tree leaves removed faces out of the
 tree

---
 src/mesh/core.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 6ba8e80..d467f99 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -442,7 +442,8 @@ impl_mesh! {
     where
         for<'a> &'a T: Sub<&'a T, Output = T>,
     {
-        let face_aabbs = self.internal_build_face_tree();
+        let mut face_aabbs = self.internal_build_face_tree();
+        face_aabbs.retain(|&(_, f)| !self.faces[f].removed);
         AabbTree::build(face_aabbs)
     }
 
-- 
2.43.0

