From 3c0de4f71561a7757d62df2eb8c53e42ad0808e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 01/11] fix: continue the right concave fill from the next node

fill_right_convex_edge_event found the corner at next_node to be concave but
filled at node instead (poly2tri fills at node.next, and so does the left
variant here), which produced clockwise triangles, panics or endless recursion.
---
 src/sweeper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index e0b9341..a843f4d 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -695,7 +695,7 @@ impl Sweeper<'_> {
         .is_ccw()
         {
             // concave
-            self.fill_right_concave_edge_event(edge, node_id, observer);
+            self.fill_right_concave_edge_event(edge, next_node.get_node_id(), observer);
         } else {
             // convex
             // next above or below edge?
-- 
2.43.0


From 3dacac2d06b4733cddf27ab2a0088fd42f2b4db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 02/11] fix: decide the sign of the hole angle with the robust
 predicate

The plain cross product of coordinate differences could have the wrong sign for
almost collinear front nodes, so an inverted triangle was filled.
---
 src/utils.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 5617e0f..1d4db42 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -76,7 +76,7 @@ pub fn in_scan_area(a: Point, b: Point, c: Point, d: Point) -> bool {
 
 #[derive(Debug, Clone, Copy)]
 pub struct Angle {
-    dy: Float,
+    dy: f64,
     dx: Float,
 }
 
@@ -89,7 +89,11 @@ impl Angle {
         let day = a.y - oy;
         let dbx = b.x - ox;
         let dby = b.y - oy;
-        let y = dax * dby - day * dbx;
+        let y = robust::orient2d(
+            robust::Coord { x: o.x, y: o.y },
+            robust::Coord { x: a.x, y: a.y },
+            robust::Coord { x: b.x, y: b.y },
+        );
         let x = dax * dbx + day * dby;
         Angle { dy: y, dx: x }
     }
-- 
2.43.0


From 4c34d3f825b8604eae36662a741d35c3f203230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 03/11] fix: find the interior from the head triangle, not from
 the first front node

The second front node can be a steiner point outside of the polyline, then the
walk around it ended nowhere (empty result) or in a wrong triangle.
---
 src/sweeper.rs | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index a843f4d..206cf76 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -59,30 +59,36 @@ impl Sweeper<'_> {
     }
 
     pub(crate) fn finalize_polygon(&mut self) -> Option<()> {
-        // get an internal triangle to start with
-        // the first node is head, artificial point, so skip
-        let node = self.advancing_front.nth(1)?;
+        let t = self.locate_interior_triangle()?;
+        self.clean_mesh(t)
+    }
 
-        let mut t = node.triangle?;
+    /// get an internal triangle to start with
+    /// starts from head, which is artificial, so its triangle is outside of the polyline, the
+    /// first constrained edge reached from there belongs to the polyline
+    fn locate_interior_triangle(&self) -> Option<TriangleId> {
+        let mut visited = vec![false; self.triangles.len()];
+        let mut triangles = vec![self.advancing_front.nth(0)?.triangle?];
 
-        loop {
-            if let Some(tri) = self.triangles.get(t) {
-                if !tri.constrained_edge_cw(node.point_id()) {
-                    t = tri.neighbor_ccw(node.point_id());
-                } else {
-                    break;
-                }
-            } else {
-                // no valid triangle found, just break
-                break;
+        while let Some(t) = triangles.pop() {
+            if std::mem::replace(&mut visited[t.as_usize()], true) {
+                continue;
             }
-        }
 
-        if !t.invalid() {
-            self.clean_mesh(t);
+            let tri = t.get(&self.triangles);
+            for i in 0..3 {
+                let neighbor = tri.neighbors[i];
+                if neighbor.invalid() {
+                    continue;
+                }
+                if tri.is_constrained(i) {
+                    return Some(neighbor);
+                }
+                triangles.push(neighbor);
+            }
         }
 
-        Some(())
+        None
     }
 
     fn clean_mesh(&mut self, triangle_id: TriangleId) -> Option<()> {
-- 
2.43.0


From 470e293c8c5468d40ad418afa201361000dbd99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 04/11] fix: decide the scan area with the robust predicate
 instead of an absolute epsilon

With coordinates around 1e-9 all cross products are below the epsilon, so no
point was ever in the scan area and valid polygons panicked with 'Opposing point
on constrained edge'.
---
 src/utils.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 1d4db42..ef1fc65 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -61,13 +61,20 @@ pub fn in_circle(pa: Point, pb: Point, pc: Point, pd: Point) -> bool {
 }
 
 pub fn in_scan_area(a: Point, b: Point, c: Point, d: Point) -> bool {
-    let oadb = (a.x - b.x) * (d.y - b.y) - (d.x - b.x) * (a.y - b.y);
-    if oadb >= -Float::EPSILON {
+    let (a, b, c, d) = (
+        robust::Coord { x: a.x, y: a.y },
+        robust::Coord { x: b.x, y: b.y },
+        robust::Coord { x: c.x, y: c.y },
+        robust::Coord { x: d.x, y: d.y },
+    );
+
+    let oadb = robust::orient2d(a, d, b);
+    if oadb >= 0. {
         return false;
     }
 
-    let oadc = (a.x - c.x) * (d.y - c.y) - (d.x - c.x) * (a.y - c.y);
-    if oadc <= Float::EPSILON {
+    let oadc = robust::orient2d(a, d, c);
+    if oadc <= 0. {
         return false;
     }
 
-- 
2.43.0


From 7e6b8336955675242cc7ca4854228d46f82c18d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 05/11] fix: compare abscissas exactly when a point is above a
 front node

The absolute epsilon made every node count as vertically below the new point for
coordinates below 1e-16, inverted triangles were filled.
---
 src/sweeper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index 206cf76..29e1281 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -146,7 +146,7 @@ impl Sweeper<'_> {
 
         // in middle case, the node's x should be less than point'x
         // in left case, they are same.
-        if point.x <= node_point.x + Float::EPSILON {
+        if point.x <= node_point.x {
             self.fill_one(node_id, observer);
         }
 
-- 
2.43.0


From 3fd6ac88780ab863bb012210d0ed91713cef0f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 06/11] fix: check triangle ids and the front index instead of
 reading out of bounds

With unsupported input (crossing edges, points on an edge, coordinates that are
not finite) an invalid id reached get_unchecked: undefined behaviour from safe
code, seen as a segmentation fault. Now it is a panic.
---
 src/advancing_front/vec_backed.rs |  4 +++-
 src/triangles.rs                  | 10 ++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/advancing_front/vec_backed.rs b/src/advancing_front/vec_backed.rs
index 7029013..ea42e72 100644
--- a/src/advancing_front/vec_backed.rs
+++ b/src/advancing_front/vec_backed.rs
@@ -200,7 +200,9 @@ impl AdvancingFront {
     pub fn locate_node(&self, point: Point) -> Option<NodeRef> {
         let key = PointKey(point);
         let idx = match self.search_by_key(&key) {
-            Err(idx) => idx - 1,
+            // left of all nodes: only possible for coordinates that are not finite or that are
+            // too large for the head to be left of all points
+            Err(idx) => idx.checked_sub(1)?,
             Ok(idx) => idx,
         };
         // safety: idx is checked
diff --git a/src/triangles.rs b/src/triangles.rs
index 1d69085..0e83054 100644
--- a/src/triangles.rs
+++ b/src/triangles.rs
@@ -68,15 +68,13 @@ impl TriangleStore {
     }
 
     pub fn get(&self, id: TriangleId) -> Option<&InnerTriangle> {
-        if id == TriangleId::INVALID {
-            return None;
-        }
-        unsafe { Some(self.triangles.get_unchecked(id.as_usize())) }
+        self.triangles.get(id.as_usize())
     }
 
     pub fn get_unchecked(&self, id: TriangleId) -> &InnerTriangle {
         debug_assert!(!id.invalid());
-        unsafe { self.triangles.get_unchecked(id.as_usize()) }
+        // the id can be invalid when the input is (e.g. crossing edges), so this must be checked
+        &self.triangles[id.as_usize()]
     }
 
     pub fn get_mut(&mut self, id: TriangleId) -> Option<&mut InnerTriangle> {
@@ -158,7 +156,7 @@ impl TriangleStore {
     }
 
     pub fn get_mut_unchecked(&mut self, id: TriangleId) -> &mut InnerTriangle {
-        unsafe { self.triangles.get_unchecked_mut(id.as_usize()) }
+        &mut self.triangles[id.as_usize()]
     }
 
     pub fn iter(&self) -> impl Iterator<Item = (TriangleId, &InnerTriangle)> {
-- 
2.43.0


From f842d3d533c27d1d79c74b3c939be6b53ddb6e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 07/11] fix: report malformed files as LoaderError instead of
 panicking

load() returns a Result, but a line with one number, a word, a blank line of
spaces, or a file that is not UTF-8 hit unwrap.
---
 src/loader.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/loader.rs b/src/loader.rs
index 71684cf..5291ab7 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -30,7 +30,7 @@ impl Loader for PlainFileLoader {
     fn load(&mut self, path: &str) -> Result<Builder, LoaderError> {
         let mut f = std::fs::File::options().read(true).open(path)?;
         let mut value = "".to_string();
-        std::io::Read::read_to_string(&mut f, &mut value).unwrap();
+        std::io::Read::read_to_string(&mut f, &mut value)?;
 
         let mut state = ParseState::default();
         let mut polygon = vec![];
@@ -71,14 +71,20 @@ impl Loader for PlainFileLoader {
 }
 
 fn parse_point(line: &str) -> Result<Option<Point>, LoaderError> {
-    if line.is_empty() {
-        return Ok(None);
-    }
     let mut iter = line.split_whitespace();
-    let x = iter.next().unwrap();
-    let y = iter.next().unwrap();
-    let x = x.parse::<Float>().unwrap();
-    let y = y.parse::<Float>().unwrap();
+    let Some(x) = iter.next() else {
+        // blank line
+        return Ok(None);
+    };
+    let y = iter
+        .next()
+        .ok_or_else(|| LoaderError::Inner(format!("y is missing in line {line:?}").into()))?;
+
+    Ok(Some(Point::new(parse_float(x)?, parse_float(y)?)))
+}
 
-    Ok(Some(Point::new(x, y)))
+fn parse_float(value: &str) -> Result<Float, LoaderError> {
+    value
+        .parse::<Float>()
+        .map_err(|e| LoaderError::Inner(format!("{e}: {value:?}").into()))
 }
-- 
2.43.0


From 50748d72e77650ea6e4ff8126771498243756069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 08/11] fix: report repeated points in a file as LoaderError
 instead of panicking

A file with the same point twice in a row (or a polyline of one point) is valid
syntax, but made load() panic with "repeat points".
---
 src/loader.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/loader.rs b/src/loader.rs
index 5291ab7..218b7fb 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -64,6 +64,16 @@ impl Loader for PlainFileLoader {
             }
         }
 
+        for ring in std::iter::once(&polygon).chain(&holes) {
+            // an edge needs two different end points
+            let repeated = |i: usize| ring[i].eq(&ring[(i + 1) % ring.len()]);
+            if let Some(i) = (0..ring.len()).find(|i| repeated(*i)) {
+                return Err(LoaderError::Inner(
+                    format!("repeated point {:?} in a polyline", ring[i]).into(),
+                ));
+            }
+        }
+
         Ok(Builder::new(polygon)
             .add_holes(holes)
             .add_steiner_points(steiner_points))
-- 
2.43.0


From c2be3717d1b3328244ddd5c407836396eab3aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:18 +0000
Subject: [PATCH 09/11] fix: stack overflow when an edge event turns around a
 point with many triangles

edge_event_process recursed once per triangle around the point. In builds without
optimization the stack overflows for polygons of some ten thousand points.
---
 src/sweeper.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index 29e1281..5e4e2a6 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -832,14 +832,32 @@ impl Sweeper<'_> {
         ep: PointId,
         eq: PointId,
         constrain_edge: &ConstrainedEdge,
-        triangle_id: TriangleId,
+        mut triangle_id: TriangleId,
         p: PointId,
         triangle_ids: &mut Vec<TriangleId>,
     ) {
+        // there can be any number of triangles around `p`, so this is no recursion
+        while let Some(next_triangle_id) =
+            self.edge_event_step(ep, eq, constrain_edge, triangle_id, p, triangle_ids)
+        {
+            triangle_id = next_triangle_id;
+        }
+    }
+
+    /// Returns the triangle to continue with when `triangle_id` does not cross the edge
+    fn edge_event_step(
+        &mut self,
+        ep: PointId,
+        eq: PointId,
+        constrain_edge: &ConstrainedEdge,
+        triangle_id: TriangleId,
+        p: PointId,
+        triangle_ids: &mut Vec<TriangleId>,
+    ) -> Option<TriangleId> {
         assert!(!triangle_id.invalid());
 
         if self.try_mark_edge_for_triangle(ep, eq, triangle_id) {
-            return;
+            return None;
         }
 
         let triangle = self.triangles.get_mut_unchecked(triangle_id);
@@ -863,7 +881,7 @@ impl Sweeper<'_> {
                     p1,
                     triangle_ids,
                 );
-                return;
+                return None;
             } else {
                 panic!("EdgeEvent - collinear points not supported")
             }
@@ -889,7 +907,7 @@ impl Sweeper<'_> {
                     triangle_ids,
                 );
 
-                return;
+                return None;
             } else {
                 panic!("collinear points not supported");
             }
@@ -898,15 +916,14 @@ impl Sweeper<'_> {
         if o1 == o2 {
             // need to decide if we are rotating cw or ccw to get to a triangle
             // that will cross edge
-            let triangle_id = if o1.is_cw() {
+            Some(if o1.is_cw() {
                 triangle.neighbor_ccw(p)
             } else {
                 triangle.neighbor_cw(p)
-            };
-
-            self.edge_event_process(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
+            })
         } else {
             self.flip_edge_event(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
+            None
         }
     }
 }
-- 
2.43.0


From ab3740735c49d52c57ad7d1de5164992d3e6066e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:39 +0000
Subject: [PATCH 10/11] fix: stack overflows when an edge event fills or flips
 past many points

The fill, flip, flip scan and basin steps recursed once per node or triangle. In builds
without optimization the stack overflows when a long edge crosses some ten thousand
triangles or passes above as many nodes of the front.
---
 src/sweeper.rs | 204 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 166 insertions(+), 38 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index 5e4e2a6..738e6bd 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -622,7 +622,17 @@ impl Sweeper<'_> {
         edge: &ConstrainedEdge,
         node_id: NodeId,
         observer: &mut dyn Observer,
-    ) -> Option<()> {
+    ) {
+        while self.fill_right_below_step(edge, node_id, observer) == Some(true) {}
+    }
+
+    /// Returns `Some(true)` to be called again
+    fn fill_right_below_step(
+        &mut self,
+        edge: &ConstrainedEdge,
+        node_id: NodeId,
+        observer: &mut dyn Observer,
+    ) -> Option<bool> {
         if node_id.point().x >= edge.p.x {
             return None;
         }
@@ -640,19 +650,29 @@ impl Sweeper<'_> {
             self.fill_right_convex_edge_event(edge, node_id, observer)?;
 
             // retry this one
-            self.fill_right_below_edge_event(edge, node_id, observer);
+            return Some(true);
         }
 
-        Some(())
+        Some(false)
     }
 
-    /// recursively fill concave nodes
+    /// fill concave nodes
     fn fill_right_concave_edge_event(
         &mut self,
         edge: &ConstrainedEdge,
         node_id: NodeId,
         observer: &mut dyn Observer,
     ) {
+        while self.fill_right_concave_step(edge, node_id, observer) {}
+    }
+
+    /// Returns whether to be called again
+    fn fill_right_concave_step(
+        &mut self,
+        edge: &ConstrainedEdge,
+        node_id: NodeId,
+        observer: &mut dyn Observer,
+    ) -> bool {
         let next_id = {
             let next_node = self.advancing_front.locate_next_node(node_id).unwrap();
             let next_id = next_node.get_node_id();
@@ -673,12 +693,14 @@ impl Sweeper<'_> {
                 //  below
                 if orient_2d(node_id.point(), next_id.point(), next_next_node.point()).is_ccw() {
                     // next is concave
-                    self.fill_right_concave_edge_event(edge, node_id, observer);
+                    return true;
                 } else {
                     // next is convex
                 }
             }
         }
+
+        false
     }
 
     // if nothing changed, returns None
@@ -686,9 +708,23 @@ impl Sweeper<'_> {
     fn fill_right_convex_edge_event(
         &mut self,
         edge: &ConstrainedEdge,
-        node_id: NodeId,
+        mut node_id: NodeId,
         observer: &mut dyn Observer,
     ) -> Option<()> {
+        while let Some(next_id) = self.fill_right_convex_step(edge, node_id, observer)? {
+            node_id = next_id;
+        }
+
+        Some(())
+    }
+
+    /// Returns the node to continue with
+    fn fill_right_convex_step(
+        &mut self,
+        edge: &ConstrainedEdge,
+        node_id: NodeId,
+        observer: &mut dyn Observer,
+    ) -> Option<Option<NodeId>> {
         let next_node = self.advancing_front.locate_next_node(node_id).unwrap();
         let next_next_node = next_node.next().unwrap();
         let next_next_next_node = next_next_node.next()?;
@@ -707,13 +743,13 @@ impl Sweeper<'_> {
             // next above or below edge?
             if orient_2d(edge.q, next_next_node.point(), edge.p).is_ccw() {
                 // Below
-                self.fill_right_convex_edge_event(edge, next_node.get_node_id(), observer)?;
+                return Some(Some(next_node.get_node_id()));
             } else {
                 // Above
             }
         }
 
-        Some(())
+        Some(None)
     }
 
     fn fill_left_above_edge_event(
@@ -742,7 +778,17 @@ impl Sweeper<'_> {
         edge: &ConstrainedEdge,
         node_id: NodeId,
         observer: &mut dyn Observer,
-    ) -> Option<()> {
+    ) {
+        while self.fill_left_below_step(edge, node_id, observer) == Some(true) {}
+    }
+
+    /// Returns `Some(true)` to be called again
+    fn fill_left_below_step(
+        &mut self,
+        edge: &ConstrainedEdge,
+        node_id: NodeId,
+        observer: &mut dyn Observer,
+    ) -> Option<bool> {
         if node_id.point().x > edge.p.x {
             let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
             let prev_prev_node = prev_node.prev().unwrap();
@@ -753,9 +799,9 @@ impl Sweeper<'_> {
                 self.fill_left_convex_edge_event(edge, node_id, observer)?;
 
                 // retry this one
-                self.fill_left_below_edge_event(edge, node_id, observer);
+                return Some(true);
             }
-            Some(())
+            Some(false)
         } else {
             None
         }
@@ -766,9 +812,23 @@ impl Sweeper<'_> {
     fn fill_left_convex_edge_event(
         &mut self,
         edge: &ConstrainedEdge,
-        node_id: NodeId,
+        mut node_id: NodeId,
         observer: &mut dyn Observer,
     ) -> Option<()> {
+        while let Some(next_id) = self.fill_left_convex_step(edge, node_id, observer)? {
+            node_id = next_id;
+        }
+
+        Some(())
+    }
+
+    /// Returns the node to continue with
+    fn fill_left_convex_step(
+        &mut self,
+        edge: &ConstrainedEdge,
+        node_id: NodeId,
+        observer: &mut dyn Observer,
+    ) -> Option<Option<NodeId>> {
         // next concave or convex?
         let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
         let prev_prev_node = prev_node.prev().unwrap();
@@ -788,12 +848,12 @@ impl Sweeper<'_> {
             // next above or below edge?
             if orient_2d(edge.q, prev_prev_node.point(), edge.p).is_cw() {
                 // below
-                self.fill_left_convex_edge_event(edge, prev_node.get_node_id(), observer)?;
+                return Some(Some(prev_node.get_node_id()));
             } else {
                 // above
             }
         }
-        Some(())
+        Some(None)
     }
 
     fn fill_left_concave_edge_event(
@@ -802,6 +862,16 @@ impl Sweeper<'_> {
         node_id: NodeId,
         observer: &mut dyn Observer,
     ) {
+        while self.fill_left_concave_step(edge, node_id, observer) {}
+    }
+
+    /// Returns whether to be called again
+    fn fill_left_concave_step(
+        &mut self,
+        edge: &ConstrainedEdge,
+        node_id: NodeId,
+        observer: &mut dyn Observer,
+    ) -> bool {
         let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
 
         let prev_node_id = prev_node.get_node_id();
@@ -819,12 +889,14 @@ impl Sweeper<'_> {
                 let prev_prev_node = prev_node.prev().unwrap();
                 if orient_2d(node_id.point(), prev_node.point(), prev_prev_node.point()).is_cw() {
                     // next is concave
-                    self.fill_left_concave_edge_event(edge, node_id, observer);
+                    return true;
                 } else {
                     // next is convex
                 }
             }
         }
+
+        false
     }
 
     fn edge_event_process(
@@ -832,19 +904,37 @@ impl Sweeper<'_> {
         ep: PointId,
         eq: PointId,
         constrain_edge: &ConstrainedEdge,
-        mut triangle_id: TriangleId,
+        triangle_id: TriangleId,
         p: PointId,
         triangle_ids: &mut Vec<TriangleId>,
     ) {
-        // there can be any number of triangles around `p`, so this is no recursion
-        while let Some(next_triangle_id) =
-            self.edge_event_step(ep, eq, constrain_edge, triangle_id, p, triangle_ids)
-        {
-            triangle_id = next_triangle_id;
+        let first = EdgeEventStep::Process(triangle_id);
+        self.edge_event_steps(ep, eq, constrain_edge, first, p, triangle_ids);
+    }
+
+    /// There can be any number of triangles around `p` and along the edge, so this is no recursion
+    fn edge_event_steps(
+        &mut self,
+        ep: PointId,
+        eq: PointId,
+        constrain_edge: &ConstrainedEdge,
+        first: EdgeEventStep,
+        p: PointId,
+        triangle_ids: &mut Vec<TriangleId>,
+    ) {
+        let mut next = Some(first);
+        while let Some(step) = next {
+            next = match step {
+                EdgeEventStep::Process(t) => {
+                    self.edge_event_step(ep, eq, constrain_edge, t, p, triangle_ids)
+                }
+                EdgeEventStep::Flip(t) => {
+                    self.flip_edge_event_step(ep, eq, constrain_edge, t, p, triangle_ids)
+                }
+            };
         }
     }
 
-    /// Returns the triangle to continue with when `triangle_id` does not cross the edge
     fn edge_event_step(
         &mut self,
         ep: PointId,
@@ -853,7 +943,7 @@ impl Sweeper<'_> {
         triangle_id: TriangleId,
         p: PointId,
         triangle_ids: &mut Vec<TriangleId>,
-    ) -> Option<TriangleId> {
+    ) -> Option<EdgeEventStep> {
         assert!(!triangle_id.invalid());
 
         if self.try_mark_edge_for_triangle(ep, eq, triangle_id) {
@@ -916,21 +1006,28 @@ impl Sweeper<'_> {
         if o1 == o2 {
             // need to decide if we are rotating cw or ccw to get to a triangle
             // that will cross edge
-            Some(if o1.is_cw() {
+            let triangle_id = if o1.is_cw() {
                 triangle.neighbor_ccw(p)
             } else {
                 triangle.neighbor_cw(p)
-            })
+            };
+
+            Some(EdgeEventStep::Process(triangle_id))
         } else {
-            self.flip_edge_event(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
-            None
+            Some(EdgeEventStep::Flip(triangle_id))
         }
     }
 }
 
+/// What an edge event continues with
+enum EdgeEventStep {
+    Process(TriangleId),
+    Flip(TriangleId),
+}
+
 /// flip edge related methods
 impl Sweeper<'_> {
-    fn flip_edge_event(
+    fn flip_edge_event_step(
         &mut self,
         ep: PointId,
         eq: PointId,
@@ -938,7 +1035,7 @@ impl Sweeper<'_> {
         triangle_id: TriangleId,
         p: PointId,
         legalize_queue: &mut Vec<TriangleId>,
-    ) {
+    ) -> Option<EdgeEventStep> {
         let t = triangle_id.get(&self.triangles);
         let ot_id = t.neighbor_across(p);
         let ot = ot_id.get(&self.triangles);
@@ -968,6 +1065,8 @@ impl Sweeper<'_> {
                         .get_mut_unchecked(ot_id)
                         .set_constrained_for_edge(ep, eq);
                 }
+
+                None
             } else {
                 let o = orient_2d(
                     eq.get(&self.points),
@@ -976,12 +1075,12 @@ impl Sweeper<'_> {
                 );
 
                 let t = Self::next_flip_triangle(o, triangle_id, ot_id, legalize_queue);
-                self.flip_edge_event(ep, eq, edge, t, p, legalize_queue);
+                Some(EdgeEventStep::Flip(t))
             }
         } else {
             let new_p = self.next_flip_point(ep, eq, ot_id, op);
             self.flip_scan_edge_event(ep, eq, edge, triangle_id, ot_id, new_p, legalize_queue);
-            self.edge_event_process(ep, eq, edge, triangle_id, p, legalize_queue);
+            Some(EdgeEventStep::Process(triangle_id))
         }
     }
 
@@ -1032,6 +1131,25 @@ impl Sweeper<'_> {
     }
 
     fn flip_scan_edge_event(
+        &mut self,
+        ep: PointId,
+        eq: PointId,
+        edge: &ConstrainedEdge,
+        flip_triangle_id: TriangleId,
+        mut t_id: TriangleId,
+        mut p: PointId,
+        triangle_ids: &mut Vec<TriangleId>,
+    ) {
+        while let Some((ot, new_p)) =
+            self.flip_scan_edge_event_step(ep, eq, edge, flip_triangle_id, t_id, p, triangle_ids)
+        {
+            t_id = ot;
+            p = new_p;
+        }
+    }
+
+    /// Returns the triangle and the point to continue with
+    fn flip_scan_edge_event_step(
         &mut self,
         ep: PointId,
         eq: PointId,
@@ -1040,7 +1158,7 @@ impl Sweeper<'_> {
         t_id: TriangleId,
         p: PointId,
         triangle_ids: &mut Vec<TriangleId>,
-    ) {
+    ) -> Option<(TriangleId, PointId)> {
         let t = t_id.get(&self.triangles);
         let ot = t.neighbor_across(p);
         if ot.invalid() {
@@ -1059,7 +1177,8 @@ impl Sweeper<'_> {
             op.get(&self.points),
         ) {
             // flip with new edge op -> eq
-            self.flip_edge_event(eq, op, edge, ot, op, triangle_ids);
+            let first = EdgeEventStep::Flip(ot);
+            self.edge_event_steps(eq, op, edge, first, op, triangle_ids);
 
             // original comment:
             // TODO: Actually I just figured out that it should be possible to
@@ -1069,9 +1188,11 @@ impl Sweeper<'_> {
             // also need to set a new flip_triangle first
             // Turns out at first glance that this is somewhat complicated
             // so it will have to wait.
+
+            None
         } else {
             let new_p = self.next_flip_point(ep, eq, ot, op);
-            self.flip_scan_edge_event(ep, eq, edge, flip_triangle_id, ot, new_p, triangle_ids);
+            Some((ot, new_p))
         }
     }
 }
@@ -1189,12 +1310,19 @@ impl Sweeper<'_> {
         Some(())
     }
 
-    fn fill_basin_req(
+    fn fill_basin_req(&mut self, mut node: NodeId, basin: &Basin, observer: &mut dyn Observer) {
+        while let Some(next) = self.fill_basin_step(node, basin, observer) {
+            node = next;
+        }
+    }
+
+    /// Returns the node to continue with
+    fn fill_basin_step(
         &mut self,
         node: NodeId,
         basin: &Basin,
         observer: &mut dyn Observer,
-    ) -> Option<()> {
+    ) -> Option<NodeId> {
         if basin.completed(node.point()) {
             return None;
         }
@@ -1204,7 +1332,7 @@ impl Sweeper<'_> {
         let next = fill_one.next;
 
         if prev.point().eq(&basin.left) && next.point().eq(&basin.right) {
-            return Some(());
+            return None;
         }
 
         let new_node = if prev.point().eq(&basin.left) {
@@ -1232,7 +1360,7 @@ impl Sweeper<'_> {
             }
         };
 
-        self.fill_basin_req(new_node, basin, observer)
+        Some(new_node)
     }
 }
 
-- 
2.43.0


From 3755059c21f825876a420acff4c01ec2da0dd424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:11 +0000
Subject: [PATCH 11/11] fix: auxiliary points coincide with the outermost ones
 when a figure is a few units in the last place wide

---
 src/points.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/points.rs b/src/points.rs
index 3f137fb..679f149 100644
--- a/src/points.rs
+++ b/src/points.rs
@@ -163,6 +163,9 @@ impl Points {
         let (head, tail) = {
             let dx = (xmax - xmin) * 0.3;
             let dy = (ymax - ymin) * 0.3;
+            // far from the origin this can be too little to differ from the points at all
+            let dx = dx.max(xmin.abs().max(xmax.abs()) * Float::EPSILON);
+            let dy = dy.max(ymin.abs().max(ymax.abs()) * Float::EPSILON);
 
             let head = Point::new(xmin - dx, ymin - dy);
             let head_id = PointId(points.len() as NumType);
-- 
2.43.0

