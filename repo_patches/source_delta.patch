From 467754af06af9e717c5577022719a30ecf14f634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 01/15] fix: report the touching point of opposite direction
 arcs on one circle

When two arcs of the same circle with opposite directions touch only at
the end of the first arc the touching end of the second arc is u2, but u1
(its far end) was returned.
---
 cavalier_contours/src/polyline/pline_seg_intersect.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cavalier_contours/src/polyline/pline_seg_intersect.rs b/cavalier_contours/src/polyline/pline_seg_intersect.rs
index 7433bf7..b7531da 100644
--- a/cavalier_contours/src/polyline/pline_seg_intersect.rs
+++ b/cavalier_contours/src/polyline/pline_seg_intersect.rs
@@ -464,8 +464,15 @@ where
                     OneIntersect { point: v1.pos() }
                 }
                 (false, true) => {
-                    // only touch at start of arc2
-                    OneIntersect { point: u1.pos() }
+                    // only touch at start of arc2 (arc2 is reversed, starting at u2, when the arcs do
+                    // not have the same direction)
+                    OneIntersect {
+                        point: if same_direction_arcs {
+                            u1.pos()
+                        } else {
+                            u2.pos()
+                        },
+                    }
                 }
                 (false, false) => {
                     // not just the end points touch, determine how the arcs overlap
-- 
2.43.0


From db5641af8b46016593d839c916f42047d5119ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:42 +0000
Subject: [PATCH 02/15] fix: free the polylines owned by a cavc_plinelist with
 the list

cavc_plinelist_f is documented to free the list and all polylines owned by
it, but only the vector of raw pointers was dropped (every polyline still
in the list was leaked).
---
 cavalier_contours_ffi/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours_ffi/src/lib.rs b/cavalier_contours_ffi/src/lib.rs
index 1ef075f..7b23876 100644
--- a/cavalier_contours_ffi/src/lib.rs
+++ b/cavalier_contours_ffi/src/lib.rs
@@ -1171,7 +1171,12 @@ pub unsafe extern "C" fn cavc_aabbindex_get_extents(
 #[unsafe(no_mangle)]
 pub unsafe extern "C" fn cavc_plinelist_f(plinelist: *mut cavc_plinelist) {
     if !plinelist.is_null() {
-        unsafe { drop(Box::from_raw(plinelist)) }
+        unsafe {
+            let list = Box::from_raw(plinelist);
+            for &pline in list.0.iter() {
+                cavc_pline_f(pline);
+            }
+        }
     }
 }
 
-- 
2.43.0


From 4af45f3fae18b42c820294e0bf741eae8fb33ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 03/15] fix: remove_repeat_pos keeps one vertex when all
 positions are equal

A closed polyline with all vertexes at one position was reduced to an empty
polyline (create_from_remove_repeat already guards against this).
---
 cavalier_contours/src/polyline/traits.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index b74e547..4aa5950 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -445,11 +445,13 @@ pub trait PlineSource {
                 .pos()
                 .fuzzy_eq_eps(self.at(0).pos(), pos_equal_eps)
         {
-            result
-                .get_or_insert_with(|| {
-                    Self::OutputPolyline::from_iter(self.iter_vertexes(), self.is_closed())
-                })
-                .remove_last();
+            let r = result.get_or_insert_with(|| {
+                Self::OutputPolyline::from_iter(self.iter_vertexes(), self.is_closed())
+            });
+            // keep the single vertex left when all the vertexes are at the same position
+            if r.vertex_count() >= 2 {
+                r.remove_last();
+            }
         }
 
         result
-- 
2.43.0


From ef7c5cc42893e5de8d73c9d17d0328fb4de22588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 04/15] fix: remove_redundant dropped the last vertex after
 leading repeats

With all vertexes but the last at one position the last vertex was dropped.
With leading repeats an open polyline was also processed past its end,
wrapping around to its start (which changed the bulge of an arc before the
last vertex).
---
 cavalier_contours/src/polyline/traits.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 4aa5950..213a7f9 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -548,7 +548,10 @@ pub trait PlineSource {
             v1.bulge = v2.bulge;
             // check for reaching the end of polyline
             if i >= vc {
-                break;
+                // return polyline with the only vertex
+                let mut pl = Self::OutputPolyline::with_capacity(1, self.is_closed());
+                pl.add_vertex(v1);
+                return Some(pl);
             }
             v2 = self.at(i);
             i += 1;
@@ -561,10 +564,6 @@ pub trait PlineSource {
             pl.add_vertex(v1);
             Some(pl)
         };
-        // if end is reached return polyline with the only vertex
-        if i >= vc {
-            return result;
-        }
 
         let mut v1_v2_arc: Option<(Self::Num, Vector2<Self::Num>)> = None;
         let mut v1_bulge_is_zero = v1.bulge_is_zero();
@@ -572,7 +571,8 @@ pub trait PlineSource {
         let mut v1_bulge_is_pos = v1.bulge_is_pos();
         let mut v2_bulge_is_pos = v2.bulge_is_pos();
 
-        let iter_count = if self.is_closed() { vc - 1 } else { vc - 2 };
+        // open polyline never wraps (iteration starts after any repeat positions skipped)
+        let iter_count = if self.is_closed() { vc - 1 } else { vc - i };
 
         enum RemoveRedundantCase<U>
         where
-- 
2.43.0


From b55b49afd40c5dfabc26f3fca4b966e61f9ea3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 05/15] fix: remove_redundant panicked on closed polylines
 within the epsilon

When every vertex of a closed polyline was discarded as redundant (e.g. a
triangle with an area below the epsilon) indexing the second vertex of the
result was out of bounds.
---
 cavalier_contours/src/polyline/traits.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 213a7f9..279c8f9 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -697,14 +697,19 @@ pub trait PlineSource {
             // handle wrap around middle vertex at start
             match result.as_mut() {
                 Some(pl) => {
-                    if pl
-                        .last()
-                        .unwrap()
-                        .pos()
-                        .fuzzy_eq_eps(pl.at(0).pos(), pos_equal_eps)
+                    if pl.vertex_count() >= 2
+                        && pl
+                            .last()
+                            .unwrap()
+                            .pos()
+                            .fuzzy_eq_eps(pl.at(0).pos(), pos_equal_eps)
                     {
                         pl.remove_last();
                     }
+                    // everything was within epsilon, no vertexes left to consider
+                    if pl.vertex_count() < 2 {
+                        return result;
+                    }
                 }
                 None => {
                     if self
-- 
2.43.0


From 29741ccba7c447eea2408fff9c26d2e4e9a759cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 06/15] fix: order the two intersects of arc segments along the
 second segment

---
 .../src/polyline/pline_seg_intersect.rs       | 47 +++++++------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/cavalier_contours/src/polyline/pline_seg_intersect.rs b/cavalier_contours/src/polyline/pline_seg_intersect.rs
index b7531da..5872471 100644
--- a/cavalier_contours/src/polyline/pline_seg_intersect.rs
+++ b/cavalier_contours/src/polyline/pline_seg_intersect.rs
@@ -362,35 +362,33 @@ where
                 try_add_end_point_intr(v2.pos());
             }
 
+            // return points ordered according to second segment direction
+            let two_intersects = |p1: Vector2<T>, p2: Vector2<T>| {
+                let (point1, point2) = if dist_squared(p2, u1.pos()) < dist_squared(p1, u1.pos()) {
+                    (p2, p1)
+                } else {
+                    (p1, p2)
+                };
+                TwoIntersects { point1, point2 }
+            };
+
             let pt1_in_sweep = both_arcs_sweep_point(point1);
             let pt2_in_sweep = both_arcs_sweep_point(point2);
             if pt1_in_sweep && pt2_in_sweep {
                 match (end_point_intrs[0], end_point_intrs[1]) {
-                    (None, None) => TwoIntersects { point1, point2 },
+                    (None, None) => two_intersects(point1, point2),
                     (None, Some(end_pt)) | (Some(end_pt), None) => {
                         if dist_squared(end_pt, point1) < dist_squared(end_pt, point2) {
-                            TwoIntersects {
-                                point1: end_pt,
-                                point2,
-                            }
+                            two_intersects(end_pt, point2)
                         } else {
-                            TwoIntersects {
-                                point1,
-                                point2: end_pt,
-                            }
+                            two_intersects(point1, end_pt)
                         }
                     }
                     (Some(end_pt1), Some(end_pt2)) => {
                         if dist_squared(end_pt1, point1) < dist_squared(end_pt2, point1) {
-                            TwoIntersects {
-                                point1: end_pt1,
-                                point2: end_pt2,
-                            }
+                            two_intersects(end_pt1, end_pt2)
                         } else {
-                            TwoIntersects {
-                                point1: end_pt2,
-                                point2: end_pt1,
-                            }
+                            two_intersects(end_pt2, end_pt1)
                         }
                     }
                 }
@@ -398,28 +396,19 @@ where
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => OneIntersect { point: point1 },
                     (None, Some(end_pt)) | (Some(end_pt), None) => OneIntersect { point: end_pt },
-                    (Some(end_pt1), Some(end_pt2)) => TwoIntersects {
-                        point1: end_pt1,
-                        point2: end_pt2,
-                    },
+                    (Some(end_pt1), Some(end_pt2)) => two_intersects(end_pt1, end_pt2),
                 }
             } else if pt2_in_sweep {
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => OneIntersect { point: point2 },
                     (None, Some(end_pt)) | (Some(end_pt), None) => OneIntersect { point: end_pt },
-                    (Some(end_pt1), Some(end_pt2)) => TwoIntersects {
-                        point1: end_pt1,
-                        point2: end_pt2,
-                    },
+                    (Some(end_pt1), Some(end_pt2)) => two_intersects(end_pt1, end_pt2),
                 }
             } else {
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => NoIntersect,
                     (None, Some(end_pt)) | (Some(end_pt), None) => OneIntersect { point: end_pt },
-                    (Some(end_pt1), Some(end_pt2)) => TwoIntersects {
-                        point1: end_pt1,
-                        point2: end_pt2,
-                    },
+                    (Some(end_pt1), Some(end_pt2)) => two_intersects(end_pt1, end_pt2),
                 }
             }
         }
-- 
2.43.0


From 7fd83886d90182f750cb7a093cd08240b677a7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 07/15] fix: reject points opposite to a narrow arc in the
 sweep test

---
 cavalier_contours/src/core/math/base_math.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cavalier_contours/src/core/math/base_math.rs b/cavalier_contours/src/core/math/base_math.rs
index bc71e77..64da67f 100644
--- a/cavalier_contours/src/core/math/base_math.rs
+++ b/cavalier_contours/src/core/math/base_math.rs
@@ -445,6 +445,13 @@ pub fn point_within_arc_sweep<T>(
 where
     T: Real,
 {
+    // reject points on the opposite side of the center from the arc, if the sweep angle is small
+    // then both of the fuzzy side tests accept them
+    let arc_direction = (arc_start - center) + (arc_end - center);
+    if arc_direction.dot(point - center) < -epsilon {
+        return false;
+    }
+
     if is_clockwise {
         is_right_or_coincident_eps(center, arc_start, point, epsilon)
             && is_left_or_coincident_eps(center, arc_end, point, epsilon)
-- 
2.43.0


From 05485970f5a289afd2016b85a13bc6534bf3bd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 08/15] fix: do not lose end circle intersects at the joints of
 an open offset

An intersect with the circle at an end of the input polyline a hair past
the end of a raw offset line was dropped as a false intersect, and the
next segment skipped it as an intersect at its start, so slices were lost.
---
 .../src/polyline/internal/pline_offset.rs         | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index a542f3c..6d7c959 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -934,9 +934,12 @@ fn visit_circle_intersects<P, T, F>(
 {
     let pos_equal_eps = options.pos_equal_eps;
 
-    let is_valid_line_intr = |t: T| -> bool {
-        // skip false intersects and intersects at start of seg
-        !is_false_intersect(t) && t.abs() > pos_equal_eps
+    let is_valid_line_intr = |v1: PlineVertex<T>, v2: PlineVertex<T>, t: T| -> bool {
+        // skip false intersects and intersects at start of seg, an intersect at the end of the seg
+        // must not be skipped as a false one since the next seg skips it
+        let intr = point_from_parametric(v1.pos(), v2.pos(), t);
+        !v1.pos().fuzzy_eq_eps(intr, pos_equal_eps)
+            && (!is_false_intersect(t) || v2.pos().fuzzy_eq_eps(intr, pos_equal_eps))
     };
 
     let is_valid_arc_intr = |arc_center: Vector2<T>,
@@ -977,15 +980,15 @@ fn visit_circle_intersects<P, T, F>(
             ) {
                 LineCircleIntr::NoIntersect => {}
                 LineCircleIntr::TangentIntersect { t0 } => {
-                    if is_valid_line_intr(t0) {
+                    if is_valid_line_intr(v1, v2, t0) {
                         visitor(start_index, point_from_parametric(v1.pos(), v2.pos(), t0));
                     }
                 }
                 LineCircleIntr::TwoIntersects { t0, t1 } => {
-                    if is_valid_line_intr(t0) {
+                    if is_valid_line_intr(v1, v2, t0) {
                         visitor(start_index, point_from_parametric(v1.pos(), v2.pos(), t0));
                     }
-                    if is_valid_line_intr(t1) {
+                    if is_valid_line_intr(v1, v2, t1) {
                         visitor(start_index, point_from_parametric(v1.pos(), v2.pos(), t1));
                     }
                 }
-- 
2.43.0


From 15172f0601fef072460c02945df4ab3a21a50420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 09/15] fix: judge shape offset slices by all of their segments

A slice was kept or dropped by the midpoint of its first segment alone,
which is within the epsilon of being valid if that segment is very short.
---
 cavalier_contours/src/shape_algorithms/mod.rs | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/cavalier_contours/src/shape_algorithms/mod.rs b/cavalier_contours/src/shape_algorithms/mod.rs
index e231206..97bcd7a 100644
--- a/cavalier_contours/src/shape_algorithms/mod.rs
+++ b/cavalier_contours/src/shape_algorithms/mod.rs
@@ -381,9 +381,9 @@ where
                               query_stack: &mut Vec<usize>|
          -> bool {
             let slice_view = v_data.view(offset_loop);
-            let midpoint = seg_midpoint(slice_view.at(0), slice_view.at(1));
             // loop through input polylines and check if slice is too close (skipping parent
-            // polyline since it's never too close)
+            // polyline since it's never too close), testing every segment since a slice may start
+            // with a segment so short that its midpoint is within the epsilon of being valid
             for input_loop_idx in
                 (0..(self.ccw_plines.len() + self.cw_plines.len())).filter(|i| *i != parent_idx)
             {
@@ -393,15 +393,23 @@ where
                     &self.cw_plines[input_loop_idx - self.ccw_plines.len()]
                 };
 
-                if !point_valid_for_offset(
-                    &parent_loop.polyline,
-                    offset,
-                    &parent_loop.spatial_index,
-                    midpoint,
-                    query_stack,
-                    pos_equal_eps,
-                    offset_dist_eps,
-                ) {
+                let point_valid = |point| {
+                    point_valid_for_offset(
+                        &parent_loop.polyline,
+                        offset,
+                        &parent_loop.spatial_index,
+                        point,
+                        query_stack,
+                        pos_equal_eps,
+                        offset_dist_eps,
+                    )
+                };
+
+                if !slice_view
+                    .iter_segments()
+                    .map(|(v1, v2)| seg_midpoint(v1, v2))
+                    .all(point_valid)
+                {
                     return false;
                 }
             }
-- 
2.43.0


From c5072e248a62663fe2f8afa2369c24fd1c0a9490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 10/15] verification hooks (cfg(kani)): iterator states, direct
 call in the panic guard

---
 cavalier_contours/src/polyline/traits.rs | 40 ++++++++++++++++++++++++
 cavalier_contours_ffi/src/lib.rs         |  9 ++++++
 2 files changed, 49 insertions(+)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 279c8f9..cf11ea6 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -2072,3 +2072,43 @@ where
         },
     }
 }
+
+/// Verification hooks: iterators in a given state.
+#[allow(unexpected_cfgs)]
+#[cfg(kani)]
+mod kani_hooks {
+    use super::*;
+
+    impl<'a, P: ?Sized> VertexIter<'a, P> {
+        pub fn kani_new(pline: &'a P, pos: usize, end: usize) -> Self {
+            Self { pline, pos, end }
+        }
+        pub fn kani_state(&self) -> (usize, usize) {
+            (self.pos, self.end)
+        }
+    }
+    impl<'a, P: ?Sized> SegmentIter<'a, P> {
+        pub fn kani_new(pline: &'a P, pos: usize, exhausted: bool) -> Self {
+            Self {
+                pline,
+                pos,
+                exhausted,
+            }
+        }
+        pub fn kani_state(&self) -> (usize, bool) {
+            (self.pos, self.exhausted)
+        }
+    }
+    impl PlineSegIndexIterator {
+        pub fn kani_new(pos: usize, remaining: usize, is_closed: bool) -> Self {
+            Self {
+                pos,
+                remaining,
+                is_closed,
+            }
+        }
+        pub fn kani_state(&self) -> (usize, usize, bool) {
+            (self.pos, self.remaining, self.is_closed)
+        }
+    }
+}
diff --git a/cavalier_contours_ffi/src/lib.rs b/cavalier_contours_ffi/src/lib.rs
index 7b23876..7b81982 100644
--- a/cavalier_contours_ffi/src/lib.rs
+++ b/cavalier_contours_ffi/src/lib.rs
@@ -1,5 +1,6 @@
 //! This module contains the C foreign function interface for cavalier_contours.
 #![allow(non_camel_case_types)]
+#![allow(unexpected_cfgs)] // cfg(kani) is set by the verifier
 use cavalier_contours::{
     core::math::Vector2,
     polyline::{
@@ -13,6 +14,7 @@ use std::{convert::TryFrom, panic};
 
 /// Helper macro to catch unwind and return -1 if panic was caught otherwise returns whatever the
 /// expression returned.
+#[cfg(not(kani))]
 macro_rules! ffi_catch_unwind {
     ($body: expr) => {
         match panic::catch_unwind(move || $body) {
@@ -21,6 +23,13 @@ macro_rules! ffi_catch_unwind {
         }
     };
 }
+/// Verification hook: the verifier can not compile catch_unwind, a panic is reported by it directly.
+#[cfg(kani)]
+macro_rules! ffi_catch_unwind {
+    ($body: expr) => {
+        (move || -> i32 { $body })()
+    };
+}
 
 /// Opaque type that wraps a [StaticAABB2DIndex].
 ///
-- 
2.43.0


From e6cb3e0ef52e7fd1fc164b28589dcc2049cad6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 11/15] verification hook (cfg(kani)): lint of the verifier's
 newer compiler

---
 cavalier_contours_ffi/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cavalier_contours_ffi/src/lib.rs b/cavalier_contours_ffi/src/lib.rs
index 7b81982..d9578d3 100644
--- a/cavalier_contours_ffi/src/lib.rs
+++ b/cavalier_contours_ffi/src/lib.rs
@@ -1,6 +1,7 @@
 //! This module contains the C foreign function interface for cavalier_contours.
 #![allow(non_camel_case_types)]
 #![allow(unexpected_cfgs)] // cfg(kani) is set by the verifier
+#![cfg_attr(kani, allow(dangerous_implicit_autorefs))]
 use cavalier_contours::{
     core::math::Vector2,
     polyline::{
-- 
2.43.0


From 33a7b3aff79f4a7dc3466efadecd865c5ecc5453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 12/15] fix: repeat positions left between the end and the
 start of closed polylines

The closing comparison used the last vertex of the input instead of the last
vertex kept, and removed at most one vertex, so vertexes within the epsilon
could remain next to each other (and a vertex away from the start could be
removed).
---
 cavalier_contours/src/polyline/traits.rs | 26 ++++++++++++++----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index cf11ea6..b11923c 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -438,18 +438,17 @@ pub trait PlineSource {
         }
 
         // check if is_closed and last repeats position on first
-        if self.is_closed()
-            && self
-                .last()
-                .unwrap()
-                .pos()
-                .fuzzy_eq_eps(self.at(0).pos(), pos_equal_eps)
-        {
+        if self.is_closed() && prev_pos.fuzzy_eq_eps(self.at(0).pos(), pos_equal_eps) {
             let r = result.get_or_insert_with(|| {
                 Self::OutputPolyline::from_iter(self.iter_vertexes(), self.is_closed())
             });
             // keep the single vertex left when all the vertexes are at the same position
-            if r.vertex_count() >= 2 {
+            while r.vertex_count() >= 2
+                && r.last()
+                    .unwrap()
+                    .pos()
+                    .fuzzy_eq_eps(r.at(0).pos(), pos_equal_eps)
+            {
                 r.remove_last();
             }
         }
@@ -1805,10 +1804,15 @@ pub trait PlineCreation: PlineSourceMut + Sized {
             result.add_or_replace_vertex(v, pos_equal_eps);
         }
 
-        if pline.is_closed() && result.vertex_count() >= 2 {
+        if pline.is_closed() {
             // catch last position overlapping first for closed polyline case
-            let last = result.last().unwrap();
-            if last.pos().fuzzy_eq_eps(result.at(0).pos(), pos_equal_eps) {
+            while result.vertex_count() >= 2
+                && result
+                    .last()
+                    .unwrap()
+                    .pos()
+                    .fuzzy_eq_eps(result.at(0).pos(), pos_equal_eps)
+            {
                 result.remove_last();
             }
         }
-- 
2.43.0


From c8b134593f8a6668aaf27eed178becf6c27e563d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 13/15] fix: arc intersects lost to an end point next to the
 other solution

---
 .../src/polyline/pline_seg_intersect.rs       | 74 +++++++++++++++----
 1 file changed, 58 insertions(+), 16 deletions(-)

diff --git a/cavalier_contours/src/polyline/pline_seg_intersect.rs b/cavalier_contours/src/polyline/pline_seg_intersect.rs
index 5872471..532c7b2 100644
--- a/cavalier_contours/src/polyline/pline_seg_intersect.rs
+++ b/cavalier_contours/src/polyline/pline_seg_intersect.rs
@@ -163,13 +163,33 @@ where
                     (None, None) => NoIntersect,
                     (None, Some(point)) | (Some(point), None) => {
                         // check if either end point lies on arc and substitute intersect point with
-                        // end point if so
-                        if point_lies_on_arc(p0) {
-                            OneIntersect { point: p0 }
+                        // end point if so, keeping the intersect point as well if the end point is
+                        // nearer to the other solution (just outside of the segments)
+                        let end_point = if point_lies_on_arc(p0) {
+                            p0
                         } else if point_lies_on_arc(p1) {
-                            OneIntersect { point: p1 }
+                            p1
                         } else {
-                            OneIntersect { point }
+                            return OneIntersect { point };
+                        };
+                        let other_t = if t0_point.is_none() { t0 } else { t1 };
+                        let other_point = point_from_parametric(p0, p1, other_t);
+                        if dist_squared(end_point, point) <= dist_squared(end_point, other_point) {
+                            return OneIntersect { point: end_point };
+                        }
+
+                        // return points ordered according to second segment direction
+                        let order_start = if u_is_line { p0 } else { a1.pos() };
+                        if dist_squared(point, order_start) < dist_squared(end_point, order_start) {
+                            TwoIntersects {
+                                point1: point,
+                                point2: end_point,
+                            }
+                        } else {
+                            TwoIntersects {
+                                point1: end_point,
+                                point2: point,
+                            }
                         }
                     }
                     (Some(point1), Some(point2)) => {
@@ -374,6 +394,18 @@ where
 
             let pt1_in_sweep = both_arcs_sweep_point(point1);
             let pt2_in_sweep = both_arcs_sweep_point(point2);
+
+            // end points of both arcs may lie at the same solution, don't lose the other solution
+            let two_end_points = |end_pt1: Vector2<T>, end_pt2: Vector2<T>| {
+                let at_point1 =
+                    |pt: Vector2<T>| dist_squared(pt, point1) <= dist_squared(pt, point2);
+                match (at_point1(end_pt1), at_point1(end_pt2)) {
+                    (true, true) if pt2_in_sweep => two_intersects(end_pt1, point2),
+                    (false, false) if pt1_in_sweep => two_intersects(point1, end_pt1),
+                    _ => two_intersects(end_pt1, end_pt2),
+                }
+            };
+
             if pt1_in_sweep && pt2_in_sweep {
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => two_intersects(point1, point2),
@@ -384,25 +416,35 @@ where
                             two_intersects(point1, end_pt)
                         }
                     }
-                    (Some(end_pt1), Some(end_pt2)) => {
-                        if dist_squared(end_pt1, point1) < dist_squared(end_pt2, point1) {
-                            two_intersects(end_pt1, end_pt2)
-                        } else {
-                            two_intersects(end_pt2, end_pt1)
-                        }
-                    }
+                    (Some(end_pt1), Some(end_pt2)) => two_end_points(end_pt1, end_pt2),
                 }
             } else if pt1_in_sweep {
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => OneIntersect { point: point1 },
-                    (None, Some(end_pt)) | (Some(end_pt), None) => OneIntersect { point: end_pt },
-                    (Some(end_pt1), Some(end_pt2)) => two_intersects(end_pt1, end_pt2),
+                    (None, Some(end_pt)) | (Some(end_pt), None) => {
+                        // keep the intersect if the end point is nearer to the other solution
+                        // (just outside of the arc sweeps)
+                        if dist_squared(end_pt, point1) <= dist_squared(end_pt, point2) {
+                            OneIntersect { point: end_pt }
+                        } else {
+                            two_intersects(end_pt, point1)
+                        }
+                    }
+                    (Some(end_pt1), Some(end_pt2)) => two_end_points(end_pt1, end_pt2),
                 }
             } else if pt2_in_sweep {
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => OneIntersect { point: point2 },
-                    (None, Some(end_pt)) | (Some(end_pt), None) => OneIntersect { point: end_pt },
-                    (Some(end_pt1), Some(end_pt2)) => two_intersects(end_pt1, end_pt2),
+                    (None, Some(end_pt)) | (Some(end_pt), None) => {
+                        // keep the intersect if the end point is nearer to the other solution
+                        // (just outside of the arc sweeps)
+                        if dist_squared(end_pt, point2) <= dist_squared(end_pt, point1) {
+                            OneIntersect { point: end_pt }
+                        } else {
+                            two_intersects(end_pt, point2)
+                        }
+                    }
+                    (Some(end_pt1), Some(end_pt2)) => two_end_points(end_pt1, end_pt2),
                 }
             } else {
                 match (end_point_intrs[0], end_point_intrs[1]) {
-- 
2.43.0


From db8330d1b6ea4d56c0a0bd14e593e83dafbbf803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:56 +0000
Subject: [PATCH 14/15] fix: whole parallel offset taken as valid when only its
 start point touches the valid region

---
 .../src/polyline/internal/pline_offset.rs     | 64 +++++++++++++------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index 6d7c959..b9cc208 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -687,6 +687,26 @@ where
     point_valid
 }
 
+/// Points to test if a raw offset polyline without any intersects is valid: the start point and the
+/// midpoint of the longest segment. The start point alone is not enough, it may only be touching the
+/// valid region when the offset is about to collapse.
+fn whole_offset_test_points<R, T>(raw_offset_polyline: &R) -> impl Iterator<Item = Vector2<T>>
+where
+    R: PlineSource<Num = T> + ?Sized,
+    T: Real,
+{
+    let longest_seg_midpoint = raw_offset_polyline
+        .iter_segments()
+        .max_by(|(v1, v2), (u1, u2)| {
+            let dist1 = dist_squared(v1.pos(), v2.pos());
+            let dist2 = dist_squared(u1.pos(), u2.pos());
+            dist1.total_cmp(&dist2)
+        })
+        .map(|(v1, v2)| seg_midpoint(v1, v2));
+
+    std::iter::once(raw_offset_polyline.at(0).pos()).chain(longest_seg_midpoint)
+}
+
 pub fn slices_from_raw_offset<P, R, T>(
     original_polyline: &P,
     raw_offset_polyline: &R,
@@ -718,16 +738,18 @@ where
 
     let mut query_stack = Vec::new();
     if self_intrs.is_empty() {
-        // no self intersects, test point on polyline is valid
-        if !point_valid_for_offset(
-            original_polyline,
-            offset,
-            orig_polyline_index,
-            raw_offset_polyline.at(0).pos(),
-            &mut query_stack,
-            pos_equal_eps,
-            offset_dist_eps,
-        ) {
+        // no self intersects, test points on polyline are valid
+        if whole_offset_test_points(raw_offset_polyline).any(|point| {
+            !point_valid_for_offset(
+                original_polyline,
+                offset,
+                orig_polyline_index,
+                point,
+                &mut query_stack,
+                pos_equal_eps,
+                offset_dist_eps,
+            )
+        }) {
             // not valid
             return result;
         }
@@ -1106,16 +1128,18 @@ where
     let mut query_stack = Vec::with_capacity(8);
 
     if intersects_lookup.is_empty() {
-        // test a point on raw offset polyline
-        if !point_valid_for_offset(
-            original_polyline,
-            offset,
-            orig_polyline_index,
-            raw_offset_polyline.at(0).pos(),
-            &mut query_stack,
-            pos_equal_eps,
-            offset_dist_eps,
-        ) {
+        // test points on raw offset polyline
+        if whole_offset_test_points(raw_offset_polyline).any(|point| {
+            !point_valid_for_offset(
+                original_polyline,
+                offset,
+                orig_polyline_index,
+                point,
+                &mut query_stack,
+                pos_equal_eps,
+                offset_dist_eps,
+            )
+        }) {
             return result;
         }
 
-- 
2.43.0


From 565cffebdb3c7e8087d035d32e0b0b47c266e569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:39 +0000
Subject: [PATCH 15/15] fix: parallel offset collapsed to a single vertex

---
 cavalier_contours/src/polyline/internal/pline_offset.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index b9cc208..4622428 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -1384,6 +1384,11 @@ where
         {
             pline.set_is_closed(true);
             pline.remove_last();
+
+            if pline.vertex_count() < 2 {
+                // slice collapsed to a point
+                return result;
+            }
         }
 
         result.push(pline);
-- 
2.43.0

