From 91b633b1409d3589525c5f6a0e2b4169ff57b150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 01/95] fix: AABB_Lookup.closest_candidates must not return
 removed objects

Slots of removed objects were reported as candidates once no box was left, and objects
at distance equal to the bound were dropped.
---
 src/bgem/polygons/aabb_lookup.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bgem/polygons/aabb_lookup.py b/src/bgem/polygons/aabb_lookup.py
index ea788f6..60670e2 100644
--- a/src/bgem/polygons/aabb_lookup.py
+++ b/src/bgem/polygons/aabb_lookup.py
@@ -74,7 +74,10 @@ class AABB_Lookup:
         boxes = self.boxes[:self.n_boxes, :]
         if boxes.shape[0] == 0 :
             return []
-        inf_dists = np.max(np.maximum(self.boxes[:, 0:2] - point, point - self.boxes[:, 2:4]), axis=1)
+        inf_dists = np.max(np.maximum(boxes[:, 0:2] - point, point - boxes[:, 2:4]), axis=1)
+        present = boxes[:, 0] < self.inf    # skip slots of removed objects
+        if not np.any(present):
+            return []
         if np.amin(inf_dists) > 0.0:
             # closest box not containing the point
             i_closest = np.argmin(inf_dists)
@@ -89,7 +92,7 @@ class AABB_Lookup:
         #except:
         #    pass
         l2_max = np.sqrt(2) * l_inf_max
-        return np.where(inf_dists < l2_max)[0]
+        return np.where(np.logical_and(present, inf_dists <= l2_max))[0]
 
 
     def intersect_candidates(self, box):
-- 
2.43.0


From 2ec3c9651ddc36be10fd5150fd7ff9ceb1fb7c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 02/95] fix: splitting a hole with a dendrite must not set the
 hole wire as its own parent

---
 src/bgem/polygons/decomp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bgem/polygons/decomp.py b/src/bgem/polygons/decomp.py
index 4562395..e20da88 100644
--- a/src/bgem/polygons/decomp.py
+++ b/src/bgem/polygons/decomp.py
@@ -520,7 +520,10 @@ class Decomposition:
             # possible wires in the new inner_wire bubble
             for seg, side in inner_wire.segments():
                 side_wire = seg.wire[1-side]
-                assert side_wire == inner_wire or inner_wire.contains_wire(side_wire)
+                if side_wire == inner_wire:
+                    # dendrite of the inner wire
+                    continue
+                assert inner_wire.contains_wire(side_wire)
                 side_wire.set_parent(inner_wire)
 
             #self._update_wire_parents(orig_parent, outer_wire, inner_wire)
-- 
2.43.0


From bdac6a81429102d92c85db87dfb7ac39503b2f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 03/95] fix: update direction vector and lookup box of the
 segment kept by join of segments

Undo of a segment split left a stale direction vector and a stale lookup box.
---
 src/bgem/polygons/decomp.py   | 1 +
 src/bgem/polygons/polygons.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/bgem/polygons/decomp.py b/src/bgem/polygons/decomp.py
index e20da88..cc58635 100644
--- a/src/bgem/polygons/decomp.py
+++ b/src/bgem/polygons/decomp.py
@@ -320,6 +320,7 @@ class Decomposition:
         seg0.next[seg_side_next] = (seg0, seg_side_prev)
 
         seg0.vtxs[seg0_in_vtx] = seg1.vtxs[seg1_in_vtx]
+        seg0.update_vector()
         if b_seg1_insert is None:
             assert seg0.is_dendrite()
             seg0.connect_free_vtx(seg0_in_vtx, seg0.wire[out_vtx])
diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 79ae31a..3d1f765 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -678,6 +678,9 @@ class PolygonDecomposition:
         seg1 = self.segments[seg1.id]
         self.segments_lookup.rm_object(seg1.id)
         self.decomp.join_segments(mid_pt, seg0, seg1)
+        self.segments_lookup.add_object(seg0.id,
+                                        aabb_lookup.make_aabb([seg0.vtxs[0].xy, seg0.vtxs[1].xy],
+                                                              margin=self.tolerance))
         yield "Join segments", mid_pt
 
         self._split_segment(seg0, mid_pt)
-- 
2.43.0


From 543adbb892a622ed4edd399aec4fb4c9d1247288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 04/95] fix: undo of point and segment removal restores
 attributes

---
 src/bgem/polygons/polygons.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 3d1f765..faceb1d 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -648,16 +648,21 @@ class PolygonDecomposition:
         self.decomp.remove_free_point(pt)
         yield "Remove point"
 
-        self._add_point(pt.xy, pt.poly)
+        restored_pt = self._add_point(pt.xy, pt.poly)
+        restored_pt.attr = pt.attr
 
     @undo.undoable
     def _rm_segment(self, seg):
         seg = self.segments[seg.id]
         self.segments_lookup.rm_object(seg.id)
+        poly_attrs = [(poly.id, poly.attr) for poly in seg.polygons()]
         self.decomp.delete_segment(seg)
         yield "Remove segment"
 
-        self._add_segment(seg.vtxs[0], seg.vtxs[1])
+        restored_seg = self._add_segment(seg.vtxs[0], seg.vtxs[1])
+        restored_seg.attr = seg.attr
+        for poly_id, attr in poly_attrs:
+            self.polygons[poly_id].attr = attr
 
     @undo.undoable
     def _split_segment(self, seg, mid_pt):
-- 
2.43.0


From 048125acd9e13efa752d5e2e6aef24c5f412033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 05/95] fix: undo of adding an existing segment must not delete
 it

---
 src/bgem/polygons/polygons.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index faceb1d..5cd7171 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -635,11 +635,15 @@ class PolygonDecomposition:
     def _add_segment(self, a_pt, b_pt):
         a_pt = self.points[a_pt.id]
         b_pt = self.points[b_pt.id]
+        n_segments = len(self.segments)
         seg = self.decomp.new_segment(a_pt, b_pt)
+        is_new = len(self.segments) > n_segments
         self.segments_lookup.add_object(seg.id, aabb_lookup.make_aabb([a_pt.xy, b_pt.xy], margin=self.tolerance))
         yield "Add segment", seg
 
-        self._rm_segment(seg)
+        # do not remove a segment that had existed before the action
+        if is_new:
+            self._rm_segment(seg)
 
     @undo.undoable
     def _rm_point(self, pt):
-- 
2.43.0


From 9e6e5ebc4e6cc6510b076f4ad3b1499bd9a207e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 06/95] fix: merge_points works for segments without the
 boundary attribute and for joined points

Also do not modify vertices of the removed segment, these are necessary for undo.
---
 src/bgem/polygons/polygons.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 5cd7171..65c836a 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -516,14 +516,16 @@ class PolygonDecomposition:
         b_diff = (a.xy - b.xy) #/2
         #a_can_move = self.check_displacment([a],  a_diff)
         b_can_move = self.check_displacment([b],  b_diff)
-        b_can_move = b_can_move and not b.segment[0].attr.boundary
+        if not b.is_free():
+            b_can_move = b_can_move and not getattr(b.segment[0].attr, 'boundary', False)
         if b_can_move:
             #a.move(a_diff)
             for seg, b_idx in list(b.segments()):
-                seg_vtxs = seg.vtxs
+                seg_vtxs = list(seg.vtxs)   # a copy, undo of the removal needs the original end points
                 self._rm_segment(seg)
                 seg_vtxs[b_idx] = a
-                self._add_segment(*seg_vtxs)
+                if seg_vtxs[0] != seg_vtxs[1]:
+                    self._add_segment(*seg_vtxs)
             self._rm_point(b)
             return a
         else:
-- 
2.43.0


From 9f054305315e0b0c0614efdb76bbc3e420bdf430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 07/95] fix: add_line has to snap to free points lying on the
 new line

---
 src/bgem/polygons/polygons.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 65c836a..99b2a35 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -480,6 +480,8 @@ class PolygonDecomposition:
         box = aabb_lookup.make_aabb([a_pt.xy, b_pt.xy], margin=self.tolerance)
         candidates = self.segments_lookup.intersect_candidates(box)
         candidate_pt = {pt for seg_id in candidates for pt in self.segments[seg_id].vtxs}
+        # free points are not reachable through segments
+        candidate_pt |= {self.points[pt_id] for pt_id in self.points_lookup.intersect_candidates(box)}
         candidate_pt = candidate_pt.difference(omit)
         # new line close to existing vertices, snap to them
         for pt in candidate_pt:
-- 
2.43.0


From 9f5c91e0834a2630d9ad8b6248101c2ee55cc4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 08/95] fix: move_points updates lookup boxes of the moved
 points and segments

---
 src/bgem/polygons/polygons.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 99b2a35..c345b3e 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -253,6 +253,13 @@ class PolygonDecomposition:
         """
         for pt in points:
             pt.move(displacement)
+        # keep lookup boxes consistent with the new positions
+        for pt in points:
+            self.points_lookup.add_object(pt.id, aabb_lookup.make_aabb([pt.xy], margin=self.tolerance))
+            for seg, side in pt.segments():
+                self.segments_lookup.add_object(seg.id,
+                                                aabb_lookup.make_aabb([seg.vtxs[0].xy, seg.vtxs[1].xy],
+                                                                      margin=self.tolerance))
 
 
     def get_last_polygon_changes(self):
-- 
2.43.0


From 2ef23d5b2e3b4a8c86533bfc81006dfe4bd4008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 09/95] fix: check_displacment detects sweeping over points and
 considers free points

A moving segment could pass over a fixed or other moving point and a free point could
leave its polygon without a detected collision.
---
 src/bgem/polygons/polygons.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index c345b3e..52ac3d4 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -202,6 +202,8 @@ class PolygonDecomposition:
         moving_segs = set()
         changed_polygons = set()
         for pt in points:
+            if pt.is_free():
+                changed_polygons.add(pt.poly)
             for seg, side in pt.segments():
                 changed_polygons.add(seg.wire[out_vtx].polygon)
                 changed_polygons.add(seg.wire[in_vtx].polygon)
@@ -241,8 +243,37 @@ class PolygonDecomposition:
                 if t0 is not None:
                     return False
 
+        # Check that moving segments do not sweep over other points.
+        fixed_points = {pt for e_seg in envelope for pt in e_seg.vtxs}
+        fixed_points |= {pt for seg, side in moving_segs for pt in seg.vtxs}
+        for poly in changed_polygons:
+            fixed_points |= poly.free_points
+        fixed_points -= set(points)
+        for (seg, side) in moving_segs:
+            a, b = seg.vtxs[side].xy, seg.vtxs[1 - side].xy
+            triangles = [(a, a + displacement, b)]
+            if (seg, 1 - side) in moving_segs:
+                triangles.append((a + displacement, b + displacement, b))
+            elif any(self._in_triangle(pt.xy, (a, b, b - displacement)) for pt in points):
+                # rotating segment sweeps over a moving point
+                return False
+            for pt in fixed_points:
+                if any(self._in_triangle(pt.xy, triangle) for triangle in triangles):
+                    return False
+
         return True
 
+    @staticmethod
+    def _in_triangle(point, triangle):
+        """
+        Check that the point is strictly inside of the triangle.
+        """
+        orientation = []
+        for i in range(3):
+            u, v = triangle[i - 1], triangle[i]
+            orientation.append((v[0] - u[0]) * (point[1] - u[1]) - (v[1] - u[1]) * (point[0] - u[0]))
+        return min(orientation) > 0 or max(orientation) < 0
+
     def move_points(self, points, displacement):
         """
         Move given points by given displacement vector. Assumes no intersections. But possible
-- 
2.43.0


From 1d26a22cbebb1ef078ed04e1d05caac84d1f0015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 10/95] fix: merge of decompositions with lines through
 existing points and with isolated polygons

Lines of the other decomposition passing through existing points were not split there and
polygons not adjacent through the outer boundary were missing in the polygon map.
---
 src/bgem/polygons/merge.py    | 19 ++++++++++++++-----
 src/bgem/polygons/polygons.py | 19 +++++++++++++++++++
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/bgem/polygons/merge.py b/src/bgem/polygons/merge.py
index 944a682..8cd598b 100644
--- a/src/bgem/polygons/merge.py
+++ b/src/bgem/polygons/merge.py
@@ -91,10 +91,17 @@ def intersect_single(decomp, other, merge_tol = 1e-10):
         other_point_map[pt.id] = new_pt.id
         #maps_self[0].setdefault(new_pt.id, new_pt.id)
 
-    for seg in other.segments.values():
-        new_a_pt, new_b_pt = [decomp.points[other_point_map[pt.id]] for pt in seg.vtxs]
-        if new_a_pt == new_b_pt:
-            continue
+    def other_lines():
+        # Lines of 'other' split by already existing points.
+        for seg in other.segments.values():
+            new_a_pt, new_b_pt = [decomp.points[other_point_map[pt.id]] for pt in seg.vtxs]
+            if new_a_pt == new_b_pt:
+                continue
+            line_points = decomp._line_points(new_a_pt, new_b_pt)
+            for line_a_pt, line_b_pt in zip(line_points[:-1], line_points[1:]):
+                yield seg, line_a_pt, line_b_pt
+
+    for seg, new_a_pt, new_b_pt in other_lines():
         other_right_poly, other_left_poly = seg.polygons()
         # print(decomp)
         # print('add line {} {}'.format(a, b))
@@ -130,13 +137,15 @@ def intersect_single(decomp, other, merge_tol = 1e-10):
     # Fill remaining maps_other[2] items using DFS
     for poly_id in decomp.polygons.keys():
         maps_other[2].setdefault(poly_id, None)
+    maps_other[2][decomp.outer_polygon.id] = other.outer_polygon.id
     for new_poly, other_poly in list(maps_other[2].items()):
         if other_poly != None:
             stack = [new_poly]
             while stack:
                 p_id = stack.pop(-1)
                 maps_other[2][p_id] = other_poly
-                for seg, side in decomp.polygons[p_id].outer_wire.segments():
+                outer_wire = decomp.polygons[p_id].outer_wire
+                for seg, side in (item for wire in [outer_wire, *outer_wire.childs] for item in wire.segments()):
                     ngh_poly = seg.wire[1 - side].polygon
                     if maps_other[2][ngh_poly.id] is None:
                         stack.append(ngh_poly.id)
diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 52ac3d4..0d8f05c 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -626,6 +626,25 @@ class PolygonDecomposition:
                 line_division[t1] = (mid_pt, seg, new_seg)
         return line_division
 
+    def _line_points(self, a_pt, b_pt):
+        """
+        Existing points closer than tolerance to the line.
+        :param a_pt, b_pt: End points of the line.
+        :return: List of points ordered from a_pt to b_pt, including these end points.
+        """
+        box = aabb_lookup.make_aabb([a_pt.xy, b_pt.xy], margin=self.tolerance)
+        vector = b_pt.xy - a_pt.xy
+        line_points = []
+        for pt_id in self.points_lookup.intersect_candidates(box):
+            pt = self.points[pt_id]
+            if pt == a_pt or pt == b_pt:
+                continue
+            t = self.seg_project_point(vector, a_pt.xy, pt.xy)
+            if self.pt_dist(pt, a_pt.xy + t * vector) < self.tolerance:
+                line_points.append((t, pt))
+        line_points.sort(key=lambda item: item[0])
+        return [a_pt] + [pt for t, pt in line_points] + [b_pt]
+
     def _add_line_new_segments(self, a_pt, b_pt, line_div):
         """
         Generator for added new segments of the new line.
-- 
2.43.0


From 8b40308d75978b7d8e684b4f14847e2e553fbaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 11/95] fix: make_wire_from_segments for wires starting at a
 tip of a dendrite

---
 src/bgem/polygons/polygons.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 0d8f05c..02cb576 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -857,12 +857,9 @@ class PolygonDecomposition:
 
         # detect orientation of the first segment
         last_seg = self.decomp.segments[seg_ids[0]]
-        seg1 = self.decomp.segments[seg_ids[1]]
         last_side = out_vtx
-        vtx0_side = seg1.point_side(last_seg.vtxs[last_side])
-        if vtx0_side is None:
+        if not self._is_closed_wire(seg_ids, last_side):
             last_side = in_vtx
-            assert seg1.point_side(last_seg.vtxs[last_side]) is not None, "Can not connect segments: {} {}".format(last_seg, seg1)
         start_seg_side = (last_seg, last_side)
 
         # set segment sides along the wire
@@ -880,6 +877,21 @@ class PolygonDecomposition:
         wire.polygon = polygon
         return wire
 
+    def _is_closed_wire(self, seg_ids, first_side):
+        """
+        Check that segments form a closed wire if the first one is passed to its vertex 'first_side'.
+        The first two segments are not enough to decide as the wire may start at the tip of a dendrite.
+        """
+        first_seg = self.decomp.segments[seg_ids[0]]
+        last_pt = first_seg.vtxs[first_side]
+        for id in seg_ids[1:]:
+            seg = self.decomp.segments[id]
+            side = seg.point_side(last_pt)
+            if side is None:
+                return False
+            last_pt = seg.vtxs[1 - side]
+        return last_pt == first_seg.vtxs[1 - first_side]
+
     def make_polygon(self, outer_segments, holes, free_points):
         """
         Used in  deep_copy and deserialize.
-- 
2.43.0


From 38e8c9ecf53c609a7387409257963a4929835742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 12/95] fix: redocount must count redos

---
 src/bgem/undo.py | 650 +++++++++++++++++++++++------------------------
 1 file changed, 325 insertions(+), 325 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index d1ca510..7d2bcae 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -1,325 +1,325 @@
-#!/usr/bin/env python3
-# -*- coding: utf-8 -*-
-#
-# Copyright (c) 2011 David Townshend
-#
-# This program is free software; you can redistribute it and/or modify it
-# under the terms of the GNU General Public License as published by the
-# Free Software Foundation; either version 2 of the License, or (at your
-# option) any later version.
-#
-# This program is distributed in the hope that it will be useful, but
-# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
-# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
-# for more details.
-#
-# You should have received a copy of the GNU General Public License along
-# with this program; if not, write to the Free Software Foundation, Inc.,
-# 675 Mass Ave, Cambridge, MA 02139, USA.
-
-__version__ = '0.5.1'
-__author__ = 'David Townshend'
-
-__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
-
-import contextlib
-
-from collections import deque
-
-class _Action:
-    ''' This represents an action which can be done and undone.
-    
-    It is the result of a call on an undoable function and has
-    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
-    returned by the internal call in ``do()`` is the value which will 
-    subsequently be returned by ``text``.  Any remaining values are 
-    returned by ``do()``.
-    '''
-    def __init__(self, generator, args, kwargs):
-        self._generator = generator
-        self.args = args
-        self.kwargs = kwargs
-        self._text = ''
-
-    def do(self):
-        'Do or redo the action'
-        self._runner = self._generator(*self.args, **self.kwargs)
-        rets = next(self._runner)
-        if isinstance(rets, tuple):
-            self._text = rets[0]
-            return rets[1:]
-        elif rets is None:
-            self._text = ''
-            return None
-        else:
-            self._text = rets
-            return None
-
-    def undo(self):
-        'Undo the action'
-        try:
-            next(self._runner)
-        except StopIteration:
-            pass
-        # Delete it so that its not accidentally called again
-        del self._runner
-
-    def text(self):
-        'Return the descriptive text of the action'
-        return self._text
-
-
-def undoable(generator):
-    ''' Decorator which creates a new undoable action type. 
-    
-    This decorator should be used on a generator of the following format::
-    
-        @undoable
-        def operation(*args):
-            do_operation_code
-            yield 'descriptive text'
-            undo_operator_code
-    '''
-    def inner(*args, **kwargs):
-        action = _Action(generator, args, kwargs)
-        ret = action.do()
-        stack().append(action)
-        if isinstance(ret, tuple):
-            if len(ret) == 1:
-                return ret[0]
-            elif len(ret) == 0:
-                return None
-        return ret
-    return inner
-
-
-class _Group:
-    ''' A undoable group context manager. '''
-
-    def __init__(self, desc):
-        self._desc = desc
-        self._stack = []
-
-    def __enter__(self):
-        stack().setreceiver(self._stack)
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_type is None:
-            stack().resetreceiver()
-            stack().append(self)
-        return False
-
-    def undo(self):
-        for undoable in reversed(self._stack):
-            undoable.undo()
-
-    def do(self):
-        for undoable in self._stack:
-            undoable.do()
-
-    def text(self):
-        return self._desc.format(count=len(self._stack))
-
-
-def group(desc):
-    ''' Return a context manager for grouping undoable actions. 
-    
-    All actions which occur within the group will be undone by a single call
-    of `stack.undo`, e.g.
-    
-    >>> @undoable
-    ... def operation(n):
-    ...     yield
-    ...     print(n)
-    >>> with group('text'):
-    ...     for n in range(3):
-    ...         operation(n)
-    >>> operation(3)
-    >>> stack().undo()
-    3
-    >>> stack().undo()
-    2
-    1
-    0
-    '''
-    return _Group(desc)
-
-
-class Stack:
-    ''' The main undo stack. 
-        
-    The two key features are the :func:`redo` and :func:`undo` methods. If an 
-    exception occurs during doing or undoing a undoable, the undoable
-    aborts and the stack is cleared to avoid any further data corruption. 
-    
-    The stack provides two properties for tracking actions: *docallback* 
-    and *undocallback*. Each of these allow a callback function to be set
-    which is called when an action is done or undone repectively. By default, 
-    they do nothing.
-    
-    >>> def done():
-    ...     print('Can now undo: {}'.format(stack().undotext()))
-    >>> def undone():
-    ...     print('Can now redo: {}'.format(stack().redotext()))
-    >>> stack().docallback = done
-    >>> stack().undocallback = undone
-    >>> @undoable
-    ... def action():
-    ...     yield 'An action'
-    >>> action()
-    Can now undo: Undo An action
-    >>> stack().undo()
-    Can now redo: Redo An action
-    >>> stack().redo()
-    Can now undo: Undo An action
-    
-    Setting them back to ``lambda: None`` will stop any further actions.
-    
-    >>> stack().docallback = stack().undocallback = lambda: None
-    >>> action()
-    >>> stack().undo()
-    
-    It is possible to mark a point in the undo history when the document
-    handled is saved. This allows the undo system to report whether a 
-    document has changed. The point is marked using :func:`savepoint` and
-    :func:`haschanged` returns whether or not the state has changed (either
-    by doing or undoing an action). Only one savepoint can be tracked,
-    marking a new one removes the old one.
-    
-    >>> stack().savepoint()
-    >>> stack().haschanged()
-    False
-    >>> action()
-    >>> stack().haschanged()
-    True
-    '''
-
-    def __init__(self):
-        self._undos = deque()
-        self._redos = deque()
-        self._receiver = self._undos
-        self._savepoint = None
-        self.undocallback = lambda: None
-        self.docallback = lambda: None
-
-    def canundo(self):
-        ''' Return *True* if undos are available '''
-        return len(self._undos) > 0
-
-    def canredo(self):
-        ''' Return *True* if redos are available '''
-        return len(self._redos) > 0
-
-    def redo(self):
-        ''' Redo the last undone action. 
-        
-        This is only possible if no other actions have occurred since the 
-        last undo call.
-        '''
-        if self.canredo():
-            undoable = self._redos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.do()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._undos.append(undoable)
-            self.docallback()
-
-    def undo(self):
-        ''' Undo the last action. '''
-        if self.canundo():
-            undoable = self._undos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.undo()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._redos.append(undoable)
-            self.undocallback()
-
-    def clear(self):
-        ''' Clear the undo list. '''
-        self._undos.clear()
-        self._redos.clear()
-        self._savepoint = None
-        self._receiver = self._undos
-
-    def undocount(self):
-        ''' Return the number of undos available. '''
-        return len(self._undos)
-
-    def redocount(self):
-        ''' Return the number of redos available. '''
-        return len(self._undos)
-
-    def undotext(self):
-        ''' Return a description of the next available undo. '''
-        if self.canundo():
-            return ('Undo ' + self._undos[-1].text()).strip()
-
-    def redotext(self):
-        ''' Return a description of the next available redo. '''
-        if self.canredo():
-            return ('Redo ' + self._redos[-1].text()).strip()
-
-    @contextlib.contextmanager
-    def _pausereceiver(self):
-        ''' Return a contect manager which temporarily pauses the receiver. '''
-        self.setreceiver([])
-        yield
-        self.resetreceiver()
-
-    def setreceiver(self, receiver=None):
-        ''' Set an object to receiver commands pushed onto the stack.
-        
-        By default it is the internal stack, but it can be set (usually
-        internally) to any object with an *append()* method.
-        '''
-        assert hasattr(receiver, 'append')
-        self._receiver = receiver
-
-    def resetreceiver(self):
-        ''' Reset the receiver to the internal stack.'''
-        self._receiver = self._undos
-
-    def append(self, action):
-        ''' Add a undoable to the stack, using ``receiver.append()``. '''
-        if self._receiver is not None:
-            self._receiver.append(action)
-        if self._receiver is self._undos:
-            self._redos.clear()
-            self.docallback()
-
-    def savepoint(self):
-        ''' Set the savepoint. '''
-        self._savepoint = self.undocount()
-
-    def haschanged(self):
-        ''' Return *True* if the state has changed since the savepoint. 
-        
-        This will always return *True* if the savepoint has not been set.
-        '''
-        return self._savepoint is None or self._savepoint != self.undocount()
-
-
-_stack = None
-
-def stack():
-    ''' Return the currently used stack.
-    
-    If no stack has been set, a new one is created and set.
-    '''
-    global _stack
-    if _stack is None:
-        _stack = Stack()
-    return _stack
-
-def setstack(stack):
-    ''' Set the undo stack to a specific `Stack` object.'''
-    global _stack
-    _stack = stack
+#!/usr/bin/env python3
+# -*- coding: utf-8 -*-
+#
+# Copyright (c) 2011 David Townshend
+#
+# This program is free software; you can redistribute it and/or modify it
+# under the terms of the GNU General Public License as published by the
+# Free Software Foundation; either version 2 of the License, or (at your
+# option) any later version.
+#
+# This program is distributed in the hope that it will be useful, but
+# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
+# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
+# for more details.
+#
+# You should have received a copy of the GNU General Public License along
+# with this program; if not, write to the Free Software Foundation, Inc.,
+# 675 Mass Ave, Cambridge, MA 02139, USA.
+
+__version__ = '0.5.1'
+__author__ = 'David Townshend'
+
+__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
+
+import contextlib
+
+from collections import deque
+
+class _Action:
+    ''' This represents an action which can be done and undone.
+    
+    It is the result of a call on an undoable function and has
+    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
+    returned by the internal call in ``do()`` is the value which will 
+    subsequently be returned by ``text``.  Any remaining values are 
+    returned by ``do()``.
+    '''
+    def __init__(self, generator, args, kwargs):
+        self._generator = generator
+        self.args = args
+        self.kwargs = kwargs
+        self._text = ''
+
+    def do(self):
+        'Do or redo the action'
+        self._runner = self._generator(*self.args, **self.kwargs)
+        rets = next(self._runner)
+        if isinstance(rets, tuple):
+            self._text = rets[0]
+            return rets[1:]
+        elif rets is None:
+            self._text = ''
+            return None
+        else:
+            self._text = rets
+            return None
+
+    def undo(self):
+        'Undo the action'
+        try:
+            next(self._runner)
+        except StopIteration:
+            pass
+        # Delete it so that its not accidentally called again
+        del self._runner
+
+    def text(self):
+        'Return the descriptive text of the action'
+        return self._text
+
+
+def undoable(generator):
+    ''' Decorator which creates a new undoable action type. 
+    
+    This decorator should be used on a generator of the following format::
+    
+        @undoable
+        def operation(*args):
+            do_operation_code
+            yield 'descriptive text'
+            undo_operator_code
+    '''
+    def inner(*args, **kwargs):
+        action = _Action(generator, args, kwargs)
+        ret = action.do()
+        stack().append(action)
+        if isinstance(ret, tuple):
+            if len(ret) == 1:
+                return ret[0]
+            elif len(ret) == 0:
+                return None
+        return ret
+    return inner
+
+
+class _Group:
+    ''' A undoable group context manager. '''
+
+    def __init__(self, desc):
+        self._desc = desc
+        self._stack = []
+
+    def __enter__(self):
+        stack().setreceiver(self._stack)
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        if exc_type is None:
+            stack().resetreceiver()
+            stack().append(self)
+        return False
+
+    def undo(self):
+        for undoable in reversed(self._stack):
+            undoable.undo()
+
+    def do(self):
+        for undoable in self._stack:
+            undoable.do()
+
+    def text(self):
+        return self._desc.format(count=len(self._stack))
+
+
+def group(desc):
+    ''' Return a context manager for grouping undoable actions. 
+    
+    All actions which occur within the group will be undone by a single call
+    of `stack.undo`, e.g.
+    
+    >>> @undoable
+    ... def operation(n):
+    ...     yield
+    ...     print(n)
+    >>> with group('text'):
+    ...     for n in range(3):
+    ...         operation(n)
+    >>> operation(3)
+    >>> stack().undo()
+    3
+    >>> stack().undo()
+    2
+    1
+    0
+    '''
+    return _Group(desc)
+
+
+class Stack:
+    ''' The main undo stack. 
+        
+    The two key features are the :func:`redo` and :func:`undo` methods. If an 
+    exception occurs during doing or undoing a undoable, the undoable
+    aborts and the stack is cleared to avoid any further data corruption. 
+    
+    The stack provides two properties for tracking actions: *docallback* 
+    and *undocallback*. Each of these allow a callback function to be set
+    which is called when an action is done or undone repectively. By default, 
+    they do nothing.
+    
+    >>> def done():
+    ...     print('Can now undo: {}'.format(stack().undotext()))
+    >>> def undone():
+    ...     print('Can now redo: {}'.format(stack().redotext()))
+    >>> stack().docallback = done
+    >>> stack().undocallback = undone
+    >>> @undoable
+    ... def action():
+    ...     yield 'An action'
+    >>> action()
+    Can now undo: Undo An action
+    >>> stack().undo()
+    Can now redo: Redo An action
+    >>> stack().redo()
+    Can now undo: Undo An action
+    
+    Setting them back to ``lambda: None`` will stop any further actions.
+    
+    >>> stack().docallback = stack().undocallback = lambda: None
+    >>> action()
+    >>> stack().undo()
+    
+    It is possible to mark a point in the undo history when the document
+    handled is saved. This allows the undo system to report whether a 
+    document has changed. The point is marked using :func:`savepoint` and
+    :func:`haschanged` returns whether or not the state has changed (either
+    by doing or undoing an action). Only one savepoint can be tracked,
+    marking a new one removes the old one.
+    
+    >>> stack().savepoint()
+    >>> stack().haschanged()
+    False
+    >>> action()
+    >>> stack().haschanged()
+    True
+    '''
+
+    def __init__(self):
+        self._undos = deque()
+        self._redos = deque()
+        self._receiver = self._undos
+        self._savepoint = None
+        self.undocallback = lambda: None
+        self.docallback = lambda: None
+
+    def canundo(self):
+        ''' Return *True* if undos are available '''
+        return len(self._undos) > 0
+
+    def canredo(self):
+        ''' Return *True* if redos are available '''
+        return len(self._redos) > 0
+
+    def redo(self):
+        ''' Redo the last undone action. 
+        
+        This is only possible if no other actions have occurred since the 
+        last undo call.
+        '''
+        if self.canredo():
+            undoable = self._redos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.do()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._undos.append(undoable)
+            self.docallback()
+
+    def undo(self):
+        ''' Undo the last action. '''
+        if self.canundo():
+            undoable = self._undos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.undo()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._redos.append(undoable)
+            self.undocallback()
+
+    def clear(self):
+        ''' Clear the undo list. '''
+        self._undos.clear()
+        self._redos.clear()
+        self._savepoint = None
+        self._receiver = self._undos
+
+    def undocount(self):
+        ''' Return the number of undos available. '''
+        return len(self._undos)
+
+    def redocount(self):
+        ''' Return the number of redos available. '''
+        return len(self._redos)
+
+    def undotext(self):
+        ''' Return a description of the next available undo. '''
+        if self.canundo():
+            return ('Undo ' + self._undos[-1].text()).strip()
+
+    def redotext(self):
+        ''' Return a description of the next available redo. '''
+        if self.canredo():
+            return ('Redo ' + self._redos[-1].text()).strip()
+
+    @contextlib.contextmanager
+    def _pausereceiver(self):
+        ''' Return a contect manager which temporarily pauses the receiver. '''
+        self.setreceiver([])
+        yield
+        self.resetreceiver()
+
+    def setreceiver(self, receiver=None):
+        ''' Set an object to receiver commands pushed onto the stack.
+        
+        By default it is the internal stack, but it can be set (usually
+        internally) to any object with an *append()* method.
+        '''
+        assert hasattr(receiver, 'append')
+        self._receiver = receiver
+
+    def resetreceiver(self):
+        ''' Reset the receiver to the internal stack.'''
+        self._receiver = self._undos
+
+    def append(self, action):
+        ''' Add a undoable to the stack, using ``receiver.append()``. '''
+        if self._receiver is not None:
+            self._receiver.append(action)
+        if self._receiver is self._undos:
+            self._redos.clear()
+            self.docallback()
+
+    def savepoint(self):
+        ''' Set the savepoint. '''
+        self._savepoint = self.undocount()
+
+    def haschanged(self):
+        ''' Return *True* if the state has changed since the savepoint. 
+        
+        This will always return *True* if the savepoint has not been set.
+        '''
+        return self._savepoint is None or self._savepoint != self.undocount()
+
+
+_stack = None
+
+def stack():
+    ''' Return the currently used stack.
+    
+    If no stack has been set, a new one is created and set.
+    '''
+    global _stack
+    if _stack is None:
+        _stack = Stack()
+    return _stack
+
+def setstack(stack):
+    ''' Set the undo stack to a specific `Stack` object.'''
+    global _stack
+    _stack = stack
-- 
2.43.0


From e46fe5fe67ee531a7734f5ba12a3accd092e4412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 13/95] fix: undo group must restore the receiver when nested,
 disabled or left by an exception

---
 src/bgem/undo.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index 7d2bcae..e817d4d 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -101,11 +101,13 @@ class _Group:
         self._stack = []
 
     def __enter__(self):
+        self._outer_receiver = stack()._receiver
         stack().setreceiver(self._stack)
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_type is None:
-            stack().resetreceiver()
+        # Return to the outer group (or disabled recording), even after an exception.
+        stack()._receiver = self._outer_receiver
+        if exc_type is None or self._stack:
             stack().append(self)
         return False
 
-- 
2.43.0


From b9921dadd296b3388c2a57a81945a211cca0d7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 14/95] fix: undo and redo must not switch disabled recording
 on

---
 src/bgem/undo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index e817d4d..af4a221 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -272,9 +272,10 @@ class Stack:
     @contextlib.contextmanager
     def _pausereceiver(self):
         ''' Return a contect manager which temporarily pauses the receiver. '''
+        receiver = self._receiver
         self.setreceiver([])
         yield
-        self.resetreceiver()
+        self._receiver = receiver
 
     def setreceiver(self, receiver=None):
         ''' Set an object to receiver commands pushed onto the stack.
-- 
2.43.0


From aa04e5fcf2f18739a631739d8b0e6972673b8c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 15/95] fix: state saved in an abandoned redo branch is not the
 current state

---
 src/bgem/undo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index af4a221..8052dc5 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -296,6 +296,8 @@ class Stack:
             self._receiver.append(action)
         if self._receiver is self._undos:
             self._redos.clear()
+            if self._savepoint is not None and self._savepoint >= self.undocount():
+                self._savepoint = None  # saved state is no more reachable
             self.docallback()
 
     def savepoint(self):
-- 
2.43.0


From cd09c672de3f575d500f4ce14013f180fb8dc0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 16/95] fix: make_equidistant must not truncate inner knots for
 an integer knot range

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 89a67be..abe520e 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -37,7 +37,7 @@ class SplineBasis:
         :return: SplineBasis object.
         """
         n = n_intervals + 2 * degree + 1
-        knots = np.array((knot_range[0],) * n)
+        knots = np.array((knot_range[0],) * n, dtype=float)
         diff = (knot_range[1] - knot_range[0]) / n_intervals
         for i in range(degree + 1, n - degree):
             knots[i] = (i - degree) * diff + knot_range[0]
-- 
2.43.0


From baeaf25b6eb5b485404b27835ba8ab747e4c0b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 17/95] fix: make_linear_poles for a domain not starting at
 zero

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index abe520e..ead5b5f 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -235,7 +235,7 @@ class SplineBasis:
         Return poles of basis functions to get a f(x) = x.
         :return:
         """
-        poles= [ 0.0 ]
+        poles= [ self.domain[0] ]
         for i in range(self.size-1):
             pp = poles[-1] + (self.knots[i + self.degree + 1] - self.knots[i  + 1]) / float(self.degree)
             poles.append(pp)
-- 
2.43.0


From 378351b0bf09872824afebda4369c075432d6927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 18/95] fix: derivative of basis functions of degree zero

---
 src/bgem/bspline/bspline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index ead5b5f..d17e45c 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -214,6 +214,8 @@ class SplineBasis:
         assert 0 <= i_base < self.size
         deg = self.degree
         i = i_base
+        if deg == 0:
+            return 0.0
         if i_base == self.size - 2 and t == self.domain[1]:
             return - deg  / (self.knots[i + deg + 1] - self.knots[i + 1])
 
-- 
2.43.0


From 63a4491652c33b63db82d76261f88cd73a132404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 19/95] fix: rational curves and surfaces from poles given as
 lists

---
 src/bgem/bspline/bspline.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index d17e45c..795f450 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -383,8 +383,8 @@ class Curve:
 
         if rational:
             # precomputations
-            self._weights = poles[:, self.dim]
-            self._poles = (poles[:, 0:self.dim].T * self._weights ).T
+            self._weights = self.poles[:, self.dim]
+            self._poles = (self.poles[:, 0:self.dim].T * self._weights ).T
 
         # BIH tree
         self._boxes = None
@@ -515,8 +515,8 @@ class Surface:
         # Rational surface indicator.
         if rational:
             # precomputations
-            self._weights = poles[:, :, self.dim]
-            self._poles = (poles[:, :, 0:self.dim].T * self._weights.T ).T
+            self._weights = self.poles[:, :, self.dim]
+            self._poles = (self.poles[:, :, 0:self.dim].T * self._weights.T ).T
 
     @property
     def u_basis(self):
-- 
2.43.0


From 49d3dd2229ecc0a3bca2487229cb9384dc6d9c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 20/95] fix: bounding box of rational curves and surfaces
 without the weights

---
 src/bgem/bspline/bspline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 795f450..846000d 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -436,7 +436,8 @@ class Curve:
         Return Axes Aligned Bounding Box of the poles, which should be also bounding box of the curve itself.
         :return: ( min_corner, max_corner); Box corners are numpy arryas of dimension D.
         """
-        return np.array( [np.amin(self.poles, axis=0), np.amax(self.poles, axis=0)] )
+        poles = self.poles[:, 0:self.dim]
+        return np.array( [np.amin(poles, axis=0), np.amax(poles, axis=0)] )
 
     def bounding_boxes(self):
         """
@@ -587,7 +588,8 @@ class Surface:
         :return: ( min_corner, max_corner); Box corners are numpy arryas of dimension D.
         TODO: test
         """
-        return np.array( [np.amin(self.poles, axis=(0,1)), np.amax(self.poles, axis=(0,1))] )
+        poles = self.poles[:, :, 0:self.dim]
+        return np.array( [np.amin(poles, axis=(0,1)), np.amax(poles, axis=(0,1))] )
 
 
     def bounding_boxes(self):
-- 
2.43.0


From 7a68bc169858b3c124f9892384d56cd3fd765b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 21/95] fix: deep copy of a rational surface

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 846000d..2b646cf 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -571,7 +571,7 @@ class Surface:
         u_basis = copy.copy(self.u_basis)
         v_basis = copy.copy(self.v_basis)
         poles = copy.copy(self.poles)
-        return Surface( ( u_basis, v_basis), poles)
+        return Surface( ( u_basis, v_basis), poles, self.rational)
 
     def eval_array(self, uv_points):
         """
-- 
2.43.0


From 1e56200b9dc8518b643b9a9bc78306733d096367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 22/95] fix: bounding boxes of curve intervals and surface
 patches of other degree than 2

---
 src/bgem/bspline/bspline.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 2b646cf..454eadc 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -446,7 +446,8 @@ class Curve:
         :return:
         """
         tree = bih.BIH()
-        boxes = [bih.AABB(self.poles[it:it + 3, :].tolist()) for it in range(self.basis.n_intervals)]
+        dt = self.basis.degree + 1
+        boxes = [bih.AABB(self.poles[it:it + dt, 0:self.dim].tolist()) for it in range(self.basis.n_intervals)]
         tree.add_boxes(boxes)
         tree.construct()
 
@@ -601,14 +602,16 @@ class Surface:
         tree = bih.BIH()
         n_patch = self.u_basis.n_intervals * self.v_basis.n_intervals
 
-        patch_poles = np.zeros([9, 3, n_patch])
+        du = self.u_basis.degree + 1
+        dv = self.v_basis.degree + 1
+        patch_poles = np.zeros([du * dv, 3, n_patch])
         i_patch = 0
         for iu in range(self.u_basis.n_intervals):
             for iv in range(self.v_basis.n_intervals):
                 n_points = 0
-                for i in range(0, 3):
-                    for j in range(0, 3):
-                        patch_poles[n_points, :, i_patch] = self.poles[iu + i, iv + j, :]
+                for i in range(0, du):
+                    for j in range(0, dv):
+                        patch_poles[n_points, :, i_patch] = self.poles[iu + i, iv + j, 0:self.dim]
                         n_points += 1
                 assert i_patch == self.patch_pos2id(iu, iv)
                 i_patch += 1
-- 
2.43.0


From fd8532fb06c8ee7c9e24fd27e01379465aed1c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 23/95] fix: bounding box of a Z surface with negative Z scale

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 454eadc..526ac5c 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -933,7 +933,7 @@ class Z_Surface:
         xyz_box = np.empty( (2, 3) )
         xyz_box[0, 0:2] = np.amin(self.quad, axis=0)
         xyz_box[1, 0:2] = np.amax(self.quad, axis=0)
-        xyz_box[:, 2] = self._z_mat[0] * self.z_surface.aabb()[:, 0] + self._z_mat[1]
+        xyz_box[:, 2] = np.sort(self._z_mat[0] * self.z_surface.aabb()[:, 0] + self._z_mat[1])
         return xyz_box
 
 
-- 
2.43.0


From 38ea11a3a46a847d206ce6f1f2d6df9a9eaa0eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 24/95] fix: copy of a Z surface must not follow later XY
 transforms of the original

---
 src/bgem/bspline/bspline.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 526ac5c..c1651a7 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -817,7 +817,11 @@ class Z_Surface:
         bs.Surface for Z coordinates (Z poles).
         :return: A copy of the Z_Surface object.
         """
-        return copy.copy(self)
+        surf = copy.copy(self)
+        # methods of the copy, not of the original
+        surf.xy_to_uv = getattr(surf, self.xy_to_uv.__name__)
+        surf.uv_to_xy = getattr(surf, self.uv_to_xy.__name__)
+        return surf
 
 
     """
-- 
2.43.0


From 848a13f5eb20f6cfbe90d686bed357ef99b0344f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 25/95] fix: XY transform of a Z surface on a bilinear quad

---
 src/bgem/bspline/bspline.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index c1651a7..b9f18b2 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -770,10 +770,11 @@ class Z_Surface:
             assert xy_mat.shape == (2, 3)
 
             self._xy_mat = xy_mat
-            self._mat_uv_to_xy = np.dot(xy_mat[0:2,0:2], self._mat_uv_to_xy)
             quad_center = surf_center[0:2]
-            self._xy_shift = xy_mat[0:2, 2] + np.dot(xy_mat[0:2,0:2], (self._xy_shift - quad_center)) + quad_center
-            self._mat_xy_to_uv = la.inv(self._mat_uv_to_xy)
+            if self.uv_to_xy == self._linear_uv_to_xy:
+                self._mat_uv_to_xy = np.dot(xy_mat[0:2,0:2], self._mat_uv_to_xy)
+                self._xy_shift = xy_mat[0:2, 2] + np.dot(xy_mat[0:2,0:2], (self._xy_shift - quad_center)) + quad_center
+                self._mat_xy_to_uv = la.inv(self._mat_uv_to_xy)
             # transform quad
             self.quad = np.dot(self.quad - quad_center, xy_mat[0:2,0:2].T) + xy_mat[0:2, 2] + quad_center
 
-- 
2.43.0


From d3a3b59cd7a7a370abb92caf5a8818a28107796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 26/95] fix: apply_z_transform must reset the reported Z
 transform

---
 src/bgem/bspline/bspline.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index b9f18b2..e8ae248 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -808,8 +808,7 @@ class Z_Surface:
             self.z_surface = self.z_surface.deep_copy()
             self.z_surface.poles *= self._z_mat[0]
             self.z_surface.poles += self._z_mat[1]
-            self._z_mat = np.array([1.0, 0.0])
-            self._have_z_mat = False
+            self._reset_transform_z()
 
 
     def get_copy(self):
-- 
2.43.0


From c0f816937219577329edbe676174cbcc5685fb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 27/95] fix: Z evaluation of a grid surface with scaled Z must
 agree with eval_array

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index e8ae248..6cdb779 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -1167,7 +1167,7 @@ class GridSurface:
             u_loc = np.array([1 - uv_loc[0], uv_loc[0]])
             v_loc = np.array([1 - uv_loc[1], uv_loc[1]])
             Z_mat = self.grid_uvz[iu: (iu + 2), iv: (iv + 2), 2]
-            result[i] = self.z_surface.z_mat[0]*(u_loc.dot(Z_mat).dot(v_loc)) + self.z_surface.z_mat[1]
+            result[i] = self.z_surface._z_mat[0]*(u_loc.dot(Z_mat).dot(v_loc)) + self.z_surface._z_mat[1]
         return result
 
 
-- 
2.43.0


From 857ce6e4dcdf04f0af928b3180f0c9244750ac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 28/95] fix: make_function_grid must not truncate values of
 functions returning integers

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 6cdb779..8f4d673 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -1195,7 +1195,7 @@ def make_function_grid(fn, nu, nv):
     Y, X = np.meshgrid(Y_grid, X_grid)
 
     points_uv = np.stack([X.ravel(), Y.ravel()], 1)
-    Z = np.apply_along_axis(fn, 1, points_uv)
+    Z = np.array([fn(p) for p in points_uv], dtype=float)
     points = np.stack([X.ravel(), Y.ravel(), Z], 1)
 
     return points.reshape((nu, nv, 3))
-- 
2.43.0


From edcdcc167fcbb29bff64bde97541ef9b59aca6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 29/95] fix: error of a surface approximation is the max norm

---
 src/bgem/bspline/bspline_approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 4843f28..32531d9 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -461,7 +461,7 @@ class SurfaceApprox:
         logging.info('Computing error ...')
         start_time = time.time()
         diff = b_mat.dot(z_vec) - g_vec
-        self.error = max_diff = np.max(diff)
+        self.error = max_diff = np.max(np.abs(diff))
         logging.info("Approximation error (max norm): {}".format(max_diff) )
         end_time = time.time()
         logging.info('Computed in: {} s'.format(end_time - start_time))
-- 
2.43.0


From 1379994d6813cccc6adde5e7e150a6a1746930f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 30/95] fix: approximation of weighted points

---
 src/bgem/bspline/bspline_approx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 32531d9..d271cb8 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -431,8 +431,8 @@ class SurfaceApprox:
         g_vec = self._z_quad_points[:]
         if self._weights is not None:
             W = scipy.sparse.diags(self._w_quad_points, 0)
-            wg_vec = np.dot(W, g_vec)
-            wb_mat = np.dot(W, b_mat)
+            wg_vec = W.dot(g_vec)
+            wb_mat = W.dot(b_mat)
         else:
             wg_vec = g_vec
             wb_mat = b_mat
-- 
2.43.0


From 7f8b71e554b79a161856910bdf5066b87a5905d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 31/95] fix: approximation by a single patch

---
 src/bgem/bspline/bspline_approx.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index d271cb8..14191cf 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -443,9 +443,10 @@ class SurfaceApprox:
 
         logging.info('Computing A and B svds approximation ...')
         start_time = time.time()
-        bb_norm = scipy.sparse.linalg.svds(bb_mat, k=1, ncv=10, tol=1e-2, which='LM', v0=None,
+        ncv = min(10, bb_mat.shape[0] - 1)
+        bb_norm = scipy.sparse.linalg.svds(bb_mat, k=1, ncv=ncv, tol=1e-2, which='LM', v0=None,
                                            maxiter=300, return_singular_vectors=False)
-        a_norm = scipy.sparse.linalg.eigsh(a_mat, k=1, ncv=10, tol=1e-2, which='LM',
+        a_norm = scipy.sparse.linalg.eigsh(a_mat, k=1, ncv=ncv, tol=1e-2, which='LM',
                                           maxiter=300, return_eigenvectors=False)
         c_mat = bb_mat + self.regularization_weight * (bb_norm[0] / a_norm[0]) * a_mat
         end_time = time.time()
-- 
2.43.0


From e9b184669df117a85775ee832f6854c2001b80cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 32/95] fix: overhang of lines and planes with integer
 coordinates

---
 src/bgem/bspline/bspline_approx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 14191cf..9cb5b0b 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -47,7 +47,7 @@ def bilinear_surface(vtxs, overhang=0.0):
     :return: ( Surface, vtxs_uv )
     """
     assert len(vtxs) == 4, "n vtx: {}".format(len(vtxs))
-    vtxs = np.array(vtxs)
+    vtxs = np.array(vtxs, dtype=float)
     if overhang > 0.0:
         dv = np.roll(vtxs, -1, axis=0) - vtxs
         dv *= overhang
@@ -78,7 +78,7 @@ def line(vtxs, overhang = 0.0):
     :return: Curve2D
     '''
     assert len(vtxs) == 2
-    vtxs = np.array(vtxs)
+    vtxs = np.array(vtxs, dtype=float)
     if overhang > 0.0:
         dv = overhang*(vtxs[1] - vtxs[0])
         vtxs[0] -= dv
-- 
2.43.0


From 4b9723ba6cd294b79b50fab068a4ae81b67c182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 33/95] fix: quad of an approximation given as a list of points

---
 src/bgem/bspline/bspline_approx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 9cb5b0b..0eba949 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -393,6 +393,8 @@ class SurfaceApprox:
         """
 
         self.quad = kwargs.get("quad", self.quad)
+        if self.quad is not None:
+            self.quad = np.array(self.quad, dtype=float)
         self.nuv = kwargs.get("nuv", self.nuv)
         self.regularization_weight = kwargs.get("regularization_weight", self.regularization_weight)
 
-- 
2.43.0


From 645d26afc96216445ddf0b1355d0a96f39cf8f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 34/95] fix: infinite recursion of convex_hull_2d

---
 src/bgem/bspline/bspline_approx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 0eba949..21bb8b8 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -152,6 +152,9 @@ def convex_hull_2d(sample):
         # Distances from the line.
         dists = np.dot(sample-h, normal)
 
+        # ends of the base may be outer due to rounding
+        base_points = np.all(sample == h, axis=1) | np.all(sample == t, axis=1)
+        dists[base_points] = 0.0
         outer = np.repeat(sample, dists>0, 0)
         if len(outer):
             pivot = sample[np.argmax(dists)]
-- 
2.43.0


From b60069648e3be421dffa5895534db13306b5e6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 35/95] fix: writing of shapes that were already indexed by an
 earlier write or repr

---
 src/bgem/bspline/brep_writer.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 7deb770..f85592d 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -56,6 +56,16 @@ def check_matrix(mat, shape, values, idx=[]):
         raise ParamError(e)
 
 
+def is_new(item, groups):
+    '''
+    True for the first call with given item and groups, i.e. for an item not numbered yet in the current indexing.
+    IDs from an earlier indexing (by repr or an other written model) are not valid anymore.
+    '''
+    new = id(item) not in groups['visited']
+    groups['visited'].add(id(item))
+    return new
+
+
 class Location:
     """
     Location defines an affine transformation in 3D space. Corresponds to the <location data 1> in the BREP file.
@@ -84,7 +94,8 @@ class Location:
         :param groups: dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[])
         :return: None
         """
-        if not hasattr(self, 'id'):
+        # identity location has fixed ID=0
+        if getattr(self, 'id', None) != 0 and is_new(self, groups):
             id=len(groups['locations'])+1
             self.id = id
             groups['locations'].append(self)
@@ -194,7 +205,7 @@ class Curve3D:
 
 
     def _dfs(self, groups):
-        if not hasattr(self, 'id'):
+        if is_new(self, groups):
             id = len(groups['curves_3d']) + 1
             self.id = id
             groups['curves_3d'].append(self)
@@ -249,7 +260,7 @@ class Curve2D:
 
 
     def _dfs(self, groups):
-        if not hasattr(self, 'id'):
+        if is_new(self, groups):
             id = len(groups['curves_2d']) + 1
             self.id = id
             groups['curves_2d'].append(self)
@@ -331,7 +342,7 @@ class Surface:
 
 
     def _dfs(self, groups):
-        if not hasattr(self, 'id'):
+        if is_new(self, groups):
             id = len(groups['surfaces']) + 1
             self.id = id
             groups['surfaces'].append(self)
@@ -601,7 +612,7 @@ class Shape:
         :param groups: dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[])
         :return: None
         """
-        if hasattr(self, 'id'):
+        if not is_new(self, groups):
             return
         for sub_ref in self.childs:
             sub_ref.location._dfs(groups)
@@ -643,7 +654,7 @@ class Shape:
         # print("Index")
         # print(compound.__class__.__name__) #prints class name
 
-        groups = dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[])
+        groups = dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[], visited=set())
         self._dfs(groups)  # pridej jako parametr dictionary listu jednotlivych grup. v listech primo objekty
         location._dfs(groups)
         # print(groups)
-- 
2.43.0


From 130ae645888314788e420d40b0158d7ff74e24d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 36/95] fix: Approx.plane must not modify the list of the
 caller

---
 src/bgem/bspline/brep_writer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index f85592d..35474ba 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -386,7 +386,6 @@ class Approx:
         :return: ( Surface, vtxs_uv )
         """
         assert len(vtxs) == 3, "n vtx: {}".format(len(vtxs))
-        vtxs.append( (0,0,0) )
         vtxs = np.array(vtxs)
         vv = vtxs[1] + vtxs[2] - vtxs[0]
         vtx4 = [ vtxs[0], vtxs[1], vv, vtxs[2]]
-- 
2.43.0


From b3dd7e438de6231acf512e44a8925b4bef4daf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 37/95] fix: reference to a shape shared by more parents

---
 src/bgem/bspline/brep_writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 35474ba..2901217 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -587,7 +587,8 @@ class Shape:
             shape_ref=ShapeRef(shape_ref)
         if not isinstance(shape_ref.shape, tuple(self.sub_types)):
             raise ParamError("Wrong child type: {}, allowed: {}".format(type(shape_ref.shape), self.sub_types))
-        self.childs.append(shape_ref)
+        # own copy, the orientation may be overwritten
+        self.childs.append(ShapeRef(shape_ref.shape, shape_ref.orientation, shape_ref.location))
 
     #def _convert_to_shaperefs(self, childs):
 
-- 
2.43.0


From 5bdbce1549ba6bd50ec1a2d5c7bc9c49635309c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 38/95] fix: location of the written model was ignored

---
 src/bgem/bspline/brep_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 2901217..c0b577d 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -1096,7 +1096,7 @@ def write_model(stream, compound, location):
         #print("# {} id: {} childs: {}\n".format(shape.shpname, shape.id,
         #                                        [ch.id for ch in shape.subshapes()]))
         shape._brep_output(stream, groups)
-    stream.write("\n+1 0")
+    stream.write("\n+1 {}".format(location.id))
     #stream.write("0\n")
 
 
-- 
2.43.0


From 888eb85e6c61468c6ac4df22609ae934f6eaf3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 39/95] fix: intersections of a curve and a surface, wrong
 names of attributes

---
 src/bgem/bspline/curve_point.py     | 8 ++++----
 src/bgem/bspline/isec_curve_surf.py | 7 +++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/bgem/bspline/curve_point.py b/src/bgem/bspline/curve_point.py
index 544f68d..879860b 100644
--- a/src/bgem/bspline/curve_point.py
+++ b/src/bgem/bspline/curve_point.py
@@ -20,7 +20,7 @@ class CurvePoint:
 
         self.interface_flag = 0
         self.boundary_flag = 0
-        self._curve_boundary_intersection()
+        self.curve_boundary_intersection()
         self.extend_patches()
 
     def extend_patches(self):
@@ -29,7 +29,7 @@ class CurvePoint:
         :return:
         """
 
-        if np.logical_and(self.curve_boundary_flag == 0, self.interface_flag != 0):
+        if np.logical_and(self.boundary_flag == 0, self.interface_flag != 0):
             it = self.it[0] + self.interface_flag
             self.it.append(it)
 
@@ -48,8 +48,8 @@ class CurvePoint:
 
         """
 
-        t0 = self.surf.basis.knots[self.it[0] + 2]
-        t1 = self.surf.basis.knots[self.it[0] + 3]
+        t0 = self.curv.basis.knots[self.it[0] + 2]
+        t1 = self.curv.basis.knots[self.it[0] + 3]
 
         if abs(t0 - self.t) == 0:
             self.interface_flag = -1
diff --git a/src/bgem/bspline/isec_curve_surf.py b/src/bgem/bspline/isec_curve_surf.py
index cb276d7..fc8d19f 100644
--- a/src/bgem/bspline/isec_curve_surf.py
+++ b/src/bgem/bspline/isec_curve_surf.py
@@ -10,9 +10,12 @@ class IsecCurveSurf:
     Class which provides intersection of the given surface and curve
     """
 
-    def __init__(self, surf, curv):
+    def __init__(self, surf, curv, max_it=10, rel_tol=1e-16, abs_tol=1e-14):
         self.surf = surf
         self.curv = curv
+        self.max_it = max_it
+        self.rel_tol = rel_tol
+        self.abs_tol = abs_tol
 
     def _compute_jacobian_and_coordinates(self, uvt, iuvt):
         """
@@ -130,7 +133,7 @@ class IsecCurveSurf:
 
                     if curv_point.interface_flag != 0:
                         ind = it + int(0.5 * (curv_point.interface_flag + 1))
-                        crossing[tuple(ind)] = 1
+                        crossing[ind] = 1
 
         return point_list
 
-- 
2.43.0


From 48eea3d437177e1a19c62b4e4d2a07eae25f0aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:38 +0000
Subject: [PATCH 40/95] fix: evaluation of a Z surface in a single point

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 8f4d673..01ea345 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -868,7 +868,7 @@ class Z_Surface:
         :param u, v: Evaluation point.
         :return: D-dimensional numpy array. D - is dimension given by dimension of poles.
         """
-        z = self.z_surface.eval(u, v)
+        z = self.z_surface.eval(u, v)[0]
         z = self._z_mat[0] * z + self._z_mat[1]
         uv_points = np.array([[u, v]])
         x, y = self.uv_to_xy( uv_points )[0]
-- 
2.43.0


From 2373461c096971d808d6f436b913fc1209cb8499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 41/95] fix: points on the border of the quad dropped from
 approximation due to rounding

---
 src/bgem/bspline/bspline_approx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 21bb8b8..581dd7f 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -515,8 +515,8 @@ class SurfaceApprox:
         mat_xy_to_uv = la.inv(mat_uv_to_xy)
         points_uv = np.dot((self._xy_points - xy_shift), mat_xy_to_uv.T)
 
-        # remove points far from unit square
-        eps = 1.0e-15
+        # remove points far from unit square, keep points out of it just due to rounding
+        eps = 1.0e-10
         cut_min = np.array( [ -eps, -eps ])
         cut_max = np.array( [ 1+eps, 1+eps ])
         in_idx = np.all(np.logical_and(cut_min < points_uv,  points_uv <= cut_max), axis=1)
-- 
2.43.0


From 647ab0da6e293028cb807cbd29f9e4ef6049f775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:03 +0000
Subject: [PATCH 42/95] fix: convex hull of points on a vertical line

---
 src/bgem/bspline/bspline_approx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 581dd7f..afed29e 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -164,9 +164,9 @@ def convex_hull_2d(sample):
             return base
 
     if len(sample) > 2:
-        axis = sample[:,0]
-        # Get left most and right most points.
-        base = np.take(sample, [np.argmin(axis), np.argmax(axis)], 0)
+        # Get left most and right most points (the lowest and the highest one of them).
+        order = np.lexsort((sample[:,1], sample[:,0]))
+        base = np.take(sample, [order[0], order[-1]], 0)
         return link(dome(sample, base), dome(sample, base[::-1]))
     else:
         return sample
-- 
2.43.0


From 1f1efaede4140c11f7908f9a37ad1ba2f34e3031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:17 +0000
Subject: [PATCH 43/95] fix: intersection with a curve parallel to the surface
 is not an error

---
 src/bgem/bspline/isec_curve_surf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/isec_curve_surf.py b/src/bgem/bspline/isec_curve_surf.py
index fc8d19f..87a284b 100644
--- a/src/bgem/bspline/isec_curve_surf.py
+++ b/src/bgem/bspline/isec_curve_surf.py
@@ -87,7 +87,11 @@ class IsecCurveSurf:
                 break
 
             delta_xyz = delta_xyz.flatten()
-            uvt = uvt - la.solve(J, delta_xyz)
+            try:
+                uvt = uvt - la.solve(J, delta_xyz)
+            except la.LinAlgError:
+                # curve parallel to the surface, no isolated intersection
+                break
             uvt = np.maximum(uvt, min_bounds)
             uvt = np.minimum(uvt, max_bounds)
 
-- 
2.43.0


From df1a35f2c88dc7a10f19c224692d1b6830501aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:09 +0000
Subject: [PATCH 44/95] fix: identity within a composed location broke the BREP
 file

---
 src/bgem/bspline/brep_writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index c0b577d..467b155 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -134,7 +134,9 @@ class ComposedLocation(Location):
     def _brep_output(self, stream, groups):
         stream.write("2 ")
         for loc, pow in self.location_powers:
-            stream.write("{} {} ".format(loc.id, pow))
+            # zero terminates the list, skip identity
+            if loc.id != 0:
+                stream.write("{} {} ".format(loc.id, pow))
         stream.write("0\n")
 
 def check_knots(deg, knots, N):
-- 
2.43.0


From 2636bc8120e2681aac9dbccac4a2eddad86074bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 45/95] fix: equal composed locations are merged by OCC when
 reading the file, give them a single ID

---
 src/bgem/bspline/brep_writer.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 467b155..fd92b08 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -95,11 +95,22 @@ class Location:
         :return: None
         """
         # identity location has fixed ID=0
-        if getattr(self, 'id', None) != 0 and is_new(self, groups):
+        if self.factors() and is_new(self, groups):
+            # OCC merges equal locations when it reads the file, so they have to share the ID
+            for location in groups['locations']:
+                if location.factors() == self.factors():
+                    self.id = location.id
+                    return
             id=len(groups['locations'])+1
             self.id = id
             groups['locations'].append(self)
 
+    def factors(self):
+        '''
+        :return: List of [id of an elementary location, power], the location is their product. Empty for identity.
+        '''
+        return [] if self.matrix is None else [[id(self), 1]]
+
     def _brep_output(self, stream, groups):
         stream.write("1\n")
         for row in self.matrix:
@@ -123,7 +134,21 @@ class ComposedLocation(Location):
         check_matrix(pows, [ l ], int)
 
         self.location_powers=location_powers
+        if not self.factors():
+            self.id = 0
 
+    def factors(self):
+        product = []
+        for location, power in self.location_powers:
+            step = location.factors()
+            if power < 0:
+                step = [[loc, -pow] for loc, pow in reversed(step)]
+            for loc, pow in step * abs(power):
+                if product and product[-1][0] == loc:
+                    pow += product.pop()[1]
+                if pow != 0:
+                    product.append([loc, pow])
+        return product
 
     def _dfs(self, groups):
 
-- 
2.43.0


From d56fc12b80df91f0627912e0ffc0800ff0e7ab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 46/95] fix: read physical names containing spaces

---
 src/bgem/gmsh/gmsh_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 4b42ed4..e6415cb 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -121,6 +121,7 @@ class GmshIO:
             elif readmode:
                 columns = line.split()
                 if readmode == 5:
+                    columns = line.split(None, 2)
                     if len(columns) == 3:
                         self.physical[str(columns[2])] = (int(columns[1]), int(columns[0]))
 
-- 
2.43.0


From 1cbe2a7eb70d6a50018190f40092ae21df716ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 47/95] fix: read MSH 1.0 files, they have no $MeshFormat
 section

---
 src/bgem/gmsh/gmsh_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index e6415cb..9895e2b 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -97,6 +97,7 @@ class GmshIO:
             mshfile = open(self.filename, 'r')
 
         readmode = 0
+        ftype = 0
         print('Reading %s' % mshfile.name)
         line = 'a'
         while line:
-- 
2.43.0


From 01990fd8115da1250a737cf16df75ed71fbecb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 48/95] fix: read short element lines: point and line elements
 with less than two tags

---
 src/bgem/gmsh/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 9895e2b..a372b63 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -149,7 +149,7 @@ class GmshIO:
                     except ValueError as e:
                         print('Node format error: ' + line, e)
                         readmode = 0
-                elif ftype == 0 and (readmode == 2 or readmode == 3) and len(columns) > 5:
+                elif ftype == 0 and (readmode == 2 or readmode == 3) and len(columns) > 3:
                     # Version 1.0 or 2.0 Elements
                     try:
                         columns = [int(col) for col in columns]
-- 
2.43.0


From 516f9a00636dab0671c465a92aeef9219c6b81ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 49/95] fix: a blank line does not end reading of the MSH file

---
 src/bgem/gmsh/gmsh_io.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index a372b63..ae5b088 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -99,9 +99,7 @@ class GmshIO:
         readmode = 0
         ftype = 0
         print('Reading %s' % mshfile.name)
-        line = 'a'
-        while line:
-            line = mshfile.readline()
+        for line in iter(mshfile.readline, ''):
             line = line.strip()
 
             if line.startswith('$'):
-- 
2.43.0


From 6f4dddcce8d1553d8b96b4be670ba3b514e691b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 50/95] fix: write element data given by a vector of scalars

---
 src/bgem/gmsh/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index ae5b088..0fa734e 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -264,7 +264,7 @@ class GmshIO:
         """
         n_els = values.shape[0]
         n_comp = np.atleast_1d(values[0]).shape[0]
-        np.reshape(values, (n_els, n_comp))
+        values = np.reshape(values, (n_els, n_comp))
         header_dict = dict(
             field=str(name),
             time=0,
-- 
2.43.0


From 5821591bf29718d238c01d50cac35e0db7b63c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 51/95] fix: write_fields into the current mesh file

---
 src/bgem/gmsh/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 0fa734e..1793b1c 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -299,7 +299,7 @@ class GmshIO:
         :param fields: {'field_name' : values_array, ..}
         """
         if not msh_file:
-            msh_file = open(self.filename, 'w')
+            msh_file = self.filename
         with open(msh_file, "w") as fout:
             fout.write('$MeshFormat\n2.2 0 8\n$EndMeshFormat\n')
             for name, values in fields.items():
-- 
2.43.0


From e9213b9ffe61281ff41c0149df46d18c420b849c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 52/95] fix: skip blank lines within sections of the MSH file

---
 src/bgem/gmsh/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 1793b1c..c83dd1d 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -117,7 +117,7 @@ class GmshIO:
                     self.read_element_data_block(mshfile)
                 else:
                     readmode = 0
-            elif readmode:
+            elif readmode and line:
                 columns = line.split()
                 if readmode == 5:
                     columns = line.split(None, 2)
-- 
2.43.0


From 929ac710a73d975c50a366382376cbd9b28c7778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 53/95] fix: reading of binary MSH files

---
 src/bgem/gmsh/gmsh_io.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index c83dd1d..c1baf7d 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -45,27 +45,32 @@ class GmshIO:
         self.physical = {}
         self.element_data = {}
 
+    @staticmethod
+    def _read_line(mshfile):
+        line = mshfile.readline()
+        return line.decode() if isinstance(line, bytes) else line
+
     def read_element_data_head(self, mshfile):
 
-        columns = mshfile.readline().strip().split()
+        columns = self._read_line(mshfile).strip().split()
         n_str_tags = int(columns[0])
         assert (n_str_tags == 1)
-        field = mshfile.readline().strip().strip('"')
+        field = self._read_line(mshfile).strip().strip('"')
 
-        columns = mshfile.readline().strip().split()
+        columns = self._read_line(mshfile).strip().split()
         n_real_tags = int(columns[0])
         assert (n_real_tags == 1)
-        columns = mshfile.readline().strip().split()
+        columns = self._read_line(mshfile).strip().split()
         time = float(columns[0])
 
-        columns = mshfile.readline().strip().split()
+        columns = self._read_line(mshfile).strip().split()
         n_int_tags = int(columns[0])
         assert (n_int_tags == 3)
-        columns = mshfile.readline().strip().split()
+        columns = self._read_line(mshfile).strip().split()
         t_idx = int(columns[0])
-        columns = mshfile.readline().strip().split()
+        columns = self._read_line(mshfile).strip().split()
         n_comp = int(columns[0])
-        columns = mshfile.readline().strip().split()
+        columns = self._read_line(mshfile).strip().split()
         n_elem = int(columns[0])
         return field, time, t_idx, n_comp, n_elem
 
@@ -76,7 +81,7 @@ class GmshIO:
         elem_data = {}
         field_time_dict[t_idx] = (time, elem_data)
         for i in range(n_ele):
-            line = mshfile.readline()
+            line = self._read_line(mshfile)
             if line.startswith('$'):
                 raise Exception("Insufficient number of entries in the $ElementData block: {} time={}".format(field, time))
             columns = line.split()
@@ -94,12 +99,12 @@ class GmshIO:
         """
 
         if not mshfile:
-            mshfile = open(self.filename, 'r')
+            mshfile = open(self.filename, 'rb')
 
         readmode = 0
         ftype = 0
         print('Reading %s' % mshfile.name)
-        for line in iter(mshfile.readline, ''):
+        for line in iter(lambda: self._read_line(mshfile), ''):
             line = line.strip()
 
             if line.startswith('$'):
@@ -131,7 +136,7 @@ class GmshIO:
                                              int(columns[2]))
                         print(('ASCII', 'Binary')[ftype] + ' format')
                     else:
-                        endian = struct.unpack('i', columns[0])
+                        endian = struct.unpack('i', columns[0].encode())
                 if readmode == 1:
                     # Version 1.0 or 2.0 Nodes
                     try:
@@ -168,21 +173,21 @@ class GmshIO:
                         self.elements[id] = (type, tags, nodes)
                 elif readmode == 3 and ftype == 1:
                     # el_type : num of nodes per element
-                    tdict = {1: 2, 2: 3, 3: 4, 4: 4, 5: 5, 6: 6, 7: 5, 8: 3, 9: 6, 10: 9, 11: 10, 15: 1}
+                    tdict = {1: 2, 2: 3, 3: 4, 4: 4, 5: 8, 6: 6, 7: 5, 8: 3, 9: 6, 10: 9, 11: 10, 15: 1}
                     try:
                         neles = int(columns[0])
                         k = 0
                         while k < neles:
                             etype, ntype, ntags = struct.unpack('=3i',
                                                                 mshfile.read(3 * 4))
-                            k += 1
+                            k += ntype
                             for j in range(ntype):
                                 mysize = 1 + ntags + tdict[etype]
                                 data = struct.unpack('=%di' % mysize,
                                                      mshfile.read(4 * mysize))
                                 self.elements[data[0]] = (etype,
-                                                          data[1:1 + ntags],
-                                                          data[1 + ntags:])
+                                                          list(data[1:1 + ntags]),
+                                                          list(data[1 + ntags:]))
                     except:
                         raise
                     mshfile.read(1)
-- 
2.43.0


From e5fb38a2c73efaf93cf6b1d1ff12c87695518cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 54/95] fix: writing of binary MSH files

---
 src/bgem/gmsh/gmsh_io.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index c1baf7d..c559c62 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -231,17 +231,22 @@ class GmshIO:
         if not filename:
             filename = self.filename
 
-        mshfile = open(filename, 'wr')
+        mshfile = open(filename, 'wb')
 
-        mshfile.write("$MeshFormat\n2.2 1 8\n")
+        mshfile.write(b"$MeshFormat\n2.2 1 8\n")
         mshfile.write(struct.pack('@i', 1))
-        mshfile.write("\n$EndMeshFormat\n")
-        mshfile.write("$Nodes\n%d\n" % (len(self.nodes)))
+        mshfile.write(b"\n$EndMeshFormat\n")
+        mshfile.write(b"$PhysicalNames\n%d\n" % len(self.physical))
+        for name in sorted(self.physical.keys()):
+            region_id, dim = self.physical[name]
+            mshfile.write(("%d %d %s\n" % (dim, region_id, name)).encode())
+        mshfile.write(b"$EndPhysicalNames\n")
+        mshfile.write(b"$Nodes\n%d\n" % (len(self.nodes)))
         for node_id, coord in self.nodes.items():
             mshfile.write(struct.pack('@i', node_id))
             mshfile.write(struct.pack('@3d', *coord))
-        mshfile.write("\n$EndNodes\n")
-        mshfile.write("$Elements\n%d\n" % (len(self.elements)))
+        mshfile.write(b"\n$EndNodes\n")
+        mshfile.write(b"$Elements\n%d\n" % (len(self.elements)))
         for ele_id, elem in self.elements.items():
             (ele_type, tags, nodes) = elem
             mshfile.write(struct.pack('@i', ele_type))
@@ -252,7 +257,7 @@ class GmshIO:
                 mshfile.write(struct.pack('@i', c))
             for c in nodes:
                 mshfile.write(struct.pack('@i', c))
-        mshfile.write("\n$EndElements\n")
+        mshfile.write(b"\n$EndElements\n")
 
         mshfile.close()
 
-- 
2.43.0


From c5f685ebbe422e1fb231563e511807da52bc3e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 55/95] fix: size of the mesh in HealMesh was computed from
 node ids

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 67911e1..5ccfb72 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -229,7 +229,7 @@ class HealMesh:
         self.modified_elements = set()
         aabb_min = np.full(3, +np.inf)
         aabb_max = np.full(3, -np.inf)
-        for n in self.mesh.nodes:
+        for n in self.mesh.nodes.values():
             aabb_max = np.maximum(aabb_max, n)
             aabb_min = np.minimum(aabb_min, n)
         diam = np.max(aabb_max - aabb_min)
-- 
2.43.0


From 2de5368f247c79eae870189490b9d5e5362f9670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 56/95] fix: healing of a flat quad tetrahedron left hanging
 nodes on the elements around its split edges

---
 src/bgem/gmsh/heal_mesh.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 5ccfb72..507f3d6 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -760,17 +760,13 @@ class HealMesh:
 
         # split attached elements
         node_perm = pos_edge + neg_edge # canonical nodes to real nodes
-        canonical_faces = [[0, 1, 2], [0, 1, 3], [2, 3, 0], [2, 3, 1]] # first two nodes
-        for c_face in canonical_faces:
-            face = [node_perm[vtx] for vtx in c_face]
-            # split elements connected to the face
-            # intersection splits the first edge of the face
-            edge_n0_id = ele.node_ids[face[0]]
-            edge_n1_id = ele.node_ids[face[1]]
-            #print("edge nids: ", edge_n0_id, edge_n1_id)
-
-            # active elements connected to the face
-            for el_id in self.common_elements([ele.node_ids[loc_node] for loc_node in face], max=2):
+        canonical_edges = [[0, 1], [2, 3]]
+        for c_edge in canonical_edges:
+            # split all elements connected to the edge, not only those sharing a face with the flat element
+            edge_n0_id, edge_n1_id = [ele.node_ids[node_perm[vtx]] for vtx in c_edge]
+
+            # active elements connected to the edge
+            for el_id in self.common_elements([edge_n0_id, edge_n1_id]):
                 el_type, el_tags, el_node_ids = self.mesh.elements[el_id]
                 if edge_n0_id not in el_node_ids or edge_n1_id not in el_node_ids:
                     print("  Warn: ", "Missing edge", "el_id: ", el_id, el_node_ids)
-- 
2.43.0


From 087018c052ac6460a605969cee24baf7d5791948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 57/95] fix: quality of a flat tetrahedron with vertices on a
 circle

---
 src/bgem/gmsh/heal_mesh.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 507f3d6..d606d5a 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -96,12 +96,15 @@ class Tetrahedron(ShapeBase):
         if self._gamma is None:
             faces = self.face_areas
             V = np.abs(self.measure)
-            # inradius
-            r = 3*V / sum(faces)
             # circum radius
             a,b,c,A,B,C = self.edge_lens
             x_area = (a*A + b*B + c*C)*(a*A + b*B - c*C)*(a*A - b*B + c*C)*(-a*A + b*B + c*C)
-            assert x_area > 0, x_area
+            if x_area <= 0:
+                # flat, vertices on a common circle or line
+                self._gamma = 0.0
+                return self._gamma
+            # inradius
+            r = 3*V / sum(faces)
             R = np.sqrt(x_area) / 24 / max(1e-300, V)
             self._gamma = 3 * r/max(1e-300, R)
         return self._gamma
-- 
2.43.0


From c31d50da5f7c31290705513d5415bcbd4e69caad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 58/95] fix: smooth gradient quality of a tetrahedron depended
 on the order of its nodes

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index d606d5a..6a8ce44 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -86,7 +86,7 @@ class Tetrahedron(ShapeBase):
     def smooth_grad_error_indicator(self):
         faces = self.face_areas
         e_lens = self.edge_lens
-        e_faces = [[0, 1], [0, 2], [1, 2], [0, 3], [1, 3], [2, 3]] # faces joining the edge
+        e_faces = [[0, 1], [0, 2], [1, 2], [2, 3], [1, 3], [0, 3]] # faces joining the edge
         sum_pairs = max(1e-300, np.sum([faces[i] * faces[j] * elen ** 2 for (i,j),elen in zip(e_faces, e_lens)]))
         regular = (2.0 * np.sqrt(2.0 / 3.0) / 9.0)
         quality = np.abs(self.measure) * (np.sum(faces) / sum_pairs) ** (3.0/4.0) / regular
-- 
2.43.0


From 06cf979ac214eae81179a69e8ece051bb5171066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 59/95] fix: flatness assertion independent of the mesh scale

---
 src/bgem/gmsh/heal_mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 6a8ce44..97cf50f 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -676,7 +676,8 @@ class HealMesh:
         normal_component = ele.shape.nodes @ common_normal
         avg = np.average(normal_component)
         flat_nodes = ele.shape.nodes - (normal_component - avg)[:, None] * common_normal[None, :]
-        assert np.isclose(np.linalg.det(flat_nodes[1:, :] - flat_nodes[0, :]), 0.0)
+        flat_det = np.linalg.det(flat_nodes[1:, :] - flat_nodes[0, :])
+        assert np.isclose(flat_det, 0.0, atol=1e-8 * max(1.0, np.max(ele.shape.edge_lens) ** 3))
 
         # cases for projected shapes
         cos_face_norm = ele.shape.face_normals @ common_normal
-- 
2.43.0


From fa17ca0313c55c7c9a8c56b8c179799b30b2b766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 60/95] fix: healing failed on flat tetrahedra with a vertex
 close to an edge

---
 src/bgem/gmsh/heal_mesh.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 97cf50f..a6986c4 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -733,21 +733,11 @@ class HealMesh:
         isec_point = pos_0 + pos_t * pos_u
 
         print("  isec: ", (pos_t, neg_t))
-        skew_edges = [(pos_t, pos_edge), (neg_t, neg_edge)]
-        for i, (t, edge) in enumerate(skew_edges):
-            edge_len = np.linalg.norm(flat_nodes[edge[1]] - flat_nodes[edge[0]])
-            other_edge = skew_edges[1-i][1]
-
-            #tria_nodes = np.stack((flat_nodes[edge[0]], flat_nodes[other_edge[0]], flat_nodes[other_edge[1]]), axis=0)
-            #tria_flatness = Triangle(tria_nodes).small_edge_ratio()
-            assert np.abs(t-0) > 0.05, "  flat tetra, degen side, 0 == t: {}".format(t)
-            #tria_nodes = np.stack((flat_nodes[edge[1]], flat_nodes[other_edge[0]], flat_nodes[other_edge[1]]), axis=0)
-            #tria_flatness = Triangle(tria_nodes).small_edge_ratio()
-            assert np.abs(t-1) > 0.05, "  flat tetra, degen side, 1 == t: {}".format(t)
-
-        assert 0 < pos_t < 1 ,(pos_t, neg_t)
-        assert 0 < neg_t < 1 ,(pos_t, neg_t)
-
+        for t in (pos_t, neg_t):
+            if not 0.05 < t < 0.95:
+                # a vertex close to an edge, left to the flat triangle case
+                print("  flat tetra, degen side, t: {}".format(t))
+                return []
 
         # non-degenerate
         print("  flat quad case: ")
@@ -814,7 +804,10 @@ class HealMesh:
             rel_dist = np.linalg.norm(inner_node - x_proj) / np.linalg.norm(e_vec)
             projections.append((rel_dist, i, t_proj, x_proj))
         rel_dist, i, t, x = min(projections)
-        assert rel_dist > 0.05, "  flat tria degen side, rel dist: {}".format(rel_dist)
+        if not rel_dist > 0.05:
+            # inner vertex close to an edge, left to the flat triangle case
+            print("  flat tria degen side, rel dist: {}".format(rel_dist))
+            return []
 
         # nondegenerate triangle case, split elements connected to the outer face
         print("  flat tria case")
-- 
2.43.0


From 1b00dd127b40dd6a509640e77edffda7ca62f310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 61/95] fix: healing removed the neighbours of a flat triangle
 also when only its short edge was merged

---
 src/bgem/gmsh/heal_mesh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index a6986c4..1801c43 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -552,10 +552,6 @@ class HealMesh:
 
         i_max_edge = np.argmax(tria_shape.edge_lens)
 
-        # remove elements connected to the degenerate triangle
-        for el_id in self.common_elements(tria_node_ids):
-            self.remove_element(el_id)
-
         # project node to longest edge
         max_edge = tria_shape.edges[i_max_edge]
         max_edge_u = tria_shape.edge_vectors[i_max_edge]
@@ -571,6 +567,10 @@ class HealMesh:
             return []
         print("eid: {} heal small triangle ({}), nodes: {} elens: {}".format(ele.eid, ele.shape.gmsh_gamma(), ele.node_ids, tria_shape.edge_lens))
 
+        # remove elements connected to the degenerate triangle
+        for el_id in self.common_elements(tria_node_ids):
+            self.remove_element(el_id)
+
         projected = tria_shape.nodes[max_edge[0]] + tt * max_edge_u
         nid_proj = tria_node_ids[i_max_edge]
 
-- 
2.43.0


From 41203f5a57006a1aedd6a67c5b829380d2f7a31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 62/95] fix: quality of a triangle with coinciding nodes was
 NaN, not counted among bad elements

---
 src/bgem/gmsh/heal_mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 1801c43..147c2d0 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -161,6 +161,10 @@ class Triangle(ShapeBase):
     def gmsh_gamma(self):
         if self._gamma is None:
             a,b,c = self.edge_lens
+            if min(a, b, c) == 0:
+                # coinciding nodes
+                self._gamma = 0.0
+                return self._gamma
             # inradius
             s = (a + b + c)/2
             #r = np.sqrt(s*(s-a)*(s-b)*(s-c)) / s
-- 
2.43.0


From 82bfa37c613ddf4c8b934077d5850c4e2c2927d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 63/95] fix: altitude in the flat indicator of a tetrahedron

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 147c2d0..864c719 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -42,7 +42,7 @@ class ShapeBase:
         dim = self.dim
         max_edge = max(1e-300, np.max(self.edge_lens))
         if dim == 3:
-            alt = 6 * np.abs(self.measure) / max(1e-300, np.max(self.face_areas))
+            alt = 3 * np.abs(self.measure) / max(1e-300, np.max(self.face_areas))
         else:
             alt = 2 * np.abs(self.measure) / max_edge
 
-- 
2.43.0


From e0ba337e7b608f2ec41ffa38982a87e3c5c05324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 64/95] fix: healing left a non-conforming mesh when two
 tetrahedra were folded onto each other

---
 src/bgem/gmsh/heal_mesh.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 864c719..1aba9b5 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -265,7 +265,11 @@ class HealMesh:
 
     def add_element(self, ele):
         e = self._make_element(None, ele)
-        if self.is_duplicate_el(e):
+        duplicates = self.is_duplicate_el(e)
+        if duplicates:
+            if e.shape.dim == 3 and self._opposite_orientation(e.node_ids, self.mesh.elements[duplicates[0]][2]):
+                # two tetrahedra folded onto each other cancel out, their neighbours become adjacent
+                self.remove_element(duplicates[0])
             return
 
         self.max_ele_id += 1
@@ -351,6 +355,12 @@ class HealMesh:
         self._history[eid].append(('R', node_ids))
         del self.mesh.elements[eid]
 
+    @staticmethod
+    def _opposite_orientation(node_ids, other_ids):
+        # parity of the permutation
+        perm = [list(other_ids).index(nid) for nid in node_ids]
+        return np.linalg.det(np.eye(len(perm))[perm]) < 0
+
     def is_duplicate_el(self, ele):
         # check that there isn't the same element already
         duplicate_els = [eid for eid in self.common_elements(ele.node_ids) if self.mesh.elements[eid][0] == ele.type]
-- 
2.43.0


From 898cede2f0e7917b4a701af061487bfdbfc5f9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 65/95] fix: healing did not check elements modified by healing
 of the last element

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 1aba9b5..6ab3593 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -464,7 +464,7 @@ class HealMesh:
         orig_n_el = self.max_ele_id
         el_to_check = collections.deque(self.mesh.elements.keys())
         modified = []
-        while el_to_check:
+        while el_to_check or modified:
             el_to_check.extend(modified)
             modified = []
             # prevent infinite loop
-- 
2.43.0


From b2a5e33a6a5712b14f6a616aea4d77a4fcc53d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 66/95] fix: keep line ends of undo.py as in the original

---
 src/bgem/undo.py | 660 +++++++++++++++++++++++------------------------
 1 file changed, 330 insertions(+), 330 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index 8052dc5..56a2b18 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -1,330 +1,330 @@
-#!/usr/bin/env python3
-# -*- coding: utf-8 -*-
-#
-# Copyright (c) 2011 David Townshend
-#
-# This program is free software; you can redistribute it and/or modify it
-# under the terms of the GNU General Public License as published by the
-# Free Software Foundation; either version 2 of the License, or (at your
-# option) any later version.
-#
-# This program is distributed in the hope that it will be useful, but
-# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
-# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
-# for more details.
-#
-# You should have received a copy of the GNU General Public License along
-# with this program; if not, write to the Free Software Foundation, Inc.,
-# 675 Mass Ave, Cambridge, MA 02139, USA.
-
-__version__ = '0.5.1'
-__author__ = 'David Townshend'
-
-__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
-
-import contextlib
-
-from collections import deque
-
-class _Action:
-    ''' This represents an action which can be done and undone.
-    
-    It is the result of a call on an undoable function and has
-    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
-    returned by the internal call in ``do()`` is the value which will 
-    subsequently be returned by ``text``.  Any remaining values are 
-    returned by ``do()``.
-    '''
-    def __init__(self, generator, args, kwargs):
-        self._generator = generator
-        self.args = args
-        self.kwargs = kwargs
-        self._text = ''
-
-    def do(self):
-        'Do or redo the action'
-        self._runner = self._generator(*self.args, **self.kwargs)
-        rets = next(self._runner)
-        if isinstance(rets, tuple):
-            self._text = rets[0]
-            return rets[1:]
-        elif rets is None:
-            self._text = ''
-            return None
-        else:
-            self._text = rets
-            return None
-
-    def undo(self):
-        'Undo the action'
-        try:
-            next(self._runner)
-        except StopIteration:
-            pass
-        # Delete it so that its not accidentally called again
-        del self._runner
-
-    def text(self):
-        'Return the descriptive text of the action'
-        return self._text
-
-
-def undoable(generator):
-    ''' Decorator which creates a new undoable action type. 
-    
-    This decorator should be used on a generator of the following format::
-    
-        @undoable
-        def operation(*args):
-            do_operation_code
-            yield 'descriptive text'
-            undo_operator_code
-    '''
-    def inner(*args, **kwargs):
-        action = _Action(generator, args, kwargs)
-        ret = action.do()
-        stack().append(action)
-        if isinstance(ret, tuple):
-            if len(ret) == 1:
-                return ret[0]
-            elif len(ret) == 0:
-                return None
-        return ret
-    return inner
-
-
-class _Group:
-    ''' A undoable group context manager. '''
-
-    def __init__(self, desc):
-        self._desc = desc
-        self._stack = []
-
-    def __enter__(self):
-        self._outer_receiver = stack()._receiver
-        stack().setreceiver(self._stack)
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        # Return to the outer group (or disabled recording), even after an exception.
-        stack()._receiver = self._outer_receiver
-        if exc_type is None or self._stack:
-            stack().append(self)
-        return False
-
-    def undo(self):
-        for undoable in reversed(self._stack):
-            undoable.undo()
-
-    def do(self):
-        for undoable in self._stack:
-            undoable.do()
-
-    def text(self):
-        return self._desc.format(count=len(self._stack))
-
-
-def group(desc):
-    ''' Return a context manager for grouping undoable actions. 
-    
-    All actions which occur within the group will be undone by a single call
-    of `stack.undo`, e.g.
-    
-    >>> @undoable
-    ... def operation(n):
-    ...     yield
-    ...     print(n)
-    >>> with group('text'):
-    ...     for n in range(3):
-    ...         operation(n)
-    >>> operation(3)
-    >>> stack().undo()
-    3
-    >>> stack().undo()
-    2
-    1
-    0
-    '''
-    return _Group(desc)
-
-
-class Stack:
-    ''' The main undo stack. 
-        
-    The two key features are the :func:`redo` and :func:`undo` methods. If an 
-    exception occurs during doing or undoing a undoable, the undoable
-    aborts and the stack is cleared to avoid any further data corruption. 
-    
-    The stack provides two properties for tracking actions: *docallback* 
-    and *undocallback*. Each of these allow a callback function to be set
-    which is called when an action is done or undone repectively. By default, 
-    they do nothing.
-    
-    >>> def done():
-    ...     print('Can now undo: {}'.format(stack().undotext()))
-    >>> def undone():
-    ...     print('Can now redo: {}'.format(stack().redotext()))
-    >>> stack().docallback = done
-    >>> stack().undocallback = undone
-    >>> @undoable
-    ... def action():
-    ...     yield 'An action'
-    >>> action()
-    Can now undo: Undo An action
-    >>> stack().undo()
-    Can now redo: Redo An action
-    >>> stack().redo()
-    Can now undo: Undo An action
-    
-    Setting them back to ``lambda: None`` will stop any further actions.
-    
-    >>> stack().docallback = stack().undocallback = lambda: None
-    >>> action()
-    >>> stack().undo()
-    
-    It is possible to mark a point in the undo history when the document
-    handled is saved. This allows the undo system to report whether a 
-    document has changed. The point is marked using :func:`savepoint` and
-    :func:`haschanged` returns whether or not the state has changed (either
-    by doing or undoing an action). Only one savepoint can be tracked,
-    marking a new one removes the old one.
-    
-    >>> stack().savepoint()
-    >>> stack().haschanged()
-    False
-    >>> action()
-    >>> stack().haschanged()
-    True
-    '''
-
-    def __init__(self):
-        self._undos = deque()
-        self._redos = deque()
-        self._receiver = self._undos
-        self._savepoint = None
-        self.undocallback = lambda: None
-        self.docallback = lambda: None
-
-    def canundo(self):
-        ''' Return *True* if undos are available '''
-        return len(self._undos) > 0
-
-    def canredo(self):
-        ''' Return *True* if redos are available '''
-        return len(self._redos) > 0
-
-    def redo(self):
-        ''' Redo the last undone action. 
-        
-        This is only possible if no other actions have occurred since the 
-        last undo call.
-        '''
-        if self.canredo():
-            undoable = self._redos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.do()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._undos.append(undoable)
-            self.docallback()
-
-    def undo(self):
-        ''' Undo the last action. '''
-        if self.canundo():
-            undoable = self._undos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.undo()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._redos.append(undoable)
-            self.undocallback()
-
-    def clear(self):
-        ''' Clear the undo list. '''
-        self._undos.clear()
-        self._redos.clear()
-        self._savepoint = None
-        self._receiver = self._undos
-
-    def undocount(self):
-        ''' Return the number of undos available. '''
-        return len(self._undos)
-
-    def redocount(self):
-        ''' Return the number of redos available. '''
-        return len(self._redos)
-
-    def undotext(self):
-        ''' Return a description of the next available undo. '''
-        if self.canundo():
-            return ('Undo ' + self._undos[-1].text()).strip()
-
-    def redotext(self):
-        ''' Return a description of the next available redo. '''
-        if self.canredo():
-            return ('Redo ' + self._redos[-1].text()).strip()
-
-    @contextlib.contextmanager
-    def _pausereceiver(self):
-        ''' Return a contect manager which temporarily pauses the receiver. '''
-        receiver = self._receiver
-        self.setreceiver([])
-        yield
-        self._receiver = receiver
-
-    def setreceiver(self, receiver=None):
-        ''' Set an object to receiver commands pushed onto the stack.
-        
-        By default it is the internal stack, but it can be set (usually
-        internally) to any object with an *append()* method.
-        '''
-        assert hasattr(receiver, 'append')
-        self._receiver = receiver
-
-    def resetreceiver(self):
-        ''' Reset the receiver to the internal stack.'''
-        self._receiver = self._undos
-
-    def append(self, action):
-        ''' Add a undoable to the stack, using ``receiver.append()``. '''
-        if self._receiver is not None:
-            self._receiver.append(action)
-        if self._receiver is self._undos:
-            self._redos.clear()
-            if self._savepoint is not None and self._savepoint >= self.undocount():
-                self._savepoint = None  # saved state is no more reachable
-            self.docallback()
-
-    def savepoint(self):
-        ''' Set the savepoint. '''
-        self._savepoint = self.undocount()
-
-    def haschanged(self):
-        ''' Return *True* if the state has changed since the savepoint. 
-        
-        This will always return *True* if the savepoint has not been set.
-        '''
-        return self._savepoint is None or self._savepoint != self.undocount()
-
-
-_stack = None
-
-def stack():
-    ''' Return the currently used stack.
-    
-    If no stack has been set, a new one is created and set.
-    '''
-    global _stack
-    if _stack is None:
-        _stack = Stack()
-    return _stack
-
-def setstack(stack):
-    ''' Set the undo stack to a specific `Stack` object.'''
-    global _stack
-    _stack = stack
+#!/usr/bin/env python3
+# -*- coding: utf-8 -*-
+#
+# Copyright (c) 2011 David Townshend
+#
+# This program is free software; you can redistribute it and/or modify it
+# under the terms of the GNU General Public License as published by the
+# Free Software Foundation; either version 2 of the License, or (at your
+# option) any later version.
+#
+# This program is distributed in the hope that it will be useful, but
+# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
+# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
+# for more details.
+#
+# You should have received a copy of the GNU General Public License along
+# with this program; if not, write to the Free Software Foundation, Inc.,
+# 675 Mass Ave, Cambridge, MA 02139, USA.
+
+__version__ = '0.5.1'
+__author__ = 'David Townshend'
+
+__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
+
+import contextlib
+
+from collections import deque
+
+class _Action:
+    ''' This represents an action which can be done and undone.
+    
+    It is the result of a call on an undoable function and has
+    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
+    returned by the internal call in ``do()`` is the value which will 
+    subsequently be returned by ``text``.  Any remaining values are 
+    returned by ``do()``.
+    '''
+    def __init__(self, generator, args, kwargs):
+        self._generator = generator
+        self.args = args
+        self.kwargs = kwargs
+        self._text = ''
+
+    def do(self):
+        'Do or redo the action'
+        self._runner = self._generator(*self.args, **self.kwargs)
+        rets = next(self._runner)
+        if isinstance(rets, tuple):
+            self._text = rets[0]
+            return rets[1:]
+        elif rets is None:
+            self._text = ''
+            return None
+        else:
+            self._text = rets
+            return None
+
+    def undo(self):
+        'Undo the action'
+        try:
+            next(self._runner)
+        except StopIteration:
+            pass
+        # Delete it so that its not accidentally called again
+        del self._runner
+
+    def text(self):
+        'Return the descriptive text of the action'
+        return self._text
+
+
+def undoable(generator):
+    ''' Decorator which creates a new undoable action type. 
+    
+    This decorator should be used on a generator of the following format::
+    
+        @undoable
+        def operation(*args):
+            do_operation_code
+            yield 'descriptive text'
+            undo_operator_code
+    '''
+    def inner(*args, **kwargs):
+        action = _Action(generator, args, kwargs)
+        ret = action.do()
+        stack().append(action)
+        if isinstance(ret, tuple):
+            if len(ret) == 1:
+                return ret[0]
+            elif len(ret) == 0:
+                return None
+        return ret
+    return inner
+
+
+class _Group:
+    ''' A undoable group context manager. '''
+
+    def __init__(self, desc):
+        self._desc = desc
+        self._stack = []
+
+    def __enter__(self):
+        self._outer_receiver = stack()._receiver
+        stack().setreceiver(self._stack)
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        # Return to the outer group (or disabled recording), even after an exception.
+        stack()._receiver = self._outer_receiver
+        if exc_type is None or self._stack:
+            stack().append(self)
+        return False
+
+    def undo(self):
+        for undoable in reversed(self._stack):
+            undoable.undo()
+
+    def do(self):
+        for undoable in self._stack:
+            undoable.do()
+
+    def text(self):
+        return self._desc.format(count=len(self._stack))
+
+
+def group(desc):
+    ''' Return a context manager for grouping undoable actions. 
+    
+    All actions which occur within the group will be undone by a single call
+    of `stack.undo`, e.g.
+    
+    >>> @undoable
+    ... def operation(n):
+    ...     yield
+    ...     print(n)
+    >>> with group('text'):
+    ...     for n in range(3):
+    ...         operation(n)
+    >>> operation(3)
+    >>> stack().undo()
+    3
+    >>> stack().undo()
+    2
+    1
+    0
+    '''
+    return _Group(desc)
+
+
+class Stack:
+    ''' The main undo stack. 
+        
+    The two key features are the :func:`redo` and :func:`undo` methods. If an 
+    exception occurs during doing or undoing a undoable, the undoable
+    aborts and the stack is cleared to avoid any further data corruption. 
+    
+    The stack provides two properties for tracking actions: *docallback* 
+    and *undocallback*. Each of these allow a callback function to be set
+    which is called when an action is done or undone repectively. By default, 
+    they do nothing.
+    
+    >>> def done():
+    ...     print('Can now undo: {}'.format(stack().undotext()))
+    >>> def undone():
+    ...     print('Can now redo: {}'.format(stack().redotext()))
+    >>> stack().docallback = done
+    >>> stack().undocallback = undone
+    >>> @undoable
+    ... def action():
+    ...     yield 'An action'
+    >>> action()
+    Can now undo: Undo An action
+    >>> stack().undo()
+    Can now redo: Redo An action
+    >>> stack().redo()
+    Can now undo: Undo An action
+    
+    Setting them back to ``lambda: None`` will stop any further actions.
+    
+    >>> stack().docallback = stack().undocallback = lambda: None
+    >>> action()
+    >>> stack().undo()
+    
+    It is possible to mark a point in the undo history when the document
+    handled is saved. This allows the undo system to report whether a 
+    document has changed. The point is marked using :func:`savepoint` and
+    :func:`haschanged` returns whether or not the state has changed (either
+    by doing or undoing an action). Only one savepoint can be tracked,
+    marking a new one removes the old one.
+    
+    >>> stack().savepoint()
+    >>> stack().haschanged()
+    False
+    >>> action()
+    >>> stack().haschanged()
+    True
+    '''
+
+    def __init__(self):
+        self._undos = deque()
+        self._redos = deque()
+        self._receiver = self._undos
+        self._savepoint = None
+        self.undocallback = lambda: None
+        self.docallback = lambda: None
+
+    def canundo(self):
+        ''' Return *True* if undos are available '''
+        return len(self._undos) > 0
+
+    def canredo(self):
+        ''' Return *True* if redos are available '''
+        return len(self._redos) > 0
+
+    def redo(self):
+        ''' Redo the last undone action. 
+        
+        This is only possible if no other actions have occurred since the 
+        last undo call.
+        '''
+        if self.canredo():
+            undoable = self._redos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.do()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._undos.append(undoable)
+            self.docallback()
+
+    def undo(self):
+        ''' Undo the last action. '''
+        if self.canundo():
+            undoable = self._undos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.undo()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._redos.append(undoable)
+            self.undocallback()
+
+    def clear(self):
+        ''' Clear the undo list. '''
+        self._undos.clear()
+        self._redos.clear()
+        self._savepoint = None
+        self._receiver = self._undos
+
+    def undocount(self):
+        ''' Return the number of undos available. '''
+        return len(self._undos)
+
+    def redocount(self):
+        ''' Return the number of redos available. '''
+        return len(self._redos)
+
+    def undotext(self):
+        ''' Return a description of the next available undo. '''
+        if self.canundo():
+            return ('Undo ' + self._undos[-1].text()).strip()
+
+    def redotext(self):
+        ''' Return a description of the next available redo. '''
+        if self.canredo():
+            return ('Redo ' + self._redos[-1].text()).strip()
+
+    @contextlib.contextmanager
+    def _pausereceiver(self):
+        ''' Return a contect manager which temporarily pauses the receiver. '''
+        receiver = self._receiver
+        self.setreceiver([])
+        yield
+        self._receiver = receiver
+
+    def setreceiver(self, receiver=None):
+        ''' Set an object to receiver commands pushed onto the stack.
+        
+        By default it is the internal stack, but it can be set (usually
+        internally) to any object with an *append()* method.
+        '''
+        assert hasattr(receiver, 'append')
+        self._receiver = receiver
+
+    def resetreceiver(self):
+        ''' Reset the receiver to the internal stack.'''
+        self._receiver = self._undos
+
+    def append(self, action):
+        ''' Add a undoable to the stack, using ``receiver.append()``. '''
+        if self._receiver is not None:
+            self._receiver.append(action)
+        if self._receiver is self._undos:
+            self._redos.clear()
+            if self._savepoint is not None and self._savepoint >= self.undocount():
+                self._savepoint = None  # saved state is no more reachable
+            self.docallback()
+
+    def savepoint(self):
+        ''' Set the savepoint. '''
+        self._savepoint = self.undocount()
+
+    def haschanged(self):
+        ''' Return *True* if the state has changed since the savepoint. 
+        
+        This will always return *True* if the savepoint has not been set.
+        '''
+        return self._savepoint is None or self._savepoint != self.undocount()
+
+
+_stack = None
+
+def stack():
+    ''' Return the currently used stack.
+    
+    If no stack has been set, a new one is created and set.
+    '''
+    global _stack
+    if _stack is None:
+        _stack = Stack()
+    return _stack
+
+def setstack(stack):
+    ''' Set the undo stack to a specific `Stack` object.'''
+    global _stack
+    _stack = stack
-- 
2.43.0


From 35f55f304b4ed00f6cdc16051774fe0d391ecbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 67/95] fix: rectangle must not modify its list of sides

---
 src/bgem/gmsh/gmsh.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index e0df451..07f0bb7 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -259,8 +259,7 @@ class GeometryOCC:
         return self.object(dim, res)
 
     def rectangle(self, xy_sides=[1, 1], center=[0, 0, 0]):
-        xy_sides.append(0)
-        corner = np.array(center) - np.array(xy_sides) / 2
+        corner = np.array(center) - np.array([*xy_sides[0:2], 0]) / 2
         rec_tag = self.model.addRectangle(*corner.tolist(), *xy_sides[0:2])
         self._need_synchronize = True
         return self.object(2, rec_tag)
-- 
2.43.0


From e40fd2720b57a6862343373d4fdbe4e749259c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 68/95] fix: make_polygon: synchronization and integer mesh
 step

---
 src/bgem/gmsh/gmsh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 07f0bb7..72d2a0f 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -288,13 +288,13 @@ class GeometryOCC:
         """
         if mesh_step is None:
             mesh_step = 0.0
-        if type(mesh_step) is float:
-            mesh_step = np.full(len(points), mesh_step)
+        mesh_step = np.broadcast_to(mesh_step, len(points))
         vertices = [self.model.addPoint(*p, step, tag=-1) for p, step in zip(points, mesh_step)]
         vertices.append(vertices[0])
         lines = [self.model.addLine(a, b) for a,b in zip(vertices[0:-1], vertices[1:])]
         loop = self.model.addCurveLoop(lines, tag=-1)
         surface = self.model.addPlaneSurface([loop], tag=-1)
+        self._need_synchronize = True
         return self.object(2, surface)
 
 
-- 
2.43.0


From ea6fc1f84004fcb543abe48645ecb7ab4d466e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 69/95] fix: self intersecting boundary of make_rectangle

---
 src/bgem/gmsh/gmsh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 72d2a0f..227891a 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -326,7 +326,7 @@ class GeometryOCC:
 
     def make_rectangle(self, scale) -> int:
         # Vertices of the rectangle
-        shifts = np.array([(1, 1, 0), (1, -1, 0), (-1, 1, 0), (-1, -1, 0)])
+        shifts = np.array([(1, 1, 0), (1, -1, 0), (-1, -1, 0), (-1, 1, 0)])
         corners = shifts[:, :] * scale[None, :]
         point_tags = [self.model.addPoint(*corner) for corner in corners]
         lines = [self.model.addLine(point_tags[i - 1], point_tags[i]) for i in range(4)]
-- 
2.43.0


From 74eaa7f26ecad8ff69363e8027a4dd5978e882e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 70/95] fix: copy of an object set of mixed dimensions

---
 src/bgem/gmsh/gmsh.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 227891a..4ca8a27 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -546,7 +546,12 @@ class ObjectSet:
         return self
 
     def copy(self) -> 'ObjectSet':
-        copy_tags = self.factory.model.copy(self.dim_tags)
+        # GMSH copies only entities of the highest dimension
+        copy_tags = list(self.dim_tags)
+        for d in {dim for dim, tag in self.dim_tags}:
+            idx = [i for i, (dim, tag) in enumerate(self.dim_tags) if dim == d]
+            for i, dim_tag in zip(idx, self.factory.model.copy([self.dim_tags[i] for i in idx])):
+                copy_tags[i] = dim_tag
         self.factory._need_synchronize = True
         return ObjectSet(self.factory, copy_tags, self.regions)
 
-- 
2.43.0


From 64faadbc1404316937075482f1338ca07a6375d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 71/95] fix: fragment of a single entity

---
 src/bgem/gmsh/gmsh.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 4ca8a27..407bbbb 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -363,7 +363,10 @@ class GeometryOCC:
         all_dimtags = list(itertools.chain(*[o.dim_tags for o in object_sets]))
 
         try:
-            new_tags, tags_map = self.model.fragment(all_dimtags, [], removeObject=True, removeTool=True)
+            if len(all_dimtags) == 1:
+                tags_map = [all_dimtags]    # GMSH returns no map for a single entity
+            else:
+                new_tags, tags_map = self.model.fragment(all_dimtags, [], removeObject=True, removeTool=True)
         except ValueError as err:
             message = "\nall dimtags: {}, ...".format(str(all_dimtags[:20]))
             raise BoolOperationError(message) from err
-- 
2.43.0


From 741661f1ebb7f3184a502c4e5f14f1b953139fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 72/95] fix: make_simplex of dimension 3 for the geo model

---
 src/bgem/gmsh/gmsh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 407bbbb..4f30f08 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -237,7 +237,7 @@ class GeometryOCC:
         """
         points = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
         lines = [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)]
-        faces = [(0, 1, 2), (0, 3, 4), (2, 3, 5), (1, 4, 5)]
+        faces = [(1, 2, 3), (1, 5, -4), (3, 4, -6), (2, 6, -5)]     # oriented lines, numbered from 1
         if dim == 0:
             res = self.model.addPoint(*points[0])
         elif dim == 1:
@@ -251,7 +251,7 @@ class GeometryOCC:
         elif dim == 3:
             point_ids = [self.model.addPoint(*p) for p in points[:4]]
             line_ids = [self.model.addLine(*[point_ids[p] for p in l]) for l in lines[:6]]
-            loop_ids = [self.model.addCurveLoop([line_ids[l] for l in f]) for f in faces[:4]]
+            loop_ids = [self.model.addCurveLoop([line_ids[abs(l) - 1] * (1 if l > 0 else -1) for l in f]) for f in faces[:4]]
             face_ids = [self.model.addPlaneSurface([loop]) for loop in loop_ids]
             surf_loop = self.model.addSurfaceLoop(face_ids)
             res = self.model.addVolume([surf_loop])
-- 
2.43.0


From b3c5c67bf60f1c16315bc2036924aec25da72a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 73/95] fix: keep_only (elimination before meshing) had no
 effect on the mesh

---
 src/bgem/gmsh/gmsh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 4f30f08..fd01867 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -468,9 +468,11 @@ class GeometryOCC:
         all_dimtags = set(gmsh.model.getEntities())
         remove_dimtags = all_dimtags.difference(set(group_dimtags))
         try:
-            self.model.remove(list(remove_dimtags), recursive=False)
+            # higher dimensions first, boundaries of existing shapes can not be removed
+            self.model.remove(sorted(remove_dimtags, reverse=True), recursive=False)
         except ValueError:
             pass
+        self._need_synchronize = True
 
     def all_entities(self):
         self.synchronize()
-- 
2.43.0


From 472bc98cf5e91cdaefb8ebf0cd752b0c6eaf0ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 74/95] fix: errors of GMSH are not ValueError, report failed
 operations by own exceptions

---
 src/bgem/gmsh/gmsh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index fd01867..a4c5fe7 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -367,7 +367,7 @@ class GeometryOCC:
                 tags_map = [all_dimtags]    # GMSH returns no map for a single entity
             else:
                 new_tags, tags_map = self.model.fragment(all_dimtags, [], removeObject=True, removeTool=True)
-        except ValueError as err:
+        except Exception as err:
             message = "\nall dimtags: {}, ...".format(str(all_dimtags[:20]))
             raise BoolOperationError(message) from err
 
@@ -579,7 +579,7 @@ class ObjectSet:
         self.factory.synchronize()
         try:
             dimtags = gmsh.model.getBoundary(self.dim_tags, combined=combined, oriented=False)
-        except ValueError as err :
+        except Exception as err :
             message = "\nobj dimtags: {}".format(str(self.dim_tags[:10]))
             raise GetBoundaryError(message) from err
         regions = [Region.default_region[dim] for dim, tag in dimtags]
@@ -661,7 +661,7 @@ class ObjectSet:
         self.factory.synchronize()
         try:
             dimtags = gmsh.model.getBoundary(self.dim_tags, combined=False, oriented=False, recursive=True)
-        except ValueError as err :
+        except Exception as err :
             message = "\nobj dimtags: {} ...".format(str(self.dim_tags[:10]))
             raise GetBoundaryError(message) from err
         nodes = [(dim, tag) for dim, tag in dimtags if dim == 0]
@@ -730,7 +730,7 @@ class ObjectSet:
         tool_objects = self.factory.group(*tool_objects).copy()
         try:
             new_tags, old_tags_map = operation(self.dim_tags, tool_objects.dim_tags, removeObject=True, removeTool=True)
-        except ValueError as err :
+        except Exception as err :
             message = "\nobj dimtags: {}\ntool dimtags: {}".format(str(self.dim_tags[:10]), str(tool_objects.dim_tags[:10]))
             raise BoolOperationError(message) from err
 
-- 
2.43.0


From 7a303724b3a8565b20d62e570ab5bb2b5c4debd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 75/95] fix: default format of write_mesh

---
 src/bgem/gmsh/gmsh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index a4c5fe7..ae798ed 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -449,6 +449,8 @@ class GeometryOCC:
         In such case the format is given by the 'format' parameter.
         """
         if filename is None:
+            if format == MeshFormat.auto:
+                format = MeshFormat.msh
             gmsh.option.setNumber('Mesh.Format', format)
             extension = format.name
             filename = "{}.{}".format(self.model_name, extension)
-- 
2.43.0


From 707d0fda446f1ff170ecba8871870cae2369042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 76/95] fix: second instance of GeometryOCC finalized GMSH of
 the first one

---
 src/bgem/gmsh/gmsh.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index ae798ed..4f73cba 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -132,6 +132,7 @@ class GeometryOCC:
     TODO: add documented support of geometry and meshing parameters.
     """
     _have_instance = False
+    _owner = False
 
 
     # def addPoint(self, x, y, z, size):
@@ -203,8 +204,7 @@ class GeometryOCC:
 
         if self._have_instance:
             raise Exception("Only single instance of GMSHFactory is allowed.")
-        else:
-            self._have_instance = False
+        self._owner = GeometryOCC._have_instance = True
 
         self.model_name = model_name
         gmsh.initialize()
@@ -484,7 +484,9 @@ class GeometryOCC:
         gmsh.fltk.run()
 
     def __del__(self):
-        gmsh.finalize()
+        if self._owner:
+            GeometryOCC._have_instance = False
+            gmsh.finalize()
 
 
 
-- 
2.43.0


From 7ccf8968f020d907fb6b2eb48c04e64869f6c92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 77/95] fix: elements of an entity given twice with the same
 region were written twice

---
 src/bgem/gmsh/gmsh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 4f73cba..971e561 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -410,7 +410,7 @@ class GeometryOCC:
 
         # set physical groups
         for reg, tags in reg_to_tags.values():
-            reg._gmsh_id = gmsh.model.addPhysicalGroup(reg.dim, tags, tag=-1)
+            reg._gmsh_id = gmsh.model.addPhysicalGroup(reg.dim, sorted(set(tags)), tag=-1)
             gmsh.model.setPhysicalName(reg.dim, reg._gmsh_id, reg.name)
 
     def make_mesh(self, objects: List['ObjectSet'], dim=3, eliminate=True) -> None:
-- 
2.43.0


From 3ca995147adc35e8121fbf50b417c0e8bc16b3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 78/95] fix: reinit kept regions of the previous model

---
 src/bgem/gmsh/gmsh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 971e561..652fd95 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -218,6 +218,8 @@ class GeometryOCC:
 
     def reinit(self):
         gmsh.clear()
+        self._region_names = {}
+        self._need_synchronize = False
 
     def get_region_name(self, name):
         region = self._region_names.get(name, Region.get(name))
-- 
2.43.0


From 9252af33311f6b0fc1ef5340e34221b43f0c3c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 79/95] fix: unique names of regions could be equal to other
 region names

---
 src/bgem/gmsh/gmsh.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 652fd95..eea3dc8 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -403,12 +403,14 @@ class GeometryOCC:
             reg_names[reg.name].add(reg.id)
 
         # make used region names unique
-        for id_set in reg_names.values():
+        used_names = set(reg_names)
+        for name, id_set in reg_names.items():
             if len(id_set) > 1:
-                for i, id in enumerate(sorted(id_set)
-
-                                       ):
+                idx = itertools.count()
+                for id in sorted(id_set):
+                    i = next(i for i in idx if "{}_{}".format(name, i) not in used_names)
                     reg_to_tags[id][0].set_unique_name(i)
+                    used_names.add(reg_to_tags[id][0].name)
 
         # set physical groups
         for reg, tags in reg_to_tags.values():
-- 
2.43.0


From 97c44b998484238590f5d5732703f3312eabb276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 80/95] fix: threshold ignored the upper bound

---
 src/bgem/gmsh/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/field.py b/src/bgem/gmsh/field.py
index 8b17524..a7a9341 100644
--- a/src/bgem/gmsh/field.py
+++ b/src/bgem/gmsh/field.py
@@ -61,7 +61,7 @@ def threshold(field, lower_bound, upper_bound=None, sigmoid=False) -> Field:
     gmsh_field.setNumber(id, "DistMin", field_min)
     gmsh_field.setNumber(id, "LcMin", threshold_min)
     if upper_bound:
-        field_max, threshold_max = lower_bound
+        field_max, threshold_max = upper_bound
         gmsh_field.setNumber(id, "DistMax", field_max)
         gmsh_field.setNumber(id, "LcMax", threshold_max)
     else:
-- 
2.43.0


From af2551d0cf7f5457ea5149d9c422faae55b8e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 81/95] fix: restricted field had no effect

---
 src/bgem/gmsh/field.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/bgem/gmsh/field.py b/src/bgem/gmsh/field.py
index a7a9341..d3e7a02 100644
--- a/src/bgem/gmsh/field.py
+++ b/src/bgem/gmsh/field.py
@@ -137,9 +137,10 @@ def restrict(field:Field, *object_sets, add_boundary=False):
         group = factory.group(group, b_group)
     points, edges, faces, volumes = group.split_by_dimension()
     id = gmsh_field.add('Restrict')
-    gmsh_field.setNumber(id, "IField", field)
-    gmsh_field.setNumbers(id, "VerticesList", points.tags)
-    gmsh_field.setNumbers(id, "EdgesList", edges.tags)
-    gmsh_field.setNumbers(id, "FacesList", faces.tags)
-    gmsh_field.setNumbers(id, "RegionsList", volumes.tags)
+    gmsh_field.setNumber(id, "InField", field)
+    gmsh_field.setNumber(id, "IncludeBoundary", False)  # done above
+    gmsh_field.setNumbers(id, "PointsList", points.tags)
+    gmsh_field.setNumbers(id, "CurvesList", edges.tags)
+    gmsh_field.setNumbers(id, "SurfacesList", faces.tags)
+    gmsh_field.setNumbers(id, "VolumesList", volumes.tags)
     return id
\ No newline at end of file
-- 
2.43.0


From 5c21274324bf49e0e467841325a7e1efac53c29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 82/95] fix: draw every polygon of a decomposition once

A polygon was drawn again over the already drawn polygons inside of it, since displayed was never set.
---
 src/bgem/polygons/plot_polygons.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/polygons/plot_polygons.py b/src/bgem/polygons/plot_polygons.py
index fd7ea5d..985a166 100644
--- a/src/bgem/polygons/plot_polygons.py
+++ b/src/bgem/polygons/plot_polygons.py
@@ -8,6 +8,7 @@ def _plot_polygon(polygon):
         return []
 
     # recursion
+    polygon.displayed = True
     assert polygon.outer_wire.parent.polygon != polygon, polygon.id
     patches = _plot_polygon(polygon.outer_wire.parent.polygon)
     pts = [pt.xy for pt in polygon.vertices()]
-- 
2.43.0


From b60bf5000fdf40458ae4ef7751a304acd77760d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 83/95] fix: plot segments of an empty decomposition

The class of points was taken from the first point of the decomposition, StopIteration without any.
---
 src/bgem/polygons/plot_polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/polygons/plot_polygons.py b/src/bgem/polygons/plot_polygons.py
index 985a166..f9d20f9 100644
--- a/src/bgem/polygons/plot_polygons.py
+++ b/src/bgem/polygons/plot_polygons.py
@@ -76,13 +76,13 @@ def plot_decomp_segments(decomp, points_a=[], points_b=[]):
     import numpy as np
     import matplotlib.pyplot as plt
     from matplotlib import collections  as mc
+    from .point import Point
 
     lines = [[seg.vtxs[0].xy, seg.vtxs[1].xy] for seg in decomp.segments.values()]
     lc = mc.LineCollection(lines, linewidths=1)
 
     fig, ax = plt.subplots()
     ax.add_collection(lc)
-    Point = next(iter(decomp.points.values())).__class__
     for pt_list in [decomp.points.values(), points_a, points_b]:
         points = np.array([pt.xy if type(pt) is Point else pt for pt in pt_list])
         if len(points) > 0 :
-- 
2.43.0


From 27e08ec5c640f47e82fe3046bd1d4c529df5e865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 84/95] fix: PlottingMatplot.show left shown plots in the
 figures

As documented and as PlottingPlotly does, show starts a new list of plots. Closed windows left 3d plots on a stale axes.
---
 src/bgem/bspline/bspline_plot.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/bgem/bspline/bspline_plot.py b/src/bgem/bspline/bspline_plot.py
index 06ecb42..fea7f34 100644
--- a/src/bgem/bspline/bspline_plot.py
+++ b/src/bgem/bspline/bspline_plot.py
@@ -78,24 +78,36 @@ class PlottingPlotly:
 
 class PlottingMatplot:
     def __init__(self):
-        self.fig_2d = plt.figure(1)
-        self.fig_3d = plt.figure(2)
+        self._reinit()
+
+    def _reinit(self, clear=False):
+        self.fig_2d = plt.figure(1, clear=clear)
+        self.fig_3d = plt.figure(2, clear=clear)
         self.ax_3d = self.fig_3d.gca(projection='3d')
+        self.shown = False
+
+    def _select_figure(self, num):
+        """
+        Make the figure current. The first plot after 'show' starts new figures.
+        """
+        if self.shown:
+            self._reinit(clear=True)
+        plt.figure(num)
 
     def add_curve_2d(self, X, Y, **kwargs):
-        plt.figure(1)
+        self._select_figure(1)
         plt.plot(X, Y, **kwargs)
 
     def add_points_2d(self, X, Y, **kwargs):
-        plt.figure(1)
+        self._select_figure(1)
         plt.plot(X, Y, 'bo', color='red', **kwargs)
 
     def add_surface_3d(self, X, Y, Z, **kwargs):
-        plt.figure(2)
+        self._select_figure(2)
         self.ax_3d.plot_surface(X, Y, Z, **kwargs)
 
     def add_points_3d(self, X, Y, Z, **kwargs):
-        plt.figure(2)
+        self._select_figure(2)
         return self.ax_3d.scatter(X, Y, Z, color='red', **kwargs)
 
     def show(self):
@@ -104,6 +116,7 @@ class PlottingMatplot:
         :return:
         """
         plt.show()
+        self.shown = True
 
 
 class Plotting:
-- 
2.43.0


From 07a425dd9e4f0178413610097564b36a46c71be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:10 +0000
Subject: [PATCH 85/95] fix: merge_points removes all segments before adding
 the moved ones

A moved segment could cross a segment of the merged point not moved yet.
---
 src/bgem/polygons/polygons.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 02cb576..cd1cf5f 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -560,9 +560,12 @@ class PolygonDecomposition:
             b_can_move = b_can_move and not getattr(b.segment[0].attr, 'boundary', False)
         if b_can_move:
             #a.move(a_diff)
-            for seg, b_idx in list(b.segments()):
-                seg_vtxs = list(seg.vtxs)   # a copy, undo of the removal needs the original end points
+            # Remove all segments first, moved segments may cross those not moved yet.
+            b_segments = list(b.segments())
+            for seg, b_idx in b_segments:
                 self._rm_segment(seg)
+            for seg, b_idx in b_segments:
+                seg_vtxs = list(seg.vtxs)   # a copy, undo of the removal needs the original end points
                 seg_vtxs[b_idx] = a
                 if seg_vtxs[0] != seg_vtxs[1]:
                     self._add_segment(*seg_vtxs)
-- 
2.43.0


From dff00356630e62839ffa6cc4da98ed3e8869b008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:18 +0000
Subject: [PATCH 86/95] fix: merge of close intersections checks also the
 following segment of the line

The line continues from the merged point. This segment was added after the check that the merge does not cross other segments.
---
 src/bgem/polygons/polygons.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index cd1cf5f..e25a750 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -653,21 +653,26 @@ class PolygonDecomposition:
         Generator for added new segments of the new line.
         """
         start_pt = a_pt
-        for t1, (mid_pt, seg0, seg1) in sorted(line_div.items()):
+        close_pts = []      # points to merge into start_pt
+        for mid_pt in [pt for t1, (pt, seg0, seg1) in sorted(line_div.items())] + [b_pt]:
             if start_pt == mid_pt:
                 continue
-            if np.linalg.norm(start_pt.xy - mid_pt.xy) < self.tolerance:
+            if mid_pt != b_pt and np.linalg.norm(start_pt.xy - mid_pt.xy) < self.tolerance:
                 # two close intersections, merge points
-                start_pt = self.merge_points(start_pt, mid_pt)
+                close_pts.append(start_pt)
+                start_pt = mid_pt
                 continue
             new_seg = self._add_segment(start_pt, mid_pt)
+            if close_pts:
+                # The new segment is moved by the merge together with other segments of start_pt,
+                # so it has to be added before the check of the move.
+                for pt in reversed(close_pts):
+                    start_pt = self.merge_points(pt, start_pt)
+                close_pts = []
+                new_seg = self._add_segment(start_pt, mid_pt)
             yield (new_seg, self.decomp.last_polygon_change, new_seg.vtxs[out_vtx] == start_pt)
             start_pt = mid_pt
 
-        if start_pt != b_pt:
-            new_seg = self._add_segment(start_pt, b_pt)
-            yield (new_seg, self.decomp.last_polygon_change, new_seg.vtxs[out_vtx] == start_pt)
-
 
 
     def delete_point(self, point):
-- 
2.43.0


From f881f4e2866388c9c481317300a696b3594bf371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 87/95] fix: check_displacment refuses segments moved onto
 another point

The final position of a moved segment passing exactly through a point was not detected as the sweeping test is strict.
---
 src/bgem/polygons/polygons.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index e25a750..fa32c95 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -257,12 +257,30 @@ class PolygonDecomposition:
             elif any(self._in_triangle(pt.xy, (a, b, b - displacement)) for pt in points):
                 # rotating segment sweeps over a moving point
                 return False
+            # final position of the moving segment
+            final = (a + displacement, b + displacement if (seg, 1 - side) in moving_segs else b)
             for pt in fixed_points:
                 if any(self._in_triangle(pt.xy, triangle) for triangle in triangles):
                     return False
+                if self._inside_segment(pt.xy, *final):
+                    return False
 
         return True
 
+    @staticmethod
+    def _inside_segment(point, a, b):
+        """
+        Check that the point lies on the segment (a,b), but not in its end points.
+        """
+        eps = 1e-8
+        vector, diff = b - a, point - a
+        size_2 = vector @ vector
+        if size_2 == 0.0:
+            return False
+        t = (diff @ vector) / size_2
+        distance = diff - t * vector
+        return eps < t < 1 - eps and distance @ distance < eps * eps * size_2
+
     @staticmethod
     def _in_triangle(point, triangle):
         """
-- 
2.43.0


From 679c74cd70cd9f85a5b0e2a5a1da3a3dc5c27dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:30 +0000
Subject: [PATCH 88/95] fix: a line is not snapped to points close only to its
 ends

---
 src/bgem/polygons/polygons.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index fa32c95..e523bc1 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -545,7 +545,8 @@ class PolygonDecomposition:
             diff = t * (b_pt.xy - a_pt.xy)
             x = a_pt.xy + diff
             dist = la.norm(pt.xy - x)
-            if dist < self.tolerance:
+            # points close just to an end of the line are not on the way
+            if 0 < t < 1 and dist < self.tolerance:
                 # if np.linalg.norm(pt.xy - a_pt.xy) < self.tolerance or np.linalg.norm(pt.xy - b_pt.xy) < self.tolerance:
                 #     import geomop.plot_polygons as pp
                 #     pp.plot_polygon_decomposition(self, [a_pt, b_pt, pt])
-- 
2.43.0


From 82e15f2c81d63ae404116f2df947fe42e6b7cd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 89/95] fix: contains_wire for large coordinates

---
 src/bgem/polygons/polygon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bgem/polygons/polygon.py b/src/bgem/polygons/polygon.py
index db0dbb3..d8b1771 100644
--- a/src/bgem/polygons/polygon.py
+++ b/src/bgem/polygons/polygon.py
@@ -211,7 +211,10 @@ class Wire(idmap.IdObject):
         if side == right_side:
             norm = -norm
         eps = 1e-10  # TODO: review this value to be as close to the line as possible while keep intersection work
-        inner_point = seg.vtxs[out_vtx].xy + 0.5 * tang + eps * norm
+        mid_point = seg.vtxs[out_vtx].xy + 0.5 * tang
+        # the shift must not be lost in the roundoff of the coordinates
+        eps = max(eps, 16 * np.spacing(np.max(np.abs(mid_point))) / np.linalg.norm(tang))
+        inner_point = mid_point + eps * norm
         return self.contains_point(inner_point)
 
     def child_wires(self):
-- 
2.43.0


From e0432cbdd25ad2ff250ec4b0451999833f3d6a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 90/95] fix: splitting a wire moves all wires of the new bubble

---
 src/bgem/polygons/decomp.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/bgem/polygons/decomp.py b/src/bgem/polygons/decomp.py
index cc58635..36a67df 100644
--- a/src/bgem/polygons/decomp.py
+++ b/src/bgem/polygons/decomp.py
@@ -519,13 +519,16 @@ class Decomposition:
             for ch in list(a_wire.childs):
                 ch.set_parent(outer_wire)
             # possible wires in the new inner_wire bubble
-            for seg, side in inner_wire.segments():
-                side_wire = seg.wire[1-side]
-                if side_wire == inner_wire:
-                    # dendrite of the inner wire
-                    continue
-                assert inner_wire.contains_wire(side_wire)
-                side_wire.set_parent(inner_wire)
+            # including those not adjacent to the inner wire
+            bubble_wires = [inner_wire]
+            for wire in bubble_wires:
+                for side_wire in wire.neighbors():
+                    if side_wire in bubble_wires:
+                        # dendrite or already visited
+                        continue
+                    assert inner_wire.contains_wire(side_wire)
+                    side_wire.set_parent(inner_wire)
+                    bubble_wires.append(side_wire)
 
             #self._update_wire_parents(orig_parent, outer_wire, inner_wire)
 
-- 
2.43.0


From 7d4ea14a7e1aadf346cdeeabb128774540a69324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:09 +0000
Subject: [PATCH 91/95] fix: a line is snapped to all close points in their
 order along the line

---
 src/bgem/polygons/polygons.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index e523bc1..f3207f4 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -539,7 +539,8 @@ class PolygonDecomposition:
         # free points are not reachable through segments
         candidate_pt |= {self.points[pt_id] for pt_id in self.points_lookup.intersect_candidates(box)}
         candidate_pt = candidate_pt.difference(omit)
-        # new line close to existing vertices, snap to them
+        # new line close to existing vertices, snap to them in the order along the line
+        close_pt = []
         for pt in candidate_pt:
             t = self.seg_project_point(b_pt.xy - a_pt.xy, a_pt.xy, pt.xy)
             diff = t * (b_pt.xy - a_pt.xy)
@@ -547,14 +548,17 @@ class PolygonDecomposition:
             dist = la.norm(pt.xy - x)
             # points close just to an end of the line are not on the way
             if 0 < t < 1 and dist < self.tolerance:
-                # if np.linalg.norm(pt.xy - a_pt.xy) < self.tolerance or np.linalg.norm(pt.xy - b_pt.xy) < self.tolerance:
-                #     import geomop.plot_polygons as pp
-                #     pp.plot_polygon_decomposition(self, [a_pt, b_pt, pt])
-                #     assert False
-                # subdivide segment, snap to existing mid point
-                omit_pt = omit | {pt}
-                return self.add_line_for_points(a_pt, pt, omit=omit_pt) + \
-                       self.add_line_for_points(pt, b_pt, omit=omit_pt)
+                close_pt.append((t, pt.id, pt))
+        if close_pt:
+            close_pt = [pt for t, pt_id, pt in sorted(close_pt)]
+            omit_pt = omit.union(close_pt)
+            segments = []
+            for pt in close_pt + [b_pt]:
+                # the points may be merged into other ones by adding the previous part
+                a_pt, pt = [p if p.id in self.points else self.add_point(p.xy) for p in (a_pt, pt)]
+                segments += self.add_line_for_points(a_pt, pt, omit=omit_pt)
+                a_pt = pt
+            return segments
 
         # no snapping, subdivide by intersections
         line_div = self._add_line_seg_intersections(a_pt, b_pt)
-- 
2.43.0


From b747d390987415c628742a90ae97bca639456a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:06 +0000
Subject: [PATCH 92/95] fix: Z_Surface with a bilinear quad in large
 coordinates

---
 src/bgem/bspline/bspline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 01ea345..6c737a5 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -735,7 +735,8 @@ class Z_Surface:
         if xy_quad.shape[0] == 3:
             xy_quad = np.concatenate( (xy_quad, v11[None, :]), axis = 0)
 
-        if np.allclose(xy_quad[3], v11):
+        # relative to the quad, not to its coordinates
+        if np.allclose(xy_quad[3] - xy_quad[1], v11 - xy_quad[1]):
             # linear case
             self.quad = xy_quad
             self._xy_shift = self.quad[1]
-- 
2.43.0


From 0287d2ef41834c1f9f67fdb2796864ab34052150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:12 +0000
Subject: [PATCH 93/95] fix: joining segments of opposite directions keeps
 start segments of wires

---
 src/bgem/polygons/decomp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bgem/polygons/decomp.py b/src/bgem/polygons/decomp.py
index 36a67df..577496e 100644
--- a/src/bgem/polygons/decomp.py
+++ b/src/bgem/polygons/decomp.py
@@ -331,7 +331,8 @@ class Decomposition:
         for side in [left_side, right_side]:
             wire = seg1.wire[side]
             if wire.segment == (seg1, side):
-                wire.segment = (seg0, side)
+                # sides are swapped if the joined segments have opposite directions
+                wire.segment = (seg0, side if seg0_in_vtx == seg1_in_vtx else 1 - side)
 
         # fix pt_to_seg
         self.pt_to_seg[seg0.point_ids()] = seg0
-- 
2.43.0


From 6c3d74c72e8ea516af4f6b201746c86f7d9e9e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:18 +0000
Subject: [PATCH 94/95] fix: get_childs of deeply nested polygons does not run
 out of recursion

---
 src/bgem/polygons/polygon.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/bgem/polygons/polygon.py b/src/bgem/polygons/polygon.py
index d8b1771..620ec0c 100644
--- a/src/bgem/polygons/polygon.py
+++ b/src/bgem/polygons/polygon.py
@@ -222,12 +222,15 @@ class Wire(idmap.IdObject):
         Yields all child wires recursively.
         :return:
         """
-        if self._get_child_passed:
-            assert False, "Cyclic wire links."
-        self._get_child_passed = True
-
-        yield self
-        for child in self.childs:
-            yield from child.child_wires()
+        # no recursion, the nesting of wires can be deep
+        wires = [self]
+        while wires:
+            wire = wires.pop()
+            if wire._get_child_passed:
+                assert False, "Cyclic wire links."
+            wire._get_child_passed = True
+
+            yield wire
+            wires.extend(wire.childs)
 
 
-- 
2.43.0


From 5af59254e2c3ae6f34d3f183d29df0b99a0baeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:33 +0000
Subject: [PATCH 95/95] fix: binary MSH reader knows all element types of the
 format

---
 src/bgem/gmsh/gmsh_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index c559c62..0dfffb1 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -173,7 +173,9 @@ class GmshIO:
                         self.elements[id] = (type, tags, nodes)
                 elif readmode == 3 and ftype == 1:
                     # el_type : num of nodes per element
-                    tdict = {1: 2, 2: 3, 3: 4, 4: 4, 5: 8, 6: 6, 7: 5, 8: 3, 9: 6, 10: 9, 11: 10, 15: 1}
+                    tdict = {1: 2, 2: 3, 3: 4, 4: 4, 5: 8, 6: 6, 7: 5, 8: 3, 9: 6, 10: 9, 11: 10, 12: 27, 13: 18, 14: 14,
+                             15: 1, 16: 8, 17: 20, 18: 15, 19: 13, 20: 9, 21: 10, 22: 12, 23: 15, 24: 15, 25: 21,
+                             26: 4, 27: 5, 28: 6, 29: 20, 30: 35, 31: 56, 92: 64, 93: 125}
                     try:
                         neles = int(columns[0])
                         k = 0
-- 
2.43.0

