From 68a7847cf862e9317baa318e090a5cf127f52b6b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 01/37] fix: PolygonLine.__hash__ hashes the segments, not a
 generator object

---
 geometry/SR_polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 7bc403f..705d245 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -92,7 +92,7 @@ class PolygonLine(object):
         return not self.__eq__(other)
 
     def __hash__(self):
-        return hash((s.ij for s in self._segments))
+        return hash(tuple(s.ij for s in self._segments))
 
     @property
     def triangles(self):
-- 
2.43.0


From b46a6b9e0ea92e46ead278cb2dee94966bd5fdf3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:47:08 +0000
Subject: [PATCH 02/37] fix: is_internal_point casts its rays outside the
 bounding box wherever the polygon lies

---
 geometry/SR_polygon.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 705d245..379a700 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -494,12 +494,13 @@ class PolygonLine(object):
 
         _bb = self.bounding_box()
         _x, _y = _bb[0][1], _bb[1][1]
+        _size = max(_bb[0][1] - _bb[0][0], _bb[1][1] - _bb[1][0])
         _finished = False
         _inters = []
         while not _finished:
             for i in range(ctrlpkt):
-                # # old solution - a Point somewhere to the north east is taken
-                P = Point((random.uniform(_x, 500 * _x), random.uniform(_y, 30 * _y)))
+                # a Point somewhere to the north east, outside of the bounding box, is taken
+                P = Point((_x + _size * random.uniform(1, 50), _y + _size * random.uniform(1, 30)))
                 ls = LineSegment(p, P)  # from p draw line in random direction
 
                 # # new solution: a Line towards the center of gravity and then to infinity
-- 
2.43.0


From b66f849c79dbd6477f1eab62aecbb8f8088b8795 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:48:05 +0000
Subject: [PATCH 03/37] fix: is_on_boundary finds boundary points,
 is_internal_point does not call them internal

---
 geometry/SR_polygon.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 379a700..0f2555e 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -488,8 +488,8 @@ class PolygonLine(object):
 
         ctrlpkt = 3
 
-        # if the point is one of the Points of the polygon - False.
-        if p in self.point_set:
+        # if the point is one of the Points of the polygon or lies on one of its segments - False.
+        if self.is_on_boundary(p=p):
             return False
 
         _bb = self.bounding_box()
@@ -536,8 +536,6 @@ class PolygonLine(object):
 
     def is_on_boundary(self, p=EMPTY):
         """ Tells if the point is on the Polygonline """
-        if self.is_internal_point(p=p) or self.is_external_point(p=p):
-            return False
         if p in self.point_set:
             return True
         if any([x.is_internal_point(p=p) and x.is_point_on_line(p=p) for x in self.segments]):
-- 
2.43.0


From 5cd219bcb09a80a64a4c2be9efd4b372fc0ef746 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 04/37] fix: iscw uses the signed area, counting turns is wrong
 for concave polygons

---
 geometry/SR_polygon.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 0f2555e..467baf1 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -458,23 +458,12 @@ class PolygonLine(object):
     @property
     def iscw(self):
         """ Tells if point order is cw """
-        if self.isconvex:  # pure positive or negative values
-            if sum(self.cps) > 0:  # positive means ccw
-                return False
-            else:
-                return True
+        assert self.isvalid
 
-        else:  # positive and negative values mixed
-            _ps = len([x for x in self.cps if x >= 0])
-            _ns = len([x for x in self.cps if x <= 0])
-            if _ps > _ns:
-                return False
-            elif _ps < _ns:
-                return True
-            else:
-                print(_ps)
-                print(_ns)
-                raise Exception("This shouldn't happen")
+        # the signed area, measured from the first point; positive means ccw
+        _o = self.first_point
+        _a = sum([(s.i.x - _o.x) * (s.j.y - _o.y) - (s.i.y - _o.y) * (s.j.x - _o.x) for s in self.segments])
+        return not _a > 0
 
     @property
     def isccw(self):
-- 
2.43.0


From aaf83262abe0cb962ec63a3a7d6203d7704171af Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 05/37] fix: PolygonLine.loose_equal(direction_matters=True)
 raised a TypeError

---
 geometry/SR_polygon.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 467baf1..f48a0f2 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -71,10 +71,8 @@ class PolygonLine(object):
         if len(self.segments) != len(other.segments):
             return False
 
-        segment_loose_equality = False  # segment loose equality
         if direction_matters:  # direction matters
-            if set(self.segments) == set(other.segments):
-                segment_loose_equality = True
+            segment_loose_equality = [set(self.segments) == set(other.segments)]
 
         else:  # whatever the direction
             # we must find for ALL segments in self a segment in other that is loosely equal
-- 
2.43.0


From f564c4de89431513e2af29c23a54b0a922825666 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 06/37] fix: angle_between_lines raised a math domain error for
 some parallel lines

---
 geometry/SR_line.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 60ff6ea..0a2dd7c 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -517,8 +517,9 @@ class LineSegment(object):
         assert other.isvalid
 
         # return atan2(norm(self.cross_product(other)), self.dot_product(other))
-        _ret = degrees(acos(self.dotproduct(other) / (self.norm * other.norm)))
-        return _ret
+        # rounding may put the cosine of (anti)parallel lines outside of [-1, 1]
+        _cos = self.dotproduct(other) / (self.norm * other.norm)
+        return degrees(acos(max(-1., min(1., _cos))))
 
     def angle_from_start_point(self, p=EMPTY):
         """ The angle between self and the LineSegment defined by self.i and p """
-- 
2.43.0


From cd2afb9a29a10650975bfd37e57ccccdbe0b9c69 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 07/37] fix: LineSegment.touch is only true if exactly one
 endpoint is common

---
 geometry/SR_line.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 0a2dd7c..cddfbba 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -283,19 +283,8 @@ class LineSegment(object):
         """ Tells if two LineSegments have only one of their endpoints common """
         assert other.isvalid
 
-        # 1. possibility: the nodes are either equal or identical
-        if len(set(self.ij).intersection(set(other.ij))) == 1:
-            _ret = True
-        else:
-            _ret = False
-
-        # 2. possibility: the nodes are pretty close to each other
-        for A in self.ij:
-            for B in other.ij:
-                if distance(A, B) < EPS:
-                    _ret = True
-
-        return _ret
+        # the nodes are either equal, identical or pretty close to each other
+        return len({A for A in self.ij if any(distance(A, B) < EPS for B in other.ij)}) == 1
 
     def overlap(self, other):
         """
-- 
2.43.0


From 1b3e8d635375faab98694a1b9a3894130a60c87e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 08/37] fix: LineSegment.overlap with a common endpoint does
 not compare rounded angles exactly

---
 geometry/SR_line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index cddfbba..d7e5ba5 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -330,7 +330,7 @@ class LineSegment(object):
             # two linesegments are created. since these are collinear, if their direction is the same: there is overlap
             l1 = LineSegment(cp, otherpoints[0])
             l2 = LineSegment(cp, otherpoints[1])
-            if l1.direction == l2.direction:  # the two segments are in the same direction and cp is common point
+            if l1.dotproduct(l2) > 0:  # the two segments are in the same direction and cp is common point
                 # print('overlapping segment')
                 return True, sorted([l1, l2], key=lambda x: x.norm)[0]
             else:
-- 
2.43.0


From 90149ace445fe3a96eda76afc0784c4ced86a112 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 09/37] fix: LineSegment.opposite_direction does not compare
 rounded angles exactly

---
 geometry/SR_line.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index d7e5ba5..7e92a1a 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -229,10 +229,9 @@ class LineSegment(object):
         """
         assert other.isvalid
 
-        if (self.direction + 180) % 360 == other.direction:
-            return True
-        else:
-            return False
+        # the same direction within the accepted numerical error, which may appear as 360 degrees
+        _diff = abs((self.direction + 180) % 360 - other.direction)
+        return min(_diff, 360 - _diff) < EPS
 
     def is_parallel(self, other):
         """
-- 
2.43.0


From 8e80a824b8ea3803b8851fc81a41981cd1c66f12 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 10/37] fix: is_parallel accepts the rounding errors of decimal
 coordinates

---
 geometry/SR_line.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 7e92a1a..0429523 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -240,7 +240,8 @@ class LineSegment(object):
         """
         assert other.isvalid
 
-        if self.crossproduct(other) == 0:
+        # the sine of the angle between the lines is zero within the accepted numerical error
+        if abs(self.crossproduct(other)) <= EPS * self.norm * other.norm:
             return True
         else:
             return False
-- 
2.43.0


From 9d0fc43221fad1e0e9c2d6486e01c8fd88287be2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 11/37] fix: is_point_on_line accepts the rounding errors of
 points on long segments

---
 geometry/SR_line.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 0429523..68a77bf 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -187,7 +187,8 @@ class LineSegment(object):
             return True
 
         # print(abs(self.cross_product(LineSegment(self.i, p))))
-        if abs(self.crossproduct_commonstart(LineSegment(self.i, p))) < EPS:
+        # for long segments the distance from the line decides, as the coordinates are rounded
+        if abs(self.crossproduct_commonstart(LineSegment(self.i, p))) < EPS * max(1, self.norm):
 
             return True
         else:
-- 
2.43.0


From 015350fc67253785a137979a141db55b287bdbd5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 12/37] fix: a point on the line is not to the right of it,
 whatever the rounding

---
 geometry/SR_line.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 68a77bf..c030e7d 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -201,6 +201,9 @@ class LineSegment(object):
         """
         assert p.isvalid
 
+        if self.is_point_on_line(p=p):
+            return False
+
         # _val = self.crossproduct_commonstart(other=LineSegment(self.i, p))
         _val = self.crossproduct(other=LineSegment(self.i, p))
         if _val < 0:
-- 
2.43.0


From 614fe92c959585e458cb0373675c1825c4dd16bc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 13/37] fix: Point validity follows the current coordinates,
 exactly two numbers are needed

---
 geometry/SR_point.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/geometry/SR_point.py b/geometry/SR_point.py
index de9b02d..b585aaa 100644
--- a/geometry/SR_point.py
+++ b/geometry/SR_point.py
@@ -87,14 +87,16 @@ class Point(object):
 
     def _set_coords(self, coords=EMPTY):
         """ sets coordinates; use it to overwrite current coordinates """
+        self.__dict__.pop('isvalid', None)  # validity has to be checked again
         try:
             # making sure floats are used, even if defined in int (Python 2)
             self._coords = tuple([round(float(x), PRECISION) for x in coords])
-        except TypeError:  # if not a number that it is accepted. invalid point, anyways.
+        except (TypeError, ValueError):  # if not a number that it is accepted. invalid point, anyways.
             self._coords = coords
 
     def _empty(self):
         """ revoke coordinates. This renders the Point invalid. """
+        self.__dict__.pop('isvalid', None)  # validity has to be checked again
         self._coords = EMPTY
 
     def _isempty(self):
@@ -113,15 +115,15 @@ class Point(object):
         if self._coords == EMPTY:
             # print('coords empty')
             return False
+        if len(self._coords) != 2:
+            # print('two coords are needed')
+            return False
         if not isinstance(self.x, (int, float)):
             # print('coord x is not numeric')
             return False
         if not isinstance(self.y, (int, float)):
             # print('coord x is not numeric')
             return False
-        if len(self.xy) != 2:
-            # print('two coords are needed')
-            return False
         return True
 
     def bounding_box(self):
-- 
2.43.0


From 319a726135a412ab0d8d06777074da493f7854e4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 14/37] fix: add leaves its operands unchanged and connects
 distant polylines as documented

---
 geometry/SR_polygon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index f48a0f2..f00d5d5 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1813,8 +1813,10 @@ def add(self, *other):
     assert self.isvalid and all([x.isvalid for x in other])
     assert not (self.isclosed and all([x.isclosed for x in other]))
 
-    _sum = self.segments
+    _sum = list(self.segments)
     for s in other:
+        if _sum[-1].j != s.first_point:  # not equal: connected by a segment
+            _sum.append(LineSegment(_sum[-1].j, s.first_point))
         _sum += s.segments
 
     _ret = PolygonLine(_sum)
-- 
2.43.0


From 54593359696659dd2180e8598e48f34ec950f199 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 15/37] fix: a cw arc visits its points in order

---
 geometry/SR_polygon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index f00d5d5..815064e 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1733,7 +1733,9 @@ def arc(P=None, r=None, alpha_start=0, alpha_end=360, n=10, cw=False):
     for st in range(n+1):
         _deg = (st * degstep) % 360
         nodes.append([r * math.cos(math.radians(_deg)), r * math.sin(math.radians(_deg))])
-    pl = polygon_from_nodes(nodes=nodes, cw=cw)
+    if cw:
+        nodes.reverse()  # an open line, it begins at the other end
+    pl = polygon_from_nodes(nodes=nodes)
     pl.rotate_about_origin(phi=alpha_start)
     if isinstance(P, Point):
         pl.move(x0=P.x, y0=P.y)
-- 
2.43.0


From a557c0b85f9568ad1b33442fe8ec4eeaba29cad7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 16/37] fix: order works with more than 250 segments

---
 geometry/SR_polygon.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 815064e..9dbcec4 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -237,9 +237,6 @@ class PolygonLine(object):
             _end = _nxt.j
             _akt = _nxt
 
-            if count > 500:
-                raise Exception('WTF')
-
         # finished ordering the polygon
         # making sure the resulting polygon is always the same: sorting the segments so that the first is the one
         # that has its i endpoint the closest to the origin
-- 
2.43.0


From 4f027b366fdbaf873fc794e8768e777f1d54c02c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 17/37] fix: appending an already used point keeps the polygon
 purged, so transformations move all its points

---
 geometry/SR_polygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 9dbcec4..dc15517 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -256,6 +256,7 @@ class PolygonLine(object):
         """
         assert p.isvalid  # a Point object
 
+        p = next((x for x in self.all_points if x == p), p)  # an equal Point already used is shared
         self._segments.append(LineSegment(self.last_point, p))
 
     def append_point_at_beginning(self, p=EMPTY):
@@ -266,6 +267,7 @@ class PolygonLine(object):
         """
         assert p.isvalid  # a Point object
 
+        p = next((x for x in self.all_points if x == p), p)  # an equal Point already used is shared
         self._segments.insert(0, LineSegment(p, self.first_point))
 
     def add_internal_point(self, p=EMPTY, segment=None):
-- 
2.43.0


From d974c35cbc6305da7a75b6aa526de57dafbfd95f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 18/37] fix: the area and triangulation are not kept when the
 polygon changes

---
 geometry/SR_polygon.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index dc15517..fdf20c2 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -97,7 +97,9 @@ class PolygonLine(object):
         return self._triangles
 
     def _delete_triangles(self):
+        """ forgets what was calculated from the segments: the triangulation and the area """
         self._triangles = set()
+        self.__dict__.pop('area', None)
 
     @property
     def segments(self):
@@ -256,6 +258,7 @@ class PolygonLine(object):
         """
         assert p.isvalid  # a Point object
 
+        self._delete_triangles()
         p = next((x for x in self.all_points if x == p), p)  # an equal Point already used is shared
         self._segments.append(LineSegment(self.last_point, p))
 
@@ -267,6 +270,7 @@ class PolygonLine(object):
         """
         assert p.isvalid  # a Point object
 
+        self._delete_triangles()
         p = next((x for x in self.all_points if x == p), p)  # an equal Point already used is shared
         self._segments.insert(0, LineSegment(p, self.first_point))
 
@@ -426,6 +430,7 @@ class PolygonLine(object):
     def close(self):
         """ adds a segment to close the plygon """
         if self.isopen:
+            self._delete_triangles()
             self._segments.append(LineSegment(self.last_point, self.first_point))
         else:
             pass
@@ -550,6 +555,7 @@ class PolygonLine(object):
         _cp = math.cos(math.radians(phi))  # sin(phi) shorthand
         _sp = math.sin(math.radians(phi))  # cos(phi) shorthand
         self.purge()
+        self._delete_triangles()
         for _p in self.point_set:
             _c = (_p.x * _cp - _p.y * _sp, _p.x * _sp + _p.y * _cp)  # "exact values"
             _c = tuple([round(x, int(PRECISION)) for x in _c])  # rounding to "PRRECISION" number of decimals
@@ -558,12 +564,14 @@ class PolygonLine(object):
     def mirror_vertical(self, x0):
         """ Mirrors the segment on a vertical line located at x0 """
         self.purge()
+        self._delete_triangles()
         for _p in self.point_set:
             _p._set_coords(coords=(_p.x - 2 * (_p.x - x0), _p.y))
 
     def move(self, x0=None, y0=None):
         """ Moves the polygon by x0, y0 units """
         self.purge()
+        self._delete_triangles()
         # for s in self._segments:
         #     s.move(x0=x0, y0=y0)
         for _p in self.point_set:
-- 
2.43.0


From 0381b08d1cd5e0a3fefea6059d9440886d1039c3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 19/37] fix: Mantel.isvalid accepts rounding errors of the axis
 position

---
 SR_Vessel/SR_hauptteile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index af68e05..355164c 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 
-from geometry.SR_point import Point
+from geometry.SR_point import Point, EPS
 from geometry.SR_line import LineSegment, point_on_line_at_ratio
 from geometry.SR_polygon import PolygonLine, arc, intersecting_lines, simplify
 from geometry.SR_polygon_group import PolygonGroup, BehalterGraph, Graph
@@ -707,7 +707,7 @@ class Mantel(Hauptteil):
         _ok = []
         _ok.append((_s[0].i.y == _s[1].j.y))  # lower points y coordinates
         _ok.append((_s[0].j.y == _s[1].i.y))  # upper points y coordinates
-        _ok.append((_s[0].i.x + _s[1].j.x) / 2 == (_s[0].j.x + _s[1].i.x) / 2)  # axis vertical
+        _ok.append(abs((_s[0].i.x + _s[1].j.x) / 2 - (_s[0].j.x + _s[1].i.x) / 2) < EPS)  # axis vertical
         if not all(_ok):
             return False
 
-- 
2.43.0


From 927d833a4f8a9a1f5f202812de2d535f1ab1da2d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 20/37] fix: walk_segments notices branches whatever the
 direction of the segments

---
 geometry/SR_polygon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index fdf20c2..cdb6ffd 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1842,6 +1842,9 @@ def walk_segments(segments=(), startingpoint=None):
     The polygon doesn't have to be ordered, but needs to be closed to walk it.
     """
 
+    if not segments:
+        return False
+
     if startingpoint is None:
         startingpoint = segments[0].i
 
@@ -1856,7 +1859,7 @@ def walk_segments(segments=(), startingpoint=None):
             _nextsegment = [x for x in _not_visited if _aktpt in x.ij and x != _aktsegment]  # non-ordered solution
             if not _nextsegment:
                 return False
-        if len(_nextsegment) > 1:
+        if len([x for x in _not_visited if _aktpt in x.ij and x != _aktsegment]) > 1:  # whatever their direction
             _has_branch = True
         _nextsegment = _nextsegment[0]
 
-- 
2.43.0


From fcf73bc403ecc1c3e34bcb52d047e1a1ca0cee0f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 21/37] fix: a room whose area happens to be the sum of other
 rooms' areas is kept

---
 geometry/SR_polygon_group.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 915f40d..23024bb 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -650,8 +650,10 @@ class BehalterGraph(PolygonGroup):
                 combs = itertools.combinations(polygons, comblen)
                 for comb in combs:
                     _all_tris = list(itertools.chain.from_iterable([x.triangles for x in comb]))
-                    for p in polygons:
-                        if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS:
+                    for p in list(polygons):
+                        # the areas being equal is not enough, the others have to be inside as well
+                        if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS and \
+                                all([p.is_internal_point(p=tri.midpoint) for tri in _all_tris]):
                             _removed_polygons.add(p)
                             polygons.remove(p)
 
-- 
2.43.0


From 9c90ad42c5937367a70cd5965f71fdc65d2b1d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:58 +0000
Subject: [PATCH 22/37] fix: segments_in_cycles finds the split wall of a cycle
 whatever the direction of its segments

---
 geometry/SR_polygon_group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 23024bb..4c54b90 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -535,9 +535,9 @@ class BehalterGraph(PolygonGroup):
             # finding the polygons that make up a segment
             # loose_subset: during finding the cycles some PolyGonlines are generated, these have the same segments as
             # the originals but may be slightly different (order, direction etc.)
-            # any(): partial overlap, e.g. when one of the original polygons is split by a raumende
+            # any(): partial overlap, e.g. when one of the original polygons is split by a raumende, whatever the direction
             _ret[k] = [x for x in self.polygons if v.loose_subset(other=x)
-                       or any([y in x.segments for y in v.segments])]
+                       or any([y.loose_equal(z) for y in v.segments for z in x.segments])]
 
         return _ret
 
-- 
2.43.0


From 02f37ddbf4ed6d04b6d91e45bfe1665b922e091b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 23/37] fix: the inner walls of a raum are those of the vessels
 inside it, whichever raume have common walls

---
 SR_Vessel/SR_hauptteile.py | 58 ++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 355164c..10f62f7 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -282,36 +282,34 @@ class Behalter(PolygonGroup):
 
                     # print('there are internal walls')
 
-                    _cycles_to_check = self.contained_cycles[c]
-                    # first, check the cycles that are overlapping (if any)
-                    _iw = []  # innere Wandung
-                    _visited = []
-                    for k, v in self.overlaps_in_cycles.items():  # k: tuple of cycles that have common segment, eg. (0, 1)
-                        # first run
-                        if not _visited:
-                            _iw.append([])
-                            for s in k:
-                                _iw[-1] += [x for x in sic[s] if x not in self.all_overlapping_segments]
-
-                        # later runs
-                        for vindex, _v in enumerate(_visited):
-                            if any([x in _v for x in k]):  # we saw this earlier!
-                                for s in k:
-                                    _iw[vindex] += [x for x in sic[s] if x not in self.all_overlapping_segments]
-                            else:
-                                _iw.append([])
-                                for s in k:
-                                    _iw[-1] += [x for x in sic[s] if x not in self.all_overlapping_segments]
-
-                        _visited.append(k)
-                        _cycles_to_check = [x for x in _cycles_to_check if x not in k]
-
-                    _r.cycle.append(_iw)
-                    _r._innere_wandung += _iw
-
-                    # the cycles, that are not overlapping
-                    for x in _cycles_to_check:
-                        _r._innere_wandung.append(sic[x])
+                    _contained = self.contained_cycles
+                    _overlaps = set(self.overlaps_in_cycles.keys())  # tuples of cycles with common walls, eg. (0, 1)
+                    _overlapping_segments = self.all_overlapping_segments
+
+                    # grouping the contained cycles: the cycles of a group are connected by common walls
+                    _groups = []
+                    _cycles_to_check = list(_contained[c])
+                    while _cycles_to_check:
+                        _group = [_cycles_to_check.pop(0)]
+                        for g in _group:  # the group is growing meanwhile
+                            _neighbours = [x for x in _cycles_to_check if tuple(sorted([g, x])) in _overlaps]
+                            _cycles_to_check = [x for x in _cycles_to_check if x not in _neighbours]
+                            _group += _neighbours
+                        _groups.append(_group)
+
+                    for _group in _groups:
+                        # the common walls are in the aussere Wandung already, the group is not inside
+                        if any([tuple(sorted([c, g])) in _overlaps for g in _group]):
+                            continue
+                        # the group is inside another one, so it has nothing to do with this raum
+                        _others = itertools.chain.from_iterable([x for x in _groups if x is not _group])
+                        if any([g in _contained[x] for x in _others for g in _group]):
+                            continue
+                        # only the outer walls of the group
+                        _r._innere_wandung.append([x for g in _group for x in sic[g]
+                                                   if len(_group) == 1 or x not in _overlapping_segments])
+
+                    _r.cycle.append(_r._innere_wandung)
 
                 else:
                     _r._innere_wandung = []
-- 
2.43.0


From e142b863a3bdb776bdc7e02041631cfaf2049797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:41 +0000
Subject: [PATCH 24/37] fix: several polygons may contain others, vessels can
 be nested deeper

---
 geometry/SR_polygon_group.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 4c54b90..105384e 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -708,11 +708,8 @@ class BehalterGraph(PolygonGroup):
 
             if len(polygons) != len(_rret):
 
-                # the polygons that are not included in _rret; this is the outer shell or the inner shell
+                # the polygons that are not included in _rret; these are the outer shells or the inner shells
                 _left_out = [x for x in polygons if x not in _rret and not any([x.loose_equal(y) for y in _rret])]
-                if len(_left_out) != 1:
-                    raise Exception('WTF')
-                _left_out = _left_out[0]  # there is only one
 
                 # _rret is a list of polygon-combinations.
                 # for non-double-walled behalters _ret is a list, where the elements may not be overlapping
@@ -733,7 +730,7 @@ class BehalterGraph(PolygonGroup):
                     # oc[1].plot(show=True, title='%r' % [x.area for x in oc])
                     # print([x in _left_out for x in oc])
                     # if any([x in _left_out for x in oc]):  # that contain one from the polygons left out previously
-                    if _left_out == oc[0]:  # that contain one from the polygons left out previously
+                    if oc[0] in _left_out:  # that contain one from the polygons left out previously
                         if all((oc[0].is_internal_point(p=x) for x in oc[1].point_set)) and \
                                         oc[0] not in _to_add and oc[0] not in _rret:
                             # oc[0].plot(show=True, title='thisis, oc[0], %.2f' % oc[0].area)
-- 
2.43.0


From 772be605f2a65e0f6a96dacf4d4a03a718a02ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:30 +0000
Subject: [PATCH 25/37] fix: common_part of touching segments is the common
 endpoint, whatever the rounding error of the intersection point

---
 geometry/SR_line.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index c030e7d..6ea50bd 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -422,9 +422,11 @@ class LineSegment(object):
                 return None
 
         else:
-            ip = self.intersection_point(other)  # intersection point
-            if self.intersection_on_segment(other) or self.touch(other):
-                return ip
+            # the common endpoint. the intersection_point may be far from it, if the lines are almost parallel
+            if self.touch(other):
+                return Point([A.xy for A in self.ij if any(distance(A, B) < EPS for B in other.ij)][0])
+            elif self.intersection_on_segment(other):
+                return self.intersection_point(other)
             else:
                 return None
 
-- 
2.43.0


From e3d07f37f78885885a0d26d33962da3ce729b686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:49 +0000
Subject: [PATCH 26/37] fix: isconvex accepts the rounding errors of straight
 sections

---
 geometry/SR_polygon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index cdb6ffd..0919e58 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -452,7 +452,10 @@ class PolygonLine(object):
         assert self.isvalid
 
         # criterium is: sign of cross product of consequtive segments is the same
-        if all([x >= 0 for x in self.cps]) or all([x <= 0 for x in self.cps]):  # Zero: 180 degree
+        # Zero: 180 degree, within the accepted numerical error
+        _next = self.segments[1:] + self.segments[:1]
+        _cps = [0 if x.is_parallel(y) else cp for x, y, cp in zip(self.segments, _next, self.cps)]
+        if all([x >= 0 for x in _cps]) or all([x <= 0 for x in _cps]):
             return True
         else:
             return False
-- 
2.43.0


From 7aed1e5b6c2557e8491cf0484b5fa8208365cd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:50 +0000
Subject: [PATCH 27/37] fix: StandZarge.from_dict makes a StandZarge

---
 SR_Vessel/SR_hauptteile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 10f62f7..17c8324 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -626,7 +626,7 @@ class Mantel(Hauptteil):
     @classmethod
     def from_dict(cls, adict):
         try:
-            mantel = Mantel(
+            mantel = cls(
                 name=adict['name'],
                 pos_v=adict['pos_v'],
                 pos_h=adict['pos_h'],
-- 
2.43.0


From f71bb28ef774a2e136e4d726c34c169b084f3c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:50 +0000
Subject: [PATCH 28/37] fix: as_edgelist raised a TypeError, the nodes are
 numbered as documented

---
 geometry/SR_polygon_group.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 105384e..6b07084 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -267,8 +267,7 @@ class PolygonGroup(object):
     def as_edgelist(self):
         """ Prepares a list of segments, where each node has a separate value (int), to be used in MCB """
         _conn = self.points_numbered
-        # graph = sorted([(_conn[s.i], _conn[s.j]) for s in self.all_segments])
-        graph = sorted([(s.i, s.j) for s in self.all_segments])
+        graph = sorted([(_conn[s.i], _conn[s.j]) for s in self.all_segments])
         return graph
 
     def as_adjacency_list(self, as_numbered=False):
-- 
2.43.0


From 67da2bb65a17e0dcf36a629fb761508533f51f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:50 +0000
Subject: [PATCH 29/37] fix: sphere_line_intersection raised a NameError for
 tangents

---
 geometry/additional_stuff.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/geometry/additional_stuff.py b/geometry/additional_stuff.py
index 95ec420..f781a14 100644
--- a/geometry/additional_stuff.py
+++ b/geometry/additional_stuff.py
@@ -34,8 +34,6 @@ def sphere_line_intersection(l1, l2, sp, r):
         pass  # no intersections
     elif i == 0.0:
         # one intersection
-        p[0] = 1.0
-
         mu = -b / (2.0 * a)
         p1 = (l1[0] + mu * (l2[0] - l1[0]),
               l1[1] + mu * (l2[1] - l1[1]),
-- 
2.43.0


From e9a2631200249df05a3844f9b338d0bafdc55a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:18 +0000
Subject: [PATCH 30/37] fix: building a vessel does not turn around the
 segments of its parts

---
 geometry/SR_polygon_group.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 6b07084..61e21d2 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -3,6 +3,7 @@
 from geometry.SR_point import EPS
 from geometry.SR_polygon import PolygonLine, convex_hull, remove_outlier_segments, walk_segments
 from cached_property import cached_property
+import copy
 import itertools
 from geometry.SR_polygon import TRIANGULATION_ALGORITHM
 from collections import Counter
@@ -86,7 +87,7 @@ class PolygonGroup(object):
         for k, v in self.segments_in_cycles.items():  # dict with cycle: points in cycle (integer numbered)
             segs = list(itertools.chain.from_iterable([x.wall_segments for x in v]))  # all segments in the cycle
 
-            _ch = PolygonLine(remove_outlier_segments(segs))
+            _ch = PolygonLine(copy.deepcopy(remove_outlier_segments(segs)))  # the walls are not to be turned around
             _ch.order()
 
             # _ret[k] = [self.points_numbered[x] for x in itertools.chain([x.i for x in _ch.segments])]  # Points, ordered
@@ -581,7 +582,7 @@ class BehalterGraph(PolygonGroup):
                     continue
 
                 # make a polygonline from the current segments and order it
-                _polygon = PolygonLine(list(p))
+                _polygon = PolygonLine(copy.deepcopy(list(p)))  # ordering it does not turn around the originals
                 # if it can be ordered then its is at least a closed loop
                 if not _polygon.order():
                     print('cont: unorderable')
-- 
2.43.0


From 63c5cacb22a128fb94c3e8c47e749b2c9a71e40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:21 +0000
Subject: [PATCH 31/37] fix: StandZarge.isvalid expects the lower wall in the
 graph

---
 SR_Vessel/SR_hauptteile.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 17c8324..8d30ae3 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -611,6 +611,8 @@ class Hauptteil(PolygonLine):
 
 
 class Mantel(Hauptteil):
+    graph_segments = 2  # number of segments in the graph
+
     def __init__(self, name=None, pos_v=None, pos_h=0, d=(), h=None):
         # super(Mantel, self).__init__(typ='mantel')
         self.name = name
@@ -697,8 +699,8 @@ class Mantel(Hauptteil):
 
         # checking if the graph is valid
         _s = self.graph.segments  # shorthand
-        # two segments
-        if len(_s) != 2:
+        # two segments, three for a StandZarge
+        if len(_s) != self.graph_segments:
             return False
 
         # coordinates
@@ -1292,6 +1294,8 @@ class KegelKrempe(Hauptteil):
 
 class StandZarge(Mantel):
     # same as a Mantel but the lower segment is a wall
+    graph_segments = 3  # the lower segment as well
+
     def __init__(self, name=None, pos_v=None, pos_h=0, d=(), h=None):
         super(StandZarge, self).__init__(name=name, pos_v=pos_v, pos_h=pos_h, d=d, h=h)
         self._segments = self.make_segments
-- 
2.43.0


From 9c810769aa2025adc3f5aa760cd245faf450a1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:41 +0000
Subject: [PATCH 32/37] fix: outlier segments are removed until no loose end is
 left

---
 geometry/SR_polygon.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 0919e58..e189513 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1676,10 +1676,17 @@ def simplify(polygon):
 
 
 def remove_outlier_segments(segs):
-    """ removes from segs the segments that have Endpoints with one degree """
-    _ch = PolygonLine(segs)
-    _sp = [x for x in _ch.all_points if _ch.all_points.count(x) == 1]
-    return [x for x in segs if not any([y in _sp for y in x.ij])]
+    """
+    removes from segs the segments that have Endpoints with one degree. The removal may leave further ones, so it is
+    repeated until there are none.
+    """
+    _ret = list(segs)
+    _sp = True
+    while _ret and _sp:
+        _all_points = PolygonLine(_ret).all_points
+        _sp = [x for x in _all_points if _all_points.count(x) == 1]
+        _ret = [x for x in _ret if not any([y in _sp for y in x.ij])]
+    return _ret
 
 
 def polygon_from_nodes(nodes, cw=False):
-- 
2.43.0


From 59f215336cdab66d3aada78a98cb97b64b356a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 33/37] fix: a floor that connects two points of a room is not
 a wall of the room

---
 geometry/SR_polygon_group.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 61e21d2..c034e4d 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -533,11 +533,9 @@ class BehalterGraph(PolygonGroup):
             # p.plot(show=True)
 
             # finding the polygons that make up a segment
-            # loose_subset: during finding the cycles some PolyGonlines are generated, these have the same segments as
-            # the originals but may be slightly different (order, direction etc.)
-            # any(): partial overlap, e.g. when one of the original polygons is split by a raumende, whatever the direction
-            _ret[k] = [x for x in self.polygons if v.loose_subset(other=x)
-                       or any([y.loose_equal(z) for y in v.segments for z in x.segments])]
+            # any(): at least one segment is common, whatever the direction. The endpoints being common is not enough:
+            # the segment of a Flachboden may connect points of the cycle without being part of it
+            _ret[k] = [x for x in self.polygons if any([y.loose_equal(z) for y in v.segments for z in x.segments])]
 
         return _ret
 
-- 
2.43.0


From c19bb958984f951409adb08487792f1305922531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 34/37] fix: areas are compared relative to their size when
 composed polygons are removed

---
 geometry/SR_polygon_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index c034e4d..73b8583 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -650,7 +650,7 @@ class BehalterGraph(PolygonGroup):
                     _all_tris = list(itertools.chain.from_iterable([x.triangles for x in comb]))
                     for p in list(polygons):
                         # the areas being equal is not enough, the others have to be inside as well
-                        if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS and \
+                        if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS * max(1, p.area) and \
                                 all([p.is_internal_point(p=tri.midpoint) for tri in _all_tris]):
                             _removed_polygons.add(p)
                             polygons.remove(p)
-- 
2.43.0


From 91d11f177e8fa1a27819e49be15551ac05baddb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:49 +0000
Subject: [PATCH 35/37] fix: the part below a knuckle ends at the upper end of
 the curve if there is no straight part

---
 SR_Vessel/SR_hauptteile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 8d30ae3..f199de5 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -1205,8 +1205,9 @@ class KegelKrempe(Hauptteil):
         if self.ht_unten is not None:
             _ht = self.ht_unten
             p1 = Point((_ht.pos_h + _ht.d[0] / 2., _ht.pos_v))
-            p2 = Point(_kre_re.last_segment.i.xy)
-            p3 = Point(_kre_li.last_segment.i.xy)
+            # the upper end of the curve: the straight part above belongs to ht_oben, if there is one
+            p2 = Point((_kre_re.last_segment.i if _ips[1] is not None else _kre_re.last_point).xy)
+            p3 = Point((_kre_li.last_segment.i if _ips[1] is not None else _kre_li.last_point).xy)
             p4 = Point((_ht.pos_h - _ht.d[0] / 2., _ht.pos_v))
             ri_vert = Wall(p1, p2)
             le_vert = Wall(p3, p4)
-- 
2.43.0


From 2a03eeaad5d0428b0a4eefbacd2147e7261b45db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 36/37] fix: descriptions with different numbers of rooms do
 not match

---
 SR_Vessel/SR_hauptteile.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index f199de5..c6861ed 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -48,6 +48,15 @@ def raum_dict_checker(dict_to_comapare=None, basedict=None):
             _raums.append(kk)
     _raums = list(set(itertools.chain.from_iterable(_raums)))
 
+    # the same for the reference, it may use other names but not another number of them
+    _baseraums = []
+    for k, v in basedict.items():
+        for kk in basedict[k].values():
+            _baseraums.append(kk)
+    _baseraums = list(set(itertools.chain.from_iterable(_baseraums)))
+    if len(_baseraums) != len(_raums):
+        raise Exception('Problem: %d rooms can not match %d rooms' % (len(_raums), len(_baseraums)))
+
     # the 'independent' values used for comparison
     _iv = [chr(x) for x in range(97, min(123, 97+len(_raums)))]
 
@@ -62,7 +71,7 @@ def raum_dict_checker(dict_to_comapare=None, basedict=None):
 
     # converting the result dict once
     _basedict = copy.deepcopy(basedict)
-    _basedict = convert(dtc=_basedict, _rs=_raums, p=_repldict[0])
+    _basedict = convert(dtc=_basedict, _rs=_baseraums, p=dict(zip(_baseraums, _iv)))
 
     # converting and checking for all pairs
     _res = []
-- 
2.43.0


From d6b7942c9c56658edf675cb96e1c1c1763978a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:59 +0000
Subject: [PATCH 37/37] fix: a room is not dropped when overlapping loops
 inside it have the same area in sum

---
 geometry/SR_polygon_group.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 73b8583..00e2020 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -649,9 +649,11 @@ class BehalterGraph(PolygonGroup):
                 for comb in combs:
                     _all_tris = list(itertools.chain.from_iterable([x.triangles for x in comb]))
                     for p in list(polygons):
-                        # the areas being equal is not enough, the others have to be inside as well
+                        # the areas being equal is not enough, the others have to be inside as well, beside each other
                         if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS * max(1, p.area) and \
-                                all([p.is_internal_point(p=tri.midpoint) for tri in _all_tris]):
+                                all([p.is_internal_point(p=tri.midpoint) for tri in _all_tris]) and \
+                                not any([x.is_internal_point(p=tri.midpoint)
+                                         for x, y in itertools.permutations(comb, 2) for tri in y.triangles]):
                             _removed_polygons.add(p)
                             polygons.remove(p)
 
-- 
2.43.0

