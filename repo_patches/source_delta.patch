From 2c5fe3ecb657724603e4b83f0ae3d16790036df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 001/100] fix: Path carries the transform its methods refer to

---
 svgio/path.py | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 078d4c4..d17593b 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1966,6 +1966,7 @@ class Path(MutableSequence):
     def __init__(self, *args, **kwargs):
         self._length = None
         self._lengths = None
+        self.transform = Matrix()
         self._segments = list()
         if len(args) != 1:
             self._segments.extend(args)
@@ -1992,6 +1993,7 @@ class Path(MutableSequence):
         segs = path._segments
         for i in range(0, len(segs)):
             segs[i] = copy(segs[i])
+        path.transform = copy(self.transform)
         return path
 
     def __getitem__(self, index):
@@ -2041,6 +2043,38 @@ class Path(MutableSequence):
             other = Matrix(other)
         if isinstance(other, Matrix):
             self.transform *= other
+            self.reify()
+        return self
+
+    def __imul__(self, other):
+        if isinstance(other, str):
+            other = Matrix(other)
+        if isinstance(other, Matrix):
+            self.transform *= other
+            return self
+        return NotImplemented
+
+    def __mul__(self, other):
+        if isinstance(other, (Matrix, str)):
+            n = copy(self)
+            n *= other
+            return n
+        return NotImplemented
+
+    __rmul__ = __mul__
+
+    def __abs__(self):
+        """Returns a copy of this path with the transform applied to the segments."""
+        return copy(self).reify()
+
+    def reify(self):
+        """Applies the transform to the segments and resets the transform."""
+        if not self.transform.is_identity():
+            for segment in self._segments:
+                segment *= self.transform
+            self.transform.reset()
+            self._length = None
+            self._lengths = None
         return self
 
     def __setitem__(self, index, new_element):
@@ -2123,9 +2157,9 @@ class Path(MutableSequence):
             return NotImplemented
         if len(self) != len(other):
             return False
-        p = self
-        q = other
-        for s, o in zip(q._segments, p._segments):
+        p = self.segments()
+        q = other.segments()
+        for s, o in zip(q, p):
             if not s == o:
                 return False
         return True
-- 
2.43.0


From ca445eff95769893f1cec3855cd2786b6a04219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 002/100] fix: Path(Path) and copies of a Path keep its
 segments

---
 svgio/path.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index d17593b..a76c2a1 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1973,7 +1973,11 @@ class Path(MutableSequence):
         else:
             s = args[0]
             if isinstance(s, Subpath):
-                self._segments.extend(s.segments(transformed=False))
+                self._segments.extend(map(copy, s.segments(transformed=False)))
+                self.transform = copy(s._path.transform)
+            elif isinstance(s, Path):
+                self._segments.extend(map(copy, s._segments))
+                self.transform = copy(s.transform)
             elif isinstance(s, str):
                 self._segments = list()
                 self.parse(s)
@@ -1989,12 +1993,7 @@ class Path(MutableSequence):
                 self._segments.append(s)
 
     def __copy__(self):
-        path = Path(self)
-        segs = path._segments
-        for i in range(0, len(segs)):
-            segs[i] = copy(segs[i])
-        path.transform = copy(self.transform)
-        return path
+        return Path(self)
 
     def __getitem__(self, index):
         return self._segments[index]
-- 
2.43.0


From 100007c55b3e95baf55ea34e8de4c04e238f102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 003/100] fix: Path repr is a valid constructor expression, as
 it is for Subpath and the segments

---
 svgio/path.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index a76c2a1..9dadba6 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2147,7 +2147,10 @@ class Path(MutableSequence):
         return self.d()
 
     def __repr__(self):
-        return "%s(%s)" % (self.__class__.__name__, self.d())
+        return "%s(%s)" % (
+            self.__class__.__name__,
+            ", ".join(repr(x) for x in self.segments()),
+        )
 
     def __eq__(self, other):
         if isinstance(other, str):
-- 
2.43.0


From 1bcd9e1e0bfab153b0f73b5ef9b9f453ef7ef1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 004/100] fix: smooth commands only reflect the control point
 of a curve of their own kind

---
 svgio/path.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 9dadba6..8c1d648 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2455,11 +2455,17 @@ class Path(MutableSequence):
         If the last command was not a curve, the smooth_point is coincident with the current.
         https://www.w3.org/TR/SVG/paths.html#PathDataCubicBezierCommands
         """
+        return self._smooth_point(QuadraticBezier, CubicBezier)
+
+    def _smooth_point(self, *curves):
+        """The smooth_point, if only the given types of curves are continued smoothly."""
 
         if len(self._segments) == 0:
             return None
         start_pos = self.current_point
         last_segment = self._segments[-1]
+        if not isinstance(last_segment, curves):
+            return start_pos
         if isinstance(last_segment, QuadraticBezier):
             previous_control = last_segment.control
             return previous_control.reflected_across(start_pos)
@@ -2532,7 +2538,7 @@ class Path(MutableSequence):
         the second control point in the previous path."""
         relative = kwargs["relative"] if "relative" in kwargs else False
         start_pos = self.current_point
-        control1 = self.smooth_point
+        control1 = self._smooth_point(QuadraticBezier)
         end_pos = points[0]
         if end_pos in ("z", "Z"):
             end_pos = self.z_point
@@ -2566,7 +2572,7 @@ class Path(MutableSequence):
         the second control point in the previous path."""
         relative = kwargs["relative"] if "relative" in kwargs else False
         start_pos = self.current_point
-        control1 = self.smooth_point
+        control1 = self._smooth_point(CubicBezier)
         control2 = points[0]
 
         if control2 in ("z", "Z"):
-- 
2.43.0


From 46433ce42a3b6140c6c6979578491a072eb5356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 005/100] fix: Point.__str__ keeps the exponent of large and
 small coordinates

---
 svgio/basic.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 11887ce..7c55a4c 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1527,11 +1527,7 @@ class Point:
             x_str = "%.12G" % self.x
         except TypeError:
             return self.__repr__()
-        if "." in x_str:
-            x_str = x_str.rstrip("0").rstrip(".")
         y_str = "%.12G" % self.y
-        if "." in y_str:
-            y_str = y_str.rstrip("0").rstrip(".")
         return "%s,%s" % (x_str, y_str)
 
     def __imul__(self, other):
-- 
2.43.0


From c5d0d1c9d5d3a8056560cd47eaa3e5633929c760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 006/100] fix: the sign of elliptical arc radii is ignored (SVG
 9.5.1)

---
 svgio/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 8c1d648..1e7ad99 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1595,6 +1595,8 @@ class Arc(Curve):
         self.start = start
         end = Point(end)
         self.end = end
+        rx = abs(rx)
+        ry = abs(ry)
         if start == end or rx == 0 or ry == 0:
             # If start is equal to end, there are infinite number of circles so these void out.
             # We still permit this kind of arc, but SVG parameterization cannot be used to achieve it.
-- 
2.43.0


From 015c582c67640977a060745e90f89954cf43635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 007/100] fix: horizontal and vertical commands without a
 coordinate or a current point are a ValueError

---
 svgio/path.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 1e7ad99..e85df81 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -71,6 +71,13 @@ class PathLexicalParser:
             return float(match.group())
         return None
 
+    def _axis_number(self):
+        """The single coordinate of a horizontal or vertical command, which needs a current point."""
+        value = self._number()
+        if value is None or self.parser.current_point is None:
+            raise ValueError
+        return value
+
     def _flag(self):
         while self.pos < self.limit:
             match = flag_re.match(self.pathd, self.pos)
@@ -175,26 +182,28 @@ class PathLexicalParser:
                         break
             elif cmd == "h":
                 while True:
-                    value = self._number()
+                    value = self._axis_number()
                     self.parser.horizontal(value, relative=True)
                     if not self._more():
                         break
             elif cmd == "H":
                 while True:
-                    value = self._number()
+                    value = self._axis_number()
                     self.parser.horizontal(value, relative=False)
                     if not self._more():
                         break
             elif cmd == "v":
                 while True:
-                    value = self._number()
+                    value = self._axis_number()
                     self.parser.vertical(value, relative=True)
                     if not self._more():
                         break
             elif cmd == "V":
-                while self._more():
-                    value = self._number()
+                while True:
+                    value = self._axis_number()
                     self.parser.vertical(value, relative=False)
+                    if not self._more():
+                        break
             elif cmd == "c":
                 while True:
                     coord1, coord2, coord3 = (
-- 
2.43.0


From 55b8126f2caa91d6aa243b8cf907db77817da44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 008/100] fix: elliptical arc commands with missing parameters
 are a ValueError

---
 svgio/path.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index e85df81..d9402d3 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -310,7 +310,7 @@ class PathLexicalParser:
                         self._flag(),
                         self._rcoord(),
                     )
-                    if sweep is None:
+                    if None in (rx, ry, rotation, arc, sweep):
                         raise ValueError
                     if coord is None:
                         coord = self.inline_close
@@ -327,6 +327,8 @@ class PathLexicalParser:
                         self._flag(),
                         self._coord(),
                     )
+                    if None in (rx, ry, rotation, arc, sweep):
+                        raise ValueError
                     if coord is None:
                         coord = self.inline_close
                         if coord is None:
-- 
2.43.0


From 54e3ad72ca01b729d6310ff2d8d036a102b03be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 009/100] fix: CubicBezier control2 may be given without
 control1

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index d9402d3..d971c8f 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -944,7 +944,7 @@ class CubicBezier(Curve):
     def __init__(self, start, control1, control2, end, **kwargs):
         Curve.__init__(self, start, end, **kwargs)
         self.control1 = Point(control1) if control1 is not None else None
-        self.control2 = Point(control2) if control1 is not None else None
+        self.control2 = Point(control2) if control2 is not None else None
 
     def __repr__(self):
         return "CubicBezier(start=%s, control1=%s, control2=%s, end=%s)" % (
-- 
2.43.0


From a63a2113f4313d89f2c9dff894ed0f95903df0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 010/100] fix: an Arc built from its end, center and sweep
 finds its start

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index d971c8f..f6e6221 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1386,7 +1386,7 @@ class Arc(Curve):
         if self.sweep is not None and self.start is None and self.end is not None:
             end_t = self.get_end_t()
             start_t = end_t - self.sweep
-            self.end = self.point_at_t(start_t)
+            self.start = self.point_at_t(start_t)
 
     def __repr__(self):
         return "Arc(%s, %s, %s, %s, %s, %s)" % (
-- 
2.43.0


From 8dc4d585230e592812616c71b6847fc586eae3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 011/100] fix: Close is not confused with Move in the Subpath
 bounding box

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index f6e6221..de4f377 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2995,7 +2995,7 @@ class Subpath:
     def bbox(self):
         """returns a bounding box for the input Path"""
         segments = self._path._segments[self._start : self._end + 1]
-        bbs = [seg.bbox() for seg in segments if not isinstance(Close, Move)]
+        bbs = [seg.bbox() for seg in segments if not isinstance(seg, Move)]
         try:
             xmins, ymins, xmaxs, ymaxs = list(zip(*bbs))
         except ValueError:
-- 
2.43.0


From cf0105e98b7d5e4d48970329a17260bb45999a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 012/100] fix: Subpath.d passes the smooth option on

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index de4f377..7154359 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -3008,7 +3008,7 @@ class Subpath:
 
     def d(self, relative=None, smooth=None):
         segments = self._path._segments[self._start : self._end + 1]
-        return Path.svg_d(segments, relative=relative, smooth=None)
+        return Path.svg_d(segments, relative=relative, smooth=smooth)
 
     def _reverse_segments(self, start, end):
         """Reverses segments between the given indexes in the subpath space."""
-- 
2.43.0


From 4f7226780ddb5494675a9c15d82ab351022e62db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 013/100] fix: closest point of a zero length segment is its
 point

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 7154359..1ace826 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -696,7 +696,7 @@ class Linear(PathSegment):
         sq_distance_ab = v_ab_x * v_ab_x + v_ab_y * v_ab_y
         ab_ap_product = v_ab_x * v_ap_x + v_ab_y * v_ap_y
         if sq_distance_ab == 0:
-            return 0  # Line is point.
+            return Point(a)  # Line is point.
         amount = ab_ap_product / float(sq_distance_ab)
         if respect_bounds:
             if amount > 1:
-- 
2.43.0


From de4ea7ec10ee7e61fdb303381b4c39d37bfb6918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 014/100] fix: edits of a path keep every connection linked

---
 svgio/path.py | 73 ++++++++++++++-------------------------------------
 1 file changed, 19 insertions(+), 54 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 1ace826..13dfb86 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2102,26 +2102,12 @@ class Path(MutableSequence):
         self._segments[index] = new_element
         self._length = None
         self._lengths = None
-        if isinstance(index, slice):
-            self.validate_connections()
-        else:
-            self._validate_connection(index - 1)
-            self._validate_connection(index)
-            if isinstance(new_element, Move):
-                self._validate_move(index)
-            if isinstance(new_element, Close):
-                self._validate_close(index)
+        self.validate_connections()
 
     def __delitem__(self, index):
-        original_element = self._segments[index]
         del self._segments[index]
         self._length = None
-        if isinstance(index, slice):
-            self.validate_connections()
-        else:
-            self._validate_connection(index - 1)
-            if isinstance(original_element, (Close, Move)):
-                self._validate_subpath(index)
+        self.validate_connections()
 
     def __iadd__(self, other):
         if isinstance(other, str):
@@ -2290,33 +2276,6 @@ class Path(MutableSequence):
         self._calc_lengths(error, min_depth)
         return self._length
 
-    def _validate_subpath(self, index):
-        """ensure the subpath containing this index is valid."""
-        if index < 0 or index + 1 >= len(self._segments):
-            return  # This connection doesn't exist.
-        for j in range(index, len(self._segments)):
-            close_search = self._segments[j]
-            if isinstance(close_search, Move):
-                return  # Not a closed path, subpath is valid.
-            if isinstance(close_search, Close):
-                for k in range(index, -1, -1):
-                    move_search = self._segments[k]
-                    if isinstance(move_search, Move):
-                        self._segments[j].end = Point(move_search.end)
-                        return
-                self._segments[j].end = Point(self._segments[0].end)
-                return
-
-    def _validate_move(self, index):
-        """ensure the next closed point from this index points to a valid location."""
-        for i in range(index + 1, len(self._segments)):
-            segment = self._segments[i]
-            if isinstance(segment, Move):
-                return  # Not a closed path, the move is valid.
-            if isinstance(segment, Close):
-                segment.end = Point(self._segments[index].end)
-                return
-
     def _validate_close(self, index):
         """ensure the close element at this position correctly links to the previous move"""
         for i in range(index, -1, -1):
@@ -2357,7 +2316,7 @@ class Path(MutableSequence):
         tokens = PathLexicalParser()
         tokens.parse(self, pathdef)
 
-    def validate_connections(self):
+    def validate_connections(self, index=0):
         """
         Force validate all connections.
 
@@ -2366,10 +2325,19 @@ class Path(MutableSequence):
         when combining paths and elements together. Close elements are always connected to the last Move element or to
         the end position of the first element in the list. The start element of the first segment may or may not be
         None.
+
+        If an index is given only the connections from the segment at that index on are validated.
         """
         zpoint = None
         last_segment = None
-        for segment in self._segments:
+        if index > 0:
+            last_segment = self._segments[index - 1]
+            zpoint = self._segments[0].end
+            for i in range(index - 1, -1, -1):
+                if isinstance(self._segments[i], Move):
+                    zpoint = self._segments[i].end
+                    break
+        for segment in self._segments[index:]:
             if zpoint is None or isinstance(segment, Move):
                 zpoint = segment.end
             if last_segment is not None:
@@ -2668,24 +2636,21 @@ class Path(MutableSequence):
             value = Path(value)
             if len(value) == 0:
                 return
+            if len(value) > 1:
+                self[index:index] = value
+                return
             value = value[0]
         self._length = None
         self._segments.insert(index, value)
-        self._validate_connection(index - 1)
-        self._validate_connection(index)
-        if isinstance(value, Move):
-            self._validate_move(index)
-        if isinstance(value, Close):
-            self._validate_close(index)
+        self.validate_connections()
 
     def extend(self, iterable):
         if isinstance(iterable, str):
             iterable = Path(iterable)
         self._length = None
-        index = len(self._segments) - 1
+        index = len(self._segments)
         self._segments.extend(iterable)
-        self._validate_connection(index)
-        self._validate_subpath(index)
+        self.validate_connections(index)
 
     def direct_close(self):
         """Forces close operations to be zero length by introducing a direct
-- 
2.43.0


From e2e9e905ec4c55d0f7ca1ec33fc005c2736c804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 015/100] fix: operators on segments and paths do not link or
 share their operands

---
 svgio/path.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 13dfb86..e06fb15 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -386,10 +386,10 @@ class PathSegment:
 
     def __iadd__(self, other):
         if isinstance(other, PathSegment):
-            path = Path(self, other)
+            path = Path([copy(self), copy(other)])
             return path
         elif isinstance(other, str):
-            path = Path(self) + other
+            path = Path(copy(self)) + other
             return path
         return NotImplemented
 
@@ -2121,6 +2121,8 @@ class Path(MutableSequence):
         return self
 
     def __add__(self, other):
+        if isinstance(other, PathSegment):
+            other = copy(other)
         if isinstance(other, (str, Path, Subpath, PathSegment)):
             n = copy(self)
             n += other
@@ -2134,7 +2136,7 @@ class Path(MutableSequence):
             return path
         elif isinstance(other, PathSegment):
             path = copy(self)
-            path.insert(0, other)
+            path.insert(0, copy(other))
             return path
         else:
             return NotImplemented
-- 
2.43.0


From 4ca944e0742970c97342eb19d4f7b08397a0b4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 016/100] fix: a subpath indexes, edits and concatenates its
 own window of the path

---
 svgio/path.py | 50 ++++++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index e06fb15..7a275fa 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2831,26 +2831,34 @@ class Subpath:
         return self._path[self.index_to_path_index(index)]
 
     def __setitem__(self, index, value):
+        size = len(self._path)
         self._path[self.index_to_path_index(index)] = value
+        self._end += len(self._path) - size
 
     def __delitem__(self, index):
+        size = len(self._path)
         del self._path[self.index_to_path_index(index)]
-        self._end -= 1
+        self._end += len(self._path) - size
 
     def __iadd__(self, other):
+        size = len(self._path)
+        end = self._end + 1
         if isinstance(other, str):
             p = Path(other)
-            self._path[self._end : self._end] = p
+            self._path[end:end] = p
         elif isinstance(other, Path):
             p = copy(other)
-            self._path[self._end : self._end] = p
+            self._path[end:end] = p
         elif isinstance(other, PathSegment):
-            self._path.insert(self._end, other)
+            self._path.insert(end, other)
         else:
             return NotImplemented
+        self._end += len(self._path) - size
         return self
 
     def __add__(self, other):
+        if isinstance(other, PathSegment):
+            other = copy(other)
         if isinstance(other, (str, Path, PathSegment)):
             n = copy(self)
             n += other
@@ -2860,11 +2868,11 @@ class Subpath:
     def __radd__(self, other):
         if isinstance(other, str):
             path = Path(other)
-            path.extend(map(copy, self._path))
+            path.extend(map(copy, self))
             return path
         elif isinstance(other, PathSegment):
             path = Path(self)
-            path.insert(0, other)
+            path.insert(0, copy(other))
             return path
         else:
             return NotImplemented
@@ -2940,23 +2948,17 @@ class Subpath:
         return path._segments[self._start : self._end + 1]
 
     def _numeric_index(self, index):
-        if index < 0:
-            return self._end + index + 1
-        else:
-            return self._start + index
+        size = len(self)
+        if not -size <= index < size:
+            raise IndexError("subpath index out of range")
+        return self._start + index % size
 
     def index_to_path_index(self, index):
         if isinstance(index, slice):
-            start = index.start
-            stop = index.stop
-            step = index.step
-            if start is None:
-                start = 0
-            start = self._numeric_index(start)
-            if stop is None:
-                stop = len(self)
-            stop = self._numeric_index(stop)
-            return slice(start, stop, step)
+            start, stop, step = index.indices(len(self))
+            start += self._start
+            stop += self._start
+            return slice(start, stop if stop >= 0 else None, step)
         return self._numeric_index(index)
 
     def bbox(self):
@@ -2980,8 +2982,10 @@ class Subpath:
     def _reverse_segments(self, start, end):
         """Reverses segments between the given indexes in the subpath space."""
         segments = self._path._segments  # must avoid path validation.
-        s = self.index_to_path_index(start)
-        e = self.index_to_path_index(end)
+        start += self._start
+        end += self._start
+        s = start
+        e = end
         while s <= e:
             start_segment = segments[s]
             end_segment = segments[e]
@@ -2992,8 +2996,6 @@ class Subpath:
                 segments[e] = start_segment
             s += 1
             e -= 1
-        start = self.index_to_path_index(start)
-        end = self.index_to_path_index(end)
         self._path._validate_connection(start - 1, prefer_second=True)
         self._path._validate_connection(end)
 
-- 
2.43.0


From d470ba77c2c857b9d8a9b042e42b0324d93d22c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 017/100] fix: reversing or transforming a part of a path
 discards its cached lengths

---
 svgio/path.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 7a275fa..384b15a 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2691,6 +2691,7 @@ class Path(MutableSequence):
             p += subpath
         self._segments = p._segments
         self._segments[0].start = prepoint
+        self._length = None
         return self
 
     def subpath(self, index):
@@ -2883,6 +2884,9 @@ class Subpath:
         if isinstance(other, Matrix):
             for e in self:
                 e *= other
+            self._path._length = None
+            self._path._validate_connection(self._start - 1)
+            self._path._validate_connection(self._end)
         return self
 
     def __mul__(self, other):
@@ -2981,6 +2985,7 @@ class Subpath:
 
     def _reverse_segments(self, start, end):
         """Reverses segments between the given indexes in the subpath space."""
+        self._path._length = None
         segments = self._path._segments  # must avoid path validation.
         start += self._start
         end += self._start
-- 
2.43.0


From 48cfba9e24b806ebffeb89cce82c131337ee23be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:47 +0000
Subject: [PATCH 018/100] fix: an arc remains an arc of its ellipse when skewed
 or mirrored

---
 svgio/path.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 384b15a..e0c6008 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1440,12 +1440,37 @@ class Arc(Curve):
                 self.prx *= other
             if self.pry is not None:
                 self.pry *= other
-            if other.value_scale_x() < 0:
-                self.sweep = -self.sweep
-            if other.value_scale_y() < 0:
+            if other.determinant < 0 and self.sweep is not None:
                 self.sweep = -self.sweep
+            self._realign_axes()
         return self
 
+    def _realign_axes(self):
+        """
+        Affine transformations turn the axes of the ellipse into conjugate diameters, which are only the axes of the
+        transformed ellipse if they are perpendicular.
+        """
+        if self.center is None or self.prx is None or self.pry is None:
+            return
+        ux = self.prx.x - self.center.x
+        uy = self.prx.y - self.center.y
+        vx = self.pry.x - self.center.x
+        vy = self.pry.y - self.center.y
+        u_sq = ux * ux + uy * uy
+        v_sq = vx * vx + vy * vy
+        dot = ux * vx + uy * vy
+        if abs(dot) <= 1e-12 * sqrt(u_sq * v_sq):
+            return
+        t = atan2(2 * dot, u_sq - v_sq) / 2.0
+        self.prx = Point(
+            self.center.x + ux * cos(t) + vx * sin(t),
+            self.center.y + uy * cos(t) + vy * sin(t),
+        )
+        self.pry = Point(
+            self.center.x + vx * cos(t) - ux * sin(t),
+            self.center.y + vy * cos(t) - uy * sin(t),
+        )
+
     def __len__(self):
         return 5
 
-- 
2.43.0


From 9056e5edbdb33e1d5bf2fbc87739d1b838e76211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:47 +0000
Subject: [PATCH 019/100] fix: an arc with a radius of zero is a straight line
 (SVG 9.5.1)

---
 svgio/path.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index e0c6008..a580f7b 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1510,6 +1510,8 @@ class Arc(Curve):
             if self.start == self.end and self.sweep == 0:
                 # This is equivalent of omitting the segment
                 return [self.start] * len(positions)
+            if self.sweep == 0:
+                return [Point.towards(self.start, self.end, pos) for pos in positions]
 
             start_t = self.get_start_t()
             return [
@@ -1533,6 +1535,9 @@ class Arc(Curve):
 
         if self.start == self.end and self.sweep == 0:
             xy[:, 0], xy[:, 1] = self.start
+        elif self.sweep == 0:
+            xy[:, 0] = np.interp(positions, [0, 1], [self.start.x, self.end.x])
+            xy[:, 1] = np.interp(positions, [0, 1], [self.start.y, self.end.y])
         else:
             t = self.get_start_t() + self.sweep * positions
 
@@ -1590,10 +1595,8 @@ class Arc(Curve):
         approximation, as for cubic bezier curves.
         """
         if self.sweep == 0:
-            return 0
-        if self.start == self.end and self.sweep == 0:
-            # This is equivalent of omitting the segment
-            return 0
+            # Without radii this is a line, and with equal ends it is equivalent of omitting the segment.
+            return Point.distance(self.end, self.start)
         a = self.rx
         b = self.ry
         d = abs(a - b)
@@ -1717,6 +1720,11 @@ class Arc(Curve):
         self.sweep = Angle.degrees(delta).as_radians
 
     def as_quad_curves(self, arc_required=None):
+        if self.sweep == 0:
+            if self.start != self.end:
+                mid = Point.towards(self.start, self.end, 0.5)
+                yield QuadraticBezier(self.start, mid, self.end)
+            return
         if arc_required is None:
             sweep_limit = tau / 12.0
             arc_required = int(ceil(abs(self.sweep) / sweep_limit))
@@ -1752,6 +1760,12 @@ class Arc(Curve):
             current_t = next_t
 
     def as_cubic_curves(self, arc_required=None):
+        if self.sweep == 0:
+            if self.start != self.end:
+                c1 = Point.towards(self.start, self.end, 1 / 3.0)
+                c2 = Point.towards(self.start, self.end, 2 / 3.0)
+                yield CubicBezier(self.start, c1, c2, self.end)
+            return
         if arc_required is None:
             sweep_limit = tau / 12.0
             arc_required = int(ceil(abs(self.sweep) / sweep_limit))
@@ -1929,7 +1943,7 @@ class Arc(Curve):
         Code from: https://github.com/mathandy/svgpathtools
         """
         if self.sweep == 0:
-            return self.start.x, self.start.y, self.end.x, self.end.y
+            return PathSegment.bbox(Line(self.start, self.end))
         phi = self.get_rotation().as_radians
         if cos(phi) == 0:
             atan_x = tau / 4.0
-- 
2.43.0


From aa0b7fa7fff361defbc7abb6fe0f8b634e51665e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:47 +0000
Subject: [PATCH 020/100] fix: the bounding box of a cubic with a vanishing
 cubic term is found by its linear derivative

---
 svgio/path.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index a580f7b..b8ccbbf 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1072,7 +1072,12 @@ class CubicBezier(Curve):
                 if 0 < r2 < 1:
                     local_extremizers.append(r2)
         else:
-            local_extremizers.append(0.5)
+            # The derivative is (nearly) linear.
+            b = 2 * (a[0] - 2 * a[1] + a[2])
+            if b != 0:
+                r = (a[0] - a[1]) / b
+                if 0 < r < 1:
+                    local_extremizers.append(r)
         local_extrema = [self.point(t)[v] for t in local_extremizers]
         return min(local_extrema), max(local_extrema)
 
-- 
2.43.0


From c15c107afb9308f6bb7782503cab0e3b1806f3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:47 +0000
Subject: [PATCH 021/100] fix: the points along a path follow the lengths of
 its segments

---
 svgio/path.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index b8ccbbf..73f21b5 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2251,32 +2251,28 @@ class Path(MutableSequence):
         # Shortcuts
         if self._length is None:
             self._calc_lengths(error=error, segments=segments)
+        positions = np.asarray(positions, dtype=float)
         xy = np.empty((len(positions), 2), dtype=float)
         if self._length == 0:
-            i = int(round(positions * (len(segments) - 1)))
-            point = segments[i].point(0.0)
-            xy[:] = point
+            for i, position in enumerate(positions):
+                xy[i, :] = list(self.point(position, error=error))
             return xy
 
         # Find which segment the point we search for is located on:
         segment_start = 0
         for index, segment in enumerate(segments):
             segment_end = segment_start + self._lengths[index]
-            position_subset = (segment_start <= positions) & (positions < segment_end)
+            position_subset = (segment_start < positions) & (positions <= segment_end)
             v0 = positions[position_subset]
-            if not len(v0):
-                continue  # Nothing matched.
-            d = segment_end - segment_start
-            if d == 0:  # This segment is 0 length.
-                segment_pos = 0.0
-            else:
-                segment_pos = (v0 - segment_start) / d
-            c = segment.npoint(segment_pos)
-            xy[position_subset] = c[:]
+            if len(v0):  # A segment with a length of 0 matches nothing.
+                segment_pos = (v0 - segment_start) / (segment_end - segment_start)
+                xy[position_subset] = segment.npoint(segment_pos)
             segment_start = segment_end
 
-        # the loop above will miss position == 1
-        xy[positions == 1] = np.array(list(segments[-1].end))
+        # the loop above will miss the ends, and what the rounded sum of the lengths left before position == 1
+        xy[positions > segment_start] = list(segments[-1].end)
+        xy[positions <= 0] = list(segments[0].point(0.0))
+        xy[positions >= 1] = list(segments[-1].end)
         return xy
 
     def point(self, position, error=ERROR):
@@ -2316,6 +2312,8 @@ class Path(MutableSequence):
                 segment_pos = (position - segment_start) / (segment_end - segment_start)
                 break
             segment_start = segment_end
+        else:
+            segment_pos = 1.0  # The rounded sum of the lengths fell short.
         return segment.point(segment_pos)
 
     def length(self, error=ERROR, min_depth=MIN_DEPTH):
-- 
2.43.0


From 3ef9118e4110d2ae5969f6c04df9fcb0b987f830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 022/100] fix: the bounding box of a cubic with a small cubic
 term does not lose its extrema to rounding

---
 svgio/path.py | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 73f21b5..72f8930 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1060,24 +1060,15 @@ class CubicBezier(Curve):
         local_extremizers = [0, 1]
         a = [c[v] for c in self]
         denom = a[0] - 3 * a[1] + 3 * a[2] - a[3]
-        if abs(denom) >= 1e-12:
-            delta = a[1] ** 2 - (a[0] + a[1]) * a[2] + a[2] ** 2 + (a[0] - a[1]) * a[3]
-            if delta >= 0:  # otherwise no local extrema
-                sqdelta = sqrt(delta)
-                tau = a[0] - 2 * a[1] + a[2]
-                r1 = (tau + sqdelta) / denom
-                r2 = (tau - sqdelta) / denom
-                if 0 < r1 < 1:
-                    local_extremizers.append(r1)
-                if 0 < r2 < 1:
-                    local_extremizers.append(r2)
-        else:
-            # The derivative is (nearly) linear.
-            b = 2 * (a[0] - 2 * a[1] + a[2])
-            if b != 0:
-                r = (a[0] - a[1]) / b
-                if 0 < r < 1:
-                    local_extremizers.append(r)
+        delta = a[1] ** 2 - (a[0] + a[1]) * a[2] + a[2] ** 2 + (a[0] - a[1]) * a[3]
+        if delta >= 0:  # otherwise no local extrema
+            # roots of the derivative, without the cancellation of the textbook formula for small denom.
+            sqdelta = sqrt(delta)
+            tau = a[0] - 2 * a[1] + a[2]
+            q = tau + sqdelta if tau >= 0 else tau - sqdelta
+            for n, d in ((q, denom), (a[0] - a[1], q)):
+                if d != 0 and 0 < n / d < 1:
+                    local_extremizers.append(n / d)
         local_extrema = [self.point(t)[v] for t in local_extremizers]
         return min(local_extrema), max(local_extrema)
 
-- 
2.43.0


From c076cd46bfc6009a0383c8d26680a7c4f0bd10bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 023/100] fix: QuadraticBezier.length survives nearly straight
 and doubling back curves

---
 svgio/path.py | 53 +++++++++++++++++++++------------------------------
 1 file changed, 22 insertions(+), 31 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 72f8930..c7d5d05 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1,5 +1,6 @@
 from .constants import *
 from .basic import *
+from math import asinh
 
 try:
     from math import tau
@@ -873,37 +874,27 @@ class QuadraticBezier(Curve):
 
     def length(self, error=None, min_depth=None):
         """Calculate the length of the path up to a certain position"""
-        a = self.start - 2 * self.control + self.end
-        b = 2 * (self.control - self.start)
-        try:
-            # For an explanation of this case, see
-            # http://www.malczak.info/blog/quadratic-bezier-curve-length/
-            A = 4 * (a.real ** 2 + a.imag ** 2)
-            B = 4 * (a.real * b.real + a.imag * b.imag)
-            C = b.real ** 2 + b.imag ** 2
-
-            Sabc = 2 * sqrt(A + B + C)
-            A2 = sqrt(A)
-            A32 = 2 * A * A2
-            C2 = 2 * sqrt(C)
-            BA = B / A2
-
-            s = (
-                A32 * Sabc
-                + A2 * B * (Sabc - C2)
-                + (4 * C * A - B ** 2) * log((2 * A2 + BA + Sabc) / (BA + C2))
-            ) / (4 * A32)
-        except (ZeroDivisionError, ValueError):
-            # a_dot_b = a.real * b.real + a.imag * b.imag
-            if abs(a) < 1e-10:
-                s = abs(b)
-            else:
-                k = abs(b) / abs(a)
-                if k >= 2:
-                    s = abs(b) - abs(a)
-                else:
-                    s = abs(a) * (k ** 2 / 2 - k + 1)
-        return s
+        ax = self.start.x - 2 * self.control.x + self.end.x
+        ay = self.start.y - 2 * self.control.y + self.end.y
+        bx = 2 * (self.control.x - self.start.x)
+        by = 2 * (self.control.y - self.start.y)
+        a = sqrt(ax * ax + ay * ay)
+        b = sqrt(bx * bx + by * by)
+        if a <= 1e-4 * b or a * a == 0:
+            # Nearly constant speed |2at + b|: Simpson's rule is exact up to the fourth order of a / b.
+            mid = sqrt((ax + bx) ** 2 + (ay + by) ** 2)
+            end = sqrt((2 * ax + bx) ** 2 + (2 * ay + by) ** 2)
+            return (b + 4 * mid + end) / 6.0
+        # The speed is 2a * sqrt(u^2 + k^2), with u the signed distance along a from the vertex of the parabola.
+        u0 = (ax * bx + ay * by) / (2 * a * a)
+        u1 = u0 + 1
+        k = abs(ax * by - ay * bx) / (2 * a * a)
+
+        def _integral(u):
+            r = sqrt(u * u + k * k)
+            return u * r + (k * k * asinh(u / k) if k * k > 0 else 0)
+
+        return a * (_integral(u1) - _integral(u0))
 
     def is_smooth_from(self, previous):
         """Checks if this segment would be a smooth segment following the previous"""
-- 
2.43.0


From cbbfe5ee8eb6fb49f8d0f7ca1b45e040ede7c2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:56 +0000
Subject: [PATCH 024/100] fix: path fragments without a move, and lone closes,
 can be reversed

---
 svgio/path.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index c7d5d05..47e9938 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2705,8 +2705,10 @@ class Path(MutableSequence):
     def reverse(self):
         if len(self._segments) == 0:
             return
-        prepoint = self._segments[0].start
-        self._segments[0].start = None
+        prepoint = None
+        if isinstance(self._segments[0], Move):
+            prepoint = self._segments[0].start
+            self._segments[0].start = None
         p = Path()
         subpaths = list(self.as_subpaths())
         for subpath in subpaths:
@@ -2714,7 +2716,8 @@ class Path(MutableSequence):
         for subpath in reversed(subpaths):
             p += subpath
         self._segments = p._segments
-        self._segments[0].start = prepoint
+        if isinstance(self._segments[0], Move):
+            self._segments[0].start = prepoint
         self._length = None
         return self
 
@@ -3045,7 +3048,7 @@ class Subpath:
             if isinstance(self[0], Move):
                 self[0].end = Point(self[1].start)
         last = self[-1]
-        if isinstance(last, Close):
+        if isinstance(last, Close) and size > 1:
             last.reverse()
             if last.start != self[-2].end:
                 last.start = Point(self[-2].end)
-- 
2.43.0


From 7d81ece893b9fcc87cf84e29f50076e1d0b3cd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 025/100] fix: lengths compare with the other length and not
 with themselves

---
 svgio/basic.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 7c55a4c..a3bfad1 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -309,13 +309,13 @@ class Length(object):
         if self.amount == other.amount and self.units == other.units:
             return True
         if s is not None:
-            o = self.in_pixels()
-            if abs(s - o) <= ERROR:
+            o = other.in_pixels()
+            if o is not None and abs(s - o) <= ERROR:
                 return True
         s = self.in_inches()
         if s is not None:
-            o = self.in_inches()
-            if abs(s - o) <= ERROR:
+            o = other.in_inches()
+            if o is not None and abs(s - o) <= ERROR:
                 return True
         return False
 
@@ -327,9 +327,9 @@ class Length(object):
         if self.units == "px" or self.units == "":
             return self.amount
         if self.units == "pt":
-            return self.amount / 1.3333
+            return self.amount * 1.3333
         if self.units == "pc":
-            return self.amount / 16.0
+            return self.amount * 16.0
         return None
 
     def in_inches(self):
-- 
2.43.0


From 3ea0aca502c1df2faeeaf4abb8dc174b3f4fa73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 026/100] fix: vmin and vmax are the smaller and larger of the
 viewbox dimensions

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index a3bfad1..1249eb5 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -463,13 +463,13 @@ class Length(object):
             if viewbox is None:
                 return self
             v = Viewbox(viewbox)
-            m = min(v.height, v.height)
+            m = min(v.width, v.height)
             return self.amount * m / 100.0
         if self.units == "vmax":
             if viewbox is None:
                 return self
             v = Viewbox(viewbox)
-            m = max(v.height, v.height)
+            m = max(v.width, v.height)
             return self.amount * m / 100.0
         try:
             return float(self)
-- 
2.43.0


From 640e51121c33175341ebb272282b00f0cd187412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 027/100] fix: ex is a length unit, cx is not

---
 svgio/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/constants.py b/svgio/constants.py
index d5c9d15..eaf72ed 100644
--- a/svgio/constants.py
+++ b/svgio/constants.py
@@ -118,7 +118,7 @@ PATTERN_WS = r"[\s\t\n]*"
 PATTERN_COMMA = r"(?:\s*,\s*|\s+|(?=-))"
 PATTERN_COMMAWSP = r"[ ,\t\n\x09\x0A\x0C\x0D]+"
 PATTERN_FLOAT = r"[-+]?[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?"
-PATTERN_LENGTH_UNITS = "cm|mm|Q|in|pt|pc|px|em|cx|ch|rem|vw|vh|vmin|vmax"
+PATTERN_LENGTH_UNITS = "cm|mm|Q|in|pt|pc|px|em|ex|ch|rem|vw|vh|vmin|vmax"
 PATTERN_ANGLE_UNITS = "deg|grad|rad|turn"
 PATTERN_TIME_UNITS = "s|ms"
 PATTERN_FREQUENCY_UNITS = "Hz|kHz"
-- 
2.43.0


From 6d079fb250bc1635923e90d6c38982c6fdaec058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 028/100] fix: aliceblue is rgb(240, 248, 255)

---
 svgio/basic.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 1249eb5..522f98e 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -684,8 +684,6 @@ class Color(object):
             v = v.replace(" ", "").lower()
         if v == "transparent":
             return Color.rgb_to_int(0, 0, 0, 0.0)
-        if v == "aliceblue":
-            return Color.rgb_to_int(250, 248, 255)
         if v == "aliceblue":
             return Color.rgb_to_int(240, 248, 255)
         if v == "antiquewhite":
-- 
2.43.0


From fe4b8b4eac3aad11a17410b4666e063194c5cbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 029/100] fix: fractional rgb() channels are rounded instead of
 failing

---
 svgio/basic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 522f98e..3d41cc2 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1006,9 +1006,9 @@ class Color(object):
     @staticmethod
     def parse_color_rgb(values):
         """Parse SVG Color, RGB value declarations """
-        r = int(values[0])
-        g = int(values[1])
-        b = int(values[2])
+        r = round(float(values[0]))
+        g = round(float(values[1]))
+        b = round(float(values[2]))
         if values[3] is not None:
             opacity = float(values[3])
         else:
-- 
2.43.0


From 14b0965f6a5a630e9528f4a2b51b5de4abf1e842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 030/100] fix: the hue of a hsl() color wraps around

---
 svgio/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 3d41cc2..062704c 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -640,6 +640,7 @@ class Color(object):
                 return v1 + (v2 - v1) * ((2.0 / 3.0) - vh) * 6.0
             return v1
 
+        h %= 1.0
         if s == 0.0:
             r = 255.0 * l
             g = 255.0 * l
-- 
2.43.0


From 01b0e4b72e7c294df1b8abb1a2e2e6d6de3b09af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 031/100] fix: hue, saturation and lightness are set in the
 units they are read in, and keep the alpha

---
 svgio/basic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 062704c..fce93dc 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1416,7 +1416,8 @@ class Color(object):
         h = value[0]
         s = value[1]
         l = value[2]
-        self.value = Color.hsl_to_int(h, s, l, 1.0)
+        opacity = 1.0 if self.value is None else self.opacity
+        self.value = Color.hsl_to_int(Angle.degrees(h).as_turns, s, l, opacity)
 
     def distance_to(self, other):
         return Color.distance(self, other)
-- 
2.43.0


From b9f100df1ac6844ca180985e81ce2a7496380208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 032/100] fix: Color.over accepts color strings

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index fce93dc..70e4b21 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1328,11 +1328,11 @@ class Color(object):
         Returns c1 over c2. This is the standard painter algorithm.
         """
         if isinstance(c1, str):
-            c1 = Color.parse(c1)
+            c1 = Color(c1)
         elif isinstance(c1, int):
             c1 = Color(c1)
         if isinstance(c2, str):
-            c2 = Color.parse(c2)
+            c2 = Color(c2)
         elif isinstance(c2, int):
             c2 = Color(c2)
         r1 = c1.red
-- 
2.43.0


From 78252ce717dc8794157003974116cc011926a0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 033/100] fix: Color.distance_sq only scales its red and blue
 terms

---
 svgio/basic.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 70e4b21..3168157 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1391,9 +1391,11 @@ class Color(object):
         r = c1.red - c2.red
         g = c1.green - c2.green
         b = c1.blue - c2.blue
-        return (((512 + red_mean) * r * r) >> 8) + 4 * g * g + (
-            (767 - red_mean) * b * b
-        ) >> 8
+        return (
+            (((512 + red_mean) * r * r) >> 8)
+            + 4 * g * g
+            + (((767 - red_mean) * b * b) >> 8)
+        )
 
     @staticmethod
     def crimp(v):
-- 
2.43.0


From 5111e4430de8d3775552e9e585fca094e18dbc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 034/100] fix: indexing a Matrix beyond its components is an
 IndexError, so iterating one ends

---
 svgio/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 3168157..797eda4 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2018,6 +2018,7 @@ class Matrix:
             return self.e
         elif item == 5:
             return self.f
+        raise IndexError
 
     def __setitem__(self, key, value):
         if key == 0:
-- 
2.43.0


From 3ffbcc9b95433f9c5a7ec044b53fd1570c1aca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 035/100] fix: equality of angles wraps around at full turns

---
 svgio/basic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 797eda4..94ef1c9 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1838,8 +1838,11 @@ class Angle(float):
 
     def __eq__(self, other):
         # Python 2
-        c1 = abs((self % tau) - (other % tau)) <= 1e-11
-        return c1
+        difference = (self - other) % tau
+        return difference <= 1e-11 or tau - difference <= 1e-11
+
+    def __ne__(self, other):
+        return not self == other
 
     def normalized(self):
         return Angle(self % tau)
-- 
2.43.0


From f575d98ca6ad90040171559976ece01d4232cf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 036/100] fix: Point.convex_hull yields the corners of the hull
 for aligned points

---
 svgio/basic.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 94ef1c9..90aa65a 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1786,21 +1786,20 @@ class Point:
     def convex_hull(pts):
         if len(pts) == 0:
             return
-        points = sorted(set(pts), key=lambda p: p[0])
-        first_point_on_hull = points[0]
-        point_on_hull = first_point_on_hull
-        while True:
-            yield point_on_hull
-            endpoint = point_on_hull
-            for t in points:
-                if (
-                    point_on_hull is endpoint
-                    or Point.orientation(point_on_hull, t, endpoint) == 2
+        points = sorted(set(pts), key=lambda p: (p[0], p[1]))
+        if len(points) == 1:
+            yield points[0]
+            return
+        for chain in (points, points[::-1]):
+            hull = []  # half of the hull, from one extreme point to the other.
+            for t in chain:
+                while (
+                    len(hull) >= 2 and Point.orientation(hull[-2], hull[-1], t) != 2
                 ):
-                    endpoint = t
-            point_on_hull = endpoint
-            if first_point_on_hull is point_on_hull:
-                break
+                    hull.pop()
+                hull.append(t)
+            for point_on_hull in hull[:-1]:
+                yield point_on_hull
 
     @staticmethod
     def distance(p1, p2):
-- 
2.43.0


From ef185f885e1e2b9c2d308b75fc93fd1ac737f584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 037/100] fix: powers of points are those of the complex number

---
 svgio/basic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 90aa65a..0814e72 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1726,15 +1726,15 @@ class Point:
         r_raised = abs(self) ** other
         argz_multiplied = self.argz() * other
 
-        real_part = round(r_raised * cos(argz_multiplied))
-        imag_part = round(r_raised * sin(argz_multiplied))
+        real_part = r_raised * cos(argz_multiplied)
+        imag_part = r_raised * sin(argz_multiplied)
         return self.__class__(real_part, imag_part)
 
     def conjugate(self):
         return self.__class__(self.real, -self.imag)
 
     def argz(self):
-        return atan(self.imag / self.real)
+        return atan2(self.imag, self.real)
 
     @property
     def real(self):
-- 
2.43.0


From ebde4bf2d8263263928bc4f19681748b0dac96d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 038/100] fix: Node.xml does not need the removed cElementTree
 module

---
 svgio/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index deee891..d632a08 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -69,7 +69,7 @@ class Node(list):
         return self._name().lower()
 
     def xml(self, context=None):
-        from xml.etree.cElementTree import Element, SubElement, tostring
+        from xml.etree.ElementTree import Element, SubElement, tostring
 
         if context is None:
             context = Element(self.tag())
-- 
2.43.0


From 80a96cbdd867dabed9ebe7150cfa1315a1bc6c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 039/100] fix: every bootstrapped element can be created while
 parsing

---
 svgio/nodes.py | 29 +++--------------------------
 1 file changed, 3 insertions(+), 26 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index d632a08..ea511b9 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1391,7 +1391,7 @@ class ClipPath(Element):
         return self.__class__.__name__
 
 
-class Mask(ContainerElement):
+class Mask(ContainerElement, Element):
     # maskContentUnits
     # maskUnits
 
@@ -1639,7 +1639,8 @@ class Image(Element, GraphicalElement, Transformable):
     which are quite useful and would be ideal for reading the linked or contained data.
     """
 
-    def __init__(self):
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
         self.image = None
         self.image_width = None
         self.image_height = None
@@ -1802,9 +1803,6 @@ class Title(DescriptiveElement, Element):
 
 
 class Metadata(DescriptiveElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
@@ -1860,25 +1858,16 @@ class SVG(Group, ContainerElement, StructuralElement):
 
 
 class Defs(ContainerElement, StructuralElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class Symbol(ContainerElement, StructuralElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class Marker(ContainerElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
@@ -1909,17 +1898,11 @@ class Use(StructuralElement, Element):
 
 
 class Switch(ContainerElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class Style(Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
@@ -1951,17 +1934,11 @@ class Hyperlink(ContainerElement, Element):
 
 
 class LinearGradient(Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class RadialGradient(Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
-- 
2.43.0


From df695e633b001d3983eb5b9544d1989b167be6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 040/100] fix: the elements of a document are saved with the
 tags they were loaded with

---
 svgio/nodes.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index ea511b9..09ec194 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -44,6 +44,7 @@ class Node(list):
         super().__init__()
         self.document = None
         self.parent = None
+        self._tag = None  # tag of the parsed element
         self.attributes = dict()
         self.attributes.update(kwargs)
 
@@ -71,10 +72,11 @@ class Node(list):
     def xml(self, context=None):
         from xml.etree.ElementTree import Element, SubElement, tostring
 
+        tag = self._tag if self._tag is not None else self.tag()
         if context is None:
-            context = Element(self.tag())
+            context = Element(tag)
         else:
-            context = SubElement(context, self.tag())
+            context = SubElement(context, tag)
         for k in self.attributes:
             v = self.attributes[k]
             context.set(str(k), str(v))
@@ -109,6 +111,7 @@ class Node(list):
                     node = type_node()
                 except KeyError:
                     node = Node()
+                node._tag = tag
                 node.attributes = attributes
                 node.parent = parent
                 node.document = document
@@ -1385,7 +1388,7 @@ class ClipPath(Element):
         return values.get(SVG_ATTR_CLIP_UNIT_TYPE, SVG_UNIT_TYPE_USERSPACEONUSE)
 
     def tag(self):
-        return "clip-path"
+        return "clipPath"
 
     def _name(self):
         return self.__class__.__name__
@@ -1921,6 +1924,9 @@ class Script(Element):
 
 
 class Hyperlink(ContainerElement, Element):
+    def tag(self):
+        return "a"
+
     @property
     def href(self):
         values = Document.get_values(self)
@@ -1934,11 +1940,17 @@ class Hyperlink(ContainerElement, Element):
 
 
 class LinearGradient(Element):
+    def tag(self):
+        return "linearGradient"
+
     def _name(self):
         return self.__class__.__name__
 
 
 class RadialGradient(Element):
+    def tag(self):
+        return "radialGradient"
+
     def _name(self):
         return self.__class__.__name__
 
@@ -2305,9 +2317,13 @@ BOOTSTRAP = {
     "title": Title,
     "desc": Desc,
     "metadata": Metadata,
+    "switch": Switch,
+    "clipPath": ClipPath,
     "clip-path": ClipPath,
     "mask": Mask,
+    "linearGradient": LinearGradient,
     "lineargradient": LinearGradient,
+    "radialGradient": RadialGradient,
     "radialgradient": RadialGradient,
     "pattern": Pattern,
 }
-- 
2.43.0


From 275a40db2a370f880d412357bb90afbc111c6d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 041/100] fix: the text of a loaded document is saved with it

---
 svgio/nodes.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 09ec194..2c44230 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -45,6 +45,8 @@ class Node(list):
         self.document = None
         self.parent = None
         self._tag = None  # tag of the parsed element
+        self._text = None  # text before the first child
+        self._tail = None  # text following this node
         self.attributes = dict()
         self.attributes.update(kwargs)
 
@@ -80,8 +82,10 @@ class Node(list):
         for k in self.attributes:
             v = self.attributes[k]
             context.set(str(k), str(v))
+        context.text = self._text
         for c in self:
             c.xml(context)
+            context[-1].tail = c._tail
         return tostring(context, encoding="unicode")
 
     def parse(self, source):
@@ -123,7 +127,13 @@ class Node(list):
                         attributes[SVG_ATTR_ID]
                     ] = node  # store node value in defs.
             elif event == "end":
-                # event is 'end', pop values.
+                # event is 'end', the text is only complete now. Formatting whitespace is not kept.
+                if elem.text is not None and elem.text.strip():
+                    node._text = elem.text
+                for child, child_elem in zip(node, elem):
+                    if child_elem.tail is not None and child_elem.tail.strip():
+                        child._tail = child_elem.tail
+                # pop values.
                 node = node.parent  # Parent is now node.
 
     @property
-- 
2.43.0


From 21904f91c9b4844d275b1242fdb70f5ba55d9a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 042/100] fix: a document writes its elements as xml

---
 svgio/nodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 2c44230..c32c419 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -466,8 +466,9 @@ class Document(Node):
         self.parse(filename)
 
     def write(self, filename):
-        with io.open(filename, mode="w") as output:
-            output.write(str(self))
+        with io.open(filename, mode="w", encoding="utf-8") as output:
+            for node in self:
+                output.write(node.xml())
 
     def render(self):
         pass
-- 
2.43.0


From 10ea5d7f6161dc5d134589fb35fbaf751d41a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 043/100] fix: elements built or added through the api are
 linked like parsed elements

---
 svgio/nodes.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index c32c419..7af2ddf 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -407,6 +407,9 @@ class ElementBuilder:
         node.document = self.document
         node.parent = self.parent
         self.parent.append(node)
+        if self.document is not None and SVG_ATTR_ID in node.attributes:
+            self.document.objects[node.attributes[SVG_ATTR_ID]] = node
+        return node
 
 
 class Document(Node):
@@ -453,7 +456,15 @@ class Document(Node):
         return values
 
     def add(self, node):
+        node.parent = self
         self.append(node)
+        nodes = [node]
+        while nodes:
+            node = nodes.pop()
+            node.document = self
+            if SVG_ATTR_ID in node.attributes:
+                self.objects[node.attributes[SVG_ATTR_ID]] = node
+            nodes.extend(node)
 
     def get_element_by_id(self, id):
         return self.objects.get(id)
-- 
2.43.0


From a609454b6d12ac3ec68ba545d49074b39f0ffe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 044/100] fix: siblings are found by identity, in the direction
 asked for

---
 svgio/nodes.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 7af2ddf..9bfc492 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -178,11 +178,18 @@ class Node(list):
         :return:
         """
         try:
-            index = self.parent.index(self)
+            index = self._child_index()
             return self.parent[index + 1]
         except (AttributeError, IndexError):
             return None
 
+    def _child_index(self):
+        """index of this very node, and not merely an equal one, within its parent"""
+        for index, node in enumerate(self.parent or ()):
+            if node is self:
+                return index
+        raise IndexError
+
     @property
     def node_type(self):
         """
@@ -222,7 +229,7 @@ class Node(list):
         :return:
         """
         try:
-            index = self.parent.index(self)
+            index = self._child_index()
             if index == 0:
                 return None
             return self.parent[index - 1]
@@ -389,7 +396,7 @@ class Element(Node):
 
     @property
     def previous_element_sibling(self):
-        return self.next_sibling
+        return self.previous_sibling
 
     @property
     def shadow_root(self):
-- 
2.43.0


From 22d9b2985d3b9a79b05f1ba650294b4fdfba68fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 045/100] fix: stroke applies the stroke-opacity instead of
 recursing

---
 svgio/nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 9bfc492..50fe063 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -567,11 +567,11 @@ class GraphicalElement:
         stroke_opacity = values.get(SVG_ATTR_STROKE_OPACITY)
         if (
             stroke_opacity is not None
-            and self.stroke is not None
-            and self.stroke.value is not None
+            and stroke is not None
+            and stroke.value is not None
         ):
             try:
-                self.stroke.opacity = float(stroke_opacity)
+                stroke.opacity = float(stroke_opacity)
             except ValueError:
                 pass
         return stroke
-- 
2.43.0


From 6b0153eedd881c433673c9136687b63ea0be182c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 046/100] fix: Close is not confused with Move in the bounding
 box of shapes

---
 svgio/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 50fe063..754b464 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -691,7 +691,7 @@ class Shape(Element, GraphicalElement, Transformable):
         bbs = [
             seg.bbox()
             for seg in self.segments(transformed=transformed)
-            if not isinstance(path.Close, path.Move)
+            if not isinstance(seg, path.Move)
         ]
         try:
             xmins, ymins, xmaxs, ymaxs = list(zip(*bbs))
-- 
2.43.0


From 660a101c33d7adb53cfcd6f9d4b93564895edb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 047/100] fix: the positional arguments of Circle are its
 center and radius

---
 svgio/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 754b464..70003a9 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1113,8 +1113,8 @@ class Circle(_RoundShape):
 
     def __init__(self, *args, **kwargs):
         try:
-            kwargs[SVG_ATTR_X] = args[0]
-            kwargs[SVG_ATTR_Y] = args[1]
+            kwargs[SVG_ATTR_CENTER_X] = args[0]
+            kwargs[SVG_ATTR_CENTER_Y] = args[1]
             kwargs[SVG_ATTR_RADIUS] = args[2]
         except IndexError:
             pass
-- 
2.43.0


From 080aac3f352e18f3b132d9d3c84b0287db6652d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 048/100] fix: Text elements print as the other elements do

---
 svgio/nodes.py | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 70003a9..22c6ecb 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1559,24 +1559,6 @@ class Text(TextContentElement, Element, GraphicalElement, Transformable):
     #
     #     self.path = None
 
-    def __str__(self):
-        parts = list()
-        parts.append("'%s'" % self.text)
-        parts.append("font_family=%s" % self.font_family)
-        parts.append("anchor=%s" % self.anchor)
-        parts.append("font_size=%d" % self.font_size)
-        parts.append("font_weight=%s" % str(self.font_weight))
-        return "Text(%s)" % (", ".join(parts))
-
-    def __repr__(self):
-        parts = list()
-        parts.append("%s" % self.text)
-        parts.append("font_family=%s" % self.font_family)
-        parts.append("anchor=%s" % self.anchor)
-        parts.append("font_size=%d" % self.font_size)
-        parts.append("font_weight=%s" % str(self.font_weight))
-        return "Text(%s)" % (", ".join(parts))
-
     @property
     def x(self):
         values = Document.get_values(self)
-- 
2.43.0


From 14fa89c136cedc57fecd5874beb29f04935fc160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 049/100] fix: Image.data decodes the url of the image

---
 svgio/nodes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 22c6ecb..b627706 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1662,18 +1662,20 @@ class Image(Element, GraphicalElement, Transformable):
     @property
     def data(self):
         url = self.href
+        if url is None:
+            return None
         if url.startswith("data:image/"):
             # Data URL
             from base64 import b64decode
 
             if url.startswith("data:image/png;base64,"):
-                return b64decode(self.url[22:])
+                return b64decode(url[22:])
             elif url.startswith("data:image/jpg;base64,"):
-                return b64decode(self.url[22:])
+                return b64decode(url[22:])
             elif url.startswith("data:image/jpeg;base64,"):
-                return b64decode(self.url[23:])
+                return b64decode(url[23:])
             elif url.startswith("data:image/svg+xml;base64,"):
-                return b64decode(self.url[26:])
+                return b64decode(url[26:])
 
     @property
     def x(self):
-- 
2.43.0


From 9b27194860b1b7db7519205c9a74dba4508c1e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:58 +0000
Subject: [PATCH 050/100] fix: an arc command without parameters raises
 ValueError

---
 svgio/path.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 47e9938..3204150 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -302,6 +302,8 @@ class PathLexicalParser:
                     if not self._more():
                         break
             elif cmd == "a":
+                if not self._more():
+                    raise ValueError
                 while self._more():
                     rx, ry, rotation, arc, sweep, coord = (
                         self._number(),
@@ -319,6 +321,8 @@ class PathLexicalParser:
                             raise ValueError
                     self.parser.arc(rx, ry, rotation, arc, sweep, coord, relative=True)
             elif cmd == "A":
+                if not self._more():
+                    raise ValueError
                 while self._more():
                     rx, ry, rotation, arc, sweep, coord = (
                         self._number(),
-- 
2.43.0


From 8b0d10526e9af4bc47baac04669a18e4d7ba5f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 051/100] fix: an arc without a current point raises ValueError

---
 svgio/path.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 3204150..2eb7079 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -91,6 +91,16 @@ class PathLexicalParser:
             return bool(int(match.group()))
         return None
 
+    def _arc_end(self, coord):
+        """The end point of an arc, which needs a current point, and a point to close to if it closes."""
+        if coord is None:
+            coord = self.inline_close
+            if coord is None or self.parser.z_point is None:
+                raise ValueError
+        if self.parser.current_point is None:
+            raise ValueError
+        return coord
+
     def _coord(self):
         x = self._number()
         if x is None:
@@ -315,10 +325,7 @@ class PathLexicalParser:
                     )
                     if None in (rx, ry, rotation, arc, sweep):
                         raise ValueError
-                    if coord is None:
-                        coord = self.inline_close
-                        if coord is None:
-                            raise ValueError
+                    coord = self._arc_end(coord)
                     self.parser.arc(rx, ry, rotation, arc, sweep, coord, relative=True)
             elif cmd == "A":
                 if not self._more():
@@ -334,10 +341,7 @@ class PathLexicalParser:
                     )
                     if None in (rx, ry, rotation, arc, sweep):
                         raise ValueError
-                    if coord is None:
-                        coord = self.inline_close
-                        if coord is None:
-                            raise ValueError
+                    coord = self._arc_end(coord)
                     self.parser.arc(rx, ry, rotation, arc, sweep, coord, relative=False)
         self.parser.end()
 
-- 
2.43.0


From 1a6e3aa41b72822310f6f9540c76e9dbedbbe489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 052/100] fix: a smooth command after a curve without a control
 point starts at the current point

---
 svgio/path.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 2eb7079..79dae76 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2481,13 +2481,14 @@ class Path(MutableSequence):
         last_segment = self._segments[-1]
         if not isinstance(last_segment, curves):
             return start_pos
+        previous_control = None
         if isinstance(last_segment, QuadraticBezier):
             previous_control = last_segment.control
-            return previous_control.reflected_across(start_pos)
         elif isinstance(last_segment, CubicBezier):
             previous_control = last_segment.control2
-            return previous_control.reflected_across(start_pos)
-        return start_pos
+        if previous_control is None or start_pos is None:
+            return start_pos
+        return previous_control.reflected_across(start_pos)
 
     def start(self):
         pass
-- 
2.43.0


From 0a4e70f1cf7bd0d5adcd963a9d4a95ad72a253d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 053/100] fix: an empty backward slice of a subpath is empty

---
 svgio/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 79dae76..c001256 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2998,6 +2998,8 @@ class Subpath:
             start, stop, step = index.indices(len(self))
             start += self._start
             stop += self._start
+            if start < 0:
+                return slice(0, 0, step)  # A backward slice from before the start.
             return slice(start, stop if stop >= 0 else None, step)
         return self._numeric_index(index)
 
-- 
2.43.0


From 40c64f496886b0df993390392255add6a7f59069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:37 +0000
Subject: [PATCH 054/100] fix: reversing a closed subpath keeps the move after
 it connected

---
 svgio/path.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgio/path.py b/svgio/path.py
index c001256..488ecce 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -3065,4 +3065,5 @@ class Subpath:
                 last.start = Point(self[-2].end)
             if last.end != self[0].end:
                 last.end = Point(self[0].end)
+            self._path._validate_connection(self._end)
         return self
-- 
2.43.0


From 53db81dd1ed87447cef834421ccbe87a9cd07e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:37 +0000
Subject: [PATCH 055/100] fix: the ends of straight segments are exact without
 numpy

---
 svgio/path.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 488ecce..b4f4909 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -686,7 +686,14 @@ class Linear(PathSegment):
             xy[:, 1] = np.interp(positions, [0, 1], [self.start.y, self.end.y])
             return xy
         except ImportError:
-            return [Point.towards(self.start, self.end, pos) for pos in positions]
+            return [
+                Point(self.start)
+                if pos == 0
+                else Point(self.end)
+                if pos == 1
+                else Point.towards(self.start, self.end, pos)
+                for pos in positions
+            ]
 
     def length(self, error=None, min_depth=None):
         if self.start is not None and self.end is not None:
@@ -1506,7 +1513,7 @@ class Arc(Curve):
                 # This is equivalent of omitting the segment
                 return [self.start] * len(positions)
             if self.sweep == 0:
-                return [Point.towards(self.start, self.end, pos) for pos in positions]
+                return Line(self.start, self.end).npoint(positions)
 
             start_t = self.get_start_t()
             return [
-- 
2.43.0


From 39e99fc63ace8e4f786be693ff1f5ab376aa95a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:37 +0000
Subject: [PATCH 056/100] fix: the closest point of a line may lie beyond its
 ends when these are not respected

---
 svgio/path.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index b4f4909..e5d9e9e 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -719,7 +719,8 @@ class Linear(PathSegment):
                 amount = 1
             if amount < 0:
                 amount = 0
-        return self.point(amount)
+            return self.point(amount)
+        return Point.towards(a, b, amount)
 
     def d(self, current_point=None, relative=None, smooth=None):
         raise NotImplementedError
-- 
2.43.0


From 190cafa96d063f689a18816b142ef5e7f881e61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:25 +0000
Subject: [PATCH 057/100] fix: the length of a cubic curve takes its cusps into
 account

---
 svgio/path.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index e5d9e9e..8ac76d6 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1094,7 +1094,19 @@ class CubicBezier(Curve):
                 + 3 * (p3 - p2) * t ** 2
             )
 
-        return quad(_abs_derivative, 0.0, 1.0, epsabs=error, limit=1000)[0]
+        # The derivative is quadratic in t: next to its (complex) roots the speed has the kinks of cusps and turns.
+        a = p3 - 3 * p2 + 3 * p1 - p0
+        b = p2 - 2 * p1 + p0
+        c = p1 - p0
+        d = (b * b - a * c) ** 0.5
+        q = -b - d if abs(b + d) >= abs(b - d) else d - b
+        kinks = {
+            (n / m).real for n, m in ((q, a), (c, q)) if abs(n) < 1e12 * abs(m)
+        }
+        kinks = [t for t in kinks if 0 < t < 1]
+        return quad(
+            _abs_derivative, 0.0, 1.0, epsabs=error, limit=1000, points=kinks or None
+        )[0]
 
     def _length_default(self, error=ERROR, min_depth=MIN_DEPTH):
         return self._line_length(0, 1, error, min_depth)
-- 
2.43.0


From 7daf7f30877f2e6009b0ea368d8688178ea2ea1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:40 +0000
Subject: [PATCH 058/100] fix: a quarter arc asked to go counter-clockwise does
 so and reaches its end

---
 svgio/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 8ac76d6..bfe3297 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1345,10 +1345,10 @@ class Arc(Curve):
                 self.sweep = tau / 4.0
                 self.center = Point(self.start.x, self.end.y)
                 cw = bool(Point.orientation(self.start, self.center, self.end) == 1)
-                if "scooped" in kwargs and kwargs["scooped"]:
+                if kwargs.get("scooped") or kwargs.get("ccw"):
                     self.sweep = -self.sweep
                     cw = not cw
-                if ("ccw" in kwargs and kwargs["ccw"] and cw) or not cw:
+                if not cw:
                     self.center = Point(self.end.x, self.start.y)
 
         if self.center is None:
-- 
2.43.0


From eae12d4434576eff309a965077577690bec43f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:40 +0000
Subject: [PATCH 059/100] fix: six keywords with a rotation may describe an arc
 by its center and axes

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index bfe3297..aec4f99 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1199,7 +1199,7 @@ class Arc(Curve):
         if len(args) == 6 and isinstance(args[1], complex):
             self._svg_complex_parameterize(*args)
             return
-        elif len(kwargs) == 6 and "rotation" in kwargs:
+        elif len(kwargs) == 6 and "rotation" in kwargs and "radius" in kwargs:
             self._svg_complex_parameterize(**kwargs)
             return
         elif len(args) == 7:
-- 
2.43.0


From e0eb0249fbcd1d0b3f1ff436a6835661f7f775f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:03 +0000
Subject: [PATCH 060/100] fix: arcs with nearly coinciding ends, and whole
 turns given as an Angle, are not mistaken for lines

---
 svgio/path.py | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index aec4f99..3ef1ca0 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1241,7 +1241,7 @@ class Arc(Curve):
             if args[4] is not None:
                 self.pry = Point(args[4])
         if len_args > 5:
-            self.sweep = args[5]
+            self.sweep = args[5] if args[5] is None else float(args[5])
             return  # The args gave us everything.
         if "start" in kwargs:
             self.start = Point(kwargs["start"])
@@ -1255,6 +1255,8 @@ class Arc(Curve):
             self.pry = Point(kwargs["pry"])
         if "sweep" in kwargs:
             self.sweep = kwargs["sweep"]
+            if self.sweep is not None:
+                self.sweep = float(self.sweep)  # Angles a turn apart are equal
         cw = True  # Clockwise default. (sometimes needed)
         if self.start is not None and self.end is not None and self.center is None:
             # Start and end, but no center.
@@ -1697,28 +1699,12 @@ class Arc(Curve):
         uy = (y1prim - cyprim) / ry
         vx = (-x1prim - cxprim) / rx
         vy = (-y1prim - cyprim) / ry
-        n = sqrt(ux * ux + uy * uy)
-        p = ux
-        # theta = degrees(acos(p / n))
-        # if uy < 0:
-        #     theta = -theta
-        # theta = theta % 360
-
-        n = sqrt((ux * ux + uy * uy) * (vx * vx + vy * vy))
-        p = ux * vx + uy * vy
-        d = p / n
-        # In certain cases the above calculation can through inaccuracies
-        # become just slightly out of range, f ex -1.0000000000000002.
-        if d > 1.0:
-            d = 1.0
-        elif d < -1.0:
-            d = -1.0
-        delta = degrees(acos(d))
-        if (ux * vy - uy * vx) < 0:
-            delta = -delta
-        delta = delta % 360
+        # acos() of the dot product would not tell small angles apart.
+        delta = atan2(abs(ux * vy - uy * vx), ux * vx + uy * vy)
+        if large_arc_flag:
+            delta = tau - delta
         if not sweep_flag:
-            delta -= 360
+            delta = -delta
         # built parameters, delta, theta, center
 
         rotate_matrix = Matrix()
@@ -1732,7 +1718,7 @@ class Arc(Curve):
 
         self.prx.matrix_transform(rotate_matrix)
         self.pry.matrix_transform(rotate_matrix)
-        self.sweep = Angle.degrees(delta).as_radians
+        self.sweep = delta
 
     def as_quad_curves(self, arc_required=None):
         if self.sweep == 0:
-- 
2.43.0


From bff37e08787a684b7030ad7a75cd192f68310b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:05 +0000
Subject: [PATCH 061/100] fix: Path.npoint without numpy measures as accurately
 as it is asked to

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 3ef1ca0..be5a27a 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2239,7 +2239,7 @@ class Path(MutableSequence):
         try:
             import numpy as np
         except ImportError:
-            return [self.point(pos) for pos in positions]
+            return [self.point(pos, error=error) for pos in positions]
 
         segments = self.segments(False)
         if len(segments) == 0:
-- 
2.43.0


From db3b97fb55651770b8a39593985ec1b7b8149a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:44 +0000
Subject: [PATCH 062/100] fix: multiply transform text by a matrix

---
 svgio/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 0814e72..eb4fc77 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1991,7 +1991,7 @@ class Matrix:
         return m
 
     def __rmatmul__(self, other):
-        m = copy(other)
+        m = Matrix(other) if isinstance(other, str) else copy(other)
         m.__imatmul__(self)
         return m
 
-- 
2.43.0


From 9f6ed670ecf0b6b4aac09203796df54714c67573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:02 +0000
Subject: [PATCH 063/100] fix: resolve the lengths of transform text before
 they mix when the resolution is given

---
 svgio/basic.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index eb4fc77..a863877 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1936,7 +1936,7 @@ class Matrix:
         elif len_args == 1:
             m = components[0]
             if isinstance(m, str):
-                self.parse(m)
+                self.parse(m, **kwargs)
                 self.render(**kwargs)
             else:
                 self.a = m[0]
@@ -2064,7 +2064,7 @@ class Matrix:
             self.f,
         )
 
-    def parse(self, transform_str):
+    def parse(self, transform_str, **kwargs):
         """Parses the svg transform string.
 
         Transforms from SVG 1.1 have a smaller complete set of operations. Whereas in SVG 2.0 they gain
@@ -2083,6 +2083,13 @@ class Matrix:
         if not isinstance(transform_str, str):
             raise TypeError("Must provide a string to parse")
 
+        # Lengths which can be resolved are resolved here, before the axes and units mix.
+        x_units = dict(kwargs)
+        if kwargs.get("width") is not None:
+            x_units["relative_length"] = kwargs["width"]
+        y_units = dict(kwargs)
+        if kwargs.get("height") is not None:
+            y_units["relative_length"] = kwargs["height"]
         for sub_element in REGEX_TRANSFORM_TEMPLATE.findall(transform_str.lower()):
             name = sub_element[0]
             params = tuple(REGEX_TRANSFORM_PARAMETER.findall(sub_element[1]))
@@ -2092,18 +2099,18 @@ class Matrix:
                 self.pre_cat(*params)
             elif SVG_TRANSFORM_TRANSLATE == name:
                 try:
-                    x_param = Length(params[0]).value()
+                    x_param = Length(params[0]).value(**x_units)
                 except IndexError:
                     continue
                 try:
-                    y_param = Length(params[1]).value()
+                    y_param = Length(params[1]).value(**y_units)
                     self.pre_translate(x_param, y_param)
                 except IndexError:
                     self.pre_translate(x_param)
             elif SVG_TRANSFORM_TRANSLATE_X == name:
-                self.pre_translate(Length(params[0]).value(), 0)
+                self.pre_translate(Length(params[0]).value(**x_units), 0)
             elif SVG_TRANSFORM_TRANSLATE_Y == name:
-                self.pre_translate(0, Length(params[0]).value())
+                self.pre_translate(0, Length(params[0]).value(**y_units))
             elif SVG_TRANSFORM_SCALE == name:
                 params = map(float, params)
                 self.pre_scale(*params)
@@ -2114,12 +2121,12 @@ class Matrix:
             elif SVG_TRANSFORM_ROTATE == name:
                 angle = Angle.parse(params[0])
                 try:
-                    x_param = Length(params[1]).value()
+                    x_param = Length(params[1]).value(**x_units)
                 except IndexError:
                     self.pre_rotate(angle)
                     continue
                 try:
-                    y_param = Length(params[2]).value()
+                    y_param = Length(params[2]).value(**y_units)
                     self.pre_rotate(angle, x_param, y_param)
                 except IndexError:
                     self.pre_rotate(angle, x_param)
@@ -2130,36 +2137,36 @@ class Matrix:
                 except IndexError:  # this isn't valid.
                     continue
                 try:
-                    x_param = Length(params[2]).value()
+                    x_param = Length(params[2]).value(**x_units)
                 except IndexError:
                     self.pre_skew(angle_a, angle_b)
                     continue
                 try:
-                    y_param = Length(params[3]).value()
+                    y_param = Length(params[3]).value(**y_units)
                     self.pre_skew(angle_a, angle_b, x_param, y_param)
                 except IndexError:
                     self.pre_skew(angle_a, angle_b, x_param)
             elif SVG_TRANSFORM_SKEW_X == name:
                 angle_a = Angle.parse(params[0])
                 try:
-                    x_param = Length(params[1]).value()
+                    x_param = Length(params[1]).value(**x_units)
                 except IndexError:
                     self.pre_skew_x(angle_a)
                     continue
                 try:
-                    y_param = Length(params[2]).value()
+                    y_param = Length(params[2]).value(**y_units)
                     self.pre_skew_x(angle_a, x_param, y_param)
                 except IndexError:
                     self.pre_skew_x(angle_a, x_param)
             elif SVG_TRANSFORM_SKEW_Y == name:
                 angle_b = Angle.parse(params[0])
                 try:
-                    x_param = Length(params[1]).value()
+                    x_param = Length(params[1]).value(**x_units)
                 except IndexError:
                     self.pre_skew_y(angle_b)
                     continue
                 try:
-                    y_param = Length(params[2]).value()
+                    y_param = Length(params[2]).value(**y_units)
                     self.pre_skew_y(angle_b, x_param, y_param)
                 except IndexError:
                     self.pre_skew_y(angle_b, x_param)
-- 
2.43.0


From be9ecd919214920af82b5ac993ca5aa536c713ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:02 +0000
Subject: [PATCH 064/100] fix: read skew with a single angle as CSS defines it

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index a863877..a10d44e 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2134,8 +2134,8 @@ class Matrix:
                 angle_a = Angle.parse(params[0])
                 try:
                     angle_b = Angle.parse(params[1])
-                except IndexError:  # this isn't valid.
-                    continue
+                except IndexError:
+                    angle_b = Angle.degrees(0)
                 try:
                     x_param = Length(params[2]).value(**x_units)
                 except IndexError:
-- 
2.43.0


From 5a307b905b37dea4423b8dd720a5997fc603cd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:02 +0000
Subject: [PATCH 065/100] fix: take lengths given as text for the translation
 of a matrix

---
 svgio/basic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index a10d44e..257531f 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1952,6 +1952,10 @@ class Matrix:
             self.d = components[3]
             self.e = components[4]
             self.f = components[5]
+            if isinstance(self.e, str):
+                self.e = Length(self.e)
+            if isinstance(self.f, str):
+                self.f = Length(self.f)
             self.render(**kwargs)
 
     def __ne__(self, other):
-- 
2.43.0


From 640babcf480a33f669655564b114deafd3f006ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:10 +0000
Subject: [PATCH 066/100] fix: allow any white space in preserveAspectRatio

---
 svgio/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 257531f..a7b9f13 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2636,7 +2636,7 @@ class Viewbox:
         ):
             return ""
         if aspect is not None:
-            aspect_slice = aspect.split(" ")
+            aspect_slice = aspect.split()
             try:
                 align = aspect_slice[0]
             except IndexError:
-- 
2.43.0


From 3231aa53c4bbc6ae86ee7ca59554c915a8eb936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:53 +0000
Subject: [PATCH 067/100] fix: resolve a percentage of a zero length to zero

---
 svgio/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index a7b9f13..84b3a44 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -83,6 +83,8 @@ class Length(object):
         if isinstance(other, Length):
             if other.amount == 0.0:
                 self.amount = 0.0
+                if self.units == "%":
+                    self.units = other.units
                 return self
             if self.units == other.units:
                 self.amount *= other.amount
-- 
2.43.0


From 4d70e656ae2a1c30cb8728b9d91ff302653632b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:19 +0000
Subject: [PATCH 068/100] fix: read colours in any case and with white space
 around them

---
 svgio/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 84b3a44..b7821a3 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -662,6 +662,8 @@ class Color(object):
     @staticmethod
     def parse(color_string):
         """Parse SVG color, will return a set value."""
+        if isinstance(color_string, str):
+            color_string = color_string.strip().lower()
         if color_string is None or color_string == SVG_VALUE_NONE:
             return None
         match = REGEX_COLOR_HEX.match(color_string)
-- 
2.43.0


From 65912c43c871e92c3b0326a3d9064cec75a0b7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:20 +0000
Subject: [PATCH 069/100] fix: know the colour keyword rebeccapurple

---
 svgio/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index b7821a3..c2fdc34 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -927,6 +927,8 @@ class Color(object):
             return Color.rgb_to_int(176, 224, 230)
         if v == "purple":
             return Color.rgb_to_int(128, 0, 128)
+        if v == "rebeccapurple":
+            return Color.rgb_to_int(102, 51, 153)
         if v == "red":
             return Color.rgb_to_int(255, 0, 0)
         if v == "rosybrown":
-- 
2.43.0


From 6442c9e1b35fd1e63627ea8247c958395354d4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:20 +0000
Subject: [PATCH 070/100] fix: take the exact cube root for the distinct
 colours

---
 svgio/basic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index c2fdc34..867949b 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1063,7 +1063,9 @@ class Color(object):
         """
 
         def _pattern(pattern: int):
-            n = int(pattern ** (1.0 / 3.0))
+            n = int(round(pattern ** (1.0 / 3.0)))
+            if n * n * n > pattern:
+                n -= 1
             pattern -= n * n * n
             p = [n] * 3
             if pattern == 0:
-- 
2.43.0


From 7df77f58467ffe525bcf11ab80742a4f27020ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 071/100] fix: tell orthogonal angles with the tolerance of
 their comparison

---
 svgio/basic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 867949b..365fceb 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1913,7 +1913,9 @@ class Angle(float):
         return self / tau
 
     def is_orthogonal(self):
-        return (self % (tau / 4.0)) == 0
+        quarter = tau / 4.0
+        difference = self % quarter
+        return difference <= 1e-11 or quarter - difference <= 1e-11
 
 
 class Matrix:
-- 
2.43.0


From 40e83095f2e0dca72aa571e27f35fedfc8432d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:52 +0000
Subject: [PATCH 072/100] fix: name the tag of a parsed element without a class
 of its own

---
 svgio/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index b627706..b680440 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -69,7 +69,7 @@ class Node(list):
             return object.__getattribute__(self, name)
 
     def tag(self):
-        return self._name().lower()
+        return self._tag if self._tag is not None else self._name().lower()
 
     def xml(self, context=None):
         from xml.etree.ElementTree import Element, SubElement, tostring
-- 
2.43.0


From 15f6f3cf0fd5ad33493da4b4240da7abb304cd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:16 +0000
Subject: [PATCH 073/100] fix: remove only the SVG namespace from tags, not
 those which begin like it

---
 svgio/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index b680440..ff64dfd 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -97,7 +97,7 @@ class Node(list):
             if event == "start":
                 tag = elem.tag
                 try:
-                    if tag.startswith("{http://www.w3.org/2000/svg"):
+                    if tag.startswith("{http://www.w3.org/2000/svg}"):
                         tag = tag[
                             28:
                         ]  # Removing namespace. http://www.w3.org/2000/svg:
-- 
2.43.0


From ae24234dfdcb06f1592cd74521bc8ebd45097ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:16 +0000
Subject: [PATCH 074/100] fix: keep no-break spaces, only the white space of
 XML formats a document

---
 svgio/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index ff64dfd..aadd554 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -128,10 +128,10 @@ class Node(list):
                     ] = node  # store node value in defs.
             elif event == "end":
                 # event is 'end', the text is only complete now. Formatting whitespace is not kept.
-                if elem.text is not None and elem.text.strip():
+                if elem.text is not None and elem.text.strip(" \t\r\n"):
                     node._text = elem.text
                 for child, child_elem in zip(node, elem):
-                    if child_elem.tail is not None and child_elem.tail.strip():
+                    if child_elem.tail is not None and child_elem.tail.strip(" \t\r\n"):
                         child._tail = child_elem.tail
                 # pop values.
                 node = node.parent  # Parent is now node.
-- 
2.43.0


From da29c12de8e4fc9193219530f8c3edf19d959e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:36 +0000
Subject: [PATCH 075/100] fix: write carriage returns in text as references, so
 that they are read back

---
 svgio/nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index aadd554..06e93ce 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -86,7 +86,8 @@ class Node(list):
         for c in self:
             c.xml(context)
             context[-1].tail = c._tail
-        return tostring(context, encoding="unicode")
+        # a plain carriage return would be read as a line feed.
+        return tostring(context, encoding="unicode").replace("\r", "&#13;")
 
     def parse(self, source):
         node = self
-- 
2.43.0


From b6fa186e2f54156a4f089379ac46014ba772453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:08 +0000
Subject: [PATCH 076/100] fix: compare lengths of the same units with a
 tolerance in every unit, so that the repr is equal

---
 svgio/basic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 365fceb..e2063c4 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -310,6 +310,10 @@ class Length(object):
             other = Length(other)
         if self.amount == other.amount and self.units == other.units:
             return True
+        if None in (self.amount, other.amount):
+            return False
+        if self.units == other.units:
+            return abs(self.amount - other.amount) <= ERROR
         if s is not None:
             o = other.in_pixels()
             if o is not None and abs(s - o) <= ERROR:
-- 
2.43.0


From 077531a2852dcf20bd95b17bef5b6477267839e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 077/100] fix: compare matrices whose translations are lengths
 of other units

---
 svgio/basic.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index e2063c4..884a9cb 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1990,10 +1990,13 @@ class Matrix:
             return False
         if abs(self.d - other.d) > 1e-12:
             return False
-        if self.e != other.e and abs(self.e - other.e) > 1e-12:
-            return False
-        if self.f != other.f and abs(self.f - other.f) > 1e-12:
-            return False
+        for first, second in ((self.e, other.e), (self.f, other.f)):
+            if first == second:
+                continue
+            if isinstance(first, Length) or isinstance(second, Length):
+                return False
+            if abs(first - second) > 1e-12:
+                return False
         return True
 
     def __len__(self):
-- 
2.43.0


From b041df96beff1655e3a74e69fb6569a8de0dc48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 078/100] fix: give a copied matrix lengths of its own

---
 svgio/basic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 884a9cb..485faff 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1957,15 +1957,15 @@ class Matrix:
                 self.b = m[1]
                 self.c = m[2]
                 self.d = m[3]
-                self.e = m[4]
-                self.f = m[5]
+                self.e = copy(m[4])
+                self.f = copy(m[5])
         else:
             self.a = components[0]
             self.b = components[1]
             self.c = components[2]
             self.d = components[3]
-            self.e = components[4]
-            self.f = components[5]
+            self.e = copy(components[4])
+            self.f = copy(components[5])
             if isinstance(self.e, str):
                 self.e = Length(self.e)
             if isinstance(self.f, str):
-- 
2.43.0


From da7838664e4a976102e8ad7fddee70184705c526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 079/100] fix: let paths, segments and points answer a matrix
 multiplied with them

---
 svgio/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 485faff..7f68251 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2007,6 +2007,8 @@ class Matrix:
         return m.inverse()
 
     def __matmul__(self, other):
+        if not isinstance(other, (Matrix, str)):
+            return NotImplemented
         m = copy(self)
         m.__imatmul__(other)
         return m
-- 
2.43.0


From 2e36a16c115fddf0d99052c43e4e12559db43217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 080/100] fix: keep the relative form of all segments a drawing
 method with several coordinates adds

---
 svgio/path.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index be5a27a..9fa88e9 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2525,7 +2525,7 @@ class Path(MutableSequence):
         segment.relative = relative
         self.append(segment)
         if len(points) > 1:
-            self.line(*points[1:])
+            self.line(*points[1:], relative=relative)
         return self
 
     def vertical(self, *y_points, **kwargs):
@@ -2569,7 +2569,7 @@ class Path(MutableSequence):
         segment.smooth = True
         self.append(segment)
         if len(points) > 1:
-            self.smooth_quad(*points[1:])
+            self.smooth_quad(*points[1:], relative=relative)
         return self
 
     def quad(self, *points, **kwargs):
@@ -2586,7 +2586,7 @@ class Path(MutableSequence):
         segment.smooth = False
         self.append(segment)
         if len(points) > 2:
-            self.quad(*points[2:])
+            self.quad(*points[2:], relative=relative)
         return self
 
     def smooth_cubic(self, *points, **kwargs):
@@ -2607,7 +2607,7 @@ class Path(MutableSequence):
         segment.smooth = True
         self.append(segment)
         if len(points) > 2:
-            self.smooth_cubic(*points[2:])
+            self.smooth_cubic(*points[2:], relative=relative)
         return self
 
     def cubic(self, *points, **kwargs):
@@ -2627,7 +2627,7 @@ class Path(MutableSequence):
         segment.smooth = False
         self.append(segment)
         if len(points) > 3:
-            self.cubic(*points[3:])
+            self.cubic(*points[3:], relative=relative)
         return self
 
     def arc(self, *arc_args, **kwargs):
@@ -2645,7 +2645,7 @@ class Path(MutableSequence):
         segment.relative = relative
         self.append(segment)
         if len(arc_args) > 6:
-            self.arc(*arc_args[6:])
+            self.arc(*arc_args[6:], relative=relative)
         return self
 
     def closed(self, relative=False):
-- 
2.43.0


From 21cbdaf444b28200a0a64efda82f98e41cd1cd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:52 +0000
Subject: [PATCH 081/100] fix: extend a path with itself or its own subpath by
 copies of their segments instead of growing without end

---
 svgio/path.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 9fa88e9..a33d825 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2688,6 +2688,10 @@ class Path(MutableSequence):
     def extend(self, iterable):
         if isinstance(iterable, str):
             iterable = Path(iterable)
+        elif iterable is self or (
+            isinstance(iterable, Subpath) and iterable._path is self
+        ):
+            iterable = list(map(copy, iterable))  # Each segment exists only once.
         self._length = None
         index = len(self._segments)
         self._segments.extend(iterable)
-- 
2.43.0


From 40d90a671b00e925af7eb873e188888df01e242a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:52 +0000
Subject: [PATCH 082/100] fix: measure a path again when more accuracy is asked
 for than it was measured with

---
 svgio/path.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index a33d825..c9f83dd 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2019,6 +2019,7 @@ class Path(MutableSequence):
     def __init__(self, *args, **kwargs):
         self._length = None
         self._lengths = None
+        self._measured = None  # error and min_depth of these lengths.
         self.transform = Matrix()
         self._segments = list()
         if len(args) != 1:
@@ -2224,7 +2225,9 @@ class Path(MutableSequence):
         if segments is None:
             segments = self.segments(False)
         if self._length is not None:
-            return
+            if self._measured[0] <= error and self._measured[1] >= min_depth:
+                return
+        self._measured = (error, min_depth)
         lengths = [each.length(error=error, min_depth=min_depth) for each in segments]
         self._length = sum(lengths)
         if self._length == 0:
@@ -2245,8 +2248,7 @@ class Path(MutableSequence):
         if len(segments) == 0:
             return None
         # Shortcuts
-        if self._length is None:
-            self._calc_lengths(error=error, segments=segments)
+        self._calc_lengths(error=error, segments=segments)
         positions = np.asarray(positions, dtype=float)
         xy = np.empty((len(positions), 2), dtype=float)
         if self._length == 0:
@@ -2291,8 +2293,7 @@ class Path(MutableSequence):
         except ValueError:
             return self.npoint([position], error=error)[0]
 
-        if self._length is None:
-            self._calc_lengths(error=error, segments=segments)
+        self._calc_lengths(error=error, segments=segments)
 
         if self._length == 0:
             i = int(round(position * (len(segments) - 1)))
-- 
2.43.0


From aa4537fa41536b49f1bf185ea29fcef20ace4e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:42 +0000
Subject: [PATCH 083/100] fix: put copies when a path or its own subpath is
 assigned to a slice of that path

---
 svgio/path.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index c9f83dd..3431b07 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2140,6 +2140,10 @@ class Path(MutableSequence):
                 if len(new_element) > 1:
                     raise ValueError  # Cannot insert multiple items into a single space. Requires slice.
                 new_element = new_element[0]
+        elif new_element is self or (
+            isinstance(new_element, Subpath) and new_element._path is self
+        ):
+            new_element = list(map(copy, new_element))  # Each segment exists only once.
         self._segments[index] = new_element
         self._length = None
         self._lengths = None
-- 
2.43.0


From 73c876cba69bcf30ec566c87a4aac9b07c96859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:40 +0000
Subject: [PATCH 084/100] fix: let the iterator of a subpath be iterated
 itself, as where a subpath is assigned to a slice

---
 svgio/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 3431b07..335ff5d 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2955,6 +2955,9 @@ class Subpath:
                 self.n = subpath._start - 1
                 self.subpath = subpath
 
+            def __iter__(self):
+                return self
+
             def __next__(self):
                 self.n += 1
                 try:
-- 
2.43.0


From 640fdc01554f84f757e7684427e5713e540282b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 085/100] fix: write a segment in the relative form exactly
 where it is marked relative

---
 svgio/path.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 335ff5d..dd92208 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -619,7 +619,7 @@ class Move(PathSegment):
     def d(self, current_point=None, relative=None, smooth=None):
         if (
             current_point is None
-            or (relative is None and self.relative)
+            or (relative is None and not self.relative)
             or (relative is not None and not relative)
         ):
             return "M %s" % self.end
@@ -746,7 +746,7 @@ class Close(Linear):
     def d(self, current_point=None, relative=None, smooth=None):
         if (
             current_point is None
-            or (relative is None and self.relative)
+            or (relative is None and not self.relative)
             or (relative is not None and not relative)
         ):
             return "Z"
@@ -765,7 +765,7 @@ class Line(Linear):
     def d(self, current_point=None, relative=None, smooth=None):
         if (
             current_point is None
-            or (relative is None and self.relative)
+            or (relative is None and not self.relative)
             or (relative is not None and not relative)
         ):
             return "L %s" % self.end
@@ -925,7 +925,7 @@ class QuadraticBezier(Curve):
         if (smooth is None and self.smooth) or (smooth is not None and smooth):
             if (
                 current_point is None
-                or (relative is None and self.relative)
+                or (relative is None and not self.relative)
                 or (relative is not None and not relative)
             ):
                 return "T %s" % self.end
@@ -934,7 +934,7 @@ class QuadraticBezier(Curve):
         else:
             if (
                 current_point is None
-                or (relative is None and self.relative)
+                or (relative is None and not self.relative)
                 or (relative is not None and not relative)
             ):
                 return "Q %s %s" % (self.control, self.end)
@@ -1131,7 +1131,7 @@ class CubicBezier(Curve):
         if (smooth is None and self.smooth) or (smooth is not None and smooth):
             if (
                 current_point is None
-                or (relative is None and self.relative)
+                or (relative is None and not self.relative)
                 or (relative is not None and not relative)
             ):
                 return "S %s %s" % (self.control2, self.end)
@@ -1143,7 +1143,7 @@ class CubicBezier(Curve):
         else:
             if (
                 current_point is None
-                or (relative is None and self.relative)
+                or (relative is None and not self.relative)
                 or (relative is not None and not relative)
             ):
                 return "C %s %s %s" % (self.control1, self.control2, self.end)
@@ -1976,7 +1976,7 @@ class Arc(Curve):
     def d(self, current_point=None, relative=None, smooth=None):
         if (
             current_point is None
-            or (relative is None and self.relative)
+            or (relative is None and not self.relative)
             or (relative is not None and not relative)
         ):
             return "A %G,%G %G %d,%d %s" % (
-- 
2.43.0


From 92bc750c1fd4a87fd8e9486f13cc5165bdf80b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 086/100] fix: write the control point of a curve in its text
 unless it is smooth after a move

---
 svgio/path.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index dd92208..8013c1e 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -410,7 +410,9 @@ class PathSegment:
         command to correctly provide the starting position.
         :return: string representation of the object.
         """
-        d = self.d()
+        smooth = isinstance(self, (QuadraticBezier, CubicBezier))
+        smooth = smooth and self.smooth and self.is_smooth_from(None)
+        d = self.d(smooth=smooth)
         if self.start is not None:
             if self.relative:
                 return "m %s %s" % (self.start, d)
-- 
2.43.0


From c4b96fade792fe6b18cb757f1b0c854caa37375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 087/100] fix: let every iteration over the points of a segment
 keep its own place

---
 svgio/path.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 8013c1e..ea918cd 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -421,21 +421,10 @@ class PathSegment:
         return d
 
     def __iter__(self):
-        self.n = -1
-        return self
-
-    def __next__(self):
-        self.n += 1
-        try:
-            val = self[self.n]
-            if val is None:
-                self.n += 1
-                val = self[self.n]
-            return val
-        except IndexError:
-            raise StopIteration
-
-    next = __next__
+        for i in range(len(self)):
+            val = self[i]
+            if val is not None:
+                yield val
 
     @staticmethod
     def segment_length(
-- 
2.43.0


From 10ea48c2c3887b8fc66bd63e5b77f7426e74663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:13 +0000
Subject: [PATCH 088/100] fix: compare type, attributes, text and children of
 nodes in is_equal_node

---
 svgio/nodes.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 06e93ce..3e4bcfb 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -293,7 +293,16 @@ class Node(list):
         and so on. The specific set of data points that must match varies depending on the types of the nodes.
         :return:
         """
-        return self == node
+        return (
+            type(self) is type(node)
+            and self.tag() == node.tag()
+            and self.attributes == node.attributes
+            and self._text == node._text
+            and len(self) == len(node)
+            and all(
+                a.is_equal_node(b) and a._tail == b._tail for a, b in zip(self, node)
+            )
+        )
 
     def is_same_node(self, node):
         """
-- 
2.43.0


From 80767638e031d6b51d3179cec92ddc78f34868fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:09 +0000
Subject: [PATCH 089/100] fix: a slice of a path assigned a string without
 segments is emptied, as by an empty list

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index ea918cd..1a0ce0d 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2124,7 +2124,7 @@ class Path(MutableSequence):
     def __setitem__(self, index, new_element):
         if isinstance(new_element, str):
             new_element = Path(new_element)
-            if len(new_element) == 0:
+            if len(new_element) == 0 and isinstance(index, int):
                 return
             new_element = new_element.segments()
             if isinstance(index, int):
-- 
2.43.0


From 61d71f4f3048c294a2affd8c305be517660c81c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 090/100] fix: the z point of a path is a copy, like its first
 and current points

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 1a0ce0d..9983dc4 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2461,7 +2461,7 @@ class Path(MutableSequence):
                 end_pos = self._segments[0].end
             except IndexError:
                 pass  # entire path is "z".
-        return end_pos
+        return Point(end_pos) if end_pos is not None else None
 
     @property
     def smooth_point(self):
-- 
2.43.0


From bbc289cbcf908d83a80a208d4988f7062f4b89a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 091/100] fix: a path multiplied by @ with a matrix or
 transform on its left is transformed, as by *

---
 svgio/path.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 9983dc4..d010508 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2074,10 +2074,7 @@ class Path(MutableSequence):
         m.__imatmul__(other)
         return m
 
-    def __rmatmul__(self, other):
-        m = copy(other)
-        m.__imatmul__(self)
-        return m
+    __rmatmul__ = __matmul__
 
     def __imatmul__(self, other):
         """
-- 
2.43.0


From c3c3a6155b58c09ece867a50631e7f38ab853739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 092/100] fix: closes end at the last move also when its end
 was unknown before linking

---
 svgio/path.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index d010508..cd4e3fc 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2361,18 +2361,16 @@ class Path(MutableSequence):
 
         If an index is given only the connections from the segment at that index on are validated.
         """
-        zpoint = None
+        origin = None  # The segment closes return to the end of.
         last_segment = None
         if index > 0:
             last_segment = self._segments[index - 1]
-            zpoint = self._segments[0].end
+            origin = self._segments[0]
             for i in range(index - 1, -1, -1):
                 if isinstance(self._segments[i], Move):
-                    zpoint = self._segments[i].end
+                    origin = self._segments[i]
                     break
         for segment in self._segments[index:]:
-            if zpoint is None or isinstance(segment, Move):
-                zpoint = segment.end
             if last_segment is not None:
                 if segment.start is None and last_segment.end is not None:
                     segment.start = Point(last_segment.end)
@@ -2380,12 +2378,14 @@ class Path(MutableSequence):
                     last_segment.end = Point(segment.start)
                 elif last_segment.end != segment.start:
                     segment.start = Point(last_segment.end)
+            if origin is None or origin.end is None or isinstance(segment, Move):
+                origin = segment
             if (
                 isinstance(segment, Close)
-                and zpoint is not None
-                and segment.end != zpoint
+                and origin.end is not None
+                and segment.end != origin.end
             ):
-                segment.end = Point(zpoint)
+                segment.end = Point(origin.end)
             last_segment = segment
 
     def _is_valid(self):
-- 
2.43.0


From b4afa944f602c3f88609c4ce4051e4c51ad99002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 093/100] fix: load a tree below a node which belongs to no
 document yet

---
 svgio/nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 3e4bcfb..746e2c6 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -123,7 +123,8 @@ class Node(list):
 
                 siblings.append(node)  # siblings now includes this node.
 
-                if SVG_ATTR_ID in attributes:  # If we have an ID, we save the node.
+                if document is not None and SVG_ATTR_ID in attributes:
+                    # If we have an ID, we save the node.
                     document.objects[
                         attributes[SVG_ATTR_ID]
                     ] = node  # store node value in defs.
-- 
2.43.0


From b46a8683a63f7d065f32d83c3e96a42785424a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 094/100] fix: Move(p) keeps its end when marked relative or
 smooth

---
 svgio/path.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index cd4e3fc..bb2fcbc 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -550,15 +550,12 @@ class Move(PathSegment):
             if "start" in kwargs:
                 self.start = kwargs["start"]
         elif len(args) == 1:
-            if len(kwargs) == 0:
-                self.end = args[0]
+            if "end" in kwargs:
+                self.start = args[0]
+                self.end = kwargs["end"]
             else:
-                if "end" in kwargs:
-                    self.start = args[0]
-                    self.end = kwargs["end"]
-                elif "start" in kwargs:
-                    self.start = kwargs["start"]
-                    self.end = args[0]
+                self.start = kwargs.get("start")
+                self.end = args[0]
         elif len(args) == 2:
             self.start = args[0]
             self.end = args[1]
-- 
2.43.0


From 7a6706a0be0ed7e74791f6d908148e1425025243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 095/100] fix: Arc by complex radius and rotation may be marked
 relative or smooth

---
 svgio/path.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index bb2fcbc..33c2a54 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1187,8 +1187,11 @@ class Arc(Curve):
         if len(args) == 6 and isinstance(args[1], complex):
             self._svg_complex_parameterize(*args)
             return
-        elif len(kwargs) == 6 and "rotation" in kwargs and "radius" in kwargs:
-            self._svg_complex_parameterize(**kwargs)
+        parameters = {
+            k: v for k, v in kwargs.items() if k not in ("relative", "smooth")
+        }
+        if len(parameters) == 6 and "rotation" in kwargs and "radius" in kwargs:
+            self._svg_complex_parameterize(**parameters)
             return
         elif len(args) == 7:
             # This is an svg parameterized call.
-- 
2.43.0


From 4e93248f4c43009bb6cabfcf7eb4074ba4703a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 096/100] fix: find the center of an arc through a control
 point along its steeper chord, so that nearly horizontal ones do not lose it
 to rounding

---
 svgio/path.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 33c2a54..5a3092e 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1305,7 +1305,11 @@ class Arc(Curve):
                         - slope_a * bc_mid.x
                         + slope_b * ab_mid.x
                     ) / (slope_b - slope_a)
-                    cy = ab_mid.y - (cx - ab_mid.x) / slope_a
+                    # Along the steeper chord, as little as possible of the rounding in cx.
+                    if abs(slope_a) >= abs(slope_b):
+                        cy = ab_mid.y - (cx - ab_mid.x) / slope_a
+                    else:
+                        cy = bc_mid.y - (cx - bc_mid.x) / slope_b
                 self.center = Point(cx, cy)
                 cw = bool(Point.orientation(self.start, control, self.end) == 2)
             elif "r" in kwargs:
-- 
2.43.0


From a80b721b62daa00d9e49330fdc541847723a68b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 097/100] fix: draw an arc through both ends of its diameter
 clockwise by default, as every other arc by its radius; rounding decided

---
 svgio/path.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 5a3092e..bdd6bea 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1325,9 +1325,10 @@ class Arc(Curve):
                     mid.x + sqrt(r ** 2 - hq ** 2) * (self.start.y - self.end.y) / q,
                     mid.y + sqrt(r ** 2 - hq ** 2) * (self.end.x - self.start.x) / q,
                 )
-                cw = bool(Point.orientation(self.start, self.center, self.end) == 1)
-                if "ccw" in kwargs and kwargs["ccw"] and cw or not cw:
-                    # ccw arg exists, is true, and we found the cw center, or we didn't find the cw center.
+                # This is always the cw center, even where rounding hides that.
+                cw = True
+                if "ccw" in kwargs and kwargs["ccw"]:
+                    # ccw arg exists, is true, and we found the cw center.
                     self.center = Point(
                         mid.x
                         - sqrt(r ** 2 - hq ** 2) * (self.start.y - self.end.y) / q,
-- 
2.43.0


From f05408296336924c1556d9bebf9063ef0c2df778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 098/100] fix: leave a length which cannot be solved as it is
 when converting it to mm, cm or inches, rather than divide its amount

---
 svgio/basic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 7f68251..3db1f3a 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -362,6 +362,8 @@ class Length(object):
             font_height=font_height,
             viewbox=viewbox,
         )
+        if isinstance(value, Length):
+            return value  # Could not be solved.
         v = value / (ppi * 0.0393701)
         return Length("%smm" % (Length.str(v)))
 
@@ -380,6 +382,8 @@ class Length(object):
             font_height=font_height,
             viewbox=viewbox,
         )
+        if isinstance(value, Length):
+            return value  # Could not be solved.
         v = value / (ppi * 0.393701)
         return Length("%scm" % (Length.str(v)))
 
@@ -398,6 +402,8 @@ class Length(object):
             font_height=font_height,
             viewbox=viewbox,
         )
+        if isinstance(value, Length):
+            return value  # Could not be solved.
         v = value / ppi
         return Length("%sin" % (Length.str(v)))
 
-- 
2.43.0


From 841b9e855319e7960568986ef4b40ea310a462a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:07 +0000
Subject: [PATCH 099/100] fix: the extremes of small cubics far from the origin

---
 svgio/path.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index bdd6bea..1e122c8 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1054,12 +1054,13 @@ class CubicBezier(Curve):
         """
         local_extremizers = [0, 1]
         a = [c[v] for c in self]
-        denom = a[0] - 3 * a[1] + 3 * a[2] - a[3]
-        delta = a[1] ** 2 - (a[0] + a[1]) * a[2] + a[2] ** 2 + (a[0] - a[1]) * a[3]
+        denom = (a[0] - a[3]) + 3 * (a[2] - a[1])
+        # from differences, as the coordinates may be large next to the extent of the curve.
+        delta = (a[2] - a[1]) ** 2 - (a[1] - a[0]) * (a[3] - a[2])
         if delta >= 0:  # otherwise no local extrema
             # roots of the derivative, without the cancellation of the textbook formula for small denom.
             sqdelta = sqrt(delta)
-            tau = a[0] - 2 * a[1] + a[2]
+            tau = (a[2] - a[1]) - (a[1] - a[0])
             q = tau + sqdelta if tau >= 0 else tau - sqdelta
             for n, d in ((q, denom), (a[0] - a[1], q)):
                 if d != 0 and 0 < n / d < 1:
-- 
2.43.0


From 75e5f0722362bd2c77c6d98a5981fbf1bf4b2f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:10 +0000
Subject: [PATCH 100/100] fix: drawing a thousand coordinates in one call

---
 svgio/path.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 1e122c8..d412565 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2510,8 +2510,8 @@ class Path(MutableSequence):
         segment = Move(start_pos, end_pos)
         segment.relative = relative
         self.append(segment)
-        if len(points) > 1:
-            self.line(*points[1:], relative=relative)
+        for point in points[1:]:
+            self.line(point, relative=relative)
         return self
 
     def line(self, *points, **kwargs):
@@ -2523,8 +2523,8 @@ class Path(MutableSequence):
         segment = Line(start_pos, end_pos)
         segment.relative = relative
         self.append(segment)
-        if len(points) > 1:
-            self.line(*points[1:], relative=relative)
+        for point in points[1:]:
+            self.line(point, relative=relative)
         return self
 
     def vertical(self, *y_points, **kwargs):
@@ -2536,8 +2536,8 @@ class Path(MutableSequence):
             segment = Line(start_pos, Point(start_pos.x, y_points[0]))
         segment.relative = relative
         self.append(segment)
-        if len(y_points) > 1:
-            self.vertical(*y_points[1:], relative=relative)
+        for y_point in y_points[1:]:
+            self.vertical(y_point, relative=relative)
         return self
 
     def horizontal(self, *x_points, **kwargs):
@@ -2550,8 +2550,8 @@ class Path(MutableSequence):
             segment = Line(start_pos, Point(x_points[0], start_pos.y))
             segment.relative = relative
         self.append(segment)
-        if len(x_points) > 1:
-            self.horizontal(*x_points[1:], relative=relative)
+        for x_point in x_points[1:]:
+            self.horizontal(x_point, relative=relative)
         return self
 
     def smooth_quad(self, *points, **kwargs):
@@ -2567,8 +2567,8 @@ class Path(MutableSequence):
         segment.relative = relative
         segment.smooth = True
         self.append(segment)
-        if len(points) > 1:
-            self.smooth_quad(*points[1:], relative=relative)
+        for point in points[1:]:
+            self.smooth_quad(point, relative=relative)
         return self
 
     def quad(self, *points, **kwargs):
@@ -2584,8 +2584,8 @@ class Path(MutableSequence):
         segment.relative = relative
         segment.smooth = False
         self.append(segment)
-        if len(points) > 2:
-            self.quad(*points[2:], relative=relative)
+        for i in range(2, len(points), 2):
+            self.quad(*points[i : i + 2], relative=relative)
         return self
 
     def smooth_cubic(self, *points, **kwargs):
@@ -2605,8 +2605,8 @@ class Path(MutableSequence):
         segment.relative = relative
         segment.smooth = True
         self.append(segment)
-        if len(points) > 2:
-            self.smooth_cubic(*points[2:], relative=relative)
+        for i in range(2, len(points), 2):
+            self.smooth_cubic(*points[i : i + 2], relative=relative)
         return self
 
     def cubic(self, *points, **kwargs):
@@ -2625,8 +2625,8 @@ class Path(MutableSequence):
         segment.relative = relative
         segment.smooth = False
         self.append(segment)
-        if len(points) > 3:
-            self.cubic(*points[3:], relative=relative)
+        for i in range(3, len(points), 3):
+            self.cubic(*points[i : i + 3], relative=relative)
         return self
 
     def arc(self, *arc_args, **kwargs):
@@ -2643,8 +2643,8 @@ class Path(MutableSequence):
         segment = Arc(start_pos, rx, ry, rotation, arc, sweep, end_pos)
         segment.relative = relative
         self.append(segment)
-        if len(arc_args) > 6:
-            self.arc(*arc_args[6:], relative=relative)
+        for i in range(6, len(arc_args), 6):
+            self.arc(*arc_args[i : i + 6], relative=relative)
         return self
 
     def closed(self, relative=False):
-- 
2.43.0

