From 678e84d1ade86c065b3a9761ae952b3817424690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:58 +0000
Subject: [PATCH 01/97] fix: compare BBox coordinates instead of hashes

hash(-1) == hash(-2), so boxes differing only in such a coordinate were equal.
---
 coral/bbox.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coral/bbox.py b/coral/bbox.py
index 4478869..722e279 100644
--- a/coral/bbox.py
+++ b/coral/bbox.py
@@ -57,7 +57,10 @@ class BBox:
         return hash((self.x0, self.y0, self.x1, self.y1))
 
     def __eq__(self, other):
-        return hash(self) == hash(other)
+        if not isinstance(other, BBox):
+            return NotImplemented
+        return ((self.x0, self.y0, self.x1, self.y1) ==
+                (other.x0, other.y0, other.x1, other.y1))
 
     def __lt__(self, other):
         return self.area() < other.area()
-- 
2.43.0


From 10c357bd1823f4ec1567d0f31164154a3979b978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:58 +0000
Subject: [PATCH 02/97] fix: order BBoxes consistently by area

For distinct boxes of the same area total_ordering answered a > b and b > a.
---
 coral/bbox.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/coral/bbox.py b/coral/bbox.py
index 722e279..875bde6 100644
--- a/coral/bbox.py
+++ b/coral/bbox.py
@@ -19,9 +19,7 @@
 # THE SOFTWARE.
 
 import math
-import functools
 
-@functools.total_ordering
 class BBox:
 
     """BBox() -> empty box
@@ -65,6 +63,15 @@ class BBox:
     def __lt__(self, other):
         return self.area() < other.area()
 
+    def __le__(self, other):
+        return self.area() <= other.area()
+
+    def __gt__(self, other):
+        return self.area() > other.area()
+
+    def __ge__(self, other):
+        return self.area() >= other.area()
+
     def __bool__(self):
         return bool(self.area())
 
-- 
2.43.0


From c3359f2615e83b6049f7428e56f9fd547032b11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:58 +0000
Subject: [PATCH 03/97] fix: do not drop degenerate boxes from a BBox union

Horizontal and vertical lines have boxes of zero area; only the default box is empty.
---
 coral/bbox.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coral/bbox.py b/coral/bbox.py
index 875bde6..6c40dcd 100644
--- a/coral/bbox.py
+++ b/coral/bbox.py
@@ -76,8 +76,9 @@ class BBox:
         return bool(self.area())
 
     def __or__(self, other):
-        if not self: return other
-        if not other: return self
+        empty = BBox()
+        if self == empty: return other
+        if other is None or other == empty: return self
         x0 = min(self.x0, other.x0)
         y0 = min(self.y0, other.y0)
         x1 = max(self.x1, other.x1)
-- 
2.43.0


From 7f13a4b390c333ede87dd3623eb360843b2b531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:20 +0000
Subject: [PATCH 04/97] fix: keep the corners at which retraced slits start,
 accept short paths

---
 coral/coord.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index cca69f2..5a53599 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -248,18 +248,27 @@ def sqr_fit(s, m):
 
 def open_no_slit(s, k):
     b = Buffer(k)
-    p = next(s)
+    p = o = next(s, None)
+    if p is None:
+        return
     yield p
-    q = next(s)
+    q = next(s, None)
+    if q is None:
+        return
     for r in s:
         if r == q:
             continue
         if not collinear(p, q, r):
             if not b.isempty() and q == b.peek():
                 b.pop()
+                # The slit may have started at a corner, which is to be kept.
+                corner = not collinear(o if b.isempty() else b.peek(), q, r)
             else:
+                corner = True
+            if corner:
                 if b.isfull():
-                    yield b.shift()
+                    o = b.shift()
+                    yield o
                 b.push(q)
         p, q = q, r
     while not b.isempty():
-- 
2.43.0


From 7542abd14a1b331fa62e12f3cec35d67b6e4810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:35 +0000
Subject: [PATCH 05/97] fix: join simplified rings at their first point

---
 coral/coord.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index 5a53599..3ace149 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -278,36 +278,40 @@ def open_no_slit(s, k):
 def closed_no_slit(s, k):
     b1 = Buffer(k)
     b2 = Buffer(k)
-    p = next(s)
-    yield p
-    q = next(s)
-    for r in s:
+    p = q = o = t = next(s, None)
+    if t is None:
+        return
+    for r in itertools.chain(s, (t,)):
         if r == q:
             continue
         if not collinear(p, q, r):
             if not b1.isempty() and q == b1.peek():
                 b1.pop()
+                # The slit may have started at a corner, which is to be kept.
+                corner = not collinear(o if b1.isempty() else b1.peek(), q, r)
             else:
+                corner = True
+            if corner:
                 if b1.isfull():
-                    t = b1.shift()
+                    o = b1.shift()
                     if b2.isfull():
-                        yield t
+                        yield o
                     else:
-                        b2.push(t)
+                        b2.push(o)
                 b1.push(q)
         p, q = q, r
-    while not (b1.isempty() or b2.isempty()):
-        p = b1.pop()
-        q = b2.shift()
-        if p != q:
-            break
+    # The ring was cut open at point t, which may be inside of a slit.
+    q = None if b2.isempty() else b2.shift()
+    while not b1.isempty() and b1.peek() == q:
+        t = b1.pop()
+        q = None if b2.isempty() else b2.shift()
     while not b1.isempty():
         yield b1.shift()
-    yield p
-    yield q
+    yield t
+    if q is not None:
+        yield q
     while not b2.isempty():
         yield b2.shift()
-    yield r
 
 def simplify(xys, scl, closed=False, k=8):
     s = sqr_fit(xys, scl)
-- 
2.43.0


From a77f4391107627eaae197249abef1d6d3c264b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:24 +0000
Subject: [PATCH 06/97] fix: keep column indices within the column size

---
 coral/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/grid.py b/coral/grid.py
index 6c4bfe2..7b23cc7 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -41,7 +41,7 @@ class IVar:
             self.size = 8
         else:
             raise ValueError
-        self.span = SIZE_SPAN[self.size]
+        self.span = SIZE_SPAN[self.size] - 1
         if nullable:
             self.span -= 1
         self.nullable = nullable
@@ -86,7 +86,7 @@ class FVar:
         self.maxv = maxv
         self.size = size
         self.delta = maxv - minv
-        self.span = SIZE_SPAN[size]
+        self.span = SIZE_SPAN[size] - 1
         if nullable:
             self.span -= 1
         self.nullable = nullable
-- 
2.43.0


From 4e16a67c5f1f6d54c5de8473c933d0aaee5205d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:24 +0000
Subject: [PATCH 07/97] fix: define the format of integer columns

---
 coral/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/grid.py b/coral/grid.py
index 7b23cc7..9fb7649 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -41,6 +41,7 @@ class IVar:
             self.size = 8
         else:
             raise ValueError
+        self.fmt = '>' + SIZE_FORMAT[self.size]
         self.span = SIZE_SPAN[self.size] - 1
         if nullable:
             self.span -= 1
-- 
2.43.0


From 3536faa1f9e09a03f9234340ddaed4e00ed3401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:24 +0000
Subject: [PATCH 08/97] fix: import collections in rg

---
 coral/rg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/rg.py b/coral/rg.py
index 3ab2857..01be947 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -81,6 +81,7 @@ Note that the method Reader.read() takes an ID optionally. If one doesn't
 #   s.seek(offset, io.SEEK_END) seeks from the end of the stream
 import io
 import struct
+import collections
 
 from .grid import IVar, FVar, SVar, GRow
 
-- 
2.43.0


From 54f22534b0c2d94b4c93c92dda7a94e1fc35e49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:24 +0000
Subject: [PATCH 09/97] fix: read back empty entities and identifiers with
 spaces

---
 coral/rg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/rg.py b/coral/rg.py
index 01be947..59e25ae 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -135,9 +135,9 @@ def _readindex(path):
     with open(path, "r") as md:
         n = int(md.readline())
         for i in range(n):
-            eid, ensegs = md.readline().split(" ")
+            eid, ensegs = md.readline().rsplit(" ", 1)
             ensegs = int(ensegs)
-            elens = [int(s) for s in md.readline().split(" ")]
+            elens = [int(s) for s in md.readline().split()]
             index.append((eid, elens))
     return index
 
-- 
2.43.0


From c55cb3427712c68eae12ecdcefc828484671f639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:24 +0000
Subject: [PATCH 10/97] fix: do not loop forever on latitudes above 90 degrees

---
 coral/pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/pf.py b/coral/pf.py
index 7e301ac..c3e2553 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -172,7 +172,7 @@ class Writer:
                 while lat < -90:
                     lat += 180
                 while lat > 90:
-                    lat += 180
+                    lat -= 180
                 parts[i][j] = (lon, lat)
         nparts = len(parts)
         for i in range(nparts):
-- 
2.43.0


From 55de8405039ecebca7a7c5afca4b0a88c3edac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:24 +0000
Subject: [PATCH 11/97] fix: keep parts made of a single point

---
 coral/pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/pf.py b/coral/pf.py
index c3e2553..4984faa 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -177,7 +177,7 @@ class Writer:
         nparts = len(parts)
         for i in range(nparts):
             part = parts[i]
-            if part[0] == part[-1]:
+            if len(part) > 1 and part[0] == part[-1]:
                 part = part[:-1]
                 parts[i] = part
         self.names.append(name)
-- 
2.43.0


From 66529a358c8310d698e1311335077304f74f43e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:24 +0000
Subject: [PATCH 12/97] fix: store geometries whose quantized box has no extent

---
 coral/pf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/coral/pf.py b/coral/pf.py
index 4984faa..4142131 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -197,6 +197,11 @@ class Writer:
         if any(not 0 <= v <= UMAX2 for v in (x0, x1, y0, y1)):
             print(bb)
             print((x0, x1, y0, y1))
+        # Quantization requires a box with some extent.
+        if x0 == x1:
+            x0, x1 = (x0, x1 + 1) if x1 < UMAX2 else (x0 - 1, x1)
+        if y0 == y1:
+            y0, y1 = (y0, y1 + 1) if y1 < UMAX2 else (y0 - 1, y1)
         self.bboxes.append((x0, x1, y0, y1))
         x0 = x0 * 360 / UMAX2 - 180
         x1 = x1 * 360 / UMAX2 - 180
-- 
2.43.0


From 9c7456dfb8bc79a8e40857e7ed481267dae9a5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:24 +0000
Subject: [PATCH 13/97] fix: store points on the edges of their box with 8-byte
 coordinates

---
 coral/pf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coral/pf.py b/coral/pf.py
index 4142131..f1e0bbe 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -212,6 +212,9 @@ class Writer:
                 lon1, lat1 = point
                 ulon = round((lon1 - x0) * self.umax / (x1 - x0))
                 ulat = round((lat1 - y0) * self.umax / (y1 - y0))
+                # Floating-point errors must not push indices out of range.
+                ulon = min(max(ulon, 0), self.umax)
+                ulat = min(max(ulat, 0), self.umax)
                 data = struct.pack(self.fmt, ulon, ulat)
                 lon2 = x0 + ulon * (x1 - x0) / self.umax
                 lat2 = y0 + ulat * (y1 - y0) / self.umax
-- 
2.43.0


From 4c8087de8604fd847dda03262709e8f600d07fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:11 +0000
Subject: [PATCH 14/97] fix: enclose parts without extent at the origin in the
 entity's box

---
 coral/pf.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/coral/pf.py b/coral/pf.py
index f1e0bbe..2af9973 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -181,15 +181,8 @@ class Writer:
                 part = part[:-1]
                 parts[i] = part
         self.names.append(name)
-        bb = None
-        partlen = []
-        for part in parts:
-            if bb is None:
-                bb = bbox.BBox(part)
-            else:
-                bb |= bbox.BBox(part)
-            partlen.append(len(part))
-        self.partlens.append(partlen)
+        bb = bbox.BBox(point for part in parts for point in part)
+        self.partlens.append([len(part) for part in parts])
         x0 = math.floor((bb.x0 + 180) * UMAX2 / 360)
         x1 = math.ceil((bb.x1 + 180) * UMAX2 / 360)
         y0 = math.floor((bb.y0 + 90) * UMAX2 / 180)
-- 
2.43.0


From 99cf5a70b37018f51101f8166878a6ae054a976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:29 +0000
Subject: [PATCH 15/97] fix: apply the background to every pixel of
 black-and-white canvases

---
 coral/raster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/raster.py b/coral/raster.py
index 41423ef..905bf48 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -179,7 +179,8 @@ class BWCanvas(BaseCanvas):
         self.bgcolor = bgcolor
         nw = math.ceil(width/8) # bytes/row
         n = nw * height
-        self.data = array('B', (bgcolor for i in range(n)))
+        byte = 0xff if bgcolor else 0x00
+        self.data = array('B', (byte for i in range(n)))
         self.bits_per_row = nw * 8
 
     def __getitem__(self, key):
-- 
2.43.0


From 52e9c9ff83ed6f78b655c29a727a42877fd53a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:29 +0000
Subject: [PATCH 16/97] fix: ignore the rows of polygons that lie outside of
 the canvas

---
 coral/raster.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coral/raster.py b/coral/raster.py
index 905bf48..f736c6d 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -49,13 +49,15 @@ class BaseCanvas:
                 (x0, y0), (x1, y1) = (x1, y1), (x0, y0)
             if x0 == x1:
                 while y0 < y1:
-                    heapq.heappush(scans[y0], (x0, down))
+                    if 0 <= y0 < len(scans):
+                        heapq.heappush(scans[y0], (x0, down))
                     y0 += 1
             else:
                 sx = x0 < x1 and 1 or -1
                 slope = abs((y1 - y0) / (x1 - x0))
                 while y0 < y1:
-                    heapq.heappush(scans[y0], (round(x0), down))
+                    if 0 <= y0 < len(scans):
+                        heapq.heappush(scans[y0], (round(x0), down))
                     y0 += 1
                     x0 += sx / slope
         return scans
-- 
2.43.0


From 75d8683b7c18265743f1b7d65dfb0b1200c461de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:29 +0000
Subject: [PATCH 17/97] fix: fill polygons that share edges or exceed the
 canvas sideways

---
 coral/raster.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/coral/raster.py b/coral/raster.py
index f736c6d..800bfba 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -66,18 +66,14 @@ class BaseCanvas:
         "Fill polygons previously scanned with `scanpolygon()`."
 
         for y, marks in enumerate(scans):
-            heapq.heappush(marks, (self.width, False))
-            x1, d1 = heapq.heappop(marks)
-            x0, d0 = 0, not d1
-            while x1 < self.width:
-                if not d0:
-                    while x0 < x1:
-                        self[x0, y] = color
-                        x0 += 1
-                else:
-                    x0 = x1
-                d0 = d1
-                x1, d1 = heapq.heappop(marks)
+            x0 = winding = 0
+            while marks:
+                x1, down = heapq.heappop(marks)
+                if winding > 0:
+                    for x in range(max(x0, 0), min(x1, self.width)):
+                        self[x, y] = color
+                winding += -1 if down else 1
+                x0 = x1
 
     def line(self, start, end, color):
         "Draw line using Bresenham's algorithm."
-- 
2.43.0


From d0d473d763aa7823e8a27fd42036f7ddbcdbead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:29 +0000
Subject: [PATCH 18/97] fix: accept anti-aliased lines of zero length

---
 coral/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/raster.py b/coral/raster.py
index 800bfba..d7fc8d9 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -115,7 +115,7 @@ class BaseCanvas:
             (x0, y0), (x1, y1) = (x1, y1), (x0, y0)
         dx = x1 - x0
         dy = y1 - y0
-        gradient = dy / dx
+        gradient = dy / dx if dx else 0
 
         # Line start.
         xend = nearest(x0)
-- 
2.43.0


From b113219a77f6ef9f831d935fcefe4ddefb650a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:29 +0000
Subject: [PATCH 19/97] fix: accept gray levels for anti-aliased lines

---
 coral/raster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coral/raster.py b/coral/raster.py
index d7fc8d9..1e66980 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -103,6 +103,9 @@ class BaseCanvas:
     def aaline(self, start, end, color):
         "Draw anti-aliased line using Xiaolin Wu's algorithm."
 
+        if not isinstance(color, tuple):
+            color = color, # gray level.
+
         ipart   = int
         fpart   = lambda x: math.modf(x)[0]
         rfpart  = lambda x: 1 - math.modf(x)[0]
-- 
2.43.0


From 0215fe879320172a62d08072a381ef483938b975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:46 +0000
Subject: [PATCH 20/97] fix: draw anti-aliased lines on the last row and column

---
 coral/raster.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/coral/raster.py b/coral/raster.py
index 1e66980..f878e7c 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -120,6 +120,12 @@ class BaseCanvas:
         dy = y1 - y0
         gradient = dy / dx if dx else 0
 
+        def plot(x, y, alpha):
+            # The transparent neighbor of a pixel may be out of the canvas.
+            if alpha:
+                key = (y, x) if steep else (x, y)
+                self[key] = color + (alpha,)
+
         # Line start.
         xend = nearest(x0)
         yend = y0 + gradient * (xend - x0)
@@ -128,12 +134,8 @@ class BaseCanvas:
         ypxl1 = ipart(yend)
         alpha1 = rfpart(yend) * xgap
         alpha2 =  fpart(yend) * xgap
-        if steep:
-            self[ypxl1  , xpxl1] = color + (alpha1,)
-            self[ypxl1+1, xpxl1] = color + (alpha2,)
-        else:
-            self[xpxl1, ypxl1  ] = color + (alpha1,)
-            self[xpxl1, ypxl1+1] = color + (alpha2,)
+        plot(xpxl1, ypxl1  , alpha1)
+        plot(xpxl1, ypxl1+1, alpha2)
         intery = yend + gradient
 
         # Line end.
@@ -144,23 +146,15 @@ class BaseCanvas:
         ypxl2 = ipart(yend)
         alpha1 = rfpart(yend) * xgap
         alpha2 =  fpart(yend) * xgap
-        if steep:
-            self[ypxl2  , xpxl2] = color + (alpha1,)
-            self[ypxl2+1, xpxl2] = color + (alpha2,)
-        else:
-            self[xpxl2, ypxl2  ] = color + (alpha1,)
-            self[xpxl2, ypxl2+1] = color + (alpha2,)
+        plot(xpxl2, ypxl2  , alpha1)
+        plot(xpxl2, ypxl2+1, alpha2)
 
         # Internal points.
         for x in range(xpxl1+1, xpxl2):
             alpha1 = rfpart(intery)
             alpha2 =  fpart(intery)
-            if steep:
-                self[ipart(intery)  , x] = color + (alpha1,)
-                self[ipart(intery)+1, x] = color + (alpha2,)
-            else:
-                self[x, ipart(intery)  ] = color + (alpha1,)
-                self[x, ipart(intery)+1] = color + (alpha2,)
+            plot(x, ipart(intery)  , alpha1)
+            plot(x, ipart(intery)+1, alpha2)
             intery += gradient
 
     def strokepolygon(self, points, color, aa=None):
-- 
2.43.0


From 36c07240909f83669ade93428194bceb3b4feb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:16 +0000
Subject: [PATCH 21/97] fix: include max and min when clearing and totalling
 caches

---
 coral/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/stats.py b/coral/stats.py
index 4145aa7..6887a70 100644
--- a/coral/stats.py
+++ b/coral/stats.py
@@ -89,7 +89,7 @@ def gini_deaton(seq):
     g = (n + 1) / (n - 1) - 2 * s / (n * (n - 1) * u)
     return g
 
-memos = [sum, len, avg, var, std_dev, covar, corr, gini_kakwani, gini_deaton]
+memos = [max, min, sum, len, avg, var, std_dev, covar, corr, gini_kakwani, gini_deaton]
 
 CacheInfo = collections.namedtuple("CacheInfo", "hits, misses, maxsize, currsize")
 
-- 
2.43.0


From 386d75696cfb63b69c99152068bdde85fa96e156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:16 +0000
Subject: [PATCH 22/97] fix: leave the list of stops given to a gradient
 unchanged

---
 coral/gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/gradient.py b/coral/gradient.py
index 2979ae8..dd12d52 100644
--- a/coral/gradient.py
+++ b/coral/gradient.py
@@ -23,7 +23,7 @@ import bisect
 class Gradient:
 
     def __init__(self, points):
-        points.sort(key=lambda p: p[0])
+        points = sorted(points, key=lambda p: p[0])
         if points[0][0] > 0:
             points.insert(0, (0, points[0][1]))
         if points[-1][0] < 1:
-- 
2.43.0


From c3863ea3b9e69089f9b07768ab799eaa21549d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:39 +0000
Subject: [PATCH 23/97] fix: match each character at most once in the Jaro
 similarity

---
 coral/names.py | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/coral/names.py b/coral/names.py
index c2f399e..e0c1c4b 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -74,35 +74,22 @@ def strerr(s1, s2):
 def jaro(s1, s2):
     ls1 = len(s1)
     ls2 = len(s2)
-    if ls1 < ls2:
-        s1 += "*" * (ls2 - ls1)
-        length = ls2
-    elif ls2 < ls1:
-        s2 += "*" * (ls1 - ls2)
-        length = ls1
-    else:
-        length = ls1
-    m = 0
-    w = length // 2 - 1
+    w = max(max(ls1, ls2) // 2 - 1, 0)
+    c1 = []
     p = []
-    for i in range(length):
-        if s1[i] == s2[i]:
-            m += 1
-        else:
-            i0, i1 = max(0, i-w), min(length, i+w+1)
-            f = s2.find(s1[i], i0, i1)
-            if f >= 0:
-                m += 1
+    for i in range(ls1):
+        i0, i1 = max(0, i-w), min(ls2, i+w+1)
+        for f in range(i0, i1):
+            # each character matches at most once.
+            if s1[i] == s2[f] and f not in p:
+                c1.append(s1[i])
                 p.append(f)
+                break
+    m = len(p)
     if m == 0:
         return 0
-    t = 0
-    x = 0
-    for f in p:
-        if f < x:
-            t += 1
-        else:
-            x = f
+    # half the number of matching characters out of order.
+    t = sum(c != s2[f] for c, f in zip(c1, sorted(p))) / 2
     return (m / ls1 + m / ls2 + (m - t) / m) / 3
 
 # http://en.wikipedia.org/wiki/Jaro%E2%80%93Winkler_distance
-- 
2.43.0


From 3aa09cc103c063706af4e0e7e80e8ba292a01726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:39 +0000
Subject: [PATCH 24/97] fix: define the names used to abbreviate

---
 coral/names.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/names.py b/coral/names.py
index e0c1c4b..8916a92 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -19,6 +19,7 @@
 # THE SOFTWARE.
 
 import collections
+import itertools
 
 def ascii(s):
     src = "áàãâäéèẽêëíìĩîïóòõôöúùũûüç"
@@ -116,7 +117,7 @@ def mapping(keys, values):
     m.sort(key=lambda match: -match.score)
     return m
 
-def abbreviations(names, length):
+def abbreviations(names, length, extras=()):
     norm = lambda name: ascii(name.upper())
     inames = [(i, norm(name)) for i, name in enumerate(names)]
     inames.sort(key=len)
-- 
2.43.0


From fcb62992113c68423c0190bb8b2f166230535bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:39 +0000
Subject: [PATCH 25/97] fix: reserve short names before abbreviating longer
 ones

---
 coral/names.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/names.py b/coral/names.py
index 8916a92..4867809 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -120,7 +120,7 @@ def mapping(keys, values):
 def abbreviations(names, length, extras=()):
     norm = lambda name: ascii(name.upper())
     inames = [(i, norm(name)) for i, name in enumerate(names)]
-    inames.sort(key=len)
+    inames.sort(key=lambda iname: len(iname[1]))
     counter = collections.Counter()
     for i, name in inames:
         counter.update(set(name))
-- 
2.43.0


From 3919a2bb5953a9c2aa569c04cf38d7ebbf65c01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:39 +0000
Subject: [PATCH 26/97] fix: abbreviate names with repeated or outer blanks

---
 coral/names.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/names.py b/coral/names.py
index 4867809..7f6d25c 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -135,7 +135,7 @@ def abbreviations(names, length, extras=()):
             abb = tname
         else:
             ics = list(enumerate(tname))
-            initis = [0] + [i+1 for i, c in ics if c == " "]
+            initis = [i for i, c in ics if c != " " and (i == 0 or tname[i-1] == " ")]
             #for j in range(len(initis)):
             #    initis[j] -= j
             ics = [(i, c) for i, c in ics if c != " "]
-- 
2.43.0


From 09bdd909eab4f29016d9b24c23c0ee2007e678fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:39 +0000
Subject: [PATCH 27/97] fix: abbreviate names with few letters among blanks

---
 coral/names.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/names.py b/coral/names.py
index 7f6d25c..a11ade2 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -144,7 +144,7 @@ def abbreviations(names, length, extras=()):
                 ic = (initi, tname[initi])
                 ics.remove(ic)
                 ics.insert(j, ic)
-            for comb in itertools.combinations(ics, length):
+            for comb in itertools.combinations(ics, min(length, len(ics))):
                 comb = list(comb)
                 comb.sort(key=lambda ic: ic[0])
                 abb = "".join(c for i, c in comb)
-- 
2.43.0


From 915cffe39bbb7c3a2cf5ec73ec1ae6a255ce1850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:09 +0000
Subject: [PATCH 28/97] fix: show progress of iterables of unknown length

---
 coral/tqdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/tqdm.py b/coral/tqdm.py
index 13ce086..eac33aa 100644
--- a/coral/tqdm.py
+++ b/coral/tqdm.py
@@ -39,7 +39,7 @@ def format_meter(n, total, elapsed):
     # n - number of finished iterations
     # total - total number of iterations, or None
     # elapsed - number of seconds passed since start
-    if n > total:
+    if total is not None and n > total:
         total = None
     
     elapsed_str = format_interval(elapsed)
-- 
2.43.0


From 825c543255a2eaa7bffdd1ac4cdb583077a695bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:09 +0000
Subject: [PATCH 29/97] fix: erase the progress meter on the file it was
 printed to

---
 coral/tqdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/tqdm.py b/coral/tqdm.py
index eac33aa..a8fabec 100644
--- a/coral/tqdm.py
+++ b/coral/tqdm.py
@@ -118,7 +118,7 @@ def tqdm(iterable, desc='', total=None, leave=True, file=sys.stderr,
     
     if not leave:
         sp.print_status('')
-        sys.stdout.write('\r')
+        file.write('\r')
     else:
         if last_print_n < n:
             cur_t = time.time()
-- 
2.43.0


From df709ac52b7df9df236e6247de33dcffa83acc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:09 +0000
Subject: [PATCH 30/97] fix: do not round exact percentages of progress down to
 the previous one

---
 coral/tqdm.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/coral/tqdm.py b/coral/tqdm.py
index a8fabec..3f8a975 100644
--- a/coral/tqdm.py
+++ b/coral/tqdm.py
@@ -46,13 +46,11 @@ def format_meter(n, total, elapsed):
     rate = '%5.2f' % (n / elapsed) if elapsed else '?'
     
     if total:
-        frac = float(n) / total
-        
         N_BARS = 10
-        bar_length = int(frac*N_BARS)
+        bar_length = int(n * N_BARS / total)
         bar = '#'*bar_length + '-'*(N_BARS-bar_length)
         
-        percentage = '%3d%%' % (frac * 100)
+        percentage = '%3d%%' % (n * 100 / total)
         
         left_str = format_interval(elapsed / n * (total-n)) if n else '?'
         
-- 
2.43.0


From 0ab7ab4e70420a750dba70d786bcc48aff2e3655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:32 +0000
Subject: [PATCH 31/97] fix: read selected columns in the order of the
 selection

---
 coral/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/table.py b/coral/table.py
index 28b22f3..8c2fdf7 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -87,7 +87,7 @@ def readfile(path, keys=None, sep=',', comm='#'):
         fkeys = line.split(sep)
         if keys is None:
             keys = fkeys
-        indexes = [i for i in range(len(fkeys)) if fkeys[i] in keys]
+        indexes = [fkeys.index(key) for key in keys]
         Row = collections.namedtuple("Row", keys)
         for line in f:
             line = line.split(comm)[0].strip()
-- 
2.43.0


From 033df3e34160a800f836a2431076ef4f30c8a3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:32 +0000
Subject: [PATCH 32/97] fix: do not wait forever for the header line of a table
 file

---
 coral/table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coral/table.py b/coral/table.py
index 8c2fdf7..d567a1e 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -83,7 +83,10 @@ def readfile(path, keys=None, sep=',', comm='#'):
     with codecs.open(path, "r", "utf8") as f:
         line = ""
         while not line:
-            line = f.readline().split(comm)[0].strip()
+            line = f.readline()
+            if not line:
+                raise ValueError("missing header line in {}".format(path))
+            line = line.split(comm)[0].strip()
         fkeys = line.split(sep)
         if keys is None:
             keys = fkeys
-- 
2.43.0


From 54ac8c6582a2377ebea006b5e53225fdc3bb101a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:32 +0000
Subject: [PATCH 33/97] fix: keep empty values at the ends of tab-separated
 lines

---
 coral/table.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coral/table.py b/coral/table.py
index d567a1e..8e67253 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -80,6 +80,8 @@ def delkeys(table, keys_to_del):
 
 def readfile(path, keys=None, sep=',', comm='#'):
     table = []
+    # empty values at the ends of a line may be delimited by blanks.
+    blanks = " \t\r\n".replace(sep, "")
     with codecs.open(path, "r", "utf8") as f:
         line = ""
         while not line:
@@ -93,8 +95,8 @@ def readfile(path, keys=None, sep=',', comm='#'):
         indexes = [fkeys.index(key) for key in keys]
         Row = collections.namedtuple("Row", keys)
         for line in f:
-            line = line.split(comm)[0].strip()
-            if not line:
+            line = line.split(comm)[0].strip(blanks)
+            if not line.strip():
                 continue
             fvalues = line.split(sep)
             values = [fvalues[i] for i in indexes]
-- 
2.43.0


From fc916669820400655a7d1a2f1f3c253efb233957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:29 +0000
Subject: [PATCH 34/97] fix: set the ink again after switching between gray and
 color

---
 coral/vector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coral/vector.py b/coral/vector.py
index aadeb81..9783114 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -83,8 +83,10 @@ class Canvas:
         if bgcolor is not None:
             if isinstance(bgcolor, tuple):
                 self.state['color'] = bgcolor
+                self.state['gray'] = None
             else:
                 self.state['gray'] = bgcolor
+                self.state['color'] = None
         self.deps = set()
 
     def copy(self):
@@ -104,6 +106,7 @@ class Canvas:
         line = "{} v".format(v)
         self.lines.append(line)
         self.state['gray'] = v
+        self.state['color'] = None
 
     def setcolor(self, r, g, b):
         if self.state['color'] == (r, g, b):
@@ -111,6 +114,7 @@ class Canvas:
         line = "{} {} {} rgb".format(r, g, b)
         self.lines.append(line)
         self.state['color'] = (r, g, b)
+        self.state['gray'] = None
 
     def setink(self, ink):
         if isinstance(ink, tuple):
-- 
2.43.0


From 327d89c264b05eda5e44c4d92d87637b05247efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:29 +0000
Subject: [PATCH 35/97] fix: restore the known ink along with the graphics
 state

---
 coral/vector.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/coral/vector.py b/coral/vector.py
index 9783114..dfcac58 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -148,11 +148,13 @@ class Canvas:
         if fill is not None:
             if stroke is not None:
                 self.lines.append("gs")
+                state = self.state.copy()
             self.setink(fill)
             self.lines.append("f")
         if stroke is not None:
             if fill is not None:
                 self.lines.append("gr")
+                self.state = state
             self.setink(stroke)
             self.lines.append("s")
         self.bbox |= bbox.BBox((x - r, y - r), (x + r, y + r))
@@ -198,11 +200,13 @@ class Canvas:
         if fill is not None:
             if stroke is not None:
                 self.lines.append("gs")
+                state = self.state.copy()
             self.setink(fill)
             self.lines.append("f")
         if stroke is not None:
             if fill is not None:
                 self.lines.append("gr")
+                self.state = state
             self.setink(stroke)
             self.lines.append("s")
         self.bbox |= bbox.BBox((x0, y0), (x1, y1))
@@ -221,11 +225,13 @@ class Canvas:
         if fill is not None:
             if stroke is not None:
                 self.lines.append("gs")
+                state = self.state.copy()
             self.setink(fill)
             self.lines.append("f")
         if stroke is not None:
             if fill is not None:
                 self.lines.append("gr")
+                self.state = state
             self.setink(stroke)
             self.lines.append("s")
         self.bbox |= bbox.BBox(points)
-- 
2.43.0


From 64d3daae3786b908388f00aa6ebddde2eb62a9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:29 +0000
Subject: [PATCH 36/97] fix: start circles with a new path

---
 coral/vector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/vector.py b/coral/vector.py
index dfcac58..edee60d 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -143,6 +143,7 @@ class Canvas:
     def addcircle(self, center, radius, fill=None, stroke=None):
         x, y = center
         r = radius
+        self.lines.append("np")
         line = "{} {} {} 0 360 arc cp".format(x, y, r)
         self.lines.append(line)
         if fill is not None:
-- 
2.43.0


From 85b1d0a30130c3f578026df2480dc8ab4a5d08b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:29 +0000
Subject: [PATCH 37/97] fix: remember the dash pattern by value

---
 coral/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/vector.py b/coral/vector.py
index edee60d..5521a1a 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -138,7 +138,7 @@ class Canvas:
         psarray = "[{}]".format(" ".join(map(str, pattern)))
         line = "{} {} setdash".format(psarray, offset)
         self.lines.append(line)
-        self.state['dash'] = (pattern, offset)
+        self.state['dash'] = (pattern[:], offset)
 
     def addcircle(self, center, radius, fill=None, stroke=None):
         x, y = center
-- 
2.43.0


From d6577f4726fa2f5043be4b25286aa7ce83aa75bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:29 +0000
Subject: [PATCH 38/97] fix: escape special characters of texts

---
 coral/vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/vector.py b/coral/vector.py
index 5521a1a..88d32dd 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -241,6 +241,8 @@ class Canvas:
         assert anchor in "c t tr r br b bl l tl".split()
         key = "s" + anchor
         x, y = pos
+        for char in "\\()":
+            text = text.replace(char, "\\" + char)
         fmt = "({}) {} /{} {} {} {}"
         line = fmt.format(text, size, font, x, y, key)
         self.lines.append(line)
-- 
2.43.0


From 8cde52cd03efedbca6d88f6d151c25284d4c9445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:29 +0000
Subject: [PATCH 39/97] fix: do not leave the tangent points of rounded corners
 on the stack

---
 coral/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/vector.py b/coral/vector.py
index 88d32dd..b398915 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -220,7 +220,7 @@ class Canvas:
         line = "{} {} m".format(*startend)
         self.lines.append(line)
         for (x1, y1), (x2, y2) in zip(poly[1:], poly[2:] + poly[:1]):
-            line = "{} {} {} {} {} arcto".format(x1, y1, x2, y2, radius)
+            line = "{} {} {} {} {} arcto 4 {{pop}} repeat".format(x1, y1, x2, y2, radius)
             self.lines.append(line)
         self.lines.append("cp")
         if fill is not None:
-- 
2.43.0


From d3737e4760c2407ff011165aaa6d0c0e5781dca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:27 +0000
Subject: [PATCH 40/97] fix: start texts with a new path

---
 coral/vector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/vector.py b/coral/vector.py
index b398915..13c0f25 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -241,6 +241,7 @@ class Canvas:
         assert anchor in "c t tr r br b bl l tl".split()
         key = "s" + anchor
         x, y = pos
+        self.lines.append("np")
         for char in "\\()":
             text = text.replace(char, "\\" + char)
         fmt = "({}) {} /{} {} {} {}"
-- 
2.43.0


From abecf989ca99837cf42c37b0922fdc7a5d7131a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:32 +0000
Subject: [PATCH 41/97] fix: measure distances between antipodal points

---
 coral/coord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/coord.py b/coral/coord.py
index 3ace149..4c36e56 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -120,7 +120,7 @@ def haversine(lon1, lat1, lon2, lat2, R=None):
     a1 = math.sin(dLat / 2) * math.sin(dLat / 2)
     a2 = math.sin(dLon / 2) * math.sin(dLon / 2) * math.cos(lat1) * math.cos(lat2)
     a = a1 + a2
-    c = 2 * math.atan2(math.sqrt(a), math.sqrt(1 - a))
+    c = 2 * math.atan2(math.sqrt(a), math.sqrt(max(1 - a, 0)))
     d = R * c
     return d
 
-- 
2.43.0


From 41d22ab4edc3f79ff890b9356a38a53e50ec7db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:32 +0000
Subject: [PATCH 42/97] fix: invert the center of azimuthal projections

---
 coral/proj.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/coral/proj.py b/coral/proj.py
index 0164943..d459468 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -276,6 +276,8 @@ class Stereographic(Proj):
 
     def rect2geo(self, x, y):
         p = math.sqrt(x*x + y*y)
+        if p == 0:
+            return math.degrees(self.lon0), math.degrees(self.lat0)
         c = 2 * math.atan(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
@@ -324,6 +326,8 @@ class AzimuthalEquidistant(Proj):
 
     def rect2geo(self, x, y):
         p = math.sqrt(x*x + y*y)
+        if p == 0:
+            return math.degrees(self.lon0), math.degrees(self.lat0)
         c = p / self.r
         cosc = math.cos(c)
         sinc = math.sin(c)
@@ -367,6 +371,8 @@ class AzimuthalEqualArea(Proj):
 
     def rect2geo(self, x, y):
         p = math.sqrt(x*x + y*y)
+        if p == 0:
+            return math.degrees(self.lon0), math.degrees(self.lat0)
         c = 2 * math.asin(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
-- 
2.43.0


From f014719a8f2ce5155d863ea3cf8f29d6c016e7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:32 +0000
Subject: [PATCH 43/97] fix: find the quadrant when inverting azimuthal
 projections

---
 coral/proj.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index d459468..ad1a8f7 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -281,17 +281,16 @@ class Stereographic(Proj):
         c = 2 * math.atan(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
-        # FIXME: In the formulas below, should it be atan or atan2?
         if self.lat0 == math.pi / 2:
             # North Polar Aspect.
-            lon = self.lon0 + math.atan(x/(-y))
+            lon = self.lon0 + math.atan2(x, -y)
         elif self.lat0 == -math.pi / 2:
             # South Polar Aspect.
-            lon = self.lon0 + math.atan(x/y)
+            lon = self.lon0 + math.atan2(x, y)
         else:
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
-            lon = self.lon0 + math.atan(x * sinc / den)
+            lon = self.lon0 + math.atan2(x * sinc, den)
         lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
@@ -331,17 +330,16 @@ class AzimuthalEquidistant(Proj):
         c = p / self.r
         cosc = math.cos(c)
         sinc = math.sin(c)
-        # FIXME: In the formulas below, should it be atan or atan2?
         if self.lat0 == math.pi / 2:
             # North Polar Aspect.
-            lon = self.lon0 + math.atan(x/(-y))
+            lon = self.lon0 + math.atan2(x, -y)
         elif self.lat0 == -math.pi / 2:
             # South Polar Aspect.
-            lon = self.lon0 + math.atan(x/y)
+            lon = self.lon0 + math.atan2(x, y)
         else:
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
-            lon = self.lon0 + math.atan(x * sinc / den)
+            lon = self.lon0 + math.atan2(x * sinc, den)
         lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
@@ -376,17 +374,16 @@ class AzimuthalEqualArea(Proj):
         c = 2 * math.asin(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
-        # FIXME: In the formulas below, should it be atan or atan2?
         if self.lat0 == math.pi / 2:
             # North Polar Aspect.
-            lon = self.lon0 + math.atan(x/(-y))
+            lon = self.lon0 + math.atan2(x, -y)
         elif self.lat0 == -math.pi / 2:
             # South Polar Aspect.
-            lon = self.lon0 + math.atan(x/y)
+            lon = self.lon0 + math.atan2(x, y)
         else:
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
-            lon = self.lon0 + math.atan(x * sinc / den)
+            lon = self.lon0 + math.atan2(x * sinc, den)
         lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
-- 
2.43.0


From 87ffeacc125730b748f6e16c987f4370176b51dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:32 +0000
Subject: [PATCH 44/97] fix: find the quadrant in the oblique Mercator
 projection

---
 coral/proj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index ad1a8f7..c08e3d5 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -198,7 +198,7 @@ class ObliqMercator(Proj):
         a = s * math.sin(lat) - c * math.cos(lat) * math.sin(lon - self.lon0)
         v = math.tan(lat) * c + s * math.sin(lon - self.lon0)
         h = math.cos(lon - self.lon0)
-        x = self.r * math.atan(v / h)
+        x = self.r * math.atan2(v, h)
         y = self.r * math.atanh(a)
         return x, y
 
@@ -208,7 +208,7 @@ class ObliqMercator(Proj):
         lat = math.asin(s * math.tanh(yr) + c * math.sin(xr) / math.cosh(yr))
         v = s * math.sin(xr) - c * math.sinh(yr)
         h = math.cos(xr)
-        lon = self.lon0 + math.atan(v / h)
+        lon = self.lon0 + math.atan2(v, h)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
-- 
2.43.0


From bce94c9b856c59fff9164be27f0fe01736c31119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:42 +0000
Subject: [PATCH 45/97] fix: stop at centroids on the poles

---
 coral/coord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/coord.py b/coral/coord.py
index 4c36e56..2400df1 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -213,7 +213,7 @@ def geocentroid(region, bb=None, epsilon=None):
         cx /= sw
         cy /= sw
         c1 = prj.rect2geo(cx, cy)
-        if abs(c1[0] - c0[0]) <= epsilon and abs(c1[1] - c0[1]) <= epsilon:
+        if math.hypot(cx, cy) <= prj.r * math.radians(epsilon):
             break
         c0 = c1
     return c1
-- 
2.43.0


From fb106d3eb07deeafa61164cfc40872565f0fdadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:14 +0000
Subject: [PATCH 46/97] fix: use the last approximation in the Eckert IV
 projection

---
 coral/proj.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/proj.py b/coral/proj.py
index c08e3d5..4f91c50 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -238,6 +238,8 @@ class EckertIV(Proj):
             den = 2 * costheta * (1 + costheta)
             delta = - num / den
             theta += delta
+        costheta = math.cos(theta)
+        sintheta = math.sin(theta)
         x = self.CX * self.r * corangle(lon - self.lon0) * (1 + costheta)
         y = self.CY * self.r * sintheta
         return x, y
-- 
2.43.0


From dbbd7dcfa6dc91fb30aa6ac243f4aaf9b6d10dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:14 +0000
Subject: [PATCH 47/97] fix: project points at the center of the equidistant
 projection

---
 coral/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/proj.py b/coral/proj.py
index 4f91c50..71a43a7 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -319,7 +319,7 @@ class AzimuthalEquidistant(Proj):
         sinlon = math.sin(lon - self.lon0)
         cosc = self.sinlat0 * sinlat + self.coslat0 * coslat * coslon
         c = math.acos(cosc)
-        k = c / math.sin(c)
+        k = c / math.sin(c) if c else 1
         x = y = self.r * k
         x *= coslat * sinlon
         y *= self.coslat0 * sinlat - self.sinlat0 * coslat * coslon
-- 
2.43.0


From 93dfcc089ca7de8a42638ff296c6a491830acd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:40 +0000
Subject: [PATCH 48/97] fix: invert the poles in spite of rounding

---
 coral/proj.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index 71a43a7..d636761 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -33,6 +33,10 @@ def corangle(a):
         a -= 2 * math.pi
     return a
 
+def asin(x):
+    "Arc sine of `x`, which may exceed `-1 <= x <= 1` due to rounding."
+    return math.asin(max(-1, min(1, x)))
+
 class ProjectionError(Exception): pass
 
 # See http://www.epsg-registry.org/ for datums.
@@ -179,7 +183,7 @@ class TransMercator(Proj):
     def rect2geo(self, x, y):
         d = y / self.r + self.lat0
         lon = self.lon0 + math.atan2(math.sinh(x / self.r), math.cos(d))
-        lat = math.asin(math.sin(d) / math.cosh(x / self.r))
+        lat = asin(math.sin(d) / math.cosh(x / self.r))
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
@@ -205,7 +209,7 @@ class ObliqMercator(Proj):
     def rect2geo(self, x, y):
         c, s = math.cos(self.lat0), math.sin(self.lat0)
         xr, yr = x / self.r, y / self.r
-        lat = math.asin(s * math.tanh(yr) + c * math.sin(xr) / math.cosh(yr))
+        lat = asin(s * math.tanh(yr) + c * math.sin(xr) / math.cosh(yr))
         v = s * math.sin(xr) - c * math.sinh(yr)
         h = math.cos(xr)
         lon = self.lon0 + math.atan2(v, h)
@@ -249,7 +253,7 @@ class EckertIV(Proj):
         costheta = math.cos(theta)
         sintheta = math.sin(theta)
         lon = self.lon0 + x / (self.CX * self.r * (1 + costheta))
-        lat = math.asin((theta + sintheta * costheta + 2 * sintheta) / self.C)
+        lat = asin((theta + sintheta * costheta + 2 * sintheta) / self.C)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
@@ -293,7 +297,7 @@ class Stereographic(Proj):
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
             lon = self.lon0 + math.atan2(x * sinc, den)
-        lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
+        lat = asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
@@ -342,7 +346,7 @@ class AzimuthalEquidistant(Proj):
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
             lon = self.lon0 + math.atan2(x * sinc, den)
-        lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
+        lat = asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
@@ -386,7 +390,7 @@ class AzimuthalEqualArea(Proj):
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
             lon = self.lon0 + math.atan2(x * sinc, den)
-        lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
+        lat = asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
@@ -425,7 +429,7 @@ class ConicEqualArea(CProj):
         t = math.atan2(x, p0 - y)
         lon = t / self.n
         pnr = p * self.n / self.r
-        lat = math.asin((self.c - pnr*pnr) / (2 * self.n))
+        lat = asin((self.c - pnr*pnr) / (2 * self.n))
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
-- 
2.43.0


From 915816ca9a1681429e405b7f5db4d98812cd67dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:28 +0000
Subject: [PATCH 49/97] fix: project points next to the center of the
 equidistant projection

---
 coral/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/proj.py b/coral/proj.py
index d636761..4bd7017 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -322,7 +322,7 @@ class AzimuthalEquidistant(Proj):
         coslon = math.cos(lon - self.lon0)
         sinlon = math.sin(lon - self.lon0)
         cosc = self.sinlat0 * sinlat + self.coslat0 * coslat * coslon
-        c = math.acos(cosc)
+        c = math.acos(max(-1, min(1, cosc)))
         k = c / math.sin(c) if c else 1
         x = y = self.r * k
         x *= coslat * sinlon
-- 
2.43.0


From 6bd77d48bfec998604d94a2f71820644cec475d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:36 +0000
Subject: [PATCH 50/97] fix: leave the poles in the given direction

---
 coral/coord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/coord.py b/coral/coord.py
index 2400df1..9eefb54 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -157,7 +157,7 @@ def destination(lon, lat, bear, dist, R=None):
     costc = math.cos(tc)
     sintc = math.sin(tc)
     lat = math.asin(sinlat*cosd + coslat*sind*costc)
-    dlon = math.atan2(sintc*sind*coslat, cosd - sinlat*math.sin(lat))
+    dlon = math.atan2(sintc*sind, coslat*cosd - sinlat*sind*costc)
     lon = corangle(rlon - dlon)
     lon, lat = math.degrees(lon), math.degrees(lat)
     return lon, lat
-- 
2.43.0


From 6710f80f1c9d09105cf1d10425a19bbb80719714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:38 +0000
Subject: [PATCH 51/97] fix: arrive at the poles in spite of rounding

---
 coral/coord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/coord.py b/coral/coord.py
index 9eefb54..2163ebf 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -156,7 +156,7 @@ def destination(lon, lat, bear, dist, R=None):
     sind = math.sin(d)
     costc = math.cos(tc)
     sintc = math.sin(tc)
-    lat = math.asin(sinlat*cosd + coslat*sind*costc)
+    lat = proj.asin(sinlat*cosd + coslat*sind*costc)
     dlon = math.atan2(sintc*sind, coslat*cosd - sinlat*sind*costc)
     lon = corangle(rlon - dlon)
     lon, lat = math.degrees(lon), math.degrees(lat)
-- 
2.43.0


From 0fcb372c2414444b783e94aaf97434986ad1ae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:31 +0000
Subject: [PATCH 52/97] fix: load frames of ellipsoidal projections

---
 coral/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/frame.py b/coral/frame.py
index b627079..94c331d 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -126,7 +126,7 @@ def load(path):
     m = p['model']
     mt = m['type']
     if mt == 'ellipsoid':
-        e = Ellipsoid(*(m[k] for k in 'abef'))
+        e = proj.Ellipsoid(*(m[k] for k in 'abef'))
         prj = Proj(c, e)
     else:
         r = m['r']
-- 
2.43.0


From 72af5f0df991426fe43676c6b29b0f55c819ff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:31 +0000
Subject: [PATCH 53/97] fix: save and load frames of conic projections

---
 coral/frame.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/coral/frame.py b/coral/frame.py
index 94c331d..e11f995 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -62,12 +62,16 @@ class Frame:
                 "type": "sphere",
                 "r": self.projection.r
             }
-        rlon, rlat = self.projection.lon0, self.projection.lat0
-        lon, lat = math.degrees(rlon), math.degrees(rlat)
+        if issubclass(type(self.projection), proj.CProj):
+            param = "parallels"
+            r1, r2 = self.projection.lat1, self.projection.lat2
+        else:
+            param = "center"
+            r1, r2 = self.projection.lon0, self.projection.lat0
         d = {
             "projection": {
                 "type": type(self.projection).__name__,
-                "center": (lon, lat),
+                param: (math.degrees(r1), math.degrees(r2)),
                 "orientation": 0.0,
                 "model": model
             },
@@ -122,7 +126,7 @@ def load(path):
     p = d['projection']
     Proj = getattr(proj, p['type'])
     pt = p['type']
-    c = p['center']
+    c = p['parallels'] if issubclass(Proj, proj.CProj) else p['center']
     m = p['model']
     mt = m['type']
     if mt == 'ellipsoid':
-- 
2.43.0


From b9da1739e25e2fb26098143cc0aec48f84e250df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:31 +0000
Subject: [PATCH 54/97] fix: keep blanks at the end of cached names

---
 coral/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/frame.py b/coral/frame.py
index e11f995..4a4bc5a 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -115,7 +115,7 @@ class Frame:
         with open("{}.names".format(key), "r") as f:
             names = []
             for line in f:
-                names.append(line.rstrip())
+                names.append(line.rstrip('\n'))
         return names
 
 def load(path):
-- 
2.43.0


From 84bf6936f9dcc273fb86e67da8aa136a974a00a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:09 +0000
Subject: [PATCH 55/97] fix: write and read the points of multipoints with
 elevation or measure

---
 coral/shapefile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index c789f89..a54bc13 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -351,7 +351,7 @@ class Reader:
         if shapeType in (3,5,13,15,23,25,31):
             nParts = unpack("<i", f.read(4))[0]
         # Shape types with points
-        if shapeType in (3,5,8,13,15,23,25,31):
+        if shapeType in (3,5,8,13,15,18,23,25,28,31):
             nPoints = unpack("<i", f.read(4))[0]
         # Read parts
         if nParts:
@@ -641,7 +641,7 @@ class Writer:
                 # Parts index array
                 size += nParts * 4
             # Shape types with points
-            if self.shapeType in (3,5,8,13,15,23,25,31):
+            if self.shapeType in (3,5,8,13,15,18,23,25,28,31):
                 # Points count
                 size += 4
                 # Points array
@@ -810,7 +810,7 @@ class Writer:
                 # Number of parts
                 f.write(pack("<i", len(s.parts)))
             # Shape types with multiple points per record
-            if s.shapeType in (3,5,8,13,15,23,25,31):
+            if s.shapeType in (3,5,8,13,15,18,23,25,28,31):
                 # Number of points
                 f.write(pack("<i", len(s.points)))
             # Write part indexes
@@ -822,7 +822,7 @@ class Writer:
                 for pt in s.partTypes:
                     f.write(pack("<i", pt))
             # Write points for multiple-point records
-            if s.shapeType in (3,5,8,13,15,23,25,31):
+            if s.shapeType in (3,5,8,13,15,18,23,25,28,31):
                 try:
                     [f.write(pack("<2d", *p[:2])) for p in s.points]
                 except error:
-- 
2.43.0


From b3313e52f4136f06732c0e2fe61c44886fb951a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:09 +0000
Subject: [PATCH 56/97] fix: write the elevations of lines and polygons

---
 coral/shapefile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index a54bc13..21b8da6 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -834,8 +834,10 @@ class Writer:
                 except error:
                     raise ShapefileException("Failed to write elevation extremes for record %s. Expected floats." % recNum)
                 try:
-                    #[f.write(pack("<d", p[2])) for p in s.points]
-                    f.write(pack("<%sd" % len(s.z), *s.z))
+                    if hasattr(s, "z"):
+                        f.write(pack("<%sd" % len(s.z), *s.z))
+                    else:
+                        [f.write(pack("<d", p[2])) for p in s.points]
                 except error:
                     raise ShapefileException("Failed to write elevation values for record %s. Expected floats." % recNum)
             # Write m extremes and values
-- 
2.43.0


From 4d7b544b10d039150a487becf6bfc5cb598fc377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:09 +0000
Subject: [PATCH 57/97] fix: read measures wherever they are written

---
 coral/shapefile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 21b8da6..ec9a148 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -366,8 +366,8 @@ class Reader:
         if shapeType in (13,15,18,31):
             (zmin, zmax) = unpack("<2d", f.read(16))
             record.z = _Array('d', unpack("<%sd" % nPoints, f.read(nPoints * 8)))
-        # Read m extremes and values if header m values do not equal 0.0
-        if shapeType in (13,15,18,23,25,28,31) and not 0.0 in self.measure:
+        # Read m extremes and values if the record has them
+        if shapeType in (13,15,18,23,25,28,31) and next - f.tell() >= 16 + 8 * nPoints:
             (mmin, mmax) = unpack("<2d", f.read(16))
             # Measure values less than -10e38 are nodata values according to the spec
             record.m = []
-- 
2.43.0


From 38a404ed033be4415ab3641b6f1b16bfc8de03c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:09 +0000
Subject: [PATCH 58/97] fix: count measures in the length of the shp file

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index ec9a148..a25be49 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -656,7 +656,7 @@ class Writer:
                 # z array
                 size += 8 * nPoints
             # Calc m extremes and values
-            if self.shapeType in (23,25,31):
+            if self.shapeType in (13,15,18,23,25,28,31):
                 # m extremes
                 size += 16
                 # m array
-- 
2.43.0


From 4a017c087bbbc5e62c3cda7340dad5256ee6340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:09 +0000
Subject: [PATCH 59/97] fix: do not include zero in every range of measures

---
 coral/shapefile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index a25be49..58f259a 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -698,13 +698,14 @@ class Writer:
         return [min(z), max(z)]
 
     def __mbox(self, shapes, shapeTypes=[]):
-        m = [0]
+        m = []
         for s in shapes:
             try:
                 for p in s.points:
                     m.append(p[3])
             except IndexError:
                 pass
+        if not m: m.append(0)
         return [min(m), max(m)]
 
     def bbox(self):
-- 
2.43.0


From 7bf73553ba064bed19011e176d45b4827ed08481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:09 +0000
Subject: [PATCH 60/97] fix: write null shapes among others

---
 coral/shapefile.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 58f259a..63bb8fb 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -623,6 +623,8 @@ class Writer:
         for s in self._shapes:
             # Add in record header and shape type fields
             size += 12
+            if s.shapeType == NULL:
+                continue
             # nParts and nPoints do not apply to all shapes
             #if self.shapeType not in (0,1):
             #       nParts = len(s.parts)
@@ -681,9 +683,13 @@ class Writer:
             shapeType = self.shapeType
             if shapeTypes:
                 shapeType = shapeTypes[shapes.index(s)]
+            if not s.points:
+                continue
             px, py = list(zip(*s.points))[:2]
             x.extend(px)
             y.extend(py)
+        if not x:
+            return [0, 0, 0, 0]
         return [min(x), min(y), max(x), max(y)]
 
     def __zbox(self, shapes, shapeTypes=[]):
@@ -797,7 +803,7 @@ class Writer:
             recNum += 1
             start = f.tell()
             # Shape Type
-            if self.shapeType != 31:
+            if self.shapeType != 31 and s.shapeType != NULL:
                 s.shapeType = self.shapeType
             f.write(pack("<i", s.shapeType))
             # All shape types capable of having a bounding box
-- 
2.43.0


From 5415526004e991c61b6497354ff10e3d42b92915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:09 +0000
Subject: [PATCH 61/97] fix: ignore null shapes when choosing the type of the
 shapefile

---
 coral/shapefile.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 63bb8fb..adf15d8 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -1014,12 +1014,19 @@ class Writer:
         """Return the current list of shapes."""
         return self._shapes
 
+    def __firstType(self):
+        """Returns the type of the first shape that is not null."""
+        for s in self._shapes:
+            if s.shapeType != NULL:
+                return s.shapeType
+        return self._shapes[0].shapeType
+
     def saveShp(self, target):
         """Save an shp file."""
         if not hasattr(target, "write"):
             target = os.path.splitext(target)[0] + '.shp'
         if not self.shapeType:
-            self.shapeType = self._shapes[0].shapeType
+            self.shapeType = self.__firstType()
         self.shp = self.__getFileObj(target)
         self.__shapefileHeader(self.shp, headerType='shp')
         self.__shpRecords()
@@ -1029,7 +1036,7 @@ class Writer:
         if not hasattr(target, "write"):
             target = os.path.splitext(target)[0] + '.shx'
         if not self.shapeType:
-            self.shapeType = self._shapes[0].shapeType
+            self.shapeType = self.__firstType()
         self.shx = self.__getFileObj(target)
         self.__shapefileHeader(self.shx, headerType='shx')
         self.__shxRecords()
-- 
2.43.0


From 99e5339163d328dfdbc50c648ae71c2412ed245b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:09 +0000
Subject: [PATCH 62/97] fix: leave the parts given to a shapefile writer
 unchanged

---
 coral/shapefile.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index adf15d8..567c92b 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -958,15 +958,13 @@ class Writer:
         polyShape.points = []
         # Make sure polygons are closed
         if shapeType in (5,15,25,31):
-            for part in parts:
-                    if part[0] != part[-1]:
-                        part.append(part[0])
+            parts = [list(part) if part[0] == part[-1] else list(part) + [part[0]]
+                     for part in parts]
         for part in parts:
             polyShape.parts.append(len(polyShape.points))
             for point in part:
-                # Ensure point is list
-                if not isinstance(point, list):
-                    point = list(point)
+                # Make a list that belongs to the shape
+                point = list(point)
                 # Make sure point has z and m values
                 while len(point) < 4:
                     point.append(0)
-- 
2.43.0


From 867ec5be00b7652b1f431f05adf753a9f970a0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:09 +0000
Subject: [PATCH 63/97] fix: do not share part types among multipatches

---
 coral/shapefile.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 567c92b..af9a80e 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -971,9 +971,8 @@ class Writer:
                 polyShape.points.append(point)
         if polyShape.shapeType == 31:
             if not partTypes:
-                for part in parts:
-                    partTypes.append(polyShape.shapeType)
-            polyShape.partTypes = partTypes
+                partTypes = [polyShape.shapeType] * len(parts)
+            polyShape.partTypes = list(partTypes)
         self._shapes.append(polyShape)
 
     def field(self, name, fieldType="C", size="50", decimal=0):
-- 
2.43.0


From 3909c4174e7f0b265bc01647dbb8bbad5915a6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:09 +0000
Subject: [PATCH 64/97] fix: index the records of the latest save only

---
 coral/shapefile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index af9a80e..8c4f85f 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -795,6 +795,8 @@ class Writer:
         """Write the shp records"""
         f = self.__getFileObj(self.shp)
         f.seek(100)
+        self._offsets = []
+        self._lengths = []
         recNum = 1
         for s in self._shapes:
             self._offsets.append(f.tell())
-- 
2.43.0


From 84de5712b54a6fc029854490eb5efe0043706a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:09 +0000
Subject: [PATCH 65/97] fix: read blank attributes as empty text

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 8c4f85f..1cc568d 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -506,7 +506,7 @@ class Reader:
             if name == 'DeletionFlag':
                 continue
             elif not value.strip():
-                record.append(value)
+                record.append('')
                 continue
             elif typ == "N":
                 value = value.replace(self.b('\0'), self.b('')).strip()
-- 
2.43.0


From 901216529b6c2a6ee93ddbc429fb79e29fab5c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:09 +0000
Subject: [PATCH 66/97] fix: recognize date and logical attributes

---
 coral/shapefile.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 1cc568d..3b02117 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -516,15 +516,15 @@ class Reader:
                     value = float(value)
                 else:
                     value = int(value)
-            elif typ == self.b('D'):
+            elif typ == 'D':
                 try:
                     y, m, d = int(value[:4]), int(value[4:6]), int(value[6:8])
                     value = [y, m, d]
                 except:
-                    value = value.strip()
-            elif typ == self.b('L'):
-                value = (value in self.b('YyTt') and self.b('T')) or \
-                                        (value in self.b('NnFf') and self.b('F')) or self.b('?')
+                    value = self.u(value).strip()
+            elif typ == 'L':
+                value = (value in self.b('YyTt') and 'T') or \
+                                        (value in self.b('NnFf') and 'F') or '?'
             else:
                 value = self.u(value)
                 value = value.strip()
-- 
2.43.0


From faea8b38a11eb0ebc45dd44a8122bd1117b38f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:09 +0000
Subject: [PATCH 67/97] fix: fit texts into attribute fields by their encoded
 size

---
 coral/shapefile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 3b02117..0de9dab 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -928,9 +928,10 @@ class Writer:
                 elif fieldType == 'L':
                     value = str(value)[0].upper()
                 else:
-                    value = str(value)[:size].ljust(size)
+                    # Truncate between characters
+                    value = self.b(str(value))[:size].decode(self.encoding, 'ignore')
+                value = self.b(value).ljust(size)
                 assert len(value) == size
-                value = self.b(value)
                 f.write(value)
 
     def null(self):
-- 
2.43.0


From c1243282e123c9a25cc3cc61d6ea058c291d3f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:09 +0000
Subject: [PATCH 68/97] fix: write missing attributes as blanks

---
 coral/shapefile.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 0de9dab..7afe883 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -923,10 +923,12 @@ class Writer:
             for (fieldName, fieldType, size, dec), value in zip(self.fields, record):
                 fieldType = fieldType.upper()
                 size = int(size)
+                if value is None:
+                    value = ""
                 if fieldType.upper() == "N":
                     value = str(value).rjust(size)
                 elif fieldType == 'L':
-                    value = str(value)[0].upper()
+                    value = str(value)[:1].upper()
                 else:
                     # Truncate between characters
                     value = self.b(str(value))[:size].decode(self.encoding, 'ignore')
@@ -999,11 +1001,9 @@ class Writer:
         elif recordDict:
             for field in self.fields:
                 if field[0] in recordDict:
-                    val = recordDict[field[0]]
-                    if val is None:
-                        record.append("")
-                    else:
-                        record.append(val)
+                    record.append(recordDict[field[0]])
+                elif field[0] != "DeletionFlag":
+                    record.append(None)
         if record:
             self.records.append(record)
 
-- 
2.43.0


From 943d51b02bf1207d883b413a6d249bf7019b84e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:09 +0000
Subject: [PATCH 69/97] fix: read attribute tables without records

---
 coral/shapefile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 7afe883..a45e824 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -486,7 +486,7 @@ class Reader:
 
     def __recordFmt(self):
         """Calculates the size of a .shp geometry record."""
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         fmt = ''.join(['%ds' % fieldinfo[2] for fieldinfo in self.fields])
         fmtSize = calcsize(fmt)
@@ -534,7 +534,7 @@ class Reader:
     def record(self, i=0):
         """Returns a specific dbf record based on the supplied index."""
         f = self.__getFileObj(self.dbf)
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         i = self.__restrictIndex(i)
         recSize = self.__recordFmt()[1]
@@ -544,7 +544,7 @@ class Reader:
 
     def records(self):
         """Returns all records in a dbf file."""
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         records = []
         f = self.__getFileObj(self.dbf)
@@ -558,7 +558,7 @@ class Reader:
     def iterRecords(self):
         """Serves up records in a dbf file as an iterator.
         Useful for large shapefiles or dbf files."""
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         f = self.__getFileObj(self.dbf)
         f.seek(self.__dbfHeaderLength())
-- 
2.43.0


From 85e854521a1ee9b68ac46fed19cebfd5a0e26617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:09 +0000
Subject: [PATCH 70/97] fix: keep fields whose names start like the deletion
 flag

---
 coral/shapefile.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index a45e824..7cde67f 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -768,9 +768,7 @@ class Writer:
         year, month, day = time.localtime()[:3]
         year -= 1900
         # Remove deletion flag placeholder from fields
-        for field in self.fields:
-            if field[0].startswith("Deletion"):
-                self.fields.remove(field)
+        self.fields = [field for field in self.fields if field[0] != "DeletionFlag"]
         numRecs = len(self.records)
         numFields = len(self.fields)
         headerLength = numFields * 32 + 33
@@ -918,7 +916,7 @@ class Writer:
         """Writes the dbf records."""
         f = self.__getFileObj(self.dbf)
         for record in self.records:
-            if not self.fields[0][0].startswith("Deletion"):
+            if not self.fields[0][0] == "DeletionFlag":
                 f.write(self.b(' ')) # deletion flag
             for (fieldName, fieldType, size, dec), value in zip(self.fields, record):
                 fieldType = fieldType.upper()
@@ -995,7 +993,7 @@ class Writer:
         record = []
         fieldCount = len(self.fields)
         # Compensate for deletion flag
-        if self.fields[0][0].startswith("Deletion"): fieldCount -= 1
+        if self.fields[0][0] == "DeletionFlag": fieldCount -= 1
         if recordList:
             [record.append(recordList[i]) for i in range(fieldCount)]
         elif recordDict:
-- 
2.43.0


From bf4100b30dc97bbe94822ada19322d52d5cacea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:09 +0000
Subject: [PATCH 71/97] fix: accept all positions from the end and none outside
 the file

---
 coral/shapefile.py | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 7cde67f..f21de15 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -303,15 +303,12 @@ class Reader:
             self.load()
         return f
 
-    def __restrictIndex(self, i):
-        """Provides list-like handling of a record index with a clearer
-        error message if the index is out of bounds."""
-        if self.numRecords:
-            rmax = self.numRecords - 1
-            if abs(i) > rmax:
-                raise IndexError("Shape or Record index out of range.")
-            if i < 0: i = range(self.numRecords)[i]
-        return i
+    def __restrictIndex(self, i, n):
+        """Provides list-like handling of an index among n shapes or records
+        with a clearer error message if the index is out of bounds."""
+        if not -n <= i < n:
+            raise IndexError("Shape or Record index out of range.")
+        return range(n)[i]
 
     def __shpHeader(self):
         """Reads the header information from a .shp or .shx file."""
@@ -393,11 +390,17 @@ class Reader:
 
     def __shapeIndex(self, i=None):
         """Returns the offset in a .shp file for a shape based on information
-        in the .shx index file."""
+        in the .shx index file, if available."""
         shx = self.shx
-        if not shx:
-            return None
-        if not self._offsets:
+        if not shx and not self._offsets:
+            shp = self.__getFileObj(self.shp)
+            end = shp.seek(0, 2)
+            offset = 100
+            while offset < end:
+                self._offsets.append(offset)
+                shp.seek(offset + 4)
+                offset += 8 + unpack(">i", shp.read(4))[0] * 2
+        elif not self._offsets:
             # File length (16-bit word * 2 = bytes) - header length
             shx.seek(24)
             shxRecordLength = (unpack(">i", shx.read(4))[0] * 2) - 100
@@ -409,20 +412,13 @@ class Reader:
                 self._offsets.append(unpack(">i", shx.read(4))[0] * 2)
                 shx.seek(shx.tell() + 4)
         if not i == None:
-            return self._offsets[i]
+            return self._offsets[self.__restrictIndex(i, len(self._offsets))]
 
     def shape(self, i=0):
         """Returns a shape object for a shape in the the geometry
         record file."""
         shp = self.__getFileObj(self.shp)
-        i = self.__restrictIndex(i)
-        offset = self.__shapeIndex(i)
-        if not offset:
-            # Shx index not available so iterate the full list.
-            for j,k in enumerate(self.iterShapes()):
-                if j == i:
-                    return k
-        shp.seek(offset)
+        shp.seek(self.__shapeIndex(i))
         return self.__shape()
 
     def shapes(self):
@@ -536,7 +532,7 @@ class Reader:
         f = self.__getFileObj(self.dbf)
         if self.numRecords is None:
             self.__dbfHeader()
-        i = self.__restrictIndex(i)
+        i = self.__restrictIndex(i, self.numRecords)
         recSize = self.__recordFmt()[1]
         f.seek(0)
         f.seek(self.__dbfHeaderLength() + (i * recSize))
@@ -570,7 +566,6 @@ class Reader:
     def shapeRecord(self, i=0):
         """Returns a combination geometry and attribute record for the
         supplied record index."""
-        i = self.__restrictIndex(i)
         return _ShapeRecord(shape=self.shape(i), record=self.record(i))
 
     def shapeRecords(self):
-- 
2.43.0


From 36c8c4894a2b401a07eaf5b84226e7099510a602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:09 +0000
Subject: [PATCH 72/97] fix: keep the place of iterations over shapes and
 records

---
 coral/shapefile.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index f21de15..458d481 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -442,9 +442,13 @@ class Reader:
         shp = self.__getFileObj(self.shp)
         shp.seek(0,2)
         self.shpLength = shp.tell()
-        shp.seek(100)
-        while shp.tell() < self.shpLength:
-            yield self.__shape()    
+        # The position of the file may change between shapes
+        offset = 100
+        while offset < self.shpLength:
+            shp.seek(offset)
+            shape = self.__shape()
+            offset = shp.tell()
+            yield shape
 
     def __dbfHeaderLength(self):
         """Retrieves the header length of a dbf file header."""
@@ -557,8 +561,9 @@ class Reader:
         if self.numRecords is None:
             self.__dbfHeader()
         f = self.__getFileObj(self.dbf)
-        f.seek(self.__dbfHeaderLength())
+        recSize = self.__recordFmt()[1]
         for i in xrange(self.numRecords):
+            f.seek(self.__dbfHeaderLength() + (i * recSize))
             r = self.__record()
             if r:
                 yield r
-- 
2.43.0


From 270d0c9f81997c906830b3c1bc748d6e8959216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:09 +0000
Subject: [PATCH 73/97] fix: pair shapes with their own records in spite of
 deleted ones

---
 coral/shapefile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 458d481..aa45823 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -577,8 +577,11 @@ class Reader:
         """Returns a list of combination geometry/attribute records for
         all records in a shapefile."""
         shapeRecords = []
-        return [_ShapeRecord(shape=rec[0], record=rec[1]) \
-                                for rec in zip(self.shapes(), self.records())]
+        for i, shape in enumerate(self.shapes()[:self.numRecords]):
+            record = self.record(i)
+            if record is not None:
+                shapeRecords.append(_ShapeRecord(shape=shape, record=record))
+        return shapeRecords
 
 class Writer:
     """Provides write support for ESRI Shapefiles."""
-- 
2.43.0


From 4511d6ef0ccee327eab5c9379b9c2bdbce101a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 74/97] fix: export images and animations to paths with any
 characters

---
 coral/vector.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/coral/vector.py b/coral/vector.py
index 13c0f25..d01c373 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -20,6 +20,7 @@
 
 import os
 import inspect
+import shlex
 import subprocess
 import tempfile
 from functools import reduce
@@ -325,7 +326,7 @@ class Canvas:
         pspath = "/tmp/tempeps.ps"
         self.save(pspath, *args, **kwargs)
         cmd  = "gs -q -dNOPAUSE -dBATCH -dEPSCrop "
-        cmd += "-sDEVICE={} -sOutputFile='{}' {}".format(device, path, pspath)
+        cmd += "-sDEVICE={} -sOutputFile={} {}".format(device, shlex.quote(path), pspath)
         ret = subprocess.call(cmd, shell=True)
         os.remove(pspath)
         return ret
@@ -333,7 +334,7 @@ class Canvas:
 def export(pspath, output, device='png256'):
     # useful devices: png{16,48,256,mono,gray,alpha}
     cmd  = "gs -q -dNOPAUSE -dBATCH -dEPSCrop "
-    cmd += "-sDEVICE={} -sOutputFile={} {}".format(device, output, pspath)
+    cmd += "-sDEVICE={} -sOutputFile={} {}".format(device, shlex.quote(output), shlex.quote(pspath))
     ret = subprocess.call(cmd, shell=True)
     return ret
 
@@ -351,7 +352,7 @@ def animation(gifpath, frames, delay=10, *args, **kwargs):
             path = fmt.format(i)
             canvas.export(path, *args, **kwargs)
             paths.append(path)
-        paths = " ".join(paths)
-        cmd = "convert -delay {} -loop 0 {} {}".format(delay, paths, gifpath)
+        paths = " ".join(map(shlex.quote, paths))
+        cmd = "convert -delay {} -loop 0 {} {}".format(delay, paths, shlex.quote(gifpath))
         status = subprocess.call(cmd, shell=True)
     return status
-- 
2.43.0


From f441945cdcffe069db7c626be13d1e5af93937a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 75/97] fix: export each canvas through a temporary file of its
 own

---
 coral/vector.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/coral/vector.py b/coral/vector.py
index d01c373..4f64a30 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -323,12 +323,10 @@ class Canvas:
 
     def export(self, path, device='png256', *args, **kwargs):
         # useful devices: png{16,48,256,mono,gray,alpha}
-        pspath = "/tmp/tempeps.ps"
-        self.save(pspath, *args, **kwargs)
-        cmd  = "gs -q -dNOPAUSE -dBATCH -dEPSCrop "
-        cmd += "-sDEVICE={} -sOutputFile={} {}".format(device, shlex.quote(path), pspath)
-        ret = subprocess.call(cmd, shell=True)
-        os.remove(pspath)
+        with tempfile.TemporaryDirectory() as folder:
+            pspath = os.path.join(folder, "tempeps.ps")
+            self.save(pspath, *args, **kwargs)
+            ret = export(pspath, path, device)
         return ret
 
 def export(pspath, output, device='png256'):
-- 
2.43.0


From fd81b9ad9f22111210a79cd6fabbcdc845e55698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:05 +0000
Subject: [PATCH 76/97] fix: cover the last pixel of anti-aliased lines as far
 as they reach

---
 coral/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/raster.py b/coral/raster.py
index f878e7c..6d5ab59 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -141,7 +141,7 @@ class BaseCanvas:
         # Line end.
         xend = nearest(x1)
         yend = y1 + gradient * (xend - x1)
-        xgap = rfpart(x1 + 0.5)
+        xgap = fpart(x1 + 0.5)
         xpxl2 = xend
         ypxl2 = ipart(yend)
         alpha1 = rfpart(yend) * xgap
-- 
2.43.0


From fbb624fd95c079db38e62178f4c475e36fef0057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:13 +0000
Subject: [PATCH 77/97] fix: write dates of shapefile records as they are read

---
 coral/shapefile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index aa45823..a7bebe2 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -930,6 +930,9 @@ class Writer:
                     value = str(value).rjust(size)
                 elif fieldType == 'L':
                     value = str(value)[:1].upper()
+                elif fieldType == 'D' and isinstance(value, (list, tuple)):
+                    # Dates as they are read
+                    value = "%04d%02d%02d" % tuple(value)
                 else:
                     # Truncate between characters
                     value = self.b(str(value))[:size].decode(self.encoding, 'ignore')
-- 
2.43.0


From bcdfc402c8c972d7c1f0d5d79665fd0d2cea918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:13 +0000
Subject: [PATCH 78/97] fix: give points added by an editor an elevation and a
 measure

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index a7bebe2..306c8c7 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -1174,7 +1174,7 @@ class Editor(Writer):
             shape, part, point = addr
             self._shapes[shape][part][point] = [x, y, z, m]
         else:
-            Writer.point(self, x, y, z, m)
+            Writer.point(self, x, y, z or 0, m or 0)
         if self.autoBalance:
             self.balance()
 
-- 
2.43.0


From d689b6542dd51c71197e6caf8e7c32a41fc2f450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:13 +0000
Subject: [PATCH 79/97] fix: keep elevations and measures of shapes opened in
 an editor

---
 coral/shapefile.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 306c8c7..52dcc2e 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -54,6 +54,9 @@ POLYGONM = 25
 MULTIPOINTM = 28
 MULTIPATCH = 31
 
+# Measure of points without any
+NODATA = -1e39
+
 PYTHON3 = sys.version_info[0] == 3
 
 if PYTHON3:
@@ -1094,6 +1097,14 @@ class Editor(Writer):
                 r = Reader(base)
                 Writer.__init__(self, r.shapeType)
                 self._shapes = r.shapes()
+                # Points of the shapes have z and m values
+                for s in self._shapes:
+                    hasM = s.shapeType in (13,15,18,23,25,28,31)
+                    z = getattr(s, "z", [0] * len(s.points))
+                    m = getattr(s, "m", [NODATA if hasM else 0] * len(s.points))
+                    for i, p in enumerate(s.points):
+                        p.append(z[i])
+                        p.append(NODATA if m[i] is None else m[i])
                 self.fields = r.fields
                 self.records = r.records()
 
-- 
2.43.0


From 6c4fb3a822ab5e4e233f85c27e87fd58e56b521f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:13 +0000
Subject: [PATCH 80/97] fix: delete the first shape too, and the record of any
 deleted shape

---
 coral/shapefile.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 52dcc2e..83b7fe9 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -1123,8 +1123,12 @@ class Editor(Writer):
         elif shape and part and not point:
             del self._shapes[shape][part]
         # shape
-        elif shape and not part and not point:
-            del self._shapes[shape]
+        elif shape is not None and part is None and point is None:
+            i = range(len(self._shapes))[shape]
+            del self._shapes[i]
+            # and its attributes
+            if i < len(self.records):
+                del self.records[i]
         # point
         elif not shape and not part and point:
             for s in self._shapes:
-- 
2.43.0


From 1463e4c3b2c62676d4406b52c37f82d98138c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:13 +0000
Subject: [PATCH 81/97] fix: leave fields added after records blank in them

---
 coral/shapefile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 83b7fe9..4de2e6c 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -922,6 +922,8 @@ class Writer:
         """Writes the dbf records."""
         f = self.__getFileObj(self.dbf)
         for record in self.records:
+            # Fields may have been added since
+            record = list(record) + [None] * (len(self.fields) - len(record))
             if not self.fields[0][0] == "DeletionFlag":
                 f.write(self.b(' ')) # deletion flag
             for (fieldName, fieldType, size, dec), value in zip(self.fields, record):
-- 
2.43.0


From 2eaa53004752a435ef842525d4f3c72378d126cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:34 +0000
Subject: [PATCH 82/97] fix: remove slits that contain the first point of a
 ring

---
 coral/coord.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index 2163ebf..e6c1652 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -301,10 +301,18 @@ def closed_no_slit(s, k):
                 b1.push(q)
         p, q = q, r
     # The ring was cut open at point t, which may be inside of a slit.
-    q = None if b2.isempty() else b2.shift()
-    while not b1.isempty() and b1.peek() == q:
-        t = b1.pop()
-        q = None if b2.isempty() else b2.shift()
+    # As long as b2 is not full, the first corners may still be in b1.
+    b3 = b2 if b2.isfull() else b1
+    first = lambda: b2.shift() if not b2.isempty() else b3.shift() if not b3.isempty() else None
+    q = first()
+    while q == t or not b1.isempty() and b1.peek() in (t, q):
+        if q == t:
+            q = first()
+        elif b1.peek() == t:
+            b1.pop()
+        else:
+            t = b1.pop()
+            q = first()
     while not b1.isempty():
         yield b1.shift()
     yield t
-- 
2.43.0


From 8ae35699535742064caae543732fb6edc5d50635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:21 +0000
Subject: [PATCH 83/97] fix: give a different abbreviation to names that differ
 in superfluous words only

---
 coral/names.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/names.py b/coral/names.py
index a11ade2..82996e3 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -131,7 +131,7 @@ def abbreviations(names, length, extras=()):
         tname = name[:]
         for extra in extras:
             tname = tname.replace(" {} ".format(extra), " ")
-        if len(tname) <= length:
+        if len(tname) <= length and tname not in abbset:
             abb = tname
         else:
             ics = list(enumerate(tname))
-- 
2.43.0


From 8856e25c99ad42d065962924ba6b0bcb56bc65f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:23 +0000
Subject: [PATCH 84/97] fix: let a reader load another shapefile

---
 coral/shapefile.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 4de2e6c..aa9c518 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -290,6 +290,11 @@ class Reader:
                 self.dbf = open("%s.dbf" % shapeName, "rb")
             except IOError:
                 raise ShapefileException("Unable to open %s.dbf" % shapeName)
+            # Forget what is known of files loaded before
+            self._offsets = []
+            self.numRecords = None
+            self.fields = []
+            self.__dbfHdrLength = 0
         if self.shp:
             self.__shpHeader()
         if self.dbf:
-- 
2.43.0


From eced591728523cf3e7eb28d72ba4c69a19e2e5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:48 +0000
Subject: [PATCH 85/97] fix: let string columns of no bytes hold the empty text

---
 coral/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coral/grid.py b/coral/grid.py
index 9fb7649..a720cde 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -141,13 +141,14 @@ class SVar:
         if value is None:
             assert self.nullable
             return b'\xff' * self.size
+        # Without bytes there is no telling an empty text from null.
+        assert self.size or not self.nullable
         data = value.encode("utf8")
         assert len(data) <= self.size
         return data.ljust(self.size, b'\x00')
 
     def decode(self, data):
-        if data == b'\xff' * self.size:
-            assert self.nullable
+        if self.nullable and data == b'\xff' * self.size:
             return None
         return data.decode("utf8").rstrip('\x00')
 
-- 
2.43.0


From 8f94c6ddda0360727f26d7c099731f2f1132a84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:48 +0000
Subject: [PATCH 86/97] fix: refuse texts ending in NUL, which string columns
 cannot hold

---
 coral/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/grid.py b/coral/grid.py
index a720cde..0192db3 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -143,6 +143,8 @@ class SVar:
             return b'\xff' * self.size
         # Without bytes there is no telling an empty text from null.
         assert self.size or not self.nullable
+        # Filling is removed from the end.
+        assert not value.endswith('\x00')
         data = value.encode("utf8")
         assert len(data) <= self.size
         return data.ljust(self.size, b'\x00')
-- 
2.43.0


From a15d488c8e93c18cd1c86bb9d4ef4931a81134df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:26 +0000
Subject: [PATCH 87/97] fix: let writing of P files end for positions that are
 very far off

---
 coral/pf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/pf.py b/coral/pf.py
index 2af9973..6f87fbe 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -165,6 +165,8 @@ class Writer:
         parts = [[None] * len(polygon) for polygon in polygons]
         for i, polygon in enumerate(polygons):
             for j, (lon, lat) in enumerate(polygon):
+                # Going round more than once does not matter.
+                lon, lat = math.fmod(lon, 360), math.fmod(lat, 180)
                 while lon < -180:
                     lon += 360
                 while lon > 180:
-- 
2.43.0


From d7fa2016bdfcb220abfa849226dcceebd85bb7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:26 +0000
Subject: [PATCH 88/97] fix: let refused entities leave no trace in P files

---
 coral/pf.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/coral/pf.py b/coral/pf.py
index 6f87fbe..367d508 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -182,9 +182,7 @@ class Writer:
             if len(part) > 1 and part[0] == part[-1]:
                 part = part[:-1]
                 parts[i] = part
-        self.names.append(name)
         bb = bbox.BBox(point for part in parts for point in part)
-        self.partlens.append([len(part) for part in parts])
         x0 = math.floor((bb.x0 + 180) * UMAX2 / 360)
         x1 = math.ceil((bb.x1 + 180) * UMAX2 / 360)
         y0 = math.floor((bb.y0 + 90) * UMAX2 / 180)
@@ -197,7 +195,9 @@ class Writer:
             x0, x1 = (x0, x1 + 1) if x1 < UMAX2 else (x0 - 1, x1)
         if y0 == y1:
             y0, y1 = (y0, y1 + 1) if y1 < UMAX2 else (y0 - 1, y1)
-        self.bboxes.append((x0, x1, y0, y1))
+        quantized = x0, x1, y0, y1
+        errs = []
+        buffers = []
         x0 = x0 * 360 / UMAX2 - 180
         x1 = x1 * 360 / UMAX2 - 180
         y0 = y0 * 180 / UMAX2 - 90
@@ -214,8 +214,14 @@ class Writer:
                 lon2 = x0 + ulon * (x1 - x0) / self.umax
                 lat2 = y0 + ulat * (y1 - y0) / self.umax
                 err = coord.haversine(lon1, lat1, lon2, lat2)
-                self.errs.append(err)
-                self.buffers.append(data)
+                errs.append(err)
+                buffers.append(data)
+        # From here on nothing can fail: refused entities leave no trace.
+        self.names.append(name)
+        self.partlens.append([len(part) for part in parts])
+        self.bboxes.append(quantized)
+        self.errs.extend(errs)
+        self.buffers.extend(buffers)
 
     def close(self):
         with open(self.path, "wb") as pf:
-- 
2.43.0


From 61ea9cce5ee81a320bc8cae20d9aa9c29d2e14a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:26 +0000
Subject: [PATCH 89/97] fix: refuse names that P files cannot hold when they
 are given

---
 coral/pf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coral/pf.py b/coral/pf.py
index 367d508..c363ce1 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -161,6 +161,9 @@ class Writer:
         self.fmt, self.umax = getfmt(size)
 
     def write(self, name, polygons):
+        # Names are stored in ASCII and end at the first NUL.
+        name.encode("ascii")
+        assert '\x00' not in name
         # Do not repeat first point at the end.
         parts = [[None] * len(polygon) for polygon in polygons]
         for i, polygon in enumerate(polygons):
-- 
2.43.0


From b32dd38d99544142e3413e003e3e7fa45da599f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:26 +0000
Subject: [PATCH 90/97] fix: let refused rows leave no trace in RangeGrid data
 sets

---
 coral/rg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/coral/rg.py b/coral/rg.py
index 59e25ae..0475b64 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -183,13 +183,17 @@ class Writer:
         if id_ is None:
             id_ = len(self.index)
         lens = []
+        # Nothing is written before all rows are known to be valid.
+        buffers = []
         for rows in segs:
             length = 0
             for r in rows:
                 data = self.row.encode(*r)
-                rg.write(data)
+                buffers.append(data)
                 length += 1
             lens.append(length)
+        for data in buffers:
+            rg.write(data)
         self.index.append((id_, lens))
 
     def close(self):
-- 
2.43.0


From 5d6a194b9fe3e7f08269526407f457595aa93f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:26 +0000
Subject: [PATCH 91/97] fix: refuse identifiers with line breaks in RangeGrid
 data sets

---
 coral/rg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/rg.py b/coral/rg.py
index 0475b64..5f35035 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -182,6 +182,8 @@ class Writer:
         rg = self.rg
         if id_ is None:
             id_ = len(self.index)
+        # The index has one line per identifier.
+        assert '\n' not in str(id_) and '\r' not in str(id_)
         lens = []
         # Nothing is written before all rows are known to be valid.
         buffers = []
-- 
2.43.0


From 031aaea4621e5da13738d6d12e3a62b611fc9275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:26 +0000
Subject: [PATCH 92/97] fix: refuse column names with NUL in RangeGrid data
 sets

---
 coral/rg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/rg.py b/coral/rg.py
index 5f35035..b5efc99 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -161,6 +161,7 @@ class Writer:
         # Skip nrows for now; see close() method.
         rg.seek(4, io.SEEK_CUR)
         for field in self.row.fields:
+            assert '\x00' not in field.name
             rg.write(field.name.encode("ascii"))
             rg.write(b'\x00')
             if isinstance(field, IVar):
-- 
2.43.0


From 5771bcec57987e0d1be70b1c66eaec6f197af1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:26 +0000
Subject: [PATCH 93/97] fix: read RangeGrid data sets whose column names are no
 identifiers

---
 coral/rg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/rg.py b/coral/rg.py
index b5efc99..ff9a840 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -254,7 +254,7 @@ class Reader:
             else:
                 raise TypeError
         self.row = GRow(*fields)
-        self.nt = collections.namedtuple("Row", (field.name for field in fields))
+        self.nt = collections.namedtuple("Row", (field.name for field in fields), rename=True)
         self.datapos = rg.tell()
 
     def read(self, id_=None):
-- 
2.43.0


From 67d86a6e092c8ea22f06643d4980b03fa35a09de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:13 +0000
Subject: [PATCH 94/97] fix: leave out the parts of lines that are out of the
 canvas

---
 coral/raster.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/coral/raster.py b/coral/raster.py
index 6d5ab59..9fb9f48 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -85,8 +85,14 @@ class BaseCanvas:
         sx = x0 < x1 and 1 or -1
         sy = y0 < y1 and 1 or -1
         err = dx - dy
+
+        def plot(x, y):
+            # Parts of the line may be out of the canvas.
+            if 0 <= x < self.width and 0 <= y < self.height:
+                self[x, y] = color
+
         while True:
-            self[x0, y0] = color
+            plot(x0, y0)
             if (x0, y0) == (x1, y1):
                 break
             e2 = 2 * err
@@ -94,7 +100,7 @@ class BaseCanvas:
                 err -= dy
                 x0 += sx
             if (x0, y0) == (x1, y1):
-                self[x0, y0] = color
+                plot(x0, y0)
                 break
             if e2 < dx:
                 err += dx
-- 
2.43.0


From 4823151b533f2ffadc11fcb0003a878079e1bdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:13 +0000
Subject: [PATCH 95/97] fix: leave out the parts of anti-aliased lines that are
 out of the canvas

---
 coral/raster.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/coral/raster.py b/coral/raster.py
index 9fb9f48..2ace532 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -112,9 +112,9 @@ class BaseCanvas:
         if not isinstance(color, tuple):
             color = color, # gray level.
 
-        ipart   = int
-        fpart   = lambda x: math.modf(x)[0]
-        rfpart  = lambda x: 1 - math.modf(x)[0]
+        ipart   = math.floor
+        fpart   = lambda x: x - math.floor(x)
+        rfpart  = lambda x: 1 - fpart(x)
         x0, y0 = start
         x1, y1 = end
         steep = abs(y1 - y0) > abs(x1 - x0)
@@ -127,13 +127,14 @@ class BaseCanvas:
         gradient = dy / dx if dx else 0
 
         def plot(x, y, alpha):
-            # The transparent neighbor of a pixel may be out of the canvas.
-            if alpha:
-                key = (y, x) if steep else (x, y)
-                self[key] = color + (alpha,)
+            if steep:
+                x, y = y, x
+            # Parts of the line may be out of the canvas.
+            if alpha and 0 <= x < self.width and 0 <= y < self.height:
+                self[x, y] = color + (alpha,)
 
         # Line start.
-        xend = nearest(x0)
+        xend = ipart(x0 + 0.5)
         yend = y0 + gradient * (xend - x0)
         xgap = rfpart(x0 + 0.5)
         xpxl1 = xend
@@ -145,7 +146,7 @@ class BaseCanvas:
         intery = yend + gradient
 
         # Line end.
-        xend = nearest(x1)
+        xend = ipart(x1 + 0.5)
         yend = y1 + gradient * (xend - x1)
         xgap = fpart(x1 + 0.5)
         xpxl2 = xend
-- 
2.43.0


From acb4c59be9f3dc571cb47eeb50a84b9abf42de15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:13 +0000
Subject: [PATCH 96/97] fix: paint anti-aliased lines within one step as far as
 they reach

---
 coral/raster.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/coral/raster.py b/coral/raster.py
index 2ace532..91db198 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -136,13 +136,17 @@ class BaseCanvas:
         # Line start.
         xend = ipart(x0 + 0.5)
         yend = y0 + gradient * (xend - x0)
-        xgap = rfpart(x0 + 0.5)
+        # A short line may end in the step in which it starts.
+        short = dx > 0 and ipart(x1 + 0.5) == xend
+        xgap = dx if short else rfpart(x0 + 0.5)
         xpxl1 = xend
         ypxl1 = ipart(yend)
         alpha1 = rfpart(yend) * xgap
         alpha2 =  fpart(yend) * xgap
         plot(xpxl1, ypxl1  , alpha1)
         plot(xpxl1, ypxl1+1, alpha2)
+        if short:
+            return
         intery = yend + gradient
 
         # Line end.
-- 
2.43.0


From f792ec26de89254b384995c9202ef82bc6d28497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:49 +0000
Subject: [PATCH 97/97] fix: let refused shapes leave no trace on vector
 canvases

---
 coral/vector.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/coral/vector.py b/coral/vector.py
index 4f64a30..6fe5ca1 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -19,6 +19,7 @@
 # THE SOFTWARE.
 
 import os
+import functools
 import inspect
 import shlex
 import subprocess
@@ -74,6 +75,19 @@ base = os.path.dirname(os.path.abspath(inspect.getfile(inspect.currentframe())))
 KEYS, DEFS = read_defs(os.path.join(base, "defs.ps"))
 DEPS = {k: set(["sz"]) for k in "sc st str sr sbr sb sbl sl stl".split()}
 
+def whole(method):
+    "Let calls that fail leave no trace on the canvas."
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        n, state = len(self.lines), self.state.copy()
+        try:
+            return method(self, *args, **kwargs)
+        except Exception:
+            del self.lines[n:]
+            self.state = state
+            raise
+    return wrapper
+
 class Canvas:
 
     def __init__(self, bgcolor=None):
@@ -133,6 +147,7 @@ class Canvas:
         self.lines.append(line)
         self.state['width'] = w
 
+    @whole
     def setdash(self, pattern, offset=0):
         if self.state['dash'] == (pattern, offset):
             return
@@ -141,6 +156,7 @@ class Canvas:
         self.lines.append(line)
         self.state['dash'] = (pattern[:], offset)
 
+    @whole
     def addcircle(self, center, radius, fill=None, stroke=None):
         x, y = center
         r = radius
@@ -161,6 +177,7 @@ class Canvas:
             self.lines.append("s")
         self.bbox |= bbox.BBox((x - r, y - r), (x + r, y + r))
 
+    @whole
     def addpolyline(self, points, stroke=None):
         points = iter(points)
         try:
@@ -182,6 +199,7 @@ class Canvas:
         self.lines.append("s")
         self.bbox |= bbox.BBox((x0, y0), (x1, y1))
 
+    @whole
     def addpolygon(self, points, fill=None, stroke=None):
         points = iter(points)
         try:
@@ -213,6 +231,7 @@ class Canvas:
             self.lines.append("s")
         self.bbox |= bbox.BBox((x0, y0), (x1, y1))
 
+    @whole
     def addroundedpolygon(self, points, radius, fill=None, stroke=None):
         self.lines.append("np")
         (x1, y1), (x2, y2) = points[:2]
@@ -238,6 +257,7 @@ class Canvas:
             self.lines.append("s")
         self.bbox |= bbox.BBox(points)
 
+    @whole
     def addtext(self, pos, text, size, font="Times-Bold", anchor="l"):
         assert anchor in "c t tr r br b bl l tl".split()
         key = "s" + anchor
@@ -251,6 +271,7 @@ class Canvas:
         self.deps.add(key)
         self.deps.update(DEPS.get(key, set()))
 
+    @whole
     def addimage(self, data, width, position=None, scale=1, color=False):
         cwidth = (3 * width) if color else width
         height = len(data) // cwidth
-- 
2.43.0

