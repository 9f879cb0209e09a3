From 825968b2d6969c85fa776be33e7f06c5dd8665ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 01/28] fix: report data lost while writing PetIGA and VTK
 files

ndarray.tofile() writes through a duplicated stdio stream whose close
errors are ignored, so a full disk could silently cut a file short.
Write through the Python file object instead.
---
 igakit/io.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/igakit/io.py b/igakit/io.py
index 16337af..2354275 100644
--- a/igakit/io.py
+++ b/igakit/io.py
@@ -33,7 +33,7 @@ class PetIGA(object):
         self._types = tuple(np.dtype(t) for t in (I, R, S))
 
     def _write(self, fid, dtype, array):
-        np.asarray(array, dtype).tofile(fid)
+        fid.write(np.asarray(array, dtype).tobytes())
 
     def _read(self, fid, dtype, count=None):
         if count is None:
@@ -350,7 +350,7 @@ class VTK(object):
             fh_write('\n')
             fh_write('POINTS %d %s' % (len(points), 'double'))
             fh_write('\n')
-            points.astype('>d').tofile(fh)
+            fh.write(points.astype('>d').tobytes())
             fh_write('\n')
         else:
             dataset_type = 'RECTILINEAR_GRID'
@@ -362,7 +362,7 @@ class VTK(object):
                 label = X+'_COORDINATES'
                 fh_write('%s %s %s' % (label, len(array), 'double'))
                 fh_write('\n')
-                array.astype('>d').tofile(fh)
+                fh.write(array.astype('>d').tobytes())
                 fh_write('\n')
 
         if (not scalars and
@@ -385,7 +385,7 @@ class VTK(object):
             lookup_table = lookup_table.replace(' ', '_')
             fh_write('LOOKUP_TABLE %s' % lookup_table)
             fh_write('\n')
-            array.astype('>d').tofile(fh)
+            fh.write(array.astype('>d').tobytes())
             fh_write('\n')
 
         for i, (name, array) in enumerate(vectors):
@@ -394,7 +394,7 @@ class VTK(object):
             attr_name = attr_name.replace(' ', '_')
             fh_write('%s %s %s' %(attr_type, attr_name, 'double'))
             fh_write('\n')
-            array.astype('>d').tofile(fh)
+            fh.write(array.astype('>d').tobytes())
             fh_write('\n')
 
         fh.flush()
-- 
2.43.0


From 21256db4cd9ad9ea58c4f2d482d8a1dc06405b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 02/28] fix: close the file when VTK.write fails

---
 igakit/io.py | 120 +++++++++++++++++++++++++--------------------------
 1 file changed, 59 insertions(+), 61 deletions(-)

diff --git a/igakit/io.py b/igakit/io.py
index 2354275..7c67de0 100644
--- a/igakit/io.py
+++ b/igakit/io.py
@@ -328,74 +328,72 @@ class VTK(object):
             vectors[i] = (name, array)
 
         fh = open(filename, 'wb')
-        fh_write = lambda s: fh.write(s.encode('ascii'))
-
-        header = '# vtk DataFile Version %d.%d'
-        version = (2, 0)
-        fh_write(header % version)
-        fh_write('\n')
-        title = self.title
-        fh_write(title[:255])
-        fh_write('\n')
-
-        format = 'BINARY'
-        fh_write(format)
-        fh_write('\n')
+        try:
+            fh_write = lambda s: fh.write(s.encode('ascii'))
 
-        if control:
-            dataset_type = 'STRUCTURED_GRID'
-            fh_write('DATASET %s' % dataset_type);
+            header = '# vtk DataFile Version %d.%d'
+            version = (2, 0)
+            fh_write(header % version)
             fh_write('\n')
-            fh_write('DIMENSIONS %d %d %d' % dimensions)
+            title = self.title
+            fh_write(title[:255])
             fh_write('\n')
-            fh_write('POINTS %d %s' % (len(points), 'double'))
-            fh_write('\n')
-            fh.write(points.astype('>d').tobytes())
-            fh_write('\n')
-        else:
-            dataset_type = 'RECTILINEAR_GRID'
-            fh_write('DATASET %s' % dataset_type);
+
+            format = 'BINARY'
+            fh_write(format)
             fh_write('\n')
-            fh_write('DIMENSIONS %d %d %d' % dimensions)
+
+            if control:
+                dataset_type = 'STRUCTURED_GRID'
+                fh_write('DATASET %s' % dataset_type);
+                fh_write('\n')
+                fh_write('DIMENSIONS %d %d %d' % dimensions)
+                fh_write('\n')
+                fh_write('POINTS %d %s' % (len(points), 'double'))
+                fh_write('\n')
+                fh.write(points.astype('>d').tobytes())
+                fh_write('\n')
+            else:
+                dataset_type = 'RECTILINEAR_GRID'
+                fh_write('DATASET %s' % dataset_type);
+                fh_write('\n')
+                fh_write('DIMENSIONS %d %d %d' % dimensions)
+                fh_write('\n')
+                for X, array in zip("XYZ", coordinates):
+                    label = X+'_COORDINATES'
+                    fh_write('%s %s %s' % (label, len(array), 'double'))
+                    fh_write('\n')
+                    fh.write(array.astype('>d').tobytes())
+                    fh_write('\n')
+
+            if (not scalars and
+                not vectors):
+                return
+
+            data_type = 'POINT_DATA'
+            fh_write('%s %d' % (data_type, len(points)))
             fh_write('\n')
-            for X, array in zip("XYZ", coordinates):
-                label = X+'_COORDINATES'
-                fh_write('%s %s %s' % (label, len(array), 'double'))
+
+            for i, (name, array) in enumerate(scalars):
+                attr_type = 'SCALARS'
+                attr_name = name or (attr_type.lower() + str(i))
+                attr_name = attr_name.replace(' ', '_')
+                fh_write('%s %s %s' %(attr_type, attr_name, 'double'))
+                fh_write('\n')
+                lookup_table = 'default'
+                lookup_table = lookup_table.replace(' ', '_')
+                fh_write('LOOKUP_TABLE %s' % lookup_table)
                 fh_write('\n')
                 fh.write(array.astype('>d').tobytes())
                 fh_write('\n')
 
-        if (not scalars and
-            not vectors):
-            fh.flush()
+            for i, (name, array) in enumerate(vectors):
+                attr_type = 'VECTORS'
+                attr_name = name or (attr_type.lower() + str(i))
+                attr_name = attr_name.replace(' ', '_')
+                fh_write('%s %s %s' %(attr_type, attr_name, 'double'))
+                fh_write('\n')
+                fh.write(array.astype('>d').tobytes())
+                fh_write('\n')
+        finally:
             fh.close()
-            return
-
-        data_type = 'POINT_DATA'
-        fh_write('%s %d' % (data_type, len(points)))
-        fh_write('\n')
-
-        for i, (name, array) in enumerate(scalars):
-            attr_type = 'SCALARS'
-            attr_name = name or (attr_type.lower() + str(i))
-            attr_name = attr_name.replace(' ', '_')
-            fh_write('%s %s %s' %(attr_type, attr_name, 'double'))
-            fh_write('\n')
-            lookup_table = 'default'
-            lookup_table = lookup_table.replace(' ', '_')
-            fh_write('LOOKUP_TABLE %s' % lookup_table)
-            fh_write('\n')
-            fh.write(array.astype('>d').tobytes())
-            fh_write('\n')
-
-        for i, (name, array) in enumerate(vectors):
-            attr_type = 'VECTORS'
-            attr_name = name or (attr_type.lower() + str(i))
-            attr_name = attr_name.replace(' ', '_')
-            fh_write('%s %s %s' %(attr_type, attr_name, 'double'))
-            fh_write('\n')
-            fh.write(array.astype('>d').tobytes())
-            fh_write('\n')
-
-        fh.flush()
-        fh.close()
-- 
2.43.0


From 5a8b54ee7b607ea831b4e7d8838f686b3e2c2c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 03/28] fix: store control points and knots of an edited NURBS
 together

A KeyboardInterrupt delivered between the two assignments left the
object with new control points and old knots.
---
 igakit/nurbs.py | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index a6fa3f8..6bfd04b 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -557,8 +557,7 @@ class NURBS(object):
         array = self.array.transpose(caxes).copy()
         knots = [self.knots[i] for i in kaxes]
         #
-        self._array = np.ascontiguousarray(array)
-        self._knots = tuple(knots)
+        self._array, self._knots = np.ascontiguousarray(array), tuple(knots)
         return self
 
     def swap(self, axis1, axis2):
@@ -601,8 +600,7 @@ class NURBS(object):
         knots = list(self.knots)
         knots[ax1], knots[ax2] = knots[ax2], knots[ax1]
         #
-        self._array = np.ascontiguousarray(array)
-        self._knots = tuple(knots)
+        self._array, self._knots = np.ascontiguousarray(array), tuple(knots)
         return self
 
     def reverse(self, *axes):
@@ -653,8 +651,7 @@ class NURBS(object):
             array = CntRev(array, axis)
             knots[axis] = KntRev(degree[axis], knots[axis])
         #
-        self._array = np.ascontiguousarray(array)
-        self._knots = tuple(knots)
+        self._array, self._knots = np.ascontiguousarray(array), tuple(knots)
         return self
 
     #
@@ -790,8 +787,7 @@ class NURBS(object):
         array = np.rollaxis(Qw, 0, axis+1)
         knots[axis] = V
         #
-        self._array = np.ascontiguousarray(array)
-        self._knots = tuple(knots)
+        self._array, self._knots = np.ascontiguousarray(array), tuple(knots)
         return self
 
     def remove(self, axis, value, times=1, deviation=1.0e-9):
@@ -880,8 +876,7 @@ class NURBS(object):
         array = np.rollaxis(Qw, 0, axis+1)
         knots[axis] = V
         #
-        self._array = np.ascontiguousarray(array)
-        self._knots = tuple(knots)
+        self._array, self._knots = np.ascontiguousarray(array), tuple(knots)
         return self
 
     def clamp(self, axis, side=None):
@@ -935,8 +930,7 @@ class NURBS(object):
         array = np.rollaxis(Qw, 0, axis+1)
         knots[axis] = V
         #
-        self._array = np.ascontiguousarray(array)
-        self._knots = tuple(knots)
+        self._array, self._knots = np.ascontiguousarray(array), tuple(knots)
         return self
 
     def unclamp(self, axis, side=None, continuity=None):
@@ -1006,8 +1000,7 @@ class NURBS(object):
         array = np.rollaxis(Qw, 0, axis+1)
         knots[axis] = V
         #
-        self._array = np.ascontiguousarray(array)
-        self._knots = tuple(knots)
+        self._array, self._knots = np.ascontiguousarray(array), tuple(knots)
         return self
 
     def refine(self, axis, values):
@@ -1082,8 +1075,7 @@ class NURBS(object):
         array = np.rollaxis(Qw, 0, axis+1)
         knots[axis] = V
         #
-        self._array = np.ascontiguousarray(array)
-        self._knots = tuple(knots)
+        self._array, self._knots = np.ascontiguousarray(array), tuple(knots)
         return self
 
     def elevate(self, axis, times=1):
@@ -1159,8 +1151,7 @@ class NURBS(object):
         array = np.rollaxis(Qw, 0, axis+1)
         knots[axis] = V
         #
-        self._array = np.ascontiguousarray(array)
-        self._knots = tuple(knots)
+        self._array, self._knots = np.ascontiguousarray(array), tuple(knots)
         return self
 
     #
-- 
2.43.0


From d217517d9734d5df665a6d376d3bc04c0a058693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 04/28] fix: do not sort the caller's array in NURBS.refine

---
 igakit/nurbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 6bfd04b..9b7ed19 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1047,7 +1047,7 @@ class NURBS(object):
 
         """
         def Arg(p, U, u):
-            u.sort(kind='heapsort')
+            u = np.sort(u, kind='heapsort')
             assert u[ 0] >= U[p]
             assert u[-1] <= U[-p-1]
             tmp = np.concatenate((u, U[1:-1]))
-- 
2.43.0


From ff4d988bf5fb52cfc552bcf17880928209a4f668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 05/28] fix: never locate a parameter in an empty knot span

Repeated knots at the end of an unclamped domain made evaluation divide
by zero and return NaN.
---
 igakit/igalib.f90 | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index fe2c7ed..10edfdc 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -11,10 +11,16 @@ function FindSpan(n,p,uu,U) result (span)
   integer(kind=4) low, high
   if (uu >= U(n+1)) then
      span = n
+     do while (span > p .and. U(span) >= U(n+1))
+        span = span - 1
+     end do
      return
   end if
   if (uu <= U(p)) then
      span = p
+     do while (span < n .and. U(span+1) <= U(p))
+        span = span + 1
+     end do
      return
   end if
   low  = p
-- 
2.43.0


From 45397ae41b739cd53ac43b9303419afc82731099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 06/28] fix: out-of-bounds accesses in derivatives of order
 above the degree

Such derivatives of the basis functions are zero.
---
 igakit/igalib.f90 | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 10edfdc..ecae73e 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -104,7 +104,7 @@ subroutine DersBasisFuns(i,uu,p,n,U,ders)
   do r = 0, p
      s1 = 0; s2 = 1;
      a(0,0) = 1
-     do k = 1, n
+     do k = 1, min(n,p)
         d = 0
         rk = r-k; pk = p-k;
         if (r >= k) then
@@ -134,10 +134,11 @@ subroutine DersBasisFuns(i,uu,p,n,U,ders)
      end do
   end do
   r = p
-  do k = 1, n
+  do k = 1, min(n,p)
      ders(:,k) = ders(:,k) * r
      r = r * (p-k)
   end do
+  ders(:,p+1:) = 0
 end subroutine DersBasisFuns
 
 subroutine CurvePoint(d,n,p,U,Pw,uu,C)
-- 
2.43.0


From 5980cc799fa58939fdc0de242dafd709ea175aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 07/28] fix: knot operations next to a knot that differs by
 rounding errors

FindMult took such a knot for a repetition of the value while the span
was searched for exactly, so insert(0, 0.3) with a knot at 0.1+0.2 (and
likewise remove, slice and extract) destroyed the geometry.
---
 igakit/igalib.f90 |  2 +-
 igakit/nurbs.py   | 19 ++++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index ecae73e..27cefa9 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -44,7 +44,7 @@ function FindMult(i,uu,p,U) result (mult)
   integer(kind=4) :: j
   mult = 0
   do j = -p, p+1
-     if (abs(uu - U(i+j))<epsilon(uu)) mult = mult + 1
+     if (uu == U(i+j)) mult = mult + 1
   end do
 end function FindMult
 
diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 9b7ed19..a0b4aaf 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -15,6 +15,11 @@ except AttributeError:
 
 __all__ = ['NURBS', 'transform']
 
+def _snap_knot(U, u):
+    # Knot equal to u up to rounding errors, u itself if there is none
+    k = U[np.argmin(abs(U-u))]
+    return k if abs(k-u) <= abs(U).max()*np.finfo('d').eps else u
+
 class NURBS(object):
     """
     An abstract NURBS object class.
@@ -771,6 +776,7 @@ class NURBS(object):
         p = self.degree[axis]
         U = knots[axis]
         assert U[p] <= value <= U[-p-1]
+        value = _snap_knot(U, value)
         #
         mult = _bsp.FindMult(p, U, value)
         mult = min(mult, p)
@@ -849,6 +855,7 @@ class NURBS(object):
         p = self.degree[axis]
         U = knots[axis]
         assert U[p] <= value <= U[-p-1]
+        value = _snap_knot(U, value)
         #
         mult = _bsp.FindMult(p, U, value)
         mult = min(mult, p)
@@ -1226,10 +1233,11 @@ class NURBS(object):
         assert start < end
         #
         FindSpanMult = _bsp.FindSpanMult
-        u0 = start
+        u0 = _snap_knot(U, start)
         k0, s0 = FindSpanMult(p,U,u0)
         t0 = max(0, p-s0)
-        u1 = end
+        u1 = _snap_knot(U, end)
+        assert u0 < u1
         k1, s1 = FindSpanMult(p,U,u1)
         t1 = max(0, p-s1)
         u = np.repeat([u0,u1],[t0,t1]).astype('d')
@@ -1245,9 +1253,9 @@ class NURBS(object):
         index = [slice(None)] * dim
         index[axis] = slice(i0-p, i1)
         array = array[tuple(index)].copy()
-        Ul = U[i0].repeat(p)
-        Uc = U[i0:i1+1]
-        Ur = U[i1].repeat(p)
+        Ul = np.repeat(start, p+1)
+        Uc = U[i0+1:i1]
+        Ur = np.repeat(end, p+1)
         knots = list(nrb.knots)
         knots[axis] = np.concatenate([Ul, Uc, Ur])
         #
@@ -1315,6 +1323,7 @@ class NURBS(object):
         u = float(value)
         assert u >= U[p]
         assert u <= U[-p-1]
+        u = _snap_knot(U, u)
         array = self.array.view()
         knots = list(self.knots)
         #
-- 
2.43.0


From 9f5d36abb17f234a5bd250b1b10df4aaedb50289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 08/28] fix: knot insertion and extraction at the end of an
 unclamped domain

---
 igakit/igalib.f90 | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 27cefa9..acb5a24 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -193,30 +193,15 @@ subroutine CurvePntByCornerCut(d,n,p,U,Pw,x,Cw)
   real   (kind=8), intent(out) :: Cw(d)
   integer(kind=4) :: i, j, k, s, r
   real   (kind=8) :: uu, alpha, Rw(d,0:p)
-  if (x <= U(p)) then
-     uu = U(p)
-     k = p
-     s = FindMult(p,uu,p,U)
-     if (s >= p) then
-        Cw(:) = Pw(:,0)
-        return
-     end if
-  elseif (x >= U(n+1)) then
-     uu = U(n+1)
-     k = n+1
-     s = FindMult(n,uu,p,U)
-     if (s >= p) then
-        Cw(:) = Pw(:,n)
-        return
-     end if
-  else
-     uu = x
-     k = FindSpan(n,p,uu,U)
-     s = FindMult(k,uu,p,U)
-     if (s >= p) then
-        Cw(:) = Pw(:,k-p)
-        return
-     end if
+  uu = min(max(x,U(p)),U(n+1))
+  k = FindSpan(n,p,uu,U)
+  s = FindMult(k,uu,p,U)
+  do while (k < n+p .and. U(k+1) <= uu)
+     k = k + 1 ! right end of the domain
+  end do
+  if (s >= p) then
+     Cw(:) = Pw(:,k-p)
+     return
   end if
   r = p-s
   do i = 0, r
@@ -1131,6 +1116,9 @@ subroutine InsertKnot(d,n,p,U,Pw,uu,r,V,Qw)
      V = U; Qw = Pw; return
   end if
   call FindSpanMult(n,p,uu,U,k,s)
+  do while (k < n+p .and. U(k+1) <= uu)
+     k = k + 1 ! right end of the domain
+  end do
   call InsKnt(d,n,p,U,Pw,uu,k,s,r,V,Qw)
 end subroutine InsertKnot
 
-- 
2.43.0


From ecc391fc3d12d9ef5606662dded97806800cae4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 09/28] fix: clamp and unclamp domains ending in repeated knots

---
 igakit/nurbs.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index a0b4aaf..1f6c5b6 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -20,6 +20,14 @@ def _snap_knot(U, u):
     k = U[np.argmin(abs(U-u))]
     return k if abs(k-u) <= abs(U).max()*np.finfo('d').eps else u
 
+def _trim_knots(p, U, Pw, l, r):
+    # Discard the knots in excess at the ends of the domain, together
+    # with the control points that have no influence in the domain
+    a = max(U.searchsorted(U[p], 'r') - 1 - p, 0) if l else 0
+    b = min(U.searchsorted(U[-p-1], 'l') + p + 1, U.size) if r else U.size
+    assert b - a >= 2*p+2
+    return U[a:b], Pw[a:b-p-1]
+
 class NURBS(object):
     """
     An abstract NURBS object class.
@@ -930,8 +938,9 @@ class NURBS(object):
         #
         Clamp = _bsp.Clamp
         Pw = np.rollaxis(array, axis, 0).copy()
+        U, Pw = _trim_knots(p, U, Pw, l, r)
         shape = Pw.shape
-        Pw.shape = (shape[0], -1)
+        Pw = Pw.reshape((shape[0], -1))
         V, Qw = Clamp(p, U, Pw, l, r)
         Qw.shape = shape
         array = np.rollaxis(Qw, 0, axis+1)
@@ -1000,8 +1009,9 @@ class NURBS(object):
         #
         Unclamp = _bsp.Unclamp
         Pw = np.rollaxis(array, axis, 0).copy()
+        U, Pw = _trim_knots(p, U, Pw, l, r)
         shape = Pw.shape
-        Pw.shape = (shape[0], -1)
+        Pw = Pw.reshape((shape[0], -1))
         V, Qw = Unclamp(p, U, Pw, C, l, r)
         Qw.shape = shape
         array = np.rollaxis(Qw, 0, axis+1)
-- 
2.43.0


From 5d29556ce9180d1c6f8d0c61a45c7c3e22a334c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 10/28] fix: degree elevation of unclamped geometries wrote out
 of bounds

DegreeElevate needs clamped knots and interior multiplicities up to the
degree. Spans are counted with the tolerance it uses.
---
 igakit/igalib.pyf |  5 +++--
 igakit/nurbs.py   | 17 ++++++++++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/igakit/igalib.pyf b/igakit/igalib.pyf
index 7bb5dae..5367936 100644
--- a/igakit/igalib.pyf
+++ b/igakit/igalib.pyf
@@ -2,12 +2,13 @@
 
 python module igalib
 usercode '''
+#include <math.h>
+#include <float.h>
 static int CountSpans(int n, int p, double *U)
 {
   int i, spans=0;
   for (i=p; i<=n; i++) {
-    while (i<=n && U[i]==U[i+1]) i++;
-    spans++;
+    if (fabs(U[i]-U[i+1])>DBL_EPSILON) spans++;
   }
   return spans;
 }
diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 1f6c5b6..aba2539 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -23,8 +23,8 @@ def _snap_knot(U, u):
 def _trim_knots(p, U, Pw, l, r):
     # Discard the knots in excess at the ends of the domain, together
     # with the control points that have no influence in the domain
-    a = max(U.searchsorted(U[p], 'r') - 1 - p, 0) if l else 0
-    b = min(U.searchsorted(U[-p-1], 'l') + p + 1, U.size) if r else U.size
+    a = max(U.searchsorted(U[p], 'right') - 1 - p, 0) if l else 0
+    b = min(U.searchsorted(U[-p-1], 'left') + p + 1, U.size) if r else U.size
     assert b - a >= 2*p+2
     return U[a:b], Pw[a:b-p-1]
 
@@ -1154,10 +1154,17 @@ class NURBS(object):
         if times == 0: return self
         axis = range(self.dim)[axis]
         p = self.degree[axis]
-        U = self.knots[axis]
         t = times
-        array = self.array.view()
-        knots = list(self.knots)
+        nrb = self.clone().clamp(axis)
+        array = nrb.array
+        knots = list(nrb.knots)
+        U = knots[axis]
+        #
+        assert (np.diff(U) >= 0).all()
+        jumps = np.diff(U) > np.finfo('d').eps
+        mults = np.diff(np.flatnonzero(np.r_[True, jumps, True]))
+        assert mults[0] == mults[-1] == p+1
+        assert (mults[1:-1] <= p).all()
         #
         DegreeElevate = _bsp.DegreeElevate
         Pw = np.rollaxis(array, axis, 0)
-- 
2.43.0


From 2e7ef0b7d36e71b6caa8a5ef88922c6b511f843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 11/28] fix: mapped derivatives of order above one terminated
 the process

---
 igakit/nurbs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index aba2539..a8b1ed5 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1638,7 +1638,9 @@ class NURBS(object):
             assert F.shape[:-1] == shape
             squeeze = False
         #
-        m  = int(bool(mapped))
+        if mapped:
+            raise NotImplementedError('Geometry mapping not supported')
+        m  = 0
         Cw = self.control
         Cw = np.ascontiguousarray(Cw)
         F  = np.ascontiguousarray(F)
@@ -1721,6 +1723,8 @@ class NURBS(object):
         arglist.extend(uvw)
         #
         assert order >= 1 and order <= 4
+        if mapped and order > 1:
+            raise NotImplementedError('Geometry mapping not supported')
         fn = ['Gradient', 'Hessian', 'ThirdDer', 'FourthDer'][order-1]
         Derivative = getattr(_bsp, '%s%d' % (fn, self.dim))
         D = Derivative(*arglist)
-- 
2.43.0


From 10e80567ba27deff5a6f9d46f47385a3812a1c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 12/28] fix: reject fewer control points than a span of the
 knot vector needs

---
 igakit/nurbs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index a8b1ed5..5989504 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -250,6 +250,7 @@ class NURBS(object):
         for n, m in zip(N, M):
             degree = m - n - 1
             assert degree >= 1
+            assert n >= degree
         #
         self._array = np.ascontiguousarray(array)
         self._knots = tuple(knots)
-- 
2.43.0


From 32ce2b4960d548a21656c27295d130125dc8ee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:19 +0000
Subject: [PATCH 13/28] fix: tolerance of knot removal used a field in place of
 the weights

---
 igakit/nurbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 5989504..591b38d 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -879,10 +879,10 @@ class NURBS(object):
         Pw = np.rollaxis(array, axis, 0)
         shape = Pw.shape
         Pw = Pw.reshape((shape[0], -1))
-        wmin = Pw[:,-1].min()
+        wmin = array[...,3].min()
         Pmax = []
         for i in range(Pw.shape[0]):
-            Pmax.append(np.linalg.norm(Pw[i,:-1]))
+            Pmax.append(np.linalg.norm(Pw[i]))
         Pmax = max(Pmax)
         TOL = deviation*wmin/(1.+Pmax)
         t, V, Qw = RemoveKnot(p, U, Pw, value, TOL, times)
-- 
2.43.0


From 0ae47b1b6d5d4d1852474276d90c12cd2933770c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 14/28] fix: integer overflows in degree elevation

The binomial coefficients overflowed from degree 30 on, the size of the
result for huge increments.
---
 igakit/igalib.f90 | 3 ++-
 igakit/nurbs.py   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index acb5a24..e7ea549 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -633,7 +633,8 @@ contains
   pure function Bin(n,k) result (C)
     implicit none
     integer(kind=4), intent(in) :: n, k
-    integer(kind=4) :: i, C
+    integer(kind=4) :: i
+    real   (kind=8) :: C
     C = 1
     do i = 0, min(k,n-k) - 1
        C = C * (n - i)
diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 591b38d..a95a9b2 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1161,6 +1161,7 @@ class NURBS(object):
         knots = list(nrb.knots)
         U = knots[axis]
         #
+        assert U.size * (t+1) < 2**31 # 32-bit sizes in the kernel
         assert (np.diff(U) >= 0).all()
         jumps = np.diff(U) > np.finfo('d').eps
         mults = np.diff(np.flatnonzero(np.r_[True, jumps, True]))
-- 
2.43.0


From 04fa1c962e81c871c4534eaf47cf6fb6d9ef4f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:38 +0000
Subject: [PATCH 15/28] fix: grid and refine changed arrays passed by the
 caller

---
 igakit/cad.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 423f0ba..ee09153 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -235,7 +235,7 @@ def grid(shape, degree=2, continuity=None,
     wrap : bool or sequence of bool, optional
 
     """
-    shape = np.asarray(shape, dtype='i')
+    shape = np.array(shape, dtype='i')
     if shape.ndim == 0:
         dim = 1
         shape.shape = (1,)
@@ -252,7 +252,7 @@ def grid(shape, degree=2, continuity=None,
     #
     if continuity is None:
         continuity = degree - 1
-    continuity = np.asarray(continuity, dtype='i')
+    continuity = np.array(continuity, dtype='i')
     if continuity.ndim == 0:
         continuity = continuity.repeat(dim)
     assert continuity.shape == (dim,)
@@ -692,7 +692,7 @@ def refine(nrb, factor=None, degree=None, continuity=None):
         if arg is None:
             return list(defval)
         dim = len(defval)
-        arg = np.asarray(arg, dtype=object)
+        arg = np.array(arg, dtype=object)
         if arg.ndim == 0:
             return arg.repeat(dim)
         assert arg.shape[0] == dim
-- 
2.43.0


From 0f66b606528fd653eaa20754c46c72025e289a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:46 +0000
Subject: [PATCH 16/28] fix: join assumed that the second parameter domain
 starts at zero

---
 igakit/cad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index ee09153..dfa22f0 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -637,7 +637,7 @@ def join(nrb1, nrb2, axis):
     u = U1[-p1-1]
     a = U2[p2]
     b = U2[-p2-1]
-    nrb2.remap(axis, a+u, b+u)
+    nrb2.remap(axis, u, b-a+u)
 
     p = max(p1, p2)
     nrb1.elevate(axis, p-p1)
-- 
2.43.0


From ae6e3439f99a761e8428feedae65acfc6358d7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 17/28] fix: revolve about the negative z direction

---
 igakit/cad.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/igakit/cad.py b/igakit/cad.py
index dfa22f0..2a2bc65 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -459,6 +459,7 @@ def revolve(nrb, point, axis=2, angle=None):
     # Transform the NURBS object to a new reference frame
     # (O,X,Y,Z) centered at point and z-oriented with axis
     n = [v[1], -v[0], 0]    # n = cross(v, z)
+    if not np.any(n): n = [1, 0, 0]
     gamma = np.arccos(v[2]) # cos_gamma = dot(v, z)
     T = transform().translate(-point).rotate(gamma, n)
     nrb = nrb.clone().transform(T)
-- 
2.43.0


From 288717e391cdd36608fae420df90df154ac18478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:29 +0000
Subject: [PATCH 18/28] fix: remap and reverse moved the end of the domain by
 rounding errors

Evaluating at the documented end point then failed.
---
 igakit/nurbs.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index a95a9b2..fc0b1b9 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -654,7 +654,10 @@ class NURBS(object):
             return C[tuple(index)]
         def KntRev(p, U):
             U0, U1 = U[p], U[-p-1]
-            return (U1+U0)-U[::-1]
+            V = U1-(U-U0)
+            V[U>=U1] = np.minimum(V[U>=U1], U0) # rounding errors must
+            V[U<=U1] = np.maximum(V[U<=U1], U0) # not move the end point
+            return V[::-1]
         allaxes = range(self.dim)
         if not axes: axes = allaxes
         array = self.array
@@ -719,12 +722,11 @@ class NURBS(object):
         if (a == c) and (b == d): return self
         #
         assert c < d
-        U = U.copy()
-        U -= a
-        U *= (d-c)/(b-a)
-        U += c
+        V = c + (U-a)*((d-c)/(b-a))
+        V[U<=b] = np.minimum(V[U<=b], d) # rounding errors must
+        V[U>=b] = np.maximum(V[U>=b], d) # not move the end point
         knots = list(self.knots)
-        knots[axis] = U
+        knots[axis] = V
         #
         self._knots = tuple(knots)
         return self
-- 
2.43.0


From 8bf8be15bbfd89768ca954ed2cb56cc39d7d0bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 19/28] fix: compat doubled knots that differ by rounding
 errors

---
 igakit/cad.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 2a2bc65..5e284b7 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -21,13 +21,6 @@ except AttributeError:
         _np_unique = np.lib.arraysetops.unique
     except AttributeError:
         _np_unique = np.unique1d
-try:
-    _np_in1d = np.in1d
-except AttributeError:
-    try:
-        _np_in1d = np.lib.arraysetops.in1d
-    except AttributeError:
-        _np_in1d = np.setmember1d
 
 # -----
 
@@ -347,16 +340,20 @@ def compat(*nurbs, **kargs):
             # Merge breaks and multiplicities
             masks = []
             u = _np_unique(np.concatenate(breaks))
+            # knots that differ by rounding errors are the same knot
+            if u.size:
+                tol = abs(u).max() * np.finfo('d').eps
+                u = u[np.append(True, np.diff(u) > tol)]
             s = np.zeros(u.size, dtype='i')
             for (ui, si) in zip(breaks, mults):
-                mask = _np_in1d(u, ui)
-                s[mask] = np.maximum(s[mask], si)
-                masks.append(mask)
+                k = u.searchsorted(ui, 'right') - 1
+                mi = np.bincount(k, si, u.size).astype('i')
+                s = np.maximum(s, mi)
+                masks.append((k, mi))
             # Compute knots to insert
-            for i, (mi, si) in enumerate(zip(masks, mults)):
-                t = s.copy(); t[mi] -= si
-                v = np.repeat(u, t).astype('d')
-                insert[i,j] = v
+            for i, (k, mi) in enumerate(masks):
+                v = u.copy(); v[k] = breaks[i]
+                insert[i,j] = np.repeat(v, s - mi)
         # Apply knot refinement
         for i, nrb in enumerate(nurbs):
             for j, axis in enumerate(axes):
-- 
2.43.0


From 0057c1d41042672a8bf36921957c4245eeed0554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:13 +0000
Subject: [PATCH 20/28] fix: edits reject non-monotone knots instead of reading
 out of bounds

---
 igakit/nurbs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index fc0b1b9..680a892 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -23,6 +23,7 @@ def _snap_knot(U, u):
 def _trim_knots(p, U, Pw, l, r):
     # Discard the knots in excess at the ends of the domain, together
     # with the control points that have no influence in the domain
+    assert (np.diff(U) >= 0).all()
     a = max(U.searchsorted(U[p], 'right') - 1 - p, 0) if l else 0
     b = min(U.searchsorted(U[-p-1], 'left') + p + 1, U.size) if r else U.size
     assert b - a >= 2*p+2
@@ -786,6 +787,7 @@ class NURBS(object):
         knots = list(self.knots)
         p = self.degree[axis]
         U = knots[axis]
+        assert (np.diff(U) >= 0).all()
         assert U[p] <= value <= U[-p-1]
         value = _snap_knot(U, value)
         #
@@ -865,6 +867,7 @@ class NURBS(object):
         knots = list(self.knots)
         p = self.degree[axis]
         U = knots[axis]
+        assert (np.diff(U) >= 0).all()
         assert U[p] <= value <= U[-p-1]
         value = _snap_knot(U, value)
         #
@@ -1068,6 +1071,7 @@ class NURBS(object):
         """
         def Arg(p, U, u):
             u = np.sort(u, kind='heapsort')
+            assert (np.diff(U) >= 0).all()
             assert u[ 0] >= U[p]
             assert u[-1] <= U[-p-1]
             tmp = np.concatenate((u, U[1:-1]))
@@ -1342,6 +1346,7 @@ class NURBS(object):
         p = self.degree[axis]
         U = self.knots[axis]
         u = float(value)
+        assert (np.diff(U) >= 0).all()
         assert u >= U[p]
         assert u <= U[-p-1]
         u = _snap_knot(U, u)
-- 
2.43.0


From 81e7ce1a4ed4d5c3eb9e0ee1bc31bb2679327fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 21/28] fix: fourth derivatives of rational geometries missed a
 term of the quotient rule

---
 igakit/igalib.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index e7ea549..8c8cf64 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -931,7 +931,8 @@ subroutine Rationalize(nen,dim,W,R0,R1,R2,R3,R4)
                    - R2(j,k,:)*W2(i,l) - R3(j,k,l,:)*W1(i) &
                    - R1(i,:)*W3(j,k,l) - R2(i,l,:)*W2(j,k) &
                    - R2(i,k,:)*W2(j,l) - R3(i,k,l,:)*W1(j) &
-                   - R2(i,j,:)*W2(k,l) - R3(i,j,l,:)*W1(k)
+                   - R2(i,j,:)*W2(k,l) - R3(i,j,l,:)*W1(k) &
+                   - R3(i,j,k,:)*W1(l)
   end do; end do; end do; end do
   R4 = R4 / W0
 end subroutine Rationalize
-- 
2.43.0


From 31dc5a4a9d0895f257aa6e9f5f3639c208d5b444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:38 +0000
Subject: [PATCH 22/28] fix: compat left different knots outside of the domain,
 ruled and coons combined them

---
 igakit/cad.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/igakit/cad.py b/igakit/cad.py
index 5e284b7..11ef85f 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -327,6 +327,15 @@ def compat(*nurbs, **kargs):
                 t = elevate[i,j]
                 nrb.elevate(axis, t)
     #
+    def SameEnds(nurbs, axes):
+        # Ensure same knots outside of the domain by clamping
+        for axis in axes:
+            p = nurbs[0].degree[axis]
+            ends = [np.r_[U[:p+1], U[-p-1:]] for U in
+                    (nrb.knots[axis] for nrb in nurbs)]
+            if not all((e == ends[0]).all() for e in ends):
+                for nrb in nurbs:
+                    nrb.clamp(axis)
     def MergeKnots(nurbs, axes):
         m, n = len(nurbs), len(axes)
         insert = np.empty((m, n), dtype=object)
@@ -381,6 +390,7 @@ def compat(*nurbs, **kargs):
     #
     SameBounds(nurbs, axes)
     SameDegree(nurbs, axes)
+    SameEnds(nurbs, axes)
     MergeKnots(nurbs, axes)
     #
     return nurbs
-- 
2.43.0


From 3d9b9ecec5614f84830b3c5c5a90cc051a36c4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 23/28] fix: read_mat accepted matrices of empty rows cut
 before their row counts

---
 igakit/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/igakit/io.py b/igakit/io.py
index 7c67de0..40f7db5 100644
--- a/igakit/io.py
+++ b/igakit/io.py
@@ -248,6 +248,7 @@ class PetIGA(object):
             AI = np.empty(M+1, dtype=M.dtype)
             AI[0] = 0
             rownz = _read(fh, I, M)
+            assert len(rownz) == M
             np.cumsum(rownz, out=AI[1:])
             assert AI[-1] == nz
             AJ = _read(fh, I, nz)
-- 
2.43.0


From 18acd071d3b7d1f7adf589b3663dfc8a0f19ea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 24/28] fix: compat missed knots inserted at the ends of an
 unclamped domain

---
 igakit/cad.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 11ef85f..2fa83d2 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -331,9 +331,9 @@ def compat(*nurbs, **kargs):
         # Ensure same knots outside of the domain by clamping
         for axis in axes:
             p = nurbs[0].degree[axis]
-            ends = [np.r_[U[:p+1], U[-p-1:]] for U in
+            ends = [np.r_[U[U <= U[p]], U[U >= U[-p-1]]] for U in
                     (nrb.knots[axis] for nrb in nurbs)]
-            if not all((e == ends[0]).all() for e in ends):
+            if not all(np.array_equal(e, ends[0]) for e in ends):
                 for nrb in nurbs:
                     nrb.clamp(axis)
     def MergeKnots(nurbs, axes):
-- 
2.43.0


From 96d38e048ecb25ee1005c17f34b26717e39b13ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:41 +0000
Subject: [PATCH 25/28] fix: compat doubled knots of remapped domains

Knots that differ by a few rounding errors after the change of domain were
taken for different ones.
---
 igakit/cad.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 2fa83d2..0b6b302 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -351,7 +351,8 @@ def compat(*nurbs, **kargs):
             u = _np_unique(np.concatenate(breaks))
             # knots that differ by rounding errors are the same knot
             if u.size:
-                tol = abs(u).max() * np.finfo('d').eps
+                ends = nurbs[0].breaks(axis)[[0,-1]]
+                tol = abs(ends).max() * np.finfo('d').eps * 16
                 u = u[np.append(True, np.diff(u) > tol)]
             s = np.zeros(u.size, dtype='i')
             for (ui, si) in zip(breaks, mults):
-- 
2.43.0


From 0627326453ea743933987f0732adaeb9c0df0858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:07 +0000
Subject: [PATCH 26/28] fix: undo 45397ae, derivatives of order above the
 degree were right

The loops it bounds are empty for orders above the degree; the original
code returned the zeros by itself.
---
 igakit/igalib.f90 | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 8c8cf64..d4facb3 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -104,7 +104,7 @@ subroutine DersBasisFuns(i,uu,p,n,U,ders)
   do r = 0, p
      s1 = 0; s2 = 1;
      a(0,0) = 1
-     do k = 1, min(n,p)
+     do k = 1, n
         d = 0
         rk = r-k; pk = p-k;
         if (r >= k) then
@@ -134,11 +134,10 @@ subroutine DersBasisFuns(i,uu,p,n,U,ders)
      end do
   end do
   r = p
-  do k = 1, min(n,p)
+  do k = 1, n
      ders(:,k) = ders(:,k) * r
      r = r * (p-k)
   end do
-  ders(:,p+1:) = 0
 end subroutine DersBasisFuns
 
 subroutine CurvePoint(d,n,p,U,Pw,uu,C)
-- 
2.43.0


From faca4d23435f423fd6b288566a4fe6d4885a0aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:24 +0000
Subject: [PATCH 27/28] fix: revolve lost digits for axes close to z

---
 igakit/cad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 0b6b302..4929dd1 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -468,7 +468,7 @@ def revolve(nrb, point, axis=2, angle=None):
     # (O,X,Y,Z) centered at point and z-oriented with axis
     n = [v[1], -v[0], 0]    # n = cross(v, z)
     if not np.any(n): n = [1, 0, 0]
-    gamma = np.arccos(v[2]) # cos_gamma = dot(v, z)
+    gamma = np.arctan2(np.hypot(v[0], v[1]), v[2])
     T = transform().translate(-point).rotate(gamma, n)
     nrb = nrb.clone().transform(T)
     # Map cartesian coordinates (x,y,z) to cylindrical coordinates
-- 
2.43.0


From 6a840e704f6bbb7d327d1052a7ce715daa580b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:55 +0000
Subject: [PATCH 28/28] fix: grid crashed on knot counts beyond 32-bit integers

The number of knots overflowed and KnotVector wrote outside its array.
---
 igakit/igalib.pyf | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/igalib.pyf b/igakit/igalib.pyf
index 5367936..dce4b3e 100644
--- a/igakit/igalib.pyf
+++ b/igakit/igalib.pyf
@@ -461,7 +461,7 @@ interface
        real   (kind=8), intent(in)   :: Ui = 0.0
        real   (kind=8), intent(in)   :: Uf = 1.0
        logical(kind=4), intent(in)   :: wrap = 0
-       integer(kind=4), intent(hide) :: m = 2*(p+1)+(E-1)*(p-C)-1
+       integer(kind=4), intent(hide), check(2*(p+1.0)+(E-1.0)*(p-C)<=2147483647.0) :: m = 2*(p+1)+(E-1)*(p-C)-1
        real   (kind=8), intent(out)  :: U(0:m)
      end subroutine KnotVector
 
-- 
2.43.0

