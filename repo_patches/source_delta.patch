From b261e24cb7f9807fc7951df96af0b4c6ec58852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 001/294] fix: find_span must not loop forever below the domain
 of an unclamped knot vector

---
 mmcore/geom/nurbs.pxd | 2 +-
 mmcore/geom/nurbs.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pxd b/mmcore/geom/nurbs.pxd
index eebc350..a9a6d25 100644
--- a/mmcore/geom/nurbs.pxd
+++ b/mmcore/geom/nurbs.pxd
@@ -233,7 +233,7 @@ cdef inline int find_span_inline(int n, int p, double u, double[:] U, bint is_pe
 
             return n
 
-        elif u < U[0]:
+        elif u < U[p]:
 
             return p
 
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 41829f1..f1bc11d 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -142,7 +142,7 @@ cpdef int find_span(int n, int p, double u, double[:] U, bint is_periodic) noexc
 
             return n
 
-        elif u < U[0]:
+        elif u < U[p]:
 
             return p
 
-- 
2.43.0


From 363c7057828e04b3b65da8ee47bc9d4af7a30c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 002/294] fix: reverse_curve read knots before the start of the
 array (wraparound is off)

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index f1bc11d..f13efab 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2059,7 +2059,7 @@ def reverse_curve(curve: NURBSCurve) -> NURBSCurve:
     cdef double b = curve._knots[curve._knots.shape[0]-1]
     cdef int i
     for i in range(len(curve._knots)):
-        new_knots[i] = a + b - curve._knots[-(i+1)]
+        new_knots[i] = a + b - curve._knots[curve._knots.shape[0]-1-i]
 
     return NURBSCurve.create(new_cpts, curve._degree, new_knots, curve._periodic)
 
-- 
2.43.0


From 6c42aa8457b4dd1cd9fb780099e29686938d1ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 003/294] fix: NURBSCurve.flip returned a decreasing knot
 vector

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index f13efab..56510d9 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2031,7 +2031,7 @@ cdef class NURBSCurve(ParametricCurve):
         return curve
 
     def flip(self):
-        return NURBSCurve(np.flip(self._control_points,axis=0), self.degree,np.max(self.knots)-self.knots+np.min(self.knots))
+        return NURBSCurve(np.flip(self._control_points,axis=0), self.degree,np.flip(np.max(self.knots)-self.knots+np.min(self.knots)).copy())
 
 
 
-- 
2.43.0


From be81359914321f6f6fd518e3a8780054926230b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 004/294] fix: knot insertion changed the shape of rational
 curves

---
 mmcore/geom/nurbs.pyx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 56510d9..dd8a45d 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1732,13 +1732,20 @@ cdef class NURBSCurve(ParametricCurve):
         self._control_points=np.empty((new_count,4))
 
 
-        # Compute new control points
+        # Compute new control points (in homogeneous coordinates)
+        cdef int i, j
+        for i in range(n):
+            for j in range(3):
+                cpts[i, j] *= cpts[i, 3]
 
         knot_insertion(self._degree,
                                               self._knots,
                                               cpts,
                                               t,
                                                 count, s_u, span,0,self._control_points  )
+        for i in range(new_count):
+            for j in range(3):
+                self._control_points[i, j] /= self._control_points[i, 3]
 
         # Update curve
 
-- 
2.43.0


From 8a8872a7c36ae21b23dc16cd3608e5402de66c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 005/294] fix: NURBSCurve.evaluate handed out the array its
 cache keeps

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index dd8a45d..08f7a42 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1541,7 +1541,7 @@ cdef class NURBSCurve(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     def evaluate(self, double t):
-        return self._evaluate_cached(t)
+        return self._evaluate_cached(t).copy()
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
-- 
2.43.0


From ca133e805930778eb69b79ba1fb774e5efbc4633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 006/294] fix: a copied NURBSCurve kept evaluating the original

---
 mmcore/geom/nurbs.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 08f7a42..7d4d7d2 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1799,7 +1799,6 @@ cdef class NURBSCurve(ParametricCurve):
     def copy(self):
         cdef NURBSCurve crv = self.ccopy()
 
-        crv._evaluate_cached = functools.lru_cache(maxsize=None)(self._evaluate)
         return crv
 
     @cython.boundscheck(False)
-- 
2.43.0


From 23221c6ba1cd59a8332f8dbd7a4246a6bbb20782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 007/294] fix: curves built from one knot array shared it and
 changed together

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 7d4d7d2..d5b1333 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1164,7 +1164,7 @@ cdef class NURBSCurve(ParametricCurve):
         if knots is None:
                 self.generate_knots()
         else:
-            self._knots=knots
+            self._knots=knots.copy()
             self.knots_update_hook()
 
         if  periodic:
-- 
2.43.0


From fa7568af6e79b54aead2f5f1aa4f3007d9904679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 008/294] fix: assigning knots must not share the caller's
 array

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index d5b1333..9c17beb 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1304,7 +1304,7 @@ cdef class NURBSCurve(ParametricCurve):
     @knots.setter
     def knots(self, double[:] v):
 
-        self._knots=v
+        self._knots=v.copy()
         self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
-- 
2.43.0


From 6716e6d68eaaafc5b35d0d81da3bc12c419b9e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 009/294] fix: changing the degree left stale evaluations in
 the cache

---
 mmcore/geom/nurbs.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 9c17beb..322e09a 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1206,6 +1206,7 @@ cdef class NURBSCurve(ParametricCurve):
         return obj
     cpdef void set_degree(self, int val):
         self._degree=val
+        self._evaluate_cached.cache_clear()
 
 
     cpdef int get_degree(self):
-- 
2.43.0


From 9b852ff502a941453e832dca7b4f1b88318a6696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 010/294] fix: NURBSCurve.set left the previous interval and
 greville abscissae in place

---
 mmcore/geom/nurbs.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 322e09a..7e7dce0 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1500,6 +1500,7 @@ cdef class NURBSCurve(ParametricCurve):
     cpdef set(self, double[:,:] control_points, double[:] knots ):
         self._control_points=control_points
         self._knots=knots
+        self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
     @cython.cdivision(True)
-- 
2.43.0


From 9bc0b3c9b31f216cdb9f66b7895a465666875f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 011/294] fix: insert_knot left the greville abscissae of the
 old knots in place

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 7e7dce0..5b52f13 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1752,7 +1752,7 @@ cdef class NURBSCurve(ParametricCurve):
         # Update curve
 
         self._knots=k_v
-        self._update_interval()
+        self.knots_update_hook()
 
         self._evaluate_cached.cache_clear()
 
-- 
2.43.0


From d701f79017eaa6a6ae105eb120b24c67231c3b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 012/294] fix: knot removal measured the sum of two points
 instead of their distance

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 5b52f13..e6df091 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -573,7 +573,7 @@ cdef inline double point_distance(double* a, double* b ,int dim) noexcept nogil:
     cdef double temp=0.
     for i in range(dim):
 
-        temp+= pow(a[i]+b[i], 2)
+        temp+= pow(a[i]-b[i], 2)
 
     return sqrt(temp)
 
-- 
2.43.0


From 59ca495b7e6f92773f717f0f02aaa055a2c65da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 013/294] fix: is_periodic only compared the last of the
 repeated control points

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index e6df091..2b50afb 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1233,7 +1233,7 @@ cdef class NURBSCurve(ParametricCurve):
 
                 res = part1[j][i] == part2[j][i]
                 if not res:
-                    break
+                    return res
 
         return res
 
-- 
2.43.0


From f0697993cd806f5d2d48de6e201eb2f16947d35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 014/294] fix: a serialized curve ended with uninitialised
 memory

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 2b50afb..e4df894 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1813,7 +1813,7 @@ cdef class NURBSCurve(ParametricCurve):
 
         # Calculate total size of the byte array
         cdef size_t total_size = (
-            sizeof(MAGIC_BYTES) +
+            MAGIC_BYTES_SIZE +
             sizeof(uint32_t) + # Magic bytes and version
             sizeof(uint32_t) +  # degree
             sizeof(bint) +  # periodic flag
-- 
2.43.0


From 22cb6959b654f0086fa307993a40f6500e8bc91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 015/294] fix: derivatives of rational curves ignored the
 weights

---
 mmcore/geom/nurbs.pyx | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index e4df894..cd20034 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1098,6 +1098,40 @@ def rat_surface_derivs_py(double[:, :, :] SKLw, int deriv_order=0, double[:, :,
     rat_surface_derivs(SKLw,deriv_order,SKL)
     return np.array(SKL)
 
+@cython.cdivision(True)
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef bint is_rational(double[:,:] control_points) noexcept nogil:
+    cdef int i
+    for i in range(1, control_points.shape[0]):
+        if control_points[i, 3] != control_points[0, 3]:
+            return True
+    return False
+
+@cython.cdivision(True)
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef void rat_curve_derivs(int n, int p, double[:] U, double[:,:] P, double u, int d, double[:, :] CK, bint is_periodic):
+    """
+    Derivatives of a rational curve, given by cartesian control points with weights (A4.2 of The NURBS Book).
+    """
+    cdef double[:,:] Pw = np.empty((P.shape[0], 4))
+    cdef double[:,:] CKw = np.zeros((d + 1, 4))
+    cdef int rows = min(d + 1, CK.shape[0])
+    cdef int i, j, k
+    cdef double v
+    for i in range(P.shape[0]):
+        for j in range(3):
+            Pw[i, j] = P[i, j] * P[i, 3]
+        Pw[i, 3] = P[i, 3]
+    curve_derivs_alg1(n, p, U, Pw, u, d, CKw, is_periodic)
+    for k in range(rows):
+        for j in range(3):
+            v = CKw[k, j]
+            for i in range(1, k + 1):
+                v -= binomial_coefficient(k, i) * CKw[i, 3] * CK[k - i, j]
+            CK[k, j] = v / CKw[0, 3]
+
 cdef void normalize_parameter_range(double start, double end ,double* t1, double* t2 ):
     cdef double temp=0
     cdef double temp1= deref(t1)
@@ -1584,6 +1618,9 @@ cdef class NURBSCurve(ParametricCurve):
         cdef int i
         #cdef double[:, :]  CK = np.zeros((du + 1, 4))
         #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
+        if is_rational(self._control_points):
+            rat_curve_derivs(n, self._degree, self._knots, self._control_points, t, d, CK, self._periodic)
+            return
         curve_derivs_alg1(n, self._degree, self._knots, self._control_points[:,:-1], t, d, CK,self._periodic)
 
     @cython.cdivision(True)
@@ -1602,6 +1639,9 @@ cdef class NURBSCurve(ParametricCurve):
            cdef int i
            #cdef double[:, :]  CK = np.zeros((du + 1, 4))
            #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
+           if is_rational(self._control_points):
+               rat_curve_derivs(n, self._degree, self._knots, self._control_points, t, d, CK, self._periodic)
+               return
            cdef double[:,:,:] PK= np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1 ))
 
            curve_derivs_alg2(n, self._degree, self._knots, self._control_points[:,:-1], t, d, CK, PK,self._periodic)
-- 
2.43.0


From 3876ee60861500698bd4000ca57ac40637362500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 016/294] fix: the interval of a periodic or unclamped curve
 exceeded its domain

---
 mmcore/geom/nurbs.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index cd20034..bb1b06e 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1404,8 +1404,10 @@ cdef class NURBSCurve(ParametricCurve):
         self.knots_update_hook()
 
     cdef _update_interval(self):
-        self._interval[0] =  self._knots[0]
-        self._interval[1] = self._knots[self._knots.shape[0]-1]
+        cdef int m = self._knots.shape[0]
+        cdef int p = self._degree if m >= 2 * (self._degree + 1) else 0
+        self._interval[0] =  self._knots[p]
+        self._interval[1] = self._knots[m - 1 - p]
     cpdef double[:,:] generate_control_points_periodic(self, double[:,:] cpts):
         cdef int n = len(cpts)
         cdef int i
-- 
2.43.0


From a376aa925c0a34792fdb675dfda6a16245e285b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 017/294] fix: periodic curves wrapped the span but not the
 parameter

---
 mmcore/geom/nurbs.pxd | 12 ++++++++++++
 mmcore/geom/nurbs.pyx |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/mmcore/geom/nurbs.pxd b/mmcore/geom/nurbs.pxd
index a9a6d25..87ce4f7 100644
--- a/mmcore/geom/nurbs.pxd
+++ b/mmcore/geom/nurbs.pxd
@@ -61,6 +61,17 @@ cdef inline void basis_funs(int i, double u, int p, double[:] U, double* N) noex
     free(right)
 
 
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef inline double wrap_parameter(int n, int p, double u, double[:] U, bint is_periodic) noexcept nogil:
+    cdef double period = U[n+1] - U[p]
+    if is_periodic and period > 0:
+        while u < U[p]:
+            u += period
+        while u > U[n+1]:
+            u -= period
+    return u
+
 @cython.cdivision(True)
 @cython.initializedcheck(False)
 @cython.boundscheck(False)
@@ -82,6 +93,7 @@ cdef inline void curve_point(int n, int p, double[:] U, double[:, :] P, double u
 
     cdef int pp = p + 1
     cdef int i, j
+    u = wrap_parameter(n, p, u, U, is_periodic)
     cdef int span = find_span_inline(n, p, u, U,is_periodic)
     cdef double* N = <double*>malloc(sizeof(double)*pp)
     cdef double sum_of_weights=0.
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index bb1b06e..80b3d6f 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -364,6 +364,7 @@ cpdef void curve_derivs_alg1(int n, int p, double[:] U, double[:, :] P, double u
     cdef int du = min(d, p)
     #cdef double[:, :] CK = np.zeros((du + 1, P.shape[1]))
     cdef int pp=p+1
+    u = wrap_parameter(n, p, u, U, is_periodic)
     cdef int span = find_span_inline(n, p, u, U,is_periodic)
     cdef double[:, :] nders = ders_basis_funs(span, u, p, du, U)
 
@@ -445,6 +446,7 @@ cpdef void curve_derivs_alg2(int n, int p, double[:] U, double[:, :] P, double u
 
     #cdef double[:, :] CK = np.zeros((d + 1, dimension))
 
+    u = wrap_parameter(n, p, u, U, is_periodic)
     cdef int span = find_span_inline(n, degree, u, knotvector,is_periodic)
     #cdef double[:, :, :] PK = np.zeros((d + 1, degree + 1, P.shape[1]))
 
-- 
2.43.0


From ebb0bfabcc2e109ee2e09e979e57ca87a4d96f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 018/294] fix: make_open did nothing to periodic curves and cut
 open ones short

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 80b3d6f..51a7428 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1452,7 +1452,7 @@ cdef class NURBSCurve(ParametricCurve):
         """
         Modify the NURBS curve to make it open
         """
-        if not self.is_open():
+        if not self._periodic:
             return
         cdef int n = len(self._control_points) - self._degree  # Calculate the original number of control points
         self._control_points = self._control_points[:n, :]  # Trim the extra control points
-- 
2.43.0


From 99c4294b6d168a5a8e159e79fc7ad841d12cd942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 019/294] fix: bbox of a rational curve divided its cartesian
 control points by the weights

---
 mmcore/geom/nurbs.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 51a7428..4348e7c 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2010,7 +2010,9 @@ cdef class NURBSCurve(ParametricCurve):
     def bbox(self,double[:,:] result=None):
         if result is None:
             result=np.zeros((2,3))
-        aabb(self._control_points, result)
+        cdef double[:,:] points = np.ones((self._control_points.shape[0], 4))
+        points[:, :3] = self._control_points[:, :3]
+        aabb(points, result)
         return result
 
     def astuple(self):
-- 
2.43.0


From b4daf3c31583962b4a3bb5c03f0a863f1ebe01ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 020/294] fix: trim took the wrong control points and knots

---
 mmcore/geom/nurbs.pyx | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 4348e7c..5ccd89a 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2054,33 +2054,22 @@ cdef class NURBSCurve(ParametricCurve):
 
         # Make copy if requested
 
-        curve = self.ccopy()
+        cdef NURBSCurve curve = self.ccopy()
 
-        # Insert knots at trim points with multiplicity = degree
-        curve.multiply_knot( t1)
-        curve.multiply_knot( t2)
-
-        # Find spans corresponding to trim points
-        cdef bint per=curve.is_periodic()
-        cdef int span1 = find_span_inline(curve._knots.shape[0] - 1, curve._degree, t1, curve._knots, per)
-        cdef int span2 = find_span_inline(curve._knots.shape[0] - 1, curve._degree, t2, curve._knots, per)
-
-        # Extract relevant control points and knots
-        cdef double[:,:] new_cpts = curve._control_points[span1 - curve._degree:span2 + 1]
-        cdef double[:]        new_knots = curve._knots[span1:span2 + curve._degree + 2]
+        # Keep the part between the trim points
+        if self._interval[1] - t2 > 1e-7:
+            curve = split_curve(curve, t2)[0]
+        if t1 - self._interval[0] > 1e-7:
+            curve = split_curve(curve, t1)[1]
 
         # Shift knot vector to start at 0
+        cdef double[:] new_knots = curve._knots
         cdef double shift = new_knots[0]
         cdef int i
         for i in range(new_knots.shape[0]):
             new_knots[i]-=shift
 
-
-        # Update curve data
-        curve._control_points = new_cpts
-        curve._knots = new_knots
-        curve._interval[0] = new_knots[0]
-        curve._interval[1] = new_knots[new_knots.shape[0]-1]
+        curve.knots_update_hook()
 
         return curve
 
-- 
2.43.0


From 8f666a8c71ba151b0ca846882256fbd3d12a78e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:02 +0000
Subject: [PATCH 021/294] fix: NURBSCurve.normal wrote past the end of its
 buffer

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 5ccd89a..d5af345 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1679,7 +1679,7 @@ cdef class NURBSCurve(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     cdef void cnormal(self, double t, double[:] result):
-        cdef double[:,:] vecs=np.zeros((3,3))
+        cdef double[:,:] vecs=np.zeros((4,3))
         self.cplane(t,vecs)
         result[:]=vecs[2,:]
 
-- 
2.43.0


From 084e7ec13dc23d54929d61fc17f4b6169ed51768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:02 +0000
Subject: [PATCH 022/294] fix: deserialize read past the end of truncated data

---
 mmcore/geom/nurbs.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index d5af345..d9942e4 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2003,6 +2003,8 @@ cdef class NURBSCurve(ParametricCurve):
     def deserialize(data):
         if not isinstance(data, (bytes, bytearray)):
             raise TypeError("Input must be bytes or bytearray")
+        if len(data) < 24 or len(data) < 24 + 8 * (4 * int.from_bytes(data[16:20], 'little') + int.from_bytes(data[20:24], 'little')):
+            raise ValueError("Truncated NURBS curve data")
         return NURBSCurve.cdeserialize(data)
     @cython.boundscheck(False)
     @cython.wraparound(False)
-- 
2.43.0


From fc3339a33cc29e2b9297e58f5dd062eac5ce2e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:18 +0000
Subject: [PATCH 023/294] fix: finite-difference curve derivatives were
 multiplied by the step instead of divided

---
 mmcore/geom/parametric.pyx | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index 28805f1..c421edf 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -58,19 +58,17 @@ cdef class ParametricCurve:
         :return: vector of first derivative   as numpy array of floats with shape (2,) for 2d case and (3,) for 3d case.
         """
         #print(np.asarray(result))
-        cdef double[:] v1=np.zeros(result.shape)
-        cdef double[:] v2=np.zeros(result.shape)
+        cdef double[:] v1=np.zeros((3,))
+        cdef double[:] v2=np.zeros((3,))
         cdef double t1,t2
-        cdef start=DEFAULT_H+self._interval[0]
-        cdef end = self._interval[1]-DEFAULT_H
 
         t1=t+DEFAULT_H
         t2 = t - DEFAULT_H
         self.cevaluate(t1,v1)
         self.cevaluate(t2,v2)
-        result[0]=(v1[0]- v2[0])*(0.5*DEFAULT_H)
-        result[1] = (v1[1] - v2[1]) * (0.5 * DEFAULT_H)
-        result[2] = (v1[2] - v2[2]) * (0.5 * DEFAULT_H)
+        result[0]=(v1[0] - v2[0]) / (2 * DEFAULT_H)
+        result[1] = (v1[1] - v2[1]) / (2 * DEFAULT_H)
+        result[2] = (v1[2] - v2[2]) / (2 * DEFAULT_H)
 
 
     cpdef double[:] end(self):
@@ -102,17 +100,17 @@ cdef class ParametricCurve:
             :param t:float
             :return: vector of first derivative   as numpy array of floats with shape (2,) for 2d case and (3,) for 3d case.
             """
-            cdef double[:] v1=np.zeros(result.shape)
-            cdef double[:] v2=np.zeros(result.shape)
+            cdef double[:] v1=np.zeros((3,))
+            cdef double[:] v2=np.zeros((3,))
             cdef double t1,t2
 
             t1=t+DEFAULT_H
             t2 = t - DEFAULT_H
             self.cderivative(t1,v1)
             self.cderivative(t2,v2)
-            result[0] = (v1[0] - v2[0]) * (0.5 * DEFAULT_H)
-            result[1] = (v1[1] - v2[1]) * (0.5 * DEFAULT_H)
-            result[2] = (v1[2] - v2[2]) * (0.5 * DEFAULT_H)
+            result[0] = (v1[0] - v2[0]) / (2 * DEFAULT_H)
+            result[1] = (v1[1] - v2[1]) / (2 * DEFAULT_H)
+            result[2] = (v1[2] - v2[2]) / (2 * DEFAULT_H)
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
-- 
2.43.0


From bbb691a0c9f15ee160e9c381b4339baaef0e309a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:18 +0000
Subject: [PATCH 024/294] fix: u derivatives of ruled surfaces ignored the
 length of the curves' intervals

---
 mmcore/geom/parametric.pyx | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index c421edf..de37217 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -703,13 +703,13 @@ cdef class Ruled(ParametricSurface):
         cdef double dv=1.-v
 
         self.c1.cderivative(u2,temp)
-        temp[0]*=v
-        temp[1] *= v
-        temp[2] *= v
+        temp[0] *= v * (self.c1._interval[1] - self.c1._interval[0])
+        temp[1] *= v * (self.c1._interval[1] - self.c1._interval[0])
+        temp[2] *= v * (self.c1._interval[1] - self.c1._interval[0])
         self.c0.cderivative(u1,result)
-        result[0]*=dv
-        result[1] *= dv
-        result[2] *= dv
+        result[0] *= dv * (self.c0._interval[1] - self.c0._interval[0])
+        result[1] *= dv * (self.c0._interval[1] - self.c0._interval[0])
+        result[2] *= dv * (self.c0._interval[1] - self.c0._interval[0])
         result[0]+=temp[0]
         result[1] += temp[1]
         result[2] += temp[2]
@@ -724,13 +724,13 @@ cdef class Ruled(ParametricSurface):
             cdef double dv=1.-v
 
             self.c1.csecond_derivative(u2,temp)
-            temp[0]*=v
-            temp[1] *= v
-            temp[2] *= v
+            temp[0] *= v * (self.c1._interval[1] - self.c1._interval[0]) * (self.c1._interval[1] - self.c1._interval[0])
+            temp[1] *= v * (self.c1._interval[1] - self.c1._interval[0]) * (self.c1._interval[1] - self.c1._interval[0])
+            temp[2] *= v * (self.c1._interval[1] - self.c1._interval[0]) * (self.c1._interval[1] - self.c1._interval[0])
             self.c0.csecond_derivative(u1,result)
-            result[0]*=dv
-            result[1] *= dv
-            result[2] *= dv
+            result[0] *= dv * (self.c0._interval[1] - self.c0._interval[0]) * (self.c0._interval[1] - self.c0._interval[0])
+            result[1] *= dv * (self.c0._interval[1] - self.c0._interval[0]) * (self.c0._interval[1] - self.c0._interval[0])
+            result[2] *= dv * (self.c0._interval[1] - self.c0._interval[0]) * (self.c0._interval[1] - self.c0._interval[0])
             result[0]+=temp[0]
             result[1] += temp[1]
             result[2] += temp[2]
-- 
2.43.0


From a08c3462a2d0383e421d89fda129ebe350eb9269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:57 +0000
Subject: [PATCH 025/294] fix: derivative_control_points always failed on the
 weight column

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index d9942e4..6840723 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1734,7 +1734,7 @@ cdef class NURBSCurve(ParametricCurve):
             cdef int n = len(self._control_points) - 1
             cdef int span = find_span(n, self._degree, t,self._knots,self._periodic)
             cdef cnp.ndarray[double, ndim=3] PK = np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1))
-            curve_deriv_cpts(self._degree, self._knots,self._control_points, d, span - self._degree, span, PK)
+            curve_deriv_cpts(self._degree, self._knots,self._control_points[:,:-1], d, span - self._degree, span, PK)
 
             return PK
     @cython.cdivision(True)
-- 
2.43.0


From 8ee9240ad83fbb2df18dbac32deb3f2493463c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:07 +0000
Subject: [PATCH 026/294] fix: knot_refinement with density read past the list
 of distinct knots

---
 mmcore/geom/nurbs.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 6840723..37bbba5 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -685,6 +685,7 @@ cpdef tuple knot_refinement(int degree, double[:] knotvector, double[:, :] ctrlp
     cdef double* sorted_knots=uniqueSorted(&knot_list[0],usz, &new_knot_len )
 
     knot_list = <double[:new_knot_len]>sorted_knots
+    usz = new_knot_len
 
 
     cdef double[:] rknots
-- 
2.43.0


From 62abf2e6a93da16abd0931766f0704a325ed2606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:15 +0000
Subject: [PATCH 027/294] fix: knot_refinement lost the last knot from density
 3 on

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 37bbba5..e6d936e 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -699,7 +699,7 @@ cpdef tuple knot_refinement(int degree, double[:] knotvector, double[:, :] ctrlp
             rknots[2 * i] = knot_list[i]
             rknots[2 * i + 1] = knot_list[i] + (knot_list[i + 1] - knot_list[i]) / 2.0
 
-        rknots[rknots_size-1] = knot_list[new_knot_len-1]
+        rknots[rknots_size-1] = knot_list[usz-1]
         knot_list = rknots
         usz = rknots_size
     cdef double[:] X = np.zeros(knot_list.shape[0] * degree, dtype=np.float64)
-- 
2.43.0


From 8f68c8d57753a6812067976128515f57fe567bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:15 +0000
Subject: [PATCH 028/294] fix: knot_removal returned control points of another
 curve even for removable knots

---
 mmcore/geom/nurbs.pyx | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index e6d936e..db29c76 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -605,20 +605,22 @@ cpdef knot_removal(int degree, double[:] knotvector, double[:, :] ctrlpts, doubl
     cdef double[:] ptn = np.zeros(dim, dtype=np.float64)
 
     for t in range(num):
-        memcpy(&temp[0], &ctrlpts[first - 1, 0], sizeof(double) * dim)
-        memcpy(&temp[(last - first + 2) * dim], &ctrlpts[last + 1, 0], sizeof(double) * dim)
+        if t >= s or first < 1 or last + 1 >= n:
+            continue
+        memcpy(&temp[0], &ctrlpts_new[first - 1, 0], sizeof(double) * dim)
+        memcpy(&temp[(last - first + 2) * dim], &ctrlpts_new[last + 1, 0], sizeof(double) * dim)
         i = first
         j = last
         ii = 1
         jj = last - first + 1
         remflag = False
 
-        while j - i >= t:
+        while j - i > t:
             alpha_i = knot_removal_alpha_i(u, degree, knotvector, t, i)
             alpha_j = knot_removal_alpha_j(u, degree, knotvector, t, j)
             for k in range(dim):
-                temp[ii * dim + k] = (ctrlpts[i, k] - (1.0 - alpha_i) * temp[(ii - 1) * dim + k]) / alpha_i
-                temp[jj * dim + k] = (ctrlpts[j, k] - alpha_j * temp[(jj + 1) * dim + k]) / (1.0 - alpha_j)
+                temp[ii * dim + k] = (ctrlpts_new[i, k] - (1.0 - alpha_i) * temp[(ii - 1) * dim + k]) / alpha_i
+                temp[jj * dim + k] = (ctrlpts_new[j, k] - alpha_j * temp[(jj + 1) * dim + k]) / (1.0 - alpha_j)
             i += 1
             j -= 1
             ii += 1
@@ -631,7 +633,7 @@ cpdef knot_removal(int degree, double[:] knotvector, double[:, :] ctrlpts, doubl
             alpha_i = knot_removal_alpha_i(u, degree, knotvector, t, i)
             for k in range(dim):
                 ptn[k] = (alpha_i * temp[(ii + t + 1) * dim + k]) + ((1.0 - alpha_i) * temp[(ii - 1) * dim + k])
-            if point_distance(&ctrlpts[i, 0], &ptn[0], dim) <= tol:
+            if point_distance(&ctrlpts_new[i, 0], &ptn[0], dim) <= tol:
                 remflag = True
 
         if remflag:
@@ -655,7 +657,7 @@ cpdef knot_removal(int degree, double[:] knotvector, double[:, :] ctrlpts, doubl
         else:
             j -= 1
     for k in range(i + 1, n):
-        memcpy(&ctrlpts_new[j, 0], &ctrlpts[k, 0], sizeof(double) * dim)
+        memcpy(&ctrlpts_new[j, 0], &ctrlpts_new[k, 0], sizeof(double) * dim)
         j += 1
 
     free(temp)
-- 
2.43.0


From 9ab18e1258920d95b22a56b1ec7040be1f6a3133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:53 +0000
Subject: [PATCH 029/294] fix: decompose_curve failed on unclamped and periodic
 curves

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index db29c76..973fbcb 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2296,8 +2296,8 @@ cpdef list split_curve_multiple(NURBSCurve crv, double[:] params):
 @cython.boundscheck(False)
 @cython.cdivision(True)
 def decompose_curve(NURBSCurve crv):
-    cdef double[:] params=np.unique(crv._knots)
-    params=params[1:][:params.shape[0]-2]
+    cdef cnp.ndarray unique_knots=np.unique(crv._knots)
+    cdef double[:] params=unique_knots[(unique_knots>crv._interval[0]) & (unique_knots<crv._interval[1])]
     cdef list curves=split_curve_multiple(crv,params)
     return curves
 
-- 
2.43.0


From 90cf42957aaf71ce4aab5596acec5fa88c3a6427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 030/294] fix: degree elevation changed the shape of rational
 curves

---
 mmcore/geom/curves/knot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index cefa036..2749e82 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -864,7 +864,10 @@ def degree_elevate_curve(curve:NURBSCurve, num:int=1):
     # Loop through to apply degree elevation
     for crv in crv_list:
 
-            new_cpts,new_deg = degree_elevation_bez( crv.control_pointsw,crv.degree, num=num)
+            cpts_w = np.array(crv.control_pointsw)
+            cpts_w[:, :3] *= cpts_w[:, 3:]
+            new_cpts,new_deg = degree_elevation_bez( cpts_w,crv.degree, num=num)
+            new_cpts[:, :3] /= new_cpts[:, 3:]
             new_kv=np.zeros((crv.knots.shape[0]+num*2,))
 
             new_kv[:num]=crv.knots[0]
-- 
2.43.0


From f6be5786f0ee03473b76ac2e61d85b71b6087582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 031/294] fix: join_two_curves returned a curve with too many
 knots and no weights

---
 mmcore/geom/curves/knot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index 2749e82..8b5a2b9 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -1150,8 +1150,9 @@ def join_two_curves(curve1:NURBSCurve, curve2:NURBSCurve,tol:float=1e-5):
     degree = curve1.degree  # Now both curves have same degree
 
     # Get control points and weights
-    cpts1 = curve1.control_points
-    cpts2 = curve2.control_points
+    cpts1 = np.array(curve1.control_pointsw)
+    cpts2 = np.array(curve2.control_pointsw)
+    cpts2[:, 3] *= cpts1[-1, 3] / cpts2[0, 3]
 
     # Create new knot vector by joining and scaling
     knots1 = curve1.knots
@@ -1161,8 +1162,7 @@ def join_two_curves(curve1:NURBSCurve, curve2:NURBSCurve,tol:float=1e-5):
 
 
     # Combine knot vectors
-    print(knots1,knots1.max()+knots2-knots2.min())
-    new_knots = np.concatenate([knots1,knots1.max()+knots2-knots2.min()])
+    new_knots = np.concatenate([knots1[:-1],(knots1.max()+knots2-knots2.min())[degree+1:]])
 
     # Combine control points, merging the connecting points
     new_cpts = np.vstack([
-- 
2.43.0


From ccd9d15ea671cdfec3e16331a096db2d2f36fb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:23 +0000
Subject: [PATCH 032/294] fix: knot_insertion always failed on its knot vector

---
 mmcore/geom/curves/knot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index 8b5a2b9..9193502 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -449,7 +449,7 @@ def knot_insertion(degree, knotvector, ctrlpts, u, num=1, **kwargs)->tuple:
     for j in range(1, num + 1):
         L = k - degree + j
         for i in range(0, degree - j - s + 1):
-            alpha = knot_insertion_alpha_py(u, tuple(knotvector), k, i, L)
+            alpha = knot_insertion_alpha_py(u, np.array(knotvector, dtype=float), k, i, L)
             if isinstance(temp[i][0], float):
                 temp[i][:] = [alpha * elem2 + (1.0 - alpha) * elem1 for elem1, elem2 in zip(temp[i], temp[i + 1])]
             else:
-- 
2.43.0


From 7e4b0ed9af646b713cc5c6d61e64b8641bfdb3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 033/294] fix: isocurves of rational surfaces had homogeneous
 control points

---
 mmcore/numeric/intersection/ssx/boundary_intersection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/numeric/intersection/ssx/boundary_intersection.py b/mmcore/numeric/intersection/ssx/boundary_intersection.py
index 9cbedfd..3204b3f 100644
--- a/mmcore/numeric/intersection/ssx/boundary_intersection.py
+++ b/mmcore/numeric/intersection/ssx/boundary_intersection.py
@@ -266,6 +266,7 @@ def extract_isocurve(
 
             # Return curve with v-direction degree and knots since we're varying in v
 
+        control_points[:, :3] /= control_points[:, 3:]  # curves keep cartesian points
         cc=NURBSCurve(control_points, degree=surface.degree[1],knots=surface.knots_v)
         #cc.knots=surface.knots_v
 
@@ -293,6 +294,7 @@ def extract_isocurve(
         for i in range(m):  # iterate over u direction
             for j in range(degree_v + 1):  # combine with basis functions
                 control_points[i] += basis[j] * surface.control_points_w[i, span - degree_v + j]
+        control_points[:, :3] /= control_points[:, 3:]  # curves keep cartesian points
         cc = NURBSCurve(control_points, surface.degree[0],surface.knots_u)
         #print('i',cc.knots,cc.interval())
         #cc.knots = surface.knots_u
-- 
2.43.0


From df75dd0e9fb59dac899058a823d3c9883bbcaa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 034/294] fix: ruled surfaces of rational curves took their
 cartesian points as homogeneous

---
 mmcore/construction/ruled.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/construction/ruled.py b/mmcore/construction/ruled.py
index 2219680..c5f9ea2 100644
--- a/mmcore/construction/ruled.py
+++ b/mmcore/construction/ruled.py
@@ -91,6 +91,9 @@ def ruled(curve1:NURBSCurve, curve2:NURBSCurve):
         control_points[i, 0] = np.array(c1._control_points)[i]
         control_points[i, 1] = np.array(c2._control_points)[i]
 
+    # Surfaces keep homogeneous points, curves cartesian ones
+    control_points[..., :3] *= control_points[..., 3:]
+
     # Create surface knot vectors
     u_knots = c1.knots  # Same for both curves now
     v_knots = np.array([0., 0., 1., 1.])  # Linear interpolation in v direction
-- 
2.43.0


From e9b77f22504d9d7a172c84840bb0a6cbdd1e6f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 035/294] fix: hashing or comparing NURBS surfaces always
 failed

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 973fbcb..1fd6bd5 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2613,7 +2613,7 @@ cdef class NURBSSurface(ParametricSurface):
     def geometry_hash(self, check_interval=False):
         cdef bytes ku = np.ascontiguousarray(self._knots_u).tobytes()
         cdef bytes kv = np.ascontiguousarray(self._knots_v).tobytes()
-        cdef bytes pts = np.ascontiguousarray(self._control_points).tobytes()
+        cdef bytes pts = np.ascontiguousarray(self.control_points_view).tobytes()
         cdef double u0 = self._interval[0][0]
         cdef double u1 = self._interval[0][1]
         cdef double v0 = self._interval[1][0]
@@ -2622,7 +2622,7 @@ cdef class NURBSSurface(ParametricSurface):
         if check_interval:
             itms = (self._degree[0], self._degree[1],ku,kv, pts, u0,u1,v0,v1)
         else:
-            itms = (self._degree[0], self._degree[1],self._degree, ku,kv, pts)
+            itms = (self._degree[0], self._degree[1], ku,kv, pts)
         return hash(itms)
     def __hash__(self):
         return self.geometry_hash(check_interval=True)
-- 
2.43.0


From 066bd46a6dc6ba969b3d582574a1b115017f728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 036/294] fix: surfaces built from one knot array shared it and
 changed together

---
 mmcore/geom/nurbs.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 1fd6bd5..5ffd93f 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2329,11 +2329,11 @@ cdef class NURBSSurface(ParametricSurface):
         if knots_u is None:
             self.generate_knots_u()
         else:
-            self._knots_u=knots_u
+            self._knots_u=knots_u.copy()
         if knots_v is None:
             self.generate_knots_v()
         else:
-            self._knots_v=knots_v
+            self._knots_v=knots_v.copy()
         self._update_interval()
         return self
     def __init__(self, double[:,:,:] control_points, tuple degree, double[:] knots_u=None, double[:] knots_v=None ):
@@ -2365,18 +2365,18 @@ cdef class NURBSSurface(ParametricSurface):
         if knots_u is None:
             self.generate_knots_u()
         else:
-            self._knots_u=knots_u
+            self._knots_u=knots_u.copy()
         if knots_v is None:
             self.generate_knots_v()
         else:
-            self._knots_v=knots_v
+            self._knots_v=knots_v.copy()
         self._update_interval()
     @property
     def knots_u(self):
         return np.array(self._knots_u)
     @knots_u.setter
     def knots_u(self,val):
-        self._knots_u=val
+        self._knots_u=np.array(val, dtype=float)
         self._update_interval()
 
     @property
@@ -2424,7 +2424,7 @@ cdef class NURBSSurface(ParametricSurface):
 
     @knots_v.setter
     def knots_v(self,val):
-        self._knots_v=val
+        self._knots_v=np.array(val, dtype=float)
         self._update_interval()
     @property
     def degree(self):
-- 
2.43.0


From 11b0803f5d415bcc537da9934346705e72b074d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 037/294] fix: changing the degree of a surface left its old
 interval in place

---
 mmcore/geom/nurbs.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 5ffd93f..65bb587 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2436,6 +2436,7 @@ cdef class NURBSSurface(ParametricSurface):
         self._degree[1]=val[1]
         self.generate_knots_u()
         self.generate_knots_v()
+        self._update_interval()
 
 
     @cython.boundscheck(False)
-- 
2.43.0


From 6619a2d98cdb4c55dc255b7a37486f0b2939ffd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:07 +0000
Subject: [PATCH 038/294] fix: knots equal up to rounding were merged as two
 knots

---
 mmcore/construction/ruled.py |  8 ++++++--
 mmcore/geom/curves/knot.py   | 17 ++++++++++++-----
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/mmcore/construction/ruled.py b/mmcore/construction/ruled.py
index c5f9ea2..aeff67a 100644
--- a/mmcore/construction/ruled.py
+++ b/mmcore/construction/ruled.py
@@ -10,12 +10,16 @@ def merge_knot_vectors(knots1, knots2):
     """
     # Combine unique knots from both vectors
     all_knots = np.unique(np.concatenate([knots1, knots2]))
+    # Knots that differ by rounding only are one knot
+    tol = 1e-9 * (all_knots[-1] - all_knots[0])
 
     # For each knot, take maximum multiplicity from either vector
     result = []
     for knot in all_knots:
-        mult1 = np.sum(np.isclose(knots1, knot))
-        mult2 = np.sum(np.isclose(knots2, knot))
+        if result and knot - result[-1] <= tol:
+            continue
+        mult1 = np.sum(np.abs(np.asarray(knots1) - knot) <= tol)
+        mult2 = np.sum(np.abs(np.asarray(knots2) - knot) <= tol)
         result.extend([knot] * max(mult1, mult2))
 
     return np.array(result)
diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index 9193502..70b00b9 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -1102,12 +1102,15 @@ def refine_curve(curve, new_knots):
 
 
     old=np.copy(curve.knots)
+    # Knots that differ by rounding only are one knot
+    tol = 1e-9 * (old[-1] - old[0])
     for i,k in enumerate(new_knots):
 
-        if old[0]>k:
+        if old[0] - k > tol:
 
-
-            curve.insert_knot(k,1)
+            # Raise the multiplicity of a knot that is already there
+            same = curve.knots[np.abs(curve.knots - k) <= tol]
+            curve.insert_knot(same[0] if len(same) else k, 1)
         else:
             old=np.delete(old,0)
 
@@ -1181,12 +1184,16 @@ def merge_knot_vectors(knots1, knots2):
     """
     # Combine unique knots from both vectors
     all_knots = np.unique(np.concatenate([knots1, knots2]))
+    # Knots that differ by rounding only are one knot
+    tol = 1e-9 * (all_knots[-1] - all_knots[0])
 
     # For each knot, take maximum multiplicity from either vector
     result = []
     for knot in all_knots:
-        mult1 = np.sum(np.isclose(knots1, knot))
-        mult2 = np.sum(np.isclose(knots2, knot))
+        if result and knot - result[-1] <= tol:
+            continue
+        mult1 = np.sum(np.abs(np.asarray(knots1) - knot) <= tol)
+        mult2 = np.sum(np.abs(np.asarray(knots2) - knot) <= tol)
         result.extend([knot] * max(mult1, mult2))
 
     return np.array(result)
-- 
2.43.0


From 46b5efd4a4ca38244adba83d5353cdbf66308770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 039/294] fix: NURBSCurve.set kept the arrays of the caller

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 65bb587..4f8efae 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1539,8 +1539,8 @@ cdef class NURBSCurve(ParametricCurve):
 
 
     cpdef set(self, double[:,:] control_points, double[:] knots ):
-        self._control_points=control_points
-        self._knots=knots
+        self._control_points=control_points.copy()
+        self._knots=knots.copy()
         self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
-- 
2.43.0


From 2dd1847af4d4724ae65e36989074857a7355bf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 040/294] fix: assigning NURBSCurve.control_points always
 failed

---
 mmcore/geom/nurbs.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 4f8efae..763c672 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1326,12 +1326,13 @@ cdef class NURBSCurve(ParametricCurve):
                              "If you know what you are doing, assign control points directly by setting the _control_points attribute value. "
                              "However, you will have to clear caches, update the knots and possibly the periodicity.")
 
+        cdef double[:,:] cpts = np.asarray(control_points, dtype=np.float64)
         self._control_points = np.ones((control_points.shape[0],4))
         if control_points.shape[1]==4:
-                self._control_points[:]=control_points
+                self._control_points[:]=cpts
         else:
 
-                self._control_points[:, :control_points.shape[1]] = control_points
+                self._control_points[:, :control_points.shape[1]] = cpts
 
         self._evaluate_cached.cache_clear()
 
-- 
2.43.0


From ec547854eb63a766cf464541b650f255407eb18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:30 +0000
Subject: [PATCH 041/294] fix: pickling a periodic curve whose ends were edited
 changed it

---
 mmcore/geom/nurbs.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 763c672..4f13d01 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1186,7 +1186,8 @@ cdef class NURBSCurve(ParametricCurve):
         self._control_points=np.zeros((0,4))
         self._interval=np.zeros((2,))
     def __reduce__(self):
-        return (NURBSCurve, (np.asarray(self._control_points),self._degree,  np.asarray(self._knots),  self._periodic))
+        # Restored as it is: the constructor would wrap the points of a periodic curve again
+        return (NURBSCurve, (np.asarray(self._control_points),self._degree,  np.asarray(self._knots),  False), self.__getstate__())
     def __init__(self, double[:,:] control_points, int degree=3, double[:] knots=None, bint periodic=0):
 
         self._degree = degree
@@ -1279,10 +1280,10 @@ cdef class NURBSCurve(ParametricCurve):
     def __getstate__(self):
         state=dict()
         state['_control_points']=np.asarray(self._control_points)
-        state['_knots'] = np.asarray(self._knots)
+        state['_knots'] = np.array(self._knots)
         state['_degree'] = self._degree
         state['_periodic']=self._periodic
-        state['_interval']=np.asarray(self._interval)
+        state['_interval']=np.array(self._interval)
         state['_weights'] = np.asarray(self.weights)
         return state
 
-- 
2.43.0


From 43eedd403e72f0ee61acb6e9c7ae73a862cfa8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:55 +0000
Subject: [PATCH 042/294] fix: splitting or inserting a knot next to an
 existing knot gave garbage

---
 mmcore/geom/nurbs.pxd | 11 +++++++++++
 mmcore/geom/nurbs.pyx |  8 +++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pxd b/mmcore/geom/nurbs.pxd
index 87ce4f7..cc5e9ab 100644
--- a/mmcore/geom/nurbs.pxd
+++ b/mmcore/geom/nurbs.pxd
@@ -284,6 +284,17 @@ cdef inline int find_multiplicity(double knot, double[:] knot_vector, double tol
             mult += 1
     return mult
 
+@cython.boundscheck(False)
+@cython.wraparound(False)
+@cython.cdivision(True)
+cdef inline double snap_to_knot(double t, double[:] knot_vector) noexcept nogil:
+    # The knot that find_multiplicity takes t for: the span has to be searched for the same value
+    cdef int i
+    for i in range(knot_vector.shape[0]):
+        if fabs(t - knot_vector[i]) <= calc_epsilon(knot_vector[i]):
+            return knot_vector[i]
+    return t
+
 @cython.boundscheck(False)
 @cython.wraparound(False)
 cdef inline double knot_insertion_alpha(double u, double[:] knotvector, int span, int idx, int leg)  noexcept nogil:
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 4f13d01..2cc6dc3 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1771,6 +1771,7 @@ cdef class NURBSCurve(ParametricCurve):
         """
 
         # Start curve knot insertion
+        t = snap_to_knot(t, self._knots)
         cdef int n = self._control_points.shape[0]
         cdef int new_count = n + count
         cdef double[:,:] cpts = self._control_points.copy()
@@ -2154,6 +2155,7 @@ cpdef tuple split_curve(NURBSCurve obj, double param, double tol=1e-7,bint norma
 
         raise ValueError("Cannot split from the domain edge ")
 
+    param = snap_to_knot(param, knotvector)
     ks = find_span_inline(n_ctrlpts , degree, param, knotvector, 0) - degree + 1
 
     s = find_multiplicity(param, knotvector,1e-12)
@@ -2239,6 +2241,7 @@ cpdef tuple split_curve2(NURBSCurve obj, double param, double tol=1e-12):
         fabs(param - obj._interval[0]) <= tol or fabs(param - obj._interval[1]) <= tol):
         raise ValueError("Cannot split from the domain edge")
 
+    param = snap_to_knot(param, knotvector)
     ks = find_span_inline(n_ctrlpts, degree, param, knotvector, 0) - degree + 1
     s = find_multiplicity(param, knotvector, 1e-12)
     r = degree - s
@@ -2648,6 +2651,7 @@ cdef class NURBSSurface(ParametricSurface):
     @cython.cdivision(True)
     cpdef void insert_knot_u(self, double t, int count):
         cdef int v
+        t = snap_to_knot(t, self._knots_u)
 
         cdef int new_count_u = self._size[0] + count
         cdef int new_count_v = self._size[1]
@@ -2708,7 +2712,7 @@ cdef class NURBSSurface(ParametricSurface):
     @cython.cdivision(True)
     cpdef void insert_knot_v(self, double t, int count) :
         cdef int u
-
+        t = snap_to_knot(t, self._knots_v)
 
         cdef int new_count_u = self._size[0]
         cdef int new_count_v = self._size[1] + count
@@ -2768,6 +2772,7 @@ cpdef tuple split_surface_u(NURBSSurface obj, double param, double tol=1e-7) :
 
 
         raise ValueError("Cannot split from the domain edge")
+    param = snap_to_knot(param, knots_u)
     ks = find_span_inline(size_u, degree_u, param, knots_u, 0) - degree_u + 1
     s = find_multiplicity(param, knots_u, 1e-12)
     r = degree_u - s
@@ -2837,6 +2842,7 @@ cpdef tuple split_surface_v(NURBSSurface obj, double param,double tol=1e-7) :
     if param <= obj._interval[1][0] or param >= obj._interval[1][1] or fabs(param - obj._interval[1][0]) <= tol or fabs(
             param - obj._interval[1][1]) <= tol:
         raise ValueError("Cannot split from the domain edge")
+    param = snap_to_knot(param, knots_v)
     ks = find_span_inline(size_v, degree_v, param, knots_v, 0) - degree_v + 1
     s = find_multiplicity(param, knots_v,1e-12)
     r = degree_v - s
-- 
2.43.0


From 61e04e7adc85a56e4198a8303141afd7982be1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:41 +0000
Subject: [PATCH 043/294] fix: second derivatives of a surface were halved at
 the ends of its domain

---
 mmcore/geom/parametric.pyx | 76 ++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 41 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index de37217..f55b7e6 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -306,6 +306,17 @@ cdef class ReparametrizedCurve(ParametricCurve):
         self.curve=curve
 
 
+@cython.cdivision(True)
+cdef inline double stencil_center(double t, double start, double end) noexcept nogil:
+    if end - start <= 2 * DEFAULT_H:
+        return (start + end) / 2
+    if t < start + DEFAULT_H:
+        return start + DEFAULT_H
+    if t > end - DEFAULT_H:
+        return end - DEFAULT_H
+    return t
+
+
 cdef class ParametricSurface:
 
     def __init__(self):
@@ -373,53 +384,36 @@ cdef class ParametricSurface:
     @cython.initializedcheck(False)
     cdef void csecond_derivative_uu(self, double u, double v,double[:] result):
         cdef double[:] dd=np.empty((3,))
-        if (1. - DEFAULT_H) >= u >= DEFAULT_H:
-            self.cderivative_u(u + DEFAULT_H, v, dd)
-            self.cderivative_u(u- DEFAULT_H , v, result)
-            sub3d(dd,result,result)
-            vectors.scalar_div3d(result,2*DEFAULT_H,result)
-
-        elif u < DEFAULT_H:
-
-
-            self.cderivative_u(u + DEFAULT_H, v, dd)
-            self.cderivative_u(u , v, result)
-            sub3d(dd,result,result)
-            vectors.scalar_div3d(result,DEFAULT_H,result)
-
-
-        else:
-            self.cderivative_u(u , v, dd)
-            self.cderivative_u(u- DEFAULT_H, v, result)
-            sub3d(dd, result, result)
-            vectors.scalar_div3d(result, DEFAULT_H, result)
+        # The stencil stays inside the domain: its centre moves instead of its ends
+        cdef double c = stencil_center(u, self._interval[0][0], self._interval[0][1])
+        cdef int k
+        self.cevaluate(c, v, result)
+        for k in range(3):
+            result[k] = -2. * result[k]
+        self.cevaluate(c + DEFAULT_H, v, dd)
+        for k in range(3):
+            result[k] += dd[k]
+        self.cevaluate(c - DEFAULT_H, v, dd)
+        for k in range(3):
+            result[k] = (result[k] + dd[k]) / (DEFAULT_H * DEFAULT_H)
     @cython.boundscheck(False)
     @cython.wraparound(False)
     @cython.cdivision(True)
     @cython.initializedcheck(False)
     cdef void csecond_derivative_vv(self, double u, double v,double[:] result):
         cdef double[:] dd=np.empty((3,))
-        if (1. - DEFAULT_H) >= v >= DEFAULT_H:
-            self.cderivative_v(u , v+ DEFAULT_H, dd)
-            self.cderivative_v(u , v- DEFAULT_H, result)
-            sub3d(dd,result,result)
-            vectors.scalar_div3d(result,2*DEFAULT_H,result)
-
-        elif v< DEFAULT_H:
-
-
-            self.cderivative_v(u , v+ DEFAULT_H, dd)
-            self.cderivative_v(u , v, result)
-            sub3d(dd,result,result)
-            vectors.scalar_div3d(result,DEFAULT_H,result)
-
-
-        else:
-            self.cderivative_v(u , v, dd)
-            self.cderivative_v(u, v- DEFAULT_H, result)
-            sub3d(dd, result, result)
-            vectors.scalar_div3d(result, DEFAULT_H, result)
-
+        # The stencil stays inside the domain: its centre moves instead of its ends
+        cdef double c = stencil_center(v, self._interval[1][0], self._interval[1][1])
+        cdef int k
+        self.cevaluate(u, c, result)
+        for k in range(3):
+            result[k] = -2. * result[k]
+        self.cevaluate(u, c + DEFAULT_H, dd)
+        for k in range(3):
+            result[k] += dd[k]
+        self.cevaluate(u, c - DEFAULT_H, dd)
+        for k in range(3):
+            result[k] = (result[k] + dd[k]) / (DEFAULT_H * DEFAULT_H)
     @cython.boundscheck(False)
     @cython.wraparound(False)
     @cython.cdivision(True)
-- 
2.43.0


From f082190d227c68e76825af870534ad838a5f94d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:00 +0000
Subject: [PATCH 044/294] fix: plane_at of a surface always failed

---
 mmcore/geom/parametric.pyx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index f55b7e6..18ac4e1 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -450,13 +450,16 @@ cdef class ParametricSurface:
     @cython.cdivision(True)
     @cython.initializedcheck(False)
     cdef void cplane_at(self, double u, double v, double[:,:] result):
-
+        cdef double[:] axis
         orig = self.cevaluate(u, v,result[0] )
         self.cderivative_u(u,v,result[1])
-        result[1,:] = vectors.scalar_unit(result[1])
+        axis = vectors.scalar_unit(result[1])
+        result[1,:] = axis
         self.cderivative_v(u,v,result[3])
-        result[3,:] = vectors.scalar_unit(vectors.scalar_cross(result[1], result[3] ))
-        result[2,:] = vectors.scalar_cross(result[3], result[1])
+        axis = vectors.scalar_unit(vectors.scalar_cross(result[1], result[3] ))
+        result[3,:] = axis
+        axis = vectors.scalar_cross(result[3], result[1])
+        result[2,:] = axis
     @cython.boundscheck(False)
     @cython.wraparound(False)
     @cython.cdivision(True)
-- 
2.43.0


From 6347413ec63ef58f548a6f183b797c2e881c59c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:00 +0000
Subject: [PATCH 045/294] fix: calling a curve with one parameter in an array
 failed

---
 mmcore/geom/parametric.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index 18ac4e1..b87ae32 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -293,7 +293,7 @@ cdef class ParametricCurve:
                 self.cevaluate(t[i],res[i])
             return res
         else:
-            self.cevaluate(t,res[0])
+            self.cevaluate(t if isinstance(t,(float,int)) else t[0],res[0])
             return res
         
 
-- 
2.43.0


From 8a39a455745cd9c22adc32de2920b0400ed024e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:00 +0000
Subject: [PATCH 046/294] fix: surface_deriv_cpts skipped the highest u
 derivatives and overran its buffer

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 2cc6dc3..cfbbf90 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -843,7 +843,7 @@ cpdef void surface_deriv_cpts(int dim, int[:] degree, double[:] kv0, double[:] k
     cdef int i, j, k, l, d,dd
     cdef double[:, :, :] PKu = np.zeros((du + 1, r + 1, dim), dtype=np.double)
     cdef double[:, :, :] PKuv = np.zeros((dv + 1, s + 1, dim), dtype=np.double)
-    cdef double[:, :] temp_cpts = np.zeros((cpsize[0], dim), dtype=np.double)
+    cdef double[:, :] temp_cpts = np.zeros((max(cpsize[0], cpsize[1]), dim), dtype=np.double)
 
     # Control points of the U derivatives of every U-curve
     for j in range(ss[0], ss[1] + 1):
@@ -859,7 +859,7 @@ cpdef void surface_deriv_cpts(int dim, int[:] degree, double[:] kv0, double[:] k
                     PKL[k, 0, i, j - ss[0], d] = PKu[k, i, d]
 
     # Control points of the V derivatives of every U-differentiated V-curve
-    for k in range(du):
+    for k in range(du + 1):
         for i in range(r - k + 1):
             dd = min(deriv_order - k, dv)
 
-- 
2.43.0


From 3c13941580a0e0532b5a0cb1066f5664e485a0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:00 +0000
Subject: [PATCH 047/294] fix: the interval of an unclamped surface exceeded
 its domain

---
 mmcore/geom/nurbs.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index cfbbf90..fe30729 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2447,10 +2447,10 @@ cdef class NURBSSurface(ParametricSurface):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     cdef void _update_interval(self) :
-        self._interval[0][0] = self._knots_u[0]
-        self._interval[0][1] = self._knots_u[self._knots_u.shape[0]-1]
-        self._interval[1][0] = self._knots_v[0]
-        self._interval[1][1] = self._knots_v[self._knots_v.shape[0]-1]
+        self._interval[0][0] = self._knots_u[self._degree[0]]
+        self._interval[0][1] = self._knots_u[self._knots_u.shape[0]-1-self._degree[0]]
+        self._interval[1][0] = self._knots_v[self._degree[1]]
+        self._interval[1][1] = self._knots_v[self._knots_v.shape[0]-1-self._degree[1]]
     @cython.boundscheck(False)
     @cython.wraparound(False)
     @cython.cdivision(True)
-- 
2.43.0


From 3f202d04648297bd8fac1f7969101004ac8825e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:25 +0000
Subject: [PATCH 048/294] fix: surface derivatives at the end of the domain
 were taken outside it

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index fe30729..6f818df 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -982,7 +982,7 @@ cdef void surface_derivatives(int[2] degree, double[:] knots_u,  double[:] knots
     cdef int basisdrv_size_u, basisdrv_size_v
 
     # Allocate memory and compute basis function derivatives for u and v directions
-    span[0] = find_span_inline(size[0], degree[0], u, knots_u, 0)
+    span[0] = find_span_inline(size[0] - 1, degree[0], u, knots_u, 0)
     basisdrv_size_u = (d[0] + 1) * (degree[0] + 1)
     basisdrv_u = <double*>malloc(basisdrv_size_u * sizeof(double))
     with gil:
@@ -990,7 +990,7 @@ cdef void surface_derivatives(int[2] degree, double[:] knots_u,  double[:] knots
 
         ders_basis_funs(span[0], u, degree[0], d[0], knots_u, mbasisdrv_u)
 
-    span[1] = find_span_inline(size[1], degree[1], v, knots_v, 0)
+    span[1] = find_span_inline(size[1] - 1, degree[1], v, knots_v, 0)
     basisdrv_size_v = (d[1] + 1) * (degree[1] + 1)
     basisdrv_v = <double*>malloc(basisdrv_size_v * sizeof(double))
     with gil:
-- 
2.43.0


From 092e0d77ee61f9f1d17748cf5341c19d8b023476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:06 +0000
Subject: [PATCH 049/294] fix: subdivide_surface with normalize_knots took v
 for a normalized parameter

---
 mmcore/geom/nurbs.pyx | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 6f818df..f758a52 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2905,10 +2905,6 @@ cpdef tuple subdivide_surface(NURBSSurface surface, double u=0.5,double v=0.5,do
     cdef NURBSSurface surf1, surf2, surf11, surf12, surf21, surf22
     surf1= surfs1[0]
     surf2 = surfs1[1]
-    if normalize_knots:
-        surf1.normalize_knots()
-        surf2.normalize_knots()
-
 
     surf11, surf12 = split_surface_v(surf1,v,tol)
     surf21, surf22 = split_surface_v(surf2,v,tol)
-- 
2.43.0


From a2ecb85255e3c7893fc5923b4714e236eefcfc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:06 +0000
Subject: [PATCH 050/294] fix: decompose_surface ignored normalize_knots

---
 mmcore/geom/nurbs.pyx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index f758a52..b3d0c43 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2939,6 +2939,12 @@ cdef inline list decompose_direction(NURBSSurface srf, int idx,double tol=1e-7):
 @cython.boundscheck(False)
 @cython.cdivision(True)
 def decompose_surface(surface, decompose_dir="uv",normalize_knots=False):
+    def normalized(srf_list):
+        if normalize_knots:
+            for srf in srf_list:
+                srf.normalize_knots()
+        return srf_list
+
     def decompose_direction(srf, idx):
         srf_list = []
         knots = srf.knots_u if idx == 0 else srf.knots_v
@@ -2966,11 +2972,11 @@ def decompose_surface(surface, decompose_dir="uv",normalize_knots=False):
     if decompose_dir == "u":
         surfs_u=decompose_direction(surf, 0)
 
-        return surfs_u
+        return normalized(surfs_u)
     elif decompose_dir == "v":
         surfs_v=decompose_direction(surf, 1)
 
-        return surfs_v
+        return normalized(surfs_v)
 
 
     elif decompose_dir == "uv":
@@ -2982,7 +2988,7 @@ def decompose_surface(surface, decompose_dir="uv",normalize_knots=False):
             dsf=decompose_direction(sfu, 1)
 
             multi_surf+=dsf
-        return multi_surf
+        return normalized(multi_surf)
     else:
         raise ValueError(
             f"Cannot decompose in {decompose_dir} direction. Acceptable values: u, v, uv"
-- 
2.43.0


From b068dc1b7b742d54f2fb605bfebb964d9f91ad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:06 +0000
Subject: [PATCH 051/294] fix: the degree of a surface was a view of the memory
 of the surface

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index b3d0c43..87e249d 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2433,8 +2433,8 @@ cdef class NURBSSurface(ParametricSurface):
         self._update_interval()
     @property
     def degree(self):
-        cdef int[:] dg=self._degree
-        return dg
+        # A copy: a view would outlive the surface
+        return (self._degree[0], self._degree[1])
     @degree.setter
     def degree(self, val):
         self._degree[0]=val[0]
-- 
2.43.0


From 4d89da6092a56dbeb7329d0cf79eea36dbf08db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:44 +0000
Subject: [PATCH 052/294] fix: STEP numbers in exponent notation were written
 without a decimal point

ISO 10303-21 requires one (and an upper case E); numpy floats came out as 1e-05.
---
 mmcore/compat/step/step_writer.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/mmcore/compat/step/step_writer.py b/mmcore/compat/step/step_writer.py
index 5a42245..67823b0 100644
--- a/mmcore/compat/step/step_writer.py
+++ b/mmcore/compat/step/step_writer.py
@@ -152,6 +152,21 @@ FALSE=p21.Enumeration(".F.")
 TRUE=p21.Enumeration(".T.")
 
 
+class Real(float):
+    """A number written as a REAL of ISO 10303-21: always with a decimal point, the exponent in upper case."""
+
+    def __str__(self):
+        mantissa, e, exponent = float.__repr__(self).partition('e')
+        return mantissa + ('' if '.' in mantissa else '.') + e.upper() + exponent
+
+
+def real(value):
+    """The numbers of a (nested) sequence as REALs."""
+    if isinstance(value, (int, float)):
+        return Real(value)
+    return tuple(real(x) for x in value)
+
+
 def get_knot_multiplicities(knots):
     unique_knots = []
     multiplicities = []
@@ -273,7 +288,7 @@ class StepWriter:
                                               FALSE,
                                               FALSE,
                                               mult,
-                                              unique_knots,
+                                              real(unique_knots),
                                               UNSPECIFIED
                                             )
                                           )
@@ -391,7 +406,7 @@ class StepWriter:
         p21.entity('SOLID_ANGLE_UNIT', ())]
         )
 
-        UNCERTAINTY_MEASURE_WITH_UNIT=self.add_entity(p21.entity('UNCERTAINTY_MEASURE_WITH_UNIT',(p21.entity('LENGTH_MEASURE',(self.tolerance,)),LENGTH_UNITS,'','maximum tolerance')))
+        UNCERTAINTY_MEASURE_WITH_UNIT=self.add_entity(p21.entity('UNCERTAINTY_MEASURE_WITH_UNIT',(p21.entity('LENGTH_MEASURE',(Real(self.tolerance),)),LENGTH_UNITS,'','maximum tolerance')))
 
         return (LENGTH_UNITS,ANGLE_UNITS,p59,UNCERTAINTY_MEASURE_WITH_UNIT)
     def add_context3(self):
@@ -428,17 +443,17 @@ class StepWriter:
     def add_cartesian_point(self, pt,name:str=''):
         if not (len(pt)==2 or len(pt)==3):
             raise ValueError(f"{self.__class__.__name__}.add_cartesian_point: cartesian point may be 2d or 3d. {len(pt)}d exist ({pt}).")
-        return self.add_entity(p21.Entity(CARTESIAN_POINT, (name,tuple(pt))))
+        return self.add_entity(p21.Entity(CARTESIAN_POINT, (name,real(pt))))
     def add_direction(self, v,name:str=''):
         if not (len(v)==2 or len(v)==3):
             raise ValueError(f"{self.__class__.__name__}.add_direction: direction may be 2d or 3d. {len(v)}d exist ({v}).")
-        return self.add_entity(p21.Entity('DIRECTION', (name,tuple(v))))
+        return self.add_entity(p21.Entity('DIRECTION', (name,real(v))))
 
     def add_surface_style(self, shell_based_surface_model,color=(0.5,0.5,0.5)):
         _492=self.add_manifold_surface_shape_representation((shell_based_surface_model,self.world_plane[-1]),self._context3)
         _493 = self.add_entity(p21.entity("SHAPE_DEFINITION_REPRESENTATION", (self._8, _492)))
         _494 = self.add_entity(p21.entity("PRODUCT_RELATED_PRODUCT_CATEGORY", ('part', p21.UnsetParameter('$'), (self._4,))))
-        _501 = self.add_entity(p21.entity("COLOUR_RGB", ('', *color)))
+        _501 = self.add_entity(p21.entity("COLOUR_RGB", ('', *real(color))))
         _502 = self.add_entity(p21.entity("FILL_AREA_STYLE_COLOUR", ('', _501)))
         _500 = self.add_entity(p21.entity("FILL_AREA_STYLE", ('', (_502,))))
         _499 = self.add_entity(p21.entity("SURFACE_STYLE_FILL_AREA", (_500,)))
@@ -486,7 +501,7 @@ class StepWriter:
                                 name,
                                 int(surf.degree[0]),int(surf.degree[1]),
                                 [[self.add_cartesian_point(pt) for pt in pts] for pts in surf.control_points],
-                                UNSPECIFIED,FALSE,FALSE,FALSE, mult_u,mult_v,unique_knots_u,unique_knots_v,UNSPECIFIED
+                                UNSPECIFIED,FALSE,FALSE,FALSE, mult_u,mult_v,real(unique_knots_u),real(unique_knots_v),UNSPECIFIED
                                 )
                             )
                         ),
-- 
2.43.0


From 072c0558549dce2d92f8eee6e7402b5abdf4ea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:44 +0000
Subject: [PATCH 053/294] fix: the edge loop of a surface written to STEP was
 not a loop

The four boundaries were listed u0, u1, v0, v1, all in their own direction.
---
 mmcore/compat/step/step_writer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmcore/compat/step/step_writer.py b/mmcore/compat/step/step_writer.py
index 67823b0..d23d4b8 100644
--- a/mmcore/compat/step/step_writer.py
+++ b/mmcore/compat/step/step_writer.py
@@ -481,7 +481,7 @@ class StepWriter:
 
         unique_knots_u, mult_u = get_knot_multiplicities(surf.knots_u.tolist())
         unique_knots_v, mult_v = get_knot_multiplicities(surf.knots_v.tolist())
-        boundaries=extract_surface_boundaries(surf)
+        u0, u1, v0, v1 = extract_surface_boundaries(surf)
         shell= self.add_shell_based_surface_model(
                 (self.add_open_shell(
                     (self.add_advanced_face(
@@ -493,8 +493,9 @@ class StepWriter:
                                     self.add_cartesian_point(tuple(boundary.start())),
                                     self.add_cartesian_point(tuple(boundary.end())),
                                     self.add_b_spline_curve_with_knots(boundary)
-                                )
-                            ) for boundary in boundaries])),
+                                ),
+                                orientation=orientation
+                            ) for boundary, orientation in ((v0, True), (u1, True), (v1, False), (u0, False))])),
                         ),
                         self.add_entity(
                             p21.entity('B_SPLINE_SURFACE_WITH_KNOTS',(
-- 
2.43.0


From 745e79ac41915bf7605888b2a098360204c71b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:44 +0000
Subject: [PATCH 054/294] fix: rational curves and surfaces lost their weights
 when written to STEP

---
 mmcore/compat/step/step_writer.py | 42 +++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/mmcore/compat/step/step_writer.py b/mmcore/compat/step/step_writer.py
index d23d4b8..1ae2fc2 100644
--- a/mmcore/compat/step/step_writer.py
+++ b/mmcore/compat/step/step_writer.py
@@ -279,6 +279,17 @@ class StepWriter:
 
     def add_b_spline_curve_with_knots(self, curve:NURBSCurve, name:str=''):
         unique_knots,mult= get_knot_multiplicities(curve.knots.tolist())
+        weights = curve.weights.tolist()
+        if any(w != weights[0] for w in weights):
+            return self.add_complex_entity([
+                p21.entity('BOUNDED_CURVE', ()),
+                p21.entity('B_SPLINE_CURVE', (int(curve.degree), [self.add_cartesian_point(pt) for pt in curve.control_points], UNSPECIFIED, FALSE, FALSE)),
+                p21.entity('B_SPLINE_CURVE_WITH_KNOTS', (mult, real(unique_knots), UNSPECIFIED)),
+                p21.entity('CURVE', ()),
+                p21.entity('GEOMETRIC_REPRESENTATION_ITEM', ()),
+                p21.entity('RATIONAL_B_SPLINE_CURVE', (real(weights),)),
+                p21.entity('REPRESENTATION_ITEM', (name,)),
+            ])
         return self.add_entity(p21.entity('B_SPLINE_CURVE_WITH_KNOTS',
                                           (
                                               name,
@@ -477,10 +488,27 @@ class StepWriter:
         self.step_file.data[0].instances.update({entity_id:p21.complex_entity_instance(entity_id, entities)})
         return entity_id
 
-    def add_nurbs_surface(self, surf:NURBSSurface,color=(0.5,0.5,0.5), name:str=''):
-
+    def add_b_spline_surface_with_knots(self, surf:NURBSSurface, name:str=''):
         unique_knots_u, mult_u = get_knot_multiplicities(surf.knots_u.tolist())
         unique_knots_v, mult_v = get_knot_multiplicities(surf.knots_v.tolist())
+        degree = int(surf.degree[0]), int(surf.degree[1])
+        points = [[self.add_cartesian_point(pt) for pt in pts] for pts in surf.control_points]
+        knots = mult_u, mult_v, real(unique_knots_u), real(unique_knots_v), UNSPECIFIED
+        weights = [[pt[3] for pt in pts] for pts in surf.control_points_w]
+        if any(w != weights[0][0] for row in weights for w in row):
+            return self.add_complex_entity([
+                p21.entity('BOUNDED_SURFACE', ()),
+                p21.entity('B_SPLINE_SURFACE', (*degree, points, UNSPECIFIED, FALSE, FALSE, FALSE)),
+                p21.entity('B_SPLINE_SURFACE_WITH_KNOTS', knots),
+                p21.entity('GEOMETRIC_REPRESENTATION_ITEM', ()),
+                p21.entity('RATIONAL_B_SPLINE_SURFACE', (real(weights),)),
+                p21.entity('REPRESENTATION_ITEM', (name,)),
+                p21.entity('SURFACE', ()),
+            ])
+        return self.add_entity(p21.entity('B_SPLINE_SURFACE_WITH_KNOTS', (name, *degree, points, UNSPECIFIED, FALSE, FALSE, FALSE, *knots)))
+
+    def add_nurbs_surface(self, surf:NURBSSurface,color=(0.5,0.5,0.5), name:str=''):
+
         u0, u1, v0, v1 = extract_surface_boundaries(surf)
         shell= self.add_shell_based_surface_model(
                 (self.add_open_shell(
@@ -497,15 +525,7 @@ class StepWriter:
                                 orientation=orientation
                             ) for boundary, orientation in ((v0, True), (u1, True), (v1, False), (u0, False))])),
                         ),
-                        self.add_entity(
-                            p21.entity('B_SPLINE_SURFACE_WITH_KNOTS',(
-                                name,
-                                int(surf.degree[0]),int(surf.degree[1]),
-                                [[self.add_cartesian_point(pt) for pt in pts] for pts in surf.control_points],
-                                UNSPECIFIED,FALSE,FALSE,FALSE, mult_u,mult_v,real(unique_knots_u),real(unique_knots_v),UNSPECIFIED
-                                )
-                            )
-                        ),
+                        self.add_b_spline_surface_with_knots(surf, name),
                         TRUE,
                         name
                     ),
-- 
2.43.0


From d9268ed3550d19986d37e68193f9b9a53214aab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:44 +0000
Subject: [PATCH 055/294] fix: deserialize accepted a degree that does not
 match the points and knots

Evaluating such a curve read beyond its control points.
---
 mmcore/geom/nurbs.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 87e249d..7affd25 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2011,6 +2011,8 @@ cdef class NURBSCurve(ParametricCurve):
             raise TypeError("Input must be bytes or bytearray")
         if len(data) < 24 or len(data) < 24 + 8 * (4 * int.from_bytes(data[16:20], 'little') + int.from_bytes(data[20:24], 'little')):
             raise ValueError("Truncated NURBS curve data")
+        if int.from_bytes(data[20:24], 'little') != int.from_bytes(data[16:20], 'little') + int.from_bytes(data[8:12], 'little') + 1:
+            raise ValueError("Inconsistent NURBS curve data: the number of knots must be the number of control points + degree + 1")
         return NURBSCurve.cdeserialize(data)
     @cython.boundscheck(False)
     @cython.wraparound(False)
-- 
2.43.0


From 4cd58775ac44310cfeb17a18fb88f04c4ca2be2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:12 +0000
Subject: [PATCH 056/294] fix: aabb allocates a box of the dimension of the
 points

---
 mmcore/numeric/_aabb.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/_aabb.pyx b/mmcore/numeric/_aabb.pyx
index 8b386e4..82c2cbf 100644
--- a/mmcore/numeric/_aabb.pyx
+++ b/mmcore/numeric/_aabb.pyx
@@ -83,7 +83,7 @@ cdef inline void caabb(double[:,:] points, double[:] min_point, double[:] max_po
 @cython.cdivision(True)
 def aabb(double[:,:] pts, double[:,:] bb=None):
     if bb is None:
-        bb   =np.zeros((2,3))
+        bb   =np.zeros((2,pts.shape[1]))
 
     caabb(pts,bb[0],bb[1])
     return bb
-- 
2.43.0


From e790f7a678679a8550a46106fa75ffea5101677a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:12 +0000
Subject: [PATCH 057/294] fix: aabb_intersection reads and writes as many
 coordinates as the boxes have

---
 mmcore/numeric/_aabb.pyx | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/_aabb.pyx b/mmcore/numeric/_aabb.pyx
index 82c2cbf..be0a840 100644
--- a/mmcore/numeric/_aabb.pyx
+++ b/mmcore/numeric/_aabb.pyx
@@ -140,6 +140,20 @@ def aabb_intersect(double[:,:] bb1, double[:,:] bb2):
 @cython.cdivision(True)
 @cython.initializedcheck(False)
 @cython.nonecheck(True)
+cdef inline bint caabb_intersection(double[:,:] self, double[:,:] other, double[:,:] result) noexcept nogil:
+    cdef Py_ssize_t i
+    for i in range(self.shape[1]):
+        if fmax(self[0][i], other[0][i]) > fmin(self[1][i], other[1][i]):
+            return 0
+    for i in range(self.shape[1]):
+        result[0,i]=fmax(self[0][i], other[0][i])
+        result[1,i]=fmin(self[1][i], other[1][i])
+    return 1
+@cython.boundscheck(False)
+@cython.wraparound(False)
+@cython.cdivision(True)
+@cython.initializedcheck(False)
+@cython.nonecheck(True)
 cdef inline bint caabb_intersection_3d(double[:,:] self, double[:,:] other, double[:,:] result) noexcept nogil:
     cdef double max_min_x = fmax(self[0][0], other[0][0])
     cdef double max_min_y = fmax(self[0][1], other[0][1])
@@ -169,8 +183,11 @@ cdef inline bint caabb_intersection_3d(double[:,:] self, double[:,:] other, doub
 def aabb_intersection(double[:,:] bb1, double[:,:] bb2, double[:,:] result=None):
     cdef bint success
     if result is None:
-        result = np.zeros((2,3))
-    success=caabb_intersection_3d(bb1,bb2,result)
+        result = np.zeros((2,bb1.shape[1]))
+    if bb1.shape[1]==3:
+        success=caabb_intersection_3d(bb1,bb2,result)
+    else:
+        success=caabb_intersection(bb1,bb2,result)
     if success:
         return result
     else:
-- 
2.43.0


From 6e28c3acee1a496fe2371c441685cd09bc8a2ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:12 +0000
Subject: [PATCH 058/294] fix: ray_aabb_intersect treats the ray as unbounded,
 not as a unit segment

---
 mmcore/numeric/_aabb.pyx | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mmcore/numeric/_aabb.pyx b/mmcore/numeric/_aabb.pyx
index be0a840..55ab665 100644
--- a/mmcore/numeric/_aabb.pyx
+++ b/mmcore/numeric/_aabb.pyx
@@ -320,8 +320,6 @@ def ray_aabb_intersect(
 
             if tmin<= 0:
                 tmin = 0.
-            if tmax >= 1.:
-                tmax = 1.
             return [tmin,tmax]
 
     else:
-- 
2.43.0


From 171dfdacacbdee440d1d2fc6faaf6a6305585301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:12 +0000
Subject: [PATCH 059/294] fix: BoundingBox.split cuts between the two corners
 and returns consistent boxes

---
 mmcore/geom/bvh/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index ba4fcb0..53bf489 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -30,10 +30,9 @@ class BoundingBox:
         self._arr=np.array([self.min_point, self.max_point], dtype=float)
 
     def split(self, axis=0, parameter=0.5):
-        left = BoundingBox(np.copy(self.min_point), np.copy(self.max_point))
-        right = BoundingBox(np.copy(self.min_point), np.copy(self.max_point))
-        right.min_point[axis] = left.max_point[axis] = (self.min_point[axis] + self.max_point[axis])*parameter
-        return left, right
+        left_max, right_min = np.copy(self.max_point), np.copy(self.min_point)
+        left_max[axis] = right_min[axis] = self.min_point[axis] + (self.max_point[axis] - self.min_point[axis])*parameter
+        return BoundingBox(self.min_point, left_max), BoundingBox(right_min, self.max_point)
 
     def get_corners(self):
         return get_aabb_corners_numpy(self.min_point, self.max_point)
-- 
2.43.0


From 063f8c902c7bd1e3c42b24f69859b3d837ced62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:12 +0000
Subject: [PATCH 060/294] fix: BoundingBox.evaluate interpolates between the
 two corners

---
 mmcore/geom/bvh/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 53bf489..0e4c897 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -57,7 +57,7 @@ class BoundingBox:
         return list(reduce(lambda x,y: x+y, (item.split(axis1, parameter1) for item in self.split4(axis2, axis3, parameter2, parameter3))))
 
     def evaluate(self, uvh):
-        return (self.min_point + self.max_point)*uvh
+        return self.min_point + self.dims*uvh
 
     def centroid(self):
         return (self.min_point + self.max_point)*0.5
-- 
2.43.0


From edab547e7205120e9b0100f281d984d3ef33076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:12 +0000
Subject: [PATCH 061/294] fix: BoundingBox.expand also updates the centre, the
 dimensions and the array of the box

---
 mmcore/geom/bvh/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 0e4c897..a75f373 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -114,8 +114,7 @@ class BoundingBox:
             max(self.max_point[1], other.max_point[1]),
             max(self.max_point[2], other.max_point[2]),
         )
-        self.min_point[:]=new_min
-        self.max_point[:]=new_max
+        self.__init__(new_min, new_max)
 
     def contains_point(self, point):
         return bool(np.all(self.min_point<=point)and np.all(point<=self.max_point))
-- 
2.43.0


From 75127ab7ee463b6c34a808b37653a7a75ab55bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:56 +0000
Subject: [PATCH 062/294] fix: building a BVH leaves the caller's list of
 objects as it was

---
 mmcore/geom/bvh/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index a75f373..5ca8ac9 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -364,7 +364,8 @@ def split_objects(objects):
     axis = np.argmax(max_centroid - min_centroid)
 
     # Sort objects along chosen axis by centroids
-    objects.sort(
+    objects = sorted(
+        objects,
         key=lambda obj: (
             obj.bounding_box.min_point[axis] + obj.bounding_box.max_point[axis]
         )
-- 
2.43.0


From 6ced56a64954126f86d91a5132f24d2510cb7e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:56 +0000
Subject: [PATCH 063/294] fix: find_closest visits the other subtree when it
 can hold a closer object

---
 mmcore/geom/bvh/__init__.py | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 5ca8ac9..67d1ebc 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -556,29 +556,22 @@ def _find_closest_breadth(bvh:BVHNode, point:NDArray[float])->tuple[list[Object3
     elif  (bvh.left is  None) and (bvh.right is  None):
         raise ValueError(f"Empty BVH node with bbox: {bvh.bounding_box._arr.tolist()}")
     elif (bvh.left is not None) and (bvh.right  is not None):
-        left_sd=sd_aabb(bvh.left.bounding_box._arr, point)
-        right_sd = sd_aabb(bvh.right.bounding_box._arr, point)
-        if left_sd<right_sd:
-            return _find_closest_breadth(
-                bvh.left,point
-            )
-        elif left_sd>right_sd:
-            return _find_closest_breadth(
-                bvh.right,point
-            )
+        near_sd=sd_aabb(bvh.left.bounding_box._arr, point)
+        far_sd = sd_aabb(bvh.right.bounding_box._arr, point)
+        near,far=bvh.left,bvh.right
+        if far_sd<near_sd:
+            near,far,far_sd=far,near,near_sd
+        near_obj, near_sd=_find_closest_breadth(near, point)
+        if far_sd>near_sd:
+            # The box of a node is at least as close as anything inside it.
+            return near_obj, near_sd
+        far_obj, far_sd=_find_closest_breadth(far, point)
+        if near_sd<far_sd:
+            return near_obj,near_sd
+        elif near_sd>far_sd:
+            return far_obj,far_sd
         else:
-            left_obj, left_sd=_find_closest_breadth(
-                bvh.left, point
-            )
-            right_obj, right_sd=_find_closest_breadth(
-                bvh.right, point
-            )
-            if left_sd<right_sd:
-                return left_obj,left_sd
-            elif left_sd>right_sd:
-                return right_obj,right_sd
-            else:
-                return left_obj+right_obj,left_sd
+            return near_obj+far_obj,near_sd
 
     else:
         raise ValueError(f"Unknown condition: {bvh.bounding_box._arr.tolist()}, {bvh.left},{bvh.right}")
-- 
2.43.0


From 11e994801f61555d2667da525eb4c622ccc26420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:56 +0000
Subject: [PATCH 064/294] fix: bvh_ray_intersection passes the output array of
 segment_aabb_clip

---
 mmcore/geom/bvh/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 67d1ebc..d6cbd03 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -836,7 +836,7 @@ def bvh_ray_intersection(bvh:BVHNode, ray:Ray):
              intersects, or an empty list if no intersections are found.
     :rtype: list
     """
-    segm=segment_aabb_clip(bvh.bounding_box._arr, ray._arr)
+    segm=segment_aabb_clip(bvh.bounding_box._arr, ray._arr, np.empty((2,3)))
     if segm is None:
         return []
     else:
-- 
2.43.0


From 211350045ef985a5df13deb7447b5ab365ac4a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:13 +0000
Subject: [PATCH 065/294] fix: a segment is tested against triangles whole, not
 clipped to their box

---
 mmcore/geom/bvh/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index d6cbd03..45dc539 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -771,9 +771,8 @@ def bvh_triangle_segment_intersection_one(bvh: BVHNode, segment:NDArray[float]|S
         if not aabb_intersect_fast_3d(current_bvh.bounding_box._arr,bb):
             continue
         out = np.empty((2, 3))
-        current_segment = segment_aabb_clip(current_bvh.bounding_box._arr, segment,out )
-
-        if current_segment is None:
+        # The clipped part only tells whether the box is met: it has no length in a flat box
+        if segment_aabb_clip(current_bvh.bounding_box._arr, segment,out ) is None:
             continue
 
         if current_bvh.object is not None:
-- 
2.43.0


From d749116e5c7706c04fc8c10b66d2a2fe4e742527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:13 +0000
Subject: [PATCH 066/294] fix: mesh_bvh_ray_intersection finds hits in flat
 boxes and in leaves of several triangles, and reports distances

---
 mmcore/geom/bvh/__init__.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 45dc539..5fc97ae 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -876,24 +876,24 @@ def mesh_bvh_ray_intersection(triangles_bvh:BVHNode,ray:Ray):
     :rtype: list[tuple[Point, Triangle, float]]
     """
     maybe = []
-    segment_out = np.empty((2,3))
-    segment = segment_aabb_clip(triangles_bvh.bounding_box._arr, ray._arr,segment_out)
-    if segment is None:
-        return maybe
-    segment=segment_out
-    direction=segment[1]-segment[0]
-
-    for tri,segm in bvh_segment_intersection(triangles_bvh,segment):
-
-        out = np.empty((3,))
-        flag=intersect_triangle_segment(tri.pts[0],tri.pts[1],tri.pts[2],segm[0],segm[1],out)
-        if flag==0:
-
-            continue
-        #if len(maybe)>0 and scalar_dot(maybe[-1]-point)<1e-8:
-        #    maybe.append(point)
-
-        maybe.append((np.array(out),tri,scalar_dot(out-ray.start,direction)))
+    box = triangles_bvh.bounding_box._arr
+    direction = ray.direction / MAX_FLOAT64
+    direction = direction / np.linalg.norm(direction)
+    # A segment from the origin of the ray to beyond the farthest corner of the box
+    reach = 1.0 + np.linalg.norm(np.abs(box - ray.start).max(axis=0))
+    segment = np.array([ray.start, ray.start + direction * reach])
+
+    for obj,segm in bvh_segment_intersection(triangles_bvh,segment):
+        for tri in getattr(obj, 'objects', (obj,)):
+            out = np.empty((3,))
+            flag=intersect_triangle_segment(tri.pts[0],tri.pts[1],tri.pts[2],segm[0],segm[1],out)
+            if flag==0:
+
+                continue
+            #if len(maybe)>0 and scalar_dot(maybe[-1]-point)<1e-8:
+            #    maybe.append(point)
+
+            maybe.append((np.array(out),tri,scalar_dot(out-ray.start,direction)))
 
     maybe.sort(key=lambda x:x[-1])
     return maybe
-- 
2.43.0


From cfc3c99055fdabd195d903a5d40c33776bde36e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:38 +0000
Subject: [PATCH 067/294] fix: bvh_ray_intersection does not lose objects to
 the rounding of a clipped endless segment

---
 mmcore/geom/bvh/__init__.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 5fc97ae..1de8424 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -818,6 +818,13 @@ def bvh_triangle_segment_intersection_one(bvh: BVHNode, segment:NDArray[float]|S
 # 120625
 
 from mmcore.numeric.vectors import dot_array_x_vec
+def _ray_segment(bvh:BVHNode, ray:Ray):
+    """The part of the ray from its origin to beyond the farthest corner of the box of the tree."""
+    direction = ray.direction / MAX_FLOAT64
+    direction = direction / np.linalg.norm(direction)
+    reach = 1.0 + np.linalg.norm(np.abs(bvh.bounding_box._arr - ray.start).max(axis=0))
+    return np.array([ray.start, ray.start + direction * reach])
+
 def bvh_ray_intersection(bvh:BVHNode, ray:Ray):
     """
     Determines the intersection of a BVH (Bounding Volume Hierarchy) node with a given ray.
@@ -835,15 +842,7 @@ def bvh_ray_intersection(bvh:BVHNode, ray:Ray):
              intersects, or an empty list if no intersections are found.
     :rtype: list
     """
-    segm=segment_aabb_clip(bvh.bounding_box._arr, ray._arr, np.empty((2,3)))
-    if segm is None:
-        return []
-    else:
-        result=bvh_segment_intersection(bvh,segm)
-
-
-
-        return result
+    return bvh_segment_intersection(bvh, _ray_segment(bvh, ray))
 
 
 def build_bvh_from_mesh(points:NDArray[float],indices:NDArray[int], triangles_in_leaf=1):
@@ -876,12 +875,8 @@ def mesh_bvh_ray_intersection(triangles_bvh:BVHNode,ray:Ray):
     :rtype: list[tuple[Point, Triangle, float]]
     """
     maybe = []
-    box = triangles_bvh.bounding_box._arr
-    direction = ray.direction / MAX_FLOAT64
-    direction = direction / np.linalg.norm(direction)
-    # A segment from the origin of the ray to beyond the farthest corner of the box
-    reach = 1.0 + np.linalg.norm(np.abs(box - ray.start).max(axis=0))
-    segment = np.array([ray.start, ray.start + direction * reach])
+    segment = _ray_segment(triangles_bvh, ray)
+    direction = np.array(scalar_unit(segment[1] - segment[0]))
 
     for obj,segm in bvh_segment_intersection(triangles_bvh,segment):
         for tri in getattr(obj, 'objects', (obj,)):
-- 
2.43.0


From bbb5a9d713fbbcd3ad5ac3ecef02534ad25f1e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:52 +0000
Subject: [PATCH 068/294] fix: bvh_segment_intersection_recursive clips the
 given segment, not its rounded clipped part

---
 mmcore/geom/bvh/__init__.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 1de8424..bdfb6c4 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -697,21 +697,21 @@ def traverse_all_bbox(bvh_root, result):
 def bvh_segment_intersection_recursive(bvh:BVHNode,segment:Segment):
 
 
-    def inner(bvh,segment, ints):
+    def inner(bvh, ints):
         if not bvh.bounding_box.intersect(segment.bounding_box):
             return
-        segment=segment.clip(bvh.bounding_box)
-        if segment is None :
+        clipped=segment.clip(bvh.bounding_box)
+        if clipped is None :
             return
         if bvh.object is not None:
-            ints.append((bvh,segment))
+            ints.append((bvh,clipped))
             return
         else:
-            inner(bvh.left, segment, ints)
-            inner(bvh.right, segment, ints)
+            inner(bvh.left, ints)
+            inner(bvh.right, ints)
 
     intersections=[]
-    inner(bvh,segment,intersections)
+    inner(bvh,intersections)
     return intersections
 
 
-- 
2.43.0


From 169486534efdc125e467a45424492f9b5d687ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:09 +0000
Subject: [PATCH 069/294] fix: iterating an empty CDLL yields nothing

---
 mmcore/ds/cdll/cdll.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index b0fd298..da0b169 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -116,8 +116,6 @@ class CDLL:
             while (temp != self.head):
                 yield temp.data
                 temp = temp.next
-        else:
-            yield
 
     def __len__(self):
         return self.count
-- 
2.43.0


From 4553a06e095094e1e941dfbc11d2181c8858b01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:09 +0000
Subject: [PATCH 070/294] fix: CDLL.append_node links the first node to itself

---
 mmcore/ds/cdll/cdll.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index da0b169..ac1814f 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -126,6 +126,8 @@ class CDLL:
     def append_node(self, node):
         if self.head is None:
             self.head = node
+            node.next = node
+            node.previous = node
             self.count = 1
         else:
             node.previous = self.head.previous
-- 
2.43.0


From 1289133448fc3b4eaf4b3659696d5e3efc800026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:09 +0000
Subject: [PATCH 071/294] fix: CDLL.insert at 0 puts the value before the head

---
 mmcore/ds/cdll/cdll.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index ac1814f..2a022dd 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -148,8 +148,8 @@ class CDLL:
             node.next = node
             node.previous = node
         else:
-            temp = self.head
-            for _ in range(index - 1):
+            temp = self.head.previous
+            for _ in range(index):
                 temp = temp.next
             temp.next.previous = node
             node.next, node.previous = temp.next, temp
-- 
2.43.0


From 84ee23a34e8f8568476f631a306594420ae1e920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:09 +0000
Subject: [PATCH 072/294] fix: CDLL.remove_by_index calls the hook for the last
 element, too

---
 mmcore/ds/cdll/cdll.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 2a022dd..165d7ce 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -171,15 +171,13 @@ class CDLL:
     def remove_by_index(self, index):
         if (index >= self.count) | (index < 0):
             raise ValueError(f"Index out of range: {index}, size: {self.count}")
-        if self.count == 1:
-            self.head = None
-            self.count = 0
-            return
         target = self.head
         for _ in range(index):
             target = target.next
 
-        if target is self.head:
+        if self.count == 1:
+            self.head = None
+        elif target is self.head:
             self.head = self.head.next
 
 
-- 
2.43.0


From fa6bf8bcda72b5a2d79364756c7ef1843bd8ce90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:09 +0000
Subject: [PATCH 073/294] fix: CDLL.remove empties the list with its last
 element and refuses a value it does not hold

---
 mmcore/ds/cdll/cdll.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 165d7ce..391ca34 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -192,7 +192,9 @@ class CDLL:
         for i in range(self.count):
             if (temp.data == data):
 
-                if temp is self.head:
+                if self.count == 1:
+                    self.head = None
+                elif temp is self.head:
                     self.head = self.head.next
                 temp.previous.next, temp.next.previous = temp.next, temp.previous
 
@@ -200,6 +202,8 @@ class CDLL:
                 break
 
             temp = temp.next
+        else:
+            raise ValueError(f"{data} is not in the list")
         self.remove_hook(temp)
         del temp.next
         del temp.previous
-- 
2.43.0


From 8612a61da43dddfe2ba0a86953342aa8af30f6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:09 +0000
Subject: [PATCH 074/294] fix: CDLL.get refuses a negative index before the
 first element

---
 mmcore/ds/cdll/cdll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 391ca34..424dd90 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -221,7 +221,7 @@ class CDLL:
         if index < 0:
             index = self.count + index
 
-        elif (index >= self.count):
+        if (index >= self.count) | (index < 0):
             raise ValueError(f"Index out of range: {index}, size: {self.count}")
         temp = self.head
         for _ in range(index):
-- 
2.43.0


From 58990f2784d6d7c319c864f8647436b2c979930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:09 +0000
Subject: [PATCH 075/294] fix: CDLL.replace_node sets both links of the new
 node

---
 mmcore/ds/cdll/cdll.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 424dd90..f64d0fb 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -248,7 +248,8 @@ class CDLL:
             raise ValueError(f"Index out of range: {index}, size: {self.count}")
         if self.count == 1:
             self.head =  node
-
+            node.next = node
+            node.previous = node
             return
         target = self.head
         for _ in range(index):
@@ -256,17 +257,12 @@ class CDLL:
 
 
         if target is self.head:
-            node.next = self.head.next
-            node.prev = self.head.previous
-            self.head.previous.next=node
-            self.head.next.previous=node
             self.head = node
         node.next = target.next
-        node.prev = target.previous
+        node.previous = target.previous
 
         target.previous.next = node
         target.next.previous = node
-        target.previous.next=node
 
 
 
-- 
2.43.0


From af32ffd4afaff5dfc9f83ba05976c6418e7546fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 076/294] fix: deleting an AVL node with two children keeps the
 data of its successor

---
 mmcore/ds/tree/avl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/ds/tree/avl.py b/mmcore/ds/tree/avl.py
index 8fa2b83..dec5312 100644
--- a/mmcore/ds/tree/avl.py
+++ b/mmcore/ds/tree/avl.py
@@ -333,6 +333,7 @@ class AVL(object):
 
                     if successor:
                         self.node.key = successor.key
+                        self.node.data = successor.data
 
                         # Delete successor from the replaced node right subree
                         self.node.right.delete(successor.key)
-- 
2.43.0


From 6dee1c35ffbdcdfda1aa700fee6166ca1df6be4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 077/294] fix: inserting an existing key into an AVL tree
 replaces its data

---
 mmcore/ds/tree/avl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/ds/tree/avl.py b/mmcore/ds/tree/avl.py
index dec5312..6ead130 100644
--- a/mmcore/ds/tree/avl.py
+++ b/mmcore/ds/tree/avl.py
@@ -140,6 +140,9 @@ class AVL(object):
         # Insert key to the right subtree
         elif key > self.node.key:
             self.node.right.insert(key, data)
+        # The key is there: replace its data
+        else:
+            self.node.data = data
 
         # Rebalance tree if needed
         self.rebalance()
-- 
2.43.0


From f21df3b9421c2434a37a9cfd35a71a2956d67d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 078/294] fix: AVL.append adds a new key after the largest one

---
 mmcore/ds/tree/avl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/tree/avl.py b/mmcore/ds/tree/avl.py
index 6ead130..cafa308 100644
--- a/mmcore/ds/tree/avl.py
+++ b/mmcore/ds/tree/avl.py
@@ -148,7 +148,10 @@ class AVL(object):
         self.rebalance()
 
     def append(self, data=None):
-        return self.insert(self.height + 1, data)
+        last = self
+        while last.node and last.node.right.node:
+            last = last.node.right
+        return self.insert(last.node.key + 1 if last.node else 0, data)
 
     def rebalance(self):
         """
-- 
2.43.0


From 92cf80fda874ed920ec9d1f6eb35a9a6873e8230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 079/294] fix: indexing an AVL tree by a missing key raises
 KeyError

---
 mmcore/ds/tree/avl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/tree/avl.py b/mmcore/ds/tree/avl.py
index cafa308..ef9d14e 100644
--- a/mmcore/ds/tree/avl.py
+++ b/mmcore/ds/tree/avl.py
@@ -376,7 +376,10 @@ class AVL(object):
         return AVLPrinter(self)()
 
     def __getitem__(self, item):
-        return self.search(item).data
+        node = self.search(item)
+        if node is None:
+            raise KeyError(item)
+        return node.data
 
     def __setitem__(self, item, val):
         return self.insert(item, data=val)
-- 
2.43.0


From b85fdf07934ab63328bac5efeb59b971b9ce8ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 080/294] fix: building a k-d tree leaves the caller's list of
 points as it was

---
 mmcore/ds/bkdtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/ds/bkdtree.py b/mmcore/ds/bkdtree.py
index ab87678..a003120 100644
--- a/mmcore/ds/bkdtree.py
+++ b/mmcore/ds/bkdtree.py
@@ -90,7 +90,7 @@ class BalancedKDTree:
             for p in points:
                 if len(p) != dim:
                     raise ValueError("All points must have the same dimension.")
-            self.root = _build_balanced(points, depth=0)
+            self.root = _build_balanced(list(points), depth=0)
 
     def _is_unbalanced(self, node):
         """
-- 
2.43.0


From f3ff412a6deab8ced4bd8107cd59297869ebf5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 081/294] fix: k-d tree deletion finds a point that shares a
 coordinate with a node above it

---
 mmcore/ds/bkdtree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/bkdtree.py b/mmcore/ds/bkdtree.py
index a003120..6dfa9cb 100644
--- a/mmcore/ds/bkdtree.py
+++ b/mmcore/ds/bkdtree.py
@@ -221,9 +221,12 @@ class BalancedKDTree:
                 return None
         else:
             # Not the node to delete, search left or right
+            # (points with an equal coordinate can be on both sides)
+            before = node.left.size if node.left else 0
             if point[current_axis] <= node.point[current_axis]:
                 node.left = self._delete_rec(node.left, point, depth + 1)
-            else:
+            after = node.left.size if node.left else 0
+            if after == before and point[current_axis] >= node.point[current_axis]:
                 node.right = self._delete_rec(node.right, point, depth + 1)
 
         _update_size(node)
-- 
2.43.0


From 4d74db0357055ab445e67ea7de813e08c3c96701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 082/294] fix: k-d tree deletion keeps the points above the new
 splitting value on the right

---
 mmcore/ds/bkdtree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmcore/ds/bkdtree.py b/mmcore/ds/bkdtree.py
index 6dfa9cb..5caaf46 100644
--- a/mmcore/ds/bkdtree.py
+++ b/mmcore/ds/bkdtree.py
@@ -214,8 +214,10 @@ class BalancedKDTree:
                 # find min in the left subtree along 'current_axis'
                 min_node = self._find_min(node.left, current_axis, depth + 1)
                 node.point = min_node.point
-                # Then, we have to remove that min from the left subtree
-                node.left = self._delete_rec(node.left, min_node.point, depth + 1)
+                # Then, we have to remove that min from the left subtree, whose
+                # other points are not below it and go to the right
+                node.right = self._delete_rec(node.left, min_node.point, depth + 1)
+                node.left = None
             else:
                 # Case 3: Leaf node
                 return None
-- 
2.43.0


From a32156587e31a8cfdf69ebd927fd69796d23a58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 083/294] fix: k-d tree search visits both sides until it has k
 neighbours

---
 mmcore/ds/bkdtree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/ds/bkdtree.py b/mmcore/ds/bkdtree.py
index 5caaf46..8684228 100644
--- a/mmcore/ds/bkdtree.py
+++ b/mmcore/ds/bkdtree.py
@@ -324,11 +324,11 @@ class BalancedKDTree:
         if diff <= 0:
             self._k_nearest_rec(node.left, target, k, heap, depth + 1)
             # Check other side if needed
-            if diff * diff < -heap[0][0]:
+            if len(heap) < k or diff * diff < -heap[0][0]:
                 self._k_nearest_rec(node.right, target, k, heap, depth + 1)
         else:
             self._k_nearest_rec(node.right, target, k, heap, depth + 1)
-            if diff * diff < -heap[0][0]:
+            if len(heap) < k or diff * diff < -heap[0][0]:
                 self._k_nearest_rec(node.left, target, k, heap, depth + 1)
 
     def k_nearest_neighbors(self, point, k=1):
-- 
2.43.0


From c93e966eac22818f0cb963819a4f36d827fb4792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 084/294] fix: inserting into an R-tree enlarges the rectangles
 of all ancestors

---
 mmcore/ds/tree/rtree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/ds/tree/rtree.py b/mmcore/ds/tree/rtree.py
index 8ccafdd..6240c85 100644
--- a/mmcore/ds/tree/rtree.py
+++ b/mmcore/ds/tree/rtree.py
@@ -76,6 +76,7 @@ class RStarTree:
                 if best_child is None or enlargement < best_enlargement:
                     best_child = child
                     best_enlargement = enlargement
+            best_child.mbr = best_child.mbr.union(rectangle)
             return self._choose_leaf(best_child, rectangle)
 
     def _split_node(self, node):
-- 
2.43.0


From 57ba2e854dffe316d65e928213c9ce139e8e9c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 085/294] fix: splitting an R-tree node adds its second half to
 its own parent, not to the root

---
 mmcore/ds/tree/rtree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/tree/rtree.py b/mmcore/ds/tree/rtree.py
index 6240c85..f695f93 100644
--- a/mmcore/ds/tree/rtree.py
+++ b/mmcore/ds/tree/rtree.py
@@ -144,8 +144,11 @@ class RStarTree:
         if current_node.is_leaf:
             return None
         for child in current_node.children:
-            if child == target_node or self._find_parent(child, target_node):
+            if child == target_node:
                 return current_node
+            parent = self._find_parent(child, target_node)
+            if parent is not None:
+                return parent
         return None
 
     def search(self, rectangle):
-- 
2.43.0


From 4ac94de5b675dd343df3bada38db633240faa40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 086/294] fix: GJK misses no collision: it keeps the nearest
 face of the simplex and only reports a separation it has found

---
 mmcore/numeric/algorithms/_gjk.cpp | 215 +++++++++++++----------------
 1 file changed, 98 insertions(+), 117 deletions(-)

diff --git a/mmcore/numeric/algorithms/_gjk.cpp b/mmcore/numeric/algorithms/_gjk.cpp
index b563b27..0fedc43 100644
--- a/mmcore/numeric/algorithms/_gjk.cpp
+++ b/mmcore/numeric/algorithms/_gjk.cpp
@@ -46,87 +46,87 @@ inline int supportVector(const std::vector<Vec3<T>>& vertices, const Vec3<T>& d)
     return supportIndex;
 }
 
+/// The point of the simplex nearest to the origin; only the vertices of the face it lies in are kept.
 template<typename T>
-bool handleSimplex(std::vector<Vec3<T>>& simplex, Vec3<T>& d, T tol) {
-    switch (simplex.size()) {
-        case 2: {
-            const auto& a = simplex[1];
-            const auto& b = simplex[0];
-            Vec3<T> ab = b - a;
-            Vec3<T> ao = {-a[0], -a[1], -a[2]};
-
-            if (dot(ab, ao) > tol) {
-                d = cross(cross(ab, ao), ab);
-            } else {
-                simplex.erase(simplex.begin());
-                d = ao;
+Vec3<T> nearestPoint(std::vector<Vec3<T>>& simplex) {
+    const size_t n = simplex.size();
+    T best = std::numeric_limits<T>::max();
+    Vec3<T> point = simplex[0];
+    size_t face = 1;
+
+    for (size_t mask = 1; mask < (size_t(1) << n); ++mask) {
+        size_t ids[4] = {0, 0, 0, 0};
+        size_t k = 0;
+        for (size_t i = 0; i < n; ++i) {
+            if (mask & (size_t(1) << i)) {
+                ids[k++] = i;
             }
-            break;
         }
-        case 3: {
-            const auto& a = simplex[2];
-            const auto& b = simplex[1];
-            const auto& c = simplex[0];
-            Vec3<T> ab = b - a;
-            Vec3<T> ac = c - a;
-            Vec3<T> ao = {-a[0], -a[1], -a[2]};
-            Vec3<T> abc = cross(ab, ac);
-
-            if (dot(cross(abc, ac), ao) > tol) {
-                if (dot(ac, ao) > 0) {
-                    simplex.erase(simplex.begin() + 1);
-                    d = cross(cross(ac, ao), ac);
-                } else {
-                    simplex.erase(simplex.begin());
-                    return handleSimplex(simplex, d, tol);
-                }
-            } else {
-                if (dot(cross(ab, abc), ao) > tol) {
-                    simplex.erase(simplex.begin());
-                    return handleSimplex(simplex, d, tol);
-                } else {
-                    if (dot(abc, ao) > tol) {
-                        d = abc;
-                    } else {
-                        std::swap(simplex[0], simplex[1]);
-                        d = {-abc[0], -abc[1], -abc[2]};
-                    }
-                }
+        // The nearest point of the affine hull is a + sum x[i] * e[i], with (e[i] . e[j]) x = -(e[i] . a)
+        const Vec3<T>& a = simplex[ids[0]];
+        Vec3<T> e[3];
+        T x[3] = {0, 0, 0};
+        for (size_t i = 1; i < k; ++i) {
+            e[i - 1] = simplex[ids[i]] - a;
+        }
+        if (k == 2) {
+            const T g = dot(e[0], e[0]);
+            if (!(g > 0)) {
+                continue;
+            }
+            x[0] = -dot(e[0], a) / g;
+        } else if (k == 3) {
+            const Vec3<T> normal = cross(e[0], e[1]);
+            const T g = dot(normal, normal);
+            if (!(g > T(1e-20) * dot(e[0], e[0]) * dot(e[1], e[1]))) {
+                continue;
+            }
+            x[0] = -dot(cross(a, e[1]), normal) / g;
+            x[1] = -dot(cross(e[0], a), normal) / g;
+        } else if (k == 4) {
+            const Vec3<T> normal = cross(e[1], e[2]);
+            const T volume = dot(e[0], normal);
+            if (!(volume * volume > T(1e-20) * dot(e[0], e[0]) * dot(normal, normal))) {
+                continue;
             }
-            break;
+            x[0] = -dot(a, normal) / volume;
+            x[1] = -dot(e[0], cross(a, e[2])) / volume;
+            x[2] = -dot(e[0], cross(e[1], a)) / volume;
         }
-        case 4: {
-            const auto& a = simplex[3];
-            const auto& b = simplex[2];
-            const auto& c = simplex[1];
-            const auto& dPoint = simplex[0];
-
-            Vec3<T> ab = b - a;
-            Vec3<T> ac = c - a;
-            Vec3<T> ad = dPoint - a;
-            Vec3<T> ao = {-a[0], -a[1], -a[2]};
-
-            Vec3<T> abc = cross(ab, ac);
-            Vec3<T> acd = cross(ac, ad);
-            Vec3<T> adb = cross(ad, ab);
-
-            if (dot(abc, ao) > 0) {
-                simplex.erase(simplex.begin());
-                return handleSimplex(simplex, d, tol);
-            } else if (dot(acd, ao) > 0) {
-                simplex.erase(simplex.begin() + 1);
-                return handleSimplex(simplex, d, tol);
-            } else if (dot(adb, ao) > 0) {
-                simplex.erase(simplex.begin() + 2);
-                return handleSimplex(simplex, d, tol);
-            } else {
-                return true;
+        T rest = 1;
+        bool inside = true;
+        Vec3<T> v = a;
+        for (size_t i = 0; i + 1 < k; ++i) {
+            rest -= x[i];
+            inside = inside && x[i] >= 0;
+            for (size_t c = 0; c < 3; ++c) {
+                v[c] += x[i] * e[i][c];
             }
         }
+        if (!inside || rest < 0) {
+            continue;
+        }
+        const T length = k == 4 ? 0 : dot(v, v);
+        if (length < best) {
+            best = length;
+            point = k == 4 ? Vec3<T>{0, 0, 0} : v;
+            face = mask;
+        }
     }
-    return false;
+
+    std::vector<Vec3<T>> kept;
+    kept.reserve(4);
+    for (size_t i = 0; i < n; ++i) {
+        if (face & (size_t(1) << i)) {
+            kept.push_back(simplex[i]);
+        }
+    }
+    simplex.swap(kept);
+    return point;
 }
 
+/// Whether the convex hulls of two sets of points come within `tol` of each other.
+/// `false` is only returned if a direction was found in which the hulls are more than `tol` apart.
 template<typename T>
 bool gjk_collision_detection(const std::vector<Vec3<T>>& vertices1, const std::vector<Vec3<T>>& vertices2, T tol, size_t maxIter = 0) {
     if (vertices1.empty() || vertices2.empty()) {
@@ -137,53 +137,34 @@ bool gjk_collision_detection(const std::vector<Vec3<T>>& vertices1, const std::v
         maxIter = std::min(vertices1.size() * vertices2.size(), static_cast<size_t>(std::numeric_limits<size_t>::max()));
     }
 
-        const size_t rows = vertices1.size();
-        const size_t cols = vertices2.size();
-        std::vector<bool> visited(rows * cols, false);
-        std::vector<Vec3<T>> cache(rows * cols);
-
-        std::vector<Vec3<T>> simplex;
-        simplex.reserve(4);  // Pre-allocate space for efficiency
-
-        auto support = [&](const Vec3<T>& d) -> Vec3<T> {
-            int i = supportVector(vertices1, d);
-            int j = supportVector(vertices2, {-d[0], -d[1], -d[2]});
-            return vertices1[i] - vertices2[j];
-        };
-
-        Vec3<T> d = {1, 0, 0};
-        auto newPoint = support(d);
-        size_t index = static_cast<size_t>(supportVector(vertices1, d)) * cols + static_cast<size_t>(supportVector(vertices2, {-d[0], -d[1], -d[2]}));
-        visited[index] = true;
-        cache[index] = newPoint;
-        simplex.push_back(newPoint);
-        d = {-newPoint[0], -newPoint[1], -newPoint[2]};
-
-        for (size_t iter = 0; iter < maxIter; ++iter) {
-            newPoint = support(d);
-            index = static_cast<size_t>(supportVector(vertices1, d)) * cols + static_cast<size_t>(supportVector(vertices2, {-d[0], -d[1], -d[2]}));
-            
-            if (visited[index]) {
-                auto vec = cache[index] - newPoint;
-                auto normSquared = sqrt(vec[0]*vec[0] + vec[1]*vec[1] + vec[2]*vec[2]);
-                if (normSquared > tol) {
-                    return false;
-                }
-            } else {
-                visited[index] = true;
-                cache[index] = newPoint;
-            }
-
-            if (dot(newPoint, d) < 0) {
-                return false;
-            }
+    auto support = [&](const Vec3<T>& d) -> Vec3<T> {
+        int i = supportVector(vertices1, d);
+        int j = supportVector(vertices2, {-d[0], -d[1], -d[2]});
+        return vertices1[i] - vertices2[j];
+    };
 
-            simplex.push_back(newPoint);
+    std::vector<Vec3<T>> simplex;
+    simplex.reserve(4);  // Pre-allocate space for efficiency
+    simplex.push_back(support({1, 0, 0}));
 
-            if (handleSimplex(simplex, d, tol)) {
-                return true;
-            }
+    for (size_t iter = 0; iter < maxIter; ++iter) {
+        // The distance of the hulls is at most |v| ...
+        const Vec3<T> v = nearestPoint(simplex);
+        const T length = std::sqrt(dot(v, v));
+        if (length <= tol) {
+            return true;
+        }
+        // ... and at least the distance from the origin to the supporting plane in the direction -v
+        const Vec3<T> newPoint = support({-v[0], -v[1], -v[2]});
+        const T bound = dot(newPoint, v) / length;
+        if (bound > tol) {
+            return false;
         }
+        if (length - bound <= T(1e-12) * length) {
+            return false;
+        }
+        simplex.push_back(newPoint);
+    }
 
-        return false;
-    }
\ No newline at end of file
+    return true;
+}
-- 
2.43.0


From b00f4e3790239e8c947a2214cb888829f9a9efb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 087/294] fix: the Python GJK misses no collision either

---
 mmcore/numeric/algorithms/gjk.py | 156 ++++++++-----------------------
 1 file changed, 40 insertions(+), 116 deletions(-)

diff --git a/mmcore/numeric/algorithms/gjk.py b/mmcore/numeric/algorithms/gjk.py
index 7cf2f66..784405e 100644
--- a/mmcore/numeric/algorithms/gjk.py
+++ b/mmcore/numeric/algorithms/gjk.py
@@ -1,4 +1,4 @@
-import warnings
+import itertools
 
 import numpy as np
 import sys
@@ -72,132 +72,56 @@ def gjk_collision_detection(vertices1: np.ndarray, vertices2: np.ndarray, tol=1e
 
     :param vertices1: Vertices of the first convex shape (N x 3 for 3D)
     :param vertices2: Vertices of the second convex shape (M x 3 for 3D)
-    :param tol: Tolerance for floating-point comparisons
+    :param tol: Shapes nearer to each other than this intersect
     :param max_iter: Maximum number of iterations
-    :return: True if the convex shapes intersect, False otherwise
+    :return: False if a direction was found in which the convex shapes are apart, True otherwise
     """
-    visited = np.zeros((vertices1.shape[0], vertices2.shape[0]), dtype=bool)
-    visited_pts = np.zeros((vertices1.shape[0], vertices2.shape[0], vertices1.shape[-1]))
 
-    def support(vertices1, vertices2, d):
+    def support(d):
         """Compute the support point in Minkowski difference."""
         p1, i1 = support_vector(vertices1, d)
         p2, i2 = support_vector(vertices2, -d)
-        return p1 - p2, (i1, i2)
+        return p1 - p2
 
     # Initial direction (arbitrary)
     d = np.zeros(vertices1.shape[-1])
-    d[0]=1.
-    p, (i, j) = support(vertices1, vertices2, d)
-    visited[i, j] = True
-    visited_pts[i, j] = p
-    # First point in the simplex
-    simplex = [p]
-
-    # Negate direction
-    d = -simplex[0]
+    d[0] = 1.
+    simplex = [support(d)]
 
     for _ in range(max_iter):
-        # Get the next support point in the direction of d
-        new_point, (i, j) = support(vertices1, vertices2, d)
-
-        if visited[i, j]:
-            dd = visited_pts[i, j] - new_point
-
-            if np.linalg.norm(dd) > tol:
-
-                return False
-
-
-        else:
-            visited[i, j] = True
-            visited_pts[i, j] = new_point
-
-        # If the new point doesn't pass the origin, no collision
-        if scalar_dot(new_point, d) < 0:
-
+        # The distance of the shapes is at most |v| ...
+        simplex, v = nearest_point(simplex)
+        length = np.linalg.norm(v)
+        if length <= tol:
+            return True
+        # ... and at least the distance from the origin to the supporting plane in the direction -v
+        new_point = support(-v)
+        bound = scalar_dot(new_point, v) / length
+        if bound > tol or length - bound <= 1e-12 * length:
             return False
-
-        # Add new point to the simplex
         simplex.append(new_point)
 
-        # Check the simplex
-        if handle_simplex(simplex, d, tol=tol):
-
-            return True
-
-    #warnings.warn('Max Iter')
-
-    return False
-
-
-def handle_simplex(simplex, d, tol=1e-6):
-    """Handle the current simplex and update direction d."""
-    if len(simplex) == 2:  # Line segment case
-        a = simplex[1]
-        b = simplex[0]
-        ab = b - a
-        ao = -a
-        if scalar_dot(ab, ao) > tol:
-            # New direction is perpendicular to AB towards the origin
-            d[:] = scalar_cross(scalar_cross(ab, ao), ab)
-        else:
-            # Remove point B and update direction towards the origin
-            simplex.pop(0)
-            d[:] = ao
-
-    elif len(simplex) == 3:  # Triangle case
-        a = simplex[2]
-        b = simplex[1]
-        c = simplex[0]
-        ab = b - a
-        ac = c - a
-        ao = -a
-
-        abc = scalar_cross(ab, ac)
-
-        if scalar_dot(scalar_cross(abc, ac), ao) > tol:
-            if scalar_dot(ac, ao) > tol:
-                simplex.pop(1)
-                d[:] = scalar_cross(scalar_cross(ac, ao), ac)
-            else:
-                return handle_simplex([simplex[2], simplex[1]], d)
-        else:
-            if scalar_dot(scalar_cross(ab, abc), ao) > tol:
-                return handle_simplex([simplex[2], simplex[1]], d)
-            else:
-                if scalar_dot(abc, ao) > tol:
-                    d[:] = abc
-                else:
-                    simplex[0], simplex[1] = simplex[1], simplex[0]
-                    d[:] = -abc
-    elif len(simplex) == 4:  # Tetrahedron case
-        a = simplex[3]
-        b = simplex[2]
-        c = simplex[1]
-        d_point = simplex[0]
-
-        ab = b - a
-        ac = c - a
-        ad = d_point - a
-        ao = -a
-
-        abc = scalar_cross(ab, ac)
-        acd = scalar_cross(ac, ad)
-        adb = scalar_cross(ad, ab)
-
-        if scalar_dot(abc, ao) > 0:
-            simplex.pop(0)
-            return handle_simplex([simplex[2], simplex[1], simplex[0]], d)
-        elif scalar_dot(acd, ao) > 0:
-            simplex.pop(1)
-            return handle_simplex([simplex[2], simplex[1], simplex[0]], d)
-        elif scalar_dot(adb, ao) > 0:
-            simplex.pop(2)
-            return handle_simplex([simplex[2], simplex[1], simplex[0]], d)
-        else:
-
-            return True
-    else:
-        raise ValueError("Simplex >4")
-    return False
+    return True
+
+
+def nearest_point(simplex):
+    """The face of the simplex which is nearest to the origin, and its nearest point."""
+    best, face, point = np.inf, None, None
+    for k in range(1, len(simplex) + 1):
+        for candidate in itertools.combinations(simplex, k):
+            a = candidate[0]
+            v, weights = a, np.ones(1)
+            if k > 1:
+                e = np.array([b - a for b in candidate[1:]])
+                gram = e @ e.T
+                if np.linalg.det(gram) <= 1e-20 * np.prod(np.diag(gram)):
+                    continue
+                x = np.linalg.solve(gram, -(e @ a))
+                weights = np.append(x, 1. - x.sum())
+                v = a + x @ e
+                if k == len(a) + 1:
+                    v = np.zeros(len(a))
+            length = np.dot(v, v)
+            if np.all(weights >= 0) and length < best:
+                best, face, point = length, list(candidate), v
+    return face, point
-- 
2.43.0


From 488515b02be88bec3998c71fb0dbcaf9a8bb921f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:18 +0000
Subject: [PATCH 088/294] fix: spherical separability is claimed only if a
 plane through the point separates the surface from the curve

---
 .../intersection/separability/spherical.py    | 43 +++++++++++--------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/mmcore/numeric/intersection/separability/spherical.py b/mmcore/numeric/intersection/separability/spherical.py
index 321cd20..5dbe3b1 100644
--- a/mmcore/numeric/intersection/separability/spherical.py
+++ b/mmcore/numeric/intersection/separability/spherical.py
@@ -17,7 +17,7 @@ def project_to_sphere(points, center):
 
 
 def find_smallest_wedge(points_2d):
-    """Find the smallest wedge containing 2D points."""
+    """Find the smallest wedge containing 2D points. The end angle is never less than the start angle."""
     angles = np.arctan2(points_2d[:, 1], points_2d[:, 0])
     sorted_angles = np.sort(angles)
     angle_diffs = np.diff(sorted_angles)
@@ -26,8 +26,9 @@ def find_smallest_wedge(points_2d):
         angle_diffs, 2 * np.pi - sorted_angles[-1] + sorted_angles[0]
     )
     max_gap = np.argmax(angle_diffs)
-    start_angle = sorted_angles[max_gap]
-    end_angle = sorted_angles[(max_gap + 1) % len(sorted_angles)]
+    # The wedge is what the largest gap leaves of the circle
+    start_angle = sorted_angles[(max_gap + 1) % len(sorted_angles)]
+    end_angle = start_angle + 2 * np.pi - angle_diffs[max_gap]
     return start_angle, end_angle
 
 
@@ -44,13 +45,13 @@ def spherical_bounding_box_test(points1, points2, center):
             (sphere_points2[:, (axis + 1) % 3], sphere_points2[:, (axis + 2) % 3])
         )
 
-        wedge1_start, wedge1_end = find_smallest_wedge(plane_coords1)
-        wedge2_start, wedge2_end = find_smallest_wedge(plane_coords2)
-
-        # Check if wedges are separated
-        if (wedge1_end < wedge2_start and wedge2_end > wedge1_start) or (
-            wedge2_end < wedge1_start and wedge1_end > wedge2_start
-        ):
+        # A line through the center has points1 on one side and points2 on the other if it has points1 and the
+        # reflections of points2 on the same side
+        plane_coords = np.vstack((plane_coords1, -plane_coords2))
+        if np.min(np.linalg.norm(plane_coords, axis=1)) < 1e-9:
+            continue
+        wedge_start, wedge_end = find_smallest_wedge(plane_coords)
+        if wedge_end - wedge_start < np.pi - 1e-9:
             return True  # Separating circle found
 
     return False  # No separating circle found
@@ -63,20 +64,20 @@ def separating_circles_test(points1, points2, center):
 
     m, n = len(sphere_points1), len(sphere_points2)
 
-    # Set up the linear programming problem
-    c = [0, 0, 0, 1]  # Objective function coefficients
+    # Set up the linear programming problem: the plane through the center which keeps the largest margin
+    c = [0, 0, 0, -1]  # Objective function coefficients
     A_ub = np.vstack(
         (
-            np.hstack((-sphere_points1, -np.ones((m, 1)))),
-            np.hstack((sphere_points2, -np.ones((n, 1)))),
+            np.hstack((-sphere_points1, np.ones((m, 1)))),
+            np.hstack((sphere_points2, np.ones((n, 1)))),
         )
     )
     b_ub = np.zeros(m + n)
 
     # Solve the linear programming problem
-    res = linprog(c, A_ub=A_ub, b_ub=b_ub, method="highs")
+    res = linprog(c, A_ub=A_ub, b_ub=b_ub, bounds=[(-1, 1)] * 3 + [(None, None)], method="highs")
 
-    return not res.success  # True if no separating plane was found
+    return bool(res.success and res.x[3] > 1e-9)  # True if a separating plane was found
 
 
 def spherical_separability(surface_points, curve_points, intersection_point):
@@ -148,10 +149,16 @@ def spherical_separability(surface_points, curve_points, intersection_point):
     """
 
     # Remove the intersection point from both sets
+    surface_points = np.asarray(surface_points)
+    curve_points = np.asarray(curve_points)
     surface_points = surface_points[
-        ~np.all(surface_points == intersection_point, axis=1)
+        ~np.all(np.isclose(surface_points, intersection_point, rtol=0, atol=1e-9), axis=1)
+    ]
+    curve_points = curve_points[
+        ~np.all(np.isclose(curve_points, intersection_point, rtol=0, atol=1e-9), axis=1)
     ]
-    curve_points = curve_points[~np.all(curve_points == intersection_point, axis=1)]
+    if len(surface_points) == 0 or len(curve_points) == 0:
+        return False
 
     # First, try the cheaper bounding box test
     if spherical_bounding_box_test(surface_points, curve_points, intersection_point):
-- 
2.43.0


From 79866f8157676b2d7f78eb9e9f5872139e7e2900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:18 +0000
Subject: [PATCH 089/294] fix: points within the tolerance of each other are
 not spatially separable

---
 mmcore/numeric/intersection/separability/spatial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/numeric/intersection/separability/spatial.py b/mmcore/numeric/intersection/separability/spatial.py
index 65b0f84..672516d 100644
--- a/mmcore/numeric/intersection/separability/spatial.py
+++ b/mmcore/numeric/intersection/separability/spatial.py
@@ -196,6 +196,9 @@ def spatial_separability(points1, points2, tol=1e-6):
     bb1 = aabb(points1)
     bb2 = aabb(points2)
 
+    # Objects nearer to each other than the tolerance are not separable
+    bb1 = np.array(bb1) + np.array([[-tol], [tol]])
+
     # If bounding boxes do not intersect, the objects are separable
     if not aabb_intersect(bb1, bb2):
         return True
-- 
2.43.0


From 7760ccfd039fde1f3d8cf8982216a10ac984a31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 090/294] fix: curve-surface intersection searches on beside
 and beyond a found intersection, splits off no empty piece and stops at the
 tolerance

---
 mmcore/numeric/intersection/csx/_ncsx.py | 60 ++++++++++++------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/mmcore/numeric/intersection/csx/_ncsx.py b/mmcore/numeric/intersection/csx/_ncsx.py
index 5e6af8d..d54508c 100644
--- a/mmcore/numeric/intersection/csx/_ncsx.py
+++ b/mmcore/numeric/intersection/csx/_ncsx.py
@@ -67,45 +67,32 @@ class NURBSCurveSurfaceIntersector:
         # interior_intersections = self._get_interior_intersections(curve, surface)
 
         new_point = self._find_new_intersection(curve, surface)
+        t0, t1 = curve.interval()
         (u0, u1), (v0, v1) = surface.interval()
-        if new_point is None:
-            t0, t1 = curve.interval()
-
-
-            curve1, curve2 = split_curve(curve, (t0 + t1) * 0.5, normalize_knots=False)
-            # normalize_curve_knots(curve1)
-            # normalize_curve_knots(curve2)
-            u,v=(u0 + u1) * 0.5, (v0 + v1) * 0.5
-
-
-            if abs(u - u0) < self.ptol or abs(u - u1) < self.ptol or abs(v - v0) < self.ptol or abs(v - v1) < self.ptol:
-
-                return
-            surface1, surface2, surface3, surface4 = subdivide_surface(
-                surface, (u0 + u1) * 0.5, (v0 + v1) * 0.5, self.ptol, normalize_knots=False
-            )
+        if min(t1 - t0, u1 - u0, v1 - v0) < 2 * self.ptol:
+            if new_point is not None:
+                self._add_intersection(new_point, curve, surface)
+            return
+        t, u, v = (t0 + t1) * 0.5, (u0 + u1) * 0.5, (v0 + v1) * 0.5
 
-        else:
+        if new_point is not None:
             point, (t, u, v) = new_point
 
-            if self._is_degenerate(new_point[1], curve, surface):
-                self.intersections.append(("degenerate", point, (t, u, v)))
-
-            else:
-                self.intersections.append(("transversal", point, (t, u, v)))
-            if abs(u-u0)<self.ptol or abs(u-u1)<self.ptol or  abs(v-v0)<self.ptol or  abs(v-v1)<self.ptol:
-
-                return
+            self._add_intersection(new_point, curve, surface)
             if spherical_separability(
                 np.array(surface.control_points_flat), curve.control_points, point
             ):
                 return
+            # A piece cannot be split at its edge
+            t, u, v = (
+                p if min(p - p0, p1 - p) > max(self.ptol, 1e-3 * (p1 - p0)) else (p0 + p1) * 0.5
+                for p, p0, p1 in ((t, t0, t1), (u, u0, u1), (v, v0, v1))
+            )
 
-            curve1, curve2 = split_curve(curve, t, tol=self.ptol,normalize_knots=False)
-            # normalize_curve_knots(curve1)
-            # normalize_curve_knots(curve2)
-
-            surface1, surface2, surface3, surface4  = subdivide_surface(surface, u, v, tol=self.ptol, normalize_knots=False)
+        curve1, curve2 = split_curve(curve, t, tol=self.ptol, normalize_knots=False)
+        surface1, surface2, surface3, surface4 = subdivide_surface(
+            surface, u, v, tol=self.ptol, normalize_knots=False
+        )
 
         self._curve_surface_intersect(curve1, surface1)
         self._curve_surface_intersect(curve1, surface2)
@@ -116,14 +103,25 @@ class NURBSCurveSurfaceIntersector:
         self._curve_surface_intersect(curve2, surface3)
         self._curve_surface_intersect(curve2, surface4)
 
+    def _add_intersection(self, new_point, curve, surface):
+        point, (t, u, v) = new_point
+        if self._is_degenerate(new_point[1], curve, surface):
+            self.intersections.append(("degenerate", point, (t, u, v)))
+        else:
+            self.intersections.append(("transversal", point, (t, u, v)))
+
     def _no_new_intersections(self, curve, surface):
         # Implement separability test from section 4.2
         # Return True if curve and surface don't intersect except at already discovered points
 
+        for _, point, _ in self.intersections:
+            if np.all(np.abs(np.asarray(curve.control_points) - point) < self.tolerance):
+                return True
+
         return spatial_separability(
             curve.control_points,
             np.array(surface.control_points_flat),
-            tol=self.tolerance,
+            tol=1e-9,
         )
 
 
-- 
2.43.0


From 02b5dcc943320eba3a6c3a122a4a22a493e171d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 091/294] fix: csx of a curve and a surface that do not meet is
 empty

---
 mmcore/numeric/intersection/csx/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/numeric/intersection/csx/__init__.py b/mmcore/numeric/intersection/csx/__init__.py
index c31ce4d..b898353 100644
--- a/mmcore/numeric/intersection/csx/__init__.py
+++ b/mmcore/numeric/intersection/csx/__init__.py
@@ -248,6 +248,8 @@ def curve_implicit_intersection(curve, surface, tol=1e-6):
 def csx(curve, surface, tol=1e-3,ptol=1e-6):
     if isinstance(curve,NURBSCurve ) and isinstance(surface, NURBSSurface):
         ixs=nurbs_csx(curve, surface, tol=tol, ptol=ptol)
+        if len(ixs) == 0:
+            return np.empty((0, 3))
         ixs.sort(key=lambda x: x[2][0])
         typs, pts,params=zip(*ixs)
 
-- 
2.43.0


From 1e52b42b93cda6e45e18b5e3e73f863dc3cd3b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 092/294] fix: spherical separability is decided by GJK on the
 sphere

---
 .../intersection/separability/spherical.py    | 47 +++++--------------
 1 file changed, 11 insertions(+), 36 deletions(-)

diff --git a/mmcore/numeric/intersection/separability/spherical.py b/mmcore/numeric/intersection/separability/spherical.py
index 5dbe3b1..799922a 100644
--- a/mmcore/numeric/intersection/separability/spherical.py
+++ b/mmcore/numeric/intersection/separability/spherical.py
@@ -1,5 +1,4 @@
 import numpy as np
-from scipy.optimize import linprog
 
 __all__=['spherical_separability']
 
@@ -7,6 +6,7 @@ from mmcore.geom.nurbs import subdivide_surface, split_curve, NURBSSurface, NURB
 
 from mmcore.numeric.vectors import unit, dot, scalar_norm, scalar_unit
 from mmcore.numeric.interval import Interval,Comparison
+from mmcore.numeric.algorithms.cygjk import gjk
 
 
 def project_to_sphere(points, center):
@@ -58,26 +58,14 @@ def spherical_bounding_box_test(points1, points2, center):
 
 
 def separating_circles_test(points1, points2, center):
-    """Perform separating circles test using linear programming."""
+    """Perform separating circles test.
+
+    A plane through the center has points1 on one side and points2 on the other if and only if it has points1 and the
+    reflections of points2 on the same side, that is if the center is outside of their convex hull.
+    """
     sphere_points1 = project_to_sphere(points1, center)
     sphere_points2 = project_to_sphere(points2, center)
-
-    m, n = len(sphere_points1), len(sphere_points2)
-
-    # Set up the linear programming problem: the plane through the center which keeps the largest margin
-    c = [0, 0, 0, -1]  # Objective function coefficients
-    A_ub = np.vstack(
-        (
-            np.hstack((-sphere_points1, np.ones((m, 1)))),
-            np.hstack((sphere_points2, np.ones((n, 1)))),
-        )
-    )
-    b_ub = np.zeros(m + n)
-
-    # Solve the linear programming problem
-    res = linprog(c, A_ub=A_ub, b_ub=b_ub, bounds=[(-1, 1)] * 3 + [(None, None)], method="highs")
-
-    return bool(res.success and res.x[3] > 1e-9)  # True if a separating plane was found
+    return not gjk(np.vstack((sphere_points1, -sphere_points2)), np.zeros((1, 3)))
 
 
 def spherical_separability(surface_points, curve_points, intersection_point):
@@ -90,10 +78,7 @@ def spherical_separability(surface_points, curve_points, intersection_point):
     This test projects the control points of both the surface and curve onto a unit sphere centered at the intersection
     point and checks if their spherical projections intersect anywhere other than at the given intersection point.
 
-    The algorithm implements two tests:
-
-    1. A fast spherical bounding box test, which provides an initial check for separability.
-    2. If the bounding box test fails, a more accurate separating circles test is performed, based on linear programming.
+    They do not if a plane through the intersection point has the surface on one side and the curve on the other.
 
     Parameters
     ----------
@@ -118,10 +103,7 @@ def spherical_separability(surface_points, curve_points, intersection_point):
 
     Notes
     -----
-    - The function performs two stages of separability testing: an initial bounding box test and a more accurate
-      separating circles test if necessary.
-    - The spherical bounding box test is analogous to axis-aligned bounding box tests in 3D space, and is computationally inexpensive.
-    - The separating circles test uses a linear programming approach to determine whether the curve and surface projections
+    - The separating circles test uses GJK to determine whether the curve and surface projections
       onto the sphere are separable.
 
     Example
@@ -144,27 +126,20 @@ def spherical_separability(surface_points, curve_points, intersection_point):
 
     - The function assumes that the `surface_points` and `curve_points` are in 3D space and excludes the `intersection_point`
       before running the separability tests.
-    - The bounding box test is significantly faster but less accurate. If this test fails, the more accurate but
-      computationally expensive separating circles test is run.
     """
 
     # Remove the intersection point from both sets
     surface_points = np.asarray(surface_points)
     curve_points = np.asarray(curve_points)
     surface_points = surface_points[
-        ~np.all(np.isclose(surface_points, intersection_point, rtol=0, atol=1e-9), axis=1)
+        ~np.all(np.isclose(surface_points, intersection_point, rtol=0, atol=1e-6), axis=1)
     ]
     curve_points = curve_points[
-        ~np.all(np.isclose(curve_points, intersection_point, rtol=0, atol=1e-9), axis=1)
+        ~np.all(np.isclose(curve_points, intersection_point, rtol=0, atol=1e-6), axis=1)
     ]
     if len(surface_points) == 0 or len(curve_points) == 0:
         return False
 
-    # First, try the cheaper bounding box test
-    if spherical_bounding_box_test(surface_points, curve_points, intersection_point):
-        return True
-
-    # If bounding box test fails, use the more expensive separating circles test
     return separating_circles_test(surface_points, curve_points, intersection_point)
 
 
-- 
2.43.0


From 84ccadffbc5d052d55f91394ed22a73df5b7d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 093/294] fix: curve-surface intersection leaves pieces that
 only touch at a known intersection

---
 mmcore/numeric/intersection/csx/_ncsx.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/mmcore/numeric/intersection/csx/_ncsx.py b/mmcore/numeric/intersection/csx/_ncsx.py
index d54508c..bdd92d1 100644
--- a/mmcore/numeric/intersection/csx/_ncsx.py
+++ b/mmcore/numeric/intersection/csx/_ncsx.py
@@ -79,10 +79,6 @@ class NURBSCurveSurfaceIntersector:
             point, (t, u, v) = new_point
 
             self._add_intersection(new_point, curve, surface)
-            if spherical_separability(
-                np.array(surface.control_points_flat), curve.control_points, point
-            ):
-                return
             # A piece cannot be split at its edge
             t, u, v = (
                 p if min(p - p0, p1 - p) > max(self.ptol, 1e-3 * (p1 - p0)) else (p0 + p1) * 0.5
@@ -114,15 +110,19 @@ class NURBSCurveSurfaceIntersector:
         # Implement separability test from section 4.2
         # Return True if curve and surface don't intersect except at already discovered points
 
+        curve_points = np.asarray(curve.control_points)
+        surface_points = np.array(surface.control_points_flat)
+        if spatial_separability(curve_points, surface_points, tol=1e-9):
+            return True
         for _, point, _ in self.intersections:
-            if np.all(np.abs(np.asarray(curve.control_points) - point) < self.tolerance):
+            distances = np.max(np.abs(curve_points - point), axis=1)
+            if np.all(distances < self.tolerance):
                 return True
-
-        return spatial_separability(
-            curve.control_points,
-            np.array(surface.control_points_flat),
-            tol=1e-9,
-        )
+            if min(distances[0], distances[-1]) < 1e-6 and spherical_separability(
+                surface_points, curve_points, point
+            ):
+                return True
+        return False
 
 
 
-- 
2.43.0


From b67506d5c79a6f91f65e4a8f5e0becbae5d5eeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 094/294] fix: curve-surface intersection finds the
 intersections at the ends of the curve and the edges of the surface

---
 mmcore/numeric/intersection/csx/_ncsx.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/intersection/csx/_ncsx.py b/mmcore/numeric/intersection/csx/_ncsx.py
index bdd92d1..7d25428 100644
--- a/mmcore/numeric/intersection/csx/_ncsx.py
+++ b/mmcore/numeric/intersection/csx/_ncsx.py
@@ -154,6 +154,8 @@ class NURBSCurveSurfaceIntersector:
             and self._is_valid_parameter(result, (t0, t1), (u0, u1), (v0, v1))
             and not any(np.isnan(result))
         ):
+            # An intersection at the very edge may be found on the wrong side of it
+            result = np.clip(result, (t0, u0, v0), (t1, u1, v1))
             point = curve.evaluate(result[0])
             point2 = surface.evaluate_v2(*result[1:])
             r = scalar_norm(point - point2)
@@ -174,7 +176,8 @@ class NURBSCurveSurfaceIntersector:
         t0, t1 = t_range
         (u0, u1), (v0, v1) = u_range, v_range
 
-        return t0 <= t <= t1 and u0 <= u <= u1 and v0 <= v <= v1
+        tol = self.ptol
+        return t0 - tol <= t <= t1 + tol and u0 - tol <= u <= u1 + tol and v0 - tol <= v <= v1 + tol
 
     def _is_degenerate(self, point, curve, surface):
         t, u, v = point
-- 
2.43.0


From 222822f60ddb287a5ac91fa002a8178762a80a82 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 095/294] fix: curve-curve intersection searches boxes that
 contain the curves and reports each contact once

---
 mmcore/numeric/intersection/ccx/ccx.py | 181 +++++++++++++++----------
 1 file changed, 106 insertions(+), 75 deletions(-)

diff --git a/mmcore/numeric/intersection/ccx/ccx.py b/mmcore/numeric/intersection/ccx/ccx.py
index 6b1448c..d7d553e 100644
--- a/mmcore/numeric/intersection/ccx/ccx.py
+++ b/mmcore/numeric/intersection/ccx/ccx.py
@@ -1,7 +1,6 @@
 
 from __future__ import annotations
 
-from collections import defaultdict
 from typing import Callable
 
 import numpy as np
@@ -193,11 +192,6 @@ def curve_pix(curve, implicit: Callable[[ArrayLike], float], step: float = 0.5,
     return roots
 
 
-def _categorize_with_defaultdict(data, labels):
-    grouped = defaultdict(list)
-    for d, l in zip(data, labels):
-        grouped[l].append(d)
-    return dict(grouped)
 def curve_ppx(curve1, curve2, tol: float = 0.001, tol_bbox=0.1, bounds1=None, bounds2=None, eager=True) -> list[
     tuple[float, float]]:
     """
@@ -243,83 +237,120 @@ def curve_ppx(curve1, curve2, tol: float = 0.001, tol_bbox=0.1, bounds1=None, bo
         >>> print(intersections)
         [(0.6007, 0.3717)]
     """
-    def recursive_intersect(c1, c2, t1_range, t2_range, tol):
-        # print(c1.interval(), t1_range, c2.interval(), t2_range)
-
-
-        if eager:
-            if not aabb_overlap(
-                    curve_aabb_eager(c1, bounds=t1_range, cnt=8),
-                    curve_aabb_eager(c2, bounds=t2_range, cnt=8),
-            ):
-                return []
-
-        else:
-            if not aabb_overlap(
-                    curve_aabb(c1, bounds=t1_range, tol=tol_bbox),
-                    curve_aabb(c2, bounds=t2_range, tol=tol_bbox)):
-                return []
-
-        t1_mid = t1_range[0] + (t1_range[1] - t1_range[0]) / 2
-        t2_mid = t2_range[0] + (t2_range[1] - t2_range[0]) / 2
-
-        if np.linalg.norm(np.array(c1(t1_mid)) - np.array(c2(t2_mid))) <= tol:
-            return [(t1_mid, t2_mid)]
-        c1_left = t1_range[0], t1_mid
-        c1_right = t1_mid, t1_range[1]
-        c2_left = t2_range[0], t2_mid
-        c2_right = t2_mid, t2_range[1]
-        # c1_left, c1_right = split(c1, t1_mid)
-        # c2_left, c2_right = split(c2, t2_mid)
-
+    def bbox(curve, t_range):
+        if not eager:
+            return curve_aabb(curve, bounds=t_range, tol=tol_bbox)
+        # The box of the samples, widened by more than the curve can leave its chords between them and by a rounding margin.
+        pts = np.asarray(curve(np.linspace(*t_range, 8)))
+        pad = np.abs(np.diff(pts, n=2, axis=0)).max(axis=0) + 1e-13 * np.abs(pts).max()
+        return np.array([pts.min(axis=0) - pad, pts.max(axis=0) + pad])
+
+    def halves(curve, piece):
+        (start, end), box = piece
+        mid = start + (end - start) / 2
+        if np.max(box[1] - box[0]) <= tol / 4 or not start < mid < end:
+            return [piece]
+        return [(rng, bbox(curve, rng)) for rng in ((start, mid), (mid, end))]
+
+    def recursive_intersect(c1, c2, piece1, piece2):
+        if not aabb_overlap(piece1[1], piece2[1]):
+            return []
+        parts1, parts2 = halves(c1, piece1), halves(c2, piece2)
+        if len(parts1) == 1 and len(parts2) == 1:
+            return [(*piece1[0], *piece2[0])]
         intersections = []
-        intersections.extend(recursive_intersect(c1, c2, c1_left, c2_left, tol))
-        intersections.extend(recursive_intersect(c1, c2, c1_left, c2_right, tol))
-        intersections.extend(recursive_intersect(c1, c2, c1_right, c2_left, tol))
-        intersections.extend(recursive_intersect(c1, c2, c1_right, c2_right, tol))
-
+        for part1 in parts1:
+            for part2 in parts2:
+                intersections.extend(recursive_intersect(c1, c2, part1, part2))
         return intersections
 
-    result = []
-
     curve1_bounds = curve1.interval() if bounds1 is None else bounds1
     curve2_bounds = curve2.interval() if bounds2 is None else bounds2
+    pieces1 = [(rng, bbox(curve1, rng)) for rng in _smooth_ranges(curve1, curve1_bounds)]
+    pieces2 = [(rng, bbox(curve2, rng)) for rng in _smooth_ranges(curve2, curve2_bounds)]
+    cells = []
+    for piece1 in pieces1:
+        for piece2 in pieces2:
+            cells.extend(recursive_intersect(curve1, curve2, piece1, piece2))
+
+    refined = [
+        min(_refine_cell(curve1, curve2, cell, curve1_bounds, curve2_bounds) for cell in group)
+        for group in _adjacent_cells(cells)
+    ]
+    result = []
+    for dist, t1, t2 in sorted(refined):
+        if dist <= tol and not any(_same_contact(curve1, curve2, (t1, t2), other, tol) for other in result):
+            result.append((t1, t2))
+    return sorted(result)
 
-    curve1_range = curve1_bounds[1] - curve1_bounds[0]
-    curve2_range = curve2_bounds[1] - curve2_bounds[0]
-
-    if curve1_range > 1.0 and curve2_range > 1.0:
-        for start1, end1 in divide_interval(*curve1_bounds, 1.0):
-            for start2, end2 in divide_interval(*curve2_bounds, 1.0):
-                result.extend(
-                    recursive_intersect(
-                        curve1, curve2, (start1, end1), (start2, end2), tol=tol
-                    )
-                )
-    elif curve1_range > 1.0:
-        start2, end2 = curve2_bounds
-        for start1, end1 in divide_interval(*curve1_bounds, 1.0):
-            result.extend(
-                recursive_intersect(
-                    curve1, curve2, (start1, end1), (start2, end2), tol=tol
-                )
-            )
-    elif curve2_range > 1.0:
-        start1, end1 = curve1_bounds
-        for start2, end2 in divide_interval(*curve2_bounds, 1.0):
-            result.extend(
-                recursive_intersect(
-                    curve1, curve2, (start1, end1), (start2, end2), tol=tol
-                )
-            )
-    else:
-        result.extend(
-            recursive_intersect(curve1, curve2, curve1_bounds, curve2_bounds, tol)
-        )
 
-    _,index=np.unique(np.round(result,int(np.abs(np.log10(tol)))), return_inverse=True,axis=0)
-    return sorted((tuple(np.average(val,axis=0)) for val in _categorize_with_defaultdict(result, index.tolist()).values()),key=lambda x:x[0])
+def _smooth_ranges(curve, bounds):
+    """
+    Parts of the parameter range without a knot inside; unit steps if the curve has no knots.
+    """
+    start, end = float(bounds[0]), float(bounds[1])
+    knots = getattr(curve, "knots", None)
+    breaks = np.unique(knots) if knots is not None else divide_interval(start, end, 1.0)[:, 0]
+    breaks = [float(t) for t in breaks if start < t < end]
+    return list(zip([start, *breaks], [*breaks, end]))
+
+
+def _adjacent_cells(cells):
+    """
+    Group the cells (start1, end1, start2, end2) that touch, directly or through others.
+    """
+    groups, active = {}, []
+    for cell in sorted(cells):
+        active = [other for other in active if cell[0] <= other[1]]
+        group = [cell]
+        for other in active:
+            if cell[2] <= other[3] and other[2] <= cell[3] and groups[other] is not group:
+                for member in groups[other]:
+                    group.append(member)
+                    groups[member] = group
+        groups[cell] = group
+        active.append(cell)
+    return list({id(group): group for group in groups.values()}.values())
+
+
+def _same_contact(curve1, curve2, first, second, tol):
+    """
+    True if the curves stay within the tolerance of each other between two pairs of parameters.
+    """
+    for x in np.linspace(0, 1, 9)[1:-1]:
+        t1, t2 = (float(a + (b - a) * x) for a, b in zip(first, second))
+        if np.linalg.norm(np.ravel(curve1(t1)) - np.ravel(curve2(t2))) > tol:
+            return False
+    return True
+
 
+def _refine_cell(curve1, curve2, cell, bounds1, bounds2, steps=4):
+    """
+    The closest parameters found from the middle of a cell, (distance, t1, t2).
+    """
+    start1, end1, start2, end2 = cell
+
+    def point(curve, t):
+        return np.ravel(curve(t))
+
+    def distance(t1, t2):
+        return float(np.linalg.norm(point(curve1, t1) - point(curve2, t2)))
+
+    t1, t2 = (start1 + end1) / 2, (start2 + end2) / 2
+    best = distance(t1, t2), t1, t2
+    slope1 = (point(curve1, end1) - point(curve1, start1)) / (end1 - start1)
+    slope2 = (point(curve2, end2) - point(curve2, start2)) / (end2 - start2)
+    jac = np.column_stack((slope1, -slope2))
+    for _ in range(steps):
+        delta = point(curve2, best[2]) - point(curve1, best[1])
+        d1, d2 = np.linalg.lstsq(jac, delta, rcond=1e-12)[0]
+        t1 = float(min(max(best[1] + d1, bounds1[0]), bounds1[1]))
+        t2 = float(min(max(best[2] + d2, bounds2[0]), bounds2[1]))
+        dist = distance(t1, t2)
+        if dist >= best[0]:
+            break
+        best = dist, t1, t2
+    return best
 
 
 def curve_iix(curve1, curve2, tree: ImplicitTree2D = None, rtol=None, atol=None):
-- 
2.43.0


From bd19c88fdb805f751a7106b73dfb47edd767646d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 096/294] fix: the intersections of two implicit curves are
 returned by ccx, not raised

---
 mmcore/numeric/intersection/ccx/ccx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/intersection/ccx/ccx.py b/mmcore/numeric/intersection/ccx/ccx.py
index d7d553e..89953fa 100644
--- a/mmcore/numeric/intersection/ccx/ccx.py
+++ b/mmcore/numeric/intersection/ccx/ccx.py
@@ -110,7 +110,7 @@ def ccx(curve1, curve2, tol: float = 0.01):
     elif hasattr(curve2, "evaluate") and hasattr(curve1, "evaluate"):
         return curve_ppx(curve1, curve2, tol=tol)
     elif hasattr(curve2, "implicit") and hasattr(curve1, "implicit"):
-        raise curve_iix(
+        return curve_iix(
             curve1, curve2)
     else:
         raise ValueError(
-- 
2.43.0


From 4e7f365fc8b00052495f0869d20d22af3fd28802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 097/294] fix: Boolean operations on curves decide inside by
 the winding number, with or without intersections

---
 mmcore/geom/curves/curve_bool.py | 66 +++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 23 deletions(-)

diff --git a/mmcore/geom/curves/curve_bool.py b/mmcore/geom/curves/curve_bool.py
index 505fdf8..38abe5d 100644
--- a/mmcore/geom/curves/curve_bool.py
+++ b/mmcore/geom/curves/curve_bool.py
@@ -2,11 +2,10 @@ from __future__ import annotations
 
 import numpy as np
 
-from mmcore.geom.nurbs import NURBSCurve, split_curve_multiple
+from mmcore.geom.nurbs import NURBSCurve, decompose_curve, split_curve, split_curve_multiple
 
 from mmcore.numeric.algorithms.quicksort import unique
 
-from mmcore.numeric.vectors import scalar_norm
 from mmcore.numeric.intersection.ccx import ccx
 from mmcore.numeric.vectors import scalar_cross as cross
 from typing import Optional, Tuple, List, Sequence
@@ -44,6 +43,41 @@ def unique_with_tolerance(arr, tolerance):
     return np.array(unique_values)
 
 
+def _split_inside(curve: NURBSCurve, params: Sequence[float]) -> List[NURBSCurve]:
+    """
+    Split a curve at the given parameters, those at its ends left out.
+    """
+    if not len(params):
+        return [curve]
+    start, end = curve.interval()
+    eps = 1e-9 * (end - start)
+    params = unique_with_tolerance(params, eps)
+    params = params[(params > start + eps) & (params < end - eps)]
+    return split_curve_multiple(curve, params)
+
+
+def _winding_number(pieces: Sequence[NURBSCurve], point, depth: int = 60) -> int:
+    """
+    How often the closed curve made of Bezier pieces winds around a point of its plane.
+
+    A piece whose control points lie in a box without the point turns around it by the angle between its ends;
+    the other pieces are halved.
+    """
+    x, y = point[0], point[1]
+    angle = 0.
+    stack = [(piece, depth) for piece in pieces]
+    while stack:
+        piece, left = stack.pop()
+        pts = np.asarray(piece.control_points)[:, :2] - (x, y)
+        if len(pts) > 2 and left and np.all(pts.min(axis=0) <= 0) and np.all(pts.max(axis=0) >= 0):
+            start, end = piece.interval()
+            stack.extend((half, left - 1) for half in split_curve(piece, (start + end) / 2))
+        else:
+            (x0, y0), (x1, y1) = pts[0], pts[-1]
+            angle += np.arctan2(x0 * y1 - x1 * y0, x0 * x1 + y0 * y1)
+    return int(round(angle / (2 * np.pi)))
+
+
 def curve_boolean_operation(curve1: NURBSCurve, curve2: NURBSCurve,
                             operation: BooleanOperationType = BooleanOperationType.UNION) -> List[NURBSCurve]:
     """
@@ -68,30 +102,23 @@ def curve_boolean_operation(curve1: NURBSCurve, curve2: NURBSCurve,
     # Verify curves are closed?
 
     # Find all curve intersections
-    first, second = zip(*ccx(curve1, curve2))
+    intersections = ccx(curve1, curve2)
 
     # Split both curves at intersection points
-    segments1 = split_curve_multiple(curve1, np.unique(first))
-    segments2 = split_curve_multiple(curve2, np.unique(second))
+    segments1 = _split_inside(curve1, [t for t, _ in intersections])
+    segments2 = _split_inside(curve2, [t for _, t in intersections])
 
 
     segments = []
-    min_2, max_2 = np.array(curve2.bbox())
-    min_1, max_1 = np.array(curve1.bbox())
+    pieces1 = decompose_curve(curve1)
+    pieces2 = decompose_curve(curve2)
 
 
     for seg in segments1:
         t0, t1 = seg.interval()  # Use start of segment
 
         mid = np.array(seg.evaluate((t0 + t1) / 2))
-        ray = NURBSCurve(np.array([mid, mid + np.array([1, 0, 0.]) * scalar_norm(max_2 - min_2) * 2]), degree=1)
-        rtct = list(zip(*ccx(ray, curve2, tol=1e-7)))
-        if len(rtct) == 0:
-            rt = ()
-        else:
-            rt, ct = rtct
-            rt = unique_with_tolerance(rt, 1e-5)
-        a_inside_b = len(rt) % 2
+        a_inside_b = _winding_number(pieces2, mid) % 2
         if not a_inside_b:
             if operation == BooleanOperationType.UNION:
                 segments.append(seg)
@@ -119,14 +146,7 @@ def curve_boolean_operation(curve1: NURBSCurve, curve2: NURBSCurve,
         t0, t1 = seg.interval()  # Use start of segment
 
         mid = np.array(seg.evaluate((t0 + t1) / 2))
-        ray = NURBSCurve(np.array([mid, mid + np.array([1, 0, 0.]) * scalar_norm(max_1 - min_1) * 2]), degree=1)
-        rtct = list(zip(*ccx(ray, curve1, tol=1e-7)))
-        if len(rtct) == 0:
-            rt = ()
-        else:
-            rt, ct = rtct
-            rt = unique_with_tolerance(rt, 1e-5)
-        b_inside_a = len(rt) % 2
+        b_inside_a = _winding_number(pieces1, mid) % 2
         if b_inside_a:
             if operation == BooleanOperationType.UNION:
                 pass
-- 
2.43.0


From 3851a2f3c1c827b094311a80370d3ad1c87ec699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 098/294] fix: newton_method2 solves its linear systems with
 the unknowns in their own order

---
 mmcore/numeric/newton/cnewton.pyx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/newton/cnewton.pyx b/mmcore/numeric/newton/cnewton.pyx
index 5f53044..cfd2bd6 100644
--- a/mmcore/numeric/newton/cnewton.pyx
+++ b/mmcore/numeric/newton/cnewton.pyx
@@ -318,7 +318,7 @@ cdef inline int lu_solve(double[:, ::1] A,
     """
     Solve A x = b after A has been LU-factorized in place.
     pivot_indices is the list of row permutations done during factorization.
-    b is modified in place to become the solution x.
+    b is modified in place: the component i of the solution x ends up in b[pivot_indices[i]].
     Return 0 if successful, 1 if unsuccessful (e.g., singular).
     """
     cdef:
@@ -341,6 +341,7 @@ cdef inline int lu_solve(double[:, ::1] A,
             return 1  # singular
         b[pivot_indices[i]] = sum_val / A[pivot_indices[i], i]
 
+    # The component i of the solution is now in b[pivot_indices[i]]
     return 0
 
 
@@ -360,6 +361,12 @@ cdef inline int solve_linear_system(double[:, ::1] A,
     info = lu_solve(A, n, pivot_indices, b)
     if info != 0:
         return 1  # singular
+    cdef double[::1] x = np.empty(n, dtype=np.float64)
+    cdef int i
+    for i in range(n):
+        x[i] = b[pivot_indices[i]]
+    for i in range(n):
+        b[i] = x[i]
     return 0
 
 
@@ -407,7 +414,7 @@ cdef inline int invert_matrix(double[:, ::1] A,
 
         # Write col to A_inv[:, i]
         for j in range(n):
-            A_inv[j, i] = col[j]
+            A_inv[j, i] = col[pivot_indices[j]]
 
     return 0
 
-- 
2.43.0


From 4129f0ef039543c90a76c3a179df803e72bc0d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 099/294] fix: the numerical Hessian of cnewton is not made of
 rounding errors

---
 mmcore/numeric/newton/cnewton.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/newton/cnewton.pyx b/mmcore/numeric/newton/cnewton.pyx
index cfd2bd6..5aab717 100644
--- a/mmcore/numeric/newton/cnewton.pyx
+++ b/mmcore/numeric/newton/cnewton.pyx
@@ -27,6 +27,7 @@ from libc.math cimport fabs
 
 
 cdef double DEFAULT_H = 1e-7
+cdef double DEFAULT_HESSIAN_H = 1e-4  # second differences divide the rounding errors of f by the square of the step
 
 cdef inline void swap_rows(double[:, :] LU, Py_ssize_t row1, Py_ssize_t row2) noexcept nogil:
     cdef Py_ssize_t n = LU.shape[1]
@@ -103,7 +104,7 @@ cdef inline bint solve(double[:, :] A, double[:] b, double[:] result):
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.cdivision(True)
-def hessian(f, double[:] point, double h=DEFAULT_H):
+def hessian(f, double[:] point, double h=DEFAULT_HESSIAN_H):
     """
     Calculate the Hessian matrix of a given function `f` at a given `point`.
 
-- 
2.43.0


From adcdc77cf91897e7873fdcb59a1ca84ec6c5ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 100/294] fix: numerical gradients leave the point as it was
 and accept integer points

---
 mmcore/numeric/fdm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/fdm.py b/mmcore/numeric/fdm.py
index ed20d19..c18ae89 100644
--- a/mmcore/numeric/fdm.py
+++ b/mmcore/numeric/fdm.py
@@ -430,7 +430,7 @@ def hessian(f, point, h=DEFAULT_H):
     print(hessian_matrix)
     ```
     """
-    point = np.asarray(point)
+    point = np.asarray(point, dtype=float)
     n = point.size
     H = np.zeros((n, n))
     fp = f(point)
@@ -472,7 +472,7 @@ def gradient(f, point, h=DEFAULT_H):
 
     :return: The gradient of the function at the given point.
     """
-    point = np.asarray(point)
+    point = np.array(point, dtype=float)
     grad = np.zeros_like(point)
     for i in range(point.size):
 
@@ -560,7 +560,7 @@ def hessian_multi(f, points, h=DEFAULT_H):
     print(hessian_matrix)
     ```
     """
-    points = np.array(points)
+    points = np.array(points, dtype=float)
     n = points.shape[-1]
     H = np.zeros((points.shape[0], n, n))
     fp = f(points.T)
@@ -615,7 +615,7 @@ def gradient_multi(f, points, h=DEFAULT_H):
 
     :return: The gradient of the function at the given point.
     """
-    points = np.array(points)
+    points = np.array(points, dtype=float)
     grad = np.zeros(points.shape)
 
     for i in range(points.shape[-1]):
-- 
2.43.0


From 3f2bd7fc9c0c4541e60c72d75dbcebf472e4c761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 101/294] fix: FDM.dzdx divides by the derivative of x

---
 mmcore/numeric/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/fdm.py b/mmcore/numeric/fdm.py
index c18ae89..703a842 100644
--- a/mmcore/numeric/fdm.py
+++ b/mmcore/numeric/fdm.py
@@ -197,7 +197,7 @@ class FDM:
         :return:
         """
         res = np.atleast_2d(self(t))
-        return res[..., 2] / res[..., 1]
+        return res[..., 2] / res[..., 0]
 
     def dzdy(self, t):
         """
-- 
2.43.0


From 1684f2ec91a7b4df9a65080afaecabcb3c585a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 102/294] fix: the array products of vectors do not add to
 uninitialised memory

---
 mmcore/numeric/vectors.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index c057da1..778ab66 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -45,7 +45,7 @@ cpdef dot_array_x_array(double[:,:]vec_a, double[:,:]vec_b):
         item = 0.0
         for j in range(vec_a.shape[1]):
             item += vec_a[i, j] * vec_b[i, j]
-        res[i] += item
+        res[i] = item
     return res
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -58,7 +58,7 @@ cpdef matmul_array(double[:,:,:] vec_a, double[:,:,:] vec_b):
     cdef int cols_A = vec_a.shape[2]
     cdef int rows_B = vec_b.shape[1]
     cdef int cols_B = vec_b.shape[2]
-    cdef double[:,:,:] result=np.empty((l,rows_A,cols_B))
+    cdef double[:,:,:] result=np.zeros((l,rows_A,cols_B))
     for w in range(l):
         for i in range(rows_A):
             for j in range(cols_B):
@@ -78,7 +78,7 @@ cpdef dot_vec_x_array(double[:]vec_a, double[:,:]vec_b):
         item = 0.0
         for j in range(vec_a.shape[0]):
             item += vec_a[j] * vec_b[i, j]
-        res[i] += item
+        res[i] = item
     return res
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -91,7 +91,7 @@ cpdef dot_array_x_vec(double[:,:]vec_a, double[:]vec_b):
         item = 0.0
         for j in range(vec_b.shape[0]):
             item += vec_a[i, j] * vec_b[j]
-        res[i] += item
+        res[i] = item
     return res
 
 @cython.boundscheck(False)
-- 
2.43.0


From eea239140da5368f12bf9dafbca6b9c0674f63f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 103/294] fix: gram_schmidt uses every component of its vectors

---
 mmcore/numeric/vectors.pyx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 778ab66..0f99481 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -255,7 +255,7 @@ cpdef gram_schmidt(double[:,:]vec_a,
         for j in range(vec_a.shape[1]):
             item_dot += vec_b[i, j] * vec_a[i, j]
         for k in range(vec_a.shape[1]):
-            res[i, k] = vec_b[i, j] - (vec_a[i, j] * item_dot)
+            res[i, k] = vec_b[i, k] - (vec_a[i, k] * item_dot)
     return res
 
 @cython.boundscheck(False)
@@ -495,9 +495,10 @@ cdef inline double scalar_norm2d(double[3] vec_a):
 @cython.cdivision(True)
 cpdef void scalar_gram_schmidt(double[:] vec_a,
                  double[:] vec_b, double[:] result) :
-    cdef double[3] temp=np.zeros(3)
-    scalar_mul3d(vec_a, scalar_dot(vec_b, vec_a), result)
-    sub3d(vec_b, result, result)
+    cdef double delta = scalar_dot(vec_b, vec_a)
+    cdef Py_ssize_t i
+    for i in range(vec_a.shape[0]):
+        result[i] = vec_b[i] - vec_a[i] * delta
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.cdivision(True)
-- 
2.43.0


From 3e18a36a2c32734bfcf13dec7949fbc1634ee478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 104/294] fix: invert_jacobian inverts many matrices at a time

---
 mmcore/numeric/vectors.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 0f99481..d2cbb11 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -411,6 +411,7 @@ cpdef void cinvert_jacobian_vec(double[:,:,:] J, double[:,:,:] J_inv, int[:] sta
 @cython.cdivision(True)
 cpdef invert_jacobian(J):
     cdef double[:,:] J_inv_m
+    cdef double[:,:, :] J_batch
     cdef double[:,:, :] J_inv
     cdef int[:] status
     cdef int status_m
@@ -421,9 +422,10 @@ cpdef invert_jacobian(J):
 
     else:
         J_inv = np.empty((J.shape[0], 2, 2))
-        status=np.empty((J.shape[0], 2, 2), dtype=np.intc)
+        status=np.empty((J.shape[0],), dtype=np.intc)
+        J_batch = J
         with nogil:
-            cinvert_jacobian_vec(J, J_inv,  status)
+            cinvert_jacobian_vec(J_batch, J_inv,  status)
         return J_inv, status
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From 9dbe6bcba7d6ebfce933ed1709eafda7c4616c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 105/294] fix: courtesan_to_cylindrical returns cylindrical
 coordinates

---
 mmcore/numeric/vectors.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index d2cbb11..02c2d33 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -307,8 +307,8 @@ cpdef courtesan_to_cylindrical(double[:,:]xyz):
     cdef int i
     for i in range(xyz.shape[0]):
         XsqPlusYsq = xyz[i, 0] ** 2 + xyz[i, 1] ** 2
-        pts[i, 0] = sqrt(XsqPlusYsq + xyz[i, 2] ** 2)
-        pts[i, 1] = atan2(sqrt(XsqPlusYsq), xyz[i, 2])
+        pts[i, 0] = sqrt(XsqPlusYsq)
+        pts[i, 1] = atan2(xyz[i, 1], xyz[i, 0])
         pts[i, 2] = xyz[i, 2]
     return pts
 @cython.boundscheck(False)
-- 
2.43.0


From 48ecba9da081704138044092ad3d3fa2ac3df410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 106/294] fix: the closest points on rays and lines are points,
 not offsets from the start

---
 mmcore/numeric/vectors.pyx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 02c2d33..ca7322a 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -452,6 +452,9 @@ cpdef closest_point_on_ray( double[:] start, double[:] direction,  double[:] poi
     res[0]=a[0]*direction[0]*direction[0]/directionn + a[1]*direction[0]*direction[1]/directionn + a[2]*direction[0]*direction[2]/directionn
     res[1]=a[0]*direction[0]*direction[1]/directionn + a[1]*direction[1]*direction[1]/directionn + a[2]*direction[1]*direction[2]/directionn
     res[2]=a[0]*direction[0]*direction[2]/directionn + a[1]*direction[1]*direction[2]/directionn + a[2]*direction[2]*direction[2]/directionn
+    res[0] += start[0]
+    res[1] += start[1]
+    res[2] += start[2]
     return res
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -465,7 +468,11 @@ cpdef closest_point_on_line(double[:] start,double[:] end, double[:] point):
     p[0] = point[0] - start[0]
     p[1] = point[1] - start[1]
     p[2] = point[2] - start[2]
-    return vector_projection(p, direction)
+    p = vector_projection(p, direction)
+    p[0] += start[0]
+    p[1] += start[1]
+    p[2] += start[2]
+    return p
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.cdivision(True)
-- 
2.43.0


From f6a050e78c725a273715c15eaae1b0940b58262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 107/294] fix: plane intersections choose the largest pivot, so
 that none is zero without need

---
 mmcore/numeric/plane/cplane.pyx | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/mmcore/numeric/plane/cplane.pyx b/mmcore/numeric/plane/cplane.pyx
index c19641f..c1d1cbe 100644
--- a/mmcore/numeric/plane/cplane.pyx
+++ b/mmcore/numeric/plane/cplane.pyx
@@ -11,32 +11,24 @@ cnp.import_array()
 @cython.cdivision(True)
 @cython.initializedcheck(False)
 cdef inline int find_max_row(double[5][5] m, int i, int n) noexcept nogil:
-    cdef int l= i
-    cdef int r = n - 1
-    cdef int mid
-
-    while l < r:
-        mid = (l + r) // 2
-        if fabs(m[mid][i]) > fabs(m[mid + 1][i]):
-            r = mid
-        else:
-            l = mid + 1
+    cdef int l = i
+    cdef int j
+
+    for j in range(i + 1, n):
+        if fabs(m[j][i]) > fabs(m[l][i]):
+            l = j
     return l
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.cdivision(True)
 @cython.initializedcheck(False)
 cdef inline int find_max_row_3x3(double[3][3] m, int i, int n) noexcept nogil:
-    cdef int l= i
-    cdef int r = n - 1
-    cdef int mid
-
-    while l < r:
-        mid = (l + r) // 2
-        if fabs(m[mid][i]) > fabs(m[mid + 1][i]):
-            r = mid
-        else:
-            l = mid + 1
+    cdef int l = i
+    cdef int j
+
+    for j in range(i + 1, n):
+        if fabs(m[j][i]) > fabs(m[l][i]):
+            l = j
     return l
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From 9c9bf5d7f01217386699772e08580a38e3ba9d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 108/294] fix: planes_planes_intersect returns its result

---
 mmcore/numeric/plane/cplane.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/numeric/plane/cplane.pyx b/mmcore/numeric/plane/cplane.pyx
index c1d1cbe..aa95e4d 100644
--- a/mmcore/numeric/plane/cplane.pyx
+++ b/mmcore/numeric/plane/cplane.pyx
@@ -324,6 +324,7 @@ cpdef double[:,:,:] planes_planes_intersect(double[:,:,:] planes1, double[:,:,:]
         raise ValueError("planes1 and planes2 length should be equal!")
 
     cplanes_planes_intersect(planes1,planes2,result)
+    return result
 
 
 @cython.boundscheck(False)
-- 
2.43.0


From 7fbdd18dbd5ffaeb5253fb25e9e9bc4d8d551264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 109/294] fix: plane_plane_intersection accepts grids of planes
 as its second argument

---
 mmcore/numeric/plane/cplane.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/plane/cplane.pyx b/mmcore/numeric/plane/cplane.pyx
index aa95e4d..ce8656d 100644
--- a/mmcore/numeric/plane/cplane.pyx
+++ b/mmcore/numeric/plane/cplane.pyx
@@ -427,14 +427,14 @@ def plane_plane_intersection(a, b, result=None):
         a=a_flt.reshape( a_new_shape)
         a_reshaped = True
         if result is not None:
-            result.reshape((b_new_shape[0], 2, 3))
+            result = result.reshape((a_new_shape[0], 2, 3))
     if len(b.shape) > 3:
         b_flt = b.flatten()
         b_new_shape=int(len(b_flt)//12),4,3
-        b=a_flt.reshape( b_new_shape)
+        b=b_flt.reshape( b_new_shape)
         b_reshaped = True
         if (result is not None) and (not a_reshaped):
-            result.reshape((b_new_shape[0],2,3))
+            result = result.reshape((b_new_shape[0],2,3))
 
     if len(a.shape)==3 and len(b.shape)==3:
         if result is None:
@@ -458,7 +458,7 @@ def plane_plane_intersection(a, b, result=None):
         raise ValueError("The arguments are totally incorrect!")
     if a_reshaped or b_reshaped:
 
-        return result.reshape( (*(a_initial_shape[:(len(a_initial_shape)-2)]),2,3) if a_reshaped else (*(b_initial_shape[:(len(a_initial_shape)-2)]),2,3))
+        return result.reshape( (*(a_initial_shape[:(len(a_initial_shape)-2)]),2,3) if a_reshaped else (*(b_initial_shape[:(len(b_initial_shape)-2)]),2,3))
     else:
         return result
 
-- 
2.43.0


From 71b9ad02f322b64dd99d5b92c2b0a1aff4b8fc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 110/294] fix: plane_from_normal2 makes a right-handed frame

---
 mmcore/numeric/plane/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/plane/__init__.py b/mmcore/numeric/plane/__init__.py
index 07ac6ee..d7fa229 100644
--- a/mmcore/numeric/plane/__init__.py
+++ b/mmcore/numeric/plane/__init__.py
@@ -77,7 +77,7 @@ def plane_from_normal2(origin, normal, tol=1e-5):
     else:
         normal = scalar_unit(normal)
     xaxis = scalar_unit(perp_to_vector(normal))
-    yaxis = scalar_unit(_mycross(xaxis, normal))
+    yaxis = scalar_unit(_mycross(normal, xaxis))
     return np.array([origin, xaxis, yaxis, normal])
 
 
-- 
2.43.0


From 1c8c565c80b992afea22f733204fc4ce50618129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 111/294] fix: the origin given by plane_from_eq satisfies the
 equation

---
 mmcore/numeric/plane/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/plane/__init__.py b/mmcore/numeric/plane/__init__.py
index d7fa229..b281ea4 100644
--- a/mmcore/numeric/plane/__init__.py
+++ b/mmcore/numeric/plane/__init__.py
@@ -105,7 +105,7 @@ def plane_from_eq(plane_eq):
     # Normal vector to the plane
     n = np.array([a, b, c])
     N = scalar_unit(n)
-    origin = N*d
+    origin = N * (-d / scalar_norm(n))
     # Generate a vector on the plane
     return origin,N
 
-- 
2.43.0


From 2d3fa7ed7c4e263dee20972e54fb467c39c44d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 112/294] fix: plane_ray_intersection accepts an origin and a
 normal

---
 mmcore/numeric/plane/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/numeric/plane/__init__.py b/mmcore/numeric/plane/__init__.py
index b281ea4..5531042 100644
--- a/mmcore/numeric/plane/__init__.py
+++ b/mmcore/numeric/plane/__init__.py
@@ -205,6 +205,8 @@ def plane_ray_intersection(plane, ray):
         pln=np.zeros((2,3))
         pln[0,:]=plane[0,:]
         pln[1,:] = plane[3,:]
+    else:
+        pln = plane
 
     return ray_plane_intersection(pln,ray)
 
-- 
2.43.0


From 273ef8b0aec96ea109cc340b46b08671d65a6493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 113/294] fix: plane_from_normal_origin has an x axis also at
 the foot of the world origin

---
 mmcore/numeric/plane/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/numeric/plane/__init__.py b/mmcore/numeric/plane/__init__.py
index 5531042..0ff1f2e 100644
--- a/mmcore/numeric/plane/__init__.py
+++ b/mmcore/numeric/plane/__init__.py
@@ -218,6 +218,9 @@ def plane_ray_intersection(plane, ray):
 def plane_from_normal_origin(normal, origin):
     projected = project_point_by_normal(np.array([0.0, 0.0, 0.0]), normal, origin)
     xaxis_not_unit = projected - origin
+    if scalar_norm(xaxis_not_unit) <= 1e-12 * max(1.0, scalar_norm(origin)):
+        # the origin is the projection of the world origin: any direction in the plane will do
+        xaxis_not_unit = perp_to_vector(normal)
     xaxis = xaxis_not_unit / scalar_norm(xaxis_not_unit)
     yaxis = scalar_cross(normal, xaxis)
     return np.array([origin, xaxis, yaxis, normal])
-- 
2.43.0


From 5b492e866ff6c1808c5c017a57e899259d44b0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:15 +0000
Subject: [PATCH 114/294] fix: plane_on_curve and normal_at accept the vectors
 of one curve point

---
 mmcore/numeric/numeric.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/numeric.py b/mmcore/numeric/numeric.py
index 25ac739..031784c 100644
--- a/mmcore/numeric/numeric.py
+++ b/mmcore/numeric/numeric.py
@@ -21,6 +21,13 @@ from mmcore.numeric.vectors import scalar_dot, scalar_cross, scalar_norm
 def normal_from_4pt(a,b,c,d):
     return scalar_cross(c-a,d-b)
 
+def _unit_normal(T, D2):
+    # The part of the second derivative perpendicular to the unit tangent, as a unit vector
+    T, D2 = np.asarray(T, dtype=float), np.asarray(D2, dtype=float)
+    N = D2 - T * np.sum(T * D2, axis=-1, keepdims=True)
+    return N / np.linalg.norm(N, axis=-1, keepdims=True)
+
+
 def plane_on_curve(O, T, D2):
     """
     Returns an array representing the plane on a curve.
@@ -32,16 +39,16 @@ def plane_on_curve(O, T, D2):
         plane_on_curve(O, T, D2)
     """
     # Gram-Schmidt process on T and D2 to obtain orthogonal normal
-    N = unit(gram_schmidt(T, D2))
+    N = _unit_normal(T, D2)
     # Cross product of T and N to obtain the binormal
-    B = cross(T, N)
+    B = np.cross(T, N)
     # Return array containing origin, tangent, normal and binormal
     return np.array([O, T, N, B])
 
 
 def normal_at(D1, D2):
-    N = unit(gram_schmidt(unit(D1), D2))
-    return N
+    D1 = np.asarray(D1, dtype=float)
+    return _unit_normal(D1 / np.linalg.norm(D1, axis=-1, keepdims=True), D2)
 
 
 def swap_z_to_first_der(pln):
-- 
2.43.0


From 3ee109bee7f086128afaf558eebf919c7b2c221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:15 +0000
Subject: [PATCH 115/294] fix: solve3x2 leaves its columns alone and returns x
 and y in their order

---
 mmcore/numeric/numeric.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/numeric.py b/mmcore/numeric/numeric.py
index 031784c..7d0e507 100644
--- a/mmcore/numeric/numeric.py
+++ b/mmcore/numeric/numeric.py
@@ -423,11 +423,13 @@ def solve3x2(col0, col1, d0, d1, d2):
     x, y = 0.0, 0.0
     pivot_ratio = 0.0
     err = float('inf')
+    # The elimination works on copies, the caller keeps its columns
+    col0, col1 = [float(val) for val in col0], [float(val) for val in col1]
 
-    i = np.argmax([abs(val) for val in col0 + col1])
-    if i >= 3:
+    i = int(np.argmax([abs(val) for val in col0 + col1]))
+    swapped = i >= 3
+    if swapped:
         col0, col1 = col1, col0
-        x, y = y, x
 
     if max(map(abs, col0 + col1)) == 0.0:
         return 0, x, y, err, pivot_ratio
@@ -473,6 +475,8 @@ def solve3x2(col0, col1, d0, d1, d2):
             d1 += -col1[1] * d2
         x, y, err = d0, d2, d1
 
+    if swapped:
+        x, y = y, x
     return 2, x, y, err, pivot_ratio
 
 
-- 
2.43.0


From 3f5ad430a95335b56b84982ed7b163fc82c8b0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:18 +0000
Subject: [PATCH 116/294] fix: the differences of a Curve stay inside its own
 interval and are accurate at its ends

---
 mmcore/geom/curves/curve.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index 427e819..f6643a5 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -205,18 +205,22 @@ class Curve:
         :param t:float
         :return: vector of first derivative   as numpy array of floats with shape (2,) for 2d case and (3,) for 3d case.
         """
-        if (1 - DEFAULT_H) >= t >= DEFAULT_H:
+        start, end = self.interval()
+        if (end - DEFAULT_H) >= t >= (start + DEFAULT_H):
             return (
                     (self.evaluate(t + DEFAULT_H) - self.evaluate(t - DEFAULT_H))
                     / 2
                     / DEFAULT_H
             )
-        elif t <= DEFAULT_H:
-            return (self.evaluate(t + DEFAULT_H) - self.evaluate(t)) / DEFAULT_H
-        else:
-            return (self.evaluate(t) - self.evaluate(t - DEFAULT_H)) / DEFAULT_H
+        # One-sided differences of second order keep the stencil inside the interval
+        h = DEFAULT_H if t - start < end - t else -DEFAULT_H
+        return (4 * self.evaluate(t + h) - 3 * self.evaluate(t) - self.evaluate(t + 2 * h)) / (2 * h)
 
     def second_derivative(self, t):
+        # The differences of central differences: their centre stays two steps away from the ends
+        start, end = self.interval()
+        if end - start > 4 * DEFAULT_H:
+            t = min(max(t, start + 2 * DEFAULT_H), end - 2 * DEFAULT_H)
         return self._derivatives[2](t)
 
     def add_derivative(self):
-- 
2.43.0


From 7b5445afb9bf851a680ada5ff9b79e6653cd19ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:18 +0000
Subject: [PATCH 117/294] fix: TrimmedCurve has the second derivative and the
 start of its own

---
 mmcore/geom/curves/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index f6643a5..8870526 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -381,11 +381,11 @@ class TrimmedCurve(Curve):
         self.curve = curve
         self.trim = start, end
         self.derivative = self.curve.derivative
-        self.second_derivative = self.curve.derivative
+        self.second_derivative = self.curve.second_derivative
 
     @property
     def start(self):
-        return self.start[0]
+        return self.trim[0]
 
     @start.setter
     def start(self, v):
-- 
2.43.0


From ce4b2e2afbde4d2f6c6b15d8d1e2bb4a31bd650b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:18 +0000
Subject: [PATCH 118/294] fix: OffsetCurve.offset returns the offset

---
 mmcore/geom/curves/offset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/offset.py b/mmcore/geom/curves/offset.py
index 31ac20c..5b20a31 100644
--- a/mmcore/geom/curves/offset.py
+++ b/mmcore/geom/curves/offset.py
@@ -40,7 +40,7 @@ class OffsetCurve(Curve):
 
     @property
     def offset(self):
-        return self.offset
+        return self._offset
 
     @offset.setter
     def offset(self, v):
-- 
2.43.0


From 06927e8d4c599034ccdfb3c0869371e0b7144b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:00 +0000
Subject: [PATCH 119/294] fix: evaluate_parameter_at_length counts from t0 and
 follows the interval and tolerance asked for

---
 mmcore/geom/curves/curve.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index 8870526..84dec4c 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -58,6 +58,7 @@ class Curve:
 
         self._evaluate_cached.cache_clear()
         self._evaluate_length_cached.cache_clear()
+        self._length_evaluator_key = None
 
     @property
     def tree(self):
@@ -302,10 +303,14 @@ class Curve:
         :param kwargs: Additional keyword arguments to be passed.
         :return: The parameter value at the specified length.
         """
-        if hasattr(self,'_length_evaluator'):
-            return self._length_evaluator(length)
-        else:
-            self._length_evaluator=length_evaluator(self,tol)
+        start, end = self.interval()
+        key = (start, end, tol)
+        if getattr(self, '_length_evaluator_key', None) != key:
+            self._length_evaluator = length_evaluator(self, tol)
+            self._length_evaluator_key = key
+        if t0 is not None and t0 != start:
+            # The length is counted from t0
+            length = length + self.evaluate_length((start, float(t0)), tol=tol)
 
 
         #start, end = self.interval()
-- 
2.43.0


From f06ad5b1be02f646327a5f63748ad0b11955a266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:00 +0000
Subject: [PATCH 120/294] fix: the derivatives, lengths and circles of a
 reparametrized curve are its own

---
 mmcore/geom/curves/curve.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index 84dec4c..742ca39 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -560,16 +560,21 @@ class ReparametrizedCurve(Curve):
         return self._interval
     def evaluate(self, t):
         return self.curve.evaluate(float(self.parametrization(t)))
-    def evaluate_length(self, bounds):
-        return self.curve.evaluate_length(tuple(self.parametrization(bounds)))
+    def evaluate_length(self, bounds, tol=1e-3):
+        return self.curve.evaluate_length(tuple(float(b) for b in self.parametrization(bounds)), tol)
+    def _rate(self, t):
+        # The slope of the piecewise linear parametrization
+        x, y = self.parametrization.x, self.parametrization.y
+        i = min(max(int(np.searchsorted(x, t, side='right')), 1), len(x) - 1)
+        return (y[i] - y[i - 1]) / (x[i] - x[i - 1])
     def tangent(self, t):
         return self.curve.tangent(self.parametrization(t))
     def normal(self, t):
         return self.curve.normal(self.parametrization(t))
     def derivative(self, t):
-        return self.curve.derivative(self.parametrization(t))
+        return self.curve.derivative(self.parametrization(t)) * self._rate(t)
     def second_derivative(self, t):
-        return self.curve.second_derivative(self.parametrization(t))
+        return self.curve.second_derivative(self.parametrization(t)) * self._rate(t) ** 2
     def evaluate_multi(self, t):
 
         return self.curve.evaluate_multi(self.parametrization(t))
@@ -580,7 +585,7 @@ class ReparametrizedCurve(Curve):
     def planes_at(self, t):
         return self.curve.planes_at(self.parametrization(t))
     def circle_of_curvature(self, t):
-        return self.circle_of_curvature(self.parametrization(t))
+        return self.curve.circle_of_curvature(self.parametrization(t))
 
 class ArcLengthParameterization(ReparametrizedCurve):
     def __init__(self, curve:Curve):
-- 
2.43.0


From aea6f82585eb10329c5751c0329d933fcbf4c32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 121/294] fix: an OffsetCurve has the interval of its curve

---
 mmcore/geom/curves/offset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/geom/curves/offset.py b/mmcore/geom/curves/offset.py
index 5b20a31..999cd8b 100644
--- a/mmcore/geom/curves/offset.py
+++ b/mmcore/geom/curves/offset.py
@@ -34,6 +34,9 @@ class OffsetCurve(Curve):
         self.curve = curve
         self._offset = offset
 
+    def interval(self):
+        return self.curve.interval()
+
     def evaluate(self, t):
         n = np.array(self.curve.plane_at(t))
         return n[0] + n[2] * self.offset
-- 
2.43.0


From 95f09538ae7a628b0029c4e35d1612ed64f87762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 122/294] fix: evaluate_parameter_from_length solves for the
 length instead of minimising its error with Newton's method

---
 mmcore/numeric/numeric.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mmcore/numeric/numeric.py b/mmcore/numeric/numeric.py
index 7d0e507..b33decc 100644
--- a/mmcore/numeric/numeric.py
+++ b/mmcore/numeric/numeric.py
@@ -134,21 +134,22 @@ def evaluate_parameter_from_length(
     """
 
     def func_to_bisect(t):
-        return evaluate_length(first_der, t0, t, **kwargs)[0] - l
+        return evaluate_length(first_der, t0, t, tol=tol, **kwargs)[0] - l
 
     def func(t):
-        return abs(evaluate_length(first_der, t0, t, **kwargs)[0] - l)
+        return abs(func_to_bisect(t))
 
     #return newton(
     #    func, t0, tol=tol, maxiter=maxiter, x1=t1_limit, fprime=fprime, fprime2=fprime2
     #)
-    res = iterative_divide_and_conquer_min(func, (t0, t1_limit), np.sqrt(tol))
+    start = t0
+    if t1_limit is not None:
+        start = iterative_divide_and_conquer_min(func, (t0, t1_limit), np.sqrt(tol))[0]
     if fprime is None:
-        fprime= fdm(func)
-    if fprime2 is None:
-        fprime2 = fdm(fprime)
+        # the length grows with the speed of the curve
+        fprime = lambda t: scalar_norm(first_der(t))
     return newton(
-        func, res[0], tol=tol, maxiter=maxiter, x1=t1_limit, fprime=fprime, fprime2=fprime2
+        func_to_bisect, start, tol=tol, maxiter=maxiter, fprime=fprime, fprime2=fprime2
     )
 
 
-- 
2.43.0


From 9b52e4af56f871296e9de79b3155edba7e92f6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 123/294] fix: fundamental_forms does not import scipy
 functions that are gone

---
 mmcore/geom/surfaces/fundamental_forms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/fundamental_forms.py b/mmcore/geom/surfaces/fundamental_forms.py
index a7b4e15..bab9621 100644
--- a/mmcore/geom/surfaces/fundamental_forms.py
+++ b/mmcore/geom/surfaces/fundamental_forms.py
@@ -168,7 +168,7 @@ def classify_point(K,H):
     else:
         raise ValueError('Classification fail: K={K},H={H}')
 
-from scipy.integrate import odeint, ode, solve_ivp, simps, simpson
+from scipy.integrate import odeint
 
 
 def line_of_curvature(surface, u0, v0, principal_index, t_range):
-- 
2.43.0


From 8302503421e1f6222a5b9199c5a914c1e5a10069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 124/294] fix: principal curvatures and directions at umbilic
 points and along lines of curvature

---
 mmcore/geom/surfaces/fundamental_forms.py | 28 +++++++++++++----------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/mmcore/geom/surfaces/fundamental_forms.py b/mmcore/geom/surfaces/fundamental_forms.py
index bab9621..5969046 100644
--- a/mmcore/geom/surfaces/fundamental_forms.py
+++ b/mmcore/geom/surfaces/fundamental_forms.py
@@ -58,7 +58,8 @@ def principal_curvatures(E, F, G, L, M, N):
     c = L * N - M ** 2
 
     # Solve the quadratic equation
-    discriminant = b ** 2 - 4 * a * c
+    # never negative but for rounding, zero at umbilic points
+    discriminant = np.maximum(b ** 2 - 4 * a * c, 0.0)
     k1 = (-b + np.sqrt(discriminant)) / (2 * a)
     k2 = (-b - np.sqrt(discriminant)) / (2 * a)
 
@@ -103,17 +104,20 @@ def principal_directions(E, F, G, L, M, N, k1, k2):
     :return:
     """
     # Calculate principal directions
-    a1 = L - k1 * E
-    b1 = M - k1 * F
-    a2 = L - k2 * E
-    b2 = M - k2 * F
-
-    dir1 = np.array([-b1, a1])
-    dir2 = np.array([-b2, a2])
-
-    # Normalize directions
-    dir1 = dir1 / np.linalg.norm(dir1)
-    dir2 = dir2 / np.linalg.norm(dir2)
+    def direction(k, umbilic):
+        a, b, c = L - k * E, M - k * F, N - k * G
+        # Both rows (a, b) and (b, c) are orthogonal to the direction, the larger one is the reliable one
+        res = np.array([-b, a]) if a * a + b * b >= b * b + c * c else np.array([-c, b])
+        n = np.linalg.norm(res)
+        if n <= 1e-12 * (abs(L) + abs(M) + abs(N) + abs(k) * (E + G)):
+            # every direction is a principal one
+            res = np.array(umbilic, dtype=float)
+            n = np.linalg.norm(res)
+        return res / n
+
+    # At an umbilic point: along u, and the direction orthogonal to it on the surface
+    dir1 = direction(k1, (1.0, 0.0))
+    dir2 = direction(k2, (-F, E))
 
     return dir1, dir2
 
-- 
2.43.0


From d94c49d4a3485ce6568d71521b13d15b0313d088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 125/294] fix: points of a surface are classified by its second
 fundamental form

---
 mmcore/geom/surfaces/fundamental_forms.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/surfaces/fundamental_forms.py b/mmcore/geom/surfaces/fundamental_forms.py
index 5969046..b5b1c24 100644
--- a/mmcore/geom/surfaces/fundamental_forms.py
+++ b/mmcore/geom/surfaces/fundamental_forms.py
@@ -253,10 +253,8 @@ def classify_point_dupin(k1,k2):
         return PointOnSurfaceType.HYPERBOLIC
     else:  # Parabolic or Flat point
         # t = np.linspace(-2, 2, num_points)
-        if k1 != 0:
+        if k1 != 0 or k2 != 0:
             return PointOnSurfaceType.PARABOLIC
-        elif k2 != 0:
-            return PointOnSurfaceType.FLAT
         else:
             return PointOnSurfaceType.FLAT
 
@@ -335,7 +333,7 @@ def dupin_indicatrix_on_surface(surface,u,v):
     n = scalar_cross(du, dv)
     scalar_normalize(n)
 
-    L, M, N = second_fundamental_form(np.array(n), duu, duv, dvv)
+    L, M, N = second_fundamental_form(duu, duv, dvv, np.array(n))
     k1, k2 = principal_curvatures(E, F, G, L, M, N)
     return dupin_indicatrix(k1,k2)
 
@@ -360,7 +358,7 @@ def classify_point_on_surface(surface,u,v, use_dupin=False, return_indicatrix=Fa
     n=scalar_cross(du,dv)
     scalar_normalize(n)
 
-    L,M,N=second_fundamental_form(np.array(n), duu, duv, dvv)
+    L,M,N=second_fundamental_form(duu, duv, dvv, np.array(n))
 
     if use_dupin:
         k1, k2 = principal_curvatures(E, F, G, L, M, N)
-- 
2.43.0


From 9c7b56e4937b862b10ee0720963818b846938bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 126/294] fix: distances on a surface are measured along the
 steps taken

---
 mmcore/geom/surfaces/fundamental_forms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/surfaces/fundamental_forms.py b/mmcore/geom/surfaces/fundamental_forms.py
index b5b1c24..c1fb893 100644
--- a/mmcore/geom/surfaces/fundamental_forms.py
+++ b/mmcore/geom/surfaces/fundamental_forms.py
@@ -204,7 +204,7 @@ def surface_distance( surface, u1, v1, u2, v2, num_steps=100):
     for i in range(num_steps - 1):
 
         E, F, G = first_fundamental_form(*surface.derivatives(np.array((u[i], v[i]))))
-        dl = infinitesimal_arc_length(E,F,G,du,dv)
+        dl = infinitesimal_arc_length(E, F, G, du[i], dv[i])
         lengths.append(dl)
 
     # Integrate the lengths
@@ -223,7 +223,7 @@ def predict_point(surface, u0, v0, distance, direction, step_size=0.01):
     traveled_distance = 0
     while traveled_distance < distance:
         E, F, G = first_fundamental_form(*surface.derivatives(np.array((u, v))))
-        step_length = np.sqrt(E * du ** 2 + 2 * F * du * dv + G * dv ** 2)
+        step_length = step_size * np.sqrt(E * du ** 2 + 2 * F * du * dv + G * dv ** 2)
 
         if traveled_distance + step_length > distance:
             # Adjust the last step
-- 
2.43.0


From 779d25e91f9b1a95498f1f2de63fb108e7541a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 127/294] fix: the curvature of an intersection curve has the
 normal curvatures of both surfaces

---
 mmcore/geom/surfaces/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index 63602d3..40bce2e 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -85,9 +85,13 @@ def compute_intersection_curvature(Su1, Sv1, Suu1, Suv1, Svv1, Su2, Sv2, Suu2, S
     L2 = np.dot(Suu2, N2)
     M2 = np.dot(Suv2, N2)
     N2_2 = np.dot(Svv2, N2)
-    k1 = (L1 * (np.dot(Su1, T)) ** 2 + 2 * M1 * np.dot(Su1, T) * np.dot(Sv1, T) + N1_2 * (np.dot(Sv1, T)) ** 2)
-    k2 = (L2 * (np.dot(Su2, T)) ** 2 + 2 * M2 * np.dot(Su2, T) * np.dot(Sv2, T) + N2_2 * (np.dot(Sv2, T)) ** 2)
-    curvature_vector = (k1 * N1 + k2 * N2) / (1 - cos_theta ** 2)
+    # The tangent in the parameters of either surface
+    a1, b1 = np.linalg.lstsq(np.array([Su1, Sv1]).T, T, rcond=None)[0]
+    a2, b2 = np.linalg.lstsq(np.array([Su2, Sv2]).T, T, rcond=None)[0]
+    # The normal curvatures, which are the components of the curvature vector along the normals
+    k1 = L1 * a1 ** 2 + 2 * M1 * a1 * b1 + N1_2 * b1 ** 2
+    k2 = L2 * a2 ** 2 + 2 * M2 * a2 * b2 + N2_2 * b2 ** 2
+    curvature_vector = ((k1 - k2 * cos_theta) * N1 + (k2 - k1 * cos_theta) * N2) / (1 - cos_theta ** 2)
 
     # Compute the curvature magnitude
     #curvature = np.linalg.norm(curvature_vector)
-- 
2.43.0


From a37ff8579ca8c242d12a069d83f8bee22b88569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 128/294] fix: the normal of a curve on a surface

---
 mmcore/geom/surfaces/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index 40bce2e..c157535 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -139,7 +139,7 @@ class CurveOnSurface(Curve):
 
     def normal(self, t):
         uv = self.evaluate_curve(t)
-        return np.array(scalar_cross(*scalar_unit([self.surf.normal(uv), self.tangent(t)])))
+        return np.array(scalar_cross(scalar_unit(self.surf.normal(uv)), scalar_unit(self.tangent(t))))
 
     def evaluate(self, t: float):
         return self.surf.evaluate(self.evaluate_curve(t))
-- 
2.43.0


From bac1bd6d97e7fb8d58242b717cf6d234acac027e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 129/294] fix: the y axis of Surface.plane_at is a unit vector

---
 mmcore/geom/surfaces/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index c157535..00f5600 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -268,7 +268,7 @@ class Surface:
         arr[1] /= scalar_norm(arr[1])
         arr[2] /= scalar_norm(arr[2])
         arr[2]-= arr[1]*scalar_dot(arr[2],arr[1])
-
+        arr[2] /= scalar_norm(arr[2])
 
         #n = scalar_cross(arr[0],    arr[1])
 
-- 
2.43.0


From 91ab8f6275a862bb5bf338d5e813e56aed30701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 130/294] fix: ruled surfaces of Python curves run through the
 whole intervals of their curves

---
 mmcore/geom/surfaces/__init__.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index 00f5600..0b623de 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -455,35 +455,36 @@ class Ruled(Surface):
         super().__init__()
         self.c1, self.c2 = c1, c2
         self._intervals = np.array([np.array(c1.interval()), np.array(c2.interval())])
-        self._remap_u = scalar_dot(np.array((0., 1.)), self._intervals[0])
-        self._remap_v = scalar_dot(np.array((0., 1.)), self._intervals[1])
-        self._remap_uv = np.array([self._remap_u, self._remap_v])
+        # Either curve is run through from its start to its end, at its own speed
+        self._start = self._intervals[:, 0].astype(float)
+        self._remap_uv = self._intervals[:, 1] - self._start
 
     def derivative_v(self, uv):
-        uc1uc2 = self._remap_uv * uv[0]
+        uc1uc2 = self._remap_param(uv[0])
         return self.c2.evaluate(uc1uc2[1]) - np.array(self.c1.evaluate(uc1uc2[0]))
 
     def derivative_u(self, uv):
-        uc1uc2 = self._remap_uv * uv[0]
-        return uv[1] * self.c2.derivative(uc1uc2[1]) + (1. - uv[1]) * self.c1.derivative(uc1uc2[0])
+        uc1uc2 = self._remap_param(uv[0])
+        s1, s2 = self._remap_uv
+        return uv[1] * s2 * self.c2.derivative(uc1uc2[1]) + (1. - uv[1]) * s1 * self.c1.derivative(uc1uc2[0])
 
     def second_derivative_uu(self, uv):
-        uc1uc2 = self._remap_uv * uv[0]
-
-        return uv[1] * self.c2.second_derivative(uc1uc2[1]) + (1. - uv[1]) * self.c1.second_derivative(uc1uc2[0])
+        uc1uc2 = self._remap_param(uv[0])
+        s1, s2 = self._remap_uv ** 2
+        return uv[1] * s2 * self.c2.second_derivative(uc1uc2[1]) + (1. - uv[1]) * s1 * self.c1.second_derivative(uc1uc2[0])
 
     def second_derivative_vv(self, uv):
         return np.zeros(3)
 
     def _remap_param(self, t):
-        return self._remap_uv * t
+        return self._start + self._remap_uv * t
 
     def evaluate(self, uv):
-        uc1uc2 = self._remap_uv * uv[0]
+        uc1uc2 = self._remap_param(uv[0])
 
         return (1. - uv[1]) * self.c1.evaluate(uc1uc2[0]) + uv[1] * self.c2.evaluate(uc1uc2[1])
     def evaluate_v2(self, u, v):
-        uc1uc2 = self._remap_uv * u
+        uc1uc2 = self._remap_param(u)
 
         return (1. - v) * self.c1.evaluate(uc1uc2[0]) + v * self.c2.evaluate(uc1uc2[1])
 
-- 
2.43.0


From 6833c029511c0bd587e91cf8ab15c28a6d4f1077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 131/294] fix: Coons.evaluate hands out its own array

---
 mmcore/geom/surfaces/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index 0b623de..ede8324 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -598,7 +598,7 @@ class Coons(Surface):
         #print(f'{self}.evaluate({uv})')
         #return self._rc.evaluate(uv) + self._rd.evaluate(uv[::-1]) - self._rcd.evaluate(uv)
 
-        return self._cached_eval(*uv)
+        return np.array(self._cached_eval(*uv))
     def evaluate_v2(self, u, v):
 
         return self._rc.evaluate_v2(u,v) + self._rd.evaluate_v2(v,u) - self._rcd.evaluate_v2(u,v)
-- 
2.43.0


From 88a3849b60da8ad0ac4617cbd8965990c39e0595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:18 +0000
Subject: [PATCH 132/294] fix: Surface.isocurve without limits runs from corner
 to corner

---
 mmcore/geom/surfaces/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index ede8324..d3ff058 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -305,7 +305,8 @@ class Surface:
 
     def isocurve(self, u0=-1.0, v0=-1.0, u1=-1.0, v1=-1.0):
         start, end = self.interval()
-        kfc = list((*start, *end))
+        # from the corner (u, v) = (start, start) to (end, end)
+        kfc = [start[0], end[0], start[1], end[1]]
         for i, val in enumerate((u0, v0, u1, v1)):
             if val < min(start):
                 continue
-- 
2.43.0


From ce1bd9ee4a51d038aacd114f6cdfc35118419726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 133/294] fix: evaluate_curvature_vec evaluates the curvature
 at many points

---
 mmcore/numeric/numeric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/numeric.py b/mmcore/numeric/numeric.py
index b33decc..349c33a 100644
--- a/mmcore/numeric/numeric.py
+++ b/mmcore/numeric/numeric.py
@@ -203,7 +203,8 @@ def evaluate_curvature(
         unit_tangent_vector = derivative / norm_derivative
 
         # Compute scalar component of curvature
-        negative_second_derivative_dot_tangent = -scalar_dot(
+        # np.dot also takes the read-only vectors evaluate_curvature_vec passes
+        negative_second_derivative_dot_tangent = -np.dot(
             second_derivative, unit_tangent_vector
         )
         inverse_norm_derivative_squared = 1.0 / (norm_derivative * norm_derivative)
-- 
2.43.0


From 4f877269b0cf4e3d49681f80801b81f3355946e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:04 +0000
Subject: [PATCH 134/294] fix: the limits of Surface.isocurve belong to their
 own parameters

---
 mmcore/geom/surfaces/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index d3ff058..a009102 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -303,12 +303,13 @@ class Surface:
     def interval(self):
         return (0.0, 1.0), (0.0, 1.0)
 
-    def isocurve(self, u0=-1.0, v0=-1.0, u1=-1.0, v1=-1.0):
+    def isocurve(self, u0=None, v0=None, u1=None, v1=None):
         start, end = self.interval()
         # from the corner (u, v) = (start, start) to (end, end)
         kfc = [start[0], end[0], start[1], end[1]]
         for i, val in enumerate((u0, v0, u1, v1)):
-            if val < min(start):
+            # limits below the interval of their own parameter stand for its ends
+            if val is None or val < (start, end)[i % 2][0]:
                 continue
             else:
                 kfc[i] = val
-- 
2.43.0


From 03d360be599de97598544339ff686cd272fcf541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 135/294] fix: a Cylinder along the negative x axis has a frame

---
 mmcore/geom/primitives.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/primitives.pyx b/mmcore/geom/primitives.pyx
index ada9699..4df0f32 100644
--- a/mmcore/geom/primitives.pyx
+++ b/mmcore/geom/primitives.pyx
@@ -405,7 +405,7 @@ cdef class Cylinder(ParametricSurface):
         self._interval[1][1] =  self.D_norm
 
         # Choose an arbitrary vector W that is not collinear with D_hat
-        if np.allclose(self.D_hat, [1, 0, 0]):
+        if fabs(self.D_hat[1]) < 1e-5 and fabs(self.D_hat[2]) < 1e-5:
             self.W = np.array([0., 1., 0.])
         else:
             self.W = np.array([1., 0., 0.])
-- 
2.43.0


From 9cc53c62bc45d086bd601c28a5a8d4ef0f0d5d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 136/294] fix: implicit shapes evaluate many points

---
 mmcore/geom/implicit/implicit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index 7010d17..47cc210 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -101,7 +101,7 @@ class Implicit:
         self.dxdy = fdm(self.implicit)
         self._tree = None
         #self.implicit = NpCache(self.implicit)
-        self._vimplicit = np.vectorize(self.implicit, signature="()->(i)")
+        self._vimplicit = np.vectorize(self.implicit, signature="(i)->()")
 
     def invalidate_cache(self):
         self.implicit.clear()
-- 
2.43.0


From 1cbec66dd3336e11c30eb4c64ad19bd4baf31a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 137/294] fix: Intersection2D has bounds

---
 mmcore/geom/implicit/implicit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index 47cc210..45e1bb9 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -396,7 +396,7 @@ class Intersection2D(Implicit2D):
     def solve_bounds(self):
         (axmin, aymin), (axmax, aymax) = self.a.bounds()
         (bxmin, bymin), (bxmax, bymax) = self.b.bounds()
-        self._bounds(max(axmin, bxmin), max(aymin, bymin)), (
+        self._bounds = (max(axmin, bxmin), max(aymin, bymin)), (
             min(axmax, bxmax),
             min(aymax, bymax),
         )
-- 
2.43.0


From 8fb1c3297e1582f8a404770927a557297bca9cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 138/294] fix: the difference of implicit shapes takes the
 second from the first

---
 mmcore/geom/implicit/implicit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index 45e1bb9..270a85d 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -438,7 +438,7 @@ class Sub2D(Implicit2D):
         self.b = b
 
     def implicit(self, v):
-        return np.array(op_subtraction(self.a.implicit(v), self.b.implicit(v)))
+        return np.array(op_subtraction(self.b.implicit(v), self.a.implicit(v)))
 
     def bounds(self):
         return self.a.bounds()
@@ -451,7 +451,7 @@ class Sub3D(Implicit3D):
         self.b = b
 
     def implicit(self, v):
-        return np.array(op_subtraction(self.a.implicit(v), self.b.implicit(v)))
+        return np.array(op_subtraction(self.b.implicit(v), self.a.implicit(v)))
 
     def bounds(self):
         return self.a.bounds()
-- 
2.43.0


From 91016d4270c2b701f3baa6f6856595ea76499786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 139/294] fix: trees of implicit 2D shapes are built, over the
 bounds they are given

---
 mmcore/geom/implicit/implicit.py    | 1 +
 mmcore/geom/implicit/tree/tree2d.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index 270a85d..316558d 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -262,6 +262,7 @@ class Implicit2D(Implicit):
 
     def build_tree(self, depth=3):
         self._tree = ImplicitTree2D(self.implicit, depth, bounds=self.bounds())
+        self._tree.build(depth=depth)
 
 
 from mmcore.numeric.fdm import DEFAULT_H
diff --git a/mmcore/geom/implicit/tree/tree2d.py b/mmcore/geom/implicit/tree/tree2d.py
index a56a7e0..2c82dd8 100644
--- a/mmcore/geom/implicit/tree/tree2d.py
+++ b/mmcore/geom/implicit/tree/tree2d.py
@@ -35,7 +35,7 @@ class ImplicitTree2D:
             self.depth = depth
         self.build_tree()
         self.collapse()
-        self.build_node(self._collapsed_tree, self.shape.bounds())
+        self.build_node(self._collapsed_tree, self.bounds)
 
     def build_node(self, tree, quad):
         if isinstance(tree, Empty):
-- 
2.43.0


From 5886c7732a5dfa86f7654cae1dfc02d7026c8bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 140/294] fix: trees of the sphere and cylinder primitives

---
 mmcore/geom/implicit/tree/collapse3d.py | 2 +-
 mmcore/geom/implicit/tree/tree3d.py     | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/tree/collapse3d.py b/mmcore/geom/implicit/tree/collapse3d.py
index b7fc6c0..5bc358d 100644
--- a/mmcore/geom/implicit/tree/collapse3d.py
+++ b/mmcore/geom/implicit/tree/collapse3d.py
@@ -126,7 +126,7 @@ def collapse3d(shape: Shape, tree: Tree) -> Tree:
 
     def _collapse(leaf: Leaf) -> Tree:
         (xmin, ymin, zmin), (xmax, ymax, zmax) = leaf.data
-        values = [shape(np.array((x, y, z))) for x in [xmin, xmax] for y in [ymin, ymax] for z in [zmin, zmax]]
+        values = [shape(np.array((x, y, z), dtype=float)) for x in [xmin, xmax] for y in [ymin, ymax] for z in [zmin, zmax]]
 
         if all(v < 0 for v in values):
             return Full(leaf)
diff --git a/mmcore/geom/implicit/tree/tree3d.py b/mmcore/geom/implicit/tree/tree3d.py
index 3a6b705..47cc64b 100644
--- a/mmcore/geom/implicit/tree/tree3d.py
+++ b/mmcore/geom/implicit/tree/tree3d.py
@@ -14,6 +14,8 @@ class ImplicitTree3D:
         self._tree = None
         self._collapsed_tree = None
         self.bounds = getattr(self.shape,"bounds", lambda :( (-5,-5,-5),(5,5,5.)))() if bounds is None else bounds
+        minb, maxb = self.bounds
+        self.bounds = tuple(float(x) for x in minb), tuple(float(x) for x in maxb)
 
 
     def build_tree(self):
-- 
2.43.0


From 279b778bad53ab2d254052d62e60a6f8e09758bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 141/294] fix: a Circle2D has bounds

---
 mmcore/geom/circle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmcore/geom/circle.py b/mmcore/geom/circle.py
index 51df3cd..6951bcf 100644
--- a/mmcore/geom/circle.py
+++ b/mmcore/geom/circle.py
@@ -48,6 +48,10 @@ class Circle2D(Curve, Implicit2D):
     def interval(self):
         return 0., PI2
 
+    def bounds(self):
+        x, y = self.origin[0], self.origin[1]
+        return (x - self.r, y - self.r), (x + self.r, y + self.r)
+
     def implicit(self, v) -> float:
         return np.linalg.norm(self._implicit_normal(v)) - self.r
 
-- 
2.43.0


From a1fc59bb9754b2d644beadfd3ce1699c38857347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 142/294] fix: the parameter of the point of a circle closest
 to a point

---
 mmcore/geom/circle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/circle.py b/mmcore/geom/circle.py
index 6951bcf..a720d13 100644
--- a/mmcore/geom/circle.py
+++ b/mmcore/geom/circle.py
@@ -82,7 +82,7 @@ class Circle2D(Curve, Implicit2D):
         N = self._implicit_normal(v)
         nn = np.linalg.norm(N)
         nu = N / nn
-        return v - (nu * (nn - self.r)), np.arccos(nu[0])
+        return v - (nu * (nn - self.r)), np.arctan2(nu[1], nu[0]) % PI2
 
 
 
@@ -161,4 +161,4 @@ def tangents_lines(circle: Circle2D, pt: np.ndarray):
 def closest_point_on_circle_2d(circle: Circle2D, pt: np.ndarray):
     un = circle.normal(pt)
 
-    return np.arccos(un[0]) - PI05
+    return np.arctan2(un[1], un[0]) % PI2
-- 
2.43.0


From 2743fa67ceb657267e337b832aa74ac5e73c865b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 143/294] fix: tangents_lines measures the direction of the
 point from the x axis

---
 mmcore/geom/circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/circle.py b/mmcore/geom/circle.py
index a720d13..b4cba45 100644
--- a/mmcore/geom/circle.py
+++ b/mmcore/geom/circle.py
@@ -148,7 +148,7 @@ def tangents_lines(circle: Circle2D, pt: np.ndarray):
     direct = pt[:2] - circle.origin[:2]
     b = np.hypot(*direct)  # hypot() also works here
     th = np.arccos(a / b)  # angle theta
-    d = np.arctan2(direct[0], direct[1])  # direction angle of point P from C
+    d = np.arctan2(direct[1], direct[0])  # direction angle of point P from C
     d1 = d + th  # direction angle of point T1 from C
     d2 = d - th  # direction angle of point T2 from C
 
-- 
2.43.0


From 18b772a702a13e4b9bc55a53dcd8c0b084abd1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 144/294] fix: the intersections of tangent circles, and of
 circles given by two coordinates

---
 mmcore/geom/circle.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/circle.py b/mmcore/geom/circle.py
index b4cba45..f02e54f 100644
--- a/mmcore/geom/circle.py
+++ b/mmcore/geom/circle.py
@@ -126,12 +126,12 @@ def circle_intersection2d(c1: Circle2D, c2: Circle2D):
     d = np.sqrt((x2 - x1) ** 2 + (y2 - y1) ** 2)
 
     # Check if the circles intersect
-    if d > r1 + r2 or d < np.abs(r2 - r1):
+    if d > r1 + r2 or d < np.abs(r2 - r1) or d == 0:
         raise ValueError("Circles do not intersect")
 
     # Compute the coordinates of the intersection points
     a = (r1 ** 2 - r2 ** 2 + d ** 2) / (2 * d)
-    h = np.sqrt(r1 ** 2 - a ** 2)
+    h = np.sqrt(max(r1 ** 2 - a ** 2, 0.))
     xm = x1 + a * (x2 - x1) / d
     ym = y1 + a * (y2 - y1) / d
     xs1 = xm - h * (y2 - y1) / d
@@ -139,7 +139,9 @@ def circle_intersection2d(c1: Circle2D, c2: Circle2D):
     ys1 = ym + h * (x2 - x1) / d
     ys2 = ym - h * (x2 - x1) / d
 
-    return np.array([(xs1, ys1, c1.origin[-1]), (xs2, ys2, c2.origin[-1])], float)
+    z1 = c1.origin[2] if len(c1.origin) > 2 else 0.
+    z2 = c2.origin[2] if len(c2.origin) > 2 else 0.
+    return np.array([(xs1, ys1, z1), (xs2, ys2, z2)], float)
 
 
 def tangents_lines(circle: Circle2D, pt: np.ndarray):
-- 
2.43.0


From 71214994fe8a7589951944578915dc8a7c6a7fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 145/294] fix: intersection_curve_point returns success and
 gradients together

---
 mmcore/numeric/algorithms/implicit_point.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/algorithms/implicit_point.py b/mmcore/numeric/algorithms/implicit_point.py
index a86880d..32c088e 100644
--- a/mmcore/numeric/algorithms/implicit_point.py
+++ b/mmcore/numeric/algorithms/implicit_point.py
@@ -141,7 +141,8 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
         i += 1
 
     if return_grads:
-        return (success, (qk_next, f1, f2, g1, g2)) if no_err else qk_next, f1, f2, g1, g2
+        res = (qk_next, f1, f2, g1, g2)
+        return (success, res) if no_err else res
 
     return (success, qk_next) if no_err else qk_next
 
-- 
2.43.0


From 85c48f28bcbaabdf0fbd74d1c7d7497dec736a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 146/294] fix: surface_plane takes its normal from the gradient

---
 mmcore/numeric/algorithms/implicit_point.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/algorithms/implicit_point.py b/mmcore/numeric/algorithms/implicit_point.py
index 32c088e..49dd082 100644
--- a/mmcore/numeric/algorithms/implicit_point.py
+++ b/mmcore/numeric/algorithms/implicit_point.py
@@ -216,8 +216,8 @@ def surface_point(fun, p0, grad=None, tol=1e-8):
 
 
 def surface_plane(fun, p_start, grad, tol=1e-5):
-    p, nv = surface_point(fun, p_start, grad, tol)
-    nv = _normalize3d(nv)
+    p = surface_point(fun, p_start, grad, tol)
+    nv = _normalize3d(grad(p))
 
     if abs(nv[0]) > 0.5 or abs(nv[1]) > 0.5:
         tv1 = np.array([nv[1], -nv[0], 0])
-- 
2.43.0


From a1b73ce23f2c2c06841a1031f6bb1c531220b5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 147/294] fix: raster_algorithm_2d computes its gradient and
 moves onto the curve

---
 mmcore/numeric/marching.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/marching.py b/mmcore/numeric/marching.py
index e2b1be9..857c85f 100644
--- a/mmcore/numeric/marching.py
+++ b/mmcore/numeric/marching.py
@@ -156,7 +156,7 @@ def raster_algorithm_2d(f, x_min, x_max, y_min, y_max, nx, ny, gamma=0.5, grad=N
     """Raster algorithm to find points close to the implicit curve f(x, y) = 0."""
     if grad is None:
         def grad(xy):
-            return (f((xy[0] + DEFAULT_H, xy[1])) - f((xy[0], - DEFAULT_H, xy[1]))) / (2 * DEFAULT_H), (
+            return (f((xy[0] + DEFAULT_H, xy[1])) - f((xy[0] - DEFAULT_H, xy[1]))) / (2 * DEFAULT_H), (
                     f((xy[0], xy[1] + DEFAULT_H)) - f((xy[0], xy[1] - DEFAULT_H))) / (2 * DEFAULT_H)
 
     x_vals = np.linspace(x_min, x_max, nx)
@@ -169,7 +169,7 @@ def raster_algorithm_2d(f, x_min, x_max, y_min, y_max, nx, ny, gamma=0.5, grad=N
     if general_implicit:
         curve_pt = lambda pt: curve_point(f, pt)
     else:
-        curve_pt = lambda pt: pt + grad * f_val
+        curve_pt = lambda pt: pt - grad_f * f_val
     for i, x in enumerate(x_vals):
         for j, y in enumerate(y_vals):
             xy[:] = x, y
-- 
2.43.0


From a2f30f7321e05b84fcdd31f19cbcf1b04d1840ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 148/294] fix: marching_intersection_curve_points does not
 print

---
 mmcore/numeric/marching.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mmcore/numeric/marching.py b/mmcore/numeric/marching.py
index 857c85f..adb8840 100644
--- a/mmcore/numeric/marching.py
+++ b/mmcore/numeric/marching.py
@@ -134,7 +134,6 @@ def marching_intersection_curve_points(
         # check to the point 2 steps earlier. In this case, I'm unrolling the tangent, so I've managed to get through
         # all the singularity curves I've tested so far.
         if len(points) > 1 and scalar_norm(p1 - points[len(points) - 2]) < step / 2:
-            print(0, 0)
             p1, _f1_val, _f2_val, _g1, _g2 = intersection_curve_point(f1, f2, p - step * unit_tangent, grad_f1, grad_f2,
                                                                       tol=tol, return_grads=True)
 
-- 
2.43.0


From 3ed9b167f25cdcd7d095328e1a60beb0fefdcd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:35 +0000
Subject: [PATCH 149/294] fix: the index of a dual contouring cell is not
 printed

---
 mmcore/geom/implicit/dc/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mmcore/geom/implicit/dc/__init__.py b/mmcore/geom/implicit/dc/__init__.py
index c14c0f3..e7e9573 100644
--- a/mmcore/geom/implicit/dc/__init__.py
+++ b/mmcore/geom/implicit/dc/__init__.py
@@ -204,10 +204,7 @@ def index(shape: Shape, cell: Cell) -> int:
     (xmin, ymin), (xmax, ymax) = cell
     pts = [(x, y) for y in [ymin, ymax] for x in [xmin, xmax]]
 
-    res = sum(2 ** (3 - i) if shape(pt) < 0 else 0 for i, pt in enumerate(pts))
-
-    print(pts, res)
-    return res
+    return sum(2 ** (3 - i) if shape(pt) < 0 else 0 for i, pt in enumerate(pts))
 
 
 def edges(shape: Shape, cell: Cell) -> list[tuple[Side, Side]]:
-- 
2.43.0


From cbd08fbe63614d3f6b9df1bbef51ec05b6063253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:35 +0000
Subject: [PATCH 150/294] fix: the dual contouring circle measures distances of
 arrays

---
 mmcore/geom/implicit/dc/__init__.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/implicit/dc/__init__.py b/mmcore/geom/implicit/dc/__init__.py
index e7e9573..7997414 100644
--- a/mmcore/geom/implicit/dc/__init__.py
+++ b/mmcore/geom/implicit/dc/__init__.py
@@ -39,14 +39,17 @@ def circle(center: Point, r: float) -> Shape:
     def _circle(p: Point) -> float:
         if isinstance(p, np.ndarray) and p.ndim >= 1:
             return (
-                math.sqrt(
+                np.sqrt(
                     np.sum(
-                        np.array(center).reshape(
-                            (2, *np.ones((len(p.shape) - 1,), dtype=int))
+                        (
+                            np.array(center).reshape(
+                                (2, *np.ones((len(p.shape) - 1,), dtype=int))
+                            )
+                            - p
                         )
-                        - p
+                        ** 2,
+                        axis=0,
                     )
-                    ** 2
                 )
                 - r
             )
-- 
2.43.0


From 8550ad773a98081f6f4bcfa32cf45a1729aff116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:35 +0000
Subject: [PATCH 151/294] fix: dual contouring joins the upper cells of a
 quadrant with the lower cells of the one above

---
 mmcore/geom/implicit/dc/__init__.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mmcore/geom/implicit/dc/__init__.py b/mmcore/geom/implicit/dc/__init__.py
index 7997414..724af48 100644
--- a/mmcore/geom/implicit/dc/__init__.py
+++ b/mmcore/geom/implicit/dc/__init__.py
@@ -380,15 +380,15 @@ def edgeProcV(shape, tree1, tree2):
     if isinstance(tree1, Leaf) and isinstance(tree2, Leaf):
         return [(feature(shape, tree1.data), feature(shape, tree2.data))]
     elif isinstance(tree1, Leaf) and isinstance(tree2, Root):
-        _, _, c, d = tree2.a, tree2.b, tree2.c, tree2.d
-        return edgeProcV(shape, tree1, c) + edgeProcV(shape, tree1, d)
+        a, b, _, _ = tree2.a, tree2.b, tree2.c, tree2.d
+        return edgeProcV(shape, tree1, a) + edgeProcV(shape, tree1, b)
     elif isinstance(tree1, Root) and isinstance(tree2, Leaf):
-        a, b, _, _ = tree1.a, tree1.b, tree1.c, tree1.d
-        return edgeProcV(shape, a, tree2) + edgeProcV(shape, b, tree2)
+        _, _, c, d = tree1.a, tree1.b, tree1.c, tree1.d
+        return edgeProcV(shape, c, tree2) + edgeProcV(shape, d, tree2)
     elif isinstance(tree1, Root) and isinstance(tree2, Root):
-        a, b, _, _ = tree1.a, tree1.b, tree1.c, tree1.d
-        _, _, c, d = tree2.a, tree2.b, tree2.c, tree2.d
-        return edgeProcV(shape, a, c) + edgeProcV(shape, b, d)
+        _, _, c, d = tree1.a, tree1.b, tree1.c, tree1.d
+        a, b, _, _ = tree2.a, tree2.b, tree2.c, tree2.d
+        return edgeProcV(shape, c, a) + edgeProcV(shape, d, b)
     else:
         return []
 
-- 
2.43.0


From 62ceeb22a86490a6324a683080a3f2b79045a70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:35 +0000
Subject: [PATCH 152/294] fix: dual contouring joins neighbouring cells only
 across an edge the outline crosses

---
 mmcore/geom/implicit/dc/__init__.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mmcore/geom/implicit/dc/__init__.py b/mmcore/geom/implicit/dc/__init__.py
index 724af48..460b5a9 100644
--- a/mmcore/geom/implicit/dc/__init__.py
+++ b/mmcore/geom/implicit/dc/__init__.py
@@ -359,8 +359,20 @@ def faceProc(shape, t):
         return []
 
 
+def crossed(shape, cell1, cell2, axis):
+    """
+    Does the outline cross the part of the border shared by two cells? `axis` is the direction in which cell2 follows cell1.
+    """
+    other = 1 - axis
+    ends = max(cell1[0][other], cell2[0][other]), min(cell1[1][other], cell2[1][other])
+    signs = [shape((cell1[1][0], y) if axis == 0 else (y, cell1[1][1])) < 0 for y in ends]
+    return signs[0] != signs[1]
+
+
 def edgeProcH(shape, tree1, tree2):
     if isinstance(tree1, Leaf) and isinstance(tree2, Leaf):
+        if not crossed(shape, tree1.data, tree2.data, 0):
+            return []
         return [(feature(shape, tree1.data), feature(shape, tree2.data))]
     elif isinstance(tree1, Leaf) and isinstance(tree2, Root):
         a, _, c, _ = tree2.a, tree2.b, tree2.c, tree2.d
@@ -378,6 +390,8 @@ def edgeProcH(shape, tree1, tree2):
 
 def edgeProcV(shape, tree1, tree2):
     if isinstance(tree1, Leaf) and isinstance(tree2, Leaf):
+        if not crossed(shape, tree1.data, tree2.data, 1):
+            return []
         return [(feature(shape, tree1.data), feature(shape, tree2.data))]
     elif isinstance(tree1, Leaf) and isinstance(tree2, Root):
         a, b, _, _ = tree2.a, tree2.b, tree2.c, tree2.d
-- 
2.43.0


From 6615e49d103642d63e48036a39b5db07b693052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 153/294] fix: intersection_curve_point does not take a point
 with parallel gradients for a solution

---
 mmcore/numeric/algorithms/implicit_point.py | 10 ++++++----
 mmcore/numeric/calgorithms.pxd              | 10 +++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/mmcore/numeric/algorithms/implicit_point.py b/mmcore/numeric/algorithms/implicit_point.py
index 49dd082..ef961e9 100644
--- a/mmcore/numeric/algorithms/implicit_point.py
+++ b/mmcore/numeric/algorithms/implicit_point.py
@@ -102,16 +102,17 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
     ])
 
     g = np.array([f1, f2])
-    success = solve2x2(J, -g, alpha_beta)
+    # Where the gradients are parallel there is no step, the point is a solution only if it is on both surfaces
+    solved = solve2x2(J, -g, alpha_beta) or max(abs(f1), abs(f2)) <= tol
     delta = alpha_beta[0] * grad1(qk) + alpha_beta[1] * grad2(qk)
     qk_next = delta + qk
     d = scalar_norm(qk_next - qk)
     i = 0
 
     success = True
-    while d > tol:
+    while d > tol or not solved:
 
-        if i > max_iter:
+        if i > max_iter or not solved:
             if not no_err:
                 raise ValueError(f'Maximum iterations exceeded, No convergence {d}')
             else:
@@ -129,7 +130,8 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
 
         g[:] = f1, f2
 
-        _success = solve2x2(J, -g, alpha_beta)
+        alpha_beta[:] = 0.0
+        solved = solve2x2(J, -g, alpha_beta) or max(abs(f1), abs(f2)) <= tol
 
         #alpha, beta = newton_step(qk, alpha, beta, f1, f2, g1, g2)
         #alpha, beta = newton_step(qk, alpha, beta, f1, f2, g1, g2)
diff --git a/mmcore/numeric/calgorithms.pxd b/mmcore/numeric/calgorithms.pxd
index 1f35acf..43c48b6 100644
--- a/mmcore/numeric/calgorithms.pxd
+++ b/mmcore/numeric/calgorithms.pxd
@@ -77,7 +77,6 @@ cdef inline bint cintersection_curve_point(Implicit3D surf1, Implicit3D surf2, d
     cdef double[:,:] J=np.zeros((2,2), dtype=np.double)
     cdef size_t i=0
     cdef bint success = 1
-    cdef bint _success = 0
     qk[0]=q0[0]
     qk[1]=q0[1]
     qk[2]=q0[2]
@@ -94,7 +93,9 @@ cdef inline bint cintersection_curve_point(Implicit3D surf1, Implicit3D surf2, d
 
     g[0]= -f[0]
     g[1]= -f[1]
-    success = solve2x2(J, g, alpha_beta)
+    # Where the gradients are parallel there is no step, the point is a solution only if it is on both surfaces
+    if not solve2x2(J, g, alpha_beta) and not (-tol <= g[0] <= tol and -tol <= g[1] <= tol):
+        return 0
     surf1.cgradient(qk[0], qk[1], qk[2], g1)
     surf2.cgradient(qk[0], qk[1], qk[2], g2)
 
@@ -131,7 +132,10 @@ cdef inline bint cintersection_curve_point(Implicit3D surf1, Implicit3D surf2, d
 
         g[0]= -f[0]
         g[1]= -f[1]
-        _success = solve2x2(J, g, alpha_beta)
+        alpha_beta[0] = 0.0
+        alpha_beta[1] = 0.0
+        if not solve2x2(J, g, alpha_beta) and not (-tol <= g[0] <= tol and -tol <= g[1] <= tol):
+            return 0
 
         #alpha, beta = newton_step(qk, alpha, beta, f1, f2, g1, g2)
         #alpha, beta = newton_step(qk, alpha, beta, f1, f2, g1, g2)
-- 
2.43.0


From e934ebc9cef6d039972fa897ea33c642bce48255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 154/294] fix: implicit surfaces that do not meet have no
 intersection curves

---
 mmcore/numeric/intersection/implicit_implicit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/intersection/implicit_implicit.py b/mmcore/numeric/intersection/implicit_implicit.py
index e2dbe91..c955406 100644
--- a/mmcore/numeric/intersection/implicit_implicit.py
+++ b/mmcore/numeric/intersection/implicit_implicit.py
@@ -114,7 +114,7 @@ class ImplicitIntersectionCurveIterator:
         arr = []
         if debug is not None:
 
-            for pt in np.average(self.crv.tree.border, axis=1):
+            for pt in np.reshape(self.crv.tree.border, (-1, 2, 3)).mean(axis=1):
                 dbg = []
                 success, p = intersection_curve_point(surf1=self.crv.surf1.implicit,
                                                       surf2=self.crv.surf2.implicit,
@@ -130,7 +130,7 @@ class ImplicitIntersectionCurveIterator:
                     else:
                         debug.append(dbg)
         else:
-            for pt in np.average(self.crv.tree.border, axis=1):
+            for pt in np.reshape(self.crv.tree.border, (-1, 2, 3)).mean(axis=1):
                 success, p = intersection_curve_point(self.crv.surf1.implicit,
                                                       self.crv.surf2.implicit,
                                                       pt,
-- 
2.43.0


From b694e500ef8fb022f842e5c1c690486a449acb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 155/294] fix: astuple of the implicit primitives crashed

---
 mmcore/geom/primitives.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/primitives.pyx b/mmcore/geom/primitives.pyx
index 4df0f32..234e65b 100644
--- a/mmcore/geom/primitives.pyx
+++ b/mmcore/geom/primitives.pyx
@@ -211,7 +211,7 @@ cdef class Sphere(Implicit3D):
 
 
     def astuple(self):
-        cdef tuple tpl=PyTuple_Pack(4,self.ox,self.oy,self.oz,self._radius )
+        cdef tuple tpl=(self.ox,self.oy,self.oz,self._radius)
         return tpl
 
     @property
@@ -308,7 +308,7 @@ cdef class ImplicitCylinder(Implicit3D):
         cylinder_aabb(self.ox,self.oy,self.oz,self.ex,self.ey,self.ez,self.dx,self.dy,self.dz,self._radius,self._bounds)
 
     def astuple(self):
-        cdef tuple tpl=PyTuple_Pack(7,self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius )
+        cdef tuple tpl=(self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius)
         return tpl
 
     @property
@@ -545,7 +545,7 @@ cdef class Tube(ImplicitCylinder):
     cdef void _calculate_bounds(self) noexcept nogil:
         cylinder_aabb(self.ox,self.oy,self.oz,self.ex,self.ey,self.ez,self.dx,self.dy,self.dz,self._radius+self._thickness/2, self._bounds)
     def astuple(self):
-        cdef tuple tpl = PyTuple_Pack(8, self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius, self._thickness)
+        cdef tuple tpl = (self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius, self._thickness)
         return tpl
 
 
-- 
2.43.0


From 80cbf2004eee609121a50642acc7a638f1e7fafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 156/294] fix: the derivatives of parametric surfaces are
 central differences all over their interval

---
 mmcore/geom/parametric.pyx | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index b87ae32..8c5f8e5 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -331,13 +331,15 @@ cdef class ParametricSurface:
     @cython.initializedcheck(False)
     cdef void cderivative_u(self, double u, double v,double[:] result):
         cdef double[:] dd=np.empty((3,))
-        if (1. - DEFAULT_H) >= u >= DEFAULT_H:
+        cdef double start=self._interval[0][0]
+        cdef double end=self._interval[0][1]
+        if (end - DEFAULT_H) >= u >= (start + DEFAULT_H):
             self.cevaluate(u + DEFAULT_H, v, dd)
             self.cevaluate(u- DEFAULT_H , v, result)
             sub3d(dd,result,result)
             vectors.scalar_div3d(result,2*DEFAULT_H,result)
 
-        elif u < DEFAULT_H:
+        elif u < (start + DEFAULT_H):
 
 
             self.cevaluate(u + DEFAULT_H, v, dd)
@@ -357,13 +359,15 @@ cdef class ParametricSurface:
     @cython.initializedcheck(False)
     cdef void cderivative_v(self, double u, double v,double[:] result):
         cdef double[:] dd=np.empty((3,))
-        if (1. - DEFAULT_H) >= v >= DEFAULT_H:
+        cdef double start=self._interval[1][0]
+        cdef double end=self._interval[1][1]
+        if (end - DEFAULT_H) >= v >= (start + DEFAULT_H):
             self.cevaluate(u , v+ DEFAULT_H, dd)
             self.cevaluate(u , v- DEFAULT_H, result)
             sub3d(dd,result,result)
             vectors.scalar_div3d(result,2*DEFAULT_H,result)
 
-        elif v< DEFAULT_H:
+        elif v < (start + DEFAULT_H):
 
 
             self.cevaluate(u , v+ DEFAULT_H, dd)
@@ -420,13 +424,15 @@ cdef class ParametricSurface:
     @cython.initializedcheck(False)
     cdef void csecond_derivative_uv(self, double u, double v,double[:] result):
         cdef double[:] dd=np.empty((3,))
-        if (1. - DEFAULT_H) >= v >= DEFAULT_H:
+        cdef double start=self._interval[1][0]
+        cdef double end=self._interval[1][1]
+        if (end - DEFAULT_H) >= v >= (start + DEFAULT_H):
             self.cderivative_u(u , v+ DEFAULT_H, dd)
             self.cderivative_u(u , v- DEFAULT_H, result)
             sub3d(dd,result,result)
             vectors.scalar_div3d(result,2*DEFAULT_H,result)
 
-        elif v< DEFAULT_H:
+        elif v < (start + DEFAULT_H):
 
 
             self.cderivative_u(u , v+ DEFAULT_H, dd)
-- 
2.43.0


From 734a4a6298330aa6c5ca21f5a1b640738d8007dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 157/294] fix: the implicit primitives accept read-only points,
 as those of their combinations evaluated at many points

---
 mmcore/geom/primitives.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/primitives.pyx b/mmcore/geom/primitives.pyx
index 234e65b..de085c2 100644
--- a/mmcore/geom/primitives.pyx
+++ b/mmcore/geom/primitives.pyx
@@ -144,7 +144,7 @@ cdef class Implicit3D:
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
-    def gradient(self, double[:] point):
+    def gradient(self, const double[:] point):
         cdef double x=point[0]
         cdef double y = point[1]
         cdef double z = point[2]
@@ -153,7 +153,7 @@ cdef class Implicit3D:
         return np.array(result)
     @cython.boundscheck(False)
     @cython.wraparound(False)
-    def implicit( self, double[:] point):
+    def implicit( self, const double[:] point):
         cdef double x=point[0]
         cdef double y = point[1]
         cdef double z = point[2]
@@ -422,12 +422,12 @@ cdef class Cylinder(ParametricSurface):
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
-    def gradient(self, double[:] point):
+    def gradient(self, const double[:] point):
 
         return self._implicit_prim.gradient(point)
     @cython.boundscheck(False)
     @cython.wraparound(False)
-    def implicit( self, double[:] point):
+    def implicit( self, const double[:] point):
 
         return self._implicit_prim.implicit(point)
 
-- 
2.43.0


From f7635cc48b969e2ca42560c474ff4f94531c3e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 158/294] fix: the dual contouring feature of a straight piece
 of outline lies on it

---
 mmcore/geom/implicit/dc/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/dc/__init__.py b/mmcore/geom/implicit/dc/__init__.py
index 460b5a9..7d1accc 100644
--- a/mmcore/geom/implicit/dc/__init__.py
+++ b/mmcore/geom/implicit/dc/__init__.py
@@ -331,7 +331,8 @@ def feature(shape, cell):
         a = np.stack(nms)
         b = np.array([(pt - center).dot(nm) for pt, nm in zip(pts, nms)]).reshape(-1, 1)
 
-        p = center + np.linalg.lstsq(a, b, rcond=None)[0].ravel()
+        # Almost parallel normals do not determine a point along the outline
+        p = center + np.linalg.lstsq(a, b, rcond=1e-2)[0].ravel()
         return p[0], p[1]
     else:
         return None
-- 
2.43.0


From 25e8bf8deb5ebbde539627d7474b0544e2210d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 159/294] fix: the last piece of a divided interval ends where
 the interval ends

An interval that is not a multiple of the step was continued beyond its end,
so closest points and intersections were searched, and found, outside of the
curve.
---
 mmcore/numeric/routines/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/routines/__init__.py b/mmcore/numeric/routines/__init__.py
index 64a6009..2b553c2 100644
--- a/mmcore/numeric/routines/__init__.py
+++ b/mmcore/numeric/routines/__init__.py
@@ -169,7 +169,7 @@ def cubic_spline(control_points: np.ndarray[(4, 2), np.dtype[float]]
 
 def divide_interval(start, end, step=1.):
     a = np.arange(start, end, step)
-    return np.c_[a, a + step]
+    return np.c_[a, np.minimum(a + step, end)]
 T=TypeVar("T")
 
 def column_concat(a:NDArray[T],b:NDArray[T]|T)->NDArray[T]:
-- 
2.43.0


From 4cbd7fa45d8ce3c17764f6c23d6d18cf38641003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 160/294] fix: local_closest_point_on_curve took the interval
 for the step

The interval of the curve was passed as the step of the derivative, every call
raised a ValueError.
---
 mmcore/numeric/closest_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/closest_point.py b/mmcore/numeric/closest_point.py
index 42a97b5..7358447 100644
--- a/mmcore/numeric/closest_point.py
+++ b/mmcore/numeric/closest_point.py
@@ -301,7 +301,7 @@ def local_closest_point_on_curve(curve, t0, point, tol=1e-3, **kwargs):
         # C' (u) •(C(u) - P)
         return scalar_dot(curve.derivative(t), curve.evaluate(t) - point)
 
-    dfun = bounded_fdm(fun, curve.interval())
+    dfun = bounded_fdm(fun, bounds=curve.interval())
     res = newton(fun, t0, fprime=dfun, tol=tol, **kwargs)
     return res, np.linalg.norm(curve.evaluate(res) - point)
 
-- 
2.43.0


From 394b7896499a1a4457057a476427e772945cb283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 161/294] fix: foot_point evaluates the surface at an array of
 parameters, as its first line does

---
 mmcore/numeric/closest_point.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mmcore/numeric/closest_point.py b/mmcore/numeric/closest_point.py
index 7358447..51584df 100644
--- a/mmcore/numeric/closest_point.py
+++ b/mmcore/numeric/closest_point.py
@@ -193,9 +193,8 @@ def foot_point(S, P, s0, t0, partial_derivatives=None, epsilon=1e-6, alpha_max=2
     Find the foot point on the parametric surface S(s, t) closest to the given point P.
     """
     if partial_derivatives is None:
-        _pde = PDE(S, dim=2)
-        partial_derivatives = lambda uv: _pde(uv).T
-    s, t = st = np.array([s0, t0])
+        partial_derivatives = PDE(lambda uvs: np.array([S(uv) for uv in uvs]), dim=2)
+    s, t = st = np.array([s0, t0], dtype=float)
 
     while True:
         p_i = S(st)
@@ -214,7 +213,7 @@ def foot_point(S, P, s0, t0, partial_derivatives=None, epsilon=1e-6, alpha_max=2
         q_i = p_i + delta_s * e_s + delta_t * e_t
         s_new = s + delta_s
         t_new = t + delta_t
-        p_new = S(s_new, t_new)
+        p_new = S(np.array([s_new, t_new]))
         f1 = q_i - p_i
         f2 = p_new - q_i
         # Check convergence
@@ -231,7 +230,7 @@ def foot_point(S, P, s0, t0, partial_derivatives=None, epsilon=1e-6, alpha_max=2
         t = t + alpha * delta_t
         st[0] = s
         st[1] = t
-    return S(s, t), s, t
+    return S(np.array([s, t])), s, t
 
 
 def closest_point_on_curve_single(curve, point, tol=1e-3):
-- 
2.43.0


From 259fec4d9df4138e5f99220252e41136fe6909cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 162/294] fix: point_inversion_curve returned the guess before
 the converged one, and measured the angle to C' - P

---
 mmcore/numeric/algorithms/point_inversion.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/algorithms/point_inversion.py b/mmcore/numeric/algorithms/point_inversion.py
index dbd006c..565bcab 100644
--- a/mmcore/numeric/algorithms/point_inversion.py
+++ b/mmcore/numeric/algorithms/point_inversion.py
@@ -54,9 +54,10 @@ def point_inversion_curve(curve: Curve, P: np.ndarray, u0: float, tol1: float, t
         if np.isclose(fpi, 0):
             break
 
-        ui1 = ui - fi / fpi
+        step = fi / fpi
+        ui = ui1 = ui - step
 
-        if abs(ui1 - ui) * scalar_norm(C_prime) <= tol1:
+        if abs(step) * scalar_norm(C_prime) <= tol1:
             break
         C_point = curve.evaluate(ui1)
 
@@ -65,10 +66,9 @@ def point_inversion_curve(curve: Curve, P: np.ndarray, u0: float, tol1: float, t
         C_prime = curve.derivative(ui1)
 
         if abs(scalar_dot(C_prime, C_point - P)) / (
-                scalar_norm(C_prime) * scalar_norm(C_prime - P)) <= tol2:
+                scalar_norm(C_prime) * scalar_norm(C_point - P)) <= tol2:
             break
         C_double_prime = curve.second_derivative(ui1)
-        ui = ui1
 
     return ui
 
-- 
2.43.0


From 474666ddf4cb6786aa662f23d49f55f971dc2f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 163/294] fix: point_inversion_surface tested the angle to one
 direction only

---
 mmcore/numeric/algorithms/point_inversion.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/algorithms/point_inversion.py b/mmcore/numeric/algorithms/point_inversion.py
index 565bcab..f51ce3d 100644
--- a/mmcore/numeric/algorithms/point_inversion.py
+++ b/mmcore/numeric/algorithms/point_inversion.py
@@ -187,10 +187,11 @@ def point_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: floa
         if scalar_norm( new_pt- P) <= tol1:
             break
         new_du=surface.derivative_u(ui1vi1)
+        new_dv=surface.derivative_v(ui1vi1)
 
         pt_diff= new_pt-P
-        if abs(scalar_dot(new_du, pt_diff)) / (
-                np.linalg.norm(new_du) *  np.linalg.norm(pt_diff)) <= tol2:
+        if all(abs(scalar_dot(new_d, pt_diff)) / (
+                np.linalg.norm(new_d) *  np.linalg.norm(pt_diff)) <= tol2 for new_d in (new_du, new_dv)):
             break
 
         uivi = ui1vi1
-- 
2.43.0


From e221087cefb783eb5433a95c6f36d8e642a7be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 164/294] fix: points_inversion_surface returned the guesses
 before the converged ones, stopped at points near the origin, and printed

---
 mmcore/numeric/algorithms/point_inversion.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mmcore/numeric/algorithms/point_inversion.py b/mmcore/numeric/algorithms/point_inversion.py
index f51ce3d..a610a0f 100644
--- a/mmcore/numeric/algorithms/point_inversion.py
+++ b/mmcore/numeric/algorithms/point_inversion.py
@@ -239,12 +239,11 @@ def points_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: flo
 
         f_val = f(uivi)
         g_val = g(uivi)
-        print(_, f_val, g_val)
         # Calculate the Jacobian matrix
         du = sdu(uivi)
         dv = sdv(uivi)
         du_norm = np.array(norm(du))
-        dv_norm = np.array(norm(du))
+        dv_norm = np.array(norm(dv))
 
         dot_du_du, dot_du_dv, dot_dv_dv, dot_dv_du = np.array(dot(du, du)), np.array(dot(du, dv)), np.array(
             dot(dv, dv)), np.array(dot(dv, du))
@@ -281,12 +280,11 @@ def points_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: flo
         # Solve for delta
 
         delta = _vec_solve(J, k)
-        print(_, delta)
 
         # Update u and v
         ui1vi1 = uivi - delta
 
-        mask = np.array(norm(ui1vi1) * (du_norm + dv_norm)) <= tol1
+        mask = np.array(norm(delta) * (du_norm + dv_norm)) <= tol1
 
         pt_vec = surface(ui1vi1) - P
         pt_norm = np.array(norm(pt_vec))
@@ -294,12 +292,12 @@ def points_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: flo
         #      )
         mask2 = pt_norm <= tol1
         dui1 = sdu(ui1vi1)
-        mask3 = abs(np.array(dot(dui1, pt_vec))) / np.array(norm(dui1) * pt_norm) <= tol2
+        dvi1 = sdv(ui1vi1)
+        mask3 = np.bitwise_and(abs(np.array(dot(dui1, pt_vec))) <= tol2 * np.array(norm(dui1) * pt_norm),
+                               abs(np.array(dot(dvi1, pt_vec))) <= tol2 * np.array(norm(dvi1) * pt_norm))
         mask = np.bitwise_or(mask, np.bitwise_or(mask2, mask3))
         mask_inv = np.bitwise_not(mask)
-        if np.any(mask):
-            print("M", uivi)
-        result_uv[mask_indices[mask]] = uivi[mask]
+        result_uv[mask_indices] = ui1vi1
 
         mask_indices = mask_indices[mask_inv]
         #uivi[mask_inv]=ui1vi1[mask_inv]
-- 
2.43.0


From 26b3e2624cffd161cebb904d7022821829eb4cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 165/294] fix: divide_and_conquer_min_2d_vectorized stopped
 when the first of its points had converged

---
 mmcore/numeric/divide_and_conquer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/divide_and_conquer.py b/mmcore/numeric/divide_and_conquer.py
index 4e7764f..1853902 100644
--- a/mmcore/numeric/divide_and_conquer.py
+++ b/mmcore/numeric/divide_and_conquer.py
@@ -231,7 +231,7 @@ def divide_and_conquer_min_2d_vectorized(f, x_range, y_range, tol=1e-6):
     tol=tol/2
     x_min, x_max = x_range
     y_min, y_max = y_range
-    while np.all((x_max - x_min) > tol) or np.all((y_max - y_min) > tol):
+    while np.any((x_max - x_min) > tol) or np.any((y_max - y_min) > tol):
         x_mid = (x_min + x_max) / 2
         y_mid = (y_min + y_max) / 2
         # Evaluate the function at the corners and midpoints of the edges
-- 
2.43.0


From 1b8801fc77088beb8094817df5beab24a4cdcb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 166/294] fix: closest_point_on_surface returned parameters
 outside the surface for points near its border

---
 mmcore/numeric/closest_point.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/numeric/closest_point.py b/mmcore/numeric/closest_point.py
index 51584df..367f642 100644
--- a/mmcore/numeric/closest_point.py
+++ b/mmcore/numeric/closest_point.py
@@ -365,6 +365,8 @@ def closest_point_on_surface(self: Surface, pt, tol=1e-3, bounds=None):
         uv = newtons_method(wrp1, initial, tol=tol)
         if uv is None:
             raise ValueError('Newtons method failed to converge')
+        if not (umin <= uv[0] <= umax and vmin <= uv[1] <= vmax):
+            return np.array(divide_and_conquer_min_2d(wrp, (umin, umax), (vmin, vmax), tol))
         return uv
 
 
-- 
2.43.0


From 65469f7bed2230561590ef71c7abef8444f7ffce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 167/294] fix: the difference of two intervals took lower from
 lower and upper from upper

---
 mmcore/numeric/interval/_interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index b5d0311..dc73745 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -42,7 +42,7 @@ class Interval:
 
     def __sub__(self, other):
         if isinstance(other, Interval):
-            return Interval(self.low - other.low, self.upp - other.upp)
+            return Interval(self.low - other.upp, self.upp - other.low)
         return Interval(self.low - other, self.upp - other)
 
     def __mul__(self, other):
-- 
2.43.0


From e9040eef953599d5ad7e751b46e1dfa9601d6d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 168/294] fix: an interval times or divided by a negative
 number was upside down

---
 mmcore/numeric/interval/_interval.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index dc73745..6fd6d0c 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -49,14 +49,16 @@ class Interval:
         if isinstance(other, Interval):
             products = [self.low * other.low, self.low * other.upp, self.upp * other.low, self.upp * other.upp]
             return Interval(min(products), max(products))
-        return Interval(self.low * other, self.upp * other)
+        products = [self.low * other, self.upp * other]
+        return Interval(min(products), max(products))
 
     def __truediv__(self, other):
         if isinstance(other, Interval):
 
             reciprocals = [1 / other.low, 1 / other.upp]
             return self * Interval(min(reciprocals), max(reciprocals))
-        return Interval(self.low / other, self.upp / other)
+        quotients = [self.low / other, self.upp / other]
+        return Interval(min(quotients), max(quotients))
 
     def __contains__(self, item):
         if isinstance(item, Interval):
-- 
2.43.0


From 2ac9c4da0dfd25767d548fcb21b9c6e4072e4742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 169/294] fix: the quotient by an interval around zero is
 unbounded

---
 mmcore/numeric/interval/_interval.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index 6fd6d0c..30f3688 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -54,9 +54,9 @@ class Interval:
 
     def __truediv__(self, other):
         if isinstance(other, Interval):
-
-            reciprocals = [1 / other.low, 1 / other.upp]
-            return self * Interval(min(reciprocals), max(reciprocals))
+            if other.low < 0 < other.upp:
+                return ~other
+            return self * ~other
         quotients = [self.low / other, self.upp / other]
         return Interval(min(quotients), max(quotients))
 
-- 
2.43.0


From b6beff07cc011d529285f347296ceda03b7e0df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 170/294] fix: even powers of an interval around zero start at
 zero, and negative powers are reciprocals

---
 mmcore/numeric/interval/_interval.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index 30f3688..b70c3dc 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -155,10 +155,7 @@ class Interval:
 
     @staticmethod
     def pow(base, exp):
-        if exp % 2 == 0:
-            return Interval(min(base.low ** exp, base.upp ** exp), max(base.low ** exp, base.upp ** exp))
-        else:
-            return Interval(base.low ** exp, base.upp ** exp)
+        return base ** exp
 
 
     def __iadd__(self, other):
@@ -200,7 +197,12 @@ class Interval:
         return np.array(self.to_tuple(), dtype=dtype)
 
     def __pow__(self, exp):
+        if exp < 0:
+            return ~(self ** -exp)
         if exp % 2 == 0:
-            return Interval(min(self.low ** exp, self.upp ** exp), max(self.low ** exp, self.upp ** exp))
+            powers = [self.low ** exp, self.upp ** exp]
+            if exp > 0 and self.low < 0 < self.upp:
+                powers.append(0)
+            return Interval(min(powers), max(powers))
         else:
             return Interval(self.low ** exp, self.upp ** exp)
\ No newline at end of file
-- 
2.43.0


From 6756483b0f78b9b86aef338e38a1d8b1b54f0534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 171/294] fix: an interval compared to a number inside it is
 uncertain, as with an interval inside it

---
 mmcore/numeric/interval/_interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index b70c3dc..14082c6 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -73,7 +73,7 @@ class Interval:
                 return Comparison.FALSE  # Definitely greater than
             else:
                 return Comparison.MAYBE  # Overlapping intervals, uncertain comparison
-        return Comparison.TRUE if self.upp < other else Comparison.FALSE
+        return self.compare(Interval(other))
 
     def __lt__(self, other):
         comp = self.compare(other)
-- 
2.43.0


From 1408b1ba55e69fd1a8dff5493ab59eca7d6e3aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 172/294] fix: Interval.from_tuple called itself for ever

---
 mmcore/numeric/interval/_interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index 14082c6..fc0e0e7 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -184,7 +184,7 @@ class Interval:
     @classmethod
     def from_tuple(cls, t):
 
-        return cls(cls.from_tuple(t[0]), cls.from_tuple(t[1]))
+        return cls(t[0], t[1])
 
     def to_tuple(self):
 
-- 
2.43.0


From 5f5104bf34436ffa66c241cf3e762032331c7534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 173/294] fix: gauss_map could not be imported before the
 package that imports it

---
 mmcore/numeric/gauss_map.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/gauss_map.py b/mmcore/numeric/gauss_map.py
index 508385a..88a1b28 100644
--- a/mmcore/numeric/gauss_map.py
+++ b/mmcore/numeric/gauss_map.py
@@ -7,9 +7,6 @@ from mmcore.geom.nurbs import NURBSSurface, subdivide_surface, decompose_surface
 
 from mmcore.numeric.algorithms.quicksort import unique
 
-from mmcore.numeric.algorithms.surface_area import v_min
-from mmcore.numeric.intersection.csx import nurbs_csx
-from mmcore.numeric.intersection.ssx.boundary_intersection import extract_isocurve
 from mmcore.numeric.monomial import bezier_to_monomial, monomial_to_bezier
 from mmcore.numeric.vectors import unit, scalar_dot, scalar_norm
 from mmcore.numeric.algorithms.cygjk import gjk
@@ -645,6 +642,8 @@ def detect_intersections(surf1, surf2, tol=0.1, debug_tree: DebugTree=None) -> l
 
 
 if __name__ == "__main__":
+    from mmcore.numeric.intersection.csx import nurbs_csx
+    from mmcore.numeric.intersection.ssx.boundary_intersection import extract_isocurve
     from mmcore._test_data import ssx as td
 
     S1, S2 = td[1]
-- 
2.43.0


From 2f19a6e27738da8a4edb3c7b5efe048a5db41bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 174/294] fix: is_bezier failed for every surface and looked at
 one direction only

---
 mmcore/numeric/gauss_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/gauss_map.py b/mmcore/numeric/gauss_map.py
index 88a1b28..d3348c9 100644
--- a/mmcore/numeric/gauss_map.py
+++ b/mmcore/numeric/gauss_map.py
@@ -107,7 +107,7 @@ def cross_product(a, b):
 
 
 def is_bezier(surface: NURBSSurface):
-    kv, ku = unique(surface.knots_u).shape[0], unique(surface.knots_u).shape[0]
+    ku, kv = (np.array(unique(np.array(knots))) for knots in (surface.knots_u, surface.knots_v))
     if kv.shape[0] < 2 or ku.shape[0] < 2:
         raise ValueError("Degenerated patch")
 
-- 
2.43.0


From ea3caf474ee019eec17e9c7b0d8fcb3e54eb9498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 175/294] fix: the cross product of monomial forms printed its
 index set

---
 mmcore/numeric/monomial.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mmcore/numeric/monomial.py b/mmcore/numeric/monomial.py
index 6c89eec..40ab1d0 100644
--- a/mmcore/numeric/monomial.py
+++ b/mmcore/numeric/monomial.py
@@ -193,7 +193,6 @@ def cross_product_monomial(a_coeffs, b_coeffs):
     n, m = n1 + n2 - 1, m1 + m2 - 1
 
     result = np.zeros((n, m, 3))
-    print(list(product(range(n1), range(m1), range(n2), range(m2))))
 
     for i1, j1, i2, j2 in product(range(n1), range(m1), range(n2), range(m2)):
         i, j = i1 + i2, j1 + j2
-- 
2.43.0


From 151e931636267b801c5dd621d84e401418b47c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 176/294] fix: monomial forms and Bezier patches were converted
 into each other without changing the basis

---
 mmcore/numeric/monomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/monomial.py b/mmcore/numeric/monomial.py
index 40ab1d0..d8f0896 100644
--- a/mmcore/numeric/monomial.py
+++ b/mmcore/numeric/monomial.py
@@ -294,12 +294,12 @@ class Monomial2D(Surface):
         m,n=self.coeffs.shape[:2]
         m-=1
         n-=1
-        return NURBSSurface(self.coeffs, (m,n))
+        return NURBSSurface(self.to_bernstein_basis(), (m,n))
     def evaluate_v2(self, u,v):
         return evaluate_monomial2d(self.coeffs, u, v)
     @classmethod
     def from_bezier(cls, surf:NURBSSurface):
-        return cls(np.array(surf.control_points).copy())
+        return cls.from_bernstein_basis(np.array(surf.control_points))
 
     @classmethod
     def from_nurbs(cls, surf: NURBSSurface):
-- 
2.43.0


From 11b6a6dfdccd3fc0317443714e162e1fe24ff66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 177/294] fix: the dot product of the vector helpers called a
 function that was not there

---
 mmcore/geom/vec/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/vec/__init__.py b/mmcore/geom/vec/__init__.py
index d911247..ca12942 100644
--- a/mmcore/geom/vec/__init__.py
+++ b/mmcore/geom/vec/__init__.py
@@ -160,7 +160,10 @@ def dot(a, b):
     :return: The dot product of `a` and `b`.
     :rtype: numpy.ndarray[Any, numpy.dtype[float]]
     """
-    return scalar_dot(a, b)
+    a, b = np.asarray(a), np.asarray(b)
+    if a.ndim == 1 and b.ndim == 1:
+        return np.dot(a, b)
+    return np.sum(a * b, axis=-1)
 
 def perp2d(v):
     """
-- 
2.43.0


From 69f2ef6d97388c3d648304de51a70e507a3a50fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 178/294] fix: the angle of parallel unit vectors was refused
 when rounding took their product past one

---
 mmcore/geom/vec/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/vec/__init__.py b/mmcore/geom/vec/__init__.py
index ca12942..c763f6c 100644
--- a/mmcore/geom/vec/__init__.py
+++ b/mmcore/geom/vec/__init__.py
@@ -57,11 +57,11 @@ def angle(a, b):
         if (not 0.9999 <= np.linalg.norm(a) <= 1.0001) or (not 0.9999 <= np.linalg.norm(b) <= 1.0001):
             raise ValueError("Both input vectors must be normalized.")
 
-    cos_angle = np.dot(a, b)
-    if cos_angle < -1 or cos_angle > 1:
+    cos_angle = dot(a, b)
+    if np.any(np.abs(cos_angle) > 1. + 1e-9):
         raise ValueError("Dot product must be in the range [-1, 1]. Please check your input vectors.")
 
-    return np.arccos(np.dot(a, b))
+    return np.arccos(np.clip(cos_angle, -1., 1.))
 
 
 
-- 
2.43.0


From 970af34e07021ac40c6a3958a648c78b2d6d6881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 179/294] fix: norm and unit took neither lists nor integer
 vectors

---
 mmcore/geom/vec/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/geom/vec/__init__.py b/mmcore/geom/vec/__init__.py
index c763f6c..15136e3 100644
--- a/mmcore/geom/vec/__init__.py
+++ b/mmcore/geom/vec/__init__.py
@@ -95,6 +95,7 @@ def norm(v):
         :rtype: float | numpy.ndarray[Any, numpy.dtype[float]]
 
     """
+    v = np.asarray(v, dtype=float)
     if v.shape[-1]==2:
         return np.hypot(v[...,0],v[...,1])
     elif len(v.shape)==1:
@@ -130,6 +131,7 @@ def unit(v: 'list|tuple|np.ndarray') -> np.ndarray:
     :rtype: numpy.ndarray[Any, numpy.dtype[float]]
     """
 
+    v = np.asarray(v, dtype=float)
     return np.array(vectors.scalar_unit(v) )if len(v.shape)==1 else np.array(vectors.unit(v))
 
 
-- 
2.43.0


From 042da82b65f84590c564edab38443d9f3e883488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 180/294] fix: the cross product of the vector helpers took no
 lists, integers or rows of vectors

---
 mmcore/geom/vec/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/vec/__init__.py b/mmcore/geom/vec/__init__.py
index 15136e3..8a3c516 100644
--- a/mmcore/geom/vec/__init__.py
+++ b/mmcore/geom/vec/__init__.py
@@ -150,7 +150,10 @@ def cross(a, b):
     :rtype: numpy.ndarray[Any, numpy.dtype[float]] or array-like
     """
 
-    return vectors.scalar_cross(a, b)
+    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
+    if a.ndim == 1 and b.ndim == 1:
+        return np.array(vectors.scalar_cross(a, b))
+    return np.cross(a, b)
 
 
 def dot(a, b):
-- 
2.43.0


From 9199e20c7a06052e8ccb3898bb6703261a2ddc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 181/294] fix: orthonormalize overwrote its arguments

---
 mmcore/geom/vec/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/vec/__init__.py b/mmcore/geom/vec/__init__.py
index 8a3c516..97ae261 100644
--- a/mmcore/geom/vec/__init__.py
+++ b/mmcore/geom/vec/__init__.py
@@ -309,7 +309,7 @@ Out:
  array([-0.00107956, -0.21301218, -0.97704895]))
     """
     u = u / np.linalg.norm(u)  # Ensure u is a unit vector
-    v -= u * np.dot(u, v)  # Make v orthogonal to u
+    v = v - u * np.dot(u, v)  # Make v orthogonal to u
 
     # Re-normalize v in case it's very close to zero
     if (np.linalg.norm(v) > 1e-10):
@@ -318,7 +318,7 @@ Out:
         raise ValueError('Vectors u and v are parallel')
 
     # w vector
-    w -= u * np.dot(u, w)
+    w = w - u * np.dot(u, w)
     w -= v * np.dot(v, w)
 
     # Re-normalize w
-- 
2.43.0


From c2d48493494216fc945a7055a92289c65424b21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 182/294] fix: the area of a polygon with integer corners could
 not be computed

---
 mmcore/geom/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index 72622fd..319201d 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -87,7 +87,7 @@ def polygon_area(poly, cast_to_numpy=True) -> float:
     """
 
     if cast_to_numpy:
-        poly = np.array(poly)
+        poly = np.array(poly, dtype=float)
     length = poly.shape[0] - 1
     return np.abs(scalar_dot(poly[:length, 1], poly[1:, 0]) - scalar_dot(poly[:length, 0], poly[1:, 1])) / 2
 
-- 
2.43.0


From 7a7cbcd72e096698600047a2d9c11f8d6dbbc441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 183/294] fix: clipping a polygon that lies outside the clip
 polygon failed

---
 mmcore/geom/polygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index 319201d..f4e0b35 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -128,6 +128,8 @@ def clip(subjectPolygon, clipPolygon):
         cp2 = clipVertex
         inputList = outputList
         outputList = []
+        if len(inputList) == 0:
+            break
         s = inputList[-1]
         for subjectVertex in inputList:
             e = subjectVertex
-- 
2.43.0


From 149f412e4fecc97c49bc9a8729179ee93e19bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 184/294] fix: the inside test of polygon corners ended its ray
 at x = 1000000 and miscounted corners at its height

---
 mmcore/geom/polygon.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index f4e0b35..3e6d9c0 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -206,10 +206,12 @@ class Vertex:
         an odd number means it lies INSIDE it.
         """
         winding_number = 0
-        infinity = Vertex((1000000, self.y))
         for q in poly.__iter__():
-            if not q.intersect and intersect(self, infinity, q, poly.next(q.next)):
-                winding_number += 1
+            if not q.intersect:
+                e = poly.next(q.next)
+                if (q.y > self.y) != (e.y > self.y):
+                    if q.x + (self.y - q.y) * (e.x - q.x) / (e.y - q.y) > self.x:
+                        winding_number += 1
 
         return (winding_number % 2) != 0
 
-- 
2.43.0


From b13fa78160e1bf832cf3f7be37da58bf79ce7d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 185/294] fix: boolean operations on polygons that do not cross
 always returned the first one

---
 mmcore/geom/polygon.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index 3e6d9c0..45fb91c 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -435,6 +435,10 @@ class Polygon:
 
         f = True, b = False when stored in the entry record
         """
+        # the intersections found by an earlier operation are dropped
+        self, clip = self._outline(), clip._outline()
+        operation = (s_entry, c_entry)
+
         # phase one - find intersections
         for s in self.__iter__():  # for each vertex Si of subject polygon do
             if not s.intersect:
@@ -494,7 +498,24 @@ class Polygon:
             list.append(clipped)
 
         if not list:
-            list.append(self)
+            # the boundaries do not cross: one polygon contains the other or they are apart
+            s_inside = self.head.isInside(clip)
+            c_inside = clip.head.isInside(self)
+            if operation == (True, True):  # intersection
+                if s_inside:
+                    list.append(self)
+                elif c_inside:
+                    list.append(clip)
+            elif operation == (False, True):  # difference
+                if not s_inside:
+                    list.append(self)
+                    if c_inside:
+                        list.append(clip)  # the boundary of the hole
+            else:  # union
+                if not s_inside:
+                    list.append(self)
+                if not c_inside:
+                    list.append(clip)
 
         return list
 
@@ -502,6 +523,10 @@ class Polygon:
         i, alphaS, alphaC = intersect(s_node, self.next(s_node.next), clip_node, clip.next(clip_node.next))
         return i, alphaS, alphaC
 
+    def _outline(self):
+        """A copy of this polygon that consists of its original vertices only."""
+        return self.__class__([v._array for v in self.__iter__() if not v.intersect])
+
     def __copy__(self):
         return self.__class__(np.copy(self.corners))
 
-- 
2.43.0


From 305e40d42c1548390fa4731d3235c0fedb07a762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 186/294] fix: refining a polygon left collinear corners that
 follow a removed one

---
 mmcore/geom/polygon.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index 45fb91c..aad68c9 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -399,15 +399,16 @@ class Polygon:
         return angle3pt(crn[..., 0, :], crn[..., 1, :], crn[..., 2, :])
 
     def refine(self):
-        node = self.head
-        while True:
-            if node.next is self.head:
-                break
-            node = node.next
+        node = self.head.next
+        while node is not self.head:
             if np.allclose(np.abs(node.dot), 1.):
                 node.previous.next = node.next
                 node.next.previous = node.previous
-                node = node.next
+            node = node.next
+        if node.next is not node.previous and np.allclose(np.abs(node.dot), 1.):
+            node.previous.next = node.next
+            node.next.previous = node.previous
+            self.head = node.next
 
     def clip(self, clip, s_entry, c_entry):
         """Clip this polygon using another one as a clipper.
-- 
2.43.0


From 5163828ecf4101bfb46c56369a57af788e0327b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 187/294] fix: a point in the lower corner of the box of a
 polygon could be taken for a point inside it

---
 mmcore/geom/polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index aad68c9..6626d33 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -683,7 +683,8 @@ def point_in_polygon(points: np.ndarray, point: np.ndarray, segments=None, poly_
         points = points[1:]
     if segments is None:
         segments = segments_by_loop(points)
-    segment = np.array([point, point + poly_aabb[1] - poly_aabb[0]])
+    # the far end of the segment lies outside the box whatever the point is
+    segment = np.array([point, point + 2 * (np.asarray(poly_aabb[1]) - poly_aabb[0])])
 
     bbox_segm = aabb(segment)
     cnt = 0
-- 
2.43.0


From c0d7e1d745ca876bd599e6929205d6ad542a0eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 188/294] fix: point in polygon tests did not take the tree
 built for them

---
 mmcore/geom/polygon.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index 6626d33..d4259eb 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -782,7 +782,7 @@ def is_point_in_polygon_bvh(polygon, point):
     """
 
     :param point:
-    :param polygon:
+    :param polygon: the vertices of the polygon or the tree polygon_build_bvh built from them
     :return:
 
     Example
@@ -798,7 +798,10 @@ def is_point_in_polygon_bvh(polygon, point):
     x, y = point
     intersections = 0
 
-    bvh_root = polygon_build_bvh(tuple(tuple(pt) for pt in polygon))
+    if isinstance(polygon, BVHNode):
+        bvh_root = polygon
+    else:
+        bvh_root = polygon_build_bvh(tuple(tuple(pt) for pt in polygon))
     def intersect_ray(node):
         nonlocal intersections
         if node is None or not node.bounding_box.intersects_ray(x, y):
-- 
2.43.0


From 791f1c0c607952a4ee594850be783417fd8df30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 189/294] fix: the outline tree of a curve on a surface was
 built from its edges as if they were points

---
 mmcore/geom/surfaces/__init__.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index a009102..905e450 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -116,18 +116,24 @@ class CurveOnSurface(Curve):
     def build_uv_bvh(self):
         if hasattr(self.curve, 'degree'):
             if self.curve.degree == 1:
-                self._polygon = self.curve.evaluate_multi(np.arange(*self.curve.interval()))[:, :2]
+                start, end = self.curve.interval()
+                params = np.unique(np.concatenate([(start, end), getattr(self.curve, 'knots', np.arange(start, end))]))
+                params = params[(params >= start) & (params <= end)]
+                self._polygon = self._evaluate_uv(params)
 
             elif hasattr(self.curve, 'points'):
-                self._polygon = self.curve.points()[:, :2]
+                self._polygon = np.asarray(self.curve.points())[:, :2]
 
             else:
-                self._polygon = self.curve(np.linspace(*self.curve.interval(), 50))[:, :2]
+                self._polygon = self._evaluate_uv(np.linspace(*self.curve.interval(), 50))
         else:
-            self._polygon = self.curve(np.linspace(*self.curve.interval(), 50))[:, :2]
+            self._polygon = self._evaluate_uv(np.linspace(*self._interval, 50))
         self._edges = [(self._polygon[i], self._polygon[(i + 1) % len(self._polygon)]) for i in
                        range(len(self._polygon))]
-        self._bvh_uv_root = polygon_build_bvh(tuple(tuple(i) for i in self._edges))
+        self._bvh_uv_root = polygon_build_bvh([tuple(uv) for uv in self._polygon])
+
+    def _evaluate_uv(self, params):
+        return np.array([self.evaluate_curve(t) for t in params])
 
     def plane_at(self, t):
         O = self.evaluate(t)
-- 
2.43.0


From 2288739ced779bc5ab5567b4e6df2d9973390a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 190/294] fix: the test of points against closed curves counted
 the crossings with a whole line

---
 mmcore/numeric/algorithms/point_in_curve.py | 31 ++++++++++++---------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/mmcore/numeric/algorithms/point_in_curve.py b/mmcore/numeric/algorithms/point_in_curve.py
index 8313c73..02fcba4 100644
--- a/mmcore/numeric/algorithms/point_in_curve.py
+++ b/mmcore/numeric/algorithms/point_in_curve.py
@@ -2,10 +2,10 @@ from typing import Union
 
 import numpy as np
 
-from mmcore.numeric.intersection.ccx import curve_x_ray
+from mmcore.numeric.intersection.ccx.ccx import _smooth_ranges
 from mmcore.geom.curves.curve import Curve
 from mmcore.geom.implicit import Implicit2D
-from mmcore.geom.polygon import is_point_in_polygon_bvh,polygon_build_bvh,segments_by_loop
+from mmcore.geom.polygon import is_point_in_polygon
 
 def _is_closed_curve(crv: Curve):
     pt1, pt2 = crv.evaluate_multi(np.array(crv.interval(), dtype=float))
@@ -16,17 +16,22 @@ def point_in_parametric_curve(crv: Curve, xyz):
 
     if not _is_closed_curve(crv):
         return False
-    if hasattr(crv,'degree'):
-        if crv.degree==1:
-            polygon=crv.evaluate_multi(np.arange(*crv.interval()))
-            edges = [(polygon[i], polygon[(i + 1) % len(polygon)]) for i in range(len(polygon))]
-            bvh_root=polygon_build_bvh(edges)
-            is_point_in_polygon_bvh(bvh_root,xyz)
-    crr=crv.interval()
-    rngg=crr[1]-crr[0]
-    print(rngg)
-
-    return (len(curve_x_ray(crv, xyz, axis=0,step= rngg)) % 2) > 0
+    xy = np.array(xyz[:2], dtype=float)
+    # Chords on which the curve can be moved without passing over the point.
+    polygon = []
+    ranges = list(reversed(_smooth_ranges(crv, crv.interval())))
+    while ranges:
+        start, end = ranges.pop()
+        pts = np.array([crv.evaluate(t)[:2] for t in np.linspace(start, end, 8)])
+        pad = np.abs(np.diff(pts, n=2, axis=0)).max(axis=0)
+        low, high = pts.min(axis=0) - pad, pts.max(axis=0) + pad
+        mid = start + (end - start) / 2
+        if np.all(low <= xy) and np.all(xy <= high) and np.max(high - low) > 1e-9 and start < mid < end:
+            ranges.extend([(mid, end), (start, mid)])
+        else:
+            polygon.append(tuple(pts[0]))
+
+    return bool(is_point_in_polygon(tuple(xy), polygon))
 
 
 def point_in_implicit_curve(crv: Implicit2D, xyz):
-- 
2.43.0


From 7d5bf85c71132ff2912e079adc00a90f4a79f438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 191/294] fix: the point in polygon test of the features failed
 for every polygon of more than two corners

---
 mmcore/geom/features.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/features.py b/mmcore/geom/features.py
index a7eb1bf..8a82194 100644
--- a/mmcore/geom/features.py
+++ b/mmcore/geom/features.py
@@ -46,11 +46,11 @@ def point_indices(unq, other, eps=1e-6, dist_upper_bound=None, return_distance=T
 
 
 def point_in_polygon(polygon: np.ndarray, point: np.ndarray):
-    inside = polygon[1] + unit((polygon[0] - polygon[1]) + (polygon[2] - polygon[1]))
-
-    cnt = len(np.arange(len(polygon))[intersects_segments(polyline_to_lines(polygon), [point, inside])]
-              )
-    return cnt % 2 == 0
+    inside = False
+    for (x0, y0), (x1, y1) in polyline_to_lines(np.asarray(polygon)[:, :2]):
+        if (y0 > point[1]) != (y1 > point[1]) and x0 + (point[1] - y0) * (x1 - x0) / (y1 - y0) > point[0]:
+            inside = not inside
+    return inside
 
 
 import numpy as np
-- 
2.43.0


From 4cc16916b2166cde0636e738dfad94064ad87c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 192/294] fix: clamp took the upper limit for an axis

---
 mmcore/geom/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/features.py b/mmcore/geom/features.py
index 8a82194..cd7ac4a 100644
--- a/mmcore/geom/features.py
+++ b/mmcore/geom/features.py
@@ -60,7 +60,7 @@ import numpy as np
 def clamp(self, min, max):
     # assumes min < max, componentwise
 
-    return np.max(min, np.min(max, self))
+    return np.maximum(min, np.minimum(max, self))
 
 
 class PointsOrder(IntEnum):
-- 
2.43.0


From 75f041de2af66d82a5e0385bf3166bbabee8c181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 193/294] fix: point in polygon dropped a corner of polygons
 far from the origin and of closed ones with given edges

---
 mmcore/geom/polygon.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index d4259eb..4406400 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -679,8 +679,6 @@ def point_in_polygon(points: np.ndarray, point: np.ndarray, segments=None, poly_
 
     if not point_in_aabb(poly_aabb, point):
         return False
-    if np.allclose(points[0], points[-1]):
-        points = points[1:]
     if segments is None:
         segments = segments_by_loop(points)
     # the far end of the segment lies outside the box whatever the point is
-- 
2.43.0


From b448d1bc5f3667ece1c932fde431cf3f20447be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:31 +0000
Subject: [PATCH 194/294] fix: removing a key of the sweep line's skip list
 dropped the smaller keys, and locate missed an existing key

---
 .../numeric/algorithms/sweep_line/skiplist.py | 49 +++++++++----------
 .../numeric/algorithms/sweep_line/sortseq.py  | 18 ++-----
 2 files changed, 27 insertions(+), 40 deletions(-)

diff --git a/mmcore/numeric/algorithms/sweep_line/skiplist.py b/mmcore/numeric/algorithms/sweep_line/skiplist.py
index 8511082..d9cd17f 100644
--- a/mmcore/numeric/algorithms/sweep_line/skiplist.py
+++ b/mmcore/numeric/algorithms/sweep_line/skiplist.py
@@ -73,23 +73,20 @@ class SkipList():
             node = node.succ[level]
 
     def _scan(self, key):
-        return_value = None
+        # Returns the first node with the given key (None if there is none) and, for every
+        # level, the last node with a smaller key.
         height = len(self.head.succ)
         prevs = [self.head] * height
-        node = self.head.succ[-1]
+        node = self.head
         for level in reversed(range(height)):
-            node = next(
-                dropwhile(
-                    lambda node_: node_.succ[level].key <= key,
-                    chain([self.head], self._level(node, level))
-                )
-            )
-            if node.key == key:
-                return_value = node
-            else:
-                prevs[level] = node
-
-        return return_value, prevs
+            while node.succ[level] is not self.tail and node.succ[level].key < key:
+                node = node.succ[level]
+            prevs[level] = node
+
+        found = node.succ[0]
+        if found is self.tail or found.key != key:
+            found = None
+        return found, prevs
 
     def _insert(self, key, data):
             # Inserts data into appropriate position.
@@ -119,22 +116,22 @@ class SkipList():
     def _remove(self, key):
         # Removes node with given data. No operation if data is not in list.
 
-        node, update = self._scan(key)
-        if not node:
-            return
+        node, _ = self._scan(key)
+        if node:
+            self._unlink(node)
+
+    def _unlink(self, node):
+        # Removes the given node from all its levels.
 
         for level in range(len(node.succ)):
-            update[level].succ[level] = node.succ[level]
+            node.prev[level].succ[level] = node.succ[level]
+            node.succ[level].prev[level] = node.prev[level]
 
-        # trim not used head pointers
-        for i in reversed(range(len(self.head.succ))):
-            if self.head.succ[i] != self.tail:
-                break
-            elif i > 0:  # at least one pointer
-                head_node = self.head.succ.pop()
-                del head_node
+        # trim not used head and tail pointers
+        while len(self.head.succ) > 1 and self.head.succ[-1] is self.tail:
+            self.head.succ.pop()
+            self.tail.prev.pop()
 
-        del node
         self._size -= 1
 
     def __len__(self):
diff --git a/mmcore/numeric/algorithms/sweep_line/sortseq.py b/mmcore/numeric/algorithms/sweep_line/sortseq.py
index 29ba1a7..d2468f4 100644
--- a/mmcore/numeric/algorithms/sweep_line/sortseq.py
+++ b/mmcore/numeric/algorithms/sweep_line/sortseq.py
@@ -59,8 +59,9 @@ class SortSeq(SkipList):
         with key' >= key. None if no such node exists
         """
         _, update = self._scan(key)
-        return update[0].succ[0]
- 
+        node = update[0].succ[0]
+        return None if node is self._tail else node
+
     @staticmethod
     def key(node):
         """
@@ -125,18 +126,7 @@ class SortSeq(SkipList):
         Removes the <node> from SortSeq containing it.
         Precondition: <node> is a node in SortSeq.
         """
-        for level in range(len(node.succ)):
-            node.prev[level].succ[level] = node.succ[level]
-            node.succ[level].prev[level] = node.prev[level]
-        # trim not used head pointers
-        for i in reversed(range(len(self.head.succ))):
-            if self.head.succ[i] != self.tail:
-                break
-            elif i > 0:  # at least one pointer
-                head_node = self.head.succ.pop()
-                del head_node
-        del node
-        self._size -= 1
+        self._unlink(node)
 
     def reverseItems(self, a, b):
         """
-- 
2.43.0


From c67c74fd00cf1304d399ddf129869a0ab9c01c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 195/294] fix: the sweep line missed contacts where a segment
 ends inside another and all overlaps, and repeated common points

---
 .../numeric/algorithms/sweep_line/segment.py  |  4 +--
 .../numeric/algorithms/sweep_line/skiplist.py |  2 +-
 .../sweep_line/sweep_intersector.py           | 30 ++++++++++---------
 3 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/mmcore/numeric/algorithms/sweep_line/segment.py b/mmcore/numeric/algorithms/sweep_line/segment.py
index ad9f639..287cce9 100644
--- a/mmcore/numeric/algorithms/sweep_line/segment.py
+++ b/mmcore/numeric/algorithms/sweep_line/segment.py
@@ -64,8 +64,8 @@ class Segment:
         if s or self.isTrivial() or other.isTrivial():
             return s
         s = Segment.orientation(other,self.p2)
-        # overlapping segments will be ordered by their id-numbers
-        return s if s else self.id-other.id
+        # overlapping segments are equal
+        return s
 
     @staticmethod
     def orientation(s,point):
diff --git a/mmcore/numeric/algorithms/sweep_line/skiplist.py b/mmcore/numeric/algorithms/sweep_line/skiplist.py
index d9cd17f..d373e33 100644
--- a/mmcore/numeric/algorithms/sweep_line/skiplist.py
+++ b/mmcore/numeric/algorithms/sweep_line/skiplist.py
@@ -1,6 +1,6 @@
 
 
-from itertools import chain, dropwhile, count, repeat
+from itertools import dropwhile, count, repeat
 import random
 
 def geometric(p):
diff --git a/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py b/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py
index 7d54212..cee34b7 100644
--- a/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py
+++ b/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py
@@ -124,9 +124,9 @@ class SweepIntersector():
                 # and delete ending segments from the Y_structure
                 while True:
                     s = self.Y_structure.key(sit)
-                    sr = self.assoc[s]
 
                     self.lastNode[s] = v
+                    self.recordPassing(s, v)
                     if self.pSweep is s.p2: #  ending segment
                         it = self.Y_structure.pred(sit)
                         self.Y_structure.delItem(sit)
@@ -134,8 +134,6 @@ class SweepIntersector():
                     else:   # passing segment
                         self.Y_structure.changeInf(sit,None)
                         sit = self.Y_structure.pred(sit)
-                        if (sr is not s) and (sr.p2 is self.pSweep):
-                            self.assoc[s] = s
 
                     if self.Y_structure.inf(sit) != event:
                         break # end of while True:
@@ -173,10 +171,10 @@ class SweepIntersector():
                     # longer insert (seg0.end(),next_seg.end()) into <segQueue>
                     p = seg0.end()
                     q = self.nextSeg.end()
-                    self.assoc[seg0] = self.nextSeg
+                    self.assoc[seg0].append(self.nextSeg)
                     if p < q:
                         newSeg = Segment(p,q) 
-                        self.assoc[newSeg] = newSeg
+                        self.assoc[newSeg] = [newSeg]
                         self.original[newSeg] = self.original[self.nextSeg]
                         self.segQueue.insert(p,newSeg)
 
@@ -227,9 +225,9 @@ class SweepIntersector():
                   abs(v2[0]) >= infinity or abs(v2[1]) >= infinity:
                 infinity *= 2;
 
+            if Point(v1) == Point(v2): continue  # Ignore zero-length segments
             it1 = self.X_structure.insert(Point(seg[0]),None)
             it2 = self.X_structure.insert(Point(seg[1]),None)
-            if it1 == it2: continue  # Ignore zero-length segments
 
             # Insert operations into the X-structure leave previously
             # inserted points unchanged to achieve that any pair of
@@ -238,9 +236,10 @@ class SweepIntersector():
             p2 = SortSeq.key(it2)
             s = Segment(p1,p2) if p1 < p2 else Segment(p2,p1)
 
-            # use maps to associate with every segment its original
+            # use maps to associate with every segment its original and
+            # the segments it stands for where they overlap with it
             self.original[s] = (seg,segIndex)
-            self.assoc[s] = s
+            self.assoc[s] = [s]
 
             # for every created segment (p1,p2) insert the pair (p1,(p1,p2)) 
             # into priority queue <segQueue>
@@ -287,11 +286,14 @@ class SweepIntersector():
                 if q:
                     self.Y_structure.changeInf(sit0, self.X_structure.insert(q,sit0))
 
-                    # insert intersection point into result dictionary
-                    if s0.p1 != q and s0.p2 != q:
-                        self.isectDict[self.original[s0]].append((q.x,q.y))
-                    if s1.p1 != q and s1.p2 != q:
-                        self.isectDict[self.original[s1]].append((q.x,q.y))
+    def recordPassing(self, s, v):
+        # Insert the event point <v> into the result dictionary for all the segments
+        # which <s> stands for and which neither start nor end in <v>
+        for seg in self.assoc[s]:
+            if seg.p1 <= v and v < seg.p2:
+                original = self.original[seg]
+                if v != Point(original[0][0]) and v != Point(original[0][1]):
+                    self.isectDict[original].append((v.x,v.y))
 
     @staticmethod
     def inorderExtend(segment, v1, v2, points):
@@ -323,7 +325,7 @@ def to_tuple(lst):
 
 
 def find_intersection(segments):
-    segments=segments if isinstance(segments[0], tuple) else to_tuple(segments)
+    segments = to_tuple(segments)
 
     isector = SweepIntersector()
     isec_dic = isector.findIntersections(segments)
-- 
2.43.0


From cb490d21c327262d164b753da0d86b2256768db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 196/294] fix: unique reallocated memory owned by numpy and
 sorted its input

---
 mmcore/numeric/algorithms/_unique.c | 31 ++++++++++-------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/mmcore/numeric/algorithms/_unique.c b/mmcore/numeric/algorithms/_unique.c
index 5d6c927..eb3cc87 100644
--- a/mmcore/numeric/algorithms/_unique.c
+++ b/mmcore/numeric/algorithms/_unique.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <math.h>
 
 int compare(const void *a, const void *b) {
@@ -94,36 +95,26 @@ double* uniqueSorted(double *arr, int n, int *new_len) {
 
 int uniqueSortedByRef(double *arr, int n, int *new_len, double *result) {
     // If the array is empty or has one element, return it as is
+    // The memory of both arrays belongs to the caller, result has room for n elements
     if (n == 0) {
         *new_len = 0;
-        return 0;
-    }
-    if (n == 1) {
-        *new_len = 1;
-        result = (double*)realloc(result, sizeof(double));
-        result[0] = arr[0];
         return 1;
     }
 
-    // Sort the array
-    qsort(arr, n, sizeof(double), compare2);
-
-    // Allocate memory for the unique sorted array
-    result = (double*)realloc(result,n * sizeof(double));
-    int j = 0;
+    // Sort a copy of the array
+    if (result != arr) {
+        memcpy(result, arr, n * sizeof(double));
+    }
+    qsort(result, n, sizeof(double), compare2);
 
-    // Add the first element
-    result[j++] = arr[0];
+    int j = 1;
 
-    // Iterate over the sorted array and add only unique elements
+    // Iterate over the sorted array and keep only unique elements
     for (int i = 1; i < n; i++) {
-        if (arr[i] != arr[i-1]) {
-            result[j++] = arr[i];
+        if (result[i] != result[j-1]) {
+            result[j++] = result[i];
         }
     }
-
-    // Resize the memory to match the number of unique elements
-    result = (double*)realloc(result, j * sizeof(double));
     *new_len = j;
 
     return 1;
-- 
2.43.0


From a6a11bbafc1ec4eeb02d1c7ed4d149f7a5af6096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 197/294] fix: nd_min and nd_max overwrote their arguments,
 rounding in integer arrays

---
 mmcore/numeric/routines/__init__.py | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/mmcore/numeric/routines/__init__.py b/mmcore/numeric/routines/__init__.py
index 2b553c2..f1d6718 100644
--- a/mmcore/numeric/routines/__init__.py
+++ b/mmcore/numeric/routines/__init__.py
@@ -16,30 +16,16 @@ def point_grid_2d(count_u, count_v, bounds_u=(0., 1.), bounds_v=(0., 1.)):
 
 def nd_min(a, b):
     a_cond, b_cond = isinstance(a, np.ndarray), isinstance(b, np.ndarray)
-    if a_cond and b_cond:
-        a[a > b] = b[a > b]
-        return a
-    elif a_cond:
-        a[a > b] = b
-        return a
-    elif b_cond:
-        b[b > a] = a
-        return b
+    if a_cond or b_cond:
+        return np.minimum(a, b)
     else:
         return min(a, b)
 
 
 def nd_max(a, b):
     a_cond, b_cond = isinstance(a, np.ndarray), isinstance(b, np.ndarray)
-    if a_cond and b_cond:
-        a[a < b] = b[a < b]
-        return a
-    elif a_cond:
-        a[a < b] = b
-        return a
-    elif b_cond:
-        b[b < a] = a
-        return b
+    if a_cond or b_cond:
+        return np.maximum(a, b)
     else:
         return max(a, b)
 
-- 
2.43.0


From cee12fba264ec66e3d2a90310515aabec106d17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 198/294] fix: divide_interval gave an interval beyond the end
 for steps that round

---
 mmcore/numeric/routines/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/numeric/routines/__init__.py b/mmcore/numeric/routines/__init__.py
index f1d6718..51d4712 100644
--- a/mmcore/numeric/routines/__init__.py
+++ b/mmcore/numeric/routines/__init__.py
@@ -155,6 +155,7 @@ def cubic_spline(control_points: np.ndarray[(4, 2), np.dtype[float]]
 
 def divide_interval(start, end, step=1.):
     a = np.arange(start, end, step)
+    a = a[a < end]
     return np.c_[a, np.minimum(a + step, end)]
 T=TypeVar("T")
 
-- 
2.43.0


From ff1385c75ef8d041d6ff6e5fb1e2f1bb3ef14eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 199/294] fix: bisection1d reported a root that it hit a second
 time

---
 mmcore/numeric/bisection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/bisection.py b/mmcore/numeric/bisection.py
index 39179cc..44e9e9e 100644
--- a/mmcore/numeric/bisection.py
+++ b/mmcore/numeric/bisection.py
@@ -29,12 +29,12 @@ def bisection1d(f, step=0.00001, start=-1, stop=3):
             # We hit a root
             roots.append((x, value))
 
-        elif (value > 0) != sign:
+        elif sign is not None and (value > 0) != sign:
             # We passed a root
             roots.append((x, value))
 
-        # Update our sign
-        sign = value > 0
+        # Update our sign, a root that was hit is not passed again
+        sign = value > 0 if value != 0 else None
         x += step
     return roots, minimum
 
-- 
2.43.0


From 2019e3ddceb4b310bcaf882f3455b5cc2b753859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 200/294] fix: scalar_min_1d failed for minima at the ends and
 missed minima of large values

---
 mmcore/numeric/bisection.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mmcore/numeric/bisection.py b/mmcore/numeric/bisection.py
index 44e9e9e..b1b2d9f 100644
--- a/mmcore/numeric/bisection.py
+++ b/mmcore/numeric/bisection.py
@@ -91,15 +91,12 @@ def scalar_min_1d(f, start, end, step=0.001, divs=32):
         t = np.linspace(start, end, divs)
 
         res = f(t)
-        m = res.min()
-        i = np.where(np.isclose(res, m))[0][0]
+        i = int(np.argmin(res))
 
         if abs(t[0] - t[1]) <= step:
             return t[i]
         else:
-            ixs = np.array([i - 1, i + 1], int)
-
-            return wrap(t[ixs[0]], t[ixs[1]])
+            return wrap(t[max(i - 1, 0)], t[min(i + 1, len(t) - 1)])
 
     return wrap(start, end)
 
-- 
2.43.0


From 3669752ce31cda29431e5d786811f9b965f97c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 201/294] fix: the antiderivative of an array of parameters was
 the function itself

---
 mmcore/numeric/prime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/prime.py b/mmcore/numeric/prime.py
index 73ecc1a..113e8f3 100644
--- a/mmcore/numeric/prime.py
+++ b/mmcore/numeric/prime.py
@@ -46,7 +46,7 @@ class Prime:
         if translate is not None:
             self._translate[:] = translate
 
-        self.evaluate_multi = np.vectorize(self._fun, excluded=[1, 2], signature='()->(i)')
+        self.evaluate_multi = np.vectorize(self.evaluate, excluded=['t0', 'tol'], signature='()->(i)')
         return self
 
     @property
-- 
2.43.0


From fbb23c8bb849051e9cf694f31d45e1813d3beebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 202/294] fix: parametric_arc_length halved the first and the
 last piece and went beyond the end

---
 mmcore/numeric/arc_length.py | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/mmcore/numeric/arc_length.py b/mmcore/numeric/arc_length.py
index ef6d802..51c5461 100644
--- a/mmcore/numeric/arc_length.py
+++ b/mmcore/numeric/arc_length.py
@@ -26,27 +26,15 @@ def step(crv, t, tol):
 
 def parametric_arc_length(func, t_start, t_end, dt=1e-3):
     # Generate a list of t values from t_start to t_end
-    t_values = np.arange(t_start, t_end+dt, dt)
-    num_points = len(t_values)-1
+    num_points = max(int(math.ceil((t_end - t_start) / dt - 1e-9)), 1)
+    t_values = np.linspace(t_start, t_end, num_points + 1)
 
-    # Calculate the derivatives using finite differences
-    print(dt)
     arc_length = 0.
     for i in range(num_points):
-        derivative = (np.array(func(t_values[i + 1])) - np.array(func(t_values[i]))) / dt
-        # It is similar by each component
-        # dx_dt = (x_t(t_values[i + 1]) - x_t(t_values[i])) / dt
-        # dy_dt = (y_t(t_values[i + 1]) - y_t(t_values[i])) / dt
-        # ...
-
-        # Calculate the integrand sqrt((dx/dt)^2 + (dy/dt)^2)
-        integrand = scalar_norm(derivative)
-        # Use the trapezoidal rule to approximate the integral
-        if i == 0 or i == num_points - 1:
-            integrand *= 0.5
-        arc_length += integrand
-
-    arc_length *= dt
+        chord = np.array(func(t_values[i + 1])) - np.array(func(t_values[i]))
+        # The chord is |f'| dt up to third order in dt
+        arc_length += np.linalg.norm(chord)
+
     return arc_length
 
 
-- 
2.43.0


From ac68d6f57692e3126a20a30ec9bef60d7c91d4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:18 +0000
Subject: [PATCH 203/294] fix: the sorts took strided arrays for contiguous
 ones

---
 mmcore/numeric/algorithms/quicksort.pyx | 27 ++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/mmcore/numeric/algorithms/quicksort.pyx b/mmcore/numeric/algorithms/quicksort.pyx
index 3ab9889..adecaf1 100644
--- a/mmcore/numeric/algorithms/quicksort.pyx
+++ b/mmcore/numeric/algorithms/quicksort.pyx
@@ -15,12 +15,19 @@ cpdef void quicksort(double[:] arr)  noexcept nogil:
     cdef int n=arr.shape[0]
     cdef int high=n-1
     cdef int i
-    #cdef double* arr_c=<double*> malloc(sizeof(double)*n)
+    cdef double[:] copy
+    if n == 0:
+        return
+    if arr.strides[0] != sizeof(double):
+        # the sort needs contiguous memory
+        with gil:
+            copy = np.array(arr)
+        quickSort(&copy[0],low,high)
+        for i in range(n):
+            arr[i] = copy[i]
+        return
 
     quickSort(&arr[0],low,high)
-
-
-    #free(arr_c)
 @cython.boundscheck(False)
 @cython.wraparound(False)
 cpdef int[:] argsort(double[:] arr) :
@@ -29,6 +36,10 @@ cpdef int[:] argsort(double[:] arr) :
     cdef int high=n-1
     cdef int i
     cdef int[:] indices=np.arange(n,dtype=np.intc)
+    if n == 0:
+        return indices
+    # the sort needs contiguous memory
+    arr = np.ascontiguousarray(arr)
     argSort(&arr[0], &indices[0],low,  high)
     return indices
 
@@ -43,7 +54,13 @@ cpdef double[:] unique(double[:] arr, double[:] result=None) noexcept nogil:
     cdef bint success
     if result is None:
         with gil:
-            result=arr.copy()
+            result=np.empty(arr.shape[0])
+    if arr.shape[0] == 0:
+        return result[:0]
+    if arr.strides[0] != sizeof(double):
+        # the sort needs contiguous memory
+        with gil:
+            arr = np.array(arr)
     success=uniqueSortedByRef(&arr[0],arr.shape[0], &new_len,&result[0])
     if success==0:
         with gil:
-- 
2.43.0


From d720bcc73c2c86c958efd9c1a1658a9f787955f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 204/294] fix: the perpendicular vectors of arrays of vectors
 mixed up rows and components

---
 mmcore/geom/vec/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/vec/__init__.py b/mmcore/geom/vec/__init__.py
index 97ae261..37d02b4 100644
--- a/mmcore/geom/vec/__init__.py
+++ b/mmcore/geom/vec/__init__.py
@@ -264,13 +264,13 @@ def gram_schmidt(v1: np.ndarray, v2: np.ndarray):
     """
 
     v1, v2 = unit(v1), unit(v2)
-    return v2 - v1 * dot(v2, v1)
+    return v2 - v1 * np.expand_dims(dot(v2, v1), -1)
 
 
 
 def make_perpendicular(v1, v2):
     if v1.shape[-1] == 2:
-        return np.array([-v1[1], v1[0]])
+        return np.stack([-v1[..., 1], v1[..., 0]], axis=-1)
     else:
         return gram_schmidt(v1, v2)
 
-- 
2.43.0


From b8d309879581da99e3841ac98c2d0e23047871ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:51 +0000
Subject: [PATCH 205/294] fix: the cross product of plane vectors read beyond
 their end

---
 mmcore/geom/vec/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/geom/vec/__init__.py b/mmcore/geom/vec/__init__.py
index 37d02b4..52e201d 100644
--- a/mmcore/geom/vec/__init__.py
+++ b/mmcore/geom/vec/__init__.py
@@ -151,6 +151,8 @@ def cross(a, b):
     """
 
     a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
+    # vectors of the plane have no third component
+    a, b = (np.append(v, np.zeros((*v.shape[:-1], 1)), axis=-1) if v.shape[-1] == 2 else v for v in (a, b))
     if a.ndim == 1 and b.ndim == 1:
         return np.array(vectors.scalar_cross(a, b))
     return np.cross(a, b)
-- 
2.43.0


From f894da0e1334c138d6706fa7af38d4b817b4df3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 206/294] fix: the search for loops of an intersection never
 separated the normals of two surfaces

---
 mmcore/numeric/gauss_map.py | 92 ++++++++++++-------------------------
 1 file changed, 29 insertions(+), 63 deletions(-)

diff --git a/mmcore/numeric/gauss_map.py b/mmcore/numeric/gauss_map.py
index d3348c9..999f926 100644
--- a/mmcore/numeric/gauss_map.py
+++ b/mmcore/numeric/gauss_map.py
@@ -266,11 +266,11 @@ class GaussMap:
         return gjk(self.bounds(), other.bounds())
 
 
-def linear_program_solver(c, A_ub, b_ub, A_eq, b_eq):
+def linear_program_solver(c, A_ub, b_ub, A_eq, b_eq, bounds=(None, None)):
     """
     Solve a linear programming problem using scipy's linprog function.
     """
-    res = linprog(c, A_ub=A_ub, b_ub=b_ub, A_eq=A_eq, b_eq=b_eq, method='highs')
+    res = linprog(c, A_ub=A_ub, b_ub=b_ub, A_eq=A_eq, b_eq=b_eq, bounds=bounds, method='highs')
     return res.x if res.success else None
 
 
@@ -305,30 +305,7 @@ def find_separating_vector(N1, N2):
     """
     m, n = len(N1), len(N2)
 
-    # Set up the linear programming problem
-    c = [0, 0, 0, 1]  # Minimize epsilon
-
-    A_ub = np.zeros((m + n, 4))
-    A_ub[:m, :3] = -N1  # For N1: -P1 · n1 + epsilon <= 0
-    A_ub[:m, 3] = -1
-    A_ub[m:, :3] = N2  # For N2: P1 · n2 + epsilon <= 0
-    A_ub[m:, 3] = -1
-
-    b_ub = np.zeros(m + n)
-
-    A_eq = np.array([[0, 0, 0, 1]])  # epsilon <= 0
-    b_eq = np.array([0])
-
-    # Solve the linear programming problem
-    result = linear_program_solver(c, A_ub, b_ub, A_eq, b_eq)
-
-    if result is not None:
-        P1 = result[:3]
-        epsilon = result[3]
-        if scalar_norm(P1) > 1e-6 and epsilon < 0:  # Check if the solution is valid
-            return P1 / scalar_norm(P1)  # Normalize P1
-
-    return None
+    return _positive_vector(np.concatenate((N1, -N2)))
 
 
 def find_common_side_vector(N1, N2):
@@ -339,28 +316,19 @@ def find_common_side_vector(N1, N2):
     """
     m, n = len(N1), len(N2)
 
-    # Set up the linear programming problem
-    c = [0, 0, 0, 1]  # Minimize epsilon
-
-    A_ub = np.zeros((m + n, 4))
-    A_ub[:m, :3] = -N1  # For N1: -P2 · n1 + epsilon <= 0
-    A_ub[:m, 3] = -1
-    A_ub[m:, :3] = -N2  # For N2: -P2 · n2 + epsilon <= 0
-    A_ub[m:, 3] = -1
-
-    b_ub = np.zeros(m + n)
+    return _positive_vector(np.concatenate((N1, N2)))
 
-    A_eq = np.array([[0, 0, 0, 1]])  # epsilon <= 0
-    b_eq = np.array([0])
 
-    # Solve the linear programming problem
-    result = linear_program_solver(c, A_ub, b_ub, A_eq, b_eq)
-
-    if result is not None:
-        P2 = result[:3]
-        epsilon = result[3]
-        if scalar_norm(P2) > 1e-6 and epsilon < 0:  # Check if the solution is valid
-            return P2 / scalar_norm(P2)  # Normalize P2
+def _positive_vector(N):
+    """
+    Find a unit vector P that satisfies P · n > 0 for all n in N
+    """
+    # P · n >= epsilon, with P in the unit box: maximize epsilon
+    A_ub = np.ones((len(N), 4))
+    A_ub[:, :3] = -N
+    result = linear_program_solver([0, 0, 0, -1], A_ub, np.zeros(len(N)), None, None, bounds=(-1, 1))
+    if result is not None and result[3] > 1e-9:
+        return result[:3] / scalar_norm(result[:3])
 
     return None
 
@@ -381,6 +349,13 @@ from mmcore.numeric.aabb import aabb, aabb_intersect,aabb_intersection
 from mmcore.geom.bvh import BoundingBox, Object3D, build_bvh, intersect_bvh_objects
 
 
+def thickness(surf):
+    """The distance between the two closest parallel planes around the control points, at most."""
+    pts = np.array(surf.control_points_flat)
+    normal = np.linalg.svd(pts - pts.mean(axis=0), full_matrices=False)[2][-1]
+    return np.ptp(pts @ normal)
+
+
 class DebugTree:
 
     def __init__(self, data=None, layer=0):
@@ -456,19 +431,16 @@ def _detect_intersections_deep(g1, g2, chs:dict,tol=0.01, dbg: DebugTree = None)
         g1.compute()
     if g2.hull is None:
         g2.compute()
-    bb11, bb21 = aabb(g1.bounds()), aabb(g2.bounds())
+    n1, n2 = separate_gauss_maps(g1, g2)
+    if (n1 is not None) and (n2 is not None):
+        # Поверхности вероятнее всего пересекаются и не содержат петель
+        return [(g1.surface, g2.surface)]
 
-    if not aabb_intersect(bb21,bb11):
-        # Поверхности вероятнее всего пересекаются и не содержать петель
-        #dddd[3] = True
+    if thickness(g1.surface) < tol and thickness(g2.surface) < tol:
+        # Патчи плоские и почти параллельные, петли в них меньше допуска
         return [(g1.surface, g2.surface)]
 
     intersections = []
-    #ss = g1.intersects(g2)
-    n1, n2 = separate_gauss_maps(g1,g2)
-    if (n1 is not None) and (n2 is not None):
-
-        return []
     #if not ss:
     #    # Поверхности вероятнее всего пересекаются и не содержать петель (для тех кто провалил прошлый тест)
 
@@ -629,14 +601,8 @@ def detect_intersections(surf1, surf2, tol=0.1, debug_tree: DebugTree=None) -> l
 
 
 
-            p1, p2 = separate_gauss_maps(ff, ss)
-
-            if (p1 is None) or (p2 is None):
-                # Карты не могут быть разделены, запускаем глубокую проверку для данных патчей
-                #dddd[2] = True
-                #sbb = subs[index].subd(1)
-                #
-                intersections.extend(_detect_intersections_deep(ss, ff, chs, tol=tol))
+            # Если карты не могут быть разделены, глубокая проверка подразобьет данные патчи
+            intersections.extend(_detect_intersections_deep(ss, ff, chs, tol=tol))
         index += 1
     return intersections
 
-- 
2.43.0


From 6aa821cfe0ec98d0a978b5565030afc4c3ed1361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 207/294] fix: intersections of surfaces in planes along the
 axes were taken for misses

---
 mmcore/numeric/gauss_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/gauss_map.py b/mmcore/numeric/gauss_map.py
index 999f926..b7716f3 100644
--- a/mmcore/numeric/gauss_map.py
+++ b/mmcore/numeric/gauss_map.py
@@ -409,8 +409,8 @@ def _detect_intersections_deep(g1, g2, chs:dict,tol=0.01, dbg: DebugTree = None)
     ii=np.zeros((2,3))
     aabb_intersection(bb1,bb2,ii)
 
-    if np.min(ii[1]-ii[0]) < tol:
-        # Бокс не маленький, но очень плоский. объекты не пересекаются
+    if np.any((ii[1]-ii[0] < tol) & (diag >= tol) & (bb2[1] - bb2[0] >= tol)):
+        # Перекрытие очень плоское, хотя сами боксы нет. объекты не пересекаются
         #dddd[2] = True
 
         return []
-- 
2.43.0


From 346138c9309d12a239611573202bb4f9eeb2c2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 208/294] fix: steps along an intersection of surfaces ran off
 the surfaces and broke on straight pieces

---
 .../intersection/ssx/surface_surface.py       | 56 ++++++++++++++++---
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/mmcore/numeric/intersection/ssx/surface_surface.py b/mmcore/numeric/intersection/ssx/surface_surface.py
index 2b8375c..8c0591e 100644
--- a/mmcore/numeric/intersection/ssx/surface_surface.py
+++ b/mmcore/numeric/intersection/ssx/surface_surface.py
@@ -361,7 +361,13 @@ class MarchingMethod(SSXMethod):
         self.fdm_h = fdm_h
         self.boundary_terminators = boundary_terminators
         self.freeform=freeform
+        self.max_step = min(self.surface_size(s1, self.s1_interval), self.surface_size(s2, self.s2_interval)) / 10
 
+    @staticmethod
+    def surface_size(surface, interval):
+        pts = np.array([surface.evaluate(np.array([u, v])) for u in np.linspace(*interval[0], 3)
+                        for v in np.linspace(*interval[1], 3)])
+        return scalar_norm(pts.max(axis=0) - pts.min(axis=0))
 
     def step(self, uv1, uv2):
         #print(f'{self.__class__}.solve({uv1, uv2})')
@@ -372,12 +378,22 @@ class MarchingMethod(SSXMethod):
         #print('initial_data',intersection_step_data)
         curvature_vector = self.calculate_sectional_curvature(intersection_step_data)
         step = self.calculate_step(curvature_vector)
-        pt_better = self.refine_point(intersection_step_data, step=step)
-        if pt_better is None:
-            return
-
-        uv1_better, uv2_better = self.improve_uvs(intersection_step_data, pt_better)
+        while True:
+            pt_better = self.refine_point(intersection_step_data, step=step)
+            if pt_better is None:
+                return
 
+            uv1_better, uv2_better = self.improve_uvs(intersection_step_data, pt_better)
+            if not self.overshoots(intersection_step_data, pt_better, uv1_better, uv2_better, step):
+                break
+            if step < self.tol:
+                if any(self.handle_inside(*uv1_better, *uv2_better)) and not self.ends_between(
+                        intersection_step_data.first.pt, pt_better, -np.inf, 16 * self.tol
+                ):
+                    # the curve leaves the surfaces where their boundaries do not meet
+                    return
+                break
+            step /= 2
 
         is_edge, (pt_better, uv1_better, uv2_better) = self.handle_edge(
             pt_better, uv1_better, uv2_better
@@ -406,13 +422,37 @@ class MarchingMethod(SSXMethod):
             TerminatorType.STEP,
         )
 
+    def ends_between(self, start, pt, after, width):
+        """True if the end of the intersection next to the point lies between the start and the point."""
+        if not self.boundary_terminators:
+            return False
+        end = np.array(self.boundary_terminators.get_closest(pt)[0]) - start
+        chord = pt - start
+        length = max(scalar_norm(chord), 1e-300)
+        along = scalar_dot(end, chord) / length
+        return after < along < length + width and scalar_norm(end - along / length * chord) < width
+
+    def overshoots(self, step_data: IntersectionStepData, pt, uv1, uv2, step):
+        """True if the step has left one of the surfaces, and not for one of the ends of the intersection."""
+        if any(self.handle_inside(*uv1, *uv2)) and self.boundary_terminators is not None:
+            return not self.ends_between(step_data.first.pt, pt, self.tol, step / 4)
+        for surf, data, uv, bounds in ((self.s1, step_data.first, uv1, self.s1_interval),
+                                       (self.s2, step_data.second, uv2, self.s2_interval)):
+            # an inversion that did not move, or ends outside, tells nothing about the step
+            if (np.array_equal(uv, data.uv) or any(handle_inside(*uv, bounds))):
+                continue
+            if scalar_norm(np.array(surf.evaluate(uv)) - pt) > 16 * self.tol:
+                return True
+        return False
+
     def calculate_step(self, curvature_vector):
         K = scalar_norm(curvature_vector)
 
-        r = 1 / K
+        # a straight piece of the curve has no radius
+        r = max(1 / K, self.tol) if K > 1e-12 else np.inf
 
-        step = np.sqrt(r ** 2 - (r - self.tol) ** 2) * 2
-        return step
+        step = np.sqrt(2 * r * self.tol - self.tol ** 2) * 2
+        return min(step, self.max_step)
 
     def calculate_new_plane(self, ders: IntersectionStepData, step):
         pt1, n1 = ders.first.pt, ders.first.normal
-- 
2.43.0


From 4ac3fc69265c25c34e9b2bc19829660fafc80d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 209/294] fix: start points of other curves near an
 intersection curve of surfaces were dropped

---
 .../numeric/intersection/ssx/surface_surface.py  | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/intersection/ssx/surface_surface.py b/mmcore/numeric/intersection/ssx/surface_surface.py
index 8c0591e..15bc6a2 100644
--- a/mmcore/numeric/intersection/ssx/surface_surface.py
+++ b/mmcore/numeric/intersection/ssx/surface_surface.py
@@ -509,6 +509,18 @@ class MarchingMethod(SSXMethod):
         )
 
 
+    def covered(self, start, end, step):
+        """Indices of the start points lying on the piece of the curve between two of its points."""
+        start, end = np.array(start), np.array(end)
+        chord = end - start
+        length = max(scalar_dot(chord, chord), 1e-300)
+        return [
+            i for i in self.kd.query_ball_point(end, step * 2)
+            if scalar_norm(
+                start + min(max(scalar_dot(self.kd.data[i] - start, chord) / length, 0.), 1.) * chord - self.kd.data[i]
+            ) < 64 * self.tol
+        ]
+
     def solve(self, initial_uv1, initial_uv2):
         #print(f'{self.__class__}.solve({initial_uv1,initial_uv2})')
         use_kd = self.kd is not None
@@ -527,7 +539,7 @@ class MarchingMethod(SSXMethod):
 
 
         if use_kd:
-            ixss.update(self.kd.query_ball_point(xyz1, step * 2))
+            ixss.update(self.covered(xyz1_init, xyz1, step))
 
         uvs = [(uv1_new, uv2_new)]
         pts = [xyz1]
@@ -548,7 +560,7 @@ class MarchingMethod(SSXMethod):
             uvs.append((uv1_new, uv2_new))
             steps.append(step)
             if use_kd:
-                ixss.update(self.kd.query_ball_point(xyz1, step * 2))
+                ixss.update(self.covered(pts[-2], pts[-1], step))
 
             if terminator is TerminatorType.EDGE:
                 break
-- 
2.43.0


From d2971ffb3836d45b47c5b093da0c102bf24ec746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 210/294] fix: the parameters of closed intersection curves of
 surfaces did not follow their points

---
 .../numeric/intersection/ssx/surface_surface.py   | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/mmcore/numeric/intersection/ssx/surface_surface.py b/mmcore/numeric/intersection/ssx/surface_surface.py
index 15bc6a2..c92dac2 100644
--- a/mmcore/numeric/intersection/ssx/surface_surface.py
+++ b/mmcore/numeric/intersection/ssx/surface_surface.py
@@ -567,8 +567,7 @@ class MarchingMethod(SSXMethod):
 
             if scalar_norm(xyz1 - xyz1_init) < step:
                 pts.append(pts[0])
-
-                uvs.append((initial_uv1, initial_uv2))
+                uvs.append(uvs[0])
                 terminator = TerminatorType.LOOP
                 break
 
@@ -776,16 +775,8 @@ def ssx(
     for i, curve_pts in enumerate(curves):
         curve = interpolate_nurbs_curve(curve_pts, 3)
 
-        if all([terminator is TerminatorType.LOOP for terminator in terminators[i]]):
-            curve_on_surf1 = interpolate_nurbs_curve(curves_uvs[i][0][:-1], 3)
-            curve_on_surf2 = interpolate_nurbs_curve(curves_uvs[i][1][:-1], 3)
-            #curve.make_periodic()
-
-            #curve_on_surf1.make_periodic()
-            #curve_on_surf2.make_periodic()
-        else:
-            curve_on_surf1 = interpolate_nurbs_curve(curves_uvs[i][0], 3)
-            curve_on_surf2 = interpolate_nurbs_curve(curves_uvs[i][1], 3)
+        curve_on_surf1 = interpolate_nurbs_curve(curves_uvs[i][0], 3)
+        curve_on_surf2 = interpolate_nurbs_curve(curves_uvs[i][1], 3)
         results.append(
             (
                 curve,
-- 
2.43.0


From 344bf0d34b7f533c68056000a4e8300a8e695126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 211/294] fix: interpolation failed where repeated points left
 fewer than the degree needs

---
 mmcore/geom/curves/knot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index 70b00b9..5658477 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -217,6 +217,7 @@ def interpolate_curve(points, degree,  use_centripetal=False, tol=1e-5):
 
     # Number of control points
     num_points = len(points)
+    degree = min(degree, num_points - 1)
 
     # Get uk
     uk = compute_params_curve(points, use_centripetal)
-- 
2.43.0


From 9798cf4c14bdd03e000327292ed08fff84b2c0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 212/294] fix: in-place arithmetic replaced a vector by None

---
 mmcore/api/_base_vectors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/api/_base_vectors.py b/mmcore/api/_base_vectors.py
index d77e1b5..3d199d3 100644
--- a/mmcore/api/_base_vectors.py
+++ b/mmcore/api/_base_vectors.py
@@ -32,6 +32,7 @@ class BaseVector(Base):
             self._array += other._array
         else:
             self._array += other
+        return self
 
     def __mul__(self, other: SupportVector):
         if isinstance(other, self.__class__):
@@ -44,6 +45,7 @@ class BaseVector(Base):
             self._array *= other._array
         else:
             self._array *= other
+        return self
 
     def __sub__(self, other: SupportVector):
         if isinstance(other, self.__class__):
@@ -56,6 +58,7 @@ class BaseVector(Base):
             self._array -= other._array
         else:
             self._array -= other
+        return self
 
     def __eq__(self, other: V):
         return np.allclose(self._array, other._array)
-- 
2.43.0


From a846231cc1f03546a0c61cdb3479d39aea119554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 213/294] fix: comparing a vector with anything but a vector of
 its dimension failed

---
 mmcore/api/_base_vectors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmcore/api/_base_vectors.py b/mmcore/api/_base_vectors.py
index 3d199d3..dd5acc6 100644
--- a/mmcore/api/_base_vectors.py
+++ b/mmcore/api/_base_vectors.py
@@ -61,6 +61,10 @@ class BaseVector(Base):
         return self
 
     def __eq__(self, other: V):
+        if not isinstance(other, BaseVector):
+            return NotImplemented
+        if other.__dim__ != self.__dim__:
+            return False
         return np.allclose(self._array, other._array)
 
     def __array__(self, dtype=float):
-- 
2.43.0


From 056a30840ef586b65dbe7139fc6e0f0c6b117f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 214/294] fix: the angle between vectors was only right for
 unit vectors

---
 mmcore/api/_base_vectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/api/_base_vectors.py b/mmcore/api/_base_vectors.py
index dd5acc6..a7d0ee7 100644
--- a/mmcore/api/_base_vectors.py
+++ b/mmcore/api/_base_vectors.py
@@ -92,7 +92,7 @@ class BaseVector(Base):
         vector : The vector to measure the angle to.
         The angle in radians between this vector and the specified vector.
         """
-        return angle(self._array, vector._array)
+        return angle(unit(self._array), unit(vector._array))
 
     def is_equal(self, vector: Type[Self]) -> bool:
         """
-- 
2.43.0


From b1f8e9a8222cad83e8cb75e44daad2fcada87fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 215/294] fix: whether vectors are parallel or perpendicular
 depended on their lengths

---
 mmcore/api/_base_vectors.py |  4 ++--
 mmcore/api/vectors.py       | 16 ----------------
 2 files changed, 2 insertions(+), 18 deletions(-)

diff --git a/mmcore/api/_base_vectors.py b/mmcore/api/_base_vectors.py
index a7d0ee7..571cff7 100644
--- a/mmcore/api/_base_vectors.py
+++ b/mmcore/api/_base_vectors.py
@@ -142,7 +142,7 @@ class BaseVector(Base):
         vector : The vector to test parallelism to.
         Returns true if the vectors are parallel.
         """
-        return np.isclose(abs(self.dot(vector)), 1.0)
+        return np.isclose(abs(unit(self._array).dot(unit(vector._array))), 1.0)
 
     def is_perpendicular(self, vector: Type[Self]) -> bool:
         """
@@ -150,7 +150,7 @@ class BaseVector(Base):
         vector : The vector to test perpendicularity to.
         Returns true if the vectors are perpendicular.
         """
-        return np.isclose(self.dot(vector), 0.0)
+        return np.isclose(unit(self._array).dot(unit(vector._array)), 0.0)
 
     def set_with_array(self, coordinates: list[float]) -> bool:
         """
diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index a405c84..6b15fbd 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -55,22 +55,6 @@ class Vector2D(BaseVector):
         else:
             raise ValueError(f"{arg}")
 
-    def is_parallel(self, vector: Vector2D) -> bool:
-        """
-        Compare this vector with another to check for parallelism.
-        vector : The vector to compare with for parallelism.
-        Returns true if the vectors are parallel.
-        """
-        return np.isclose(scalar_dot(self._array, vector._array), 1)
-
-    def is_perpendicular(self, vector: Vector2D) -> bool:
-        """
-        Compare this vector with another to check for perpendicularity.
-        vector : The vector to compare with for perpendicularity.
-        Returns true if the vectors are perpendicular.
-        """
-        return np.isclose(scalar_dot(self._array, vector._array), 0)
-
     def normalize(self) -> bool:
         """
         Normalizes the vector.
-- 
2.43.0


From 91babcd8176e5e4ca23014210a9997ba0f2873ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 216/294] fix: the length of a vector in space could not be had

---
 mmcore/api/vectors.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index 6b15fbd..31e6d58 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -220,13 +220,6 @@ class Vector3D(BaseVector):
         m.translation = self
         return m
 
-    @property
-    def length(self) -> float:
-        """
-        Get the length of this vector.
-        """
-        return dist(self._array)
-
     @property
     def x(self) -> float:
         """
-- 
2.43.0


From 9006f8a4c672dde025621f327145f6c6cbe50b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 217/294] fix: a matrix made from given cells was the identity

---
 mmcore/api/vectors.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index 31e6d58..85df3ff 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -319,15 +319,12 @@ class Matrix2D(BaseMatrix):
 
     def __init__(self, arr=None):
         super().__init__()
-        self._array = (
-            np.zeros([3, 3])
-            if not arr
-            else (arr if isinstance(arr, np.ndarray) else np.array(arr))
-        )
-        self.set_to_identity()
+        self._array = np.eye(3) if arr is None else np.array(arr, float).reshape((3, 3))
 
     @staticmethod
     def cast(arg) -> Matrix2D:
+        if isinstance(arg, Matrix2D):
+            return arg
         return Matrix2D(arg)
 
     @staticmethod
@@ -453,12 +450,7 @@ class Matrix3D(BaseMatrix):
 
     def __init__(self, arr=None):
         super().__init__()
-        self._array = (
-            np.zeros([4, 4])
-            if not arr
-            else (arr if isinstance(arr, np.ndarray) else np.array(arr))
-        )
-        self.set_to_identity()
+        self._array = np.eye(4) if arr is None else np.array(arr, float).reshape((4, 4))
 
     @classmethod
     def create(cls) -> Matrix3D:
@@ -471,6 +463,8 @@ class Matrix3D(BaseMatrix):
 
     @classmethod
     def cast(cls, arg) -> Matrix3D:
+        if isinstance(arg, Matrix3D):
+            return arg
         return Matrix3D(arg)
 
     def get_as_coordinate_system(self) -> tuple[Point3D, Vector3D, Vector3D, Vector3D]:
-- 
2.43.0


From 1a018d50477e13670fda1d95e2c896798da4c995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 218/294] fix: vectors could not be transformed by a matrix

---
 mmcore/api/vectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index 85df3ff..968ed17 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -90,7 +90,7 @@ class Vector2D(BaseVector):
         matrix : The Matrix2D object that defines the transformation.
         Returns true if successful.
         """
-        self._array[:] = matrix._array.dot(self._array)
+        self._array[:] = (matrix @ self)._array
 
         return True
 
@@ -209,7 +209,7 @@ class Vector3D(BaseVector):
         matrix : The transformation matrix.
         Returns true if successful.
         """
-        self._array[:] = matrix.m.dot(self._array)
+        self._array[:] = (matrix @ self)._array
         return True
 
     def __array__(self, dtype=float):
-- 
2.43.0


From f1d4413e0a3a815267ffdce44db4f27b41cdc0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 219/294] fix: the matrix of a coordinate system was transposed

---
 mmcore/api/vectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index 968ed17..54359a4 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -286,7 +286,7 @@ def _construct_affine2d(origin, xaxis, yaxis):
     t = np.array(origin)  # translation along x, y and z axis
 
     # Construct the 4x4 affine matrix
-    affine_matrix = np.array([np.append(x, 0), np.append(y, 0), np.append(t, 1)])
+    affine_matrix = np.array([np.append(x, 0), np.append(y, 0), np.append(t, 1)]).T
 
     return affine_matrix
 
@@ -305,7 +305,7 @@ def _construct_affine3d(origin, xaxis, yaxis, zaxis):
     # Construct the 4x4 affine matrix
     affine_matrix = np.array(
         [np.append(x, 0), np.append(y, 0), np.append(z, 0), np.append(t, 1)]
-    )
+    ).T
 
     return affine_matrix
 
-- 
2.43.0


From c6da0f1d29c307ce7e8984630e3ead9ace479a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 220/294] fix: a matrix could not be set to align coordinate
 systems

---
 mmcore/api/vectors.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index 54359a4..30a3e5f 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -373,10 +373,14 @@ class Matrix2D(BaseMatrix):
         """
         Sets this matrix to be the matrix that maps from the 'from' coordinate system to the 'to' coordinate system.
         """
-        from_ = self.set_with_coordinate_system(fromOrigin, fromXAxis, fromYAxis)
-        to_ = self.set_with_coordinate_system(toOrigin, toXAxis, toYAxis)
+        from_ = _construct_affine2d(
+            fromOrigin.as_array(), fromXAxis.as_array(), fromYAxis.as_array()
+        )
+        to_ = _construct_affine2d(
+            toOrigin.as_array(), toXAxis.as_array(), toYAxis.as_array()
+        )
 
-        self._array = np.linalg.inv(from_).dot(to_)
+        self._array[:] = to_.dot(np.linalg.inv(from_))
         return True
 
     def set_to_rotate_to(self, _from: Vector2D, to: Vector2D) -> bool:
@@ -520,12 +524,20 @@ class Matrix3D(BaseMatrix):
         """
         Sets this matrix to be the matrix that maps from the 'from' coordinate system to the 'to' coordinate system.
         """
-        from_ = self.set_with_coordinate_system(
-            fromOrigin, fromXAxis, fromYAxis, fromZAxis
+        from_ = _construct_affine3d(
+            fromOrigin.as_array(),
+            fromXAxis.as_array(),
+            fromYAxis.as_array(),
+            fromZAxis.as_array(),
+        )
+        to_ = _construct_affine3d(
+            toOrigin.as_array(),
+            toXAxis.as_array(),
+            toYAxis.as_array(),
+            toZAxis.as_array(),
         )
-        to_ = self.set_with_coordinate_system(toOrigin, toXAxis, toYAxis, toZAxis)
 
-        self._array = np.linalg.inv(from_).dot(to_)
+        self._array[:] = to_.dot(np.linalg.inv(from_))
         return True
 
     def set_to_rotate_to(
-- 
2.43.0


From b4d2d4b7ef88d9d9020f7dbd2a1cca27cf7c098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 221/294] fix: a rotation of the plane moved its centre

---
 mmcore/api/vectors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index 30a3e5f..74a5406 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -388,7 +388,7 @@ class Matrix2D(BaseMatrix):
         Sets this matrix so that _from vector will be rotationally aligned with to vector.
         """
         dot = _from.dot(to)
-        det = np.linalg.det([_from, to])
+        det = np.linalg.det(np.array([_from.as_array(), to.as_array()]))
         theta = np.arctan2(det, dot)  # Angle between _from and to
         self.set_to_rotation(theta, np.array([0.0, 0.0]))
         return True
@@ -397,13 +397,15 @@ class Matrix2D(BaseMatrix):
         """
         Sets this matrix to the matrix of rotation by the specified angle, through the specified origin.
         """
+        self.set_to_identity()
         self._array[:2, :2] = np.array(
             [[np.cos(angle), -np.sin(angle)], [np.sin(angle), np.cos(angle)]]
         )
 
         if origin is not None:
             # If the rotation center is not at the origin, translate
-            self._array[:2, 2] = origin - origin @ self._array[:2, :2]
+            origin = np.asarray(origin, dtype=float)
+            self._array[:2, 2] = origin - self._array[:2, :2] @ origin
         return True
 
     def get_as_coordinate_system(self) -> tuple[Point2D, Vector2D, Vector2D]:
-- 
2.43.0


From 79709d0313c801d930c32ef8a280036ed27d0bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 222/294] fix: a rotation of space moved its centre and scaled
 its angle by its axis

---
 mmcore/api/vectors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index 74a5406..8b2593d 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -571,9 +571,10 @@ class Matrix3D(BaseMatrix):
                 "Axis and origin must be Vector3D and Point3D instances respectively"
             )
 
-        r = R.from_rotvec(np.radians(angle) * axis)
+        r = R.from_rotvec(np.radians(angle) * unit(axis.as_array()))
+        self.set_to_identity()
         self._array[:3, :3] = r.as_matrix()
-        self._array[:3, 3] = origin
+        self._array[:3, 3] = origin.as_array() - self._array[:3, :3] @ origin.as_array()
         return True
 
     @property
-- 
2.43.0


From d546b87926babedc2120f8a8d05ae739416ec6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 223/294] fix: vectors which are not parallel could not be
 rotated onto each other

---
 mmcore/api/vectors.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index 8b2593d..500e79a 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -548,17 +548,24 @@ class Matrix3D(BaseMatrix):
         """
         Sets to the matrix of rotation that would align the 'from' vector with the 'to' vector.
         """
-        rotvec = _from.cross(to)
+        a, b = unit(_from.as_array()), unit(to.as_array())
+        rotvec, cos = cross(a, b), a.dot(b)
+        ang = np.arctan2(np.linalg.norm(rotvec), cos)
         if np.allclose(rotvec, 0):
             # Vectors are either parallel or opposite
-            if _from.dot(to) < 0 and axis is not None:
-                # Vectors are opposite, use given axis for rotation
-                rotvec = axis
-        else:
-            return False
+            if cos > 0:
+                self.set_to_identity()
+                return True
+            # Vectors are opposite, use given axis for rotation
+            # (or any which is perpendicular to them)
+            rotvec = (
+                cross(a, np.eye(3)[np.argmin(np.abs(a))])
+                if axis is None
+                else axis.as_array()
+            )
 
-        ang = np.arccos(np.clip(_from.dot(to), -1.0, 1.0))
-        r = R.from_rotvec(ang * rotvec.as_array())
+        r = R.from_rotvec(ang * unit(rotvec))
+        self.set_to_identity()
         self._array[:3, :3] = r.as_matrix()
         return True
 
-- 
2.43.0


From 68cbde774426c45d868f460674153d30db347554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 224/294] fix: a bounding box made from its minimum and maximum
 had them swapped

---
 mmcore/api/bbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/api/bbox.py b/mmcore/api/bbox.py
index 0231453..2e3fdb9 100644
--- a/mmcore/api/bbox.py
+++ b/mmcore/api/bbox.py
@@ -75,8 +75,8 @@ class BaseBoundingBox(Base, metaclass=ABCMeta):
         Returns the new bounding box.
         """
         self = cls()
-        self.max = cls.__point_class__.cast(min_point)
-        self.min = cls.__point_class__.cast(max_point)
+        self.min = cls.__point_class__.cast(min_point).copy()
+        self.max = cls.__point_class__.cast(max_point).copy()
         return self
 
     @classmethod
-- 
2.43.0


From fe339d0d17c713a9d18606b49cd4d44ff95de590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 225/294] fix: a bounding box in space contained points above
 and below it

---
 mmcore/api/bbox.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/api/bbox.py b/mmcore/api/bbox.py
index 2e3fdb9..0fb6c1d 100644
--- a/mmcore/api/bbox.py
+++ b/mmcore/api/bbox.py
@@ -321,7 +321,9 @@ class BoundingBox3D(BaseBoundingBox, point_class=Point3D):
         """
 
         return (
-            self.max.x >= point.x >= self.min.x and self.max.y >= point.y >= self.min.y
+            self.max.x >= point.x >= self.min.x
+            and self.max.y >= point.y >= self.min.y
+            and self.max.z >= point.z >= self.min.z
         )
 
     def expand(self, point: Point3D) -> bool:
-- 
2.43.0


From 2943153df82056dde7b8289efc48a1fa629adee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 226/294] fix: the intersection of bounding boxes of the plane
 failed where they cross

---
 mmcore/api/bbox.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mmcore/api/bbox.py b/mmcore/api/bbox.py
index 0fb6c1d..b415e01 100644
--- a/mmcore/api/bbox.py
+++ b/mmcore/api/bbox.py
@@ -273,14 +273,15 @@ class BoundingBox2D(BaseBoundingBox, point_class=Point2D):
         return True
 
     def intersection(self, other: BoundingBox2D):
-        pts = []
-        for pt in self.to_vertices():
-            if other.contains(Point2D.cast(pt)):
-                pts.append(pt)
-        for pt in other.to_vertices():
-            if self.contains(Point2D.cast(pt)):
-                pts.append(pt)
-        return BoundingBox2D.create_from_array(np.array(pts))
+        # If the bounding boxes do not intersect, return None.
+        if not self.intersects(other):
+            return None
+        b = BoundingBox2D()
+        b.min.x = max(self.min.x, other.min.x)
+        b.min.y = max(self.min.y, other.min.y)
+        b.max.x = min(self.max.x, other.max.x)
+        b.max.y = min(self.max.y, other.max.y)
+        return b
 
 
 class BoundingBox3D(BaseBoundingBox, point_class=Point3D):
-- 
2.43.0


From dd510b15d5c0d6fc758a949f50871eb7e3b9185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:27 +0000
Subject: [PATCH 227/294] fix: the closest point of a NURBS curve was often a
 stationary point of another part, or none

---
 mmcore/numeric/closest_point.py | 101 ++++++++++++++++++++++++--------
 1 file changed, 77 insertions(+), 24 deletions(-)

diff --git a/mmcore/numeric/closest_point.py b/mmcore/numeric/closest_point.py
index 367f642..4dcaef7 100644
--- a/mmcore/numeric/closest_point.py
+++ b/mmcore/numeric/closest_point.py
@@ -1,3 +1,4 @@
+import heapq
 import itertools
 import os
 from typing import Optional
@@ -159,33 +160,85 @@ def _find_cls(bvh:_BVHN, point):
 from mmcore.numeric.newton.bounded import bounded_newtons_method
 
 
-def closest_point_on_nurbs_curve(curve: NURBSCurve, point: NDArray[float], tol=1e-6, on_curve=False)->tuple[bool, tuple[float,float]]:
-
-
-    bvh = build_bvh([NURBSCurveObject3D(c) for c in decompose_curve(curve)])
-    rr = find_closest(bvh, point, breadth=not on_curve)
-
-
-    if rr is None or len(rr[0])==0:
-        return False,closest_point_on_nurbs_curve(curve,point,tol,on_curve=False)[1]
-    def inner(crv):
-        nonlocal tol
-        a,b=crv.interval()
-
-
-        def objective(t):
-            d = (curve.evaluate(t[0]) - point)
-            return scalar_dot(d, d)
-        if on_curve:
-            res=bounded_newtons_method(objective, [sum([a,b]) / 2], [(a,b)], tol=tol, min_value=0.)
-        else:
-            res=newtons_method(objective, np.array([(a+ b)/2]), tol=tol)
-            print(res)
+def _bezier_segments(curve: NURBSCurve):
+    """
+    The intervals of the polynomial segments of the curve with their homogeneous Bezier points (by blossoming).
+    """
+    degree, knots = curve.degree, np.array(curve.knots)
+    cpts = np.array(curve.control_pointsw)
+    cpts[:, :-1] *= cpts[:, -1:]
+    for k in range(degree, len(knots) - degree - 1):
+        a, b = knots[k], knots[k + 1]
+        if a == b:
+            continue
+        bezier = np.empty((degree + 1, cpts.shape[1]))
+        for j in range(degree + 1):
+            pts = cpts[k - degree:k + 1].copy()
+            for r in range(1, degree + 1):
+                t = b if r <= j else a
+                for i in range(degree, r - 1, -1):
+                    t0, t1 = knots[i + k - degree], knots[i + 1 + k - r]
+                    alpha = (t - t0) / (t1 - t0)
+                    pts[i] = (1 - alpha) * pts[i - 1] + alpha * pts[i]
+            bezier[j] = pts[degree]
+        yield (a, b), bezier
 
 
-        return res, objective(res)
-    return True,sorted((inner(_curve.curve) for _curve in rr[0]),key=lambda x: x[1])[0]
+def closest_point_on_nurbs_curve(curve: NURBSCurve, point: NDArray[float], tol=1e-6, on_curve=False)->tuple[bool, tuple[float,float]]:
+    """
+    Find the point of the curve closest to the given point.
 
+    :param curve: The NURBS curve.
+    :param point: The point.
+    :param tol: The tolerance of the distance.
+    :param on_curve: Whether the point is expected to be on the curve; it is no success if it is further than the tolerance.
+    :return: The success, the parameter of the closest point and its squared distance.
+    """
+    point = np.asarray(point, dtype=float)
+
+    def squared_distance(t):
+        d = np.asarray(curve.evaluate(t)) - point
+        return float(d @ d)
+
+    best = min(((t, squared_distance(t)) for t in map(float, curve.interval())), key=lambda x: x[1])
+    # On a segment the squared distance is a quotient of polynomials (the distance of the homogeneous curve and
+    # the square of the weight), which is never below the least quotient of their Bernstein coefficients.
+    heap, count = [], itertools.count()
+
+    def push(interval, num, den):
+        nonlocal best
+        for t, value in zip(interval, (num[0] / den[0], num[-1] / den[-1])):
+            if value < best[1]:
+                best = min(best, (float(t), squared_distance(t)), key=lambda x: x[1])
+        heapq.heappush(heap, (np.min(num / den), next(count), interval, num, den))
+
+    def halve(coefs):
+        left, right = [coefs[0]], [coefs[-1]]
+        while len(coefs) > 1:
+            coefs = 0.5 * (coefs[1:] + coefs[:-1])
+            left.append(coefs[0])
+            right.append(coefs[-1])
+        return np.array(left), np.array(right[::-1])
+
+    n = curve.degree
+    binom = np.array([math.comb(n, i) for i in range(n + 1)], dtype=float)
+    binom2 = np.array([math.comb(2 * n, i) for i in range(2 * n + 1)], dtype=float)
+    for interval, bezier in _bezier_segments(curve):
+        weights = bezier[:, -1]
+        diff = (bezier[:, :-1] - weights[:, None] * point) * binom[:, None]
+        push(interval, sum(np.convolve(d, d) for d in diff.T) / binom2, np.convolve(weights * binom, weights * binom) / binom2)
+
+    while heap:
+        bound, _, (a, b), num, den = heapq.heappop(heap)
+        distance = math.sqrt(best[1])
+        if distance - math.sqrt(max(bound, 0.)) <= max(tol, 1e-12 * distance):
+            break
+        mid = 0.5 * (a + b)
+        if not a < mid < b:
+            continue
+        for interval, coefs in zip(((a, mid), (mid, b)), zip(halve(num), halve(den))):
+            push(interval, *coefs)
+    return not on_curve or math.sqrt(best[1]) <= tol, best
 
 
 def foot_point(S, P, s0, t0, partial_derivatives=None, epsilon=1e-6, alpha_max=20):
-- 
2.43.0


From 8db4118f9bb080b478fda13a4aa806a7991808a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:27 +0000
Subject: [PATCH 228/294] fix: points with zeros of other sign or equal hashes
 were told apart or taken for each other

---
 mmcore/topo/brep/__init__.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mmcore/topo/brep/__init__.py b/mmcore/topo/brep/__init__.py
index b31e668..eb71b91 100644
--- a/mmcore/topo/brep/__init__.py
+++ b/mmcore/topo/brep/__init__.py
@@ -24,16 +24,16 @@ T = TypeVar('T')
 class GeometryRepresentation(Generic[T]):
     index: int
     value: T
+    def _key(self):
+        if isinstance(self.value,(np.ndarray,memoryview,tuple,list)):
+            return tuple(np.round(np.asarray(self.value,dtype=float),8).tolist())
+        return self.value
     def __hash__(self):
-        if isinstance(self.value,(np.ndarray,memoryview)):
-            if hasattr(self.value,'tobytes'):
-
-                return hash(np.round(self.value,8).tobytes())
-
-
-        return self.value.__hash__()
+        return hash(self._key())
     def __eq__(self, other):
-        return self.__hash__()==other.__hash__()
+        if not isinstance(other,GeometryRepresentation):
+            return NotImplemented
+        return self._key()==other._key()
 
 
 @dataclass(slots=True, unsafe_hash=True)
-- 
2.43.0


From c6a68756b24fd2a37e159ca925e30a2c1f579554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:27 +0000
Subject: [PATCH 229/294] fix: the parameters of the ends of an edge could not
 be had

---
 mmcore/topo/brep/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mmcore/topo/brep/__init__.py b/mmcore/topo/brep/__init__.py
index eb71b91..8bc15bc 100644
--- a/mmcore/topo/brep/__init__.py
+++ b/mmcore/topo/brep/__init__.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 from collections import namedtuple
-from functools import lru_cache
 from types import GenericAlias
 from typing import TypeVar, Generic
 
@@ -60,9 +59,8 @@ class _EdgeCurveParametersResult:
                 f"The starting vertex does not belong to the edge. Error value: {self.start.dist}")
         if  not self.end.success:
             raise ValueError(
-                f"The starting vertex does not belong to the edge. Error value: {self.end.dist}")
+                f"The ending vertex does not belong to the edge. Error value: {self.end.dist}")
 
-@lru_cache(maxsize=None)
 def _get_edge_curve_parameters_at_points(curve:NURBSCurve,
                        start:NDArray[float],
                        end:NDArray[float],
@@ -75,7 +73,7 @@ def _get_edge_curve_parameters_at_points(curve:NURBSCurve,
 
 
 
-    return _EdgeCurveParametersResult(_EndParameterResult(success_start, start_param, start_param), _EndParameterResult(success_end, end_param, end_dist))
+    return _EdgeCurveParametersResult(_EndParameterResult(success_start, start_param, start_dist), _EndParameterResult(success_end, end_param, end_dist))
 
 
 def get_edge_ends_parameters(edge:Edge,check:bool=False)->tuple[float,float]:
-- 
2.43.0


From a2428267382883331fc91cf16834619e99742ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:27 +0000
Subject: [PATCH 230/294] fix: an edge from a vertex to itself was taken for
 one to another vertex

---
 mmcore/topo/brep/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/topo/brep/__init__.py b/mmcore/topo/brep/__init__.py
index 8bc15bc..a9a59c6 100644
--- a/mmcore/topo/brep/__init__.py
+++ b/mmcore/topo/brep/__init__.py
@@ -221,7 +221,8 @@ class BRep:
         if check:
             for v in self.edges:
                 pts=(v.bounded_by[0].represented_by,v.bounded_by[1].represented_by)
-                if v.represented_by == representation and start.represented_by in pts and end.represented_by in pts:
+                ends=(start.represented_by,end.represented_by)
+                if v.represented_by == representation and (ends==pts or ends==pts[::-1]):
                     return v
 
 
-- 
2.43.0


From b7a85bd6ff321f020745bd5d387ce49323123cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:27 +0000
Subject: [PATCH 231/294] fix: faces were taken for each other whatever their
 holes, and those with holes failed

---
 mmcore/topo/brep/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/topo/brep/__init__.py b/mmcore/topo/brep/__init__.py
index a9a59c6..e28a376 100644
--- a/mmcore/topo/brep/__init__.py
+++ b/mmcore/topo/brep/__init__.py
@@ -262,7 +262,7 @@ class BRep:
                     if hash(v.represented_by) == hash(representation):
                             if bounded_by[0] is v.bounded_by[0]:
 
-                                if sorted((hash(b) for b in bounded_by[1:]))==sorted((hash(b) for b in bounded_by[1:])):
+                                if sorted((id(b) for b in bounded_by[1:]))==sorted((id(b) for b in v.bounded_by[1:])):
                                     return v
 
 
-- 
2.43.0


From f499eb423a31ea95a24f75d2d6ca939a8da0a6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:27 +0000
Subject: [PATCH 232/294] fix: shells and solids could not be added with a
 check

---
 mmcore/topo/brep/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mmcore/topo/brep/__init__.py b/mmcore/topo/brep/__init__.py
index e28a376..7da237a 100644
--- a/mmcore/topo/brep/__init__.py
+++ b/mmcore/topo/brep/__init__.py
@@ -273,7 +273,9 @@ class BRep:
 
     def add_shell(self, faces:list[Face],check=True):
         if check:
-            raise NotImplemented
+            for v in self.shells:
+                if sorted(id(f) for f in v.faces)==sorted(id(f) for f in faces):
+                    return v
         return self.add_shell_unsafe(faces)
 
     def add_shell_unsafe(self, faces:list[Face]):
@@ -282,7 +284,9 @@ class BRep:
         return v
     def add_solid(self, shells:list[Shell],check=True):
         if check:
-            raise NotImplemented
+            for v in self.solids:
+                if sorted(id(s) for s in v.bounded_by)==sorted(id(s) for s in shells):
+                    return v
         return self.add_solid_unsafe(shells)
 
     def add_solid_unsafe(self, shells:list[Shell]):
-- 
2.43.0


From 54a8ab48b455f9f0ec17510759900f91532ce859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:27 +0000
Subject: [PATCH 233/294] fix: the B-rep of a surface held numbers in place of
 its geometry

---
 mmcore/topo/brep/__init__.py | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/mmcore/topo/brep/__init__.py b/mmcore/topo/brep/__init__.py
index 7da237a..9d8c5a9 100644
--- a/mmcore/topo/brep/__init__.py
+++ b/mmcore/topo/brep/__init__.py
@@ -300,29 +300,12 @@ def nurbs_surf_to_brep(surf:NURBSSurface):
 
     geom=BRepGeometry()
     boundaries = extract_surface_boundaries(surf)
-    geom.surfaces.append(surf)
-    face=Face(0)
+    face=Face(geom.add_surface(surf))
     loop=Loop()
 
-    for i,boundary in enumerate(boundaries):
-        geom.curves.append(boundary)
+    for boundary in boundaries:
         start,end=np.array(boundary.start()),np.array(boundary.end())
-        edge=Edge(i, [None,None])
-
-        for j,pt in enumerate([start,end]):
-            if len(geom.points)==0:
-                geom.points.append(tuple(pt))
-                edge.bounded_by[j] = Vertex(0)
-            else:
-                if tuple(pt) in geom.points:
-                    edge.bounded_by[j]=Vertex(geom.points.index(tuple(pt)))
-                else:
-                    edge.bounded_by[j] = Vertex(len(geom.points))
-                    geom.points.append(
-                        tuple(pt)
-                    )
-
-
+        edge=Edge(geom.add_curve(boundary,check=False), [Vertex(geom.add_point(pt)) for pt in (start,end)])
         loop.edges.append(edge)
     face.bounded_by.append(loop)
     return Shell([face]),geom
-- 
2.43.0


From 9cde4e0470857728cac359d8df59af98c61eb3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 234/294] fix: a segment at a duplicate vertex crashed the
 triangulation

---
 mmcore/topo/mesh/triangle-c/triangle.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mmcore/topo/mesh/triangle-c/triangle.c b/mmcore/topo/mesh/triangle-c/triangle.c
index c229319..94efe99 100644
--- a/mmcore/topo/mesh/triangle-c/triangle.c
+++ b/mmcore/topo/mesh/triangle-c/triangle.c
@@ -14051,6 +14051,10 @@ FILE **polyfile;
       setvertexmark(vertexloop, 0);
     }
     setvertextype(vertexloop, INPUTVERTEX);
+    if (b->poly) {
+      /* makevertexmap() finds no triangle for a duplicate vertex. */
+      setvertex2tri(vertexloop, (triangle) NULL);
+    }
     /* Determine the smallest and largest x and y coordinates. */
     if (i == 0) {
       m->xmin = m->xmax = x;
@@ -14138,6 +14142,10 @@ int numberofpointattribs;
       setvertexmark(vertexloop, 0);
     }
     setvertextype(vertexloop, INPUTVERTEX);
+    if (b->poly) {
+      /* makevertexmap() finds no triangle for a duplicate vertex. */
+      setvertex2tri(vertexloop, (triangle) NULL);
+    }
     /* Determine the smallest and largest x and y coordinates. */
     if (i == 0) {
       m->xmin = m->xmax = x;
-- 
2.43.0


From ae99c6697dbc0e2c24ea0ceabb86514f8c68abd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 235/294] fix: a mesh with neighbors could not be refined

---
 mmcore/topo/mesh/triangle/core.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/topo/mesh/triangle/core.pyx b/mmcore/topo/mesh/triangle/core.pyx
index a5c1ac3..7fd5173 100644
--- a/mmcore/topo/mesh/triangle/core.pyx
+++ b/mmcore/topo/mesh/triangle/core.pyx
@@ -149,7 +149,7 @@ fields = (
     ('trianglelist', 'intc'),
     ('triangleattributelist', 'double'),
     ('trianglearealist', 'double'),
-    ('neighborlist', 'double'),
+    ('neighborlist', 'intc'),
 
     ('segmentlist', 'intc'),
     ('segmentmarkerlist', 'intc'),
-- 
2.43.0


From 6790c15aca6d19e51dd0dc2341c73dc38d44a523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 236/294] fix: a triangulation of points on one line crashed
 the interpreter

---
 mmcore/topo/mesh/triangle/core.pyx | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/mmcore/topo/mesh/triangle/core.pyx b/mmcore/topo/mesh/triangle/core.pyx
index 7fd5173..dac68d1 100644
--- a/mmcore/topo/mesh/triangle/core.pyx
+++ b/mmcore/topo/mesh/triangle/core.pyx
@@ -2,6 +2,7 @@
 
 from libc.stdlib cimport free
 import numpy as np
+from fractions import Fraction
 
 
 cdef extern from "triangle.h":
@@ -229,12 +230,34 @@ cdef fout(triangulateio* c, d):
             _free()
 
 
+def _collinear(points):
+    # all points on one line (or at one place): there is nothing to triangulate
+    d = points - points[0]
+    k = int(np.argmax(np.abs(d).max(axis=1)))
+    ux, uy = d[k]
+    cross = d[:, 0] * uy - d[:, 1] * ux
+    size = np.abs(d[:, 0] * uy) + np.abs(d[:, 1] * ux)
+    if np.any(np.abs(cross) > 1e-14 * size):
+        return False
+    # rounding could have hidden it: decide exactly
+    exact = [(Fraction(x), Fraction(y)) for x, y in points.tolist()]
+    x0, y0 = exact[0]
+    ex, ey = exact[k][0] - x0, exact[k][1] - y0
+    return all((x - x0) * ey == (y - y0) * ex for x, y in exact)
+
+
 def triang(_in, opts):
 
     if ('pointlist' not in _in) or (len(_in['pointlist']) < 3):
         raise ValueError('Input must have at least three vertices.')
 
     _in = {name:contig2d(_in[name], field_dtype[name]) for name in _in}
+    if not np.isfinite(_in['pointlist']).all():
+        raise ValueError('Input vertices must be finite.')
+    if _collinear(_in['pointlist']):
+        raise ValueError('Input vertices must not all lie on one line.')
+    if 'r' in opts and 'trianglelist' not in _in:
+        raise ValueError('A mesh to refine must have triangles.')
 
     opts = opts.encode('utf-8')
 
-- 
2.43.0


From ab871da4e13968bf3672e367553d6daf56dcfd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 237/294] fix: closed loops and concave holes were prepared
 wrongly for a triangulation

---
 mmcore/topo/mesh/triangle/tri.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/mmcore/topo/mesh/triangle/tri.py b/mmcore/topo/mesh/triangle/tri.py
index 14bc46f..d276a7d 100644
--- a/mmcore/topo/mesh/triangle/tri.py
+++ b/mmcore/topo/mesh/triangle/tri.py
@@ -186,22 +186,34 @@ def segments_by_loop(loop, start_index=0):
     return np.array([(i, (i + 1) % len(loop)) for i in range(len(loop))], dtype=np.int32) + start_index
 
 
+def _open_loop(loop):
+    loop = np.asarray(loop, dtype=float)
+    return loop[:-1] if np.allclose(loop[0], loop[-1]) else loop
+
+
+def _point_inside_loop(loop):
+    # the middle of the first stretch inside the loop of a horizontal line that passes through no vertex
+    ys = np.unique(loop[:, 1])
+    k = int(np.argmax(np.diff(ys)))
+    y = (ys[k] + ys[k + 1]) / 2
+    nxt = np.roll(loop, -1, axis=0)
+    a, b = loop[(loop[:, 1] > y) != (nxt[:, 1] > y)], nxt[(loop[:, 1] > y) != (nxt[:, 1] > y)]
+    xs = np.sort(a[:, 0] + (y - a[:, 1]) * (b[:, 0] - a[:, 0]) / (b[:, 1] - a[:, 1]))
+    return np.array([(xs[0] + xs[1]) / 2, y])
+
+
 def prepare_args(boundaries, holes):
     _max = 0
-
-    data = dict(vertices=np.concatenate(list(boundaries)+ list(holes)), holes=np.zeros((len(holes), 2)))
+    boundaries = [_open_loop(boundary) for boundary in boundaries]
+    holes = [_open_loop(hole) for hole in holes]
+    data = dict(vertices=np.concatenate(boundaries + holes), holes=np.zeros((len(holes), 2)))
     edges = []
     for boundary in boundaries:
-        if np.allclose(boundary[0], boundary[-1]):
-            boundary = boundary[:-1]
         res = segments_by_loop(boundary, start_index=_max)
         edges.extend(res)
         _max = _max + len(boundary)
     for i, hole in enumerate(holes):
-        hole = list(reversed(hole))
-        if np.allclose(hole[0], hole[-1]):
-            hole = hole[:-1]
-        data['holes'][i] = np.average(hole, axis=0)
+        data['holes'][i] = _point_inside_loop(hole)
         res = segments_by_loop(hole, start_index=_max)
         edges.extend(res)
         _max = _max + len(hole)
-- 
2.43.0


From 1b5c6231928dd2abc378a3d2736b6ea4cfe10590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 238/294] fix: a trimmed surface was tessellated beyond its
 trim and only over the unit square

---
 mmcore/topo/mesh/tess.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mmcore/topo/mesh/tess.py b/mmcore/topo/mesh/tess.py
index 67387a0..d00b4f8 100644
--- a/mmcore/topo/mesh/tess.py
+++ b/mmcore/topo/mesh/tess.py
@@ -9,15 +9,15 @@ from mmcore.topo.mesh.triangle.tri import segments_by_loop
 
 
 def tessellate_curve_on_surface(crv: 'CurveOnSurface', u_count=25, v_count=25, boundary_count=100):
-    plgn = polygon = crv.curve(np.linspace(*tuple(crv.interval()), boundary_count))[..., :2]
+    plgn = polygon = crv._evaluate_uv(np.linspace(*tuple(crv.interval()), boundary_count))
 
-    edges = [(polygon[i], polygon[(i + 1) % len(polygon)]) for i in range(len(polygon))]
-    bvh_root = polygon_build_bvh(edges)
+    bvh_root = polygon_build_bvh([tuple(uv) for uv in polygon])
 
     mask = []
     pts = []
-    uu = np.linspace(0.0, 1.0, u_count)
-    vv = np.linspace(0.0, 1.0, v_count)
+    (u_min, u_max), (v_min, v_max) = crv.surf.interval()
+    uu = np.linspace(u_min, u_max, u_count)
+    vv = np.linspace(v_min, v_max, v_count)
 
     for i in range(u_count):
         for j in range(v_count):
@@ -38,9 +38,9 @@ def tessellate_curve_on_surface(crv: 'CurveOnSurface', u_count=25, v_count=25, b
                 dtype=float,
             ),
             segments=np.array(edges, dtype=np.int32),
-        )
+        ), opts='p'
     )
-    trires["position"] = crv.surf(trires["vertices"])
+    trires["position"] = crv.surf.evaluate_multi(trires["vertices"])
 
     return trires
 
-- 
2.43.0


From 8f1fd12c66403bf5fd218f6b24664ebb33cbc0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:02 +0000
Subject: [PATCH 239/294] fix: a surface could not be tessellated at all

---
 mmcore/topo/mesh/tess.py | 64 +++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 33 deletions(-)

diff --git a/mmcore/topo/mesh/tess.py b/mmcore/topo/mesh/tess.py
index d00b4f8..48936fe 100644
--- a/mmcore/topo/mesh/tess.py
+++ b/mmcore/topo/mesh/tess.py
@@ -46,9 +46,9 @@ def tessellate_curve_on_surface(crv: 'CurveOnSurface', u_count=25, v_count=25, b
 
 
 def _process_trim(trim: 'CurveOnSurface', boundary_count=100):
-    polygon = trim.curve(np.linspace(*tuple(trim.interval()), boundary_count))[..., :2]
+    polygon = trim._evaluate_uv(np.linspace(*tuple(trim.interval()), max(boundary_count, 2)))
 
-    edges = np.array([(i, (i + 1) % len(polygon)) for i in range(len(polygon))], dtype=np.int32)
+    edges = np.array([(i, i + 1) for i in range(len(polygon) - 1)], dtype=np.int32)
     #bvh_root = polygon_build_bvh(polygon[edges])
     return polygon, edges,  #bvh_root
 
@@ -75,13 +75,26 @@ def match_edge_cases(polygon, bounds, tol=1e-3):
 def calculate_uv_ratio(surf: 'Surface'):
     (u_min, u_max), (v_min, v_max) = surf.interval()
 
-    crv1 = surf.isoline_u((u_min + u_max) / 2)
-    crv2 = surf.isoline_v((v_min + v_max) / 2)
-    l1 = crv1.evaluate_length(crv1.interval())
-    l2 = crv2.evaluate_length(crv2.interval())
+    u_mid, v_mid = (u_min + u_max) / 2, (v_min + v_max) / 2
+    along_v = surf.evaluate_multi(np.array([(u_mid, v) for v in np.linspace(v_min, v_max, 100)]))
+    along_u = surf.evaluate_multi(np.array([(u, v_mid) for u in np.linspace(u_min, u_max, 100)]))
+    l1 = float(np.linalg.norm(np.diff(along_v, axis=0), axis=1).sum())
+    l2 = float(np.linalg.norm(np.diff(along_u, axis=0), axis=1).sum())
+    if not (l1 > 0 and l2 > 0):
+        return 1., l1, l2
     return l1 / l2, l1, l2
 
 
+def _division_counts(u_count, v_count, ratio=1., default=25):
+    if u_count is None and v_count is None:
+        u_count = default
+    if v_count is None:
+        v_count = max(int(ratio * u_count), 1)
+    elif u_count is None:
+        u_count = max(int(v_count / ratio), 1)
+    return u_count, v_count
+
+
 def tessellate_surface(surface: 'Surface',
                        trims: Collection['CurveOnSurface'] = (),
                        u_count: int = None, v_count: int = None,
@@ -99,31 +112,16 @@ def tessellate_surface(surface: 'Surface',
 
     trims_density = [boundary_count] * len(trims)
     if calculate_density:
-        ratio, lu, lv = calculate_uv_ratio(surface)
-
-        if u_count is not None and v_count is None:
-            u_count = 25
-            v_count = int(ratio * u_count)
-        elif u_count is None:
-            u_count = int((1 / ratio) * v_count)
-        elif v_count is None:
-            v_count = int(ratio * u_count)
-        else:
-            pass
+        ratio, lv, lu = calculate_uv_ratio(surface)
+
+        u_count, v_count = _division_counts(u_count, v_count, ratio)
         for i, trim in enumerate(trims):
-            l = trim.evaluate_length(trim.interval())
-            trims_density[i] = int(((lu / l) * u_count) / 4)
+            l = trim.evaluate_length(tuple(trim.interval()))
+            trims_density[i] = max(int((l / lu) * u_count), 8) if lu > 0 else boundary_count
     else:
-        if u_count is not None and v_count is None:
-            u_count = 25
-            v_count = 25
-        elif u_count is None:
-            u_count = v_count
-
-        elif v_count is None:
-            v_count = u_count
+        u_count, v_count = _division_counts(u_count, v_count)
 
-    uv_interval = ((u_min, v_min), (u_max, v_max)) = surface
+    (u_min, u_max), (v_min, v_max) = surface.interval()
 
     boundary = np.array([*np.linspace((u_min, v_min), (u_max, v_min), u_count),
                          *np.linspace((u_max, v_min), (u_max, v_max), v_count),
@@ -132,7 +130,7 @@ def tessellate_surface(surface: 'Surface',
                         )
     u_step = (u_max - u_min) / u_count
     v_step = (v_max - v_min) / v_count
-    tess_uv = ((u_min + u_step, v_min + v_step), (u_max - u_step, v_max - v_step))
+    tess_uv = ((u_min + u_step, u_max - u_step), (v_min + v_step, v_max - v_step))
     boundary_edges = np.array([(i, (i + 1) % len(boundary)) for i in range(len(boundary))], dtype=np.int32)
     #boundary_bvh_root = polygon_build_bvh(boundary[boundary_edges])
     tessellation_params = dict(vertices=[*boundary], segments=[*boundary_edges])
@@ -143,7 +141,7 @@ def tessellate_surface(surface: 'Surface',
 
         tessellation_params['segments'].extend(edges + _max)
         tessellation_params['vertices'].extend(polygon)
-        _max += len(edges)
+        _max += len(polygon)
     uv = uvs(u_count - 1, v_count - 1, *tess_uv)
 
     tessellation_params['vertices'].extend(uv)
@@ -154,17 +152,17 @@ def tessellate_surface(surface: 'Surface',
     tessellation_params['segments'] = np.array(tessellation_params['segments'], dtype=np.int32)
     if calculate_density:
         tessellation = triangulate(
-            tessellation_params, opts='q'
+            tessellation_params, opts='pq'
         )
     else:
         tessellation = triangulate(
-            tessellation_params
+            tessellation_params, opts='p'
         )
     vxs = np.array(tessellation["vertices"])
     if calculate_density:
         vxs[..., 1] /= ratio
     tessellation["vertices"] = vxs
-    tessellation["position"] = surface(vxs)
+    tessellation["position"] = surface.evaluate_multi(vxs)
     return tessellation
 
 
-- 
2.43.0


From d589226d1c97eebda1ecdc46b473a2c90f929506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:02 +0000
Subject: [PATCH 240/294] fix: neighbors, edges, comments and regions of mesh
 files were misread

---
 mmcore/topo/mesh/triangle/data.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mmcore/topo/mesh/triangle/data.py b/mmcore/topo/mesh/triangle/data.py
index b2029dc..c2dcf97 100644
--- a/mmcore/topo/mesh/triangle/data.py
+++ b/mmcore/topo/mesh/triangle/data.py
@@ -5,7 +5,7 @@ import numpy as np
 
 
 def remove_comments(s):
-    return re.sub("#.*\n", '', s)
+    return re.sub("#.*", '', s)
 
 
 def split(tup, pos):
@@ -117,7 +117,7 @@ def loads(
         data['triangle_max_area'] = np.array(v[:, 1:2], dtype='double')
 
     def _edge(inpt):
-        tokens = inpt.split('\n')
+        tokens = [line for line in inpt.split('\n') if line.strip()]
         head, tokens = split(tokens, 1)
         N_edges, N_bnd_markers = list(map(int, head[0].split()))
         if N_edges == 0:
@@ -126,11 +126,11 @@ def loads(
         tokens = [x.split() for x in tokens]
         edges = [x for x in tokens if len(x) == (3 + N_bnd_markers)]
         rays = [x for x in tokens if len(x) == (5 + N_bnd_markers)]
-        edges = np.array(edges)
-        rays = np.array(rays)
+        edges = np.array(edges).reshape(-1, 3 + N_bnd_markers)
+        rays = np.array(rays).reshape(-1, 5 + N_bnd_markers)
         data['edges'] = np.array(edges[:, 1:3], dtype='intc')
         data['ray_origins'] = np.array(rays[:, 1:2], dtype='intc')
-        data['ray_directions'] = np.array(rays[:, 3:], dtype='double')
+        data['ray_directions'] = np.array(rays[:, 3:5], dtype='double')
 
         if not var.start_at_zero:
             data['edges'] -= 1
@@ -144,6 +144,10 @@ def loads(
 
         # number of fields must be equal to 4 according to spec,
         # but it is only 3 in la.poly
+        if len(tokens) >= N_areas * 5:
+            head, tokens = split(tokens, N_areas * 5)
+            data['regions'] = np.array(np.array(head).reshape(-1, 5)[:, 1:5], dtype='double')
+            return
         head, tokens = split(tokens, N_areas * 4)
         v = np.array(head).reshape(-1, 4)
         regs = np.array(v[:, 1:4], dtype='double')
@@ -165,7 +169,8 @@ def loads(
         v = np.array(head).reshape(-1, 1 + N_neighs)
         data['triangle_neighbors'] = np.array(v[:, 1:], dtype='intc')
         if not var.start_at_zero:
-            data['triangle_neighbors'] -= 1
+            # -1 stands for no neighbor whatever the first number is
+            data['triangle_neighbors'][data['triangle_neighbors'] > 0] -= 1
 
     if node:
         tok = remove_comments(node).split()
-- 
2.43.0


From 6062ae984ec0ed567a60f4795e21706f6cad6e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:18 +0000
Subject: [PATCH 241/294] fix: an inner point of a tessellation that fell on a
 trim crashed the interpreter

---
 mmcore/topo/mesh/tess.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/mmcore/topo/mesh/tess.py b/mmcore/topo/mesh/tess.py
index 48936fe..793c781 100644
--- a/mmcore/topo/mesh/tess.py
+++ b/mmcore/topo/mesh/tess.py
@@ -53,6 +53,27 @@ def _process_trim(trim: 'CurveOnSurface', boundary_count=100):
     return polygon, edges,  #bvh_root
 
 
+def _on_sides(polygon, bounds, tol=1e-9):
+    # parameters that miss a side of the rectangle by rounding lie on it
+    for k, (lo, hi) in enumerate(bounds):
+        polygon[:, k] = np.clip(polygon[:, k], lo, hi)
+        polygon[np.abs(polygon[:, k] - lo) <= tol * (hi - lo), k] = lo
+        polygon[np.abs(polygon[:, k] - hi) <= tol * (hi - lo), k] = hi
+    return polygon
+
+
+def _apart(points, polygon, steps, tol=1e-3):
+    # the points that do not fall on the polyline (steps are the units of length)
+    points, a = np.asarray(points) / steps, polygon / steps
+    keep = np.ones(len(points), dtype=bool)
+    for p, q in zip(a[:-1], a[1:]):
+        d = q - p
+        l = np.dot(d, d)
+        t = np.clip((points - p) @ d / l, 0., 1.) if l > 0 else np.zeros(len(points))
+        keep &= np.linalg.norm(p + t[:, np.newaxis] * d - points, axis=1) > tol
+    return keep
+
+
 def _is_close_0(a, tol=1e-3):
     return abs(a) <= tol
 
@@ -136,14 +157,15 @@ def tessellate_surface(surface: 'Surface',
     tessellation_params = dict(vertices=[*boundary], segments=[*boundary_edges])
     _max = len(boundary)
 
+    uv = uvs(u_count - 1, v_count - 1, *tess_uv)
     for i, trim in enumerate(trims):
         polygon, edges = _process_trim(trim, trims_density[i])
+        polygon = _on_sides(polygon, ((u_min, u_max), (v_min, v_max)))
+        uv = uv[_apart(uv, polygon, (u_step, v_step))]
 
         tessellation_params['segments'].extend(edges + _max)
         tessellation_params['vertices'].extend(polygon)
         _max += len(polygon)
-    uv = uvs(u_count - 1, v_count - 1, *tess_uv)
-
     tessellation_params['vertices'].extend(uv)
     vxs = np.array(tessellation_params['vertices'], dtype=float)
     if calculate_density:
-- 
2.43.0


From da9463db9229fbf32e7468967b5bb95c9de6a2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:52 +0000
Subject: [PATCH 242/294] fix: a periodic NURBSpline was wrong outside its
 interval

---
 mmcore/geom/curves/_nurbs.pyx | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index f6b863a..8451d63 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -15,6 +15,21 @@ cnp.import_array()
 
 
 
+@cython.cdivision(True)
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef double wrap_parameter(int n, int p, double u, double[:] U, bint is_periodic) noexcept nogil:
+    """
+    The parameter of the domain a periodic curve has the same point at.
+    """
+    cdef double period = U[n + 1] - U[p]
+    if is_periodic:
+        while u < U[p]:
+            u += period
+        while u > U[n + 1]:
+            u -= period
+    return u
+
 @cython.cdivision(True)
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -119,6 +134,7 @@ cdef void curve_point(int n, int p, double[:] U, double[:, :] P, double u, doubl
 
     cdef int pp = p + 1
     cdef int i, j
+    u = wrap_parameter(n, p, u, U, is_periodic)
     cdef int span = find_span(n, p, u, U,is_periodic)
     cdef double* N = <double*>malloc(sizeof(double)*pp)
     cdef double sum_of_weights=0.
@@ -281,6 +297,7 @@ cpdef void curve_derivs_alg1(int n, int p, double[:] U, double[:, :] P, double u
     cdef int du = min(d, p)
     #cdef double[:, :] CK = np.zeros((du + 1, P.shape[1]))
     cdef int pp=p+1
+    u = wrap_parameter(n, p, u, U, is_periodic)
     cdef int span = find_span(n, p, u, U,is_periodic)
     cdef double[:, :] nders = ders_basis_funs(span, u, p, du, U)
 
@@ -362,6 +379,7 @@ cpdef void curve_derivs_alg2(int n, int p, double[:] U, double[:, :] P, double u
 
     #cdef double[:, :] CK = np.zeros((d + 1, dimension))
 
+    u = wrap_parameter(n, p, u, U, is_periodic)
     cdef int span = find_span(n, degree, u, knotvector,is_periodic)
     #cdef double[:, :, :] PK = np.zeros((d + 1, degree + 1, P.shape[1]))
 
-- 
2.43.0


From 5e72d9445f5051a3ac582837119a65346524e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:52 +0000
Subject: [PATCH 243/294] fix: a NURBSpline with an unclamped start hung before
 its interval

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 8451d63..0011281 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -58,7 +58,7 @@ cdef int find_span(int n, int p, double u, double[:] U, bint is_periodic) noexce
 
             return n
 
-        elif u < U[0]:
+        elif u < U[p]:
 
             return p
 
-- 
2.43.0


From 5947aca2fd01096382231b1e4e02dbcb9da664ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:52 +0000
Subject: [PATCH 244/294] fix: the derivatives of a rational NURBSpline ignored
 its weights

---
 mmcore/geom/curves/_nurbs.pyx | 42 +++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 0011281..805ea57 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -9,6 +9,7 @@ cimport numpy as cnp
 from libc.stdlib cimport malloc,free
 from mmcore.geom.parametric cimport ParametricCurve
 from mmcore.numeric cimport vectors,calgorithms
+from mmcore.numeric.binom cimport binomial_coefficient
 
 from libc.math cimport fabs, sqrt,fmin,fmax,pow
 cnp.import_array()
@@ -424,6 +425,41 @@ cdef void projective_to_cartesian_ptr_mem(double* point, double[:] result)  noex
 
 
 
+@cython.cdivision(True)
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef bint is_rational(double[:,:] control_points) noexcept nogil:
+    cdef int i
+    for i in range(1, control_points.shape[0]):
+        if control_points[i, 3] != control_points[0, 3]:
+            return True
+    return False
+
+@cython.cdivision(True)
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef void rat_curve_derivs(int n, int p, double[:] U, double[:,:] P, double u, int d, double[:, :] CK, bint is_periodic):
+    """
+    Derivatives of a rational curve, given by cartesian control points with weights (A4.2 of The NURBS Book).
+    """
+    cdef double[:,:] Pw = np.empty((P.shape[0], 4))
+    cdef double[:,:] CKw = np.zeros((d + 1, 4))
+    cdef int rows = min(d + 1, CK.shape[0])
+    cdef int i, j, k
+    cdef double v
+    for i in range(P.shape[0]):
+        for j in range(3):
+            Pw[i, j] = P[i, j] * P[i, 3]
+        Pw[i, 3] = P[i, 3]
+    curve_derivs_alg1(n, p, U, Pw, u, d, CKw, is_periodic)
+    for k in range(rows):
+        for j in range(3):
+            v = CKw[k, j]
+            for i in range(1, k + 1):
+                v -= binomial_coefficient(k, i) * CKw[i, 3] * CK[k - i, j]
+            CK[k, j] = v / CKw[0, 3]
+
+
 cdef class NURBSpline(ParametricCurve):
     cdef public double[:,:] _control_points
     cdef public int _degree
@@ -826,6 +862,9 @@ cdef class NURBSpline(ParametricCurve):
         cdef int i
         #cdef double[:, :]  CK = np.zeros((du + 1, 4))
         #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
+        if is_rational(self._control_points):
+            rat_curve_derivs(n, self._degree, self._knots, self._control_points, t, d, CK, self._periodic)
+            return
         curve_derivs_alg1(n, self._degree, self._knots, self._control_points[:,:-1], t, d, CK,self._periodic)
 
     @cython.cdivision(True)
@@ -844,6 +883,9 @@ cdef class NURBSpline(ParametricCurve):
            cdef int i
            #cdef double[:, :]  CK = np.zeros((du + 1, 4))
            #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
+           if is_rational(self._control_points):
+               rat_curve_derivs(n, self._degree, self._knots, self._control_points, t, d, CK, self._periodic)
+               return
            cdef double[:,:,:] PK= np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1 ))
 
            curve_derivs_alg2(n, self._degree, self._knots, self._control_points[:,:-1], t, d, CK, PK,self._periodic)
-- 
2.43.0


From f865911fe4e9946aa6d83f8c84ae3c084e846471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:52 +0000
Subject: [PATCH 245/294] fix: NURBSpline.normal wrote beyond its buffer

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 805ea57..25364fa 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -919,7 +919,7 @@ cdef class NURBSpline(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     cdef void cnormal(self, double t, double[:] result):
-        cdef double[:,:] vecs=np.zeros((3,3))
+        cdef double[:,:] vecs=np.zeros((4,3))
         self.cplane(t,vecs)
         result[:]=vecs[2,:]
 
-- 
2.43.0


From 07e893137f22f2c7a85713a58a5b4447049b3c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:52 +0000
Subject: [PATCH 246/294] fix: NURBSpline.derivative_control_points wrote
 beyond its buffer

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 25364fa..3724284 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -974,7 +974,7 @@ cdef class NURBSpline(ParametricCurve):
             cdef int n = len(self._control_points) - 1
             cdef int span = find_span(n, self._degree, t,self._knots,self._periodic)
             cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1))
-            curve_deriv_cpts(self._degree, self._knots,self._control_points, d, span - self._degree, span, PK)
+            curve_deriv_cpts(self._degree, self._knots,self._control_points[:,:-1], d, span - self._degree, span, PK)
 
             return np.asarray(PK)
     @cython.cdivision(True)
-- 
2.43.0


From 2e85f6e0f91d5368204737bcca6cc7c1c760be68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:52 +0000
Subject: [PATCH 247/294] fix: a NURBSpline kept the caller's knots and control
 points, and the interval of its old knots

---
 mmcore/geom/curves/_nurbs.pyx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 3724284..50265bb 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -487,7 +487,7 @@ cdef class NURBSpline(ParametricCurve):
         if knots is None:
                 self.generate_knots()
         else:
-            self._knots=knots
+            self._knots=knots.copy()
             self.knots_update_hook()
         self._evaluate_cached = functools.lru_cache(maxsize=None)(self._evaluate)
         if  periodic:
@@ -591,7 +591,7 @@ cdef class NURBSpline(ParametricCurve):
         return np.asarray(self._knots)
     @knots.setter
     def knots(self, double[:] v):
-        self._knots=v
+        self._knots=v.copy()
         self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
@@ -781,8 +781,9 @@ cdef class NURBSpline(ParametricCurve):
 
 
     cpdef set(self, double[:,:] control_points, double[:] knots ):
-        self._control_points=control_points
-        self._knots=knots
+        self._control_points=control_points.copy()
+        self._knots=knots.copy()
+        self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
     @cython.cdivision(True)
-- 
2.43.0


From 0ac50a80b6d26c4d9bee96ffb01eeb1d96f82c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:52 +0000
Subject: [PATCH 248/294] fix: a change of a returned point changed what
 NURBSpline.evaluate returns

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 50265bb..3d71255 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -825,7 +825,7 @@ cdef class NURBSpline(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     def evaluate(self, double t):
-        return self._evaluate_cached(t)
+        return self._evaluate_cached(t).copy()
     @cython.cdivision(True)
     @cython.initializedcheck(False)
     @cython.boundscheck(False)
-- 
2.43.0


From 46fcb06d7e4c74ae0457595c5f81ff33980c537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 249/294] fix: NURBSpline.is_periodic looked at the last point
 only, make_open did not open a periodic spline

---
 mmcore/geom/curves/_nurbs.pyx | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 3d71255..51c000a 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -473,6 +473,7 @@ cdef class NURBSpline(ParametricCurve):
         return (self.__class__, (np.asarray(self._control_points),self._degree,  np.asarray(self._knots),  self._periodic))
     def __init__(self, double[:,:] control_points, int degree=3, double[:] knots=None, bint periodic=0):
         super().__init__()
+        self._evaluate_cached = functools.lru_cache(maxsize=None)(self._evaluate)
         self._degree = degree
         self._periodic = periodic
         self._control_points = np.ones((control_points.shape[0], 4))
@@ -489,7 +490,6 @@ cdef class NURBSpline(ParametricCurve):
         else:
             self._knots=knots.copy()
             self.knots_update_hook()
-        self._evaluate_cached = functools.lru_cache(maxsize=None)(self._evaluate)
         if  periodic:
             self.make_periodic()
 
@@ -504,6 +504,12 @@ cdef class NURBSpline(ParametricCurve):
 
 
         return obj
+    cpdef invalidate_cache(self):
+        """
+        Forget everything computed from the points, the weights, the knots and the degree
+        """
+        self._evaluate_cached.cache_clear()
+
     cpdef void set_degree(self, int val):
         self._degree=val
 
@@ -538,7 +544,7 @@ cdef class NURBSpline(ParametricCurve):
 
                 res = part1[j][i] == part2[j][i]
                 if not res:
-                    break
+                    return res
 
         return res
 
@@ -582,7 +588,7 @@ cdef class NURBSpline(ParametricCurve):
         else:
 
             self._control_points[:, :control_points.shape[1]] = control_points
-        self._evaluate_cached.cache_clear()
+        self.invalidate_cache()
 
 
 
@@ -593,7 +599,7 @@ cdef class NURBSpline(ParametricCurve):
     def knots(self, double[:] v):
         self._knots=v.copy()
         self.knots_update_hook()
-        self._evaluate_cached.cache_clear()
+        self.invalidate_cache()
 
     @property
     def weights(self):
@@ -601,7 +607,7 @@ cdef class NURBSpline(ParametricCurve):
     @weights.setter
     def weights(self, double[:] v):
         self._control_points[:, 3]=v
-        self._evaluate_cached.cache_clear()
+        self.invalidate_cache()
 
     @property
     def greville_abscissae(self):
@@ -672,6 +678,8 @@ cdef class NURBSpline(ParametricCurve):
         """
 
         if self.is_periodic():
+            self._periodic = True
+            self.invalidate_cache()
             return
         cdef int n = len(self.control_points)
         cdef int new_n = n + self.degree
@@ -689,7 +697,7 @@ cdef class NURBSpline(ParametricCurve):
         self.generate_knots_periodic()
 
         self._periodic=True
-        self._evaluate_cached.cache_clear()
+        self.invalidate_cache()
 
 
 
@@ -699,14 +707,14 @@ cdef class NURBSpline(ParametricCurve):
         """
         Modify the NURBS curve to make it open
         """
-        if not self.is_open():
+        if not self._periodic:
             return
         cdef int n = len(self._control_points) - self._degree  # Calculate the original number of control points
         self._control_points = self._control_points[:n, :]  # Trim the extra control points
         self.generate_knots()  # Generate an open knot vector
 
         self._periodic = False
-        self._evaluate_cached.cache_clear()
+        self.invalidate_cache()
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
@@ -784,7 +792,7 @@ cdef class NURBSpline(ParametricCurve):
         self._control_points=control_points.copy()
         self._knots=knots.copy()
         self.knots_update_hook()
-        self._evaluate_cached.cache_clear()
+        self.invalidate_cache()
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
-- 
2.43.0


From ae7a2b7aed9c1acd448694171ddd006cdcb0dbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 250/294] fix: a change of the degree of a NURBSpline left
 cached points and its interval

---
 mmcore/geom/curves/_nurbs.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 51c000a..5d448e2 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -512,6 +512,9 @@ cdef class NURBSpline(ParametricCurve):
 
     cpdef void set_degree(self, int val):
         self._degree=val
+        if self._knots.shape[0] >= 2 * (val + 1):
+            self.knots_update_hook()
+        self.invalidate_cache()
 
 
     cpdef int get_degree(self):
-- 
2.43.0


From aa1f19737f57210f28867abc846b92170da23ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 251/294] fix: copies and pickles of a periodic NURBSpline were
 open

---
 mmcore/geom/curves/_nurbs.pyx | 28 +++++++++++++++-------------
 mmcore/geom/curves/bspline.py |  8 --------
 2 files changed, 15 insertions(+), 21 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 5d448e2..b70c689 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -470,7 +470,8 @@ cdef class NURBSpline(ParametricCurve):
 
 
     def __reduce__(self):
-        return (self.__class__, (np.asarray(self._control_points),self._degree,  np.asarray(self._knots),  self._periodic))
+        # Restored as it is: the constructor would wrap the points of a periodic curve again
+        return (self.__class__, (np.asarray(self._control_points),self._degree,  np.asarray(self._knots),  False), self.__getstate__())
     def __init__(self, double[:,:] control_points, int degree=3, double[:] knots=None, bint periodic=0):
         super().__init__()
         self._evaluate_cached = functools.lru_cache(maxsize=None)(self._evaluate)
@@ -498,11 +499,10 @@ cdef class NURBSpline(ParametricCurve):
 
 
     def __deepcopy__(self, memodict={}):
-        obj=self.__class__(control_points=self.control_points.copy(), degree=self._degree, knots=np.asarray(self._knots).copy())
-
-        obj.weights=self.weights
-
-
+        cdef NURBSpline obj=self.__class__(control_points=np.array(self._control_points), degree=self._degree, knots=np.array(self._knots))
+        obj._periodic=self._periodic
+        obj._interval[0]=self._interval[0]
+        obj._interval[1]=self._interval[1]
         return obj
     cpdef invalidate_cache(self):
         """
@@ -553,12 +553,12 @@ cdef class NURBSpline(ParametricCurve):
 
     def __getstate__(self):
         state=dict()
-        state['_control_points']=np.asarray(self._control_points)
-        state['_knots'] = np.asarray(self._knots)
+        state['_control_points']=np.array(self._control_points)
+        state['_knots'] = np.array(self._knots)
         state['_degree'] = self._degree
         state['_periodic']=self._periodic
-        state['_interval']=np.asarray(self._interval)
-        state['_weights'] = np.asarray(self.weights)
+        state['_interval']=np.array(self._interval)
+        state['_weights'] = np.array(self.weights)
         return state
 
     def __setstate__(self,state):
@@ -570,11 +570,13 @@ cdef class NURBSpline(ParametricCurve):
             self._control_points[i, 2] = state['_control_points'][i][2]
             self._control_points[i, 3] = state['_weights'][i]
 
-        self._knots = state['_knots']
         self._degree = state['_degree']
+        self._knots = np.array(state['_knots'], dtype=float)
+        self.knots_update_hook()
         self._periodic = state['_periodic']
-        self.weights = state['_control_points'][:,3]
-        self._interval = state['_interval']
+        self._interval[0] = state['_interval'][0]
+        self._interval[1] = state['_interval'][1]
+        self.invalidate_cache()
 
 
     @property
diff --git a/mmcore/geom/curves/bspline.py b/mmcore/geom/curves/bspline.py
index f2c47f3..1b9a456 100644
--- a/mmcore/geom/curves/bspline.py
+++ b/mmcore/geom/curves/bspline.py
@@ -261,14 +261,6 @@ class NURBSpline(CNURBSpline, Curve):
     def evaluate(self, t):
         return CNURBSpline.evaluate(self, t)
 
-    def __setstate__(self, state):
-        self.control_points = state['_control_points']
-        self._knots = state['_knots']
-        self._degree = state['_degree']
-        self._periodic = state['_periodic']
-        self.weights = state['_control_points'][:, 3]
-        self._interval = state['_interval']
-
     #def _evaluate(self, t: float):
     #    return evaluate_nurbs(t, self._control_points, self._spline.knots, self.weights, self._spline.degree).base
     #
-- 
2.43.0


From d369962c9a58afa51ca88a535ab7c6a9eaa81a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 252/294] fix: lengths and the tree of a NURBSpline stayed
 those of its former points

---
 mmcore/geom/curves/bspline.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/bspline.py b/mmcore/geom/curves/bspline.py
index 1b9a456..4c9c7d1 100644
--- a/mmcore/geom/curves/bspline.py
+++ b/mmcore/geom/curves/bspline.py
@@ -90,6 +90,7 @@ class NURBSpline(CNURBSpline, Curve):
     """
 
     def __init__(self, control_points, degree=3, knots=None, periodic=False):
+        self._evaluate_length_cached = lru_cache(maxsize=None)(self._evaluate_length)
         if knots is not None:
             knots = knots if isinstance(knots, np.ndarray) else np.array(knots, dtype=float)
         cpts = control_points if isinstance(control_points, np.ndarray) else np.array(control_points, dtype=float)
@@ -104,7 +105,11 @@ class NURBSpline(CNURBSpline, Curve):
         else:
             CNURBSpline.__init__(self, cpts, degree, knots, periodic)
 
-        self._evaluate_length_cached = lru_cache(maxsize=None)(self._evaluate_length)
+    def invalidate_cache(self):
+        CNURBSpline.invalidate_cache(self)
+        self._evaluate_length_cached.cache_clear()
+        self._length_evaluator_key = None
+        self._tree = None
 
     #def __init__(self, control_points, weights=None, degree=3, knots=None):
     #    self._cached_eval_func = lru_cache(maxsize=None)(self._evaluate)
-- 
2.43.0


From 91c4ddfb50b1635d4e992df763c1e8b27b956447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 253/294] fix: NURBSpline refused points, knots and parameters
 of integers

---
 mmcore/geom/curves/bspline.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/curves/bspline.py b/mmcore/geom/curves/bspline.py
index 4c9c7d1..e4284fa 100644
--- a/mmcore/geom/curves/bspline.py
+++ b/mmcore/geom/curves/bspline.py
@@ -92,8 +92,8 @@ class NURBSpline(CNURBSpline, Curve):
     def __init__(self, control_points, degree=3, knots=None, periodic=False):
         self._evaluate_length_cached = lru_cache(maxsize=None)(self._evaluate_length)
         if knots is not None:
-            knots = knots if isinstance(knots, np.ndarray) else np.array(knots, dtype=float)
-        cpts = control_points if isinstance(control_points, np.ndarray) else np.array(control_points, dtype=float)
+            knots = np.asarray(knots, dtype=float)
+        cpts = np.asarray(control_points, dtype=float)
         if not cpts.shape[1] == 4:
 
             _cpts = np.ones((cpts.shape[0], 4), dtype=float)
@@ -313,7 +313,7 @@ class NURBSpline(CNURBSpline, Curve):
         if isinstance(t, (float, int)):
             return self.evaluate(t)
         else:
-            t = np.array(t)
+            t = np.array(t, dtype=float)
             if t.ndim == 1:
                 return np.array(self.evaluate_multi(t))
             else:
-- 
2.43.0


From f48e7c9b1ed4c6ae261437b21068bc52feca255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 254/294] fix: planar points of a NURBSpline were lifted to z =
 1

---
 mmcore/geom/curves/_nurbs.pyx | 4 +++-
 mmcore/geom/curves/bspline.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index b70c689..c0c2267 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -587,7 +587,9 @@ cdef class NURBSpline(ParametricCurve):
         return np.asarray(self._control_points[:,:-1])
     @control_points.setter
     def control_points(self, control_points):
-        self._control_points = np.ones((control_points.shape[0],4))
+        control_points = np.asarray(control_points, dtype=np.float64)
+        self._control_points = np.zeros((control_points.shape[0],4))
+        self._control_points[:, 3] = 1.
         if control_points.shape[1]==4:
             self._control_points[:]=control_points
         else:
diff --git a/mmcore/geom/curves/bspline.py b/mmcore/geom/curves/bspline.py
index e4284fa..3bbb84f 100644
--- a/mmcore/geom/curves/bspline.py
+++ b/mmcore/geom/curves/bspline.py
@@ -96,7 +96,7 @@ class NURBSpline(CNURBSpline, Curve):
         cpts = np.asarray(control_points, dtype=float)
         if not cpts.shape[1] == 4:
 
-            _cpts = np.ones((cpts.shape[0], 4), dtype=float)
+            _cpts = np.zeros((cpts.shape[0], 4), dtype=float)
             _cpts[:, :cpts.shape[1]] = cpts
             _cpts[:, 3] = 1.
             CNURBSpline.__init__(self, _cpts, degree, knots, periodic)
-- 
2.43.0


From f86c255e8d5a22dd3c0c91e48bcd6ff9d50ee219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 255/294] fix: NURBSpline.create_circle was centred at minus
 its origin

---
 mmcore/geom/curves/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/bspline.py b/mmcore/geom/curves/bspline.py
index 3bbb84f..69105c4 100644
--- a/mmcore/geom/curves/bspline.py
+++ b/mmcore/geom/curves/bspline.py
@@ -338,7 +338,7 @@ class NURBSpline(CNURBSpline, Curve):
                            [0., -radius, 0., 1.],
                            [radius, -radius, 0., w],
                            [radius, 0., 0., 1.]], dtype=float)
-        points[:, :-1] = np.array(evaluate_plane_arr(plane, points[:, :-1] - origin))
+        points[:, :-1] = np.array(evaluate_plane_arr(plane, points[:, :-1] + origin))
 
         knots = np.array([0, math.pi / 2, math.pi, 3 * math.pi / 2, 2 * math.pi], dtype=float)
         mults = np.array([3, 2, 2, 2, 3], dtype=int)
-- 
2.43.0


From e0a3dbb5c06a0ca3cbf57fb62fb4b522a5978e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 256/294] fix: a split of a rational NURBSpline dropped its
 weights

---
 mmcore/geom/curves/knot.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index 5658477..56303ff 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -692,6 +692,11 @@ def nurbs_split(self, t: float) -> tuple:
     # Create backups of the original curve
     temp_obj = copy.deepcopy(self)
 
+    # The points of a rational curve are split in homogeneous coordinates
+    cptsw = np.array(temp_obj._control_points)
+    cptsw[:, :3] *= cptsw[:, 3:]
+    temp_obj.set(cptsw, np.array(temp_obj.knots))
+
     # Insert knot
     insert_knot_func(temp_obj, t, num=r)
 
@@ -706,7 +711,9 @@ def nurbs_split(self, t: float) -> tuple:
         curve2_kv.insert(0, t)
 
     # Control points (use Pw if rational)
-    cpts = temp_obj.control_points.tolist()
+    cptsw = np.array(temp_obj._control_points)
+    cptsw[:, :3] /= cptsw[:, 3:]
+    cpts = cptsw.tolist()
     curve1_ctrlpts = cpts[0: ks + r]
     curve2_ctrlpts = cpts[ks + r - 1:]
 
-- 
2.43.0


From 0377bde9b72a5f02cf3d577ecf22729b54f569d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:13 +0000
Subject: [PATCH 257/294] fix: calc_basis_functions took its left differences
 by the degree

---
 mmcore/geom/curves/bspline_utils.py | 2 +-
 mmcore/geom/curves/curve_utils.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/bspline_utils.py b/mmcore/geom/curves/bspline_utils.py
index bc1764b..00f87fa 100644
--- a/mmcore/geom/curves/bspline_utils.py
+++ b/mmcore/geom/curves/bspline_utils.py
@@ -52,7 +52,7 @@ def calc_basis_functions(span, u, p, U):
         saved = 0
         for r in range(j):
             rv = right[r + 1]
-            lv = left[p - r]
+            lv = left[j - r]
             temp = N[r] / (rv + lv)
             N[r] = saved + rv * temp
             saved = lv * temp
diff --git a/mmcore/geom/curves/curve_utils.py b/mmcore/geom/curves/curve_utils.py
index ea45390..0c91581 100644
--- a/mmcore/geom/curves/curve_utils.py
+++ b/mmcore/geom/curves/curve_utils.py
@@ -47,7 +47,7 @@ def calc_basis_functions(span, u, p, U):
         saved = 0
         for r in range(j):
             rv = right[r + 1]
-            lv = left[p - r]
+            lv = left[j - r]
             temp = N[r] / (rv + lv)
             N[r] = saved + rv * temp
             saved = lv * temp
-- 
2.43.0


From 1e1de86e1275dea86bb35bf0a3e87a35d6458cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:13 +0000
Subject: [PATCH 258/294] fix: calcSurfacePoint and calc_surface_point summed
 into integers

---
 mmcore/geom/curves/bspline_utils.py | 6 +++---
 mmcore/geom/curves/curve_utils.py   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mmcore/geom/curves/bspline_utils.py b/mmcore/geom/curves/bspline_utils.py
index 00f87fa..34cb809 100644
--- a/mmcore/geom/curves/bspline_utils.py
+++ b/mmcore/geom/curves/bspline_utils.py
@@ -100,14 +100,14 @@ def calcSurfacePoint(p, q, U, V, P, u, v):
     vspan = find_span(q, v, V)
     Nu = calc_basis_functions(uspan, u, p, U)
     Nv = calc_basis_functions(vspan, v, q, V)
-    temp = [np.array([0, 0, 0, 0]) for _ in range(q + 1)]
+    temp = [np.zeros(4) for _ in range(q + 1)]
     for l in range(q + 1):
         for k in range(p + 1):
             point = P[uspan - p + k][vspan - q + l].copy()
             w = point[3]
             point[:3] *= w
             temp[l] += point * Nu[k]
-    Sw = np.array([0, 0, 0, 0])
+    Sw = np.zeros(4)
     for l in range(q + 1):
         Sw += temp[l] * Nv[l]
     Sw /= Sw[3]
@@ -210,7 +210,7 @@ def calc_surface_point(p, q, U, V, P, u, v):
             point += point_w * Nu[k]
         temp.append(point)
 
-    Sw = np.array([0, 0, 0, 0])
+    Sw = np.zeros(4)
     for l in range(q + 1):
         Sw += temp[l] * Nv[l]
     Sw = Sw / Sw[3]
diff --git a/mmcore/geom/curves/curve_utils.py b/mmcore/geom/curves/curve_utils.py
index 0c91581..10101e5 100644
--- a/mmcore/geom/curves/curve_utils.py
+++ b/mmcore/geom/curves/curve_utils.py
@@ -95,14 +95,14 @@ def calcSurfacePoint(p, q, U, V, P, u, v):
     vspan = find_span(q, v, V)
     Nu = calc_basis_functions(uspan, u, p, U)
     Nv = calc_basis_functions(vspan, v, q, V)
-    temp = [np.array([0, 0, 0, 0]) for _ in range(q + 1)]
+    temp = [np.zeros(4) for _ in range(q + 1)]
     for l in range(q + 1):
         for k in range(p + 1):
             point = P[uspan - p + k][vspan - q + l].copy()
             w = point[3]
             point[:3] *= w
             temp[l] += point * Nu[k]
-    Sw = np.array([0, 0, 0, 0])
+    Sw = np.zeros(4)
     for l in range(q + 1):
         Sw += temp[l] * Nv[l]
     Sw /= Sw[3]
@@ -205,7 +205,7 @@ def calc_surface_point(p, q, U, V, P, u, v):
             point += point_w * Nu[k]
         temp.append(point)
 
-    Sw = np.array([0, 0, 0, 0])
+    Sw = np.zeros(4)
     for l in range(q + 1):
         Sw += temp[l] * Nv[l]
     Sw = Sw / Sw[3]
-- 
2.43.0


From eece0f51cb0f10ce5e193a4394606cce2e169201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:13 +0000
Subject: [PATCH 259/294] fix: calc_bspline_derivatives appended a zero
 derivative of a higher order

---
 mmcore/geom/curves/bspline_utils.py | 2 +-
 mmcore/geom/curves/curve_utils.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/bspline_utils.py b/mmcore/geom/curves/bspline_utils.py
index 34cb809..8996dca 100644
--- a/mmcore/geom/curves/bspline_utils.py
+++ b/mmcore/geom/curves/bspline_utils.py
@@ -184,7 +184,7 @@ def calc_bspline_derivatives(p, U, P, u, nd):
             tmp += Pw[int(span - int(p) + int(j))] * nders[k][j]
         CK.append(tmp)
 
-    for k in range(du + 1, nd + 2):
+    for k in range(du + 1, nd + 1):
         CK.append(np.array([0, 0, 0, 0]))
 
     return CK
diff --git a/mmcore/geom/curves/curve_utils.py b/mmcore/geom/curves/curve_utils.py
index 10101e5..faaba5a 100644
--- a/mmcore/geom/curves/curve_utils.py
+++ b/mmcore/geom/curves/curve_utils.py
@@ -179,7 +179,7 @@ def calc_bspline_derivatives(p, U, P, u, nd):
             tmp += Pw[int(span - int(p) + int(j))] * nders[k][j]
         CK.append(tmp)
 
-    for k in range(du + 1, nd + 2):
+    for k in range(du + 1, nd + 1):
         CK.append(np.array([0, 0, 0, 0]))
 
     return CK
-- 
2.43.0


From 2d415f5f1204f737ce65a0c0c074b6628ac11026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:13 +0000
Subject: [PATCH 260/294] fix: deboor counted both spans at an inner knot

---
 mmcore/geom/curves/deboor.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/deboor.pyx b/mmcore/geom/curves/deboor.pyx
index 24459f6..f83490a 100644
--- a/mmcore/geom/curves/deboor.pyx
+++ b/mmcore/geom/curves/deboor.pyx
@@ -14,7 +14,10 @@ cdef double cdeboor(double[:] knots, double t, int i, int k) noexcept nogil:
     cdef double c1,c2;
 
     if k == 0:
-        return 1.0 if knots[i] <= t <= knots[i + 1] else 0.0
+        # The spans are half open, only the last one contains its end
+        if knots[i] <= t < knots[i + 1]:
+            return 1.0
+        return 1.0 if knots[i] < t == knots[i + 1] == knots[knots.shape[0] - 1] else 0.0
     if knots[i + k] == knots[i]:
         c1 = 0.0
     else:
-- 
2.43.0


From 81fa9bb57a2b18eedb10c4ed6db84cc5f34086a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:13 +0000
Subject: [PATCH 261/294] fix: evaluate_nurbs_multi added up the points of its
 parameters

---
 mmcore/geom/curves/deboor.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/curves/deboor.pyx b/mmcore/geom/curves/deboor.pyx
index f83490a..8f9c627 100644
--- a/mmcore/geom/curves/deboor.pyx
+++ b/mmcore/geom/curves/deboor.pyx
@@ -58,6 +58,7 @@ cdef void cevaluate_nurbs_multi( double[:] t,double[:,:] cpts, double[:] knots,
     cdef xyz pt=xyz(0.,0.,0.);
 
     for i in range(t.shape[0]):
+        pt = xyz(0., 0., 0.)
         cevaluate_nurbs(t[i],cpts,knots,weights,degree,&pt)
         result[i][0] = pt.x
         result[i][1] = pt.y
-- 
2.43.0


From ffee142f371783f088fc44785049bed50a57f069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:13 +0000
Subject: [PATCH 262/294] fix: bspline_first.NURBSCurve.derivatives never
 returned

---
 mmcore/geom/curves/bspline_first.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/bspline_first.py b/mmcore/geom/curves/bspline_first.py
index 93ebc82..31d7f1d 100644
--- a/mmcore/geom/curves/bspline_first.py
+++ b/mmcore/geom/curves/bspline_first.py
@@ -351,9 +351,9 @@ under index 2 is the second derivative, and so on.
         """
         du=min(d, self.degree)
         CK = np.zeros((du + 1, self.control_points.shape[1]), dtype=np.float64)
-        curve_derivs_alg2(self.n, self.degree, self.knots, self._control_points, t, d,  CK)
+        CK[:] = np.array(curve_derivs_alg2(self.n, self.degree, self.knots, self._control_points, t, du))[:, :-1]
 
-        return np.array(CK)
+        return CK
 
 
 if __name__ == '__main__':
-- 
2.43.0


From a78a39b45a012cd8040e3c2439c19f5b346ad93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:13 +0000
Subject: [PATCH 263/294] fix: the interval of bspline_first.NURBSCurve was
 wrong unless its knots were clamped and started at 0

---
 mmcore/geom/curves/bspline_first.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/curves/bspline_first.py b/mmcore/geom/curves/bspline_first.py
index 31d7f1d..e201c18 100644
--- a/mmcore/geom/curves/bspline_first.py
+++ b/mmcore/geom/curves/bspline_first.py
@@ -17,10 +17,10 @@ def find_span(n, p, u, U):
     low = p
     high = n + 1
     mid = (low + high) // 2
-    if u > U[-1]:
+    if u > U[n + 1]:
         return n
 
-    elif u < U[0]:
+    elif u < U[p]:
         return p
     i=0
     while u < U[mid] or u >= U[mid + 1]:
@@ -298,7 +298,7 @@ class NURBSCurve(Curve):
         self.degree = degree
         self.knots = knots if knots is not None else self.generate_knots()
         self.n = len(self._control_points) - 1
-        self._interval=[0., max(self.knots)]
+        self._interval = [float(self.knots[degree]), float(self.knots[self.n + 1])]
 
     def find_span(self, t):
         return find_span(self.n, self.degree,  t, self.knots)
-- 
2.43.0


From 18af14c85374315c0e88ce97cff89e8c78f5dfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:13 +0000
Subject: [PATCH 264/294] fix: Circle covered one radian of its circle

---
 mmcore/geom/curves/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/curves/__init__.py b/mmcore/geom/curves/__init__.py
index 2ccaaac..6a66d37 100644
--- a/mmcore/geom/curves/__init__.py
+++ b/mmcore/geom/curves/__init__.py
@@ -28,6 +28,7 @@ from mmcore.geom.curves.knot import (
 class Circle(Curve):
     def __init__(self, radius, origin=np.array([0.0, 0.0, 0.0])):
         super().__init__()
+        self._interval = (0., 2 * np.pi)
         self.r = radius
         self.origin = origin
 
-- 
2.43.0


From ef4490916ac0db51088ef5a9bde93ae6d60cf49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:44 +0000
Subject: [PATCH 265/294] fix: new control points of a NURBSpline were refused

---
 mmcore/geom/curves/_nurbs.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index c0c2267..97297e4 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -587,14 +587,14 @@ cdef class NURBSpline(ParametricCurve):
         return np.asarray(self._control_points[:,:-1])
     @control_points.setter
     def control_points(self, control_points):
-        control_points = np.asarray(control_points, dtype=np.float64)
-        self._control_points = np.zeros((control_points.shape[0],4))
+        cdef double[:,:] cpts = np.asarray(control_points, dtype=np.float64)
+        self._control_points = np.zeros((cpts.shape[0],4))
         self._control_points[:, 3] = 1.
-        if control_points.shape[1]==4:
-            self._control_points[:]=control_points
+        if cpts.shape[1]==4:
+            self._control_points[:]=cpts
         else:
 
-            self._control_points[:, :control_points.shape[1]] = control_points
+            self._control_points[:, :cpts.shape[1]] = cpts
         self.invalidate_cache()
 
 
-- 
2.43.0


From e62ed10babbfc50c5bafbe598323749534653587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:22 +0000
Subject: [PATCH 266/294] fix: calcNURBSDerivatives failed beyond the degree

---
 mmcore/geom/curves/bspline_utils.py | 2 +-
 mmcore/geom/curves/curve_utils.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/bspline_utils.py b/mmcore/geom/curves/bspline_utils.py
index 8996dca..2d5b007 100644
--- a/mmcore/geom/curves/bspline_utils.py
+++ b/mmcore/geom/curves/bspline_utils.py
@@ -185,7 +185,7 @@ def calc_bspline_derivatives(p, U, P, u, nd):
         CK.append(tmp)
 
     for k in range(du + 1, nd + 1):
-        CK.append(np.array([0, 0, 0, 0]))
+        CK.append(np.zeros(4))
 
     return CK
 
diff --git a/mmcore/geom/curves/curve_utils.py b/mmcore/geom/curves/curve_utils.py
index faaba5a..5ee48f4 100644
--- a/mmcore/geom/curves/curve_utils.py
+++ b/mmcore/geom/curves/curve_utils.py
@@ -180,7 +180,7 @@ def calc_bspline_derivatives(p, U, P, u, nd):
         CK.append(tmp)
 
     for k in range(du + 1, nd + 1):
-        CK.append(np.array([0, 0, 0, 0]))
+        CK.append(np.zeros(4))
 
     return CK
 
-- 
2.43.0


From 01d4c33c60c3a5659ebfc0db7ec39121dd7940dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:45 +0000
Subject: [PATCH 267/294] fix: mmcore.api.plane could not be imported

---
 mmcore/api/plane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/api/plane.py b/mmcore/api/plane.py
index 20ffc8f..ae4c244 100644
--- a/mmcore/api/plane.py
+++ b/mmcore/api/plane.py
@@ -7,7 +7,7 @@ import numpy as np
 from mmcore.api import Surface, Point3D, Vector3D, Line3D, InfiniteLine3D, Curve3D, ObjectCollection
 from mmcore.geom.vec import unit, cross, orthonormalize
 from mmcore.numeric.plane import evaluate_plane, inverse_evaluate_plane, plane_from_3pt, plane_from_normal2
-from mmcore.numeric.intersection.ccx import curve_x_plane
+from mmcore.numeric.intersection.csx import curve_x_plane
 
 
 class Plane(Surface):
@@ -187,7 +187,7 @@ class Plane(Surface):
         require a specific method to calculate intersections.
         """
 
-        raise curve_x_plane(curve, self._array)
+        return curve_x_plane(curve, self._array)
 
     def intersect_with_surface(self, surface: Surface) -> ObjectCollection:
         """
-- 
2.43.0


From 2e180b08750684794f2a92051d19a92d4548edb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:45 +0000
Subject: [PATCH 268/294] fix: Plane.cast failed for arrays, a Plane of
 integers truncated

---
 mmcore/api/plane.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mmcore/api/plane.py b/mmcore/api/plane.py
index ae4c244..6d36469 100644
--- a/mmcore/api/plane.py
+++ b/mmcore/api/plane.py
@@ -24,9 +24,7 @@ class Plane(Surface):
         self._array = (
             np.r_[np.zeros((1, 3), dtype=float), np.eye(3, dtype=float)]
             if arr is None
-            else np.array(arr)
-            if not isinstance(arr, np.ndarray)
-            else arr
+            else np.asarray(arr, dtype=float)
         )
         self._origin = Point3D()
         self._xaxis = Vector3D()
@@ -44,8 +42,8 @@ class Plane(Surface):
     @classmethod
     def cast(cls, arg: tuple) -> Plane:
 
-        if isinstance(arg, np.ndarray) and arg.shape[0] == 4:
-            return cls.__dispatch_table__[np.ndarray](arg)
+        if len(arg) == 4:
+            return cls.create_from_array(np.array(arg, dtype=float))
         return cls.__dispatch_table__[tuple(type(a) for a in arg)].__func__(cls, *arg)
 
     @classmethod
-- 
2.43.0


From 0960f453390b11e056e8c662c86718a6f974937e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:45 +0000
Subject: [PATCH 269/294] fix: Plane.set_xy_directions left directions that
 were not unit vectors

---
 mmcore/api/plane.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/api/plane.py b/mmcore/api/plane.py
index 6d36469..4b4ee87 100644
--- a/mmcore/api/plane.py
+++ b/mmcore/api/plane.py
@@ -112,9 +112,9 @@ class Plane(Surface):
         Returns true if successful.
         """
 
-        self.xaxis._array[:] = xaxis._array
-        self._yaxis._array[:] = yaxis._array
-        self._normal._array[:] = xaxis.cross(yaxis)._array
+        self._xaxis._array[:] = unit(xaxis._array)
+        self._yaxis._array[:] = unit(yaxis._array)
+        self._normal._array[:] = cross(self._xaxis._array, self._yaxis._array)
         return True
 
     def is_parallel_plane(self, plane: Plane) -> bool:
-- 
2.43.0


From 5201c2607e5946f5be0b015d357e0ade779c21ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:45 +0000
Subject: [PATCH 270/294] fix: a new origin did not move a Plane, a new normal
 was refused

---
 mmcore/api/plane.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/mmcore/api/plane.py b/mmcore/api/plane.py
index 4b4ee87..9511d34 100644
--- a/mmcore/api/plane.py
+++ b/mmcore/api/plane.py
@@ -5,7 +5,7 @@ from typing import Union, Optional
 import numpy as np
 
 from mmcore.api import Surface, Point3D, Vector3D, Line3D, InfiniteLine3D, Curve3D, ObjectCollection
-from mmcore.geom.vec import unit, cross, orthonormalize
+from mmcore.geom.vec import unit, cross
 from mmcore.numeric.plane import evaluate_plane, inverse_evaluate_plane, plane_from_3pt, plane_from_normal2
 from mmcore.numeric.intersection.csx import curve_x_plane
 
@@ -213,7 +213,7 @@ class Plane(Surface):
 
     @origin.setter
     def origin(self, value: Point3D):
-        self._origin = value
+        self._origin._array[:] = value._array
 
     @property
     def normal(self) -> Vector3D:
@@ -225,14 +225,16 @@ class Plane(Surface):
 
     @normal.setter
     def normal(self, value: Vector3D):
-        self._normal[:] = value._array
-        (
-            self._normal._array,
-            self._xaxis._array,
-            self._yaxis._array,
-        ) = orthonormalize(
-            self._normal._array, self._xaxis._array, self._yaxis._array
-        )
+        self._normal._array[:] = unit(value._array)
+        # the axis of the plane that is further from the new normal is kept
+        x, y = (axis - self._normal._array * axis.dot(self._normal._array)
+                for axis in (self._xaxis._array, self._yaxis._array))
+        if x.dot(x) >= y.dot(y):
+            self._xaxis._array[:] = unit(x)
+            self._yaxis._array[:] = cross(self._normal._array, self._xaxis._array)
+        else:
+            self._yaxis._array[:] = unit(y)
+            self._xaxis._array[:] = cross(self._yaxis._array, self._normal._array)
 
     @property
     def xaxis(self) -> Vector3D:
-- 
2.43.0


From 5dd4ba585c73ad72e26429846b24f6ea549725b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:45 +0000
Subject: [PATCH 271/294] fix: crossing planes were called coplanar

---
 mmcore/api/plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/api/plane.py b/mmcore/api/plane.py
index 9511d34..efa52ec 100644
--- a/mmcore/api/plane.py
+++ b/mmcore/api/plane.py
@@ -138,7 +138,7 @@ class Plane(Surface):
         # here we calculate the distance from the plane to the origin point of the other plane
         # this can be done by taking the dot product of the other plane's origin
         # with this plane's normal and subtracting this plane's distance to the origin
-        return (
+        return self.is_parallel_plane(plane) and bool(
                 abs(plane._origin.dot(self._normal) - self._origin.dot(self._normal))
                 < 1e-10
         )
-- 
2.43.0


From d5c70cf36a826494bb98146b471f80fecccb0c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:45 +0000
Subject: [PATCH 272/294] fix: the intersection of planes always went through
 (0, 0, 0)

---
 mmcore/api/plane.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mmcore/api/plane.py b/mmcore/api/plane.py
index efa52ec..88492c2 100644
--- a/mmcore/api/plane.py
+++ b/mmcore/api/plane.py
@@ -148,9 +148,12 @@ class Plane(Surface):
         if not self.is_parallel_plane(plane):
             # to find the intersection line, we take the cross product of the planes' normals
             direction = self._normal.cross(plane._normal)
-            # we also need a point on the line, which can be found by solving a system of linear equations
-            # for simplicity, we will just use (0, 0, 0) as the point for this demo code
-            origin = Point3D((0, 0, 0))
+            # we also need a point on the line, which is found as the common point of both planes
+            # and of the plane through (0, 0, 0) that is perpendicular to the line
+            origin = Point3D(np.linalg.solve(
+                np.array([self._normal._array, plane._normal._array, direction._array]),
+                np.array([self._normal.dot(self._origin), plane._normal.dot(plane._origin), 0.0]),
+            ))
 
             return InfiniteLine3D(origin, direction)
         else:
-- 
2.43.0


From 0dcd31be8051257feb2a883a54d3a7faa7526f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:45 +0000
Subject: [PATCH 273/294] fix: lines could not be created or evaluated at
 several parameters

---
 mmcore/api/curves.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mmcore/api/curves.py b/mmcore/api/curves.py
index 62d9045..6a35e61 100644
--- a/mmcore/api/curves.py
+++ b/mmcore/api/curves.py
@@ -211,6 +211,9 @@ class BaseLine3D(Curve3D, metaclass=ABCMeta):
                 return [(Point3D(self(tt[0])), tt) for tt in t]
         return super().intersect_with_curve(curve)
 
+    def evaluate(self, t: float) -> ArrayLike:
+        return self.start_point._array + self.direction._array * t
+
     @abstractmethod
     def intersect_with_surface(self, surface):
         """
@@ -223,7 +226,7 @@ class BaseLine3D(Curve3D, metaclass=ABCMeta):
         pass
 
     def __call__(self, t):
-        return self.start_point._array + self.direction._array * t
+        return self.evaluate_multi(t)
 
     @property
     def origin(self) -> Point3D:
@@ -520,7 +523,7 @@ class Line3D(BaseLine3D):
         ...
 
     def __call__(self, t):
-        return self.start_point._array + self.direction._array * t
+        return self.evaluate_multi(t)
 
 
 ILine = Union[Line2D, Line3D, InfiniteLine3D]
-- 
2.43.0


From eaa720475c8641e970157d964377a959eb553865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:15 +0000
Subject: [PATCH 274/294] fix: the points a Plane gives were memory views

---
 mmcore/api/plane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/api/plane.py b/mmcore/api/plane.py
index 88492c2..79be201 100644
--- a/mmcore/api/plane.py
+++ b/mmcore/api/plane.py
@@ -160,10 +160,10 @@ class Plane(Surface):
             return None  # planes are parallel and do not intersect
 
     def evaluate(self, uvh):
-        return evaluate_plane(self._array, uvh)
+        return np.asarray(evaluate_plane(self._array, uvh))
 
     def evaluate_inverse(self, pt):
-        return inverse_evaluate_plane(self._array, pt)
+        return np.asarray(inverse_evaluate_plane(self._array, pt))
 
     def intersect_with_line(self, line: Union[InfiniteLine3D, Line3D]) -> Point3D:
         # a plane intersects a line at a point if the line is not parallel to the plane
-- 
2.43.0


From 0c4bb45d60ba14b2a965096f2ac562242ecb348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:15 +0000
Subject: [PATCH 275/294] fix: lines were intersected in the plane, and at
 parameters of the wrong sign

---
 mmcore/api/curves.py | 66 ++++++++++----------------------------------
 1 file changed, 15 insertions(+), 51 deletions(-)

diff --git a/mmcore/api/curves.py b/mmcore/api/curves.py
index 6a35e61..ed4d98e 100644
--- a/mmcore/api/curves.py
+++ b/mmcore/api/curves.py
@@ -171,30 +171,21 @@ class BaseLine3D(Curve3D, metaclass=ABCMeta):
     def intersect_with_line(
         self, line: Union[Line3D, InfiniteLine3D], rtol=1e-5, atol=1e-5
     ) -> tuple[bool, float, float]:
-        t1, t2, z = line_line_tsz(
-            (self.start_point._array, self.end_point._array),
-            (line.start_point._array, line.end_point._array),
+        success, t1, t2 = line_line_intersection(self, line)
+        if not success:
+            return False, t1, t2
+        return (
+            all(
+                [
+                    np.allclose(self.evaluate(t1), line.evaluate(t2), rtol=rtol, atol=atol),
+                    isinstance(self, InfiniteLine3D) or (0 <= t1 <= 1),
+                    isinstance(line, InfiniteLine3D) or (0 <= t2 <= 1),
+                ]
+            ),
+            t1,
+            t2,
         )
 
-        if isinstance(line, InfiniteLine3D):
-            return (
-                all([np.allclose(z, 0, rtol=rtol, atol=atol), (0 <= t1 <= 1)]),
-                t1,
-                t2,
-            )
-        else:
-            return (
-                all(
-                    [
-                        np.allclose(z, 0, rtol=rtol, atol=atol),
-                        (0 <= t1 <= 1),
-                        (0 <= t2 <= 1),
-                    ]
-                ),
-                t1,
-                t2,
-            )
-
     def intersect_with_curve(self, curve: Curve3D):
         """
         Intersect this line with a curve to get the intersection point(s).
@@ -355,11 +346,11 @@ def line_line_intersection(
         w = start1 - start2
         # Calculate parameters for point of intersection
         s1 = (
-            dot(cross(w._array, vec2._array), cross_product)
+            -dot(cross(w._array, vec2._array), cross_product)
             / np.linalg.norm(cross_product) ** 2
         )
         s2 = (
-            dot(cross(w._array, vec1._array), cross_product)
+            -dot(cross(w._array, vec1._array), cross_product)
             / np.linalg.norm(cross_product) ** 2
         )
         return True, s1, s2
@@ -423,33 +414,6 @@ class Line3D(BaseLine3D):
         """
         return self.direction.is_parallel(line.direction)
 
-    def intersect_with_line(
-        self, line: Union[Line3D, InfiniteLine3D], rtol=1e-5, atol=1e-5
-    ) -> tuple[bool, float, float]:
-        t1, t2, z = line_line_tsz(
-            (self.start_point._array, self.end_point._array),
-            (line.start_point._array, line.end_point._array),
-        )
-
-        if isinstance(line, InfiniteLine3D):
-            return (
-                all([np.allclose(z, 0, rtol=rtol, atol=atol), (0 <= t1 <= 1)]),
-                t1,
-                t2,
-            )
-        else:
-            return (
-                all(
-                    [
-                        np.allclose(z, 0, rtol=rtol, atol=atol),
-                        (0 <= t1 <= 1),
-                        (0 <= t2 <= 1),
-                    ]
-                ),
-                t1,
-                t2,
-            )
-
     def evaluate_param(self, t: float) -> Point3D:
         return self._start_point + self.direction * t
 
-- 
2.43.0


From 009f3f2b42f9e5acc3dc27f5fad896d6b15124c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:15 +0000
Subject: [PATCH 276/294] fix: intersect_with_curve failed for two lines

---
 mmcore/api/curves.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/api/curves.py b/mmcore/api/curves.py
index ed4d98e..2b8eec8 100644
--- a/mmcore/api/curves.py
+++ b/mmcore/api/curves.py
@@ -195,11 +195,11 @@ class BaseLine3D(Curve3D, metaclass=ABCMeta):
         Returns a collection of the intersection points
         """
         if isinstance(curve, Line3D):
-            success, t = self.intersect_with_line(curve)
+            success, *t = self.intersect_with_line(curve)
             if not success:
                 return []
             else:
-                return [(Point3D(self(tt[0])), tt) for tt in t]
+                return [(Point3D(self(t[0])), t)]
         return super().intersect_with_curve(curve)
 
     def evaluate(self, t: float) -> ArrayLike:
-- 
2.43.0


From 143878be47a8acdbd0357c6235cb20c978fc2404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:31 +0000
Subject: [PATCH 277/294] fix: is_colinear was false for infinite lines and
 true for parallel lines

---
 mmcore/api/curves.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mmcore/api/curves.py b/mmcore/api/curves.py
index 2b8eec8..b0b03ea 100644
--- a/mmcore/api/curves.py
+++ b/mmcore/api/curves.py
@@ -165,8 +165,11 @@ class BaseLine3D(Curve3D, metaclass=ABCMeta):
         line : The line to compare with for collinearity.
         Returns true if the two lines are collinear.
         """
-
-        return bool()
+        offset = line.origin - self.origin
+        return bool(
+            self.direction.is_parallel(line.direction)
+            and (np.allclose(offset._array, 0) or self.direction.is_parallel(offset))
+        )
 
     def intersect_with_line(
         self, line: Union[Line3D, InfiniteLine3D], rtol=1e-5, atol=1e-5
@@ -412,7 +415,7 @@ class Line3D(BaseLine3D):
         line : The line to compare with for collinearity
         Returns true if the two lines are collinear
         """
-        return self.direction.is_parallel(line.direction)
+        return super().is_colinear(line)
 
     def evaluate_param(self, t: float) -> Point3D:
         return self._start_point + self.direction * t
-- 
2.43.0


From 4063299cf667e4d74e78c3395d2646ea74fc350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:31 +0000
Subject: [PATCH 278/294] fix: the origin of a Line3D stayed its first start
 point

---
 mmcore/api/curves.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mmcore/api/curves.py b/mmcore/api/curves.py
index b0b03ea..c72f4cc 100644
--- a/mmcore/api/curves.py
+++ b/mmcore/api/curves.py
@@ -378,6 +378,20 @@ class Line3D(BaseLine3D):
         self._start_point = start_point
         self._end_point = end_point
 
+    @property
+    def origin(self) -> Point3D:
+        """
+        Gets and sets the start point of the line.
+        """
+        return self._start_point
+
+    @origin.setter
+    def origin(self, value: Point3D):
+        """
+        Gets and sets the start point of the line.
+        """
+        self._start_point = value
+
     @classmethod
     def create(cls, start_point: Point3D, end_point: Point3D) -> Line3D:
         """
@@ -453,6 +467,7 @@ class Line3D(BaseLine3D):
         """
         self._start_point = start_point
         self._end_point = end_point
+        return True
 
     @property
     def start_point(self) -> Point3D:
-- 
2.43.0


From a3de7a051f4e278c2f833995fd6c1ef45f44ec24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:31 +0000
Subject: [PATCH 279/294] fix: default infinite lines shared their origin and
 direction, evaluate_params failed

---
 mmcore/api/curves.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mmcore/api/curves.py b/mmcore/api/curves.py
index c72f4cc..c80252c 100644
--- a/mmcore/api/curves.py
+++ b/mmcore/api/curves.py
@@ -258,11 +258,11 @@ class InfiniteLine3D(BaseLine3D):
 
     def __init__(
         self,
-        origin: Point3D = Point3D((0, 0, 0)),
-        direction: Vector3D = Vector3D((1, 0, 0)),
+        origin: Point3D = None,
+        direction: Vector3D = None,
     ):
-        super().__init__(origin)
-        self._direction = direction
+        super().__init__(origin if origin is not None else Point3D((0, 0, 0)))
+        self._direction = direction if direction is not None else Vector3D((1, 0, 0))
 
     @classmethod
     def create(cls, origin: Point3D, direction: Vector3D) -> InfiniteLine3D:
@@ -418,7 +418,7 @@ class Line3D(BaseLine3D):
         Creates an equivalent InfiniteLine3D.
         Returns an equivalent InfiniteLine3D
         """
-        return InfiniteLine3D(self._start_point, self.direction)
+        return InfiniteLine3D(self._start_point.copy(), self.direction)
 
     def as_line_2d(self):
         return Line2D(self._start_point, self.direction)
@@ -434,7 +434,8 @@ class Line3D(BaseLine3D):
     def evaluate_param(self, t: float) -> Point3D:
         return self._start_point + self.direction * t
 
-    evaluate_params = np.vectorize(evaluate_param, excluded=[0], signature="()->()")
+    def evaluate_params(self, t) -> list[Point3D]:
+        return [self.evaluate_param(i) for i in t]
 
     def intersect_with_surface(self, surface: Surface) -> list[Point3D]:
         """
-- 
2.43.0


From 3d43450ac016b7732d89e7f952f958740231b782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:31 +0000
Subject: [PATCH 280/294] fix: Circle2D was drawn around (0, 0) over one radian

---
 mmcore/api/curves.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mmcore/api/curves.py b/mmcore/api/curves.py
index c80252c..b4f1407 100644
--- a/mmcore/api/curves.py
+++ b/mmcore/api/curves.py
@@ -628,13 +628,16 @@ class Circle2D(Curve2D):
     def evaluate(self, t):
         return np.array(
             [
-                self.radius * np.cos(t),
-                self.radius * np.sin(t),
+                self.center.x + self.radius * np.cos(t),
+                self.center.y + self.radius * np.sin(t),
                 0.0,
             ],
             dtype=float,
         )
 
+    def interval(self) -> tuple[float, float]:
+        return 0.0, 2 * np.pi
+
     @classmethod
     def cast(cls, arg) -> Circle2D:
         return Circle2D(Point2D(np.array(arg[:2])), arg[2])
-- 
2.43.0


From f5bdbfcf33236e3d846b150a8601a9b5d6a6f545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:29 +0000
Subject: [PATCH 281/294] fix: a circle through three points failed, a circle
 on a plane lost its center

---
 mmcore/api/curves.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mmcore/api/curves.py b/mmcore/api/curves.py
index b4f1407..3415d58 100644
--- a/mmcore/api/curves.py
+++ b/mmcore/api/curves.py
@@ -606,7 +606,7 @@ def circle2d_from_3pt(x1, y1, x2, y2, x3, y3):
     return x, y, fabs(radius)
 
 
-from ..numeric.plane import plane_from_3pt
+from ..numeric.plane import plane_from_3pt, plane_from_normal2, inverse_evaluate_plane
 
 
 class Circle2D(Curve2D):
@@ -737,10 +737,11 @@ class Circle2D(Curve2D):
         raise NotImplementedError
 
     def on_plane(self, pln: ArrayLike = None) -> "Circle3D":
-        c = Circle3D(Point3D.cast(self.center), self.radius)
-        if pln is not None:
-            c._plane[:] = pln
-        return c
+        if pln is None:
+            return Circle3D(Point3D((self.center.x, self.center.y, 0.0)), self.radius)
+        pln = np.array(pln, dtype=float)
+        pln[0] += self.center.x * pln[1] + self.center.y * pln[2]
+        return Circle3D(radius=self.radius, plane=pln)
 
 
 class Circle3D(Curve3D):
@@ -803,10 +804,10 @@ class Circle3D(Curve3D):
         Returns the new Circle3D object or null if the creation failed.
         """
 
-        pln = plane_from_3pt(*np.array([pointOne, pointTwo, pointThree]))
-
+        points = [pt._array for pt in (pointOne, pointTwo, pointThree)]
+        pln, _equation = plane_from_3pt(*points)
         return Circle2D.create_by_three_points(
-            Point2D.cast(pointOne), Point2D.cast(pointTwo), Point2D.cast(pointThree)
+            *(Point2D(np.asarray(inverse_evaluate_plane(pln, pt))[:2]) for pt in points)
         ).on_plane(pln)
 
     def copy(self) -> Circle3D:
-- 
2.43.0


From 2de869b6b7330cec4697946c66c6ce4eb668d3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:29 +0000
Subject: [PATCH 282/294] fix: Circle3D.create_by_center gave the unit circle,
 a new normal did not turn a circle

---
 mmcore/api/curves.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/api/curves.py b/mmcore/api/curves.py
index 3415d58..16a7a75 100644
--- a/mmcore/api/curves.py
+++ b/mmcore/api/curves.py
@@ -787,7 +787,7 @@ class Circle3D(Curve3D):
         Returns the new Circle3D object or null if the creation failed.
         """
 
-        return Circle3D()
+        return Circle3D(radius=radius, plane=plane_from_normal2(center._array, normal._array))
 
     @classmethod
     def create_by_three_points(
@@ -872,7 +872,7 @@ class Circle3D(Curve3D):
         """
         Gets and sets the normal of the circle.
         """
-        self._plane[-1] = value._array
+        self._plane[1:] = plane_from_normal2(self._plane[0], value._array)[1:]
 
     @property
     def radius(self) -> float:
-- 
2.43.0


From 04a3ba6bd61589f63dd60f4f7e5b0aaa20634593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:29 +0000
Subject: [PATCH 283/294] fix: circles shared the point they were made from,
 the center of a copied circle did not move it

---
 mmcore/api/curves.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mmcore/api/curves.py b/mmcore/api/curves.py
index 16a7a75..2093c1d 100644
--- a/mmcore/api/curves.py
+++ b/mmcore/api/curves.py
@@ -755,14 +755,15 @@ class Circle3D(Curve3D):
         self, center: Point3D = None, radius: float = 1.0, plane: np.ndarray = None
     ):
         super().__init__()
-        self._center = center if center is not None else Point3D()
         self._radius = radius
-        arr = self._center._array
+        arr = center._array if center is not None else np.zeros(3)
         self._plane = (
             np.array([arr, [1.0, 0, 0], [0.0, 1, 0], [0.0, 0, 1]])
             if plane is None
-            else np.array(plane)
+            else np.array(plane, dtype=float)
         )
+        # a point of its own: the point it was made from stays as it is
+        self._center = Point3D()
 
         self._center._array = self._plane[0]
 
@@ -815,9 +816,7 @@ class Circle3D(Curve3D):
         Creates and returns an independent copy of this Circle3D object.
         Returns an independent copy of this Circle3D object.
         """
-        c = Circle3D(center=self._center.copy(), radius=self._radius)
-        c._plane = np.copy(self._plane)
-        return c
+        return Circle3D(radius=self._radius, plane=self._plane)
 
     def get_data(self) -> tuple[bool, Point3D, Vector3D, float]:
         """
@@ -857,8 +856,6 @@ class Circle3D(Curve3D):
         """
 
         self._plane[0] = value._array
-        value._array = self._plane[0]
-        self._center = value
 
     @property
     def normal(self) -> Vector3D:
-- 
2.43.0


From 4757a71a5ddbf95bd536d8f6b569c63a32e81711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:29 +0000
Subject: [PATCH 284/294] fix: the axes of an Arc3D could not be set, were not
 unit vectors, and were returned in the wrong order

---
 mmcore/api/curves.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/mmcore/api/curves.py b/mmcore/api/curves.py
index 2093c1d..d249743 100644
--- a/mmcore/api/curves.py
+++ b/mmcore/api/curves.py
@@ -1135,15 +1135,14 @@ class Arc3D(Circle3D):
         This angle is measured from the reference vector using the right hand rule around the normal vector.
         Returns the newly created arc or null if the creation failed.
         """
-        yaxis = normal.cross(referenceVector)
-
+        zaxis, xaxis = unit(normal._array), unit(referenceVector._array)
         return Arc3D(
             center,
             radius,
             start_angle,
             end_angle,
             plane=np.array(
-                [center._array, referenceVector._array, yaxis._array, normal._array]
+                [center._array, xaxis, cross(zaxis, xaxis), zaxis]
             ),
         )
 
@@ -1186,8 +1185,9 @@ class Arc3D(Circle3D):
         The reference vector must be perpendicular to the normal vector.
         Returns true if successful
         """
-        self._normal._array[:] = normal.as_array()
-        self._reference_vector[:] = referenceVector.as_array()
+        self._normal._array[:] = unit(normal.as_array())
+        self._reference_vector._array[:] = unit(referenceVector.as_array())
+        self._plane[2] = cross(self._plane[3], self._plane[1])
         return True
 
     def copy(self) -> Arc3D:
@@ -1219,8 +1219,8 @@ class Arc3D(Circle3D):
         return (
             True,
             self.center,
-            self.referenceVector,
             self.normal,
+            self.referenceVector,
             self.radius,
             self.start_angle,
             self.end_angle,
@@ -1250,12 +1250,11 @@ class Arc3D(Circle3D):
         Returns true if successful
         """
         self._center._array[:] = center.as_array()
-        self._normal._array[:] = normal.as_array()
-        self._reference_vector._array[:] = referenceVector.as_array()
+        self.set_axes(normal, referenceVector)
         self.radius = radius
         self.start_angle = start_angle
         self.end_angle = end_angle
-        return bool()
+        return True
 
     @property
     def normal(self) -> Vector3D:
-- 
2.43.0


From 3b3601f8a65309810ebe2ca868669d156cc65b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:29 +0000
Subject: [PATCH 285/294] fix: an arc through three points failed

---
 mmcore/api/curves.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mmcore/api/curves.py b/mmcore/api/curves.py
index d249743..c4133c0 100644
--- a/mmcore/api/curves.py
+++ b/mmcore/api/curves.py
@@ -1165,16 +1165,18 @@ class Arc3D(Circle3D):
 
         res = super().create_by_three_points(pointOne, pointTwo, pointThree)
 
+        # the angles are measured from the start point, around the normal by which the second point comes
+        # before the third one
+        pln = res._plane
+        pln[1] = unit(pointOne._array - pln[0])
+        pln[2] = cross(pln[3], pln[1])
+        end = pointThree._array - pln[0]
         return Arc3D(
             res.center,
             res.radius,
-            *sorted(
-                (
-                    pointTwo.angle_to(Vector3D(res._plane[1])),
-                    pointThree.angle_to(Vector3D(res._plane[1])),
-                )
-            ),
-            plane=res._plane,
+            0.0,
+            float(np.arctan2(end.dot(pln[2]), end.dot(pln[1])) % (2 * np.pi)),
+            plane=pln,
         )
 
     def set_axes(self, normal: Vector3D, referenceVector: Vector3D) -> bool:
-- 
2.43.0


From ab61aaf3628bc62c232fd40f5dcfb0d3a4aabd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:29 +0000
Subject: [PATCH 286/294] fix: Circle3D.set reported a failure

---
 mmcore/api/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/api/curves.py b/mmcore/api/curves.py
index c4133c0..24407ed 100644
--- a/mmcore/api/curves.py
+++ b/mmcore/api/curves.py
@@ -840,7 +840,7 @@ class Circle3D(Curve3D):
         self.center = center
         self.normal = normal
         self.radius = radius
-        return bool()
+        return True
 
     @property
     def center(self) -> Point3D:
-- 
2.43.0


From 769676a662621495261601104d02aff2b3e9e311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:29 +0000
Subject: [PATCH 287/294] fix: the second derivatives of curve evaluators
 failed

---
 mmcore/api/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/api/base.py b/mmcore/api/base.py
index 3685cbe..8bee7da 100644
--- a/mmcore/api/base.py
+++ b/mmcore/api/base.py
@@ -445,7 +445,7 @@ class CurveEvaluator3D(Base):
         super().__init__()
         self._curve = curve
         self._get_first_derivative = FDM(self._curve)
-        self._get_second_derivative = FDM(self.get_first_derivative)
+        self._get_second_derivative = FDM(self._get_first_derivative)
         self._get_third_derivative = FDM(self._get_second_derivative)
 
     def get_curvatures(
-- 
2.43.0


From 1c4adf82f775c38fea1f86770892c5751e9132af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:55 +0000
Subject: [PATCH 288/294] fix: the curvatures of curve evaluators failed

---
 mmcore/api/base.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mmcore/api/base.py b/mmcore/api/base.py
index 8bee7da..9223515 100644
--- a/mmcore/api/base.py
+++ b/mmcore/api/base.py
@@ -456,8 +456,9 @@ class CurveEvaluator3D(Base):
         :return: A tuple consisting of a boolean value indicating the success of the method, a list of Vector3D objects representing the curvatures, and a numpy ndarray of float values representing
         * the radius of the curvatures.
         """
-        sucess1, D1 = self._get_first_derivative(parameters)
-        sucess2, D2 = self._get_second_derivative(parameters)
+        parameters = np.asarray(parameters, dtype=float)
+        D1 = self._get_first_derivative(parameters)
+        D2 = self._get_second_derivative(parameters)
         T, K, success = evaluate_curvature_vec(D1, D2)
         return np.all(success), [Vector3D(k) for k in K], norm(K)
 
@@ -469,8 +470,8 @@ class CurveEvaluator3D(Base):
             - A Vector3D representing the curvature at the given parameter
             - A float representing the radius of curvature
         """
-        sucess1, D1 = self._get_first_derivative(parameter)
-        sucess2, D2 = self._get_second_derivative(parameter)
+        D1 = self._get_first_derivative(parameter)
+        D2 = self._get_second_derivative(parameter)
         T, K, sucess = evaluate_curvature(D1, D2)
         kv = Vector3D(K)
 
@@ -715,8 +716,9 @@ class CurveEvaluator2D(Base):
         The length of this array will be the same as the length of the parameters array provided.
         Returns true if the curvatures were successfully returned.
         """
-        sucess1, D1 = self._get_first_derivative(parameters)
-        sucess2, D2 = self._get_second_derivative(parameters)
+        parameters = np.asarray(parameters, dtype=float)
+        D1 = self._get_first_derivative(parameters)
+        D2 = self._get_second_derivative(parameters)
         T, K, success = evaluate_curvature_vec(D1, D2)
         return np.all(success), [Vector2D(k) for k in K], norm(K)
 
@@ -729,8 +731,8 @@ class CurveEvaluator2D(Base):
         curvature : The output magnitude of the curvature at the position on the curve.
         Returns true if the curvature was successfully returned.
         """
-        sucess1, D1 = self._get_first_derivative(parameter)
-        sucess2, D2 = self._get_second_derivative(parameter)
+        D1 = self._get_first_derivative(parameter)
+        D2 = self._get_second_derivative(parameter)
         T, K, sucess = evaluate_curvature(D1, D2)
         kv = Vector2D(K)
 
-- 
2.43.0


From b4ad60b06c168d807c1d31281fa1860c3ec1a9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:55 +0000
Subject: [PATCH 289/294] fix: curve evaluators refused lists of parameters

---
 mmcore/api/base.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mmcore/api/base.py b/mmcore/api/base.py
index 9223515..e128d3e 100644
--- a/mmcore/api/base.py
+++ b/mmcore/api/base.py
@@ -590,7 +590,7 @@ class CurveEvaluator3D(Base):
         :param parameters: The list of float values representing the parameters for which first derivatives need to be computed.
         :return: A tuple containing a boolean value indicating if the computation was successful and a list of Vector3D objects representing the first derivatives for each parameter.
         """
-        return True, [Vector3D(p) for p in self._get_first_derivative(parameters)]
+        return True, [Vector3D(p) for p in self._get_first_derivative(np.asarray(parameters, dtype=float))]
 
     def get_first_derivative(self, parameter: float) -> tuple[bool, Vector3D]:
         """
@@ -611,7 +611,7 @@ class CurveEvaluator3D(Base):
         :return: A tuple containing a bool value indicating success and a list of Vector3D objects representing the second derivatives.
         """
 
-        return True, [Vector3D(p) for p in self._get_second_derivative(parameters)]
+        return True, [Vector3D(p) for p in self._get_second_derivative(np.asarray(parameters, dtype=float))]
 
     def get_second_derivative(self, parameter: float) -> tuple[bool, Vector3D]:
         """
@@ -628,7 +628,7 @@ class CurveEvaluator3D(Base):
         :param parameters: The list of float values representing the parameters for computing the third derivatives.
         :return: A tuple containing a boolean value indicating the success of the operation and a list of Vector3D objects representing the computed third derivatives.
         """
-        return True, [Vector3D(p) for p in self._get_third_derivative(parameters)]
+        return True, [Vector3D(p) for p in self._get_third_derivative(np.asarray(parameters, dtype=float))]
 
     def get_third_derivative(self, parameter: float) -> tuple[bool, Vector3D]:
         """
@@ -665,6 +665,7 @@ class CurveEvaluator3D(Base):
         :param parameters: A list of floats representing the parameters used to evaluate the tangents.
         :return: A tuple containing a boolean value indicating the success of the evaluation and a list of Vector3D objects representing the computed tangents.
         """
+        parameters = np.asarray(parameters, dtype=float)
         T, success = evaluate_tangent_vec(
             self._get_first_derivative(parameters),
             self._get_second_derivative(parameters),
@@ -857,7 +858,7 @@ class CurveEvaluator2D(Base):
         The length of this array is equal to the length of the parameters array specified.
         Returns true if the first derivatives were successfully returned.
         """
-        return True, [Vector2D(p) for p in self._get_first_derivative(parameters)]
+        return True, [Vector2D(p) for p in self._get_first_derivative(np.asarray(parameters, dtype=float))]
 
     def getFirstDerivative(self, parameter: float) -> tuple[bool, Vector2D]:
         """
@@ -881,7 +882,7 @@ class CurveEvaluator2D(Base):
         Returns true if the second derivatives were successfully returned.
         """
 
-        return True, [Vector2D(p) for p in self._get_second_derivative(parameters)]
+        return True, [Vector2D(p) for p in self._get_second_derivative(np.asarray(parameters, dtype=float))]
 
     def get_second_derivative(self, parameter: float) -> tuple[bool, Vector3D]:
         """
@@ -904,7 +905,7 @@ class CurveEvaluator2D(Base):
         The length of this array is equal to the length of the parameters array specified.
         Returns true if the third derivatives were successfully returned.
         """
-        return True, [Vector2D(p) for p in self._get_third_derivative(parameters)]
+        return True, [Vector2D(p) for p in self._get_third_derivative(np.asarray(parameters, dtype=float))]
 
     def get_third_derivative(self, parameter: float) -> tuple[bool, Vector2D]:
         """
@@ -947,6 +948,7 @@ class CurveEvaluator2D(Base):
         The length of this array will be the same as the length of the parameters array provided.
         Returns true if the tangents were successfully returned.
         """
+        parameters = np.asarray(parameters, dtype=float)
         T, success = evaluate_tangent_vec(
             self._get_first_derivative(parameters),
             self._get_second_derivative(parameters),
-- 
2.43.0


From 40c493ff62a2687d3336575314bb401fa48a3740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 290/294] fix: NurbsCurve3D could not be created

---
 mmcore/api/curves.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mmcore/api/curves.py b/mmcore/api/curves.py
index 24407ed..13e024d 100644
--- a/mmcore/api/curves.py
+++ b/mmcore/api/curves.py
@@ -2264,12 +2264,14 @@ class NurbsCurve3D(Curve3D):
     def __init__(self, control_points, weights=None, degree=3, knots=None):
         super().__init__()
 
-        self._proxy = NURBSpline(control_points, weights, degree, knots)
-        self._control_points = []
-        for i in range(len(self._proxy.control_points)):
-            pt = Point3D()
-            pt._array = control_points[i]
-            self._control_points.append(pt)
+        self._set_proxy(control_points, weights, degree, knots)
+
+    def _set_proxy(self, control_points, weights, degree, knots):
+        points = np.array([getattr(pt, "_array", pt) for pt in control_points], dtype=float)
+        self._proxy = NURBSpline(points, degree, knots)
+        if weights is not None:
+            self._proxy.weights = np.array(weights, dtype=float)
+        self._control_points = [Point3D(pt) for pt in points]
 
     @property
     def derivative(self):
-- 
2.43.0


From 21258ddc1ad4ab1f25fa95f4e930fff4ffe9c5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 291/294] fix: NurbsCurve3D answered with points cached for its
 former weights

---
 mmcore/api/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/api/curves.py b/mmcore/api/curves.py
index 13e024d..ecb2969 100644
--- a/mmcore/api/curves.py
+++ b/mmcore/api/curves.py
@@ -2371,7 +2371,7 @@ class NurbsCurve3D(Curve3D):
 
     @weights.setter
     def weights(self, v):
-        self._proxy.weights[:] = v
+        self._proxy.weights = np.array(v, dtype=float)
 
     def set(
         self,
-- 
2.43.0


From 8006d52d244b6c4b7c072e521fd67df06b85fbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 292/294] fix: NurbsCurve3D.set failed

---
 mmcore/api/curves.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mmcore/api/curves.py b/mmcore/api/curves.py
index ecb2969..a95fa46 100644
--- a/mmcore/api/curves.py
+++ b/mmcore/api/curves.py
@@ -2395,10 +2395,7 @@ class NurbsCurve3D(Curve3D):
         Returns true if successful.
         """
 
-        self._proxy.set(
-            control_points=control_points, degree=degree, knots=knots, weights=weights
-        )
-
+        self._set_proxy(control_points, weights if is_rational else None, degree, knots)
         return True
 
     def extract(self, startParam: float, endParam: float) -> NurbsCurve3D:
-- 
2.43.0


From 6e75394c1557d13118f4a8da8b7e1ef3160c97e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 293/294] fix: NurbsCurve3D.get_data failed

---
 mmcore/api/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/api/curves.py b/mmcore/api/curves.py
index a95fa46..db6234c 100644
--- a/mmcore/api/curves.py
+++ b/mmcore/api/curves.py
@@ -2465,7 +2465,7 @@ class NurbsCurve3D(Curve3D):
         """
         Indicates if the curve is periodic.
         """
-        raise NotImplementedError
+        return self._proxy.periodic
 
     @property
     def control_points(self) -> list[Point3D]:
-- 
2.43.0


From 7b1d64d2d43b9133f3f9f7d70ba3a03492c0eac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:58 +0000
Subject: [PATCH 294/294] fix: the isolines of a surface ran from 0 to 1
 whatever its interval

---
 mmcore/geom/surfaces/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index 905e450..1d19235 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -298,13 +298,13 @@ class Surface:
         orig = np.array([u, 0.])
         direction = np.array([0., 1.])
         crv = lambda t: orig + direction * t
-        return CurveOnSurface(self, crv)
+        return CurveOnSurface(self, crv, interval=tuple(self.interval()[1]))
 
     def isoline_v(self, v: float):
         orig = np.array([0., v])
         direction = np.array([1., 0.])
         crv = lambda t: orig + direction * t
-        return CurveOnSurface(self, crv)
+        return CurveOnSurface(self, crv, interval=tuple(self.interval()[0]))
 
     def interval(self):
         return (0.0, 1.0), (0.0, 1.0)
-- 
2.43.0

