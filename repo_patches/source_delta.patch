From 10d1751bd52f613db7d260223aa9dbf4d484e1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 001/230] fix: reverse_curve read knots before the start of the
 buffer

wraparound is off for this module, so the negative index addressed memory
in front of the knot vector.
---
 mmcore/geom/nurbs.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 41829f1..c2a9942 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2058,8 +2058,9 @@ def reverse_curve(curve: NURBSCurve) -> NURBSCurve:
     cdef double a = curve._knots[0]
     cdef double b = curve._knots[curve._knots.shape[0]-1]
     cdef int i
-    for i in range(len(curve._knots)):
-        new_knots[i] = a + b - curve._knots[-(i+1)]
+    cdef int m = curve._knots.shape[0]
+    for i in range(m):
+        new_knots[i] = a + b - curve._knots[m - 1 - i]
 
     return NURBSCurve.create(new_cpts, curve._degree, new_knots, curve._periodic)
 
-- 
2.43.0


From f69945927efa5cd32df00f97dadc5223aa411c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 002/230] fix: NURBSCurve.flip produced a decreasing knot
 vector

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index c2a9942..00c77b1 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2031,7 +2031,7 @@ cdef class NURBSCurve(ParametricCurve):
         return curve
 
     def flip(self):
-        return NURBSCurve(np.flip(self._control_points,axis=0), self.degree,np.max(self.knots)-self.knots+np.min(self.knots))
+        return NURBSCurve(np.flip(self._control_points,axis=0), self.degree,np.flip(np.max(self.knots)-self.knots+np.min(self.knots)))
 
 
 
-- 
2.43.0


From d4f136c826fc5ee4c212e3e36abccd4061a07961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 003/230] fix: bounding box of a rational NURBSCurve did not
 contain the curve

NURBSCurve stores euclidean control points with a separate weight, they must
not be divided by the weight.
---
 mmcore/geom/nurbs.pyx | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 00c77b1..cc9caa9 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1956,9 +1956,19 @@ cdef class NURBSCurve(ParametricCurve):
     @cython.wraparound(False)
     @cython.cdivision(True)
     def bbox(self,double[:,:] result=None):
+        cdef int i,j
         if result is None:
             result=np.zeros((2,3))
-        aabb(self._control_points, result)
+        # the control points of a curve are stored as euclidean (x,y,z) plus weight, not premultiplied
+        for i in range(3):
+            result[0,i]=self._control_points[0,i]
+            result[1,i]=self._control_points[0,i]
+        for j in range(1,self._control_points.shape[0]):
+            for i in range(3):
+                if self._control_points[j,i]<result[0,i]:
+                    result[0,i]=self._control_points[j,i]
+                if self._control_points[j,i]>result[1,i]:
+                    result[1,i]=self._control_points[j,i]
         return result
 
     def astuple(self):
-- 
2.43.0


From 9fc9be1ec83cbd881b40618a5d1d8678e21b6bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 004/230] fix: NURBSCurve.copy evaluated the original curve
 instead of the copy

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index cc9caa9..9b333b3 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1792,7 +1792,7 @@ cdef class NURBSCurve(ParametricCurve):
     def copy(self):
         cdef NURBSCurve crv = self.ccopy()
 
-        crv._evaluate_cached = functools.lru_cache(maxsize=None)(self._evaluate)
+        crv._evaluate_cached = functools.lru_cache(maxsize=None)(crv._evaluate)
         return crv
 
     @cython.boundscheck(False)
-- 
2.43.0


From 51c9a4f20af702b76bbe7e0cee5dd10684cd6310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:15 +0000
Subject: [PATCH 005/230] fix: knot insertion changed the shape of rational
 NURBSCurves

The control points of a curve are stored as euclidean (x,y,z) plus weight,
while knot insertion has to be done on the homogeneous points. split_curve,
split_curve2, decompose_curve and multiply_knot inherit the fix.
---
 mmcore/geom/nurbs.pyx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 9b333b3..f0b1a9a 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1728,9 +1728,14 @@ cdef class NURBSCurve(ParametricCurve):
         cdef int span = find_span_inline(n-1, self._degree, t, self._knots,0)
         cdef double[:] k_v = knot_insertion_kv(self._knots, t, span, count)
         cdef int s_u = find_multiplicity(t, self._knots, 1e-12)
+        cdef int i,j
         # Compute new knot vector
         self._control_points=np.empty((new_count,4))
 
+        # knot insertion is only valid on homogeneous (premultiplied) control points
+        for i in range(n):
+            for j in range(3):
+                cpts[i,j]*=cpts[i,3]
 
         # Compute new control points
 
@@ -1740,6 +1745,10 @@ cdef class NURBSCurve(ParametricCurve):
                                               t,
                                                 count, s_u, span,0,self._control_points  )
 
+        for i in range(new_count):
+            for j in range(3):
+                self._control_points[i,j]/=self._control_points[i,3]
+
         # Update curve
 
         self._knots=k_v
-- 
2.43.0


From b4bcd3f7eb73b7976665cf35d00cebf83123d833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:15 +0000
Subject: [PATCH 006/230] fix: derivatives of rational NURBSCurves ignored the
 weights

---
 mmcore/geom/nurbs.pxd |  2 ++
 mmcore/geom/nurbs.pyx | 49 ++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pxd b/mmcore/geom/nurbs.pxd
index eebc350..6cbaf89 100644
--- a/mmcore/geom/nurbs.pxd
+++ b/mmcore/geom/nurbs.pxd
@@ -478,6 +478,8 @@ cdef class NURBSCurve(ParametricCurve):
 
     cdef void cderivatives1(self, double t, int d, double[:,:] CK )
     cdef void cderivatives2(self, double t, int d, double[:,:] CK )
+    cdef bint crational(self) noexcept nogil
+    cdef void cderivatives_rational(self, double t, int d, double[:,:] CK )
     cdef void cplane(self, double t, double[:,:] result)
     cdef void cnormal(self, double t, double[:] result)
     cpdef void insert_knot(self, double param, int num)
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index f0b1a9a..18621b5 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1566,6 +1566,46 @@ cdef class NURBSCurve(ParametricCurve):
         return result
 
 
+    @cython.initializedcheck(False)
+    @cython.boundscheck(False)
+    @cython.wraparound(False)
+    cdef bint crational(self) noexcept nogil:
+        """True if the weights are not all equal."""
+        cdef int i
+        for i in range(1, self._control_points.shape[0]):
+            if self._control_points[i,3]!=self._control_points[0,3]:
+                return True
+        return False
+
+    @cython.cdivision(True)
+    @cython.initializedcheck(False)
+    @cython.boundscheck(False)
+    @cython.wraparound(False)
+    cdef void cderivatives_rational(self, double t, int d, double[:,:] CK ) :
+        """
+        Derivatives of a rational curve (The NURBS Book, A4.2). Fills the CK.shape[0] first derivatives.
+        """
+        cdef int n = self._control_points.shape[0] - 1
+        cdef int i,j,k
+        cdef int rows = min(d + 1, <int>CK.shape[0])
+        cdef double binom
+        cdef double[:,:] Pw = self._control_points.copy()
+        cdef double[:,:] CKw = np.zeros((d + 1, 4))
+        for i in range(n + 1):
+            for j in range(3):
+                Pw[i,j]*=Pw[i,3]
+        curve_derivs_alg1(n, self._degree, self._knots, Pw, t, d, CKw, self._periodic)
+        for k in range(rows):
+            for j in range(3):
+                CK[k,j]=CKw[k,j]
+            binom=1.
+            for i in range(1, k + 1):
+                binom=binom*(k - i + 1)/i
+                for j in range(3):
+                    CK[k,j]-=binom*CKw[i,3]*CK[k - i,j]
+            for j in range(3):
+                CK[k,j]/=CKw[0,3]
+
     @cython.cdivision(True)
     @cython.initializedcheck(False)
     @cython.boundscheck(False)
@@ -1582,6 +1622,9 @@ cdef class NURBSCurve(ParametricCurve):
         cdef int i
         #cdef double[:, :]  CK = np.zeros((du + 1, 4))
         #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
+        if self.crational():
+            self.cderivatives_rational(t, d, CK)
+            return
         curve_derivs_alg1(n, self._degree, self._knots, self._control_points[:,:-1], t, d, CK,self._periodic)
 
     @cython.cdivision(True)
@@ -1600,7 +1643,11 @@ cdef class NURBSCurve(ParametricCurve):
            cdef int i
            #cdef double[:, :]  CK = np.zeros((du + 1, 4))
            #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
-           cdef double[:,:,:] PK= np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1 ))
+           cdef double[:,:,:] PK
+           if self.crational():
+               self.cderivatives_rational(t, d, CK)
+               return
+           PK= np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1 ))
 
            curve_derivs_alg2(n, self._degree, self._knots, self._control_points[:,:-1], t, d, CK, PK,self._periodic)
 
-- 
2.43.0


From 544d8d716599885c05683b672f8314c8828f4e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:15 +0000
Subject: [PATCH 007/230] fix: NURBSCurve.derivative_control_points always
 raised a shape mismatch

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 18621b5..3475252 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1735,7 +1735,7 @@ cdef class NURBSCurve(ParametricCurve):
             cdef int n = len(self._control_points) - 1
             cdef int span = find_span(n, self._degree, t,self._knots,self._periodic)
             cdef cnp.ndarray[double, ndim=3] PK = np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1))
-            curve_deriv_cpts(self._degree, self._knots,self._control_points, d, span - self._degree, span, PK)
+            curve_deriv_cpts(self._degree, self._knots,self._control_points[:,:-1], d, span - self._degree, span, PK)
 
             return PK
     @cython.cdivision(True)
-- 
2.43.0


From 40e6b0557bc0f8d8e4df1e67dd2ec17cadbb600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:15 +0000
Subject: [PATCH 008/230] fix: NURBSCurve.normal wrote past the end of its
 buffer

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 3475252..77af7d1 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1680,7 +1680,7 @@ cdef class NURBSCurve(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     cdef void cnormal(self, double t, double[:] result):
-        cdef double[:,:] vecs=np.zeros((3,3))
+        cdef double[:,:] vecs=np.zeros((4,3))
         self.cplane(t,vecs)
         result[:]=vecs[2,:]
 
-- 
2.43.0


From 41c790b6b2675f2f5e3a56a8aa28694301abac0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:48 +0000
Subject: [PATCH 009/230] fix: NURBSCurve.trim searched spans past the end of
 the knot vector

---
 mmcore/geom/nurbs.pyx | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 77af7d1..5292ef9 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2066,33 +2066,20 @@ cdef class NURBSCurve(ParametricCurve):
 
         # Make copy if requested
 
-        curve = self.ccopy()
+        cdef NURBSCurve curve = self.ccopy()
 
-        # Insert knots at trim points with multiplicity = degree
-        curve.multiply_knot( t1)
-        curve.multiply_knot( t2)
-
-        # Find spans corresponding to trim points
-        cdef bint per=curve.is_periodic()
-        cdef int span1 = find_span_inline(curve._knots.shape[0] - 1, curve._degree, t1, curve._knots, per)
-        cdef int span2 = find_span_inline(curve._knots.shape[0] - 1, curve._degree, t2, curve._knots, per)
-
-        # Extract relevant control points and knots
-        cdef double[:,:] new_cpts = curve._control_points[span1 - curve._degree:span2 + 1]
-        cdef double[:]        new_knots = curve._knots[span1:span2 + curve._degree + 2]
+        # Cut off what lies outside of the range
+        if curve._interval[1] - t2 > 1e-12:
+            curve = split_curve2(curve, t2)[0]
+        if t1 - curve._interval[0] > 1e-12:
+            curve = split_curve2(curve, t1)[1]
 
         # Shift knot vector to start at 0
-        cdef double shift = new_knots[0]
+        cdef double shift = curve._knots[0]
         cdef int i
-        for i in range(new_knots.shape[0]):
-            new_knots[i]-=shift
-
-
-        # Update curve data
-        curve._control_points = new_cpts
-        curve._knots = new_knots
-        curve._interval[0] = new_knots[0]
-        curve._interval[1] = new_knots[new_knots.shape[0]-1]
+        for i in range(curve._knots.shape[0]):
+            curve._knots[i]-=shift
+        curve.knots_update_hook()
 
         return curve
 
-- 
2.43.0


From 77a2b84864ff6dd3d1d770212420c7ed4a62f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:48 +0000
Subject: [PATCH 010/230] fix: knot_removal compared the sum of two points
 instead of their distance

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 5292ef9..5ae1a78 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -573,7 +573,7 @@ cdef inline double point_distance(double* a, double* b ,int dim) noexcept nogil:
     cdef double temp=0.
     for i in range(dim):
 
-        temp+= pow(a[i]+b[i], 2)
+        temp+= pow(a[i]-b[i], 2)
 
     return sqrt(temp)
 
-- 
2.43.0


From 818ced024876882a619463173ec2fa215f26d18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:22 +0000
Subject: [PATCH 011/230] fix: knot.knot_insertion passed a tuple where a float
 buffer is required

---
 mmcore/geom/curves/knot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index cefa036..8c6e181 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -449,7 +449,7 @@ def knot_insertion(degree, knotvector, ctrlpts, u, num=1, **kwargs)->tuple:
     for j in range(1, num + 1):
         L = k - degree + j
         for i in range(0, degree - j - s + 1):
-            alpha = knot_insertion_alpha_py(u, tuple(knotvector), k, i, L)
+            alpha = knot_insertion_alpha_py(u, np.asarray(knotvector, dtype=float), k, i, L)
             if isinstance(temp[i][0], float):
                 temp[i][:] = [alpha * elem2 + (1.0 - alpha) * elem1 for elem1, elem2 in zip(temp[i], temp[i + 1])]
             else:
-- 
2.43.0


From 6d648c1db55c5265c0bf8162166fc0bc91a57b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:57 +0000
Subject: [PATCH 012/230] fix: degree elevation changed the shape of rational
 curves

---
 mmcore/geom/curves/knot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index 8c6e181..c3777f0 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -864,7 +864,11 @@ def degree_elevate_curve(curve:NURBSCurve, num:int=1):
     # Loop through to apply degree elevation
     for crv in crv_list:
 
-            new_cpts,new_deg = degree_elevation_bez( crv.control_pointsw,crv.degree, num=num)
+            # elevation is only valid on homogeneous (premultiplied) control points
+            cptsw = np.array(crv.control_pointsw)
+            cptsw[:, :3] *= cptsw[:, 3:]
+            new_cpts,new_deg = degree_elevation_bez(cptsw,crv.degree, num=num)
+            new_cpts[:, :3] /= new_cpts[:, 3:]
             new_kv=np.zeros((crv.knots.shape[0]+num*2,))
 
             new_kv[:num]=crv.knots[0]
-- 
2.43.0


From 11bd937ae661a0842969b8e55f40e71abe5aa406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:57 +0000
Subject: [PATCH 013/230] fix: knot.nurbs_split dropped the weights of rational
 curves

---
 mmcore/geom/curves/knot.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index c3777f0..22b89cf 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -705,7 +705,7 @@ def nurbs_split(self, t: float) -> tuple:
         curve2_kv.insert(0, t)
 
     # Control points (use Pw if rational)
-    cpts = temp_obj.control_points.tolist()
+    cpts = temp_obj.control_pointsw.tolist()
     curve1_ctrlpts = cpts[0: ks + r]
     curve2_ctrlpts = cpts[ks + r - 1:]
 
@@ -725,9 +725,13 @@ def nurbs_split(self, t: float) -> tuple:
 
 
 def insert_knot(self, t, num=1):
+    # knot insertion is only valid on homogeneous (premultiplied) control points
+    cptsw = np.array(self.control_pointsw)
+    cptsw[:, :3] *= cptsw[:, 3:]
     cpts, knots = knot_insertion(
-        self.degree, self.knots.tolist(), self._control_points, t, num=num
+        self.degree, self.knots.tolist(), cptsw, t, num=num
     )
+    cpts[:, :3] /= cpts[:, 3:]
     self.set(control_points=np.array(cpts), knots=np.array(knots))
     return True
 
-- 
2.43.0


From 66f7e09ce3bd80f7ae243f54b6f118031d997514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:08 +0000
Subject: [PATCH 014/230] fix: hashing or comparing a NURBSSurface raised
 AttributeError

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 5ae1a78..0a1ceac 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2619,7 +2619,7 @@ cdef class NURBSSurface(ParametricSurface):
     def geometry_hash(self, check_interval=False):
         cdef bytes ku = np.ascontiguousarray(self._knots_u).tobytes()
         cdef bytes kv = np.ascontiguousarray(self._knots_v).tobytes()
-        cdef bytes pts = np.ascontiguousarray(self._control_points).tobytes()
+        cdef bytes pts = np.ascontiguousarray(self.control_points_view).tobytes()
         cdef double u0 = self._interval[0][0]
         cdef double u1 = self._interval[0][1]
         cdef double v0 = self._interval[1][0]
@@ -2628,7 +2628,7 @@ cdef class NURBSSurface(ParametricSurface):
         if check_interval:
             itms = (self._degree[0], self._degree[1],ku,kv, pts, u0,u1,v0,v1)
         else:
-            itms = (self._degree[0], self._degree[1],self._degree, ku,kv, pts)
+            itms = (self._degree[0], self._degree[1], ku,kv, pts)
         return hash(itms)
     def __hash__(self):
         return self.geometry_hash(check_interval=True)
-- 
2.43.0


From 7397baa77e117ce5d4c525072d47fc99137b9875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:08 +0000
Subject: [PATCH 015/230] fix: NURBSCurve and NURBSSurface aliased the knot
 vectors they were given

normalize_knots works in place, so it changed the callers array and every
other object built from it (both halves of split_surface_u, for example).
---
 mmcore/geom/nurbs.pyx | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 0a1ceac..6d417e7 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1134,7 +1134,7 @@ cdef class NURBSCurve(ParametricCurve):
         if knots is None:
             self.generate_knots()
         else:
-            self._knots = knots
+            self._knots = knots.copy()
             self.knots_update_hook()
 
         if periodic:
@@ -1164,7 +1164,7 @@ cdef class NURBSCurve(ParametricCurve):
         if knots is None:
                 self.generate_knots()
         else:
-            self._knots=knots
+            self._knots=knots.copy()
             self.knots_update_hook()
 
         if  periodic:
@@ -1304,7 +1304,7 @@ cdef class NURBSCurve(ParametricCurve):
     @knots.setter
     def knots(self, double[:] v):
 
-        self._knots=v
+        self._knots=v.copy()
         self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
@@ -2335,11 +2335,11 @@ cdef class NURBSSurface(ParametricSurface):
         if knots_u is None:
             self.generate_knots_u()
         else:
-            self._knots_u=knots_u
+            self._knots_u=knots_u.copy()
         if knots_v is None:
             self.generate_knots_v()
         else:
-            self._knots_v=knots_v
+            self._knots_v=knots_v.copy()
         self._update_interval()
         return self
     def __init__(self, double[:,:,:] control_points, tuple degree, double[:] knots_u=None, double[:] knots_v=None ):
@@ -2371,18 +2371,18 @@ cdef class NURBSSurface(ParametricSurface):
         if knots_u is None:
             self.generate_knots_u()
         else:
-            self._knots_u=knots_u
+            self._knots_u=knots_u.copy()
         if knots_v is None:
             self.generate_knots_v()
         else:
-            self._knots_v=knots_v
+            self._knots_v=knots_v.copy()
         self._update_interval()
     @property
     def knots_u(self):
         return np.array(self._knots_u)
     @knots_u.setter
     def knots_u(self,val):
-        self._knots_u=val
+        self._knots_u=np.array(val,dtype=float)
         self._update_interval()
 
     @property
@@ -2430,7 +2430,7 @@ cdef class NURBSSurface(ParametricSurface):
 
     @knots_v.setter
     def knots_v(self,val):
-        self._knots_v=val
+        self._knots_v=np.array(val,dtype=float)
         self._update_interval()
     @property
     def degree(self):
-- 
2.43.0


From 6f7c0791d1069a77341175a21bc7f60cd022bba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:08 +0000
Subject: [PATCH 016/230] fix: NURBSCurve.evaluate handed out the array held by
 its cache

Writing to a returned point changed every later evaluation at that parameter.
---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 6d417e7..f9535d3 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1541,7 +1541,7 @@ cdef class NURBSCurve(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     def evaluate(self, double t):
-        return self._evaluate_cached(t)
+        return self._evaluate_cached(t).copy()
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
-- 
2.43.0


From 02fb97bbaa0b71e0525877d5578be6f6be6ab757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:28 +0000
Subject: [PATCH 017/230] fix: NURBSSurface.control_points_w exposed memory
 that the surface frees

The view was left dangling by knot insertion (realloc) and by the collection
of the surface. Return a copy like control_points does.
---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index f9535d3..c9f73eb 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2420,13 +2420,13 @@ cdef class NURBSSurface(ParametricSurface):
     @property
     def control_points_flat_w(self):
 
-        return self.control_points_flat_view
+        return np.array(self.control_points_flat_view)
     @property
     def shape(self):
         return tuple(self._size)
     @property
     def control_points_w(self):
-        return self.control_points_view
+        return np.array(self.control_points_view)
 
     @knots_v.setter
     def knots_v(self,val):
-- 
2.43.0


From 6a88898facd828a4dcf767efb5f52505495672e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:24 +0000
Subject: [PATCH 018/230] fix: evaluate_nurbs_multi accumulated the points of
 earlier parameters

---
 mmcore/geom/curves/deboor.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/curves/deboor.pyx b/mmcore/geom/curves/deboor.pyx
index 24459f6..e115b73 100644
--- a/mmcore/geom/curves/deboor.pyx
+++ b/mmcore/geom/curves/deboor.pyx
@@ -55,6 +55,7 @@ cdef void cevaluate_nurbs_multi( double[:] t,double[:,:] cpts, double[:] knots,
     cdef xyz pt=xyz(0.,0.,0.);
 
     for i in range(t.shape[0]):
+        pt=xyz(0.,0.,0.)
         cevaluate_nurbs(t[i],cpts,knots,weights,degree,&pt)
         result[i][0] = pt.x
         result[i][1] = pt.y
-- 
2.43.0


From fc8d3c79b28d70a2d62f1ff87e2325ea273011c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:56 +0000
Subject: [PATCH 019/230] fix: NURBSCurve.set and insert_knot left interval or
 greville_abscissae stale

---
 mmcore/geom/nurbs.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index c9f73eb..ef1e69c 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1499,6 +1499,7 @@ cdef class NURBSCurve(ParametricCurve):
     cpdef set(self, double[:,:] control_points, double[:] knots ):
         self._control_points=control_points
         self._knots=knots
+        self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
     @cython.cdivision(True)
@@ -1799,7 +1800,7 @@ cdef class NURBSCurve(ParametricCurve):
         # Update curve
 
         self._knots=k_v
-        self._update_interval()
+        self.knots_update_hook()
 
         self._evaluate_cached.cache_clear()
 
-- 
2.43.0


From 7185d5ef12c01bf1b25155e4b29a2cacce000127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:56 +0000
Subject: [PATCH 020/230] fix: NURBSCurve.insert_knot wrote out of bounds when
 the multiplicity exceeded the degree

---
 mmcore/geom/nurbs.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index ef1e69c..4cfef72 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1767,6 +1767,9 @@ cdef class NURBSCurve(ParametricCurve):
 
         """
 
+        # more than degree equal interior knots would write past the control points
+        if count > self._degree - find_multiplicity(t, self._knots, 1e-12):
+            raise ValueError("The multiplicity of a knot cannot exceed the degree.")
         # Start curve knot insertion
         cdef int n = self._control_points.shape[0]
         cdef int new_count = n + count
-- 
2.43.0


From 8956f96a23c121da74b1950ee4ea8be2c19eda87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 021/230] fix: is_periodic only compared the last of the
 wrapped control points

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 mmcore/geom/nurbs.pyx         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index f6b863a..60b03dd 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -484,7 +484,7 @@ cdef class NURBSpline(ParametricCurve):
 
                 res = part1[j][i] == part2[j][i]
                 if not res:
-                    break
+                    return res
 
         return res
 
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 4cfef72..bf9b822 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1232,7 +1232,7 @@ cdef class NURBSCurve(ParametricCurve):
 
                 res = part1[j][i] == part2[j][i]
                 if not res:
-                    break
+                    return res
 
         return res
 
-- 
2.43.0


From 8ce29c42571029237a9f4d00db967892f53d00e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:33 +0000
Subject: [PATCH 022/230] fix: assigning NURBSCurve.control_points always
 raised a TypeError

---
 mmcore/geom/curves/_nurbs.pyx | 9 +++------
 mmcore/geom/nurbs.pyx         | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 60b03dd..4188aa3 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -522,12 +522,9 @@ cdef class NURBSpline(ParametricCurve):
         return np.asarray(self._control_points[:,:-1])
     @control_points.setter
     def control_points(self, control_points):
-        self._control_points = np.ones((control_points.shape[0],4))
-        if control_points.shape[1]==4:
-            self._control_points[:]=control_points
-        else:
-
-            self._control_points[:, :control_points.shape[1]] = control_points
+        new_control_points = np.ones((control_points.shape[0],4))
+        new_control_points[:, :control_points.shape[1]] = control_points
+        self._control_points = new_control_points
         self._evaluate_cached.cache_clear()
 
 
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index bf9b822..46a0b85 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1286,12 +1286,9 @@ cdef class NURBSCurve(ParametricCurve):
                              "If you know what you are doing, assign control points directly by setting the _control_points attribute value. "
                              "However, you will have to clear caches, update the knots and possibly the periodicity.")
 
-        self._control_points = np.ones((control_points.shape[0],4))
-        if control_points.shape[1]==4:
-                self._control_points[:]=control_points
-        else:
-
-                self._control_points[:, :control_points.shape[1]] = control_points
+        new_control_points = np.ones((control_points.shape[0],4))
+        new_control_points[:, :control_points.shape[1]] = control_points
+        self._control_points = new_control_points
 
         self._evaluate_cached.cache_clear()
 
-- 
2.43.0


From 984732dfdb774baf3adb69da497e72da457d892f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:17 +0000
Subject: [PATCH 023/230] fix: surface_derivatives read past the knots and
 points at the end of the domain

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 46a0b85..0dee7ce 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -977,7 +977,7 @@ cdef void surface_derivatives(int[2] degree, double[:] knots_u,  double[:] knots
     cdef int basisdrv_size_u, basisdrv_size_v
 
     # Allocate memory and compute basis function derivatives for u and v directions
-    span[0] = find_span_inline(size[0], degree[0], u, knots_u, 0)
+    span[0] = find_span_inline(size[0] - 1, degree[0], u, knots_u, 0)
     basisdrv_size_u = (d[0] + 1) * (degree[0] + 1)
     basisdrv_u = <double*>malloc(basisdrv_size_u * sizeof(double))
     with gil:
@@ -985,7 +985,7 @@ cdef void surface_derivatives(int[2] degree, double[:] knots_u,  double[:] knots
 
         ders_basis_funs(span[0], u, degree[0], d[0], knots_u, mbasisdrv_u)
 
-    span[1] = find_span_inline(size[1], degree[1], v, knots_v, 0)
+    span[1] = find_span_inline(size[1] - 1, degree[1], v, knots_v, 0)
     basisdrv_size_v = (d[1] + 1) * (degree[1] + 1)
     basisdrv_v = <double*>malloc(basisdrv_size_v * sizeof(double))
     with gil:
-- 
2.43.0


From f3df60cf553be5c1e214db966cb74d7042f1d06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:17 +0000
Subject: [PATCH 024/230] fix: surface_deriv_cpts left out the highest U
 derivative and overran its buffer

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 0dee7ce..c54f998 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -838,7 +838,7 @@ cpdef void surface_deriv_cpts(int dim, int[:] degree, double[:] kv0, double[:] k
     cdef int i, j, k, l, d,dd
     cdef double[:, :, :] PKu = np.zeros((du + 1, r + 1, dim), dtype=np.double)
     cdef double[:, :, :] PKuv = np.zeros((dv + 1, s + 1, dim), dtype=np.double)
-    cdef double[:, :] temp_cpts = np.zeros((cpsize[0], dim), dtype=np.double)
+    cdef double[:, :] temp_cpts = np.zeros((max(cpsize[0], cpsize[1]), dim), dtype=np.double)
 
     # Control points of the U derivatives of every U-curve
     for j in range(ss[0], ss[1] + 1):
@@ -854,7 +854,7 @@ cpdef void surface_deriv_cpts(int dim, int[:] degree, double[:] kv0, double[:] k
                     PKL[k, 0, i, j - ss[0], d] = PKu[k, i, d]
 
     # Control points of the V derivatives of every U-differentiated V-curve
-    for k in range(du):
+    for k in range(du + 1):
         for i in range(r - k + 1):
             dd = min(deriv_order - k, dv)
 
-- 
2.43.0


From 184a98eae782cd9aad499616a22300e6fd49136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 025/230] fix: a Cylinder along the negative X axis evaluated
 to NaN

---
 mmcore/geom/primitives.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/primitives.pyx b/mmcore/geom/primitives.pyx
index ada9699..78eb9d5 100644
--- a/mmcore/geom/primitives.pyx
+++ b/mmcore/geom/primitives.pyx
@@ -405,7 +405,7 @@ cdef class Cylinder(ParametricSurface):
         self._interval[1][1] =  self.D_norm
 
         # Choose an arbitrary vector W that is not collinear with D_hat
-        if np.allclose(self.D_hat, [1, 0, 0]):
+        if np.allclose(np.abs(self.D_hat), [1, 0, 0]):
             self.W = np.array([0., 1., 0.])
         else:
             self.W = np.array([1., 0., 0.])
-- 
2.43.0


From bd1205e16688e01a244db92d21fdf0decfba9bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 026/230] fix: u derivatives of a Ruled surface ignored the
 intervals of its curves

---
 mmcore/geom/parametric.pyx | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index 28805f1..5bc284c 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -702,16 +702,18 @@ cdef class Ruled(ParametricSurface):
         cdef double u1 = (u * (self.c0._interval[1] - self.c0._interval[0])) + self.c0._interval[0]
         cdef double u2 = (u * (self.c1._interval[1] - self.c1._interval[0])) + self.c1._interval[0]
         cdef double[:] temp=np.empty(3)
-        cdef double dv=1.-v
+        # chain rule: u runs over [0,1], the curves over their own intervals
+        cdef double d1=v*(self.c1._interval[1] - self.c1._interval[0])
+        cdef double d0=(1.-v)*(self.c0._interval[1] - self.c0._interval[0])
 
         self.c1.cderivative(u2,temp)
-        temp[0]*=v
-        temp[1] *= v
-        temp[2] *= v
+        temp[0]*=d1
+        temp[1] *= d1
+        temp[2] *= d1
         self.c0.cderivative(u1,result)
-        result[0]*=dv
-        result[1] *= dv
-        result[2] *= dv
+        result[0]*=d0
+        result[1] *= d0
+        result[2] *= d0
         result[0]+=temp[0]
         result[1] += temp[1]
         result[2] += temp[2]
@@ -723,16 +725,18 @@ cdef class Ruled(ParametricSurface):
             cdef double u1 = (u * (self.c0._interval[1] - self.c0._interval[0])) + self.c0._interval[0]
             cdef double u2 = (u * (self.c1._interval[1] - self.c1._interval[0])) + self.c1._interval[0]
             cdef double[:] temp=np.empty(3)
-            cdef double dv=1.-v
+            # chain rule: u runs over [0,1], the curves over their own intervals
+            cdef double d1=v*(self.c1._interval[1] - self.c1._interval[0])**2
+            cdef double d0=(1.-v)*(self.c0._interval[1] - self.c0._interval[0])**2
 
             self.c1.csecond_derivative(u2,temp)
-            temp[0]*=v
-            temp[1] *= v
-            temp[2] *= v
+            temp[0]*=d1
+            temp[1] *= d1
+            temp[2] *= d1
             self.c0.csecond_derivative(u1,result)
-            result[0]*=dv
-            result[1] *= dv
-            result[2] *= dv
+            result[0]*=d0
+            result[1] *= d0
+            result[2] *= d0
             result[0]+=temp[0]
             result[1] += temp[1]
             result[2] += temp[2]
-- 
2.43.0


From 0621cf2d19e86e411c04f1932b2692ca9ff8691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 027/230] fix: the python Ruled surface ignored where the
 intervals of its curves start

---
 mmcore/geom/surfaces/__init__.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index 63602d3..4c7dada 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -451,35 +451,36 @@ class Ruled(Surface):
         super().__init__()
         self.c1, self.c2 = c1, c2
         self._intervals = np.array([np.array(c1.interval()), np.array(c2.interval())])
-        self._remap_u = scalar_dot(np.array((0., 1.)), self._intervals[0])
-        self._remap_v = scalar_dot(np.array((0., 1.)), self._intervals[1])
-        self._remap_uv = np.array([self._remap_u, self._remap_v])
+        self._remap_start = self._intervals[:, 0]
+        self._remap_uv = self._intervals[:, 1] - self._intervals[:, 0]
 
     def derivative_v(self, uv):
-        uc1uc2 = self._remap_uv * uv[0]
+        uc1uc2 = self._remap_param(uv[0])
         return self.c2.evaluate(uc1uc2[1]) - np.array(self.c1.evaluate(uc1uc2[0]))
 
     def derivative_u(self, uv):
-        uc1uc2 = self._remap_uv * uv[0]
-        return uv[1] * self.c2.derivative(uc1uc2[1]) + (1. - uv[1]) * self.c1.derivative(uc1uc2[0])
+        uc1uc2 = self._remap_param(uv[0])
+        return (uv[1] * self._remap_uv[1] * self.c2.derivative(uc1uc2[1])
+                + (1. - uv[1]) * self._remap_uv[0] * self.c1.derivative(uc1uc2[0]))
 
     def second_derivative_uu(self, uv):
-        uc1uc2 = self._remap_uv * uv[0]
+        uc1uc2 = self._remap_param(uv[0])
 
-        return uv[1] * self.c2.second_derivative(uc1uc2[1]) + (1. - uv[1]) * self.c1.second_derivative(uc1uc2[0])
+        return (uv[1] * self._remap_uv[1] ** 2 * self.c2.second_derivative(uc1uc2[1])
+                + (1. - uv[1]) * self._remap_uv[0] ** 2 * self.c1.second_derivative(uc1uc2[0]))
 
     def second_derivative_vv(self, uv):
         return np.zeros(3)
 
     def _remap_param(self, t):
-        return self._remap_uv * t
+        return self._remap_start + self._remap_uv * t
 
     def evaluate(self, uv):
-        uc1uc2 = self._remap_uv * uv[0]
+        uc1uc2 = self._remap_param(uv[0])
 
         return (1. - uv[1]) * self.c1.evaluate(uc1uc2[0]) + uv[1] * self.c2.evaluate(uc1uc2[1])
     def evaluate_v2(self, u, v):
-        uc1uc2 = self._remap_uv * u
+        uc1uc2 = self._remap_param(u)
 
         return (1. - v) * self.c1.evaluate(uc1uc2[0]) + v * self.c2.evaluate(uc1uc2[1])
 
-- 
2.43.0


From 5f1619afe7a80c99941c676dc336c7fe90a1e4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 028/230] fix: the second axis of Surface.plane_at was not a
 unit vector

---
 mmcore/geom/surfaces/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index 4c7dada..f1cc57e 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -262,8 +262,8 @@ class Surface:
         arr=surface_evaluator.origin_derivatives_normal(self.evaluate_v2,*uv)
 
         arr[1] /= scalar_norm(arr[1])
-        arr[2] /= scalar_norm(arr[2])
         arr[2]-= arr[1]*scalar_dot(arr[2],arr[1])
+        arr[2] /= scalar_norm(arr[2])
 
 
         #n = scalar_cross(arr[0],    arr[1])
-- 
2.43.0


From cf139bff5250a0d76344cdde6d0406c60dc84281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 029/230] fix: Coons.evaluate handed out the array held by its
 cache

---
 mmcore/geom/surfaces/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index f1cc57e..16aa3ff 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -594,7 +594,7 @@ class Coons(Surface):
         #print(f'{self}.evaluate({uv})')
         #return self._rc.evaluate(uv) + self._rd.evaluate(uv[::-1]) - self._rcd.evaluate(uv)
 
-        return self._cached_eval(*uv)
+        return self._cached_eval(*uv).copy()
     def evaluate_v2(self, u, v):
 
         return self._rc.evaluate_v2(u,v) + self._rd.evaluate_v2(v,u) - self._rcd.evaluate_v2(u,v)
-- 
2.43.0


From ff1ee9b5d5e5b6707c5510db103ebed39882aa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 030/230] fix: fdm.gradient changed the array it was given and
 truncated integer points

---
 mmcore/numeric/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/fdm.py b/mmcore/numeric/fdm.py
index ed20d19..774b4b3 100644
--- a/mmcore/numeric/fdm.py
+++ b/mmcore/numeric/fdm.py
@@ -472,7 +472,7 @@ def gradient(f, point, h=DEFAULT_H):
 
     :return: The gradient of the function at the given point.
     """
-    point = np.asarray(point)
+    point = np.array(point, dtype=float)
     grad = np.zeros_like(point)
     for i in range(point.size):
 
-- 
2.43.0


From d1e1225673f9f58ca656f34e6a54eb710fbb4aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:34 +0000
Subject: [PATCH 031/230] fix: Ruled never chose the compiled surface for
 compiled curves

---
 mmcore/geom/surfaces/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index 16aa3ff..293b2ea 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -500,7 +500,7 @@ def _remap_interval_ruled(uv, c1, c2):
 
 
 def Ruled(c1, c2):
-    if hasattr(c1, '__pyx_table__') and hasattr(c2, '__pyx_table__'):
+    if isinstance(c1, ParametricCurve) and isinstance(c2, ParametricCurve):
         return CRuled(c1, c2)
     else:
         return PyRuled(c1, c2)
-- 
2.43.0


From a9d00095271927e03667304857549bebb2676d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:34 +0000
Subject: [PATCH 032/230] fix: ParametricCurve.evaluate returned a memoryview
 that cannot be used in arithmetic

---
 mmcore/geom/parametric.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index 5bc284c..acca4d2 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -47,7 +47,7 @@ cdef class ParametricCurve:
     def evaluate(self, t):
         cdef double[:] result =np.zeros((3,))
         self.cevaluate(t,result)
-        return result
+        return np.asarray(result)
     @cython.boundscheck(False)
     @cython.wraparound(False)
     @cython.cdivision(True)
-- 
2.43.0


From 509d2aec43aa21531035ca7bae49869906f01d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:17 +0000
Subject: [PATCH 033/230] fix: the python B-spline basis functions were wrong
 for every degree above one

---
 mmcore/geom/curves/bspline_utils.py | 2 +-
 mmcore/geom/curves/curve_utils.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/bspline_utils.py b/mmcore/geom/curves/bspline_utils.py
index bc1764b..00f87fa 100644
--- a/mmcore/geom/curves/bspline_utils.py
+++ b/mmcore/geom/curves/bspline_utils.py
@@ -52,7 +52,7 @@ def calc_basis_functions(span, u, p, U):
         saved = 0
         for r in range(j):
             rv = right[r + 1]
-            lv = left[p - r]
+            lv = left[j - r]
             temp = N[r] / (rv + lv)
             N[r] = saved + rv * temp
             saved = lv * temp
diff --git a/mmcore/geom/curves/curve_utils.py b/mmcore/geom/curves/curve_utils.py
index ea45390..0c91581 100644
--- a/mmcore/geom/curves/curve_utils.py
+++ b/mmcore/geom/curves/curve_utils.py
@@ -47,7 +47,7 @@ def calc_basis_functions(span, u, p, U):
         saved = 0
         for r in range(j):
             rv = right[r + 1]
-            lv = left[p - r]
+            lv = left[j - r]
             temp = N[r] / (rv + lv)
             N[r] = saved + rv * temp
             saved = lv * temp
-- 
2.43.0


From 792f9ce6dde71ab0148ce768f2f66429e3fe89d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:33 +0000
Subject: [PATCH 034/230] fix: calcSurfacePoint always raised adding floats to
 integer arrays

---
 mmcore/geom/curves/bspline_utils.py | 4 ++--
 mmcore/geom/curves/curve_utils.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/curves/bspline_utils.py b/mmcore/geom/curves/bspline_utils.py
index 00f87fa..f81e236 100644
--- a/mmcore/geom/curves/bspline_utils.py
+++ b/mmcore/geom/curves/bspline_utils.py
@@ -100,14 +100,14 @@ def calcSurfacePoint(p, q, U, V, P, u, v):
     vspan = find_span(q, v, V)
     Nu = calc_basis_functions(uspan, u, p, U)
     Nv = calc_basis_functions(vspan, v, q, V)
-    temp = [np.array([0, 0, 0, 0]) for _ in range(q + 1)]
+    temp = [np.array([0., 0., 0., 0.]) for _ in range(q + 1)]
     for l in range(q + 1):
         for k in range(p + 1):
             point = P[uspan - p + k][vspan - q + l].copy()
             w = point[3]
             point[:3] *= w
             temp[l] += point * Nu[k]
-    Sw = np.array([0, 0, 0, 0])
+    Sw = np.array([0., 0., 0., 0.])
     for l in range(q + 1):
         Sw += temp[l] * Nv[l]
     Sw /= Sw[3]
diff --git a/mmcore/geom/curves/curve_utils.py b/mmcore/geom/curves/curve_utils.py
index 0c91581..d770b52 100644
--- a/mmcore/geom/curves/curve_utils.py
+++ b/mmcore/geom/curves/curve_utils.py
@@ -95,14 +95,14 @@ def calcSurfacePoint(p, q, U, V, P, u, v):
     vspan = find_span(q, v, V)
     Nu = calc_basis_functions(uspan, u, p, U)
     Nv = calc_basis_functions(vspan, v, q, V)
-    temp = [np.array([0, 0, 0, 0]) for _ in range(q + 1)]
+    temp = [np.array([0., 0., 0., 0.]) for _ in range(q + 1)]
     for l in range(q + 1):
         for k in range(p + 1):
             point = P[uspan - p + k][vspan - q + l].copy()
             w = point[3]
             point[:3] *= w
             temp[l] += point * Nu[k]
-    Sw = np.array([0, 0, 0, 0])
+    Sw = np.array([0., 0., 0., 0.])
     for l in range(q + 1):
         Sw += temp[l] * Nv[l]
     Sw /= Sw[3]
-- 
2.43.0


From aa988cca4355007a3f1c2d51cdc919dca4be4c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:33 +0000
Subject: [PATCH 035/230] fix: TrimmedCurve used the first derivative as
 second, and its start recursed forever

---
 mmcore/geom/curves/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index 427e819..b88f89c 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -377,11 +377,11 @@ class TrimmedCurve(Curve):
         self.curve = curve
         self.trim = start, end
         self.derivative = self.curve.derivative
-        self.second_derivative = self.curve.derivative
+        self.second_derivative = self.curve.second_derivative
 
     @property
     def start(self):
-        return self.start[0]
+        return self.trim[0]
 
     @start.setter
     def start(self, v):
-- 
2.43.0


From 775c1bde1fb5d5f26070b668eee9304965fb7674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:33 +0000
Subject: [PATCH 036/230] fix: ReparametrizedCurve.circle_of_curvature called
 itself forever

---
 mmcore/geom/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index b88f89c..dfbe743 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -571,7 +571,7 @@ class ReparametrizedCurve(Curve):
     def planes_at(self, t):
         return self.curve.planes_at(self.parametrization(t))
     def circle_of_curvature(self, t):
-        return self.circle_of_curvature(self.parametrization(t))
+        return self.curve.circle_of_curvature(self.parametrization(t))
 
 class ArcLengthParameterization(ReparametrizedCurve):
     def __init__(self, curve:Curve):
-- 
2.43.0


From 7909e33fd7f0cb677b4a0e4faa8f5e30394a2032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:14 +0000
Subject: [PATCH 037/230] fix: vector and matrix products accumulated into
 uninitialised memory

---
 mmcore/numeric/vectors.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index c057da1..778ab66 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -45,7 +45,7 @@ cpdef dot_array_x_array(double[:,:]vec_a, double[:,:]vec_b):
         item = 0.0
         for j in range(vec_a.shape[1]):
             item += vec_a[i, j] * vec_b[i, j]
-        res[i] += item
+        res[i] = item
     return res
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -58,7 +58,7 @@ cpdef matmul_array(double[:,:,:] vec_a, double[:,:,:] vec_b):
     cdef int cols_A = vec_a.shape[2]
     cdef int rows_B = vec_b.shape[1]
     cdef int cols_B = vec_b.shape[2]
-    cdef double[:,:,:] result=np.empty((l,rows_A,cols_B))
+    cdef double[:,:,:] result=np.zeros((l,rows_A,cols_B))
     for w in range(l):
         for i in range(rows_A):
             for j in range(cols_B):
@@ -78,7 +78,7 @@ cpdef dot_vec_x_array(double[:]vec_a, double[:,:]vec_b):
         item = 0.0
         for j in range(vec_a.shape[0]):
             item += vec_a[j] * vec_b[i, j]
-        res[i] += item
+        res[i] = item
     return res
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -91,7 +91,7 @@ cpdef dot_array_x_vec(double[:,:]vec_a, double[:]vec_b):
         item = 0.0
         for j in range(vec_b.shape[0]):
             item += vec_a[i, j] * vec_b[j]
-        res[i] += item
+        res[i] = item
     return res
 
 @cython.boundscheck(False)
-- 
2.43.0


From ffe53020e9cc7abd2ab72834d16cbb264e56aa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:14 +0000
Subject: [PATCH 038/230] fix: gram_schmidt filled every component with the
 last one

---
 mmcore/numeric/vectors.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 778ab66..1985f20 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -255,7 +255,7 @@ cpdef gram_schmidt(double[:,:]vec_a,
         for j in range(vec_a.shape[1]):
             item_dot += vec_b[i, j] * vec_a[i, j]
         for k in range(vec_a.shape[1]):
-            res[i, k] = vec_b[i, j] - (vec_a[i, j] * item_dot)
+            res[i, k] = vec_b[i, k] - (vec_a[i, k] * item_dot)
     return res
 
 @cython.boundscheck(False)
-- 
2.43.0


From d98f7995ad0a7e7fc7a85147b7186c755427cca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:14 +0000
Subject: [PATCH 039/230] fix: courtesan_to_cylindrical returned the spherical
 radius and angle

---
 mmcore/numeric/vectors.pyx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 1985f20..191b6a3 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -303,12 +303,10 @@ cpdef cylindrical_to_xyz(double[:,:]rpz):
 @cython.cdivision(True)
 cpdef courtesan_to_cylindrical(double[:,:]xyz):
     cdef double[:,:]pts = np.empty((xyz.shape[0], 3))
-    cdef long double XsqPlusYsq
     cdef int i
     for i in range(xyz.shape[0]):
-        XsqPlusYsq = xyz[i, 0] ** 2 + xyz[i, 1] ** 2
-        pts[i, 0] = sqrt(XsqPlusYsq + xyz[i, 2] ** 2)
-        pts[i, 1] = atan2(sqrt(XsqPlusYsq), xyz[i, 2])
+        pts[i, 0] = sqrt(xyz[i, 0] ** 2 + xyz[i, 1] ** 2)
+        pts[i, 1] = atan2(xyz[i, 1], xyz[i, 0])
         pts[i, 2] = xyz[i, 2]
     return pts
 @cython.boundscheck(False)
-- 
2.43.0


From 736ebac7db856bd331fbbcc27fdb7b1281d16871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:14 +0000
Subject: [PATCH 040/230] fix: closest_point_on_ray and closest_point_on_line
 left out the start point

---
 mmcore/numeric/vectors.pyx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 191b6a3..61856d3 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -448,6 +448,9 @@ cpdef closest_point_on_ray( double[:] start, double[:] direction,  double[:] poi
     res[0]=a[0]*direction[0]*direction[0]/directionn + a[1]*direction[0]*direction[1]/directionn + a[2]*direction[0]*direction[2]/directionn
     res[1]=a[0]*direction[0]*direction[1]/directionn + a[1]*direction[1]*direction[1]/directionn + a[2]*direction[1]*direction[2]/directionn
     res[2]=a[0]*direction[0]*direction[2]/directionn + a[1]*direction[1]*direction[2]/directionn + a[2]*direction[2]*direction[2]/directionn
+    res[0]+=start[0]
+    res[1]+=start[1]
+    res[2]+=start[2]
     return res
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -461,7 +464,11 @@ cpdef closest_point_on_line(double[:] start,double[:] end, double[:] point):
     p[0] = point[0] - start[0]
     p[1] = point[1] - start[1]
     p[2] = point[2] - start[2]
-    return vector_projection(p, direction)
+    p = vector_projection(p, direction)
+    p[0] += start[0]
+    p[1] += start[1]
+    p[2] += start[2]
+    return p
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.cdivision(True)
-- 
2.43.0


From 3a0433f5c186ecf120f59c2a0390b7b70e268df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:14 +0000
Subject: [PATCH 041/230] fix: invert_jacobian raised for every stack of
 matrices

---
 mmcore/numeric/vectors.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 61856d3..d296e89 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -419,7 +419,7 @@ cpdef invert_jacobian(J):
 
     else:
         J_inv = np.empty((J.shape[0], 2, 2))
-        status=np.empty((J.shape[0], 2, 2), dtype=np.intc)
+        status=np.empty((J.shape[0],), dtype=np.intc)
         with nogil:
             cinvert_jacobian_vec(J, J_inv,  status)
         return J_inv, status
-- 
2.43.0


From 5fe277719ba0e6fd59eae8cdb791a1a54f32399a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:14 +0000
Subject: [PATCH 042/230] fix: normal_at and plane_on_curve passed vectors to
 functions of arrays of vectors

---
 mmcore/numeric/numeric.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/numeric.py b/mmcore/numeric/numeric.py
index 25ac739..5f89d0b 100644
--- a/mmcore/numeric/numeric.py
+++ b/mmcore/numeric/numeric.py
@@ -32,16 +32,19 @@ def plane_on_curve(O, T, D2):
         plane_on_curve(O, T, D2)
     """
     # Gram-Schmidt process on T and D2 to obtain orthogonal normal
-    N = unit(gram_schmidt(T, D2))
+    N = np.zeros(3)
+    scalar_gram_schmidt(T, D2, N)
+    N = scalar_unit(N)
     # Cross product of T and N to obtain the binormal
-    B = cross(T, N)
+    B = scalar_cross(T, N)
     # Return array containing origin, tangent, normal and binormal
     return np.array([O, T, N, B])
 
 
 def normal_at(D1, D2):
-    N = unit(gram_schmidt(unit(D1), D2))
-    return N
+    N = np.zeros(3)
+    scalar_gram_schmidt(scalar_unit(D1), D2, N)
+    return scalar_unit(N)
 
 
 def swap_z_to_first_der(pln):
-- 
2.43.0


From 094e6f67da07aeeaf7345aa8625f8ace03483af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:53 +0000
Subject: [PATCH 043/230] fix: python NURBS derivatives and surface points
 failed on integer accumulators

---
 mmcore/geom/curves/bspline_utils.py | 4 ++--
 mmcore/geom/curves/curve_utils.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/curves/bspline_utils.py b/mmcore/geom/curves/bspline_utils.py
index f81e236..6e819cc 100644
--- a/mmcore/geom/curves/bspline_utils.py
+++ b/mmcore/geom/curves/bspline_utils.py
@@ -185,7 +185,7 @@ def calc_bspline_derivatives(p, U, P, u, nd):
         CK.append(tmp)
 
     for k in range(du + 1, nd + 2):
-        CK.append(np.array([0, 0, 0, 0]))
+        CK.append(np.array([0., 0., 0., 0.]))
 
     return CK
 
@@ -210,7 +210,7 @@ def calc_surface_point(p, q, U, V, P, u, v):
             point += point_w * Nu[k]
         temp.append(point)
 
-    Sw = np.array([0, 0, 0, 0])
+    Sw = np.array([0., 0., 0., 0.])
     for l in range(q + 1):
         Sw += temp[l] * Nv[l]
     Sw = Sw / Sw[3]
diff --git a/mmcore/geom/curves/curve_utils.py b/mmcore/geom/curves/curve_utils.py
index d770b52..58a4c72 100644
--- a/mmcore/geom/curves/curve_utils.py
+++ b/mmcore/geom/curves/curve_utils.py
@@ -180,7 +180,7 @@ def calc_bspline_derivatives(p, U, P, u, nd):
         CK.append(tmp)
 
     for k in range(du + 1, nd + 2):
-        CK.append(np.array([0, 0, 0, 0]))
+        CK.append(np.array([0., 0., 0., 0.]))
 
     return CK
 
@@ -205,7 +205,7 @@ def calc_surface_point(p, q, U, V, P, u, v):
             point += point_w * Nu[k]
         temp.append(point)
 
-    Sw = np.array([0, 0, 0, 0])
+    Sw = np.array([0., 0., 0., 0.])
     for l in range(q + 1):
         Sw += temp[l] * Nv[l]
     Sw = Sw / Sw[3]
-- 
2.43.0


From efe06ceb2f1d9c56427a2d207ff74fdb24da94ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:43 +0000
Subject: [PATCH 044/230] fix: ParametricSurface.plane_at always raised a
 TypeError

---
 mmcore/geom/parametric.pyx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index acca4d2..f7c863f 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -459,12 +459,17 @@ cdef class ParametricSurface:
     @cython.initializedcheck(False)
     cdef void cplane_at(self, double u, double v, double[:,:] result):
 
+        # typed, because assigning an object to a memoryview slice tries to convert it to a scalar
+        cdef double[:] axis
         orig = self.cevaluate(u, v,result[0] )
         self.cderivative_u(u,v,result[1])
-        result[1,:] = vectors.scalar_unit(result[1])
+        axis = vectors.scalar_unit(result[1])
+        result[1,:] = axis
         self.cderivative_v(u,v,result[3])
-        result[3,:] = vectors.scalar_unit(vectors.scalar_cross(result[1], result[3] ))
-        result[2,:] = vectors.scalar_cross(result[3], result[1])
+        axis = vectors.scalar_unit(vectors.scalar_cross(result[1], result[3] ))
+        result[3,:] = axis
+        axis = vectors.scalar_cross(result[3], result[1])
+        result[2,:] = axis
     @cython.boundscheck(False)
     @cython.wraparound(False)
     @cython.cdivision(True)
-- 
2.43.0


From 266cd5dce501d081c6c80b9335f598e2380c7155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:29 +0000
Subject: [PATCH 045/230] fix: second derivatives of a ParametricSurface were
 off by up to half near the ends of the domain

---
 mmcore/geom/parametric.pyx | 69 ++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 41 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index f7c863f..5d20a2c 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -374,53 +374,40 @@ cdef class ParametricSurface:
     @cython.cdivision(True)
     @cython.initializedcheck(False)
     cdef void csecond_derivative_uu(self, double u, double v,double[:] result):
-        cdef double[:] dd=np.empty((3,))
-        if (1. - DEFAULT_H) >= u >= DEFAULT_H:
-            self.cderivative_u(u + DEFAULT_H, v, dd)
-            self.cderivative_u(u- DEFAULT_H , v, result)
-            sub3d(dd,result,result)
-            vectors.scalar_div3d(result,2*DEFAULT_H,result)
-
-        elif u < DEFAULT_H:
-
-
-            self.cderivative_u(u + DEFAULT_H, v, dd)
-            self.cderivative_u(u , v, result)
-            sub3d(dd,result,result)
-            vectors.scalar_div3d(result,DEFAULT_H,result)
-
+        # three equidistant points around the parameter, moved inwards at the ends of the domain
+        cdef double[:] d0=np.empty((3,))
+        cdef double[:] d2=np.empty((3,))
+        cdef double c=u
+        cdef int k
+        if c < DEFAULT_H:
+            c+=DEFAULT_H
+        elif c > 1. - DEFAULT_H:
+            c-=DEFAULT_H
+        self.cevaluate(c - DEFAULT_H, v, d0)
+        self.cevaluate(c, v, result)
+        self.cevaluate(c + DEFAULT_H, v, d2)
+        for k in range(3):
+            result[k] = (d0[k] - 2*result[k] + d2[k])/(DEFAULT_H*DEFAULT_H)
 
-        else:
-            self.cderivative_u(u , v, dd)
-            self.cderivative_u(u- DEFAULT_H, v, result)
-            sub3d(dd, result, result)
-            vectors.scalar_div3d(result, DEFAULT_H, result)
     @cython.boundscheck(False)
     @cython.wraparound(False)
     @cython.cdivision(True)
     @cython.initializedcheck(False)
     cdef void csecond_derivative_vv(self, double u, double v,double[:] result):
-        cdef double[:] dd=np.empty((3,))
-        if (1. - DEFAULT_H) >= v >= DEFAULT_H:
-            self.cderivative_v(u , v+ DEFAULT_H, dd)
-            self.cderivative_v(u , v- DEFAULT_H, result)
-            sub3d(dd,result,result)
-            vectors.scalar_div3d(result,2*DEFAULT_H,result)
-
-        elif v< DEFAULT_H:
-
-
-            self.cderivative_v(u , v+ DEFAULT_H, dd)
-            self.cderivative_v(u , v, result)
-            sub3d(dd,result,result)
-            vectors.scalar_div3d(result,DEFAULT_H,result)
-
-
-        else:
-            self.cderivative_v(u , v, dd)
-            self.cderivative_v(u, v- DEFAULT_H, result)
-            sub3d(dd, result, result)
-            vectors.scalar_div3d(result, DEFAULT_H, result)
+        # three equidistant points around the parameter, moved inwards at the ends of the domain
+        cdef double[:] d0=np.empty((3,))
+        cdef double[:] d2=np.empty((3,))
+        cdef double c=v
+        cdef int k
+        if c < DEFAULT_H:
+            c+=DEFAULT_H
+        elif c > 1. - DEFAULT_H:
+            c-=DEFAULT_H
+        self.cevaluate(u, c - DEFAULT_H, d0)
+        self.cevaluate(u, c, result)
+        self.cevaluate(u, c + DEFAULT_H, d2)
+        for k in range(3):
+            result[k] = (d0[k] - 2*result[k] + d2[k])/(DEFAULT_H*DEFAULT_H)
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
-- 
2.43.0


From fb8c9c4746e09a6fba89556229693263cbef17d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:44 +0000
Subject: [PATCH 046/230] fix: knot_removal deformed curves of degree above two

---
 mmcore/geom/nurbs.pyx | 44 +++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index c54f998..4f740ed 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -597,26 +597,28 @@ cpdef knot_removal(int degree, double[:] knotvector, double[:, :] ctrlpts, doubl
 
     cdef double* temp = <double*>malloc(sizeof(double) * ((2 * degree) + 1) * dim)
 
-    cdef int t, i, j, ii, jj, k
+    cdef int t=0
+    cdef int i, j, ii, jj, k
     cdef bint remflag
     cdef double alpha_i, alpha_j
     cdef double[:] ptn = np.zeros(dim, dtype=np.float64)
 
-    for t in range(num):
-        memcpy(&temp[0], &ctrlpts[first - 1, 0], sizeof(double) * dim)
-        memcpy(&temp[(last - first + 2) * dim], &ctrlpts[last + 1, 0], sizeof(double) * dim)
+    # Algorithm A5.8: every removal continues from the points left by the previous one
+    while t < num and t < s:
+        memcpy(&temp[0], &ctrlpts_new[first - 1, 0], sizeof(double) * dim)
+        memcpy(&temp[(last - first + 2) * dim], &ctrlpts_new[last + 1, 0], sizeof(double) * dim)
         i = first
         j = last
         ii = 1
         jj = last - first + 1
         remflag = False
 
-        while j - i >= t:
+        while j - i > t:
             alpha_i = knot_removal_alpha_i(u, degree, knotvector, t, i)
             alpha_j = knot_removal_alpha_j(u, degree, knotvector, t, j)
             for k in range(dim):
-                temp[ii * dim + k] = (ctrlpts[i, k] - (1.0 - alpha_i) * temp[(ii - 1) * dim + k]) / alpha_i
-                temp[jj * dim + k] = (ctrlpts[j, k] - alpha_j * temp[(jj + 1) * dim + k]) / (1.0 - alpha_j)
+                temp[ii * dim + k] = (ctrlpts_new[i, k] - (1.0 - alpha_i) * temp[(ii - 1) * dim + k]) / alpha_i
+                temp[jj * dim + k] = (ctrlpts_new[j, k] - alpha_j * temp[(jj + 1) * dim + k]) / (1.0 - alpha_j)
             i += 1
             j -= 1
             ii += 1
@@ -629,35 +631,37 @@ cpdef knot_removal(int degree, double[:] knotvector, double[:, :] ctrlpts, doubl
             alpha_i = knot_removal_alpha_i(u, degree, knotvector, t, i)
             for k in range(dim):
                 ptn[k] = (alpha_i * temp[(ii + t + 1) * dim + k]) + ((1.0 - alpha_i) * temp[(ii - 1) * dim + k])
-            if point_distance(&ctrlpts[i, 0], &ptn[0], dim) <= tol:
+            if point_distance(&ctrlpts_new[i, 0], &ptn[0], dim) <= tol:
                 remflag = True
 
-        if remflag:
-            i = first
-            j = last
-            while j - i > t:
-                memcpy(&ctrlpts_new[i, 0], &temp[(i - first + 1) * dim], sizeof(double) * dim)
-                memcpy(&ctrlpts_new[j, 0], &temp[(j - first + 1) * dim], sizeof(double) * dim)
-                i += 1
-                j -= 1
+        if not remflag:
+            break
+
+        i = first
+        j = last
+        while j - i > t:
+            memcpy(&ctrlpts_new[i, 0], &temp[(i - first + 1) * dim], sizeof(double) * dim)
+            memcpy(&ctrlpts_new[j, 0], &temp[(j - first + 1) * dim], sizeof(double) * dim)
+            i += 1
+            j -= 1
 
         first -= 1
         last += 1
+        t += 1
 
-    t += 1
     j = (2 * r - s - degree) // 2
     i = j
-    for k in range(1, t):
+    for k in range(1, num):
         if k % 2 == 1:
             i += 1
         else:
             j -= 1
     for k in range(i + 1, n):
-        memcpy(&ctrlpts_new[j, 0], &ctrlpts[k, 0], sizeof(double) * dim)
+        memcpy(&ctrlpts_new[j, 0], &ctrlpts_new[k, 0], sizeof(double) * dim)
         j += 1
 
     free(temp)
-    return np.asarray(ctrlpts_new[:-t])
+    return np.asarray(ctrlpts_new[:n - num])
 
 
 @cython.boundscheck(False)
-- 
2.43.0


From fc8ae228bcbf28f0be9be4b39def58af0328bb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:44 +0000
Subject: [PATCH 047/230] fix: knot_refinement read past its knot list for a
 density above two, and leaked it

---
 mmcore/geom/nurbs.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 4f740ed..8d06a62 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -684,9 +684,13 @@ cpdef tuple knot_refinement(int degree, double[:] knotvector, double[:, :] ctrlp
     cdef int usz=knot_list.shape[0]
     cdef int new_knot_len
 
+    # uniqueSorted sorts its argument in place, and its result belongs to the caller
+    knot_list = knot_list.copy()
     cdef double* sorted_knots=uniqueSorted(&knot_list[0],usz, &new_knot_len )
 
-    knot_list = <double[:new_knot_len]>sorted_knots
+    knot_list = np.array(<double[:new_knot_len]>sorted_knots)
+    free(sorted_knots)
+    usz = new_knot_len
 
 
     cdef double[:] rknots
@@ -700,7 +704,7 @@ cpdef tuple knot_refinement(int degree, double[:] knotvector, double[:, :] ctrlp
             rknots[2 * i] = knot_list[i]
             rknots[2 * i + 1] = knot_list[i] + (knot_list[i + 1] - knot_list[i]) / 2.0
 
-        rknots[rknots_size-1] = knot_list[new_knot_len-1]
+        rknots[rknots_size-1] = knot_list[usz-1]
         knot_list = rknots
         usz = rknots_size
     cdef double[:] X = np.zeros(knot_list.shape[0] * degree, dtype=np.float64)
-- 
2.43.0


From 07d73b715bda8679fbc60baa9ccddd9cc5519695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:44 +0000
Subject: [PATCH 048/230] fix: quicksort.unique reallocated the buffer of the
 array it was given

---
 mmcore/numeric/algorithms/_unique.c | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/mmcore/numeric/algorithms/_unique.c b/mmcore/numeric/algorithms/_unique.c
index 5d6c927..99a1554 100644
--- a/mmcore/numeric/algorithms/_unique.c
+++ b/mmcore/numeric/algorithms/_unique.c
@@ -100,7 +100,6 @@ int uniqueSortedByRef(double *arr, int n, int *new_len, double *result) {
     }
     if (n == 1) {
         *new_len = 1;
-        result = (double*)realloc(result, sizeof(double));
         result[0] = arr[0];
         return 1;
     }
@@ -108,8 +107,7 @@ int uniqueSortedByRef(double *arr, int n, int *new_len, double *result) {
     // Sort the array
     qsort(arr, n, sizeof(double), compare2);
 
-    // Allocate memory for the unique sorted array
-    result = (double*)realloc(result,n * sizeof(double));
+    // The result belongs to the caller and has room for n elements
     int j = 0;
 
     // Add the first element
@@ -122,8 +120,6 @@ int uniqueSortedByRef(double *arr, int n, int *new_len, double *result) {
         }
     }
 
-    // Resize the memory to match the number of unique elements
-    result = (double*)realloc(result, j * sizeof(double));
     *new_len = j;
 
     return 1;
@@ -181,8 +177,7 @@ void uniqueSortedIntEmplace(int *arr, int n, int *new_len,int *unique_arr ) {
     }
     if (n == 1) {
         *new_len = 1;
-        int *result = (int*)malloc(sizeof(int));
-        result[0] = arr[0];
+        unique_arr[0] = arr[0];
         return ;
     }
 
@@ -203,9 +198,5 @@ void uniqueSortedIntEmplace(int *arr, int n, int *new_len,int *unique_arr ) {
         }
     }
 
-    // Resize the memory to match the number of unique elements
-    unique_arr = (int*)realloc(unique_arr, j * sizeof(int));
     *new_len = j;
-
-   
 }
-- 
2.43.0


From ad91af9290407816c880cddb43dc6b83896f78c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:26 +0000
Subject: [PATCH 049/230] fix: join_two_curves built a knot vector that is too
 long and dropped the weights

---
 mmcore/geom/curves/knot.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index 22b89cf..09f36b4 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -1155,8 +1155,8 @@ def join_two_curves(curve1:NURBSCurve, curve2:NURBSCurve,tol:float=1e-5):
     degree = curve1.degree  # Now both curves have same degree
 
     # Get control points and weights
-    cpts1 = curve1.control_points
-    cpts2 = curve2.control_points
+    cpts1 = np.array(curve1.control_pointsw)
+    cpts2 = np.array(curve2.control_pointsw)
 
     # Create new knot vector by joining and scaling
     knots1 = curve1.knots
@@ -1166,8 +1166,11 @@ def join_two_curves(curve1:NURBSCurve, curve2:NURBSCurve,tol:float=1e-5):
 
 
     # Combine knot vectors
-    print(knots1,knots1.max()+knots2-knots2.min())
-    new_knots = np.concatenate([knots1,knots1.max()+knots2-knots2.min()])
+    # the joint becomes an interior knot of multiplicity equal to the degree
+    new_knots = np.concatenate([knots1[:-1], (knots1.max() + knots2 - knots2.min())[degree + 1:]])
+
+    # A projective scale does not change a curve, the weights have to agree at the joint
+    cpts2[:, 3] *= cpts1[-1, 3] / cpts2[0, 3]
 
     # Combine control points, merging the connecting points
     new_cpts = np.vstack([
-- 
2.43.0


From 85fdeda1d0c52e77de493a7a194fb8129b26f927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:46 +0000
Subject: [PATCH 050/230] fix: knot_refinement2 did not keep the shape of the
 curve

---
 mmcore/geom/curves/knot.py | 83 +++++++++++++-------------------------
 1 file changed, 28 insertions(+), 55 deletions(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index 09f36b4..5b06887 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -1021,69 +1021,42 @@ def knot_refinement2(n, p, U, Pw, X):
     Pw = np.array(Pw, dtype=float)
     X = np.array(X, dtype=float)
 
-    # Get number of new knots
+    if len(X) == 0:
+        return Pw, U
+
+    # Algorithm A5.4: everything outside of the spans [a, b] is copied
     r = len(X) - 1
     m = n + p + 1
-
-    # Initialize new arrays
-    nq = n + r + 1
-    Qw = np.zeros((nq + 1, Pw.shape[1]))
-    Ubar = np.zeros(len(U) + len(X))
-
-    # Save unaltered control points and knots
-    for i in range(0, p + 1):
-        Qw[i] = Pw[i]
-    for i in range(n - p, n + 1):
-        Qw[i + r + 1] = Pw[i]
-    for i in range(0, p + 1):
-        Ubar[i] = U[0]
-    for i in range(len(U) - p - 1, len(U)):
-        Ubar[i + r + 1] = U[-1]
-
-    # Initialize variables for refinement
-    i = p
-    j = r
-    k = p + 1
-
-    # Initialize local arrays
-    Rw = np.zeros((p + 1, Pw.shape[1]))
-
-    # Main refinement loop
-    while j >= 0:  # Insert knots
-        while X[j] <= U[i] and i > 0:
-            Qw[k] = Pw[i - 1]
+    a = find_knot_span(n, p, X[0], U)
+    b = find_knot_span(n, p, X[r], U) + 1
+
+    Qw = np.zeros((n + r + 2, Pw.shape[1]))
+    Ubar = np.zeros(m + r + 2)
+    Qw[:a - p + 1] = Pw[:a - p + 1]
+    Qw[b + r:] = Pw[b - 1:]
+    Ubar[:a + 1] = U[:a + 1]
+    Ubar[b + p + r + 1:] = U[b + p:]
+
+    # Insert the knots from the last one to the first one
+    i = b + p - 1
+    k = b + p + r
+    for j in range(r, -1, -1):
+        while X[j] <= U[i] and i > a:
+            Qw[k - p - 1] = Pw[i - p - 1]
             Ubar[k] = U[i]
             k -= 1
             i -= 1
-
-        # Save current control point
-        for l in range(p, -1, -1):
-            Rw[l] = Pw[i - p + l]
-
-        # Insert knot
+        Qw[k - p - 1] = Qw[k - p]
         for l in range(1, p + 1):
-            if i - p + l <= 0:
-                continue
-
-            # Compute alpha
-            alpha = (X[j] - U[i - p + l]) / (U[i + l] - U[i - p + l])
-
-            # Update control points
-            Rw[l] = alpha * Rw[l] + (1.0 - alpha) * Rw[l - 1]
-
-        # Load refined control points into final array
-        Qw[k] = Rw[p]
+            ind = k - p + l
+            alpha = Ubar[k + l] - X[j]
+            if alpha == 0.:
+                Qw[ind - 1] = Qw[ind]
+            else:
+                alpha = alpha / (Ubar[k + l] - U[i - p + l])
+                Qw[ind - 1] = alpha * Qw[ind - 1] + (1.0 - alpha) * Qw[ind]
         Ubar[k] = X[j]
-
-        k -= 1
-        j -= 1
-
-    # Set remaining control points and knots
-    while i > 0:
-        Qw[k] = Pw[i - 1]
-        Ubar[k] = U[i]
         k -= 1
-        i -= 1
 
     return Qw, Ubar
 
-- 
2.43.0


From a457dfc498731858624d30aa31ce5de6cba24d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:57 +0000
Subject: [PATCH 051/230] fix: the ruled surface between rational curves did
 not pass through them

---
 mmcore/construction/ruled.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/construction/ruled.py b/mmcore/construction/ruled.py
index 2219680..d738e00 100644
--- a/mmcore/construction/ruled.py
+++ b/mmcore/construction/ruled.py
@@ -91,6 +91,9 @@ def ruled(curve1:NURBSCurve, curve2:NURBSCurve):
         control_points[i, 0] = np.array(c1._control_points)[i]
         control_points[i, 1] = np.array(c2._control_points)[i]
 
+    # A surface holds homogeneous control points, a curve holds points and weights
+    control_points[..., :3] *= control_points[..., 3:]
+
     # Create surface knot vectors
     u_knots = c1.knots  # Same for both curves now
     v_knots = np.array([0., 0., 1., 1.])  # Linear interpolation in v direction
-- 
2.43.0


From e04381a3e818a3839220d00a466ef4fcafc7d9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:11 +0000
Subject: [PATCH 052/230] fix: isocurves extracted from a rational NURBSSurface
 did not lie on it

---
 mmcore/numeric/intersection/ssx/boundary_intersection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/intersection/ssx/boundary_intersection.py b/mmcore/numeric/intersection/ssx/boundary_intersection.py
index 9cbedfd..97617a5 100644
--- a/mmcore/numeric/intersection/ssx/boundary_intersection.py
+++ b/mmcore/numeric/intersection/ssx/boundary_intersection.py
@@ -264,7 +264,10 @@ def extract_isocurve(
             for j in range(degree_u + 1):  # combine with basis functions
                 control_points[i] += basis[j] * surface.control_points_w[span - degree_u + j, i]
 
-            # Return curve with v-direction degree and knots since we're varying in v
+        # A surface holds homogeneous control points, a curve holds points and weights
+        control_points[:, :3] /= control_points[:, 3:]
+
+        # Return curve with v-direction degree and knots since we're varying in v
 
         cc=NURBSCurve(control_points, degree=surface.degree[1],knots=surface.knots_v)
         #cc.knots=surface.knots_v
@@ -293,6 +296,8 @@ def extract_isocurve(
         for i in range(m):  # iterate over u direction
             for j in range(degree_v + 1):  # combine with basis functions
                 control_points[i] += basis[j] * surface.control_points_w[i, span - degree_v + j]
+
+        control_points[:, :3] /= control_points[:, 3:]
         cc = NURBSCurve(control_points, surface.degree[0],surface.knots_u)
         #print('i',cc.knots,cc.interval())
         #cc.knots = surface.knots_u
-- 
2.43.0


From d76ff0369bffdfa69c783390f6bad85606705ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:11 +0000
Subject: [PATCH 053/230] fix: NURBSSurface.insert_knot_u and insert_knot_v
 wrote out of bounds when the multiplicity exceeded the degree

---
 mmcore/geom/nurbs.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 8d06a62..ebe68c8 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2661,6 +2661,10 @@ cdef class NURBSSurface(ParametricSurface):
     cpdef void insert_knot_u(self, double t, int count):
         cdef int v
 
+        # more than degree equal interior knots would write past the control points
+        if count > self._degree[0] - find_multiplicity(t, self._knots_u, 1e-12):
+            raise ValueError("The multiplicity of a knot cannot exceed the degree.")
+
         cdef int new_count_u = self._size[0] + count
         cdef int new_count_v = self._size[1]
 
@@ -2721,6 +2725,9 @@ cdef class NURBSSurface(ParametricSurface):
     cpdef void insert_knot_v(self, double t, int count) :
         cdef int u
 
+        # more than degree equal interior knots would write past the control points
+        if count > self._degree[1] - find_multiplicity(t, self._knots_v, 1e-12):
+            raise ValueError("The multiplicity of a knot cannot exceed the degree.")
 
         cdef int new_count_u = self._size[0]
         cdef int new_count_v = self._size[1] + count
-- 
2.43.0


From b8f9e8616813e4330538bcb771225dad3a7ccffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:44 +0000
Subject: [PATCH 054/230] fix: NURBSCurve.serialize appended four bytes of
 uninitialised memory

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index ebe68c8..5e94798 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1870,7 +1870,7 @@ cdef class NURBSCurve(ParametricCurve):
 
         # Calculate total size of the byte array
         cdef size_t total_size = (
-            sizeof(MAGIC_BYTES) +
+            MAGIC_BYTES_SIZE +
             sizeof(uint32_t) + # Magic bytes and version
             sizeof(uint32_t) +  # degree
             sizeof(bint) +  # periodic flag
-- 
2.43.0


From fab2c0d84e9a8b5b2b533042ff43917f9cf6af02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:44 +0000
Subject: [PATCH 055/230] fix: NURBSCurve.deserialize read past the end of
 truncated data

---
 mmcore/geom/nurbs.pyx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 5e94798..74ee3b8 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1959,6 +1959,10 @@ cdef class NURBSCurve(ParametricCurve):
         cdef const char* buffer = <const char*>&data[0]
         cdef const char* current = buffer
         cdef int vers
+        # magic bytes, version, degree, periodic flag and the two counts
+        cdef Py_ssize_t header_size = MAGIC_BYTES_SIZE + 5 * sizeof(uint32_t)
+        if data.shape[0] < header_size:
+            raise ValueError("Truncated data")
         # Check magic bytes and version
         if memcmp(current, MAGIC_BYTES, MAGIC_BYTES_SIZE) != 0:
             raise ValueError(f"Invalid magic bytes: {current}")
@@ -1980,6 +1984,10 @@ cdef class NURBSCurve(ParametricCurve):
         cdef int n_knots = (<uint32_t*>current)[0]
         current += sizeof(uint32_t)
 
+        if (n_ctrlpts <= 0 or n_knots <= 0 or data.shape[0] - header_size <
+                (<Py_ssize_t> n_ctrlpts * 4 + <Py_ssize_t> n_knots) * <Py_ssize_t> sizeof(double)):
+            raise ValueError("Truncated data")
+
         # Allocate memory for control points and knots
         cdef double* control_points_data = <double*>malloc(n_ctrlpts * 4 * sizeof(double))
         cdef double* knots_data = <double*>malloc(n_knots * sizeof(double))
-- 
2.43.0


From 41b7c3c179f6dac3311e2eb515d909422ca91614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:44 +0000
Subject: [PATCH 056/230] fix: NURBSCurve.set aliased the arrays it was given

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 74ee3b8..49a5394 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1502,8 +1502,8 @@ cdef class NURBSCurve(ParametricCurve):
 
 
     cpdef set(self, double[:,:] control_points, double[:] knots ):
-        self._control_points=control_points
-        self._knots=knots
+        self._control_points=control_points.copy()
+        self._knots=knots.copy()
         self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
-- 
2.43.0


From 437640d924ffc57ab3d0514c8d4e702f5b0936be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:03 +0000
Subject: [PATCH 057/230] fix: aabb of points with more than three coordinates
 wrote past its result

---
 mmcore/numeric/_aabb.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/_aabb.pyx b/mmcore/numeric/_aabb.pyx
index 8b386e4..140e10d 100644
--- a/mmcore/numeric/_aabb.pyx
+++ b/mmcore/numeric/_aabb.pyx
@@ -83,7 +83,7 @@ cdef inline void caabb(double[:,:] points, double[:] min_point, double[:] max_po
 @cython.cdivision(True)
 def aabb(double[:,:] pts, double[:,:] bb=None):
     if bb is None:
-        bb   =np.zeros((2,3))
+        bb   =np.zeros((2,max(3,pts.shape[1])))
 
     caabb(pts,bb[0],bb[1])
     return bb
-- 
2.43.0


From 962d44c6490ed6046bbc529ae34b439c442752f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:03 +0000
Subject: [PATCH 058/230] fix: ray_aabb_intersect cut the ray off at its
 direction vector

---
 mmcore/numeric/_aabb.pyx | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mmcore/numeric/_aabb.pyx b/mmcore/numeric/_aabb.pyx
index 140e10d..65f3ac6 100644
--- a/mmcore/numeric/_aabb.pyx
+++ b/mmcore/numeric/_aabb.pyx
@@ -303,8 +303,6 @@ def ray_aabb_intersect(
 
             if tmin<= 0:
                 tmin = 0.
-            if tmax >= 1.:
-                tmax = 1.
             return [tmin,tmax]
 
     else:
-- 
2.43.0


From 89b4c3cb2bf9a2c7257d46465db205b83158e2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:03 +0000
Subject: [PATCH 059/230] fix: BoundingBox.split cut outside the box and left
 the halves' extents stale

---
 mmcore/geom/bvh/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index ba4fcb0..76dd0c0 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -30,10 +30,10 @@ class BoundingBox:
         self._arr=np.array([self.min_point, self.max_point], dtype=float)
 
     def split(self, axis=0, parameter=0.5):
-        left = BoundingBox(np.copy(self.min_point), np.copy(self.max_point))
-        right = BoundingBox(np.copy(self.min_point), np.copy(self.max_point))
-        right.min_point[axis] = left.max_point[axis] = (self.min_point[axis] + self.max_point[axis])*parameter
-        return left, right
+        left_max = np.copy(self.max_point)
+        right_min = np.copy(self.min_point)
+        right_min[axis] = left_max[axis] = self.min_point[axis] + (self.max_point[axis] - self.min_point[axis])*parameter
+        return BoundingBox(self.min_point, left_max), BoundingBox(right_min, self.max_point)
 
     def get_corners(self):
         return get_aabb_corners_numpy(self.min_point, self.max_point)
-- 
2.43.0


From 0cc88e9456b166842f2f770e2b1b597bba85c7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:03 +0000
Subject: [PATCH 060/230] fix: BoundingBox.evaluate returned points outside the
 box

---
 mmcore/geom/bvh/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 76dd0c0..55e46f8 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -58,7 +58,7 @@ class BoundingBox:
         return list(reduce(lambda x,y: x+y, (item.split(axis1, parameter1) for item in self.split4(axis2, axis3, parameter2, parameter3))))
 
     def evaluate(self, uvh):
-        return (self.min_point + self.max_point)*uvh
+        return self.min_point + (self.max_point - self.min_point)*uvh
 
     def centroid(self):
         return (self.min_point + self.max_point)*0.5
-- 
2.43.0


From 34c93f4944edd801a0ee2b44ebf8e0bd8a797812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:03 +0000
Subject: [PATCH 061/230] fix: BoundingBox.expand left centre, dimensions and
 intersection tests stale

---
 mmcore/geom/bvh/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 55e46f8..1f2cb3b 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -117,6 +117,9 @@ class BoundingBox:
         )
         self.min_point[:]=new_min
         self.max_point[:]=new_max
+        self.center = (self.min_point + self.max_point) * 0.5
+        self.dims = self.max_point - self.min_point
+        self._arr = np.array([self.min_point, self.max_point], dtype=float)
 
     def contains_point(self, point):
         return bool(np.all(self.min_point<=point)and np.all(point<=self.max_point))
-- 
2.43.0


From 8dc8f4082a0abd30e3d990e1b27d824b0a05f922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:03 +0000
Subject: [PATCH 062/230] fix: bvh_ray_intersection always raised a TypeError

---
 mmcore/geom/bvh/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 1f2cb3b..1e5ef51 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -847,7 +847,7 @@ def bvh_ray_intersection(bvh:BVHNode, ray:Ray):
              intersects, or an empty list if no intersections are found.
     :rtype: list
     """
-    segm=segment_aabb_clip(bvh.bounding_box._arr, ray._arr)
+    segm=segment_aabb_clip(bvh.bounding_box._arr, ray._arr, np.empty((2,3)))
     if segm is None:
         return []
     else:
-- 
2.43.0


From 0a113e5278d27b8f8d3401a2198a2b1cf6ff7ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:03 +0000
Subject: [PATCH 063/230] fix: intersections with meshes missed triangles in
 flat boxes or on the faces of boxes

---
 mmcore/geom/bvh/__init__.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 1e5ef51..771d066 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -782,9 +782,8 @@ def bvh_triangle_segment_intersection_one(bvh: BVHNode, segment:NDArray[float]|S
         if not aabb_intersect_fast_3d(current_bvh.bounding_box._arr,bb):
             continue
         out = np.empty((2, 3))
-        current_segment = segment_aabb_clip(current_bvh.bounding_box._arr, segment,out )
-
-        if current_segment is None:
+        # only a test: the clipped segment has no length in a flat box and may end just short of the triangles
+        if segment_aabb_clip(current_bvh.bounding_box._arr, segment,out ) is None:
             continue
 
         if current_bvh.object is not None:
@@ -888,12 +887,12 @@ def mesh_bvh_ray_intersection(triangles_bvh:BVHNode,ray:Ray):
     :rtype: list[tuple[Point, Triangle, float]]
     """
     maybe = []
-    segment_out = np.empty((2,3))
-    segment = segment_aabb_clip(triangles_bvh.bounding_box._arr, ray._arr,segment_out)
-    if segment is None:
-        return maybe
-    segment=segment_out
-    direction=segment[1]-segment[0]
+    # a segment that reaches past the box: one clipped to the box would end exactly on the triangles of its faces
+    # and have no length at all in a flat box
+    box = triangles_bvh.bounding_box
+    direction=np.array(scalar_unit(ray.direction/np.max(np.abs(ray.direction))))
+    reach=scalar_norm(box.center-ray.start)+scalar_norm(box.dims)+1.
+    segment=np.array([ray.start,ray.start+direction*reach])
 
     for tri,segm in bvh_segment_intersection(triangles_bvh,segment):
 
-- 
2.43.0


From 4f9caf1d9bfc9640a2ef28f0d9f99b0d88348bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:03 +0000
Subject: [PATCH 064/230] fix: find_closest followed the nearer box even when
 it did not hold the nearest object

---
 mmcore/geom/bvh/__init__.py | 58 ++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 36 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 771d066..077f982 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -550,42 +550,28 @@ def _find_closest_vicinity(bvh:BVHNode, point:NDArray[float])-> tuple[list[Objec
         raise ValueError(f"Empty BVH node with bbox: {bvh.bounding_box._arr.tolist()}")
 
 def _find_closest_breadth(bvh:BVHNode, point:NDArray[float])->tuple[list[Object3D],float]:
-    if bvh.object is not None:
-        return [bvh.object],sd_aabb( bvh.bounding_box._arr,point )
-
-    if (bvh.left is not None) and (bvh.right is None):
-        return _find_closest_breadth(bvh.left, point)
-    elif (bvh.left is None) and (bvh.right is not None):
-        return _find_closest_breadth(bvh.right, point)
-    elif  (bvh.left is  None) and (bvh.right is  None):
-        raise ValueError(f"Empty BVH node with bbox: {bvh.bounding_box._arr.tolist()}")
-    elif (bvh.left is not None) and (bvh.right  is not None):
-        left_sd=sd_aabb(bvh.left.bounding_box._arr, point)
-        right_sd = sd_aabb(bvh.right.bounding_box._arr, point)
-        if left_sd<right_sd:
-            return _find_closest_breadth(
-                bvh.left,point
-            )
-        elif left_sd>right_sd:
-            return _find_closest_breadth(
-                bvh.right,point
-            )
-        else:
-            left_obj, left_sd=_find_closest_breadth(
-                bvh.left, point
-            )
-            right_obj, right_sd=_find_closest_breadth(
-                bvh.right, point
-            )
-            if left_sd<right_sd:
-                return left_obj,left_sd
-            elif left_sd>right_sd:
-                return right_obj,right_sd
-            else:
-                return left_obj+right_obj,left_sd
-
-    else:
-        raise ValueError(f"Unknown condition: {bvh.bounding_box._arr.tolist()}, {bvh.left},{bvh.right}")
+    # the signed distance to the box of a node bounds those of all boxes in it from below, but the nearer of two
+    # boxes need not hold the nearer object, so a subtree is only left out when it cannot hold a nearer one
+    objects: list[Object3D] = []
+    best = np.inf
+    stack = [(bvh, sd_aabb(bvh.bounding_box._arr, point))]
+    while stack:
+        node, sd = stack.pop()
+        if sd > best:
+            continue
+        if node.object is not None:
+            if sd < best:
+                best = sd
+                objects = []
+            objects.append(node.object)
+            continue
+        children = [(child, sd_aabb(child.bounding_box._arr, point)) for child in (node.left, node.right) if child is not None]
+        if len(children) == 0:
+            raise ValueError(f"Empty BVH node with bbox: {node.bounding_box._arr.tolist()}")
+        # the nearer child is visited first
+        children.sort(key=lambda item: item[1], reverse=True)
+        stack.extend(children)
+    return objects, best
 
 def find_closest(bvh:BVHNode, point:NDArray[float], breadth:bool=True)->tuple[list[Object3D],float]|None:
     if breadth:
-- 
2.43.0


From e9f44bcdb05337889110473fad885f15947b1041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:00 +0000
Subject: [PATCH 065/230] fix: bounding boxes created or copied from their
 corners had minimum and maximum swapped

---
 mmcore/api/bbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/api/bbox.py b/mmcore/api/bbox.py
index 0231453..ebada0a 100644
--- a/mmcore/api/bbox.py
+++ b/mmcore/api/bbox.py
@@ -75,8 +75,8 @@ class BaseBoundingBox(Base, metaclass=ABCMeta):
         Returns the new bounding box.
         """
         self = cls()
-        self.max = cls.__point_class__.cast(min_point)
-        self.min = cls.__point_class__.cast(max_point)
+        self.min = cls.__point_class__.cast(min_point)
+        self.max = cls.__point_class__.cast(max_point)
         return self
 
     @classmethod
-- 
2.43.0


From f0472f84a9420d62800a26d39494386220b48072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:00 +0000
Subject: [PATCH 066/230] fix: BoundingBox3D.contains ignored the z coordinate

---
 mmcore/api/bbox.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/api/bbox.py b/mmcore/api/bbox.py
index ebada0a..9bd108e 100644
--- a/mmcore/api/bbox.py
+++ b/mmcore/api/bbox.py
@@ -321,7 +321,9 @@ class BoundingBox3D(BaseBoundingBox, point_class=Point3D):
         """
 
         return (
-            self.max.x >= point.x >= self.min.x and self.max.y >= point.y >= self.min.y
+            self.max.x >= point.x >= self.min.x
+            and self.max.y >= point.y >= self.min.y
+            and self.max.z >= point.z >= self.min.z
         )
 
     def expand(self, point: Point3D) -> bool:
-- 
2.43.0


From 3611795b47bc6180323bc7c447193eb9068e0483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:00 +0000
Subject: [PATCH 067/230] fix: BoundingBox2D could not be created from points

---
 mmcore/api/bbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/api/bbox.py b/mmcore/api/bbox.py
index 9bd108e..f4df912 100644
--- a/mmcore/api/bbox.py
+++ b/mmcore/api/bbox.py
@@ -206,7 +206,7 @@ class BoundingBox2D(BaseBoundingBox, point_class=Point2D):
         return u * v
 
     def set_from_array(self, pts: np.ndarray):
-        (self.min.x, self.min.y), (self.max.x, self.max.y) = aabb(pts)
+        (self.min.x, self.min.y), (self.max.x, self.max.y) = np.asarray(aabb(pts))[:, :2]
 
     def contains(self, point: Point2D) -> bool:
         """
-- 
2.43.0


From 7dc9e60ce9f69503bf5896acfdc837386042128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:10 +0000
Subject: [PATCH 068/230] fix: BoundingBox2D.intersection failed unless a
 corner of one box was inside the other

---
 mmcore/api/bbox.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mmcore/api/bbox.py b/mmcore/api/bbox.py
index f4df912..d77040f 100644
--- a/mmcore/api/bbox.py
+++ b/mmcore/api/bbox.py
@@ -273,14 +273,15 @@ class BoundingBox2D(BaseBoundingBox, point_class=Point2D):
         return True
 
     def intersection(self, other: BoundingBox2D):
-        pts = []
-        for pt in self.to_vertices():
-            if other.contains(Point2D.cast(pt)):
-                pts.append(pt)
-        for pt in other.to_vertices():
-            if self.contains(Point2D.cast(pt)):
-                pts.append(pt)
-        return BoundingBox2D.create_from_array(np.array(pts))
+        # If the bounding boxes do not intersect, return None.
+        if not self.intersects(other):
+            return None
+        b = BoundingBox2D()
+        b.min.x = max(self.min.x, other.min.x)
+        b.min.y = max(self.min.y, other.min.y)
+        b.max.x = min(self.max.x, other.max.x)
+        b.max.y = min(self.max.y, other.max.y)
+        return b
 
 
 class BoundingBox3D(BaseBoundingBox, point_class=Point3D):
-- 
2.43.0


From 55ccb81a95f1b459b1c4043cbfac6b1df1c9c736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:24 +0000
Subject: [PATCH 069/230] fix: divide_interval ran past the end when the step
 does not divide the interval

---
 mmcore/numeric/routines/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/routines/__init__.py b/mmcore/numeric/routines/__init__.py
index 64a6009..2b553c2 100644
--- a/mmcore/numeric/routines/__init__.py
+++ b/mmcore/numeric/routines/__init__.py
@@ -169,7 +169,7 @@ def cubic_spline(control_points: np.ndarray[(4, 2), np.dtype[float]]
 
 def divide_interval(start, end, step=1.):
     a = np.arange(start, end, step)
-    return np.c_[a, a + step]
+    return np.c_[a, np.minimum(a + step, end)]
 T=TypeVar("T")
 
 def column_concat(a:NDArray[T],b:NDArray[T]|T)->NDArray[T]:
-- 
2.43.0


From 6b9fde641b3cb6ac5776654ab01d950949cf88ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:46 +0000
Subject: [PATCH 070/230] fix: point_inversion_curve returned the iterate
 before the one that met its tolerance

---
 mmcore/numeric/algorithms/point_inversion.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/algorithms/point_inversion.py b/mmcore/numeric/algorithms/point_inversion.py
index dbd006c..7c01c29 100644
--- a/mmcore/numeric/algorithms/point_inversion.py
+++ b/mmcore/numeric/algorithms/point_inversion.py
@@ -57,7 +57,9 @@ def point_inversion_curve(curve: Curve, P: np.ndarray, u0: float, tol1: float, t
         ui1 = ui - fi / fpi
 
         if abs(ui1 - ui) * scalar_norm(C_prime) <= tol1:
+            ui = ui1
             break
+        ui = ui1
         C_point = curve.evaluate(ui1)
 
         if scalar_norm(C_point - P) <= tol1:
@@ -65,10 +67,9 @@ def point_inversion_curve(curve: Curve, P: np.ndarray, u0: float, tol1: float, t
         C_prime = curve.derivative(ui1)
 
         if abs(scalar_dot(C_prime, C_point - P)) / (
-                scalar_norm(C_prime) * scalar_norm(C_prime - P)) <= tol2:
+                scalar_norm(C_prime) * scalar_norm(C_point - P)) <= tol2:
             break
         C_double_prime = curve.second_derivative(ui1)
-        ui = ui1
 
     return ui
 
-- 
2.43.0


From 9d4e9d7e71cd0e18d811ef12e03ac173f2d83017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:46 +0000
Subject: [PATCH 071/230] fix: point_inversion_surface returned the iterate
 before the last and ignored the v direction

---
 mmcore/numeric/algorithms/point_inversion.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mmcore/numeric/algorithms/point_inversion.py b/mmcore/numeric/algorithms/point_inversion.py
index 7c01c29..ff61f2b 100644
--- a/mmcore/numeric/algorithms/point_inversion.py
+++ b/mmcore/numeric/algorithms/point_inversion.py
@@ -181,21 +181,21 @@ def point_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: floa
         ui1vi1 = uivi - delta
 
         # Check convergence criteria
-        if np.linalg.norm(ui1vi1 - uivi) * (np.linalg.norm(du) + np.linalg.norm(
+        uivi = ui1vi1
+        if np.linalg.norm(delta) * (np.linalg.norm(du) + np.linalg.norm(
                 dv)) <= tol1:
             break
         new_pt=surface.evaluate(ui1vi1)
         if scalar_norm( new_pt- P) <= tol1:
             break
         new_du=surface.derivative_u(ui1vi1)
+        new_dv=surface.derivative_v(ui1vi1)
 
         pt_diff= new_pt-P
-        if abs(scalar_dot(new_du, pt_diff)) / (
-                np.linalg.norm(new_du) *  np.linalg.norm(pt_diff)) <= tol2:
+        if max(abs(scalar_dot(new_du, pt_diff)) / np.linalg.norm(new_du),
+               abs(scalar_dot(new_dv, pt_diff)) / np.linalg.norm(new_dv)) / np.linalg.norm(pt_diff) <= tol2:
             break
 
-        uivi = ui1vi1
-
     return uivi
 
 
-- 
2.43.0


From 662837489c3f8aab7fce0923a4852480d4c012e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:16 +0000
Subject: [PATCH 072/230] fix: local_closest_point_on_curve always raised a
 ValueError

---
 mmcore/numeric/closest_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/closest_point.py b/mmcore/numeric/closest_point.py
index 42a97b5..7358447 100644
--- a/mmcore/numeric/closest_point.py
+++ b/mmcore/numeric/closest_point.py
@@ -301,7 +301,7 @@ def local_closest_point_on_curve(curve, t0, point, tol=1e-3, **kwargs):
         # C' (u) •(C(u) - P)
         return scalar_dot(curve.derivative(t), curve.evaluate(t) - point)
 
-    dfun = bounded_fdm(fun, curve.interval())
+    dfun = bounded_fdm(fun, bounds=curve.interval())
     res = newton(fun, t0, fprime=dfun, tol=tol, **kwargs)
     return res, np.linalg.norm(curve.evaluate(res) - point)
 
-- 
2.43.0


From 5b0a1457014d8d7e9740adced6be37642453fbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:16 +0000
Subject: [PATCH 073/230] fix: divide_and_conquer_min_2d_vectorized stopped as
 soon as one of its items had converged

---
 mmcore/numeric/divide_and_conquer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/divide_and_conquer.py b/mmcore/numeric/divide_and_conquer.py
index 4e7764f..1853902 100644
--- a/mmcore/numeric/divide_and_conquer.py
+++ b/mmcore/numeric/divide_and_conquer.py
@@ -231,7 +231,7 @@ def divide_and_conquer_min_2d_vectorized(f, x_range, y_range, tol=1e-6):
     tol=tol/2
     x_min, x_max = x_range
     y_min, y_max = y_range
-    while np.all((x_max - x_min) > tol) or np.all((y_max - y_min) > tol):
+    while np.any((x_max - x_min) > tol) or np.any((y_max - y_min) > tol):
         x_mid = (x_min + x_max) / 2
         y_mid = (y_min + y_max) / 2
         # Evaluate the function at the corners and midpoints of the edges
-- 
2.43.0


From 03cc1a6fab947d90d042ef0850024744b8860408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:43 +0000
Subject: [PATCH 074/230] fix: closest_point_on_surface could return parameters
 outside the surface

---
 mmcore/numeric/closest_point.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/numeric/closest_point.py b/mmcore/numeric/closest_point.py
index 7358447..108d7c1 100644
--- a/mmcore/numeric/closest_point.py
+++ b/mmcore/numeric/closest_point.py
@@ -366,6 +366,8 @@ def closest_point_on_surface(self: Surface, pt, tol=1e-3, bounds=None):
         uv = newtons_method(wrp1, initial, tol=tol)
         if uv is None:
             raise ValueError('Newtons method failed to converge')
+        if not (umin <= uv[0] <= umax and vmin <= uv[1] <= vmax):
+            return np.array(divide_and_conquer_min_2d(wrp, (umin, umax), (vmin, vmax), tol))
         return uv
 
 
-- 
2.43.0


From a1ea5b3430b4d953639d2019383c739c326c254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:46 +0000
Subject: [PATCH 075/230] fix: closest_points_on_surface only searched the
 patches whose boxes contain the point

---
 mmcore/numeric/closest_point.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmcore/numeric/closest_point.py b/mmcore/numeric/closest_point.py
index 108d7c1..348be15 100644
--- a/mmcore/numeric/closest_point.py
+++ b/mmcore/numeric/closest_point.py
@@ -407,6 +407,10 @@ def closest_points_on_surface(surface, pts, tol=1e-6):
                     tol=tol,
                 )
             )
+            # the closest point may belong to an object whose box does not contain the point
+            uv = np.array(divide_and_conquer_min_2d(objective, *surface.interval(), tol=tol))
+            if objective(*uv) < objective(*uvs[i]):
+                uvs[i] = uv
     return uvs
 
 
-- 
2.43.0


From e497b479b24a93fb594db690a51906b98f49d730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:04 +0000
Subject: [PATCH 076/230] fix: bvh_segment_intersection_recursive missed flat
 boxes on the faces of their parents

---
 mmcore/geom/bvh/__init__.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 077f982..fafe133 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -694,21 +694,22 @@ def traverse_all_bbox(bvh_root, result):
 def bvh_segment_intersection_recursive(bvh:BVHNode,segment:Segment):
 
 
-    def inner(bvh,segment, ints):
+    def inner(bvh, ints):
         if not bvh.bounding_box.intersect(segment.bounding_box):
             return
-        segment=segment.clip(bvh.bounding_box)
-        if segment is None :
+        # the children get the whole segment: one clipped to this box may end just short of a flat box on its face
+        clipped=segment.clip(bvh.bounding_box)
+        if clipped is None :
             return
         if bvh.object is not None:
-            ints.append((bvh,segment))
+            ints.append((bvh,clipped))
             return
         else:
-            inner(bvh.left, segment, ints)
-            inner(bvh.right, segment, ints)
+            inner(bvh.left, ints)
+            inner(bvh.right, ints)
 
     intersections=[]
-    inner(bvh,segment,intersections)
+    inner(bvh,intersections)
     return intersections
 
 
-- 
2.43.0


From 4c4bb7cf1f99bed27d3e4ef474406dd786729549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:04 +0000
Subject: [PATCH 077/230] fix: bvh_ray_intersection missed flat boxes on the
 faces of the root box

---
 mmcore/geom/bvh/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index fafe133..ea3c46a 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -837,11 +837,11 @@ def bvh_ray_intersection(bvh:BVHNode, ray:Ray):
     if segm is None:
         return []
     else:
-        result=bvh_segment_intersection(bvh,segm)
-
-
-
-        return result
+        # a segment that reaches past the box: the clipped one may end just short of a flat box on its face
+        box = bvh.bounding_box
+        direction=np.array(scalar_unit(ray.direction/np.max(np.abs(ray.direction))))
+        reach=scalar_norm(box.center-ray.start)+scalar_norm(box.dims)+1.
+        return [(obj,segm) for obj,_ in bvh_segment_intersection(bvh,np.array([ray.start,ray.start+direction*reach]))]
 
 
 def build_bvh_from_mesh(points:NDArray[float],indices:NDArray[int], triangles_in_leaf=1):
-- 
2.43.0


From eef89a1f971c7d2b0aa434fadeca4c04a697bf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 078/230] Revert "fix: point_inversion_surface returned the
 iterate before the last and ignored the v direction"

This reverts commit 9d4e9d7e71cd0e18d811ef12e03ac173f2d83017.
---
 mmcore/numeric/algorithms/point_inversion.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mmcore/numeric/algorithms/point_inversion.py b/mmcore/numeric/algorithms/point_inversion.py
index ff61f2b..7c01c29 100644
--- a/mmcore/numeric/algorithms/point_inversion.py
+++ b/mmcore/numeric/algorithms/point_inversion.py
@@ -181,21 +181,21 @@ def point_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: floa
         ui1vi1 = uivi - delta
 
         # Check convergence criteria
-        uivi = ui1vi1
-        if np.linalg.norm(delta) * (np.linalg.norm(du) + np.linalg.norm(
+        if np.linalg.norm(ui1vi1 - uivi) * (np.linalg.norm(du) + np.linalg.norm(
                 dv)) <= tol1:
             break
         new_pt=surface.evaluate(ui1vi1)
         if scalar_norm( new_pt- P) <= tol1:
             break
         new_du=surface.derivative_u(ui1vi1)
-        new_dv=surface.derivative_v(ui1vi1)
 
         pt_diff= new_pt-P
-        if max(abs(scalar_dot(new_du, pt_diff)) / np.linalg.norm(new_du),
-               abs(scalar_dot(new_dv, pt_diff)) / np.linalg.norm(new_dv)) / np.linalg.norm(pt_diff) <= tol2:
+        if abs(scalar_dot(new_du, pt_diff)) / (
+                np.linalg.norm(new_du) *  np.linalg.norm(pt_diff)) <= tol2:
             break
 
+        uivi = ui1vi1
+
     return uivi
 
 
-- 
2.43.0


From d3f119a215a394cfc77eeeda30c465d35508c7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 079/230] fix: point_inversion_surface stopped on the u
 direction alone

---
 mmcore/numeric/algorithms/point_inversion.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/algorithms/point_inversion.py b/mmcore/numeric/algorithms/point_inversion.py
index 7c01c29..daf103f 100644
--- a/mmcore/numeric/algorithms/point_inversion.py
+++ b/mmcore/numeric/algorithms/point_inversion.py
@@ -188,10 +188,11 @@ def point_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: floa
         if scalar_norm( new_pt- P) <= tol1:
             break
         new_du=surface.derivative_u(ui1vi1)
+        new_dv=surface.derivative_v(ui1vi1)
 
         pt_diff= new_pt-P
-        if abs(scalar_dot(new_du, pt_diff)) / (
-                np.linalg.norm(new_du) *  np.linalg.norm(pt_diff)) <= tol2:
+        if max(abs(scalar_dot(new_du, pt_diff)) / np.linalg.norm(new_du),
+               abs(scalar_dot(new_dv, pt_diff)) / np.linalg.norm(new_dv)) / np.linalg.norm(pt_diff) <= tol2:
             break
 
         uivi = ui1vi1
-- 
2.43.0


From 97970672bc309cf315b3d67a21d751be05418842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 080/230] fix: astuple of the implicit primitives packed C
 doubles as objects and crashed

---
 mmcore/geom/primitives.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/primitives.pyx b/mmcore/geom/primitives.pyx
index 78eb9d5..153ece9 100644
--- a/mmcore/geom/primitives.pyx
+++ b/mmcore/geom/primitives.pyx
@@ -211,7 +211,7 @@ cdef class Sphere(Implicit3D):
 
 
     def astuple(self):
-        cdef tuple tpl=PyTuple_Pack(4,self.ox,self.oy,self.oz,self._radius )
+        cdef tuple tpl=(self.ox,self.oy,self.oz,self._radius)
         return tpl
 
     @property
@@ -308,7 +308,7 @@ cdef class ImplicitCylinder(Implicit3D):
         cylinder_aabb(self.ox,self.oy,self.oz,self.ex,self.ey,self.ez,self.dx,self.dy,self.dz,self._radius,self._bounds)
 
     def astuple(self):
-        cdef tuple tpl=PyTuple_Pack(7,self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius )
+        cdef tuple tpl=(self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius)
         return tpl
 
     @property
@@ -545,7 +545,7 @@ cdef class Tube(ImplicitCylinder):
     cdef void _calculate_bounds(self) noexcept nogil:
         cylinder_aabb(self.ox,self.oy,self.oz,self.ex,self.ey,self.ez,self.dx,self.dy,self.dz,self._radius+self._thickness/2, self._bounds)
     def astuple(self):
-        cdef tuple tpl = PyTuple_Pack(8, self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius, self._thickness)
+        cdef tuple tpl = (self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius, self._thickness)
         return tpl
 
 
-- 
2.43.0


From 86847db323b5bec7d9276fb41ef5c36c40410453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 081/230] fix: Intersection2D could not be constructed

---
 mmcore/geom/implicit/implicit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index 7010d17..ddcbd81 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -396,7 +396,7 @@ class Intersection2D(Implicit2D):
     def solve_bounds(self):
         (axmin, aymin), (axmax, aymax) = self.a.bounds()
         (bxmin, bymin), (bxmax, bymax) = self.b.bounds()
-        self._bounds(max(axmin, bxmin), max(aymin, bymin)), (
+        self._bounds = (max(axmin, bxmin), max(aymin, bymin)), (
             min(axmax, bxmax),
             min(aymax, bymax),
         )
-- 
2.43.0


From 1cda36af62dbab497cc265f5ecc7f9564eef6efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 082/230] fix: Sub2D and Sub3D subtracted the first shape from
 the second

---
 mmcore/geom/implicit/implicit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index ddcbd81..945a661 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -438,7 +438,7 @@ class Sub2D(Implicit2D):
         self.b = b
 
     def implicit(self, v):
-        return np.array(op_subtraction(self.a.implicit(v), self.b.implicit(v)))
+        return np.array(op_subtraction(self.b.implicit(v), self.a.implicit(v)))
 
     def bounds(self):
         return self.a.bounds()
@@ -451,7 +451,7 @@ class Sub3D(Implicit3D):
         self.b = b
 
     def implicit(self, v):
-        return np.array(op_subtraction(self.a.implicit(v), self.b.implicit(v)))
+        return np.array(op_subtraction(self.b.implicit(v), self.a.implicit(v)))
 
     def bounds(self):
         return self.a.bounds()
-- 
2.43.0


From eb74a8ccf223938bc86f6b9336822cdb0819c939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 083/230] fix: Implicit could not be called with several points

---
 mmcore/geom/implicit/implicit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index 945a661..270a85d 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -101,7 +101,7 @@ class Implicit:
         self.dxdy = fdm(self.implicit)
         self._tree = None
         #self.implicit = NpCache(self.implicit)
-        self._vimplicit = np.vectorize(self.implicit, signature="()->(i)")
+        self._vimplicit = np.vectorize(self.implicit, signature="(i)->()")
 
     def invalidate_cache(self):
         self.implicit.clear()
-- 
2.43.0


From 2e6e40674e31391ec5f08d4b61754b0d219c10ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 084/230] fix: Implicit2D.tree was never built and
 ImplicitTree2D ignored its bounds

---
 mmcore/geom/implicit/implicit.py    | 1 +
 mmcore/geom/implicit/tree/tree2d.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index 270a85d..316558d 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -262,6 +262,7 @@ class Implicit2D(Implicit):
 
     def build_tree(self, depth=3):
         self._tree = ImplicitTree2D(self.implicit, depth, bounds=self.bounds())
+        self._tree.build(depth=depth)
 
 
 from mmcore.numeric.fdm import DEFAULT_H
diff --git a/mmcore/geom/implicit/tree/tree2d.py b/mmcore/geom/implicit/tree/tree2d.py
index a56a7e0..2c82dd8 100644
--- a/mmcore/geom/implicit/tree/tree2d.py
+++ b/mmcore/geom/implicit/tree/tree2d.py
@@ -35,7 +35,7 @@ class ImplicitTree2D:
             self.depth = depth
         self.build_tree()
         self.collapse()
-        self.build_node(self._collapsed_tree, self.shape.bounds())
+        self.build_node(self._collapsed_tree, self.bounds)
 
     def build_node(self, tree, quad):
         if isinstance(tree, Empty):
-- 
2.43.0


From 564f269acd7ab3eb3b6c1f20fcfb92a7a058ec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 085/230] fix: Circle2D had no bounds, so it could not take
 part in set operations

---
 mmcore/geom/circle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/geom/circle.py b/mmcore/geom/circle.py
index 51df3cd..80f6087 100644
--- a/mmcore/geom/circle.py
+++ b/mmcore/geom/circle.py
@@ -48,6 +48,9 @@ class Circle2D(Curve, Implicit2D):
     def interval(self):
         return 0., PI2
 
+    def bounds(self):
+        return (self.origin[0] - self.r, self.origin[1] - self.r), (self.origin[0] + self.r, self.origin[1] + self.r)
+
     def implicit(self, v) -> float:
         return np.linalg.norm(self._implicit_normal(v)) - self.r
 
-- 
2.43.0


From 62be55fa3c2767ae18d2a0673f22359804d3f9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 086/230] fix: the closest parameter on a circle was wrong
 outside the upper half or shifted

---
 mmcore/geom/circle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/circle.py b/mmcore/geom/circle.py
index 80f6087..ce32b48 100644
--- a/mmcore/geom/circle.py
+++ b/mmcore/geom/circle.py
@@ -81,7 +81,7 @@ class Circle2D(Curve, Implicit2D):
         N = self._implicit_normal(v)
         nn = np.linalg.norm(N)
         nu = N / nn
-        return v - (nu * (nn - self.r)), np.arccos(nu[0])
+        return v - (nu * (nn - self.r)), np.arctan2(nu[1], nu[0]) % PI2
 
 
 
@@ -160,4 +160,4 @@ def tangents_lines(circle: Circle2D, pt: np.ndarray):
 def closest_point_on_circle_2d(circle: Circle2D, pt: np.ndarray):
     un = circle.normal(pt)
 
-    return np.arccos(un[0]) - PI05
+    return np.arctan2(un[1], un[0]) % PI2
-- 
2.43.0


From cbddebe3807f1b1097459071abb968063a0f27fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 087/230] fix: tangents_lines mirrored the direction of the
 point

---
 mmcore/geom/circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/circle.py b/mmcore/geom/circle.py
index ce32b48..f1d31e8 100644
--- a/mmcore/geom/circle.py
+++ b/mmcore/geom/circle.py
@@ -147,7 +147,7 @@ def tangents_lines(circle: Circle2D, pt: np.ndarray):
     direct = pt[:2] - circle.origin[:2]
     b = np.hypot(*direct)  # hypot() also works here
     th = np.arccos(a / b)  # angle theta
-    d = np.arctan2(direct[0], direct[1])  # direction angle of point P from C
+    d = np.arctan2(direct[1], direct[0])  # direction angle of point P from C
     d1 = d + th  # direction angle of point T1 from C
     d2 = d - th  # direction angle of point T2 from C
 
-- 
2.43.0


From 314a14ca0e53b0865bb772f5efcb531076513b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 088/230] fix: circle_intersection2d returned y of a 2d origin
 as z

---
 mmcore/geom/circle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/circle.py b/mmcore/geom/circle.py
index f1d31e8..9932bdc 100644
--- a/mmcore/geom/circle.py
+++ b/mmcore/geom/circle.py
@@ -138,7 +138,9 @@ def circle_intersection2d(c1: Circle2D, c2: Circle2D):
     ys1 = ym + h * (x2 - x1) / d
     ys2 = ym - h * (x2 - x1) / d
 
-    return np.array([(xs1, ys1, c1.origin[-1]), (xs2, ys2, c2.origin[-1])], float)
+    z1 = c1.origin[2] if len(c1.origin) > 2 else 0.0
+    z2 = c2.origin[2] if len(c2.origin) > 2 else 0.0
+    return np.array([(xs1, ys1, z1), (xs2, ys2, z2)], float)
 
 
 def tangents_lines(circle: Circle2D, pt: np.ndarray):
-- 
2.43.0


From e786178e89cb197f58eb1a73ca94d91e0f7114e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 089/230] fix: interval subtraction did not enclose the
 differences

---
 mmcore/numeric/interval/_interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index b5d0311..dc73745 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -42,7 +42,7 @@ class Interval:
 
     def __sub__(self, other):
         if isinstance(other, Interval):
-            return Interval(self.low - other.low, self.upp - other.upp)
+            return Interval(self.low - other.upp, self.upp - other.low)
         return Interval(self.low - other, self.upp - other)
 
     def __mul__(self, other):
-- 
2.43.0


From 016bb846c27eb48aef40a54d48b34733502493a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 090/230] fix: an interval times or over a negative scalar came
 out reversed

---
 mmcore/numeric/interval/_interval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index dc73745..a29357a 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -49,14 +49,14 @@ class Interval:
         if isinstance(other, Interval):
             products = [self.low * other.low, self.low * other.upp, self.upp * other.low, self.upp * other.upp]
             return Interval(min(products), max(products))
-        return Interval(self.low * other, self.upp * other)
+        return Interval(min(self.low * other, self.upp * other), max(self.low * other, self.upp * other))
 
     def __truediv__(self, other):
         if isinstance(other, Interval):
 
             reciprocals = [1 / other.low, 1 / other.upp]
             return self * Interval(min(reciprocals), max(reciprocals))
-        return Interval(self.low / other, self.upp / other)
+        return Interval(min(self.low / other, self.upp / other), max(self.low / other, self.upp / other))
 
     def __contains__(self, item):
         if isinstance(item, Interval):
-- 
2.43.0


From 7503ce95ee435b2cc6c7b11c24ad6ded2f9c7ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 091/230] fix: division by an interval around zero gave a
 bounded interval

---
 mmcore/numeric/interval/_interval.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index a29357a..e263f79 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -53,9 +53,10 @@ class Interval:
 
     def __truediv__(self, other):
         if isinstance(other, Interval):
-
-            reciprocals = [1 / other.low, 1 / other.upp]
-            return self * Interval(min(reciprocals), max(reciprocals))
+            reciprocal = ~other
+            if math.isinf(reciprocal.low):
+                return reciprocal
+            return self * reciprocal
         return Interval(min(self.low / other, self.upp / other), max(self.low / other, self.upp / other))
 
     def __contains__(self, item):
-- 
2.43.0


From 5bcf37f872161d81050d43aaec38a9e4f10b0532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 092/230] fix: even and negative powers of an interval missed
 values inside it

---
 mmcore/numeric/interval/_interval.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index e263f79..c85ad19 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -154,10 +154,7 @@ class Interval:
 
     @staticmethod
     def pow(base, exp):
-        if exp % 2 == 0:
-            return Interval(min(base.low ** exp, base.upp ** exp), max(base.low ** exp, base.upp ** exp))
-        else:
-            return Interval(base.low ** exp, base.upp ** exp)
+        return base ** exp
 
 
     def __iadd__(self, other):
@@ -199,7 +196,12 @@ class Interval:
         return np.array(self.to_tuple(), dtype=dtype)
 
     def __pow__(self, exp):
+        if exp < 0:
+            return ~(self ** -exp)
         if exp % 2 == 0:
-            return Interval(min(self.low ** exp, self.upp ** exp), max(self.low ** exp, self.upp ** exp))
+            low, upp = sorted((self.low ** exp, self.upp ** exp))
+            if exp > 0 and self.low < 0 < self.upp:
+                low = low * 0
+            return Interval(low, upp)
         else:
             return Interval(self.low ** exp, self.upp ** exp)
\ No newline at end of file
-- 
2.43.0


From 41d0d8ab0abae8092512ee7bffef45e366125af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 093/230] fix: an interval containing or ending at a scalar
 compared greater than it

---
 mmcore/numeric/interval/_interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index c85ad19..e0999a6 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -72,7 +72,7 @@ class Interval:
                 return Comparison.FALSE  # Definitely greater than
             else:
                 return Comparison.MAYBE  # Overlapping intervals, uncertain comparison
-        return Comparison.TRUE if self.upp < other else Comparison.FALSE
+        return self.compare(Interval(other, other))
 
     def __lt__(self, other):
         comp = self.compare(other)
-- 
2.43.0


From 461b2e2ba11bc80c6c0c18899dac17cceb8fd98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 094/230] fix: Interval.max and Interval.min returned one of
 the arguments, not the range

---
 mmcore/numeric/interval/_interval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index e0999a6..cf178df 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -146,11 +146,11 @@ class Interval:
 
     @staticmethod
     def max(*args):
-        return max(args)
+        return Interval(max(a.low for a in args), max(a.upp for a in args))
 
     @staticmethod
     def min(*args):
-        return min(args)
+        return Interval(min(a.low for a in args), min(a.upp for a in args))
 
     @staticmethod
     def pow(base, exp):
-- 
2.43.0


From d57e62a5dfc77fd664d5575251ee9469c1628adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 095/230] fix: Interval.from_tuple never ended

---
 mmcore/numeric/interval/_interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index cf178df..ec72b25 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -183,7 +183,7 @@ class Interval:
     @classmethod
     def from_tuple(cls, t):
 
-        return cls(cls.from_tuple(t[0]), cls.from_tuple(t[1]))
+        return cls(t[0], t[1])
 
     def to_tuple(self):
 
-- 
2.43.0


From 803bdd9539d593800896fa420dacdf8e7fb2ffea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 096/230] fix: AVL.delete kept the data of the deleted key
 under the key that replaced it

---
 mmcore/ds/tree/avl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/ds/tree/avl.py b/mmcore/ds/tree/avl.py
index 8fa2b83..dec5312 100644
--- a/mmcore/ds/tree/avl.py
+++ b/mmcore/ds/tree/avl.py
@@ -333,6 +333,7 @@ class AVL(object):
 
                     if successor:
                         self.node.key = successor.key
+                        self.node.data = successor.data
 
                         # Delete successor from the replaced node right subree
                         self.node.right.delete(successor.key)
-- 
2.43.0


From 991ff0c9dcbe355cbd555b7669f3dcf9d2f529b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 097/230] fix: AVL dropped the data assigned to an existing key

---
 mmcore/ds/tree/avl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/ds/tree/avl.py b/mmcore/ds/tree/avl.py
index dec5312..ad0be2a 100644
--- a/mmcore/ds/tree/avl.py
+++ b/mmcore/ds/tree/avl.py
@@ -140,6 +140,9 @@ class AVL(object):
         # Insert key to the right subtree
         elif key > self.node.key:
             self.node.right.insert(key, data)
+        # The key is already here, replace its data
+        else:
+            self.node.data = data
 
         # Rebalance tree if needed
         self.rebalance()
-- 
2.43.0


From f2259977a52b23d48105a47eb3638c5fdda47341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 098/230] fix: AVL.append reused keys that were taken

---
 mmcore/ds/tree/avl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/tree/avl.py b/mmcore/ds/tree/avl.py
index ad0be2a..4cda8ba 100644
--- a/mmcore/ds/tree/avl.py
+++ b/mmcore/ds/tree/avl.py
@@ -148,7 +148,12 @@ class AVL(object):
         self.rebalance()
 
     def append(self, data=None):
-        return self.insert(self.height + 1, data)
+        if self.node is None:
+            return self.insert(0, data)
+        last = self.node
+        while last.right.node:
+            last = last.right.node
+        return self.insert(last.key + 1, data)
 
     def rebalance(self):
         """
-- 
2.43.0


From 06ee3ae7fed90b91945369327de3841687b82d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 099/230] fix: CDLL.insert at the front put the element after
 the head

---
 mmcore/ds/cdll/cdll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index b0fd298..df48198 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -149,7 +149,7 @@ class CDLL:
             node.previous = node
         else:
             temp = self.head
-            for _ in range(index - 1):
+            for _ in range((index - 1) % self.count):
                 temp = temp.next
             temp.next.previous = node
             node.next, node.previous = temp.next, temp
-- 
2.43.0


From 8f4d7a078dbe02173daee0870fcf32affaf7ff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 100/230] fix: iterating an empty CDLL gave None

---
 mmcore/ds/cdll/cdll.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index df48198..0b1e625 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -116,8 +116,6 @@ class CDLL:
             while (temp != self.head):
                 yield temp.data
                 temp = temp.next
-        else:
-            yield
 
     def __len__(self):
         return self.count
-- 
2.43.0


From 3200788eec9b294aec621b038942253b88c1bb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 101/230] fix: CDLL.remove damaged the list when the value was
 absent or the last one, and missed the hook

---
 mmcore/ds/cdll/cdll.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 0b1e625..e98bc85 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -169,16 +169,12 @@ class CDLL:
     def remove_by_index(self, index):
         if (index >= self.count) | (index < 0):
             raise ValueError(f"Index out of range: {index}, size: {self.count}")
-        if self.count == 1:
-            self.head = None
-            self.count = 0
-            return
         target = self.head
         for _ in range(index):
             target = target.next
 
         if target is self.head:
-            self.head = self.head.next
+            self.head = self.head.next if self.count > 1 else None
 
 
         target.previous.next, target.next.previous = target.next, target.previous
@@ -193,13 +189,15 @@ class CDLL:
             if (temp.data == data):
 
                 if temp is self.head:
-                    self.head = self.head.next
+                    self.head = self.head.next if self.count > 1 else None
                 temp.previous.next, temp.next.previous = temp.next, temp.previous
 
                 self.count -= 1
                 break
 
             temp = temp.next
+        else:
+            raise ValueError(f"{data} is not in the list")
         self.remove_hook(temp)
         del temp.next
         del temp.previous
-- 
2.43.0


From 358591f2e81c5df784c7f9fd5dd0b047fdd14598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 102/230] fix: CDLL.get accepted indices before the first
 element

---
 mmcore/ds/cdll/cdll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index e98bc85..0a73433 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -215,7 +215,7 @@ class CDLL:
         if index < 0:
             index = self.count + index
 
-        elif (index >= self.count):
+        if (index >= self.count) | (index < 0):
             raise ValueError(f"Index out of range: {index}, size: {self.count}")
         temp = self.head
         for _ in range(index):
-- 
2.43.0


From ba9d41952ff7508cd6307abee668b0e49bde45e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 103/230] fix: CDLL.replace_node left the new node without its
 previous link

---
 mmcore/ds/cdll/cdll.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 0a73433..e540cb4 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -240,27 +240,20 @@ class CDLL:
     def replace_node(self, index, node):
         if (index >= self.count) | (index < 0):
             raise ValueError(f"Index out of range: {index}, size: {self.count}")
-        if self.count == 1:
-            self.head =  node
-
-            return
         target = self.head
         for _ in range(index):
             target = target.next
 
-
         if target is self.head:
-            node.next = self.head.next
-            node.prev = self.head.previous
-            self.head.previous.next=node
-            self.head.next.previous=node
             self.head = node
+        if self.count == 1:
+            node.next = node.previous = node
+            return
         node.next = target.next
-        node.prev = target.previous
+        node.previous = target.previous
 
         target.previous.next = node
         target.next.previous = node
-        target.previous.next=node
 
 
 
-- 
2.43.0


From c08d71432d2b07932255406a01a26c9d58ceacb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 104/230] fix: RStarTree did not enlarge the boxes above an
 inserted entry

---
 mmcore/ds/tree/rtree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/ds/tree/rtree.py b/mmcore/ds/tree/rtree.py
index 8ccafdd..6240c85 100644
--- a/mmcore/ds/tree/rtree.py
+++ b/mmcore/ds/tree/rtree.py
@@ -76,6 +76,7 @@ class RStarTree:
                 if best_child is None or enlargement < best_enlargement:
                     best_child = child
                     best_enlargement = enlargement
+            best_child.mbr = best_child.mbr.union(rectangle)
             return self._choose_leaf(best_child, rectangle)
 
     def _split_node(self, node):
-- 
2.43.0


From cfa1e91560ca93ef3ad4865242c834b85e461420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 105/230] fix: RStarTree split a deep node under the root
 instead of its parent

---
 mmcore/ds/tree/rtree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/tree/rtree.py b/mmcore/ds/tree/rtree.py
index 6240c85..f695f93 100644
--- a/mmcore/ds/tree/rtree.py
+++ b/mmcore/ds/tree/rtree.py
@@ -144,8 +144,11 @@ class RStarTree:
         if current_node.is_leaf:
             return None
         for child in current_node.children:
-            if child == target_node or self._find_parent(child, target_node):
+            if child == target_node:
                 return current_node
+            parent = self._find_parent(child, target_node)
+            if parent is not None:
+                return parent
         return None
 
     def search(self, rectangle):
-- 
2.43.0


From 304aa32825313e11381a24276c1e3a6a733ea6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 106/230] fix: BalancedKDTree.delete misplaced the left subtree
 and missed points that tie on an axis

---
 mmcore/ds/bkdtree.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mmcore/ds/bkdtree.py b/mmcore/ds/bkdtree.py
index ab87678..f402494 100644
--- a/mmcore/ds/bkdtree.py
+++ b/mmcore/ds/bkdtree.py
@@ -214,16 +214,19 @@ class BalancedKDTree:
                 # find min in the left subtree along 'current_axis'
                 min_node = self._find_min(node.left, current_axis, depth + 1)
                 node.point = min_node.point
-                # Then, we have to remove that min from the left subtree
-                node.left = self._delete_rec(node.left, min_node.point, depth + 1)
+                # Then the rest of the left subtree lies above that min: it becomes the right one
+                node.right = self._delete_rec(node.left, min_node.point, depth + 1)
+                node.left = None
             else:
                 # Case 3: Leaf node
                 return None
         else:
             # Not the node to delete, search left or right
+            # (points that tie with the node on its axis may be on either side)
+            size = node.left.size if node.left else 0
             if point[current_axis] <= node.point[current_axis]:
                 node.left = self._delete_rec(node.left, point, depth + 1)
-            else:
+            if point[current_axis] >= node.point[current_axis] and size == (node.left.size if node.left else 0):
                 node.right = self._delete_rec(node.right, point, depth + 1)
 
         _update_size(node)
-- 
2.43.0


From bd121dc048a8f6651be79edd22741059b85448c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 107/230] fix: k_nearest_neighbors returned fewer or farther
 points when the near side was small

---
 mmcore/ds/bkdtree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/ds/bkdtree.py b/mmcore/ds/bkdtree.py
index f402494..0889519 100644
--- a/mmcore/ds/bkdtree.py
+++ b/mmcore/ds/bkdtree.py
@@ -322,11 +322,11 @@ class BalancedKDTree:
         if diff <= 0:
             self._k_nearest_rec(node.left, target, k, heap, depth + 1)
             # Check other side if needed
-            if diff * diff < -heap[0][0]:
+            if len(heap) < k or diff * diff < -heap[0][0]:
                 self._k_nearest_rec(node.right, target, k, heap, depth + 1)
         else:
             self._k_nearest_rec(node.right, target, k, heap, depth + 1)
-            if diff * diff < -heap[0][0]:
+            if len(heap) < k or diff * diff < -heap[0][0]:
                 self._k_nearest_rec(node.left, target, k, heap, depth + 1)
 
     def k_nearest_neighbors(self, point, k=1):
-- 
2.43.0


From 1b3b1ac87fbe31c0b7a4d465b92c0cf874b5f404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 108/230] fix: the default gradient of raster_algorithm_2d
 passed three coordinates

---
 mmcore/numeric/marching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/marching.py b/mmcore/numeric/marching.py
index e2b1be9..e9863a2 100644
--- a/mmcore/numeric/marching.py
+++ b/mmcore/numeric/marching.py
@@ -156,7 +156,7 @@ def raster_algorithm_2d(f, x_min, x_max, y_min, y_max, nx, ny, gamma=0.5, grad=N
     """Raster algorithm to find points close to the implicit curve f(x, y) = 0."""
     if grad is None:
         def grad(xy):
-            return (f((xy[0] + DEFAULT_H, xy[1])) - f((xy[0], - DEFAULT_H, xy[1]))) / (2 * DEFAULT_H), (
+            return (f((xy[0] + DEFAULT_H, xy[1])) - f((xy[0] - DEFAULT_H, xy[1]))) / (2 * DEFAULT_H), (
                     f((xy[0], xy[1] + DEFAULT_H)) - f((xy[0], xy[1] - DEFAULT_H))) / (2 * DEFAULT_H)
 
     x_vals = np.linspace(x_min, x_max, nx)
-- 
2.43.0


From 342d9d63aea9671fd55e1edbacff42b80dbb1373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 109/230] fix: raster_algorithm_2d failed for distance
 functions

---
 mmcore/numeric/marching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/marching.py b/mmcore/numeric/marching.py
index e9863a2..857c85f 100644
--- a/mmcore/numeric/marching.py
+++ b/mmcore/numeric/marching.py
@@ -169,7 +169,7 @@ def raster_algorithm_2d(f, x_min, x_max, y_min, y_max, nx, ny, gamma=0.5, grad=N
     if general_implicit:
         curve_pt = lambda pt: curve_point(f, pt)
     else:
-        curve_pt = lambda pt: pt + grad * f_val
+        curve_pt = lambda pt: pt - grad_f * f_val
     for i, x in enumerate(x_vals):
         for j, y in enumerate(y_vals):
             xy[:] = x, y
-- 
2.43.0


From 33a266c7f0e36963ad4483e2cb7472fc24f05762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 110/230] fix: surface_plane unpacked a point as a point and a
 normal

---
 mmcore/numeric/algorithms/implicit_point.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/algorithms/implicit_point.py b/mmcore/numeric/algorithms/implicit_point.py
index a86880d..1992de5 100644
--- a/mmcore/numeric/algorithms/implicit_point.py
+++ b/mmcore/numeric/algorithms/implicit_point.py
@@ -215,8 +215,8 @@ def surface_point(fun, p0, grad=None, tol=1e-8):
 
 
 def surface_plane(fun, p_start, grad, tol=1e-5):
-    p, nv = surface_point(fun, p_start, grad, tol)
-    nv = _normalize3d(nv)
+    p = surface_point(fun, p_start, grad, tol)
+    nv = _normalize3d(_resolve_grad(fun, grad)(p))
 
     if abs(nv[0]) > 0.5 or abs(nv[1]) > 0.5:
         tv1 = np.array([nv[1], -nv[0], 0])
-- 
2.43.0


From d5509810c188841d6fe3d3c1a6bd2d69afb1f821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 111/230] fix: intersection_curve_point returned a malformed
 tuple with no_err and return_grads

---
 mmcore/numeric/algorithms/implicit_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/algorithms/implicit_point.py b/mmcore/numeric/algorithms/implicit_point.py
index 1992de5..40a7115 100644
--- a/mmcore/numeric/algorithms/implicit_point.py
+++ b/mmcore/numeric/algorithms/implicit_point.py
@@ -141,7 +141,7 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
         i += 1
 
     if return_grads:
-        return (success, (qk_next, f1, f2, g1, g2)) if no_err else qk_next, f1, f2, g1, g2
+        return (success, (qk_next, f1, f2, g1, g2)) if no_err else (qk_next, f1, f2, g1, g2)
 
     return (success, qk_next) if no_err else qk_next
 
-- 
2.43.0


From 39a69f1ac3b1fd4f296f28296a4411f8edad7ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 112/230] fix: intersection_curve_point reported success where
 the gradients are parallel

---
 mmcore/numeric/algorithms/implicit_point.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/algorithms/implicit_point.py b/mmcore/numeric/algorithms/implicit_point.py
index 40a7115..7666baa 100644
--- a/mmcore/numeric/algorithms/implicit_point.py
+++ b/mmcore/numeric/algorithms/implicit_point.py
@@ -102,7 +102,7 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
     ])
 
     g = np.array([f1, f2])
-    success = solve2x2(J, -g, alpha_beta)
+    solved = solve2x2(J, -g, alpha_beta)
     delta = alpha_beta[0] * grad1(qk) + alpha_beta[1] * grad2(qk)
     qk_next = delta + qk
     d = scalar_norm(qk_next - qk)
@@ -129,7 +129,7 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
 
         g[:] = f1, f2
 
-        _success = solve2x2(J, -g, alpha_beta)
+        solved = solve2x2(J, -g, alpha_beta)
 
         #alpha, beta = newton_step(qk, alpha, beta, f1, f2, g1, g2)
         #alpha, beta = newton_step(qk, alpha, beta, f1, f2, g1, g2)
@@ -140,6 +140,12 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
 
         i += 1
 
+    if not solved and max(abs(f1), abs(f2)) > tol:
+        # the gradients are parallel here and the point is on neither surface
+        if not no_err:
+            raise ValueError('The gradients are parallel, No convergence')
+        success = False
+
     if return_grads:
         return (success, (qk_next, f1, f2, g1, g2)) if no_err else (qk_next, f1, f2, g1, g2)
 
-- 
2.43.0


From fa6f59ea31151973eba34f21e0b233dac4d18fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 113/230] fix: the interval of a periodic curve reached outside
 its domain

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 49a5394..e39a030 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1374,8 +1374,8 @@ cdef class NURBSCurve(ParametricCurve):
         self.knots_update_hook()
 
     cdef _update_interval(self):
-        self._interval[0] =  self._knots[0]
-        self._interval[1] = self._knots[self._knots.shape[0]-1]
+        self._interval[0] = self._knots[self._degree]
+        self._interval[1] = self._knots[self._knots.shape[0] - self._degree - 1]
     cpdef double[:,:] generate_control_points_periodic(self, double[:,:] cpts):
         cdef int n = len(cpts)
         cdef int i
-- 
2.43.0


From 8ae0bd0cd1cefd6de61e9932cdf9e3104112d0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 114/230] fix: make_open refused periodic curves

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 mmcore/geom/nurbs.pyx         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 4188aa3..a052240 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -642,7 +642,7 @@ cdef class NURBSpline(ParametricCurve):
         """
         Modify the NURBS curve to make it open
         """
-        if not self.is_open():
+        if not self._periodic:
             return
         cdef int n = len(self._control_points) - self._degree  # Calculate the original number of control points
         self._control_points = self._control_points[:n, :]  # Trim the extra control points
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index e39a030..3014a27 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1418,7 +1418,7 @@ cdef class NURBSCurve(ParametricCurve):
         """
         Modify the NURBS curve to make it open
         """
-        if not self.is_open():
+        if not self._periodic:
             return
         cdef int n = len(self._control_points) - self._degree  # Calculate the original number of control points
         self._control_points = self._control_points[:n, :]  # Trim the extra control points
-- 
2.43.0


From fbf31bb62580e2e466ae2a8a600ac754996f543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 115/230] fix: point_in_curve counted the crossings of a whole
 line, so nothing was inside a curve

---
 mmcore/numeric/algorithms/point_in_curve.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mmcore/numeric/algorithms/point_in_curve.py b/mmcore/numeric/algorithms/point_in_curve.py
index 8313c73..057f7ca 100644
--- a/mmcore/numeric/algorithms/point_in_curve.py
+++ b/mmcore/numeric/algorithms/point_in_curve.py
@@ -5,7 +5,7 @@ import numpy as np
 from mmcore.numeric.intersection.ccx import curve_x_ray
 from mmcore.geom.curves.curve import Curve
 from mmcore.geom.implicit import Implicit2D
-from mmcore.geom.polygon import is_point_in_polygon_bvh,polygon_build_bvh,segments_by_loop
+from mmcore.geom.polygon import is_point_in_polygon_bvh
 
 def _is_closed_curve(crv: Curve):
     pt1, pt2 = crv.evaluate_multi(np.array(crv.interval(), dtype=float))
@@ -18,15 +18,12 @@ def point_in_parametric_curve(crv: Curve, xyz):
         return False
     if hasattr(crv,'degree'):
         if crv.degree==1:
-            polygon=crv.evaluate_multi(np.arange(*crv.interval()))
-            edges = [(polygon[i], polygon[(i + 1) % len(polygon)]) for i in range(len(polygon))]
-            bvh_root=polygon_build_bvh(edges)
-            is_point_in_polygon_bvh(bvh_root,xyz)
+            return is_point_in_polygon_bvh(np.asarray(crv.control_points)[:-1, :2], xyz[:2])
     crr=crv.interval()
     rngg=crr[1]-crr[0]
-    print(rngg)
-
-    return (len(curve_x_ray(crv, xyz, axis=0,step= rngg)) % 2) > 0
+    # the crossings of the half line above the point
+    above = [t for t in curve_x_ray(crv, xyz, axis=0,step= rngg) if crv.evaluate(t)[1] > xyz[1]]
+    return (len(above) % 2) > 0
 
 
 def point_in_implicit_curve(crv: Implicit2D, xyz):
-- 
2.43.0


From d7985213f77c0ca1ae99d6b34fd0963ef834ae28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 116/230] fix: test_all_roots did not search left of extremes
 of one sign

---
 mmcore/numeric/divide_and_conquer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/divide_and_conquer.py b/mmcore/numeric/divide_and_conquer.py
index 1853902..3311cda 100644
--- a/mmcore/numeric/divide_and_conquer.py
+++ b/mmcore/numeric/divide_and_conquer.py
@@ -530,7 +530,7 @@ def test_all_roots(fun, bounds, tol):
 
         if t21 - t11 <= tol:
             return []
-        return [*test_all_roots(fun, (t21 + tol, t1), tol)]
+        return [*test_all_roots(fun, (t0, t11 - tol), tol), *test_all_roots(fun, (t21 + tol, t1), tol)]
 
 
 
-- 
2.43.0


From 215164ecbdc0727cdabae00a3067ec5cc2b0773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 117/230] fix: intersection_curve_point reported success where
 the gradients are almost parallel

---
 mmcore/numeric/algorithms/implicit_point.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/algorithms/implicit_point.py b/mmcore/numeric/algorithms/implicit_point.py
index 7666baa..ad75a3e 100644
--- a/mmcore/numeric/algorithms/implicit_point.py
+++ b/mmcore/numeric/algorithms/implicit_point.py
@@ -102,7 +102,7 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
     ])
 
     g = np.array([f1, f2])
-    solved = solve2x2(J, -g, alpha_beta)
+    solve2x2(J, -g, alpha_beta)
     delta = alpha_beta[0] * grad1(qk) + alpha_beta[1] * grad2(qk)
     qk_next = delta + qk
     d = scalar_norm(qk_next - qk)
@@ -129,7 +129,7 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
 
         g[:] = f1, f2
 
-        solved = solve2x2(J, -g, alpha_beta)
+        solve2x2(J, -g, alpha_beta)
 
         #alpha, beta = newton_step(qk, alpha, beta, f1, f2, g1, g2)
         #alpha, beta = newton_step(qk, alpha, beta, f1, f2, g1, g2)
@@ -140,8 +140,8 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
 
         i += 1
 
-    if not solved and max(abs(f1), abs(f2)) > tol:
-        # the gradients are parallel here and the point is on neither surface
+    if not (abs(f1) <= 2 * tol * scalar_norm(g1) and abs(f2) <= 2 * tol * scalar_norm(g2)):
+        # the gradients are (almost) parallel here, the step does not lead to the surfaces
         if not no_err:
             raise ValueError('The gradients are parallel, No convergence')
         success = False
-- 
2.43.0


From 2cdb12f5aca199aedf86604f88f4357503544358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 118/230] fix: tracing between two near points went around the
 whole contour

---
 mmcore/numeric/marching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/marching.py b/mmcore/numeric/marching.py
index 857c85f..cf8b40a 100644
--- a/mmcore/numeric/marching.py
+++ b/mmcore/numeric/marching.py
@@ -61,7 +61,7 @@ def marching_implicit_curve_points(
     tangent = _implicit_tangent(g, grad_derivative(start_point))
     start_point = curve_point(func, start_point + (tangent * step), delta, grad=grad)
     pointlist.append(start_point)
-    distance = step
+    distance = np.linalg.norm(start_point - end_point)
     if max_points is None:
         max_points = sys.maxsize
 
-- 
2.43.0


From 902e999d6cd0b8eb83e5d17946ee9e286e6c1511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 119/230] fix: ccx of two implicit curves raised its result

---
 mmcore/numeric/intersection/ccx/ccx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/intersection/ccx/ccx.py b/mmcore/numeric/intersection/ccx/ccx.py
index 6b1448c..99427cc 100644
--- a/mmcore/numeric/intersection/ccx/ccx.py
+++ b/mmcore/numeric/intersection/ccx/ccx.py
@@ -111,7 +111,7 @@ def ccx(curve1, curve2, tol: float = 0.01):
     elif hasattr(curve2, "evaluate") and hasattr(curve1, "evaluate"):
         return curve_ppx(curve1, curve2, tol=tol)
     elif hasattr(curve2, "implicit") and hasattr(curve1, "implicit"):
-        raise curve_iix(
+        return curve_iix(
             curve1, curve2)
     else:
         raise ValueError(
-- 
2.43.0


From 8c1f61f3407ecaecbf083d7b2e074deb86201a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 120/230] fix: curve_ppx failed when the curves do not
 intersect

---
 mmcore/numeric/intersection/ccx/ccx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/numeric/intersection/ccx/ccx.py b/mmcore/numeric/intersection/ccx/ccx.py
index 99427cc..78738c1 100644
--- a/mmcore/numeric/intersection/ccx/ccx.py
+++ b/mmcore/numeric/intersection/ccx/ccx.py
@@ -317,6 +317,8 @@ def curve_ppx(curve1, curve2, tol: float = 0.001, tol_bbox=0.1, bounds1=None, bo
             recursive_intersect(curve1, curve2, curve1_bounds, curve2_bounds, tol)
         )
 
+    if not result:
+        return []
     _,index=np.unique(np.round(result,int(np.abs(np.log10(tol)))), return_inverse=True,axis=0)
     return sorted((tuple(np.average(val,axis=0)) for val in _categorize_with_defaultdict(result, index.tolist()).values()),key=lambda x:x[0])
 
-- 
2.43.0


From 18f2de1dc6e4464a3e98328d29d9b7e2fba9bf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 121/230] fix: implicit_find_features used atol for rtol

---
 mmcore/geom/implicit/tree/tree2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/tree/tree2d.py b/mmcore/geom/implicit/tree/tree2d.py
index 2c82dd8..2354ac0 100644
--- a/mmcore/geom/implicit/tree/tree2d.py
+++ b/mmcore/geom/implicit/tree/tree2d.py
@@ -82,7 +82,7 @@ def implicit_find_features(sdfs, nodes, rtol=None, atol=None):
     if atol:
         kws['atol'] = atol
     if rtol:
-        kws['rtol'] = atol
+        kws['rtol'] = rtol
     last = None
     for node in nodes:
         success, res = _find_feature(sdfs, node, node_norm)
-- 
2.43.0


From 03fa4593617c0b2947aa624add259fafa1221a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 122/230] fix: curve_ppx dropped all intersections but the
 middle one

---
 mmcore/numeric/intersection/ccx/ccx.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/mmcore/numeric/intersection/ccx/ccx.py b/mmcore/numeric/intersection/ccx/ccx.py
index 78738c1..76e3d07 100644
--- a/mmcore/numeric/intersection/ccx/ccx.py
+++ b/mmcore/numeric/intersection/ccx/ccx.py
@@ -248,22 +248,20 @@ def curve_ppx(curve1, curve2, tol: float = 0.001, tol_bbox=0.1, bounds1=None, bo
 
 
         if eager:
-            if not aabb_overlap(
-                    curve_aabb_eager(c1, bounds=t1_range, cnt=8),
-                    curve_aabb_eager(c2, bounds=t2_range, cnt=8),
-            ):
-                return []
-
+            box1 = curve_aabb_eager(c1, bounds=t1_range, cnt=8)
+            box2 = curve_aabb_eager(c2, bounds=t2_range, cnt=8)
         else:
-            if not aabb_overlap(
-                    curve_aabb(c1, bounds=t1_range, tol=tol_bbox),
-                    curve_aabb(c2, bounds=t2_range, tol=tol_bbox)):
-                return []
+            box1 = curve_aabb(c1, bounds=t1_range, tol=tol_bbox)
+            box2 = curve_aabb(c2, bounds=t2_range, tol=tol_bbox)
+        if not aabb_overlap(box1, box2):
+            return []
 
         t1_mid = t1_range[0] + (t1_range[1] - t1_range[0]) / 2
         t2_mid = t2_range[0] + (t2_range[1] - t2_range[0]) / 2
 
-        if np.linalg.norm(np.array(c1(t1_mid)) - np.array(c2(t2_mid))) <= tol:
+        # larger pieces may have other intersections besides the one in the middle
+        if (max(np.ptp(box1, axis=0).max(), np.ptp(box2, axis=0).max()) <= 2 * tol and
+                np.linalg.norm(np.array(c1(t1_mid)) - np.array(c2(t2_mid))) <= tol):
             return [(t1_mid, t2_mid)]
         c1_left = t1_range[0], t1_mid
         c1_right = t1_mid, t1_range[1]
-- 
2.43.0


From 523cea77a3a12c90c153e37e0333c6d115161900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 123/230] fix: curve_boolean_operation failed when the curves
 do not cross

---
 mmcore/geom/curves/curve_bool.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/curves/curve_bool.py b/mmcore/geom/curves/curve_bool.py
index 505fdf8..14942c7 100644
--- a/mmcore/geom/curves/curve_bool.py
+++ b/mmcore/geom/curves/curve_bool.py
@@ -68,11 +68,15 @@ def curve_boolean_operation(curve1: NURBSCurve, curve2: NURBSCurve,
     # Verify curves are closed?
 
     # Find all curve intersections
-    first, second = zip(*ccx(curve1, curve2))
-
-    # Split both curves at intersection points
-    segments1 = split_curve_multiple(curve1, np.unique(first))
-    segments2 = split_curve_multiple(curve2, np.unique(second))
+    intersections = ccx(curve1, curve2)
+    if intersections:
+        first, second = zip(*intersections)
+
+        # Split both curves at intersection points
+        segments1 = split_curve_multiple(curve1, np.unique(first))
+        segments2 = split_curve_multiple(curve2, np.unique(second))
+    else:
+        segments1, segments2 = [curve1], [curve2]
 
 
     segments = []
-- 
2.43.0


From a13bd0b6336b514be2965255d84cfa7af2a11ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 124/230] fix: curve_boolean_operation cast rays that ended
 inside the other curve

---
 mmcore/geom/curves/curve_bool.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/curve_bool.py b/mmcore/geom/curves/curve_bool.py
index 14942c7..549d416 100644
--- a/mmcore/geom/curves/curve_bool.py
+++ b/mmcore/geom/curves/curve_bool.py
@@ -88,7 +88,7 @@ def curve_boolean_operation(curve1: NURBSCurve, curve2: NURBSCurve,
         t0, t1 = seg.interval()  # Use start of segment
 
         mid = np.array(seg.evaluate((t0 + t1) / 2))
-        ray = NURBSCurve(np.array([mid, mid + np.array([1, 0, 0.]) * scalar_norm(max_2 - min_2) * 2]), degree=1)
+        ray = NURBSCurve(np.array([mid, mid + np.array([1, 0, 0.]) * (scalar_norm(max_2 - min_2) + abs(max_2[0] - mid[0]))]), degree=1)
         rtct = list(zip(*ccx(ray, curve2, tol=1e-7)))
         if len(rtct) == 0:
             rt = ()
@@ -123,7 +123,7 @@ def curve_boolean_operation(curve1: NURBSCurve, curve2: NURBSCurve,
         t0, t1 = seg.interval()  # Use start of segment
 
         mid = np.array(seg.evaluate((t0 + t1) / 2))
-        ray = NURBSCurve(np.array([mid, mid + np.array([1, 0, 0.]) * scalar_norm(max_1 - min_1) * 2]), degree=1)
+        ray = NURBSCurve(np.array([mid, mid + np.array([1, 0, 0.]) * (scalar_norm(max_1 - min_1) + abs(max_1[0] - mid[0]))]), degree=1)
         rtct = list(zip(*ccx(ray, curve1, tol=1e-7)))
         if len(rtct) == 0:
             rt = ()
-- 
2.43.0


From 83048fd1b79edf420c11888a64e5cbba08a9d00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 125/230] fix: curve_iix lost most intersections to an
 optimizer that does not converge on kinks

---
 mmcore/geom/implicit/tree/tree2d.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mmcore/geom/implicit/tree/tree2d.py b/mmcore/geom/implicit/tree/tree2d.py
index 2354ac0..0d9e1e0 100644
--- a/mmcore/geom/implicit/tree/tree2d.py
+++ b/mmcore/geom/implicit/tree/tree2d.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 import numpy as np
-from scipy.optimize import minimize
+from scipy.optimize import least_squares
 
 from mmcore.geom.implicit.tree.collapse2d import Empty, Full, Leaf, build_tree2d, collapse2d
 
@@ -58,7 +58,7 @@ class ImplicitTree2D:
 
 def _find_feature(sdfs, node, node_norm):
     def f(x):
-        return max(abs(sdfs[0].implicit(x)), abs(sdfs[1].implicit(x)))
+        return np.array([sdfs[0].implicit(x), sdfs[1].implicit(x)])
 
     x0 = np.average(node, axis=0)
     if node_norm < abs(sdfs[0].implicit(x0)):
@@ -66,11 +66,9 @@ def _find_feature(sdfs, node, node_norm):
     if node_norm < abs(sdfs[1].implicit(x0)):
         return False, None
     else:
-        res = minimize(
-            f, x0=x0, bounds=((node[0][0], node[1][0]), (node[0][1], node[1][1]))
-        )
+        res = least_squares(f, x0=x0, bounds=node, ftol=1e-15, xtol=1e-15, gtol=1e-15)
 
-        return np.isclose(res.fun, 0), res
+        return np.allclose(res.fun, 0), res
 
 
 def implicit_find_features(sdfs, nodes, rtol=None, atol=None):
-- 
2.43.0


From d2e1e1e9d2c6f618877fa45422501ba6c2292971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 126/230] fix: find_all_minima passed a list where an array is
 required

---
 mmcore/numeric/divide_and_conquer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/divide_and_conquer.py b/mmcore/numeric/divide_and_conquer.py
index 3311cda..1aa0477 100644
--- a/mmcore/numeric/divide_and_conquer.py
+++ b/mmcore/numeric/divide_and_conquer.py
@@ -462,7 +462,7 @@ def find_all_minima(f, x_range, y_range, grid_density=11, tol=1e-6):
     for x in x_vals:
         for y in y_vals:
             # Perform local minimization using scipy's minimize
-            result, *other = newtons_method(lambda coords: f(coords[0], coords[1]), [x, y], tol=tol2, max_iter=8,
+            result, *other = newtons_method(lambda coords: f(coords[0], coords[1]), np.array([x, y]), tol=tol2, max_iter=8,
                                             no_warn=True, full_return=True)
 
             if result is not None:
-- 
2.43.0


From f09b42f233e532e54d570610459589efad8ff109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 127/230] fix: FDM.dzdx divided by y'

---
 mmcore/numeric/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/fdm.py b/mmcore/numeric/fdm.py
index 774b4b3..195080c 100644
--- a/mmcore/numeric/fdm.py
+++ b/mmcore/numeric/fdm.py
@@ -197,7 +197,7 @@ class FDM:
         :return:
         """
         res = np.atleast_2d(self(t))
-        return res[..., 2] / res[..., 1]
+        return res[..., 2] / res[..., 0]
 
     def dzdy(self, t):
         """
-- 
2.43.0


From 884df9e0083a4671b39c51932759603ac8a28885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 128/230] fix: hessian of a point given by integers was cut to
 integers

---
 mmcore/numeric/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/fdm.py b/mmcore/numeric/fdm.py
index 195080c..dd6e00a 100644
--- a/mmcore/numeric/fdm.py
+++ b/mmcore/numeric/fdm.py
@@ -430,7 +430,7 @@ def hessian(f, point, h=DEFAULT_H):
     print(hessian_matrix)
     ```
     """
-    point = np.asarray(point)
+    point = np.asarray(point, dtype=float)
     n = point.size
     H = np.zeros((n, n))
     fp = f(point)
-- 
2.43.0


From 991580b72c2e692653f44ea885ffa0724d29de74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 129/230] fix: hessian_multi and gradient_multi failed on
 integer points

---
 mmcore/numeric/fdm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/fdm.py b/mmcore/numeric/fdm.py
index dd6e00a..703a842 100644
--- a/mmcore/numeric/fdm.py
+++ b/mmcore/numeric/fdm.py
@@ -560,7 +560,7 @@ def hessian_multi(f, points, h=DEFAULT_H):
     print(hessian_matrix)
     ```
     """
-    points = np.array(points)
+    points = np.array(points, dtype=float)
     n = points.shape[-1]
     H = np.zeros((points.shape[0], n, n))
     fp = f(points.T)
@@ -615,7 +615,7 @@ def gradient_multi(f, points, h=DEFAULT_H):
 
     :return: The gradient of the function at the given point.
     """
-    points = np.array(points)
+    points = np.array(points, dtype=float)
     grad = np.zeros(points.shape)
 
     for i in range(points.shape[-1]):
-- 
2.43.0


From be38d181ed5bbdc380502160f061ac48573d161c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 130/230] fix: jac returned the transposed Jacobian

---
 mmcore/numeric/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/fdm.py b/mmcore/numeric/fdm.py
index 703a842..8d2cb9b 100644
--- a/mmcore/numeric/fdm.py
+++ b/mmcore/numeric/fdm.py
@@ -600,7 +600,7 @@ def jac(fun, h=DEFAULT_H):
         H = np.eye(inp) * h
         z = np.zeros((inp, inp))
         for i in range(inp):
-            z[i, :] = (fun(t + H[i]) - fun(t - H[i])) / (2 * h)
+            z[:, i] = (fun(t + H[i]) - fun(t - H[i])) / (2 * h)
         return z
 
     return jac_wrap
-- 
2.43.0


From 9225e3df9baa58ea95b8e562c907bdee95b573e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 131/230] fix: newton_method2 permuted the inverse of a
 Jacobian whose rows had to be swapped

---
 mmcore/numeric/newton/cnewton.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/newton/cnewton.pyx b/mmcore/numeric/newton/cnewton.pyx
index 5f53044..29934c0 100644
--- a/mmcore/numeric/newton/cnewton.pyx
+++ b/mmcore/numeric/newton/cnewton.pyx
@@ -318,7 +318,7 @@ cdef inline int lu_solve(double[:, ::1] A,
     """
     Solve A x = b after A has been LU-factorized in place.
     pivot_indices is the list of row permutations done during factorization.
-    b is modified in place to become the solution x.
+    b is modified in place, x[i] is left in b[pivot_indices[i]].
     Return 0 if successful, 1 if unsuccessful (e.g., singular).
     """
     cdef:
@@ -407,7 +407,7 @@ cdef inline int invert_matrix(double[:, ::1] A,
 
         # Write col to A_inv[:, i]
         for j in range(n):
-            A_inv[j, i] = col[j]
+            A_inv[j, i] = col[pivot_indices[j]]
 
     return 0
 
-- 
2.43.0


From ac98abcd811c6a64d3bc43b2422149f4c45b6cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 132/230] fix: divide_and_conquer_min_3d skipped eight of the
 27 candidates and lost minima near them

---
 mmcore/numeric/divide_and_conquer.py | 50 +++-------------------------
 1 file changed, 4 insertions(+), 46 deletions(-)

diff --git a/mmcore/numeric/divide_and_conquer.py b/mmcore/numeric/divide_and_conquer.py
index 1aa0477..3595d6c 100644
--- a/mmcore/numeric/divide_and_conquer.py
+++ b/mmcore/numeric/divide_and_conquer.py
@@ -302,52 +302,10 @@ def divide_and_conquer_min_3d(f, x_range, y_range, z_range, tol=1e-3):
         y_mid = (y_min + y_max) / 2
         z_mid = (z_min + z_max) / 2
 
-        # Evaluate the function at the corners of the cube and midpoints of the edges
-        f000 = f(x_min, y_min, z_min)
-        f100 = f(x_max, y_min, z_min)
-        f010 = f(x_min, y_max, z_min)
-        f110 = f(x_max, y_max, z_min)
-        f001 = f(x_min, y_min, z_max)
-        f101 = f(x_max, y_min, z_max)
-        f011 = f(x_min, y_max, z_max)
-        f111 = f(x_max, y_max, z_max)
-
-        f_mid_x_min_y_min = f(x_mid, y_min, z_min)
-        f_mid_x_max_y_min = f(x_mid, y_max, z_min)
-        f_mid_x_min_y_max = f(x_min, y_mid, z_min)
-        f_mid_x_max_y_max = f(x_max, y_mid, z_min)
-        f_mid_z_min = f(x_mid, y_mid, z_min)
-
-        f_mid_x_min_z_max = f(x_min, y_min, z_mid)
-        f_mid_x_max_z_max = f(x_max, y_min, z_mid)
-        f_mid_y_min_z_max = f(x_min, y_max, z_mid)
-        f_mid_y_max_z_max = f(x_max, y_max, z_mid)
-        f_mid_z_max = f(x_mid, y_mid, z_max)
-
-        f_mid_xyz = f(x_mid, y_mid, z_mid)
-
-        # Create a list of (value, coordinates) pairs
-        candidates = [
-            (f000, (x_min, y_min, z_min)),
-            (f100, (x_max, y_min, z_min)),
-            (f010, (x_min, y_max, z_min)),
-            (f110, (x_max, y_max, z_min)),
-            (f001, (x_min, y_min, z_max)),
-            (f101, (x_max, y_min, z_max)),
-            (f011, (x_min, y_max, z_max)),
-            (f111, (x_max, y_max, z_max)),
-            (f_mid_x_min_y_min, (x_mid, y_min, z_min)),
-            (f_mid_x_max_y_min, (x_mid, y_max, z_min)),
-            (f_mid_x_min_y_max, (x_min, y_mid, z_min)),
-            (f_mid_x_max_y_max, (x_max, y_mid, z_min)),
-            (f_mid_z_min, (x_mid, y_mid, z_min)),
-            (f_mid_x_min_z_max, (x_min, y_min, z_mid)),
-            (f_mid_x_max_z_max, (x_max, y_min, z_mid)),
-            (f_mid_y_min_z_max, (x_min, y_max, z_mid)),
-            (f_mid_y_max_z_max, (x_max, y_max, z_mid)),
-            (f_mid_z_max, (x_mid, y_mid, z_max)),
-            (f_mid_xyz, (x_mid, y_mid, z_mid))
-        ]
+        # Evaluate the function at the corners of the cube, the midpoints of the edges and faces and the center
+        candidates = [(f(*xyz), xyz) for xyz in itertools.product((x_min, x_mid, x_max),
+                                                                  (y_min, y_mid, y_max),
+                                                                  (z_min, z_mid, z_max))]
 
         # Find the minimum value and its coordinates
         min_val, min_coords = min(candidates, key=lambda item: item[0])
-- 
2.43.0


From 08a34a31e2909962d27016c570e0de76be05f785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 133/230] fix: scalar_min_1d lost minima at the ends of the
 interval and flat minima

---
 mmcore/numeric/bisection.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/bisection.py b/mmcore/numeric/bisection.py
index 39179cc..0ae78df 100644
--- a/mmcore/numeric/bisection.py
+++ b/mmcore/numeric/bisection.py
@@ -91,13 +91,12 @@ def scalar_min_1d(f, start, end, step=0.001, divs=32):
         t = np.linspace(start, end, divs)
 
         res = f(t)
-        m = res.min()
-        i = np.where(np.isclose(res, m))[0][0]
+        i = int(np.argmin(res))
 
         if abs(t[0] - t[1]) <= step:
             return t[i]
         else:
-            ixs = np.array([i - 1, i + 1], int)
+            ixs = np.array([max(i - 1, 0), min(i + 1, divs - 1)], int)
 
             return wrap(t[ixs[0]], t[ixs[1]])
 
-- 
2.43.0


From 03a23f9d170963cc5fe084d00389c6f5d0aadc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 134/230] fix: parametric_arc_length halved the first and the
 last chord and printed its step

---
 mmcore/numeric/arc_length.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/mmcore/numeric/arc_length.py b/mmcore/numeric/arc_length.py
index ef6d802..0d20f0e 100644
--- a/mmcore/numeric/arc_length.py
+++ b/mmcore/numeric/arc_length.py
@@ -26,27 +26,15 @@ def step(crv, t, tol):
 
 def parametric_arc_length(func, t_start, t_end, dt=1e-3):
     # Generate a list of t values from t_start to t_end
-    t_values = np.arange(t_start, t_end+dt, dt)
-    num_points = len(t_values)-1
+    t_values = np.append(np.arange(t_start, t_end, dt), t_end)
 
-    # Calculate the derivatives using finite differences
-    print(dt)
+    # Sum the chords between them
     arc_length = 0.
-    for i in range(num_points):
-        derivative = (np.array(func(t_values[i + 1])) - np.array(func(t_values[i]))) / dt
-        # It is similar by each component
-        # dx_dt = (x_t(t_values[i + 1]) - x_t(t_values[i])) / dt
-        # dy_dt = (y_t(t_values[i + 1]) - y_t(t_values[i])) / dt
-        # ...
-
-        # Calculate the integrand sqrt((dx/dt)^2 + (dy/dt)^2)
-        integrand = scalar_norm(derivative)
-        # Use the trapezoidal rule to approximate the integral
-        if i == 0 or i == num_points - 1:
-            integrand *= 0.5
-        arc_length += integrand
-
-    arc_length *= dt
+    start = np.array(func(t_values[0]), float)
+    for t in t_values[1:]:
+        end = np.array(func(t), float)
+        arc_length += scalar_norm(end - start)
+        start = end
     return arc_length
 
 
-- 
2.43.0


From 38cc0cc002953f030e79509b503f068bf9dac9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 135/230] fix: find_all_minima reported minima outside the
 given range

---
 mmcore/numeric/divide_and_conquer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/divide_and_conquer.py b/mmcore/numeric/divide_and_conquer.py
index 3595d6c..a929da6 100644
--- a/mmcore/numeric/divide_and_conquer.py
+++ b/mmcore/numeric/divide_and_conquer.py
@@ -423,7 +423,8 @@ def find_all_minima(f, x_range, y_range, grid_density=11, tol=1e-6):
             result, *other = newtons_method(lambda coords: f(coords[0], coords[1]), np.array([x, y]), tol=tol2, max_iter=8,
                                             no_warn=True, full_return=True)
 
-            if result is not None:
+            # the iteration may leave the range
+            if result is not None and x_min <= result[0] <= x_max and y_min <= result[1] <= y_max:
                 # if np.linalg.det(other[1])<0: seadle
                 critical_point_type = classify_critical_point_2d(other[1])
 
@@ -444,8 +445,8 @@ def find_all_minima(f, x_range, y_range, grid_density=11, tol=1e-6):
     for min_point in minima:
         local_min = divide_and_conquer_min_2d(
             f,
-            (min_point[0] - tol, min_point[0] + tol),
-            (min_point[1] - tol, min_point[1] + tol),
+            (max(min_point[0] - tol, x_min), min(min_point[0] + tol, x_max)),
+            (max(min_point[1] - tol, y_min), min(min_point[1] + tol, y_max)),
             tol,
         )
         #print(min_point, local_min)
-- 
2.43.0


From c9c641740d5cc3d2960ee45aa722522020848714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 136/230] fix: plane intersections searched the pivot by
 bisection and could divide by zero

---
 mmcore/numeric/plane/cplane.pyx | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/mmcore/numeric/plane/cplane.pyx b/mmcore/numeric/plane/cplane.pyx
index c19641f..eb1a9de 100644
--- a/mmcore/numeric/plane/cplane.pyx
+++ b/mmcore/numeric/plane/cplane.pyx
@@ -12,15 +12,11 @@ cnp.import_array()
 @cython.initializedcheck(False)
 cdef inline int find_max_row(double[5][5] m, int i, int n) noexcept nogil:
     cdef int l= i
-    cdef int r = n - 1
-    cdef int mid
-
-    while l < r:
-        mid = (l + r) // 2
-        if fabs(m[mid][i]) > fabs(m[mid + 1][i]):
-            r = mid
-        else:
-            l = mid + 1
+    cdef int r
+
+    for r in range(i + 1, n):
+        if fabs(m[r][i]) > fabs(m[l][i]):
+            l = r
     return l
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -28,15 +24,11 @@ cdef inline int find_max_row(double[5][5] m, int i, int n) noexcept nogil:
 @cython.initializedcheck(False)
 cdef inline int find_max_row_3x3(double[3][3] m, int i, int n) noexcept nogil:
     cdef int l= i
-    cdef int r = n - 1
-    cdef int mid
-
-    while l < r:
-        mid = (l + r) // 2
-        if fabs(m[mid][i]) > fabs(m[mid + 1][i]):
-            r = mid
-        else:
-            l = mid + 1
+    cdef int r
+
+    for r in range(i + 1, n):
+        if fabs(m[r][i]) > fabs(m[l][i]):
+            l = r
     return l
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From 9e7430e72532e9c64c062bb2546714172d724530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 137/230] fix: planes_planes_intersect returned nothing

---
 mmcore/numeric/plane/cplane.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/plane/cplane.pyx b/mmcore/numeric/plane/cplane.pyx
index eb1a9de..d37577e 100644
--- a/mmcore/numeric/plane/cplane.pyx
+++ b/mmcore/numeric/plane/cplane.pyx
@@ -324,7 +324,7 @@ cpdef double[:,:,:] planes_planes_intersect(double[:,:,:] planes1, double[:,:,:]
         raise ValueError("planes1 and planes2 length should be equal!")
 
     cplanes_planes_intersect(planes1,planes2,result)
-
+    return result
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From 921ee28e6ba5efe692d309bc31cbf49467ac8903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 138/230] fix: plane_ray_intersection failed for a plane given
 by origin and normal

---
 mmcore/numeric/plane/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/numeric/plane/__init__.py b/mmcore/numeric/plane/__init__.py
index 07ac6ee..0efd084 100644
--- a/mmcore/numeric/plane/__init__.py
+++ b/mmcore/numeric/plane/__init__.py
@@ -200,6 +200,7 @@ def plane_ray_intersection(plane, ray):
     :param ray: A ray represented by a origin and a direction
     :return: intersection point
     """
+    pln=plane
     if plane.shape[0]==4:
 
         pln=np.zeros((2,3))
-- 
2.43.0


From c956c3c0f5e5e4cc9105caad3a0b529452d76879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 139/230] fix: plane_from_eq returned an origin outside the
 plane

---
 mmcore/numeric/plane/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/plane/__init__.py b/mmcore/numeric/plane/__init__.py
index 0efd084..91ad63a 100644
--- a/mmcore/numeric/plane/__init__.py
+++ b/mmcore/numeric/plane/__init__.py
@@ -105,7 +105,7 @@ def plane_from_eq(plane_eq):
     # Normal vector to the plane
     n = np.array([a, b, c])
     N = scalar_unit(n)
-    origin = N*d
+    origin = n*(-d/norm_sq(n))
     # Generate a vector on the plane
     return origin,N
 
-- 
2.43.0


From e7d11a5be48f79a32df7ec0e97a4f30c9fca7c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 140/230] fix: plane_from_normal2 returned a left-handed frame

---
 mmcore/numeric/plane/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/plane/__init__.py b/mmcore/numeric/plane/__init__.py
index 91ad63a..93ade10 100644
--- a/mmcore/numeric/plane/__init__.py
+++ b/mmcore/numeric/plane/__init__.py
@@ -77,7 +77,7 @@ def plane_from_normal2(origin, normal, tol=1e-5):
     else:
         normal = scalar_unit(normal)
     xaxis = scalar_unit(perp_to_vector(normal))
-    yaxis = scalar_unit(_mycross(xaxis, normal))
+    yaxis = scalar_unit(_mycross(normal, xaxis))
     return np.array([origin, xaxis, yaxis, normal])
 
 
-- 
2.43.0


From 31b15d20d5110f8955fba7e6d3db360b01e62355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:54 +0000
Subject: [PATCH 141/230] fix: plane_plane_intersection took the planes of its
 first argument for those of the second

---
 mmcore/numeric/plane/cplane.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/plane/cplane.pyx b/mmcore/numeric/plane/cplane.pyx
index d37577e..4816d2b 100644
--- a/mmcore/numeric/plane/cplane.pyx
+++ b/mmcore/numeric/plane/cplane.pyx
@@ -426,14 +426,14 @@ def plane_plane_intersection(a, b, result=None):
         a=a_flt.reshape( a_new_shape)
         a_reshaped = True
         if result is not None:
-            result.reshape((b_new_shape[0], 2, 3))
+            result = result.reshape((a_new_shape[0], 2, 3))
     if len(b.shape) > 3:
         b_flt = b.flatten()
         b_new_shape=int(len(b_flt)//12),4,3
-        b=a_flt.reshape( b_new_shape)
+        b=b_flt.reshape( b_new_shape)
         b_reshaped = True
         if (result is not None) and (not a_reshaped):
-            result.reshape((b_new_shape[0],2,3))
+            result = result.reshape((b_new_shape[0],2,3))
 
     if len(a.shape)==3 and len(b.shape)==3:
         if result is None:
@@ -457,7 +457,7 @@ def plane_plane_intersection(a, b, result=None):
         raise ValueError("The arguments are totally incorrect!")
     if a_reshaped or b_reshaped:
 
-        return result.reshape( (*(a_initial_shape[:(len(a_initial_shape)-2)]),2,3) if a_reshaped else (*(b_initial_shape[:(len(a_initial_shape)-2)]),2,3))
+        return result.reshape( (*(a_initial_shape[:(len(a_initial_shape)-2)]),2,3) if a_reshaped else (*(b_initial_shape[:(len(b_initial_shape)-2)]),2,3))
     else:
         return result
 
-- 
2.43.0


From d884691731a2f84938158bb010551b505665b0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:54 +0000
Subject: [PATCH 142/230] fix: solve3x2 did not swap the solution back with the
 columns and took arrays as a sum

---
 mmcore/numeric/numeric.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/numeric.py b/mmcore/numeric/numeric.py
index 5f89d0b..064f8dd 100644
--- a/mmcore/numeric/numeric.py
+++ b/mmcore/numeric/numeric.py
@@ -419,11 +419,12 @@ def solve3x2(col0, col1, d0, d1, d2):
     x, y = 0.0, 0.0
     pivot_ratio = 0.0
     err = float('inf')
+    col0, col1 = [float(val) for val in col0], [float(val) for val in col1]
 
-    i = np.argmax([abs(val) for val in col0 + col1])
-    if i >= 3:
+    i = int(np.argmax([abs(val) for val in col0 + col1]))
+    swapped = i >= 3
+    if swapped:
         col0, col1 = col1, col0
-        x, y = y, x
 
     if max(map(abs, col0 + col1)) == 0.0:
         return 0, x, y, err, pivot_ratio
@@ -469,6 +470,8 @@ def solve3x2(col0, col1, d0, d1, d2):
             d1 += -col1[1] * d2
         x, y, err = d0, d2, d1
 
+    if swapped:
+        x, y = y, x
     return 2, x, y, err, pivot_ratio
 
 
-- 
2.43.0


From 63082c4626b1d8666a00f58a78dcb699b246b29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:32 +0000
Subject: [PATCH 143/230] fix: the compiled evaluate_curvature left the
 curvature of a cusp undefined

---
 mmcore/numeric/calgorithms.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/numeric/calgorithms.pyx b/mmcore/numeric/calgorithms.pyx
index 2463119..d6f1f53 100644
--- a/mmcore/numeric/calgorithms.pyx
+++ b/mmcore/numeric/calgorithms.pyx
@@ -112,6 +112,8 @@ cpdef bint evaluate_curvature(
             for i in range(n):
                 unit_tangent_vector[i] = 0.0
 
+        for i in range(n):
+            curvature_vector[i] = 0.0
         # Set curvature vector to zero, we will not recalculate
         recalculate_condition = False
     else:
-- 
2.43.0


From 683f46e9f87d68b1f4918bc92517e0f1aa390535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:32 +0000
Subject: [PATCH 144/230] fix: quicksort, argsort and unique took strided
 arrays for contiguous ones

---
 mmcore/numeric/algorithms/quicksort.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mmcore/numeric/algorithms/quicksort.pyx b/mmcore/numeric/algorithms/quicksort.pyx
index 3ab9889..310dd0b 100644
--- a/mmcore/numeric/algorithms/quicksort.pyx
+++ b/mmcore/numeric/algorithms/quicksort.pyx
@@ -15,7 +15,14 @@ cpdef void quicksort(double[:] arr)  noexcept nogil:
     cdef int n=arr.shape[0]
     cdef int high=n-1
     cdef int i
+    cdef double[:] packed
     #cdef double* arr_c=<double*> malloc(sizeof(double)*n)
+    if arr.strides[0] != sizeof(double):
+        with gil:
+            packed=arr.copy()
+        quickSort(&packed[0],low,high)
+        arr[:]=packed
+        return
 
     quickSort(&arr[0],low,high)
 
@@ -29,6 +36,8 @@ cpdef int[:] argsort(double[:] arr) :
     cdef int high=n-1
     cdef int i
     cdef int[:] indices=np.arange(n,dtype=np.intc)
+    if arr.strides[0] != sizeof(double):
+        arr=arr.copy()
     argSort(&arr[0], &indices[0],low,  high)
     return indices
 
@@ -41,6 +50,9 @@ cpdef int[:] argsort(double[:] arr) :
 cpdef double[:] unique(double[:] arr, double[:] result=None) noexcept nogil:
     cdef int new_len=0;
     cdef bint success
+    if arr.strides[0] != sizeof(double):
+        with gil:
+            arr=arr.copy()
     if result is None:
         with gil:
             result=arr.copy()
-- 
2.43.0


From be327ca422d7d394fca417b4eff511e732b55488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:28 +0000
Subject: [PATCH 145/230] fix: invert_jacobian took the view of its argument
 without the interpreter lock

---
 mmcore/numeric/vectors.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index d296e89..6fbf583 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -410,6 +410,7 @@ cpdef void cinvert_jacobian_vec(double[:,:,:] J, double[:,:,:] J_inv, int[:] sta
 cpdef invert_jacobian(J):
     cdef double[:,:] J_inv_m
     cdef double[:,:, :] J_inv
+    cdef double[:,:, :] J_arr
     cdef int[:] status
     cdef int status_m
     if J.ndim==2:
@@ -418,10 +419,11 @@ cpdef invert_jacobian(J):
         return J_inv_m,status_m
 
     else:
+        J_arr = J
         J_inv = np.empty((J.shape[0], 2, 2))
         status=np.empty((J.shape[0],), dtype=np.intc)
         with nogil:
-            cinvert_jacobian_vec(J, J_inv,  status)
+            cinvert_jacobian_vec(J_arr, J_inv,  status)
         return J_inv, status
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From 361b54409ed14394970d04437d72cf6168e8d479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 146/230] fix: Curve.derivative took every curve to be
 parametrized on [0, 1]

---
 mmcore/geom/curves/curve.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index dfbe743..8b84f46 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -205,13 +205,14 @@ class Curve:
         :param t:float
         :return: vector of first derivative   as numpy array of floats with shape (2,) for 2d case and (3,) for 3d case.
         """
-        if (1 - DEFAULT_H) >= t >= DEFAULT_H:
+        start, end = self.interval()
+        if (end - DEFAULT_H) >= t >= start + DEFAULT_H:
             return (
                     (self.evaluate(t + DEFAULT_H) - self.evaluate(t - DEFAULT_H))
                     / 2
                     / DEFAULT_H
             )
-        elif t <= DEFAULT_H:
+        elif t <= start + DEFAULT_H:
             return (self.evaluate(t + DEFAULT_H) - self.evaluate(t)) / DEFAULT_H
         else:
             return (self.evaluate(t) - self.evaluate(t - DEFAULT_H)) / DEFAULT_H
-- 
2.43.0


From bee66ab2cc2bfcce6c2effc6f91c73d74104fcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 147/230] fix: the length between reversed bounds left out the
 middle of the curve

---
 mmcore/geom/curves/curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index 8b84f46..e7effce 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -271,6 +271,8 @@ class Curve:
         return circle_of_curvature(self, t)
 
     def _evaluate_length(self, bounds, tol=1e-3):
+        if bounds[0] > bounds[1]:
+            return -self._evaluate_length((bounds[1], bounds[0]), tol)
         if abs(bounds[1] - bounds[0]) > 4:
             s1, e1 = math.ceil(bounds[0]), math.floor(bounds[1])
             res = 0.
-- 
2.43.0


From c929c6a9108aa33ae64e35e874860a03565dfe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 148/230] fix: evaluate_parameter_at_length ignored t0 and kept
 its table when the curve changed

---
 mmcore/geom/curves/curve.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index e7effce..a763873 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -301,11 +301,14 @@ class Curve:
         :param kwargs: Additional keyword arguments to be passed.
         :return: The parameter value at the specified length.
         """
-        if hasattr(self,'_length_evaluator'):
-            return self._length_evaluator(length)
-        else:
+        if t0 is not None:
+            length = length + self.evaluate_length((self.interval()[0], float(t0)), tol=tol)
+        # the curve, its interval and the tolerance may have changed since the last call
+        ends = tuple(float(v) for v in self.interval())
+        key = ends, tol, self.evaluate_length(ends, tol=tol)
+        if getattr(self, '_length_evaluator_key', None) != key:
             self._length_evaluator=length_evaluator(self,tol)
-
+            self._length_evaluator_key = key
 
         #start, end = self.interval()
         #t0 = t0 if t0 is not None else start
-- 
2.43.0


From 933c2893c44a3b781090d9a8d44b827ab5221221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 149/230] fix: ReparametrizedCurve.evaluate_length did not take
 a tolerance

---
 mmcore/geom/curves/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index a763873..f394d40 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -557,8 +557,8 @@ class ReparametrizedCurve(Curve):
         return self._interval
     def evaluate(self, t):
         return self.curve.evaluate(float(self.parametrization(t)))
-    def evaluate_length(self, bounds):
-        return self.curve.evaluate_length(tuple(self.parametrization(bounds)))
+    def evaluate_length(self, bounds, tol=1e-3):
+        return self.curve.evaluate_length(tuple(self.parametrization(bounds)), tol=tol)
     def tangent(self, t):
         return self.curve.tangent(self.parametrization(t))
     def normal(self, t):
-- 
2.43.0


From ccc768bbc96f168d87bdf28b859a63c8cc8fa10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 150/230] fix: NURBSpline kept the lengths it had before its
 control points changed

---
 mmcore/geom/curves/bspline.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mmcore/geom/curves/bspline.py b/mmcore/geom/curves/bspline.py
index f2c47f3..201e514 100644
--- a/mmcore/geom/curves/bspline.py
+++ b/mmcore/geom/curves/bspline.py
@@ -249,6 +249,13 @@ class NURBSpline(CNURBSpline, Curve):
     #
     #    super().invalidate_cache()
     #    self._cached_eval_func.cache_clear()
+    def evaluate_length(self, bounds, tol=1e-3):
+        shape = np.asarray(self.control_points).tobytes(), np.asarray(self.weights).tobytes(), np.asarray(self.knots).tobytes()
+        if shape != getattr(self, '_measured', None):
+            self._evaluate_length_cached.cache_clear()
+            self._measured = shape
+        return super().evaluate_length(bounds, tol)
+
     def points(self, *args, **kwargs):
         if self.degree == 1:
             return self.control_points[:-1]
-- 
2.43.0


From d271bae39c6efc213848a591586e1230adf74131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 151/230] fix: evaluate_parameter_from_length ran the Newton
 method on an absolute value and did not converge

---
 mmcore/numeric/numeric.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mmcore/numeric/numeric.py b/mmcore/numeric/numeric.py
index 064f8dd..6c1efbc 100644
--- a/mmcore/numeric/numeric.py
+++ b/mmcore/numeric/numeric.py
@@ -130,21 +130,19 @@ def evaluate_parameter_from_length(
     """
 
     def func_to_bisect(t):
-        return evaluate_length(first_der, t0, t, **kwargs)[0] - l
+        return evaluate_length(first_der, t0, t, tol=tol, **kwargs)[0] - l
 
     def func(t):
-        return abs(evaluate_length(first_der, t0, t, **kwargs)[0] - l)
+        return abs(func_to_bisect(t))
 
     #return newton(
     #    func, t0, tol=tol, maxiter=maxiter, x1=t1_limit, fprime=fprime, fprime2=fprime2
     #)
     res = iterative_divide_and_conquer_min(func, (t0, t1_limit), np.sqrt(tol))
     if fprime is None:
-        fprime= fdm(func)
-    if fprime2 is None:
-        fprime2 = fdm(fprime)
+        fprime = lambda t: scalar_norm(first_der(t))
     return newton(
-        func, res[0], tol=tol, maxiter=maxiter, x1=t1_limit, fprime=fprime, fprime2=fprime2
+        func_to_bisect, res[0], tol=tol, maxiter=maxiter, x1=t1_limit, fprime=fprime, fprime2=fprime2
     )
 
 
-- 
2.43.0


From cf7ed31c232b65f75d06c0677d0f35cf343f3aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 152/230] fix: a segment ending at a duplicate vertex crashed
 the triangulation

---
 mmcore/topo/mesh/triangle-c/triangle.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mmcore/topo/mesh/triangle-c/triangle.c b/mmcore/topo/mesh/triangle-c/triangle.c
index c229319..b92c19a 100644
--- a/mmcore/topo/mesh/triangle-c/triangle.c
+++ b/mmcore/topo/mesh/triangle-c/triangle.c
@@ -7405,10 +7405,18 @@ struct behavior *b;
 {
   struct otri triangleloop;
   vertex triorg;
+  vertex vertexloop;
 
   if (b->verbose) {
     printf("    Constructing mapping from vertices to triangles.\n");
   }
+  /* Duplicate vertices are the origin of no triangle. */
+  traversalinit(&m->vertices);
+  vertexloop = vertextraverse(m);
+  while (vertexloop != (vertex) NULL) {
+    setvertex2tri(vertexloop, (triangle) NULL);
+    vertexloop = vertextraverse(m);
+  }
   traversalinit(&m->triangles);
   triangleloop.tri = triangletraverse(m);
   while (triangleloop.tri != (triangle *) NULL) {
-- 
2.43.0


From 0f3baa202b590cdd45d31d24b84aa89251b6cf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 153/230] fix: triangulating coincident vertices crashed the
 process

---
 mmcore/topo/mesh/triangle/core.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/topo/mesh/triangle/core.pyx b/mmcore/topo/mesh/triangle/core.pyx
index a5c1ac3..7b68c68 100644
--- a/mmcore/topo/mesh/triangle/core.pyx
+++ b/mmcore/topo/mesh/triangle/core.pyx
@@ -235,6 +235,8 @@ def triang(_in, opts):
         raise ValueError('Input must have at least three vertices.')
 
     _in = {name:contig2d(_in[name], field_dtype[name]) for name in _in}
+    if (_in['pointlist'] == _in['pointlist'][0]).all():
+        raise ValueError('Input must have at least two distinct vertices.')
 
     opts = opts.encode('utf-8')
 
-- 
2.43.0


From 404978cbac9f852b164d071270864e9a2acfcafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 154/230] fix: a triangulation with neighbors could not be
 refined

---
 mmcore/topo/mesh/triangle/core.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/topo/mesh/triangle/core.pyx b/mmcore/topo/mesh/triangle/core.pyx
index 7b68c68..ce32f73 100644
--- a/mmcore/topo/mesh/triangle/core.pyx
+++ b/mmcore/topo/mesh/triangle/core.pyx
@@ -149,7 +149,7 @@ fields = (
     ('trianglelist', 'intc'),
     ('triangleattributelist', 'double'),
     ('trianglearealist', 'double'),
-    ('neighborlist', 'double'),
+    ('neighborlist', 'intc'),
 
     ('segmentlist', 'intc'),
     ('segmentmarkerlist', 'intc'),
-- 
2.43.0


From bfdce4bd33e130a7d0a34a9835a14a80ac15642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 155/230] fix: triangulate read past the end of the shorter of
 its input arrays

---
 mmcore/topo/mesh/triangle/core.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmcore/topo/mesh/triangle/core.pyx b/mmcore/topo/mesh/triangle/core.pyx
index ce32f73..db14fd6 100644
--- a/mmcore/topo/mesh/triangle/core.pyx
+++ b/mmcore/topo/mesh/triangle/core.pyx
@@ -70,6 +70,8 @@ cdef ii(int* _0, int* _1, int** pdata, check, free_):
         return array_ii(_0[0], _1[0], pdata[0])
 
     def _set(v):
+        if _0[0] and _0[0] != v.shape[0]:
+            raise ValueError('Input arrays have different lengths.')
         data = ptr_ii(v)
         pdata[0] = data
         _0[0], _1[0] = v.shape
@@ -90,6 +92,8 @@ cdef dd(int* _0, int* _1, double** pdata, check, free_):
         return array_dd(_0[0], _1[0], pdata[0])
 
     def _set(v):
+        if _0[0] and _0[0] != v.shape[0]:
+            raise ValueError('Input arrays have different lengths.')
         data = ptr_dd(v)
         pdata[0] = data
         _0[0], _1[0] = v.shape
-- 
2.43.0


From 816ea1d6f374ae9e4ef16e2b931629def9aa95f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 156/230] fix: prepare_args numbered the segments wrongly when
 a loop was closed

---
 mmcore/topo/mesh/triangle/tri.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mmcore/topo/mesh/triangle/tri.py b/mmcore/topo/mesh/triangle/tri.py
index 14bc46f..743429e 100644
--- a/mmcore/topo/mesh/triangle/tri.py
+++ b/mmcore/topo/mesh/triangle/tri.py
@@ -186,21 +186,22 @@ def segments_by_loop(loop, start_index=0):
     return np.array([(i, (i + 1) % len(loop)) for i in range(len(loop))], dtype=np.int32) + start_index
 
 
+def _open_loop(loop):
+    return loop[:-1] if np.allclose(loop[0], loop[-1]) else loop
+
+
 def prepare_args(boundaries, holes):
     _max = 0
 
-    data = dict(vertices=np.concatenate(list(boundaries)+ list(holes)), holes=np.zeros((len(holes), 2)))
+    boundaries = [_open_loop(boundary) for boundary in boundaries]
+    holes = [_open_loop(hole) for hole in holes]
+    data = dict(vertices=np.concatenate(boundaries + holes), holes=np.zeros((len(holes), 2)))
     edges = []
     for boundary in boundaries:
-        if np.allclose(boundary[0], boundary[-1]):
-            boundary = boundary[:-1]
         res = segments_by_loop(boundary, start_index=_max)
         edges.extend(res)
         _max = _max + len(boundary)
     for i, hole in enumerate(holes):
-        hole = list(reversed(hole))
-        if np.allclose(hole[0], hole[-1]):
-            hole = hole[:-1]
         data['holes'][i] = np.average(hole, axis=0)
         res = segments_by_loop(hole, start_index=_max)
         edges.extend(res)
-- 
2.43.0


From 1fd3baaa99d6471d4e5363ebae61c07a490d7216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 157/230] fix: prepare_args marked a non-convex hole by a point
 that may be outside it

---
 mmcore/topo/mesh/triangle/tri.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mmcore/topo/mesh/triangle/tri.py b/mmcore/topo/mesh/triangle/tri.py
index 743429e..adc61cd 100644
--- a/mmcore/topo/mesh/triangle/tri.py
+++ b/mmcore/topo/mesh/triangle/tri.py
@@ -190,6 +190,17 @@ def _open_loop(loop):
     return loop[:-1] if np.allclose(loop[0], loop[-1]) else loop
 
 
+def _point_inside(loop):
+    # the middle of the first piece inside the loop of a line between its two lowest levels
+    loop = np.asarray(loop, dtype=float)
+    y = np.mean(np.unique(loop[:, 1])[:2])
+    start, end = loop, np.roll(loop, -1, axis=0)
+    cross = (start[:, 1] > y) != (end[:, 1] > y)
+    start, end = start[cross], end[cross]
+    x = np.sort(start[:, 0] + (y - start[:, 1]) / (end[:, 1] - start[:, 1]) * (end[:, 0] - start[:, 0]))
+    return np.mean(x[:2]), y
+
+
 def prepare_args(boundaries, holes):
     _max = 0
 
@@ -202,7 +213,7 @@ def prepare_args(boundaries, holes):
         edges.extend(res)
         _max = _max + len(boundary)
     for i, hole in enumerate(holes):
-        data['holes'][i] = np.average(hole, axis=0)
+        data['holes'][i] = _point_inside(hole)
         res = segments_by_loop(hole, start_index=_max)
         edges.extend(res)
         _max = _max + len(hole)
-- 
2.43.0


From 077e9f4261ee10075197bc8a7100eda2f4d38152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:51 +0000
Subject: [PATCH 158/230] fix: splines with too few control points or knots
 were accepted and evaluated past their arrays

---
 mmcore/geom/nurbs.pyx | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 3014a27..a1095f5 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1125,9 +1125,23 @@ cdef public uint32_t VERSION=1
 cdef int MAGIC_BYTES_SIZE=4
 
 
+cdef int check_spline(Py_ssize_t count, int degree, double[:] knots) except -1:
+    cdef Py_ssize_t i
+    if degree < 0 or count < degree + 1:
+        raise ValueError("The number of control points cannot be less than degree+1.")
+    if knots is not None:
+        if knots.shape[0] != count + degree + 1:
+            raise ValueError("The number of knots must be the number of control points + degree + 1.")
+        for i in range(1, knots.shape[0]):
+            if not knots[i - 1] <= knots[i]:
+                raise ValueError("The knots must not decrease.")
+    return 0
+
+
 cdef class NURBSCurve(ParametricCurve):
     @staticmethod
     cdef NURBSCurve create(double[:,:] control_points, int degree, double[:] knots, bint periodic):
+        check_spline(control_points.shape[0], degree, knots)
         cdef NURBSCurve self = NURBSCurve.__new__(NURBSCurve)
         self._degree = degree
         self._periodic = periodic
@@ -1157,6 +1171,7 @@ cdef class NURBSCurve(ParametricCurve):
     def __reduce__(self):
         return (NURBSCurve, (np.asarray(self._control_points),self._degree,  np.asarray(self._knots),  self._periodic))
     def __init__(self, double[:,:] control_points, int degree=3, double[:] knots=None, bint periodic=0):
+        check_spline(control_points.shape[0], degree, knots)
 
         self._degree = degree
         self._periodic = periodic
@@ -1308,6 +1323,7 @@ cdef class NURBSCurve(ParametricCurve):
         return np.asarray(self._knots)
     @knots.setter
     def knots(self, double[:] v):
+        check_spline(self._control_points.shape[0], self._degree, v)
 
         self._knots=v.copy()
         self.knots_update_hook()
@@ -1502,6 +1518,7 @@ cdef class NURBSCurve(ParametricCurve):
 
 
     cpdef set(self, double[:,:] control_points, double[:] knots ):
+        check_spline(control_points.shape[0], self._degree, knots)
         self._control_points=control_points.copy()
         self._knots=knots.copy()
         self.knots_update_hook()
@@ -1841,8 +1858,8 @@ cdef class NURBSCurve(ParametricCurve):
         # Create new NURBSCurve object
         cdef NURBSCurve new_curve = NURBSCurve.__new__(NURBSCurve)
         new_curve._control_points = new_control_points
-        new_curve.knots = new_knots
         new_curve._degree = self._degree
+        new_curve.knots = new_knots
         new_curve._periodic = self._periodic
         new_curve._interval[0] = self._interval[0]
         new_curve._interval[1] = self._interval[1]
@@ -2015,6 +2032,8 @@ cdef class NURBSCurve(ParametricCurve):
         new_curve._degree = degree
         new_curve._periodic = periodic
 
+        check_spline(n_ctrlpts, degree, knots)
+
         # Update interval and other necessary properties
         new_curve.knots_update_hook()
 
@@ -2327,6 +2346,10 @@ def decompose_curve(NURBSCurve crv):
 cdef class NURBSSurface(ParametricSurface):
     @staticmethod
     cdef NURBSSurface create(double[:,:,:] control_points, int degree_u,int degree_v, double[:] knots_u, double[:] knots_v):
+        check_spline(control_points.shape[0], degree_u, knots_u)
+        check_spline(control_points.shape[1], degree_v, knots_v)
+        if control_points.shape[2] > 4:
+            raise ValueError("Control points have at most four coordinates.")
         cdef NURBSSurface self = NURBSSurface.__new__(NURBSSurface)
         self._interval=np.zeros((2,2))
         self._size =[control_points.shape[0],control_points.shape[1]]
@@ -2360,6 +2383,10 @@ cdef class NURBSSurface(ParametricSurface):
         self._update_interval()
         return self
     def __init__(self, double[:,:,:] control_points, tuple degree, double[:] knots_u=None, double[:] knots_v=None ):
+        check_spline(control_points.shape[0], degree[0], knots_u)
+        check_spline(control_points.shape[1], degree[1], knots_v)
+        if control_points.shape[2] > 4:
+            raise ValueError("Control points have at most four coordinates.")
         super().__init__()
         self._interval=np.zeros((2,2))
         self._size =[control_points.shape[0],control_points.shape[1]]
@@ -2399,7 +2426,9 @@ cdef class NURBSSurface(ParametricSurface):
         return np.array(self._knots_u)
     @knots_u.setter
     def knots_u(self,val):
-        self._knots_u=np.array(val,dtype=float)
+        cdef double[:] knots=np.array(val,dtype=float)
+        check_spline(self._size[0], self._degree[0], knots)
+        self._knots_u=knots
         self._update_interval()
 
     @property
@@ -2447,7 +2476,9 @@ cdef class NURBSSurface(ParametricSurface):
 
     @knots_v.setter
     def knots_v(self,val):
-        self._knots_v=np.array(val,dtype=float)
+        cdef double[:] knots=np.array(val,dtype=float)
+        check_spline(self._size[1], self._degree[1], knots)
+        self._knots_v=knots
         self._update_interval()
     @property
     def degree(self):
-- 
2.43.0


From b5b546e82f06e0302529af2ebca5519af1e3e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:51 +0000
Subject: [PATCH 159/230] fix: setting the degree of a spline left knots,
 interval and cached points of the old degree

---
 mmcore/geom/nurbs.pxd |  2 +-
 mmcore/geom/nurbs.pyx | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/nurbs.pxd b/mmcore/geom/nurbs.pxd
index 6cbaf89..84a5374 100644
--- a/mmcore/geom/nurbs.pxd
+++ b/mmcore/geom/nurbs.pxd
@@ -441,7 +441,7 @@ cdef class NURBSCurve(ParametricCurve):
     cdef double[:] _greville_abscissae
     @staticmethod
     cdef NURBSCurve create(double[:,:] control_points, int degree, double[:] knots, bint periodic)
-    cpdef void set_degree(self, int val)
+    cpdef set_degree(self, int val)
 
     cpdef int get_degree(self)
     cpdef bint is_periodic(self)
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index a1095f5..2d674e9 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1227,9 +1227,15 @@ cdef class NURBSCurve(ParametricCurve):
 
 
         return obj
-    cpdef void set_degree(self, int val):
+    cpdef set_degree(self, int val):
+        check_spline(self._control_points.shape[0], val, None)
+        if val == self._degree:
+            return
+        if self._periodic:
+            raise ValueError("The degree of a periodic curve cannot be changed.")
         self._degree=val
-
+        self.generate_knots()
+        self._evaluate_cached.cache_clear()
 
     cpdef int get_degree(self):
         return self._degree
@@ -2486,10 +2492,13 @@ cdef class NURBSSurface(ParametricSurface):
         return dg
     @degree.setter
     def degree(self, val):
+        check_spline(self._size[0], val[0], None)
+        check_spline(self._size[1], val[1], None)
         self._degree[0]=val[0]
         self._degree[1]=val[1]
         self.generate_knots_u()
         self.generate_knots_v()
+        self._update_interval()
 
 
     @cython.boundscheck(False)
-- 
2.43.0


From a6d4ff1ca8c69aa904bfe8048a9c262187d3b72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:51 +0000
Subject: [PATCH 160/230] fix: inserting a negative number of knots did not
 terminate

---
 mmcore/geom/nurbs.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 2d674e9..358d3a3 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1796,8 +1796,8 @@ cdef class NURBSCurve(ParametricCurve):
         """
 
         # more than degree equal interior knots would write past the control points
-        if count > self._degree - find_multiplicity(t, self._knots, 1e-12):
-            raise ValueError("The multiplicity of a knot cannot exceed the degree.")
+        if count < 0 or count > self._degree - find_multiplicity(t, self._knots, 1e-12):
+            raise ValueError("The number of inserted knots is negative or makes the multiplicity exceed the degree.")
         # Start curve knot insertion
         cdef int n = self._control_points.shape[0]
         cdef int new_count = n + count
@@ -2710,8 +2710,8 @@ cdef class NURBSSurface(ParametricSurface):
         cdef int v
 
         # more than degree equal interior knots would write past the control points
-        if count > self._degree[0] - find_multiplicity(t, self._knots_u, 1e-12):
-            raise ValueError("The multiplicity of a knot cannot exceed the degree.")
+        if count < 0 or count > self._degree[0] - find_multiplicity(t, self._knots_u, 1e-12):
+            raise ValueError("The number of inserted knots is negative or makes the multiplicity exceed the degree.")
 
         cdef int new_count_u = self._size[0] + count
         cdef int new_count_v = self._size[1]
@@ -2774,8 +2774,8 @@ cdef class NURBSSurface(ParametricSurface):
         cdef int u
 
         # more than degree equal interior knots would write past the control points
-        if count > self._degree[1] - find_multiplicity(t, self._knots_v, 1e-12):
-            raise ValueError("The multiplicity of a knot cannot exceed the degree.")
+        if count < 0 or count > self._degree[1] - find_multiplicity(t, self._knots_v, 1e-12):
+            raise ValueError("The number of inserted knots is negative or makes the multiplicity exceed the degree.")
 
         cdef int new_count_u = self._size[0]
         cdef int new_count_v = self._size[1] + count
-- 
2.43.0


From 4a40d49709b766fbb938d4b1e36f8458dd45d36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:18 +0000
Subject: [PATCH 161/230] fix: a negative derivative order wrote before the
 result

---
 mmcore/geom/nurbs.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 358d3a3..8825112 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1726,6 +1726,8 @@ cdef class NURBSCurve(ParametricCurve):
         :return: np.array with shape (d+1,M) where M is the number of vector components.
         """
 
+        if d < 0:
+            raise ValueError("The order of a derivative cannot be negative.")
         cdef int du = min(d, self._degree)
         cdef cnp.ndarray[double, ndim=2]  CK = np.zeros((du + 1, 3))
 
@@ -1744,6 +1746,8 @@ cdef class NURBSCurve(ParametricCurve):
             :type d: int
             :return: np.array with shape (d+1,M) where M is the number of vector components.
             """
+            if d < 0:
+                raise ValueError("The order of a derivative cannot be negative.")
             cdef int du = min(d, self._degree)
             cdef cnp.ndarray[double, ndim=2] CK = np.zeros((du + 1, 3))
 
@@ -1761,6 +1765,8 @@ cdef class NURBSCurve(ParametricCurve):
                :type d: int
                :return: np.array with shape (d+1,M) where M is the number of vector components.
             """
+            if d < 0:
+                raise ValueError("The order of a derivative cannot be negative.")
             cdef int n = len(self._control_points) - 1
             cdef int span = find_span(n, self._degree, t,self._knots,self._periodic)
             cdef cnp.ndarray[double, ndim=3] PK = np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1))
-- 
2.43.0


From 5208b73b4e1418d23204069de503333cad8f065a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:18 +0000
Subject: [PATCH 162/230] fix: NURBSCurve.bbox wrote past a result that is too
 small

---
 mmcore/geom/nurbs.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 8825112..b0eaedd 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2063,6 +2063,8 @@ cdef class NURBSCurve(ParametricCurve):
         cdef int i,j
         if result is None:
             result=np.zeros((2,3))
+        elif result.shape[0] < 2 or result.shape[1] < 3:
+            raise ValueError("The result must have the shape (2, 3).")
         # the control points of a curve are stored as euclidean (x,y,z) plus weight, not premultiplied
         for i in range(3):
             result[0,i]=self._control_points[0,i]
-- 
2.43.0


From 2f45b343b8b726ca1bdb14ea0e40a503769204a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:38 +0000
Subject: [PATCH 163/230] fix: deserialized curves never released their arrays

---
 mmcore/geom/nurbs.pyx | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index b0eaedd..bd882b4 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2018,24 +2018,15 @@ cdef class NURBSCurve(ParametricCurve):
             raise ValueError("Truncated data")
 
         # Allocate memory for control points and knots
-        cdef double* control_points_data = <double*>malloc(n_ctrlpts * 4 * sizeof(double))
-        cdef double* knots_data = <double*>malloc(n_knots * sizeof(double))
-
-        if control_points_data == NULL or knots_data == NULL:
-            free(control_points_data)
-            free(knots_data)
-            raise MemoryError("Failed to allocate memory for deserialization")
+        cdef double[:, ::1] control_points = np.empty((n_ctrlpts, 4))
+        cdef double[::1] knots = np.empty((n_knots,))
 
         # Copy control points data
-        memcpy(control_points_data, current, n_ctrlpts * 4 * sizeof(double))
+        memcpy(&control_points[0, 0], current, n_ctrlpts * 4 * sizeof(double))
         current += n_ctrlpts * 4 * sizeof(double)
 
         # Copy knots data
-        memcpy(knots_data, current, n_knots * sizeof(double))
-
-        # Create memory views for the allocated arrays
-        cdef double[:, :] control_points = <double[:n_ctrlpts, :4]>control_points_data
-        cdef double[:] knots = <double[:n_knots]>knots_data
+        memcpy(&knots[0], current, n_knots * sizeof(double))
 
         # Create new NURBSCurve object
         cdef NURBSCurve new_curve = NURBSCurve.__new__(NURBSCurve)
-- 
2.43.0


From 78e97e3224ce8be9b5285dd32b0d611e4a0ae0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:50 +0000
Subject: [PATCH 164/230] fix: surfaces with plane control points took their
 third coordinate from uninitialized memory

---
 mmcore/geom/nurbs.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index bd882b4..26d1b2f 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2367,6 +2367,7 @@ cdef class NURBSSurface(ParametricSurface):
         cdef int i, j, k
         if control_points.shape[2]<4:
             for i in range(cpt_count):
+                self.control_points_flat_view[i][2]=0.
                 self.control_points_flat_view[i][3]=1.
 
         for i in range(control_points.shape[0]):
@@ -2404,6 +2405,7 @@ cdef class NURBSSurface(ParametricSurface):
         cdef int i, j, k
         if control_points.shape[2]<4:
             for i in range(cpt_count):
+                self.control_points_flat_view[i][2]=0.
                 self.control_points_flat_view[i][3]=1.
 
         for i in range(control_points.shape[0]):
-- 
2.43.0


From 605380d589376929ef1d316b7dc8f924379dbed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 165/230] fix: looking up the span of a parameter before the
 first one of an unclamped knot vector did not terminate

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 mmcore/geom/nurbs.pxd         | 2 +-
 mmcore/geom/nurbs.pyx         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index a052240..f2b0f05 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -43,7 +43,7 @@ cdef int find_span(int n, int p, double u, double[:] U, bint is_periodic) noexce
 
             return n
 
-        elif u < U[0]:
+        elif u < U_min:
 
             return p
 
diff --git a/mmcore/geom/nurbs.pxd b/mmcore/geom/nurbs.pxd
index 84a5374..4827916 100644
--- a/mmcore/geom/nurbs.pxd
+++ b/mmcore/geom/nurbs.pxd
@@ -233,7 +233,7 @@ cdef inline int find_span_inline(int n, int p, double u, double[:] U, bint is_pe
 
             return n
 
-        elif u < U[0]:
+        elif u < U_min:
 
             return p
 
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 26d1b2f..0181184 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -142,7 +142,7 @@ cpdef int find_span(int n, int p, double u, double[:] U, bint is_periodic) noexc
 
             return n
 
-        elif u < U[0]:
+        elif u < U_min:
 
             return p
 
-- 
2.43.0


From 4e5ac60b2da53cd605b2fe88d0c5711bf9d892df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 166/230] fix: the interval of a surface with unclamped knots
 reached outside its domain

---
 mmcore/geom/nurbs.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 0181184..45db7cd 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2505,10 +2505,10 @@ cdef class NURBSSurface(ParametricSurface):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     cdef void _update_interval(self) :
-        self._interval[0][0] = self._knots_u[0]
-        self._interval[0][1] = self._knots_u[self._knots_u.shape[0]-1]
-        self._interval[1][0] = self._knots_v[0]
-        self._interval[1][1] = self._knots_v[self._knots_v.shape[0]-1]
+        self._interval[0][0] = self._knots_u[self._degree[0]]
+        self._interval[0][1] = self._knots_u[self._knots_u.shape[0]-self._degree[0]-1]
+        self._interval[1][0] = self._knots_v[self._degree[1]]
+        self._interval[1][1] = self._knots_v[self._knots_v.shape[0]-self._degree[1]-1]
     @cython.boundscheck(False)
     @cython.wraparound(False)
     @cython.cdivision(True)
-- 
2.43.0


From b8589318a46756ae0b7af736b74064d3da9eec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 167/230] fix: a knot inserted outside the domain made the knot
 vector decrease

---
 mmcore/geom/nurbs.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 45db7cd..4a79980 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1801,6 +1801,8 @@ cdef class NURBSCurve(ParametricCurve):
 
         """
 
+        if not self._knots[self._degree] <= t <= self._knots[self._control_points.shape[0]]:
+            raise ValueError("The inserted knot lies outside the domain.")
         # more than degree equal interior knots would write past the control points
         if count < 0 or count > self._degree - find_multiplicity(t, self._knots, 1e-12):
             raise ValueError("The number of inserted knots is negative or makes the multiplicity exceed the degree.")
@@ -2710,6 +2712,8 @@ cdef class NURBSSurface(ParametricSurface):
     cpdef void insert_knot_u(self, double t, int count):
         cdef int v
 
+        if not self._knots_u[self._degree[0]] <= t <= self._knots_u[self._size[0]]:
+            raise ValueError("The inserted knot lies outside the domain.")
         # more than degree equal interior knots would write past the control points
         if count < 0 or count > self._degree[0] - find_multiplicity(t, self._knots_u, 1e-12):
             raise ValueError("The number of inserted knots is negative or makes the multiplicity exceed the degree.")
@@ -2774,6 +2778,8 @@ cdef class NURBSSurface(ParametricSurface):
     cpdef void insert_knot_v(self, double t, int count) :
         cdef int u
 
+        if not self._knots_v[self._degree[1]] <= t <= self._knots_v[self._size[1]]:
+            raise ValueError("The inserted knot lies outside the domain.")
         # more than degree equal interior knots would write past the control points
         if count < 0 or count > self._degree[1] - find_multiplicity(t, self._knots_v, 1e-12):
             raise ValueError("The number of inserted knots is negative or makes the multiplicity exceed the degree.")
-- 
2.43.0


From 2abf10038b5f84c89bdae8d1e52166be9ecdf79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 168/230] fix: every copy of a surface leaked its knots

---
 mmcore/geom/nurbs.pyx | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 4a79980..c1cfbf4 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2589,33 +2589,23 @@ cdef class NURBSSurface(ParametricSurface):
     cdef NURBSSurface ccopy(self) :
         cdef int n_ctrlpts_u = self._size[0]
         cdef int n_ctrlpts_v = self._size[1]
-        cdef int n_knots_u = self._knots_u.shape[0]
-        cdef int n_knots_v = self._knots_v.shape[0]
 
         # Allocate memory for new arrays
         cdef double* new_control_points_arr = <double*>malloc(n_ctrlpts_u * n_ctrlpts_v * 4 * sizeof(double))
-        cdef double* new_knots_u = <double*>malloc(n_knots_u * sizeof(double))
-        cdef double* new_knots_v = <double*>malloc(n_knots_v * sizeof(double))
-
-        if new_control_points_arr == NULL or new_knots_u == NULL or new_knots_v == NULL:
-            free(new_control_points_arr)
-            free(new_knots_u)
-            free(new_knots_v)
 
+        if new_control_points_arr == NULL:
             raise MemoryError("Failed to allocate memory for surface copy")
 
         # Copy data using memcpy for efficiency
         memcpy(new_control_points_arr, self._control_points_arr, n_ctrlpts_u * n_ctrlpts_v * 4 * sizeof(double))
-        memcpy(new_knots_u, &self._knots_u[0], n_knots_u * sizeof(double))
-        memcpy(new_knots_v, &self._knots_v[0], n_knots_v * sizeof(double))
 
         # Create new NURBSSurface object
         cdef NURBSSurface new_surface = NURBSSurface.__new__(NURBSSurface)
         new_surface._control_points_arr = new_control_points_arr
         new_surface.control_points_view = <double[:n_ctrlpts_u, :n_ctrlpts_v, :4]>new_control_points_arr
         new_surface.control_points_flat_view = <double[:n_ctrlpts_u*n_ctrlpts_v, :4]>new_control_points_arr
-        new_surface._knots_u = <double[:n_knots_u]>new_knots_u
-        new_surface._knots_v = <double[:n_knots_v]>new_knots_v
+        new_surface._knots_u = self._knots_u.copy()
+        new_surface._knots_v = self._knots_v.copy()
         new_surface._degree[0] = self._degree[0]
         new_surface._degree[1] = self._degree[1]
         new_surface._size[0] = self._size[0]
-- 
2.43.0


From 8b4a7f840b5964b2fc9af608794863e0d7598bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 169/230] fix: reversing a curve leaked a copy of its control
 points

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index c1cfbf4..f0c7beb 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2147,7 +2147,7 @@ def reverse_curve(curve: NURBSCurve) -> NURBSCurve:
     NURBSCurve: New reversed curve
     """
     # Reverse control points
-    cdef double[:,:] new_cpts = np.flip(curve._control_points, axis=0).copy()
+    cdef double[:,:] new_cpts = np.flip(np.asarray(curve._control_points), axis=0).copy()
 
     # Reverse and adjust knot vector
     cdef double[:] new_knots = np.zeros_like(curve._knots)
-- 
2.43.0


From 7d0771c96febcd0439c8f6f496e02fa6dab418c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 170/230] fix: decomposing a curve with unclamped knots was
 refused

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index f0c7beb..edc9976 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2345,7 +2345,7 @@ cpdef list split_curve_multiple(NURBSCurve crv, double[:] params):
 @cython.boundscheck(False)
 @cython.cdivision(True)
 def decompose_curve(NURBSCurve crv):
-    cdef double[:] params=np.unique(crv._knots)
+    cdef double[:] params=np.unique(crv._knots[crv._degree:crv._knots.shape[0]-crv._degree])
     params=params[1:][:params.shape[0]-2]
     cdef list curves=split_curve_multiple(crv,params)
     return curves
-- 
2.43.0


From eb54fea5e0a8b791ddefacb5eda578c3e065a5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 171/230] fix: GJK called hulls that intersect disjoint and
 small disjoint hulls intersecting

---
 mmcore/numeric/algorithms/_gjk.cpp | 136 +++++++++++++----------------
 1 file changed, 61 insertions(+), 75 deletions(-)

diff --git a/mmcore/numeric/algorithms/_gjk.cpp b/mmcore/numeric/algorithms/_gjk.cpp
index b563b27..1206333 100644
--- a/mmcore/numeric/algorithms/_gjk.cpp
+++ b/mmcore/numeric/algorithms/_gjk.cpp
@@ -46,85 +46,70 @@ inline int supportVector(const std::vector<Vec3<T>>& vertices, const Vec3<T>& d)
     return supportIndex;
 }
 
+// Reduces the simplex to the smallest of its faces that holds the point closest to the origin and
+// returns that point. Faces without area or volume are covered by their own edges and vertices.
 template<typename T>
-bool handleSimplex(std::vector<Vec3<T>>& simplex, Vec3<T>& d, T tol) {
-    switch (simplex.size()) {
-        case 2: {
-            const auto& a = simplex[1];
-            const auto& b = simplex[0];
-            Vec3<T> ab = b - a;
-            Vec3<T> ao = {-a[0], -a[1], -a[2]};
-
-            if (dot(ab, ao) > tol) {
-                d = cross(cross(ab, ao), ab);
-            } else {
-                simplex.erase(simplex.begin());
-                d = ao;
-            }
-            break;
+Vec3<T> closestToOrigin(std::vector<Vec3<T>>& simplex) {
+    const T eps = std::numeric_limits<T>::epsilon();
+    const size_t n = simplex.size();
+    std::vector<Vec3<T>> face, best;
+    Vec3<T> closest = simplex[0];
+    T bestDist = std::numeric_limits<T>::infinity();
+
+    for (size_t mask = 1; mask < (static_cast<size_t>(1) << n); ++mask) {
+        face.clear();
+        for (size_t i = 0; i < n; ++i) {
+            if (mask & (static_cast<size_t>(1) << i)) face.push_back(simplex[i]);
         }
-        case 3: {
-            const auto& a = simplex[2];
-            const auto& b = simplex[1];
-            const auto& c = simplex[0];
-            Vec3<T> ab = b - a;
-            Vec3<T> ac = c - a;
-            Vec3<T> ao = {-a[0], -a[1], -a[2]};
-            Vec3<T> abc = cross(ab, ac);
-
-            if (dot(cross(abc, ac), ao) > tol) {
-                if (dot(ac, ao) > 0) {
-                    simplex.erase(simplex.begin() + 1);
-                    d = cross(cross(ac, ao), ac);
-                } else {
-                    simplex.erase(simplex.begin());
-                    return handleSimplex(simplex, d, tol);
-                }
-            } else {
-                if (dot(cross(ab, abc), ao) > tol) {
-                    simplex.erase(simplex.begin());
-                    return handleSimplex(simplex, d, tol);
-                } else {
-                    if (dot(abc, ao) > tol) {
-                        d = abc;
-                    } else {
-                        std::swap(simplex[0], simplex[1]);
-                        d = {-abc[0], -abc[1], -abc[2]};
-                    }
-                }
-            }
-            break;
+        const size_t k = face.size();
+        const Vec3<T> po = {-face[0][0], -face[0][1], -face[0][2]};
+        Vec3<T> e[3];
+        T len[3];
+        T w[3] = {0, 0, 0};
+        for (size_t i = 1; i < k; ++i) {
+            e[i - 1] = face[i] - face[0];
+            len[i - 1] = std::sqrt(dot(e[i - 1], e[i - 1]));
         }
-        case 4: {
-            const auto& a = simplex[3];
-            const auto& b = simplex[2];
-            const auto& c = simplex[1];
-            const auto& dPoint = simplex[0];
-
-            Vec3<T> ab = b - a;
-            Vec3<T> ac = c - a;
-            Vec3<T> ad = dPoint - a;
-            Vec3<T> ao = {-a[0], -a[1], -a[2]};
-
-            Vec3<T> abc = cross(ab, ac);
-            Vec3<T> acd = cross(ac, ad);
-            Vec3<T> adb = cross(ad, ab);
-
-            if (dot(abc, ao) > 0) {
-                simplex.erase(simplex.begin());
-                return handleSimplex(simplex, d, tol);
-            } else if (dot(acd, ao) > 0) {
-                simplex.erase(simplex.begin() + 1);
-                return handleSimplex(simplex, d, tol);
-            } else if (dot(adb, ao) > 0) {
-                simplex.erase(simplex.begin() + 2);
-                return handleSimplex(simplex, d, tol);
-            } else {
-                return true;
-            }
+        if (k == 2) {
+            if (len[0] == 0) continue;
+            w[0] = dot(e[0], po) / (len[0] * len[0]);
+        } else if (k == 3) {
+            const Vec3<T> normal = cross(e[0], e[1]);
+            const T nn = dot(normal, normal);
+            if (std::sqrt(nn) <= 16 * eps * len[0] * len[1]) continue;
+            w[0] = dot(cross(po, e[1]), normal) / nn;
+            w[1] = dot(cross(e[0], po), normal) / nn;
+        } else if (k == 4) {
+            const T volume = dot(e[0], cross(e[1], e[2]));
+            if (std::abs(volume) <= 16 * eps * len[0] * len[1] * len[2]) continue;
+            w[0] = dot(po, cross(e[1], e[2])) / volume;
+            w[1] = dot(e[0], cross(po, e[2])) / volume;
+            w[2] = dot(e[0], cross(e[1], po)) / volume;
+        }
+        if (w[0] < 0 || w[1] < 0 || w[2] < 0 || w[0] + w[1] + w[2] > 1) continue;
+
+        Vec3<T> point = face[0];
+        for (size_t i = 1; i < k; ++i) {
+            for (size_t j = 0; j < 3; ++j) point[j] += w[i - 1] * e[i - 1][j];
+        }
+        if (k == 4) point = {0, 0, 0};
+        const T dist = dot(point, point);
+        if (dist < bestDist) {
+            bestDist = dist;
+            closest = point;
+            best = face;
         }
     }
-    return false;
+    simplex = best;
+    return closest;
+}
+
+// Points d from the simplex to the origin; true when the simplex reaches the origin.
+template<typename T>
+bool handleSimplex(std::vector<Vec3<T>>& simplex, Vec3<T>& d, T tol) {
+    const Vec3<T> closest = closestToOrigin(simplex);
+    d = {-closest[0], -closest[1], -closest[2]};
+    return dot(d, d) <= tol * tol;
 }
 
 template<typename T>
@@ -185,5 +170,6 @@ bool gjk_collision_detection(const std::vector<Vec3<T>>& vertices1, const std::v
             }
         }
 
-        return false;
+        // No direction that separates the hulls was found
+        return true;
     }
\ No newline at end of file
-- 
2.43.0


From 1a5931f2f8f2ae29adea4a8a060ab01fbfe2f0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 172/230] fix: the spherical test called sets that intersect
 separable

---
 .../intersection/separability/spherical.py    | 56 +++++++++----------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/mmcore/numeric/intersection/separability/spherical.py b/mmcore/numeric/intersection/separability/spherical.py
index 321cd20..0d74f88 100644
--- a/mmcore/numeric/intersection/separability/spherical.py
+++ b/mmcore/numeric/intersection/separability/spherical.py
@@ -1,5 +1,4 @@
 import numpy as np
-from scipy.optimize import linprog
 
 __all__=['spherical_separability']
 
@@ -7,6 +6,7 @@ from mmcore.geom.nurbs import subdivide_surface, split_curve, NURBSSurface, NURB
 
 from mmcore.numeric.vectors import unit, dot, scalar_norm, scalar_unit
 from mmcore.numeric.interval import Interval,Comparison
+from mmcore.numeric.algorithms.cygjk import gjk
 
 
 def project_to_sphere(points, center):
@@ -25,9 +25,12 @@ def find_smallest_wedge(points_2d):
     angle_diffs = np.append(
         angle_diffs, 2 * np.pi - sorted_angles[-1] + sorted_angles[0]
     )
+    # The wedge runs counterclockwise from the end of the largest gap to its start
     max_gap = np.argmax(angle_diffs)
-    start_angle = sorted_angles[max_gap]
-    end_angle = sorted_angles[(max_gap + 1) % len(sorted_angles)]
+    start_angle = sorted_angles[(max_gap + 1) % len(sorted_angles)]
+    end_angle = sorted_angles[max_gap]
+    if end_angle < start_angle:
+        end_angle += 2 * np.pi
     return start_angle, end_angle
 
 
@@ -47,39 +50,28 @@ def spherical_bounding_box_test(points1, points2, center):
         wedge1_start, wedge1_end = find_smallest_wedge(plane_coords1)
         wedge2_start, wedge2_end = find_smallest_wedge(plane_coords2)
 
-        # Check if wedges are separated
-        if (wedge1_end < wedge2_start and wedge2_end > wedge1_start) or (
-            wedge2_end < wedge1_start and wedge1_end > wedge2_start
-        ):
+        # Only convex wedges that do not overlap separate the hulls
+        span1, span2 = wedge1_end - wedge1_start, wedge2_end - wedge2_start
+        offset = (wedge2_start - wedge1_start) % (2 * np.pi)
+        if span1 < np.pi and span2 < np.pi and span1 < offset and offset + span2 < 2 * np.pi:
             return True  # Separating circle found
 
     return False  # No separating circle found
 
 
 def separating_circles_test(points1, points2, center):
-    """Perform separating circles test using linear programming."""
+    """Perform separating circles test using the GJK algorithm."""
     sphere_points1 = project_to_sphere(points1, center)
     sphere_points2 = project_to_sphere(points2, center)
 
-    m, n = len(sphere_points1), len(sphere_points2)
-
-    # Set up the linear programming problem
-    c = [0, 0, 0, 1]  # Objective function coefficients
-    A_ub = np.vstack(
-        (
-            np.hstack((-sphere_points1, -np.ones((m, 1)))),
-            np.hstack((sphere_points2, -np.ones((n, 1)))),
-        )
+    # A plane through the center separates the points when, with the second set mirrored,
+    # all of them lie on one side of it, that is when their hull does not reach the center
+    return not gjk(
+        np.vstack((sphere_points1, -sphere_points2)), np.zeros((1, 3))
     )
-    b_ub = np.zeros(m + n)
-
-    # Solve the linear programming problem
-    res = linprog(c, A_ub=A_ub, b_ub=b_ub, method="highs")
-
-    return not res.success  # True if no separating plane was found
 
 
-def spherical_separability(surface_points, curve_points, intersection_point):
+def spherical_separability(surface_points, curve_points, intersection_point, tol=1e-6):
     """
     Perform a spherical separability test between a NURBS surface and curve, given a known intersection point.
     This test is based on the method described in section 4.3, "Spherical Separability" by Michael Edward Hohmeyer.
@@ -92,7 +84,7 @@ def spherical_separability(surface_points, curve_points, intersection_point):
     The algorithm implements two tests:
 
     1. A fast spherical bounding box test, which provides an initial check for separability.
-    2. If the bounding box test fails, a more accurate separating circles test is performed, based on linear programming.
+    2. If the bounding box test fails, a more accurate separating circles test is performed, based on the GJK algorithm.
 
     Parameters
     ----------
@@ -108,6 +100,10 @@ def spherical_separability(surface_points, curve_points, intersection_point):
         The known intersection point between the surface and the curve. This point will be excluded from the separability tests.
     :type intersection_point: np.ndarray
 
+    :param tol:
+        Points closer to the intersection point than this are taken to be the intersection point.
+    :type tol: float, optional
+
     Returns
     -------
     :return:
@@ -120,7 +116,7 @@ def spherical_separability(surface_points, curve_points, intersection_point):
     - The function performs two stages of separability testing: an initial bounding box test and a more accurate
       separating circles test if necessary.
     - The spherical bounding box test is analogous to axis-aligned bounding box tests in 3D space, and is computationally inexpensive.
-    - The separating circles test uses a linear programming approach to determine whether the curve and surface projections
+    - The separating circles test uses the GJK algorithm to determine whether the curve and surface projections
       onto the sphere are separable.
 
     Example
@@ -149,9 +145,13 @@ def spherical_separability(surface_points, curve_points, intersection_point):
 
     # Remove the intersection point from both sets
     surface_points = surface_points[
-        ~np.all(surface_points == intersection_point, axis=1)
+        np.linalg.norm(surface_points - intersection_point, axis=1) > tol
+    ]
+    curve_points = curve_points[
+        np.linalg.norm(curve_points - intersection_point, axis=1) > tol
     ]
-    curve_points = curve_points[~np.all(curve_points == intersection_point, axis=1)]
+    if len(surface_points) == 0 or len(curve_points) == 0:
+        return True
 
     # First, try the cheaper bounding box test
     if spherical_bounding_box_test(surface_points, curve_points, intersection_point):
-- 
2.43.0


From 51a378891d2638251d97c2487bfa4a25cbe22ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 173/230] fix: a curve-surface intersection next to another one
 or on a patch border was lost

---
 mmcore/numeric/intersection/csx/_ncsx.py | 69 +++++++++++++-----------
 1 file changed, 37 insertions(+), 32 deletions(-)

diff --git a/mmcore/numeric/intersection/csx/_ncsx.py b/mmcore/numeric/intersection/csx/_ncsx.py
index 5e6af8d..5db7349 100644
--- a/mmcore/numeric/intersection/csx/_ncsx.py
+++ b/mmcore/numeric/intersection/csx/_ncsx.py
@@ -67,23 +67,10 @@ class NURBSCurveSurfaceIntersector:
         # interior_intersections = self._get_interior_intersections(curve, surface)
 
         new_point = self._find_new_intersection(curve, surface)
+        t0, t1 = curve.interval()
         (u0, u1), (v0, v1) = surface.interval()
         if new_point is None:
-            t0, t1 = curve.interval()
-
-
-            curve1, curve2 = split_curve(curve, (t0 + t1) * 0.5, normalize_knots=False)
-            # normalize_curve_knots(curve1)
-            # normalize_curve_knots(curve2)
-            u,v=(u0 + u1) * 0.5, (v0 + v1) * 0.5
-
-
-            if abs(u - u0) < self.ptol or abs(u - u1) < self.ptol or abs(v - v0) < self.ptol or abs(v - v1) < self.ptol:
-
-                return
-            surface1, surface2, surface3, surface4 = subdivide_surface(
-                surface, (u0 + u1) * 0.5, (v0 + v1) * 0.5, self.ptol, normalize_knots=False
-            )
+            t, u, v = (t0 + t1) * 0.5, (u0 + u1) * 0.5, (v0 + v1) * 0.5
 
         else:
             point, (t, u, v) = new_point
@@ -93,19 +80,22 @@ class NURBSCurveSurfaceIntersector:
 
             else:
                 self.intersections.append(("transversal", point, (t, u, v)))
-            if abs(u-u0)<self.ptol or abs(u-u1)<self.ptol or  abs(v-v0)<self.ptol or  abs(v-v1)<self.ptol:
-
-                return
             if spherical_separability(
-                np.array(surface.control_points_flat), curve.control_points, point
+                np.array(surface.control_points_flat), np.array(curve.control_points), point
             ):
                 return
 
-            curve1, curve2 = split_curve(curve, t, tol=self.ptol,normalize_knots=False)
-            # normalize_curve_knots(curve1)
-            # normalize_curve_knots(curve2)
+        if min(t1 - t0, u1 - u0, v1 - v0) <= 2 * self.ptol:
+            return
+        t = self._split_parameter(t, t0, t1)
+        u = self._split_parameter(u, u0, u1)
+        v = self._split_parameter(v, v0, v1)
+
+        curve1, curve2 = split_curve(curve, t, tol=self.ptol, normalize_knots=False)
+        # normalize_curve_knots(curve1)
+        # normalize_curve_knots(curve2)
 
-            surface1, surface2, surface3, surface4  = subdivide_surface(surface, u, v, tol=self.ptol, normalize_knots=False)
+        surface1, surface2, surface3, surface4 = subdivide_surface(surface, u, v, tol=self.ptol, normalize_knots=False)
 
         self._curve_surface_intersect(curve1, surface1)
         self._curve_surface_intersect(curve1, surface2)
@@ -120,13 +110,24 @@ class NURBSCurveSurfaceIntersector:
         # Implement separability test from section 4.2
         # Return True if curve and surface don't intersect except at already discovered points
 
-        return spatial_separability(
-            curve.control_points,
-            np.array(surface.control_points_flat),
-            tol=self.tolerance,
-        )
-
-
+        curve_points = np.array(curve.control_points)
+        surface_points = np.array(surface.control_points_flat)
+        if spatial_separability(curve_points, surface_points, tol=self.ptol):
+            return True
+
+        t_range, (u_range, v_range) = curve.interval(), surface.interval()
+        for _, point, params in self._get_interior_intersections(curve, surface):
+            if self._is_valid_parameter(
+                params, t_range, u_range, v_range, self.ptol
+            ) and spherical_separability(surface_points, curve_points, point):
+                return True
+        return False
+
+    def _split_parameter(self, param, start, end):
+        # Split at the intersection, or in the middle when it lies on the border
+        if start + self.ptol < param < end - self.ptol:
+            return param
+        return (start + end) * 0.5
 
     def _get_interior_intersections(self, curve, surface):
         # Return list of already discovered intersection points interior to curve or surface
@@ -171,12 +172,16 @@ class NURBSCurveSurfaceIntersector:
 
         return None
 
-    def _is_valid_parameter(self, params, t_range, u_range, v_range):
+    def _is_valid_parameter(self, params, t_range, u_range, v_range, tol=0.0):
         t, u, v = params
         t0, t1 = t_range
         (u0, u1), (v0, v1) = u_range, v_range
 
-        return t0 <= t <= t1 and u0 <= u <= u1 and v0 <= v <= v1
+        return (
+            t0 - tol <= t <= t1 + tol
+            and u0 - tol <= u <= u1 + tol
+            and v0 - tol <= v <= v1 + tol
+        )
 
     def _is_degenerate(self, point, curve, surface):
         t, u, v = point
-- 
2.43.0


From b321af20152db655d21ae5b37a773f0bfefd34c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 174/230] fix: a curve that misses the surface made csx fail

---
 mmcore/numeric/intersection/csx/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/intersection/csx/__init__.py b/mmcore/numeric/intersection/csx/__init__.py
index c31ce4d..d3a3a84 100644
--- a/mmcore/numeric/intersection/csx/__init__.py
+++ b/mmcore/numeric/intersection/csx/__init__.py
@@ -249,9 +249,9 @@ def csx(curve, surface, tol=1e-3,ptol=1e-6):
     if isinstance(curve,NURBSCurve ) and isinstance(surface, NURBSSurface):
         ixs=nurbs_csx(curve, surface, tol=tol, ptol=ptol)
         ixs.sort(key=lambda x: x[2][0])
-        typs, pts,params=zip(*ixs)
+        params = [params for _, _, params in ixs]
 
-        return np.array(params)
+        return np.array(params).reshape((-1, 3))
     elif hasattr(surface,'implicit'):
         return curve_implicit_intersection(curve,surface,tol=ptol)
     else:
-- 
2.43.0


From 6f50e1eee96bbb6e9337aab0e7ee896d300abb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 175/230] fix: a surface-surface intersection could run
 straight across a curved part or to a wrong border point

---
 mmcore/numeric/intersection/ssx/surface_surface.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/intersection/ssx/surface_surface.py b/mmcore/numeric/intersection/ssx/surface_surface.py
index 2b8375c..ca5dc93 100644
--- a/mmcore/numeric/intersection/ssx/surface_surface.py
+++ b/mmcore/numeric/intersection/ssx/surface_surface.py
@@ -361,7 +361,18 @@ class MarchingMethod(SSXMethod):
         self.fdm_h = fdm_h
         self.boundary_terminators = boundary_terminators
         self.freeform=freeform
+        self.max_step = 0.02 * min(
+            self.surface_size(s1, self.s1_interval), self.surface_size(s2, self.s2_interval)
+        )
 
+    @staticmethod
+    def surface_size(surface, interval):
+        (umin, umax), (vmin, vmax) = interval
+        pts = np.array([
+            surface.evaluate(np.array([u, v]))
+            for u in np.linspace(umin, umax, 5) for v in np.linspace(vmin, vmax, 5)
+        ])
+        return scalar_norm(np.ptp(pts, axis=0))
 
     def step(self, uv1, uv2):
         #print(f'{self.__class__}.solve({uv1, uv2})')
@@ -412,7 +423,8 @@ class MarchingMethod(SSXMethod):
         r = 1 / K
 
         step = np.sqrt(r ** 2 - (r - self.tol) ** 2) * 2
-        return step
+        # The curvature says nothing about the intersection far from the point
+        return step if step < self.max_step else self.max_step
 
     def calculate_new_plane(self, ders: IntersectionStepData, step):
         pt1, n1 = ders.first.pt, ders.first.normal
-- 
2.43.0


From 1d364353f57830d9178593c04693a670225d5c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 176/230] fix: a surface-surface intersection with a short
 branch failed

---
 mmcore/numeric/intersection/ssx/surface_surface.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mmcore/numeric/intersection/ssx/surface_surface.py b/mmcore/numeric/intersection/ssx/surface_surface.py
index ca5dc93..5bf92bd 100644
--- a/mmcore/numeric/intersection/ssx/surface_surface.py
+++ b/mmcore/numeric/intersection/ssx/surface_surface.py
@@ -734,6 +734,13 @@ def ssx(
     curves, curves_uvs, stepss, terminators = res
     results = []
     for i, curve_pts in enumerate(curves):
+        # A curve traced from the border repeats its first point, which cannot be interpolated
+        curve_pts = np.array(curve_pts)
+        keep = np.append(True, np.linalg.norm(np.diff(curve_pts, axis=0), axis=1) > 1e-6)
+        if np.count_nonzero(keep) < 2:
+            continue
+        curve_pts = curve_pts[keep]
+        curves_uvs[i] = [uvs[keep] for uvs in curves_uvs[i]]
         curve = interpolate_nurbs_curve(curve_pts, 3)
 
         if all([terminator is TerminatorType.LOOP for terminator in terminators[i]]):
-- 
2.43.0


From ea64552632803a14fcd71c58e10d5001cd734df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 177/230] fix: the intersection of a surface with an
 axis-aligned plane patch was empty

---
 mmcore/numeric/gauss_map.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/gauss_map.py b/mmcore/numeric/gauss_map.py
index 508385a..bcd6e7e 100644
--- a/mmcore/numeric/gauss_map.py
+++ b/mmcore/numeric/gauss_map.py
@@ -437,8 +437,11 @@ def _detect_intersections_deep(g1, g2, chs:dict,tol=0.01, dbg: DebugTree = None)
     ii=np.zeros((2,3))
     aabb_intersection(bb1,bb2,ii)
 
-    if np.min(ii[1]-ii[0]) < tol:
+    overlap = ii[1]-ii[0]
+    extent = np.minimum(bb1[1]-bb1[0], bb2[1]-bb2[0])
+    if np.any((overlap < tol) & (overlap < extent)):
         # Бокс не маленький, но очень плоский. объекты не пересекаются
+        # (кроме случая когда плоским является сам объект)
         #dddd[2] = True
 
         return []
-- 
2.43.0


From bb80fbda353d4d1c552ad9730dcfb8487d647363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 178/230] fix: intersections of a curve that follows a split
 line of the surface were lost

---
 mmcore/numeric/intersection/csx/_ncsx.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/intersection/csx/_ncsx.py b/mmcore/numeric/intersection/csx/_ncsx.py
index 5db7349..c1cebd9 100644
--- a/mmcore/numeric/intersection/csx/_ncsx.py
+++ b/mmcore/numeric/intersection/csx/_ncsx.py
@@ -154,9 +154,11 @@ class NURBSCurveSurfaceIntersector:
         # print(result)
         if (
             result is not None
-            and self._is_valid_parameter(result, (t0, t1), (u0, u1), (v0, v1))
+            and self._is_valid_parameter(result, (t0, t1), (u0, u1), (v0, v1), self.ptol)
             and not any(np.isnan(result))
         ):
+            # An intersection on the border can be found just outside of it
+            result = np.clip(result, (t0, u0, v0), (t1, u1, v1))
             point = curve.evaluate(result[0])
             point2 = surface.evaluate_v2(*result[1:])
             r = scalar_norm(point - point2)
-- 
2.43.0


From 054d521cc8cf17e58d1ff818a6c5064029b77761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 179/230] fix: curve_surface_ppi does not report points where
 Newton did not converge or left the domains

---
 mmcore/numeric/intersection/csx/__init__.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/intersection/csx/__init__.py b/mmcore/numeric/intersection/csx/__init__.py
index d3a3a84..189495f 100644
--- a/mmcore/numeric/intersection/csx/__init__.py
+++ b/mmcore/numeric/intersection/csx/__init__.py
@@ -187,13 +187,23 @@ def find_intersections_grid(curve, surface, t_range, uv_range, steps=50, thresho
     intersections = []
     for guess in initial_guesses:
         refined = newton_raphson(curve, surface, guess,tol=tol)
-        if not any(
+        if is_intersection(curve, surface, refined, tol) and not any(
                 np.allclose(refined, intersection, atol=tol)
                 for intersection in intersections
         ):
             intersections.append(refined)
     return intersections
 
+def is_intersection(curve, surface, params, tol=1e-6):
+    """
+    Newton's method may stop at its iteration limit or outside the domains: such a result is not an intersection.
+    """
+    bounds = (curve.interval(), *surface.interval())
+    if not all(lo <= x <= hi for x, (lo, hi) in zip(params, bounds)):
+        return False
+    return scalar_norm(np.asarray(difference(curve, surface, params), float)) <= tol
+
+
 def find_intersections_bvh(curve, surface, tol=1e-6):
 
     initial_guesses = list(bvh_search(curve, surface))
@@ -201,7 +211,7 @@ def find_intersections_bvh(curve, surface, tol=1e-6):
     for guess in initial_guesses:
         refined = newton_raphson(curve, surface, guess, tol=tol)
 
-        if not any(
+        if is_intersection(curve, surface, refined, tol) and not any(
                 np.allclose(refined, intersection, atol=tol)
                 for intersection in intersections
         ):
-- 
2.43.0


From 22e214023bc412170f6649ba791a3a4ea79309a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 180/230] fix: point_inversion_surface returned its initial
 values on planes, which stopped the tracing of intersections

---
 mmcore/numeric/algorithms/point_inversion.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/algorithms/point_inversion.py b/mmcore/numeric/algorithms/point_inversion.py
index daf103f..7b6bd65 100644
--- a/mmcore/numeric/algorithms/point_inversion.py
+++ b/mmcore/numeric/algorithms/point_inversion.py
@@ -185,7 +185,11 @@ def point_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: floa
                 dv)) <= tol1:
             break
         new_pt=surface.evaluate(ui1vi1)
-        if scalar_norm( new_pt- P) <= tol1:
+        distance = scalar_norm(new_pt - P)
+        if distance <= tol1:
+            # Newton's step is exact on a plane, so that the previous values are not close to the solution
+            if distance <= 1e-4 * tol1:
+                return ui1vi1
             break
         new_du=surface.derivative_u(ui1vi1)
         new_dv=surface.derivative_v(ui1vi1)
@@ -193,6 +197,8 @@ def point_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: floa
         pt_diff= new_pt-P
         if max(abs(scalar_dot(new_du, pt_diff)) / np.linalg.norm(new_du),
                abs(scalar_dot(new_dv, pt_diff)) / np.linalg.norm(new_dv)) / np.linalg.norm(pt_diff) <= tol2:
+            if _ == 0:
+                return ui1vi1
             break
 
         uivi = ui1vi1
-- 
2.43.0


From 6ab4dfb1593e123849b9fbae86711e818239ddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 181/230] fix: an intersection that runs along the edge of a
 surface was cut short

---
 .../intersection/ssx/surface_surface.py       | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/mmcore/numeric/intersection/ssx/surface_surface.py b/mmcore/numeric/intersection/ssx/surface_surface.py
index 5bf92bd..cf5b6e8 100644
--- a/mmcore/numeric/intersection/ssx/surface_surface.py
+++ b/mmcore/numeric/intersection/ssx/surface_surface.py
@@ -383,16 +383,22 @@ class MarchingMethod(SSXMethod):
         #print('initial_data',intersection_step_data)
         curvature_vector = self.calculate_sectional_curvature(intersection_step_data)
         step = self.calculate_step(curvature_vector)
-        pt_better = self.refine_point(intersection_step_data, step=step)
-        if pt_better is None:
-            return
+        # Where the intersection runs along the edge a step may leave the domain far from the end of the curve
+        for _ in range(6):
+            pt_better = self.refine_point(intersection_step_data, step=step)
+            if pt_better is None:
+                return
 
-        uv1_better, uv2_better = self.improve_uvs(intersection_step_data, pt_better)
+            uv1_better, uv2_better = self.improve_uvs(intersection_step_data, pt_better)
 
 
-        is_edge, (pt_better, uv1_better, uv2_better) = self.handle_edge(
-            pt_better, uv1_better, uv2_better
-        )
+            is_edge, (pt_better, uv1_better, uv2_better) = self.handle_edge(
+                pt_better, uv1_better, uv2_better
+            )
+            if not is_edge or scalar_norm(np.asarray(pt_better - intersection_step_data.first.pt)) <= 2 * step:
+                break
+            step *= 0.5
+
         if is_edge:
             return (
                 (pt_better, uv1_better),
-- 
2.43.0


From 96c7bdaff0c9e00367ab82ab35c1570319aeac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 182/230] fix: the last parameters of a closed intersection
 were not those of its last point

---
 mmcore/numeric/intersection/ssx/surface_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/intersection/ssx/surface_surface.py b/mmcore/numeric/intersection/ssx/surface_surface.py
index cf5b6e8..4b69652 100644
--- a/mmcore/numeric/intersection/ssx/surface_surface.py
+++ b/mmcore/numeric/intersection/ssx/surface_surface.py
@@ -534,7 +534,7 @@ class MarchingMethod(SSXMethod):
             if scalar_norm(xyz1 - xyz1_init) < step:
                 pts.append(pts[0])
 
-                uvs.append((initial_uv1, initial_uv2))
+                uvs.append(uvs[0])
                 terminator = TerminatorType.LOOP
                 break
 
-- 
2.43.0


From 8d3dadec6df65243e2cc8c1958e08947a63b538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 183/230] fix: traced intersection points could leave the
 surfaces by far more than the tolerance

---
 .../intersection/ssx/surface_surface.py       | 32 ++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/intersection/ssx/surface_surface.py b/mmcore/numeric/intersection/ssx/surface_surface.py
index 4b69652..452cbaa 100644
--- a/mmcore/numeric/intersection/ssx/surface_surface.py
+++ b/mmcore/numeric/intersection/ssx/surface_surface.py
@@ -390,7 +390,10 @@ class MarchingMethod(SSXMethod):
                 return
 
             uv1_better, uv2_better = self.improve_uvs(intersection_step_data, pt_better)
-
+            if not (np.array_equal(uv1_better, uv1) or np.array_equal(uv2_better, uv2)):
+                pt_better, uv1_better, uv2_better = self.correct(
+                    intersection_step_data.tangent, pt_better, uv1_better, uv2_better
+                )
 
             is_edge, (pt_better, uv1_better, uv2_better) = self.handle_edge(
                 pt_better, uv1_better, uv2_better
@@ -423,6 +426,33 @@ class MarchingMethod(SSXMethod):
             TerminatorType.STEP,
         )
 
+    def correct(self, tangent, pt, uv1, uv2):
+        """
+        Returns to the intersection, across the direction of the step, where the surfaces bend away from the tangent
+        planes by much more than the tolerance.
+        """
+        limit = 20 * self.tol
+        pt_new, uv1_new, uv2_new = pt, uv1, uv2
+        for _ in range(10):
+            if any(self.handle_inside(*uv1_new, *uv2_new)):
+                break
+            data = [
+                self.calculate_derivatives_data(self.s1, np.array(uv1_new)),
+                self.calculate_derivatives_data(self.s2, np.array(uv2_new)),
+            ]
+            if max(scalar_norm(d.pt - pt_new) for d in data) <= limit:
+                return pt_new, uv1_new, uv2_new
+            limit = self.tol
+            pt_new = np.array(
+                plane_plane_plane_intersect_points_and_normals(
+                    data[0].pt, data[0].normal, data[1].pt, data[1].normal, pt, tangent
+                )
+            )
+            uv1_new, uv2_new = (
+                d.uv + np.linalg.lstsq(np.column_stack((d.du, d.dv)), pt_new - d.pt, rcond=None)[0] for d in data
+            )
+        return pt, uv1, uv2
+
     def calculate_step(self, curvature_vector):
         K = scalar_norm(curvature_vector)
 
-- 
2.43.0


From 2bdc5ae85628d703e04a3d9f01898c254b788615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:12 +0000
Subject: [PATCH 184/230] fix: the tracing of an intersection turned back where
 point_inversion_surface left the parameters behind

---
 .../intersection/ssx/surface_surface.py       | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/intersection/ssx/surface_surface.py b/mmcore/numeric/intersection/ssx/surface_surface.py
index 452cbaa..9c5d8b8 100644
--- a/mmcore/numeric/intersection/ssx/surface_surface.py
+++ b/mmcore/numeric/intersection/ssx/surface_surface.py
@@ -392,7 +392,7 @@ class MarchingMethod(SSXMethod):
             uv1_better, uv2_better = self.improve_uvs(intersection_step_data, pt_better)
             if not (np.array_equal(uv1_better, uv1) or np.array_equal(uv2_better, uv2)):
                 pt_better, uv1_better, uv2_better = self.correct(
-                    intersection_step_data.tangent, pt_better, uv1_better, uv2_better
+                    intersection_step_data.tangent, pt_better, uv1_better, uv2_better, 20 * self.tol
                 )
 
             is_edge, (pt_better, uv1_better, uv2_better) = self.handle_edge(
@@ -426,12 +426,25 @@ class MarchingMethod(SSXMethod):
             TerminatorType.STEP,
         )
 
-    def correct(self, tangent, pt, uv1, uv2):
+    def catch_up(self, previous, res, uv1, uv2):
+        """
+        Repeats a step that does not lead on from the previous point: the parameters of a surface lag behind it where
+        point_inversion_surface returned its initial values.
+        """
+        (pt, _), _, step, terminator = res
+        if terminator is TerminatorType.EDGE:
+            return res
+        data = self.calculate_intersection_step_data(self.s1, self.s2, np.array(uv1), np.array(uv2))
+        if scalar_dot(np.array(pt - previous), data.tangent) * self.side > 0.25 * step:
+            return res
+        _, uv1_new, uv2_new = self.correct(data.tangent, previous, uv1, uv2, self.tol)
+        return self.step(uv1_new, uv2_new)
+
+    def correct(self, tangent, pt, uv1, uv2, limit):
         """
         Returns to the intersection, across the direction of the step, where the surfaces bend away from the tangent
         planes by much more than the tolerance.
         """
-        limit = 20 * self.tol
         pt_new, uv1_new, uv2_new = pt, uv1, uv2
         for _ in range(10):
             if any(self.handle_inside(*uv1_new, *uv2_new)):
@@ -548,6 +561,8 @@ class MarchingMethod(SSXMethod):
 
 
             res = self.step(uv1, uv2)
+            if res is not None:
+                res = self.catch_up(pts[-1], res, uv1, uv2)
             if res is None:
                 terminator = TerminatorType.EDGE
                 break
-- 
2.43.0


From c5082339f9af5e36602e59726055e036cb32d2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 185/230] fix: the sweepline triangulation did not free its
 event heap

---
 mmcore/topo/mesh/triangle-c/triangle.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/topo/mesh/triangle-c/triangle.c b/mmcore/topo/mesh/triangle-c/triangle.c
index b92c19a..ca9c9c9 100644
--- a/mmcore/topo/mesh/triangle-c/triangle.c
+++ b/mmcore/topo/mesh/triangle-c/triangle.c
@@ -10999,6 +10999,8 @@ struct behavior *b;
     }
   }
 
+  trifree((VOID *) eventheap);
+  trifree((VOID *) events);
   pooldeinit(&m->splaynodes);
   lprevself(bottommost);
   return removeghosts(m, b, &bottommost);
-- 
2.43.0


From e8f228d1a10ec52fea8a0e49548701ba971d9081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 186/230] fix: dot of mmcore.geom.vec called a function that it
 does not import

---
 mmcore/geom/vec/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/vec/__init__.py b/mmcore/geom/vec/__init__.py
index d911247..b17c13e 100644
--- a/mmcore/geom/vec/__init__.py
+++ b/mmcore/geom/vec/__init__.py
@@ -160,7 +160,9 @@ def dot(a, b):
     :return: The dot product of `a` and `b`.
     :rtype: numpy.ndarray[Any, numpy.dtype[float]]
     """
-    return scalar_dot(a, b)
+    if np.ndim(a) > 1 or np.ndim(b) > 1:
+        return np.sum(np.multiply(a, b), axis=-1)
+    return vectors.scalar_dot(a, b)
 
 def perp2d(v):
     """
-- 
2.43.0


From 138d721b2544f37ea8fd43b7a4928380bfa092f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 187/230] fix: angle refused parallel unit vectors by rounding
 and arrays of vectors

---
 mmcore/geom/vec/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/vec/__init__.py b/mmcore/geom/vec/__init__.py
index b17c13e..e718a4c 100644
--- a/mmcore/geom/vec/__init__.py
+++ b/mmcore/geom/vec/__init__.py
@@ -57,11 +57,12 @@ def angle(a, b):
         if (not 0.9999 <= np.linalg.norm(a) <= 1.0001) or (not 0.9999 <= np.linalg.norm(b) <= 1.0001):
             raise ValueError("Both input vectors must be normalized.")
 
-    cos_angle = np.dot(a, b)
-    if cos_angle < -1 or cos_angle > 1:
+    cos_angle = dot(a, b)
+    # unit vectors that are parallel may exceed the range by rounding
+    if np.any(np.abs(cos_angle) > 1 + 1e-9):
         raise ValueError("Dot product must be in the range [-1, 1]. Please check your input vectors.")
 
-    return np.arccos(np.dot(a, b))
+    return np.arccos(np.clip(cos_angle, -1., 1.))
 
 
 
-- 
2.43.0


From 45b2935f6328717d7382d6826a0abac8b98755b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 188/230] fix: clipping a polygon that lies outside raised
 IndexError

---
 mmcore/geom/polygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index 72622fd..4efed9e 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -128,6 +128,8 @@ def clip(subjectPolygon, clipPolygon):
         cp2 = clipVertex
         inputList = outputList
         outputList = []
+        if len(inputList) == 0:
+            break
         s = inputList[-1]
         for subjectVertex in inputList:
             e = subjectVertex
-- 
2.43.0


From 609eee9e1f868e177c6d2a2c0324adc990cf2aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 189/230] fix: a vertex level with vertices of the other
 polygon, or beyond 1e6, was misplaced

---
 mmcore/geom/polygon.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index 4efed9e..8ac032a 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -205,13 +205,7 @@ class Vertex:
         An even winding number means the point lies OUTSIDE the polygon;
         an odd number means it lies INSIDE it.
         """
-        winding_number = 0
-        infinity = Vertex((1000000, self.y))
-        for q in poly.__iter__():
-            if not q.intersect and intersect(self, infinity, q, poly.next(q.next)):
-                winding_number += 1
-
-        return (winding_number % 2) != 0
+        return is_point_in_polygon((self.x, self.y), [(q.x, q.y) for q in poly if not q.intersect])
 
     def setChecked(self):
         self.checked = True
-- 
2.43.0


From b8da11abedcd064581c1bc284ef702df6315f412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 190/230] fix: boolean operations left their operands with
 extra vertices, and a second one went wrong

---
 mmcore/geom/polygon.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index 8ac032a..afc76a8 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -427,6 +427,11 @@ class Polygon:
 
         f = True, b = False when stored in the entry record
         """
+        # the lists are edited, so work on copies of the operands
+        subject, clip = Polygon(self.corners), Polygon(clip.corners)
+        return subject._clip(clip, s_entry, c_entry)
+
+    def _clip(self, clip, s_entry, c_entry):
         # phase one - find intersections
         for s in self.__iter__():  # for each vertex Si of subject polygon do
             if not s.intersect:
-- 
2.43.0


From 441f7f8c64f3bb1f999e1acdd12419137ed5c720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 191/230] fix: boolean operations of disjoint or nested
 polygons always returned the first one

---
 mmcore/geom/polygon.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index afc76a8..9797104 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -451,13 +451,15 @@ class Polygon:
                             pass  # this simply means intersect() returned None
 
         # phase two - identify entry/exit points
-        s_entry ^= self.head.isInside(clip)
+        s_inside, c_inside = self.head.isInside(clip), clip.head.isInside(self)
+        s_forward, c_forward = s_entry, c_entry
+        s_entry ^= s_inside
         for s in self.__iter__():
             if s.intersect:
                 s.entry = s_entry
                 s_entry = not s_entry
 
-        c_entry ^= clip.head.isInside(self)
+        c_entry ^= c_inside
         for c in clip.__iter__():
             if c.intersect:
                 c.entry = c_entry
@@ -491,7 +493,11 @@ class Polygon:
             list.append(clipped)
 
         if not list:
-            list.append(self)
+            # no crossings: a boundary belongs to the result as a whole or not at all
+            if s_inside == s_forward:
+                list.append(self)
+            if c_inside == c_forward:
+                list.append(clip)
 
         return list
 
-- 
2.43.0


From 8d90a30030833aa495044b12d0880f0fd9629633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 192/230] fix: point_in_polygon raised IndexError for
 two-dimensional points

---
 mmcore/geom/polygon.py | 3 ++-
 mmcore/numeric/aabb.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index 9797104..0b6937f 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -660,7 +660,8 @@ def point_in_polygon(points: np.ndarray, point: np.ndarray, segments=None, poly_
         points = points[1:]
     if segments is None:
         segments = segments_by_loop(points)
-    segment = np.array([point, point + poly_aabb[1] - poly_aabb[0]])
+    dim = len(point)
+    segment = np.array([point, point + poly_aabb[1][:dim] - poly_aabb[0][:dim]])
 
     bbox_segm = aabb(segment)
     cnt = 0
diff --git a/mmcore/numeric/aabb.py b/mmcore/numeric/aabb.py
index 097337a..e33ba8c 100644
--- a/mmcore/numeric/aabb.py
+++ b/mmcore/numeric/aabb.py
@@ -13,7 +13,7 @@ def box_from_intervals(start, end):
 
 
 def point_in_aabb(bbox,point):
-    if bbox.shape[-1]==2:
+    if bbox.shape[-1]==2 or len(point)==2:
         return (bbox[0][0] <= point[0] <= bbox[1][0] and
                 bbox[0][1] <= point[1] <= bbox[1][1] )
     return (bbox[0][0] <= point[0] <= bbox[1][0] and
-- 
2.43.0


From 8db63dca5d935666a17329c5f3a2353b5ce1a430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 193/230] fix: the normal of a curve on a surface raised
 TypeError

---
 mmcore/geom/surfaces/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index 293b2ea..b2bf36c 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -135,7 +135,7 @@ class CurveOnSurface(Curve):
 
     def normal(self, t):
         uv = self.evaluate_curve(t)
-        return np.array(scalar_cross(*scalar_unit([self.surf.normal(uv), self.tangent(t)])))
+        return np.array(scalar_cross(scalar_unit(np.array(self.surf.normal(uv))), scalar_unit(np.array(self.tangent(t)))))
 
     def evaluate(self, t: float):
         return self.surf.evaluate(self.evaluate_curve(t))
-- 
2.43.0


From 5b0876a429bc753e4c21fc7063de9751051bbb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 194/230] fix: the tree of a trimming curve was built from
 edges instead of vertices

---
 mmcore/geom/surfaces/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index b2bf36c..3f518c8 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -123,7 +123,7 @@ class CurveOnSurface(Curve):
             self._polygon = self.curve(np.linspace(*self.curve.interval(), 50))[:, :2]
         self._edges = [(self._polygon[i], self._polygon[(i + 1) % len(self._polygon)]) for i in
                        range(len(self._polygon))]
-        self._bvh_uv_root = polygon_build_bvh(tuple(tuple(i) for i in self._edges))
+        self._bvh_uv_root = polygon_build_bvh(tuple(tuple(i) for i in self._polygon))
 
     def plane_at(self, t):
         O = self.evaluate(t)
-- 
2.43.0


From 24462d10c5e4b713eefdd84716c6751570133e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 195/230] fix: the offset of an OffsetCurve recursed without
 end, and its interval was undefined

---
 mmcore/geom/curves/offset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/offset.py b/mmcore/geom/curves/offset.py
index 31ac20c..999cd8b 100644
--- a/mmcore/geom/curves/offset.py
+++ b/mmcore/geom/curves/offset.py
@@ -34,13 +34,16 @@ class OffsetCurve(Curve):
         self.curve = curve
         self._offset = offset
 
+    def interval(self):
+        return self.curve.interval()
+
     def evaluate(self, t):
         n = np.array(self.curve.plane_at(t))
         return n[0] + n[2] * self.offset
 
     @property
     def offset(self):
-        return self.offset
+        return self._offset
 
     @offset.setter
     def offset(self, v):
-- 
2.43.0


From 5f6eb06c2d7090b472df4b94767266317d7cd6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 196/230] fix: Monomial2D took Bezier control points for power
 coefficients and back

---
 mmcore/numeric/monomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/monomial.py b/mmcore/numeric/monomial.py
index 6c89eec..787adf0 100644
--- a/mmcore/numeric/monomial.py
+++ b/mmcore/numeric/monomial.py
@@ -295,12 +295,12 @@ class Monomial2D(Surface):
         m,n=self.coeffs.shape[:2]
         m-=1
         n-=1
-        return NURBSSurface(self.coeffs, (m,n))
+        return NURBSSurface(self.to_bernstein_basis(), (m,n))
     def evaluate_v2(self, u,v):
         return evaluate_monomial2d(self.coeffs, u, v)
     @classmethod
     def from_bezier(cls, surf:NURBSSurface):
-        return cls(np.array(surf.control_points).copy())
+        return cls(bezier_to_monomial(np.array(surf.control_points)))
 
     @classmethod
     def from_nurbs(cls, surf: NURBSSurface):
-- 
2.43.0


From 009c7a68212154153c62fc500a637fa752ca7511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 197/230] fix: the product of power forms printed its index
 list

---
 mmcore/numeric/monomial.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mmcore/numeric/monomial.py b/mmcore/numeric/monomial.py
index 787adf0..6dd680d 100644
--- a/mmcore/numeric/monomial.py
+++ b/mmcore/numeric/monomial.py
@@ -193,8 +193,6 @@ def cross_product_monomial(a_coeffs, b_coeffs):
     n, m = n1 + n2 - 1, m1 + m2 - 1
 
     result = np.zeros((n, m, 3))
-    print(list(product(range(n1), range(m1), range(n2), range(m2))))
-
     for i1, j1, i2, j2 in product(range(n1), range(m1), range(n2), range(m2)):
         i, j = i1 + i2, j1 + j2
         result[i, j, 0] += (
-- 
2.43.0


From 3c24bee2599b48afd5e50dc7a98aaa5b6b0ece79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 198/230] fix: Gauss maps of rational patches ignored the
 weights or multiplied coefficients one by one

---
 mmcore/numeric/gauss_map.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/mmcore/numeric/gauss_map.py b/mmcore/numeric/gauss_map.py
index bcd6e7e..bc56030 100644
--- a/mmcore/numeric/gauss_map.py
+++ b/mmcore/numeric/gauss_map.py
@@ -109,6 +109,16 @@ def cross_product(a, b):
     return result
 
 
+def multiply(a, b):
+    """Compute the product of a scalar and a 3D polynomial patch."""
+    n, m = a.shape
+    result = np.zeros((b.shape[0] + n - 1, b.shape[1] + m - 1, b.shape[2]))
+    for i in range(n):
+        for j in range(m):
+            result[i:i + b.shape[0], j:j + b.shape[1]] += a[i, j] * b
+    return result
+
+
 def is_bezier(surface: NURBSSurface):
     kv, ku = unique(surface.knots_u).shape[0], unique(surface.knots_u).shape[0]
     if kv.shape[0] < 2 or ku.shape[0] < 2:
@@ -155,14 +165,12 @@ def compute_gauss_mapw(control_points, weights=None):
     Fv = compute_partial_derivative(F, "v")
 
     if weights is not None:
-        # Handle rational case
-        w = F[:, :, -1]
-        Fu = Fu[:, :, :3] * w[:, :, np.newaxis] - F[:, :, :3] * Fu[:, :, -1:]
-        Fv = Fv[:, :, :3] * w[:, :, np.newaxis] - F[:, :, :3] * Fv[:, :, -1:]
-        Fu = Fu / (w ** 2)[:, :, np.newaxis]
-        Fv = Fv / (w ** 2)[:, :, np.newaxis]
-
-    N = cross_product(Fu, Fv)
+        # Rational case, S = A / w: Su x Sv is a positive multiple of w Au x Av - wv Au x A - wu A x Av
+        N = (multiply(F[:, :, 3], cross_product(Fu, Fv))
+             - multiply(Fv[:, :, 3], cross_product(Fu, F))
+             - multiply(Fu[:, :, 3], cross_product(F, Fv)))
+    else:
+        N = cross_product(Fu, Fv)
     #N_normalized = normalize_polynomial(N)
     gauss_map = monomial_to_bezier(N)
 
@@ -198,7 +206,11 @@ class GaussMap:
 
     @classmethod
     def from_surf(cls, surf):
-        _map = compute_gauss_map(np.array(surf.control_points))
+        weights = np.array(surf.control_points_w)[:, :, 3]
+        if np.all(weights == weights[0, 0]):
+            _map = compute_gauss_map(np.array(surf.control_points))
+        else:
+            _map = compute_gauss_mapw(np.array(surf.control_points), weights)
         #print((_map.tolist(),np.array(surf.control_points).tolist()))
         # Compute convex hull
         return cls(NURBSSurface(np.array(unit(_map.reshape((-1, 3)))).reshape(_map.shape),
-- 
2.43.0


From 5e7ecc901d7dd7c9dc6d4c111b20132b103dd7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 199/230] fix: closed intersections of surfaces with opposite
 orientation were lost

---
 mmcore/numeric/gauss_map.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/gauss_map.py b/mmcore/numeric/gauss_map.py
index bc56030..a082281 100644
--- a/mmcore/numeric/gauss_map.py
+++ b/mmcore/numeric/gauss_map.py
@@ -474,9 +474,10 @@ def _detect_intersections_deep(g1, g2, chs:dict,tol=0.01, dbg: DebugTree = None)
         g1.compute()
     if g2.hull is None:
         g2.compute()
-    bb11, bb21 = aabb(g1.bounds()), aabb(g2.bounds())
+    bb11, bb21 = np.array(aabb(g1.bounds())), np.array(aabb(g2.bounds()))
 
-    if not aabb_intersect(bb21,bb11):
+    # The direction of a normal depends on the parametrization, so normals are parallel with either sign
+    if not aabb_intersect(bb21, bb11) and not aabb_intersect(-bb21[::-1], bb11):
         # Поверхности вероятнее всего пересекаются и не содержать петель
         #dddd[3] = True
         return [(g1.surface, g2.surface)]
-- 
2.43.0


From 7832430fb234ca387c7a1d89bb994c28b7bba499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:24 +0000
Subject: [PATCH 200/230] fix: the degree of a surface was a view into the
 surface that outlived it

---
 mmcore/geom/nurbs.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index edc9976..d249aab 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2491,8 +2491,7 @@ cdef class NURBSSurface(ParametricSurface):
         self._update_interval()
     @property
     def degree(self):
-        cdef int[:] dg=self._degree
-        return dg
+        return self._degree[0], self._degree[1]
     @degree.setter
     def degree(self, val):
         check_spline(self._size[0], val[0], None)
-- 
2.43.0


From ed9e9a487071091d83a7e51ce740a982992bcd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 201/230] fix: closed intersections were lost where a wide cone
 of normals bulges beyond its bounds

---
 mmcore/numeric/gauss_map.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/gauss_map.py b/mmcore/numeric/gauss_map.py
index a082281..7d00162 100644
--- a/mmcore/numeric/gauss_map.py
+++ b/mmcore/numeric/gauss_map.py
@@ -412,6 +412,17 @@ class DebugTree:
 #    return np.asarray([np.maximum(bb1[0],bb2[0]),np.minimum(bb1[1],bb2[1])])
 
 
+def direction_box(vectors):
+    """Bounding box of all unit vectors in the cone of the given unit vectors: it bulges beyond the vectors themselves."""
+    axis = np.sum(vectors, axis=0)
+    length = scalar_norm(axis)
+    shrink = np.min(vectors @ axis) / length if length > 0 else 0.
+    bb = np.array(aabb(vectors))
+    if shrink <= 0.:
+        return np.array([[-1., -1., -1.], [1., 1., 1.]])
+    return np.clip([np.minimum(bb[0], bb[0] / shrink), np.maximum(bb[1], bb[1] / shrink)], -1., 1.)
+
+
 def _detect_intersections_deep(g1, g2, chs:dict,tol=0.01, dbg: DebugTree = None):
     """
     Подпрограмма процедуры detect_intersections. Принимает карты гаусса патча безье и выполняет рекурсивное подразбиение.
@@ -474,7 +485,7 @@ def _detect_intersections_deep(g1, g2, chs:dict,tol=0.01, dbg: DebugTree = None)
         g1.compute()
     if g2.hull is None:
         g2.compute()
-    bb11, bb21 = np.array(aabb(g1.bounds())), np.array(aabb(g2.bounds()))
+    bb11, bb21 = direction_box(g1.bounds()), direction_box(g2.bounds())
 
     # The direction of a normal depends on the parametrization, so normals are parallel with either sign
     if not aabb_intersect(bb21, bb11) and not aabb_intersect(-bb21[::-1], bb11):
-- 
2.43.0


From bc7750340cd5322b85972c607f9e62473a45ba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 202/230] fix: tracing a closed intersection near the boundary
 raised IndexError

---
 mmcore/numeric/intersection/ssx/surface_surface.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/intersection/ssx/surface_surface.py b/mmcore/numeric/intersection/ssx/surface_surface.py
index 9c5d8b8..c4ba544 100644
--- a/mmcore/numeric/intersection/ssx/surface_surface.py
+++ b/mmcore/numeric/intersection/ssx/surface_surface.py
@@ -238,7 +238,8 @@ class SSXMethod:
 
     def handle_edge(self, xyz_better, uvb1_better, uvb2_better):
         if any(self.handle_inside(*uvb1_better, *uvb2_better)):
-            if self.boundary_terminators is not None:
+            # A closed intersection has no points on the boundary
+            if self.boundary_terminators:
                 (
                     xyz_better,
                     uvb1_better,
@@ -398,7 +399,10 @@ class MarchingMethod(SSXMethod):
             is_edge, (pt_better, uv1_better, uv2_better) = self.handle_edge(
                 pt_better, uv1_better, uv2_better
             )
-            if not is_edge or scalar_norm(np.asarray(pt_better - intersection_step_data.first.pt)) <= 2 * step:
+            if not is_edge or (
+                self.boundary_terminators
+                and scalar_norm(np.asarray(pt_better - intersection_step_data.first.pt)) <= 2 * step
+            ):
                 break
             step *= 0.5
 
-- 
2.43.0


From 636c57b3a0367e84ba2ec7918c6a8bf6e05b0e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:57 +0000
Subject: [PATCH 203/230] fix: point_in_polygon dropped a vertex of polygons
 that lie far from the origin

---
 mmcore/geom/polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index 0b6937f..a9ac428 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -656,7 +656,8 @@ def point_in_polygon(points: np.ndarray, point: np.ndarray, segments=None, poly_
 
     if not point_in_aabb(poly_aabb, point):
         return False
-    if np.allclose(points[0], points[-1]):
+    # The closing point is recognised relative to the size of the polygon, not to its distance from the origin
+    if np.linalg.norm(points[0] - points[-1]) <= 1e-8 * np.linalg.norm(np.ptp(points, axis=0)):
         points = points[1:]
     if segments is None:
         segments = segments_by_loop(points)
-- 
2.43.0


From 8f61ab07493cedcfb46afb59b2c03fbe5d62c313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:33 +0000
Subject: [PATCH 204/230] fix: the STEP product listed its context bare instead
 of as a set

---
 mmcore/compat/step/step_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/compat/step/step_writer.py b/mmcore/compat/step/step_writer.py
index 5a42245..f979e20 100644
--- a/mmcore/compat/step/step_writer.py
+++ b/mmcore/compat/step/step_writer.py
@@ -244,7 +244,7 @@ class StepWriter:
         self._2 = self.add_entity(
             p21.entity('APPLICATION_PROTOCOL_DEFINITION', ('international standard', 'automotive_design', 2000, self._1)))
         self._3 = self.add_entity(p21.entity('PRODUCT_CONTEXT', ('', self._1, 'mechanical')))
-        self._4 = self.add_entity(p21.entity('PRODUCT', ('Document', 'Document', p21.UnsetParameter('$'), (self._3))))
+        self._4 = self.add_entity(p21.entity('PRODUCT', ('Document', 'Document', p21.UnsetParameter('$'), (self._3,))))
         self._5 = self.add_entity(p21.entity('PRODUCT_DEFINITION_FORMATION', ('', p21.UnsetParameter('$'), self._4)))
         self._6 = self.add_entity(p21.entity('PRODUCT_DEFINITION_CONTEXT', ('part definition', self._1, 'design')))
         self._7 = self.add_entity(p21.entity('PRODUCT_DEFINITION', ('design', p21.UnsetParameter('$'), self._5, self._6)))
-- 
2.43.0


From afd1ace43b62f1fae3a43085eb6cdb5d47f0a194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:33 +0000
Subject: [PATCH 205/230] fix: planes were written to STEP with the x axis as
 their normal

---
 mmcore/compat/step/step_writer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmcore/compat/step/step_writer.py b/mmcore/compat/step/step_writer.py
index f979e20..58cac1b 100644
--- a/mmcore/compat/step/step_writer.py
+++ b/mmcore/compat/step/step_writer.py
@@ -406,15 +406,16 @@ class StepWriter:
 
             p21.entity('REPRESENTATION_CONTEXT',('ID1', '3D'))])
         return self._context3
-    def add_axis_axis2_placement_3d(self, origin, x_axis,y_axis,name=''):
-        return self.add_entity(p21.entity('AXIS2_PLACEMENT_3D', (name,origin,x_axis,y_axis)))
+    def add_axis_axis2_placement_3d(self, origin, z_axis,x_axis,name=''):
+        return self.add_entity(p21.entity('AXIS2_PLACEMENT_3D', (name,origin,z_axis,x_axis)))
 
     def add_plane(self,plane):
         origin=self.add_cartesian_point(plane[0])
         xaxis=self.add_direction(plane[1])
         yaxis = self.add_direction(plane[2])
+        zaxis = self.add_direction(plane[3])
 
-        xy=self.add_axis_axis2_placement_3d(origin,xaxis,yaxis)
+        xy=self.add_axis_axis2_placement_3d(origin,zaxis,xaxis)
 
         return (origin, xaxis,yaxis,xy)
 
-- 
2.43.0


From 2184790eda34502687f3ab28ed9fa1c545473d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:33 +0000
Subject: [PATCH 206/230] fix: STEP assignments were not read when their name
 has digits or a nested string has parentheses

---
 mmcore/compat/step/step_writer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mmcore/compat/step/step_writer.py b/mmcore/compat/step/step_writer.py
index 58cac1b..d5eeb17 100644
--- a/mmcore/compat/step/step_writer.py
+++ b/mmcore/compat/step/step_writer.py
@@ -29,7 +29,7 @@ def parse_assignment(assignment_str):
     assignment_str = assignment_str.strip().rstrip(';')
 
     # Regex to match the pattern: #number=FUNCTION_NAME(args)
-    match = re.match(r'#\d+\s*=\s*([A-Z_]+)\s*\((.*)\)', assignment_str)
+    match = re.match(r'#\d+\s*=\s*([A-Z][A-Z0-9_]*)\s*\((.*)\)', assignment_str)
     if not match:
         raise ValueError("String does not match the expected format.")
 
@@ -81,8 +81,14 @@ def parse_arguments(arg_str):
             count = 1
             i += 1
             start = i
+            nested_quote = ''
             while i < len(arg_str) and count > 0:
-                if arg_str[i] == '(':
+                if nested_quote:
+                    if arg_str[i] == nested_quote:
+                        nested_quote = ''
+                elif arg_str[i] in ("'", '"'):
+                    nested_quote = arg_str[i]
+                elif arg_str[i] == '(':
                     count += 1
                 elif arg_str[i] == ')':
                     count -= 1
-- 
2.43.0


From 4463b0948480927a438fd22087a7ee3dbfdec9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:33 +0000
Subject: [PATCH 207/230] fix: rational curves and surfaces were written to
 STEP without their weights

---
 mmcore/compat/step/step_writer.py | 51 ++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/mmcore/compat/step/step_writer.py b/mmcore/compat/step/step_writer.py
index d5eeb17..0ef5cc8 100644
--- a/mmcore/compat/step/step_writer.py
+++ b/mmcore/compat/step/step_writer.py
@@ -270,6 +270,23 @@ class StepWriter:
 
     def add_b_spline_curve_with_knots(self, curve:NURBSCurve, name:str=''):
         unique_knots,mult= get_knot_multiplicities(curve.knots.tolist())
+        weights = [float(w) for w in curve.weights]
+        if max(weights) != min(weights):
+            return self.add_complex_entity([
+                p21.entity('BOUNDED_CURVE', ()),
+                p21.entity('B_SPLINE_CURVE', (
+                    int(curve.degree),
+                    [self.add_cartesian_point(pt) for pt in curve.control_points],
+                    UNSPECIFIED,
+                    FALSE,
+                    FALSE,
+                )),
+                p21.entity('B_SPLINE_CURVE_WITH_KNOTS', (mult, unique_knots, UNSPECIFIED)),
+                p21.entity('CURVE', ()),
+                p21.entity('GEOMETRIC_REPRESENTATION_ITEM', ()),
+                p21.entity('RATIONAL_B_SPLINE_CURVE', (weights,)),
+                p21.entity('REPRESENTATION_ITEM', (name,)),
+            ])
         return self.add_entity(p21.entity('B_SPLINE_CURVE_WITH_KNOTS',
                                           (
                                               name,
@@ -285,6 +302,28 @@ class StepWriter:
                                           )
                                )
 
+    def add_b_spline_surface_with_knots(self, surf:NURBSSurface, name:str=''):
+        unique_knots_u, mult_u = get_knot_multiplicities(surf.knots_u.tolist())
+        unique_knots_v, mult_v = get_knot_multiplicities(surf.knots_v.tolist())
+        form = (
+            int(surf.degree[0]), int(surf.degree[1]),
+            [[self.add_cartesian_point(pt) for pt in pts] for pts in surf.control_points],
+            UNSPECIFIED, FALSE, FALSE, FALSE
+        )
+        knots = (mult_u, mult_v, unique_knots_u, unique_knots_v, UNSPECIFIED)
+        weights = [[float(pt[3]) for pt in pts] for pts in surf.control_points_w]
+        if max(map(max, weights)) != min(map(min, weights)):
+            return self.add_complex_entity([
+                p21.entity('BOUNDED_SURFACE', ()),
+                p21.entity('B_SPLINE_SURFACE', form),
+                p21.entity('B_SPLINE_SURFACE_WITH_KNOTS', knots),
+                p21.entity('GEOMETRIC_REPRESENTATION_ITEM', ()),
+                p21.entity('RATIONAL_B_SPLINE_SURFACE', (weights,)),
+                p21.entity('REPRESENTATION_ITEM', (name,)),
+                p21.entity('SURFACE', ()),
+            ])
+        return self.add_entity(p21.entity('B_SPLINE_SURFACE_WITH_KNOTS', (name, *form, *knots)))
+
     def issteptype(self, obj):
         return type(obj) in (p21.Reference,p21.SimpleEntityInstance,p21.ComplexEntityInstance)
 
@@ -471,8 +510,6 @@ class StepWriter:
 
     def add_nurbs_surface(self, surf:NURBSSurface,color=(0.5,0.5,0.5), name:str=''):
 
-        unique_knots_u, mult_u = get_knot_multiplicities(surf.knots_u.tolist())
-        unique_knots_v, mult_v = get_knot_multiplicities(surf.knots_v.tolist())
         boundaries=extract_surface_boundaries(surf)
         shell= self.add_shell_based_surface_model(
                 (self.add_open_shell(
@@ -488,15 +525,7 @@ class StepWriter:
                                 )
                             ) for boundary in boundaries])),
                         ),
-                        self.add_entity(
-                            p21.entity('B_SPLINE_SURFACE_WITH_KNOTS',(
-                                name,
-                                int(surf.degree[0]),int(surf.degree[1]),
-                                [[self.add_cartesian_point(pt) for pt in pts] for pts in surf.control_points],
-                                UNSPECIFIED,FALSE,FALSE,FALSE, mult_u,mult_v,unique_knots_u,unique_knots_v,UNSPECIFIED
-                                )
-                            )
-                        ),
+                        self.add_b_spline_surface_with_knots(surf, name),
                         TRUE,
                         name
                     ),
-- 
2.43.0


From 0b93c66c9d9bbc327b0186263dbaacff2684c7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:33 +0000
Subject: [PATCH 208/230] fix: the edges of a STEP face were listed in an order
 and directions that form no loop

---
 mmcore/compat/step/step_writer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mmcore/compat/step/step_writer.py b/mmcore/compat/step/step_writer.py
index 0ef5cc8..4654250 100644
--- a/mmcore/compat/step/step_writer.py
+++ b/mmcore/compat/step/step_writer.py
@@ -510,7 +510,9 @@ class StepWriter:
 
     def add_nurbs_surface(self, surf:NURBSSurface,color=(0.5,0.5,0.5), name:str=''):
 
-        boundaries=extract_surface_boundaries(surf)
+        # The loop runs along v_min, u_max and then back along v_max and u_min
+        u_min, u_max, v_min, v_max = extract_surface_boundaries(surf)
+        boundaries = ((v_min, True), (u_max, True), (v_max, False), (u_min, False))
         shell= self.add_shell_based_surface_model(
                 (self.add_open_shell(
                     (self.add_advanced_face(
@@ -522,8 +524,9 @@ class StepWriter:
                                     self.add_cartesian_point(tuple(boundary.start())),
                                     self.add_cartesian_point(tuple(boundary.end())),
                                     self.add_b_spline_curve_with_knots(boundary)
-                                )
-                            ) for boundary in boundaries])),
+                                ),
+                                orientation=forward
+                            ) for boundary, forward in boundaries])),
                         ),
                         self.add_b_spline_surface_with_knots(surf, name),
                         TRUE,
-- 
2.43.0


From dd7ea1e92f3614015399500321b3bea0707c9a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:33 +0000
Subject: [PATCH 209/230] fix: orthonormalize overwrote the vectors it was
 given

---
 mmcore/geom/vec/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/vec/__init__.py b/mmcore/geom/vec/__init__.py
index e718a4c..555d559 100644
--- a/mmcore/geom/vec/__init__.py
+++ b/mmcore/geom/vec/__init__.py
@@ -304,21 +304,21 @@ Out:
  array([-0.00107956, -0.21301218, -0.97704895]))
     """
     u = u / np.linalg.norm(u)  # Ensure u is a unit vector
-    v -= u * np.dot(u, v)  # Make v orthogonal to u
+    v = v - u * np.dot(u, v)  # Make v orthogonal to u
 
     # Re-normalize v in case it's very close to zero
     if (np.linalg.norm(v) > 1e-10):
-        v /= np.linalg.norm(v)
+        v = v / np.linalg.norm(v)
     else:
         raise ValueError('Vectors u and v are parallel')
 
     # w vector
-    w -= u * np.dot(u, w)
-    w -= v * np.dot(v, w)
+    w = w - u * np.dot(u, w)
+    w = w - v * np.dot(v, w)
 
     # Re-normalize w
     if (np.linalg.norm(w) > 1e-10):
-        w /= np.linalg.norm(w)
+        w = w / np.linalg.norm(w)
     else:
         raise ValueError('Vector w is in the plane of vectors u and v')
 
-- 
2.43.0


From 2e2117a538fd3e062d5601e1460da19a2dea5369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:33 +0000
Subject: [PATCH 210/230] fix: an antiderivative at an array of parameters was
 the function itself

---
 mmcore/numeric/prime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/prime.py b/mmcore/numeric/prime.py
index 73ecc1a..113e8f3 100644
--- a/mmcore/numeric/prime.py
+++ b/mmcore/numeric/prime.py
@@ -46,7 +46,7 @@ class Prime:
         if translate is not None:
             self._translate[:] = translate
 
-        self.evaluate_multi = np.vectorize(self._fun, excluded=[1, 2], signature='()->(i)')
+        self.evaluate_multi = np.vectorize(self.evaluate, excluded=['t0', 'tol'], signature='()->(i)')
         return self
 
     @property
-- 
2.43.0


From 1117a27d3f60d3433d57b347d724686a71cb622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:33 +0000
Subject: [PATCH 211/230] fix: sectional tangents took both normals from one
 surface or solved a singular system

---
 mmcore/numeric/intersection/ssx/sectioal_tangent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/intersection/ssx/sectioal_tangent.py b/mmcore/numeric/intersection/ssx/sectioal_tangent.py
index 60bacff..ad65b85 100644
--- a/mmcore/numeric/intersection/ssx/sectioal_tangent.py
+++ b/mmcore/numeric/intersection/ssx/sectioal_tangent.py
@@ -43,7 +43,7 @@ def sectional_tangent_uv(s1: Surface, s2: Surface,  uv1,  uv2, tol=1e-3):
 
     """
 
-    n1, n2 = s1.normal(uv1), s1.normal(uv2)
+    n1, n2 = s1.normal(uv1), s2.normal(uv2)
     T = np.array(np.cross(n1, n2))
     T /= np.linalg.norm(T)
     return T
@@ -56,7 +56,7 @@ def improve_uv(du, dv, delta):
     xz = np.array([[dxdu, dxdv], [dzdu, dzdv]]), [delta[0], delta[2]]
     yz = np.array([[dydu, dydv], [dzdu, dzdv]]), [delta[1], delta[2]]
 
-    max_det = max([xy, xz, yz], key=lambda Ab: det(Ab[0]))
+    max_det = max([xy, xz, yz], key=lambda Ab: abs(np.linalg.det(Ab[0])))
     res = np.zeros(2)
     solve2x2(max_det[0], np.array(max_det[1]), res)
     return res
-- 
2.43.0


From 10fc607caa9110ad414ce31d7609fdde9da2b56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:33 +0000
Subject: [PATCH 212/230] fix: the tree of a curve stayed as it was after the
 curve was invalidated

---
 mmcore/geom/curves/curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index f394d40..2523979 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -58,6 +58,7 @@ class Curve:
 
         self._evaluate_cached.cache_clear()
         self._evaluate_length_cached.cache_clear()
+        self._tree = None
 
     @property
     def tree(self):
-- 
2.43.0


From a97c410a4172362c70e0b395d2ff46654b960801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 213/230] fix: a root within the tolerance of the end of a step
 was lost

---
 mmcore/numeric/divide_and_conquer.py | 8 ++++++++
 mmcore/numeric/routines/__init__.py  | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/divide_and_conquer.py b/mmcore/numeric/divide_and_conquer.py
index a929da6..354dac6 100644
--- a/mmcore/numeric/divide_and_conquer.py
+++ b/mmcore/numeric/divide_and_conquer.py
@@ -473,6 +473,14 @@ def test_all_roots(fun, bounds, tol):
     t_max, y_max = iterative_divide_and_conquer_min(lambda t: -fun(t), (t0, t1), tol)
 
     t_min, y_min = iterative_divide_and_conquer_min(fun, (t0, t1), tol)
+
+    # The search stops within tol of an extreme, a root between it and the end of the range would be lost.
+    for t in (t0, t1):
+        y = fun(t)
+        if y < y_min:
+            t_min, y_min = t, y
+        if -y < y_max:
+            t_max, y_max = t, -y
     (t11, y11, typ11), (t21, y21, typ21) = sorted([(t_min, y_min, 0), (t_max, -y_max, 1)], key=lambda x: x[0])
 
     if sign(y11) != sign(y21):
diff --git a/mmcore/numeric/routines/__init__.py b/mmcore/numeric/routines/__init__.py
index 2b553c2..48f589e 100644
--- a/mmcore/numeric/routines/__init__.py
+++ b/mmcore/numeric/routines/__init__.py
@@ -169,7 +169,7 @@ def cubic_spline(control_points: np.ndarray[(4, 2), np.dtype[float]]
 
 def divide_interval(start, end, step=1.):
     a = np.arange(start, end, step)
-    return np.c_[a, np.minimum(a + step, end)]
+    return np.c_[a, np.append(a, end)[1:]]
 T=TypeVar("T")
 
 def column_concat(a:NDArray[T],b:NDArray[T]|T)->NDArray[T]:
-- 
2.43.0


From 3e08dd4cf479514f5f3abad1e2e7ef48c5210fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:12 +0000
Subject: [PATCH 214/230] fix: an intersection on the border of two parts was
 in neither of them after rounding

---
 mmcore/numeric/intersection/csx/_ncsx.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/intersection/csx/_ncsx.py b/mmcore/numeric/intersection/csx/_ncsx.py
index c1cebd9..f179fae 100644
--- a/mmcore/numeric/intersection/csx/_ncsx.py
+++ b/mmcore/numeric/intersection/csx/_ncsx.py
@@ -29,6 +29,11 @@ def normalize_curve_knots(curve):
     curve.knots_update_hook()
 
 
+def _grown(points, ratio=1e-9):
+    center = np.mean(points, axis=0)
+    return points + (points - center) * ratio
+
+
 class NURBSCurveSurfaceIntersector:
     """
     The ground of the implementation was based on the description of the algorithm from the  "4.5 Intersecting Curves and Surfaces. Robust and Efficient Surface Intersection for Solid Modeling By Michael Edward Hohmeyer B.A. (University of California) 1986"
@@ -112,7 +117,8 @@ class NURBSCurveSurfaceIntersector:
 
         curve_points = np.array(curve.control_points)
         surface_points = np.array(surface.control_points_flat)
-        if spatial_separability(curve_points, surface_points, tol=self.ptol):
+        # An intersection on the border of a part is in no part when rounding moves the borders, so both sets are grown
+        if spatial_separability(_grown(curve_points), _grown(surface_points), tol=self.ptol):
             return True
 
         t_range, (u_range, v_range) = curve.interval(), surface.interval()
-- 
2.43.0


From 225c54eabae1bea143036d8fca6e3608e0c30ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:00 +0000
Subject: [PATCH 215/230] fix: crossings where several segments meet or one
 ends on another were missed or listed twice

---
 .../algorithms/sweep_line/sweep_intersector.py  | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py b/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py
index 7d54212..5ae04e8 100644
--- a/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py
+++ b/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py
@@ -103,6 +103,8 @@ class SweepIntersector():
             sitPred  = None
             sitFirst = None
             sitLast  = None
+            passing  = []
+            touching = 0
 
             # A value of None for <sitSucc> and <sitPred> after the 
             # following computation indicates that there are no segments 
@@ -128,10 +130,12 @@ class SweepIntersector():
 
                     self.lastNode[s] = v
                     if self.pSweep is s.p2: #  ending segment
+                        touching += 1
                         it = self.Y_structure.pred(sit)
                         self.Y_structure.delItem(sit)
                         sit = it;
                     else:   # passing segment
+                        passing.append(s)
                         self.Y_structure.changeInf(sit,None)
                         sit = self.Y_structure.pred(sit)
                         if (sr is not s) and (sr.p2 is self.pSweep):
@@ -180,10 +184,17 @@ class SweepIntersector():
                         self.original[newSeg] = self.original[self.nextSeg]
                         self.segQueue.insert(p,newSeg)
 
+                touching += 1
                 # delete minimum and assign new minimum to <nextSeg>
                 self.segQueue.delMin()
                 self.nextSeg = self.segQueue.inf(self.segQueue.min())
 
+            # <pSweep> is an interior point of every passing segment, insert it
+            # into the result dictionary when it is shared
+            if len(passing) + touching > 1:
+                for s in passing:
+                    self.isectDict[self.original[s]].append((v.x,v.y))
+
             # if <sitPred> still has the value <None>, there were no ending, 
             # passing or starting segments, i.e., <pSweep> is an isolated 
             # point. In this case we are done, otherwise we delete the event 
@@ -287,12 +298,6 @@ class SweepIntersector():
                 if q:
                     self.Y_structure.changeInf(sit0, self.X_structure.insert(q,sit0))
 
-                    # insert intersection point into result dictionary
-                    if s0.p1 != q and s0.p2 != q:
-                        self.isectDict[self.original[s0]].append((q.x,q.y))
-                    if s1.p1 != q and s1.p2 != q:
-                        self.isectDict[self.original[s1]].append((q.x,q.y))
-
     @staticmethod
     def inorderExtend(segment, v1, v2, points):
         # Extend a segment <segment> by <points> that are on
-- 
2.43.0


From 9a123643292c64fdfdff5f1645aae7e6de8e0188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:00 +0000
Subject: [PATCH 216/230] fix: removing a key from the skip list dropped nodes
 and left stale back links

---
 mmcore/numeric/algorithms/sweep_line/skiplist.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/algorithms/sweep_line/skiplist.py b/mmcore/numeric/algorithms/sweep_line/skiplist.py
index 8511082..fbca26b 100644
--- a/mmcore/numeric/algorithms/sweep_line/skiplist.py
+++ b/mmcore/numeric/algorithms/sweep_line/skiplist.py
@@ -119,12 +119,13 @@ class SkipList():
     def _remove(self, key):
         # Removes node with given data. No operation if data is not in list.
 
-        node, update = self._scan(key)
+        node, _ = self._scan(key)
         if not node:
             return
 
         for level in range(len(node.succ)):
-            update[level].succ[level] = node.succ[level]
+            node.prev[level].succ[level] = node.succ[level]
+            node.succ[level].prev[level] = node.prev[level]
 
         # trim not used head pointers
         for i in reversed(range(len(self.head.succ))):
-- 
2.43.0


From 2a7003908bd7cee3a6a68973908d00a051e82286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:00 +0000
Subject: [PATCH 217/230] fix: locating a key that is present returned the
 first node of the sequence

---
 mmcore/numeric/algorithms/sweep_line/sortseq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/algorithms/sweep_line/sortseq.py b/mmcore/numeric/algorithms/sweep_line/sortseq.py
index 29ba1a7..81d1da0 100644
--- a/mmcore/numeric/algorithms/sweep_line/sortseq.py
+++ b/mmcore/numeric/algorithms/sweep_line/sortseq.py
@@ -58,8 +58,8 @@ class SortSeq(SkipList):
         Returns the node (key',inf) in SortSeq such that key' is minimal
         with key' >= key. None if no such node exists
         """
-        _, update = self._scan(key)
-        return update[0].succ[0]
+        node, update = self._scan(key)
+        return node if node else update[0].succ[0]
  
     @staticmethod
     def key(node):
-- 
2.43.0


From d1b55511eb9ff318dbca87db061b1e21a69b85b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 218/230] fix: NURBSpline.normal wrote past the end of its
 buffer

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index f2b0f05..0d11f23 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -856,7 +856,7 @@ cdef class NURBSpline(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     cdef void cnormal(self, double t, double[:] result):
-        cdef double[:,:] vecs=np.zeros((3,3))
+        cdef double[:,:] vecs=np.zeros((4,3))
         self.cplane(t,vecs)
         result[:]=vecs[2,:]
 
-- 
2.43.0


From ed225ae0daae642043c8a099d8e876cb181c7d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 219/230] fix: NURBSpline.derivative_control_points always
 raised a shape mismatch

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 0d11f23..76f928f 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -911,7 +911,7 @@ cdef class NURBSpline(ParametricCurve):
             cdef int n = len(self._control_points) - 1
             cdef int span = find_span(n, self._degree, t,self._knots,self._periodic)
             cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1))
-            curve_deriv_cpts(self._degree, self._knots,self._control_points, d, span - self._degree, span, PK)
+            curve_deriv_cpts(self._degree, self._knots,self._control_points[:,:-1], d, span - self._degree, span, PK)
 
             return np.asarray(PK)
     @cython.cdivision(True)
-- 
2.43.0


From 51b35435dc0840e230d2d262e310dac6b9701e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 220/230] fix: derivatives of rational NURBSplines ignored the
 weights

---
 mmcore/geom/curves/_nurbs.pyx | 50 ++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 76f928f..0086d43 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -793,6 +793,47 @@ cdef class NURBSpline(ParametricCurve):
     @cython.initializedcheck(False)
     @cython.boundscheck(False)
     @cython.wraparound(False)
+    cdef bint crational(self) noexcept nogil:
+        """True if the weights are not all equal."""
+        cdef int i
+        for i in range(1, self._control_points.shape[0]):
+            if self._control_points[i,3]!=self._control_points[0,3]:
+                return True
+        return False
+
+    @cython.cdivision(True)
+    @cython.initializedcheck(False)
+    @cython.boundscheck(False)
+    @cython.wraparound(False)
+    cdef void cderivatives_rational(self, double t, int d, double[:,:] CK ) :
+        """
+        Derivatives of a rational curve (The NURBS Book, A4.2). Fills the CK.shape[0] first derivatives.
+        """
+        cdef int n = self._control_points.shape[0] - 1
+        cdef int i,j,k
+        cdef int rows = min(d + 1, <int>CK.shape[0])
+        cdef double binom
+        cdef double[:,:] Pw = self._control_points.copy()
+        cdef double[:,:] CKw = np.zeros((d + 1, 4))
+        for i in range(n + 1):
+            for j in range(3):
+                Pw[i,j]*=Pw[i,3]
+        curve_derivs_alg1(n, self._degree, self._knots, Pw, t, d, CKw, self._periodic)
+        for k in range(rows):
+            for j in range(3):
+                CK[k,j]=CKw[k,j]
+            binom=1.
+            for i in range(1, k + 1):
+                binom=binom*(k - i + 1)/i
+                for j in range(3):
+                    CK[k,j]-=binom*CKw[i,3]*CK[k - i,j]
+            for j in range(3):
+                CK[k,j]/=CKw[0,3]
+
+    @cython.cdivision(True)
+    @cython.initializedcheck(False)
+    @cython.boundscheck(False)
+    @cython.wraparound(False)
     cdef void cderivatives1(self, double t, int d, double[:,:] CK ) :
         """
         :param t: The parameter value.
@@ -805,6 +846,9 @@ cdef class NURBSpline(ParametricCurve):
         cdef int i
         #cdef double[:, :]  CK = np.zeros((du + 1, 4))
         #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
+        if self.crational():
+            self.cderivatives_rational(t, d, CK)
+            return
         curve_derivs_alg1(n, self._degree, self._knots, self._control_points[:,:-1], t, d, CK,self._periodic)
 
     @cython.cdivision(True)
@@ -823,7 +867,11 @@ cdef class NURBSpline(ParametricCurve):
            cdef int i
            #cdef double[:, :]  CK = np.zeros((du + 1, 4))
            #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
-           cdef double[:,:,:] PK= np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1 ))
+           cdef double[:,:,:] PK
+           if self.crational():
+               self.cderivatives_rational(t, d, CK)
+               return
+           PK= np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1 ))
 
            curve_derivs_alg2(n, self._degree, self._knots, self._control_points[:,:-1], t, d, CK, PK,self._periodic)
 
-- 
2.43.0


From 75b4cd9f7cdb9c9d417b559d10563d375e462d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 221/230] fix: NURBSpline aliased its arrays, handed out the
 array held by its cache and kept a stale interval or tree after an edit

---
 mmcore/geom/curves/_nurbs.pyx | 11 ++++++-----
 mmcore/geom/curves/bspline.py |  8 ++++++++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 0086d43..f2c63bf 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -433,7 +433,7 @@ cdef class NURBSpline(ParametricCurve):
         if knots is None:
                 self.generate_knots()
         else:
-            self._knots=knots
+            self._knots=knots.copy()
             self.knots_update_hook()
         self._evaluate_cached = functools.lru_cache(maxsize=None)(self._evaluate)
         if  periodic:
@@ -534,7 +534,7 @@ cdef class NURBSpline(ParametricCurve):
         return np.asarray(self._knots)
     @knots.setter
     def knots(self, double[:] v):
-        self._knots=v
+        self._knots=v.copy()
         self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
@@ -724,8 +724,9 @@ cdef class NURBSpline(ParametricCurve):
 
 
     cpdef set(self, double[:,:] control_points, double[:] knots ):
-        self._control_points=control_points
-        self._knots=knots
+        self._control_points=control_points.copy()
+        self._knots=knots.copy()
+        self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
     @cython.cdivision(True)
@@ -767,7 +768,7 @@ cdef class NURBSpline(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     def evaluate(self, double t):
-        return self._evaluate_cached(t)
+        return self._evaluate_cached(t).copy()
     @cython.cdivision(True)
     @cython.initializedcheck(False)
     @cython.boundscheck(False)
diff --git a/mmcore/geom/curves/bspline.py b/mmcore/geom/curves/bspline.py
index 201e514..5f3aa96 100644
--- a/mmcore/geom/curves/bspline.py
+++ b/mmcore/geom/curves/bspline.py
@@ -256,6 +256,14 @@ class NURBSpline(CNURBSpline, Curve):
             self._measured = shape
         return super().evaluate_length(bounds, tol)
 
+    @property
+    def tree(self):
+        shape = np.asarray(self.control_points).tobytes(), np.asarray(self.weights).tobytes(), np.asarray(self.knots).tobytes()
+        if shape != getattr(self, '_enclosed', None):
+            self._tree = None
+            self._enclosed = shape
+        return super().tree
+
     def points(self, *args, **kwargs):
         if self.degree == 1:
             return self.control_points[:-1]
-- 
2.43.0


From d606304776c1b227879c9d742cf7b62212b33d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 222/230] fix: NURBSpline accepted degrees, knots and control
 points that make its kernels read outside their arrays

---
 mmcore/geom/curves/_nurbs.pyx | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index f2c63bf..7e618a2 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -406,6 +406,19 @@ cdef void projective_to_cartesian_ptr_mem(double* point, double[:] result)  noex
 
 
 
+cdef int check_spline(Py_ssize_t count, int degree, double[:] knots) except -1:
+    cdef Py_ssize_t i
+    if degree < 0 or count < degree + 1:
+        raise ValueError("The number of control points cannot be less than degree+1.")
+    if knots is not None:
+        if knots.shape[0] != count + degree + 1:
+            raise ValueError("The number of knots must be the number of control points + degree + 1.")
+        for i in range(1, knots.shape[0]):
+            if not knots[i - 1] <= knots[i]:
+                raise ValueError("The knots must not decrease.")
+    return 0
+
+
 cdef class NURBSpline(ParametricCurve):
     cdef public double[:,:] _control_points
     cdef public int _degree
@@ -419,6 +432,7 @@ cdef class NURBSpline(ParametricCurve):
         return (self.__class__, (np.asarray(self._control_points),self._degree,  np.asarray(self._knots),  self._periodic))
     def __init__(self, double[:,:] control_points, int degree=3, double[:] knots=None, bint periodic=0):
         super().__init__()
+        check_spline(control_points.shape[0], degree, knots)
         self._degree = degree
         self._periodic = periodic
         self._control_points = np.ones((control_points.shape[0], 4))
@@ -450,8 +464,15 @@ cdef class NURBSpline(ParametricCurve):
 
 
         return obj
-    cpdef void set_degree(self, int val):
+    cpdef set_degree(self, int val):
+        check_spline(self._control_points.shape[0], val, None)
+        if val == self._degree:
+            return
+        if self._periodic:
+            raise ValueError("The degree of a periodic curve cannot be changed.")
         self._degree=val
+        self.generate_knots()
+        self._evaluate_cached.cache_clear()
 
 
     cpdef int get_degree(self):
@@ -522,6 +543,8 @@ cdef class NURBSpline(ParametricCurve):
         return np.asarray(self._control_points[:,:-1])
     @control_points.setter
     def control_points(self, control_points):
+        if control_points.shape[0] != self._control_points.shape[0]:
+            raise ValueError("The number of control points of a NURBSpline cannot be changed by assigning them.")
         new_control_points = np.ones((control_points.shape[0],4))
         new_control_points[:, :control_points.shape[1]] = control_points
         self._control_points = new_control_points
@@ -534,6 +557,7 @@ cdef class NURBSpline(ParametricCurve):
         return np.asarray(self._knots)
     @knots.setter
     def knots(self, double[:] v):
+        check_spline(self._control_points.shape[0], self._degree, v)
         self._knots=v.copy()
         self.knots_update_hook()
         self._evaluate_cached.cache_clear()
@@ -724,6 +748,7 @@ cdef class NURBSpline(ParametricCurve):
 
 
     cpdef set(self, double[:,:] control_points, double[:] knots ):
+        check_spline(control_points.shape[0], self._degree, knots)
         self._control_points=control_points.copy()
         self._knots=knots.copy()
         self.knots_update_hook()
-- 
2.43.0


From ed8541dce02689bb6dee61191e8aaf73de58d96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:28 +0000
Subject: [PATCH 223/230] fix: a deep copy of a periodic NURBSpline was not
 periodic

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 7e618a2..69aab2c 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -458,7 +458,7 @@ cdef class NURBSpline(ParametricCurve):
 
 
     def __deepcopy__(self, memodict={}):
-        obj=self.__class__(control_points=self.control_points.copy(), degree=self._degree, knots=np.asarray(self._knots).copy())
+        obj=self.__class__(control_points=self.control_points.copy(), degree=self._degree, knots=np.asarray(self._knots).copy(), periodic=self._periodic)
 
         obj.weights=self.weights
 
-- 
2.43.0


From 716520e9750d7d069ca6a09f958a4faf51dcf5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 224/230] fix: isolines of a surface with a domain other than
 the unit square stopped at parameter one or missed its corners

---
 mmcore/geom/surfaces/__init__.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index 3f518c8..b933885 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -279,31 +279,33 @@ class Surface:
         #return np.array([self.evaluate(uv),*arr,n])
         return arr
     def isocurve_u(self, u0: float, u1: float):
-        return self.isocurve(u0, 0.0, u1, 1.0)
+        v0, v1 = self.interval()[1]
+        return self.isocurve(u0, v0, u1, v1)
 
     def isocurve_v(self, v0: float, v1: float):
-        return self.isocurve(0.0, v0, 1.0, v1)
+        u0, u1 = self.interval()[0]
+        return self.isocurve(u0, v0, u1, v1)
 
     def isoline_u(self, u: float):
         orig = np.array([u, 0.])
         direction = np.array([0., 1.])
         crv = lambda t: orig + direction * t
-        return CurveOnSurface(self, crv)
+        return CurveOnSurface(self, crv, interval=tuple(self.interval()[1]))
 
     def isoline_v(self, v: float):
         orig = np.array([0., v])
         direction = np.array([1., 0.])
         crv = lambda t: orig + direction * t
-        return CurveOnSurface(self, crv)
+        return CurveOnSurface(self, crv, interval=tuple(self.interval()[0]))
 
     def interval(self):
         return (0.0, 1.0), (0.0, 1.0)
 
-    def isocurve(self, u0=-1.0, v0=-1.0, u1=-1.0, v1=-1.0):
-        start, end = self.interval()
-        kfc = list((*start, *end))
+    def isocurve(self, u0=None, v0=None, u1=None, v1=None):
+        (umin, umax), (vmin, vmax) = self.interval()
+        kfc = [umin, vmin, umax, vmax]
         for i, val in enumerate((u0, v0, u1, v1)):
-            if val < min(start):
+            if val is None or val < (umin, vmin)[i % 2]:
                 continue
             else:
                 kfc[i] = val
-- 
2.43.0


From f0802c73d9ab142e5ab7e6db4b551f78983fc5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 225/230] fix: derivatives of a ReparametrizedCurve were those
 of its curve by the old parameter

---
 mmcore/geom/curves/curve.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index 2523979..be416b4 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -564,10 +564,15 @@ class ReparametrizedCurve(Curve):
         return self.curve.tangent(self.parametrization(t))
     def normal(self, t):
         return self.curve.normal(self.parametrization(t))
+    def parametrization_slope(self, t):
+        # the parametrization interpolates linearly between its samples
+        x, y = self.parametrization.x, self.parametrization.y
+        i = min(max(int(np.searchsorted(x, t, side='right')) - 1, 0), len(x) - 2)
+        return (y[i + 1] - y[i]) / (x[i + 1] - x[i])
     def derivative(self, t):
-        return self.curve.derivative(self.parametrization(t))
+        return self.curve.derivative(float(self.parametrization(t))) * self.parametrization_slope(t)
     def second_derivative(self, t):
-        return self.curve.second_derivative(self.parametrization(t))
+        return self.curve.second_derivative(float(self.parametrization(t))) * self.parametrization_slope(t) ** 2
     def evaluate_multi(self, t):
 
         return self.curve.evaluate_multi(self.parametrization(t))
-- 
2.43.0


From b05172f44434a475757d79f10afe8403f9b799d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:26 +0000
Subject: [PATCH 226/230] fix: the tree of a curve kept its old range after the
 curve was trimmed or extended

---
 mmcore/geom/curves/curve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index be416b4..346a07a 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -155,6 +155,7 @@ class Curve:
 
     def extend(self, start=0., end=0.):
         self._interval = (self._interval[0] - start, self._interval[1] + end)
+        self._tree = None
 
     def normal(self, t):
         """
@@ -393,6 +394,7 @@ class TrimmedCurve(Curve):
     @start.setter
     def start(self, v):
         self.trim = (float(v), self.end)
+        self._tree = None
 
     @property
     def end(self):
@@ -401,6 +403,7 @@ class TrimmedCurve(Curve):
     @end.setter
     def end(self, v):
         self.trim = (self.start, float(v))
+        self._tree = None
 
     def interval(self):
         return self.trim
@@ -420,6 +423,7 @@ class CurveWrapper(Curve):
 
     def set_interval(self, t: tuple[float, float]):
         self._interval = t
+        self._tree = None
 
     def evaluate(self, t):
         return self.func(t)
-- 
2.43.0


From 68e661021c39e6f6fd24fa4c2c49d76446f2f0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:16 +0000
Subject: [PATCH 227/230] fix: evaluating a periodic curve at an infinite or
 very large parameter never returned

---
 mmcore/geom/curves/_nurbs.pyx | 11 ++++++-----
 mmcore/geom/nurbs.pxd         | 10 ++++++----
 mmcore/geom/nurbs.pyx         | 11 ++++++-----
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 69aab2c..26fd1da 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -10,7 +10,7 @@ from libc.stdlib cimport malloc,free
 from mmcore.geom.parametric cimport ParametricCurve
 from mmcore.numeric cimport vectors,calgorithms
 
-from libc.math cimport fabs, sqrt,fmin,fmax,pow
+from libc.math cimport fabs, sqrt,fmin,fmax,pow,floor
 cnp.import_array()
 
 
@@ -31,10 +31,11 @@ cdef int find_span(int n, int p, double u, double[:] U, bint is_periodic) noexce
         # Wrap u to be within the valid range for periodic and closed curves
 
         period= U_max - U_min
-        while u < U_min:
-            u += period
-        while u > U_max:
-            u -= period
+        if u < U_min or u > U_max:
+            u -= period * floor((u - U_min) / period)
+            if not (U_min <= u <= U_max):
+                # infinite, or too far away to tell
+                return p
 
     else:
         # Clamp u to be within the valid range for open curves
diff --git a/mmcore/geom/nurbs.pxd b/mmcore/geom/nurbs.pxd
index 4827916..c2c44d3 100644
--- a/mmcore/geom/nurbs.pxd
+++ b/mmcore/geom/nurbs.pxd
@@ -3,6 +3,7 @@
 # cython: boundscheck=False, wraparound=False
 
 cimport cython
+from libc.math cimport floor
 
 
 from mmcore.geom.parametric cimport ParametricCurve,ParametricSurface
@@ -221,10 +222,11 @@ cdef inline int find_span_inline(int n, int p, double u, double[:] U, bint is_pe
         # Wrap u to be within the valid range for periodic and closed curves
 
         period= U_max - U_min
-        while u < U_min:
-            u += period
-        while u > U_max:
-            u -= period
+        if u < U_min or u > U_max:
+            u -= period * floor((u - U_min) / period)
+            if not (U_min <= u <= U_max):
+                # infinite, or too far away to tell
+                return p
 
     else:
         # Clamp u to be within the valid range for open curves
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index d249aab..4ed2707 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -10,7 +10,7 @@ from cython.operator cimport dereference as deref
 cimport numpy as cnp
 import numpy as np
 from libc.string cimport memcpy,memcmp
-from libc.math cimport sqrt,fabs,fmax,fminf,fmin,pow
+from libc.math cimport sqrt,fabs,fmax,fminf,fmin,pow,floor
 from libc.stdint cimport uint32_t,int32_t
 
 cimport mmcore.geom.nurbs
@@ -130,10 +130,11 @@ cpdef int find_span(int n, int p, double u, double[:] U, bint is_periodic) noexc
         # Wrap u to be within the valid range for periodic and closed curves
 
         period= U_max - U_min
-        while u < U_min:
-            u += period
-        while u > U_max:
-            u -= period
+        if u < U_min or u > U_max:
+            u -= period * floor((u - U_min) / period)
+            if not (U_min <= u <= U_max):
+                # infinite, or too far away to tell
+                return p
 
     else:
         # Clamp u to be within the valid range for open curves
-- 
2.43.0


From 96465f3f25d2bb2beec2b875b5c746302e0e5df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:02 +0000
Subject: [PATCH 228/230] fix: a periodic curve beyond its interval was not the
 curve of the wrapped parameter

---
 mmcore/geom/curves/_nurbs.pyx | 28 ++++++++++++++++++++++------
 mmcore/geom/nurbs.pxd         | 24 ++++++++++++++++++------
 mmcore/geom/nurbs.pyx         | 13 +++++++------
 3 files changed, 47 insertions(+), 18 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 26fd1da..41383c9 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -15,6 +15,19 @@ cnp.import_array()
 
 
 
+@cython.cdivision(True)
+cdef inline double wrap_parameter(double u, double U_min, double U_max) noexcept nogil:
+    """
+    The parameter of a periodic curve within its interval. Infinite parameters are returned as they are.
+    """
+    cdef double w = u
+    if u < U_min or u > U_max:
+        w = u - (U_max - U_min) * floor((u - U_min) / (U_max - U_min))
+        if not (U_min <= w <= U_max):
+            return u
+    return w
+
+
 @cython.cdivision(True)
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -24,18 +37,15 @@ cdef int find_span(int n, int p, double u, double[:] U, bint is_periodic) noexce
     """
     cdef double U_min = U[p]
     cdef double U_max = U[n+1]
-    cdef double period
 
 
     if is_periodic :
         # Wrap u to be within the valid range for periodic and closed curves
 
-        period= U_max - U_min
+        u = wrap_parameter(u, U_min, U_max)
         if u < U_min or u > U_max:
-            u -= period * floor((u - U_min) / period)
-            if not (U_min <= u <= U_max):
-                # infinite, or too far away to tell
-                return p
+            # infinite, or too far away to tell
+            return p
 
     else:
         # Clamp u to be within the valid range for open curves
@@ -120,6 +130,8 @@ cdef void curve_point(int n, int p, double[:] U, double[:, :] P, double u, doubl
 
     cdef int pp = p + 1
     cdef int i, j
+    if is_periodic:
+        u = wrap_parameter(u, U[p], U[n + 1])
     cdef int span = find_span(n, p, u, U,is_periodic)
     cdef double* N = <double*>malloc(sizeof(double)*pp)
     cdef double sum_of_weights=0.
@@ -282,6 +294,8 @@ cpdef void curve_derivs_alg1(int n, int p, double[:] U, double[:, :] P, double u
     cdef int du = min(d, p)
     #cdef double[:, :] CK = np.zeros((du + 1, P.shape[1]))
     cdef int pp=p+1
+    if is_periodic:
+        u = wrap_parameter(u, U[p], U[n + 1])
     cdef int span = find_span(n, p, u, U,is_periodic)
     cdef double[:, :] nders = ders_basis_funs(span, u, p, du, U)
 
@@ -363,6 +377,8 @@ cpdef void curve_derivs_alg2(int n, int p, double[:] U, double[:, :] P, double u
 
     #cdef double[:, :] CK = np.zeros((d + 1, dimension))
 
+    if is_periodic:
+        u = wrap_parameter(u, U[p], U[n + 1])
     cdef int span = find_span(n, degree, u, knotvector,is_periodic)
     #cdef double[:, :, :] PK = np.zeros((d + 1, degree + 1, P.shape[1]))
 
diff --git a/mmcore/geom/nurbs.pxd b/mmcore/geom/nurbs.pxd
index c2c44d3..a77a0ca 100644
--- a/mmcore/geom/nurbs.pxd
+++ b/mmcore/geom/nurbs.pxd
@@ -62,6 +62,19 @@ cdef inline void basis_funs(int i, double u, int p, double[:] U, double* N) noex
     free(right)
 
 
+@cython.cdivision(True)
+cdef inline double wrap_parameter(double u, double U_min, double U_max) noexcept nogil:
+    """
+    The parameter of a periodic curve within its interval. Infinite parameters are returned as they are.
+    """
+    cdef double w = u
+    if u < U_min or u > U_max:
+        w = u - (U_max - U_min) * floor((u - U_min) / (U_max - U_min))
+        if not (U_min <= w <= U_max):
+            return u
+    return w
+
+
 @cython.cdivision(True)
 @cython.initializedcheck(False)
 @cython.boundscheck(False)
@@ -83,6 +96,8 @@ cdef inline void curve_point(int n, int p, double[:] U, double[:, :] P, double u
 
     cdef int pp = p + 1
     cdef int i, j
+    if is_periodic:
+        u = wrap_parameter(u, U[p], U[n + 1])
     cdef int span = find_span_inline(n, p, u, U,is_periodic)
     cdef double* N = <double*>malloc(sizeof(double)*pp)
     cdef double sum_of_weights=0.
@@ -215,18 +230,15 @@ cdef inline int find_span_inline(int n, int p, double u, double[:] U, bint is_pe
     """
     cdef double U_min = U[p]
     cdef double U_max = U[n+1]
-    cdef double period
 
 
     if is_periodic :
         # Wrap u to be within the valid range for periodic and closed curves
 
-        period= U_max - U_min
+        u = wrap_parameter(u, U_min, U_max)
         if u < U_min or u > U_max:
-            u -= period * floor((u - U_min) / period)
-            if not (U_min <= u <= U_max):
-                # infinite, or too far away to tell
-                return p
+            # infinite, or too far away to tell
+            return p
 
     else:
         # Clamp u to be within the valid range for open curves
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 4ed2707..e24011d 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -123,18 +123,15 @@ cpdef int find_span(int n, int p, double u, double[:] U, bint is_periodic) noexc
     """
     cdef double U_min = U[p]
     cdef double U_max = U[n+1]
-    cdef double period
 
 
     if is_periodic :
         # Wrap u to be within the valid range for periodic and closed curves
 
-        period= U_max - U_min
+        u = wrap_parameter(u, U_min, U_max)
         if u < U_min or u > U_max:
-            u -= period * floor((u - U_min) / period)
-            if not (U_min <= u <= U_max):
-                # infinite, or too far away to tell
-                return p
+            # infinite, or too far away to tell
+            return p
 
     else:
         # Clamp u to be within the valid range for open curves
@@ -365,6 +362,8 @@ cpdef void curve_derivs_alg1(int n, int p, double[:] U, double[:, :] P, double u
     cdef int du = min(d, p)
     #cdef double[:, :] CK = np.zeros((du + 1, P.shape[1]))
     cdef int pp=p+1
+    if is_periodic:
+        u = wrap_parameter(u, U[p], U[n + 1])
     cdef int span = find_span_inline(n, p, u, U,is_periodic)
     cdef double[:, :] nders = ders_basis_funs(span, u, p, du, U)
 
@@ -446,6 +445,8 @@ cpdef void curve_derivs_alg2(int n, int p, double[:] U, double[:, :] P, double u
 
     #cdef double[:, :] CK = np.zeros((d + 1, dimension))
 
+    if is_periodic:
+        u = wrap_parameter(u, U[p], U[n + 1])
     cdef int span = find_span_inline(n, degree, u, knotvector,is_periodic)
     #cdef double[:, :, :] PK = np.zeros((d + 1, degree + 1, P.shape[1]))
 
-- 
2.43.0


From b10215a2eb10ff35ca2520257353cecb4acc7f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:20 +0000
Subject: [PATCH 229/230] fix: surfaces that meet in a straight line: ssx
 raised ZeroDivisionError

---
 mmcore/numeric/intersection/ssx/surface_surface.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/intersection/ssx/surface_surface.py b/mmcore/numeric/intersection/ssx/surface_surface.py
index c4ba544..b94d110 100644
--- a/mmcore/numeric/intersection/ssx/surface_surface.py
+++ b/mmcore/numeric/intersection/ssx/surface_surface.py
@@ -473,9 +473,11 @@ class MarchingMethod(SSXMethod):
     def calculate_step(self, curvature_vector):
         K = scalar_norm(curvature_vector)
 
-        r = 1 / K
+        # A straight intersection has no curvature
+        if K == 0:
+            return self.max_step
 
-        step = np.sqrt(r ** 2 - (r - self.tol) ** 2) * 2
+        step = np.sqrt(self.tol * (2 / K - self.tol)) * 2
         # The curvature says nothing about the intersection far from the point
         return step if step < self.max_step else self.max_step
 
-- 
2.43.0


From bbd7d94bb56bbaa03cc746fd80356bf570fe65d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:20 +0000
Subject: [PATCH 230/230] fix: triangle data: files without rays or edges
 failed to load and missing neighbors were renumbered

---
 mmcore/topo/mesh/triangle/data.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mmcore/topo/mesh/triangle/data.py b/mmcore/topo/mesh/triangle/data.py
index b2029dc..2d10420 100644
--- a/mmcore/topo/mesh/triangle/data.py
+++ b/mmcore/topo/mesh/triangle/data.py
@@ -126,8 +126,8 @@ def loads(
         tokens = [x.split() for x in tokens]
         edges = [x for x in tokens if len(x) == (3 + N_bnd_markers)]
         rays = [x for x in tokens if len(x) == (5 + N_bnd_markers)]
-        edges = np.array(edges)
-        rays = np.array(rays)
+        edges = np.array(edges).reshape(-1, 3 + N_bnd_markers)
+        rays = np.array(rays).reshape(-1, 5 + N_bnd_markers)
         data['edges'] = np.array(edges[:, 1:3], dtype='intc')
         data['ray_origins'] = np.array(rays[:, 1:2], dtype='intc')
         data['ray_directions'] = np.array(rays[:, 3:], dtype='double')
@@ -165,7 +165,9 @@ def loads(
         v = np.array(head).reshape(-1, 1 + N_neighs)
         data['triangle_neighbors'] = np.array(v[:, 1:], dtype='intc')
         if not var.start_at_zero:
-            data['triangle_neighbors'] -= 1
+            # -1 stands for no neighbor
+            neighbors = data['triangle_neighbors']
+            neighbors[neighbors > 0] -= 1
 
     if node:
         tok = remove_comments(node).split()
-- 
2.43.0

