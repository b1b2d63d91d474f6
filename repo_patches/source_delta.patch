From df626dd2fa115957c87fcb878f585017b4351f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:24 +0000
Subject: [PATCH 01/66] fix: simulateDSM: support the documented multiple
 quantizers

nlev.reshape(1) rejected every vector of quantizer levels. Also make the
scipy backend cope with more than one input/quantizer and with store_xn
for modulators whose order exceeds 1.
---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      |  2 +-
 src/pydsm/delsig/_simulateDSM_scipy.py       | 13 +++++++------
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx |  2 +-
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index 031d0b0..5c0ccb0 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -51,7 +51,7 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
         c_nlev = np.asarray(nlev, dtype=np.int32)
         if c_nlev.ndim > 1:
             raise TypeError()
-        c_nlev=c_nlev.reshape(1)
+        c_nlev=c_nlev.reshape(-1)
     except (ValueError, TypeError):
          raise ValueError(\
             "Invalid argument: nlev must be convertible into a 1D int array")
diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index e64399f..2ac976f 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -73,7 +73,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
          PyDsmSlowPathWarning)
 
     # Make sure that nlev is an array
-    nlev = np.asarray(nlev).reshape(1)
+    nlev = np.asarray(nlev).reshape(-1)
 
     # Make sure that input is a matrix
     u = np.asarray(u)
@@ -148,14 +148,15 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
 
     for i in range(N):
         # I guess the coefficients in A, B, C, D should be real...
-        y0 = np.real(np.dot(C, x0) + np.dot(D1, u[:, i]))
+        y0 = np.real(np.dot(C, x0) + np.dot(D1, u[:, i:i+1]))
         if store_y:
-            y[:, i] = y0
-        v[:, i] = ds_quantize(y0, nlev)
-        x0 = np.dot(A, x0) + np.dot(B, np.vstack((u[:, i], v[:, i])))
+            y[:, i] = y0[:, 0]
+        v[:, i] = ds_quantize(y0, nlev)[:, 0]
+        x0 = np.dot(A, x0) + np.dot(B, np.vstack((u[:, i:i+1],
+                                                v[:, i:i+1])))
         if store_xn:
             # Save the next state
-            xn[:, i] = x0
+            xn[:, i] = x0[:, 0]
         if store_xmax:
             # Keep track of the state maxima
             xmax = np.max((np.abs(x0), xmax), 0)
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 405be58..2efaf88 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -58,7 +58,7 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
         c_nlev = np.asarray(nlev, dtype=np.int32)
         if c_nlev.ndim > 1:
             raise TypeError()
-        c_nlev=c_nlev.reshape(1)
+        c_nlev=c_nlev.reshape(-1)
     except (ValueError, TypeError):
          raise ValueError(\
             "Invalid argument: nlev must be convertible into a 1D int array")
-- 
2.43.0


From b25219f8c871d95d994347bf566561ebf4809273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:24 +0000
Subject: [PATCH 02/66] fix: simulateDSM: accept any array_like input in the
 Cython backends

The input is documented as array_like and is converted internally, but its
declaration as an ndarray made lists be rejected with a TypeError.
---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 2 +-
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index 5c0ccb0..f14abec 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -42,7 +42,7 @@ cdef extern from "cblas.h":
 
 include '_simulateDSM_helper.pxi'
 
-def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
+def simulateDSM(u, arg2, nlev=2, x0=0,
                 int store_xn=False, int store_xmax=False, int store_y=False):
 
     # Make sure that nlev is a 1D int array
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 2efaf88..f878782 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -49,7 +49,7 @@ cdef dcopy_ptr dcopy=<dcopy_ptr>Capsule_AsVoidPtr(
 
 include '_simulateDSM_helper.pxi'
 
-def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
+def simulateDSM(u, arg2, nlev=2, x0=0,
                 int store_xn=False, int store_xmax=False, int store_y=False):
 
     # Make sure that nlev is a 1D int array
-- 
2.43.0


From 85e8ba3069e7701bab561b8a7be78163c88f0bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:05 +0000
Subject: [PATCH 03/66] fix: simulateDSM: reject NTFs inconsistent with the
 inputs or quantizers

An NTF in zpk form specifies a single input, single quantizer modulator.
With more inputs, the Cython backends read past the end of their arrays.
---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 5 +++++
 src/pydsm/delsig/_simulateDSM_scipy.py       | 3 +++
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index f14abec..318d945 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -81,6 +81,11 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
             ntf_k=float(arg2[2])
             if ntf_z.ndim !=1 or ntf_p.ndim != 1:
                 raise TypeError()
+            if ntf_z.shape != ntf_p.shape:
+                raise TypeError()
+            # An NTF describes a single input, single quantizer modulator
+            if nu != 1 or nq != 1:
+                raise TypeError()
             form = 2
             order = ntf_z.shape[0]
         else:
diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index 2ac976f..0cab0ce 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -88,6 +88,9 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
         (ntf_z, ntf_p, ntf_k) = arg2
         form = 2
         order = len(ntf_z)
+        # An NTF describes a single input, single quantizer modulator
+        if len(ntf_p) != order or nu != 1 or nq != 1:
+            raise ValueError('Incorrect modulator specification')
     else:
         # Assume ABCD form
         ABCD = np.asarray(arg2)
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index f878782..5f58c8a 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -88,6 +88,11 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
             ntf_k=float(arg2[2])
             if ntf_z.ndim !=1 or ntf_p.ndim != 1:
                 raise TypeError()
+            if ntf_z.shape != ntf_p.shape:
+                raise TypeError()
+            # An NTF describes a single input, single quantizer modulator
+            if nu != 1 or nq != 1:
+                raise TypeError()
             form = 2
             order = ntf_z.shape[0]
         else:
-- 
2.43.0


From 79d4bc78843221907873a713add1d501b4172eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:32 +0000
Subject: [PATCH 04/66] fix: simulateDSM: raise the documented errors on
 invalid arguments

A 0-d input crashed the interpreter in the Cython backends, and the scipy
backend let most of the invalid arguments through to unrelated errors.
---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      |  2 +-
 src/pydsm/delsig/_simulateDSM_scipy.py       | 75 +++++++++++++-------
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx |  2 +-
 3 files changed, 53 insertions(+), 26 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index 318d945..c779ac0 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -60,7 +60,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
     cdef np.ndarray c_u
     try:
         c_u = np.asarray(u, dtype=np.float64, order='C')
-        if c_u.ndim > 2:
+        if c_u.ndim < 1 or c_u.ndim > 2:
             raise TypeError()
         if c_u.ndim == 1:
             c_u = c_u.reshape(1, -1)
diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index 0cab0ce..facb756 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -72,40 +72,67 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
     warn('Running the slow version of simulateDSM.',
          PyDsmSlowPathWarning)
 
-    # Make sure that nlev is an array
-    nlev = np.asarray(nlev).reshape(-1)
+    # Make sure that nlev is a 1D int array
+    try:
+        nlev = np.asarray(nlev, dtype=np.int32)
+        if nlev.ndim > 1:
+            raise TypeError()
+        nlev = nlev.reshape(-1)
+    except (ValueError, TypeError):
+        raise ValueError(
+            "Invalid argument: nlev must be convertible into a 1D int array")
 
     # Make sure that input is a matrix
-    u = np.asarray(u)
-    if u.ndim == 1:
-        u = u.reshape(1, -1)
+    try:
+        u = np.asarray(u, dtype=float)
+        if u.ndim < 1 or u.ndim > 2:
+            raise TypeError()
+        if u.ndim == 1:
+            u = u.reshape(1, -1)
+    except (ValueError, TypeError):
+        raise ValueError(
+            "Invalid argument: u must be convertible into a 2D float array")
 
     nu = u.shape[0]
     nq = np.size(nlev)
 
-    if type(arg2) == tuple and len(arg2) == 3:
-        # Assume ntf in zpk form
-        (ntf_z, ntf_p, ntf_k) = arg2
-        form = 2
-        order = len(ntf_z)
-        # An NTF describes a single input, single quantizer modulator
-        if len(ntf_p) != order or nu != 1 or nq != 1:
-            raise ValueError('Incorrect modulator specification')
-    else:
-        # Assume ABCD form
-        ABCD = np.asarray(arg2)
-        if ABCD.shape[1] == nu+ABCD.shape[0]:
-            # ABCD dimensions OK
+    try:
+        if type(arg2) == tuple and len(arg2) == 3:
+            # Assume ntf in zpk form
+            ntf_z = np.asarray(arg2[0], dtype=complex)
+            ntf_p = np.asarray(arg2[1], dtype=complex)
+            if ntf_z.ndim != 1 or ntf_z.shape != ntf_p.shape:
+                raise TypeError()
+            # An NTF describes a single input, single quantizer modulator
+            if nu != 1 or nq != 1:
+                raise TypeError()
+            form = 2
+            order = ntf_z.shape[0]
+        else:
+            # Assume ABCD form
+            ABCD = np.asarray(arg2, dtype=float)
+            if ABCD.ndim != 2:
+                raise TypeError()
+            if ABCD.shape[1] != nu+ABCD.shape[0]:
+                raise TypeError()
             form = 1
             order = ABCD.shape[0]-nq
-        else:
-            raise ValueError('Incorrect modulator specification')
+    except (ValueError, TypeError):
+        raise ValueError('Incorrect modulator specification')
 
     # Assure that the state is a column vector
-    if np.isscalar(x0) and x0 == 0:
-        x0 = np.zeros((order, 1))
-    else:
-        x0 = np.array(x0, dtype=float).reshape(-1, 1)
+    try:
+        if np.isscalar(x0) and x0 == 0:
+            x0 = np.zeros((order, 1))
+        else:
+            x0 = np.array(x0, dtype=float)
+            if x0.ndim < 1 or x0.ndim > 2:
+                raise TypeError()
+            x0 = x0.reshape(-1, 1)
+            if x0.shape[0] != order:
+                raise TypeError()
+    except (ValueError, TypeError):
+        raise ValueError('Incorrect initial condition specification')
 
     if form == 1:
         A = ABCD[0:order, 0:order]
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 5f58c8a..67ea5e8 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -67,7 +67,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
     cdef np.ndarray c_u
     try:
         c_u = np.asarray(u, dtype=np.float64, order='C')
-        if c_u.ndim > 2:
+        if c_u.ndim < 1 or c_u.ndim > 2:
             raise TypeError()
         if c_u.ndim == 1:
             c_u = c_u.reshape(1, -1)
-- 
2.43.0


From f8ba7cb28a1f50cb1ca0b9aa030f1297dc7863a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:42 +0000
Subject: [PATCH 05/66] fix: ds_quantize: accept scalars as documented

Both arguments may be scalars according to the docstring, but an indexable
level specification and a column vector were required.
---
 src/pydsm/delsig/_simulateDSM_scipy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index facb756..3053839 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -224,6 +224,9 @@ def ds_quantize(y, n):
     This definition gives the same step height for both mid-riser and
     mid-tread quantizers.
     """
+    shape = np.shape(y)
+    y = np.reshape(y, (-1, 1))
+    n = np.reshape(n, -1)
     v = np.empty_like(y)
     for qi in range(np.size(n)):
         if np.remainder(n[qi], 2) == 0:
@@ -232,4 +235,4 @@ def ds_quantize(y, n):
             v[qi] = 2*np.floor(0.5*(y[qi]+1))
         L = n[qi]-1
         v[qi, 0] = np.max((np.min((v[qi, 0], L)), -L))
-    return v
+    return v.reshape(shape)[()]
-- 
2.43.0


From cebadbb128d4823d9e5686e4909538d2bc0d9fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:26 +0000
Subject: [PATCH 06/66] fix: synthesizeChebyshevNTF: repair the design of
 bandpass NTFs

2*f1f2 replicated the tuple of band edges rather than doubling them and
the order was passed to cheby2 as a float.
---
 src/pydsm/delsig/_synthesizeChebyshevNTF.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_synthesizeChebyshevNTF.py b/src/pydsm/delsig/_synthesizeChebyshevNTF.py
index 3a63fc8..4dd77df 100644
--- a/src/pydsm/delsig/_synthesizeChebyshevNTF.py
+++ b/src/pydsm/delsig/_synthesizeChebyshevNTF.py
@@ -110,7 +110,6 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
         raise ValueError('Order must be even for a bandpass modulator.')
     else:
         f1, f2 = ds_f1f2(osr, f0)
-        f1f2 = (f1, f2)
 
     # Iteratively solve for the attenuation spec (x) which yields the
     # desired H_inf
@@ -144,7 +143,7 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
         if f0 == 0:
             z, p, k = cheby2(order, x, 1./osr, 'high', output='zpk')
         else:
-            z, p, k = cheby2(order/2, x, 2*f1f2, 'stop',
+            z, p, k = cheby2(order//2, x, (2*f1, 2*f2), 'stop',
                              output='zpk')
         f = 1./k - H_inf
         # print (x, f)
-- 
2.43.0


From 4f84521bbd166d54593c0944db9c0566a0a8bb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:29 +0000
Subject: [PATCH 07/66] fix: synthesizeChebyshevNTF: really meet the H_inf
 specification

The secant iteration was stopped after 10 steps, got stuck after steps
clipped to the bracket, and mistook flat regions for convergence. As a
result, the peak of the NTF could silently be well above H_inf (e.g., 1.84
rather than 1.5 with order=1, osr=4) or well below it. Bisect the bracket
when the secant makes poor progress and stop on the actual error.
---
 src/pydsm/delsig/_synthesizeChebyshevNTF.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pydsm/delsig/_synthesizeChebyshevNTF.py b/src/pydsm/delsig/_synthesizeChebyshevNTF.py
index 4dd77df..274d723 100644
--- a/src/pydsm/delsig/_synthesizeChebyshevNTF.py
+++ b/src/pydsm/delsig/_synthesizeChebyshevNTF.py
@@ -120,7 +120,7 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
     xtol = 1e-6
     # Initial guess for x
     x = 60.
-    itn_limit = 10
+    itn_limit = 100
     converged = False
     f_p = 0.
 
@@ -159,18 +159,20 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
         else:
             # Normal iteration
             df = f - f_p
-            if np.abs(df) < ftol:
+            if np.abs(f) < ftol or x_max-x_min < xtol:
                 converged = True
                 break
-            dx = -f * dx/df
+            if np.abs(f) < 0.5*np.abs(f_p):
+                dx = -f * dx/df
+            else:
+                # Poor progress of the secant iteration: bisect
+                dx = 0.5*(x_min+x_max)-x
         if converged:
             break
         x_p = x
         f_p = f
         x = np.max((x_min, np.min((x+dx, x_max))))
         dx = x - x_p
-        if np.abs(dx) < xtol:
-            break
 
     z = cplxpair(z)
     p = cplxpair(p)
-- 
2.43.0


From 23f593c533b1ac2dc4768b838da3d9ebee5ea255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:29 +0000
Subject: [PATCH 08/66] fix: ds_optzeros: correct the optimized zeros for n=10

The table had the (four) zero frequencies of the n=8 case, so that two
zeros were left at the band center.
---
 src/pydsm/delsig/_ds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_ds.py b/src/pydsm/delsig/_ds.py
index 5158045..adb4d98 100644
--- a/src/pydsm/delsig/_ds.py
+++ b/src/pydsm/delsig/_ds.py
@@ -188,8 +188,8 @@ def ds_optzeros(n, opt=1):
                                    0.9681602])
         elif n == 10:
             if opt == 1:
-                optZeros = np.asarray([0.1834370913, 0.5255334458,
-                                       0.7966668433, 0.9602899327])
+                optZeros = np.asarray([0.14887434, 0.43339539, 0.67940957,
+                                       0.86506337, 0.97390653])
             else:
                 optZeros = np.asarray([0, 0.41572267, 0.67208682, 0.86238894,
                                        0.97342121])
-- 
2.43.0


From 88b1392289400d7b7c7b099c09bb27f9ee9578d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:06 +0000
Subject: [PATCH 09/66] fix: dunn_optzeros: return as many zeros as requested
 for n=7

The table entry had a duplicated zero at DC, so that 8 zeros were returned
and ntf_dunn could not synthesize 7th order modulators.
---
 src/pydsm/NTFdesign/psychoacoustic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index 0f4ae5a..c6a2d71 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -106,7 +106,7 @@ def dunn_optzeros(n):
                          [3.590, -3.590, 11.954, -11.954],
                          [0.0, 4.308, -4.308, 12.959, -12.959],
                          [3.325, -3.325, 7.078, -7.078, 13.389, -13.389],
-                         [0.0, 0.0, 4.017, -4.017, 10.471, -10.471, 13.842,
+                         [0.0, 4.017, -4.017, 10.471, -10.471, 13.842,
                           -13.842],
                          [2.933, -2.933, 5.167, -5.167, 12.012, -12.012,
                           14.381, -14.381]]
-- 
2.43.0


From c2a7199a6af1fe83e4e7db7c7c5315ae4c0f4ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:07 +0000
Subject: [PATCH 10/66] fix: relab.eps: return the actual floating point
 spacing

np.finfo(x).eps*abs(x) is the distance to the next floating point number
only for powers of 2 (and it is 0 at 0).
---
 src/pydsm/relab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index d24c8d5..7e94ecf 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -77,7 +77,7 @@ def eps(x=1.):
     """
 
     def _eps(xi):
-        return np.finfo(xi).eps * np.abs(xi)
+        return np.spacing(np.abs(xi))
     if isinstance(x, (type, np.dtype)):
         return np.finfo(x).eps
     elif np.isscalar(x):
-- 
2.43.0


From fd535a20e3c4a2a6a87b46318969376703ed865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:07 +0000
Subject: [PATCH 11/66] fix: relab.cplxpair: stop using the removed np.float
 alias

Arrays of integers, as in the docstring examples, raised AttributeError.
---
 src/pydsm/relab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index 7e94ecf..705a1fe 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -300,5 +300,5 @@ def cplxpair(x, tol=None, dim=None):
         try:
             tol = 100*eps(x.dtype)
         except:
-            tol = 100*eps(np.float)
+            tol = 100*eps(float)
     return np.apply_along_axis(cplxpair_vec, dim, x, tol)
-- 
2.43.0


From a87173fea2f168cd14ccb1ee3f141fbd52b074b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:07 +0000
Subject: [PATCH 12/66] fix: relab.cplxpair: do not loop forever on numbers
 that cannot be paired

When no other entry has the same real part of the current one, the search
did not make progress, e.g., for [1+100j, 1+1e-13+0.5j].
---
 src/pydsm/relab.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index 705a1fe..b79ce3c 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -275,6 +275,8 @@ def cplxpair(x, tol=None, dim=None):
                             tol*np.abs(v))), x_cplx.size-start-1)+1
             if (sim_len % 2) != 0:
                 sim_len -= 1
+            if sim_len == 0:
+                raise ValueError('Complex numbers cannot be paired')
             # At this point, sim_len elements with identical real part
             # have been identified.
             sub_x = x_cplx[start:start+sim_len]
-- 
2.43.0


From f89e297573387175e1418a1c907ded712b9d70c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:07 +0000
Subject: [PATCH 13/66] fix: relab.cplxpair: keep the entries of each conjugate
 pair together

Pairs sharing their real part were returned with all the entries with
negative imaginary part before those with positive imaginary part.
---
 src/pydsm/relab.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index b79ce3c..a57a004 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -287,9 +287,8 @@ def cplxpair(x, tol=None, dim=None):
                 raise ValueError('Complex numbers cannot be paired')
             # Output should contain "perfect" pairs. Hence, keep entries
             # with positive imaginary parts amd use conjugate for pair
-            x_cplx[start:start+sim_len] = np.concatenate(
-                (np.conj(sub_x[:sim_len//2-1:-1]),
-                 sub_x[:sim_len//2-1:-1]))
+            x_cplx[start:start+sim_len:2] = np.conj(sub_x[:sim_len//2-1:-1])
+            x_cplx[start+1:start+sim_len:2] = sub_x[:sim_len//2-1:-1]
             start += sim_len
         return np.concatenate((x_cplx, x_real))
 
-- 
2.43.0


From c6b826d01c18fd7dbefad29bfb1e9db6d24e15ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:07 +0000
Subject: [PATCH 14/66] fix: relab.cplxpair: do not lose imaginary parts in
 multi-dimensional arrays

The output type was taken from the first vector being processed, so that
when this was real the imaginary parts were discarded from all the others.
---
 src/pydsm/relab.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index a57a004..dbf6f7d 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -302,4 +302,8 @@ def cplxpair(x, tol=None, dim=None):
             tol = 100*eps(x.dtype)
         except:
             tol = 100*eps(float)
+    if x.ndim > 1:
+        # All the vectors must be returned with the same type
+        return np.apply_along_axis(
+            lambda v: cplxpair_vec(v, tol).astype(x.dtype), dim, x)
     return np.apply_along_axis(cplxpair_vec, dim, x, tol)
-- 
2.43.0


From ff2d8a06815b64e4ad700b82670426b8f21ac064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:07 +0000
Subject: [PATCH 15/66] fix: iso226.tabled_B_f: correct the exponents of ISO
 226 sect. 4.2

Misplaced parentheses made the loudness levels from tabled_L_N wrong.
---
 src/pydsm/iso226.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/iso226.py b/src/pydsm/iso226.py
index cc47a65..30ab051 100644
--- a/src/pydsm/iso226.py
+++ b/src/pydsm/iso226.py
@@ -269,8 +269,8 @@ def tabled_B_f(L_p, hfe=False):
     reference pressure level P0 (close to the hearing threshold at 1 kHz and
     set to 20 uPa RMS).
     """
-    B_f = ((0.4*10**(L_p+tbl_L_U)/10.-9.)**tbl_alpha_f -
-           (0.4*10**(tbl_T_f+tbl_L_U)/10.-9.)**tbl_alpha_f +
+    B_f = ((0.4*10**((L_p+tbl_L_U)/10.-9.))**tbl_alpha_f -
+           (0.4*10**((tbl_T_f+tbl_L_U)/10.-9.))**tbl_alpha_f +
            0.005135)
     return np.append(B_f, B_f[0]) if hfe else B_f
 
-- 
2.43.0


From 1791583126827ce94101ae297aedf775a0cd4fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:07 +0000
Subject: [PATCH 16/66] fix: audio_weightings.a_zpk: correct the 737.9 Hz pole

The filter did not match a_weighting and the ANSI S1.42 A-weighting.
---
 src/pydsm/audio_weightings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/audio_weightings.py b/src/pydsm/audio_weightings.py
index e09be2f..99f775b 100644
--- a/src/pydsm/audio_weightings.py
+++ b/src/pydsm/audio_weightings.py
@@ -111,7 +111,7 @@ __all__ = ["a_zpk", "a_weighting", "b_zpk", "b_weighting",
            "f_zpk", "f_weighting"]
 
 a_zpk = (2*np.pi*np.asarray([0., 0., 0., 0.]),
-         2*np.pi*np.asarray([-20.6, -20.6, -107.7, -739.9, -12200., -12200.]),
+         2*np.pi*np.asarray([-20.6, -20.6, -107.7, -737.9, -12200., -12200.]),
          (2*np.pi*12200.)**2)
 """A-weighting filter in zpk form."""
 
-- 
2.43.0


From 6c2fa8ef7944dc64bd427e589e3f192038c9d91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:07 +0000
Subject: [PATCH 17/66] fix: ft.dtft: correct the sign of t0

t0 is documented as the time when x[0] is sampled, but the transform was
that of a sequence whose first sample is taken at -t0.
---
 src/pydsm/ft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index 23a6f08..59639ad 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -111,7 +111,7 @@ def dtft(x, fs=1, t0=0):
         the time when x[0] is sampled (defaults to 0). This is expressed
         in sample intervals.
     """
-    return lambda f: np.sum(x*np.exp(-2j*np.pi*f/fs*(np.arange(len(x))-t0)))
+    return lambda f: np.sum(x*np.exp(-2j*np.pi*f/fs*(np.arange(len(x))+t0)))
 
 
 def dtft_hermitian(x, fs=1):
-- 
2.43.0


From 632590358a0a9b061bbb767f2d672907d427424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:07 +0000
Subject: [PATCH 18/66] fix: ft.dtft_hermitian: accept any array_like as
 documented

---
 src/pydsm/ft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index 59639ad..fcd8f29 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -138,7 +138,7 @@ def dtft_hermitian(x, fs=1):
     fs : real, optional
         sample frequency for the input vector (defaults to 1)
     """
-    x = x.real
+    x = np.asarray(x).real
     return lambda f: \
         x[0]+np.sum(x[1:]*2*np.cos(2*np.pi*f/fs*np.arange(1, len(x))))
 
-- 
2.43.0


From cdebd053f74531e9ada01408c5a8863c53b7bfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:07 +0000
Subject: [PATCH 19/66] fix: ft.idtft_hermitian: use its own default_options

The defaults were taken from those of idtft, so that changing the
default_options attribute of the function had no effect.
---
 src/pydsm/ft.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index fcd8f29..8edda1e 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -239,7 +239,8 @@ def idtft_hermitian(Ff, tt, fs=1, **options):
         For the meaning of the integrator parameters.
     """
     # Manage optional parameters
-    opts = digested_options(options, idtft.default_options, [], ['quad_opts'])
+    opts = digested_options(options, idtft_hermitian.default_options,
+                            [], ['quad_opts'])
     # Do the computation
     if np.isscalar(tt):
         return _idtft_hermitian(Ff, tt, fs, **opts['quad_opts'])
@@ -247,4 +248,5 @@ def idtft_hermitian(Ff, tt, fs=1, **options):
         return np.asarray([_idtft_hermitian(Ff, t, fs, **opts['quad_opts'])
                            for t in tt])
 
-idtft_hermitian.default_options = idtft.default_options.copy()
+idtft_hermitian.default_options = {
+    "quad_opts": idtft.default_options["quad_opts"].copy()}
-- 
2.43.0


From eb40b4360bac54e4cc75adba57fcb3d254ade42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:07 +0000
Subject: [PATCH 20/66] fix: ft.fft_centered: document the actual order of the
 returned values

---
 src/pydsm/ft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index 8edda1e..53481b5 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -65,10 +65,10 @@ def fft_centered(x, fs=1):
 
     Returns
     -------
-    X : ndarray
-        samples of the DFT of the input vector
     ff : ndarray
         vector of frequencies corresponding to the samples in X
+    X : ndarray
+        samples of the DFT of the input vector
 
     Other Parameters
     ----------------
-- 
2.43.0


From 0c24d722efc319a4fbace7b074bd7095e921b795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:07 +0000
Subject: [PATCH 21/66] fix: correlations.raw_xcorr: do not swap the two
 vectors

The documented correlation is q(k)=sum_n x(n) y(n-k), while the sum over
y(n) x(n-k) was computed.
---
 src/pydsm/correlations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/correlations.py b/src/pydsm/correlations.py
index 26b1e6b..db9f88e 100644
--- a/src/pydsm/correlations.py
+++ b/src/pydsm/correlations.py
@@ -103,11 +103,11 @@ def raw_xcorr(x, y, N):
     Notes
     -----
     the routine does not make any check on the lengths of x, y and N. It
-    is responsibility of the user to assure that N<=len(y). In some cases
+    is responsibility of the user to assure that N<=len(x). In some cases
     (but only in some cases), zero padding is assumed.
     """
     mx = len(x)
     my = len(y)
-    q = np.asarray([np.dot(y[k:min(my, mx+k)],
-                           x[0:min(my-k, mx)]) for k in range(N+1)])
+    q = np.asarray([np.dot(x[k:min(mx, my+k)],
+                           y[0:min(mx-k, my)]) for k in range(N+1)])
     return q
-- 
2.43.0


From 1c99bff0d08bb60909e323a1a40849116f9e3fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:20 +0000
Subject: [PATCH 22/66] fix: ntf_fir_minmax: make zf=True work with the cvxpy
 modeler

The constraints forcing the zeros used functions and conventions of
cvxpy versions older than those required by the rest of the code.
---
 src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
index 12dcbce..b0a57e3 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
@@ -97,7 +97,7 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
             F += [M << 0]
             if zf:
                 # Force a zero at DC
-                F += [cvxpy.sum_entries(c) == -1]
+                F += [cvxpy.sum(c) == -1]
         else:
             # Bandpass modulator
             M1r = (A.T @ P @ A + Q @ A*np.cos(omega0) +
@@ -121,11 +121,11 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
             if zf:
                 # Force a zero at z=np.exp(1j*omega0)
                 nn = np.arange(order).reshape((order, 1))
-                vr = np.matrix(np.cos(omega0*nn))
-                vi = np.matrix(np.sin(omega0*nn))
-                vn = np.matrix(
-                    [-np.cos(omega0*order), -np.sin(omega0*order)])
-                F += [c*cvxpy.hstack(vr, vi) == vn]
+                vr = np.cos(omega0*nn)
+                vi = np.sin(omega0*nn)
+                vn = np.array(
+                    [[-np.cos(omega0*order), -np.sin(omega0*order)]])
+                F += [c @ np.hstack((vr, vi)) == vn]
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = cvxpy.Variable((order, order), PSD=True)
-- 
2.43.0


From e9699e1b2765a26439902362fb9650cdb9c97621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:20 +0000
Subject: [PATCH 23/66] fix: ntf_fir_minmax: make zf=True work with picos on
 bandpass modulators

cvxopt matrices do not support the & operator for concatenation.
---
 src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
index 754cdf3..8063995 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
@@ -126,11 +126,11 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
             if zf:
                 # Force a zero at z=np.exp(1j*omega0)
                 nn = np.arange(order).reshape((order, 1))
-                vr = cvxopt.matrix(np.cos(omega0*nn))
-                vi = cvxopt.matrix(np.sin(omega0*nn))
+                vr = np.cos(omega0*nn)
+                vi = np.sin(omega0*nn)
                 vn = cvxopt.matrix(
-                    [-np.cos(omega0*order), -np.sin(omega0*order)])
-                p.add_constraint(c*(vr & vi) == vn)
+                    [-np.cos(omega0*order), -np.sin(omega0*order)], (1, 2))
+                p.add_constraint(c*cvxopt.matrix(np.hstack((vr, vi))) == vn)
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = picos.SymmetricVariable('R', order)
-- 
2.43.0


From e7f3c945f9fcfa0ad8aa5a745e4d57a7bd47c422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:42 +0000
Subject: [PATCH 24/66] fix: ntf_fir_minmax: make zf=True work with f0=0.5

The condition on the imaginary part is redundant (0=0 but for the rounding
errors) when the zero is real, which made the solvers fail.
---
 src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py     | 6 +++++-
 src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
index b0a57e3..2b5c774 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
@@ -125,7 +125,11 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
                 vi = np.sin(omega0*nn)
                 vn = np.array(
                     [[-np.cos(omega0*order), -np.sin(omega0*order)]])
-                F += [c @ np.hstack((vr, vi)) == vn]
+                if f0 == 0.5:
+                    # The zero is real, the imaginary part is null anyway
+                    F += [c @ vr == vn[:, 0:1]]
+                else:
+                    F += [c @ np.hstack((vr, vi)) == vn]
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = cvxpy.Variable((order, order), PSD=True)
diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
index c20cee3..01ab756 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
@@ -125,7 +125,12 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
                 vi = cvxpy_tdr.matrix(np.sin(omega0*nn))
                 vn = cvxpy_tdr.matrix(
                     [-np.cos(omega0*order), -np.sin(omega0*order)])
-                F += [cvxpy_tdr.equals(c*cvxpy_tdr.hstack((vr, vi)), vn)]
+                if f0 == 0.5:
+                    # The zero is real, the imaginary part is null anyway
+                    F += [cvxpy_tdr.equals(c*vr, vn[0, 0])]
+                else:
+                    F += [cvxpy_tdr.equals(
+                        c*cvxpy_tdr.hstack((vr, vi)), vn)]
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = cvxpy_tdr.variable(order, order, 'symmetric')
-- 
2.43.0


From 37e89b3a963467696e7f5b57fdc5437dafe17ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:40 +0000
Subject: [PATCH 25/66] fix: cvxpy_tdr.reshape: use integer division for the
 column index

---
 src/pydsm/cvxpy_tdr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/cvxpy_tdr/utils.py b/src/pydsm/cvxpy_tdr/utils.py
index 1b690e7..d7a718e 100644
--- a/src/pydsm/cvxpy_tdr/utils.py
+++ b/src/pydsm/cvxpy_tdr/utils.py
@@ -394,7 +394,7 @@ def reshape(v, newshape):
         for j in range(0,n,1):
             for i in range(0,m,1):
                 k = j*m + i
-                new_ar[k % mn,k / mn] = v[i,j]
+                new_ar[k % mn,k // mn] = v[i,j]
         return new_ar
 
 # Load modules
-- 
2.43.0


From f1f3c1fb8117ee63dfdb35e0428d5d45cac0c982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:40 +0000
Subject: [PATCH 26/66] fix: cvxpy_tdr.spmatrix: work with current scipy
 releases

The format attribute has become a read only property of scipy sparse
matrices. Also correct the references to np.lil_matrix, which does not
exist.
---
 src/pydsm/cvxpy_tdr/arrays.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/arrays.py b/src/pydsm/cvxpy_tdr/arrays.py
index 04e6dfd..f57dcd8 100644
--- a/src/pydsm/cvxpy_tdr/arrays.py
+++ b/src/pydsm/cvxpy_tdr/arrays.py
@@ -680,7 +680,6 @@ class cvxpy_spmatrix(sp.lil_matrix):
 
         # Call parent constructor
         sp.lil_matrix.__init__(self,arg,dtype=dtype)
-        self.format = sp.lil_matrix.__name__[:3]
 
     # Method: _create_col_based_rep
     def _create_col_based_rep(self):
@@ -725,7 +724,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__radd__(self,other)
+            return sp.lil_matrix.__radd__(self,other)
 
     # Method: __sub__
     def __sub__(self,other):
@@ -734,7 +733,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__sub__(self,other)
+            return sp.lil_matrix.__sub__(self,other)
 
     # Method: __rsub__
     def __rsub__(self,other):
@@ -743,7 +742,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__rsub__(self,other)
+            return sp.lil_matrix.__rsub__(self,other)
 
     # Method: __mul__
     def __mul__(self,other):
@@ -752,7 +751,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__mul__(self,other)
+            return sp.lil_matrix.__mul__(self,other)
 
     # Method: __rmul__
     def __rmul__(self,other):
@@ -761,7 +760,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__rmul__(self,other)
+            return sp.lil_matrix.__rmul__(self,other)
 
 #***********************************************************************#
 # Class definition: cvxpy_sparray                                       #
-- 
2.43.0


From 6cb8a4e26c7d6d53b8a7ca510c759b6f706ef67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 27/66] fix: cvxpy_tdr: negate all the entries when subtracting
 an array from a sparse matrix

---
 src/pydsm/cvxpy_tdr/arrays.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/arrays.py b/src/pydsm/cvxpy_tdr/arrays.py
index f57dcd8..d0c497a 100644
--- a/src/pydsm/cvxpy_tdr/arrays.py
+++ b/src/pydsm/cvxpy_tdr/arrays.py
@@ -286,7 +286,10 @@ class cvxpy_array(object):
             else:
                 for i in range(0,m):
                     for j in range(0,n):
-                        new_ar.data[i][j] = self.data[i][j]
+                        if action == RIGHT_SUBTRACT:
+                            new_ar.data[i][j] = -self.data[i][j]
+                        else:
+                            new_ar.data[i][j] = self.data[i][j]
                 for i in range(0,m,1):
                     rowi_indeces = other.rows[i]
                     rowi_values = other.data[i]
@@ -297,10 +300,8 @@ class cvxpy_array(object):
                             new_ar.data[i][j] = new_ar.data[i][j] + value
                         elif action == LEFT_SUBTRACT:
                             new_ar.data[i][j] = new_ar.data[i][j] - value
-                        elif action == RIGHT_ADD:
-                            new_ar.data[i][j] = value + new_ar.data[i][j]
                         else:
-                            new_ar.data[i][j] = value - new_ar.data[i][j]
+                            new_ar.data[i][j] = value + new_ar.data[i][j]
                 return new_ar
 
         # Not implemented
-- 
2.43.0


From aa2e32d3c38a8aa7d1689a28ba09b0fca1dc93fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:51 +0000
Subject: [PATCH 28/66] fix: cvxpy_tdr.power_p: do not loop forever when the
 argument is null

The solver was given a nonlinear constraint in a constant argument, having
no point in its domain. Use an auxiliary variable as in power_pos.
---
 src/pydsm/cvxpy_tdr/functions/power_p.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/cvxpy_tdr/functions/power_p.py b/src/pydsm/cvxpy_tdr/functions/power_p.py
index fcf20b2..9d79ab0 100644
--- a/src/pydsm/cvxpy_tdr/functions/power_p.py
+++ b/src/pydsm/cvxpy_tdr/functions/power_p.py
@@ -73,10 +73,12 @@ def power_p(x,p):
     for i in range(0,arg.shape[0],1):
         for j in range(0,arg.shape[1],1):
             t = variable()
+            v = variable()
             z = variable()
             if p > 1.:
                 prog = program(minimize(t),
-                               [belongs(vstack((z,t)),
+                               [less_equals(z,v),
+                                belongs(vstack((v,t)),
                                         power_pos_epi(p)),
                                 greater_equals(z,0)],
                                [z],
-- 
2.43.0


From 6c4c10c53603ddc76ad9f5de4c28f0075cbff7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:12 +0000
Subject: [PATCH 29/66] fix: synthesizeNTF: support explicitly given zeros for
 bandpass NTFs

The order used for the poles was left halved.
---
 src/pydsm/delsig/_synthesizeNTF0.py | 2 ++
 src/pydsm/delsig/_synthesizeNTF1.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pydsm/delsig/_synthesizeNTF0.py b/src/pydsm/delsig/_synthesizeNTF0.py
index e669f12..1ca0538 100644
--- a/src/pydsm/delsig/_synthesizeNTF0.py
+++ b/src/pydsm/delsig/_synthesizeNTF0.py
@@ -86,6 +86,8 @@ def synthesizeNTF0(order, osr, opt, H_inf, f0):
         z = np.exp(1j*z)
     else:
         z = opt
+        # As many poles as the zeros (order may have been halved)
+        order = z.size
 
     p = np.zeros(order)
     k = 1
diff --git a/src/pydsm/delsig/_synthesizeNTF1.py b/src/pydsm/delsig/_synthesizeNTF1.py
index de713fd..0335dcd 100644
--- a/src/pydsm/delsig/_synthesizeNTF1.py
+++ b/src/pydsm/delsig/_synthesizeNTF1.py
@@ -89,6 +89,8 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
         z = np.exp(1j*z)
     else:
         z = opt
+        # As many poles as the zeros (order may have been halved)
+        order = z.size
 
     zp = z[np.angle(z) > 0]
     x0 = (np.angle(zp)-2*np.pi*f0) * osr / np.pi
-- 
2.43.0


From bd1dc23b1f70c735f4abf7d448698b5aba3ea019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:37 +0000
Subject: [PATCH 30/66] fix: undbm: accept array_like arguments as documented

---
 src/pydsm/delsig/_decibel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/delsig/_decibel.py b/src/pydsm/delsig/_decibel.py
index b05a1ce..1c98563 100644
--- a/src/pydsm/delsig/_decibel.py
+++ b/src/pydsm/delsig/_decibel.py
@@ -182,4 +182,4 @@ def undbm(x, R=50.):
         rms voltage that applied over a resistor R gives a power equal to x
         in dBm (i.e. referred to 1mW)
     """
-    return np.sqrt(R*10**((x-30)/10.))
+    return np.sqrt(R*10**((np.asarray(x)-30)/10.))
-- 
2.43.0


From cd264208d4918a6a5930a06e738b646c575fb5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:37 +0000
Subject: [PATCH 31/66] fix: ntf_hybrid_weighting: use its own default_options

The defaults for the modeler and solver options were silently taken from
ntf_fir_from_q0. Align the (previously ignored) scs defaults to those that
were actually in use.
---
 .../NTFdesign/weighting/_fir_weighting.py      | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting.py b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
index 700986b..c4c5de7 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
@@ -573,17 +573,17 @@ def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
                 'picos_opts': {}}
     if opts2['modeler'] == 'cvxpy':
         opts2.update(digested_options(
-            options, ntf_fir_from_q0.default_options,
+            options, ntf_hybrid_weighting.default_options,
             [], ['cvxpy_opts'], False))
         if opts2['cvxpy_opts']['solver'] == 'cvxopt':
             dig_opts['cvxpy_opts'].update(digested_options(
-                options, ntf_fir_from_q0.default_options,
+                options, ntf_hybrid_weighting.default_options,
                 [], ['cvxopt_opts'], False)['cvxopt_opts'])
             if opts2['cvxpy_opts'].get('override_kktsolver', True):
                 dig_opts['cvxpy_opts']['kktsolver'] = 'chol'
         elif opts2['cvxpy_opts']['solver'] == 'scs':
             dig_opts['cvxpy_opts'].update(digested_options(
-                options, ntf_fir_from_q0.default_options,
+                options, ntf_hybrid_weighting.default_options,
                 [], ['scs_opts'], False)['scs_opts'])
         opts2['cvxpy_opts'].pop('override_kktsolver')
         dig_opts['cvxpy_opts'].update(opts2['cvxpy_opts'])
@@ -591,13 +591,13 @@ def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
             ntf_fir_from_digested as _ntf_fir_from_digested)
     elif opts2['modeler'] == 'cvxpy_old':
         dig_opts['cvxpy_tdr_opts'].update(digested_options(
-            options, ntf_fir_from_q0.default_options,
+            options, ntf_hybrid_weighting.default_options,
             [], ['cvxopt_opts'], False)['cvxopt_opts'])
         from ._fir_weighting_cvxpy_tdr import (
             ntf_fir_from_digested as _ntf_fir_from_digested)
     elif opts2['modeler'] == 'picos':
         dig_opts['picos_opts'].update(digested_options(
-            options, ntf_fir_from_q0.default_options,
+            options, ntf_hybrid_weighting.default_options,
             [], ['cvxopt_opts'], False)['cvxopt_opts'])
         from ._fir_weighting_picos import (
             ntf_fir_from_digested as _ntf_fir_from_digested)
@@ -641,11 +641,13 @@ ntf_hybrid_weighting.default_options = {"modeler": "cvxpy_old",
                                                         'abstol': 1e-7,
                                                         'reltol': 1e-6,
                                                         'feastol': 1e-6},
-                                        'scs_opts': {'max_iters': 2500,
-                                                     'eps': 1e-3,
+                                        'scs_opts': {'max_iters': 250000,
+                                                     'eps': 1e-10,
                                                      'alpha': 1.8,
                                                      'normalize': True,
-                                                     'use_indirect': False},
+                                                     'use_indirect': False,
+                                                     'acceleration_lookback':
+                                                     0},
                                         'show_progress': True,
                                         'fix_pos': True}
 ntf_hybrid_weighting.default_options.update(q0_weighting.default_options)
-- 
2.43.0


From ab5c9e27936a66ce5e79e3c5b766d8ce739f97ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 32/66] fix: ntf_fir_audio_weighting: use its own
 default_options as documented

---
 src/pydsm/NTFdesign/psychoacoustic.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index c6a2d71..9d3c654 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -57,6 +57,7 @@ from .delsig import synthesizeNTF
 from ..delsig import undbp as undbp
 from .. import audio_weightings
 from .weighting import ntf_fir_weighting
+from ..utilities import digested_options
 from warnings import warn
 from ..exceptions import PyDsmDeprecationWarning
 
@@ -272,6 +273,23 @@ def ntf_fir_audio_weighting(
     For more information on the ``CVXOPT`` optimizer parameters, see
     the corresponding documentation.
     """
+    # Manage optional parameters
+    defaults = ntf_fir_audio_weighting.default_options
+    opts = digested_options(options, defaults,
+                            ['show_progress', 'fix_pos', 'modeler'],
+                            ['quad_opts'], False)
+    if opts['modeler'] == 'cvxpy':
+        opts.update(digested_options(options, defaults,
+                                     [], ['cvxpy_opts'], False))
+        if opts['cvxpy_opts']['solver'] in ('cvxopt', 'scs'):
+            opts.update(digested_options(
+                options, defaults,
+                [], [opts['cvxpy_opts']['solver'] + '_opts'], False))
+    elif opts['modeler'] in ('cvxpy_old', 'picos'):
+        opts.update(digested_options(options, defaults,
+                                     [], ['cvxopt_opts'], False))
+    # Leftover options are checked by ntf_fir_weighting
+    opts.update(options)
     if not callable(audio_weighting):
         if audio_weighting == 'f':
             audio_weighting = audio_weightings.f_weighting
@@ -290,7 +308,7 @@ def ntf_fir_audio_weighting(
         w = audio_weighting(fx) if fx <= audio_band else 0
         return max(w, ma)
 
-    return ntf_fir_weighting(order, w, H_inf, normalize, **options)
+    return ntf_fir_weighting(order, w, H_inf, normalize, **opts)
 
 ntf_fir_audio_weighting.default_options = \
     ntf_fir_weighting.default_options.copy()
-- 
2.43.0


From 1055c9545228a07da516ed0ba777ae482980eb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:03 +0000
Subject: [PATCH 33/66] fix: synthesizeNTF: avoid the cancellation making
 conjugate poles impossible to pair

---
 src/pydsm/delsig/_synthesizeNTF0.py | 16 ++++++++++------
 src/pydsm/delsig/_synthesizeNTF1.py | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/pydsm/delsig/_synthesizeNTF0.py b/src/pydsm/delsig/_synthesizeNTF0.py
index 1ca0538..545265c 100644
--- a/src/pydsm/delsig/_synthesizeNTF0.py
+++ b/src/pydsm/delsig/_synthesizeNTF0.py
@@ -109,10 +109,12 @@ def synthesizeNTF0(order, osr, opt, H_inf, f0):
                 me2 = -0.5*(x**(2./order))
                 w = (2*np.arange(1, order+1)+1)*np.pi/order
                 mb2 = 1+me2*np.exp(1j*w)
+                # The candidate poles come in couples (p, 1/p). Get the one
+                # outside the unit circle, where there is no cancellation,
+                # and reflect it inside
                 p = mb2 - np.sqrt(mb2**2-1)
-                # Reflect poles to be inside the unit circle
-                out = abs(p) > 1
-                p[out] = 1/p[out]
+                out = mb2 + np.sqrt(mb2**2-1)
+                p = 1/np.where(abs(p) > abs(out), p, out)
                 # The following is not exactly what delsig does.
                 # We do not have an identical cplxpair
                 p = cplxpair(p)
@@ -150,10 +152,12 @@ def synthesizeNTF0(order, osr, opt, H_inf, f0):
             e2 = 0.5*x**(2./order)
             w = (2*np.arange(order)+1)*np.pi/order
             mb2 = c2pif0 + e2*np.exp(1j*w)
+            # The candidate poles come in couples (p, 1/p). Get the one
+            # outside the unit circle, where there is no cancellation,
+            # and reflect it inside
             p = mb2 - np.sqrt(mb2**2-1)
-            # Reflect poles to be inside the unit circle
-            out = abs(p) > 1
-            p[out] = 1/p[out]
+            out = mb2 + np.sqrt(mb2**2-1)
+            p = 1/np.where(abs(p) > abs(out), p, out)
             # The following is not exactly what delsig does.
             p = cplxpair(p)
             f = np.real(evalTF((z, p, k), z_inf))-H_inf
diff --git a/src/pydsm/delsig/_synthesizeNTF1.py b/src/pydsm/delsig/_synthesizeNTF1.py
index 0335dcd..afbe118 100644
--- a/src/pydsm/delsig/_synthesizeNTF1.py
+++ b/src/pydsm/delsig/_synthesizeNTF1.py
@@ -127,10 +127,12 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
                     me2 = -0.5*(x**(2./order))
                     w = (2*np.arange(1, order+1)+1)*np.pi/order
                     mb2 = 1+me2*np.exp(1j*w)
+                    # The candidate poles come in couples (p, 1/p). Get the one
+                    # outside the unit circle, where there is no cancellation,
+                    # and reflect it inside
                     p = mb2 - np.sqrt(mb2**2-1)
-                    # Reflect poles to be inside the unit circle
-                    out = abs(p) > 1
-                    p[out] = 1/p[out]
+                    out = mb2 + np.sqrt(mb2**2-1)
+                    p = 1/np.where(abs(p) > abs(out), p, out)
                     # The following is not exactly what delsig does.
                     # We do not have an identical cplxpair
                     p = cplxpair(p)
@@ -169,10 +171,12 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
                 e2 = 0.5*x**(2./order)
                 w = (2*np.arange(order)+1)*np.pi/order
                 mb2 = c2pif0 + e2*np.exp(1j*w)
+                # The candidate poles come in couples (p, 1/p). Get the one
+                # outside the unit circle, where there is no cancellation,
+                # and reflect it inside
                 p = mb2 - np.sqrt(mb2**2-1)
-                # Reflect poles to be inside the unit circle
-                out = abs(p) > 1
-                p[out] = 1/p[out]
+                out = mb2 + np.sqrt(mb2**2-1)
+                p = 1/np.where(abs(p) > abs(out), p, out)
                 # The following is not exactly what delsig does.
                 p = cplxpair(p)
                 f = np.real(evalTF((z, p, k), z_inf))-H_inf
-- 
2.43.0


From 9eca2f6428abeb2ead35709988d2aef97fc1606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 34/66] fix: clans: avoid a null damping factor becoming NaN
 because of rounding errors

---
 src/pydsm/delsig/_clans.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/delsig/_clans.py b/src/pydsm/delsig/_clans.py
index 8a86af3..a4bba5c 100644
--- a/src/pydsm/delsig/_clans.py
+++ b/src/pydsm/delsig/_clans.py
@@ -194,7 +194,8 @@ def clans(order=4, osr=64, nq=5, rmax=0.95, opt=0, **options):
         s = (z-1)/(z+1)
         coeffs = np.poly(s).real
         wn = np.sqrt(coeffs[2])
-        zeta = coeffs[1]/(2*wn)
+        # Rounding errors can make the coefficient negative when it is null
+        zeta = max(coeffs[1], 0)/(2*wn)
         x[i] = np.sqrt(zeta)
         x[i+1] = np.sqrt(wn)
 
-- 
2.43.0


From 54d67f46081c0d981643291d7d2efd57ae80d400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 35/66] fix: clans: do not return diverged designs when the
 optimizer gives up

---
 src/pydsm/delsig/_clans.py | 40 +++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/pydsm/delsig/_clans.py b/src/pydsm/delsig/_clans.py
index a4bba5c..ae9aa86 100644
--- a/src/pydsm/delsig/_clans.py
+++ b/src/pydsm/delsig/_clans.py
@@ -59,6 +59,8 @@ Analog Integrated Circuits and Signal Processing Vol. 3 pp 259-272 (1993)
 
 import numpy as np
 from scipy.optimize import minimize
+from warnings import warn
+from ..exceptions import PyDsmApproximationWarning
 from ._synthesizeNTF import synthesizeNTF
 from ..relab import cplxpair
 from ._tf import evalTF
@@ -131,6 +133,15 @@ def clans(order=4, osr=64, nq=5, rmax=0.95, opt=0, **options):
         'The opt vector must be of length xxx' if opt is used to explicitly
         pass the NTF zeros and these are in the wrong number.
 
+    Warns
+    -----
+    PyDsmApproximationWarning
+        'CLANS optimization not converged: ...' if the optimizer gives up. In
+        this case the best NTF respecting the constraints that was met by
+        the optimizer is returned, if there is one.
+
+        Those of ``synthesizeNTF`` are possible, too.
+
     Notes
     -----
     This is actually an adaptation of the CLANS method. In the
@@ -199,13 +210,28 @@ def clans(order=4, osr=64, nq=5, rmax=0.95, opt=0, **options):
         x[i] = np.sqrt(zeta)
         x[i+1] = np.sqrt(wn)
 
-    # Run the optimizer
-    x = minimize(_dsclansObj6a, x, args=(order, osr, nq, rmax, Hz),
-                 method='SLSQP',
-                 constraints={'type': 'ineq',
-                              'fun': _dsclansObj6b,
-                              'args': (order, osr, nq, rmax, Hz)},
-                 options=slsqp_opts)['x']
+    # Run the optimizer, recording the best feasible point it goes through
+    args = (order, osr, nq, rmax, Hz)
+    best = {'f': np.inf, 'x': None}
+
+    def record(x):
+        f = _dsclansObj6a(x, *args)
+        if f < best['f'] and _dsclansObj6b(x, *args) >= -slsqp_opts['ftol']:
+            best.update(f=f, x=x.copy())
+
+    res = minimize(_dsclansObj6a, x, args=args, method='SLSQP',
+                   constraints={'type': 'ineq',
+                                'fun': _dsclansObj6b,
+                                'args': args},
+                   callback=record, options=slsqp_opts)
+    x = res['x']
+    if not res['success']:
+        # When the optimizer gives up, its last point can be anywhere
+        record(x)
+        warn('CLANS optimization not converged: ' + res['message'],
+             PyDsmApproximationWarning)
+        if best['x'] is not None:
+            x = best['x']
     return dsclansNTF(x, order, rmax, Hz)
 
 clans.default_options = {'show_progress': False,
-- 
2.43.0


From 8f48ce46905b6cbdce070ec14bc84d0ec921403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 36/66] fix: synthesizeNTF: warn rather than dividing by zero
 when H_inf is too low

---
 src/pydsm/delsig/_synthesizeNTF0.py | 14 ++++++++++++++
 src/pydsm/delsig/_synthesizeNTF1.py | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/pydsm/delsig/_synthesizeNTF0.py b/src/pydsm/delsig/_synthesizeNTF0.py
index 545265c..a098885 100644
--- a/src/pydsm/delsig/_synthesizeNTF0.py
+++ b/src/pydsm/delsig/_synthesizeNTF0.py
@@ -121,6 +121,13 @@ def synthesizeNTF0(order, osr, opt, H_inf, f0):
                 f = np.real(evalTF((z, p, k), -1))-H_inf
                 if itn == 1:
                     delta_x = -f/100
+                elif f == fprev:
+                    # The gain does not get any lower
+                    warn('Unable to achieve specified Hinf, '
+                         'setting all NTF poles to zero',
+                         PyDsmApproximationWarning)
+                    p = np.zeros(order)
+                    break
                 else:
                     delta_x = -f*delta_x/(f-fprev)
                 xplus = x+delta_x
@@ -163,6 +170,13 @@ def synthesizeNTF0(order, osr, opt, H_inf, f0):
             f = np.real(evalTF((z, p, k), z_inf))-H_inf
             if itn == 1:
                 delta_x = -f/100
+            elif f == fprev:
+                # The gain does not get any lower
+                warn('Unable to achieve specified Hinf, '
+                     'Setting all NTF poles to zero',
+                     PyDsmApproximationWarning)
+                p = np.zeros(order)
+                break
             else:
                 delta_x = -f*delta_x/(f-fprev)
             xplus = x+delta_x
diff --git a/src/pydsm/delsig/_synthesizeNTF1.py b/src/pydsm/delsig/_synthesizeNTF1.py
index afbe118..a6f1779 100644
--- a/src/pydsm/delsig/_synthesizeNTF1.py
+++ b/src/pydsm/delsig/_synthesizeNTF1.py
@@ -139,6 +139,13 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
                     f = np.real(evalTF((z, p, k), z_inf))-H_inf
                     if itn == 1:
                         delta_x = -f/100
+                    elif f == fprev:
+                        # The gain does not get any lower
+                        warn('Unable to achieve specified Hinf, '
+                             'setting all NTF poles to zero.',
+                             PyDsmApproximationWarning)
+                        p = np.zeros(order)
+                        break
                     else:
                         delta_x = -f*delta_x/(f-fprev)
 
@@ -182,6 +189,13 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
                 f = np.real(evalTF((z, p, k), z_inf))-H_inf
                 if itn == 1:
                     delta_x = -f/100
+                elif f == fprev:
+                    # The gain does not get any lower
+                    warn('Unable to achieve specified Hinf, '
+                         'setting all NTF poles to zero.',
+                         PyDsmApproximationWarning)
+                    p = np.zeros(order)
+                    break
                 else:
                     delta_x = -f*delta_x/(f-fprev)
                 xplus = x+delta_x
-- 
2.43.0


From e66725954acfaec4cbc66f4be5f55304b7c81b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 37/66] fix: synthesizeNTF: make the convergence test
 independent of the scale of the unknown

---
 src/pydsm/delsig/_synthesizeNTF0.py | 4 ++--
 src/pydsm/delsig/_synthesizeNTF1.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/delsig/_synthesizeNTF0.py b/src/pydsm/delsig/_synthesizeNTF0.py
index a098885..e3f771a 100644
--- a/src/pydsm/delsig/_synthesizeNTF0.py
+++ b/src/pydsm/delsig/_synthesizeNTF0.py
@@ -136,7 +136,7 @@ def synthesizeNTF0(order, osr, opt, H_inf, f0):
                 else:
                     x = x*0.1
                 fprev = f
-                if abs(f) < 1e-10 or abs(delta_x) < 1e-10:
+                if abs(f) < 1e-10 or abs(delta_x) < 1e-10*min(1, x):
                     break
                 if x > 1e6:
                     warn('Unable to achieve specified Hinf, '
@@ -185,7 +185,7 @@ def synthesizeNTF0(order, osr, opt, H_inf, f0):
             else:
                 x = x*0.1
             fprev = f
-            if abs(f) < 1e-10 or abs(delta_x) < 1e-10:
+            if abs(f) < 1e-10 or abs(delta_x) < 1e-10*min(1, x):
                 break
             if x > 1e6:
                 warn('Unable to achieve specified Hinf, '
diff --git a/src/pydsm/delsig/_synthesizeNTF1.py b/src/pydsm/delsig/_synthesizeNTF1.py
index a6f1779..af8ad19 100644
--- a/src/pydsm/delsig/_synthesizeNTF1.py
+++ b/src/pydsm/delsig/_synthesizeNTF1.py
@@ -155,7 +155,7 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
                     else:
                         x = x*0.1
                     fprev = f
-                    if abs(f) < 1e-10 or abs(delta_x) < 1e-10:
+                    if abs(f) < 1e-10 or abs(delta_x) < 1e-10*min(1, x):
                         break
                     if x > 1e6:
                         warn('Unable to achieve specified Hinf, '
@@ -204,7 +204,7 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
                 else:
                     x = x*0.1
                 fprev = f
-                if abs(f) < 1e-10 or abs(delta_x) < 1e-10:
+                if abs(f) < 1e-10 or abs(delta_x) < 1e-10*min(1, x):
                     break
                 if x > 1e6:
                     warn('Unable to achieve specified Hinf, '
-- 
2.43.0


From 0fe51cd01491cb0373deb755dee5e29c58650ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:29 +0000
Subject: [PATCH 38/66] fix: FIR and hybrid NTF design: support order 1 with
 all the modelers

---
 src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py       | 8 ++++----
 src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py           | 2 +-
 src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py | 4 ++--
 src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py     | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
index 01ab756..5266f5c 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
@@ -70,7 +70,7 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
 
     # Set up the problem
     bands = len(f0s)
-    c = cvxpy_tdr.variable(1, order)
+    c = cvxpy_tdr.arrays.cvxpy_var(1, order)
     F = []
     gg = cvxpy_tdr.arrays.cvxpy_var(bands, 1)
 
@@ -79,8 +79,8 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
         osr = osrs[idx]
         omega0 = 2*f0*np.pi
         Omega = 1./osr*np.pi
-        P = cvxpy_tdr.variable(order, order, 'symmetric')
-        Q = cvxpy_tdr.variable(order, order, 'symmetric')
+        P = cvxpy_tdr.arrays.cvxpy_var(order, order, 'symmetric')
+        Q = cvxpy_tdr.arrays.cvxpy_var(order, order, 'symmetric')
         if f0 == 0:
             # Lowpass modulator
             M1 = A.T*P*A+Q*A+A.T*Q-P-2*Q*np.cos(Omega)
@@ -133,7 +133,7 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
                         c*cvxpy_tdr.hstack((vr, vi)), vn)]
     if H_inf < np.inf:
         # Enforce the Lee constraint
-        R = cvxpy_tdr.variable(order, order, 'symmetric')
+        R = cvxpy_tdr.arrays.cvxpy_var(order, order, 'symmetric')
         F += [cvxpy_tdr.belongs(R, cvxpy_tdr.semidefinite_cone)]
         MM = cvxpy_tdr.vstack(
             (cvxpy_tdr.hstack((A.T*R*A-R, A.T*R*B, c.T)),
diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
index 8063995..c463777 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
@@ -143,4 +143,4 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
     p.add_constraint(picos.sum_k_largest(gg, 1) <= mx)
     p.set_objective('min', mx)
     p.solve(verbosity=verbose, **opts['picos_opts'])
-    return np.hstack((1, np.asarray(c.value)[0, ::-1]))
+    return np.hstack((1, np.ravel(c.value)[::-1]))
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py b/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py
index 58f165e..5fb292e 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py
@@ -30,9 +30,9 @@ def ntf_fir_from_digested(Qs, A, C, H_inf, **opts):
     """
     quiet = not opts['show_progress']
     order = np.size(Qs, 0)-1
-    br = cvxpy_tdr.variable(order, 1, name='br')
+    br = cvxpy_tdr.arrays.cvxpy_var(order, 1, name='br')
     b = cvxpy_tdr.vstack((1, br))
-    X = cvxpy_tdr.variable(order, order, structure='symmetric', name='X')
+    X = cvxpy_tdr.arrays.cvxpy_var(order, order, structure='symmetric', name='X')
     Qs = cvxpy_tdr.matrix(Qs)
     target = cvxpy_tdr.norm2(Qs*b)
     A = cvxpy_tdr.matrix(A)
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py b/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
index 229ad75..da0625d 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
@@ -62,4 +62,4 @@ def ntf_fir_from_digested(Qs, A, C, H_inf, **opts):
     p.add_constraint(constraint1)
     p.add_constraint(constraint2)
     p.solve(verbosity=verbose, **opts['picos_opts'])
-    return np.hstack((1, np.asarray(br.value.T)[0]))
+    return np.hstack((1, np.ravel(br.value)))
-- 
2.43.0


From 1f5f62d49cfb34be8ea87b604937d95fd9cdb757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:29 +0000
Subject: [PATCH 39/66] fix: ntf_fir_minmax: do not add a void constraint to
 picos when zf is set for f0=0.5

---
 src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
index c463777..4bf0e50 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
@@ -130,7 +130,12 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
                 vi = np.sin(omega0*nn)
                 vn = cvxopt.matrix(
                     [-np.cos(omega0*order), -np.sin(omega0*order)], (1, 2))
-                p.add_constraint(c*cvxopt.matrix(np.hstack((vr, vi))) == vn)
+                if f0 == 0.5:
+                    # The zero is real, the imaginary part is null anyway
+                    p.add_constraint(c*cvxopt.matrix(vr) == vn[0])
+                else:
+                    p.add_constraint(
+                        c*cvxopt.matrix(np.hstack((vr, vi))) == vn)
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = picos.SymmetricVariable('R', order)
-- 
2.43.0


From 21f7fbbaa3a17bb70b9e4947d37bb90cc9f98ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:05 +0000
Subject: [PATCH 40/66] fix: cvxpy_tdr: do not alter or depend on the global
 options of cvxopt

---
 src/pydsm/cvxpy_tdr/procedures/call_solver.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/procedures/call_solver.py b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
index 308e66c..3f31120 100644
--- a/src/pydsm/cvxpy_tdr/procedures/call_solver.py
+++ b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
@@ -68,16 +68,18 @@ def call_solver(p,quiet):
     F = construct_F(constr_list._get_ineq_in(),var_to_index,n)
 
     # Call cvxopt
-    solvers.options['maxiters'] = p.options['maxiters']
-    solvers.options['abstol'] = p.options['abstol']
-    solvers.options['reltol'] = p.options['reltol']
-    solvers.options['feastol'] = p.options['feastol']
-    solvers.options['show_progress'] = not quiet
+    # The options are passed explicitly, neither altering nor relying on the
+    # global options of cvxopt (that may have been changed by others)
+    options = {'maxiters': p.options['maxiters'],
+               'abstol': p.options['abstol'],
+               'reltol': p.options['reltol'],
+               'feastol': p.options['feastol'],
+               'show_progress': not quiet}
     dims = {'l':dim_l, 'q':dim_q, 's':dim_s}
     if F is None:
-        r =  solvers.conelp(c,G,h,dims,A,b)
+        r =  solvers.conelp(c,G,h,dims,A,b,options=options)
     else:
-        r =  solvers.cpl(c,F,G,h,dims,A,b)
+        r =  solvers.cpl(c,F,G,h,dims,A,b,options=options)
 
     # Store numerical values
     if r['status'] != PRIMAL_INFEASIBLE:
-- 
2.43.0


From 49a6259b814b50b4a1781f7fdaf565f78fd5e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:54 +0000
Subject: [PATCH 41/66] fix: ft: honour the imaginary parts in dtft_hermitian
 and idtft_hermitian

---
 src/pydsm/ft.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index 53481b5..b9bf9c0 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -138,9 +138,12 @@ def dtft_hermitian(x, fs=1):
     fs : real, optional
         sample frequency for the input vector (defaults to 1)
     """
-    x = np.asarray(x).real
-    return lambda f: \
-        x[0]+np.sum(x[1:]*2*np.cos(2*np.pi*f/fs*np.arange(1, len(x))))
+    x = np.asarray(x)
+    if not np.iscomplexobj(x):
+        return lambda f: \
+            x[0]+np.sum(x[1:]*2*np.cos(2*np.pi*f/fs*np.arange(1, len(x))))
+    return lambda f: x[0].real+2*np.sum(
+        (x[1:]*np.exp(-2j*np.pi*f/fs*np.arange(1, len(x)))).real)
 
 
 def _idtft(Ff, t, fs=1, **quad_opts):
@@ -197,7 +200,7 @@ idtft.default_options = {"quad_opts": {"epsabs": 1E-12,
 
 
 def _idtft_hermitian(Ff, t, fs=1, **quad_opts):
-    return 2*sp.integrate.quad(lambda f: np.real(Ff(f*fs))*np.cos(2*np.pi*f*t),
+    return 2*sp.integrate.quad(lambda f: np.real(Ff(f*fs)*np.exp(2j*np.pi*f*t)),
                                0, 0.5, **quad_opts)[0]
 
 
-- 
2.43.0


From 4f96b989b388857bc713c2a7a26a81749deb7930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:15 +0000
Subject: [PATCH 42/66] fix: relab.eps: do not truncate the spacing to 0 for
 arrays of integers

---
 src/pydsm/relab.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index dbf6f7d..7c87bbf 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -82,10 +82,7 @@ def eps(x=1.):
         return np.finfo(x).eps
     elif np.isscalar(x):
         return _eps(x)
-    x = np.asarray(x)
-    d = np.empty_like(x)
-    d.flat = [_eps(xi) for xi in x.flat]
-    return d
+    return _eps(np.asarray(x))
 
 
 def db(x, signal_type='voltage', R=1):
-- 
2.43.0


From 29040baea3e82251460e965e5be2257c1996b7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:15 +0000
Subject: [PATCH 43/66] fix: relab.shiftdim: do not take axes with no entries
 as unitary

---
 src/pydsm/relab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index 7c87bbf..b100694 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -170,7 +170,7 @@ def shiftdim(x, n=None, nargout=2):
     outsel = slice(nargout) if nargout > 1 else 0
     x = np.asarray(x)
     s = x.shape
-    m = next((i for i, v in enumerate(s) if v > 1), 0)
+    m = next((i for i, v in enumerate(s) if v != 1), 0)
     if n is None:
         n = m
     if n > 0:
-- 
2.43.0


From 2f18822343d7c528fb431327e77243f615782b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:15 +0000
Subject: [PATCH 44/66] fix: iso226: return copies of the tables so that the
 callers cannot alter them

---
 src/pydsm/iso226.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/iso226.py b/src/pydsm/iso226.py
index 30ab051..7833d18 100644
--- a/src/pydsm/iso226.py
+++ b/src/pydsm/iso226.py
@@ -129,7 +129,7 @@ def tabled_f(hfe=False):
     f : array of floats
         the frequency table.
     """
-    return np.append(tbl_f, 20E3) if hfe else tbl_f
+    return np.append(tbl_f, 20E3) if hfe else tbl_f.copy()
 
 
 def tabled_alpha_f(hfe=False):
@@ -146,7 +146,7 @@ def tabled_alpha_f(hfe=False):
     alpha_f : array of floats
         the exponents table.
     """
-    return np.append(tbl_alpha_f, tbl_alpha_f[0]) if hfe else tbl_alpha_f
+    return np.append(tbl_alpha_f, tbl_alpha_f[0]) if hfe else tbl_alpha_f.copy()
 
 
 def tabled_L_U(hfe=False):
@@ -168,7 +168,7 @@ def tabled_L_U(hfe=False):
     The returned values are the magnitude of the linear transfer function
     normalized at 1 kHz.
     """
-    return np.append(tbl_L_U, tbl_L_U[0]) if hfe else tbl_L_U
+    return np.append(tbl_L_U, tbl_L_U[0]) if hfe else tbl_L_U.copy()
 
 
 def tabled_T_f(hfe=False):
@@ -185,7 +185,7 @@ def tabled_T_f(hfe=False):
     T_f : array of floats
         the thresholds table.
     """
-    return np.append(tbl_T_f, tbl_T_f[0]) if hfe else tbl_T_f
+    return np.append(tbl_T_f, tbl_T_f[0]) if hfe else tbl_T_f.copy()
 
 
 # Check that it works fine when L_N is array
-- 
2.43.0


From eaeb4cac722c157b038dd288b1c1350cc56b57df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:15 +0000
Subject: [PATCH 45/66] fix: dbv, dbp, dbm: avoid overflows and loss of
 accuracy with integer arguments

---
 src/pydsm/delsig/_decibel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/delsig/_decibel.py b/src/pydsm/delsig/_decibel.py
index 1c98563..b8686b5 100644
--- a/src/pydsm/delsig/_decibel.py
+++ b/src/pydsm/delsig/_decibel.py
@@ -73,7 +73,7 @@ def dbv(x):
     y : real or array_like of reals
         20*log10(x)
     """
-    x = np.asarray(np.abs(x))
+    x = np.asarray(np.abs(np.asarray(x)*1.))
     y = np.asarray(-np.inf*np.ones_like(x))
     nonzero = np.asarray(x != 0)
     y[nonzero] = 20*np.log10(x[nonzero])
@@ -94,7 +94,7 @@ def dbp(x):
     y : real or array_like of reals
         10*log10(x)
     """
-    x = np.asarray(np.abs(x))
+    x = np.asarray(np.abs(np.asarray(x)*1.))
     y = np.asarray(-np.inf*np.ones_like(x))
     nonzero = np.asarray(x != 0)
     y[nonzero] = 10*np.log10(x[nonzero])
@@ -118,7 +118,7 @@ def dbm(v, R=50.):
         dBm value corresponding to the power provided by the rms voltag v
         on the test resistor R, normalized over the reference value of 1mW
     """
-    v = np.asarray(np.abs(v))
+    v = np.asarray(np.abs(np.asarray(v)*1.))
     y = np.asarray(-np.inf*np.ones_like(v))
     nonzero = np.asarray(v != 0)
     y[nonzero] = 10*np.log10(v[nonzero]**2/R)+30
-- 
2.43.0


From 2e221f8cc54e7839cf66b8e4d920b73a538844df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:43 +0000
Subject: [PATCH 46/66] fix: synthesize_ntf_from_filter: merge partial
 quad_opts with its own default_options

---
 src/pydsm/NTFdesign/filter_based.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/NTFdesign/filter_based.py b/src/pydsm/NTFdesign/filter_based.py
index 11a969c..625f95b 100644
--- a/src/pydsm/NTFdesign/filter_based.py
+++ b/src/pydsm/NTFdesign/filter_based.py
@@ -292,7 +292,7 @@ def synthesize_ntf_from_filter(order, H, H_type='zpk', H_inf=1.5,
     # Manage optional parameters
     opts1 = digested_options(options,
                              synthesize_ntf_from_filter.default_options,
-                             ['quad_opts'], [], False)
+                             [], ['quad_opts'], False)
     opts2 = digested_options(options,
                              synthesize_ntf_from_filter.default_options,
                              ['show_progress'], ['cvxopt_opts'])
-- 
2.43.0


From 293f462916a89e93d481b4bd0a1a1c39d1360dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:30 +0000
Subject: [PATCH 47/66] fix: ntf_dunn: do not issue a deprecation warning

---
 src/pydsm/NTFdesign/psychoacoustic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index 9d3c654..f1721f8 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -53,7 +53,7 @@ Deprecated functions
 from __future__ import division, print_function
 
 import numpy as np
-from .delsig import synthesizeNTF
+from ..delsig import synthesizeNTF
 from ..delsig import undbp as undbp
 from .. import audio_weightings
 from .weighting import ntf_fir_weighting
-- 
2.43.0


From 0d01fc3bdd893b83d5e2af096e9df2ee9baa15de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:14 +0000
Subject: [PATCH 48/66] fix: simulateDSM: report ABCD matrices with less rows
 than quantizers as incorrect

---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 2 ++
 src/pydsm/delsig/_simulateDSM_scipy.py       | 3 +++
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index c779ac0..4337b03 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -97,6 +97,8 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
                 raise TypeError()
             form = 1
             order = ABCD.shape[0]-nq
+            if order < 0:
+                raise TypeError()
     except (ValueError, TypeError):
         raise ValueError('Incorrect modulator specification')
 
diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index 3053839..9a450c3 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -101,6 +101,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
             # Assume ntf in zpk form
             ntf_z = np.asarray(arg2[0], dtype=complex)
             ntf_p = np.asarray(arg2[1], dtype=complex)
+            float(arg2[2])
             if ntf_z.ndim != 1 or ntf_z.shape != ntf_p.shape:
                 raise TypeError()
             # An NTF describes a single input, single quantizer modulator
@@ -117,6 +118,8 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
                 raise TypeError()
             form = 1
             order = ABCD.shape[0]-nq
+            if order < 0:
+                raise TypeError()
     except (ValueError, TypeError):
         raise ValueError('Incorrect modulator specification')
 
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 67ea5e8..135d910 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -104,6 +104,8 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
                 raise TypeError()
             form = 1
             order = ABCD.shape[0]-nq
+            if order < 0:
+                raise TypeError()
     except (ValueError, TypeError):
         raise ValueError('Incorrect modulator specification')
 
-- 
2.43.0


From 9787736ba3d74a34304d21875541d240dc3617ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:14 +0000
Subject: [PATCH 49/66] fix: dunn_optzeros: do not return unrelated zeros for
 n<1

---
 src/pydsm/NTFdesign/psychoacoustic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index f1721f8..b44beac 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -111,8 +111,8 @@ def dunn_optzeros(n):
                           -13.842],
                          [2.933, -2.933, 5.167, -5.167, 12.012, -12.012,
                           14.381, -14.381]]
-    if n > 8:
-        raise ValueError('Optimized zeros for n>14 are not available.')
+    if n < 1 or n > 8:
+        raise ValueError('Optimized zeros for n<1 or n>8 are not available.')
     return np.asarray(zero_freqs_unnorm[n-1])/22.05
 
 
-- 
2.43.0


From 6b06028df52799472e76db86baa33e82bb9f6295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:24 +0000
Subject: [PATCH 50/66] fix: chop: keep complex entries with an infinite
 imaginary part

---
 src/pydsm/utilities.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/utilities.py b/src/pydsm/utilities.py
index ac58304..8a04a40 100644
--- a/src/pydsm/utilities.py
+++ b/src/pydsm/utilities.py
@@ -117,10 +117,12 @@ def chop(x, tol=100*EPS):
     If the input is an array, it is always copied.
     See also `is_negligible`.
     """
-    x = np.asarray(x)
-    if np.iscomplexobj(x):
-        return chop(x.real, tol) + 1j*chop(x.imag, tol)
     y = np.copy(x)
+    if np.iscomplexobj(y):
+        # Work on the parts, since infinities do not survive a product by 1j
+        y.real = chop(y.real, tol)
+        y.imag = chop(y.imag, tol)
+        return y
     y[is_negligible(y, tol)] = 0.
     return y
 
-- 
2.43.0


From e1a7cad7a623ea8e591c122c5e13c50c7be3b366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 51/66] fix: cplxpair: pair couples whose real parts are alike
 even if their moduli differ

---
 src/pydsm/relab.py | 41 +++++++++++++++--------------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index b100694..6d9288c 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -257,36 +257,25 @@ def cplxpair(x, tol=None, dim=None):
     def cplxpair_vec(x, tol):
         real_mask = np.abs(x.imag) <= tol*np.abs(x)
         x_real = np.sort(np.real(x[real_mask]))
-        x_cplx = np.sort(x[np.logical_not(real_mask)])
+        x_cplx = x[np.logical_not(real_mask)]
         if x_cplx.size == 0:
             return x_real
-        if (x_cplx.size % 2) != 0:
+        pos = x_cplx[x_cplx.imag > 0]
+        neg = x_cplx[x_cplx.imag < 0].conj()
+        if 2*pos.size != x_cplx.size or pos.size != neg.size:
             raise ValueError('Complex numbers cannot be paired')
-        if np.any(np.real(x_cplx[1::2])-np.real(x_cplx[0::2]) >
-                  tol*np.abs(x_cplx[0::2])):
-            raise ValueError('Complex numbers cannot be paired')
-        start = 0
-        while start < x_cplx.size:
-            sim_len = next((i for i, v in enumerate(x_cplx[start+1:]) if
-                           (np.abs(np.real(v)-np.real(x_cplx[start])) >
-                            tol*np.abs(v))), x_cplx.size-start-1)+1
-            if (sim_len % 2) != 0:
-                sim_len -= 1
-            if sim_len == 0:
-                raise ValueError('Complex numbers cannot be paired')
-            # At this point, sim_len elements with identical real part
-            # have been identified.
-            sub_x = x_cplx[start:start+sim_len]
-            srt = np.argsort(np.imag(sub_x))
-            sub_x = sub_x[srt]
-            if np.any(np.abs(np.imag(sub_x)+np.imag(sub_x[::-1])) >
-                      tol*np.abs(sub_x)):
+        pos = pos[np.lexsort((-pos.imag, pos.real))]
+        for v in pos:
+            # Look for the best match among the entries still unpaired
+            best = np.argmin(np.abs(neg-v))
+            diff = neg[best]-v
+            if max(abs(diff.real), abs(diff.imag)) > tol*np.abs(v):
                 raise ValueError('Complex numbers cannot be paired')
-            # Output should contain "perfect" pairs. Hence, keep entries
-            # with positive imaginary parts amd use conjugate for pair
-            x_cplx[start:start+sim_len:2] = np.conj(sub_x[:sim_len//2-1:-1])
-            x_cplx[start+1:start+sim_len:2] = sub_x[:sim_len//2-1:-1]
-            start += sim_len
+            neg = np.delete(neg, best)
+        # Output should contain "perfect" pairs. Hence, keep entries
+        # with positive imaginary parts amd use conjugate for pair
+        x_cplx[0::2] = pos.conj()
+        x_cplx[1::2] = pos
         return np.concatenate((x_cplx, x_real))
 
     x = np.atleast_1d(x)
-- 
2.43.0


From 685137c00c061d963212a910ee1ac7903db5db20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:28 +0000
Subject: [PATCH 52/66] fix: spread_fir_uc_zeros: support order 1

---
 src/pydsm/NTFdesign/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pydsm/NTFdesign/helpers.py b/src/pydsm/NTFdesign/helpers.py
index 332cdff..27361c0 100644
--- a/src/pydsm/NTFdesign/helpers.py
+++ b/src/pydsm/NTFdesign/helpers.py
@@ -162,6 +162,9 @@ def spread_fir_uc_zeros(order, OSR, cf, cf_args=[], cf_kwargs={}, **options):
                             [], ['L_BFGS_B_opts'])
     xl = order // 2
     zeros = np.zeros(order, dtype=complex)
+    if xl == 0:
+        # Nothing to optimize
+        return dof2zeros(np.zeros(0))
     xx = minimize(mf, np.linspace(np.pi/OSR/order, np.pi/OSR, xl),
                   method='l-bfgs-b', options=opts["L_BFGS_B_opts"],
                   bounds=[(0, np.pi/OSR)] * xl).x
-- 
2.43.0


From 46d685b7a19c47fbee81c094123a687debac01bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 53/66] fix: cvxpy_tdr: accumulate the derivatives of a
 variable that occurs more than once in a set

exp_cone, kl_div_epi, log_norm_cdf_hypo and power_pos_epi assigned the
entries of the gradient and of the Hessian for each of their arguments, so
that whenever the same variable was used for two arguments the derivative
relative to one of them got lost, and the solver converged to wrong values.
---
 src/pydsm/cvxpy_tdr/sets/exp_cone.py          | 14 +++++++-------
 src/pydsm/cvxpy_tdr/sets/kl_div_epi.py        | 14 +++++++-------
 src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py |  6 +++---
 src/pydsm/cvxpy_tdr/sets/power_pos_epi.py     |  6 +++---
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/sets/exp_cone.py b/src/pydsm/cvxpy_tdr/sets/exp_cone.py
index bad3764..c082fbe 100644
--- a/src/pydsm/cvxpy_tdr/sets/exp_cone.py
+++ b/src/pydsm/cvxpy_tdr/sets/exp_cone.py
@@ -101,12 +101,12 @@ class cvxpy_exp_cone(object):
             if y is None:
                 y = x[mp[el[1,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                g[mp[el[0,0]]] = np.exp((v*1.)/(y*1.))
+                g[mp[el[0,0]]] += np.exp((v*1.)/(y*1.))
             if type(el[1,0]) is cvxpy_scalar_var:
                 t = (v*1.)/(y*1.)
-                g[mp[el[1,0]]] = np.exp(t)*(1-t)
+                g[mp[el[1,0]]] += np.exp(t)*(1-t)
             if type(el[2,0]) is cvxpy_scalar_var:
-                g[mp[el[2,0]]] = -1.
+                g[mp[el[2,0]]] += -1.
             return g
 
         # hess f
@@ -119,16 +119,16 @@ class cvxpy_exp_cone(object):
             if y is None:
                 y = x[mp[el[1,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                h[mp[el[0,0]],mp[el[0,0]]] = np.exp((v*1.)/(y*1.))/(y*1.)
+                h[mp[el[0,0]],mp[el[0,0]]] += np.exp((v*1.)/(y*1.))/(y*1.)
             if (type(el[0,0]) is cvxpy_scalar_var and
                 type(el[1,0]) is cvxpy_scalar_var):
                 t = (v*1.)/(y*1.)
                 w = -np.exp(t)*t/(y*1.)
-                h[mp[el[0,0]],mp[el[1,0]]] = w
-                h[mp[el[1,0]],mp[el[0,0]]] = w
+                h[mp[el[0,0]],mp[el[1,0]]] += w
+                h[mp[el[1,0]],mp[el[0,0]]] += w
             if type(el[1,0]) is cvxpy_scalar_var:
                 t = (v*1.)/(y*1.)
-                h[mp[el[1,0]],mp[el[1,0]]] = np.exp(t)*(t**2.)/(y*1.)
+                h[mp[el[1,0]],mp[el[1,0]]] += np.exp(t)*(t**2.)/(y*1.)
             return h
 
         # ind f
diff --git a/src/pydsm/cvxpy_tdr/sets/kl_div_epi.py b/src/pydsm/cvxpy_tdr/sets/kl_div_epi.py
index 9b3ed3e..fe46190 100644
--- a/src/pydsm/cvxpy_tdr/sets/kl_div_epi.py
+++ b/src/pydsm/cvxpy_tdr/sets/kl_div_epi.py
@@ -102,11 +102,11 @@ class cvxpy_kl_div_epi(object):
                 else:
                     v_i = v[i,0]
                 if type(u[i,0]) is cvxpy_scalar_var:
-                    g[mp[u[i,0]]] = np.log(u_i*1./v_i)
+                    g[mp[u[i,0]]] += np.log(u_i*1./v_i)
                 if type(v[i,0]) is cvxpy_scalar_var:
-                    g[mp[v[i,0]]] = (-u_i*1./v_i)+1.
+                    g[mp[v[i,0]]] += (-u_i*1./v_i)+1.
             if type(t) is cvxpy_scalar_var:
-                g[mp[t]] = -1.
+                g[mp[t]] += -1.
             return g
 
         # hess f
@@ -122,14 +122,14 @@ class cvxpy_kl_div_epi(object):
                 else:
                     v_i = v[i,0]
                 if type(u[i,0]) is cvxpy_scalar_var:
-                    h[mp[u[i,0]],mp[u[i,0]]] = 1./u_i
+                    h[mp[u[i,0]],mp[u[i,0]]] += 1./u_i
                 if type(v[i,0]) is cvxpy_scalar_var:
-                    h[mp[v[i,0]],mp[v[i,0]]] = u_i*1./(v_i**2.)
+                    h[mp[v[i,0]],mp[v[i,0]]] += u_i*1./(v_i**2.)
                 if (type(u[i,0]) is cvxpy_scalar_var and
                     type(v[i,0]) is cvxpy_scalar_var):
                     w = -1./v_i
-                    h[mp[u[i,0]],mp[v[i,0]]] = w
-                    h[mp[v[i,0]],mp[u[i,0]]] = w
+                    h[mp[u[i,0]],mp[v[i,0]]] += w
+                    h[mp[v[i,0]],mp[u[i,0]]] += w
             return h
 
         # ind f
diff --git a/src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py b/src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py
index ee90b06..70f7180 100644
--- a/src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py
+++ b/src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py
@@ -88,9 +88,9 @@ class cvxpy_log_norm_cdf_hypo(object):
             if v is None:
                 v = x[mp[el[0,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                g[mp[el[0,0]]] = -norm.pdf(v)/norm.cdf(v)
+                g[mp[el[0,0]]] += -norm.pdf(v)/norm.cdf(v)
             if type(el[1,0]) is cvxpy_scalar_var:
-                g[mp[el[1,0]]] = 1.
+                g[mp[el[1,0]]] += 1.
             return g
 
         # hess f
@@ -103,7 +103,7 @@ class cvxpy_log_norm_cdf_hypo(object):
                 t = norm.pdf(v)
                 s = norm.cdf(v)
                 r = t/s
-                h[mp[el[0,0]],mp[el[0,0]]] = r **2.+v*r
+                h[mp[el[0,0]],mp[el[0,0]]] += r **2.+v*r
             return h
 
         # ind f
diff --git a/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py b/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py
index d5d2609..4e3cabc 100644
--- a/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py
+++ b/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py
@@ -89,9 +89,9 @@ class cvxpy_power_pos_epi(object):
             if z is None:
                 z = x[mp[el[0,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                g[mp[el[0,0]]] = p*(z**(p-1.))
+                g[mp[el[0,0]]] += p*(z**(p-1.))
             if type(el[1,0]) is cvxpy_scalar_var:
-                g[mp[el[1,0]]] = -1.
+                g[mp[el[1,0]]] += -1.
             return g
 
         # hess f
@@ -101,7 +101,7 @@ class cvxpy_power_pos_epi(object):
             if z is None:
                 z = x[mp[el[0,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                h[mp[el[0,0]],mp[el[0,0]]] = p*(p-1.)*(z**(p-2.))
+                h[mp[el[0,0]],mp[el[0,0]]] += p*(p-1.)*(z**(p-2.))
             return h
 
         # ind f
-- 
2.43.0


From 2f37112863fc109591d4ace2582772dfbbcce0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 54/66] fix: cvxpy_tdr: return the value of a constant
 objective

When the objective reduces to a constant, it does not enter the problem
passed to the solver and solve() (or a call with numeric arguments)
returned 0 in place of the constant.
---
 src/pydsm/cvxpy_tdr/procedures/solve_prog.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pydsm/cvxpy_tdr/procedures/solve_prog.py b/src/pydsm/cvxpy_tdr/procedures/solve_prog.py
index 9f2306d..b57a3eb 100644
--- a/src/pydsm/cvxpy_tdr/procedures/solve_prog.py
+++ b/src/pydsm/cvxpy_tdr/procedures/solve_prog.py
@@ -62,5 +62,10 @@ def solve_prog(p,quiet):
     else:
         obj =sol[PRIMAL_OBJECTIVE]*sign
 
+    # Constant objective (not seen by the solver)
+    if (p_expanded.objective.type == CONSTANT and
+        sol['status'] in (OPTIMAL,UNKNOWN)):
+        obj = p_expanded.objective.value*1.
+
     # Return optimal value
     return obj,valid
-- 
2.43.0


From 1df20d71826c68b1d43a9802f0b89f1ae89599ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 55/66] fix: cvxpy_tdr: drop the redundant equalities before
 calling the solver

Equalities that depend linearly on others made the solver fail. They
arise, for instance, from the symmetry constraint of lambda_max,
lambda_min and det_rootn, whenever the argument is a symmetric expression
different from a variable, as X-S or 2*X.
---
 src/pydsm/cvxpy_tdr/procedures/call_solver.py | 41 +++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/pydsm/cvxpy_tdr/procedures/call_solver.py b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
index 3f31120..bcd684e 100644
--- a/src/pydsm/cvxpy_tdr/procedures/call_solver.py
+++ b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
@@ -21,6 +21,7 @@ import numpy as np
 import cvxopt as opt
 from .expand import expand
 from ..defs import *
+import scipy.linalg as la
 import scipy.sparse as sp
 from cvxopt import solvers
 from ..scalars import cvxpy_obj
@@ -253,11 +254,51 @@ def construct_Ab(constr_list,mapping,n):
     if Ab is None:
         Ab = opt.spmatrix(0.0,[],[],(0,n+1))
     else:
+        Ab = Ab[independent_rows(Ab),:]
         nz = Ab.nonzero()
         Ab = opt.spmatrix(Ab.data.tolist(),nz[0].tolist(),
                           nz[1].tolist(),Ab.shape)
     return Ab[:,0:n],opt.matrix(Ab[:,n])
 
+# Function: independent_rows
+def independent_rows(M):
+    """
+    Selects a maximal set of linearly independent rows,
+    since redundant equalities are not managed by the solver.
+
+    :param M: Sparse matrix in csr format with no null row.
+    :return: Sorted list of row indices.
+    """
+
+    # A row with a nonzero where all the others have zeros
+    # cannot depend on them
+    columns = [set(M[i,:].nonzero()[1]) for i in range(M.shape[0])]
+    rows = {}
+    for i,cols in enumerate(columns):
+        for j in cols:
+            rows.setdefault(j,set()).add(i)
+    selected = set()
+    todo = [j for j in rows if len(rows[j]) == 1]
+    while todo:
+        j = todo.pop()
+        if len(rows[j]) == 1:
+            i = rows[j].pop()
+            selected.add(i)
+            for k in columns[i]:
+                rows[k].discard(i)
+                if len(rows[k]) == 1:
+                    todo.append(k)
+
+    # Numerical rank for the others
+    others = [i for i in range(M.shape[0]) if i not in selected]
+    if len(others) > 1:
+        D = M[others,:].toarray()
+        D /= np.sqrt(np.sum(D**2,axis=1))[:,np.newaxis]
+        r,piv = la.qr(D.T,mode='r',pivoting=True)
+        rank = np.sum(np.abs(np.diag(r)) > EPSILON)
+        others = [others[i] for i in piv[:rank]]
+    return sorted(selected.union(others))
+
 # Function: construct_Gh
 def construct_Gh(constr_list,mapping,n):
     """
-- 
2.43.0


From dd136a99a96cfbc5881fe6c2b3492b26b9ae900b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 56/66] fix: cvxpy_tdr: report contradictory equalities as an
 infeasible program

Programs with contradictory equalities used to end up in an obscure error
from the solver, in place of being reported as infeasible.
---
 src/pydsm/cvxpy_tdr/procedures/call_solver.py | 44 +++++++++++++------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/procedures/call_solver.py b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
index bcd684e..dd08c0a 100644
--- a/src/pydsm/cvxpy_tdr/procedures/call_solver.py
+++ b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
@@ -61,6 +61,10 @@ def call_solver(p,quiet):
     # Construct Ax == b
     A,b = construct_Ab(constr_list._get_eq(),var_to_index,n)
 
+    # Contradictory equalities (that are not managed by the solver)
+    if A is None:
+        return {'status': PRIMAL_INFEASIBLE}
+
     # Construct  Gx <= h
     G,h,dim_l,dim_q,dim_s = construct_Gh(constr_list._get_ineq_in(),
                                          var_to_index,n)
@@ -128,7 +132,8 @@ def construct_c(objective,mapping,n,action):
 def construct_Ab(constr_list,mapping,n):
     """
     Constructs matrix A and vector b from a list
-    of equality constraints.
+    of equality constraints. Returns None,None if the
+    constraints are contradictory.
 
     :param constr_list: List of equality constraints.
     :param mapping: Dictionary.
@@ -254,25 +259,30 @@ def construct_Ab(constr_list,mapping,n):
     if Ab is None:
         Ab = opt.spmatrix(0.0,[],[],(0,n+1))
     else:
-        Ab = Ab[independent_rows(Ab),:]
+        rows = independent_rows(Ab)
+        if rows is None:
+            return None,None
+        Ab = Ab[rows,:]
         nz = Ab.nonzero()
         Ab = opt.spmatrix(Ab.data.tolist(),nz[0].tolist(),
                           nz[1].tolist(),Ab.shape)
     return Ab[:,0:n],opt.matrix(Ab[:,n])
 
 # Function: independent_rows
-def independent_rows(M):
+def independent_rows(Ab):
     """
-    Selects a maximal set of linearly independent rows,
-    since redundant equalities are not managed by the solver.
+    Selects a maximal set of linearly independent equalities,
+    since redundant ones are not managed by the solver.
+    Returns None if the equalities are contradictory.
 
-    :param M: Sparse matrix in csr format with no null row.
+    :param Ab: Sparse matrix [A,b] in csr format.
     :return: Sorted list of row indices.
     """
 
     # A row with a nonzero where all the others have zeros
     # cannot depend on them
-    columns = [set(M[i,:].nonzero()[1]) for i in range(M.shape[0])]
+    (m,n) = Ab.shape
+    columns = [set(Ab[i,:].nonzero()[1])-set([n-1]) for i in range(m)]
     rows = {}
     for i,cols in enumerate(columns):
         for j in cols:
@@ -290,14 +300,22 @@ def independent_rows(M):
                     todo.append(k)
 
     # Numerical rank for the others
-    others = [i for i in range(M.shape[0]) if i not in selected]
-    if len(others) > 1:
-        D = M[others,:].toarray()
+    others = [i for i in range(m) if i not in selected]
+    if others:
+        D = Ab[others,:].toarray()
         D /= np.sqrt(np.sum(D**2,axis=1))[:,np.newaxis]
-        r,piv = la.qr(D.T,mode='r',pivoting=True)
+        A = D[:,:-1]
+        b = D[:,-1]
+        r,piv = la.qr(A.T,mode='r',pivoting=True)
         rank = np.sum(np.abs(np.diag(r)) > EPSILON)
-        others = [others[i] for i in piv[:rank]]
-    return sorted(selected.union(others))
+        keep = piv[:rank]
+        drop = piv[rank:]
+        # The equalities to drop must follow from the ones to keep
+        w = np.linalg.lstsq(A[keep,:].T,A[drop,:].T,rcond=None)[0]
+        if np.any(np.abs(np.dot(b[keep],w)-b[drop]) > np.sqrt(EPSILON)):
+            return None
+        selected.update([others[i] for i in keep])
+    return sorted(selected)
 
 # Function: construct_Gh
 def construct_Gh(constr_list,mapping,n):
-- 
2.43.0


From 91077e22d216866eb3a1c88242452f7bb5d01365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 57/66] fix: keep the default options of the functions
 independent of one another

---
 src/pydsm/NTFdesign/filter_based.py             | 9 +++++----
 src/pydsm/NTFdesign/psychoacoustic.py           | 3 ++-
 src/pydsm/NTFdesign/weighting/_fir_weighting.py | 9 ++++++---
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/pydsm/NTFdesign/filter_based.py b/src/pydsm/NTFdesign/filter_based.py
index 625f95b..ea6773e 100644
--- a/src/pydsm/NTFdesign/filter_based.py
+++ b/src/pydsm/NTFdesign/filter_based.py
@@ -47,6 +47,7 @@ Deprecated functions
 
 from __future__ import division, print_function
 
+from copy import deepcopy
 from .merit_factors import quantization_noise_gain as _quantization_noise_gain
 from .legacy import (quantization_noise_gain_by_conv as
                      _quantization_noise_gain_by_conv,
@@ -131,7 +132,7 @@ def quantization_noise_gain(NTF, H, H_type='zpk', **options):
     return _quantization_noise_gain(NTF, w, **opts)
 
 quantization_noise_gain.default_options = \
-    _quantization_noise_gain.default_options.copy()
+    deepcopy(_quantization_noise_gain.default_options)
 
 
 def quantization_noise_gain_by_conv(NTF, H, H_type='zpk', db=80):
@@ -213,7 +214,7 @@ def q0_from_filter(P, H, H_type='zpk', **options):
         raise ValueError("Incorrect filter type specification")
     return q0
 
-q0_from_filter.default_options = q0_weighting.default_options.copy()
+q0_from_filter.default_options = deepcopy(q0_weighting.default_options)
 
 
 def synthesize_ntf_from_filter(order, H, H_type='zpk', H_inf=1.5,
@@ -301,6 +302,6 @@ def synthesize_ntf_from_filter(order, H, H_type='zpk', H_inf=1.5,
     return ntf_fir_from_q0(q0, H_inf, normalize, **opts2)
 
 synthesize_ntf_from_filter.default_options = \
-    q0_from_filter.default_options.copy()
+    deepcopy(q0_from_filter.default_options)
 synthesize_ntf_from_filter.default_options.update(
-    ntf_fir_from_q0.default_options)
+    deepcopy(ntf_fir_from_q0.default_options))
diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index b44beac..cab8030 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -52,6 +52,7 @@ Deprecated functions
 
 from __future__ import division, print_function
 
+from copy import deepcopy
 import numpy as np
 from ..delsig import synthesizeNTF
 from ..delsig import undbp as undbp
@@ -311,7 +312,7 @@ def ntf_fir_audio_weighting(
     return ntf_fir_weighting(order, w, H_inf, normalize, **opts)
 
 ntf_fir_audio_weighting.default_options = \
-    ntf_fir_weighting.default_options.copy()
+    deepcopy(ntf_fir_weighting.default_options)
 
 
 # Following part is deprecated
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting.py b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
index c4c5de7..3d943cb 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
@@ -35,6 +35,7 @@ The optimization is practiced in two steps:
 
 from __future__ import division, print_function
 
+from copy import deepcopy
 import numpy as np
 from ...ft import idtft_hermitian
 from ...delsig import evalTF, padr
@@ -442,8 +443,9 @@ def ntf_fir_weighting(order, w, H_inf=1.5,
     q0 = q0_weighting(order, w, **opts1)
     return ntf_fir_from_q0(q0, H_inf, normalize, **opts2)
 
-ntf_fir_weighting.default_options = q0_weighting.default_options.copy()
-ntf_fir_weighting.default_options.update(ntf_fir_from_q0.default_options)
+ntf_fir_weighting.default_options = deepcopy(q0_weighting.default_options)
+ntf_fir_weighting.default_options.update(
+    deepcopy(ntf_fir_from_q0.default_options))
 
 
 def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
@@ -650,7 +652,8 @@ ntf_hybrid_weighting.default_options = {"modeler": "cvxpy_old",
                                                      0},
                                         'show_progress': True,
                                         'fix_pos': True}
-ntf_hybrid_weighting.default_options.update(q0_weighting.default_options)
+ntf_hybrid_weighting.default_options.update(
+    deepcopy(q0_weighting.default_options))
 
 
 # Following part is deprecated
-- 
2.43.0


From fe931b146421cbffd4d2e8222c63296a3b5981ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:06 +0000
Subject: [PATCH 58/66] fix: evalTF: do not overflow with integer arguments

---
 src/pydsm/delsig/_tf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pydsm/delsig/_tf.py b/src/pydsm/delsig/_tf.py
index bfea06c..4f1ad76 100644
--- a/src/pydsm/delsig/_tf.py
+++ b/src/pydsm/delsig/_tf.py
@@ -89,6 +89,8 @@ def evalTF(tf, x):
     so that the last coefficient is in fact the constant term in the
     numerator/denominator polynomial.
     """
+    # Integer arithmetic can overflow
+    x = np.multiply(x, 1.)
     if len(tf) == 3:
         retval = np.asarray(evalRPoly(tf[0], x, tf[2]))/evalRPoly(tf[1], x, 1)
     elif len(tf) == 2:
@@ -118,6 +120,8 @@ def evalRPoly(roots, x, k=1):
     y : ndarray
         value of polynomial at the given complex values.
     """
+    # Integer arithmetic can overflow
+    x = np.multiply(x, 1.)
     y = k*np.ones_like(x)
     roots = np.asarray(roots)
     # Remove roots at infinity
-- 
2.43.0


From 48eba7278e452ca84f98e76346f7e9c9561a9faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:34 +0000
Subject: [PATCH 59/66] fix: audio_weightings: do not overflow with integer
 frequencies

---
 src/pydsm/audio_weightings.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pydsm/audio_weightings.py b/src/pydsm/audio_weightings.py
index 99f775b..ae754d3 100644
--- a/src/pydsm/audio_weightings.py
+++ b/src/pydsm/audio_weightings.py
@@ -193,6 +193,7 @@ def a_weighting(f, normal=True, power=True):
     """
     if power:
         return a_weighting(f, normal, power=False)**2
+    f = np.multiply(f, 1.)  # Integer arithmetic can overflow
     w = (12200.0**2*f**4)/((f**2+20.6**2) *
                            np.sqrt((f**2+107.7**2) *
                            (f**2+737.9**2))*(f**2+12200.0**2))
@@ -224,6 +225,7 @@ def b_weighting(f, normal=True, power=True):
     """
     if power:
         return b_weighting(f, normal, power=False)**2
+    f = np.multiply(f, 1.)  # Integer arithmetic can overflow
     w = (12200.0**2*f**3)/((f**2+20.6**2) *
                            np.sqrt(f**2+158.5**2)*(f**2+12200.0**2))
     return w if not normal else w*b_weighting_gain
@@ -254,6 +256,7 @@ def c_weighting(f, normal=True, power=True):
     """
     if power:
         return c_weighting(f, normal, power=False)**2
+    f = np.multiply(f, 1.)  # Integer arithmetic can overflow
     w = (12200.0**2*f**2)/((f**2+20.6**2)*(f**2+12200.0**2))
     return w if not normal else w*c_weighting_gain
 
@@ -284,6 +287,7 @@ def d_weighting(f, normal=True, power=True):
     """
     if power:
         return d_weighting(f, normal, power=False)**2
+    f = np.multiply(f, 1.)  # Integer arithmetic can overflow
 
     def h(f):
         return (((1037918.48-f**2)**2+1080768.16*f**2) /
-- 
2.43.0


From b90c3a996603a733e467b85405d991b3a39851c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 60/66] fix: programs called with their own formals as
 arguments

The argument put in place of a formal was evaluated again with the same
replacements, recursing forever when it contained the formal itself and
mixing up the arguments when it contained another one.
---
 src/pydsm/cvxpy_tdr/procedures/re_eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/procedures/re_eval.py b/src/pydsm/cvxpy_tdr/procedures/re_eval.py
index 5e730c1..fbe0f27 100644
--- a/src/pydsm/cvxpy_tdr/procedures/re_eval.py
+++ b/src/pydsm/cvxpy_tdr/procedures/re_eval.py
@@ -47,14 +47,14 @@ def re_eval(arg,replace_map):
     # Scalar variable
     elif type(arg) is cvxpy_scalar_var:
         if arg in replace_map.keys():
-            return re_eval(replace_map[arg],replace_map)
+            return re_eval(replace_map[arg],{})
         else:
             return arg
 
     # Scalar param
     elif type(arg) is cvxpy_scalar_param:
         if arg in replace_map.keys():
-            return re_eval(replace_map[arg],replace_map)
+            return re_eval(replace_map[arg],{})
         else:
             return arg
 
-- 
2.43.0


From b0310d1214655b4941400f0697a2754b9ee05cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 61/66] fix: uses of a program as a function no longer share
 its inner variables

Two uses of the same program in a constraint were tied to one another by
its variables, giving wrong optimal values. A program whose objective
becomes a constant when its formals are replaced can also be used now.
---
 src/pydsm/cvxpy_tdr/programs.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/programs.py b/src/pydsm/cvxpy_tdr/programs.py
index 3f5b4c0..4b36131 100644
--- a/src/pydsm/cvxpy_tdr/programs.py
+++ b/src/pydsm/cvxpy_tdr/programs.py
@@ -336,8 +336,11 @@ class cvxpy_program(object):
         if len(args) != len(args_ref):
             raise TypeError("Invalid number of arguments")
 
-        # Create map and new program
+        # Create map and new program. The variables that are not formals
+        # belong to this use of the program only, hence they are replaced
         replace_map = {}
+        for v in self.variables:
+            replace_map[v] = cvxpy_scalar_var()
         for k in range(0,len(args),1):
             replace_map[args_ref[k]] = args[k]
         new_p = cvxpy_program(self.action,
@@ -345,13 +348,18 @@ class cvxpy_program(object):
                               re_eval(self.constraints,replace_map),
                               [],self.options,'')
 
+        # Get objective (possibly reduced to a constant)
+        new_obj = new_p.objective
+        if type(new_obj) is cvxpy_obj:
+            new_obj = new_obj.value
+
         # Embed
         right = constr.right
         new_constr = []
         if self.action == MINIMIZE:
-            new_constr += [compare(new_p.objective,LESS_EQUALS,right)]
+            new_constr += [compare(new_obj,LESS_EQUALS,right)]
         else:
-            new_constr += [compare(new_p.objective,GREATER_EQUALS,right)]
+            new_constr += [compare(new_obj,GREATER_EQUALS,right)]
         new_constr += new_p.constraints
 
         # Return constraints
-- 
2.43.0


From 775c5c3bbbb2d0bb3209035625de04d7fdacc0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 62/66] fix: programs with free parameters used as functions

The parameters that are not formals have the value they have been given,
as when solving the program.
---
 src/pydsm/cvxpy_tdr/programs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pydsm/cvxpy_tdr/programs.py b/src/pydsm/cvxpy_tdr/programs.py
index 4b36131..a15c089 100644
--- a/src/pydsm/cvxpy_tdr/programs.py
+++ b/src/pydsm/cvxpy_tdr/programs.py
@@ -341,6 +341,11 @@ class cvxpy_program(object):
         replace_map = {}
         for v in self.variables:
             replace_map[v] = cvxpy_scalar_var()
+        for param in self.parameters:
+            if param not in args_ref:
+                if np.isnan(param.value):
+                    raise ValueError('Invalid parameter value: NaN')
+                replace_map[param] = param.value
         for k in range(0,len(args),1):
             replace_map[args_ref[k]] = args[k]
         new_p = cvxpy_program(self.action,
-- 
2.43.0


From 73a0584ecb618100dc1f844f46ff5697bbe65a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:30 +0000
Subject: [PATCH 63/66] fix: simulateDSM: support modulators with no states and
 no inputs in the BLAS backends

---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 47 +++++++++++---------
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 47 +++++++++++---------
 2 files changed, 54 insertions(+), 40 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index 4337b03..c8deb52 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -181,14 +181,19 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
     cdef int i
     for i in xrange(N):
         # Compute y0 = np.dot(C, c_x0) + np.dot(D1, u[:, i])
-        cblas_dgemv(CblasRowMajor, CblasNoTrans, nq, order,\
-            1.0, dbldata(C), order, \
-            dbldata(c_x0), 1, \
-            0.0, dbldata(y0), 1)
-        cblas_dgemv(CblasRowMajor, CblasNoTrans, nq, nu,\
-            1.0, dbldata(D1), nu, \
-            dbldata(c_u)+i, N, \
-            1.0, dbldata(y0), 1)
+        # (BLAS does not take null dimensions)
+        if order > 0:
+            cblas_dgemv(CblasRowMajor, CblasNoTrans, nq, order,\
+                1.0, dbldata(C), order, \
+                dbldata(c_x0), 1, \
+                0.0, dbldata(y0), 1)
+        else:
+            y0.fill(0)
+        if nu > 0:
+            cblas_dgemv(CblasRowMajor, CblasNoTrans, nq, nu,\
+                1.0, dbldata(D1), nu, \
+                dbldata(c_u)+i, N, \
+                1.0, dbldata(y0), 1)
         if store_y:
             #y[:, i] = y0[:]
             cblas_dcopy(nq, dbldata(y0), 1,\
@@ -198,18 +203,20 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
             dbldata(v)+i, N)
         # Compute c_x0 = np.dot(A, c_x0) +
         #   np.dot(B, np.vstack((u[:, i], v[:, i])))
-        cblas_dgemv(CblasRowMajor, CblasNoTrans, order, order,\
-            1.0, dbldata(A), order, \
-            dbldata(c_x0), 1,\
-            0.0, dbldata(c_x0_temp), 1)
-        cblas_dgemv(CblasRowMajor, CblasNoTrans, order, nu,\
-            1.0, dbldata(B1), nu, \
-            dbldata(c_u)+i, N, \
-            1.0, dbldata(c_x0_temp), 1)
-        cblas_dgemv(CblasRowMajor, CblasNoTrans, order, nq,\
-            1.0, dbldata(B2), nq, \
-            dbldata(v)+i, N, \
-            1.0, dbldata(c_x0_temp), 1)
+        if order > 0:
+            cblas_dgemv(CblasRowMajor, CblasNoTrans, order, order,\
+                1.0, dbldata(A), order, \
+                dbldata(c_x0), 1,\
+                0.0, dbldata(c_x0_temp), 1)
+            if nu > 0:
+                cblas_dgemv(CblasRowMajor, CblasNoTrans, order, nu,\
+                    1.0, dbldata(B1), nu, \
+                    dbldata(c_u)+i, N, \
+                    1.0, dbldata(c_x0_temp), 1)
+            cblas_dgemv(CblasRowMajor, CblasNoTrans, order, nq,\
+                1.0, dbldata(B2), nq, \
+                dbldata(v)+i, N, \
+                1.0, dbldata(c_x0_temp), 1)
         # c_x0[:,1] = c_x0_temp[:,1]
         cblas_dcopy(order, dbldata(c_x0_temp), 1,\
             dbldata(c_x0), 1)
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 135d910..eef0611 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -187,14 +187,19 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
     cdef double zerodot = 0.0
     for i in xrange(N):
         # Compute y0 = np.dot(C, c_x0) + np.dot(D1, u[:, i])
-        dgemv('T', &order, &nq,\
-            &onedot, dbldata(C), &order, \
-            dbldata(c_x0), &one, \
-            &zerodot, dbldata(y0), &one)
-        dgemv('T', &nu, &nq,\
-            &onedot, dbldata(D1), &nu, \
-            dbldata(c_u)+i, &N, \
-            &onedot, dbldata(y0), &one)
+        # (BLAS does not take null dimensions)
+        if order > 0:
+            dgemv('T', &order, &nq,\
+                &onedot, dbldata(C), &order, \
+                dbldata(c_x0), &one, \
+                &zerodot, dbldata(y0), &one)
+        else:
+            y0.fill(0)
+        if nu > 0:
+            dgemv('T', &nu, &nq,\
+                &onedot, dbldata(D1), &nu, \
+                dbldata(c_u)+i, &N, \
+                &onedot, dbldata(y0), &one)
         if store_y:
             #y[:, i] = y0[:]
             dcopy(&nq, dbldata(y0), &one,\
@@ -204,18 +209,20 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
             dbldata(v)+i, N)
         # Compute c_x0 = np.dot(A, c_x0) +
         #   np.dot(B, np.vstack((u[:, i], v[:, i])))
-        dgemv('T', &order, &order,\
-            &onedot, dbldata(A), &order, \
-            dbldata(c_x0), &one,\
-            &zerodot, dbldata(c_x0_temp), &one)
-        dgemv('T', &nu, &order,\
-            &onedot, dbldata(B1), &nu, \
-            dbldata(c_u)+i, &N, \
-            &onedot, dbldata(c_x0_temp), &one)
-        dgemv('T', &nq, &order,\
-            &onedot, dbldata(B2), &nq, \
-            dbldata(v)+i, &N, \
-            &onedot, dbldata(c_x0_temp), &one)
+        if order > 0:
+            dgemv('T', &order, &order,\
+                &onedot, dbldata(A), &order, \
+                dbldata(c_x0), &one,\
+                &zerodot, dbldata(c_x0_temp), &one)
+            if nu > 0:
+                dgemv('T', &nu, &order,\
+                    &onedot, dbldata(B1), &nu, \
+                    dbldata(c_u)+i, &N, \
+                    &onedot, dbldata(c_x0_temp), &one)
+            dgemv('T', &nq, &order,\
+                &onedot, dbldata(B2), &nq, \
+                dbldata(v)+i, &N, \
+                &onedot, dbldata(c_x0_temp), &one)
         # c_x0[:,1] = c_x0_temp[:,1]
         dcopy(&order, dbldata(c_x0_temp), &one,\
             dbldata(c_x0), &one)
-- 
2.43.0


From b269e9b46d39f25a736460fb62b32fa0637f3364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:43 +0000
Subject: [PATCH 64/66] fix: cvxpy_tdr: quad_form: do not refuse large
 semidefinite matrices because of rounding errors

---
 src/pydsm/cvxpy_tdr/functions/quad_form.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/cvxpy_tdr/functions/quad_form.py b/src/pydsm/cvxpy_tdr/functions/quad_form.py
index 5ad72dd..8f69d62 100644
--- a/src/pydsm/cvxpy_tdr/functions/quad_form.py
+++ b/src/pydsm/cvxpy_tdr/functions/quad_form.py
@@ -69,7 +69,8 @@ def quad_form(x,P):
         raise ValueError('Invalid second argument')
 
     # Check positive semidefinite
-    if np.min(np.linalg.eig(P)[0]) < -EPSILON:
+    w = np.linalg.eigvalsh(P)
+    if np.min(w) < -EPSILON*max(1,np.max(np.abs(w))):
         raise ValueError('Invalid second argument')
 
     # Construct and return program
-- 
2.43.0


From 4fb5c405442d62d694a07502c434c7dfcf434811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:00 +0000
Subject: [PATCH 65/66] fix: cvxpy_tdr: points where a function overflows are
 out of its domain (endless loops of the solver)

---
 src/pydsm/cvxpy_tdr/procedures/call_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pydsm/cvxpy_tdr/procedures/call_solver.py b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
index dd08c0a..c7b9d61 100644
--- a/src/pydsm/cvxpy_tdr/procedures/call_solver.py
+++ b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
@@ -481,6 +481,8 @@ def construct_F(constr_list,mapping,n):
                 f = opt.matrix(0.0,(len(fs),1))
                 for i in range(0,len(fs),1):
                     f[i] = fs[i](x)
+                if not np.all(np.isfinite(f)):
+                    return None,None
                 Df = opt.spmatrix(0.0,[],[],(0,n))
                 for i in range(0,len(grads),1):
                     Df = opt.sparse([Df,grads[i](x).T])
-- 
2.43.0


From 3b8528390c1441ff462cf5324391363df33ed562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:19 +0000
Subject: [PATCH 66/66] fix: synthesizeNTF: keep the zeros at f0 with opt 4 and
 a large OSR

---
 src/pydsm/delsig/_synthesizeNTF1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_synthesizeNTF1.py b/src/pydsm/delsig/_synthesizeNTF1.py
index af8ad19..49ccd8b 100644
--- a/src/pydsm/delsig/_synthesizeNTF1.py
+++ b/src/pydsm/delsig/_synthesizeNTF1.py
@@ -95,8 +95,8 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
     zp = z[np.angle(z) > 0]
     x0 = (np.angle(zp)-2*np.pi*f0) * osr / np.pi
     if opt.size == 1 and opt == 4 and f0 != 0:
-        # Do not optimize the zeros at f0
-        x0 = np.delete(x0, np.nonzero(is_negligible(x0)))
+        # Do not optimize the zeros at f0 (rounding errors scale with osr)
+        x0 = np.delete(x0, np.nonzero(is_negligible(x0/osr)))
 
     p = np.zeros(order)
     k = 1
-- 
2.43.0

