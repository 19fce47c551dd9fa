From f534d3f65745424b39b32ad8a08c93e1b0852038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 01/31] fix: Mu5Nmb scaled its shared class-level error weights
 at every instantiation

---
 extensisq/murua.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extensisq/murua.py b/extensisq/murua.py
index 7a8669a..6030e19 100644
--- a/extensisq/murua.py
+++ b/extensisq/murua.py
@@ -222,8 +222,9 @@ class Mu5Nmb(RungeKuttaNystrom):
             self.K = self.K_extended[:self.n_stages+1]
         if scale_embedded:
             factor = 0.75
-            self.E *= factor
-            self.Ep *= factor
+            # not in place: E and Ep are shared class attributes
+            self.E = self.E * factor
+            self.Ep = self.Ep * factor
 
     def _dense_output_impl(self):
         if self.interpolant == 'free':
-- 
2.43.0


From b07efbfd92000aa4d642360bdf53f3732b92252b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 02/31] fix: SWAG overwrote the array returned by fun, and with
 it the user's y0

---
 extensisq/shampine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index e5ca237..0da4b3b 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -108,7 +108,7 @@ class SWAG(OdeSolver):
         self.rtol, self.atol = validate_tol(rtol, atol, self.y)
 
         # starting step size
-        self.yp = self.fun(self.t, self.y)                 # initial evaluation
+        self.yp = self.fun(self.t, self.y).copy()          # initial evaluation
         if first_step is None:
             b = self.t + copysign(min(abs(self.t_bound - self.t),
                                       self.max_step), self.direction)
-- 
2.43.0


From 01c9f47886fbb30ca0058d558d87291c853918bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 03/31] fix: SWAG never terminated if the steps near t=0 keep
 failing

---
 extensisq/shampine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index 0da4b3b..99e3a18 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -122,6 +122,7 @@ class SWAG(OdeSolver):
         small = np.nextafter(np.finfo(self.y.dtype).epsneg, 1)
         self.twou = 2.0 * small
         self.fouru = 4.0 * small
+        self.min_step0 = sqrt(np.finfo(self.y.dtype).tiny)    # for t near 0
         self.two = (2.0, 4.0, 8.0, 16.0, 32.0, 64.0, 128.0, 256.0, 512.0,
                     1024.0, 2048.0, 4096.0, 8192.0)
         self.gstr = (0.5, 0.0833, 0.0417, 0.0264, 0.0188, 0.0143, 0.0114,
@@ -193,7 +194,7 @@ class SWAG(OdeSolver):
           self.gi, self.gstr, self.iqq, self.eps, self.p5eps)
 
         # from *** ddes.f ***
-        min_step = self.fouru * abs(x)                                  # added
+        min_step = max(self.fouru * abs(x), self.min_step0)             # added
 
         # stiffness detection
         if kold > 4:
-- 
2.43.0


From 10a846e12ef1c38efba61368672317e46c9dbc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 04/31] fix: SWAG did not reset the failed step counter at the
 start of an integration

---
 extensisq/shampine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index 99e3a18..20cc344 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -178,6 +178,8 @@ class SWAG(OdeSolver):
         # from ddes.f, for stiffness detection
         self.kle4 = 0
 
+        NFS[()] = 0                                # global failed step counter
+
     def _step_impl(self):
 
         # current state
-- 
2.43.0


From e9d96cc65663e5030956f4420b2dd74eb7fbf35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 05/31] fix: ZeroDivisionError for 0 < nfev_stiff_detect <
 number of stages

---
 extensisq/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 677484c..7befd7d 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -402,7 +402,7 @@ class RungeKutta(OdeSolver):
 
         # Test for stifness after each nfev_stiff_detect evaluations
         # then toomch = True
-        many_steps = self.nfev_stiff_detect//self.n_stages
+        many_steps = max(1, self.nfev_stiff_detect//self.n_stages)
         toomch = self.okstp % many_steps == many_steps - 1
 
         # If either too much work has been done or there are lots of failed
@@ -1356,7 +1356,7 @@ class RungeKuttaNystrom(RungeKutta):
 
         # Test for stifness after each nfev_stiff_detect evaluations
         # then toomch = True
-        many_steps = self.nfev_stiff_detect//self.n_stages
+        many_steps = max(1, self.nfev_stiff_detect//self.n_stages)
         toomch = self.okstp % many_steps == many_steps - 1
 
         # If either too much work has been done or there are lots of failed
-- 
2.43.0


From 9234ebcb09244cb524da1cc45d716b277c2f50a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 06/31] fix: Nystrom methods called the raw user function with
 the wrong shape or type

---
 extensisq/common.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 7befd7d..97c9125 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1254,7 +1254,8 @@ class RungeKuttaNystrom(RungeKutta):
             y_test = self.y.copy()
             y_test[self.n:] *= 1 + 1e-8
             y_test[self.n:] += 1e-8
-            if not np.all(fun(t0, y_test)[:self.n] == y_test[self.n:]):
+            f_test = self.fun_single(self.t, y_test)
+            if not np.all(f_test[:self.n] == y_test[self.n:]):
                 raise AssertionError(msg)
         if self.Ap is NotImplemented:
             msg = ("This method is for velocity independent ODEs, "
@@ -1262,7 +1263,8 @@ class RungeKuttaNystrom(RungeKutta):
             y_test = self.y.copy()
             y_test[self.n:] *= 1 + 1e-8
             y_test[self.n:] += 1e-8
-            if not np.all(fun(t0, y_test)[self.n:] == self.f[self.n:]):
+            f_test = self.fun_single(self.t, y_test)
+            if not np.all(f_test[self.n:] == self.f[self.n:]):
                 raise AssertionError(msg)
             self.Ap = np.zeros((self.n_stages, self.n_stages))          # dummy
         # check Ep, (E is already checked)
@@ -1271,7 +1273,7 @@ class RungeKuttaNystrom(RungeKutta):
         # need storage for accelerations only
         self.K = np.empty((self.n_stages + 1, self.n), self.y.dtype)
         self.f = self.f[self.n:]
-        self.fun_first_order = fun
+        self.fun_first_order = self.fun
 
         def fun(*args, fun=self.fun, n=self.n):
             return fun(*args)[n:]
-- 
2.43.0


From c9ef8a9ec8555cb1cb3820e05e37a44e9bfbc47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 07/31] fix: Fi5N ignored sc_params

---
 extensisq/fine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensisq/fine.py b/extensisq/fine.py
index d6eae78..74a92cf 100644
--- a/extensisq/fine.py
+++ b/extensisq/fine.py
@@ -363,7 +363,8 @@ class Fi5N(RungeKuttaNystrom):
 
     def __init__(self, fun, t0, y0, t_bound,
                  sc_params=None, interpolant=0, **extraneous):
-        super().__init__(fun, t0, y0, t_bound, **extraneous)
+        super().__init__(
+            fun, t0, y0, t_bound, sc_params=sc_params, **extraneous)
         # custom initialization to create extended storage for dense output
         if interpolant not in range(4):
             raise ValueError(
-- 
2.43.0


From 7b7376f3b07f3c5dcd0132e817fd45c4e29d2c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 08/31] fix: steps longer than max_step (SSV2stab and the
 ESDIRK methods)

---
 extensisq/common.py    | 2 +-
 extensisq/sommeijer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 97c9125..8cef9ec 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2176,7 +2176,7 @@ class ESDIRK(OdeSolver):
 
         # handle final integration steps
         d = abs(self.t_bound - t)                          # remaining interval
-        if (abs(d/h_abs - 1) < 1e-2) or (d < h_abs):
+        if (abs(d/h_abs - 1) < 1e-2 and d <= self.max_step) or (d < h_abs):
             # d <= h_abs: Don't step over t_bound or stop just below it.
             h_abs = d
 
diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index e52d95f..c814eed 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -188,7 +188,7 @@ class SSV2stab(OdeSolver):
 
             #  Adjust the step size and determine the number of stages m.
             if 1.1 * absh >= abs(self.t_bound - t):
-                absh = abs(self.t_bound - t)
+                absh = min(abs(self.t_bound - t), self.max_step)
             m = 1 + int(sqrt(1.54 * absh * self.sprad + 1.0))
 
             # Limit m to mmax to control the growth of roundoff error.
-- 
2.43.0


From 36245942e78d4e801725829a4aa1062c62c398ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 09/31] fix: SSV2stab probed outside the interval when
 integrating backward

---
 extensisq/sommeijer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index c814eed..5536b80 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -149,8 +149,9 @@ class SSV2stab(OdeSolver):
         if self.sprad * absh > 1.0:
             absh = 1.0 / self.sprad
         absh = max(absh, self.hmin)
-        vtemp1[:] = yn + absh * fn
-        vtemp2[:] = self.fun(t + absh, vtemp1)                       # evaluate
+        h = self.direction * absh
+        vtemp1[:] = yn + h * fn
+        vtemp2[:] = self.fun(t + h, vtemp1)                          # evaluate
         wt = self.atol + self.rtol * np.abs(yn)
         est = absh * norm((vtemp2 - fn) / wt)
         if 0.1 * absh < self.max_step * sqrt(est):
-- 
2.43.0


From 598bca515b3c6abe615b08c3983b6d5c5ce58b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 10/31] fix: SSV2stab did not limit first_step to max_step

---
 extensisq/sommeijer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index 5536b80..c29a163 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -189,7 +189,8 @@ class SSV2stab(OdeSolver):
 
             #  Adjust the step size and determine the number of stages m.
             if 1.1 * absh >= abs(self.t_bound - t):
-                absh = min(abs(self.t_bound - t), self.max_step)
+                absh = abs(self.t_bound - t)
+            absh = min(absh, self.max_step)
             m = 1 + int(sqrt(1.54 * absh * self.sprad + 1.0))
 
             # Limit m to mmax to control the growth of roundoff error.
-- 
2.43.0


From 4722ab5c696e36a1baf814c9c5a4d168c626e90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 11/31] fix: the last step could end one rounding error before
 or past t_bound

---
 extensisq/bogacki.py   |  4 ++--
 extensisq/calvo.py     |  4 ++--
 extensisq/cash.py      |  4 ++--
 extensisq/common.py    | 10 ++++++++--
 extensisq/shampine.py  |  5 +++--
 extensisq/sommeijer.py |  4 ++--
 6 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/extensisq/bogacki.py b/extensisq/bogacki.py
index 7f8a43b..6ee2fa8 100644
--- a/extensisq/bogacki.py
+++ b/extensisq/bogacki.py
@@ -1,6 +1,6 @@
 import numpy as np
 from extensisq.common import (norm, RungeKutta, HornerDenseOutput, NFS,
-                              calculate_scale, MAX_FACTOR)
+                              calculate_scale, next_time, MAX_FACTOR)
 
 
 class BS5(RungeKutta):
@@ -252,7 +252,7 @@ class BS5(RungeKutta):
                 return False, self.TOO_SMALL_STEP
 
             h = h_abs * self.direction
-            t_new = t + h
+            t_new = next_time(t, h, self.t_bound)
 
             # calculate stages, except last two
             self.K[0] = self.f
diff --git a/extensisq/calvo.py b/extensisq/calvo.py
index 401240b..cf9b253 100644
--- a/extensisq/calvo.py
+++ b/extensisq/calvo.py
@@ -1,6 +1,6 @@
 import numpy as np
 from extensisq.common import (
-    RungeKutta, NFS, norm, MAX_FACTOR, calculate_scale)
+    RungeKutta, NFS, norm, next_time, MAX_FACTOR, calculate_scale)
 
 
 class CFMR7osc(RungeKutta):
@@ -164,7 +164,7 @@ class CFMR7osc(RungeKutta):
             if h_abs < min_step:
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
-            t_new = t + h
+            t_new = next_time(t, h, self.t_bound)
 
             # calculate stages needed for error evaluation
             self.K[0] = self.f
diff --git a/extensisq/cash.py b/extensisq/cash.py
index da26938..7e430c7 100644
--- a/extensisq/cash.py
+++ b/extensisq/cash.py
@@ -1,6 +1,6 @@
 import numpy as np
 from extensisq.common import (RungeKutta, HornerDenseOutput, CubicDenseOutput,
-                              NFS, calculate_scale, norm)
+                              NFS, calculate_scale, next_time, norm)
 
 
 SAFETY = 0.9
@@ -377,7 +377,7 @@ class CKdisc(RungeKutta):
 
         # calculate the derivative of the accepted solution
         # for first stage of next step and for interpolation
-        t_new = t + h
+        t_new = next_time(t, h, self.t_bound)
         f_new = self.fun(t_new, y_new)
         self.K[-1, :] = f_new
 
diff --git a/extensisq/common.py b/extensisq/common.py
index 8cef9ec..47a090b 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -66,6 +66,12 @@ def norm(x):
     return (np.real(x @ x.conjugate()) / x.size) ** 0.5
 
 
+def next_time(t, h, t_bound):
+    """Return t + h, or exactly t_bound if h covers the remaining interval.
+    (t + (t_bound - t) may differ from t_bound by rounding.)"""
+    return t_bound if abs(h) == abs(t_bound - t) else t + h
+
+
 class RungeKutta(OdeSolver):
     """Base class for explicit runge kutta methods.
 
@@ -234,7 +240,7 @@ class RungeKutta(OdeSolver):
             if h_abs < min_step:
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
-            t_new = t + h
+            t_new = next_time(t, h, self.t_bound)
 
             # calculate stages needed for output
             self.K[0] = self.f
@@ -2029,7 +2035,7 @@ class ESDIRK(OdeSolver):
             if h_abs < min_step:
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
-            t_new = t + h
+            t_new = next_time(t, h, self.t_bound)
 
             if (LU is None) or self.jac_each_step or (
                                             self.linear and (h != self.h_LU)):
diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index 20cc344..5ab7fce 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -2,7 +2,8 @@ import numpy as np
 from warnings import warn
 from math import copysign, sqrt
 from scipy.integrate._ivp.base import OdeSolver, DenseOutput
-from extensisq.common import h_start, validate_tol, NFS, calculate_scale, norm
+from extensisq.common import (
+    h_start, validate_tol, next_time, NFS, calculate_scale, norm)
 from scipy.integrate._ivp.common import (
     validate_max_step, warn_extraneous, validate_first_step)
 
@@ -334,7 +335,7 @@ class SWAG(OdeSolver):
             p = h * (phi[:, :k] @ g[:k]) + y
             phi[:, km1::-1] = np.cumsum(phi[:, km1::-1], axis=1)
             xold = x
-            x += h
+            x = next_time(x, h, self.t_bound)
             absh = abs(h)
             yp[:] = self.fun(x, p)                                   # evaluate
 
diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index c29a163..2a24d87 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -5,7 +5,7 @@ from scipy.integrate._ivp.common import (
     validate_max_step, validate_first_step, warn_extraneous)
 from scipy.integrate._ivp.base import OdeSolver
 from extensisq.common import (validate_tol, CubicDenseOutput, NFS, norm,
-                              calculate_scale)
+                              calculate_scale, next_time)
 
 
 # global counters, several were removed
@@ -237,7 +237,7 @@ class SSV2stab(OdeSolver):
                     self.absh = absh
 
         # Step is accepted.
-        t += h
+        t = next_time(t, h, self.t_bound)
         self.jacatt = self.const_jac
         self.nstsig = (self.nstsig + 1) % 25
         self.newspc = False
-- 
2.43.0


From bc9d66f3ce6beb8dc9de0f045243dcf442063d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 12/31] fix: integration failed if the last step had to be tiny

---
 extensisq/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extensisq/common.py b/extensisq/common.py
index 47a090b..58cbe1d 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -333,6 +333,7 @@ class RungeKutta(OdeSolver):
             else:
                 # d <= h_abs: Don't step over t_bound
                 h_abs = d
+                min_step = min(min_step, d)     # allow a tiny last step
 
         return h_abs, min_step
 
@@ -2185,6 +2186,7 @@ class ESDIRK(OdeSolver):
         if (abs(d/h_abs - 1) < 1e-2 and d <= self.max_step) or (d < h_abs):
             # d <= h_abs: Don't step over t_bound or stop just below it.
             h_abs = d
+            min_step = min(min_step, d)         # allow a tiny last step
 
         return h_abs, min_step
 
-- 
2.43.0


From d975883712a97e3b34551655aa979d5c755e146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 13/31] fix: BS5's best interpolant reported the time range of
 the next step

---
 extensisq/bogacki.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extensisq/bogacki.py b/extensisq/bogacki.py
index 6ee2fa8..bfb6fcb 100644
--- a/extensisq/bogacki.py
+++ b/extensisq/bogacki.py
@@ -390,4 +390,8 @@ class BS5(RungeKutta):
         # RKSuite's, polynomial definition is different from scipy's: looking
         # back from the end of the step instead of forward from the start.
         # The call is modified to accomodate:
-        return HornerDenseOutput(self.t, self.t+h, self.y, Q)
+        sol = HornerDenseOutput(self.t, self.t+h, self.y, Q)
+        # but the time range of the interpolant is the step itself:
+        sol.t_min = min(self.t_old, self.t)
+        sol.t_max = max(self.t_old, self.t)
+        return sol
-- 
2.43.0


From b9ec2c207f026d20fc9135f9263ca1c148e099c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 14/31] fix: a solution that overflows could be accepted with
 an error estimate of zero

---
 extensisq/common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 58cbe1d..433f6a4 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -57,8 +57,11 @@ def validate_tol(rtol, atol, y):
 def calculate_scale(atol, rtol, y, y_new, _mean=False):
     """calculate a scaling vector for the error estimate"""
     if _mean:
-        return atol + rtol * 0.5*(np.abs(y) + np.abs(y_new))
-    return atol + rtol * np.maximum(np.abs(y), np.abs(y_new))
+        scale = atol + rtol * 0.5*(np.abs(y) + np.abs(y_new))
+    else:
+        scale = atol + rtol * np.maximum(np.abs(y), np.abs(y_new))
+    # a solution that overflows must not get an error estimate of zero
+    return np.where(np.isinf(scale), np.nan, scale)
 
 
 def norm(x):
-- 
2.43.0


From ad3b16aa70f789575454584d9523c2238c0c0191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 15/31] fix: SSV2stab raised OverflowError if the spectral
 radius estimation met an infinite value

---
 extensisq/sommeijer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index 2a24d87..1191bbf 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -376,6 +376,8 @@ class SSV2stab(OdeSolver):
             dfnrm = np.linalg.norm(fv - fn)
             sigmal = sigma
             sigma = dfnrm / dynrm
+            if not np.isfinite(sigma):
+                return None
 
             # sprad is a little bigger than the estimate sigma of the
             # spectral radius, so is more likely to be an upper bound.
-- 
2.43.0


From d1113c510d48538180d5b05f48aef9b8bcea1717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:19 +0000
Subject: [PATCH 16/31] fix: CKdisc's low order interpolant changed when the
 solver moved on

---
 extensisq/cash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/cash.py b/extensisq/cash.py
index 7e430c7..13467c0 100644
--- a/extensisq/cash.py
+++ b/extensisq/cash.py
@@ -413,4 +413,4 @@ class CKdisc(RungeKutta):
             return HornerDenseOutput(self.t_old, self.t, self.y_old, Q)
         # low order solution
         return CubicDenseOutput(self.t_old, self.t, self.y_old, self.y,
-                                self.K[0, :], self.K[-1, :])
+                                self.K[0, :].copy(), self.K[-1, :].copy())
-- 
2.43.0


From 8e5dc9256e95b3d58024be4898fc9681091d890f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:23 +0000
Subject: [PATCH 17/31] fix: QuinticHermiteDenseOutput lost the velocity at the
 step ends to cancellation for small steps

---
 extensisq/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 433f6a4..b536720 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1568,9 +1568,11 @@ class QuinticHermiteDenseOutput(DenseOutput):
         Q = np.array(
             [self.x_old, self.v_old*h, self.a_old*h**2,
              self.x, self.v*h, self.a*h**2]).T @ self.P
+        # (the first row of Pp is the opposite of the fourth; the difference of
+        # x is formed first, because x/h is much larger than v for small h)
         Qp = np.array(
-            [self.x_old/h, self.v_old, self.a_old*h,
-             self.x/h, self.v, self.a*h]).T @ self.Pp
+            [self.v_old, self.a_old*h,
+             (self.x - self.x_old)/h, self.v, self.a*h]).T @ self.Pp[1:]
 
         # Horner's rule:
         x = Q.T[-1, :, np.newaxis] * np.ones_like(xi)
-- 
2.43.0


From 29f26bb01e2ede101a1b4ffd7d9d08d9b434b56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 18/31] fix: ESDIRK methods evaluated the Jacobian twice at the
 same point if Newton failed in a step that started with a refreshed one

---
 extensisq/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extensisq/common.py b/extensisq/common.py
index b536720..855af6c 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2136,6 +2136,7 @@ class ESDIRK(OdeSolver):
             rate_predict_JAC = rate_predict - rate_predict_LU
             if niter > 2 and rate_predict_JAC > MAX_RATE:
                 self.J = self.jac(t, y)                       # calculate new J
+                self.current_J = True
                 self.LU = None                                     # and new LU
             elif rate_predict_LU > MAX_RATE:
                 self.LU = None                                  # demand new LU
-- 
2.43.0


From 05bd79b002f672e5b1c01fae3c901d5b87e83a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:02 +0000
Subject: [PATCH 19/31] fix: SSV2stab perturbs the state, not the zero
 derivative, to start the power method at an equilibrium

---
 extensisq/sommeijer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index 1191bbf..b945c20 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -356,7 +356,7 @@ class SSV2stab(OdeSolver):
             v[:] = yn + v * (dynrm/vnrm)
         elif ynrm != 0.0:
             dynrm = ynrm * self.sqrtu
-            v[:] *= 1.0 + self.sqrtu
+            v[:] = yn * (1.0 + self.sqrtu)
         elif vnrm != 0.0:
             dynrm = self.uround
             v[:] *= dynrm/vnrm
-- 
2.43.0


From 0abb6c19a285d7d99365e83c45b872ed8f533630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:09 +0000
Subject: [PATCH 20/31] fix: stiffness detection reported roots near the
 imaginary axis if it had not converged

---
 extensisq/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 855af6c..de6fadc 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -474,7 +474,7 @@ class RungeKutta(OdeSolver):
                 if rootre is None:
                     # no warning is given
                     logging.info('Stiffness detection did not converge')
-                if not rootre:
+                elif not rootre:
                     # A complex pair of roots has been found near the imaginary
                     # axis, where the stability boundary of the method is not
                     # well defined.
@@ -1435,7 +1435,7 @@ class RungeKuttaNystrom(RungeKutta):
                 if rootre is None:
                     # no warning is given
                     logging.info('Stiffness detection did not converge')
-                if not rootre:
+                elif not rootre:
                     # A complex pair of roots has been found near the imaginary
                     # axis, where the stability boundary of the method is not
                     # well defined.
-- 
2.43.0


From 393210e7438ad14388a905243006341322e22571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:24 +0000
Subject: [PATCH 21/31] fix: RungeKuttaNystrom methods diagnosed stiffness
 without a warning for complex roots with real parts in 0.85-0.9 stbre

---
 extensisq/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index de6fadc..945e920 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1467,7 +1467,7 @@ class RungeKuttaNystrom(RungeKutta):
                          'and is diagnosed as stiff.  You should probably '
                          'change to a code intended for stiff problems.')
                 else:                                                  # change
-                    if abs(root1[0]) >= 0.9 * self.stbre:
+                    if abs(root1[0]) >= 0.85 * self.stbre:
                         warn('Your problem has a complex pair of dominant '
                              'roots and is diagnosed as stiff '
                              '(large real part).  You should probably change '
-- 
2.43.0


From 36a637c058835e90768e4df8f56c44acd642adfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:43 +0000
Subject: [PATCH 22/31] fix: ESDIRK filtered error estimate is independent of
 the units of the equations when M is given

---
 extensisq/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 945e920..65e133b 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2097,7 +2097,7 @@ class ESDIRK(OdeSolver):
             scale = calculate_scale(self.atol, self.rtol, y, y_new)
             err = h * (K.T @ self.E)                                      # est
             if self.filter_error:
-                err = self.M_mat @ self.solve_lu(LU, Sc @ err)            # Est
+                err = self.solve_lu(LU, Sc @ (self.M_mat @ err))          # Est
             error_norm = norm(err/scale)
 
             # propose new stepsize
-- 
2.43.0


From b1b6f767b65b6c28384298139c186f528aabb19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:42 +0000
Subject: [PATCH 23/31] fix: DAEs with an array atol and no first_step failed
 at construction

---
 extensisq/common.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 65e133b..4734f84 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1927,7 +1927,11 @@ class ESDIRK(OdeSolver):
         S = Guv @ np.linalg.solve(Gvv, Gvu)
         Tr = np.diag(1/s[s_u]) @ (gudot + Guv @ vdot)
         Jr = np.diag(1/s[s_u]) @ (Guu + S)
-        kwargs_hstart = {'y': u, 'yprime': udot, 'J': Jr, 'T': Tr}
+        atol = self.atol
+        if np.ndim(atol) > 0:
+            atol = (abs(Vh) @ atol)[s_u]
+        kwargs_hstart = {'y': u, 'yprime': udot, 'J': Jr, 'T': Tr,
+                         'atol': atol}
 
         if self.sparse:
             J = csc_array(J)
@@ -2006,7 +2010,7 @@ class ESDIRK(OdeSolver):
                 # _consistent_ICs.
                 self.h_abs = abs(h_start(
                     fun, self.t, b, morder=order,
-                    rtol=self.rtol, atol=self.atol, **kwargs_hstart))
+                    rtol=self.rtol, **kwargs_hstart))
             else:
 
                 def fun_ext(t, y, LU_M=LU_M):
-- 
2.43.0


From 53380d56752418968212a0ff29004e300090a349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:10 +0000
Subject: [PATCH 24/31] fix: inconsistent initial values of DAEs were not
 corrected if the algebraic equations have small units

---
 extensisq/common.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 4734f84..b716d28 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1868,7 +1868,12 @@ class ESDIRK(OdeSolver):
 
         # find consistent y0 if needed
         b = U.T @ f
-        consistent_y = np.allclose(b[s_v], 0.)
+        # the residual has the unit of the equation, so also test if the
+        # correction it calls for is significant
+        dv = np.linalg.solve(Gvv, b[s_v])
+        y_cor = y - Vh.T @ np.r_[np.zeros(self.n + s_v.start), dv]
+        consistent_y = np.allclose(b[s_v], 0.) and np.allclose(
+            y_cor, y, rtol=self.rtol, atol=self.atol)
         if consistent_y:
             u = (Vh @ y)[s_u]
         else:
-- 
2.43.0


From ea789c4c2047abe2680374c30ac75c842f402ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:24 +0000
Subject: [PATCH 25/31] fix: inconsistent complex initial values of DAEs raised
 TypeError

---
 extensisq/common.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index b716d28..074ac80 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1894,7 +1894,23 @@ class ESDIRK(OdeSolver):
                 self.njev -= 1                  # don't count these evaluations
                 return Gvv
 
-            solC = root(funC, v0, jac=jacC)
+            if np.iscomplexobj(v0):
+                # root does not support complex values
+                nv = v0.size
+
+                def funR(x):
+                    gv = funC(x[:nv] + 1j*x[nv:])
+                    return np.r_[gv.real, gv.imag]
+
+                def jacR(x):
+                    Gvv = jacC(x[:nv] + 1j*x[nv:])
+                    return np.block([[Gvv.real, -Gvv.imag],
+                                     [Gvv.imag, Gvv.real]])
+
+                solC = root(funR, np.r_[v0.real, v0.imag], jac=jacR)
+                solC.x = solC.x[:nv] + 1j*solC.x[nv:]
+            else:
+                solC = root(funC, v0, jac=jacC)
             if not solC.success:
                 raise ValueError(
                     "Cannot find consistent initial conditions."
-- 
2.43.0


From f85bf252671f691ce4300de40cabb2be82561b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:46 +0000
Subject: [PATCH 26/31] fix: DAEs with a complex singular mass matrix used the
 transpose for the adjoint

---
 extensisq/common.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 074ac80..4fb23e5 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1859,7 +1859,8 @@ class ESDIRK(OdeSolver):
         s_v = self.M_details['s_AE']
         s_u = np.s_[:s_v.start]
         U, s, Vh = self.M_details['svd']
-        Gvv = (U.T @ J @ Vh.T)[s_v, s_v]
+        Uh, V = U.conj().T, Vh.conj().T
+        Gvv = (Uh @ J @ V)[s_v, s_v]
         index1 = np.linalg.matrix_rank(Gvv) == Gvv.shape[1]
         if not index1:
             raise ValueError(
@@ -1867,11 +1868,11 @@ class ESDIRK(OdeSolver):
                 " This method is not suitable for solving it.")
 
         # find consistent y0 if needed
-        b = U.T @ f
+        b = Uh @ f
         # the residual has the unit of the equation, so also test if the
         # correction it calls for is significant
         dv = np.linalg.solve(Gvv, b[s_v])
-        y_cor = y - Vh.T @ np.r_[np.zeros(self.n + s_v.start), dv]
+        y_cor = y - V @ np.r_[np.zeros(self.n + s_v.start), dv]
         consistent_y = np.allclose(b[s_v], 0.) and np.allclose(
             y_cor, y, rtol=self.rtol, atol=self.atol)
         if consistent_y:
@@ -1882,15 +1883,15 @@ class ESDIRK(OdeSolver):
             v0 = z0[s_v]
             u = z0[s_u]     # fixed
 
-            def funC(v, u=u, t=t, U=U, Vh=Vh):
-                y = Vh.T @ np.r_[u, v]
+            def funC(v, u=u, t=t, Uh=Uh, V=V):
+                y = V @ np.r_[u, v]
                 f = fun(t, y)
-                gv = (U.T @ f)[s_v]
+                gv = (Uh @ f)[s_v]
                 return gv
 
-            def jacC(v, u=u, t=t, U=U, Vh=Vh):
-                y = Vh.T @ np.r_[u, v]
-                Gvv = (U.T @ jac(t, y) @ Vh.T)[s_v, s_v]
+            def jacC(v, u=u, t=t, Uh=Uh, V=V):
+                y = V @ np.r_[u, v]
+                Gvv = (Uh @ jac(t, y) @ V)[s_v, s_v]
                 self.njev -= 1                  # don't count these evaluations
                 return Gvv
 
@@ -1916,7 +1917,7 @@ class ESDIRK(OdeSolver):
                     "Cannot find consistent initial conditions."
                     " Try to give a better y0")
             v = solC.x
-            y = Vh.T @ np.r_[u, v]
+            y = V @ np.r_[u, v]
             f = fun(t, y)
             J = jac(t, y)              # J at updated y0
             self.njev -= 1             # don't count this evaluation
@@ -1933,16 +1934,16 @@ class ESDIRK(OdeSolver):
         b = t + self.direction * min(abs(self.t_bound - t), self.max_step)
         fdot = h_start(fun, t, b, y, f, None,
                        self.rtol, self.atol, returnT=True)
-        gdot = U.T @ fdot
+        gdot = Uh @ fdot
         gudot, gvdot = gdot[s_u], gdot[s_v]
-        g = U.T @ f
+        g = Uh @ f
         gu = g[s_u]         # gv = g[s_v]
-        G = U.T @ J @ Vh.T
+        G = Uh @ J @ V
         Guu, Guv = G[s_u, s_u], G[s_u, s_v]
         Gvv, Gvu = G[s_v, s_v], G[s_v, s_u]
         udot = gu/s[s_u]    # fixed
         vdot = -np.linalg.solve(Gvv, gvdot + Gvu @ udot)
-        ydot = Vh.T @ np.r_[udot, vdot]
+        ydot = V @ np.r_[udot, vdot]
         # Effective Jac and T for problem when reduced to an ODE
         # h_start can use these.
         S = Guv @ np.linalg.solve(Gvv, Gvu)
@@ -2079,7 +2080,7 @@ class ESDIRK(OdeSolver):
                     sc = np.ones(self.n)
                     sc[s_AE] = 1/(h*self.d)
                     U = self.M_details['svd'][0]
-                    Sc = U @ diags_array(sc) @ U.T
+                    Sc = U @ diags_array(sc) @ U.conj().T
                     LU = self.lu(Sc @ (self.M_mat - h * self.d * self.J))
 
             self.Rate = -np.inf
-- 
2.43.0


From 31010189d1db6398a840df775757d274cd338ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:30 +0000
Subject: [PATCH 27/31] fix: consistent initial values of DAEs were refused if
 scipy's root stalled at rounding level

---
 extensisq/common.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 4fb23e5..e0cc7a1 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1912,13 +1912,20 @@ class ESDIRK(OdeSolver):
                 solC.x = solC.x[:nv] + 1j*solC.x[nv:]
             else:
                 solC = root(funC, v0, jac=jacC)
-            if not solC.success:
-                raise ValueError(
-                    "Cannot find consistent initial conditions."
-                    " Try to give a better y0")
             v = solC.x
             y = V @ np.r_[u, v]
             f = fun(t, y)
+            success = solC.success
+            if not success:
+                # root may stall at rounding level, test the correction that
+                # is still needed
+                dv = np.linalg.solve(jacC(v), (Uh @ f)[s_v])
+                y_cor = y - V @ np.r_[np.zeros(self.n + s_v.start), dv]
+                success = np.allclose(y_cor, y, rtol=self.rtol, atol=self.atol)
+            if not success:
+                raise ValueError(
+                    "Cannot find consistent initial conditions."
+                    " Try to give a better y0")
             J = jac(t, y)              # J at updated y0
             self.njev -= 1             # don't count this evaluation
             if not np.allclose(y, y0, rtol=self.rtol, atol=self.atol):
-- 
2.43.0


From 79b88ca385b19771db649c7eb71c22865eb64edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:20 +0000
Subject: [PATCH 28/31] fix: dense output of TRBDF2 and TRX2 raised ValueError
 for steps of one spacing of t

---
 extensisq/hosea.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extensisq/hosea.py b/extensisq/hosea.py
index 8da8dfe..ef808c7 100644
--- a/extensisq/hosea.py
+++ b/extensisq/hosea.py
@@ -20,6 +20,9 @@ class HS(ESDIRK):
         T = [self.t_old, t_mid, self.t]
         Y = np.array([self.y_old, y_mid, self.y])
         dY = self.K.copy()
+        if t_mid in (self.t_old, self.t):
+            # the step is too small to contain a mid point
+            T, Y, dY = T[::2], Y[::2], dY[::2]
         if self.direction > 0:
             return PiecewiseCubicDenseOutput(T, Y, dY)
         else:
-- 
2.43.0


From e3dee81dfe89268724a2fafacacb6220256db9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:00 +0000
Subject: [PATCH 29/31] fix: index of DAEs with a full mass matrix was not
 recognised because of rounding

---
 extensisq/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index e0cc7a1..eb4a797 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1860,8 +1860,10 @@ class ESDIRK(OdeSolver):
         s_u = np.s_[:s_v.start]
         U, s, Vh = self.M_details['svd']
         Uh, V = U.conj().T, Vh.conj().T
-        Gvv = (Uh @ J @ V)[s_v, s_v]
-        index1 = np.linalg.matrix_rank(Gvv) == Gvv.shape[1]
+        Gv = (Uh @ J @ V)[s_v]
+        Gvv = Gv[:, s_v]
+        tol = np.linalg.norm(Gv) * self.n * np.finfo(self.y.dtype).eps
+        index1 = np.linalg.matrix_rank(Gvv, tol=tol) == Gvv.shape[1]
         if not index1:
             raise ValueError(
                 "The index of the DAE seems to be larger than 1."
-- 
2.43.0


From 36380719f4caacad47fa8ec0ed98cfa8823d9406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:33 +0000
Subject: [PATCH 30/31] fix: ESDIRK methods could leave a last step of rounding
 size, which fails for DAEs with full M

---
 extensisq/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extensisq/common.py b/extensisq/common.py
index eb4a797..fff497c 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2228,6 +2228,10 @@ class ESDIRK(OdeSolver):
             # d <= h_abs: Don't step over t_bound or stop just below it.
             h_abs = d
             min_step = min(min_step, d)         # allow a tiny last step
+        elif d < h_abs + min_step:
+            # don't leave a tiny last step
+            h_abs = max(d/2, min_step)
+            self.standard_sc = True
 
         return h_abs, min_step
 
-- 
2.43.0


From bb2a306bc373e8d68194cf4fe8bafc9feb02043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:10 +0000
Subject: [PATCH 31/31] fix: sens_forward accepts a list or tuple of absolute
 tolerances

---
 extensisq/sensitivity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extensisq/sensitivity.py b/extensisq/sensitivity.py
index e4f683c..de38836 100644
--- a/extensisq/sensitivity.py
+++ b/extensisq/sensitivity.py
@@ -162,6 +162,7 @@ def sens_forward(fun, t_span, y0, jac, dfdp, dy0dp, p, atol=1e-6, rtol=1e-3,
     assert isinstance(rtol, float), 'rtol should be a float'
     assert isinstance(atol, float) or len(atol) == Ny, \
         '`atol` should be a float or a sequence of floats of length Ny'
+    atol = np.asarray(atol)
     total_atol = np.empty((Np+1)*Ny)
     total_atol[:Ny] = atol
     for i, _p in enumerate(p, start=1):
-- 
2.43.0

