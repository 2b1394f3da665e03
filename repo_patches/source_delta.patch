From 5000354234321ca7658c21cde9ab01bc8de89ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 01/45] fix: IntersectionProj no longer overwrites its input

---
 pyproximal/projection/Intersection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/projection/Intersection.py b/pyproximal/projection/Intersection.py
index bdd765d..86202d9 100644
--- a/pyproximal/projection/Intersection.py
+++ b/pyproximal/projection/Intersection.py
@@ -52,7 +52,7 @@ class IntersectionProj:
         self.tol = tol
 
     def __call__(self, x: NDArray) -> NDArray:
-        x = x.reshape(self.k, self.n)
+        x = x.reshape(self.k, self.n).copy()
         x12 = np.zeros((self.k, self.k, self.n))
         for _ in range(self.niter):
             xold = x.copy()
-- 
2.43.0


From 2ba24a33970edb3d6f91a6a49fea55506b814281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 02/45] fix: L2.prox no longer overwrites its input when q is
 given

---
 pyproximal/proximal/L2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index f38f53b..fa53e5f 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -265,7 +265,7 @@ class L2(ProxOperator):
             else:
                 y = x
                 if self.q is not None:
-                    y -= tau * self.alpha * self.q
+                    y = y - tau * self.alpha * self.q
                 x = regularized_inversion(
                     np.sqrt(tau * self.sigma) * self.Op,
                     np.sqrt(tau * self.sigma) * self.b,
@@ -290,7 +290,7 @@ class L2(ProxOperator):
         else:
             num = x
             if self.q is not None:
-                num -= tau * self.alpha * self.q
+                num = num - tau * self.alpha * self.q
             x = num / (1.0 + tau * self.sigma)
         return x
 
-- 
2.43.0


From f1560aa54c7d0c232a269e337d0cdef759fddd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 03/45] fix: Orthogonal evaluation no longer overwrites the
 output of Q

---
 pyproximal/proximal/Orthogonal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Orthogonal.py b/pyproximal/proximal/Orthogonal.py
index b284d5c..29884eb 100644
--- a/pyproximal/proximal/Orthogonal.py
+++ b/pyproximal/proximal/Orthogonal.py
@@ -77,7 +77,7 @@ class Orthogonal(ProxOperator):
 
     def __call__(self, x: NDArray) -> bool | float | int:
         y = self.Q.matvec(x)
-        y += self.b
+        y = y + self.b
         f = self.f(y)
         return f
 
-- 
2.43.0


From df15ff730eef91472d1e9cbac6591e4f16a60e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 04/45] fix: parallel Dykstra no longer normalizes the weights
 of the caller in place

---
 pyproximal/proximal/_Dykstra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/_Dykstra.py b/pyproximal/proximal/_Dykstra.py
index 3596435..683b030 100644
--- a/pyproximal/proximal/_Dykstra.py
+++ b/pyproximal/proximal/_Dykstra.py
@@ -104,7 +104,7 @@ def parallel_dykstra_prox(
     m = len(prox_ops)
     z = ncp.stack([x0.copy() for _ in range(m)])
     w = ncp.asarray(weights, dtype=float)
-    w /= w.sum()
+    w = w / w.sum()
 
     for _ in range(niter):
         x_old = x.copy()
-- 
2.43.0


From 754eae3c44511db254859dadc4458bf358bd771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 05/45] fix: PrimalDual no longer modifies the output of
 A.rmatvec in place

---
 pyproximal/optimization/primaldual.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index d98491b..7d113a3 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -180,13 +180,13 @@ def PrimalDual(
             y = proxg.proxdual(y + mu[iiter] * A.matvec(xhat), mu[iiter])
             ATy = A.rmatvec(y)
             if z is not None:
-                ATy += z
+                ATy = ATy + z
             x = proxf.prox(x - tau[iiter] * ATy, tau[iiter])
             xhat = x + theta * (x - xold)
         else:
             ATy = A.rmatvec(y)
             if z is not None:
-                ATy += z
+                ATy = ATy + z
             x = proxf.prox(x - tau[iiter] * ATy, tau[iiter])
             xhat = x + theta * (x - xold)
             y = proxg.proxdual(y + mu[iiter] * A.matvec(xhat), mu[iiter])
-- 
2.43.0


From 964ab2c17a129b1eda62d19f8e72d25c5092d8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 06/45] fix: AdaptivePrimalDual no longer modifies the output
 of A.rmatvec in place

---
 pyproximal/optimization/primaldual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index 7d113a3..f9e3d65 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -360,7 +360,7 @@ def AdaptivePrimalDual(
 
         # proxf
         if z is not None:
-            ATy += z
+            ATy = ATy + z
         x = proxf.prox(x - tau * ATy, tau)
         Ax = A.matvec(x)
         Axhat = 2 * Ax - Axold
-- 
2.43.0


From dd8bd06357c32a2e2118385d22b88f8d0cc97406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 07/45] fix: primal residual of AdaptivePrimalDual with z

---
 pyproximal/optimization/primaldual.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index f9e3d65..1a43ffa 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -370,12 +370,7 @@ def AdaptivePrimalDual(
         ATy = A.rmatvec(y)
 
         # update steps
-        if z is not None:
-            p = float(
-                np.linalg.norm((xold - x) / tau - (ATyold - ATy) - A.rmatvec(z) + z)
-            )
-        else:
-            p = float(np.linalg.norm((xold - x) / tau - (ATyold - ATy)))
+        p = float(np.linalg.norm((xold - x) / tau - (ATyold - ATy)))
         d = float(np.linalg.norm((yold - y) / mu - (Axold - Ax)))
 
         if p > s * d * delta:
-- 
2.43.0


From bc58c355689224cf81ddb61e44bf544fc40fcee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 08/45] fix: gradtest_bilinear no longer perturbs Op.x and Op.y

---
 pyproximal/utils/gradtest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/utils/gradtest.py b/pyproximal/utils/gradtest.py
index 96ec9c7..9ae2d93 100644
--- a/pyproximal/utils/gradtest.py
+++ b/pyproximal/utils/gradtest.py
@@ -202,7 +202,7 @@ def gradtest_bilinear(
     ny = Op.sizey
 
     # extract x and y from Op
-    x, y = Op.x.ravel(), Op.y.ravel()
+    x, y = Op.x.ravel().copy(), Op.y.ravel().copy()
 
     # compute function at x and y
     f = Op(x, y)
-- 
2.43.0


From 62bba0ef9909dd4cc905e20bfc1b96b3b7d2187e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 09/45] fix: gradtest_proximal no longer perturbs the input
 vector in place

---
 pyproximal/utils/gradtest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyproximal/utils/gradtest.py b/pyproximal/utils/gradtest.py
index 9ae2d93..f8a2c76 100644
--- a/pyproximal/utils/gradtest.py
+++ b/pyproximal/utils/gradtest.py
@@ -84,6 +84,8 @@ def gradtest_proximal(
         x = ncp.random.normal(0.0, 1.0, n).astype(dtype)
         if complexflag:
             x = x + 1j * ncp.random.normal(0.0, 1.0, n).astype(dtype)
+    else:
+        x = x.copy()
 
     # compute function
     f = Op(x)
-- 
2.43.0


From 886b01303438445ee336140ca539de0dda26f07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 10/45] fix: HalfSpaceProj returns a new array for feasible
 points

---
 pyproximal/projection/HalfSpace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/projection/HalfSpace.py b/pyproximal/projection/HalfSpace.py
index dc38df8..40c7d29 100644
--- a/pyproximal/projection/HalfSpace.py
+++ b/pyproximal/projection/HalfSpace.py
@@ -46,7 +46,7 @@ class HalfSpaceProj:
     def __call__(self, x: NDArray) -> NDArray:
         w_x = np.dot(self.w, x)
         if w_x <= self.b:
-            return x
+            return x.copy()
 
         factor = (w_x - self.b) / self.w_norm_sq
         x_proj = x - factor * self.w
-- 
2.43.0


From c3d6cc3544d725dba50ffbbe367661bff3c9a875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 11/45] fix: QuadraticEnvelopeCardIndicator.prox returns a new
 array

---
 pyproximal/proximal/QuadraticEnvelope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index a07ee16..0027faf 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -191,7 +191,7 @@ class QuadraticEnvelopeCardIndicator(ProxOperator):
         if rho <= 1:
             return _hardthreshold(y, tau)
         if y.size <= self.r0:
-            return y
+            return y.copy()
 
         r = np.abs(y)
         theta = np.sign(y)
-- 
2.43.0


From da0db4d90b1e9287bc81d8bd4970f051daf60e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 12/45] fix: L2 keeps its own copy of the warm start

---
 pyproximal/proximal/L2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index fa53e5f..34a9fd7 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -281,7 +281,7 @@ class L2(ProxOperator):
                     **self.kwargs_solver,
                 )[0].ravel()
             if self.warm:
-                self.x0 = x
+                self.x0 = x.copy()
         elif self.b is not None:
             num = x + tau * self.sigma * self.b
             if self.q is not None:
-- 
2.43.0


From 434247f7411608262254d0acaa268fa96b26f632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 13/45] fix: Nonlinear keeps its own copy of the warm start

---
 pyproximal/proximal/Nonlinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Nonlinear.py b/pyproximal/proximal/Nonlinear.py
index 291a51c..9a240b0 100644
--- a/pyproximal/proximal/Nonlinear.py
+++ b/pyproximal/proximal/Nonlinear.py
@@ -100,5 +100,5 @@ class Nonlinear(ABC, ProxOperator):
         self.tau = tau
         x = self.optimize()
         if self.warm:
-            self.x0 = x
+            self.x0 = x.copy()
         return x
-- 
2.43.0


From 54f28b06517fc065d871cca6e852033ea052e0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 14/45] fix: Quadratic keeps its own copy of the warm start

---
 pyproximal/proximal/Quadratic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Quadratic.py b/pyproximal/proximal/Quadratic.py
index 07ce21d..55762cc 100644
--- a/pyproximal/proximal/Quadratic.py
+++ b/pyproximal/proximal/Quadratic.py
@@ -111,7 +111,7 @@ class Quadratic(ProxOperator):
                 Op1 = Identity(self.Op.shape[0], dtype=self.Op.dtype) + tau * self.Op
                 x = lsqr(Op1, y, iter_lim=self.niter, x0=self.x0)[0]
             if self.warm:
-                self.x0 = x
+                self.x0 = x.copy()
         elif self.b is not None:
             x = x - tau * self.b
         return x
-- 
2.43.0


From 9c9d52da42e4622f94f61174fc34829677f2d3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 15/45] fix: Quadratic.prox and grad return new arrays

---
 pyproximal/proximal/Quadratic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/Quadratic.py b/pyproximal/proximal/Quadratic.py
index 55762cc..205e7a7 100644
--- a/pyproximal/proximal/Quadratic.py
+++ b/pyproximal/proximal/Quadratic.py
@@ -114,6 +114,8 @@ class Quadratic(ProxOperator):
                 self.x0 = x.copy()
         elif self.b is not None:
             x = x - tau * self.b
+        else:
+            x = x.copy()
         return x
 
     def grad(self, x: NDArray) -> NDArray:
@@ -133,7 +135,7 @@ class Quadratic(ProxOperator):
         if self.Op is not None and self.b is not None:
             g = self.Op.matvec(x) + self.b
         elif self.b is not None:
-            g = self.b
+            g = self.b.copy()
         else:
-            g = 0.0
+            g = np.zeros_like(x)
         return g
-- 
2.43.0


From ace86906f185c851fd38178c2d995759e427b552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 16/45] fix: prox calls rejected for a non-positive tau no
 longer advance the call counter

---
 pyproximal/proximal/L0.py        | 6 +++---
 pyproximal/proximal/L1.py        | 2 +-
 pyproximal/proximal/L2.py        | 2 +-
 pyproximal/proximal/RelaxedMS.py | 2 +-
 pyproximal/proximal/TV.py        | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyproximal/proximal/L0.py b/pyproximal/proximal/L0.py
index 95668e8..95051e3 100644
--- a/pyproximal/proximal/L0.py
+++ b/pyproximal/proximal/L0.py
@@ -103,8 +103,8 @@ class L0(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         sigma = _current_sigma(self.sigma, self.count)
         x = _hardthreshold(x, tau * sigma)
@@ -155,8 +155,8 @@ class L0Ball(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         radius = _current_radius(self.radius, self.count)
         self.ball.radius = radius
@@ -217,8 +217,8 @@ class L10Ball(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         x = x.reshape(self.ndim, len(x) // self.ndim)
         radius = _current_radius(self.radius, self.count)
diff --git a/pyproximal/proximal/L1.py b/pyproximal/proximal/L1.py
index 42129ae..6dd3bf7 100644
--- a/pyproximal/proximal/L1.py
+++ b/pyproximal/proximal/L1.py
@@ -134,8 +134,8 @@ class L1(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         sigma = _current_sigma(self.sigma, self.count)
         if self.g is None:
diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index 34a9fd7..cfd1acf 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -211,8 +211,8 @@ class L2(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         # define current number of iterations
         if isinstance(self.niter, int):
diff --git a/pyproximal/proximal/RelaxedMS.py b/pyproximal/proximal/RelaxedMS.py
index a679a52..a583742 100644
--- a/pyproximal/proximal/RelaxedMS.py
+++ b/pyproximal/proximal/RelaxedMS.py
@@ -93,8 +93,8 @@ class RelaxedMumfordShah(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         sigma = _current_sigma(self.sigma, self.count)
         kappa = _current_sigma(self.kappa, self.count)
diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index 2fd6035..8d3ad75 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -83,8 +83,8 @@ class TV(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         # define current number of iterations
         if isinstance(self.niter, int):
-- 
2.43.0


From 95dd7c854a2bf18d935aab4cc60a3d9d56c9e6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 17/45] fix: tau can be passed by keyword to prox and proxdual

---
 pyproximal/ProxOperator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyproximal/ProxOperator.py b/pyproximal/ProxOperator.py
index f32d07c..33a3ed7 100644
--- a/pyproximal/ProxOperator.py
+++ b/pyproximal/ProxOperator.py
@@ -19,7 +19,8 @@ def _check_tau(func: Callable[..., NDArray]) -> Callable[..., NDArray]:
     """
 
     def wrapper(*args: Any, **kwargs: Any) -> Any:
-        if np.any(args[2] <= 0):
+        tau = kwargs["tau"] if "tau" in kwargs else args[2]
+        if np.any(tau <= 0):
             msg = "tau must be positive"
             raise ValueError(msg)
         return func(*args, **kwargs)
-- 
2.43.0


From fcabdfcec96d5153f2cfb186d3d7144942ee991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 18/45] fix: L1.proxdual follows the sigma schedule

---
 pyproximal/proximal/L1.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyproximal/proximal/L1.py b/pyproximal/proximal/L1.py
index 6dd3bf7..52e6eeb 100644
--- a/pyproximal/proximal/L1.py
+++ b/pyproximal/proximal/L1.py
@@ -115,8 +115,6 @@ class L1(ProxOperator):
         self.gdual = 0 if g is None else g
         if not callable(sigma):
             self.box = BoxProj(-sigma, sigma)
-        else:
-            self.box = BoxProj(-sigma(0), sigma(0))
         self.count = 0
 
     def __call__(self, x: NDArray) -> float:
@@ -147,7 +145,7 @@ class L1(ProxOperator):
 
     @_check_tau
     def proxdual(self, x: NDArray, tau: float) -> NDArray:
-        if not isinstance(self.gdual, np.ndarray):
+        if not isinstance(self.gdual, np.ndarray) and not callable(self.sigma):
             x = self.box(x)
         else:
             x = self._proxdual_moreau(x, tau)
-- 
2.43.0


From 1b74918f018d566d88bcd9bb3da8730df4b167ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:59 +0000
Subject: [PATCH 19/45] fix: the safeguard of AndersonProximalGradient no
 longer depends on tol and show

---
 pyproximal/optimization/primal.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index fad1fe7..a80ebee 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -632,7 +632,7 @@ def AndersonProximalGradient(
             r,
         ],
     )
-    pf = proxf(x)
+    fsafe = proxf(x)
     pfg = np.inf
     tolbreak = False
 
@@ -671,13 +671,15 @@ def AndersonProximalGradient(
             xtest = proxg.prox(ytest, epsg[iiter] * tau)
 
             # check if function is decreased, otherwise do basic PG step
-            pfold, pf = pf, proxf(xtest)
-            if pf <= pfold - tau * np.linalg.norm(proxf.grad(x)) ** 2 / 2:
+            ftest = proxf(xtest)
+            if ftest <= fsafe - tau * np.linalg.norm(proxf.grad(x)) ** 2 / 2:
                 y = ytest
                 x = xtest
+                fsafe = ftest
             else:
                 x = proxg.prox(g, epsg[iiter] * tau)
                 y = g
+                fsafe = proxf(x)
 
         # run callback
         if callback is not None:
-- 
2.43.0


From d3e3740ffaf8762afebe7e0269318a415361c2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:59 +0000
Subject: [PATCH 20/45] fix: PPXA and ConsensusADMM accept tol=None

---
 pyproximal/optimization/primal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index a80ebee..dc72e6a 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1963,7 +1963,7 @@ def PPXA(  # pylint: disable=invalid-name
                 print(f"{iiter + 1:6d}  {ncp.real(to_numpy(x[0])):12.5e}  {pf:10.3e}")
 
         # break if tolerance condition is met
-        if ncp.abs(x - x_old).max() < tol:
+        if tol is not None and ncp.abs(x - x_old).max() < tol:
             break
 
         x_old = x
@@ -2097,7 +2097,7 @@ def ConsensusADMM(  # pylint: disable=invalid-name
                 )
 
         # break if tolerance condition is met
-        if ncp.abs(x_bar - x_bar_old).max() < tol:
+        if tol is not None and ncp.abs(x_bar - x_bar_old).max() < tol:
             break
 
         x_bar_old = x_bar
-- 
2.43.0


From 43b5b0884322450d79910c3974142a248557dbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:59 +0000
Subject: [PATCH 21/45] fix: backtracking of PALM over y uses the proximal
 operator of y

---
 pyproximal/optimization/palm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index a8bca32..5dcf38c 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -188,7 +188,7 @@ def PALM(
                 y = proxg.prox(y, 1.0 / dk)
         else:
             y, taug = _backtracking(
-                [x, y], taug, H, proxf, 1, beta=beta, niterback=niterback
+                [x, y], taug, H, proxg, 1, beta=beta, niterback=niterback
             )
         # update y parameter in H function
         H.updatey(y.copy())
-- 
2.43.0


From 0ef1f9b5441d191a2d6680058863cdbc76fb9733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:59 +0000
Subject: [PATCH 22/45] fix: backtracking of iPALM over y

---
 pyproximal/optimization/palm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index 5dcf38c..93a7352 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -339,7 +339,7 @@ def iPALM(
     if gammaf is None:
         tauf = 1.0
         ck = 0.0
-    if gammaf is None:
+    if gammag is None:
         taug = 1.0
         dk = 0.0
 
@@ -373,7 +373,7 @@ def iPALM(
         else:
             yold = y.copy()
             y, taug = _backtracking(
-                [x, y], taug, H, proxf, 1, beta=beta, niterback=niterback
+                [x, z], taug, H, proxg, 1, beta=beta, niterback=niterback
             )
         # update y parameter in H function
         H.updatey(y.copy())
-- 
2.43.0


From 96f113f8adbd1592be592fcf18fdd59a6b956313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 23/45] fix: accept weights of GeneralizedProximalGradient
 summing to one up to rounding

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index dc72e6a..a77a2d6 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -807,7 +807,7 @@ def GeneralizedProximalGradient(
     # check if weights sum to 1
     if weights is None:
         weights = np.ones(len(proxgs)) / len(proxgs)
-    if len(weights) != len(proxgs) or np.sum(weights) != 1.0:
+    if len(weights) != len(proxgs) or not np.isclose(np.sum(weights), 1.0):
         msg = f"omega={weights} must be an array of size {len(proxgs)} summing to 1"
         raise ValueError(msg)
 
-- 
2.43.0


From 84537c2e792e7e6e11154ea00830e6919539d602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 24/45] fix: gradtest_proximal does not perturb the imaginary
 part of a real vector

---
 pyproximal/utils/gradtest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/utils/gradtest.py b/pyproximal/utils/gradtest.py
index f8a2c76..20e3900 100644
--- a/pyproximal/utils/gradtest.py
+++ b/pyproximal/utils/gradtest.py
@@ -95,7 +95,7 @@ def gradtest_proximal(
 
     # choose location of perturbation, whether to act on x or y and on real or imag part
     iqx = np.random.randint(0, n)
-    r_or_i = np.random.randint(0, 2)
+    r_or_i = np.random.randint(0, 2) if ncp.iscomplexobj(x) else 0
 
     delta1: float | complex = delta
     if r_or_i != 0:
-- 
2.43.0


From 55203d033d0f38805e50d7560b6ff12909379dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 25/45] fix: relative tolerance of gradtest_proximal and
 gradtest_bilinear

---
 pyproximal/utils/gradtest.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyproximal/utils/gradtest.py b/pyproximal/utils/gradtest.py
index 20e3900..b2b9c24 100644
--- a/pyproximal/utils/gradtest.py
+++ b/pyproximal/utils/gradtest.py
@@ -110,8 +110,9 @@ def gradtest_proximal(
 
     # evaluate if gradient test passed
     grad_delta = (fdelta - f) / ncp.abs(delta)
-    grad_diff = grad_delta - (grad.real if r_or_i == 0 else grad.imag)
-    passed = bool(ncp.isclose(grad_diff, 0, rtol, atol))
+    passed = bool(
+        ncp.isclose(grad_delta, grad.real if r_or_i == 0 else grad.imag, rtol, atol)
+    )
 
     # verbosity or error raising
     if (not passed and raiseerror) or verb:
@@ -238,10 +239,14 @@ def gradtest_bilinear(
 
     # evaluate if gradient test passed
     grad_delta = (fdelta - f) / ncp.abs(delta)
-    grad_diff = grad_delta - (
-        grad.real if not complexflag or r_or_i == 0 else grad.imag
+    passed = bool(
+        ncp.isclose(
+            grad_delta,
+            grad.real if not complexflag or r_or_i == 0 else grad.imag,
+            rtol,
+            atol,
+        )
     )
-    passed = bool(ncp.isclose(grad_diff, 0, rtol, atol))
 
     # verbosity or error raising
     if (not passed and raiseerror) or verb:
-- 
2.43.0


From ca97e08947d92e3d9f363d36241b2750e169f394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 26/45] fix: TV.prox monitored an objective with the factor
 sigma applied twice

---
 pyproximal/proximal/TV.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index 8d3ad75..a789e22 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -299,7 +299,7 @@ class TV(ProxOperator):
             sol = x - gamma * div
 
             #  Objective function value
-            obj = 0.5 * np.power(np.linalg.norm(x[:] - sol[:]), 2) + gamma * np.sum(
+            obj = 0.5 * np.power(np.linalg.norm(x[:] - sol[:]), 2) + tau * np.sum(
                 self.__call__(sol), axis=0
             )
             if obj > 1e-10:
-- 
2.43.0


From d55a8b6668e4466e2f34916a4cddda423879d05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 27/45] fix: QuadraticEnvelopeCardIndicator.prox thresholded at
 sqrt(2 tau) for tau>=1

---
 pyproximal/proximal/QuadraticEnvelope.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index 0027faf..9241e1a 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -1,5 +1,4 @@
 import numpy as np
-from pylops.optimization.cls_sparsity import _hardthreshold
 from pylops.utils.typing import IntNDArray, NDArray, ShapeLike
 
 from pyproximal.ProxOperator import ProxOperator, _check_tau
@@ -189,7 +188,10 @@ class QuadraticEnvelopeCardIndicator(ProxOperator):
     def prox(self, y: NDArray, tau: float) -> NDArray:
         rho = 1 / tau
         if rho <= 1:
-            return _hardthreshold(y, tau)
+            # keep the r0 largest entries
+            x = y.copy()
+            x[np.argsort(-np.abs(y), kind="quicksort")[self.r0 :]] = 0
+            return x
         if y.size <= self.r0:
             return y.copy()
 
-- 
2.43.0


From 645c5debcf7e3596926104e59117b808a2fb8d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 28/45] fix: AdaptivePrimalDual extrapolated its first dual
 step from 0 instead of A x0

---
 pyproximal/optimization/primaldual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index 1a43ffa..f48ccf8 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -342,7 +342,7 @@ def AdaptivePrimalDual(
     # initialization
     x = x0.copy()
     y = np.zeros(A.shape[0], dtype=x.dtype)
-    Ax = np.zeros(A.shape[0], dtype=x.dtype)
+    Ax = A.matvec(x)
     ATy = np.zeros(A.shape[1], dtype=x.dtype)
     taus = np.zeros(niter + 1)
     mus = np.zeros(niter + 1)
-- 
2.43.0


From 3111afc012d5906ff8eedda293a189315d27d5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:06 +0000
Subject: [PATCH 29/45] fix: PPXA averaged its starting points without the
 weights and so minimised another sum

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index a77a2d6..a044598 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1942,7 +1942,7 @@ def PPXA(  # pylint: disable=invalid-name
     else:
         y = ncp.full((m, x0.size), x0)  # y1_0 = y2_0 = ... = ym_0 = x0
 
-    x = ncp.mean(y, axis=0)
+    x = ncp.sum(w[:, None] * y, axis=0)  # x_0 = sum_i w_i yi_0
     x_old = x.copy()
 
     # iterate
-- 
2.43.0


From 09bcc4018a72d15c855f7c4457ae58dc03620106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:38 +0000
Subject: [PATCH 30/45] fix: ProximalGradient ignored the acceleration, and
 stepped twice with backtracking, when eta is not 1

---
 pyproximal/optimization/primal.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index a044598..a079a1b 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -379,17 +379,15 @@ def ProximalGradient(
             if eta == 1.0:
                 x = proxg.prox(y - tau * proxf.grad(y), epsg[iiter] * tau)
             else:
-                x = x + eta * (
-                    proxg.prox(x - tau * proxf.grad(x), epsg[iiter] * tau) - x
+                x = y + eta * (
+                    proxg.prox(y - tau * proxf.grad(y), epsg[iiter] * tau) - y
                 )
         else:
             x, tau = _backtracking(
                 y, tau, proxf, proxg, epsg[iiter], beta=beta, niterback=niterback
             )
             if eta != 1.0:
-                x = x + eta * (
-                    proxg.prox(x - tau * proxf.grad(x), epsg[iiter] * tau) - x
-                )
+                x = y + eta * (x - y)
 
         # update internal parameters for bilinear operator
         if isinstance(proxf, BilinearOperator):
-- 
2.43.0


From bc9e991f41ef2b7b2a0fe701e6ea1cdceef70513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:58 +0000
Subject: [PATCH 31/45] fix: ProximalGradient left the bilinear operator a view
 of the returned iterate

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index a079a1b..3006a3e 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -391,7 +391,7 @@ def ProximalGradient(
 
         # update internal parameters for bilinear operator
         if isinstance(proxf, BilinearOperator):
-            proxf.updatexy(x)
+            proxf.updatexy(x.copy())
 
         # update y
         if acceleration == "vandenberghe":
-- 
2.43.0


From 3dfbbe1c469d4d254d866132fc9ac71fc2256b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:41 +0000
Subject: [PATCH 32/45] fix: value of f + v was complex for complex signals
 while prox and grad use the real inner product

---
 pyproximal/ProxOperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/ProxOperator.py b/pyproximal/ProxOperator.py
index 33a3ed7..3a284b3 100644
--- a/pyproximal/ProxOperator.py
+++ b/pyproximal/ProxOperator.py
@@ -345,7 +345,7 @@ class _SumOperator(ProxOperator):
         super().__init__(None, f.hasgrad)
 
     def __call__(self, x: NDArray) -> float:
-        f: float = self.f(x) + np.dot(self.v, x)
+        f: float = self.f(x) + np.real(np.vdot(self.v, x))
         return f
 
     @_check_tau
-- 
2.43.0


From e5fb0efcc2b49dcf761e143de8a16d0f7d689b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:41 +0000
Subject: [PATCH 33/45] fix: value of the linear term of L2 failed for complex
 signals

---
 pyproximal/proximal/L2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index cfd1acf..96f3343 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -199,7 +199,7 @@ class L2(ProxOperator):
         else:
             f = (self.sigma / 2.0) * (np.linalg.norm(x) ** 2)
         if self.q is not None:
-            f += self.alpha * np.dot(self.q, x)
+            f += self.alpha * np.real(np.vdot(self.q, x))
         return float(f)
 
     def _increment_count(func: Callable[..., Any]) -> Callable[..., Any]:
-- 
2.43.0


From dd122518913eb18f5d8f4a1c92fe6c6dab77ce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:41 +0000
Subject: [PATCH 34/45] fix: value of Quadratic failed for complex signals

---
 pyproximal/proximal/Quadratic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/Quadratic.py b/pyproximal/proximal/Quadratic.py
index 205e7a7..b5128a0 100644
--- a/pyproximal/proximal/Quadratic.py
+++ b/pyproximal/proximal/Quadratic.py
@@ -93,9 +93,9 @@ class Quadratic(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         if self.Op is not None and self.b is not None:
-            f = np.dot(x, self.Op * x) / 2.0 + np.dot(self.b, x) + self.c
+            f = np.real(np.vdot(x, self.Op * x) / 2.0 + np.vdot(self.b, x)) + self.c
         elif self.b is not None:
-            f = np.dot(self.b, x) + self.c
+            f = np.real(np.vdot(self.b, x)) + self.c
         else:
             f = self.c
         return float(f)
-- 
2.43.0


From 387cc95934fe06faa8c7146f508e3b143d95807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:41 +0000
Subject: [PATCH 35/45] fix: backtracking of the proximal gradient solvers used
 a complex majorizer for complex signals

---
 pyproximal/optimization/primal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 3006a3e..a72469e 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -37,7 +37,9 @@ def _backtracking(
     def ftilde(x: NDArray, y: NDArray, f: ProxOperator, tau: float) -> float:
         xy = x - y
         return float(
-            f(y) + np.dot(f.grad(y), xy) + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
+            f(y)
+            + np.real(np.vdot(f.grad(y), xy))
+            + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
         )
 
     iiterback = 0
-- 
2.43.0


From 20f36177c0f4c590099ac09a7323c60e43dff8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:41 +0000
Subject: [PATCH 36/45] fix: backtracking of PALM and iPALM used a complex
 majorizer for complex signals

---
 pyproximal/optimization/palm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index 93a7352..37b6ae9 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -35,7 +35,9 @@ def _backtracking(
     ) -> float:
         xy = x - y[ix]
         return float(
-            f(*y) + np.dot(g, xy) + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
+            f(*y)
+            + np.real(np.vdot(g, xy))
+            + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
         )
 
     iiterback = 0
-- 
2.43.0


From 15aeff18e15a0585a40481fc8c1ff7fef0cc4924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:41 +0000
Subject: [PATCH 37/45] fix: L21 squared complex signals instead of their
 moduli

---
 pyproximal/proximal/L21.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/L21.py b/pyproximal/proximal/L21.py
index bf59462..5cf2f17 100644
--- a/pyproximal/proximal/L21.py
+++ b/pyproximal/proximal/L21.py
@@ -65,13 +65,13 @@ class L21(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         x = x.reshape(self.ndim, len(x) // self.ndim)
-        f = self.sigma * np.sum(np.sqrt(np.sum(x**2, axis=0)))
+        f = self.sigma * np.sum(np.sqrt(np.sum(np.abs(x) ** 2, axis=0)))
         return float(f)
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         x = x.reshape(self.ndim, len(x) // self.ndim)
-        aux = np.sqrt(np.sum(x**2, axis=0))
+        aux = np.sqrt(np.sum(np.abs(x) ** 2, axis=0))
         aux = np.vstack([aux] * self.ndim).ravel()
         x = (1 - (tau * self.sigma) / np.maximum(aux, tau * self.sigma)) * x.ravel()
         return x
@@ -79,7 +79,7 @@ class L21(ProxOperator):
     @_check_tau
     def proxdual(self, x: NDArray, tau: float) -> NDArray:
         x = x.reshape(self.ndim, len(x) // self.ndim)
-        aux = np.sqrt(np.sum(x**2, axis=0))
+        aux = np.sqrt(np.sum(np.abs(x) ** 2, axis=0))
         aux = np.vstack([aux] * self.ndim).ravel()
         x = self.sigma * x.ravel() / np.maximum(aux, self.sigma)
         return x
-- 
2.43.0


From deca9d27cbc0d525aded244432d85f3681adeb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:41 +0000
Subject: [PATCH 38/45] fix: value of L21_plus_L1 squared complex signals
 instead of their moduli

---
 pyproximal/proximal/L21_plus_L1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/L21_plus_L1.py b/pyproximal/proximal/L21_plus_L1.py
index 10dcbd4..1277161 100644
--- a/pyproximal/proximal/L21_plus_L1.py
+++ b/pyproximal/proximal/L21_plus_L1.py
@@ -38,7 +38,7 @@ class L21_plus_L1(ProxOperator):
     def __call__(self, x: NDArray) -> float:
         return float(
             self.rho * self.sigma * np.sum(np.abs(x))
-            + (1 - self.rho) * self.sigma * np.sum(np.sqrt(np.sum(x**2, axis=0)))
+            + (1 - self.rho) * self.sigma * np.sum(np.sqrt(np.sum(np.abs(x) ** 2, axis=0)))
         )
 
     @_check_tau
-- 
2.43.0


From ec3c1abd4857ffa5d76e583ac5f3573e29afe1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:41 +0000
Subject: [PATCH 39/45] fix: value of Nuclear used the transpose of complex
 matrices

---
 pyproximal/proximal/Nuclear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Nuclear.py b/pyproximal/proximal/Nuclear.py
index 149c5c0..7e86f64 100644
--- a/pyproximal/proximal/Nuclear.py
+++ b/pyproximal/proximal/Nuclear.py
@@ -62,7 +62,7 @@ class Nuclear(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         X = x.reshape(self.dim)
-        eigs = np.linalg.eigvalsh(X.T @ X)
+        eigs = np.linalg.eigvalsh(X.conj().T @ X)
         eigs[eigs < 0] = 0  # ensure all eigenvalues at positive
         return float(np.sum(np.flip(self.sigma) * np.sqrt(eigs)))
 
-- 
2.43.0


From 730eb8a8179f20c316ce07a8a8531a1bb0ed00ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:41 +0000
Subject: [PATCH 40/45] fix: value of SingularValuePenalty used the transpose
 of complex matrices

---
 pyproximal/proximal/SingularValuePenalty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/SingularValuePenalty.py b/pyproximal/proximal/SingularValuePenalty.py
index 9019327..edd22d0 100644
--- a/pyproximal/proximal/SingularValuePenalty.py
+++ b/pyproximal/proximal/SingularValuePenalty.py
@@ -47,7 +47,7 @@ class SingularValuePenalty(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         X = x.reshape(self.dim)
-        eigs = np.linalg.eigvalsh(X.T @ X)
+        eigs = np.linalg.eigvalsh(X.conj().T @ X)
         eigs[eigs < 0] = 0  # ensure all eigenvalues at positive
         return float(np.sum(self.penalty(np.sqrt(eigs))))
 
-- 
2.43.0


From 5d2e616b9b687a61a9c699c5bd6d396178569714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:41 +0000
Subject: [PATCH 41/45] fix: value of QuadraticEnvelopeRankL2 used the
 transpose of complex matrices

---
 pyproximal/proximal/QuadraticEnvelope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index 9241e1a..fa4d627 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -284,7 +284,7 @@ class QuadraticEnvelopeRankL2(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         X = x.reshape(self.dim)
-        eigs = np.linalg.eigvalsh(X.T @ X)
+        eigs = np.linalg.eigvalsh(X.conj().T @ X)
         eigs[eigs < 0] = 0  # ensure all eigenvalues at positive
         return float(
             np.sum(self.penalty(np.sqrt(eigs)))
-- 
2.43.0


From 36154f684bf43d2c9f205f4e84e489531f66a87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:41 +0000
Subject: [PATCH 42/45] fix: dual prox of L1 clipped complex signals to a real
 box

---
 pyproximal/proximal/L1.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyproximal/proximal/L1.py b/pyproximal/proximal/L1.py
index 52e6eeb..2188b18 100644
--- a/pyproximal/proximal/L1.py
+++ b/pyproximal/proximal/L1.py
@@ -145,7 +145,11 @@ class L1(ProxOperator):
 
     @_check_tau
     def proxdual(self, x: NDArray, tau: float) -> NDArray:
-        if not isinstance(self.gdual, np.ndarray) and not callable(self.sigma):
+        if (
+            not isinstance(self.gdual, np.ndarray)
+            and not callable(self.sigma)
+            and not np.iscomplexobj(x)
+        ):
             x = self.box(x)
         else:
             x = self._proxdual_moreau(x, tau)
-- 
2.43.0


From 017036f3bd160ea5222466e2727506d29e618979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:41 +0000
Subject: [PATCH 43/45] fix: Anderson acceleration did not conjugate complex
 residuals

---
 pyproximal/optimization/primal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index a72469e..2fd3d46 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -651,7 +651,9 @@ def AndersonProximalGradient(
 
         # solve for alpha coefficients
         Rstack = np.vstack(R)
-        Rinv = np.linalg.pinv(Rstack @ Rstack.T + epsr * np.linalg.norm(Rstack) ** 2)
+        Rinv = np.linalg.pinv(
+            Rstack.conj() @ Rstack.T + epsr * np.linalg.norm(Rstack) ** 2
+        )
         ones = np.ones(min(nhistory, iiter + 2))
         Rinvones = Rinv @ ones
         alpha = Rinvones / (ones[None] @ Rinvones)
-- 
2.43.0


From 06ce6106e6dfd42ad2697e14a11a815bfb21e6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:41 +0000
Subject: [PATCH 44/45] fix: prox of Log1 added delta to complex signals
 instead of to their moduli

---
 pyproximal/proximal/Log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Log.py b/pyproximal/proximal/Log.py
index 5a9d10b..8b4a3c4 100644
--- a/pyproximal/proximal/Log.py
+++ b/pyproximal/proximal/Log.py
@@ -172,7 +172,7 @@ class Log1(ProxOperator):
                     np.abs(x[np.abs(x) > thresh])
                     - self.delta
                     + np.sqrt(
-                        np.abs(x[np.abs(x) > thresh] + self.delta) ** 2 - 2 * tau1
+                        (np.abs(x[np.abs(x) > thresh]) + self.delta) ** 2 - 2 * tau1
                     )
                 )
             )
-- 
2.43.0


From f4d32d42b31d5a33d611efaf6b90c79900283b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:24 +0000
Subject: [PATCH 45/45] fix: projection onto Hankel matrices failed for complex
 matrices

---
 pyproximal/projection/Hankel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyproximal/projection/Hankel.py b/pyproximal/projection/Hankel.py
index 1d131d8..e3230d9 100644
--- a/pyproximal/projection/Hankel.py
+++ b/pyproximal/projection/Hankel.py
@@ -23,7 +23,11 @@ class HankelProj:
     def __call__(self, X: NDArray) -> NDArray:
         m, n = X.shape
         ind = hankel(np.arange(m, dtype=np.int32), m - 1 + np.arange(n, dtype=np.int32))
-        mean_values = np.bincount(ind.ravel(), weights=X.ravel()) / np.bincount(
+        mean_values = np.bincount(ind.ravel(), weights=X.real.ravel()) / np.bincount(
             ind.ravel()
         )
+        if np.iscomplexobj(X):
+            mean_values = mean_values + 1j * np.bincount(
+                ind.ravel(), weights=X.imag.ravel()
+            ) / np.bincount(ind.ravel())
         return mean_values[ind]
-- 
2.43.0

