From 0bf5983c601a7b7582b1091bd45f62d163d348da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 01/20] fix: import the RBF kernel from the package's kernels
 directory

score_estimators has no kernels subpackage, so importing the package always failed.
---
 .../score_estimators/score_function_estimators_pytorch.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index fa4aed1..ff66856 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -8,7 +8,11 @@ Created on Wed Jan 19 01:15:07 2022
 import torch
 import numpy as np
 from typing import Union
-from .kernels.RBF_pytorch import RBF
+try:
+    from ..kernels.RBF_pytorch import RBF
+except ImportError:
+    ###this clause is for imports to work properly for the documendation
+    from kernels.RBF_pytorch import RBF
 
 __all__ = ["torched_score_function_multid_seperate_all_dims"]
 
-- 
2.43.0


From fc41e314826649e615d5228489295ec15c8d8b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 02/20] fix: do not require pytorch for importing the numpy
 estimators

pytorch is optional (it is not among the declared dependencies), but
score_estimators imported the pytorch estimators unconditionally.
---
 .../score_estimators/__init__.py                          | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/__init__.py b/DeterministicParticleFlowControl/score_estimators/__init__.py
index 0c8450b..7086550 100644
--- a/DeterministicParticleFlowControl/score_estimators/__init__.py
+++ b/DeterministicParticleFlowControl/score_estimators/__init__.py
@@ -3,4 +3,10 @@
 Module containing the logarithmic gradient estimators.
 """
 from .score_function_estimators import *  
-from .score_function_estimators_pytorch import *  
+try:
+    import torch
+except ImportError:
+    ### only the numpy estimators are available without pytorch
+    pass
+else:
+    from .score_function_estimators_pytorch import *  
-- 
2.43.0


From 05521927fa2ae1c8888420cddd3b56d666d022a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 03/20] fix: orient inducing points and score correctly in
 torched_DPFC.f_seperate_true

The inducing points were transposed and the score was not, so sampling with
brown_bridge=True failed with a shape mismatch.
---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index d33466e..19bdd20 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -983,14 +983,14 @@ class torched_DPFC(object):
 
 
         gpsi = torched_score_function_multid_seperate_all_dims(torch.t(x),
-                                                               torch.t(Sxx),
+                                                               Sxx,
                                                                func_out=False,
                                                                C=0.001,
                                                                l=lnthsc,
                                                                kern=self.kern,
                                                                device=self.device)
 
-        return self.f_true(x, t)-0.5* self.g**2* gpsi
+        return self.f_true(x, t)-0.5* self.g**2* torch.t(gpsi)
 
 
     ### effective forward drift - estimated seperatelly for each dimension
-- 
2.43.0


From 7fad5edc0b47b90758a6a96448379e86c2a936a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 04/20] fix: initialise every dimension in forward_sampling

Only the first two coordinates were set to y1: one-dimensional systems failed
and further coordinates started from 0.
---
 .../DeterministicParticleFlowControl.py                   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 19bdd20..292d2ac 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -239,8 +239,8 @@ class DPFC(object):
         for ti, tt in enumerate(self.timegrid):
 
             if ti == 0:
-                self.Z[0, :, 0] = self.y1[0]
-                self.Z[1, :, 0] = self.y1[1]
+                for di in range(self.dim):
+                    self.Z[di, :, 0] = self.y1[di]
             else:
                 for i in range(self.N):
                     #self.Z[:,i,:] = sdeint.itoint(self.f, self.g, self.Z[i,0], self.timegrid)[:,0]
@@ -911,8 +911,8 @@ class torched_DPFC(object):
         
         for ti, tt in enumerate(self.timegrid):
             if ti == 0:
-                self.Z[0, :, 0] = self.y1[0]
-                self.Z[1, :, 0] = self.y1[1]
+                for di in range(self.dim):
+                    self.Z[di, :, 0] = self.y1[di]
             else:
                 self.Z[:, :, ti] = self.Z[:, :, ti-1] + \
                                     self.dt*self.f(self.Z[:, :, ti-1], tt-self.dt)+\
-- 
2.43.0


From 637a394a015cd0b453da6766bf4ef8d40b527333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 05/20] fix: pass the time to f and U in forward_sampling

Drift and path constraint take (x, t); the stochastic sampler called them
without t (TypeError), and did not scale U with the time step as
forward_sampling_Otto does.
---
 .../DeterministicParticleFlowControl.py                     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 292d2ac..9d42a6d 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -245,13 +245,13 @@ class DPFC(object):
                 for i in range(self.N):
                     #self.Z[:,i,:] = sdeint.itoint(self.f, self.g, self.Z[i,0], self.timegrid)[:,0]
                     self.Z[:, i, ti] = (self.Z[:, i, ti-1] + \
-                                      self.dt* self.f(self.Z[:, i, ti-1]) + \
+                                      self.dt* self.f(self.Z[:, i, ti-1], tt-self.dt) + \
                                       (self.g)*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim,)))
 
                 ###WEIGHT
                 if self.reweight == True:
                     if ti > 0:
-                        W[:, 0] = np.exp(self.U(self.Z[:, :, ti]))
+                        W[:, 0] = np.exp(self.U(self.Z[:, :, ti], tt)*self.dt)
                         W = W/np.sum(W)
 
                         ###REWEIGHT
@@ -921,7 +921,7 @@ class torched_DPFC(object):
                 ###WEIGHT
                 if self.reweight == True:
                     if ti > 0:
-                        W[:, 0] = torch.exp(self.U(self.Z[:, :, ti]))
+                        W[:, 0] = torch.exp(self.U(self.Z[:, :, ti], tt)*self.dt)
                         W = W/torch.sum(W)
 
                         ###REWEIGHT with pot TO DO:
-- 
2.43.0


From d2284aa9ed2140220cf727c3bde043f28316d459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 06/20] fix: keep the sampled terminal forward density in
 DPFC.forward_sampling

Collapsing the last slice to y2 gave a zero kernel lengthscale in the first
backward step, and NaN in all backward trajectories.
---
 .../DeterministicParticleFlowControl.py                         | 2 --
 1 file changed, 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 9d42a6d..1ed4440 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -259,8 +259,6 @@ class DPFC(object):
 
                         self.Z[:, :, ti] = (self.Z[:, :, ti])@Tstar
 
-        for di in range(self.dim):
-            self.Z[di, :, -1] = self.y2[di]
         logging.info('Forward sampling done!')
         return 0
 
-- 
2.43.0


From 8d5b6713b8bacdc434dd1a82b23c34550fa846f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 07/20] fix: evaluate the Brownian bridge control at the given
 points

calculate_u clipped grid_x to bounds that mixed dimensions and minima/maxima
(IndexError for one dimension, shape error for three or more).
---
 .../DeterministicParticleFlowControl.py                      | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 1ed4440..b36869f 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -678,10 +678,7 @@ class DPFC(object):
                 if self.reweight == False or self.brown_bridge == False:
                     score_Fw = score_function_multid_seperate(self.Z[:, :, ti].T, Sxx.T, func_out=True, C=0.001, which=1, l=lnthsc2, which_dim=di+1, kern=self.kern)(grid_z)
                 else:
-                    bndsztr = np.zeros((self.dim, 2))
-                    for ii in range(self.dim):
-                        bndsztr[di] = [np.min(self.Ztr[di, :, ti]), np.max(self.Ztr[di, :, ti])]
-                    grid_ztr = np.clip(grid_x, bndsztr[0], bndsztr[1])
+                    grid_ztr = grid_x#not clipped, as for grid_b and grid_z
                     lnthsc3 = 2*np.std(self.Ztr[:, :, ti], axis=1)
                     score_Fw = score_function_multid_seperate(self.Ztr[:, :, ti].T, Sxx.T, func_out=True, C=0.001, which=1, l=lnthsc3, which_dim=di+1, kern=self.kern)(grid_ztr)
 
-- 
2.43.0


From a7dc3d47f933b1a473717d54ff1b8fbdc3ac6863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 08/20] fix: honour the C argument of the pytorch score
 estimator

---
 .../score_estimators/score_function_estimators_pytorch.py        | 1 -
 1 file changed, 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index ff66856..05c41d9 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -65,7 +65,6 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
 
 
     M, dim = Z.shape
-    C = 0.001
 
     if not torch.is_tensor(X):
           # convert inputs to pytorch tensors if not already pytorched
-- 
2.43.0


From 64b433e157e747589ae65c93093241315e6877ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 09/20] fix: accept the documented input types in the pytorch
 score estimator

With a scalar lengthscale the returned function failed for tensors
(UnboundLocalError), array or list lengthscales and 0-dimensional tensors
failed, and Z was not converted when X was already a tensor.
---
 .../score_function_estimators_pytorch.py       | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index 05c41d9..2f6ec2e 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -69,14 +69,12 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
     if not torch.is_tensor(X):
           # convert inputs to pytorch tensors if not already pytorched
           X = torch.tensor(X, dtype=torch.float64, device=device)
-
-          if Z is None:
-              Z = X
-          elif not torch.is_tensor(Z):
-              Z = torch.tensor(Z, dtype=torch.float64, device=device)
+    if not torch.is_tensor(Z):
+          Z = torch.tensor(Z, dtype=torch.float64, device=device)
     N, D = X.size()
-    if isinstance(l, (list, tuple, np.ndarray)) or (torch.is_tensor(l) and l.size(dim=0)>1):
+    if isinstance(l, (list, tuple, np.ndarray)) or (torch.is_tensor(l) and l.numel()>1):
           multil = True
+          l = torch.as_tensor(l, dtype=torch.float64, device=device)
 
           ### for different lengthscales for each dimension
 
@@ -144,11 +142,11 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
         elif not multil:
             if kern=='RBF':
 
-                  def K_sz(y):
-                      if not torch.is_tensor(y):
+                  def K_sz(x):
+                      if not torch.is_tensor(x):
                           # convert inputs to pytorch tensors if not already pytorched
-                          xu = torch.tensor(y, dtype=torch.float64, device=device)
-                      X_i = xu[:, None, :] # shape (n, D) -> (n, 1, D)
+                          x = torch.tensor(x, dtype=torch.float64, device=device)
+                      X_i = x[:, None, :] # shape (n, D) -> (n, 1, D)
                       Z_j = Z[None, :, :] # shape (M, D) -> (1, M, D)
                       sqd     = torch.sum( (X_i - Z_j)**2, 2)         # |X_i - Y_j|^2 # (N, M, D)
                       # Divide by length scale
-- 
2.43.0


From 19f0798aed12e0d7ddfac80b7c1a7bcbc0561ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 10/20] fix: accept array_like end points in torched_DPFC

The dimension was read from y1 before y1 was converted to a tensor.
---
 .../DeterministicParticleFlowControl.py                         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index b36869f..5c47956 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -810,7 +810,6 @@ class torched_DPFC(object):
 
         self.device = device
         # dimensionality of the system
-        self.dim = torch.tensor(y1.size(dim=0), dtype=torch.int, device=self.device)  # dimensionality of the system
         self.t1 = t1
         self.t2 = t2
         if not torch.is_tensor(y1):
@@ -819,6 +818,7 @@ class torched_DPFC(object):
         else:
             self.y1 = y1
             self.y2 = y2
+        self.dim = torch.tensor(self.y1.size(dim=0), dtype=torch.int, device=self.device)  # dimensionality of the system
 
 
         ##density estimation stuff
-- 
2.43.0


From a9d0c4e2a573f24bf5271c2d325c45793df9714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 11/20] fix: draw noise and build regularisers in double
 precision on the device

The noise of two samplers was single precision and on the default device,
which fails on a GPU; the regularising identities were single precision.
---
 .../DeterministicParticleFlowControl.py                |  4 ++--
 .../score_function_estimators_pytorch.py               | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 5c47956..f7eb744 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -912,7 +912,7 @@ class torched_DPFC(object):
                 self.Z[:, :, ti] = self.Z[:, :, ti-1] + \
                                     self.dt*self.f(self.Z[:, :, ti-1], tt-self.dt)+\
                                  (self.g)*\
-                                     torch.empty([self.dim, self.N]).normal_(mean=0, std=torch.sqrt(self.dt))
+                                     torch.empty([self.dim, self.N], dtype=torch.float64, device=self.device).normal_(mean=0, std=torch.sqrt(self.dt))
                 ###WEIGHT
                 if self.reweight == True:
                     if ti > 0:
@@ -1080,7 +1080,7 @@ class torched_DPFC(object):
                                           #substract dt because I want the time at t-1
                 self.Ztr[:, :, ti] = self.Ztr[:, :, ti-1] + \
                                       self.dt*self.f_true(self.Ztr[:, :, ti-1], tt-self.dt)+\
-                                 (self.g)*torch.empty([self.dim, self.N]).normal_(mean=0, std=torch.sqrt(self.dt))
+                                 (self.g)*torch.empty([self.dim, self.N], dtype=torch.float64, device=self.device).normal_(mean=0, std=torch.sqrt(self.dt))
             else:
                 self.Ztr[:, :, ti] = self.Ztr[:, :, ti-1] + \
                     self.dt* self.f_seperate_true(self.Ztr[:, :, ti-1], tt-self.dt)
diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index 2f6ec2e..8cb2ee4 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -95,7 +95,7 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
 
 
 
-    Ksinv = torch.linalg.inv(K_s+ 1e-3 * torch.eye(M, device=device))
+    Ksinv = torch.linalg.inv(K_s+ 1e-3 * torch.eye(M, dtype=torch.float64, device=device))
     A = torch.t(K_xz) @ K_xz ##matrix multilication
     #compute the gradient of the X x Z kernel
     gradx_K = -K_instance.gradient_X(X, Z) #shape: (N,M,dim)
@@ -111,8 +111,8 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
         #                 Ksinv @ A + 1e-3 * np.eye(Z.shape[0]))@ Ksinv@sumgradx_K[:,di]
 
         for di in range(dim):
-            res1[:,di] = -K_xz @ torch.linalg.inv( C*torch.eye(M, M, device=device) + \
-                                            Ksinv @ A + 1e-3 * torch.eye(M, device=device))\
+            res1[:,di] = -K_xz @ torch.linalg.inv( C*torch.eye(M, M, dtype=torch.float64, device=device) + \
+                                            Ksinv @ A + 1e-3 * torch.eye(M, dtype=torch.float64, device=device))\
                                             @ Ksinv @ sumgradx_K[:,di]
 
         #res1 = np.einsum('ik,kj->ij', -K_xz @ np.linalg.inv( C*np.eye(Z.shape[0], Z.shape[0]) + Ksinv @ A + 1e-3 * np.eye(Z.shape[0]))@ Ksinv, sumgradx_K)
@@ -158,8 +158,8 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
 
 
 
-        res1 = lambda x: K_sz(x) @ (-torch.linalg.inv(C*torch.eye(M, M, device=device) + \
-                                                      Ksinv @ A + 1e-3 * torch.eye(M, device=device))) @ Ksinv@sumgradx_K
+        res1 = lambda x: K_sz(x) @ (-torch.linalg.inv(C*torch.eye(M, M, dtype=torch.float64, device=device) + \
+                                                      Ksinv @ A + 1e-3 * torch.eye(M, dtype=torch.float64, device=device))) @ Ksinv@sumgradx_K
 
 
     return res1   ### shape out N x dim
\ No newline at end of file
-- 
2.43.0


From 5da22cf80353796cf0e637ed4e998a9298288589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 12/20] fix: require both densities to cover a point in
 torched_DPFC.check_if_covered

A point covered by only one of the flows, or by none but between them, was
reported as covered; DPFC intersects the ranges, as documented.
---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index f7eb744..ffbe96f 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -1492,8 +1492,8 @@ class torched_DPFC(object):
         bnds = torch.zeros(self.dim, 2, dtype=torch.float64,
                           device=self.device)
         for ii in range(self.dim):
-            bnds[ii, 0] = min(torch.min(self.Z[ii, :, ti]), torch.min(self.B[ii, :, ti]))
-            bnds[ii, 1] = max(torch.max(self.Z[ii, :, ti]), torch.max(self.B[ii, :, ti]))
+            bnds[ii, 0] = max(torch.min(self.Z[ii, :, ti]), torch.min(self.B[ii, :, ti]))
+            bnds[ii, 1] = min(torch.max(self.Z[ii, :, ti]), torch.max(self.B[ii, :, ti]))
             
             
 
-- 
2.43.0


From f6e4458f3b63df71a4e96c1f3a5c418d0b965ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 13/20] fix: give the timing log message a placeholder for its
 argument

With INFO logging enabled the call produced a logging error.
---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index ffbe96f..7856f21 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -443,7 +443,7 @@ class DPFC(object):
                     #print(Tstar)
                     if ti == 3:
                         stop = time.time()
-                        logging.info('Timepoint: %d needed '%ti, stop-start)
+                        logging.info('Timepoint: %d needed %f', ti, stop-start)
                     self.Z[:, :, ti] = ((self.Z[:, :, ti])@Tstar) #####
         logging.info('Forward sampling with Otto is ready!')
         return 0
@@ -1151,7 +1151,7 @@ class torched_DPFC(object):
                     #print(Tstar)
                     if ti == 3:
                         stop = time.time()
-                        logging.info('Timepoint: %d needed '%ti, stop-start)
+                        logging.info('Timepoint: %d needed %f', ti, stop-start)
                     
         logging.info('Forward sampling with Otto is ready!')
         return 0
-- 
2.43.0


From 3dd2155a0902e6e3a9f1b247635e0ba73833497a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 14/20] fix: compute the l1 distance in my_cdist for dist='l1'

---
 .../score_estimators/score_function_estimators.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators.py
index 4d0c857..6c0d7fd 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators.py
@@ -72,8 +72,8 @@ def my_cdist(r,y, output,dist='euclidean'):
             for j in numba.prange(N2):
                 tmp = 0.0
                 for k in range(M):
-                    tmp += (r[i, k] - y[j, k])**2          
-                output[i,j] = math.sqrt(tmp)   
+                    tmp += abs(r[i, k] - y[j, k])
+                output[i,j] = tmp
     return 0
 
 
-- 
2.43.0


From 520cc4e295791be9e640b35599008cb995c1d705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 15/20] fix: evaluate the kernel at the given points in
 RBF.gradient_X

The gradient used the kernel of the last Kernel() call, whatever its
arguments, and failed on a fresh instance, for arrays and for Y=None.
---
 .../kernels/RBF_pytorch.py                            | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/DeterministicParticleFlowControl/kernels/RBF_pytorch.py b/DeterministicParticleFlowControl/kernels/RBF_pytorch.py
index 231abd4..4cf3df4 100644
--- a/DeterministicParticleFlowControl/kernels/RBF_pytorch.py
+++ b/DeterministicParticleFlowControl/kernels/RBF_pytorch.py
@@ -132,12 +132,17 @@ class RBF:
             Array with the gradient of the Kernel -> (N, M, D).
 
         """
-        #N, D = X.shape    
-        M,_ = Y.shape
+        if not torch.is_tensor(X):
+          # convert inputs to pytorch tensors if not already pytorched
+          X = torch.tensor(X, dtype=torch.float64, device=self.device)
+        if Y is None:
+            Y = X
+        elif not torch.is_tensor(Y):
+            Y = torch.tensor(Y, dtype=torch.float64, device=self.device)
         diffs = X[:,None]-Y            
         #if self.multil:            
         redifs = torch.div(diffs, self.length_scale.to(self.device)**2)
-        redifs = torch.einsum( 'ijk,ij->ijk', redifs, self.K_data)
+        redifs = torch.einsum( 'ijk,ij->ijk', redifs, self.Kernel(X, Y))
         #redifs[:,:,ii] = np.multiply(diffs[:,:,ii],K(x,y,l,True))/(l[ii]*l[ii])   
         #else:
             #redifs[:,:,ii] = np.multiply(diffs[:,:,ii],K(x,y,l))/(l*l)
-- 
2.43.0


From dc0f15db0ac6be9a5677ea4e2a97b93f0d7e82b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 16/20] fix: use every dimension in the function output of
 score_function_multid_seperate2

---
 DeterministicParticleFlowControl/score_estimators/score.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score.py b/DeterministicParticleFlowControl/score_estimators/score.py
index 451b6c2..601aa1c 100644
--- a/DeterministicParticleFlowControl/score_estimators/score.py
+++ b/DeterministicParticleFlowControl/score_estimators/score.py
@@ -106,7 +106,7 @@ def score_function_multid_seperate2(X,Z,func_out=False, C=0.001,kern ='RBF',l=1,
         if multil:                
             #res = np.ones((x.shape[0],y.shape[0]))                
             #for ii in range(len(l)): 
-            K_sz = lambda x: np.multiply(np.exp(-cdist(x[:,0].reshape(-1,1), Z[:,0].reshape(-1,1),'sqeuclidean')/(2*l[0]*l[0])),np.exp(-cdist(x[:,1].reshape(-1,1), Z[:,1].reshape(-1,1),'sqeuclidean')/(2*l[1]*l[1])))
+            K_sz = lambda x: K(x,Z,l,multil=True)
             #return K_sz
         else:
             K_sz = lambda x: np.exp(-cdist(x, Z,'sqeuclidean')/(2*l*l))
-- 
2.43.0


From ccde8186646c49474b6df184b29fec9472db219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 17/20] fix: sample the flow with the true drift in stochastic
 mode as well

With deterministic=False and brown_bridge=True, calculate_u used self.Ztr,
which had only been allocated, and returned NaN.
---
 .../DeterministicParticleFlowControl.py             | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 7856f21..dd83c98 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -210,11 +210,11 @@ class DPFC(object):
         ##the stochastic sampling is provided for comparison
         if self.deterministic:
             self.forward_sampling_Otto()
-            ### if a Brownian bridge is used for forward sampling
-            if self.reweight and self.brown_bridge:
-                self.forward_sampling_Otto_true()
         else:
             self.forward_sampling()
+        ### if a Brownian bridge is used for forward sampling
+        if self.reweight and self.brown_bridge:
+            self.forward_sampling_Otto_true()
         ## the backward function selects internally for type of dynamics
         self.backward_simulation()
         # if self.reject:
@@ -875,12 +875,11 @@ class torched_DPFC(object):
         ##the stochastic sampling is provided for comparison
         if self.deterministic:
             self.forward_sampling_Otto()
-            
-            ### if a Brownian bridge is used for forward sampling
-            if self.reweight and self.brown_bridge:
-                self.forward_sampling_Otto_true()
         else:
             self.forward_sampling()
+        ### if a Brownian bridge is used for forward sampling
+        if self.reweight and self.brown_bridge:
+            self.forward_sampling_Otto_true()
         
         ## the backward function selects internally for type of dynamics
         self.backward_simulation()
-- 
2.43.0


From c4b79bd7c3a6d0e2caf0db322c8752458660d6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 18/20] fix: accept array_like end points in DPFC

---
 .../DeterministicParticleFlowControl.py                         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index dd83c98..784785e 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -155,7 +155,7 @@ class DPFC(object):
 
     def __init__(self, t1, t2, y1, y2, f, g, N, M, reweight=False, U=None, dens_est='nonparametric', reject=True, kern='RBF', f_true=None, brown_bridge=False, deterministic=True):
 
-        self.dim = y1.size # dimensionality of the system
+        self.dim = np.size(y1) # dimensionality of the system
         self.t1 = t1
         self.t2 = t2
         self.y1 = y1
-- 
2.43.0


From 0b36a6d40977c19832793922fb2143786d88b593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:48 +0000
Subject: [PATCH 19/20] fix: evaluate the torch score estimator at integer
 points for integer inducing points

---
 .../score_estimators/score_function_estimators_pytorch.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index 8cb2ee4..4d8e3a0 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -71,6 +71,9 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
           X = torch.tensor(X, dtype=torch.float64, device=device)
     if not torch.is_tensor(Z):
           Z = torch.tensor(Z, dtype=torch.float64, device=device)
+    elif not torch.is_floating_point(Z):
+          # differences of integer tensors would end up in single precision
+          Z = Z.to(torch.float64)
     N, D = X.size()
     if isinstance(l, (list, tuple, np.ndarray)) or (torch.is_tensor(l) and l.numel()>1):
           multil = True
-- 
2.43.0


From 2dc34ff305771e60ec5c4383df1b75d522fb73dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:08 +0000
Subject: [PATCH 20/20] fix: stochastic NumPy sampling accepts a column of
 diffusion amplitudes

The documented array form of g, one row per coordinate, worked in every
mode but this one: the product with a flat noise vector was a dim x dim
matrix that does not fit into the slice of one particle.
---
 .../DeterministicParticleFlowControl.py                         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 784785e..21e3290 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -246,7 +246,7 @@ class DPFC(object):
                     #self.Z[:,i,:] = sdeint.itoint(self.f, self.g, self.Z[i,0], self.timegrid)[:,0]
                     self.Z[:, i, ti] = (self.Z[:, i, ti-1] + \
                                       self.dt* self.f(self.Z[:, i, ti-1], tt-self.dt) + \
-                                      (self.g)*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim,)))
+                                      ((self.g)*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim, 1)))[:, 0])
 
                 ###WEIGHT
                 if self.reweight == True:
-- 
2.43.0

