From eb05691be2923983eedb5527c0205c39e5473ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 01/21] fix: upwind conditional value function (TF) for
 negative states

The reachable interval for x0 <= 0 is [exp(dt) x0, x0]; the TensorFlow version
tested x0 >= 0 twice, so every negative state was treated as unreachable.
---
 parallel_control/cnonlin_models_tf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/cnonlin_models_tf.py b/parallel_control/cnonlin_models_tf.py
index 46e0a6b..dfb4236 100644
--- a/parallel_control/cnonlin_models_tf.py
+++ b/parallel_control/cnonlin_models_tf.py
@@ -116,6 +116,6 @@ def upwind_model_block_V(inf_value, block_dt, x_grid):
 
     a = tf.exp(block_dt)
     cond1 = tf.logical_and(tf.logical_and(tf.greater_equal(x0_mesh, 0.0), tf.greater_equal(xf_mesh, x0_mesh)), tf.less_equal(xf_mesh, a * x0_mesh))
-    cond2 = tf.logical_and(tf.logical_and(tf.greater_equal(x0_mesh, 0.0), tf.greater_equal(xf_mesh, a * x0_mesh)), tf.less_equal(xf_mesh, x0_mesh))
+    cond2 = tf.logical_and(tf.logical_and(tf.less_equal(x0_mesh, 0.0), tf.greater_equal(xf_mesh, a * x0_mesh)), tf.less_equal(xf_mesh, x0_mesh))
 
     return tf.where(tf.logical_or(cond1,cond2), zero_mesh, inf_mesh)
-- 
2.43.0


From 8b92de3d6b6865683c4dcc9cdedf8df522d4b2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 02/21] fix: do not truncate costs-to-go when stage costs are
 integers

With integer L and floating-point LT the cost-to-go was stored in an integer
array, which gave wrong values and policies.
---
 parallel_control/fsc_np.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parallel_control/fsc_np.py b/parallel_control/fsc_np.py
index 40c491f..647be14 100755
--- a/parallel_control/fsc_np.py
+++ b/parallel_control/fsc_np.py
@@ -182,7 +182,7 @@ class FSC:
         for k in reversed(range(T)):
             L  = self.L[k]
             f  = self.f[k]
-            Vu = np.zeros_like(L)
+            Vu = np.zeros(L.shape, dtype=np.result_type(L, V))
             for u in range(Vu.shape[1]):
                 Vu[:,u] = L[:,u] + self.gamma * V[f[:,u]]
             u = Vu.argmin(axis=1)
@@ -300,7 +300,7 @@ class FSC:
             V_list.append(V)
             L  = self.L[k]
             f  = self.f[k]
-            Vu = np.zeros_like(L)
+            Vu = np.zeros(L.shape, dtype=np.result_type(L, V))
             for u in range(Vu.shape[1]):
                 Vu[:,u] = L[:,u] + V[f[:,u]]
             u = Vu.argmin(axis=1)
-- 
2.43.0


From cc0c4e7d397fac95b1b02030c8a0beeece109147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 03/21] fix: batch solution of problems whose optimal cost is
 1e10 or more

The incumbent started from 1e10, so costlier problems returned no trajectory.
---
 parallel_control/fsc_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/fsc_np.py b/parallel_control/fsc_np.py
index 647be14..bfc0f5d 100755
--- a/parallel_control/fsc_np.py
+++ b/parallel_control/fsc_np.py
@@ -573,7 +573,7 @@ class FSC:
         u_list     = [0] * T
         min_u_list = u_list.copy()
         min_x_list = []
-        min_cost   = 1e10
+        min_cost   = np.inf
 
         udim = self.f[0].shape[1]
         done = False
-- 
2.43.0


From b7060c9294f5da68997420115a7eb62fe84bb89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 04/21] fix: direct shooting time grid has exactly one point
 per step

A floating-point range with a rounded increment has one point too many for some
(T, steps), e.g. (1.0, 49), and the scan over the steps then fails.
---
 parallel_control/hjb_grid_1d_np.py | 4 ++--
 parallel_control/hjb_grid_1d_tf.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parallel_control/hjb_grid_1d_np.py b/parallel_control/hjb_grid_1d_np.py
index c77e5c0..c821f47 100644
--- a/parallel_control/hjb_grid_1d_np.py
+++ b/parallel_control/hjb_grid_1d_np.py
@@ -53,7 +53,7 @@ def fun_and_con_1(g, L, T, x0, xf, a_vec, b_vec):
         c_vec: Constraint violation vector
     """
     dt = T / a_vec.shape[0]
-    t_vec = jax.numpy.arange(0, T, dt)
+    t_vec = dt * jnp.arange(a_vec.shape[0])
     def body(carry, inp):
         a, b, ti = inp
         def f(xc, t):
@@ -126,7 +126,7 @@ def fun_and_con_2(g, L, T, x0, xf, theta):
         c_vec: Constraint violation vector
     """
     dt = T / (theta.shape[0]-1)
-    t_vec = jax.numpy.arange(0, T, dt)
+    t_vec = dt * jnp.arange(theta.shape[0]-1)
     def body(carry, inp):
         _, prev_u = carry
         b, ti = inp
diff --git a/parallel_control/hjb_grid_1d_tf.py b/parallel_control/hjb_grid_1d_tf.py
index 57b50f4..fd2c8ef 100644
--- a/parallel_control/hjb_grid_1d_tf.py
+++ b/parallel_control/hjb_grid_1d_tf.py
@@ -56,7 +56,7 @@ def fun_and_con_1(g, L, T, x0, xf, a_vec, b_vec):
         c_vec: Constraint violation vector
     """
     dt = T / a_vec.shape[-1]
-    t_vec = tf.range(tf.constant(0.0, dtype=T.dtype), T, dt)
+    t_vec = dt * tf.range(a_vec.shape[-1], dtype=T.dtype)
 
     def body(carry, inp):
         a, b, ti = inp
@@ -152,7 +152,7 @@ def fun_and_con_2(g, L, T, x0, xf, theta):
         c_vec: Constraint violation vector
     """
     dt = T / (theta.shape[-1] - 1)
-    t_vec = tf.range(tf.constant(0.0, dtype=T.dtype), T, dt)
+    t_vec = dt * tf.range(theta.shape[-1] - 1, dtype=T.dtype)
 
     def body(carry, inp):
         _, _, prev_u = carry
-- 
2.43.0


From fcabdf44075842265aa9c7c22df8e4609d179d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 05/21] fix: interpolated value combination is NaN when the
 costs are flat

When the minimum and its two neighbours are equal, the parabola correction is
0/0. No correction is needed there.
---
 parallel_control/hjb_grid_1d_np.py | 9 +++++++--
 parallel_control/hjb_grid_1d_tf.py | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/parallel_control/hjb_grid_1d_np.py b/parallel_control/hjb_grid_1d_np.py
index c821f47..db8eddb 100644
--- a/parallel_control/hjb_grid_1d_np.py
+++ b/parallel_control/hjb_grid_1d_np.py
@@ -242,7 +242,9 @@ def combine_V_interp(Vij, Vjk):
     fm1 = jnp.take_along_axis(Vsum, jm1, axis=1)
     fp1 = jnp.take_along_axis(Vsum, jp1, axis=1)
 
-    Vik = fi - (fp1 - fm1)**2 / (fp1 + fm1 - 2.0 * fi + lam) / 8.0
+    den = fp1 + fm1 - 2.0 * fi + lam
+    flat = (den == 0.0)  # Constant costs have no parabola to refine with
+    Vik = jnp.where(flat, fi, fi - (fp1 - fm1)**2 / jnp.where(flat, 1.0, den) / 8.0)
 #    Vik = fi - (fp1 - fm1) ** 2 / (jnp.abs(fp1 + fm1 - 2.0 * fi) + lam) / 8.0
 
     return Vik[:,0,:]
@@ -267,7 +269,10 @@ def combine_V_interp2(Vij, Vjk):
             jm1 = jnp.abs(j-1) # Converts -1 to 1
             nm1 = f.shape[0]-1
             jp1 = nm1 - jnp.abs(nm1-j-1)  # Converts n to n-2
-            Vik[i,k] = f[j] - (f[jp1] - f[jm1])**2 / (f[jp1] + f[jm1] - 2.0 * f[j] + lam) / 8.0
+            den = f[jp1] + f[jm1] - 2.0 * f[j] + lam
+            Vik[i,k] = f[j]
+            if den != 0.0:
+                Vik[i,k] -= (f[jp1] - f[jm1])**2 / den / 8.0
 #            if j == 0 or j == f.shape[0]-1:
 #                Vik[i,k] = f[j]
 #            else:
diff --git a/parallel_control/hjb_grid_1d_tf.py b/parallel_control/hjb_grid_1d_tf.py
index fd2c8ef..ccbd4ec 100644
--- a/parallel_control/hjb_grid_1d_tf.py
+++ b/parallel_control/hjb_grid_1d_tf.py
@@ -292,7 +292,9 @@ def combine_V_interp(Vij, Vjk):
     fm1 = tf.gather_nd(VsumT, jTm1, batch_dims=3)
     fp1 = tf.gather_nd(VsumT, jTp1, batch_dims=3)
 
-    return fi - (fp1 - fm1)**2 / (fp1 + fm1 - tf.constant(2.0, dtype=Vij.dtype) * fi + lam) / tf.constant(8.0, dtype=Vij.dtype)
+    den = fp1 + fm1 - tf.constant(2.0, dtype=Vij.dtype) * fi + lam
+    # Constant costs have no parabola to refine with, hence divide_no_nan
+    return fi - tf.math.divide_no_nan((fp1 - fm1)**2, den) / tf.constant(8.0, dtype=Vij.dtype)
 
 def combine_V_interp_rev(Vjk, Vij):
     """ Combine two value functions with interpolation in reversed order.
-- 
2.43.0


From e50fcbf4956ea3b4c618386928f2f0810511e1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 06/21] fix: mass model loses a time step when Tf/dt is rounded
 down

For example Tf=0.3 and dt=0.1 gave two steps.
---
 parallel_control/mass_model_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/mass_model_np.py b/parallel_control/mass_model_np.py
index ba54c28..387e983 100644
--- a/parallel_control/mass_model_np.py
+++ b/parallel_control/mass_model_np.py
@@ -78,7 +78,7 @@ class MassModel:
         Qc = np.eye(self.Lc.shape[1])
         F, L, Q = disc.lti_disc_u(self.Fc, self.Lc, G, Qc, dt)
 
-        T = int(Tf/dt)
+        T = int(np.floor(Tf/dt + 1e-6))
 
         lqt = lqt_np.LQT.checkAndExpand(F, L, self.X, self.U, self.XT, T=T)
 
-- 
2.43.0


From 89a99bb28395551b1e793d539ad7a882ea3566ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 07/21] fix: parallel scans over a single element
 (max_parallel=1)

scan_associative requires at least one level, so one-step problems failed. The
lqt_tf and clqt_tf solvers already guard against this.
---
 parallel_control/fsc_tf.py         | 6 +++---
 parallel_control/hjb_grid_1d_tf.py | 2 +-
 parallel_control/viterbi_tf.py     | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/parallel_control/fsc_tf.py b/parallel_control/fsc_tf.py
index f4f77c2..b546f10 100644
--- a/parallel_control/fsc_tf.py
+++ b/parallel_control/fsc_tf.py
@@ -192,7 +192,7 @@ def fsc_par_backwardpass(fs, Ls, LT, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(fsc_par_comb_V_rev,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     Vs = tf.reverse(rev_elems, axis=[0])[..., 0]
 
@@ -273,7 +273,7 @@ def fsc_par_forwardpass(x0, fs, us, max_parallel=10000):
 
     elems = tfp.math.scan_associative(fsc_par_comb_f,
                                       elems,
-                                      max_num_levels=math.ceil(math.log2(max_parallel)))
+                                      max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     min_xs = elems[...,0]
 #    min_us = tf.gather_nd(us, tf.expand_dims(min_xs[:-1],-1), batch_dims=1)
@@ -342,7 +342,7 @@ def fsc_par_fwdbwdpass(x0, fs, Ls, us, Vs, max_parallel=10000):
 
     elems = tfp.math.scan_associative(fsc_par_comb_V,
                                       elems,
-                                      max_num_levels=math.ceil(math.log2(max_parallel)))
+                                      max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     Vfs = elems[:,0,:]
     min_xs = tf.argmin(Vfs + Vs, axis=-1, output_type=fs.dtype)
diff --git a/parallel_control/hjb_grid_1d_tf.py b/parallel_control/hjb_grid_1d_tf.py
index ccbd4ec..08286f6 100644
--- a/parallel_control/hjb_grid_1d_tf.py
+++ b/parallel_control/hjb_grid_1d_tf.py
@@ -482,7 +482,7 @@ def par_bw_pass(LT, blocks, fd_x_grid, block_V, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(combine_V_interp_rev,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     Vs = tf.reverse(rev_elems, axis=[0])[..., 0]
     return Vs
diff --git a/parallel_control/viterbi_tf.py b/parallel_control/viterbi_tf.py
index b7a5156..f99de9b 100644
--- a/parallel_control/viterbi_tf.py
+++ b/parallel_control/viterbi_tf.py
@@ -373,7 +373,7 @@ def viterbi_par_forwardpass(prior, Pi, Po, ys, max_parallel=10000):
     elems1 = viterbi_par_forwardpass_init(prior, Pi, Po, ys)
     elems2 = tfp.math.scan_associative(viterbi_par_comb_V,
                                       elems1,
-                                      max_num_levels=math.ceil(math.log2(max_parallel)))
+                                      max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
     Ls = elems1[1:]
     Vs = elems2[:, 0, :]
 
@@ -428,7 +428,7 @@ def viterbi_par_backwardpass(us, VT, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(viterbi_par_comb_f,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     xs = tf.reverse(rev_elems, axis=[0])[..., 0]
 
@@ -512,7 +512,7 @@ def viterbi_par_bwfwpass(prior, Pi, Po, ys, Vs, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(viterbi_par_comb_V_rev,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     elems = tf.reverse(rev_elems, axis=[0])
 
-- 
2.43.0


From 100d118b5c0714c684b8b96d33517258f98d55a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 08/21] fix: condensing of blocks that do not observe the whole
 state

The condensed cost matrix is then singular and solving for the condensed
references failed, e.g. with position-only outputs and Nc=1 or T%Nc==1. The
system is always consistent, so use its minimum-norm solution.
---
 parallel_control/condensing_np.py | 3 ++-
 parallel_control/condensing_tf.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/parallel_control/condensing_np.py b/parallel_control/condensing_np.py
index d63a09a..ad7e979 100644
--- a/parallel_control/condensing_np.py
+++ b/parallel_control/condensing_np.py
@@ -138,7 +138,8 @@ class LQTCondenser:
 
             tmp = np.zeros((rdim+udim)*Nc)
             tmp[0:(rdim*Nc)] = Hbar @ cbar
-            rsstar = linalg.solve(XUMstar, trans.T @ XUbar @ (rsbar - tmp), assume_a='pos')
+            # XUMstar is singular when the block does not observe the whole state
+            rsstar, _, _, _ = linalg.lstsq(XUMstar, trans.T @ XUbar @ (rsbar - tmp))
 
             Xstar = XUMstar[0:xdim,0:xdim]
             Mstar = XUMstar[0:xdim,xdim:]
diff --git a/parallel_control/condensing_tf.py b/parallel_control/condensing_tf.py
index bb9ae9d..273c3e8 100644
--- a/parallel_control/condensing_tf.py
+++ b/parallel_control/condensing_tf.py
@@ -121,7 +121,8 @@ def condense(Fs, cs, Ls, Hs, rs, Xs, Us, Nc):
 
     tmp = tf.concat([mv(Hbar, cbar), tf.zeros((Fs_blocks.shape[0], Lbar.shape[-1]), dtype=Fs_blocks.dtype)], 1)
     tmp = mv(trans, mv(XUbar, rsbar - tmp), transpose_a=True)
-    rsstar = tf.linalg.solve(XUMstar, tf.expand_dims(tmp,-1))[..., 0]
+    # XUMstar is singular when a block does not observe the whole state
+    rsstar = tf.linalg.lstsq(XUMstar, tf.expand_dims(tmp,-1), fast=False)[..., 0]
 
     rstar = rsstar[:,0:Fs_blocks.shape[-1]]
     sstar = rsstar[:,Fs_blocks.shape[-1]:]
-- 
2.43.0


From debe718db9a2d37e11380e0968237410c91efacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:56 +0000
Subject: [PATCH 09/21] fix: LQT.checkAndExpand sizes omitted H, r and M by
 each step's X

With a list of X matrices of different sizes the defaults of H, r and M were
all sized by X[0], so a consistent problem was rejected; in particular
seqTransformedBackwardPass failed for every problem whose output dimension
varies in time.
---
 parallel_control/lqt_np.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parallel_control/lqt_np.py b/parallel_control/lqt_np.py
index b6aa31a..d6e49bc 100755
--- a/parallel_control/lqt_np.py
+++ b/parallel_control/lqt_np.py
@@ -505,9 +505,9 @@ class LQT:
         if c is None:
             c = np.zeros(xdim)
         if H is None:
-            H = np.eye(rdim, xdim)
+            H = [np.eye(Xk.shape[0], xdim) for Xk in X] if isinstance(X, list) else np.eye(rdim, xdim)
         if r is None:
-            r = np.zeros(rdim)
+            r = [np.zeros(Xk.shape[0]) for Xk in X] if isinstance(X, list) else np.zeros(rdim)
         if HT is None:
             HT = np.eye(rdim, xdim)
         if rT is None:
@@ -517,7 +517,7 @@ class LQT:
         if s is None:
             s = np.zeros(udim)
         if M is None:
-            M = np.zeros((rdim, udim))
+            M = [np.zeros((Xk.shape[0], udim)) for Xk in X] if isinstance(X, list) else np.zeros((rdim, udim))
 
         # This looks a bit clumsy indeed:
         if not isinstance(F, list):
-- 
2.43.0


From 3faafaf31f517b71380df6d7f002d053bc27e2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 10/21] fix: FSC.checkAndExpand compares whole shapes

Only the first one or two dimensions were compared, so a terminal cost of
shape (n,1) or a three-dimensional cost table passed and later broadcast to
wrong values.
---
 parallel_control/fsc_np.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/parallel_control/fsc_np.py b/parallel_control/fsc_np.py
index bfc0f5d..2d80065 100755
--- a/parallel_control/fsc_np.py
+++ b/parallel_control/fsc_np.py
@@ -145,19 +145,18 @@ class FSC:
         if len(f) != len(L):
             raise ValueError(f"Lengths of f ({len(f)}) and L ({len(L)}) lists don't match.")
 
-        xdim = f[0].shape[0]
-        udim = f[0].shape[1]
+        xdim, udim = f[0].shape
 
         if LT is None:
             LT = np.ones((xdim,), dtype=L[0].dtype)
 
         for k in range(T):
-            if (f[k].shape[0] != xdim) or (f[k].shape[1] != udim):
+            if f[k].shape != (xdim, udim):
                 raise ValueError(f"Shape of f[{k}] ({f[k].shape}) is not as expected ({xdim},{udim}).")
-            if (L[k].shape[0] != xdim) or (L[k].shape[1] != udim):
+            if L[k].shape != (xdim, udim):
                 raise ValueError(f"Shape of L[{k}] ({L[k].shape}) is not as expected ({xdim},{udim}).")
 
-        if f[0].shape[0] != LT.shape[0]:
+        if LT.shape != (xdim,):
             raise ValueError(f"Shapes of f[0] ({f[0].shape}) and LT ({LT.shape}) don't match.")
 
         return cls(f, L, LT)
-- 
2.43.0


From c71fb2833bea96df0360256a88b7b6941f24e93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:42 +0000
Subject: [PATCH 11/21] fix: discretisation of systems with an integer state
 matrix

The block matrices took the type of F, so with an integer F the noise term
L Qc L' and the input gain G were truncated to integers.
---
 parallel_control/disc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parallel_control/disc.py b/parallel_control/disc.py
index 2f14e5f..6c0e58d 100644
--- a/parallel_control/disc.py
+++ b/parallel_control/disc.py
@@ -31,7 +31,7 @@ def lti_disc(F, L, Qc=None, dt=1.0):
     if np.isscalar(Qc):
         Qc = np.array([[Qc]])
 
-    Phi = np.zeros((2*n,2*n), dtype=F.dtype)
+    Phi = np.zeros((2*n,2*n), dtype=np.result_type(F.dtype, np.float32))
     Phi[ 0:n,  0:n] = F
     Phi[ 0:n,  n: ] = L @ Qc @ L.T
     Phi[n:2*n, n: ] = -F.T
@@ -69,7 +69,7 @@ def lti_disc_u(F, L, G=None, Qc=None, dt=1.0):
 
     m = G.shape[1]
 
-    Psi = np.zeros((n+m,n+m), dtype=F.dtype)
+    Psi = np.zeros((n+m,n+m), dtype=np.result_type(F.dtype, np.float32))
     Psi[0:n, 0:n] = F
     Psi[0:n, n: ] = G
 
-- 
2.43.0


From 9723a48039392dcc2d960ba3c37721a8be9ff8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:49 +0000
Subject: [PATCH 12/21] fix: local_eq must not stop at an infeasible stationary
 point

The stopping criterion ignored the constraints: with a start where the
objective is stationary, local_eq stopped after a single step although the
constraints were violated. Include the constraint values in the criterion.
---
 parallel_control/sqp_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/sqp_np.py b/parallel_control/sqp_np.py
index 4ce1166..606352d 100644
--- a/parallel_control/sqp_np.py
+++ b/parallel_control/sqp_np.py
@@ -86,7 +86,7 @@ def local_eq(fun, con, x0, max_iter=100, tol=1e-6, quiet=False):
         lam = hlam
 
         iter = iter + 1
-        crit = jnp.linalg.norm(Jl)
+        crit = jnp.linalg.norm(jnp.concatenate((Jl, c)))
 
 
         if not quiet:
-- 
2.43.0


From d2f67157ed07431e0cb75ea9a6a418d976d00ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 13/21] fix: partial condensing with output dimensions that
 differ between steps

LQTCondenser.condense used the output dimension of the first step for every
step, so a problem whose H, r and X change size over time was rejected with a
broadcast error or, when a later step has a single output, silently solved as
another problem.
---
 parallel_control/condensing_np.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/parallel_control/condensing_np.py b/parallel_control/condensing_np.py
index ad7e979..63368a7 100644
--- a/parallel_control/condensing_np.py
+++ b/parallel_control/condensing_np.py
@@ -92,16 +92,14 @@ class LQTCondenser:
 
         for kp in range(Tc):
             k = Nc * kp
-            XUbar = np.zeros(((rdim+udim)*Nc,(rdim+udim)*Nc))
-            rsbar = np.zeros((rdim+udim)*Nc)
-            Hbar  = np.zeros((rdim*Nc,xdim*Nc))
+            # The output dimension may differ between the steps
+            XUbar = linalg.block_diag(*X[k:(k+Nc)], *U[k:(k+Nc)])
+            Hbar  = linalg.block_diag(*H[k:(k+Nc)])
+            nr    = Hbar.shape[0]
+            rsbar = np.concatenate(r[k:(k+Nc)] + [np.zeros(udim*Nc)])
             Lambda = np.zeros((xdim*Nc,xdim))
             Ftmp = np.eye(xdim)
             for i in range(0,Nc):
-                XUbar[(i*rdim):((i+1)*rdim),(i*rdim):((i+1)*rdim)] = X[k + i]
-                XUbar[(rdim*Nc+i*udim):(rdim*Nc+(i+1)*udim),(rdim*Nc+i*udim):(rdim*Nc+(i+1)*udim)] = U[k + i]
-                rsbar[(i*rdim):((i+1)*rdim)] = r[k + i]
-                Hbar[(i*rdim):((i+1)*rdim),(i*xdim):((i+1)*xdim)] = H[k + i]
                 Lambda[(i*xdim):((i+1)*xdim),:] = Ftmp
                 Ftmp = F[k + i] @ Ftmp
 
@@ -129,15 +127,15 @@ class LQTCondenser:
                             Fpows[:, (j * xdim):((j + 1) * xdim)] @ L[k + j]
                         cstar += Fpows[:, (j * xdim):((j + 1) * xdim)] @ c[k + j]
 
-            trans = np.zeros(((rdim+udim)*Nc,xdim+udim*Nc))
-            trans[0:(rdim*Nc),0:xdim] = Hbar @ Lambda
-            trans[0:(rdim*Nc),xdim:] = Hbar @ Lbar
-            trans[(rdim*Nc):,xdim:] = np.eye(udim*Nc)
+            trans = np.zeros((nr+udim*Nc,xdim+udim*Nc))
+            trans[0:nr,0:xdim] = Hbar @ Lambda
+            trans[0:nr,xdim:] = Hbar @ Lbar
+            trans[nr:,xdim:] = np.eye(udim*Nc)
 
             XUMstar = trans.T @ XUbar @ trans
 
-            tmp = np.zeros((rdim+udim)*Nc)
-            tmp[0:(rdim*Nc)] = Hbar @ cbar
+            tmp = np.zeros(nr+udim*Nc)
+            tmp[0:nr] = Hbar @ cbar
             # XUMstar is singular when the block does not observe the whole state
             rsstar, _, _, _ = linalg.lstsq(XUMstar, trans.T @ XUbar @ (rsbar - tmp))
 
-- 
2.43.0


From 3169c9e23a06ab865c297bdb71c0c4e421f2783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 14/21] fix: exact regulator backward pass on long horizons

The matrix fraction was propagated over all steps without renormalisation, so
its denominator became singular when the closed-loop rates differ (wrong gains
after ten steps, LinAlgError on longer horizons). Restart it from the current
Riccati solution at every step, which is the same solution.
---
 parallel_control/clqt_np.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parallel_control/clqt_np.py b/parallel_control/clqt_np.py
index f5fa22c..a52a54e 100644
--- a/parallel_control/clqt_np.py
+++ b/parallel_control/clqt_np.py
@@ -236,9 +236,8 @@ class CLQR:
             n = self.F.shape[0]
             H = np.block([[self.F, -LULT], [-self.X, -self.F.T]])
             Psi = linalg.expm(-dt*H)
-            CD = np.block([[np.eye(n)],[S]])
             for _ in reversed(range(steps)):
-                CD = Psi @ CD
+                CD = Psi @ np.block([[np.eye(n)],[S]]) # Restart from C = I, because C becomes ill-conditioned over many steps
                 S  = linalg.solve(CD[0:n,:], CD[n:,:].T, transposed=True)
                 S = 0.5 * (S + S.T)
                 Kx = ULT @ S
-- 
2.43.0


From 55c2845b07cffd7910cc97746e82b27619006208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:41 +0000
Subject: [PATCH 15/21] fix: discretisation of stable systems over long time
 steps

The matrix fraction multiplies exp(F dt) by exp(-F' dt), so the noise covariance
(and finally the transition matrix) of a stable system lost all accuracy when the
time step was long compared with its time constants.
---
 parallel_control/disc.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parallel_control/disc.py b/parallel_control/disc.py
index 6c0e58d..772858e 100644
--- a/parallel_control/disc.py
+++ b/parallel_control/disc.py
@@ -36,10 +36,19 @@ def lti_disc(F, L, Qc=None, dt=1.0):
     Phi[ 0:n,  n: ] = L @ Qc @ L.T
     Phi[n:2*n, n: ] = -F.T
 
-    EPhi = linalg.expm(Phi * dt)
+    # The matrix fraction contains both exp(F dt) and exp(-F' dt), and it loses all
+    # accuracy when they differ much, so use it on a short enough step and double it.
+    scale = np.linalg.norm(F, 1) * abs(dt)
+    doublings = int(np.ceil(np.log2(scale))) if scale > 1.0 else 0
+
+    EPhi = linalg.expm(Phi * (dt / 2**doublings))
     A = EPhi[0:n, 0:n]
     Q = EPhi[0:n, n:] @ A.T
 
+    for _ in range(doublings):
+        Q = A @ Q @ A.T + Q
+        A = A @ A
+
     return A, Q
 
 def lti_disc_u(F, L, G=None, Qc=None, dt=1.0):
-- 
2.43.0


From ba30e0d627a4d0230b876121500c73a69427d830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 16/21] fix: do not store Viterbi states in the number type of
 the observations

With observations of type int8 and more than 127 states the states wrapped
around.
---
 parallel_control/viterbi_np.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parallel_control/viterbi_np.py b/parallel_control/viterbi_np.py
index 187765a..27563a3 100644
--- a/parallel_control/viterbi_np.py
+++ b/parallel_control/viterbi_np.py
@@ -50,7 +50,7 @@ class Viterbi_np:
             V = temp.max(axis=0)
             V_list[k+1, :] = V
 
-        v_map = np.zeros((V_list.shape[0],), dtype=y_list.dtype)
+        v_map = np.zeros((V_list.shape[0],), dtype=int)
         last = True
         x = 0
         for k in reversed(range(V_list.shape[0])):
@@ -86,7 +86,7 @@ class Viterbi_np:
             V = temp.min(axis=0)
             V_list[k+1, :] = V
 
-        v_map = np.zeros((V_list.shape[0],), dtype=y_list.dtype)
+        v_map = np.zeros((V_list.shape[0],), dtype=int)
         last = True
         x = 0
         for k in reversed(range(V_list.shape[0])):
@@ -130,7 +130,7 @@ class Viterbi_np:
             V_list[k+1, :] = V
             u_list[k, :] = u
 
-        v_map = np.zeros((V_list.shape[0],), dtype=y_list.dtype)
+        v_map = np.zeros((V_list.shape[0],), dtype=int)
         x = np.argmin(V_list[-1, :])
         v_map[-1] = x
         for k in reversed(range(y_list.shape[0])):
-- 
2.43.0


From 0feae68071e5e0dab9b630f3917753b74d9a2966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 17/21] fix: compute finite-state costs in floating point

Integer and Boolean cost tables overflowed (or saturated) when costs were added
up in their own type, and combine_V truncated mixed number types.
---
 parallel_control/fsc_np.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parallel_control/fsc_np.py b/parallel_control/fsc_np.py
index 2d80065..1a1ffd6 100755
--- a/parallel_control/fsc_np.py
+++ b/parallel_control/fsc_np.py
@@ -33,7 +33,7 @@ def combine_V(Vij, Vjk):
     Returns:
         Vik: Value function for i -> k
     """
-    Vik = np.zeros_like(Vij)
+    Vik = np.zeros_like(Vij, dtype=np.result_type(Vij, Vjk, float))
     for i in range(Vij.shape[0]):
         for k in range(Vjk.shape[1]):
             Vik[i,k] = (Vij[i,:] + Vjk[:,k]).min()
@@ -181,7 +181,7 @@ class FSC:
         for k in reversed(range(T)):
             L  = self.L[k]
             f  = self.f[k]
-            Vu = np.zeros(L.shape, dtype=np.result_type(L, V))
+            Vu = np.zeros(L.shape, dtype=np.result_type(L, V, float))
             for u in range(Vu.shape[1]):
                 Vu[:,u] = L[:,u] + self.gamma * V[f[:,u]]
             u = Vu.argmin(axis=1)
@@ -299,7 +299,7 @@ class FSC:
             V_list.append(V)
             L  = self.L[k]
             f  = self.f[k]
-            Vu = np.zeros(L.shape, dtype=np.result_type(L, V))
+            Vu = np.zeros(L.shape, dtype=np.result_type(L, V, float))
             for u in range(Vu.shape[1]):
                 Vu[:,u] = L[:,u] + V[f[:,u]]
             u = Vu.argmin(axis=1)
@@ -622,7 +622,7 @@ class FSC:
             res: Cost of the trajectory.
         """
         xT = x_list[-1]
-        res = self.LT[xT]
+        res = float(self.LT[xT])
         for k in range(len(u_list)):
             res += self.L[k][x_list[k],u_list[k]]
 
-- 
2.43.0


From 2fff0b8d79a36d3f420d177defada7824928d9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 18/21] fix: do not truncate combine_V_interp2 results for
 integer value functions

---
 parallel_control/hjb_grid_1d_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/hjb_grid_1d_np.py b/parallel_control/hjb_grid_1d_np.py
index db8eddb..7b7d33f 100644
--- a/parallel_control/hjb_grid_1d_np.py
+++ b/parallel_control/hjb_grid_1d_np.py
@@ -261,7 +261,7 @@ def combine_V_interp2(Vij, Vjk):
     """
 #    lam = 1e-6
     lam = 0.0
-    Vik = np.zeros_like(Vij)
+    Vik = np.zeros(Vij.shape, dtype=np.result_type(Vij, float))
     for i in range(Vij.shape[0]):
         for k in range(Vjk.shape[1]):
             f = Vij[i,:] + Vjk[:,k]
-- 
2.43.0


From c8644f4a31bda25fa394ddfa4f890ca98a80cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 19/21] fix: run_viterbi_experiments.py: accept the steps
 option it offers

The usage line (and the shell recipes) list [steps=10], but the option was refused.
---
 experiments-viterbi/run_viterbi_experiments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/experiments-viterbi/run_viterbi_experiments.py b/experiments-viterbi/run_viterbi_experiments.py
index aec9307..4a224e2 100644
--- a/experiments-viterbi/run_viterbi_experiments.py
+++ b/experiments-viterbi/run_viterbi_experiments.py
@@ -66,6 +66,8 @@ def main(argv):
             config[tmp[0]] = float(tmp[1])
         elif tmp[0] == 'num':
             config[tmp[0]] = int(tmp[1])
+        elif tmp[0] == 'steps':
+            config[tmp[0]] = int(tmp[1])
         elif tmp[0] == 'single':
             config[tmp[0]] = int(tmp[1])
         elif tmp[0] == 'device':
-- 
2.43.0


From 90172f6dca31a5a0dda2523db6659dae8b9520ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 20/21] fix: run_text_experiments_2.py: keep one configuration
 per number of steps

The results of every number of steps have a file of their own, but all runs wrote their
configuration to the same file, so the last one replaced those of the others.
---
 experiments-viterbi/run_text_experiments_2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments-viterbi/run_text_experiments_2.py b/experiments-viterbi/run_text_experiments_2.py
index 4cf7222..f396678 100644
--- a/experiments-viterbi/run_text_experiments_2.py
+++ b/experiments-viterbi/run_text_experiments_2.py
@@ -33,7 +33,7 @@ def write_to_file(name,methods,steps,run_times,errors,config):
         for m,t,e in zip(methods,run_times,errors):
             file.write("%d %d %d %f %f\n" % (m,order,steps,t,e))
 
-    cfilename = 'res/%s_%d_%s_config.txt' % (name,order,devtxt)
+    cfilename = 'res/%s_%d_%d_%s_config.txt' % (name,order,steps,devtxt)
     print("Saving config to '%s'" % cfilename)
 
     with open(cfilename, "w") as cfile:
-- 
2.43.0


From 58bdc48aea76ef7210b6a03427168895a6f59e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:27 +0000
Subject: [PATCH 21/21] fix: hjb_grid_1d_tf: direct shooting starts in the
 precision of the grid

---
 parallel_control/hjb_grid_1d_tf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parallel_control/hjb_grid_1d_tf.py b/parallel_control/hjb_grid_1d_tf.py
index 08286f6..efa2a23 100644
--- a/parallel_control/hjb_grid_1d_tf.py
+++ b/parallel_control/hjb_grid_1d_tf.py
@@ -116,7 +116,7 @@ def V_eval_1(g, L, T, steps, x0_grid, xf_grid, max_iter):
         _, con_v = fun_and_con_1(g, L, T, x0, xf, a_vec, b_vec)
         return con_v
 
-    theta0 = tf.zeros((x0_vec.shape[0], 2 * steps), dtype=tf.float64)
+    theta0 = tf.zeros((x0_vec.shape[0], 2 * steps), dtype=x0_vec.dtype)
     par = tf.stack([x0_vec, xf_vec], axis=-1)
     thetas, lams, crits = sqp_tf.local_eq_fast(fun, con, theta0, par, max_iter, batch=True)
     theta = thetas[-1, ...]
@@ -211,7 +211,7 @@ def V_eval_2(g, L, T, steps, x0_grid, xf_grid, max_iter):
         _, con_v = fun_and_con_2(g, L, T, x0, xf, theta)
         return con_v
 
-    theta0 = tf.zeros((x0_vec.shape[0], 1 + steps), dtype=tf.float64)
+    theta0 = tf.zeros((x0_vec.shape[0], 1 + steps), dtype=x0_vec.dtype)
     par = tf.stack([x0_vec, xf_vec], axis=-1)
     thetas, lams, crits = sqp_tf.local_eq_fast(fun, con, theta0, par, max_iter, batch=True)
     theta = thetas[-1, ...]
-- 
2.43.0

