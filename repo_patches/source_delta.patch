From 25515824332a439e41a9636f8d9630497fbab6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:26 +0000
Subject: [PATCH 1/9] fix: EllStable rank-one update and back-substitution use
 the right triangular entries

The scratch lower triangle held L(i,j)*w(j) instead of the partially
eliminated gradient needed by the LDL^T rank-one update, so L never left the
identity; the back-substitution read that scratch instead of L.
---
 src/ell_stable.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ell_stable.rs b/src/ell_stable.rs
index fcd9cb6..46fcffc 100644
--- a/src/ell_stable.rs
+++ b/src/ell_stable.rs
@@ -62,9 +62,9 @@ impl EllStable {
         for i in 1..ndim {
             let row_start_i = i * n;
             for j in 0..i {
-                let val = self.mq.at(j, i) * inv_ml_g[j];
-                self.mq.data_mut()[row_start_i + j] = val;
-                inv_ml_g[i] -= val;
+                inv_ml_g[i] -= self.mq.at(j, i) * inv_ml_g[j];
+                // keep the partially eliminated entry for the rank-one update
+                self.mq.data_mut()[row_start_i + j] = inv_ml_g[i];
             }
         }
 
@@ -93,7 +93,7 @@ impl EllStable {
         let mut g_t = inv_md_inv_ml_g.clone();
         for i in (1..ndim).rev() {
             for j in i..ndim {
-                g_t[i - 1] -= self.mq.at(j, i - 1) * g_t[j];
+                g_t[i - 1] -= self.mq.at(i - 1, j) * g_t[j];
             }
         }
 
-- 
2.43.0


From 1dd5174bfdbe0ae683ef0e0a87bea557ab2cba6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:37 +0000
Subject: [PATCH 2/9] fix: create_lowpass_case builds a non-empty passband
 specification

The ripple bounds were computed from delta*PI, which put the lower passband
bound (162) above the upper one (0.006), so every run reported no solution.
---
 src/oracles/lowpass_oracle.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/oracles/lowpass_oracle.rs b/src/oracles/lowpass_oracle.rs
index 89a971f..46d7767 100644
--- a/src/oracles/lowpass_oracle.rs
+++ b/src/oracles/lowpass_oracle.rs
@@ -1,6 +1,5 @@
 use crate::arr::{linspace, Arr};
 use crate::cutting_plane::{OracleFeas, OracleOptim, ParallelCut};
-use std::f64::consts::PI;
 
 pub type Cut = (Arr, ParallelCut);
 
@@ -153,8 +152,8 @@ impl OracleOptim<Arr> for LowpassOracle {
 pub fn create_lowpass_case(ndim: usize) -> LowpassOracle {
     let delta0_wpass = 0.025;
     let delta0_wstop = 0.125;
-    let delta1 = 20.0 * (delta0_wpass * PI).log10();
-    let delta2 = 20.0 * (delta0_wstop * PI).log10();
+    let delta1 = 20.0 * (1.0f64 + delta0_wpass).log10();
+    let delta2 = 20.0 * f64::log10(delta0_wstop);
 
     let low_pass = 10.0f64.powf(-delta1 / 20.0);
     let up_pass = 10.0f64.powf(delta1 / 20.0);
-- 
2.43.0


From 45eee68ca1dce2f78d15ce7b94ac5b873249fc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:58 +0000
Subject: [PATCH 3/9] fix: bsearch reports the narrowed interval through its
 mutable argument

---
 src/cutting_plane.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cutting_plane.rs b/src/cutting_plane.rs
index 6332811..a17e227 100644
--- a/src/cutting_plane.rs
+++ b/src/cutting_plane.rs
@@ -451,6 +451,7 @@ where
     for niter in 0..options.max_iters {
         let tau = (upper - lower) / 2.0;
         if tau < options.tolerance {
+            *intrvl = (lower, upper);
             return (upper != u_orig, niter);
         }
         let mut gamma = lower; // l may be `i32` or `Fraction`
@@ -462,5 +463,6 @@ where
             lower = gamma;
         }
     }
+    *intrvl = (lower, upper);
     (upper != u_orig, options.max_iters)
 }
-- 
2.43.0


From 4d1a5922935e4d982b8080f1a2c06dff0e822d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:08 +0000
Subject: [PATCH 4/9] fix: conjugate_gradient accepts a starting point that
 already solves the system

---
 src/conjugate_gradient.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/conjugate_gradient.rs b/src/conjugate_gradient.rs
index 4e31a21..89bc8dc 100644
--- a/src/conjugate_gradient.rs
+++ b/src/conjugate_gradient.rs
@@ -34,6 +34,9 @@ pub fn conjugate_gradient(
     let mut residual = b - &a.dot_mv(&x);
     let mut direction = residual.clone();
     let mut residual_norm_sq = residual.dot(&residual);
+    if residual_norm_sq.sqrt() < tol {
+        return Ok(x);
+    }
 
     for _iter in 0..max_iter {
         let a_dir = a.dot_mv(&direction);
-- 
2.43.0


From a0e35dd733b176a15b90fc7b748720ccd04fe9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 5/9] fix: power_iteration3 returns a unit vector when it runs
 out of iterations

---
 src/power_iteration.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/power_iteration.rs b/src/power_iteration.rs
index 6fdbfa9..3d1d10b 100644
--- a/src/power_iteration.rs
+++ b/src/power_iteration.rs
@@ -169,6 +169,7 @@ pub fn power_iteration3(a: &Arr, x: &mut Arr, options: &Options) -> (f64, usize)
             }
         }
     }
+    *x /= x.dot(x).sqrt();
     (eigenval, options.max_iters)
 }
 
-- 
2.43.0


From dfe65d168fea0b4d62f44050a986a7993b66e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:28 +0000
Subject: [PATCH 6/9] fix: calc_parallel_q reports no solution when the slab
 lies beyond the ellipsoid

---
 src/ell_calc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ell_calc.rs b/src/ell_calc.rs
index 40c7731..0df740c 100644
--- a/src/ell_calc.rs
+++ b/src/ell_calc.rs
@@ -798,6 +798,10 @@ impl EllCalc {
             return self.calc_bias_cut_q(beta0, tsq);
         }
 
+        if beta1 < 0.0 && beta1 * beta1 > tsq {
+            return (CutStatus::NoSoln, (0.0, 0.0, 0.0)); // no sol'n
+        }
+
         let b0b1 = beta0 * beta1;
         let eta = tsq + self.n_f * b0b1;
         if eta <= 0.0 {
-- 
2.43.0


From 66c1018d46972a728a5f2d79cca7841e20c13234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:47 +0000
Subject: [PATCH 7/9] fix: power_iteration3 renormalises before the iterate
 underflows

With a spectral radius below one the unnormalised iterate reached zero and the
Rayleigh quotient became NaN.
---
 src/power_iteration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/power_iteration.rs b/src/power_iteration.rs
index 3d1d10b..ff67218 100644
--- a/src/power_iteration.rs
+++ b/src/power_iteration.rs
@@ -153,7 +153,7 @@ pub fn power_iteration3(a: &Arr, x: &mut Arr, options: &Options) -> (f64, usize)
         let eigenval_prev = eigenval;
         x.clone_from(&new_vec);
         dot = x.dot(x);
-        if dot >= 1e150 {
+        if dot >= 1e150 || dot <= 1e-150 {
             *x /= x.dot(x).sqrt();
             new_vec = a.dot_mv(x);
             eigenval = x.dot(&new_vec);
-- 
2.43.0


From 381bca974b321e55b7e537e4cc83bc1ca6de12f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:19 +0000
Subject: [PATCH 8/9] fix: EllStable::new_with_matrix factorises a non-diagonal
 shape matrix

The matrix was taken as the internal factor storage, so any off-diagonal
entry described a different ellipsoid than the documented one.
---
 src/ell_stable.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/ell_stable.rs b/src/ell_stable.rs
index 46fcffc..e910ceb 100644
--- a/src/ell_stable.rs
+++ b/src/ell_stable.rs
@@ -15,7 +15,8 @@ pub struct EllStable {
 }
 
 impl EllStable {
-    pub fn new_with_matrix(kappa: f64, mq: Arr, xc: Arr) -> EllStable {
+    pub fn new_with_matrix(kappa: f64, mut mq: Arr, xc: Arr) -> EllStable {
+        Self::factorize(&mut mq);
         let helper = EllCalc::new(xc.len());
         EllStable {
             kappa,
@@ -34,6 +35,32 @@ impl EllStable {
         EllStable::new_with_matrix(val, Arr::eye(xc.len()), xc)
     }
 
+    /// Replace a shape matrix by the factors of its inverse $$ LDL^T $$ that
+    /// `update_core` works on: $$ D^{-1} $$ on the diagonal, $$ L^T $$ above it.
+    fn factorize(mq: &mut Arr) {
+        let n = mq.rows();
+        // mq = U * inv(D) * U', from the last column to the first
+        for j in (0..n).rev() {
+            for i in (0..=j).rev() {
+                let mut val = mq.at(i, j);
+                for k in (j + 1)..n {
+                    val -= mq.at(i, k) * mq.at(j, k) * mq.at(k, k);
+                }
+                mq.set(i, j, if i == j { val } else { val / mq.at(j, j) });
+            }
+        }
+        // L' = inv(U)
+        for i in (0..n).rev() {
+            for j in ((i + 1)..n).rev() {
+                let mut val = mq.at(i, j);
+                for k in (i + 1)..j {
+                    val += mq.at(i, k) * mq.at(k, j);
+                }
+                mq.set(i, j, -val);
+            }
+        }
+    }
+
     /// Update the ellipsoid using $$ LDL^T $$ factorization.
     ///
     /// The shape matrix is stored as $$ M = \kappa LDL^T $$.
-- 
2.43.0


From c242a95514aff2d8c656ced2da9b30b9cd1f2278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:04 +0000
Subject: [PATCH 9/9] fix: EllStable survives a cut that leaves the shape
 unchanged

A cut through the boundary case of the discrete rule has sigma = 0; dividing
by it filled the factors with NaN.
---
 src/ell_stable.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ell_stable.rs b/src/ell_stable.rs
index e910ceb..37c18d6 100644
--- a/src/ell_stable.rs
+++ b/src/ell_stable.rs
@@ -131,6 +131,10 @@ impl EllStable {
         }
 
         // Rank-one update
+        if sigma == 0.0 {
+            self.kappa *= delta;
+            return status;
+        }
         let mu_val = sigma / (1.0 - sigma);
         let mut oldt = omega / mu_val;
         let last_idx = ndim - 1;
-- 
2.43.0

