From 65d11b90492c8009992fe66b730a7303220c7286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 01/38] fix: keep negative votes in
 WeightedMajority::from_slices

AdaBoost and its relatives vote against a hypothesis of negative edge, and
use it alone with weight -1 when it is wrong everywhere; dropping the vote
lost it, or panicked when it was the only one. Solver round-off, which the
old filter also removed, is now clamped where it arises.
---
 src/booster/lpboost/lp_model.rs            | 5 ++++-
 src/booster/mlpboost/perturbed_lp_model.rs | 5 ++++-
 src/booster/softboost/qp_model.rs          | 5 ++++-
 src/hypothesis/weighted_majority.rs        | 2 +-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/booster/lpboost/lp_model.rs b/src/booster/lpboost/lp_model.rs
index 4f917bf..5d29ad3 100644
--- a/src/booster/lpboost/lp_model.rs
+++ b/src/booster/lpboost/lp_model.rs
@@ -184,7 +184,10 @@ impl LPModel {
         //          ↓
         // [ ρ, ξ, w[0], w[1], ..., w[T] ]
         let size = 1 + self.n_examples;
-        self.weights = solver.solution.x[size..].to_vec();
+        // An interior-point solution may violate the non-negativity slightly.
+        self.weights = solver.solution.x[size..].iter()
+            .map(|w| w.max(0f64))
+            .collect();
         self.dist = solver.solution.z[..self.n_examples].to_vec();
 
         let wsum = self.weights.iter().sum::<f64>();
diff --git a/src/booster/mlpboost/perturbed_lp_model.rs b/src/booster/mlpboost/perturbed_lp_model.rs
index 7c318d3..2ecc64d 100644
--- a/src/booster/mlpboost/perturbed_lp_model.rs
+++ b/src/booster/mlpboost/perturbed_lp_model.rs
@@ -134,7 +134,10 @@ impl LPModel {
             solver.solve();
 
             let ix = 2 * self.n_examples + 1;
-            self.weights = solver.solution.z[ix..].to_vec();
+            // An interior-point solution may violate the non-negativity slightly.
+            self.weights = solver.solution.z[ix..].iter()
+                .map(|w| w.max(0f64))
+                .collect();
             self.dist = solver.solution.x[1..].to_vec();
         }
 
diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index 1fb95a3..18cb8d2 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -374,7 +374,10 @@ impl QPModel {
 
         solver.solve();
         let start = 1 + 2*self.n_examples;
-        let solution = solver.solution.z[start..].to_vec();
+        // An interior-point solution may violate the non-negativity slightly.
+        let solution = solver.solution.z[start..].iter()
+            .map(|w| w.max(0f64))
+            .collect::<Vec<_>>();
         solution.into_iter()
     }
 }
diff --git a/src/hypothesis/weighted_majority.rs b/src/hypothesis/weighted_majority.rs
index 5e0a9a6..9edcf03 100644
--- a/src/hypothesis/weighted_majority.rs
+++ b/src/hypothesis/weighted_majority.rs
@@ -29,7 +29,7 @@ impl<H: Clone> WeightedMajority<H> {
             .copied()
             .zip(hypotheses)
             .for_each(|(w, h)| {
-                if w > 0.0 {
+                if w != 0.0 {
                     new_weights.push(w);
                     new_hypotheses.push(h.clone());
                 }
-- 
2.43.0


From 32efe55cbd7b9148576661a30a2dbe1fb27b280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 02/38] fix: let MadaBoost lower the weight of correctly
 classified examples

The log-weights must start at ln 1 = 0, move by y h(x) ln(beta) (beta < 1
for a hypothesis better than chance) and be capped at ln 1 = 0; the code
used 1/m, beta and 1, so misclassified examples lost weight.
---
 src/booster/madaboost/madaboost_algorithm.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/booster/madaboost/madaboost_algorithm.rs b/src/booster/madaboost/madaboost_algorithm.rs
index d98c87f..541829d 100644
--- a/src/booster/madaboost/madaboost_algorithm.rs
+++ b/src/booster/madaboost/madaboost_algorithm.rs
@@ -211,7 +211,7 @@ impl<'a, F> MadaBoost<'a, F> {
         // To prevent overflow, take the logarithm.
         self.betas.par_iter_mut()
             .zip(margins)
-            .for_each(|(b, yh)| { *b += yh * beta; });
+            .for_each(|(b, yh)| { *b += yh * beta.ln(); });
 
 
         alpha
@@ -224,7 +224,7 @@ impl<'a, F> MadaBoost<'a, F> {
         let weights = {
             let mut weights = self.betas.iter()
                 .copied()
-                .map(|b| b.min(1f64))
+                .map(|b| b.min(0f64))
                 .collect::<Vec<_>>();
             weights.shrink_to_fit();
             weights
@@ -296,8 +296,7 @@ impl<F> Booster<F> for MadaBoost<'_, F>
         self.sample.is_valid_binary_instance();
         // Initialize parameters
         let n_sample = self.sample.shape().0;
-        let uni = 1.0 / n_sample as f64;
-        self.betas = vec![uni; n_sample];
+        self.betas = vec![0.0; n_sample];
 
         self.alphas = Vec::new();
         self.hypotheses = Vec::new();
-- 
2.43.0


From 962460fc89a81fe6f133958068bd14219755a8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 03/38] fix: let every SmoothBoost hypothesis vote

The weight vector had one entry per training example, not per hypothesis, so
hypotheses beyond the n_sample-th were dropped from the output.
---
 src/booster/smoothboost/smoothboost_algorithm.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/booster/smoothboost/smoothboost_algorithm.rs b/src/booster/smoothboost/smoothboost_algorithm.rs
index 545e210..34ff073 100644
--- a/src/booster/smoothboost/smoothboost_algorithm.rs
+++ b/src/booster/smoothboost/smoothboost_algorithm.rs
@@ -344,8 +344,9 @@ impl<F> Booster<F> for SmoothBoost<'_, F>
     ) -> Self::Output
         where W: WeakLearner<Hypothesis = F>
     {
-        let weight = 1.0 / self.terminated as f64;
-        let weights = vec![weight; self.n_sample];
+        let n_hypotheses = self.hypotheses.len();
+        let weight = 1.0 / n_hypotheses as f64;
+        let weights = vec![weight; n_hypotheses];
         WeightedMajority::from_slices(&weights[..], &self.hypotheses[..])
     }
 }
@@ -356,8 +357,9 @@ impl<H> Research for SmoothBoost<'_, H>
 {
     type Output = WeightedMajority<H>;
     fn current_hypothesis(&self) -> Self::Output {
-        let weight = 1.0 / self.terminated as f64;
-        let weights = vec![weight; self.n_sample];
+        let n_hypotheses = self.hypotheses.len();
+        let weight = 1.0 / n_hypotheses as f64;
+        let weights = vec![weight; n_hypotheses];
         WeightedMajority::from_slices(&weights[..], &self.hypotheses[..])
     }
 }
-- 
2.43.0


From 4b6a76b7167f1c39a353f0ee078af9c7b28cb6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 04/38] fix: cap the example weights at 1/nu in the LP and QP
 sub-problems

LPBoost priced slack at nu instead of 1/nu, which leaves the dual without a
binding cap; SoftBoost and MLPBoost put 1/nu on both sides of d_i <= 1/nu.
---
 src/booster/lpboost/lp_model.rs            | 2 +-
 src/booster/mlpboost/perturbed_lp_model.rs | 2 +-
 src/booster/softboost/qp_model.rs          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/booster/lpboost/lp_model.rs b/src/booster/lpboost/lp_model.rs
index 5d29ad3..00cfa98 100644
--- a/src/booster/lpboost/lp_model.rs
+++ b/src/booster/lpboost/lp_model.rs
@@ -82,7 +82,7 @@ impl LPModel {
         // Set the linear part of the objective function 
         // as the minimization form
         // - ρ + (1/ν) Σ_i ξ_i
-        let mut lin_obj = vec![1f64/upper_bound; n_examples+1];
+        let mut lin_obj = vec![upper_bound; n_examples+1];
         lin_obj[0] = -1f64;
 
         let mut col_ptr = vec![0usize];
diff --git a/src/booster/mlpboost/perturbed_lp_model.rs b/src/booster/mlpboost/perturbed_lp_model.rs
index 2ecc64d..2103e74 100644
--- a/src/booster/mlpboost/perturbed_lp_model.rs
+++ b/src/booster/mlpboost/perturbed_lp_model.rs
@@ -182,7 +182,7 @@ impl LPModel {
 
             // capping constraint: `d_i ≤ 1/ν`
             row_val.push(self.n_examples + j);
-            nonzero.push(self.cap_inv);
+            nonzero.push(1f64);
 
             // margin constraints of `i`-th column
             for (i, &yh) in (0..).zip(margins) {
diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index 18cb8d2..ed1d34c 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -236,7 +236,7 @@ impl QPModel {
 
             // capping constraint: `d_i ≤ 1/ν`
             row_val.push(self.n_examples + j + 1);
-            nonzero.push(self.cap_inv);
+            nonzero.push(1f64);
 
             // margin constraints of `i`-th column
             for (i, &yh) in (0..).zip(margins) {
-- 
2.43.0


From 4c2dba34ee046d59927baf6cc04f4f111b8d55e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 05/38] fix: make SoftBoost ask for edges below gamma_hat -
 tolerance

Without the tolerance the uniform distribution stays feasible and SoftBoost
keeps showing it until the round limit; and an infeasible sub-problem, which
is the stopping criterion, has to be recognised by its status.
---
 src/booster/softboost/qp_model.rs            | 8 ++++++++
 src/booster/softboost/softboost_algorithm.rs | 7 ++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index ed1d34c..86eddb1 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -140,6 +140,14 @@ impl QPModel {
             );
 
             solver.solve();
+            // breaks if no distribution satisfies the edge constraints.
+            if matches!(
+                solver.solution.status,
+                SolverStatus::PrimalInfeasible
+                | SolverStatus::AlmostPrimalInfeasible
+            ) {
+                return None;
+            }
             let solution = &solver.solution.x[..];
 
             // breaks if there is a zero-valued coordinate in the solution.
diff --git a/src/booster/softboost/softboost_algorithm.rs b/src/booster/softboost/softboost_algorithm.rs
index dfca910..5a49d66 100644
--- a/src/booster/softboost/softboost_algorithm.rs
+++ b/src/booster/softboost/softboost_algorithm.rs
@@ -252,7 +252,12 @@ impl<F> SoftBoost<'_, F>
         self.qp_model.as_ref()
             .expect("Failed to call `.as_ref()` to `self.qp_model`")
             .borrow_mut()
-            .update(self.sample, &mut self.dist[..], self.gamma_hat, h)
+            .update(
+                self.sample,
+                &mut self.dist[..],
+                self.gamma_hat - self.tolerance,
+                h,
+            )
     }
 }
 
-- 
2.43.0


From e5833944035c97b4dce8c4e53864fb6fa1eaf44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 06/38] fix: keep MLPBoost's LP weights inside [0, 1]

A solver overshoot of one ulp tripped the capping assertion.
---
 src/booster/mlpboost/perturbed_lp_model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/booster/mlpboost/perturbed_lp_model.rs b/src/booster/mlpboost/perturbed_lp_model.rs
index 2103e74..7e9237e 100644
--- a/src/booster/mlpboost/perturbed_lp_model.rs
+++ b/src/booster/mlpboost/perturbed_lp_model.rs
@@ -134,9 +134,9 @@ impl LPModel {
             solver.solve();
 
             let ix = 2 * self.n_examples + 1;
-            // An interior-point solution may violate the non-negativity slightly.
+            // An interior-point solution may leave the simplex slightly.
             self.weights = solver.solution.z[ix..].iter()
-                .map(|w| w.max(0f64))
+                .map(|w| w.clamp(0f64, 1f64))
                 .collect();
             self.dist = solver.solution.x[1..].to_vec();
         }
-- 
2.43.0


From e7d422eadcaccb331c4e3d33d01a9145c0e0ceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 07/38] fix: make the line-search and blended-pairwise steps
 ascend

Both tested and bisected the derivative with the wrong sign, evaluated it at
the direction instead of the end point, and blended-pairwise never looked at
the newly returned hypothesis and moved weight to the wrong index.
---
 src/common/frank_wolfe.rs | 53 ++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 29 deletions(-)

diff --git a/src/common/frank_wolfe.rs b/src/common/frank_wolfe.rs
index 7ef873d..1d0060c 100644
--- a/src/common/frank_wolfe.rs
+++ b/src/common/frank_wolfe.rs
@@ -193,6 +193,9 @@ impl FrankWolfe {
     ) -> Vec<f64>
         where H: Classifier,
     {
+        if hypotheses.len() == 1 { return vec![1.0]; }
+
+
         // base: w
         // dir:  e_h - w
         let base = weights.clone();
@@ -215,8 +218,11 @@ impl FrankWolfe {
 
 
         // Check the case where the step size is `1`.
-        let dist = utils::exp_distribution(
-            self.eta, self.nu, sample, &dir[..], hypotheses,
+        let margins = base_margins.iter()
+            .zip(&dir_margins[..])
+            .map(|(&b, &d)| b + d);
+        let dist = utils::exp_distribution_from_margins(
+            self.eta, self.nu, margins,
         );
 
 
@@ -224,7 +230,7 @@ impl FrankWolfe {
         let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
 
-        if dot <= 0.0 {
+        if dot >= 0.0 {
             let n_weights = weights.len();
             weights = vec![0.0; n_weights];
             weights[position_of_new_one] = 1.0;
@@ -249,9 +255,9 @@ impl FrankWolfe {
             // Compute the gradient for the direction `dir`.
             let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
-            if dot < 0.0 {
+            if dot > 0.0 {
                 lb = step_size;
-            } else if dot > 0.0 {
+            } else if dot < 0.0 {
                 ub = step_size;
             } else {
                 break;
@@ -279,10 +285,8 @@ impl FrankWolfe {
         // Find a hypothesis that has a smallest edge.
         let mut worst_edge = 2.0;
         let mut local_best_edge = -2.0;
-        let mut global_best_edge = -2.0;
         let mut position_of_worst_one = hypotheses.len();
         let mut position_of_local_best_one = hypotheses.len();
-        let mut position_of_global_best_one = position_of_new_one;
         weights.iter()
             .zip(hypotheses)
             .enumerate()
@@ -295,16 +299,11 @@ impl FrankWolfe {
                 }
             })
             .for_each(|(j, edge)| {
-                if j != position_of_new_one && edge > local_best_edge {
+                if edge > local_best_edge {
                     local_best_edge = edge;
                     position_of_local_best_one = j;
                 }
 
-                if edge > global_best_edge {
-                    global_best_edge = edge;
-                    position_of_global_best_one = j;
-                }
-
 
                 if edge < worst_edge {
                     worst_edge = edge;
@@ -312,13 +311,10 @@ impl FrankWolfe {
                 }
             });
 
-        // If the following condition holds,
-        // the global FW atom is not the newly attained one
-        // so that the local one is the same as the global one.
-        if position_of_global_best_one + 1 != hypotheses.len() {
-            local_best_edge = global_best_edge;
-            position_of_local_best_one = position_of_global_best_one;
-        }
+        // The global FW atom is the one the weak learner has just returned.
+        let global_best_edge = utils::edge_of_hypothesis(
+            sample, dist, &hypotheses[position_of_new_one],
+        );
 
         let current_edge = utils::edge_of_weighted_hypothesis(
             sample, dist, &weights[..], hypotheses
@@ -353,21 +349,20 @@ impl FrankWolfe {
 
             let margins = dir_margins.iter()
                 .zip(base_margins.iter())
-                .map(|(dir, cur)| cur + max_stepsize * dir)
-                .collect::<Vec<_>>();
+                .map(|(dir, cur)| cur + max_stepsize * dir);
 
 
-            let dist = utils::exp_distribution(
-                self.eta, self.nu, sample, &margins[..], hypotheses,
+            let dist = utils::exp_distribution_from_margins(
+                self.eta, self.nu, margins,
             );
 
 
             // If the max step size is the best one,
             // 1. Set 0 weight on `position_of_worst_one`,
-            // 2. Set `max_stepsize` on `position_of_local_best_one`.
-            if utils::inner_product(&dist[..], &dir_margins[..]) <= 0.0 {
-                weights[position_of_new_one] = max_stepsize;
+            // 2. Add `max_stepsize` to `position_of_local_best_one`.
+            if utils::inner_product(&dist[..], &dir_margins[..]) >= 0.0 {
                 weights[position_of_worst_one] = 0.0;
+                weights[position_of_local_best_one] += max_stepsize;
                 return weights;
             }
 
@@ -387,9 +382,9 @@ impl FrankWolfe {
                 // Compute the gradient for the direction `dir`.
                 let dot = utils::inner_product(&dist[..], &dir_margins[..]);
 
-                if dot < 0.0 {
+                if dot > 0.0 {
                     lb = step_size;
-                } else if dot > 0.0 {
+                } else if dot < 0.0 {
                     ub = step_size;
                 } else {
                     break;
-- 
2.43.0


From d03d842e026576481da95244741bfc051b341704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 08/38] fix: run at least one round when nu equals the number
 of examples

---
 src/booster/cerlpboost/cerlpboost_algorithm.rs | 3 ++-
 src/booster/mlpboost/mlpboost_algorithm.rs     | 5 ++++-
 src/booster/softboost/softboost_algorithm.rs   | 3 ++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/booster/cerlpboost/cerlpboost_algorithm.rs b/src/booster/cerlpboost/cerlpboost_algorithm.rs
index 1f02697..24e5102 100644
--- a/src/booster/cerlpboost/cerlpboost_algorithm.rs
+++ b/src/booster/cerlpboost/cerlpboost_algorithm.rs
@@ -229,7 +229,8 @@ impl<'a, F> CERLPBoost<'a, F> {
         let ln_m = (m / self.nu).ln();
         let max_iter = 8.0 * ln_m / self.half_tolerance.powi(2);
 
-        max_iter.ceil() as usize
+        // `ln_m` is zero when `nu` equals the number of examples.
+        (max_iter.ceil() as usize).max(1)
     }
 
 
diff --git a/src/booster/mlpboost/mlpboost_algorithm.rs b/src/booster/mlpboost/mlpboost_algorithm.rs
index d14387c..e806910 100644
--- a/src/booster/mlpboost/mlpboost_algorithm.rs
+++ b/src/booster/mlpboost/mlpboost_algorithm.rs
@@ -297,7 +297,10 @@ impl<'a, F> MLPBoost<'a, F> {
     /// Time complexity: `O(1)`.
     pub fn max_loop(&self) -> usize {
         let ln_m = (self.n_sample as f64 / self.nu).ln();
-        (8.0_f64 * ln_m / self.half_tolerance.powi(2)).ceil() as usize
+        let max_iter = 8.0_f64 * ln_m / self.half_tolerance.powi(2);
+
+        // `ln_m` is zero when `nu` equals the number of examples.
+        (max_iter.ceil() as usize).max(1)
     }
 
 
diff --git a/src/booster/softboost/softboost_algorithm.rs b/src/booster/softboost/softboost_algorithm.rs
index 5a49d66..0068c40 100644
--- a/src/booster/softboost/softboost_algorithm.rs
+++ b/src/booster/softboost/softboost_algorithm.rs
@@ -221,7 +221,8 @@ impl<'a, F> SoftBoost<'a, F>
         let temp = (n_sample / self.nu).ln();
         let max_iter = 2.0 * temp / self.tolerance.powi(2);
 
-        max_iter.ceil() as usize
+        // `temp` is zero when `nu` equals the number of examples.
+        (max_iter.ceil() as usize).max(1)
     }
 }
 
-- 
2.43.0


From af99eaefbf6f64b1e96a0838bed4639c67641fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 09/38] fix: treat a SoftBoost sub-problem without a feasible
 solution as infeasible

---
 src/booster/softboost/qp_model.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index 86eddb1..871da7c 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -13,6 +13,8 @@ use crate::hypothesis::Classifier;
 use std::iter;
 
 const QP_TOLERANCE: f64 = 1e-9;
+// Largest accepted violation of the constraints.
+const FEASIBILITY_TOLERANCE: f64 = 1e-7;
 
 /// A quadratic programming model for edge minimization. 
 /// `QPModel` solves the entropy regularized edge minimization problem:
@@ -141,13 +143,15 @@ impl QPModel {
 
             solver.solve();
             // breaks if no distribution satisfies the edge constraints.
-            if matches!(
-                solver.solution.status,
-                SolverStatus::PrimalInfeasible
-                | SolverStatus::AlmostPrimalInfeasible
-            ) {
-                return None;
-            }
+            // Near the boundary this may show as a solver that gets stuck
+            // at a point that violates them.
+            let feasible = match solver.solution.status {
+                SolverStatus::Solved | SolverStatus::AlmostSolved => true,
+                SolverStatus::InsufficientProgress
+                    => solver.solution.r_prim <= FEASIBILITY_TOLERANCE,
+                _ => false,
+            };
+            if !feasible { return None; }
             let solution = &solver.solution.x[..];
 
             // breaks if there is a zero-valued coordinate in the solution.
-- 
2.43.0


From 4eb0f73ca167430c33dfb95b7e5edc16e863cf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 10/38] fix: refuse a CSV row with too few values instead of
 shifting its columns

---
 src/sample/sample_struct.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index 4d1a77f..611a87e 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -113,12 +113,17 @@ impl Sample {
                 continue;
             }
 
-            line.split(',')
+            let xs = line.split(',')
                 .map(|x| x.trim().parse::<f64>().unwrap())
-                .enumerate()
-                .for_each(|(i, x)| {
-                    features[i].append(x);
-                });
+                .collect::<Vec<_>>();
+            assert_eq!(
+                xs.len(), features.len(),
+                "The number of values differs from the number of columns. \
+                 Got {line} in Line {i}"
+            );
+            for (feat, x) in features.iter_mut().zip(xs) {
+                feat.append(x);
+            }
 
             n_sample += 1;
         }
-- 
2.43.0


From 1b4628d5415fa1c94c2b107921f970df93e089d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 11/38] fix: do not store explicit zeros in a sparse feature

---
 src/sample/feature_struct.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sample/feature_struct.rs b/src/sample/feature_struct.rs
index 93c2a6d..e5ede82 100644
--- a/src/sample/feature_struct.rs
+++ b/src/sample/feature_struct.rs
@@ -358,8 +358,11 @@ impl SparseFeature {
 
 
     /// Append an example to this feature.
+    /// A zero value is not stored.
     pub fn append(&mut self, (i, x): (usize, f64)) {
-        self.sample.push((i, x));
+        if x != 0.0 {
+            self.sample.push((i, x));
+        }
     }
 
 
-- 
2.43.0


From 639c9eb1f88ab6b9a1d70623d4c7718479ce425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 12/38] fix: average a sparse feature over the examples of the
 requested label

---
 src/sample/feature_struct.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sample/feature_struct.rs b/src/sample/feature_struct.rs
index e5ede82..dc9cf86 100644
--- a/src/sample/feature_struct.rs
+++ b/src/sample/feature_struct.rs
@@ -453,9 +453,8 @@ impl SparseFeature {
         let mut total_weight = utils::total_weight_for_label(y, target, weight);
         if total_weight == 0.0 { total_weight = MINIMAL_WEIGHT_SUM; }
         self.sample.iter()
-            .zip(target)
-            .map(|((i, f), &t)|
-                if t == y { 0.0 } else { weight[*i] * f }
+            .map(|(i, f)|
+                if target[*i] != y { 0.0 } else { weight[*i] * f }
             )
             .sum::<f64>()
             / total_weight
-- 
2.43.0


From f2834fc1d82e94d7476dba8093639339fa4ae67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 13/38] fix: count only the requested label's zeros in a sparse
 variance

---
 src/sample/feature_struct.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sample/feature_struct.rs b/src/sample/feature_struct.rs
index dc9cf86..55821e0 100644
--- a/src/sample/feature_struct.rs
+++ b/src/sample/feature_struct.rs
@@ -499,14 +499,18 @@ impl SparseFeature {
         let mut zero_weight = 0.0;
         let mut prev = 0;
         for &(i, f) in self.sample.iter() {
-            zero_weight += weight[prev..i].iter().sum::<f64>();
+            zero_weight += utils::total_weight_for_label(
+                y, &target[prev..i], &weight[prev..i]
+            );
             prev = i + 1;
             if target[i] == y {
                 variance += weight[i] * (f - mean).powi(2);
             }
         }
 
-        zero_weight += weight[prev..].iter().sum::<f64>();
+        zero_weight += utils::total_weight_for_label(
+            y, &target[prev..], &weight[prev..]
+        );
 
         variance += zero_weight * mean.powi(2);
         variance / total_weight
-- 
2.43.0


From 76f3c191be5efa150ed78b0473d987c7c4bcb355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 14/38] fix: renumber the rows of a split sample

---
 src/sample/sample_struct.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index 611a87e..24c7159 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -583,12 +583,12 @@ impl Sample {
 
         for (i, &ii) in ix.iter().enumerate().take(end).skip(start) {
             let (x, y) = self.at(ii);
-            test.append(i, x, y);
+            test.append(i - start, x, y);
         }
 
         for (i, &ii) in ix.iter().enumerate().take(self.n_sample).skip(end) {
             let (x, y) = self.at(ii);
-            train.append(i, x, y);
+            train.append(i - test_size, x, y);
         }
 
         (train, test)
-- 
2.43.0


From 8b0fc3881d39f238a087f9c592dd806060acf2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 15/38] fix: give an empty test set to the folds past the end
 of the sample

---
 src/research/cross_validation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/research/cross_validation.rs b/src/research/cross_validation.rs
index 6eeec32..4d5e820 100644
--- a/src/research/cross_validation.rs
+++ b/src/research/cross_validation.rs
@@ -146,7 +146,8 @@ impl<'a> CrossValidation<'a> {
     fn fold_at(&self, i: usize) -> (Sample, Sample) {
         let sample_size = self.sample.shape().0;
         let test_size = sample_size - self.train_size;
-        let (start, end) = (i*test_size, ((i+1)*test_size).min(sample_size));
+        let start = (i*test_size).min(sample_size);
+        let end = ((i+1)*test_size).min(sample_size);
         self.sample.split(&self.ix, start, end)
     }
 }
-- 
2.43.0


From 12f73754adcf7dfd2a515ff05bc1d73e2e4a9249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 16/38] fix: cut a feature of any range into the requested
 number of bins

---
 src/weak_learner/decision_tree/bin.rs   | 23 ++---------------------
 src/weak_learner/regression_tree/bin.rs | 23 ++---------------------
 2 files changed, 4 insertions(+), 42 deletions(-)

diff --git a/src/weak_learner/decision_tree/bin.rs b/src/weak_learner/decision_tree/bin.rs
index 53e3c24..0494639 100644
--- a/src/weak_learner/decision_tree/bin.rs
+++ b/src/weak_learner/decision_tree/bin.rs
@@ -17,9 +17,6 @@ use crate::sample::{
 
 
 const EPS: f64 = 0.001;
-/// A tolerance parameter for numerical error.
-/// This program ignores the difference smaller than this value.
-const NUM_TOLERANCE: f64 = 1e-9;
 
 
 /// Binning: A feature processing.
@@ -122,20 +119,12 @@ impl Bins {
         let mut bins = Vec::with_capacity(n_bin);
 
         let mut left = min;
-        while left < max {
+        for _ in 0..n_bin {
             let right = left + intercept;
             bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
             left = right;
         }
 
-
-        assert_eq!(bins.len(), n_bin);
-
         Self(bins)
     }
 
@@ -176,20 +165,12 @@ impl Bins {
         let mut bins = Vec::with_capacity(n_bin);
 
         let mut left = min;
-        while left < max {
+        for _ in 0..n_bin {
             let right = left + intercept;
             bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
             left = right;
         }
 
-
-        assert_eq!(bins.len(), n_bin);
-
         Self(bins)
     }
 
diff --git a/src/weak_learner/regression_tree/bin.rs b/src/weak_learner/regression_tree/bin.rs
index 148b1ce..7a0618f 100644
--- a/src/weak_learner/regression_tree/bin.rs
+++ b/src/weak_learner/regression_tree/bin.rs
@@ -13,9 +13,6 @@ use crate::sample::{
 
 
 const EPS: f64 = 0.001;
-/// A tolerance parameter for numerical error.
-/// This program ignores the difference smaller than this value.
-const NUM_TOLERANCE: f64 = 1e-9;
 
 
 type Gradient = f64;
@@ -122,20 +119,12 @@ impl Bins {
         let mut bins = Vec::with_capacity(n_bin);
 
         let mut left = min;
-        while left < max {
+        for _ in 0..n_bin {
             let right = left + intercept;
             bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
             left = right;
         }
 
-
-        assert_eq!(bins.len(), n_bin);
-
         Self(bins)
     }
 
@@ -176,20 +165,12 @@ impl Bins {
         let mut bins = Vec::with_capacity(n_bin);
 
         let mut left = min;
-        while left < max {
+        for _ in 0..n_bin {
             let right = left + intercept;
             bins.push(Bin::new(left..right));
-
-            // Numerical error leads an unexpected split.
-            // So, we ignore the bin with width smaller than 1e-9.
-            if (right - max).abs() < NUM_TOLERANCE { break; }
-
             left = right;
         }
 
-
-        assert_eq!(bins.len(), n_bin);
-
         Self(bins)
     }
 
-- 
2.43.0


From 9a32a7e24fbbdf96eaa19655a7c50e7a5058acd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 17/38] fix: ignore rounding residue when scoring a split with
 an empty side

---
 .../regression_tree/regression_tree_algorithm.rs       | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/weak_learner/regression_tree/regression_tree_algorithm.rs b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
index b3d331f..b8e6af2 100644
--- a/src/weak_learner/regression_tree/regression_tree_algorithm.rs
+++ b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
@@ -303,13 +303,21 @@ fn best_split_at(
     let mut best_threshold = f64::MIN;
 
 
-    for (bin, grad, hess) in pack {
+    let n_bin = pack.len();
+    for (i, (bin, grad, hess)) in pack.into_iter().enumerate() {
         left_grad_sum  += grad;
         left_hess_sum  += hess;
         right_grad_sum -= grad;
         right_hess_sum -= hess;
 
 
+        // Nothing is on the right of the last bin.
+        if i + 1 == n_bin {
+            right_grad_sum = 0.0;
+            right_hess_sum = 0.0;
+        }
+
+
         let score = 
             left_grad_sum.powi(2) / (left_hess_sum + lambda_l2)
             + right_grad_sum.powi(2) / (right_hess_sum + lambda_l2);
-- 
2.43.0


From 95656f87bc66ced3e852ff2209a625fcbb06bd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 18/38] fix: split a regression tree node whose gradients
 cancel

---
 src/weak_learner/regression_tree/bin.rs       | 27 +++++++------------
 .../regression_tree_algorithm.rs              |  4 +--
 2 files changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/weak_learner/regression_tree/bin.rs b/src/weak_learner/regression_tree/bin.rs
index 7a0618f..6212f24 100644
--- a/src/weak_learner/regression_tree/bin.rs
+++ b/src/weak_learner/regression_tree/bin.rs
@@ -186,6 +186,7 @@ impl Bins {
         let n_bins = self.0.len();
         let mut grad_pack = vec![0f64; n_bins];
         let mut hess_pack = vec![0f64; n_bins];
+        let mut occupied = vec![false; n_bins];
 
         for &i in indices {
             let xi = feat[i];
@@ -200,8 +201,11 @@ impl Bins {
                 .unwrap();
             grad_pack[pos] += gradient[i];
             hess_pack[pos] += hessian[i];
+            occupied[pos] = true;
         }
-        self.remove_zero_weight_pack_and_normalize(grad_pack, hess_pack)
+        self.remove_zero_weight_pack_and_normalize(
+            grad_pack, hess_pack, occupied
+        )
     }
 
 
@@ -228,28 +232,17 @@ impl Bins {
         &self,
         grad_pack: Vec<Gradient>,
         hess_pack: Vec<Hessian>,
+        occupied: Vec<bool>,
     ) -> Vec<(Bin, Gradient, Hessian)>
     {
-        let mut iter = self.0.iter().zip(grad_pack.into_iter().zip(hess_pack));
+        let mut iter = self.0.iter()
+            .zip(grad_pack.into_iter().zip(hess_pack))
+            .zip(occupied)
+            .filter_map(|(item, occupied)| occupied.then_some(item));
 
         let (prev_bin, (mut prev_grad, mut prev_hess)) = iter.next().unwrap();
 
         let mut prev_bin = Bin::new(prev_bin.0.clone());
-        let mut iter = iter.filter(|(_, (grad, hess))| {
-            *grad != 0.0 || *hess != 0.0
-        });
-
-        // The left-most bin might have zero weight.
-        // In this case, find the next non-zero weight bin and merge.
-        if prev_grad == 0.0 && prev_hess == 0.0 {
-            let (next_bin, (next_grad, next_hess)) = iter.next().unwrap();
-
-            let start = prev_bin.0.start;
-            let end = next_bin.0.end;
-            prev_bin = Bin::new(start..end);
-            prev_grad = next_grad;
-            prev_hess = next_hess;
-        }
 
         let mut bin_and_gh = Vec::new();
         for (next_bin, (next_grad, next_hess)) in iter {
diff --git a/src/weak_learner/regression_tree/regression_tree_algorithm.rs b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
index b8e6af2..509e01a 100644
--- a/src/weak_learner/regression_tree/regression_tree_algorithm.rs
+++ b/src/weak_learner/regression_tree/regression_tree_algorithm.rs
@@ -114,8 +114,8 @@ impl<'a, L> RegressionTree<'a, L> {
         );
 
 
-        // If sum of `dist` over `train` is zero, construct a leaf node.
-        if loss == 0.0 || max_depth <= 1 {
+        // If all gradients are zero, construct a leaf node.
+        if indices.iter().all(|&i| gradient[i] == 0.0) || max_depth <= 1 {
             return TrainNode::leaf(pred, loss);
         }
 
-- 
2.43.0


From f33bf77e6c8ddcc6d02a52599215364c5ef5ab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 19/38] fix: add each feature's log variance once in the
 Gaussian density

---
 src/weak_learner/naive_bayes/probability.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/weak_learner/naive_bayes/probability.rs b/src/weak_learner/naive_bayes/probability.rs
index a529815..aa787f7 100644
--- a/src/weak_learner/naive_bayes/probability.rs
+++ b/src/weak_learner/naive_bayes/probability.rs
@@ -45,7 +45,7 @@ impl Probability for Gaussian {
             .map(|((&mean, &var), feat)| {
                 let x = feat[row];
 
-                ((x - mean).powi(2) / var) + n_features * var.ln()
+                ((x - mean).powi(2) / var) + var.ln()
             })
             .sum::<f64>();
 
-- 
2.43.0


From 4614dcd7dafe729f1f107faf3e8586742ee645ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 20/38] fix: leave labels without weight out of the naive Bayes
 classifier

---
 src/weak_learner/naive_bayes/nbayes.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/weak_learner/naive_bayes/nbayes.rs b/src/weak_learner/naive_bayes/nbayes.rs
index 30e1950..a070338 100644
--- a/src/weak_learner/naive_bayes/nbayes.rs
+++ b/src/weak_learner/naive_bayes/nbayes.rs
@@ -43,6 +43,8 @@ impl WeakLearner for GaussianNB {
         for y in uniq {
             let prior = utils::total_weight_for_label(y, target, dist)
                 .clamp(0.0, 1.0);
+            // A label without weight has no density.
+            if prior == 0.0 { continue; }
             let (means, vars) = sample
                 .weighted_mean_and_variance_for_label(y, dist)
                 .into_iter()
-- 
2.43.0


From 6c867f3923503da307e64db67c24be6bbda1c665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 21/38] fix: fit the GBM coefficient to the residuals

---
 src/booster/gradient_boost/gbm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/booster/gradient_boost/gbm.rs b/src/booster/gradient_boost/gbm.rs
index 0d8d01b..44bd577 100644
--- a/src/booster/gradient_boost/gbm.rs
+++ b/src/booster/gradient_boost/gbm.rs
@@ -235,8 +235,13 @@ impl<F, L> Booster<F> for GBM<'_, F, L>
         let h = weak_learner.produce(self.sample, &self.predictions[..]);
 
         let predictions = h.predict_all(self.sample);
+        let residuals = self.sample.target()
+            .iter()
+            .zip(&self.predictions[..])
+            .map(|(y, p)| y - p)
+            .collect::<Vec<_>>();
         let coef = self.loss.best_coefficient(
-            self.sample.target(), &predictions[..]
+            &residuals[..], &predictions[..]
         );
 
         // If the best coefficient is zero,
-- 
2.43.0


From fac90f737db51f4255c28c08a2736a92e70a43ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 22/38] fix: return the coefficient that minimizes the loss
 along a hypothesis

---
 src/common/loss_functions.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/common/loss_functions.rs b/src/common/loss_functions.rs
index 2b31147..f1db2dc 100644
--- a/src/common/loss_functions.rs
+++ b/src/common/loss_functions.rs
@@ -158,28 +158,37 @@ impl LossFunction for GBMLoss {
 
     fn best_coefficient(
         &self, 
-        targets: &[f64],
+        residuals: &[f64],
         predictions: &[f64],
     ) -> f64
     {
         match self {
             Self::L1 => {
-                let mut items = targets.iter()
+                let mut items = residuals.iter()
                     .zip(predictions)
                     .filter_map(|(&r, &p)| 
                         if p == 0.0 { None } else { Some((p.abs(), r / p)) }
                     )
                     .collect::<Vec<_>>();
 
+                // Any coefficient is the best for the zero function.
+                if items.is_empty() { return 0.0; }
+
                 weighted_median(&mut items[..])
             },
             Self::L2 => {
-                let y_sum = targets.iter().sum::<f64>();
-                let p_sum = predictions.iter().sum::<f64>();
+                let rp_sum = residuals.iter()
+                    .zip(predictions)
+                    .map(|(r, p)| r * p)
+                    .sum::<f64>();
+                let pp_sum = predictions.iter()
+                    .map(|p| p * p)
+                    .sum::<f64>();
 
-                assert_ne!(p_sum, 0.0);
+                // Any coefficient is the best for the zero function.
+                if pp_sum == 0.0 { return 0.0; }
 
-                y_sum / p_sum
+                rp_sum / pp_sum
             },
         }
     }
-- 
2.43.0


From 66654b82b09c30a6145c707f26ec5977440f9974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 23/38] fix: keep the scale of the GBM predictor

---
 src/booster/gradient_boost/gbm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/booster/gradient_boost/gbm.rs b/src/booster/gradient_boost/gbm.rs
index 44bd577..3093d26 100644
--- a/src/booster/gradient_boost/gbm.rs
+++ b/src/booster/gradient_boost/gbm.rs
@@ -271,7 +271,10 @@ impl<F, L> Booster<F> for GBM<'_, F, L>
     ) -> Self::Output
         where W: WeakLearner<Hypothesis = F>
     {
-        WeightedMajority::from_slices(&self.weights[..], &self.hypotheses[..])
+        WeightedMajority {
+            weights: self.weights.clone(),
+            hypotheses: self.hypotheses.clone(),
+        }
     }
 }
 
-- 
2.43.0


From 050c40a917f7981f4fbf3f94ca58d1eae6e96e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 24/38] fix: sign of the L1 gradient

---
 src/common/loss_functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/loss_functions.rs b/src/common/loss_functions.rs
index f1db2dc..5bf6207 100644
--- a/src/common/loss_functions.rs
+++ b/src/common/loss_functions.rs
@@ -101,7 +101,7 @@ impl LossFunction for GBMLoss {
             Self::L1 => {
                 target.iter()
                     .zip(predictions)
-                    .map(|(y, p)| (y - p).signum())
+                    .map(|(y, p)| (p - y).signum())
                     .collect()
             },
             Self::L2 => {
-- 
2.43.0


From c82a392fea4531692183f4737b320713b156508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 25/38] fix: accept nu equal to the sample size in
 BadBaseLearnerBuilder

---
 src/weak_learner/bad_learner/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/weak_learner/bad_learner/builder.rs b/src/weak_learner/bad_learner/builder.rs
index e445a02..fe5d937 100644
--- a/src/weak_learner/bad_learner/builder.rs
+++ b/src/weak_learner/bad_learner/builder.rs
@@ -43,7 +43,7 @@ impl BadBaseLearnerBuilder {
     /// By default, it is set as `DEFAULT_NU: f64 = 1f64.`
     pub fn nu(mut self, nu: f64) -> Self {
         assert!(
-            (1f64..self.n_sample as f64).contains(&nu),
+            (1f64..=self.n_sample as f64).contains(&nu),
             "The capping parameter must be in `[1, n_sample]`"
         );
         self.nu = nu;
-- 
2.43.0


From 5a5206697e7f09cc71f4610401b7f3b41d9dabf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 26/38] fix: compare the naive Bayes labels in log space

---
 src/weak_learner/naive_bayes/nbayes_classifier.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/weak_learner/naive_bayes/nbayes_classifier.rs b/src/weak_learner/naive_bayes/nbayes_classifier.rs
index 894c8a0..267371f 100644
--- a/src/weak_learner/naive_bayes/nbayes_classifier.rs
+++ b/src/weak_learner/naive_bayes/nbayes_classifier.rs
@@ -65,7 +65,13 @@ impl<P: Probability> Classifier for NBayesClassifier<P>
 {
     fn confidence(&self, sample: &Sample, row: usize) -> f64 {
 
-        self.probabilities(sample, row).into_iter()
+        // Compare the logarithms: far from the training examples,
+        // the probabilities themselves underflow to zero.
+        self.conditionals.iter()
+            .map(|(y, prior, density)| {
+                let log_cond = density.log_probability(sample, row);
+                (*y, prior.ln() + log_cond)
+            })
             .reduce(|a, b| if a.1 > b.1 { a } else { b })
             .expect("Faied to compare the probabilities")
             .0
-- 
2.43.0


From a686c8a133c79d44942fd88db817666fb026c8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:42 +0000
Subject: [PATCH 27/38] fix: allow rounding in the capping condition, as in the
 sum

---
 src/common/checker.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/checker.rs b/src/common/checker.rs
index 9e88e6a..a545425 100644
--- a/src/common/checker.rs
+++ b/src/common/checker.rs
@@ -57,7 +57,8 @@ pub(crate) fn check_capped_simplex_condition(
     }
     assert!((sum - 1f64).abs() < SIMPLEX_TOLERANCE, "sum(dist[..]) = {sum}");
 
-    let ub = 1f64 / nu;
+    // The upper bound holds up to rounding errors, too.
+    let ub = 1f64 / nu + SIMPLEX_TOLERANCE;
     assert!(
         slice.iter().all(|s| (0f64..=ub).contains(s)),
         "capping constraint is violated!"
-- 
2.43.0


From daf21b001259cda5e60a211da5274d09194c4394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 28/38] fix: accept a SoftBoost sub-problem's solution only if
 it satisfies the constraints

---
 src/booster/softboost/qp_model.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/booster/softboost/qp_model.rs b/src/booster/softboost/qp_model.rs
index 871da7c..0e7b4ce 100644
--- a/src/booster/softboost/qp_model.rs
+++ b/src/booster/softboost/qp_model.rs
@@ -145,14 +145,15 @@ impl QPModel {
             // breaks if no distribution satisfies the edge constraints.
             // Near the boundary this may show as a solver that gets stuck
             // at a point that violates them.
+            let solution = &solver.solution.x[..];
             let feasible = match solver.solution.status {
-                SolverStatus::Solved | SolverStatus::AlmostSolved => true,
-                SolverStatus::InsufficientProgress
-                    => solver.solution.r_prim <= FEASIBILITY_TOLERANCE,
+                SolverStatus::Solved => true,
+                SolverStatus::AlmostSolved
+                | SolverStatus::InsufficientProgress
+                    => self.is_feasible(solution, ghat),
                 _ => false,
             };
             if !feasible { return None; }
-            let solution = &solver.solution.x[..];
 
             // breaks if there is a zero-valued coordinate in the solution.
             if !self.all_positive(solution) { return None; }
@@ -170,6 +171,24 @@ impl QPModel {
     }
 
 
+    /// Returns `true` if `dist` satisfies the constraints of the sub-problem
+    /// up to `FEASIBILITY_TOLERANCE.`
+    pub(self) fn is_feasible(&self, dist: &[f64], ghat: f64) -> bool {
+        let sum = dist.iter().sum::<f64>();
+        let max_edge = (0..self.n_hypotheses)
+            .map(|k|
+                dist.iter()
+                    .zip(&self.margins)
+                    .map(|(d, yh)| d * yh[k])
+                    .sum::<f64>()
+            )
+            .fold(f64::NEG_INFINITY, f64::max);
+        (sum - 1f64).abs() <= FEASIBILITY_TOLERANCE
+            && max_edge <= ghat + FEASIBILITY_TOLERANCE
+            && dist.iter().all(|&d| d <= self.cap_inv + FEASIBILITY_TOLERANCE)
+    }
+
+
     /// Returns `true` if `dist[i] > 0` holds for all `i = 1, 2, ..., m.` 
     pub(self) fn all_positive(&self, dist: &[f64]) -> bool {
         dist.iter()
-- 
2.43.0


From a036c840c9df0df981ec3a5ec334cf944db58e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:22 +0000
Subject: [PATCH 29/38] fix: let the seed of CrossValidation take effect in any
 order of the setters

---
 src/research/cross_validation.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/research/cross_validation.rs b/src/research/cross_validation.rs
index 4d5e820..da2bb71 100644
--- a/src/research/cross_validation.rs
+++ b/src/research/cross_validation.rs
@@ -65,6 +65,7 @@ pub struct CrossValidation<'a> {
     sample: &'a Sample,
     ix: Vec<usize>,
     verbose: bool,
+    shuffle: bool,
 }
 
 
@@ -80,6 +81,7 @@ impl<'a> CrossValidation<'a> {
             n_folds: 5,
             seed: 1234,
             verbose: false,
+            shuffle: false,
             train_size,
             sample,
             ix,
@@ -134,8 +136,7 @@ impl<'a> CrossValidation<'a> {
     /// By default, `CrossValidation` does not shuffle the sample.
     #[inline]
     pub fn shuffle(mut self) -> Self {
-        let mut rng = StdRng::seed_from_u64(self.seed);
-        self.ix.shuffle(&mut rng);
+        self.shuffle = true;
         self
     }
 
@@ -158,6 +159,13 @@ impl Iterator for CrossValidation<'_> {
     fn next(&mut self) -> Option<Self::Item> {
         if self.current_fold >= self.n_folds { return None; }
 
+        // Shuffle here, since `seed` may be called after `shuffle`.
+        if self.shuffle {
+            let mut rng = StdRng::seed_from_u64(self.seed);
+            self.ix.shuffle(&mut rng);
+            self.shuffle = false;
+        }
+
         let output = self.fold_at(self.current_fold);
         self.current_fold += 1;
 
-- 
2.43.0


From 650a41dd852793a66e974d0448e0cfc01aedb672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 30/38] fix: keep the weights of AdaBoost and AdaBoostV as
 logarithms

---
 src/booster/adaboost/adaboost_algorithm.rs   | 19 ++++++++++++------
 src/booster/adaboostv/adaboostv_algorithm.rs | 21 +++++++++++++-------
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/booster/adaboost/adaboost_algorithm.rs b/src/booster/adaboost/adaboost_algorithm.rs
index 3f1e332..60e9317 100644
--- a/src/booster/adaboost/adaboost_algorithm.rs
+++ b/src/booster/adaboost/adaboost_algorithm.rs
@@ -95,6 +95,10 @@ pub struct AdaBoost<'a, F> {
     // Distribution on sample.
     dist: Vec<f64>,
 
+    // Logarithms of the (unnormalized) weights in `dist.`
+    // These do not underflow.
+    log_dist: Vec<f64>,
+
     // Tolerance parameter
     tolerance: f64,
 
@@ -133,6 +137,7 @@ impl<'a, F> AdaBoost<'a, F> {
             sample,
 
             dist: Vec::new(),
+            log_dist: Vec::new(),
             tolerance: 1.0 / (n_sample as f64 + 1.0),
 
             weights: Vec::new(),
@@ -207,23 +212,23 @@ impl<'a, F> AdaBoost<'a, F> {
 
 
         // To prevent overflow, take the logarithm.
-        self.dist.par_iter_mut()
+        self.log_dist.par_iter_mut()
             .zip(margins)
-            .for_each(|(d, p)| *d = d.ln() - weight * p);
+            .for_each(|(d, p)| *d -= weight * p);
 
 
         // Sort indices by ascending order
         let mut indices = (0..n_sample).into_par_iter()
             .collect::<Vec<usize>>();
         indices.sort_unstable_by(|&i, &j| {
-            self.dist[i].partial_cmp(&self.dist[j]).unwrap()
+            self.log_dist[i].partial_cmp(&self.log_dist[j]).unwrap()
         });
 
 
-        let mut normalizer = self.dist[indices[0]];
+        let mut normalizer = self.log_dist[indices[0]];
         for i in indices.into_iter().skip(1) {
             let mut a = normalizer;
-            let mut b = self.dist[i];
+            let mut b = self.log_dist[i];
             if a < b {
                 std::mem::swap(&mut a, &mut b);
             }
@@ -235,7 +240,8 @@ impl<'a, F> AdaBoost<'a, F> {
 
         // Update distribution over training examples.
         self.dist.par_iter_mut()
-            .for_each(|d| *d = (*d - normalizer).exp());
+            .zip(&self.log_dist)
+            .for_each(|(d, l)| *d = (l - normalizer).exp());
 
 
         weight
@@ -283,6 +289,7 @@ impl<F> Booster<F> for AdaBoost<'_, F>
         let n_sample = self.sample.shape().0;
         let uni = 1.0 / n_sample as f64;
         self.dist = vec![uni; n_sample];
+        self.log_dist = vec![0.0; n_sample];
 
         self.weights = Vec::new();
         self.hypotheses = Vec::new();
diff --git a/src/booster/adaboostv/adaboostv_algorithm.rs b/src/booster/adaboostv/adaboostv_algorithm.rs
index ada5e76..93e9fd3 100644
--- a/src/booster/adaboostv/adaboostv_algorithm.rs
+++ b/src/booster/adaboostv/adaboostv_algorithm.rs
@@ -122,6 +122,10 @@ pub struct AdaBoostV<'a, F> {
     /// Distribution on sample.
     dist: Vec<f64>,
 
+    // Logarithms of the (unnormalized) weights in `dist.`
+    // These do not underflow.
+    log_dist: Vec<f64>,
+
     /// Weights on hypotheses in `hypotheses`
     weights: Vec<f64>,
 
@@ -154,6 +158,7 @@ impl<'a, F> AdaBoostV<'a, F> {
             gamma: 1.0,
 
             dist: Vec::new(),
+            log_dist: Vec::new(),
             weights: Vec::new(),
             hypotheses: Vec::new(),
 
@@ -244,22 +249,22 @@ impl<'a, F> AdaBoostV<'a, F> {
 
 
         // To prevent overflow, take the logarithm.
-        self.dist.par_iter_mut()
+        self.log_dist.par_iter_mut()
             .zip(margins)
-            .for_each(|(d, yh)| *d = d.ln() - weight * yh);
+            .for_each(|(d, yh)| *d -= weight * yh);
 
 
-        let m = self.dist.len();
+        let m = self.log_dist.len();
         let mut indices = (0..m).collect::<Vec<usize>>();
         indices.sort_unstable_by(|&i, &j| {
-            self.dist[i].partial_cmp(&self.dist[j]).unwrap()
+            self.log_dist[i].partial_cmp(&self.log_dist[j]).unwrap()
         });
 
 
-        let mut normalizer = self.dist[indices[0]];
+        let mut normalizer = self.log_dist[indices[0]];
         for i in indices.into_iter().skip(1) {
             let mut a = normalizer;
-            let mut b = self.dist[i];
+            let mut b = self.log_dist[i];
             if a < b {
                 std::mem::swap(&mut a, &mut b);
             }
@@ -269,7 +274,8 @@ impl<'a, F> AdaBoostV<'a, F> {
 
 
         self.dist.par_iter_mut()
-            .for_each(|d| *d = (*d - normalizer).exp());
+            .zip(&self.log_dist)
+            .for_each(|(d, l)| *d = (l - normalizer).exp());
 
         weight
     }
@@ -314,6 +320,7 @@ impl<F> Booster<F> for AdaBoostV<'_, F>
         // Initialize parameters
         let n_sample = self.sample.shape().0;
         self.dist = vec![1.0 / n_sample as f64; n_sample];
+        self.log_dist = vec![0.0; n_sample];
 
         self.rho = 1.0;
         self.gamma = 1.0;
-- 
2.43.0


From fb57b71d67496f68ecd88d2983c9674bee5d7a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:20 +0000
Subject: [PATCH 31/38] fix: read a single network output as the confidence to
 be +1

---
 src/common/task.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/task.rs b/src/common/task.rs
index 32768a1..d9013ba 100644
--- a/src/common/task.rs
+++ b/src/common/task.rs
@@ -39,8 +39,7 @@ pub(crate) fn binarize<T: AsRef<[f64]>>(y: T) -> f64 {
     // this code interprets it 
     // as the confidence to be `+1`
     if y.len() == 1 {
-        1.0 - 2.0 * y[0]
-        // if y[0] >= 0.5 { y[0] } else { y[0] - 1.0 }
+        2.0 * y[0] - 1.0
     } else if y.len() == 2 {
         if y[0] > y[1] { -y[0] } else { y[1] }
     } else {
-- 
2.43.0


From 81ef591a1600447c529a768af3514a3109827310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:45 +0000
Subject: [PATCH 32/38] fix: train a single network output towards 0 on
 negative examples

---
 src/weak_learner/neural_network/nn_hypothesis.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/weak_learner/neural_network/nn_hypothesis.rs b/src/weak_learner/neural_network/nn_hypothesis.rs
index 947802a..071b597 100644
--- a/src/weak_learner/neural_network/nn_hypothesis.rs
+++ b/src/weak_learner/neural_network/nn_hypothesis.rs
@@ -176,6 +176,9 @@ impl NNHypothesis {
                     z
                 });
 
+            // A single output of a binary classifier is
+            // the confidence to be `+1`, so that the label `-1` becomes `0`.
+            let y = if self.task == Task::Binary { y.max(0.0) } else { y };
             // Vectorize the target value to compute `delta`.
             let y = task::vectorize(y, dim);
             // Compute the `delta` for the last layer.
-- 
2.43.0


From 5cea4ca1d2ec6db654b34f62b842c67d9849e766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:10 +0000
Subject: [PATCH 33/38] fix: use the derivative of the sigmoid function, which
 is finite everywhere

---
 src/weak_learner/neural_network/activation.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/weak_learner/neural_network/activation.rs b/src/weak_learner/neural_network/activation.rs
index c21258a..b8dce94 100644
--- a/src/weak_learner/neural_network/activation.rs
+++ b/src/weak_learner/neural_network/activation.rs
@@ -81,12 +81,8 @@ fn softmax_diff<T: AsRef<[f64]>>(eta: f64, x: T) -> Vec<f64> {
 
 #[inline]
 fn sigmoid_diff<T: AsRef<[f64]>>(eta: f64, x: T) -> Vec<f64> {
-    let x = x.as_ref();
-    x.iter()
-        .map(|xi| {
-            let e = (-eta * xi).exp();
-            eta * e / (1.0 + e)
-        })
+    sigmoid(eta, x).into_iter()
+        .map(|p| eta * p * (1.0 - p))
         .collect()
 }
 
-- 
2.43.0


From d4b4e4a00a12cbcb9d86f2de64dc4026ee088048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:09 +0000
Subject: [PATCH 34/38] fix: propagate gradients through the full derivative of
 hidden softmax layers

---
 src/common/utils.rs                           | 19 -------------
 src/weak_learner/neural_network/activation.rs | 28 ++++++++++++++-----
 .../neural_network/nn_hypothesis.rs           | 21 ++++++++------
 3 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/common/utils.rs b/src/common/utils.rs
index fcf726f..0a2b3a3 100644
--- a/src/common/utils.rs
+++ b/src/common/utils.rs
@@ -296,25 +296,6 @@ pub fn normalize(items: &mut [f64]) {
 }
 
 
-/// Computes the Hadamard product of given two matrices.
-#[inline(always)]
-pub fn hadamard_product(mut m1: Vec<Vec<f64>>, m2: Vec<Vec<f64>>)
-    -> Vec<Vec<f64>>
-{
-    assert_eq!(m1.len(), m2.len());
-    assert_eq!(m1[0].len(), m2[0].len());
-
-    m1.iter_mut()
-        .zip(m2)
-        .for_each(|(r1, r2)| {
-            r1.iter_mut()
-                .zip(r2)
-                .for_each(|(a, b)| { *a *= b; });
-        });
-    m1
-}
-
-
 pub(crate) fn total_weight_for_label(
     y: f64,
     target: &[f64],
diff --git a/src/weak_learner/neural_network/activation.rs b/src/weak_learner/neural_network/activation.rs
index b8dce94..52cb985 100644
--- a/src/weak_learner/neural_network/activation.rs
+++ b/src/weak_learner/neural_network/activation.rs
@@ -24,13 +24,22 @@ impl Activation {
         }
     }
 
-    pub(crate) fn diff<T: AsRef<[f64]>>(&self, x: T) -> Vec<f64> {
-        match self {
-            Self::SoftMax(eta) => softmax_diff(*eta, x),
+    /// Returns the product of `v` and the derivative of `self` at `x`.
+    pub(crate) fn pull_back<T, U>(&self, x: T, v: U) -> Vec<f64>
+        where T: AsRef<[f64]>,
+              U: AsRef<[f64]>,
+    {
+        let df = match self {
+            // The softmax function is not elementwise.
+            Self::SoftMax(eta) => return softmax_pull_back(*eta, x, v),
             Self::Sigmoid(eta) => sigmoid_diff(*eta, x),
             Self::ReLu(threshold) => relu_diff(*threshold, x),
             Self::Id => id_diff(x),
-        }
+        };
+        df.into_iter()
+            .zip(v.as_ref())
+            .map(|(d, v)| d * v)
+            .collect()
     }
 }
 
@@ -69,12 +78,17 @@ fn id<T: AsRef<[f64]>>(x: T) -> Vec<f64> {
 
 
 #[inline]
-fn softmax_diff<T: AsRef<[f64]>>(eta: f64, x: T) -> Vec<f64> {
-    let x = x.as_ref();
+fn softmax_pull_back<T, U>(eta: f64, x: T, v: U) -> Vec<f64>
+    where T: AsRef<[f64]>,
+          U: AsRef<[f64]>,
+{
+    let v = v.as_ref();
     let probabilities = softmax(eta, x);
+    let mean = utils::inner_product(&probabilities, v);
 
     probabilities.into_iter()
-        .map(|p| eta * p * (1.0 - p))
+        .zip(v)
+        .map(|(p, vi)| eta * p * (vi - mean))
         .collect()
 }
 
diff --git a/src/weak_learner/neural_network/nn_hypothesis.rs b/src/weak_learner/neural_network/nn_hypothesis.rs
index 071b597..c18b8e3 100644
--- a/src/weak_learner/neural_network/nn_hypothesis.rs
+++ b/src/weak_learner/neural_network/nn_hypothesis.rs
@@ -1,7 +1,6 @@
 use crate::{Sample, Classifier, Regressor};
 use crate::common::{
     task,
-    utils,
     task::Task,
 };
 use super::{
@@ -143,8 +142,8 @@ impl NNHypothesis {
         let indices = indices.as_ref();
         let batch_size = indices.len();
         let n_layers = self.layers.len();
-        // Keep sub-gradients for all layers.
-        let mut dfs = vec![Vec::with_capacity(batch_size); n_layers-1];
+        // Keep the inputs of the activation functions for all hidden layers.
+        let mut inputs = vec![Vec::with_capacity(batch_size); n_layers-1];
         // Keep the outputs for activation functions
         // of each layer for back propagation.
         let mut outputs = vec![Vec::with_capacity(batch_size); n_layers];
@@ -169,8 +168,7 @@ impl NNHypothesis {
                     let z = layer.nonlinear(&u);
 
                     if l+1 < n_layers {
-                        let df = layer.activation.diff(u);
-                        dfs[l].push(df);
+                        inputs[l].push(u);
                     }
 
                     z
@@ -187,8 +185,11 @@ impl NNHypothesis {
         }
 
 
+        let activations = self.layers.iter()
+            .map(|layer| layer.activation)
+            .collect::<Vec<_>>();
         let mut delta = batch_delta;
-        for layer in self.layers.iter_mut().rev() {
+        for (l, layer) in self.layers.iter_mut().enumerate().rev() {
             let weights = &layer.matrix[..];
 
             // Compute a matrix that is used to update `delta`.
@@ -208,8 +209,12 @@ impl NNHypothesis {
 
 
             // Update `delta` for the next layer
-            if let Some(df) = dfs.pop() {
-                delta = utils::hadamard_product(df, delta_x_weights);
+            if let Some(us) = inputs.pop() {
+                let activation = activations[l-1];
+                delta = us.into_iter()
+                    .zip(delta_x_weights)
+                    .map(|(u, d)| activation.pull_back(u, d))
+                    .collect();
             }
         }
     }
-- 
2.43.0


From e0b647507b3474dcb2169798feffe80a45e741c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:02 +0000
Subject: [PATCH 35/38] fix: labels beyond the range of i32 are counted as
 different kinds, infinite ones refused

---
 src/sample/sample_struct.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index 24c7159..128d603 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -1,7 +1,7 @@
 use std::path::Path;
 use std::fs::File;
 use std::io::{self, BufRead, BufReader};
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::ops::Index;
 use std::mem;
 use std::cmp::Ordering;
@@ -393,7 +393,7 @@ impl Sample {
 
         // Check whether the target values can be converted into integers.
         let non_integers = self.target.iter()
-            .filter(|&yi| !yi.trunc().eq(yi))
+            .filter(|yi| yi.fract() != 0f64)
             .collect::<Vec<_>>();
         if !non_integers.is_empty() {
             let line = non_integers.iter().take(5)
@@ -408,10 +408,7 @@ impl Sample {
 
 
         // Check whether the target values takes exactly 2 kinds.
-        let set = self.target.iter()
-            .copied()
-            .map(|yi| yi as i32)
-            .collect::<HashSet<_>>();
+        let set = self.unique_target();
         let n_label = set.len();
         match set.len().cmp(&2) {
             Ordering::Greater => {
@@ -431,7 +428,7 @@ impl Sample {
 
 
         // Check whether the target values takes +1 or -1.
-        let is_pm = set.iter().all(|y| y.eq(&1) || y.eq(&-1));
+        let is_pm = set.iter().all(|y| y.eq(&1f64) || y.eq(&-1f64));
         if !is_pm {
             let line = set.iter()
                 .map(|y| y.to_string())
-- 
2.43.0


From 4a1c950f706678a810cc9400dd0719acbf3ef7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:49 +0000
Subject: [PATCH 36/38] fix: bin columns whose values or range reach the
 largest float

---
 src/weak_learner/decision_tree/bin.rs   | 33 ++++++++++++++++++-------
 src/weak_learner/regression_tree/bin.rs | 33 ++++++++++++++++++-------
 2 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/src/weak_learner/decision_tree/bin.rs b/src/weak_learner/decision_tree/bin.rs
index 0494639..ecd0636 100644
--- a/src/weak_learner/decision_tree/bin.rs
+++ b/src/weak_learner/decision_tree/bin.rs
@@ -39,6 +39,20 @@ impl Bin {
 }
 
 
+/// The width of each of the `n_bin` bins that cover `[min, max]`.
+#[inline(always)]
+fn bin_width(min: f64, max: f64, n_bin: usize) -> f64 {
+    let n_bin = n_bin as f64;
+    let width = (max - min) / n_bin;
+    if width.is_finite() {
+        width
+    } else {
+        // The range itself exceeds `f64::MAX`.
+        max / n_bin - min / n_bin
+    }
+}
+
+
 /// A wrapper of `Vec<Bin>`.
 pub struct Bins(Vec<Bin>);
 
@@ -59,10 +73,11 @@ impl Bins {
             Feature::Sparse(feat) => Self::cut_sparse(feat, n_bin),
         };
 
-        // The `start` of the left-most bin should be `f64::MIN`.
-        bins.0.first_mut().unwrap().0.start = f64::MIN;
-        // The `end` of the right-most bin should be `f64::MAX`.
-        bins.0.last_mut().unwrap().0.end = f64::MAX;
+        // The `start` of the left-most bin should be `-∞`.
+        bins.0.first_mut().unwrap().0.start = f64::NEG_INFINITY;
+        // The `end` of the right-most bin should be `+∞`,
+        // since a bin does not contain its `end`.
+        bins.0.last_mut().unwrap().0.end = f64::INFINITY;
 
         bins
     }
@@ -114,7 +129,7 @@ impl Bins {
         }
 
 
-        let intercept = (max - min) / n_bin as f64;
+        let intercept = bin_width(min, max, n_bin);
 
         let mut bins = Vec::with_capacity(n_bin);
 
@@ -160,7 +175,7 @@ impl Bins {
         }
 
 
-        let intercept = (max - min) / n_bin as f64;
+        let intercept = bin_width(min, max, n_bin);
 
         let mut bins = Vec::with_capacity(n_bin);
 
@@ -258,7 +273,7 @@ impl Bins {
         let mut bin_and_weight = Vec::new();
         for (next_bin, next_weight) in iter {
             let start = prev_bin.0.start;
-            let end = (prev_bin.0.end + next_bin.0.start) / 2.0;
+            let end = prev_bin.0.end / 2.0 + next_bin.0.start / 2.0;
             let bin = Bin::new(start..end);
             bin_and_weight.push((bin, prev_weight));
 
@@ -422,7 +437,7 @@ impl fmt::Display for Bins {
 
 impl fmt::Display for Bin {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        let start = if self.0.start == f64::MIN {
+        let start = if self.0.start == f64::NEG_INFINITY {
             String::from("-Inf")
         } else {
             let start = self.0.start;
@@ -436,7 +451,7 @@ impl fmt::Display for Bin {
             let start = start.abs();
             format!("{sgn}{start: >.2}")
         };
-        let end = if self.0.end == f64::MAX {
+        let end = if self.0.end == f64::INFINITY {
             String::from("+Inf")
         } else {
             let end = self.0.end;
diff --git a/src/weak_learner/regression_tree/bin.rs b/src/weak_learner/regression_tree/bin.rs
index 6212f24..86e1382 100644
--- a/src/weak_learner/regression_tree/bin.rs
+++ b/src/weak_learner/regression_tree/bin.rs
@@ -39,6 +39,20 @@ impl Bin {
 }
 
 
+/// The width of each of the `n_bin` bins that cover `[min, max]`.
+#[inline(always)]
+fn bin_width(min: f64, max: f64, n_bin: usize) -> f64 {
+    let n_bin = n_bin as f64;
+    let width = (max - min) / n_bin;
+    if width.is_finite() {
+        width
+    } else {
+        // The range itself exceeds `f64::MAX`.
+        max / n_bin - min / n_bin
+    }
+}
+
+
 /// A wrapper of `Vec<Bin>`.
 pub struct Bins(Vec<Bin>);
 
@@ -59,10 +73,11 @@ impl Bins {
             Feature::Sparse(feat) => Self::cut_sparse(feat, n_bin),
         };
 
-        // The `start` of the left-most bin should be `f64::MIN`.
-        bins.0.first_mut().unwrap().0.start = f64::MIN;
-        // The `end` of the right-most bin should be `f64::MAX`.
-        bins.0.last_mut().unwrap().0.end = f64::MAX;
+        // The `start` of the left-most bin should be `-∞`.
+        bins.0.first_mut().unwrap().0.start = f64::NEG_INFINITY;
+        // The `end` of the right-most bin should be `+∞`,
+        // since a bin does not contain its `end`.
+        bins.0.last_mut().unwrap().0.end = f64::INFINITY;
 
         bins
     }
@@ -114,7 +129,7 @@ impl Bins {
         }
 
 
-        let intercept = (max - min) / n_bin as f64;
+        let intercept = bin_width(min, max, n_bin);
 
         let mut bins = Vec::with_capacity(n_bin);
 
@@ -160,7 +175,7 @@ impl Bins {
         }
 
 
-        let intercept = (max - min) / n_bin as f64;
+        let intercept = bin_width(min, max, n_bin);
 
         let mut bins = Vec::with_capacity(n_bin);
 
@@ -247,7 +262,7 @@ impl Bins {
         let mut bin_and_gh = Vec::new();
         for (next_bin, (next_grad, next_hess)) in iter {
             let start = prev_bin.0.start;
-            let end = (prev_bin.0.end + next_bin.0.start) / 2.0;
+            let end = prev_bin.0.end / 2.0 + next_bin.0.start / 2.0;
             let bin = Bin::new(start..end);
             bin_and_gh.push((bin, prev_grad, prev_hess));
 
@@ -291,7 +306,7 @@ impl fmt::Display for Bins {
 
 impl fmt::Display for Bin {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        let start = if self.0.start == f64::MIN {
+        let start = if self.0.start == f64::NEG_INFINITY {
             String::from("-Inf")
         } else {
             let start = self.0.start;
@@ -305,7 +320,7 @@ impl fmt::Display for Bin {
             let start = start.abs();
             format!("{sgn}{start: >.1}")
         };
-        let end = if self.0.end == f64::MAX {
+        let end = if self.0.end == f64::INFINITY {
             String::from("+Inf")
         } else {
             let end = self.0.end;
-- 
2.43.0


From 97e8b5a7dd328f6813d6ce2c5c2dd567ed652b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:04 +0000
Subject: [PATCH 37/38] fix: refuse an svmlight entry with more than one colon

---
 src/sample/sample_struct.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sample/sample_struct.rs b/src/sample/sample_struct.rs
index 128d603..ddd4af7 100644
--- a/src/sample/sample_struct.rs
+++ b/src/sample/sample_struct.rs
@@ -607,6 +607,7 @@ fn index_and_feature(word: &str) -> (usize, f64) {
         .trim()
         .parse::<f64>()
         .expect("Failed to parse a feature value.");
+    assert!(i_x.next().is_none(), "Too many colons in `{word}`.");
 
     (i, x)
 }
-- 
2.43.0


From 1bd5a7188f50baefecbc492cdade7eef5329b7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:48 +0000
Subject: [PATCH 38/38] fix: pruning of decision trees does not depend on the
 scale of the weights

---
 src/weak_learner/decision_tree/train_node.rs | 25 ++++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/weak_learner/decision_tree/train_node.rs b/src/weak_learner/decision_tree/train_node.rs
index e122bdf..1dec9bb 100644
--- a/src/weak_learner/decision_tree/train_node.rs
+++ b/src/weak_learner/decision_tree/train_node.rs
@@ -62,10 +62,12 @@ pub struct TrainBranchNode {
 
 impl TrainBranchNode {
     /// Returns the node misclassification cost of this node.
+    /// The mass of this node is measured in units of `total`,
+    /// so that the product does not underflow.
     #[inline]
-    pub(self) fn node_misclassification_cost(&self) -> f64 {
+    pub(self) fn node_misclassification_cost(&self, total: f64) -> f64 {
         let r = self.loss_as_leaf.0;
-        let p = self.total_weight;
+        let p = self.total_weight / total;
 
         r * p
     }
@@ -82,10 +84,12 @@ pub struct TrainLeafNode {
 
 impl TrainLeafNode {
     /// Returns the node misclassification cost of this node.
+    /// The mass of this node is measured in units of `total`,
+    /// so that the product does not underflow.
     #[inline]
-    pub(self) fn node_misclassification_cost(&self) -> f64 {
+    pub(self) fn node_misclassification_cost(&self, total: f64) -> f64 {
         let r = self.loss_as_leaf.0;
-        let p = self.total_weight;
+        let p = self.total_weight / total;
 
         r * p
     }
@@ -174,12 +178,12 @@ impl TrainNode {
 
     /// Returns the node misclassification cost of this node.
     #[inline]
-    pub(super) fn node_misclassification_cost(&self) -> f64 {
+    pub(super) fn node_misclassification_cost(&self, total: f64) -> f64 {
         match self {
             TrainNode::Branch(ref branch)
-                => branch.node_misclassification_cost(),
+                => branch.node_misclassification_cost(total),
             TrainNode::Leaf(ref leaf)
-                => leaf.node_misclassification_cost(),
+                => leaf.node_misclassification_cost(total),
         }
     }
 
@@ -206,9 +210,10 @@ impl TrainNode {
             }
 
 
-            let t = branch.node_misclassification_cost();
-            let l = branch.left.borrow().node_misclassification_cost();
-            let r = branch.right.borrow().node_misclassification_cost();
+            let total = branch.total_weight;
+            let t = branch.node_misclassification_cost(total);
+            let l = branch.left.borrow().node_misclassification_cost(total);
+            let r = branch.right.borrow().node_misclassification_cost(total);
 
 
             if t == l + r {
-- 
2.43.0

