From eb13efb8932a9d5051a6ea04ac667ac24bc19c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:09 +0000
Subject: [PATCH 01/34] fix: keep the best FoM when drift compensation after an
 SI is interrupted by a stop

_routine_call returns the placeholder 1e10 once the optimization is stopped. _update_FoM
averaged it into the best FoM, so an optimization stopped by its evaluation budget could
report 1e10 instead of the best value it had found.
---
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 05e2725..86596fc 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -232,6 +232,9 @@ class dCRABAlgorithm(OptimizationAlgorithm):
         new_FoM = 0
         for _ in range(self.compensate_drift_num_average):
             new_FoM += self._routine_call(x0, iteration)
+        # If the optimization was stopped meanwhile the sum contains placeholder values: keep the previous best FoM
+        if not self.is_optimization_running():
+            return
         self.best_FoM = new_FoM / self.compensate_drift_num_average
         # Info message
         message = f"Previous best FoM: {self.FoM_factor*previous_best_FoM}, Current best FoM after drift " \
-- 
2.43.0


From c79d6b6997ceb85683c86cc65fdb425fd6be9bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:40 +0000
Subject: [PATCH 02/34] fix: ignore a periodic drift compensation interrupted
 by a stop

The re-measured value then averages the 1e10 placeholder and replaced the best FoM.
---
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 3 +++
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index e7194db..2d7a14a 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -120,6 +120,9 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         """
         if drift_comp_new_val is not None:
             mu_1 = drift_comp_new_val
+            # Stopped meanwhile: the new value contains placeholders, keep the previous best FoM
+            if not self.is_optimization_running():
+                return mu_1
             self.best_FoM = mu_1
             self.is_record = True
             message = "New record due to drift compensation. New best FoM: {0}".format(self.FoM_factor*mu_1)
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 86596fc..ef23ca9 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -291,6 +291,9 @@ class dCRABAlgorithm(OptimizationAlgorithm):
         """
         if drift_comp_new_val is not None:
             mu_1 = drift_comp_new_val
+            # Stopped meanwhile: the new value contains placeholders, keep the previous best FoM
+            if not self.is_optimization_running():
+                return mu_1
             self.best_FoM = mu_1
             self.is_record = True
             message = "New record due to drift compensation. New best FoM: {0}".format(self.FoM_factor*mu_1)
-- 
2.43.0


From 8139d5fb10ec993516b15d450000af7e05efecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:40 +0000
Subject: [PATCH 03/34] fix: do not average placeholder values into a
 re-evaluated record

A re-evaluation interrupted by a stop averaged the 1e10 placeholder and could be taken as a
new record.
---
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 3 +++
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 2d7a14a..917019a 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -178,6 +178,9 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
                         return mu_1
                     # else: go on with further re-evaluations
                     self.FoM_test[ii + 1] = self._routine_call(optimized_control_parameters, iterations)
+                    # Stopped meanwhile: the placeholder value must not enter the average of a record
+                    if not self.is_optimization_running():
+                        return mu_1
                     self.sigma_test[ii + 1] = float(self.FoM_dict.setdefault("std", 1.0))
                     # Increase step number after function evaluation
                     self.step_number += 1
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index ef23ca9..f029b2b 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -354,6 +354,9 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                         return mu_1
                     # else: go on with further re-evaluations
                     self.FoM_test[ii + 1] = self._routine_call(optimized_control_parameters, iterations)
+                    # Stopped meanwhile: the placeholder value must not enter the average of a record
+                    if not self.is_optimization_running():
+                        return mu_1
                     self.sigma_test[ii + 1] = float(self.FoM_dict.setdefault("std", 1.0))
                     # Increase step number after function evaluation
                     self.step_number += 1
-- 
2.43.0


From 2ec6e0fff37a2aa53c75991cbde29732e316882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:40 +0000
Subject: [PATCH 04/34] fix: an evaluation with an error status provides no
 figure of merit

A non-zero status_code with FoM None (as FilesUpdateFoM returns on a timeout) crashed the
optimization, and with a number it could become the reported best FoM. The dictionary of the
user is no longer modified in place either.
---
 src/quocslib/communication/AllInOneCommunication.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index d92a6fc..056cbaa 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -157,14 +157,18 @@ class AllInOneCommunication:
         :return dict: {"FoM_values": {"FoM": float, ...}}
         """
         self.logger.debug("User running: {0}".format(self.he_obj.is_user_running))
-        FoM_dict = self.FoM_obj.get_FoM(**self.controls_dict)
-        # multiply by -1 if the optimization is a maximization
-        FoM_dict["FoM"] *= self.FoM_factor
+        # Work on a copy, the dictionary belongs to the user
+        FoM_dict = dict(self.FoM_obj.get_FoM(**self.controls_dict))
         # set the status of the FoM to 0 if it does not exist already
         status_code = FoM_dict.setdefault("status_code", 0)
         # if the user passes a different status code than zero, stop the optimization
         if status_code != 0:
             self.he_obj.is_user_running = False
+            # There is no valid figure of merit (it can be None), use the placeholder of a not evaluated FoM
+            FoM_dict["FoM"] = 10**10
+        else:
+            # multiply by -1 if the optimization is a maximization
+            FoM_dict["FoM"] = self.FoM_factor * FoM_dict["FoM"]
         return {"FoM_values": FoM_dict}
 
     def send_FoM_response(self, response_for_client: dict) -> None:
-- 
2.43.0


From ffa39db8af031a2566c601219d7acf16e3495bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:40 +0000
Subject: [PATCH 05/34] fix: ctrl+c during GRAPE or AD stops the optimization
 instead of crashing it

---
 src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index e877651..6e66379 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -116,7 +116,9 @@ class OptimizationAlgorithm:
         :return:
         """
         self.higher_order_terminate_reason = "User stopped the optimization"
-        self.dsm_obj.sc_obj.is_converged = True
+        # GRAPE and AD do not have a direct search method
+        if hasattr(self, "dsm_obj"):
+            self.dsm_obj.sc_obj.is_converged = True
         self.stop_optimization()
 
     def begin(self) -> None:
-- 
2.43.0


From 37b58b054901a880d78b15879ca58d09bbeeeb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:40 +0000
Subject: [PATCH 06/34] fix: initialise the best vector in GRAPE and in every
 super-iteration of AD

Stopped before the first evaluation both crashed, and an AD super-iteration without a new
record added the update of the previous super-iteration to the base pulse a second time.
---
 src/quocslib/optimizationalgorithms/ADAlgorithm.py    | 2 ++
 src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/ADAlgorithm.py b/src/quocslib/optimizationalgorithms/ADAlgorithm.py
index 6be52c4..97d81a3 100644
--- a/src/quocslib/optimizationalgorithms/ADAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/ADAlgorithm.py
@@ -149,6 +149,8 @@ class ADAlgorithm(OptimizationAlgorithm):
         initial_variation = random_variation * self.controls.get_sigma_variation()
         # Define the initial
         init_xx = self.controls.get_mean_value() + initial_variation
+        # Best vector of this super-iteration before any evaluation, it corresponds to the best controls so far
+        self.best_xx = self.controls.get_mean_value()
 
         def get_gradient(x):
             return np.array(jax.jit(jax.grad(self.get_gradient))(x))
diff --git a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
index 598fe38..eba6f7d 100644
--- a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
@@ -200,6 +200,8 @@ class GRAPEAlgorithm(OptimizationAlgorithm):
         initial_variation = random_variation * self.controls.get_sigma_variation()
         # Define the initial
         init_xx = self.controls.get_mean_value() + initial_variation
+        # Best vector before any evaluation
+        self.best_xx = self.controls.get_mean_value()
         # Optimization with L-BFGS-B
         results = scipy.optimize.minimize(self.inner_routine_call,
                                           init_xx,
-- 
2.43.0


From 6466a0861f9dbe9bfaf28fc7767ef6e946f64ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:40 +0000
Subject: [PATCH 07/34] fix: DirectSearch returns the best parameters instead
 of the last evaluated ones

---
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 917019a..93a79b4 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -318,6 +318,8 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         # Update the results
         [FoM, xx,
          self.terminate_reason] = [result_l["F_min_val"], result_l["X_opti_vec"], result_l["terminate_reason"]]
+        # Update the controls with the best ones found
+        self.controls.update_base_controls(self.best_xx)
 
     def _get_controls(self, xx):
         """
@@ -339,7 +341,7 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         """
         final_dict = {
             "Figure of merit": self.FoM_factor * self.best_FoM,
-            "parameters": self.xx,
+            "parameters": self.best_xx,
             "terminate_reason": self.terminate_reason
         }
         return final_dict
-- 
2.43.0


From b960cf26d24ba073e3b84cfbd7a75a339c9f361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:40 +0000
Subject: [PATCH 08/34] fix: pw_evolution_AD discarded the computed propagators

---
 src/quocslib/timeevolution/piecewise_integrator_AD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/timeevolution/piecewise_integrator_AD.py b/src/quocslib/timeevolution/piecewise_integrator_AD.py
index 41728d0..9aac4d8 100644
--- a/src/quocslib/timeevolution/piecewise_integrator_AD.py
+++ b/src/quocslib/timeevolution/piecewise_integrator_AD.py
@@ -36,7 +36,7 @@ from functools import partial
 #         H = A
 #         for k in range(K):
 #             H = H + drive[k, i] * B[k]
-#         U_store.at[i].set(jsp.linalg.expm(-1j * dt * H))
+#         U_store = U_store.at[i].set(jsp.linalg.expm(-1j * dt * H))
 #     return U_store
 
 
-- 
2.43.0


From c5dcf1a1ceed6e28d4850cfbb4a894ca812c6e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:40 +0000
Subject: [PATCH 09/34] fix: FilesUpdateFoM waits max_time seconds, it gave up
 after half of them

---
 src/quocslib/utils/FilesUpdateFom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/utils/FilesUpdateFom.py b/src/quocslib/utils/FilesUpdateFom.py
index da90269..a68a7df 100644
--- a/src/quocslib/utils/FilesUpdateFom.py
+++ b/src/quocslib/utils/FilesUpdateFom.py
@@ -90,7 +90,7 @@ class FilesUpdateFoM(AbstractFoM):
         time_counter_max = self.max_time
         # Check if figure of merit file exists
         while not os.path.exists(self.FoM_path):
-            time_counter += 1
+            time_counter += 0.5
             time.sleep(0.5)
             if time_counter >= time_counter_max:
                 return {"FoM": FoM, "status_code": -2}
-- 
2.43.0


From e392cba1e125c20176ba724d2b526b6c5227eeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:40 +0000
Subject: [PATCH 10/34] fix: to_sup_op of a complex Hamiltonian is the
 Liouvillian of the commutator

---
 src/quocslib/tools/linearalgebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/tools/linearalgebra.py b/src/quocslib/tools/linearalgebra.py
index 769f4af..927b7b6 100644
--- a/src/quocslib/tools/linearalgebra.py
+++ b/src/quocslib/tools/linearalgebra.py
@@ -118,7 +118,7 @@ def to_sup_op(H):
     """
     dim = np.size(H, 1)
     idm = np.eye(dim)
-    return np.kron(idm, H) - np.kron(H.T.conj(), idm)
+    return np.kron(idm, H) - np.kron(H.T, idm)
 
 
 def to_vec(rho):
-- 
2.43.0


From ead272ccde0750ad92b2ee3f7fdf245bfdeaf9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:40 +0000
Subject: [PATCH 11/34] fix: Nelder-Mead reports the global stop which
 interrupted it

Broken off in the middle of an iteration or in the start simplex it reported the reason of the
last criterion checked, e.g. a convergence which did not happen.
---
 src/quocslib/gradientfreemethods/NelderMead.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/quocslib/gradientfreemethods/NelderMead.py b/src/quocslib/gradientfreemethods/NelderMead.py
index 61b4c15..36dbe6c 100644
--- a/src/quocslib/gradientfreemethods/NelderMead.py
+++ b/src/quocslib/gradientfreemethods/NelderMead.py
@@ -215,6 +215,11 @@ class NelderMead(DirectSearchMethod):
             # Check stopping criteria
             self.sc_obj.check_stopping_criteria(sim, fsim, calls_number[0])
         # END of while loop
+        # A global stop can interrupt the search in the middle of an iteration
+        if self.callback is not None:
+            if not self.callback():
+                self.sc_obj.terminate_reason = "User stopped the optimization or higher order " \
+                                               "stopping criterion has been reached"
         # Fix the iteration number
         iterations = iterations - 1
         # Optimal parameters and value
-- 
2.43.0


From f63d80522b15b4e1137ec2f679a8833ef93bb219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:13 +0000
Subject: [PATCH 12/34] fix: CMA-ES draws its steps from the seeded random
 number generator

With a seed_number given the search still used the global numpy state and was not reproducible.
---
 src/quocslib/gradientfreemethods/CMAES.py           |  5 ++++-
 .../optimizationalgorithms/dCRABAlgorithm.py        |  2 ++
 src/quocslib/tools/randomgenerator.py               | 13 +++++++++++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/gradientfreemethods/CMAES.py b/src/quocslib/gradientfreemethods/CMAES.py
index 8e3f380..098a060 100644
--- a/src/quocslib/gradientfreemethods/CMAES.py
+++ b/src/quocslib/gradientfreemethods/CMAES.py
@@ -35,6 +35,8 @@ class CMAES(DirectSearchMethod):
         """
         super().__init__()
         self.callback = callback
+        # Random number generator, set by the optimization algorithm if a seed is given
+        self.rng = None
         # Active the parallelization for the firsts evaluations
         self.is_parallelized = settings.setdefault("parallelization", False)
         self.is_adaptive = settings.setdefault("is_adaptive", False)
@@ -139,7 +141,8 @@ class CMAES(DirectSearchMethod):
                 # TR 2020_04_15: Hansen (2016) here also has arz: arz[:,k] = randn(N,)  standard normally
                 # distributed vector TR 2020_04_15: here we should make sigma dependent on the reasonable amplitude
                 # variation, right?
-                arx[:, k] = xmean + sigma * B.dot(D * np.random.randn(N, ))
+                random_array = np.random.randn(N) if self.rng is None else self.rng.get_normal_random_numbers(N)
+                arx[:, k] = xmean + sigma * B.dot(D * random_array)
                 # Starting point at the beginning of the SI
                 if counteval == 0:
                     arx[:, k] = xmean
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index f029b2b..14ccc51 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -116,6 +116,8 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                     default_seed_number)
                 self.rng = RandomNumberGenerator(seed_number=default_seed_number)
                 self.comm_obj.print_logger(message, level=30)
+        # Search methods with random steps have to use the same random number generator
+        self.dsm_obj.rng = self.rng
         # The fact a FoM is a record FoM is decided by the inner call
         self.is_record = False
         # Initialize the step number used during the FoM calculation
diff --git a/src/quocslib/tools/randomgenerator.py b/src/quocslib/tools/randomgenerator.py
index 0f02e2c..b14539f 100644
--- a/src/quocslib/tools/randomgenerator.py
+++ b/src/quocslib/tools/randomgenerator.py
@@ -74,6 +74,19 @@ class RandomNumberGenerator:
             else:
                 return self.rng.random_sample(n)
 
+    def get_normal_random_numbers(self, n: int):
+        """
+        Return an array of random numbers from the standard normal distribution
+
+        :param n: Number of random numbers to generate
+        :return: Array of random numbers
+        """
+        if self.rng is None:
+            return np.random.randn(n)
+        if self.type == "numpy":
+            return self.rng.standard_normal(n)
+        return self.rng.randn(n)
+
 
 # def get_random_numbers(n: int, rng: np.random.Generator = None):
 #     """ Return an array of random numbers between 0 and 1 based on the random generator """
-- 
2.43.0


From 4ecabddf77a2f61c8e4975fe5aa8feab8e5e4108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:13 +0000
Subject: [PATCH 13/34] fix: DirectSearch honours the seed of the random number
 generator

---
 .../DirectSearchAlgorithm.py                    | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 93a79b4..66e480b 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -19,6 +19,7 @@ from quocslib.Controls import Controls
 from quocslib.gradientfreemethods.NelderMead import NelderMead
 from quocslib.utils.dynamicimport import dynamic_import
 from quocslib.tools.linearalgebra import simplex_creation
+from quocslib.tools.randomgenerator import RandomNumberGenerator
 import numpy as np
 from scipy.stats import norm
 
@@ -95,6 +96,19 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         else:
             self.re_evaluation_steps = None
 
+        # Seed for the random number generator
+        if "random_number_generator" in alg_parameters:
+            try:
+                seed_number = alg_parameters["random_number_generator"]["seed_number"]
+            except (TypeError, KeyError):
+                seed_number = 2022
+                message = "Seed number must be an integer value. Set {0} as a seed number for this optimization".format(
+                    seed_number)
+                self.comm_obj.print_logger(message, level=30)
+            self.rng = RandomNumberGenerator(seed_number=seed_number)
+        # Search methods with random steps have to use the same random number generator
+        self.dsm_obj.rng = self.rng
+
         ###########################################################################################
         # Optimal algorithm variables ###########################################################
         ###########################################################################################
@@ -303,7 +317,8 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         """
         Runs the direct search
         """
-        start_simplex = simplex_creation(self.controls.get_mean_value(), self.controls.get_sigma_variation())
+        start_simplex = simplex_creation(self.controls.get_mean_value(), self.controls.get_sigma_variation(),
+                                         rng=self.rng)
         # Initial point for the Start Simplex
         x0 = self.controls.get_mean_value()
         # Initialize the best xx vector for this SI
-- 
2.43.0


From 27c9a14bf76f369b64cbf87151508a53c26bbb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:13 +0000
Subject: [PATCH 14/34] fix: the FoM saved with the best controls has the sign
 of the user in a maximization

It was the negated value used internally and contradicted the reported figure of merit.
---
 src/quocslib/communication/AllInOneCommunication.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index 056cbaa..d8979eb 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -201,6 +201,9 @@ class AllInOneCommunication:
         """External call to update the controls"""
         if response_for_client is None:
             response_for_client = {}
+        # Dump the FoM as given by the user
+        if "FoM" in response_for_client:
+            response_for_client["FoM"] = self.FoM_factor * response_for_client["FoM"]
         self.dump_obj.dump_controls(**self.controls_dict, **self.controls_names_dict, **response_for_client)
 
     def end_communication(self, results_dict: dict) -> None:
-- 
2.43.0


From 7a5c3c2216439f6db665fb44a4208fb3e9a17d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:13 +0000
Subject: [PATCH 15/34] fix: dump numpy scalars to json

A figure of merit of type np.float32 or np.int64 made the dump of the results crash at the end
of the optimization.
---
 src/quocslib/utils/BestDump.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quocslib/utils/BestDump.py b/src/quocslib/utils/BestDump.py
index 2d1b59d..b45ccce 100644
--- a/src/quocslib/utils/BestDump.py
+++ b/src/quocslib/utils/BestDump.py
@@ -32,6 +32,9 @@ class NumpyEncoder(json.JSONEncoder):
             # for some reason float128 can lead to the error:
             # TypeError: Object of type float128 is not JSON serializable
             return np.float64(obj)
+        elif isinstance(obj, np.generic):
+            # numpy scalars, e.g. a figure of merit of type float32 or int64
+            return obj.item()
         return json.JSONEncoder.default(self, obj)
 
 
-- 
2.43.0


From 8cd5db34354f268e26a4e615322ba9499135eb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:02 +0000
Subject: [PATCH 16/34] fix: dump the controls of an AD optimization to json

With dump_format json the first record crashed the optimization, jax arrays of complex type are
not json serializable.
---
 src/quocslib/utils/BestDump.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/utils/BestDump.py b/src/quocslib/utils/BestDump.py
index b45ccce..3fe09aa 100644
--- a/src/quocslib/utils/BestDump.py
+++ b/src/quocslib/utils/BestDump.py
@@ -34,7 +34,10 @@ class NumpyEncoder(json.JSONEncoder):
             return np.float64(obj)
         elif isinstance(obj, np.generic):
             # numpy scalars, e.g. a figure of merit of type float32 or int64
-            return obj.item()
+            return np.real_if_close(obj).item()
+        elif hasattr(obj, "__array__"):
+            # jax arrays, in AD the real controls have a complex type
+            return np.real_if_close(np.asarray(obj)).tolist()
         return json.JSONEncoder.default(self, obj)
 
 
-- 
2.43.0


From af2c75820098da6ea349d4720e800ba1595d32a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:22 +0000
Subject: [PATCH 17/34] fix: pw_evolution_AD returns the computed propagators
 (the previous commit changed commented code)

---
 src/quocslib/timeevolution/piecewise_integrator_AD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/timeevolution/piecewise_integrator_AD.py b/src/quocslib/timeevolution/piecewise_integrator_AD.py
index 9aac4d8..2d91ec9 100644
--- a/src/quocslib/timeevolution/piecewise_integrator_AD.py
+++ b/src/quocslib/timeevolution/piecewise_integrator_AD.py
@@ -36,7 +36,7 @@ from functools import partial
 #         H = A
 #         for k in range(K):
 #             H = H + drive[k, i] * B[k]
-#         U_store = U_store.at[i].set(jsp.linalg.expm(-1j * dt * H))
+#         U_store.at[i].set(jsp.linalg.expm(-1j * dt * H))
 #     return U_store
 
 
@@ -58,7 +58,7 @@ def pw_evolution_AD(U_store, drive, A, B, n_slices, dt):
         H = A
         for k in range(K):
             H = H + drive[k, i] * B[k]
-        U_store.at[i].set(jsp.linalg.expm(-1j * dt * H))
+        U_store = U_store.at[i].set(jsp.linalg.expm(-1j * dt * H))
     return U_store
 
 
-- 
2.43.0


From f7b566cd802528207fd076378f77200233794bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:22 +0000
Subject: [PATCH 18/34] fix: _sqrtm of a singular matrix, e.g. a pure state,
 was NaN

---
 src/quocslib/tools/operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/tools/operations.py b/src/quocslib/tools/operations.py
index fb8777a..3994ff9 100644
--- a/src/quocslib/tools/operations.py
+++ b/src/quocslib/tools/operations.py
@@ -26,7 +26,8 @@ def state_to_dm(state: jnp.array):
 def _sqrtm(a):
     eig_vals, V = jnp.linalg.eigh(a)
     # eig_vals = jnp.linalg.eigvals(a)
-    sqrt_eig_vals = jnp.sqrt(eig_vals)
+    # A singular matrix, e.g. a pure state, has eigenvalues which are slightly negative due to rounding
+    sqrt_eig_vals = jnp.sqrt(jnp.where(eig_vals > 0.0, eig_vals, 0.0))
     V_inv = jnp.linalg.inv(V)
     return jnp.matmul(jnp.matmul(V, jnp.diag(sqrt_eig_vals)), V_inv)
 
-- 
2.43.0


From 040be8bfdcb093c982b82d6e7b27951741346952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:22 +0000
Subject: [PATCH 19/34] fix: partial trace over all subsystems returns the
 trace

---
 src/quocslib/tools/partial_trace.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/tools/partial_trace.py b/src/quocslib/tools/partial_trace.py
index 59b5906..e778e41 100644
--- a/src/quocslib/tools/partial_trace.py
+++ b/src/quocslib/tools/partial_trace.py
@@ -14,6 +14,8 @@
 #  limitations under the License.
 # ++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 
+import math
+
 import jax.numpy as jnp
 import jax
 
@@ -46,8 +48,8 @@ def jax_partial_trace_transform(subsystem_dims, trace_over_positions):
     mask = create_mask(trace_over_positions, num_subsystems)
 
     # Final reshape
-    remaining_dims = jnp.array([subsystem_dims[i] for i in range(num_subsystems) if i not in trace_over_positions])
-    remaining_dim = jnp.prod(remaining_dims)
+    remaining_dims = [subsystem_dims[i] for i in range(num_subsystems) if i not in trace_over_positions]
+    remaining_dim = math.prod(remaining_dims)
     @jax.jit
     def partial_trace(state: jnp.ndarray):
         """ Return the partial trace of the state over the specified subsystems. """
-- 
2.43.0


From 5cd885a953fb32a101e29f9f604ef10d7c1ed11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:37 +0000
Subject: [PATCH 20/34] fix: Rosenbrock can be created without arguments

---
 src/quocslib/optimalcontrolproblems/RosenbrockProblem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quocslib/optimalcontrolproblems/RosenbrockProblem.py b/src/quocslib/optimalcontrolproblems/RosenbrockProblem.py
index 84ae653..c2a116a 100644
--- a/src/quocslib/optimalcontrolproblems/RosenbrockProblem.py
+++ b/src/quocslib/optimalcontrolproblems/RosenbrockProblem.py
@@ -29,6 +29,9 @@ class Rosenbrock(AbstractFoM):
         Initialize useful arguments
         :param args_dict: dictionary of arguments
         """
+        if args_dict is None:
+            args_dict = {}
+
         # Noise in the figure of merit
         self.is_noisy = args_dict.setdefault("is_noisy", False)
         self.noise_factor = args_dict.setdefault("noise_factor", 0.05)
-- 
2.43.0


From d9cb35f911df9022d31fb56fba64695e6031f810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:07 +0000
Subject: [PATCH 21/34] fix: Names of pulses, parameters and times are optional
 as documented

---
 src/quocslib/Controls.py                                    | 2 +-
 .../optimizationalgorithms/OptimizationAlgorithm.py         | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/Controls.py b/src/quocslib/Controls.py
index 8e8481d..e3bc912 100644
--- a/src/quocslib/Controls.py
+++ b/src/quocslib/Controls.py
@@ -76,7 +76,7 @@ class Controls:
         ###############################################
         self.times_number = len(times_list)
         for time in times_list:
-            self.times_obj_dictionary[time["time_name"]] = TimeParameter(**time)
+            self.times_obj_dictionary[time.get("time_name", "time")] = TimeParameter(**time)
             # TODO Implement the time optimization here
 
         # Custom get control functions for AD
diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index 6e66379..52e2f24 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -308,13 +308,13 @@ class OptimizationAlgorithm:
         """Return the names of the pulses, parameters and times"""
         pulse_name_list = []
         for pulse_dict in self.optimization_dict["pulses"]:
-            pulse_name_list.append(pulse_dict["pulse_name"])
+            pulse_name_list.append(pulse_dict.get("pulse_name", "pulse"))
         parameter_name_list = []
         for param_dict in self.optimization_dict["parameters"]:
-            parameter_name_list.append(param_dict["parameter_name"])
+            parameter_name_list.append(param_dict.get("parameter_name", "parameter"))
         time_name_list = []
         for time_dict in self.optimization_dict["times"]:
-            time_name_list.append(time_dict["time_name"])
+            time_name_list.append(time_dict.get("time_name", "time"))
         return {"pulse_names": pulse_name_list, "parameter_names": parameter_name_list, "time_names": time_name_list}
 
     def end(self) -> None:
-- 
2.43.0


From 6c866f821b7df07eccc9c3e52710db1cb88693f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:07 +0000
Subject: [PATCH 22/34] fix: Default initial value of a parameter is the
 documented 0.1

---
 src/quocslib/parameters/BaseParameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/parameters/BaseParameter.py b/src/quocslib/parameters/BaseParameter.py
index 1a91420..20cfa22 100644
--- a/src/quocslib/parameters/BaseParameter.py
+++ b/src/quocslib/parameters/BaseParameter.py
@@ -25,7 +25,7 @@ class BaseParameter:
         self,
         map_index=-1,
         parameter_name="parameter",
-        initial_value=1.0,
+        initial_value=0.1,
         lower_limit=0.1,
         upper_limit=1.1,
         amplitude_variation=0.1,
-- 
2.43.0


From 733e402821c52231457a7d172c125143365f05ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 23/34] fix: Default bins number also for the piecewise basis

---
 src/quocslib/pulses/basis/PiecewiseBasis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/pulses/basis/PiecewiseBasis.py b/src/quocslib/pulses/basis/PiecewiseBasis.py
index 2b0336a..8af39be 100644
--- a/src/quocslib/pulses/basis/PiecewiseBasis.py
+++ b/src/quocslib/pulses/basis/PiecewiseBasis.py
@@ -38,7 +38,7 @@ class PiecewiseBasis(BasePulse):
         :param RandomNumberGenerator rng: The random number generator object.
         :param bool is_AD: Flag to indicate if the pulse is used in the AD optimization.
         """
-        self.control_parameters_number = pulse_dictionary["bins_number"]
+        self.control_parameters_number = pulse_dictionary.setdefault("bins_number", 101)
         super().__init__(map_index=map_index, rng=rng, is_AD=is_AD, **pulse_dictionary)
         #################
         # Basis dependent settings
-- 
2.43.0


From b8a0e8a99e229575fc6797042452bb1bfe0f836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:50 +0000
Subject: [PATCH 24/34] fix: GRAPE gradient with states of real or integer type

---
 src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
index eba6f7d..0ba68c0 100644
--- a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
@@ -94,9 +94,9 @@ class GRAPEAlgorithm(OptimizationAlgorithm):
         # Get the bins number of the first pulse
         self.n_slices = n_slices = self.controls.pulse_objs_list[0].bins_number
         self.propagator_storage = np.array([np.zeros_like(self.drift_Hamiltonian) for _ in range(n_slices)])
-        self.rho_storage = np.array([np.zeros_like(self.target_state) for _ in range(n_slices + 1)])
+        self.rho_storage = np.array([np.zeros_like(self.target_state, dtype=complex) for _ in range(n_slices + 1)])
         self.rho_storage[0] = self.initial_state
-        self.corho_storage = np.array([np.zeros_like(self.target_state) for _ in range(n_slices + 1)])
+        self.corho_storage = np.array([np.zeros_like(self.target_state, dtype=complex) for _ in range(n_slices + 1)])
         self.corho_storage[-1] = self.target_state
         ###########################################################################################
         # Other useful variables
-- 
2.43.0


From 05c473ea70c0921baa157ee9fabdac1614a4587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:32 +0000
Subject: [PATCH 25/34] fix: controls whose numbered name meets another entry
 are lost in the best controls file

---
 src/quocslib/utils/BestDump.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/utils/BestDump.py b/src/quocslib/utils/BestDump.py
index 3fe09aa..968e04f 100644
--- a/src/quocslib/utils/BestDump.py
+++ b/src/quocslib/utils/BestDump.py
@@ -92,8 +92,7 @@ class BestDump(AbstractDump):
 
         for pulse, time_grid in zip(pulses, timegrids):
             pulse_name = pulse_names[pulse_index]
-            if pulse_name in controls_dict:
-                pulse_name = pulse_name + str(pulse_index + 1)
+            pulse_name = self._get_free_name(pulse_name, pulse_index + 1, {**controls_dict, **kwargs})
             time_name = "time_grid_for_" + pulse_name
             controls_dict[pulse_name] = pulse
             controls_dict[time_name] = time_grid
@@ -108,8 +107,7 @@ class BestDump(AbstractDump):
 
         for parameter in parameters:
             param_name = parameter_names[parameter_index]
-            if param_name in controls_dict:
-                param_name = param_name + str(parameter_index + 1)
+            param_name = self._get_free_name(param_name, parameter_index + 1, {**controls_dict, **kwargs})
             controls_dict[param_name] = parameter
             parameter_index += 1
 
@@ -128,6 +126,22 @@ class BestDump(AbstractDump):
         #     with open(iteration_path, 'w') as f:
         #         f.write(str(full_dict["iteration_number"]))
 
+    @staticmethod
+    def _get_free_name(name: str, number: int, used_names: dict) -> str:
+        """
+        Extends the name of a control with a number in case another entry of the file has it already.
+
+        :param str name: The name given by the user
+        :param int number: The first number to try
+        :param dict used_names: Dictionary with the names in use as keys
+        :return str: A name which is not in use
+        """
+        free_name = name
+        while free_name in used_names:
+            free_name = name + str(number)
+            number += 1
+        return free_name
+
     def other_dumps(self, filename: str = "test.txt", data: np.array = np.array([0.0])):
         """
         Saves other results into a txt numpy file.
-- 
2.43.0


From 3a28a34fe0dc7c1583f5e8eacce83324220278da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:19 +0000
Subject: [PATCH 26/34] fix: one measurement that is not a number spoils all
 later averages of the re-evaluation

---
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 4 ++--
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 66e480b..541dfb7 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -171,8 +171,8 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
                 # number of steps
                 max_steps_number = re_evaluation_steps.shape[0]
                 # Initialize to zero the FoM_test and the sigma_test arrays
-                self.FoM_test = 0.0 * self.FoM_test
-                self.sigma_test = 0.0 * self.sigma_test
+                self.FoM_test = np.zeros_like(self.FoM_test)
+                self.sigma_test = np.zeros_like(self.sigma_test)
                 # Get the figure of merit from the client
                 self.FoM_test[0] = FoM
                 # TODO: Check if optimization_is_running is necessary here
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 14ccc51..045a3b6 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -335,8 +335,8 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                 # number of steps
                 max_steps_number = re_evaluation_steps.shape[0]
                 # Initialize to zero the FoM_test and the sigma_test arrays
-                self.FoM_test = 0.0 * self.FoM_test
-                self.sigma_test = 0.0 * self.sigma_test
+                self.FoM_test = np.zeros_like(self.FoM_test)
+                self.sigma_test = np.zeros_like(self.sigma_test)
                 # Get the figure of merit from the client
                 self.FoM_test[0] = FoM
                 # TODO: Check if optimization_is_running is necessary here
-- 
2.43.0


From 29f30825b4756f39532a2d0be37fe964a680ba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:47 +0000
Subject: [PATCH 27/34] fix: numpy integer figures of merit cannot be negated
 when unsigned and overflow when summed up

---
 src/quocslib/communication/AllInOneCommunication.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index d8979eb..42160a1 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -19,6 +19,8 @@ import time
 import datetime
 from typing import List
 
+import numpy as np
+
 from quocslib.utils.AbstractFoM import AbstractFoM
 from quocslib.utils.DummyDump import DummyDump
 from quocslib.handleexit.AbstractHandleExit import AbstractHandleExit
@@ -167,6 +169,9 @@ class AllInOneCommunication:
             # There is no valid figure of merit (it can be None), use the placeholder of a not evaluated FoM
             FoM_dict["FoM"] = 10**10
         else:
+            # Fixed-size (unsigned) numpy integers, e.g. counts, cannot be negated or summed up safely
+            if isinstance(FoM_dict["FoM"], np.integer):
+                FoM_dict["FoM"] = int(FoM_dict["FoM"])
             # multiply by -1 if the optimization is a maximization
             FoM_dict["FoM"] = self.FoM_factor * FoM_dict["FoM"]
         return {"FoM_values": FoM_dict}
-- 
2.43.0


From 7d37c8fdfebab0f2a274f0a9f51bec0f9a373a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:50 +0000
Subject: [PATCH 28/34] fix: bare controls are zero since the base pulse of the
 super-iterations is missing

---
 src/quocslib/pulses/BasePulse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/pulses/BasePulse.py b/src/quocslib/pulses/BasePulse.py
index 733d1aa..8e388a3 100644
--- a/src/quocslib/pulses/BasePulse.py
+++ b/src/quocslib/pulses/BasePulse.py
@@ -376,11 +376,11 @@ class BasePulse:
 
         :param optimized_parameters_vector: The optimized control parameters
         :param final_time: The final time of the pulse
-        :return np.ndarray: The OC update pulse without guess, scaling and constraints
+        :return np.ndarray: The OC pulse (base and update pulse) without guess, scaling and constraints
         """
         self._set_control_parameters(optimized_parameters_vector)
         self._set_time_grid(final_time)
-        return self._get_shaped_pulse()
+        return self.base_pulse + self._get_shaped_pulse()
 
     def set_base_pulse(self, optimized_control_parameters: np.ndarray, final_time: float = 1.0) -> None:
         """
-- 
2.43.0


From 9f5bdf2dd1a87a8978ad8354e2bb7aecbd786268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:50 +0000
Subject: [PATCH 29/34] fix: Ctrl+C stops the optimization created last instead
 of the one executed

---
 .../optimizationalgorithms/OptimizationAlgorithm.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index 52e2f24..f54fbb2 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -91,10 +91,8 @@ class OptimizationAlgorithm:
         # FoM dictionary
         self.FoM_dict = {"FoM": INITIAL_FOM, "std": 0.1}
         self.comm_obj.print_logger(message=message, level=20)
-        # listener for ctrl + c cancellation
-        if threading.current_thread() is threading.main_thread():
-            signal.signal(signal.SIGINT, self.handle_user_cancellation)
-        # signal.signal(signal.SIGINT, self.handle_user_cancellation)
+        # listener for ctrl + c cancellation, active while the optimization is executed
+        self.previous_sigint_handler = None
 
         if "algorithm_settings" in self.optimization_dict:
             temp_dict = self.optimization_dict["algorithm_settings"]
@@ -137,6 +135,9 @@ class OptimizationAlgorithm:
         self.comm_obj.update_init_msg_server(upd_name=self.comm_obj.client_job_name)
         # set start time of optimization
         self.optimization_start_time = datetime.now()
+        # From now on ctrl + c stops this optimization, and not another one which has been created meanwhile
+        if threading.current_thread() is threading.main_thread():
+            self.previous_sigint_handler = signal.signal(signal.SIGINT, self.handle_user_cancellation)
 
     def _routine_call(self, optimized_control_parameters: np.array, iterations: int) -> float:
         """
@@ -319,6 +320,10 @@ class OptimizationAlgorithm:
 
     def end(self) -> None:
         """Finalize the transmission with  the client"""
+        # Give ctrl + c back, e.g. to the optimization this one was executed in
+        if self.previous_sigint_handler is not None:
+            signal.signal(signal.SIGINT, self.previous_sigint_handler)
+            self.previous_sigint_handler = None
         # Check client update
         self.comm_obj.check_msg_client()
         # End communication
-- 
2.43.0


From b588128a568d72834b3faff4a9b5833dcbd20f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:50 +0000
Subject: [PATCH 30/34] fix: controls named like arguments of savez crash or
 get lost in the best controls file

---
 src/quocslib/utils/BestDump.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/utils/BestDump.py b/src/quocslib/utils/BestDump.py
index 968e04f..161a893 100644
--- a/src/quocslib/utils/BestDump.py
+++ b/src/quocslib/utils/BestDump.py
@@ -77,6 +77,8 @@ class BestDump(AbstractDump):
             return
 
         controls_dict = {}
+        # Names which cannot be used for the entries of the file
+        reserved_names = {} if self.dump_format == "json" else dict.fromkeys(["file", "allow_pickle"])
         pulse_index = 0
         pulse_names = []
         if "pulse_names" in {**kwargs}:
@@ -92,7 +94,7 @@ class BestDump(AbstractDump):
 
         for pulse, time_grid in zip(pulses, timegrids):
             pulse_name = pulse_names[pulse_index]
-            pulse_name = self._get_free_name(pulse_name, pulse_index + 1, {**controls_dict, **kwargs})
+            pulse_name = self._get_free_name(pulse_name, pulse_index + 1, {**controls_dict, **kwargs, **reserved_names})
             time_name = "time_grid_for_" + pulse_name
             controls_dict[pulse_name] = pulse
             controls_dict[time_name] = time_grid
@@ -107,7 +109,7 @@ class BestDump(AbstractDump):
 
         for parameter in parameters:
             param_name = parameter_names[parameter_index]
-            param_name = self._get_free_name(param_name, parameter_index + 1, {**controls_dict, **kwargs})
+            param_name = self._get_free_name(param_name, parameter_index + 1, {**controls_dict, **kwargs, **reserved_names})
             controls_dict[param_name] = parameter
             parameter_index += 1
 
-- 
2.43.0


From d492696a2918dde31bade4370adc039b0e5924bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:50 +0000
Subject: [PATCH 31/34] fix: settings with numpy scalars or functions truncate
 the stored settings file

---
 src/quocslib/utils/inputoutput.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/utils/inputoutput.py b/src/quocslib/utils/inputoutput.py
index a3c41a4..efa92ca 100644
--- a/src/quocslib/utils/inputoutput.py
+++ b/src/quocslib/utils/inputoutput.py
@@ -51,7 +51,10 @@ class ObjectEncoder(json.JSONEncoder):
         """
         if isinstance(obj, np.ndarray):
             return obj.tolist()
-        if obj is callable:
+        if isinstance(obj, np.generic):
+            # numpy scalars, e.g. an integer of type int64
+            return obj.item()
+        if callable(obj):
             return None
         if inspect.isclass(obj):
             return None
-- 
2.43.0


From f8a67f714978ff77406868f0f42b8372a0682544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:50 +0000
Subject: [PATCH 32/34] fix: noise for a multiple of the time step lacks a
 sample due to rounding

---
 .../noiseprocesses/ornsteinuhlenbeckprocess.py       | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/noiseprocesses/ornsteinuhlenbeckprocess.py b/src/quocslib/noiseprocesses/ornsteinuhlenbeckprocess.py
index 349ac43..3e41969 100644
--- a/src/quocslib/noiseprocesses/ornsteinuhlenbeckprocess.py
+++ b/src/quocslib/noiseprocesses/ornsteinuhlenbeckprocess.py
@@ -12,13 +12,21 @@ class OrnsteinUhlenbeck:
         self.x0 = x0
         self.dt = dt
 
+    def _get_n_slices(self, T):
+        """
+        Get the number of time steps, a multiple of the time step is not cut due to rounding
+        :param T: total time of the noise realization
+        :return: number of time steps
+        """
+        return int(np.floor(np.round(T / self.dt, 9)))
+
     def get_noise_realization(self, T):
         """
         Get a single noise realization
         :param T: total time of the noise realization
         :return: a single noise realization
         """
-        n_slices = int(np.floor(T / self.dt))
+        n_slices = self._get_n_slices(T)
         output = np.zeros(n_slices)
         output[0] = self.x0
         mu = np.exp(-(1 / self.tau) * self.dt)
@@ -36,7 +44,7 @@ class OrnsteinUhlenbeck:
         :param kwargs:
         :return: an ensemble of noise realizations
         """
-        n_slices = int(np.floor(T / self.dt))
+        n_slices = self._get_n_slices(T)
 
         # now if x0 is a function then we sample from it
         # if x0 is an array we just use it
-- 
2.43.0


From 43a4a1abb255e64a2455a81b186b2f1fea30fd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:50 +0000
Subject: [PATCH 33/34] fix: text controls of the file exchange lose digits of
 small values

---
 src/quocslib/utils/FilesUpdateFom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/quocslib/utils/FilesUpdateFom.py b/src/quocslib/utils/FilesUpdateFom.py
index a68a7df..4abdf21 100644
--- a/src/quocslib/utils/FilesUpdateFom.py
+++ b/src/quocslib/utils/FilesUpdateFom.py
@@ -134,10 +134,10 @@ class FilesUpdateFoM(AbstractFoM):
         """
         with open(self.controls_path, "wb") as controls_file:
             for pulse, time_grid in zip(pulses_list, time_grids_list):
-                np.savetxt(controls_file, [pulse], fmt="%f")
-                np.savetxt(controls_file, [time_grid], fmt="%f")
+                np.savetxt(controls_file, [pulse], fmt="%.17g")
+                np.savetxt(controls_file, [time_grid], fmt="%.17g")
 
-            np.savetxt(controls_file, parameters_list, fmt="%f")
+            np.savetxt(controls_file, parameters_list, fmt="%.17g")
 
     def _put_controls_json(self, pulses_list: list, time_grids_list: list, parameters_list: list):
         """
-- 
2.43.0


From 12b9ecb40c24ecc0c419bcd69f28bcfec3811faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:30 +0000
Subject: [PATCH 34/34] fix: Nelder-Mead without a start simplex leaves out the
 start point and uses zero instead

---
 src/quocslib/gradientfreemethods/NelderMead.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quocslib/gradientfreemethods/NelderMead.py b/src/quocslib/gradientfreemethods/NelderMead.py
index 36dbe6c..8e7fb00 100644
--- a/src/quocslib/gradientfreemethods/NelderMead.py
+++ b/src/quocslib/gradientfreemethods/NelderMead.py
@@ -81,6 +81,7 @@ class NelderMead(DirectSearchMethod):
             nonzdelt = 0.05
             zdelt = 0.00025
             sim = np.zeros((dim + 1, dim), dtype=x0.dtype)
+            sim[0] = x0
             for k in range(dim):
                 y = np.array(x0, copy=True)
                 if y[k] != 0:
-- 
2.43.0

